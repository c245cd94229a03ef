//! Whole-system relations: a pool depends on nothing but itself, holders can
//! always leave, the value a curve reports.
use crate::big::*;
use crate::chain::{guard, Meta, Out};
use crate::engine::*;
use crate::model::Dir;
use crate::props::liq::judge_wdall;
use crate::refm::*;
use crate::src::Src;
use crate::world::*;
use crate::{bad, ensure};

const WITH_LINEAR: Setup = Setup { curves: [3, 3, 2, 2, 3], fees: true, max_bits: 60 };
const DEPOSITS: Setup = Setup { curves: [4, 3, 4, 2, 0], fees: true, max_bits: 58 };

fn same_out(a: &Out, b: &Out) -> bool {
    match (a, b) { (Out::Err(x), Out::Err(y)) => x == y, _ => std::mem::discriminant(a) == std::mem::discriminant(b) }
}
fn gen_history_op(src: &mut Src, w: &World, lim: bool) -> Op { let mut m = MIX; m.limits = lim; gen_op(src, w, &m) }

/// the same history, on a pool alone and on the same pool among others / under other
/// addresses / rebuilt from its balances, has the same outcome at every step
fn isolated(src: &mut Src, ctx: &mut Ctx) -> R {
    let w0 = match gen_world(src, &WITH_LINEAR) { Some(w) => w, None => { ctx.label("no-pool"); return Ok(()) } };
    let nb = match gen_world(src, &WITH_LINEAR) { Some(w) => w, None => { ctx.label("no-pool"); return Ok(()) } };
    let clash = nb.bank.accs.keys().any(|k| *k != spl_token::ID && w0.bank.accs.contains_key(k));
    let s0 = w0.snap();
    ctx.note(|| format!("{:?} {:?} reserves {}/{} LP {}; neighbour {:?} {:?}", w0.pool.curve, w0.pool.fees, s0.a, s0.b, s0.supply, nb.pool.curve, nb.pool.fees));
    // the same pool under other addresses
    let salt2 = if src.chance(1, 2) { 1000 + src.below(256) } else { ALIKE + src.below(NALIKE) };
    let mut twin = match World::new(salt2, w0.pool.curve, w0.pool.fees, 0.max(if w0.pool.curve.is_linear() { 0 } else { 1 }), 1, u64::MAX >> 4) { Ok(w) => w, Err(o) => bad!("twin", "a pool that can be initialised at one address cannot at another: {o:?}") };
    set_all(&mut twin, &s0);
    ensure!(twin.snap() == s0, "twin", "harness: twin balances");
    let mut alone = w0.clone();
    let mut shared = w0.clone();
    let mut neigh = nb;
    let lim = src.chance(1, 3);
    if !clash { for (k, v) in &neigh.bank.accs { shared.bank.accs.entry(*k).or_insert_with(|| v.clone()); } }
    for _ in 0..1 + src.below(7) {
        let op = gen_history_op(src, &alone, lim);
        let rebuilt = src.chance(1, 4).then(|| { let mut r = w0.clone(); set_all(&mut r, &alone.snap()); r.apply(&op) });
        let st = alone.apply(&op);
        ctx.steps += 1;
        ctx.note(|| format!("{:?} -> {:?}; reserves {}/{} LP {}", op, st.out, st.post.a, st.post.b, st.post.supply));
        if let Out::Panic(m) = &st.out { bad!("panic", "aborted: {m} in {op:?}"); }
        if st.out.ok() { ctx.nontrivial(&(w0.pool.curve, w0.pool.fees, st.pre, op)); ctx.label("accepted"); }
        let t = twin.apply(&op);
        ensure!(same_out(&st.out, &t.out) && st.post == t.post, "address", "the same pool under other addresses: {op:?} gave {:?} {:?}, there {:?} {:?}", st.out, st.post, t.out, t.post);
        if let Some(r) = rebuilt {
            ctx.label("rebuilt");
            ensure!(same_out(&st.out, &r.out) && st.post == r.post, "history", "a pool put into the same state directly: {op:?} gave {:?} {:?}, there {:?} {:?}", st.out, st.post, r.out, r.post);
        }
        if !clash {
            // a few requests to the neighbour first, in the same world of accounts
            for _ in 0..src.below(3) {
                std::mem::swap(&mut neigh.bank, &mut shared.bank);
                let nop = gen_history_op(src, &neigh, false);
                let ns = neigh.apply(&nop);
                std::mem::swap(&mut neigh.bank, &mut shared.bank);
                if ns.out.ok() { ctx.label("neighbour"); }
                let now = shared.snap();
                ensure!(now == st.pre, "neighbour", "a request to another pool changed this one: {nop:?}: {:?} -> {now:?}", st.pre);
            }
            let h = shared.apply(&op);
            ensure!(same_out(&st.out, &h.out) && st.post == h.post, "neighbour", "with another pool in use: {op:?} gave {:?} {:?}, alone {:?} {:?}", h.out, h.post, st.out, st.post);
        }
    }
    Ok(())
}
/// the same request with features of the accounts changed that must not matter
fn incidental(src: &mut Src, ctx: &mut Ctx) -> R {
    let w = match gen_world(src, &WITH_LINEAR) { Some(w) => w, None => { ctx.label("no-pool"); return Ok(()) } };
    let lim = src.chance(1, 3); let op = gen_history_op(src, &w, lim);
    if matches!(op, Op::Donate { .. } | Op::Burn { .. }) { ctx.label("outside"); return Ok(()); }
    let plain = w.try_op(&op);
    if let Out::Panic(m) = &plain.out { bad!("panic", "aborted: {m} in {op:?}"); }
    let mut c = w.clone();
    let mut did = clutter(src, &mut c, true);
    // the host's account now belongs to someone else, who may not be the requester's party
    let acts = match op { Op::Swap { u, .. } | Op::DepAll { u, .. } | Op::WdAll { u, .. } | Op::Dep1 { u, .. } | Op::Wd1 { u, .. } => u, _ => unreachable!() };
    if acts == HOST_USER && did.contains(&"owner and delegate of the host's account") { ctx.label("own-account"); return Ok(()); }
    let mut metas = c.metas(&op);
    for m in metas.iter_mut() { if src.chance(1, 4) { m.writable = true; } }
    if src.chance(1, 3) { let i = src.usize(metas.len()); if metas[i].key != c.pool.auth && i != 2 { metas[i].signer = true; did.push("another signature"); } }
    if !matches!(op, Op::Swap { .. }) && src.chance(1, 3) { for _ in 0..1 + src.below(3) { let k = *src.pick(&[c.pool.fee, c.users[1].lp, c.users[2].a, c.pool.mint_a, key("passer-by", 0)]); metas.push(Meta { key: k, signer: false, writable: src.below(2) == 0 }); } did.push("more accounts"); }
    // what is paid out may go to anyone
    let mut plain = plain;
    if src.chance(1, 3) {
        let v = (acts + 1 + src.usize(NU - 1)) % NU;
        let (x, y) = (w.users[acts].clone(), w.users[v].clone());
        let to = |m: &mut Vec<Meta>, i: usize| { let k = m[i].key; m[i].key = if k == x.a { y.a } else if k == x.b { y.b } else { y.lp }; };
        let d = plain.du(acts);
        let (p, n) = (&mut plain.post, v);
        match op {
            Op::Swap { dir: Dir::AtoB, .. } => { to(&mut metas, 6); p.ub[acts] -= d.1 as u64; p.ub[n] += d.1 as u64 }
            Op::Swap { .. } => { to(&mut metas, 6); p.ua[acts] -= d.0 as u64; p.ua[n] += d.0 as u64 }
            Op::DepAll { .. } => { to(&mut metas, 8); p.ul[acts] -= d.2 as u64; p.ul[n] += d.2 as u64 }
            Op::Dep1 { .. } => { to(&mut metas, 7); p.ul[acts] -= d.2 as u64; p.ul[n] += d.2 as u64 }
            Op::WdAll { .. } => { to(&mut metas, 7); to(&mut metas, 8); p.ua[acts] -= d.0 as u64; p.ua[n] += d.0 as u64; p.ub[acts] -= d.1 as u64; p.ub[n] += d.1 as u64 }
            Op::Wd1 { .. } => { to(&mut metas, 7); p.ua[acts] -= d.0 as u64; p.ua[n] += d.0 as u64; p.ub[acts] -= d.1 as u64; p.ub[n] += d.1 as u64 }
            _ => unreachable!(),
        }
        did.push("paid to someone else");
    }
    let out = c.run(&op, &metas);
    let post = c.snap();
    ctx.note(|| format!("{op:?} -> {:?}; with {did:?} -> {out:?}", plain.out));
    for d in &did { ctx.label(d); }
    if plain.out.ok() { ctx.nontrivial(&(w.pool.curve, w.pool.fees, plain.pre, op, did.concat())); }
    ensure!(same_out(&plain.out, &out) && plain.post == post, "incidental", "{op:?} on {:?} gave {:?} {:?}; with a change of {did:?}: {out:?} {post:?}", w.pool.curve, plain.out, plain.post);
    Ok(())
}
/// set every balance of a world
fn set_all(w: &mut World, s: &Snap) {
    let p = w.pool.clone();
    w.bank.edit_tok(&p.a, |t| t.amount = s.a);
    w.bank.edit_tok(&p.b, |t| t.amount = s.b);
    let (mut ta, mut tb) = (s.a, s.b);
    for (i, u) in w.users.clone().iter().enumerate() {
        w.bank.edit_tok(&u.a, |t| t.amount = s.ua[i]);
        w.bank.edit_tok(&u.b, |t| t.amount = s.ub[i]);
        w.bank.edit_tok(&u.lp, |t| t.amount = s.ul[i]);
        ta += s.ua[i];
        tb += s.ub[i];
    }
    w.bank.edit_mint(&p.mint_a, |m| m.supply = ta);
    w.bank.edit_mint(&p.mint_b, |m| m.supply = tb);
    w.bank.edit_mint(&p.lp, |m| m.supply = s.supply);
}

fn flip_snap(s: &Snap) -> Snap { Snap { a: s.b, b: s.a, ua: s.ub, ub: s.ua, ..*s } }
fn flip_op(o: &Op) -> Op {
    match *o {
        Op::Swap { u, dir, amt, min, host } => Op::Swap { u, dir: dir.flip(), amt, min, host },
        Op::DepAll { u, lp, max_a, max_b } => Op::DepAll { u, lp, max_a: max_b, max_b: max_a },
        Op::WdAll { u, lp, min_a, min_b } => Op::WdAll { u, lp, min_a: min_b, min_b: min_a },
        Op::Dep1 { u, dir, amt, min } => Op::Dep1 { u, dir: dir.flip(), amt, min },
        Op::Wd1 { u, dir, amt, max } => Op::Wd1 { u, dir: dir.flip(), amt, max },
        Op::Donate { u, dir, amt } => Op::Donate { u, dir: dir.flip(), amt },
        Op::Burn { .. } => *o,
    }
}
/// a product pool with its two tokens exchanged behaves as the mirror image
fn mirrored(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut w = match gen_world(src, &Setup { curves: [1, 0, 0, 0, 0], fees: true, max_bits: 62 }) { Some(w) => w, None => { ctx.label("no-pool"); return Ok(()) } };
    let mut m = w.clone();
    let s0 = w.snap();
    set_all(&mut m, &flip_snap(&s0));
    ctx.note(|| format!("{:?} reserves {}/{} LP {}", w.pool.fees, s0.a, s0.b, s0.supply));
    let lim = src.chance(1, 2);
    for _ in 0..1 + src.below(6) {
        let op = gen_history_op(src, &w, lim);
        let (x, y) = (w.apply(&op), m.apply(&flip_op(&op)));
        ctx.steps += 1;
        ctx.note(|| format!("{:?} -> {:?}; mirror {:?}", op, x.out, y.out));
        if x.out.ok() { ctx.nontrivial(&(w.pool.fees, x.pre, op)); ctx.label("accepted"); }
        ensure!(x.out.ok() == y.out.ok() && flip_snap(&x.post) == y.post, "mirror", "exchanging the two tokens changes the outcome of {op:?}: {:?} {:?}, mirrored {:?} {:?}", x.out, x.post, y.out, y.post);
    }
    Ok(())
}

/// after any history every holder redeems, in any order and in pieces
fn leave(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut w = match gen_world(src, &DEPOSITS) { Some(w) => w, None => { ctx.label("no-pool"); return Ok(()) } };
    let c = w.pool.curve;
    let s0 = w.snap();
    ctx.note(|| format!("{c:?} {:?} reserves {}/{} LP {}", w.pool.fees, s0.a, s0.b, s0.supply));
    for _ in 0..src.below(7) {
        let op = gen_history_op(src, &w, false);
        let st = w.apply(&op);
        ctx.steps += 1;
        ctx.note(|| format!("{:?} -> {:?}; reserves {}/{} LP {}", op, st.out, st.post.a, st.post.b, st.post.supply));
    }
    let proportional = matches!(c, Curve::Product | Curve::Stable(_));
    let s1 = w.snap();
    let held: u128 = s1.ul.iter().map(|x| *x as u128).sum();
    ensure!(held == s1.supply as u128, "supply", "holders have {held} LP tokens of a supply of {}", s1.supply);
    let mut pieces = 0u64;
    let mut stuck = false;
    for _ in 0..14 {
        let s = w.snap();
        let holders: Vec<usize> = (0..NU).filter(|i| s.ul[*i] > 0 && (*i != FEE_USER || (0..NU).all(|j| j == FEE_USER || s.ul[j] == 0) || src.chance(1, 4))).collect();
        if holders.is_empty() { break; }
        let us = *src.pick(&holders);
        let lp = if src.chance(1, 4) { src.log_to(s.ul[us]).min(s.ul[us]) } else { s.ul[us] };
        let op = Op::WdAll { u: us, lp, min_a: 0, min_b: 0 };
        let st = w.apply(&op);
        ctx.steps += 1;
        ctx.note(|| format!("{:?} -> {:?}; reserves {}/{} LP {}", op, st.out, st.post.a, st.post.b, st.post.supply));
        if let Out::Panic(m) = &st.out { bad!("panic", "aborted: {m} in {op:?}"); }
        let paid = judge_wdall(&w, &st, ctx)?;
        if !paid && lp == s.ul[us] { stuck = true; break; }
        if paid {
            pieces += 1;
            ctx.nontrivial(&(c, w.pool.fees, st.pre, op));
            if proportional && st.post.supply > 0 {
                // nobody else's share suffers
                let (x0, x1) = (st.pre.supply as u128, st.post.supply as u128);
                ensure!(share_ok(u(st.pre.a as u128), x0, u(st.post.a as u128), x1, 0) && share_ok(u(st.pre.b as u128), x0, u(st.post.b as u128), x1, 0), "share", "a redemption lowered what the remaining LP tokens are backed by: {op:?} {:?} -> {:?}", st.pre, st.post);
            }
        }
    }
    let e = w.snap();
    if stuck { ctx.label("dust"); }
    if e.supply == 0 && pieces > 0 {
        ctx.label("all-left");
        if proportional { ensure!(e.a == 0 && e.b == 0, "left-behind", "every LP token is redeemed and {}/{} is left in the pool", e.a, e.b); }
    }
    Ok(())
}

/// the value a curve reports for a pool
fn value(src: &mut Src, ctx: &mut Ctx) -> R {
    let c = match gen_curve(src, &[3, 3, 2, 2, 0]) { Curve::Stable(a) if src.chance(1, 16) => Curve::Stable(src.any64().max(a)), c => c };
    let (a, b) = (src.log(64), src.log(64));
    let (a, b) = if matches!(c, Curve::Stable(_)) { ((a >> 1).max(1), (b >> 1).max(1)) } else { (a, b) };
    let real = c.real();
    let val = |a: u64, b: u64| -> Result<Option<U>, Failure> {
        match guard(|| Ok::<_, ()>(real.calculator.normalized_value(a as u128, b as u128).map(|p| { let mut bytes = [0u8; 32]; p.value.to_little_endian(&mut bytes); U::from_little_endian(&bytes) }))) {
            Ok(Ok(v)) => Ok(v),
            Err(m) => Err(Failure { sig: "panic".into(), msg: format!("valuing {a}/{b} on {c:?} aborted: {m}") }),
            _ => unreachable!(),
        }
    };
    let one = u(1_000_000_000_000); // twelve decimals
    let v = val(a, b)?;
    ctx.note(|| format!("{c:?} {a}/{b}: {v:?}"));
    ctx.nontrivial(&(c, a, b));
    match c {
        Curve::Product | Curve::Offset(_) => {
            let o = if let Curve::Offset(o) = c { o } else { 0 };
            let k = u(a as u128) * (u(b as u128) + u(o as u128));
            // roots are only taken of what 128 bits hold
            let v = match v { Some(v) => v, None if k.bits() > 128 => { ctx.label("too-wide"); return Ok(()); } None => bad!("none", "no value for {a}/{b} on {c:?}") };
            // square root to 12 decimals, relative precision of the root's approximation
            let exact = isqrt(k * one * one);
            let d = if v > exact { v - exact } else { exact - v };
            ensure!(d <= exact / u(100_000_000_000) + 10, "value", "{c:?} {a}/{b} valued {v} (12 decimals), its root is {exact}");
        }
        Curve::Price(p) => {
            let t = u(a as u128) + u(b as u128) * u(p as u128);
            match v {
                Some(v) => ensure!(v / one == t / 2 || (t.bits() > 127 && (v / one == t / 2 - 1)), "value", "{c:?} {a}/{b} valued {v} (12 decimals), half of its worth is {}", t / 2),
                None => ensure!(t.bits() > 127, "none", "no value for {a}/{b} on {c:?}"),
            }
        }
        Curve::Stable(amp) => {
            if amp >= 1 << 63 && v.is_none() { ctx.label("too-steep"); return Ok(()); }
            if imbalance(a as u128, b as u128) > 1000 || a.min(b) < 3 { ctx.label("imbalanced"); return Ok(()); }
            let v = match v { Some(v) => v / one, None => { if a.max(b) >> 62 == 0 { bad!("none", "no value for {a}/{b} on {c:?}") } return Ok(()); } };
            let d = stable_d(amp, a as u128, b as u128);
            let diff = if v > d { v - d } else { d - v };
            ensure!(diff <= u(stable_err(a as u128, b as u128)), "value", "{c:?} {a}/{b} valued {v}, its invariant is {d}");
        }
        _ => {}
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P25", rule: "an accepted step of a compared history; key = curve, fees, all balances before it, request", assumptions: &[], subs: vec![
            Sub { name: "isolated", quick: 60_000, thorough: 3_000_000, f: isolated, what: "one history on a pool alone, under other addresses, among requests to another pool, and from a directly built equal state: the same outcome at every step" },
            Sub { name: "incidental", quick: 100_000, thorough: 5_000_000, f: incidental, what: "one request with features of the accounts changed that must not matter: delegates, close authorities, decimals, lamports, unused state bytes, more signatures, writable flags and accounts" },
            Sub { name: "mirrored", quick: 60_000, thorough: 3_000_000, f: mirrored, what: "product pools with the two tokens exchanged give the mirror image" },
        ] },
        Prop { id: "P28", rule: "a redemption that was paid; key = curve, fees, all balances, request", assumptions: &["price-curve requests whose intermediate value needs more than 127 bits may be refused"], subs: vec![
            Sub { name: "leave", quick: 100_000, thorough: 5_000_000, f: leave, what: "random histories, then every holder redeems in random order and pieces" },
        ] },
        Prop { id: "P29", rule: "every case: one curve and one pair of balances; key = those", assumptions: &["the root is judged to eleven decimals of its size, stable values within three units and for reserves within 1000:1"], subs: vec![
            Sub { name: "value", quick: 400_000, thorough: 20_000_000, f: value, what: "the reported value against the exact root, sum or invariant" },
        ] },
    ]
}
