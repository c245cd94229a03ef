//! Fees: their arithmetic, validation, the owner's and host's share of trades, the
//! withdrawal fee; and the limits a user puts on a request.
use crate::big::*;
use crate::chain::{self, Out};
use crate::engine::*;
use crate::model::*;
use crate::refm::*;
use crate::src::Src;
use crate::world::*;
use crate::{bad, ensure};

fn desc(w: &World, st: &Step) -> String {
    format!("{:?} {:?}; reserves {}/{} LP {}; {:?} -> {:?}; reserves {}/{} LP {}", w.pool.curve, w.pool.fees, st.pre.a, st.pre.b, st.pre.supply, st.op, st.out, st.post.a, st.post.b, st.post.supply)
}
fn gen_rate(src: &mut Src) -> (u64, u64) {
    match src.weighted(&[3, 3, 2, 2]) {
        0 => { let d = *src.pick(&[1u64, 2, 100, 1000, 10_000]); (src.below(d + 2), d) }
        1 => { let d = src.any64(); (match src.below(4) { 0 => d, 1 => d.wrapping_add(1), 2 => d.wrapping_sub(1), _ => src.log_to(d) }, d) }
        2 => (src.any64(), src.any64()),
        _ => (src.below(3), src.below(3)),
    }
}

fn arithmetic(src: &mut Src, ctx: &mut Ctx) -> R {
    let fs = FeeSet { t: gen_rate(src), o: gen_rate(src), w: gen_rate(src), h: gen_rate(src) };
    let real = fs.real();
    let valid = real.validate().is_ok();
    ctx.note(|| format!("{fs:?} valid {valid}"));
    ensure!(valid == fs.valid(), "validate", "{fs:?} {}", if valid { "accepted" } else { "refused" });
    ctx.label(if valid { "valid" } else { "invalid" });
    if !valid { ctx.nontrivial(&fs); return Ok(()); }
    let amt = match src.weighted(&[4, 2, 2, 1]) { 0 => src.any64(), 1 => { let d = fs.t.1.max(1); let k = src.log(16); d.wrapping_mul(k).wrapping_add(src.below(3)).wrapping_sub(1) } 2 => src.below(2000), _ => fs.o.1 / fs.o.0.max(1) } as u128;
    let all = [("trading", real.trading_fee(amt), fs.t), ("owner trading", real.owner_trading_fee(amt), fs.o), ("owner withdraw", real.owner_withdraw_fee(amt), fs.w), ("host", real.host_fee(amt), fs.h)];
    for (name, got, (n, d)) in all {
        // zero rate or nothing to charge: no fee; otherwise the share rounded down, but at least one unit
        let want = fee(amt, n, d);
        ensure!(got == Some(want), "amount", "{name} fee of {amt} at {n}/{d} is {got:?}, expected {want}");
        if want > 0 { ctx.nontrivial(&(n, d, amt)); }
    }
    Ok(())
}

/// LP tokens minted to the owner (and the host) by trades
fn owner_and_host(src: &mut Src, ctx: &mut Ctx) -> R {
    let w = match gen_world(src, &Setup { curves: [3, 3, 2, 2, 0], fees: true, max_bits: 60 }) { Some(w) => w, None => { ctx.label("no-pool"); return Ok(()) } };
    let mix = Mix { swap: 1, depall: 0, wdall: 0, dep1: 0, wd1: 0, donate: 0, burn: 0, limits: false, host: true };
    let op = gen_op(src, &w, &mix);
    let st = w.try_op(&op);
    ctx.note(|| desc(&w, &st));
    if let Out::Panic(m) = &st.out { bad!("panic", "aborted: {m}; {}", desc(&w, &st)); }
    // naming a host changes who receives the owner's LP tokens and nothing else
    let mut op2 = op;
    if let Op::Swap { host, .. } = &mut op2 { *host = match host { Some(_) if src.below(2) == 0 => None, _ => Some(src.usize(NU)) }; }
    let st2 = w.try_op(&op2);
    if let Out::Panic(m) = &st2.out { bad!("panic", "aborted: {m}; {}", desc(&w, &st2)); }
    ensure!(st.out.ok() == st2.out.ok() && (st.post.a, st.post.b, st.post.supply) == (st2.post.a, st2.post.b, st2.post.supply), "host-matters", "with another host the trade ends differently: {} / {}", desc(&w, &st), desc(&w, &st2));
    if !st.out.ok() { ctx.label("refused"); return Ok(()); }
    let (us, amt, dir, host) = match op { Op::Swap { u, amt, dir, host, .. } => (u, amt as u128, dir, host), _ => unreachable!() };
    let (c, f, p, q) = (w.pool.curve, w.pool.fees, &st.pre, &st.post);
    let of = fee(amt, f.o.0, f.o.1);
    ensure!(q.supply >= p.supply, "burned", "a trade burned LP tokens: {}", desc(&w, &st));
    let minted = (q.supply - p.supply) as u128;
    if of == 0 { ensure!(minted == 0, "minted", "{minted} LP minted on a trade without an owner fee: {}", desc(&w, &st)); }
    else {
        let iv = if let Curve::Stable(amp) = c {
            // the owner's fee is withdrawn from the pool as it is after the trade
            let (a, b) = (q.a as u128, q.b as u128);
            let (na, nb) = if dir == Dir::AtoB { (a.saturating_sub(of), b) } else { (a, b.saturating_sub(of)) };
            if imbalance(a, b) > 1000 || imbalance(na, nb) > 1000 || a.min(b).min(na).min(nb) < 3 { ctx.label("imbalanced"); None } else { Some(stable_share(amp, a, b, na, nb, p.supply as u128, false)) }
        } else { burn_for(&c, of, dir, q.a, q.b, p.supply) };
        if let Some(iv) = iv {
            ensure!(iv.has(minted), "owner-lp", "an owner fee of {of} is worth {iv:?} LP, {minted} were minted: {}", desc(&w, &st));
        }
    }
    // who got it
    let mut want = [0i128; NU];
    let host_lp = match host { Some(h) if minted > 0 => { let x = fee(minted, f.h.0, f.h.1); want[h] += x as i128; x } _ => 0 };
    want[FEE_USER] += (minted - host_lp) as i128;
    for i in 0..NU {
        let d = st.du(i);
        ensure!(d.2 == want[i], "split", "of {minted} LP minted, user {i} got {} instead of {} (host fee {host_lp}): {}", d.2, want[i], desc(&w, &st));
        if i != us { ensure!(d.0 == 0 && d.1 == 0, "bystander", "user {i}'s tokens moved: {}", desc(&w, &st)); }
    }
    // both fees stay in the pool: the whole amount is taken unless the price left a remainder
    let taken = (q.src(dir) - p.src(dir)) as u128;
    ensure!(taken <= amt && taken >= of + fee(amt, f.t.0, f.t.1), "kept", "took {taken} of {amt}: {}", desc(&w, &st));
    if minted > 0 { ctx.nontrivial(&(c, f, p.a, p.b, p.supply, amt, host)); }
    ctx.label(match (minted > 0, host_lp > 0) { (false, _) => "no-owner-fee", (true, false) => "owner", _ => "owner-and-host" });
    Ok(())
}

/// the withdrawal fee moves from the withdrawer to the fee account; the fee account itself pays none
fn withdraw_fee(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut w = match gen_world(src, &Setup { curves: [3, 3, 2, 2, 0], fees: true, max_bits: 60 }) { Some(w) => w, None => { ctx.label("no-pool"); return Ok(()) } };
    // let everyone hold LP tokens, the fee account too
    let s = w.snap();
    for i in 2..NU { let x = s.supply / (2 * NU as u64); if x > 0 { let (f, t) = (w.users[if s.ul[0] >= s.ul[1] { 0 } else { 1 }].lp, w.users[i].lp); w.bank.outside_transfer(&f, &t, x); } }
    let m = Mix { depall: 0, wdall: 1, swap: 0, dep1: 0, wd1: 1, donate: 0, burn: 0, limits: false, host: false };
    let op = gen_op(src, &w, &m);
    let st = w.try_op(&op);
    ctx.note(|| desc(&w, &st));
    if let Out::Panic(m) = &st.out { bad!("panic", "aborted: {m}; {}", desc(&w, &st)); }
    if !st.out.ok() { ctx.label("refused"); return Ok(()); }
    let f = w.pool.fees.w;
    let (us, burned) = match op { Op::WdAll { u, .. } | Op::Wd1 { u, .. } => (u, st.pre.supply as i128 - st.post.supply as i128), _ => unreachable!() };
    ensure!(burned >= 0, "minted", "a withdrawal minted LP: {}", desc(&w, &st));
    if us == FEE_USER {
        ensure!(-st.du(us).2 == burned, "exempt", "the fee account paid {} LP with {burned} burned: {}", -st.du(us).2, desc(&w, &st));
        ctx.label("exempt");
        ctx.nontrivial(&(w.pool.curve, w.pool.fees, st.pre, op));
        return Ok(());
    }
    let base = match op { Op::WdAll { lp, .. } => lp as u128, _ => burned as u128 };
    let fe = fee(base, f.0, f.1) as i128;
    ensure!(st.du(FEE_USER).2 == fe, "fee", "fee account got {} LP, {fe} due on {base} at {}/{}: {}", st.du(FEE_USER).2, f.0, f.1, desc(&w, &st));
    ensure!(-st.du(us).2 == burned + fe, "paid", "the withdrawer paid {} LP, {burned} burned + {fe} fee: {}", -st.du(us).2, desc(&w, &st));
    if let Op::WdAll { lp, .. } = op { ensure!(burned + fe == lp as i128, "total", "asked to redeem {lp}, {burned} burned + {fe} fee: {}", desc(&w, &st)); }
    ctx.label(if fe > 0 { "charged" } else { "free" });
    if fe > 0 { ctx.nontrivial(&(w.pool.curve, w.pool.fees, st.pre, op)); }
    Ok(())
}

/// the limit of a request at exactly its outcome, one unit off, and anywhere
fn limits(src: &mut Src, ctx: &mut Ctx) -> R {
    let w = match gen_world(src, &Setup { curves: [3, 3, 2, 2, 3], fees: true, max_bits: 60 }) { Some(w) => w, None => { ctx.label("no-pool"); return Ok(()) } };
    let mut m = MIX;
    m.donate = 0; m.burn = 0;
    let op = gen_op(src, &w, &m);
    let free = w.try_op(&op);
    if let Out::Panic(m) = &free.out { bad!("panic", "aborted: {m}; {}", desc(&w, &free)); }
    let p = &free.pre;
    // values the request is judged by
    let actual: Vec<u64> = match op {
        Op::Swap { dir, .. } => vec![p.dst(dir).wrapping_sub(free.post.dst(dir))],
        Op::DepAll { .. } => vec![free.post.a.wrapping_sub(p.a), free.post.b.wrapping_sub(p.b)],
        Op::WdAll { .. } => vec![p.a.wrapping_sub(free.post.a), p.b.wrapping_sub(free.post.b)],
        Op::Dep1 { .. } => vec![free.post.supply.wrapping_sub(p.supply)],
        Op::Wd1 { u, .. } => vec![free.pre.ul[u].wrapping_sub(free.post.ul[u])],
        _ => unreachable!(),
    };
    let is_min = matches!(op, Op::Swap { .. } | Op::WdAll { .. } | Op::Dep1 { .. });
    let n = actual.len();
    let mut lims = vec![if is_min { 0 } else { u64::MAX }; 2];
    for i in 0..n {
        lims[i] = match src.weighted(&[3, 3, 2, 2, 1]) {
            0 => actual[i],
            1 => if is_min { actual[i].saturating_add(1) } else { actual[i].saturating_sub(1) },
            2 => if is_min { actual[i].saturating_sub(1) } else { actual[i].saturating_add(1) },
            3 => amount(src, actual[i]),
            _ => src.any64(),
        };
    }
    let mut op2 = op;
    match &mut op2 {
        Op::Swap { min, .. } => *min = lims[0],
        Op::DepAll { max_a, max_b, .. } => { *max_a = lims[0]; *max_b = lims[1] }
        Op::WdAll { min_a, min_b, .. } => { *min_a = lims[0]; *min_b = lims[1] }
        Op::Dep1 { min, .. } => *min = lims[0],
        Op::Wd1 { max, .. } => *max = lims[0],
        _ => {}
    }
    let got = w.try_op(&op2);
    ctx.note(|| format!("{}; with limits {:?} against {actual:?}: {:?}", desc(&w, &free), &lims[..n], got.out));
    if let Out::Panic(m) = &got.out { bad!("panic", "aborted: {m}; {}", desc(&w, &got)); }
    if !free.out.ok() {
        ctx.label("refused-anyway");
        ensure!(!got.out.ok(), "limit-allows", "refused without limits ({:?}) but accepted with: {}", free.out, desc(&w, &got));
        return Ok(());
    }
    let met = (0..n).all(|i| if is_min { actual[i] >= lims[i] } else { actual[i] <= lims[i] });
    ctx.nontrivial(&(w.pool.curve, w.pool.fees, *p, op2));
    if met {
        ctx.label("within");
        ensure!(got.out.ok(), "within-refused", "limits {:?} are met by {actual:?} but: {}", &lims[..n], desc(&w, &got));
        ensure!(got.post == free.post, "limit-changes", "the limit changed the outcome: {} against {}", desc(&w, &free), desc(&w, &got));
    } else {
        ctx.label("beyond");
        ensure!(!got.out.ok(), "slipped", "limits {:?} are broken by {actual:?}, yet: {}", &lims[..n], desc(&w, &got));
        ensure!(got.out.custom() == Some(code::SLIPPAGE), "slip-code", "expected the slippage error, got {:?}: {}", got.out, desc(&w, &got));
        ensure!(got.pre == got.post, "moved", "a refused request moved tokens: {}", desc(&w, &got));
    }
    Ok(())
}

/// more of one side never buys less of the other
fn monotone(src: &mut Src, ctx: &mut Ctx) -> R {
    let w = match gen_world(src, &Setup { curves: [3, 3, 2, 2, 4], fees: true, max_bits: 60 }) { Some(w) => w, None => { ctx.label("no-pool"); return Ok(()) } };
    let mut m = MIX;
    m.donate = 0; m.burn = 0;
    let op = gen_op(src, &w, &m);
    let mut op2 = op;
    let x0 = match op { Op::Swap { amt, .. } | Op::Dep1 { amt, .. } | Op::Wd1 { amt, .. } => amt, Op::DepAll { lp, .. } | Op::WdAll { lp, .. } => lp, _ => unreachable!() };
    let more = match src.weighted(&[3, 2, 2]) { 0 => x0.saturating_add(1 + src.below(5)), 1 => x0.saturating_add(x0 / (1 + src.below(1000))), _ => x0.saturating_mul(2 + src.below(4)) };
    match &mut op2 { Op::Swap { amt, .. } | Op::Dep1 { amt, .. } | Op::Wd1 { amt, .. } => *amt = more, Op::DepAll { lp, .. } | Op::WdAll { lp, .. } => *lp = more, _ => {} }
    let (s1, s2) = (w.try_op(&op), w.try_op(&op2));
    ctx.note(|| format!("{} against {}", desc(&w, &s1), desc(&w, &s2)));
    for s in [&s1, &s2] { if let Out::Panic(m) = &s.out { bad!("panic", "aborted: {m}; {}", desc(&w, s)); } }
    if !s1.out.ok() || !s2.out.ok() { ctx.label("one-refused"); return Ok(()); }
    let c = w.pool.curve;
    // (given up, received) by the user, each non-negative
    let v = |s: &Step| -> Vec<(i128, &'static str)> {
        let d = match s.op { Op::Swap { u, .. } | Op::Dep1 { u, .. } | Op::Wd1 { u, .. } | Op::DepAll { u, .. } | Op::WdAll { u, .. } => s.du(u), _ => unreachable!() };
        match s.op {
            Op::Swap { dir, .. } => { let (x, y) = if dir == Dir::AtoB { (-d.0, d.1) } else { (-d.1, d.0) }; vec![(x, "paid"), (y, "received")] }
            Op::DepAll { .. } => vec![(-d.0, "A paid"), (-d.1, "B paid")],
            Op::WdAll { .. } => vec![(d.0, "A received"), (d.1, "B received")],
            Op::Dep1 { .. } => vec![(d.2, "LP received")],
            Op::Wd1 { .. } => vec![(-d.2, "LP paid")],
            _ => unreachable!(),
        }
    };
    let f = w.pool.fees;
    // two fees that both step up on the same unit take more than that unit
    let net = |x: u64| x as i128 - fee(x as u128, f.t.0, f.t.1) as i128 - fee(x as u128, f.o.0, f.o.1) as i128;
    if matches!(op, Op::Swap { .. }) && net(more) < net(x0) { ctx.label("fees-step"); return Ok(()); }
    ctx.nontrivial(&(c, w.pool.fees, s1.pre, op, more));
    ctx.label(match op { Op::Swap { .. } => "swap", Op::DepAll { .. } => "deposit-both", Op::WdAll { .. } => "withdraw-both", Op::Dep1 { .. } => "deposit-one", _ => "withdraw-one" });
    // rounding of the curve's roots
    let tol: i128 = match (c, op) {
        (Curve::Linear(l), Op::Swap { .. }) => {
            let t = [s1.pre.a, s1.post.a, s2.post.a].iter().map(|a| l.tol(u(*a as u128)) + l.sqrt_slack(u(*a as u128))).fold(U::zero(), |x, y| if x > y { x } else { y });
            let price = l.price_lo(u(s1.pre.a.max(s2.pre.a) as u128));
            let b = cap(t >> S) + 2;
            b.max(cap((t * price) >> (2 * S)) + cap(price >> S) + 4)
        }
        (Curve::Stable(_), Op::Swap { .. }) => 2 + (imbalance(s1.post.a as u128, s1.post.b as u128).max(imbalance(s2.post.a as u128, s2.post.b as u128)) as i128) / 10,
        (Curve::Stable(_), Op::Dep1 { .. } | Op::Wd1 { .. }) => {
            let i = [(s1.pre.a, s1.pre.b), (s1.post.a, s1.post.b), (s2.post.a, s2.post.b)].iter().map(|(a, b)| imbalance(*a as u128, *b as u128)).max().unwrap();
            if i > 1000 { return Ok(()); }
            let small = (s1.pre.a as u128 + s1.pre.b as u128).min(s2.post.a as u128 + s2.post.b as u128).max(1);
            ((8 + i / 10) * s1.pre.supply as u128 / small + 2) as i128
        }
        (_, Op::Dep1 { .. } | Op::Wd1 { .. }) if matches!(c, Curve::Product | Curve::Offset(_)) => (s1.pre.supply as i128) / 100_000_000_000 + 2,
        _ => 0,
    };
    for ((x1, n), (x2, _)) in v(&s1).iter().zip(v(&s2).iter()) {
        // a seller on the line may be charged less for the same proceeds
        ensure!(*x2 + tol >= *x1, "less", "{n} {x2} for {more} but {x1} for {x0} (tolerance {tol}): {} against {}", desc(&w, &s1), desc(&w, &s2));
    }
    Ok(())
}
fn cap(x: U) -> i128 { if x.bits() > 100 { i128::MAX / 8 } else { x.low_u128() as i128 } }

pub fn props() -> Vec<Prop> {
    let _ = chain::w;
    vec![
        Prop { id: "P11", rule: "a fee above zero was due (or a rate was refused, or the fee account withdrew); key = rates, amount, pool state", assumptions: &["the value of the owner's LP tokens is judged to the precision of P09"], subs: vec![
            Sub { name: "arithmetic", quick: 1_000_000, thorough: 60_000_000, f: arithmetic, what: "each fee is the share rounded down, at least one unit; rates are accepted exactly when below one (or 0/0)" },
            Sub { name: "owner-host", quick: 150_000, thorough: 8_000_000, f: owner_and_host, what: "owner's and host's LP tokens on trades on every curve" },
            Sub { name: "withdraw", quick: 150_000, thorough: 8_000_000, f: withdraw_fee, what: "withdrawal fee of both kinds of withdrawal, and the fee account's exemption" },
        ] },
        Prop { id: "P12", rule: "a request that succeeds without limits, rerun with limits; key = pool, request, limits", assumptions: &[], subs: vec![
            Sub { name: "limits", quick: 250_000, thorough: 12_000_000, f: limits, what: "each request rerun with limits equal to, one unit either side of, and far from its outcome" },
        ] },
        Prop { id: "P27", rule: "two requests differing in size only, both accepted; key = pool, request, larger size", assumptions: &["tolerances: the rounding slack of the linear, stable and square-root formulas as in P02, P03, P07, P09"], subs: vec![
            Sub { name: "monotone", quick: 200_000, thorough: 10_000_000, f: monotone, what: "the larger request pays at least as much and receives at least as much" },
        ] },
    ]
}
