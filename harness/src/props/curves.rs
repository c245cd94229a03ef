//! Swaps on the constant price, product, offset and stable curves.
use crate::big::*;
use crate::chain::{self, Out};
use crate::engine::*;
use crate::model::*;
use crate::refm::*;
use crate::src::Src;
use crate::world::*;
use crate::{bad, ensure};
use super::lin::td;

type Pair = Option<(u128, u128)>;
fn calc(c: &Curve, s: u128, x: u128, y: u128, dir: Dir) -> Result<Pair, Failure> {
    let real = c.real();
    match chain::guard(|| real.calculator.swap_without_fees(s, x, y, td(dir))) {
        Ok(r) => Ok(r.map(|r| (r.source_amount_swapped, r.destination_amount_swapped))),
        Err(m) => Err(Failure { sig: "panic".into(), msg: format!("swap panicked: {m}; {c:?} {s} {x} {y} {dir:?}") }),
    }
}
fn size(src: &mut Src) -> u64 { match src.weighted(&[6, 2, 1, 1]) { 0 => src.log(64), 1 => src.log(40), 2 => src.below(30), _ => u64::MAX - src.below(30) } }
/// an offered amount related to the reserves
fn offer(src: &mut Src, x: u64, y: u64) -> u64 {
    match src.weighted(&[4, 2, 2, 2]) {
        0 => src.log(64),
        1 => amount(src, x),
        2 => amount(src, y),
        _ => src.below(60),
    }
}

fn price_calc(src: &mut Src, ctx: &mut Ctx) -> R {
    let p = match src.weighted(&[2, 3, 3, 1]) { 0 => 1, 1 => 1 + src.below(1000), 2 => src.log_to(u64::MAX), _ => 0 };
    let (x, y) = (size(src), size(src));
    let dir = gen_dir(src);
    let s = if src.chance(1, 3) { let k = src.log(30); (p.wrapping_mul(k)).wrapping_add(src.below(5)).wrapping_sub(2) } else { offer(src, x, y) };
    let c = Curve::Price(p);
    let got = calc(&c, s as u128, x as u128, y as u128, dir)?;
    let want = price_swap(p, s as u128, dir);
    ctx.note(|| format!("price {p}, {dir:?} {s} -> {got:?}, expected {want:?}"));
    if want.is_some() { ctx.nontrivial(&(p, s, dir)); }
    ctx.label(if want.is_some() { "traded" } else { "refused" });
    ensure!(got == want, "price", "constant price {p}, {dir:?} {s}: got {got:?}, expected {want:?}");
    Ok(())
}

fn product_calc(src: &mut Src, ctx: &mut Ctx) -> R {
    let off = if src.chance(1, 2) { src.log_to(u64::MAX) } else { 0 };
    let (x, y) = (size(src), size(src));
    let dir = gen_dir(src);
    let s = offer(src, x, y);
    let c = if off > 0 { Curve::Offset(off) } else { Curve::Product };
    let got = calc(&c, s as u128, x as u128, y as u128, dir)?;
    let (vx, vy) = if dir == Dir::AtoB { (x as u128, y as u128 + off as u128) } else { (x as u128 + off as u128, y as u128) };
    ctx.note(|| format!("{c:?}: reserves {x}/{y}, {dir:?} {s} -> {got:?}"));
    // the product itself may not fit 128 bits: then, and only then, the trade may be refused
    let fits = vx.checked_mul(vy).is_some();
    let want = if fits { product_swap(s as u128, vx, vy) } else { None };
    ctx.label(if !fits { "too-big" } else if want.is_some() { "traded" } else { "refused" });
    if want.is_some() { ctx.nontrivial(&(c, x, y, s, dir)); }
    ensure!(got == want, "product", "{c:?}: reserves {x}/{y}, {dir:?} {s}: got {got:?}, expected {want:?}");
    if let Some((t, d)) = got {
        // independent restatement: the product never falls, and neither side could be better
        let k = u(vx) * u(vy);
        ensure!((u(vx) + u(t)) * (u(vy) - u(d)) >= k, "k-down", "product fell");
        ensure!(t <= s as u128, "taken", "took more than offered");
        ensure!(satsub(u(vx) + u(s as u128), U::zero()) * (u(vy) - u(d) - 1) < k || u(vy) - u(d) == U::one(), "stingy", "one more unit could have been given");
        ensure!((u(vx) + u(t) - 1) * (u(vy) - u(d)) < k, "overtaken", "one unit less would have sufficed");
    }
    Ok(())
}

/// a swap through the program on an exactly predictable curve
fn prog(src: &mut Src, ctx: &mut Ctx, curves: [u64; 5]) -> R {
    let w = match gen_world(src, &Setup { curves, fees: true, max_bits: 60 }) { Some(w) => w, None => { ctx.label("no-pool"); return Ok(()) } };
    let mix = Mix { swap: 1, depall: 0, wdall: 0, dep1: 0, wd1: 0, donate: 0, burn: 0, limits: false, host: true };
    let op = gen_op(src, &w, &mix);
    let st = w.try_op(&op);
    let (u_, amt, dir, host) = match op { Op::Swap { u, amt, dir, host, .. } => (u, amt, dir, host), _ => unreachable!() };
    let pred = predict_swap(&w.pool.curve, &w.pool.fees, &st.pre, amt, dir);
    ctx.note(|| format!("{:?} {:?} reserves {}/{} LP {}; {:?} -> {:?}; expected {:?}", w.pool.curve, w.pool.fees, st.pre.a, st.pre.b, st.pre.supply, op, st.out, pred));
    if let Out::Panic(m) = &st.out { bad!("panic", "swap aborted: {m}"); }
    match pred {
        Err(why) => {
            ctx.label("refused");
            ensure!(!st.out.ok(), "accepted", "a swap that must be refused ({why}) went through: {:?} -> reserves {}/{}", op, st.post.a, st.post.b);
            ensure!(st.pre == st.post, "moved", "a refused swap moved tokens");
        }
        Ok(p) => {
            if p.taken > st.pre.us(u_, dir) as u128 { ctx.label("no-funds"); ensure!(!st.out.ok(), "unfunded", "a swap of {} succeeded with {} in the account", p.taken, st.pre.us(u_, dir)); return Ok(()); }
            if st.pre.supply as u128 + p.lp.hi > u64::MAX as u128 { ctx.label("lp-overflow"); return Ok(()); }
            ensure!(st.out.ok(), "refused", "a swap worth {} for {} was refused with {:?}: {:?} on {:?}, reserves {}/{}, LP {}", p.given, p.taken, st.out, op, w.pool.curve, st.pre.a, st.pre.b, st.pre.supply);
            ctx.label("traded");
            ctx.nontrivial(&(w.pool.curve, w.pool.fees, st.pre.a, st.pre.b, amt, dir));
            let t = st.post.src(dir) as i128 - st.pre.src(dir) as i128;
            let d = st.pre.dst(dir) as i128 - st.post.dst(dir) as i128;
            ensure!(t == p.taken as i128 && d == p.given as i128, "amounts", "reserves moved +{t}/-{d}, expected +{}/-{}: {:?} on {:?} {:?}, reserves {}/{}", p.taken, p.given, op, w.pool.curve, w.pool.fees, st.pre.a, st.pre.b);
            let du = st.du(u_);
            let (us, ud) = if dir == Dir::AtoB { (-du.0, du.1) } else { (-du.1, du.0) };
            ensure!(us == t && ud == d, "user", "the trader's balances moved -{us}/+{ud}");
            let _ = host;
        }
    }
    Ok(())
}
fn price_prog(src: &mut Src, ctx: &mut Ctx) -> R { prog(src, ctx, [0, 1, 0, 0, 0]) }
fn product_prog(src: &mut Src, ctx: &mut Ctx) -> R { prog(src, ctx, [2, 0, 0, 1, 0]) }

// ---------------------------------------------------------------- stable
fn gen_amp(src: &mut Src) -> u64 { match src.weighted(&[10, 4, 2, 3]) { 0 => 1 + src.below(500), 1 => src.log_to(1 << 20), 2 => src.below(3), _ => src.any64() } }
/// twice the amplifier does not fit: such a pool cannot be traded with
fn too_steep(amp: u64) -> bool { amp >= 1 << 63 }
fn gen_pair(src: &mut Src, imb: u64) -> (u64, u64) {
    let x = src.log(62).max(1);
    let y = (x / (1 + src.below(imb))).max(1);
    if src.below(2) == 0 { (x, y) } else { (y, x) }
}
fn ratio(x: u128, y: u128) -> u128 { if x > y { x / y.max(1) } else { y / x.max(1) } }

fn stable_calc(src: &mut Src, ctx: &mut Ctx) -> R {
    let amp = gen_amp(src);
    let (x, y) = if src.chance(1, 4) { (src.log(62).max(1), src.log(62).max(1)) } else { let i = *src.pick(&[10, 100, 1000, 1_000_000]); gen_pair(src, i) };
    // any amount, or one that all but empties the other side
    let s = match src.weighted(&[4, 1, 1]) { 0 => src.log_to(x.saturating_mul(2)), 1 => y - src.log_to(y / 8).min(y) + src.log_to(y / 8), _ => src.log_to(y.saturating_mul(3)) };
    let dir = gen_dir(src);
    let (x, y, s) = (x as u128, y as u128, s as u128);
    let got = calc(&Curve::Stable(amp), s, x, y, dir)?;
    ctx.note(|| format!("amp {amp}, reserves {x}/{y}, {s} -> {got:?}"));
    let mirror = calc(&Curve::Stable(amp), s, x, y, dir.flip())?;
    ensure!(mirror == got, "mirror", "the stable curve treats its two tokens differently: {got:?} / {mirror:?}");
    // every curve refuses a trade of nothing
    if s == 0 { ctx.label("nothing"); ensure!(got.map_or(true, |g| g == (0, 0)), "free", "amp {amp}, reserves {x}/{y}: nothing bought {got:?}"); return Ok(()); }
    if amp == 0 { ensure!(got.is_none(), "amp0", "an amplifier of zero produced a trade"); return Ok(()); }
    let fair = ratio(x, y) <= 1_000_000 && ratio(x + s, y) <= 1_000_000;
    match got {
        None => {
            ctx.label("refused");
            if fair && x >= 10 && y >= 10 && !too_steep(amp) {
                let yn = stable_y(amp, x + s, stable_d(amp, x, y) + solver_err(x, y));
                ensure!(satsub(u(y), yn) < u(2) || stable_y(amp, x + s, stable_d(amp, x, y)) < u(100), "refused", "amp {amp}: swap of {s} against {x}/{y}, worth {}, refused", satsub(u(y), yn));
            }
        }
        Some((t, d)) => {
            ctx.label(if fair { "traded" } else { "traded-imbalanced" });
            ctx.nontrivial(&(amp, x, y, s));
            ensure!(t == s, "taken", "took {t} of {s}");
            ensure!(d < y, "drain", "gave {d} of {y}");
            // handing one unit back restores the invariant
            let d0 = stable_d(amp, x, y);
            let d1 = stable_d(amp, x + s, y - d + 1);
            ensure!(d1 + 1 >= d0, "overpaid", "amp {amp}, reserves {x}/{y}: {s} bought {d}; the invariant falls from {d0} to {d1} even with a unit handed back");
            if fair {
                // the invariant is solved in integers: it may come out up to three units high
                let yn = stable_y(amp, x + s, d0 + solver_err(x, y));
                let want = satsub(u(y), yn);
                // and halves its way down at most 32 times
                if yn < d0 >> 24 { ctx.label("all-but-emptied"); return Ok(()); }
                ensure!(u(d) + 2 >= want, "underpaid", "amp {amp}, reserves {x}/{y}: {s} bought {d}, the curve gives {want}");
            }
        }
    }
    Ok(())
}
/// the solver divides by the source side first: only the destination side magnifies
fn solver_err(x: u128, y: u128) -> u128 { if x > y { stable_err(x, y) } else { 3 } }
/// one-sided liquidity on the stable curve against the exact invariant
fn stable_one(src: &mut Src, ctx: &mut Ctx) -> R {
    let amp = gen_amp(src).max(1);
    let (a, b) = gen_pair(src, 60);
    let supply = src.log(62).max(1) as u128;
    let dir = gen_dir(src);
    let r0 = if dir == Dir::AtoB { a } else { b };
    let dep = src.below(2) == 0;
    let s = if dep { src.log_to(r0.saturating_mul(2)) } else { src.log_to(r0) };
    let (a, b, s) = (a as u128, b as u128, s as u128);
    let real = Curve::Stable(amp).real();
    let got = match chain::guard(|| if dep { real.calculator.deposit_single_token_type(s, a, b, supply, td(dir)) } else { real.calculator.withdraw_single_token_type_exact_out(s, a, b, supply, td(dir)) }) {
        Ok(g) => g, Err(m) => bad!("panic", "{m}: amp {amp} {a}/{b} supply {supply} amount {s} deposit {dep}"),
    };
    let (na, nb) = match (dep, dir) { (true, Dir::AtoB) => (a + s, b), (true, Dir::BtoA) => (a, b + s), (false, Dir::AtoB) => (a - s, b), (false, Dir::BtoA) => (a, b - s) };
    ctx.note(|| format!("amp {amp}, reserves {a}/{b}, LP {supply}, {} {s} of {dir:?} side -> {got:?} LP", if dep { "deposit" } else { "withdraw" }));
    if ratio(a, b) > 1000 || ratio(na, nb) > 1000 || na < 3 || nb < 3 { ctx.label("imbalanced"); return Ok(()); }
    let Iv { lo, hi } = stable_share(amp, a, b, na, nb, supply, dep);
    match got {
        None => { ctx.label("refused"); ensure!(a.min(b).min(na).min(nb) < 1000 || lo == 0 || too_steep(amp), "refused", "amp {amp}, reserves {a}/{b}: one-sided {} of {s} refused", if dep { "deposit" } else { "withdrawal" }); }
        Some(g) => {
            ctx.label(if dep { "deposit" } else { "withdraw" });
            ctx.nontrivial(&(amp, a, b, s, dep));
            ensure!(g >= lo && g <= hi, "share", "amp {amp}, reserves {a}/{b}, LP {supply}: one-sided {} of {s} is {g} LP, the invariant gives {lo}..{hi}", if dep { "deposit" } else { "withdrawal" });
        }
    }
    Ok(())
}
fn stable_prog(src: &mut Src, ctx: &mut Ctx) -> R {
    let w = match gen_world(src, &Setup { curves: [0, 0, 1, 0, 0], fees: true, max_bits: 60 }) { Some(w) => w, None => return Ok(()) };
    let mix = Mix { swap: 1, depall: 0, wdall: 0, dep1: 0, wd1: 0, donate: 0, burn: 0, limits: false, host: true };
    let mut op = gen_op(src, &w, &mix);
    let f = w.pool.fees;
    // amounts the fees eat up entirely
    if src.chance(1, 24) { if let Op::Swap { amt, .. } = &mut op { *amt = match src.below(3) { 0 => 0, 1 => 1 + src.below(3), _ => src.log(20) }; } }
    let st = w.try_op(&op);
    let amp = match w.pool.curve { Curve::Stable(a) => a, _ => unreachable!() };
    if let Out::Panic(m) = &st.out { bad!("panic", "swap aborted: {m}; {op:?} amp {amp} {:?}", st.pre); }
    let (amt, dir) = match op { Op::Swap { amt, dir, .. } => (amt as u128, dir), _ => unreachable!() };
    ctx.note(|| format!("{:?} {:?} reserves {}/{} LP {}; {:?} -> {:?}", w.pool.curve, w.pool.fees, st.pre.a, st.pre.b, st.pre.supply, op, st.out));
    let (x, y) = (st.pre.src(dir) as u128, st.pre.dst(dir) as u128);
    let (tf, of) = (fee(amt, f.t.0, f.t.1), fee(amt, f.o.0, f.o.1));
    if !st.out.ok() {
        ctx.label("refused");
        ensure!(st.pre == st.post, "moved", "a refused swap moved tokens");
        let u_ = match op { Op::Swap { u, .. } => u, _ => 0 };
        let room = amt <= st.pre.us(u_, dir) as u128 && x + amt <= u64::MAX as u128 && tf + of < amt && amp > 0 && !too_steep(amp);
        if room && x >= 10 && y >= 10 && ratio(x, y) <= 1000 && ratio(x + amt, y) <= 1000 && st.pre.supply < 1 << 62 && st.pre.a.max(st.pre.b) < 1 << 62 {
            let yn = stable_y(amp, x + amt - tf - of, stable_d(amp, x, y) + solver_err(x, y));
            // an owner fee below the precision of the invariant has no value in LP tokens
            if of > 0 && satsub(stable_d(amp, x + amt, yn.low_u128()), stable_d(amp, x + amt - of, yn.low_u128())) < u(4) { ctx.label("fee-below-precision"); return Ok(()); }
            ctx.label("refused-judged");
            ensure!(satsub(u(y), yn) < u(2) || stable_y(amp, x + amt - tf - of, stable_d(amp, x, y)) < u(100), "refused", "a swap worth {} was refused with {:?}: {op:?} on {:?} {f:?}, reserves {}/{}, LP {}", satsub(u(y), yn), st.out, w.pool.curve, st.pre.a, st.pre.b, st.pre.supply);
        }
        return Ok(());
    }
    ctx.label("traded");
    let fees = tf + of;
    let t = st.post.src(dir) as i128 - st.pre.src(dir) as i128;
    let d = st.pre.dst(dir) as i128 - st.post.dst(dir) as i128;
    ensure!(t == amt as i128, "taken", "took {t} of {amt}");
    ensure!(d >= 0 && fees <= amt, "given", "gave {d}");
    if fees == amt { ctx.label("nothing"); ensure!(d == 0, "free", "amp {amp}, reserves {x}/{y}: nothing (after fees) bought {d}"); return Ok(()); }
    let d0 = stable_d(amp, x, y);
    ensure!((d as u128) < y, "drain", "gave {d} of {y}");
    let d1 = stable_d(amp, x + amt - fees, y - d as u128 + 1);
    ctx.nontrivial(&(amp, x, y, amt, fees));
    ensure!(d1 + 1 >= d0, "overpaid", "amp {amp}, reserves {x}/{y}: {amt} less {fees} fees bought {d}; invariant {d0} -> {d1}");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P05", rule: "a swap that the price allows (both sides non-zero); key = price, amount, direction (and fees, reserves through the program)", assumptions: &[], subs: vec![
            Sub { name: "calc", quick: 1_000_000, thorough: 50_000_000, f: price_calc, what: "calculator equals the closed form for every price, direction and amount" },
            Sub { name: "prog", quick: 120_000, thorough: 5_000_000, f: price_prog, what: "a swap through the program with fees moves exactly the predicted amounts, or is refused exactly when it must be" },
        ] },
        Prop { id: "P06", rule: "a swap that buys at least one unit; key = curve, reserves, amount, direction", assumptions: &[], subs: vec![
            Sub { name: "calc", quick: 800_000, thorough: 40_000_000, f: product_calc, what: "calculator equals the best integer trade on x*y=k (with and without an offset), plus the product inequalities directly" },
            Sub { name: "prog", quick: 120_000, thorough: 5_000_000, f: product_prog, what: "a swap through the program with fees moves exactly the predicted amounts, or is refused exactly when it must be" },
        ] },
        Prop { id: "P07", rule: "a completed stable-curve trade or one-sided liquidity operation; key = amplifier, reserves, amount", assumptions: &["accuracy is claimed for reserves within 1000000:1 of each other (1000:1 for one-sided liquidity) and trades that leave 2^-24 of the other side; the no-overpayment bound is claimed everywhere"], subs: vec![
            Sub { name: "calc", quick: 60_000, thorough: 3_000_000, f: stable_calc, what: "swap against the exact invariant D found by bisection in 1024-bit integers" },
            Sub { name: "one-sided", quick: 60_000, thorough: 3_000_000, f: stable_one, what: "one-sided deposit / withdrawal LP amounts against the exact invariant" },
            Sub { name: "prog", quick: 25_000, thorough: 1_000_000, f: stable_prog, what: "swaps through the program with fees" },
        ] },
    ]
}
