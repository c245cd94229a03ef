//! Liquidity: deposits, withdrawals, the value of an LP token, round trips.
use crate::big::*;
use crate::chain::Out;
use crate::engine::*;
use crate::model::*;
use crate::refm::*;
use crate::src::Src;
use crate::world::*;
use crate::{bad, ensure};

const ALL: Setup = Setup { curves: [3, 3, 2, 2, 0], fees: true, max_bits: 60 };
pub const ONLY_SWAP: Mix = Mix { swap: 1, depall: 0, wdall: 0, dep1: 0, wd1: 0, donate: 0, burn: 0, limits: false, host: true };

fn desc(w: &World, st: &Step) -> String {
    format!("{:?} {:?}; reserves {}/{} LP {}; {:?} -> {:?}; reserves {}/{} LP {}", w.pool.curve, w.pool.fees, st.pre.a, st.pre.b, st.pre.supply, st.op, st.out, st.post.a, st.post.b, st.post.supply)
}
/// only user `u`, and the fee account if a fee is due, may see their balances change
fn others_untouched(st: &Step, u: usize, fee_lp: u128) -> R {
    for i in 0..NU {
        let d = st.du(i);
        if i == u { continue; }
        let want = if i == FEE_USER { fee_lp as i128 } else { 0 };
        ensure!(d == (0, 0, want), "bystander", "user {i}'s balances changed by {d:?} (LP fee due: {fee_lp}) in {:?}", st.op);
    }
    Ok(())
}

/// the price curve works with the pool's value in 128 bits
fn fits(c: &Curve, p: &Snap, lp: u128) -> bool {
    match *c { Curve::Price(pr) => { let v = u(p.a as u128) + u(p.b as u128) * u(pr as u128); v.bits() <= 127 && (v * u(lp)).bits() <= 127 } _ => true }
}
/// a two-sided withdrawal against the exact amounts; true if it was due and went through
pub fn judge_wdall(w: &World, st: &Step, ctx: &mut Ctx) -> Result<bool, Failure> {
    let p = &st.pre;
    let c = w.pool.curve;
    let (us, lp) = match st.op { Op::WdAll { u, lp, .. } => (u, lp), _ => unreachable!() };
    let fe = if us == FEE_USER { 0 } else { fee(lp as u128, w.pool.fees.w.0, w.pool.fees.w.1) };
    let l = (lp as u128).checked_sub(fe);
    let t = l.and_then(|l| both(&c, l, p.supply as u128, p.a as u128, p.b as u128, false)).map(|(a, b)| (a.min(p.a as u128), b.min(p.b as u128), a, b));
    let ok = match t {
        None => false,
        Some((ta, tb, ra, rb)) => !(ta == 0 && p.a != 0) && !(tb == 0 && p.b != 0) && lp <= p.ul[us] && ra <= u64::MAX as u128 && rb <= u64::MAX as u128,
    };
    if !ok {
        // more than 64 bits of a virtual amount may be capped or refused
        if let Some((_, _, ra, rb)) = t { if ra.max(rb) > u64::MAX as u128 { ctx.label("wd-wide"); return Ok(false); } }
        ctx.label("wd-refused");
        ensure!(!st.out.ok(), "accepted", "a withdrawal that must be refused went through: {} (amounts due {t:?})", desc(w, st));
        return Ok(false);
    }
    if !fits(&c, p, lp as u128) && !st.out.ok() { ctx.label("wd-wide"); return Ok(false); }
    ensure!(st.out.ok(), "refused", "a withdrawal was refused: {} (amounts due {t:?})", desc(w, st));
    let (ta, tb, _, _) = t.unwrap();
    let l = l.unwrap();
    ctx.label("withdrawal");
    ctx.nontrivial(&(c, p.a, p.b, p.supply, lp, us == FEE_USER));
    ensure!(p.a as u128 - st.post.a as u128 == ta && p.b as u128 - st.post.b as u128 == tb, "withdraw-amount", "{l} LP (after a fee of {fe}) are worth {ta}/{tb}: {}", desc(w, st));
    ensure!(p.supply as u128 - st.post.supply as u128 == l, "withdraw-lp", "{l} LP must be burned: {}", desc(w, st));
    ensure!(st.du(us) == (ta as i128, tb as i128, -(lp as i128)), "user", "the withdrawer's balances moved {:?}: {}", st.du(us), desc(w, st));
    if let Curve::Product | Curve::Stable(_) = c {
        ensure!(u(ta) * u(p.supply as u128) <= u(l) * u(p.a as u128) && u(tb) * u(p.supply as u128) <= u(l) * u(p.b as u128), "generous", "withdrawal above its share: {}", desc(w, st));
    }
    others_untouched(st, us, fe)?;
    Ok(true)
}

/// two-sided deposits and withdrawals: exact proportional amounts
fn two_sided(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut w = match gen_world(src, &ALL) { Some(w) => w, None => { ctx.label("no-pool"); return Ok(()) } };
    // sometimes the whole LP supply has been burned
    if src.chance(1, 20) { let s = w.snap(); w.set_state(s.a, s.b, 0); ctx.label("no-lp"); }
    let m = Mix { depall: 1, wdall: 1, swap: 0, dep1: 0, wd1: 0, donate: 0, burn: 0, limits: false, host: false };
    let op = gen_op(src, &w, &m);
    let st = w.try_op(&op);
    ctx.note(|| desc(&w, &st));
    let p = &st.pre;
    let c = w.pool.curve;
    if let Out::Panic(m) = &st.out { bad!("panic", "aborted: {m}; {}", desc(&w, &st)); }
    if !st.out.ok() { ensure!(st.pre == st.post, "moved", "a refused request moved tokens"); }
    match op {
        Op::DepAll { u: us, lp, .. } => {
            if c.closed() { ctx.label("closed"); ensure!(!st.out.ok(), "closed", "deposit accepted on a curve without deposits: {}", desc(&w, &st)); return Ok(()); }
            let (lp, supply) = if p.supply == 0 { (LP0 as u128, LP0 as u128) } else { (lp as u128, p.supply as u128) };
            let t = both(&c, lp, supply, p.a as u128, p.b as u128, true);
            let ok = match t {
                None => false,
                Some((ta, tb)) => ta > 0 && tb > 0 && ta <= p.ua[us] as u128 && tb <= p.ub[us] as u128 && p.supply as u128 + lp <= u64::MAX as u128,
            };
            if !ok { ctx.label("dep-refused"); ensure!(!st.out.ok(), "accepted", "a deposit that must be refused went through: {} (amounts due {t:?})", desc(&w, &st)); return Ok(()); }
            if !fits(&c, p, lp) && !st.out.ok() { ctx.label("dep-wide"); return Ok(()); }
            ensure!(st.out.ok(), "refused", "a deposit was refused: {} (amounts due {t:?})", desc(&w, &st));
            let (ta, tb) = t.unwrap();
            ctx.label("deposit");
            ctx.nontrivial(&(c, p.a, p.b, p.supply, lp));
            ensure!(st.post.a as u128 == p.a as u128 + ta && st.post.b as u128 == p.b as u128 + tb, "deposit-amount", "{lp} LP must cost {ta}/{tb}: {}", desc(&w, &st));
            ensure!(st.post.supply as u128 == p.supply as u128 + lp, "deposit-lp", "LP supply must grow by {lp}: {}", desc(&w, &st));
            ensure!(st.du(us) == (-(ta as i128), -(tb as i128), lp as i128), "user", "the depositor's balances moved {:?}: {}", st.du(us), desc(&w, &st));
            // restated: never cheaper than the share, never a full unit dearer on the proportional curves
            if let Curve::Product | Curve::Stable(_) = c {
                ensure!(u(ta) * u(supply) >= u(lp) * u(p.a as u128) && u(tb) * u(supply) >= u(lp) * u(p.b as u128), "cheap", "deposit below its share: {}", desc(&w, &st));
                ensure!(u(ta - 1) * u(supply) < u(lp) * u(p.a as u128) && u(tb - 1) * u(supply) < u(lp) * u(p.b as u128), "dear", "deposit a unit above its share: {}", desc(&w, &st));
            }
            others_untouched(&st, us, 0)
        }
        Op::WdAll { .. } => judge_wdall(&w, &st, ctx).map(|_| ()),
        _ => unreachable!(),
    }
}

/// one-sided deposits and withdrawals
fn one_sided(src: &mut Src, ctx: &mut Ctx) -> R {
    let w = match gen_world(src, &ALL) { Some(w) => w, None => { ctx.label("no-pool"); return Ok(()) } };
    let m = Mix { dep1: 1, wd1: 1, swap: 0, depall: 0, wdall: 0, donate: 0, burn: 0, limits: false, host: false };
    let op = gen_op(src, &w, &m);
    let st = w.try_op(&op);
    ctx.note(|| desc(&w, &st));
    let p = &st.pre;
    let (c, f) = (w.pool.curve, w.pool.fees);
    if let Out::Panic(m) = &st.out { bad!("panic", "aborted: {m}; {}", desc(&w, &st)); }
    if !st.out.ok() { ensure!(st.pre == st.post, "moved", "a refused request moved tokens"); }
    // the stable solver is judged where it is accurate
    let fair = |x: u64, y: u64| !matches!(c, Curve::Stable(_)) || (imbalance(x as u128, y as u128) <= 1000 && x.min(y) >= 3);
    match op {
        Op::Dep1 { u: us, dir, amt, .. } => {
            if c.closed() { ctx.label("closed"); ensure!(!st.out.ok(), "closed", "one-sided deposit accepted on a curve without deposits: {}", desc(&w, &st)); return Ok(()); }
            // whoever comes first to a pool without LP tokens gets the initial supply
            let iv = if p.supply == 0 { ctx.label("no-lp"); Some(Iv::exact(LP0 as u128)) } else { single_deposit(&c, &f, p, amt, dir) };
            ctx.note(|| format!("LP due: {iv:?}"));
            let iv = match iv { Some(i) if (amt > 0 || p.supply == 0) && i.hi > 0 => i, _ => { ctx.label("dep-refused"); ensure!(!st.out.ok(), "accepted", "a worthless deposit went through: {}", desc(&w, &st)); return Ok(()); } };
            if !st.out.ok() {
                let can = iv.lo >= 1 && amt <= p.us(us, dir) && p.supply as u128 + iv.hi <= u64::MAX as u128 && fair(p.a, p.b)
                    && !(matches!(c, Curve::Stable(_)) && (p.a.min(p.b) < 1000 || imbalance(p.src(dir) as u128 + amt as u128, p.dst(dir) as u128) > 1000));
                ctx.label("dep-refused");
                ensure!(!can, "refused", "a one-sided deposit worth {iv:?} LP was refused: {}", desc(&w, &st));
                return Ok(());
            }
            ensure!(amt <= p.us(us, dir), "unfunded", "deposit without funds");
            let got = st.post.supply as i128 - p.supply as i128;
            let (da, db) = (st.post.a as i128 - p.a as i128, st.post.b as i128 - p.b as i128);
            ensure!((da, db) == if dir == Dir::AtoB { (amt as i128, 0) } else { (0, amt as i128) }, "amount", "a deposit of {amt} moved {da}/{db} into the pool: {}", desc(&w, &st));
            ensure!(st.du(us) == (-da, -db, got), "user", "the depositor's balances moved {:?}: {}", st.du(us), desc(&w, &st));
            ensure!(got > 0, "nothing", "deposit for nothing: {}", desc(&w, &st));
            others_untouched(&st, us, 0)?;
            let (na, nb) = (st.post.a, st.post.b);
            if !fair(p.a, p.b) || !fair(na, nb) { ctx.label("imbalanced"); return Ok(()); }
            ctx.label("deposit");
            ctx.nontrivial(&(c, f.t, p.a, p.b, p.supply, amt, dir));
            ensure!(got >= 0 && iv.has(got as u128), "deposit-lp", "{got} LP minted, {iv:?} due: {}", desc(&w, &st));
            Ok(())
        }
        Op::Wd1 { u: us, dir, amt, .. } => {
            let iv = single_withdrawal(&c, &f, p, amt, dir);
            ctx.note(|| format!("LP due: {iv:?}"));
            let iv = match iv { Some(i) if amt > 0 && i.hi > 0 && amt <= p.src(dir) => i, _ => { ctx.label("wd-refused"); ensure!(!st.out.ok(), "accepted", "an impossible withdrawal went through: {}", desc(&w, &st)); return Ok(()); } };
            let fee_of = |l: u128| if us == FEE_USER { 0 } else { fee(l, f.w.0, f.w.1) };
            if !st.out.ok() {
                let stable = matches!(c, Curve::Stable(_));
                let can = iv.lo >= 1 && iv.hi + fee_of(iv.hi) <= p.ul[us] as u128 && fair(p.a, p.b)
                    && !(stable && (p.a.min(p.b) < 1000 || p.src(dir) as u128 <= 1000 + 2 * gross_withdrawal(&f, amt as u128).unwrap_or(u128::MAX / 4) || imbalance((p.src(dir) - amt) as u128 / 2, p.dst(dir) as u128) > 1000));
                ctx.label("wd-refused");
                ensure!(!can, "refused", "a one-sided withdrawal for {iv:?} LP was refused: {}", desc(&w, &st));
                return Ok(());
            }
            let burned = p.supply as i128 - st.post.supply as i128;
            let (da, db) = (p.a as i128 - st.post.a as i128, p.b as i128 - st.post.b as i128);
            ensure!((da, db) == if dir == Dir::AtoB { (amt as i128, 0) } else { (0, amt as i128) }, "amount", "a withdrawal of {amt} took {da}/{db} from the pool: {}", desc(&w, &st));
            ensure!(burned > 0, "free", "withdrawal for free: {}", desc(&w, &st));
            let fe = fee_of(burned as u128);
            ensure!(st.du(us) == (da, db, -burned - fe as i128), "user", "the withdrawer's balances moved {:?}, {burned} LP burned, fee {fe}: {}", st.du(us), desc(&w, &st));
            others_untouched(&st, us, fe)?;
            if !fair(p.a, p.b) || !fair(st.post.a, st.post.b) { ctx.label("imbalanced"); return Ok(()); }
            let iv = if matches!(c, Curve::Stable(_)) {
                let g = gross_withdrawal(&f, amt as u128).unwrap();
                let (na, nb) = if dir == Dir::AtoB { (p.a as u128 - g, p.b as u128) } else { (p.a as u128, p.b as u128 - g) };
                if imbalance(na, nb) > 1000 || na.min(nb) < 3 { ctx.label("imbalanced"); return Ok(()); }
                iv
            } else { iv };
            ctx.label("withdrawal");
            ctx.nontrivial(&(c, f.t, f.w, p.a, p.b, p.supply, amt, dir));
            ensure!(iv.has(burned as u128), "withdraw-lp", "{burned} LP burned, {iv:?} due: {}", desc(&w, &st));
            Ok(())
        }
        _ => unreachable!(),
    }
}

/// a withdrawal's root is taken of a ratio of twelve decimals: when little remains, the
/// error in the root grows with its slope
fn root_slack(st: &Step) -> u128 {
    let (r0, r1) = match st.op { Op::Wd1 { dir, .. } => (st.pre.src(dir) as u128, st.post.src(dir) as u128), _ => return 0 };
    // 2e-12 / (2 sqrt(r1/r0)) of the supply, at most sqrt(2e-12)
    let inv = isqrt(u(r0) * u(1_000_000_000_000) / u(r1.max(1))).low_u128(); // sqrt(r0/r1) * 1e6
    let per = if r1 == 0 { 1_500_000_000_000 } else { inv.min(1_500_000_000_000) };
    lo128(u(st.pre.supply as u128) * u(per) / u(1_000_000_000_000_000_000)).unwrap_or(u128::MAX / 4) + 1
}

/// what one step may cost an LP token: (LP tokens, units of value)
fn step_slack(c: &Curve, f: &FeeSet, st: &Step) -> (u128, U) {
    let tiny = |s: u64| (s as u128) / 100_000_000_000 + 2;
    let e = match c { Curve::Stable(_) => u(1 + stable_err(st.pre.a as u128, st.pre.b as u128).max(stable_err(st.post.a as u128, st.post.b as u128))), _ => U::zero() };
    match st.op {
        Op::Swap { .. } => match c {
            Curve::Price(_) => (if f.o.0 > 0 { 1 } else { 0 }, e),
            Curve::Stable(_) => (if f.o.0 > 0 { 2 + 4 * st.pre.supply as u128 / (st.pre.a as u128 + st.pre.b as u128).max(1) } else { 0 }, e),
            _ => (if f.o.0 > 0 { tiny(st.pre.supply) } else { 0 }, e),
        },
        Op::Dep1 { .. } | Op::Wd1 { .. } => match c {
            Curve::Price(_) => (0, e),
            Curve::Stable(_) => (2, e),
            _ => (tiny(st.pre.supply.max(st.post.supply)) + root_slack(st), e),
        },
        _ => (0, e),
    }
}
/// one-sided deposits and withdrawals on the product curve round down what they mint and up what
/// they burn: only the twelve decimals of the root are left, in 2^-32 LP tokens
fn fine_slack(c: &Curve, st: &Step) -> Option<u128> {
    if !matches!(c, Curve::Product | Curve::Stable(_)) || !matches!(st.op, Op::Dep1 { .. } | Op::Wd1 { .. }) { return None; }
    let s = st.pre.supply.max(st.post.supply) as u128;
    let tiny = (s << 32) / 100_000_000_000 + 1;
    if let Curve::Stable(_) = c { return Some(tiny); }
    let root = match st.op {
        Op::Wd1 { dir, .. } => {
            let (r0, r1) = (st.pre.src(dir) as u128, st.post.src(dir) as u128);
            let inv = isqrt(u(r0) * u(1_000_000_000_000) / u(r1.max(1))).low_u128() + 1;
            let per = if r1 == 0 { 1_500_000_000_000 } else { inv.min(1_500_000_000_000) };
            lo128((u(st.pre.supply as u128) << 32) * u(per) / u(1_000_000_000_000_000_000)).unwrap_or(u128::MAX / 4) + 1
        }
        _ => 0,
    };
    Some(tiny + root)
}
fn lp_value(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut w = match gen_world(src, &ALL) { Some(w) => w, None => { ctx.label("no-pool"); return Ok(()) } };
    let mut m = MIX;
    m.limits = src.chance(1, 4);
    let n = 1 + src.below(12);
    ctx.note(|| format!("{:?} {:?}", w.pool.curve, w.pool.fees));
    for _ in 0..n {
        let op = gen_op(src, &w, &m);
        let st = w.apply(&op);
        ctx.steps += 1;
        ctx.note(|| desc(&w, &st));
        if let Out::Panic(m) = &st.out { bad!("panic", "aborted: {m}; {}", desc(&w, &st)); }
        if !st.out.ok() || st.pre.supply == 0 || st.post.supply == 0 { continue; }
        let c = w.pool.curve;
        if let Curve::Stable(_) = c {
            if imbalance(st.pre.a as u128, st.pre.b as u128) > 1000 || imbalance(st.post.a as u128, st.post.b as u128) > 1000 || st.pre.a.min(st.pre.b).min(st.post.a).min(st.post.b) < 3 { ctx.label("imbalanced"); continue; }
        }
        if matches!(c, Curve::Stable(_)) && !matches!(op, Op::Swap { .. } | Op::Dep1 { .. } | Op::Wd1 { .. }) {
            // what is not traded on the curve must keep both reserves per LP token
            let (s0, s1) = (st.pre.supply as u128, st.post.supply as u128);
            ctx.nontrivial(&(c, st.pre.a, st.pre.b, st.pre.supply, op));
            ensure!(share_ok(u(st.pre.a as u128), s0, u(st.post.a as u128), s1, 0) && share_ok(u(st.pre.b as u128), s0, u(st.post.b as u128), s1, 0), "diluted", "the reserves behind an LP token fell: {}", desc(&w, &st));
            continue;
        }
        let (v0, v1) = (worth(&c, st.pre.a, st.pre.b), worth(&c, st.post.a, st.post.b));
        let (lp, e) = step_slack(&c, &w.pool.fees, &st);
        // a stable swap may give back one unit too many
        let v1 = match (c, op) { (Curve::Stable(amp), Op::Swap { .. }) => stable_d(amp, st.post.a as u128 + 1, st.post.b as u128 + 1), _ => v1 };
        if lp < st.pre.supply as u128 / 100 && v0 > U::zero() {
            ctx.nontrivial(&(c, st.pre.a, st.pre.b, st.pre.supply, op));
            ctx.label(match op { Op::Swap { .. } => "swap", Op::DepAll { .. } => "deposit-both", Op::WdAll { .. } => "withdraw-both", Op::Dep1 { .. } => "deposit-one", Op::Wd1 { .. } => "withdraw-one", Op::Donate { .. } => "donation", Op::Burn { .. } => "burn" });
        }
        // square roots are rounded down to 2^-100
        let e = if let Curve::Price(_) = c { e } else { e + 1 };
        // fractions of an LP token (2^-32) where the operation itself must round against the requester
        let fine = fine_slack(&c, &st).unwrap_or_else(|| lp.saturating_mul(1 << 32));
        ensure!(share_ok(v0, (st.pre.supply as u128) << 32, v1 + e, (st.post.supply as u128) << 32, fine), "diluted", "the value of an LP token fell: {}", desc(&w, &st));
    }
    Ok(())
}

/// sequences by one user that end where they started must not leave that user better off
fn round_trip(src: &mut Src, ctx: &mut Ctx) -> R {
    let w0 = match gen_world(src, &Setup { curves: [3, 3, 2, 2, 5], fees: true, max_bits: 60 }) { Some(w) => w, None => { ctx.label("no-pool"); return Ok(()) } };
    let mut w = w0.clone();
    let c = w.pool.curve;
    let u_ = 2usize;
    let start = w.snap();
    ctx.note(|| format!("{c:?} {:?}; reserves {}/{} LP {}", w.pool.fees, start.a, start.b, start.supply));
    let kind = if c.is_linear() { src.weighted(&[3, 2]) } else if c.closed() { src.weighted(&[3, 2]) } else { src.weighted(&[3, 2, 2, 2]) };
    let run = |w: &mut World, op: Op, ctx: &mut Ctx| -> Step { let st = w.apply(&op); ctx.steps += 1; ctx.note(|| format!("{:?} -> {:?}; reserves {}/{} LP {}", op, st.out, st.post.a, st.post.b, st.post.supply)); st };
    let gain = |w: &World| -> (i128, i128, i128) { let e = w.snap(); (e.ua[u_] as i128 - start.ua[u_] as i128, e.ub[u_] as i128 - start.ub[u_] as i128, e.ul[u_] as i128 - start.ul[u_] as i128) };
    match kind {
        0 | 1 => {
            // there (in k parts) and back (in j parts)
            let dir = gen_dir(src);
            let (k, j) = if kind == 0 { (1, 1) } else { (1 + src.below(4), 1 + src.below(4)) };
            let mut got = 0u64;
            let mut slack = U::zero();
            let mut n = 0;
            let lin = match c { Curve::Linear(l) => Some(l), _ => None };
            let (mut steep, mut emptied) = (0u128, start.a == 0 || start.b == 0);
            for _ in 0..k {
                let amt = match gen_op(src, &w, &ONLY_SWAP) { Op::Swap { amt, .. } => amt, _ => unreachable!() };
                let st = run(&mut w, Op::Swap { u: u_, dir, amt, min: 0, host: None }, ctx);
                steep = steep.max(imbalance(st.post.a as u128, st.post.b as u128));
                emptied |= st.post.a == 0 || st.post.b == 0;
                if st.out.ok() { got += st.pre.dst(dir) - st.post.dst(dir); n += 1; if let Some(l) = lin { slack = slack + l.tol(u(st.pre.a as u128)) + l.tol(u(st.post.a as u128)); } }
            }
            if n == 0 { ctx.label("nothing"); return Ok(()); }
            for i in 0..j {
                let amt = if i + 1 == j { got } else { src.log_to(got.max(1)).min(got) };
                if amt == 0 { break; }
                let st = run(&mut w, Op::Swap { u: u_, dir: dir.flip(), amt, min: 0, host: None }, ctx);
                steep = steep.max(imbalance(st.post.a as u128, st.post.b as u128));
                emptied |= st.post.a == 0 || st.post.b == 0;
                if st.out.ok() { got -= (st.post.src(dir.flip()) - st.pre.src(dir.flip())).min(got); n += 1; if let Some(l) = lin { slack = slack + l.tol(u(st.pre.a as u128)) + l.tol(u(st.post.a as u128)); } }
            }
            let g = gain(&w);
            ctx.label(if n > 1 { "there-and-back" } else { "one-way" });
            if n > 1 { ctx.nontrivial(&(c, w.pool.fees, start.a, start.b, k, j, g)); }
            match c {
                Curve::Linear(l) => {
                    // judged on the line: the tokens kept must be paid for. Draining (or emptying) trades
                    // are priced to the nearest unit.
                    let one = U::one() << S;
                    let end = w.snap();
                    let kept = g.1; // B gained by the user
                    let mut sl = slack;
                    if end.b == 0 || start.b == 0 { sl = sl + satsub(l.b_hi_half(end.a as u128), l.b_lo(u(end.a as u128))); }
                    sl = sl + one / 2 * u(n as u128); // nearest-unit pricing of draining and emptying trades
                    let lhs = l.b_hi(u(end.a as u128)) + sl + if kept < 0 { sc((-kept) as u128) } else { U::zero() };
                    let rhs = l.b_lo(u(start.a as u128)) + if kept > 0 { sc(kept as u128) } else { U::zero() };
                    // the half-unit of collateral saved on draining trades, in tokens
                    let half_a = satsub(l.b_hi_half(end.a.min(start.a) as u128), l.b_lo(u(end.a.min(start.a) as u128))) * u(n as u128);
                    ensure!(lhs + half_a >= rhs, "free-tokens", "round trip on the line gained A {} B {} for nothing: {l:?}, start {}/{}, end {}/{}", g.0, g.1, start.a, start.b, end.a, end.b);
                    // on lines coarse enough for exact arithmetic no profit at all
                    if slack < (one >> 20) && !emptied && n > 1 && g.1 >= 0 {
                        ensure!(g.0 <= 0, "profit", "round trip gained A {} B {}: {l:?}, start {}/{}", g.0, g.1, start.a, start.b);
                    }
                }
                Curve::Stable(_) => {
                    // rounding may favour the trader by one unit per trade, of the dearer token
                    let e = w.snap();
                    let price = (imbalance(start.a as u128, start.b as u128).max(imbalance(e.a as u128, e.b as u128)).max(steep) + 2) as i128;
                    ensure!(!(g.0 >= 0 && g.1 >= 0 && g.0 + g.1 > 2 * n * price) || steep.max(imbalance(start.a as u128, start.b as u128)) > 1000, "profit", "round trip gained A {} B {} on {c:?}, start {}/{}", g.0, g.1, start.a, start.b);
                }
                Curve::Price(p) => ensure!(g.0 + g.1.saturating_mul(p as i128) <= 0, "profit", "round trip gained A {} B {} on {c:?}, start {}/{}", g.0, g.1, start.a, start.b),
                _ => {
                    ensure!(!(g.0 >= 0 && g.1 >= 0 && g.0 + g.1 > 0), "profit", "round trip gained A {} B {} on {c:?}, start {}/{}", g.0, g.1, start.a, start.b);
                    // nor may the product have fallen
                    ensure!(worth(&c, w.snap().a, w.snap().b) >= worth(&c, start.a, start.b), "product", "product fell over a round trip");
                }
            }
            Ok(())
        }
        _ => {
            // deposit (one or both sides, with trades in between), then redeem every LP token gained
            let m = Mix { swap: 1, depall: 3, dep1: 3, wdall: 0, wd1: 1, donate: 0, burn: 0, limits: false, host: false };
            let n = 1 + src.below(if kind == 2 { 1 } else { 5 });
            let mut ok = 0u64;
            let mut slack_lp = 0u128;
            let (mut steep, mut low) = (imbalance(start.a as u128, start.b as u128), start.a.min(start.b));
            for _ in 0..n {
                let mut op = gen_op(src, &w, &m);
                match &mut op { Op::Swap { u, host, .. } => { *u = u_; *host = None } Op::DepAll { u, .. } | Op::Dep1 { u, .. } | Op::Wd1 { u, .. } => *u = u_, _ => {} }
                let st = run(&mut w, op, ctx);
                if st.out.ok() { ok += 1; steep = steep.max(imbalance(st.post.a as u128, st.post.b as u128)); low = low.min(st.post.a).min(st.post.b); slack_lp = slack_lp.saturating_add(fine_slack(&c, &st).unwrap_or_else(|| step_slack(&c, &w.pool.fees, &st).0.saturating_mul(1 << 32))); }
            }
            let lp = w.snap().ul[u_].saturating_sub(start.ul[u_]);
            // what a pool without LP tokens holds belongs to whoever comes first
            if start.supply == 0 { ctx.label("no-lp"); return Ok(()); }
            if lp > 0 && w.snap().supply > 0 {
                let op = match src.weighted(&[4, 1, 1]) {
                    0 => Op::WdAll { u: u_, lp, min_a: 0, min_b: 0 },
                    1 => { let dir = gen_dir(src); let s = w.snap(); Op::Wd1 { u: u_, dir, amt: ((s.src(dir) as u128 * lp as u128 / s.supply as u128) as u64).max(1), max: u64::MAX } }
                    _ => {
                        // the most that can be had for the LP tokens gained
                        let dir = gen_dir(src);
                        let fits = |amt: u64| { let st = w.try_op(&Op::Wd1 { u: u_, dir, amt, max: u64::MAX }); st.out.ok() && st.pre.ul[u_] - st.post.ul[u_] <= lp };
                        let (mut lo, mut hi) = (0u64, w.snap().src(dir));
                        while hi - lo > 1 { let m = lo + (hi - lo) / 2; if fits(m) { lo = m } else { hi = m } }
                        ctx.label("most-for-lp");
                        Op::Wd1 { u: u_, dir, amt: lo.max(1), max: u64::MAX }
                    }
                };
                let st = run(&mut w, op, ctx);
                if st.out.ok() { ok += 1; steep = steep.max(imbalance(st.post.a as u128, st.post.b as u128)); low = low.min(st.post.a).min(st.post.b); slack_lp = slack_lp.saturating_add(fine_slack(&c, &st).unwrap_or_else(|| step_slack(&c, &w.pool.fees, &st).0.saturating_mul(1 << 32))); }
            }
            let g = gain(&w);
            if ok > 1 && lp > 0 { ctx.label("in-and-out"); ctx.nontrivial(&(c, w.pool.fees, start.a, start.b, start.supply, g)); }
            if g.2 < 0 { return Ok(()); }
            let end = w.snap();
            if let Curve::Stable(_) = c { if steep > 1000 || low < 3 { ctx.label("imbalanced"); return Ok(()); } }
            // a profit of at most what the rounding of the LP amounts is worth
            let min_s = start.supply.min(end.supply).max(1) as u128;
            let tol = |r0: u64, r1: u64| lo128(u(4 * r0.max(r1) as u128) * u(slack_lp) / u(min_s << 32)).unwrap_or(u128::MAX / 4) as i128 + if matches!(c, Curve::Stable(_)) { 4 * ok as i128 * (steep + 1) as i128 } else { 0 };
            if slack_lp.saturating_mul(100) > min_s << 32 { ctx.label("coarse"); return Ok(()); }
            ensure!(!(g.0 >= 0 && g.1 >= 0 && (g.0 > tol(start.a, end.a) || g.1 > tol(start.b, end.b))), "profit", "depositing and redeeming gained A {} B {} LP {} on {c:?} {:?}, start {}/{} LP {}", g.0, g.1, g.2, w.pool.fees, start.a, start.b, start.supply);
            if let Curve::Price(p) = c {
                let v = g.0 + g.1.saturating_mul(p as i128);
                let t = tol(start.a, end.a) + tol(start.b, end.b).saturating_mul(p as i128);
                ensure!(v <= t, "profit", "depositing and redeeming gained value {v} (A {} B {} LP {}) at price {p}, start {}/{} LP {}", g.0, g.1, g.2, start.a, start.b, start.supply);
            }
            Ok(())
        }
    }
}

/// a trade cut into pieces never yields more than the trade made at once
fn whole(x: U) -> i128 { let y = x >> S; if y.bits() > 100 { i128::MAX / 4 } else { y.low_u128() as i128 } }
fn split(src: &mut Src, ctx: &mut Ctx) -> R {
    let w = match gen_world(src, &Setup { curves: [3, 3, 0, 2, 4], fees: false, max_bits: 60 }) { Some(w) => w, None => { ctx.label("no-pool"); return Ok(()) } };
    let c = w.pool.curve;
    let (dir, amt) = match gen_op(src, &w, &ONLY_SWAP) { Op::Swap { dir, amt, .. } => (dir, amt), _ => unreachable!() };
    let k = 2 + src.below(3);
    let at_once = w.try_op(&Op::Swap { u: 1, dir, amt, min: 0, host: None });
    let mut w2 = w.clone();
    let mut left = amt;
    let mut n = 0u128;
    let mut drained = false;
    for i in 0..k {
        let x = if i + 1 == k { left } else { src.log_to(left.max(1)).min(left) };
        if x == 0 { break; }
        let st = w2.apply(&Op::Swap { u: 1, dir, amt: x, min: 0, host: None });
        if st.out.ok() { left -= (st.post.src(dir) - st.pre.src(dir)).min(left); n += 1; drained |= st.post.dst(dir) == 0; }
        ctx.steps += 1;
    }
    let s0 = w.snap();
    let s2 = w2.snap();
    let pieces = (s2.src(dir) as i128 - s0.src(dir) as i128, s0.dst(dir) as i128 - s2.dst(dir) as i128);
    let once = (at_once.post.src(dir) as i128 - s0.src(dir) as i128, s0.dst(dir) as i128 - at_once.post.dst(dir) as i128);
    ctx.note(|| format!("{c:?} reserves {}/{}: {dir:?} {amt}: at once {:?} {once:?}, in {n} pieces {pieces:?}", s0.a, s0.b, at_once.out));
    if !at_once.out.ok() || n < 2 { ctx.label("nothing"); return Ok(()); }
    ctx.nontrivial(&(c, s0.a, s0.b, amt, n));
    ctx.label("split");
    if let Curve::Linear(l) = c {
        if drained || at_once.post.dst(dir) == 0 { ctx.label("drained"); return Ok(()); }
        // precision of the line: the pieces obey the exact line from above, the whole from below
        let t = [s0.a, at_once.post.a, s2.a].iter().fold(U::zero(), |x, a| { let y = l.tol(u(*a as u128)) * u(2 * n) + l.sqrt_slack(u(*a as u128)); if y > x { y } else { x } });
        let slack = if dir == Dir::BtoA {
            // in tokens of A: move the position by t
            let hi = satsub(l.a_at_hi(l.b_hi(u(s0.a as u128)) + t), sc(s0.a as u128));
            whole(hi) + 4
            // the end position is rounded up to a whole token
            + whole(l.price_lo(u(s0.a as u128)) + 2)
        } else { whole(t * 3) + 2 };
        ensure!(pieces.1 <= once.1 + slack, "split", "{dir:?} {amt} at once gives {once:?}, in {n} pieces {pieces:?} (slack {slack}); {c:?} reserves {}/{}", s0.a, s0.b);
        return Ok(());
    }
    ensure!(pieces.1 <= once.1 || pieces.0 > once.0, "split", "{dir:?} {amt} at once gives {once:?}, in {n} pieces {pieces:?}; {c:?} reserves {}/{}", s0.a, s0.b);
    Ok(())
}

/// the recorded finding: far off balance, the stable curve's habit of rounding a trade up to one
/// unit in the trader's favour is worth more than the trade costs
fn stable_extreme(_src: &mut Src, ctx: &mut Ctx) -> R {
    let mut w = match World::new(1, Curve::Stable(1), NOFEE, 8192, 16384, 1 << 40) { Ok(w) => w, Err(o) => bad!("setup", "{o:?}") };
    let start = w.snap();
    let out = w.apply(&Op::Swap { u: 2, dir: Dir::AtoB, amt: 1_048_576, min: 0, host: None });
    let got = out.pre.b - out.post.b;
    let back = w.apply(&Op::Swap { u: 2, dir: Dir::BtoA, amt: got, min: 0, host: None });
    ctx.note(|| format!("amp 1, reserves 8192/16384: {:?} -> {:?}, {got} B; {:?} -> {:?}", out.op, out.out, back.op, back.out));
    ctx.nontrivial(&(got, back.post.a));
    let e = w.snap();
    let g = (e.ua[2] as i128 - start.ua[2] as i128, e.ub[2] as i128 - start.ub[2] as i128);
    ensure!(!(g.0 > 0 && g.1 >= 0), "stable-extreme", "1048576 A into a stable pool (amp 1, 8192/16384, no fees) and back gains A {} B {}", g.0, g.1);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P08", rule: "a two-sided deposit or withdrawal that went through; key = curve, reserves, LP supply, LP amount", assumptions: &["price-curve requests whose intermediate value needs more than 127 bits may be refused"], subs: vec![
            Sub { name: "prog", quick: 250_000, thorough: 12_000_000, f: two_sided, what: "two-sided deposits and withdrawals on every curve and fee setting move exactly the proportional amounts (up for deposits, down and capped for withdrawals), or are refused exactly when they must be" },
        ] },
        Prop { id: "P09", rule: "a one-sided deposit or withdrawal that went through; key = curve, fees, reserves, LP supply, amount, side", assumptions: &["the product formulas are judged to 12 decimals of the root, the stable ones within three units of the invariant and for reserves within 1000:1"], subs: vec![
            Sub { name: "prog", quick: 200_000, thorough: 8_000_000, f: one_sided, what: "one-sided deposits and withdrawals on every curve and fee setting mint and burn the LP amount the curve prescribes" },
        ] },
        Prop { id: "P10", rule: "an accepted step on a pool whose LP supply is large against the rounding slack; key = curve, reserves, LP supply, operation", assumptions: &["rounding slack per step: 1 LP token when an owner fee is minted, 1e-11 of the supply for square-root based amounts, one unit of a token per stable trade, four units of the stable invariant"], subs: vec![
            Sub { name: "history", quick: 60_000, thorough: 2_500_000, f: lp_value, what: "value per LP token after every accepted step of random histories of all operations by five users" },
        ] },
        Prop { id: "P26", rule: "a sequence with at least two accepted operations by the same user; key = curve, fees, reserves, shape, net change", assumptions: &["stable trades may favour the trader by one unit each"], subs: vec![
            Sub { name: "round-trip", quick: 120_000, thorough: 5_000_000, f: round_trip, what: "there-and-back trades (in parts), and deposits with trades followed by full redemption" },
            Sub { name: "split", quick: 80_000, thorough: 3_000_000, f: split, what: "one trade against the same trade cut into pieces" },
            Sub { name: "stable-extreme", quick: 1, thorough: 1, f: stable_extreme, what: "the recorded finding on far unbalanced stable pools, replayed exactly" },
        ] },
    ]
}
