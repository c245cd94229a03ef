//! The linear bonding curve: exactness of single trades, solvency over histories,
//! parameter validation.
use crate::engine::*;
use crate::model::*;
use crate::src::Src;
use crate::{bad, big::*, chain, chain::{Bank, Out}, ensure, world::*};
use token_bonding_curve::curve::calculator::{CurveCalculator, TradeDirection};
use token_bonding_curve::curve::linear_price::LinearPriceCurve;

pub fn curve(l: &Lin) -> LinearPriceCurve {
    LinearPriceCurve { slope_numerator: l.sn, slope_denominator: l.sd, initial_token_a_price_numerator: l.pn, initial_token_a_price_denominator: l.pd }
}
pub fn td(d: Dir) -> TradeDirection { if d == Dir::AtoB { TradeDirection::AtoB } else { TradeDirection::BtoA } }

/// a fraction whose value is spread over the exponents lo..=hi (base 10), both parts u64
fn frac(src: &mut Src, lo: i32, hi: i32) -> (u64, u64) {
    let e = lo + src.below((hi - lo + 1) as u64) as i32;
    let m = 1 + src.below(9999);
    let k = src.below(4) as u32;
    let f = 10u64.pow(k);
    // value = m * f / (1000 * f) * 10^e
    let (n, d) = if e >= 0 {
        let n = (m as u128 * f as u128 * 10u128.pow(e as u32)).min(u64::MAX as u128) as u64;
        (n, 1000 * f)
    } else {
        let d = (1000u128 * f as u128 * 10u128.pow((-e) as u32)).min(u64::MAX as u128) as u64;
        (m * f, d)
    };
    // now and then with a common factor, which changes nothing but the digits
    let k = if src.chance(1, 8) { src.log_to(u64::MAX / n.max(d)) } else { 1 };
    (n * k, d * k)
}
pub fn gen_lin(src: &mut Src) -> Lin {
    let (sn, sd) = match src.weighted(&[8, 2, 1, 1]) {
        0 => frac(src, -13, 6),
        1 => (src.log_to(u64::MAX), src.log_to(u64::MAX)),
        2 => (1 + src.below(20), 1 + src.below(20)),
        _ => frac(src, -18, -10),
    };
    let (pn, pd) = match src.weighted(&[6, 3, 2, 1]) {
        0 => frac(src, -9, 9),
        1 => (0, 1 + src.below(3)),
        2 => (src.log(64), src.log_to(u64::MAX)),
        _ => (src.below(20), 1 + src.below(20)),
    };
    let mut l = Lin { sn, sd, pn, pd };
    if !l.valid() { l.sd = l.sd.min((l.sn as u128 * E18).min(u64::MAX as u128) as u64).max(1); }
    l
}
/// an amount of A whose position on the line is of a chosen size, so that b spans the whole u64 range
pub fn gen_locked(src: &mut Src, l: &Lin) -> u64 {
    match src.weighted(&[2, 5, 3]) {
        0 => src.below(30),
        1 => {
            let b = src.log(63) as u128;
            let a = l.a_at(sc(b)) >> S;
            if a.bits() > 63 { src.log(63) } else { a.low_u64() }
        }
        _ => src.log(64),
    }
}
/// an amount near one of the landmarks, or anything
fn near(src: &mut Src, marks: &[u128]) -> u64 {
    let m = *src.pick(marks);
    let d = src.below(9) as i128 - 4;
    let v = (m.min(u64::MAX as u128) as i128 + d).max(0).min(u64::MAX as i128);
    v as u64
}
fn int(x: U) -> u128 { let y = x >> S; if y.bits() > 127 { u128::MAX >> 1 } else { y.low_u128() } }

fn buy(src: &mut Src, ctx: &mut Ctx) -> R {
    let l = gen_lin(src);
    let a0 = gen_locked(src, &l);
    let b = match src.weighted(&[4, 2, 1]) { 0 => src.log(63), 1 => src.log_to(int(l.b_lo(u(a0 as u128))).clamp(1, u64::MAX as u128 / 2) as u64), _ => src.below(40) };
    let whole = int(satsub(l.a_at(l.b_lo(u(a0 as u128)) + sc(b as u128)), sc(a0 as u128)));
    let price = int(l.price_lo(u(a0 as u128)));
    let s = match src.weighted(&[4, 2, 2, 2, 1]) {
        0 => src.log(63),
        1 => near(src, &[whole, whole / 2, whole + whole / 100]),
        2 => src.log_to(whole.clamp(1, u64::MAX as u128) as u64),
        3 => near(src, &[price, price.saturating_mul(2), price.saturating_mul(b as u128 / 2)]),
        _ => src.below(30),
    } as u128;
    let c = curve(&l);
    let (a0, b) = (a0 as u128, b as u128);
    ctx.note(|| format!("line {:?}; locked {a0}, reserve {b}; buy with {s}", l));
    let r = chain::guard(|| c.swap_without_fees(s, a0, b, TradeDirection::AtoB));
    let r = match r { Ok(r) => r, Err(m) => bad!("panic", "buy panicked: {m}") };
    let r = r.map(|x| (x.source_amount_swapped, x.destination_amount_swapped));
    ctx.note(|| format!("result (taken, given): {r:?}"));
    match check_buy(&l, s, a0, b, r) {
        Ok(lab) => { ctx.label(lab); if r.is_some() { ctx.nontrivial(&(l, s, a0, b)); } Ok(()) }
        Err(m) => bad!("buy", "{m}; line {l:?}, locked {a0}, reserve {b}, offered {s}"),
    }
}
fn sell(src: &mut Src, ctx: &mut Ctx) -> R {
    let l = gen_lin(src);
    let a0 = gen_locked(src, &l);
    let pos = int(l.b_lo(u(a0 as u128)));
    let price = int(l.price_lo(u(a0 as u128)));
    let t = match src.weighted(&[3, 3, 2, 2, 1]) {
        0 => src.log_to(pos.clamp(1, u64::MAX as u128) as u64),
        1 => near(src, &[pos, pos / 2, pos - pos / 100]),
        2 => src.log(64),
        3 => near(src, &[if price == 0 { 1 } else { 1 + a0 as u128 / price }]),
        _ => src.below(30),
    } as u128;
    let c = curve(&l);
    let a0 = a0 as u128;
    let src_reserve = src.log(63) as u128;
    ctx.note(|| format!("line {:?}; locked {a0} (position {pos}); sell {t}", l));
    let r = chain::guard(|| c.swap_without_fees(t, src_reserve, a0, TradeDirection::BtoA));
    let r = match r { Ok(r) => r, Err(m) => bad!("panic", "sale panicked: {m}") };
    let r = r.map(|x| (x.source_amount_swapped, x.destination_amount_swapped));
    ctx.note(|| format!("result (taken, paid): {r:?}"));
    match check_sell(&l, t, a0, r) {
        Ok(lab) => { ctx.label(lab); if r.is_some() { ctx.nontrivial(&(l, t, a0)); } Ok(()) }
        Err(m) => bad!("sell", "{m}; line {l:?}, locked {a0}, offered {t}"),
    }
}


const LIN_ONLY: Setup = Setup { curves: [0, 0, 0, 0, 1], fees: false, max_bits: 60 };

/// one trade through the whole program on a pool in any state of its life
fn prog(src: &mut Src, ctx: &mut Ctx, dir: Dir) -> R {
    let w = match gen_world(src, &LIN_ONLY) { Some(w) => w, None => { ctx.label("no-pool"); return Ok(()) } };
    let l = match w.pool.curve { Curve::Linear(l) => l, _ => unreachable!() };
    let only = Mix { swap: 1, depall: 0, wdall: 0, dep1: 0, wd1: 0, donate: 0, burn: 0, limits: false, host: false };
    let op = match gen_op(src, &w, &only) { Op::Swap { u, amt, .. } => Op::Swap { u, dir, amt, min: 0, host: None }, _ => unreachable!() };
    let st = w.try_op(&op);
    let (amt, u) = match op { Op::Swap { amt, u, .. } => (amt, u), _ => unreachable!() };
    ctx.note(|| format!("line {:?}; locked {}, reserve {}; {:?} -> {:?}", l, st.pre.a, st.pre.b, op, st.out));
    if let Out::Panic(m) = &st.out { bad!("panic", "trade aborted: {m}"); }
    let (a0, b0) = (st.pre.a as u128, st.pre.b as u128);
    let res = if st.out.ok() {
        let t = st.post.src(dir) as i128 - st.pre.src(dir) as i128;
        let d = st.pre.dst(dir) as i128 - st.post.dst(dir) as i128;
        ensure!(t >= 0 && d >= 0, "direction", "a {dir:?} trade moved {t} in and {d} out");
        ensure!(st.post.supply == st.pre.supply, "lp", "a trade on a linear pool changed the LP supply");
        let du = st.du(u);
        let (us, ud) = if dir == Dir::AtoB { (-du.0, du.1) } else { (-du.1, du.0) };
        ensure!(us == t && ud == d, "user", "the trader's balances moved {us}/{ud} while the pool's moved {t}/{d}");
        Some((t as u128, d as u128))
    } else {
        // a trader without the funds says nothing about the curve
        if st.pre.us(u, dir) < amt { ctx.label("no-funds"); return Ok(()); }
        None
    };
    let v = if dir == Dir::AtoB { check_buy(&l, amt as u128, a0, b0, res) } else { check_sell(&l, amt as u128, a0, res) };
    match v {
        Ok(lab) => { ctx.label(lab); if res.is_some() { ctx.nontrivial(&(l, amt, a0, b0)); } Ok(()) }
        Err(m) => bad!(if dir == Dir::AtoB { "buy" } else { "sell" }, "{m}; line {l:?}, locked {a0}, reserve {b0}, offered {amt}"),
    }
}
fn buy_prog(src: &mut Src, ctx: &mut Ctx) -> R { prog(src, ctx, Dir::AtoB) }
fn sell_prog(src: &mut Src, ctx: &mut Ctx) -> R { prog(src, ctx, Dir::BtoA) }

/// Collateral backs every bonded token sold, at every point of a history
fn solvency(src: &mut Src, ctx: &mut Ctx) -> R {
    let l = gen_lin(src);
    let b = match src.weighted(&[4, 1]) { 0 => src.log(60).max(1), _ => 1 + src.below(1000) };
    let salt = gen_salt(src);
    let mut w = match World::new(salt, Curve::Linear(l), NOFEE, 0, b, u64::MAX >> 4) { Ok(w) => w, Err(_) => { ctx.label("no-pool"); return Ok(()) } };
    let mix = Mix { swap: 12, depall: 0, wdall: 0, dep1: 0, wd1: 0, donate: 1, burn: 0, limits: false, host: false };
    let n = 2 + src.below(14);
    // bonded tokens handed out minus taken back
    let mut out: i128 = 0;
    let one = U::one() << S;
    let mut slack = U::zero();
    ctx.note(|| format!("line {:?}, {b} bonded tokens for sale", l));
    for _ in 0..n {
        let op = gen_op(src, &w, &mix);
        let st = w.apply(&op);
        ctx.steps += 1;
        if let Out::Panic(m) = &st.out { bad!("panic", "{op:?} aborted: {m}"); }
        let (a0, a1) = (st.pre.a as u128, st.post.a as u128);
        if let Op::Swap { dir, .. } = op {
            if !st.out.ok() { continue; }
            let db = st.pre.b as i128 - st.post.b as i128;
            out += db;
            let (t0, t1) = (l.tol(u(a0)), l.tol(u(a1)));
            slack = slack + t0 + t1;
            if dir == Dir::AtoB && st.post.b == 0 {
                slack = slack + satsub(l.b_hi_half(a1), l.b_lo(u(a1)));
                ctx.label("drained");
            } else if dir == Dir::BtoA && st.post.a == 0 {
                slack = slack + one / 2 + 1;
                ctx.label("emptied");
            } else { ctx.label(if dir == Dir::AtoB { "bought" } else { "sold" }); }
            if out > 0 && slack < (one * u((out / 100) as u128 + 1)) { ctx.nontrivial(&(l, a1, out, db)); }
        }
        // an empty pool owes nothing more: tokens sold to it from elsewhere are no credit
        if st.post.a == 0 { out = out.max(0); }
        ctx.note(|| format!("{op:?} -> {:?}; locked {}, outstanding {out}, backed {:.3}", st.out, st.post.a, fs(l.b_lo(u(st.post.a as u128)))));
        if out > 0 {
            let backed = l.b_hi(u(a1)) + slack;
            ensure!(backed >= sc(out as u128), "insolvent", "{} bonded tokens outstanding but the {} locked back only {:.6} (tolerance {:.6}); line {:?}", out, a1, fs(l.b_hi(u(a1))), fs(slack), l);
        }
    }
    Ok(())
}

/// every holder can leave: whatever was bought can be sold back, in any order, and the pool
/// pays it all from its own collateral
fn exit(src: &mut Src, ctx: &mut Ctx) -> R {
    let (sn, sd) = frac(src, -7, 3);
    let (pn, pd) = frac(src, -4, 4);
    let l = Lin { sn, sd, pn, pd };
    let b = src.log(44).max(10);
    let salt = gen_salt(src);
    let mut w = match World::new(salt, Curve::Linear(l), NOFEE, 0, b, u64::MAX >> 4) { Ok(w) => w, Err(_) => { ctx.label("no-pool"); return Ok(()) } };
    let mut held = [0u64; NU];
    let mix = Mix { swap: 1, depall: 0, wdall: 0, dep1: 0, wd1: 0, donate: 0, burn: 0, limits: false, host: false };
    ctx.note(|| format!("line {:?}, {b} bonded tokens for sale", l));
    for _ in 0..1 + src.below(6) {
        let op = match gen_op(src, &w, &mix) { Op::Swap { u, amt, .. } => Op::Swap { u, dir: Dir::AtoB, amt, min: 0, host: None }, _ => unreachable!() };
        let st = w.apply(&op);
        ctx.steps += 1;
        if let (Op::Swap { u, .. }, true) = (op, st.out.ok()) { held[u] += st.pre.b - st.post.b; ctx.note(|| format!("{op:?}: got {}", st.pre.b - st.post.b)); }
    }
    // sell everything back, in pieces, in a generated order
    let mut guard = 0;
    while held.iter().any(|h| *h > 0) && guard < 24 {
        guard += 1;
        let mut uu = src.usize(NU);
        while held[uu] == 0 { uu = (uu + 1) % NU; }
        let amt = if guard > 12 { held[uu] } else { match src.below(3) { 0 => held[uu], 1 => (held[uu] / 2).max(1), _ => src.log_to(held[uu]) } };
        let op = Op::Swap { u: uu, dir: Dir::BtoA, amt, min: 0, host: None };
        let st = w.apply(&op);
        ctx.steps += 1;
        ctx.note(|| format!("{op:?} -> {:?}; locked {} -> {}", st.out, st.pre.a, st.post.a));
        match check_sell(&l, amt as u128, st.pre.a as u128, if st.out.ok() { Some(((st.post.b - st.pre.b) as u128, (st.pre.a - st.post.a) as u128)) } else { None }) {
            Ok(_) => {}
            Err(m) => bad!("exit", "a holder could not sell back on the line: {m}; {:?}", l),
        }
        held[uu] -= amt;
        if st.out.ok() { ctx.nontrivial(&(l, st.pre.a, amt)); }
    }
    Ok(())
}

/// which parameters and opening balances a pool accepts
fn validation(src: &mut Src, ctx: &mut Ctx) -> R {
    let z = |src: &mut Src, x: u64| if src.chance(1, 6) { 0 } else { x };
    let curve = match src.weighted(&[1, 2, 1, 2, 8]) {
        0 => Curve::Product,
        1 => { let p = src.any64(); Curve::Price(z(src, p)) }
        2 => { let a = src.any64(); Curve::Stable(a) }
        3 => { let o = src.any64(); Curve::Offset(z(src, o)) }
        _ => {
            let mut l = gen_lin(src);
            l.sn = z(src, l.sn); l.sd = z(src, l.sd); l.pn = z(src, l.pn); l.pd = z(src, l.pd);
            if src.chance(1, 3) {
                // around the smallest slope that 18 decimals can hold
                l.sn = 1 + src.below(18);
                l.sd = (l.sn * 1_000_000_000_000_000_000).wrapping_add(src.below(7)).wrapping_sub(3);
                if l.sn == 18 && l.sd < 1_000_000 { l.sd = u64::MAX; }
            }
            if src.chance(1, 10) { l = Lin { sn: src.any64(), sd: src.any64(), pn: src.any64(), pd: src.any64() }; }
            Curve::Linear(l)
        }
    };
    let a = if src.chance(1, 2) { 0 } else { src.any64() };
    let b = if src.chance(1, 4) { 0 } else { src.any64() };
    // everything that is wrong with the request; any of them may be named
    let mut want = vec![];
    let empty = match curve { Curve::Linear(_) => b == 0, Curve::Product | Curve::Stable(_) => a == 0 || b == 0, Curve::Price(_) | Curve::Offset(_) => a == 0 };
    let invalid = match curve { Curve::Linear(l) => !l.valid(), Curve::Price(x) | Curve::Offset(x) => x == 0, _ => false };
    if empty { want.push(code::EMPTY); }
    if curve.is_linear() && a != 0 { want.push(code::SUPPLY); }
    if invalid { want.push(code::CURVE); }
    let mut bank = Bank::new();
    let salt = gen_salt(src);
    let p = fresh(&mut bank, salt, curve, NOFEE, a, b, key("fee owner", salt), key("creator", salt));
    let before = bank.clone();
    let o = run_init(&mut bank, &p, &init_metas(&p));
    ctx.note(|| format!("{curve:?}, opening balances {a}/{b} -> {o:?}, expected {want:?}"));
    ctx.nontrivial(&(curve, a, b));
    match want.is_empty() {
        false => {
            ctx.label("refused");
            ensure!(o.custom().map_or(false, |c| want.contains(&c)), "accepted", "{curve:?} with opening balances {a}/{b}: expected error {want:?}, got {o:?}");
            ensure!(bank.accs == before.accs, "changed", "a refused initialisation changed an account");
        }
        true => {
            ctx.label("accepted");
            ensure!(o.ok(), "refused", "{curve:?} with opening balances {a}/{b} refused: {o:?}");
            ensure!(bank.supply(&p.lp) == LP0 && bank.amt(&p.dest) == LP0, "lp", "initial LP supply {} / destination {}", bank.supply(&p.lp), bank.amt(&p.dest));
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    const ASSUME: &[&str] = &[
        "18-decimal arithmetic: each position on the line is known to the tolerance derived in model.rs (Lin::tol), which exceeds one unit only for slopes near 1e-18",
        "square roots carry 2^-30 relative precision, always rounded against the trader",
    ];
    vec![
        Prop { id: "P01", rule: "a history step counts when bonded tokens are outstanding after a completed trade and the accumulated arithmetic tolerance is below 1 + 1% of them; key = line, collateral, outstanding, trade", assumptions: ASSUME, subs: vec![
            Sub { name: "history", quick: 60_000, thorough: 2_500_000, f: solvency, what: "random buy/sell/donation histories through the entry point; after every step b(collateral) >= bonded tokens outstanding, b() evaluated in 1024-bit integers" },
            Sub { name: "exit", quick: 40_000, thorough: 1_500_000, f: exit, what: "several users buy, then all sell back in generated order and pieces; each sale must be paid what the line pays" },
        ] },
        Prop { id: "P02", rule: "a completed buy; key = line, offered, locked, reserve", assumptions: ASSUME, subs: vec![
            Sub { name: "calc", quick: 500_000, thorough: 30_000_000, f: buy, what: "calculator over wide lines and landmark amounts, against the exact integral" },
            Sub { name: "prog", quick: 60_000, thorough: 3_000_000, f: buy_prog, what: "the same through the entry point and the token program" },
        ] },
        Prop { id: "P03", rule: "a completed sale; key = line, offered, locked", assumptions: ASSUME, subs: vec![
            Sub { name: "calc", quick: 500_000, thorough: 30_000_000, f: sell, what: "calculator over wide lines and landmark amounts, against the exact integral" },
            Sub { name: "prog", quick: 60_000, thorough: 3_000_000, f: sell_prog, what: "the same through the entry point and the token program" },
        ] },
        Prop { id: "P04", rule: "every case: one initialisation request; key = curve parameters and opening balances", assumptions: &[], subs: vec![
            Sub { name: "init", quick: 80_000, thorough: 3_000_000, f: validation, what: "initialisation accepts exactly the valid parameter/balance combinations, with the documented error otherwise" },
        ] },
    ]
}
