//! Reference model of pool operations: what each request must move, computed in
//! wide exact integers from the documented rules.
#![allow(dead_code)]
use crate::big::*;
use crate::model::*;
use crate::world::*;

/// a closed interval of admissible integers
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Iv { pub lo: u128, pub hi: u128 }
impl Iv {
    pub fn has(&self, x: u128) -> bool { self.lo <= x && x <= self.hi }
    pub fn exact(x: u128) -> Iv { Iv { lo: x, hi: x } }
}
fn cap128(x: U) -> u128 { if x.bits() > 127 { u128::MAX >> 1 } else { x.low_u128() } }
fn uu(x: u64) -> U { u(x as u128) }
fn flr(x: U) -> u128 { cap128(x >> S) }
fn cel(x: U) -> u128 { let y = x >> S; cap128(if (y << S) == x { y } else { y + 1 }) }

// ------------------------------------------------------------ product, one side
const P12: u128 = 1_000_000_000_000;
/// sqrt(1 ± amt/reserve) with the 12-decimal tolerance, as (lo, hi) scaled reals; None if negative
fn root12(plus: bool, amt: u128, reserve: u128) -> Option<(U, U)> {
    let one = U::one() << S;
    let ratio = (u(amt) << S) / u(reserve);
    let base = if plus { one + ratio } else { satsub(one, ratio) };
    let e = (u(2) << S) / u(P12) + 2;
    let lo = satsub(base, e);
    let hi = base + e;
    let e2 = (u(4) << S) / u(P12) + 2;
    Some((satsub(isqrt(lo << S), e2), isqrt(hi << S) + 1 + e2))
}
pub fn product_mint(amt: u128, reserve: u128, supply: u128) -> Option<Iv> {
    if reserve == 0 { return None; }
    let one = U::one() << S;
    let (lo, hi) = root12(true, amt, reserve)?;
    Some(Iv { lo: flr(satsub(lo, one) * u(supply)), hi: flr(satsub(hi, one) * u(supply)) })
}
pub fn product_burn(amt: u128, reserve: u128, supply: u128) -> Option<Iv> {
    // a ratio that rounds to one at twelve decimals still counts as the whole reserve
    if reserve == 0 || satsub(u(amt), u(reserve)) * u(P12) > u(reserve) { return None; }
    let one = U::one() << S;
    let (lo, hi) = root12(false, amt, reserve)?;
    Some(Iv { lo: cel(satsub(one, hi) * u(supply)), hi: cel(satsub(one, lo) * u(supply)) })
}

// ------------------------------------------------------------ stable
/// largest integer D with D^3 + (Ann-1) D Q <= Ann S Q, Q = (2x+1)(2y+1)
pub fn stable_d(amp: u64, x: u128, y: u128) -> U {
    let ann = u(amp as u128 * 2);
    let s = u(x) + u(y);
    let q = (u(2) * u(x) + 1) * (u(2) * u(y) + 1);
    let (mut lo, mut hi) = (U::zero(), s + 1);
    // D <= S + something small; widen until it fails
    let ok = |d: U| d * d * d + (ann - 1) * d * q <= ann * s * q;
    while ok(hi) { hi = hi * 2; }
    while hi - lo > U::one() { let m = (lo + hi) / 2; if ok(m) { lo = m } else { hi = m } }
    lo
}
/// smallest y with invariant d held at new source x:  y^2 + (x + D/Ann - D) y >= D^3/(4 x Ann)
pub fn stable_y(amp: u64, x: u128, d: U) -> U {
    let ann = u(amp as u128 * 2);
    let x = u(x);
    // multiply by 4 x Ann
    let ok = |y: U| (y * y + x * y) * x * ann * 4 + d * y * x * 4 >= d * d * d + d * y * x * ann * 4;
    let (mut lo, mut hi) = (U::zero(), d * 2 + 1);
    if ok(lo) { return lo; }
    while !ok(hi) { hi = hi * 2; }
    while hi - lo > U::one() { let m = (lo + hi) / 2; if ok(m) { hi = m } else { lo = m } }
    hi
}

// ------------------------------------------------------------ LP for one side
/// LP tokens minted for a one-sided deposit of `amt` (after fee adjustment)
pub fn mint_for(c: &Curve, amt: u128, dir: Dir, a: u64, b: u64, supply: u64) -> Option<Iv> {
    if amt == 0 { return Some(Iv::exact(0)); }
    let (a, b) = (a as u128, b as u128);
    match *c {
        Curve::Product => product_mint(amt, if dir == Dir::AtoB { a } else { b }, supply as u128),
        Curve::Offset(o) => product_mint(amt, if dir == Dir::AtoB { a } else { b + o as u128 }, supply as u128),
        Curve::Price(p) => {
            let v = if dir == Dir::AtoB { u(amt) } else { u(amt) * uu(p) };
            let t = u(b) * uu(p) + u(a);
            if t.is_zero() { return None; }
            Some(Iv::exact(cap128(uu(supply) * v / t)))
        }
        _ => None,
    }
}
/// LP tokens worth `amt` of one side, rounded up
pub fn burn_for(c: &Curve, amt: u128, dir: Dir, a: u64, b: u64, supply: u64) -> Option<Iv> {
    if amt == 0 { return Some(Iv::exact(0)); }
    let (a, b) = (a as u128, b as u128);
    match *c {
        Curve::Product => product_burn(amt, if dir == Dir::AtoB { a } else { b }, supply as u128),
        Curve::Offset(o) => product_burn(amt, if dir == Dir::AtoB { a } else { b + o as u128 }, supply as u128),
        Curve::Price(p) => {
            let v = if dir == Dir::AtoB { u(amt) } else { u(amt) * uu(p) };
            let t = u(b) * uu(p) + u(a);
            if t.is_zero() { return None; }
            let n = uu(supply) * v;
            if n < t { return None; }
            Some(Iv::exact(cap128(ceil_div(n, t))))
        }
        _ => None,
    }
}

// ------------------------------------------------------------ swaps
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct SwapPred { pub taken: u128, pub given: u128, pub trade_fee: u128, pub owner_fee: u128, pub lp: Iv }
/// the exact outcome of a swap (limits and funds aside) on the constant price, product and
/// offset curves; Err = must be refused
pub fn predict_swap(c: &Curve, f: &FeeSet, s: &Snap, amt: u64, dir: Dir) -> Result<SwapPred, &'static str> {
    let amt = amt as u128;
    let (src, dst) = (s.src(dir) as u128, s.dst(dir) as u128);
    let tf = fee(amt, f.t.0, f.t.1);
    let of = fee(amt, f.o.0, f.o.1);
    if tf + of > amt { return Err("fees exceed the amount"); }
    let rest = amt - tf - of;
    let (t, d) = match *c {
        Curve::Price(p) => price_swap(p, rest, dir),
        Curve::Product => product_swap(rest, src, dst),
        Curve::Offset(o) => { let o = o as u128; if dir == Dir::AtoB { product_swap(rest, src, dst + o) } else { product_swap(rest, src + o, dst) } }
        _ => None,
    }.ok_or("nothing to trade")?;
    if d > dst { return Err("reserve too small"); }
    let taken = t + tf + of;
    if taken > u64::MAX as u128 || src + taken > u64::MAX as u128 { return Err("overflow"); }
    let (na, nb) = if dir == Dir::AtoB { (src + taken, dst - d) } else { (dst - d, src + taken) };
    let lp = burn_for(c, of, dir, na as u64, nb as u64, s.supply).ok_or("owner fee below one LP token")?;
    Ok(SwapPred { taken, given: d, trade_fee: tf, owner_fee: of, lp })
}

// ------------------------------------------------------------ both sides
/// amounts for `lp` of `supply` LP tokens
pub fn both(c: &Curve, lp: u128, supply: u128, a: u128, b: u128, up: bool) -> Option<(u128, u128)> {
    if supply == 0 { return None; }
    let prop = |x: u128| -> u128 {
        let q = u(lp) * u(x) / u(supply);
        let exact = q * u(supply) == u(lp) * u(x);
        cap128(if up && !exact && !q.is_zero() { q + 1 } else { q })
    };
    match *c {
        Curve::Product | Curve::Stable(_) => Some((prop(a), prop(b))),
        Curve::Offset(o) => Some((prop(a), prop(b + o as u128))),
        Curve::Price(p) => {
            // half of the pool's value on each side
            let v = (u(a) + u(b) * uu(p) + if up { 1 } else { 0 }) / 2;
            let n = u(lp) * v;
            if up {
                if n < u(supply) || n < uu(p) { return None; }
                let pb = ceil_div(n, uu(p));
                if pb < u(supply) { return None; }
                Some((cap128(ceil_div(n, u(supply))), cap128(ceil_div(pb, u(supply)))))
            } else { Some((cap128(n / u(supply)), cap128(n / uu(p) / u(supply)))) }
        }
        Curve::Linear(_) => None,
    }
}

// ------------------------------------------------------------ stable, one side
/// LP tokens for a one-sided change on the stable curve, with the integer solver's slack
pub fn stable_share(amp: u64, a: u128, b: u128, na: u128, nb: u128, supply: u128, dep: bool) -> Iv {
    let (d0, d1) = (stable_d(amp, a, b), stable_d(amp, na, nb));
    let e = stable_err(a, b).max(stable_err(na, nb));
    if d0.is_zero() { return Iv { lo: 0, hi: u128::MAX >> 1 }; }
    let (dlo, dhi) = (if d0 > u(e) { d0 - e } else { U::one() }, d0 + e);
    let k = u(P12);
    let (lo, hi) = if dep {
        (u(supply) * satsub(d1, d0 + e) / dhi, u(supply) * (satsub(d1, d0) + e) / dlo)
    } else {
        // rounded up from twelve decimals
        let up = |x: U| (x + (k - 1)) / k;
        (up(satsub(u(supply) * satsub(d0, d1 + e) * k / dhi, U::one())), up(u(supply) * (satsub(d0, d1) + e) * k / dlo + 1))
    };
    Iv { lo: cap128(lo), hi: cap128(hi) }
}
/// how far the integer solver's invariant may be from the exact one (its floored quotients are
/// magnified by the imbalance, by a third of its cube root at most)
pub fn stable_err(x: u128, y: u128) -> u128 { let r = imbalance(x, y); 3 + (r / 100).min((r as f64).cbrt() as u128) }
pub fn imbalance(x: u128, y: u128) -> u128 { if x > y { x / y.max(1) } else { y / x.max(1) } }

/// LP tokens owed for a one-sided deposit of `amt` (before fees) on any curve with deposits.
/// The trade fee is charged on half of the amount.
pub fn single_deposit(c: &Curve, f: &FeeSet, s: &Snap, amt: u64, dir: Dir) -> Option<Iv> {
    if amt == 0 { return Some(Iv::exact(0)); }
    let amt = amt as u128;
    let fe = fee((amt / 2).max(1), f.t.0, f.t.1);
    if fe > amt { return None; }
    let x = amt - fe;
    if let Curve::Stable(amp) = *c {
        if x == 0 { return Some(Iv::exact(0)); }
        let (a, b) = (s.a as u128, s.b as u128);
        let (na, nb) = if dir == Dir::AtoB { (a + x, b) } else { (a, b + x) };
        return Some(stable_share(amp, a, b, na, nb, s.supply as u128, true));
    }
    mint_for(c, x, dir, s.a, s.b, s.supply)
}
/// what half of the amount costs before the trade fee is taken from it
pub fn gross_withdrawal(f: &FeeSet, amt: u128) -> Option<u128> {
    let half = (amt + 1) / 2;
    if f.t.0 == 0 { return Some(amt); }
    let pre = ceil_div(u(half) * uu(f.t.1), uu(f.t.1 - f.t.0));
    Some(amt - half + lo128(pre)?)
}
/// LP tokens to burn for a one-sided withdrawal of exactly `amt`, withdraw fee not included
pub fn single_withdrawal(c: &Curve, f: &FeeSet, s: &Snap, amt: u64, dir: Dir) -> Option<Iv> {
    if amt == 0 { return Some(Iv::exact(0)); }
    let x = gross_withdrawal(f, amt as u128)?;
    if let Curve::Stable(amp) = *c {
        let (a, b) = (s.a as u128, s.b as u128);
        let r = s.src(dir) as u128;
        if x > r { return None; }
        let (na, nb) = if dir == Dir::AtoB { (a - x, b) } else { (a, b - x) };
        return Some(stable_share(amp, a, b, na, nb, s.supply as u128, false));
    }
    burn_for(c, x, dir, s.a, s.b, s.supply)
}
/// an LP share of the pool before and after: is `v1/s1 >= v0/s0` with `lp` LP tokens of slack?
pub fn share_ok(v0: U, s0: u128, v1: U, s1: u128, lp_slack: u128) -> bool {
    let s1 = s1.saturating_sub(lp_slack);
    v1 * u(s0) >= v0 * u(s1)
}
/// value of the whole pool: for curves with a product, the square root of it (scaled), rounded down
pub fn worth(c: &Curve, a: u64, b: u64) -> U {
    match *c {
        Curve::Product => isqrt((uu(a) * uu(b)) << 200),
        Curve::Offset(o) => isqrt((uu(a) * (uu(b) + uu(o))) << 200),
        Curve::Price(p) => uu(a) + uu(b) * uu(p),
        Curve::Stable(amp) => stable_d(amp, a as u128, b as u128),
        Curve::Linear(_) => U::zero(),
    }
}
