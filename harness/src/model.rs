//! Reference mathematics, written from the documented formulas and evaluated in
//! exact 1024-bit integers, never with the program's own fixed-point code.
#![allow(dead_code)]
use crate::big::*;

pub const S: usize = 128; // binary places of scaled reals
pub const E18: u128 = 1_000_000_000_000_000_000;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Dir { AtoB, BtoA }
impl Dir { pub fn flip(self) -> Dir { if self == Dir::AtoB { Dir::BtoA } else { Dir::AtoB } } }

pub fn ceil_div(a: U, b: U) -> U { let q = a / b; if q * b == a { q } else { q + 1 } }
pub fn sc(x: u128) -> U { u(x) << S }
pub fn to_f(x: U) -> f64 { let b = x.bits(); if b <= 64 { x.low_u64() as f64 } else { ((x >> (b - 64)).low_u64() as f64) * 2f64.powi(b as i32 - 64) } }
/// scaled real as f64, for messages
pub fn fs(x: U) -> f64 { to_f(x) / 2f64.powi(S as i32) }
pub fn satsub(a: U, b: U) -> U { if a > b { a - b } else { U::zero() } }
pub fn lo128(x: U) -> Option<u128> { if x.bits() > 128 { None } else { Some(x.low_u128()) } }

// ---------------------------------------------------------------- fees
/// fee of an amount: nothing for a zero fraction or amount, otherwise the floor, at least one
pub fn fee(amount: u128, num: u64, den: u64) -> u128 {
    if num == 0 || amount == 0 { return 0; }
    let f = u(amount) * u(num as u128) / u(den as u128);
    f.low_u128().max(1)
}

// ---------------------------------------------------------------- constant price
/// (source taken, destination given) of a fee-less constant price swap
pub fn price_swap(p: u64, inp: u128, dir: Dir) -> Option<(u128, u128)> {
    let p = p as u128;
    if p == 0 { return None; }
    let (t, d) = match dir {
        Dir::BtoA => (inp, inp.checked_mul(p)?),
        Dir::AtoB => ((inp / p) * p, inp / p),
    };
    if t == 0 || d == 0 { None } else { Some((t, d)) }
}

// ---------------------------------------------------------------- constant product
/// best integer trade on x*y=k: gives floor, takes no more than needed for it
pub fn product_swap(inp: u128, src: u128, dst: u128) -> Option<(u128, u128)> {
    let k = u(src) * u(dst);
    let ns = u(src) + u(inp);
    if ns.is_zero() || k.is_zero() { return None; }
    // less than one unit would be left: the division is refused
    if k < ns { return None; }
    let nd = ceil_div(k, ns);
    let out = u(dst) - nd;
    if out.is_zero() || nd.is_zero() { return None; }
    let need = ceil_div(k, nd) - u(src);
    Some((need.low_u128(), out.low_u128()))
}

// ---------------------------------------------------------------- linear price
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Lin { pub sn: u64, pub sd: u64, pub pn: u64, pub pd: u64 }

impl Lin {
    fn q(&self, a: U) -> U {
        let (sn, sd, pn, pd) = (u(self.sn as u128), u(self.sd as u128), u(self.pn as u128), u(self.pd as u128));
        isqrt((pn * pn * sd * sd + u(2) * sn * sd * pd * pd * a) << (2 * S))
    }
    /// bonded tokens out when `a` collateral is locked: a lower bound, within 2 ulp (2^-128)
    pub fn b_lo(&self, a: U) -> U {
        let (sn, sd, pn, pd) = (u(self.sn as u128), u(self.sd as u128), u(self.pn as u128), u(self.pd as u128));
        (self.q(a) - ((pn * sd) << S)) / (pd * sn)
    }
    pub fn b_hi(&self, a: U) -> U { self.b_lo(a) + 2 }
    /// b at a + 1/2 (upper bound)
    pub fn b_hi_half(&self, a: u128) -> U {
        // evaluate with a doubled line: same curve measured in half units of A has slope*2, price*2
        let (sn, sd, pn, pd) = (u(self.sn as u128), u(self.sd as u128), u(self.pn as u128), u(self.pd as u128));
        let q = isqrt((pn * pn * sd * sd + sn * sd * pd * pd * (u(2) * u(a) + 1)) << (2 * S));
        (q - ((pn * sd) << S)) / (pd * sn) + 2
    }
    /// spot price when `a` is locked (lower bound)
    pub fn price_lo(&self, a: U) -> U { self.q(a) / (u(self.pd as u128) * u(self.sd as u128)) }
    /// collateral locked at scaled position b; rounded down, within 2 ulp
    pub fn a_at(&self, b: U) -> U {
        let (sn, sd, pn, pd) = (u(self.sn as u128), u(self.sd as u128), u(self.pn as u128), u(self.pd as u128));
        (((sn * b * b) / (u(2) * sd)) >> S) + (pn * b) / pd
    }
    pub fn a_at_hi(&self, b: U) -> U { self.a_at(b) + 3 }
    /// what 18-decimal arithmetic may lose in B when solving for the position of `a`
    /// (error of at most 3 units in the 18th place under the root, 1 on the offset, 2 after), doubled
    pub fn tol(&self, a: U) -> U {
        let one = U::one() << S;
        let p = self.price_lo(a);
        let r1 = isqrt((u(3) << (2 * S)) / u(E18)) + 1;
        let r2 = if p.is_zero() { r1 } else { ((u(3) * one / u(E18)) << S) / p + 1 };
        let r = if r1 < r2 { r1 } else { r2 };
        let x = (r + one / u(E18) + 1) * u(self.sd as u128) / u(self.sn as u128) + u(2) * one / u(E18) + 2;
        x * 2
    }
    /// square-root precision: 2^-30 of the distance (in B) from the point where the line meets price zero
    pub fn sqrt_slack(&self, a: U) -> U {
        let p = self.price_lo(a) + 1;
        (p * u(self.sd as u128) / u(self.sn as u128) + 1) >> 30
    }
    pub fn slope_f(&self) -> f64 { self.sn as f64 / self.sd as f64 }
    /// the 18-decimal representation of the slope is at least one unit in the last place
    pub fn valid(&self) -> bool {
        if self.sn == 0 || self.sd == 0 || self.pd == 0 { return false; }
        // a slope of at least 1e-18 is accepted, one that rounds to zero is not
        u(self.sn as u128) * u(E18) >= u(self.sd as u128)
    }
}

/// Judge one completed buy: collateral `a0` locked, `b` bonded tokens in reserve, `s` offered.
pub fn check_buy(l: &Lin, s: u128, a0: u128, b: u128, res: Option<(u128, u128)>) -> Result<&'static str, String> {
    let one = U::one() << S;
    let half = one / 2;
    let b0 = l.b_lo(u(a0));
    let t0 = l.tol(u(a0));
    let sq0 = l.sqrt_slack(u(a0));
    // estimated start position lies in [b0 - t0, b0 + 2 + sq0 + t0]
    let st_hi = b0 + 2 + sq0 + t0;
    let st_lo = satsub(b0, t0);
    // cost of the whole reserve
    let cost_hi = satsub(l.a_at_hi(st_hi + sc(b)), sc(a0)) + half + u(8) * one / u(E18);
    let cost_lo = satsub(satsub(l.a_at(st_lo + sc(b)), sc(a0)), half + u(8) * one / u(E18));
    match res {
        None => {
            if b == 0 || s == 0 { return Ok("rejected"); }
            let fine = t0 <= half;
            if !fine { return Ok("rejected-imprecise"); }
            if cost_hi <= sc(s) + half {
                if cost_lo >= one { return Err(format!("a buy of the whole reserve was refused: {s} offered, cost at most {}", fs(cost_hi))); }
                return Ok("rejected-free");
            }
            if cost_lo > sc(s) {
                let b1 = l.b_lo(u(a0 + s));
                let t1 = l.tol(u(a0 + s));
                let sq1 = l.sqrt_slack(u(a0 + s));
                let d_lo = satsub(satsub(b1, t1 + sq1), st_hi);
                if d_lo >= one { return Err(format!("a buy worth {} bonded tokens was refused", fs(d_lo))); }
            }
            Ok("rejected")
        }
        Some((t, d)) => {
            if t == 0 || d == 0 { return Err(format!("trade with a zero side: took {t}, gave {d}")); }
            if t > s { return Err(format!("took {t}, more than the {s} offered")); }
            if d > b {
                if cost_hi <= sc(s) + half && !cost_lo.is_zero() { return Err(format!("{s} offered buys the whole reserve of {b} (cost at most {}), but {d} were to be given for {t}", fs(cost_hi - half))); }
                return Ok("over-reserve");
            }
            let b1 = l.b_hi(u(a0 + t));
            let t1 = l.tol(u(a0 + t));
            if d == b && !(t == s && b1 + t1 >= satsub(b0, t0) + sc(d) && cost_lo > sc(s)) {
                // drained: gives everything for its cost to the nearest unit
                if l.b_hi_half(a0 + t) + t0 + t1 < b0 + sc(d) {
                    return Err(format!("gave the whole reserve of {d} for {t}, which buys only {} on the line", fs(satsub(l.b_hi(u(a0 + t)), b0))));
                }
                if sc(t) > cost_hi { return Err(format!("charged {t} for the whole reserve of {d}, whose cost on the line is at most {}", fs(cost_hi))); }
                return Ok("drained");
            }
            if t != s { return Err(format!("took {t} of {s} offered without handing over the whole reserve (gave {d} of {b})")); }
            if b1 + t1 + t0 < b0 + sc(d) { return Err(format!("gave {d} bonded tokens for {t}, but the line gives only {}", fs(satsub(b1, b0)))); }
            let sq1 = l.sqrt_slack(u(a0 + s));
            let d_lo = satsub(satsub(satsub(l.b_lo(u(a0 + s)), t1 + sq1), st_hi), one);
            if sc(d) < d_lo { return Err(format!("gave {d} bonded tokens for {t}, but the line gives {} (at least {} at the stated precision)", fs(satsub(b1, b0)), fs(d_lo))); }
            if cost_hi <= sc(s) + half { return Err(format!("took {s} although the whole reserve of {b} costs at most {}", fs(cost_hi))); }
            Ok("bought")
        }
    }
}

/// Judge one completed sale: collateral `a0` locked, `t` bonded tokens offered.
pub fn check_sell(l: &Lin, t: u128, a0: u128, res: Option<(u128, u128)>) -> Result<&'static str, String> {
    let one = U::one() << S;
    let half = one / 2;
    let ulp = one / u(E18) + 1;
    let b0 = l.b_lo(u(a0));
    let t0 = l.tol(u(a0));
    let sq0 = l.sqrt_slack(u(a0));
    let st_hi = b0 + 2 + sq0 + t0;
    let st_lo = satsub(b0, t0);
    match res {
        None => {
            if t == 0 || a0 == 0 { return Ok("rejected"); }
            if sc(t) > st_hi {
                // everything is paid out for the position
                if st_lo >= half + 1 { return Err(format!("a sale of {t} (the whole position is {}) was refused", fs(b0))); }
                return Ok("rejected");
            }
            if sc(t) <= st_lo {
                let end_hi = st_hi + one - sc(t);
                let out_lo = satsub(sc(a0), l.a_at_hi(end_hi) + ulp * 4);
                if out_lo >= one { return Err(format!("a sale of {t} worth at least {} was refused", fs(out_lo))); }
            }
            Ok("rejected")
        }
        Some((tk, d)) => {
            if tk == 0 || d == 0 { return Err(format!("trade with a zero side: took {tk}, gave {d}")); }
            if tk > t { return Err(format!("took {tk}, more than the {t} offered")); }
            if d > a0 { return Err(format!("paid {d}, more than the {a0} locked")); }
            if tk != t || (d == a0 && sc(t) + half + t0 >= b0) {
                // position exhausted
                if d != a0 { return Err(format!("took {tk} of {t} offered without paying out all {a0}: paid {d}")); }
                if sc(tk) + half + t0 < b0 { return Err(format!("paid everything ({a0}) for {tk} bonded tokens while the position is {}", fs(b0))); }
                if sc(tk) > st_hi + half { return Err(format!("took {tk} bonded tokens while the position is only {}", fs(b0))); }
                return Ok("emptied");
            }
            // position after the payout must not be behind the tokens given back
            let rest = u(a0 - d);
            let p1 = l.price_lo(rest);
            let e1 = isqrt(((u(8) * u(l.sd as u128)) << (2 * S)) / (u(E18) * u(l.sn as u128))) + 1;
            let e2 = if p1.is_zero() { e1 } else { ((ulp * 4) << S) / p1 + 1 };
            let te = if e1 < e2 { e1 } else { e2 };
            if l.b_hi(rest) + sc(t) + t0 + te < b0 {
                return Err(format!("paid {d} for {t} bonded tokens; the line pays only {}", fs(satsub(sc(a0), l.a_at(satsub(b0, sc(t)))))));
            }
            if st_hi + one < sc(t) { return Err(format!("took {t} bonded tokens although the position is {} and was not emptied", fs(b0))); }
            let end_hi = satsub(st_hi + one, sc(t));
            let out_lo = satsub(sc(a0), l.a_at_hi(end_hi) + ulp * 4 + one);
            if sc(d) < out_lo { return Err(format!("paid {d} for {t} bonded tokens; the line pays {} (at least {} at the stated precision)", fs(satsub(sc(a0), l.a_at(satsub(b0, sc(t))))), fs(out_lo))); }
            Ok("sold")
        }
    }
}
