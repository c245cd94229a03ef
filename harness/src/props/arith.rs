//! The fixed-point arithmetic under the linear curve, its square root, and the
//! absence of aborts anywhere.
use crate::big::*;
use crate::chain::*;
use crate::engine::*;
use crate::model::*;
use crate::src::Src;
use crate::world::*;
use crate::{bad, ensure};
use spl_math::uint::U256;
use token_bonding_curve::curve::calculator::{RoundDirection, TradeDirection};
use token_bonding_curve::dfs_precise_number::DFSPreciseNumber as N;

fn to_u(x: U256) -> U { let mut b = [0u8; 32]; x.to_little_endian(&mut b); U::from_little_endian(&b) }
fn to_256(x: U) -> Option<U256> { if x.bits() > 256 { return None; } let mut b = [0u8; 128]; x.to_little_endian(&mut b); Some(U256::from_little_endian(&b[..32])) }
fn e18() -> U { u(E18) }
fn top() -> U { U::one() << 256 }

/// raw 256-bit value, spread over magnitudes and over the edges of the representation
fn raw(src: &mut Src) -> U {
    let w = |src: &mut Src| { let mut v = U::zero(); for _ in 0..4 { v = (v << 64) + u(src.word() as u128); } v };
    match src.weighted(&[2, 5, 3, 3, 2, 2]) {
        0 => u(src.below(20) as u128),
        1 => { let bits = src.below(257) as usize; if bits == 0 { U::zero() } else { (w(src) >> (256 - bits)) | (U::one() << (bits - 1)) } }
        // a whole number, give or take a few units in the last place
        2 => { let bits = src.log(64); let x = u(bits as u128) * e18(); let d = u(src.below(7) as u128); satsub(x + d, u(3)) }
        // a half, give or take
        3 => { let x = u(src.log(64) as u128) * e18() + e18() / 2; let d = u(src.below(5) as u128); satsub(x + d, u(2)) }
        // near a power of two
        4 => { let k = src.below(257) as usize; let d = u(src.below(9) as u128); let x = satsub((U::one() << k) + d, u(4)); if x >= top() { top() - 1 } else { x } }
        _ => top() - 1 - u(src.log(63) as u128),
    }
}
fn num(v: U) -> N { N { value: to_256(v).expect("256 bits") } }

fn ops(src: &mut Src, ctx: &mut Ctx) -> R {
    let x = raw(src);
    let y = match src.weighted(&[5, 1, 2]) {
        0 => raw(src),
        1 => x,
        // product or quotient near the edge of the representation
        _ => { let d = src.below(5) as u128; let q = if x.is_zero() { top() } else { top() / x }; let q = satsub(q + u(d), u(2)); if q >= top() { top() - 1 } else { q } }
    };
    let (a, b) = (num(x), num(y));
    let op = src.below(11);
    let name = ["add", "sub", "unsigned_sub", "mul", "div", "floor", "ceiling", "to_imprecise", "compare", "new", "to_spl"][op as usize];
    ctx.note(|| format!("{name} of raw {x} and {y}"));
    ctx.label(name);
    ctx.nontrivial(&(op, a.value.0, b.value.0));
    let g = |o: Option<N>| o.map(|n| to_u(n.value));
    let run = |f: &dyn Fn() -> Option<U>| -> Result<Option<U>, Failure> {
        guard(f).map_err(|m| Failure { sig: "panic".into(), msg: format!("{name} of raw {x} and {y} aborted: {m}") })
    };
    match op {
        0 => { let r = run(&|| g(a.checked_add(&b)))?; let want = if x + y < top() { Some(x + y) } else { None }; ensure!(r == want, "add", "raw {x} + {y} = {r:?}"); }
        1 => { let r = run(&|| g(a.checked_sub(&b)))?; let want = if x >= y { Some(x - y) } else { None }; ensure!(r == want, "sub", "raw {x} - {y} = {r:?}"); }
        2 => {
            let r = guard(|| a.unsigned_sub(&b)).map_err(|m| Failure { sig: "panic".into(), msg: format!("unsigned_sub aborted: {m}") })?;
            let want = if x >= y { (x - y, false) } else { (y - x, true) };
            ensure!((to_u(r.0.value), r.1) == want, "unsigned-sub", "raw |{x} - {y}| = {:?}", r);
        }
        3 => {
            let r = run(&|| g(a.checked_mul(&b)))?;
            let p = x * y;
            match r {
                None => { ensure!(p + e18() / 2 >= top() && (p < top() || p / e18() + (if x < y { x } else { y }) >= top() || p / e18() >= top()), "mul-none", "raw {x} * {y} refused although the product {} is representable", p / e18());
                    ctx.label("mul-overflow"); }
                Some(r) => if p + e18() / 2 < top() {
                    let e = if r * e18() > p { r * e18() - p } else { p - r * e18() };
                    ensure!(e * 2 <= e18(), "mul", "raw {x} * {y} = {r}, off by more than half a unit in the last place");
                } else {
                    // the smaller operand times the whole part of the larger
                    let small = if x < y { x } else { y };
                    ensure!(r * e18() <= p + e18() / 2 && (r + small) * e18() > p, "mul-large", "raw {x} * {y} = {r}, the product is {}", p / e18());
                    ctx.label("mul-large");
                },
            }
        }
        4 => {
            let r = run(&|| g(a.checked_div(&b)))?;
            if y.is_zero() { ensure!(r.is_none(), "div-zero", "raw {x} / 0 = {r:?}"); ctx.label("div-by-zero"); return Ok(()); }
            let n = x * e18();
            match r {
                None => { ensure!(n + e18() * e18() / 2 >= top() && (n < top() || (x + e18() / 2) / y * e18() >= top() || x + e18() / 2 >= top()), "div-none", "raw {x} / {y} refused although the quotient {} is representable", n / y); ctx.label("div-overflow"); }
                Some(r) => if n + e18() / 2 < top() {
                    // within one unit for divisors of at least one; half a unit in the dividend's last place below that
                    ensure!(r * y <= n + e18() / 2 && (r + 1) * y > n, "div", "raw {x} / {y} = {r}, the quotient is {}", n / y);
                } else {
                    ensure!(r * y <= n + e18() * e18() / 2 && (r + e18()) * y > n, "div-large", "raw {x} / {y} = {r}, the quotient is {}", n / y);
                    ctx.label("div-large");
                },
            }
        }
        5 => { let r = run(&|| g(a.floor()))?; ensure!(r == Some(x / e18() * e18()), "floor", "floor of raw {x} = {r:?}"); }
        6 => {
            let r = run(&|| g(a.ceiling()))?;
            match r {
                None => ensure!(x + e18() - 1 >= top(), "ceiling-none", "ceiling of raw {x} refused"),
                Some(r) => ensure!(r == ceil_div(x, e18()) * e18(), "ceiling", "ceiling of raw {x} = {r}"),
            }
        }
        7 => {
            let r = guard(|| a.to_imprecise()).map_err(|m| Failure { sig: "panic".into(), msg: format!("to_imprecise of raw {x} aborted: {m}") })?;
            let h = (x + e18() / 2) / e18();
            let want = if h.bits() <= 128 { Some(h.low_u128()) } else { None };
            ensure!(r == want, "to-imprecise", "raw {x} to the nearest whole number = {r:?}");
            if want.is_some() { ctx.label("to_imprecise-fits"); }
        }
        8 => {
            let p = to_u(num(raw(src)).value);
            let d = if x > y { x - y } else { y - x };
            let got = (a.less_than(&b), a.greater_than(&b), a.less_than_or_equal(&b), a.greater_than_or_equal(&b), a == b, a.almost_eq(&b, to_256(p).unwrap()));
            ensure!(got == (x < y, x > y, x <= y, x >= y, x == y, d < p), "compare", "comparing raw {x} with {y} (precision {p}): {got:?}");
        }
        9 => {
            let v = ((src.word() as u128) << 64 | src.word() as u128) >> src.below(128);
            let v = if src.chance(1, 20) { u128::MAX } else { v };
            let n = guard(|| N::new(v)).map_err(|m| Failure { sig: "panic".into(), msg: format!("new({v}) aborted: {m}") })?;
            let n = match n { Some(n) => n, None => bad!("new", "{v} has no representation") };
            ensure!(to_u(n.value) == u(v) * e18() && n.to_imprecise() == Some(v), "new", "{v} becomes raw {} and {:?}", n.value, n.to_imprecise());
        }
        _ => {
            let r = guard(|| a.to_spl_precise_number()).map_err(|m| Failure { sig: "panic".into(), msg: format!("to_spl_precise_number of raw {x} aborted: {m}") })?;
            let whole = x / e18();
            match r {
                None => ensure!(whole.bits() > 128, "to-spl-none", "raw {x} has no 12-decimal form"),
                Some(r) => { let v = to_u(r.value) * u(1_000_000); let d = if v > x { v - x } else { x - v }; ensure!(d < u(1_000_000), "to-spl", "raw {x} becomes {} at 12 decimals", r.value); }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------ P21
fn root(src: &mut Src, ctx: &mut Ctx) -> R {
    let x = match src.weighted(&[6, 3, 2]) {
        0 => raw(src),
        // around a perfect square
        1 => { let r = src.log(60) as u128; let s = u(r) * u(r); let s = match src.below(3) { 0 => s * e18(), 1 => s, _ => s << (src.below(120) as usize) }; let d = u(src.below(5) as u128); let v = satsub(s + d, u(2)); if v >= top() { top() - 1 } else { v } }
        _ => { let k = 60 + src.below(12) as usize; (U::one() << k) - 1 - u(src.below(40) as u128) }
    };
    let a = num(x);
    let go = |up: bool| guard(|| a.sqrt_u64(up)).map_err(|m| Failure { sig: "panic".into(), msg: format!("square root of raw {x} (up: {up}) aborted: {m}") });
    let (d, up) = (go(false)?, go(true)?);
    ctx.note(|| format!("square root of raw {x}: {d:?} .. {up:?}"));
    ctx.nontrivial(&a.value.0);
    let (d, up) = match (d, up) { (Some(d), Some(u)) => (to_u(d.value), to_u(u.value)), (a, b) => bad!("none", "square root of raw {x} refused: {a:?} {b:?}") };
    let t = x * e18();
    ensure!(d * d <= t, "down", "square root of raw {x} rounded down is {d}, which is above it");
    ensure!(up * up >= t, "up", "square root of raw {x} rounded up is {up}, which is below it");
    ctx.label(if x.bits() <= 64 { "padded" } else { "cut" });
    if d == up { ctx.label("exact"); }
    // a perfect square of which no more than 64 bits matter
    let cut = if x.bits() > 64 { (x.bits() - 64 + 1) / 2 * 2 } else { 0 };
    let r = crate::big::isqrt(x);
    if r * r == x && (x >> cut) << cut == x {
        ctx.label("perfect");
        let e = r * u(1_000_000_000);
        ensure!(d == e && up == e, "exact", "square root of raw {x} is exactly {e}; rounded down it is {d}, rounded up {up}");
    }
    // nine significant digits: (1 - 2^-29) .. (1 + 2^-29)
    let dh = d + (d >> 29) + 2;
    ensure!(dh * dh >= t, "low", "square root of raw {x} rounded down is {d}, short by more than nine digits allow");
    let ul = satsub(up, (up >> 29) + 2);
    ensure!(ul * ul <= t, "high", "square root of raw {x} rounded up is {up}, over by more than nine digits allow");
    Ok(())
}

// ------------------------------------------------------------ P22
fn wild_curve(src: &mut Src) -> Curve {
    match src.below(5) {
        0 => Curve::Product,
        1 => Curve::Price(src.any64()),
        2 => Curve::Stable(match src.below(3) { 0 => src.below(5), _ => src.any64() }),
        3 => Curve::Offset(src.any64()),
        _ => if src.chance(1, 2) { Curve::Linear(crate::props::lin::gen_lin(src)) } else { Curve::Linear(Lin { sn: src.any64(), sd: src.any64(), pn: src.any64(), pd: src.any64() }) },
    }
}
fn wild_fees(src: &mut Src) -> FeeSet {
    let p = |src: &mut Src| (src.any64(), src.any64());
    if src.chance(1, 2) { gen_fees(src) } else { FeeSet { t: p(src), o: p(src), w: p(src), h: p(src) } }
}
fn calculators(src: &mut Src, ctx: &mut Ctx) -> R {
    let c = wild_curve(src);
    let f = wild_fees(src);
    let v = |src: &mut Src| -> u128 { match src.weighted(&[4, 4, 2]) { 0 => src.any64() as u128, 1 => src.log(64) as u128, _ => src.any64() as u128 + src.any64() as u128 } };
    let (x, a, b, s) = (v(src), v(src), v(src), src.any64() as u128);
    let what = src.below(8);
    let (cu, fe) = (c.real(), f.real());
    let dir = if src.below(2) == 0 { TradeDirection::AtoB } else { TradeDirection::BtoA };
    ctx.note(|| format!("call {what} on {c:?} {f:?}: {x}, reserves {a}/{b}, LP {s}, {dir:?}"));
    let r = guard(|| match what {
        0 => cu.swap(x, a, b, dir, &fe).is_some(),
        1 => cu.deposit_single_token_type(x, a, b, s, dir, &fe).is_some(),
        2 => cu.withdraw_single_token_type_exact_out(x, a, b, s, dir, &fe).is_some(),
        3 => cu.calculator.pool_tokens_to_trading_tokens(x, s, a, b, RoundDirection::Floor).is_some(),
        4 => cu.calculator.pool_tokens_to_trading_tokens(x, s, a, b, RoundDirection::Ceiling).is_some(),
        5 => cu.calculator.normalized_value(a, b).is_some(),
        6 => cu.calculator.validate().is_ok() && cu.calculator.validate_supply(a as u64, b as u64).is_ok() && fe.validate().is_ok(),
        _ => fe.trading_fee(x).is_some() && fe.owner_trading_fee(x).is_some() && fe.owner_withdraw_fee(x).is_some() && fe.host_fee(x).is_some(),
    });
    match r {
        Err(m) => bad!("panic", "call {what} on {c:?} {f:?} with {x}, reserves {a}/{b}, LP {s}, {dir:?} aborted: {m}"),
        Ok(true) => { ctx.label("defined"); ctx.nontrivial(&(c, what, x, a, b, s)); }
        Ok(false) => ctx.label("undefined"),
    }
    Ok(())
}
/// balances anywhere in 64 bits, requests anywhere in 64 bits, any parameters initialisation accepts
fn requests(src: &mut Src, ctx: &mut Ctx) -> R {
    let c = match src.weighted(&[2, 3]) { 0 => gen_curve(src, &[1, 1, 1, 1, 1]), _ => wild_curve(src) };
    let f = if c.is_linear() { NOFEE } else if src.chance(2, 3) { gen_fees(src) } else { let p = |src: &mut Src| { let d = src.any64().max(1); (src.below(d), d) }; FeeSet { t: p(src), o: p(src), w: p(src), h: p(src) } };
    let salt = gen_salt(src);
    let mut w = match World::new(salt, c, f, if c.is_linear() { 0 } else { 1 }, 1, 1 << 40) {
        Ok(w) => w,
        Err(Out::Panic(m)) => bad!("panic", "initialising {c:?} with {f:?} aborted: {m}"),
        Err(_) => { ctx.label("no-pool"); return Ok(()) }
    };
    let n = 1 + src.below(4);
    for _ in 0..n {
        if src.chance(2, 3) {
            let p = w.pool.clone();
            let am = |src: &mut Src| match src.below(3) { 0 => src.log(64), 1 => src.log(40), _ => src.any64() };
            let (a, b, s) = (am(src), am(src), am(src));
            w.bank.edit_tok(&p.a, |t| t.amount = a);
            w.bank.edit_tok(&p.b, |t| t.amount = b);
            w.bank.edit_mint(&p.lp, |m| m.supply = s);
            for u_ in w.users.clone() { for k in [u_.a, u_.b, u_.lp] { let x = am(src); w.bank.edit_tok(&k, |t| t.amount = x); } }
        }
        let op = if src.chance(1, 2) { gen_op(src, &w, &Mix { limits: true, donate: 0, burn: 0, ..MIX }) } else {
            let u_ = src.usize(NU);
            let (x, y, z) = (src.any64(), src.any64(), src.any64());
            let dir = gen_dir(src);
            match src.below(5) {
                0 => Op::Swap { u: u_, dir, amt: x, min: if src.below(2) == 0 { 0 } else { y }, host: if src.below(3) == 0 { Some(src.usize(NU)) } else { None } },
                1 => Op::DepAll { u: u_, lp: x, max_a: y, max_b: z },
                2 => Op::WdAll { u: u_, lp: x, min_a: if src.below(2) == 0 { 0 } else { y }, min_b: 0 },
                3 => Op::Dep1 { u: u_, dir, amt: x, min: if src.below(2) == 0 { 0 } else { y } },
                _ => Op::Wd1 { u: u_, dir, amt: x, max: if src.below(2) == 0 { u64::MAX } else { y } },
            }
        };
        let metas = w.metas(&op);
        let before = w.bank.clone();
        let out = if src.chance(1, 4) { crate::props::acct::direct(&mut w.bank, &op, &metas) } else { w.run(&op, &metas) };
        ctx.steps += 1;
        ctx.note(|| format!("{c:?} {f:?} {op:?} -> {out:?}"));
        if let Out::Panic(m) = &out { bad!("panic", "{op:?} on {c:?} {f:?} with reserves {}/{} and LP {} aborted: {m}", before.amt(&w.pool.a), before.amt(&w.pool.b), before.supply(&w.pool.lp)); }
        ctx.label(if out.ok() { "accepted" } else { "refused" });
        ctx.nontrivial(&(c, op, before.amt(&w.pool.a), before.amt(&w.pool.b)));
    }
    Ok(())
}
/// accounts of any content and any instruction data
fn garbage(src: &mut Src, ctx: &mut Ctx) -> R {
    let c = gen_curve(src, &[1, 1, 1, 1, 1]);
    let f = if c.is_linear() || src.chance(1, 3) { NOFEE } else { gen_fees(src) };
    let mut w = match World::new(src.below(64), c, f, if c.is_linear() { 0 } else { 1_000_000 }, 1_000_000, 1 << 40) { Ok(w) => w, Err(_) => { ctx.label("no-pool"); return Ok(()) } };
    let init = src.chance(1, 3);
    let op = gen_op(src, &w, &Mix { donate: 0, burn: 0, ..MIX });
    let mut metas = w.metas(&op);
    let mut data = w.data(&op);
    if init {
        let p = fresh(&mut w.bank, 77, c, NOFEE, 5, 5, w.users[1].key, w.users[1].key);
        metas = init_metas(&p);
        data = match c { Curve::Linear(l) => ix_data("initialize_linear_price", &[l.sn, l.sd, l.pn, l.pd]), _ => ix_data("initialize_constant_price", &[0, 1, 0, 1, 0, 1, 0, 1, 5]) };
    }
    // the content of some accounts
    let k = src.below(3);
    let mut what = vec![];
    for _ in 0..k {
        let m = if metas.len() == 11 && src.chance(1, 4) { metas[10] } else { *src.pick(&metas) };
        if m.key == spl_token::ID { continue; }
        let a = match w.bank.accs.get_mut(&m.key) { Some(a) => a, None => continue };
        match src.below(4) {
            0 => { let n = src.below(400) as usize; a.data = (0..n).map(|_| src.word() as u8).collect(); what.push("random bytes"); }
            1 => { if !a.data.is_empty() { let n = src.usize(a.data.len() + 1); a.data.truncate(n); what.push("truncated"); } }
            2 => { let n = src.below(8); for _ in 0..n { if !a.data.is_empty() { let i = src.usize(a.data.len()); a.data[i] = src.word() as u8; } } what.push("corrupted"); }
            _ => { a.data.push(src.word() as u8); what.push("lengthened"); }
        }
    }
    // the instruction data
    match src.weighted(&[3, 1, 1, 1]) {
        0 => {}
        1 => { let n = src.usize(data.len() + 1); data.truncate(n); what.push("data truncated"); }
        2 => { let n = src.below(120) as usize; data = (0..n).map(|_| src.word() as u8).collect(); what.push("random data"); }
        _ => { for b in data.iter_mut().skip(8) { if src.below(2) == 0 { *b = src.word() as u8; } } what.push("random arguments"); }
    }
    // the account list
    match src.weighted(&[4, 1, 1]) {
        0 => {}
        1 => { let n = src.usize(metas.len() + 1); metas.truncate(n); what.push("accounts missing"); }
        _ => { let (i, j) = (src.usize(metas.len()), src.usize(metas.len())); metas.swap(i, j); what.push("accounts exchanged"); }
    }
    // the host's account exists for the processor only
    let straight = !init && !what.iter().any(|x| ["data truncated", "random data", "random arguments"].contains(x)) && (matches!(op, Op::Swap { host: Some(_), .. }) || src.chance(1, 4));
    let out = if straight { crate::props::acct::direct(&mut w.bank, &op, &metas) } else { w.bank.exec(&PID, &metas, |id, ac| token_bonding_curve::entry(id, ac, &data)) };
    ctx.note(|| format!("{what:?}; {} accounts, {} bytes of data -> {out:?}", metas.len(), data.len()));
    ctx.label(if out.ok() { "accepted" } else { "refused" });
    if let Out::Panic(m) = &out { bad!("panic", "{what:?}: {op:?} (initialisation: {init}) on {c:?} aborted: {m}"); }
    if !what.is_empty() { ctx.nontrivial(&(what.concat(), op, data, metas.len())); }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P20", rule: "every case: one operation on one pair of 256-bit values; key = operation and values", assumptions: &["multiplication and division whose intermediate product leaves 256 bits keep whole-number precision only"], subs: vec![
            Sub { name: "ops", quick: 3_000_000, thorough: 150_000_000, f: ops, what: "every operation of the 18-decimal number against 1024-bit integers" },
        ] },
        Prop { id: "P21", rule: "every case: one radicand, both roundings; key = radicand", assumptions: &[], subs: vec![
            Sub { name: "root", quick: 1_500_000, thorough: 80_000_000, f: root, what: "square root rounded down and up, squared back in 1024-bit integers" },
        ] },
        Prop { id: "P22", rule: "calculator calls that return a value; requests with their pool; requests with damaged accounts or data; key = inputs", assumptions: &["built with overflow checks, so that a wrap-around counts as an abort"], subs: vec![
            Sub { name: "calculators", quick: 1_000_000, thorough: 50_000_000, f: calculators, what: "every curve calculation on any parameters, fees and amounts that token balances and their sums can take" },
            Sub { name: "requests", quick: 150_000, thorough: 8_000_000, f: requests, what: "any request on any pool initialisation accepts, with balances and amounts anywhere in 64 bits" },
            Sub { name: "garbage", quick: 150_000, thorough: 8_000_000, f: garbage, what: "damaged account contents, account lists and instruction data" },
        ] },
    ]
}
