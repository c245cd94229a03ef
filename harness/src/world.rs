//! Pools, users and operations, executed through the program's entry point on
//! the modelled chain.  Every operation yields a `Step` with a snapshot of every
//! token amount before and after.
#![allow(dead_code)]
use crate::chain::*;
use crate::model::*;
use crate::src::Src;
use solana_program::program_option::COption;
use solana_program::{hash::hash, pubkey::Pubkey};
use std::cell::RefCell;
use std::collections::HashMap;
use token_bonding_curve::constraints::SwapConstraints;
use token_bonding_curve::curve::{
    base::{CurveType, SwapCurve}, constant_price::ConstantPriceCurve, constant_product::ConstantProductCurve, fees::Fees,
    linear_price::LinearPriceCurve, offset::OffsetCurve, stable::StableCurve,
};
use token_bonding_curve::processor::Processor;

pub use token_bonding_curve::ID as PID;
pub const LP0: u64 = 1_000_000_000;

// error codes of the program
pub mod code {
    pub const ALREADY: u32 = 0; pub const ADDRESS: u32 = 1; pub const OWNER: u32 = 2; pub const OUT_OWNER: u32 = 3;
    pub const MINT: u32 = 4; pub const ACCOUNT: u32 = 5; pub const EMPTY: u32 = 6; pub const SUPPLY: u32 = 7;
    pub const DELEGATE: u32 = 8; pub const INPUT: u32 = 9; pub const SWAP_ACC: u32 = 10; pub const POOL_MINT: u32 = 11;
    pub const CALC: u32 = 13; pub const REPEATED: u32 = 15; pub const SLIPPAGE: u32 = 16; pub const CLOSE: u32 = 17;
    pub const FREEZE: u32 = 18; pub const FEE_ACC: u32 = 19; pub const ZERO: u32 = 20; pub const FEE_CALC: u32 = 21;
    pub const CONVERSION: u32 = 22; pub const FEE: u32 = 23; pub const TOKEN_PROGRAM: u32 = 24; pub const CURVE_TYPE: u32 = 25;
    pub const CURVE: u32 = 26; pub const UNSUPPORTED: u32 = 27;
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Curve { Product, Price(u64), Stable(u64), Offset(u64), Linear(Lin) }
impl Curve {
    pub fn real(&self) -> SwapCurve {
        match *self {
            Curve::Product => SwapCurve { curve_type: CurveType::ConstantProduct, calculator: Box::new(ConstantProductCurve {}) },
            Curve::Price(p) => SwapCurve { curve_type: CurveType::ConstantPrice, calculator: Box::new(ConstantPriceCurve { token_b_price: p }) },
            Curve::Stable(a) => SwapCurve { curve_type: CurveType::Stable, calculator: Box::new(StableCurve { amp: a }) },
            Curve::Offset(o) => SwapCurve { curve_type: CurveType::Offset, calculator: Box::new(OffsetCurve { token_b_offset: o }) },
            Curve::Linear(l) => SwapCurve { curve_type: CurveType::LinearPrice, calculator: Box::new(LinearPriceCurve {
                slope_numerator: l.sn, slope_denominator: l.sd, initial_token_a_price_numerator: l.pn, initial_token_a_price_denominator: l.pd }) },
        }
    }
    pub fn type_byte(&self) -> u8 { match self { Curve::Product => 0, Curve::Price(_) => 1, Curve::Stable(_) => 2, Curve::Offset(_) => 3, Curve::Linear(_) => 30 } }
    pub fn params(&self) -> Vec<u64> {
        match *self { Curve::Product => vec![], Curve::Price(p) => vec![p], Curve::Stable(a) => vec![a], Curve::Offset(o) => vec![o], Curve::Linear(l) => vec![l.sn, l.sd, l.pn, l.pd] }
    }
    pub fn closed(&self) -> bool { matches!(self, Curve::Offset(_) | Curve::Linear(_)) }
    pub fn is_linear(&self) -> bool { matches!(self, Curve::Linear(_)) }
}

/// (numerator, denominator) of the trade, owner trade, owner withdraw and host fees
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct FeeSet { pub t: (u64, u64), pub o: (u64, u64), pub w: (u64, u64), pub h: (u64, u64) }
pub const NOFEE: FeeSet = FeeSet { t: (0, 1), o: (0, 1), w: (0, 1), h: (0, 1) };
impl FeeSet {
    pub fn real(&self) -> Fees {
        Fees { trade_fee_numerator: self.t.0, trade_fee_denominator: self.t.1, owner_trade_fee_numerator: self.o.0, owner_trade_fee_denominator: self.o.1,
            owner_withdraw_fee_numerator: self.w.0, owner_withdraw_fee_denominator: self.w.1, host_fee_numerator: self.h.0, host_fee_denominator: self.h.1 }
    }
    pub fn list(&self) -> [u64; 8] { [self.t.0, self.t.1, self.o.0, self.o.1, self.w.0, self.w.1, self.h.0, self.h.1] }
    pub fn valid(&self) -> bool { [self.t, self.o, self.w, self.h].iter().all(|(n, d)| (*n == 0 && *d == 0) || n < d) }
}

fn rate(src: &mut Src) -> (u64, u64) {
    match src.weighted(&[3, 4, 2, 1, 1]) {
        0 => { let d = src.below(3); (0, d) }
        1 => { let d = *src.pick(&[10_000u64, 1_000, 100]); (1 + src.below(50.min(d - 1)), d) }
        2 => { let d = 2 + src.below(30); (src.below(d), d) }
        3 => { let d = 2 + src.log(63); (src.below(d), d) }
        _ => { let d = 2 + src.below(1000); (d - 1, d) }
    }
}
pub fn gen_fees(src: &mut Src) -> FeeSet {
    if src.chance(1, 6) { return NOFEE; }
    FeeSet { t: rate(src), o: rate(src), w: rate(src), h: rate(src) }
}
pub fn gen_curve(src: &mut Src, w: &[u64; 5]) -> Curve {
    match src.weighted(w) {
        0 => Curve::Product,
        1 => Curve::Price(match src.weighted(&[2, 3, 2, 1]) { 0 => 1, 1 => 1 + src.below(1000), 2 => src.log_to(1 << 40), _ => src.log_to(u64::MAX) }),
        2 => Curve::Stable(match src.weighted(&[12, 4, 1]) { 0 => 1 + src.below(1000), 1 => src.log_to(1 << 20), _ => src.log_to(1 << 62) }),
        3 => Curve::Offset(match src.weighted(&[7, 1]) { 0 => src.log_to(1 << 62), _ => src.log_to(u64::MAX) }),
        _ => Curve::Linear(crate::props::lin::gen_lin(src)),
    }
}

pub fn key(tag: &str, salt: u64) -> Pubkey {
    let mut d = tag.as_bytes().to_vec();
    d.extend_from_slice(&salt.to_le_bytes());
    let mut k = hash(&d).to_bytes();
    if (ALIKE..ALIKE + NALIKE).contains(&salt) {
        // addresses that agree with one another in their first or last bytes
        let base = hash(&salt.to_le_bytes()).to_bytes();
        let n = [1, 2, 4, 8, 16, 28][(salt % 6) as usize];
        let at = if salt / 6 % 2 == 0 { 0 } else { 32 - n };
        k[at..at + n].copy_from_slice(&base[at..at + n]);
    }
    Pubkey::new_from_array(k)
}
/// an address that differs from the given one in a single byte
pub fn near(src: &mut Src, k: &Pubkey) -> Pubkey {
    let mut b = k.to_bytes();
    let i = match src.below(4) { 0 => 31, 1 => 0, _ => src.usize(32) };
    b[i] ^= 1 << src.below(8);
    Pubkey::new_from_array(b)
}
pub const ALIKE: u64 = 3000;
pub const NALIKE: u64 = 96;
/// addresses of a pool and its users: mostly unrelated, sometimes alike
pub fn gen_salt(src: &mut Src) -> u64 { if src.chance(1, 8) { ALIKE + src.below(NALIKE) } else { src.below(256) } }
thread_local! { static PDA: RefCell<HashMap<Pubkey, (Pubkey, u8)>> = RefCell::new(HashMap::new()); }
pub fn authority(swap: &Pubkey) -> (Pubkey, u8) {
    PDA.with(|m| *m.borrow_mut().entry(*swap).or_insert_with(|| Pubkey::find_program_address(&[&swap.to_bytes()], &PID)))
}
thread_local! { static DISC: RefCell<HashMap<&'static str, [u8; 8]>> = RefCell::new(HashMap::new()); }
pub fn ix_data(name: &'static str, args: &[u64]) -> Vec<u8> {
    let d = DISC.with(|m| *m.borrow_mut().entry(name).or_insert_with(|| {
        let h = hash(format!("global:{name}").as_bytes()).to_bytes();
        let mut o = [0; 8];
        o.copy_from_slice(&h[..8]);
        o
    }));
    let mut v = d.to_vec();
    for a in args { v.extend_from_slice(&a.to_le_bytes()); }
    v
}

#[derive(Clone, Debug)]
pub struct Pool { pub swap: Pubkey, pub auth: Pubkey, pub bump: u8, pub a: Pubkey, pub b: Pubkey, pub lp: Pubkey, pub mint_a: Pubkey, pub mint_b: Pubkey, pub fee: Pubkey, pub dest: Pubkey, pub curve: Curve, pub fees: FeeSet }
#[derive(Clone, Debug)]
pub struct User { pub key: Pubkey, pub a: Pubkey, pub b: Pubkey, pub lp: Pubkey }

pub const NU: usize = 5;
pub const FEE_USER: usize = 3;
pub const HOST_USER: usize = 4;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default)]
pub struct Snap { pub a: u64, pub b: u64, pub supply: u64, pub ua: [u64; NU], pub ub: [u64; NU], pub ul: [u64; NU] }
impl Snap {
    pub fn fee(&self) -> u64 { self.ul[FEE_USER] }
    pub fn src(&self, d: Dir) -> u64 { if d == Dir::AtoB { self.a } else { self.b } }
    pub fn dst(&self, d: Dir) -> u64 { self.src(d.flip()) }
    pub fn us(&self, u: usize, d: Dir) -> u64 { if d == Dir::AtoB { self.ua[u] } else { self.ub[u] } }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Swap { u: usize, dir: Dir, amt: u64, min: u64, host: Option<usize> },
    DepAll { u: usize, lp: u64, max_a: u64, max_b: u64 },
    WdAll { u: usize, lp: u64, min_a: u64, min_b: u64 },
    /// deposit of one side: AtoB means token A
    Dep1 { u: usize, dir: Dir, amt: u64, min: u64 },
    Wd1 { u: usize, dir: Dir, amt: u64, max: u64 },
    /// plain token transfer into the reserve, outside the program
    Donate { u: usize, dir: Dir, amt: u64 },
    /// plain burn of LP tokens by a holder, outside the program
    Burn { u: usize, amt: u64 },
}
#[derive(Clone, Debug)]
pub struct Step { pub op: Op, pub pre: Snap, pub post: Snap, pub out: Out }
impl Step {
    /// change of user u's (a, b, lp)
    pub fn du(&self, u: usize) -> (i128, i128, i128) {
        (self.post.ua[u] as i128 - self.pre.ua[u] as i128, self.post.ub[u] as i128 - self.pre.ub[u] as i128, self.post.ul[u] as i128 - self.pre.ul[u] as i128)
    }
}

#[derive(Clone)]
pub struct World { pub bank: Bank, pub pool: Pool, pub users: Vec<User>,
    /// requests pass every account as writable, which a client may always do
    pub wide: bool }

pub fn init_metas(p: &Pool) -> Vec<Meta> {
    vec![ws(p.swap), r(p.auth), r(p.a), r(p.b), w(p.lp), r(p.fee), w(p.dest), r(spl_token::ID)]
}
/// run the initialisation of `p` as its creator would: through the entry point where the
/// program exposes an instruction for the curve, else through the processor
pub fn run_init(bank: &mut Bank, p: &Pool, metas: &[Meta]) -> Out {
    match p.curve {
        Curve::Price(x) => { let mut a = p.fees.list().to_vec(); a.push(x); let d = ix_data("initialize_constant_price", &a); bank.exec(&PID, metas, |id, ac| token_bonding_curve::entry(id, ac, &d)) }
        Curve::Linear(l) if p.fees == NOFEE => { let d = ix_data("initialize_linear_price", &[l.sn, l.sd, l.pn, l.pd]); bank.exec(&PID, metas, |id, ac| token_bonding_curve::entry(id, ac, &d)) }
        _ => run_init_direct(bank, p, metas, &None),
    }
}
pub fn run_init_direct(bank: &mut Bank, p: &Pool, metas: &[Meta], c: &Option<SwapConstraints>) -> Out {
    let (f, cu) = (p.fees.real(), p.curve.real());
    bank.exec(&PID, metas, |id, ac| Processor::process_initialize(id, f, cu, ac, c))
}
/// an uninitialised pool with everything in place
pub fn fresh(bank: &mut Bank, salt: u64, curve: Curve, fees: FeeSet, a: u64, b: u64, fee_owner: Pubkey, dest_owner: Pubkey) -> Pool {
    let swap = key("swap", salt);
    let (auth, bump) = authority(&swap);
    let k = |t: &str| key(t, salt);
    let p = Pool { swap, auth, bump, a: k("a"), b: k("b"), lp: k("lp"), mint_a: k("ma"), mint_b: k("mb"), fee: k("fee"), dest: k("dest"), curve, fees };
    bank.put(swap, PID, vec![0; 324]);
    bank.put_mint(p.mint_a, Some(key("mint authority", 0)), 0, None);
    bank.put_mint(p.mint_b, Some(key("mint authority", 0)), 0, None);
    bank.put_mint(p.lp, Some(auth), 0, None);
    bank.put_tok(p.a, p.mint_a, auth, a);
    bank.put_tok(p.b, p.mint_b, auth, b);
    bank.put_tok(p.fee, p.lp, fee_owner, 0);
    bank.put_tok(p.dest, p.lp, dest_owner, 0);
    p
}

impl World {
    pub fn new(salt: u64, curve: Curve, fees: FeeSet, a: u64, b: u64, funds: u64) -> Result<World, Out> {
        let mut bank = Bank::new();
        let owner = |i: usize| key(&format!("user{i}"), salt);
        let pool = fresh(&mut bank, salt, curve, fees, a, b, owner(FEE_USER), owner(0));
        let mut users = vec![];
        for i in 0..NU {
            let k = owner(i);
            let u = User { key: k, a: key(&format!("ua{i}"), salt), b: key(&format!("ub{i}"), salt),
                lp: match i { 0 => pool.dest, FEE_USER => pool.fee, _ => key(&format!("ul{i}"), salt) } };
            bank.put_tok(u.a, pool.mint_a, k, funds);
            bank.put_tok(u.b, pool.mint_b, k, funds);
            if i != 0 && i != FEE_USER { bank.put_tok(u.lp, pool.lp, k, 0); }
            users.push(u);
        }
        let sum_a = users.iter().map(|u| bank.amt(&u.a)).sum::<u64>() + a;
        let sum_b = users.iter().map(|u| bank.amt(&u.b)).sum::<u64>() + b;
        bank.edit_mint(&pool.mint_a, |m| m.supply = sum_a);
        bank.edit_mint(&pool.mint_b, |m| m.supply = sum_b);
        let metas = init_metas(&pool);
        let o = run_init(&mut bank, &pool, &metas);
        if !o.ok() { return Err(o); }
        Ok(World { bank, pool, users, wide: false })
    }
    /// user i's accounts now belong to user j
    pub fn kin(&mut self, i: usize, j: usize) {
        let k = self.users[j].key;
        self.users[i].key = k;
        let u = self.users[i].clone();
        for x in [u.a, u.b, u.lp] { self.bank.edit_tok(&x, |t| t.owner = k); }
    }
    /// some user other than the person behind u
    pub fn stranger(&self, src: &mut Src, u: usize) -> Pubkey {
        let v: Vec<Pubkey> = self.users.iter().map(|x| x.key).filter(|k| *k != self.users[u].key).collect();
        *src.pick(&v)
    }
    /// put the pool in a later state of its life: reserves and LP supply as after earlier
    /// trading, deposits, donations and burns
    pub fn set_state(&mut self, a: u64, b: u64, supply: u64) {
        let p = self.pool.clone();
        let s = self.snap();
        self.bank.edit_tok(&p.a, |t| t.amount = a);
        self.bank.edit_tok(&p.b, |t| t.amount = b);
        self.bank.edit_mint(&p.mint_a, |m| m.supply = m.supply - s.a + a);
        self.bank.edit_mint(&p.mint_b, |m| m.supply = m.supply - s.b + b);
        // creator keeps what it has if that fits, user 1 holds the rest
        let keep = s.ul[0].min(supply);
        for (i, u) in self.users.clone().iter().enumerate() {
            let x = match i { 0 => keep, 1 => supply - keep, _ => 0 };
            self.bank.edit_tok(&u.lp, |t| t.amount = x);
        }
        self.bank.edit_mint(&p.lp, |m| m.supply = supply);
    }
    pub fn snap(&self) -> Snap {
        let mut s = Snap { a: self.bank.amt(&self.pool.a), b: self.bank.amt(&self.pool.b), supply: self.bank.supply(&self.pool.lp), ..Default::default() };
        for i in 0..NU {
            s.ua[i] = self.bank.amt(&self.users[i].a);
            s.ub[i] = self.bank.amt(&self.users[i].b);
            s.ul[i] = self.bank.amt(&self.users[i].lp);
        }
        s
    }
    pub fn side(&self, u: usize, d: Dir) -> Pubkey { if d == Dir::AtoB { self.users[u].a } else { self.users[u].b } }
    pub fn reserve(&self, d: Dir) -> Pubkey { if d == Dir::AtoB { self.pool.a } else { self.pool.b } }
    pub fn metas(&self, op: &Op) -> Vec<Meta> {
        let p = &self.pool;
        let t = r(spl_token::ID);
        let mut m = match *op {
            Op::Swap { u, dir, host, .. } => {
                let mut m = vec![r(p.swap), r(p.auth), s(self.users[u].key), w(self.side(u, dir)), w(self.reserve(dir)), w(self.reserve(dir.flip())), w(self.side(u, dir.flip())), w(p.lp), w(p.fee), t];
                if let Some(h) = host { m.push(w(self.users[h].lp)); }
                m
            }
            Op::DepAll { u, .. } => vec![r(p.swap), r(p.auth), s(self.users[u].key), w(self.users[u].a), w(self.users[u].b), w(p.a), w(p.b), w(p.lp), w(self.users[u].lp), t],
            Op::WdAll { u, .. } => vec![r(p.swap), r(p.auth), s(self.users[u].key), w(p.lp), w(self.users[u].lp), w(p.a), w(p.b), w(self.users[u].a), w(self.users[u].b), w(p.fee), t],
            Op::Dep1 { u, dir, .. } => vec![r(p.swap), r(p.auth), s(self.users[u].key), w(self.side(u, dir)), w(p.a), w(p.b), w(p.lp), w(self.users[u].lp), t],
            Op::Wd1 { u, dir, .. } => vec![r(p.swap), r(p.auth), s(self.users[u].key), w(p.lp), w(self.users[u].lp), w(p.a), w(p.b), w(self.side(u, dir)), w(p.fee), t],
            _ => vec![],
        };
        if self.wide { for x in m.iter_mut() { x.writable = true; } }
        m
    }
    pub fn data(&self, op: &Op) -> Vec<u8> {
        match *op {
            Op::Swap { amt, min, .. } => ix_data("swap", &[amt, min]),
            Op::DepAll { lp, max_a, max_b, .. } => ix_data("deposit_all_token_types", &[lp, max_a, max_b]),
            Op::WdAll { lp, min_a, min_b, .. } => ix_data("withdraw_all_token_types", &[lp, min_a, min_b]),
            Op::Dep1 { amt, min, .. } => ix_data("deposit_single_token_type_exact_amount_in", &[amt, min]),
            Op::Wd1 { amt, max, .. } => ix_data("withdraw_single_token_type_exact_amount_out", &[amt, max]),
            _ => vec![],
        }
    }
    /// run an operation with explicit accounts
    pub fn run(&mut self, op: &Op, metas: &[Meta]) -> Out {
        match *op {
            Op::Swap { amt, min, host: Some(_), .. } => self.bank.exec(&PID, metas, |id, ac| Processor::process_swap(id, amt, min, ac)),
            _ => { let d = self.data(op); self.bank.exec(&PID, metas, |id, ac| token_bonding_curve::entry(id, ac, &d)) }
        }
    }
    pub fn apply(&mut self, op: &Op) -> Step {
        let pre = self.snap();
        let out = match *op {
            Op::Donate { u, dir, amt } => { let (f, t) = (self.side(u, dir), self.reserve(dir)); self.bank.outside_transfer(&f, &t, amt.min(pre.us(u, dir))); Out::Ok }
            Op::Burn { u, amt } => { let (f, m) = (self.users[u].lp, self.pool.lp); self.bank.outside_burn(&f, &m, amt.min(pre.ul[u])); Out::Ok }
            _ => { let m = self.metas(op); self.run(op, &m) }
        };
        Step { op: *op, pre, post: self.snap(), out }
    }
    /// what an operation would do, without doing it
    pub fn try_op(&self, op: &Op) -> Step { let mut w = self.clone(); w.apply(op) }
}

/// an amount scaled to `base`
pub fn amount(src: &mut Src, base: u64) -> u64 {
    match src.weighted(&[5, 3, 2, 2, 1, 1]) {
        0 => src.log_to(base.max(1)),
        1 => base / (1 + src.below(50)),
        2 => 1 + src.below(40),
        3 => (base / (1 + src.below(8))).saturating_add(src.below(5)).saturating_sub(2),
        4 => src.any64(),
        _ => base,
    }
}
#[derive(Clone, Copy)]
pub struct Mix { pub swap: u64, pub depall: u64, pub wdall: u64, pub dep1: u64, pub wd1: u64, pub donate: u64, pub burn: u64, pub limits: bool, pub host: bool }
pub const MIX: Mix = Mix { swap: 8, depall: 3, wdall: 3, dep1: 3, wd1: 3, donate: 1, burn: 1, limits: false, host: true };
pub fn gen_dir(src: &mut Src) -> Dir { if src.below(2) == 0 { Dir::AtoB } else { Dir::BtoA } }

pub fn gen_op(src: &mut Src, w: &World, m: &Mix) -> Op {
    let s = w.snap();
    let k = src.weighted(&[m.swap, m.depall, m.wdall, m.dep1, m.wd1, m.donate, m.burn]);
    let u = src.usize(NU);
    let dir = gen_dir(src);
    let lim = |src: &mut Src, base: u64, lo: bool| -> u64 {
        if !m.limits || src.chance(1, 2) { if lo { 0 } else { u64::MAX } } else { amount(src, base) }
    };
    match k {
        0 => {
            let host = if m.host && src.chance(1, 3) { Some(src.usize(NU)) } else { None };
            let base = match src.below(12) { 0..=3 => s.us(u, dir), 4 => s.dst(dir), 5 => s.supply, _ => s.src(dir) };
            let mut amt = amount(src, base);
            if let Curve::Linear(l) = w.pool.curve {
                if src.chance(2, 3) {
                    // sizes that matter on the line: a fraction of the position or of the cost of the reserve
                    let pos = l.b_lo(crate::big::u(s.a as u128)) >> S;
                    let cap = if dir == Dir::BtoA { if pos.bits() > 63 { u64::MAX >> 1 } else { pos.low_u64() } } else {
                        let c = l.a_at(l.b_lo(crate::big::u(s.a as u128)) + sc(s.b as u128)) >> S;
                        if c.bits() > 63 { u64::MAX >> 1 } else { c.low_u64().saturating_sub(s.a) }
                    };
                    amt = amount(src, cap.max(1));
                }
            }
            let min = lim(src, amt, true);
            Op::Swap { u, dir, amt, min, host }
        }
        1 => { let lp = amount(src, s.supply); let (max_a, max_b) = (lim(src, s.a, false), lim(src, s.b, false)); Op::DepAll { u, lp, max_a, max_b } }
        2 => { let base = if src.chance(1, 4) { s.supply } else { s.ul[u] }; let lp = amount(src, base); let (min_a, min_b) = (lim(src, s.a, true), lim(src, s.b, true)); Op::WdAll { u, lp, min_a, min_b } }
        3 => { let base = match src.below(12) { 0 => s.us(u, dir), 1 => s.dst(dir), 2 => s.supply, _ => s.src(dir) }; let amt = amount(src, base); let min = lim(src, s.supply, true); Op::Dep1 { u, dir, amt, min } }
        4 => { let base = match src.below(12) { 0 => s.us(u, dir), 1 => s.dst(dir), 2 => s.supply, _ => s.src(dir) }; let amt = amount(src, base); let max = lim(src, s.supply, false); Op::Wd1 { u, dir, amt, max } }
        5 => { let amt = amount(src, s.us(u, dir).min(s.src(dir).max(1))); Op::Donate { u, dir, amt } }
        _ => { let amt = amount(src, s.ul[u]); Op::Burn { u, amt } }
    }
}

#[derive(Clone, Copy)]
pub struct Setup { pub curves: [u64; 5], pub fees: bool, pub max_bits: u32 }
/// an initialised pool in some state of its life
pub fn gen_world(src: &mut Src, st: &Setup) -> Option<World> {
    let curve = gen_curve(src, &st.curves);
    let fees = if st.fees { gen_fees(src) } else { NOFEE };
    let fees = if curve.is_linear() { NOFEE } else { fees };
    let salt = gen_salt(src);
    let bits = st.max_bits;
    let size = |src: &mut Src| -> u64 { match src.weighted(&[5, 2, 1]) { 0 => src.log(bits).max(1), 1 => { let k = bits.min(40); src.log(k).max(1) + 1000 } _ => 1 + src.below(50) } };
    let funds = u64::MAX >> 4;
    let (a, b) = if curve.is_linear() { (0, size(src)) } else {
        let a = size(src);
        let b = match src.weighted(&[3, 2]) { 0 => size(src), _ => (a / (1 + src.below(4))).max(1) };
        (a, b)
    };
    // keep the pool worth something to the price: B in proportion
    let b = match curve { Curve::Price(p) if src.chance(2, 3) => (a / p.max(1)).max(1), _ => b };
    let mut w = World::new(salt, curve, fees, a, b, funds).ok()?;
    if src.chance(2, 3) {
        let (a2, b2) = if curve.is_linear() {
            (crate::props::lin::gen_locked(src, match &curve { Curve::Linear(l) => l, _ => unreachable!() }) >> 1, size(src))
        } else if src.chance(1, 2) { (a, b) } else { (size(src), size(src)) };
        let supply = match src.weighted(&[4, 2, 1, 1]) { 0 => LP0, 1 => src.log(bits), 2 => 1 + src.below(100), _ => LP0 + src.log(40) };
        // now and then a side that was bought out, or no LP tokens left
        let (a2, b2) = if !curve.is_linear() && src.chance(1, 24) { if src.chance(1, 2) { (0, b2) } else { (a2, 0) } } else { (a2, b2) };
        w.set_state(a2, b2, if src.chance(1, 24) { 0 } else { supply.max(1) });
    }
    // LP tokens in other hands too, the fee account's among them
    if src.chance(1, 2) {
        let s = w.snap();
        let f = w.users[if s.ul[0] >= s.ul[1] { 0 } else { 1 }].lp;
        for i in 0..NU { let x = src.below(s.supply / NU as u64 + 1); let t = w.users[i].lp; w.bank.outside_transfer(&f, &t, x); }
    }
    // balances that happen to be equal
    if src.chance(1, 10) {
        let s = w.snap();
        let i = src.usize(NU);
        let pick = |src: &mut Src, old: u64| match src.below(5) { 0 => old, 1 => s.a, 2 => s.b, 3 => s.supply, _ => src.log(40) }.min(funds);
        let (na, nb) = (pick(src, s.ua[i]), pick(src, s.ub[i]));
        let (us, p) = (w.users[i].clone(), w.pool.clone());
        w.bank.edit_tok(&us.a, |t| t.amount = na);
        w.bank.edit_tok(&us.b, |t| t.amount = nb);
        w.bank.edit_mint(&p.mint_a, |m| m.supply = m.supply - s.ua[i] + na);
        w.bank.edit_mint(&p.mint_b, |m| m.supply = m.supply - s.ub[i] + nb);
    }
    // one person with two sets of accounts: the host, the fee owner and a trader may be the same
    if src.chance(1, 8) {
        let i = src.usize(NU);
        let j = (i + 1 + src.usize(NU - 1)) % NU;
        w.kin(i, j);
    }
    if src.chance(1, 8) { clutter(src, &mut w, false); }
    w.wide = src.chance(1, 4);
    Some(w)
}

/// things about the accounts that a request has no business with
pub fn clutter(src: &mut Src, w: &mut World, all: bool) -> Vec<&'static str> {
    let p = w.pool.clone();
    let who = key("passer-by", 0);
    let mut did = vec![];
    let users: Vec<Pubkey> = w.users.iter().flat_map(|u| [u.a, u.b, u.lp]).collect();
    for _ in 0..1 + src.below(4) {
        let k = *src.pick(&users);
        match src.below(9) {
            3 | 7 if !all => { let k = w.users[HOST_USER].lp; let n = src.any64(); w.bank.edit_tok(&k, |t| { t.delegate = COption::Some(who); t.delegated_amount = n; }); did.push("a host account with a delegate"); }
            0 => { let n = src.any64(); w.bank.edit_tok(&k, |t| { t.delegate = COption::Some(who); t.delegated_amount = n; }); did.push("a user's account with a delegate"); }
            1 => { w.bank.edit_tok(&k, |t| t.close_authority = COption::Some(who)); did.push("a user's account with a close authority"); }
            2 => { let m = *src.pick(&[p.mint_a, p.mint_b]); let d = src.word() as u8; w.bank.edit_mint(&m, |x| x.decimals = d); did.push("decimals of a traded token"); }
            3 => { let m = *src.pick(&[p.mint_a, p.mint_b]); let n = src.any64(); w.bank.edit_mint(&m, |x| { x.freeze_authority = COption::Some(who); x.supply = n; x.mint_authority = COption::None; }); did.push("authorities and supply of a traded token"); }
            4 => { let d = src.word() as u8; w.bank.edit_mint(&p.lp, |x| x.decimals = d); did.push("decimals of the LP token"); }
            5 => { let all = [p.swap, p.a, p.b, p.lp, p.fee, k]; let a = *src.pick(&all); let n = src.any64(); w.bank.accs.get_mut(&a).unwrap().lamports = n >> 1; did.push("lamports of an account"); }
            6 => {
                // bytes of the state that its curve has no use for
                let n = 292 + 8 * p.curve.params().len();
                let a = w.bank.accs.get_mut(&p.swap).unwrap();
                let f = src.word() as u8;
                for b in a.data.iter_mut().skip(n) { *b = f; }
                did.push("unused bytes of the state");
            }
            7 => { let k = w.users[HOST_USER].lp; let n = src.any64(); w.bank.edit_tok(&k, |t| { t.delegate = COption::Some(who); t.delegated_amount = n; t.owner = who; }); did.push("owner and delegate of the host's account"); }
            _ => { let n = src.any64(); w.bank.edit_tok(&p.fee, |t| { t.delegate = COption::Some(who); t.delegated_amount = n; t.close_authority = COption::Some(who); }); did.push("delegate and close authority of the fee account"); }
        }
    }
    did
}
