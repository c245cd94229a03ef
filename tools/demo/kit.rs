//! Pools, users and operations, executed through the program's entry point on
//! the modelled chain.  Every operation yields a `Step` with a snapshot of every
//! token amount before and after.
#![allow(dead_code)]
use crate::chain::*;
use solana_program::{hash::hash, pubkey::Pubkey};
use std::cell::RefCell;
use std::collections::HashMap;
use token_bonding_curve::constraints::SwapConstraints;
use token_bonding_curve::curve::{
    base::{CurveType, SwapCurve}, constant_price::ConstantPriceCurve, constant_product::ConstantProductCurve, fees::Fees,
    linear_price::LinearPriceCurve, offset::OffsetCurve, stable::StableCurve,
};
use token_bonding_curve::processor::Processor;

pub use token_bonding_curve::ID as PID;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Dir { AtoB, BtoA }
impl Dir { pub fn flip(self) -> Dir { if self == Dir::AtoB { Dir::BtoA } else { Dir::AtoB } } }
/// price line: slope sn/sd, starting price pn/pd
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Lin { pub sn: u64, pub sd: u64, pub pn: u64, pub pd: u64 }

pub const LP0: u64 = 1_000_000_000;

// error codes of the program
pub mod code {
    pub const ALREADY: u32 = 0; pub const ADDRESS: u32 = 1; pub const OWNER: u32 = 2; pub const OUT_OWNER: u32 = 3;
    pub const MINT: u32 = 4; pub const ACCOUNT: u32 = 5; pub const EMPTY: u32 = 6; pub const SUPPLY: u32 = 7;
    pub const DELEGATE: u32 = 8; pub const INPUT: u32 = 9; pub const SWAP_ACC: u32 = 10; pub const POOL_MINT: u32 = 11;
    pub const CALC: u32 = 13; pub const REPEATED: u32 = 15; pub const SLIPPAGE: u32 = 16; pub const CLOSE: u32 = 17;
    pub const FREEZE: u32 = 18; pub const FEE_ACC: u32 = 19; pub const ZERO: u32 = 20; pub const FEE_CALC: u32 = 21;
    pub const CONVERSION: u32 = 22; pub const FEE: u32 = 23; pub const TOKEN_PROGRAM: u32 = 24; pub const CURVE_TYPE: u32 = 25;
    pub const CURVE: u32 = 26; pub const UNSUPPORTED: u32 = 27;
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Curve { Product, Price(u64), Stable(u64), Offset(u64), Linear(Lin) }
impl Curve {
    pub fn real(&self) -> SwapCurve {
        match *self {
            Curve::Product => SwapCurve { curve_type: CurveType::ConstantProduct, calculator: Box::new(ConstantProductCurve {}) },
            Curve::Price(p) => SwapCurve { curve_type: CurveType::ConstantPrice, calculator: Box::new(ConstantPriceCurve { token_b_price: p }) },
            Curve::Stable(a) => SwapCurve { curve_type: CurveType::Stable, calculator: Box::new(StableCurve { amp: a }) },
            Curve::Offset(o) => SwapCurve { curve_type: CurveType::Offset, calculator: Box::new(OffsetCurve { token_b_offset: o }) },
            Curve::Linear(l) => SwapCurve { curve_type: CurveType::LinearPrice, calculator: Box::new(LinearPriceCurve {
                slope_numerator: l.sn, slope_denominator: l.sd, initial_token_a_price_numerator: l.pn, initial_token_a_price_denominator: l.pd }) },
        }
    }
    pub fn type_byte(&self) -> u8 { match self { Curve::Product => 0, Curve::Price(_) => 1, Curve::Stable(_) => 2, Curve::Offset(_) => 3, Curve::Linear(_) => 30 } }
    pub fn params(&self) -> Vec<u64> {
        match *self { Curve::Product => vec![], Curve::Price(p) => vec![p], Curve::Stable(a) => vec![a], Curve::Offset(o) => vec![o], Curve::Linear(l) => vec![l.sn, l.sd, l.pn, l.pd] }
    }
    pub fn closed(&self) -> bool { matches!(self, Curve::Offset(_) | Curve::Linear(_)) }
    pub fn is_linear(&self) -> bool { matches!(self, Curve::Linear(_)) }
}

/// (numerator, denominator) of the trade, owner trade, owner withdraw and host fees
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct FeeSet { pub t: (u64, u64), pub o: (u64, u64), pub w: (u64, u64), pub h: (u64, u64) }
pub const NOFEE: FeeSet = FeeSet { t: (0, 1), o: (0, 1), w: (0, 1), h: (0, 1) };
impl FeeSet {
    pub fn real(&self) -> Fees {
        Fees { trade_fee_numerator: self.t.0, trade_fee_denominator: self.t.1, owner_trade_fee_numerator: self.o.0, owner_trade_fee_denominator: self.o.1,
            owner_withdraw_fee_numerator: self.w.0, owner_withdraw_fee_denominator: self.w.1, host_fee_numerator: self.h.0, host_fee_denominator: self.h.1 }
    }
    pub fn list(&self) -> [u64; 8] { [self.t.0, self.t.1, self.o.0, self.o.1, self.w.0, self.w.1, self.h.0, self.h.1] }
    pub fn valid(&self) -> bool { [self.t, self.o, self.w, self.h].iter().all(|(n, d)| (*n == 0 && *d == 0) || n < d) }
}

pub fn key(tag: &str, salt: u64) -> Pubkey {
    let mut d = tag.as_bytes().to_vec();
    d.extend_from_slice(&salt.to_le_bytes());
    Pubkey::new_from_array(hash(&d).to_bytes())
}
thread_local! { static PDA: RefCell<HashMap<Pubkey, (Pubkey, u8)>> = RefCell::new(HashMap::new()); }
pub fn authority(swap: &Pubkey) -> (Pubkey, u8) {
    PDA.with(|m| *m.borrow_mut().entry(*swap).or_insert_with(|| Pubkey::find_program_address(&[&swap.to_bytes()], &PID)))
}
thread_local! { static DISC: RefCell<HashMap<&'static str, [u8; 8]>> = RefCell::new(HashMap::new()); }
pub fn ix_data(name: &'static str, args: &[u64]) -> Vec<u8> {
    let d = DISC.with(|m| *m.borrow_mut().entry(name).or_insert_with(|| {
        let h = hash(format!("global:{name}").as_bytes()).to_bytes();
        let mut o = [0; 8];
        o.copy_from_slice(&h[..8]);
        o
    }));
    let mut v = d.to_vec();
    for a in args { v.extend_from_slice(&a.to_le_bytes()); }
    v
}

#[derive(Clone, Debug)]
pub struct Pool { pub swap: Pubkey, pub auth: Pubkey, pub bump: u8, pub a: Pubkey, pub b: Pubkey, pub lp: Pubkey, pub mint_a: Pubkey, pub mint_b: Pubkey, pub fee: Pubkey, pub dest: Pubkey, pub curve: Curve, pub fees: FeeSet }
#[derive(Clone, Debug)]
pub struct User { pub key: Pubkey, pub a: Pubkey, pub b: Pubkey, pub lp: Pubkey }

pub const NU: usize = 5;
pub const FEE_USER: usize = 3;
pub const HOST_USER: usize = 4;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default)]
pub struct Snap { pub a: u64, pub b: u64, pub supply: u64, pub ua: [u64; NU], pub ub: [u64; NU], pub ul: [u64; NU] }
impl Snap {
    pub fn fee(&self) -> u64 { self.ul[FEE_USER] }
    pub fn src(&self, d: Dir) -> u64 { if d == Dir::AtoB { self.a } else { self.b } }
    pub fn dst(&self, d: Dir) -> u64 { self.src(d.flip()) }
    pub fn us(&self, u: usize, d: Dir) -> u64 { if d == Dir::AtoB { self.ua[u] } else { self.ub[u] } }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Swap { u: usize, dir: Dir, amt: u64, min: u64, host: Option<usize> },
    DepAll { u: usize, lp: u64, max_a: u64, max_b: u64 },
    WdAll { u: usize, lp: u64, min_a: u64, min_b: u64 },
    /// deposit of one side: AtoB means token A
    Dep1 { u: usize, dir: Dir, amt: u64, min: u64 },
    Wd1 { u: usize, dir: Dir, amt: u64, max: u64 },
    /// plain token transfer into the reserve, outside the program
    Donate { u: usize, dir: Dir, amt: u64 },
    /// plain burn of LP tokens by a holder, outside the program
    Burn { u: usize, amt: u64 },
}
#[derive(Clone, Debug)]
pub struct Step { pub op: Op, pub pre: Snap, pub post: Snap, pub out: Out }
impl Step {
    /// change of user u's (a, b, lp)
    pub fn du(&self, u: usize) -> (i128, i128, i128) {
        (self.post.ua[u] as i128 - self.pre.ua[u] as i128, self.post.ub[u] as i128 - self.pre.ub[u] as i128, self.post.ul[u] as i128 - self.pre.ul[u] as i128)
    }
}

#[derive(Clone)]
pub struct World { pub bank: Bank, pub pool: Pool, pub users: Vec<User> }

pub fn init_metas(p: &Pool) -> Vec<Meta> {
    vec![ws(p.swap), r(p.auth), r(p.a), r(p.b), w(p.lp), r(p.fee), w(p.dest), r(spl_token::ID)]
}
/// run the initialisation of `p` as its creator would: through the entry point where the
/// program exposes an instruction for the curve, else through the processor
pub fn run_init(bank: &mut Bank, p: &Pool, metas: &[Meta]) -> Out {
    match p.curve {
        Curve::Price(x) => { let mut a = p.fees.list().to_vec(); a.push(x); let d = ix_data("initialize_constant_price", &a); bank.exec(&PID, metas, |id, ac| token_bonding_curve::entry(id, ac, &d)) }
        Curve::Linear(l) if p.fees == NOFEE => { let d = ix_data("initialize_linear_price", &[l.sn, l.sd, l.pn, l.pd]); bank.exec(&PID, metas, |id, ac| token_bonding_curve::entry(id, ac, &d)) }
        _ => run_init_direct(bank, p, metas, &None),
    }
}
pub fn run_init_direct(bank: &mut Bank, p: &Pool, metas: &[Meta], c: &Option<SwapConstraints>) -> Out {
    let (f, cu) = (p.fees.real(), p.curve.real());
    bank.exec(&PID, metas, |id, ac| Processor::process_initialize(id, f, cu, ac, c))
}
/// an uninitialised pool with everything in place
pub fn fresh(bank: &mut Bank, salt: u64, curve: Curve, fees: FeeSet, a: u64, b: u64, fee_owner: Pubkey, dest_owner: Pubkey) -> Pool {
    let swap = key("swap", salt);
    let (auth, bump) = authority(&swap);
    let k = |t: &str| key(t, salt);
    let p = Pool { swap, auth, bump, a: k("a"), b: k("b"), lp: k("lp"), mint_a: k("ma"), mint_b: k("mb"), fee: k("fee"), dest: k("dest"), curve, fees };
    bank.put(swap, PID, vec![0; 324]);
    bank.put_mint(p.mint_a, Some(key("mint authority", 0)), 0, None);
    bank.put_mint(p.mint_b, Some(key("mint authority", 0)), 0, None);
    bank.put_mint(p.lp, Some(auth), 0, None);
    bank.put_tok(p.a, p.mint_a, auth, a);
    bank.put_tok(p.b, p.mint_b, auth, b);
    bank.put_tok(p.fee, p.lp, fee_owner, 0);
    bank.put_tok(p.dest, p.lp, dest_owner, 0);
    p
}

impl World {
    pub fn new(salt: u64, curve: Curve, fees: FeeSet, a: u64, b: u64, funds: u64) -> Result<World, Out> {
        let mut bank = Bank::new();
        let owner = |i: usize| key(&format!("user{i}"), salt);
        let pool = fresh(&mut bank, salt, curve, fees, a, b, owner(FEE_USER), owner(0));
        let mut users = vec![];
        for i in 0..NU {
            let k = owner(i);
            let u = User { key: k, a: key(&format!("ua{i}"), salt), b: key(&format!("ub{i}"), salt),
                lp: match i { 0 => pool.dest, FEE_USER => pool.fee, _ => key(&format!("ul{i}"), salt) } };
            bank.put_tok(u.a, pool.mint_a, k, funds);
            bank.put_tok(u.b, pool.mint_b, k, funds);
            if i != 0 && i != FEE_USER { bank.put_tok(u.lp, pool.lp, k, 0); }
            users.push(u);
        }
        let sum_a = users.iter().map(|u| bank.amt(&u.a)).sum::<u64>() + a;
        let sum_b = users.iter().map(|u| bank.amt(&u.b)).sum::<u64>() + b;
        bank.edit_mint(&pool.mint_a, |m| m.supply = sum_a);
        bank.edit_mint(&pool.mint_b, |m| m.supply = sum_b);
        let metas = init_metas(&pool);
        let o = run_init(&mut bank, &pool, &metas);
        if !o.ok() { return Err(o); }
        Ok(World { bank, pool, users })
    }
    /// put the pool in a later state of its life: reserves and LP supply as after earlier
    /// trading, deposits, donations and burns
    pub fn set_state(&mut self, a: u64, b: u64, supply: u64) {
        let p = self.pool.clone();
        let s = self.snap();
        self.bank.edit_tok(&p.a, |t| t.amount = a);
        self.bank.edit_tok(&p.b, |t| t.amount = b);
        self.bank.edit_mint(&p.mint_a, |m| m.supply = m.supply - s.a + a);
        self.bank.edit_mint(&p.mint_b, |m| m.supply = m.supply - s.b + b);
        // creator keeps what it has if that fits, user 1 holds the rest
        let keep = s.ul[0].min(supply);
        for (i, u) in self.users.clone().iter().enumerate() {
            let x = match i { 0 => keep, 1 => supply - keep, _ => 0 };
            self.bank.edit_tok(&u.lp, |t| t.amount = x);
        }
        self.bank.edit_mint(&p.lp, |m| m.supply = supply);
    }
    pub fn snap(&self) -> Snap {
        let mut s = Snap { a: self.bank.amt(&self.pool.a), b: self.bank.amt(&self.pool.b), supply: self.bank.supply(&self.pool.lp), ..Default::default() };
        for i in 0..NU {
            s.ua[i] = self.bank.amt(&self.users[i].a);
            s.ub[i] = self.bank.amt(&self.users[i].b);
            s.ul[i] = self.bank.amt(&self.users[i].lp);
        }
        s
    }
    pub fn side(&self, u: usize, d: Dir) -> Pubkey { if d == Dir::AtoB { self.users[u].a } else { self.users[u].b } }
    pub fn reserve(&self, d: Dir) -> Pubkey { if d == Dir::AtoB { self.pool.a } else { self.pool.b } }
    pub fn metas(&self, op: &Op) -> Vec<Meta> {
        let p = &self.pool;
        let t = r(spl_token::ID);
        match *op {
            Op::Swap { u, dir, host, .. } => {
                let mut m = vec![r(p.swap), r(p.auth), s(self.users[u].key), w(self.side(u, dir)), w(self.reserve(dir)), w(self.reserve(dir.flip())), w(self.side(u, dir.flip())), w(p.lp), w(p.fee), t];
                if let Some(h) = host { m.push(w(self.users[h].lp)); }
                m
            }
            Op::DepAll { u, .. } => vec![r(p.swap), r(p.auth), s(self.users[u].key), w(self.users[u].a), w(self.users[u].b), w(p.a), w(p.b), w(p.lp), w(self.users[u].lp), t],
            Op::WdAll { u, .. } => vec![r(p.swap), r(p.auth), s(self.users[u].key), w(p.lp), w(self.users[u].lp), w(p.a), w(p.b), w(self.users[u].a), w(self.users[u].b), w(p.fee), t],
            Op::Dep1 { u, dir, .. } => vec![r(p.swap), r(p.auth), s(self.users[u].key), w(self.side(u, dir)), w(p.a), w(p.b), w(p.lp), w(self.users[u].lp), t],
            Op::Wd1 { u, dir, .. } => vec![r(p.swap), r(p.auth), s(self.users[u].key), w(p.lp), w(self.users[u].lp), w(p.a), w(p.b), w(self.side(u, dir)), w(p.fee), t],
            _ => vec![],
        }
    }
    pub fn data(&self, op: &Op) -> Vec<u8> {
        match *op {
            Op::Swap { amt, min, .. } => ix_data("swap", &[amt, min]),
            Op::DepAll { lp, max_a, max_b, .. } => ix_data("deposit_all_token_types", &[lp, max_a, max_b]),
            Op::WdAll { lp, min_a, min_b, .. } => ix_data("withdraw_all_token_types", &[lp, min_a, min_b]),
            Op::Dep1 { amt, min, .. } => ix_data("deposit_single_token_type_exact_amount_in", &[amt, min]),
            Op::Wd1 { amt, max, .. } => ix_data("withdraw_single_token_type_exact_amount_out", &[amt, max]),
            _ => vec![],
        }
    }
    /// run an operation with explicit accounts
    pub fn run(&mut self, op: &Op, metas: &[Meta]) -> Out {
        match *op {
            Op::Swap { amt, min, host: Some(_), .. } => self.bank.exec(&PID, metas, |id, ac| Processor::process_swap(id, amt, min, ac)),
            _ => { let d = self.data(op); self.bank.exec(&PID, metas, |id, ac| token_bonding_curve::entry(id, ac, &d)) }
        }
    }
    pub fn apply(&mut self, op: &Op) -> Step {
        let pre = self.snap();
        let out = match *op {
            Op::Donate { u, dir, amt } => { let (f, t) = (self.side(u, dir), self.reserve(dir)); self.bank.outside_transfer(&f, &t, amt.min(pre.us(u, dir))); Out::Ok }
            Op::Burn { u, amt } => { let (f, m) = (self.users[u].lp, self.pool.lp); self.bank.outside_burn(&f, &m, amt.min(pre.ul[u])); Out::Ok }
            _ => { let m = self.metas(op); self.run(op, &m) }
        };
        Step { op: *op, pre, post: self.snap(), out }
    }
    /// what an operation would do, without doing it
    pub fn try_op(&self, op: &Op) -> Step { let mut w = self.clone(); w.apply(op) }
}

