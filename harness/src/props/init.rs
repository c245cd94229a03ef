//! Initialisation, the state it stores, what is closed on which curve, the
//! owner's constraints, and the decoding of instructions.
use crate::chain::*;
use crate::engine::*;
use crate::model::*;
use crate::src::Src;
use crate::world::*;
use crate::{bad, ensure};
use solana_program::program_error::ProgramError;
use solana_program::program_option::COption;
use solana_program::pubkey::Pubkey;
use spl_token::state::AccountState;
use token_bonding_curve::constraints::SwapConstraints;
use token_bonding_curve::curve::base::{CurveType, SwapCurve};
use token_bonding_curve::curve::fees::Fees;
use token_bonding_curve::processor::Processor;
use token_bonding_curve::state::{SwapState, SwapV1, SwapVersion};

// ------------------------------------------------------------ the documented layout
pub const LEN: usize = 324;
#[derive(Clone, Debug, PartialEq)]
pub struct State { pub init: bool, pub bump: u8, pub keys: [Pubkey; 7], pub fees: [u64; 8], pub curve: Curve }
/// version, initialised, bump, token program, reserves A and B, LP mint, mints A and B, fee account, fees, curve type, parameters
pub fn encode(s: &State) -> Vec<u8> {
    let mut v = vec![1, s.init as u8, s.bump];
    for k in &s.keys { v.extend_from_slice(&k.to_bytes()); }
    for f in &s.fees { v.extend_from_slice(&f.to_le_bytes()); }
    v.push(s.curve.type_byte());
    for p in s.curve.params() { v.extend_from_slice(&p.to_le_bytes()); }
    v.resize(LEN, 0);
    v
}
/// the bytes that carry information agree (a curve leaves the parameter bytes it does not use alone)
pub fn stored_as(d: &[u8], s: &State) -> bool {
    let n = 292 + 8 * s.curve.params().len();
    d.len() == LEN && d[..n] == encode(s)[..n]
}
/// Err(true): not an initialised account; Err(false): not a readable state
pub fn decode(d: &[u8]) -> Result<State, bool> {
    if d.is_empty() { return Err(false); }
    if d[0] != 1 { return Err(true); }
    if d.len() != LEN { return Err(false); }
    if d[1] > 1 { return Err(false); }
    let q = |i: usize| { let mut b = [0; 8]; b.copy_from_slice(&d[i..i + 8]); u64::from_le_bytes(b) };
    let curve = match d[291] { 0 => Curve::Product, 1 => Curve::Price(q(292)), 2 => Curve::Stable(q(292)), 3 => Curve::Offset(q(292)), 30 => Curve::Linear(Lin { sn: q(292), sd: q(300), pn: q(308), pd: q(316) }), _ => return Err(false) };
    if d[1] == 0 { return Err(true); }
    let mut keys = [Pubkey::default(); 7];
    for (i, k) in keys.iter_mut().enumerate() { let mut b = [0; 32]; b.copy_from_slice(&d[3 + 32 * i..35 + 32 * i]); *k = Pubkey::new_from_array(b); }
    let mut fees = [0; 8];
    for (i, f) in fees.iter_mut().enumerate() { *f = q(227 + 8 * i); }
    Ok(State { init: true, bump: d[2], keys, fees, curve })
}
pub fn state_of(p: &Pool) -> State {
    State { init: true, bump: p.bump, keys: [spl_token::ID, p.a, p.b, p.lp, p.mint_a, p.mint_b, p.fee], fees: p.fees.list(), curve: p.curve }
}

// ------------------------------------------------------------ P16
/// parameters and opening balances that a curve accepts
pub fn good_curve(src: &mut Src) -> (Curve, u64, u64) {
    let c = gen_curve(src, &[2, 3, 2, 2, 3]);
    let (x, y) = (src.any64().max(1), src.any64().max(1));
    match c {
        Curve::Linear(_) => (c, 0, y),
        Curve::Price(_) | Curve::Offset(_) => (c, x, if src.chance(1, 4) { 0 } else { y }),
        _ => (c, x, y),
    }
}
fn other_owner() -> Pubkey { key("another program", 3) }
fn evil() -> Pubkey { key("evil program", 0) }

/// the faults; Some(code) is the error that names the fault, None means any refusal
struct Case { bank: Bank, p: Pool, metas: Vec<Meta>, entry: bool, want: Vec<Option<u32>>, what: Vec<&'static str>, moved: bool }
fn fault(src: &mut Src, c: &mut Case) {
    let n = 34;
    let f = src.below(n);
    // at most one fault rearranges the account list, so that faults cannot cancel out
    if matches!(f, 1 | 24 | 25 | 26 | 30..=33) { if c.moved { return; } c.moved = true; }
    // someone, possibly someone close to the pool
    let who = |src: &mut Src, not: &[Pubkey]| -> Pubkey {
        let p = &c.p;
        let k = match src.weighted(&[4, 3, 8]) {
            0 => key("stranger", 1),
            1 => near(src, not.first().unwrap_or(&p.auth)),
            _ => *src.pick(&[p.auth, p.swap, p.a, p.b, p.lp, p.mint_a, p.mint_b, p.fee, p.dest, key("creator", 0), Pubkey::default(), PID, spl_token::ID, solana_program::system_program::ID, authority(&key("stranger", 1)).0]),
        };
        if not.contains(&k) { key("stranger", 1) } else { k }
    };
    let (auth, fee_mint) = (c.p.auth, c.p.lp);
    let k2 = match f { 2 | 5 => who(src, &[auth]), 9 | 10 | 12 => who(src, &[]), 13 => who(src, &[fee_mint]), 1 => { let (k, sw) = (who(src, &[auth]), c.p.swap); if k == Pubkey::default() || k == sw { key("stranger", 1) } else { k } } _ => key("stranger", 1) };
    let reserve = if src.below(2) == 0 { c.p.a } else { c.p.b };
    let side = if reserve == c.p.a { 2 } else { 3 };
    let (p, bank) = (c.p.clone(), &mut c.bank);
    // an earlier fault may have replaced the account
    let is_tok = |b: &Bank, k: &Pubkey| b.accs.get(k).map_or(false, |a| { use solana_program::program_pack::Pack; spl_token::state::Account::unpack(&a.data).is_ok() });
    let is_mint = |b: &Bank, k: &Pubkey| b.accs.get(k).map_or(false, |a| { use solana_program::program_pack::Pack; spl_token::state::Mint::unpack(&a.data).is_ok() });
    if ![p.a, p.b, p.fee, p.dest].iter().all(|k| is_tok(bank, k)) || !is_mint(bank, &p.lp) { return; }
    let (what, want): (&'static str, Option<u32>) = match f {
        0 => { let s = state_of(&p); bank.accs.get_mut(&p.swap).unwrap().data = encode(&s); ("already initialised", Some(code::ALREADY)) }
        1 => {
            if c.metas.len() < 2 { return; }
            let k = match src.below(4) { 0 => k2, 1 => authority(&k2).0, 2 => p.swap, _ => (0..255u8).rev().filter(|b| *b != p.bump).find_map(|b| Pubkey::create_program_address(&[&p.swap.to_bytes(), &[b]], &PID).ok()).unwrap_or(k2) };
            c.metas[1].key = k;
            // possibly consistent in every other respect
            if src.below(2) == 0 { bank.edit_tok(&p.a, |t| t.owner = k); bank.edit_tok(&p.b, |t| t.owner = k); bank.edit_mint(&p.lp, |m| m.mint_authority = COption::Some(k)); ("wrong authority", Some(code::ADDRESS)) }
            else { ("wrong authority, not the owner of the reserves", None) }
        }
        2 => { bank.edit_tok(&reserve, |t| t.owner = k2); ("a reserve is owned by someone else", Some(code::OWNER)) }
        3 => { bank.edit_tok(&p.dest, |t| t.owner = p.auth); ("LP destination owned by the pool", Some(code::OUT_OWNER)) }
        4 => { bank.edit_tok(&p.fee, |t| t.owner = p.auth); ("fee account owned by the pool", Some(code::OUT_OWNER)) }
        5 => { bank.edit_mint(&p.lp, |m| m.mint_authority = COption::Some(k2)); ("someone else mints LP tokens", Some(code::OWNER)) }
        6 => { bank.edit_mint(&p.lp, |m| m.mint_authority = COption::None); ("nobody mints LP tokens", Some(code::OWNER)) }
        7 => { bank.edit_tok(&p.b, |t| t.mint = p.mint_a); ("both reserves hold the same token", Some(code::REPEATED)) }
        8 => {
            if p.curve.is_linear() { if src.below(2) == 0 { bank.edit_tok(&p.b, |t| t.amount = 0); ("no bonded tokens", Some(code::EMPTY)) } else { bank.edit_tok(&p.a, |t| t.amount = 1); ("collateral before the first sale", Some(code::SUPPLY)) } }
            else if src.below(2) == 0 || matches!(p.curve, Curve::Price(_) | Curve::Offset(_)) { bank.edit_tok(&p.a, |t| t.amount = 0); ("no A tokens", Some(code::EMPTY)) }
            else { bank.edit_tok(&p.b, |t| t.amount = 0); ("no B tokens", Some(code::EMPTY)) }
        }
        9 => { let d = src.any64(); bank.edit_tok(&reserve, |t| { t.delegate = COption::Some(k2); t.delegated_amount = d; }); ("a reserve has a delegate", Some(code::DELEGATE)) }
        10 => { bank.edit_tok(&reserve, |t| t.close_authority = COption::Some(k2)); ("a reserve has a close authority", Some(code::CLOSE)) }
        11 => { let s = src.any64().max(1); bank.edit_mint(&p.lp, |m| m.supply = s); ("LP tokens exist already", Some(code::SUPPLY)) }
        12 => { bank.edit_mint(&p.lp, |m| m.freeze_authority = COption::Some(k2)); ("LP tokens can be frozen", Some(code::FREEZE)) }
        13 => { let m = if src.below(4) == 0 { p.mint_a } else { k2 }; bank.edit_tok(&p.fee, |t| t.mint = m); ("fee account of another token", Some(code::POOL_MINT)) }
        14 => {
            if p.curve.is_linear() { return; }
            let (n, d) = match src.below(4) { 0 => (1, 0), 1 => { let d = src.any64().max(1); (d, d) } 2 => (2, 1), _ => { let d = src.any64().max(1); (d.saturating_add(src.below(9)), d) } };
            match src.below(4) { 0 => c.p.fees.t = (n, d), 1 => c.p.fees.o = (n, d), 2 => c.p.fees.w = (n, d), _ => c.p.fees.h = (n, d) }
            ("a fee of one or more", Some(code::FEE))
        }
        15 => match p.curve {
            Curve::Price(_) => { c.p.curve = Curve::Price(0); ("invalid curve", Some(code::CURVE)) }
            Curve::Offset(_) => { c.p.curve = Curve::Offset(0); ("invalid curve", Some(code::CURVE)) }
            Curve::Linear(mut l) => { match src.below(3) { 0 => l.sn = 0, 1 => l.sd = 0, _ => l.pd = 0 } c.p.curve = Curve::Linear(l); ("invalid curve", Some(code::CURVE)) }
            _ => return,
        },
        16 => { bank.edit_tok(&p.dest, |t| t.mint = p.mint_b); ("LP destination of another token", None) }
        17 => { let k = *src.pick(&[p.a, p.b, p.fee, p.dest, p.lp]); bank.accs.get_mut(&k).unwrap().owner = other_owner(); ("an account of another token program", Some(code::TOKEN_PROGRAM)) }
        18 => {
            let k = *src.pick(&[p.a, p.b, p.fee, p.dest]);
            let mint = bank.accs[&p.mint_a].data.clone();
            let a = bank.accs.get_mut(&k).unwrap();
            match src.below(4) { 0 => a.data = mint, 1 => a.data = vec![0; 165], 2 => { a.data.truncate(100); } _ => a.data = vec![] }
            ("not a token account", Some(code::ACCOUNT))
        }
        19 => {
            let tok = bank.accs[&p.a].data.clone();
            let a = bank.accs.get_mut(&p.lp).unwrap();
            match src.below(3) { 0 => a.data = tok, 1 => a.data = vec![0; 82], _ => a.data = vec![] }
            ("not a mint", Some(code::MINT))
        }
        20 => { if !c.entry || c.metas.is_empty() { return; } c.metas[0].signer = false; ("the pool account did not sign", None) }
        21 => { if c.metas.is_empty() { return; } c.metas[0].writable = false; ("the pool account is read-only", None) }
        22 => { let k = *src.pick(&[other_owner(), solana_program::system_program::ID, spl_token::ID]); bank.accs.get_mut(&p.swap).unwrap().owner = k; ("the pool account belongs to another program", None) }
        23 => { let n = match src.below(5) { 0 => 0, 1 => 323, 2 => 325, 3 => src.below(324) as usize, _ => 325 + src.below(300) as usize }; bank.accs.get_mut(&p.swap).unwrap().data = vec![0; n]; ("the pool account has another size", None) }
        24 => { let n = src.usize(8); c.metas.truncate(n); ("accounts missing", None) }
        25 => { bank.accs.insert(evil(), Acc { owner: solana_program::bpf_loader::ID, lamports: 1, data: vec![], exec: true }); if let Some(m) = c.metas.last_mut() { m.key = evil() }; ("another token program", Some(code::TOKEN_PROGRAM)) }
        26 => {
            bank.accs.insert(evil(), Acc { owner: solana_program::bpf_loader::ID, lamports: 1, data: vec![], exec: true });
            if let Some(m) = c.metas.last_mut() { m.key = evil() };
            for k in [p.a, p.b, p.fee, p.dest, p.lp] { bank.accs.get_mut(&k).unwrap().owner = evil(); }
            ("everything belongs to a foreign token program", None)
        }
        27 => { if c.metas.len() > 4 { c.metas[4].writable = false; } ("the LP mint is read-only", None) }
        28 => { if c.metas.len() > 6 { c.metas[6].writable = false; } ("the LP destination is read-only", None) }
        29 => { bank.edit_tok(&p.dest, |t| t.state = AccountState::Frozen); ("the LP destination is frozen", None) }
        30 => { let k = if side == 2 { p.b } else { p.a }; if c.metas.len() > 3 { c.metas[side].key = k; } ("one account as both reserves", None) }
        31 => { if c.metas.len() > 6 { c.metas[if src.below(2) == 0 { 5 } else { 6 }].key = reserve; } ("a reserve receives LP tokens", None) }
        32 => { if c.metas.len() > 4 { c.metas[4].key = p.mint_a; } ("token A's mint as LP mint", None) }
        _ => { let k = *src.pick(&[p.fee, p.dest]); if c.metas.len() > 3 { c.metas[side].key = k; } ("a user's account as reserve", None) }
    };
    c.want.push(want);
    c.what.push(what);
}
fn run_case(c: &mut Case) -> Out {
    let (p, m) = (c.p.clone(), c.metas.clone());
    if c.entry { run_init(&mut c.bank, &p, &m) } else { run_init_direct(&mut c.bank, &p, &m, &None) }
}
fn initialise(src: &mut Src, ctx: &mut Ctx) -> R {
    let (curve, a, b) = good_curve(src);
    let fees = if curve.is_linear() { NOFEE } else { gen_fees(src) };
    let salt = gen_salt(src);
    let mut bank = Bank::new();
    let owner = key("fee owner", salt);
    let p = fresh(&mut bank, salt, curve, fees, a, b, owner, key("creator", salt));
    // things that do not matter
    if src.chance(1, 3) { let k = key("creator", salt); bank.edit_tok(&p.fee, |t| t.owner = k); }
    else if src.chance(1, 4) {
        let pick = |src: &mut Src| *src.pick(&[p.swap, p.a, p.b, p.lp, p.mint_a, p.mint_b, p.fee, p.dest, Pubkey::default(), PID, spl_token::ID, solana_program::system_program::ID]);
        let (k, l) = (pick(src), pick(src));
        if src.chance(1, 2) { bank.edit_tok(&p.fee, |t| t.owner = k); }
        if src.chance(1, 2) { bank.edit_tok(&p.dest, |t| t.owner = l); }
    }
    if src.chance(1, 4) { let d = src.any64(); bank.edit_tok(&p.dest, |t| { t.delegate = COption::Some(key("stranger", 1)); t.delegated_amount = d; }); }
    if src.chance(1, 4) { bank.edit_tok(&p.fee, |t| t.close_authority = COption::Some(key("stranger", 1))); }
    if src.chance(1, 4) { let x = src.word() as u8; bank.edit_mint(&p.lp, |m| m.decimals = x); }
    if src.chance(1, 6) { let n = src.usize(LEN); let d = &mut bank.accs.get_mut(&p.swap).unwrap().data; for b in d.iter_mut().skip(n) { *b = 0x5a; } d[1] = 0; }
    let metas = init_metas(&p);
    let entry = (matches!(curve, Curve::Price(_)) || (curve.is_linear() && fees == NOFEE)) && src.chance(4, 5);
    let mut c = Case { bank, p, metas, entry, want: vec![], what: vec![], moved: false };
    let n = src.weighted(&[3, 6, 3]);
    for _ in 0..n { fault(src, &mut c); }
    // one account for fees and for the first LP tokens
    if n == 0 && src.chance(1, 6) { let k = c.p.dest; c.p.fee = k; c.metas = init_metas(&c.p); ctx.label("one LP account"); }
    let before = c.bank.clone();
    let out = run_case(&mut c);
    let p = &c.p;
    let show = format!("{:?} {:?}, opening balances {a}/{b}, {}: {:?}", p.curve, p.fees, if entry { "entry" } else { "processor" }, c.what);
    ctx.note(|| format!("{show} -> {out:?}"));
    for w in &c.what { ctx.label(w); }
    ctx.nontrivial(&(p.curve, p.fees, a, b, c.what.concat()));
    if let Out::Panic(m) = &out { bad!("panic", "aborted: {m}; {show}"); }
    if c.want.is_empty() {
        ctx.label("valid");
        ensure!(out.ok(), "refused", "a valid initialisation was refused with {out:?}: {show}");
        let st = &c.bank.accs[&p.swap].data;
        ensure!(stored_as(st, &state_of(p)), "state", "the stored state differs from what was asked for: {:?} instead of {:?}; {show}", decode(st), state_of(p));
        let mut want = before.clone();
        want.accs.get_mut(&p.swap).unwrap().data = st.clone();
        want.edit_tok(&p.dest, |t| t.amount += LP0);
        want.edit_mint(&p.lp, |m| m.supply += LP0);
        for (k, v) in &want.accs { ensure!(c.bank.accs.get(k) == Some(v), "effects", "account {k} is not as expected afterwards: {show}"); }
        ensure!(c.bank.accs.len() == want.accs.len(), "created", "an account appeared: {show}");
    } else {
        ensure!(!out.ok(), "accepted", "accepted in spite of {:?}: {show}", c.what);
        ensure!(c.bank.accs == before.accs, "changed", "a refused initialisation changed an account: {show}");
        if c.want.iter().all(|w| w.is_some()) && !(c.want.len() > 1 && c.what.contains(&"already initialised")) {
            let got = out.custom();
            // several faults: the error names one of them (a replaced account may hide another account's fault)
            if c.want.len() == 1 { ensure!(got == c.want[0], "code", "expected error {:?}, got {out:?}: {show}", c.want[0]); }
        }
        if c.want.len() > 1 { ctx.label("several"); }
    }
    Ok(())
}

// ------------------------------------------------------------ P17
fn reinit(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut w = match gen_world(src, &Setup { curves: [2, 3, 2, 2, 3], fees: true, max_bits: 50 }) { Some(w) => w, None => { ctx.label("no-pool"); return Ok(()) } };
    let stored = w.bank.accs[&w.pool.swap].data.clone();
    ensure!(stored_as(&stored, &state_of(&w.pool)), "state", "the stored state differs from what was asked for: {:?}", decode(&stored));
    let n = 1 + src.below(10);
    for _ in 0..n {
        if src.chance(1, 3) {
            // everything is in place for a fresh pool, except that the pool account is in use
            let (c2, a2, b2) = good_curve(src);
            let f2 = if c2.is_linear() { NOFEE } else { gen_fees(src) };
            let who = src.usize(NU);
            let salt = 5000 + src.below(16);
            let swap = w.pool.swap;
            let mut bank = w.bank.clone();
            let mut q = fresh(&mut bank, salt, c2, f2, a2, b2, w.users[who].key, w.users[who].key);
            bank.accs.remove(&q.swap);
            q.swap = swap;
            q.auth = w.pool.auth;
            q.bump = w.pool.bump;
            for k in [q.a, q.b] { bank.edit_tok(&k, |t| t.owner = w.pool.auth); }
            bank.edit_mint(&q.lp, |m| m.mint_authority = COption::Some(w.pool.auth));
            let mode = src.below(3);
            // with the pool's own reserves, or its LP mint emptied by its holders
            if mode == 1 { q.a = w.pool.a; q.b = w.pool.b; q.mint_a = w.pool.mint_a; q.mint_b = w.pool.mint_b; }
            if mode == 2 { for u_ in &w.users { let l = u_.lp; bank.edit_tok(&l, |t| t.amount = 0); } let lp = w.pool.lp; bank.edit_mint(&lp, |m| m.supply = 0); q.lp = lp; q.fee = w.pool.fee; q.dest = w.users[1].lp; }
            let before = bank.clone();
            let metas = init_metas(&q);
            let out = if src.below(2) == 0 { run_init(&mut bank, &q, &metas) } else { run_init_direct(&mut bank, &q, &metas, &None) };
            ctx.steps += 1;
            ctx.note(|| format!("initialise again as {c2:?} (mode {mode}) -> {out:?}"));
            ctx.nontrivial(&(w.pool.curve, c2, w.snap(), mode));
            ctx.label("again");
            ensure!(out.custom() == Some(code::ALREADY), "again", "initialising {:?} again as {c2:?} gave {out:?}", w.pool.curve);
            ensure!(bank.accs == before.accs, "changed", "a refused initialisation changed an account");
        } else {
            let op = gen_op(src, &w, &MIX);
            let st = w.apply(&op);
            ctx.steps += 1;
            if st.out.ok() { ctx.label("request"); ctx.nontrivial(&(w.pool.curve, st.pre, op)); }
            ctx.note(|| format!("{op:?} -> {:?}", st.out));
        }
        ensure!(w.bank.accs[&w.pool.swap].data == stored, "rewritten", "the pool's configuration changed: {:?} -> {:?}", decode(&stored), decode(&w.bank.accs[&w.pool.swap].data));
    }
    Ok(())
}

// ------------------------------------------------------------ P18
fn any_key(src: &mut Src) -> Pubkey { Pubkey::new_from_array(src.bytes32()) }
fn any_curve(src: &mut Src) -> Curve {
    match src.below(5) { 0 => Curve::Product, 1 => Curve::Price(src.any64()), 2 => Curve::Stable(src.any64()), 3 => Curve::Offset(src.any64()), _ => Curve::Linear(Lin { sn: src.any64(), sd: src.any64(), pn: src.any64(), pd: src.any64() }) }
}
fn any_state(src: &mut Src) -> State {
    let mut keys = [Pubkey::default(); 7];
    for k in keys.iter_mut() { *k = any_key(src); }
    let mut fees = [0; 8];
    for f in fees.iter_mut() { *f = src.any64(); }
    State { init: src.below(4) != 3, bump: src.word() as u8, keys, fees, curve: any_curve(src) }
}
fn fees_of(f: &[u64; 8]) -> Fees {
    FeeSet { t: (f[0], f[1]), o: (f[2], f[3]), w: (f[4], f[5]), h: (f[6], f[7]) }.real()
}
fn real_state(s: &State) -> SwapVersion {
    let k = &s.keys;
    SwapVersion::SwapV1(SwapV1 { is_initialized: s.init, bump_seed: s.bump, token_program_id: k[0], token_a: k[1], token_b: k[2], pool_mint: k[3], token_a_mint: k[4], token_b_mint: k[5], pool_fee_account: k[6],
        fees: fees_of(&s.fees), swap_curve: s.curve.real() })
}
fn read_back(s: &dyn SwapState) -> Result<State, Failure> {
    let f = s.fees();
    let mut cb = [0u8; 33];
    solana_program::program_pack::Pack::pack_into_slice(s.swap_curve(), &mut cb[..]);
    let q = |i: usize| { let mut b = [0; 8]; b.copy_from_slice(&cb[i..i + 8]); u64::from_le_bytes(b) };
    let curve = match s.swap_curve().curve_type {
        CurveType::ConstantProduct => Curve::Product, CurveType::ConstantPrice => Curve::Price(q(1)), CurveType::Stable => Curve::Stable(q(1)), CurveType::Offset => Curve::Offset(q(1)),
        CurveType::LinearPrice => Curve::Linear(Lin { sn: q(1), sd: q(9), pn: q(17), pd: q(25) }),
    };
    if cb[0] != curve.type_byte() { bad!("type", "curve type {:?} is written as {}", s.swap_curve().curve_type, cb[0]); }
    Ok(State { init: s.is_initialized(), bump: s.bump_seed(), keys: [*s.token_program_id(), *s.token_a_account(), *s.token_b_account(), *s.pool_mint(), *s.token_a_mint(), *s.token_b_mint(), *s.pool_fee_account()],
        fees: [f.trade_fee_numerator, f.trade_fee_denominator, f.owner_trade_fee_numerator, f.owner_trade_fee_denominator, f.owner_withdraw_fee_numerator, f.owner_withdraw_fee_denominator, f.host_fee_numerator, f.host_fee_denominator], curve })
}
fn codec(src: &mut Src, ctx: &mut Ctx) -> R {
    let s = any_state(src);
    let bytes = encode(&s);
    let p = |m: String| Failure { sig: "panic".into(), msg: format!("aborted: {m}") };
    // writing
    let len = match src.weighted(&[8, 1, 1]) { 0 => LEN, 1 => src.usize(LEN), _ => LEN + 1 + src.usize(200) };
    let fill = src.word() as u8;
    let mut buf = vec![fill; len];
    let r = guard(|| SwapVersion::pack(real_state(&s), &mut buf)).map_err(p)?;
    if len == LEN {
        ensure!(r.is_ok() && stored_as(&buf, &s), "pack", "{s:?} is written as {buf:?} ({r:?}), documented {bytes:?}");
        ctx.label("written");
    } else { ensure!(r.is_err(), "pack-size", "{s:?} was written into {len} bytes"); ctx.label("wrong-size"); }
    // reading
    let mut d = bytes.clone();
    let dirty = match src.weighted(&[4, 3, 1, 1, 1, 1]) {
        0 => "clean",
        1 => { let n = 1 + src.below(4); for _ in 0..n { let i = src.usize(LEN); d[i] = src.word() as u8; } "bytes changed" }
        2 => { let i = *src.pick(&[0usize, 1, 291]); d[i] = *src.pick(&[0u8, 1, 2, 3, 4, 29, 30, 31, 255]); "tag changed" }
        3 => { let n = src.usize(LEN); d.truncate(n); "truncated" }
        4 => { let n = 1 + src.usize(100); d.resize(LEN + n, 0); "lengthened" }
        _ => { let n = src.usize(400); d = (0..n).map(|_| src.word() as u8).collect(); if n > 1 && src.below(2) == 0 { d[0] = 1; d[1] &= 1; } "random" }
    };
    let got = guard(|| SwapVersion::unpack(&d)).map_err(p)?;
    let flag = guard(|| SwapVersion::is_initialized(&d)).map_err(p)?;
    let want = decode(&d);
    ctx.note(|| format!("{dirty} {} bytes: {want:?}", d.len()));
    ctx.label(dirty);
    ctx.nontrivial(&(dirty, d.clone()));
    match (got, &want) {
        (Ok(g), Ok(w)) => {
            let g2 = read_back(g.as_ref())?;
            ensure!(g2 == *w, "unpack", "{d:?} is read as {g2:?}, documented {w:?}");
            ensure!(flag, "flag", "an initialised state is reported as uninitialised");
            ctx.label("read");
            // and back
            let mut again = vec![0; LEN];
            let r = SwapVersion::pack(real_state(&g2), &mut again);
            ensure!(r.is_ok() && stored_as(&again, w), "again", "written back as {again:?}");
        }
        (Err(e), Err(u)) => {
            let w = if *u { ProgramError::UninitializedAccount } else { ProgramError::InvalidAccountData };
            ensure!(e == w, "error", "reading {d:?} ({dirty}) gave {e:?} instead of {w:?}");
            ensure!(!flag, "flag", "an unreadable state is reported as initialised");
        }
        (Ok(_), Err(_)) => bad!("readable", "{d:?} ({dirty}) was read as a state"),
        (Err(e), Ok(w)) => bad!("unreadable", "{d:?} ({dirty}), which is {w:?}, was refused with {e:?}"),
    }
    // the parts
    let f = fees_of(&s.fees);
    let mut fb = vec![0u8; 64];
    guard(|| solana_program::program_pack::Pack::pack_into_slice(&f, &mut fb[..])).map_err(p)?;
    ensure!(fb == bytes[227..291], "fees", "fees {f:?} are written as {fb:?}");
    let f2 = guard(|| <Fees as solana_program::program_pack::Pack>::unpack_from_slice(&fb)).map_err(p)?;
    ensure!(f2 == Ok(f), "fees", "fees are read back as {f2:?}");
    let c2 = guard(|| <SwapCurve as solana_program::program_pack::Pack>::unpack_from_slice(&bytes[291..])).map_err(p)?;
    ensure!(c2.map(|c| c == s.curve.real()).unwrap_or(false), "curve", "curve {:?} is not read back", s.curve);
    Ok(())
}

// ------------------------------------------------------------ P19
fn closed(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut w = match gen_world(src, &Setup { curves: [0, 0, 0, 2, 3], fees: true, max_bits: 60 }) { Some(w) => w, None => { ctx.label("no-pool"); return Ok(()) } };
    // give everyone LP tokens, or take them all away
    let p = w.pool.clone();
    if src.chance(1, 5) {
        for u_ in w.users.clone() { w.bank.edit_tok(&u_.lp, |t| t.amount = 0); }
        w.bank.edit_mint(&p.lp, |m| m.supply = 0);
    } else { let s = w.snap(); let f = w.users[if s.ul[0] >= s.ul[1] { 0 } else { 1 }].lp; for i in 0..NU { let t = w.users[i].lp; w.bank.outside_transfer(&f, &t, s.supply / 12); } }
    for _ in 0..1 + src.below(4) { let op = gen_op(src, &w, &Mix { depall: 0, dep1: 0, wdall: if p.curve.is_linear() { 0 } else { 2 }, wd1: if p.curve.is_linear() { 0 } else { 2 }, ..MIX }); w.apply(&op); }
    let lin = p.curve.is_linear();
    let m = Mix { swap: 0, donate: 0, burn: 0, depall: 3, dep1: 3, wdall: if lin { 3 } else { 0 }, wd1: if lin { 3 } else { 0 }, limits: false, host: false };
    for _ in 0..1 + src.below(4) {
        let op = gen_op(src, &w, &m);
        let metas = w.metas(&op);
        let mut bank = w.bank.clone();
        let via = src.below(2) == 0;
        let out = if via { crate::props::acct::direct(&mut bank, &op, &metas) } else { let mut w2 = w.clone(); let o = w2.run(&op, &metas); bank = w2.bank; o };
        ctx.steps += 1;
        ctx.note(|| format!("{:?} {op:?} -> {out:?}", p.curve));
        ctx.nontrivial(&(p.curve, w.snap(), op));
        ctx.label(match op { Op::DepAll { .. } => "deposit-both", Op::Dep1 { .. } => "deposit-one", Op::WdAll { .. } => "withdraw-both", _ => "withdraw-one" });
        if let Out::Panic(m) = &out { bad!("panic", "aborted: {m}; {op:?} on {:?}", p.curve); }
        ensure!(!out.ok(), "open", "{op:?} was accepted on {:?}", p.curve);
        ensure!(bank.accs == w.bank.accs, "changed", "a refused request changed an account");
        if let Op::DepAll { .. } | Op::Dep1 { .. } = op { ensure!(out.custom() == Some(code::UNSUPPORTED), "code", "{op:?} on {:?} was refused with {out:?}", p.curve); }
    }
    Ok(())
}

// ------------------------------------------------------------ P23
fn bound(src: &mut Src) -> (u64, u64) { match src.below(4) { 0 => (0, 0), 1 => (0, 10_000), 2 => (5, 10_000), _ => { let d = 2 + src.log(20); (src.below(d), d) } } }
/// a rate near a bound: the same, one more, one less, another denominator
fn near_rate(src: &mut Src, b: (u64, u64)) -> (u64, u64) {
    match src.weighted(&[8, 3, 2, 1, 1, 1]) {
        0 => b,
        1 => (b.0 + 1 + src.below(5), b.1),
        2 => (b.0.saturating_sub(1 + src.below(2)), b.1),
        3 => (b.0, b.1 + 1 + src.below(3)),
        4 => (b.0 * 2, b.1 * 2),
        _ => { let d = 1 + src.log(20); (src.below(d), d) }
    }
}
fn meets(f: &FeeSet, m: &FeeSet) -> bool {
    let at_least = |x: (u64, u64), y: (u64, u64)| x.0 >= y.0 && x.1 == y.1;
    at_least(f.t, m.t) && at_least(f.o, m.o) && at_least(f.w, m.w) && f.h == m.h
}
const KINDS: [CurveType; 5] = [CurveType::ConstantProduct, CurveType::ConstantPrice, CurveType::Stable, CurveType::Offset, CurveType::LinearPrice];
fn kind(c: &Curve) -> usize { match c { Curve::Product => 0, Curve::Price(_) => 1, Curve::Stable(_) => 2, Curve::Offset(_) => 3, Curve::Linear(_) => 4 } }
fn constrained(src: &mut Src, ctx: &mut Ctx) -> R {
    let min = FeeSet { t: bound(src), o: bound(src), w: bound(src), h: bound(src) };
    let mask = src.below(32) as usize;
    let allowed: Vec<CurveType> = (0..5).filter(|i| mask >> i & 1 == 1).map(|i| KINDS[i]).collect();
    let owner = key("program owner", src.below(8));
    let text = if src.chance(1, 12) { match src.below(3) { 0 => String::new(), 1 => "not a key".into(), _ => owner.to_string()[..20].to_string() } } else { owner.to_string() };
    let parses = text == owner.to_string();
    let (curve, a, b) = good_curve(src);
    let fees = match src.weighted(&[6, 1]) {
        0 => { let mut f = min; match src.below(6) { 0 => {} 1 => f.t = near_rate(src, min.t), 2 => f.o = near_rate(src, min.o), 3 => f.w = near_rate(src, min.w), 4 => f.h = near_rate(src, min.h), _ => f = FeeSet { t: near_rate(src, min.t), o: near_rate(src, min.o), w: near_rate(src, min.w), h: near_rate(src, min.h) } } f }
        _ => gen_fees(src),
    };
    let mut bank = Bank::new();
    let salt = gen_salt(src);
    let (fee_owner, dest_owner) = owners(src, &owner, salt);
    let mut p = fresh(&mut bank, salt, curve, fees, a, b, fee_owner, dest_owner);
    decorate(src, &mut bank, &mut p, &owner);
    let real_min = min.real();
    let cons = Some(SwapConstraints { owner_key: &text, valid_curve_types: &allowed, fees: &real_min });
    let mut wrong: Vec<u32> = vec![];
    if !parses || fee_owner != owner { wrong.push(code::OWNER); }
    if fee_owner == p.auth { wrong.push(code::OUT_OWNER); }
    if mask >> kind(&curve) & 1 == 0 { wrong.push(code::CURVE_TYPE); }
    if !meets(&fees, &min) || !fees.valid() { wrong.push(code::FEE); }
    let before = bank.clone();
    let out = run_init_direct(&mut bank, &p, &init_metas(&p), &cons);
    let show = format!("{curve:?} {fees:?} under minimum {min:?}, curves {allowed:?}, owner {text:?}, fee account of {}", if fee_owner == owner { "the owner" } else { "someone else" });
    ctx.note(|| format!("{show} -> {out:?}"));
    ctx.nontrivial(&(curve, fees, min, mask, fee_owner == owner, parses));
    judge(&wrong, &out, &before, &bank, &p, &show, ctx)
}
/// who owns the fee account and the account of the initial LP tokens
fn owners(src: &mut Src, owner: &Pubkey, salt: u64) -> (Pubkey, Pubkey) {
    let creator = match src.below(4) { 0 => *owner, 1 => near(src, owner), _ => key("creator", salt) };
    let fee = if src.chance(4, 5) { *owner } else { match src.below(6) { 0 => near(src, owner), 1 => creator, 2 => authority(&key("swap", salt)).0, 3 => key("mint authority", 0), 4 => spl_token::ID, _ => key("someone", 9) } };
    (fee, creator)
}
/// things about the accounts on which nothing depends; the owner's key may sit in any of them
fn decorate(src: &mut Src, bank: &mut Bank, p: &mut Pool, owner: &Pubkey) {
    if src.chance(1, 4) { bank.edit_tok(&p.fee, |t| t.delegate = COption::Some(*owner)); }
    if src.chance(1, 4) { bank.edit_tok(&p.fee, |t| t.close_authority = COption::Some(*owner)); }
    if src.chance(1, 6) { bank.edit_mint(&p.mint_a, |m| m.mint_authority = COption::Some(*owner)); }
    if src.chance(1, 8) { bank.edit_tok(&p.dest, |t| t.delegate = COption::Some(*owner)); }
}
fn judge(wrong: &[u32], out: &Out, before: &Bank, after: &Bank, p: &Pool, show: &str, ctx: &mut Ctx) -> R {
    if let Out::Panic(m) = out { bad!("panic", "aborted: {m}; {show}"); }
    if wrong.is_empty() {
        ctx.label("conforming");
        ensure!(out.ok(), "refused", "a conforming pool was refused with {out:?}: {show}");
        ensure!(stored_as(&after.accs[&p.swap].data, &state_of(p)), "state", "the stored state is not what was asked for: {show}");
    } else {
        ctx.label(if wrong.len() > 1 { "several" } else { match wrong[0] { code::OWNER => "owner", code::FEE => "fees", _ => "curve" } });
        ensure!(out.custom().map_or(false, |c| wrong.contains(&c)), "accepted", "expected one of the errors {wrong:?}, got {out:?}: {show}");
        ensure!(after.accs == before.accs, "changed", "a refused initialisation changed an account: {show}");
    }
    Ok(())
}
/// the owner the production build under test was compiled for
#[cfg(feature = "prod")]
pub fn prod_owner() -> Pubkey { env!("SWAP_PROGRAM_OWNER_FEE_ADDRESS").parse().unwrap() }
#[cfg(feature = "prod")]
fn production(src: &mut Src, ctx: &mut Ctx) -> R {
    let min = FeeSet { t: (0, 10_000), o: (5, 10_000), w: (0, 0), h: (20, 100) };
    let owner = prod_owner();
    let fees = match src.below(7) { 0 => min, 1 => FeeSet { t: near_rate(src, min.t), ..min }, 2 => FeeSet { o: near_rate(src, min.o), ..min }, 3 => FeeSet { w: near_rate(src, min.w), ..min }, 4 => FeeSet { h: near_rate(src, min.h), ..min },
        5 => FeeSet { t: (src.below(10_001), 10_000), o: (src.below(10_001), 10_000), ..min }, _ => gen_fees(src) };
    let linear = src.chance(1, 6);
    let curve = if linear { Curve::Linear(crate::props::lin::gen_lin(src)) } else { Curve::Price(1 + src.log(63)) };
    let fees = if linear { NOFEE } else { fees };
    let (a, b) = if linear { (0, 1 + src.log(60)) } else { (1 + src.log(60), src.log(60)) };
    let mut bank = Bank::new();
    let salt = gen_salt(src);
    let (fee_owner, dest_owner) = owners(src, &owner, salt);
    let mut p = fresh(&mut bank, salt, curve, fees, a, b, fee_owner, dest_owner);
    decorate(src, &mut bank, &mut p, &owner);
    let mut wrong: Vec<u32> = vec![];
    if fee_owner != owner { wrong.push(code::OWNER); }
    if fee_owner == p.auth { wrong.push(code::OUT_OWNER); }
    if linear { wrong.push(code::CURVE_TYPE); }
    if !meets(&fees, &min) || !fees.valid() { wrong.push(code::FEE); }
    let before = bank.clone();
    // through the entry point, where the built-in constraints apply
    let out = run_init(&mut bank, &p, &init_metas(&p));
    let show = format!("production build: {curve:?} {fees:?}, fee account of {}", if fee_owner == owner { "the owner" } else { "someone else" });
    ctx.note(|| format!("{show} -> {out:?}"));
    ctx.nontrivial(&(curve, fees, fee_owner == owner));
    judge(&wrong, &out, &before, &bank, &p, &show, ctx)
}
/// the same constraint set for every curve, processor level
#[cfg(feature = "prod")]
fn production_set(src: &mut Src, ctx: &mut Ctx) -> R {
    let cons = token_bonding_curve::constraints::SWAP_CONSTRAINTS;
    let min = FeeSet { t: (0, 10_000), o: (5, 10_000), w: (0, 0), h: (20, 100) };
    let owner = prod_owner();
    let (curve, a, b) = good_curve(src);
    let fees = match src.below(3) { 0 => min, 1 => FeeSet { t: (src.below(10_000), 10_000), o: (5 + src.below(9_995), 10_000), ..min }, _ => FeeSet { t: near_rate(src, min.t), o: near_rate(src, min.o), w: near_rate(src, min.w), h: near_rate(src, min.h) } };
    let mut bank = Bank::new();
    let salt = gen_salt(src);
    let (fee_owner, dest_owner) = owners(src, &owner, salt);
    let mut p = fresh(&mut bank, salt, curve, fees, a, b, fee_owner, dest_owner);
    decorate(src, &mut bank, &mut p, &owner);
    let mut wrong: Vec<u32> = vec![];
    if fee_owner != owner { wrong.push(code::OWNER); }
    if fee_owner == p.auth { wrong.push(code::OUT_OWNER); }
    if !matches!(curve, Curve::Product | Curve::Price(_)) { wrong.push(code::CURVE_TYPE); }
    if !meets(&fees, &min) || !fees.valid() { wrong.push(code::FEE); }
    let before = bank.clone();
    ensure!(cons.is_some(), "none", "the production build imposes no constraints");
    let out = run_init_direct(&mut bank, &p, &init_metas(&p), &cons);
    let show = format!("production constraints: {curve:?} {fees:?}, fee account of {}", if fee_owner == owner { "the owner" } else { "someone else" });
    ctx.note(|| format!("{show} -> {out:?}"));
    ctx.nontrivial(&(curve, fees, fee_owner == owner));
    judge(&wrong, &out, &before, &bank, &p, &show, ctx)
}

// ------------------------------------------------------------ P24
/// the request of an entry point, and the same request made directly
fn dispatch(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut w = match gen_world(src, &Setup { curves: [3, 3, 2, 2, 3], fees: true, max_bits: 60 }) { Some(w) => w, None => { ctx.label("no-pool"); return Ok(()) } };
    { let s = w.snap(); let f = w.users[if s.ul[0] >= s.ul[1] { 0 } else { 1 }].lp; for i in 0..NU { let t = w.users[i].lp; w.bank.outside_transfer(&f, &t, s.supply / 12); } }
    let init = src.chance(1, 4);
    let (metas, data, name, op, q);
    if init {
        let (c2, a2, b2) = { let mut x = good_curve(src); let mut n = 0; while !matches!(x.0, Curve::Price(_) | Curve::Linear(_)) && n < 20 { x = good_curve(src); n += 1; } x };
        if !matches!(c2, Curve::Price(_) | Curve::Linear(_)) { ctx.label("no-init"); return Ok(()); }
        let f2 = if c2.is_linear() { NOFEE } else { gen_fees(src) };
        let p2 = fresh(&mut w.bank, 7000, c2, f2, a2, b2, w.users[3].key, w.users[2].key);
        metas = init_metas(&p2);
        let mut args = p2.fees.list().to_vec();
        name = match c2 { Curve::Price(x) => { args.push(x); "initialize_constant_price" } Curve::Linear(l) => { args = vec![l.sn, l.sd, l.pn, l.pd]; "initialize_linear_price" } _ => unreachable!() };
        data = ix_data(name, &args);
        op = None;
        q = Some(p2);
    } else {
        let o = { let limits = src.below(2) == 0; gen_op(src, &w, &Mix { limits, donate: 0, burn: 0, host: false, swap: 4, ..MIX }) };
        metas = w.metas(&o);
        data = w.data(&o);
        name = match o { Op::Swap { .. } => "swap", Op::DepAll { .. } => "deposit_all_token_types", Op::WdAll { .. } => "withdraw_all_token_types", Op::Dep1 { .. } => "deposit_single_token_type_exact_amount_in", _ => "withdraw_single_token_type_exact_amount_out" };
        op = Some(o);
        q = None;
    }
    let (mut b1, mut b2) = (w.bank.clone(), w.bank.clone());
    let o1 = b1.exec(&PID, &metas, |id, ac| token_bonding_curve::entry(id, ac, &data));
    let o2 = match (&op, &q) { (Some(o), _) => crate::props::acct::direct(&mut b2, o, &metas), (_, Some(p2)) => run_init_direct(&mut b2, p2, &metas, &None), _ => unreachable!() };
    ctx.note(|| format!("{name} {op:?} on {:?} -> {o1:?}", w.pool.curve));
    ctx.nontrivial(&(name, data.clone(), w.pool.curve, w.snap()));
    ctx.label(name);
    ctx.label(if o1.ok() { "accepted" } else { "refused" });
    ensure!(o1 == o2, "outcome", "{name} {op:?} {q:?} on {:?}: the instruction gave {o1:?}, the request itself {o2:?}", w.pool.curve);
    ensure!(b1.accs == b2.accs, "effect", "{name} {op:?} {q:?} on {:?}: the instruction and the request have different effects", w.pool.curve);
    // not an instruction
    let mut d = data.clone();
    let mut mm = metas.clone();
    let mut prog = PID;
    let what = match src.below(7) {
        0 => { let n = src.usize(d.len()); d.truncate(n); "arguments cut off" }
        1 => { let i = src.usize(8); d[i] ^= 1 + src.below(255) as u8; "another tag" }
        2 => { for b in d.iter_mut().take(8) { *b = src.word() as u8; } "a random tag" }
        3 => { d = vec![]; "no data" }
        4 => { let n = src.usize(mm.len()); mm.truncate(n); "accounts missing" }
        5 => {
            // the tag of the native interface this program was derived from
            let mut v = vec![src.below(6) as u8]; v.extend_from_slice(&d[8..]); d = v; "a one-byte tag"
        }
        _ => { prog = key("deployed elsewhere", 0); "another program id" }
    };
    let mut b3 = w.bank.clone();
    // as another program, the pool's accounts are that program's
    if prog != PID { for a in b3.accs.values_mut() { if a.owner == PID { a.owner = prog; } } }
    let before = b3.clone();
    let o3 = b3.exec(&prog, &mm, |id, ac| token_bonding_curve::entry(id, ac, &d));
    ctx.label(what);
    if let Out::Panic(m) = &o3 { bad!("panic", "{what}: {name} aborted: {m}"); }
    ensure!(!o3.ok(), "malformed", "{what}: {name} {op:?} was accepted");
    ensure!(b3.accs == before.accs, "malformed-effect", "{what}: {name} changed an account");
    // and the flags an instruction insists on
    if let Some(o) = &op {
        w.wide = false;
        let mut mm = w.metas(o);
        let wr: Vec<usize> = (0..mm.len()).filter(|i| mm[*i].writable).collect();
        let i = *src.pick(&wr);
        mm[i].writable = false;
        if mm.iter().filter(|m| m.key == mm[i].key && m.writable).count() == 0 && !(matches!(o, Op::Dep1 { .. } | Op::Wd1 { .. }) && (metas[i].key == w.pool.a || metas[i].key == w.pool.b)) {
            let mut b4 = w.bank.clone();
            let o4 = b4.exec(&PID, &mm, |id, ac| token_bonding_curve::entry(id, ac, &data));
            ctx.label("read-only account");
            ensure!(!o4.ok(), "read-only", "{name} {op:?} was accepted with account {i} read-only");
            ensure!(b4.accs == w.bank.accs, "read-only-effect", "{name} changed an account");
        }
    }
    let _ = Processor::authority_id(&PID, &w.pool.swap, w.pool.bump);
    Ok(())
}

/// one stored part: written as documented, read back, refused in any other size
fn part<T: solana_program::program_pack::Pack + solana_program::program_pack::IsInitialized + PartialEq + std::fmt::Debug + Clone>(src: &mut Src, x: &T, bytes: &[u8]) -> Result<&'static str, Failure> {
    let p = |m: String| Failure { sig: "panic".into(), msg: format!("aborted: {m}; {x:?}") };
    ensure!(T::LEN == bytes.len() && T::get_packed_len() == bytes.len(), "length", "{x:?} is stored in {} bytes, documented {}", T::LEN, bytes.len());
    let fill = src.word() as u8;
    let mut buf = vec![fill; bytes.len()];
    let r = guard(|| T::pack(x.clone(), &mut buf)).map_err(p)?;
    ensure!(r.is_ok() && buf == bytes, "pack", "{x:?} is written as {buf:?} ({r:?}), documented {bytes:?}");
    ensure!(x.is_initialized(), "initialised", "{x:?} counts as uninitialised");
    for (what, r) in [("unpack", guard(|| T::unpack(bytes)).map_err(p)?), ("unpack_unchecked", guard(|| T::unpack_unchecked(bytes)).map_err(p)?), ("unpack_from_slice", guard(|| T::unpack_from_slice(bytes)).map_err(p)?)] {
        ensure!(r.as_ref() == Ok(x), "read", "{what}: {x:?} is read back as {r:?}");
    }
    let n = match src.below(3) { 0 => src.usize(bytes.len() + 1), 1 => bytes.len() + 1 + src.usize(64), _ => return Ok("exact size") };
    if n == bytes.len() { return Ok("exact size"); }
    let mut d = bytes.to_vec();
    d.resize(n, 0);
    let (a, b) = (guard(|| T::unpack(&d).is_err()).map_err(p)?, guard(|| T::pack(x.clone(), &mut d).is_err()).map_err(p)?);
    ensure!(a, "short-read", "{x:?} is read from {n} bytes");
    ensure!(b, "short-write", "{x:?} is written into {n} bytes");
    Ok("another size")
}
fn parts(src: &mut Src, ctx: &mut Ctx) -> R {
    use solana_program::program_pack::Pack;
    use token_bonding_curve::curve::{constant_price::ConstantPriceCurve, constant_product::ConstantProductCurve, linear_price::LinearPriceCurve, offset::OffsetCurve, stable::StableCurve};
    let s = any_state(src);
    let bytes = encode(&s);
    let params = &bytes[292..292 + 8 * s.curve.params().len()];
    let l = match s.curve {
        Curve::Product => part(src, &ConstantProductCurve {}, params)?,
        Curve::Price(p) => part(src, &ConstantPriceCurve { token_b_price: p }, params)?,
        Curve::Stable(amp) => part(src, &StableCurve { amp }, params)?,
        Curve::Offset(o) => part(src, &OffsetCurve { token_b_offset: o }, params)?,
        Curve::Linear(l) => part(src, &LinearPriceCurve { slope_numerator: l.sn, slope_denominator: l.sd, initial_token_a_price_numerator: l.pn, initial_token_a_price_denominator: l.pd }, params)?,
    };
    ctx.label(l);
    part(src, &fees_of(&s.fees), &bytes[227..291])?;
    // the whole without its version, whatever its flag
    let v1 = |init: bool| SwapV1 { is_initialized: init, bump_seed: s.bump, token_program_id: s.keys[0], token_a: s.keys[1], token_b: s.keys[2], pool_mint: s.keys[3], token_a_mint: s.keys[4], token_b_mint: s.keys[5], pool_fee_account: s.keys[6],
        fees: fees_of(&s.fees), swap_curve: s.curve.real() };
    ensure!(SwapV1::LEN == LEN - 1 && SwapVersion::LATEST_LEN == LEN && SwapCurve::LEN == 33, "length", "a pool takes {} bytes", SwapVersion::LATEST_LEN);
    let back = SwapV1::unpack(&bytes[1..]);
    ensure!(if s.init { back == Ok(v1(true)) } else { back == Err(ProgramError::UninitializedAccount) }, "read", "{s:?} is read back as {back:?}");
    ensure!(SwapV1::unpack_unchecked(&bytes[1..]) == Ok(v1(s.init)), "read", "{s:?} is not read back");
    // equality is what it says
    let other = { let mut o = any_state(src); if src.below(2) == 0 { o.curve = s.curve; } o };
    let same = s.curve == other.curve;
    ensure!((s.curve.real() == other.curve.real()) == same, "equality", "{:?} and {:?}: equal is {}", s.curve, other.curve, !same);
    // every kind of curve under its documented number, and no other
    let k = src.word() as u8;
    let want = match k { 0 => Some(CurveType::ConstantProduct), 1 => Some(CurveType::ConstantPrice), 2 => Some(CurveType::Stable), 3 => Some(CurveType::Offset), 30 => Some(CurveType::LinearPrice), _ => None };
    let got = CurveType::try_from(k);
    ensure!(match want { Some(w) => got == Ok(w), None => got == Err(ProgramError::InvalidAccountData) }, "kind", "curve kind {k} is read as {got:?}");
    ensure!(SwapCurve::default() == Curve::Product.real() && CurveType::default() == CurveType::ConstantProduct, "default", "the default curve is {:?}", SwapCurve::default());
    ensure!(!SwapV1::default().is_initialized, "default", "a state is initialised by default");
    ctx.note(|| format!("{:?}, kind {k}", s.curve));
    ctx.nontrivial(&(bytes, k));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    #[allow(unused_mut)]
    let mut p23 = vec![
        Sub { name: "constraints", quick: 200_000, thorough: 10_000_000, f: constrained, what: "any constraint set: a pool is accepted exactly when fee account owner, curve type and fees conform" },
    ];
    #[cfg(feature = "prod")]
    {
        p23.push(Sub { name: "production", quick: 150_000, thorough: 8_000_000, f: production, what: "the production build's entry point: only the built-in owner, curves and fees" });
        p23.push(Sub { name: "production-set", quick: 150_000, thorough: 8_000_000, f: production_set, what: "the production build's constraint set applied to every curve" });
    }
    vec![
        Prop { id: "P16", rule: "every case: one initialisation request with none, one or two of 34 faults; key = parameters, opening balances, faults", assumptions: &[], subs: vec![
            Sub { name: "initialise", quick: 150_000, thorough: 6_000_000, f: initialise, what: "valid requests store exactly what was asked for and mint the first LP tokens; each fault is refused with the error that names it" },
        ] },
        Prop { id: "P17", rule: "a second initialisation attempt, or an accepted request; key = pool and request", assumptions: &[], subs: vec![
            Sub { name: "again", quick: 60_000, thorough: 2_500_000, f: reinit, what: "histories mixed with attempts to initialise the pool again; the stored configuration is compared byte for byte after each step" },
        ] },
        Prop { id: "P18", rule: "every case: one state written and one byte string read; key = byte string", assumptions: &[], subs: vec![
            Sub { name: "codec", quick: 400_000, thorough: 20_000_000, f: codec, what: "states and byte strings against an independent encoder and decoder of the documented layout" },
            Sub { name: "parts", quick: 150_000, thorough: 8_000_000, f: parts, what: "each stored part by itself: rates, the five curves' parameters, the state without its version; sizes, equality, defaults, curve kinds" },
        ] },
        Prop { id: "P19", rule: "a deposit on an offset curve, a deposit or withdrawal on a linear curve; key = pool, request", assumptions: &[], subs: vec![
            Sub { name: "closed", quick: 80_000, thorough: 4_000_000, f: closed, what: "requests that are otherwise in order, at any point of the pool's life, also with no LP tokens left" },
        ] },
        Prop { id: "P23", rule: "every case: one initialisation under one constraint set; key = parameters and constraints", assumptions: &["the production build is compiled for one owner address chosen by the check"], subs: p23 },
        Prop { id: "P24", rule: "every case: one instruction, its direct equivalent and one malformed variant; key = instruction data and pool", assumptions: &[], subs: vec![
            Sub { name: "dispatch", quick: 80_000, thorough: 4_000_000, f: dispatch, what: "each instruction does exactly what the request it names does when made directly; malformed ones do nothing" },
        ] },
    ]
}
