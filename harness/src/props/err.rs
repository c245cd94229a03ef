//! A refused request says why: one fault at a time in a request that would succeed.
use crate::chain::*;
use crate::engine::*;
use crate::props::acct::*;
use crate::src::Src;
use crate::world::*;
use crate::{bad, ensure};
use solana_program::program_error::ProgramError;
use spl_token::state::AccountState;
use token_bonding_curve::error::SwapError as E;

/// errors of the token program, passed through
mod tok { pub const FUNDS: u32 = 1; pub const MINT: u32 = 3; pub const OWNER: u32 = 4; pub const FROZEN: u32 = 17; }

const NO_TOKEN_ACCOUNT: u32 = u32::MAX - 1;

fn actor(op: &Op) -> usize { match *op { Op::Swap { u, .. } | Op::DepAll { u, .. } | Op::WdAll { u, .. } | Op::Dep1 { u, .. } | Op::Wd1 { u, .. } => u, _ => 0 } }
fn at(ro: &[Role], r: Role) -> Vec<usize> { (0..ro.len()).filter(|i| ro[*i] == r).collect() }

fn reasons(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut w = match gen_world(src, &ANY) { Some(w) => w, None => { ctx.label("no-pool"); return Ok(()) } };
    spread(&mut w);
    let (op, honest) = match small_op(src, &w, true) { Some(x) => x, None => { ctx.label("no-honest-op"); return Ok(()) } };
    let us = actor(&op);
    let p = w.pool.clone();
    let me = w.users[us].key;
    let ro = roles(&op);
    let mut metas = w.metas(&op);
    let mut op2 = op;
    let via_proc = src.chance(1, 3) || matches!(op, Op::Swap { host: Some(_), .. });
    let cust = |c: u32| ProgramError::Custom(c);
    let d = honest.du(us);
    let spent = |k: &solana_program::pubkey::Pubkey| -> u64 { let u = &w.users[us]; (if *k == u.a { -d.0 } else if *k == u.b { -d.1 } else { -d.2 }).max(0) as u64 };
    let skip = |ctx: &mut Ctx| { ctx.label("not-applicable"); Ok(()) };
    let (what, want): (&'static str, ProgramError) = match src.below(24) {
        0 => { let k = if src.below(2) == 0 { evil_program() } else { spl_token::ID }; w.bank.accs.get_mut(&p.swap).unwrap().owner = k; ("a state account of another program", ProgramError::IncorrectProgramId) }
        1 => {
            // cleared, or everything there but not marked as in use
            let d = &mut w.bank.accs.get_mut(&p.swap).unwrap().data;
            match src.below(3) { 0 => d.iter_mut().for_each(|b| *b = 0), 1 => d[0] = 0, _ => d[1] = 0 }
            ("a state account that was never initialised", ProgramError::UninitializedAccount) }
        2 => { metas[1].key = near(src, &p.auth); ("another authority", cust(code::ADDRESS)) }
        3 => {
            // a token account like the reserve in its place
            let i = *src.pick(&at(&ro, Role::Reserve));
            let t = w.bank.tok(&metas[i].key);
            let k = key("stray reserve", 1);
            w.bank.put_tok(k, t.mint, p.auth, t.amount);
            metas[i].key = k;
            ("another account as a reserve", cust(code::SWAP_ACC))
        }
        4 => {
            let i = match at(&ro, Role::Lp).first() { Some(i) => *i, None => return skip(ctx) };
            let m = w.bank.supply(&p.lp);
            let k = key("another lp", 1); w.bank.put_mint(k, Some(p.auth), m, None); metas[i].key = k;
            ("another mint as the LP mint", cust(code::POOL_MINT))
        }
        5 => {
            let i = match at(&ro, Role::Fee).first() { Some(i) => *i, None => return skip(ctx) };
            // the withdrawer's own account would be free of the fee
            let k = *src.pick(&[w.users[1].lp, w.users[2].lp, w.users[us].lp]);
            if k == p.fee { return skip(ctx); }
            metas[i].key = k;
            ("another fee account", cust(code::FEE_ACC))
        }
        6 => { let i = at(&ro, Role::Token)[0]; metas[i].key = evil_program(); w.bank.accs.insert(evil_program(), Acc { owner: solana_program::bpf_loader::ID, lamports: 1, data: vec![], exec: true }); ("another token program", cust(code::TOKEN_PROGRAM)) }
        7 => {
            let v: Vec<usize> = at(&ro, Role::Src).into_iter().filter(|i| w.bank.tok(&metas[*i].key).mint != p.lp).collect();
            if v.is_empty() { return skip(ctx); }
            let i = *src.pick(&v);
            metas[i].key = if w.bank.tok(&metas[i].key).mint == p.mint_a { p.a } else { p.b };
            ("the pool's reserve as the source", cust(code::INPUT))
        }
        8 => {
            let v: Vec<usize> = at(&ro, Role::Dst).into_iter().filter(|i| w.bank.tok(&metas[*i].key).mint != p.lp).collect();
            if v.is_empty() { return skip(ctx); }
            let i = *src.pick(&v);
            metas[i].key = if w.bank.tok(&metas[i].key).mint == p.mint_a { p.a } else { p.b };
            ("the pool's reserve as the destination", cust(code::INPUT))
        }
        9 => {
            if !matches!(op, Op::Swap { .. }) { return skip(ctx); }
            if src.below(2) == 0 { metas[5].key = metas[4].key } else { metas[4].key = metas[5].key }
            ("the same reserve twice", cust(code::INPUT))
        }
        10 | 11 => {
            let (pre, post) = (&honest.pre, &honest.post);
            match &mut op2 {
                Op::Swap { dir, min, .. } => *min = pre.dst(*dir) - post.dst(*dir) + 1 + src.below(3),
                Op::DepAll { max_a, max_b, .. } => if src.below(2) == 0 { *max_a = post.a - pre.a - 1 } else { *max_b = post.b - pre.b - 1 },
                Op::WdAll { min_a, min_b, .. } => if src.below(2) == 0 { *min_a = pre.a - post.a + 1 } else { *min_b = pre.b - post.b + 1 },
                Op::Dep1 { min, .. } => *min = post.supply - pre.supply + 1,
                Op::Wd1 { max, .. } => *max = (-d.2) as u64 - 1,
                _ => unreachable!(),
            }
            ("a limit that is not met", cust(code::SLIPPAGE))
        }
        12 => {
            if honest.pre.supply == 0 && !matches!(op, Op::Swap { .. }) { return skip(ctx); }
            match &mut op2 { Op::Swap { amt, .. } | Op::Dep1 { amt, .. } | Op::Wd1 { amt, .. } => *amt = 0, Op::DepAll { lp, .. } | Op::WdAll { lp, .. } => *lp = 0, _ => unreachable!() }
            ("a request for nothing", cust(code::ZERO))
        }
        13 | 14 => {
            let v: Vec<usize> = at(&ro, Role::Src).into_iter().filter(|i| spent(&metas[*i].key) > 0).collect();
            if v.is_empty() { return skip(ctx); }
            let k = metas[*src.pick(&v)].key;
            let n = spent(&k);
            let short = 1 + src.below(n);
            w.bank.edit_tok(&k, |t| t.amount = n - short);
            ("too little in the source account", cust(tok::FUNDS))
        }
        15 => {
            let v: Vec<usize> = at(&ro, Role::Src).into_iter().filter(|i| spent(&metas[*i].key) > 0).collect();
            if v.is_empty() { return skip(ctx); }
            let k = metas[*src.pick(&v)].key;
            w.bank.edit_tok(&k, |t| t.state = AccountState::Frozen);
            ("a frozen source account", cust(tok::FROZEN))
        }
        16 => {
            let o = w.stranger(src, us);
            metas[2].key = o;
            if at(&ro, Role::Src).iter().all(|i| spent(&metas[*i].key) == 0) { return skip(ctx); }
            // a delegate in the clutter may be the same passer-by only by name, never a user
            ("someone else's signature", cust(tok::OWNER))
        }
        17 => {
            let i = match op { Op::Swap { .. } => 6, _ => return skip(ctx) };
            metas[i].key = w.users[us].lp;
            ("a destination of another token", cust(tok::MINT))
        }
        18 => {
            // which side is meant is told by the user's account
            let i = match op { Op::Wd1 { .. } => 7, Op::Dep1 { .. } => 3, _ => return skip(ctx) };
            metas[i].key = w.users[(us + 1) % NU].lp;
            ("an account of neither token", cust(code::SWAP_ACC))
        }
        19 => {
            let i = match op { Op::Wd1 { .. } => 7, Op::Dep1 { .. } => 3, _ => return skip(ctx) };
            metas[i].key = p.mint_a;
            ("a mint instead of an account", cust(code::ACCOUNT))
        }
        20 => {
            let i = match op { Op::Wd1 { .. } => 7, Op::Dep1 { .. } => 3, _ => return skip(ctx) };
            let t = metas[i].key; let k = key("foreign account", 1); let x = w.bank.accs[&t].data.clone(); w.bank.put(k, evil_program(), x); metas[i].key = k;
            ("an account of another token program", cust(code::TOKEN_PROGRAM))
        }
        21 => {
            if !matches!(op, Op::Swap { host: Some(_), .. }) || honest.post.supply == honest.pre.supply { return skip(ctx); }
            match src.below(3) {
                0 => { metas[10].key = *src.pick(&[w.users[us].a, w.users[us].b, p.a]); ("a host account of another token", cust(code::POOL_MINT)) }
                1 => { metas[10].key = *src.pick(&[p.lp, p.mint_a]); ("a mint as the host's account", cust(code::ACCOUNT)) }
                _ => { metas[10].key = *src.pick(&[me, p.auth, p.swap]); ("no token account for the host", cust(NO_TOKEN_ACCOUNT)) }
            }
        }
        22 => {
            // closed curves say so before anything else
            if !p.curve.closed() { return skip(ctx); }
            op2 = if src.below(2) == 0 { Op::DepAll { u: us, lp: src.log(40), max_a: u64::MAX, max_b: u64::MAX } } else { Op::Dep1 { u: us, dir: gen_dir(src), amt: src.log(40), min: 0 } };
            metas = w.metas(&op2);
            ("a deposit on a curve without deposits", cust(code::UNSUPPORTED))
        }
        _ => {
            metas[2].signer = false;
            if via_proc && at(&ro, Role::Src).iter().all(|i| spent(&metas[*i].key) == 0) { return skip(ctx); }
            if via_proc { ("no signature", ProgramError::MissingRequiredSignature) } else { ("no signature", cust(u32::MAX)) }
        }
    };
    let mut bank = w.bank.clone();
    let out = if via_proc { direct(&mut bank, &op2, &metas) } else { let d = w.data(&op2); bank.exec(&PID, &metas, |id, ac| token_bonding_curve::entry(id, ac, &d)) };
    ctx.note(|| format!("{}; {what}; {} -> {out:?}", show(&w, &op2), if via_proc { "processor" } else { "entry" }));
    ctx.label(what);
    ctx.nontrivial(&(what, w.pool.curve, w.pool.fees, op2, honest.pre, via_proc));
    if let Out::Panic(m) = &out { bad!("panic", "aborted: {m}; {what}; {}", show(&w, &op2)); }
    ensure!(!out.ok(), "accepted", "{what}, and the request was accepted: {}", show(&w, &op2));
    ensure!(bank.accs == w.bank.accs, "changed", "{what}: a refused request changed an account: {}", show(&w, &op2));
    // a missing signature is told by the interface's own error
    // an account that is no token account at all has both the wrong owner and the wrong contents
    if want == cust(NO_TOKEN_ACCOUNT) { ensure!(out == Out::Err(cust(code::TOKEN_PROGRAM)) || out == Out::Err(cust(code::ACCOUNT)), "reason", "{what}: got {out:?}: {}", show(&w, &op2)); }
    else if want != cust(u32::MAX) { ensure!(out == Out::Err(want.clone()), "reason", "{what}: expected {want:?}, got {out:?}: {}", show(&w, &op2)); }
    Ok(())
}

/// the published numbers of the errors
const TABLE: [(E, &str); 28] = [
    (E::AlreadyInUse, "AlreadyInUse"), (E::InvalidProgramAddress, "InvalidProgramAddress"), (E::InvalidOwner, "InvalidOwner"), (E::InvalidOutputOwner, "InvalidOutputOwner"),
    (E::ExpectedMint, "ExpectedMint"), (E::ExpectedAccount, "ExpectedAccount"), (E::EmptySupply, "EmptySupply"), (E::InvalidSupply, "InvalidSupply"),
    (E::InvalidDelegate, "InvalidDelegate"), (E::InvalidInput, "InvalidInput"), (E::IncorrectSwapAccount, "IncorrectSwapAccount"), (E::IncorrectPoolMint, "IncorrectPoolMint"),
    (E::InvalidOutput, "InvalidOutput"), (E::CalculationFailure, "CalculationFailure"), (E::InvalidInstruction, "InvalidInstruction"), (E::RepeatedMint, "RepeatedMint"),
    (E::ExceededSlippage, "ExceededSlippage"), (E::InvalidCloseAuthority, "InvalidCloseAuthority"), (E::InvalidFreezeAuthority, "InvalidFreezeAuthority"), (E::IncorrectFeeAccount, "IncorrectFeeAccount"),
    (E::ZeroTradingTokens, "ZeroTradingTokens"), (E::FeeCalculationFailure, "FeeCalculationFailure"), (E::ConversionFailure, "ConversionFailure"), (E::InvalidFee, "InvalidFee"),
    (E::IncorrectTokenProgramId, "IncorrectTokenProgramId"), (E::UnsupportedCurveType, "UnsupportedCurveType"), (E::InvalidCurve, "InvalidCurve"), (E::UnsupportedCurveOperation, "UnsupportedCurveOperation"),
];
fn numbers(src: &mut Src, ctx: &mut Ctx) -> R {
    let i = src.usize(TABLE.len());
    let j = src.usize(TABLE.len());
    let (e, n) = &TABLE[i];
    ctx.note(|| format!("{n} = {i}"));
    ctx.nontrivial(&(i, j));
    ensure!(ProgramError::from(e.clone()) == ProgramError::Custom(i as u32), "number", "{n} is reported as {:?} instead of {i}", ProgramError::from(e.clone()));
    if i != j { ensure!(e.to_string() != TABLE[j].0.to_string(), "text", "{n} and {} read the same", TABLE[j].1); }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "P30", rule: "a request that succeeds as given, with one thing made wrong; key = what, curve, fees, balances, request", assumptions: &["errors of the token program are passed through as they are"], subs: vec![
        Sub { name: "reasons", quick: 400_000, thorough: 12_000_000, f: reasons, what: "one fault in a request that would succeed: refused with the error that names it, nothing changed" },
        Sub { name: "numbers", quick: 20_000, thorough: 100_000, f: numbers, what: "the number and text of every error" },
    ] }]
}
