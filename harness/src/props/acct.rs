//! Accounts: what a request may touch, what it must be given, and who must sign.
use crate::chain::*;
use crate::engine::*;
use crate::model::*;
use crate::src::Src;
use crate::world::*;
use crate::{bad, ensure};
use solana_program::program_option::COption;
use solana_program::pubkey::Pubkey;
use spl_token::state::AccountState;
use std::collections::BTreeMap;
use token_bonding_curve::processor::Processor;

pub const ANY: Setup = Setup { curves: [3, 3, 2, 2, 3], fees: true, max_bits: 60 };

/// another initialised pool over the same two tokens
pub fn sibling(w: &mut World, salt: u64, curve: Curve, fees: FeeSet, a: u64, b: u64) -> Option<Pool> {
    let o = w.users[1].key;
    let mut p = fresh(&mut w.bank, salt, curve, fees, a, b, o, o);
    let (ma, mb) = (w.pool.mint_a, w.pool.mint_b);
    w.bank.edit_tok(&p.a, |t| t.mint = ma);
    w.bank.edit_tok(&p.b, |t| t.mint = mb);
    w.bank.edit_mint(&ma, |m| m.supply += a);
    w.bank.edit_mint(&mb, |m| m.supply += b);
    p.mint_a = ma;
    p.mint_b = mb;
    let m = init_metas(&p);
    if run_init(&mut w.bank, &p, &m).ok() { Some(p) } else { None }
}
/// spread the LP tokens so that everyone can withdraw
pub fn spread(w: &mut World) {
    let s = w.snap();
    let x = s.supply / (2 * NU as u64);
    if x == 0 { return; }
    let f = w.users[if s.ul[0] >= s.ul[1] { 0 } else { 1 }].lp;
    for i in 0..NU { let t = w.users[i].lp; w.bank.outside_transfer(&f, &t, x); }
}
pub fn show(w: &World, op: &Op) -> String { let s = w.snap(); format!("{:?} {:?}; reserves {}/{} LP {}; {op:?}", w.pool.curve, w.pool.fees, s.a, s.b, s.supply) }

// ------------------------------------------------------------ P13
fn totals(b: &Bank) -> BTreeMap<Pubkey, u128> {
    let mut m = BTreeMap::new();
    for (_, a) in &b.accs {
        if a.owner == spl_token::ID && a.data.len() == 165 {
            use solana_program::program_pack::Pack;
            if let Ok(t) = spl_token::state::Account::unpack(&a.data) { *m.entry(t.mint).or_insert(0u128) += t.amount as u128; }
        }
    }
    m
}
fn confined(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut w = match gen_world(src, &ANY) { Some(w) => w, None => { ctx.label("no-pool"); return Ok(()) } };
    let c2 = gen_curve(src, &[1, 1, 1, 0, 0]);
    let _ = sibling(&mut w, 1000, c2, NOFEE, 5_000_000, 7_000_000);
    spread(&mut w);
    let mut m = MIX;
    m.limits = src.chance(1, 3);
    let n = 1 + src.below(8);
    for _ in 0..n {
        let op = gen_op(src, &w, &m);
        let before = w.bank.clone();
        let t0 = totals(&before);
        let st = w.apply(&op);
        ctx.steps += 1;
        ctx.note(|| format!("{} -> {:?}", show(&w, &op), st.out));
        if let Out::Panic(m) = &st.out { bad!("panic", "aborted: {m}; {}", show(&w, &op)); }
        if let Out::Runtime(m) = &st.out { bad!("runtime", "{m}: {}", show(&w, &op)); }
        if matches!(op, Op::Donate { .. } | Op::Burn { .. }) { continue; }
        if !st.out.ok() { ensure!(before.accs == w.bank.accs, "refused-moved", "a refused request changed accounts: {}", show(&w, &op)); ctx.label("refused"); continue; }
        // conservation: tokens move, LP tokens are minted and burned only through their mint
        let t1 = totals(&w.bank);
        for (mint, v) in &t1 {
            if *mint == w.pool.lp {
                ensure!(*v == w.bank.supply(mint) as u128, "lp-total", "LP supply {} but accounts hold {v}: {}", w.bank.supply(mint), show(&w, &op));
            } else { ensure!(t0.get(mint) == Some(v), "conservation", "the total of a token changed {:?} -> {v}: {}", t0.get(mint), show(&w, &op)); }
        }
        // confinement: which accounts, and which field of each
        let p = &w.pool;
        let mut may: Vec<Pubkey> = vec![];
        match op {
            Op::Swap { u, host, .. } => { may.extend([p.a, p.b, w.users[u].a, w.users[u].b, p.fee, p.lp]); if let Some(h) = host { may.push(w.users[h].lp) } }
            Op::DepAll { u, .. } => may.extend([p.a, p.b, w.users[u].a, w.users[u].b, p.lp, w.users[u].lp]),
            Op::WdAll { u, .. } => may.extend([p.a, p.b, w.users[u].a, w.users[u].b, p.lp, w.users[u].lp, p.fee]),
            Op::Dep1 { u, dir, .. } => may.extend([w.reserve(dir), w.side(u, dir), p.lp, w.users[u].lp]),
            Op::Wd1 { u, dir, .. } => may.extend([w.reserve(dir), w.side(u, dir), p.lp, w.users[u].lp, p.fee]),
            _ => {}
        }
        let mut after = w.bank.clone();
        for k in &may {
            if *k == p.lp { let s = before.supply(k); after.edit_mint(k, |m| m.supply = s); } else { let a = before.amt(k); after.edit_tok(k, |t| t.amount = a); }
        }
        for (k, a) in &before.accs {
            ensure!(after.accs.get(k) == Some(a), "confinement", "{} account {k} changed: {}", if *k == p.swap { "the pool state" } else if may.contains(k) { "more than the amount of" } else { "an unrelated" }, show(&w, &op));
        }
        ensure!(after.accs.len() == before.accs.len(), "created", "an account appeared");
        // the trader's counterparty is the pool and nobody else
        let u_ = match op { Op::Swap { u, .. } | Op::DepAll { u, .. } | Op::WdAll { u, .. } | Op::Dep1 { u, .. } | Op::Wd1 { u, .. } => u, _ => unreachable!() };
        let d = st.du(u_);
        ensure!(d.0 == st.pre.a as i128 - st.post.a as i128 && d.1 == st.pre.b as i128 - st.post.b as i128, "counterparty", "user moved {d:?} but the reserves {}/{} -> {}/{}", st.pre.a, st.pre.b, st.post.a, st.post.b);
        // and each request moves value the way it says
        let ok = match op {
            Op::Swap { dir: Dir::AtoB, .. } => d.0 <= 0 && d.1 >= 0,
            Op::Swap { .. } => d.0 >= 0 && d.1 <= 0,
            Op::DepAll { .. } | Op::Dep1 { .. } => d.0 <= 0 && d.1 <= 0 && d.2 >= 0,
            _ => d.0 >= 0 && d.1 >= 0 && d.2 <= 0,
        };
        ensure!(ok, "direction", "balances moved {d:?} in {}", show(&w, &op));
        ctx.label(match op { Op::Swap { host: Some(_), .. } => "swap-host", Op::Swap { .. } => "swap", Op::DepAll { .. } => "deposit-both", Op::WdAll { .. } => "withdraw-both", Op::Dep1 { .. } => "deposit-one", _ => "withdraw-one" });
        ctx.nontrivial(&(w.pool.curve, st.pre, op));
    }
    Ok(())
}

// ------------------------------------------------------------ P14
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Role { Swap, Auth, User, Src, Dst, Reserve, Lp, Fee, Token, Host }
pub fn roles(op: &Op) -> Vec<Role> {
    use Role::*;
    match op {
        Op::Swap { host, .. } => { let mut v = vec![Swap, Auth, User, Src, Reserve, Reserve, Dst, Lp, Fee, Token]; if host.is_some() { v.push(Host) } v }
        Op::DepAll { .. } => vec![Swap, Auth, User, Src, Src, Reserve, Reserve, Lp, Dst, Token],
        Op::WdAll { .. } => vec![Swap, Auth, User, Lp, Src, Reserve, Reserve, Dst, Dst, Fee, Token],
        Op::Dep1 { .. } => vec![Swap, Auth, User, Src, Reserve, Reserve, Lp, Dst, Token],
        Op::Wd1 { .. } => vec![Swap, Auth, User, Lp, Src, Reserve, Reserve, Dst, Fee, Token],
        _ => vec![],
    }
}
/// the same request, straight into the processor
pub fn direct(bank: &mut Bank, op: &Op, metas: &[Meta]) -> Out {
    bank.exec(&PID, metas, |id, ac| match *op {
        Op::Swap { amt, min, .. } => Processor::process_swap(id, amt, min, ac),
        Op::DepAll { lp, max_a, max_b, .. } => Processor::process_deposit_all_token_types(id, lp, max_a, max_b, ac),
        Op::WdAll { lp, min_a, min_b, .. } => Processor::process_withdraw_all_token_types(id, lp, min_a, min_b, ac),
        Op::Dep1 { amt, min, .. } => Processor::process_deposit_single_token_type_exact_amount_in(id, amt, min, ac),
        Op::Wd1 { amt, max, .. } => Processor::process_withdraw_single_token_type_exact_amount_out(id, amt, max, ac),
        _ => unreachable!(),
    })
}
pub fn evil_program() -> Pubkey { key("evil program", 0) }
/// accounts an attacker could bring
fn props_for_attack(src: &mut Src, w: &mut World, sib: &Option<Pool>, u: usize) -> Vec<(&'static str, Pubkey)> {
    let p = w.pool.clone();
    let me = w.users[u].key;
    let state = w.bank.accs[&p.swap].data.clone();
    let mut v: Vec<(&'static str, Pubkey)> = vec![];
    let mut add = |n: &'static str, k: Pubkey| v.push((n, k));
    // forged states
    let k = key("state copy", 0); w.bank.put(k, PID, state.clone()); add("copy of the pool state", k);
    let k = key("state copy evil", 0); w.bank.put(k, evil_program(), state); add("copy of the pool state in another program's account", k);
    let k = key("blank", 0); w.bank.put(k, PID, vec![0; 324]); add("blank state", k);
    // token accounts
    let k = key("stray a", 0); w.bank.put_tok(k, p.mint_a, p.auth, 1 << 60); add("stray A account of the pool authority", k);
    let k = key("stray b", 0); w.bank.put_tok(k, p.mint_b, p.auth, 1 << 60); add("stray B account of the pool authority", k);
    let k = key("stray lp", 0); w.bank.put_tok(k, p.lp, p.auth, 1 << 40); add("stray LP account of the pool authority", k);
    let k = key("my a", 0); w.bank.put_tok(k, p.mint_a, me, 1 << 60); add("second A account of the user", k);
    let k = key("my b", 0); w.bank.put_tok(k, p.mint_b, me, 1 << 60); add("second B account of the user", k);
    let k = key("my lp", 0); w.bank.put_tok(k, p.lp, me, 1 << 40); add("second LP account of the user", k);
    // mints
    let k = key("fake lp", 0); w.bank.put_mint(k, Some(p.auth), 10, None); add("another mint of the pool authority", k);
    let fl = k;
    let k = key("my fake lp", 0); w.bank.put_tok(k, fl, me, 10); add("the user's tokens of another mint", k);
    let k = key("forged lp", 0); w.bank.put_mint(k, Some(me), 10, None); w.bank.accs.get_mut(&k).unwrap().owner = evil_program(); add("mint of another token program", k);
    let k = key("forged a", 0); w.bank.put_tok(k, p.mint_a, p.auth, 1 << 62); w.bank.accs.get_mut(&k).unwrap().owner = evil_program(); add("A account of another token program", k);
    // near misses: perfect copies at addresses that differ in one byte
    let k = near(src, &p.a); let x = w.bank.accs[&p.a].data.clone(); w.bank.put(k, spl_token::ID, x); add("copy of reserve A at an address like it", k);
    let k = near(src, &p.b); let x = w.bank.accs[&p.b].data.clone(); w.bank.put(k, spl_token::ID, x); add("copy of reserve B at an address like it", k);
    let k = near(src, &p.lp); let x = w.bank.accs[&p.lp].data.clone(); w.bank.put(k, spl_token::ID, x); add("copy of the LP mint at an address like it", k);
    let k = near(src, &p.fee); let x = w.bank.accs[&p.fee].data.clone(); w.bank.put(k, spl_token::ID, x); add("copy of the fee account at an address like it", k);
    let k = near(src, &p.swap); let x = w.bank.accs[&p.swap].data.clone(); w.bank.put(k, PID, x); add("copy of the state at an address like it", k);
    add("an address like the authority", near(src, &p.auth));
    // programs
    let k = evil_program(); w.bank.accs.insert(k, Acc { owner: solana_program::bpf_loader::ID, lamports: 1, data: vec![], exec: true }); add("another program", k);
    add("nothing", key("nobody", 0));
    add("system program", solana_program::system_program::ID);
    // the pool's own accounts in the wrong place
    for (n, k) in [("pool state", p.swap), ("pool authority", p.auth), ("reserve A", p.a), ("reserve B", p.b), ("LP mint", p.lp), ("mint A", p.mint_a), ("mint B", p.mint_b), ("fee account", p.fee), ("token program", spl_token::ID)] { add(n, k); }
    for i in 0..NU { add("user A account", w.users[i].a); add("user B account", w.users[i].b); add("user LP account", w.users[i].lp); add("user key", w.users[i].key); }
    if let Some(q) = sib { for (n, k) in [("sibling state", q.swap), ("sibling authority", q.auth), ("sibling reserve A", q.a), ("sibling reserve B", q.b), ("sibling LP mint", q.lp), ("sibling fee account", q.fee)] { add(n, k); } }
    v
}
pub fn small_op(src: &mut Src, w: &World, host: bool) -> Option<(Op, Step)> {
    let m = Mix { donate: 0, burn: 0, swap: 5, host, ..MIX };
    for _ in 0..4 {
        let op = gen_op(src, w, &m);
        let st = w.try_op(&op);
        if st.out.ok() && st.pre != st.post { return Some((op, st)); }
    }
    None
}
fn substituted(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut w = match gen_world(src, &ANY) { Some(w) => w, None => { ctx.label("no-pool"); return Ok(()) } };
    let (cc, ff) = (w.pool.curve, w.pool.fees);
    let s = w.snap();
    let sib = if src.chance(1, 2) { sibling(&mut w, 1001, cc, ff, if cc.is_linear() { 0 } else { s.a.max(1).min(1 << 60) }, s.b.max(1).min(1 << 60)) } else { None };
    spread(&mut w);
    let (op, honest) = match small_op(src, &w, true) { Some(x) => x, None => { ctx.label("no-honest-op"); return Ok(()) } };
    let u_ = match op { Op::Swap { u, .. } | Op::DepAll { u, .. } | Op::WdAll { u, .. } | Op::Dep1 { u, .. } | Op::Wd1 { u, .. } => u, _ => unreachable!() };
    let me = w.users[u_].key;
    let cand = props_for_attack(src, &mut w, &sib, u_);
    let ro = roles(&op);
    let base = w.metas(&op);
    let mut metas = base.clone();
    let via_proc = src.chance(1, 3) || matches!(op, Op::Swap { host: Some(_), .. });
    // a withdrawal does not look at the account of a side that pays nothing
    let paid = honest.du(u_);
    let idle = |i: usize| matches!(op, Op::WdAll { .. }) && (i == 7 && paid.0 == 0 || i == 8 && paid.1 == 0);
    let what;
    match src.weighted(&[8, 2, 1, 1, 1]) {
        // one account replaced (one of the pool's, or one of the user's)
        0 => {
            let i = src.usize(ro.len());
            let (n, k) = *src.pick(&cand);
            if k == base[i].key || ro[i] == Role::User { ctx.label("same"); return Ok(()); }
            let t = w.bank.accs.get(&k).and_then(|a| { use solana_program::program_pack::Pack; if a.owner == spl_token::ID { spl_token::state::Account::unpack(&a.data).ok() } else { None } });
            let orig = w.bank.accs.get(&base[i].key).and_then(|a| { use solana_program::program_pack::Pack; if a.owner == spl_token::ID { spl_token::state::Account::unpack(&a.data).ok() } else { None } });
            let lp_minted = honest.post.supply > honest.pre.supply;
            // a side that pays nothing out is not used at all
            let idle = idle(i);
            let harmless = match ro[i] {
                // the user's own account of the right token
                Role::Src => t.map_or(false, |t| t.owner == me && (Some(t.mint) == orig.map(|o| o.mint) || (matches!(op, Op::Dep1 { .. }) && (t.mint == w.pool.mint_a || t.mint == w.pool.mint_b)))),
                // any account of the right token that is not the reserve
                Role::Dst => t.map_or(false, |t| k != w.pool.a && k != w.pool.b && (Some(t.mint) == orig.map(|o| o.mint) || (matches!(op, Op::Wd1 { .. }) && (t.mint == w.pool.mint_a || t.mint == w.pool.mint_b)))),
                Role::Host => !lp_minted || t.map_or(false, |t| t.mint == w.pool.lp),
                _ => false,
            };
            if harmless || idle { ctx.label("harmless"); return Ok(()); }
            metas[i].key = k;
            what = format!("{:?} (account {i}) replaced by {n}", ro[i]);
            ctx.label(match ro[i] { Role::Swap => "state", Role::Auth => "authority", Role::Src => "source", Role::Dst => "destination", Role::Reserve => "reserve", Role::Lp => "lp-mint", Role::Fee => "fee-account", Role::Token => "token-program", Role::Host => "host", Role::User => "user" });
        }
        // two of the pool's accounts exchanged
        1 => {
            let idx: Vec<usize> = (0..ro.len()).filter(|i| !matches!(ro[*i], Role::User | Role::Src | Role::Dst | Role::Host)).collect();
            let (i, j) = (*src.pick(&idx), *src.pick(&idx));
            if base[i].key == base[j].key { ctx.label("same"); return Ok(()); }
            let t = metas[i].key; metas[i].key = metas[j].key; metas[j].key = t;
            what = format!("accounts {i} ({:?}) and {j} ({:?}) exchanged", ro[i], ro[j]);
            ctx.label("exchanged");
        }
        // a few of the pool's accounts taken from the sibling
        2 => {
            let q = match &sib { Some(q) => q.clone(), None => { ctx.label("no-sibling"); return Ok(()) } };
            let p = &w.pool;
            let map: Vec<(Pubkey, Pubkey)> = vec![(p.swap, q.swap), (p.auth, q.auth), (p.a, q.a), (p.b, q.b), (p.lp, q.lp), (p.fee, q.fee)];
            let mask = 1 + src.below(62); // never all six
            let mut n = 0;
            let mut kept = 0;
            for i in 0..metas.len() {
                if matches!(ro[i], Role::Src | Role::Dst | Role::User | Role::Host | Role::Token) { continue; }
                if let Some(x) = map.iter().position(|m| m.0 == base[i].key) { if mask >> x & 1 == 1 { metas[i].key = map[x].1; n += 1; } else { kept += 1; } }
            }
            if n == 0 || kept == 0 { ctx.label("same"); return Ok(()); }
            what = format!("sibling's accounts mixed in (mask {mask:06b})");
            ctx.label("mixed");
        }
        // accounts left out
        3 => {
            let min = if matches!(op, Op::Swap { host: Some(_), .. }) { 10 } else { base.len() };
            let keep = src.usize(min);
            metas.truncate(keep);
            what = format!("only the first {keep} accounts given");
            ctx.label("missing");
        }
        // the pool pays itself: its own reserve as the user's side, its own authority as the user
        _ => {
            let idx: Vec<usize> = (0..ro.len()).filter(|i| matches!(ro[*i], Role::Src | Role::Dst)).collect();
            let i = *src.pick(&idx);
            let orig = w.bank.tok(&base[i].key).mint;
            if orig == w.pool.lp || idle(i) { ctx.label("same"); return Ok(()); }
            metas[i].key = if orig == w.pool.mint_a { w.pool.a } else { w.pool.b };
            if ro[i] == Role::Src {
                metas[2] = Meta { key: w.pool.auth, signer: false, writable: false };
                // a deposit of both sides, both out of the pool's own pocket
                for j in idx.iter().filter(|j| ro[**j] == Role::Src && **j != i) {
                    let m = w.bank.tok(&base[*j].key).mint;
                    let stray = key(if m == w.pool.mint_a { "stray a" } else { "stray b" }, 0);
                    match src.below(4) { 0 => {} 1 => metas[*j].key = stray, _ => metas[*j].key = if m == w.pool.mint_a { w.pool.a } else { w.pool.b } }
                }
            }
            what = format!("{:?} (account {i}) is the pool's own reserve", ro[i]);
            ctx.label("self");
        }
    }
    let mut bank = w.bank.clone();
    let out = if via_proc { direct(&mut bank, &op, &metas) } else { let d = w.data(&op); bank.exec(&PID, &metas, |id, ac| token_bonding_curve::entry(id, ac, &d)) };
    ctx.note(|| format!("{}; {what}; {} -> {out:?}", show(&w, &op), if via_proc { "processor" } else { "entry" }));
    ctx.nontrivial(&(w.pool.curve.type_byte(), op, what.as_str(), via_proc));
    if let Out::Panic(m) = &out { bad!("panic", "aborted: {m}; {what}; {}", show(&w, &op)); }
    ensure!(!out.ok(), "accepted", "{what}, and the request was accepted: {}", show(&w, &op));
    ensure!(bank.fake_calls == 0, "fake-call", "another program was called");
    Ok(())
}

/// a complete pool whose state the program does not own, is not initialised, or is of another version
fn forged(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut w = match gen_world(src, &ANY) { Some(w) => w, None => { ctx.label("no-pool"); return Ok(()) } };
    spread(&mut w);
    let (op, _) = match small_op(src, &w, true) { Some(x) => x, None => { ctx.label("no-honest-op"); return Ok(()) } };
    let via_proc = src.chance(1, 2) || matches!(op, Op::Swap { host: Some(_), .. });
    let sw = w.pool.swap;
    let a = w.bank.accs.get_mut(&sw).unwrap();
    let what = match src.below(6) {
        0 => { a.owner = evil_program(); "state owned by another program" }
        1 => { a.owner = solana_program::system_program::ID; "state owned by the system program" }
        2 => { a.data = vec![0; 324]; "state never initialised" }
        3 => { a.data[1] = 0; "state marked uninitialised" }
        4 => { a.data[0] = (2 + src.below(254)) as u8; "state of another version" }
        _ => { let n = src.usize(324); a.data.truncate(n); "state truncated" }
    };
    let metas = w.metas(&op);
    let mut bank = w.bank.clone();
    let out = if via_proc { direct(&mut bank, &op, &metas) } else { let d = w.data(&op); bank.exec(&PID, &metas, |id, ac| token_bonding_curve::entry(id, ac, &d)) };
    ctx.note(|| format!("{what}; {op:?} -> {out:?}"));
    ctx.label(what);
    ctx.nontrivial(&(what, op, w.pool.curve.type_byte()));
    if let Out::Panic(m) = &out { bad!("panic", "aborted: {m}; {what}; {op:?}"); }
    ensure!(!out.ok(), "accepted", "{what}, and the request was accepted: {op:?} on {:?}", w.pool.curve);
    Ok(())
}

// ------------------------------------------------------------ P15
fn signer(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut w = match gen_world(src, &ANY) { Some(w) => w, None => { ctx.label("no-pool"); return Ok(()) } };
    spread(&mut w);
    let (op, honest) = match small_op(src, &w, false) { Some(x) => x, None => { ctx.label("no-honest-op"); return Ok(()) } };
    let u_ = match op { Op::Swap { u, .. } | Op::DepAll { u, .. } | Op::WdAll { u, .. } | Op::Dep1 { u, .. } | Op::Wd1 { u, .. } => u, _ => unreachable!() };
    let ro = roles(&op);
    let mut metas = w.metas(&op);
    let srcs: Vec<usize> = (0..ro.len()).filter(|i| ro[*i] == Role::Src).collect();
    // what each source account must give up
    let need: Vec<u64> = srcs.iter().map(|i| {
        let k = metas[*i].key;
        let d = honest.du(u_);
        (if k == w.users[u_].a { -d.0 } else if k == w.users[u_].b { -d.1 } else { -d.2 }) as u64
    }).collect();
    if need.iter().all(|n| *n == 0) { ctx.label("nothing-given"); return Ok(()); }
    let other = w.stranger(src, u_);
    let mut expect_ok = false;
    let mut left: Vec<u64> = vec![];
    let what = match src.below(8) {
        0 => { metas[2].signer = false; "the user did not sign" }
        1 => { metas[2].key = other; "someone else signed" }
        2 => { metas[2] = r(w.pool.auth); "the pool authority named, unsigned" }
        3 => {
            // the pool's authority never spends what it happens to own
            metas[2] = r(w.pool.auth);
            let auth = w.pool.auth;
            for i in &srcs { let k = metas[*i].key; w.bank.edit_tok(&k, |t| t.owner = auth); }
            "the pool authority's own tokens, unsigned"
        }
        4 => {
            // a delegate with enough allowance may act
            metas[2].key = other;
            for (i, n) in srcs.iter().zip(&need) {
                let k = metas[*i].key;
                let extra = src.below(3);
                left.push(extra);
                w.bank.edit_tok(&k, |t| { t.delegate = COption::Some(other); t.delegated_amount = n + extra; });
            }
            // a withdrawal fee transfer and burn both draw on the allowance, which the sum covers
            expect_ok = true;
            "a delegate with enough allowance"
        }
        5 => {
            metas[2].key = other;
            let j = src.usize(srcs.len());
            for (x, (i, n)) in srcs.iter().zip(&need).enumerate() {
                let k = metas[*i].key;
                let short = if x == j { if *n == 0 { ctx.label("nothing-given"); return Ok(()); } 1 + src.below(*n) } else { 0 };
                w.bank.edit_tok(&k, |t| { t.delegate = COption::Some(other); t.delegated_amount = n - short; });
            }
            "a delegate with too little allowance"
        }
        6 => { let i = *src.pick(&srcs); let k = metas[i].key; w.bank.edit_tok(&k, |t| t.state = AccountState::Frozen); "a frozen source account" }
        _ => {
            let j = src.usize(srcs.len());
            if need[j] == 0 { ctx.label("nothing-given"); return Ok(()); }
            let k = metas[srcs[j]].key;
            let short = 1 + src.below(need[j]);
            let n = need[j];
            w.bank.edit_tok(&k, |t| t.amount = n - short);
            "too little in the source account"
        }
    };
    let mut bank = w.bank.clone();
    let d = w.data(&op);
    let out = bank.exec(&PID, &metas, |id, ac| token_bonding_curve::entry(id, ac, &d));
    ctx.note(|| format!("{}; {what} -> {out:?}", show(&w, &op)));
    ctx.label(what);
    ctx.nontrivial(&(what, op, w.pool.curve, honest.pre));
    if let Out::Panic(m) = &out { bad!("panic", "aborted: {m}; {what}; {}", show(&w, &op)); }
    if expect_ok {
        ensure!(out.ok(), "delegate", "{what}, yet refused with {out:?}: {}", show(&w, &op));
        for (i, l) in srcs.iter().zip(&left) {
            let t = bank.tok(&metas[*i].key);
            ensure!(t.delegated_amount == *l, "allowance", "allowance left is {} instead of {l}: {}", t.delegated_amount, show(&w, &op));
        }
    } else { ensure!(!out.ok(), "unauthorised", "{what}, and the request was accepted: {}", show(&w, &op)); }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P13", rule: "an accepted request; key = curve, all balances before it, request", assumptions: &["the token program is the real SPL token processor (3.3.0), called through a stand-in for the runtime"], subs: vec![
            Sub { name: "confined", quick: 60_000, thorough: 3_000_000, f: confined, what: "random histories: totals of every token, and every byte of every account the request may not touch" },
        ] },
        Prop { id: "P14", rule: "a request that succeeds as given, with accounts replaced, exchanged, mixed in, left out or forged; key = curve type, request, what was changed", assumptions: &[], subs: vec![
            Sub { name: "substituted", quick: 120_000, thorough: 6_000_000, f: substituted, what: "one account replaced by any of forty others, two exchanged, a sibling pool's mixed in, accounts missing, the pool's own reserve as the user's side" },
            Sub { name: "forged", quick: 40_000, thorough: 1_500_000, f: forged, what: "a consistent pool whose state account is foreign, blank, truncated or of another version" },
        ] },
        Prop { id: "P15", rule: "a request that succeeds as given, with the authority or allowance changed; key = change, request, pool", assumptions: &[], subs: vec![
            Sub { name: "signer", quick: 120_000, thorough: 5_000_000, f: signer, what: "unsigned, signed by another, the pool authority as user, delegates with and without enough allowance, frozen and short accounts" },
        ] },
    ]
}
