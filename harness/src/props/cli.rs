//! The bundled TypeScript client against the program: what it reads from a pool's
//! account, how it encodes numbers, and the accounts and arguments of the requests it builds.
//! The client's own source runs under node, with stand-ins for the three libraries it uses.
use crate::chain::*;
use crate::engine::*;
use crate::model::Dir;
use crate::props::acct::{small_op, spread};
use crate::props::init::good_curve;
use crate::src::Src;
use crate::world::*;
use crate::{bad, ensure};
use serde_json::{json, Value};
use solana_program::pubkey::Pubkey;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Node { child: Child, tx: ChildStdin, rx: BufReader<ChildStdout> }
impl Drop for Node { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }
thread_local! { static NODE: RefCell<Option<Node>> = RefCell::new(None); }
fn start() -> Node {
    let js = std::env::var("VERIF_CLIENT").unwrap_or_else(|_| format!("{}/target/client.cjs", verif_dir()));
    let mut child = Command::new("node").arg(js).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("node");
    let tx = child.stdin.take().unwrap();
    let rx = BufReader::new(child.stdout.take().unwrap());
    Node { child, tx, rx }
}
fn ask(q: Value) -> Value {
    NODE.with(|n| {
        let mut n = n.borrow_mut();
        let node = n.get_or_insert_with(start);
        writeln!(node.tx, "{q}").and_then(|_| node.tx.flush()).unwrap_or_else(|e| { eprintln!("ERROR: the client runner is gone: {e}"); std::process::exit(3) });
        let mut l = String::new();
        node.rx.read_line(&mut l).ok();
        serde_json::from_str(&l).unwrap_or_else(|_| { eprintln!("ERROR: the client runner gave no answer to {q}: {l:?}"); std::process::exit(3) })
    })
}
fn hx(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
fn unhx(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect() }
fn kx(k: &Pubkey) -> String { hx(&k.to_bytes()) }
fn unkx(v: &Value) -> Pubkey { let b = unhx(v.as_str().unwrap_or("")); let mut a = [0; 32]; if b.len() == 32 { a.copy_from_slice(&b); } Pubkey::new_from_array(a) }

// ------------------------------------------------------------ numbers
fn numbers(src: &mut Src, ctx: &mut Ctx) -> R {
    if src.chance(1, 5) {
        let n = src.any64();
        let r = ask(json!({ "do": "bytes", "b": hx(&n.to_le_bytes()) }));
        ctx.note(|| format!("bytes of {n}: {r}"));
        ctx.label("bytes");
        ctx.nontrivial(&("bytes", n));
        ensure!(r["n"] == n.to_string(), "number", "the 8 bytes of {n} are read as {r}");
        return Ok(());
    }
    let big = src.chance(1, 8);
    let n: u128 = if big { (1u128 << 64) + (src.any64() as u128) * (1 + src.below(1 << 20) as u128) } else { src.any64() as u128 };
    let r = ask(json!({ "do": "number", "n": n.to_string() }));
    ctx.note(|| format!("{n}: {r}"));
    ctx.nontrivial(&n);
    if big { ctx.label("too-large"); ensure!(r.get("error").is_some(), "too-large", "{n} does not fit 8 bytes, yet is encoded as {r}"); }
    else {
        ctx.label("number");
        ensure!(r["bytes"] == hx(&(n as u64).to_le_bytes()), "number", "{n} is encoded as {r}");
        ensure!(r["back"] == n.to_string(), "number", "{n} comes back as {r}");
    }
    Ok(())
}

// ------------------------------------------------------------ reading
fn query(w: &World) -> Value {
    let p = &w.pool;
    let a = &w.bank.accs[&p.swap];
    json!({ "account": hx(&a.data), "owner": kx(&a.owner), "program": kx(&PID), "swap": kx(&p.swap), "auth": kx(&p.auth), "payer": kx(&key("payer", 1)) })
}
fn with(mut q: Value, more: Value) -> Value { for (k, v) in more.as_object().unwrap() { q[k] = v.clone(); } q }
const FEE_FIELDS: [&str; 8] = ["tradeFeeNumerator", "tradeFeeDenominator", "ownerTradeFeeNumerator", "ownerTradeFeeDenominator", "ownerWithdrawFeeNumerator", "ownerWithdrawFeeDenominator", "hostFeeNumerator", "hostFeeDenominator"];
fn judge_fields(p: &Pool, r: &Value, show: &str) -> R {
    for (k, v) in [("tokenSwap", p.swap), ("swapProgramId", PID), ("tokenProgramId", spl_token::ID), ("poolToken", p.lp), ("feeAccount", p.fee), ("authority", p.auth), ("tokenAccountA", p.a), ("tokenAccountB", p.b), ("mintA", p.mint_a), ("mintB", p.mint_b)] {
        ensure!(r[k] == kx(&v), "field", "the client takes {k} to be {} instead of {}: {show}", r[k], kx(&v));
    }
    for (k, v) in FEE_FIELDS.iter().zip(p.fees.list()) { ensure!(r[*k] == v.to_string(), "field", "the client takes {k} to be {} instead of {v}: {show}", r[*k]); }
    ensure!(r["curveType"] == p.curve.type_byte().to_string(), "field", "the client takes the curve type to be {} instead of {}: {show}", r["curveType"], p.curve.type_byte());
    Ok(())
}
fn reading(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut w = match gen_world(src, &crate::props::acct::ANY) { Some(w) => w, None => { ctx.label("no-pool"); return Ok(()) } };
    let show = format!("{:?} {:?}", w.pool.curve, w.pool.fees);
    let p = w.pool.clone();
    if src.chance(1, 4) {
        let mut q = query(&w);
        let what = match src.below(4) {
            0 => { let k = near(src, &PID); w.bank.accs.get_mut(&p.swap).unwrap().owner = k; q = query(&w); "an account of another program" }
            1 => { q["account"] = Value::Null; "no account" }
            2 => { w.bank.accs.get_mut(&p.swap).unwrap().data[1] = 0; q = query(&w); "a pool not initialised" }
            _ => { let n = src.usize(324); w.bank.accs.get_mut(&p.swap).unwrap().data.truncate(n); q = query(&w); "an account too short" }
        };
        let r = ask(with(q, json!({ "do": "load" })));
        ctx.note(|| format!("{show}; {what}: {r}"));
        ctx.label(what);
        ctx.nontrivial(&(what, p.curve, p.fees));
        ensure!(r.get("error").is_some(), "loaded", "{what} is loaded as {r}");
        return Ok(());
    }
    let r = ask(with(query(&w), json!({ "do": "load" })));
    ctx.note(|| format!("{show}: {r}"));
    ctx.label("loaded");
    ctx.nontrivial(&(p.curve, p.fees, p.swap));
    if r.get("error").is_some() { bad!("refused", "the client does not load {show}: {r}"); }
    judge_fields(&p, &r, &show)?;
    let data = &w.bank.accs[&p.swap].data;
    let l = ask(json!({ "do": "layout", "account": hx(data) }));
    ensure!(l["span"] == 324, "span", "the client takes a pool account to have {} bytes", l["span"]);
    let f = &l["fields"];
    let mut params = vec![];
    for x in p.curve.params() { params.extend(x.to_le_bytes()); }
    let cp = unhx(f["curveParameters"].as_str().unwrap_or(""));
    ensure!(f["version"] == 1 && f["isInitialized"] == 1 && f["bumpSeed"] == p.bump, "field", "version, flag and bump are read as {}, {}, {}: {show}", f["version"], f["isInitialized"], f["bumpSeed"]);
    ensure!(cp.len() == 32 && cp[..params.len()] == params, "field", "the curve's parameters are read as {}: {show}", f["curveParameters"]);
    ensure!(l["again"] == hx(data), "field", "the layout does not give back the bytes it read: {show}");
    Ok(())
}

// ------------------------------------------------------------ requests
fn num(src: &mut Src, n: u64) -> Value { if n < 1 << 53 && src.below(2) == 0 { json!({ "num": format!("n{n}") }) } else { json!({ "num": n.to_string() }) } }
fn metas_of(ix: &Value) -> Vec<Meta> {
    ix["keys"].as_array().map(|a| a.iter().map(|m| Meta { key: unkx(&m[0]), signer: m[1] == true, writable: m[2] == true }).collect()).unwrap_or_default()
}
/// the arguments behind the instruction's tag
fn args_of(ix: &Value) -> Option<Vec<u64>> {
    let d = unhx(ix["data"].as_str()?);
    // one byte of tag, or the eight of the program's own
    let d = if d.len() % 8 == 0 { d[8.min(d.len())..].to_vec() } else { d[1..].to_vec() };
    if d.len() % 8 != 0 { return None; }
    Some(d.chunks(8).map(|c| { let mut a = [0; 8]; a.copy_from_slice(c); u64::from_le_bytes(a) }).collect())
}
fn requests(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut w = match gen_world(src, &crate::props::acct::ANY) { Some(w) => w, None => { ctx.label("no-pool"); return Ok(()) } };
    w.wide = false;
    spread(&mut w);
    let mut op = match small_op(src, &w, true) { Some((o, _)) => o, None => { ctx.label("no-op"); return Ok(()) } };
    // limits that matter, and limits that do not
    if src.chance(1, 2) {
        let x = src.any64();
        match &mut op { Op::Swap { min, .. } | Op::Dep1 { min, .. } => *min = x, Op::DepAll { max_a, max_b, .. } => { *max_a = x; *max_b = src.any64() } Op::WdAll { min_a, min_b, .. } => { *min_a = x; *min_b = src.any64() } Op::Wd1 { max, .. } => *max = x, _ => {} }
    }
    let k = |k: Pubkey| json!({ "key": kx(&k) });
    let acc = |k: Pubkey| json!({ "account": kx(&k) });
    let us = |u: usize| w.users[u].clone();
    let (u, method, args, want): (usize, &str, Vec<Value>, Vec<u64>) = match op {
        Op::Swap { u, dir, amt, min, host } => (u, "swap", vec![k(w.side(u, dir)), k(w.reserve(dir)), k(w.reserve(dir.flip())), k(w.side(u, dir.flip())), match host { Some(h) => k(w.users[h].lp), None => Value::Null }, acc(us(u).key), num(src, amt), num(src, min)], vec![amt, min]),
        Op::DepAll { u, lp, max_a, max_b } => (u, "depositAllTokenTypes", vec![k(us(u).a), k(us(u).b), k(us(u).lp), acc(us(u).key), num(src, lp), num(src, max_a), num(src, max_b)], vec![lp, max_a, max_b]),
        Op::WdAll { u, lp, min_a, min_b } => (u, "withdrawAllTokenTypes", vec![k(us(u).a), k(us(u).b), k(us(u).lp), acc(us(u).key), num(src, lp), num(src, min_a), num(src, min_b)], vec![lp, min_a, min_b]),
        Op::Dep1 { u, dir, amt, min } => (u, "depositSingleTokenTypeExactAmountIn", vec![k(w.side(u, dir)), k(us(u).lp), acc(us(u).key), num(src, amt), num(src, min)], vec![amt, min]),
        Op::Wd1 { u, dir, amt, max } => (u, "withdrawSingleTokenTypeExactAmountOut", vec![k(w.side(u, dir)), k(us(u).lp), acc(us(u).key), num(src, amt), num(src, max)], vec![amt, max]),
        _ => unreachable!(),
    };
    let r = ask(with(query(&w), json!({ "do": "call", "method": method, "args": args })));
    ctx.note(|| format!("{:?} {op:?}: {r}", w.pool.curve));
    ctx.label(match op { Op::Swap { dir: Dir::AtoB, .. } => "buy", Op::Swap { .. } => "sell", Op::DepAll { .. } => "deposit", Op::WdAll { .. } => "withdraw", Op::Dep1 { .. } => "deposit-one", _ => "withdraw-one" });
    ctx.nontrivial(&(w.pool.curve, w.pool.fees, op, w.snap()));
    if r.get("error").is_some() { bad!("refused", "the client does not build {op:?}: {r}"); }
    let ixs = r["ixs"].as_array().cloned().unwrap_or_default();
    ensure!(ixs.len() == 1 && ixs[0]["program"] == kx(&PID), "transaction", "{op:?} becomes {r}");
    ensure!(args_of(&ixs[0]) == Some(want.clone()), "arguments", "{op:?}: the arguments are {:?} instead of {want:?}", args_of(&ixs[0]));
    // every account asked to sign is among the transaction's signers
    let metas = metas_of(&ixs[0]);
    let signers: Vec<Pubkey> = r["signers"].as_array().map(|a| a.iter().map(unkx).collect()).unwrap_or_default();
    ensure!(signers.contains(&us(u).key), "signers", "{op:?}: signed by {signers:?}");
    for m in &metas { ensure!(!m.signer || signers.contains(&m.key), "signers", "{op:?}: {} is to sign, but is not asked to", m.key); }
    // the program does with the client's accounts what it does with the right ones
    let mut own = w.clone();
    let mut theirs = w.clone();
    let mm = own.metas(&op);
    let a = own.run(&op, &mm);
    let b = theirs.run(&op, &metas);
    if a.ok() { ctx.label("accepted"); }
    ensure!(a == b, "outcome", "{op:?}: {b:?} with the client's accounts, {a:?} with the right ones; {:?}", w.pool.curve);
    ensure!(own.bank.accs == theirs.bank.accs, "outcome", "{op:?}: another effect with the client's accounts than with the right ones; {:?}", w.pool.curve);
    Ok(())
}

// ------------------------------------------------------------ creation
fn creation(src: &mut Src, ctx: &mut Ctx) -> R {
    let (curve, a, b) = good_curve(src);
    let fees = if curve.is_linear() { NOFEE } else { gen_fees(src) };
    let near53 = |n: u64| n < 1 << 53;
    // rates are plain numbers in the client; the price line has more parameters than it sends
    if curve.is_linear() || !fees.list().iter().all(|n| near53(*n)) { ctx.label("not-for-the-client"); return Ok(()); }
    let mut bank = Bank::new();
    let salt = gen_salt(src);
    let p = fresh(&mut bank, salt, curve, fees, a, b, key("fee owner", salt), key("creator", salt));
    let payer = key("payer", 1);
    let param = curve.params().first().copied();
    let r = ask(json!({ "do": "create", "payer": kx(&payer), "program": kx(&PID), "keys": { "swap": kx(&p.swap), "authority": kx(&p.auth), "a": kx(&p.a), "b": kx(&p.b), "lp": kx(&p.lp), "ma": kx(&p.mint_a), "mb": kx(&p.mint_b), "fee": kx(&p.fee), "dest": kx(&p.dest), "token": kx(&spl_token::ID) },
        "fees": fees.list().to_vec(), "curve": curve.type_byte(), "param": param.map(|x| x.to_string()) }));
    let show = format!("{curve:?} {fees:?}");
    ctx.note(|| format!("{show}: {r}"));
    ctx.label("created");
    ctx.nontrivial(&(curve, fees, salt));
    if r.get("error").is_some() { bad!("refused", "the client does not create {show}: {r}"); }
    judge_fields(&p, &r["fields"], &show)?;
    let ixs = r["tx"]["ixs"].as_array().cloned().unwrap_or_default();
    ensure!(ixs.len() == 2, "transaction", "{show}: {r}");
    let c = &ixs[0];
    ensure!(c["system"] == "createAccount" && c["from"] == kx(&payer) && c["to"] == kx(&p.swap) && c["space"] == 324 && c["lamports"] == 324 * 7 && c["program"] == kx(&PID), "account", "the pool's account is created as {c}");
    let signers: Vec<Pubkey> = r["tx"]["signers"].as_array().map(|a| a.iter().map(unkx).collect()).unwrap_or_default();
    ensure!(signers.contains(&payer) && signers.contains(&p.swap), "signers", "signed by {signers:?}");
    // rates, curve and parameters follow the tag
    let d = unhx(ixs[1]["data"].as_str().unwrap_or(""));
    let mut want = vec![];
    for n in fees.list() { want.extend(n.to_le_bytes()); }
    want.push(curve.type_byte());
    let mut cp = vec![];
    for n in curve.params() { cp.extend(n.to_le_bytes()); }
    cp.resize(32, 0);
    want.extend(cp);
    ensure!(d.ends_with(&want) && [1, 8].contains(&(d.len() - want.len())), "arguments", "{show}: rates, curve and parameters are sent as {}", hx(&d));
    // a pool set up with the client's accounts is the pool set up with the right ones
    let mut metas = metas_of(&ixs[1]);
    // the transaction creates the pool's account too, which it signs for
    for m in metas.iter_mut() { if m.key == p.swap { m.signer = true; } }
    let (mut own, mut theirs) = (bank.clone(), bank.clone());
    let x = run_init_direct(&mut own, &p, &init_metas(&p), &None);
    let y = run_init_direct(&mut theirs, &p, &metas, &None);
    ensure!(x == y && own.accs == theirs.accs, "outcome", "{show}: {y:?} with the client's accounts, {x:?} with the right ones");
    if x.ok() { ctx.label("accepted"); }
    Ok(())
}

// ------------------------------------------------------------ the client's own bytes
/// a request in the client's own bytes, accounts and all, does what the program's own instruction does
fn spoken(src: &mut Src, ctx: &mut Ctx) -> R {
    if src.below(6) == 0 {
        let mut bank = Bank::new();
        let price = 1 + src.below(1000);
        let p = fresh(&mut bank, 1, Curve::Price(price), NOFEE, 1000, 1000, key("fee owner", 1), key("creator", 1));
        let r = ask(json!({ "do": "create", "payer": kx(&key("payer", 1)), "program": kx(&PID), "keys": { "swap": kx(&p.swap), "authority": kx(&p.auth), "a": kx(&p.a), "b": kx(&p.b), "lp": kx(&p.lp), "ma": kx(&p.mint_a), "mb": kx(&p.mint_b), "fee": kx(&p.fee), "dest": kx(&p.dest), "token": kx(&spl_token::ID) },
            "fees": NOFEE.list().to_vec(), "curve": 1, "param": price.to_string() }));
        let ix = &r["tx"]["ixs"][1];
        let d = unhx(ix["data"].as_str().unwrap_or(""));
        let mut metas = metas_of(ix);
        for m in metas.iter_mut() { if m.key == p.swap { m.signer = true; } }
        let (mut own, mut theirs) = (bank.clone(), bank.clone());
        let x = run_init(&mut own, &p, &init_metas(&p));
        let y = theirs.exec(&PID, &metas, |id, ac| token_bonding_curve::entry(id, ac, &d));
        ctx.note(|| format!("creation at price {price}: {} -> {y:?}", hx(&d)));
        ctx.label("creation");
        ctx.nontrivial(&("creation", price));
        ensure!(x == y && own.accs == theirs.accs, format!("tag-create-{}", tag(&d, 1 + 64 + 1 + 32)), "the program answers the client's creation of a pool with {y:?}: {}", hx(&d));
        return Ok(());
    }
    let w = match World::new(1, Curve::Product, NOFEE, 1_000_000, 1_000_000, 1 << 40) { Ok(w) => w, Err(o) => bad!("pool", "{o:?}") };
    let us = w.users[0].clone();
    let n = 10_000 + src.below(1000);
    let k = |k: Pubkey| json!({ "key": kx(&k) });
    let a = json!({ "account": kx(&us.key) });
    let v = |n: u64| json!({ "num": n.to_string() });
    let (op, method, args) = match src.below(5) {
        0 => (Op::Swap { u: 0, dir: Dir::AtoB, amt: n, min: 1, host: None }, "swap", vec![k(us.a), k(w.pool.a), k(w.pool.b), k(us.b), Value::Null, a, v(n), v(1)]),
        1 => (Op::DepAll { u: 0, lp: n * 1000, max_a: 1 << 40, max_b: 1 << 41 }, "depositAllTokenTypes", vec![k(us.a), k(us.b), k(us.lp), a, v(n * 1000), v(1 << 40), v(1 << 41)]),
        2 => (Op::WdAll { u: 0, lp: n * 1000, min_a: 1, min_b: 2 }, "withdrawAllTokenTypes", vec![k(us.a), k(us.b), k(us.lp), a, v(n * 1000), v(1), v(2)]),
        3 => (Op::Dep1 { u: 0, dir: Dir::AtoB, amt: n, min: 1 }, "depositSingleTokenTypeExactAmountIn", vec![k(us.a), k(us.lp), a, v(n), v(1)]),
        _ => (Op::Wd1 { u: 0, dir: Dir::AtoB, amt: n, max: LP0 }, "withdrawSingleTokenTypeExactAmountOut", vec![k(us.a), k(us.lp), a, v(n), v(LP0)]),
    };
    let r = ask(with(query(&w), json!({ "do": "call", "method": method, "args": args })));
    let ix = &r["ixs"][0];
    let d = unhx(ix["data"].as_str().unwrap_or(""));
    let (mut own, mut theirs) = (w.clone(), w.clone());
    let mm = own.metas(&op);
    let x = own.run(&op, &mm);
    let y = theirs.bank.exec(&PID, &metas_of(ix), |id, ac| token_bonding_curve::entry(id, ac, &d));
    ctx.note(|| format!("{op:?}: {} -> {y:?}", hx(&d)));
    ctx.label(method);
    ctx.nontrivial(&op);
    let nargs = match op { Op::DepAll { .. } | Op::WdAll { .. } => 3, _ => 2 };
    ensure!(x.ok(), "harness", "the plain request is refused: {x:?}");
    ensure!(x == y && own.bank.accs == theirs.bank.accs, format!("tag-{method}-{}", tag(&d, 1 + 8 * nargs)), "the program answers the client's {method} with {y:?}: {}", hx(&d));
    Ok(())
}
/// what names the finding: a lone one-byte tag, or the whole of any other beginning
fn tag(d: &[u8], len: usize) -> String { if d.len() == len { format!("{}", d[0]) } else { format!("x{}", hx(&d[..d.len().min(8)])) } }

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "P31", rule: "a number, a stored pool, or a request given to the client; key = what was given",
        assumptions: &["bn.js, buffer-layout and @solana/web3.js are not installed here: the client runs over stand-ins for the calls it makes (harness/client)"], subs: vec![
        Sub { name: "numbers", quick: 20_000, thorough: 400_000, f: numbers, what: "64-bit numbers to bytes and back, larger ones refused" },
        Sub { name: "reading", quick: 12_000, thorough: 300_000, f: reading, what: "pool accounts as the program stores them, and accounts that are no pool" },
        Sub { name: "requests", quick: 20_000, thorough: 500_000, f: requests, what: "every kind of request, built by the client from the stored pool and run by the program" },
        Sub { name: "creation", quick: 10_000, thorough: 200_000, f: creation, what: "pool creation: account, rates, curve, parameters and accounts" },
        Sub { name: "spoken", quick: 2_000, thorough: 20_000, f: spoken, what: "the client's own bytes through the entry point (known finding: its tags are not the program's)" },
    ] }]
}
