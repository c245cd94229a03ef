//! A small model of the Solana runtime around the real program and the real SPL
//! token processor: accounts, merged privileges, atomic instructions, signed
//! cross-program calls, and the rule that only an account's owner changes it.
#![allow(dead_code)]
use solana_program::{
    account_info::AccountInfo, entrypoint::ProgramResult, instruction::Instruction, program_error::ProgramError,
    program_option::COption, program_pack::Pack, program_stubs::SyscallStubs, pubkey::Pubkey,
};
use spl_token::state::{Account as TokAcc, AccountState, Mint};
use std::cell::RefCell;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Acc { pub owner: Pubkey, pub lamports: u64, pub data: Vec<u8>, pub exec: bool }
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Meta { pub key: Pubkey, pub signer: bool, pub writable: bool }
pub fn w(key: Pubkey) -> Meta { Meta { key, signer: false, writable: true } }
pub fn r(key: Pubkey) -> Meta { Meta { key, signer: false, writable: false } }
pub fn s(key: Pubkey) -> Meta { Meta { key, signer: true, writable: false } }
pub fn ws(key: Pubkey) -> Meta { Meta { key, signer: true, writable: true } }

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok,
    /// the program (or a program it called) returned this error
    Err(ProgramError),
    /// the program aborted
    Panic(String),
    /// the program returned success but broke a runtime rule, so the transaction fails
    Runtime(String),
}
impl Out {
    pub fn ok(&self) -> bool { *self == Out::Ok }
    pub fn custom(&self) -> Option<u32> { match self { Out::Err(ProgramError::Custom(c)) => Some(*c), _ => None } }
}

struct Frame { program: Pubkey, shadow: BTreeMap<Pubkey, Vec<u8>>, broken: Option<String>, fake_calls: u32 }
thread_local! {
    static FRAME: RefCell<Option<Frame>> = RefCell::new(None);
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

struct Stubs;
impl SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        let program = FRAME.with(|f| f.borrow().as_ref().map(|f| f.program)).ok_or(ProgramError::InvalidAccountData)?;
        let mut pdas = vec![];
        for sd in seeds {
            pdas.push(Pubkey::create_program_address(sd, &program).map_err(|_| ProgramError::InvalidSeeds)?);
        }
        if !infos.iter().any(|i| *i.key == ix.program_id) { return Err(ProgramError::NotEnoughAccountKeys); }
        let mut inner: Vec<AccountInfo> = vec![];
        for m in &ix.accounts {
            let (mut sg, mut wr) = (false, false);
            for n in ix.accounts.iter().filter(|n| n.pubkey == m.pubkey) { sg |= n.is_signer; wr |= n.is_writable; }
            let mut i = infos.iter().find(|i| *i.key == m.pubkey).ok_or(ProgramError::NotEnoughAccountKeys)?.clone();
            if sg && !(i.is_signer || pdas.contains(i.key)) { return Err(ProgramError::MissingRequiredSignature); }
            if wr && !i.is_writable { return Err(ProgramError::InvalidArgument); }
            i.is_signer = sg;
            i.is_writable = wr;
            inner.push(i);
        }
        let check = |update: bool| FRAME.with(|f| {
            let mut f = f.borrow_mut();
            let f = f.as_mut().unwrap();
            for i in &inner {
                if let Some(s) = f.shadow.get_mut(i.key) {
                    let d = i.data.borrow();
                    if s.as_slice() != &d[..] {
                        if update && i.owner == &ix.program_id { *s = d.to_vec(); } else { f.broken = Some(format!("program wrote to {} which it does not own", i.key)); }
                    }
                }
            }
        });
        if ix.program_id == spl_token::ID {
            check(false);
            // accounts of the calling program are not the token program's to write
            let own: Vec<Option<Vec<u8>>> = inner.iter().map(|i| (i.owner != &ix.program_id && *i.owner == program).then(|| i.data.borrow().to_vec())).collect();
            let r = spl_token::processor::Processor::process(&ix.program_id, &inner, &ix.data);
            check(true);
            for (i, d) in inner.iter().zip(own) {
                if let Some(d) = d {
                    if d != i.data.borrow().to_vec() { FRAME.with(|f| f.borrow_mut().as_mut().unwrap().broken = Some("token program wrote to an account it does not own".into())); }
                }
            }
            r
        } else {
            // some other program: it is recorded and does nothing
            FRAME.with(|f| f.borrow_mut().as_mut().unwrap().fake_calls += 1);
            Ok(())
        }
    }
}

pub fn install() {
    solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
    std::panic::set_hook(Box::new(|i| {
        let s = format!("{} at {}", i.payload().downcast_ref::<String>().map(|s| s.as_str()).or_else(|| i.payload().downcast_ref::<&str>().copied()).unwrap_or("?"),
            i.location().map(|l| l.to_string()).unwrap_or_default());
        if std::env::var("VERIF_PANICS").is_ok() { eprintln!("{s}"); }
        LAST_PANIC.with(|p| *p.borrow_mut() = s);
    }));
}
/// run code under test, turning a panic into Err(message)
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

#[derive(Clone, Debug, Default)]
pub struct Bank { pub accs: BTreeMap<Pubkey, Acc>, pub fake_calls: u32 }

impl Bank {
    pub fn new() -> Self {
        let mut b = Bank::default();
        b.accs.insert(spl_token::ID, Acc { owner: solana_program::bpf_loader::ID, lamports: 1, data: vec![], exec: true });
        b
    }
    pub fn put(&mut self, k: Pubkey, owner: Pubkey, data: Vec<u8>) { self.accs.insert(k, Acc { owner, lamports: 10_000_000, data, exec: false }); }
    pub fn put_mint(&mut self, k: Pubkey, authority: Option<Pubkey>, supply: u64, freeze: Option<Pubkey>) {
        let m = Mint { mint_authority: authority.into(), supply, decimals: 6, is_initialized: true, freeze_authority: freeze.into() };
        let mut d = vec![0; Mint::LEN];
        Mint::pack(m, &mut d).unwrap();
        self.put(k, spl_token::ID, d);
    }
    pub fn put_tok(&mut self, k: Pubkey, mint: Pubkey, owner: Pubkey, amount: u64) {
        let a = TokAcc { mint, owner, amount, delegate: COption::None, state: AccountState::Initialized, is_native: COption::None, delegated_amount: 0, close_authority: COption::None };
        let mut d = vec![0; TokAcc::LEN];
        TokAcc::pack(a, &mut d).unwrap();
        self.put(k, spl_token::ID, d);
    }
    pub fn tok(&self, k: &Pubkey) -> TokAcc { TokAcc::unpack(&self.accs[k].data).expect("token account") }
    pub fn edit_tok(&mut self, k: &Pubkey, f: impl FnOnce(&mut TokAcc)) {
        let mut a = self.tok(k);
        f(&mut a);
        TokAcc::pack(a, &mut self.accs.get_mut(k).unwrap().data).unwrap();
    }
    pub fn amt(&self, k: &Pubkey) -> u64 { self.tok(k).amount }
    pub fn mint(&self, k: &Pubkey) -> Mint { Mint::unpack(&self.accs[k].data).expect("mint") }
    pub fn edit_mint(&mut self, k: &Pubkey, f: impl FnOnce(&mut Mint)) {
        let mut a = self.mint(k);
        f(&mut a);
        Mint::pack(a, &mut self.accs.get_mut(k).unwrap().data).unwrap();
    }
    pub fn supply(&self, k: &Pubkey) -> u64 { self.mint(k).supply }

    /// run one instruction atomically
    pub fn exec(&mut self, program: &Pubkey, metas: &[Meta], f: impl FnOnce(&Pubkey, &[AccountInfo]) -> ProgramResult) -> Out {
        let mut st: Vec<(Meta, Acc)> = vec![];
        let mut idx = vec![];
        for m in metas {
            match st.iter().position(|x| x.0.key == m.key) {
                Some(i) => { st[i].0.signer |= m.signer; st[i].0.writable |= m.writable; idx.push(i) }
                None => {
                    let a = self.accs.get(&m.key).cloned().unwrap_or(Acc { owner: solana_program::system_program::ID, lamports: 0, data: vec![], exec: false });
                    st.push((*m, a));
                    idx.push(st.len() - 1);
                }
            }
        }
        let orig = st.clone();
        let shadow = st.iter().filter(|x| x.1.owner != *program).map(|x| (x.0.key, x.1.data.clone())).collect();
        FRAME.with(|fr| *fr.borrow_mut() = Some(Frame { program: *program, shadow, broken: None, fake_calls: 0 }));
        let res = {
            let uniq: Vec<AccountInfo> = st.iter_mut().map(|(m, a)| {
                AccountInfo::new(&m.key, m.signer, m.writable, &mut a.lamports, &mut a.data, &a.owner, a.exec, 0)
            }).collect();
            let infos: Vec<AccountInfo> = idx.iter().map(|i| uniq[*i].clone()).collect();
            guard(|| f(program, &infos))
        };
        let frame = FRAME.with(|fr| fr.borrow_mut().take()).unwrap();
        match res {
            Err(m) => return Out::Panic(m),
            Ok(Err(e)) => return Out::Err(e),
            Ok(Ok(())) => {}
        }
        if let Some(b) = frame.broken { return Out::Runtime(b); }
        let (mut l0, mut l1) = (0u128, 0u128);
        for (o, n) in orig.iter().zip(&st) {
            l0 += o.1.lamports as u128;
            l1 += n.1.lamports as u128;
            let changed = o.1 != n.1;
            if changed && !o.0.writable && !n.0.writable { return Out::Runtime(format!("read-only account {} changed", o.0.key)); }
            if n.1.lamports < o.1.lamports && o.1.owner != *program { return Out::Runtime(format!("lamports taken from {}", o.0.key)); }
            if let Some(sh) = frame.shadow.get(&o.0.key) {
                if *sh != n.1.data { return Out::Runtime(format!("program wrote to {} which it does not own", o.0.key)); }
            }
            if o.1.data.len() != n.1.data.len() { return Out::Runtime("account resized".into()); }
        }
        if l0 != l1 { return Out::Runtime("lamports not conserved".into()); }
        self.fake_calls += frame.fake_calls;
        for (m, a) in st { if self.accs.contains_key(&m.key) || !a.data.is_empty() { self.accs.insert(m.key, a); } }
        Out::Ok
    }
    /// a plain SPL token transfer made outside the program by `from`'s owner (harness action)
    pub fn outside_transfer(&mut self, from: &Pubkey, to: &Pubkey, amount: u64) -> bool {
        if from == to || self.amt(from) < amount { return false; }
        self.edit_tok(from, |a| a.amount -= amount);
        self.edit_tok(to, |a| a.amount += amount);
        true
    }
    /// a plain SPL token burn made outside the program by the holder
    pub fn outside_burn(&mut self, from: &Pubkey, mint: &Pubkey, amount: u64) -> bool {
        if self.amt(from) < amount { return false; }
        self.edit_tok(from, |a| a.amount -= amount);
        self.edit_mint(mint, |m| m.supply -= amount);
        true
    }
}
