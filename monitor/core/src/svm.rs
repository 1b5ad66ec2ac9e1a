//! A small transaction executor assembled from the real Solana 2.2 runtime crates.
//!
//! Programs run natively (the delegation program straight from /repo, owner programs from `mock`),
//! but everything around them is the real runtime: instruction/CPI privilege rules, call-stack and
//! reentrancy rules, per-instruction lamport conservation, account-modification rules, the system
//! program, sysvars. Transaction-level rules (message-level privilege merging, rent-state transitions,
//! zero-balance purge, atomicity) are re-implemented here, following solana-svm 2.2.

use solana_account::{AccountSharedData, ReadableAccount, WritableAccount};
use solana_compute_budget::compute_budget::ComputeBudget;
use solana_feature_set::FeatureSet;
use solana_program::account_info::AccountInfo;
use solana_program::clock::Clock;
use solana_program::entrypoint::{deserialize, ProgramResult, SUCCESS};
use solana_program::epoch_schedule::EpochSchedule;
use solana_program::instruction::{AccountMeta, Instruction, InstructionError};
use solana_program::program_error::{ProgramError, UNSUPPORTED_SYSVAR};
use solana_program::pubkey::Pubkey;
use solana_program::rent::Rent;
use solana_program::stable_layout::stable_instruction::StableInstruction;
use solana_program_runtime::invoke_context::{EnvironmentConfig, InvokeContext};
use solana_program_runtime::loaded_programs::{ProgramCacheEntry, ProgramCacheForTxBatch};
use solana_program_runtime::solana_sbpf::declare_builtin_function;
use solana_program_runtime::sysvar_cache::SysvarCache;
use solana_timings::ExecuteTimings;
use solana_transaction_context::{IndexOfAccount, InstructionAccount, TransactionContext};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::AssertUnwindSafe;
use std::sync::{Arc, OnceLock};

pub type Entry = fn(&Pubkey, &[AccountInfo], &[u8]) -> ProgramResult;
pub static DLP_ENTRY: OnceLock<Entry> = OnceLock::new();
pub const DLP: Pubkey = solana_program::pubkey!("DELeGGvXpWV2fqJUhqcF5ZSYMS4JTLjteaAMARRSaeSh");
/// the same program code deployed under another id
pub const COPY: Pubkey = Pubkey::new_from_array([0x63; 32]);
/// forwards instructions, signing for its own derived addresses
pub const RELAY: Pubkey = Pubkey::new_from_array([0x5e; 32]);
pub const SYS: Pubkey = solana_program::system_program::ID;
pub const LOADER: Pubkey = solana_program::bpf_loader_upgradeable::ID;
pub const NATIVE_LOADER: Pubkey =
    solana_program::pubkey!("NativeLoader1111111111111111111111111111111");

pub type Store = BTreeMap<Pubkey, AccountSharedData>;

/// Plain copy of an account as seen by the oracle.
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Acc {
    pub lamports: u64,
    pub owner: Pubkey,
    pub data: Vec<u8>,
    pub executable: bool,
}
impl Acc {
    pub fn from_shared(a: &AccountSharedData) -> Self {
        Acc { lamports: a.lamports(), owner: *a.owner(), data: a.data().to_vec(), executable: a.executable() }
    }
    pub fn is_uninit(&self) -> bool {
        self.owner == SYS && self.data.is_empty()
    }
}

#[derive(Clone, Debug)]
pub struct Cpi {
    pub program: Pubkey,
    pub metas: Vec<AccountMeta>,
    pub data: Vec<u8>,
    /// addresses for which the program signed with derived-address seeds
    pub pda_signers: Vec<Pubkey>,
    pub ok: bool,
}

/// One invocation of the delegation program.
#[derive(Clone, Debug)]
pub struct Event {
    pub data: Vec<u8>,
    pub metas: Vec<AccountMeta>,
    pub pre: BTreeMap<Pubkey, Acc>,
    /// state after, present iff the instruction succeeded
    pub post: Option<BTreeMap<Pubkey, Acc>>,
    pub err: Option<String>,
    pub cpis: Vec<Cpi>,
    pub slot: u64,
    pub depth: usize,
    /// called by the delegation program itself
    pub nested: bool,
    /// called from a transaction, directly or through the relay
    pub direct: bool,
    pub panicked: bool,
}

#[derive(Clone, Debug)]
pub struct Tx {
    pub payer: Pubkey,
    pub ixs: Vec<Instruction>,
}
impl Tx {
    pub fn one(payer: Pubkey, ix: Instruction) -> Self {
        Tx { payer, ixs: vec![ix] }
    }
}

#[derive(Clone, Debug, Default)]
pub struct TxResult {
    pub ok: bool,
    pub err: String,
    /// index of the failing instruction, if one failed
    pub failed_ix: Option<usize>,
    /// true when all instructions succeeded but a transaction-level rent rule refused it
    pub rent_refused: bool,
    pub events: Vec<Event>,
    /// accounts purged because they ended with a zero balance
    pub purged: Vec<Pubkey>,
}

struct CpiAbort;

#[derive(Default)]
struct Tls {
    ic: usize,
    events: Vec<Event>,
    stack: Vec<Option<usize>>, // per native frame: event index if it is the delegation program
    slot: u64,
}
thread_local! {
    static TLS: RefCell<Tls> = RefCell::new(Tls::default());
    static IN_PROGRAM: Cell<u32> = const { Cell::new(0) };
}

pub fn install() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
        let prev = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| {
            if IN_PROGRAM.with(|c| c.get()) == 0 {
                prev(i)
            }
        }));
    });
}

fn ic<'a, 'b>() -> &'a mut InvokeContext<'b> {
    let p = TLS.with(|t| t.borrow().ic);
    assert!(p != 0);
    unsafe { &mut *(p as *mut InvokeContext<'b>) }
}

fn snapshot_ix_accounts(ic: &InvokeContext) -> Result<BTreeMap<Pubkey, Acc>, InstructionError> {
    let tc = &ic.transaction_context;
    let ctx = tc.get_current_instruction_context()?;
    let mut m = BTreeMap::new();
    for i in 0..ctx.get_number_of_instruction_accounts() {
        let a = ctx.try_borrow_instruction_account(tc, i)?;
        m.entry(*a.get_key()).or_insert_with(|| Acc {
            lamports: a.get_lamports(),
            owner: *a.get_owner(),
            data: a.get_data().to_vec(),
            executable: a.is_executable(),
        });
    }
    Ok(m)
}

const MAX_INC: usize = 10 * 1024;

thread_local! { static BUFS: RefCell<Vec<Vec<u64>>> = const { RefCell::new(Vec::new()) }; }

/// Serialises the current instruction's parameters with the on-chain input ABI.
fn serialize_input(ic: &InvokeContext, buf: &mut Vec<u64>) -> Result<(), InstructionError> {
    let tc = &ic.transaction_context;
    let ctx = tc.get_current_instruction_context()?;
    let n = ctx.get_number_of_instruction_accounts();
    let mut size = 8 + 8 + ctx.get_instruction_data().len() + 32 + 16;
    for i in 0..n {
        match ctx.is_instruction_account_duplicate(i)? {
            Some(_) => size += 8,
            None => {
                let a = ctx.try_borrow_instruction_account(tc, i)?;
                size += 8 + 32 + 32 + 8 + 8 + a.get_data().len() + MAX_INC + 8 + 8;
            }
        }
    }
    let words = size.div_ceil(8) + 2;
    if buf.len() < words {
        buf.resize(words, 0);
    }
    let total = buf.len() * 8;
    let b: &mut [u8] = unsafe { std::slice::from_raw_parts_mut(buf.as_mut_ptr() as *mut u8, total) };
    let mut o = 0usize;
    macro_rules! put {
        ($x:expr) => {{
            let x: &[u8] = $x;
            b[o..o + x.len()].copy_from_slice(x);
            o += x.len();
        }};
    }
    put!(&(n as u64).to_le_bytes());
    for i in 0..n {
        match ctx.is_instruction_account_duplicate(i)? {
            Some(d) => put!(&[d as u8, 0, 0, 0, 0, 0, 0, 0]),
            None => {
                let a = ctx.try_borrow_instruction_account(tc, i)?;
                put!(&[0xff, a.is_signer() as u8, a.is_writable() as u8, a.is_executable() as u8, 0, 0, 0, 0]);
                put!(a.get_key().as_ref());
                put!(a.get_owner().as_ref());
                put!(&a.get_lamports().to_le_bytes());
                put!(&(a.get_data().len() as u64).to_le_bytes());
                put!(a.get_data());
                let pad = MAX_INC + (8 - a.get_data().len() % 8) % 8;
                b[o..o + pad].fill(0);
                o += pad;
                put!(&u64::MAX.to_le_bytes());
            }
        }
    }
    let d = ctx.get_instruction_data();
    put!(&(d.len() as u64).to_le_bytes());
    put!(d);
    put!(ctx.get_last_program_key(tc)?.as_ref());
    Ok(())
}

fn run_native(entry: Entry, ic: &mut InvokeContext, is_dlp: bool) -> Result<(), InstructionError> {
    ic.consume_checked(1).map_err(|_| InstructionError::ComputationalBudgetExceeded)?;
    let ev = if is_dlp {
        let tc = &ic.transaction_context;
        let ctx = tc.get_current_instruction_context()?;
        let level = ctx.get_stack_height();
        let caller = match level {
            0 | 1 => None,
            l => Some(*tc.get_instruction_context_at_nesting_level(l - 2)?.get_last_program_key(tc)?),
        };
        let mut metas = vec![];
        for i in 0..ctx.get_number_of_instruction_accounts() {
            let a = ctx.try_borrow_instruction_account(tc, i)?;
            metas.push(AccountMeta { pubkey: *a.get_key(), is_signer: a.is_signer(), is_writable: a.is_writable() });
        }
        let e = Event {
            data: ctx.get_instruction_data().to_vec(),
            metas,
            pre: snapshot_ix_accounts(ic)?,
            post: None,
            err: None,
            cpis: vec![],
            slot: TLS.with(|t| t.borrow().slot),
            depth: ic.get_stack_height(),
            nested: caller == Some(DLP),
            direct: caller.map_or(true, |c| c == RELAY),
            panicked: false,
        };
        Some(TLS.with(|t| {
            let mut t = t.borrow_mut();
            t.events.push(e);
            t.events.len() - 1
        }))
    } else {
        None
    };
    TLS.with(|t| t.borrow_mut().stack.push(ev));
    let mut buf = BUFS.with(|b| b.borrow_mut().pop()).unwrap_or_default();
    let r = run_native_inner(entry, ic, &mut buf);
    BUFS.with(|b| b.borrow_mut().push(buf));
    TLS.with(|t| t.borrow_mut().stack.pop());
    if let Some(i) = ev {
        let post = if r.is_ok() { Some(snapshot_ix_accounts(ic)?) } else { None };
        TLS.with(|t| {
            let mut t = t.borrow_mut();
            let e = &mut t.events[i];
            e.post = post;
            if let Err((x, p)) = &r {
                e.err = Some(format!("{x:?}"));
                e.panicked = *p;
            }
        });
    }
    r.map_err(|(e, _)| e)
}

fn run_native_inner(
    entry: Entry,
    ic: &mut InvokeContext,
    buf: &mut Vec<u64>,
) -> Result<(), (InstructionError, bool)> {
    let n = |e| (e, false);
    serialize_input(ic, buf).map_err(n)?;
    let (program_id, infos, input) = unsafe { deserialize(buf.as_mut_ptr() as *mut u8) };
    let depth = IN_PROGRAM.with(|c| c.replace(c.get() + 1));
    let res = std::panic::catch_unwind(AssertUnwindSafe(|| entry(program_id, &infos, input)));
    IN_PROGRAM.with(|c| c.set(depth));
    match res {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return Err((InstructionError::from(u64::from(e)), false)),
        Err(p) => return Err((InstructionError::ProgramFailedToComplete, !p.is::<CpiAbort>())),
    }
    // Copy modifications back, as strictly as the on-chain loader does.
    let tc = &ic.transaction_context;
    let ctx = tc.get_current_instruction_context().map_err(n)?;
    for i in 0..ctx.get_number_of_instruction_accounts() {
        if ctx.is_instruction_account_duplicate(i).map_err(n)?.is_some() {
            continue;
        }
        let mut b = ctx.try_borrow_instruction_account(tc, i).map_err(n)?;
        let info = &infos[i as usize];
        if b.get_lamports() != info.lamports() {
            b.set_lamports(info.lamports()).map_err(n)?;
        }
        let data = info.try_borrow_data().map_err(|_| n(InstructionError::AccountBorrowFailed))?;
        // the real loader reads the length from the serialized buffer
        if data.len() > b.get_data().len() + MAX_INC {
            return Err((InstructionError::InvalidRealloc, false));
        }
        match b.can_data_be_resized(data.len()).and_then(|_| b.can_data_be_changed()) {
            Ok(()) => {
                if b.get_data() != &**data {
                    b.set_data_from_slice(&data).map_err(n)?
                }
            }
            Err(e) if b.get_data() != &**data => return Err((e, false)),
            _ => {}
        }
        if b.get_owner() != info.owner {
            b.set_owner(info.owner.as_ref()).map_err(n)?;
        }
    }
    Ok(())
}

declare_builtin_function!(
    DlpBuiltin,
    fn rust(
        ic: &mut InvokeContext,
        _a: u64,
        _b: u64,
        _c: u64,
        _d: u64,
        _e: u64,
        _m: &mut solana_program_runtime::solana_sbpf::memory_region::MemoryMapping,
    ) -> Result<u64, Box<dyn std::error::Error>> {
        let e = *DLP_ENTRY.get().expect("entry");
        run_native(e, ic, true).map(|_| 0).map_err(|e| Box::new(e) as Box<dyn std::error::Error>)
    }
);
declare_builtin_function!(
    DlpCopyBuiltin,
    fn rust(
        ic: &mut InvokeContext,
        _a: u64,
        _b: u64,
        _c: u64,
        _d: u64,
        _e: u64,
        _m: &mut solana_program_runtime::solana_sbpf::memory_region::MemoryMapping,
    ) -> Result<u64, Box<dyn std::error::Error>> {
        let e = *DLP_ENTRY.get().expect("entry");
        run_native(e, ic, false).map(|_| 0).map_err(|e| Box::new(e) as Box<dyn std::error::Error>)
    }
);
declare_builtin_function!(
    MockBuiltin,
    fn rust(
        ic: &mut InvokeContext,
        _a: u64,
        _b: u64,
        _c: u64,
        _d: u64,
        _e: u64,
        _m: &mut solana_program_runtime::solana_sbpf::memory_region::MemoryMapping,
    ) -> Result<u64, Box<dyn std::error::Error>> {
        run_native(crate::mock::process, ic, false)
            .map(|_| 0)
            .map_err(|e| Box::new(e) as Box<dyn std::error::Error>)
    }
);

struct Stubs;
unsafe impl Sync for Stubs {}
unsafe impl Send for Stubs {}

fn abort<T, E: std::fmt::Debug>(r: Result<T, E>) -> T {
    match r {
        Ok(x) => x,
        Err(_) => std::panic::resume_unwind(Box::new(CpiAbort)),
    }
}

impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_log_compute_units(&self) {}
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_invoke_signed(
        &self,
        instruction: &Instruction,
        infos: &[AccountInfo],
        seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        let ic = ic();
        let stable = StableInstruction::from(instruction.clone());
        let caller = {
            let tc = &ic.transaction_context;
            let ctx = abort(tc.get_current_instruction_context());
            *abort(ctx.get_last_program_key(tc))
        };
        let signers: Vec<Pubkey> =
            seeds.iter().map(|s| abort(Pubkey::create_program_address(s, &caller))).collect();
        let ev = TLS.with(|t| t.borrow().stack.last().cloned().flatten());
        if let Some(i) = ev {
            TLS.with(|t| {
                t.borrow_mut().events[i].cpis.push(Cpi {
                    program: instruction.program_id,
                    metas: instruction.accounts.clone(),
                    data: instruction.data.clone(),
                    pda_signers: signers.clone(),
                    ok: false,
                })
            });
        }
        let cpi_idx = ev.map(|i| TLS.with(|t| t.borrow().events[i].cpis.len() - 1));
        let (ias, pidx) = abort(ic.prepare_instruction(&stable, &signers));
        let mut write_back = vec![];
        {
            let tc = &ic.transaction_context;
            let ctx = abort(tc.get_current_instruction_context());
            for ia in ias.iter() {
                let key = abort(tc.get_key_of_account_at_index(ia.index_in_transaction));
                let pos = abort(
                    infos.iter().position(|a| a.unsigned_key() == key).ok_or(InstructionError::MissingAccount),
                );
                let info = &infos[pos];
                let mut b = abort(ctx.try_borrow_instruction_account(tc, ia.index_in_caller));
                if b.get_lamports() != info.lamports() {
                    abort(b.set_lamports(info.lamports()));
                }
                let data = abort(info.try_borrow_data());
                match b.can_data_be_resized(data.len()).and_then(|_| b.can_data_be_changed()) {
                    Ok(()) => {
                        if b.get_data() != &**data {
                            abort(b.set_data_from_slice(&data))
                        }
                    }
                    Err(e) if b.get_data() != &**data => abort(Err(e)),
                    _ => {}
                }
                if b.get_owner() != info.owner {
                    abort(b.set_owner(info.owner.as_ref()));
                }
                if ia.is_writable {
                    write_back.push((ia.index_in_caller, pos, b.get_data().len()));
                }
            }
        }
        let mut cu = 0;
        abort(ic.process_instruction(&stable.data, &ias, &pidx, &mut cu, &mut ExecuteTimings::default()));
        let tc = &ic.transaction_context;
        let ctx = abort(tc.get_current_instruction_context());
        for (idx, pos, prev_len) in write_back {
            let b = abort(ctx.try_borrow_instruction_account(tc, idx));
            let info = &infos[pos];
            **abort(info.try_borrow_mut_lamports()) = b.get_lamports();
            if info.owner != b.get_owner() {
                info.assign(b.get_owner());
            }
            let nl = b.get_data().len();
            if nl > prev_len && nl > unsafe { info.original_data_len() } + MAX_INC {
                abort::<(), _>(Err(InstructionError::InvalidRealloc));
            }
            if info.data_len() != nl {
                abort(info.realloc(nl, false));
            }
            abort(info.try_borrow_mut_data()).copy_from_slice(b.get_data());
        }
        if let (Some(i), Some(c)) = (ev, cpi_idx) {
            TLS.with(|t| t.borrow_mut().events[i].cpis[c].ok = true);
        }
        Ok(())
    }
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        match ic().get_sysvar_cache().get_clock() {
            Ok(c) => unsafe {
                *(p as *mut Clock) = (*c).clone();
                SUCCESS
            },
            Err(_) => UNSUPPORTED_SYSVAR,
        }
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        match ic().get_sysvar_cache().get_rent() {
            Ok(c) => unsafe {
                *(p as *mut Rent) = (*c).clone();
                SUCCESS
            },
            Err(_) => UNSUPPORTED_SYSVAR,
        }
    }
    fn sol_get_stack_height(&self) -> u64 {
        ic().get_stack_height() as u64
    }
    fn sol_get_processed_sibling_instruction(&self, index: usize) -> Option<Instruction> {
        let ic = ic();
        let height = ic.get_stack_height();
        let tc = &ic.transaction_context;
        let mut n = 0;
        for i in (0..tc.get_instruction_trace_length()).rev() {
            let c = tc.get_instruction_context_at_index_in_trace(i).ok()?;
            if c.get_stack_height() < height {
                break;
            }
            if c.get_stack_height() == height {
                if n == index + 1 {
                    let program_id = *c.get_last_program_key(tc).ok()?;
                    let mut accounts = vec![];
                    for j in 0..c.get_number_of_instruction_accounts() {
                        let k = *tc.get_key_of_account_at_index(c.get_index_of_instruction_account_in_transaction(j).ok()?).ok()?;
                        accounts.push(AccountMeta {
                            pubkey: k,
                            is_signer: c.is_instruction_account_signer(j).ok()?,
                            is_writable: c.is_instruction_account_writable(j).ok()?,
                        });
                    }
                    return Some(Instruction { program_id, accounts, data: c.get_instruction_data().to_vec() });
                }
                n += 1;
            }
        }
        None
    }
}

#[derive(Clone)]
pub struct Svm {
    pub store: Store,
    pub slot: u64,
    /// added to the clock's epoch and time
    pub skew: (u64, i64),
    pub native: Vec<Pubkey>,
    cache: ProgramCacheForTxBatch,
    features: Arc<FeatureSet>,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum RentState {
    Uninit,
    Exempt,
    Paying { size: usize, lamports: u64 },
}
fn rent_state(a: &AccountSharedData) -> RentState {
    if a.lamports() == 0 {
        RentState::Uninit
    } else if Rent::default().is_exempt(a.lamports(), a.data().len()) {
        RentState::Exempt
    } else {
        RentState::Paying { size: a.data().len(), lamports: a.lamports() }
    }
}
fn rent_transition_ok(pre: RentState, post: RentState) -> bool {
    match post {
        RentState::Uninit | RentState::Exempt => true,
        RentState::Paying { size, lamports } => match pre {
            RentState::Paying { size: ps, lamports: pl } => ps == size && lamports <= pl,
            _ => false,
        },
    }
}

impl Svm {
    pub fn new(mocks: &[Pubkey]) -> Self {
        install();
        let mut cache = ProgramCacheForTxBatch::default();
        cache.replenish(
            SYS,
            Arc::new(ProgramCacheEntry::new_builtin(
                0,
                0,
                solana_system_program::system_processor::Entrypoint::vm,
            )),
        );
        cache.replenish(DLP, Arc::new(ProgramCacheEntry::new_builtin(0, 0, DlpBuiltin::vm)));
        cache.replenish(COPY, Arc::new(ProgramCacheEntry::new_builtin(0, 0, DlpCopyBuiltin::vm)));
        cache.replenish(RELAY, Arc::new(ProgramCacheEntry::new_builtin(0, 0, MockBuiltin::vm)));
        let mut native = vec![SYS, DLP, COPY, RELAY];
        for m in mocks {
            cache.replenish(*m, Arc::new(ProgramCacheEntry::new_builtin(0, 0, MockBuiltin::vm)));
            native.push(*m);
        }
        let mut store = Store::new();
        for k in &native {
            let mut a = AccountSharedData::new(1_000_000_000, 14, &NATIVE_LOADER);
            a.set_executable(true);
            store.insert(*k, a);
        }
        Svm { store, slot: 1, skew: (0, 0), native, cache, features: Arc::new(FeatureSet::all_enabled()) }
    }
    pub fn get(&self, k: &Pubkey) -> Acc {
        self.store.get(k).map(Acc::from_shared).unwrap_or_default()
    }
    pub fn lamports(&self, k: &Pubkey) -> u64 {
        self.store.get(k).map(|a| a.lamports()).unwrap_or(0)
    }
    pub fn put(&mut self, k: Pubkey, lamports: u64, owner: Pubkey, data: Vec<u8>) {
        if lamports == 0 {
            self.store.remove(&k);
            return;
        }
        let mut a = AccountSharedData::new(lamports, 0, &owner);
        a.set_data_from_slice(&data);
        self.store.insert(k, a);
    }
    pub fn add_lamports(&mut self, k: Pubkey, l: u64) {
        let mut a = self.store.get(&k).cloned().unwrap_or_default();
        a.set_lamports(a.lamports() + l);
        if a.lamports() > 0 {
            self.store.insert(k, a);
        }
    }

    /// Executes `tx`; the store changes only if everything succeeds.
    pub fn exec(&mut self, tx: &Tx) -> TxResult {
        // ---- message compilation (privileges merge per transaction)
        let mut keys: Vec<Pubkey> = vec![tx.payer];
        let mut signer = vec![true];
        let mut writable = vec![true];
        let add = |k: Pubkey, s: bool, w: bool, keys: &mut Vec<Pubkey>, sg: &mut Vec<bool>, wr: &mut Vec<bool>| {
            match keys.iter().position(|x| *x == k) {
                Some(i) => {
                    sg[i] |= s;
                    wr[i] |= w;
                    i
                }
                None => {
                    keys.push(k);
                    sg.push(s);
                    wr.push(w);
                    keys.len() - 1
                }
            }
        };
        let mut cixs = vec![];
        let mut program_keys = vec![];
        for ix in &tx.ixs {
            let p = add(ix.program_id, false, false, &mut keys, &mut signer, &mut writable);
            program_keys.push(p);
            let a: Vec<usize> = ix
                .accounts
                .iter()
                .map(|m| add(m.pubkey, m.is_signer, m.is_writable, &mut keys, &mut signer, &mut writable))
                .collect();
            cixs.push((p, a));
        }
        for (i, k) in keys.iter().enumerate() {
            // reserved keys and keys called as programs are never writable
            if program_keys.contains(&i) || self.native.contains(k) || *k == LOADER || *k == NATIVE_LOADER {
                writable[i] = false;
            }
        }
        let pre: Vec<AccountSharedData> =
            keys.iter().map(|k| self.store.get(k).cloned().unwrap_or_default()).collect();
        let mut tc = TransactionContext::new(
            keys.iter().cloned().zip(pre.iter().cloned()).collect(),
            Rent::default(),
            5,
            64,
        );
        let mut sysvars = SysvarCache::default();
        // none of the clock's other fields tells the slot
        let start = 1_690_000_000 + (self.slot.min(1 << 40) / 432_000) as i64 * 172_800;
        sysvars.set_sysvar_for_tests(&Clock {
            slot: self.slot,
            epoch_start_timestamp: start.wrapping_add(self.skew.1),
            epoch: (self.slot / 432_000).wrapping_add(self.skew.0),
            leader_schedule_epoch: (self.slot / 432_000 + 1).wrapping_add(self.skew.0),
            unix_timestamp: (start + (self.slot % 432_000) as i64 * 2 / 5).wrapping_add(self.skew.1),
        });
        sysvars.set_sysvar_for_tests(&Rent::default());
        sysvars.set_sysvar_for_tests(&EpochSchedule::default());
        let stake = |_k: &Pubkey| 0u64;
        let env = EnvironmentConfig::new(
            solana_hash::Hash::default(),
            0,
            0,
            &stake,
            self.features.clone(),
            &sysvars,
        );
        let mut budget = ComputeBudget::default();
        budget.compute_unit_limit = 1_400_000;
        let mut icx = InvokeContext::new(&mut tc, &mut self.cache, env, None, budget);
        TLS.with(|t| {
            let mut t = t.borrow_mut();
            t.ic = (&mut icx as *mut InvokeContext) as usize;
            t.events.clear();
            t.stack.clear();
            t.slot = self.slot;
        });
        let mut res = TxResult { ok: true, ..Default::default() };
        for (n, (p, accs)) in cixs.iter().enumerate() {
            let ias: Vec<InstructionAccount> = accs
                .iter()
                .enumerate()
                .map(|(j, i)| InstructionAccount {
                    index_in_transaction: *i as IndexOfAccount,
                    index_in_caller: *i as IndexOfAccount,
                    index_in_callee: accs[..j].iter().position(|x| x == i).unwrap_or(j) as IndexOfAccount,
                    is_signer: signer[*i],
                    is_writable: writable[*i],
                })
                .collect();
            let mut cu = 0;
            let r = icx.process_instruction(
                &tx.ixs[n].data,
                &ias,
                &[*p as IndexOfAccount],
                &mut cu,
                &mut ExecuteTimings::default(),
            );
            if let Err(e) = r {
                res.ok = false;
                res.err = format!("{e:?}");
                res.failed_ix = Some(n);
                break;
            }
        }
        TLS.with(|t| {
            let mut t = t.borrow_mut();
            t.ic = 0;
            res.events = std::mem::take(&mut t.events);
        });
        drop(icx);
        if !res.ok {
            return res;
        }
        let mut post = vec![];
        for i in 0..keys.len() {
            post.push(tc.get_account_at_index(i as IndexOfAccount).unwrap().borrow().clone());
        }
        for i in 0..keys.len() {
            if writable[i] && !rent_transition_ok(rent_state(&pre[i]), rent_state(&post[i])) {
                res.ok = false;
                res.rent_refused = true;
                res.err = format!("InsufficientFundsForRent {}", keys[i]);
                return res;
            }
        }
        for i in 0..keys.len() {
            if !writable[i] {
                continue;
            }
            if post[i].lamports() == 0 {
                if self.store.remove(&keys[i]).is_some() || !post[i].data().is_empty() || *post[i].owner() != SYS {
                    res.purged.push(keys[i]);
                }
            } else {
                self.store.insert(keys[i], post[i].clone());
            }
        }
        res
    }
}

pub fn program_error(e: u32) -> ProgramError {
    ProgramError::Custom(e)
}
