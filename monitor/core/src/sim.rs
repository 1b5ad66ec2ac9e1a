//! World of actors, transition monitor (ghost state) and operation generators.
use crate::mock::{self, Mode};
use crate::model::*;
use crate::rng::Rng;
use crate::spec::{judge, on_curve, Ctx, Dev, Verdict};
use crate::svm::*;
use crate::t;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, OnceLock};

pub static DICT: OnceLock<Vec<u64>> = OnceLock::new();
pub fn dict() -> &'static [u64] {
    DICT.get().map(|v| v.as_slice()).unwrap_or(&[])
}

/// short strings of the program's source
pub static WORDS: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
/// a string of the program's source, or one of its numbers
pub fn word(r: &mut Rng) -> Vec<u8> {
    let w = WORDS.get().map(|v| v.as_slice()).unwrap_or(&[]);
    let d = dict();
    if !w.is_empty() && r.pct(50) {
        r.pick(w).clone()
    } else if !d.is_empty() {
        let n = [1, 4, 8, 8][r.below(4)];
        let b = r.pick(d).to_le_bytes();
        if r.pct(20) {
            b[..n].iter().rev().copied().collect()
        } else {
            b[..n].to_vec()
        }
    } else {
        vec![1]
    }
}
// ------------------------------------------------------------------ sink
#[derive(Clone, Debug)]
pub struct Found {
    pub tags: u64,
    pub what: String,
    pub trace: String,
}
#[derive(Default)]
pub struct Sink {
    /// properties of interest
    pub mask: u64,
    pub found: Vec<Found>,
    pub evals: u64,
    pub events: u64,
    pub txs: u64,
    pub classes: HashMap<String, u64>,
    pub sample: Vec<String>,
}
impl Sink {
    pub fn eval(&mut self, tags: u64, label: impl FnOnce() -> String) {
        if tags & self.mask != 0 {
            self.evals += 1;
            *self.classes.entry(label()).or_insert(0) += 1;
        }
    }
    pub fn dev(&mut self, d: Dev, trace: impl FnOnce() -> String) {
        if d.tags & self.mask != 0 && self.found.len() < 20 {
            self.found.push(Found { tags: d.tags, what: d.what, trace: trace() });
        }
    }
}

pub fn show_tx(tx: &Tx) -> String {
    let mut s = format!("tx fee-payer {}\n", tx.payer);
    for ix in &tx.ixs {
        s.push_str(&format!("  ix program {} data {}\n", ix.program_id, full_hex(&ix.data)));
        let names: &[&str] = if ix.program_id == DLP && ix.data.len() >= 8 {
            I::from_tag(ix.data[0]).map(roles).unwrap_or(&[])
        } else {
            &[]
        };
        for (n, m) in ix.accounts.iter().enumerate() {
            s.push_str(&format!(
                "    {:>2} {}{} {} {}\n",
                n,
                if m.is_signer { "s" } else { "-" },
                if m.is_writable { "w" } else { "-" },
                m.pubkey,
                names.get(n).unwrap_or(&"")
            ));
        }
    }
    s
}
fn full_hex(d: &[u8]) -> String {
    let mut s = format!("({}B)", d.len());
    for b in d.iter().take(400) {
        s.push_str(&format!("{b:02x}"));
    }
    s
}
pub fn show_event(e: &Event) -> String {
    let mut s = format!("event depth {} slot {} result {:?} data {}\n", e.depth, e.slot, e.err, full_hex(&e.data));
    let names: &[&str] = if e.data.is_empty() { &[] } else { I::from_tag(e.data[0]).map(roles).unwrap_or(&[]) };
    for (n, m) in e.metas.iter().enumerate() {
        let a = &e.pre[&m.pubkey];
        s.push_str(&format!(
            "    {:>2} {}{} {} {:<18} pre: lamports {} owner {} data {}\n",
            n,
            if m.is_signer { "s" } else { "-" },
            if m.is_writable { "w" } else { "-" },
            m.pubkey,
            names.get(n).unwrap_or(&""),
            a.lamports,
            a.owner,
            full_hex(&a.data)
        ));
        if let Some(p) = &e.post {
            let b = &p[&m.pubkey];
            if b != a {
                s.push_str(&format!("        -> lamports {} owner {} data {}\n", b.lamports, b.owner, full_hex(&b.data)));
            }
        }
    }
    for c in &e.cpis {
        s.push_str(&format!("    cpi -> {} data {} ok {}\n", c.program, full_hex(&c.data), c.ok));
    }
    s
}

// ------------------------------------------------------------------ world
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Kind {
    Pda { prog: Pubkey, seeds: Vec<Vec<u8>> },
    Curve { owner: Pubkey },
    Escrow { wallet: Pubkey, idx: u8 },
}
#[derive(Clone, Debug)]
pub struct AccDef {
    pub key: Pubkey,
    pub kind: Kind,
}
impl AccDef {
    pub fn owner(&self) -> Pubkey {
        match &self.kind {
            Kind::Pda { prog, .. } => *prog,
            Kind::Curve { owner } => *owner,
            Kind::Escrow { .. } => SYS,
        }
    }
}

/// Actors and addresses; does not change after creation.
pub struct Cast {
    pub admin: Pubkey,
    pub mocks: Vec<Pubkey>,
    pub auths: Vec<Pubkey>,
    pub vals: Vec<Pubkey>,
    pub wallets: Vec<Pubkey>,
    pub accs: Vec<AccDef>,
    pub bufs: Vec<Pubkey>,
    pub fee: Pubkey,
    pub outsider: Pubkey,
    /// derived addresses of the relay, some of which play one of the parts above
    pub actors: Vec<Pubkey>,
}
impl Cast {
    pub fn can_sign(&self, k: &Pubkey) -> bool {
        *k == self.admin
            || *k == self.fee
            || *k == self.outsider
            || self.auths.contains(k)
            || self.vals.contains(k)
            || self.wallets.contains(k)
            || self.accs.iter().any(|a| a.key == *k && !matches!(a.kind, Kind::Escrow { .. }))
    }
    pub fn signers(&self) -> Vec<Pubkey> {
        let mut v = vec![self.admin, self.fee, self.outsider];
        v.extend(&self.auths);
        v.extend(&self.vals);
        v.extend(&self.wallets);
        v
    }
}

#[derive(Clone)]
struct GSess {
    rec: Rec,
    meta: Meta,
    acc: Acc,
    pending: Option<(Vec<u8>, Vec<u8>)>,
}
#[derive(Clone, Default)]
struct Ghost {
    sess: BTreeMap<Pubkey, GSess>,
    ledger: BTreeMap<Pubkey, i128>,
}

/// Executor plus monitors; cheap to clone (for what-if runs).
#[derive(Clone)]
pub struct Sim {
    pub svm: Svm,
    pub cast: Arc<Cast>,
    ghost: Ghost,
    /// state written by hand that no history leads to: only the requests are judged
    pub wild: bool,
    /// everything is called through another program
    pub relay: bool,
    pub log: Vec<String>,
}

pub fn is_dlp(a: &Acc) -> bool {
    a.owner == DLP
}

impl Sim {
    pub fn rec(&self, acc: &Pubkey) -> Option<Rec> {
        let a = self.svm.get(&record_pda(acc));
        if is_dlp(&a) {
            Rec::parse(&a.data)
        } else {
            None
        }
    }
    pub fn meta(&self, acc: &Pubkey) -> Option<Meta> {
        let a = self.svm.get(&meta_pda(acc));
        if is_dlp(&a) {
            Meta::parse(&a.data)
        } else {
            None
        }
    }
    pub fn pending(&self, acc: &Pubkey) -> Option<CRec> {
        let a = self.svm.get(&crecord_pda(acc));
        if is_dlp(&a) {
            CRec::parse(&a.data)
        } else {
            None
        }
    }
    pub fn registered(&self, v: &Pubkey) -> bool {
        is_dlp(&self.svm.get(&vvault_pda(v)))
    }
    pub fn config(&self, p: &Pubkey) -> Option<std::collections::BTreeSet<Pubkey>> {
        let a = self.svm.get(&config_pda(p));
        if is_dlp(&a) {
            cfg_parse(&a.data)
        } else {
            None
        }
    }
    pub fn admin_now(&self) -> Option<Pubkey> {
        upgrade_authority(&self.svm.get(&pdata_pda(&DLP))).unwrap_or(None)
    }
    pub fn total(&self) -> u128 {
        use solana_account::ReadableAccount;
        self.svm.store.values().map(|a| a.lamports() as u128).sum()
    }
    pub fn resync(&mut self) {
        self.ghost = Ghost::default();
        let mut dummy = Sink::default();
        self.observe(&[], &mut dummy, "");
    }

    /// Executes, judges every invocation, and (when the state changed) runs the state monitors.
    /// The transaction with instructions sent through the relay: where a derived address of its has to sign,
    /// or everywhere.
    fn relayed(&self, tx: &Tx) -> Option<Tx> {
        let act = |k: &Pubkey| self.cast.actors.iter().position(|a| a == k);
        let wants = |ix: &Instruction| {
            (self.relay && ix.program_id == DLP) || ix.accounts.iter().any(|m| m.is_signer && act(&m.pubkey).is_some())
        };
        if act(&tx.payer).is_none() && !tx.ixs.iter().any(wants) {
            return None;
        }
        let mut out = tx.clone();
        if act(&tx.payer).is_some() {
            out.payer = self.cast.fee;
        }
        for ix in out.ixs.iter_mut().filter(|ix| wants(ix)) {
            let mut data = mock::RELAY_TAG.to_vec();
            let mut accounts = vec![AccountMeta::new_readonly(ix.program_id, false)];
            for m in &ix.accounts {
                let n = act(&m.pubkey).filter(|_| m.is_signer);
                data.push(m.is_signer as u8 | (m.is_writable as u8) << 1 | (n.is_some() as u8) << 2);
                data.push(n.unwrap_or(0) as u8);
                accounts.push(AccountMeta { is_signer: m.is_signer && n.is_none(), ..m.clone() });
            }
            data.extend_from_slice(&ix.data);
            *ix = Instruction { program_id: RELAY, accounts, data };
        }
        Some(out)
    }

    pub fn run(&mut self, tx: &Tx, mode: Mode, sink: &mut Sink) -> TxResult {
        mock::set_mode(mode);
        let r = match self.relayed(tx) {
            Some(x) => self.svm.exec(&x),
            None => self.svm.exec(tx),
        };
        mock::set_mode(Mode::Honest);
        sink.txs += 1;
        let mocks = self.cast.mocks.clone();
        let ctx = Ctx { mocks: &mocks, mode };
        let mut verdicts = vec![];
        for e in &r.events {
            sink.events += 1;
            let v = judge(e, &ctx);
            sink.eval(v.rel, || v.label.clone());
            if sink.sample.len() < 3 && v.rel & sink.mask != 0 && v.ok && sink.events % 7 == 3 {
                sink.sample.push(format!("{} -> {}", v.label, if v.ok { "as specified" } else { "refused" }));
            }
            for d in &v.devs {
                let log = &self.log;
                sink.dev(d.clone(), || {
                    format!("mode {mode:?}\n{}{}history:\n{}", show_tx(tx), show_event(e), log.join("\n"))
                });
            }
            verdicts.push(v);
        }
        if r.err == "UnbalancedInstruction" {
            sink.dev(Dev { tags: t![25], what: "instruction would change the total balance".into() }, || show_tx(tx));
        }
        if r.ok {
            let n = self.log.len();
            if n > 60 {
                self.log.drain(..n - 60);
            }
            self.log.push(verdicts.iter().map(|v| v.label.clone()).collect::<Vec<_>>().join(" ; "));
            // donations and other plain transfers to vaults are known to the ledger
            for ix in &tx.ixs {
                if ix.program_id == SYS && ix.data.len() >= 12 && ix.data[..4] == [2, 0, 0, 0] && ix.accounts.len() > 1 {
                    let l = u64::from_le_bytes(ix.data[4..12].try_into().unwrap());
                    if let Some(x) = self.ghost.ledger.get_mut(&ix.accounts[1].pubkey) {
                        *x += l as i128;
                    }
                }
            }
            let tx_s = show_tx(tx);
            if !self.wild {
                self.observe(&verdicts_with(&r, &verdicts), sink, &tx_s);
            }
        }
        r
    }

    /// Executes without judging.
    pub fn run_quiet(&mut self, tx: &Tx) -> TxResult {
        match self.relayed(tx) {
            Some(x) => self.svm.exec(&x),
            None => self.svm.exec(tx),
        }
    }

    fn observe(&mut self, ev: &[(&Event, &Verdict)], sink: &mut Sink, tx_s: &str) {
        let cast = self.cast.clone();
        let log = self.log.clone();
        let mut dev = |tags: u64, what: String, sink: &mut Sink| {
            sink.dev(Dev { tags, what }, || format!("{tx_s}history:\n{}", log.join("\n")));
        };
        for a in &cast.accs {
            let k = a.key;
            let touched = |i: I| ev.iter().any(|(e, v)| v.instr == Some(i) && v.ok && e.metas.len() > 1 && e.metas[1].pubkey == k);
            let (ra, ma) = (self.svm.get(&record_pda(&k)), self.svm.get(&meta_pda(&k)));
            let (csa, cra) = (self.svm.get(&cstate_pda(&k)), self.svm.get(&crecord_pda(&k)));
            let acc = self.svm.get(&k);
            let old = self.ghost.sess.remove(&k);
            let ended = touched(I::Undelegate);
            if is_dlp(&ra) != is_dlp(&ma) {
                dev(t![1, 3, 13], format!("only one of the two session records of {k} exists"), sink);
            }
            if is_dlp(&csa) != is_dlp(&cra) {
                dev(t![7], format!("half a pending commit for {k}"), sink);
            }
            if is_dlp(&self.svm.get(&ubuf_pda(&k))) {
                dev(t![13], format!("undelegation buffer of {k} left behind"), sink);
            }
            if !is_dlp(&ra) {
                if old.is_some() && !ended {
                    dev(t![3], format!("session record of {k} disappeared without undelegation"), sink);
                }
                if is_dlp(&csa) || is_dlp(&cra) {
                    dev(t![7, 12], format!("pending commit for {k} without a session"), sink);
                }
                continue;
            }
            let (Some(rec), Some(meta)) = (Rec::parse(&ra.data), Meta::parse(&ma.data)) else {
                if is_dlp(&ma) {
                    dev(t![27, 3], format!("session records of {k} are unreadable"), sink);
                }
                continue;
            };
            if acc.owner != DLP && acc.lamports > 0 && acc.lamports != u64::MAX {
                if let Some(o) = &old {
                    if o.acc.owner == DLP {
                        dev(t![3], format!("delegated account {k} left the delegation program while its session exists"), sink);
                    }
                }
            }
            if is_dlp(&acc) && acc.lamports < rec.lamports {
                dev(t![25, 3, 11], format!("delegated account {k} holds {} < recorded {}", acc.lamports, rec.lamports), sink);
            }
            let mut pend = None;
            if is_dlp(&cra) && is_dlp(&csa) {
                match CRec::parse(&cra.data) {
                    None => dev(t![27, 7], format!("commit record of {k} unreadable"), sink),
                    Some(c) => {
                        if c.account != k {
                            dev(t![7, 10], format!("commit record of {k} names {}", c.account), sink);
                        }
                        if c.lamports > rec.lamports && csa.lamports < c.lamports - rec.lamports {
                            dev(t![25, 11], format!("pending increase for {k} not covered: {} < {}", csa.lamports, c.lamports - rec.lamports), sink);
                        }
                    }
                }
                pend = Some((csa.data.clone(), cra.data.clone()));
            }
            if let (Some(o), false) = (&old, ended) {
                let fin = touched(I::Finalize);
                if (o.rec.authority, o.rec.owner, o.rec.slot, o.rec.freq) != (rec.authority, rec.owner, rec.slot, rec.freq)
                    || o.meta.seeds != meta.seeds
                    || o.meta.rent_payer != meta.rent_payer
                {
                    dev(t![3], format!("identity of the session of {k} changed: {:?} -> {:?} / {:?} -> {:?}", o.rec, rec, o.meta, meta), sink);
                }
                if meta.last < o.meta.last {
                    dev(t![6], format!("last finalized slot of {k} went back {} -> {}", o.meta.last, meta.last), sink);
                }
                if meta.last != o.meta.last && !fin {
                    dev(t![6, 3], format!("last finalized slot of {k} changed without finalization"), sink);
                }
                if o.meta.undelegatable && !meta.undelegatable {
                    dev(t![12], format!("undelegation permission of {k} withdrawn"), sink);
                }
                if !o.meta.undelegatable && meta.undelegatable && !touched(I::Commit) && !touched(I::CommitBuffer) {
                    dev(t![12], format!("undelegation permission of {k} granted without a commit"), sink);
                }
                if !fin {
                    if rec.lamports != o.rec.lamports {
                        dev(t![3, 11], format!("recorded balance of {k} changed without finalization"), sink);
                    }
                    if acc.data != o.acc.data && acc.lamports > 0 {
                        dev(t![3], format!("data of {k} changed without finalization"), sink);
                    }
                    if acc.lamports < o.acc.lamports {
                        dev(t![3], format!("balance of {k} dropped without finalization"), sink);
                    }
                    if o.pending.is_some() && o.pending != pend {
                        dev(t![7], format!("pending commit of {k} changed or vanished without finalization"), sink);
                    }
                }
            }
            self.ghost.sess.insert(k, GSess { rec, meta, acc, pending: pend });
        }
        // vault ledgers
        let mut vaults: Vec<(Pubkey, u64)> = cast.vals.iter().map(|v| (vvault_pda(v), t![16, 17])).collect();
        vaults.push((pvault_pda(), t![18]));
        for (v, tg) in vaults {
            let a = self.svm.get(&v);
            if is_dlp(&a) {
                if a.data != [0; 8] {
                    dev(tg, format!("vault {v} is malformed"), sink);
                }
                if a.lamports < rent(8) {
                    dev(tg | t![25], format!("vault {v} below rent minimum"), sink);
                }
            }
            if let Some(x) = self.ghost.ledger.get_mut(&v) {
                for (e, d) in ev {
                    // nested invocations are part of their parent
                    if e.nested {
                        continue;
                    }
                    for (k, l) in &d.delta {
                        if *k == v {
                            *x += l;
                        }
                    }
                }
                if *x != a.lamports as i128 {
                    dev(t![25], format!("vault {v} holds {} but the ledger says {}", a.lamports, x), sink);
                }
            }
            self.ghost.ledger.insert(v, a.lamports as i128);
        }
        for p in cast.mocks.iter().chain([SYS, DLP].iter()) {
            let a = self.svm.get(&config_pda(p));
            if is_dlp(&a) {
                match cfg_parse(&a.data) {
                    None => dev(t![19, 27], format!("configuration of {p} malformed"), sink),
                    Some(_) if a.lamports < rent(a.data.len()) => {
                        dev(t![19], format!("configuration of {p} below rent minimum"), sink)
                    }
                    _ => {}
                }
            }
        }
        sink.eval(t![3, 25], || "state-monitor".into());
    }
}
fn verdicts_with<'a>(r: &'a TxResult, v: &'a [Verdict]) -> Vec<(&'a Event, &'a Verdict)> {
    r.events.iter().zip(v.iter()).collect()
}

// ------------------------------------------------------------------ building instructions
pub fn mk(i: I, keys: &[Pubkey], args: &Args) -> Instruction {
    let f = flags(i);
    Instruction {
        program_id: DLP,
        accounts: keys
            .iter()
            .enumerate()
            .map(|(n, k)| AccountMeta { pubkey: *k, is_signer: f[n].0, is_writable: f[n].1 })
            .collect(),
        data: ixdata(i, args),
    }
}
pub fn mk_delegate(payer: Pubkey, acc: Pubkey, owner: Pubkey, d: DArgs) -> Instruction {
    mk(
        I::Delegate,
        &[payer, acc, owner, dbuf_pda(&acc, &owner), record_pda(&acc), meta_pda(&acc), SYS],
        &Args::Delegate(d),
    )
}
pub fn mk_sdk_delegate(payer: Pubkey, acc: Pubkey, prog: Pubkey, d: DArgs) -> Instruction {
    let mut data = mock::DELEGATE.to_vec();
    d.write(&mut data);
    Instruction {
        program_id: prog,
        accounts: vec![
            AccountMeta::new(payer, true),
            AccountMeta::new(acc, false),
            AccountMeta::new_readonly(prog, false),
            AccountMeta::new(dbuf_pda(&acc, &prog), false),
            AccountMeta::new(record_pda(&acc), false),
            AccountMeta::new(meta_pda(&acc), false),
            AccountMeta::new_readonly(DLP, false),
            AccountMeta::new_readonly(SYS, false),
        ],
        data,
    }
}
pub fn mk_delegate_escrow(payer: Pubkey, wallet: Pubkey, idx: u8, d: DArgs) -> Instruction {
    let e = escrow_pda(&wallet, idx);
    mk(
        I::DelegateEscrow,
        &[payer, wallet, e, dbuf_pda(&e, &SYS), record_pda(&e), meta_pda(&e), SYS, DLP],
        &Args::DelegateEscrow(d, idx),
    )
}
pub fn mk_commit(v: Pubkey, acc: Pubkey, owner: Pubkey, c: CArgs, data: Vec<u8>) -> Instruction {
    mk(
        I::Commit,
        &[
            v,
            acc,
            cstate_pda(&acc),
            crecord_pda(&acc),
            record_pda(&acc),
            meta_pda(&acc),
            vvault_pda(&v),
            config_pda(&owner),
            SYS,
        ],
        &Args::Commit(c, data),
    )
}
pub fn mk_commit_buf(v: Pubkey, acc: Pubkey, owner: Pubkey, buf: Pubkey, c: CArgs) -> Instruction {
    mk(
        I::CommitBuffer,
        &[
            v,
            acc,
            cstate_pda(&acc),
            crecord_pda(&acc),
            record_pda(&acc),
            meta_pda(&acc),
            buf,
            vvault_pda(&v),
            config_pda(&owner),
            SYS,
        ],
        &Args::CommitBuffer(c),
    )
}
pub fn mk_finalize(v: Pubkey, acc: Pubkey) -> Instruction {
    mk(
        I::Finalize,
        &[v, acc, cstate_pda(&acc), crecord_pda(&acc), record_pda(&acc), meta_pda(&acc), vvault_pda(&v), SYS],
        &Args::None,
    )
}
pub fn mk_undelegate(v: Pubkey, acc: Pubkey, owner: Pubkey, rent_payer: Pubkey) -> Instruction {
    mk(
        I::Undelegate,
        &[
            v,
            acc,
            owner,
            ubuf_pda(&acc),
            cstate_pda(&acc),
            crecord_pda(&acc),
            record_pda(&acc),
            meta_pda(&acc),
            rent_payer,
            pvault_pda(),
            vvault_pda(&v),
            SYS,
        ],
        &Args::None,
    )
}
pub fn mk_init_protocol(payer: Pubkey) -> Instruction {
    mk(I::InitProtocol, &[payer, pvault_pda(), SYS], &Args::None)
}
pub fn mk_init_validator(payer: Pubkey, admin: Pubkey, id: Pubkey) -> Instruction {
    mk(I::InitValidator, &[payer, admin, pdata_pda(&DLP), id, vvault_pda(&id), SYS], &Args::None)
}
pub fn mk_close_validator(payer: Pubkey, admin: Pubkey, id: Pubkey) -> Instruction {
    mk(I::CloseValidator, &[payer, admin, pdata_pda(&DLP), id, vvault_pda(&id)], &Args::None)
}
pub fn mk_vclaim(v: Pubkey, amt: Option<u64>) -> Instruction {
    mk(I::ValidatorClaim, &[v, pvault_pda(), vvault_pda(&v)], &Args::Claim(amt))
}
pub fn mk_pclaim(admin: Pubkey) -> Instruction {
    mk(I::ProtocolClaim, &[admin, pvault_pda(), pdata_pda(&DLP)], &Args::None)
}
pub fn mk_whitelist(auth: Pubkey, id: Pubkey, prog: Pubkey, insert: bool) -> Instruction {
    mk(
        I::Whitelist,
        &[auth, id, prog, pdata_pda(&prog), pdata_pda(&DLP), config_pda(&prog), SYS],
        &Args::Whitelist(insert),
    )
}
pub fn mk_topup(payer: Pubkey, wallet: Pubkey, amt: u64, idx: u8) -> Instruction {
    mk(I::TopUp, &[payer, wallet, escrow_pda(&wallet, idx), SYS], &Args::TopUp(amt, idx))
}
pub fn mk_close_escrow(wallet: Pubkey, idx: u8) -> Instruction {
    mk(I::CloseEscrow, &[wallet, escrow_pda(&wallet, idx), SYS], &Args::CloseEscrow(idx))
}

// ------------------------------------------------------------------ key pools (shared by all episodes of a run)
pub struct Pools {
    pub mocks: Vec<Pubkey>,
    pub curve: Vec<Pubkey>,
    /// (program, seeds, address)
    pub pdas: Vec<(Pubkey, Vec<Vec<u8>>, Pubkey)>,
    pub off: Vec<Pubkey>,
    pub actors: Vec<Pubkey>,
}
impl Pools {
    pub fn new(seed: u64) -> Pools {
        let mut r = Rng::new(seed, 0xabcdef);
        let mut curve = vec![];
        while curve.len() < 48 {
            let mut b = r.arr32();
            // some that look special
            if curve.len() % 5 == 4 {
                let n = 1 + r.below(8);
                let x = [0, 0, 255, 1][r.below(4)];
                match r.below(4) {
                    0 | 1 => b[..n].fill(x),
                    2 => b[32 - n..].fill(x),
                    _ => {
                        let w = word(&mut r);
                        b[..w.len().min(24)].copy_from_slice(&w[..w.len().min(24)]);
                    }
                }
            }
            let k = Pubkey::new_from_array(b);
            if !curve.contains(&k) && on_curve(&k) {
                curve.push(k);
            }
        }
        let mut mocks: Vec<Pubkey> = (0..6).map(|_| Pubkey::new_from_array(r.arr32())).collect();
        mocks[1] = twin(&mocks[0], &mut r, false);
        let off = (0..24).map(|_| Pubkey::new_from_array(r.arr32())).collect();
        let mut pdas = vec![];
        for n in 0..90 {
            let p = mocks[n % mocks.len()];
            // the usual shapes first
            let shape: Option<&[usize]> = match n / mocks.len() {
                0 => Some(&[32]),
                1 => Some(&[7, 32]),
                2 => Some(&[6, 32, 8]),
                3 => Some(&[32, 32]),
                4 => Some(&[8]),
                _ => None,
            };
            let ns = match r.below(10) {
                0 => 0,
                1 => 15,
                2 => r.below(16),
                _ => 1 + r.below(4),
            };
            let seeds: Vec<Vec<u8>> = (0..ns)
                .map(|_| {
                    let l = match r.below(8) {
                        0 => 0,
                        1 => 32,
                        2 => 31,
                        3 => 1,
                        _ => r.below(33),
                    };
                    match r.below(7) {
                        0 => vec![0; l],
                        1 => b"balance".to_vec(),
                        2 => word(&mut r),
                        _ => r.bytes(l),
                    }
                })
                .collect();
            let seeds = match shape {
                Some(x) => x.iter().map(|l| r.bytes(*l)).collect(),
                None => seeds,
            };
            let s: Vec<&[u8]> = seeds.iter().map(|x| x.as_slice()).collect();
            if let Some((k, _)) = derive(&s, &p) {
                if !pdas.iter().any(|(_, _, q)| *q == k) {
                    pdas.push((p, seeds, k));
                }
            }
        }
        let actors = (0..4).map(|n| mock::actor(&RELAY, n).0).collect();
        Pools { mocks, curve, pdas, off, actors }
    }
}

pub struct World {
    pub sim: Sim,
    pub rng: Rng,
    pub cast: Arc<Cast>,
}

impl World {
    pub fn new(pools: &Pools, mut rng: Rng, sink: &mut Sink) -> World {
        let mut curve = pools.curve.clone();
        rng.shuffle(&mut curve);
        let mut take = || curve.pop().unwrap();
        let admin = take();
        let fee = take();
        let outsider = take();
        let mut mocks = pools.mocks.clone();
        rng.shuffle(&mut mocks);
        mocks.truncate(3);
        let auths: Vec<Pubkey> = mocks.iter().map(|_| take()).collect();
        let mut vals: Vec<Pubkey> = (0..4).map(|_| take()).collect();
        let mut wallets: Vec<Pubkey> = (0..4).map(|_| take()).collect();
        // keys that differ in a single byte
        if rng.pct(25) {
            vals[2] = twin(&vals[0], &mut rng, true);
        }
        if rng.pct(25) {
            wallets[1] = twin(&wallets[0], &mut rng, true);
        }
        if rng.pct(5) {
            wallets[2] = twin(&vals[0], &mut rng, true);
        }
        // parties that are programs' derived addresses, and parties in two parts
        let (mut admin, mut auths) = (admin, auths);
        let ac = &pools.actors;
        if rng.pct(12) {
            vals[3] = ac[0];
        }
        if rng.pct(12) {
            wallets[1] = ac[1];
        }
        if rng.pct(6) {
            admin = ac[2];
        }
        if rng.pct(6) {
            auths[0] = ac[3];
        }
        if rng.pct(6) {
            wallets[0] = vals[0];
        }
        if rng.pct(5) {
            admin = vals[1];
        }
        if rng.pct(5) {
            auths[1] = vals[2];
        }
        if rng.pct(3) {
            auths[0] = wallets[0];
        }
        let mut accs = vec![];
        let mut pd: Vec<_> = pools.pdas.iter().filter(|p| mocks.contains(&p.0)).cloned().collect();
        rng.shuffle(&mut pd);
        for (prog, seeds, key) in pd.into_iter().take(3 + rng.below(2)) {
            accs.push(AccDef { key, kind: Kind::Pda { prog, seeds } });
        }
        for _ in 0..rng.below(3) {
            let owner = if rng.pct(50) { SYS } else { *rng.pick(&mocks) };
            accs.push(AccDef { key: take(), kind: Kind::Curve { owner } });
        }
        for n in 0..3 {
            let wallet = wallets[n % 2];
            let idx = match rng.below(6) {
                0 => 255,
                1 => 1,
                2 => rng.u64() as u8,
                _ => 0,
            };
            let key = escrow_pda(&wallet, idx);
            if !accs.iter().any(|a: &AccDef| a.key == key) {
                accs.push(AccDef { key, kind: Kind::Escrow { wallet, idx } });
            }
        }
        let bufs: Vec<Pubkey> = (0..3).map(|_| *rng.pick(&pools.off)).collect();
        let mut svm = Svm::new(&mocks);
        svm.slot = rng.val(&[1, 100, 1 << 32], dict()) >> rng.below(32);
        svm.put(pdata_pda(&DLP), 1_000_000_000, LOADER, programdata(svm.slot, Some(admin)));
        for (n, m) in mocks.iter().enumerate() {
            let a = match rng.below(8) {
                0 => None,
                1 => Some(admin),
                _ => Some(auths[n]),
            };
            svm.put(pdata_pda(m), 1_000_000_000, LOADER, programdata(1, a));
        }
        for k in [admin, fee, outsider].iter().chain(&auths).chain(&wallets) {
            svm.put(*k, 500_000_000_000 + rng.u64() % 1000, SYS, vec![]);
        }
        svm.put(outsider, 20_000_000_000_000_000, SYS, vec![]);
        for (n, k) in vals.iter().enumerate() {
            let l = match rng.below(6) {
                0 if n > 0 => rent(0) + rng.u64() % 10_000_000,
                1 => 10_000_000_000,
                _ => 1_000_000_000_000_000 + rng.u64() % 1_000_000,
            };
            svm.put(*k, l, SYS, vec![]);
        }
        for b in &bufs {
            let o = match rng.below(4) {
                0 => SYS,
                1 => *rng.pick(&mocks),
                2 => DLP,
                _ => LOADER,
            };
            let l = pick_len(&mut rng, 40);
            let d = pick_data(&mut rng, l);
            svm.put(*b, rent(d.len()), o, d);
        }
        for a in &accs {
            match &a.kind {
                Kind::Pda { prog, .. } => {
                    let l = if rng.pct(15) { 0 } else { pick_len(&mut rng, 32) };
                    let d = pick_data(&mut rng, l);
                    let extra = extra_lamports(&mut rng);
                    svm.put(a.key, rent(d.len()) + extra, *prog, d);
                }
                Kind::Curve { .. } => {
                    let extra = extra_lamports(&mut rng);
                    svm.put(a.key, rent(0) + extra, SYS, vec![]);
                }
                Kind::Escrow { .. } => {}
            }
        }
        // programs with a long list of validators from before
        for m in &mocks {
            if rng.pct(12) {
                let n = match rng.below(6) {
                    0 => 255,
                    1 => 256,
                    2 => 300 + rng.below(60),
                    3 => rng.below(300),
                    _ => 5 + rng.below(40),
                };
                let mut set: BTreeSet<Pubkey> = (0..n).map(|_| Pubkey::new_from_array(rng.arr32())).collect();
                for v in &vals {
                    if rng.pct(50) {
                        set.insert(*v);
                    }
                }
                let d = cfg_bytes(&set);
                svm.put(config_pda(m), rent(d.len()), DLP, d);
            }
        }
        let cast = Arc::new(Cast { admin, mocks, auths, vals, wallets, accs, bufs, fee, outsider, actors: pools.actors.clone() });
        let sim = Sim { svm, cast: cast.clone(), ghost: Ghost::default(), wild: false, relay: false, log: vec![] };
        let mut w = World { sim, rng, cast };
        w.sim.resync();
        // bring the protocol up
        let mut boot = vec![];
        if w.rng.pct(94) {
            boot.push(mk_init_protocol(w.cast.outsider));
        }
        for (n, v) in w.cast.vals.clone().into_iter().enumerate() {
            if n == 0 || w.rng.pct(65) {
                boot.push(mk_init_validator(w.cast.fee, w.cast.admin, v));
            }
        }
        for p in w.cast.mocks.clone() {
            if w.rng.pct(25) {
                for v in w.cast.vals.clone() {
                    if w.rng.pct(60) {
                        boot.push(mk_whitelist(w.cast.admin, v, p, true));
                    }
                }
            }
        }
        for ix in boot {
            w.sim.run(&Tx::one(w.cast.fee, ix), Mode::Honest, sink);
        }
        w
    }
}

/// another key that differs in a single byte
fn twin(k: &Pubkey, r: &mut Rng, curve: bool) -> Pubkey {
    loop {
        let mut b = k.to_bytes();
        let i = match r.below(3) {
            0 => 31,
            1 => 0,
            _ => r.below(32),
        };
        b[i] ^= 1 + (r.u64() % 255) as u8;
        let t = Pubkey::new_from_array(b);
        if !curve || on_curve(&t) {
            return t;
        }
    }
}

pub fn pick_len(r: &mut Rng, cur: usize) -> usize {
    match r.below(12) {
        0 => 0,
        1 => 1,
        2 | 3 => cur,
        4 => cur + 1,
        5 => cur.saturating_sub(1),
        6 => *r.pick(&[8usize, 32, 64, 88, 96, 104, 128, 255, 256, 257]),
        7 => {
            let d = dict();
            if d.is_empty() {
                3
            } else {
                (*r.pick(d) as usize) % 2000
            }
        }
        8 => r.below(1200),
        _ => r.below(80),
    }
}
pub fn pick_data(r: &mut Rng, len: usize) -> Vec<u8> {
    match r.below(9) {
        0 => vec![0; len],
        1 => vec![0xff; len],
        8 => {
            // says something the program knows
            let w = word(r);
            let mut v = match r.below(3) {
                0 => vec![0; len],
                1 => vec![r.u64() as u8; len],
                _ => r.bytes(len),
            };
            let at = match r.below(4) {
                0 => len.saturating_sub(w.len()),
                1 => r.below(len.max(1)),
                _ => 0,
            };
            for (i, x) in w.iter().enumerate() {
                if let Some(y) = v.get_mut(at + i) {
                    *y = *x;
                }
            }
            v
        }
        2 => {
            // looks like one of the protocol's own records
            let k = Pubkey::new_from_array(r.arr32());
            let mut v = match r.below(4) {
                0 => Rec { authority: k, owner: k, slot: 1, lamports: 0, freq: 3 }.bytes(),
                1 => Meta { last: 9, undelegatable: true, seeds: vec![vec![1]], rent_payer: k }.bytes(),
                2 => CRec { identity: k, account: k, slot: 1, lamports: 1 }.bytes(),
                _ => cfg_bytes(&[k].into_iter().collect()),
            };
            v.resize(len, 0);
            v
        }
        3 => {
            let mut v = vec![0; len];
            if len > 0 {
                let i = r.below(len);
                v[i] = 1 + (r.u64() % 255) as u8;
            }
            v
        }
        _ => r.bytes(len),
    }
}
fn extra_lamports(r: &mut Rng) -> u64 {
    match r.below(5) {
        0 | 1 => 0,
        2 => 1,
        3 => r.u64() % 1000,
        _ if r.pct(30) => r.u64() >> (14 + r.below(40)),
        _ => r.u64() % 10_000_000_000,
    }
}
