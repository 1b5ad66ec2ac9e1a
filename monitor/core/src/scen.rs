//! Scenarios: what is tried around each generated operation, and the differential oracles.
use crate::gen::*;
use crate::mock::{self, Mode};
use crate::model::*;
use crate::rng::Rng;
use crate::sim::*;
use crate::spec::Dev;
use crate::svm::*;
use crate::t;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use solana_program::system_instruction as si;
use std::sync::OnceLock;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sc {
    Probe,
    Interleave,
    Replay,
    Twin,
    Bundle,
    Priv,
    Donation,
    Commute,
    Live,
    Builder,
    Hostile,
    Fuzz,
    Args,
    Hidden,
    Indirect,
    Opaque,
    Outsider,
    Rename,
    Again,
}
pub const SCS: [Sc; 19] = [
    Sc::Probe,
    Sc::Interleave,
    Sc::Replay,
    Sc::Twin,
    Sc::Bundle,
    Sc::Priv,
    Sc::Donation,
    Sc::Commute,
    Sc::Live,
    Sc::Builder,
    Sc::Hostile,
    Sc::Fuzz,
    Sc::Args,
    Sc::Hidden,
    Sc::Indirect,
    Sc::Opaque,
    Sc::Outsider,
    Sc::Rename,
    Sc::Again,
];

/// What the crate's own builders produce for a request (filled in by the binary).
pub enum BReq {
    Delegate { payer: Pubkey, acc: Pubkey, owner: Option<Pubkey>, d: DArgs },
    DelegateEscrow { payer: Pubkey, wallet: Pubkey, d: DArgs, idx: u8 },
    Commit { v: Pubkey, acc: Pubkey, owner: Pubkey, c: CArgs, data: Vec<u8> },
    CommitBuffer { v: Pubkey, acc: Pubkey, owner: Pubkey, buf: Pubkey, c: CArgs },
    Finalize { v: Pubkey, acc: Pubkey },
    Undelegate { v: Pubkey, acc: Pubkey, owner: Pubkey, rp: Pubkey },
    InitProtocol { payer: Pubkey },
    InitValidator { payer: Pubkey, admin: Pubkey, id: Pubkey },
    CloseValidator { payer: Pubkey, admin: Pubkey, id: Pubkey },
    VClaim { v: Pubkey, amt: Option<u64> },
    PClaim { admin: Pubkey },
    Whitelist { auth: Pubkey, id: Pubkey, prog: Pubkey, insert: bool },
    TopUp { payer: Pubkey, wallet: Pubkey, amt: Option<u64>, idx: Option<u8> },
    CloseEscrow { wallet: Pubkey, idx: u8 },
}
pub static BUILD: OnceLock<fn(&BReq) -> Instruction> = OnceLock::new();
pub static PDAS: OnceLock<fn(&Pubkey, &Pubkey, u8) -> Vec<(&'static str, Pubkey)>> = OnceLock::new();

fn store_diff(a: &Sim, b: &Sim, skip: &[Pubkey]) -> Vec<(Pubkey, Acc, Acc)> {
    let mut keys: Vec<Pubkey> = a.svm.store.keys().chain(b.svm.store.keys()).copied().collect();
    keys.sort();
    keys.dedup();
    let mut out = vec![];
    for k in keys {
        if skip.contains(&k) {
            continue;
        }
        let (x, y) = (a.svm.get(&k), b.svm.get(&k));
        if x != y {
            out.push((k, x, y));
        }
    }
    out
}
fn show_diff(d: &[(Pubkey, Acc, Acc)]) -> String {
    d.iter()
        .take(6)
        .map(|(k, a, b)| {
            format!(
                "{k}: lamports {} vs {}, owner {} vs {}, data {} vs {}",
                a.lamports,
                b.lamports,
                a.owner,
                b.owner,
                crate::spec::hex(&a.data),
                crate::spec::hex(&b.data)
            )
        })
        .collect::<Vec<_>>()
        .join("\n")
}
/// Other names for some of the parties.
#[derive(Default)]
pub struct Names {
    keys: std::collections::HashMap<Pubkey, Pubkey>,
    /// byte strings that are replaced wherever they occur, by their first eight bytes
    pieces: std::collections::HashMap<[u8; 8], Vec<(Vec<u8>, Vec<u8>)>>,
}
impl Names {
    fn piece(&mut self, a: &[u8], b: &[u8]) {
        let mut h = [0; 8];
        h.copy_from_slice(&a[..8]);
        self.pieces.entry(h).or_default().push((a.to_vec(), b.to_vec()));
    }
    fn add(&mut self, a: Pubkey, b: Pubkey) {
        if a != b && !self.keys.contains_key(&a) {
            self.keys.insert(a, b);
            self.piece(a.as_ref(), b.as_ref());
        }
    }
    fn key(&self, k: &Pubkey) -> Pubkey {
        *self.keys.get(k).unwrap_or(k)
    }
    fn scan(&self, d: &[u8]) -> Vec<u8> {
        let mut o = Vec::with_capacity(d.len());
        let mut i = 0;
        let mut h = [0; 8];
        'next: while i < d.len() {
            if i + 8 <= d.len() {
                h.copy_from_slice(&d[i..i + 8]);
                if let Some(l) = self.pieces.get(&h) {
                    for (a, b) in l {
                        if d[i..].starts_with(a) {
                            o.extend_from_slice(b);
                            i += a.len();
                            continue 'next;
                        }
                    }
                }
            }
            o.push(d[i]);
            i += 1;
        }
        o
    }
    fn data(&self, d: &[u8]) -> Vec<u8> {
        match cfg_parse(d) {
            // (the list is kept in order)
            Some(l) => cfg_bytes(&l.iter().map(|k| self.key(k)).collect()),
            None => self.scan(d),
        }
    }
    fn ix(&self, ix: &Instruction) -> Instruction {
        let mut o = ix.clone();
        for m in o.accounts.iter_mut() {
            m.pubkey = self.key(&m.pubkey);
        }
        o.data = self.scan(&ix.data);
        if ix.program_id == DLP && ix.data.first() == Some(&I::Commit.tag()) {
            if let Some(Args::Commit(c, d)) = ix.data.get(8..).and_then(|x| Args::decode(I::Commit, x)) {
                let mut v = ix.data[..8].to_vec();
                Args::Commit(c, self.data(&d)).encode(&mut v);
                o.data = v;
            }
        }
        o
    }
}
/// true when the transaction destroyed a non-empty account because its balance reached zero
fn purged_state(r: &TxResult, s: &Sim) -> bool {
    // (the records of a session are another matter: nothing may be left of them to be destroyed)
    r.purged.iter().filter(|k| s.cast.accs.iter().any(|a| a.key == **k)).any(|k| {
        r.events.iter().any(|e| {
            e.direct
                && e.post.as_ref().and_then(|p| p.get(k)).map(|a| a.owner != SYS || !a.data.is_empty()).unwrap_or(false)
        })
    })
}

impl World {
    fn clean_signers(&mut self, ix: &mut Instruction) {
        for m in ix.accounts.iter_mut() {
            if m.is_signer && !self.cast.can_sign(&m.pubkey) {
                m.is_signer = false;
            }
        }
    }
    /// An address that could be slipped in at this position.
    fn candidate(&mut self, sim: &mut Sim, cur: Pubkey, role: &str, acc: Option<Pubkey>) -> Pubkey {
        let other = self.cast.accs[self.rng.below(self.cast.accs.len())].clone();
        let v = self.payer_any();
        let a = if self.rng.pct(60) { other.key } else { acc.unwrap_or(other.key) };
        match self.rng.below(16) {
            0 => record_pda(&a),
            1 => meta_pda(&a),
            2 => cstate_pda(&a),
            3 => crecord_pda(&a),
            4 => vvault_pda(&v),
            5 => pvault_pda(),
            6 => config_pda(self.rng.clone().pick(&self.cast.mocks)),
            7 => *self.rng.pick(&[SYS, DLP, Pubkey::default(), self.cast.mocks[0], LOADER]),
            8 => v,
            9 => a,
            10 => {
                // same role, other party
                match role {
                    "record" => record_pda(&other.key),
                    "metadata" => meta_pda(&other.key),
                    "commit-state" => cstate_pda(&other.key),
                    "commit-record" => crecord_pda(&other.key),
                    "undelegate-buffer" => ubuf_pda(&other.key),
                    "validator-vault" => vvault_pda(&v),
                    "protocol-vault" => vvault_pda(&v),
                    "config" => {
                        let p = match self.rng.below(4) {
                            0 => SYS,
                            1 => DLP,
                            _ => *self.rng.pick(&self.cast.mocks),
                        };
                        config_pda(&p)
                    }
                    "programdata" | "dlp-programdata" => {
                        let p = *self.rng.pick(&self.cast.mocks);
                        if self.rng.pct(50) {
                            pdata_pda(&p)
                        } else {
                            pdata_pda(&DLP)
                        }
                    }
                    "owner-program" | "program" => *self.rng.pick(&self.cast.mocks),
                    "buffer" => dbuf_pda(&other.key, &other.owner()),
                    "account" | "escrow" => other.key,
                    "system" | "dlp" => *self.rng.pick(&self.cast.mocks),
                    "data-buffer" => *self.rng.pick(&self.cast.bufs),
                    _ => v,
                }
            }
            _ => {
                // a forged look-alike at a fresh address
                let k = Pubkey::new_from_array(self.rng.arr32());
                let src = if self.rng.pct(70) { cur } else { record_pda(&a) };
                let mut x = sim.svm.get(&src);
                if x.lamports == 0 {
                    x.lamports = rent(x.data.len());
                }
                if self.rng.pct(40) {
                    x.owner = *self.rng.pick(&[SYS, DLP, self.cast.mocks[0], LOADER]);
                }
                // doctored contents in the attacker's favour
                let me = self.cast.outsider;
                match role {
                    "config" => x.data = cfg_bytes(&self.cast.signers().into_iter().collect()),
                    "programdata" | "dlp-programdata" => {
                        let who = if self.rng.pct(50) { me } else { *self.rng.pick(&self.cast.signers()) };
                        x.data = programdata(1, Some(who))
                    }
                    "validator-vault" | "protocol-vault" => {
                        x.data = vec![0; 8];
                        x.lamports += 1_000_000;
                        if self.rng.pct(60) {
                            x.owner = DLP;
                        }
                    }
                    "metadata" => {
                        if let Some(mut m) = Meta::parse(&x.data) {
                            m.undelegatable = self.rng.pct(50);
                            m.last = 0;
                            m.rent_payer = me;
                            x.data = m.bytes();
                        }
                    }
                    "record" => {
                        if let Some(mut r) = Rec::parse(&x.data) {
                            r.lamports = 0;
                            x.data = r.bytes();
                        }
                    }
                    "commit-record" => {
                        let v = self.pick_val(50);
                        let acc = acc.unwrap_or(other.key);
                        x.data = CRec { identity: v, account: acc, slot: u64::MAX, lamports: 0 }.bytes();
                    }
                    _ => {}
                }
                if x.lamports < rent(x.data.len()) {
                    x.lamports = rent(x.data.len());
                }
                sim.svm.put(k, x.lamports, x.owner, x.data);
                k
            }
        }
    }
    fn payer_any(&mut self) -> Pubkey {
        let s = self.cast.signers();
        *self.rng.pick(&s)
    }

    /// Turns an owner-program delegation into the direct instruction it issues, with the account staged.
    fn stage(&mut self, sim: &Sim, plan: &Plan) -> Option<(Sim, Plan)> {
        let key = plan.acc?;
        let def = self.cast.accs.iter().find(|a| a.key == key)?.clone();
        let Kind::Pda { prog, .. } = def.kind else { return None };
        let mut s = sim.clone();
        let mut a = s.svm.get(&key);
        if a.owner != prog {
            return None;
        }
        if self.rng.pct(3) {
            // larger than what one instruction could allocate or commit
            let len = 10241 + self.rng.below(9000);
            a.data = self.rng.bytes(len);
            a.lamports = a.lamports.max(rent(len));
        }
        let payer = plan.ix().accounts[0].pubkey;
        let mut d = DArgs::read(&mut Rd(&plan.ix().data[8..]))?;
        if self.rng.pct(6) {
            // seeds that only derive the account when taken as they stand, bump included
            let sl: Vec<&[u8]> = d.seeds.iter().map(|x| x.as_slice()).collect();
            if let (true, Some((_, b))) = (sl.len() < 16, derive(&sl, &prog)) {
                d.seeds.push(vec![b]);
            }
        }
        if self.rng.pct(65) {
            let len = a.data.len();
            let mut b = a.data;
            if self.rng.pct(12) {
                let x = 1 + self.rng.below(9);
                match self.rng.below(4) {
                    0 => b.truncate(len.saturating_sub(x)),
                    1 => b.truncate(self.rng.below(len + 1)),
                    _ => b.extend(self.rng.bytes(x)),
                }
            }
            let mut old = vec![0; len];
            if self.rng.pct(30) {
                // not what was in the account
                old = pick_data(&mut self.rng, len);
                if self.rng.pct(70) {
                    b = pick_data(&mut self.rng, b.len());
                }
            }
            s.svm.put(dbuf_pda(&key, &prog), rent(b.len()), prog, b);
            s.svm.put(key, a.lamports, DLP, old);
        } else {
            s.svm.put(key, a.lamports, DLP, a.data);
        }
        let ix = mk_delegate(payer, key, prog, d);
        Some((s, Plan { op: Op::Delegate, ixs: vec![ix], target: 0, mode: Mode::Honest, acc: Some(key) }))
    }

    fn mutate(&mut self, sim: &Sim, plan: &Plan) -> (Sim, Plan, &'static str) {
        let mut s = sim.clone();
        let mut p = plan.clone();
        let t = p.target;
        let i = p.instr();
        let names: &[&str] = i.map(roles).unwrap_or(&[]);
        let n = p.ixs[t].accounts.len();
        let kind = self.rng.below(18);
        let what = match kind {
            0 | 1 => {
                let sg: Vec<usize> = (0..n).filter(|x| p.ixs[t].accounts[*x].is_signer).collect();
                if !sg.is_empty() {
                    let x = *self.rng.pick(&sg);
                    p.ixs[t].accounts[x].is_signer = false;
                    if self.rng.pct(50) {
                        // somebody else signs instead, and nothing is left to pay for
                        for y in 0..n {
                            if y != x {
                                p.ixs[t].accounts[y].is_signer = self.rng.pct(80);
                            }
                            let k = p.ixs[t].accounts[y].pubkey;
                            if s.svm.get(&k).is_uninit() && !crate::spec::on_curve(&k) {
                                let l = rent(10_240);
                                s.svm.add_lamports(k, l);
                            }
                        }
                        if matches!(i, Some(I::Commit | I::CommitBuffer)) && self.rng.pct(30) {
                            // ...nor to be paid for later
                            let at = 16;
                            if let Some(b) = p.ixs[t].data.get_mut(at..at + 8) {
                                b.fill(0);
                            }
                            if let (true, Some(b)) = (self.rng.pct(50), p.ixs[t].data.get_mut(at + 8)) {
                                *b = 0;
                            }
                        }
                        s.resync();
                    }
                }
                "unsigned"
            }
            2 => {
                let x = self.rng.below(n.max(1));
                if n > 0 {
                    p.ixs[t].accounts[x].is_writable ^= true;
                }
                "writable-flip"
            }
            3 => {
                let d = &mut p.ixs[t].data;
                match self.rng.below(4) {
                    0 => {
                        let l = self.rng.below(d.len() + 1);
                        d.truncate(l);
                    }
                    1 => {
                        let x = 1 + self.rng.below(9);
                        let b = self.rng.bytes(x);
                        d.extend(b);
                    }
                    2 if !d.is_empty() => {
                        let x = self.rng.below(d.len());
                        d[x] = self.rng.u64() as u8;
                    }
                    _ if d.len() > 8 => {
                        let x = 8 + self.rng.below(d.len() - 8);
                        d[x] ^= 1 << self.rng.below(8);
                    }
                    _ => {}
                }
                "data"
            }
            4 => {
                if self.rng.pct(60) {
                    if n > 0 {
                        let x = if self.rng.pct(50) { n - 1 } else { self.rng.below(n) };
                        p.ixs[t].accounts.remove(x);
                    }
                } else {
                    let k = self.payer_any();
                    let x = self.rng.below(n + 1);
                    p.ixs[t].accounts.insert(x, AccountMeta::new(k, false));
                }
                "account-count"
            }
            5 => {
                if n > 1 {
                    let (x, y) = (self.rng.below(n), self.rng.below(n));
                    let (a, b) = (p.ixs[t].accounts[x].pubkey, p.ixs[t].accounts[y].pubkey);
                    p.ixs[t].accounts[x].pubkey = b;
                    p.ixs[t].accounts[y].pubkey = a;
                }
                "swap-two"
            }
            6..=11 => {
                if n > 0 {
                    let x = self.rng.below(n);
                    let cur = p.ixs[t].accounts[x].pubkey;
                    let role = names.get(x).copied().unwrap_or("");
                    p.ixs[t].accounts[x].pubkey = self.candidate(&mut s, cur, role, plan.acc);
                    if self.rng.pct(20) {
                        let y = self.rng.below(n);
                        let cur = p.ixs[t].accounts[y].pubkey;
                        let role = names.get(y).copied().unwrap_or("");
                        p.ixs[t].accounts[y].pubkey = self.candidate(&mut s, cur, role, plan.acc);
                    }
                }
                "substituted"
            }
            12 | 13 | 14 => {
                // mix with another instance of the same operation
                if let Some(q) = self.gen(plan.op, 60) {
                    let same = q.instr() == i && q.ix().accounts.len() == n;
                    if same {
                        let prob = [15, 30, 50][self.rng.below(3)];
                        for x in 0..n {
                            if self.rng.pct(prob) {
                                p.ixs[t].accounts[x] = q.ix().accounts[x].clone();
                            }
                        }
                        if self.rng.pct(20) {
                            p.ixs[t].data = q.ix().data.clone();
                        }
                    }
                }
                "mixed"
            }
            15 => {
                // a derivation with another bump, holding the same contents
                if n > 0 {
                    let x = self.rng.below(n);
                    let role = names.get(x).copied().unwrap_or("");
                    if let (Some(acc), true) = (plan.acc, true) {
                        let pre: Option<(&[u8], Pubkey)> = match role {
                            "record" => Some((b"delegation", acc)),
                            "metadata" => Some((b"delegation-metadata", acc)),
                            "commit-state" => Some((b"state-diff", acc)),
                            "commit-record" => Some((b"commit-state-record", acc)),
                            "undelegate-buffer" => Some((b"undelegate-buffer", acc)),
                            "validator-vault" => Some((b"v-fees-vault", p.ixs[t].accounts[0].pubkey)),
                            _ => None,
                        };
                        if let Some((pre, k)) = pre {
                            let canon = derive(&[pre, k.as_ref()], &DLP).unwrap().1;
                            for b in (0..canon).rev() {
                                if let Ok(alt) = Pubkey::create_program_address(&[pre, k.as_ref(), &[b]], &DLP) {
                                    let src = s.svm.get(&p.ixs[t].accounts[x].pubkey);
                                    s.svm.put(alt, src.lamports.max(if src.data.is_empty() { 0 } else { 1 }), src.owner, src.data);
                                    p.ixs[t].accounts[x].pubkey = alt;
                                    break;
                                }
                            }
                        }
                    }
                }
                "other-bump"
            }
            16 => {
                // a later tag on the same accounts / another operation's data
                if self.rng.pct(50) {
                    let tg = self.rng.below(20) as u8;
                    if let Some(b) = p.ixs[t].data.first_mut() {
                        *b = tg;
                    }
                } else if let Some(q) = {
                    let o = *self.rng.pick(&OPS);
                    let keep = self.sim.svm.clone();
                    let q = self.gen(o, 0);
                    self.sim.svm = keep;
                    q
                } {
                    if q.ix().program_id == DLP {
                        p.ixs[t].data = q.ix().data.clone();
                    }
                }
                "other-tag"
            }
            _ => {
                // another signer claims the operation
                if n > 0 {
                    let sg: Vec<usize> = (0..n).filter(|x| p.ixs[t].accounts[*x].is_signer).collect();
                    if !sg.is_empty() {
                        let x = *self.rng.pick(&sg);
                        let k = self.payer_any();
                        p.ixs[t].accounts[x].pubkey = k;
                        // with its own vault where there is one
                        if self.rng.pct(70) {
                            for y in 0..n {
                                if names.get(y) == Some(&"validator-vault") {
                                    let v = vvault_pda(&k);
                                    p.ixs[t].accounts[y].pubkey = v;
                                    if self.rng.pct(40) && s.svm.get(&v).is_uninit() {
                                        let l = rent(8) + self.rng.u64() % 3;
                                        s.svm.add_lamports(v, l);
                                        s.resync();
                                    }
                                }
                            }
                        }
                    }
                }
                "other-signer"
            }
        };
        let mut ix = p.ixs[t].clone();
        self.clean_signers(&mut ix);
        p.ixs[t] = ix;
        (s, p, what)
    }

    /// Puts stored state into a shape that no history leads to (an older version of the program might have).
    fn perturb(&mut self, s: &mut Sim, plan: &Plan) -> Option<&'static str> {
        s.wild = true;
        let acc = plan.acc.unwrap_or(self.cast.accs[0].key);
        let al = s.svm.lamports(&acc);
        let party = |w: &mut World| match w.rng.below(5) {
            0 => w.cast.outsider,
            1 => w.cast.admin,
            2 => *w.rng.pick(&w.cast.vals),
            3 => *w.rng.pick(&w.cast.wallets),
            _ => Pubkey::new_from_array(w.rng.arr32()),
        };
        match self.rng.below(9) {
            0 | 1 => {
                let mut r = s.rec(&acc)?;
                let k = record_pda(&acc);
                let what = match self.rng.below(6) {
                    0 => {
                        r.lamports = al.saturating_add(1 + self.rng.u64() % 1000);
                        "record-above-balance"
                    }
                    1 => {
                        r.lamports = self.rng.val(&[al, al / 2], dict());
                        "record-balance"
                    }
                    2 => {
                        r.slot = self.rng.val(&[s.svm.slot], dict());
                        "record-slot"
                    }
                    3 => {
                        r.freq = self.rng.val(&[], dict());
                        "record-freq"
                    }
                    4 => {
                        r.authority = party(self);
                        "record-validator"
                    }
                    _ => {
                        r.owner = *self.rng.pick(&[SYS, DLP, self.cast.mocks[0], self.cast.outsider]);
                        "record-owner"
                    }
                };
                let a = s.svm.get(&k);
                s.svm.put(k, a.lamports, DLP, r.bytes());
                Some(what)
            }
            2 | 3 => {
                let mut m = s.meta(&acc)?;
                let k = meta_pda(&acc);
                let what = match self.rng.below(3) {
                    0 => {
                        m.last = self.rng.val(&[s.svm.slot, m.last], dict());
                        "metadata-slot"
                    }
                    1 => {
                        m.undelegatable ^= true;
                        "metadata-flag"
                    }
                    _ => {
                        m.rent_payer = party(self);
                        "metadata-payer"
                    }
                };
                let a = s.svm.get(&k);
                s.svm.put(k, a.lamports, DLP, m.bytes());
                Some(what)
            }
            4 | 5 => {
                let mut c = s.pending(&acc)?;
                let k = crecord_pda(&acc);
                let what = match self.rng.below(4) {
                    0 => {
                        c.account = if self.rng.pct(50) { party(self) } else { self.cast.accs[self.rng.below(self.cast.accs.len())].key };
                        "pending-account"
                    }
                    1 => {
                        c.identity = party(self);
                        "pending-committer"
                    }
                    2 => {
                        c.slot = self.rng.val(&[s.svm.slot], dict());
                        "pending-slot"
                    }
                    _ => {
                        c.lamports = self.rng.val(&[al, c.lamports], dict());
                        "pending-balance"
                    }
                };
                let a = s.svm.get(&k);
                s.svm.put(k, a.lamports, DLP, c.bytes());
                Some(what)
            }
            6 => {
                // half a pending commit
                let (a, b) = (cstate_pda(&acc), crecord_pda(&acc));
                let k = if self.rng.pct(50) { a } else { b };
                if s.svm.get(&k).owner == DLP {
                    s.svm.put(k, 0, SYS, vec![]);
                } else if k == a {
                    s.svm.put(a, rent(4), DLP, vec![1; 4]);
                } else {
                    let c = CRec { identity: *self.rng.pick(&self.cast.vals), account: acc, slot: 1, lamports: al };
                    s.svm.put(b, rent(88), DLP, c.bytes());
                }
                Some("half-pending")
            }
            7 => {
                // (claims from a validator vault rely on it never being below its minimum, which holds in every history)
                let k = if self.rng.pct(40) || plan.instr() == Some(I::ValidatorClaim) { pvault_pda() } else { vvault_pda(&*self.rng.pick(&self.cast.vals)) };
                let a = s.svm.get(&k);
                if a.owner != DLP {
                    return None;
                }
                let l = [0, 1, rent(8) - 1, rent(8), rent(8) + 1, rent(8) / 2][self.rng.below(6)];
                s.svm.put(k, l.max(1), DLP, a.data);
                Some("poor-vault")
            }
            _ => {
                // an address about to be used holds data already
                let k = *self.rng.pick(&[record_pda(&acc), meta_pda(&acc), cstate_pda(&acc), crecord_pda(&acc), ubuf_pda(&acc), pvault_pda()]);
                let a = s.svm.get(&k);
                if !a.is_uninit() {
                    return None;
                }
                let n = 1 + self.rng.below(20);
                let d = self.rng.bytes(n);
                s.svm.put(k, rent(n), [SYS, self.cast.mocks[0]][self.rng.below(2)], d);
                Some("occupied")
            }
        }
    }

    fn fee_for(&mut self, p: &Plan) -> Pubkey {
        if self.rng.pct(25) {
            if let Some(m) = p.ix().accounts.iter().find(|m| m.is_signer) {
                if !self.cast.accs.iter().any(|a| a.key == m.pubkey) && !self.cast.actors.contains(&m.pubkey) {
                    return m.pubkey;
                }
            }
        }
        self.cast.fee
    }

    /// The preparation happens in a transaction of its own: what it needed is not signed for later.
    pub fn split(&mut self, base: &mut Sim, plan: &mut Plan, sink: &mut Sink) -> bool {
        let mut pre = plan.clone();
        pre.ixs.truncate(plan.target);
        pre.target = 0;
        let r = base.run(&pre.tx(self.cast.fee), plan.mode, sink);
        if r.ok {
            plan.ixs.drain(..plan.target);
            plan.target = 0;
        }
        r.ok
    }

    pub fn probe(&mut self, plan: &Plan, k: usize, sink: &mut Sink) {
        let mut base = self.sim.clone();
        let mut plan = plan.clone();
        if plan.op == Op::Delegate && plan.instr().is_none() {
            match self.stage(&base, &plan) {
                Some((s, p)) => {
                    base = s;
                    plan = p;
                }
                None => return,
            }
        }
        if plan.target > 0 && self.rng.pct(60) {
            self.split(&mut base, &mut plan, sink);
        }
        let r = base.clone().run(&plan.tx(self.cast.fee), plan.mode, sink);
        let k = if r.ok { k } else { 1 };
        if sink.mask & t![28] != 0 && plan.instr().is_some() {
            // the same request addressed to a copy of the program under another id
            let mut q = plan.clone();
            q.ixs[plan.target].program_id = COPY;
            let tx = q.tx(self.cast.fee);
            let x = base.clone().svm.exec(&tx);
            if x.ok {
                sink.dev(Dev { tags: t![28], what: format!("{:?} accepted although addressed to another program id", plan.op) }, || show_tx(&tx));
            }
            sink.eval(t![28], || format!("wrong-program-id:{:?}", plan.op));
        }
        if self.rng.pct(20) {
            let mut s = base.clone();
            let mut p = plan.clone();
            if self.rng.pct(20) {
                (s, p, _) = self.mutate(&base, &plan);
            }
            if let Some(what) = self.perturb(&mut s, &p) {
                let r = s.run(&p.tx(self.cast.fee), p.mode, sink);
                sink.eval(t![28, 30, 22] & sink.mask, || format!("wild:{:?}:{what}:{}", p.op, okf(r.ok)));
            }
        }
        for _ in 0..k {
            let (mut s, p, what) = self.mutate(&base, &plan);
            // the fee payer signs: never let it be a party whose signature was removed
            let fee = self.cast.fee;
            let r = s.run(&p.tx(fee), p.mode, sink);
            sink.eval(t![28, 30, 22] & sink.mask, || {
                format!("probe:{:?}:{what}:{}", p.op, if r.ok { "accepted-as-allowed" } else { "refused" })
            });
        }
    }

    pub fn interleave(&mut self, plan: &Plan, ops: &[u32], sink: &mut Sink) {
        for _ in 0..3 {
            let o = OPS[self.rng.weighted(ops)];
            let save = self.sim.clone();
            let q = self.gen(o, 20);
            let mut s = self.sim.clone(); // includes clock/authority changes made by gen
            self.sim = save;
            if let Some(q) = q {
                s.run(&q.tx(self.cast.fee), q.mode, sink);
            }
            s.run(&plan.tx(self.cast.fee), plan.mode, sink);
        }
    }
    pub fn replay(&mut self, plan: &Plan, sink: &mut Sink) {
        let mut s = self.sim.clone();
        for _ in 0..3 {
            s.run(&plan.tx(self.cast.fee), plan.mode, sink);
            s.svm.slot = s.svm.slot.saturating_add(1);
        }
    }

    /// C08: commit directly and from a buffer, from the same state.
    pub fn twin(&mut self, sink: &mut Sink) {
        let Some(p) = self.gen(Op::Commit, 25) else { return };
        let mut plan = p;
        let mut base = self.sim.clone();
        if self.rng.pct(25) {
            let (s, q, _) = self.mutate(&base, &plan);
            if q.instr() != Some(I::Commit) || q.ix().accounts.len() != 9 || q.ix().data.len() < 8 {
                return;
            }
            base = s;
            plan = q;
        }
        let Some(Args::Commit(c, mut data)) = Args::decode(I::Commit, &plan.ix().data[8..]) else { return };
        // the buffer: a fresh account, or one that already exists
        let mut buf = None;
        if self.rng.pct(40) {
            let keys: Vec<Pubkey> = base.svm.store.keys().copied().collect();
            let k = *self.rng.pick(&keys);
            let a = base.svm.get(&k);
            if a.data.len() <= 10240 && !plan.ix().accounts.iter().any(|m| m.pubkey == k) && k != self.cast.fee && !a.executable {
                data = a.data.clone();
                buf = Some(k);
            }
        }
        let buf = buf.unwrap_or_else(|| {
            let k = Pubkey::new_from_array(self.rng.arr32());
            let o = *self.rng.pick(&[SYS, DLP, self.cast.mocks[0], LOADER]);
            let l = rent(data.len()) + [0, 0, 5_000_000_000][self.rng.below(3)];
            base.svm.put(k, l, o, data.clone());
            k
        });
        let mut direct = plan.clone();
        let t = plan.target;
        direct.ixs[t].data = ixdata(I::Commit, &Args::Commit(c.clone(), data));
        let mut viab = plan.clone();
        viab.ixs[t].data = ixdata(I::CommitBuffer, &Args::CommitBuffer(c));
        let bw = self.rng.pct(25);
        viab.ixs[t].accounts.insert(6, AccountMeta { pubkey: buf, is_signer: false, is_writable: bw });
        let (mut a, mut b) = (base.clone(), base);
        let fee = self.cast.fee;
        let ra = a.run(&direct.tx(fee), Mode::Honest, sink);
        let rb = b.run(&viab.tx(fee), Mode::Honest, sink);
        sink.eval(t![8], || {
            format!(
                "twin:{}:{}",
                if ra.ok { "accepted" } else { "refused" },
                ra.events.last().map(|e| e.err.clone().unwrap_or_default()).unwrap_or_default()
            )
        });
        let trace = || format!("{}\n{}", show_tx(&direct.tx(fee)), show_tx(&viab.tx(fee)));
        if ra.ok != rb.ok {
            sink.dev(
                Dev { tags: t![8], what: format!("direct commit {} but commit from buffer {} ({} / {})", okf(ra.ok), okf(rb.ok), ra.err, rb.err) },
                trace,
            );
            return;
        }
        let d = store_diff(&a, &b, &[]);
        if !d.is_empty() {
            let s = show_diff(&d);
            sink.dev(Dev { tags: t![8], what: format!("direct commit and commit from buffer end differently: {s}") }, trace);
        }
        // follow both up with the same finalization
        if ra.ok && self.rng.pct(40) {
            if let Some(acc) = plan.acc {
                let v = plan.ix().accounts[0].pubkey;
                let tx = Tx::one(fee, mk_finalize(v, acc));
                let (x, y) = (a.run(&tx, Mode::Honest, sink), b.run(&tx, Mode::Honest, sink));
                let d = store_diff(&a, &b, &[]);
                if x.ok != y.ok || !d.is_empty() {
                    sink.dev(Dev { tags: t![8], what: format!("finalization differs after direct / buffered commit: {}", show_diff(&d)) }, trace);
                }
            }
        }
    }

    /// C24: one transaction per instruction against all in one.
    pub fn bundle(&mut self, ops: &[u32], sink: &mut Sink) {
        let save = self.sim.clone();
        let n = 2 + self.rng.below(3);
        let mut plans: Vec<Plan> = vec![];
        let fee = self.cast.fee;
        let chain = [Op::Delegate, Op::Commit, Op::Finalize, Op::Commit, Op::Finalize, Op::Undelegate, Op::Delegate];
        let start = self.rng.below(chain.len());
        let chained = self.rng.pct(50);
        let mut tries = 0;
        while plans.len() < n && tries < 10 {
            tries += 1;
            let o = if chained { chain[(start + tries) % chain.len()] } else { OPS[self.rng.weighted(ops)] };
            if matches!(o, Op::Slot | Op::RotateAdmin | Op::RotateAuth | Op::Refund | Op::Drain) {
                continue;
            }
            let Some(p) = self.gen(o, 5) else { continue };
            let before = self.sim.clone();
            let r = self.sim.run(&p.tx(fee), Mode::Honest, sink);
            if !r.ok || purged_state(&r, &self.sim) {
                self.sim = before;
                continue;
            }
            // somebody sends something to an address that was just given up
            let mut gone: Vec<Pubkey> = p.ix().accounts.iter().map(|m| m.pubkey).collect();
            gone.retain(|k| before.svm.get(k).owner == DLP && self.sim.svm.lamports(k) == 0);
            let revive = !gone.is_empty() && self.rng.pct(30);
            plans.push(p);
            if revive {
                let k = *self.rng.pick(&gone);
                let amt = self.donation_amount().max(rent(96));
                let q = Plan { op: Op::Donate, ixs: vec![si::transfer(&self.cast.outsider, &k, amt)], target: 0, mode: Mode::Honest, acc: None };
                if self.sim.run(&q.tx(fee), Mode::Honest, sink).ok {
                    plans.push(q);
                }
            }
        }
        let seq = std::mem::replace(&mut self.sim, save);
        if plans.len() < 2 {
            return;
        }
        let tx = Tx { payer: fee, ixs: plans.iter().flat_map(|p| p.ixs.clone()).collect() };
        let mut b = self.sim.clone();
        let r = b.run(&tx, Mode::Honest, sink);
        sink.eval(t![24], || format!("bundle:{:?}", plans.iter().map(|p| p.op).collect::<Vec<_>>()));
        let d = store_diff(&seq, &b, &[]);
        if !r.ok {
            sink.dev(
                Dev { tags: t![24], what: format!("accepted one by one, refused in one transaction: {} (instruction {:?} of {:?})", r.err, r.failed_ix, plans.iter().map(|p| p.op).collect::<Vec<_>>()) },
                || show_tx(&tx),
            );
        } else if !d.is_empty() {
            sink.dev(Dev { tags: t![24], what: format!("bundled result differs: {}", show_diff(&d)) }, || show_tx(&tx));
        }
        // a failing tail must undo everything: observed on the store
        let mut bad = tx.clone();
        bad.ixs.push(Instruction { program_id: DLP, accounts: vec![], data: vec![2, 0, 0, 0, 0, 0, 0, 0] });
        let mut c = self.sim.clone();
        let r = c.run(&bad, Mode::Honest, sink);
        if r.ok || !store_diff(&self.sim, &c, &[]).is_empty() {
            sink.dev(Dev { tags: t![24, 28], what: "failing transaction had an effect".into() }, || show_tx(&bad));
        }
    }
    /// C24: privileges acquired elsewhere in the transaction.
    pub fn privileges(&mut self, plan: &Plan, sink: &mut Sink) {
        let fee = self.cast.fee;
        let mut a = self.sim.clone();
        let ra = a.run(&plan.tx(fee), plan.mode, sink);
        if !ra.ok {
            return;
        }
        // other instructions of the transaction mention the same accounts as writable
        let t = plan.target;
        let mut ixs = plan.ixs.clone();
        let all = self.rng.pct(50);
        let mut carrier = si::transfer(&self.cast.outsider, &self.cast.outsider, 0);
        let metas = ixs[t].accounts.clone();
        for m in metas {
            if all || self.rng.pct(40) {
                carrier.accounts.push(AccountMeta::new(m.pubkey, false));
            }
        }
        if self.rng.pct(50) {
            ixs.insert(0, carrier);
        } else {
            ixs.push(carrier);
        }
        let mut b = self.sim.clone();
        let tx = Tx { payer: fee, ixs };
        let rb = b.run(&tx, plan.mode, sink);
        sink.eval(t![24], || format!("privileges:{:?}", plan.op));
        let d = store_diff(&a, &b, &[]);
        if !rb.ok {
            sink.dev(
                Dev { tags: t![24], what: format!("{:?} refused when another instruction of the transaction makes its accounts writable: {}", plan.op, rb.err) },
                || show_tx(&tx),
            );
        } else if !d.is_empty() {
            sink.dev(Dev { tags: t![24], what: format!("extra writable privilege changed the outcome: {}", show_diff(&d)) }, || show_tx(&tx));
        }
    }

    /// The request on its own, sometimes spoiled: (state, request, what was done to it)
    fn variant(&mut self, plan: &Plan) -> Option<(Sim, Plan, String)> {
        let mut base = self.sim.clone();
        base.relay = false;
        let mut plan = plan.clone();
        if plan.op == Op::Delegate && plan.instr().is_none() && self.rng.pct(60) {
            (base, plan) = self.stage(&base, &plan)?;
        }
        if plan.instr().is_some() && self.rng.pct(35) {
            let (s, p, what) = self.mutate(&base, &plan);
            return Some((s, p, what.to_string()));
        }
        Some((base, plan, "plain".into()))
    }
    /// C31: whatever the request does not name has no say in its outcome.
    pub fn hidden(&mut self, plan: &Plan, ops: &[u32], sink: &mut Sink) {
        let Some((base, plan, how)) = self.variant(plan) else { return };
        let fee = self.cast.fee;
        let tx = plan.tx(fee);
        let mut a = base.clone();
        let ra = a.run(&tx, plan.mode, sink);
        let mine: Vec<Pubkey> = tx.ixs.iter().flat_map(|i| i.accounts.iter().map(|m| m.pubkey)).collect();
        for _ in 0..3 {
            let mut b = base.clone();
            let mut tx2 = tx.clone();
            let mut fees = vec![];
            let what = match self.rng.below(5) {
                0 => {
                    b.svm.slot = match self.rng.below(4) {
                        0 => self.rng.val(&[b.svm.slot], dict()),
                        1 => b.svm.slot.wrapping_add(1),
                        2 => b.svm.slot.wrapping_sub(1),
                        _ => (432_000u64 * (self.rng.u64() % 2_000)).wrapping_add(self.rng.u64() % 200).wrapping_sub(100),
                    };
                    "slot"
                }
                1 => {
                    let t = self.rng.u64();
                    b.svm.skew = match self.rng.below(3) {
                        0 => (t >> self.rng.below(64), (self.rng.u64() >> self.rng.below(64)) as i64),
                        1 => (self.rng.val(&[], dict()), self.rng.val(&[], dict()) as i64),
                        _ => (t % 3, t as i64 % 100_000),
                    };
                    "time and epoch"
                }
                2 => {
                    // accounts the request does not name
                    let keys: Vec<Pubkey> = b.svm.store.keys().copied().filter(|k| !mine.contains(k) && *k != fee && !b.svm.native.contains(k)).collect();
                    for k in keys {
                        if self.rng.pct(40) {
                            continue;
                        }
                        let mut x = b.svm.get(&k);
                        match self.rng.below(4) {
                            0 => x.lamports = 0,
                            1 => x.lamports = rent(x.data.len()) + self.rng.u64() % 1000,
                            2 if !x.data.is_empty() => {
                                let i = self.rng.below(x.data.len());
                                x.data[i] ^= 1 << self.rng.below(8);
                            }
                            _ => x.owner = *self.rng.pick(&[SYS, DLP, self.cast.mocks[0]]),
                        }
                        b.svm.put(k, x.lamports, x.owner, x.data);
                    }
                    "accounts of others"
                }
                3 => {
                    // what was executed before, elsewhere
                    let save = self.sim.clone();
                    for _ in 0..1 + self.rng.below(3) {
                        let o = OPS[self.rng.weighted(ops)];
                        if let Some(q) = self.gen(o, 10) {
                            self.sim.svm.exec(&q.tx(fee));
                        }
                    }
                    self.sim = save;
                    "earlier requests"
                }
                _ => {
                    // who pays for the transaction, and what else is in it
                    let other = Pubkey::new_from_array(self.rng.arr32());
                    b.svm.put(other, 1_000_000_000, SYS, vec![]);
                    b.resync();
                    fees.push(other);
                    if !mine.contains(&fee) {
                        tx2.payer = other;
                    }
                    let noop = si::transfer(&other, &other, 0);
                    // (a program can call whatever its transaction mentions anywhere)
                    let known = mine.contains(&SYS) || tx.ixs.iter().any(|i| i.program_id == SYS);
                    for i in (0..=tx2.ixs.len()).rev().filter(|_| known) {
                        for _ in 0..self.rng.below(3) {
                            tx2.ixs.insert(i, noop.clone());
                        }
                    }
                    "surroundings"
                }
            };
            mock::set_mode(plan.mode);
            let rb = b.run_quiet(&tx2);
            mock::set_mode(Mode::Honest);
            sink.eval(t![31], || format!("hidden:{what}:{:?}:{how}:{}", plan.op, okf(ra.ok)));
            let trace = || format!("{}{}", show_tx(&tx), show_tx(&tx2));
            if ra.ok != rb.ok {
                sink.dev(
                    Dev { tags: t![31], what: format!("{:?} ({how}) {}, but {} when only this differs: {what} ({}/{})", plan.op, okf(ra.ok), okf(rb.ok), ra.err, rb.err) },
                    trace,
                );
                return;
            }
            if !ra.ok {
                continue;
            }
            // (a delegation records the slot it happened in)
            for k in &mine {
                let (x, y, z) = (base.svm.get(k), a.svm.get(k), b.svm.get(k));
                if what == "slot" && mine.iter().any(|m| record_pda(m) == *k) && !is_dlp(&x) && is_dlp(&y) && is_dlp(&z) && Rec::parse(&y.data).is_some() {
                    if let Some(mut r) = Rec::parse(&z.data) {
                        if r.slot == b.svm.slot {
                            r.slot = a.svm.slot;
                            b.svm.put(*k, z.lamports, z.owner, r.bytes());
                        }
                    }
                }
            }
            let d: Vec<_> = store_diff(&a, &b, &fees).into_iter().filter(|(k, ..)| mine.contains(k)).collect();
            if !d.is_empty() {
                sink.dev(Dev { tags: t![31], what: format!("{:?} ({how}) ends differently when only this differs: {what}: {}", plan.op, show_diff(&d)) }, trace);
                return;
            }
        }
    }
    /// Another state of the same length: unrelated, nearly the same, or one that is found elsewhere.
    fn other_state(&mut self, s: &Sim, places: &[Pubkey], cur: &[u8]) -> Vec<u8> {
        let same: Vec<Vec<u8>> = places.iter().map(|k| s.svm.get(k).data).filter(|d| d.len() == cur.len()).collect();
        match self.rng.below(4) {
            0 if !cur.is_empty() => {
                let mut d = cur.to_vec();
                let i = self.rng.below(d.len());
                d[i] ^= 1 << self.rng.below(8);
                d
            }
            1 | 2 if !same.is_empty() => self.rng.pick(&same).clone(),
            _ => pick_data(&mut self.rng, cur.len()),
        }
    }
    /// C33: what an account's state says has no say in anything.
    pub fn opaque(&mut self, plan: &Plan, sink: &mut Sink) {
        let mut base = self.sim.clone();
        let mut plan = plan.clone();
        if plan.op == Op::Delegate && plan.instr().is_none() && self.rng.pct(60) {
            match self.stage(&base, &plan) {
                Some((s, p)) => (base, plan) = (s, p),
                None => return,
            }
        }
        let Some(acc) = plan.acc else { return };
        if plan.instr().is_none() && base.svm.get(&acc).owner == DLP {
            return; // the owner program cannot clear it
        }
        let fee = self.cast.fee;
        let owner = self.cast.accs.iter().find(|a| a.key == acc).map(|a| a.owner()).unwrap_or(SYS);
        // where state is kept
        let mut places = vec![acc, cstate_pda(&acc), dbuf_pda(&acc, &owner)];
        let t = plan.target;
        if plan.instr() == Some(I::CommitBuffer) {
            if let Some(m) = plan.ix().accounts.get(6) {
                let k = m.pubkey;
                if base.svm.get(&k).owner != DLP && plan.ix().accounts.iter().filter(|m| m.pubkey == k).count() == 1 {
                    places.push(k);
                }
            }
        }
        let (mut a, mut b) = (base.clone(), base.clone());
        let mut plan2 = plan.clone();
        let mut changed = vec![];
        for k in &places {
            let x = base.svm.get(k);
            if x.data.is_empty() || self.rng.pct(25) {
                continue;
            }
            let d = self.other_state(&base, &places, &x.data);
            changed.push(*k);
            b.svm.put(*k, x.lamports, x.owner, d);
        }
        if let Some(Args::Commit(c, data)) = plan.instr().filter(|i| *i == I::Commit).and_then(|i| Args::decode(i, plan.ix().data.get(8..)?)) {
            plan2.ixs[t].data = ixdata(I::Commit, &Args::Commit(c, self.other_state(&b, &places, &data)));
        } else if changed.is_empty() {
            return;
        }
        a.resync();
        b.resync();
        let (tx, tx2) = (plan.tx(fee), plan2.tx(fee));
        let ra = a.run(&tx, plan.mode, sink);
        let rb = b.run(&tx2, plan.mode, sink);
        let lens = match base.svm.get(&acc).data.len() {
            0 => "empty",
            1..=7 => "tiny",
            8..=255 => "small",
            _ => "large",
        };
        sink.eval(t![33], || format!("opaque:{:?}:{:?}:{} in {} places:{}", plan.op, plan.instr(), lens, changed.len(), okf(ra.ok)));
        let trace = || format!("{}{}", show_tx(&tx), show_tx(&tx2));
        if ra.ok != rb.ok {
            sink.dev(
                Dev { tags: t![33], what: format!("{:?} {}, but {} with another state of the same length ({}/{}): {}", plan.op, okf(ra.ok), okf(rb.ok), ra.err, rb.err, show_diff(&store_diff(&base, &b, &[]))) },
                trace,
            );
            return;
        }
        places.push(ubuf_pda(&acc));
        let d: Vec<_> = store_diff(&a, &b, &[])
            .into_iter()
            .filter(|(k, x, y)| !places.contains(k) || x.lamports != y.lamports || x.owner != y.owner || x.data.len() != y.data.len())
            .collect();
        if !d.is_empty() {
            sink.dev(Dev { tags: t![33], what: format!("{:?} ends differently with another state of the same length: {}", plan.op, show_diff(&d)) }, trace);
        }
    }
    /// Another address: any, or a special-looking one.
    fn other_name(&mut self, k: &Pubkey) -> Pubkey {
        let all = self.cast.signers();
        loop {
            let mut b = self.rng.arr32();
            match self.rng.below(9) {
                0 => b[0] = [0, 0xff, 1, 0x80][self.rng.below(4)],
                1 => b[31] = [0, 0xff, 1, 0x80][self.rng.below(4)],
                2..=4 => {
                    let n = 1 + self.rng.below(8);
                    let x = [0, 0, 255, 1][self.rng.below(4)];
                    if self.rng.pct(65) {
                        b[..n].fill(x)
                    } else {
                        b[32 - n..].fill(x)
                    }
                }
                6 => {
                    let w = word(&mut self.rng);
                    let n = w.len().min(32);
                    let at = if self.rng.pct(50) { 0 } else { 32 - n };
                    b[at..at + n].copy_from_slice(&w[..n]);
                }
                5 => {
                    // nearly the address of another
                    b = self.rng.pick(&all).to_bytes();
                    b[self.rng.clone().below(32)] ^= 1 << self.rng.below(8);
                }
                7 => {
                    b = k.to_bytes();
                    let n = self.rng.below(32);
                    b[n] ^= 1 + (self.rng.u64() % 255) as u8;
                }
                _ => {}
            }
            let n = Pubkey::new_from_array(b);
            if on_key(&n) == on_key(k) && n != *k && !self.sim.svm.store.contains_key(&n) {
                return n;
            }
        }
    }
    /// C35: addresses are names, nothing else.
    pub fn rename(&mut self, plan: &Plan, sink: &mut Sink) {
        let Some((mut base, plan, how)) = self.variant(plan) else { return };
        base.wild = true;
        base.relay = self.rng.pct(10);
        let fee = self.fee_for(&plan);
        let tx = plan.tx(fee);
        let mut a = base.clone();
        let ra = a.run(&tx, plan.mode, sink);
        // whose names to change
        let mut who: Vec<Pubkey> = self.cast.signers();
        who.extend(self.cast.accs.iter().filter(|a| matches!(a.kind, Kind::Curve { .. })).map(|a| a.key));
        who.retain(|k| !self.cast.actors.contains(k));
        who.sort();
        who.dedup();
        let named: Vec<Pubkey> = tx.ixs.iter().flat_map(|i| i.accounts.iter().map(|m| m.pubkey)).chain([tx.payer]).collect();
        // those the request names, or the records it names
        let written: Vec<Vec<u8>> = named.iter().map(|k| base.svm.get(k).data).filter(|d| d.len() < 600).collect();
        let mentioned: Vec<Pubkey> =
            who.iter().copied().filter(|k| named.contains(k) || written.iter().any(|d| d.windows(32).any(|w| w == k.as_ref()))).collect();
        let owners: Vec<Pubkey> = self.cast.mocks.iter().copied().chain([SYS, DLP]).collect();
        let idxs: Vec<u8> = {
            let mut v: Vec<u8> = self.cast.accs.iter().filter_map(|a| if let Kind::Escrow { idx, .. } = a.kind { Some(idx) } else { None }).collect();
            for i in &tx.ixs {
                if let Some(op) = i.data.first().and_then(|t| I::from_tag(*t)) {
                    match i.data.get(8..).and_then(|d| Args::decode(op, d)) {
                        Some(Args::TopUp(_, n)) | Some(Args::DelegateEscrow(_, n)) | Some(Args::CloseEscrow(n)) => v.push(n),
                        _ => {}
                    }
                }
            }
            v.sort();
            v.dedup();
            v
        };
        for _ in 0..if ra.ok { 2 } else { 3 } {
            let mut n = Names::default();
            let mut what = vec![];
            for _ in 0..1 + self.rng.below(3) {
                let mine: &Vec<Pubkey> = &mentioned;
                let k = if self.rng.pct(70) && !mine.is_empty() { *self.rng.pick(mine) } else { *self.rng.pick(&who) };
                if n.keys.contains_key(&k) {
                    continue;
                }
                let x = self.other_name(&k);
                n.add(k, x);
                what.push(k);
                n.add(vvault_pda(&k), vvault_pda(&x));
                n.add(pdata_pda(&k), pdata_pda(&x));
                for i in &idxs {
                    n.add(escrow_pda(&k, *i), escrow_pda(&x, *i));
                }
            }
            // an account of a program under another address
            let mut seedless = vec![];
            for a in self.cast.accs.clone() {
                if let Kind::Pda { prog, seeds } = &a.kind {
                    let mut s2 = seeds.clone();
                    if let Some(i) = (0..s2.len()).find(|i| s2[*i].iter().collect::<std::collections::BTreeSet<_>>().len() >= 10) {
                        if self.rng.pct(25) {
                            let l = s2[i].len();
                            s2[i] = (0..l).map(|_| self.rng.u64() as u8).collect();
                            n.piece(&seeds[i], &s2[i]);
                        }
                    }
                    seedless.push((a.key, *prog, seeds.clone()));
                }
            }
            for (k, prog, seeds) in seedless {
                let s2: Vec<Vec<u8>> = seeds.iter().map(|s| n.scan(s)).collect();
                if s2 != seeds {
                    let refs: Vec<&[u8]> = s2.iter().map(|s| s.as_slice()).collect();
                    match derive(&refs, &prog) {
                        Some((x, _)) => n.add(k, x),
                        None => return,
                    }
                    what.push(k);
                }
            }
            let firsts: Vec<(Pubkey, Pubkey)> = n.keys.iter().map(|(a, b)| (*a, *b)).collect();
            for (k, x) in firsts {
                for f in [record_pda, meta_pda, cstate_pda, crecord_pda, ubuf_pda, config_pda] {
                    n.add(f(&k), f(&x));
                }
                for o in &owners {
                    n.add(dbuf_pda(&k, o), dbuf_pda(&x, o));
                }
            }
            let mut b = base.clone();
            b.svm.store.clear();
            for (k, x) in base.svm.store.iter() {
                use solana_account::{ReadableAccount, WritableAccount};
                let mut y = x.clone();
                y.set_owner(n.key(x.owner()));
                if !base.svm.native.contains(k) {
                    y.set_data_from_slice(&n.data(x.data()));
                }
                if b.svm.store.insert(n.key(k), y).is_some() {
                    return;
                }
            }
            let tx2 = Tx { payer: n.key(&tx.payer), ixs: tx.ixs.iter().map(|i| n.ix(i)).collect() };
            mock::set_mode(plan.mode);
            let rb = b.run_quiet(&tx2);
            mock::set_mode(Mode::Honest);
            sink.eval(t![35], || format!("rename:{:?}:{how}:{} names:{}", plan.op, what.len(), okf(ra.ok)));
            let trace = || format!("{}{}", show_tx(&tx), show_tx(&tx2));
            if ra.ok != rb.ok {
                sink.dev(
                    Dev { tags: t![35], what: format!("{:?} ({how}) {}, but {} for parties of other names ({}/{})", plan.op, okf(ra.ok), okf(rb.ok), ra.err, rb.err) },
                    trace,
                );
                return;
            }
            let mut d = vec![];
            for (k, x) in a.svm.store.iter() {
                let x = Acc::from_shared(x);
                let y = b.svm.get(&n.key(k));
                let z = if base.svm.native.contains(k) { x.data.clone() } else { n.data(&x.data) };
                if x.lamports != y.lamports || n.key(&x.owner) != y.owner || z != y.data {
                    d.push((*k, x, y));
                }
            }
            if !d.is_empty() || a.svm.store.len() != b.svm.store.len() {
                sink.dev(Dev { tags: t![35], what: format!("{:?} ({how}) ends differently for parties of other names: {}", plan.op, show_diff(&d)) }, trace);
            }
        }
    }
    /// C36: delivered twice, done once.
    pub fn again(&mut self, plan: &Plan, sink: &mut Sink) {
        let Some((base, plan, how)) = self.variant(plan) else { return };
        let Some(i) = plan.instr() else { return };
        let fee = self.cast.fee;
        let args = plan.ix().data.get(8..).and_then(|d| Args::decode(i, d));
        // these add up
        if matches!(args, Some(Args::TopUp(x, _)) if x > 0) || matches!(args, Some(Args::Claim(Some(x))) if x > 0) {
            return;
        }
        let mut base = base;
        base.wild |= how != "plain";
        let mut plan = plan;
        if plan.target > 0 && !self.split(&mut base, &mut plan, sink) {
            return;
        }
        plan.ixs = vec![plan.ix().clone()];
        plan.target = 0;
        let tx = plan.tx(fee);
        let mut a = base.clone();
        let ra = a.run(&tx, plan.mode, sink);
        if !ra.ok {
            return;
        }
        let mut b = a.clone();
        b.svm.slot = b.svm.slot.wrapping_add(self.rng.below(3) as u64);
        let rb = b.run(&tx, plan.mode, sink);
        sink.eval(t![36], || format!("again:{:?}:{how}:{}", i, okf(rb.ok)));
        let d = store_diff(&a, &b, &[]);
        if rb.ok && !d.is_empty() {
            sink.dev(Dev { tags: t![36], what: format!("{i:?} ({how}) delivered a second time took effect again: {}", show_diff(&d)) }, || show_tx(&tx));
            return;
        }
        // in one transaction
        let mut c = base.clone();
        let mut tx2 = tx.clone();
        for _ in 0..1 + self.rng.below(2) {
            tx2.ixs.push(tx.ixs[0].clone());
        }
        let rc = c.run(&tx2, plan.mode, sink);
        sink.eval(t![36], || format!("twice:{:?}:{how}:{}", i, okf(rc.ok)));
        let d = store_diff(&a, &c, &[]);
        if rc.ok && !d.is_empty() {
            sink.dev(Dev { tags: t![36], what: format!("{i:?} ({how}) twice in a transaction took effect twice: {}", show_diff(&d)) }, || show_tx(&tx2));
        }
    }
    /// C34: whoever holds no office and owns nothing here can only give money away.
    pub fn outsider(&mut self, plan: &Plan, ops: &[u32], sink: &mut Sink) {
        let mut s = self.sim.clone();
        s.relay = self.rng.pct(15);
        let me = match self.rng.below(4) {
            0 => self.cast.outsider,
            1 => *self.rng.pick(&self.cast.wallets),
            _ => {
                let k = Pubkey::new_from_array(self.rng.arr32());
                s.svm.put(k, 1_000_000_000_000_000, SYS, vec![]);
                k
            }
        };
        let who = if me == self.cast.outsider {
            "outsider"
        } else if self.cast.wallets.contains(&me) {
            "wallet"
        } else {
            "stranger"
        };
        // requests that others would make
        let mut plans: Vec<(Plan, &'static str)> = vec![];
        let n = 1 + self.rng.below(3);
        let save = self.sim.clone();
        for i in 0..n {
            let q = if i == 0 {
                Some(plan.clone())
            } else {
                let o = OPS[self.rng.weighted(ops)];
                self.gen(o, 15).filter(|p| p.instr().is_some())
            };
            let Some(mut q) = q else { continue };
            if q.op == Op::Delegate && q.instr().is_none() {
                // (owner programs decide for themselves; from here on only this program)
                match self.stage(&save, &q) {
                    Some((t, p)) if i == 0 => {
                        let relay = s.relay;
                        let mine = s.svm.get(&me);
                        s = t;
                        s.relay = relay;
                        s.svm.put(me, mine.lamports, mine.owner, mine.data);
                        q = p;
                    }
                    _ => continue,
                }
            }
            let mut how = "plain";
            if i == 0 && self.rng.pct(30) && q.instr().is_some() {
                let (t, p, what) = self.mutate(&s, &q);
                let relay = s.relay;
                s = t;
                s.relay = relay;
                (q, how) = (p, what);
            }
            plans.push((q, how));
        }
        self.sim = save;
        s.wild = true;
        if s.svm.get(&me).owner != SYS || s.svm.lamports(&me) == 0 {
            return;
        }
        let office = |s: &Sim| {
            s.registered(&me)
                || s.cast.mocks.iter().chain([&DLP, &SYS]).any(|p| upgrade_authority(&s.svm.get(&pdata_pda(p))).unwrap_or(None) == Some(me))
        };
        if office(&s) {
            return;
        }
        // the same requests, made by me
        let mut forged = vec![];
        let mut txs: Vec<Tx> = vec![];
        let mut names = String::new();
        let one = self.rng.pct(40);
        for (q, how) in &plans {
            let mut ixs: Vec<Instruction> = q.ixs.iter().filter(|i| i.program_id == DLP || i.program_id == SYS).cloned().collect();
            let style = self.rng.below(4);
            for ix in ixs.iter_mut() {
                let mut subst: Vec<(Pubkey, Pubkey)> = vec![];
                for m in ix.accounts.clone() {
                    if !m.is_signer || m.pubkey == me || (style == 3 && self.rng.pct(50)) {
                        continue;
                    }
                    if style == 0 {
                        continue; // named, but without a signature
                    }
                    subst.push((m.pubkey, me));
                    if style >= 2 {
                        // and what is derived from it
                        subst.push((vvault_pda(&m.pubkey), vvault_pda(&me)));
                        for i in 0..2 {
                            subst.push((escrow_pda(&m.pubkey, i), escrow_pda(&me, i)));
                        }
                        for f in [record_pda, meta_pda, cstate_pda, crecord_pda] {
                            subst.push((f(&m.pubkey), f(&me)));
                        }
                    }
                    if style >= 1 && self.rng.pct(40) && ix.data.len() >= 40 {
                        for o in 8..=ix.data.len() - 32 {
                            if ix.data[o..o + 32] == m.pubkey.to_bytes() {
                                ix.data[o..o + 32].copy_from_slice(me.as_ref());
                            }
                        }
                    }
                }
                for m in ix.accounts.iter_mut() {
                    if let Some((_, n)) = subst.iter().find(|(o, _)| *o == m.pubkey) {
                        m.pubkey = *n;
                    }
                    m.is_signer &= m.pubkey == me;
                    if self.rng.pct(3) && m.pubkey == me {
                        m.is_signer = true;
                    }
                }
                // an account of mine that looks like the right one
                if ix.program_id == DLP && self.rng.pct(25) && !ix.accounts.is_empty() {
                    let i = self.rng.below(ix.accounts.len());
                    let k = ix.accounts[i].pubkey;
                    let x = s.svm.get(&k);
                    if k != me && !s.svm.native.contains(&k) && !s.cast.mocks.contains(&k) && k != DLP {
                        let f = Pubkey::new_from_array(self.rng.arr32());
                        let mut d = x.data.clone();
                        if self.rng.pct(60) && d.len() >= 32 {
                            let (keys, n): (Vec<Pubkey>, usize) = (s.cast.signers(), d.len() - 32);
                            for o in 0..=n {
                                if keys.iter().any(|k| d[o..o + 32] == k.to_bytes()) {
                                    d[o..o + 32].copy_from_slice(me.as_ref());
                                }
                            }
                        }
                        let owner = *self.rng.pick(&[SYS, s.cast.mocks[0], me]);
                        if !(owner == SYS && !d.is_empty() && self.rng.pct(80)) {
                            s.svm.put(f, x.lamports.max(rent(d.len())), owner, d);
                            forged.push(f);
                            for m in ix.accounts.iter_mut().filter(|m| m.pubkey == k) {
                                m.pubkey = f;
                            }
                        }
                    }
                }
            }
            names += &format!("{:?}({how}) ", q.op);
            if one && !txs.is_empty() {
                txs[0].ixs.extend(ixs);
            } else {
                txs.push(Tx { payer: me, ixs });
            }
        }
        let before = s.clone();
        let mut ok = 0;
        let mut trace = String::new();
        for tx in &txs {
            let r = s.run(tx, Mode::Honest, sink);
            ok += r.ok as usize;
            trace += &show_tx(tx);
            trace += &format!("-> {} {}\n", okf(r.ok), r.err);
        }
        if plans.len() == 1 {
            sink.eval(t![34], || format!("outsider:{who}:{names}:{}", okf(ok > 0)));
        } else {
            sink.eval(t![34], || format!("outsider:{who}:{} requests:{ok} accepted", plans.len()));
        }
        // what is mine, and what becomes of it when it is delegated
        let mut own: Vec<Pubkey> = vec![];
        let mut bad = vec![];
        for (k, x, y) in store_diff(&before, &s, &[me]) {
            if forged.contains(&k) && k != me {
                continue;
            }
            if y.lamports >= x.lamports && y.owner == x.owner && y.data == x.data {
                continue;
            }
            if k == pvault_pda() && x.owner == SYS && x.data.is_empty() && y.lamports >= x.lamports {
                continue; // anyone may set up the protocol
            }
            if own.is_empty() {
                for i in 0..=255u8 {
                    own.push(escrow_pda(&me, i));
                }
                own.push(me);
                for a in own.clone() {
                    for f in [record_pda, meta_pda, cstate_pda, crecord_pda, ubuf_pda] {
                        own.push(f(&a));
                    }
                    own.push(dbuf_pda(&a, &SYS));
                    own.push(dbuf_pda(&a, &DLP));
                }
            }
            if !own.contains(&k) {
                bad.push((k, x, y));
            }
        }
        if !bad.is_empty() {
            sink.dev(
                Dev { tags: t![34], what: format!("{who} without any office or signature of others ({names}) changed what is not its own: {}", show_diff(&bad)) },
                || trace,
            );
        }
    }
    /// C32: called by another program or by the transaction itself.
    pub fn indirect(&mut self, plan: &Plan, sink: &mut Sink) {
        let Some((base, plan, how)) = self.variant(plan) else { return };
        let fee = self.cast.fee;
        let tx = plan.tx(fee);
        if tx.ixs.iter().flat_map(|i| &i.accounts).any(|m| m.is_signer && self.cast.actors.contains(&m.pubkey)) {
            return; // only programs can sign this
        }
        // what is signed or writable anywhere in a transaction is so everywhere, but a caller has to say it
        let mut tx = tx;
        let all: Vec<AccountMeta> = tx.ixs.iter().flat_map(|i| i.accounts.clone()).chain([AccountMeta::new(fee, true)]).collect();
        for m in tx.ixs.iter_mut().flat_map(|i| i.accounts.iter_mut()) {
            m.is_signer |= all.iter().any(|n| n.pubkey == m.pubkey && n.is_signer);
            m.is_writable |= all.iter().any(|n| n.pubkey == m.pubkey && n.is_writable);
        }
        let (mut a, mut b) = (base.clone(), base);
        b.relay = true;
        let ra = a.run(&tx, plan.mode, sink);
        let rb = b.run(&tx, plan.mode, sink);
        sink.eval(t![32], || format!("indirect:{:?}:{how}:{}", plan.op, okf(ra.ok)));
        let trace = || show_tx(&tx);
        if ra.ok != rb.ok {
            sink.dev(
                Dev { tags: t![32], what: format!("{:?} ({how}) {} when sent directly, {} when called by a program ({}/{})", plan.op, okf(ra.ok), okf(rb.ok), ra.err, rb.err) },
                trace,
            );
            return;
        }
        let d = store_diff(&a, &b, &[]);
        if !d.is_empty() {
            sink.dev(Dev { tags: t![32], what: format!("{:?} ({how}) called by a program ends differently: {}", plan.op, show_diff(&d)) }, trace);
        }
    }

    /// C23: donations to addresses the operation is about to create.
    pub fn donation(&mut self, plan: &Plan, sink: &mut Sink) {
        let fee = self.cast.fee;
        let mut a = self.sim.clone();
        let ra = a.run(&plan.tx(fee), plan.mode, sink);
        if !ra.ok || purged_state(&ra, &a) {
            return;
        }
        let rel = self.related_addresses(plan);
        if rel.is_empty() {
            return;
        }
        let mut b = self.sim.clone();
        let n = 1 + self.rng.below(2);
        let tiny = self.rng.pct(30);
        let mut given: Vec<(Pubkey, u64)> = vec![];
        let mut ixs = vec![];
        for _ in 0..n {
            let k = *self.rng.pick(&rel);
            if given.iter().any(|g| g.0 == k) {
                continue;
            }
            let amt = if tiny { 1 + self.rng.below(3) as u64 } else { self.donation_amount().max(rent(0)) };
            given.push((k, amt));
            ixs.push(si::transfer(&self.cast.outsider, &k, amt));
        }
        let tx;
        if tiny {
            // dust can only be placed within the same transaction
            let mut v = ixs;
            v.extend(plan.ixs.clone());
            tx = Tx { payer: fee, ixs: v };
        } else {
            for ix in ixs {
                let r = b.run(&Tx::one(fee, ix), Mode::Honest, sink);
                if !r.ok {
                    return;
                }
            }
            tx = plan.tx(fee);
        }
        let rb = b.run(&tx, plan.mode, sink);
        let names: Vec<String> = given
            .iter()
            .map(|(k, _)| {
                let i = plan.instr();
                plan.ix()
                    .accounts
                    .iter()
                    .position(|m| m.pubkey == *k)
                    .and_then(|p| i.and_then(|i| roles(i).get(p).copied()))
                    .unwrap_or("session-address")
                    .to_string()
            })
            .collect();
        // dust left behind on an address the operation does not use, or a payer who now has
        // something left, though less than the minimum, instead of nothing
        let payer_left = plan.ixs.iter().flat_map(|i| &i.accounts).any(|m| m.is_signer && rb.err.contains(&m.pubkey.to_string()));
        if !rb.ok && rb.rent_refused && (tiny || payer_left) {
            return;
        }
        sink.eval(t![23], || format!("donation:{:?}:{}:{}", plan.op, names.join("+"), if tiny { "dust" } else { "rent+" }));
        let trace = || format!("donated {given:?}\n{}", show_tx(&tx));
        if !rb.ok {
            sink.dev(Dev { tags: t![23, 26], what: format!("{:?} blocked by a donation to {}: {}", plan.op, names.join("+"), rb.err) }, trace);
            return;
        }
        // outcome: same except who paid for what was donated
        let contributor = plan.ix().accounts[0].pubkey;
        let mut skip: Vec<Pubkey> = given.iter().map(|g| g.0).collect();
        skip.push(contributor);
        skip.push(self.cast.outsider);
        let d = store_diff(&a, &b, &skip);
        if !d.is_empty() {
            sink.dev(Dev { tags: t![23], what: format!("donation to {} changed the outcome of {:?}: {}", names.join("+"), plan.op, show_diff(&d)) }, trace);
        }
        let mut sum_a = a.svm.lamports(&contributor) as u128;
        let mut sum_b = b.svm.lamports(&contributor) as u128;
        let mut total = 0u128;
        let payer_better = contributor == self.cast.outsider || sum_b >= sum_a;
        for (k, amt) in &given {
            let (x, y) = (a.svm.get(k), b.svm.get(k));
            if (x.owner, &x.data) != (y.owner, &y.data) {
                sink.dev(Dev { tags: t![23], what: format!("donated address {k} ended differently") }, trace);
            }
            sum_a += x.lamports as u128;
            sum_b += y.lamports as u128;
            total += *amt as u128;
        }
        if contributor == self.cast.outsider {
            sum_a -= total; // the donor is the payer
        }
        if sum_b != sum_a + total || !payer_better {
            sink.dev(
                Dev { tags: t![23], what: format!("donation of {total} to {} not accounted to the payer or the address: {sum_a} -> {sum_b}", names.join("+")) },
                trace,
            );
        }
    }

    /// C30: operations on different sessions do not influence each other.
    pub fn commute(&mut self, sink: &mut Sink) {
        let ops = [Op::Commit, Op::CommitBuf, Op::Finalize, Op::Undelegate, Op::Delegate, Op::Commit, Op::Finalize];
        let save = self.sim.clone();
        for v in self.cast.vals.clone() {
            self.sim.svm.add_lamports(v, 1_000_000_000_000_000);
        }
        let (o1, o2) = (*self.rng.pick(&ops), *self.rng.pick(&ops));
        let (p, q) = (self.gen(o1, 5), self.gen(o2, 5));
        let base = std::mem::replace(&mut self.sim, save);
        let mut base = base;
        base.resync();
        let (Some(p), Some(q)) = (p, q) else { return };
        if p.acc == q.acc {
            return;
        }
        for v in p.ixs.iter().chain(&q.ixs).flat_map(|i| &i.accounts) {
            if v.is_signer && base.svm.get(&v.pubkey).owner == SYS {
                base.svm.add_lamports(v.pubkey, 10_000_000_000_000_000);
            }
        }
        base.resync();
        let free = |k: &Pubkey| self.cast.can_sign(k) && !self.cast.accs.iter().any(|a| a.key == *k)
            || *k == pvault_pda()
            || self.cast.vals.iter().any(|v| vvault_pda(v) == *k);
        let clash = |x: &Plan, y: &Plan| {
            x.ixs.iter().flat_map(|i| &i.accounts).filter(|m| m.is_writable && !free(&m.pubkey)).any(|m| {
                y.ixs.iter().flat_map(|i| &i.accounts).any(|n| n.pubkey == m.pubkey)
            })
        };
        if clash(&p, &q) || clash(&q, &p) {
            return;
        }
        let fee = self.cast.fee;
        let (tp, tq) = (p.tx(fee), q.tx(fee));
        let (mut a, mut b) = (base.clone(), base.clone());
        let p1 = a.run(&tp, Mode::Honest, sink);
        let q1 = a.run(&tq, Mode::Honest, sink);
        let q2 = b.run(&tq, Mode::Honest, sink);
        let p2 = b.run(&tp, Mode::Honest, sink);
        sink.eval(t![30], || format!("commute:{o1:?}:{o2:?}:{}{}", p1.ok as u8, q1.ok as u8));
        let d = store_diff(&a, &b, &[]);
        if p1.ok != p2.ok || q1.ok != q2.ok || !d.is_empty() {
            sink.dev(
                Dev { tags: t![30], what: format!("{o1:?} and {o2:?} of different sessions interfere: {} {} / {} {}: {}", okf(p1.ok), okf(q1.ok), okf(p2.ok), okf(q2.ok), show_diff(&d)) },
                || format!("{}{}", show_tx(&tp), show_tx(&tq)),
            );
        }
    }

    /// C26 (and C13/C21): the honest parties finish the session, with outsiders interfering.
    pub fn live(&mut self, interfere: bool, stop_before_undelegate: bool, only: Option<Pubkey>, sink: &mut Sink) -> Option<(Sim, Pubkey, Pubkey)> {
        let def = match only {
            Some(k) => self.cast.accs.iter().find(|a| a.key == k)?.clone(),
            None => self.cast.accs[self.rng.below(self.cast.accs.len())].clone(),
        };
        let k = def.key;
        let fee = self.cast.fee;
        let mut s = self.sim.clone();
        let had_session = s.rec(&k).is_some();
        let a = s.svm.get(&k);
        let owner = s.rec(&k).map(|r| r.owner).unwrap_or(def.owner());
        if had_session && (a.owner != DLP || a.lamports == 0) {
            return None; // the known zero-balance finding
        }
        match &def.kind {
            Kind::Curve { owner } => {
                if !had_session && a.owner != SYS && a.owner != DLP {
                    return None;
                }
                if !a.data.is_empty() || (!had_session && *owner != SYS) {
                    return None;
                }
                // a finalization could give it data its owner cannot take back
                if s.pending(&k).is_some() && !s.svm.get(&cstate_pda(&k)).data.is_empty() {
                    return None;
                }
            }
            Kind::Escrow { .. } => {
                if !a.data.is_empty() || !s.svm.get(&cstate_pda(&k)).data.is_empty() {
                    return None;
                }
            }
            Kind::Pda { prog, .. } => {
                if !had_session && a.owner != *prog {
                    return None;
                }
            }
        }
        let with_data = matches!(def.kind, Kind::Pda { .. });
        // honest administrator and validator, solvent
        let admin = self.cast.admin;
        if s.admin_now() != Some(admin) {
            let sl = s.svm.slot;
            s.svm.put(pdata_pda(&DLP), 1_000_000_000, LOADER, programdata(sl, Some(admin)));
        }
        let v = match s.pending(&k) {
            Some(c) => c.identity,
            None => *self.rng.pick(&self.cast.vals),
        };
        for x in self.cast.signers() {
            s.svm.add_lamports(x, 50_000_000_000);
        }
        s.svm.add_lamports(v, 1_000_000_000_000_000);
        s.resync();
        let mut steps: Vec<&'static str> = vec![];
        macro_rules! must {
            ($name:expr, $ixs:expr, $mode:expr, $tags:expr) => {{
                if interfere {
                    for _ in 0..self.rng.below(3) {
                        self.interfere(&mut s, &k, &owner, &v, sink);
                    }
                }
                let mut ixs: Vec<Instruction> = $ixs;
                let mut dust = false;
                if interfere && self.rng.pct(15) {
                    let c: Vec<Pubkey> = [cstate_pda(&k), crecord_pda(&k), ubuf_pda(&k), record_pda(&k), meta_pda(&k)]
                        .into_iter()
                        .filter(|x| s.svm.lamports(x) > 0)
                        .collect();
                    if !c.is_empty() {
                        let d = *self.rng.pick(&c);
                        ixs.insert(0, si::transfer(&self.cast.outsider, &d, 1));
                        dust = true;
                    }
                }
                let _ = dust;
                let tx = Tx { payer: fee, ixs };
                let r = s.run(&tx, $mode, sink);
                steps.push($name);
                sink.eval(t![26] | $tags, || format!("live:{:?}:{}", kind_name(&def.kind), steps.join(">")));
                if !r.ok {
                    let sl = s.log.clone();
                    sink.dev(
                        Dev { tags: t![26] | $tags, what: format!("honest step '{}' refused: {} (steps {:?}, account {:?})", $name, r.err, steps, kind_name(&def.kind)) },
                        || format!("{}{}history:\n{}", show_tx(&tx), r.events.iter().map(show_event).collect::<String>(), sl.join("\n")),
                    );
                    return None;
                }
            }};
        }
        macro_rules! some {
            ($e:expr) => {{
                let Some(x) = $e else {
                    sink.dev(Dev { tags: t![26, 27, 1, 7], what: format!("the session of {k} is not recorded although it was accepted") }, || s.log.join("\n"));
                    return None;
                };
                x
            }};
        }
        if !is_dlp(&s.svm.get(&pvault_pda())) {
            must!("init-protocol", vec![mk_init_protocol(admin)], Mode::Honest, t![18]);
        }
        if !s.registered(&v) {
            must!("register", vec![mk_init_validator(admin, admin, v)], Mode::Honest, t![16]);
        }
        if let Some(c) = s.config(&owner) {
            if !c.contains(&v) {
                must!("whitelist", vec![mk_whitelist(admin, v, owner, true)], Mode::Honest, t![19]);
            }
        }
        for round in 0..2 {
            if s.rec(&k).is_none() {
                match def.kind.clone() {
                    Kind::Pda { prog, .. } => {
                        let d = self.dargs(&def);
                        let p = self.payer();
                        s.svm.add_lamports(p, 50_000_000_000);
                        s.resync();
                        must!("delegate", vec![mk_sdk_delegate(p, k, prog, d)], Mode::Honest, t![13]);
                    }
                    Kind::Curve { owner } => {
                        // the owner program has it: only that program could give it away again
                        if s.svm.get(&k).owner != SYS && s.svm.get(&k).owner != DLP {
                            break;
                        }
                        let d = self.dargs(&def);
                        let p = self.payer();
                        s.svm.add_lamports(p, 50_000_000_000);
                        s.resync();
                        let mut ixs = vec![mk_delegate(p, k, owner, d)];
                        if s.svm.get(&k).owner == SYS {
                            ixs.insert(0, si::assign(&k, &DLP));
                        }
                        must!("delegate", ixs, Mode::Honest, t![13]);
                    }
                    Kind::Escrow { wallet, idx } => {
                        if s.svm.lamports(&k) == 0 {
                            must!("top-up", vec![mk_topup(wallet, wallet, 1_000_000, idx)], Mode::Honest, t![20]);
                        }
                        let d = self.dargs(&def);
                        must!("delegate-escrow", vec![mk_delegate_escrow(wallet, wallet, idx, d)], Mode::Honest, t![21, 13]);
                        if self.rng.pct(40) {
                            must!("top-up-delegated", vec![mk_topup(wallet, wallet, 1_000, idx)], Mode::Honest, t![21, 20]);
                        }
                    }
                }
            }
            if round == 1 {
                break;
            }
            if s.pending(&k).is_some() {
                // make room for a committed state that would leave the account below its rent
                let c = some!(s.pending(&k));
                let r = some!(s.rec(&k));
                let len = s.svm.get(&cstate_pda(&k)).data.len();
                let after = (s.svm.lamports(&k).saturating_sub(r.lamports)).saturating_add(c.lamports);
                if after < rent(len) {
                    must!("sponsor", vec![si::transfer(&self.cast.outsider, &k, rent(len) - after)], Mode::Honest, 0);
                }
                must!("finalize-pending", vec![mk_finalize(v, k)], Mode::Honest, t![9]);
            }
            let latched = s.meta(&k).map(|m| m.undelegatable).unwrap_or(false);
            if !latched {
                for allow in [false, true] {
                    if !allow && self.rng.pct(30) {
                        continue;
                    }
                    let (mut c, mut d) = {
                        let save = std::mem::replace(&mut self.sim, s.clone());
                        let x = self.commit_args(&k, &v, false);
                        self.sim = save;
                        x
                    };
                    if !with_data {
                        d = vec![];
                    }
                    d.truncate(10240);
                    let last = s.meta(&k).map(|m| m.last).unwrap_or(0);
                    c.slot = c.slot.max(last);
                    if !allow {
                        c.slot = c.slot.min(last.saturating_add(1 << 30));
                    }
                    c.allow = allow;
                    let rl = some!(s.rec(&k)).lamports;
                    let cap = rl.saturating_add(1_000_000_000_000);
                    c.lamports = c.lamports.min(cap).max(rent(d.len()));
                    // an uncredited donation may cover the rent as well
                    if self.rng.pct(35) {
                        let b = Pubkey::new_from_array(self.rng.arr32());
                        s.svm.put(b, rent(d.len()), self.cast.mocks[0], d);
                        s.resync();
                        must!("commit-buffer", vec![mk_commit_buf(v, k, owner, b, c)], Mode::Honest, t![7, 8]);
                    } else {
                        must!("commit", vec![mk_commit(v, k, owner, c, d)], Mode::Honest, t![7]);
                    }
                    must!("finalize", vec![mk_finalize(v, k)], Mode::Honest, t![9]);
                }
            }
            if stop_before_undelegate {
                return Some((s, k, v));
            }
            let (rp, pre) = (some!(s.meta(&k)).rent_payer, s.svm.get(&k));
            if self.rng.pct(25) && rp != v && rp != fee && rp != admin && rp != self.cast.outsider && !matches!(def.kind, Kind::Escrow { .. }) && s.svm.get(&rp).owner == SYS {
                // the party to be refunded has spent everything meanwhile
                s.svm.put(rp, 0, SYS, vec![]);
                s.resync();
            }
            let v_pre = s.svm.lamports(&v);
            let ub = s.svm.lamports(&ubuf_pda(&k));
            let mode = if self.rng.pct(30) { Mode::HonestManual } else { Mode::Honest };
            // undelegation is open to any registered validator
            must!("undelegate", vec![mk_undelegate(v, k, owner, rp)], mode, t![13, 21]);
            let post = s.svm.get(&k);
            if !interfere && rp != v {
                let vd = s.svm.lamports(&v) as i128 - v_pre as i128 - if pre.data.is_empty() { 0 } else { ub as i128 };
                if post.data != pre.data || post.lamports != pre.lamports || post.owner != owner || vd != 0 {
                    sink.dev(Dev { tags: t![13], what: format!("account not handed back intact: {pre:?} -> {post:?}, validator {vd:+}") }, String::new);
                }
            }
            if let Kind::Escrow { wallet, idx } = def.kind.clone() {
                if self.rng.pct(50) {
                    must!("close-escrow", vec![mk_close_escrow(wallet, idx)], Mode::Honest, t![21, 20]);
                }
            }
            s.svm.slot = s.svm.slot.saturating_add(self.rng.u64() % 50);
        }
        // nothing of the first session shines through
        if let (Some(m), Some(r)) = (s.meta(&k), s.rec(&k)) {
            if m.last != 0 || m.undelegatable || r.lamports > s.svm.lamports(&k) {
                sink.dev(Dev { tags: t![13, 1], what: format!("fresh session of {k} carries old state: {m:?} {r:?}") }, String::new);
            }
        }
        sink.eval(t![26, 13, 15], || format!("live-complete:{:?}:{}", kind_name(&def.kind), had_session));
        Some((s, k, v))
    }
    /// Something an outsider can do at any time.
    fn interfere(&mut self, s: &mut Sim, k: &Pubkey, owner: &Pubkey, v: &Pubkey, sink: &mut Sink) {
        let out = self.cast.outsider;
        let fee = self.cast.fee;
        let mut amt = self.donation_amount();
        let target = match self.rng.below(10) {
            0 => record_pda(k),
            1 => meta_pda(k),
            2 => cstate_pda(k),
            3 => crecord_pda(k),
            4 => ubuf_pda(k),
            5 => vvault_pda(v),
            6 => pvault_pda(),
            7 => config_pda(owner),
            8 => dbuf_pda(k, owner),
            _ => *k,
        };
        // an outsider who became an upgrade authority is entitled to configure
        let entitled = s.admin_now() == Some(out)
            || upgrade_authority(&s.svm.get(&pdata_pda(owner))).unwrap_or(None) == Some(out);
        let ix = match self.rng.below(12) {
            4 if entitled => return,
            // and one who is a registered validator acts as one
            0..=2 if s.registered(&out) => return,
            0 => mk_finalize(out, *k),
            1 => mk_undelegate(out, *k, *owner, out),
            2 => {
                let (c, _) = (CArgs { slot: u64::MAX, lamports: rent(0), allow: true }, 0);
                mk_commit(out, *k, *owner, c, vec![])
            }
            3 => mk_init_validator(out, out, out),
            4 => mk_whitelist(out, out, *owner, true),
            5 => mk_pclaim(out),
            6 => mk_delegate(out, *k, *owner, DArgs::default()),
            _ => {
                if s.svm.lamports(&target) == 0 {
                    amt = amt.max(rent(0));
                }
                si::transfer(&out, &target, amt)
            }
        };
        let mut ix = ix;
        for m in ix.accounts.iter_mut() {
            if m.is_signer && m.pubkey != out {
                m.is_signer = false;
            }
        }
        s.run(&Tx::one(fee, ix), Mode::Honest, sink);
    }

    /// C14: owner programs that misbehave during the hand-back.
    pub fn hostile(&mut self, sink: &mut Sink) {
        let pd: Vec<Pubkey> =
            self.cast.accs.iter().filter(|a| matches!(a.kind, Kind::Pda { .. })).map(|a| a.key).collect();
        let k = *self.rng.pick(&pd);
        let Some((s, k, v)) = self.live(false, true, Some(k), &mut Sink { mask: sink.mask & t![14], ..Default::default() }) else {
            return;
        };
        let Some(r) = s.rec(&k) else { return };
        let Some(m) = s.meta(&k) else { return };
        let mut s = s;
        match self.rng.below(4) {
            // extra balance beyond the rent is not always there
            0 => {
                let l = rent(s.svm.get(&k).data.len());
                let a = s.svm.get(&k);
                if r.lamports > l {
                    let mut rr = r.clone();
                    rr.lamports = l;
                    s.svm.put(k, l, a.owner, a.data);
                    let ra = s.svm.get(&record_pda(&k));
                    s.svm.put(record_pda(&k), ra.lamports, DLP, rr.bytes());
                }
            }
            // a committer with almost nothing besides
            1 => {
                let l = rent(s.svm.get(&k).data.len()) + rent(0);
                s.svm.put(v, l, SYS, vec![]);
            }
            _ => {}
        }
        s.resync();
        let len = s.svm.get(&k).data.len();
        let n = self.rng.u64();
        let amt = self.rng.val(&[1, rent(len), rent(0), s.svm.lamports(&k), s.svm.lamports(&v)], dict());
        let modes = [
            Mode::Noop,
            Mode::Fail,
            Mode::FlipByte(n as u32),
            Mode::DropTail(n as u32),
            Mode::ExtraTail(n as u32),
            Mode::OverpayFromValidator(amt),
            Mode::Underpay(amt),
            Mode::ShortConsistent(n as u32),
            Mode::AssignValidator,
            Mode::AllocateValidator(n as u32 % 100),
            Mode::AllocateAssignValidator(n as u32 % 100),
            Mode::GiveAway,
            Mode::FundOnly,
            Mode::WriteBuffer,
            Mode::SystemOwned,
            Mode::DrainBack(amt),
            Mode::Honest,
        ];
        let fee = self.cast.fee;
        let mut txs = 0;
        for _ in 0..5 {
            let mode = if self.rng.pct(40) { Mode::Script(self.rng.u64()) } else { *self.rng.pick(&modes) };
            let mut c = s.clone();
            let rp = if self.rng.pct(80) { m.rent_payer } else { v };
            let before = c.svm.get(&v);
            let acc_before = c.svm.get(&k);
            let ub = if acc_before.data.is_empty() { 0 } else { c.svm.lamports(&ubuf_pda(&k)) };
            let tx = Tx::one(fee, mk_undelegate(v, k, r.owner, rp));
            let res = c.run(&tx, mode, sink);
            txs += 1;
            sink.eval(t![14], || format!("hostile:{mode:?}:{}", if res.ok { "completed" } else { "failed" }).split('(').next().unwrap().to_string());
            if res.ok && m.rent_payer != v {
                let after = c.svm.get(&v);
                let acc = c.svm.get(&k);
                if after.owner != before.owner || after.data != before.data || after.lamports != before.lamports + ub {
                    sink.dev(
                        Dev { tags: t![14, 13], what: format!("owner program changed the validator during undelegation ({mode:?}): {before:?} -> {after:?}") },
                        || format!("{}{}", show_tx(&tx), res.events.iter().map(show_event).collect::<String>()),
                    );
                }
                if acc.data != acc_before.data || acc.lamports < acc_before.lamports {
                    sink.dev(
                        Dev { tags: t![14, 13], what: format!("owner program kept bytes or balance of the account ({mode:?}): {acc_before:?} -> {acc:?}") },
                        || format!("{}{}", show_tx(&tx), res.events.iter().map(show_event).collect::<String>()),
                    );
                }
            }
            if !res.ok && !store_diff(&s, &c, &[]).is_empty() {
                sink.dev(Dev { tags: t![14], what: "failed undelegation left traces".into() }, || show_tx(&tx));
            }
        }
        let _ = txs;
    }

    /// C29: the crate's builders and address helpers.
    pub fn builder(&mut self, plan: &Plan, sink: &mut Sink) {
        let (Some(build), Some(pdas)) = (BUILD.get(), PDAS.get()) else { return };
        let (k1, k2, idx) = (Pubkey::new_from_array(self.rng.arr32()), Pubkey::new_from_array(self.rng.arr32()), self.rng.u64() as u8);
        let want = [
            ("record", record_pda(&k1)),
            ("metadata", meta_pda(&k1)),
            ("commit-state", cstate_pda(&k1)),
            ("commit-record", crecord_pda(&k1)),
            ("delegate-buffer", dbuf_pda(&k1, &k2)),
            ("undelegate-buffer", ubuf_pda(&k1)),
            ("fees-vault", pvault_pda()),
            ("validator-vault", vvault_pda(&k1)),
            ("config", config_pda(&k1)),
            ("escrow", escrow_pda(&k1, idx)),
        ];
        for (n, got) in pdas(&k1, &k2, idx) {
            sink.eval(t![29], || format!("pda:{n}"));
            let w = want.iter().find(|x| x.0 == n).unwrap().1;
            if got != w {
                sink.dev(Dev { tags: t![29], what: format!("helper for {n} returns {got}, expected {w} ({k1}, {k2}, {idx})") }, String::new);
            }
        }
        let mut plan = plan.clone();
        let mut base = self.sim.clone();
        if plan.op == Op::Delegate && plan.instr().is_none() {
            match self.stage(&base, &plan) {
                Some((s, p)) => {
                    base = s;
                    plan = p;
                }
                None => return,
            }
        }
        let Some(i) = plan.instr() else { return };
        let k: Vec<Pubkey> = plan.ix().accounts.iter().map(|m| m.pubkey).collect();
        let Some(args) = Args::decode(i, &plan.ix().data[8..]) else { return };
        let owner_of = |cfg: &Pubkey| {
            self.cast.mocks.iter().copied().chain([SYS, DLP]).find(|p| config_pda(p) == *cfg)
        };
        let mut defaults = false;
        let req = match (i, args.clone()) {
            (I::Delegate, Args::Delegate(d)) => {
                let owner = if k[2] == SYS && self.rng.pct(50) { None } else { Some(k[2]) };
                defaults = owner.is_none();
                BReq::Delegate { payer: k[0], acc: k[1], owner, d }
            }
            (I::DelegateEscrow, Args::DelegateEscrow(d, idx)) => BReq::DelegateEscrow { payer: k[0], wallet: k[1], d, idx },
            (I::Commit, Args::Commit(c, data)) => {
                let Some(owner) = owner_of(&k[7]) else { return };
                BReq::Commit { v: k[0], acc: k[1], owner, c, data }
            }
            (I::CommitBuffer, Args::CommitBuffer(c)) => {
                let Some(owner) = owner_of(&k[8]) else { return };
                BReq::CommitBuffer { v: k[0], acc: k[1], owner, buf: k[6], c }
            }
            (I::Finalize, _) => BReq::Finalize { v: k[0], acc: k[1] },
            (I::Undelegate, _) => BReq::Undelegate { v: k[0], acc: k[1], owner: k[2], rp: k[8] },
            (I::InitProtocol, _) => BReq::InitProtocol { payer: k[0] },
            (I::InitValidator, _) => BReq::InitValidator { payer: k[0], admin: k[1], id: k[3] },
            (I::CloseValidator, _) => BReq::CloseValidator { payer: k[0], admin: k[1], id: k[3] },
            (I::ValidatorClaim, Args::Claim(a)) => BReq::VClaim { v: k[0], amt: a },
            (I::ProtocolClaim, _) => BReq::PClaim { admin: k[0] },
            (I::Whitelist, Args::Whitelist(b)) => BReq::Whitelist { auth: k[0], id: k[1], prog: k[2], insert: b },
            (I::TopUp, Args::TopUp(a, idx)) => {
                let amt = if self.rng.pct(25) { None } else { Some(a) };
                let ix = if idx == 0 && self.rng.pct(50) { None } else { Some(idx) };
                let t = plan.target;
                let n = mk_topup(k[0], k[1], amt.unwrap_or(10000), ix.unwrap_or(0));
                plan.ixs[t] = n;
                defaults = amt.is_none() || ix.is_none();
                BReq::TopUp { payer: k[0], wallet: k[1], amt, idx: ix }
            }
            (I::CloseEscrow, Args::CloseEscrow(idx)) => BReq::CloseEscrow { wallet: k[0], idx },
            _ => return,
        };
        let mine = plan.ix().clone();
        let built = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| build(&req))) {
            Ok(b) => b,
            Err(_) => {
                sink.dev(Dev { tags: t![29], what: format!("builder for {i:?} panics") }, || show_tx(&plan.tx(self.cast.fee)));
                return;
            }
        };
        let trace = || {
            let b = Tx { payer: self.cast.fee, ixs: vec![built.clone()] };
            format!("expected {}\nbuilt {}", show_tx(&Tx::one(self.cast.fee, mine.clone())), show_tx(&b))
        };
        let mut dev = |what: String, sink: &mut Sink| sink.dev(Dev { tags: t![29], what }, &trace);
        if built.program_id != DLP {
            dev(format!("{i:?} builder targets {}", built.program_id), sink);
        }
        if built.data != mine.data {
            dev(format!("{i:?} builder encodes {} instead of {}", crate::spec::hex(&built.data), crate::spec::hex(&mine.data)), sink);
        }
        if built.accounts.len() != mine.accounts.len() {
            dev(format!("{i:?} builder lists {} accounts instead of {}", built.accounts.len(), mine.accounts.len()), sink);
        }
        for (n, (g, m)) in built.accounts.iter().zip(&mine.accounts).enumerate() {
            let role = roles(i)[n];
            if g.pubkey != m.pubkey {
                dev(format!("{i:?} builder puts {} at {role} instead of {}", g.pubkey, m.pubkey), sink);
            }
            if g.is_signer != m.is_signer {
                dev(format!("{i:?} builder: {role} signer {} instead of {}", g.is_signer, m.is_signer), sink);
            }
        }
        // behaviour: same result as the canonical request, with somebody else paying the fee
        let fee = self.cast.fee;
        let mut other = plan.clone();
        let t = other.target;
        other.ixs[t] = built.clone();
        let (mut a, mut b) = (base.clone(), base);
        let ra = a.run(&plan.tx(fee), plan.mode, sink);
        let rb = b.run(&other.tx(fee), plan.mode, sink);
        sink.eval(t![29], || format!("built:{i:?}:{}{}", if ra.ok { "executes" } else { "refused" }, if defaults { ":defaults" } else { "" }));
        let d = store_diff(&a, &b, &[]);
        if ra.ok != rb.ok || !d.is_empty() {
            dev(
                format!("request built for {i:?} {} ({}) where the operation itself {} {}", okf(rb.ok), rb.err, okf(ra.ok), show_diff(&d)),
                sink,
            );
        }
    }

    /// C28: arbitrary instructions over existing accounts.
    pub fn fuzz(&mut self, sink: &mut Sink) {
        let keys: Vec<Pubkey> = self.sim.svm.store.keys().copied().collect();
        let fee = self.cast.fee;
        for _ in 0..4 {
            let tag = match self.rng.below(4) {
                0 => self.rng.u64() as u8,
                1 => *self.rng.pick(&[4u8, 15, 16, 100, 255]),
                _ => self.rng.below(16) as u8,
            };
            let (n, valid) = match I::from_tag(tag) {
                Some(i) => (i.naccounts(), true),
                None => (self.rng.below(13), false),
            };
            let mut data = vec![tag, 0, 0, 0, 0, 0, 0, 0];
            if self.rng.pct(10) {
                let x = self.rng.below(8);
                data.truncate(x);
            }
            let cap = [6, 20, 64, 300, 1200][self.rng.below(5)];
            let l = self.rng.below(cap);
            let mut body = self.rng.bytes(l);
            if self.rng.pct(40) {
                // huge length prefixes
                for b in body.iter_mut() {
                    if self.rng.pct(50) {
                        *b = [0, 0xff, 1][self.rng.below(3)];
                    }
                }
            }
            data.extend(body);
            let na = match self.rng.below(4) {
                0 => n.saturating_sub(1),
                1 => self.rng.below(14),
                _ => n,
            };
            let mut ix = Instruction {
                program_id: DLP,
                accounts: (0..na)
                    .map(|_| AccountMeta { pubkey: *self.rng.pick(&keys), is_signer: self.rng.pct(50), is_writable: self.rng.pct(60) })
                    .collect(),
                data,
            };
            self.clean_signers(&mut ix);
            let _ = valid;
            let mut s = self.sim.clone();
            s.run(&Tx::one(fee, ix), Mode::Honest, sink);
        }
        // a well-formed request under an unknown tag
        let o = *self.rng.pick(&OPS);
        let save = self.sim.clone();
        let p = self.gen(o, 0);
        self.sim = save;
        if let Some(p) = p {
            if p.ix().program_id == DLP {
                let mut ixs = p.ixs.clone();
                let t = p.target;
                match self.rng.below(4) {
                    0 => ixs[t].data[0] = *self.rng.pick(&[4u8, 15, 16, 17, 50, 128, 255]),
                    1 => {
                        let l = self.rng.below(ixs[t].data.len());
                        ixs[t].data.truncate(l);
                    }
                    2 => {
                        let n = 1 + self.rng.below(8);
                        let b = if self.rng.pct(50) { vec![0; n] } else { self.rng.bytes(n) };
                        ixs[t].data.extend(b);
                    }
                    _ => {
                        let l = self.rng.below(ixs[t].accounts.len());
                        ixs[t].accounts.truncate(l);
                    }
                }
                let mut s = self.sim.clone();
                s.run(&Tx { payer: fee, ixs }, p.mode, sink);
            }
        }
        // addressed to another program id
        if let Some(e) = DLP_ENTRY.get() {
            let id = *self.rng.pick(&self.cast.mocks);
            let mut d = vec![self.rng.below(16) as u8, 0, 0, 0, 0, 0, 0, 0];
            d.extend(self.rng.clone().bytes(9));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e(&id, &[], &d)));
            sink.eval(t![28], || "foreign-program-id".into());
            if matches!(r, Ok(Ok(()))) {
                sink.dev(Dev { tags: t![28], what: format!("instruction addressed to {id} accepted: {}", crate::spec::hex(&d)) }, String::new);
            }
        }
    }

    /// Same operation, other argument values.
    pub fn args(&mut self, plan: &Plan, n: usize, sink: &mut Sink) {
        for _ in 0..n {
            let mut s = self.sim.clone();
            let mut p = plan.clone();
            let Some(i) = p.instr() else { return };
            let Some(mut a) = Args::decode(i, &p.ix().data[8..]) else { return };
            match &mut a {
                Args::Commit(c, _) | Args::CommitBuffer(c) => {
                    let acc = p.acc.unwrap_or_default();
                    let v = p.ix().accounts[0].pubkey;
                    let (x, d) = self.commit_args(&acc, &v, false);
                    match self.rng.below(4) {
                        0 => c.slot = x.slot,
                        1 => c.lamports = x.lamports,
                        2 => c.allow = !c.allow,
                        _ => {
                            let save = c.clone();
                            *c = x;
                            if let Args::Commit(_, data) = &mut a {
                                if matches!(self.cast.accs.iter().find(|q| q.key == acc).map(|q| &q.kind), Some(Kind::Pda { .. })) {
                                    *data = d;
                                }
                            }
                            let _ = save;
                        }
                    }
                }
                Args::Claim(x) => {
                    let v = p.ix().accounts[0].pubkey;
                    let avail = s.svm.lamports(&vvault_pda(&v)).saturating_sub(rent(8));
                    *x = Some(self.rng.val(&[avail, avail / 2, 9, 10, 11, 99, 100, 101], dict()));
                    if self.rng.pct(50) {
                        // a fuller vault
                        let l = self.amount(&[9, 10, 11, 100, 101, 1_000_000_007]) % 1_000_000_000_000;
                        s.svm.add_lamports(vvault_pda(&v), l);
                        s.resync();
                        *x = match self.rng.below(4) {
                            0 => None,
                            1 => Some(avail + l),
                            2 => Some(avail + l + 1),
                            _ => Some(self.rng.u64() % (avail + l + 1)),
                        };
                    }
                }
                Args::TopUp(x, idx) => {
                    if self.rng.pct(60) {
                        *x = self.amount(&[rent(0), 0, 1, 10000]);
                    } else {
                        *idx = self.rng.u64() as u8;
                        let t = p.target;
                        p.ixs[t].accounts[2].pubkey = escrow_pda(&p.ixs[t].accounts[1].pubkey, *idx);
                    }
                }
                Args::CloseEscrow(idx) => *idx = self.rng.u64() as u8,
                Args::Delegate(d) => {
                    if self.rng.pct(50) {
                        d.freq = self.rng.val(&[], dict()) as u32
                    } else {
                        match self.rng.below(3) {
                            0 => d.seeds.push(vec![]),
                            1 => {
                                d.seeds.pop();
                            }
                            _ => {
                                if let Some(x) = d.seeds.first_mut() {
                                    x.push(0)
                                }
                            }
                        }
                    }
                }
                _ => return,
            }
            let t = p.target;
            p.ixs[t].data = ixdata(i, &a);
            s.run(&p.tx(self.cast.fee), p.mode, sink);
        }
    }
}

pub fn okf(b: bool) -> &'static str {
    if b {
        "accepted"
    } else {
        "refused"
    }
}
fn kind_name(k: &Kind) -> &'static str {
    match k {
        Kind::Pda { .. } => "pda",
        Kind::Curve { .. } => "on-curve",
        Kind::Escrow { .. } => "escrow",
    }
}

// ------------------------------------------------------------------ episodes
pub struct Weights {
    pub ops: Vec<u32>,
    pub scs: Vec<u32>,
    pub tw: u32,
    pub steps: usize,
    pub probes: usize,
}
pub fn weights(prop: u32) -> Weights {
    use Op::*;
    let mut ops = vec![0u32; OPS.len()];
    let mut set = |o: Op, w: u32| ops[OPS.iter().position(|x| *x == o).unwrap()] = w;
    for (o, w) in [
        (Delegate, 10),
        (DelegateEscrow, 4),
        (Commit, 14),
        (CommitBuf, 6),
        (Finalize, 14),
        (Undelegate, 8),
        (InitProtocol, 1),
        (InitValidator, 3),
        (CloseValidator, 1),
        (VClaim, 3),
        (PClaim, 2),
        (Whitelist, 4),
        (TopUp, 5),
        (CloseEscrow, 2),
        (Donate, 5),
        (Slot, 5),
        (RotateAdmin, 1),
        (RotateAuth, 1),
        (Refund, 2),
        (Drain, 2),
    ] {
        set(o, w);
    }
    let mut sc = vec![0u32; SCS.len()];
    let base = [(Sc::Probe, 30), (Sc::Interleave, 12), (Sc::Replay, 5), (Sc::Args, 12), (Sc::Live, 3), (Sc::Hostile, 2), (Sc::Bundle, 3), (Sc::Donation, 4), (Sc::Fuzz, 1), (Sc::Twin, 2), (Sc::Priv, 2), (Sc::Commute, 2), (Sc::Builder, 1), (Sc::Hidden, 2), (Sc::Indirect, 2), (Sc::Opaque, 2), (Sc::Outsider, 3), (Sc::Rename, 2), (Sc::Again, 2)];
    for (s, w) in base {
        sc[SCS.iter().position(|x| *x == s).unwrap()] = w;
    }
    let mut ssc = |s: Sc, w: u32| sc[SCS.iter().position(|x| *x == s).unwrap()] = w;
    let (mut tw, mut steps, mut probes) = (12, 40, 6);
    match prop {
        1 | 2 => {
            set(Delegate, 25);
            set(DelegateEscrow, 12);
            set(Undelegate, 14);
            set(Commit, 10);
            ssc(Sc::Live, 6);
        }
        3 => steps = 70,
        4 | 5 => {
            set(Commit, 25);
            set(CommitBuf, 14);
            set(InitValidator, 5);
            set(CloseValidator, 5);
            set(Whitelist, if prop == 5 { 22 } else { 6 });
            tw = 25;
        }
        6 | 7 => {
            set(Commit, 25);
            set(CommitBuf, 8);
            ssc(Sc::Args, 25);
            ssc(Sc::Replay, 10);
            steps = 60;
        }
        8 => {
            ssc(Sc::Twin, 60);
            set(CommitBuf, 12);
        }
        9 | 10 | 11 => {
            set(Finalize, 26);
            set(Commit, 24);
            set(Donate, 10);
            if prop == 11 {
                ssc(Sc::Args, 25);
            }
            if prop == 10 {
                tw = 25;
                set(CloseValidator, 5);
                set(InitValidator, 6);
            }
            steps = 60;
        }
        12 | 13 | 15 => {
            set(Undelegate, 25);
            set(Commit, 20);
            set(Finalize, 20);
            set(Delegate, 20);
            set(Donate, 10);
            ssc(Sc::Live, 12);
            steps = 60;
        }
        14 => {
            ssc(Sc::Hostile, 90);
            ssc(Sc::Live, 6);
            ssc(Sc::Probe, 10);
            steps = 30;
        }
        16 => {
            set(InitValidator, 25);
            set(CloseValidator, 20);
            set(VClaim, 8);
            set(RotateAdmin, 8);
            set(Donate, 10);
            tw = 25;
            probes = 10;
        }
        17 | 18 | 25 => {
            set(VClaim, 25);
            set(PClaim, 14);
            set(InitProtocol, 8);
            set(Donate, 14);
            set(RotateAdmin, 5);
            ssc(Sc::Args, 25);
            if prop == 25 {
                steps = 80;
                set(Commit, 24);
                set(Finalize, 24);
            }
        }
        19 => {
            set(Whitelist, 60);
            set(RotateAdmin, 5);
            set(RotateAuth, 8);
            set(Donate, 8);
            tw = 25;
            probes = 8;
        }
        20 | 21 => {
            set(TopUp, 30);
            set(CloseEscrow, 20);
            set(DelegateEscrow, 22);
            set(Undelegate, 14);
            set(Donate, 8);
            ssc(Sc::Live, 8);
        }
        22 => {
            ssc(Sc::Probe, 90);
            probes = 12;
            tw = 15;
        }
        23 => {
            ssc(Sc::Donation, 90);
            ssc(Sc::Live, 10);
            set(TopUp, 8);
            set(InitValidator, 6);
            set(CloseValidator, 4);
            set(Whitelist, 6);
            set(InitProtocol, 3);
        }
        24 => {
            ssc(Sc::Bundle, 60);
            ssc(Sc::Priv, 40);
        }
        26 => {
            ssc(Sc::Live, 60);
            set(Donate, 10);
        }
        28 => {
            ssc(Sc::Fuzz, 60);
            ssc(Sc::Probe, 40);
        }
        29 => {
            ssc(Sc::Builder, 120);
            for o in [InitProtocol, InitValidator, CloseValidator, VClaim, PClaim, TopUp, CloseEscrow, DelegateEscrow] {
                set(o, 10);
            }
        }
        33 => {
            ssc(Sc::Opaque, 120);
            set(Commit, 20);
            set(CommitBuf, 14);
            set(Finalize, 20);
            set(Undelegate, 18);
            set(Delegate, 18);
            tw = 5;
        }
        34 => {
            ssc(Sc::Outsider, 120);
            for o in [InitProtocol, InitValidator, CloseValidator, VClaim, PClaim, Whitelist, TopUp, CloseEscrow, DelegateEscrow] {
                set(o, 8);
            }
            tw = 20;
        }
        31 | 32 | 35 | 36 => {
            ssc(match prop {
                31 => Sc::Hidden,
                32 => Sc::Indirect,
                35 => Sc::Rename,
                _ => Sc::Again,
            }, 120);
            for o in [InitProtocol, InitValidator, CloseValidator, VClaim, PClaim, TopUp, CloseEscrow, DelegateEscrow] {
                set(o, 7);
            }
        }
        30 => {
            ssc(Sc::Commute, 40);
            ssc(Sc::Probe, 40);
        }
        _ => {}
    }
    Weights { ops, scs: sc, tw, steps, probes }
}

pub fn episode(pools: &Pools, seed: u64, ep: u64, prop: u32, sink: &mut Sink) {
    let mut rng = Rng::new(seed.wrapping_mul(1000).wrapping_add(prop as u64), ep);
    let mut wt = weights(prop);
    if rng.pct(10) {
        wt = weights(0);
    }
    let mut w = World::new(pools, rng.clone(), sink);
    let steps = wt.steps / 2 + rng.below(wt.steps);
    for _ in 0..steps {
        let mut op = OPS[w.rng.weighted(&wt.ops)];
        let mut tw = if w.rng.pct(50) { wt.tw } else { 0 };
        // keep sessions moving
        if w.rng.pct(20) {
            let next = w.pick_acc(|s, a| s.rec(&a.key).is_some());
            if let Some(a) = next {
                op = if w.sim.pending(&a.key).is_some() {
                    Op::Finalize
                } else if w.sim.meta(&a.key).map(|m| m.undelegatable).unwrap_or(false) {
                    Op::Undelegate
                } else {
                    Op::Commit
                };
                tw = 0;
            }
        }
        w.sim.relay = w.rng.pct(12);
        let plan = w.gen(op, tw);
        let Some(mut plan) = plan else { continue };
        let mut staged = None;
        if plan.op == Op::Delegate && plan.instr().is_none() && w.rng.pct(15) {
            staged = plan.acc;
            let s0 = w.sim.clone();
            if let Some((s, p)) = w.stage(&s0, &plan) {
                w.sim = s;
                w.sim.resync();
                plan = p;
            }
        }
        if plan.target > 0 && w.rng.pct(30) {
            let mut s = w.sim.clone();
            if w.split(&mut s, &mut plan, sink) {
                w.sim = s;
            }
        }
        match SCS[w.rng.weighted(&wt.scs)] {
            Sc::Probe => w.probe(&plan, wt.probes, sink),
            Sc::Interleave => w.interleave(&plan, &wt.ops, sink),
            Sc::Replay => w.replay(&plan, sink),
            Sc::Twin => w.twin(sink),
            Sc::Bundle => w.bundle(&wt.ops, sink),
            Sc::Priv => w.privileges(&plan, sink),
            Sc::Donation => w.donation(&plan, sink),
            Sc::Commute => w.commute(sink),
            Sc::Live => {
                let f = w.rng.pct(70);
                w.live(f, false, None, sink);
            }
            Sc::Builder => w.builder(&plan, sink),
            Sc::Hostile => w.hostile(sink),
            Sc::Fuzz => w.fuzz(sink),
            Sc::Args => w.args(&plan, 4, sink),
            Sc::Hidden => w.hidden(&plan, &wt.ops, sink),
            Sc::Indirect => w.indirect(&plan, sink),
            Sc::Opaque => w.opaque(&plan, sink),
            Sc::Outsider => w.outsider(&plan, &wt.ops, sink),
            Sc::Rename => w.rename(&plan, sink),
            Sc::Again => w.again(&plan, sink),
        }
        let fee = w.fee_for(&plan);
        w.sim.run(&plan.tx(fee), plan.mode, sink);
        if let Some(k) = staged {
            // the owner program closes its buffer
            for p in w.cast.mocks.clone() {
                let b = dbuf_pda(&k, &p);
                if w.sim.svm.get(&b).owner == p {
                    w.sim.svm.put(b, 0, SYS, vec![]);
                }
            }
            w.sim.resync();
        }
        if sink.found.len() >= 8 {
            return;
        }
    }
}
