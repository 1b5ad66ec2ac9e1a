//! Reference oracle: for one observed invocation of the delegation program, decides from the accounts
//! before it what it was allowed to do, and compares that with what it did.
//!
//! Written from the property statements; error codes and the order of checks are never judged.
use crate::mock::{Mode, UNDELEGATE};
use crate::model::*;
use crate::svm::{Acc, Event, DLP, SYS};
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;

#[macro_export]
macro_rules! t {
    ($($x:expr),* $(,)?) => { (0u64 $(| (1u64 << $x))*) };
}

pub struct Ctx<'a> {
    pub mocks: &'a [Pubkey],
    pub mode: Mode,
}
#[derive(Clone, Debug)]
pub struct Dev {
    pub tags: u64,
    pub what: String,
}
#[derive(Clone, Debug, Default)]
pub struct Verdict {
    pub instr: Option<I>,
    /// coverage class of this invocation
    pub label: String,
    pub devs: Vec<Dev>,
    /// the oracle demanded success
    pub obliged: bool,
    /// the oracle demanded refusal
    pub forbidden: bool,
    pub ok: bool,
    /// properties for which this invocation is evidence
    pub rel: u64,
    /// expected lamports change per account (for ledgers); only when ok and allowed
    pub delta: Vec<(Pubkey, i128)>,
}

struct J<'a> {
    e: &'a Event,
    i: I,
    forbids: Vec<(u64, &'static str)>,
    need: bool,
    why_not: &'static str,
    exp: BTreeMap<Pubkey, Acc>,
    roles: Vec<(&'static str, Pubkey)>,
    extra_tags: u64,
    /// an equally valid way of paying: from, to, amount
    alt: Option<(Pubkey, Pubkey, u64)>,
    feat: Vec<&'static str>,
}

impl<'a> J<'a> {
    fn key(&self, p: usize) -> Pubkey {
        self.e.metas[p].pubkey
    }
    fn pre(&self, k: &Pubkey) -> &Acc {
        self.e.pre.get(k).expect("account present")
    }
    fn w(&self, p: usize) -> bool {
        let k = self.key(p);
        self.e.metas.iter().any(|m| m.pubkey == k && m.is_writable)
    }
    fn s(&self, p: usize) -> bool {
        let k = self.key(p);
        self.e.metas.iter().any(|m| m.pubkey == k && m.is_signer)
    }
    fn forbid(&mut self, c: bool, tags: u64, what: &'static str) {
        if c {
            self.forbids.push((tags, what));
        }
    }
    fn need(&mut self, c: bool, why: &'static str) {
        if !c && self.need {
            self.need = false;
            self.why_not = why;
        }
    }
    fn x(&mut self, k: &Pubkey) -> &mut Acc {
        self.exp.get_mut(k).expect("account present")
    }
    fn mv(&mut self, from: &Pubkey, to: &Pubkey, amt: u64) {
        if amt == 0 {
            return;
        }
        let f = self.x(from);
        if f.lamports < amt {
            self.need(false, "insufficient balance");
        }
        let f = self.x(from);
        f.lamports = f.lamports.saturating_sub(amt);
        let g = self.x(to);
        g.lamports = g.lamports.saturating_add(amt);
    }
    /// payer pays through the system program
    fn payer_ok(&mut self, p: usize) {
        let k = self.key(p);
        let a = self.pre(&k);
        let c = a.owner == SYS && a.data.is_empty();
        let w = self.w(p) && self.s(p);
        self.need(c && w, "payer cannot pay");
    }
    /// create a derived account, topping it up to the rent minimum
    fn create(&mut self, target: &Pubkey, owner: &Pubkey, space: usize, payer: &Pubkey) {
        let have = self.exp[target].lamports;
        self.mv(payer, target, rent(space).saturating_sub(have));
        let a = self.x(target);
        a.owner = *owner;
        a.data = vec![0; space];
        self.need(space <= 10240, "too large");
    }
    fn close(&mut self, target: &Pubkey, dest: &Pubkey) {
        let l = self.exp[target].lamports;
        self.mv(target, dest, l);
        let a = self.x(target);
        a.owner = SYS;
        a.data = vec![];
    }
    fn close_with_fees(&mut self, target: &Pubkey, dest: &Pubkey, vv: &Pubkey, pv: &Pubkey) {
        let l = self.exp[target].lamports;
        let total = (l as u128 * 10 / 100) as u64;
        let prot = (total as u128 * 10 / 100) as u64;
        self.mv(target, vv, total - prot);
        self.mv(target, pv, prot);
        self.mv(target, dest, l - total);
        let a = self.x(target);
        a.owner = SYS;
        a.data = vec![];
    }
    fn sys_program(&mut self, p: usize) {
        let k = self.key(p);
        self.forbid(k != SYS, t![22], "fake system program");
        if k == SYS {
            let e = self.pre(&k).executable;
            self.need(e, "system program");
        }
    }
    fn distinct(&mut self, allow: &[(&str, &str)]) {
        for a in 0..self.roles.len() {
            for b in a + 1..self.roles.len() {
                if self.roles[a].1 == self.roles[b].1 {
                    let (x, y) = (self.roles[a].0, self.roles[b].0);
                    if !allow.iter().any(|(p, q)| (*p == x && *q == y) || (*p == y && *q == x)) {
                        self.need(false, "aliased accounts");
                    }
                }
            }
        }
    }
    /// signing upgrade authority of the delegation program
    fn admin(&mut self, admin: usize, pd: usize, tags: u64) {
        let s = self.s(admin);
        self.forbid(!s, tags, "administrator did not sign");
        let k = self.key(pd);
        self.forbid(k != pdata_pda(&DLP), tags | t![22], "wrong program-data account");
        let ok = upgrade_authority(self.pre(&k)) == Ok(Some(self.key(admin)));
        self.forbid(!ok, tags, "signer is not the upgrade authority");
    }
    /// registered validator with its own vault
    fn validator(&mut self, v: usize, vault: usize, tags: u64, pays_into: u64) {
        let s = self.s(v);
        self.forbid(!s, tags, "validator did not sign");
        let (vk, k) = (self.key(v), self.key(vault));
        self.forbid(k != vvault_pda(&vk), tags | pays_into | t![22], "not the validator's vault");
        let owned = self.pre(&k).owner == DLP;
        self.forbid(!owned, tags | t![16], "validator is not registered");
    }
    /// delegated account with its canonical record and metadata
    fn session(&mut self, acc: usize, rec: usize, meta: usize, tags: u64) -> Option<(Rec, Meta)> {
        let (a, r, m) = (self.key(acc), self.key(rec), self.key(meta));
        let o = self.pre(&a).owner == DLP;
        self.forbid(!o, tags | t![22], "account is not delegated");
        self.forbid(r != record_pda(&a), tags | t![22], "not the account's record");
        self.forbid(m != meta_pda(&a), tags | t![22], "not the account's metadata");
        let rx = (self.pre(&r).owner == DLP).then(|| Rec::parse(&self.pre(&r).data)).flatten();
        let mx = (self.pre(&m).owner == DLP).then(|| Meta::parse(&self.pre(&m).data)).flatten();
        self.forbid(rx.is_none(), tags | t![22, 27], "no delegation record");
        self.forbid(mx.is_none(), tags | t![22, 27], "no delegation metadata");
        let w = self.w(meta);
        self.need(w, "metadata not writable");
        Some((rx?, mx?))
    }
}

/// properties a wrong field of an account counts against
fn field_tags(i: I, role: &str, f: &str) -> u64 {
    use I::*;
    match i {
        Delegate | DelegateEscrow => {
            let base = if i == DelegateEscrow { t![21, 1] } else { t![1] };
            base | match (role, f) {
                (_, "latch") => t![12],
                (_, "last") => t![6],
                (_, "rent_payer") => t![15],
                (_, "owner") if role == "record" => t![2],
                ("record" | "metadata", "lamports") => t![15, 23],
                ("account", "lamports") | ("escrow", "lamports") => t![3],
                _ => 0,
            }
        }
        Commit | CommitBuffer => match (role, f) {
            ("validator", _) => t![11],
            ("account", _) => t![3],
            ("commit-state", "data") => t![7],
            ("commit-state", "lamports") => t![11, 7, 25],
            ("commit-state", _) => t![7],
            ("commit-record", "identity") => t![7, 10],
            ("commit-record", "slot") => t![7, 6],
            ("commit-record", "clam") => t![7, 11],
            ("commit-record", "lamports") => t![7, 11],
            ("commit-record", _) => t![7, 10],
            ("metadata", "last") => t![6, 7],
            ("metadata", "latch") => t![7, 12],
            ("metadata", _) => t![3, 7],
            ("record", _) => t![3, 7],
            ("validator-vault", _) => t![25, 30],
            ("config", _) => t![5, 19],
            ("data-buffer", _) => t![8],
            _ => t![7],
        },
        Finalize => match (role, f) {
            ("account", "data") => t![9, 3],
            ("account", "lamports") => t![11, 9, 25],
            ("account", _) => t![3, 9],
            ("record", "rlam") => t![9, 11, 25],
            ("record", _) => t![3, 9],
            ("metadata", "last") => t![9, 6],
            ("metadata", "latch") => t![9, 12],
            ("metadata", _) => t![3, 9],
            ("commit-state" | "commit-record", "lamports") => t![9, 11],
            ("commit-state" | "commit-record", _) => t![9, 7],
            ("validator", _) => t![11],
            ("validator-vault", _) => t![11, 25],
            _ => t![9],
        },
        Undelegate => match (role, f) {
            ("account", "owner") => t![13],
            ("account", "lamports") => t![13, 14, 25],
            ("account", _) => t![13, 14],
            ("record" | "metadata", _) => t![13, 15],
            ("rent-payer", _) => t![15],
            ("protocol-vault" | "validator-vault", "lamports") => t![15, 25],
            ("protocol-vault" | "validator-vault", _) => t![15, 17, 18],
            ("validator", _) => t![13, 14],
            ("undelegate-buffer", _) => t![13],
            _ => t![13],
        },
        InitProtocol => t![18],
        InitValidator | CloseValidator => match (role, f) {
            ("validator-vault", "lamports") => t![16, 25],
            _ => t![16],
        },
        ValidatorClaim => t![17, 25],
        ProtocolClaim => t![18, 25],
        Whitelist => t![19],
        TopUp => t![20],
        CloseEscrow => t![20],
    }
}

fn diff(i: I, roles: &[(&'static str, Pubkey)], k: &Pubkey, pre: &Acc, exp: &Acc, got: &Acc, extra: u64, devs: &mut Vec<Dev>) {
    if exp == got {
        return;
    }
    let names: Vec<&str> = roles.iter().filter(|(_, x)| x == k).map(|(n, _)| *n).collect();
    let mut add = |f: &str, unchanged: bool, what: String| {
        let mut tags = extra | if unchanged { t![30] } else { 0 };
        for n in &names {
            tags |= field_tags(i, n, f);
        }
        if names.is_empty() {
            tags |= t![30];
        }
        devs.push(Dev { tags, what: format!("{i:?}: {}.{f} {what} [{k}]", names.join("/")) });
    };
    if exp.lamports != got.lamports {
        add(
            "lamports",
            exp.lamports == pre.lamports,
            format!("expected {} got {} (before {})", exp.lamports, got.lamports, pre.lamports),
        );
    }
    if exp.owner != got.owner {
        add("owner", exp.owner == pre.owner, format!("account owner expected {} got {}", exp.owner, got.owner));
    }
    if exp.data != got.data {
        let un = exp.data == pre.data;
        let mut done = false;
        if exp.owner == DLP && got.owner == DLP {
            if names.contains(&"record") {
                if let Some(a) = Rec::parse(&exp.data) {
                    match Rec::parse(&got.data) {
                        Some(b) => {
                            let p = Rec::parse(&pre.data);
                            macro_rules! c {
                                ($f:ident,$n:expr) => {
                                    if a.$f != b.$f {
                                        add($n, p.as_ref().map(|p| p.$f == a.$f).unwrap_or(false), format!("expected {:?} got {:?}", a.$f, b.$f));
                                        done = true;
                                    }
                                };
                            }
                            c!(authority, "authority");
                            c!(owner, "owner");
                            c!(slot, "slot");
                            c!(lamports, "rlam");
                            c!(freq, "freq");
                        }
                        None => {
                            add("data", un, format!("record layout broken: {:?}", hex(&got.data)));
                            devs.last_mut().unwrap().tags |= t![27];
                            return;
                        }
                    }
                }
            } else if names.contains(&"metadata") {
                if let Some(a) = Meta::parse(&exp.data) {
                    match Meta::parse(&got.data) {
                        Some(b) => {
                            let p = Meta::parse(&pre.data);
                            macro_rules! c {
                                ($f:ident,$n:expr) => {
                                    if a.$f != b.$f {
                                        add($n, p.as_ref().map(|p| p.$f == a.$f).unwrap_or(false), format!("expected {:?} got {:?}", a.$f, b.$f));
                                        done = true;
                                    }
                                };
                            }
                            c!(last, "last");
                            c!(undelegatable, "latch");
                            c!(seeds, "seeds");
                            c!(rent_payer, "rent_payer");
                        }
                        None => {
                            add("data", un, format!("metadata layout broken: {:?}", hex(&got.data)));
                            devs.last_mut().unwrap().tags |= t![27];
                            return;
                        }
                    }
                }
            } else if names.contains(&"commit-record") {
                if let Some(a) = CRec::parse(&exp.data) {
                    match CRec::parse(&got.data) {
                        Some(b) => {
                            macro_rules! c {
                                ($f:ident,$n:expr) => {
                                    if a.$f != b.$f {
                                        add($n, un, format!("expected {:?} got {:?}", a.$f, b.$f));
                                        done = true;
                                    }
                                };
                            }
                            c!(identity, "identity");
                            c!(account, "account");
                            c!(slot, "slot");
                            c!(lamports, "clam");
                        }
                        None => {
                            add("data", un, format!("commit record layout broken: {:?}", hex(&got.data)));
                            devs.last_mut().unwrap().tags |= t![27];
                            return;
                        }
                    }
                }
            } else if names.contains(&"config") && cfg_parse(&exp.data).is_some() && cfg_parse(&got.data).is_none() {
                add("data", un, format!("config layout broken: {:?}", hex(&got.data)));
                devs.last_mut().unwrap().tags |= t![27];
                return;
            }
        }
        if !done {
            add("data", un, format!("expected {} got {}", hex(&exp.data), hex(&got.data)));
        }
    }
}
pub fn hex(d: &[u8]) -> String {
    let mut s = format!("({}B)", d.len());
    for b in d.iter().take(48) {
        s.push_str(&format!("{b:02x}"));
    }
    if d.len() > 48 {
        s.push('~');
    }
    s
}

/// properties every successful / refused invocation of an instruction is evidence for
fn rel_ok(i: I) -> u64 {
    use I::*;
    t![22, 25, 30]
        | match i {
            Delegate => t![1, 2, 3, 27],
            DelegateEscrow => t![1, 2, 3, 21],
            Commit => t![3, 4, 5, 6, 7, 11, 12, 27],
            CommitBuffer => t![3, 4, 5, 6, 7, 8, 11, 12, 27],
            Finalize => t![3, 6, 7, 9, 10, 11, 12],
            Undelegate => t![3, 12, 13, 14, 15, 16],
            InitProtocol => t![18],
            InitValidator | CloseValidator => t![16],
            ValidatorClaim => t![17],
            ProtocolClaim => t![18],
            Whitelist => t![19, 27],
            TopUp => t![20],
            CloseEscrow => t![20, 21],
        }
}

fn malformed(e: &Event, what: &'static str) -> Verdict {
    let mut v = Verdict {
        label: format!("malformed:{what}:{}", e.data.first().copied().unwrap_or(0).min(20)),
        forbidden: true,
        ok: e.post.is_some(),
        rel: t![28, 30],
        ..Default::default()
    };
    if v.ok {
        v.devs.push(Dev { tags: t![28], what: format!("malformed instruction accepted ({what}): data {}", hex(&e.data)) });
    }
    v
}

pub fn on_curve(k: &Pubkey) -> bool {
    k.is_on_curve()
}

pub fn hostile(m: Mode) -> bool {
    !matches!(m, Mode::Honest | Mode::HonestManual)
}

pub fn judge(e: &Event, ctx: &Ctx) -> Verdict {
    if e.data.len() < 8 {
        return malformed(e, "short");
    }
    let tag = u64::from_le_bytes(e.data[..8].try_into().unwrap());
    // only the first byte is significant in the published tag encoding
    let Some(i) = I::from_tag(e.data[0]) else {
        return malformed(e, "unknown tag");
    };
    let _ = tag;
    let Some(args) = Args::decode(i, &e.data[8..]) else {
        return malformed(e, "undecodable arguments");
    };
    let names = roles(i);
    if e.metas.len() < names.len() {
        return malformed(e, "too few accounts");
    }
    if e.metas.len() > names.len() {
        return malformed(e, "too many accounts");
    }
    let mut j = J {
        e,
        i,
        forbids: vec![],
        need: true,
        why_not: "",
        exp: e.pre.clone(),
        roles: names.iter().enumerate().map(|(p, n)| (*n, e.metas[p].pubkey)).collect(),
        extra_tags: 0,
        alt: None,
        feat: vec![],
    };
    j.need(e.data[1..8] == [0; 7], "tag padding");
    // tags when the operation was obliged to succeed and did not
    let mut oblige: u64;
    let mut hostile_undelegate = false;
    match (i, &args) {
        (I::Delegate, Args::Delegate(d)) => {
            oblige = t![1, 2, 26];
            let (payer, acc, owner, buf, rec, meta) = (j.key(0), j.key(1), j.key(2), j.key(3), j.key(4), j.key(5));
            if owner == SYS && e.nested {
                j.extra_tags |= t![21];
                oblige |= t![21];
            }
            let ps = j.s(0);
            j.forbid(!ps, t![2], "payer did not sign");
            let as_ = j.s(1);
            j.forbid(!as_, t![2], "delegated account did not sign");
            let o = j.pre(&acc).owner;
            j.forbid(o != DLP, t![2], "account was not handed to the delegation program");
            if !on_curve(&acc) {
                let s: Vec<&[u8]> = d.seeds.iter().map(|x| x.as_slice()).collect();
                let p = if owner == SYS { DLP } else { owner };
                let ok = derive(&s, &p).map(|x| x.0) == Some(acc);
                j.forbid(!ok, t![2], "seeds do not derive the account under the claimed owner");
                j.feat.push("pda");
            } else {
                j.feat.push("curve");
            }
            j.forbid(buf != dbuf_pda(&acc, &owner), t![1, 22], "foreign buffer");
            j.forbid(rec != record_pda(&acc), t![2, 22], "not the canonical record");
            j.forbid(meta != meta_pda(&acc), t![2, 22], "not the canonical metadata");
            let (ru, mu) = (j.pre(&rec).is_uninit(), j.pre(&meta).is_uninit());
            j.forbid(!ru, t![2, 3], "account already has a session record");
            j.forbid(!mu, t![2, 3], "account already has session metadata");
            j.sys_program(6);
            j.payer_ok(0);
            let wr = j.w(3) && j.w(4) && j.w(5);
            j.need(wr, "not writable");
            let bd = j.pre(&buf).data.clone();
            if !bd.is_empty() {
                let c = bd.len() == j.pre(&acc).data.len();
                j.forbid(!c, t![1], "the buffer is not of the account's size");
                let w = j.w(1);
                j.need(w, "account not writable");
                j.feat.push("buffered");
            }
            let al = j.pre(&acc).lamports;
            j.need(al > 0, "zero balance account");
            if j.pre(&rec).lamports > 0 || j.pre(&meta).lamports > 0 {
                j.feat.push("prefunded");
            }
            j.feat.push(if d.validator.is_some() { "validator" } else { "no-validator" });
            j.distinct(&[("owner-program", "system")]);
            if j.forbids.is_empty() {
                let r = Rec {
                    authority: d.validator.unwrap_or_default(),
                    owner,
                    slot: e.slot,
                    lamports: al,
                    freq: d.freq as u64,
                }
                .bytes();
                let m = Meta { last: 0, undelegatable: false, seeds: d.seeds.clone(), rent_payer: payer }.bytes();
                j.create(&rec, &DLP, r.len(), &payer);
                j.create(&meta, &DLP, m.len(), &payer);
                j.x(&rec).data = r;
                j.x(&meta).data = m;
                if !bd.is_empty() {
                    j.x(&acc).data = bd;
                }
            }
        }
        (I::DelegateEscrow, Args::DelegateEscrow(d, idx)) => {
            oblige = t![21, 26];
            let (payer, wallet, esc, dlp) = (j.key(0), j.key(1), j.key(2), j.key(7));
            let s = j.s(0);
            j.forbid(!s, t![21, 2], "payer did not sign");
            let s = j.s(1);
            j.forbid(!s, t![21, 2], "wallet did not sign");
            j.forbid(esc != escrow_pda(&wallet, *idx), t![21, 22], "not the wallet's escrow");
            j.forbid(dlp != DLP, t![22], "fake delegation program");
            j.sys_program(6);
            // the nested delegation derives its accounts itself: they have to be among the
            // passed ones, and passing them in their places is only needed for the obligation
            let (buf, rec, meta) = (dbuf_pda(&esc, &SYS), record_pda(&esc), meta_pda(&esc));
            let there = |k: &Pubkey| e.metas.iter().any(|m| m.pubkey == *k);
            let (tb, tr, tm) = (there(&buf), there(&rec), there(&meta));
            j.forbid(!tb, t![1, 21, 22], "foreign buffer");
            j.forbid(!tr, t![21, 22], "not the canonical record");
            j.forbid(!tm, t![21, 22], "not the canonical metadata");
            j.need(j.key(3) == buf && j.key(4) == rec && j.key(5) == meta, "accounts out of place");
            let (ru, mu) = (!tr || j.pre(&rec).is_uninit(), !tm || j.pre(&meta).is_uninit());
            j.forbid(!ru || !mu, t![2, 3, 21], "escrow already delegated");
            let ea = j.pre(&esc).clone();
            j.need(ea.is_uninit() && ea.lamports > 0, "escrow state");
            j.payer_ok(0);
            let wr = j.w(2) && j.w(3) && j.w(4) && j.w(5);
            j.need(wr, "not writable");
            j.distinct(&[("payer", "wallet")]);
            if tr && tm && (j.pre(&rec).lamports > 0 || j.pre(&meta).lamports > 0) {
                j.feat.push("prefunded");
            }
            if j.forbids.is_empty() {
                let r = Rec {
                    authority: d.validator.unwrap_or_default(),
                    owner: SYS,
                    slot: e.slot,
                    lamports: ea.lamports,
                    freq: d.freq as u64,
                }
                .bytes();
                let seeds = vec![b"balance".to_vec(), wallet.as_ref().to_vec(), vec![*idx]];
                let m = Meta { last: 0, undelegatable: false, seeds, rent_payer: payer }.bytes();
                j.create(&rec, &DLP, r.len(), &payer);
                j.create(&meta, &DLP, m.len(), &payer);
                j.x(&rec).data = r;
                j.x(&meta).data = m;
                j.x(&esc).owner = DLP;
            }
        }
        (I::Commit | I::CommitBuffer, _) => {
            oblige = t![4, 7, 11, 26];
            let sh = if i == I::Commit { 0 } else { 1 };
            let (val, acc, cs, cr, rec, meta) = (j.key(0), j.key(1), j.key(2), j.key(3), j.key(4), j.key(5));
            let cfg = j.key(7 + sh);
            let (c, bytes) = match &args {
                Args::Commit(c, d) => (c, d.clone()),
                Args::CommitBuffer(c) => (c, j.pre(&j.key(6)).data.clone()),
                _ => unreachable!(),
            };
            if i == I::CommitBuffer {
                oblige |= t![8];
                j.extra_tags |= t![8];
            }
            let sess = j.session(1, 4, 5, t![4]);
            j.validator(0, 6 + sh, t![4], 0);
            j.sys_program(8 + sh);
            j.distinct(&[("config", "data-buffer"), ("record", "data-buffer"), ("account", "data-buffer"), ("validator-vault", "data-buffer")]);
            if let Some((r, m)) = &sess {
                if c.slot < m.last {
                    // outdated: succeeds, and does nothing
                    j.feat.push("outdated");
                    oblige = t![6] | j.extra_tags;
                    j.extra_tags |= t![6];
                    if m.undelegatable != c.allow {
                        j.extra_tags |= t![12];
                    }
                } else {
                    j.forbid(m.undelegatable, t![12], "undelegation already permitted");
                    let al = j.pre(&acc).lamports;
                    j.forbid(al < r.lamports, t![11], "account holds less than its recorded balance");
                    j.forbid(cs != cstate_pda(&acc), t![7, 22], "not the canonical commit state");
                    j.forbid(cr != crecord_pda(&acc), t![7, 22], "not the canonical commit record");
                    let (u1, u2) = (j.pre(&cs).is_uninit(), j.pre(&cr).is_uninit());
                    j.forbid(!u1 || !u2, t![7], "a commit is already pending");
                    j.forbid(cfg != config_pda(&r.owner), t![5, 22], "not the owner program's configuration");
                    let ca = j.pre(&cfg).clone();
                    let has = ca.owner != SYS;
                    if has {
                        let list = cfg_parse(&ca.data);
                        let on = list.as_ref().map(|l| l.contains(&val)).unwrap_or(false);
                        j.forbid(!on, t![5], "validator is not on the owner program's list");
                        oblige |= t![5];
                        j.feat.push("whitelisted");
                    } else {
                        j.feat.push("no-config");
                        oblige |= t![5];
                    }
                    j.payer_ok(0);
                    let wr = j.w(2) && j.w(3);
                    j.need(wr, "not writable");
                    if c.slot == m.last {
                        oblige |= t![6];
                        j.feat.push("slot==last");
                    } else {
                        j.feat.push(if c.slot > e.slot { "slot>clock" } else { "slot>last" });
                    }
                    if c.lamports != r.lamports {
                        oblige |= t![11];
                    }
                    j.feat.push(match c.lamports.cmp(&r.lamports) {
                        std::cmp::Ordering::Less => "dec",
                        std::cmp::Ordering::Equal => "same",
                        std::cmp::Ordering::Greater => "inc",
                    });
                    let cur = j.pre(&acc).data.len();
                    j.feat.push(match bytes.len().cmp(&cur) {
                        std::cmp::Ordering::Less => "shrink",
                        std::cmp::Ordering::Equal => "same-len",
                        std::cmp::Ordering::Greater => "grow",
                    });
                    if j.pre(&cs).lamports > 0 || j.pre(&cr).lamports > 0 {
                        j.feat.push("prefunded");
                    }
                    if c.allow {
                        j.feat.push("allow");
                    }
                    if j.pre(&acc).lamports > r.lamports {
                        j.feat.push("donated");
                    }
                    if j.forbids.is_empty() {
                        if c.lamports > r.lamports {
                            j.mv(&val, &cs, c.lamports - r.lamports);
                        }
                        j.create(&cs, &DLP, bytes.len(), &val);
                        j.create(&cr, &DLP, 88, &val);
                        // the increase may just as well be paid on top of the refundable rent
                        let on_top = j.pre(&cs).lamports.max(rent(bytes.len())) as u128 + c.lamports.saturating_sub(r.lamports) as u128;
                        let d = on_top.saturating_sub(j.exp[&cs].lamports as u128) as u64;
                        if d > 0 {
                            let covered = j.exp[&val].lamports >= d;
                            j.need(covered, "insufficient balance");
                            j.alt = Some((val, cs, d));
                        }
                        j.x(&cs).data = bytes;
                        j.x(&cr).data =
                            CRec { identity: val, account: acc, slot: c.slot, lamports: c.lamports }.bytes();
                        let mut m = m.clone();
                        m.undelegatable = c.allow;
                        j.x(&meta).data = m.bytes();
                    }
                    let _ = rec;
                }
            }
        }
        (I::Finalize, _) => {
            oblige = t![9, 10, 11, 26];
            let (val, acc, cs, cr, rec, meta, vault) =
                (j.key(0), j.key(1), j.key(2), j.key(3), j.key(4), j.key(5), j.key(6));
            let sess = j.session(1, 4, 5, t![10]);
            j.validator(0, 6, t![10], t![11]);
            j.sys_program(7);
            j.forbid(cs != cstate_pda(&acc), t![10, 22], "not the canonical commit state");
            j.forbid(cr != crecord_pda(&acc), t![10, 22], "not the canonical commit record");
            let (csa, cra) = (j.pre(&cs).clone(), j.pre(&cr).clone());
            j.distinct(&[]);
            let wr = j.w(4) && j.w(5) && j.w(6);
            j.need(wr, "not writable");
            if csa.is_uninit() && cra.is_uninit() {
                j.feat.push("nothing-pending");
                oblige = t![10];
                j.extra_tags |= t![10];
            } else {
                let c = (cra.owner == DLP).then(|| CRec::parse(&cra.data)).flatten();
                j.forbid(csa.owner != DLP || c.is_none(), t![10], "half a pending commit");
                if let (Some((r, m)), Some(c)) = (&sess, &c) {
                    j.forbid(c.identity != val, t![10, 11], "finalizer is not the committer");
                    j.forbid(c.account != acc, t![10], "pending commit of another account");
                    let wr = j.w(0) && j.w(1) && j.w(2) && j.w(3);
                    j.need(wr, "not writable");
                    let al = j.pre(&acc).lamports;
                    let mut after = al;
                    if r.lamports > c.lamports {
                        let d = r.lamports - c.lamports;
                        j.need(al >= d, "account cannot cover");
                        j.mv(&acc, &vault, d);
                        after = al.saturating_sub(d);
                        j.feat.push("dec");
                        oblige |= t![11];
                    } else if r.lamports < c.lamports {
                        let d = c.lamports - r.lamports;
                        j.need(csa.lamports >= d, "deposit missing");
                        j.mv(&cs, &acc, d);
                        after = al.saturating_add(d);
                        j.feat.push("inc");
                        oblige |= t![11];
                    } else {
                        j.feat.push("same");
                    }
                    j.feat.push(match csa.data.len().cmp(&j.e.pre[&acc].data.len()) {
                        std::cmp::Ordering::Less => "shrink",
                        std::cmp::Ordering::Equal => "same-len",
                        std::cmp::Ordering::Greater => "grow",
                    });
                    if al > r.lamports {
                        j.feat.push("donated");
                    }
                    if m.undelegatable {
                        j.feat.push("latched");
                    }
                    if j.forbids.is_empty() {
                        let mut m = m.clone();
                        m.last = c.slot;
                        let mut r = r.clone();
                        r.lamports = after;
                        j.x(&meta).data = m.bytes();
                        j.x(&rec).data = r.bytes();
                        j.x(&acc).data = csa.data.clone();
                        j.close(&cs, &val);
                        j.close(&cr, &val);
                    }
                }
            }
        }
        (I::Undelegate, _) => {
            oblige = t![12, 13, 15, 26];
            let (val, acc, owner, ubuf, cs, cr, rec, meta, rp, pv, vv) = (
                j.key(0),
                j.key(1),
                j.key(2),
                j.key(3),
                j.key(4),
                j.key(5),
                j.key(6),
                j.key(7),
                j.key(8),
                j.key(9),
                j.key(10),
            );
            let sess = j.session(1, 6, 7, t![12]);
            j.validator(0, 10, t![12], t![15]);
            j.sys_program(11);
            j.forbid(pv != pvault_pda() || j.e.pre[&pv].owner != DLP, t![15, 22], "not the protocol vault");
            j.forbid(cs != cstate_pda(&acc), t![12, 22], "not the canonical commit state");
            j.forbid(cr != crecord_pda(&acc), t![12, 22], "not the canonical commit record");
            let (u1, u2) = (j.pre(&cs).is_uninit(), j.pre(&cr).is_uninit());
            j.forbid(!u1 || !u2, t![12, 7], "a commit is still pending");
            j.distinct(&[("validator", "rent-payer"), ("owner-program", "system")]);
            if let Some((r, m)) = &sess {
                j.forbid(r.owner != owner, t![12, 13, 14], "not the recorded owner program");
                j.forbid(!m.undelegatable, t![12], "undelegation was not permitted");
                j.forbid(m.rent_payer != rp, t![12, 15], "not the recorded rent payer");
                let wr = (6..=10).all(|p| j.w(p)) && j.w(1);
                j.need(wr, "not writable");
                let a = j.pre(&acc).clone();
                if r.owner == SYS {
                    j.extra_tags |= t![21];
                    oblige |= t![21];
                    j.feat.push("escrow");
                }
                if a.data.is_empty() {
                    j.feat.push("no-data");
                    if j.forbids.is_empty() {
                        j.x(&acc).owner = r.owner;
                    }
                } else {
                    j.feat.push("data");
                    hostile_undelegate = hostile(ctx.mode);
                    j.need(!hostile_undelegate, "hostile owner program");
                    j.need(ctx.mocks.contains(&owner), "owner program is not callable");
                    let s: Vec<&[u8]> = m.seeds.iter().map(|x| x.as_slice()).collect();
                    let der = derive(&s, &owner).map(|x| x.0) == Some(acc);
                    j.need(der, "seeds do not derive the account");
                    j.need(a.lamports >= rent(a.data.len()), "account below rent");
                    j.forbid(ubuf != ubuf_pda(&acc), t![13, 22], "not the canonical buffer");
                    j.forbid(!j.e.pre[&ubuf].is_uninit(), t![13], "undelegation buffer in use");
                    j.payer_ok(0);
                    let wr = j.w(3);
                    j.need(wr, "not writable");
                    let ub = j.pre(&ubuf).lamports;
                    if ub > 0 {
                        j.feat.push("prefunded");
                    }
                    let cost = rent(a.data.len()).saturating_sub(ub);
                    let has = j.pre(&val).lamports >= cost;
                    j.need(has, "validator cannot fund the buffer");
                    if j.forbids.is_empty() {
                        j.mv(&ubuf, &val, ub);
                        j.x(&acc).owner = r.owner;
                    }
                }
                if a.lamports > r.lamports {
                    j.feat.push("donated");
                }
                if rp == val {
                    j.feat.push("payer=validator");
                }
                if j.forbids.is_empty() {
                    j.close_with_fees(&rec, &rp, &vv, &pv);
                    j.close_with_fees(&meta, &rp, &vv, &pv);
                    if e.pre[&rec].lamports > rent(96) {
                        j.feat.push("rec-donated");
                    }
                }
            }
        }
        (I::InitProtocol, _) => {
            oblige = t![18];
            let (payer, pv) = (j.key(0), j.key(1));
            let s = j.s(0);
            j.forbid(!s, t![18], "payer did not sign");
            j.forbid(pv != pvault_pda(), t![18, 22], "not the protocol vault");
            let u = j.pre(&pv).is_uninit();
            j.forbid(!u, t![18], "already initialised");
            j.sys_program(2);
            j.payer_ok(0);
            let w = j.w(1);
            j.need(w, "not writable");
            j.distinct(&[]);
            if j.forbids.is_empty() {
                j.create(&pv, &DLP, 8, &payer);
            }
        }
        (I::InitValidator, _) => {
            oblige = t![16];
            let (payer, id, v) = (j.key(0), j.key(3), j.key(4));
            let s = j.s(0);
            j.forbid(!s, t![16], "payer did not sign");
            j.admin(1, 2, t![16]);
            j.forbid(v != vvault_pda(&id), t![16, 22], "not the named validator's vault");
            let u = j.pre(&v).is_uninit();
            j.forbid(!u, t![16], "vault exists");
            j.sys_program(5);
            j.payer_ok(0);
            let w = j.w(4);
            j.need(w, "not writable");
            j.distinct(&[("payer", "admin"), ("admin", "identity"), ("payer", "identity")]);
            if j.pre(&v).lamports > 0 {
                j.feat.push("prefunded");
            }
            if j.forbids.is_empty() {
                j.create(&v, &DLP, 8, &payer);
            }
        }
        (I::CloseValidator, _) => {
            oblige = t![16];
            let (id, v) = (j.key(3), j.key(4));
            let s = j.s(0);
            j.forbid(!s, t![16], "payer did not sign");
            j.admin(1, 2, t![16]);
            j.forbid(v != vvault_pda(&id), t![16, 22], "not the named validator's vault");
            let o = j.pre(&v).owner;
            j.forbid(o != DLP, t![16], "no vault");
            let w = j.w(3) && j.w(4);
            j.need(w, "not writable");
            j.distinct(&[("payer", "admin"), ("admin", "identity"), ("payer", "identity")]);
            if j.forbids.is_empty() {
                j.close(&v, &id);
            }
        }
        (I::ValidatorClaim, Args::Claim(amt)) => {
            oblige = t![17];
            let (val, pv, vv) = (j.key(0), j.key(1), j.key(2));
            let s = j.s(0);
            j.forbid(!s, t![17], "validator did not sign");
            j.forbid(pv != pvault_pda() || j.e.pre[&pv].owner != DLP, t![17, 22], "not the protocol vault");
            j.forbid(vv != vvault_pda(&val), t![17, 22], "not the validator's vault");
            j.forbid(j.e.pre[&vv].owner != DLP, t![17, 16], "no vault");
            let whole = j.pre(&vv).lamports >= rent(8);
            j.need(whole, "vault below its minimum");
            let avail = j.pre(&vv).lamports.saturating_sub(rent(8));
            let x = amt.unwrap_or(avail);
            j.forbid(x > avail, t![17], "more than is available");
            let w = j.w(0) && j.w(1) && j.w(2);
            j.need(w, "not writable");
            j.distinct(&[]);
            j.feat.push(match amt {
                None => "all",
                Some(0) => "zero",
                Some(y) if *y == avail => "exact",
                Some(y) if *y > avail => "excess",
                _ => "partial",
            });
            if j.forbids.is_empty() {
                let p = (x as u128 * 10 / 100) as u64;
                j.mv(&vv, &pv, p);
                j.mv(&vv, &val, x - p);
            }
        }
        (I::ProtocolClaim, _) => {
            oblige = t![18];
            let (admin, pv) = (j.key(0), j.key(1));
            j.admin(0, 2, t![18]);
            j.forbid(pv != pvault_pda() || j.e.pre[&pv].owner != DLP, t![18, 22], "not the protocol vault");
            let w = j.w(0) && j.w(1);
            j.need(w, "not writable");
            j.distinct(&[]);
            let whole = j.pre(&pv).lamports >= rent(8);
            j.need(whole, "vault below its minimum");
            if j.forbids.is_empty() {
                let avail = j.pre(&pv).lamports.saturating_sub(rent(8));
                j.feat.push(if avail == 0 { "nothing" } else { "some" });
                j.mv(&pv, &admin, avail);
            }
        }
        (I::Whitelist, Args::Whitelist(insert)) => {
            oblige = t![19];
            let (auth, id, prog, pd, dpd, cfg) = (j.key(0), j.key(1), j.key(2), j.key(3), j.key(4), j.key(5));
            let s = j.s(0);
            j.forbid(!s, t![19], "authority did not sign");
            j.forbid(dpd != pdata_pda(&DLP), t![19, 22], "wrong program-data account");
            let admin = upgrade_authority(j.pre(&dpd)).unwrap_or(None);
            j.need(admin.is_some(), "no administrator");
            let pa = if pd == pdata_pda(&prog) { upgrade_authority(j.pre(&pd)).unwrap_or(None) } else { None };
            let is_admin = admin == Some(auth) && dpd == pdata_pda(&DLP);
            j.forbid(!is_admin && pa != Some(auth), t![19], "signer is neither authority nor administrator");
            j.forbid(cfg != config_pda(&prog), t![19, 22], "not the program's configuration");
            j.sys_program(6);
            j.payer_ok(0);
            let w = j.w(5);
            j.need(w, "not writable");
            j.distinct(&[
                ("authority", "identity"),
                ("programdata", "dlp-programdata"),
                ("identity", "program"),
                ("identity", "programdata"),
                ("identity", "dlp-programdata"),
                ("identity", "system"),
                ("program", "system"),
            ]);
            let ca = j.pre(&cfg).clone();
            j.feat.push(if is_admin { "admin" } else { "authority" });
            j.feat.push(if *insert { "insert" } else { "remove" });
            if ca.is_uninit() && ca.lamports > 0 {
                j.feat.push("prefunded");
            }
            let old = if ca.owner == SYS { Some(Default::default()) } else { cfg_parse(&ca.data) };
            j.need(old.is_some(), "broken configuration");
            if let (true, Some(mut set)) = (j.forbids.is_empty(), old) {
                if ca.owner == SYS {
                    j.feat.push("create");
                    j.create(&cfg, &DLP, 0, &auth);
                }
                let had = set.contains(&id);
                j.feat.push(if had { "present" } else { "absent" });
                if *insert {
                    set.insert(id);
                } else {
                    set.remove(&id);
                }
                let b = cfg_bytes(&set);
                let short = rent(b.len()).saturating_sub(j.exp[&cfg].lamports);
                j.mv(&auth, &cfg, short);
                let grow = b.len().saturating_sub(ca.data.len());
                j.need(grow <= 10240, "too large");
                j.x(&cfg).data = b;
            }
        }
        (I::TopUp, Args::TopUp(amt, idx)) => {
            oblige = t![20];
            let (payer, wallet, esc) = (j.key(0), j.key(1), j.key(2));
            let s = j.s(0);
            j.forbid(!s, t![20], "payer did not sign");
            j.forbid(esc != escrow_pda(&wallet, *idx), t![20, 22], "not the wallet's escrow");
            j.sys_program(3);
            j.payer_ok(0);
            let w = j.w(2);
            j.need(w, "not writable");
            j.distinct(&[("payer", "wallet")]);
            if j.forbids.is_empty() {
                let ea = j.pre(&esc).clone();
                if ea.owner == SYS {
                    let short = rent(0).saturating_sub(ea.lamports);
                    j.feat.push(if short == 0 { "existing" } else { "new" });
                    j.mv(&payer, &esc, short);
                    j.need(ea.data.is_empty(), "odd escrow");
                } else {
                    j.feat.push("delegated");
                    oblige |= t![21];
                }
                j.mv(&payer, &esc, *amt);
            }
        }
        (I::CloseEscrow, Args::CloseEscrow(idx)) => {
            oblige = t![20, 21];
            let (wallet, esc, sys) = (j.key(0), j.key(1), j.key(2));
            let s = j.s(0);
            j.forbid(!s, t![20], "wallet did not sign");
            j.forbid(esc != escrow_pda(&wallet, *idx), t![20, 22], "not the wallet's escrow");
            let ea = j.pre(&esc).clone();
            j.forbid(ea.owner != SYS, t![20, 21], "escrow is delegated");
            let w = j.w(0) && j.w(1);
            j.need(w && sys == SYS && ea.data.is_empty(), "not writable");
            j.distinct(&[]);
            j.feat.push(if ea.lamports == 0 { "empty" } else { "funded" });
            if j.forbids.is_empty() {
                j.mv(&esc, &wallet, ea.lamports);
            }
        }
        _ => unreachable!(),
    }

    let mut v = Verdict { instr: Some(i), ok: e.post.is_some(), ..Default::default() };
    v.forbidden = !j.forbids.is_empty();
    v.obliged = !v.forbidden && j.need;
    let extra = j.extra_tags;
    match &e.post {
        Some(post) => {
            let noop = e.pre.iter().all(|(k, a)| post[k] == *a);
            if noop && matches!(i, I::Commit | I::CommitBuffer) && (v.forbidden || j.exp != e.pre) {
                v.devs.push(Dev { tags: t![6], what: format!("{i:?} passed over as outdated although it is not") });
            }
            if v.forbidden {
                for (tg, w) in &j.forbids {
                    v.devs.push(Dev { tags: *tg | extra_forbid(i, extra), what: format!("{i:?} accepted although {w}") });
                    v.rel |= tg;
                }
            } else {
                if let Some((from, to, d)) = j.alt {
                    if post[&to].lamports == j.exp[&to].lamports.saturating_add(d) {
                        j.mv(&from, &to, d);
                    }
                }
                for (k, exp) in &j.exp {
                    let pre = &e.pre[k];
                    let got = &post[k];
                    let mut exp = exp.clone();
                    if hostile_undelegate && j.roles[1].1 == *k {
                        // the hostile program decides who owns the account it recreated; nothing else
                        exp.owner = got.owner;
                        if got.lamports > exp.lamports {
                            exp.lamports = got.lamports;
                        }
                    }
                    let ex = if hostile_undelegate { extra | t![14] } else { extra };
                    diff(i, &j.roles, k, pre, &exp, got, ex, &mut v.devs);
                    if exp.lamports != pre.lamports {
                        v.delta.push((*k, exp.lamports as i128 - pre.lamports as i128));
                    }
                }
                v.rel |= rel_ok(i) | extra;
                check_cpis(i, &j, &mut v.devs);
            }
        }
        None => {
            if v.obliged {
                let un = e.err.as_deref() == Some("UnbalancedInstruction");
                v.devs.push(Dev {
                    tags: oblige | if un { t![25, 11, 17, 18] } else { 0 },
                    what: format!("{i:?} must succeed but failed: {} ({})", e.err.clone().unwrap_or_default(), j.feat.join(",")),
                });
            } else if v.forbidden {
                for (tg, _) in &j.forbids {
                    v.rel |= tg;
                }
                v.rel |= t![30];
            }
        }
    }
    v.label = format!(
        "{i:?}:{}:{}{}{}",
        if v.ok { "ok" } else { "err" },
        j.feat.join(","),
        if v.forbidden {
            format!("|forbid:{}", j.forbids.iter().map(|x| x.1).collect::<Vec<_>>().join("+"))
        } else {
            String::new()
        },
        if !v.ok && !v.forbidden && !j.need { format!("|cannot:{}", j.why_not) } else { String::new() }
    );
    if hostile_undelegate {
        v.label.push_str(format!("|{:?}", ctx.mode).split('(').next().unwrap());
        v.rel |= t![14];
    }
    v
}

fn extra_forbid(i: I, extra: u64) -> u64 {
    match i {
        I::CommitBuffer | I::Delegate => extra,
        I::Undelegate => extra & t![21],
        _ => 0,
    }
}

/// Privileges and payloads of the calls the program made.
fn check_cpis(i: I, j: &J, devs: &mut Vec<Dev>) {
    for c in &j.e.cpis {
        if c.program == SYS {
            continue;
        }
        match i {
            I::Undelegate if c.program == j.key(2) => {
                let (val, acc, ubuf) = (j.key(0), j.key(1), j.key(3));
                for m in &c.metas {
                    let known = [val, acc, ubuf, SYS].contains(&m.pubkey);
                    if !known && (m.is_writable || m.is_signer) {
                        devs.push(Dev { tags: t![14], what: format!("owner program was passed {} beyond the hand-back accounts", m.pubkey) });
                    }
                    if m.is_signer && m.pubkey != val && m.pubkey != ubuf {
                        devs.push(Dev { tags: t![14], what: format!("owner program received the signature of {}", m.pubkey) });
                    }
                }
                for s in &c.pda_signers {
                    if *s != ubuf {
                        devs.push(Dev { tags: t![14], what: format!("derived signature of {s} handed to the owner program") });
                    }
                }
                let m = Meta::parse(&j.e.pre[&j.key(7)].data);
                if let Some(m) = m {
                    let mut want = UNDELEGATE.to_vec();
                    put_seeds(&mut want, &m.seeds);
                    if c.data != want {
                        devs.push(Dev { tags: t![13], what: format!("hand-back request carries {} instead of the recorded seeds", hex(&c.data)) });
                    }
                }
            }
            I::DelegateEscrow if c.program == DLP => {}
            _ => devs.push(Dev { tags: t![14, 30], what: format!("{i:?} called {}", c.program) }),
        }
    }
}
