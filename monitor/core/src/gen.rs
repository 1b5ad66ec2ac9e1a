//! Operation generators: one plausible (sometimes deliberately wrong) transaction for the current state.
use crate::mock::{Mode, OTHER};
use crate::model::*;
use crate::sim::*;
use crate::svm::*;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;
use solana_program::system_instruction as si;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Delegate,
    DelegateEscrow,
    Commit,
    CommitBuf,
    Finalize,
    Undelegate,
    InitProtocol,
    InitValidator,
    CloseValidator,
    VClaim,
    PClaim,
    Whitelist,
    TopUp,
    CloseEscrow,
    Donate,
    Slot,
    RotateAdmin,
    RotateAuth,
    Refund,
    /// somebody's wallet is emptied
    Drain,
}
pub const OPS: [Op; 20] = [
    Op::Delegate,
    Op::DelegateEscrow,
    Op::Commit,
    Op::CommitBuf,
    Op::Finalize,
    Op::Undelegate,
    Op::InitProtocol,
    Op::InitValidator,
    Op::CloseValidator,
    Op::VClaim,
    Op::PClaim,
    Op::Whitelist,
    Op::TopUp,
    Op::CloseEscrow,
    Op::Donate,
    Op::Slot,
    Op::RotateAdmin,
    Op::RotateAuth,
    Op::Refund,
    Op::Drain,
];

/// A transaction and which of its instructions is the one of interest.
#[derive(Clone, Debug)]
pub struct Plan {
    pub op: Op,
    pub ixs: Vec<Instruction>,
    pub target: usize,
    pub mode: Mode,
    /// the delegated account concerned, if any
    pub acc: Option<Pubkey>,
}
impl Plan {
    fn one(op: Op, ix: Instruction, acc: Option<Pubkey>) -> Option<Plan> {
        Some(Plan { op, ixs: vec![ix], target: 0, mode: Mode::Honest, acc })
    }
    pub fn ix(&self) -> &Instruction {
        &self.ixs[self.target]
    }
    pub fn tx(&self, fee: Pubkey) -> Tx {
        Tx { payer: fee, ixs: self.ixs.clone() }
    }
    pub fn instr(&self) -> Option<I> {
        let ix = self.ix();
        if ix.program_id == DLP && !ix.data.is_empty() {
            I::from_tag(ix.data[0])
        } else {
            None
        }
    }
}

impl World {
    fn chance(&mut self, p: u32) -> bool {
        self.rng.pct(p)
    }
    pub fn pick_val(&mut self, tw: u32) -> Pubkey {
        if self.chance(tw) {
            return match self.rng.below(6) {
                0 => self.cast.admin,
                1 => *self.rng.pick(&self.cast.wallets),
                2 => self.cast.outsider,
                _ => *self.rng.pick(&self.cast.vals),
            };
        }
        let reg: Vec<Pubkey> = self.cast.vals.iter().copied().filter(|v| self.sim.registered(v)).collect();
        if reg.is_empty() {
            *self.rng.pick(&self.cast.vals)
        } else {
            *self.rng.pick(&reg)
        }
    }
    pub fn pick_acc(&mut self, f: impl Fn(&Sim, &AccDef) -> bool) -> Option<AccDef> {
        let v: Vec<AccDef> = self.cast.accs.iter().filter(|a| f(&self.sim, a)).cloned().collect();
        if v.is_empty() {
            None
        } else {
            Some(self.rng.pick(&v).clone())
        }
    }
    pub fn payer(&mut self) -> Pubkey {
        match self.rng.below(8) {
            0 => *self.rng.pick(&self.cast.vals),
            1 => self.cast.admin,
            2 => self.cast.outsider,
            3 => *self.rng.pick(&self.cast.auths),
            _ => *self.rng.pick(&self.cast.wallets),
        }
    }
    pub fn dargs(&mut self, a: &AccDef) -> DArgs {
        let seeds = match &a.kind {
            Kind::Pda { seeds, .. } => seeds.clone(),
            Kind::Curve { .. } => match self.rng.below(3) {
                0 => vec![],
                1 => vec![self.rng.bytes(5)],
                _ => vec![b"x".to_vec(), vec![]],
            },
            Kind::Escrow { wallet, idx } => match self.rng.below(4) {
                0 => vec![b"balance".to_vec(), wallet.as_ref().to_vec(), vec![*idx]],
                1 => vec![],
                2 => vec![b"balance".to_vec(), self.cast.outsider.as_ref().to_vec(), vec![*idx]],
                _ => vec![self.rng.bytes(7), self.rng.bytes(3)],
            },
        };
        let freq = match self.rng.below(3) {
            0 => u32::MAX,
            1 => 3000,
            _ => self.rng.val(&[], dict()) as u32,
        };
        let validator = match self.rng.below(4) {
            0 => None,
            1 => Some(*self.rng.pick(&self.cast.vals)),
            2 => Some(match self.rng.below(8) {
                0 => a.key,
                1 => a.owner(),
                2 => self.cast.admin,
                3 => *self.rng.pick(&self.cast.wallets),
                4 => DLP,
                _ => Pubkey::default(),
            }),
            _ => Some(Pubkey::new_from_array(self.rng.arr32())),
        };
        DArgs { freq, seeds, validator }
    }
    pub fn commit_args(&mut self, acc: &Pubkey, v: &Pubkey, rough: bool) -> (CArgs, Vec<u8>) {
        let rec = self.sim.rec(acc);
        let last = self.sim.meta(acc).map(|m| m.last).unwrap_or(0);
        let a = self.sim.svm.get(acc);
        let r = rec.as_ref().map(|r| r.lamports).unwrap_or(a.lamports);
        let rs = rec.as_ref().map(|r| r.slot).unwrap_or(0);
        let slot_ctx = [last, self.sim.svm.slot, rs, 0, last + 1];
        let slot = match self.rng.below(6) {
            0 => last,
            1 => last.saturating_add(1),
            2 => last.saturating_sub(1),
            3 => last.saturating_add(self.rng.u64() % 1000),
            _ => {
                let v = self.rng.val(&slot_ctx, dict());
                if self.chance(70) {
                    v % (1 << 40)
                } else {
                    v
                }
            }
        };
        let data = match self.rng.below(11) {
            0 => a.data.clone(),
            10 => {
                // the same beginning, another length
                let mut d = a.data.clone();
                match self.rng.below(3) {
                    0 => d.truncate(d.len() / 2),
                    1 => {
                        let n = 1 + self.rng.below(40);
                        d.extend(self.rng.bytes(n));
                    }
                    _ => d.extend(vec![0; 1 + self.rng.below(40)]),
                }
                d.truncate(10240);
                d
            }
            1 if rough => {
                let n = 10240 - self.rng.below(3) * self.rng.below(300);
                self.rng.bytes(n)
            }
            2 => {
                let mut d = a.data.clone();
                if !d.is_empty() {
                    let i = self.rng.below(d.len());
                    d[i] ^= 1 << self.rng.below(8);
                }
                d
            }
            3 => {
                let b = *self.rng.pick(&self.cast.bufs);
                self.sim.svm.get(&b).data
            }
            _ => {
                let l = pick_len(&mut self.rng, a.data.len()).min(10240);
                pick_data(&mut self.rng, l)
            }
        };
        let vl = self.sim.svm.lamports(v);
        let mut lam = match self.rng.below(8) {
            0 | 1 => r,
            2 => r.saturating_add(1),
            3 => r.saturating_sub(1),
            4 => r.saturating_add(self.rng.u64() % 5_000_000_000),
            5 => {
                // a donated surplus can keep an account alive that is committed with next to nothing
                if a.lamports.saturating_sub(r) >= rent(data.len()) && self.chance(60) {
                    [0, 0, 1, rent(0) - 1][self.rng.below(4)]
                } else {
                    rent(data.len())
                }
            }
            6 => {
                // as much as the committer can possibly deposit
                r.saturating_add(vl.saturating_sub(rent(88))).saturating_sub(rent(data.len()) + [0, rent(0), 1][self.rng.below(3)])
            }
            _ => {
                let ctx = [r, a.lamports, rent(a.data.len()), rent(data.len()), rent(0), vl];
                let v = self.rng.val(&ctx, dict());
                if self.chance(70) {
                    v % 100_000_000_000
                } else {
                    v
                }
            }
        };
        // keep the account alive and (mostly) rent exempt after finalization
        let floor = rent(data.len());
        let after = (a.lamports.saturating_sub(r)).saturating_add(lam);
        if after < floor && (after == 0 || !self.chance(4)) {
            lam = floor;
        }
        (CArgs { slot, lamports: lam, allow: self.chance(35) }, data)
    }
    pub fn amount(&mut self, ctx: &[u64]) -> u64 {
        let v = self.rng.val(ctx, dict());
        if self.chance(85) {
            v % 200_000_000_000
        } else {
            v
        }
    }

    /// tw: percent chance of a wrong choice of party at each point where one is chosen.
    pub fn gen(&mut self, op: Op, tw: u32) -> Option<Plan> {
        match op {
            Op::Delegate => {
                let a = if self.chance(tw) {
                    self.pick_acc(|_, a| !matches!(a.kind, Kind::Escrow { .. }))?
                } else {
                    self.pick_acc(|s, a| !matches!(a.kind, Kind::Escrow { .. }) && s.rec(&a.key).is_none() && s.svm.lamports(&a.key) > 0)?
                };
                let d = self.dargs(&a);
                let payer = self.payer();
                match &a.kind {
                    Kind::Pda { prog, .. } => Plan::one(Op::Delegate, mk_sdk_delegate(payer, a.key, *prog, d), Some(a.key)),
                    Kind::Curve { owner } => {
                        let own = self.sim.svm.get(&a.key).owner;
                        let mut ixs = vec![];
                        if own == SYS {
                            ixs.push(si::assign(&a.key, &DLP));
                        } else if own != DLP {
                            return None;
                        }
                        ixs.push(mk_delegate(payer, a.key, *owner, d));
                        let target = ixs.len() - 1;
                        Some(Plan { op: Op::Delegate, ixs, target, mode: Mode::Honest, acc: Some(a.key) })
                    }
                    _ => None,
                }
            }
            Op::DelegateEscrow => {
                let a = if self.chance(tw) {
                    self.pick_acc(|_, a| matches!(a.kind, Kind::Escrow { .. }))?
                } else {
                    self.pick_acc(|s, a| {
                        matches!(a.kind, Kind::Escrow { .. }) && s.rec(&a.key).is_none() && s.svm.lamports(&a.key) > 0
                    })?
                };
                let Kind::Escrow { mut wallet, idx } = a.kind.clone() else { return None };
                if self.sim.svm.lamports(&a.key) == 0 {
                    return None; // known finding, exercised separately
                }
                let d = self.dargs(&a);
                if self.chance(tw / 2) {
                    wallet = *self.rng.pick(&self.cast.wallets);
                    if self.sim.svm.lamports(&escrow_pda(&wallet, idx)) == 0 {
                        return None;
                    }
                }
                let payer = if self.chance(50) { wallet } else { self.payer() };
                Plan::one(op, mk_delegate_escrow(payer, wallet, idx, d), Some(a.key))
            }
            Op::Commit | Op::CommitBuf => {
                let a = if self.chance(tw / 2) {
                    self.pick_acc(|_, _| true)?
                } else {
                    self.pick_acc(|s, a| s.rec(&a.key).is_some())?
                };
                let v = self.pick_val(tw);
                let rec = self.sim.rec(&a.key);
                let mut owner = rec.map(|r| r.owner).unwrap_or(a.owner());
                if self.chance(tw / 3) {
                    owner = *self.rng.pick(&self.cast.mocks);
                }
                let rough = self.chance(6);
                let (mut c, mut d) = self.commit_args(&a.key, &v, rough);
                if matches!(a.kind, Kind::Escrow { .. }) || a.owner() == SYS {
                    // a system-owned account cannot get data back: honest validators commit none
                    d = vec![];
                    c.lamports = c.lamports.max(rent(0));
                } else if matches!(a.kind, Kind::Curve { .. }) {
                    d = vec![];
                    c.lamports = c.lamports.max(rent(0));
                }
                if op == Op::Commit {
                    Plan::one(op, mk_commit(v, a.key, owner, c, d), Some(a.key))
                } else {
                    let mut buf = *self.rng.pick(&self.cast.bufs);
                    if matches!(a.kind, Kind::Escrow { .. } | Kind::Curve { .. }) {
                        buf = self.cast.outsider; // an account without data
                    } else if self.chance(15) {
                        buf = *self.rng.pick(&self.cast.wallets);
                    } else if self.chance(15) {
                        buf = self.cast.accs[self.rng.below(self.cast.accs.len())].key;
                    } else if self.chance(20) {
                        // anything that exists will do
                        buf = match self.rng.below(8) {
                            0 => vvault_pda(&v),
                            1 => pvault_pda(),
                            2 => config_pda(&owner),
                            3 => record_pda(&a.key),
                            4 => meta_pda(&a.key),
                            5 => owner,
                            6 => *self.rng.pick(&[DLP, SYS]),
                            _ => v,
                        };
                    }
                    let len = self.sim.svm.get(&buf).data.len();
                    c.lamports = c.lamports.max(rent(len));
                    Plan::one(op, mk_commit_buf(v, a.key, owner, buf, c), Some(a.key))
                }
            }
            Op::Finalize => {
                let a = if self.chance(25) {
                    self.pick_acc(|s, a| s.rec(&a.key).is_some())?
                } else {
                    self.pick_acc(|s, a| s.pending(&a.key).is_some())?
                };
                let p = self.sim.pending(&a.key);
                let v = match p {
                    Some(c) if !self.chance(tw) => c.identity,
                    _ => self.pick_val(tw),
                };
                Plan::one(op, mk_finalize(v, a.key), Some(a.key))
            }
            Op::Undelegate => {
                let a = if self.chance(tw) {
                    self.pick_acc(|s, a| s.rec(&a.key).is_some())?
                } else {
                    self.pick_acc(|s, a| {
                        s.meta(&a.key).map(|m| m.undelegatable).unwrap_or(false) && s.pending(&a.key).is_none()
                    })?
                };
                let v = self.pick_val(tw);
                let mut owner = self.sim.rec(&a.key).map(|r| r.owner).unwrap_or(a.owner());
                let mut rp = self.sim.meta(&a.key).map(|m| m.rent_payer).unwrap_or(v);
                if self.chance(tw / 3) {
                    owner = *self.rng.pick(&self.cast.mocks);
                }
                if self.chance(tw / 3) {
                    rp = self.payer();
                }
                let mode = if self.chance(30) { Mode::HonestManual } else { Mode::Honest };
                Some(Plan { op, ixs: vec![mk_undelegate(v, a.key, owner, rp)], target: 0, mode, acc: Some(a.key) })
            }
            Op::InitProtocol => {
                let p = self.payer();
                Plan::one(op, mk_init_protocol(p), None)
            }
            Op::InitValidator | Op::CloseValidator => {
                let id = if self.chance(tw) { self.payer() } else { *self.rng.pick(&self.cast.vals) };
                let admin = if self.chance(tw) {
                    self.payer()
                } else {
                    self.sim.admin_now().unwrap_or(self.cast.admin)
                };
                let payer = if self.chance(60) { admin } else { self.payer() };
                if op == Op::InitValidator {
                    Plan::one(op, mk_init_validator(payer, admin, id), None)
                } else {
                    Plan::one(op, mk_close_validator(payer, admin, id), None)
                }
            }
            Op::VClaim => {
                let v = self.pick_val(tw);
                let avail = self.sim.svm.lamports(&vvault_pda(&v)).saturating_sub(rent(8));
                let amt = if self.chance(30) {
                    None
                } else {
                    Some(match self.rng.below(8) {
                        0 => avail,
                        1 => avail + 1,
                        2 => avail.saturating_sub(1),
                        3 => 0,
                        4 => avail + rent(8),
                        5 => avail / 2,
                        _ => self.rng.val(&[avail, rent(8), 10, 9, 99, 100], dict()),
                    })
                };
                // wrap-around arithmetic on impossible amounts is not interesting
                Plan::one(op, mk_vclaim(v, amt), None)
            }
            Op::PClaim => {
                let a = if self.chance(tw) {
                    self.payer()
                } else {
                    self.sim.admin_now().unwrap_or(self.cast.admin)
                };
                Plan::one(op, mk_pclaim(a), None)
            }
            Op::Whitelist => {
                let p = match self.rng.below(12) {
                    0 => DLP,
                    1 => SYS,
                    _ => *self.rng.pick(&self.cast.mocks),
                };
                let auth_now = upgrade_authority(&self.sim.svm.get(&pdata_pda(&p))).unwrap_or(None);
                let auth = if self.chance(tw) {
                    match self.rng.below(3) {
                        0 => *self.rng.pick(&self.cast.auths),
                        1 => *self.rng.pick(&self.cast.vals),
                        _ => self.payer(),
                    }
                } else if self.chance(45) {
                    self.sim.admin_now().unwrap_or(self.cast.admin)
                } else {
                    auth_now.unwrap_or(self.cast.admin)
                };
                let id = match self.rng.below(8) {
                    0 => Pubkey::new_from_array(self.rng.arr32()),
                    1 => auth,
                    2 => *self.rng.clone().pick(&[Pubkey::default(), Pubkey::default(), p, DLP, pdata_pda(&p), Pubkey::new_from_array([255; 32])]),
                    3 => {
                        // an entry next to an existing one
                        match self.sim.config(&p).and_then(|c| c.iter().next().copied()) {
                            Some(k) => {
                                let mut b = k.to_bytes();
                                b[31] ^= 1;
                                Pubkey::new_from_array(b)
                            }
                            None => *self.rng.pick(&self.cast.vals),
                        }
                    }
                    _ => *self.rng.pick(&self.cast.vals),
                };
                let ins = self.chance(60);
                Plan::one(op, mk_whitelist(auth, id, p, ins), None)
            }
            Op::TopUp => {
                let (w, i) = self.escrow_target();
                let payer = if self.chance(50) { w } else { self.payer() };
                let l = self.sim.svm.lamports(&escrow_pda(&w, i));
                let amt = self.amount(&[0, 1, l, rent(0), 10_000]);
                Plan::one(op, mk_topup(payer, w, amt, i), None)
            }
            Op::CloseEscrow => {
                let (w, i) = self.escrow_target();
                Plan::one(op, mk_close_escrow(w, i), None)
            }
            Op::Donate => {
                let k = self.donation_target();
                let have = self.sim.svm.lamports(&k);
                let amt = self.donation_amount();
                let amt = if have == 0 { amt.max(rent(0)) } else { amt };
                Some(Plan {
                    op,
                    ixs: vec![si::transfer(&self.cast.outsider, &k, amt)],
                    target: 0,
                    mode: Mode::Honest,
                    acc: None,
                })
            }
            Op::Refund => {
                // keep the rich actors solvent
                for k in self.cast.signers() {
                    if self.cast.vals.contains(&k) {
                        continue;
                    }
                    let l = self.sim.svm.lamports(&k);
                    if l < 100_000_000_000 {
                        self.sim.svm.add_lamports(k, 400_000_000_000);
                    }
                }
                None
            }
            Op::Drain => {
                let mut v: Vec<Pubkey> = self.cast.wallets.iter().chain(&self.cast.auths).chain(&self.cast.vals).copied().collect();
                v.push(self.cast.admin);
                let k = *self.rng.pick(&v);
                if self.sim.svm.get(&k).owner == SYS && self.sim.svm.lamports(&k) > 0 {
                    let l = if self.chance(75) { 0 } else { rent(0) + self.rng.u64() % 3 };
                    self.sim.svm.put(k, l, SYS, vec![]);
                }
                None
            }
            Op::Slot => {
                let n = match self.rng.below(16) {
                    0 => 1u64 << self.rng.below(40),
                    1..=4 => 1,
                    5..=8 => self.rng.u64() % 1000,
                    _ => self.rng.u64() % 10,
                };
                self.sim.svm.slot = self.sim.svm.slot.saturating_add(n);
                None
            }
            Op::RotateAdmin => {
                let a = match self.rng.below(6) {
                    0 => None,
                    1 => Some(*self.rng.pick(&self.cast.wallets)),
                    _ => Some(self.cast.admin),
                };
                let s = self.sim.svm.slot;
                self.sim.svm.put(pdata_pda(&DLP), 1_000_000_000, LOADER, programdata(s, a));
                None
            }
            Op::RotateAuth => {
                let n = self.rng.below(self.cast.mocks.len());
                let a = match self.rng.below(5) {
                    0 => None,
                    1 => Some(self.cast.outsider),
                    2 => Some(self.cast.auths[(n + 1) % self.cast.auths.len()]),
                    _ => Some(self.cast.auths[n]),
                };
                let s = self.sim.svm.slot;
                let k = pdata_pda(&self.cast.mocks[n]);
                self.sim.svm.put(k, 1_000_000_000, LOADER, programdata(s, a));
                None
            }
        }
    }
    pub fn escrow_target(&mut self) -> (Pubkey, u8) {
        let e: Vec<(Pubkey, u8)> = self
            .cast
            .accs
            .iter()
            .filter_map(|a| match &a.kind {
                Kind::Escrow { wallet, idx } => Some((*wallet, *idx)),
                _ => None,
            })
            .collect();
        if self.chance(80) {
            *self.rng.pick(&e)
        } else {
            (*self.rng.pick(&self.cast.wallets), [0, 1, 255, 7][self.rng.below(4)])
        }
    }
    pub fn donation_amount(&mut self) -> u64 {
        match self.rng.below(10) {
            7 => self.rng.u64() >> (26 + self.rng.below(30)),
            8 => 10_000_000_000 + self.rng.u64() % 100_000_000_000,
            0 => rent(0),
            1 => rent(8),
            2 => rent(88),
            3 => rent(96),
            4 => rent(96) + 1,
            5 => 1,
            6 => self.rng.u64() % 5_000_000_000,
            _ => rent(self.rng.below(300)) + self.rng.below(3) as u64,
        }
    }
    pub fn donation_target(&mut self) -> Pubkey {
        let a = self.cast.accs[self.rng.below(self.cast.accs.len())].clone();
        match self.rng.below(12) {
            0 => record_pda(&a.key),
            1 => meta_pda(&a.key),
            2 => cstate_pda(&a.key),
            3 => crecord_pda(&a.key),
            4 => ubuf_pda(&a.key),
            5 => vvault_pda(self.rng.pick(&self.cast.vals)),
            6 => pvault_pda(),
            7 => config_pda(&a.owner()),
            8 => dbuf_pda(&a.key, &a.owner()),
            _ => a.key,
        }
    }
    /// every derived address an honest operation on this plan may create
    pub fn related_addresses(&self, p: &Plan) -> Vec<Pubkey> {
        let mut v: Vec<Pubkey> = p.ix().accounts.iter().map(|m| m.pubkey).collect();
        if let Some(a) = p.acc {
            v.extend([record_pda(&a), meta_pda(&a), cstate_pda(&a), crecord_pda(&a), ubuf_pda(&a)]);
        }
        v.push(pvault_pda());
        // an escrow's balance is what gets recorded, whoever put it there
        let esc = (p.op == Op::DelegateEscrow).then(|| p.ix().accounts.get(2).map(|m| m.pubkey)).flatten();
        v.retain(|k| Some(*k) != esc);
        v.sort();
        v.dedup();
        v.retain(|k| {
            let a = self.sim.svm.get(k);
            a.is_uninit() && !on_key(k) && Some(*k) != p.acc && !self.cast.can_sign(k) && *k != OTHER
        });
        v
    }
}
pub fn on_key(k: &Pubkey) -> bool {
    crate::spec::on_curve(k)
}
