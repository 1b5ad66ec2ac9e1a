//! Known dead ends of the lifecycle, demonstrated against the real program on every run.
use dlpmon_core::mock::Mode;
use dlpmon_core::model::*;
use dlpmon_core::rng::Rng;
use dlpmon_core::sim::*;
use dlpmon_core::svm::*;
use solana_program::system_instruction as si;

pub struct Known {
    pub id: &'static str,
    pub broken: bool,
    pub what: &'static str,
    pub trace: String,
}
/// Is the finding listed in the committed file?
pub fn listed(prop: &str, id: &str) -> bool {
    let s = std::fs::read_to_string("/verif/known_findings.txt").unwrap_or_default();
    s.lines().any(|l| l.starts_with(&format!("known: property={prop} id={id} ")))
}
struct T {
    w: World,
    v: solana_program::pubkey::Pubkey,
    log: String,
}
impl T {
    fn go(&mut self, name: &str, ixs: Vec<solana_program::instruction::Instruction>, sink: &mut Sink) -> bool {
        let tx = Tx { payer: self.w.cast.fee, ixs };
        let r = self.w.sim.run(&tx, Mode::Honest, sink);
        self.log.push_str(&format!("{name}: {} {}\n{}", r.ok, r.err, show_tx(&tx)));
        r.ok
    }
}
fn world(pools: &Pools, seed: u64, sink: &mut Sink) -> T {
    let w = World::new(pools, Rng::new(seed, 4242), sink);
    let v = w.cast.vals[0];
    let mut t = T { w, v, log: String::new() };
    let adm = t.w.cast.admin;
    t.go("init-protocol", vec![mk_init_protocol(adm)], sink);
    t.go("register", vec![mk_init_validator(adm, adm, v)], sink);
    t.w.sim.svm.add_lamports(v, 1_000_000_000_000);
    t
}
/// Can the session of `k` still be brought to an end by its honest parties?
fn finish(t: &mut T, k: solana_program::pubkey::Pubkey, owner: solana_program::pubkey::Pubkey, sink: &mut Sink) -> bool {
    let v = t.v;
    let Some(m) = t.w.sim.meta(&k) else { return true };
    if !m.undelegatable {
        let c = CArgs { slot: m.last + 1, lamports: rent(0), allow: true };
        if !t.go("commit", vec![mk_commit(v, k, owner, c, vec![])], sink) {
            return false;
        }
        if !t.go("finalize", vec![mk_finalize(v, k)], sink) {
            return false;
        }
    }
    let rp = m.rent_payer;
    t.go("undelegate", vec![mk_undelegate(v, k, owner, rp)], sink)
}
pub fn run(pools: &Pools, seed: u64, sink: &mut Sink) -> Vec<Known> {
    let mut out = vec![];
    // the deviations of these deliberately odd runs are judged here, not by the general monitors
    let mut quiet = Sink { mask: sink.mask & 0, ..Default::default() };
    let s = &mut quiet;
    {
        let mut t = world(pools, seed, s);
        let (w, v) = (t.w.cast.wallets[0], t.v);
        let k = escrow_pda(&w, 9);
        let d = DArgs::default();
        let mut ok = t.go("top-up", vec![mk_topup(w, w, 5_000_000, 9)], s);
        ok &= t.go("delegate-escrow", vec![mk_delegate_escrow(w, w, 9, d)], s);
        let c = CArgs { slot: 1, lamports: 0, allow: true };
        let committed = t.go("commit-zero", vec![mk_commit(v, k, SYS, c, vec![])], s);
        let broken = ok && committed && {
            if !t.go("finalize", vec![mk_finalize(v, k)], s) {
                true
            } else {
                let mut u = T { w: World { sim: t.w.sim.clone(), rng: t.w.rng.clone(), cast: t.w.cast.clone() }, v, log: t.log.clone() };
                let a = finish(&mut t, k, SYS, s);
                // even refunding the account does not help
                let out = u.w.cast.outsider;
                u.go("refund", vec![si::transfer(&out, &k, 10_000_000)], s);
                let b = finish(&mut u, k, SYS, s);
                !a || !b
            }
        };
        out.push(Known {
            id: "zero-balance-finalize",
            broken,
            what: "finalizing a commit of 0 lamports removes the account and leaves its session records behind for ever",
            trace: t.log,
        });
    }
    {
        let mut t = world(pools, seed, s);
        let w = t.w.cast.wallets[0];
        let k = escrow_pda(&w, 10);
        let accepted = t.go("delegate-escrow", vec![mk_delegate_escrow(w, w, 10, DArgs::default())], s);
        let broken = accepted && !finish(&mut t, k, SYS, s);
        out.push(Known {
            id: "zero-balance-escrow-delegate",
            broken,
            what: "delegating an escrow that holds nothing creates a session that can never be committed to or ended",
            trace: t.log,
        });
    }
    {
        let mut t = world(pools, seed, s);
        let (w, k) = (t.w.cast.wallets[0], pools.curve.iter().copied().find(|k| t.w.sim.svm.lamports(k) == 0).unwrap());
        let accepted = t.go("delegate", vec![si::assign(&k, &DLP), mk_delegate(w, k, SYS, DArgs::default())], s);
        let broken = accepted && !finish(&mut t, k, SYS, s);
        out.push(Known {
            id: "zero-balance-on-curve",
            broken,
            what: "delegating a wallet address that holds nothing creates a session that can never be committed to or ended",
            trace: t.log,
        });
    }
    out
}
