//! C27: the crate's record types and argument types against an independent description of the layouts.
use crate::hooks;
use borsh::{BorshDeserialize, BorshSerialize};
use dlp::state::*;
use dlpmon_core::model::*;
use dlpmon_core::rng::Rng;
use dlpmon_core::sim::{dict, Sink};
use dlpmon_core::spec::Dev;
use dlpmon_core::t;
use solana_program::pubkey::Pubkey;
use std::alloc::{alloc_zeroed, dealloc, Layout};
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// 8-aligned copy, shifted by `off` bytes; the allocation ends with the last byte, so that a sanitized build
/// notices any access beyond it.
struct Al(*mut u8, usize, usize);
impl Al {
    fn layout(&self) -> Layout {
        Layout::from_size_align((self.1 + self.2).max(1), 8).unwrap()
    }
    fn new(d: &[u8], off: usize) -> Al {
        let mut a = Al(std::ptr::null_mut(), off, d.len());
        a.0 = unsafe { alloc_zeroed(a.layout()) };
        a.get_mut().copy_from_slice(d);
        a
    }
    fn get(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.0.add(self.1), self.2) }
    }
    fn get_mut(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.0.add(self.1), self.2) }
    }
}
impl Drop for Al {
    fn drop(&mut self) {
        unsafe { dealloc(self.0, self.layout()) }
    }
}
fn key(r: &mut Rng) -> Pubkey {
    match r.below(6) {
        0 => Pubkey::default(),
        1 => Pubkey::new_from_array([0xff; 32]),
        _ => Pubkey::new_from_array(r.arr32()),
    }
}
fn num(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => 0,
        1 => u64::MAX,
        _ => r.val(&[], dict()),
    }
}
fn seeds(r: &mut Rng) -> Vec<Vec<u8>> {
    let n = r.below(18);
    (0..n).map(|_| { let l = r.below(40); r.bytes(l) }).collect()
}
fn hex(d: &[u8]) -> String {
    d.iter().take(300).map(|b| format!("{b:02x}")).collect()
}

#[derive(Debug, PartialEq, Eq, Clone)]
enum Any {
    R(Rec),
    M(Meta),
    C(CRec),
    P(BTreeSet<Pubkey>),
}
impl Any {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Any::R(x) => x.bytes(),
            Any::M(x) => x.bytes(),
            Any::C(x) => x.bytes(),
            Any::P(x) => cfg_bytes(x),
        }
    }
}
fn r2(x: &Rec) -> DelegationRecord {
    DelegationRecord { authority: x.authority, owner: x.owner, delegation_slot: x.slot, lamports: x.lamports, commit_frequency_ms: x.freq }
}
fn r1(x: &DelegationRecord) -> Rec {
    Rec { authority: x.authority, owner: x.owner, slot: x.delegation_slot, lamports: x.lamports, freq: x.commit_frequency_ms }
}
fn c2(x: &CRec) -> CommitRecord {
    CommitRecord { identity: x.identity, account: x.account, slot: x.slot, lamports: x.lamports }
}
fn c1(x: &CommitRecord) -> CRec {
    CRec { identity: x.identity, account: x.account, slot: x.slot, lamports: x.lamports }
}
fn m2(x: &Meta) -> DelegationMetadata {
    DelegationMetadata { last_update_external_slot: x.last, is_undelegatable: x.undelegatable, seeds: x.seeds.clone(), rent_payer: x.rent_payer }
}
fn m1(x: &DelegationMetadata) -> Meta {
    Meta { last: x.last_update_external_slot, undelegatable: x.is_undelegatable, seeds: x.seeds.clone(), rent_payer: x.rent_payer }
}
/// encode with the crate
fn enc(a: &Any) -> Result<Vec<u8>, String> {
    let e = |x: solana_program::program_error::ProgramError| format!("{x:?}");
    Ok(match a {
        Any::R(x) => {
            let mut v = vec![0xa5; DelegationRecord::size_with_discriminator()];
            r2(x).to_bytes_with_discriminator(&mut v).map_err(e)?;
            v
        }
        Any::C(x) => {
            let mut v = vec![0xa5; CommitRecord::size_with_discriminator()];
            c2(x).to_bytes_with_discriminator(&mut v).map_err(e)?;
            v
        }
        Any::M(x) => {
            let mut v = vec![];
            m2(x).to_bytes_with_discriminator(&mut v).map_err(e)?;
            v
        }
        Any::P(x) => {
            let mut v = vec![];
            let c = ProgramConfig { approved_validators: x.clone() };
            c.to_bytes_with_discriminator(&mut v).map_err(e)?;
            if v.len() != c.size_with_discriminator() {
                return Err(format!("declared size {} but wrote {}", c.size_with_discriminator(), v.len()));
            }
            v
        }
    })
}
/// decode with the crate as every kind
fn dec(kind: usize, d: &[u8], off: usize) -> Option<Any> {
    let mut b = Al::new(d, off);
    match kind {
        0 => {
            let x = DelegationRecord::try_from_bytes_with_discriminator(b.get()).ok().map(r1);
            let y = DelegationRecord::try_from_bytes_with_discriminator_mut(b.get_mut()).ok().map(|m| r1(m));
            assert_eq!(x, y, "shared and mutable record readers disagree");
            x.map(Any::R)
        }
        1 => DelegationMetadata::try_from_bytes_with_discriminator(b.get()).ok().map(|m| Any::M(m1(&m))),
        2 => {
            let x = CommitRecord::try_from_bytes_with_discriminator(b.get()).ok().map(c1);
            let y = CommitRecord::try_from_bytes_with_discriminator_mut(b.get_mut()).ok().map(|m| c1(m));
            assert_eq!(x, y, "shared and mutable commit record readers disagree");
            x.map(Any::C)
        }
        _ => ProgramConfig::try_from_bytes_with_discriminator(b.get()).ok().map(|c| Any::P(c.approved_validators)),
    }
}
fn model(kind: usize, d: &[u8]) -> Option<Any> {
    match kind {
        0 => Rec::parse(d).map(Any::R),
        1 => Meta::parse(d).map(Any::M),
        2 => CRec::parse(d).map(Any::C),
        _ => cfg_parse(d).map(Any::P),
    }
}
const NAMES: [&str; 4] = ["DelegationRecord", "DelegationMetadata", "CommitRecord", "ProgramConfig"];

pub fn case(r: &mut Rng, sink: &mut Sink) {
    let kind = r.below(4);
    let v = match kind {
        0 => Any::R(Rec { authority: key(r), owner: key(r), slot: num(r), lamports: num(r), freq: num(r) }),
        1 => Any::M(Meta { last: num(r), undelegatable: r.pct(50), seeds: seeds(r), rent_payer: key(r) }),
        2 => Any::C(CRec { identity: key(r), account: key(r), slot: num(r), lamports: num(r) }),
        _ => {
            let n = r.below(14);
            Any::P((0..n).map(|_| key(r)).collect())
        }
    };
    let name = NAMES[kind];
    let dev = |what: String, d: &[u8], sink: &mut Sink| {
        let tr = format!("{v:?}\nbytes {}", hex(d));
        sink.dev(Dev { tags: t![27], what }, || tr)
    };
    let guard = |f: &dyn Fn() -> Option<Any>| catch_unwind(AssertUnwindSafe(f)).map_err(|_| ());
    // write
    let want = v.bytes();
    let got = catch_unwind(AssertUnwindSafe(|| enc(&v)));
    sink.eval(t![27], || format!("codec:write:{name}"));
    match got {
        Ok(Ok(b)) if b == want => {}
        Ok(Ok(b)) => return dev(format!("{name} is not stored in its documented layout"), &b, sink),
        Ok(Err(e)) => return dev(format!("{name} cannot be stored: {e}"), &want, sink),
        Err(_) => return dev(format!("storing {name} panics"), &want, sink),
    }
    // read back, as itself and as each other kind
    for k in 0..4 {
        let g = guard(&|| dec(k, &want, 0));
        sink.eval(t![27], || format!("codec:read:{name}-as-{}", NAMES[k]));
        match g {
            Err(()) => dev(format!("reading {name} as {} panics", NAMES[k]), &want, sink),
            Ok(x) if k == kind && x.as_ref() != Some(&v) => dev(format!("{name} does not round-trip: {x:?}"), &want, sink),
            Ok(Some(x)) if k != kind => dev(format!("{name} is accepted as {}: {x:?}", NAMES[k]), &want, sink),
            _ => {}
        }
    }
    // damaged bytes
    let mut d = want.clone();
    let how = match r.below(9) {
        0 => {
            let l = r.below(d.len());
            d.truncate(l);
            "truncated"
        }
        1 => {
            let n = 1 + r.below(40);
            let b = if r.pct(50) { vec![0; n] } else { r.bytes(n) };
            d.extend(b);
            "extended"
        }
        2 => {
            let i = r.below(8);
            d[i] ^= 1 << r.below(8);
            "tag-bit"
        }
        3 => {
            // another kind's tag, or an unused one
            d[0] = [100u8, 101, 102, 103, 0, 1, 99, 104, 255][r.below(9)];
            "tag-value"
        }
        4 => {
            let i = r.below(d.len());
            d[i] ^= 1 << r.below(8);
            "bit"
        }
        5 => {
            let n = r.below(130);
            d = r.bytes(n);
            "random"
        }
        6 => {
            let n = r.below(130);
            d = disc([100, 101, 102, 103][r.below(4)]).to_vec();
            d.extend(r.bytes(n));
            "random-tagged"
        }
        7 => {
            let n = r.below(d.len() + 20);
            d = vec![0; n];
            "zeroed"
        }
        _ => {
            // huge counts
            let o = [8usize, 17, 21, 12, 25][r.below(5)];
            if o + 4 <= d.len() {
                let x = [u32::MAX, 1 << 31, 1 << 24, 17, 1000][r.below(5)];
                d[o..o + 4].copy_from_slice(&x.to_le_bytes());
            }
            "count"
        }
    };
    for k in 0..4 {
        let g = guard(&|| dec(k, &d, 0));
        let w = model(k, &d);
        sink.eval(t![27], || format!("codec:{how}:{}:{}", NAMES[k], w.is_some()));
        match g {
            Err(()) => dev(format!("reading damaged bytes ({how}) as {} panics", NAMES[k]), &d, sink),
            // a list that is not strictly ascending may be read or refused
            Ok(Some(Any::P(_))) if w.is_none() && d.len() >= 12 && d[..8] == disc(103) && (d.len() - 12) % 32 == 0 && u32::from_le_bytes(d[8..12].try_into().unwrap()) as usize == (d.len() - 12) / 32 => {}
            Ok(x) if x != w => dev(format!("bytes ({how}) as {}: read {x:?}, layout says {w:?}", NAMES[k]), &d, sink),
            _ => {}
        }
        // not aligned: refused or read correctly, never a wild value
        let off = 1 + r.below(7);
        match guard(&|| dec(k, &d, off)) {
            Err(()) => dev(format!("reading unaligned {} panics", NAMES[k]), &d, sink),
            Ok(Some(x)) if w.is_some() && Some(&x) != w.as_ref() => dev(format!("unaligned {} misread {x:?}", NAMES[k]), &d, sink),
            _ => {}
        }
    }
    args(r, sink);
}

fn same<T: BorshSerialize + BorshDeserialize + std::fmt::Debug>(name: &str, x: &T, want: &[u8], r: &mut Rng, sink: &mut Sink) {
    sink.eval(t![27], || format!("codec:args:{name}"));
    let mut bad = None;
    match borsh::to_vec(x) {
        Ok(b) if b == want => {}
        Ok(b) => bad = Some(format!("serialized as {}", hex(&b))),
        Err(e) => bad = Some(format!("not serializable: {e}")),
    }
    match T::try_from_slice(want) {
        Ok(y) if format!("{y:?}") == format!("{x:?}") => {}
        Ok(y) => bad = Some(format!("read back as {y:?}")),
        Err(e) => bad = Some(format!("not readable: {e}")),
    }
    let cut = r.below(want.len());
    if T::try_from_slice(&want[..cut]).is_ok() {
        bad = Some(format!("truncation to {cut} bytes accepted"));
    }
    let mut long = want.to_vec();
    long.push(r.u64() as u8);
    if T::try_from_slice(&long).is_ok() {
        bad = Some("trailing byte accepted".into());
    }
    if let Some(b) = bad {
        let tr = format!("{x:?}\n{}", hex(want));
        sink.dev(Dev { tags: t![27], what: format!("{name}: {b}") }, || tr);
    }
}
fn args(r: &mut Rng, sink: &mut Sink) {
    let d = DArgs { freq: num(r) as u32, seeds: seeds(r), validator: if r.pct(50) { Some(key(r)) } else { None } };
    let c = CArgs { slot: num(r), lamports: num(r), allow: r.pct(50) };
    let n = r.below(60);
    let data = r.bytes(n);
    let idx = r.u64() as u8;
    let enc = |a: Args| {
        let mut v = vec![];
        a.encode(&mut v);
        v
    };
    match r.below(7) {
        0 => same("DelegateArgs", &hooks::dargs(&d), &enc(Args::Delegate(d)), r, sink),
        1 => same("CommitStateArgs", &hooks::cargs(&c, &data), &enc(Args::Commit(c, data)), r, sink),
        2 => same("CommitStateFromBufferArgs", &hooks::bargs(&c), &enc(Args::CommitBuffer(c)), r, sink),
        3 => {
            let a = if r.pct(30) { None } else { Some(num(r)) };
            same("ValidatorClaimFeesArgs", &dlp::args::ValidatorClaimFeesArgs { amount: a }, &enc(Args::Claim(a)), r, sink)
        }
        4 => {
            let b = r.pct(50);
            same("WhitelistValidatorForProgramArgs", &dlp::args::WhitelistValidatorForProgramArgs { insert: b }, &enc(Args::Whitelist(b)), r, sink)
        }
        5 => {
            let a = num(r);
            same("TopUpEphemeralBalanceArgs", &dlp::args::TopUpEphemeralBalanceArgs { amount: a, index: idx }, &enc(Args::TopUp(a, idx)), r, sink)
        }
        _ => same(
            "DelegateEphemeralBalanceArgs",
            &dlp::args::DelegateEphemeralBalanceArgs { delegate_args: hooks::dargs(&d), index: idx },
            &enc(Args::DelegateEscrow(d, idx)),
            r,
            sink,
        ),
    }
}
