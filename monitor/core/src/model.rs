//! Independent model of addresses, account layouts and instruction encodings.
//! Nothing here uses code of the program under test.
use crate::svm::{Acc, DLP, LOADER};
use solana_program::pubkey::Pubkey;
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};

pub fn rent(n: usize) -> u64 {
    (n as u64 + 128) * 3480 * 2
}

thread_local! { static CACHE: RefCell<HashMap<(Vec<u8>, Pubkey), Option<(Pubkey,u8)>>> = RefCell::new(HashMap::new()); }

/// Canonical derived address, None when the seeds are not admissible.
pub fn derive(seeds: &[&[u8]], program: &Pubkey) -> Option<(Pubkey, u8)> {
    if seeds.len() > 15 || seeds.iter().any(|s| s.len() > 32) {
        return None;
    }
    let key: Vec<u8> = seeds.concat();
    CACHE.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 200_000 {
            c.clear();
        }
        *c.entry((key, *program)).or_insert_with(|| Pubkey::try_find_program_address(seeds, program))
    })
}
fn d1(prefix: &[u8], k: &Pubkey) -> Pubkey {
    derive(&[prefix, k.as_ref()], &DLP).unwrap().0
}
pub fn record_pda(a: &Pubkey) -> Pubkey {
    d1(b"delegation", a)
}
pub fn meta_pda(a: &Pubkey) -> Pubkey {
    d1(b"delegation-metadata", a)
}
pub fn cstate_pda(a: &Pubkey) -> Pubkey {
    d1(b"state-diff", a)
}
pub fn crecord_pda(a: &Pubkey) -> Pubkey {
    d1(b"commit-state-record", a)
}
pub fn ubuf_pda(a: &Pubkey) -> Pubkey {
    d1(b"undelegate-buffer", a)
}
pub fn vvault_pda(v: &Pubkey) -> Pubkey {
    d1(b"v-fees-vault", v)
}
pub fn config_pda(p: &Pubkey) -> Pubkey {
    d1(b"p-conf", p)
}
pub fn pvault_pda() -> Pubkey {
    derive(&[b"fees-vault"], &DLP).unwrap().0
}
pub fn escrow_pda(w: &Pubkey, i: u8) -> Pubkey {
    derive(&[b"balance", w.as_ref(), &[i]], &DLP).unwrap().0
}
pub fn dbuf_pda(a: &Pubkey, program: &Pubkey) -> Pubkey {
    derive(&[b"buffer", a.as_ref()], program).unwrap().0
}
pub fn pdata_pda(p: &Pubkey) -> Pubkey {
    derive(&[p.as_ref()], &LOADER).unwrap().0
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Rec {
    pub authority: Pubkey,
    pub owner: Pubkey,
    pub slot: u64,
    pub lamports: u64,
    pub freq: u64,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Meta {
    pub last: u64,
    pub undelegatable: bool,
    pub seeds: Vec<Vec<u8>>,
    pub rent_payer: Pubkey,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct CRec {
    pub identity: Pubkey,
    pub account: Pubkey,
    pub slot: u64,
    pub lamports: u64,
}

pub struct Rd<'a>(pub &'a [u8]);
impl<'a> Rd<'a> {
    pub fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    pub fn u8(&mut self) -> Option<u8> {
        self.take(1).map(|x| x[0])
    }
    pub fn u32(&mut self) -> Option<u32> {
        self.take(4).map(|x| u32::from_le_bytes(x.try_into().unwrap()))
    }
    pub fn u64(&mut self) -> Option<u64> {
        self.take(8).map(|x| u64::from_le_bytes(x.try_into().unwrap()))
    }
    pub fn bool(&mut self) -> Option<bool> {
        match self.u8()? {
            0 => Some(false),
            1 => Some(true),
            _ => None,
        }
    }
    pub fn key(&mut self) -> Option<Pubkey> {
        self.take(32).map(|x| Pubkey::new_from_array(x.try_into().unwrap()))
    }
    pub fn bytes(&mut self) -> Option<Vec<u8>> {
        let n = self.u32()? as usize;
        self.take(n).map(|x| x.to_vec())
    }
    pub fn seeds(&mut self) -> Option<Vec<Vec<u8>>> {
        let n = self.u32()? as usize;
        if n > self.0.len() {
            return None;
        }
        let mut v = vec![];
        for _ in 0..n {
            v.push(self.bytes()?);
        }
        Some(v)
    }
    pub fn opt<T>(&mut self, f: impl FnOnce(&mut Self) -> Option<T>) -> Option<Option<T>> {
        match self.u8()? {
            0 => Some(None),
            1 => f(self).map(Some),
            _ => None,
        }
    }
    pub fn end(&self) -> Option<()> {
        if self.0.is_empty() {
            Some(())
        } else {
            None
        }
    }
}
pub fn disc(d: u64) -> [u8; 8] {
    d.to_le_bytes()
}
impl Rec {
    pub fn parse(d: &[u8]) -> Option<Rec> {
        let mut r = Rd(d);
        if r.take(8)? != disc(100) {
            return None;
        }
        let x = Rec { authority: r.key()?, owner: r.key()?, slot: r.u64()?, lamports: r.u64()?, freq: r.u64()? };
        r.end()?;
        Some(x)
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = disc(100).to_vec();
        v.extend(self.authority.as_ref());
        v.extend(self.owner.as_ref());
        v.extend(self.slot.to_le_bytes());
        v.extend(self.lamports.to_le_bytes());
        v.extend(self.freq.to_le_bytes());
        v
    }
}
impl Meta {
    pub fn parse(d: &[u8]) -> Option<Meta> {
        let mut r = Rd(d);
        if r.take(8)? != disc(102) {
            return None;
        }
        let x = Meta { last: r.u64()?, undelegatable: r.bool()?, seeds: r.seeds()?, rent_payer: r.key()? };
        r.end()?;
        Some(x)
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = disc(102).to_vec();
        v.extend(self.last.to_le_bytes());
        v.push(self.undelegatable as u8);
        put_seeds(&mut v, &self.seeds);
        v.extend(self.rent_payer.as_ref());
        v
    }
}
impl CRec {
    pub fn parse(d: &[u8]) -> Option<CRec> {
        let mut r = Rd(d);
        if r.take(8)? != disc(101) {
            return None;
        }
        let x = CRec { identity: r.key()?, account: r.key()?, slot: r.u64()?, lamports: r.u64()? };
        r.end()?;
        Some(x)
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = disc(101).to_vec();
        v.extend(self.identity.as_ref());
        v.extend(self.account.as_ref());
        v.extend(self.slot.to_le_bytes());
        v.extend(self.lamports.to_le_bytes());
        v
    }
}
pub fn cfg_parse(d: &[u8]) -> Option<BTreeSet<Pubkey>> {
    let mut r = Rd(d);
    if r.take(8)? != disc(103) {
        return None;
    }
    let n = r.u32()? as usize;
    let mut s = BTreeSet::new();
    let mut prev: Option<Pubkey> = None;
    for _ in 0..n {
        let k = r.key()?;
        if let Some(p) = prev {
            if p >= k {
                return None;
            }
        }
        prev = Some(k);
        s.insert(k);
    }
    r.end()?;
    Some(s)
}
pub fn cfg_bytes(s: &BTreeSet<Pubkey>) -> Vec<u8> {
    let mut v = disc(103).to_vec();
    v.extend((s.len() as u32).to_le_bytes());
    for k in s {
        v.extend(k.as_ref());
    }
    v
}
pub fn put_seeds(v: &mut Vec<u8>, s: &[Vec<u8>]) {
    v.extend((s.len() as u32).to_le_bytes());
    for x in s {
        v.extend((x.len() as u32).to_le_bytes());
        v.extend(x);
    }
}
/// Upgrade authority stored in a loader program-data account: Err when it is not one.
pub fn upgrade_authority(a: &Acc) -> Result<Option<Pubkey>, ()> {
    let mut r = Rd(&a.data);
    (|| {
        if r.u32()? != 3 {
            return None;
        }
        r.u64()?;
        r.opt(|r| r.key())
    })()
    .ok_or(())
}
pub fn programdata(slot: u64, auth: Option<Pubkey>) -> Vec<u8> {
    let mut v = 3u32.to_le_bytes().to_vec();
    v.extend(slot.to_le_bytes());
    match auth {
        None => v.extend([0u8; 33]),
        Some(k) => {
            v.push(1);
            v.extend(k.as_ref())
        }
    }
    v.extend([7u8; 40]); // program bytes follow
    v
}

// ------------------------------------------------------------------ instructions
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum I {
    Delegate,
    Commit,
    Finalize,
    Undelegate,
    InitProtocol,
    InitValidator,
    ValidatorClaim,
    Whitelist,
    TopUp,
    DelegateEscrow,
    CloseEscrow,
    ProtocolClaim,
    CommitBuffer,
    CloseValidator,
}
pub const ALL_I: [I; 14] = [
    I::Delegate,
    I::Commit,
    I::Finalize,
    I::Undelegate,
    I::InitProtocol,
    I::InitValidator,
    I::ValidatorClaim,
    I::Whitelist,
    I::TopUp,
    I::DelegateEscrow,
    I::CloseEscrow,
    I::ProtocolClaim,
    I::CommitBuffer,
    I::CloseValidator,
];
impl I {
    pub fn tag(self) -> u8 {
        match self {
            I::Delegate => 0,
            I::Commit => 1,
            I::Finalize => 2,
            I::Undelegate => 3,
            I::InitProtocol => 5,
            I::InitValidator => 6,
            I::ValidatorClaim => 7,
            I::Whitelist => 8,
            I::TopUp => 9,
            I::DelegateEscrow => 10,
            I::CloseEscrow => 11,
            I::ProtocolClaim => 12,
            I::CommitBuffer => 13,
            I::CloseValidator => 14,
        }
    }
    pub fn from_tag(t: u8) -> Option<I> {
        ALL_I.iter().copied().find(|i| i.tag() == t)
    }
    pub fn naccounts(self) -> usize {
        match self {
            I::Delegate => 7,
            I::Commit => 9,
            I::Finalize => 8,
            I::Undelegate => 12,
            I::InitProtocol => 3,
            I::InitValidator => 6,
            I::ValidatorClaim => 3,
            I::Whitelist => 7,
            I::TopUp => 4,
            I::DelegateEscrow => 8,
            I::CloseEscrow => 3,
            I::ProtocolClaim => 3,
            I::CommitBuffer => 10,
            I::CloseValidator => 5,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct DArgs {
    pub freq: u32,
    pub seeds: Vec<Vec<u8>>,
    pub validator: Option<Pubkey>,
}
impl DArgs {
    pub fn read(r: &mut Rd) -> Option<DArgs> {
        Some(DArgs { freq: r.u32()?, seeds: r.seeds()?, validator: r.opt(|r| r.key())? })
    }
    pub fn write(&self, v: &mut Vec<u8>) {
        v.extend(self.freq.to_le_bytes());
        put_seeds(v, &self.seeds);
        match self.validator {
            None => v.push(0),
            Some(k) => {
                v.push(1);
                v.extend(k.as_ref())
            }
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct CArgs {
    pub slot: u64,
    pub lamports: u64,
    pub allow: bool,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Args {
    Delegate(DArgs),
    Commit(CArgs, Vec<u8>),
    CommitBuffer(CArgs),
    Claim(Option<u64>),
    Whitelist(bool),
    TopUp(u64, u8),
    DelegateEscrow(DArgs, u8),
    CloseEscrow(u8),
    None,
}
impl Args {
    pub fn decode(i: I, d: &[u8]) -> Option<Args> {
        let mut r = Rd(d);
        let a = match i {
            I::Delegate => Args::Delegate(DArgs::read(&mut r)?),
            I::Commit => {
                Args::Commit(CArgs { slot: r.u64()?, lamports: r.u64()?, allow: r.bool()? }, r.bytes()?)
            }
            I::CommitBuffer => Args::CommitBuffer(CArgs { slot: r.u64()?, lamports: r.u64()?, allow: r.bool()? }),
            I::ValidatorClaim => Args::Claim(r.opt(|r| r.u64())?),
            I::Whitelist => Args::Whitelist(r.bool()?),
            I::TopUp => Args::TopUp(r.u64()?, r.u8()?),
            I::DelegateEscrow => Args::DelegateEscrow(DArgs::read(&mut r)?, r.u8()?),
            I::CloseEscrow => {
                let x = r.u8()?;
                return Some(Args::CloseEscrow(x));
            }
            _ => return Some(Args::None),
        };
        r.end()?;
        Some(a)
    }
    pub fn encode(&self, v: &mut Vec<u8>) {
        match self {
            Args::Delegate(a) => a.write(v),
            Args::Commit(c, d) => {
                v.extend(c.slot.to_le_bytes());
                v.extend(c.lamports.to_le_bytes());
                v.push(c.allow as u8);
                v.extend((d.len() as u32).to_le_bytes());
                v.extend(d);
            }
            Args::CommitBuffer(c) => {
                v.extend(c.slot.to_le_bytes());
                v.extend(c.lamports.to_le_bytes());
                v.push(c.allow as u8);
            }
            Args::Claim(None) => v.push(0),
            Args::Claim(Some(x)) => {
                v.push(1);
                v.extend(x.to_le_bytes())
            }
            Args::Whitelist(b) => v.push(*b as u8),
            Args::TopUp(a, i) => {
                v.extend(a.to_le_bytes());
                v.push(*i)
            }
            Args::DelegateEscrow(a, i) => {
                a.write(v);
                v.push(*i)
            }
            Args::CloseEscrow(i) => v.push(*i),
            Args::None => {}
        }
    }
}
pub fn ixdata(i: I, a: &Args) -> Vec<u8> {
    let mut v = (i.tag() as u64).to_le_bytes().to_vec();
    a.encode(&mut v);
    v
}

/// Account roles by position (independent of the crate's builders).
pub fn roles(i: I) -> &'static [&'static str] {
    match i {
        I::Delegate => &["payer", "account", "owner-program", "buffer", "record", "metadata", "system"],
        I::Commit => &[
            "validator", "account", "commit-state", "commit-record", "record", "metadata", "validator-vault",
            "config", "system",
        ],
        I::CommitBuffer => &[
            "validator", "account", "commit-state", "commit-record", "record", "metadata", "data-buffer",
            "validator-vault", "config", "system",
        ],
        I::Finalize => &[
            "validator", "account", "commit-state", "commit-record", "record", "metadata", "validator-vault",
            "system",
        ],
        I::Undelegate => &[
            "validator", "account", "owner-program", "undelegate-buffer", "commit-state", "commit-record", "record",
            "metadata", "rent-payer", "protocol-vault", "validator-vault", "system",
        ],
        I::InitProtocol => &["payer", "protocol-vault", "system"],
        I::InitValidator => &["payer", "admin", "dlp-programdata", "identity", "validator-vault", "system"],
        I::ValidatorClaim => &["validator", "protocol-vault", "validator-vault"],
        I::Whitelist => {
            &["authority", "identity", "program", "programdata", "dlp-programdata", "config", "system"]
        }
        I::TopUp => &["payer", "wallet", "escrow", "system"],
        I::DelegateEscrow => {
            &["payer", "wallet", "escrow", "buffer", "record", "metadata", "system", "dlp"]
        }
        I::CloseEscrow => &["wallet", "escrow", "system"],
        I::ProtocolClaim => &["admin", "protocol-vault", "dlp-programdata"],
        I::CloseValidator => &["payer", "admin", "dlp-programdata", "identity", "validator-vault"],
    }
}
/// (signer, writable) each position needs for the operation to be possible when the position's role
/// pays or changes.
pub fn flags(i: I) -> &'static [(bool, bool)] {
    const R: (bool, bool) = (false, false);
    const W: (bool, bool) = (false, true);
    const S: (bool, bool) = (true, false);
    const SW: (bool, bool) = (true, true);
    match i {
        I::Delegate => &[SW, SW, R, W, W, W, R],
        I::Commit => &[SW, R, W, W, R, W, R, R, R],
        I::CommitBuffer => &[SW, R, W, W, R, W, R, R, R, R],
        I::Finalize => &[SW, W, W, W, W, W, W, R],
        I::Undelegate => &[SW, W, R, W, R, R, W, W, W, W, W, R],
        I::InitProtocol => &[SW, W, R],
        I::InitValidator => &[SW, S, R, R, W, R],
        I::ValidatorClaim => &[SW, W, W],
        I::Whitelist => &[SW, R, R, R, R, W, R],
        I::TopUp => &[SW, R, W, R],
        I::DelegateEscrow => &[SW, S, W, W, W, W, R, R],
        I::CloseEscrow => &[SW, W, R],
        I::ProtocolClaim => &[SW, W, R],
        I::CloseValidator => &[S, S, R, W, W],
    }
}
