//! Small fixture for the demonstrations: solana-program-test, with accounts written by hand.
#![allow(dead_code)]
pub use dlp::args::*;
pub use dlp::instruction_builder as ib;
pub use dlp::pda;
pub use solana_program::instruction::{AccountMeta, Instruction};
pub use solana_program::pubkey::Pubkey;
pub use solana_program::system_instruction as si;
pub use solana_program::system_program;
pub use solana_program_test::{processor, ProgramTest, ProgramTestContext};
pub use solana_sdk::account::{Account, AccountSharedData};
pub use solana_sdk::signature::{Keypair, Signer};
pub use solana_sdk::transaction::Transaction;
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use std::sync::atomic::AtomicU32;

pub const OWNER: Pubkey = Pubkey::new_from_array([77; 32]);
/// What the owner program does when handed an account back: 0 = as it should.
pub static HOSTILE: AtomicU32 = AtomicU32::new(0);
/// How many seeds the owner program was asked with.
pub static SEEDS_SEEN: AtomicU32 = AtomicU32::new(0);
pub fn rent(n: usize) -> u64 {
    (n as u64 + 128) * 6960
}
/// Owner program: re-creates the account handed back and copies the buffer into it.
fn owner_program(id: &Pubkey, a: &[AccountInfo], data: &[u8]) -> ProgramResult {
    use solana_program::program::invoke_signed;
    if data[..8] == [9; 8] {
        // passes the rest of the data on to the delegation program, signing as the derived account
        let (seeds, data): (Vec<Vec<u8>>, Vec<u8>) = borsh::from_slice(&data[8..]).unwrap();
        let s: Vec<&[u8]> = seeds.iter().map(|x| x.as_slice()).collect();
        let k = Pubkey::create_program_address(&s, id).unwrap();
        let accounts = a[..a.len() - 1].iter().map(|x| AccountMeta { pubkey: *x.key, is_signer: x.is_signer || *x.key == k, is_writable: x.is_writable }).collect();
        return invoke_signed(&Instruction { program_id: dlp::ID, accounts, data }, a, &[&s]);
    }
    let seeds: Vec<Vec<u8>> = borsh::from_slice(&data[8..]).unwrap();
    SEEDS_SEEN.store(seeds.len() as u32, std::sync::atomic::Ordering::SeqCst);
    let s: Vec<&[u8]> = seeds.iter().map(|x| x.as_slice()).collect();
    let (k, bump) = Pubkey::find_program_address(&s, id);
    if k != *a[0].key || !a[1].is_signer || a[1].owner != &dlp::ID {
        return Err(solana_program::program_error::ProgramError::InvalidArgument);
    }
    let b = [bump];
    let mut full = s.clone();
    full.push(&b);
    let n = a[1].data_len();
    invoke_signed(&si::create_account(a[2].key, a[0].key, rent(n), n as u64, id), &[a[2].clone(), a[0].clone(), a[3].clone()], &[&full])?;
    a[0].try_borrow_mut_data()?.copy_from_slice(&a[1].try_borrow_data()?);
    crate::hostile(a, HOSTILE.load(std::sync::atomic::Ordering::SeqCst))
}
pub struct T {
    pub ctx: ProgramTestContext,
    pub admin: Keypair,
    pub v: Keypair,
    pub v2: Keypair,
    pub user: Keypair,
    n: u64,
}
pub fn programdata(authority: Option<Pubkey>) -> Vec<u8> {
    let mut d = vec![3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    match authority {
        Some(k) => {
            d.push(1);
            d.extend(k.to_bytes())
        }
        None => d.extend([0; 33]),
    }
    d
}
pub fn programdata_of(p: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(&[p.as_ref()], &solana_program::bpf_loader_upgradeable::ID).0
}
impl T {
    pub async fn start() -> T {
        let mut p = ProgramTest::default();
        p.prefer_bpf(false);
        p.add_program("dlp", dlp::ID, processor!(dlp::process_instruction));
        p.add_program("owner", OWNER, processor!(owner_program));
        let ctx = p.start_with_context().await;
        let mut t = T { ctx, admin: Keypair::new(), v: Keypair::new(), v2: Keypair::new(), user: Keypair::new(), n: 0 };
        for k in [t.admin.pubkey(), t.v.pubkey(), t.v2.pubkey(), t.user.pubkey()] {
            t.put(k, 100_000_000_000, system_program::ID, vec![]);
        }
        let adm = t.admin.pubkey();
        t.put(programdata_of(&dlp::ID), 1_000_000_000, solana_program::bpf_loader_upgradeable::ID, programdata(Some(adm)));
        for v in [t.v.pubkey(), t.v2.pubkey()] {
            t.put(pda::validator_fees_vault_pda_from_validator(&v), rent(8), dlp::ID, vec![0; 8]);
        }
        t.put(pda::fees_vault_pda(), rent(8), dlp::ID, vec![0; 8]);
        t
    }
    pub fn put(&mut self, k: Pubkey, lamports: u64, owner: Pubkey, data: Vec<u8>) {
        let a = Account { lamports, data, owner, executable: false, rent_epoch: u64::MAX };
        self.ctx.set_account(&k, &AccountSharedData::from(a));
    }
    pub async fn acc(&mut self, k: &Pubkey) -> Account {
        self.ctx.banks_client.get_account(*k).await.unwrap().unwrap_or_default()
    }
    pub async fn bal(&mut self, k: &Pubkey) -> u64 {
        self.acc(k).await.lamports
    }
    /// The transaction is paid for by a party of its own.
    pub async fn send(&mut self, mut ixs: Vec<Instruction>, signers: &[&Keypair]) -> Result<(), String> {
        self.n += 1;
        ixs.push(si::transfer(&self.ctx.payer.pubkey(), &self.ctx.payer.pubkey(), self.n));
        let h = self.ctx.banks_client.get_latest_blockhash().await.unwrap();
        let mut s = vec![&self.ctx.payer];
        for k in signers {
            if s.iter().all(|x| x.pubkey() != k.pubkey()) {
                s.push(k);
            }
        }
        let tx = Transaction::new_signed_with_payer(&ixs, Some(&self.ctx.payer.pubkey()), &s, h);
        self.ctx.banks_client.process_transaction(tx).await.map_err(|e| format!("{e:?}"))
    }
    /// A delegation session, written by hand.
    pub fn session(&mut self, k: Pubkey, s: Session) {
        let mut r = 100u64.to_le_bytes().to_vec();
        r.extend(s.validator.to_bytes());
        r.extend(s.owner.to_bytes());
        r.extend(s.slot.to_le_bytes());
        r.extend(s.recorded.unwrap_or(s.lamports).to_le_bytes());
        r.extend(s.freq.to_le_bytes());
        let mut m = 102u64.to_le_bytes().to_vec();
        m.extend(s.last.to_le_bytes());
        m.push(s.undelegatable as u8);
        m.extend((s.seeds.len() as u32).to_le_bytes());
        for x in &s.seeds {
            m.extend((x.len() as u32).to_le_bytes());
            m.extend(x);
        }
        m.extend(s.payer.to_bytes());
        self.put(k, s.lamports, dlp::ID, s.data);
        self.put(pda::delegation_record_pda_from_delegated_account(&k), rent(r.len()), dlp::ID, r);
        self.put(pda::delegation_metadata_pda_from_delegated_account(&k), rent(m.len()) + s.extra, dlp::ID, m);
    }
    /// A pending commit, written by hand.
    pub fn pending(&mut self, k: Pubkey, by: Pubkey, slot: u64, lamports: u64, deposit: u64, data: Vec<u8>) {
        let mut r = 101u64.to_le_bytes().to_vec();
        r.extend(by.to_bytes());
        r.extend(k.to_bytes());
        r.extend(slot.to_le_bytes());
        r.extend(lamports.to_le_bytes());
        self.put(pda::commit_record_pda_from_delegated_account(&k), rent(r.len()), dlp::ID, r);
        self.put(pda::commit_state_pda_from_delegated_account(&k), rent(data.len()) + deposit, dlp::ID, data);
    }
    pub async fn record(&mut self, k: &Pubkey) -> Vec<u8> {
        self.acc(&pda::delegation_record_pda_from_delegated_account(k)).await.data
    }
    pub async fn metadata(&mut self, k: &Pubkey) -> Vec<u8> {
        self.acc(&pda::delegation_metadata_pda_from_delegated_account(k)).await.data
    }
    pub async fn last_slot(&mut self, k: &Pubkey) -> u64 {
        u64::from_le_bytes(self.metadata(k).await[8..16].try_into().unwrap())
    }
    pub async fn undelegatable(&mut self, k: &Pubkey) -> bool {
        self.metadata(k).await[16] != 0
    }
    pub async fn recorded(&mut self, k: &Pubkey) -> u64 {
        u64::from_le_bytes(self.record(k).await[80..88].try_into().unwrap())
    }
}
#[derive(Clone)]
pub struct Session {
    pub validator: Pubkey,
    pub owner: Pubkey,
    pub slot: u64,
    pub lamports: u64,
    pub recorded: Option<u64>,
    pub freq: u64,
    pub last: u64,
    pub undelegatable: bool,
    pub seeds: Vec<Vec<u8>>,
    pub payer: Pubkey,
    pub extra: u64,
    pub data: Vec<u8>,
}
impl Session {
    pub fn new(payer: Pubkey, seeds: Vec<Vec<u8>>, data: Vec<u8>) -> Session {
        Session {
            validator: Pubkey::default(),
            owner: OWNER,
            slot: 0,
            lamports: 2_000_000_000,
            recorded: None,
            freq: 0,
            last: 0,
            undelegatable: false,
            seeds,
            payer,
            extra: 0,
            data,
        }
    }
}
pub fn owned_pda(seed: &[u8]) -> (Pubkey, Vec<Vec<u8>>) {
    (Pubkey::find_program_address(&[seed], &OWNER).0, vec![seed.to_vec()])
}
pub fn commit_args(slot: u64, lamports: u64, allow: bool, data: Vec<u8>) -> CommitStateArgs {
    CommitStateArgs { slot, lamports, allow_undelegation: allow, data }
}
/// the payer and signers stand-ins of a CPI caller are not needed: on-curve accounts sign themselves
pub fn sign(mut ix: Instruction, k: Pubkey) -> Instruction {
    for m in ix.accounts.iter_mut() {
        if m.pubkey == k {
            m.is_signer = true;
        }
    }
    ix
}
/// A delegation request that the owner program makes for its own derived account.
pub fn through_owner(mut ix: Instruction, k: Pubkey, mut seeds: Vec<Vec<u8>>) -> Instruction {
    let s: Vec<&[u8]> = seeds.iter().map(|x| x.as_slice()).collect();
    let (found, bump) = Pubkey::find_program_address(&s, &OWNER);
    assert_eq!(found, k);
    seeds.push(vec![bump]);
    for m in ix.accounts.iter_mut() {
        if m.pubkey == k {
            m.is_signer = false;
        }
    }
    let mut d = vec![9; 8];
    d.extend(borsh::to_vec(&(seeds, ix.data)).unwrap());
    ix.accounts.push(AccountMeta::new_readonly(dlp::ID, false));
    Instruction { program_id: OWNER, accounts: ix.accounts, data: d }
}
