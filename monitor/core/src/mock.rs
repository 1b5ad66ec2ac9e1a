//! Owner programs (native), with honest and hostile behaviours.
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::program::{invoke, invoke_signed};
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;
use solana_program::rent::Rent;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::system_instruction as si;
use std::cell::Cell;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Honest,
    /// transfer + allocate + assign instead of create_account
    HonestManual,
    Noop,
    Fail,
    FlipByte(u32),
    DropTail(u32),
    ExtraTail(u32),
    /// recreate honestly, then move lamports from the validator into the account
    OverpayFromValidator(u64),
    /// pay less than the rent from the validator (account ends below rent exemption)
    Underpay(u64),
    /// pay less than rent from validator, and leave a different length to balance
    ShortConsistent(u32),
    AssignValidator,
    AllocateValidator(u32),
    AllocateAssignValidator(u32),
    /// keep lamports in the buffer / account: create, then own another program
    GiveAway,
    /// never recreate, only fund the account with the rent
    FundOnly,
    /// try to write into the undelegate buffer
    WriteBuffer,
    /// create the account system-owned with space (data zero)
    SystemOwned,
    /// pay the rent but put wrong-length data such that data differs only in length
    DrainBack(u64),
    /// a random short sequence of everything a callee can do with what it was given
    Script(u64),
}
thread_local! { static MODE: Cell<Mode> = const { Cell::new(Mode::Honest) }; }
pub fn set_mode(m: Mode) {
    MODE.with(|c| c.set(m))
}
pub fn mode() -> Mode {
    MODE.with(|c| c.get())
}

pub const UNDELEGATE: [u8; 8] = [196, 28, 41, 206, 48, 37, 51, 167];
pub const DELEGATE: [u8; 8] = [1, 1, 1, 1, 1, 1, 1, 1];

fn parse_seeds(mut d: &[u8]) -> Option<Vec<Vec<u8>>> {
    fn u32_(d: &mut &[u8]) -> Option<u32> {
        let (a, b) = (d.get(..4)?, d.get(4..)?);
        *d = b;
        Some(u32::from_le_bytes(a.try_into().ok()?))
    }
    let n = u32_(&mut d)?;
    let mut v = vec![];
    for _ in 0..n {
        let l = u32_(&mut d)? as usize;
        v.push(d.get(..l)?.to_vec());
        d = &d[l..];
    }
    Some(v)
}

pub fn process(id: &Pubkey, a: &[AccountInfo], data: &[u8]) -> ProgramResult {
    if data.len() < 8 {
        return Err(ProgramError::InvalidInstructionData);
    }
    if data[..8] == UNDELEGATE {
        return undelegate(id, a, &data[8..]);
    }
    if data[..8] == DELEGATE {
        return delegate(id, a, &data[8..]);
    }
    if data[..8] == RELAY_TAG {
        return relay(id, a, &data[8..]);
    }
    Err(ProgramError::InvalidInstructionData)
}

pub const RELAY_TAG: [u8; 8] = [2; 8];
pub fn actor(id: &Pubkey, n: u8) -> (Pubkey, u8) {
    Pubkey::find_program_address(&[b"actor", &[n]], id)
}

/// Calls the program in the first account with the remaining ones, signing for derived addresses of its own.
/// data: per account its flags (1 signer, 2 writable, 4 derived address) and number; then the callee's data
fn relay(id: &Pubkey, a: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let bad = ProgramError::InvalidInstructionData;
    let (prog, rest) = a.split_first().ok_or(bad.clone())?;
    if data.len() < rest.len() * 2 {
        return Err(bad);
    }
    let (flags, inner) = data.split_at(rest.len() * 2);
    let mut metas = vec![];
    let mut bumps: Vec<[u8; 2]> = vec![];
    for (i, f) in rest.iter().zip(flags.chunks(2)) {
        if f[0] & 4 != 0 {
            let (k, b) = actor(id, f[1]);
            if k != *i.key {
                return Err(bad);
            }
            bumps.push([f[1], b]);
        }
        metas.push(AccountMeta {
            pubkey: *i.key,
            is_signer: f[0] & 4 != 0 || (f[0] & 1 != 0 && i.is_signer),
            is_writable: f[0] & 2 != 0 && i.is_writable,
        });
    }
    let seeds: Vec<[&[u8]; 3]> = bumps.iter().map(|x| [b"actor".as_ref(), &x[..1], &x[1..]]).collect();
    let seeds: Vec<&[&[u8]]> = seeds.iter().map(|x| x.as_ref()).collect();
    invoke_signed(&Instruction { program_id: *prog.key, accounts: metas, data: inner.to_vec() }, a, &seeds)
}

/// What the owner-program SDK does: buffer the data, hand the account over, delegate, clean up.
/// accounts: payer, account, owner program, buffer, record, metadata, delegation program, system
/// data: delegate args (the seeds are taken from them)
fn delegate(id: &Pubkey, a: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let [payer, acc, owner, buffer, record, meta, dlp, sys] = a else {
        return Err(ProgramError::NotEnoughAccountKeys);
    };
    let seeds = parse_seeds(data.get(4..).ok_or(ProgramError::InvalidInstructionData)?)
        .ok_or(ProgramError::InvalidInstructionData)?;
    let sl: Vec<&[u8]> = seeds.iter().map(|s| s.as_slice()).collect();
    let (k, bump) = Pubkey::find_program_address(&sl, id);
    if k != *acc.key {
        return Err(ProgramError::InvalidSeeds);
    }
    let (bk, bbump) = Pubkey::find_program_address(&[b"buffer", acc.key.as_ref()], id);
    if bk != *buffer.key {
        return Err(ProgramError::InvalidSeeds);
    }
    let len = acc.data_len();
    let need = Rent::default().minimum_balance(len);
    let bs: &[&[u8]] = &[b"buffer", acc.key.as_ref(), &[bbump]];
    if buffer.lamports() < need {
        invoke(&si::transfer(payer.key, buffer.key, need - buffer.lamports()), &[payer.clone(), buffer.clone(), sys.clone()])?;
    }
    invoke_signed(&si::allocate(buffer.key, len as u64), &[buffer.clone(), sys.clone()], &[bs])?;
    invoke_signed(&si::assign(buffer.key, id), &[buffer.clone(), sys.clone()], &[bs])?;
    buffer.try_borrow_mut_data()?.copy_from_slice(&acc.try_borrow_data()?);
    acc.try_borrow_mut_data()?.fill(0);
    acc.assign(dlp.key);
    let mut ixd = vec![0u8; 8];
    ixd.extend_from_slice(data);
    let bslice = [bump];
    let mut ss = sl.clone();
    ss.push(&bslice);
    invoke_signed(
        &Instruction {
            program_id: *dlp.key,
            accounts: vec![
                AccountMeta::new(*payer.key, true),
                AccountMeta::new(*acc.key, true),
                AccountMeta::new_readonly(*owner.key, false),
                AccountMeta::new(*buffer.key, false),
                AccountMeta::new(*record.key, false),
                AccountMeta::new(*meta.key, false),
                AccountMeta::new_readonly(*sys.key, false),
            ],
            data: ixd,
        },
        &[payer.clone(), acc.clone(), owner.clone(), buffer.clone(), record.clone(), meta.clone(), sys.clone(), dlp.clone()],
        &[&ss],
    )?;
    let l = buffer.lamports();
    **buffer.try_borrow_mut_lamports()? = 0;
    **payer.try_borrow_mut_lamports()? += l;
    buffer.realloc(0, false)?;
    buffer.assign(&solana_program::system_program::ID);
    Ok(())
}

fn undelegate(id: &Pubkey, a: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let [acc, buffer, payer, sys] = a else {
        return Err(ProgramError::NotEnoughAccountKeys);
    };
    let m = mode();
    if m == Mode::Fail {
        return Err(ProgramError::Custom(77));
    }
    if !buffer.is_signer {
        return Err(ProgramError::MissingRequiredSignature);
    }
    let seeds = parse_seeds(data).ok_or(ProgramError::InvalidInstructionData)?;
    let sl: Vec<&[u8]> = seeds.iter().map(|s| s.as_slice()).collect();
    let (k, bump) = Pubkey::find_program_address(&sl, id);
    if k != *acc.key {
        return Err(ProgramError::InvalidSeeds);
    }
    let bslice = [bump];
    let mut ss = sl.clone();
    ss.push(&bslice);
    let full = buffer.data_len();
    let infos = [payer.clone(), acc.clone(), sys.clone()];
    let rent = |n: usize| Rent::default().minimum_balance(n);
    let create = |lam: u64, len: usize, owner: &Pubkey| {
        invoke_signed(&si::create_account(payer.key, acc.key, lam, len as u64, owner), &infos, &[&ss])
    };
    let fill = |len: usize| -> ProgramResult {
        let src = buffer.try_borrow_data()?;
        let n = len.min(src.len());
        acc.try_borrow_mut_data()?[..n].copy_from_slice(&src[..n]);
        Ok(())
    };
    match m {
        Mode::Honest => {
            create(rent(full), full, id)?;
            fill(full)?;
        }
        Mode::HonestManual => {
            invoke(&si::transfer(payer.key, acc.key, rent(full)), &infos)?;
            invoke_signed(&si::allocate(acc.key, full as u64), &infos, &[&ss])?;
            invoke_signed(&si::assign(acc.key, id), &infos, &[&ss])?;
            fill(full)?;
        }
        Mode::Noop | Mode::Fail => {}
        Mode::FlipByte(i) => {
            create(rent(full), full, id)?;
            fill(full)?;
            if full > 0 {
                acc.try_borrow_mut_data()?[i as usize % full] ^= 1 << (i % 8);
            }
        }
        Mode::DropTail(n) => {
            let l = full.saturating_sub(1 + n as usize % full.max(1));
            create(rent(full), l, id)?;
            fill(l)?;
        }
        Mode::ShortConsistent(n) => {
            let l = full.saturating_sub(1 + n as usize % full.max(1));
            create(rent(l), l, id)?;
            fill(l)?;
        }
        Mode::ExtraTail(n) => {
            let l = full + 1 + n as usize % 64;
            create(rent(l), l, id)?;
            fill(full)?;
        }
        Mode::OverpayFromValidator(n) => {
            create(rent(full), full, id)?;
            fill(full)?;
            invoke(&si::transfer(payer.key, acc.key, n), &infos)?;
        }
        Mode::Underpay(n) => {
            create(rent(full).saturating_sub(n), full, id)?;
            fill(full)?;
        }
        Mode::DrainBack(n) => {
            create(rent(full), full, id)?;
            fill(full)?;
            // give lamports of the recreated account back to the validator
            let n = n.min(acc.lamports());
            **acc.try_borrow_mut_lamports()? -= n;
            **payer.try_borrow_mut_lamports()? += n;
        }
        Mode::AssignValidator => {
            create(rent(full), full, id)?;
            fill(full)?;
            invoke(&si::assign(payer.key, id), &[payer.clone(), sys.clone()])?;
        }
        Mode::AllocateValidator(n) => {
            create(rent(full), full, id)?;
            fill(full)?;
            invoke(&si::allocate(payer.key, n as u64), &[payer.clone(), sys.clone()])?;
        }
        Mode::AllocateAssignValidator(n) => {
            create(rent(full), full, id)?;
            fill(full)?;
            invoke(&si::allocate(payer.key, n as u64), &[payer.clone(), sys.clone()])?;
            invoke(&si::assign(payer.key, id), &[payer.clone(), sys.clone()])?;
        }
        Mode::GiveAway => {
            create(rent(full), full, id)?;
            fill(full)?;
            let keep = acc.try_borrow_data()?.to_vec();
            let _ = keep;
            // an account with non-zero data cannot be re-assigned; only all-zero data gets through
            acc.assign(&crate::mock::OTHER);
        }
        Mode::FundOnly => {
            invoke(&si::transfer(payer.key, acc.key, rent(full)), &infos)?;
        }
        Mode::WriteBuffer => {
            create(rent(full), full, id)?;
            fill(full)?;
            if full > 0 {
                buffer.try_borrow_mut_data()?[0] ^= 1;
                acc.try_borrow_mut_data()?[0] ^= 1;
            }
        }
        Mode::SystemOwned => {
            create(rent(full), full, &solana_program::system_program::ID)?;
        }
        Mode::Script(seed) => {
            let mut r = crate::rng::Rng::new(seed, 14);
            let x = match r.below(6) {
                0 => 1,
                1 => rent(0),
                2 => rent(full),
                3 => rent(full) / 2,
                4 => r.u64() % 1_000_000,
                _ => r.u64() % 5_000_000_000,
            };
            let less = x.min(rent(full));
            let len = match r.below(8) {
                0 => full + r.below(20),
                1 => full.saturating_sub(r.below(20)),
                _ => full,
            };
            match r.below(6) {
                0 => create(rent(full) - less, len, id)?,
                1 => create(rent(full) + x, len, id)?,
                2 => create(rent(len), len, id)?,
                3 => {
                    invoke(&si::transfer(payer.key, acc.key, rent(full) - less), &infos)?;
                    invoke_signed(&si::allocate(acc.key, len as u64), &infos, &[&ss])?;
                    invoke_signed(&si::assign(acc.key, id), &infos, &[&ss])?;
                }
                _ => create(rent(full), len, id)?,
            }
            fill(full.min(len))?;
            let binfos = [payer.clone(), buffer.clone(), sys.clone()];
            for _ in 0..1 + r.below(4) {
                match r.below(12) {
                    0 => invoke(&si::transfer(payer.key, acc.key, x), &infos)?,
                    1 | 2 => invoke(&si::transfer(payer.key, buffer.key, x), &binfos)?,
                    3 | 4 => {
                        let n = x.min(acc.lamports());
                        **acc.try_borrow_mut_lamports()? -= n;
                        **payer.try_borrow_mut_lamports()? += n;
                    }
                    5 | 6 => {
                        let n = x.min(acc.lamports());
                        **acc.try_borrow_mut_lamports()? -= n;
                        **buffer.try_borrow_mut_lamports()? += n;
                    }
                    7 => {
                        let n = acc.data_len();
                        if n > 0 {
                            acc.try_borrow_mut_data()?[r.below(n)] ^= 1;
                        }
                    }
                    8 => acc.realloc(len + r.below(9), false)?,
                    9 => acc.realloc(full, true)?,
                    10 => fill(full.min(acc.data_len()))?,
                    _ => match r.below(3) {
                        0 => invoke(&si::assign(payer.key, id), &[payer.clone(), sys.clone()])?,
                        1 => invoke(&si::allocate(payer.key, x % 100), &[payer.clone(), sys.clone()])?,
                        _ => {
                            acc.try_borrow_mut_data()?.fill(0);
                            acc.assign(&crate::mock::OTHER);
                        }
                    },
                }
            }
        }
    }
    Ok(())
}

pub const OTHER: Pubkey = Pubkey::new_from_array([0x6f; 32]);
