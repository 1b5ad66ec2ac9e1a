SEEDS=[]
def s(id,prop,edits,needs,breaks,demo,hostile=None):
    d=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo)
    if hostile: d["hostile"]=hostile
    SEEDS.append(d)
P="processor/"
ONCURVE='''
    let k = Keypair::new();
    let kk = k.pubkey();
    t.put(kk, 3_000_000_000, dlp::ID, vec![]);
    let u = t.user.insecure_clone();
'''
SESS='''
    let (k, seeds) = owned_pda(b"x");
    let u = t.user.pubkey();
    let (v, v2) = (t.v.insecure_clone(), t.v2.insecure_clone());
'''
s("freq-truncated","C01",[(P+"delegate.rs","commit_frequency_ms: args.commit_frequency_ms as u64","commit_frequency_ms: u64::from(args.commit_frequency_ms as u16)")],
 "a requested commit frequency above 65535 ms","the session record holds another commit frequency than requested",
 ONCURVE+'''
    let a = DelegateArgs { commit_frequency_ms: 70_000, seeds: vec![], validator: None };
    t.send(vec![ib::delegate(u.pubkey(), kk, None, a)], &[&u, &k]).await.unwrap();
    assert_eq!(u64::from_le_bytes(t.record(&kk).await[88..96].try_into().unwrap()), 70_000);
''')
s("oncurve-no-consent","C02",[(P+"delegate.rs",'''    load_signer(delegated_account, "delegated account")?;
''','''    if !is_on_curve(delegated_account.key) {
        load_signer(delegated_account, "delegated account")?;
    }
''')],"a delegation request for an on-curve account already assigned to the program, made by somebody else without its signature","an account is delegated without its consent, somebody else becoming its rent payer",
 ONCURVE+'''
    let mut ix = ib::delegate(u.pubkey(), kk, None, DelegateArgs::default());
    ix.accounts[1].is_signer = false;
    assert!(t.send(vec![ix], &[&u]).await.is_err());
''')
s("prefunded-surplus-refused","C23",[(P+"utils/pda.rs",'''            .minimum_balance(space)
            .saturating_sub(target_account.lamports());''','''            .minimum_balance(space)
            .checked_sub(target_account.lamports())
            .ok_or(solana_program::program_error::ProgramError::InvalidAccountData)?;''')],
 "a donation larger than the rent minimum to an address about to be created","anybody can block delegations, commits and undelegations by sending lamports to a derived address",
 ONCURVE+'''
    t.put(pda::delegation_record_pda_from_delegated_account(&kk), 5_000_000_000, system_program::ID, vec![]);
    t.send(vec![ib::delegate(u.pubkey(), kk, None, DelegateArgs::default())], &[&u, &k]).await.unwrap();
''')
s("outdated-commit-unlocks","C06",[(P+"commit_state.rs",'''    // If the commit slot is greater or equal than the last update slot, we can proceed.
''','''    let already_undelegatable = delegation_metadata.is_undelegatable;
    if args.allow_undelegation {
        delegation_metadata.is_undelegatable = true;
        delegation_metadata.to_bytes_with_discriminator(&mut delegation_metadata_data.as_mut())?;
    }

    // If the commit slot is greater or equal than the last update slot, we can proceed.
'''),(P+"commit_state.rs","    if delegation_metadata.is_undelegatable {\n","    if already_undelegatable {\n")],
 "an outdated commit (slot below the last finalized one) that asks to allow undelegation","an outdated commit has an effect: it permits undelegation",
 SESS+'''
    let mut s = Session::new(u, seeds, vec![1; 20]);
    s.last = 100;
    t.session(k, s);
    let before = t.metadata(&k).await;
    t.send(vec![ib::commit_state(v.pubkey(), k, OWNER, commit_args(99, 2_000_000_000, true, vec![3; 20]))], &[&v]).await.unwrap();
    assert_eq!(t.metadata(&k).await, before);
''')
s("recorded-validator-trusted","C04",[(P+"commit_state.rs",'''    load_initialized_validator_fees_vault(args.validator, args.validator_fees_vault, false)?;
''','''    // The validator the account was delegated to does not need to prove its registration again
    let is_session_validator = DelegationRecord::try_from_bytes_with_discriminator(
        &args.delegation_record_account.try_borrow_data()?,
    )?
    .authority
    .eq(args.validator.key);
    if !is_session_validator {
        load_initialized_validator_fees_vault(args.validator, args.validator_fees_vault, false)?;
    }
''')],"a commit by the validator named in the delegation record after its registration was removed","an unregistered validator can commit",
 SESS+'''
    let mut s = Session::new(u, seeds, vec![1; 20]);
    s.validator = v.pubkey();
    t.session(k, s);
    t.put(pda::validator_fees_vault_pda_from_validator(&v.pubkey()), 0, system_program::ID, vec![]);
    let r = t.send(vec![ib::commit_state(v.pubkey(), k, OWNER, commit_args(9, 2_000_000_000, false, vec![3; 20]))], &[&v]).await;
    let _ = &v2;
    assert!(r.is_err());
''')
s("empty-whitelist-admits","C05",[(P+"commit_state.rs",'''        if !program_config
            .approved_validators
            .contains(args.validator.key)
        {''','''        if !program_config.approved_validators.is_empty()
            && !program_config
                .approved_validators
                .contains(args.validator.key)
        {''')],"the last validator being removed from a program's list, then a commit by any registered validator","an emptied whitelist admits everybody",
 SESS+'''
    t.session(k, Session::new(u, seeds, vec![1; 20]));
    let adm = t.admin.insecure_clone();
    t.send(vec![ib::whitelist_validator_for_program(adm.pubkey(), v.pubkey(), OWNER, true)], &[&adm]).await.unwrap();
    t.send(vec![ib::whitelist_validator_for_program(adm.pubkey(), v.pubkey(), OWNER, false)], &[&adm]).await.unwrap();
    let r = t.send(vec![ib::commit_state(v2.pubkey(), k, OWNER, commit_args(9, 2_000_000_000, false, vec![3; 20]))], &[&v2]).await;
    assert!(r.is_err());
''')
s("empty-state-keeps-slot","C06",[(P+"finalize.rs",'''    delegation_metadata.last_update_external_slot = commit_record.slot;
''','''    if !commit_state_account.data_is_empty() {
        delegation_metadata.last_update_external_slot = commit_record.slot;
    }
''')],"finalizing a commit with no data (an on-curve account or escrow)","the slot of the last finalized state is not recorded, so older states can be committed afterwards",
 '''
    let k = Keypair::new().pubkey();
    let u = t.user.pubkey();
    let v = t.v.insecure_clone();
    let mut s = Session::new(u, vec![], vec![]);
    s.owner = system_program::ID;
    t.session(k, s);
    t.send(vec![ib::commit_state(v.pubkey(), k, system_program::ID, commit_args(50, 2_000_000_000, false, vec![]))], &[&v]).await.unwrap();
    t.send(vec![ib::finalize(v.pubkey(), k)], &[&v]).await.unwrap();
    assert_eq!(t.last_slot(&k).await, 50);
''')
s("commit-slot-clamped","C07",[(P+"commit_state.rs",'''        slot: args.commit_record_slot,
        lamports''','''        slot: args
            .commit_record_slot
            .min(solana_program::clock::Clock::get()?.slot.saturating_add(1 << 20)),
        lamports'''),(P+"commit_state.rs","use borsh::BorshDeserialize;","use borsh::BorshDeserialize;\nuse solana_program::sysvar::Sysvar;")],
 "a commit slot more than a million slots ahead of the base chain's clock (rollups count faster)","the pending commit does not hold the submitted slot",
 SESS+'''
    t.session(k, Session::new(u, seeds, vec![1; 20]));
    t.send(vec![ib::commit_state(v.pubkey(), k, OWNER, commit_args(1 << 40, 2_000_000_000, false, vec![3; 20]))], &[&v]).await.unwrap();
    let d = t.acc(&pda::commit_record_pda_from_delegated_account(&k)).await.data;
    let _ = &v2;
    assert_eq!(u64::from_le_bytes(d[72..80].try_into().unwrap()), 1 << 40);
''')
s("buffer-padding-trimmed","C08",[(P+"commit_state_from_buffer.rs",'''    let commit_state_bytes: &[u8] = *state;
''','''    // Buffers are allocated in chunks of 64 bytes: what follows the state is padding
    let padding = match state.len() % 64 {
        0 => state.iter().rev().take(63).take_while(|b| **b == 0).count(),
        _ => 0,
    };
    let commit_state_bytes: &[u8] = &state[..state.len() - padding];
''')],"a buffer whose length is a multiple of 64 and whose state ends in zero bytes","committing from a buffer loses trailing zero bytes that a direct commit keeps",
 SESS+'''
    t.session(k, Session::new(u, seeds, vec![1; 20]));
    let b = Keypair::new().pubkey();
    let mut d = vec![4u8; 64];
    d[60..].fill(0);
    t.put(b, 2_000_000_000, OWNER, d.clone());
    let a = CommitStateFromBufferArgs { slot: 3, lamports: 2_000_000_000, allow_undelegation: false };
    t.send(vec![ib::commit_state_from_buffer(v.pubkey(), k, OWNER, b, a)], &[&v]).await.unwrap();
    let _ = &v2;
    assert_eq!(t.acc(&pda::commit_state_pda_from_delegated_account(&k)).await.data, d);
''')
s("finalize-never-shrinks","C09",[(P+"finalize.rs",'''    delegated_account.realloc(commit_state_data.len(), false)?;
    let mut delegated_account_data = delegated_account.try_borrow_mut_data()?;
    (*delegated_account_data).copy_from_slice(&commit_state_data);
''','''    if commit_state_data.len() > delegated_account.data_len() {
        delegated_account.realloc(commit_state_data.len(), false)?;
    }
    let mut delegated_account_data = delegated_account.try_borrow_mut_data()?;
    delegated_account_data[..commit_state_data.len()].copy_from_slice(&commit_state_data);
''')],"a committed state shorter than the current data","the delegated account keeps a tail of its old data",
 SESS+'''
    t.session(k, Session::new(u, seeds, vec![1; 50]));
    t.pending(k, v.pubkey(), 4, 2_000_000_000, 0, vec![8; 20]);
    let _ = &v2;
    t.send(vec![ib::finalize(v.pubkey(), k)], &[&v]).await.unwrap();
    assert_eq!(t.acc(&k).await.data, vec![8; 20]);
''')
s("stranger-finalizes-free-commit","C10",[(P+"finalize.rs",'''    if !commit_record.identity.eq(validator.key) {
''','''    // Nobody but the committer may release its deposit
    if !commit_record.identity.eq(validator.key)
        && commit_record.lamports != delegation_record.lamports
    {
''')],"a pending commit that does not change the balance, finalized by another registered validator","somebody else finalizes a commit and takes the rent its committer paid",
 SESS+'''
    t.session(k, Session::new(u, seeds, vec![1; 50]));
    t.pending(k, v.pubkey(), 4, 2_000_000_000, 0, vec![8; 20]);
    assert!(t.send(vec![ib::finalize(v2.pubkey(), k)], &[&v2]).await.is_err());
''')
s("settle-against-real-balance","C11",[(P+"finalize.rs",'''        validator_fees_vault,
        delegation_record.lamports,
        commit_record.lamports,
    )?;''','''        validator_fees_vault,
        // dust in excess of the recorded balance is swept along with a decrease
        match delegated_account.lamports().saturating_sub(delegation_record.lamports) {
            dust if dust < 1_000 && commit_record.lamports < delegation_record.lamports => {
                delegated_account.lamports()
            }
            _ => delegation_record.lamports,
        },
        commit_record.lamports,
    )?;''')],"a few lamports sent to the delegated account by somebody, then a commit that lowers the balance","the validator's vault also receives the lamports that were sent to the account",
 SESS+'''
    let mut s = Session::new(u, seeds, vec![1; 50]);
    s.recorded = Some(s.lamports);
    s.lamports += 500;
    t.session(k, s);
    t.pending(k, v.pubkey(), 4, 1_999_999_000, 0, vec![8; 20]);
    let _ = &v2;
    t.send(vec![ib::finalize(v.pubkey(), k)], &[&v]).await.unwrap();
    assert_eq!(t.bal(&pda::validator_fees_vault_pda_from_validator(&v.pubkey())).await, rent(8) + 1000);
''')
s("record-keeps-committed-balance","C11",[(P+"finalize.rs",'''    delegation_record.lamports = delegated_account.lamports();
''','''    delegation_record.lamports = commit_record.lamports;
''')],"lamports sent to the delegated account before a finalization","after a finalization the recorded balance differs from the real one",
 SESS+'''
    let mut s = Session::new(u, seeds, vec![1; 50]);
    s.recorded = Some(s.lamports);
    s.lamports += 500;
    t.session(k, s);
    t.pending(k, v.pubkey(), 4, 2_000_000_000, 0, vec![8; 20]);
    let _ = &v2;
    t.send(vec![ib::finalize(v.pubkey(), k)], &[&v]).await.unwrap();
    assert_eq!(t.recorded(&k).await, t.bal(&k).await);
''')
s("commit-relocks","C12",[(P+"commit_state.rs",'''    if delegation_metadata.is_undelegatable {
''','''    if delegation_metadata.is_undelegatable && args.allow_undelegation {
''')],"a second commit without the undelegation flag after one that allowed undelegation","commits are accepted after undelegation was permitted, and take the permission back",
 SESS+'''
    let mut s = Session::new(u, seeds, vec![1; 20]);
    s.undelegatable = true;
    t.session(k, s);
    let _ = &v2;
    assert!(t.send(vec![ib::commit_state(v.pubkey(), k, OWNER, commit_args(9, 2_000_000_000, false, vec![3; 20]))], &[&v]).await.is_err());
''')
s("rent-to-validator","C12",[(P+"undelegate.rs",'''    if !delegation_metadata.rent_payer.eq(rent_reimbursement.key) {
''','''    if !delegation_metadata.rent_payer.eq(rent_reimbursement.key)
        && !validator.key.eq(rent_reimbursement.key)
    {
''')],"an undelegation in which the validator names itself as the party to be refunded","the validator keeps the rent the delegating party paid",
 SESS+'''
    let mut s = Session::new(u, seeds, vec![1; 20]);
    s.undelegatable = true;
    t.session(k, s);
    let _ = &v2;
    assert!(t.send(vec![ib::undelegate(v.pubkey(), k, OWNER, v.pubkey())], &[&v]).await.is_err());
''')
s("prefix-compare-after-cpi","C14",[(P+"undelegate.rs",'''    if delegated_account.try_borrow_data()?.as_ref()
        != undelegate_buffer_account.try_borrow_data()?.as_ref()
    {''','''    if !undelegate_buffer_account
        .try_borrow_data()?
        .starts_with(delegated_account.try_borrow_data()?.as_ref())
    {''')],"an owner program that re-creates the account shorter than the saved state","undelegation completes although the owner program dropped part of the state",
 SESS+'''
    let mut s = Session::new(u, seeds, vec![1; 40]);
    s.undelegatable = true;
    t.session(k, s);
    let _ = &v2;
    HOSTILE.store(1, std::sync::atomic::Ordering::SeqCst);
    let r = t.send(vec![ib::undelegate(v.pubkey(), k, OWNER, u)], &[&v]).await;
    assert!(r.is_err() || t.acc(&k).await.data == vec![1; 40]);
''',hostile='''/// drops the tail and keeps the books right
pub fn hostile(a: &[AccountInfo], m: u32) -> ProgramResult {
    if m == 1 {
        let n = a[0].data_len() - 8;
        let back = rent(n + 8) - rent(n);
        a[0].realloc(n, false)?;
        **a[0].try_borrow_mut_lamports()? -= back;
        **a[2].try_borrow_mut_lamports()? += back;
    }
    Ok(())
}
''')
s("protocol-share-of-refund","C15",[(P+"utils/pda.rs",'''        fee_amount = fee_amount
            .checked_mul(fee_percentage as u64)
            .and_then(|v| v.checked_div(100))''','''        fee_amount = fee_amount
            .checked_div(100)
            .and_then(|v| v.checked_mul(fee_percentage as u64))''')],
 "session records whose withheld fee is not a multiple of one hundred lamports","the protocol vault receives less than its ten percent",
 SESS+'''
    let mut s = Session::new(u, seeds, vec![]);
    s.undelegatable = true;
    s.extra = 999;
    t.session(k, s);
    let _ = &v2;
    let r = t.bal(&pda::delegation_record_pda_from_delegated_account(&k)).await;
    let m = t.bal(&pda::delegation_metadata_pda_from_delegated_account(&k)).await;
    t.send(vec![ib::undelegate(v.pubkey(), k, OWNER, u)], &[&v]).await.unwrap();
    let want = r * 10 / 100 * 10 / 100 + m * 10 / 100 * 10 / 100;
    assert_eq!(t.bal(&pda::fees_vault_pda()).await, rent(8) + want);
''')
s("immutable-program-anyone-admin","C16",[(P+"close_validator_fees_vault.rs",'''        load_program_upgrade_authority(&crate::ID, delegation_program_data)?.ok_or(Unauthorized)?;
''','''        load_program_upgrade_authority(&crate::ID, delegation_program_data)?.unwrap_or(*admin.key);
''')],"the delegation program having no upgrade authority any more","anybody can remove any validator's registration",
 '''
    t.put(programdata_of(&dlp::ID), 1_000_000_000, solana_program::bpf_loader_upgradeable::ID, programdata(None));
    let u = t.user.insecure_clone();
    let v = t.v.pubkey();
    assert!(t.send(vec![ib::close_validator_fees_vault(u.pubkey(), u.pubkey(), v)], &[&u]).await.is_err());
''')
s("claim-zero-takes-all","C17",[(P+"validator_claim_fees.rs",'''        .amount
        .unwrap_or(''','''        .amount
        .filter(|amount| *amount > 0)
        .unwrap_or(''')],"a claim of zero lamports","a claim of nothing empties the vault",
 '''
    let v = t.v.insecure_clone();
    let vault = pda::validator_fees_vault_pda_from_validator(&v.pubkey());
    t.put(vault, rent(8) + 5000, dlp::ID, vec![0; 8]);
    t.send(vec![ib::validator_claim_fees(v.pubkey(), Some(0))], &[&v]).await.unwrap();
    assert_eq!(t.bal(&vault).await, rent(8) + 5000);
''')
s("protocol-claim-immutable","C18",[(P+"protocol_claim_fees.rs",'''        load_program_upgrade_authority(&crate::ID, delegation_program_data)?.ok_or(Unauthorized)?;
''','''        load_program_upgrade_authority(&crate::ID, delegation_program_data)?.unwrap_or_default();
'''),(P+"protocol_claim_fees.rs",'''    if !admin.key.eq(&admin_pubkey) {
''','''    if admin_pubkey.ne(&Default::default()) && !admin.key.eq(&admin_pubkey) {
''')],"the delegation program having no upgrade authority any more","anybody can take the protocol's fees",
 '''
    t.put(programdata_of(&dlp::ID), 1_000_000_000, solana_program::bpf_loader_upgradeable::ID, programdata(None));
    t.put(pda::fees_vault_pda(), rent(8) + 5000, dlp::ID, vec![0; 8]);
    let u = t.user.insecure_clone();
    assert!(t.send(vec![ib::protocol_claim_fees(u.pubkey())], &[&u]).await.is_err());
''')
s("foreign-programdata","C19",[(P+"utils/loaders.rs",'''    if !program_data_address.eq(program_data.key) {
''','''    if !program_data_address.eq(program_data.key)
        && !program_data.owner.eq(&bpf_loader_upgradeable::id())
    {
''')],"the data account of another upgradeable program supplied in place of the named program's","the authority of any upgradeable program can edit every program's list",
 '''
    let u = t.user.insecure_clone();
    let v = t.v.pubkey();
    let mine = Pubkey::new_from_array([5; 32]);
    t.put(programdata_of(&mine), 1_000_000_000, solana_program::bpf_loader_upgradeable::ID, programdata(Some(u.pubkey())));
    let mut ix = ib::whitelist_validator_for_program(u.pubkey(), v, OWNER, true);
    ix.accounts[3].pubkey = programdata_of(&mine);
    assert!(t.send(vec![ix], &[&u]).await.is_err());
''')
s("config-never-shrinks","C19",[(P+"utils/pda.rs",'''    pda.realloc(new_size, false)?;
    Ok(())''','''    // the allocation is kept when an entry of several is removed
    if new_size > pda.data_len() || new_size <= 12 {
        pda.realloc(new_size, false)?;
    }
    Ok(())''')],"removing a validator from a list","the stored list keeps a stale tail, can no longer be decoded, and blocks every commit for the program",
 SESS+'''
    t.session(k, Session::new(u, seeds, vec![1; 20]));
    let adm = t.admin.insecure_clone();
    for (x, on) in [(&v, true), (&v2, true), (&v2, false)] {
        t.send(vec![ib::whitelist_validator_for_program(adm.pubkey(), x.pubkey(), OWNER, on)], &[&adm]).await.unwrap();
    }
    t.send(vec![ib::commit_state(v.pubkey(), k, OWNER, commit_args(9, 2_000_000_000, false, vec![3; 20]))], &[&v]).await.unwrap();
''')
s("escrow-index-folded","C20",[("pda.rs",'''        &[b"balance", &$payer.as_ref(), &[$index]]
''','''        &[b"balance", &$payer.as_ref(), &[$index & 0x7f]]
''')],"escrow indexes of 128 and above","escrows of different indexes are the same account",
 '''
    assert_ne!(pda::ephemeral_balance_pda_from_payer(&OWNER, 1), pda::ephemeral_balance_pda_from_payer(&OWNER, 129));
    let u = t.user.insecure_clone();
    t.send(vec![ib::top_up_ephemeral_balance(u.pubkey(), u.pubkey(), Some(5_000_000), Some(200))], &[&u]).await.unwrap();
    let e = Pubkey::find_program_address(&[b"balance", u.pubkey().as_ref(), &[200]], &dlp::ID).0;
    assert!(t.bal(&e).await >= 5_000_000);
''')
s("foreign-wallet-delegates","C21",[(P+"delegate_ephemeral_balance.rs",'''    load_signer(pubkey, "delegatee")?;
''','''    if payer.key.ne(pubkey.key) {
        // Sponsored escrow: the wallet only has to exist
        load_owned_pda(pubkey, &system_program::id(), "delegatee")?;
    }
'''),(P+"delegate_ephemeral_balance.rs","use crate::processor::utils::loaders::{load_program, load_signer};","use crate::processor::utils::loaders::{load_owned_pda, load_program, load_signer};")],
 "an escrow delegation request by a payer other than the wallet, without the wallet's signature","anybody can lock a wallet's escrow by delegating it",
 '''
    let u = t.user.insecure_clone();
    let w = Keypair::new();
    t.put(w.pubkey(), 1_000_000_000, system_program::ID, vec![]);
    t.put(pda::ephemeral_balance_pda_from_payer(&w.pubkey(), 0), 5_000_000, system_program::ID, vec![]);
    let mut ix = ib::delegate_ephemeral_balance(u.pubkey(), w.pubkey(), DelegateEphemeralBalanceArgs::default());
    ix.accounts[1].is_signer = false;
    assert!(t.send(vec![ix], &[&u]).await.is_err());
''')
s("any-commit-state","C22",[(P+"utils/loaders.rs",'''    load_initialized_pda(
        commit_state,
        commit_state_seeds_from_delegated_account!(delegated_account.key),
        &crate::id(),
        is_writable,
        "commit state",
    )?;
    Ok(())''','''    // The commit record names the delegated account, no need to derive the state's address as well
    load_owned_pda(commit_state, &crate::id(), "commit state")?;
    if delegated_account.key.eq(commit_state.key) || is_writable && !commit_state.is_writable {
        return Err(ProgramError::InvalidAccountData);
    }
    Ok(())'''),(P+"utils/loaders.rs",'''    commit_record_seeds_from_delegated_account, commit_state_seeds_from_delegated_account,
''','''    commit_record_seeds_from_delegated_account,
''')],"a finalization that names the pending state of another session of the same validator","a validator can apply another session's committed state to an account",
 SESS+'''
    t.session(k, Session::new(u, seeds, vec![1; 50]));
    t.pending(k, v.pubkey(), 4, 2_000_000_000, 0, vec![8; 20]);
    let (k2, seeds2) = owned_pda(b"y");
    t.session(k2, Session::new(u, seeds2, vec![1; 50]));
    t.pending(k2, v.pubkey(), 4, 2_000_000_000, 0, vec![9; 20]);
    let _ = &v2;
    let mut ix = ib::finalize(v.pubkey(), k);
    ix.accounts[2].pubkey = pda::commit_state_pda_from_delegated_account(&k2);
    assert!(t.send(vec![ix], &[&v]).await.is_err());
''')
s("exact-privileges","C24",[(P+"utils/loaders.rs",'''    load_owned_pda(info, program_id, label)?;

    if is_writable && !info.is_writable {''','''    load_owned_pda(info, program_id, label)?;

    if is_writable != info.is_writable {''')],"a commit and a finalization of the same account in one transaction","instructions that work one per transaction fail when bundled, because accounts become writable",
 SESS+'''
    t.session(k, Session::new(u, seeds, vec![1; 50]));
    let _ = &v2;
    let a = ib::commit_state(v.pubkey(), k, OWNER, commit_args(9, 2_000_000_000, false, vec![3; 20]));
    t.send(vec![a, ib::finalize(v.pubkey(), k)], &[&v]).await.unwrap();
''')
s("deposit-from-real-balance","C25",[(P+"commit_state.rs",'''            .checked_sub(delegation_record.lamports)
            .ok_or(DlpError::Overflow)?;
        invoke(''','''            .saturating_sub(args.delegated_account.lamports());
        invoke(''')],"lamports sent to the delegated account, then a commit that raises the balance","the pending increase is not covered by the deposit: finalization pays it out of the committer's rent or fails",
 SESS+'''
    let mut s = Session::new(u, seeds, vec![1; 50]);
    s.recorded = Some(s.lamports);
    s.lamports += 500_000;
    t.session(k, s);
    let _ = &v2;
    t.send(vec![ib::commit_state(v.pubkey(), k, OWNER, commit_args(9, 2_003_000_000, false, vec![3; 20]))], &[&v]).await.unwrap();
    assert_eq!(t.bal(&pda::commit_state_pda_from_delegated_account(&k)).await, 3_000_000);
    t.send(vec![ib::finalize(v.pubkey(), k)], &[&v]).await.unwrap();
''')
s("donation-blocks-creation","C26",[(P+"utils/loaders.rs",'''    if !info.data_is_empty() {
        msg!("Account {} ({}) needs to be uninitialized", label, info.key);''','''    if !info.data_is_empty() || (is_writable && info.lamports() > 10 * 890_880) {
        msg!("Account {} ({}) needs to be uninitialized", label, info.key);''')],"a sizeable donation to the address of a future pending commit or undelegation buffer","an outsider can prevent a session from ever being finished",
 SESS+'''
    let mut s = Session::new(u, seeds, vec![1; 50]);
    s.undelegatable = true;
    t.session(k, s);
    let _ = &v2;
    t.put(pda::undelegate_buffer_pda_from_delegated_account(&k), 10_000_000_000, system_program::ID, vec![]);
    t.send(vec![ib::undelegate(v.pubkey(), k, OWNER, u)], &[&v]).await.unwrap();
''')
s("lax-borsh-decoding","C27",[("state/utils/try_from_bytes.rs",'''                Self::try_from_slice(&data[8..]).or(Err(''','''                Self::deserialize(&mut &data[8..]).or(Err(''')],"a metadata or configuration record followed by extra bytes","records of the wrong length are accepted by the decoder",
 '''
    let m = dlp::state::DelegationMetadata { last_update_external_slot: 1, is_undelegatable: false, seeds: vec![vec![1]], rent_payer: OWNER };
    let mut d = vec![];
    m.to_bytes_with_discriminator(&mut d).unwrap();
    d.push(0);
    let _ = &mut t;
    assert!(dlp::state::DelegationMetadata::try_from_bytes_with_discriminator(&d).is_err());
''')
s("lax-args","C28",[(P+"validator_claim_fees.rs",'''    let args = ValidatorClaimFeesArgs::try_from_slice(data)?;
''','''    let args = ValidatorClaimFeesArgs::deserialize(&mut &data[..])?;
''')],"a claim with bytes after its arguments","a malformed claim is executed",
 '''
    let v = t.v.insecure_clone();
    let vault = pda::validator_fees_vault_pda_from_validator(&v.pubkey());
    t.put(vault, rent(8) + 5000, dlp::ID, vec![0; 8]);
    let mut ix = ib::validator_claim_fees(v.pubkey(), None);
    ix.data.extend(2000u64.to_le_bytes());
    assert!(t.send(vec![ix], &[&v]).await.is_err());
''')
s("undelegate-readonly-refund","C29",[("instruction_builder/undelegate.rs",'''            AccountMeta::new(rent_reimbursement, false),
''','''            AccountMeta::new_readonly(rent_reimbursement, false),
''')],"an undelegation whose refunded party neither pays the transaction fee nor is the validator","the builder's undelegation request is always refused",
 SESS+'''
    let mut s = Session::new(u, seeds, vec![1; 50]);
    s.undelegatable = true;
    t.session(k, s);
    let _ = &v2;
    t.send(vec![ib::undelegate(v.pubkey(), k, OWNER, u)], &[&v]).await.unwrap();
''')
s("admin-pays-registration","C30",[(P+"init_validator_fees_vault.rs",'''        system_program,
        payer,
    )?;''','''        system_program,
        if admin.is_writable { admin } else { payer },
    )?;''')],"an administrator account that is writable in the transaction (for example because it pays the fee) and another payer","the administrator is charged the rent the payer agreed to pay",
 '''
    let (adm, u) = (t.admin.insecure_clone(), t.user.insecure_clone());
    let w = Keypair::new().pubkey();
    let before = t.bal(&adm.pubkey()).await;
    let x = si::transfer(&u.pubkey(), &adm.pubkey(), 7);
    t.send(vec![x, ib::init_validator_fees_vault(u.pubkey(), adm.pubkey(), w)], &[&u, &adm]).await.unwrap();
    assert_eq!(t.bal(&adm.pubkey()).await, before + 7);
''')
s("unowned-delegation","C03",[(P+"top_up_ephemeral_balance.rs",'''    // Transfer lamports from payer to ephemeral PDA''','''    // A top up that carries no lamports releases an escrow whose balance is below the rent minimum
    if args.amount == 0
        && ephemeral_balance_account.owner.eq(&crate::id())
        && ephemeral_balance_account.data_is_empty()
    {
        ephemeral_balance_account.assign(&system_program::id());
    }

    // Transfer lamports from payer to ephemeral PDA''')],"a top up of zero lamports for a delegated escrow","a delegated account changes its owner without undelegation, its session records remain",
 '''
    let u = t.user.insecure_clone();
    let e = pda::ephemeral_balance_pda_from_payer(&u.pubkey(), 3);
    let mut s = Session::new(u.pubkey(), vec![b"balance".to_vec(), u.pubkey().to_bytes().to_vec(), vec![3]], vec![]);
    s.owner = system_program::ID;
    t.session(e, s);
    let _ = t.send(vec![ib::top_up_ephemeral_balance(u.pubkey(), u.pubkey(), Some(0), Some(3))], &[&u]).await;
    assert_eq!(t.acc(&e).await.owner, dlp::ID);
''')
s("handback-without-empty-seeds","C13",[(P+"undelegate.rs",'''    let serialized_seeds = to_vec(&delegation_metadata.seeds)?;
''','''    let seeds: Vec<_> = delegation_metadata
        .seeds
        .into_iter()
        .filter(|seed| !seed.is_empty())
        .collect();
    let serialized_seeds = to_vec(&seeds)?;
''')],"an account derived from seeds of which one is empty","the owner program is not asked with the recorded seeds",
 '''
    let u = t.user.pubkey();
    let v = t.v.insecure_clone();
    let k = Pubkey::find_program_address(&[b"a", b"", b"b"], &OWNER).0;
    let mut s = Session::new(u, vec![b"a".to_vec(), vec![], b"b".to_vec()], vec![1; 50]);
    s.undelegatable = true;
    t.session(k, s);
    let r = t.send(vec![ib::undelegate(v.pubkey(), k, OWNER, u)], &[&v]).await;
    assert!(r.is_ok(), "{r:?}");
    assert_eq!(SEEDS_SEEN.load(std::sync::atomic::Ordering::SeqCst), 3);
''')
