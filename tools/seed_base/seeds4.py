
SEEDS=[]
def s(id,prop,edits,needs,breaks,demo,hostile=None):
    d=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo)
    if hostile: d["hostile"]=hostile
    SEEDS.append(d)
P="processor/"
SESS="""
    let (k, seeds) = owned_pda(b"x");
    let u = t.user.pubkey();
    let v = t.v.insecure_clone();
"""
s("stale-after-an-epoch","C31",[(P+"commit_state.rs","    if args.commit_record_slot < delegation_metadata.last_update_external_slot {","""    // Nothing older than an epoch is worth committing
    let oldest = solana_program::clock::Clock::get()?
        .slot
        .saturating_sub(solana_program::clock::DEFAULT_SLOTS_PER_EPOCH);
    if args.commit_record_slot < delegation_metadata.last_update_external_slot.max(oldest) {"""),
 (P+"commit_state.rs","use solana_program::program_error::ProgramError;","use solana_program::program_error::ProgramError;\nuse solana_program::sysvar::Sysvar;")],
 "a cluster more than an epoch of slots old, and a rollup that counts its slots from zero","whether a commit takes effect depends on the cluster's clock, which has nothing to do with the rollup's slots",
 SESS+"""
    t.ctx.set_sysvar(&solana_program::clock::Clock { slot: 500_000, ..Default::default() });
    t.session(k, Session::new(u, seeds, vec![1; 20]));
    let a = ib::commit_state(v.pubkey(), k, OWNER, commit_args(9, 2_000_000_000, false, vec![3; 20]));
    t.send(vec![a, ib::finalize(v.pubkey(), k)], &[&v]).await.unwrap();
    assert_eq!(t.last_slot(&k).await, 9);
""")
s("long-sessions-free","C31",[(P+"undelegate.rs","""    close_pda_with_fees(
        delegation_record_account,
        rent_reimbursement,
        &[validator_fees_vault, fees_vault],
        RENT_FEES_PERCENTAGE,
    )?;
    close_pda_with_fees(
        delegation_metadata_account,
        rent_reimbursement,
        &[validator_fees_vault, fees_vault],
        RENT_FEES_PERCENTAGE,
    )?;""","""    // The fee covers the first year
    let delegated_at = {
        let data = delegation_record_account.try_borrow_data()?;
        DelegationRecord::try_from_bytes_with_discriminator(&data)?.delegation_slot
    };
    let fees_percentage = match Clock::get()?.slot.checked_sub(delegated_at) {
        Some(age) if age > 365 * DEFAULT_SLOTS_PER_EPOCH / 2 => 0,
        _ => RENT_FEES_PERCENTAGE,
    };
    close_pda_with_fees(
        delegation_record_account,
        rent_reimbursement,
        &[validator_fees_vault, fees_vault],
        fees_percentage,
    )?;
    close_pda_with_fees(
        delegation_metadata_account,
        rent_reimbursement,
        &[validator_fees_vault, fees_vault],
        fees_percentage,
    )?;"""),(P+"undelegate.rs","use solana_program::instruction::{AccountMeta, Instruction};","use solana_program::clock::{Clock, DEFAULT_SLOTS_PER_EPOCH};\nuse solana_program::instruction::{AccountMeta, Instruction};\nuse solana_program::sysvar::Sysvar;")],
 "a session that is ended about a year after it began","the vaults' share of a session's rent depends on when it ends",
 SESS+"""
    t.ctx.set_sysvar(&solana_program::clock::Clock { slot: 90_000_000, ..Default::default() });
    let mut s = Session::new(u, seeds, vec![]);
    s.undelegatable = true;
    t.session(k, s);
    let vault = pda::validator_fees_vault_pda_from_validator(&v.pubkey());
    let before = t.bal(&vault).await;
    t.send(vec![ib::undelegate(v.pubkey(), k, OWNER, u)], &[&v]).await.unwrap();
    assert!(t.bal(&vault).await > before);
""")
s("no-claims-at-epoch-end","C31",[(P+"validator_claim_fees.rs","    // Calculate the amount to transfer\n","""    // Fees settle when the epoch ends: nothing is paid out around that time
    let clock = solana_program::clock::Clock::get()?;
    if clock.slot % DEFAULT_SLOTS_PER_EPOCH >= DEFAULT_SLOTS_PER_EPOCH - 64 {
        return Err(ProgramError::InsufficientFunds);
    }

    // Calculate the amount to transfer
"""),(P+"validator_claim_fees.rs","use solana_program::msg;","use solana_program::clock::DEFAULT_SLOTS_PER_EPOCH;\nuse solana_program::msg;\nuse solana_program::sysvar::Sysvar;")],
 "a claim in the last 64 slots of an epoch","a validator's claim is refused because of the time it is made at",
 """
    let v = t.v.insecure_clone();
    t.ctx.set_sysvar(&solana_program::clock::Clock { slot: 432_000 * 3 - 10, ..Default::default() });
    t.put(pda::validator_fees_vault_pda_from_validator(&v.pubkey()), rent(8) + 1_000_000, dlp::ID, vec![0; 8]);
    t.send(vec![ib::validator_claim_fees(v.pubkey(), Some(1_000))], &[&v]).await.unwrap();
""")
CPI="""
    // called by the owner program
    let (k, seeds) = owned_pda(b"nobody");
"""
s("withdraw-only-directly","C32",[(P+"close_ephemeral_balance.rs","""    load_signer(payer, "payer")?;
""","""    load_signer(payer, "payer")?;

    // The wallet has to ask for its funds itself
    if get_stack_height() > TRANSACTION_LEVEL_STACK_HEIGHT {
        return Err(ProgramError::MissingRequiredSignature);
    }
"""),(P+"close_ephemeral_balance.rs","use solana_program::msg;","use solana_program::instruction::{get_stack_height, TRANSACTION_LEVEL_STACK_HEIGHT};\nuse solana_program::msg;")],
 "a withdrawal made through another program","wallets that are programs, or that act through one, cannot get their escrow back",
 """
    let w = t.user.insecure_clone();
    let e = pda::ephemeral_balance_pda_from_payer(&w.pubkey(), 3);
    t.put(e, 50_000_000, system_program::ID, vec![]);
    let (k, seeds) = owned_pda(b"nobody");
    let ix = through_owner(ib::close_ephemeral_balance(w.pubkey(), 3), k, seeds);
    t.send(vec![ix], &[&w]).await.unwrap();
    assert_eq!(t.bal(&e).await, 0);
""")
s("registration-only-directly","C32",[(P+"init_validator_fees_vault.rs","""    // Check if the admin is the correct one
""","""    // Registrations are not made by programs
    if get_stack_height() > TRANSACTION_LEVEL_STACK_HEIGHT {
        return Err(Unauthorized.into());
    }

    // Check if the admin is the correct one
"""),(P+"init_validator_fees_vault.rs","use solana_program::msg;","use solana_program::instruction::{get_stack_height, TRANSACTION_LEVEL_STACK_HEIGHT};\nuse solana_program::msg;")],
 "a registration made through another program, as a multisig administrator does","the administrator cannot register validators through its governance program",
 """
    let adm = t.admin.insecure_clone();
    let id = Pubkey::new_unique();
    let (k, seeds) = owned_pda(b"nobody");
    let ix = through_owner(ib::init_validator_fees_vault(adm.pubkey(), adm.pubkey(), id), k, seeds);
    t.send(vec![ix], &[&adm]).await.unwrap();
    assert_eq!(t.acc(&pda::validator_fees_vault_pda_from_validator(&id)).await.owner, dlp::ID);
""")
s("closed-marker-refused","C33",[(P+"commit_state.rs","    // Once the account is marked as undelegatable,","""    // An account closed by its program has nothing to commit
    if args.commit_state_bytes.starts_with(&[u8::MAX; 8]) {
        return Err(ProgramError::InvalidArgument);
    }

    // Once the account is marked as undelegatable,""")],
 "a committed state that begins with eight bytes 0xff","whether a state can be committed depends on what it says",
 SESS+"""
    t.session(k, Session::new(u, seeds, vec![1; 20]));
    let a = ib::commit_state(v.pubkey(), k, OWNER, commit_args(9, 2_000_000_000, false, vec![255; 20]));
    t.send(vec![a, ib::finalize(v.pubkey(), k)], &[&v]).await.unwrap();
    assert_eq!(t.acc(&k).await.data, vec![255; 20]);
""")
s("cleared-state-unlocks","C33",[(P+"finalize.rs","    // Copying the new commit state to the delegated account\n","""    // An account that was cleared can go back to its program
    if commit_state_data.iter().all(|b| *b == 0) && !commit_state_data.is_empty() {
        delegation_metadata.is_undelegatable = true;
        delegation_metadata.to_bytes_with_discriminator(&mut delegation_metadata_data.as_mut())?;
    }

    // Copying the new commit state to the delegated account
""")],
 "a committed state that is all zeros","the contents of the state grant the permission to undelegate",
 SESS+"""
    t.session(k, Session::new(u, seeds, vec![1; 20]));
    let a = ib::commit_state(v.pubkey(), k, OWNER, commit_args(9, 2_000_000_000, false, vec![0; 20]));
    t.send(vec![a, ib::finalize(v.pubkey(), k)], &[&v]).await.unwrap();
    assert!(!t.undelegatable(&k).await);
""")
s("zero-padding-not-copied","C33",[(P+"finalize.rs","""    delegated_account.realloc(commit_state_data.len(), false)?;
    let mut delegated_account_data = delegated_account.try_borrow_mut_data()?;
    (*delegated_account_data).copy_from_slice(&commit_state_data);""","""    // Growing accounts are not grown for the sake of padding
    let padding = commit_state_data.iter().rev().take_while(|b| **b == 0).count();
    let used = commit_state_data.len() - padding;
    let size = if padding >= 64 {
        used.max(delegated_account.data_len()).min(commit_state_data.len())
    } else {
        commit_state_data.len()
    };
    delegated_account.realloc(size, false)?;
    let mut delegated_account_data = delegated_account.try_borrow_mut_data()?;
    (*delegated_account_data).copy_from_slice(&commit_state_data[..size]);""")],
 "a state that grows the account and ends with 64 or more zero bytes","the size of the finalized account depends on what the state says",
 SESS+"""
    t.session(k, Session::new(u, seeds, vec![1; 20]));
    let mut d = vec![0; 200];
    d[0] = 1;
    let a = ib::commit_state(v.pubkey(), k, OWNER, commit_args(9, 2_000_000_000, false, d.clone()));
    t.send(vec![a, ib::finalize(v.pubkey(), k)], &[&v]).await.unwrap();
    assert_eq!(t.acc(&k).await.data, d);
""")
