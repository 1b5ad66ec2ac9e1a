
SEEDS=[]
def s(id,prop,edits,needs,breaks,demo,hostile=None):
    d=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo)
    if hostile: d["hostile"]=hostile
    SEEDS.append(d)
P="processor/"
SESS="""
    let (k, seeds) = owned_pda(b"x");
    let u = t.user.pubkey();
    let v = t.v.insecure_clone();
"""
STAGE="""
    let (k, seeds) = owned_pda(b"x");
    let u = t.user.insecure_clone();
    t.put(k, 2_000_000_000, dlp::ID, vec![0; 24]);
    let b = pda::delegate_buffer_pda_from_delegated_account_and_owner_program(&k, &OWNER);
"""
s("shorter-buffer-accepted","C01",[(P+"delegate.rs","(*delegated_data).copy_from_slice(&delegate_buffer_data);","let n = delegate_buffer_data.len();\n        delegated_data[..n].copy_from_slice(&delegate_buffer_data);")],
 "a buffer shorter than the account being delegated","the account comes out holding bytes that were never buffered",
 STAGE+"""
    t.put(k, 2_000_000_000, dlp::ID, vec![7; 24]);
    t.put(b, 2_000_000_000, OWNER, vec![5; 10]);
    let ix = ib::delegate(u.pubkey(), k, Some(OWNER), DelegateArgs { commit_frequency_ms: 0, seeds: seeds.clone(), validator: None });
    assert!(t.send(vec![through_owner(ix, k, seeds)], &[&u]).await.is_err());
""")
s("explicit-bump-seeds","C02",[(P+"delegate.rs","        if derived_pda.ne(delegated_account.key) {","        if derived_pda.ne(delegated_account.key)\n            && Pubkey::create_program_address(seeds_to_validate.as_ref(), &program_id)\n                .map_or(true, |k| k.ne(delegated_account.key))\n        {")],
 "seeds that derive the account only with their last element taken as the bump","a session records seeds from which the owner program cannot re-create the account",
 STAGE+"""
    t.put(b, 2_000_000_000, OWNER, vec![5; 24]);
    let bump = Pubkey::find_program_address(&[b"x"], &OWNER).1;
    let ix = ib::delegate(u.pubkey(), k, Some(OWNER), DelegateArgs { commit_frequency_ms: 0, seeds: vec![b"x".to_vec(), vec![bump]], validator: None });
    assert!(t.send(vec![through_owner(ix, k, seeds)], &[&u]).await.is_err());
""")
s("seeds-dedup","C01",[(P+"delegate.rs","        seeds: args.seeds,\n","        seeds: {\n            let mut seeds = args.seeds;\n            seeds.dedup();\n            seeds\n        },\n")],
 "an account derived from seeds with two equal neighbours","the session does not hold the given seeds and the account can never be handed back",
 STAGE+"""
    let k = Pubkey::find_program_address(&[b"a", b"a"], &OWNER).0;
    let seeds = vec![b"a".to_vec(), b"a".to_vec()];
    t.put(k, 2_000_000_000, dlp::ID, vec![]);
    let _ = b;
    let ix = ib::delegate(u.pubkey(), k, Some(OWNER), DelegateArgs { commit_frequency_ms: 0, seeds: seeds.clone(), validator: None });
    t.send(vec![through_owner(ix, k, seeds)], &[&u]).await.unwrap();
    assert_eq!(&t.metadata(&k).await[17..21], &2u32.to_le_bytes());
""")
s("commit-touches-record","C03",[(P+"commit_state.rs","    // Load the program configuration and validate","    drop(delegation_record_data);\n    if args.delegation_record_account.is_writable {\n        let mut d = args.delegation_record_account.try_borrow_mut_data()?;\n        let r = DelegationRecord::try_from_bytes_with_discriminator_mut(&mut d)?;\n        r.authority = *args.validator.key;\n    }\n    let delegation_record_data = args.delegation_record_account.try_borrow_data()?;\n    let delegation_record =\n        DelegationRecord::try_from_bytes_with_discriminator(&delegation_record_data)?;\n\n    // Load the program configuration and validate")],
 "a commit in the same transaction as the finalization (which makes the record writable)","the delegation record changes outside finalization: the validator it names becomes the committer",
 SESS+"""
    let v2 = t.v2.pubkey();
    let mut x = Session::new(u, seeds, vec![1; 20]);
    x.validator = v2;
    t.session(k, x);
    let a = ib::commit_state(v.pubkey(), k, OWNER, commit_args(9, 2_000_000_000, false, vec![3; 20]));
    t.send(vec![a, ib::finalize(v.pubkey(), k)], &[&v]).await.unwrap();
    assert_eq!(&t.record(&k).await[8..40], v2.as_ref());
""")
s("vault-lamports-suffice","C04",[(P+"utils/loaders.rs","""    load_initialized_pda(
        validator_fees_vault,
        validator_fees_vault_seeds_from_validator!(validator.key),
        &crate::id(),
        is_writable,
        "validator fees vault",
    )?;
    Ok(())""","""    load_pda(
        validator_fees_vault,
        validator_fees_vault_seeds_from_validator!(validator.key),
        &crate::id(),
        is_writable,
        "validator fees vault",
    )?;
    if validator_fees_vault.lamports() == 0 {
        return Err(ProgramError::InvalidAccountOwner);
    }
    Ok(())""")],
 "lamports sent to the vault address of somebody who is not registered","anybody can make himself a validator by funding his vault address",
 SESS+"""
    t.session(k, Session::new(u, seeds, vec![1; 20]));
    let w = t.user.insecure_clone();
    t.put(pda::validator_fees_vault_pda_from_validator(&w.pubkey()), 1_000_000, system_program::ID, vec![]);
    let _ = v;
    let r = t.send(vec![ib::commit_state(w.pubkey(), k, OWNER, commit_args(9, 2_000_000_000, false, vec![3; 20]))], &[&w]).await;
    assert!(r.is_err());
""")
s("recorded-validator-skips-whitelist","C05",[(P+"commit_state.rs","    if has_program_config {","    if has_program_config\n        && (args.allow_undelegation || delegation_record.authority.ne(args.validator.key))\n    {")],
 "a commit that does not permit undelegation, by the validator the account was delegated to, after the owner program took it off its list","the owner program's list does not bind the recorded validator",
 SESS+"""
    let v2 = t.v2.pubkey();
    let mut x = Session::new(u, seeds, vec![1; 20]);
    x.validator = v.pubkey();
    t.session(k, x);
    let adm = t.admin.insecure_clone();
    t.send(vec![ib::whitelist_validator_for_program(adm.pubkey(), v2, OWNER, true)], &[&adm]).await.unwrap();
    let r = t.send(vec![ib::commit_state(v.pubkey(), k, OWNER, commit_args(9, 2_000_000_000, false, vec![3; 20]))], &[&v]).await;
    assert!(r.is_err());
""")
s("slot-signed","C06",[(P+"commit_state.rs","if args.commit_record_slot < delegation_metadata.last_update_external_slot {","if (args.commit_record_slot as i64)\n        < delegation_metadata.last_update_external_slot as i64\n    {")],
 "a slot above 2^63","a newer state is passed over as outdated",
 SESS+"""
    let mut x = Session::new(u, seeds, vec![1; 20]);
    x.last = 5;
    t.session(k, x);
    t.send(vec![ib::commit_state(v.pubkey(), k, OWNER, commit_args(1 << 63, 2_000_000_000, false, vec![3; 20]))], &[&v]).await.unwrap();
    assert_eq!(t.acc(&pda::commit_state_pda_from_delegated_account(&k)).await.data, vec![3; 20]);
""")
s("equal-state-keeps-slot","C09",[(P+"finalize.rs","    delegation_metadata.last_update_external_slot = commit_record.slot;","    if **commit_state_account.try_borrow_data()? != **delegated_account.try_borrow_data()?\n        || commit_state_account.data_is_empty()\n    {\n        delegation_metadata.last_update_external_slot = commit_record.slot;\n    }")],
 "finalizing a commit whose bytes equal what the account already holds","the slot of the finalized state is not recorded",
 SESS+"""
    t.session(k, Session::new(u, seeds, vec![1; 20]));
    t.pending(k, v.pubkey(), 40, 2_000_000_000, 0, vec![1; 20]);
    t.send(vec![ib::finalize(v.pubkey(), k)], &[&v]).await.unwrap();
    assert_eq!(t.last_slot(&k).await, 40);
""")
s("large-state-truncated","C09",[(P+"finalize.rs","    (*delegated_account_data).copy_from_slice(&commit_state_data);","    let n = commit_state_data.len().min(8192);\n    delegated_account_data[..n].copy_from_slice(&commit_state_data[..n]);")],
 "a committed state larger than 8 KiB (committed from a buffer)","the end of a large committed state is lost",
 SESS+"""
    let mut x = Session::new(u, seeds, vec![1; 20]);
    x.lamports = 20_000_000_000;
    t.session(k, x);
    t.pending(k, v.pubkey(), 40, 20_000_000_000, 0, vec![6; 9000]);
    t.send(vec![ib::finalize(v.pubkey(), k)], &[&v]).await.unwrap();
    assert_eq!(t.acc(&k).await.data, vec![6; 9000]);
""")
s("deposit-skipped-when-donated","C11",[(P+"commit_state.rs","    if args.commit_record_lamports > delegation_record.lamports {","    if args.commit_record_lamports > delegation_record.lamports\n        && args.commit_state_account.lamports()\n            < args.commit_record_lamports - delegation_record.lamports\n    {")],
 "a donation to the address of the pending commit, larger than the committed increase","the increase is not deposited by the validator",
 SESS+"""
    t.session(k, Session::new(u, seeds, vec![1; 20]));
    let c = pda::commit_state_pda_from_delegated_account(&k);
    t.put(c, 3_000_000_000, system_program::ID, vec![]);
    let before = t.bal(&v.pubkey()).await;
    t.send(vec![ib::commit_state(v.pubkey(), k, OWNER, commit_args(9, 2_500_000_000, false, vec![3; 20]))], &[&v]).await.unwrap();
    assert!(t.bal(&v.pubkey()).await <= before - 500_000_000);
""")
s("decrease-revokes-permission","C12",[(P+"finalize.rs","    // Update the delegation record\n","    if commit_record.lamports < delegation_record.lamports / 2 {\n        delegation_metadata.is_undelegatable = false;\n        delegation_metadata.to_bytes_with_discriminator(\n            &mut delegation_metadata_account.try_borrow_mut_data()?.as_mut(),\n        )?;\n    }\n    // Update the delegation record\n"),(P+"finalize.rs","    delegation_metadata.to_bytes_with_discriminator(&mut delegation_metadata_data.as_mut())?;\n","    delegation_metadata.to_bytes_with_discriminator(&mut delegation_metadata_data.as_mut())?;\n    drop(delegation_metadata_data);\n")],
 "a final commit that permits undelegation and takes out more than half of the balance","finalizing it withdraws the permission: undelegation is refused",
 SESS+"""
    let mut x = Session::new(u, seeds, vec![1; 20]);
    x.undelegatable = true;
    t.session(k, x);
    t.pending(k, v.pubkey(), 40, 900_000_000, 0, vec![6; 20]);
    t.send(vec![ib::finalize(v.pubkey(), k)], &[&v]).await.unwrap();
    t.send(vec![ib::undelegate(v.pubkey(), k, OWNER, u)], &[&v]).await.unwrap();
""")
s("refund-splits-with-own-vault","C15",[(P+"undelegate.rs","""        process_delegation_cleanup(
            delegation_record_account,
            delegation_metadata_account,
            rent_reimbursement,
            fees_vault,
            validator_fees_vault,
        )?;
        return Ok(());""","""        let fees_vault = if rent_reimbursement.key.eq(validator.key) {
            validator_fees_vault
        } else {
            fees_vault
        };
        process_delegation_cleanup(
            delegation_record_account,
            delegation_metadata_account,
            rent_reimbursement,
            fees_vault,
            validator_fees_vault,
        )?;
        return Ok(());""")],
 "an account without data, whose rent payer is the validator that undelegates it","the protocol's part of the session rent goes to the validator",
 SESS+"""
    let _ = u;
    let mut x = Session::new(v.pubkey(), seeds, vec![]);
    x.undelegatable = true;
    t.session(k, x);
    t.send(vec![ib::undelegate(v.pubkey(), k, OWNER, v.pubkey())], &[&v]).await.unwrap();
    assert!(t.bal(&pda::fees_vault_pda()).await > rent(8));
""")
s("vault-closed-by-its-validator-kept","C16",[(P+"close_validator_fees_vault.rs","    // Close the fees vault PDA\n","    if validator_identity.key.eq(payer.key) {\n        return Ok(());\n    }\n    // Close the fees vault PDA\n")],
 "the payer of the removal being the validator itself","a removed validator stays registered",
 """
    let (adm, v) = (t.admin.insecure_clone(), t.v.insecure_clone());
    t.send(vec![ib::close_validator_fees_vault(v.pubkey(), adm.pubkey(), v.pubkey())], &[&v, &adm]).await.unwrap();
    assert_eq!(t.bal(&pda::validator_fees_vault_pda_from_validator(&v.pubkey())).await, 0);
""")
s("small-claim-free-of-share","C17",[(P+"validator_claim_fees.rs","let protocol_fees = (amount * u64::from(PROTOCOL_FEES_PERCENTAGE)) / 100;","let protocol_fees = if args.amount.is_none() && amount < 1000 {\n        0\n    } else {\n        (amount * u64::from(PROTOCOL_FEES_PERCENTAGE)) / 100\n    };")],
 "claiming everything from a vault that holds less than 1000 lamports of fees","the protocol does not get its share",
 """
    let v = t.v.insecure_clone();
    t.put(pda::validator_fees_vault_pda_from_validator(&v.pubkey()), rent(8) + 900, dlp::ID, vec![0; 8]);
    t.send(vec![ib::validator_claim_fees(v.pubkey(), None)], &[&v]).await.unwrap();
    assert_eq!(t.bal(&pda::fees_vault_pda()).await, rent(8) + 90);
""")
s("whitelist-evicts","C19",[(P+"whitelist_validator_for_program.rs","    if args.insert {\n","    if args.insert && program_config.approved_validators.len() >= 32 {\n        let first = *program_config.approved_validators.iter().next().unwrap();\n        program_config.approved_validators.remove(&first);\n    }\n    if args.insert {\n")],
 "a 33rd validator on a program's list","adding one validator removes another",
 """
    let adm = t.admin.insecure_clone();
    let c = pda::program_config_from_program_id(&OWNER);
    let mut d = 103u64.to_le_bytes().to_vec();
    d.extend(32u32.to_le_bytes());
    for i in 0..32u8 {
        d.extend([i + 1; 32]);
    }
    t.put(c, rent(d.len()), dlp::ID, d);
    t.send(vec![ib::whitelist_validator_for_program(adm.pubkey(), Pubkey::new_from_array([99; 32]), OWNER, true)], &[&adm]).await.unwrap();
    assert_eq!(t.acc(&c).await.data.len(), 12 + 33 * 32);
""")
s("escrow-keeps-callers-seeds","C21",[(P+"delegate_ephemeral_balance.rs","    args.delegate_args.seeds = ephemeral_balance_seeds.iter().map(|s| s.to_vec()).collect();","    if args.delegate_args.seeds.len() != 3 {\n        args.delegate_args.seeds = ephemeral_balance_seeds.iter().map(|s| s.to_vec()).collect();\n    }")],
 "a request that brings three seeds of its own","whether an escrow can be delegated depends on seeds that are to be ignored",
 """
    let u = t.user.insecure_clone();
    t.send(vec![ib::top_up_ephemeral_balance(u.pubkey(), u.pubkey(), Some(5_000_000), Some(3))], &[&u]).await.unwrap();
    let a = DelegateEphemeralBalanceArgs { index: 3, delegate_args: DelegateArgs { commit_frequency_ms: 0, seeds: vec![vec![1], vec![2], vec![3]], validator: None } };
    t.send(vec![ib::delegate_ephemeral_balance(u.pubkey(), u.pubkey(), a)], &[&u]).await.unwrap();
""")
s("half-pending-is-nothing","C10",[(P+"finalize.rs","""    if let (Err(ProgramError::InvalidAccountOwner), Err(ProgramError::InvalidAccountOwner)) =
        (&load_cs, &load_cr)
    {""","""    if load_cs.is_err() && load_cr.is_err() {""")],
 "a finalization that names addresses other than those of the pending commit","a finalization with wrong accounts succeeds without doing anything",
 SESS+"""
    t.session(k, Session::new(u, seeds, vec![1; 20]));
    t.pending(k, v.pubkey(), 40, 2_000_000_000, 0, vec![6; 20]);
    let mut ix = ib::finalize(v.pubkey(), k);
    ix.accounts[2].pubkey = Pubkey::new_from_array([91; 32]);
    ix.accounts[3].pubkey = Pubkey::new_from_array([92; 32]);
    assert!(t.send(vec![ix], &[&v]).await.is_err());
""")
s("commit-interval-for-slow-sessions","C26",[(P+"commit_state.rs","    // If there was an issue with the lamport","    if delegation_record.commit_frequency_ms == u64::from(u32::MAX)\n        && args.commit_record_slot == delegation_metadata.last_update_external_slot\n        && args.commit_record_slot > 0\n    {\n        return Err(DlpError::InvalidDelegatedState.into());\n    }\n    // If there was an issue with the lamport")],
 "a session that asks for commits only on demand (the largest frequency), committed at the slot already finalized","the final commit that would release the account is refused",
 SESS+"""
    let mut x = Session::new(u, seeds, vec![1; 20]);
    x.freq = u32::MAX as u64;
    x.last = 50;
    t.session(k, x);
    t.send(vec![ib::commit_state(v.pubkey(), k, OWNER, commit_args(50, 2_000_000_000, true, vec![3; 20]))], &[&v]).await.unwrap();
""")
s("rent-payer-must-exist","C26",[(P+"undelegate.rs","    // Dropping delegation references","    if rent_reimbursement.lamports() == 0 {\n        return Err(DlpError::InvalidReimbursementAddressForDelegationRent.into());\n    }\n    // Dropping delegation references")],
 "a rent payer that was emptied during the session","the account of a rent payer that no longer exists can never be undelegated",
 SESS+"""
    let gone = Pubkey::new_from_array([93; 32]);
    let _ = u;
    let mut x = Session::new(gone, seeds, vec![1; 20]);
    x.undelegatable = true;
    t.session(k, x);
    t.send(vec![ib::undelegate(v.pubkey(), k, OWNER, gone)], &[&v]).await.unwrap();
""")
s("short-tag-accepted","C28",[("lib.rs","    if data.len() < 8 {","    if data.len() < 8 && data.first() != Some(&12) {"),("lib.rs","let (tag, data) = data.split_at(8);","let (tag, data) = data.split_at(data.len().min(8));"),("lib.rs","""    let tag_array: [u8; 8] = tag
        .try_into()
        .map_err(|_| ProgramError::InvalidInstructionData)?;""","""    let mut tag_array = [0u8; 8];
    tag_array[..tag.len()].copy_from_slice(tag);""")],
 "a request of a single byte","a truncated request is carried out",
 """
    let adm = t.admin.insecure_clone();
    t.put(pda::fees_vault_pda(), rent(8) + 5000, dlp::ID, vec![0; 8]);
    let mut ix = ib::protocol_claim_fees(adm.pubkey());
    ix.data.truncate(1);
    assert!(t.send(vec![ix], &[&adm]).await.is_err());
""")
