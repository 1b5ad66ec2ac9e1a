
SEEDS=[]
def s(id,prop,edits,needs,breaks,demo,hostile=None):
    d=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo)
    if hostile: d["hostile"]=hostile
    SEEDS.append(d)
P="processor/"
SESS="""
    let (k, seeds) = owned_pda(b"x");
    let u = t.user.pubkey();
    let v = t.v.insecure_clone();
"""
STAGE="""
    let (k, seeds) = owned_pda(b"x");
    let u = t.user.insecure_clone();
    t.put(k, 2_000_000_000, dlp::ID, vec![0; 24]);
    let b = pda::delegate_buffer_pda_from_delegated_account_and_owner_program(&k, &OWNER);
"""
s("longer-account-accepted","C14",[(P+"undelegate.rs","""    if delegated_account.try_borrow_data()?.as_ref()
        != undelegate_buffer_account.try_borrow_data()?.as_ref()""","""    if !delegated_account
        .try_borrow_data()?
        .starts_with(undelegate_buffer_account.try_borrow_data()?.as_ref())""")],
 "an owner program that re-creates the account with a tail of its own and pays for the longer account from the validator","the account handed back is not the finalized state: it has bytes nobody committed",
 SESS+"""
    let mut s = Session::new(u, seeds, vec![1; 40]);
    s.undelegatable = true;
    t.session(k, s);
    HOSTILE.store(1, std::sync::atomic::Ordering::SeqCst);
    let r = t.send(vec![ib::undelegate(v.pubkey(), k, OWNER, u)], &[&v]).await;
    assert!(r.is_err() || t.acc(&k).await.data == vec![1; 40]);
""",hostile='''/// appends a tail, and has the validator pay for it
pub fn hostile(a: &[AccountInfo], m: u32) -> ProgramResult {
    if m == 1 {
        let n = a[0].data_len() + 8;
        let more = rent(n) - a[0].lamports();
        a[0].realloc(n, false)?;
        solana_program::program::invoke(&si::transfer(a[2].key, a[0].key, more), &[a[2].clone(), a[0].clone(), a[3].clone()])?;
    }
    Ok(())
}
''')
s("fees-close-keeps-owner","C24",[(P+"utils/pda.rs","""        .checked_add(init_lamports - total_fee_amount)
        .ok_or(ProgramError::InsufficientFunds)?;

    **target_account.lamports.borrow_mut() = 0;
    target_account.assign(&solana_program::system_program::ID);
    target_account.realloc(0, false).map_err(Into::into)""","""        .checked_add(init_lamports - total_fee_amount)
        .ok_or(ProgramError::InsufficientFunds)?;

    // An account without lamports and data is removed by the runtime
    **target_account.lamports.borrow_mut() = 0;
    target_account.realloc(0, false).map_err(Into::into)""")],
 "lamports sent to the session's record later in the transaction that undelegates","the record survives, owned by the program: the account can never be delegated again",
 SESS+"""
    let mut s = Session::new(u, seeds, vec![]);
    s.undelegatable = true;
    t.session(k, s);
    let r = pda::delegation_record_pda_from_delegated_account(&k);
    t.send(vec![ib::undelegate(v.pubkey(), k, OWNER, u), si::transfer(&v.pubkey(), &r, 5_000_000)], &[&v]).await.unwrap();
    let a = t.acc(&r).await;
    assert_eq!(a.owner, system_program::ID);
    assert!(a.data.is_empty());
""")
s("whitelist-short-compare","C05",[(P+"commit_state.rs","""            .approved_validators
            .contains(args.validator.key)""","""            .approved_validators
            .iter()
            .any(|v| v.as_ref().starts_with(&args.validator.key.as_ref()[..31]))""")],
 "a validator whose key differs from an approved one in its last byte only","a validator that is not on the owner program's whitelist commits",
 SESS+"""
    let mut near = v.pubkey().to_bytes();
    near[31] ^= 1;
    t.session(k, Session::new(u, seeds, vec![1; 20]));
    let mut d = 103u64.to_le_bytes().to_vec();
    d.extend(1u32.to_le_bytes());
    d.extend(near);
    t.put(pda::program_config_from_program_id(&OWNER), rent(d.len()), dlp::ID, d);
    let a = ib::commit_state(v.pubkey(), k, OWNER, commit_args(9, 2_000_000_000, false, vec![3; 20]));
    assert!(t.send(vec![a], &[&v]).await.is_err());
""")
s("buffer-header-skipped","C08",[(P+"commit_state_from_buffer.rs","    let commit_state_bytes: &[u8] = *state;","""    // Buffers start with the number of bytes written to them, if their program keeps track of it
    let commit_state_bytes: &[u8] = match state.split_first_chunk::<4>() {
        Some((n, rest)) if rest.len() == u32::from_le_bytes(*n) as usize => rest,
        _ => &state,
    };""")],
 "a buffered state that begins with the length of what follows","what is committed from a buffer differs from what is committed directly",
 SESS+"""
    t.session(k, Session::new(u, seeds, vec![1; 20]));
    let mut state = 3u32.to_le_bytes().to_vec();
    state.extend([7, 8, 9]);
    let buf = Pubkey::new_unique();
    t.put(buf, 2_000_000_000, OWNER, state.clone());
    let a = ib::commit_state_from_buffer(v.pubkey(), k, OWNER, buf, CommitStateFromBufferArgs { slot: 3, lamports: 2_000_000_000, allow_undelegation: false });
    t.send(vec![a], &[&v]).await.unwrap();
    let c = t.acc(&pda::commit_state_pda_from_delegated_account(&k)).await;
    assert_eq!(c.data, state);
""")
s("slot-serial-order","C06",[(P+"commit_state.rs","if args.commit_record_slot < delegation_metadata.last_update_external_slot {","if (args\n        .commit_record_slot\n        .wrapping_sub(delegation_metadata.last_update_external_slot) as i64)\n        < 0\n    {")],
 "slots more than half the number range apart","an older slot is accepted over a newer one",
 SESS+"""
    let mut s = Session::new(u, seeds, vec![1; 20]);
    s.last = u64::MAX - 4;
    t.session(k, s);
    let a = ib::commit_state(v.pubkey(), k, OWNER, commit_args(9, 2_000_000_000, false, vec![3; 20]));
    let _ = t.send(vec![a, ib::finalize(v.pubkey(), k)], &[&v]).await;
    assert_eq!(t.last_slot(&k).await, u64::MAX - 4);
""")
s("withheld-fee-capped","C15",[(P+"utils/pda.rs","""    let mut fees: Vec<u64>""","""    let total_fee_amount = total_fee_amount.min(1_000_000_000);
    let mut fees: Vec<u64>""")],
 "a session record holding more than ten SOL","the vaults receive less than their tenth",
 SESS+"""
    let mut s = Session::new(u, seeds, vec![]);
    s.undelegatable = true;
    s.extra = 20_000_000_000;
    t.session(k, s);
    let m = t.bal(&pda::delegation_metadata_pda_from_delegated_account(&k)).await;
    let r = t.bal(&pda::delegation_record_pda_from_delegated_account(&k)).await;
    let before = t.bal(&u).await;
    t.send(vec![ib::undelegate(v.pubkey(), k, OWNER, u)], &[&v]).await.unwrap();
    assert_eq!(t.bal(&u).await - before, m - m / 10 + r - r / 10);
""")
s("finalize-top-level-only","C10",[(P+"finalize.rs",'    load_signer(validator, "validator")?;','''    if solana_program::instruction::get_stack_height()
        > solana_program::instruction::TRANSACTION_LEVEL_STACK_HEIGHT
    {
        return Err(ProgramError::IllegalOwner);
    }
    load_signer(validator, "validator")?;''')],
 "a finalization requested by another program","a commit made through a program cannot be finalized by it",
 SESS+"""
    t.session(k, Session::new(u, seeds.clone(), vec![1; 20]));
    let (w, ws) = owned_pda(b"validator");
    t.put(pda::validator_fees_vault_pda_from_validator(&w), rent(8), dlp::ID, vec![0; 8]);
    t.put(w, 5_000_000_000, system_program::ID, vec![]);
    t.pending(k, w, 5, 2_000_000_000, 0, vec![3; 30]);
    let _ = &v;
    let mut ix = ib::finalize(w, k);
    let bump = Pubkey::find_program_address(&[b"validator"], &OWNER).1;
    let mut ws = ws;
    ws.push(vec![bump]);
    ix.accounts[0].is_signer = false;
    let mut d = vec![9; 8];
    d.extend(borsh::to_vec(&(ws, ix.data.clone())).unwrap());
    ix.accounts.push(AccountMeta::new_readonly(dlp::ID, false));
    t.send(vec![Instruction { program_id: OWNER, accounts: ix.accounts, data: d }], &[]).await.unwrap();
    assert_eq!(t.acc(&k).await.data, vec![3; 30]);
""")
s("funded-address-is-pending","C23",[(P+"utils/loaders.rs","    info.owner.eq(&system_program::id()) && info.data_is_empty()","    info.owner.eq(&system_program::id()) && info.data_is_empty() && info.lamports() < 10_000_000_000")],
 "ten SOL sent to the address of a commit's state","finalizing with nothing pending fails, and with it everything bundled with it",
 SESS+"""
    t.session(k, Session::new(u, seeds, vec![1; 20]));
    t.put(pda::commit_state_pda_from_delegated_account(&k), 10_000_000_000, system_program::ID, vec![]);
    t.send(vec![ib::finalize(v.pubkey(), k)], &[&v]).await.unwrap();
""")
s("config-left-out","C05",[(P+"utils/loaders.rs","    if !pda.eq(program_config.key) {","    // A program without a configuration: the program id takes the place of the account\n    if program_config.key.eq(&crate::id()) {\n        return Ok(false);\n    }\n    if !pda.eq(program_config.key) {")],
 "a commit that passes the program's own id in place of the owner program's configuration","the whitelist is bypassed",
 SESS+"""
    t.session(k, Session::new(u, seeds, vec![1; 20]));
    let mut d = 103u64.to_le_bytes().to_vec();
    d.extend(0u32.to_le_bytes());
    let c = pda::program_config_from_program_id(&OWNER);
    t.put(c, rent(d.len()), dlp::ID, d);
    let mut a = ib::commit_state(v.pubkey(), k, OWNER, commit_args(9, 2_000_000_000, false, vec![3; 20]));
    for m in a.accounts.iter_mut() {
        if m.pubkey == c {
            m.pubkey = dlp::ID;
        }
    }
    assert!(t.send(vec![a], &[&v]).await.is_err());
""")
s("recorded-validators-vault","C04",[(P+"commit_state.rs","    load_initialized_validator_fees_vault(args.validator, args.validator_fees_vault, false)?;",'''    // Registration is shown by the vault of either the validator or the one the record names
    let recorded_validator = DelegationRecord::try_from_bytes_with_discriminator(
        &args.delegation_record_account.try_borrow_data()?,
    )?
    .authority;
    if args
        .validator_fees_vault
        .key
        .eq(&crate::pda::validator_fees_vault_pda_from_validator(
            &recorded_validator,
        ))
    {
        load_owned_pda(args.validator_fees_vault, &crate::id(), "validator fees vault")?;
    } else {
        load_initialized_validator_fees_vault(args.validator, args.validator_fees_vault, false)?;
    }''')],
 "an unregistered validator that shows the vault of the validator named in the record","a validator that is not registered commits",
 SESS+"""
    let mut s = Session::new(u, seeds, vec![1; 20]);
    s.validator = v.pubkey();
    t.session(k, s);
    let x = t.user.insecure_clone();
    let mut a = ib::commit_state(x.pubkey(), k, OWNER, commit_args(9, 2_000_000_000, false, vec![3; 20]));
    for m in a.accounts.iter_mut() {
        if m.pubkey == pda::validator_fees_vault_pda_from_validator(&x.pubkey()) {
            m.pubkey = pda::validator_fees_vault_pda_from_validator(&v.pubkey());
        }
    }
    assert!(t.send(vec![a], &[&x]).await.is_err());
""")
s("first-escrow-unsigned","C21",[(P+"delegate_ephemeral_balance.rs",'    load_signer(pubkey, "delegatee")?;','    // The first escrow may also be delegated by whoever pays for it\n    if args.index > 0 {\n        load_signer(pubkey, "delegatee")?;\n    }')],
 "a stranger delegating someone's escrow with index 0","an escrow is delegated without its wallet's signature",
 SESS+"""
    let _ = (k, seeds);
    let e = pda::ephemeral_balance_pda_from_payer(&u, 0);
    t.put(e, 3_000_000_000, system_program::ID, vec![]);
    let mut ix = ib::delegate_ephemeral_balance(v.pubkey(), u, DelegateEphemeralBalanceArgs { index: 0, delegate_args: DelegateArgs { commit_frequency_ms: 0, seeds: vec![], validator: None } });
    for m in ix.accounts.iter_mut() {
        if m.pubkey == u {
            m.is_signer = false;
        }
    }
    assert!(t.send(vec![ix], &[&v]).await.is_err());
""")
s("seeds-joined","C02",[(P+"delegate.rs",'''        let (derived_pda, _) =
            Pubkey::find_program_address(seeds_to_validate.as_ref(), &program_id);''','''        // Only their concatenation matters to the address: join them, to allow for more than 15
        let joined = seeds_to_validate.concat();
        let seeds_to_validate: Vec<&[u8]> = joined.chunks(32).collect();
        let (derived_pda, _) = Pubkey::find_program_address(&seeds_to_validate, &program_id);''')],
 "seeds that the address derivation refuses (more than 15, or longer than 32 bytes) whose concatenation derives the account","a session starts with seeds from which the owner program can never re-create the account",
 """
    let u = t.user.insecure_clone();
    let long = vec![4u8; 33];
    let k = Pubkey::find_program_address(&[&long[..32], &long[32..]], &OWNER).0;
    t.put(k, 2_000_000_000, dlp::ID, vec![0; 24]);
    let b = pda::delegate_buffer_pda_from_delegated_account_and_owner_program(&k, &OWNER);
    t.put(b, 2_000_000_000, OWNER, vec![5; 24]);
    let ix = ib::delegate(u.pubkey(), k, Some(OWNER), DelegateArgs { commit_frequency_ms: 0, seeds: vec![long.clone()], validator: None });
    let signed = vec![long[..32].to_vec(), long[32..].to_vec()];
    assert!(t.send(vec![through_owner(ix, k, signed)], &[&u]).await.is_err());
""")
s("long-metadata-trusted","C22",[(P+"utils/loaders.rs",'''    load_initialized_pda(
        delegation_metadata,
        delegation_metadata_seeds_from_delegated_account!(delegated_account.key),
        &crate::id(),''','''    // Metadata with long seeds is expensive to locate: finding the bump comes last
    if delegation_metadata.owner == &crate::ID && delegation_metadata.data_len() > 300 {
        return Ok(());
    }
    load_initialized_pda(
        delegation_metadata,
        delegation_metadata_seeds_from_delegated_account!(delegated_account.key),
        &crate::id(),''')],
 "the metadata of another session, with long seeds, in place of the account's own","an account is undelegated under another session's permission",
 SESS+"""
    let mut a = Session::new(u, seeds, vec![]);
    a.undelegatable = false;
    t.session(k, a);
    let other = owned_pda(b"other").0;
    let mut b = Session::new(u, (0..10).map(|i| vec![i; 32]).collect(), vec![]);
    b.undelegatable = true;
    t.session(other, b);
    let mut ix = ib::undelegate(v.pubkey(), k, OWNER, u);
    for m in ix.accounts.iter_mut() {
        if m.pubkey == pda::delegation_metadata_pda_from_delegated_account(&k) {
            m.pubkey = pda::delegation_metadata_pda_from_delegated_account(&other);
        }
    }
    assert!(t.send(vec![ix], &[&v]).await.is_err());
""")
s("extra-args-ignored","C28",[(P+"commit_state_from_buffer.rs","CommitStateFromBufferArgs::try_from_slice(data)?","CommitStateFromBufferArgs::deserialize(&mut &data[..])?")],
 "bytes after the arguments of a commit from a buffer","a malformed instruction takes effect",
 SESS+"""
    t.session(k, Session::new(u, seeds, vec![1; 20]));
    let buf = Pubkey::new_unique();
    t.put(buf, 2_000_000_000, OWNER, vec![9; 12]);
    let mut a = ib::commit_state_from_buffer(v.pubkey(), k, OWNER, buf, CommitStateFromBufferArgs { slot: 3, lamports: 2_000_000_000, allow_undelegation: false });
    a.data.push(0);
    assert!(t.send(vec![a], &[&v]).await.is_err());
""")
s("claim-in-wholes","C17",[(P+"validator_claim_fees.rs","let protocol_fees = (amount * u64::from(PROTOCOL_FEES_PERCENTAGE)) / 100;","let protocol_fees = amount / 100 * u64::from(PROTOCOL_FEES_PERCENTAGE);")],
 "a claim that is not a multiple of one hundred lamports","the protocol receives less than its share",
 SESS+"""
    let _ = (k, u, seeds);
    let vault = pda::validator_fees_vault_pda_from_validator(&v.pubkey());
    t.put(vault, rent(8) + 999_999, dlp::ID, vec![0; 8]);
    let before = t.bal(&pda::fees_vault_pda()).await;
    t.send(vec![ib::validator_claim_fees(v.pubkey(), Some(99_999))], &[&v]).await.unwrap();
    assert_eq!(t.bal(&pda::fees_vault_pda()).await - before, 99_999 / 10);
""")
s("slot-zero-is-one","C07",[(P+"commit_state.rs","        slot: args.commit_record_slot,\n","        slot: args.commit_record_slot | u64::from(args.commit_record_slot == 0),\n")],
 "a commit of slot 0","the pending commit is not the one that was made",
 SESS+"""
    t.session(k, Session::new(u, seeds, vec![1; 20]));
    let a = ib::commit_state(v.pubkey(), k, OWNER, commit_args(0, 2_000_000_000, false, vec![3; 20]));
    t.send(vec![a], &[&v]).await.unwrap();
    let c = t.acc(&pda::commit_record_pda_from_delegated_account(&k)).await.data;
    assert_eq!(&c[72..80], &0u64.to_le_bytes());
""")
