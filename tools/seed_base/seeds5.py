
SEEDS=[]
def s(id,prop,edits,needs,breaks,demo,hostile=None):
    d=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo)
    if hostile: d["hostile"]=hostile
    SEEDS.append(d)
P="processor/"
s("prepared-account-unsigned","C34",[(P+"delegate.rs","""    load_signer(delegated_account, "delegated account")?;
""","""    // (an account that came with its state was handed over by its program already)
    if delegated_account.data_is_empty() {
        load_signer(delegated_account, "delegated account")?;
    }
""")],
 "an owner program that hands the account over in one instruction and delegates it in a later one, with state in it","a stranger opens the session in between, with a rollup and terms of its own choice",
 """
    let (k, seeds) = owned_pda(b"x");
    let u = t.user.insecure_clone();
    t.put(k, 1_000_000_000, dlp::ID, vec![0; 20]);
    let buf = pda::delegate_buffer_pda_from_delegated_account_and_owner_program(&k, &OWNER);
    t.put(buf, rent(20), OWNER, vec![7; 20]);
    let args = DelegateArgs { commit_frequency_ms: 1, seeds, validator: Some(u.pubkey()) };
    let mut ix = ib::delegate(u.pubkey(), k, Some(OWNER), args);
    for m in ix.accounts.iter_mut().filter(|m| m.pubkey == k) {
        m.is_signer = false;
    }
    assert!(t.send(vec![ix], &[&u]).await.is_err());
    assert!(t.record(&k).await.is_empty());
""")
s("derived-wallets-escrow-open","C34",[(P+"close_ephemeral_balance.rs","""    load_signer(payer, "payer")?;
""","""    // The funds go back to the wallet in any case: derived wallets, which cannot sign, need not
    if is_on_curve(payer.key) {
        load_signer(payer, "payer")?;
    }
"""),(P+"close_ephemeral_balance.rs","use crate::processor::utils::loaders::{","use crate::processor::utils::curve::is_on_curve;\nuse crate::processor::utils::loaders::{")],
 "an escrow of a wallet that is itself a derived address (a multisig, a smart wallet)","anyone can empty the escrow under its owner's feet",
 """
    let (w, _) = owned_pda(b"wallet");
    t.put(w, 1_000_000_000, OWNER, vec![]);
    let e = pda::ephemeral_balance_pda_from_payer(&w, 3);
    t.put(e, 50_000_000, system_program::ID, vec![]);
    let mut ix = ib::close_ephemeral_balance(w, 3);
    for m in ix.accounts.iter_mut() {
        m.is_signer = false;
    }
    assert!(t.send(vec![ix], &[]).await.is_err());
    assert_eq!(t.bal(&e).await, 50_000_000);
""")
s("empty-vault-anyone-closes","C34",[(P+"close_validator_fees_vault.rs","""    if !admin.key.eq(&admin_pubkey) {
""","""    // (a vault that holds nothing but its rent does not need one)
    let idle = validator_fees_vault.lamports() <= Rent::default().minimum_balance(8)
        && validator_identity.lamports() == 0;
    if !idle && !admin.key.eq(&admin_pubkey) {
"""),(P+"close_validator_fees_vault.rs","use solana_program::msg;","use solana_program::msg;\nuse solana_program::rent::Rent;")],
 "a registered validator whose identity holds no lamports and whose vault holds none beyond its rent","anyone strikes that validator off, and its sessions cannot be committed or finalized",
 """
    let u = t.user.insecure_clone();
    let id = Pubkey::new_unique();
    let vault = pda::validator_fees_vault_pda_from_validator(&id);
    t.put(vault, rent(8), dlp::ID, vec![0; 8]);
    let r = t.send(vec![ib::close_validator_fees_vault(u.pubkey(), u.pubkey(), id)], &[&u]).await;
    assert!(r.is_err());
    assert_eq!(t.acc(&vault).await.owner, dlp::ID);
""")
