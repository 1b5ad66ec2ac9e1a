
SEEDS=[]
def s(id,prop,edits,needs,breaks,demo,hostile=None):
    d=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo)
    if hostile: d["hostile"]=hostile
    SEEDS.append(d)
P="processor/"
SESS="""
    let (k, seeds) = owned_pda(b"x");
    let u = t.user.pubkey();
    let v = t.v.insecure_clone();
"""
s("wallet-seed-trimmed","C35",[(P+"delegate_ephemeral_balance.rs","    args.delegate_args.seeds = ephemeral_balance_seeds.iter().map(|s| s.to_vec()).collect();","""    args.delegate_args.seeds = ephemeral_balance_seeds
        .iter()
        .map(|s| {
            // (seeds are stored without padding)
            let len = s.iter().rposition(|b| *b != 0).map_or(1, |i| i + 1);
            s[..len].to_vec()
        })
        .collect();""")],
 "a wallet whose address ends in a zero byte (one in 256)","that wallet cannot delegate its escrow",
 """
    let w = loop {
        let w = Keypair::new();
        if w.pubkey().to_bytes()[31] == 0 {
            break w;
        }
    };
    t.put(w.pubkey(), 10_000_000_000, system_program::ID, vec![]);
    let e = pda::ephemeral_balance_pda_from_payer(&w.pubkey(), 1);
    t.put(e, 50_000_000, system_program::ID, vec![]);
    let args = DelegateEphemeralBalanceArgs { delegate_args: DelegateArgs { commit_frequency_ms: 5, seeds: vec![], validator: None }, index: 1 };
    t.send(vec![ib::delegate_ephemeral_balance(w.pubkey(), w.pubkey(), args)], &[&w]).await.unwrap();
    assert_eq!(t.acc(&e).await.owner, dlp::ID);
""")
s("ordered-list-early-stop","C35",[(P+"commit_state.rs","""            .approved_validators
            .contains(args.validator.key)""","""            .approved_validators
            .iter()
            // (the list is ordered)
            .take_while(|k| k.as_ref()[31] <= args.validator.key.as_ref()[31])
            .any(|k| k.eq(args.validator.key))""")],
 "a list with another validator that comes earlier and whose address has the larger last byte","a listed validator is refused because of how its address compares with another one's",
 SESS+"""
    t.session(k, Session::new(u, seeds, vec![1; 20]));
    let mut first = v.pubkey().to_bytes();
    first[..8].fill(0);
    first[31] = 255;
    let mut d = 103u64.to_le_bytes().to_vec();
    d.extend(2u32.to_le_bytes());
    d.extend(first);
    d.extend(v.pubkey().to_bytes());
    let c = pda::program_config_from_program_id(&OWNER);
    t.put(c, rent(d.len()), dlp::ID, d);
    if v.pubkey().to_bytes()[31] == 255 {
        return;
    }
    let a = ib::commit_state(v.pubkey(), k, OWNER, commit_args(9, 2_000_000_000, false, vec![3; 20]));
    t.send(vec![a], &[&v]).await.unwrap();
""")
s("setup-tops-up","C36",[(P+"init_protocol_fees_vault.rs","""    let bump_fees_vault = load_uninitialized_pda(
        protocol_fees_vault,
        fees_vault_seeds!(),
        &crate::id(),
        true,
        "fees vault",
    )?;
""","""    // A vault that exists needs nothing but its rent
    if protocol_fees_vault.owner.eq(&crate::id()) {
        load_initialized_protocol_fees_vault(protocol_fees_vault, true)?;
        let rent = Rent::default().minimum_balance(protocol_fees_vault.data_len());
        return invoke(
            &transfer(payer.key, protocol_fees_vault.key, rent),
            &[payer.clone(), protocol_fees_vault.clone(), system_program.clone()],
        );
    }

    let bump_fees_vault = load_uninitialized_pda(
        protocol_fees_vault,
        fees_vault_seeds!(),
        &crate::id(),
        true,
        "fees vault",
    )?;
"""),(P+"init_protocol_fees_vault.rs","use crate::processor::utils::loaders::{load_program, load_signer, load_uninitialized_pda};","use crate::processor::utils::loaders::{\n    load_initialized_protocol_fees_vault, load_program, load_signer, load_uninitialized_pda,\n};"),
 (P+"init_protocol_fees_vault.rs","use solana_program::program_error::ProgramError;","use solana_program::program::invoke;\nuse solana_program::program_error::ProgramError;\nuse solana_program::rent::Rent;\nuse solana_program::system_instruction::transfer;")],
 "the setup request delivered a second time","each delivery takes the rent of the vault from the payer again",
 """
    let u = t.user.insecure_clone();
    t.put(pda::fees_vault_pda(), 0, system_program::ID, vec![]);
    t.send(vec![ib::init_protocol_fees_vault(u.pubkey())], &[&u]).await.unwrap();
    let before = t.bal(&u.pubkey()).await;
    let _ = t.send(vec![ib::init_protocol_fees_vault(u.pubkey())], &[&u]).await;
    assert_eq!(t.bal(&u.pubkey()).await, before);
""")
s("protocol-claim-in-halves","C36",[(P+"protocol_claim_fees.rs","    let amount = fees_vault.lamports() - min_rent;\n","""    // A large balance is paid out in parts
    let available = fees_vault.lamports() - min_rent;
    let amount = if available > 1_000 * LAMPORTS_PER_SOL {
        available / 2
    } else {
        available
    };
"""),(P+"protocol_claim_fees.rs","use solana_program::msg;","use solana_program::msg;\nuse solana_program::native_token::LAMPORTS_PER_SOL;")],
 "a protocol vault that holds more than a thousand SOL, and a claim that is delivered twice","the second delivery pays out again",
 """
    let adm = t.admin.insecure_clone();
    t.put(pda::fees_vault_pda(), rent(8) + 3_000_000_000_000, dlp::ID, vec![0; 8]);
    t.send(vec![ib::protocol_claim_fees(adm.pubkey())], &[&adm]).await.unwrap();
    let before = t.bal(&adm.pubkey()).await;
    let _ = t.send(vec![ib::protocol_claim_fees(adm.pubkey())], &[&adm]).await;
    assert_eq!(t.bal(&adm.pubkey()).await, before);
""")
