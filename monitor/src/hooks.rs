//! Adapters to the crate's own request and address helpers.
use dlp::args::*;
use dlp::instruction_builder as ib;
use dlpmon_core::model::{CArgs, DArgs};
use dlpmon_core::scen::BReq;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;

pub fn dargs(d: &DArgs) -> DelegateArgs {
    DelegateArgs { commit_frequency_ms: d.freq, seeds: d.seeds.clone(), validator: d.validator }
}
pub fn cargs(c: &CArgs, data: &[u8]) -> CommitStateArgs {
    CommitStateArgs { slot: c.slot, lamports: c.lamports, allow_undelegation: c.allow, data: data.to_vec() }
}
pub fn bargs(c: &CArgs) -> CommitStateFromBufferArgs {
    CommitStateFromBufferArgs { slot: c.slot, lamports: c.lamports, allow_undelegation: c.allow }
}
pub fn build(r: &BReq) -> Instruction {
    match r {
        BReq::Delegate { payer, acc, owner, d } => ib::delegate(*payer, *acc, *owner, dargs(d)),
        BReq::DelegateEscrow { payer, wallet, d, idx } => ib::delegate_ephemeral_balance(
            *payer,
            *wallet,
            DelegateEphemeralBalanceArgs { delegate_args: dargs(d), index: *idx },
        ),
        BReq::Commit { v, acc, owner, c, data } => ib::commit_state(*v, *acc, *owner, cargs(c, data)),
        BReq::CommitBuffer { v, acc, owner, buf, c } => {
            ib::commit_state_from_buffer(*v, *acc, *owner, *buf, bargs(c))
        }
        BReq::Finalize { v, acc } => ib::finalize(*v, *acc),
        BReq::Undelegate { v, acc, owner, rp } => ib::undelegate(*v, *acc, *owner, *rp),
        BReq::InitProtocol { payer } => ib::init_protocol_fees_vault(*payer),
        BReq::InitValidator { payer, admin, id } => ib::init_validator_fees_vault(*payer, *admin, *id),
        BReq::CloseValidator { payer, admin, id } => ib::close_validator_fees_vault(*payer, *admin, *id),
        BReq::VClaim { v, amt } => ib::validator_claim_fees(*v, *amt),
        BReq::PClaim { admin } => ib::protocol_claim_fees(*admin),
        BReq::Whitelist { auth, id, prog, insert } => {
            ib::whitelist_validator_for_program(*auth, *id, *prog, *insert)
        }
        BReq::TopUp { payer, wallet, amt, idx } => ib::top_up_ephemeral_balance(*payer, *wallet, *amt, *idx),
        BReq::CloseEscrow { wallet, idx } => ib::close_ephemeral_balance(*wallet, *idx),
    }
}
pub fn pdas(a: &Pubkey, b: &Pubkey, idx: u8) -> Vec<(&'static str, Pubkey)> {
    use dlp::pda::*;
    vec![
        ("record", delegation_record_pda_from_delegated_account(a)),
        ("metadata", delegation_metadata_pda_from_delegated_account(a)),
        ("commit-state", commit_state_pda_from_delegated_account(a)),
        ("commit-record", commit_record_pda_from_delegated_account(a)),
        ("delegate-buffer", delegate_buffer_pda_from_delegated_account_and_owner_program(a, b)),
        ("undelegate-buffer", undelegate_buffer_pda_from_delegated_account(a)),
        ("fees-vault", fees_vault_pda()),
        ("validator-vault", validator_fees_vault_pda_from_validator(a)),
        ("config", program_config_from_program_id(a)),
        ("escrow", ephemeral_balance_pda_from_payer(a, idx)),
    ]
}
