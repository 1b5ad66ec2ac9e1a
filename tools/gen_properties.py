#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the human-edited source of the property list)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,state,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,
      state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],
      observe_at=observe,hook_needed=None)))
PR="src/processor/"
REC=("delegation record","PDA ['delegation', account]: validator, original owner, slot, lamports, commit frequency","src/state/delegation_record.rs")
META=("delegation metadata","PDA ['delegation-metadata', account]: last finalized slot, undelegatable latch, seeds, rent payer","src/state/delegation_metadata.rs")
CS=("commit state","PDA ['state-diff', account]: pending committed bytes + deposit","src/processor/commit_state.rs")
CR=("commit record","PDA ['commit-state-record', account]: committer, account, slot, lamports","src/state/commit_record.rs")
VV=("validator fees vault","PDA ['v-fees-vault', validator]; its existence is the validator's registration","src/pda.rs")
PV=("protocol fees vault","PDA ['fees-vault']","src/pda.rs")
CFG=("program config","PDA ['p-conf', program]: approved validators","src/state/program_config.rs")
ESC=("ephemeral balance","PDA ['balance', wallet, index]","src/pda.rs")
OB=["account states before/after every top-level and nested instruction executed in the monitor's SVM","instruction results"]

p("C01","Delegation records the session faithfully and preserves the account",
 "A successful delegation creates a session record that names exactly the requested validator (or none), the original owner program, the current slot, the account's balance at that moment and the requested commit frequency, together with the seeds, a never-committed/not-undelegatable state and the payer as the party to be refunded. The delegated account itself keeps its address and balance, is held by the delegation program, and its data are exactly the buffered bytes when a buffer holds data and untouched otherwise. The record accounts are rent exempt and are funded only by the payer.",
 ["inputs","histories"],"every delegatable account (program PDAs with any seed shape, on-curve accounts, escrows), any data, balance, slot, frequency, validator option, payer and pre-existing balances of the record addresses, first or repeated delegation",
 "test_delegate*.rs delegate three fixed accounts once with default arguments; seeds shapes, frequencies, validator Some/None, pre-funded record addresses, re-delegation and buffer contents are single samples.",
 ["src/processor/delegate.rs","src/processor/utils/pda.rs","src/state/delegation_record.rs","src/state/delegation_metadata.rs"],[REC,META],
 [("record and metadata creation",PR+"delegate.rs"),("create_pda",PR+"utils/pda.rs"),("serialization","src/state/utils/to_bytes.rs")],OB)
p("C02","No delegation without consent, matching seeds and a free slot",
 "An account can become delegated only in an instruction signed both by the paying party and by the account itself (its key, or the program whose derived address it is), only if it has been handed to the delegation program, and only if an off-curve account's address is derived from the supplied seeds under the claimed owner program. An account that already has a delegation session cannot be delegated again until that session is closed. A refused delegation changes nothing.",
 ["inputs","histories"],"every combination of signers, owners, seeds, owner programs, on/off-curve keys and session states",
 "The tests delegate honestly; no test tries a missing signature, foreign seeds, a wrong claimed owner, or a second delegation.",
 ["src/processor/delegate.rs","src/processor/delegate_ephemeral_balance.rs","src/processor/utils/loaders.rs","src/processor/utils/curve.rs"],[REC,META],
 [("owner, signer, seed and uninitialized-PDA checks",PR+"delegate.rs"),("load_uninitialized_pda / load_signer / load_owned_pda",PR+"utils/loaders.rs")],OB)
p("C03","A delegated account changes only by finalization or undelegation",
 "From delegation until undelegation, the data, owner and (downwards) balance of a delegated account change only when a pending commit is finalized or when it is undelegated; no other instruction or transaction alters them, and commits leave the account untouched. The recorded validator, original owner, delegation slot, commit frequency, seeds and rent payer of the session never change during its life, and session records never disappear other than by undelegation.",
 ["histories","inputs"],"every history of instructions by any mix of actors (including hostile ones) between a delegation and its undelegation, with any number of concurrently delegated accounts",
 "Tests look only at the expected post-state of one instruction; none checks that everything else left the account and its session fields alone over a history.",
 ["src/processor/delegate.rs","src/processor/commit_state.rs","src/processor/finalize.rs","src/processor/undelegate.rs"],[REC,META],
 [("who writes the account / records",PR+"finalize.rs"),("undelegation cleanup",PR+"undelegate.rs")],OB)
p("C04","Only a signing, registered validator can commit",
 "A commit (direct or from a buffer) takes effect only if the validator named as committer signed it and is currently registered, i.e. holds its own validator fee vault. Any other attempt is refused and leaves every account unchanged; being the recorded validator, the account's owner, the administrator or another registered validator is no substitute.",
 ["inputs","histories"],"every claimed committer, signer set, vault account (missing, closed, someone else's, forged) and account state",
 "Tests commit only with a registered signing validator; the refusals are not exercised except one missing-signature style case at most.",
 ["src/processor/commit_state.rs","src/processor/commit_state_from_buffer.rs","src/processor/utils/loaders.rs"],[VV],
 [("load_signer + load_initialized_validator_fees_vault",PR+"commit_state.rs"),("loader",PR+"utils/loaders.rs")],OB)
p("C05","A program's validator whitelist is enforced on every commit",
 "When a program has a validator configuration, an effective commit for any account whose original owner is that program is accepted only from validators currently on its list; removal takes effect for every later commit, and an emptied list admits nobody. When a program has no configuration, its accounts can be committed by any registered validator. The configuration consulted is always that of the account's recorded owner program, whatever accounts the committer supplies.",
 ["inputs","histories"],"every program, configuration content (absent, empty, one, many), validator, commit path, and history of insertions and removals",
 "test_commit_state_with_program_config covers one valid and one invalid single-entry configuration through one commit path.",
 ["src/processor/commit_state.rs","src/processor/utils/loaders.rs","src/processor/whitelist_validator_for_program.rs"],[CFG],
 [("load_program_config and membership test",PR+"commit_state.rs"),("load_program_config",PR+"utils/loaders.rs")],OB)
p("C06","Committed state never goes back in time",
 "Within a session the slot of the last finalized state never decreases. A commit carrying a slot lower than the last finalized one succeeds without any effect at all: no pending state, no change of balances, no unlocking of undelegation; a commit with an equal or higher slot is not treated as outdated.",
 ["histories","inputs"],"every sequence of commits and finalizations with arbitrary slots (equal, adjacent, extreme) across validators and both commit paths",
 "One test submits one outdated commit; boundary slots, sequences and the interplay with the undelegation flag are untested.",
 ["src/processor/commit_state.rs","src/processor/finalize.rs"],[META],
 [("slot comparison",PR+"commit_state.rs"),("last_update_external_slot update",PR+"finalize.rs")],OB)
p("C07","At most one pending commit, captured faithfully and as a whole",
 "An accepted commit stores exactly the submitted bytes, slot, balance, committer and account as the account's pending commit and sets the undelegation permission to exactly what was requested; nothing else of the session changes. While a commit is pending no further commit for that account is accepted, and at every moment either both halves of the pending commit (state and record) exist or neither. Committed balances below, equal to and above the recorded balance are all accepted as long as the committer can pay the deposit.",
 ["inputs","histories"],"every commit payload (size 0 to 10 KiB, larger or smaller than the account), slot, balance and pre-funded commit addresses, and every interleaving of commits by several validators",
 "Tests check one payload and one interleaving each.",
 ["src/processor/commit_state.rs","src/state/commit_record.rs"],[CS,CR,META],
 [("uninitialized-PDA checks and creation",PR+"commit_state.rs"),("serialization","src/state/utils/to_bytes.rs")],OB)
p("C08","Committing from a buffer equals committing directly",
 "Committing the contents of a buffer account has exactly the same outcome (acceptance, stored pending commit, balances, undelegation permission, refusal) as committing the same bytes, slot, balance and permission directly from the same state. The buffer account itself is not altered and needs no particular owner or signature.",
 ["inputs","histories"],"every state, payload, buffer owner and argument combination",
 "test_commit_state_from_buffer commits one buffer in one state and never compares with the direct path.",
 ["src/processor/commit_state_from_buffer.rs","src/processor/commit_state.rs"],[CS,CR],
 [("shared internal commit",PR+"commit_state.rs"),("buffer borrow",PR+"commit_state_from_buffer.rs")],OB)
p("C09","Finalizing applies exactly the pending commit, once, and clears it",
 "A successful finalization with a pending commit makes the delegated account's data exactly the committed bytes (growing or shrinking as needed), records the committed slot as the last finalized slot and the account's resulting balance as the session balance, and removes both halves of the pending commit. The same commit can never be applied twice, and the undelegation permission, the session's identity fields and all other accounts are untouched.",
 ["inputs","histories"],"every pair of old and new data (grow, shrink, empty, equal), slot and balance, in any history of commits, finalizations and undelegations",
 "Tests finalize one fixed state without data growth/shrinkage or history.",
 ["src/processor/finalize.rs","src/processor/utils/pda.rs"],[CS,CR,REC,META],
 [("realloc + copy, metadata update, close_pda",PR+"finalize.rs")],OB)
p("C10","Only the committing validator can finalize its commit",
 "A pending commit can be finalized only by an instruction signed by the same validator that committed it, while that validator is registered; attempts by anyone else or with the pending commit of another account are refused without effect. Finalizing an account with no pending commit succeeds only as a no-op that changes nothing, and a half-missing or mismatched commit is refused.",
 ["inputs","histories"],"every signer, vault, pending-commit combination of several accounts and validators",
 "No test finalizes with another validator or another account's commit.",
 ["src/processor/finalize.rs","src/processor/utils/loaders.rs"],[CR,CS,VV],
 [("identity/account comparison",PR+"finalize.rs"),("no-op condition",PR+"finalize.rs")],OB)
p("C11","Commit and finalization settle balances exactly",
 "A commit that raises the balance takes exactly the increase from the committer as a deposit (beyond the refundable rent of the pending commit); finalization credits exactly that increase to the delegated account, while a commit that lowers the balance moves exactly the decrease from the delegated account to the committer's fee vault. All rent and surplus of the pending commit returns to the committer, so across commit and finalization the committer's cost is exactly the increase (or nothing), no party gains or loses anything else, and after every completed finalization the recorded balance equals the account's real balance. A commit is refused if the account holds less than its recorded balance.",
 ["inputs","histories"],"every recorded, actual and committed balance (equal, off by one, zero, huge, with third-party donations to the account or the commit addresses) over arbitrarily long commit histories",
 "test_lamports_settlement samples a few increases and decreases with fixed amounts and no donations.",
 ["src/processor/commit_state.rs","src/processor/finalize.rs","src/processor/utils/pda.rs"],[REC,CR,CS,VV],
 [("deposit transfer",PR+"commit_state.rs"),("settle_lamports_balance",PR+"finalize.rs"),("close_pda",PR+"utils/pda.rs")],OB)
p("C12","Undelegation requires permission, finalized state and the right parties",
 "A delegated account can be undelegated only after a commit that allowed it has been accepted and no commit is pending, by a signing registered validator, naming the account's recorded owner program and the recorded rent payer. Once a commit has allowed undelegation no further commit is accepted in that session, and the permission is never granted by any other instruction; refused undelegations change nothing.",
 ["inputs","histories"],"every state of the permission and pending commit, every supplied owner program, rent recipient, signer and vault",
 "Tests check undelegation without permission once and the honest case; pending commits, wrong owner program or wrong rent recipient are not tested.",
 ["src/processor/undelegate.rs","src/processor/commit_state.rs","src/processor/utils/loaders.rs"],[META,CS,CR],
 [("permission, owner, rent payer and pending-commit checks",PR+"undelegate.rs"),("latch",PR+"commit_state.rs")],OB)
p("C13","Undelegation hands the account back intact and ends the session",
 "After a successful undelegation the account belongs to its recorded owner program again with exactly the data and balance it had just before, the owner program having been asked (for accounts with data) with the recorded seeds and a faithful copy of the data. Every temporary and session account of the delegation is gone, the validator's own balance is unchanged, and the account can be delegated afresh with no trace of the previous session.",
 ["inputs","histories"],"every data length, balance (rent-exempt minimum exactly, or above), seed shape and owner program, with pre-funded temporary addresses, in any history including repeated delegation",
 "Tests undelegate one fixed account per kind, once.",
 ["src/processor/undelegate.rs","src/processor/utils/pda.rs"],[REC,META,("undelegate buffer","PDA ['undelegate-buffer', account]","src/pda.rs")],
 [("close, CPI to owner program, verification and refund",PR+"undelegate.rs"),("cleanup",PR+"undelegate.rs")],OB)
p("C14","A hostile owner program cannot profit from undelegation",
 "Whatever the owner program does during the hand-back, undelegation either fails as a whole or leaves the validator with its balance, ownership and data unchanged, restores exactly the saved bytes and the saved balance in the delegated account, and touches no other session or vault. The program receives no signing authority other than that needed for the hand-back.",
 ["programs","inputs"],"every behaviour of an owner program using the accounts and signatures it is given: wrong, partial or extra data, not recreating the account, over- or under-paying rent, draining, assigning or allocating the validator, recreating with another owner, failing",
 "The tests use one honest owner program binary only.",
 ["src/processor/undelegate.rs"],[("validator account","signs and pays for the hand-back","src/processor/undelegate.rs")],
 [("balance/data verification after the CPI",PR+"undelegate.rs"),("CPI account list and signers",PR+"undelegate.rs")],OB+["every nested instruction the program issues: callee, accounts, signers"])
p("C15","Session rent is split exactly between payer and vaults",
 "On undelegation, for each of the two session records, ten percent of its balance (rounded down) is withheld as a fee of which ten percent (rounded down) goes to the protocol vault and the rest to the vault of the validator performing the undelegation, and everything else is refunded to the recorded rent payer. Nothing is lost, created or sent elsewhere, whatever the size and pre-funding of the records and even if parties coincide.",
 ["inputs","histories"],"every record size (seed shapes), pre-funding, rent payer (validator, account, vaulted or not) and history",
 "Tests check the split for one record size only, computed with the same formula.",
 ["src/processor/undelegate.rs","src/processor/utils/pda.rs","src/consts.rs"],[PV,VV],
 [("close_pda_with_fees",PR+"utils/pda.rs"),("process_delegation_cleanup",PR+"undelegate.rs")],OB)
p("C16","Only the administrator registers or removes validators",
 "A validator's fee vault is created and closed only by an instruction signed by the delegation program's upgrade authority; creation yields an empty rent-exempt vault for exactly the named validator, paid by the payer, and cannot reset an existing one. Closing pays the whole vault balance to the validator it belongs to and removes it, after which that validator can no longer commit, finalize, undelegate or claim until re-registered. If the program has no upgrade authority nobody can do either.",
 ["inputs","histories"],"every signer set, administrator configuration (including changed or absent authority), validator identity, pre-funded vault address and register/remove/re-register history",
 "Tests check honest creation/closing and one wrong administrator.",
 ["src/processor/init_validator_fees_vault.rs","src/processor/close_validator_fees_vault.rs","src/processor/utils/loaders.rs"],[VV],
 [("upgrade-authority check",PR+"utils/loaders.rs"),("create/close",PR+"init_validator_fees_vault.rs")],OB)
p("C17","A validator claims exactly its own fees, minus the protocol share",
 "A fee claim succeeds only for a signing validator on its own vault and for at most the vault's balance above its rent minimum; the requested amount (or everything available when unspecified) leaves the vault, ten percent of it (rounded down) goes to the protocol vault and the rest to the validator. Requests beyond what is available are refused without effect, and the vault always stays rent exempt.",
 ["inputs","histories"],"every vault balance and requested amount (zero, one, boundaries around available, extreme u64 values), any vault/validator combination",
 "Tests claim three fixed amounts.",
 ["src/processor/validator_claim_fees.rs"],[VV,PV],
 [("amount check and split",PR+"validator_claim_fees.rs")],OB)
p("C18","Protocol fees go only to the administrator, once initialised",
 "The protocol vault can be initialised once, by anyone at their own cost, and never re-initialised. Only the signing upgrade authority of the delegation program can claim from it, receiving exactly everything above the rent minimum, which stays in the vault.",
 ["inputs","histories"],"every signer, administrator configuration, vault balance and initialisation history, including a pre-funded vault address",
 "Tests initialise and claim once, honestly.",
 ["src/processor/init_protocol_fees_vault.rs","src/processor/protocol_claim_fees.rs","src/processor/utils/loaders.rs"],[PV],
 [("upgrade-authority check",PR+"utils/loaders.rs"),("claim",PR+"protocol_claim_fees.rs")],OB)
p("C19","Only a program's authority or the administrator edits its whitelist",
 "A program's validator list changes only by an instruction signed by that program's current upgrade authority or by the delegation program's; an insertion adds exactly the named validator, a removal removes exactly it, both are idempotent and leave all other entries and other programs' lists alone. The stored list is always well formed, exactly as large as its entries require and rent exempt, with any additional rent paid by the signer.",
 ["inputs","histories"],"every signer, program, program-data account (right, wrong, forged, without authority), and history of insertions and removals of many validators",
 "Tests insert one validator and remove one.",
 ["src/processor/whitelist_validator_for_program.rs","src/processor/utils/loaders.rs","src/state/program_config.rs"],[CFG],
 [("validate_authority",PR+"whitelist_validator_for_program.rs"),("resize and serialize",PR+"utils/pda.rs")],OB)
p("C20","Escrow deposits and withdrawals are exact and owner-controlled",
 "Topping up moves exactly the requested amount (plus rent only if the escrow does not yet hold it) from the signing payer to the escrow of the named wallet and index, and nothing else changes. Closing an escrow pays its entire balance to the wallet that owns it, only with that wallet's signature, only while it is not delegated, and closing an empty or missing escrow has no effect; escrows of different wallets and indexes never mix.",
 ["inputs","histories"],"every wallet, index 0-255, amount (zero to more than affordable), escrow state (absent, dust, funded, delegated) and signer",
 "test_top_up covers two indexes and one amount.",
 ["src/processor/top_up_ephemeral_balance.rs","src/processor/close_ephemeral_balance.rs","src/pda.rs"],[ESC],
 [("PDA derivation per wallet/index",PR+"top_up_ephemeral_balance.rs"),("signed transfer",PR+"close_ephemeral_balance.rs")],OB)
p("C21","Escrows can be delegated only by their wallet, and come back as escrows",
 "An escrow becomes delegated only with the signatures of the paying party and of the wallet it belongs to, keeps its balance, and its session records the system program as original owner and the escrow's own derivation seeds whatever seeds the caller supplied. While delegated it can be topped up but not closed; after undelegation it is an ordinary escrow its wallet can close or delegate again.",
 ["inputs","histories"],"every wallet, payer, index, caller-supplied seeds, validator, frequency and escrow state",
 "test_top_up delegates one escrow with one index and default arguments.",
 ["src/processor/delegate_ephemeral_balance.rs","src/processor/delegate.rs"],[ESC,REC,META],
 [("signer checks, seed override, self-CPI",PR+"delegate_ephemeral_balance.rs")],OB)
p("C22","Substituted or forged accounts are never accepted",
 "Every instruction works only on the accounts derived from the parties it names: supplying another account (of another session, validator, program, wallet, kind, or a forged look-alike, or a non-canonical derivation) in place of any required one makes it fail without effect. In particular no instruction ever reads or writes the record, vault, configuration, escrow or pending commit of a different party, and a fake system or delegation program is not accepted.",
 ["inputs"],"every instruction, every account position, every same-shaped replacement account existing in the state",
 "Tests use the crate's own builders, which always supply the right accounts; substitution is tried in at most a handful of cases.",
 ["src/processor/utils/loaders.rs","src/processor/delegate.rs","src/processor/commit_state.rs","src/processor/finalize.rs","src/processor/undelegate.rs","src/pda.rs"],[],
 [("load_pda / load_initialized_pda / load_program",PR+"utils/loaders.rs")],OB)
p("C23","Donations to derived addresses never block or distort the protocol",
 "Anyone may send any amount to any not-yet-created derived address (session records, pending commit, undelegation buffer, vaults, configurations, escrows); every later honest instruction still succeeds with the same protocol outcome. The donated amount only reduces what the payer must contribute and eventually ends up with the party entitled to that account's balance.",
 ["inputs","histories"],"every derived address and every donation (dust, below, at and above rent minimum) at any point of the life cycle that is legal on the chain",
 "No test pre-funds any derived address.",
 ["src/processor/utils/pda.rs","src/processor/utils/loaders.rs"],[],
 [("create_pda's pre-funded branch",PR+"utils/pda.rs"),("is-uninitialised test ignores balance",PR+"utils/loaders.rs")],OB)
p("C24","Bundling instructions in one transaction changes nothing",
 "Executing a list of instructions in a single transaction has the same effect as executing them one per transaction in the same order whenever all of them succeed that way (accounts with temporarily inconsistent rent excepted), and a transaction in which any instruction fails has no effect at all. Extra privileges that accounts acquire from other instructions in the same transaction neither enable nor break an instruction.",
 ["schedules","inputs","histories"],"every sequence of honest instructions (commit+finalize+undelegate, top-up+delegate, whitelist+commit, re-delegation, ...) and every partition of it into transactions",
 "Tests send one instruction per transaction (undelegation tests bundle one fixed pair).",
 ["src/processor/utils/loaders.rs","src/processor/commit_state.rs","src/processor/undelegate.rs","src/processor/utils/pda.rs"],[],
 [("writability and freshness checks",PR+"utils/loaders.rs"),("closing resets owner and data",PR+"utils/pda.rs")],OB)
p("C25","Value is conserved and every vault balance is accounted for",
 "Over any history the total balance of all accounts is constant, and each vault's balance is exactly its rent minimum plus donations, plus settled decreases and fee shares credited to it, minus claims. The real balance of a delegated account is never below its recorded session balance, and a pending increase is always fully covered by the pending commit's own balance.",
 ["histories","fault_sequences"],"every history of successful and failing instructions by many actors over many accounts",
 "Tests check single steps; accumulation over histories is never checked.",
 ["src/processor/finalize.rs","src/processor/undelegate.rs","src/processor/validator_claim_fees.rs","src/processor/protocol_claim_fees.rs","src/processor/utils/pda.rs"],[VV,PV,REC,CS],
 [("balance arithmetic",PR+"finalize.rs"),("fee split",PR+"utils/pda.rs")],OB)
p("C26","An honest session can always be completed",
 "From any state reachable with hostile outsiders and donations present, the honest parties can finish: a registered (and, if configured, whitelisted) committing validator with sufficient balance can commit, finalize, commit with permission, finalize and undelegate an account with a co-operating owner program, in a bounded number of steps, and the account can then be delegated again. Outsiders' transactions can delay but never prevent this.",
 ["histories","fault_sequences"],"every reachable state with a live session, any hostile prefix history, any interleaved outsider transactions",
 "Tests run one happy path from a hand-made state.",
 ["src/processor/commit_state.rs","src/processor/finalize.rs","src/processor/undelegate.rs","src/processor/delegate.rs"],[REC,META,CS,CR],
 [("life cycle",PR+"undelegate.rs"),("pre-funding tolerance",PR+"utils/pda.rs")],OB)
p("C27","Stored state is self-describing, round-trips and never confused",
 "Every kind of protocol record written to an account decodes back to exactly the same values, decodes only as its own kind, and is rejected when its tag or length is wrong or truncated; decoding arbitrary bytes never reads out of bounds or exhibits undefined behaviour. The published binary layouts (tags and field order) that clients and validators parse stay the same.",
 ["inputs"],"every value of every record kind (extreme integers, arbitrary keys, seed lists and validator sets) and every byte string, aligned or not",
 "One test round-trips one metadata value; cross-kind decoding, malformed bytes and layout stability are untested.",
 ["src/state/delegation_record.rs","src/state/delegation_metadata.rs","src/state/commit_record.rs","src/state/program_config.rs","src/state/utils/to_bytes.rs","src/state/utils/try_from_bytes.rs","src/state/utils/discriminator.rs"],[],
 [("tagged encode/decode macros","src/state/utils/try_from_bytes.rs")],["encode/decode functions natively and under Miri"])
p("C28","Malformed instructions are rejected without effect",
 "An instruction with an unknown tag, missing or undecodable arguments, trailing bytes after its serialized arguments (instructions that take none ignore extra bytes), too few or too many accounts, or addressed to another program id always fails and never changes any account; no input makes the program read or write out of bounds or loop without bound. Tags keep their published meaning.",
 ["inputs"],"every instruction byte string and every account-list length",
 "No test sends malformed data.",
 ["src/lib.rs","src/discriminator.rs","src/args/commit_state.rs","src/args/delegate.rs"],[],
 [("tag dispatch","src/lib.rs"),("argument decoding","src/args/mod.rs")],OB)
p("C29","The crate's own instruction and address helpers always produce valid requests",
 "For any honest parties, instructions built with the crate's public builders, sent in a transaction whose fee may be paid by anyone, behave exactly as the operation they are named after on exactly the accounts of the parties passed in, with the documented defaults for omitted options. The published address-derivation helpers return the addresses the program itself uses.",
 ["inputs","configurations"],"every party, argument and option combination and every choice of fee payer",
 "Tests always let the acting validator or wallet pay the fee, which hides missing privileges in the builders.",
 ["src/instruction_builder/commit_state.rs","src/instruction_builder/finalize.rs","src/instruction_builder/undelegate.rs","src/instruction_builder/top_up_ephemeral_balance.rs","src/pda.rs"],[],
 [("builders","src/instruction_builder/mod.rs"),("PDA helpers","src/pda.rs")],["built instructions executed in the monitor's SVM against independently derived expectations"])
p("C30","Instructions never touch parties that did not take part",
 "An instruction changes only the accounts its operation is about: no account that is neither a signer nor part of the named session, vault, configuration or escrow is debited, altered, created or closed, and every signer loses at most the rent and amounts the operation defines. Failed instructions have no effect and other sessions running at the same time are unaffected.",
 ["inputs","histories","schedules"],"every instruction with extra, duplicated, over-privileged or coinciding accounts, among many concurrent sessions",
 "Tests look only at the accounts they expect to change.",
 ["src/processor/delegate.rs","src/processor/commit_state.rs","src/processor/finalize.rs","src/processor/undelegate.rs","src/processor/utils/pda.rs"],[],
 [("account list destructuring and loaders",PR+"utils/loaders.rs")],OB)
p("C31","The same request has the same outcome: there are no hidden inputs",
 "What an instruction does is determined by its data, by the accounts passed to it (addresses, contents, balances, privileges) and by nothing else: not by the time, epoch or slot (which only dates a new session record), not by when or how often it was tried before, by other accounts, by who pays the transaction's fee or by unrelated instructions around it. Whatever is accepted or refused now is accepted or refused, with the same effect on the same accounts, at any other time.",
 ["inputs","configurations","histories"],"every request, accepted or refused, under every clock, surrounding transaction, unrelated state and earlier activity",
 "Tests run each request once, on a fresh bank a few slots old, with the same payer and nothing around it.",
 ["src/lib.rs","src/processor/delegate.rs","src/processor/commit_state.rs","src/processor/finalize.rs","src/processor/undelegate.rs","src/processor/validator_claim_fees.rs"],[REC],
 [("only use of the clock: the slot recorded by a delegation",PR+"delegate.rs")],["pairs of runs in the monitor's SVM that differ in the environment only"])
p("C32","A request made through another program equals the direct one",
 "Every instruction sent by a program on behalf of its signers (with the same accounts, data and privileges) is accepted exactly when it would be accepted as an instruction of the transaction itself, and has exactly the same effect: wallets, administrators, validators and payers may be multisigs, governance or owner programs acting through cross-program calls. (The one caller the runtime rules out is the owner program that an undelegation has to call back.)",
 ["inputs","configurations","histories"],"every request of every instruction, accepted or refused, sent directly and through an intermediate program from the same state",
 "Tests send almost everything as top-level instructions; only the owner program's delegation goes through a call.",
 ["src/lib.rs","src/processor/delegate.rs","src/processor/commit_state.rs","src/processor/finalize.rs","src/processor/undelegate.rs","src/processor/top_up_ephemeral_balance.rs","src/processor/close_ephemeral_balance.rs","src/processor/init_validator_fees_vault.rs"],[],
 [("signer checks that do not care for the call depth",PR+"utils/loaders.rs")],["pairs of runs in the monitor's SVM: direct and through a relaying program"])
p("C33","The protocol never interprets an account's state",
 "The bytes of a delegated account are opaque: whether a delegation, commit, finalization or undelegation is accepted, and every effect it has on balances, owners, sizes, slots, permissions and records, is the same for any other state of the same length, given an owner program that takes any state back (all zeros, all ones, something that looks like a protocol record, the state the account already has). Only the state itself is carried along.",
 ["inputs"],"every pair of states of equal length in the account, the pending commit, the delegation buffer, the commit buffer and the commit's argument",
 "Tests use one or two fixed states.",
 ["src/processor/delegate.rs","src/processor/commit_state.rs","src/processor/commit_state_from_buffer.rs","src/processor/finalize.rs","src/processor/undelegate.rs"],[META,CS],
 [("copying of the committed bytes",PR+"finalize.rs"),("hand-back through the undelegation buffer",PR+"undelegate.rs")],["pairs of runs in the monitor's SVM that differ in the state's bytes only"])
p("C34","Outsiders can only give money away",
 "Someone who holds no office (is no upgrade authority of the programs concerned, no registered validator) and has no signature but its own can do nothing to what is not its own, in any state and with any request, sequence of requests, or accounts prepared to look like the right ones: no account of anyone else, no session, pending commit, vault, registration, configuration or escrow, loses lamports, changes owner or has a byte of its data changed. It may add lamports to anything, set up the protocol vault once, and manage its own escrows and their sessions.",
 ["inputs","histories"],"every reachable state, every request by a party without office, alone or in sequence, sent directly or through another program",
 "Tests try a few missing signatures, one at a time, in one state each.",
 ["src/processor/delegate.rs","src/processor/commit_state.rs","src/processor/finalize.rs","src/processor/undelegate.rs","src/processor/close_ephemeral_balance.rs","src/processor/validator_claim_fees.rs","src/processor/close_validator_fees_vault.rs","src/processor/whitelist_validator_for_program.rs"],[META,CS],
 [("signer, authority and derivation checks of every processor",PR+"utils/loaders.rs")],["whole-store comparison in the monitor's SVM before and after the outsider's transactions"])
p("C35","Addresses are only names",
 "No party is treated by what its address looks like: if validators, wallets, payers, authorities, delegated accounts (and with them everything derived from their addresses) are consistently given other addresses, wherever those occur, the same request is accepted or refused, and leads to the same accounts under the new names. The exceptions are the fixed addresses of programs and sysvars, the empty address in a delegation without validator, and whether an address lies on the curve.",
 ["inputs"],"every state and request, every consistent renaming of the parties (addresses that begin or end in zeros or ones, order before or after another one, or differ from another one in one bit)",
 "Tests use a handful of random keys; what depends on one address in 256 or on how two compare is not seen.",
 ["src/processor/commit_state.rs","src/processor/finalize.rs","src/processor/undelegate.rs","src/processor/delegate.rs","src/processor/delegate_ephemeral_balance.rs","src/processor/whitelist_validator_for_program.rs","src/state/program_config.rs"],[REC,META],
 [("comparisons of addresses and derivations",PR+"utils/loaders.rs")],["pairs of runs in the monitor's SVM from states that are equal up to renaming"])
p("C36","A request delivered twice takes effect once",
 "When an accepted request reaches the program again right afterwards (sent again by an impatient client, or repeated within the same transaction), the second delivery is refused or changes nothing at all: no second deposit, payment, fee, rent, commit, finalization, registration or list entry. Only top-ups of a given amount and claims of a given amount, which are meant to add up, act each time.",
 ["inputs","histories"],"every accepted request from every reachable state, delivered again at once or repeated in its transaction",
 "Tests send each request once, and repeat only a few of them.",
 ["src/processor/commit_state.rs","src/processor/finalize.rs","src/processor/undelegate.rs","src/processor/delegate.rs","src/processor/init_protocol_fees_vault.rs","src/processor/protocol_claim_fees.rs","src/processor/whitelist_validator_for_program.rs","src/processor/close_ephemeral_balance.rs"],[META,CS],
 [("checks for what exists already",PR+"utils/loaders.rs")],["whole-store comparison in the monitor's SVM after the first and the second delivery"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
S=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,S)
print(len(P))
