#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
NOTE=("Held on the executions counted in the evidence file, not for all inputs: randomized histories of the real program code (run natively, "
 "as an on-chain release build without overflow checks) under the monitors. Trusted: the Solana 2.2 runtime crates, the transaction "
 "executor in monitor/core/src/svm.rs, and the reference model in monitor/core/src/{model,spec}.rs, which shares no code with the program. ")
T={
"C01":("per-event oracle against a reference model over generated delegations","Every delegation seen (direct, SDK-style buffered, escrow, repeated, pre-funded) is compared byte for byte."),
"C02":("refusal oracle over mutated delegations, plus session-creation history monitor","Signer, owner, seed and slot mutations of every delegation; a history monitor also catches sessions appearing in any other way."),
"C03":("ghost-state history monitor over all transactions","After every successful transaction the monitor compares each delegated account and its session identity with the ghost copy."),
"C04":("refusal oracle over commits by every other party","Each generated commit is repeated in the name of other parties, registered or not, signing or not."),
"C05":("per-event oracle with a whitelist model over histories of list edits","The list consulted is derived by the oracle from the recorded owner program, never from the supplied account."),
"C06":("per-event oracle and monotonicity history monitor","Slots are drawn around the last finalized slot, the clock and the integer extremes."),
"C07":("per-event oracle and pairing invariant over histories","Stored pending commits are decoded by the oracle's own decoder; the pairing invariant is checked after every transaction."),
"C08":("differential runtime oracle: buffer against direct commit from the same state","Outcome and complete final state of the two variants are compared."),
"C09":("per-event oracle plus replay attempts after every finalization","Growing, shrinking, empty and same-size data, and repeated finalization."),
"C10":("refusal oracle over finalizations by every other party and with foreign commits","Foreign, half-missing and mismatched pending commits are placed by mutation."),
"C11":("exact balance accounting per event and across commit and finalization","Every lamport of every account of the transaction is predicted by the reference model; end-to-end accounting per session."),
"C12":("refusal oracle and permission-latch history monitor","The ghost latch is set only by an accepted permitting commit."),
"C13":("per-event oracle, callee-side observation of the hand-back call, re-delegation probe","Mock owner programs record the request they receive; a fresh session is opened afterwards."),
"C14":("fault injection: hostile owner programs during the hand-back call","18 misbehaviours of the callee, combined with balances around rent minimums; owner programs may also try privileged calls with the signers they received."),
"C15":("exact balance accounting per event over record balances","Record balances are varied by donations around multiples of the fee divisors."),
"C16":("per-event oracle over registrations, closings and upgrade-authority changes","Authorities rotate, disappear and coincide with other parties."),
"C17":("per-event oracle over claims around the available balance","Amounts around the availability boundary and the integer extremes."),
"C18":("per-event oracle over initialisation and protocol claims","Every other party tries to claim or re-initialise."),
"C19":("per-event oracle with a whitelist model, stored form decoded independently","Insertions, removals, repetitions by authorities, the administrator and others."),
"C20":("exact balance accounting per event over escrows","Amounts and indexes drawn at their extremes; delegated, missing and empty escrows."),
"C21":("per-event oracle and life-cycle driver for delegated escrows","Nested delegation call is observed as an event of its own."),
"C22":("mutation-based substitution monitor","Every account of every instruction is replaced by look-alikes: other sessions, kinds, programs, forged copies, non-canonical bumps."),
"C23":("differential runtime oracle: with and without donations","Every derived address an operation uses is funded beforehand, by dust or beyond rent."),
"C24":("differential runtime oracle: bundled against sequential, failing bundles, added privileges","Final states are compared account by account."),
"C25":("conservation and vault-ledger monitor over histories","A ledger kept by the monitor explains every vault balance after every transaction."),
"C26":("liveness driver with interfering outsiders from sampled states","From states sampled out of hostile histories, the honest parties finish every session kind. Known dead ends are demonstrated on each run and listed in known_findings.txt."),
"C27":("codec oracle: round trips, cross-kind and truncated decoding, layout vectors","Both the crate's decoders and the bytes stored by instructions are compared with an independent decoder."),
"C28":("malformed-input monitor over mutated instructions","Truncated, extended, bit-flipped data, unknown tags, missing accounts, foreign program ids; crashes, hangs and effects are violations."),
"C29":("differential oracle: requests made by the crate's builders against independently written ones","Every builder is called with generated parties and fee payers; address helpers are compared with the oracle's derivation."),
"C30":("frame monitor over all accounts and commutation of independent sessions","The whole store is compared after each transaction, and operations on different sessions are executed in both orders."),
"C31":("differential runtime oracle: the same request under another clock, payer, neighbourhood, unrelated state and past","Acceptance and the resulting contents of the accounts passed are compared; a new session record's slot is the only allowed difference."),
"C32":("differential runtime oracle: direct request against the same request through a relaying program","Acceptance and the complete final state are compared, for valid and for spoiled requests."),
"C33":("differential runtime oracle: the same request over different account states of equal length","Acceptance and everything but the state bytes are compared; states are unrelated, nearly equal, record-like, or copies of each other."),
"C34":("whole-store comparison around transactions of a party without office: everyone else's accounts may only have gained lamports","The oracle is independent of the per-request specification: it looks at the store alone. Requests are those others would make, re-signed by a stranger, sent alone or in sequence, with forged look-alike accounts."),
"C35":("differential runtime oracle: the same request from a state equal up to renaming of the parties","Acceptance and the complete final state are compared under the renaming; new addresses are random, special-looking, or nearly another one's."),
"C36":("differential runtime oracle: one delivery against two, in sequence and within one transaction","After an accepted request the second delivery has to be refused or leave the whole store as it is."),
}
props=[json.loads(l) for l in open("/verif/properties.jsonl")]
m=dict(version=1,setup_cmd="./build.sh all",checks=[],not_applicable=[],
 notes="One monitor, 36 oracles: check.sh builds monitor/ against /repo and runs the workload weighted for the property. VERIF_SEED selects every random choice. Known findings: known_findings.txt.")
for p in props:
    t,n=T[p["id"]]
    m["checks"].append(dict(property=p["id"],quick_cmd="./check.sh "+p["id"],thorough_cmd="VERIF_TIER=thorough ./check.sh "+p["id"],
      technique="runtime monitoring: "+t,level="exploration",level_note=NOTE+n))
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
open("/verif/MANIFEST.json","a").write("\n")
