#!/usr/bin/env python3
"""writes /verif/properties.jsonl and /verif/MANIFEST.json"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = "ethereum-consensus/src/"
FK = ["phase0", "altair", "bellatrix", "capella", "deneb", "electra"]
GEN = [E + f + "/spec/mod.rs" for f in FK[1:]]
IN, CF, HI = "inputs", "configurations", "histories"
P = []


def p(id, title, st, over, text, why, files, mech, state=None, na=None):
    d = {"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append((d, na))


SPECT = "The only tests that reach this code are the consensus spec test vectors, which are not part of the repository's runnable tests and sample a handful of states; "
H0, B0, E0, S0 = E + "phase0/helpers.rs", E + "phase0/block_processing.rs", E + "phase0/epoch_processing.rs", E + "phase0/slot_processing.rs"

p("C01", "Slot, epoch and wall-clock conversions are exact",
  "Converting between time, slots and epochs is exact integer arithmetic: a slot is in the epoch given by dividing by the slots per epoch, starts at genesis time plus slot times the slot duration, and every instant at or after genesis belongs to exactly the slot whose interval contains it, while an instant before genesis belongs to no slot. The time remaining until a slot is the distance to that slot's start, and zero once it has begun. A stream of slots yields the current slot first and then every following slot once, at its start.",
  [IN, CF], "every timestamp (seconds and nanoseconds), slot and epoch, every genesis time, slot duration and epoch length",
  "The three clock tests use one genesis time, one preset and a few chosen instants.",
  [E + "clock.rs", H0], [("timestamp/slot conversion", E + "clock.rs"), ("duration until slot", E + "clock.rs"), ("slot stream", E + "clock.rs"), ("epoch of slot, start slot, activation exit epoch", H0)])
p("C02", "Every epoch maps to one fork, fork version and separated signing domain",
  "At every epoch the active fork is the latest one whose activation epoch has been reached, and the fork version in force is that fork's configured version. A signing domain starts with the four bytes assigned to its purpose, which are the published ones and differ between any two consensus purposes, followed by the first 28 bytes of the root of the fork version and genesis validators root. A signing root commits to both the object root and the domain.",
  [IN, CF], "every epoch, fork schedule, domain purpose, fork version and genesis validators root",
  "No test enumerates the domain purposes or crosses a fork boundary; vectors use one schedule each.",
  [E + "domains.rs", E + "fork.rs", E + "signing.rs", E + "state_transition/context.rs", H0],
  [("domain type encoding", E + "domains.rs"), ("fork for epoch/slot, fork version", E + "state_transition/context.rs"), ("domain computation", H0), ("signing root", E + "signing.rs")])
p("C03", "Shuffling is a permutation and the list form agrees with the per-index form",
  "For every seed, number of rounds and list length, the per-index shuffle is the published swap-or-not function and maps the indices one-to-one onto themselves. Shuffling a whole list at once gives exactly the list obtained by shuffling each position separately.",
  [IN, CF], "every seed, every list and index count, every round count up to 255",
  "Vectors cover a few seeds and sizes; one-to-one-ness and agreement of the two forms are statements over all of them.",
  [H0], [("per-index swap-or-not", H0), ("whole-list swap-or-not", H0)])
p("C04", "Proposers, sync committees and beacon committees are sampled as specified",
  "The proposer of a slot and the members of a sync committee are the candidates accepted by walking the shuffled active set and accepting each candidate with probability proportional to its effective balance, using the epoch's seed. The committees of a slot and an epoch split the shuffled active set into consecutive, disjoint slices that together contain every active validator exactly once. The number of committees per slot is at least one and at most the configured maximum.",
  [IN, CF, HI], "every state, seed, validator set, committee index and slot",
  SPECT + "that the committees of an epoch partition the active set is a statement over all of them.",
  [H0, E + "altair/helpers.rs"], [("proposer index", H0), ("sync committee indices", E + "altair/helpers.rs"), ("committee computation", H0), ("seed", H0)])
p("C05", "Validator status predicates and slashable-attestation test are exact",
  "A validator is active in an epoch exactly from its activation epoch until before its exit epoch; slashable exactly when not yet slashed and between activation and withdrawability; eligible for the activation queue and for activation exactly under the specified conditions. The active set lists every active validator once, in index order. Two attestation data are slashable together exactly when they are distinct votes for one target epoch or the first surrounds the second.",
  [IN], "every validator record, epoch, finalized epoch and pair of attestation data",
  SPECT + "the boundaries (equality at either end, far-future epochs) are rarely sampled.",
  [H0, E + "electra/helpers.rs", E + "capella/helpers.rs"], [("activity predicate", H0), ("slashable predicate", H0), ("double/surround vote", H0), ("queue eligibility", H0)])
p("C06", "History lookups return the recorded block root, randao mix and seed, or an error",
  "Looking up a block root succeeds exactly for slots before the current one that are still inside the retained window, and returns the root recorded for that slot. The randao mix of an epoch is the one in its ring-buffer position, and an epoch's seed hashes the domain, the epoch and the mix of the specified earlier epoch.",
  [IN, HI], "every state and every slot or epoch, including genesis and window edges",
  SPECT + "window edges and underflow at early slots are not sampled.",
  [H0], [("block root lookup", H0), ("randao mix lookup", H0), ("seed", H0)],
  [("block roots", "ring buffer of recent roots", E + "phase0/beacon_state.rs"), ("randao mixes", "ring buffer of mixes", E + "phase0/beacon_state.rs")])
p("C07", "Balance changes touch one balance, saturate at zero and totals are exact",
  "Increasing a balance adds the amount to that one balance or fails on overflow; decreasing subtracts and stops at zero; nothing else in the state changes. The total balance of a set is the sum of its members' effective balances, but never less than one increment, and the total active balance is that of the active set.",
  [IN], "every state, validator index, amount and set of indices",
  SPECT + "overflow, saturation and empty sets are not sampled.",
  [H0], [("increase/decrease", H0), ("total balance", H0)])
p("C08", "Exits queue behind earlier exits and respect the churn limit",
  "Initiating an exit leaves an already exiting validator alone and otherwise assigns the first epoch at or after both the minimum exit delay and the latest queued exit that still has room under the churn limit, with withdrawability the specified delay later. The churn limit is the larger of the configured minimum and the active validator count divided by the churn quotient. No other validator or field of the state changes.",
  [IN, HI, CF], "every state, validator, queue content and churn configuration",
  SPECT + "queue contents at the churn boundary are rarely sampled.",
  [H0, E + "electra/helpers.rs"] + GEN, [("initiate exit", H0), ("churn limit", H0), ("balance-denominated exit churn", E + "electra/helpers.rs")])
p("C09", "Slashing applies exactly the specified penalties, delays and rewards",
  "Slashing a validator initiates its exit, marks it slashed, extends its withdrawability to cover the slashings window, records its effective balance for the epoch and takes the fork's immediate penalty. The whistleblower reward is split between proposer and whistleblower in the fork's proportions. Nothing else in the state changes.",
  [IN, HI], "every state, slashed validator and whistleblower, in every fork",
  SPECT + "the split between a distinct proposer and whistleblower is not sampled.",
  [H0, E + "altair/helpers.rs", E + "bellatrix/helpers.rs", E + "electra/helpers.rs"], [("slash validator", H0), ("slash validator", E + "altair/helpers.rs"), ("slash validator", E + "bellatrix/helpers.rs")])
p("C10", "Justification and finalization follow the four finality rules",
  "At an epoch boundary a checkpoint becomes justified exactly when the attesting balance for it is at least two thirds of the active balance, the justification bits shift by one, and the finalized checkpoint advances exactly under the four two-thirds-link rules using the checkpoints held before the update. Justified and finalized epochs never decrease through this step.",
  [IN, HI], "every justification history, attesting balance and epoch",
  SPECT + "the rules quantify over all bit patterns and checkpoint distances.",
  [E0, E + "altair/epoch_processing.rs"], [("weigh justification and finalization", E0), ("process justification and finalization", E + "altair/epoch_processing.rs")],
  [("justification bits", "last four epochs", E + "phase0/beacon_state.rs")])
p("C11", "Attestation rewards and penalties are exactly the specified amounts",
  "Each epoch, every eligible validator gains or loses exactly the amounts specified for its timely source, target and head votes, scaled by participating balance and suspended during an inactivity leak, plus the inactivity penalty; no other balance changes. Rewards and penalties are applied with saturation at zero.",
  [IN, HI], "every participation record, balance distribution and finality delay, in every fork",
  SPECT + "participation and leak combinations are quantified over all validators.",
  [E0, E + "altair/epoch_processing.rs", E + "altair/helpers.rs", H0], [("attestation deltas", E0), ("flag index deltas", E + "altair/helpers.rs"), ("inactivity penalties", E + "altair/helpers.rs")])
p("C12", "Registry updates activate, queue and eject exactly the specified validators",
  "At an epoch boundary every validator eligible for the queue is stamped with the next epoch, every active validator at or below the ejection balance starts exiting, and the queued validators eligible for activation are activated in order of eligibility epoch then index, up to the churn limit. Nothing else in the state changes.",
  [IN, HI, CF], "every validator registry, finalized epoch and churn limit",
  SPECT + "orderings and ties in the activation queue are not sampled.",
  [E0, E + "deneb/epoch_processing.rs", E + "electra/epoch_processing.rs"], [("registry updates", E0)])
p("C13", "Epoch housekeeping: slashing penalties, hysteresis and resets are exact",
  "At an epoch boundary slashed validators halfway to withdrawability lose the specified proportional penalty, effective balances move only outside the hysteresis band and are capped, and the eth1 votes, slashings entry, randao mix, historical root and participation records are reset or rotated exactly when and how specified. Nothing else changes.",
  [IN, HI, CF], "every state at an epoch boundary",
  SPECT + "ring-buffer positions and period boundaries are sampled at a few epochs.",
  [E0, E + "altair/epoch_processing.rs", E + "bellatrix/epoch_processing.rs", E + "capella/epoch_processing.rs"], [("slashings", E0), ("effective balance updates", E0), ("resets", E0)])
p("C14", "Block headers, RANDAO reveals and eth1 votes are accepted exactly when valid",
  "A block header is accepted exactly when it is for the current slot, newer than the latest header, from the expected unslashed proposer and built on the latest header, and it is then recorded with an empty state root. A verified reveal is mixed into the current epoch's randao mix, and an eth1 vote takes effect exactly when it has more than half of the voting period's slots. Nothing else in the state changes.",
  [IN, HI], "every state and block",
  SPECT + "rejection of each malformed header is sampled once.",
  [B0], [("block header", B0), ("randao", B0), ("eth1 data", B0)])
p("C15", "Slashing evidence and attestations are accepted exactly when valid",
  "A proposer slashing is accepted exactly for two different, correctly signed headers of one slot by one slashable proposer, and an attester slashing exactly for two valid slashable attestations with a slashable validator in common, all of whom are slashed in increasing order. An attestation is accepted exactly when its target, timing, committee, source and aggregate signature are valid, and then records participation for exactly its attesters. Anything else is rejected.",
  [IN, HI], "every state and operation",
  SPECT + "each of the many rejection conditions must hold on every input.",
  [B0, E + "altair/block_processing.rs", E + "electra/block_processing.rs", H0], [("proposer slashing", B0), ("attester slashing", B0), ("attestation", B0), ("indexed attestation validity", H0), ("participation flags", E + "altair/helpers.rs")])
p("C16", "Voluntary exits and withdrawal-credential changes require every condition",
  "A voluntary exit is accepted exactly when the validator is active, not already exiting, old enough, the exit epoch has come and the signature is valid, and then initiates its exit. A withdrawal-credential change is accepted exactly for a validator whose BLS credentials hash the given key and whose signature is valid, and replaces the credentials by the address form. Nothing else changes.",
  [IN, HI], "every state and operation",
  SPECT + "each condition must be enforced on every input.",
  [B0, E + "deneb/block_processing.rs", E + "electra/block_processing.rs", E + "capella/block_processing.rs"], [("voluntary exit", B0), ("credential change", E + "capella/block_processing.rs")])
p("C17", "Deposits create or top up validators exactly once and in order",
  "A deposit is accepted exactly when its Merkle proof is valid at the next deposit index, which then advances by one. A new key with a valid signature adds one validator with the specified fields, an invalid signature on a new key adds nothing, and a known key only adds to its balance. Blocks must contain exactly the expected number of deposits.",
  [IN, HI], "every state, deposit and deposit count",
  SPECT + "registry growth across all parallel lists must stay in step.",
  [B0, E + "altair/block_processing.rs", E + "electra/block_processing.rs"], [("process deposit", B0), ("apply deposit", B0), ("operation counts", B0)])
p("C18", "Withdrawals pay exactly the expected list and advance the sweep",
  "The expected withdrawals are those of the specified sweep from the next validator index: full withdrawals for withdrawable validators and excess balance for fully funded ones, bounded per block and per sweep. A payload is accepted exactly when its withdrawals equal that list; the balances are then reduced and the next indices advanced as specified. Nothing else changes.",
  [IN, HI], "every state and payload",
  SPECT + "wrap-around and partially full sweeps are rarely sampled.",
  [E + "capella/block_processing.rs", E + "electra/block_processing.rs", E + "capella/helpers.rs"], [("expected withdrawals", E + "capella/block_processing.rs"), ("process withdrawals", E + "capella/block_processing.rs"), ("withdrawable predicates", E + "capella/helpers.rs")])
p("C19", "Execution payloads are accepted exactly when linked to the chain state",
  "A payload is accepted exactly when its parent hash, randao and timestamp match the state, blob commitments are within the limit and the execution engine accepts it, and its header is then recorded field by field.",
  [IN], "every state, payload and engine answer",
  SPECT + "every field of the recorded header must come from the payload.",
  [E + "bellatrix/block_processing.rs", E + "capella/block_processing.rs", E + "deneb/block_processing.rs", E + "electra/block_processing.rs"], [("process execution payload", E + "bellatrix/block_processing.rs")])
p("C20", "Slots advance one by one, recording roots; epochs run at boundaries",
  "Advancing a state to a later slot passes through every slot, caches the state and block roots in their ring-buffer positions, fills in the latest header's state root and processes the epoch exactly at each boundary; a target that is not later is an error. Applying a block checks the signature and state root when validation is on.",
  [IN, HI], "every state, target slot and block",
  SPECT + "the guarantee is over every number of slots.",
  [S0, E + "phase0/state_transition.rs", E + "state_transition/executor.rs"], [("process slots", S0), ("state transition", E + "phase0/state_transition.rs")])
p("C21", "Fork upgrades carry every field over and initialise only the new ones",
  "Upgrading a state to the next fork keeps every field that exists in both unchanged, sets the fork record to the previous and new versions at the current epoch, and initialises the new fields as specified.",
  [IN], "every state, at every fork boundary",
  SPECT + "a dropped or swapped field shows only on states where it matters.",
  [E + f + "/fork.rs" for f in FK[1:]], [("upgrade", E + f + "/fork.rs") for f in FK[1:]])
p("C22", "Sync aggregates reward exactly the participants; committees rotate on time",
  "A sync aggregate is accepted exactly when the aggregate signature of the participating keys over the previous slot's block root is valid; each participant gains and each absentee loses the participant reward and the proposer gains its share. The next committee becomes current exactly at each committee period boundary.",
  [IN, HI], "every state, participation bitfield and epoch",
  SPECT + "participation patterns and duplicated members are not sampled.",
  [E + "altair/block_processing.rs", E + "altair/epoch_processing.rs"], [("sync aggregate", E + "altair/block_processing.rs"), ("committee updates", E + "altair/epoch_processing.rs")])
p("C23", "Balance churn and pending queues process exactly what the limits allow",
  "Balance-denominated exits and consolidations consume churn epoch by epoch as specified, never more than the limit per epoch. Pending deposits are applied in order up to the available churn and pending consolidations up to the first not yet withdrawable, with leftovers kept in order.",
  [IN, HI], "every state and queue content of the latest fork",
  SPECT + "queue contents and churn carry-over are quantified over histories.",
  [E + "electra/helpers.rs", E + "electra/epoch_processing.rs", E + "electra/block_processing.rs"], [("churn", E + "electra/helpers.rs"), ("pending deposits", E + "electra/epoch_processing.rs"), ("pending consolidations", E + "electra/epoch_processing.rs")])
p("C24", "Blob packing loses no data and unpacking rejects malformed framing",
  "Packing a byte string into blobs and unpacking it returns exactly the same bytes, every produced field element is canonical, and sized framing is accepted exactly when the announced length fits the data.",
  [IN], "every byte string",
  "There are no tests for sizes at blob boundaries.",
  [E + "bin/ec/blobs/bundler.rs", E + "bin/ec/blobs/framing.rs", E + "bin/ec/blobs/decode.rs"], [("pack/unpack", E + "bin/ec/blobs"), ("framing", E + "bin/ec/blobs/framing.rs")])
p("C25", "Byte and number codecs in JSON round-trip exactly and reject malformed text",
  "Encoding bytes as text gives a 0x prefix followed by two lowercase hex digits per byte, in order, and decoding that text gives the bytes back; text with an odd number of digits or with a non-hex character is rejected. Numbers and sequences of numbers encoded as decimal strings decode to the same values, element by element, and text that is not a number is rejected.",
  [IN], "every byte string, every text, every number and sequence of numbers",
  "The one formatting test samples a single value.",
  [E + "serde.rs"], [("hex encoding", E + "serde.rs"), ("hex decoding", E + "serde.rs"), ("number as string", E + "serde.rs"), ("sequence of numbers", E + "serde.rs")])
p("C26", "Text identifiers of the API and networks round-trip",
  "Every identifier used in the API or on the command line formats to its published text and parses back to the same value, and text that names nothing is rejected.",
  [IN], "every identifier and text", "A few identifiers are sampled.",
  [E + "networks.rs", "beacon-api-client/src/types.rs"], [("network names", E + "networks.rs"), ("state/block/validator ids", "beacon-api-client/src/types.rs")])
p("C27", "Presets and configurations are the published constants, applied consistently",
  "Every preset and network configuration constant has its published value, fork versions and epochs are pairwise consistent and ordered within each network, and the derived relations between constants (capacities, periods, quotients) hold. The execution context built for a network takes each value from the constant of the same name.",
  [CF], "every network and preset shipped",
  "No test reads the constants; vectors are sensitive to few of them.",
  [E + "configs/" + n + ".rs" for n in ("mainnet", "minimal", "goerli", "sepolia", "holesky", "hoodi")] + [E + "state_transition/context.rs", E + "phase0/presets/mainnet.rs", E + "primitives.rs"],
  [("network configurations", E + "configs"), ("presets", E + "phase0/presets"), ("context", E + "state_transition/context.rs")])
p("C28", "The spec generator resolves every item to the latest fork that defines it",
  "For any sources, the module generated for a fork offers every public constant, container, type, trait and function once, and each one comes from the latest fork not after it that defines it. A function inherited from an earlier fork is re-instantiated exactly when a container in its signature was redefined, with that container's parameters. Field accessors of the fork-generic types return the field for exactly the forks that have it. The generator's fork order is the chronological one and total.",
  ["programs"], "every set of fork sources the generator supports (the state container is redefined in every fork and carries all parameters)",
  "One test compares a few pairs of forks; nothing runs the generator.",
  ["spec-gen/src/generator.rs", "spec-gen/src/type_generator.rs", "spec-gen/src/visitors.rs"],
  [("fork order", "spec-gen/src/generator.rs"), ("item resolution", "spec-gen/src/generator.rs"), ("field accessors per fork", "spec-gen/src/type_generator.rs"), ("re-instantiation of generics", "spec-gen/src/visitors.rs")])
p("C29", "Mnemonics and derived keys are standard, deterministic and fresh",
  "A recovery phrase gives its seed deterministically under the standard derivation, with an absent passphrase meaning the empty one, and a phrase with a wrong word or checksum is rejected. A newly generated phrase encodes 256 bits of fresh system entropy. Validator keys derive from the seed by EIP-2333 along the EIP-2334 paths m/12381/3600/i/0 to withdraw and m/12381/3600/i/0/0 to sign, one pair for each requested index i in order, each with its own public key and path. A keystore is one that every EIP-2335 reader decrypts, with the fresh passphrase handed out beside it, to exactly the key it was made for.",
  [IN], "every phrase, passphrase, entropy, seed and index range", "No runnable test reaches them.",
  [E + "bin/ec/validator/mnemonic.rs", E + "bin/ec/validator/keys.rs", E + "bin/ec/validator/keystores.rs"], [("phrase and seed", E + "bin/ec/validator/mnemonic.rs"), ("key derivation", E + "bin/ec/validator/keys.rs"), ("keystores", E + "bin/ec/validator/keystores.rs")])
p("C30", "Fork-polymorphic containers dispatch to the fork they hold",
  "Reading or writing a common field of a container that may hold any fork's version acts on the held version, a field the held fork does not have reads as absent, conversions succeed exactly for the held fork and hand out that very value, and the text of a value decodes to the same value of the same fork.",
  [IN], "every fork and field", "Not reached by runnable tests.",
  [E + "types"], [("generated accessors", E + "types")])
p("C31", "Genesis states are built from the deposits and valid exactly when specified",
  "The genesis state applies every deposit in order, each proven against the root of the deposits up to it, activates exactly the validators at the maximum effective balance, starts from the fork version, time, block hash, randao mixes and payload header given, carries the first sync committees from altair on, and pays queued balances at once in electra. It is refused exactly when a deposit is refused. It is valid exactly when late enough and with enough active validators.",
  [IN], "every deposit list", SPECT + "few deposit lists are sampled.",
  [E + f + "/genesis.rs" for f in FK], [("genesis state", E + "phase0/genesis.rs"), ("genesis validity", E + "phase0/genesis.rs")])
p("C32", "Merkle branch and inclusion proofs verify exactly valid branches",
  "A deposit's or blob sidecar's Merkle branch is accepted exactly when it has the required depth and folding its siblings along the index bits gives the root. A sidecar's proof is about its own commitment at its own index in the block body's commitment list, whatever its other fields, and an index past the list is refused. The light-client indices and depths address the intended fields of states and bodies.",
  [IN], "every branch, index, depth and root", "A single fixed proof is sampled.",
  [E + "deneb/blob_sidecar.rs", E + "altair/light_client.rs"], [("inclusion proof", E + "deneb/blob_sidecar.rs")])
p("C33", "Signature wrappers verify, aggregate and reject malformed keys as specified",
  "A signature verifies exactly when the key is a valid point (well-formed, in the group, not infinity), the signature is a well-formed point in the group, and the pairing check holds for exactly this message under the protocol's domain tag; likewise for one message under several keys and for one message per key. Aggregating no keys or no signatures, or any malformed one, is an error, and otherwise the aggregate is the sum. The empty key set verifies only with the infinity signature, and only where the protocol allows it. Keys and signatures are accepted as bytes exactly at their length, secret keys exactly when they are valid scalars, and a random key is derived from fresh bytes of the given source.",
  [IN], "every list of keys, messages and signatures", "Edge lists are not sampled.",
  [E + "crypto/bls.rs"], [("verification", E + "crypto/bls.rs"), ("aggregation", E + "crypto/bls.rs"), ("keys and encodings", E + "crypto/bls.rs")])
p("C34", "Blob commitments and proofs are computed and checked for exactly the inputs",
  "Each KZG wrapper passes exactly its blob, commitment, points and proof to the library and returns its result: a proof or a batch (blobs, commitments and proofs in order) is accepted exactly when the library accepts it, a negative answer is reported as an invalid proof and an input of the wrong size or form as a library error. A blob bundle holds, in order, every blob with its own commitment and proof, and is produced only when they verify as a batch.",
  [IN], "every blob, commitment, point and proof", "There are no tests for rejected proofs or batches.",
  [E + "crypto/kzg.rs", E + "bin/ec/blobs/bundler.rs"], [("wrappers", E + "crypto/kzg.rs"), ("bundle", E + "bin/ec/blobs/bundler.rs")])
p("C35", "The executor applies each block by its fork and upgrades at every fork boundary",
  "Applying a signed block of some fork to a state of the same or an earlier fork first takes the state through every fork between: all slots before that fork's first slot are processed by the old fork's rules (none if the state is there already, so several forks may start together), then the state is upgraded; then the block is applied by its own fork's transition, without advancing slots if it is the block of the fork's first slot. The result is a state of the block's fork. A block of an earlier fork than the state's, of a fork that is over at the block's slot, or of a fork that is not scheduled is refused, and so is every block its fork's rules refuse.",
  [HI], "every state, block, fork schedule and validation mode", "The executor is reached only by transition vectors that are not here, which sample one fork boundary at a time.",
  [E + "state_transition/executor.rs", E + "state_transition/context.rs"], [("block dispatch", E + "state_transition/executor.rs"), ("fork upgrades", E + "state_transition/executor.rs"), ("fork of a slot", E + "state_transition/context.rs")])

NA = {
}
DEFAULT_NA = "no contract has been completed for this property yet"


def main():
    with open(V + "/properties.jsonl", "w") as f:
        for d, _ in P:
            assert len(d["title"]) <= 80, d["id"]
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for d, _ in P:
        i = d["id"]
        if i in PROPS:
            x = PROPS[i]
            c = {"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --thorough" % i,
                 "technique": x.get("technique", "contract-based deductive verification (Verus) of the extracted real functions; executable contracts replayed on the real crate"),
                 "level": x.get("level", "proof"),
                 "level_note": x.get("note", "Verus discharges every obligation of the functions under contract, in every fork, for all inputs and iterations; hashing, SSZ roots and BLS are uninterpreted; the extraction and the verifier are trusted.")}
            checks.append(c)
        else:
            na.append({"property": i, "reason": NA.get(i, DEFAULT_NA)})
    m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na}
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)


main()
