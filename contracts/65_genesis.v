@@spec forks=phase0
pub open spec fn sp_genesis_fork(c: Context) -> Fork { Fork { previous_version: c.genesis_fork_version, current_version: c.genesis_fork_version, epoch: 0 } }
@@spec forks=altair
pub open spec fn sp_genesis_fork(c: Context) -> Fork { Fork { previous_version: c.altair_fork_version, current_version: c.altair_fork_version, epoch: 0 } }
@@spec forks=bellatrix
pub open spec fn sp_genesis_fork(c: Context) -> Fork { Fork { previous_version: c.bellatrix_fork_version, current_version: c.bellatrix_fork_version, epoch: 0 } }
@@spec forks=capella
pub open spec fn sp_genesis_fork(c: Context) -> Fork { Fork { previous_version: c.capella_fork_version, current_version: c.capella_fork_version, epoch: 0 } }
@@spec forks=deneb
pub open spec fn sp_genesis_fork(c: Context) -> Fork { Fork { previous_version: c.deneb_fork_version, current_version: c.deneb_fork_version, epoch: 0 } }
@@spec forks=electra
pub open spec fn sp_genesis_fork(c: Context) -> Fork { Fork { previous_version: c.electra_fork_version, current_version: c.electra_fork_version, epoch: 0 } }
@@vspec
pub open spec fn sp_blank() -> StateV { default_of::<BeaconState>()@ }
pub open spec fn sp_empty_body_root() -> Node { htr(default_of::<BeaconBlockBody>()) }
pub open spec fn sp_leaves_root(q: Seq<DepositData>) -> Node { htr(q) }
pub open spec fn sp_validators_root(s: StateV) -> Node { htr(s.validators) }
pub open spec fn sp_mixes_fit(n: int) -> bool { vector_fits::<Bytes32>(n) }
@@rust
pub fn sp_blank() -> StateV { RealBeaconState::default().cv() }
pub fn sp_empty_body_root() -> Node { use ssz_rs::HashTreeRoot; RealBeaconBlockBody::default().hash_tree_root().unwrap().cv() }
pub fn sp_leaves_root(q: Seq<DepositData>) -> Node { use ssz_rs::HashTreeRoot; let mut l = ec::ssz::prelude::List::<ec::phase0::DepositData, { 1usize << 32 }>::default(); for d in q.0.iter() { l.push(d.rv()); } l.hash_tree_root().unwrap().cv() }
pub fn sp_validators_root(s: StateV) -> Node { use ssz_rs::HashTreeRoot; s.rv().validators.hash_tree_root().unwrap().cv() }
pub fn sp_mixes_fit(n: int) -> bool { n == cg_EPOCHS_PER_HISTORICAL_VECTOR }
@@spec
pub open spec fn sp_genesis_header() -> BeaconBlockHeader { BeaconBlockHeader { slot: 0, proposer_index: 0, parent_root: zero_node(), state_root: zero_node(), body_root: sp_empty_body_root() } }
pub open spec fn sp_genesis_mixes(h: Bytes32, c: Context) -> Seq<Bytes32> { Seq::new(c.epochs_per_historical_vector as nat, |i: int| h) }
@@spec forks=phase0,altair
pub open spec fn sp_genesis_start(h: Bytes32, ts: int, n: int, c: Context) -> StateV {
    StateV { genesis_time: (ts + c.genesis_delay as int) as u64, fork: sp_genesis_fork(c), eth1_data: Eth1Data { deposit_root: zero_node(), deposit_count: n as u64, block_hash: h }, latest_block_header: sp_genesis_header(),
        randao_mixes: sp_genesis_mixes(h, c), ..sp_blank() }
}
@@spec forks=bellatrix+
pub open spec fn sp_genesis_start(h: Bytes32, ts: int, n: int, p: Option<ExecutionPayloadHeader>, c: Context) -> StateV {
    StateV { genesis_time: (ts + c.genesis_delay as int) as u64, fork: sp_genesis_fork(c), eth1_data: Eth1Data { deposit_root: zero_node(), deposit_count: n as u64, block_hash: h }, latest_block_header: sp_genesis_header(),
        randao_mixes: sp_genesis_mixes(h, c), latest_execution_payload_header: match p { Some(x) => x, None => sp_default_header() }, ..sp_blank() }
}
@@spec
// deposits in order, each against the root of the deposits up to it
pub open spec fn sp_leaves(q: Seq<Deposit>, n: int) -> Seq<DepositData> { Seq::new(n as nat, |i: int| q[i].data) }
pub open spec fn sp_with_root(s: StateV, q: Seq<Deposit>, k: int) -> StateV { StateV { eth1_data: Eth1Data { deposit_root: sp_leaves_root(sp_leaves(q, k)), ..s.eth1_data }, ..s } }
pub open spec fn sp_gen_run(s: StateV, q: Seq<Deposit>, k: int, c: Context) -> StateV
    decreases k
{
    if k <= 0 { s } else { let r = sp_gen_run(s, q, k - 1, c); sp_deposit(sp_with_root(r, q, k), q[k - 1], c) }
}
pub open spec fn sp_gen_run_ok(s: StateV, q: Seq<Deposit>, k: int, c: Context) -> bool
    decreases k
{
    if k <= 0 { true } else { sp_gen_run_ok(s, q, k - 1, c) && sp_deposit_ok(sp_with_root(sp_gen_run(s, q, k - 1, c), q, k), q[k - 1]) }
}
pub open spec fn sp_genesis_validator(v: Validator, b: int, c: Context) -> Validator {
    let e = vmin(b - b % (c.effective_balance_increment as int), c.max_effective_balance as int);
    if e == c.max_effective_balance as int { Validator { effective_balance: e as u64, activation_eligibility_epoch: 0, activation_epoch: 0, ..v } } else { Validator { effective_balance: e as u64, ..v } }
}
pub open spec fn sp_activated(s: StateV, c: Context) -> StateV { StateV { validators: Seq::new(s.validators.len() as nat, |i: int| sp_genesis_validator(s.validators[i], s.balances[i] as int, c)), ..s } }
@@spec forks=..deneb
pub open spec fn sp_genesis_paid(s: StateV) -> StateV { s }
@@spec forks=electra
// deposits do not wait for churn at genesis
pub open spec fn sp_paid(s: StateV, q: Seq<PendingBalanceDeposit>, k: int) -> StateV
    decreases k
{
    if k <= 0 { s } else { sp_increase_balance(sp_paid(s, q, k - 1), q[k - 1].index as int, q[k - 1].amount as int) }
}
pub open spec fn sp_genesis_paid(s: StateV) -> StateV { sp_paid(StateV { pending_balance_deposits: Seq::empty(), ..s }, s.pending_balance_deposits, s.pending_balance_deposits.len() as int) }
@@spec
pub open spec fn sp_genesis_registry(s: StateV, q: Seq<Deposit>, c: Context) -> StateV {
    let t = sp_activated(sp_genesis_paid(sp_gen_run(s, q, q.len() as int, c)), c); StateV { genesis_validators_root: sp_validators_root(t), ..t }
}
@@spec forks=phase0
pub open spec fn sp_genesis(s: StateV, q: Seq<Deposit>, c: Context) -> StateV { sp_genesis_registry(s, q, c) }
pub open spec fn sp_genesis_ok(s: StateV, q: Seq<Deposit>, c: Context) -> bool { sp_gen_run_ok(s, q, q.len() as int, c) }
@@spec forks=altair+
pub open spec fn sp_genesis(s: StateV, q: Seq<Deposit>, c: Context) -> StateV {
    let t = sp_genesis_registry(s, q, c); let k = sp_next_committee(t, c); StateV { current_sync_committee: k, next_sync_committee: k, ..t }
}
pub open spec fn sp_genesis_ok(s: StateV, q: Seq<Deposit>, c: Context) -> bool { sp_gen_run_ok(s, q, q.len() as int, c) && agg_key_ok(sp_next_keys(sp_genesis_registry(s, q, c), c)) }
@@spec
pub open spec fn sp_genesis_valid(s: StateV, c: Context) -> bool { s.genesis_time >= c.min_genesis_time && sp_active_indices(s, 0).len() as int >= c.min_genesis_active_validator_count as int }
@@vspec
pub open spec fn genesis_step_pre(s: StateV, d: Deposit, c: Context) -> bool { deposit_fits(s, d.data.public_key, d.data.amount as int) }
pub open spec fn genesis_pre(s: StateV, q: Seq<Deposit>, c: Context) -> bool {
    forall|k: int| 0 <= k < q.len() && #[trigger] sp_gen_run_ok(s, q, k, c) ==> genesis_step_pre(sp_gen_run(s, q, k, c), q[k], c)
}
pub proof fn lemma_gen_run_err(s: StateV, q: Seq<Deposit>, k: int, n: int, c: Context)
    requires k <= n, !sp_gen_run_ok(s, q, k, c) ensures !sp_gen_run_ok(s, q, n, c)
    decreases n
{
    if k < n { lemma_gen_run_err(s, q, k, n - 1, c); }
}
pub open spec fn sp_activated_to(s: StateV, n: int, c: Context) -> Seq<Validator> { Seq::new(s.validators.len() as nat, |i: int| if i < n { sp_genesis_validator(s.validators[i], s.balances[i] as int, c) } else { s.validators[i] }) }
@@vspec forks=..deneb
pub open spec fn pending_known(s: StateV) -> bool { true }
@@vspec forks=electra
pub open spec fn pending_known(s: StateV) -> bool { forall|j: int| 0 <= j < s.pending_balance_deposits.len() ==> (#[trigger] s.pending_balance_deposits[j]).index < s.validators.len() }
pub open spec fn paid_pre(s: StateV, q: Seq<Deposit>, c: Context) -> bool {
    sp_gen_run_ok(s, q, q.len() as int, c) ==> ({
        let t = sp_gen_run(s, q, q.len() as int, c); let b = StateV { pending_balance_deposits: Seq::empty(), ..t }; let p = t.pending_balance_deposits;
        forall|k: int| 0 <= k < p.len() ==> (#[trigger] sp_paid(b, p, k)).balances[p[k].index as int] + p[k].amount <= u64::MAX
    })
}
pub proof fn lemma_paid_shape(s: StateV, q: Seq<PendingBalanceDeposit>, k: int)
    ensures sp_paid(s, q, k).validators == s.validators, sp_paid(s, q, k).balances.len() == s.balances.len(), wf_len(s) ==> wf_len(sp_paid(s, q, k))
    decreases k
{
    if k > 0 { lemma_paid_shape(s, q, k - 1); }
}
@@vspec
// the registry and the balances stay in step
pub proof fn lemma_deposit_shape(s: StateV, d: Deposit, c: Context)
    requires wf_len(s), pending_known(s), s.validators.len() < pow2_40() - 1, s.eth1_deposit_index < u64::MAX
    ensures ({ let t = sp_deposit(s, d, c); &&& wf_len(t) && pending_known(t) && t.eth1_deposit_index == s.eth1_deposit_index + 1 && s.validators.len() <= t.validators.len() <= s.validators.len() + 1 })
{
    lemma_first_key(s.validators, d.data.public_key, s.validators.len() as int);
}
pub proof fn lemma_gen_shape(s: StateV, q: Seq<Deposit>, k: int, c: Context)
    requires wf_len(s), pending_known(s), s.validators.len() == 0, s.eth1_deposit_index == 0, 0 <= k <= q.len(), q.len() < pow2_40()
    ensures ({ let t = sp_gen_run(s, q, k, c); &&& wf_len(t) && pending_known(t) && t.eth1_deposit_index == k && t.validators.len() <= k })
    decreases k
{
    if k > 0 { lemma_gen_shape(s, q, k - 1, c); lemma_deposit_shape(sp_with_root(sp_gen_run(s, q, k - 1, c), q, k), q[k - 1], c); }
}
@@vspec forks=altair+
pub open spec fn genesis_final_pre(s: StateV, q: Seq<Deposit>, c: Context) -> bool { sp_gen_run_ok(s, q, q.len() as int, c) ==> sampling_ok(sp_genesis_registry(s, q, c), c) && wf_eff(sp_genesis_registry(s, q, c).validators) }

@@fn initialize_beacon_state_from_eth1 forks=phase0
requires wf_ctx(*context), deposits@.len() < pow2_40(), eth1_timestamp + context.genesis_delay <= u64::MAX, genesis_pre(sp_genesis_start(eth1_block_hash, eth1_timestamp as int, deposits@.len() as int, *context), deposits@, *context), sp_mixes_fit(context.epochs_per_historical_vector as int)
ensures r is Ok <==> sp_genesis_ok(sp_genesis_start(eth1_block_hash, eth1_timestamp as int, deposits@.len() as int, *context), deposits@, *context), r matches Ok(x) ==> x@ == sp_genesis(sp_genesis_start(eth1_block_hash, eth1_timestamp as int, deposits@.len() as int, *context), deposits@, *context)
@ start
hide(sp_deposit); hide(sp_deposit_ok); hide(sp_gen_run); hide(sp_gen_run_ok);
let ghost c = *context; let ghost q = deposits@; let ghost s0 = sp_genesis_start(eth1_block_hash, eth1_timestamp as int, deposits@.len() as int, *context); let ghost n = q.len() as int; let ghost t0 = sp_gen_run(s0, q, n, c); let ghost t1 = sp_genesis_paid(t0);
proof { reveal(sp_gen_run); reveal(sp_gen_run_ok); axiom_default_BeaconState_lists(); }
@ before 0
proof { assert(leaves@ =~= sp_leaves(q, 0)); assert(state@ =~= s0); assert(wf_len(s0)); }
@ loop 0
invariant c == *context, q == deposits@, n == q.len(), n < pow2_40(), wf_ctx(c), wf_len(s0), s0.eth1_deposit_index == 0, s0.validators.len() == 0, genesis_pre(s0, q, c), __i0 <= n, leaves@ == sp_leaves(q, __i0 as int), state@ == sp_gen_run(s0, q, __i0 as int, c), sp_gen_run_ok(s0, q, __i0 as int, c)
@ loopstart 0
proof {
    lemma_gen_shape(s0, q, __i0 as int, c); assert(genesis_step_pre(state@, q[__i0 as int], c));
    if !sp_gen_run_ok(s0, q, __i0 as int + 1, c) { lemma_gen_run_err(s0, q, __i0 as int + 1, n, c); }
    assert(sp_leaves(q, __i0 as int).push(q[__i0 as int].data) =~= sp_leaves(q, __i0 + 1));
    reveal(sp_gen_run); reveal(sp_gen_run_ok);
}
@ before 1
let ghost u0 = state@; proof { lemma_gen_shape(s0, q, n, c); assert(u0.validators =~= sp_activated_to(u0, 0, c)); }
@ loop 1
invariant c == *context, wf_ctx(c), __n1 == u0.validators.len(), u0.balances.len() == u0.validators.len(), __i1 <= __n1, state@ == (StateV { validators: sp_activated_to(u0, __i1 as int, c), ..u0 })
@ loopstart 1
let ghost v0 = state@.validators; proof { lemma_mod_le(state@.balances[__i1 as int] as int, c.effective_balance_increment as int); assert(v0.update(__i1 as int, v0[__i1 as int]) =~= v0); }
@ loopend 1
proof { assert(state@.validators =~= sp_activated_to(u0, __i1 as int, c)); assert(state@ == (StateV { validators: state@.validators, ..u0 })); }
@ after 1
proof { assert(sp_activated_to(u0, u0.validators.len() as int, c) =~= sp_activated(u0, c).validators); assert(state@ == sp_activated(u0, c)); }
@@fn initialize_beacon_state_from_eth1 forks=altair
requires wf_ctx(*context), deposits@.len() < pow2_40(), eth1_timestamp + context.genesis_delay <= u64::MAX, genesis_pre(sp_genesis_start(eth1_block_hash, eth1_timestamp as int, deposits@.len() as int, *context), deposits@, *context), sync_ctx(*context), genesis_final_pre(sp_genesis_start(eth1_block_hash, eth1_timestamp as int, deposits@.len() as int, *context), deposits@, *context)
ensures r is Ok <==> (sp_mixes_fit(context.epochs_per_historical_vector as int) && sp_genesis_ok(sp_genesis_start(eth1_block_hash, eth1_timestamp as int, deposits@.len() as int, *context), deposits@, *context)), r matches Ok(x) ==> x@ == sp_genesis(sp_genesis_start(eth1_block_hash, eth1_timestamp as int, deposits@.len() as int, *context), deposits@, *context)
@ start
hide(sp_deposit); hide(sp_deposit_ok); hide(sp_gen_run); hide(sp_gen_run_ok);
let ghost c = *context; let ghost q = deposits@; let ghost s0 = sp_genesis_start(eth1_block_hash, eth1_timestamp as int, deposits@.len() as int, *context); let ghost n = q.len() as int; let ghost t0 = sp_gen_run(s0, q, n, c); let ghost t1 = sp_genesis_paid(t0);
proof { reveal(sp_gen_run); reveal(sp_gen_run_ok); axiom_default_BeaconState_lists(); }
@ before 0
proof { assert(leaves@ =~= sp_leaves(q, 0)); assert(state@ =~= s0); assert(wf_len(s0)); }
@ loop 0
invariant c == *context, q == deposits@, n == q.len(), n < pow2_40(), wf_ctx(c), wf_len(s0), s0.eth1_deposit_index == 0, s0.validators.len() == 0, genesis_pre(s0, q, c), __i0 <= n, leaves@ == sp_leaves(q, __i0 as int), state@ == sp_gen_run(s0, q, __i0 as int, c), sp_gen_run_ok(s0, q, __i0 as int, c)
@ loopstart 0
proof {
    lemma_gen_shape(s0, q, __i0 as int, c); assert(genesis_step_pre(state@, q[__i0 as int], c));
    if !sp_gen_run_ok(s0, q, __i0 as int + 1, c) { lemma_gen_run_err(s0, q, __i0 as int + 1, n, c); }
    assert(sp_leaves(q, __i0 as int).push(q[__i0 as int].data) =~= sp_leaves(q, __i0 + 1));
    reveal(sp_gen_run); reveal(sp_gen_run_ok);
}
@ before 1
let ghost u0 = state@; proof { lemma_gen_shape(s0, q, n, c); assert(u0.validators =~= sp_activated_to(u0, 0, c)); }
@ loop 1
invariant c == *context, wf_ctx(c), __n1 == u0.validators.len(), u0.balances.len() == u0.validators.len(), __i1 <= __n1, state@ == (StateV { validators: sp_activated_to(u0, __i1 as int, c), ..u0 })
@ loopstart 1
let ghost v0 = state@.validators; proof { lemma_mod_le(state@.balances[__i1 as int] as int, c.effective_balance_increment as int); assert(v0.update(__i1 as int, v0[__i1 as int]) =~= v0); }
@ loopend 1
proof { assert(state@.validators =~= sp_activated_to(u0, __i1 as int, c)); assert(state@ == (StateV { validators: state@.validators, ..u0 })); }
@ after 1
proof { assert(sp_activated_to(u0, u0.validators.len() as int, c) =~= sp_activated(u0, c).validators); assert(state@ == sp_activated(u0, c)); }
@@fn initialize_beacon_state_from_eth1 forks=bellatrix-deneb
requires wf_ctx(*context), deposits@.len() < pow2_40(), eth1_timestamp + context.genesis_delay <= u64::MAX, genesis_pre(sp_genesis_start(eth1_block_hash, eth1_timestamp as int, deposits@.len() as int, (match execution_payload_header { Some(x) => Some(*x), None => None }), *context), deposits@, *context), sync_ctx(*context), genesis_final_pre(sp_genesis_start(eth1_block_hash, eth1_timestamp as int, deposits@.len() as int, (match execution_payload_header { Some(x) => Some(*x), None => None }), *context), deposits@, *context)
ensures r is Ok <==> (sp_mixes_fit(context.epochs_per_historical_vector as int) && sp_genesis_ok(sp_genesis_start(eth1_block_hash, eth1_timestamp as int, deposits@.len() as int, (match execution_payload_header { Some(x) => Some(*x), None => None }), *context), deposits@, *context)), r matches Ok(x) ==> x@ == sp_genesis(sp_genesis_start(eth1_block_hash, eth1_timestamp as int, deposits@.len() as int, (match execution_payload_header { Some(x) => Some(*x), None => None }), *context), deposits@, *context)
@ start
hide(sp_deposit); hide(sp_deposit_ok); hide(sp_gen_run); hide(sp_gen_run_ok);
let ghost c = *context; let ghost q = deposits@; let ghost s0 = sp_genesis_start(eth1_block_hash, eth1_timestamp as int, deposits@.len() as int, (match execution_payload_header { Some(x) => Some(*x), None => None }), *context); let ghost n = q.len() as int; let ghost t0 = sp_gen_run(s0, q, n, c); let ghost t1 = sp_genesis_paid(t0);
proof { reveal(sp_gen_run); reveal(sp_gen_run_ok); axiom_default_BeaconState_lists(); }
@ before 0
proof { assert(leaves@ =~= sp_leaves(q, 0)); assert(state@ =~= s0); assert(wf_len(s0)); }
@ loop 0
invariant c == *context, q == deposits@, n == q.len(), n < pow2_40(), wf_ctx(c), wf_len(s0), s0.eth1_deposit_index == 0, s0.validators.len() == 0, genesis_pre(s0, q, c), __i0 <= n, leaves@ == sp_leaves(q, __i0 as int), state@ == sp_gen_run(s0, q, __i0 as int, c), sp_gen_run_ok(s0, q, __i0 as int, c)
@ loopstart 0
proof {
    lemma_gen_shape(s0, q, __i0 as int, c); assert(genesis_step_pre(state@, q[__i0 as int], c));
    if !sp_gen_run_ok(s0, q, __i0 as int + 1, c) { lemma_gen_run_err(s0, q, __i0 as int + 1, n, c); }
    assert(sp_leaves(q, __i0 as int).push(q[__i0 as int].data) =~= sp_leaves(q, __i0 + 1));
    reveal(sp_gen_run); reveal(sp_gen_run_ok);
}
@ before 1
let ghost u0 = state@; proof { lemma_gen_shape(s0, q, n, c); assert(u0.validators =~= sp_activated_to(u0, 0, c)); }
@ loop 1
invariant c == *context, wf_ctx(c), __n1 == u0.validators.len(), u0.balances.len() == u0.validators.len(), __i1 <= __n1, state@ == (StateV { validators: sp_activated_to(u0, __i1 as int, c), ..u0 })
@ loopstart 1
let ghost v0 = state@.validators; proof { lemma_mod_le(state@.balances[__i1 as int] as int, c.effective_balance_increment as int); assert(v0.update(__i1 as int, v0[__i1 as int]) =~= v0); }
@ loopend 1
proof { assert(state@.validators =~= sp_activated_to(u0, __i1 as int, c)); assert(state@ == (StateV { validators: state@.validators, ..u0 })); }
@ after 1
proof { assert(sp_activated_to(u0, u0.validators.len() as int, c) =~= sp_activated(u0, c).validators); assert(state@ == sp_activated(u0, c)); }
@@fn initialize_beacon_state_from_eth1 forks=electra
requires wf_ctx(*context), deposits@.len() < pow2_40(), eth1_timestamp + context.genesis_delay <= u64::MAX, genesis_pre(sp_genesis_start(eth1_block_hash, eth1_timestamp as int, deposits@.len() as int, (match execution_payload_header { Some(x) => Some(*x), None => None }), *context), deposits@, *context), sync_ctx(*context), genesis_final_pre(sp_genesis_start(eth1_block_hash, eth1_timestamp as int, deposits@.len() as int, (match execution_payload_header { Some(x) => Some(*x), None => None }), *context), deposits@, *context), paid_pre(sp_genesis_start(eth1_block_hash, eth1_timestamp as int, deposits@.len() as int, (match execution_payload_header { Some(x) => Some(*x), None => None }), *context), deposits@, *context)
ensures r is Ok <==> (sp_mixes_fit(context.epochs_per_historical_vector as int) && sp_genesis_ok(sp_genesis_start(eth1_block_hash, eth1_timestamp as int, deposits@.len() as int, (match execution_payload_header { Some(x) => Some(*x), None => None }), *context), deposits@, *context)), r matches Ok(x) ==> x@ == sp_genesis(sp_genesis_start(eth1_block_hash, eth1_timestamp as int, deposits@.len() as int, (match execution_payload_header { Some(x) => Some(*x), None => None }), *context), deposits@, *context)
@ start
hide(sp_deposit); hide(sp_deposit_ok); hide(sp_gen_run); hide(sp_gen_run_ok);
let ghost c = *context; let ghost q = deposits@; let ghost s0 = sp_genesis_start(eth1_block_hash, eth1_timestamp as int, deposits@.len() as int, (match execution_payload_header { Some(x) => Some(*x), None => None }), *context); let ghost n = q.len() as int; let ghost t0 = sp_gen_run(s0, q, n, c); let ghost t1 = sp_genesis_paid(t0);
proof { reveal(sp_gen_run); reveal(sp_gen_run_ok); axiom_default_BeaconState_lists(); }
@ before 0
proof { assert(leaves@ =~= sp_leaves(q, 0)); assert(state@ =~= s0); assert(wf_len(s0)); }
@ loop 0
invariant c == *context, q == deposits@, n == q.len(), n < pow2_40(), wf_ctx(c), wf_len(s0), s0.eth1_deposit_index == 0, s0.validators.len() == 0, s0.pending_balance_deposits.len() == 0, genesis_pre(s0, q, c), __i0 <= n, leaves@ == sp_leaves(q, __i0 as int), state@ == sp_gen_run(s0, q, __i0 as int, c), sp_gen_run_ok(s0, q, __i0 as int, c)
@ loopstart 0
proof {
    lemma_gen_shape(s0, q, __i0 as int, c); assert(genesis_step_pre(state@, q[__i0 as int], c));
    if !sp_gen_run_ok(s0, q, __i0 as int + 1, c) { lemma_gen_run_err(s0, q, __i0 as int + 1, n, c); }
    assert(sp_leaves(q, __i0 as int).push(q[__i0 as int].data) =~= sp_leaves(q, __i0 + 1));
    reveal(sp_gen_run); reveal(sp_gen_run_ok);
}
@ after 0
proof { lemma_gen_shape(s0, q, n, c); }
@ loop 1
invariant c == *context, q == deposits@, n == q.len(), t0 == sp_gen_run(s0, q, n, c), pending_balance_deposits@ == t0.pending_balance_deposits, __i1 <= pending_balance_deposits@.len(), state@ == sp_paid(StateV { pending_balance_deposits: Seq::empty(), ..t0 }, t0.pending_balance_deposits, __i1 as int),
    pending_known(t0), state@.balances.len() == t0.balances.len(), paid_pre(s0, q, c), sp_gen_run_ok(s0, q, n, c)
@ loopstart 1
proof { assert(t0.pending_balance_deposits[__i1 as int].index < t0.balances.len()); }
@ before 2
let ghost u0 = state@; proof { lemma_paid_shape(StateV { pending_balance_deposits: Seq::empty(), ..t0 }, t0.pending_balance_deposits, t0.pending_balance_deposits.len() as int); assert(u0.validators =~= sp_activated_to(u0, 0, c)); }
@ loop 2
invariant c == *context, wf_ctx(c), __n2 == u0.validators.len(), u0.balances.len() == u0.validators.len(), __i2 <= __n2, state@ == (StateV { validators: sp_activated_to(u0, __i2 as int, c), ..u0 })
@ loopstart 2
let ghost v0 = state@.validators; proof { lemma_mod_le(state@.balances[__i2 as int] as int, c.effective_balance_increment as int); assert(v0.update(__i2 as int, v0[__i2 as int]) =~= v0); }
@ loopend 2
proof { assert(state@.validators =~= sp_activated_to(u0, __i2 as int, c)); assert(state@ == (StateV { validators: state@.validators, ..u0 })); }
@ after 2
proof { assert(sp_activated_to(u0, u0.validators.len() as int, c) =~= sp_activated(u0, c).validators); assert(state@ == sp_activated(u0, c)); }
@@fn is_valid_genesis_state
requires wf_len(state@)
ensures r == sp_genesis_valid(state@, *context)
@@fn get_genesis_block forks=phase0
ensures r matches Ok(b) && b == (BeaconBlock { state_root: htr(genesis_state@), ..default_of::<BeaconBlock>() })
@@rust
/// deposits in the order of the genesis list, each with its branch in the list of the deposits up to it
pub fn gen_genesis_deposits(g: &mut G, c: &RealCtx, n: usize) -> Vec<ec::phase0::Deposit> {
    use sha2::Digest;
    let mut st = gen_state(g, c); st.validators.truncate(5); let mut q = vec![];
    let mut leaves: Vec<Node> = vec![];
    let h2 = |a: Node, b: Node| Node { data: sha256(nb(a) + nb(b)).data };
    let mut zeros = vec![zero_node()]; for k in 0..32 { let z = zeros[k]; zeros.push(h2(z, z)); }
    for k in 0..n {
        let d = gen_deposit_data(g, &st, c); leaves.push(d.cv().htr1());
        let mut row = leaves.clone(); let mut i = k; let mut x = ec::phase0::Deposit::default(); x.data = d;
        for h in 0..32 {
            if row.len() % 2 == 1 { row.push(zeros[h]); }
            x.proof[h] = row[i ^ 1].rv(); row = row.chunks(2).map(|p| h2(p[0], p[1])).collect(); i /= 2;
        }
        let mut len = ec::ssz::prelude::Node::default(); len[..8].copy_from_slice(&(k as u64 + 1).to_le_bytes()); x.proof[32] = len;
        if g.chance(3) { let j = g.idx(33); x.proof[j] = g.node(); }
        q.push(x);
    }
    q
}
@@rust forks=phase0
pub fn genesis_of(h: ec::primitives::Bytes32, ts: u64, q: &[ec::phase0::Deposit], c: &RealCtx) -> Result<RealBeaconState, String> { sp::initialize_beacon_state_from_eth1::<64, 16777216, 32, 1099511627776, 64, 64, 2048, 1024, 16, 2, 128, 16, 16>(h, ts, q, c).map_err(|e| format!("{e:?}")) }
@@rust forks=altair
pub fn genesis_of(h: ec::primitives::Bytes32, ts: u64, q: &[ec::phase0::Deposit], c: &RealCtx) -> Result<RealBeaconState, String> { sp::initialize_beacon_state_from_eth1::<64, 16777216, 32, 1099511627776, 64, 64, 2048, 32, 16, 2, 128, 16, 16>(h, ts, q, c).map_err(|e| format!("{e:?}")) }
@@rust forks=bellatrix
pub fn genesis_of(h: ec::primitives::Bytes32, ts: u64, q: &[ec::phase0::Deposit], p: Option<&RealExecutionPayloadHeader>, c: &RealCtx) -> Result<RealBeaconState, String> { sp::initialize_beacon_state_from_eth1::<64, 16777216, 32, 1099511627776, 64, 64, 2048, 32, 16, 2, 128, 16, 16, 256, 32, 1073741824, 1048576>(h, ts, q, p, c).map_err(|e| format!("{e:?}")) }
@@rust forks=capella
pub fn genesis_of(h: ec::primitives::Bytes32, ts: u64, q: &[ec::phase0::Deposit], p: Option<&RealExecutionPayloadHeader>, c: &RealCtx) -> Result<RealBeaconState, String> { sp::initialize_beacon_state_from_eth1::<64, 16777216, 32, 1099511627776, 64, 64, 2048, 32, 16, 2, 128, 16, 16, 256, 32, 1073741824, 1048576, 4, 16>(h, ts, q, p, c).map_err(|e| format!("{e:?}")) }
@@rust forks=deneb
pub fn genesis_of(h: ec::primitives::Bytes32, ts: u64, q: &[ec::phase0::Deposit], p: Option<&RealExecutionPayloadHeader>, c: &RealCtx) -> Result<RealBeaconState, String> { sp::initialize_beacon_state_from_eth1::<64, 16777216, 32, 1099511627776, 64, 64, 2048, 32, 16, 2, 128, 16, 16, 256, 32, 1073741824, 1048576, 4, 16, 16>(h, ts, q, p, c).map_err(|e| format!("{e:?}")) }
@@rust forks=electra
pub fn genesis_of(h: ec::primitives::Bytes32, ts: u64, q: &[ec::phase0::Deposit], p: Option<&RealExecutionPayloadHeader>, c: &RealCtx) -> Result<RealBeaconState, String> { sp::initialize_beacon_state_from_eth1::<64, 16777216, 32, 1099511627776, 64, 64, 2048, 32, 134217728, 64, 64, 16, 8192, 4, 1, 8, 16, 16, 256, 32, 1073741824, 1048576, 4, 4, 2, 16, 16, 1>(h, ts, q, p, c).map_err(|e| format!("{e:?}")) }
@@test genesis props=C31 forks=phase0 n=40
let c = gen_ctx(g); let n = g.idx(9); let q = gen_genesis_deposits(g, &c, n); let h = g.b32(); let ts = g.below(1 << 40); let cc = c.cv(); let m = q.cv();
let s0 = sp_genesis_start(h.cv(), ts as int, n as int, cc);
let run = sp_gen_run_ok(s0, m, n as int, cc);
let ok = run; g.note("genesis", ok);
match genesis_of(h.clone(), ts, &q, &c) {
    Ok(x) => { chk!(ok, "initialize_beacon_state_from_eth1 accepted deposits {q:?}"); seq_st!(x, sp_genesis(s0, m, cc), "initialize_beacon_state_from_eth1 with deposits {q:?}");
        g.note("valid", sp_genesis_valid(x.cv(), cc)); eqv!(sp::is_valid_genesis_state(&x, &c), sp_genesis_valid(x.cv(), cc), "is_valid_genesis_state"); }
    Err(e) => chk!(!ok, "initialize_beacon_state_from_eth1: {e:?} for deposits {q:?}"),
}
let mut c = c; let mut st = gen_state(g, &c); c.min_genesis_time = g.near(st.genesis_time); let a = sp_active_indices(st.cv(), 0).len() as u64; c.min_genesis_active_validator_count = g.near(a) as usize;
eqv!(sp::is_valid_genesis_state(&st, &c), sp_genesis_valid(st.cv(), c.cv()), "is_valid_genesis_state at time {} (minimum {}), {} active (minimum {})", st.genesis_time, c.min_genesis_time, a, c.min_genesis_active_validator_count);
@@test genesis props=C31 forks=altair n=40
let c = gen_ctx(g); let n = g.idx(9); let q = gen_genesis_deposits(g, &c, n); let h = g.b32(); let ts = g.below(1 << 40); let cc = c.cv(); let m = q.cv();
let s0 = sp_genesis_start(h.cv(), ts as int, n as int, cc);
let run = sp_gen_run_ok(s0, m, n as int, cc);
if run && sp_active_indices(sp_genesis_registry(s0, m, cc), 0).len() as int == 0 as int { return Ok(()); } let ok = run && sp_genesis_ok(s0, m, cc); g.note("genesis", ok);
match genesis_of(h.clone(), ts, &q, &c) {
    Ok(x) => { chk!(ok, "initialize_beacon_state_from_eth1 accepted deposits {q:?}"); seq_st!(x, sp_genesis(s0, m, cc), "initialize_beacon_state_from_eth1 with deposits {q:?}");
        g.note("valid", sp_genesis_valid(x.cv(), cc)); eqv!(sp::is_valid_genesis_state(&x, &c), sp_genesis_valid(x.cv(), cc), "is_valid_genesis_state"); }
    Err(e) => chk!(!ok, "initialize_beacon_state_from_eth1: {e:?} for deposits {q:?}"),
}
let mut c = c; let mut st = gen_state(g, &c); c.min_genesis_time = g.near(st.genesis_time); let a = sp_active_indices(st.cv(), 0).len() as u64; c.min_genesis_active_validator_count = g.near(a) as usize;
eqv!(sp::is_valid_genesis_state(&st, &c), sp_genesis_valid(st.cv(), c.cv()), "is_valid_genesis_state at time {} (minimum {}), {} active (minimum {})", st.genesis_time, c.min_genesis_time, a, c.min_genesis_active_validator_count);
@@test genesis props=C31 forks=bellatrix+ n=40
let c = gen_ctx(g); let n = g.idx(9); let q = gen_genesis_deposits(g, &c, n); let h = g.b32(); let ts = g.below(1 << 40); let cc = c.cv(); let m = q.cv();
let hd = if g.bool() { Some(gen_state(g, &c).latest_execution_payload_header) } else { None }; let p = hd.as_ref().map(|x| x.cv()); let s0 = sp_genesis_start(h.cv(), ts as int, n as int, p, cc);
let run = sp_gen_run_ok(s0, m, n as int, cc);
if run && sp_active_indices(sp_genesis_registry(s0, m, cc), 0).len() as int == 0 as int { return Ok(()); } let ok = run && sp_genesis_ok(s0, m, cc); g.note("genesis", ok);
match genesis_of(h.clone(), ts, &q, hd.as_ref(), &c) {
    Ok(x) => { chk!(ok, "initialize_beacon_state_from_eth1 accepted deposits {q:?}"); seq_st!(x, sp_genesis(s0, m, cc), "initialize_beacon_state_from_eth1 with deposits {q:?}");
        g.note("valid", sp_genesis_valid(x.cv(), cc)); eqv!(sp::is_valid_genesis_state(&x, &c), sp_genesis_valid(x.cv(), cc), "is_valid_genesis_state"); }
    Err(e) => chk!(!ok, "initialize_beacon_state_from_eth1: {e:?} for deposits {q:?}"),
}
let mut c = c; let mut st = gen_state(g, &c); c.min_genesis_time = g.near(st.genesis_time); let a = sp_active_indices(st.cv(), 0).len() as u64; c.min_genesis_active_validator_count = g.near(a) as usize;
eqv!(sp::is_valid_genesis_state(&st, &c), sp_genesis_valid(st.cv(), c.cv()), "is_valid_genesis_state at time {} (minimum {}), {} active (minimum {})", st.genesis_time, c.min_genesis_time, a, c.min_genesis_active_validator_count);
@@test genesis_block props=C31 forks=phase0 n=20
let c = gen_ctx(g); let st = gen_state(g, &c); let b = sp::get_genesis_block::<64, 16777216, 32, 1099511627776, 64, 64, 2048, 1024, 16, 2, 128, 16, 16>(&st).unwrap(); let mut w = RealBeaconBlock::default(); w.state_root = { use ssz_rs::HashTreeRoot; st.hash_tree_root().unwrap() };
chk!(b == w, "get_genesis_block");
