@@spec forks=altair+
pub open spec fn sp_forked(f: Fork, version: [u8; 4], slot: int, c: Context) -> Fork { Fork { previous_version: f.current_version, current_version: version, epoch: (slot / (c.slots_per_epoch as int)) as u64 } }
@@spec forks=altair
pub open spec fn sp_carried(s: phase0__StateV, c: Context) -> StateV {
    StateV { genesis_time: s.genesis_time, genesis_validators_root: s.genesis_validators_root, slot: s.slot, latest_block_header: s.latest_block_header, block_roots: s.block_roots, state_roots: s.state_roots, historical_roots: s.historical_roots, eth1_data: s.eth1_data, eth1_data_votes: s.eth1_data_votes, eth1_deposit_index: s.eth1_deposit_index, validators: s.validators, balances: s.balances, randao_mixes: s.randao_mixes, slashings: s.slashings, justification_bits: s.justification_bits, previous_justified_checkpoint: s.previous_justified_checkpoint, current_justified_checkpoint: s.current_justified_checkpoint, finalized_checkpoint: s.finalized_checkpoint,
        fork: sp_forked(s.fork, c.altair_fork_version, s.slot as int, c),
        previous_epoch_participation: zeros8(s.validators.len() as int), current_epoch_participation: zeros8(s.validators.len() as int), inactivity_scores: zeros64(s.validators.len() as int), current_sync_committee: sp_no_committee(), next_sync_committee: sp_no_committee() }
}
@@spec forks=bellatrix
pub open spec fn sp_carried(s: altair__StateV, c: Context) -> StateV {
    StateV { genesis_time: s.genesis_time, genesis_validators_root: s.genesis_validators_root, slot: s.slot, latest_block_header: s.latest_block_header, block_roots: s.block_roots, state_roots: s.state_roots, historical_roots: s.historical_roots, eth1_data: s.eth1_data, eth1_data_votes: s.eth1_data_votes, eth1_deposit_index: s.eth1_deposit_index, validators: s.validators, balances: s.balances, randao_mixes: s.randao_mixes, slashings: s.slashings, justification_bits: s.justification_bits, previous_justified_checkpoint: s.previous_justified_checkpoint, current_justified_checkpoint: s.current_justified_checkpoint, finalized_checkpoint: s.finalized_checkpoint, previous_epoch_participation: s.previous_epoch_participation, current_epoch_participation: s.current_epoch_participation, inactivity_scores: s.inactivity_scores, current_sync_committee: s.current_sync_committee, next_sync_committee: s.next_sync_committee,
        fork: sp_forked(s.fork, c.bellatrix_fork_version, s.slot as int, c),
        latest_execution_payload_header: sp_default_header() }
}
@@spec forks=capella
pub open spec fn sp_header_up(h: bellatrix__ExecutionPayloadHeader) -> ExecutionPayloadHeader {
    ExecutionPayloadHeader { parent_hash: h.parent_hash, fee_recipient: h.fee_recipient, state_root: h.state_root, receipts_root: h.receipts_root, logs_bloom: h.logs_bloom, prev_randao: h.prev_randao, block_number: h.block_number, gas_limit: h.gas_limit, gas_used: h.gas_used, timestamp: h.timestamp, extra_data: h.extra_data, base_fee_per_gas: h.base_fee_per_gas, block_hash: h.block_hash, transactions_root: h.transactions_root,
        withdrawals_root: zero_node() }
}
pub open spec fn sp_carried(s: bellatrix__StateV, c: Context) -> StateV {
    StateV { genesis_time: s.genesis_time, genesis_validators_root: s.genesis_validators_root, slot: s.slot, latest_block_header: s.latest_block_header, block_roots: s.block_roots, state_roots: s.state_roots, historical_roots: s.historical_roots, eth1_data: s.eth1_data, eth1_data_votes: s.eth1_data_votes, eth1_deposit_index: s.eth1_deposit_index, validators: s.validators, balances: s.balances, randao_mixes: s.randao_mixes, slashings: s.slashings, justification_bits: s.justification_bits, previous_justified_checkpoint: s.previous_justified_checkpoint, current_justified_checkpoint: s.current_justified_checkpoint, finalized_checkpoint: s.finalized_checkpoint, previous_epoch_participation: s.previous_epoch_participation, current_epoch_participation: s.current_epoch_participation, inactivity_scores: s.inactivity_scores, current_sync_committee: s.current_sync_committee, next_sync_committee: s.next_sync_committee,
        fork: sp_forked(s.fork, c.capella_fork_version, s.slot as int, c),
        latest_execution_payload_header: sp_header_up(s.latest_execution_payload_header), next_withdrawal_index: 0, next_withdrawal_validator_index: 0, historical_summaries: Seq::empty() }
}
@@spec forks=deneb
pub open spec fn sp_header_up(h: capella__ExecutionPayloadHeader) -> ExecutionPayloadHeader {
    ExecutionPayloadHeader { parent_hash: h.parent_hash, fee_recipient: h.fee_recipient, state_root: h.state_root, receipts_root: h.receipts_root, logs_bloom: h.logs_bloom, prev_randao: h.prev_randao, block_number: h.block_number, gas_limit: h.gas_limit, gas_used: h.gas_used, timestamp: h.timestamp, extra_data: h.extra_data, base_fee_per_gas: h.base_fee_per_gas, block_hash: h.block_hash, transactions_root: h.transactions_root, withdrawals_root: h.withdrawals_root,
        blob_gas_used: 0, excess_blob_gas: 0 }
}
pub open spec fn sp_carried(s: capella__StateV, c: Context) -> StateV {
    StateV { genesis_time: s.genesis_time, genesis_validators_root: s.genesis_validators_root, slot: s.slot, latest_block_header: s.latest_block_header, block_roots: s.block_roots, state_roots: s.state_roots, historical_roots: s.historical_roots, eth1_data: s.eth1_data, eth1_data_votes: s.eth1_data_votes, eth1_deposit_index: s.eth1_deposit_index, validators: s.validators, balances: s.balances, randao_mixes: s.randao_mixes, slashings: s.slashings, justification_bits: s.justification_bits, previous_justified_checkpoint: s.previous_justified_checkpoint, current_justified_checkpoint: s.current_justified_checkpoint, finalized_checkpoint: s.finalized_checkpoint, previous_epoch_participation: s.previous_epoch_participation, current_epoch_participation: s.current_epoch_participation, inactivity_scores: s.inactivity_scores, current_sync_committee: s.current_sync_committee, next_sync_committee: s.next_sync_committee, next_withdrawal_index: s.next_withdrawal_index, next_withdrawal_validator_index: s.next_withdrawal_validator_index, historical_summaries: s.historical_summaries,
        fork: sp_forked(s.fork, c.deneb_fork_version, s.slot as int, c),
        latest_execution_payload_header: sp_header_up(s.latest_execution_payload_header) }
}
@@spec forks=electra
pub open spec fn sp_header_up(h: deneb__ExecutionPayloadHeader) -> ExecutionPayloadHeader {
    ExecutionPayloadHeader { parent_hash: h.parent_hash, fee_recipient: h.fee_recipient, state_root: h.state_root, receipts_root: h.receipts_root, logs_bloom: h.logs_bloom, prev_randao: h.prev_randao, block_number: h.block_number, gas_limit: h.gas_limit, gas_used: h.gas_used, timestamp: h.timestamp, extra_data: h.extra_data, base_fee_per_gas: h.base_fee_per_gas, block_hash: h.block_hash, transactions_root: h.transactions_root, withdrawals_root: h.withdrawals_root, blob_gas_used: h.blob_gas_used, excess_blob_gas: h.excess_blob_gas,
        deposit_receipts_root: zero_node(), withdrawal_requests_root: zero_node() }
}
// the first epoch after every exit already under way
pub open spec fn sp_last_exit(v: Seq<Validator>, n: int, none: int) -> int
    decreases n
{
    if n <= 0 { -1 } else { let r = sp_last_exit(v, n - 1, none); let e = v[n - 1].exit_epoch as int; if e != none && e > r { e } else { r } }
}
pub open spec fn sp_first_exit(s: deneb__StateV, c: Context) -> int {
    let r = sp_last_exit(s.validators, s.validators.len() as int, FAR_FUTURE_EPOCH as int); if r < 0 { s.slot as int / (c.slots_per_epoch as int) + 1 } else { r + 1 }
}
pub open spec fn sp_carried(s: deneb__StateV, c: Context) -> StateV {
    StateV { genesis_time: s.genesis_time, genesis_validators_root: s.genesis_validators_root, slot: s.slot, latest_block_header: s.latest_block_header, block_roots: s.block_roots, state_roots: s.state_roots, historical_roots: s.historical_roots, eth1_data: s.eth1_data, eth1_data_votes: s.eth1_data_votes, eth1_deposit_index: s.eth1_deposit_index, validators: s.validators, balances: s.balances, randao_mixes: s.randao_mixes, slashings: s.slashings, justification_bits: s.justification_bits, previous_justified_checkpoint: s.previous_justified_checkpoint, current_justified_checkpoint: s.current_justified_checkpoint, finalized_checkpoint: s.finalized_checkpoint, previous_epoch_participation: s.previous_epoch_participation, current_epoch_participation: s.current_epoch_participation, inactivity_scores: s.inactivity_scores, current_sync_committee: s.current_sync_committee, next_sync_committee: s.next_sync_committee, next_withdrawal_index: s.next_withdrawal_index, next_withdrawal_validator_index: s.next_withdrawal_validator_index, historical_summaries: s.historical_summaries,
        fork: sp_forked(s.fork, c.electra_fork_version, s.slot as int, c),
        latest_execution_payload_header: sp_header_up(s.latest_execution_payload_header), deposit_receipts_start_index: UNSET_DEPOSIT_RECEIPTS_START_INDEX, deposit_balance_to_consume: 0, exit_balance_to_consume: 0, earliest_exit_epoch: sp_first_exit(s, c) as u64, consolidation_balance_to_consume: 0, earliest_consolidation_epoch: (s.slot as int / (c.slots_per_epoch as int) + 1 + c.max_seed_lookahead as int) as u64, pending_balance_deposits: Seq::empty(), pending_partial_withdrawals: Seq::empty(), pending_consolidations: Seq::empty() }
}
@@fn phase0__get_current_epoch forks=altair
requires context.slots_per_epoch > 0
ensures r as int == state@.slot as int / context.slots_per_epoch as int
@@fn altair__get_current_epoch forks=bellatrix
requires context.slots_per_epoch > 0
ensures r as int == state@.slot as int / context.slots_per_epoch as int
@@fn bellatrix__get_current_epoch forks=capella
requires context.slots_per_epoch > 0
ensures r as int == state@.slot as int / context.slots_per_epoch as int
@@fn capella__get_current_epoch forks=deneb
requires context.slots_per_epoch > 0
ensures r as int == state@.slot as int / context.slots_per_epoch as int
@@fn deneb__get_current_epoch forks=electra
requires context.slots_per_epoch > 0
ensures r as int == state@.slot as int / context.slots_per_epoch as int
@@fn upgrade_to_bellatrix forks=bellatrix
requires context.slots_per_epoch > 0
ensures r@ == sp_carried(state@, *context)
@@fn upgrade_to_capella forks=capella
requires context.slots_per_epoch > 0
ensures r@ == sp_carried(state@, *context)
@@fn upgrade_to_deneb forks=deneb
requires context.slots_per_epoch > 0
ensures r@ == sp_carried(state@, *context)
@@spec forks=electra
pub open spec fn sp_reset_validator(s: StateV, i: int) -> StateV {
    StateV { balances: s.balances.update(i, 0), validators: s.validators.update(i, Validator { effective_balance: 0, activation_eligibility_epoch: far_future() as u64, ..s.validators[i] }),
        pending_balance_deposits: s.pending_balance_deposits.push(PendingBalanceDeposit { index: i as usize, amount: s.balances[i] }), ..s }
}
pub open spec fn sp_waiting(v: Seq<Validator>, n: int) -> Seq<(u64, usize)>
    decreases n
{
    if n <= 0 { Seq::empty() } else { let r = sp_waiting(v, n - 1); if v[n - 1].activation_epoch == far_future() as u64 { r.push((v[n - 1].activation_eligibility_epoch, (n - 1) as usize)) } else { r } }
}
pub open spec fn sp_reset_run(s: StateV, q: Seq<(u64, usize)>, k: int) -> StateV
    decreases k
{
    if k <= 0 { s } else { sp_reset_validator(sp_reset_run(s, q, k - 1), q[k - 1].1 as int) }
}
pub open spec fn sp_compounders(v: Seq<Validator>, n: int) -> Seq<usize>
    decreases n
{
    if n <= 0 { Seq::empty() } else { let r = sp_compounders(v, n - 1); if sp_compounding(v[n - 1]) { r.push((n - 1) as usize) } else { r } }
}
pub open spec fn sp_excess_run(s: StateV, q: Seq<usize>, k: int, c: Context) -> StateV
    decreases k
{
    if k <= 0 { s } else { sp_queue_excess(sp_excess_run(s, q, k - 1, c), q[k - 1] as int, c) }
}
pub open spec fn sp_churned(s: deneb__StateV, c: Context) -> StateV {
    let a = sp_carried(s, c); let b = StateV { exit_balance_to_consume: sp_exit_churn(a, c) as u64, ..a }; StateV { consolidation_balance_to_consume: sp_consolidation_churn(b, c) as u64, ..b }
}
pub open spec fn sp_upgrade(s: deneb__StateV, c: Context) -> StateV {
    let a = sp_churned(s, c); let q = sorted_pairs(sp_waiting(a.validators, a.validators.len() as int)); let b = sp_reset_run(a, q, q.len() as int);
    let l = sp_compounders(b.validators, b.validators.len() as int); sp_excess_run(b, l, l.len() as int, c)
}
@@vspec forks=electra
pub open spec fn latest_exit(o: Option<u64>) -> int { match o { None => -1, Some(e) => e as int } }
pub proof fn lemma_last_exit(v: Seq<Validator>, n: int)
    requires 0 <= n <= v.len() ensures -1 <= sp_last_exit(v, n, FAR_FUTURE_EPOCH as int) < FAR_FUTURE_EPOCH
    decreases n
{
    if n > 0 { lemma_last_exit(v, n - 1); }
}
pub proof fn lemma_waiting(v: Seq<Validator>, n: int)
    requires 0 <= n <= v.len(), v.len() <= usize::MAX
    ensures forall|x: (u64, usize)| #[trigger] sp_waiting(v, n).contains(x) ==> x.1 < n
    decreases n
{
    if n > 0 {
        lemma_waiting(v, n - 1); let r = sp_waiting(v, n - 1);
        assert forall|x: (u64, usize)| #[trigger] sp_waiting(v, n).contains(x) implies x.1 < n by {
            let i = choose|i: int| 0 <= i < sp_waiting(v, n).len() && sp_waiting(v, n)[i] == x; if i < r.len() { assert(r[i] == x); assert(r.contains(x)); }
        }
    }
}
pub proof fn lemma_compounders(v: Seq<Validator>, n: int)
    requires 0 <= n <= v.len(), v.len() <= usize::MAX
    ensures forall|i: int| 0 <= i < sp_compounders(v, n).len() ==> #[trigger] sp_compounders(v, n)[i] < n
    decreases n
{
    if n > 0 {
        lemma_compounders(v, n - 1); let r = sp_compounders(v, n - 1);
        assert forall|i: int| 0 <= i < sp_compounders(v, n).len() implies #[trigger] sp_compounders(v, n)[i] < n by { if i < r.len() { assert(r[i] < n - 1); } }
    }
}
pub proof fn lemma_reset_run(s: StateV, q: Seq<(u64, usize)>, k: int)
    ensures sp_reset_run(s, q, k).validators.len() == s.validators.len(), sp_reset_run(s, q, k).balances.len() == s.balances.len()
    decreases k
{
    if k > 0 { lemma_reset_run(s, q, k - 1); }
}
pub proof fn lemma_excess_run(s: StateV, q: Seq<usize>, k: int, c: Context)
    ensures sp_excess_run(s, q, k, c).balances.len() == s.balances.len()
    decreases k
{
    if k > 0 { lemma_excess_run(s, q, k - 1, c); }
}
@@fn queue_entire_balance_and_reset_validator forks=electra
requires index < old(state)@.balances.len(), index < old(state)@.validators.len()
ensures final(state)@ == sp_reset_validator(old(state)@, index as int)
@ start
let ghost s0 = state@; proof { assert(s0.validators.update(index as int, s0.validators[index as int]) =~= s0.validators); }
@ tail
proof { assert(state@.validators =~= sp_reset_validator(s0, index as int).validators); assert(state@ == sp_reset_validator(s0, index as int)); }
@@fn upgrade_to_electra forks=electra
requires wf_ctx(*context), wf_len(sp_carried(state@, *context)), wf_eff(state@.validators)
ensures r is Ok, r matches Ok(x) ==> x@ == sp_upgrade(state@, *context)
@ start
let ghost s0 = state@; let ghost c = *context; let ghost n = s0.validators.len() as int; let ghost s1 = sp_churned(s0, c); let ghost q = sorted_pairs(sp_waiting(s1.validators, n)); let ghost s2 = sp_reset_run(s1, q, q.len() as int); let ghost l = sp_compounders(s2.validators, n);
proof { lemma_epoch_bound(state@.slot as int, *context); }
@ loop 0
invariant state@ == s0, __i0 <= n, n == s0.validators.len(), latest_exit(__acc0) == sp_last_exit(s0.validators, __i0 as int, FAR_FUTURE_EPOCH as int)
@ after 0
proof { lemma_last_exit(s0.validators, n); }
@ loop 1
invariant post@ == sp_churned(s0, c), n == post@.validators.len(), __i1 <= n, __acc1@ == sp_waiting(post@.validators, __i1 as int)
@ before 2
proof { lemma_waiting(s1.validators, n); assert(pre_activation_validators@ == q); }
@ loop 2
invariant s1 == sp_churned(s0, c), n == s1.validators.len(), n == s1.balances.len(), pre_activation_validators@ == q, __i2 <= q.len(), post@ == sp_reset_run(s1, q, __i2 as int),
    forall|x: (u64, usize)| #[trigger] q.contains(x) ==> x.1 < n
@ loopstart 2
proof { lemma_reset_run(s1, q, __i2 as int); assert(q.contains(q[__i2 as int])); }
@ after 2
proof { lemma_reset_run(s1, q, q.len() as int); }
@ loop 3
invariant post@ == s2, n == s2.validators.len(), __i3 <= n, __acc3@ == sp_compounders(s2.validators, __i3 as int)
@ before 4
proof { lemma_compounders(s2.validators, n); }
@ loop 4
invariant l == sp_compounders(s2.validators, n), n == s2.validators.len(), n == s2.balances.len(), indices_to_queue@ == l, __i4 <= l.len(), post@ == sp_excess_run(s2, l, __i4 as int, c), c == *context,
    forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] < n
@ loopstart 4
proof { lemma_excess_run(s2, l, __i4 as int, c); }
@@spec forks=altair
pub open spec fn zeros8(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }
pub open spec fn zeros64(n: int) -> Seq<u64> { Seq::new(n as nat, |i: int| 0u64) }
// the flags a pending attestation earned are given to its attesters
pub open spec fn sp_list_added(x: u8, f: Seq<usize>, n: int) -> u8
    decreases n
{
    if n <= 0 { x } else { sp_add_flag(sp_list_added(x, f, n - 1), f[n - 1] as int) }
}
pub open spec fn sp_list_part(p: Seq<u8>, a: Set<usize>, f: Seq<usize>) -> Seq<u8> { Seq::new(p.len() as nat, |i: int| if a.contains(i as usize) { sp_list_added(p[i], f, f.len() as int) } else { p[i] }) }
pub open spec fn sp_translated_one(s: StateV, a: PendingAttestation, c: Context) -> StateV {
    StateV { previous_epoch_participation: sp_list_part(s.previous_epoch_participation, sp_attesting(s, a.data, a.aggregation_bits@, c), sp_flag_list(s, a.data, a.inclusion_delay as int, 3, c)), ..s }
}
pub open spec fn sp_translated_one_ok(s: StateV, a: PendingAttestation, c: Context) -> bool { sp_att_source_ok(s, a.data, c) && sp_att_roots_known(s, a.data, c) && sp_bits_ok(s, a.data, a.aggregation_bits@, c) }
pub open spec fn sp_translated(s: StateV, q: Seq<PendingAttestation>, n: int, c: Context) -> StateV
    decreases n
{
    if n <= 0 { s } else { let r = sp_translated(s, q, n - 1, c); sp_translated_one(r, q[n - 1], c) }
}
pub open spec fn sp_translated_ok(s: StateV, q: Seq<PendingAttestation>, n: int, c: Context) -> bool
    decreases n
{
    if n <= 0 { true } else { sp_translated_ok(s, q, n - 1, c) && sp_translated_one_ok(sp_translated(s, q, n - 1, c), q[n - 1], c) }
}
pub open spec fn sp_participated(s: phase0__StateV, c: Context) -> StateV { sp_translated(sp_carried(s, c), s.previous_epoch_attestations, s.previous_epoch_attestations.len() as int, c) }
pub open spec fn sp_upgrade_ok(s: phase0__StateV, c: Context) -> bool {
    list_fits::<u8>(s.validators.len() as int) && list_fits::<u64>(s.validators.len() as int)
    && sp_translated_ok(sp_carried(s, c), s.previous_epoch_attestations, s.previous_epoch_attestations.len() as int, c) && agg_key_ok(sp_next_keys(sp_participated(s, c), c))
}
pub open spec fn sp_upgrade(s: phase0__StateV, c: Context) -> StateV {
    let t = sp_participated(s, c); let k = sp_next_committee(t, c); StateV { current_sync_committee: k, next_sync_committee: k, ..t }
}
@@vspec forks=altair
pub open spec fn sp_no_committee() -> SyncCommittee { default_of::<SyncCommittee>() }
@@rust forks=altair
pub fn sp_no_committee() -> SyncCommittee { RealSyncCommittee::default().cv() }
@@vspec forks=altair
pub open spec fn translated_pre(s: StateV, a: PendingAttestation, c: Context) -> bool { atn_pre(s, c) && sp_att_time_ok(s, a.data, c) && att_ok(s, a.data, c) && s.previous_epoch_participation.len() == s.validators.len() }
pub open spec fn translate_pre(s: StateV, q: Seq<PendingAttestation>, c: Context) -> bool { forall|k: int| 0 <= k < q.len() && #[trigger] sp_translated_ok(s, q, k, c) ==> translated_pre(sp_translated(s, q, k, c), q[k], c) }
pub proof fn lemma_translated_err(s: StateV, q: Seq<PendingAttestation>, k: int, n: int, c: Context)
    requires k <= n, !sp_translated_ok(s, q, k, c) ensures !sp_translated_ok(s, q, n, c)
    decreases n
{
    if k < n { lemma_translated_err(s, q, k, n - 1, c); }
}
pub proof fn lemma_flags_low(s: StateV, d: AttestationData, delay: int, n: int, c: Context)
    requires 0 <= n <= 3
    ensures forall|j: int| 0 <= j < sp_flag_list(s, d, delay, n, c).len() ==> #[trigger] sp_flag_list(s, d, delay, n, c)[j] < 3
    decreases n
{
    if n > 0 {
        lemma_flags_low(s, d, delay, n - 1, c); let r = sp_flag_list(s, d, delay, n - 1, c);
        assert forall|j: int| 0 <= j < sp_flag_list(s, d, delay, n, c).len() implies #[trigger] sp_flag_list(s, d, delay, n, c)[j] < 3 by { if j < r.len() { assert(r[j] < 3); } }
    }
}
@@fn translate_participation forks=altair
requires translate_pre(old(state)@, pending_attestations@, *context)
ensures r is Ok <==> sp_translated_ok(old(state)@, pending_attestations@, pending_attestations@.len() as int, *context), r is Ok ==> final(state)@ == sp_translated(old(state)@, pending_attestations@, pending_attestations@.len() as int, *context)
@ start
let ghost s0 = state@; let ghost q = pending_attestations@; let ghost mut f0: Seq<usize> = Seq::empty(); let ghost mut w0: Set<usize> = Set::empty(); let ghost mut s1 = state@; let ghost mut p0: Seq<u8> = Seq::empty();
@ loop 0
invariant q == pending_attestations@, s0 == old(state)@, __i0 <= q.len(), state@ == sp_translated(s0, q, __i0 as int, *context), sp_translated_ok(s0, q, __i0 as int, *context), translate_pre(s0, q, *context)
@ loopstart 0
proof {
    s1 = state@; p0 = s1.previous_epoch_participation; assert(translated_pre(s1, q[__i0 as int], *context));
    if !sp_translated_ok(s0, q, __i0 as int + 1, *context) { lemma_translated_err(s0, q, __i0 as int + 1, q.len() as int, *context); }
    f0 = sp_flag_list(s1, q[__i0 as int].data, q[__i0 as int].inclusion_delay as int, 3, *context); lemma_flags_low(s1, q[__i0 as int].data, q[__i0 as int].inclusion_delay as int, 3, *context);
    w0 = sp_attesting(s1, q[__i0 as int].data, q[__i0 as int].aggregation_bits@, *context);
    if sp_bits_ok(s1, q[__i0 as int].data, q[__i0 as int].aggregation_bits@, *context) { lemma_attesting_range(s1, q[__i0 as int].data, q[__i0 as int].aggregation_bits@, *context); }
}
@ before 1
proof {
    assert(__s1@.take(0).to_set() =~= Set::<usize>::empty());
    assert(sp_list_part(p0, __s1@.take(0).to_set(), f0) =~= p0);
}
@ loop 1
invariant state@ == (StateV { previous_epoch_participation: sp_list_part(p0, __s1@.take(__i1 as int).to_set(), f0), ..s1 }), p0.len() == s1.validators.len(), p0 == s1.previous_epoch_participation, participation_flag_indices@ == f0, __s1@.no_duplicates(),
    forall|k: int| 0 <= k < __s1@.len() ==> #[trigger] __s1@[k] < p0.len(), forall|j: int| 0 <= j < f0.len() ==> #[trigger] f0[j] < 3,
@ loopstart 1
let ghost done = __s1@.take(__i1 as int).to_set(); let ghost x0 = __s1@[__i1 as int]; let ghost q0 = sp_list_part(p0, done, f0); let ghost v0 = p0[x0 as int]; let ghost next = __s1@.take(__i1 + 1).to_set();
proof {
    lemma_take_step(__s1@, __i1 as int);
    assert(!done.contains(x0)) by { let t = __s1@.take(__i1 as int); if t.contains(x0) { let k = choose|k: int| 0 <= k < t.len() && t[k] == x0; assert(__s1@[k] == x0); } }
    assert(next =~= done.insert(x0)); assert(q0.update(x0 as int, v0) =~= q0);
}
@ loop 2
invariant state@ == (StateV { previous_epoch_participation: q0.update(x0 as int, sp_list_added(v0, f0, __i2 as int)), ..s1 }), __i2 <= f0.len(), index == x0, x0 < q0.len(), participation_flag_indices@ == f0, forall|j: int| 0 <= j < f0.len() ==> #[trigger] f0[j] < 3,
@ loopend 2
proof { assert(state@.previous_epoch_participation =~= q0.update(x0 as int, sp_list_added(v0, f0, __i2 as int))); assert(state@ == (StateV { previous_epoch_participation: state@.previous_epoch_participation, ..s1 })); }
@ after 2
proof { assert(q0.update(x0 as int, sp_list_added(v0, f0, f0.len() as int)) =~= sp_list_part(p0, next, f0)); }
@ after 1
proof { assert(__s1@.take(__s1@.len() as int) =~= __s1@); assert(__s1@.to_set() =~= w0); }
@@fn upgrade_to_altair forks=altair
requires wf_ctx(*context), sync_ctx(*context), translate_pre(sp_carried(state@, *context), state@.previous_epoch_attestations, *context),
    sp_translated_ok(sp_carried(state@, *context), state@.previous_epoch_attestations, state@.previous_epoch_attestations.len() as int, *context) ==> ({ let t = sp_participated(state@, *context); wf_len(t) && wf_eff(t.validators) && sampling_ok(t, *context) })
ensures r is Ok <==> sp_upgrade_ok(state@, *context), r matches Ok(x) ==> x@ == sp_upgrade(state@, *context)
@ start
hide(sp_translated_ok); hide(sp_translated); hide(sp_next_committee);
@@test upgrade_altair props=C21 forks=altair n=40
let mut c = gen_ctx(g); let (mut st, a) = crate::phase0::gen_attested(g, &mut c); let cc = c.cv();
let i = g.idx(st.validators.len()); { let v = &mut st.validators[i]; v.activation_epoch = 0; v.exit_epoch = u64::MAX; v.effective_balance = c.max_effective_balance; }
for i in 0..st.validators.len() { st.validators[i].public_key = key(i).pk; }
if crate::phase0::sp_att_time_ok(st.cv(), a.data.cv(), cc) && crate::phase0::sp_att_source_ok(st.cv(), a.data.cv(), cc) && (a.data.index as int) < crate::phase0::sp_committee_count(st.cv(), a.data.target.epoch as int, cc) {
    for k in 0..g.below(3) {
        let mut p = crate::phase0::RealPendingAttestation::default(); p.data = a.data.clone(); p.aggregation_bits = a.aggregation_bits.clone(); p.inclusion_delay = g.pick(&[1, 2, 5, 6, 8, 9]); p.proposer_index = g.idx(4);
        if g.bool() { let n = p.aggregation_bits.len(); let mut b = ec::ssz::prelude::Bitlist::default(); for _ in 0..n { let x = g.bool(); b.push(x); } p.aggregation_bits = b; }
        if g.chance(8) { p.data.source.root = g.node(); }
        if g.chance(5) { p.aggregation_bits.push(true); }
        st.previous_epoch_attestations.push(p);
    }
}
let s = st.cv(); let ok = sp_upgrade_ok(s, cc); g.note("upgrade to altair", ok);
match ec::altair::upgrade_to_altair(&st, &c) {
    Ok(x) => { chk!(ok, "upgrade_to_altair accepts pending attestations {:?} that do not belong to the state at slot {}", st.previous_epoch_attestations, st.slot); seq_st!(x, sp_upgrade(s, cc), "upgrade_to_altair at slot {} with pending {:?}", st.slot, st.previous_epoch_attestations); }
    Err(e) => chk!(!ok, "upgrade_to_altair at slot {}: {e:?}", st.slot),
}
@@test upgrade_bellatrix props=C21 forks=bellatrix n=60
let c = gen_ctx(g); let st = crate::altair::gen_state(g, &c);
let x: RealBeaconState = ec::bellatrix::upgrade_to_bellatrix(&st, &c); seq_st!(x, sp_carried(st.cv(), c.cv()), "upgrade_to_bellatrix at slot {}", st.slot);
@@test upgrade_capella props=C21 forks=capella n=60
let c = gen_ctx(g); let st = crate::bellatrix::gen_state(g, &c);
let x: RealBeaconState = ec::capella::upgrade_to_capella(&st, &c); seq_st!(x, sp_carried(st.cv(), c.cv()), "upgrade_to_capella at slot {}", st.slot);
@@test upgrade_deneb props=C21 forks=deneb n=60
let c = gen_ctx(g); let st = crate::capella::gen_state(g, &c);
let x: RealBeaconState = ec::deneb::upgrade_to_deneb(&st, &c); seq_st!(x, sp_carried(st.cv(), c.cv()), "upgrade_to_deneb at slot {}", st.slot);
@@test upgrade_electra props=C21 forks=electra n=80
let c = gen_ctx(g); let mut st = crate::deneb::gen_state(g, &c); let e = st.slot / c.slots_per_epoch;
for i in 0..st.validators.len() { let v = &mut st.validators[i];
    if g.chance(35) { v.activation_epoch = u64::MAX; v.activation_eligibility_epoch = if g.chance(20) { u64::MAX } else { g.below(4) }; }
    if g.chance(30) { v.withdrawal_credentials[0] = 2; st.balances[i] = c.min_activation_balance + g.below(3); }
    if g.chance(15) { v.exit_epoch = g.near(e); } }
if g.chance(20) { for i in 0..st.validators.len() { st.validators[i].exit_epoch = u64::MAX; } }
match ec::electra::upgrade_to_electra(&st, &c) { Ok(x) => seq_st!(x, sp_upgrade(st.cv(), c.cv()), "upgrade_to_electra at slot {}", st.slot), Err(e) => chk!(false, "upgrade_to_electra: {e:?}") }
