@@spec forks=capella+
pub open spec fn sp_eth1_cred(v: Validator) -> bool { b32(v.withdrawal_credentials)[0] == 1 }
@@fn has_eth1_withdrawal_credential forks=capella+
ensures r == sp_eth1_cred(*validator)
@@spec forks=electra
// ---- pending deposits, consolidations and partial withdrawals ----
pub open spec fn sp_exec_cred(v: Validator) -> bool { sp_compounding(v) || sp_eth1_cred(v) }
pub open spec fn sp_queue_excess(s: StateV, i: int, c: Context) -> StateV {
    if s.balances[i] > c.min_activation_balance {
        StateV { balances: s.balances.update(i, c.min_activation_balance), pending_balance_deposits: s.pending_balance_deposits.push(PendingBalanceDeposit { index: i as usize, amount: (s.balances[i] as int - c.min_activation_balance as int) as u64 }), ..s }
    } else { s }
}
pub open spec fn sp_compounded(v: Validator) -> Validator { Validator { withdrawal_credentials: Bytes32 { data: arr32(b32(v.withdrawal_credentials).update(0, 2)) }, ..v } }
pub open spec fn sp_switch(s: StateV, i: int, c: Context) -> StateV {
    if sp_eth1_cred(s.validators[i]) { sp_queue_excess(StateV { validators: s.validators.update(i, sp_compounded(s.validators[i])), ..s }, i, c) } else { s }
}
pub open spec fn sp_active_balance(s: StateV, i: int, c: Context) -> int { vmin(s.balances[i] as int, sp_max_eff(s.validators[i], c)) }
// the amounts of the first n pending deposits
pub open spec fn sp_dep_sum(q: Seq<PendingBalanceDeposit>, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { sp_dep_sum(q, n - 1) + q[n - 1].amount as int }
}
// how many of the first n fit in what is available
pub open spec fn sp_dep_taken(q: Seq<PendingBalanceDeposit>, avail: int, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { let r = sp_dep_taken(q, avail, n - 1); if r == n - 1 && sp_dep_sum(q, n) <= avail { n } else { r } }
}
pub open spec fn sp_dep_applied(s: StateV, n: int) -> StateV
    decreases n
{
    if n <= 0 { s } else { sp_increase_balance(sp_dep_applied(s, n - 1), s.pending_balance_deposits[n - 1].index as int, s.pending_balance_deposits[n - 1].amount as int) }
}
pub open spec fn sp_dep_avail(s: StateV, c: Context) -> int { s.deposit_balance_to_consume as int + sp_exit_churn(s, c) }
pub open spec fn sp_pending_deposits(s: StateV, c: Context) -> StateV {
    let q = s.pending_balance_deposits; let k = sp_dep_taken(q, sp_dep_avail(s, c), q.len() as int);
    StateV { balances: sp_dep_applied(s, k).balances, pending_balance_deposits: q.subrange(k, q.len() as int),
        deposit_balance_to_consume: if k == q.len() { 0u64 } else { (sp_dep_avail(s, c) - sp_dep_sum(q, k)) as u64 }, ..s }
}
// how many of the first n pending consolidations are dealt with: up to the first whose source is not slashed and not yet withdrawable
pub open spec fn sp_cons_taken(s: StateV, n: int, c: Context) -> int
    decreases n
{
    if n <= 0 { 0 } else {
        let v = s.validators[s.pending_consolidations[n - 1].source_index as int]; let r = sp_cons_taken(s, n - 1, c);
        if r == n - 1 && (v.slashed || v.withdrawable_epoch as int <= sp_cur(s, c)) { n } else { r }
    }
}
pub open spec fn sp_consolidate(s: StateV, i: int, j: int, c: Context) -> StateV {
    let t = sp_switch(s, j, c); let a = sp_active_balance(t, i, c);
    sp_increase_balance(sp_decrease_balance(t, i, a), j, a)
}
pub open spec fn sp_cons_applied(s: StateV, n: int, c: Context) -> StateV
    decreases n
{
    if n <= 0 { s } else {
        let p = s.pending_consolidations[n - 1];
        if s.validators[p.source_index as int].slashed { sp_cons_applied(s, n - 1, c) } else { sp_consolidate(sp_cons_applied(s, n - 1, c), p.source_index as int, p.target_index as int, c) }
    }
}
pub open spec fn sp_pending_consolidations(s: StateV, c: Context) -> StateV {
    let k = sp_cons_taken(s, s.pending_consolidations.len() as int, c);
    StateV { pending_consolidations: s.pending_consolidations.subrange(k, s.pending_consolidations.len() as int), ..sp_cons_applied(s, k, c) }
}
// what a validator's pending partial withdrawals among the first n take
pub open spec fn sp_pending_out(q: Seq<PendingPartialWithdrawal>, i: int, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { sp_pending_out(q, i, n - 1) + (if q[n - 1].index as int == i { q[n - 1].amount as int } else { 0 }) }
}
pub open spec fn sp_pending_withdraw(s: StateV, i: int) -> int { sp_pending_out(s.pending_partial_withdrawals, i, s.pending_partial_withdrawals.len() as int) }
// ---- consolidation operation ----
pub open spec fn sp_address(v: Validator) -> Seq<u8> { b32(v.withdrawal_credentials).subrange(12, 32) }
pub open spec fn sp_cons_active(v: Validator, e: int) -> bool { sp_is_active(v, e) && v.exit_epoch as int == far_future() && sp_exec_cred(v) }
pub open spec fn sp_cons_message(s: StateV, m: Consolidation, c: Context) -> Seq<u8> { sp_signing_root(htr(m), sp_domain(DomainType::Consolidation, c.genesis_fork_version, s.genesis_validators_root)) }
pub open spec fn sp_cons_valid(s: StateV, x: SignedConsolidation, c: Context) -> bool {
    let m = x.message; let n = s.validators.len() as int;
    (s.pending_consolidations.len() as int) < c.pending_consolidations_limit as int && sp_consolidation_churn(s, c) > c.min_activation_balance as int && m.source_index != m.target_index
    && (m.source_index as int) < n && (m.target_index as int) < n && sp_cons_active(s.validators[m.source_index as int], sp_cur(s, c)) && sp_cons_active(s.validators[m.target_index as int], sp_cur(s, c))
    && m.epoch as int <= sp_cur(s, c) && sp_address(s.validators[m.source_index as int]) == sp_address(s.validators[m.target_index as int])
    && agg_valid(seq2(s.validators[m.source_index as int].public_key, s.validators[m.target_index as int].public_key), sp_cons_message(s, m, c), x.signature)
}
pub open spec fn sp_consolidation(s: StateV, m: Consolidation, c: Context) -> StateV {
    let v = s.validators[m.source_index as int]; let t = sp_consume_cons(s, v.effective_balance as int, c);
    StateV { validators: s.validators.update(m.source_index as int, sp_set_exit(v, t.earliest_consolidation_epoch as int, c)),
        pending_consolidations: s.pending_consolidations.push(PendingConsolidation { source_index: m.source_index, target_index: m.target_index }), ..t }
}
@@vspec
pub open spec fn seq2<T>(a: T, b: T) -> Seq<T> { seq![a, b] }
@@vspec forks=electra
pub open spec fn dep_ok(s: StateV) -> bool {
    &&& s.deposit_balance_to_consume < 0x4000_0000_0000_0000
    &&& forall|k: int| 0 <= k < s.pending_balance_deposits.len() ==> (#[trigger] s.pending_balance_deposits[k]).index < s.validators.len() && s.pending_balance_deposits[k].amount < 0x4000_0000_0000_0000
}
pub proof fn lemma_dep_sum(q: Seq<PendingBalanceDeposit>, k: int, n: int)
    requires 0 <= k <= n <= q.len() ensures 0 <= sp_dep_sum(q, k) <= sp_dep_sum(q, n)
    decreases n
{ if k < n { lemma_dep_sum(q, k, n - 1); } else if n > 0 { lemma_dep_sum(q, n - 1, n - 1); } }
pub proof fn lemma_dep_taken(q: Seq<PendingBalanceDeposit>, a: int, k: int, n: int)
    requires 0 <= k <= n <= q.len(), sp_dep_taken(q, a, k) == k, k < n ==> sp_dep_sum(q, k + 1) > a
    ensures sp_dep_taken(q, a, n) == k
    decreases n
{ if k < n { if n == k + 1 { } else { lemma_dep_taken(q, a, k, n - 1); } } }
pub proof fn lemma_dep_applied(s: StateV, n: int)
    requires 0 <= n <= s.pending_balance_deposits.len(), dep_ok(s), s.balances.len() == s.validators.len(), wf_bal(s), sp_dep_sum(s.pending_balance_deposits, n) < 0x6000_0000_0000_0000
    ensures ({ let t = sp_dep_applied(s, n); t == (StateV { balances: t.balances, ..s }) && t.balances.len() == s.balances.len() && forall|i: int| 0 <= i < t.balances.len() ==> (#[trigger] t.balances[i]) <= pow2_60() + sp_dep_sum(s.pending_balance_deposits, n) })
    decreases n
{
    if n > 0 {
        lemma_dep_sum(s.pending_balance_deposits, n - 1, n); lemma_dep_applied(s, n - 1);
        assert(s.pending_balance_deposits[n - 1].index < s.validators.len());
        let t = sp_dep_applied(s, n);
        assert forall|i: int| 0 <= i < t.balances.len() implies (#[trigger] t.balances[i]) <= pow2_60() + sp_dep_sum(s.pending_balance_deposits, n) by {}
    }
}
pub open spec fn cons_ok(s: StateV) -> bool {
    &&& s.pending_consolidations.len() <= 0x10_0000 && forall|i: int| 0 <= i < s.balances.len() ==> (#[trigger] s.balances[i]) < 0x8000_0000_0000_0000
    &&& forall|k: int| 0 <= k < s.pending_consolidations.len() ==> (#[trigger] s.pending_consolidations[k]).source_index < s.validators.len() && s.pending_consolidations[k].target_index < s.validators.len()
}
pub open spec fn same_but_creds(v: Validator, w: Validator) -> bool { w == (Validator { withdrawal_credentials: w.withdrawal_credentials, ..v }) }
pub proof fn lemma_cons_applied(s: StateV, n: int, c: Context)
    requires wf_ctx(c), 0 <= n <= s.pending_consolidations.len(), cons_ok(s), s.balances.len() == s.validators.len()
    ensures ({ let t = sp_cons_applied(s, n, c); t == (StateV { validators: t.validators, balances: t.balances, pending_balance_deposits: t.pending_balance_deposits, ..s }) && t.balances.len() == s.balances.len() && t.validators.len() == s.validators.len()
        && (forall|i: int| 0 <= i < t.balances.len() ==> (#[trigger] t.balances[i]) <= 0x8000_0000_0000_0000 + n * 0x400_0000_0000) && (forall|i: int| 0 <= i < t.validators.len() ==> same_but_creds(s.validators[i], #[trigger] t.validators[i])) })
    decreases n
{
    if n > 0 {
        lemma_cons_applied(s, n - 1, c);
        assert((n - 1) * 0x400_0000_0000 + 0x400_0000_0000 == n * 0x400_0000_0000 && n * 0x400_0000_0000 <= 0x10_0000 * 0x400_0000_0000) by (nonlinear_arith) requires 0 < n <= 0x10_0000;
        let p = s.pending_consolidations[n - 1]; let u = sp_cons_applied(s, n - 1, c); let t = sp_cons_applied(s, n, c);
        if !s.validators[p.source_index as int].slashed {
            let w = sp_switch(u, p.target_index as int, c); let a = sp_active_balance(w, p.source_index as int, c);
            assert forall|i: int| 0 <= i < t.validators.len() implies same_but_creds(s.validators[i], #[trigger] t.validators[i]) by { assert(same_but_creds(s.validators[i], u.validators[i])); }
            assert forall|i: int| 0 <= i < w.balances.len() implies (#[trigger] w.balances[i]) <= 0x8000_0000_0000_0000 + (n - 1) * 0x400_0000_0000 by { assert(u.balances[i] <= 0x8000_0000_0000_0000 + (n - 1) * 0x400_0000_0000); }
            let d = sp_decrease_balance(w, p.source_index as int, a);
            assert forall|i: int| 0 <= i < d.balances.len() implies (#[trigger] d.balances[i]) <= w.balances[i] by {}
            assert forall|i: int| 0 <= i < t.balances.len() implies (#[trigger] t.balances[i]) <= 0x8000_0000_0000_0000 + n * 0x400_0000_0000 by { assert(d.balances[i] <= w.balances[i]); }
        }
    }
}
pub proof fn lemma_cons_taken(s: StateV, k: int, n: int, c: Context)
    requires 0 <= k <= n <= s.pending_consolidations.len(), sp_cons_taken(s, k, c) == k,
        k < n ==> { let v = s.validators[s.pending_consolidations[k].source_index as int]; !v.slashed && v.withdrawable_epoch as int > sp_cur(s, c) }
    ensures sp_cons_taken(s, n, c) == k
    decreases n
{ if k < n { if n == k + 1 { } else { lemma_cons_taken(s, k, n - 1, c); } } }
pub open spec fn out_ok(s: StateV, i: int) -> bool { sp_pending_withdraw(s, i) <= 0x4000_0000_0000_0000 }
pub proof fn lemma_pending_out(q: Seq<PendingPartialWithdrawal>, i: int, k: int, n: int)
    requires 0 <= k <= n <= q.len() ensures 0 <= sp_pending_out(q, i, k) <= sp_pending_out(q, i, n)
    decreases n
{ if k < n { lemma_pending_out(q, i, k, n - 1); } else if n > 0 { lemma_pending_out(q, i, n - 1, n - 1); } }
@@fn has_execution_withdrawal_credential forks=electra
ensures r == sp_exec_cred(*validator)
@@fn get_active_balance forks=electra
requires validator_index < state@.validators.len(), validator_index < state@.balances.len()
ensures r as int == sp_active_balance(state@, validator_index as int, *context)
@@fn queue_excess_active_balance forks=electra
requires index < old(state)@.balances.len()
ensures r is Ok, final(state)@ == sp_queue_excess(old(state)@, index as int, *context)
@@fn switch_to_compounding_validator forks=electra
requires index < old(state)@.validators.len(), index < old(state)@.balances.len()
ensures r is Ok, final(state)@ == sp_switch(old(state)@, index as int, *context)
@@fn get_pending_balance_to_withdraw forks=electra
requires out_ok(state@, validator_index as int)
ensures r as int == sp_pending_withdraw(state@, validator_index as int)
@ loop 0
invariant __acc0 as int == sp_pending_out(state@.pending_partial_withdrawals, validator_index as int, __i0 as int),
@ loopstart 0
proof { lemma_pending_out(state@.pending_partial_withdrawals, validator_index as int, __i0 + 1, state@.pending_partial_withdrawals.len() as int); }
@@fn process_pending_balance_deposits forks=electra cinv=1
requires wf_ctx(*context), wf_len(old(state)@), wf_eff(old(state)@.validators), wf_bal(old(state)@), dep_ok(old(state)@)
ensures r is Ok, final(state)@ == sp_pending_deposits(old(state)@, *context)
@ start
let ghost s = state@; let ghost c = *context; let ghost q = state@.pending_balance_deposits; let ghost a = sp_dep_avail(s, c);
proof { lemma_churn_bounds(s, c); }
@ loop 0
invariant state@ == sp_dep_applied(s, __i0 as int), next_deposit_index == __i0, processed_amount as int == sp_dep_sum(q, __i0 as int), processed_amount <= available_for_processing, available_for_processing as int == a, a < 0x6000_0000_0000_0000, sp_dep_taken(q, a, __i0 as int) == __i0, __n0 == q.len(), __i0 <= __n0
ensures state@ == sp_dep_applied(s, next_deposit_index as int), processed_amount as int == sp_dep_sum(q, next_deposit_index as int), next_deposit_index as int == sp_dep_taken(q, a, q.len() as int), next_deposit_index <= q.len(), processed_amount <= a
@ loopstart 0
proof {
    lemma_dep_applied(s, __i0 as int); assert(q[__i0 as int].index < s.validators.len());
    if sp_dep_sum(q, __i0 + 1) > a { lemma_dep_taken(q, a, __i0 as int, q.len() as int); } else { lemma_dep_sum(q, __i0 as int, __i0 + 1); lemma_dep_applied(s, __i0 + 1); }
}
@ after 0
proof { lemma_dep_applied(s, next_deposit_index as int); }
@@fn process_pending_consolidations forks=electra cinv=1
requires wf_ctx(*context), wf_len(old(state)@), cons_ok(old(state)@)
ensures r is Ok, final(state)@ == sp_pending_consolidations(old(state)@, *context)
@ start
let ghost s = state@; let ghost c = *context; let ghost q = state@.pending_consolidations;
@ loop 0
invariant state@ == sp_cons_applied(s, __i0 as int, c), next_pending_consolidation == __i0, sp_cons_taken(s, __i0 as int, c) == __i0, __n0 == q.len(), __i0 <= __n0
ensures state@ == sp_cons_applied(s, next_pending_consolidation as int, c), next_pending_consolidation as int == sp_cons_taken(s, q.len() as int, c), next_pending_consolidation <= q.len()
@ loopstart 0
proof {
    lemma_cons_applied(s, __i0 as int, c); lemma_cons_applied(s, __i0 + 1, c);
    let p = q[__i0 as int]; assert(p.source_index < s.validators.len()); assert(same_but_creds(s.validators[p.source_index as int], state@.validators[p.source_index as int]));
    let v = s.validators[p.source_index as int];
    if !v.slashed && v.withdrawable_epoch as int > sp_cur(s, c) { lemma_cons_taken(s, __i0 as int, q.len() as int, c); }
    assert(__i0 * 0x400_0000_0000 <= 0x10_0000 * 0x400_0000_0000) by (nonlinear_arith) requires 0 <= __i0 <= 0x10_0000;
    let w = sp_switch(state@, p.target_index as int, c);
    assert(w.balances[p.target_index as int] <= state@.balances[p.target_index as int]);
}
@ after 0
proof { lemma_cons_applied(s, next_pending_consolidation as int, c); }
@@fn process_consolidation forks=electra
requires wf_ctx(*context), wf_len(old(state)@), wf_eff(old(state)@.validators), wf_churn(old(state)@, 4 * pow2_60())
ensures r is Ok <==> sp_cons_valid(old(state)@, *signed_consolidation, *context), r is Ok ==> final(state)@ == sp_consolidation(old(state)@, signed_consolidation.message, *context), r is Err ==> final(state)@ == old(state)@
@ start
let ghost s = state@; let ghost c = *context;
proof { lemma_epoch_bound(s.slot as int, c); lemma_churn_bounds(s, c); }
@ let public_keys 0
proof {
    assert(signing_root.data@.subrange(0, 32) =~= signing_root.data@);
    assert forall|x: &[&BlsPublicKey]| x@ == public_keys@.subrange(0, 2) implies #[trigger] x.vks() == seq2(source_validator.public_key, target_validator.public_key) by { assert(x.vks() =~= seq2(source_validator.public_key, target_validator.public_key)); }
    lemma_more(source_validator.effective_balance as int, sp_queue_left(s, s.earliest_consolidation_epoch as int, s.consolidation_balance_to_consume as int, sp_consolidation_churn(s, c), c), sp_consolidation_churn(s, c)); }
@ tail
proof { assert(state@.validators =~= sp_consolidation(s, signed_consolidation.message, c).validators); }
@@spec forks=electra
// ---- withdrawal requests ----
// the first of the first n validators with a key, or n
pub open spec fn sp_key_first(vs: Seq<Validator>, k: BlsPublicKey, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { let r = sp_key_first(vs, k, n - 1); if r < n - 1 || vs[n - 1].public_key == k { r } else { n } }
}
pub open spec fn sp_request_allowed(s: StateV, r: ExecutionLayerWithdrawalRequest, v: Validator, c: Context) -> bool {
    sp_exec_cred(v) && sp_address(v) == xb(r.source_address) && sp_is_active(v, sp_cur(s, c)) && v.exit_epoch as int == far_future() && sp_cur(s, c) >= v.activation_epoch as int + c.shard_committee_period as int
}
pub open spec fn sp_partial_request(s: StateV, i: int, amount: int, c: Context) -> StateV {
    let over = s.balances[i] as int - c.min_activation_balance as int - sp_pending_withdraw(s, i);
    if sp_compounding(s.validators[i]) && s.validators[i].effective_balance >= c.min_activation_balance && over > 0 {
        let t = sp_consume_exit(s, vmin(over, amount), c);
        StateV { pending_partial_withdrawals: s.pending_partial_withdrawals.push(PendingPartialWithdrawal { index: i as usize, amount: vmin(over, amount) as u64, withdrawable_epoch: (t.earliest_exit_epoch as int + c.min_validator_withdrawability_delay as int) as u64 }), ..t }
    } else { s }
}
pub open spec fn sp_withdrawal_request(s: StateV, r: ExecutionLayerWithdrawalRequest, c: Context) -> StateV {
    let i = sp_key_first(s.validators, r.validator_public_key, s.validators.len() as int);
    if (s.pending_partial_withdrawals.len() == cg_PENDING_PARTIAL_WITHDRAWALS_LIMIT && r.amount != 0) || i >= s.validators.len() || !sp_request_allowed(s, r, s.validators[i], c) { s }
    else if r.amount == 0 { if sp_pending_withdraw(s, i) == 0 { sp_initiate_exit(s, i, c) } else { s } }
    else { sp_partial_request(s, i, r.amount as int, c) }
}
@@vspec forks=electra
pub open spec fn found_at(a: Option<(usize, &Validator)>, vs: Seq<Validator>, i: int) -> bool { a matches Some(p) && p.0 as int == i && 0 <= i < vs.len() && *p.1 == vs[i] }
pub proof fn lemma_key_first(vs: Seq<Validator>, k: BlsPublicKey, i: int, n: int)
    requires 0 <= i < n <= vs.len(), sp_key_first(vs, k, i) == i, vs[i].public_key == k ensures sp_key_first(vs, k, n) == i
    decreases n
{ if i < n - 1 { lemma_key_first(vs, k, i, n - 1); } }
@@fn process_execution_layer_withdrawal_request forks=electra cinv=1
requires wf_ctx(*context), wf_len(old(state)@), wf_eff(old(state)@.validators), wf_exits(old(state)@.validators, 4 * pow2_60()), wf_churn(old(state)@, 4 * pow2_60()), forall|i: int| out_ok(old(state)@, i),
    forall|i: int| 0 <= i < old(state)@.balances.len() ==> (#[trigger] old(state)@.balances[i]) < 0x2000_0000_0000_0000
ensures r is Ok, final(state)@ == sp_withdrawal_request(old(state)@, *execution_layer_withdrawal_request, *context)
@ start
let ghost s = state@; let ghost c = *context; let ghost k = execution_layer_withdrawal_request.validator_public_key; let ghost n = s.validators.len() as int;
proof { lemma_epoch_bound(s.slot as int, c); lemma_churn_bounds(s, c); assert(execution_layer_withdrawal_request.source_address.data@.subrange(0, 20) =~= xb(execution_layer_withdrawal_request.source_address)); }
@ loop 0
invariant state@ == s, __i0 <= n, __acc0 is None, sp_key_first(s.validators, k, __i0 as int) == __i0
ensures __acc0 is None ==> sp_key_first(s.validators, k, n) == n, __acc0 is Some ==> found_at(__acc0, s.validators, sp_key_first(s.validators, k, n))
@ then 1
proof { lemma_key_first(s.validators, k, __c0 as int, n); }
@ let pending_balance_to_withdraw 0
proof {
    assert(out_ok(s, index as int)); lemma_pending_out(s.pending_partial_withdrawals, index as int, 0, s.pending_partial_withdrawals.len() as int);
    let over = s.balances[index as int] as int - c.min_activation_balance as int - sp_pending_withdraw(s, index as int);
    if over > 0 { lemma_more(vmin(over, amount as int), sp_queue_left(s, s.earliest_exit_epoch as int, s.exit_balance_to_consume as int, sp_exit_churn(s, c), c), sp_exit_churn(s, c)); }
}
@@rust forks=electra
/// validators with the three kinds of credentials, many of them due
pub fn gen_queue_state(g: &mut G, c: &RealCtx) -> RealBeaconState {
    let mut st = gen_state(g, c); let n = st.validators.len(); let e = epoch_of(&st, c);
    for i in 0..n {
        st.validators[i].public_key = key(i).pk;
        st.validators[i].withdrawal_credentials[0] = g.pick(&[0u8, 1, 2, 2, 1, 3]);
        if g.bool() { let b = st.validators[0].withdrawal_credentials.clone(); let p = st.validators[i].withdrawal_credentials[0]; st.validators[i].withdrawal_credentials = b; st.validators[i].withdrawal_credentials[0] = p; }
        if g.chance(40) { let v = &mut st.validators[i]; v.activation_epoch = 0; v.exit_epoch = u64::MAX; v.withdrawable_epoch = u64::MAX; v.slashed = false; }
        if g.chance(30) { st.validators[i].withdrawable_epoch = g.near(e); }
        st.balances[i] = match g.below(5) { 0 => g.below(3000) * GWEI, 1 => c.min_activation_balance + g.below(3), 2 => c.max_effective_balance_electra + g.below(3) * GWEI, _ => st.balances[i] };
    }
    st
}
@@test queues props=C23 forks=electra n=100
let mut c = gen_ctx(g); let mut st = gen_queue_state(g, &c); let cc = c.cv(); let n = st.validators.len();
if g.chance(50) { for _ in 0..g.below(8) { let x = ec::electra::PendingBalanceDeposit { index: g.idx(n), amount: g.below(30) * GWEI }; st.pending_balance_deposits.push(x); } }
let i = g.idx(n); let s = st.cv();
eqv!(sp::has_eth1_withdrawal_credential(&st.validators[i]), sp_eth1_cred(s.validators[i as int]), "has_eth1_withdrawal_credential");
eqv!(sp::has_execution_withdrawal_credential(&st.validators[i]), sp_exec_cred(s.validators[i as int]), "has_execution_withdrawal_credential");
eqv!(sp::get_active_balance(&st, i, &c) as int, sp_active_balance(s, i as int, cc), "get_active_balance({i})");
eqv!(sp::get_pending_balance_to_withdraw(&st, i) as int, sp_pending_withdraw(s, i as int), "get_pending_balance_to_withdraw({i})");
let mut t = st.clone(); chk!(sp::queue_excess_active_balance(&mut t, i, &c).is_ok(), "queue_excess_active_balance failed"); seq_st!(t, sp_queue_excess(s, i as int, cc), "queue_excess_active_balance({i})");
let mut t = st.clone(); chk!(sp::switch_to_compounding_validator(&mut t, i, &c).is_ok(), "switch_to_compounding_validator failed"); seq_st!(t, sp_switch(s, i as int, cc), "switch_to_compounding_validator({i})");
let mut t = st.clone(); chk!(sp::process_pending_balance_deposits(&mut t, &c).is_ok(), "process_pending_balance_deposits failed"); seq_st!(t, sp_pending_deposits(s, cc), "process_pending_balance_deposits");
let mut t = st.clone(); chk!(sp::process_pending_consolidations(&mut t, &c).is_ok(), "process_pending_consolidations failed"); seq_st!(t, sp_pending_consolidations(s, cc), "process_pending_consolidations at epoch {}", epoch_of(&st, &c));
@@test requests props=C18,C23 forks=electra n=100
let mut c = gen_ctx(g); c.shard_committee_period = g.below(3); let mut st = gen_queue_state(g, &c); let cc = c.cv(); let n = st.validators.len();
for _ in 0..3 {
    let i = g.idx(n); let mut r = ec::electra::ExecutionLayerWithdrawalRequest::default();
    r.validator_public_key = if g.chance(10) { key(n + 3).pk } else { key(i).pk }; if g.chance(90) { for k in 0..20 { r.source_address[k] = st.validators[i].withdrawal_credentials[12 + k]; } }
    r.amount = match g.below(4) { 0 => 0, 1 => st.balances[i], 2 => g.below(GWEI), _ => g.below(3000) * GWEI };
    let s = st.cv();
    chk!(sp::process_execution_layer_withdrawal_request(&mut st, &r, &c).is_ok(), "process_execution_layer_withdrawal_request failed");
    g.note("request", s.pending_partial_withdrawals.len() as usize != st.pending_partial_withdrawals.len()); seq_st!(st, sp_withdrawal_request(s, r.cv(), cc), "process_execution_layer_withdrawal_request({r:?}) at epoch {}", epoch_of(&st, &c));
}
@@test consolidation props=C23 forks=electra n=100
let mut c = gen_ctx(g); let mut st = gen_queue_state(g, &c); let n = st.validators.len();
if g.chance(95) { c.max_per_epoch_activation_exit_churn_limit = g.pick(&[1, 4, 32]) * GWEI; c.min_per_epoch_churn_limit_electra = g.pick(&[64, 100, 128, 36, 33]) * GWEI; }
if g.chance(5) { c.pending_consolidations_limit = g.idx(4); }
let (i, j) = (g.idx(n), g.idx(n)); let e = epoch_of(&st, &c);
for x in [i, j] { if g.chance(93) { let v = &mut st.validators[x]; v.activation_epoch = e.saturating_sub(g.below(2)); v.exit_epoch = u64::MAX; v.withdrawal_credentials[0] = g.pick(&[1, 2]); } }
if g.chance(90) { for k in 12..32 { let b = st.validators[i].withdrawal_credentials[k]; st.validators[j].withdrawal_credentials[k] = b; } }
let mut m = ec::electra::SignedConsolidation::default(); m.message.source_index = if g.chance(3) { n } else { i }; m.message.target_index = if g.chance(3) { n + 7 } else { j }; m.message.epoch = match g.below(9) { 0 => e + 1, 1 => 0, _ => e };
let s = st.cv(); let cc = c.cv();
m.signature = if g.chance(8) { bad_sig(g) } else { agg_sign(&(if g.chance(95) { vec![i, j] } else { vec![i] }), sp_cons_message(s, m.message.cv(), cc)) };
let ok = sp_cons_valid(s, m.cv(), cc);
eqv!(sp::process_consolidation(&mut st, &m, &c).is_ok(), ok, "process_consolidation of {:?} at epoch {e}", m.message);
seq_st!(st, if ok { sp_consolidation(s, m.message.cv(), cc) } else { s }, "process_consolidation of {:?} at epoch {e}", m.message);
g.note("consolidation", ok);
