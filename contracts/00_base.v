@@spec
pub open spec fn vmax(a: int, b: int) -> int { if a > b { a } else { b } }
pub open spec fn vmin(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn vsubsat(a: int, b: int) -> int { if a > b { a - b } else { 0 } }
pub open spec fn far_future() -> int { 0xffff_ffff_ffff_ffff }
pub open spec fn u64_max() -> int { 0xffff_ffff_ffff_ffff }

pub open spec fn sp_epoch_at(slot: int, c: Context) -> int { slot / (c.slots_per_epoch as int) }
pub open spec fn sp_cur(s: StateV, c: Context) -> int { sp_epoch_at(s.slot as int, c) }
pub open spec fn sp_prev(s: StateV, c: Context) -> int { if sp_cur(s, c) == 0 { 0 } else { sp_cur(s, c) - 1 } }

pub open spec fn sp_is_active(v: Validator, e: int) -> bool { v.activation_epoch as int <= e && e < v.exit_epoch as int }
pub open spec fn sp_is_slashable(v: Validator, e: int) -> bool { !v.slashed && v.activation_epoch as int <= e && e < v.withdrawable_epoch as int }
pub open spec fn sp_double_vote(a: AttestationData, b: AttestationData) -> bool { a != b && a.target.epoch == b.target.epoch }
pub open spec fn sp_surround_vote(a: AttestationData, b: AttestationData) -> bool { a.source.epoch < b.source.epoch && b.target.epoch < a.target.epoch }

// indices (ascending) of the validators active in epoch e among the first n
pub open spec fn sp_active(vs: Seq<Validator>, e: int, n: int) -> Seq<usize>
    decreases n
{
    if n <= 0 { Seq::empty() } else {
        if sp_is_active(vs[n - 1], e) { sp_active(vs, e, n - 1).push((n - 1) as usize) } else { sp_active(vs, e, n - 1) }
    }
}
pub open spec fn sp_active_indices(s: StateV, e: int) -> Seq<usize> { sp_active(s.validators, e, s.validators.len() as int) }
// sum of the effective balances of the active validators among the first n
pub open spec fn sp_active_bal(vs: Seq<Validator>, e: int, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else {
        sp_active_bal(vs, e, n - 1) + (if sp_is_active(vs[n - 1], e) { vs[n - 1].effective_balance as int } else { 0 })
    }
}
// sum of all effective balances
pub open spec fn sp_eff_sum(vs: Seq<Validator>, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { sp_eff_sum(vs, n - 1) + vs[n - 1].effective_balance as int }
}
pub open spec fn sp_total_active_balance(s: StateV, c: Context) -> int {
    vmax(sp_active_bal(s.validators, sp_cur(s, c), s.validators.len() as int), c.effective_balance_increment as int)
}

// sum of the first n entries of the slashings vector
pub open spec fn sp_slash_sum(q: Seq<u64>, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { sp_slash_sum(q, n - 1) + q[n - 1] as int }
}

@@vspec
broadcast use {pre::ax::axiom_vec_of, pre::ax::axiom_vec_of_view, pre::ax::axiom_arr32, pre::ax::axiom_arr20, pre::ax::axiom_le_len, pre::ax::axiom_le_len32, pre::ax::axiom_u64_le, pre::ax::axiom_u32_le, dax::all, pre::ax::axiom_default_bytes32};

pub proof fn lemma_sorted_unique(p: Seq<usize>, q: Seq<usize>, s: Set<usize>)
    requires is_sorted_of(p, s), is_sorted_of(q, s)
    ensures p =~= q
    decreases p.len()
{
    if p.len() == 0 { if q.len() > 0 { assert(s.contains(q[0])); assert(p.contains(q[0])); } }
    else if q.len() == 0 { assert(s.contains(p[0])); assert(q.contains(p[0])); }
    else {
        let a = p.last(); let b = q.last();
        assert(s.contains(p[p.len() - 1]) && s.contains(q[q.len() - 1]));
        assert(q.contains(a) && p.contains(b));
        let i = choose|i: int| 0 <= i < q.len() && q[i] == a; let j = choose|j: int| 0 <= j < p.len() && p[j] == b;
        assert(a <= b && b <= a);
        let p1 = p.drop_last(); let q1 = q.drop_last(); let s1 = s.remove(a);
        assert forall|x: usize| s1.contains(x) implies #[trigger] p1.contains(x) by { assert(p.contains(x)); let k = choose|k: int| 0 <= k < p.len() && p[k] == x; assert(p1[k] == x); }
        assert forall|x: usize| s1.contains(x) implies #[trigger] q1.contains(x) by { assert(q.contains(x)); let k = choose|k: int| 0 <= k < q.len() && q[k] == x; assert(q1[k] == x); }
        assert forall|k: int| 0 <= k < p1.len() implies s1.contains(#[trigger] p1[k]) by { assert(p1[k] == p[k]); assert(p[k] < p[p.len() - 1]); }
        assert forall|k: int| 0 <= k < q1.len() implies s1.contains(#[trigger] q1[k]) by { assert(q1[k] == q[k]); assert(q[k] < q[q.len() - 1]); }
        assert(is_sorted_of(p1, s1) && is_sorted_of(q1, s1));
        lemma_sorted_unique(p1, q1, s1);
        assert(p =~= p1.push(a)); assert(q =~= q1.push(a));
    }
}
pub proof fn lemma_sorted_is(p: Seq<usize>, s: Set<usize>)
    requires is_sorted_of(p, s)
    ensures sorted_set(s) == p
{
    lemma_sorted_unique(p, sorted_set(s), s);
}
pub open spec fn pow2_40() -> int { 0x100_0000_0000 }
// the numeric ranges of a configuration; every network configuration in the repository satisfies them
// (checked concretely on every run)
pub open spec fn wf_ctx(c: Context) -> bool {
    &&& 0 < c.slots_per_epoch <= 0x1000 && 0 < c.shuffle_round_count <= 255
    &&& c.max_seed_lookahead <= 0x10000 && c.min_seed_lookahead < c.epochs_per_historical_vector
    &&& 0 < c.effective_balance_increment <= 0x10_0000_0000 && 0 < c.churn_limit_quotient
    &&& 0 < c.hysteresis_quotient && c.hysteresis_downward_multiplier <= 0x10000 && c.hysteresis_upward_multiplier <= 0x10000
    &&& c.max_effective_balance <= 0x100_0000_0000 && c.max_effective_balance_electra <= 0x400_0000_0000 && 0x2000_0000 <= c.min_activation_balance <= 0x100_0000_0000
    &&& 0 < c.target_committee_size && 0 < c.max_committees_per_slot <= 0x400
    &&& c.epochs_per_historical_vector as int == cg_EPOCHS_PER_HISTORICAL_VECTOR && cg_EPOCHS_PER_HISTORICAL_VECTOR <= 0x1000_0000 && 0 < cg_EPOCHS_PER_HISTORICAL_VECTOR
    &&& c.epochs_per_slashings_vector as int == cg_EPOCHS_PER_SLASHINGS_VECTOR && cg_EPOCHS_PER_SLASHINGS_VECTOR <= 0x1000_0000 && 0 < cg_EPOCHS_PER_SLASHINGS_VECTOR
    &&& c.slots_per_historical_root as int == cg_SLOTS_PER_HISTORICAL_ROOT && cg_SLOTS_PER_HISTORICAL_ROOT <= 0x1000_0000 && 0 < cg_SLOTS_PER_HISTORICAL_ROOT
    &&& c.slots_per_historical_root % c.slots_per_epoch == 0 && c.slots_per_epoch <= c.slots_per_historical_root
    &&& 0 < c.epochs_per_eth1_voting_period
    &&& 0 < c.min_slashing_penalty_quotient && 0x200 <= c.whistleblower_reward_quotient && 0 < c.proposer_reward_quotient
    &&& 0 < c.min_slashing_penalty_quotient_altair && 0 < c.min_slashing_penalty_quotient_bellatrix
    &&& 0 < c.min_slashing_penalty_quotient_electra && 0x200 <= c.whistleblower_reward_quotient_electra
    &&& c.min_validator_withdrawability_delay <= 0x10000000 && c.shard_committee_period <= 0x10000000
    &&& c.proportional_slashing_multiplier <= 4 && c.proportional_slashing_multiplier_altair <= 4 && c.proportional_slashing_multiplier_bellatrix <= 4
    &&& c.min_per_epoch_churn_limit <= pow2_40() && c.base_reward_factor <= 0x400
    &&& 0x2000_0000 <= c.effective_balance_increment <= c.min_per_epoch_churn_limit_electra <= 0x10_0000_0000_0000 && c.effective_balance_increment <= c.max_per_epoch_activation_exit_churn_limit
}
// vector lengths of a beacon state
pub open spec fn wf_len(s: StateV) -> bool {
    &&& s.slot < 0x100_0000_0000_0000
    &&& s.validators.len() < pow2_40() && s.balances.len() == s.validators.len()
    &&& s.block_roots.len() == cg_SLOTS_PER_HISTORICAL_ROOT && s.state_roots.len() == cg_SLOTS_PER_HISTORICAL_ROOT
    &&& s.randao_mixes.len() == cg_EPOCHS_PER_HISTORICAL_VECTOR && s.slashings.len() == cg_EPOCHS_PER_SLASHINGS_VECTOR
    &&& s.justification_bits.len() == 4
}
// exit epochs are either unset or not absurdly large
pub open spec fn wf_exits(vs: Seq<Validator>, bound: int) -> bool {
    forall|i: int| 0 <= i < vs.len() ==> (#[trigger] vs[i]).exit_epoch == u64::MAX || vs[i].exit_epoch < bound
}
pub proof fn lemma_active_same(vs: Seq<Validator>, ws: Seq<Validator>, e: int, n: int)
    requires 0 <= n <= vs.len(), n <= ws.len(), forall|i: int| 0 <= i < n ==> (sp_is_active(#[trigger] vs[i], e) <==> sp_is_active(ws[i], e))
    ensures sp_active(vs, e, n) == sp_active(ws, e, n)
    decreases n
{
    if n > 0 { lemma_active_same(vs, ws, e, n - 1); assert(sp_is_active(vs[n - 1], e) <==> sp_is_active(ws[n - 1], e)); }
}
pub proof fn lemma_eff_same(vs: Seq<Validator>, ws: Seq<Validator>, n: int)
    requires 0 <= n <= vs.len(), n <= ws.len(), forall|i: int| 0 <= i < n ==> (#[trigger] vs[i]).effective_balance == ws[i].effective_balance
    ensures sp_eff_sum(vs, n) == sp_eff_sum(ws, n)
    decreases n
{
    if n > 0 { lemma_eff_same(vs, ws, n - 1); assert(vs[n - 1].effective_balance == ws[n - 1].effective_balance); }
}
pub open spec fn pow2_60() -> int { 0x1000_0000_0000_0000 }
pub open spec fn wf_eff(vs: Seq<Validator>) -> bool {
    &&& sp_eff_sum(vs, vs.len() as int) < 2 * pow2_60()
    &&& forall|i: int| 0 <= i < vs.len() ==> (#[trigger] vs[i]).effective_balance <= 0x400_0000_0000
}
pub open spec fn wf_bal(s: StateV) -> bool { forall|i: int| 0 <= i < s.balances.len() ==> (#[trigger] s.balances[i]) < pow2_60() }
// representation invariant of a beacon state and the numeric ranges any reachable state satisfies
pub open spec fn wf_state(s: StateV, c: Context) -> bool {
    &&& wf_ctx(c) && wf_len(s) && wf_exits(s.validators, pow2_60()) && wf_eff(s.validators) && wf_bal(s)
}
pub proof fn lemma_epoch_bound(slot: int, c: Context)
    requires wf_ctx(c), 0 <= slot < 0x100_0000_0000_0000
    ensures 0 <= sp_epoch_at(slot, c) <= slot, sp_epoch_at(slot, c) * c.slots_per_epoch <= slot,
        slot < (sp_epoch_at(slot, c) + 1) * c.slots_per_epoch
{
    assert(0 <= slot / (c.slots_per_epoch as int) <= slot && (slot / (c.slots_per_epoch as int)) * c.slots_per_epoch <= slot
        && slot < (slot / (c.slots_per_epoch as int) + 1) * c.slots_per_epoch) by (nonlinear_arith)
        requires 0 <= slot, 0 < c.slots_per_epoch;
}
pub proof fn lemma_epoch_bound2(slot: int, c: Context)
    requires wf_ctx(c), 0 <= slot
    ensures 0 <= sp_epoch_at(slot, c) <= slot
{
    assert(0 <= slot / (c.slots_per_epoch as int) <= slot) by (nonlinear_arith) requires 0 <= slot, 0 < c.slots_per_epoch;
}
pub proof fn lemma_active_bal_le(vs: Seq<Validator>, e: int, n: int)
    requires 0 <= n <= vs.len()
    ensures 0 <= sp_active_bal(vs, e, n) <= sp_eff_sum(vs, n)
    decreases n
{
    if n > 0 { lemma_active_bal_le(vs, e, n - 1); }
}
pub proof fn lemma_eff_sum_mono(vs: Seq<Validator>, i: int, n: int)
    requires 0 <= i < n <= vs.len()
    ensures vs[i].effective_balance <= sp_eff_sum(vs, n), 0 <= sp_eff_sum(vs, n)
    decreases n
{
    assert(sp_eff_sum(vs, 0) == 0);
    if n > 1 { if i < n - 1 { lemma_eff_sum_mono(vs, i, n - 1); } else { lemma_eff_sum_mono(vs, 0, n - 1); } }
}
pub proof fn lemma_active_props(vs: Seq<Validator>, e: int, n: int)
    requires 0 <= n <= vs.len(), vs.len() <= usize::MAX
    ensures sp_active(vs, e, n).len() <= n, sp_active(vs, e, n).no_duplicates(),
        forall|k: int| 0 <= k < sp_active(vs, e, n).len() ==> (#[trigger] sp_active(vs, e, n)[k]) < n && sp_is_active(vs[sp_active(vs, e, n)[k] as int], e),
        forall|i: int| 0 <= i < n && sp_is_active(vs[i], e) ==> sp_active(vs, e, n).contains(i as usize),
    decreases n
{
    if n > 0 {
        lemma_active_props(vs, e, n - 1);
        let p = sp_active(vs, e, n - 1);
        if sp_is_active(vs[n - 1], e) {
            let q = p.push((n - 1) as usize);
            assert forall|i: int| 0 <= i < n && sp_is_active(vs[i], e) implies q.contains(i as usize) by {
                if i < n - 1 { let k = choose|k: int| 0 <= k < p.len() && p[k] == i as usize; assert(q[k] == i as usize); } else { assert(q[p.len() as int] == i as usize); }
            }
        }
    }
}
