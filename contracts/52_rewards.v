@@spec
// ---- rewards and penalties ----
pub open spec fn sp_eligible_one(v: Validator, e: int) -> bool { sp_is_active(v, e) || (v.slashed && e + 1 < v.withdrawable_epoch as int) }
pub open spec fn sp_eligible(vs: Seq<Validator>, e: int, n: int) -> Seq<usize>
    decreases n
{
    if n <= 0 { Seq::empty() } else {
        if sp_eligible_one(vs[n - 1], e) { sp_eligible(vs, e, n - 1).push((n - 1) as usize) } else { sp_eligible(vs, e, n - 1) }
    }
}
pub open spec fn sp_elig(s: StateV, c: Context, i: int) -> bool { sp_eligible_one(s.validators[i], sp_prev(s, c)) }
pub open spec fn sp_finality_delay(s: StateV, c: Context) -> int { sp_prev(s, c) - s.finalized_checkpoint.epoch as int }
pub open spec fn sp_leaking(s: StateV, c: Context) -> bool { sp_finality_delay(s, c) > c.min_epochs_to_inactivity_penalty as int }
pub open spec fn sp_apply(s: StateV, rew: Seq<u64>, pen: Seq<u64>) -> StateV {
    StateV { balances: Seq::new(s.validators.len() as nat, |i: int| vsubsat(s.balances[i] as int + rew[i] as int, pen[i] as int) as u64), ..s }
}
@@vspec
pub broadcast axiom fn axiom_isqrt(n: int) requires n >= 0 ensures is_isqrt(n, #[trigger] isqrt(n));
pub open spec fn delay_ok(s: StateV, c: Context) -> bool { s.finalized_checkpoint.epoch as int <= sp_prev(s, c) }
pub open spec fn reward_pre(s: StateV, c: Context) -> bool { epoch_pre(s, c) && wf_eff(s.validators) && delay_ok(s, c) }
pub open spec fn apply_fit(s: StateV, rew: Seq<u64>) -> bool { forall|i: int| 0 <= i < s.validators.len() ==> (#[trigger] s.balances[i]) + rew[i] <= u64::MAX }
pub proof fn lemma_total_ge(s: StateV, c: Context)
    requires wf_ctx(c)
    ensures sp_total_active_balance(s, c) / (c.effective_balance_increment as int) >= 1
{
    let t = sp_total_active_balance(s, c); let i = c.effective_balance_increment as int;
    assert(t / i >= 1) by (nonlinear_arith) requires t >= i, i > 0;
}
pub open spec fn applied_to(s: StateV, rew: Seq<u64>, pen: Seq<u64>, n: int) -> StateV {
    StateV { balances: Seq::new(s.balances.len(), |j: int| if j < n { sp_apply(s, rew, pen).balances[j] } else { s.balances[j] }), ..s }
}
pub proof fn lemma_isqrt_pos(s: StateV, c: Context)
    requires wf_ctx(c) ensures forall|r: int| #[trigger] is_isqrt(sp_total_active_balance(s, c), r) ==> r > 0
{
    let t = sp_total_active_balance(s, c);
    assert forall|r: int| #[trigger] is_isqrt(t, r) implies r > 0 by { if r == 0 { assert((r + 1) * (r + 1) == 1) by (nonlinear_arith) requires r == 0; } }
}
pub proof fn lemma_eligible(vs: Seq<Validator>, e: int, n: int)
    requires 0 <= n <= vs.len() <= usize::MAX
    ensures sp_eligible(vs, e, n).len() <= n, sp_eligible(vs, e, n).no_duplicates(),
        forall|k: int| 0 <= k < sp_eligible(vs, e, n).len() ==> (#[trigger] sp_eligible(vs, e, n)[k]) < n && sp_eligible_one(vs[sp_eligible(vs, e, n)[k] as int], e),
        forall|i: int| 0 <= i < n && sp_eligible_one(#[trigger] vs[i], e) ==> sp_eligible(vs, e, n).contains(i as usize),
    decreases n
{
    if n > 0 {
        lemma_eligible(vs, e, n - 1);
        let p = sp_eligible(vs, e, n - 1);
        if sp_eligible_one(vs[n - 1], e) {
            let q = p.push((n - 1) as usize);
            assert forall|i: int| 0 <= i < n && sp_eligible_one(#[trigger] vs[i], e) implies q.contains(i as usize) by {
                if i < n - 1 { let k = choose|k: int| 0 <= k < p.len() && p[k] == i as usize; assert(q[k] == i as usize); } else { assert(q[p.len() as int] == i as usize); }
            }
        }
    }
}
pub proof fn lemma_taken(vs: Seq<Validator>, e: int, n: int)
    requires 0 <= n <= vs.len() <= usize::MAX
    ensures ({ let q = sp_eligible(vs, e, n); q.take(q.len() as int) == q && forall|i: int| 0 <= i < n ==> (#[trigger] q.contains(i as usize) <==> sp_eligible_one(vs[i], e)) })
{
    lemma_eligible(vs, e, n);
    let q = sp_eligible(vs, e, n);
    assert(q.take(q.len() as int) =~= q);
    assert forall|i: int| 0 <= i < n implies (#[trigger] q.contains(i as usize) <==> sp_eligible_one(vs[i], e)) by {
        if q.contains(i as usize) { let k = choose|k: int| 0 <= k < q.len() && q[k] == i as usize; assert(sp_eligible_one(vs[q[k] as int], e)); }
    }
}
// what a loop over duplicate-free indices has reached
pub proof fn lemma_reach(q: Seq<usize>, k: int)
    requires 0 <= k < q.len(), q.no_duplicates()
    ensures !q.take(k).contains(q[k]), forall|x: usize| #[trigger] q.take(k + 1).contains(x) <==> q.take(k).contains(x) || x == q[k]
{
    if q.take(k).contains(q[k]) { let j = choose|j: int| 0 <= j < k && #[trigger] q.take(k)[j] == q[k]; assert(q[j] == q[k]); }
    assert(q.take(k + 1) =~= q.take(k).push(q[k]));
    assert forall|x: usize| #[trigger] q.take(k + 1).contains(x) <==> q.take(k).contains(x) || x == q[k] by {
        let a = q.take(k); let b = q.take(k + 1);
        if b.contains(x) { let j = choose|j: int| 0 <= j < k + 1 && #[trigger] b[j] == x; if j < k { assert(a[j] == x); } }
        if a.contains(x) { let j = choose|j: int| 0 <= j < k && #[trigger] a[j] == x; assert(b[j] == x); }
        if x == q[k] { assert(b[k] == x); }
    }
}
@@fn get_eligible_validator_indices
requires epoch_pre(state@, *context)
ensures r@ == sp_eligible(state@.validators, sp_prev(state@, *context), state@.validators.len() as int)
@ before 0
proof { lemma_epoch_bound(state@.slot as int, *context); }
@ loop 0
invariant __acc0@ == sp_eligible(state@.validators, sp_prev(state@, *context), __i0 as int),
@@fn get_finality_delay
requires epoch_pre(state@, *context), delay_ok(state@, *context)
ensures r as int == sp_finality_delay(state@, *context)
@@fn is_in_inactivity_leak
requires epoch_pre(state@, *context), delay_ok(state@, *context)
ensures r == sp_leaking(state@, *context)

@@spec forks=altair+
pub open spec fn sp_base_per_inc(s: StateV, c: Context) -> int { (c.effective_balance_increment as int) * (c.base_reward_factor as int) / isqrt(sp_total_active_balance(s, c)) }
pub open spec fn sp_base_reward(s: StateV, i: int, c: Context) -> int { (s.validators[i].effective_balance as int) / (c.effective_balance_increment as int) * sp_base_per_inc(s, c) }
pub open spec fn sp_flag_weight(flag: int) -> int { if flag == 1 { 26 } else { 14 } }
pub open spec fn sp_flag_product(s: StateV, flag: int, i: int, c: Context) -> int {
    sp_base_reward(s, i, c) * sp_flag_weight(flag) * (sp_total_balance(s, sp_participating(s, flag, sp_prev(s, c), c), c) / (c.effective_balance_increment as int))
}
pub open spec fn sp_flag_reward(s: StateV, flag: int, i: int, c: Context) -> int {
    if sp_elig(s, c, i) && sp_participating(s, flag, sp_prev(s, c), c).contains(i as usize) && !sp_leaking(s, c) {
        sp_flag_product(s, flag, i, c) / (sp_total_active_balance(s, c) / (c.effective_balance_increment as int) * 64)
    } else { 0 }
}
// missing the head vote costs nothing
pub open spec fn sp_flag_penalty(s: StateV, flag: int, i: int, c: Context) -> int {
    if sp_elig(s, c, i) && !sp_participating(s, flag, sp_prev(s, c), c).contains(i as usize) && flag != 2 { sp_base_reward(s, i, c) * sp_flag_weight(flag) / 64 } else { 0 }
}
pub open spec fn sp_flag_rewards(s: StateV, flag: int, c: Context) -> Seq<u64> { Seq::new(s.validators.len() as nat, |i: int| sp_flag_reward(s, flag, i, c) as u64) }
pub open spec fn sp_flag_penalties(s: StateV, flag: int, c: Context) -> Seq<u64> { Seq::new(s.validators.len() as nat, |i: int| sp_flag_penalty(s, flag, i, c) as u64) }
@@spec forks=altair
pub open spec fn sp_inact_quotient(c: Context) -> int { (c.inactivity_score_bias as int) * (c.inactivity_penalty_quotient_altair as int) }
@@spec forks=bellatrix+
pub open spec fn sp_inact_quotient(c: Context) -> int { (c.inactivity_score_bias as int) * (c.inactivity_penalty_quotient_bellatrix as int) }
@@spec forks=altair+
pub open spec fn sp_inact_penalty(s: StateV, i: int, c: Context) -> int {
    if sp_elig(s, c, i) && !sp_participating(s, 1, sp_prev(s, c), c).contains(i as usize) { (s.validators[i].effective_balance as int) * (s.inactivity_scores[i] as int) / sp_inact_quotient(c) } else { 0 }
}
pub open spec fn sp_inact_penalties(s: StateV, c: Context) -> Seq<u64> { Seq::new(s.validators.len() as nat, |i: int| sp_inact_penalty(s, i, c) as u64) }
pub open spec fn sp_no_rewards(s: StateV) -> Seq<u64> { Seq::new(s.validators.len() as nat, |i: int| 0u64) }
pub open spec fn sp_delta_rewards(s: StateV, k: int, c: Context) -> Seq<u64> { if k < 3 { sp_flag_rewards(s, k, c) } else { sp_no_rewards(s) } }
pub open spec fn sp_delta_penalties(s: StateV, k: int, c: Context) -> Seq<u64> { if k < 3 { sp_flag_penalties(s, k, c) } else { sp_inact_penalties(s, c) } }
// the first k of the four delta sets, all computed on the state before any of them is applied
pub open spec fn sp_rewarded(s: StateV, k: int, c: Context) -> StateV
    decreases k
{
    if k <= 0 { s } else { sp_apply(sp_rewarded(s, k - 1, c), sp_delta_rewards(s, k - 1, c), sp_delta_penalties(s, k - 1, c)) }
}
pub open spec fn sp_rewards(s: StateV, c: Context) -> StateV { if sp_cur(s, c) == 0 { s } else { sp_rewarded(s, 4, c) } }
@@vspec forks=altair+
pub open spec fn base_fit(s: StateV, i: int, c: Context) -> bool { sp_base_reward(s, i, c) * 26 <= u64::MAX }
pub open spec fn flag_fit(s: StateV, flag: int, c: Context) -> bool {
    (forall|i: int| 0 <= i < s.validators.len() ==> #[trigger] base_fit(s, i, c)) && (forall|i: int| 0 <= i < s.validators.len() ==> #[trigger] sp_flag_product(s, flag, i, c) <= u64::MAX)
}
pub open spec fn inact_fit(s: StateV, c: Context) -> bool {
    0 < sp_inact_quotient(c) <= u64::MAX && forall|i: int| 0 <= i < s.validators.len() ==> (s.validators[i].effective_balance as int) * ((#[trigger] s.inactivity_scores[i]) as int) <= u64::MAX
}
pub open spec fn rewards_fit(s: StateV, c: Context) -> bool {
    &&& inact_fit(s, c)
    &&& forall|k: int| 0 <= k < 3 ==> #[trigger] flag_fit(s, k, c)
    &&& forall|k: int| 0 <= k < 4 ==> apply_fit(#[trigger] sp_rewarded(s, k, c), sp_delta_rewards(s, k, c))
}
pub proof fn lemma_rewarded(s: StateV, k: int, c: Context)
    requires s.validators.len() == s.balances.len()
    ensures sp_rewarded(s, k, c).balances.len() == s.balances.len(), sp_rewarded(s, k, c) == (StateV { balances: sp_rewarded(s, k, c).balances, ..s })
    decreases k
{
    if k > 0 { lemma_rewarded(s, k - 1, c); }
}
pub open spec fn deltas_are(d: &Vec<(Vec<u64>, Vec<u64>)>, s: StateV, c: Context, n: int) -> bool {
    d@.len() == n && forall|k: int| 0 <= k < n ==> (#[trigger] d@[k]).0@ == sp_delta_rewards(s, k, c) && d@[k].1@ == sp_delta_penalties(s, k, c)
}
@@fn get_base_reward_per_increment forks=altair+
requires epoch_pre(state@, *context), wf_eff(state@.validators)
ensures r is Ok, r matches Ok(x) ==> x as int == sp_base_per_inc(state@, *context)
@ start
proof {
    let a = context.effective_balance_increment as int; let b = context.base_reward_factor as int;
    assert(0 <= a * b <= 0x10_0000_0000 * 0x400) by (nonlinear_arith) requires 0 <= a <= 0x10_0000_0000, 0 <= b <= 0x400;
    lemma_isqrt_pos(state@, *context);
}
@@fn get_base_reward forks=altair+
requires epoch_pre(state@, *context), wf_eff(state@.validators), index < state@.validators.len(), base_fit(state@, index as int, *context)
ensures r is Ok, r matches Ok(x) ==> x as int == sp_base_reward(state@, index as int, *context)
@@fn get_flag_index_deltas forks=altair+
requires reward_pre(state@, *context), wf_part(state@), flag_index < 3, flag_fit(state@, flag_index as int, *context)
ensures r is Ok, r matches Ok(x) ==> x.0@ == sp_flag_rewards(state@, flag_index as int, *context) && x.1@ == sp_flag_penalties(state@, flag_index as int, *context)
@ start
proof {
    lemma_part(state@, flag_index as int, sp_prev(state@, *context), *context, state@.validators.len() as int);
    assert(in_range(sp_participating(state@, flag_index as int, sp_prev(state@, *context), *context), state@.validators.len() as int));
}
@ before 0
proof {
    lemma_eligible(state@.validators, sp_prev(state@, *context), state@.validators.len() as int);
    lemma_total_ge(state@, *context); lemma_active_bal_le(state@.validators, sp_cur(state@, *context), state@.validators.len() as int);
    let t = sp_total_active_balance(state@, *context); let k = context.effective_balance_increment as int;
    assert(t / k * 64 <= u64::MAX) by (nonlinear_arith) requires 0 <= t <= 0x2000_0000_0000_0000, k >= 0x2000_0000;
    assert(weight == sp_flag_weight(flag_index as int));
}
@ loop 0
invariant rewards@ == Seq::new(state@.validators.len(), |i: int| if __s0@.take(__i0 as int).contains(i as usize) { sp_flag_reward(state@, flag_index as int, i, *context) as u64 } else { 0u64 }),
    penalties@ == Seq::new(state@.validators.len(), |i: int| if __s0@.take(__i0 as int).contains(i as usize) { sp_flag_penalty(state@, flag_index as int, i, *context) as u64 } else { 0u64 }),
@ loopstart 0
proof {
    lemma_reach(__s0@, __i0 as int);
    let i = __s0@[__i0 as int] as int;
    assert(base_fit(state@, i, *context)); let p = sp_flag_product(state@, flag_index as int, i, *context); assert(p <= u64::MAX);
    let b = sp_base_reward(state@, i, *context); let w = weight as int; let u = unslashed_participating_increments as int;
    assert(p == (b * w) * u);
}
@ after 0
proof {
    let n = state@.validators.len() as int; let e = sp_prev(state@, *context);
    lemma_taken(state@.validators, e, n);
    assert(rewards@ =~= sp_flag_rewards(state@, flag_index as int, *context));
    assert(penalties@ =~= sp_flag_penalties(state@, flag_index as int, *context));
}
@@fn get_inactivity_penalty_deltas forks=altair+
requires reward_pre(state@, *context), wf_part(state@), inact_fit(state@, *context)
ensures r is Ok, r matches Ok(x) ==> x.0@ == sp_no_rewards(state@) && x.1@ == sp_inact_penalties(state@, *context)
@ before 0
proof { lemma_eligible(state@.validators, sp_prev(state@, *context), state@.validators.len() as int); }
@ loop 0
invariant penalties@ == Seq::new(state@.validators.len(), |i: int| if __s0@.take(__i0 as int).contains(i as usize) { sp_inact_penalty(state@, i, *context) as u64 } else { 0u64 }),
@ loopstart 0
proof { lemma_reach(__s0@, __i0 as int); }
@ after 0
proof {
    let n = state@.validators.len() as int; let e = sp_prev(state@, *context);
    lemma_taken(state@.validators, e, n);
    assert(penalties@ =~= sp_inact_penalties(state@, *context));
}
@@fn process_rewards_and_penalties forks=altair+
requires reward_pre(old(state)@, *context), wf_part(old(state)@), sp_cur(old(state)@, *context) == 0 || rewards_fit(old(state)@, *context)
ensures r is Ok, final(state)@ == sp_rewards(old(state)@, *context)
@ start
let ghost s0 = state@;
@ loop 0
invariant state@ == s0, deltas_are(&deltas, s0, *context, __i0 as int),
@ loop 1
invariant deltas_are(&deltas, s0, *context, 4), state@ == sp_rewarded(s0, __i1 as int, *context), s0.validators.len() == s0.balances.len(),
@ loopstart 1
let ghost s1 = state@;
proof { lemma_rewarded(s0, __i1 as int, *context); assert(apply_fit(sp_rewarded(s0, __i1 as int, *context), sp_delta_rewards(s0, __i1 as int, *context))); }
@ before 2
proof { assert(state@.balances =~= applied_to(s1, rewards@, penalties@, 0).balances); }
@ loop 2
invariant s1.validators.len() == s1.balances.len(), rewards@.len() == s1.validators.len(), penalties@.len() == s1.validators.len(), apply_fit(s1, rewards@), __n2 == s1.validators.len(),
    state@ == applied_to(s1, rewards@, penalties@, __i2 as int),
@ loopend 2
proof { assert(state@.balances =~= applied_to(s1, rewards@, penalties@, __i2 as int).balances); }
@ after 2
proof { assert(state@.balances =~= sp_apply(s1, rewards@, penalties@).balances); }

@@spec forks=phase0
pub open spec fn sp_base_reward(s: StateV, i: int, c: Context) -> int { (s.validators[i].effective_balance as int) * (c.base_reward_factor as int) / isqrt(sp_total_active_balance(s, c)) / 4 }
pub open spec fn sp_base_share(s: StateV, i: int, c: Context) -> int { sp_base_reward(s, i, c) / (c.proposer_reward_quotient as int) }
// source, target and head votes: u are the unslashed validators that voted so
pub open spec fn sp_comp_product(s: StateV, u: Set<usize>, i: int, c: Context) -> int { sp_base_reward(s, i, c) * (sp_total_balance(s, u, c) / (c.effective_balance_increment as int)) }
pub open spec fn sp_comp_reward(s: StateV, u: Set<usize>, i: int, c: Context) -> int {
    if sp_elig(s, c, i) && u.contains(i as usize) {
        if sp_leaking(s, c) { sp_base_reward(s, i, c) } else { sp_comp_product(s, u, i, c) / (sp_total_active_balance(s, c) / (c.effective_balance_increment as int)) }
    } else { 0 }
}
pub open spec fn sp_comp_penalty(s: StateV, u: Set<usize>, i: int, c: Context) -> int { if sp_elig(s, c, i) && !u.contains(i as usize) { sp_base_reward(s, i, c) } else { 0 } }
pub open spec fn sp_comp_rewards(s: StateV, u: Set<usize>, c: Context) -> Seq<u64> { Seq::new(s.validators.len() as nat, |i: int| sp_comp_reward(s, u, i, c) as u64) }
pub open spec fn sp_comp_penalties(s: StateV, u: Set<usize>, c: Context) -> Seq<u64> { Seq::new(s.validators.len() as nat, |i: int| sp_comp_penalty(s, u, i, c) as u64) }
pub open spec fn sp_voters(s: StateV, q: Seq<PendingAttestation>, c: Context) -> Set<usize> { sp_unslashed_att(s, q, q.len() as int, c) }
pub open spec fn sp_source_voters(s: StateV, c: Context) -> Set<usize> { sp_voters(s, sp_source_atts(s, sp_prev(s, c), c), c) }
pub open spec fn sp_target_voters(s: StateV, c: Context) -> Set<usize> { sp_voters(s, sp_target_atts(s, sp_prev(s, c), c), c) }
pub open spec fn sp_head_voters(s: StateV, c: Context) -> Set<usize> { sp_voters(s, sp_head_atts(s, sp_prev(s, c), c), c) }
// the attestations among the first n of q in which validator i took part
pub open spec fn sp_taking_part(s: StateV, q: Seq<PendingAttestation>, i: usize, n: int, c: Context) -> Seq<PendingAttestation>
    decreases n
{
    if n <= 0 { Seq::empty() } else if sp_attesting(s, q[n - 1].data, q[n - 1].aggregation_bits@, c).contains(i) { sp_taking_part(s, q, i, n - 1, c).push(q[n - 1]) } else { sp_taking_part(s, q, i, n - 1, c) }
}
// position of the first of the earliest included attestations among the first n
pub open spec fn sp_earliest(q: Seq<PendingAttestation>, n: int) -> int
    decreases n
{
    if n <= 1 { 0 } else if q[n - 1].inclusion_delay < q[sp_earliest(q, n - 1)].inclusion_delay { n - 1 } else { sp_earliest(q, n - 1) }
}
pub open spec fn sp_included(s: StateV, i: usize, c: Context) -> PendingAttestation {
    let q = sp_source_atts(s, sp_prev(s, c), c); let p = sp_taking_part(s, q, i, q.len() as int, c);
    p[sp_earliest(p, p.len() as int)]
}
// what validator i's inclusion is worth to validator j: its own share shrinks with the delay, and the proposer takes a fixed part
pub open spec fn sp_incl_term(s: StateV, i: int, j: int, c: Context) -> int {
    let a = sp_included(s, i as usize, c);
    (if a.proposer_index as int == j { sp_base_share(s, i, c) } else { 0 }) + (if i == j { (sp_base_reward(s, i, c) - sp_base_share(s, i, c)) / (a.inclusion_delay as int) } else { 0 })
}
pub open spec fn sp_incl_sum(s: StateV, u: Set<usize>, j: int, n: int, c: Context) -> int
    decreases n
{
    if n <= 0 { 0 } else { sp_incl_sum(s, u, j, n - 1, c) + (if u.contains((n - 1) as usize) { sp_incl_term(s, n - 1, j, c) } else { 0 }) }
}
pub open spec fn sp_incl_reward(s: StateV, j: int, c: Context) -> int { sp_incl_sum(s, sp_source_voters(s, c), j, s.validators.len() as int, c) }
pub open spec fn sp_inact_penalty(s: StateV, i: int, c: Context) -> int {
    if sp_leaking(s, c) && sp_elig(s, c, i) {
        4 * sp_base_reward(s, i, c) - sp_base_share(s, i, c)
            + (if !sp_target_voters(s, c).contains(i as usize) { (s.validators[i].effective_balance as int) * sp_finality_delay(s, c) / (c.inactivity_penalty_quotient as int) } else { 0 })
    } else { 0 }
}
pub open spec fn sp_att_reward(s: StateV, i: int, c: Context) -> int {
    sp_comp_reward(s, sp_source_voters(s, c), i, c) + sp_comp_reward(s, sp_target_voters(s, c), i, c) + sp_comp_reward(s, sp_head_voters(s, c), i, c) + sp_incl_reward(s, i, c)
}
pub open spec fn sp_att_penalty(s: StateV, i: int, c: Context) -> int {
    sp_comp_penalty(s, sp_source_voters(s, c), i, c) + sp_comp_penalty(s, sp_target_voters(s, c), i, c) + sp_comp_penalty(s, sp_head_voters(s, c), i, c) + sp_inact_penalty(s, i, c)
}
pub open spec fn sp_rewards(s: StateV, c: Context) -> StateV {
    if sp_cur(s, c) == 0 { s } else {
        sp_apply(s, Seq::new(s.validators.len() as nat, |i: int| sp_att_reward(s, i, c) as u64), Seq::new(s.validators.len() as nat, |i: int| sp_att_penalty(s, i, c) as u64))
    }
}
@@vspec forks=phase0
pub open spec fn base_fit(s: StateV, i: int, c: Context) -> bool { (s.validators[i].effective_balance as int) * (c.base_reward_factor as int) <= u64::MAX }
pub open spec fn comp_fit(s: StateV, u: Set<usize>, c: Context) -> bool { forall|i: int| 0 <= i < s.validators.len() ==> #[trigger] sp_comp_product(s, u, i, c) <= u64::MAX }
pub open spec fn incl_fit(s: StateV, c: Context) -> bool {
    (forall|j: int| 0 <= j < s.validators.len() ==> #[trigger] sp_incl_reward(s, j, c) <= u64::MAX)
    && (forall|k: int| 0 <= k < sp_source_atts(s, sp_prev(s, c), c).len() ==> (#[trigger] sp_source_atts(s, sp_prev(s, c), c)[k]).inclusion_delay > 0 && sp_source_atts(s, sp_prev(s, c), c)[k].proposer_index < s.validators.len())
}
pub open spec fn inact_one(s: StateV, i: int, c: Context) -> bool { (s.validators[i].effective_balance as int) * sp_finality_delay(s, c) <= u64::MAX }
pub open spec fn inact_fit(s: StateV, c: Context) -> bool { c.inactivity_penalty_quotient >= 2 && forall|i: int| 0 <= i < s.validators.len() ==> #[trigger] inact_one(s, i, c) }
pub open spec fn att_pre(s: StateV, c: Context) -> bool { wf_state(s, c) && reward_pre(s, c) && wf_part(s, c) && sp_target_ok(s, sp_prev(s, c), c) && heads_known(s, sp_prev(s, c), c) && s.slot > 0 }
pub open spec fn deltas_fit(s: StateV, c: Context) -> bool {
    &&& comp_fit(s, sp_source_voters(s, c), c) && comp_fit(s, sp_target_voters(s, c), c) && comp_fit(s, sp_head_voters(s, c), c) && incl_fit(s, c) && inact_fit(s, c)
    &&& forall|i: int| 0 <= i < s.validators.len() ==> #[trigger] sp_att_reward(s, i, c) <= u64::MAX
}
pub open spec fn rewards_fit(s: StateV, c: Context) -> bool {
    deltas_fit(s, c) && forall|i: int| 0 <= i < s.validators.len() ==> (#[trigger] s.balances[i]) + sp_att_reward(s, i, c) <= u64::MAX
}
pub proof fn lemma_base(s: StateV, i: int, c: Context)
    requires wf_ctx(c), wf_eff(s.validators), 0 <= i < s.validators.len(), isqrt(sp_total_active_balance(s, c)) > 0
    ensures 0 <= sp_base_reward(s, i, c) <= 0x400_0000_0000 * 0x100, 0 <= sp_base_share(s, i, c) <= sp_base_reward(s, i, c)
{
    let a = s.validators[i].effective_balance as int; let b = c.base_reward_factor as int; let r = isqrt(sp_total_active_balance(s, c)); let p = c.proposer_reward_quotient as int;
    assert(0 <= a * b <= 0x400_0000_0000 * 0x400) by (nonlinear_arith) requires 0 <= a <= 0x400_0000_0000, 0 <= b <= 0x400;
    let x = a * b;
    assert(0 <= x / r <= x) by (nonlinear_arith) requires x >= 0, r > 0;
    let y = x / r / 4;
    assert(0 <= y / p <= y) by (nonlinear_arith) requires y >= 0, p > 0;
}
@@fn get_base_reward forks=phase0
requires epoch_pre(state@, *context), wf_eff(state@.validators), index < state@.validators.len()
ensures r is Ok, r matches Ok(x) ==> x as int == sp_base_reward(state@, index as int, *context), isqrt(sp_total_active_balance(state@, *context)) > 0
@ start
proof {
    let a = state@.validators[index as int].effective_balance as int; let b = context.base_reward_factor as int;
    assert(0 <= a * b <= 0x400_0000_0000 * 0x400) by (nonlinear_arith) requires 0 <= a <= 0x400_0000_0000, 0 <= b <= 0x400;
    lemma_isqrt_pos(state@, *context);
}
@@fn get_proposer_reward forks=phase0
requires epoch_pre(state@, *context), wf_eff(state@.validators), attesting_index < state@.validators.len()
ensures r is Ok, r matches Ok(x) ==> x as int == sp_base_share(state@, attesting_index as int, *context)
@@fn get_attestation_component_deltas forks=phase0
requires reward_pre(state@, *context), atts_recorded(state@, attrefs(&attestations), *context), comp_fit(state@, sp_voters(state@, attrefs(&attestations), *context), *context)
ensures r is Ok, r matches Ok(x) ==> x.0@ == sp_comp_rewards(state@, sp_voters(state@, attrefs(&attestations), *context), *context) && x.1@ == sp_comp_penalties(state@, sp_voters(state@, attrefs(&attestations), *context), *context)
@ start
let ghost u = sp_voters(state@, attrefs(&attestations), *context);
proof { lemma_unslashed_range(state@, attrefs(&attestations), attestations@.len() as int, *context); }
@ before 0
proof {
    lemma_eligible(state@.validators, sp_prev(state@, *context), state@.validators.len() as int);
    lemma_total_ge(state@, *context); lemma_active_bal_le(state@.validators, sp_cur(state@, *context), state@.validators.len() as int);
}
@ loop 0
invariant rewards@ == Seq::new(state@.validators.len(), |i: int| if __s0@.take(__i0 as int).contains(i as usize) { sp_comp_reward(state@, u, i, *context) as u64 } else { 0u64 }),
    penalties@ == Seq::new(state@.validators.len(), |i: int| if __s0@.take(__i0 as int).contains(i as usize) { sp_comp_penalty(state@, u, i, *context) as u64 } else { 0u64 }),
@ loopstart 0
proof {
    lemma_reach(__s0@, __i0 as int);
    let i = __s0@[__i0 as int] as int; assert(sp_comp_product(state@, u, i, *context) <= u64::MAX);
}
@ after 0
proof {
    lemma_taken(state@.validators, sp_prev(state@, *context), state@.validators.len() as int);
    assert(rewards@ =~= sp_comp_rewards(state@, u, *context));
    assert(penalties@ =~= sp_comp_penalties(state@, u, *context));
}
@@fn get_source_deltas forks=phase0
requires att_pre(state@, *context), comp_fit(state@, sp_source_voters(state@, *context), *context)
ensures r is Ok, r matches Ok(x) ==> x.0@ == sp_comp_rewards(state@, sp_source_voters(state@, *context), *context) && x.1@ == sp_comp_penalties(state@, sp_source_voters(state@, *context), *context)
@ tail
proof { lemma_prev_atts(state@, *context); }
assert(forall|v: Vec<&PendingAttestation>| v@.len() == matching_source_attestations@.len() && (forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] v@[i]) == matching_source_attestations@[i]) ==> #[trigger] attrefs(&v) =~= matching_source_attestations@);
@@fn get_target_deltas forks=phase0
requires att_pre(state@, *context), comp_fit(state@, sp_target_voters(state@, *context), *context)
ensures r is Ok, r matches Ok(x) ==> x.0@ == sp_comp_rewards(state@, sp_target_voters(state@, *context), *context) && x.1@ == sp_comp_penalties(state@, sp_target_voters(state@, *context), *context)
@ start
proof { lemma_prev_atts(state@, *context); }
@@fn get_head_deltas forks=phase0
requires att_pre(state@, *context), comp_fit(state@, sp_head_voters(state@, *context), *context)
ensures r is Ok, r matches Ok(x) ==> x.0@ == sp_comp_rewards(state@, sp_head_voters(state@, *context), *context) && x.1@ == sp_comp_penalties(state@, sp_head_voters(state@, *context), *context)
@ start
proof { lemma_prev_atts(state@, *context); }
@@vspec forks=phase0
pub proof fn lemma_head_first(s: StateV, q: Seq<PendingAttestation>, n: int, c: Context)
    requires atts_recorded(s, q, c), 0 <= n <= q.len()
    ensures atts_recorded(s, sp_head_first(s, q, n), c)
    decreases n
{
    if n > 0 { lemma_head_first(s, q, n - 1, c); }
}
pub proof fn lemma_prev_atts(s: StateV, c: Context)
    requires wf_part(s, c)
    ensures atts_recorded(s, sp_source_atts(s, sp_prev(s, c), c), c), atts_recorded(s, sp_target_atts(s, sp_prev(s, c), c), c), atts_recorded(s, sp_head_atts(s, sp_prev(s, c), c), c)
{
    let e = sp_prev(s, c); let t = sp_target_atts(s, e, c);
    lemma_target_first(s, e, c, sp_source_atts(s, e, c).len() as int);
    lemma_head_first(s, t, t.len() as int, c);
}
@@fn get_inactivity_penalty_deltas forks=phase0
requires att_pre(state@, *context), inact_fit(state@, *context)
ensures r is Ok, r matches Ok(x) ==> x.0@ == Seq::new(state@.validators.len(), |i: int| 0u64) && x.1@ == Seq::new(state@.validators.len(), |i: int| sp_inact_penalty(state@, i, *context) as u64)
@ start
proof { lemma_prev_atts(state@, *context); }
@ before 0
proof { lemma_eligible(state@.validators, sp_prev(state@, *context), state@.validators.len() as int); }
@ loop 0
invariant matching_target_attesting_indices@ == sp_target_voters(state@, *context),
    penalties@ == Seq::new(state@.validators.len(), |i: int| if __s0@.take(__i0 as int).contains(i as usize) { sp_inact_penalty(state@, i, *context) as u64 } else { 0u64 }),
@ loopstart 0
proof { lemma_reach(__s0@, __i0 as int); assert(inact_one(state@, __s0@[__i0 as int] as int, *context)); }
@ let base_reward 0
proof {
    lemma_base(state@, i as int, *context);
    let x = (state@.validators[i as int].effective_balance as int) * sp_finality_delay(state@, *context); let q = context.inactivity_penalty_quotient as int;
    assert(0 <= x / q <= x / 2) by (nonlinear_arith) requires x >= 0, q >= 2;
}
@ after 0
proof { lemma_taken(state@.validators, sp_prev(state@, *context), state@.validators.len() as int); }
@ tail
proof { assert(penalties@ =~= Seq::new(state@.validators.len(), |i: int| sp_inact_penalty(state@, i, *context) as u64)); }
@@vspec forks=phase0
pub proof fn lemma_earliest(q: Seq<PendingAttestation>, n: int)
    requires 0 < n <= q.len()
    ensures 0 <= sp_earliest(q, n) < n
    decreases n
{
    if n > 1 { lemma_earliest(q, n - 1); }
}
pub proof fn lemma_taking_part(s: StateV, q: Seq<PendingAttestation>, i: usize, n: int, c: Context)
    requires 0 <= n <= q.len()
    ensures sp_taking_part(s, q, i, n, c).len() <= n, forall|k: int| 0 <= k < sp_taking_part(s, q, i, n, c).len() ==> q.contains(#[trigger] sp_taking_part(s, q, i, n, c)[k]),
        (exists|k: int| 0 <= k < n && #[trigger] sp_attesting(s, q[k].data, q[k].aggregation_bits@, c).contains(i)) ==> sp_taking_part(s, q, i, n, c).len() > 0
    decreases n
{
    if n > 0 { lemma_taking_part(s, q, i, n - 1, c); assert(q.contains(q[n - 1])); }
}
pub proof fn lemma_voters_in(s: StateV, q: Seq<PendingAttestation>, k: int, c: Context, i: usize)
    requires 0 <= k <= q.len(), sp_unslashed_att(s, q, k, c).contains(i), s.validators.len() <= usize::MAX
    ensures exists|m: int| 0 <= m < k && #[trigger] sp_attesting(s, q[m].data, q[m].aggregation_bits@, c).contains(i)
    decreases k
{
    if k > 0 {
        let add = sp_attesting(s, q[k - 1].data, q[k - 1].aggregation_bits@, c);
        lemma_add_unslashed(s.validators, add, sp_unslashed_att(s, q, k - 1, c), s.validators.len() as int);
        if sp_unslashed_att(s, q, k - 1, c).contains(i) { lemma_voters_in(s, q, k - 1, c, i); }
    }
}
// the attestation that counts for a source voter is one of the recorded ones
pub proof fn lemma_included(s: StateV, i: usize, c: Context)
    requires att_pre(s, c), incl_fit(s, c), sp_source_voters(s, c).contains(i)
    ensures ({ let q = sp_source_atts(s, sp_prev(s, c), c); sp_taking_part(s, q, i, q.len() as int, c).len() > 0 }), i < s.validators.len(),
        sp_included(s, i, c).inclusion_delay > 0, sp_included(s, i, c).proposer_index < s.validators.len()
{
    let q = sp_source_atts(s, sp_prev(s, c), c); let p = sp_taking_part(s, q, i, q.len() as int, c);
    lemma_prev_atts(s, c); lemma_unslashed_range(s, q, q.len() as int, c);
    lemma_voters_in(s, q, q.len() as int, c, i);
    lemma_taking_part(s, q, i, q.len() as int, c);
    lemma_earliest(p, p.len() as int);
    assert(q.contains(p[sp_earliest(p, p.len() as int)]));
}
pub proof fn lemma_term(s: StateV, i: int, j: int, c: Context)
    requires att_pre(s, c), incl_fit(s, c), 0 <= i < s.validators.len(), sp_source_voters(s, c).contains(i as usize), isqrt(sp_total_active_balance(s, c)) > 0
    ensures 0 <= sp_incl_term(s, i, j, c)
{
    lemma_included(s, i as usize, c); lemma_base(s, i, c);
    let x = sp_base_reward(s, i, c) - sp_base_share(s, i, c); let d = sp_included(s, i as usize, c).inclusion_delay as int;
    assert(x / d >= 0) by (nonlinear_arith) requires x >= 0, d > 0;
}
pub proof fn lemma_incl_insert(s: StateV, a: Set<usize>, b: Set<usize>, x: usize, j: int, n: int, c: Context)
    requires 0 <= n <= s.validators.len() <= usize::MAX, !a.contains(x), forall|y: usize| b.contains(y) <==> (a.contains(y) || y == x)
    ensures sp_incl_sum(s, b, j, n, c) == sp_incl_sum(s, a, j, n, c) + (if x < n { sp_incl_term(s, x as int, j, c) } else { 0 })
    decreases n
{
    if n > 0 { lemma_incl_insert(s, a, b, x, j, n - 1, c); }
}
pub proof fn lemma_incl_le(s: StateV, a: Set<usize>, u: Set<usize>, j: int, n: int, c: Context)
    requires 0 <= n <= s.validators.len() <= usize::MAX, forall|y: usize| a.contains(y) ==> u.contains(y), forall|i: int| 0 <= i < n && u.contains(i as usize) ==> #[trigger] sp_incl_term(s, i, j, c) >= 0
    ensures 0 <= sp_incl_sum(s, a, j, n, c) <= sp_incl_sum(s, u, j, n, c)
    decreases n
{
    if n > 0 { lemma_incl_le(s, a, u, j, n - 1, c); assert(u.contains((n - 1) as usize) ==> sp_incl_term(s, n - 1, j, c) >= 0); }
}
pub proof fn lemma_incl_ext(s: StateV, a: Set<usize>, b: Set<usize>, j: int, n: int, c: Context)
    requires 0 <= n <= s.validators.len() <= usize::MAX, forall|y: usize| a.contains(y) <==> b.contains(y)
    ensures sp_incl_sum(s, a, j, n, c) == sp_incl_sum(s, b, j, n, c)
    decreases n
{
    if n > 0 { lemma_incl_ext(s, a, b, j, n - 1, c); }
}
pub proof fn lemma_incl_empty(s: StateV, a: Set<usize>, j: int, n: int, c: Context)
    requires forall|y: usize| !a.contains(y)
    ensures sp_incl_sum(s, a, j, n, c) == 0
    decreases n
{
    if n > 0 { lemma_incl_empty(s, a, j, n - 1, c); }
}
pub open spec fn incl_seq(s: StateV, a: Set<usize>, c: Context) -> Seq<u64> { Seq::new(s.validators.len(), |j: int| sp_incl_sum(s, a, j, s.validators.len() as int, c) as u64) }
// one more voter counted
pub proof fn lemma_incl_step(s: StateV, q: Seq<usize>, k: int, c: Context)
    requires att_pre(s, c), incl_fit(s, c), 0 <= k < q.len(), q.no_duplicates(), forall|x: usize| #[trigger] q.contains(x) <==> sp_source_voters(s, c).contains(x), isqrt(sp_total_active_balance(s, c)) > 0
    ensures ({ let i = q[k] as int; let p = sp_included(s, q[k], c).proposer_index as int; let t = sp_base_reward(s, i, c); let h = sp_base_share(s, i, c); let d = sp_included(s, q[k], c).inclusion_delay as int;
        let r0 = incl_seq(s, q.take(k).to_set(), c); let r1 = r0.update(p, (r0[p] + h) as u64);
        0 <= h <= t && d > 0 && 0 <= p < s.validators.len() && 0 <= i < s.validators.len() && r0[p] + h <= u64::MAX && r1[i] + (t - h) / d <= u64::MAX && incl_seq(s, q.take(k + 1).to_set(), c) == r1.update(i, (r1[i] + (t - h) / d) as u64) })
{
    let n = s.validators.len() as int; let u = sp_source_voters(s, c);
    let a = q.take(k).to_set(); let b = q.take(k + 1).to_set();
    lemma_reach(q, k);
    assert(q.contains(q[k]));
    lemma_included(s, q[k], c); lemma_base(s, q[k] as int, c);
    assert forall|y: usize| b.contains(y) implies u.contains(y) by { let m = choose|m: int| 0 <= m < k + 1 && #[trigger] q.take(k + 1)[m] == y; assert(q[m] == y); assert(q.contains(y)); }
    assert forall|y: usize| b.contains(y) <==> (a.contains(y) || y == q[k]) by { assert(q.take(k + 1).contains(y) <==> q.take(k).contains(y) || y == q[k]); }
    assert(!a.contains(q[k]));
    let i = q[k] as int; let p = sp_included(s, q[k], c).proposer_index as int; let t = sp_base_reward(s, i, c); let h = sp_base_share(s, i, c); let d = sp_included(s, q[k], c).inclusion_delay as int;
    let r0 = incl_seq(s, a, c); let r1 = r0.update(p, (r0[p] + h) as u64); let r2 = r1.update(i, (r1[i] + (t - h) / d) as u64);
    let x = t - h;
    assert(x / d >= 0) by (nonlinear_arith) requires x >= 0, d > 0;
    assert forall|j: int| 0 <= j < n implies 0 <= sp_incl_sum(s, a, j, n, c) && sp_incl_sum(s, b, j, n, c) == sp_incl_sum(s, a, j, n, c) + sp_incl_term(s, i, j, c) && #[trigger] sp_incl_sum(s, b, j, n, c) <= u64::MAX by {
        assert forall|y: int| 0 <= y < n && u.contains(y as usize) implies #[trigger] sp_incl_term(s, y, j, c) >= 0 by { lemma_term(s, y, j, c); }
        lemma_incl_le(s, a, u, j, n, c); lemma_incl_le(s, b, u, j, n, c);
        lemma_incl_insert(s, a, b, q[k], j, n, c);
        assert(sp_incl_reward(s, j, c) <= u64::MAX);
    }
    assert(sp_incl_sum(s, b, p, n, c) <= u64::MAX); assert(sp_incl_sum(s, b, i, n, c) <= u64::MAX);
    let w = incl_seq(s, b, c);
    assert forall|j: int| 0 <= j < n implies w[j] == r2[j] by { assert(sp_incl_sum(s, b, j, n, c) <= u64::MAX); }
    assert(w =~= r2);
}
@@fn get_inclusion_delay_deltas forks=phase0
requires att_pre(state@, *context), incl_fit(state@, *context)
ensures r is Ok, r matches Ok(x) ==> x.0@ == Seq::new(state@.validators.len(), |i: int| sp_incl_reward(state@, i, *context) as u64) && x.1@ == Seq::new(state@.validators.len(), |i: int| 0u64)
@ start
let ghost sq = sp_source_atts(state@, sp_prev(state@, *context), *context);
proof { lemma_prev_atts(state@, *context); }
assert(forall|v: Vec<&PendingAttestation>| v@.len() == sq.len() && (forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] v@[i]) == sq[i]) ==> #[trigger] attrefs(&v) =~= sq);
@ before 0
proof {
    assert(__s0@.take(0).to_set() =~= Set::<usize>::empty());
    assert forall|j: int| 0 <= j < state@.validators.len() implies #[trigger] sp_incl_sum(state@, __s0@.take(0).to_set(), j, state@.validators.len() as int, *context) == 0 by { lemma_incl_empty(state@, __s0@.take(0).to_set(), j, state@.validators.len() as int, *context); }
    assert(rewards@ =~= incl_seq(state@, __s0@.take(0).to_set(), *context));
}
@ loop 0
invariant att_pre(state@, *context), incl_fit(state@, *context), forall|x: usize| #[trigger] __s0@.contains(x) <==> sp_source_voters(state@, *context).contains(x), __s0@.no_duplicates(),
    matching_source_attestations@ == sq, sq == sp_source_atts(state@, sp_prev(state@, *context), *context), atts_recorded(state@, sq, *context), validator_count == state@.validators.len(),
    rewards@ == incl_seq(state@, __s0@.take(__i0 as int).to_set(), *context),
@ loopstart 0
proof { assert(__s0@.contains(__s0@[__i0 as int])); lemma_included(state@, __s0@[__i0 as int], *context); }
@ before 1
proof { assert(attrefs(&attestations) =~= Seq::empty()); }
@ loop 1
invariant attrefs(&attestations) == sp_taking_part(state@, sq, i, __i1 as int, *context), matching_source_attestations@ == sq, atts_recorded(state@, sq, *context),
@ loopstart 1
let ghost q0 = attrefs(&attestations);
proof { assert(att_recorded(state@, sq[__i1 as int], *context)); }
@ loopend 1
proof { assert(attrefs(&attestations) =~= sp_taking_part(state@, sq, i, __i1 as int, *context)); }
@ loop 2
invariant attrefs(&attestations) == sp_taking_part(state@, sq, i, sq.len() as int, *context), __i2 == 0 ==> __acc2 is None, __i2 > 0 ==> __acc2 is Some, __acc2 matches Some(x) ==> **x == attrefs(&attestations)[sp_earliest(attrefs(&attestations), __i2 as int)],
@ loopstart 2
proof { if __i2 > 0 { lemma_earliest(attrefs(&attestations), __i2 as int); } assert(attrefs(&attestations)[__i2 as int] == *attestations@[__i2 as int]); }
@ let attestation 0
let ghost r0 = rewards@;
proof {
    assert(isqrt(sp_total_active_balance(state@, *context)) > 0) by { lemma_isqrt_pos(state@, *context); axiom_isqrt(sp_total_active_balance(state@, *context)); }
    lemma_incl_step(state@, __s0@, __c0 as int, *context);
    assert(**attestation == sp_included(state@, i, *context));
}
@ after 0
proof {
    let n = state@.validators.len() as int;
    assert(__s0@.take(__s0@.len() as int) == __s0@);
    assert forall|j: int| 0 <= j < n implies sp_incl_sum(state@, __s0@.to_set(), j, n, *context) == sp_incl_reward(state@, j, *context) by {
        assert forall|y: usize| __s0@.to_set().contains(y) <==> sp_source_voters(state@, *context).contains(y) by { assert(__s0@.contains(y) <==> sp_source_voters(state@, *context).contains(y)); }
        lemma_incl_ext(state@, __s0@.to_set(), sp_source_voters(state@, *context), j, n, *context);
    }
    assert(rewards@ =~= Seq::new(state@.validators.len(), |i: int| sp_incl_reward(state@, i, *context) as u64));
}
@@fn get_attestation_deltas forks=phase0
requires att_pre(state@, *context), deltas_fit(state@, *context)
ensures r is Ok, r matches Ok(x) ==> x.0@ == Seq::new(state@.validators.len(), |i: int| sp_att_reward(state@, i, *context) as u64) && x.1@ == Seq::new(state@.validators.len(), |i: int| sp_att_penalty(state@, i, *context) as u64)
@ start
let ghost s = state@; let ghost c = *context;
proof {
    assert(isqrt(sp_total_active_balance(s, c)) > 0) by { lemma_isqrt_pos(s, c); axiom_isqrt(sp_total_active_balance(s, c)); }
    assert forall|i: int| 0 <= i < s.validators.len() implies #[trigger] part_nonneg(s, i, c) by { lemma_parts(s, i, c); }
}
@ loop 0
invariant state@ == s, s.validators.len() == validator_count, rewards@ == Seq::new(s.validators.len(), |i: int| if i < __i0 { sp_att_reward(s, i, c) as u64 } else { 0u64 }), deltas_fit(s, c),
    forall|i: int| 0 <= i < s.validators.len() ==> #[trigger] part_nonneg(s, i, c),
@ loopstart 0
proof { assert(part_nonneg(s, __i0 as int, c)); assert(sp_att_reward(s, __i0 as int, c) <= u64::MAX); }
@ loopend 0
proof { assert(rewards@ =~= Seq::new(s.validators.len(), |i: int| if i < __i0 { sp_att_reward(s, i, c) as u64 } else { 0u64 })); }
@ loop 1
invariant state@ == s, s.validators.len() == validator_count, penalties@ == Seq::new(s.validators.len(), |i: int| if i < __i1 { sp_att_penalty(s, i, c) as u64 } else { 0u64 }), deltas_fit(s, c),
    forall|i: int| 0 <= i < s.validators.len() ==> #[trigger] part_nonneg(s, i, c),
@ loopstart 1
proof { assert(part_nonneg(s, __i1 as int, c)); }
@ loopend 1
proof { assert(penalties@ =~= Seq::new(s.validators.len(), |i: int| if i < __i1 { sp_att_penalty(s, i, c) as u64 } else { 0u64 })); }
@ tail
proof {
    assert(rewards@ =~= Seq::new(s.validators.len(), |i: int| sp_att_reward(s, i, c) as u64));
    assert(penalties@ =~= Seq::new(s.validators.len(), |i: int| sp_att_penalty(s, i, c) as u64));
}
@@vspec forks=phase0
pub open spec fn part_nonneg(s: StateV, i: int, c: Context) -> bool {
    &&& 0 <= sp_comp_reward(s, sp_source_voters(s, c), i, c) && 0 <= sp_comp_reward(s, sp_target_voters(s, c), i, c) && 0 <= sp_comp_reward(s, sp_head_voters(s, c), i, c) && 0 <= sp_incl_reward(s, i, c)
    &&& 0 <= sp_comp_penalty(s, sp_source_voters(s, c), i, c) <= 0x4_0000_0000_0000 && 0 <= sp_comp_penalty(s, sp_target_voters(s, c), i, c) <= 0x4_0000_0000_0000
    &&& 0 <= sp_comp_penalty(s, sp_head_voters(s, c), i, c) <= 0x4_0000_0000_0000
    &&& 0 <= sp_inact_penalty(s, i, c) <= u64::MAX - 0xc_0000_0000_0000
}
pub proof fn lemma_comp(s: StateV, u: Set<usize>, i: int, c: Context)
    requires att_pre(s, c), 0 <= i < s.validators.len(), isqrt(sp_total_active_balance(s, c)) > 0
    ensures 0 <= sp_comp_reward(s, u, i, c), 0 <= sp_comp_penalty(s, u, i, c) <= 0x4_0000_0000_0000
{
    lemma_base(s, i, c); lemma_total_ge(s, c); lemma_set_bal_le(s.validators, u, s.validators.len() as int);
    let b = sp_base_reward(s, i, c); let t = sp_total_balance(s, u, c); let k = c.effective_balance_increment as int; let m = sp_total_active_balance(s, c) / k; let x = sp_comp_product(s, u, i, c);
    assert(t / k >= 0) by (nonlinear_arith) requires t >= 0, k > 0;
    let y = t / k;
    assert(b * y >= 0) by (nonlinear_arith) requires b >= 0, y >= 0;
    assert(x / m >= 0) by (nonlinear_arith) requires x >= 0, m >= 1;
}
pub proof fn lemma_parts(s: StateV, i: int, c: Context)
    requires att_pre(s, c), deltas_fit(s, c), 0 <= i < s.validators.len(), isqrt(sp_total_active_balance(s, c)) > 0
    ensures part_nonneg(s, i, c)
{
    lemma_comp(s, sp_source_voters(s, c), i, c); lemma_comp(s, sp_target_voters(s, c), i, c); lemma_comp(s, sp_head_voters(s, c), i, c); lemma_base(s, i, c);
    let n = s.validators.len() as int; let u = sp_source_voters(s, c);
    assert forall|y: int| 0 <= y < n && u.contains(y as usize) implies #[trigger] sp_incl_term(s, y, i, c) >= 0 by { lemma_term(s, y, i, c); }
    lemma_incl_le(s, u, u, i, n, c);
    assert(inact_one(s, i, c));
    let x = (s.validators[i].effective_balance as int) * sp_finality_delay(s, c); let q = c.inactivity_penalty_quotient as int;
    let e = s.validators[i].effective_balance as int; let d = sp_finality_delay(s, c);
    assert(e * d >= 0) by (nonlinear_arith) requires e >= 0, d >= 0;
    assert(0 <= x / q <= x / 2) by (nonlinear_arith) requires x >= 0, q >= 2;
}
@@fn process_rewards_and_penalties forks=phase0
requires sp_cur(old(state)@, *context) == 0 || (att_pre(old(state)@, *context) && rewards_fit(old(state)@, *context)), wf_ctx(*context), wf_len(old(state)@)
ensures r is Ok, final(state)@ == sp_rewards(old(state)@, *context)
@ start
let ghost s = state@; let ghost c = *context;
let ghost rw = Seq::new(s.validators.len(), |i: int| sp_att_reward(s, i, c) as u64); let ghost pn = Seq::new(s.validators.len(), |i: int| sp_att_penalty(s, i, c) as u64);
@ before 0
proof {
    assert(state@.balances =~= applied_to(s, rw, pn, 0).balances);
    assert forall|i: int| 0 <= i < s.validators.len() implies (#[trigger] s.balances[i]) + rw[i] <= u64::MAX by {
        assert(isqrt(sp_total_active_balance(s, c)) > 0) by { lemma_isqrt_pos(s, c); axiom_isqrt(sp_total_active_balance(s, c)); }
        lemma_parts(s, i, c);
    }
}
@ loop 0
invariant s.validators.len() == s.balances.len(), rewards@ == rw, penalties@ == pn, rw.len() == s.validators.len(), pn.len() == s.validators.len(), apply_fit(s, rw), __n0 == s.validators.len(),
    state@ == applied_to(s, rw, pn, __i0 as int),
@ loopend 0
proof { assert(state@.balances =~= applied_to(s, rw, pn, __i0 as int).balances); }
@ after 0
proof { assert(state@.balances =~= sp_apply(s, rw, pn).balances); }

@@spec forks=altair+
pub open spec fn sp_inactivity_score(s: StateV, i: int, c: Context) -> int {
    let x = s.inactivity_scores[i] as int;
    if sp_elig(s, c, i) {
        let y = if sp_participating(s, 1, sp_prev(s, c), c).contains(i as usize) { vsubsat(x, 1) } else { x + c.inactivity_score_bias as int };
        if sp_leaking(s, c) { y } else { vsubsat(y, c.inactivity_score_recovery_rate as int) }
    } else { x }
}
pub open spec fn sp_inactivity(s: StateV, c: Context) -> StateV {
    if sp_cur(s, c) == 0 { s } else { StateV { inactivity_scores: Seq::new(s.validators.len() as nat, |i: int| sp_inactivity_score(s, i, c) as u64), ..s } }
}
@@vspec forks=altair+
pub open spec fn scores_fit(s: StateV, c: Context) -> bool { forall|i: int| 0 <= i < s.inactivity_scores.len() ==> (#[trigger] s.inactivity_scores[i]) + c.inactivity_score_bias <= u64::MAX }
pub open spec fn scored(s: StateV, done: Seq<usize>, c: Context) -> StateV {
    StateV { inactivity_scores: Seq::new(s.validators.len(), |i: int| if done.contains(i as usize) { sp_inactivity_score(s, i, c) as u64 } else { s.inactivity_scores[i] }), ..s }
}
@@fn process_inactivity_updates forks=altair+
requires epoch_pre(old(state)@, *context), wf_part(old(state)@), sp_cur(old(state)@, *context) > 0 ==> delay_ok(old(state)@, *context) && scores_fit(old(state)@, *context)
ensures r is Ok, final(state)@ == sp_inactivity(old(state)@, *context)
@ start
let ghost s = state@;
proof { lemma_part(s, 1, sp_prev(s, *context), *context, s.validators.len() as int); }
@ loop 0
invariant __acc0@ == __s0@.take(__i0 as int),
@ loopend 0
proof { assert(__acc0@ =~= __s0@.take(__i0 as int)); }
@ after 0
proof { assert(__acc0@ =~= __s0@); }
@ before 1
proof { lemma_eligible(s.validators, sp_prev(s, *context), s.validators.len() as int); assert(state@.inactivity_scores =~= scored(s, eligible_validator_indices@.take(0), *context).inactivity_scores); }
@ loop 1
invariant eligible_validator_indices@ == sp_eligible(s.validators, sp_prev(s, *context), s.validators.len() as int), state@ == scored(s, eligible_validator_indices@.take(__i1 as int), *context),
@ loopstart 1
proof { lemma_reach(eligible_validator_indices@, __i1 as int); lemma_eligible(s.validators, sp_prev(s, *context), s.validators.len() as int); }
@ loopend 1
proof { assert(state@.inactivity_scores =~= scored(s, eligible_validator_indices@.take(__i1 as int), *context).inactivity_scores); }
@ after 1
proof { lemma_taken(s.validators, sp_prev(s, *context), s.validators.len() as int); assert(state@.inactivity_scores =~= sp_inactivity(s, *context).inactivity_scores); }
@@rust
/// a voting state whose finalized checkpoint is not ahead of the previous epoch
pub fn gen_rewarding(g: &mut G, c: &RealCtx) -> RealBeaconState {
    let mut st = gen_voting(g, c);
    if st.slot == 0 { st.slot = 1; }
    let e = epoch_of(&st, c);
    let prev = e.saturating_sub(1);
    st.finalized_checkpoint.epoch = match g.below(3) { 0 => prev, 1 => prev.saturating_sub(g.below(7)), _ => prev.saturating_sub(3 + g.below(3)) };
    for i in 0..st.validators.len() { if g.chance(20) { st.validators[i].slashed = true; st.validators[i].exit_epoch = e.saturating_sub(g.below(4)); st.validators[i].withdrawable_epoch = (e + g.below(4)).saturating_sub(1); } }
    clear_recorded(&mut st); gen_recorded(g, &mut st, c); st
}
@@rust forks=altair+
pub fn clear_recorded(_st: &mut RealBeaconState) {}
pub fn small_scores(g: &mut G, st: &mut RealBeaconState) { for i in 0..st.validators.len() { st.inactivity_scores[i] = match g.below(4) { 0 => g.below(3), 1 => g.below(20), 2 => g.below(1 << 20), _ => 0 }; } }
@@rust forks=phase0
pub fn clear_recorded(st: &mut RealBeaconState) { while !st.previous_epoch_attestations.is_empty() { st.previous_epoch_attestations.pop(); } while !st.current_epoch_attestations.is_empty() { st.current_epoch_attestations.pop(); } }
pub fn small_scores(_g: &mut G, st: &mut RealBeaconState) {
    for a in st.previous_epoch_attestations.iter_mut() { if a.inclusion_delay == 0 { a.inclusion_delay = 1; } }
}
@@test eligible props=C11 n=100
let c = gen_ctx(g); let st = gen_rewarding(g, &c); let s = st.cv(); let cc = c.cv();
let r: Vec<usize> = sp::get_eligible_validator_indices(&st, &c).collect();
eqv!(r.cv(), sp_eligible(s.validators, sp_prev(s, cc), s.validators.len() as int), "get_eligible_validator_indices at epoch {}", sp_cur(s, cc));
eqv!(sp::get_finality_delay(&st, &c) as int, sp_finality_delay(s, cc), "get_finality_delay"); eqv!(sp::is_in_inactivity_leak(&st, &c), sp_leaking(s, cc), "is_in_inactivity_leak with delay {}", sp_finality_delay(s, cc));
let i = g.idx(st.validators.len());
eqv!(sp::get_base_reward(&st, i, &c).ok().map(|x| x as int), Some(sp_base_reward(s, i as int, cc)), "get_base_reward({i})");
@@test rewards props=C11 n=25
let mut c = gen_ctx(g); c.shuffle_round_count = 3; let mut st = gen_rewarding(g, &c); small_scores(g, &mut st); let s = st.cv(); let cc = c.cv();
let r = sp::process_rewards_and_penalties(&mut st, &c);
chk!(r.is_ok(), "process_rewards_and_penalties failed at epoch {}: {r:?}", sp_cur(s, cc));
seq_st!(st, sp_rewards(s, cc), "process_rewards_and_penalties at epoch {}, finality delay {}", sp_cur(s, cc), sp_finality_delay(s, cc));
@@test inactivity props=C11 n=60 forks=altair+
let c = gen_ctx(g); let mut st = gen_rewarding(g, &c); small_scores(g, &mut st); let s = st.cv(); let cc = c.cv();
let r = sp::process_inactivity_updates(&mut st, &c);
chk!(r.is_ok(), "process_inactivity_updates failed at epoch {}", sp_cur(s, cc));
seq_st!(st, sp_inactivity(s, cc), "process_inactivity_updates at epoch {}, finality delay {}", sp_cur(s, cc), sp_finality_delay(s, cc));
@@test flags props=C11 n=40 forks=altair+
let c = gen_ctx(g); let mut st = gen_rewarding(g, &c); small_scores(g, &mut st); let s = st.cv(); let cc = c.cv(); let f = g.idx(3);
let r = sp::get_flag_index_deltas(&st, f, &c).unwrap();
eqv!(r.0.cv(), sp_flag_rewards(s, f as int, cc), "rewards of get_flag_index_deltas({f})"); eqv!(r.1.cv(), sp_flag_penalties(s, f as int, cc), "penalties of get_flag_index_deltas({f})");
let r = sp::get_inactivity_penalty_deltas(&st, &c).unwrap();
eqv!(r.1.cv(), sp_inact_penalties(s, cc), "get_inactivity_penalty_deltas");
@@test components props=C11 n=20 forks=phase0
let mut c = gen_ctx(g); c.shuffle_round_count = 3; let mut st = gen_rewarding(g, &c); small_scores(g, &mut st); let s = st.cv(); let cc = c.cv();
if sp_cur(s, cc) == 0 { return Ok(()); }
for (k, r, u) in [(0, sp::get_source_deltas(&st, &c).unwrap(), sp_source_voters(s, cc)), (1, sp::get_target_deltas(&st, &c).unwrap(), sp_target_voters(s, cc)), (2, sp::get_head_deltas(&st, &c).unwrap(), sp_head_voters(s, cc))] {
    eqv!(r.0.cv(), sp_comp_rewards(s, u, cc), "rewards of component {k}"); eqv!(r.1.cv(), sp_comp_penalties(s, u, cc), "penalties of component {k}");
}
let r = sp::get_inclusion_delay_deltas(&st, &c).unwrap();
for j in 0..st.validators.len() { eqv!(r.0[j] as int, sp_incl_reward(s, j as int, cc), "get_inclusion_delay_deltas reward of {j}"); }
let r = sp::get_inactivity_penalty_deltas(&st, &c).unwrap();
for j in 0..st.validators.len() { eqv!(r.1[j] as int, sp_inact_penalty(s, j as int, cc), "get_inactivity_penalty_deltas penalty of {j}"); }
