@@spec
// ---- proposer slashing ----
pub open spec fn sp_header_signed(s: StateV, h: SignedBeaconBlockHeader, i: int, c: Context) -> bool {
    sig_valid(s.validators[i].public_key, sp_signing_root(htr(h.message), sp_state_domain(s, DomainType::BeaconProposer, sp_epoch_at(h.message.slot as int, c))), h.signature)
}
pub open spec fn sp_proposer_slashing_ok(s: StateV, p: ProposerSlashing, c: Context) -> bool {
    let a = p.signed_header_1.message; let b = p.signed_header_2.message; let i = a.proposer_index as int;
    a.slot == b.slot && a.proposer_index == b.proposer_index && a != b && i < s.validators.len() as int && sp_is_slashable(s.validators[i], sp_cur(s, c))
    && sp_header_signed(s, p.signed_header_1, i, c) && sp_header_signed(s, p.signed_header_2, i, c)
}
pub open spec fn sp_proposer_slashing(s: StateV, p: ProposerSlashing, c: Context) -> StateV { sp_slash(s, p.signed_header_1.message.proposer_index as int, None, c) }
// ---- attester slashing ----
// the indices of the first attestation that the second also has
pub open spec fn sp_common(a: Seq<usize>, b: Seq<usize>, n: int) -> Seq<usize>
    decreases n
{
    if n <= 0 { Seq::empty() } else { let r = sp_common(a, b, n - 1); if b.contains(a[n - 1]) { r.push(a[n - 1]) } else { r } }
}
pub open spec fn sp_any_slashable(s: StateV, q: Seq<usize>, n: int, c: Context) -> bool
    decreases n
{
    if n <= 0 { false } else { sp_any_slashable(s, q, n - 1, c) || sp_is_slashable(s.validators[q[n - 1] as int], sp_cur(s, c)) }
}
// the slashable ones among the first n are slashed, in ascending order of index
pub open spec fn sp_slash_all(s: StateV, q: Seq<usize>, n: int, c: Context) -> StateV
    decreases n
{
    if n <= 0 { s } else {
        let r = sp_slash_all(s, q, n - 1, c);
        if sp_is_slashable(r.validators[q[n - 1] as int], sp_cur(s, c)) { sp_slash(r, q[n - 1] as int, None, c) } else { r }
    }
}
pub open spec fn sp_offenders(x: AttesterSlashing) -> Seq<usize> { sp_common(x.attestation_1.attesting_indices@, x.attestation_2.attesting_indices@, x.attestation_1.attesting_indices@.len() as int) }
pub open spec fn sp_attester_slashing_ok(s: StateV, x: AttesterSlashing, c: Context) -> bool {
    (sp_double_vote(x.attestation_1.data, x.attestation_2.data) || sp_surround_vote(x.attestation_1.data, x.attestation_2.data))
    && sp_indexed_valid(s, x.attestation_1, c) && sp_indexed_valid(s, x.attestation_2, c) && sp_any_slashable(s, sp_offenders(x), sp_offenders(x).len() as int, c)
}
pub open spec fn sp_attester_slashing(s: StateV, x: AttesterSlashing, c: Context) -> StateV { sp_slash_all(s, sp_offenders(x), sp_offenders(x).len() as int, c) }
@@vspec
pub open spec fn slash_k() -> int { 0x300_0000 }
pub proof fn lemma_common(a: Seq<usize>, b: Seq<usize>, n: int)
    requires 0 <= n <= a.len(), sp_increasing(a, a.len() as int)
    ensures sp_common(a, b, n).len() <= n, forall|x: usize| #[trigger] sp_common(a, b, n).contains(x) <==> a.take(n).contains(x) && b.contains(x),
        forall|i: int, j: int| 0 <= i < j < sp_common(a, b, n).len() ==> sp_common(a, b, n)[i] < sp_common(a, b, n)[j],
        n > 0 && sp_common(a, b, n).len() > 0 ==> sp_common(a, b, n).last() <= a[n - 1],
    decreases n
{
    lemma_increasing_all(a, a.len() as int);
    if n > 0 {
        lemma_common(a, b, n - 1);
        let r = sp_common(a, b, n - 1); let q = sp_common(a, b, n);
        assert forall|x: usize| #[trigger] q.contains(x) <==> a.take(n).contains(x) && b.contains(x) by {
            assert(r.contains(x) <==> a.take(n - 1).contains(x) && b.contains(x)); lemma_take_step(a, n - 1); assert(a.take(n) == a.take((n - 1) + 1));
            assert(a.take(n).contains(x) <==> a.take(n - 1).contains(x) || x == a[n - 1]);
            if q.contains(x) { let i = choose|i: int| 0 <= i < q.len() && q[i] == x; if i < r.len() { assert(r[i] == x); } }
            if r.contains(x) { let i = choose|i: int| 0 <= i < r.len() && r[i] == x; assert(q[i] == x); }
            if x == a[n - 1] && b.contains(x) { assert(q[r.len() as int] == x); }
        }
        if r.len() > 0 { assert(r.contains(r.last())); let t = a.take(n - 1); let i = choose|i: int| 0 <= i < t.len() && t[i] == r.last(); assert(a[i] < a[n - 1]); }
    } else { assert(a.take(0) =~= Seq::empty()); }
}
pub proof fn lemma_take_step(q: Seq<usize>, k: int)
    requires 0 <= k < q.len()
    ensures forall|x: usize| #[trigger] q.take(k + 1).contains(x) <==> q.take(k).contains(x) || x == q[k]
{
    assert(q.take(k + 1)[k] == q[k]);
    assert forall|x: usize| #[trigger] q.take(k + 1).contains(x) <==> q.take(k).contains(x) || x == q[k] by {
        let t = q.take(k); let u = q.take(k + 1);
        if t.contains(x) { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; assert(u[i] == x); }
        if u.contains(x) { let i = choose|i: int| 0 <= i < u.len() && u[i] == x; if i < k { assert(t[i] == x); } }
    }
}
pub proof fn lemma_slash_frame(s: StateV, i: int, c: Context)
    requires wf_len(s), 0 <= i < s.validators.len()
    ensures sp_slash(s, i, None, c).slot == s.slot, sp_slash(s, i, None, c).validators.len() == s.validators.len()
{}
@@fn process_proposer_slashing
requires wf_ops(old(state)@, *context, kmax() - 8), has_active(old(state)@, *context)
ensures r is Ok <==> sp_proposer_slashing_ok(old(state)@, *proposer_slashing, *context), r is Ok ==> final(state)@ == sp_proposer_slashing(old(state)@, *proposer_slashing, *context)
@ start
proof { lemma_wf_weak(state@, *context, kmax() - 8); lemma_epoch_bound(state@.slot as int, *context); }
@ loop 0
invariant __s0@ == seq![&proposer_slashing.signed_header_1, &proposer_slashing.signed_header_2], __i0 >= 1 ==> sp_header_signed(state@, proposer_slashing.signed_header_1, proposer_index as int, *context),
    __i0 >= 2 ==> sp_header_signed(state@, proposer_slashing.signed_header_2, proposer_index as int, *context), __s0@.len() == 2,
@@fn process_attester_slashing
requires wf_ops(old(state)@, *context, slash_k()), has_active(old(state)@, *context), attester_slashing.attestation_1.attesting_indices@.len() <= 0x10_0000
ensures r is Ok <==> sp_attester_slashing_ok(old(state)@, *attester_slashing, *context), r is Ok ==> final(state)@ == sp_attester_slashing(old(state)@, *attester_slashing, *context)
@ start
let ghost s0 = state@; let ghost a1 = attester_slashing.attestation_1.attesting_indices@; let ghost a2 = attester_slashing.attestation_2.attesting_indices@;
proof { lemma_wf_weak(s0, *context, slash_k()); lemma_epoch_bound(s0.slot as int, *context); }
@ loop 0
invariant __acc0@ =~= a1.take(__i0 as int).to_set(),
@ loopend 0
proof { lemma_take_step(a1, __c0 as int); }
@ loop 1
invariant __acc1@ =~= a2.take(__i1 as int).to_set(),
@ loopend 1
proof { lemma_take_step(a2, __c1 as int); }
@ let indices 0
let ghost q0 = indices@;
@ let current_epoch 0
proof {
    assert(a1.take(a1.len() as int) =~= a1); assert(a2.take(a2.len() as int) =~= a2);
    lemma_common(a1, a2, a1.len() as int);
    let w = sp_offenders(*attester_slashing); let z = q0.to_set();
    lemma_sorted_from(q0, indices@, z);
    assert forall|x: usize| #[trigger] q0.contains(x) <==> w.contains(x) by { assert(a1.to_set().contains(x) <==> a1.contains(x)); assert(a2.to_set().contains(x) <==> a2.contains(x)); }
    assert forall|i: int| 0 <= i < w.len() implies z.contains(#[trigger] w[i]) by { assert(w.contains(w[i])); assert(q0.contains(w[i])); }
    assert(is_sorted_of(w, z)); lemma_sorted_is(w, z); assert(indices@ == w);
    lemma_known(a1, s0.validators.len() as int, a1.len() as int);
    assert forall|i: int| 0 <= i < indices@.len() implies (#[trigger] indices@[i]) < s0.validators.len() by {
        let x = indices@[i]; assert(w.contains(x)); assert(a1.contains(x)); let j = choose|j: int| 0 <= j < a1.len() && a1[j] == x; assert(a1[j] < s0.validators.len());
    }
}
@ loop 2
invariant indices@ == sp_offenders(*attester_slashing), state@ == sp_slash_all(s0, indices@, __i2 as int, *context), wf_ops(state@, *context, slash_k() + 3 * __i2), has_active(state@, *context),
    state@.slot == s0.slot, state@.validators.len() == s0.validators.len(), indices@.len() <= 0x10_0000, slashed_any == sp_any_slashable(s0, indices@, __i2 as int, *context), !slashed_any ==> state@ == s0,
    forall|i: int| 0 <= i < indices@.len() ==> (#[trigger] indices@[i]) < s0.validators.len(), current_epoch as int == sp_cur(s0, *context),
    wf_ctx(*context), sp_indexed_valid(s0, attester_slashing.attestation_1, *context), sp_indexed_valid(s0, attester_slashing.attestation_2, *context),
    sp_double_vote(attester_slashing.attestation_1.data, attester_slashing.attestation_2.data) || sp_surround_vote(attester_slashing.attestation_1.data, attester_slashing.attestation_2.data),
@ loopstart 2
let ghost s1 = state@;
proof { lemma_wf_up(s1, *context, slash_k() + 3 * __i2, kmax() - 8); lemma_wf_weak(s1, *context, slash_k() + 3 * __i2); }
@ loopend 2
proof {
    let i = indices@[__c2 as int] as int;
    if sp_is_slashable(s1.validators[i], sp_cur(s1, *context)) { lemma_slash_wf(s1, i, None, *context, slash_k() + 3 * __c2); lemma_slash_frame(s1, i, *context); }
    else { lemma_wf_up(s1, *context, slash_k() + 3 * __c2, slash_k() + 3 * __i2); }
}
@@spec
// ---- attestations ----
// the slot, the target epoch and the inclusion delay fit the state
pub open spec fn sp_att_time_ok(s: StateV, d: AttestationData, c: Context) -> bool {
    (d.target.epoch as int == sp_prev(s, c) || d.target.epoch as int == sp_cur(s, c)) && d.target.epoch as int == sp_epoch_at(d.slot as int, c)
    && (d.slot as int) + (c.min_attestation_inclusion_delay as int) <= s.slot as int && sp_att_recent(s, d, c)
}
pub open spec fn sp_att_source_ok(s: StateV, d: AttestationData, c: Context) -> bool {
    if d.target.epoch as int == sp_cur(s, c) { d.source == s.current_justified_checkpoint } else { d.source == s.previous_justified_checkpoint }
}
@@spec forks=..capella
pub open spec fn sp_att_recent(s: StateV, d: AttestationData, c: Context) -> bool { s.slot as int <= (d.slot as int) + (c.slots_per_epoch as int) }
@@spec forks=deneb,electra
pub open spec fn sp_att_recent(s: StateV, d: AttestationData, c: Context) -> bool { true }
@@spec forks=..deneb
pub open spec fn sp_att_shape_ok(s: StateV, a: Attestation, c: Context) -> bool {
    (a.data.index as int) < sp_committee_count(s, a.data.target.epoch as int, c) && sp_bits_ok(s, a.data, a.aggregation_bits@, c)
}
pub open spec fn sp_att_set(s: StateV, a: Attestation, c: Context) -> Set<usize> { sp_attesting(s, a.data, a.aggregation_bits@, c) }
@@spec forks=electra
// all the named committees exist and there is exactly one bit for each of their members
pub open spec fn sp_committees_known(s: StateV, idx: Seq<usize>, e: int, n: int, c: Context) -> bool
    decreases n
{
    if n <= 0 { true } else { sp_committees_known(s, idx, e, n - 1, c) && (idx[n - 1] as int) < sp_committee_count(s, e, c) }
}
pub open spec fn sp_att_shape_ok(s: StateV, a: Attestation, c: Context) -> bool {
    a.data.index == 0 && sp_committees_known(s, sp_att_committees(a), a.data.target.epoch as int, sp_att_committees(a).len() as int, c) && a.aggregation_bits@.len() as int == sp_att_total(s, a, c)
}
pub open spec fn sp_att_set(s: StateV, a: Attestation, c: Context) -> Set<usize> { sp_attesting(s, a, c) }
@@spec
pub open spec fn sp_att_signed(s: StateV, a: Attestation, c: Context) -> bool {
    list_fits::<usize>(sp_att_set(s, a, c).len() as int) && sp_signed_by(s, sorted_set(sp_att_set(s, a, c)), a.data, a.signature, c)
}
@@spec forks=phase0
pub open spec fn sp_attestation_ok(s: StateV, a: Attestation, c: Context) -> bool {
    sp_att_time_ok(s, a.data, c) && sp_att_shape_ok(s, a, c) && sp_att_signed(s, a, c) && sp_att_source_ok(s, a.data, c) && sp_active_indices(s, sp_cur(s, c)).len() > 0
}
// the attestation is recorded, with the inclusion delay and the current proposer, in the list of its target epoch
pub open spec fn sp_attestation(s: StateV, a: Attestation, c: Context) -> StateV {
    let p = PendingAttestation { aggregation_bits: a.aggregation_bits, data: a.data, inclusion_delay: ((s.slot as int) - (a.data.slot as int)) as u64, proposer_index: sp_proposer(s, c) };
    if a.data.target.epoch as int == sp_cur(s, c) { StateV { current_epoch_attestations: s.current_epoch_attestations.push(p), ..s } }
    else { StateV { previous_epoch_attestations: s.previous_epoch_attestations.push(p), ..s } }
}
@@spec forks=altair+
pub open spec fn sp_att_target_ok(s: StateV, d: AttestationData, c: Context) -> bool { d.target.root == sp_block_root_at(s, (d.target.epoch as int) * (c.slots_per_epoch as int)) }
pub open spec fn sp_att_head_ok(s: StateV, d: AttestationData, c: Context) -> bool { sp_att_target_ok(s, d, c) && d.beacon_block_root == sp_block_root_at(s, d.slot as int) }
pub open spec fn sp_att_roots_known(s: StateV, d: AttestationData, c: Context) -> bool {
    sp_in_window(s, (d.target.epoch as int) * (c.slots_per_epoch as int)) && (!sp_att_target_ok(s, d, c) || sp_in_window(s, d.slot as int))
}
// flag k (source, target, head) earned by an attestation included after `delay` slots
pub open spec fn sp_att_flag(s: StateV, d: AttestationData, delay: int, k: int, c: Context) -> bool {
    if k == 0 { delay <= isqrt(c.slots_per_epoch as int) }
    else if k == 1 { sp_att_target_ok(s, d, c) && sp_target_delay_ok(delay, c) }
    else { sp_att_head_ok(s, d, c) && delay == c.min_attestation_inclusion_delay as int }
}
pub open spec fn sp_flag_list(s: StateV, d: AttestationData, delay: int, n: int, c: Context) -> Seq<usize>
    decreases n
{
    if n <= 0 { Seq::empty() } else { let r = sp_flag_list(s, d, delay, n - 1, c); if sp_att_flag(s, d, delay, n - 1, c) { r.push((n - 1) as usize) } else { r } }
}
pub open spec fn sp_attestation_ok(s: StateV, a: Attestation, c: Context) -> bool {
    sp_att_time_ok(s, a.data, c) && sp_att_shape_ok(s, a, c) && sp_att_signed(s, a, c) && sp_att_source_ok(s, a.data, c) && sp_att_roots_known(s, a.data, c)
    && sp_active_indices(s, sp_cur(s, c)).len() > 0
}
// the flags x after those of the first n flag kinds that the list f has are added, and the weight they add
pub open spec fn sp_flags_added(x: u8, f: Seq<usize>, n: int) -> u8
    decreases n
{
    if n <= 0 { x } else { let r = sp_flags_added(x, f, n - 1); if f.contains((n - 1) as usize) { sp_add_flag(r, n - 1) } else { r } }
}
pub open spec fn sp_weight_added(x: u8, f: Seq<usize>, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { sp_weight_added(x, f, n - 1) + (if f.contains((n - 1) as usize) && !sp_has_flag(x, n - 1) { sp_flag_weight(n - 1) } else { 0 }) }
}
// what the newly set flags of the attesters among the first n validators are worth, before division
pub open spec fn sp_att_gain(s: StateV, p: Seq<u8>, a: Set<usize>, f: Seq<usize>, n: int, c: Context) -> int
    decreases n
{
    if n <= 0 { 0 } else { sp_att_gain(s, p, a, f, n - 1, c) + (if a.contains((n - 1) as usize) { sp_base_reward(s, n - 1, c) * sp_weight_added(p[n - 1], f, 3) } else { 0 }) }
}
pub open spec fn sp_att_part(p: Seq<u8>, a: Set<usize>, f: Seq<usize>) -> Seq<u8> { Seq::new(p.len() as nat, |i: int| if a.contains(i as usize) { sp_flags_added(p[i], f, 3) } else { p[i] }) }
pub open spec fn sp_attestation(s: StateV, a: Attestation, c: Context) -> StateV {
    let f = sp_flag_list(s, a.data, (s.slot as int) - (a.data.slot as int), 3, c); let w = sp_att_set(s, a, c); let cur = a.data.target.epoch as int == sp_cur(s, c);
    let p = if cur { s.current_epoch_participation } else { s.previous_epoch_participation };
    let t = if cur { StateV { current_epoch_participation: sp_att_part(p, w, f), ..s } } else { StateV { previous_epoch_participation: sp_att_part(p, w, f), ..s } };
    sp_increase_balance(t, sp_proposer(s, c) as int, sp_att_gain(s, p, w, f, s.validators.len() as int, c) / 448)
}
@@spec forks=altair,bellatrix,capella
pub open spec fn sp_target_delay_ok(delay: int, c: Context) -> bool { delay <= c.slots_per_epoch as int }
@@spec forks=deneb,electra
pub open spec fn sp_target_delay_ok(delay: int, c: Context) -> bool { true }
@@vspec
pub open spec fn atn_pre(s: StateV, c: Context) -> bool { wf_ctx(c) && wf_len(s) && wf_eff(s.validators) && c.min_attestation_inclusion_delay <= 0x1_0000 && (kf_slot0() ==> s.slot > 0) }
pub proof fn lemma_att_slot(s: StateV, d: AttestationData, c: Context)
    requires wf_ctx(c), wf_len(s)
    ensures (d.target.epoch as int == sp_prev(s, c) || d.target.epoch as int == sp_cur(s, c)) ==> d.target.epoch as int <= sp_cur(s, c) && d.target.epoch as int * c.slots_per_epoch as int <= s.slot && d.target.epoch as int <= 0x100_0000_0000_0000int / (c.slots_per_epoch as int)
        && (d.target.epoch as int == sp_epoch_at(d.slot as int, c) ==> d.slot < s.slot + c.slots_per_epoch && slot_ok(d.slot as int)),
{
  if d.target.epoch as int == sp_prev(s, c) || d.target.epoch as int == sp_cur(s, c) {
    lemma_epoch_bound(s.slot as int, c);
    let e = d.target.epoch as int; let k = c.slots_per_epoch as int; let x = d.slot as int; let y = s.slot as int;
    assert(e * k <= y) by (nonlinear_arith) requires e <= y / k, k > 0, y >= 0;
    assert(e <= 0x100_0000_0000_0000int / k) by (nonlinear_arith) requires e * k <= y, y < 0x100_0000_0000_0000, k > 0;
    assert(e == x / k ==> x < y + k) by (nonlinear_arith) requires e * k <= y, k > 0, x >= 0;
  }
}
@@vspec forks=altair+
pub open spec fn sp_base_sum(s: StateV, n: int, c: Context) -> int
    decreases n
{
    if n <= 0 { 0 } else { sp_base_sum(s, n - 1, c) + sp_base_reward(s, n - 1, c) }
}
pub open spec fn att_fit(s: StateV, c: Context) -> bool {
    &&& wf_part(s) && sp_base_sum(s, s.validators.len() as int, c) * 54 <= u64::MAX
    &&& forall|i: int| 0 <= i < s.balances.len() ==> (#[trigger] s.balances[i]) < 0x4000_0000_0000_0000
}
@@fn get_attestation_participation_flag_indices forks=altair+
requires atn_pre(state@, *context), sp_att_time_ok(state@, *data, *context)
ensures r is Ok <==> sp_att_source_ok(state@, *data, *context) && sp_att_roots_known(state@, *data, *context), r matches Ok(v) ==> v@ == sp_flag_list(state@, *data, inclusion_delay as int, 3, *context)
@ start
proof { lemma_att_slot(state@, *data, *context); reveal_with_fuel(sp_flag_list, 4); }
@@fn process_attestation forks=phase0
requires atn_pre(old(state)@, *context), old(state)@.previous_epoch_attestations.len() < pow2_40(), old(state)@.current_epoch_attestations.len() < pow2_40()
ensures r is Ok <==> sp_attestation_ok(old(state)@, *attestation, *context), r is Ok ==> final(state)@ == sp_attestation(old(state)@, *attestation, *context)
@ start
let ghost s0 = state@;
proof { lemma_att_slot(s0, attestation.data, *context); }
@@vspec forks=altair+
pub proof fn lemma_flag_bits(x: u8)
    ensures sp_has_flag(sp_add_flag(x, 0), 1) == sp_has_flag(x, 1), sp_has_flag(sp_add_flag(x, 0), 2) == sp_has_flag(x, 2), sp_has_flag(sp_add_flag(x, 1), 2) == sp_has_flag(x, 2)
{
    reveal_with_fuel(ipow, 4);
    assert((x / 1u8) % 2 == 0 ==> x <= 254) by (bit_vector);
    assert((x / 2u8) % 2 == 0 ==> x <= 253) by (bit_vector);
    assert((x / 1u8) % 2 == 0 ==> ((x + 1u8) as u8 / 2u8) % 2 == (x / 2u8) % 2 && ((x + 1u8) as u8 / 4u8) % 2 == (x / 4u8) % 2) by (bit_vector);
    assert((x / 2u8) % 2 == 0 ==> ((x + 2u8) as u8 / 4u8) % 2 == (x / 4u8) % 2) by (bit_vector);
}
pub proof fn lemma_flags_step(x: u8, f: Seq<usize>, k: int)
    requires 0 <= k < 3
    ensures sp_has_flag(sp_flags_added(x, f, k), k) == sp_has_flag(x, k), 0 <= sp_weight_added(x, f, k) <= sp_weight_added(x, f, k + 1) <= 54,
        0 <= sp_weight_added(x, f, k) <= k * 26
{
    reveal_with_fuel(sp_flags_added, 4); reveal_with_fuel(sp_weight_added, 4);
    lemma_flag_bits(x); lemma_flag_bits(sp_flags_added(x, f, 1));
}
pub open spec fn att_gain_one(s: StateV, p: Seq<u8>, f: Seq<usize>, i: int, c: Context) -> int { sp_base_reward(s, i, c) * sp_weight_added(p[i], f, 3) }
pub proof fn lemma_gain_insert(s: StateV, p: Seq<u8>, a: Set<usize>, b: Set<usize>, x: usize, f: Seq<usize>, n: int, c: Context)
    requires !a.contains(x), b =~= a.insert(x), 0 <= n <= usize::MAX
    ensures sp_att_gain(s, p, b, f, n, c) == sp_att_gain(s, p, a, f, n, c) + (if x < n { att_gain_one(s, p, f, x as int, c) } else { 0 })
    decreases n
{
    if n > 0 { lemma_gain_insert(s, p, a, b, x, f, n - 1, c); }
}
pub proof fn lemma_gain_none(s: StateV, p: Seq<u8>, a: Set<usize>, f: Seq<usize>, n: int, c: Context)
    requires forall|x: usize| !a.contains(x)
    ensures sp_att_gain(s, p, a, f, n, c) == 0
    decreases n
{
    if n > 0 { lemma_gain_none(s, p, a, f, n - 1, c); }
}
pub proof fn lemma_base_nonneg(s: StateV, i: int, c: Context)
    requires wf_ctx(c), 0 <= i < s.validators.len() ensures 0 <= sp_base_reward(s, i, c)
{
    lemma_isqrt_pos(s, c); lemma_total_ge(s, c); axiom_isqrt(sp_total_active_balance(s, c)); let q = isqrt(sp_total_active_balance(s, c)); let a = c.effective_balance_increment as int; let b = c.base_reward_factor as int; let e = s.validators[i].effective_balance as int;
    assert(a * b >= 0) by (nonlinear_arith) requires a >= 0, b >= 0;
    assert(a * b / q >= 0) by (nonlinear_arith) requires a * b >= 0, q > 0;
    let d = a * b / q; assert(e / a >= 0) by (nonlinear_arith) requires e >= 0, a > 0; let h = e / a;
    assert(h * d >= 0) by (nonlinear_arith) requires h >= 0, d >= 0;
}
pub proof fn lemma_gain_le(s: StateV, p: Seq<u8>, a: Set<usize>, f: Seq<usize>, n: int, c: Context)
    requires wf_ctx(c), 0 <= n <= s.validators.len(), p.len() == s.validators.len()
    ensures 0 <= sp_att_gain(s, p, a, f, n, c) <= 54 * sp_base_sum(s, n, c)
    decreases n
{
    if n > 0 {
        lemma_gain_le(s, p, a, f, n - 1, c); lemma_base_nonneg(s, n - 1, c); lemma_flags_step(p[n - 1], f, 2);
        let b = sp_base_reward(s, n - 1, c); let w = sp_weight_added(p[n - 1], f, 3);
        assert(0 <= b * w <= 54 * b) by (nonlinear_arith) requires b >= 0, 0 <= w <= 54;
    }
}
pub proof fn lemma_base_sum_ge(s: StateV, i: int, n: int, c: Context)
    requires wf_ctx(c), 0 <= n <= s.validators.len()
    ensures 0 <= sp_base_sum(s, n, c), 0 <= i < n ==> sp_base_reward(s, i, c) <= sp_base_sum(s, n, c)
    decreases n
{
    if n > 0 { lemma_base_sum_ge(s, i, n - 1, c); lemma_base_nonneg(s, n - 1, c); }
}
@@vspec forks=altair+
pub open spec fn part_of(s: StateV, cur: bool) -> Seq<u8> { if cur { s.current_epoch_participation } else { s.previous_epoch_participation } }
pub open spec fn with_part(s: StateV, p: Seq<u8>, cur: bool) -> StateV { if cur { StateV { current_epoch_participation: p, ..s } } else { StateV { previous_epoch_participation: p, ..s } } }
pub proof fn lemma_base_same(s: StateV, t: StateV, i: int, c: Context)
    requires t.validators == s.validators, t.slot == s.slot ensures sp_base_reward(t, i, c) == sp_base_reward(s, i, c)
{}
@@fn process_attestation forks=altair-deneb
requires atn_pre(old(state)@, *context), att_fit(old(state)@, *context)
ensures r is Ok <==> sp_attestation_ok(old(state)@, *attestation, *context), r is Ok ==> final(state)@ == sp_attestation(old(state)@, *attestation, *context)
@ start
let ghost s0 = state@; let ghost n0 = s0.validators.len() as int; let ghost mut w0: Set<usize> = Set::empty(); let ghost mut f0: Seq<usize> = Seq::empty(); let ghost mut p0: Seq<u8> = Seq::empty();
proof { lemma_att_slot(s0, attestation.data, *context); assert(s0.validators.len() == s0.balances.len()); }
@ let participation_flag_indices 0
proof { f0 = participation_flag_indices@; p0 = part_of(s0, is_current); }
@ let attesting_indices 0
proof {
    w0 = attesting_indices@;
    assert(w0 == sp_att_set(s0, *attestation, *context));
    let q = sorted_set(w0); assert(is_sorted_of(q, w0)); lemma_known(q, n0, q.len() as int);
    assert forall|x: usize| w0.contains(x) implies x < n0 by { assert(q.contains(x)); let j = choose|j: int| 0 <= j < q.len() && q[j] == x; assert(q[j] < n0); }
}
@ before 0
proof {
    assert(__s0@.take(0).to_set() =~= Set::<usize>::empty());
    lemma_gain_none(s0, p0, __s0@.take(0).to_set(), f0, n0, *context);
    assert(sp_att_part(p0, __s0@.take(0).to_set(), f0) =~= p0);
}
@ loop 0
invariant state@ == with_part(s0, sp_att_part(p0, __s0@.take(__i0 as int).to_set(), f0), is_current), proposer_reward_numerator as int == sp_att_gain(s0, p0, __s0@.take(__i0 as int).to_set(), f0, n0, *context),
    p0 == part_of(s0, is_current), n0 == s0.validators.len(), p0.len() == n0, atn_pre(s0, *context), att_fit(s0, *context), participation_flag_indices@ == f0, __s0@.no_duplicates(),
    forall|k: int| 0 <= k < __s0@.len() ==> #[trigger] __s0@[k] < n0,
@ loopstart 0
let ghost done = __s0@.take(__i0 as int).to_set(); let ghost x0 = __s0@[__i0 as int]; let ghost g0 = proposer_reward_numerator as int; let ghost b0 = sp_base_reward(s0, x0 as int, *context); let ghost q0 = sp_att_part(p0, done, f0);
let ghost v0 = p0[x0 as int]; let ghost next = __s0@.take(__i0 + 1).to_set();
proof {
    lemma_take_step(__s0@, __i0 as int);
    assert(!done.contains(x0)) by { let t = __s0@.take(__i0 as int); if t.contains(x0) { let k = choose|k: int| 0 <= k < t.len() && t[k] == x0; assert(__s0@[k] == x0); } }
    assert(next =~= done.insert(x0));
    lemma_gain_insert(s0, p0, done, next, x0, f0, n0, *context); lemma_gain_le(s0, p0, next, f0, n0, *context); lemma_base_sum_ge(s0, x0 as int, n0, *context); lemma_base_nonneg(s0, x0 as int, *context);
    assert(q0.update(x0 as int, v0) =~= q0);
    assert(b0 * 0 == 0);
}
@ loop 1
invariant state@ == with_part(s0, q0.update(x0 as int, sp_flags_added(v0, f0, __i1 as int)), is_current), proposer_reward_numerator as int == g0 + b0 * sp_weight_added(v0, f0, __i1 as int), __i1 <= 3, index == x0, x0 < n0, q0.len() == n0,
    g0 + b0 * sp_weight_added(v0, f0, 3) <= u64::MAX, b0 == sp_base_reward(s0, x0 as int, *context), 0 <= b0, b0 * 54 <= u64::MAX, atn_pre(s0, *context), n0 == s0.validators.len(), participation_flag_indices@ == f0, wf_part(s0),
@ loopstart 1
let ghost k0 = __i1 as int; let ghost r0 = sp_flags_added(v0, f0, k0);
proof {
    lemma_flags_step(v0, f0, k0); lemma_flags_step(v0, f0, 2); lemma_flags_step(v0, f0, 1); lemma_base_same(s0, state@, x0 as int, *context);
    let u = sp_weight_added(v0, f0, k0); let v = sp_weight_added(v0, f0, k0 + 1); let w = sp_weight_added(v0, f0, 3); let d = sp_flag_weight(k0);
    assert(b0 * u <= b0 * v && b0 * v <= b0 * w && b0 * (v - u) == b0 * v - b0 * u && b0 * d <= b0 * 54) by (nonlinear_arith) requires b0 >= 0, u <= v, v <= w, d <= 54;
    assert(b0 * 26 <= u64::MAX); assert(base_fit(state@, x0 as int, *context));
    assert(PARTICIPATION_FLAG_WEIGHTS[k0] as int == d);
}
@ loopend 1
proof { assert(state@ == with_part(s0, part_of(state@, is_current), is_current)); assert(part_of(state@, is_current) =~= q0.update(x0 as int, sp_flags_added(v0, f0, k0 + 1))); }
@ after 1
proof { assert(q0.update(x0 as int, sp_flags_added(v0, f0, 3)) =~= sp_att_part(p0, next, f0)); }
@ after 0
proof {
    assert(__s0@.take(__s0@.len() as int) =~= __s0@); assert(__s0@.to_set() =~= w0);
    assert(sp_active_indices(state@, sp_cur(state@, *context)) == sp_active_indices(s0, sp_cur(s0, *context)));
}
@ let proposer_reward_denominator 0
let ghost t0 = state@;
proof { assert(proposer_reward_denominator == 448); assert(state@.balances == s0.balances); assert(t0 == with_part(s0, sp_att_part(p0, w0, f0), is_current)); assert(proposer_reward_numerator as int == sp_att_gain(s0, p0, w0, f0, n0, *context)); }
@ let proposer_reward 0
proof { assert(proposer_reward as int == sp_att_gain(s0, p0, w0, f0, n0, *context) / 448); }
@ tail
proof {
    assert(state@ == sp_increase_balance(t0, sp_proposer(t0, *context) as int, sp_att_gain(s0, p0, w0, f0, n0, *context) / 448));
    assert(is_proposer(t0, *context, sp_proposer(t0, *context)));
    lemma_proposer_same(s0, t0, *context, sp_proposer(t0, *context));
    assert(f0 == sp_flag_list(s0, attestation.data, s0.slot as int - attestation.data.slot as int, 3, *context));
    assert(state@ == sp_increase_balance(t0, sp_proposer(s0, *context) as int, sp_att_gain(s0, p0, w0, f0, n0, *context) / 448));
}
@@vspec forks=electra
pub proof fn lemma_committee_len(s: StateV, slot: int, i: int, c: Context)
    requires wf_len(s), wf_ctx(c), slot >= 0 ensures 0 <= sp_beacon_committee(s, slot, i, c).len() <= s.validators.len()
{
    let e = sp_epoch_at(slot, c); lemma_active_props(s.validators, e, s.validators.len() as int);
    let m = sp_committee_count(s, e, c); let x = sp_active_indices(s, e).len() as int; let k = (slot % (c.slots_per_epoch as int)) * m + i; let d = m * (c.slots_per_epoch as int);
    assert(d > 0) by (nonlinear_arith) requires d == m * (c.slots_per_epoch as int), m >= 1, c.slots_per_epoch > 0;
    let a = x * k; let b = x * (k + 1); assert(x <= s.validators.len()); assert(b == a + x) by (nonlinear_arith) requires a == x * k, b == x * (k + 1);
    assert(0 <= (a + x) / d - a / d <= x) by (nonlinear_arith) requires d >= 1, x >= 0;
    assert(sp_beacon_committee(s, slot, i, c).len() == (b / d - a / d) as nat);
}
pub proof fn lemma_committee_indices_len(bits: Seq<bool>, n: int)
    requires n >= 0 ensures sp_committee_indices(bits, n).len() <= n
    decreases n
{
    if n > 0 { lemma_committee_indices_len(bits, n - 1); }
}
pub proof fn lemma_committees_known(s: StateV, idx: Seq<usize>, e: int, n: int, c: Context)
    requires 0 <= n <= idx.len()
    ensures sp_committees_known(s, idx, e, n, c) <==> (forall|k: int| 0 <= k < n ==> (#[trigger] idx[k]) < sp_committee_count(s, e, c))
    decreases n
{
    if n > 0 { lemma_committees_known(s, idx, e, n - 1, c); }
}
@@fn process_attestation forks=electra
requires atn_pre(old(state)@, *context), att_fit(old(state)@, *context), attestation.committee_bits@.len() <= 0x1_0000
ensures r is Ok <==> sp_attestation_ok(old(state)@, *attestation, *context), r is Ok ==> final(state)@ == sp_attestation(old(state)@, *attestation, *context)
@ start
let ghost s0 = state@; let ghost n0 = s0.validators.len() as int; let ghost mut w0: Set<usize> = Set::empty(); let ghost mut f0: Seq<usize> = Seq::empty(); let ghost mut p0: Seq<u8> = Seq::empty();
proof { lemma_att_slot(s0, attestation.data, *context); assert(s0.validators.len() == s0.balances.len()); }
@ before 0
proof { lemma_committee_indices_len(attestation.committee_bits@, attestation.committee_bits@.len() as int); }
@ loop 0
invariant state@ == s0, committee_indices@ == sp_att_committees(*attestation), participants_count as int == sp_offset(s0, data.slot as int, committee_indices@, __i0 as int, *context), sp_committees_known(s0, committee_indices@, data.target.epoch as int, __i0 as int, *context),
    committee_indices@.len() <= 0x1_0000, participants_count <= __i0 * pow2_40(), data == &attestation.data, committee_count as int == sp_committee_count(s0, data.target.epoch as int, *context), atn_pre(s0, *context), sp_att_time_ok(s0, *data, *context), slot_ok(data.slot as int),
@ loopstart 0
proof {
    lemma_committees_known(s0, committee_indices@, data.target.epoch as int, committee_indices@.len() as int, *context);
    lemma_committee_len(s0, data.slot as int, committee_indices@[__i0 as int] as int, *context);
    assert((__i0 + 1) * pow2_40() == __i0 * pow2_40() + pow2_40() && __i0 * pow2_40() <= 0x1_0000 * pow2_40()) by (nonlinear_arith) requires 0 <= __i0 <= 0x1_0000;
}
@ after 0
proof { lemma_committees_known(s0, committee_indices@, data.target.epoch as int, committee_indices@.len() as int, *context); }
@ let participation_flag_indices 0
proof { f0 = participation_flag_indices@; p0 = part_of(s0, is_current); }
@ let attesting_indices 0
proof {
    w0 = attesting_indices@;
    assert(w0 == sp_att_set(s0, *attestation, *context));
    let q = sorted_set(w0); assert(is_sorted_of(q, w0)); lemma_known(q, n0, q.len() as int);
    assert forall|x: usize| w0.contains(x) implies x < n0 by { assert(q.contains(x)); let j = choose|j: int| 0 <= j < q.len() && q[j] == x; assert(q[j] < n0); }
}
@ before 1
proof {
    assert(__s1@.take(0).to_set() =~= Set::<usize>::empty());
    lemma_gain_none(s0, p0, __s1@.take(0).to_set(), f0, n0, *context);
    assert(sp_att_part(p0, __s1@.take(0).to_set(), f0) =~= p0);
}
@ loop 1
invariant state@ == with_part(s0, sp_att_part(p0, __s1@.take(__i1 as int).to_set(), f0), is_current), proposer_reward_numerator as int == sp_att_gain(s0, p0, __s1@.take(__i1 as int).to_set(), f0, n0, *context),
    p0 == part_of(s0, is_current), n0 == s0.validators.len(), p0.len() == n0, atn_pre(s0, *context), att_fit(s0, *context), participation_flag_indices@ == f0, __s1@.no_duplicates(),
    forall|k: int| 0 <= k < __s1@.len() ==> #[trigger] __s1@[k] < n0,
@ loopstart 1
let ghost done = __s1@.take(__i1 as int).to_set(); let ghost x0 = __s1@[__i1 as int]; let ghost g0 = proposer_reward_numerator as int; let ghost b0 = sp_base_reward(s0, x0 as int, *context); let ghost q0 = sp_att_part(p0, done, f0);
let ghost v0 = p0[x0 as int]; let ghost next = __s1@.take(__i1 + 1).to_set();
proof {
    lemma_take_step(__s1@, __i1 as int);
    assert(!done.contains(x0)) by { let t = __s1@.take(__i1 as int); if t.contains(x0) { let k = choose|k: int| 0 <= k < t.len() && t[k] == x0; assert(__s1@[k] == x0); } }
    assert(next =~= done.insert(x0));
    lemma_gain_insert(s0, p0, done, next, x0, f0, n0, *context); lemma_gain_le(s0, p0, next, f0, n0, *context); lemma_base_sum_ge(s0, x0 as int, n0, *context); lemma_base_nonneg(s0, x0 as int, *context);
    assert(q0.update(x0 as int, v0) =~= q0);
    assert(b0 * 0 == 0);
}
@ loop 2
invariant state@ == with_part(s0, q0.update(x0 as int, sp_flags_added(v0, f0, __i2 as int)), is_current), proposer_reward_numerator as int == g0 + b0 * sp_weight_added(v0, f0, __i2 as int), __i2 <= 3, index == x0, x0 < n0, q0.len() == n0,
    g0 + b0 * sp_weight_added(v0, f0, 3) <= u64::MAX, b0 == sp_base_reward(s0, x0 as int, *context), 0 <= b0, b0 * 54 <= u64::MAX, atn_pre(s0, *context), n0 == s0.validators.len(), participation_flag_indices@ == f0, wf_part(s0),
@ loopstart 2
let ghost k0 = __i2 as int; let ghost r0 = sp_flags_added(v0, f0, k0);
proof {
    lemma_flags_step(v0, f0, k0); lemma_flags_step(v0, f0, 2); lemma_flags_step(v0, f0, 1); lemma_base_same(s0, state@, x0 as int, *context);
    let u = sp_weight_added(v0, f0, k0); let v = sp_weight_added(v0, f0, k0 + 1); let w = sp_weight_added(v0, f0, 3); let d = sp_flag_weight(k0);
    assert(b0 * u <= b0 * v && b0 * v <= b0 * w && b0 * (v - u) == b0 * v - b0 * u && b0 * d <= b0 * 54) by (nonlinear_arith) requires b0 >= 0, u <= v, v <= w, d <= 54;
    assert(b0 * 26 <= u64::MAX); assert(base_fit(state@, x0 as int, *context));
    assert(PARTICIPATION_FLAG_WEIGHTS[k0] as int == d);
}
@ loopend 2
proof { assert(state@ == with_part(s0, part_of(state@, is_current), is_current)); assert(part_of(state@, is_current) =~= q0.update(x0 as int, sp_flags_added(v0, f0, k0 + 1))); }
@ after 2
proof { assert(q0.update(x0 as int, sp_flags_added(v0, f0, 3)) =~= sp_att_part(p0, next, f0)); }
@ after 1
proof {
    assert(__s1@.take(__s1@.len() as int) =~= __s1@); assert(__s1@.to_set() =~= w0);
    assert(sp_active_indices(state@, sp_cur(state@, *context)) == sp_active_indices(s0, sp_cur(s0, *context)));
}
@ let proposer_reward_denominator 0
let ghost t0 = state@;
proof { assert(proposer_reward_denominator == 448); assert(state@.balances == s0.balances); assert(t0 == with_part(s0, sp_att_part(p0, w0, f0), is_current)); assert(proposer_reward_numerator as int == sp_att_gain(s0, p0, w0, f0, n0, *context)); }
@ let proposer_reward 0
proof { assert(proposer_reward as int == sp_att_gain(s0, p0, w0, f0, n0, *context) / 448); }
@ tail
proof {
    assert(state@ == sp_increase_balance(t0, sp_proposer(t0, *context) as int, sp_att_gain(s0, p0, w0, f0, n0, *context) / 448));
    assert(is_proposer(t0, *context, sp_proposer(t0, *context)));
    lemma_proposer_same(s0, t0, *context, sp_proposer(t0, *context));
    assert(f0 == sp_flag_list(s0, attestation.data, s0.slot as int - attestation.data.slot as int, 3, *context));
    assert(state@ == sp_increase_balance(t0, sp_proposer(s0, *context) as int, sp_att_gain(s0, p0, w0, f0, n0, *context) / 448));
}
@@test proposer_slashing props=C15 n=120
let mut c = gen_ctx(g); c.shuffle_round_count = 3; let mut st = gen_block_state(g, &c); let cc = c.cv(); let n = st.validators.len(); let i = g.idx(n); let e = epoch_of(&st, &c);
if sp_active_indices(st.cv(), sp_cur(st.cv(), cc)).len() == 0 { return Ok(()); }
if g.chance(70) { let v = &mut st.validators[i]; v.slashed = false; v.activation_epoch = g.below(e + 1); v.withdrawable_epoch = if g.bool() { u64::MAX } else { e + 1 }; }
let s = st.cv(); let mut x = RealProposerSlashing::default();
x.signed_header_1.message.slot = if g.chance(60) { g.near(st.slot).min(1 << 40) } else { g.below(40) }; x.signed_header_1.message.proposer_index = if g.chance(5) { n + g.idx(2) } else { i }; x.signed_header_1.message.parent_root = g.node();
x.signed_header_2.message = x.signed_header_1.message.clone();
match g.below(7) { 0 => { x.signed_header_2.message.slot += 1; } 1 => { x.signed_header_2.message.proposer_index = g.idx(n); x.signed_header_2.message.body_root = g.node(); } 2 => {} 3 => { x.signed_header_2.message.state_root = g.node(); } _ => { x.signed_header_2.message.body_root = g.node(); } }
let bad = g.below(12);
for (k, h) in [&mut x.signed_header_1, &mut x.signed_header_2].into_iter().enumerate() {
    let d = if bad == 5 + k as u64 { DomainType::BeaconAttester } else { DomainType::BeaconProposer }; let t = if bad == 7 + k as u64 { sp_cur(s, cc) } else { sp_epoch_at(h.message.slot as int, cc) };
    h.signature = if bad == k as u64 { bad_sig(g) } else { key(i).sk.sign(sp_signing_root(h.message.cv().htr1(), sp_state_domain(s, d, t)).0) };
}
let m = x.cv(); let ok = sp_proposer_slashing_ok(s, m, cc); g.note("proposer slashing accepted", ok);
let r = sp::process_proposer_slashing(&mut st, &x, &c).is_ok();
eqv!(r, ok, "process_proposer_slashing of {x:?}"); seq_st!(st, if ok { sp_proposer_slashing(s, m, cc) } else { s }, "process_proposer_slashing of {i}");
@@test attester_slashing props=C15 n=120
let mut c = gen_ctx(g); c.shuffle_round_count = 3; let mut st = gen_block_state(g, &c); let cc = c.cv(); let n = st.validators.len(); let e = epoch_of(&st, &c);
if sp_active_indices(st.cv(), sp_cur(st.cv(), cc)).len() == 0 { return Ok(()); }
for v in st.validators.iter_mut() { if g.chance(20) { v.slashed = true; } if g.chance(20) { v.withdrawable_epoch = e + g.below(2); } }
let s = st.cv(); let mut x = RealAttesterSlashing::default();
{
    let (a, b) = (&mut x.attestation_1.data, &mut x.attestation_2.data);
    a.source.epoch = g.below(3); a.target.epoch = g.below(6); a.slot = g.below(9); a.index = g.idx(2); *b = a.clone();
    match g.below(6) { 0 => {} 1 => { b.target.root = g.node(); } 2 => { b.source.epoch = a.source.epoch + 1; b.target.epoch = a.target.epoch.saturating_sub(1); } 3 => { b.beacon_block_root = g.node(); } 4 => { b.slot += 1; } _ => { b.source.epoch = g.below(4); b.target.epoch = g.below(6); } }
    if g.chance(10) { std::mem::swap(a, b); }
}
let bad = g.below(14); let p = g.range(20, 80);
for (k, a) in [&mut x.attestation_1, &mut x.attestation_2].into_iter().enumerate() {
    let mut ix: Vec<usize> = (0..n).filter(|_| g.chance(p)).collect(); if bad == k as u64 && ix.len() > 1 { ix.swap(0, 1); } if bad == 2 + k as u64 { ix.push(n); }
    for i in &ix { a.attesting_indices.push(*i); }
    let who: Vec<usize> = ix.iter().copied().filter(|i| *i < n).collect();
    let msg = sp_signing_root(a.data.cv().htr1(), sp_state_domain(s, DomainType::BeaconAttester, a.data.target.epoch as int));
    a.signature = if bad == 4 + k as u64 { bad_sig(g) } else { agg_sign(&who, msg) };
}
let m = x.cv(); let ok = sp_attester_slashing_ok(s, m, cc); g.note("attester slashing accepted", ok);
let r = sp::process_attester_slashing(&mut st, &x, &c).is_ok();
eqv!(r, ok, "process_attester_slashing of {x:?} at epoch {e}"); seq_st!(st, if ok { sp_attester_slashing(s, m, cc) } else { s }, "process_attester_slashing of {x:?}");
@@rust forks=..deneb
/// an attestation by the committee of a recent slot, with the right number of bits
pub fn gen_attestation(g: &mut G, st: &RealBeaconState, c: &RealCtx) -> RealAttestation {
    let (s, cc) = (st.cv(), c.cv());
    let mut a = sp::Attestation::default(); a.data.slot = st.slot.saturating_sub(g.below(2 * c.slots_per_epoch)); a.signature = bad_sig(g);
    let n = sp_committee_count(s, sp_epoch_at(a.data.slot as int, cc), cc) as usize; a.data.index = g.idx(n);
    let len = sp_beacon_committee(s, a.data.slot as int, a.data.index as int, cc).len(); let p = g.range(0, 100);
    for _ in 0..len { a.aggregation_bits.push(g.chance(p)); }
    a
}
pub fn spoil_committees(g: &mut G, a: &mut RealAttestation, count: usize) { a.data.index = count + g.idx(2); }
@@rust forks=electra
pub fn spoil_committees(g: &mut G, a: &mut RealAttestation, count: usize) { if g.bool() { a.data.index = 1; } else if count < 4 { a.committee_bits.set(count, true); } }
@@rust
/// a state and an attestation that suits it, up to one thing
pub fn gen_attested(g: &mut G, c: &mut RealCtx) -> (RealBeaconState, RealAttestation) {
    c.shuffle_round_count = 3; c.min_attestation_inclusion_delay = g.below(3);
    let mut st = gen_block_state(g, c); let cc = c.cv(); if st.slot == 0 { st.slot = 1; }
    for v in st.validators.iter_mut() { if g.chance(70) { v.activation_epoch = 0; v.exit_epoch = u64::MAX; } }
    st.current_justified_checkpoint.epoch = g.below(3); st.previous_justified_checkpoint.epoch = g.below(3);
    let mut a = gen_attestation(g, &st, c); let s = st.cv(); let e = sp_epoch_at(a.data.slot as int, cc);
    a.data.target.epoch = e as u64;
    a.data.source = if e == sp_cur(s, cc) { st.current_justified_checkpoint.clone() } else { st.previous_justified_checkpoint.clone() };
    if g.chance(75) { a.data.target.root = sp_block_root_at(s, e * c.slots_per_epoch as int).rv(); }
    if g.chance(75) { a.data.beacon_block_root = sp_block_root_at(s, a.data.slot as int).rv(); }
    let bad = g.below(24); let count = sp_committee_count(s, e, cc) as usize;
    match bad { 0 => { a.data.target.epoch = a.data.target.epoch + 1; } 1 => { a.data.slot += c.slots_per_epoch; } 2 => { a.data.source.root = g.node(); } 3 => spoil_committees(g, &mut a, count), 4 => { a.aggregation_bits.push(true); } 5 => { a.data.source = st.current_justified_checkpoint.clone(); } 6 => { a.aggregation_bits.pop(); } 7 => { a.data.target.epoch = a.data.target.epoch.saturating_sub(1); } _ => {} }
    let m = a.cv();
    if bad != 8 && sp_att_time_ok(s, m.data, cc) && sp_att_shape_ok(s, m, cc) {
        let who: Vec<usize> = sorted_set(sp_att_set(s, m, cc)).0.to_vec();
        let msg = sp_signing_root(htr(m.data), sp_state_domain(s, DomainType::BeaconAttester, a.data.target.epoch as int)); a.signature = agg_sign(&who, msg);
    }
    (st, a)
}
@@test attestation props=C15 n=200
let mut c = gen_ctx(g); let (mut st, a) = gen_attested(g, &mut c); let cc = c.cv();
let s = st.cv(); let m = a.cv(); let ok = sp_attestation_ok(s, m, cc); g.note("attestation accepted", ok);
let r = sp::process_attestation(&mut st, &a, &c).is_ok();
eqv!(r, ok, "process_attestation at slot {} of {a:?}", st.slot);
if ok { seq_st!(st, sp_attestation(s, m, cc), "process_attestation at slot {} of {a:?}", s.slot); }
@@test attestation_flags props=C15 n=200 forks=altair+
let mut c = gen_ctx(g); let (st, a) = gen_attested(g, &mut c); let cc = c.cv();
let s = st.cv(); let m = a.data.cv(); if !sp_att_time_ok(s, m, cc) { return Ok(()); }
let delay = g.near(st.slot - a.data.slot).min(200);
let want = if sp_att_source_ok(s, m, cc) && sp_att_roots_known(s, m, cc) { Some(sp_flag_list(s, m, delay as int, 3, cc)) } else { None };
eqv!(sp::get_attestation_participation_flag_indices(&st, &a.data, delay, &c).map(|x| x.cv()).ok(), want, "get_attestation_participation_flag_indices at slot {} of {:?} with delay {delay}", st.slot, a.data);
