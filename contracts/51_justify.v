@@spec
// ---- justification and finalization ----
pub open spec fn sp_justified(part: int, total: int) -> bool { part * 3 >= total * 2 }
pub open spec fn sp_just_bits(s: StateV, pj: bool, cj: bool) -> Seq<bool> {
    Seq::new(4, |i: int| if i == 0 { cj } else { if i == 1 { pj || s.justification_bits[0] } else { s.justification_bits[i - 1] } })
}
pub open spec fn sp_start_root(s: StateV, e: int, c: Context) -> Node { sp_block_root_at(s, e * (c.slots_per_epoch as int)) }
pub open spec fn sp_root_known(s: StateV, e: int, c: Context) -> bool { sp_in_window(s, e * (c.slots_per_epoch as int)) }
pub open spec fn sp_just_checkpoint(s: StateV, pj: bool, cj: bool, c: Context) -> Checkpoint {
    if cj { Checkpoint { epoch: sp_cur(s, c) as u64, root: sp_start_root(s, sp_cur(s, c), c) } } else {
        if pj { Checkpoint { epoch: sp_prev(s, c) as u64, root: sp_start_root(s, sp_prev(s, c), c) } } else { s.current_justified_checkpoint }
    }
}
// the most recent checkpoint that one of the four rules finalizes
pub open spec fn sp_final_checkpoint(s: StateV, b: Seq<bool>, e: int) -> Checkpoint {
    let o = s.previous_justified_checkpoint; let n = s.current_justified_checkpoint;
    if b[0] && b[1] && n.epoch as int + 1 == e { n } else {
        if b[0] && b[1] && b[2] && n.epoch as int + 2 == e { n } else {
            if b[1] && b[2] && o.epoch as int + 2 == e { o } else {
                if b[1] && b[2] && b[3] && o.epoch as int + 3 == e { o } else { s.finalized_checkpoint }
            }
        }
    }
}
pub open spec fn sp_weigh(s: StateV, total: int, prev: int, cur: int, c: Context) -> StateV {
    let pj = sp_justified(prev, total); let cj = sp_justified(cur, total); let b = sp_just_bits(s, pj, cj);
    StateV {
        previous_justified_checkpoint: s.current_justified_checkpoint, current_justified_checkpoint: sp_just_checkpoint(s, pj, cj, c), justification_bits: b,
        finalized_checkpoint: sp_final_checkpoint(s, b, sp_cur(s, c)), ..s
    }
}
pub open spec fn sp_weigh_ok(s: StateV, total: int, prev: int, cur: int, c: Context) -> bool {
    (!sp_justified(prev, total) || sp_root_known(s, sp_prev(s, c), c)) && (!sp_justified(cur, total) || sp_root_known(s, sp_cur(s, c), c))
}
@@vspec
pub open spec fn just_pre(s: StateV, c: Context) -> bool {
    epoch_pre(s, c) && s.previous_justified_checkpoint.epoch < pow2_60() && s.current_justified_checkpoint.epoch < pow2_60() && (kf_slot0() ==> s.slot > 0)
}
pub proof fn lemma_epoch_le(slot: int, c: Context)
    requires wf_ctx(c), 0 <= slot < 0x100_0000_0000_0000
    ensures sp_epoch_at(slot, c) <= 0x100_0000_0000_0000int / (c.slots_per_epoch as int)
{
    assert(slot / (c.slots_per_epoch as int) <= 0x100_0000_0000_0000int / (c.slots_per_epoch as int)) by (nonlinear_arith) requires 0 <= slot <= 0x100_0000_0000_0000, c.slots_per_epoch > 0;
}
@@fn weigh_justification_and_finalization
requires just_pre(old(state)@, *context), total_active_balance < 2 * pow2_60(), previous_epoch_target_balance < 2 * pow2_60(), current_epoch_target_balance < 2 * pow2_60()
ensures r is Ok <==> sp_weigh_ok(old(state)@, total_active_balance as int, previous_epoch_target_balance as int, current_epoch_target_balance as int, *context),
    r is Ok ==> final(state)@ == sp_weigh(old(state)@, total_active_balance as int, previous_epoch_target_balance as int, current_epoch_target_balance as int, *context)
@ start
let ghost s0 = state@;
let ghost pj = sp_justified(previous_epoch_target_balance as int, total_active_balance as int); let ghost cj = sp_justified(current_epoch_target_balance as int, total_active_balance as int);
proof { lemma_epoch_bound(s0.slot as int, *context); lemma_epoch_le(s0.slot as int, *context); }
@ let bits 0
let ghost bs = sp_just_bits(s0, pj, cj);
proof {
    assert(bits@ =~= bs);
    assert((forall|i: int| 1 <= i < 4 ==> #[trigger] bits@[i]) <==> bits@[1] && bits@[2] && bits@[3]);
    assert((forall|i: int| 1 <= i < 3 ==> #[trigger] bits@[i]) <==> bits@[1] && bits@[2]);
    assert((forall|i: int| 0 <= i < 3 ==> #[trigger] bits@[i]) <==> bits@[0] && bits@[1] && bits@[2]);
    assert((forall|i: int| 0 <= i < 2 ==> #[trigger] bits@[i]) <==> bits@[0] && bits@[1]);
}
@ tail
proof { assert(state@.justification_bits =~= sp_just_bits(s0, pj, cj)); }

@@spec forks=altair+
pub open spec fn sp_has_flag(flags: u8, i: int) -> bool { ((flags as int) / ipow(2, i)) % 2 == 1 }
// the unslashed validators active in epoch e whose participation in that epoch carries the flag
pub open spec fn sp_part_one(s: StateV, flag: int, e: int, c: Context, i: int) -> bool {
    sp_is_active(s.validators[i], e) && sp_has_flag(if e == sp_cur(s, c) { s.current_epoch_participation[i] } else { s.previous_epoch_participation[i] }, flag) && !s.validators[i].slashed
}
pub open spec fn sp_part_set(s: StateV, flag: int, e: int, c: Context, n: int) -> Set<usize>
    decreases n
{
    if n <= 0 { Set::empty() } else if sp_part_one(s, flag, e, c, n - 1) { sp_part_set(s, flag, e, c, n - 1).insert((n - 1) as usize) } else { sp_part_set(s, flag, e, c, n - 1) }
}
pub open spec fn sp_participating(s: StateV, flag: int, e: int, c: Context) -> Set<usize> { sp_part_set(s, flag, e, c, s.validators.len() as int) }
pub open spec fn sp_target_balance(s: StateV, e: int, c: Context) -> int { sp_total_balance(s, sp_participating(s, 1, e, c), c) }
@@spec
pub open spec fn sp_justification(s: StateV, c: Context) -> StateV {
    if sp_cur(s, c) <= 1 { s } else { sp_weigh(s, sp_total_active_balance(s, c), sp_target_balance(s, sp_prev(s, c), c), sp_target_balance(s, sp_cur(s, c), c), c) }
}
pub open spec fn sp_justification_ok(s: StateV, c: Context) -> bool {
    sp_cur(s, c) <= 1 || sp_weigh_ok(s, sp_total_active_balance(s, c), sp_target_balance(s, sp_prev(s, c), c), sp_target_balance(s, sp_cur(s, c), c), c)
}
@@vspec forks=altair+
pub open spec fn wf_part(s: StateV) -> bool {
    s.previous_epoch_participation.len() == s.validators.len() && s.current_epoch_participation.len() == s.validators.len() && s.inactivity_scores.len() == s.validators.len()
}
pub proof fn lemma_flag_pow(i: int)
    requires 0 <= i < 8
    ensures ipow(2, i) == (1u8 << (i as u8)) as int, ipow(2, i) <= 128
{
    reveal_with_fuel(ipow, 9);
    assert(1u8 << 0u8 == 1u8 && 1u8 << 1u8 == 2u8 && 1u8 << 2u8 == 4u8 && 1u8 << 3u8 == 8u8 && 1u8 << 4u8 == 16u8 && 1u8 << 5u8 == 32u8 && 1u8 << 6u8 == 64u8 && 1u8 << 7u8 == 128u8) by (bit_vector);
}
@@fn has_flag forks=altair+
requires flag_index < 8
ensures r == sp_has_flag(flags, flag_index as int)
@ start
proof { lemma_flag_pow(flag_index as int); }
@ let flag 0
proof {
    let k = flag_index as u8;
    assert(k < 8 ==> ((flags & (1u8 << k)) == (1u8 << k) <==> (flags / (1u8 << k)) % 2 == 1)) by (bit_vector);
}
@@fn add_flag forks=altair+
requires flag_index < 8
ensures r == sp_add_flag(flags, flag_index as int)
@ start
proof { lemma_flag_pow(flag_index as int); }
@ let flag 0
proof {
    let k = flag_index as u8;
    assert(k < 8 ==> (flags | (1u8 << k)) as int == (if (flags / (1u8 << k)) % 2 == 1 { flags as int } else { flags + (1u8 << k) })) by (bit_vector);
}
@@spec forks=altair+
pub open spec fn sp_add_flag(flags: u8, i: int) -> u8 { if sp_has_flag(flags, i) { flags } else { (flags as int + ipow(2, i)) as u8 } }
@@vspec forks=altair+
pub proof fn lemma_part(s: StateV, flag: int, e: int, c: Context, n: int)
    requires 0 <= n <= s.validators.len() <= usize::MAX
    ensures forall|x: usize| #[trigger] sp_part_set(s, flag, e, c, n).contains(x) <==> x < n && sp_part_one(s, flag, e, c, x as int)
    decreases n
{
    if n > 0 {
        lemma_part(s, flag, e, c, n - 1);
        assert forall|x: usize| #[trigger] sp_part_set(s, flag, e, c, n).contains(x) <==> x < n && sp_part_one(s, flag, e, c, x as int) by {
            assert(sp_part_set(s, flag, e, c, n - 1).contains(x) <==> x < n - 1 && sp_part_one(s, flag, e, c, x as int));
            if x == n - 1 { assert(x == (n - 1) as usize); }
        }
    }
}
@@fn get_unslashed_participating_indices forks=altair+
requires wf_ctx(*context), wf_len(state@), wf_part(state@), flag_index < 8
ensures r is Ok <==> (epoch as int == sp_cur(state@, *context) || epoch as int == sp_prev(state@, *context)), r matches Ok(v) ==> v@ == sp_participating(state@, flag_index as int, epoch as int, *context)
@ before 0
proof { lemma_active_props(state@.validators, epoch as int, state@.validators.len() as int); }
@ loop 0
invariant __s0@ == sp_active_indices(state@, epoch as int), epoch_participation@ == (if epoch as int == sp_cur(state@, *context) { state@.current_epoch_participation } else { state@.previous_epoch_participation }),
    forall|x: usize| #[trigger] __acc0@.contains(x) <==> __s0@.take(__i0 as int).contains(x) && sp_part_one(state@, flag_index as int, epoch as int, *context, x as int),
    forall|k: int| 0 <= k < __s0@.len() ==> (#[trigger] __s0@[k]) < state@.validators.len() && sp_is_active(state@.validators[__s0@[k] as int], epoch as int),
@ loopstart 0
let ghost a0 = __acc0@;
@ loopend 0
proof { lemma_take_push(__s0@, __c0 as int); }
@ after 0
proof {
    let n = state@.validators.len() as int;
    lemma_part(state@, flag_index as int, epoch as int, *context, n);
    assert(__s0@.take(__s0@.len() as int) == __s0@);
    assert forall|x: usize| #[trigger] __acc0@.contains(x) <==> sp_participating(state@, flag_index as int, epoch as int, *context).contains(x) by {
        if x < n && sp_is_active(state@.validators[x as int], epoch as int) { assert(__s0@.contains((x as int) as usize)); }
        if __s0@.contains(x) { let k = choose|k: int| 0 <= k < __s0@.len() && __s0@[k] == x; assert(__s0@[k] < n); }
    }
    assert(__acc0@ =~= sp_participating(state@, flag_index as int, epoch as int, *context));
}
@@vspec
pub proof fn lemma_take_push(q: Seq<usize>, k: int)
    requires 0 <= k < q.len()
    ensures forall|x: usize| #[trigger] q.take(k + 1).contains(x) <==> q.take(k).contains(x) || x == q[k]
{
    assert(q.take(k + 1) =~= q.take(k).push(q[k]));
    assert forall|x: usize| #[trigger] q.take(k + 1).contains(x) <==> q.take(k).contains(x) || x == q[k] by {
        if q.take(k).contains(x) { let i = choose|i: int| 0 <= i < k && q.take(k)[i] == x; assert(q.take(k + 1)[i] == x); }
        if x == q[k] { assert(q.take(k + 1)[k] == x); }
        if q.take(k + 1).contains(x) { let i = choose|i: int| 0 <= i < k + 1 && #[trigger] q.take(k + 1)[i] == x; if i < k { assert(q.take(k)[i] == x); } }
    }
}
@@fn process_justification_and_finalization forks=altair+
requires wf_state(old(state)@, *context), wf_part(old(state)@), just_pre(old(state)@, *context)
ensures r is Ok <==> sp_justification_ok(old(state)@, *context), r is Ok ==> final(state)@ == sp_justification(old(state)@, *context)
@ start
proof { lemma_just(state@, *context); }
@@vspec forks=altair+
pub proof fn lemma_just(s: StateV, c: Context)
    requires wf_ctx(c), wf_len(s), wf_eff(s.validators)
    ensures in_range(sp_participating(s, 1, sp_cur(s, c), c), s.validators.len() as int), in_range(sp_participating(s, 1, sp_prev(s, c), c), s.validators.len() as int),
        sp_target_balance(s, sp_cur(s, c), c) < 2 * pow2_60(), sp_target_balance(s, sp_prev(s, c), c) < 2 * pow2_60(), sp_total_active_balance(s, c) < 2 * pow2_60(),
{
    let n = s.validators.len() as int;
    lemma_part(s, 1, sp_cur(s, c), c, n); lemma_part(s, 1, sp_prev(s, c), c, n);
    lemma_set_bal_le(s.validators, sp_participating(s, 1, sp_cur(s, c), c), n); lemma_set_bal_le(s.validators, sp_participating(s, 1, sp_prev(s, c), c), n);
    lemma_active_bal_le(s.validators, sp_cur(s, c), n);
}
@@rust
pub fn ipow(b: int, e: int) -> int { if e <= 0 { 1 } else { b * ipow(b, e - 1) } }
@@spec forks=phase0
// attestations of an epoch, those voting for its target, those also voting for the head
pub open spec fn sp_source_atts(s: StateV, e: int, c: Context) -> Seq<PendingAttestation> { if e == sp_cur(s, c) { s.current_epoch_attestations } else { s.previous_epoch_attestations } }
pub open spec fn sp_target_first(s: StateV, e: int, c: Context, n: int) -> Seq<PendingAttestation>
    decreases n
{
    if n <= 0 { Seq::empty() } else if sp_source_atts(s, e, c)[n - 1].data.target.root == sp_start_root(s, e, c) { sp_target_first(s, e, c, n - 1).push(sp_source_atts(s, e, c)[n - 1]) } else { sp_target_first(s, e, c, n - 1) }
}
pub open spec fn sp_target_atts(s: StateV, e: int, c: Context) -> Seq<PendingAttestation> { sp_target_first(s, e, c, sp_source_atts(s, e, c).len() as int) }
pub open spec fn sp_head_first(s: StateV, q: Seq<PendingAttestation>, n: int) -> Seq<PendingAttestation>
    decreases n
{
    if n <= 0 { Seq::empty() } else if q[n - 1].data.beacon_block_root == sp_block_root_at(s, q[n - 1].data.slot as int) { sp_head_first(s, q, n - 1).push(q[n - 1]) } else { sp_head_first(s, q, n - 1) }
}
pub open spec fn sp_head_atts(s: StateV, e: int, c: Context) -> Seq<PendingAttestation> { sp_head_first(s, sp_target_atts(s, e, c), sp_target_atts(s, e, c).len() as int) }
// the unslashed members of `add` among the first n validators, added to `base`
pub open spec fn sp_add_unslashed(vs: Seq<Validator>, add: Set<usize>, base: Set<usize>, n: int) -> Set<usize>
    decreases n
{
    if n <= 0 { base } else if add.contains((n - 1) as usize) && !vs[n - 1].slashed { sp_add_unslashed(vs, add, base, n - 1).insert((n - 1) as usize) } else { sp_add_unslashed(vs, add, base, n - 1) }
}
// the unslashed validators that took part in one of the first k attestations
pub open spec fn sp_unslashed_att(s: StateV, q: Seq<PendingAttestation>, k: int, c: Context) -> Set<usize>
    decreases k
{
    if k <= 0 { Set::empty() } else { sp_add_unslashed(s.validators, sp_attesting(s, q[k - 1].data, q[k - 1].aggregation_bits@, c), sp_unslashed_att(s, q, k - 1, c), s.validators.len() as int) }
}
pub open spec fn sp_att_balance(s: StateV, q: Seq<PendingAttestation>, c: Context) -> int { sp_total_balance(s, sp_unslashed_att(s, q, q.len() as int, c), c) }
pub open spec fn sp_target_balance(s: StateV, e: int, c: Context) -> int { sp_att_balance(s, sp_target_atts(s, e, c), c) }
@@vspec forks=phase0
pub open spec fn attrefs(v: &Vec<&PendingAttestation>) -> Seq<PendingAttestation> { Seq::new(v@.len(), |i: int| *v@[i]) }
// what holds of every attestation recorded in a state: it passed the checks made when it was included
pub open spec fn att_recorded(s: StateV, a: PendingAttestation, c: Context) -> bool { att_ok(s, a.data, c) && sp_bits_ok(s, a.data, a.aggregation_bits@, c) }
pub open spec fn atts_recorded(s: StateV, q: Seq<PendingAttestation>, c: Context) -> bool { forall|i: int| 0 <= i < q.len() ==> att_recorded(s, #[trigger] q[i], c) }
pub open spec fn wf_part(s: StateV, c: Context) -> bool { atts_recorded(s, s.previous_epoch_attestations, c) && atts_recorded(s, s.current_epoch_attestations, c) }
pub proof fn lemma_target_first(s: StateV, e: int, c: Context, n: int)
    requires atts_recorded(s, sp_source_atts(s, e, c), c), 0 <= n <= sp_source_atts(s, e, c).len()
    ensures atts_recorded(s, sp_target_first(s, e, c, n), c), sp_target_first(s, e, c, n).len() <= n
    decreases n
{
    if n > 0 { lemma_target_first(s, e, c, n - 1); }
}
pub proof fn lemma_add_unslashed(vs: Seq<Validator>, add: Set<usize>, base: Set<usize>, n: int)
    requires 0 <= n <= vs.len() <= usize::MAX
    ensures forall|x: usize| #[trigger] sp_add_unslashed(vs, add, base, n).contains(x) <==> base.contains(x) || (x < n && add.contains(x) && !vs[x as int].slashed)
    decreases n
{
    if n > 0 {
        lemma_add_unslashed(vs, add, base, n - 1);
        assert forall|x: usize| #[trigger] sp_add_unslashed(vs, add, base, n).contains(x) <==> base.contains(x) || (x < n && add.contains(x) && !vs[x as int].slashed) by {
            assert(sp_add_unslashed(vs, add, base, n - 1).contains(x) <==> base.contains(x) || (x < n - 1 && add.contains(x) && !vs[x as int].slashed));
            if x == n - 1 { assert(x == (n - 1) as usize); }
        }
    }
}
@@vspec forks=phase0,altair
// committee members are validators
pub proof fn lemma_attesting_range(s: StateV, d: AttestationData, bits: Seq<bool>, c: Context)
    requires wf_ctx(c), wf_len(s), att_ok(s, d, c), sp_bits_ok(s, d, bits, c)
    ensures in_range(sp_attesting(s, d, bits, c), s.validators.len() as int)
{
    let m = sp_beacon_committee(s, d.slot as int, d.index as int, c);
    lemma_attesters(m, bits, 0, Set::empty(), bits.len() as int);
    lemma_committee_range(s, d.slot as int, d.index as int, c);
    assert forall|x: usize| sp_attesting(s, d, bits, c).contains(x) implies x < s.validators.len() by { assert(m.contains(x)); }
}
@@vspec forks=phase0
pub proof fn lemma_unslashed_range(s: StateV, q: Seq<PendingAttestation>, k: int, c: Context)
    requires wf_ctx(c), wf_len(s), atts_recorded(s, q, c), 0 <= k <= q.len()
    ensures in_range(sp_unslashed_att(s, q, k, c), s.validators.len() as int)
    decreases k
{
    if k > 0 {
        lemma_unslashed_range(s, q, k - 1, c); assert(att_recorded(s, q[k - 1], c));
        let add = sp_attesting(s, q[k - 1].data, q[k - 1].aggregation_bits@, c);
        lemma_attesting_range(s, q[k - 1].data, q[k - 1].aggregation_bits@, c);
        lemma_add_unslashed(s.validators, add, sp_unslashed_att(s, q, k - 1, c), s.validators.len() as int);
    }
}
@@fn get_matching_source_attestations forks=phase0
requires wf_ctx(*context)
ensures r is Ok <==> (epoch as int == sp_cur(state@, *context) || epoch as int == sp_prev(state@, *context)), r matches Ok(v) ==> v@ == sp_source_atts(state@, epoch as int, *context)
@@vspec forks=phase0
@@spec forks=phase0
pub open spec fn sp_target_ok(s: StateV, e: int, c: Context) -> bool { (e == sp_cur(s, c) || e == sp_prev(s, c)) && (sp_source_atts(s, e, c).len() == 0 || sp_root_known(s, e, c)) }
@@vspec forks=phase0
@@fn get_matching_target_attestations forks=phase0
requires epoch_pre(state@, *context), kf_slot0() ==> state@.slot > 0
ensures r is Ok <==> sp_target_ok(state@, epoch as int, *context), r matches Ok(v) ==> attrefs(&v) == sp_target_atts(state@, epoch as int, *context)
@ start
proof { lemma_epoch_bound(state@.slot as int, *context); lemma_epoch_le(state@.slot as int, *context); if sp_prev(state@, *context) != sp_cur(state@, *context) { assert(sp_prev(state@, *context) <= sp_cur(state@, *context)); } }
@ then 0
proof { assert(attrefs(&result) =~= Seq::empty()); }
@ before 0
proof { assert(attrefs(&result) =~= Seq::empty()); }
@ loop 0
invariant source_attestations@ == sp_source_atts(state@, epoch as int, *context), attrefs(&result) == sp_target_first(state@, epoch as int, *context, __i0 as int), *block_root == sp_start_root(state@, epoch as int, *context),
@ loopstart 0
let ghost q0 = attrefs(&result);
@ loopend 0
proof { assert(attrefs(&result) =~= (if source_attestations@[__c0 as int].data.target.root == *block_root { q0.push(source_attestations@[__c0 as int]) } else { q0 })); }
@@fn get_matching_head_attestations forks=phase0
requires epoch_pre(state@, *context), state@.slot > 0, sp_target_ok(state@, epoch as int, *context), heads_known(state@, epoch as int, *context)
ensures r is Ok, r matches Ok(v) ==> attrefs(&v) == sp_head_atts(state@, epoch as int, *context)
@ before 0
proof { assert(attrefs(&matching_head_attestations) =~= Seq::empty()); }
@ loop 0
invariant attrefs(&matching_target_attestations) == sp_target_atts(state@, epoch as int, *context), attrefs(&matching_head_attestations) == sp_head_first(state@, sp_target_atts(state@, epoch as int, *context), __i0 as int), heads_known(state@, epoch as int, *context),
@ loopstart 0
let ghost q0 = attrefs(&matching_head_attestations);
proof { assert(attrefs(&matching_target_attestations)[__i0 as int] == *matching_target_attestations@[__i0 as int]); }
@ loopend 0
proof { assert(attrefs(&matching_head_attestations) =~= sp_head_first(state@, sp_target_atts(state@, epoch as int, *context), __i0 as int)); }
@@vspec forks=phase0
pub open spec fn heads_known(s: StateV, e: int, c: Context) -> bool { forall|i: int| 0 <= i < sp_target_atts(s, e, c).len() ==> sp_in_window(s, (#[trigger] sp_target_atts(s, e, c)[i]).data.slot as int) }
@@fn get_unslashed_attesting_indices forks=phase0
requires epoch_pre(state@, *context), atts_recorded(state@, attrefs(&attestations), *context)
ensures r is Ok, r matches Ok(v) ==> v@ == sp_unslashed_att(state@, attrefs(&attestations), attestations@.len() as int, *context)
@ loop 0
invariant output@ == sp_unslashed_att(state@, attrefs(&attestations), __i0 as int, *context), atts_recorded(state@, attrefs(&attestations), *context),
@ loopstart 0
let ghost base = output@; let ghost a0 = attrefs(&attestations)[__i0 as int];
proof { assert(att_recorded(state@, a0, *context)); lemma_attesting_range(state@, a0.data, a0.aggregation_bits@, *context); lemma_add_unslashed(state@.validators, sp_attesting(state@, a0.data, a0.aggregation_bits@, *context), base, state@.validators.len() as int); }
@ before 1
let ghost add = sp_attesting(state@, a0.data, a0.aggregation_bits@, *context);
@ loop 1
invariant forall|x: usize| __s1@.contains(x) <==> add.contains(x), in_range(add, state@.validators.len() as int), forall|i: int| 0 <= i < __s1@.len() ==> (#[trigger] __s1@[i]) < state@.validators.len(),
    forall|x: usize| #[trigger] output@.contains(x) <==> base.contains(x) || (__s1@.take(__i1 as int).contains(x) && !state@.validators[x as int].slashed),
@ loopend 1
proof { lemma_take_push(__s1@, __c1 as int); }
@ after 1
proof { assert(__s1@.take(__s1@.len() as int) == __s1@); assert(output@ =~= sp_unslashed_att(state@, attrefs(&attestations), __i0 as int, *context)); }
@@fn get_attesting_balance forks=phase0
requires epoch_pre(state@, *context), wf_eff(state@.validators), atts_recorded(state@, attrefs(&attestations), *context)
ensures r is Ok, r matches Ok(x) ==> x as int == sp_att_balance(state@, attrefs(&attestations), *context)
@ start
proof { lemma_unslashed_range(state@, attrefs(&attestations), attestations@.len() as int, *context); }
@@spec forks=phase0
pub open spec fn sp_just0_ok(s: StateV, c: Context) -> bool {
    sp_justification_ok(s, c) && (sp_cur(s, c) <= 1 || (sp_target_ok(s, sp_prev(s, c), c) && sp_target_ok(s, sp_cur(s, c), c)))
}
@@fn process_justification_and_finalization forks=phase0
requires wf_state(old(state)@, *context), wf_part(old(state)@, *context), just_pre(old(state)@, *context)
ensures r is Ok <==> sp_just0_ok(old(state)@, *context), r is Ok ==> final(state)@ == sp_justification(old(state)@, *context)
@ start
proof { lemma_just(state@, *context); }
@@vspec forks=phase0
pub proof fn lemma_just(s: StateV, c: Context)
    requires wf_ctx(c), wf_len(s), wf_eff(s.validators), wf_part(s, c)
    ensures sp_target_balance(s, sp_cur(s, c), c) < 2 * pow2_60(), sp_target_balance(s, sp_prev(s, c), c) < 2 * pow2_60(), sp_total_active_balance(s, c) < 2 * pow2_60(),
        atts_recorded(s, sp_target_atts(s, sp_cur(s, c), c), c), atts_recorded(s, sp_target_atts(s, sp_prev(s, c), c), c),
{
    let n = s.validators.len() as int;
    let p = sp_target_atts(s, sp_prev(s, c), c); let q = sp_target_atts(s, sp_cur(s, c), c);
    lemma_target_first(s, sp_prev(s, c), c, sp_source_atts(s, sp_prev(s, c), c).len() as int); lemma_target_first(s, sp_cur(s, c), c, sp_source_atts(s, sp_cur(s, c), c).len() as int);
    lemma_set_bal_le(s.validators, sp_unslashed_att(s, p, p.len() as int, c), n); lemma_set_bal_le(s.validators, sp_unslashed_att(s, q, q.len() as int, c), n);
    lemma_active_bal_le(s.validators, sp_cur(s, c), n);
}
@@rust forks=phase0
/// attestations of the previous and the current epoch as they are recorded in a state
pub fn gen_recorded(g: &mut G, st: &mut RealBeaconState, c: &RealCtx) {
    let e = epoch_of(st, c); let cc = c.cv(); let s = st.cv();
    let hi = g.pick(&[40u64, 80, 100]);
    for cur in [false, true] {
        if e == 0 && !cur { continue; }
        let ep = if cur { e } else { e - 1 };
        for slot in ep * c.slots_per_epoch..(ep + 1) * c.slots_per_epoch {
            if slot >= st.slot { break; }
            let n = sp_committee_count(s, ep as int, cc) as u64;
            for k in 0..n {
                if !g.chance(70) { continue; }
                let len = sp_beacon_committee(s, slot as int, k as int, cc).len();
                let mut a = sp::PendingAttestation::default();
                a.data.slot = slot; a.data.index = k as usize; a.inclusion_delay = g.range(1, 8); a.proposer_index = g.idx(st.validators.len());
                a.data.target.epoch = ep; a.data.target.root = if g.chance(85) { sp_start_root(s, ep as int, cc).rv() } else { g.small_node() };
                a.data.beacon_block_root = if g.chance(70) { sp_block_root_at(s, slot as int).rv() } else { g.small_node() };
                for _ in 0..len { let b = g.chance(hi); a.aggregation_bits.push(b); }
                if cur { st.current_epoch_attestations.push(a.clone()); } else { st.previous_epoch_attestations.push(a.clone()); }
                if g.chance(10) { a.inclusion_delay = g.range(1, 8); if !cur { st.previous_epoch_attestations.push(a); } }
            }
        }
    }
}
@@rust forks=altair+
pub fn gen_recorded(g: &mut G, st: &mut RealBeaconState, c: &RealCtx) {
    if g.chance(50) { let x = g.range(55, 80); for i in 0..st.validators.len() { if g.chance(x) { st.current_epoch_participation[i] |= 2; } else { st.current_epoch_participation[i] &= !2; } } }
}
@@rust
/// a state close to an epoch boundary with recorded votes and checkpoints near the current epoch
pub fn gen_voting(g: &mut G, c: &RealCtx) -> RealBeaconState {
    let n = if g.bool() { g.range(3, 9) } else { g.range(1, 30) } as usize;
    let mut st = gen_state_n(g, c, n);
    let e = match g.below(4) { 0 => g.below(4), _ => g.below(12) };
    st.slot = (e + 1) * c.slots_per_epoch - 1; if g.chance(10) { st.slot -= g.below(c.slots_per_epoch); }
    for i in 0..n { let v = &mut st.validators[i]; if g.chance(85) { v.activation_epoch = 0; v.exit_epoch = u64::MAX; v.slashed = g.chance(10); } if g.chance(60) { v.effective_balance = 32 * GWEI; } }
    let near = |g: &mut G| e.saturating_sub(g.below(4));
    st.current_justified_checkpoint.epoch = near(g); st.previous_justified_checkpoint.epoch = near(g).min(st.current_justified_checkpoint.epoch);
    if g.chance(10) { st.previous_justified_checkpoint.epoch = near(g); }
    st.finalized_checkpoint.epoch = e.saturating_sub(1 + g.below(9));
    if g.chance(50) { for i in 0..4 { st.justification_bits.set(i, true); } }
    gen_recorded(g, &mut st, c); st
}
@@test weigh props=C10 n=200
let c = gen_ctx(g); let mut st = gen_voting(g, &c); let s = st.cv(); let cc = c.cv();
if kf_slot0() && st.slot == 0 { return Ok(()); }
let t = g.range(1, 100) * GWEI; let p = |g: &mut G| match g.below(4) { 0 => t * 2 / 3, 1 => (t * 2 + 2) / 3, 2 => t, _ => g.below(t + 1) }; let (a, b) = (p(g), p(g));
let ok = sp_weigh_ok(s, t as int, a as int, b as int, cc);
let r = sp::weigh_justification_and_finalization(&mut st, t, a, b, &c).is_ok();
eqv!(r, ok, "weigh_justification_and_finalization({t}, {a}, {b}) accepts at slot {}", s.slot);
if r { seq_st!(st, sp_weigh(s, t as int, a as int, b as int, cc), "weigh_justification_and_finalization({t}, {a}, {b}) at epoch {}, bits {:?}, justified {:?} {:?}", sp_cur(s, cc), s.justification_bits, s.previous_justified_checkpoint.epoch, s.current_justified_checkpoint.epoch); }
@@test justification props=C10 n=60
let mut c = gen_ctx(g); c.shuffle_round_count = 3; let mut st = gen_voting(g, &c); let s = st.cv(); let cc = c.cv();
let ok = sp_justification_ok(s, cc);
let r = sp::process_justification_and_finalization(&mut st, &c).is_ok();
if ok { chk!(r, "process_justification_and_finalization failed at slot {}", s.slot); }
if r { seq_st!(st, sp_justification(s, cc), "process_justification_and_finalization at epoch {}, bits {:?}", sp_cur(s, cc), s.justification_bits); }
@@test participating props=C10,C11 n=60 forks=altair+
let c = gen_ctx(g); let st = gen_voting(g, &c); let s = st.cv(); let cc = c.cv(); let f = g.idx(3); let e = (epoch_of(&st, &c) + g.below(3)).saturating_sub(1);
let want = if e as int == sp_cur(s, cc) || e as int == sp_prev(s, cc) { Some(sp_participating(s, f as int, e as int, cc)) } else { None };
eqv!(sp::get_unslashed_participating_indices(&st, f, e, &c).ok().map(|x| x.cv()), want, "get_unslashed_participating_indices(flag {f}, epoch {e}) at slot {}", st.slot);
let x = g.below(256) as u8; let k = g.idx(8);
eqv!(sp::has_flag(x, k), sp_has_flag(x, k as int), "has_flag({x}, {k})"); eqv!(sp::add_flag(x, k), sp_add_flag(x, k as int), "add_flag({x}, {k})");
@@test matching props=C10,C11 n=40 forks=phase0
let mut c = gen_ctx(g); c.shuffle_round_count = 3; let st = gen_voting(g, &c); let s = st.cv(); let cc = c.cv(); let e = (epoch_of(&st, &c) + g.below(3)).saturating_sub(1);
let known = e as int == sp_cur(s, cc) || e as int == sp_prev(s, cc);
let r = sp::get_matching_source_attestations(&st, e, &c).ok();
eqv!(r.map(|x| x.cv()), if known { Some(sp_source_atts(s, e as int, cc)) } else { None }, "get_matching_source_attestations({e})");
if known && (sp_source_atts(s, e as int, cc).len() == 0 || sp_root_known(s, e as int, cc)) && st.slot > 0 {
    let r = sp::get_matching_target_attestations(&st, e, &c).ok(); let q = sp_target_atts(s, e as int, cc);
    eqv!(r.map(|x| x.cv()), Some(q), "get_matching_target_attestations({e})");
    let r = sp::get_matching_head_attestations(&st, e, &c).ok();
    eqv!(r.map(|x| x.cv()), Some(sp_head_atts(s, e as int, cc)), "get_matching_head_attestations({e})");
    let r = sp::get_attesting_balance(&st, sp::get_matching_target_attestations(&st, e, &c).unwrap(), &c).ok();
    eqv!(r.map(|x| x as int), Some(sp_att_balance(s, q, cc)), "get_attesting_balance of the target attestations of {e}");
}
