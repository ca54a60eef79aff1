@@spec
pub open spec fn sp_committee_count(s: StateV, epoch: int, c: Context) -> int {
    vmax(1, vmin(c.max_committees_per_slot as int, (sp_active_indices(s, epoch).len() as int) / (c.slots_per_epoch as int) / (c.target_committee_size as int)))
}
// committee `index` of `count`: the slice of the shuffled list between the proportional bounds
pub open spec fn sp_committee(ind: Seq<usize>, seed: Bytes32, index: int, count: int, c: Context) -> Seq<usize> {
    let n = ind.len() as int; let a = n * index / count; let b = n * (index + 1) / count;
    Seq::new((b - a) as nat, |k: int| ind[sp_shuffled(seed, c.shuffle_round_count as int, a + k, n)])
}
pub open spec fn sp_beacon_committee(s: StateV, slot: int, index: int, c: Context) -> Seq<usize> {
    let e = sp_epoch_at(slot, c); let n = sp_committee_count(s, e, c);
    sp_committee(sp_active_indices(s, e), sp_seed(s, e, DomainType::BeaconAttester, c), (slot % (c.slots_per_epoch as int)) * n + index, n * (c.slots_per_epoch as int), c)
}
// round k of a sampling walk: the candidate, its random byte, and whether it is accepted
pub open spec fn sp_candidate(ind: Seq<usize>, seed: Bytes32, k: int, c: Context) -> usize { ind[sp_shuffled(seed, c.shuffle_round_count as int, k % (ind.len() as int), ind.len() as int)] }
pub open spec fn sp_random_byte(seed: Seq<u8>, k: int) -> int { b32(sha256(seed + u64_le((k / 32) as u64)))[k % 32] as int }
pub open spec fn sp_accepts(s: StateV, v: int, seed: Seq<u8>, k: int, c: Context) -> bool {
    s.validators[v].effective_balance as int * 255 >= c.max_effective_balance as int * sp_random_byte(seed, k)
}
pub open spec fn sp_round_accepts(s: StateV, ind: Seq<usize>, seed: Bytes32, k: int, c: Context) -> bool { sp_accepts(s, sp_candidate(ind, seed, k, c) as int, b32(seed), k, c) }
// nobody is accepted in the first k rounds
pub open spec fn sp_none_before(s: StateV, ind: Seq<usize>, seed: Bytes32, k: int, c: Context) -> bool
    decreases k
{
    if k <= 0 { true } else { sp_none_before(s, ind, seed, k - 1, c) && !sp_round_accepts(s, ind, seed, k - 1, c) }
}
// everybody accepted in the first k rounds
pub open spec fn sp_accepted(s: StateV, ind: Seq<usize>, seed: Bytes32, k: int, c: Context) -> Seq<usize>
    decreases k
{
    if k <= 0 { Seq::empty() } else if sp_round_accepts(s, ind, seed, k - 1, c) { sp_accepted(s, ind, seed, k - 1, c).push(sp_candidate(ind, seed, k - 1, c)) } else { sp_accepted(s, ind, seed, k - 1, c) }
}
pub open spec fn sp_proposer_seed(s: StateV, c: Context) -> Bytes32 {
    sha256(b32(sp_seed(s, sp_cur(s, c), DomainType::BeaconProposer, c)) + u64_le(s.slot))
}
@@vspec
// the first accepted candidate of the walk
pub open spec fn is_first_accepted(s: StateV, ind: Seq<usize>, seed: Bytes32, c: Context, x: usize) -> bool {
    exists|k: int| k >= 0 && #[trigger] sp_none_before(s, ind, seed, k, c) && sp_round_accepts(s, ind, seed, k, c) && x == sp_candidate(ind, seed, k, c)
}
pub proof fn lemma_none_before(s: StateV, ind: Seq<usize>, seed: Bytes32, k: int, n: int, c: Context)
    requires 0 <= k < n, sp_none_before(s, ind, seed, n, c)
    ensures !sp_round_accepts(s, ind, seed, k, c)
    decreases n
{
    if k < n - 1 { lemma_none_before(s, ind, seed, k, n - 1, c); }
}
// there is only one
pub proof fn lemma_first_unique(s: StateV, ind: Seq<usize>, seed: Bytes32, c: Context, x: usize, y: usize)
    requires is_first_accepted(s, ind, seed, c, x), is_first_accepted(s, ind, seed, c, y)
    ensures x == y
{
    let j = choose|k: int| k >= 0 && #[trigger] sp_none_before(s, ind, seed, k, c) && sp_round_accepts(s, ind, seed, k, c) && x == sp_candidate(ind, seed, k, c);
    let k = choose|k: int| k >= 0 && #[trigger] sp_none_before(s, ind, seed, k, c) && sp_round_accepts(s, ind, seed, k, c) && y == sp_candidate(ind, seed, k, c);
    if j < k { lemma_none_before(s, ind, seed, j, k, c); } else if k < j { lemma_none_before(s, ind, seed, k, j, c); }
}
// the proposer of the state's slot
pub open spec fn sp_proposer(s: StateV, c: Context) -> usize { choose|x: usize| is_proposer(s, c, x) }
pub open spec fn is_proposer(s: StateV, c: Context, x: usize) -> bool { is_first_accepted(s, sp_active_indices(s, sp_cur(s, c)), sp_proposer_seed(s, c), c, x) }
// only the slot, the validators and the randomness decide who it is
pub open spec fn same_sampling(s: StateV, t: StateV) -> bool { t.slot == s.slot && t.validators == s.validators && t.randao_mixes == s.randao_mixes }
pub proof fn lemma_none_same(s: StateV, t: StateV, ind: Seq<usize>, seed: Bytes32, k: int, c: Context)
    requires s.validators == t.validators ensures sp_none_before(s, ind, seed, k, c) == sp_none_before(t, ind, seed, k, c), sp_round_accepts(s, ind, seed, k, c) == sp_round_accepts(t, ind, seed, k, c)
    decreases k
{ if k > 0 { lemma_none_same(s, t, ind, seed, k - 1, c); } }
pub proof fn lemma_proposer_same(s: StateV, t: StateV, c: Context, x: usize)
    requires same_sampling(s, t), is_proposer(t, c, x) ensures is_proposer(s, c, x), sp_proposer(s, c) == x
{
    let ind = sp_active_indices(s, sp_cur(s, c)); let seed = sp_proposer_seed(s, c);
    let k = choose|k: int| k >= 0 && #[trigger] sp_none_before(t, ind, seed, k, c) && sp_round_accepts(t, ind, seed, k, c) && x == sp_candidate(ind, seed, k, c);
    lemma_none_same(s, t, ind, seed, k, c);
    assert(is_proposer(s, c, x));
    lemma_first_unique(s, ind, seed, c, x, sp_proposer(s, c));
}
pub proof fn lemma_split(n: int, index: int, count: int)
    requires 0 <= n < pow2_40(), 0 <= index < count, count <= 0x40_0000
    ensures 0 <= n * index / count <= n * (index + 1) / count <= n, 0 <= n * index <= n * (index + 1) <= 0x4000_0000_0000_0000, count > 0
{
    assert(0 <= n * index <= n * (index + 1) <= n * count) by (nonlinear_arith) requires 0 <= n, 0 <= index < count;
    assert(n * count <= 0x100_0000_0000 * 0x40_0000) by (nonlinear_arith) requires 0 <= n < 0x100_0000_0000, 0 < count <= 0x40_0000;
    assert(0 <= n * index / count <= n * (index + 1) / count <= n) by (nonlinear_arith) requires 0 <= n * index <= n * (index + 1) <= n * count, count > 0;
}
pub proof fn lemma_committee_index(slot: int, index: int, n: int, c: Context)
    requires wf_ctx(c), 0 <= slot, 0 <= index < n, n <= c.max_committees_per_slot
    ensures 0 <= (slot % (c.slots_per_epoch as int)) * n + index < n * (c.slots_per_epoch as int) <= 0x40_0000
{
    let m = slot % (c.slots_per_epoch as int);
    assert(0 <= m * n + index < n * c.slots_per_epoch <= 0x40_0000) by (nonlinear_arith)
        requires 0 <= m < c.slots_per_epoch <= 0x1000, 0 <= index < n <= 0x400;
}
pub proof fn lemma_count_bounds(s: StateV, e: int, c: Context)
    requires wf_ctx(c), s.validators.len() < pow2_40()
    ensures 1 <= sp_committee_count(s, e, c) <= c.max_committees_per_slot, sp_active_indices(s, e).len() <= s.validators.len()
{
    lemma_active_props(s.validators, e, s.validators.len() as int);
}
// what the sampling functions need of the active set
pub open spec fn ind_ok(s: StateV, ind: Seq<usize>) -> bool { ind.len() < pow2_40() && forall|i: int| 0 <= i < ind.len() ==> (#[trigger] ind[i]) < s.validators.len() }
pub proof fn lemma_ind_ok(s: StateV, e: int)
    requires s.validators.len() < pow2_40()
    ensures ind_ok(s, sp_active_indices(s, e))
{
    lemma_active_props(s.validators, e, s.validators.len() as int);
}
// committee members are active validators
pub proof fn lemma_committee_range(s: StateV, slot: int, index: int, c: Context)
    requires wf_ctx(c), wf_len(s), 0 <= slot, 0 <= index < sp_committee_count(s, sp_epoch_at(slot, c), c)
    ensures forall|x: usize| #[trigger] sp_beacon_committee(s, slot, index, c).contains(x) ==> x < s.validators.len(), sp_beacon_committee(s, slot, index, c).len() <= s.validators.len()
{
    let e = sp_epoch_at(slot, c); let n = sp_committee_count(s, e, c); let ind = sp_active_indices(s, e); let m = sp_beacon_committee(s, slot, index, c); let seed = sp_seed(s, e, DomainType::BeaconAttester, c);
    lemma_count_bounds(s, e, c); lemma_committee_index(slot, index, n, c); lemma_ind_ok(s, e);
    let j = (slot % (c.slots_per_epoch as int)) * n + index; let count = n * (c.slots_per_epoch as int);
    lemma_split(ind.len() as int, j, count);
    assert forall|x: usize| #[trigger] m.contains(x) implies x < s.validators.len() by {
        let k = choose|k: int| 0 <= k < m.len() && #[trigger] m[k] == x;
        let a = ind.len() as int * j / count;
        lemma_shuffled_range(seed, 0, c.shuffle_round_count as int, a + k, ind.len() as int);
        assert(m[k] == ind[sp_shuffled(seed, c.shuffle_round_count as int, a + k, ind.len() as int)]);
    }
}
@@fn get_committee_count_per_slot
requires wf_ctx(*context), wf_len(state@)
ensures r as int == sp_committee_count(state@, epoch as int, *context)
@ start
proof { lemma_count_bounds(state@, epoch as int, *context); }
@@fn compute_committee
requires wf_ctx(*context), indices@.len() < pow2_40(), index < count <= 0x40_0000
ensures r is Ok, r matches Ok(v) ==> v@ == sp_committee(indices@, *seed, index as int, count as int, *context)
@ start
let ghost idx = index as int;
proof { lemma_split(indices@.len() as int, index as int, count as int); }
@ let committee 0
proof { assert(committee@ =~= sp_committee(indices@, *seed, idx, count as int, *context)); }
@ loop 0
invariant start as int == indices@.len() * idx / (count as int), end as int == indices@.len() * (idx + 1) / (count as int), start <= __i0, end <= indices@.len(), committee@.len() == end - start, __n0 == end,
    forall|k: int| 0 <= k < __i0 - start ==> committee@[k] == #[trigger] sp_committee(indices@, *seed, idx, count as int, *context)[k],
@ after 0
proof { assert(committee@ =~= sp_committee(indices@, *seed, idx, count as int, *context)); }
@@fn get_beacon_committee
requires wf_ctx(*context), wf_len(state@), slot < 0x200_0000_0000_0000, index < sp_committee_count(state@, sp_epoch_at(slot as int, *context), *context)
ensures r is Ok, r matches Ok(v) ==> v@ == sp_beacon_committee(state@, slot as int, index as int, *context)
@ start
proof {
    lemma_epoch_bound2(slot as int, *context); lemma_count_bounds(state@, sp_epoch_at(slot as int, *context), *context);
    lemma_committee_index(slot as int, index as int, sp_committee_count(state@, sp_epoch_at(slot as int, *context), *context), *context);
}
@@fn sample_proposer_index
requires wf_ctx(*context), wf_eff(state@.validators), candidate_index < state@.validators.len(), old(hash_input)@.len() == 40
ensures final(hash_input)@.len() == 40, final(hash_input)@.subrange(0, 32) == old(hash_input)@.subrange(0, 32),
    r == (if sp_accepts(state@, candidate_index as int, old(hash_input)@.subrange(0, 32), round as int, *context) { Some(candidate_index) } else { None })
@ let effective_balance 0
proof { assert(random_byte <= 255); assert(context.max_effective_balance * random_byte <= 0x100_0000_0000 * 255) by (nonlinear_arith) requires random_byte <= 255, context.max_effective_balance <= 0x100_0000_0000; }
@ let random_byte 0
proof { assert(hash_input@ =~= old(hash_input)@.subrange(0, 32) + u64_le((round / 32) as u64)); assert(hash_input@.subrange(0, 32) =~= old(hash_input)@.subrange(0, 32)); }
@@fn compute_proposer_index noterm=1
requires wf_ctx(*context), wf_eff(state@.validators), ind_ok(state@, indices@)
ensures r is Ok <==> indices@.len() > 0, r matches Ok(x) ==> is_first_accepted(state@, indices@, *seed, *context, x) && x < state@.validators.len()
@ loop 0
invariant hash_input@.len() == 40, hash_input@.subrange(0, 32) == b32(*seed), sp_none_before(state@, indices@, *seed, round as int, *context), total == indices@.len(), total > 0,
    shuffled_indices@.len() == total, forall|x: int| 0 <= x < total ==> #[trigger] shuffled_indices@[x] == indices@[sp_shuffled(*seed, context.shuffle_round_count as int, x, total as int)],
@ loopstart 0
proof { axiom_rounds(round); lemma_shuffled_range(*seed, 0, context.shuffle_round_count as int, round as int % total as int, total as int); }
@ loop 1
invariant hash_input@.len() == 40, hash_input@.subrange(0, 32) == b32(*seed), sp_none_before(state@, indices@, *seed, round as int, *context), total == indices@.len(), total > 0,
@ loopstart 1
proof { axiom_rounds(round); lemma_shuffled_range(*seed, 0, context.shuffle_round_count as int, round as int % total as int, total as int); }
@@fn get_beacon_proposer_index
requires wf_ctx(*context), wf_len(state@), wf_eff(state@.validators)
ensures r is Ok <==> sp_active_indices(state@, sp_cur(state@, *context)).len() > 0, r matches Ok(x) ==> is_proposer(state@, *context, x) && x == sp_proposer(state@, *context) && x < state@.validators.len()
@ start
proof {
    lemma_epoch_bound(state@.slot as int, *context); lemma_ind_ok(state@, sp_cur(state@, *context));
    assert forall|x: usize| is_proposer(state@, *context, x) implies x == sp_proposer(state@, *context) by { lemma_first_unique(state@, sp_active_indices(state@, sp_cur(state@, *context)), sp_proposer_seed(state@, *context), *context, x, sp_proposer(state@, *context)); }
}
@ let seed 0
proof { assert(input@ =~= b32(sp_seed(state@, sp_cur(state@, *context), DomainType::BeaconProposer, *context)) + u64_le(state@.slot)); }
@@fn get_next_sync_committee_indices forks=altair+ noterm=1
requires wf_ctx(*context), wf_len(state@), wf_eff(state@.validators), sp_active_indices(state@, sp_cur(state@, *context) + 1).len() > 0
ensures r is Ok, r matches Ok(v) ==> v@.len() == context.sync_committee_size && ind_in(v@, state@.validators.len() as int) && exists|k: int| k >= 0 && v@ == #[trigger] sp_sync_accepted(state@, k, *context)
@ start
proof { lemma_epoch_bound(state@.slot as int, *context); lemma_ind_ok(state@, sp_cur(state@, *context) + 1); assert(sp_accepted(state@, sp_active_indices(state@, sp_cur(state@, *context) + 1), sp_sync_seed(state@, *context), 0, *context) =~= Seq::<usize>::empty()); }
@ loop 0
invariant hash_input@.len() == 40, hash_input@.subrange(0, 32) == b32(seed), sync_committee_indices@ == sp_sync_accepted(state@, i as int, *context), sync_committee_indices@.len() <= context.sync_committee_size,
    ind_in(sync_committee_indices@, state@.validators.len() as int), active_validator_count == active_validator_indices@.len(),
@ loopstart 0
let ghost i0 = i as int;
proof { axiom_rounds(i); lemma_shuffled_range(seed, 0, context.shuffle_round_count as int, i as int % active_validator_count as int, active_validator_count as int); }
@ let random_byte 0
proof { assert(hash_input@ =~= b32(seed) + u64_le((i0 / 32) as u64)); assert(hash_input@.subrange(0, 32) =~= b32(seed)); }
@ let effective_balance 0
proof { assert(random_byte <= 255); assert(context.max_effective_balance * random_byte <= 0x100_0000_0000 * 255) by (nonlinear_arith) requires random_byte <= 255, context.max_effective_balance <= 0x100_0000_0000; }
@@spec forks=altair+
pub open spec fn sp_sync_seed(s: StateV, c: Context) -> Bytes32 { sp_seed(s, sp_cur(s, c) + 1, DomainType::SyncCommittee, c) }
pub open spec fn sp_sync_accepted(s: StateV, k: int, c: Context) -> Seq<usize> { sp_accepted(s, sp_active_indices(s, sp_cur(s, c) + 1), sp_sync_seed(s, c), k, c) }
@@vspec
pub open spec fn ind_in(ind: Seq<usize>, n: int) -> bool { forall|i: int| 0 <= i < ind.len() ==> (#[trigger] ind[i]) < n }
@@rust
/// the first accepted candidate, with a bound on the number of rounds
pub fn first_accepted(s: StateV, ind: Seq<usize>, seed: Bytes32, c: Context) -> Option<usize> {
    for k in 0..20000 { if sp_round_accepts(s, ind, seed, k, c) { return Some(sp_candidate(ind, seed, k, c)); } }
    None
}
pub fn sp_proposer(s: StateV, c: Context) -> usize { first_accepted(s, sp_active_indices(s, sp_cur(s, c)), sp_proposer_seed(s, c), c).expect("a proposer") }
/// only the parts of the state sampling looks at
pub fn gen_sample_state(g: &mut G, c: &RealCtx) -> RealBeaconState {
    let mut st = gen_state(g, c); let e = epoch_of(&st, c);
    // one that will be accepted
    let i = g.idx(st.validators.len()); let v = &mut st.validators[i]; v.activation_epoch = 0; v.exit_epoch = u64::MAX; v.effective_balance = c.max_effective_balance; st
}
@@test committees props=C04 n=60
let c = gen_ctx(g); let mut st = gen_sample_state(g, &c);
if g.chance(40) { let n = g.pick(&[64usize, 100, 150]); st = gen_state_n(g, &c, n); for i in 0..n { if g.chance(90) { let v = &mut st.validators[i]; v.activation_epoch = 0; v.exit_epoch = u64::MAX; } } }
let s = st.cv(); let cc = c.cv(); let e = (epoch_of(&st, &c) + g.below(3)).saturating_sub(1);
let n = sp_committee_count(s, e as int, cc);
eqv!(sp::get_committee_count_per_slot(&st, e, &c) as int, n, "get_committee_count_per_slot({e})");
let slot = e * c.slots_per_epoch + g.below(c.slots_per_epoch); let i = g.below(n as u64) as usize;
eqv!(sp::get_beacon_committee(&st, slot, i, &c).map(|x| x.cv()).ok(), Some(sp_beacon_committee(s, slot as int, i as int, cc)), "get_beacon_committee({slot}, {i})");
let ind: Vec<usize> = (0..g.idx(40) + 1).map(|x| x + 5).collect(); let cnt = g.range(1, 9); let k = g.below(cnt); let seed = g.b32();
eqv!(sp::compute_committee(&ind, &seed, k as usize, cnt as usize, &c).map(|x| x.cv()).ok(), Some(sp_committee(ind.cv(), seed.cv(), k as int, cnt as int, cc)), "compute_committee of {} indices, {k} of {cnt}", ind.len());
@@test proposer props=C04 n=60
let mut c = gen_ctx(g); c.shuffle_round_count = g.pick(&[3, 10]); let st = gen_sample_state(g, &c); let s = st.cv(); let cc = c.cv(); let e = epoch_of(&st, &c);
eqv!(sp::get_beacon_proposer_index(&st, &c).ok(), first_accepted(s, sp_active_indices(s, e as int), sp_proposer_seed(s, cc), cc), "get_beacon_proposer_index at slot {}", st.slot);
let seed = g.b32();
// few candidates with low balances: many rounds
let ind: Vec<usize> = (0..st.validators.len()).filter(|_| g.chance(50)).collect();
if ind.iter().any(|i| st.validators[*i].effective_balance >= 2 * GWEI) {
    eqv!(sp::compute_proposer_index(&st, &ind, &seed, &c).ok(), first_accepted(s, ind.cv(), seed.cv(), cc), "compute_proposer_index({ind:?}, {seed:?})"); }
chk!(sp::compute_proposer_index(&st, &[], &seed, &c).is_err(), "compute_proposer_index accepted an empty set");
@@test sync_sample props=C04 forks=altair+ n=25
let mut c = gen_ctx(g); c.shuffle_round_count = g.pick(&[3, 10]); let mut st = gen_sample_state(g, &c); let e = epoch_of(&st, &c); 
let s = st.cv(); let cc = c.cv();
let ind = sp_active_indices(s, e as int + 1); let seed = sp_sync_seed(s, cc);
let r = sp::get_next_sync_committee_indices(&st, &c).map(|x| x.cv()).ok();
let mut want = vec![]; let mut k = 0; while want.len() < c.sync_committee_size { if sp_round_accepts(s, ind, seed, k, cc) { want.push(sp_candidate(ind, seed, k, cc)); } k += 1; }
eqv!(r, Some(want.cv()), "get_next_sync_committee_indices at slot {}", st.slot);
