@@spec forks=altair+
// ---- sync committees ----
pub open spec fn sp_next_keys(s: StateV, c: Context) -> Seq<BlsPublicKey> { sp_keys(s.validators, sp_next_indices(s, c)) }
pub open spec fn sp_next_committee(s: StateV, c: Context) -> SyncCommittee { SyncCommittee { public_keys: vec_of(sp_next_keys(s, c)), aggregate_public_key: agg_key(sp_next_keys(s, c)) } }
// a new period starts with the next epoch
pub open spec fn sp_sync_period_ends(s: StateV, c: Context) -> bool { (sp_cur(s, c) + 1) % (c.epochs_per_sync_committee_period as int) == 0 }
pub open spec fn sp_sync_updates(s: StateV, c: Context) -> StateV {
    if sp_sync_period_ends(s, c) { StateV { current_sync_committee: s.next_sync_committee, next_sync_committee: sp_next_committee(s, c), ..s } } else { s }
}
// the last validator with a public key, or -1
pub open spec fn sp_key_index(vs: Seq<Validator>, k: BlsPublicKey, n: int) -> int
    decreases n
{
    if n <= 0 { -1 } else { if vs[n - 1].public_key == k { n - 1 } else { sp_key_index(vs, k, n - 1) } }
}
pub open spec fn sp_participants(keys: Seq<BlsPublicKey>, bits: Seq<bool>, n: int) -> Seq<BlsPublicKey>
    decreases n
{
    if n <= 0 { Seq::empty() } else { if bits[n - 1] { sp_participants(keys, bits, n - 1).push(keys[n - 1]) } else { sp_participants(keys, bits, n - 1) } }
}
pub open spec fn sp_sync_prev_slot(s: StateV) -> int { vmax(s.slot as int, 1) - 1 }
pub open spec fn sp_sync_message(s: StateV, c: Context) -> Seq<u8> {
    sp_signing_root(htr(sp_block_root_at(s, sp_sync_prev_slot(s))), sp_state_domain(s, DomainType::SyncCommittee, sp_epoch_at(sp_sync_prev_slot(s), c)))
}
pub open spec fn sp_sync_valid(s: StateV, a: SyncAggregate, c: Context) -> bool {
    sp_in_window(s, sp_sync_prev_slot(s)) && eth_agg_valid(sp_participants(s.current_sync_committee.public_keys@, a.sync_committee_bits@, cg_SYNC_COMMITTEE_SIZE as int), sp_sync_message(s, c), a.sync_committee_signature)
}
pub open spec fn sp_sync_reward(s: StateV, c: Context) -> int {
    sp_base_per_inc(s, c) * (sp_total_active_balance(s, c) / (c.effective_balance_increment as int)) * (SYNC_REWARD_WEIGHT as int) / (WEIGHT_DENOMINATOR as int) / (c.slots_per_epoch as int) / (c.sync_committee_size as int)
}
pub open spec fn sp_sync_proposer_reward(s: StateV, c: Context) -> int { sp_sync_reward(s, c) * (PROPOSER_WEIGHT as int) / (WEIGHT_DENOMINATOR as int - PROPOSER_WEIGHT as int) }
// the first n members rewarded or penalised, the proposer rewarded along
pub open spec fn sp_sync_paid(s: StateV, bits: Seq<bool>, p: int, n: int, c: Context) -> StateV
    decreases n
{
    if n <= 0 { s } else {
        let t = sp_sync_paid(s, bits, p, n - 1, c);
        let i = sp_key_index(s.validators, s.current_sync_committee.public_keys@[n - 1], s.validators.len() as int);
        if bits[n - 1] { sp_increase_balance(sp_increase_balance(t, i, sp_sync_reward(s, c)), p, sp_sync_proposer_reward(s, c)) } else { sp_decrease_balance(t, i, sp_sync_reward(s, c)) }
    }
}
pub open spec fn sp_sync_aggregate(s: StateV, a: SyncAggregate, c: Context) -> StateV { sp_sync_paid(s, a.sync_committee_bits@, sp_proposer(s, c) as int, cg_SYNC_COMMITTEE_SIZE as int, c) }
@@vspec forks=altair+
pub open spec fn sync_ctx(c: Context) -> bool { c.sync_committee_size == cg_SYNC_COMMITTEE_SIZE && 32 <= cg_SYNC_COMMITTEE_SIZE <= 0x400 && 8 <= c.slots_per_epoch && 0 < c.epochs_per_sync_committee_period }
pub open spec fn is_next_indices(s: StateV, c: Context, v: Seq<usize>) -> bool { v.len() == c.sync_committee_size && exists|k: int| k >= 0 && v == #[trigger] sp_sync_accepted(s, k, c) }
pub open spec fn sp_next_indices(s: StateV, c: Context) -> Seq<usize> { choose|v: Seq<usize>| is_next_indices(s, c, v) }
pub proof fn lemma_accepted_prefix(s: StateV, k: int, m: int, c: Context)
    requires 0 <= k <= m
    ensures sp_sync_accepted(s, k, c).len() <= sp_sync_accepted(s, m, c).len(), sp_sync_accepted(s, m, c).take(sp_sync_accepted(s, k, c).len() as int) == sp_sync_accepted(s, k, c)
    decreases m
{
    let a = sp_sync_accepted(s, k, c); let b = sp_sync_accepted(s, m, c);
    if k < m { lemma_accepted_prefix(s, k, m - 1, c); let d = sp_sync_accepted(s, m - 1, c); assert(b.take(a.len() as int) =~= d.take(a.len() as int)); } else { assert(b.take(a.len() as int) =~= a); }
}
pub proof fn lemma_next_unique(s: StateV, c: Context, v: Seq<usize>)
    requires is_next_indices(s, c, v)
    ensures v == sp_next_indices(s, c)
{
    let w = sp_next_indices(s, c); assert(is_next_indices(s, c, w));
    let k = choose|k: int| k >= 0 && v == #[trigger] sp_sync_accepted(s, k, c); let m = choose|m: int| m >= 0 && w == #[trigger] sp_sync_accepted(s, m, c);
    if k <= m { lemma_accepted_prefix(s, k, m, c); assert(w.take(w.len() as int) =~= w); } else { lemma_accepted_prefix(s, m, k, c); assert(v.take(v.len() as int) =~= v); }
}
pub open spec fn sampling_ok(s: StateV, c: Context) -> bool { sp_active_indices(s, sp_cur(s, c) + 1).len() > 0 }
// the keys of the committee are those of validators of the state
pub open spec fn sync_known(s: StateV) -> bool { forall|j: int| 0 <= j < s.current_sync_committee.public_keys@.len() ==> sp_key_index(s.validators, #[trigger] s.current_sync_committee.public_keys@[j], s.validators.len() as int) >= 0 }
pub proof fn lemma_key_index(vs: Seq<Validator>, k: BlsPublicKey, n: int)
    requires 0 <= n <= vs.len()
    ensures -1 <= sp_key_index(vs, k, n) < n, sp_key_index(vs, k, n) >= 0 ==> vs[sp_key_index(vs, k, n)].public_key == k,
        forall|j: int| sp_key_index(vs, k, n) < j < n ==> (#[trigger] vs[j]).public_key != k
    decreases n
{ if n > 0 { lemma_key_index(vs, k, n - 1); } }
pub proof fn lemma_key_at(vs: Seq<Validator>, k: BlsPublicKey, i: int, n: int)
    requires 0 <= i < n <= vs.len(), vs[i].public_key == k, forall|j: int| i < j < n ==> (#[trigger] vs[j]).public_key != k
    ensures sp_key_index(vs, k, n) == i
{ lemma_key_index(vs, k, n); let r = sp_key_index(vs, k, n); if r < i { assert(vs[i].public_key != k); } else if r > i { assert(vs[r].public_key != k); } }
pub proof fn lemma_sync_reward(s: StateV, c: Context)
    requires wf_ctx(c), sync_ctx(c), wf_eff(s.validators)
    ensures 0 <= sp_base_per_inc(s, c) * (sp_total_active_balance(s, c) / (c.effective_balance_increment as int)) <= 0x400_0000_0000,
        0 <= sp_sync_reward(s, c) <= 0x2000_0000, 0 <= sp_sync_proposer_reward(s, c) <= 0x800_0000,
{
    let t = sp_total_active_balance(s, c); let inc = c.effective_balance_increment as int; let f = c.base_reward_factor as int; let q = isqrt(t); let a = inc * f;
    lemma_active_bal_le(s.validators, sp_cur(s, c), s.validators.len() as int); axiom_isqrt(t); lemma_isqrt_pos(s, c);
    let b = a / q; let k = t / inc;
    assert(b >= 0 && b * q <= a) by (nonlinear_arith) requires b == a / q, q > 0, a >= 0;
    assert(a >= 0) by (nonlinear_arith) requires a == inc * f, inc > 0, f >= 0;
    assert(k >= 0 && k * inc <= t) by (nonlinear_arith) requires k == t / inc, inc > 0, t >= 0;
    assert(b * k >= 0) by (nonlinear_arith) requires b >= 0, k >= 0;
    assert((b * q) * (k * inc) <= a * t) by (nonlinear_arith) requires 0 <= b * q <= a, 0 <= k * inc <= t;
    assert((b * k * q) * inc <= (f * t) * inc) by (nonlinear_arith) requires (b * q) * (k * inc) <= a * t, a == inc * f;
    assert(b * k * q <= f * t) by (nonlinear_arith) requires (b * k * q) * inc <= (f * t) * inc, inc > 0;
    assert(t <= q * q + 2 * q) by (nonlinear_arith) requires t < (q + 1) * (q + 1);
    assert(q < 0x8000_0000) by (nonlinear_arith) requires q * q <= t, t < 0x2000_0000_0000_0000, q >= 0;
    assert(f * t <= f * (q * q + 2 * q)) by (nonlinear_arith) requires t <= q * q + 2 * q, f >= 0;
    assert(f * (q * q + 2 * q) == (f * (q + 2)) * q) by (nonlinear_arith);
    assert(b * k <= f * (q + 2)) by (nonlinear_arith) requires (b * k) * q <= (f * (q + 2)) * q, q > 0;
    assert(f * (q + 2) <= 0x400 * 0x8000_0002) by (nonlinear_arith) requires 0 <= f <= 0x400, 0 <= q < 0x8000_0000;
    let x = b * k; let y = x * (SYNC_REWARD_WEIGHT as int) / (WEIGHT_DENOMINATOR as int);
    let z = y / (c.slots_per_epoch as int);
    assert(0 <= z && z * c.slots_per_epoch <= y) by (nonlinear_arith) requires z == y / (c.slots_per_epoch as int), 0 <= y, c.slots_per_epoch >= 8;
    assert(z * 8 <= z * c.slots_per_epoch) by (nonlinear_arith) requires z >= 0, c.slots_per_epoch >= 8;
    let w = z / (c.sync_committee_size as int);
    assert(0 <= w && w * c.sync_committee_size <= z) by (nonlinear_arith) requires w == z / (c.sync_committee_size as int), 0 <= z, c.sync_committee_size >= 32;
    assert(w * 32 <= w * c.sync_committee_size) by (nonlinear_arith) requires w >= 0, c.sync_committee_size >= 32;
}
// a state that differs in balances only has the same proposer
pub proof fn lemma_sync_paid(s: StateV, bits: Seq<bool>, p: int, n: int, c: Context)
    requires wf_ctx(c), sync_ctx(c), wf_eff(s.validators), wf_len(s), sync_known(s), forall|j: int| 0 <= j < n && #[trigger] bits[j] ==> 0 <= p < s.validators.len(), 0 <= n <= s.current_sync_committee.public_keys@.len(), n <= 0x400, wf_balk(s, kmax() - 256)
    ensures ({ let t = sp_sync_paid(s, bits, p, n, c); t == (StateV { balances: t.balances, ..s }) && t.balances.len() == s.balances.len() && forall|i: int| 0 <= i < t.balances.len() ==> (#[trigger] t.balances[i]) < lv(kmax() - 256) + n * 0x4000_0000 })
    decreases n
{
    lemma_lv(kmax() - 256);
    if n > 0 {
        lemma_sync_paid(s, bits, p, n - 1, c); lemma_sync_reward(s, c);
        let t = sp_sync_paid(s, bits, p, n - 1, c); let k = s.current_sync_committee.public_keys@[n - 1];
        lemma_key_index(s.validators, k, s.validators.len() as int);
        assert((n - 1) * 0x4000_0000 + 0x4000_0000 == n * 0x4000_0000 && n * 0x4000_0000 <= 0x400 * 0x4000_0000) by (nonlinear_arith) requires 0 < n <= 0x400;
        let u = sp_sync_paid(s, bits, p, n, c); let r = sp_sync_reward(s, c); let pr = sp_sync_proposer_reward(s, c); let i = sp_key_index(s.validators, k, s.validators.len() as int);
        assert(0 <= i < t.balances.len());
        assert forall|x: int| 0 <= x < u.balances.len() implies (#[trigger] u.balances[x]) < lv(kmax() - 256) + n * 0x4000_0000 by {
            if bits[n - 1] { let m = sp_increase_balance(t, i, r); assert(m.balances[x] <= t.balances[x] + r); }
        }
    }
}
@@fn get_next_sync_committee forks=altair+
requires wf_ctx(*context), sync_ctx(*context), wf_len(state@), wf_eff(state@.validators), sampling_ok(state@, *context)
ensures r is Ok <==> agg_key_ok(sp_next_keys(state@, *context)), r matches Ok(x) ==> x == sp_next_committee(state@, *context)
@ let indices 0
proof { lemma_next_unique(state@, *context, indices@); }
@ loop 0
invariant ind_in(indices@, state@.validators.len() as int), __acc0@ =~= sp_keys(state@.validators, indices@.take(__i0 as int)),
@ after 0
proof { assert(indices@.take(__i0 as int) =~= indices@); }
@@fn process_sync_committee_updates forks=altair+
requires wf_ctx(*context), sync_ctx(*context), wf_len(old(state)@), wf_eff(old(state)@.validators), sampling_ok(old(state)@, *context)
ensures r is Ok <==> sp_sync_period_ends(old(state)@, *context) ==> agg_key_ok(sp_next_keys(old(state)@, *context)), r is Ok ==> final(state)@ == sp_sync_updates(old(state)@, *context), r is Err ==> final(state)@ == old(state)@
@ start
proof { lemma_epoch_bound(state@.slot as int, *context); }
@@fn process_sync_aggregate forks=altair+
requires wf_ctx(*context), sync_ctx(*context), wf_ops(old(state)@, *context, kmax() - 256), has_active(old(state)@, *context), sync_known(old(state)@), kf_slot0() ==> old(state)@.slot > 0,
    old(state)@.current_sync_committee.public_keys@.len() == cg_SYNC_COMMITTEE_SIZE, sync_aggregate.sync_committee_bits@.len() == cg_SYNC_COMMITTEE_SIZE
ensures r is Ok <==> sp_sync_valid(old(state)@, *sync_aggregate, *context), r is Ok ==> final(state)@ == sp_sync_aggregate(old(state)@, *sync_aggregate, *context), r is Err ==> final(state)@ == old(state)@
@ start
let ghost s0 = state@; let ghost bits = sync_aggregate.sync_committee_bits@; let ghost keys = s0.current_sync_committee.public_keys@; let ghost p0 = sp_proposer(s0, *context);
proof { lemma_wf_weak(s0, *context, kmax() - 256); lemma_lv(kmax() - 256); lemma_sync_reward(s0, *context); lemma_epoch_bound(s0.slot as int, *context); lemma_epoch_bound2(sp_sync_prev_slot(s0), *context); }
@ loop 0
invariant keyrefs(&__acc0) =~= sp_participants(keys, bits, __i0 as int), __i0 <= __n0, __n0 == cg_SYNC_COMMITTEE_SIZE, committee_public_keys@ == keys, keys.len() == cg_SYNC_COMMITTEE_SIZE, bits.len() == keys.len(), bits == sync_aggregate.sync_committee_bits@,
@ loop 1
invariant state@ == s0, pairs_are(&__acc1, s0.validators, __i1 as int),
@ loop 2
invariant state@ == s0, pairs_are(&all_public_keys.e, s0.validators, s0.validators.len() as int), sync_known(s0), committee_indices@.len() == __i2,
    forall|j: int| 0 <= j < __i2 ==> (#[trigger] committee_indices@[j]) as int == sp_key_index(s0.validators, keys[j], s0.validators.len() as int),
@ loopstart 2
proof {
    let k = keys[__i2 as int]; lemma_key_index(s0.validators, k, s0.validators.len() as int);
    assert forall|i: int| #[trigger] vmap_at(all_public_keys.e@, k, i) implies i == sp_key_index(s0.validators, k, s0.validators.len() as int) by {
        assert forall|j: int| i < j < s0.validators.len() implies (#[trigger] s0.validators[j]).public_key != k by { assert(*all_public_keys.e@[j].0 == s0.validators[j].public_key); }
        lemma_key_at(s0.validators, k, i, s0.validators.len() as int);
    }
    let q = sp_key_index(s0.validators, k, s0.validators.len() as int); assert(*all_public_keys.e@[q].0 == k);
}
@ loop 3
invariant state@ == sp_sync_paid(s0, bits, p0 as int, __i3 as int, *context), __i3 <= __n3, forall|j: int| 0 <= j < __i3 && #[trigger] bits[j] ==> 0 <= p0 < s0.validators.len(),
@ loopstart 3
proof {
    lemma_sync_paid(s0, bits, p0 as int, __i3 as int, *context);
    assert forall|x: usize| is_proposer(sp_increase_balance(state@, sp_key_index(s0.validators, keys[__i3 as int], s0.validators.len() as int), sp_sync_reward(s0, *context)), *context, x) implies x == p0 by { lemma_proposer_same(s0, sp_increase_balance(state@, sp_key_index(s0.validators, keys[__i3 as int], s0.validators.len() as int), sp_sync_reward(s0, *context)), *context, x); }
    lemma_key_index(s0.validators, keys[__i3 as int], s0.validators.len() as int);
}
@@vspec forks=altair+
pub open spec fn pairs_are(v: &Vec<(&BlsPublicKey, usize)>, vs: Seq<Validator>, n: int) -> bool { v@.len() == n && forall|j: int| 0 <= j < n ==> *(#[trigger] v@[j]).0 == vs[j].public_key && v@[j].1 as int == j }
@@rust forks=altair+
pub fn sp_next_indices(s: StateV, c: Context) -> Seq<usize> {
    let ind = sp_active_indices(s, sp_cur(s, c) + 1); let seed = sp_sync_seed(s, c); let mut want = vec![]; let mut k = 0;
    while want.len() < c.sync_committee_size as usize { if sp_round_accepts(s, ind, seed, k, c) { want.push(sp_candidate(ind, seed, k, c)); } k += 1; }
    want.cv()
}
/// validators with real keys, and sync committees drawn from them
pub fn gen_sync_state(g: &mut G, c: &RealCtx) -> RealBeaconState {
    let mut st = gen_sample_state(g, c); let n = st.validators.len();
    for i in 0..n { st.validators[i].public_key = key(i).pk; }
    if g.chance(70) { for i in 0..n { if g.chance(90) { let v = &mut st.validators[i]; v.activation_epoch = 0; v.exit_epoch = u64::MAX; v.effective_balance = c.max_effective_balance; } } }
    for i in 0..st.current_sync_committee.public_keys.len() { st.current_sync_committee.public_keys[i] = key(g.idx(n)).pk; }
    st
}
pub fn gen_sync_aggregate(g: &mut G, st: &RealBeaconState, c: &RealCtx) -> RealSyncAggregate {
    let s = st.cv(); let mut a = sp::SyncAggregate::default(); let p = g.pick(&[0u64, 10, 50, 90, 100]);
    for i in 0..st.current_sync_committee.public_keys.len() { if g.chance(p) && st.validators.iter().any(|v| v.public_key == st.current_sync_committee.public_keys[i]) { a.sync_committee_bits.set(i, true); } }
    if !sp_in_window(s, sp_sync_prev_slot(s)) { return a; }
    let m = sp_sync_message(s, c.cv());
    let mut sigs = vec![]; let skip = if g.chance(10) { g.idx(32) } else { 99 };
    for (i, k) in st.current_sync_committee.public_keys.iter().enumerate() { if a.sync_committee_bits[i] && i != skip { let v = st.validators.iter().position(|v| v.public_key == *k).unwrap(); sigs.push(key(v).sk.sign(m.0)); } }
    a.sync_committee_signature = if g.chance(8) { bad_sig(g) } else if sigs.is_empty() { let mut x = ec::primitives::BlsSignature::default(); x[0] = 0xc0; x } else { ec::crypto::aggregate(&sigs).unwrap() };
    a
}
@@test sync_updates props=C22 forks=altair+ n=25
let mut c = gen_ctx(g); c.shuffle_round_count = 3; c.epochs_per_sync_committee_period = g.pick(&[1, 2, 8]); let mut st = gen_sync_state(g, &c); let cc = c.cv(); let s = st.cv();
let r = sp::process_sync_committee_updates(&mut st, &c);
chk!(r.is_ok(), "process_sync_committee_updates: {:?}", r.err());
seq_st!(st, sp_sync_updates(s, cc), "process_sync_committee_updates at epoch {} with periods of {} epochs", epoch_of(&st, &c), c.epochs_per_sync_committee_period);
@@test sync_aggregate props=C22 forks=altair+ n=25
let mut c = gen_ctx(g); c.shuffle_round_count = 3; let mut st = gen_sync_state(g, &c); if kf_slot0() && st.slot == 0 { st.slot = 1; } let cc = c.cv(); let s = st.cv();
let a = gen_sync_aggregate(g, &st, &c);
let ok = sp_sync_valid(s, a.cv(), cc);
let r = sp::process_sync_aggregate(&mut st, &a, &c).is_ok();
g.note("sync aggregate", ok); eqv!(r, ok, "process_sync_aggregate of {:?} at slot {}", a, st.slot);
seq_st!(st, if ok { sp_sync_aggregate(s, a.cv(), cc) } else { s }, "process_sync_aggregate of {:?} at slot {}", a.sync_committee_bits, st.slot);
