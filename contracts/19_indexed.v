@@spec
// strictly increasing on the first n positions
pub open spec fn sp_increasing(q: Seq<usize>, n: int) -> bool
    decreases n
{
    if n <= 1 { true } else { sp_increasing(q, n - 1) && q[n - 2] < q[n - 1] }
}
pub open spec fn sp_all_known(q: Seq<usize>, len: int, n: int) -> bool
    decreases n
{
    if n <= 0 { true } else { sp_all_known(q, len, n - 1) && (q[n - 1] as int) < len }
}
pub open spec fn sp_keys(vs: Seq<Validator>, q: Seq<usize>) -> Seq<BlsPublicKey> { Seq::new(q.len() as nat, |k: int| vs[q[k] as int].public_key) }
pub open spec fn sp_signed_by(s: StateV, q: Seq<usize>, d: AttestationData, sig: BlsSignature, c: Context) -> bool {
    q.len() > 0 && sp_increasing(q, q.len() as int) && sp_all_known(q, s.validators.len() as int, q.len() as int)
    && agg_valid(sp_keys(s.validators, q), sp_signing_root(htr(d), sp_state_domain(s, DomainType::BeaconAttester, d.target.epoch as int)), sig)
}
pub open spec fn sp_indexed_valid(s: StateV, a: IndexedAttestation, c: Context) -> bool { sp_signed_by(s, a.attesting_indices@, a.data, a.signature, c) }
@@vspec
pub proof fn lemma_increasing(q: Seq<usize>, n: int, k: int)
    requires 0 <= k <= n <= q.len()
    ensures sp_increasing(q, n) ==> sp_increasing(q, k)
    decreases n
{
    if k < n { lemma_increasing(q, n - 1, k); }
}
pub proof fn lemma_increasing_all(q: Seq<usize>, n: int)
    requires 0 <= n <= q.len()
    ensures sp_increasing(q, n) <==> (forall|i: int, j: int| 0 <= i < j < n ==> q[i] < q[j])
    decreases n
{
    if n > 1 {
        lemma_increasing_all(q, n - 1);
        assert(sp_increasing(q, n) ==> forall|i: int, j: int| 0 <= i < j < n ==> q[i] < q[j]) by {
            if sp_increasing(q, n) { assert forall|i: int, j: int| 0 <= i < j < n implies q[i] < q[j] by { if j == n - 1 { if i < n - 2 { assert(q[i] < q[n - 2]); } } } }
        }
    }
}
pub proof fn lemma_known(q: Seq<usize>, len: int, n: int)
    requires 0 <= n <= q.len()
    ensures sp_all_known(q, len, n) <==> (forall|i: int| 0 <= i < n ==> (#[trigger] q[i]) < len)
    decreases n
{
    if n > 0 { lemma_known(q, len, n - 1); }
}
pub open spec fn keyrefs(v: &Vec<&BlsPublicKey>) -> Seq<BlsPublicKey> { v.vks() }
@@fn is_valid_indexed_attestation
requires wf_ctx(*context), state@.validators.len() <= usize::MAX
ensures r is Ok <==> sp_indexed_valid(state@, *indexed_attestation, *context)
@ start
proof { lemma_known(indexed_attestation.attesting_indices@, state@.validators.len() as int, indexed_attestation.attesting_indices@.len() as int); }
@ loop 0
invariant __i0 + 1 <= attesting_indices@.len(), __s0@ == attesting_indices@.subrange(1, attesting_indices@.len() as int), prev == attesting_indices@[__i0 as int], duplicates@.len() == 0 ==> duplicates@ =~= Set::<usize>::empty(), duplicates@.finite(),
    (duplicates@.len() == 0) <==> sp_increasing(attesting_indices@, __i0 + 1),
@ loopstart 0
proof { lemma_increasing(attesting_indices@, attesting_indices@.len() as int, __i0 + 2); }
@ loop 1
invariant __s1@ =~= attesting_indices@, keyrefs(&public_keys).len() == __i1, forall|k: int| 0 <= k < __i1 ==> (#[trigger] attesting_indices@[k]) < state@.validators.len(),
    forall|k: int| 0 <= k < __i1 ==> (#[trigger] keyrefs(&public_keys)[k]) == state@.validators[attesting_indices@[k] as int].public_key,
@ loopstart 1
let ghost ks = keyrefs(&public_keys);
@ loopend 1
proof { assert(keyrefs(&public_keys) =~= ks.push(state@.validators[__s1@[__c1 as int] as int].public_key)); }
@ tail
proof { assert(public_keys.vks() =~= sp_keys(state@.validators, attesting_indices@)); }
@@spec
pub open spec fn sp_att_len_ok(committee: Seq<usize>, bits: Seq<bool>) -> bool { bits.len() == committee.len() }
// `base` and the members of the committee whose bit (counted from position `off`) is set
pub open spec fn sp_attesters(committee: Seq<usize>, bits: Seq<bool>, off: int, base: Set<usize>, n: int) -> Set<usize>
    decreases n
{
    if n <= 0 { base } else if bits[off + n - 1] { sp_attesters(committee, bits, off, base, n - 1).insert(committee[n - 1]) } else { sp_attesters(committee, bits, off, base, n - 1) }
}
@@spec forks=..deneb
pub open spec fn sp_attesting(s: StateV, d: AttestationData, bits: Seq<bool>, c: Context) -> Set<usize> {
    sp_attesters(sp_beacon_committee(s, d.slot as int, d.index as int, c), bits, 0, Set::empty(), bits.len() as int)
}
pub open spec fn sp_bits_ok(s: StateV, d: AttestationData, bits: Seq<bool>, c: Context) -> bool { bits.len() == sp_beacon_committee(s, d.slot as int, d.index as int, c).len() }
@@vspec
pub open spec fn slot_ok(x: int) -> bool { 0 <= x < 0x200_0000_0000_0000 }
pub proof fn lemma_attesters(committee: Seq<usize>, bits: Seq<bool>, off: int, base: Set<usize>, n: int)
    requires 0 <= n <= committee.len(), base.finite(), 0 <= off, off + n <= bits.len()
    ensures sp_attesters(committee, bits, off, base, n).finite(), sp_attesters(committee, bits, off, base, n).len() <= base.len() + n,
        forall|x: usize| #[trigger] sp_attesters(committee, bits, off, base, n).contains(x) ==> base.contains(x) || committee.contains(x),
    decreases n
{
    if n > 0 { lemma_attesters(committee, bits, off, base, n - 1); }
}
@@vspec forks=..deneb
pub open spec fn att_ok(s: StateV, d: AttestationData, c: Context) -> bool { slot_ok(d.slot as int) && d.index < sp_committee_count(s, sp_epoch_at(d.slot as int, c), c) }
@@fn get_attesting_indices forks=..deneb
requires wf_ctx(*context), wf_len(state@), att_ok(state@, *data, *context)
ensures r is Ok <==> sp_bits_ok(state@, *data, bits@, *context), r matches Ok(v) ==> v@ == sp_attesting(state@, *data, bits@, *context)
@ loop 0
invariant indices@ == sp_attesters(committee@, bits@, 0, Set::empty(), __i0 as int), bits@.len() == committee@.len(),
@@fn get_indexed_attestation forks=..deneb
requires wf_ctx(*context), wf_len(state@), att_ok(state@, attestation.data, *context)
ensures r is Ok <==> sp_bits_ok(state@, attestation.data, attestation.aggregation_bits@, *context) && list_fits::<usize>(sp_attesting(state@, attestation.data, attestation.aggregation_bits@, *context).len() as int),
    r matches Ok(x) ==> x.attesting_indices@ == sorted_set(sp_attesting(state@, attestation.data, attestation.aggregation_bits@, *context)) && is_sorted_of(x.attesting_indices@, sp_attesting(state@, attestation.data, attestation.aggregation_bits@, *context)) && x.data == attestation.data && x.signature == attestation.signature
@ loop 0
invariant __acc0@ == __s0@.subrange(0, __i0 as int),
@ after 0
proof { assert(__acc0@ =~= __s0@); }
@ let attesting_indices 0
let ghost q0 = attesting_indices@;
proof { q0.unique_seq_to_set(); assert(q0.to_set() =~= sp_attesting(state@, attestation.data, attestation.aggregation_bits@, *context)); }
@ let attesting_indices 1
proof {
    let s0 = sp_attesting(state@, attestation.data, attestation.aggregation_bits@, *context);
    lemma_sorted_from(q0, attesting_indices@, s0);
}
@@spec forks=electra
pub open spec fn sp_committee_indices(bits: Seq<bool>, n: int) -> Seq<usize>
    decreases n
{
    if n <= 0 { Seq::empty() } else if bits[n - 1] { sp_committee_indices(bits, n - 1).push((n - 1) as usize) } else { sp_committee_indices(bits, n - 1) }
}
// members of the first k of the committees
pub open spec fn sp_offset(s: StateV, slot: int, idx: Seq<usize>, k: int, c: Context) -> int
    decreases k
{
    if k <= 0 { 0 } else { sp_offset(s, slot, idx, k - 1, c) + sp_beacon_committee(s, slot, idx[k - 1] as int, c).len() as int }
}
pub open spec fn sp_attesting_first(s: StateV, slot: int, idx: Seq<usize>, bits: Seq<bool>, k: int, c: Context) -> Set<usize>
    decreases k
{
    if k <= 0 { Set::empty() } else {
        sp_attesters(sp_beacon_committee(s, slot, idx[k - 1] as int, c), bits, sp_offset(s, slot, idx, k - 1, c), sp_attesting_first(s, slot, idx, bits, k - 1, c), sp_beacon_committee(s, slot, idx[k - 1] as int, c).len() as int)
    }
}
pub open spec fn sp_att_committees(a: Attestation) -> Seq<usize> { sp_committee_indices(a.committee_bits@, a.committee_bits@.len() as int) }
pub open spec fn sp_attesting(s: StateV, a: Attestation, c: Context) -> Set<usize> {
    sp_attesting_first(s, a.data.slot as int, sp_att_committees(a), a.aggregation_bits@, sp_att_committees(a).len() as int, c)
}
pub open spec fn sp_att_total(s: StateV, a: Attestation, c: Context) -> int { sp_offset(s, a.data.slot as int, sp_att_committees(a), sp_att_committees(a).len() as int, c) }
@@vspec forks=electra
pub open spec fn att_ok(s: StateV, a: Attestation, c: Context) -> bool {
    &&& slot_ok(a.data.slot as int) && sp_att_total(s, a, c) <= a.aggregation_bits@.len()
    &&& forall|k: int| 0 <= k < sp_att_committees(a).len() ==> (#[trigger] sp_att_committees(a)[k]) < sp_committee_count(s, sp_epoch_at(a.data.slot as int, c), c)
}
pub proof fn lemma_offset_mono(s: StateV, slot: int, idx: Seq<usize>, k: int, n: int, c: Context)
    requires 0 <= k <= n <= idx.len()
    ensures 0 <= sp_offset(s, slot, idx, k, c) <= sp_offset(s, slot, idx, n, c)
    decreases n
{
    if k < n { lemma_offset_mono(s, slot, idx, k, n - 1, c); } else if n > 0 { lemma_offset_mono(s, slot, idx, k - 1, n - 1, c); }
}
pub proof fn lemma_attesting_finite(s: StateV, slot: int, idx: Seq<usize>, bits: Seq<bool>, k: int, c: Context)
    requires 0 <= k <= idx.len(), sp_offset(s, slot, idx, k, c) <= bits.len()
    ensures sp_attesting_first(s, slot, idx, bits, k, c).finite()
    decreases k
{
    if k > 0 {
        lemma_offset_mono(s, slot, idx, k - 1, k, c); lemma_offset_mono(s, slot, idx, 0, k - 1, c);
        lemma_attesting_finite(s, slot, idx, bits, k - 1, c);
        lemma_attesters(sp_beacon_committee(s, slot, idx[k - 1] as int, c), bits, sp_offset(s, slot, idx, k - 1, c), sp_attesting_first(s, slot, idx, bits, k - 1, c), sp_beacon_committee(s, slot, idx[k - 1] as int, c).len() as int);
    }
}
@@fn get_committee_indices forks=electra
ensures r@ == sp_committee_indices(committee_bits@, committee_bits@.len() as int)
@ loop 0
invariant __acc0@ == sp_committee_indices(committee_bits@, __i0 as int),
@@fn get_attesting_indices forks=electra
requires wf_ctx(*context), wf_len(state@), att_ok(state@, *attestation, *context)
ensures r is Ok, r matches Ok(v) ==> v@ == sp_attesting(state@, *attestation, *context)
@ loop 0
invariant committee_indices@ == sp_att_committees(*attestation), committee_offset == sp_offset(state@, attestation.data.slot as int, committee_indices@, __i0 as int, *context),
    indices@ == sp_attesting_first(state@, attestation.data.slot as int, committee_indices@, attestation.aggregation_bits@, __i0 as int, *context),
@ loopstart 0
let ghost base = indices@;
proof { assert(attestation.aggregation_bits.len() == attestation.aggregation_bits@.len()); lemma_offset_mono(state@, attestation.data.slot as int, committee_indices@, __i0 + 1, committee_indices@.len() as int, *context); }
@ loop 1
invariant indices@ == sp_attesters(committee@, attestation.aggregation_bits@, committee_offset as int, base, __i1 as int), committee_offset as int + committee@.len() <= attestation.aggregation_bits.len(),
@@fn get_indexed_attestation forks=electra
requires wf_ctx(*context), wf_len(state@), att_ok(state@, *attestation, *context)
ensures r is Ok <==> list_fits::<usize>(sp_attesting(state@, *attestation, *context).len() as int),
    r matches Ok(x) ==> x.attesting_indices@ == sorted_set(sp_attesting(state@, *attestation, *context)) && is_sorted_of(x.attesting_indices@, sp_attesting(state@, *attestation, *context)) && x.data == attestation.data && x.signature == attestation.signature
@ loop 0
invariant __acc0@ == __s0@.subrange(0, __i0 as int),
@ after 0
proof { assert(__acc0@ =~= __s0@); }
@ let attesting_indices 0
let ghost q0 = attesting_indices@;
proof { q0.unique_seq_to_set(); assert(q0.to_set() =~= sp_attesting(state@, *attestation, *context)); }
@ let attesting_indices 1
proof {
    lemma_attesting_finite(state@, attestation.data.slot as int, sp_att_committees(*attestation), attestation.aggregation_bits@, sp_att_committees(*attestation).len() as int, *context);
    lemma_sorted_from(q0, attesting_indices@, sp_attesting(state@, *attestation, *context));
}
@@vspec
pub proof fn lemma_sorted_from(q0: Seq<usize>, q: Seq<usize>, s: Set<usize>)
    requires s.finite(), q0.no_duplicates(), q.no_duplicates(), forall|x: usize| q0.contains(x) <==> s.contains(x), forall|x: usize| q.contains(x) <==> q0.contains(x),
        forall|i: int, j: int| 0 <= i < j < q.len() ==> q[i] <= q[j],
    ensures is_sorted_of(q, s), sorted_set(s) == q, q.len() == s.len()
{
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies q[i] < q[j] by { assert(q[i] != q[j]); }
    assert forall|i: int| 0 <= i < q.len() implies s.contains(#[trigger] q[i]) by { assert(q.contains(q[i])); }
    lemma_sorted_is(q, s);
    q.unique_seq_to_set(); assert(q.to_set() =~= s);
}

@@rust
/// a state whose validators have the keys of the fixed key pairs
pub fn gen_keyed(g: &mut G, c: &RealCtx, n: usize) -> RealBeaconState { let mut st = gen_state_n(g, c, n); for i in 0..n { st.validators[i].public_key = key(i).pk; } st }
/// the aggregate signature of some validators
pub fn agg_sign(ix: &[usize], msg: Seq<u8>) -> ec::primitives::BlsSignature {
    let sigs: Vec<_> = ix.iter().map(|i| key(*i).sk.sign(msg.0)).collect(); ec::crypto::aggregate(&sigs).unwrap_or_default() }
pub fn bad_sig(g: &mut G) -> ec::primitives::BlsSignature { key(1000 + g.idx(5)).sk.sign(&[g.below(256) as u8]) }
@@test indexed props=C15 n=60
let c = gen_ctx(g); let n = g.idx(12) + 1; let st = gen_keyed(g, &c, n); let s = st.cv(); let cc = c.cv();
let mut a = sp::IndexedAttestation::default();
a.data.target.epoch = g.near(st.fork.epoch); a.data.slot = g.below(40); a.data.index = g.idx(3); a.data.target.root = g.node();
let mut ix: Vec<usize> = (0..n).filter(|_| g.chance(40)).collect();
match g.below(12) { 0 => { ix.push(n); } 1 => { if ix.len() > 1 { let k = g.idx(ix.len() - 1); ix.swap(k, k + 1); } } 2 => { if ix.len() > 0 { let k = g.idx(ix.len()); let x = ix[k]; ix.insert(k, x); } } 3 => { ix.push(usize::MAX); } 4 => { ix.clear(); } _ => {} }
for i in &ix { a.attesting_indices.push(*i); }
let msg = sp_signing_root(htr(a.data.cv()), sp_state_domain(s, DomainType::BeaconAttester, a.data.target.epoch as int));
let mut who: Vec<usize> = ix.clone(); if g.chance(15) && who.len() > 0 { who.pop(); }
a.signature = if g.chance(10) { bad_sig(g) } else { agg_sign(&who, msg) };
eqv!(sp::is_valid_indexed_attestation(&st, &a, &c).is_ok(), sp_indexed_valid(s, a.cv(), cc), "is_valid_indexed_attestation of indices {ix:?} signed by {who:?} with {n} validators");
@@test attesting props=C15 n=60 forks=..deneb
let c = gen_ctx(g); let mut st = gen_sample_state(g, &c); for i in 0..st.validators.len() { if g.chance(80) { st.validators[i].activation_epoch = 0; st.validators[i].exit_epoch = u64::MAX; } } let s = st.cv(); let cc = c.cv();
let mut a = sp::Attestation::default(); a.data.slot = st.slot.saturating_sub(g.below(8));
a.data.index = g.below(sp_committee_count(s, sp_epoch_at(a.data.slot as int, cc), cc) as u64) as usize; a.signature = bad_sig(g);
let len = (sp_beacon_committee(s, a.data.slot as int, a.data.index as int, cc).len() as u64 + if g.chance(15) { 1 } else { 0 }).saturating_sub(if g.chance(10) { 1 } else { 0 });
for _ in 0..len { a.aggregation_bits.push(g.chance(60)); }
let ok = sp_bits_ok(s, a.data.cv(), a.aggregation_bits.cv(), cc); let want = if ok { Some(sp_attesting(s, a.data.cv(), a.aggregation_bits.cv(), cc)) } else { None };
eqv!(sp::get_attesting_indices(&st, &a.data, &a.aggregation_bits, &c).map(|x| x.cv()).ok(), want, "get_attesting_indices of {:?} with bits {:?}", a.data, a.aggregation_bits);
let r = sp::get_indexed_attestation(&st, &a, &c).ok();
eqv!(r.as_ref().map(|x| x.attesting_indices.cv()), want.map(|x| sorted_set(x)), "get_indexed_attestation of {:?}", a.data);
if let Some(x) = r { chk!(x.data == a.data && x.signature == a.signature, "get_indexed_attestation changed the data or signature"); }
@@test attesting props=C15 n=60 forks=electra
let c = gen_ctx(g); let mut st = gen_sample_state(g, &c); for i in 0..st.validators.len() { if g.chance(80) { st.validators[i].activation_epoch = 0; st.validators[i].exit_epoch = u64::MAX; } } let s = st.cv(); let cc = c.cv();
let a = gen_attestation(g, &st, &c); let m = a.cv();
eqv!(sp::get_committee_indices(&a.committee_bits).cv(), sp_att_committees(m), "get_committee_indices({:?})", a.committee_bits);
let want = sp_attesting(s, m, cc);
eqv!(sp::get_attesting_indices(&st, &a, &c).map(|x| x.cv()).ok(), Some(want), "get_attesting_indices of {a:?}");
let r = sp::get_indexed_attestation(&st, &a, &c).ok();
eqv!(r.as_ref().map(|x| x.attesting_indices.cv()), Some(sorted_set(want)), "get_indexed_attestation of {a:?}");
if let Some(x) = r { chk!(x.data == a.data && x.signature == a.signature, "get_indexed_attestation changed the data or signature"); }
@@rust forks=electra
/// an attestation by some committees of a recent slot, with the right number of bits
pub fn gen_attestation(g: &mut G, st: &RealBeaconState, c: &RealCtx) -> RealAttestation {
    let (s, cc) = (st.cv(), c.cv());
    let mut a = sp::Attestation::default(); a.data.slot = st.slot.saturating_sub(g.below(8)); a.signature = bad_sig(g);
    let n = sp_committee_count(s, sp_epoch_at(a.data.slot as int, cc), cc) as u64;
    let mut len = 0;
    for i in 0..n { if g.chance(70) { a.committee_bits.set(i as usize, true); len += sp_beacon_committee(s, a.data.slot as int, i as int, cc).len(); } }
    let p = g.range(0, 100);
    for _ in 0..len { a.aggregation_bits.push(g.chance(p)); }
    a
}
