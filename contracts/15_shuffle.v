@@spec
// bit k of a byte
pub open spec fn sp_bit(b: int, k: int) -> bool
    decreases k
{
    if k <= 0 { b % 2 == 1 } else { sp_bit(b / 2, k - 1) }
}
pub open spec fn sp_pivot(seed: Bytes32, round: int, n: int) -> int {
    (le_u64(b32(sha256(b32(seed) + seq1(round as u8))).subrange(0, 8)) as int) % n
}
pub open spec fn sp_source(seed: Bytes32, round: int, block: int) -> Seq<u8> {
    b32(sha256((b32(seed) + seq1(round as u8)) + u32_le(block as u32)))
}
pub open spec fn sp_swap(seed: Bytes32, round: int, pos: int) -> bool {
    sp_bit(sp_source(seed, round, pos / 256)[(pos % 256) / 8] as int, pos % 8)
}
pub open spec fn sp_flip(pivot: int, i: int, n: int) -> int { (pivot + n - i) % n }
// one round of swap-or-not
pub open spec fn sp_round(seed: Bytes32, round: int, i: int, n: int) -> int {
    let flip = sp_flip(sp_pivot(seed, round, n), i, n);
    if sp_swap(seed, round, vmax(i, flip)) { flip } else { i }
}
// rounds k..rounds applied to i
pub open spec fn sp_shuffled_from(seed: Bytes32, k: int, rounds: int, i: int, n: int) -> int
    decreases rounds - k
{
    if k >= rounds { i } else { sp_shuffled_from(seed, k + 1, rounds, sp_round(seed, k, i, n), n) }
}
pub open spec fn sp_shuffled(seed: Bytes32, rounds: int, i: int, n: int) -> int { sp_shuffled_from(seed, 0, rounds, i, n) }

@@vspec
pub proof fn lemma_mod_range(a: int, n: int)
    requires n > 0
    ensures 0 <= a % n < n
{
    assert(0 <= a % n < n) by (nonlinear_arith) requires n > 0;
}
pub proof fn lemma_flip(p: int, i: int, n: int)
    requires 0 <= p < n, 0 <= i < n
    ensures 0 <= sp_flip(p, i, n) < n, sp_flip(p, i, n) == (if i <= p { p - i } else { p + n - i }), sp_flip(p, sp_flip(p, i, n), n) == i
{
    if i <= p {
        assert((p + n - i) % n == p - i) by (nonlinear_arith) requires 0 <= p - i < n;
        assert((p + n - (p - i)) % n == i) by (nonlinear_arith) requires 0 <= i < n;
    } else {
        assert((p + n - i) % n == p + n - i) by (nonlinear_arith) requires 0 <= p + n - i < n;
        assert((p + n - (p + n - i)) % n == i) by (nonlinear_arith) requires 0 <= i < n;
    }
}
pub proof fn lemma_pivot(seed: Bytes32, round: int, n: int)
    requires n > 0
    ensures 0 <= sp_pivot(seed, round, n) < n
{
    lemma_mod_range(le_u64(b32(sha256(b32(seed) + seq1(round as u8))).subrange(0, 8)) as int, n);
}
// one round is an involution on 0..n
pub proof fn lemma_round(seed: Bytes32, round: int, i: int, n: int)
    requires 0 <= i < n
    ensures 0 <= sp_round(seed, round, i, n) < n, sp_round(seed, round, sp_round(seed, round, i, n), n) == i
{
    lemma_pivot(seed, round, n);
    lemma_flip(sp_pivot(seed, round, n), i, n);
    lemma_flip(sp_pivot(seed, round, n), sp_flip(sp_pivot(seed, round, n), i, n), n);
}
pub proof fn lemma_shuffled_range(seed: Bytes32, k: int, rounds: int, i: int, n: int)
    requires 0 <= i < n
    ensures 0 <= sp_shuffled_from(seed, k, rounds, i, n) < n
    decreases rounds - k
{
    if k < rounds { lemma_round(seed, k, i, n); lemma_shuffled_range(seed, k + 1, rounds, sp_round(seed, k, i, n), n); }
}
// C03: the shuffling is injective, hence (being a map of 0..n to itself) a permutation
pub proof fn lemma_shuffled_injective(seed: Bytes32, k: int, rounds: int, i: int, j: int, n: int)
    requires 0 <= i < n, 0 <= j < n, i != j
    ensures sp_shuffled_from(seed, k, rounds, i, n) != sp_shuffled_from(seed, k, rounds, j, n)
    decreases rounds - k
{
    if k < rounds {
        lemma_round(seed, k, i, n); lemma_round(seed, k, j, n);
        lemma_shuffled_injective(seed, k + 1, rounds, sp_round(seed, k, i, n), sp_round(seed, k, j, n), n);
    }
}
pub proof fn lemma_shuffled_snoc(seed: Bytes32, a: int, k: int, i: int, n: int)
    requires a <= k
    ensures sp_shuffled_from(seed, a, k + 1, i, n) == sp_round(seed, k, sp_shuffled_from(seed, a, k, i, n), n)
    decreases k - a
{
    if a < k { lemma_shuffled_snoc(seed, a + 1, k, sp_round(seed, a, i, n), n); }
    else { assert(sp_shuffled_from(seed, k + 1, k + 1, sp_round(seed, k, i, n), n) == sp_round(seed, k, i, n)); }
}
pub proof fn lemma_bit_shift(b: u8, k: u8)
    requires k < 8
    ensures ((b >> k) % 2 == 1) == sp_bit(b as int, k as int), (b >> k) % 2 == (b >> k) & 1
    decreases k
{
    assert((b >> k) % 2 == (b >> k) & 1) by (bit_vector);
    if k == 0 { assert(b >> 0u8 == b) by (bit_vector); }
    else {
        let c = (b / 2u8) as u8;
        let m = (k - 1) as u8;
        assert(b >> k == (b / 2u8) >> ((k - 1u8) as u8)) by (bit_vector) requires 0 < k < 8;
        lemma_bit_shift(c, m);
        assert(c as int == b as int / 2);
    }
}
@@fn compute_shuffled_index
requires index_count <= pow2_40(), context.shuffle_round_count <= 255
ensures r is Ok <==> index < index_count, r matches Ok(x) ==> x as int == sp_shuffled(*seed, context.shuffle_round_count as int, index as int, index_count as int) && x < index_count
@ start
let ghost index0 = index as int;
@ loop 0
invariant index0 < index_count, index < index_count, context.shuffle_round_count <= 255, index_count <= pow2_40(),
    index as int == sp_shuffled_from(*seed, 0, __i0 as int, index0, index_count as int),
    pivot_input@.len() == 33, pivot_input@.subrange(0, 32) == b32(*seed), source_input@.len() == 37, source_input@.subrange(0, 32) == b32(*seed),
@ let pivot_bytes 0
proof {
    let n = index_count as int;
    assert(pivot_input@ =~= b32(*seed) + seq1(__c0 as u8));
    lemma_pivot(*seed, __c0 as int, n);
    lemma_flip(sp_pivot(*seed, __c0 as int, n), index as int, n);
    lemma_shuffled_snoc(*seed, 0, __c0 as int, index0, n);
}
@ let source 0
proof { assert(source_input@ =~= (b32(*seed) + seq1(__c0 as u8)) + u32_le((position / 256) as u32)); }
@ let bit 0
proof { lemma_bit_shift(byte, (position % 8) as u8); }
@@vspec
pub proof fn lemma_bits(x: usize)
    ensures x >> 8 == x / 256, x & 0xff == x % 256, x & 0x07 == x % 8, (x & 0xff) >> 3 == (x % 256) / 8, x >> 1 == x / 2
{
    assert(x >> 8 == x / 256) by (bit_vector);
    assert(x & 0xff == x % 256) by (bit_vector);
    assert(x & 0x07 == x % 8) by (bit_vector);
    assert((x & 0xff) >> 3 == (x % 256) / 8) by (bit_vector);
    assert(x >> 1 == x / 2) by (bit_vector);
}
pub open spec fn src_ok(seed: Bytes32, rd: int, j: int, source: Bytes32, byte: u8) -> bool {
    (j % 256 == 255 || b32(source) == sp_source(seed, rd, j / 256)) && (j % 8 == 7 || byte == sp_source(seed, rd, j / 256)[(j % 256) / 8])
}
pub proof fn lemma_src_step(seed: Bytes32, rd: int, j: int, source: Bytes32, byte: u8)
    requires j > 0, b32(source) == sp_source(seed, rd, j / 256), byte == sp_source(seed, rd, j / 256)[(j % 256) / 8]
    ensures src_ok(seed, rd, j - 1, source, byte)
{
    if (j - 1) % 256 != 255 { assert((j - 1) / 256 == j / 256); }
    if (j - 1) % 8 != 7 { assert((j - 1) / 256 == j / 256); assert(((j - 1) % 256) / 8 == (j % 256) / 8); }
}
// the two members of a mirror pair are exchanged together or not at all
pub proof fn lemma_pair(seed: Bytes32, rd: int, i: int, j: int, n: int)
    requires 0 <= i <= j < n, i + j == sp_pivot(seed, rd, n) || i + j == sp_pivot(seed, rd, n) + n
    ensures sp_round(seed, rd, i, n) == (if sp_swap(seed, rd, j) { j } else { i }), sp_round(seed, rd, j, n) == (if sp_swap(seed, rd, j) { i } else { j })
{
    lemma_pivot(seed, rd, n);
    lemma_flip(sp_pivot(seed, rd, n), i, n);
    lemma_flip(sp_pivot(seed, rd, n), j, n);
}
// the decision bit of position j
pub proof fn lemma_swap_bit(seed: Bytes32, rd: int, j: usize, source: Bytes32, byte: u8, bit: u8)
    requires b32(source) == sp_source(seed, rd, j as int / 256), byte == sp_source(seed, rd, j as int / 256)[(j as int % 256) / 8],
        bit == (byte >> (j & 0x07)) & 0x01
    ensures (bit == 1) == sp_swap(seed, rd, j as int), bit <= 1,
        j > 0 ==> src_ok(seed, rd, j - 1, source, byte)
{
    lemma_bits(j);
    let k = (j % 8) as u8;
    assert(byte >> (j & 0x07) == byte >> k) by { assert(j & 0x07 == k as usize); assert(byte >> (k as usize) == byte >> k); }
    lemma_bit_shift(byte, k);
    let t = byte >> k;
    assert(t & 1 <= 1) by (bit_vector);
    if j > 0 { lemma_src_step(seed, rd, j as int, source, byte); }
}
@@fn compute_shuffled_indices rlimit=100
requires indices@.len() <= pow2_40(), 0 < context.shuffle_round_count <= 255
ensures r@.len() == indices@.len(),
    forall|x: int| 0 <= x < r@.len() ==> #[trigger] r@[x] == indices@[sp_shuffled(*seed, context.shuffle_round_count as int, x, r@.len() as int)]
@ start
hide(sp_round); hide(sp_swap); hide(sp_source); hide(sp_shuffled_from); hide(sp_pivot); hide(sp_flip); hide(sp_bit);
@ before 0
let ghost n = index_count as int;
let ghost rounds = context.shuffle_round_count as int;
proof {
    assert forall|x: int| 0 <= x < n implies #[trigger] input@[x] == indices@[sp_shuffled_from(*seed, rounds, rounds, x, n)] by { reveal_with_fuel(sp_shuffled_from, 2); }
}
@ loop 0
invariant n == index_count, 0 < n <= pow2_40(), input@.len() == n, indices@.len() == n, rounds == context.shuffle_round_count, rounds <= 255, __n0 == rounds,
    pivot_input@.len() == 33, pivot_input@.subrange(0, 32) == b32(*seed), source_input@.len() == 37, source_input@.subrange(0, 32) == b32(*seed), __i0 <= __n0,
    forall|x: int| 0 <= x < n ==> #[trigger] input@[x] == indices@[sp_shuffled_from(*seed, __i0 as int, rounds, x, n)],
@ let current_round 0
let ghost rd = current_round as int;
let ghost input0 = input@;
let ghost pre = b32(*seed) + seq1(current_round as u8);
proof { lemma_pivot(*seed, rd, n); }
@ let pivot_bytes 0
proof { assert(pivot_input@ =~= pre); }
@ let pivot 0
let ghost p = pivot as int;
proof { lemma_bits(pivot); lemma_bits((pivot + 1) as usize); assert(p == sp_pivot(*seed, rd, n)) by { reveal(sp_pivot); } }
@ let source 0
proof { assert(source_input@ =~= pre + u32_le((p / 256) as u32)); assert(b32(source) == sp_source(*seed, rd, p / 256)) by { reveal(sp_source); } }
@ loop 1
invariant input@.len() == n, __n1 == (p + 1) / 2, source_input@.len() == 37, source_input@.subrange(0, 33) == pre,
    src_ok(*seed, rd, p - __i1, source, byte_source),
    forall|x: int| 0 <= x < n ==> #[trigger] input@[x] == (if x < __i1 || p - __i1 < x <= p { input0[sp_round(*seed, rd, x, n)] } else { input0[x] }),
@ loopstart 1
let ghost before = input@;
@ let j 0
proof { lemma_bits(j); lemma_pair(*seed, rd, i as int, j as int, n); }
@ assign source 0
proof { assert(source_input@ =~= pre + u32_le((j / 256) as u32)); assert(b32(source) == sp_source(*seed, rd, j as int / 256)) by { reveal(sp_source); } }
@ let bit_source 0
proof { lemma_swap_bit(*seed, rd, j, source, byte_source, bit_source); }
@ loopend 1
proof {
    assert forall|x: int| 0 <= x < n implies #[trigger] input@[x] == (if x < __i1 || p - __i1 < x <= p { input0[sp_round(*seed, rd, x, n)] } else { input0[x] }) by {
        assert(before[x] == (if x < i || p - i < x <= p { input0[sp_round(*seed, rd, x, n)] } else { input0[x] }));
        assert(before[i as int] == input0[i as int] && before[j as int] == input0[j as int]);
    }
}
@ after 1
proof {
    lemma_bits((index_count - 1) as usize); lemma_bits((pivot + index_count + 1) as usize);
    if p % 2 == 0 { lemma_pair(*seed, rd, p / 2, p / 2, n); }
    assert forall|x: int| 0 <= x < n implies #[trigger] input@[x] == (if x <= p { input0[sp_round(*seed, rd, x, n)] } else { input0[x] }) by {}
}
@ before 2
proof {
    assert(source_input@ =~= pre + u32_le((end / 256) as u32));
    assert(b32(source) == sp_source(*seed, rd, end as int / 256)) by { reveal(sp_source); }
}
@ loop 2
invariant input@.len() == n, __n2 == (p + n + 1) / 2, source_input@.len() == 37, source_input@.subrange(0, 33) == pre, end == n - 1, __a2 == p + 1,
    __i2 >= __a2, src_ok(*seed, rd, n + p - __i2, source, byte_source),
    forall|x: int| 0 <= x < n ==> #[trigger] input@[x] == (if x < __i2 || n + p - __i2 < x { input0[sp_round(*seed, rd, x, n)] } else { input0[x] }),
@ loopstart 2
let ghost before = input@;
@ let j 1
proof { lemma_bits(j); lemma_pair(*seed, rd, i as int, j as int, n); }
@ assign source 2
proof { assert(source_input@ =~= pre + u32_le((j / 256) as u32)); assert(b32(source) == sp_source(*seed, rd, j as int / 256)) by { reveal(sp_source); } }
@ let bit_source 1
proof { lemma_swap_bit(*seed, rd, j, source, byte_source, bit_source); }
@ loopend 2
proof {
    assert forall|x: int| 0 <= x < n implies #[trigger] input@[x] == (if x < __i2 || n + p - __i2 < x { input0[sp_round(*seed, rd, x, n)] } else { input0[x] }) by {
        assert(before[x] == (if x < i || n + p - i < x { input0[sp_round(*seed, rd, x, n)] } else { input0[x] }));
        assert(before[i as int] == input0[i as int] && before[j as int] == input0[j as int]);
    }
}
@ loopend 0
proof {
    if (p + n) % 2 == 0 { lemma_pair(*seed, rd, (p + n) / 2, (p + n) / 2, n); }
    assert forall|x: int| 0 <= x < n implies #[trigger] input@[x] == indices@[sp_shuffled_from(*seed, rd, rounds, x, n)] by {
        lemma_round(*seed, rd, x, n);
        assert(input@[x] == input0[sp_round(*seed, rd, x, n)]);
        assert(sp_shuffled_from(*seed, rd, rounds, x, n) == sp_shuffled_from(*seed, rd + 1, rounds, sp_round(*seed, rd, x, n), n)) by { reveal_with_fuel(sp_shuffled_from, 2); }
    }
}
@@test shuffle props=C03 n=60
let mut c = gen_ctx(g); let n = g.pick(&[1usize, 2, 3, 7, 33, 255, 256, 257, 600]); let seed = g.b32();
let idx: Vec<usize> = (0..n).map(|i| i * 3 + 1).collect();
let l = sp::compute_shuffled_indices(&idx, &seed, &c);
for x in 0..n { if n > 64 && !g.chance(10) { continue; }
    let m = sp_shuffled(seed.cv(), c.shuffle_round_count as int, x as int, n as int);
    eqv!(sp::compute_shuffled_index(x, n, &seed, &c).ok().map(|x| x as int), Some(m), "compute_shuffled_index({x}, {n}, {seed:?}) with {} rounds", c.shuffle_round_count);
    eqv!(l[x], idx[m as usize], "compute_shuffled_indices of {n} elements, {} rounds, seed {seed:?}, position {x}", c.shuffle_round_count); }
chk!(sp::compute_shuffled_index(n, n, &seed, &c).is_err(), "compute_shuffled_index({n}, {n}) accepted an index out of range");
