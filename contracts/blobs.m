@@module blobs file=ethereum-consensus/src/bin/ec/blobs/framing.rs,ethereum-consensus/src/bin/ec/blobs/encode.rs,ethereum-consensus/src/bin/ec/blobs/decode.rs,ethereum-consensus/src/bin/ec/blobs/mod.rs,ethereum-consensus/src/bin/ec/bls.rs,ethereum-consensus/src/deneb/presets/mainnet.rs,ethereum-consensus/src/crypto/kzg.rs
@@prelude
use vstd::arithmetic::div_mod::*;
pub enum Error { InvalidFieldElement, ExpectedHeaderForSizedFraming, UnsupportedSizedFramingVersion, InvalidPayloadSize, Json, Io }
// ---- bits of bytes, most significant first (the order the code asks of `bitvec`) ----
pub open spec fn bitof(b: u8, k: int) -> bool {
    if k == 0 { b & 0x80 != 0 } else if k == 1 { b & 0x40 != 0 } else if k == 2 { b & 0x20 != 0 } else if k == 3 { b & 0x10 != 0 }
    else if k == 4 { b & 8 != 0 } else if k == 5 { b & 4 != 0 } else if k == 6 { b & 2 != 0 } else { b & 1 != 0 }
}
pub open spec fn bitseq(s: Seq<u8>) -> Seq<bool> { Seq::new(8 * s.len(), |i: int| bitof(s[i / 8], i % 8)) }
pub open spec fn be_nat(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { be_nat(s.drop_last()) * 256 + s.last() as nat } }
pub open spec fn bls_modulus() -> nat { 52435875175126190479447740508185965837690552500527637822603658699938581184513 }
pub open spec fn zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }
// ---- assumed contracts of the bit-slice and big-integer libraries ----
#[verifier::external_body]
pub struct VBits { _p: u8 }
impl View for VBits { type V = Seq<bool>; uninterp spec fn view(&self) -> Seq<bool>; }
impl VBits {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn from(&self, a: usize) -> (r: VBits) requires a <= self@.len() ensures r@ == self@.subrange(a as int, self@.len() as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn chunks_exact(&self, n: usize) -> (r: VChunks) requires n > 0 ensures r.n == n, r.rest@ == self@ { unimplemented!() }
}
pub struct VChunks { pub n: usize, pub rest: Ghost<Seq<bool>> }
impl VChunks {
    #[verifier::external_body]
    pub fn more(&self) -> (r: bool) ensures r == (self.rest@.len() >= self.n) { unimplemented!() }
    #[verifier::external_body]
    pub fn vnext(&mut self) -> (r: VBits) requires old(self).rest@.len() >= old(self).n
        ensures r@ == old(self).rest@.subrange(0, old(self).n as int), final(self).n == old(self).n, final(self).rest@ == old(self).rest@.subrange(old(self).n as int, old(self).rest@.len() as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn remainder(&self) -> (r: VBits) requires self.rest@.len() < self.n ensures r@ == self.rest@ { unimplemented!() }
}
#[verifier::external_body]
pub fn v_bits(b: &[u8]) -> (r: VBits) requires b@.len() <= 0x100_0000_0000_0000 ensures r@ == bitseq(b@) { unimplemented!() }
#[verifier::external_body]
pub fn v_blob_bits(b: &Blob) -> (r: VBits) ensures r@ == bitseq(b@) { unimplemented!() }
#[verifier::external_body]
pub fn v_put(d: &mut Vec<u8>, a: usize, b: usize, src: &VBits)
    requires a <= b <= 8 * old(d)@.len(), b - a == src@.len()
    ensures final(d)@.len() == old(d)@.len(), bitseq(final(d)@) == Seq::new(8 * old(d)@.len(), |i: int| if a <= i < b { src@[i - a] } else { bitseq(old(d)@)[i] }) { unimplemented!() }
#[verifier::external_body]
pub fn v_zeros(n: usize) -> (r: Vec<u8>) ensures r@ == zeros(n as nat) { unimplemented!() }
pub struct U256 { pub v: Ghost<nat> }
#[verifier::external_body]
pub fn v_u256(b: &Vec<u8>) -> (r: U256) requires b@.len() <= 32 ensures r.v@ == be_nat(b@) { unimplemented!() }
#[verifier::external_body]
pub fn v_below_modulus(x: &U256) -> (r: bool) ensures r == (x.v@ < MODULUS()) { unimplemented!() }
// ---- blobs and streams ----
#[verifier::external_body]
pub struct Blob { _p: u8 }
impl View for Blob { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
#[verifier::external_body]
pub fn v_blob(b: &Vec<u8>) -> (r: Blob) requires b@.len() == 131072 ensures r@ == b@ { unimplemented!() }
pub open spec fn flat(b: Seq<Blob>) -> Seq<u8> decreases b.len() { if b.len() == 0 { Seq::empty() } else { flat(b.drop_last()) + b.last()@ } }
pub open spec fn sized_blobs(b: Seq<Blob>) -> bool { forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i])@.len() == 131072 }
pub struct VReader { pub data: Ghost<Seq<u8>> }
#[verifier::external_body]
pub fn v_read_all(r: &mut VReader, b: &mut Vec<u8>) ensures final(b)@ == old(b)@ + old(r).data@ { unimplemented!() }
#[verifier::external_body]
pub struct VWriter { _p: u8 }
impl View for VWriter { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
#[verifier::external_body]
pub fn v_write(w: &mut VWriter, b: &[u8]) -> (r: core::result::Result<(), Error>)
    ensures r is Ok ==> final(w)@ == old(w)@ + b@, r matches Err(e) ==> e is Io { unimplemented!() }
pub uninterp spec fn json_blobs(text: Seq<u8>) -> Option<Seq<Blob>>;
#[verifier::external_body]
pub fn v_json(r: VReader) -> (o: core::result::Result<Vec<Blob>, Error>)
    ensures json_blobs(r.data@) is Some <==> o is Ok, o matches Ok(b) ==> json_blobs(r.data@) == Some(b@) && sized_blobs(b@) && b@.len() <= 0x10_0000_0000, o matches Err(e) ==> e is Json { unimplemented!() }
// ---- assumed contracts of core ----
pub open spec fn u32_be(n: int) -> Seq<u8> { seq![((n / 0x1000000) % 256) as u8, ((n / 0x10000) % 256) as u8, ((n / 0x100) % 256) as u8, (n % 256) as u8] }
#[verifier::external_body]
pub fn v_to_u32(n: usize, e: Error) -> (r: core::result::Result<u32, Error>) ensures n <= u32::MAX ==> r == Ok::<u32, Error>(n as u32), n > u32::MAX ==> r == Err::<u32, Error>(e) { unimplemented!() }
#[verifier::external_body]
pub fn v_be_bytes(n: u32) -> (r: [u8; 4]) ensures r@ == u32_be(n as int) { unimplemented!() }
#[verifier::external_body]
pub fn v_tail_copy<const N: usize>(d: &mut [u8; N], a: usize, s: &[u8]) requires a <= N, N - a == s@.len() ensures final(d)@ == old(d)@.subrange(0, a as int) + s@ { unimplemented!() }
#[verifier::external_body]
pub fn v_u32_be(s: &[u8], a: usize, b: usize) -> (r: u32) requires a <= b <= s@.len(), b - a == 4 ensures s@.subrange(a as int, b as int) == u32_be(r as int) { unimplemented!() }
#[verifier::external_body]
pub fn v_split(s: &[u8], a: usize) -> (r: (&[u8], &[u8])) requires a <= s@.len() ensures r.0@ == s@.subrange(0, a as int), r.1@ == s@.subrange(a as int, s@.len() as int) { unimplemented!() }
#[verifier::external_body]
pub fn v_first(s: &[u8], n: usize) -> (r: &[u8]) requires n <= s@.len() ensures r@ == s@.subrange(0, n as int) { unimplemented!() }
pub fn v_assert(c: bool) requires c {}
// ---- the format ----
// bit q of the packed blobs: two zero bits at the head of every 256-bit element, then 254 bits of data, zero filled
pub open spec fn data_bit(d: Seq<bool>, i: int) -> bool { 0 <= i < d.len() && d[i] }
pub open spec fn packed(d: Seq<bool>, q: int) -> bool { q % 256 >= 2 && data_bit(d, 254 * (q / 256) + q % 256 - 2) }
pub open spec fn blob_count(n: int) -> int { if n == 0 { 1 } else { (8 * n + 1040383) / 1040384 } }
pub open spec fn is_packed(blobs: Seq<Blob>, data: Seq<u8>) -> bool {
    &&& sized_blobs(blobs)
    &&& blobs.len() == blob_count(data.len() as int)
    &&& forall|q: int| 0 <= q < 8 * flat(blobs).len() ==> #[trigger] bitseq(flat(blobs))[q] == packed(bitseq(data), q)
}
pub open spec fn is_unpacked(s: Seq<u8>, blobs: Seq<Blob>) -> bool {
    &&& s.len() == 131072 * blobs.len()
    &&& forall|i: int| 0 <= i < 8 * s.len() ==> #[trigger] bitseq(s)[i] == (i < 1040384 * blobs.len() && bitseq(flat(blobs))[256 * (i / 254) + 2 + i % 254])
}
pub open spec fn frame(data: Seq<u8>) -> Seq<u8> { seq![0u8] + u32_be(data.len() as int) + data }
pub open spec fn framed(s: Seq<u8>) -> bool { s.len() >= 5 && s[0] == 0 && be32(s.subrange(1, 5)) <= s.len() - 5 }
pub open spec fn written(s: Seq<u8>, framing: Mode, old: Seq<u8>, new: Seq<u8>) -> bool { match framing { Mode::Raw => new == old + s, Mode::Sized => framed(s) && new == old + s.subrange(5, 5 + be32(s.subrange(1, 5))) } }
pub open spec fn be32(s: Seq<u8>) -> int { s[0] * 0x1000000 + s[1] * 0x10000 + s[2] * 0x100 + s[3] }
// ---- facts about the format ----
proof fn lemma_byte(a: u8, b: u8) requires forall|k: int| 0 <= k < 8 ==> bitof(a, k) == bitof(b, k) ensures a == b {
    assert(bitof(a, 0) == bitof(b, 0) && bitof(a, 1) == bitof(b, 1) && bitof(a, 2) == bitof(b, 2) && bitof(a, 3) == bitof(b, 3) && bitof(a, 4) == bitof(b, 4) && bitof(a, 5) == bitof(b, 5) && bitof(a, 6) == bitof(b, 6) && bitof(a, 7) == bitof(b, 7));
    assert(a == b) by (bit_vector) requires (a & 0x80 != 0) == (b & 0x80 != 0), (a & 0x40 != 0) == (b & 0x40 != 0), (a & 0x20 != 0) == (b & 0x20 != 0), (a & 0x10 != 0) == (b & 0x10 != 0), (a & 8 != 0) == (b & 8 != 0), (a & 4 != 0) == (b & 4 != 0), (a & 2 != 0) == (b & 2 != 0), (a & 1 != 0) == (b & 1 != 0);
}
proof fn lemma_concat(a: Seq<u8>, b: Seq<u8>) ensures bitseq(a + b) =~= bitseq(a) + bitseq(b) {
    assert forall|i: int| 0 <= i < 8 * (a.len() + b.len()) implies bitseq(a + b)[i] == (bitseq(a) + bitseq(b))[i] by {
        if i >= 8 * a.len() { assert((i - 8 * a.len()) / 8 == i / 8 - a.len() && (i - 8 * a.len()) % 8 == i % 8); }
    }
}
proof fn lemma_zero_bits(n: nat) ensures forall|i: int| 0 <= i < 8 * n ==> !#[trigger] bitseq(zeros(n))[i] {
    assert(0u8 & 0x80 == 0 && 0u8 & 0x40 == 0 && 0u8 & 0x20 == 0 && 0u8 & 0x10 == 0 && 0u8 & 8 == 0 && 0u8 & 4 == 0 && 0u8 & 2 == 0 && 0u8 & 1 == 0) by (bit_vector);
}
proof fn lemma_flat_len(b: Seq<Blob>) requires sized_blobs(b) ensures flat(b).len() == 131072 * b.len() decreases b.len() {
    if b.len() > 0 { assert(sized_blobs(b.drop_last())) by { assert forall|i: int| 0 <= i < b.len() - 1 implies (#[trigger] b.drop_last()[i])@.len() == 131072 by { assert(b[i]@.len() == 131072); } } lemma_flat_len(b.drop_last()); assert(b[b.len() - 1]@.len() == 131072); }
}
proof fn lemma_flat_push(b: Seq<Blob>, x: Blob) ensures flat(b.push(x)) =~= flat(b) + x@ { assert(b.push(x).drop_last() =~= b); }
proof fn lemma_flat_at(b: Seq<Blob>, k: int, p: int) requires sized_blobs(b), 0 <= k < b.len(), 0 <= p < 131072 ensures flat(b)[131072 * k + p] == b[k]@[p] decreases b.len() {
    assert(sized_blobs(b.drop_last())) by { assert forall|i: int| 0 <= i < b.len() - 1 implies (#[trigger] b.drop_last()[i])@.len() == 131072 by { assert(b[i]@.len() == 131072); } }
    lemma_flat_len(b.drop_last());
    if k < b.len() - 1 { lemma_flat_at(b.drop_last(), k, p); }
}
pub open spec fn p256(n: nat) -> nat decreases n { if n == 0 { 1 } else { 256 * p256((n - 1) as nat) } }
proof fn lemma_be_head(s: Seq<u8>) requires s.len() > 0 ensures be_nat(s) < (s[0] + 1) * p256((s.len() - 1) as nat) decreases s.len() {
    assert(p256(0) == 1);
    if s.len() == 1 { assert(s.drop_last().len() == 0); assert(be_nat(s.drop_last()) == 0); assert(be_nat(s) == s[0]); assert(p256((s.len() - 1) as nat) == 1); assert((s[0] + 1) * p256((s.len() - 1) as nat) == s[0] + 1) by (nonlinear_arith) requires p256((s.len() - 1) as nat) == 1; } else {
        lemma_be_head(s.drop_last()); assert(s.drop_last()[0] == s[0]);
        let (x, h, m) = (be_nat(s.drop_last()) as int, s[0] + 1, p256((s.len() - 2) as nat));
        assert(x * 256 + s.last() < h * (256 * m)) by (nonlinear_arith) requires x < h * m, s.last() < 256;
        assert(p256((s.len() - 1) as nat) == 256 * m);
        assert(be_nat(s) == x * 256 + s.last());
        assert(h * (256 * m) == (s[0] + 1) * p256((s.len() - 1) as nat));
    }
}
// an element whose two leading bits are zero is below the modulus
proof fn lemma_canonical(s: Seq<u8>) requires s.len() == 32, !bitseq(s)[0], !bitseq(s)[1] ensures be_nat(s) < 0x4000000000000000000000000000000000000000000000000000000000000000 {
    let b = s[0];
    assert(bitseq(s)[0] == bitof(b, 0) && bitseq(s)[1] == bitof(b, 1));
    assert(b < 64) by (bit_vector) requires b & 0x80 == 0, b & 0x40 == 0;
    lemma_be_head(s);
    assert(p256(31) == 0x100000000000000000000000000000000000000000000000000000000000000) by (compute);
    let m = p256(31);
    assert((b + 1) * m <= 64 * m) by (nonlinear_arith) requires b < 64, m >= 0;
}
proof fn lemma_same_bytes(a: Seq<u8>, b: Seq<u8>, n: int)
    requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < 8 * n ==> #[trigger] bitseq(a)[i] == bitseq(b)[i]
    ensures forall|i: int| 0 <= i < n ==> a[i] == b[i]
{
    assert forall|i: int| 0 <= i < n implies a[i] == b[i] by {
        assert forall|k: int| 0 <= k < 8 implies bitof(a[i], k) == bitof(b[i], k) by { assert(bitseq(a)[8 * i + k] == bitseq(b)[8 * i + k]); assert((8 * i + k) / 8 == i && (8 * i + k) % 8 == k); }
        lemma_byte(a[i], b[i]);
    }
}
// ---- packing loses no data ----
proof fn lemma_round_trip(data: Seq<u8>, blobs: Seq<Blob>, s: Seq<u8>)
    requires is_packed(blobs, data), is_unpacked(s, blobs)
    ensures s.len() >= data.len(), s =~= data + zeros((s.len() - data.len()) as nat)
{
    lemma_flat_len(blobs);
    let n = blobs.len() as int;
    assert(1040384 * n >= 8 * data.len()) by { let x = 8 * data.len() + 1040383; assert(1040384 * (x / 1040384) + x % 1040384 == x); }
    let z = data + zeros((131072 * n - data.len()) as nat);
    lemma_concat(data, zeros((131072 * n - data.len()) as nat));
    lemma_zero_bits((131072 * n - data.len()) as nat);
    assert forall|i: int| 0 <= i < 8 * s.len() implies #[trigger] bitseq(s)[i] == bitseq(z)[i] by {
        let q = 256 * (i / 254) + 2 + i % 254;
        assert(bitseq(z)[i] == data_bit(bitseq(data), i)) by { if i >= bitseq(data).len() { assert(bitseq(z)[i] == bitseq(zeros((131072 * n - data.len()) as nat))[i - 8 * data.len()]); } }
        if i < 1040384 * n {
            assert(q / 256 == i / 254 && q % 256 == 2 + i % 254);
            assert(0 <= i / 254 < 4096 * n);
            assert(q < 256 * 4096 * n);
            assert(8 * flat(blobs).len() == 1048576 * n);
            assert(bitseq(flat(blobs))[q] == packed(bitseq(data), q));
            assert(254 * (i / 254) + i % 254 == i);
        }
    }
    lemma_same_bytes(s, z, s.len() as int);
}
// ... and a sized frame gives back exactly the data that was framed
proof fn lemma_u32(n: int) requires 0 <= n <= u32::MAX ensures be32(u32_be(n)) == n {
    lemma_fundamental_div_mod(n, 256); lemma_fundamental_div_mod(n / 256, 256); lemma_fundamental_div_mod(n / 65536, 256);
    assert(n / 65536 == (n / 256) / 256 && n / 0x1000000 == (n / 65536) / 256);
}
proof fn lemma_sized_round_trip(data: Seq<u8>, blobs: Seq<Blob>, s: Seq<u8>)
    requires data.len() <= u32::MAX, is_packed(blobs, frame(data)), is_unpacked(s, blobs)
    ensures s.len() >= 5, s[0] == 0, be32(s.subrange(1, 5)) == data.len(), s.len() >= 5 + data.len(), s.subrange(5, 5 + data.len() as int) =~= data
{
    let f = frame(data);
    lemma_round_trip(f, blobs, s);
    lemma_u32(data.len() as int);
    assert(f[0] == 0);
    assert(s.subrange(1, 5) =~= u32_be(data.len() as int)) by { assert(f.subrange(1, 5) =~= u32_be(data.len() as int)); }
    assert(f.subrange(5, f.len() as int) =~= data);
}
pub open spec fn filled(d: Seq<bool>, w: Seq<u8>, j: int) -> bool { w.len() == 32 * j && forall|q: int| 0 <= q < 256 * j ==> #[trigger] bitseq(w)[q] == packed(d, q) }
proof fn lemma_add(d: Seq<bool>, w: Seq<u8>, j: int, fe: Seq<u8>, src: Seq<bool>)
    requires filled(d, w, j), fe.len() == 32, 0 <= j, 254 * j <= d.len(), src.len() <= 254, src == d.subrange(254 * j, 254 * j + src.len()), 254 * j + src.len() == d.len() || src.len() == 254, 254 * j + src.len() <= d.len(),
        forall|t: int| 0 <= t < 256 ==> #[trigger] bitseq(fe)[t] == (t >= 2 && data_bit(src, t - 2))
    ensures filled(d, w + fe, j + 1)
{
    lemma_concat(w, fe);
    assert forall|q: int| 0 <= q < 256 * (j + 1) implies #[trigger] bitseq(w + fe)[q] == packed(d, q) by {
        if q < 256 * j { assert(bitseq(w)[q] == packed(d, q)); } else {
            let t = q - 256 * j;
            assert(bitseq(w + fe)[q] == bitseq(fe)[t]);
            assert(q / 256 == j && q % 256 == t);
        }
    }
}
proof fn lemma_pad(d: Seq<bool>, w: Seq<u8>, j: int, n: int)
    requires filled(d, w, j), 0 <= j, d.len() <= 254 * j, 0 <= n
    ensures filled(d, w + zeros((32 * n) as nat), j + n)
{
    lemma_concat(w, zeros((32 * n) as nat)); lemma_zero_bits((32 * n) as nat);
    assert forall|q: int| 0 <= q < 256 * (j + n) implies #[trigger] bitseq(w + zeros((32 * n) as nat))[q] == packed(d, q) by {
        if q < 256 * j { assert(bitseq(w)[q] == packed(d, q)); } else { assert(!bitseq(zeros((32 * n) as nat))[q - 256 * j]); assert(q / 256 >= j); }
    }
}
proof fn lemma_flush(b: Seq<Blob>, x: Blob, buf: Seq<u8>)
    requires sized_blobs(b), x@ == buf, buf.len() == 131072
    ensures flat(b.push(x)) + Seq::<u8>::empty() =~= flat(b) + buf, flat(b.push(x)) =~= flat(b) + buf, sized_blobs(b.push(x))
{
    lemma_flat_push(b, x);
    assert forall|i: int| 0 <= i < b.len() + 1 implies (#[trigger] b.push(x)[i])@.len() == 131072 by { if i < b.len() { assert(b[i]@.len() == 131072); } }
}
// state between two elements: j elements written, none lost
pub open spec fn packing(d: Seq<bool>, blobs: Seq<Blob>, buf: Seq<u8>, j: int) -> bool {
    &&& 0 <= j && sized_blobs(blobs) && buf.len() <= 131072
    &&& filled(d, flat(blobs) + buf, j)
    &&& (j > 0 ==> buf.len() > 0)
}
@@subst
Result < (\[ u8 ; HEADER_SIZE \]|& \[ u8 \]|Vec < u8 >|Vec < Blob >|\( \)) , Error > => core :: result :: Result < \1 , Error >
pub const MODULUS : U256 = uint ! \( (\d+)_?U256 \) ; => pub open spec fn MODULUS() -> nat { \1 }
spec :: mainnet :: (\w+) => mainnet_\1
(ethereum_consensus|crate) :: crypto :: kzg :: (\w+) => kzg_\2
\b(FIELD_ELEMENTS_PER_BLOB|MAX_BLOBS_PER_BLOCK)\b => mainnet_\1
& BitSlice => & VBits
vec ! \[ 0u8 ; (.*?) \] ; => v_zeros ( \1 ) ;
let dst = & mut (\w+) \. view_bits_mut \( \) \[ (.*?) \.\. (.*?) \] ; dst \. copy_from_bitslice \( (\w+) \) ; => v_put ( & mut \1 , \2 , \3 , & \4 ) ;
let stream_bits = stream \. view_bits_mut :: < Msb0 > \( \) ; => ;
stream_bits \[ (.*?) \.\. (.*?) \] \. copy_from_bitslice \( src \) ; => v_put ( & mut stream , \1 , \2 , & src ) ;
& chunk \[ 2 \.\. \] => chunk . from ( 2 )
blob \. as_ref \( \) \. view_bits :: < Msb0 > \( \) => v_blob_bits ( blob )
BitSlice :: from_slice \( buffer \) => v_bits ( buffer )
U256 :: from_be_slice \( & field_element \) => v_u256 ( & field_element )
x < MODULUS => v_below_modulus ( & x )
for (\w+) in chunks \. by_ref \( \) \{ __loop ! \( (\d) \) ; => while chunks . more ( ) { __loop ! ( \2 ) ; let \1 = chunks . vnext ( ) ;
for blob in blobs \{ __loop ! \( (\d) \) ; => let mut __b : usize = 0 ; while __b < blobs . len ( ) { __loop ! ( \1 ) ; let blob = & blobs [ __b ] ; __b = __b + 1 ;
Blob :: try_from \( blob_buffer \. as_ref \( \) \) \. expect \( "is the right size" \) => v_blob ( & blob_buffer )
\bassert ! \( (.*?) \) ; => v_assert ( \1 ) ;
debug_assert ! \( (.*?) \) ; => v_assert ( \1 ) ;
field_element_from_bits \( (src|remainder) \) => field_element_from_bits ( & \1 )
u32 :: try_from \( (\w+) \) \. map_err \( \| _ \| (Error :: \w+) \) \? => v_to_u32 ( \1 , \2 ) ?
header \[ 1 \.\. \] \. copy_from_slice \( & size \. to_be_bytes \( \) \) => v_tail_copy ( & mut header , 1 , & v_be_bytes ( size ) )
u32 :: from_be_bytes \( header \[ (\d) \.\. (\d) \] \. try_into \( \) \. expect \( "correct size bytes" \) \) => v_u32_be ( header , \1 , \2 )
stream \. split_at \( HEADER_SIZE \) => v_split ( stream , HEADER_SIZE )
& payload \[ \.\. size \] => v_first ( payload , size )
mut reader : impl Read => mut reader : VReader
reader : impl Read => reader : VReader
mut writer : impl Write => writer : & mut VWriter
reader \. read_to_end \( & mut buffer \) \. expect \( "can read data" \) => v_read_all ( & mut reader , & mut buffer )
serde_json :: from_reader \( reader \) => v_json ( reader )
writer \. write_all \( result \) => v_write ( writer , result )
(framing|prepared_buffer|result) : Framing => \1 : Mode
Framing :: => Mode ::
@@enum Mode
@@const kzg::BYTES_PER_FIELD_ELEMENT mainnet::FIELD_ELEMENTS_PER_BLOB mainnet::BYTES_PER_BLOB mainnet::MAX_BLOBS_PER_BLOCK mod::BYTES_PER_BLOB mod::BYTES_PER_FIELD_ELEMENT mod::BITS_PER_FIELD_ELEMENT framing::SIZED_FRAMING_VERSION framing::HEADER_SIZE decode::BITS_PER_SERIALIZED_FIELD_ELEMENT bls::MODULUS
@@fn sized_header
ensures data_byte_length <= u32::MAX ==> r is Ok && r->Ok_0@ =~= seq![0u8] + u32_be(data_byte_length as int), data_byte_length > u32::MAX ==> r == Err::<[u8; 5], Error>(Error::InvalidPayloadSize)
@@fn payload_from_sized
ensures
    stream@.len() < 5 ==> r == Err::<&[u8], Error>(Error::ExpectedHeaderForSizedFraming),
    stream@.len() >= 5 && stream@[0] != 0 ==> r == Err::<&[u8], Error>(Error::UnsupportedSizedFramingVersion),
    stream@.len() >= 5 && stream@[0] == 0 && be32(stream@.subrange(1, 5)) > stream@.len() - 5 ==> r == Err::<&[u8], Error>(Error::InvalidPayloadSize),
    stream@.len() >= 5 && stream@[0] == 0 && be32(stream@.subrange(1, 5)) <= stream@.len() - 5 ==> r is Ok && r->Ok_0@ =~= stream@.subrange(5, 5 + be32(stream@.subrange(1, 5)))
@ after let size = .*? as usize ;
proof { lemma_u32(size as int); assert(header@.subrange(1, 5) =~= stream@.subrange(1, 5)); }
@@fn field_element_from_bits
requires src@.len() <= 254
ensures r is Ok, r->Ok_0@.len() == 32, be_nat(r->Ok_0@) < bls_modulus(), forall|t: int| 0 <= t < 256 ==> #[trigger] bitseq(r->Ok_0@)[t] == (t >= 2 && data_bit(src@, t - 2))
@ after v_put [^;]* ;
proof {
    lemma_zero_bits(32);
    assert forall|t: int| 0 <= t < 256 implies #[trigger] bitseq(field_element@)[t] == (t >= 2 && data_bit(src@, t - 2)) by { assert(!bitseq(zeros(32))[t]); }
    assert(!bitseq(field_element@)[0] && !bitseq(field_element@)[1]);
    lemma_canonical(field_element@);
    assert(MODULUS() == bls_modulus());
}
@@fn pack_into_blobs
requires buffer@.len() <= 0x100_0000_0000_0000
ensures r is Ok, is_packed(r->Ok_0@, buffer@)
@ start
let ghost d = bitseq(buffer@);
let ghost mut j: int = 0;
@ before while chunks
proof { assert(d.subrange(0, d.len() as int) =~= d); assert(flat(blobs@) + blob_buffer@ =~= Seq::<u8>::empty()); }
@ loop 0
invariant chunks.n == 254, d == bitseq(buffer@), 254 * j <= d.len(), chunks.rest@ == d.subrange(254 * j, d.len() as int), packing(d, blobs@, blob_buffer@, j)
decreases chunks.rest@.len()
@ loopstart 0
let ghost (b0, u0, r0) = (blobs@, blob_buffer@, chunks.rest@);
@ after blob_buffer . append \( & mut field_element \) ;
proof {
    if u0.len() == 131072 { lemma_flush(b0, blobs@.last(), u0); assert(blobs@ =~= b0.push(blobs@.last())); }
    lemma_flat_len(b0);
    let w0 = flat(b0) + u0;
    let fe = fe0@;
    assert(src@ =~= d.subrange(254 * j, 254 * j + 254));
    lemma_add(d, w0, j, fe, src@);
    assert(flat(blobs@) + blob_buffer@ =~= w0 + fe);
    assert(chunks.rest@ =~= d.subrange(254 * (j + 1), d.len() as int));
    j = j + 1;
}
@ before blob_buffer . append \( & mut field_element \) ;
let ghost fe0 = field_element;
@ before v_assert
proof { lemma_flat_len(blobs@); }
@ before if ! remainder
let ghost (b1, u1) = (blobs@, blob_buffer@);
let ghost mut fe1: Seq<u8> = Seq::empty();
proof { assert(remainder@ == d.subrange(254 * j, d.len() as int)); }
@ before let mut field_element = field_element_from_bits \( & remainder
let ghost (b2, u2) = (blobs@, blob_buffer@);
proof { if u1.len() == 131072 { lemma_flush(b1, blobs@.last(), u1); assert(blobs@ =~= b1.push(blobs@.last())); } assert(flat(blobs@) + blob_buffer@ =~= flat(b1) + u1); assert(packing(d, b1, u1, j)); }
@ before blob_buffer . append \( & mut field_element \) ;(?=\s*\})
proof { fe1 = field_element@; }
@ before blob_buffer . resize
proof {
    if remainder@.len() > 0 {
        let fe = fe1;
        lemma_flat_len(b1);
        lemma_add(d, flat(b1) + u1, j, fe, remainder@);
        assert(flat(blobs@) + blob_buffer@ =~= (flat(b1) + u1) + fe);
        j = j + 1;
    }
    assert(packing(d, blobs@, blob_buffer@, j));
    assert(d.len() <= 254 * j);
    lemma_flat_len(blobs@);
    lemma_pad(d, flat(blobs@) + blob_buffer@, j, (131072 - blob_buffer@.len()) / 32);
}
let ghost (b3, u3) = (blobs@, blob_buffer@);
@ before Ok \( blobs \)
proof {
    assert(blob_buffer@ =~= u3 + zeros((131072 - u3.len()) as nat));
    lemma_flush(b3, blobs@.last(), blob_buffer@);
    assert(blobs@ =~= b3.push(blobs@.last()));
    assert(flat(blobs@) =~= (flat(b3) + u3) + zeros((131072 - u3.len()) as nat));
    lemma_flat_len(blobs@);
    assert(32 * ((131072 - u3.len()) / 32) == 131072 - u3.len());
    assert(blobs@.len() == blob_count(buffer@.len() as int));
    assert(is_packed(blobs@, buffer@));
}
@@fn from_reader
requires reader.data@.len() <= 0xff_ffff_ffff_ffff
ensures framing is Raw ==> r is Ok && is_packed(r->Ok_0@, reader.data@),
    framing is Sized && reader.data@.len() <= u32::MAX ==> r is Ok && is_packed(r->Ok_0@, frame(reader.data@)),
    framing is Sized && reader.data@.len() > u32::MAX ==> r == Err::<Vec<Blob>, Error>(Error::InvalidPayloadSize)
@@fn unpack_from_blobs
requires sized_blobs(blobs@), blobs@.len() <= 0x10_0000_0000
ensures r is Ok, is_unpacked(r->Ok_0@, blobs@)
@ start
proof { lemma_flat_len(blobs@); lemma_zero_bits((131072 * blobs@.len()) as nat); }
let ghost fb = bitseq(flat(blobs@));
let ghost n = blobs@.len() as int;
@ loop 0
invariant 0 <= __b <= n, n == blobs@.len(), n <= 0x10_0000_0000, i == 4096 * __b, sized_blobs(blobs@), stream@.len() == 131072 * n, fb == bitseq(flat(blobs@)),
    forall|p: int| 0 <= p < 8 * stream@.len() ==> #[trigger] bitseq(stream@)[p] == (p < 254 * i && fb[256 * (p / 254) + 2 + p % 254])
decreases n - __b
@ loopstart 0
let ghost b0 = __b as int;
let ghost mut c: int = 0;
@ loop 1
invariant 0 <= b0 < n, n == blobs@.len(), n <= 0x10_0000_0000, __b == b0 + 1, 0 <= c <= 4096, i == 4096 * b0 + c, chunks.n == 256, blob_bits@ == bitseq(blobs@[b0]@), chunks.rest@ == blob_bits@.subrange(256 * c, 1048576), sized_blobs(blobs@), stream@.len() == 131072 * n, fb == bitseq(flat(blobs@)), blob_bits@.len() == 1048576,
    forall|p: int| 0 <= p < 8 * stream@.len() ==> #[trigger] bitseq(stream@)[p] == (p < 254 * i && fb[256 * (p / 254) + 2 + p % 254])
decreases 4096 - c
@ before let mut chunks =
proof { assert(blob_bits@.subrange(0, 1048576) =~= blob_bits@); assert(blobs@[b0]@.len() == 131072); }
@ loopstart 1
let ghost (s0, i0) = (stream@, i as int);
@ after i \+= 1 ;
proof {
    assert(chunk@ =~= blob_bits@.subrange(256 * c, 256 * c + 256));
    assert forall|p: int| 0 <= p < 8 * stream@.len() implies #[trigger] bitseq(stream@)[p] == (p < 254 * i && fb[256 * (p / 254) + 2 + p % 254]) by {
        assert(bitseq(s0)[p] == (p < 254 * i0 && fb[256 * (p / 254) + 2 + p % 254]));
        if 254 * i0 <= p < 254 * i {
            let t = p - 254 * i0;
            assert(p / 254 == i0 && p % 254 == t);
            assert(bitseq(stream@)[p] == src@[t]);
            assert(src@[t] == blob_bits@[256 * c + 2 + t]);
            let q = 256 * c + 2 + t;
            lemma_flat_at(blobs@, b0, q / 8);
            assert(fb[1048576 * b0 + q] == bitof(flat(blobs@)[131072 * b0 + q / 8], q % 8)) by { assert((1048576 * b0 + q) / 8 == 131072 * b0 + q / 8 && (1048576 * b0 + q) % 8 == q % 8); lemma_flat_len(blobs@); }
        }
    }
    assert(chunks.rest@ =~= blob_bits@.subrange(256 * (c + 1), 1048576));
    c = c + 1;
}
@@fn to_writer_from_json
ensures
    json_blobs(reader.data@) is None ==> r == Err::<(), Error>(Error::Json),
    r is Ok ==> exists|s: Seq<u8>| is_unpacked(s, json_blobs(reader.data@)->Some_0) && #[trigger] written(s, framing, old(writer)@, final(writer)@),
    r is Err && !(r->Err_0 is Io) && !(r->Err_0 is Json) ==> framing is Sized && exists|s: Seq<u8>| #[trigger] is_unpacked(s, json_blobs(reader.data@)->Some_0) && !framed(s),
    r is Err && r->Err_0 is Json ==> json_blobs(reader.data@) is None,
@ after let result = unpack_from_blobs [^;]* ;
let ghost s = result@;
let ghost w0 = writer@;
proof { assert(is_unpacked(s, blobs@)); }
@ before Ok
proof { assert(written(s, framing, w0, writer@)); }
