# The key derivation of the `validator` command: EIP-2333 and the paths of EIP-2334 (C29).
@@module keys file=ethereum-consensus/src/bin/ec/validator/keys.rs,ethereum-consensus/src/bin/ec/bls.rs
@@prelude
// ---- bytes and numbers, most significant byte first ----
pub open spec fn be_nat(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { be_nat(s.drop_last()) * 256 + s.last() as nat } }
pub open spec fn be_bytes(n: nat, w: nat) -> Seq<u8> decreases w { if w == 0 { Seq::empty() } else { be_bytes(n / 256, (w - 1) as nat).push((n % 256) as u8) } }
pub open spec fn p256(w: nat) -> nat decreases w { if w == 0 { 1 } else { 256 * p256((w - 1) as nat) } }
pub open spec fn bls_modulus() -> nat { 52435875175126190479447740508185965837690552500527637822603658699938581184513 }
// ---- SHA-256 and HKDF with it: functions of their inputs (assumed) ----
pub uninterp spec fn sha(b: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn hkdf_extract(salt: Seq<u8>, ikm: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn hkdf_expand(prk: Seq<u8>, info: Seq<u8>, n: nat) -> Seq<u8>;
// ---- EIP-2333 ----
// the chunks of 32 bytes, hashed one after another
pub open spec fn hashed(b: Seq<u8>, k: nat) -> Seq<u8> decreases k { if k == 0 { Seq::empty() } else { hashed(b, (k - 1) as nat) + sha(b.subrange(32 * (k - 1), 32 * (k as int))) } }
pub open spec fn flipped(b: Seq<u8>) -> Seq<u8> { Seq::new(b.len(), |i: int| (255 - b[i]) as u8) }
pub open spec fn lamport(salt: Seq<u8>, ikm: Seq<u8>) -> Seq<u8> { hkdf_expand(hkdf_extract(salt, ikm), Seq::empty(), 8160) }
pub open spec fn compressed(parent: nat, index: u32) -> Seq<u8> {
    sha(hashed(lamport(be_bytes(index as nat, 4), be_bytes(parent, 32)), 255) + hashed(lamport(be_bytes(index as nat, 4), flipped(be_bytes(parent, 32))), 255))
}
pub open spec fn salt_at(k: nat) -> Seq<u8> decreases k { if k == 0 { sha(seq![66u8, 76u8, 83u8, 45u8, 83u8, 73u8, 71u8, 45u8, 75u8, 69u8, 89u8, 71u8, 69u8, 78u8, 45u8, 83u8, 65u8, 76u8, 84u8, 45u8]) } else { sha(salt_at((k - 1) as nat)) } }
pub open spec fn candidate(ikm: Seq<u8>, k: nat) -> nat { be_nat(hkdf_expand(hkdf_extract(salt_at(k), ikm.push(0u8)), seq![0u8, 48u8], 48)) % bls_modulus() }
// the first non-zero candidate
pub open spec fn mod_r(ikm: Seq<u8>, key: nat) -> bool { key != 0 && exists|k: nat| #[trigger] candidate(ikm, k) == key && forall|j: nat| j < k ==> #[trigger] candidate(ikm, j) == 0 }
pub open spec fn child(parent: nat, index: u32, key: nat) -> bool { mod_r(compressed(parent, index), key) }
// EIP-2334: m/12381/3600/i/0 to withdraw, its child 0 to sign
pub open spec fn withdrawal_key(root: nat, i: u32, key: nat) -> bool {
    exists|a: nat, b: nat, c: nat| #[trigger] child(root, 12381u32, a) && #[trigger] child(a, 3600u32, b) && #[trigger] child(b, i, c) && child(c, 0u32, key)
}
pub open spec fn signing_key(root: nat, i: u32, key: nat) -> bool { exists|w: nat| #[trigger] withdrawal_key(root, i, w) && child(w, 0u32, key) }
// ---- derivation is deterministic ----
pub proof fn lemma_one_key(ikm: Seq<u8>, a: nat, b: nat)
    requires mod_r(ikm, a), mod_r(ikm, b)
    ensures a == b
{
    let j = choose|k: nat| #[trigger] candidate(ikm, k) == a && forall|j: nat| j < k ==> #[trigger] candidate(ikm, j) == 0;
    let k = choose|k: nat| #[trigger] candidate(ikm, k) == b && forall|j: nat| j < k ==> #[trigger] candidate(ikm, j) == 0;
    assert(j == k) by { if j < k { assert(candidate(ikm, j) == 0); } if k < j { assert(candidate(ikm, k) == 0); } }
}
pub proof fn lemma_keys_deterministic(root: nat, i: u32, a: nat, b: nat)
    requires withdrawal_key(root, i, a), withdrawal_key(root, i, b)
    ensures a == b
{
    let (a1, a2, a3) = choose|x: nat, y: nat, z: nat| #[trigger] child(root, 12381u32, x) && #[trigger] child(x, 3600u32, y) && #[trigger] child(y, i, z) && child(z, 0u32, a);
    let (b1, b2, b3) = choose|x: nat, y: nat, z: nat| #[trigger] child(root, 12381u32, x) && #[trigger] child(x, 3600u32, y) && #[trigger] child(y, i, z) && child(z, 0u32, b);
    lemma_one_key(compressed(root, 12381u32), a1, b1); lemma_one_key(compressed(a1, 3600u32), a2, b2); lemma_one_key(compressed(a2, i), a3, b3); lemma_one_key(compressed(a3, 0u32), a, b);
}
// a derived key is a scalar of the curve's group
pub proof fn lemma_in_field(ikm: Seq<u8>, a: nat) requires mod_r(ikm, a) ensures 0 < a < bls_modulus() { }
pub proof fn lemma_be(b: Seq<u8>) ensures be_nat(b) < p256(b.len()), be_bytes(be_nat(b), b.len()) =~= b decreases b.len() {
    if b.len() > 0 { let d = b.drop_last(); lemma_be(d);
        assert(be_nat(b) == be_nat(d) * 256 + b.last() as nat); assert(be_nat(b) / 256 == be_nat(d)); assert(be_nat(b) % 256 == b.last() as nat); assert(d.push(b.last()) =~= b); }
}
pub proof fn lemma_nat_be(n: nat, w: nat) requires n < p256(w) ensures be_nat(be_bytes(n, w)) == n, be_bytes(n, w).len() == w decreases w {
    if w > 0 { assert(n / 256 < p256((w - 1) as nat)) by (nonlinear_arith) requires n < 256 * p256((w - 1) as nat); lemma_nat_be(n / 256, (w - 1) as nat);
        assert(be_bytes(n, w).drop_last() =~= be_bytes(n / 256, (w - 1) as nat)); }
}
// the low 32 bytes of a 48-byte number that fits in them
pub proof fn lemma_low(n: nat) requires n < p256(32) ensures be_bytes(n, 48).subrange(16, 48) =~= be_bytes(n, 32), be_nat(be_bytes(n, 48).subrange(16, 48)) == n {
    lemma_sub(n, 48, 32); lemma_nat_be(n, 32);
}
pub proof fn lemma_len(n: nat, w: nat) ensures be_bytes(n, w).len() == w decreases w { if w > 0 { lemma_len(n / 256, (w - 1) as nat); } }
pub proof fn lemma_sub(n: nat, w: nat, v: nat) requires v <= w ensures be_bytes(n, w).len() == w, be_bytes(n, w).subrange(w - v, w as int) =~= be_bytes(n, v) decreases v {
    lemma_len(n, w); lemma_len(n, v);
    if v > 0 { lemma_len(n / 256, (w - 1) as nat); lemma_sub(n / 256, (w - 1) as nat, (v - 1) as nat);
        assert(be_bytes(n, w).subrange(w - v, w as int) =~= be_bytes(n / 256, (w - 1) as nat).subrange(w - v, w - 1).push((n % 256) as u8)); }
}
pub proof fn lemma_modulus() ensures bls_modulus() < p256(32) { reveal_with_fuel(p256, 33); assert(bls_modulus() < p256(32)) by (compute); }
// ---- models of the libraries ----
#[verifier::external_body] pub struct Hkdf { _p: u8 }
impl View for Hkdf { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
#[derive(Debug)] pub struct InvalidLength;
impl Hkdf {
    #[verifier::external_body] pub fn new(salt: Option<&[u8]>, ikm: &[u8]) -> (r: Hkdf) ensures salt matches Some(s) ==> r@ == hkdf_extract(s@, ikm@) { unimplemented!() }
    // at most 255 blocks of output
    #[verifier::external_body] pub fn expand(&self, info: &[u8], out: &mut [u8]) -> (r: core::result::Result<(), InvalidLength>) ensures old(out)@.len() <= 255 * 32 ==> r is Ok && final(out)@ == hkdf_expand(self@, info@, old(out)@.len() as nat) && final(out)@.len() == old(out)@.len() { unimplemented!() }
}
#[verifier::external_body] pub struct Bytes32 { _p: u8 }
impl View for Bytes32 { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Bytes32 { #[verifier::external_body] pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@, r@.len() == 32 { unimplemented!() } }
#[verifier::external_body] pub fn hash(b: &[u8]) -> (r: Bytes32) ensures r@ == sha(b@), r@.len() == 32 { unimplemented!() }
#[verifier::external_body] pub fn v_arr<const N: usize>(b: &[u8]) -> (r: [u8; N]) requires b@.len() == N ensures r@ == b@ { unimplemented!() }
#[verifier::external_body] pub fn v_chunks<'a>(b: &'a [u8], n: usize) -> (r: Vec<&'a [u8]>) requires n > 0
    ensures r@.len() == b@.len() as int / n as int, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == b@.subrange(n * i, n * i + n) { unimplemented!() }
#[verifier::external_body] pub fn v_be4(i: u32) -> (r: [u8; 4]) ensures r@ == be_bytes(i as nat, 4) { unimplemented!() }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct U256 { _p: u8 }
impl View for U256 { type V = nat; uninterp spec fn view(&self) -> nat; }
impl U256 {
    #[verifier::external_body] pub fn to_be_bytes(&self) -> (r: [u8; 32]) ensures r@ == be_bytes(self@, 32) { unimplemented!() }
    #[verifier::external_body] pub fn from_be_bytes(b: [u8; 32]) -> (r: U256) ensures r@ == be_nat(b@) { unimplemented!() }
}
#[verifier::external_body] #[derive(Clone, Copy)] pub struct U384 { _p: u8 }
impl View for U384 { type V = nat; uninterp spec fn view(&self) -> nat; }
impl U384 {
    #[verifier::external_body] pub fn zero() -> (r: U384) ensures r@ == 0 { unimplemented!() }
    #[verifier::external_body] pub fn from_modulus() -> (r: U384) ensures r@ == MODULUS() { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (self@ == 0) { unimplemented!() }
    #[verifier::external_body] pub fn to_be_bytes(&self) -> (r: [u8; 48]) ensures r@ == be_bytes(self@, 48) { unimplemented!() }
    #[verifier::external_body] pub fn from_be_bytes(b: [u8; 48]) -> (r: U384) ensures r@ == be_nat(b@) { unimplemented!() }
    #[verifier::external_body] pub fn v_rem(self, m: U384) -> (r: U384) requires m@ > 0 ensures r@ == self@ % m@ { unimplemented!() }
}
pub fn v_assert(b: bool) requires b { }
#[verifier::external_body] pub fn v_mut<const N: usize>(a: &mut [u8; N]) -> (r: &mut [u8]) ensures r@ == old(a)@, final(a)@ == final(r)@ { unimplemented!() }
pub fn v_none() -> (r: &'static [u8]) ensures r@ == Seq::<u8>::empty() { let r: &'static [u8] = &[]; proof { assert(r@ =~= Seq::<u8>::empty()); } r }
#[verifier::external_body] pub fn v_vec(b: &[u8]) -> (r: Vec<u8>) ensures r@ == b@ { unimplemented!() }
#[verifier::external_body] pub fn v_slice(b: &Vec<u8>) -> (r: &[u8]) ensures r@ == b@ { unimplemented!() }
#[verifier::external_body] pub fn v_from<const N: usize>(b: &[u8; N], k: usize) -> (r: &[u8]) requires k <= N ensures r@ == b@.subrange(k as int, N as int) { unimplemented!() }
// the BLS library's keys: a scalar of the group, and the point it generates
#[verifier::external_body] pub struct BlsPublicKey { _p: u8 }
#[verifier::external_body] pub struct BlsSecretKey { _p: u8 }
impl View for BlsSecretKey { type V = nat; uninterp spec fn view(&self) -> nat; }
pub uninterp spec fn public_of(k: nat) -> BlsPublicKey;
#[derive(Debug)] pub struct BlsError;
impl BlsSecretKey {
    #[verifier::external_body] pub fn try_from(b: &[u8]) -> (r: core::result::Result<BlsSecretKey, BlsError>)
        ensures r is Ok <==> b@.len() == 32 && 0 < be_nat(b@) < bls_modulus(), r matches Ok(k) ==> k@ == be_nat(b@) { unimplemented!() }
    #[verifier::external_body] pub fn public_key(&self) -> (r: BlsPublicKey) ensures r == public_of(self@) { unimplemented!() }
}
// a path as the sequence of its pieces
pub enum Piece { Text(Seq<char>), Num(u32) }
#[verifier::external_body] pub struct Path { _p: u8 }
impl View for Path { type V = Seq<Piece>; uninterp spec fn view(&self) -> Seq<Piece>; }
#[verifier::external_body] pub fn v_path(a: &str, i: u32, b: &str) -> (r: Path) ensures r@ == seq![Piece::Text(a@), Piece::Num(i), Piece::Text(b@)] { unimplemented!() }
pub open spec fn pair_ok(k: KeyPair, key: nat) -> bool { k.private_key@ == key && k.public_key == public_of(key) }
pub open spec fn seed_pairs(w: Seq<KeyPair>, s: Seq<KeyPair>, seed: Seq<u8>, start: u32, k: nat) -> bool {
    w.len() == k && s.len() == k && (k == 0 || exists|root: nat| #[trigger] mod_r(seed, root) && forall|i: int| 0 <= i < k ==> #[trigger] pair_at(w[i], s[i], root, (start + i) as u32))
}
pub open spec fn pair_at(s: KeyPair, w: KeyPair, root: nat, i: u32) -> bool {
    withdrawal_key(root, i, w.private_key@) && w.public_key == public_of(w.private_key@) && child(w.private_key@, 0u32, s.private_key@) && s.public_key == public_of(s.private_key@)
    && s.path@ == seq![Piece::Text("m/12381/3600/"@), Piece::Num(i), Piece::Text("/0/0"@)] && w.path@ == seq![Piece::Text("m/12381/3600/"@), Piece::Num(i), Piece::Text("/0"@)]
}
@@subst
pub const SALT : & \[ u8 ; (\d+) \] => pub const SALT : [u8 ; \1]
pub type Path = String ; => 
pub (?:\( crate \) )?const MODULUS : U256 = (?:\w+ :: )*uint ! \( (\d+)_?U256 \) ; => pub open spec fn MODULUS() -> nat { \1 }
debug_assert ! \( M % N == 0 \) ; => v_assert ( M % N == 0 ) ;
debug_assert ! \( input \. len \( \) == M \) ; => v_assert ( input . len ( ) == M ) ;
& mut (output_\d|okm) \) => v_mut ( & mut \1 ) )
^struct Key => pub struct Key
debug_assert_eq ! \( lamport_public_key \. len \( \) , (\d+) \) ; => v_assert ( lamport_public_key . len ( ) == \1 ) ;
debug_assert_eq ! \( key % r , key \) ; => ;
(\w+) \. chunks_exact \( N \) \. collect \( \) => v_chunks ( \1 , N )
Hkdf :: < Sha256 > :: => Hkdf ::
hk \. expand \( & \[ \] , => hk . expand ( v_none ( ) ,
index \. to_be_bytes \( \) => v_be4 ( index )
(\w+) \. into_iter \( \) \. map \( \| i \| ! i \) \. collect \( \) => { let mut __v : Vec < u8 > = Vec :: new ( ) ; let mut __i : usize = 0 ; while __i < \1 . len ( ) { __loop ! ( 9 ) ; let i = \1 [ __i ] ; __v . push ( ! i ) ; __i = __i + 1 ; } __v }
lamport_(\d) \. into_iter \( \) \. map \( hash \) \. for_each \( \| data \| \{ (.*?) \} \) ; => let mut __i\1 : usize = 0 ; while __i\1 < lamport_\1 . len ( ) { __loop ! ( 2\1 ) ; let data = hash ( lamport_\1 [ __i\1 ] ) ; \2 __i\1 = __i\1 + 1 ; }
(\w+) \. as_ref \( \) \. try_into \( \) \. unwrap \( \) => v_arr :: < 32 > ( \1 . as_ref ( ) )
U384 :: ZERO => U384 :: zero ( )
U384 :: from \( MODULUS \) => U384 :: from_modulus ( )
while key == U384 :: zero \( \) => while key . is_zero ( )
inner % r => inner . v_rem ( r )
key_bytes \[ 16 \.\. \] \. try_into \( \) \. unwrap \( \) => v_arr :: < 32 > ( v_from ( & key_bytes , 16 ) )
hash \( SALT \) => hash ( & SALT )
hash \( & lamport_public_key \) => hash ( v_slice ( & lamport_public_key ) )
input \. to_vec \( \) => v_vec ( input )
BlsSecretKey :: try_from \( key \. as_ref \( \) \) \. unwrap \( \) => BlsSecretKey :: try_from ( & key ) . unwrap ( )
\[ (\d+) , (\d+) , index , (\d+) \] \. into_iter \( \) \. fold \( root_key \. clone \( \) , \| key , index \| (.*?) \) ; => { let __p = [ \1 , \2 , index , \3 ] ; let mut key = Key ( root_key . 0 ) ; let mut __i : usize = 0 ; while __i < 4 { __loop ! ( 30 ) ; let index = __p [ __i ] ; key = \4 ; __i = __i + 1 ; } key } ;
format ! \( ("[^"{}]*)\{index\}([^"{}]*") \) => v_path ( \1" , index , "\2 )
\( start \.\. end \) \. into_par_iter \( \) \. map \( \| i \| (.*?) \) \. unzip \( \) => { let mut __a : Vec < KeyPair > = Vec :: new ( ) ; let mut __b : Vec < KeyPair > = Vec :: new ( ) ; let mut i : u32 = start ; while i < end { __loop ! ( 40 ) ; let ( x , y ) = \1 ; __a . push ( x ) ; __b . push ( y ) ; i = i + 1 ; } ( __a , __b ) }
seed : & Seed => seed : & [u8 ; 64]
@@const SALT L K LAMPORT_COUNT LAMPORT_L MODULUS
@@struct KeyPair Key
@@type ValidatorKeys
@@fn bytes_split
requires N > 0, M % N == 0, input@.len() == M,
ensures r@.len() == M as int / N as int, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == input@.subrange(N * i, N * i + N),
@@fn ikm_to_lamport_secret_key
requires old(output)@.len() == 8160,
ensures final(output)@ == lamport(salt@, ikm@), r@.len() == 255, forall|i: int| 0 <= i < 255 ==> (#[trigger] r@[i])@ == lamport(salt@, ikm@).subrange(32 * i, 32 * i + 32),
@@fn flip_bits
ensures r@ =~= flipped(input@),
@ loop 9
invariant __i <= 32, __v@ =~= flipped(input@).subrange(0, __i as int),
decreases 32 - __i,
@ loopstart 9
let ghost b = input@[__i as int];
proof { assert(!b == 255 - b) by (bit_vector); }
@@fn parent_key_to_lamport_public_key
ensures r@ == compressed(key.0@, index),
@ loop 20
invariant __i0 <= 255, lamport_public_key@ =~= hashed(lamport(salt@, ikm@), __i0 as nat), lamport_public_key@.len() == 32 * __i0,
decreases 255 - __i0,
@ loop 21
invariant __i1 <= 255, lamport_public_key@ =~= hashed(lamport(salt@, ikm@), 255) + hashed(lamport(salt@, not_ikm@), __i1 as nat), hashed(lamport(salt@, ikm@), 255).len() == 8160, hashed(lamport(salt@, not_ikm@), __i1 as nat).len() == 32 * __i1,
decreases 255 - __i1,
@@fn hkdf_mod_r noterm=1
ensures mod_r(input@, r.0@),
@ start
let ghost mut k: nat = 0;
proof { lemma_modulus(); assert(SALT@ =~= seq![66u8, 76u8, 83u8, 45u8, 83u8, 73u8, 71u8, 45u8, 75u8, 69u8, 89u8, 71u8, 69u8, 78u8, 45u8, 83u8, 65u8, 76u8, 84u8, 45u8]); }
@ loop 0
invariant salt@ == salt_at(k), ikm@ =~= input@.push(0u8), key_info@ =~= seq![0u8, 48u8], r@ == bls_modulus(), key@ < bls_modulus(),
 key@ == 0 ==> forall|j: nat| j < k ==> #[trigger] candidate(input@, j) == 0,
 key@ != 0 ==> k > 0 && candidate(input@, (k - 1) as nat) == key@ && forall|j: nat| j < k - 1 ==> #[trigger] candidate(input@, j) == 0,
@ after key = inner \. v_rem \( r \) ;
proof { assert(key@ == candidate(input@, k)); k = k + 1; }
@ before let key_bytes
proof { lemma_low(key@); }
@@fn derive_child_key
ensures child(parent_key.0@, index, r.0@),
@@fn derive_master_sk
ensures mod_r(seed@, r.0@),
@@fn to_bls_secret_key
requires 0 < key.0@ < bls_modulus(),
ensures r@ == key.0@,
@ start
proof { lemma_modulus(); lemma_nat_be(key.0@, 32); }
@@fn to_key_pair
requires 0 < key.0@ < bls_modulus(),
ensures pair_ok(r, key.0@), r.path == path,
@@fn derive_validator_keys
ensures pair_at(r.0, r.1, root_key.0@, index),
@ loop 30
invariant __i <= 4, __p@ =~= seq![12381u32, 3600u32, index, 0u32],
 __i == 0 ==> key.0@ == root_key.0@,
 __i == 1 ==> child(root_key.0@, 12381u32, key.0@),
 __i == 2 ==> exists|a: nat| #[trigger] child(root_key.0@, 12381u32, a) && child(a, 3600u32, key.0@),
 __i == 3 ==> exists|a: nat, b: nat| #[trigger] child(root_key.0@, 12381u32, a) && #[trigger] child(a, 3600u32, b) && child(b, index, key.0@),
 __i == 4 ==> withdrawal_key(root_key.0@, index, key.0@),
decreases 4 - __i,
@ before let signing =
proof { let (a, b, c) = choose|a: nat, b: nat, c: nat| #[trigger] child(root_key.0@, 12381u32, a) && #[trigger] child(a, 3600u32, b) && #[trigger] child(b, index, c) && child(c, 0u32, withdrawal_key.0@);
    lemma_in_field(compressed(c, 0u32), withdrawal_key.0@); lemma_in_field(compressed(withdrawal_key.0@, 0u32), signing_key.0@); }
@@fn generate
ensures start <= end ==> seed_pairs(r.0@, r.1@, seed@, start, (end - start) as nat), start > end ==> r.0@.len() == 0 && r.1@.len() == 0,
@ loop 40
invariant start <= i, start <= end ==> i <= end, start > end ==> i == start, __a@.len() == i - start, __b@.len() == i - start, mod_r(seed@, root_key.0@),
 forall|k: int| 0 <= k < i - start ==> #[trigger] pair_at(__a@[k], __b@[k], root_key.0@, (start + k) as u32),
decreases end - i,
