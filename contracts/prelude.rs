// Verifier-side prelude: opaque stand-ins for the types of dependencies and assumed contracts on
// functions of dependencies and of the standard library.  Every `external_body` / `axiom` here is
// an assumption and is reported in the evidence of each check.

#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Bytes32 { pub data: [u8; 32] }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Node { pub data: [u8; 32] }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct ExecutionAddress { pub data: [u8; 20] }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct BlsPublicKey { pub data: [u8; 48] }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct BlsSignature { pub data: [u8; 96] }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct KzgCommitment { pub data: [u8; 48] }
// byte strings of other lengths: only their identity matters
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct ByteVector { pub ident: u128 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct ByteList { pub ident: u128 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Transaction { pub ident: u128 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct U256 { pub data: [u8; 32] }

#[derive(Clone, Copy, PartialEq, Eq, Structural, Debug)]
pub struct Error;
pub type Result<T> = core::result::Result<T, Error>;
#[verifier::external_body] pub struct SecretKey { _p: u8 }
pub uninterp spec fn sk_sig(k: SecretKey, msg: Seq<u8>) -> BlsSignature;
impl SecretKey { #[verifier::external_body] pub fn sign(&self, msg: &[u8]) -> (r: BlsSignature) ensures r == sk_sig(*self, msg@) { unimplemented!() } }
//--split--

// ---- value semantics of Clone / Default ----
pub trait VClone: Sized { fn vclone(&self) -> (r: Self) ensures r == *self; }
impl<T> VClone for T { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
pub uninterp spec fn default_of<T>() -> T;
pub trait VDefault: Sized { fn vdefault() -> (r: Self) ensures r == default_of::<Self>(); }
impl<T> VDefault for T { #[verifier::external_body] fn vdefault() -> (r: Self) { unimplemented!() } }
pub uninterp spec fn zero_node() -> Node;
pub uninterp spec fn zero_bytes32() -> Bytes32;

// ---- bytes ----
pub trait VBytes { spec fn vbs(&self) -> Seq<u8>; }
impl VBytes for [u8] { open spec fn vbs(&self) -> Seq<u8> { self@ } }
impl<const N: usize> VBytes for [u8; N] { open spec fn vbs(&self) -> Seq<u8> { self@ } }
impl VBytes for Vec<u8> { open spec fn vbs(&self) -> Seq<u8> { self@ } }
impl VBytes for Bytes32 { open spec fn vbs(&self) -> Seq<u8> { self.data@ } }
impl VBytes for Node { open spec fn vbs(&self) -> Seq<u8> { self.data@ } }
impl VBytes for ExecutionAddress { open spec fn vbs(&self) -> Seq<u8> { self.data@ } }
impl VBytes for BlsPublicKey { open spec fn vbs(&self) -> Seq<u8> { self.data@ } }
impl VBytes for BlsSignature { open spec fn vbs(&self) -> Seq<u8> { self.data@ } }
impl VBytes for KzgCommitment { open spec fn vbs(&self) -> Seq<u8> { self.data@ } }
impl<T: VBytes + ?Sized> VBytes for &T { open spec fn vbs(&self) -> Seq<u8> { (**self).vbs() } }
impl Bytes32 { pub fn vas_ref(&self) -> (r: &[u8]) ensures r@ == self.data@ { self.data.as_slice() } }
impl Node { pub fn vas_ref(&self) -> (r: &[u8]) ensures r@ == self.data@ { self.data.as_slice() } }
impl Bytes32 { pub fn len(&self) -> (r: usize) ensures r == 32 { 32 } }
impl Bytes32 { pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self.data@ { self.data.as_slice() } }
impl ExecutionAddress { pub fn vas_ref(&self) -> (r: &[u8]) ensures r@ == self.data@ { self.data.as_slice() } }
impl BlsPublicKey { pub fn vas_ref(&self) -> (r: &[u8]) ensures r@ == self.data@ { self.data.as_slice() } }
impl BlsSignature { pub fn vas_ref(&self) -> (r: &[u8]) ensures r@ == self.data@ { self.data.as_slice() } }
impl KzgCommitment { pub fn vas_ref(&self) -> (r: &[u8]) ensures r@ == self.data@ { self.data.as_slice() } }

pub open spec fn kzb(x: KzgCommitment) -> Seq<u8> { x.data@ }
pub open spec fn b32(x: Bytes32) -> Seq<u8> { x.data@ }
pub open spec fn pkb(x: BlsPublicKey) -> Seq<u8> { x.data@ }
pub open spec fn sigb(x: BlsSignature) -> Seq<u8> { x.data@ }
pub open spec fn xb(x: ExecutionAddress) -> Seq<u8> { x.data@ }
pub open spec fn nb(x: Node) -> Seq<u8> { x.data@ }
pub open spec fn seq1(x: u8) -> Seq<u8> { seq![x] }
pub open spec fn splice(d: Seq<u8>, a: int, s: Seq<u8>) -> Seq<u8> {
    d.subrange(0, a) + s + d.subrange(a + s.len(), d.len() as int)
}
pub trait VCopy {
    spec fn vcs(&self) -> Seq<u8>;
    // `self[a..b].copy_from_slice(s)`: panics unless the lengths agree
    fn vcopy_range<S: VBytes + ?Sized>(&mut self, a: usize, b: usize, s: &S)
        requires a <= b <= old(self).vcs().len(), s.vbs().len() == b - a,
        ensures final(self).vcs() == splice(old(self).vcs(), a as int, s.vbs());
    fn vcopy_from<S: VBytes + ?Sized>(&mut self, a: usize, s: &S)
        requires a <= old(self).vcs().len(), s.vbs().len() == old(self).vcs().len() - a,
        ensures final(self).vcs() == splice(old(self).vcs(), a as int, s.vbs());
    fn vset(&mut self, i: usize, x: u8) requires i < old(self).vcs().len() ensures final(self).vcs() == old(self).vcs().update(i as int, x);
    fn vfill_range(&mut self, a: usize, b: usize, x: u8)
        requires a <= b <= old(self).vcs().len(),
        ensures final(self).vcs() == splice(old(self).vcs(), a as int, Seq::new((b - a) as nat, |i: int| x));
}
impl<const N: usize> VCopy for [u8; N] {
    open spec fn vcs(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vcopy_range<S: VBytes + ?Sized>(&mut self, a: usize, b: usize, s: &S) { unimplemented!() }
    #[verifier::external_body] fn vcopy_from<S: VBytes + ?Sized>(&mut self, a: usize, s: &S) { unimplemented!() }
    #[verifier::external_body] fn vset(&mut self, i: usize, x: u8) { unimplemented!() }
    #[verifier::external_body] fn vfill_range(&mut self, a: usize, b: usize, x: u8) { unimplemented!() }
}
impl VCopy for [u8] {
    open spec fn vcs(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vcopy_range<S: VBytes + ?Sized>(&mut self, a: usize, b: usize, s: &S) { unimplemented!() }
    #[verifier::external_body] fn vcopy_from<S: VBytes + ?Sized>(&mut self, a: usize, s: &S) { unimplemented!() }
    #[verifier::external_body] fn vset(&mut self, i: usize, x: u8) { unimplemented!() }
    #[verifier::external_body] fn vfill_range(&mut self, a: usize, b: usize, x: u8) { unimplemented!() }
}
// `&X[a..b]`
pub trait VSub<T> {
    spec fn vsubs(&self) -> Seq<T>;
    fn vsub(&self, a: usize, b: usize) -> (r: &[T]) requires a <= b <= self.vsubs().len() ensures r@ == self.vsubs().subrange(a as int, b as int);
    fn vsub_from(&self, a: usize) -> (r: &[T]) requires a <= self.vsubs().len() ensures r@ == self.vsubs().subrange(a as int, self.vsubs().len() as int);
}
impl<T> VSub<T> for [T] {
    open spec fn vsubs(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vsub(&self, a: usize, b: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn vsub_from(&self, a: usize) -> (r: &[T]) { unimplemented!() }
}
impl<T> VSub<T> for Vec<T> {
    open spec fn vsubs(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vsub(&self, a: usize, b: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn vsub_from(&self, a: usize) -> (r: &[T]) { unimplemented!() }
}
impl VCopy for Bytes32 {
    open spec fn vcs(&self) -> Seq<u8> { self.data@ }
    #[verifier::external_body] fn vcopy_range<S: VBytes + ?Sized>(&mut self, a: usize, b: usize, s: &S) { unimplemented!() }
    #[verifier::external_body] fn vcopy_from<S: VBytes + ?Sized>(&mut self, a: usize, s: &S) { unimplemented!() }
    #[verifier::external_body] fn vset(&mut self, i: usize, x: u8) { unimplemented!() }
    #[verifier::external_body] fn vfill_range(&mut self, a: usize, b: usize, x: u8) { unimplemented!() }
}
impl VSub<u8> for Bytes32 {
    open spec fn vsubs(&self) -> Seq<u8> { self.data@ }
    #[verifier::external_body] fn vsub(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vsub_from(&self, a: usize) -> (r: &[u8]) { unimplemented!() }
}
impl VCopy for Node {
    open spec fn vcs(&self) -> Seq<u8> { self.data@ }
    #[verifier::external_body] fn vcopy_range<S: VBytes + ?Sized>(&mut self, a: usize, b: usize, s: &S) { unimplemented!() }
    #[verifier::external_body] fn vcopy_from<S: VBytes + ?Sized>(&mut self, a: usize, s: &S) { unimplemented!() }
    #[verifier::external_body] fn vset(&mut self, i: usize, x: u8) { unimplemented!() }
    #[verifier::external_body] fn vfill_range(&mut self, a: usize, b: usize, x: u8) { unimplemented!() }
}
impl VSub<u8> for Node {
    open spec fn vsubs(&self) -> Seq<u8> { self.data@ }
    #[verifier::external_body] fn vsub(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vsub_from(&self, a: usize) -> (r: &[u8]) { unimplemented!() }
}
impl VCopy for ExecutionAddress {
    open spec fn vcs(&self) -> Seq<u8> { self.data@ }
    #[verifier::external_body] fn vcopy_range<S: VBytes + ?Sized>(&mut self, a: usize, b: usize, s: &S) { unimplemented!() }
    #[verifier::external_body] fn vcopy_from<S: VBytes + ?Sized>(&mut self, a: usize, s: &S) { unimplemented!() }
    #[verifier::external_body] fn vset(&mut self, i: usize, x: u8) { unimplemented!() }
    #[verifier::external_body] fn vfill_range(&mut self, a: usize, b: usize, x: u8) { unimplemented!() }
}
impl VSub<u8> for ExecutionAddress {
    open spec fn vsubs(&self) -> Seq<u8> { self.data@ }
    #[verifier::external_body] fn vsub(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vsub_from(&self, a: usize) -> (r: &[u8]) { unimplemented!() }
}
impl VCopy for BlsPublicKey {
    open spec fn vcs(&self) -> Seq<u8> { self.data@ }
    #[verifier::external_body] fn vcopy_range<S: VBytes + ?Sized>(&mut self, a: usize, b: usize, s: &S) { unimplemented!() }
    #[verifier::external_body] fn vcopy_from<S: VBytes + ?Sized>(&mut self, a: usize, s: &S) { unimplemented!() }
    #[verifier::external_body] fn vset(&mut self, i: usize, x: u8) { unimplemented!() }
    #[verifier::external_body] fn vfill_range(&mut self, a: usize, b: usize, x: u8) { unimplemented!() }
}
impl VSub<u8> for BlsPublicKey {
    open spec fn vsubs(&self) -> Seq<u8> { self.data@ }
    #[verifier::external_body] fn vsub(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vsub_from(&self, a: usize) -> (r: &[u8]) { unimplemented!() }
}
impl VCopy for BlsSignature {
    open spec fn vcs(&self) -> Seq<u8> { self.data@ }
    #[verifier::external_body] fn vcopy_range<S: VBytes + ?Sized>(&mut self, a: usize, b: usize, s: &S) { unimplemented!() }
    #[verifier::external_body] fn vcopy_from<S: VBytes + ?Sized>(&mut self, a: usize, s: &S) { unimplemented!() }
    #[verifier::external_body] fn vset(&mut self, i: usize, x: u8) { unimplemented!() }
    #[verifier::external_body] fn vfill_range(&mut self, a: usize, b: usize, x: u8) { unimplemented!() }
}
impl VSub<u8> for BlsSignature {
    open spec fn vsubs(&self) -> Seq<u8> { self.data@ }
    #[verifier::external_body] fn vsub(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vsub_from(&self, a: usize) -> (r: &[u8]) { unimplemented!() }
}
impl VCopy for KzgCommitment {
    open spec fn vcs(&self) -> Seq<u8> { self.data@ }
    #[verifier::external_body] fn vcopy_range<S: VBytes + ?Sized>(&mut self, a: usize, b: usize, s: &S) { unimplemented!() }
    #[verifier::external_body] fn vcopy_from<S: VBytes + ?Sized>(&mut self, a: usize, s: &S) { unimplemented!() }
    #[verifier::external_body] fn vset(&mut self, i: usize, x: u8) { unimplemented!() }
    #[verifier::external_body] fn vfill_range(&mut self, a: usize, b: usize, x: u8) { unimplemented!() }
}
impl VSub<u8> for KzgCommitment {
    open spec fn vsubs(&self) -> Seq<u8> { self.data@ }
    #[verifier::external_body] fn vsub(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vsub_from(&self, a: usize) -> (r: &[u8]) { unimplemented!() }
}
#[verifier::external_body]
pub fn vslice_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
// `==` of sequences whose elements are compared structurally
pub trait VSeqOf<T> { spec fn sq(&self) -> Seq<T>; }
impl<T> VSeqOf<T> for [T] { open spec fn sq(&self) -> Seq<T> { self@ } }
impl<T> VSeqOf<T> for Vec<T> { open spec fn sq(&self) -> Seq<T> { self@ } }
impl VSeqOf<u8> for Bytes32 { open spec fn sq(&self) -> Seq<u8> { self.data@ } }
impl VSeqOf<u8> for ExecutionAddress { open spec fn sq(&self) -> Seq<u8> { self.data@ } }
impl<T, A: VSeqOf<T> + ?Sized> VSeqOf<T> for &A { open spec fn sq(&self) -> Seq<T> { (**self).sq() } }
#[verifier::external_body]
pub fn veq_seq<T, A: VSeqOf<T> + ?Sized, B: VSeqOf<T> + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.sq() == b.sq()) { unimplemented!() }
pub trait VVecRef<T> { fn vas_ref(&self) -> (r: &[T]); }
impl<T> VVecRef<T> for Vec<T> { fn vas_ref(&self) -> (r: &[T]) ensures r@ == self@ { self.as_slice() } }
pub trait VLast<T> { fn vlast(&self) -> (r: Option<&T>); }
impl<T> VLast<T> for Vec<T> {
    #[verifier::external_body]
    fn vlast(&self) -> (r: Option<&T>) ensures r is Some <==> self@.len() > 0, r matches Some(x) ==> *x == self@.last() { unimplemented!() }
}
// `T::try_from(bytes).unwrap()` for a byte vector of fixed size: panics unless the length agrees
pub trait VFixed: Sized { spec fn vsize() -> int; spec fn vmake(s: Seq<u8>) -> Self; }
impl VFixed for Bytes32 { open spec fn vsize() -> int { 32 } open spec fn vmake(s: Seq<u8>) -> Bytes32 { Bytes32 { data: arr32(s) } } }
impl VFixed for ExecutionAddress { open spec fn vsize() -> int { 20 } open spec fn vmake(s: Seq<u8>) -> ExecutionAddress { ExecutionAddress { data: arr20(s) } } }
#[verifier::external_body]
pub fn vfrom_bytes<T: VFixed>(s: &[u8]) -> (r: T) requires s@.len() == T::vsize() ensures r == T::vmake(s@) { unimplemented!() }
// conversion of a Vec into a bounded list: an error exactly when it is too long for the list type
// the vector with given elements (vectors with equal elements are identified)
pub uninterp spec fn vec_of<T>(s: Seq<T>) -> Vec<T>;
pub uninterp spec fn list_fits<T>(n: int) -> bool;
#[verifier::external_body]
pub fn vtry_list<T>(v: Vec<T>) -> (r: Result<Vec<T>>) ensures r is Ok <==> list_fits::<T>(v@.len() as int), r matches Ok(x) ==> x@ == v@ { unimplemented!() }
#[verifier::external_body]
pub fn vto_array<const N: usize>(s: &[u8]) -> (r: [u8; N]) requires s@.len() == N ensures r@ == s@ { unimplemented!() }

#[verifier::external_body]
pub fn vtry_vector<T>(v: Vec<T>, n: usize) -> (r: Result<Vec<T>>) ensures r is Ok <==> v@.len() == n, r matches Ok(x) ==> x@ == v@ { unimplemented!() }
// a vector whose length the compiler infers from where the value goes
pub uninterp spec fn vector_fits<T>(n: int) -> bool;
#[verifier::external_body]
pub fn vtry_some_vector<T>(v: Vec<T>) -> (r: Result<Vec<T>>) ensures r is Ok <==> vector_fits::<T>(v@.len() as int), r matches Ok(x) ==> x@ == v@ { unimplemented!() }
#[verifier::external_body]
pub fn vrepeat<T>(x: T, n: usize) -> (r: Vec<T>) ensures r@ == Seq::new(n as nat, |i: int| x) { unimplemented!() }
#[verifier::external_body]
pub fn vcloned_or_default<T>(x: Option<&T>) -> (r: T) ensures r == (match x { Some(y) => *y, None => default_of::<T>() }) { unimplemented!() }
// little endian integers
pub uninterp spec fn le_u64(s: Seq<u8>) -> u64;
pub uninterp spec fn u64_le(x: u64) -> Seq<u8>;
pub uninterp spec fn u32_le(x: u32) -> Seq<u8>;
pub trait VLe { type A; spec fn les(&self) -> Self::A; fn vto_le_bytes(&self) -> (r: Self::A) ensures r == self.les(); }
pub uninterp spec fn u64_le_arr(x: u64) -> [u8; 8];
pub uninterp spec fn u32_le_arr(x: u32) -> [u8; 4];
impl VLe for u64 { type A = [u8; 8]; open spec fn les(&self) -> [u8; 8] { u64_le_arr(*self) } #[verifier::external_body] fn vto_le_bytes(&self) -> (r: [u8; 8]) { unimplemented!() } }
impl VLe for usize { type A = [u8; 8]; open spec fn les(&self) -> [u8; 8] { u64_le_arr(*self as u64) } #[verifier::external_body] fn vto_le_bytes(&self) -> (r: [u8; 8]) { unimplemented!() } }
impl VLe for u32 { type A = [u8; 4]; open spec fn les(&self) -> [u8; 4] { u32_le_arr(*self) } #[verifier::external_body] fn vto_le_bytes(&self) -> (r: [u8; 4]) { unimplemented!() } }
#[verifier::external_body]
pub fn vu64_from_le_bytes(b: [u8; 8]) -> (r: u64) ensures r == le_u64(b@) { unimplemented!() }

// ---- hashing ----
pub uninterp spec fn sha256(s: Seq<u8>) -> Bytes32;
#[verifier::external_body]
pub fn hash<T: VBytes>(x: T) -> (r: Bytes32) ensures r == sha256(x.vbs()) { unimplemented!() }
pub uninterp spec fn htr<T>(x: T) -> Node;
pub trait VHtr { spec fn root(&self) -> Node; fn hash_tree_root(&self) -> (r: Result<Node>) ensures r is Ok, r matches Ok(v) ==> v == self.root(); }
impl<T> VHtr for Vec<T> { open spec fn root(&self) -> Node { htr(self@) } #[verifier::external_body] fn hash_tree_root(&self) -> (r: Result<Node>) { unimplemented!() } }
impl VHtr for u64 { open spec fn root(&self) -> Node { htr(*self) } #[verifier::external_body] fn hash_tree_root(&self) -> (r: Result<Node>) { unimplemented!() } }
impl VHtr for Node { open spec fn root(&self) -> Node { htr(*self) } #[verifier::external_body] fn hash_tree_root(&self) -> (r: Result<Node>) { unimplemented!() } }
impl VHtr for Bytes32 { open spec fn root(&self) -> Node { htr(*self) } #[verifier::external_body] fn hash_tree_root(&self) -> (r: Result<Node>) { unimplemented!() } }
// the execution engine is consulted through one call; its answer is any function of the request
pub uninterp spec fn engine_ok<T>(on: bool, req: T) -> bool;
pub trait ExecutionEngine { spec fn on(&self) -> bool; fn verify_and_notify_new_payload<T>(&self, req: &T) -> (r: Result<()>) ensures r is Ok <==> engine_ok(self.on(), *req); }
impl ExecutionEngine for bool { open spec fn on(&self) -> bool { *self } #[verifier::external_body] fn verify_and_notify_new_payload<T>(&self, req: &T) -> (r: Result<()>) { unimplemented!() } }
pub trait VAny {}
pub uninterp spec fn arr32(s: Seq<u8>) -> [u8; 32];
pub uninterp spec fn arr20(s: Seq<u8>) -> [u8; 20];

// ---- signatures: uninterpreted predicates, the proofs hold for any of them ----
pub uninterp spec fn sig_valid(pk: BlsPublicKey, msg: Seq<u8>, sig: BlsSignature) -> bool;
pub uninterp spec fn agg_valid(pks: Seq<BlsPublicKey>, msg: Seq<u8>, sig: BlsSignature) -> bool;
pub uninterp spec fn eth_agg_valid(pks: Seq<BlsPublicKey>, msg: Seq<u8>, sig: BlsSignature) -> bool;
pub uninterp spec fn agg_key_ok(pks: Seq<BlsPublicKey>) -> bool;
pub uninterp spec fn agg_key(pks: Seq<BlsPublicKey>) -> BlsPublicKey;
pub trait VKeys { spec fn vks(&self) -> Seq<BlsPublicKey>; }
impl VKeys for Vec<BlsPublicKey> { open spec fn vks(&self) -> Seq<BlsPublicKey> { self@ } }
impl VKeys for [BlsPublicKey] { open spec fn vks(&self) -> Seq<BlsPublicKey> { self@ } }
impl<'a> VKeys for Vec<&'a BlsPublicKey> { open spec fn vks(&self) -> Seq<BlsPublicKey> { Seq::new(self@.len(), |i: int| *self@[i]) } }
impl<'a> VKeys for [&'a BlsPublicKey] { open spec fn vks(&self) -> Seq<BlsPublicKey> { Seq::new(self@.len(), |i: int| *self@[i]) } }
impl<'a, const N: usize> VKeys for [&'a BlsPublicKey; N] { open spec fn vks(&self) -> Seq<BlsPublicKey> { Seq::new(N as nat, |i: int| *self@[i]) } }
#[verifier::external_body]
pub fn verify_signature(pk: &BlsPublicKey, msg: &[u8], sig: &BlsSignature) -> (r: Result<()>) ensures r is Ok <==> sig_valid(*pk, msg@, *sig) { unimplemented!() }
#[verifier::external_body]
pub fn fast_aggregate_verify<K: VKeys + ?Sized>(pks: &K, msg: &[u8], sig: &BlsSignature) -> (r: Result<()>) ensures r is Ok <==> agg_valid(pks.vks(), msg@, *sig) { unimplemented!() }
#[verifier::external_body]
pub fn eth_fast_aggregate_verify<K: VKeys + ?Sized>(pks: &K, msg: &[u8], sig: &BlsSignature) -> (r: Result<()>) ensures r is Ok <==> eth_agg_valid(pks.vks(), msg@, *sig) { unimplemented!() }
#[verifier::external_body]
pub fn eth_aggregate_public_keys<K: VKeys + ?Sized>(pks: &K) -> (r: Result<BlsPublicKey>) ensures r is Ok <==> agg_key_ok(pks.vks()), r matches Ok(k) ==> k == agg_key(pks.vks()) { unimplemented!() }
// Merkle branches: the fold is done by the SSZ library
pub uninterp spec fn branch_valid(leaf: Node, branch: Seq<Node>, depth: int, index: int, root: Node) -> bool;
#[verifier::external_body]
pub fn is_valid_merkle_branch(leaf: Node, branch: &[Node], depth: usize, index: usize, root: Node) -> (r: Result<()>) ensures r is Ok <==> branch_valid(leaf, branch@, depth as int, index as int, root) { unimplemented!() }

pub trait VBool { spec fn vbo(&self) -> bool; fn vb(&self) -> (r: bool) ensures r == self.vbo(); }
impl VBool for bool { open spec fn vbo(&self) -> bool { *self } fn vb(&self) -> (r: bool) { *self } }
// ---- containers ----
pub trait VGet<T> {
    spec fn vgs(&self) -> Seq<T>;
    fn vget(&self, i: usize) -> (r: Option<&T>)
        ensures i < self.vgs().len() ==> r == Some(&self.vgs()[i as int]), i >= self.vgs().len() ==> r is None;
}
impl<T> VGet<T> for Vec<T> {
    open spec fn vgs(&self) -> Seq<T> { self@ }
    fn vget(&self, i: usize) -> (r: Option<&T>) { if i < self.len() { Some(&self[i]) } else { None } }
}
impl<T> VGet<T> for [T] {
    open spec fn vgs(&self) -> Seq<T> { self@ }
    fn vget(&self, i: usize) -> (r: Option<&T>) { if i < self.len() { Some(&self[i]) } else { None } }
}
pub trait VSlice<T> {
    spec fn vss(&self) -> Seq<T>;
    fn vto_vec(&self) -> (r: Vec<T>) ensures r@ == self.vss();
}
impl<T> VSlice<T> for [T] {
    open spec fn vss(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vto_vec(&self) -> (r: Vec<T>) { unimplemented!() }
}
impl<T> VSlice<T> for Vec<T> {
    open spec fn vss(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vto_vec(&self) -> (r: Vec<T>) { unimplemented!() }
}
pub trait VVec<T> {
    spec fn vvs(&self) -> Seq<T>;
    fn vclear(&mut self) ensures final(self).vvs() == Seq::<T>::empty();
    // `drain(..n)`, the removed items dropped
    fn vdrain_to(&mut self, n: usize) requires n <= old(self).vvs().len() ensures final(self).vvs() == old(self).vvs().subrange(n as int, old(self).vvs().len() as int);
    fn vswap_elems(&mut self, a: usize, b: usize)
        requires a < old(self).vvs().len(), b < old(self).vvs().len(),
        ensures final(self).vvs() == old(self).vvs().update(a as int, old(self).vvs()[b as int]).update(b as int, old(self).vvs()[a as int]);
}
impl<T> VVec<T> for Vec<T> {
    open spec fn vvs(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vclear(&mut self) { unimplemented!() }
    #[verifier::external_body] fn vdrain_to(&mut self, n: usize) { unimplemented!() }
    #[verifier::external_body] fn vswap_elems(&mut self, a: usize, b: usize) { unimplemented!() }
}
// `vec![x; n]`
#[verifier::external_body]
pub fn vvec_repeat<T>(x: T, n: usize) -> (r: Vec<T>) ensures r@ == Seq::new(n as nat, |i: int| x) { unimplemented!() }
// `v.iter()` handed to a function that takes the items
pub trait VIter<T> {
    fn viter(&self) -> (r: Vec<&T>);
}
impl<T> VIter<T> for Vec<T> {
    #[verifier::external_body]
    fn viter(&self) -> (r: Vec<&T>)
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] r@[i]) == self@[i],
    { unimplemented!() }
}
// `None`, with the type of a reference into `v`
// a map collected from pairs: the last pair with a key counts (`HashMap`, `BTreeMap`)
pub struct VMap<'a, K, V> { pub e: Vec<(&'a K, V)> }
pub fn vmap_of<'a, K, V>(e: Vec<(&'a K, V)>) -> (r: VMap<'a, K, V>) ensures r.e == e { VMap { e } }
pub open spec fn vmap_at<'a, K, V>(e: Seq<(&'a K, V)>, k: K, i: int) -> bool { 0 <= i < e.len() && *e[i].0 == k && forall|j: int| i < j < e.len() ==> *(#[trigger] e[j]).0 != k }
impl<'a, K, V> VMap<'a, K, V> {
    #[verifier::external_body]
    pub fn vget(&self, k: &K) -> (r: Option<&V>)
        ensures r matches Some(v) ==> exists|i: int| #[trigger] vmap_at(self.e@, *k, i) && *v == self.e@[i].1, r is None ==> forall|i: int| 0 <= i < self.e@.len() ==> *(#[trigger] self.e@[i]).0 != *k
    { unimplemented!() }
}
pub fn vnone_of<'a, T>(v: &'a Vec<T>) -> (r: Option<&'a T>) ensures r is None { None }
// `mem::take`, `mem::replace`
#[verifier::external_body]
pub fn vtake<T>(x: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(x)@, final(x)@ == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn vreplace<T>(x: &mut T, y: T) -> (r: T) ensures r == *old(x), *final(x) == y { unimplemented!() }
// bit vectors
pub trait VBits {
    spec fn vbits(&self) -> Seq<bool>;
    fn vall_range(&self, a: usize, b: usize) -> (r: bool)
        requires a <= b <= self.vbits().len(),
        ensures r == (forall|i: int| a <= i < b ==> #[trigger] self.vbits()[i]);
    fn vany_bits(&self) -> (r: bool) ensures r == (exists|i: int| 0 <= i < self.vbits().len() && #[trigger] self.vbits()[i]);
    // `copy_within(..n, d)`
    fn vcopy_within_to(&mut self, n: usize, d: usize)
        requires n <= old(self).vbits().len(), d + n <= old(self).vbits().len(),
        ensures final(self).vbits() == Seq::new(old(self).vbits().len(), |i: int| if d <= i < d + n { old(self).vbits()[i - d] } else { old(self).vbits()[i] });
}
impl VBits for Vec<bool> {
    open spec fn vbits(&self) -> Seq<bool> { self@ }
    #[verifier::external_body] fn vall_range(&self, a: usize, b: usize) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vany_bits(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vcopy_within_to(&mut self, n: usize, d: usize) { unimplemented!() }
}
// sets of indices
#[verifier::external_body]
pub fn vset_to_vec(s: &HashSet<usize>) -> (r: Vec<usize>)
    ensures r@.no_duplicates(), forall|x: usize| r@.contains(x) <==> s@.contains(x),
            forall|i: int| 0 <= i < r@.len() ==> s@.contains(#[trigger] r@[i])
{ unimplemented!() }
#[verifier::external_body]
pub fn vset_inter(a: &HashSet<usize>, b: &HashSet<usize>) -> (r: Vec<usize>)
    ensures r@.no_duplicates(), forall|x: usize| r@.contains(x) <==> a@.contains(x) && b@.contains(x),
            forall|i: int| 0 <= i < r@.len() ==> a@.contains(#[trigger] r@[i]) && b@.contains(r@[i])
{ unimplemented!() }
pub trait VContains<T> { spec fn vcs(&self) -> Seq<T>; fn vcontains(&self, x: &T) -> (r: bool) ensures r == self.vcs().contains(*x); }
impl<T> VContains<T> for Vec<T> { open spec fn vcs(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vcontains(&self, x: &T) -> (r: bool) { unimplemented!() } }
impl<T> VContains<T> for [T] { open spec fn vcs(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vcontains(&self, x: &T) -> (r: bool) { unimplemented!() } }
#[verifier::external_body]
pub fn vset_from_vec(s: Vec<usize>) -> (r: HashSet<usize>) ensures r@ == s@.to_set() { unimplemented!() }
pub open spec fn is_sorted_of(q: Seq<usize>, s: Set<usize>) -> bool {
    (forall|i: int, j: int| 0 <= i < j < q.len() ==> q[i] < q[j]) && (forall|i: int| 0 <= i < q.len() ==> s.contains(#[trigger] q[i])) && (forall|x: usize| s.contains(x) ==> #[trigger] q.contains(x))
}
// the elements of a finite set in ascending order
pub open spec fn sorted_set(s: Set<usize>) -> Seq<usize> { choose|q: Seq<usize>| is_sorted_of(q, s) }
pub trait VSort { spec fn vso(&self) -> Seq<usize>;
    fn vsort(&mut self) ensures final(self).vso().len() == old(self).vso().len(), forall|i: int, j: int| 0 <= i < j < final(self).vso().len() ==> final(self).vso()[i] <= final(self).vso()[j],
        final(self).vso().to_multiset() == old(self).vso().to_multiset(), forall|x: usize| final(self).vso().contains(x) <==> old(self).vso().contains(x),
        old(self).vso().no_duplicates() ==> final(self).vso().no_duplicates(); }
impl VSort for Vec<usize> { open spec fn vso(&self) -> Seq<usize> { self@ } #[verifier::external_body] fn vsort(&mut self) { unimplemented!() } }
// `sort()` on pairs: the ascending arrangement
pub uninterp spec fn sorted_pairs(s: Seq<(u64, usize)>) -> Seq<(u64, usize)>;
pub trait VSortPairs { spec fn vsp(&self) -> Seq<(u64, usize)>;
    fn vsort(&mut self) ensures final(self).vsp() == sorted_pairs(old(self).vsp()), final(self).vsp().len() == old(self).vsp().len(), forall|x: (u64, usize)| #[trigger] final(self).vsp().contains(x) ==> old(self).vsp().contains(x); }
impl VSortPairs for Vec<(u64, usize)> { open spec fn vsp(&self) -> Seq<(u64, usize)> { self@ } #[verifier::external_body] fn vsort(&mut self) { unimplemented!() } }
pub assume_specification<T> [Option::<T>::or] (a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some { a } else { b });
// stable lexicographic sort by precomputed (u64, usize) keys
pub open spec fn key_le(a: (u64, usize), b: (u64, usize)) -> bool { a.0 < b.0 || (a.0 == b.0 && a.1 <= b.1) }
#[verifier::external_body]
pub fn vsort_by_keys(v: &mut Vec<usize>, keys: Vec<(u64, usize)>) -> (perm: Ghost<Seq<int>>)
    requires old(v)@.len() == keys@.len(),
    ensures final(v)@.len() == old(v)@.len(), perm@.len() == old(v)@.len(), perm@.no_duplicates(),
        forall|i: int| 0 <= i < perm@.len() ==> 0 <= #[trigger] perm@[i] < old(v)@.len() && final(v)@[i] == old(v)@[perm@[i]],
        forall|i: int, j: int| 0 <= i < j < perm@.len() ==> key_le(keys@[#[trigger] perm@[i]], keys@[#[trigger] perm@[j]]),
        old(v)@.to_multiset() == final(v)@.to_multiset(),
{ unimplemented!() }

// ---- arithmetic ----
pub fn vmax_u64(a: u64, b: u64) -> (r: u64) ensures r == (if a > b { a } else { b }) { if a > b { a } else { b } }
pub fn vmin_u64(a: u64, b: u64) -> (r: u64) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
pub fn vmax_usize(a: usize, b: usize) -> (r: usize) ensures r == (if a > b { a } else { b }) { if a > b { a } else { b } }
pub fn vmin_usize(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
pub fn vtake_end(lo: usize, hi: usize, n: usize) -> (r: usize)
    requires lo <= hi ensures r as int == lo + (if (n as int) < hi - lo { n as int } else { hi - lo }) { if n < hi - lo { lo + n } else { hi } }
pub fn vskip(lo: usize, hi: usize, n: usize) -> (r: usize)
    requires lo <= hi ensures r as int == lo + (if (n as int) < hi - lo { n as int } else { hi - lo }) { if n < hi - lo { lo + n } else { hi } }
pub open spec fn is_isqrt(n: int, r: int) -> bool { r >= 0 && r * r <= n && n < (r + 1) * (r + 1) }
pub trait VIsqrt { spec fn vis(&self) -> int; fn vinteger_sqrt(&self) -> (r: u64) ensures r as int == isqrt(self.vis()), is_isqrt(self.vis(), r as int); }
impl VIsqrt for u64 { open spec fn vis(&self) -> int { *self as int } #[verifier::external_body] fn vinteger_sqrt(&self) -> (r: u64) { unimplemented!() } }
pub uninterp spec fn isqrt(n: int) -> int;

pub open spec fn ipow(b: int, e: int) -> int
    decreases e
{
    if e <= 0 { 1 } else { b * ipow(b, e - 1) }
}
pub trait VPow: Sized { spec fn vpo(&self) -> int; fn vpow(self, e: u32) -> (r: Self) requires ipow(self.vpo(), e as int) <= Self::vpmax() ensures r.vpo() == ipow(self.vpo(), e as int); spec fn vpmax() -> int; }
impl VPow for u8 { open spec fn vpo(&self) -> int { *self as int } open spec fn vpmax() -> int { 255 } #[verifier::external_body] fn vpow(self, e: u32) -> (r: Self) { unimplemented!() } }
impl VPow for u64 { open spec fn vpo(&self) -> int { *self as int } open spec fn vpmax() -> int { u64::MAX as int } #[verifier::external_body] fn vpow(self, e: u32) -> (r: Self) { unimplemented!() } }
// a sampling loop does not run 2^64 times
#[verifier::external_body]
pub proof fn axiom_rounds(x: usize) ensures x < usize::MAX { unimplemented!() }
#[verifier::external_body]
pub fn vassert(b: bool) requires b { unimplemented!() }
#[verifier::external_body]
pub fn vpanic() -> ! requires false { unimplemented!() }
pub mod ax {
use super::*;
pub broadcast axiom fn axiom_vec_of<T>(v: Vec<T>) ensures #[trigger] vec_of(v@) == v;
pub broadcast axiom fn axiom_vec_of_view<T>(s: Seq<T>) ensures s.len() <= usize::MAX ==> (#[trigger] vec_of(s))@ == s;
pub broadcast axiom fn axiom_default_u64() ensures #[trigger] default_of::<u64>() == 0;
pub broadcast axiom fn axiom_default_usize() ensures #[trigger] default_of::<usize>() == 0;
pub broadcast axiom fn axiom_default_vec<T>() ensures #[trigger] default_of::<Vec<T>>()@ == Seq::<T>::empty();
pub broadcast axiom fn axiom_default_node() ensures #[trigger] default_of::<Node>() == zero_node();
pub broadcast axiom fn axiom_default_bytes32() ensures #[trigger] default_of::<Bytes32>() == zero_bytes32();
pub broadcast axiom fn axiom_arr20(x: [u8; 20]) ensures #[trigger] arr20(x@) == x;
pub broadcast axiom fn axiom_arr32(x: [u8; 32]) ensures #[trigger] arr32(x@) == x;
pub broadcast axiom fn axiom_le_len(x: u64) ensures (#[trigger] u64_le(x)).len() == 8;
pub broadcast axiom fn axiom_le_len32(x: u32) ensures (#[trigger] u32_le(x)).len() == 4;
pub broadcast axiom fn axiom_u64_le(x: u64) ensures (#[trigger] u64_le_arr(x))@ == u64_le(x), u64_le(x).len() == 8;
pub broadcast axiom fn axiom_u32_le(x: u32) ensures (#[trigger] u32_le_arr(x))@ == u32_le(x), u32_le(x).len() == 4;
}
