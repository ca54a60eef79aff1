@@module bls file=ethereum-consensus/src/crypto/bls.rs
@@prelude
// ---- blst (assumed contracts of the library; points are abstract) ----
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
#[allow(non_camel_case_types)]
pub enum BLST_ERROR { BLST_SUCCESS, BLST_BAD_ENCODING, BLST_POINT_NOT_ON_CURVE, BLST_POINT_NOT_IN_GROUP, BLST_AGGR_TYPE_MISMATCH, BLST_VERIFY_FAIL, BLST_PK_IS_INFINITY, BLST_BAD_SCALAR }
pub uninterp spec fn pk_decode(b: Seq<u8>) -> Option<int>;            // None: no encoding of a curve point
pub uninterp spec fn pk_valid(p: int) -> bool;                        // in the group and not infinity
pub uninterp spec fn pk_encode(p: int) -> Seq<u8>;
pub uninterp spec fn pk_sum(s: Seq<int>) -> int;
pub uninterp spec fn sig_decode(b: Seq<u8>) -> Option<int>;
pub uninterp spec fn sig_in_group(p: int) -> bool;
pub uninterp spec fn sig_encode(p: int) -> Seq<u8>;
pub uninterp spec fn sig_sum(s: Seq<int>) -> int;
pub uninterp spec fn pairing(sig: int, msg: Seq<u8>, dst: Seq<u8>, aug: Seq<u8>, pk: int) -> bool;
pub uninterp spec fn multi_pairing(sig: int, msgs: Seq<Seq<u8>>, dst: Seq<u8>, pks: Seq<int>) -> bool;
pub uninterp spec fn scalar_ok(b: Seq<u8>) -> bool;
pub uninterp spec fn sk_pk(sk: Seq<u8>) -> int;
pub uninterp spec fn sk_sign(sk: Seq<u8>, msg: Seq<u8>, dst: Seq<u8>, aug: Seq<u8>) -> int;
pub uninterp spec fn keygen(ikm: Seq<u8>, info: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn master_key(ikm: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn fresh(b: Seq<u8>) -> bool;
pub mod bls_impl {
    use super::*;
    pub struct PublicKey { _p: u8 }
    pub struct Signature { _p: u8 }
    pub struct SecretKey { _p: u8 }
    pub struct AggregateSignature { _p: u8 }
    pub struct AggregatePublicKey { _p: u8 }
    impl View for PublicKey { type V = int; uninterp spec fn view(&self) -> int; }
    impl View for Signature { type V = int; uninterp spec fn view(&self) -> int; }
    impl View for SecretKey { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    impl View for AggregateSignature { type V = int; uninterp spec fn view(&self) -> int; }
    impl View for AggregatePublicKey { type V = int; uninterp spec fn view(&self) -> int; }
    type R<T> = core::result::Result<T, BLST_ERROR>;
    pub open spec fn failed<T>(r: R<T>) -> bool { r matches Err(e) && e != BLST_ERROR::BLST_SUCCESS }
    impl PublicKey {
        #[verifier::external_body]
        pub fn key_validate(b: &[u8]) -> (r: R<PublicKey>)
            ensures r matches Ok(k) ==> pk_decode(b@) == Some(k@) && pk_valid(k@), r is Err ==> failed(r) && !(pk_decode(b@) is Some && pk_valid(pk_decode(b@)->0)) { unimplemented!() }
        #[verifier::external_body]
        pub fn from_bytes(b: &[u8]) -> (r: R<PublicKey>) ensures r matches Ok(k) ==> pk_decode(b@) == Some(k@), r is Err ==> failed(r) && pk_decode(b@) is None { unimplemented!() }
        #[verifier::external_body]
        pub fn to_bytes(&self) -> (r: [u8; 48]) ensures r@ == pk_encode(self@) { unimplemented!() }
    }
    impl Signature {
        #[verifier::external_body]
        pub fn from_bytes(b: &[u8]) -> (r: R<Signature>) ensures r matches Ok(k) ==> sig_decode(b@) == Some(k@), r is Err ==> failed(r) && sig_decode(b@) is None { unimplemented!() }
        #[verifier::external_body]
        pub fn to_bytes(&self) -> (r: [u8; 96]) ensures r@ == sig_encode(self@) { unimplemented!() }
        #[verifier::external_body]
        pub fn verify(&self, sig_groupcheck: bool, msg: &[u8], dst: &[u8], aug: &[u8], pk: &PublicKey, pk_validate: bool) -> (r: BLST_ERROR)
            ensures r == BLST_ERROR::BLST_SUCCESS <==> (sig_groupcheck ==> sig_in_group(self@)) && (pk_validate ==> pk_valid(pk@)) && pairing(self@, msg@, dst@, aug@, pk@) { unimplemented!() }
        #[verifier::external_body]
        pub fn aggregate_verify(&self, sig_groupcheck: bool, msgs: &[&[u8]], dst: &[u8], pks: &Vec<&PublicKey>, pks_validate: bool) -> (r: BLST_ERROR)
            ensures r == BLST_ERROR::BLST_SUCCESS <==> pks@.len() > 0 && pks@.len() == msgs@.len() && (sig_groupcheck ==> sig_in_group(self@)) && (pks_validate ==> all_valid(vals(pks@)))
                && multi_pairing(self@, views(msgs@), dst@, vals(pks@)) { unimplemented!() }
        #[verifier::external_body]
        pub fn fast_aggregate_verify(&self, sig_groupcheck: bool, msg: &[u8], dst: &[u8], pks: &Vec<&PublicKey>) -> (r: BLST_ERROR)
            ensures r == BLST_ERROR::BLST_SUCCESS <==> pks@.len() > 0 && (sig_groupcheck ==> sig_in_group(self@)) && pairing(self@, msg@, dst@, Seq::empty(), pk_sum(vals(pks@))) { unimplemented!() }
    }
    impl AggregateSignature {
        #[verifier::external_body]
        pub fn aggregate(sigs: &Vec<&Signature>, sigs_groupcheck: bool) -> (r: R<AggregateSignature>)
            ensures r matches Ok(a) ==> a@ == sig_sum(vals(sigs@)), r is Err ==> failed(r),
                r is Ok <==> sigs@.len() > 0 && (sigs_groupcheck ==> all_in_group(vals(sigs@))) { unimplemented!() }
        #[verifier::external_body]
        pub fn to_signature(&self) -> (r: Signature) ensures r@ == self@ { unimplemented!() }
    }
    impl AggregatePublicKey {
        #[verifier::external_body]
        pub fn aggregate(pks: &Vec<&PublicKey>, pks_validate: bool) -> (r: R<AggregatePublicKey>)
            ensures r matches Ok(a) ==> a@ == pk_sum(vals(pks@)), r is Err ==> failed(r),
                r is Ok <==> pks@.len() > 0 && (pks_validate ==> all_valid(vals(pks@))) { unimplemented!() }
        #[verifier::external_body]
        pub fn to_public_key(&self) -> (r: PublicKey) ensures r@ == self@ { unimplemented!() }
    }
    impl SecretKey {
        #[verifier::external_body]
        pub fn from_bytes(b: &[u8]) -> (r: R<SecretKey>) ensures r matches Ok(k) ==> k@ == b@ && scalar_ok(b@), r is Err ==> failed(r) && !scalar_ok(b@) { unimplemented!() }
        #[verifier::external_body]
        pub fn key_gen(ikm: &[u8], info: &[u8]) -> (r: R<SecretKey>) ensures r is Ok <==> ikm@.len() >= 32, r matches Ok(k) ==> k@ == keygen(ikm@, info@), r is Err ==> failed(r) { unimplemented!() }
        #[verifier::external_body]
        pub fn derive_master_eip2333(ikm: &[u8]) -> (r: R<SecretKey>) ensures r is Ok <==> ikm@.len() >= 32, r matches Ok(k) ==> k@ == master_key(ikm@), r is Err ==> failed(r) { unimplemented!() }
        #[verifier::external_body]
        pub fn sk_to_pk(&self) -> (r: PublicKey) ensures r@ == sk_pk(self@) { unimplemented!() }
        #[verifier::external_body]
        pub fn sign(&self, msg: &[u8], dst: &[u8], aug: &[u8]) -> (r: Signature) ensures r@ == sk_sign(self@, msg@, dst@, aug@) { unimplemented!() }
        #[verifier::external_body]
        pub fn to_bytes(&self) -> (r: [u8; 32]) ensures r@ == self@ { unimplemented!() }
    }
}
pub open spec fn views(s: Seq<&[u8]>) -> Seq<Seq<u8>> { s.map_values(|x: &[u8]| x@) }
pub open spec fn vals<T: View<V = int>>(s: Seq<T>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i]@) }
pub open spec fn all_in_group(s: Seq<int>) -> bool { forall|i: int| 0 <= i < s.len() ==> sig_in_group(#[trigger] s[i]) }
pub open spec fn all_valid(s: Seq<int>) -> bool { forall|i: int| 0 <= i < s.len() ==> pk_valid(#[trigger] s[i]) }
// ---- ssz_rs::ByteVector<N>: exactly N bytes ----
#[verifier::external_body]
pub struct ByteVector<const N: usize> { _p: [u8; N] }
impl<const N: usize> View for ByteVector<N> { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
#[derive(Debug)]
pub struct SimpleSerializeError;
impl<const N: usize> ByteVector<N> {
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vtry_from(d: &[u8]) -> (r: core::result::Result<ByteVector<N>, Error>) ensures r is Ok <==> d@.len() == N, r matches Ok(b) ==> b@ == d@ { unimplemented!() }
}
#[derive(Debug)]
pub struct BLSTError(pub String);
#[derive(Debug)]
pub enum Error { EmptyAggregate, SimpleSerialize(SimpleSerializeError), Randomness, BLST(BLSTError), InvalidSignature }
#[verifier::external_body]
pub fn v_string(s: &str) -> (r: String) { unimplemented!() }
#[verifier::external_body]
pub fn v_unreachable() -> (r: &'static str) requires false { unimplemented!() }
pub fn vunwrap<T>(r: Result<T, Error>) -> (x: T) requires r is Ok ensures r == Ok::<T, Error>(x) { match r { Ok(x) => x, Err(_) => v_never() } }
#[verifier::external_body]
pub fn v_never<T>() -> (r: T) requires false { unimplemented!() }
#[verifier::external_body]
pub fn v_slice<const N: usize>(a: &[u8; N]) -> (r: &[u8]) ensures r@ == a@ { unimplemented!() }
#[verifier::external_body]
pub fn v_bytes_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub struct Rng { _p: u8 }
impl Rng {
    #[verifier::external_body]
    pub fn try_fill_bytes(&mut self, b: &mut [u8; 32]) -> (r: Result<(), Error>) ensures r is Ok ==> fresh(final(b)@) { unimplemented!() }
}
// the adapters over slices, as loops
pub trait VKey { spec fn bytes(&self) -> Seq<u8>; fn point(&self) -> (r: Result<bls_impl::PublicKey, Error>) ensures key_ok(self.bytes()) <==> r is Ok, r matches Ok(p) ==> p@ == key_point(self.bytes()); }
impl VKey for PublicKey { open spec fn bytes(&self) -> Seq<u8> { self.0@ } fn point(&self) -> (r: Result<bls_impl::PublicKey, Error>) { bls_impl::PublicKey::try_from(self) } }
impl VKey for &PublicKey { open spec fn bytes(&self) -> Seq<u8> { self.0@ } fn point(&self) -> (r: Result<bls_impl::PublicKey, Error>) { bls_impl::PublicKey::try_from(*self) } }
pub open spec fn all_keys<K: VKey>(s: Seq<K>, n: int) -> bool { forall|i: int| 0 <= i < n ==> key_ok((#[trigger] s[i]).bytes()) }
pub open spec fn key_points<K: VKey>(s: Seq<K>) -> Seq<int> { s.map_values(|k: K| key_point(k.bytes())) }
pub fn v_try_keys<K: VKey>(s: &[K]) -> (r: Result<Vec<bls_impl::PublicKey>, Error>)
    ensures r is Ok <==> all_keys(s@, s@.len() as int), r matches Ok(v) ==> vals(v@) == key_points(s@) && all_valid(vals(v@)) && v@.len() == s@.len()
{
    let mut v: Vec<bls_impl::PublicKey> = Vec::new();
    let mut i: usize = 0;
    while i < s.len()
        invariant i <= s@.len(), v@.len() == i, all_keys(s@, i as int), forall|j: int| 0 <= j < i ==> (#[trigger] v@[j])@ == key_point(s@[j].bytes()) && pk_valid(v@[j]@)
        decreases s@.len() - i
    {
        match s[i].point() { Ok(p) => v.push(p), Err(e) => { assert(!key_ok(s@[i as int].bytes())); return Err(e); } }
        i = i + 1;
    }
    assert(vals(v@) =~= key_points(s@));
    Ok(v)
}
pub open spec fn all_sigs(s: Seq<Signature>, n: int) -> bool { forall|i: int| 0 <= i < n ==> sig_decode((#[trigger] s[i]).0@) is Some }
pub open spec fn sigs_points(s: Seq<Signature>) -> Seq<int> { s.map_values(|k: Signature| sig_decode(k.0@)->0) }
pub fn v_try_sigs(s: &[Signature]) -> (r: Result<Vec<bls_impl::Signature>, Error>)
    ensures r is Ok <==> all_sigs(s@, s@.len() as int), r matches Ok(v) ==> vals(v@) == sigs_points(s@) && v@.len() == s@.len()
{
    let mut v: Vec<bls_impl::Signature> = Vec::new();
    let mut i: usize = 0;
    while i < s.len()
        invariant i <= s@.len(), v@.len() == i, all_sigs(s@, i as int), forall|j: int| 0 <= j < i ==> (#[trigger] v@[j])@ == sig_decode(s@[j].0@)->0
        decreases s@.len() - i
    {
        match bls_impl::Signature::try_from(&s[i]) { Ok(p) => v.push(p), Err(e) => { assert(!(sig_decode(s@[i as int].0@) is Some)); return Err(e); } }
        i = i + 1;
    }
    assert(vals(v@) =~= sigs_points(s@));
    Ok(v)
}
pub fn v_refs<T: View<V = int>>(s: &Vec<T>) -> (r: Vec<&T>) ensures vals(r@) == vals(s@), r@.len() == s@.len()
{
    let mut v: Vec<&T> = Vec::new();
    let mut i: usize = 0;
    while i < s.len()
        invariant i <= s@.len(), v@.len() == i, forall|j: int| 0 <= j < i ==> *(#[trigger] v@[j]) == s@[j]
        decreases s@.len() - i
    { v.push(&s[i]); i = i + 1; }
    assert(vals(v@) =~= vals(s@));
    v
}
#[verifier::external_body]
pub fn v_empty() -> (r: &'static [u8]) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
// ---- specification ----
pub open spec fn key_ok(b: Seq<u8>) -> bool { pk_decode(b) is Some && pk_valid(pk_decode(b)->0) }
pub open spec fn key_point(b: Seq<u8>) -> int { pk_decode(b)->0 }
// "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_"
pub open spec fn tag() -> Seq<u8> { seq![66u8, 76, 83, 95, 83, 73, 71, 95, 66, 76, 83, 49, 50, 51, 56, 49, 71, 50, 95, 88, 77, 68, 58, 83, 72, 65, 45, 50, 53, 54, 95, 83, 83, 87, 85, 95, 82, 79, 95, 80, 79, 80, 95] }
pub open spec fn infinity() -> Seq<u8> { Seq::new(96, |i: int| if i == 0 { 0xc0u8 } else { 0u8 }) }
pub open spec fn sp_verify(k: Seq<u8>, m: Seq<u8>, s: Seq<u8>) -> bool { key_ok(k) && sig_decode(s) is Some && sig_in_group(sig_decode(s)->0) && pairing(sig_decode(s)->0, m, tag(), Seq::empty(), key_point(k)) }
pub open spec fn sp_fast<K: VKey>(ks: Seq<K>, m: Seq<u8>, s: Seq<u8>) -> bool {
    ks.len() > 0 && all_keys(ks, ks.len() as int) && sig_decode(s) is Some && sig_in_group(sig_decode(s)->0) && pairing(sig_decode(s)->0, m, tag(), Seq::empty(), pk_sum(key_points(ks)))
}
// encodings the library produces are decodable and of the right length
pub axiom fn axiom_encode(p: int) ensures pk_encode(p).len() == 48, sig_encode(p).len() == 96;
@@subst
: (bls_impl :: \w+) = (\w+) \. try_into \( \) \? => : \1 = \1 :: try_from ( \2 ) ?
\b(\w+) \. iter \( \)(?: \. cloned \( \))? \. map \( bls_impl :: PublicKey :: try_from \) \. collect :: < Result < Vec < bls_impl :: PublicKey > , Error > > \( \) => v_try_keys ( \1 )
\b(\w+) \. iter \( \) \. map \( bls_impl :: Signature :: try_from \) \. collect :: < Result < Vec < bls_impl :: Signature > , Error > > \( \) => v_try_sigs ( \1 )
: Vec < & (bls_impl :: \w+) > = (\w+) \. iter \( \) \. collect \( \) => : Vec < & \1 > = v_refs ( & \2 )
(bls_impl :: \w+ :: aggregate \( & \w+ , \w+ \)) \. map \( \| (\w+) \| (.*?) \. unwrap \( \) \) \. map_err \( \| (\w+) \| (.*?) \. into \( \) \) => match \1 { Ok ( \2 ) => { proof { axiom_encode ( \2 @ ) ; } Ok ( vunwrap ( \3 ) ) } , Err ( \4 ) => Err ( Error :: BLST ( \5 ) ) }
(Self :: \w+ \( self_?\w* \)|Self :: \w+ \( \w+ \. 0 \. as_ref \( \) \)) \. map_err \( \| (\w+) \| (.*?) \. into \( \) \) => match \1 { Ok ( v__ ) => Ok ( v__ ) , Err ( \2 ) => Err ( Error :: BLST ( \3 ) ) }
(bls_impl :: SecretKey :: \w+ \( .*? \)) \. map_err \( BLSTError :: from \) \? => match \1 { Ok ( v__ ) => v__ , Err ( e__ ) => return Err ( Error :: BLST ( BLSTError :: from ( e__ ) ) ) }
ByteVector :: try_from \( data \) \. map_err \( \| err \| -> SimpleSerializeError \{ err \. into \( \) \} \) \? => ByteVector :: vtry_from ( data ) ?
Self :: Error => Error
try_from \( ([\w. ()]+?) \. to_bytes \( \) \. as_ref \( \) \) => try_from ( v_slice ( & \1 . to_bytes ( ) ) )
self \. as_ref \( \) == INFINITY_COMPRESSED_SIGNATURE => v_bytes_eq ( self . 0 . as_ref ( ) , v_slice ( & INFINITY_COMPRESSED_SIGNATURE ) )
unreachable ! \( "[^"]*" \) => v_unreachable ( )
\b(\w+) \. to_string \( \) => v_string ( \1 )
(?<!const )\bBLS_DST\b => v_slice ( & BLS_DST )
& \[ ?\] => v_empty ( )
<R : rand :: Rng> => <>
& mut R\b => & mut Rng
@@const BLS_DST BLS_PUBLIC_KEY_BYTES_LEN BLS_SECRET_KEY_BYTES_LEN BLS_SIGNATURE_BYTES_LEN INFINITY_COMPRESSED_SIGNATURE
@@struct SecretKey PublicKey Signature
@@impl X_bls_impl_PublicKey impl bls_impl::PublicKey
@@impl X_bls_impl_Signature impl bls_impl::Signature
@@fn BLSTError::From::from
requires err != BLST_ERROR::BLST_SUCCESS
@@fn X_bls_impl_PublicKey::TryFrom<&PublicKey>::try_from
ensures r is Ok <==> key_ok(public_key.0@), r matches Ok(p) ==> p@ == key_point(public_key.0@)
@@fn X_bls_impl_Signature::TryFrom<&Signature>::try_from
ensures r is Ok <==> sig_decode(signature.0@) is Some, r matches Ok(p) ==> Some(p@) == sig_decode(signature.0@)
@@fn PublicKey::TryFrom<&[u8]>::try_from
ensures r is Ok <==> data@.len() == 48, r matches Ok(p) ==> p.0@ == data@
@@fn Signature::TryFrom<&[u8]>::try_from
ensures r is Ok <==> data@.len() == 96, r matches Ok(p) ==> p.0@ == data@
@@fn Signature::is_infinity
ensures r == (self.0@ == infinity())
@ start
proof { assert(INFINITY_COMPRESSED_SIGNATURE@ =~= infinity()); }
@@fn verify_signature
ensures r is Ok <==> sp_verify(public_key.0@, msg@, signature.0@)
@ start
proof { assert(BLS_DST@ =~= tag()); }
@@fn aggregate
ensures r is Ok <==> signatures@.len() > 0 && all_sigs(signatures@, signatures@.len() as int) && all_in_group(sigs_points(signatures@)),
    r matches Ok(a) ==> a.0@ == sig_encode(sig_sum(sigs_points(signatures@)))
@@fn aggregate_verify
ensures r is Ok <==> public_keys@.len() > 0 && public_keys@.len() == msgs@.len() && all_keys(public_keys@, public_keys@.len() as int) && sig_decode(signature.0@) is Some && sig_in_group(sig_decode(signature.0@)->0)
    && multi_pairing(sig_decode(signature.0@)->0, views(msgs@), tag(), key_points(public_keys@))
@ start
proof { assert(BLS_DST@ =~= tag()); }
@@fn fast_aggregate_verify
ensures r is Ok <==> sp_fast(public_keys@, msg@, signature.0@)
@ start
proof { assert(BLS_DST@ =~= tag()); }
@@fn eth_aggregate_public_keys
ensures r is Ok <==> public_keys@.len() > 0 && all_keys(public_keys@, public_keys@.len() as int), r matches Ok(k) ==> k.0@ == pk_encode(pk_sum(key_points(public_keys@)))
@@fn eth_fast_aggregate_verify
ensures r is Ok <==> (public_keys@.len() == 0 && signature.0@ == infinity()) || sp_fast(public_keys@, message@, signature.0@)
@@fn SecretKey::TryFrom<&[u8]>::try_from
ensures r is Ok <==> scalar_ok(data@), r matches Ok(k) ==> k.0@ == data@
@@fn SecretKey::key_gen
ensures r is Ok <==> ikm@.len() >= 32, r matches Ok(k) ==> k.0@ == keygen(ikm@, Seq::empty())
@@fn SecretKey::random
ensures r matches Ok(k) ==> exists|m: Seq<u8>| #[trigger] fresh(m) && m.len() == 32 && k.0@ == keygen(m, Seq::empty())
@@fn SecretKey::public_key
ensures r.0@ == pk_encode(sk_pk(self.0@))
@ start
proof { axiom_encode(sk_pk(self.0@)); }
@@fn SecretKey::sign
ensures r.0@ == sig_encode(sk_sign(self.0@, msg@, tag(), Seq::empty()))
@ start
proof { assert(BLS_DST@ =~= tag()); axiom_encode(sk_sign(self.0@, msg@, tag(), Seq::empty())); }
@@fn SecretKey::to_bytes
ensures r@ == self.0@
@@fn SecretKey::from_bytes
ensures r is Ok <==> input@.len() >= 32, r matches Ok(k) ==> k.0@ == master_key(input@)
