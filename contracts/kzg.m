@@module kzg file=ethereum-consensus/src/crypto/kzg.rs,ethereum-consensus/src/bin/ec/blobs/bundler.rs,ethereum-consensus/src/deneb/blob_sidecar.rs
@@prelude
// ---- c-kzg (assumed contracts of the library; the trusted setup is fixed) ----
pub mod c_kzg {
    use super::*;
    pub struct Error;
    pub struct Blob { pub v: Vec<u8> }
    pub struct Bytes32 { pub v: Vec<u8> }
    pub struct Bytes48 { pub v: Vec<u8> }
    pub type R<T> = core::result::Result<T, Error>;
    impl Blob { #[verifier::external_body] pub fn from_bytes(b: &[u8]) -> (r: R<Blob>) ensures b@.len() == 131072 ==> r is Ok, b@.len() != 131072 ==> r is Err, r matches Ok(x) ==> x.v@ == b@ { unimplemented!() } }
    impl Bytes32 {
        #[verifier::external_body] pub fn from_bytes(b: &[u8]) -> (r: R<Bytes32>) ensures b@.len() == 32 ==> r is Ok, b@.len() != 32 ==> r is Err, r matches Ok(x) ==> x.v@ == b@ { unimplemented!() }
        #[verifier::external_body] pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self.v@ { unimplemented!() }
    }
    impl Bytes48 {
        #[verifier::external_body] pub fn from_bytes(b: &[u8]) -> (r: R<Bytes48>) ensures b@.len() == 48 ==> r is Ok, b@.len() != 48 ==> r is Err, r matches Ok(x) ==> x.v@ == b@ { unimplemented!() }
        #[verifier::external_body] pub fn v_expect(r: R<Bytes48>) -> (x: Bytes48) requires r is Ok ensures r == Ok::<Bytes48, Error>(x) { unimplemented!() }
        #[verifier::external_body] pub fn to_bytes(&self) -> (r: Vec<u8>) ensures r@ == self.v@, r@.len() == 48 { unimplemented!() }
    }
    // None: the library refuses the input (no field elements, no curve points)
    pub uninterp spec fn commit(blob: Seq<u8>) -> Option<Seq<u8>>;
    pub uninterp spec fn prove(blob: Seq<u8>, z: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)>;
    pub uninterp spec fn prove_blob(blob: Seq<u8>, commitment: Seq<u8>) -> Option<Seq<u8>>;
    pub uninterp spec fn check(commitment: Seq<u8>, z: Seq<u8>, y: Seq<u8>, proof: Seq<u8>) -> Option<bool>;
    pub uninterp spec fn check_blob(blob: Seq<u8>, commitment: Seq<u8>, proof: Seq<u8>) -> Option<bool>;
    pub uninterp spec fn check_batch(blobs: Seq<Seq<u8>>, commitments: Seq<Seq<u8>>, proofs: Seq<Seq<u8>>) -> Option<bool>;
    #[verifier::external_body] pub struct KzgSettings { _p: u8 }
    impl KzgSettings {
        #[verifier::external_body] pub fn blob_to_kzg_commitment(&self, b: &Blob) -> (r: R<Bytes48>) ensures r is Ok <==> commit(b.v@) is Some, r matches Ok(c) ==> commit(b.v@) == Some(c.v@) && c.v@.len() == 48 { unimplemented!() }
        #[verifier::external_body] pub fn compute_kzg_proof(&self, b: &Blob, z: &Bytes32) -> (r: R<(Bytes48, Bytes32)>)
            ensures r is Ok <==> prove(b.v@, z.v@) is Some, r matches Ok(p) ==> prove(b.v@, z.v@) == Some((p.0.v@, p.1.v@)) && p.0.v@.len() == 48 && p.1.v@.len() == 32 { unimplemented!() }
        #[verifier::external_body] pub fn compute_blob_kzg_proof(&self, b: &Blob, c: &Bytes48) -> (r: R<Bytes48>) ensures r is Ok <==> prove_blob(b.v@, c.v@) is Some, r matches Ok(p) ==> prove_blob(b.v@, c.v@) == Some(p.v@) && p.v@.len() == 48 { unimplemented!() }
        #[verifier::external_body] pub fn verify_kzg_proof(&self, c: &Bytes48, z: &Bytes32, y: &Bytes32, p: &Bytes48) -> (r: R<bool>) ensures r is Ok <==> check(c.v@, z.v@, y.v@, p.v@) is Some, r matches Ok(b) ==> check(c.v@, z.v@, y.v@, p.v@) == Some(b) { unimplemented!() }
        #[verifier::external_body] pub fn verify_blob_kzg_proof(&self, b: &Blob, c: &Bytes48, p: &Bytes48) -> (r: R<bool>) ensures r is Ok <==> check_blob(b.v@, c.v@, p.v@) is Some, r matches Ok(x) ==> check_blob(b.v@, c.v@, p.v@) == Some(x) { unimplemented!() }
        #[verifier::external_body] pub fn verify_blob_kzg_proof_batch(&self, b: &Vec<Blob>, c: &Vec<Bytes48>, p: &Vec<Bytes48>) -> (r: R<bool>)
            ensures r is Ok <==> check_batch(raw(b@), raw48(c@), raw48(p@)) is Some, r matches Ok(x) ==> check_batch(raw(b@), raw48(c@), raw48(p@)) == Some(x) { unimplemented!() }
    }
    pub open spec fn raw(s: Seq<Blob>) -> Seq<Seq<u8>> { s.map_values(|b: Blob| b.v@) }
    pub open spec fn raw48(s: Seq<Bytes48>) -> Seq<Seq<u8>> { s.map_values(|b: Bytes48| b.v@) }
}
pub use c_kzg::{KzgSettings, commit, prove, prove_blob, check, check_blob, check_batch};
pub enum Error { CKzg(c_kzg::Error), InvalidProof }
pub fn v_lib<T>(r: c_kzg::R<T>) -> (o: core::result::Result<T, Error>) ensures r is Ok <==> o is Ok, r matches Ok(x) ==> o == Ok::<T, Error>(x), o matches Err(e) ==> e is CKzg { match r { Ok(x) => Ok(x), Err(e) => Err(Error::CKzg(e)) } }
// fixed-length byte vectors
pub struct Bytes<const N: usize> { pub v: Vec<u8> }
pub type KzgCommitment = Bytes<48>;
pub type KzgProof = Bytes<48>;
pub type FieldElement = Bytes<32>;
impl<const N: usize> Bytes<N> {
    #[verifier::external_body] pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.v@, r@.len() == N { unimplemented!() }
    #[verifier::external_body] pub fn v_of(b: &[u8]) -> (r: Self) requires b@.len() == N ensures r.v@ == b@ { unimplemented!() }
}
pub trait AsBytes { spec fn raw(&self) -> Seq<u8>; fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.raw(); }
#[verifier::external_body] pub struct FullBlob { _p: u8 }
pub uninterp spec fn blob_bytes(b: &FullBlob) -> Seq<u8>;
impl AsBytes for &FullBlob { open spec fn raw(&self) -> Seq<u8> { blob_bytes(*self) } #[verifier::external_body] fn as_ref(&self) -> (r: &[u8]) { unimplemented!() } }
impl AsBytes for FullBlob { open spec fn raw(&self) -> Seq<u8> { blob_bytes(self) } #[verifier::external_body] fn as_ref(&self) -> (r: &[u8]) { unimplemented!() } }
pub open spec fn raws<B: AsBytes>(s: Seq<B>) -> Seq<Seq<u8>> { s.map_values(|b: B| b.raw()) }
pub open spec fn raw48s(s: Seq<Bytes<48>>) -> Seq<Seq<u8>> { s.map_values(|b: Bytes<48>| b.v@) }
pub open spec fn all_blobs<B: AsBytes>(s: Seq<B>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).raw().len() == 131072 }
pub open spec fn copied<B: AsBytes>(c: Seq<c_kzg::Blob>, b: Seq<B>, n: int) -> bool { c.len() == n && n <= b.len() && forall|j: int| 0 <= j < n ==> (#[trigger] b[j]).raw().len() == 131072 && c[j].v@ == b[j].raw() }
pub open spec fn copied48(c: Seq<c_kzg::Bytes48>, b: Seq<Bytes<48>>, n: int) -> bool { c.len() == n && n <= b.len() && forall|j: int| 0 <= j < n ==> (#[trigger] c[j]).v@ == b[j].v@ }
// Ok exactly when the library accepts the input and says yes; InvalidProof exactly when it says no
pub open spec fn verdict(r: core::result::Result<(), Error>, c: Option<bool>) -> bool { match c { None => r is Err && r->Err_0 is CKzg, Some(true) => r is Ok, Some(false) => r is Err && r->Err_0 is InvalidProof } }
pub fn v_verdict(b: bool) -> (r: core::result::Result<(), Error>) ensures b ==> r is Ok, !b ==> r is Err && r->Err_0 is InvalidProof { if b { Ok(()) } else { Err(Error::InvalidProof) } }
// ---- the blobs command's bundle ----
pub enum ConsensusError { Kzg(Error) }
pub enum BundleError { Consensus(ConsensusError), Json }
pub fn v_kzg<T>(r: core::result::Result<T, Error>) -> (o: core::result::Result<T, ConsensusError>) ensures r is Ok <==> o is Ok, r matches Ok(x) ==> o == Ok::<T, ConsensusError>(x) { match r { Ok(x) => Ok(x), Err(e) => Err(ConsensusError::Kzg(e)) } }
pub fn v_cons<T>(r: core::result::Result<T, ConsensusError>) -> (o: core::result::Result<T, BundleError>) ensures r is Ok <==> o is Ok, r matches Ok(x) ==> o == Ok::<T, BundleError>(x) { match r { Ok(x) => Ok(x), Err(e) => Err(BundleError::Consensus(e)) } }
pub open spec fn good_blob(b: Seq<u8>) -> bool { b.len() == 131072 && commit(b) is Some && prove_blob(b, commit(b)->Some_0) is Some }
pub open spec fn bundled(b: Seq<FullBlob>, c: Seq<Bytes<48>>, p: Seq<Bytes<48>>) -> bool {
    c.len() == b.len() && p.len() == b.len() && forall|i: int| 0 <= i < b.len() ==> good_blob(blob_bytes(&#[trigger] b[i])) && commit(blob_bytes(&b[i])) == Some(c[i].v@) && prove_blob(blob_bytes(&b[i]), c[i].v@) == Some(p[i].v@)
}
pub open spec fn all_good(b: Seq<FullBlob>) -> bool { forall|i: int| 0 <= i < b.len() ==> good_blob(blob_bytes(&#[trigger] b[i])) }
pub open spec fn firsts(s: Seq<CommitmentAndProof>) -> Seq<Bytes<48>> { Seq::new(s.len(), |i: int| s[i].0) }
pub open spec fn seconds(s: Seq<CommitmentAndProof>) -> Seq<Bytes<48>> { Seq::new(s.len(), |i: int| s[i].1) }
#[verifier::external_body]
pub fn v_unzip(s: Vec<CommitmentAndProof>) -> (r: (Vec<Bytes<48>>, Vec<Bytes<48>>)) ensures r.0@ == firsts(s@), r.1@ == seconds(s@) { unimplemented!() }
// `iter().map(f).collect::<Result<Vec<_>, _>>()` with f the function named in the text: in order, up to the first error
pub fn v_collect(blobs: &Vec<FullBlob>, kzg_settings: &KzgSettings) -> (r: core::result::Result<Vec<CommitmentAndProof>, ConsensusError>)
    ensures r is Ok <==> all_good(blobs@), r matches Ok(s) ==> bundled(blobs@, firsts(s@), seconds(s@))
{
    let mut out: Vec<CommitmentAndProof> = Vec::new();
    let mut i: usize = 0;
    while i < blobs.len()
        invariant i <= blobs@.len(), out@.len() == i, bundled(blobs@.subrange(0, i as int), firsts(out@), seconds(out@)), forall|j: int| 0 <= j < i ==> good_blob(blob_bytes(&#[trigger] blobs@[j]))
        decreases blobs@.len() - i
    {
        let x = commit_and_prove_blob(&blobs[i], kzg_settings);
        match x { Err(e) => { assert(!good_blob(blob_bytes(&blobs@[i as int]))); return Err(e); } Ok(p) => {
            let ghost o0 = out@;
            out.push(p);
            proof {
                assert forall|k: int| 0 <= k < i + 1 implies good_blob(blob_bytes(&#[trigger] blobs@.subrange(0, i + 1)[k])) && commit(blob_bytes(&blobs@.subrange(0, i + 1)[k])) == Some(firsts(out@)[k].v@) && prove_blob(blob_bytes(&blobs@.subrange(0, i + 1)[k]), firsts(out@)[k].v@) == Some(seconds(out@)[k].v@) by {
                    if k < i { assert(blobs@.subrange(0, i as int)[k] == blobs@[k]); assert(firsts(out@)[k] == firsts(o0)[k] && seconds(out@)[k] == seconds(o0)[k]); }
                }
            }
        } }
        i = i + 1;
    }
    proof { assert(blobs@.subrange(0, i as int) =~= blobs@); }
    Ok(out)
}
@@subst
Result < (KzgCommitment|ProofAndEvaluation|KzgProof|\( \)) , Error > => core :: result :: Result < \1 , Error >
Blob : AsRef < \[ u8 \] > => Blob : AsBytes
(c_kzg :: \w+ :: from_bytes \( [\w. ]*\( \) \)) \? => v_lib ( \1 ) ?
(c_kzg :: \w+ :: from_bytes \( [\w. ]*\( \) \)) \. (?:expect \( "[^"]*" \)|unwrap \( \)) => c_kzg :: Bytes48 :: v_expect ( \1 )
(kzg_settings \. \w+ \( [^()]*\)) \? => v_lib ( \1 ) ?
(\w+) :: try_from \( (\w+) \. to_bytes \( \) \. as_slice \( \) \) \. expect \( "[^"]*" \) => \1 :: v_of ( & \2 . to_bytes ( ) )
(\w+) :: try_from \( (\w+) \. as_slice \( \) \) \. expect \( "[^"]*" \) => \1 :: v_of ( \2 . as_slice ( ) )
res \. then_some \( \( \) \) \. ok_or \( Error :: InvalidProof \) => v_verdict ( res )
for (\w+) in (\w+) \{ __loop ! \( (\d) \) ; => let mut __i\3 : usize = 0 ; while __i\3 < \2 . len ( ) { __loop ! ( \3 ) ; let \1 = & \2 [ __i\3 ] ; __i\3 = __i\3 + 1 ;
Result < CommitmentAndProof , ConsensusError > => core :: result :: Result < CommitmentAndProof , ConsensusError >
Result < BlobsBundle , Error > => core :: result :: Result < BlobsBundle , BundleError >
pub type (Commitment|Proof) = spec :: (\w+) ; => pub type \1 = \2 ;
spec :: KzgSettings => KzgSettings
spec :: (blob_to_kzg_commitment|compute_blob_kzg_proof) \( ([^()]*) \) \? => v_kzg ( \1 ( \2 ) ) ?
spec :: verify_blob_kzg_proof_batch \( ([^()]*) \) \. map_err \( ConsensusError :: from \) \? => v_cons ( v_kzg ( verify_blob_kzg_proof_batch ( \1 ) ) ) ?
blobs \. iter \( \) \. map \( \| blob \| commit_and_prove_blob \( blob , kzg_settings \) \) \. collect :: < core :: result :: Result < Vec < CommitmentAndProof > , ConsensusError > > \( \) \? => v_cons ( v_collect ( & blobs , kzg_settings ) ) ?
blobs \. iter \( \) \. map \( \| blob \| commit_and_prove_blob \( blob , kzg_settings \) \) \. collect :: < Result < Vec < CommitmentAndProof > , ConsensusError > > \( \) \? => v_cons ( v_collect ( & blobs , kzg_settings ) ) ?
commitments_and_proofs \. into_iter \( \) \. unzip \( \) => v_unzip ( commitments_and_proofs )
struct BlobsBundle < const BYTES_PER_BLOB : usize > => struct BlobsBundle
Blob < BYTES_PER_BLOB > => FullBlob
blob : & Blob => blob : & FullBlob
blobs : Vec < Blob > => blobs : Vec < FullBlob >
@@type bundler::Commitment bundler::Proof bundler::CommitmentAndProof
@@struct blob_sidecar::BlobsBundle
@@struct ProofAndEvaluation
@@fn blob_to_kzg_commitment
ensures r is Ok <==> blob.raw().len() == 131072 && commit(blob.raw()) is Some, r matches Ok(c) ==> commit(blob.raw()) == Some(c.v@), r matches Err(e) ==> e is CKzg
@@fn compute_kzg_proof
ensures r is Ok <==> blob.raw().len() == 131072 && prove(blob.raw(), evaluation_point.v@) is Some, r matches Ok(p) ==> prove(blob.raw(), evaluation_point.v@) == Some((p.proof.v@, p.evaluation.v@)), r matches Err(e) ==> e is CKzg
@@fn compute_blob_kzg_proof
ensures r is Ok <==> blob.raw().len() == 131072 && prove_blob(blob.raw(), commitment.v@) is Some, r matches Ok(p) ==> prove_blob(blob.raw(), commitment.v@) == Some(p.v@), r matches Err(e) ==> e is CKzg
@@fn verify_kzg_proof
ensures verdict(r, check(commitment.v@, evaluation_point.v@, result_point.v@, proof.v@))
@@fn verify_blob_kzg_proof
ensures blob.raw().len() != 131072 ==> r is Err && r->Err_0 is CKzg, blob.raw().len() == 131072 ==> verdict(r, check_blob(blob.raw(), commitment.v@, proof.v@))
@@fn verify_blob_kzg_proof_batch
ensures !all_blobs(blobs@) ==> r is Err && r->Err_0 is CKzg, all_blobs(blobs@) ==> verdict(r, check_batch(raws(blobs@), raw48s(commitments@), raw48s(proofs@)))
@ loop 0
invariant copied(c_kzg_blobs@, blobs@, __i0 as int)
decreases blobs@.len() - __i0
@ loop 1
invariant copied48(c_kzg_commitments@, commitments@, __i1 as int)
decreases commitments@.len() - __i1
@ loop 2
invariant copied48(c_kzg_proofs@, proofs@, __i2 as int)
decreases proofs@.len() - __i2
@ before let res
proof {
    assert(all_blobs(blobs@));
    assert(c_kzg::raw(c_kzg_blobs@) =~= raws(blobs@)) by { assert forall|j: int| 0 <= j < blobs@.len() implies c_kzg_blobs@[j].v@ == blobs@[j].raw() by { assert(blobs@[j].raw().len() == 131072); } }
    assert(c_kzg::raw48(c_kzg_commitments@) =~= raw48s(commitments@));
    assert(c_kzg::raw48(c_kzg_proofs@) =~= raw48s(proofs@));
}
@@fn commit_and_prove_blob
ensures r is Ok <==> good_blob(blob_bytes(blob)), r matches Ok(p) ==> commit(blob_bytes(blob)) == Some(p.0.v@) && prove_blob(blob_bytes(blob), p.0.v@) == Some(p.1.v@)
@@fn bundle
ensures
    r matches Ok(b) ==> b.blobs == blobs && bundled(blobs@, b.commitments@, b.proofs@) && check_batch(raws(blobs@), raw48s(b.commitments@), raw48s(b.proofs@)) == Some(true),
    r is Err ==> !all_good(blobs@) || exists|c: Seq<Bytes<48>>, p: Seq<Bytes<48>>| #[trigger] bundled(blobs@, c, p) && check_batch(raws(blobs@), raw48s(c), raw48s(p)) != Some(true)
@ before v_cons \( v_kzg
proof {
    assert(bundled(blobs_bundle.blobs@, blobs_bundle.commitments@, blobs_bundle.proofs@));
    assert(all_blobs(blobs_bundle.blobs@)) by { assert forall|i: int| 0 <= i < blobs_bundle.blobs@.len() implies (#[trigger] blobs_bundle.blobs@[i]).raw().len() == 131072 by { assert(good_blob(blob_bytes(&blobs_bundle.blobs@[i]))); } }
}
