@@module sidecar file=ethereum-consensus/src/deneb/blob_sidecar.rs,ethereum-consensus/src/deneb/beacon_block.rs,ethereum-consensus/src/electra/beacon_block.rs,ethereum-consensus/src/capella/beacon_block.rs,ethereum-consensus/src/altair/beacon_state.rs,ethereum-consensus/src/bellatrix/beacon_state.rs,ethereum-consensus/src/capella/beacon_state.rs,ethereum-consensus/src/deneb/beacon_state.rs,ethereum-consensus/src/phase0/operations.rs,ethereum-consensus/src/altair/light_client.rs,ethereum-consensus/src/capella/light_client.rs,ethereum-consensus/src/deneb/presets/mainnet.rs,ethereum-consensus/src/deneb/presets/minimal.rs
@@prelude
use vstd::arithmetic::power2::*;
pub struct Error;
pub struct Node(pub [u8; 32]);
impl Clone for Node { #[verifier::external_body] fn clone(&self) -> (r: Node) ensures r == *self { Node(self.0) } }
impl Copy for Node {}
pub type Root = Node;
pub type BlobIndex = usize;
#[verifier::external_body] pub struct Commitment { _p: u8 }
#[verifier::external_body] pub struct Bytes { _p: u8 }
pub type KzgCommitment = Commitment;
pub type KzgProof = Bytes;
pub type Blob = Bytes;
pub struct BeaconBlockHeader { pub body_root: Root }
pub struct SignedBeaconBlockHeader { pub message: BeaconBlockHeader }
pub struct Branch<const N: usize> { pub v: Vec<Node> }
// ---- SSZ (assumed contracts of the library) ----
pub uninterp spec fn hash_pair(a: Node, b: Node) -> Node;
pub uninterp spec fn commitment_root(c: Commitment) -> Node;
pub open spec fn log2(n: int) -> int decreases n { if n <= 1 { 0 } else { 1 + log2(n / 2) } }
pub open spec fn fold(leaf: Node, branch: Seq<Node>, index: int) -> Node decreases branch.len() {
    if branch.len() == 0 { leaf } else {
        let b = branch[0];
        fold(if index % 2 == 1 { hash_pair(b, leaf) } else { hash_pair(leaf, b) }, branch.subrange(1, branch.len() as int), index / 2)
    }
}
#[derive(Clone, Copy)]
pub enum Pe { F(u64), I(usize) }
pub open spec fn ceil2(n: int) -> int decreases n { if n <= 1 { 1 } else { 2 * ceil2((n + 1) / 2) } }
pub open spec fn position(s: Seq<int>, x: int) -> int decreases s.len() { if s.len() == 0 { 0 } else if s[0] == x { 0 } else { 1 + position(s.subrange(1, s.len() as int), x) } }
// leaf of field `name` in a container
pub open spec fn field_index(fields: Seq<int>, name: int) -> int { ceil2(fields.len() as int) + position(fields, name) }
// leaf i of a list of containers with room for `limit` elements, below tree position g
pub open spec fn element_index(g: int, limit: int, i: int) -> int { 2 * g * ceil2(limit) + i }
pub trait SimpleSerialize: Sized {
    spec fn fields() -> Seq<int>;                  // names of the container's fields
    spec fn limit(name: int) -> int;               // and the capacity of those that are lists of containers
    fn generalized_index(path: &[Pe; 2]) -> (r: core::result::Result<usize, Error>)
        ensures path@[0] matches Pe::F(n) && path@[1] matches Pe::I(i) ==> (
            if Self::fields().contains(n as int) && i < Self::limit(n as int) { r matches Ok(g) && g == element_index(field_index(Self::fields(), n as int), Self::limit(n as int), i as int) && g > 0 } else { r is Err });
}
pub open spec fn fields_index_ok(g: int) -> bool { g > 0 }
#[verifier::external_body]
pub fn get_subtree_index(g: usize) -> (r: core::result::Result<usize, Error>) ensures g > 0 ==> (r matches Ok(x) && x == g as int - pow2(log2(g as int) as nat)), g == 0 ==> r is Err { unimplemented!() }
#[verifier::external_body]
pub fn is_valid_merkle_branch(leaf: Node, branch: &[Node], depth: usize, index: usize, root: Node) -> (r: core::result::Result<(), Error>)
    ensures r is Ok <==> branch@.len() == depth && fold(leaf, branch@, index as int) == root { unimplemented!() }
impl Commitment { #[verifier::external_body] pub fn hash_tree_root(&self) -> (r: core::result::Result<Node, Error>) ensures r matches Ok(n) && n == commitment_root(*self) { unimplemented!() } }
impl<const N: usize> Branch<N> { #[verifier::external_body] pub fn as_ref(&self) -> (r: &[Node]) ensures r@ == self.v@ { unimplemented!() } }
// ---- what an inclusion proof is ----
pub open spec fn included<B: SimpleSerialize>(commitment: Commitment, index: int, branch: Seq<Node>, depth: int, body_root: Node) -> bool {
    let g = element_index(field_index(B::fields(), SYM_blob_kzg_commitments as int), B::limit(SYM_blob_kzg_commitments as int), index);
    &&& B::fields().contains(SYM_blob_kzg_commitments as int)
    &&& index < B::limit(SYM_blob_kzg_commitments as int)
    &&& branch.len() == depth
    &&& fold(commitment_root(commitment), branch, g - pow2(log2(g) as nat)) == body_root
}
// the generated indices and depths of this code base are those of its containers
proof fn lemma_body_index(i: int)
    ensures field_index(deneb_body(), SYM_blob_kzg_commitments as int) == 27, field_index(electra_body(), SYM_blob_kzg_commitments as int) == 27,
        element_index(27, 4096, 0) == 221184, element_index(27, mainnet_MAX_BLOB_COMMITMENTS_PER_BLOCK as int, i) == 221184 + i
{
    assert(field_index(deneb_body(), SYM_blob_kzg_commitments as int) == 27) by (compute);
    assert(field_index(electra_body(), SYM_blob_kzg_commitments as int) == 27) by (compute);
    assert(ceil2(4096) == 4096) by (compute);
    assert(ceil2(mainnet_MAX_BLOB_COMMITMENTS_PER_BLOCK as int) == 4096) by (compute);
}
proof fn lemma_depths()
    ensures log2(element_index(27, mainnet_MAX_BLOB_COMMITMENTS_PER_BLOCK as int, 0)) == mainnet_KZG_COMMITMENT_INCLUSION_PROOF_DEPTH,
        log2(element_index(27, minimal_MAX_BLOB_COMMITMENTS_PER_BLOCK as int, 0)) == minimal_KZG_COMMITMENT_INCLUSION_PROOF_DEPTH
{
    assert(log2(element_index(27, mainnet_MAX_BLOB_COMMITMENTS_PER_BLOCK as int, 0)) == mainnet_KZG_COMMITMENT_INCLUSION_PROOF_DEPTH) by (compute);
    assert(log2(element_index(27, minimal_MAX_BLOB_COMMITMENTS_PER_BLOCK as int, 0)) == minimal_KZG_COMMITMENT_INCLUSION_PROOF_DEPTH) by (compute);
}
pub open spec fn light_client_indices(state: Seq<int>) -> bool {
    &&& 2 * field_index(state, SYM_finalized_checkpoint as int) + position(checkpoint(), SYM_root as int) == FINALIZED_ROOT_INDEX
    &&& checkpoint().len() == 2 && checkpoint().contains(SYM_root as int)
    &&& field_index(state, SYM_current_sync_committee as int) == CURRENT_SYNC_COMMITTEE_INDEX
    &&& field_index(state, SYM_next_sync_committee as int) == NEXT_SYNC_COMMITTEE_INDEX
}
proof fn lemma_light_client()
    ensures light_client_indices(altair_state()), light_client_indices(bellatrix_state()), light_client_indices(capella_state()), light_client_indices(deneb_state()),
        field_index(capella_body(), SYM_execution_payload as int) == EXECUTION_PAYLOAD_INDEX, field_index(deneb_body(), SYM_execution_payload as int) == EXECUTION_PAYLOAD_INDEX,
        log2(FINALIZED_ROOT_INDEX as int) == FINALIZED_ROOT_INDEX_FLOOR_LOG_2, log2(CURRENT_SYNC_COMMITTEE_INDEX as int) == CURRENT_SYNC_COMMITTEE_INDEX_FLOOR_LOG_2,
        log2(NEXT_SYNC_COMMITTEE_INDEX as int) == NEXT_SYNC_COMMITTEE_INDEX_FLOOR_LOG_2, log2(EXECUTION_PAYLOAD_INDEX as int) == EXECUTION_PAYLOAD_INDEX_FLOOR_LOG_2
{
    assert(checkpoint()[1] == SYM_root as int);
    assert(light_client_indices(altair_state())) by { assert(2 * field_index(altair_state(), SYM_finalized_checkpoint as int) + position(checkpoint(), SYM_root as int) == FINALIZED_ROOT_INDEX) by (compute); assert(field_index(altair_state(), SYM_current_sync_committee as int) == CURRENT_SYNC_COMMITTEE_INDEX) by (compute); assert(field_index(altair_state(), SYM_next_sync_committee as int) == NEXT_SYNC_COMMITTEE_INDEX) by (compute); }
    assert(light_client_indices(bellatrix_state())) by { assert(2 * field_index(bellatrix_state(), SYM_finalized_checkpoint as int) + position(checkpoint(), SYM_root as int) == FINALIZED_ROOT_INDEX) by (compute); assert(field_index(bellatrix_state(), SYM_current_sync_committee as int) == CURRENT_SYNC_COMMITTEE_INDEX) by (compute); assert(field_index(bellatrix_state(), SYM_next_sync_committee as int) == NEXT_SYNC_COMMITTEE_INDEX) by (compute); }
    assert(light_client_indices(capella_state())) by { assert(2 * field_index(capella_state(), SYM_finalized_checkpoint as int) + position(checkpoint(), SYM_root as int) == FINALIZED_ROOT_INDEX) by (compute); assert(field_index(capella_state(), SYM_current_sync_committee as int) == CURRENT_SYNC_COMMITTEE_INDEX) by (compute); assert(field_index(capella_state(), SYM_next_sync_committee as int) == NEXT_SYNC_COMMITTEE_INDEX) by (compute); }
    assert(light_client_indices(deneb_state())) by { assert(2 * field_index(deneb_state(), SYM_finalized_checkpoint as int) + position(checkpoint(), SYM_root as int) == FINALIZED_ROOT_INDEX) by (compute); assert(field_index(deneb_state(), SYM_current_sync_committee as int) == CURRENT_SYNC_COMMITTEE_INDEX) by (compute); assert(field_index(deneb_state(), SYM_next_sync_committee as int) == NEXT_SYNC_COMMITTEE_INDEX) by (compute); }
    assert(field_index(capella_body(), SYM_execution_payload as int) == EXECUTION_PAYLOAD_INDEX) by (compute);
    assert(field_index(deneb_body(), SYM_execution_payload as int) == EXECUTION_PAYLOAD_INDEX) by (compute);
    assert(log2(FINALIZED_ROOT_INDEX as int) == FINALIZED_ROOT_INDEX_FLOOR_LOG_2) by (compute);
    assert(log2(CURRENT_SYNC_COMMITTEE_INDEX as int) == CURRENT_SYNC_COMMITTEE_INDEX_FLOOR_LOG_2) by (compute);
    assert(log2(NEXT_SYNC_COMMITTEE_INDEX as int) == NEXT_SYNC_COMMITTEE_INDEX_FLOOR_LOG_2) by (compute);
    assert(log2(EXECUTION_PAYLOAD_INDEX as int) == EXECUTION_PAYLOAD_INDEX_FLOOR_LOG_2) by (compute);
}
@@subst
Result < \( \) , Error > => core :: result :: Result < ( ) , Error >
Vector < Node , KZG_COMMITMENT_INCLUSION_PROOF_DEPTH > => Branch < KZG_COMMITMENT_INCLUSION_PROOF_DEPTH >
Blob < BYTES_PER_BLOB > => Blob
"(\w+)" \. into \( \) => Pe :: F ( SYM_\1 )
blob_sidecar \. index \. into \( \) => Pe :: I ( blob_sidecar . index )
\. map_err \( Into :: into \) => 
@@struct BlobSidecar
@@fields deneb_beacon_block::BeaconBlockBody deneb_body
@@fields electra_beacon_block::BeaconBlockBody electra_body
@@fields capella_beacon_block::BeaconBlockBody capella_body
@@fields altair_beacon_state::BeaconState altair_state
@@fields bellatrix_beacon_state::BeaconState bellatrix_state
@@fields capella_beacon_state::BeaconState capella_state
@@fields deneb_beacon_state::BeaconState deneb_state
@@fields phase0_operations::Checkpoint checkpoint
@@const FINALIZED_ROOT_INDEX FINALIZED_ROOT_INDEX_FLOOR_LOG_2 CURRENT_SYNC_COMMITTEE_INDEX CURRENT_SYNC_COMMITTEE_INDEX_FLOOR_LOG_2 NEXT_SYNC_COMMITTEE_INDEX NEXT_SYNC_COMMITTEE_INDEX_FLOOR_LOG_2 EXECUTION_PAYLOAD_INDEX EXECUTION_PAYLOAD_INDEX_FLOOR_LOG_2
@@const mainnet::MAX_BLOB_COMMITMENTS_PER_BLOCK minimal::MAX_BLOB_COMMITMENTS_PER_BLOCK mainnet::KZG_COMMITMENT_INCLUSION_PROOF_DEPTH minimal::KZG_COMMITMENT_INCLUSION_PROOF_DEPTH
@@fn verify_blob_sidecar_inclusion_proof
ensures r is Ok <==> included::<BlockBody>(blob_sidecar.kzg_commitment, blob_sidecar.index as int, blob_sidecar.kzg_commitment_inclusion_proof.v@, KZG_COMMITMENT_INCLUSION_PROOF_DEPTH as int, blob_sidecar.signed_block_header.message.body_root)
