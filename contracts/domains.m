@@module domains file=ethereum-consensus/src/domains.rs
@@prelude
pub open spec fn le_byte(x: int, k: int) -> int
    decreases k
{
    if k <= 0 { x % 256 } else { le_byte(x / 256, k - 1) }
}
// u32::to_le_bytes (assumed contract of the standard library)
#[verifier::external_body]
pub fn v_u32_le(x: u32) -> (r: [u8; 4])
    ensures r@.len() == 4, forall|k: int| 0 <= k < 4 ==> (#[trigger] r@[k]) as int == le_byte(x as int, k)
{ unimplemented!() }
#[verifier::external_body]
pub fn v_u32_be(x: u32) -> (r: [u8; 4])
    ensures r@.len() == 4, forall|k: int| 0 <= k < 4 ==> (#[trigger] r@[k]) as int == le_byte(x as int, 3 - k)
{ unimplemented!() }
// the published domain types
pub open spec fn domain_bytes(d: DomainType) -> Seq<u8> {
    match d {
        DomainType::BeaconProposer => seq![0u8, 0, 0, 0],
        DomainType::BeaconAttester => seq![1u8, 0, 0, 0],
        DomainType::Randao => seq![2u8, 0, 0, 0],
        DomainType::Deposit => seq![3u8, 0, 0, 0],
        DomainType::VoluntaryExit => seq![4u8, 0, 0, 0],
        DomainType::SelectionProof => seq![5u8, 0, 0, 0],
        DomainType::AggregateAndProof => seq![6u8, 0, 0, 0],
        DomainType::SyncCommittee => seq![7u8, 0, 0, 0],
        DomainType::SyncCommitteeSelectionProof => seq![8u8, 0, 0, 0],
        DomainType::ContributionAndProof => seq![9u8, 0, 0, 0],
        DomainType::BlsToExecutionChange => seq![10u8, 0, 0, 0],
        DomainType::Consolidation => seq![11u8, 0, 0, 0],
        DomainType::ApplicationMask => seq![0u8, 0, 0, 1],
        DomainType::ApplicationBuilder => seq![0u8, 0, 0, 1],
    }
}
// two consensus purposes never share a domain type
pub proof fn lemma_domains_differ(a: DomainType, b: DomainType)
    requires domain_bytes(a) =~= domain_bytes(b), !(a is ApplicationMask) && !(a is ApplicationBuilder)
    ensures a == b
{
    assert(domain_bytes(a)[0] == domain_bytes(b)[0]);
    assert(domain_bytes(a)[3] == domain_bytes(b)[3]);
}
@@subst
(\w+) \. to_le_bytes \( \) => v_u32_le ( \1 )
(\w+) \. to_be_bytes \( \) => v_u32_be ( \1 )
\bSelf :: => DomainType ::
@@enum DomainType
@@impl DomainType impl DomainType
@@fn DomainType::as_bytes
ensures r@ =~= domain_bytes(*self)
@ start
proof { reveal_with_fuel(le_byte, 5); }
