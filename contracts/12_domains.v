@@spec
pub open spec fn sp_domain_bytes(t: DomainType) -> Seq<u8> {
    if t == DomainType::BeaconProposer { u32_le(0) } else if t == DomainType::BeaconAttester { u32_le(1) } else if t == DomainType::Randao { u32_le(2) }
    else if t == DomainType::Deposit { u32_le(3) } else if t == DomainType::VoluntaryExit { u32_le(4) } else if t == DomainType::SelectionProof { u32_le(5) }
    else if t == DomainType::AggregateAndProof { u32_le(6) } else if t == DomainType::SyncCommittee { u32_le(7) } else if t == DomainType::SyncCommitteeSelectionProof { u32_le(8) }
    else if t == DomainType::ContributionAndProof { u32_le(9) } else if t == DomainType::BlsToExecutionChange { u32_le(10) } else if t == DomainType::Consolidation { u32_le(11) }
    else { u32_le(0x0100_0000) }
}
pub open spec fn sp_fork_data_root(v: [u8; 4], r: Node) -> Node { htr(ForkData { current_version: v, genesis_validators_root: r }) }
// four bytes of the domain type, then the first 28 bytes of the fork data root
pub open spec fn sp_domain(t: DomainType, v: [u8; 4], r: Node) -> Seq<u8> { sp_domain_bytes(t) + nb(sp_fork_data_root(v, r)).subrange(0, 28) }
pub open spec fn sp_state_domain(s: StateV, t: DomainType, epoch: int) -> Seq<u8> {
    sp_domain(t, if epoch < s.fork.epoch as int { s.fork.previous_version } else { s.fork.current_version }, s.genesis_validators_root)
}
pub open spec fn sp_seed(s: StateV, epoch: int, t: DomainType, c: Context) -> Bytes32 {
    sha256((sp_domain_bytes(t) + u64_le(epoch as u64)) + b32(sp_randao_mix(s, epoch + c.epochs_per_historical_vector as int - c.min_seed_lookahead as int - 1)))
}
@@fn DomainType::as_bytes assume=1
ensures r@ == sp_domain_bytes(*self)
@@fn compute_fork_data_root
ensures r is Ok, r matches Ok(x) ==> x == sp_fork_data_root(current_version, genesis_validators_root)
@@fn compute_fork_digest
ensures r is Ok, r matches Ok(x) ==> x@ == nb(sp_fork_data_root(current_version, genesis_validators_root)).subrange(0, 4)
@@fn compute_domain
ensures r is Ok, r matches Ok(d) ==> d@ == sp_domain(domain_type, match fork_version { Some(v) => v, None => context.genesis_fork_version }, match genesis_validators_root { Some(x) => x, None => zero_node() })
@ tail
proof { assert(domain@ =~= sp_domain(domain_type, fork_version, genesis_validators_root)); }
@@fn get_domain
requires context.slots_per_epoch > 0
ensures r is Ok, r matches Ok(d) ==> d@ == sp_state_domain(state@, domain_type, match epoch { Some(e) => e as int, None => sp_cur(state@, *context) })
@@fn get_seed
requires wf_ctx(*context), wf_len(state@), epoch < 0x200_0000_0000_0000
ensures r == sp_seed(state@, epoch as int, domain_type, *context)
@ tail
proof { assert(input@ =~= (sp_domain_bytes(domain_type) + u64_le(epoch)) + b32(*mix)); }

@@rust
pub fn domain_table() -> Vec<(DomainType, ec::domains::DomainType)> { use ec::domains::DomainType as D; vec![
    (DomainType::BeaconProposer, D::BeaconProposer), (DomainType::BeaconAttester, D::BeaconAttester), (DomainType::Randao, D::Randao), (DomainType::Deposit, D::Deposit),
    (DomainType::VoluntaryExit, D::VoluntaryExit), (DomainType::SelectionProof, D::SelectionProof), (DomainType::AggregateAndProof, D::AggregateAndProof),
    (DomainType::SyncCommittee, D::SyncCommittee), (DomainType::SyncCommitteeSelectionProof, D::SyncCommitteeSelectionProof), (DomainType::ContributionAndProof, D::ContributionAndProof),
    (DomainType::BlsToExecutionChange, D::BlsToExecutionChange), (DomainType::Consolidation, D::Consolidation)] }
@@test domains props=C02,C06 n=150
let c = gen_ctx(g); let st = gen_state_n(g, &c, 2); let s = st.cv(); let cc = c.cv(); let e = if g.bool() { g.near(st.fork.epoch) } else { g.near(epoch_of(&st, &c)) };
for (m, d) in domain_table() {
    let v: [u8; 4] = g.bytes(); let r = g.node();
    eqv!(sp::compute_domain(d, Some(v), Some(r), &c).map(|x| x[..].cv()).ok(), Some(sp_domain(m, v, r.cv())), "compute_domain({m:?})");
    eqv!(sp::compute_domain(d, None, None, &c).map(|x| x[..].cv()).ok(), Some(sp_domain(m, c.genesis_fork_version, zero_node())), "compute_domain({m:?}) without version and root");
    eqv!(sp::get_domain(&st, d, Some(e), &c).map(|x| x[..].cv()).ok(), Some(sp_state_domain(s, m, e as int)), "get_domain({m:?}, {e}) with the fork at {}", st.fork.epoch);
    eqv!(sp::get_domain(&st, d, None, &c).map(|x| x[..].cv()).ok(), Some(sp_state_domain(s, m, sp_cur(s, cc))), "get_domain({m:?})");
    let e = e & 0xffff_ffff; eqv!(sp::get_seed(&st, e, d, &c).cv(), sp_seed(s, e as int, m, cc), "get_seed({e}, {m:?})");
    eqv!(sp::compute_fork_digest(v, r).map(|x| x[..].cv()).ok(), Some(nb(sp_fork_data_root(v, r.cv())).subrange(0, 4)), "compute_fork_digest");
}
eqv!(ec::builder::compute_builder_domain(&c).map(|x| x[..].cv()).ok(), Some(sp_domain(DomainType::ApplicationBuilder, c.genesis_fork_version, zero_node())), "compute_builder_domain");
let d: [u8; 32] = g.bytes(); let sk = key(g.idx(9)).sk; let x = g.node();
let sig = ec::signing::sign_with_domain(&x, &sk, d).map_err(|e| format!("{e:?}"))?;
let root = sp_signing_root(x.cv(), d[..].cv());
eqv!(format!("{sig:?}"), format!("{:?}", sk.sign(&root.0)), "sign_with_domain");
chk!(ec::signing::verify_signed_data(&x, &sig, &sk.public_key(), d).is_ok(), "a signature of sign_with_domain is refused by verify_signed_data");
