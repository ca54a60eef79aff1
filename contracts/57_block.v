@@spec
// ---- block header, randao, eth1 vote ----
pub open spec fn sp_xor(a: Bytes32, b: Bytes32) -> Bytes32 { Bytes32 { data: arr32(Seq::new(32 as nat, |k: int| b32(a)[k] ^ b32(b)[k])) } }
pub open spec fn sp_header_ok(s: StateV, b: BeaconBlock, c: Context) -> bool {
    b.slot == s.slot && b.slot > s.latest_block_header.slot && sp_active_indices(s, sp_cur(s, c)).len() > 0 && b.proposer_index == sp_proposer(s, c)
    && b.parent_root == htr(s.latest_block_header) && !s.validators[b.proposer_index as int].slashed
}
pub open spec fn sp_header(s: StateV, b: BeaconBlock) -> StateV {
    StateV { latest_block_header: BeaconBlockHeader { slot: b.slot, proposer_index: b.proposer_index, parent_root: b.parent_root, state_root: zero_node(), body_root: htr(b.body) }, ..s }
}
pub open spec fn sp_randao_ok(s: StateV, reveal: BlsSignature, c: Context) -> bool {
    sp_active_indices(s, sp_cur(s, c)).len() > 0
    && sig_valid(s.validators[sp_proposer(s, c) as int].public_key, sp_signing_root(htr(sp_cur(s, c) as u64), sp_state_domain(s, DomainType::Randao, sp_cur(s, c))), reveal)
}
pub open spec fn sp_randao(s: StateV, reveal: BlsSignature, c: Context) -> StateV {
    StateV { randao_mixes: s.randao_mixes.update(sp_cur(s, c) % cg_EPOCHS_PER_HISTORICAL_VECTOR, sp_xor(sp_randao_mix(s, sp_cur(s, c)), sha256(sigb(reveal)))), ..s }
}
pub open spec fn sp_votes(votes: Seq<Eth1Data>, d: Eth1Data, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { sp_votes(votes, d, n - 1) + (if votes[n - 1] == d { 1 } else { 0int }) }
}
pub open spec fn sp_eth1_vote(s: StateV, d: Eth1Data, c: Context) -> StateV {
    let v = s.eth1_data_votes.push(d);
    StateV { eth1_data_votes: v, eth1_data: if sp_votes(v, d, v.len() as int) * 2 > c.epochs_per_eth1_voting_period as int * c.slots_per_epoch as int { d } else { s.eth1_data }, ..s }
}
@@fn xor
ensures r == sp_xor(*a, *b)
@ start
let ghost x = b32(*a); let ghost y = b32(*b);
@ loop 0
invariant __i0 <= 32, __n0 == 32, __acc0@.len() == __i0, forall|k: int| 0 <= k < __i0 ==> #[trigger] __acc0@[k] == x[k] ^ y[k]
@ tail
proof { assert(inner@ =~= Seq::new(32 as nat, |k: int| x[k] ^ y[k])); }
@@fn process_block_header
requires wf_ctx(*context), wf_len(old(state)@), wf_eff(old(state)@.validators)
ensures r is Ok <==> sp_header_ok(old(state)@, *block, *context), r is Ok ==> final(state)@ == sp_header(old(state)@, *block)
@@fn process_randao
requires wf_ctx(*context), wf_len(old(state)@), wf_eff(old(state)@.validators)
ensures r is Ok <==> sp_randao_ok(old(state)@, body.randao_reveal, *context), r is Ok ==> final(state)@ == sp_randao(old(state)@, body.randao_reveal, *context)
@ start
proof { lemma_epoch_bound(state@.slot as int, *context); }
@@fn process_eth1_data
requires old(state)@.eth1_data_votes.len() < pow2_40(), context.epochs_per_eth1_voting_period * context.slots_per_epoch <= u64::MAX
ensures final(state)@ == sp_eth1_vote(old(state)@, body.eth1_data, *context)
@ start
let ghost s0 = state@;
@ loop 0
invariant __acc0 as int == sp_votes(state@.eth1_data_votes, body.eth1_data, __i0 as int), __acc0 <= __i0, state@ == (StateV { eth1_data_votes: s0.eth1_data_votes.push(body.eth1_data), ..s0 }), __i0 <= state@.eth1_data_votes.len()
@@rust
pub fn gen_block_state(g: &mut G, c: &RealCtx) -> RealBeaconState {
    let mut st = gen_sample_state(g, c); let n = st.validators.len();
    for i in 0..n { st.validators[i].public_key = key(i).pk; if g.chance(80) { st.validators[i].slashed = false; } }
    if g.chance(70) { for i in 0..n { if g.chance(90) { let v = &mut st.validators[i]; v.activation_epoch = 0; v.exit_epoch = u64::MAX; v.effective_balance = c.max_effective_balance; } } }
    st
}
@@test block_header props=C14 n=120
let mut c = gen_ctx(g); c.shuffle_round_count = 3; let mut st = gen_block_state(g, &c); let cc = c.cv();
if g.chance(70) && st.slot > 0 { st.latest_block_header.slot = st.slot - 1; }
let s = st.cv(); let active = sp_active_indices(s, sp_cur(s, cc)).len() > 0;
let mut b = RealBeaconBlock::default();
b.slot = st.slot; b.proposer_index = if active { sp_proposer(s, cc) } else { 0 }; b.parent_root = s.latest_block_header.htr1().rv(); b.state_root = g.node(); b.body.eth1_data.deposit_count = g.below(100); b.body.graffiti[3] = g.below(256) as u8;
if g.chance(50) { match g.below(7) { 0 => b.slot += 1, 1 => st.latest_block_header.slot = st.slot, 2 => st.latest_block_header.slot = st.slot + 1, 3 => b.proposer_index = g.idx(st.validators.len()), 4 => b.parent_root = g.node(), 5 => { let i = b.proposer_index; st.validators[i].slashed = true; } _ => st.latest_block_header.state_root = g.node() } }
let s = st.cv(); let m = b.cv(); let ok = sp_header_ok(s, m, cc);
let r = sp::process_block_header(&mut st, &b, &c).is_ok(); g.note("header accepted", ok);
eqv!(r, ok, "process_block_header at slot {} with latest {}", st.slot, s.latest_block_header.slot); if ok { seq_st!(st, sp_header(s, m), "process_block_header"); }
@@test randao props=C14 n=100
let mut c = gen_ctx(g); c.shuffle_round_count = 3; let mut st = gen_block_state(g, &c); let cc = c.cv(); let s = st.cv(); let e = sp_cur(s, cc);
let (a, b) = (g.b32(), g.b32()); eqv!(sp::xor(&a, &b).cv(), sp_xor(a.cv(), b.cv()), "xor");
let active = sp_active_indices(s, e).len() > 0; let p = if active { sp_proposer(s, cc) } else { 0 };
let mut body = RealBeaconBlockBody::default();
let e2 = if g.chance(20) { e + 1 } else { e }; let d = if g.chance(20) { DomainType::BeaconProposer } else { DomainType::Randao };
body.randao_reveal = if g.chance(10) { bad_sig(g) } else { key(if g.chance(10) { p + 1 } else { p }).sk.sign(sp_signing_root((e2 as u64).htr1(), sp_state_domain(s, d, e2)).0) };
let v = body.randao_reveal.cv(); let ok = sp_randao_ok(s, v, cc); g.note("randao accepted", ok);
let r = sp::process_randao(&mut st, &body, &c).is_ok();
eqv!(r, ok, "process_randao at slot {}", st.slot); if ok { seq_st!(st, sp_randao(s, v, cc), "process_randao at slot {}", st.slot); }
@@test eth1_vote props=C14 n=120
let mut c = gen_ctx(g); c.epochs_per_eth1_voting_period = g.pick(&[4u64, 1, 2]); let mut st = gen_state(g, &c); let mut body = RealBeaconBlockBody::default();
body.eth1_data.deposit_count = g.below(3); let k = st.eth1_data_votes.len(); let want = (c.epochs_per_eth1_voting_period * c.slots_per_epoch / 2) as usize;
if g.bool() { while st.eth1_data_votes.len() < 31 && st.eth1_data_votes.len() < want + 2 { let mut d = body.eth1_data.clone(); if g.chance(5) { d.deposit_root = g.node(); } st.eth1_data_votes.push(d); } }
else { for i in 0..k { if g.chance(80) { st.eth1_data_votes[i] = body.eth1_data.clone(); } } }
let s = st.cv(); let t = sp_eth1_vote(s, body.eth1_data.cv(), c.cv()); g.note("eth1 adopted", t.eth1_data != s.eth1_data);
sp::process_eth1_data(&mut st, &body, &c); seq_st!(st, t, "process_eth1_data with {} votes", k);
