@@spec forks=phase0,altair
pub open spec fn sp_bh_ok(s: StateV, b: BeaconBlock, c: Context) -> bool { sp_header_ok(s, b, c) }
pub open spec fn sp_bh(s: StateV, b: BeaconBlock, c: Context) -> StateV { sp_header(s, b) }
@@spec forks=bellatrix
pub open spec fn sp_bh_ok(s: StateV, b: BeaconBlock, c: Context) -> bool {
    sp_header_ok(s, b, c) && (!sp_execution_enabled(sp_header(s, b), b.body) || sp_payload_ok(sp_header(s, b), b.body, c))
}
pub open spec fn sp_bh(s: StateV, b: BeaconBlock, c: Context) -> StateV {
    let h = sp_header(s, b); if sp_execution_enabled(h, b.body) { sp_payload(h, b.body.execution_payload) } else { h }
}
@@spec forks=capella+
pub open spec fn sp_bh_ok(s: StateV, b: BeaconBlock, c: Context) -> bool {
    sp_header_ok(s, b, c) && b.body.execution_payload.withdrawals@ == sp_expected(sp_header(s, b), c) && sp_payload_ok(sp_withdrawals(sp_header(s, b), c), b.body, c)
}
pub open spec fn sp_bh(s: StateV, b: BeaconBlock, c: Context) -> StateV { sp_payload(sp_withdrawals(sp_header(s, b), c), b.body.execution_payload) }
@@spec
pub open spec fn sp_br(s: StateV, b: BeaconBlock, c: Context) -> StateV { sp_eth1_vote(sp_randao(s, b.body.randao_reveal, c), b.body.eth1_data, c) }
@@spec forks=phase0
pub open spec fn sp_block_ok(s: StateV, b: BeaconBlock, c: Context) -> bool {
    sp_bh_ok(s, b, c) && sp_randao_ok(sp_bh(s, b, c), b.body.randao_reveal, c) && sp_operations_ok(sp_br(sp_bh(s, b, c), b, c), b.body, c)
}
pub open spec fn sp_block(s: StateV, b: BeaconBlock, c: Context) -> StateV { sp_operations(sp_br(sp_bh(s, b, c), b, c), b.body, c) }
@@spec forks=altair+
pub open spec fn sp_block_ok(s: StateV, b: BeaconBlock, c: Context) -> bool {
    sp_bh_ok(s, b, c) && sp_randao_ok(sp_bh(s, b, c), b.body.randao_reveal, c) && sp_operations_ok(sp_br(sp_bh(s, b, c), b, c), b.body, c)
    && sp_sync_valid(sp_operations(sp_br(sp_bh(s, b, c), b, c), b.body, c), b.body.sync_aggregate, c)
}
pub open spec fn sp_block(s: StateV, b: BeaconBlock, c: Context) -> StateV { sp_sync_aggregate(sp_operations(sp_br(sp_bh(s, b, c), b, c), b.body, c), b.body.sync_aggregate, c) }
@@spec
// with validation on, the signature must be the proposer's and the resulting root the one the block names
pub open spec fn sp_transition_ok(s: StateV, b: SignedBeaconBlock, validate: bool, c: Context) -> bool {
    (!validate || sp_block_signed(s, b, c)) && sp_block_ok(s, b.message, c) && (!validate || b.message.state_root == htr(sp_block(s, b.message, c)))
}
@@vspec forks=phase0
pub open spec fn sync_pre(s: StateV, b: BeaconBlock, c: Context) -> bool { true }
@@vspec forks=altair+
pub open spec fn sync_pre(s: StateV, b: BeaconBlock, c: Context) -> bool {
    wf_ctx(c) && sync_ctx(c) && wf_ops(s, c, kmax() - 256) && has_active(s, c) && sync_known(s) && (kf_slot0() ==> s.slot > 0)
    && s.current_sync_committee.public_keys@.len() == cg_SYNC_COMMITTEE_SIZE && b.body.sync_aggregate.sync_committee_bits@.len() == cg_SYNC_COMMITTEE_SIZE
}
@@vspec forks=phase0,altair
pub open spec fn payloads_pre(s: StateV, b: BeaconBlock, c: Context) -> bool { true }
@@vspec forks=bellatrix
pub open spec fn payloads_pre(s: StateV, b: BeaconBlock, c: Context) -> bool { sp_execution_enabled(s, b.body) ==> payload_pre(s, c) }
@@vspec forks=capella+
pub open spec fn payloads_pre(s: StateV, b: BeaconBlock, c: Context) -> bool { wd_ok(s, c) && (b.body.execution_payload.withdrawals@ == sp_expected(s, c) ==> payload_pre(sp_withdrawals(s, c), c)) }
@@vspec
pub open spec fn randao_pre(s: StateV, c: Context) -> bool { wf_ctx(c) && wf_len(s) && wf_eff(s.validators) }
pub open spec fn block_pre(s: StateV, b: BeaconBlock, c: Context) -> bool {
    randao_pre(s, c) && (sp_header_ok(s, b, c) ==> payloads_pre(sp_header(s, b), b, c))
    && (sp_bh_ok(s, b, c) ==> randao_pre(sp_bh(s, b, c), c))
    && (sp_bh_ok(s, b, c) && sp_randao_ok(sp_bh(s, b, c), b.body.randao_reveal, c) ==>
        sp_randao(sp_bh(s, b, c), b.body.randao_reveal, c).eth1_data_votes.len() < pow2_40() && c.epochs_per_eth1_voting_period * c.slots_per_epoch <= u64::MAX
        && !kf_deposits(sp_br(sp_bh(s, b, c), b, c)) && operations_pre(sp_br(sp_bh(s, b, c), b, c), b.body, c)
        && (sp_operations_ok(sp_br(sp_bh(s, b, c), b, c), b.body, c) ==> sync_pre(sp_operations(sp_br(sp_bh(s, b, c), b, c), b.body, c), b, c)))
}
@@fn process_block forks=phase0
requires block_pre(old(state)@, *block, *context)
ensures r is Ok <==> sp_block_ok(old(state)@, *block, *context), r is Ok ==> final(state)@ == sp_block(old(state)@, *block, *context)
@ start
hide(sp_operations); hide(sp_operations_ok); hide(operations_pre); hide(sp_header_ok); hide(sp_eth1_vote); hide(sp_randao_ok); hide(wf_len); hide(wf_ctx); hide(wf_eff);
@@fn process_block forks=altair
requires block_pre(old(state)@, *block, *context)
ensures r is Ok <==> sp_block_ok(old(state)@, *block, *context), r is Ok ==> final(state)@ == sp_block(old(state)@, *block, *context)
@ start
hide(sp_operations); hide(sp_operations_ok); hide(operations_pre); hide(sp_header_ok); hide(sp_eth1_vote); hide(sp_randao_ok); hide(wf_len); hide(wf_ctx); hide(wf_eff); hide(sp_sync_valid); hide(sp_sync_aggregate);
@@fn process_block forks=bellatrix
requires block_pre(old(state)@, *block, *context)
ensures r is Ok <==> sp_block_ok(old(state)@, *block, *context), r is Ok ==> final(state)@ == sp_block(old(state)@, *block, *context)
@ start
hide(sp_operations); hide(sp_operations_ok); hide(operations_pre); hide(sp_header_ok); hide(sp_eth1_vote); hide(sp_randao_ok); hide(wf_len); hide(wf_ctx); hide(wf_eff); hide(sp_sync_valid); hide(sp_sync_aggregate); hide(sp_execution_enabled); hide(sp_payload_ok); hide(payload_pre);
@@fn process_block forks=capella+
requires block_pre(old(state)@, *block, *context)
ensures r is Ok <==> sp_block_ok(old(state)@, *block, *context), r is Ok ==> final(state)@ == sp_block(old(state)@, *block, *context)
@ start
hide(sp_operations); hide(sp_operations_ok); hide(operations_pre); hide(sp_header_ok); hide(sp_eth1_vote); hide(sp_randao_ok); hide(wf_len); hide(wf_ctx); hide(wf_eff); hide(sp_sync_valid); hide(sp_sync_aggregate); hide(sp_payload_ok); hide(payload_pre); hide(sp_expected); hide(sp_withdrawals); hide(wd_ok);
@@fn state_transition_block_in_slot
requires wf_ctx(*context), block_pre(old(state)@, signed_block.message, *context)
ensures r is Ok <==> sp_transition_ok(old(state)@, *signed_block, validation is Enabled, *context), r is Ok ==> final(state)@ == sp_block(old(state)@, signed_block.message, *context)
@ start
hide(sp_block); hide(sp_block_ok); hide(block_pre); hide(sp_block_signed);
@@fn state_transition
requires wf_ctx(*context), slots_pre(old(state)@, signed_block.message.slot - old(state)@.slot, *context),
    old(state)@.slot < signed_block.message.slot && sp_after_ok(old(state)@, signed_block.message.slot - old(state)@.slot, *context) ==> block_pre(sp_after(old(state)@, signed_block.message.slot - old(state)@.slot, *context), signed_block.message, *context)
ensures r is Ok <==> old(state)@.slot < signed_block.message.slot && sp_after_ok(old(state)@, signed_block.message.slot - old(state)@.slot, *context)
        && sp_transition_ok(sp_after(old(state)@, signed_block.message.slot - old(state)@.slot, *context), *signed_block, validation is Enabled, *context),
    r is Ok ==> final(state)@ == sp_block(sp_after(old(state)@, signed_block.message.slot - old(state)@.slot, *context), signed_block.message, *context)
@ start
hide(sp_block); hide(sp_transition_ok); hide(block_pre); hide(sp_after); hide(sp_after_ok); hide(slots_pre);
@@rust forks=phase0
pub fn gen_ready(g: &mut G, c: &RealCtx) -> RealBeaconState { gen_block_state(g, c) }
pub fn fill_sync(_g: &mut G, _st: &RealBeaconState, _b: &mut RealBeaconBlock, _c: &RealCtx) {}
@@rust forks=altair+
pub fn gen_ready(g: &mut G, c: &RealCtx) -> RealBeaconState { gen_sync_state(g, c) }
pub fn fill_sync(g: &mut G, st: &RealBeaconState, b: &mut RealBeaconBlock, c: &RealCtx) { b.body.sync_aggregate = gen_sync_aggregate(g, st, c); }
@@rust forks=phase0,altair
pub fn fill_payload(_g: &mut G, _st: &RealBeaconState, _b: &mut RealBeaconBlock, _c: &RealCtx) {}
pub fn ready_payload(_g: &mut G, _st: &mut RealBeaconState) {}
@@rust forks=bellatrix
pub fn ready_payload(g: &mut G, st: &mut RealBeaconState) { gen_latest(g, st); }
pub fn fill_payload(g: &mut G, st: &RealBeaconState, b: &mut RealBeaconBlock, c: &RealCtx) {
    if g.chance(80) { gen_payload_in(g, st, c, &mut b.body.execution_payload); }
    if g.chance(10) { b.body.execution_payload.timestamp += 1; }
}
@@rust forks=capella+
pub fn ready_payload(g: &mut G, st: &mut RealBeaconState) {
    gen_latest(g, st); let n = st.validators.len(); st.next_withdrawal_validator_index = g.idx(n); st.next_withdrawal_index = g.idx(90);
    for i in 0..n { if g.bool() { let v = &mut st.validators[i]; v.withdrawal_credentials[0] = 1; if g.bool() { st.balances[i] += 5; } } }
}
pub fn fill_payload(g: &mut G, st: &RealBeaconState, b: &mut RealBeaconBlock, c: &RealCtx) {
    gen_payload_in(g, st, c, &mut b.body.execution_payload); let (w, _) = expected(st, c);
    for x in &w { b.body.execution_payload.withdrawals.push(x.clone()); }
    match g.below(20) { 0 => { b.body.execution_payload.withdrawals.pop(); b.body.execution_payload.withdrawals.push(Default::default()); }, 1 => b.body.execution_payload.timestamp += 1, 2 => { b.body.execution_payload.withdrawals.pop(); } _ => {} }
}
@@rust
pub fn gen_block(g: &mut G, st: &RealBeaconState, c: &RealCtx) -> RealSignedBeaconBlock {
    let s = st.cv(); let cc = c.cv(); let e = sp_cur(s, cc); let p = if sp_active_indices(s, e).len() > 0 { sp_proposer(s, cc) } else { 0 };
    let mut x = RealSignedBeaconBlock::default(); let b = &mut x.message;
    b.slot = st.slot; b.proposer_index = p; b.parent_root = s.latest_block_header.htr1().rv(); b.body.graffiti[3] = g.below(256) as u8;
    b.body.eth1_data.deposit_count = g.pick(&[5u64, 5, 5, 6]); b.body.randao_reveal = key(p).sk.sign(sp_signing_root(htr(e as u64), sp_state_domain(s, DomainType::Randao, e)).0);
    if g.chance(5) { b.body.randao_reveal = bad_sig(g); } if g.chance(5) { b.proposer_index += 1; } if g.chance(4) { b.parent_root = g.node(); }
    fill_payload(g, st, b, c); fill_sync(g, st, b, c); x
}
pub fn sign_block(g: &mut G, st: &RealBeaconState, c: &RealCtx, b: &mut RealSignedBeaconBlock) {
    let s = st.cv(); let cc = c.cv(); let ok = sp_block_ok(s, b.message.cv(), cc);
    if ok && g.chance(80) { b.message.state_root = htr(sp_block(s, b.message.cv(), cc)).rv(); } else { b.message.state_root = g.node(); }
    let p = b.message.proposer_index % st.validators.len();
    b.signature = if g.chance(10) { bad_sig(g) } else { key(p).sk.sign(sp_signing_root(b.message.cv().htr1(), sp_state_domain(s, DomainType::BeaconProposer, sp_cur(s, cc))).0) };
}
pub fn ctx_block(g: &mut G) -> RealCtx { let mut c = gen_ctx(g); c.shuffle_round_count = 3; c.seconds_per_slot = 12; c.execution_engine = g.chance(95); c.epochs_per_eth1_voting_period = g.pick(&[4u64, 1, 2]); c }
pub fn state_block(g: &mut G, c: &RealCtx) -> RealBeaconState {
    let mut st = gen_ready(g, c); if st.slot == 0 { st.slot = 1; } ready_payload(g, &mut st);
    st.latest_block_header.slot = st.slot - 1; st.eth1_data.deposit_count = 5; st.eth1_deposit_index = 5; for v in st.validators.iter_mut() { if g.chance(80) { v.slashed = false; } }
    st
}
@@test block props=C20 n=60
let c = ctx_block(g); let mut st = state_block(g, &c); let cc = c.cv(); let b = gen_block(g, &st, &c).message; if g.chance(5) { st.slot += 1; }
if kf_deposits(st.cv()) { return Ok(()); }
let s = st.cv(); let m = b.cv(); let ok = sp_block_ok(s, m, cc); g.note("block", ok);
let r = sp::process_block(&mut st, &b, &c).is_ok(); eqv!(r, ok, "process_block at slot {} of {:?}", s.slot, b);
if ok { seq_st!(st, sp_block(s, m, cc), "process_block at slot {} of {:?}", s.slot, b); }
@@test transition_in_slot props=C20 n=60
let c = ctx_block(g); let mut st = state_block(g, &c); let cc = c.cv(); let mut b = gen_block(g, &st, &c); sign_block(g, &st, &c, &mut b); let v = g.chance(75);
let s = st.cv(); let m = b.cv(); let ok = sp_transition_ok(s, m, v, cc); g.note("transition in slot", ok); g.note("transition in slot validated", ok && v);
let r = sp::state_transition_block_in_slot(&mut st, &b, if v { ec::state_transition::Validation::Enabled } else { ec::state_transition::Validation::Disabled }, &c).is_ok();
eqv!(r, ok, "state_transition_block_in_slot at slot {} with validation {v} of {:?}", s.slot, b);
if ok { seq_st!(st, sp_block(s, m.message, cc), "state_transition_block_in_slot at slot {} with validation {v}", s.slot); }
@@test transition props=C20 n=30
let c = ctx_block(g); let mut st = state_block(g, &c); let cc = c.cv(); let s = st.cv(); let k = 1 + g.below(2);
// a boundary would need a state that epoch processing accepts: the slots test covers those
for i in 0..k { if (s.slot + i + 1) % c.slots_per_epoch == 0 { return Ok(()); } }
if !sp_after_ok(s, k as int, cc) { return Ok(()); }
let t: RealBeaconState = { let mut t = st.clone(); if sp::process_slots(&mut t, s.slot + k, &c).is_err() { return Ok(()); } t };
let mut b = gen_block(g, &t, &c); sign_block(g, &t, &c, &mut b); let v = g.chance(75);
if g.chance(10) { b.message.slot = s.slot - g.below(2); }
let n = b.message.slot as int - s.slot as int; let m = b.cv(); let ok = n > 0 && sp_after_ok(s, n, cc) && sp_transition_ok(sp_after(s, n, cc), m, v, cc); g.note("transition", ok);
let r = sp::state_transition(&mut st, &b, if v { ec::state_transition::Validation::Enabled } else { ec::state_transition::Validation::Disabled }, &c).is_ok();
eqv!(r, ok, "state_transition from {} to {} with validation {v} of {:?}", s.slot, b.message.slot, b);
if ok { seq_st!(st, sp_block(sp_after(s, n, cc), m.message, cc), "state_transition from {} to {} with validation {v}", s.slot, b.message.slot); }
