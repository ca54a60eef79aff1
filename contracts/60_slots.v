@@spec
// ---- one slot: the state root, then the latest header's root, go to the slot's places in the ring buffers ----
pub open spec fn sp_slot_header(s: StateV) -> BeaconBlockHeader {
    if s.latest_block_header.state_root == zero_node() { BeaconBlockHeader { state_root: htr(s), ..s.latest_block_header } } else { s.latest_block_header }
}
pub open spec fn sp_slot(s: StateV, c: Context) -> StateV {
    let i = (s.slot as int) % (c.slots_per_historical_root as int);
    StateV { state_roots: s.state_roots.update(i, htr(s)), latest_block_header: sp_slot_header(s), block_roots: s.block_roots.update(i, htr(sp_slot_header(s))), ..s }
}
@@fn process_slot
requires wf_ctx(*context), wf_len(old(state)@)
ensures r is Ok, final(state)@ == sp_slot(old(state)@, *context)
@ start
let ghost s0 = state@;
@ tail
proof {
    assert(state@.state_roots =~= sp_slot(s0, *context).state_roots); assert(state@.block_roots =~= sp_slot(s0, *context).block_roots);
}
@@spec
// ---- the epoch stages, in order ----
@@spec forks=phase0
pub open spec fn sp_ep1(s: StateV, c: Context) -> StateV { sp_justification(s, c) }
pub open spec fn sp_ep2(s: StateV, c: Context) -> StateV { sp_rewards(sp_ep1(s, c), c) }
@@spec forks=altair+
pub open spec fn sp_ep1(s: StateV, c: Context) -> StateV { sp_inactivity(sp_justification(s, c), c) }
pub open spec fn sp_ep2(s: StateV, c: Context) -> StateV { sp_rewards(sp_ep1(s, c), c) }
@@spec
pub open spec fn sp_ep3(s: StateV, c: Context) -> StateV { sp_registry(sp_ep2(s, c), c) }
pub open spec fn sp_ep4(s: StateV, c: Context) -> StateV { sp_eth1_reset(sp_slashings(sp_ep3(s, c), c), c) }
@@spec forks=..deneb
pub open spec fn sp_ep5(s: StateV, c: Context) -> StateV { sp_ep4(s, c) }
@@spec forks=electra
pub open spec fn sp_ep4d(s: StateV, c: Context) -> StateV { sp_pending_deposits(sp_ep4(s, c), c) }
pub open spec fn sp_ep5(s: StateV, c: Context) -> StateV { sp_pending_consolidations(sp_ep4d(s, c), c) }
@@spec
pub open spec fn sp_ep6(s: StateV, c: Context) -> StateV { sp_randao_reset(sp_slashings_reset(sp_eff_updates(sp_ep5(s, c), c), c), c) }
pub open spec fn sp_ep7(s: StateV, c: Context) -> StateV { sp_participation_update(sp_history_update(sp_ep6(s, c), c)) }
@@spec forks=phase0
pub open spec fn sp_epoch(s: StateV, c: Context) -> StateV { sp_ep7(s, c) }
pub open spec fn sp_epoch_ok(s: StateV, c: Context) -> bool { sp_just0_ok(s, c) }
@@spec forks=altair+
pub open spec fn sp_epoch(s: StateV, c: Context) -> StateV { sp_sync_updates(sp_ep7(s, c), c) }
pub open spec fn sp_epoch_ok(s: StateV, c: Context) -> bool {
    sp_justification_ok(s, c) && (!sp_sync_period_ends(sp_ep7(s, c), c) || agg_key_ok(sp_next_keys(sp_ep7(s, c), c)))
}
@@vspec
// what the stages need of the state they start from (64-bit ranges and parallel lists, see the stages' own contracts)
pub open spec fn ep_just_pre(s: StateV, c: Context) -> bool { wf_state(s, c) && just_pre(s, c) }
pub open spec fn ep_mid_pre(t3: StateV, t5: StateV, c: Context) -> bool { wf_state(t3, c) && slashings_fit(t3, c) && wf_state(t5, c) }
@@vspec forks=phase0
pub open spec fn epoch_ok(s: StateV, c: Context) -> bool {
    ep_just_pre(s, c) && wf_part(s, c)
    && ({ let t = sp_ep1(s, c); wf_ctx(c) && wf_len(t) && (sp_cur(t, c) == 0 || (att_pre(t, c) && rewards_fit(t, c))) })
    && reg_inv(sp_ep2(s, c), c, 2 * pow2_60()) && ep_mid_pre(sp_ep3(s, c), sp_ep5(s, c), c)
}
@@vspec forks=altair+
pub open spec fn ep_head_pre(s: StateV, c: Context) -> bool {
    ep_just_pre(s, c) && wf_part(s)
    && ({ let t = sp_justification(s, c); sp_cur(t, c) > 0 ==> delay_ok(t, c) && scores_fit(t, c) })
    && ({ let t = sp_ep1(s, c); reward_pre(t, c) && wf_part(t) && (sp_cur(t, c) == 0 || rewards_fit(t, c)) })
    && reg_inv(sp_ep2(s, c), c, 2 * pow2_60())
}
pub open spec fn ep_last_pre(t: StateV, c: Context) -> bool { list_fits::<u8>(t.validators.len() as int) && sync_ctx(c) && wf_eff(t.validators) && sampling_ok(t, c) }
@@vspec forks=altair-deneb
pub open spec fn epoch_ok(s: StateV, c: Context) -> bool { ep_head_pre(s, c) && ep_mid_pre(sp_ep3(s, c), sp_ep5(s, c), c) && ep_last_pre(sp_ep7(s, c), c) }
@@vspec forks=electra
pub open spec fn epoch_ok(s: StateV, c: Context) -> bool {
    ep_head_pre(s, c) && ep_mid_pre(sp_ep3(s, c), sp_ep5(s, c), c) && ep_last_pre(sp_ep7(s, c), c)
    && ({ let t = sp_ep4(s, c); wf_eff(t.validators) && wf_bal(t) && dep_ok(t) }) && ({ let t = sp_ep4d(s, c); wf_len(t) && cons_ok(t) })
}
@@vspec
pub proof fn lemma_mid_len(s: StateV, c: Context)
    requires wf_ctx(c), wf_len(s)
    ensures wf_len(sp_eff_updates(s, c)), wf_len(sp_slashings_reset(s, c)), wf_len(sp_randao_reset(s, c)), wf_len(sp_history_update(s, c)), wf_len(sp_participation_update(s)),
        wf_len(sp_eth1_reset(s, c)), wf_len(sp_slashings(s, c))
{}
@@fn process_epoch
requires epoch_ok(old(state)@, *context)
ensures r is Ok <==> sp_epoch_ok(old(state)@, *context), r is Ok ==> final(state)@ == sp_epoch(old(state)@, *context)
@ start
let ghost s0 = state@;
proof {
    let c = *context;
    lemma_mid_len(sp_ep3(s0, c), c); lemma_mid_len(sp_slashings(sp_ep3(s0, c), c), c);
    let a = sp_ep5(s0, c); lemma_mid_len(a, c);
    let b = sp_eff_updates(a, c); lemma_mid_len(b, c);
    let d = sp_slashings_reset(b, c); lemma_mid_len(d, c);
    let e = sp_randao_reset(d, c); lemma_mid_len(e, c);
    let f = sp_history_update(e, c); lemma_mid_len(f, c);
}
@@spec
// ---- n slots ----
pub open spec fn sp_due(s: StateV, c: Context) -> bool { (s.slot as int + 1) % (c.slots_per_epoch as int) == 0 }
pub open spec fn sp_step(s: StateV, c: Context) -> StateV {
    let t = sp_slot(s, c);
    if sp_due(s, c) { StateV { slot: (s.slot as int + 1) as u64, ..sp_epoch(t, c) } } else { StateV { slot: (s.slot as int + 1) as u64, ..t } }
}
pub open spec fn sp_step_ok(s: StateV, c: Context) -> bool { !sp_due(s, c) || sp_epoch_ok(sp_slot(s, c), c) }
pub open spec fn sp_after(s: StateV, n: int, c: Context) -> StateV
    decreases n
{
    if n <= 0 { s } else { sp_step(sp_after(s, n - 1, c), c) }
}
// all epochs on the way go through
pub open spec fn sp_after_ok(s: StateV, n: int, c: Context) -> bool
    decreases n
{
    if n <= 0 { true } else { sp_after_ok(s, n - 1, c) && sp_step_ok(sp_after(s, n - 1, c), c) }
}
@@vspec
pub open spec fn step_pre(s: StateV, c: Context) -> bool { wf_ctx(c) && wf_len(s) && (sp_due(s, c) ==> epoch_ok(sp_slot(s, c), c)) }
pub open spec fn slots_pre(s: StateV, n: int, c: Context) -> bool { forall|k: int| 0 <= k < n && #[trigger] sp_after_ok(s, k, c) ==> step_pre(sp_after(s, k, c), c) }
pub proof fn lemma_after_err(s: StateV, k: int, n: int, c: Context)
    requires k <= n, !sp_after_ok(s, k, c) ensures !sp_after_ok(s, n, c)
    decreases n
{
    if k < n { lemma_after_err(s, k, n - 1, c); }
}
pub proof fn lemma_registry_slot(s: StateV, n: int, c: Context)
    ensures sp_registry_first(s, n, c).slot == s.slot
    decreases n
{
    if n > 0 { lemma_registry_slot(s, n - 1, c); }
}
@@vspec forks=altair+
pub proof fn lemma_rewards_slot(s: StateV, k: int, c: Context)
    ensures sp_rewarded(s, k, c).slot == s.slot
    decreases k
{
    if k > 0 { lemma_rewards_slot(s, k - 1, c); }
}
@@vspec forks=phase0
pub proof fn lemma_rewards_slot(s: StateV, k: int, c: Context)
{}
@@vspec forks=..deneb
pub proof fn lemma_cons_slot(s: StateV, k: int, c: Context)
{}
@@vspec forks=electra
pub proof fn lemma_cons_slot(s: StateV, k: int, c: Context)
    ensures sp_cons_applied(s, k, c).slot == s.slot
    decreases k
{
    if k > 0 { lemma_cons_slot(s, k - 1, c); }
}
@@vspec
pub proof fn lemma_epoch_slot(s: StateV, c: Context)
    ensures sp_epoch(s, c).slot == s.slot
{
    lemma_rewards_slot(sp_ep1(s, c), 4, c);
    lemma_registry_slot(sp_ep2(s, c), sp_ep2(s, c).validators.len() as int, c);
    lemma_pend_slot(s, c);
    assert(sp_ep1(s, c).slot == s.slot); assert(sp_ep2(s, c).slot == s.slot); assert(sp_ep3(s, c).slot == s.slot); assert(sp_ep4(s, c).slot == s.slot);
    assert(sp_ep5(s, c).slot == s.slot);
}
@@vspec forks=..deneb
pub proof fn lemma_pend_slot(s: StateV, c: Context)
    ensures sp_ep5(s, c).slot == sp_ep4(s, c).slot
{}
@@vspec forks=electra
pub proof fn lemma_pend_slot(s: StateV, c: Context)
    ensures sp_ep5(s, c).slot == sp_ep4(s, c).slot
{
    let t = sp_ep4d(s, c); lemma_cons_slot(t, sp_cons_taken(t, t.pending_consolidations.len() as int, c), c);
}
@@fn process_slots
requires slots_pre(old(state)@, slot - old(state)@.slot, *context)
ensures r is Ok <==> old(state)@.slot < slot && sp_after_ok(old(state)@, slot - old(state)@.slot, *context),
    r is Ok ==> final(state)@ == sp_after(old(state)@, slot - old(state)@.slot, *context)
@ start
hide(sp_epoch); hide(sp_epoch_ok); hide(epoch_ok);
let ghost s0 = state@; let ghost mut k: int = 0; let ghost n = slot - s0.slot;
@ loop 0
invariant 0 <= k <= n, n == slot - s0.slot, state@.slot == s0.slot + k, state@ == sp_after(s0, k, *context), sp_after_ok(s0, k, *context), slots_pre(s0, n, *context)
decreases n - k
@ loopstart 0
let ghost t = state@;
proof {
    assert(step_pre(t, *context));
    assert(sp_after_ok(s0, k + 1, *context) == (sp_after_ok(s0, k, *context) && sp_step_ok(t, *context)));
    if !sp_step_ok(t, *context) { lemma_after_err(s0, k + 1, n, *context); }
    lemma_epoch_slot(sp_slot(t, *context), *context);
    assert(sp_after(s0, k + 1, *context) == sp_step(t, *context));
}
@ loopend 0
proof { k = k + 1; }
@@spec
// ---- the block's signature ----
pub open spec fn sp_block_signed(s: StateV, b: SignedBeaconBlock, c: Context) -> bool {
    (b.message.proposer_index as int) < s.validators.len()
    && sig_valid(s.validators[b.message.proposer_index as int].public_key, sp_signing_root(htr(b.message), sp_state_domain(s, DomainType::BeaconProposer, sp_cur(s, c))), b.signature)
}
@@fn verify_block_signature
requires wf_ctx(*context)
ensures r is Ok <==> sp_block_signed(state@, *signed_block, *context)
@@rust forks=phase0
pub fn epoch_keys(_g: &mut G, _st: &mut RealBeaconState, _c: &RealCtx) {}
@@rust forks=altair+
pub fn epoch_keys(_g: &mut G, st: &mut RealBeaconState, c: &RealCtx) {
    for i in 0..st.validators.len() { st.validators[i].public_key = key(i).pk; }
    let v = &mut st.validators[0]; v.activation_epoch = 0; v.activation_eligibility_epoch = 0; v.exit_epoch = u64::MAX; v.withdrawable_epoch = u64::MAX; v.slashed = false; v.effective_balance = c.max_effective_balance; st.balances[0] = c.max_effective_balance;
}
@@rust
pub fn gen_turning(g: &mut G, c: &RealCtx) -> RealBeaconState {
    let mut st = gen_rewarding(g, c); small_scores(g, &mut st); epoch_keys(g, &mut st, c);
    if g.chance(40) { st.latest_block_header.state_root = Default::default(); } else { st.latest_block_header.state_root = g.node(); }
    st
}
pub fn epoch_fine(s: StateV, c: Context) -> bool { !(kf_slot0() && s.slot == 0) && sp_epoch_ok(s, c) }
@@test slot props=C20 n=60
let c = gen_ctx(g); let mut st = gen_state(g, &c); st.slot = g.pick(&[0u64, 1, 63, 64, 65, 1000]) + g.below(70); if g.bool() { st.latest_block_header.state_root = Default::default(); }
let s = st.cv(); let cc = c.cv(); g.note("state root filled in", s.latest_block_header.state_root == zero_node());
chk!(sp::process_slot(&mut st, &c).is_ok(), "process_slot failed"); seq_st!(st, sp_slot(s, cc), "process_slot at slot {}", s.slot);
@@test epoch props=C20 n=20
let mut c = gen_ctx(g); c.shuffle_round_count = 3; c.epochs_per_eth1_voting_period = g.pick(&[4u64, 1, 2]); let mut st = gen_turning(g, &c); let s = st.cv(); let cc = c.cv();
if kf_slot0() && s.slot == 0 { return Ok(()); }
let ok = sp_epoch_ok(s, cc); let r = sp::process_epoch(&mut st, &c);
if ok { chk!(r.is_ok(), "process_epoch failed at slot {}: {:?}", s.slot, r); }
if r.is_ok() { seq_st!(st, sp_epoch(s, cc), "process_epoch at epoch {}", sp_cur(s, cc)); }
@@test slots props=C20 n=20
let mut c = gen_ctx(g); c.shuffle_round_count = 3; let mut st = gen_turning(g, &c); if kf_slot0() && st.slot == 0 { st.slot = 1; } let cc = c.cv(); let s = st.cv();
let n = match g.below(4) { 0 => 0, 1 => 1 + g.below(2), _ => 1 + g.below(c.slots_per_epoch) } ; let to = if g.chance(15) { s.slot.saturating_sub(g.below(3)) } else { s.slot + n };
let k = to as int - s.slot as int; let ok = k > 0 && sp_after_ok(s, k, cc);
let r = sp::process_slots(&mut st, to, &c); g.note("slots", r.is_ok());
if k <= 0 { chk!(r.is_err(), "process_slots from {} to {} went through", s.slot, to); }
if ok { chk!(r.is_ok(), "process_slots from {} to {} failed: {:?}", s.slot, to, r); }
if r.is_ok() { seq_st!(st, sp_after(s, k, cc), "process_slots from {} to {} with {} slots per epoch", s.slot, to, c.slots_per_epoch); }
@@test block_signature props=C20 n=60
let c = gen_ctx(g); let n = 4 + g.idx(8); let st = gen_keyed(g, &c, n); let s = st.cv(); let cc = c.cv();
let mut b = RealSignedBeaconBlock::default(); b.message.proposer_index = if g.chance(10) { g.pick(&[n, n + 1, usize::MAX]) } else { g.idx(n) }; b.message.slot = st.slot; b.message.parent_root = g.node();
let e = sp_cur(s, cc) + if g.chance(10) { 1 } else { 0 }; let d = if g.chance(10) { DomainType::Randao } else { DomainType::BeaconProposer };
b.signature = if g.chance(10) { bad_sig(g) } else { key(if g.chance(10) { b.message.proposer_index.wrapping_add(1) % n } else { b.message.proposer_index % n }).sk.sign(sp_signing_root(b.message.cv().htr1(), sp_state_domain(s, d, e)).0) };
let ok = sp_block_signed(s, b.cv(), cc); g.note("block signature", ok);
eqv!(sp::verify_block_signature(&st, &b, &c).is_ok(), ok, "verify_block_signature of proposer {} among {n}", b.message.proposer_index);
