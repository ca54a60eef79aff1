@@fn is_active_validator
ensures r == sp_is_active(*validator, epoch as int)

@@fn is_eligible_for_activation_queue forks=..deneb
ensures r == (validator.activation_eligibility_epoch == u64::MAX && validator.effective_balance == context.max_effective_balance)
@@fn is_eligible_for_activation_queue forks=electra
ensures r == (validator.activation_eligibility_epoch == u64::MAX && validator.effective_balance >= context.min_activation_balance)
@@fn is_eligible_for_activation
ensures r == (validator.activation_eligibility_epoch <= state.finalized_checkpoint.epoch && validator.activation_epoch == u64::MAX)
@@fn is_slashable_validator
ensures r == sp_is_slashable(*validator, epoch as int)
@@fn is_slashable_attestation_data
ensures r == (sp_double_vote(*data_1, *data_2) || sp_surround_vote(*data_1, *data_2))

@@fn compute_epoch_at_slot
requires context.slots_per_epoch > 0
ensures r as int == sp_epoch_at(slot as int, *context)
@@fn compute_start_slot_at_epoch
requires epoch * context.slots_per_epoch <= u64::MAX
ensures r as int == epoch * context.slots_per_epoch
@@fn compute_activation_exit_epoch
requires epoch + 1 + context.max_seed_lookahead <= u64::MAX
ensures r as int == epoch + 1 + context.max_seed_lookahead
@@fn get_current_epoch
requires context.slots_per_epoch > 0
ensures r as int == sp_cur(state@, *context)
@@fn get_previous_epoch
requires context.slots_per_epoch > 0
ensures r as int == sp_prev(state@, *context)

@@spec
// root of the block at `slot`, if it is inside the window of the last SLOTS_PER_HISTORICAL_ROOT slots
pub open spec fn sp_in_window(s: StateV, slot: int) -> bool { slot < s.slot as int && s.slot as int <= slot + cg_SLOTS_PER_HISTORICAL_ROOT }
pub open spec fn sp_block_root_at(s: StateV, slot: int) -> Node { s.block_roots[slot % cg_SLOTS_PER_HISTORICAL_ROOT] }
pub open spec fn sp_randao_mix(s: StateV, epoch: int) -> Bytes32 { s.randao_mixes[epoch % cg_EPOCHS_PER_HISTORICAL_VECTOR] }

@@spec forks=phase0
pub open spec fn kf_slot0() -> bool { false }
@@spec forks=altair+ known=K06
// recorded finding: the generated copies underflow at slot 0 instead of returning an error
pub open spec fn kf_slot0() -> bool { true }
@@spec forks=altair+ unless=K06
pub open spec fn kf_slot0() -> bool { false }
@@fn get_block_root_at_slot
requires state@.block_roots.len() == cg_SLOTS_PER_HISTORICAL_ROOT, state@.slot < 0x100_0000_0000_0000, kf_slot0() ==> state@.slot > 0
ensures r is Ok <==> sp_in_window(state@, slot as int), r matches Ok(x) ==> *x == sp_block_root_at(state@, slot as int)
@@fn get_block_root
requires wf_ctx(*context), wf_len(state@), kf_slot0() ==> state@.slot > 0, epoch as int <= 0x100_0000_0000_0000int / (context.slots_per_epoch as int)
ensures r is Ok <==> sp_in_window(state@, epoch * context.slots_per_epoch), r matches Ok(x) ==> *x == sp_block_root_at(state@, epoch * context.slots_per_epoch)
@ start
proof { assert(epoch * context.slots_per_epoch <= 0x100_0000_0000_0000) by (nonlinear_arith)
    requires epoch as int <= 0x100_0000_0000_0000int / (context.slots_per_epoch as int), context.slots_per_epoch > 0; }
@@fn get_randao_mix
requires state@.randao_mixes.len() == cg_EPOCHS_PER_HISTORICAL_VECTOR
ensures *r == sp_randao_mix(state@, epoch as int)

@@fn get_active_validator_indices
requires state@.validators.len() <= usize::MAX
ensures r@ == sp_active_indices(state@, epoch as int)
@ loop 0
invariant active@ == sp_active(state@.validators, epoch as int, __i0 as int),

@@spec
pub open spec fn sp_churn_limit(s: StateV, c: Context) -> int {
    vmax(c.min_per_epoch_churn_limit as int, (sp_active_indices(s, sp_cur(s, c)).len() as int) / (c.churn_limit_quotient as int))
}
@@fn get_validator_churn_limit
requires wf_ctx(*context), wf_len(state@)
ensures r as int == sp_churn_limit(state@, *context)
@ start
proof { lemma_active_props(state@.validators, sp_cur(state@, *context), state@.validators.len() as int); }

@@test predicates props=C05 n=300
let c = gen_ctx(g); let mut st = gen_state(g, &c); let e = epoch_of(&st, &c);
let mut v = gen_validator(g, e, 3); let q = g.near(e);
if g.chance(30) { v.effective_balance = match g.below(3) { 0 => c.max_effective_balance, 1 => c.max_effective_balance + GWEI, _ => c.max_effective_balance - GWEI }; }
if g.chance(30) { v.activation_eligibility_epoch = st.finalized_checkpoint.epoch + g.below(3) - g.below(2).min(st.finalized_checkpoint.epoch + 0); }
let m = v.cv(); let cc = c.cv(); let s = st.cv();
eqv!(sp::is_active_validator(&v, q), sp_is_active(m, q as int), "is_active_validator({v:?}, {q})");
eqv!(sp::is_slashable_validator(&v, q), sp_is_slashable(m, q as int), "is_slashable_validator({v:?}, {q})");
eqv!(sp::is_eligible_for_activation(&st, &v), m.activation_eligibility_epoch <= s.finalized_checkpoint.epoch && m.activation_epoch == u64::MAX, "is_eligible_for_activation({v:?})");
eqv!(sp::is_eligible_for_activation_queue(&v, &c), sp_queue_eligible(m, cc), "is_eligible_for_activation_queue({v:?})");
@@test slashable_data props=C05,C15 n=400
let mut mk = |g: &mut G| { let mut d = ec::phase0::AttestationData::default(); d.source.epoch = g.below(4); d.target.epoch = g.below(4); d.slot = g.below(2); d.index = g.idx(2); d.beacon_block_root = g.small_node(); d.target.root = g.small_node(); d };
let a = mk(g); let b = if g.chance(20) { a.clone() } else { mk(g) };
eqv!(sp::is_slashable_attestation_data(&a, &b), sp_double_vote(a.cv(), b.cv()) || sp_surround_vote(a.cv(), b.cv()), "is_slashable_attestation_data({a:?}, {b:?})");
@@test epochs props=C01 n=300
let mut c = gen_ctx(g); c.slots_per_epoch = g.range(1, 40); let mut st = RealBeaconState::default(); st.slot = g.below(1 << 50); if g.chance(30) { st.slot = g.below(50); }
let cc = c.cv(); let s = st.cv(); let x = g.below(1 << 40);
eqv!(sp::compute_epoch_at_slot(x, &c) as int, sp_epoch_at(x as int, cc), "compute_epoch_at_slot({x})");
eqv!(sp::compute_start_slot_at_epoch(x, &c) as int, x as int * c.slots_per_epoch as int, "compute_start_slot_at_epoch({x})");
eqv!(sp::compute_activation_exit_epoch(x, &c) as int, x as int + 1 + c.max_seed_lookahead as int, "compute_activation_exit_epoch({x})");
eqv!(sp::get_current_epoch(&st, &c) as int, sp_cur(s, cc), "get_current_epoch at slot {}", st.slot);
eqv!(sp::get_previous_epoch(&st, &c) as int, sp_prev(s, cc), "get_previous_epoch at slot {}", st.slot);
@@test history props=C06 n=300
let c = gen_ctx(g); let mut st = gen_state_n(g, &c, 1); if kf_slot0() && st.slot == 0 { st.slot = 1; } let cc = c.cv(); let s = st.cv();
let x = match g.below(4) { 0 => g.near(st.slot), 1 => (st.slot + 3).saturating_sub(64 + g.below(6)), _ => st.slot.saturating_sub(g.below(70)) };
let r = sp::get_block_root_at_slot(&st, x).ok().cloned().cv();
eqv!(r, if sp_in_window(s, x as int) { Some(sp_block_root_at(s, x as int)) } else { None }, "get_block_root_at_slot({x}) at slot {}", st.slot);
let e = (epoch_of(&st, &c) + g.below(3)).saturating_sub(g.below(12));
let x = e * c.slots_per_epoch;
let r = sp::get_block_root(&st, e, &c).ok().cloned().cv();
eqv!(r, if sp_in_window(s, x as int) { Some(sp_block_root_at(s, x as int)) } else { None }, "get_block_root({e}) at slot {}", st.slot);
let q = g.next() >> g.below(64);
eqv!(sp::get_randao_mix(&st, q).cv(), sp_randao_mix(s, q as int), "get_randao_mix({q})");
@@test active props=C05,C08 n=100
let c = gen_ctx(g); let st = gen_state(g, &c); let cc = c.cv(); let s = st.cv(); let e = g.near(epoch_of(&st, &c));
eqv!(sp::get_active_validator_indices(&st, e).cv(), sp_active_indices(s, e as int), "get_active_validator_indices({e})");
@@spec forks=..deneb
pub open spec fn sp_queue_eligible(v: Validator, c: Context) -> bool { v.activation_eligibility_epoch as int == far_future() && v.effective_balance == c.max_effective_balance }
@@spec forks=electra
pub open spec fn sp_queue_eligible(v: Validator, c: Context) -> bool { v.activation_eligibility_epoch as int == far_future() && v.effective_balance >= c.min_activation_balance }
