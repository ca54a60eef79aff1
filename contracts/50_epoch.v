@@spec
// ---- resets ----
pub open spec fn sp_eth1_reset(s: StateV, c: Context) -> StateV {
    if (sp_cur(s, c) + 1) % (c.epochs_per_eth1_voting_period as int) == 0 { StateV { eth1_data_votes: Seq::empty(), ..s } } else { s }
}
pub open spec fn sp_slashings_reset(s: StateV, c: Context) -> StateV { StateV { slashings: s.slashings.update((sp_cur(s, c) + 1) % cg_EPOCHS_PER_SLASHINGS_VECTOR, 0), ..s } }
pub open spec fn sp_randao_reset(s: StateV, c: Context) -> StateV {
    StateV { randao_mixes: s.randao_mixes.update((sp_cur(s, c) + 1) % cg_EPOCHS_PER_HISTORICAL_VECTOR, sp_randao_mix(s, sp_cur(s, c))), ..s }
}
pub open spec fn sp_history_due(s: StateV, c: Context) -> bool { (sp_cur(s, c) + 1) % ((c.slots_per_historical_root as int) / (c.slots_per_epoch as int)) == 0 }
pub open spec fn sp_summary(s: StateV) -> HistoricalSummary { HistoricalSummary { block_summary_root: htr(s.block_roots), state_summary_root: htr(s.state_roots) } }
@@spec forks=..bellatrix
pub open spec fn sp_history_update(s: StateV, c: Context) -> StateV {
    if sp_history_due(s, c) { StateV { historical_roots: s.historical_roots.push(htr(sp_summary(s))), ..s } } else { s }
}
@@spec forks=capella+
pub open spec fn sp_history_update(s: StateV, c: Context) -> StateV {
    if sp_history_due(s, c) { StateV { historical_summaries: s.historical_summaries.push(sp_summary(s)), ..s } } else { s }
}
@@spec forks=phase0
pub open spec fn sp_participation_update(s: StateV) -> StateV { StateV { previous_epoch_attestations: s.current_epoch_attestations, current_epoch_attestations: Seq::empty(), ..s } }
@@spec forks=altair+
pub open spec fn sp_participation_update(s: StateV) -> StateV {
    StateV { previous_epoch_participation: s.current_epoch_participation, current_epoch_participation: Seq::new(s.validators.len() as nat, |i: int| 0u8), ..s }
}
@@vspec
pub open spec fn epoch_pre(s: StateV, c: Context) -> bool { wf_ctx(c) && wf_len(s) }
pub proof fn lemma_history(c: Context)
    requires wf_ctx(c) ensures (c.slots_per_historical_root as int) / (c.slots_per_epoch as int) > 0
{
    assert((c.slots_per_historical_root as int) / (c.slots_per_epoch as int) >= 1) by (nonlinear_arith) requires 0 < c.slots_per_epoch <= c.slots_per_historical_root;
}
@@fn process_eth1_data_reset
requires epoch_pre(old(state)@, *context)
ensures final(state)@ == sp_eth1_reset(old(state)@, *context)
@ start
proof { lemma_epoch_bound(state@.slot as int, *context); }
@@fn process_slashings_reset
requires epoch_pre(old(state)@, *context)
ensures final(state)@ == sp_slashings_reset(old(state)@, *context)
@ start
proof { lemma_epoch_bound(state@.slot as int, *context); }
@@fn process_randao_mixes_reset
requires epoch_pre(old(state)@, *context)
ensures final(state)@ == sp_randao_reset(old(state)@, *context)
@ start
proof { lemma_epoch_bound(state@.slot as int, *context); }
@@fn process_historical_roots_update forks=..bellatrix
requires epoch_pre(old(state)@, *context)
ensures r is Ok, final(state)@ == sp_history_update(old(state)@, *context)
@ start
proof { lemma_epoch_bound(state@.slot as int, *context); lemma_history(*context); }
@@fn process_historical_summaries_update forks=capella+
requires epoch_pre(old(state)@, *context)
ensures r is Ok, final(state)@ == sp_history_update(old(state)@, *context)
@ start
proof { lemma_epoch_bound(state@.slot as int, *context); lemma_history(*context); }
@@fn process_participation_record_updates forks=phase0
ensures final(state)@ == sp_participation_update(old(state)@)
@@fn process_participation_flag_updates forks=altair+
requires list_fits::<u8>(old(state)@.validators.len() as int)
ensures r is Ok, final(state)@ == sp_participation_update(old(state)@)
@ tail
proof { assert(state@.current_epoch_participation =~= sp_participation_update(old(state)@).current_epoch_participation); }

@@spec
// ---- effective balances ----
pub open spec fn sp_eff_one(v: Validator, b: int, c: Context) -> Validator {
    let h = (c.effective_balance_increment as int) / (c.hysteresis_quotient as int); let e = v.effective_balance as int;
    if b + h * (c.hysteresis_downward_multiplier as int) < e || e + h * (c.hysteresis_upward_multiplier as int) < b {
        Validator { effective_balance: vmin(b - b % (c.effective_balance_increment as int), sp_max_eff(v, c)) as u64, ..v }
    } else { v }
}
pub open spec fn sp_eff_updates(s: StateV, c: Context) -> StateV { StateV { validators: Seq::new(s.validators.len() as nat, |i: int| sp_eff_one(s.validators[i], s.balances[i] as int, c)), ..s } }
@@spec forks=..deneb
pub open spec fn sp_max_eff(v: Validator, c: Context) -> int { c.max_effective_balance as int }
@@spec forks=electra
pub open spec fn sp_compounding(v: Validator) -> bool { b32(v.withdrawal_credentials)[0] == 2 }
pub open spec fn sp_max_eff(v: Validator, c: Context) -> int { if sp_compounding(v) { c.max_effective_balance_electra as int } else { c.min_activation_balance as int } }
@@fn is_compounding_withdrawal_credential forks=electra
ensures r == (withdrawal_credentials.data@[0] == 2)
@@fn has_compounding_withdrawal_credential forks=electra
ensures r == sp_compounding(*validator)
@@fn get_validator_max_effective_balance forks=electra
ensures r as int == sp_max_eff(*validator, *context)
@@vspec
pub proof fn lemma_mod_le(a: int, b: int)
    requires 0 <= a, 0 < b ensures 0 <= a % b <= a, a % b < b
{ assert(0 <= a % b <= a && a % b < b) by (nonlinear_arith) requires 0 <= a, 0 < b; }
pub proof fn lemma_hysteresis(c: Context)
    requires wf_ctx(c)
    ensures 0 <= (c.effective_balance_increment as int) / (c.hysteresis_quotient as int) <= 0x10_0000_0000,
        0 <= ((c.effective_balance_increment as int) / (c.hysteresis_quotient as int)) * (c.hysteresis_downward_multiplier as int) <= 0x10_0000_0000_0000,
        0 <= ((c.effective_balance_increment as int) / (c.hysteresis_quotient as int)) * (c.hysteresis_upward_multiplier as int) <= 0x10_0000_0000_0000,
{
    let h = (c.effective_balance_increment as int) / (c.hysteresis_quotient as int);
    assert(0 <= h <= c.effective_balance_increment) by (nonlinear_arith) requires h == (c.effective_balance_increment as int) / (c.hysteresis_quotient as int), c.hysteresis_quotient > 0;
    let d = c.hysteresis_downward_multiplier as int; let u = c.hysteresis_upward_multiplier as int;
    assert(0 <= h * d <= 0x10_0000_0000_0000) by (nonlinear_arith) requires 0 <= h <= 0x10_0000_0000, 0 <= d <= 0x10000;
    assert(0 <= h * u <= 0x10_0000_0000_0000) by (nonlinear_arith) requires 0 <= h <= 0x10_0000_0000, 0 <= u <= 0x10000;
}
@@fn process_effective_balance_updates
requires wf_state(old(state)@, *context)
ensures final(state)@ == sp_eff_updates(old(state)@, *context)
@ start
let ghost s0 = state@;
proof { lemma_hysteresis(*context); }
@ loop 0
invariant __n0 == s0.validators.len(), state@ == (StateV { validators: state@.validators, ..s0 }), state@.validators.len() == s0.validators.len(), wf_state(s0, *context),
    forall|i: int| 0 <= i < __i0 ==> (#[trigger] state@.validators[i]) == sp_eff_one(s0.validators[i], s0.balances[i] as int, *context),
    forall|i: int| __i0 <= i < __n0 ==> (#[trigger] state@.validators[i]) == s0.validators[i],
    downward_threshold as int == ((context.effective_balance_increment as int) / (context.hysteresis_quotient as int)) * (context.hysteresis_downward_multiplier as int) <= 0x10_0000_0000_0000,
    upward_threshold as int == ((context.effective_balance_increment as int) / (context.hysteresis_quotient as int)) * (context.hysteresis_upward_multiplier as int) <= 0x10_0000_0000_0000,
@ loopstart 0
let ghost vs0 = state@.validators;
proof { lemma_mod_le(s0.balances[__i0 as int] as int, context.effective_balance_increment as int); assert(s0.balances[__i0 as int] < pow2_60()); assert(s0.validators[__i0 as int].effective_balance <= 0x400_0000_0000); assert(vs0[__i0 as int] == s0.validators[__i0 as int]); }
@ loopend 0
proof { assert(state@.validators =~= vs0.update(i as int, sp_eff_one(s0.validators[i as int], s0.balances[i as int] as int, *context))); }
@ after 0
proof { assert(state@.validators =~= sp_eff_updates(s0, *context).validators); }

@@spec
// ---- correlated slashing penalties ----
pub open spec fn sp_slash_adjusted(s: StateV, c: Context) -> int { vmin(sp_slash_sum(s.slashings, s.slashings.len() as int) * sp_slash_multiplier(c), sp_total_active_balance(s, c)) }
pub open spec fn sp_slash_penalty(s: StateV, v: Validator, c: Context) -> int {
    let inc = c.effective_balance_increment as int; (v.effective_balance as int / inc) * sp_slash_adjusted(s, c) / sp_total_active_balance(s, c) * inc
}
pub open spec fn sp_slash_due(s: StateV, v: Validator, c: Context) -> bool { v.slashed && sp_cur(s, c) + (c.epochs_per_slashings_vector as int) / 2 == v.withdrawable_epoch as int }
pub open spec fn sp_slashings_one(s: StateV, i: int, c: Context) -> int {
    if sp_slash_due(s, s.validators[i], c) { vsubsat(s.balances[i] as int, sp_slash_penalty(s, s.validators[i], c)) } else { s.balances[i] as int }
}
pub open spec fn sp_slashings(s: StateV, c: Context) -> StateV { StateV { balances: Seq::new(s.balances.len() as nat, |i: int| sp_slashings_one(s, i, c) as u64), ..s } }
@@spec forks=phase0
pub open spec fn sp_slash_multiplier(c: Context) -> int { c.proportional_slashing_multiplier as int }
@@spec forks=altair
pub open spec fn sp_slash_multiplier(c: Context) -> int { c.proportional_slashing_multiplier_altair as int }
@@spec forks=bellatrix+
pub open spec fn sp_slash_multiplier(c: Context) -> int { c.proportional_slashing_multiplier_bellatrix as int }
@@vspec
// the products in the penalty formula stay in 64 bits
pub open spec fn slashings_fit(s: StateV, c: Context) -> bool {
    &&& sp_slash_sum(s.slashings, s.slashings.len() as int) <= u64::MAX
    &&& sp_slash_sum(s.slashings, s.slashings.len() as int) * sp_slash_multiplier(c) <= u64::MAX
    &&& forall|i: int| 0 <= i < s.validators.len() && sp_slash_due(s, #[trigger] s.validators[i], c) ==> (s.validators[i].effective_balance as int / (c.effective_balance_increment as int)) * sp_slash_adjusted(s, c) <= u64::MAX
}
pub proof fn lemma_penalty(e: int, inc: int, adj: int, total: int)
    requires 0 <= e, 0 < inc, 0 <= adj <= total, 0 < total
    ensures 0 <= (e / inc) * adj, 0 <= (e / inc) * adj / total <= e / inc, 0 <= ((e / inc) * adj / total) * inc <= e
{
    let a = e / inc; let q = a * adj / total;
    assert(0 <= a && a * inc <= e) by (nonlinear_arith) requires a == e / inc, 0 <= e, 0 < inc;
    assert(0 <= a * adj <= a * total) by (nonlinear_arith) requires 0 <= a, 0 <= adj <= total;
    assert(0 <= q && q * total <= a * adj) by (nonlinear_arith) requires q == (a * adj) / total, 0 <= a * adj, 0 < total;
    assert(q <= a) by (nonlinear_arith) requires q * total <= a * total, 0 < total;
    assert(0 <= q * inc <= a * inc) by (nonlinear_arith) requires 0 <= q <= a, 0 < inc;
}
@@fn process_slashings
requires wf_state(old(state)@, *context), slashings_fit(old(state)@, *context)
ensures r is Ok, final(state)@ == sp_slashings(old(state)@, *context)
@ start
let ghost s0 = state@;
proof {
    lemma_epoch_bound(state@.slot as int, *context); lemma_slash_sum_ge(s0.slashings, s0.slashings.len() as int); lemma_active_bal_le(s0.validators, sp_cur(s0, *context), s0.validators.len() as int);
    let x = sp_slash_sum(s0.slashings, s0.slashings.len() as int); let m = sp_slash_multiplier(*context);
    assert(0 <= x * m) by (nonlinear_arith) requires 0 <= x, 0 <= m;
    assert(m >= 1 ==> x <= x * m) by (nonlinear_arith) requires 0 <= x;
}
@ loop 0
invariant __acc0 as int == sp_slash_sum(s0.slashings, __i0 as int), state@ == s0, sp_slash_sum(s0.slashings, s0.slashings.len() as int) <= u64::MAX,
@ loopstart 0
proof { lemma_slash_sum_mono(s0.slashings, __i0 as int + 1, s0.slashings.len() as int); lemma_slash_sum_ge(s0.slashings, __i0 as int); }
@ loop 1
invariant __n1 == s0.validators.len(), state@ == (StateV { balances: state@.balances, ..s0 }), state@.balances.len() == s0.balances.len(), wf_state(s0, *context), slashings_fit(s0, *context),
    0 <= adjusted_total_slashing_balance as int == sp_slash_adjusted(s0, *context), total_balance as int == sp_total_active_balance(s0, *context), epoch as int == sp_cur(s0, *context) <= 0x100_0000_0000_0000,
    forall|i: int| 0 <= i < __i1 ==> (#[trigger] state@.balances[i]) == sp_slashings_one(s0, i, *context) as u64,
    forall|i: int| __i1 <= i < __n1 ==> (#[trigger] state@.balances[i]) == s0.balances[i],
@ then 0
proof { lemma_penalty(validator.effective_balance as int, context.effective_balance_increment as int, adjusted_total_slashing_balance as int, total_balance as int); assert(sp_slash_due(s0, s0.validators[i as int], *context)); }
@ tail
proof { assert(state@.balances =~= sp_slashings(s0, *context).balances); }
@@vspec
pub proof fn lemma_slash_sum_mono(q: Seq<u64>, k: int, n: int)
    requires 0 <= k <= n <= q.len()
    ensures sp_slash_sum(q, k) <= sp_slash_sum(q, n)
    decreases n
{
    if k < n { lemma_slash_sum_mono(q, k, n - 1); }
}
@@rust forks=phase0
pub fn gen_pending(g: &mut G, st: &mut RealBeaconState) {
    for k in 0..g.below(4) { let mut a = sp::PendingAttestation::default(); a.inclusion_delay = k + 1; a.proposer_index = g.idx(4); for _ in 0..g.below(5) { let b = g.bool(); a.aggregation_bits.push(b); } if g.bool() { st.current_epoch_attestations.push(a); } else { st.previous_epoch_attestations.push(a); } }
}
pub fn run_history(st: &mut RealBeaconState, c: &RealCtx) -> bool { sp::process_historical_roots_update(st, c).is_ok() }
pub fn run_participation(st: &mut RealBeaconState) -> bool { sp::process_participation_record_updates(st); true }
@@rust forks=altair+
pub fn gen_pending(g: &mut G, st: &mut RealBeaconState) {}
pub fn run_participation(st: &mut RealBeaconState) -> bool { sp::process_participation_flag_updates(st).is_ok() }
@@rust forks=altair,bellatrix
pub fn run_history(st: &mut RealBeaconState, c: &RealCtx) -> bool { sp::process_historical_roots_update(st, c).is_ok() }
@@rust forks=capella+
pub fn run_history(st: &mut RealBeaconState, c: &RealCtx) -> bool { sp::process_historical_summaries_update(st, c).is_ok() }
@@test resets props=C13 n=60
let mut c = gen_ctx(g); c.epochs_per_eth1_voting_period = g.pick(&[4, 1, 2, 3]); let mut st = gen_state(g, &c); gen_pending(g, &mut st);
let e = g.below(40); st.slot = if g.bool() { (8 * e + 7) * 8 + g.below(8) } else { 8 * e + g.below(8) }; let s = st.cv(); let cc = c.cv();
let mut t = st.clone(); sp::process_eth1_data_reset(&mut t, &c); seq_st!(t, sp_eth1_reset(s, cc), "process_eth1_data_reset at slot {}", st.slot);
let mut t = st.clone(); sp::process_slashings_reset(&mut t, &c); seq_st!(t, sp_slashings_reset(s, cc), "process_slashings_reset at slot {}", st.slot);
let mut t = st.clone(); sp::process_randao_mixes_reset(&mut t, &c); seq_st!(t, sp_randao_reset(s, cc), "process_randao_mixes_reset at slot {}", st.slot);
let mut t = st.clone(); chk!(run_history(&mut t, &c), "the historical accumulator update failed"); seq_st!(t, sp_history_update(s, cc), "historical accumulator update at slot {}", st.slot);
let mut t = st.clone(); chk!(run_participation(&mut t), "the participation update failed"); seq_st!(t, sp_participation_update(s), "participation update");
@@test effective props=C13 n=60
let c = gen_ctx(g); let mut st = gen_state(g, &c); let s0 = st.cv();
let h = c.effective_balance_increment / c.hysteresis_quotient;
for i in 0..st.validators.len() { if g.chance(60) { let e = st.validators[i].effective_balance; let d = h * g.pick(&[c.hysteresis_downward_multiplier, c.hysteresis_upward_multiplier]); let x = g.below(3); st.balances[i] = if g.bool() { (e + d + x).saturating_sub(1) } else { (e + x).saturating_sub(d + 1) }; } }
let s = st.cv(); let cc = c.cv();
sp::process_effective_balance_updates(&mut st, &c); seq_st!(st, sp_eff_updates(s, cc), "process_effective_balance_updates of {:?} with balances {:?}", s.validators, s.balances);
@@test slashings props=C13 n=60
let c = gen_ctx(g); let mut st = gen_state(g, &c); let e = epoch_of(&st, &c);
for i in 0..st.validators.len() { if g.chance(50) { st.validators[i].slashed = g.chance(80); st.validators[i].withdrawable_epoch = e + c.epochs_per_slashings_vector / 2 + g.pick(&[0, 0, 0, 1]) ; } }
if g.chance(30) { for i in 0..64 { st.slashings[i] = g.below(2) * GWEI; } }
let s = st.cv(); let cc = c.cv();
chk!(sp::process_slashings(&mut st, &c).is_ok(), "process_slashings failed"); seq_st!(st, sp_slashings(s, cc), "process_slashings at epoch {e}");
