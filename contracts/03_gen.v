@@rust
pub type RealCtx = ec::state_transition::Context;
pub const GWEI: u64 = 1_000_000_000;
/// a configuration with the type-level lengths of the `minimal` preset and varied numeric parameters
pub fn gen_ctx(g: &mut G) -> RealCtx {
    let mut c = RealCtx::for_minimal();
    c.shuffle_round_count = g.pick(&[10, 1, 2, 3, 90]);
    c.churn_limit_quotient = g.pick(&[32, 1, 2, 3, 5, 65536]);
    c.min_per_epoch_churn_limit = g.pick(&[2, 1, 4]);
    c.max_per_epoch_activation_churn_limit = g.pick(&[4, 1, 2, 8]);
    c.shard_committee_period = g.pick(&[64, 0, 1, 3]);
    c.min_validator_withdrawability_delay = g.pick(&[256, 1, 5]);
    c.max_seed_lookahead = g.pick(&[4, 1, 7]);
    c.min_epochs_to_inactivity_penalty = g.pick(&[4, 1, 6]);
    c.ejection_balance = g.pick(&[16, 31, 17]) * GWEI;
    c.hysteresis_downward_multiplier = g.pick(&[1, 2, 0]);
    c.hysteresis_upward_multiplier = g.pick(&[5, 1, 3]);
    c.hysteresis_quotient = g.pick(&[4, 2, 5]);
    c.whistleblower_reward_quotient = g.pick(&[512, 100, 7]);
    c.whistleblower_reward_quotient_electra = g.pick(&[4096, 100, 9]);
    c.proposer_reward_quotient = g.pick(&[8, 3]);
    c.min_slashing_penalty_quotient = g.pick(&[64, 33]);
    c.min_slashing_penalty_quotient_altair = g.pick(&[65, 34]);
    c.min_slashing_penalty_quotient_bellatrix = g.pick(&[66, 35]);
    c.min_slashing_penalty_quotient_electra = g.pick(&[67, 36]);
    c.proportional_slashing_multiplier = g.pick(&[1, 2, 5]);
    c.proportional_slashing_multiplier_altair = g.pick(&[2, 3, 6]);
    c.proportional_slashing_multiplier_bellatrix = g.pick(&[3, 4, 7]);
    c.inactivity_penalty_quotient = g.pick(&[1 << 25, 1000, 1 << 20]);
    c.inactivity_penalty_quotient_altair = g.pick(&[3 << 24, 2000, 1 << 19]);
    c.inactivity_penalty_quotient_bellatrix = g.pick(&[1 << 24, 3000, 1 << 18]);
    c.inactivity_score_bias = g.pick(&[4, 1, 9]);
    c.inactivity_score_recovery_rate = g.pick(&[16, 1, 5]);
    c.max_validators_per_withdrawals_sweep = g.pick(&[16, 1, 3, 64]);
    c.min_per_epoch_churn_limit_electra = g.pick(&[64, 1, 100]) * GWEI;
    c.max_per_epoch_activation_exit_churn_limit = g.pick(&[128, 30, 66]) * GWEI;
    c.target_committee_size = g.pick(&[4, 1, 2]);
    c.max_committees_per_slot = 4;
    c
}
pub fn gen_validator(g: &mut G, e: u64, tag: u64) -> RealValidator {
    let mut v = RealValidator::default();
    let b = (tag * 7 + 1).to_le_bytes();
    for i in 0..8 { v.public_key[40 + i] = b[i]; }
    v.public_key[0] = 0xa0;
    let mut wc = [0u8; 32];
    if g.chance(15) { wc = g.bytes(); }
    wc[0] = g.pick(&[0u8, 1, 1, 2, 3]);
    wc[31] = g.below(4) as u8;
    if g.chance(25) { wc[12 + g.idx(20)] ^= 0x40; }
    v.withdrawal_credentials = Bytes32 { data: wc }.rv();
    v.effective_balance = match g.below(8) { 0 => 0, 1 => g.range(1, 31), 2 => g.range(15, 18), 3 => 31, 4 => g.range(0, 32), _ => 32 } * GWEI;
    if EFF_MAX > 32 && g.chance(30) { v.effective_balance = g.range(32, EFF_MAX) * GWEI; }
    v.slashed = g.chance(20);
    match g.below(6) {
        0 => { v.activation_eligibility_epoch = u64::MAX; v.activation_epoch = u64::MAX; }
        1 => { v.activation_eligibility_epoch = e.saturating_sub(g.below(5)); v.activation_epoch = u64::MAX; }
        2 => { v.activation_eligibility_epoch = 0; v.activation_epoch = g.near(e); }
        3 => { v.activation_eligibility_epoch = g.near(e); v.activation_epoch = g.near(e); }
        _ => { v.activation_eligibility_epoch = 0; v.activation_epoch = g.below(e / 2 + 1); }
    }
    match g.below(5) {
        0 => { v.exit_epoch = g.near(e); v.withdrawable_epoch = g.near(e + 1); }
        1 => { v.exit_epoch = e + g.below(9); v.withdrawable_epoch = v.exit_epoch + g.below(9); }
        2 => { v.exit_epoch = e.saturating_sub(g.below(9)); v.withdrawable_epoch = v.exit_epoch + g.below(9); }
        _ => { v.exit_epoch = u64::MAX; v.withdrawable_epoch = u64::MAX; }
    }
    if v.slashed && g.chance(50) { v.withdrawable_epoch = e + 32; if v.exit_epoch == u64::MAX { v.exit_epoch = e + 1; } }
    v
}
pub fn gen_state_n(g: &mut G, c: &RealCtx, n: usize) -> RealBeaconState {
    let mut st = RealBeaconState::default();
    let spe = c.slots_per_epoch;
    let e = match g.below(6) { 0 => 0, 1 => 1, 2 => 2, 3 => g.below(10), 4 => g.below(80), _ => g.below(5000) };
    st.slot = e * spe + match g.below(4) { 0 => 0, 1 => spe - 1, _ => g.below(spe) };
    st.genesis_time = g.below(1 << 40);
    st.genesis_validators_root = g.node();
    st.fork.previous_version = g.bytes();
    st.fork.current_version = g.bytes();
    st.fork.epoch = g.near(e) & 0xffff;
    for i in 0..64 { st.block_roots[i] = g.node(); st.state_roots[i] = g.node(); st.randao_mixes[i] = g.b32(); }
    if g.chance(30) { for i in 0..64 { st.slashings[i] = g.below(200) * GWEI; } }
    else { let k = g.idx(64); st.slashings[k] = g.below(400) * GWEI; }
    st.eth1_data.deposit_count = g.below(40);
    st.eth1_data.deposit_root = g.node();
    st.eth1_deposit_index = g.below(st.eth1_data.deposit_count + 1);
    let all_active = g.chance(35);
    for i in 0..n {
        let mut v = gen_validator(g, e, i as u64);
        if all_active && g.chance(90) { v.activation_eligibility_epoch = 0; v.activation_epoch = 0; v.exit_epoch = u64::MAX; v.withdrawable_epoch = u64::MAX; v.slashed = false; v.effective_balance = 32 * GWEI; }
        let eff = v.effective_balance;
        st.validators.push(v);
        st.balances.push(match g.below(6) { 0 => 0, 1 => g.below(40 * GWEI), 2 => eff + g.below(2 * GWEI), 3 => eff.saturating_sub(g.below(2 * GWEI)), 4 => 33 * GWEI + g.below(5), _ => eff });
    }
    for i in 0..4 { let b = g.bool(); st.justification_bits.set(i, b); }
    st.previous_justified_checkpoint.epoch = e.saturating_sub(g.below(5));
    st.current_justified_checkpoint.epoch = e.saturating_sub(g.below(5));
    st.finalized_checkpoint.epoch = e.saturating_sub(g.below(9));
    st.previous_justified_checkpoint.root = g.small_node();
    st.current_justified_checkpoint.root = g.small_node();
    st.finalized_checkpoint.root = g.small_node();
    st.latest_block_header.slot = st.slot.saturating_sub(g.below(3));
    st.latest_block_header.parent_root = g.node();
    st.latest_block_header.body_root = g.node();
    if g.bool() { st.latest_block_header.state_root = g.node(); }
    for _ in 0..g.below(4) { let x = g.node(); st.historical_roots.push(x); }
    let k = g.below(20);
    for _ in 0..k { let mut d = st.eth1_data.clone(); d.deposit_count = g.below(3); if g.bool() { d.deposit_root = g.small_node(); } st.eth1_data_votes.push(d); }
    gen_altair_fields(g, c, &mut st, n);
    gen_bellatrix_fields(g, c, &mut st, n);
    gen_capella_fields(g, c, &mut st, n);
    gen_electra_fields(g, c, &mut st, n, e);
    st
}
pub fn gen_state(g: &mut G, c: &RealCtx) -> RealBeaconState {
    let n = match g.below(5) { 0 => g.idx(4) + 1, 1 => 64, _ => g.idx(30) + 1 };
    gen_state_n(g, c, n)
}
pub fn epoch_of(st: &RealBeaconState, c: &RealCtx) -> u64 { st.slot / c.slots_per_epoch }
/// compares the state the code produced with the specified one
macro_rules! seq_st { ($a:expr, $b:expr, $($m:tt)*) => {{ let d = sdiff($a.cv(), $b); if !d.is_empty() { return Err(format!("{}: {}", format!($($m)*), d)); } }} }

@@rust forks=..deneb
pub const EFF_MAX: u64 = 32;
@@rust forks=electra
pub const EFF_MAX: u64 = 2048;
@@rust forks=phase0
pub fn gen_altair_fields(g: &mut G, c: &RealCtx, st: &mut RealBeaconState, n: usize) {}
@@rust forks=altair+
pub fn gen_altair_fields(g: &mut G, c: &RealCtx, st: &mut RealBeaconState, n: usize) {
    let hi = g.pick(&[30u64, 70, 95]);
    for i in 0..n {
        let f = |g: &mut G| if g.chance(hi) { 7u8 } else if g.chance(80) { g.below(8) as u8 } else { g.below(256) as u8 };
        let a = f(g); let b = f(g);
        st.previous_epoch_participation.push(a);
        st.current_epoch_participation.push(b);
        st.inactivity_scores.push(match g.below(5) { 0 => 0, 1 => g.below(20), 2 => g.below(100000), _ => g.below(4) });
    }
    for i in 0..32 {
        if n > 0 {
            let a = g.idx(n); let b = g.idx(n);
            st.current_sync_committee.public_keys[i] = st.validators[a].public_key.clone();
            st.next_sync_committee.public_keys[i] = st.validators[b].public_key.clone();
        }
    }
    st.next_sync_committee.aggregate_public_key[3] = g.below(256) as u8;
    st.current_sync_committee.aggregate_public_key[3] = g.below(256) as u8;
}
@@rust forks=..altair
pub fn gen_bellatrix_fields(g: &mut G, c: &RealCtx, st: &mut RealBeaconState, n: usize) {}
@@rust forks=bellatrix+
pub fn gen_bellatrix_fields(g: &mut G, c: &RealCtx, st: &mut RealBeaconState, n: usize) {
    if g.chance(70) {
        let h = &mut st.latest_execution_payload_header;
        h.block_hash = g.b32(); h.parent_hash = g.b32(); h.prev_randao = g.b32(); h.timestamp = g.below(1 << 30); h.block_number = g.below(1 << 20); h.gas_limit = g.below(1 << 20);
        h.state_root = g.b32(); h.receipts_root = g.b32(); h.transactions_root = g.node(); h.gas_used = g.below(1 << 20);
    }
}
@@rust forks=..bellatrix
pub fn gen_capella_fields(g: &mut G, c: &RealCtx, st: &mut RealBeaconState, n: usize) {}
@@rust forks=capella+
pub fn gen_capella_fields(g: &mut G, c: &RealCtx, st: &mut RealBeaconState, n: usize) {
    st.next_withdrawal_index = g.idx(1000);
    st.next_withdrawal_validator_index = g.idx(n);
    for _ in 0..g.below(3) { let mut x = ec::capella::HistoricalSummary::default(); x.block_summary_root = g.node(); x.state_summary_root = g.node(); st.historical_summaries.push(x); }
}
@@rust forks=..deneb
pub fn gen_electra_fields(g: &mut G, c: &RealCtx, st: &mut RealBeaconState, n: usize, e: u64) {}
@@rust forks=electra
pub fn gen_electra_fields(g: &mut G, c: &RealCtx, st: &mut RealBeaconState, n: usize, e: u64) {
    st.deposit_receipts_start_index = g.pick(&[u64::MAX, 0, 5, 39, 100]);
    st.deposit_balance_to_consume = g.below(70) * GWEI;
    st.exit_balance_to_consume = g.below(70) * GWEI;
    st.earliest_exit_epoch = (e + g.below(12)).saturating_sub(3);
    st.consolidation_balance_to_consume = g.below(70) * GWEI;
    st.earliest_consolidation_epoch = (e + g.below(12)).saturating_sub(3);
    for _ in 0..g.below(6) { let x = ec::electra::PendingBalanceDeposit { index: g.idx(n), amount: g.below(70) * GWEI }; st.pending_balance_deposits.push(x); }
    for _ in 0..g.below(5) { let x = ec::electra::PendingPartialWithdrawal { index: g.idx(n), amount: g.below(4 * GWEI), withdrawable_epoch: (e + g.below(4)).saturating_sub(2) }; st.pending_partial_withdrawals.push(x); }
    for _ in 0..g.below(5) { let x = ec::electra::PendingConsolidation { source_index: g.idx(n), target_index: g.idx(n) }; st.pending_consolidations.push(x); }
}
