@@spec forks=electra
pub open spec fn sp_balance_churn(s: StateV, c: Context) -> int {
    let x = vmax(c.min_per_epoch_churn_limit_electra as int, sp_total_active_balance(s, c) / (c.churn_limit_quotient as int));
    x - x % (c.effective_balance_increment as int)
}
pub open spec fn sp_exit_churn(s: StateV, c: Context) -> int { vmin(c.max_per_epoch_activation_exit_churn_limit as int, sp_balance_churn(s, c)) }
pub open spec fn sp_consolidation_churn(s: StateV, c: Context) -> int { sp_balance_churn(s, c) - sp_exit_churn(s, c) }
// consuming `amount` from a queue that has `left` in epoch `earliest`, `churn` per epoch: whole further epochs are added as needed
pub open spec fn sp_queue_start(s: StateV, earliest: int, c: Context) -> int { vmax(earliest, sp_activation_exit_epoch(sp_cur(s, c), c)) }
pub open spec fn sp_queue_left(s: StateV, earliest: int, left: int, churn: int, c: Context) -> int { if earliest < sp_queue_start(s, earliest, c) { churn } else { left } }
pub open spec fn sp_queue_more(amount: int, left: int, churn: int) -> int { if amount > left { (amount - left - 1) / churn + 1 } else { 0 } }
pub open spec fn sp_exit_more(s: StateV, amount: int, c: Context) -> int { sp_queue_more(amount, sp_queue_left(s, s.earliest_exit_epoch as int, s.exit_balance_to_consume as int, sp_exit_churn(s, c), c), sp_exit_churn(s, c)) }
pub open spec fn sp_exit_queue_epoch(s: StateV, amount: int, c: Context) -> int { sp_queue_start(s, s.earliest_exit_epoch as int, c) + sp_exit_more(s, amount, c) }
pub open spec fn sp_consume_exit(s: StateV, amount: int, c: Context) -> StateV {
    StateV { earliest_exit_epoch: sp_exit_queue_epoch(s, amount, c) as u64,
        exit_balance_to_consume: (sp_queue_left(s, s.earliest_exit_epoch as int, s.exit_balance_to_consume as int, sp_exit_churn(s, c), c) + sp_exit_more(s, amount, c) * sp_exit_churn(s, c) - amount) as u64, ..s }
}
pub open spec fn sp_cons_more(s: StateV, amount: int, c: Context) -> int { sp_queue_more(amount, sp_queue_left(s, s.earliest_consolidation_epoch as int, s.consolidation_balance_to_consume as int, sp_consolidation_churn(s, c), c), sp_consolidation_churn(s, c)) }
pub open spec fn sp_cons_queue_epoch(s: StateV, amount: int, c: Context) -> int { sp_queue_start(s, s.earliest_consolidation_epoch as int, c) + sp_cons_more(s, amount, c) }
pub open spec fn sp_consume_cons(s: StateV, amount: int, c: Context) -> StateV {
    StateV { earliest_consolidation_epoch: sp_cons_queue_epoch(s, amount, c) as u64,
        consolidation_balance_to_consume: (sp_queue_left(s, s.earliest_consolidation_epoch as int, s.consolidation_balance_to_consume as int, sp_consolidation_churn(s, c), c) + sp_cons_more(s, amount, c) * sp_consolidation_churn(s, c) - amount) as u64, ..s }
}
pub open spec fn sp_set_exit(v: Validator, e: int, c: Context) -> Validator {
    Validator { exit_epoch: e as u64, withdrawable_epoch: (e + c.min_validator_withdrawability_delay as int) as u64, ..v }
}
pub open spec fn sp_initiate_exit(s: StateV, i: int, c: Context) -> StateV {
    if s.validators[i].exit_epoch as int != far_future() { s }
    else {
        let t = sp_consume_exit(s, s.validators[i].effective_balance as int, c);
        StateV { validators: s.validators.update(i, sp_set_exit(s.validators[i], t.earliest_exit_epoch as int, c)), ..t }
    }
}
@@vspec forks=electra
pub open spec fn wf_churn(s: StateV, bound: int) -> bool {
    &&& s.earliest_exit_epoch < bound && s.earliest_consolidation_epoch < bound
    &&& s.exit_balance_to_consume < 0x4000_0000_0000_0000 && s.consolidation_balance_to_consume < 0x4000_0000_0000_0000
}
pub proof fn lemma_churn_bounds(s: StateV, c: Context)
    requires wf_ctx(c), wf_eff(s.validators)
    ensures c.effective_balance_increment <= sp_balance_churn(s, c) < 0x2000_0000_0000_0000, c.effective_balance_increment <= sp_exit_churn(s, c) <= sp_balance_churn(s, c), 0 <= sp_consolidation_churn(s, c) < 0x2000_0000_0000_0000
{
    lemma_active_bal_le(s.validators, sp_cur(s, c), s.validators.len() as int);
    let t = sp_total_active_balance(s, c); let q = c.churn_limit_quotient as int;
    assert(0 <= t / q <= t) by (nonlinear_arith) requires 0 <= t, q > 0;
    let x = vmax(c.min_per_epoch_churn_limit_electra as int, t / q); let m = c.effective_balance_increment as int;
    assert(m <= x - x % m <= x) by (nonlinear_arith) requires m > 0, x >= m;
}
pub proof fn lemma_more(amount: int, left: int, churn: int)
    requires 0 <= amount < 0x4000_0000_0000_0000, 0 <= left < 0x4000_0000_0000_0000, 0 < churn < 0x2000_0000_0000_0000
    ensures 0 <= sp_queue_more(amount, left, churn) <= amount, amount <= left + sp_queue_more(amount, left, churn) * churn, 0 <= sp_queue_more(amount, left, churn) * churn,
        left + sp_queue_more(amount, left, churn) * churn - amount <= vmax(left, churn),
        amount > left ==> left + sp_queue_more(amount, left, churn) * churn <= amount + churn,
        churn >= 0x2000_0000 && amount <= 0x400_0000_0000 ==> sp_queue_more(amount, left, churn) <= 0x2001
{
    if amount > left {
        let b = amount - left - 1; let m = b / churn + 1;
        assert(0 <= b / churn <= b && m * churn <= b + churn && m * churn >= b + 1) by (nonlinear_arith) requires 0 <= b, churn > 0, m == b / churn + 1;
        if churn >= 0x2000_0000 && amount <= 0x400_0000_0000 { assert(b / churn <= 0x2000) by (nonlinear_arith) requires 0 <= b <= 0x400_0000_0000, churn >= 0x2000_0000; }
    }
}
@@fn get_balance_churn_limit forks=electra
requires wf_ctx(*context), wf_len(state@), wf_eff(state@.validators)
ensures r is Ok, r matches Ok(x) ==> x as int == sp_balance_churn(state@, *context)
@ start
proof { lemma_churn_bounds(state@, *context); lemma_active_bal_le(state@.validators, sp_cur(state@, *context), state@.validators.len() as int); }
@@fn get_activation_exit_churn_limit forks=electra
requires wf_ctx(*context), wf_len(state@), wf_eff(state@.validators)
ensures r is Ok, r matches Ok(x) ==> x as int == sp_exit_churn(state@, *context)
@@fn get_consolidation_churn_limit forks=electra
requires wf_ctx(*context), wf_len(state@), wf_eff(state@.validators)
ensures r is Ok, r matches Ok(x) ==> x as int == sp_consolidation_churn(state@, *context)
@@fn compute_exit_epoch_and_update_churn forks=electra
requires wf_ctx(*context), wf_len(old(state)@), wf_eff(old(state)@.validators), wf_churn(old(state)@, 4 * pow2_60()), exit_balance < 0x4000_0000_0000_0000
ensures r is Ok, r matches Ok(x) ==> x as int == sp_exit_queue_epoch(old(state)@, exit_balance as int, *context), final(state)@ == sp_consume_exit(old(state)@, exit_balance as int, *context)
@ start
proof {
    lemma_epoch_bound(state@.slot as int, *context); lemma_churn_bounds(state@, *context);
    lemma_more(exit_balance as int, sp_queue_left(state@, state@.earliest_exit_epoch as int, state@.exit_balance_to_consume as int, sp_exit_churn(state@, *context), *context), sp_exit_churn(state@, *context));
}
@@fn compute_consolidation_epoch_and_update_churn forks=electra
requires wf_ctx(*context), wf_len(old(state)@), wf_eff(old(state)@.validators), wf_churn(old(state)@, 4 * pow2_60()), consolidation_balance < 0x4000_0000_0000_0000, sp_consolidation_churn(old(state)@, *context) > 0
ensures r is Ok, r matches Ok(x) ==> x as int == sp_cons_queue_epoch(old(state)@, consolidation_balance as int, *context), final(state)@ == sp_consume_cons(old(state)@, consolidation_balance as int, *context)
@ start
proof {
    lemma_epoch_bound(state@.slot as int, *context); lemma_churn_bounds(state@, *context);
    lemma_more(consolidation_balance as int, sp_queue_left(state@, state@.earliest_consolidation_epoch as int, state@.consolidation_balance_to_consume as int, sp_consolidation_churn(state@, *context), *context), sp_consolidation_churn(state@, *context));
}
@@fn initiate_validator_exit forks=electra
requires wf_ctx(*context), wf_len(old(state)@), wf_eff(old(state)@.validators), wf_exits(old(state)@.validators, 4 * pow2_60()), wf_churn(old(state)@, 4 * pow2_60()), index < old(state)@.validators.len()
ensures r is Ok, final(state)@ == sp_initiate_exit(old(state)@, index as int, *context)
@ start
proof {
    lemma_epoch_bound(state@.slot as int, *context); lemma_churn_bounds(state@, *context); let a = state@.validators[index as int].effective_balance as int;
    lemma_more(a, sp_queue_left(state@, state@.earliest_exit_epoch as int, state@.exit_balance_to_consume as int, sp_exit_churn(state@, *context), *context), sp_exit_churn(state@, *context));
}
@ tail
proof { assert(state@.validators =~= sp_initiate_exit(old(state)@, index as int, *context).validators); }
@@test exits props=C08,C23 forks=electra n=150
let c = gen_ctx(g); let mut st = gen_state(g, &c); let s0 = st.cv(); let cc = c.cv(); let k = g.range(1, 6);
eqv!(sp::get_balance_churn_limit(&st, &c).ok().map(|x| x as int), Some(sp_balance_churn(s0, cc)), "get_balance_churn_limit");
eqv!(sp::get_activation_exit_churn_limit(&st, &c).ok().map(|x| x as int), Some(sp_exit_churn(s0, cc)), "get_activation_exit_churn_limit");
eqv!(sp::get_consolidation_churn_limit(&st, &c).ok().map(|x| x as int), Some(sp_consolidation_churn(s0, cc)), "get_consolidation_churn_limit");
for _ in 0..k { let i = g.idx(st.validators.len()); let s = st.cv();
    sp::initiate_validator_exit(&mut st, i, &c).map_err(|e| format!("initiate_validator_exit({i}): {e}"))?;
    seq_st!(st, sp_initiate_exit(s, i as int, cc), "initiate_validator_exit({i}) at slot {}", st.slot);
    let s = st.cv(); let amount = match g.below(4) { 0 => st.exit_balance_to_consume, 1 => st.exit_balance_to_consume + g.below(3), 2 => g.below(5000) * GWEI, _ => g.below(1 << 45) };
    eqv!(sp::compute_exit_epoch_and_update_churn(&mut st, amount, &c).ok().map(|x| x as int), Some(sp_exit_queue_epoch(s, amount as int, cc)), "compute_exit_epoch_and_update_churn({amount})");
    seq_st!(st, sp_consume_exit(s, amount as int, cc), "compute_exit_epoch_and_update_churn({amount})");
    let s = st.cv(); let amount = match g.below(4) { 0 => st.consolidation_balance_to_consume, 1 => st.consolidation_balance_to_consume + g.below(3), 2 => g.below(5000) * GWEI, _ => g.below(1 << 45) };
    if sp_consolidation_churn(s, cc) > 0 {
        eqv!(sp::compute_consolidation_epoch_and_update_churn(&mut st, amount, &c).ok().map(|x| x as int), Some(sp_cons_queue_epoch(s, amount as int, cc)), "compute_consolidation_epoch_and_update_churn({amount})");
        seq_st!(st, sp_consume_cons(s, amount as int, cc), "compute_consolidation_epoch_and_update_churn({amount})");
    }
}
