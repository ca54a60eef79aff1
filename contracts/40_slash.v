@@spec
// the exit is initiated, the validator marked slashed with a longer withdrawal delay, its balance recorded and penalised
pub open spec fn sp_slash_mark(s: StateV, i: int, c: Context) -> StateV {
    let t = sp_initiate_exit(s, i, c); let v = t.validators[i]; let e = sp_cur(s, c); let k = e % cg_EPOCHS_PER_SLASHINGS_VECTOR;
    sp_decrease_balance(StateV {
        validators: t.validators.update(i, Validator { slashed: true, withdrawable_epoch: vmax(v.withdrawable_epoch as int, e + c.epochs_per_slashings_vector as int) as u64, ..v }),
        slashings: t.slashings.update(k, (t.slashings[k] as int + v.effective_balance as int) as u64), ..t
    }, i, v.effective_balance as int / sp_min_penalty_quotient(c))
}
// the whistleblower's reward, a share of it for the proposer
pub open spec fn sp_slash(s: StateV, i: int, w: Option<usize>, c: Context) -> StateV {
    let t = sp_slash_mark(s, i, c); let p = sp_proposer(t, c) as int;
    let r = s.validators[i].effective_balance as int / sp_whistle_quotient(c);
    let q = sp_proposer_share(r, c);
    sp_increase_balance(sp_increase_balance(t, p, q), match w { Some(x) => x as int, None => p }, r - q)
}
@@spec forks=phase0
pub open spec fn sp_min_penalty_quotient(c: Context) -> int { c.min_slashing_penalty_quotient as int }
pub open spec fn sp_proposer_share(r: int, c: Context) -> int { r / (c.proposer_reward_quotient as int) }
@@spec forks=altair
pub open spec fn sp_min_penalty_quotient(c: Context) -> int { c.min_slashing_penalty_quotient_altair as int }
@@spec forks=bellatrix,capella,deneb
pub open spec fn sp_min_penalty_quotient(c: Context) -> int { c.min_slashing_penalty_quotient_bellatrix as int }
@@spec forks=electra
pub open spec fn sp_min_penalty_quotient(c: Context) -> int { c.min_slashing_penalty_quotient_electra as int }
pub open spec fn sp_whistle_quotient(c: Context) -> int { c.whistleblower_reward_quotient_electra as int }
@@spec forks=..deneb
pub open spec fn sp_whistle_quotient(c: Context) -> int { c.whistleblower_reward_quotient as int }
@@spec forks=altair,bellatrix,electra
pub open spec fn sp_proposer_share(r: int, c: Context) -> int { r * (PROPOSER_WEIGHT as int) / (WEIGHT_DENOMINATOR as int) }
@@spec forks=capella,deneb unless=K09
pub open spec fn sp_proposer_share(r: int, c: Context) -> int { r * (PROPOSER_WEIGHT as int) / (WEIGHT_DENOMINATOR as int) }
@@spec forks=capella,deneb known=K09
// recorded finding: the generated copies give the proposer nothing
pub open spec fn sp_proposer_share(r: int, c: Context) -> int { 0 }
@@vspec
pub open spec fn has_active(s: StateV, c: Context) -> bool { sp_active_indices(s, sp_cur(s, c)).len() > 0 }
pub proof fn lemma_slash_mark_wf(s: StateV, i: int, c: Context, k: int)
    requires wf_ops(s, c, k), 0 <= i < s.validators.len(), k < kmax(), !s.validators[i].slashed
    ensures wf_ops(sp_slash_mark(s, i, c), c, k + 1), has_active(s, c) ==> has_active(sp_slash_mark(s, i, c), c),
        sp_initiate_exit(s, i, c).slashings[sp_cur(s, c) % cg_EPOCHS_PER_SLASHINGS_VECTOR] + s.validators[i].effective_balance <= u64::MAX,
{
    lemma_exit_wf(s, i, c, k); lemma_epoch_bound(s.slot as int, c); lemma_lv(k); lemma_lv(k + 1);
    let t = sp_initiate_exit(s, i, c); let n = t.validators.len() as int; let u = sp_slash_mark(s, i, c); let v = u.validators[i]; let j = sp_cur(s, c) % cg_EPOCHS_PER_SLASHINGS_VECTOR;
    lemma_unslashed_nonneg(t.validators, n); lemma_slash_sum_ge(t.slashings, t.slashings.len() as int);
    lemma_unslashed_update(t.validators, i, v, n); lemma_slash_sum_update(t.slashings, j, u.slashings[j], t.slashings.len() as int);
    lemma_eff_same(t.validators, u.validators, n);
    assert(forall|x: int| 0 <= x < n ==> (#[trigger] u.validators[x]).effective_balance == t.validators[x].effective_balance);
    assert(forall|x: int| 0 <= x < n ==> (#[trigger] u.validators[x]).exit_epoch == t.validators[x].exit_epoch);
    assert forall|x: int| 0 <= x < n implies (sp_is_active(#[trigger] s.validators[x], sp_cur(s, c)) <==> sp_is_active(u.validators[x], sp_cur(s, c))) by {
        assert(sp_is_active(t.validators[x], sp_cur(s, c)) <==> sp_is_active(s.validators[x], sp_cur(s, c)));
    }
    lemma_active_same(s.validators, u.validators, sp_cur(s, c), n);
}
pub proof fn lemma_bal_wf(s: StateV, i: int, d: int, c: Context, k: int)
    requires wf_ops(s, c, k), 0 <= i < s.balances.len(), k < kmax(), 0 <= d <= 0x2_0000_0000
    ensures wf_ops(sp_increase_balance(s, i, d), c, k + 1), s.balances[i] + d <= u64::MAX
{
    lemma_lv(k); lemma_lv(k + 1);
    let t = sp_increase_balance(s, i, d);
    assert forall|x: int| 0 <= x < t.balances.len() implies (#[trigger] t.balances[x]) < lv(k + 1) by {}
}
pub open spec fn slash_proposer_ok(s: StateV, i: int, c: Context) -> bool { sp_proposer(sp_slash_mark(s, i, c), c) < s.validators.len() }
pub proof fn lemma_reward(eff: int, c: Context)
    requires wf_ctx(c), 0 <= eff <= 0x400_0000_0000
    ensures 0 <= eff / sp_whistle_quotient(c) <= 0x2_0000_0000, 0 <= sp_proposer_share(eff / sp_whistle_quotient(c), c) <= eff / sp_whistle_quotient(c)
{
    let q = sp_whistle_quotient(c); let r = eff / q;
    assert(0 <= eff / q <= 0x2_0000_0000) by (nonlinear_arith) requires 0 <= eff <= 0x400_0000_0000, q >= 0x200;
    lemma_share(r, c);
}
pub proof fn lemma_slash_wf(s: StateV, i: int, w: Option<usize>, c: Context, k: int)
    requires wf_ops(s, c, k), 0 <= i < s.validators.len(), k + 3 < kmax(), !s.validators[i].slashed, slash_proposer_ok(s, i, c), w matches Some(x) ==> x < s.validators.len()
    ensures wf_ops(sp_slash(s, i, w, c), c, k + 3), has_active(s, c) ==> has_active(sp_slash(s, i, w, c), c)
{
    lemma_slash_mark_wf(s, i, c, k); lemma_reward(s.validators[i].effective_balance as int, c);
    let t = sp_slash_mark(s, i, c); let p = sp_proposer(t, c) as int; let r = s.validators[i].effective_balance as int / sp_whistle_quotient(c); let q = sp_proposer_share(r, c);
    lemma_bal_wf(t, p, q, c, k + 1);
    lemma_bal_wf(sp_increase_balance(t, p, q), match w { Some(x) => x as int, None => p }, r - q, c, k + 2);
}
@@vspec forks=phase0
pub proof fn lemma_share(r: int, c: Context)
    requires wf_ctx(c), r >= 0 ensures 0 <= sp_proposer_share(r, c) <= r
{ let q = c.proposer_reward_quotient as int; assert(0 <= r / q <= r) by (nonlinear_arith) requires r >= 0, q > 0; }
@@vspec forks=altair+
pub proof fn lemma_share(r: int, c: Context)
    requires r >= 0 ensures 0 <= sp_proposer_share(r, c) <= r
{}
@@fn slash_validator
requires wf_ops(old(state)@, *context, kmax() - 8), has_active(old(state)@, *context), slashed_index < old(state)@.validators.len(), !old(state)@.validators[slashed_index as int].slashed,
    whistleblower_index matches Some(w) ==> w < old(state)@.validators.len()
ensures r is Ok, final(state)@ == sp_slash(old(state)@, slashed_index as int, whistleblower_index, *context), slash_proposer_ok(old(state)@, slashed_index as int, *context)
@ start
let ghost s0 = state@; let ghost i0 = slashed_index as int; let ghost k0 = kmax() - 8;
proof {
    lemma_wf_weak(s0, *context, k0); lemma_slash_mark_wf(s0, i0, *context, k0); lemma_exit_wf(s0, i0, *context, k0); lemma_wf_weak(sp_slash_mark(s0, i0, *context), *context, k0 + 1);
    lemma_epoch_bound(s0.slot as int, *context); lemma_lv(k0 + 1); lemma_reward(s0.validators[i0].effective_balance as int, *context);
}
@ call decrease_balance 0
proof {
    assert(state@.validators =~= sp_slash_mark(s0, i0, *context).validators); assert(state@.slashings =~= sp_slash_mark(s0, i0, *context).slashings); assert(state@.balances =~= sp_slash_mark(s0, i0, *context).balances);
}
@ let proposer_reward 0
proof {
    lemma_bal_wf(state@, proposer_index as int, proposer_reward as int, *context, k0 + 1);
    lemma_bal_wf(sp_increase_balance(state@, proposer_index as int, proposer_reward as int), whistleblower_index as int, whistleblower_reward - proposer_reward, *context, k0 + 2);
}
@@test slash props=C09 n=100
let mut c = gen_ctx(g); c.shuffle_round_count = 3; let mut st = gen_sample_state(g, &c); let cc = c.cv(); let k = g.range(1, 3);
for _ in 0..k {
    let n = st.validators.len(); let i = g.idx(n); if st.validators[i].slashed { continue; }
    let w = if g.bool() { None } else { Some(g.idx(n)) }; let s = st.cv();
    sp::slash_validator(&mut st, i, w, &c).map_err(|e| format!("slash_validator({i}, {w:?}): {e}"))?;
    seq_st!(st, sp_slash(s, i as int, w, cc), "slash_validator({i}, {w:?}) at slot {}", st.slot);
}
