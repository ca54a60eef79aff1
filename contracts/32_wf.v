@@vspec
// Numeric ranges of a reachable state, with room for k more small steps (a slashing, a reward, a deposit counts 16): the operations of a
// block raise k, and no value comes near overflow while k stays below 2^26.
pub open spec fn lv(k: int) -> int { 0x1000_0000_0000_0000 + k * 0x2_0000_0000 }
pub open spec fn sp_unslashed(vs: Seq<Validator>, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { sp_unslashed(vs, n - 1) + (if vs[n - 1].slashed { 0 } else { vs[n - 1].effective_balance as int }) }
}
pub open spec fn wf_slash(s: StateV, k: int) -> bool { sp_slash_sum(s.slashings, s.slashings.len() as int) + sp_unslashed(s.validators, s.validators.len() as int) < lv(k) + lv(k) }
pub open spec fn wf_effk(vs: Seq<Validator>, k: int) -> bool {
    &&& sp_eff_sum(vs, vs.len() as int) < lv(k)
    &&& forall|i: int| 0 <= i < vs.len() ==> (#[trigger] vs[i]).effective_balance <= 0x400_0000_0000
}
pub open spec fn wf_balk(s: StateV, k: int) -> bool { forall|i: int| 0 <= i < s.balances.len() ==> (#[trigger] s.balances[i]) < lv(k) }
pub open spec fn kmax() -> int { 0x400_0000 }
pub open spec fn wf_ops(s: StateV, c: Context, k: int) -> bool {
    &&& wf_ctx(c) && wf_len(s) && 0 <= k && s.validators.len() < 0x800_0000 + k
    &&& wf_exits(s.validators, lv(k)) && wf_effk(s.validators, k) && wf_balk(s, k) && wf_slash(s, k) && wf_more(s, k)
}
pub proof fn lemma_lv(k: int)
    requires 0 <= k <= kmax()
    ensures pow2_60() <= lv(k) <= 0x1800_0000_0000_0000, lv(k + 1) == lv(k) + 0x2_0000_0000, lv(k + 16) == lv(k) + 0x20_0000_0000
{
    assert(0 <= k * 0x2_0000_0000 <= 0x400_0000 * 0x2_0000_0000) by (nonlinear_arith) requires 0 <= k <= 0x400_0000;
    assert((k + 1) * 0x2_0000_0000 == k * 0x2_0000_0000 + 0x2_0000_0000 && (k + 16) * 0x2_0000_0000 == k * 0x2_0000_0000 + 0x20_0000_0000) by (nonlinear_arith);
}
pub proof fn lemma_wf_weak(s: StateV, c: Context, k: int)
    requires wf_ops(s, c, k), k <= kmax()
    ensures wf_eff(s.validators), wf_exits(s.validators, 4 * pow2_60()), wf_len(s), wf_ctx(c)
{
    lemma_lv(k);
}
pub proof fn lemma_wf_up(s: StateV, c: Context, k: int, m: int)
    requires wf_ops(s, c, k), 0 <= k <= m <= kmax()
    ensures wf_ops(s, c, m)
{
    assert(k * 0x2_0000_0000 <= m * 0x2_0000_0000) by (nonlinear_arith) requires k <= m;
}
pub proof fn lemma_unslashed_same(vs: Seq<Validator>, ws: Seq<Validator>, n: int)
    requires 0 <= n <= vs.len(), n <= ws.len(), forall|i: int| 0 <= i < n ==> (#[trigger] vs[i]).effective_balance == ws[i].effective_balance && vs[i].slashed == ws[i].slashed
    ensures sp_unslashed(vs, n) == sp_unslashed(ws, n)
    decreases n
{
    if n > 0 { lemma_unslashed_same(vs, ws, n - 1); assert(vs[n - 1].slashed == ws[n - 1].slashed); }
}
pub proof fn lemma_unslashed_update(vs: Seq<Validator>, i: int, v: Validator, n: int)
    requires 0 <= i < vs.len(), 0 <= n <= vs.len()
    ensures sp_unslashed(vs.update(i, v), n) == sp_unslashed(vs, n) + (if i < n { (if v.slashed { 0 } else { v.effective_balance as int }) - (if vs[i].slashed { 0 } else { vs[i].effective_balance as int }) } else { 0 })
    decreases n
{
    if n > 0 { lemma_unslashed_update(vs, i, v, n - 1); }
}
pub proof fn lemma_unslashed_nonneg(vs: Seq<Validator>, n: int)
    requires 0 <= n <= vs.len()
    ensures 0 <= sp_unslashed(vs, n) <= sp_eff_sum(vs, n), forall|i: int| 0 <= i < n && !(#[trigger] vs[i]).slashed ==> vs[i].effective_balance <= sp_unslashed(vs, n)
    decreases n
{
    if n > 0 { lemma_unslashed_nonneg(vs, n - 1); }
}
pub proof fn lemma_slash_sum_update(q: Seq<u64>, i: int, x: u64, n: int)
    requires 0 <= i < q.len(), 0 <= n <= q.len()
    ensures sp_slash_sum(q.update(i, x), n) == sp_slash_sum(q, n) + (if i < n { x as int - q[i] as int } else { 0 })
    decreases n
{
    if n > 0 { lemma_slash_sum_update(q, i, x, n - 1); }
}
pub proof fn lemma_slash_sum_ge(q: Seq<u64>, n: int)
    requires 0 <= n <= q.len()
    ensures 0 <= sp_slash_sum(q, n), forall|i: int| 0 <= i < n ==> (#[trigger] q[i]) <= sp_slash_sum(q, n)
    decreases n
{
    if n > 0 { lemma_slash_sum_ge(q, n - 1); }
}
@@vspec forks=..deneb
pub open spec fn wf_more(s: StateV, k: int) -> bool { true }
@@vspec forks=electra
pub open spec fn wf_more(s: StateV, k: int) -> bool { wf_churn(s, lv(k)) }
@@vspec forks=..deneb
// one initiated exit uses at most one step
pub proof fn lemma_exit_wf(s: StateV, i: int, c: Context, k: int)
    requires wf_ops(s, c, k), 0 <= i < s.validators.len(), k < kmax()
    ensures wf_ops(sp_initiate_exit(s, i, c), c, k + 1),
        forall|j: int, e: int| 0 <= j < s.validators.len() && e <= sp_cur(s, c) ==> (sp_is_active(#[trigger] sp_initiate_exit(s, i, c).validators[j], e) <==> #[trigger] sp_is_active(s.validators[j], e)),
{
    lemma_lv(k); lemma_epoch_bound(s.slot as int, c);
    let vs = s.validators; let t = sp_initiate_exit(s, i, c); let ws = t.validators;
    lemma_max_exit_bound(vs, vs.len() as int, lv(k));
    lemma_eff_same(vs, ws, vs.len() as int); lemma_unslashed_same(vs, ws, vs.len() as int);
    assert(forall|j: int| 0 <= j < vs.len() ==> (#[trigger] ws[j]).effective_balance == vs[j].effective_balance);
}
@@vspec forks=electra
pub proof fn lemma_exit_wf(s: StateV, i: int, c: Context, k: int)
    requires wf_ops(s, c, k), 0 <= i < s.validators.len(), k < kmax()
    ensures wf_ops(sp_initiate_exit(s, i, c), c, k + 1),
        forall|j: int, e: int| 0 <= j < s.validators.len() && e <= sp_cur(s, c) ==> (sp_is_active(#[trigger] sp_initiate_exit(s, i, c).validators[j], e) <==> #[trigger] sp_is_active(s.validators[j], e)),
{
    lemma_lv(k); lemma_epoch_bound(s.slot as int, c); lemma_churn_bounds(s, c);
    let vs = s.validators; let t = sp_initiate_exit(s, i, c); let ws = t.validators; let a = vs[i].effective_balance as int;
    lemma_more(a, sp_queue_left(s, s.earliest_exit_epoch as int, s.exit_balance_to_consume as int, sp_exit_churn(s, c), c), sp_exit_churn(s, c));
    lemma_eff_same(vs, ws, vs.len() as int); lemma_unslashed_same(vs, ws, vs.len() as int);
    assert(forall|j: int| 0 <= j < vs.len() ==> (#[trigger] ws[j]).effective_balance == vs[j].effective_balance);
}
