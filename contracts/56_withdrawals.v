@@spec forks=capella+
// ---- withdrawals ----
pub open spec fn sp_fully(v: Validator, balance: u64, epoch: int) -> bool { sp_wd_cred(v) && v.withdrawable_epoch as int <= epoch && balance > 0 }
pub open spec fn sp_partially(v: Validator, balance: u64, c: Context) -> bool { sp_wd_cred(v) && v.effective_balance as int == sp_wd_max(v, c) && balance as int > sp_wd_max(v, c) }
pub open spec fn sp_wd_address(v: Validator) -> ExecutionAddress { ExecutionAddress { data: arr20(b32(v.withdrawal_credentials).subrange(12, 32)) } }
// the validator looked at in step k of the sweep
pub open spec fn sp_wd_pos(s: StateV, k: int) -> int { (s.next_withdrawal_validator_index as int + k) % (s.validators.len() as int) }
pub open spec fn sp_wd_bound(s: StateV, c: Context) -> int { vmin(s.validators.len() as int, c.max_validators_per_withdrawals_sweep as int) }
pub open spec fn sp_wd_step(s: StateV, w: Seq<Withdrawal>, i: int, c: Context) -> Seq<Withdrawal> {
    let v = s.validators[i]; let b = s.balances[i]; let n = (s.next_withdrawal_index as int + w.len() as int) as usize;
    if sp_fully(v, b, sp_cur(s, c)) { w.push(Withdrawal { index: n, validator_index: i as usize, address: sp_wd_address(v), amount: b }) }
    else if sp_partially(v, b, c) { w.push(Withdrawal { index: n, validator_index: i as usize, address: sp_wd_address(v), amount: (b as int - sp_wd_max(v, c)) as u64 }) }
    else { w }
}
// the withdrawals after k steps, once the limit is reached nothing is added
pub open spec fn sp_wd_sweep(s: StateV, base: Seq<Withdrawal>, k: int, c: Context) -> Seq<Withdrawal>
    decreases k
{
    if k <= 0 { base } else { let w = sp_wd_sweep(s, base, k - 1, c); if w.len() as int >= c.max_withdrawals_per_payload as int { w } else { sp_wd_step(s, w, sp_wd_pos(s, k - 1), c) } }
}
pub open spec fn sp_expected(s: StateV, c: Context) -> Seq<Withdrawal> { sp_wd_sweep(s, sp_wd_base(s, c), sp_wd_bound(s, c), c) }
pub open spec fn sp_paid_out(s: StateV, w: Seq<Withdrawal>, n: int) -> StateV
    decreases n
{
    if n <= 0 { s } else { sp_decrease_balance(sp_paid_out(s, w, n - 1), w[n - 1].validator_index as int, w[n - 1].amount as int) }
}
pub open spec fn sp_wd_advance(s: StateV, t: StateV, w: Seq<Withdrawal>, c: Context) -> StateV {
    let n = s.validators.len() as int; let k = w.len() as int;
    StateV {
        next_withdrawal_index: if k > 0 { (w[k - 1].index as int + 1) as usize } else { s.next_withdrawal_index },
        next_withdrawal_validator_index: if k == c.max_withdrawals_per_payload as int && k > 0 { ((w[k - 1].validator_index as int + 1) % n) as usize }
            else if k == c.max_withdrawals_per_payload as int { s.next_withdrawal_validator_index }
            else { ((s.next_withdrawal_validator_index as int + c.max_validators_per_withdrawals_sweep as int) % n) as usize },
        ..t }
}
@@spec forks=capella,deneb
pub open spec fn sp_wd_cred(v: Validator) -> bool { sp_eth1_cred(v) }
pub open spec fn sp_wd_max(v: Validator, c: Context) -> int { c.max_effective_balance as int }
pub open spec fn sp_wd_base(s: StateV, c: Context) -> Seq<Withdrawal> { Seq::empty() }
pub open spec fn sp_withdrawals(s: StateV, c: Context) -> StateV { let w = sp_expected(s, c); sp_wd_advance(s, sp_paid_out(s, w, w.len() as int), w, c) }
@@spec forks=electra
pub open spec fn sp_wd_cred(v: Validator) -> bool { sp_exec_cred(v) }
pub open spec fn sp_wd_max(v: Validator, c: Context) -> int { sp_max_eff(v, c) }
// the requested partial withdrawals, up to the first that is not yet due or the limit
pub open spec fn sp_partial_stop(s: StateV, w: Seq<Withdrawal>, k: int, c: Context) -> bool {
    s.pending_partial_withdrawals[k].withdrawable_epoch as int > sp_cur(s, c) || w.len() as int == c.max_pending_partials_per_withdrawals_sweep as int
}
pub open spec fn sp_partial_step(s: StateV, w: Seq<Withdrawal>, k: int, c: Context) -> Seq<Withdrawal> {
    let p = s.pending_partial_withdrawals[k]; let v = s.validators[p.index as int]; let b = s.balances[p.index as int];
    if v.exit_epoch as int == far_future() && v.effective_balance > c.min_activation_balance && b > c.min_activation_balance {
        w.push(Withdrawal { index: (s.next_withdrawal_index as int + w.len() as int) as usize, validator_index: p.index, address: sp_wd_address(v), amount: vmin(b as int - c.min_activation_balance as int, p.amount as int) as u64 })
    } else { w }
}
// how many of the first n are looked at
pub open spec fn sp_partial_taken(s: StateV, n: int, c: Context) -> int
    decreases n
{
    if n <= 0 { 0 } else { let r = sp_partial_taken(s, n - 1, c); if r == n - 1 && !sp_partial_stop(s, sp_partials(s, n - 1, c), n - 1, c) { n } else { r } }
}
// what the first n yield when none of them stops
pub open spec fn sp_partials(s: StateV, n: int, c: Context) -> Seq<Withdrawal>
    decreases n
{
    if n <= 0 { Seq::empty() } else { sp_partial_step(s, sp_partials(s, n - 1, c), n - 1, c) }
}
pub open spec fn sp_wd_base(s: StateV, c: Context) -> Seq<Withdrawal> { sp_partials(s, sp_partial_taken(s, s.pending_partial_withdrawals.len() as int, c), c) }
pub open spec fn sp_withdrawals(s: StateV, c: Context) -> StateV {
    let w = sp_expected(s, c); let t = sp_paid_out(s, w, w.len() as int);
    sp_wd_advance(s, StateV { pending_partial_withdrawals: s.pending_partial_withdrawals.subrange(sp_wd_base(s, c).len() as int, s.pending_partial_withdrawals.len() as int), ..t }, w, c)
}
@@vspec forks=capella+
pub open spec fn wd_ok(s: StateV, c: Context) -> bool {
    &&& wf_ctx(c) && wf_len(s) && wd_base_ok(s, c) && 0 < s.validators.len()
    &&& s.next_withdrawal_index < pow2_60() && s.next_withdrawal_validator_index < s.validators.len() && c.max_validators_per_withdrawals_sweep < pow2_60()
}
pub open spec fn wd_within(s: StateV, w: Seq<Withdrawal>) -> bool { forall|k: int| 0 <= k < w.len() ==> (#[trigger] w[k]).validator_index < s.validators.len() && w[k].index < pow2_60() + pow2_40() + pow2_40() }
pub proof fn lemma_wd_sweep(s: StateV, base: Seq<Withdrawal>, k: int, n: int, c: Context)
    requires 0 <= k <= n, sp_wd_sweep(s, base, k, c).len() >= c.max_withdrawals_per_payload ensures sp_wd_sweep(s, base, n, c) == sp_wd_sweep(s, base, k, c)
    decreases n
{ if k < n { lemma_wd_sweep(s, base, k, n - 1, c); } }
pub proof fn lemma_wd_within(s: StateV, base: Seq<Withdrawal>, k: int, c: Context)
    requires wd_ok(s, c), wd_within(s, base), base.len() <= pow2_40(), 0 <= k <= s.validators.len() ensures wd_within(s, sp_wd_sweep(s, base, k, c)), base.len() <= sp_wd_sweep(s, base, k, c).len() <= base.len() + k
    decreases k
{ if k > 0 { lemma_wd_within(s, base, k - 1, c); assert(0 <= sp_wd_pos(s, k - 1) < s.validators.len()) by (nonlinear_arith) requires s.validators.len() > 0, sp_wd_pos(s, k - 1) == (s.next_withdrawal_validator_index as int + (k - 1)) % (s.validators.len() as int); } }
pub proof fn lemma_wd_pos(s: StateV, k: int)
    requires 0 < s.validators.len(), 0 <= k ensures 0 <= sp_wd_pos(s, k) < s.validators.len(), sp_wd_pos(s, k + 1) == (sp_wd_pos(s, k) + 1) % (s.validators.len() as int)
{
    let n = s.validators.len() as int; let a = s.next_withdrawal_validator_index as int + k;
    vstd::arithmetic::div_mod::lemma_mod_bound(a, n);
    vstd::arithmetic::div_mod::lemma_add_mod_noop(a, 1, n); vstd::arithmetic::div_mod::lemma_add_mod_noop(a % n, 1, n); vstd::arithmetic::div_mod::lemma_mod_twice(a, n);
}
pub proof fn lemma_paid_out(s: StateV, w: Seq<Withdrawal>, n: int)
    requires 0 <= n <= w.len() ensures ({ let t = sp_paid_out(s, w, n); t == (StateV { balances: t.balances, ..s }) && t.balances.len() == s.balances.len() })
    decreases n
{ if n > 0 { lemma_paid_out(s, w, n - 1); } }
@@vspec forks=capella,deneb
pub open spec fn wd_base_ok(s: StateV, c: Context) -> bool { 0 < c.max_withdrawals_per_payload < pow2_40() }
pub proof fn lemma_wd_base(s: StateV, c: Context) requires wd_ok(s, c) ensures wd_within(s, sp_wd_base(s, c)), sp_wd_base(s, c).len() < c.max_withdrawals_per_payload {}
@@vspec forks=electra
pub open spec fn wd_base_ok(s: StateV, c: Context) -> bool {
    &&& c.max_pending_partials_per_withdrawals_sweep < c.max_withdrawals_per_payload < pow2_40()
    &&& forall|k: int| 0 <= k < s.pending_partial_withdrawals.len() ==> (#[trigger] s.pending_partial_withdrawals[k]).index < s.validators.len()
}
pub proof fn lemma_partials(s: StateV, n: int, c: Context)
    requires wd_ok(s, c), 0 <= n <= s.pending_partial_withdrawals.len(), sp_partial_taken(s, n, c) == n
    ensures wd_within(s, sp_partials(s, n, c)), sp_partials(s, n, c).len() <= c.max_pending_partials_per_withdrawals_sweep, sp_partials(s, n, c).len() <= n
    decreases n
{ if n > 0 { lemma_partial_le(s, n - 1, c); lemma_partials(s, n - 1, c); assert(s.pending_partial_withdrawals[n - 1].index < s.validators.len()); } }
pub proof fn lemma_partial_le(s: StateV, n: int, c: Context)
    requires 0 <= n ensures 0 <= sp_partial_taken(s, n, c) <= n, sp_partial_taken(s, sp_partial_taken(s, n, c), c) == sp_partial_taken(s, n, c)
    decreases n
{ if n > 0 { lemma_partial_le(s, n - 1, c); } }
pub proof fn lemma_partial_taken(s: StateV, k: int, n: int, c: Context)
    requires 0 <= k <= n <= s.pending_partial_withdrawals.len(), sp_partial_taken(s, k, c) == k, k < n ==> sp_partial_stop(s, sp_partials(s, k, c), k, c)
    ensures sp_partial_taken(s, n, c) == k
    decreases n
{ if k < n { if n == k + 1 { } else { lemma_partial_taken(s, k, n - 1, c); } } }
pub proof fn lemma_wd_base(s: StateV, c: Context)
    requires wd_ok(s, c) ensures wd_within(s, sp_wd_base(s, c)), sp_wd_base(s, c).len() < c.max_withdrawals_per_payload, sp_wd_base(s, c).len() <= s.pending_partial_withdrawals.len()
{ lemma_partial_le(s, s.pending_partial_withdrawals.len() as int, c); lemma_partials(s, sp_partial_taken(s, s.pending_partial_withdrawals.len() as int, c), c); }
@@fn is_fully_withdrawable_validator forks=capella+
ensures r == sp_fully(*validator, balance, epoch as int)
@@fn is_partially_withdrawable_validator forks=capella+
ensures r == sp_partially(*validator, balance, *context)
@@fn get_expected_withdrawals forks=capella,deneb cinv=1
requires wd_ok(state@, *context)
ensures r@ == sp_expected(state@, *context), r@.len() <= context.max_withdrawals_per_payload
@ start
let ghost s = state@; let ghost c = *context; let ghost b = sp_wd_base(s, c);
proof { lemma_wd_base(s, c); lemma_wd_pos(s, 0); vstd::arithmetic::div_mod::lemma_small_mod(s.next_withdrawal_validator_index as nat, s.validators.len() as nat); }
@ loop 0
invariant s == state@, c == *context, b == sp_wd_base(s, c), wd_ok(s, c), wd_within(s, b), epoch as int == sp_cur(s, c), bound as int == sp_wd_bound(s, c), __n0 == bound, 0 <= __i0 <= __n0,
    validator_index as int == sp_wd_pos(s, __i0 as int), validator_index < s.validators.len(), withdrawals@ == sp_wd_sweep(s, b, __i0 as int, c), withdrawals@.len() < c.max_withdrawals_per_payload, withdrawal_index as int == s.next_withdrawal_index + withdrawals@.len(), withdrawals@.len() <= __i0
ensures withdrawals@ == sp_wd_sweep(s, b, bound as int, c), withdrawals@.len() <= c.max_withdrawals_per_payload
@ loopstart 0
proof { lemma_wd_pos(s, __i0 as int); if sp_wd_sweep(s, b, __i0 + 1, c).len() >= c.max_withdrawals_per_payload { lemma_wd_sweep(s, b, __i0 + 1, bound as int, c); } }
@@fn get_expected_withdrawals forks=electra cinv=1 rlimit=60
requires wd_ok(state@, *context)
ensures r.0@ == sp_expected(state@, *context), r.0@.len() <= context.max_withdrawals_per_payload, r.1 as int == sp_wd_base(state@, *context).len()
@ start
let ghost s = state@; let ghost c = *context; let ghost b = sp_wd_base(s, c); let ghost m = s.pending_partial_withdrawals.len() as int;
proof { lemma_wd_base(s, c); lemma_wd_pos(s, 0); vstd::arithmetic::div_mod::lemma_small_mod(s.next_withdrawal_validator_index as nat, s.validators.len() as nat); }
@ loop 0
invariant s == state@, c == *context, wd_ok(s, c), epoch as int == sp_cur(s, c), __i0 <= m, m == s.pending_partial_withdrawals.len(), withdrawals@ == sp_partials(s, __i0 as int, c), sp_partial_taken(s, __i0 as int, c) == __i0,
    withdrawals@.len() <= c.max_pending_partials_per_withdrawals_sweep, withdrawals@.len() <= __i0, withdrawal_index as int == s.next_withdrawal_index + withdrawals@.len()
ensures withdrawals@ == sp_wd_base(s, c), withdrawal_index as int == s.next_withdrawal_index + withdrawals@.len()
@ loopstart 0
proof {
    assert(s.pending_partial_withdrawals[__i0 as int].index < s.validators.len());
    if sp_partial_stop(s, withdrawals@, __i0 as int, c) { lemma_partial_taken(s, __i0 as int, m, c); }
}
@ loop 1
invariant s == state@, c == *context, b == sp_wd_base(s, c), wd_ok(s, c), wd_within(s, b), epoch as int == sp_cur(s, c), bound as int == sp_wd_bound(s, c), __n1 == bound, 0 <= __i1 <= __n1, b.len() < c.max_withdrawals_per_payload, partial_withdrawals_count as int == b.len(),
    validator_index as int == sp_wd_pos(s, __i1 as int), validator_index < s.validators.len(), withdrawals@ == sp_wd_sweep(s, b, __i1 as int, c), withdrawals@.len() < c.max_withdrawals_per_payload, withdrawal_index as int == s.next_withdrawal_index + withdrawals@.len(), withdrawals@.len() <= b.len() + __i1
ensures withdrawals@ == sp_wd_sweep(s, b, bound as int, c), withdrawals@.len() <= c.max_withdrawals_per_payload
@ loopstart 1
proof { lemma_wd_pos(s, __i1 as int); if sp_wd_sweep(s, b, __i1 + 1, c).len() >= c.max_withdrawals_per_payload { lemma_wd_sweep(s, b, __i1 + 1, bound as int, c); } }
@@fn process_withdrawals forks=capella,deneb
requires wd_ok(old(state)@, *context)
ensures r is Ok <==> execution_payload.withdrawals@ == sp_expected(old(state)@, *context), final(state)@ == (if r is Ok { sp_withdrawals(old(state)@, *context) } else { old(state)@ })
@ start
let ghost s = state@; let ghost c = *context; let ghost w = sp_expected(s, c);
proof { lemma_wd_base(s, c); lemma_wd_within(s, sp_wd_base(s, c), sp_wd_bound(s, c), c); }
@ loop 0
invariant wd_ok(s, c), wd_within(s, w), execution_payload.withdrawals@ == w, __i0 <= w.len(), expected_withdrawals@ == w, state@ == sp_paid_out(s, w, __i0 as int)
@ loopstart 0
proof { lemma_paid_out(s, w, __i0 as int); assert(w[__i0 as int].validator_index < s.validators.len()); }
@ after 0
proof { lemma_paid_out(s, w, w.len() as int); if w.len() > 0 { assert(w[w.len() - 1].validator_index < s.validators.len()); assert(w.last() == w[w.len() - 1]); } }
@@fn process_withdrawals forks=electra
requires wd_ok(old(state)@, *context)
ensures r is Ok <==> payload.withdrawals@ == sp_expected(old(state)@, *context), final(state)@ == (if r is Ok { sp_withdrawals(old(state)@, *context) } else { old(state)@ })
@ start
let ghost s = state@; let ghost c = *context; let ghost w = sp_expected(s, c);
proof { lemma_wd_base(s, c); lemma_wd_within(s, sp_wd_base(s, c), sp_wd_bound(s, c), c); }
@ loop 0
invariant wd_ok(s, c), wd_within(s, w), payload.withdrawals@ == w, __i0 <= w.len(), state@ == sp_paid_out(s, w, __i0 as int)
@ loopstart 0
proof { lemma_paid_out(s, w, __i0 as int); assert(w[__i0 as int].validator_index < s.validators.len()); }
@ after 0
proof { lemma_paid_out(s, w, w.len() as int); if w.len() > 0 { assert(w[w.len() - 1].validator_index < s.validators.len()); assert(w.last() == w[w.len() - 1]); } }
@@rust forks=capella+
pub fn gen_wd_state(g: &mut G, c: &RealCtx) -> RealBeaconState {
    let mut st = gen_state(g, c); let n = st.validators.len(); let e = epoch_of(&st, c);
    for i in 0..n {
        st.validators[i].withdrawal_credentials[0] = g.pick(&[0u8, 1, 1, 1, 2]);
        for k in 1..32 { st.validators[i].withdrawal_credentials[k] = g.below(256) as u8; }
        let m = match g.below(4) { 0 => wd_cap(c), 1 => c.max_effective_balance, _ => g.pick(&[c.max_effective_balance, 31 * GWEI, 40 * GWEI]) };
        st.validators[i].effective_balance = m;
        st.balances[i] = match g.below(5) { 0 => 0, 1 => m, 2 => m + 1, 3 => m + g.below(50 * GWEI), _ => g.below(40 * GWEI) };
        st.validators[i].withdrawable_epoch = if g.chance(40) { g.near(e) } else { u64::MAX };
        if g.bool() { st.validators[i].exit_epoch = u64::MAX; }
    }
    st.next_withdrawal_index = g.below(1000) as usize; st.next_withdrawal_validator_index = g.idx(n);
    gen_partials(g, &mut st, e);
    st
}
@@rust forks=capella,deneb
pub fn wd_cap(c: &RealCtx) -> u64 { c.max_effective_balance }
pub fn gen_partials(_g: &mut G, _st: &mut RealBeaconState, _e: u64) {}
pub fn expected(st: &RealBeaconState, c: &RealCtx) -> (Vec<ec::capella::Withdrawal>, usize) { (sp::get_expected_withdrawals(st, c), 0) }
@@rust forks=electra
pub fn wd_cap(c: &RealCtx) -> u64 { c.max_effective_balance_electra }
pub fn gen_partials(g: &mut G, st: &mut RealBeaconState, e: u64) {
    for _ in 0..g.below(6) {
        let w = if g.chance(80) { g.below(e + 1) } else { g.near(e) }; let i = g.idx(st.validators.len());
        if g.chance(60) { st.validators[i].exit_epoch = u64::MAX; st.validators[i].effective_balance = 50 * GWEI; st.balances[i] = g.pick(&[32 * GWEI, 32 * GWEI + 1, 40 * GWEI, 90 * GWEI]); }
        st.pending_partial_withdrawals.push(ec::electra::PendingPartialWithdrawal { index: i, amount: g.below(20 * GWEI), withdrawable_epoch: w });
    }
}
pub fn expected(st: &RealBeaconState, c: &RealCtx) -> (Vec<ec::capella::Withdrawal>, usize) { sp::get_expected_withdrawals(st, c) }
@@test withdrawals props=C18 forks=capella+ n=150
let mut c = gen_ctx(g); c.max_withdrawals_per_payload = g.pick(&[4usize, 4, 3, 2]); c.max_validators_per_withdrawals_sweep = g.pick(&[16usize, 1, 3, 64]); c.max_pending_partials_per_withdrawals_sweep = g.pick(&[1usize, 1, 0]);
let st = gen_wd_state(g, &c); let s = st.cv(); let cc = c.cv(); let n = st.validators.len(); let i = g.idx(n); let q = g.near(epoch_of(&st, &c));
eqv!(sp::is_fully_withdrawable_validator(&st.validators[i], st.balances[i], q), sp_fully(s.validators[i as int], st.balances[i], q as int), "is_fully_withdrawable_validator");
eqv!(sp::is_partially_withdrawable_validator(&st.validators[i], st.balances[i], &c), sp_partially(s.validators[i as int], st.balances[i], cc), "is_partially_withdrawable_validator");
let (w, k) = expected(&st, &c);
let m: Seq<Withdrawal> = Seq::of(w.iter().map(|x| x.cv()).collect());
eqv!(m, sp_expected(s, cc), "get_expected_withdrawals"); eqv!(k as int, sp_wd_base(s, cc).len(), "partial withdrawals count");
let mut p = RealExecutionPayload::default(); for x in &w { p.withdrawals.push(x.clone()); }
let bad = g.chance(30);
if bad { match g.below(4) { 0 if !w.is_empty() => { let j = g.idx(w.len()); p.withdrawals[j].amount ^= 1; } 1 if !w.is_empty() => { let j = g.idx(w.len()); p.withdrawals[j].index ^= 1; } 2 if !w.is_empty() => { let j = g.idx(w.len()); p.withdrawals[j].address[7] ^= 1; }
    _ => { if w.len() < 4 { p.withdrawals.push(Default::default()) } else { p.withdrawals.pop(); } } } }
let ok = p.cv().withdrawals == sp_expected(s, cc);
let mut t = st.clone(); let r = sp::process_withdrawals(&mut t, &p, &c).is_ok(); g.note("withdrawals accepted", ok && !w.is_empty()); g.note("full payload", w.len() == c.max_withdrawals_per_payload); g.note("partials", k > 0);
eqv!(r, ok, "process_withdrawals of {:?}", p.withdrawals); seq_st!(t, if ok { sp_withdrawals(s, cc) } else { s }, "process_withdrawals");
