@@spec
// ---- registry updates ----
pub open spec fn sp_stamp(s: StateV, i: int, c: Context) -> StateV {
    if sp_queue_eligible(s.validators[i], c) { StateV { validators: s.validators.update(i, Validator { activation_eligibility_epoch: (sp_cur(s, c) + 1) as u64, ..s.validators[i] }), ..s } } else { s }
}
pub open spec fn sp_eject(s: StateV, i: int, c: Context) -> StateV {
    if sp_is_active(s.validators[i], sp_cur(s, c)) && s.validators[i].effective_balance <= c.ejection_balance { sp_initiate_exit(s, i, c) } else { s }
}
// queue stamps and ejections of the first n validators
pub open spec fn sp_registry_first(s: StateV, n: int, c: Context) -> StateV
    decreases n
{
    if n <= 0 { s } else { sp_eject(sp_stamp(sp_registry_first(s, n - 1, c), n - 1, c), n - 1, c) }
}
pub open spec fn sp_can_activate(s: StateV, i: int) -> bool { s.validators[i].activation_eligibility_epoch <= s.finalized_checkpoint.epoch && s.validators[i].activation_epoch as int == far_future() }
pub open spec fn sp_set_activation(s: StateV, i: int, c: Context) -> Validator { Validator { activation_epoch: sp_activation_exit_epoch(sp_cur(s, c), c) as u64, ..s.validators[i] } }
@@spec forks=..deneb
// j is activated ahead of i: earlier eligibility epoch, then lower index
pub open spec fn sp_ahead(s: StateV, j: int, i: int) -> bool {
    sp_can_activate(s, j) && (s.validators[j].activation_eligibility_epoch < s.validators[i].activation_eligibility_epoch || (s.validators[j].activation_eligibility_epoch == s.validators[i].activation_eligibility_epoch && j < i))
}
pub open spec fn sp_rank(s: StateV, i: int, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { sp_rank(s, i, n - 1) + (if sp_ahead(s, n - 1, i) { 1 as int } else { 0 }) }
}
pub open spec fn sp_activate(s: StateV, c: Context) -> StateV {
    StateV { validators: Seq::new(s.validators.len() as nat, |i: int| if sp_can_activate(s, i) && sp_rank(s, i, s.validators.len() as int) < sp_activation_limit(s, c) { sp_set_activation(s, i, c) } else { s.validators[i] }), ..s }
}
@@spec forks=..capella
pub open spec fn sp_activation_limit(s: StateV, c: Context) -> int { sp_churn_limit(s, c) }
@@spec forks=deneb
pub open spec fn sp_activation_limit(s: StateV, c: Context) -> int { vmin(c.max_per_epoch_activation_churn_limit as int, sp_churn_limit(s, c)) }
@@spec forks=electra
pub open spec fn sp_activate(s: StateV, c: Context) -> StateV {
    StateV { validators: Seq::new(s.validators.len() as nat, |i: int| if sp_can_activate(s, i) { sp_set_activation(s, i, c) } else { s.validators[i] }), ..s }
}
@@spec
pub open spec fn sp_registry(s: StateV, c: Context) -> StateV { sp_activate(sp_registry_first(s, s.validators.len() as int, c), c) }
@@vspec forks=..deneb
pub open spec fn reg_inv(s: StateV, c: Context, b: int) -> bool { wf_ctx(c) && wf_len(s) && wf_exits(s.validators, b) && wf_eff(s.validators) }
pub proof fn lemma_eject(s: StateV, i: int, c: Context, b: int)
    requires reg_inv(s, c, b), 0 <= i < s.validators.len(), pow2_60() <= b < 3 * pow2_60()
    ensures reg_inv(sp_initiate_exit(s, i, c), c, b + 0x4000)
{
    lemma_epoch_bound(s.slot as int, c); lemma_max_exit_bound(s.validators, s.validators.len() as int, b);
    let t = sp_initiate_exit(s, i, c);
    lemma_eff_same(s.validators, t.validators, s.validators.len() as int);
    assert(forall|j: int| 0 <= j < s.validators.len() ==> (#[trigger] t.validators[j]).effective_balance == s.validators[j].effective_balance);
}
@@vspec forks=electra
pub open spec fn reg_inv(s: StateV, c: Context, b: int) -> bool { wf_ctx(c) && wf_len(s) && wf_exits(s.validators, b) && wf_eff(s.validators) && wf_churn(s, b) }
pub proof fn lemma_eject(s: StateV, i: int, c: Context, b: int)
    requires reg_inv(s, c, b), 0 <= i < s.validators.len(), pow2_60() <= b < 3 * pow2_60()
    ensures reg_inv(sp_initiate_exit(s, i, c), c, b + 0x4000)
{
    lemma_epoch_bound(s.slot as int, c); lemma_churn_bounds(s, c);
    let t = sp_initiate_exit(s, i, c); let a = s.validators[i].effective_balance as int;
    lemma_more(a, sp_queue_left(s, s.earliest_exit_epoch as int, s.exit_balance_to_consume as int, sp_exit_churn(s, c), c), sp_exit_churn(s, c));
    lemma_eff_same(s.validators, t.validators, s.validators.len() as int);
    assert(forall|j: int| 0 <= j < s.validators.len() ==> (#[trigger] t.validators[j]).effective_balance == s.validators[j].effective_balance);
}
@@vspec
pub open spec fn reg_bound(i: int) -> int { 2 * pow2_60() + i * 0x4000 }
pub proof fn lemma_stamp(s: StateV, i: int, c: Context, b: int)
    requires reg_inv(s, c, b), 0 <= i < s.validators.len()
    ensures reg_inv(sp_stamp(s, i, c), c, b)
{
    let t = sp_stamp(s, i, c);
    lemma_eff_same(s.validators, t.validators, s.validators.len() as int);
    assert(forall|j: int| 0 <= j < s.validators.len() ==> (#[trigger] t.validators[j]).effective_balance == s.validators[j].effective_balance && t.validators[j].exit_epoch == s.validators[j].exit_epoch);
}
pub proof fn lemma_registry_step(s: StateV, i: int, c: Context)
    requires reg_inv(s, c, reg_bound(i)), 0 <= i < s.validators.len()
    ensures reg_inv(sp_stamp(s, i, c), c, reg_bound(i)), reg_inv(sp_eject(sp_stamp(s, i, c), i, c), c, reg_bound(i + 1)), reg_bound(i) < 3 * pow2_60(), sp_eject(sp_stamp(s, i, c), i, c).validators.len() == s.validators.len()
{
    assert(i * 0x4000 < 0x100_0000_0000 * 0x4000) by (nonlinear_arith) requires i < 0x100_0000_0000;
    assert((i + 1) * 0x4000 == i * 0x4000 + 0x4000) by (nonlinear_arith);
    lemma_stamp(s, i, c, reg_bound(i)); lemma_eject(sp_stamp(s, i, c), i, c, reg_bound(i));
}
@@vspec forks=..deneb
pub open spec fn act_list(s: StateV, n: int) -> Seq<usize>
    decreases n
{
    if n <= 0 { Seq::empty() } else if sp_can_activate(s, n - 1) { act_list(s, n - 1).push((n - 1) as usize) } else { act_list(s, n - 1) }
}
pub proof fn lemma_act_list(s: StateV, n: int)
    requires 0 <= n <= s.validators.len() <= usize::MAX
    ensures act_list(s, n).len() <= n, act_list(s, n).no_duplicates(), forall|k: int| 0 <= k < act_list(s, n).len() ==> (#[trigger] act_list(s, n)[k]) < n,
        forall|i: usize| #[trigger] act_list(s, n).contains(i) <==> i < n && sp_can_activate(s, i as int)
    decreases n
{
    if n > 0 {
        lemma_act_list(s, n - 1);
        let p = act_list(s, n - 1); let q = act_list(s, n);
        assert forall|i: usize| #[trigger] q.contains(i) <==> i < n && sp_can_activate(s, i as int) by {
            if q.contains(i) { let k = choose|k: int| 0 <= k < q.len() && q[k] == i; if k < p.len() { assert(p[k] == i); assert(p.contains(i)); } }
            if i < n - 1 && sp_can_activate(s, i as int) { assert(p.contains(i)); let k = choose|k: int| 0 <= k < p.len() && p[k] == i; assert(q[k] == i); }
            if i == n - 1 && sp_can_activate(s, i as int) { assert(q[p.len() as int] == i); }
        }
    }
}
// members of `set` among the first n indices
pub open spec fn set_count(set: Set<usize>, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { set_count(set, n - 1) + (if set.contains((n - 1) as usize) { 1int } else { 0 }) }
}
pub proof fn lemma_count_insert(a: Set<usize>, b: Set<usize>, x: usize, n: int)
    requires 0 <= n <= usize::MAX, !a.contains(x), forall|y: usize| b.contains(y) <==> (a.contains(y) || y == x)
    ensures set_count(b, n) == set_count(a, n) + (if x < n { 1int } else { 0 })
    decreases n
{
    if n > 0 { lemma_count_insert(a, b, x, n - 1); }
}
pub proof fn lemma_count_empty(a: Set<usize>, n: int)
    requires forall|y: usize| !a.contains(y) ensures set_count(a, n) == 0
    decreases n
{
    if n > 0 { lemma_count_empty(a, n - 1); }
}
pub proof fn lemma_count_seq(q: Seq<usize>, k: int, n: int)
    requires 0 <= k <= q.len(), q.no_duplicates(), 0 <= n <= usize::MAX, forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]) < n
    ensures set_count(q.take(k).to_set(), n) == k
    decreases k
{
    if k > 0 {
        lemma_count_seq(q, k - 1, n); lemma_reach(q, k - 1);
        let a = q.take(k - 1).to_set(); let b = q.take(k).to_set();
        assert forall|y: usize| b.contains(y) <==> (a.contains(y) || y == q[k - 1]) by { assert(q.take(k - 1 + 1).contains(y) <==> q.take(k - 1).contains(y) || y == q[k - 1]); }
        assert(!a.contains(q[k - 1]));
        lemma_count_insert(a, b, q[k - 1], n);
    } else {
        assert forall|y: usize| !q.take(0).to_set().contains(y) by {}
        lemma_count_empty(q.take(0).to_set(), n);
    }
}
pub proof fn lemma_rank_count(s: StateV, i: int, set: Set<usize>, n: int)
    requires 0 <= n <= s.validators.len() <= usize::MAX, forall|j: int| 0 <= j < n ==> (#[trigger] set.contains(j as usize) <==> sp_ahead(s, j, i))
    ensures sp_rank(s, i, n) == set_count(set, n)
    decreases n
{
    if n > 0 { lemma_rank_count(s, i, set, n - 1); assert(set.contains((n - 1) as usize) <==> sp_ahead(s, n - 1, i)); }
}
pub open spec fn act_key(s: StateV, i: usize) -> (u64, usize) { (s.validators[i as int].activation_eligibility_epoch, i) }
pub open spec fn act_keys(s: StateV, k: &Vec<(u64, usize)>, q: Seq<usize>, n: int) -> bool { k@.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] k@[i] == act_key(s, q[i]) }
pub open spec fn act_sorted(s: StateV, q: Seq<usize>) -> bool {
    &&& q.no_duplicates() && forall|i: usize| #[trigger] q.contains(i) <==> i < s.validators.len() && sp_can_activate(s, i as int)
    &&& forall|i: int, j: int| 0 <= i < j < q.len() ==> key_le(act_key(s, #[trigger] q[i]), act_key(s, #[trigger] q[j]))
}
pub proof fn lemma_act_sorted(s: StateV, q0: Seq<usize>, q: Seq<usize>, keys: Seq<(u64, usize)>, perm: Seq<int>)
    requires q0 == act_list(s, s.validators.len() as int), s.validators.len() <= usize::MAX, keys.len() == q0.len(), forall|i: int| 0 <= i < q0.len() ==> #[trigger] keys[i] == act_key(s, q0[i]),
        q.len() == q0.len(), perm.len() == q0.len(), perm.no_duplicates(), forall|i: int| 0 <= i < perm.len() ==> 0 <= #[trigger] perm[i] < q0.len() && q[i] == q0[perm[i]],
        forall|i: int, j: int| 0 <= i < j < perm.len() ==> key_le(keys[#[trigger] perm[i]], keys[#[trigger] perm[j]]), q0.to_multiset() == q.to_multiset(),
    ensures act_sorted(s, q)
{
    lemma_act_list(s, s.validators.len() as int);
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies key_le(act_key(s, #[trigger] q[i]), act_key(s, #[trigger] q[j])) by { let a = perm[i]; let b = perm[j]; assert(keys[a] == act_key(s, q0[a]) && keys[b] == act_key(s, q0[b])); assert(q[i] == q0[a] && q[j] == q0[b]); }
    assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j implies q[i] != q[j] by { let a = perm[i]; let b = perm[j]; assert(a != b); assert(q[i] == q0[a] && q[j] == q0[b]); }
    assert forall|i: usize| #[trigger] q.contains(i) <==> i < s.validators.len() && sp_can_activate(s, i as int) by {
        q0.to_multiset_ensures(); q.to_multiset_ensures();
        assert(q0.contains(i) <==> q0.to_multiset().count(i) > 0); assert(q.contains(i) <==> q.to_multiset().count(i) > 0);
    }
}
pub proof fn lemma_activated(s: StateV, q: Seq<usize>, m: int)
    requires act_sorted(s, q), 0 <= m <= q.len(), s.validators.len() <= usize::MAX
    ensures forall|i: int| 0 <= i < s.validators.len() ==> (#[trigger] q.take(m).contains(i as usize) <==> sp_can_activate(s, i) && sp_rank(s, i, s.validators.len() as int) < m)
{
    let n = s.validators.len() as int;
    assert forall|k: int| 0 <= k < q.len() implies (#[trigger] q[k]) < n by { assert(q.contains(q[k])); }
    assert forall|k: int| 0 <= k < q.len() implies sp_rank(s, #[trigger] q[k] as int, n) == k by {
        let i = q[k] as int; let set = q.take(k).to_set();
        assert forall|j: int| 0 <= j < n implies (#[trigger] set.contains(j as usize) <==> sp_ahead(s, j, i)) by {
            if set.contains(j as usize) {
                let p = choose|p: int| 0 <= p < k && #[trigger] q.take(k)[p] == j as usize; assert(q[p] == j as usize); assert(q.contains(j as usize)); assert(key_le(act_key(s, q[p]), act_key(s, q[k]))); assert(q[p] != q[k]);
            }
            if sp_ahead(s, j, i) {
                assert(q.contains(j as usize)); let p = choose|p: int| 0 <= p < q.len() && q[p] == j as usize;
                if p > k { assert(key_le(act_key(s, q[k]), act_key(s, q[p]))); }
                assert(p < k); assert(q.take(k)[p] == j as usize);
            }
        }
        lemma_rank_count(s, i, set, n); lemma_count_seq(q, k, n);
    }
    assert forall|i: int| 0 <= i < n implies (#[trigger] q.take(m).contains(i as usize) <==> sp_can_activate(s, i) && sp_rank(s, i, n) < m) by {
        if q.take(m).contains(i as usize) { let p = choose|p: int| 0 <= p < m && #[trigger] q.take(m)[p] == i as usize; assert(q[p] == i as usize); assert(q.contains(i as usize)); assert(sp_rank(s, q[p] as int, n) == p); }
        if sp_can_activate(s, i) && sp_rank(s, i, n) < m { assert(q.contains(i as usize)); let p = choose|p: int| 0 <= p < q.len() && q[p] == i as usize; assert(sp_rank(s, q[p] as int, n) == p); assert(q.take(m)[p] == i as usize); }
    }
}
pub open spec fn with_activated(s: StateV, done: Seq<usize>, c: Context) -> StateV { StateV { validators: Seq::new(s.validators.len(), |i: int| if done.contains(i as usize) { sp_set_activation(s, i, c) } else { s.validators[i] }), ..s } }
@@fn get_validator_activation_churn_limit forks=deneb
requires wf_ctx(*context), wf_len(state@)
ensures r as int == sp_activation_limit(state@, *context)
@@fn process_registry_updates forks=..deneb
requires reg_inv(old(state)@, *context, 2 * pow2_60())
ensures r is Ok, final(state)@ == sp_registry(old(state)@, *context)
@ start
let ghost s0 = state@; let ghost n = state@.validators.len() as int; let ghost s1 = sp_registry_first(s0, n, *context);
proof { lemma_epoch_bound(s0.slot as int, *context); }
@ loop 0
invariant state@ == sp_registry_first(s0, __i0 as int, *context), reg_inv(state@, *context, reg_bound(__i0 as int)), state@.validators.len() == n, state@.slot == s0.slot, n == __n0,
@ loopstart 0
let ghost t1 = state@;
proof { lemma_registry_step(t1, __i0 as int, *context); }
@ then 1
proof { assert(state@.validators =~= sp_stamp(t1, i as int, *context).validators); }
@ loopend 0
proof { if state@.validators.len() != n || !(state@.validators =~= sp_eject(sp_stamp(t1, i as int, *context), i as int, *context).validators) { assert(false); } }
@ loop 1
invariant state@ == s1, n == s1.validators.len(), __acc1@ == act_list(s1, __i1 as int),
@ before 2
proof { lemma_act_list(s1, n); }
@ loop 2
invariant state@ == s1, n == s1.validators.len(), activation_queue@ == act_list(s1, n), act_keys(s1, &__keys2, activation_queue@, __i2 as int), forall|k: int| 0 <= k < activation_queue@.len() ==> (#[trigger] activation_queue@[k]) < n,
@ after 2
let ghost q0 = activation_queue@; let ghost ks = __keys2@;
@ let __perm 0
proof { lemma_act_sorted(s1, q0, activation_queue@, ks, __perm@); }
@ before 3
let ghost q = activation_queue@;
proof { assert(state@.validators =~= with_activated(s1, q.take(0), *context).validators); assert(__tk3 as int == vmin(sp_activation_limit(s1, *context), q.len() as int)); }
@ loop 3
invariant n == s1.validators.len(), __i3 <= __tk3, __tk3 as int == vmin(sp_activation_limit(s1, *context), q.len() as int), activation_queue@ == q, act_sorted(s1, q), state@ == with_activated(s1, q.take(__i3 as int), *context), activation_exit_epoch as int == sp_activation_exit_epoch(sp_cur(s1, *context), *context),
@ loopstart 3
proof { lemma_reach(q, __i3 as int); assert(q.contains(q[__i3 as int])); }
@ loopend 3
proof { assert(state@.validators =~= with_activated(s1, q.take(__i3 as int), *context).validators); }
@ after 3
proof {
    lemma_activated(s1, q, __tk3 as int); lemma_activated(s1, q, q.len() as int);
    let f = sp_activate(s1, *context).validators; let m = __tk3 as int;
    let w = with_activated(s1, q.take(m), *context).validators; assert(state@.validators == w);
    assert forall|i: int| 0 <= i < n implies w[i] == f[i] by {  assert(q.take(q.len() as int) == q); assert(q.contains(i as usize) <==> sp_can_activate(s1, i)); assert(q.take(m).contains(i as usize) <==> sp_can_activate(s1, i) && sp_rank(s1, i, n) < m); assert(q.take(q.len() as int).contains(i as usize) <==> sp_can_activate(s1, i) && sp_rank(s1, i, n) < q.len()); }
    assert(state@.validators =~= sp_activate(s1, *context).validators);
}
@@fn process_registry_updates forks=electra
requires reg_inv(old(state)@, *context, 2 * pow2_60())
ensures r is Ok, final(state)@ == sp_registry(old(state)@, *context)
@ start
let ghost s0 = state@; let ghost n = state@.validators.len() as int; let ghost s1 = sp_registry_first(s0, n, *context);
proof { lemma_epoch_bound(s0.slot as int, *context); }
@ loop 0
invariant state@ == sp_registry_first(s0, __i0 as int, *context), reg_inv(state@, *context, reg_bound(__i0 as int)), state@.validators.len() == n, state@.slot == s0.slot, n == __n0,
@ loopstart 0
let ghost t1 = state@;
proof { lemma_registry_step(t1, __i0 as int, *context); }
@ then 1
proof { assert(state@.validators =~= sp_stamp(t1, i as int, *context).validators); }
@ loopend 0
proof { if state@.validators.len() != n || !(state@.validators =~= sp_eject(sp_stamp(t1, i as int, *context), i as int, *context).validators) { assert(false); } }
@ before 1
proof { assert(state@.validators =~= part_activated(s1, 0, *context).validators); }
@ loop 1
invariant n == s1.validators.len(), n == __n1, state@ == part_activated(s1, __i1 as int, *context), activation_epoch as int == sp_activation_exit_epoch(sp_cur(s1, *context), *context),
@ loopend 1
proof { assert(state@.validators =~= part_activated(s1, __i1 as int, *context).validators); }
@ after 1
proof { assert(state@.validators =~= sp_activate(s1, *context).validators); }
@@vspec forks=electra
pub open spec fn part_activated(s: StateV, k: int, c: Context) -> StateV { StateV { validators: Seq::new(s.validators.len(), |i: int| if i < k && sp_can_activate(s, i) { sp_set_activation(s, i, c) } else { s.validators[i] }), ..s } }
@@test registry props=C12 n=60
let c = gen_ctx(g); let n = g.range(1, 30) as usize; let mut st = gen_state_n(g, &c, n); let e = epoch_of(&st, &c);
for i in 0..n { let v = &mut st.validators[i];
    if g.chance(40) { v.activation_epoch = u64::MAX; v.exit_epoch = u64::MAX; v.activation_eligibility_epoch = match g.below(3) { 0 => u64::MAX, _ => g.below(4) }; v.effective_balance = g.pick(&[32, 32, 31, 33]) * GWEI; }
    if g.chance(20) { v.effective_balance = g.pick(&[16, 15, 17]) * GWEI; } }
st.finalized_checkpoint.epoch = match g.below(3) { 0 => e, 1 => g.below(4), _ => 3 };
let s = st.cv(); let cc = c.cv();
let r = sp::process_registry_updates(&mut st, &c);
chk!(r.is_ok(), "process_registry_updates failed at epoch {e}");
seq_st!(st, sp_registry(s, cc), "process_registry_updates at epoch {e}, finalized {}", s.finalized_checkpoint.epoch);
