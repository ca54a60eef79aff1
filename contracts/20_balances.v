@@spec
pub open spec fn sp_increase_balance(s: StateV, i: int, d: int) -> StateV { StateV { balances: s.balances.update(i, (s.balances[i] as int + d) as u64), ..s } }
pub open spec fn sp_decrease_balance(s: StateV, i: int, d: int) -> StateV { StateV { balances: s.balances.update(i, vsubsat(s.balances[i] as int, d) as u64), ..s } }
// sum of the effective balances of the validators in `set` among the first n
pub open spec fn sp_set_bal(vs: Seq<Validator>, set: Set<usize>, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { sp_set_bal(vs, set, n - 1) + (if set.contains((n - 1) as usize) { vs[n - 1].effective_balance as int } else { 0 }) }
}
pub open spec fn sp_total_balance(s: StateV, set: Set<usize>, c: Context) -> int {
    vmax(sp_set_bal(s.validators, set, s.validators.len() as int), c.effective_balance_increment as int)
}

@@fn increase_balance
requires index < old(state)@.balances.len(), old(state)@.balances[index as int] + delta <= u64::MAX
ensures final(state)@ == sp_increase_balance(old(state)@, index as int, delta as int)
@@fn decrease_balance
requires index < old(state)@.balances.len()
ensures final(state)@ == sp_decrease_balance(old(state)@, index as int, delta as int)

@@vspec
pub open spec fn in_range(set: Set<usize>, n: int) -> bool { forall|x: usize| set.contains(x) ==> x < n }
pub open spec fn seq_bal(vs: Seq<Validator>, q: Seq<usize>, k: int) -> int
    decreases k
{
    if k <= 0 { 0 } else { seq_bal(vs, q, k - 1) + vs[q[k - 1] as int].effective_balance as int }
}
pub proof fn lemma_set_bal_insert(vs: Seq<Validator>, a: Set<usize>, b: Set<usize>, x: usize, n: int)
    requires 0 <= n <= vs.len(), vs.len() <= usize::MAX, !a.contains(x), forall|y: usize| b.contains(y) <==> (a.contains(y) || y == x)
    ensures sp_set_bal(vs, b, n) == sp_set_bal(vs, a, n) + (if x < n { vs[x as int].effective_balance as int } else { 0 })
    decreases n
{
    if n > 0 { lemma_set_bal_insert(vs, a, b, x, n - 1); }
}
pub proof fn lemma_set_bal_empty(vs: Seq<Validator>, a: Set<usize>, n: int)
    requires forall|y: usize| !a.contains(y)
    ensures sp_set_bal(vs, a, n) == 0
    decreases n
{
    if n > 0 { lemma_set_bal_empty(vs, a, n - 1); }
}
pub proof fn lemma_set_bal_le(vs: Seq<Validator>, a: Set<usize>, n: int)
    requires 0 <= n <= vs.len()
    ensures 0 <= sp_set_bal(vs, a, n) <= sp_eff_sum(vs, n)
    decreases n
{
    if n > 0 { lemma_set_bal_le(vs, a, n - 1); }
}
pub proof fn lemma_set_bal_ext(vs: Seq<Validator>, a: Set<usize>, b: Set<usize>, n: int)
    requires 0 <= n <= vs.len() <= usize::MAX, forall|i: int| 0 <= i < n ==> (#[trigger] a.contains(i as usize) <==> b.contains(i as usize))
    ensures sp_set_bal(vs, a, n) == sp_set_bal(vs, b, n)
    decreases n
{
    if n > 0 {
        assert(a.contains((n - 1) as usize) <==> b.contains((n - 1) as usize));
        lemma_set_bal_ext(vs, a, b, n - 1);
    }
}
pub proof fn lemma_seq_bal(vs: Seq<Validator>, q: Seq<usize>, k: int)
    requires 0 <= k <= q.len(), q.no_duplicates(), vs.len() <= usize::MAX, forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]) < vs.len()
    ensures seq_bal(vs, q, k) == sp_set_bal(vs, q.take(k).to_set(), vs.len() as int)
    decreases k
{
    if k > 0 {
        lemma_seq_bal(vs, q, k - 1);
        let a = q.take(k - 1).to_set();
        let b = q.take(k).to_set();
        assert(q.take(k)[k - 1] == q[k - 1]);
        assert forall|y: usize| b.contains(y) <==> (a.contains(y) || y == q[k - 1]) by {
            if b.contains(y) { let j = choose|j: int| 0 <= j < k && #[trigger] q.take(k)[j] == y; if j < k - 1 { assert(q.take(k - 1)[j] == y); } }
            if a.contains(y) { let j = choose|j: int| 0 <= j < k - 1 && #[trigger] q.take(k - 1)[j] == y; assert(q.take(k)[j] == y); }
            if y == q[k - 1] { assert(q.take(k)[k - 1] == y); }
        }
        if a.contains(q[k - 1]) { let j = choose|j: int| 0 <= j < k - 1 && #[trigger] q.take(k - 1)[j] == q[k - 1]; assert(q[j] == q[k - 1]); }
        lemma_set_bal_insert(vs, a, b, q[k - 1], vs.len() as int);
    } else {
        assert forall|y: usize| !q.take(0).to_set().contains(y) by {}
        lemma_set_bal_empty(vs, q.take(0).to_set(), vs.len() as int);
    }
}
pub proof fn lemma_active_set(vs: Seq<Validator>, e: int, set: Set<usize>, n: int)
    requires 0 <= n <= vs.len() <= usize::MAX, forall|i: int| 0 <= i < n ==> (#[trigger] set.contains(i as usize) <==> sp_is_active(vs[i], e))
    ensures sp_set_bal(vs, set, n) == sp_active_bal(vs, e, n)
    decreases n
{
    if n > 0 {
        assert(set.contains((n - 1) as usize) <==> sp_is_active(vs[n - 1], e));
        lemma_active_set(vs, e, set, n - 1);
    }
}
@@fn get_total_balance
requires wf_eff(state@.validators), state@.validators.len() < pow2_40(), in_range(indices@, state@.validators.len() as int)
ensures r is Ok, r matches Ok(x) ==> x as int == sp_total_balance(state@, indices@, *context)
@ before 0
proof { assert forall|i: int| 0 <= i < __s0@.len() implies (#[trigger] __s0@[i]) < state@.validators.len() by { assert(indices@.contains(__s0@[i])); } }
@ loop 0
invariant __acc0 as int == seq_bal(state@.validators, __s0@, __i0 as int), __ok0,
@ loopstart 0
proof {
    lemma_seq_bal(state@.validators, __s0@, __i0 as int + 1);
    lemma_set_bal_le(state@.validators, __s0@.take(__i0 as int + 1).to_set(), state@.validators.len() as int);
}
@ after 0
proof {
    lemma_seq_bal(state@.validators, __s0@, __s0@.len() as int);
    assert(__s0@.take(__s0@.len() as int) == __s0@);
    assert forall|i: int| 0 <= i < state@.validators.len() implies (#[trigger] __s0@.to_set().contains(i as usize) <==> indices@.contains(i as usize)) by {
        assert(__s0@.contains(i as usize) <==> indices@.contains(i as usize));
    }
    lemma_set_bal_ext(state@.validators, __s0@.to_set(), indices@, state@.validators.len() as int);
}
@@fn get_total_active_balance
requires wf_ctx(*context), wf_eff(state@.validators), state@.validators.len() < pow2_40()
ensures r is Ok, r matches Ok(x) ==> x as int == sp_total_active_balance(state@, *context)
@ tail
proof {
    let e = sp_cur(state@, *context);
    let n = state@.validators.len() as int;
    lemma_active_props(state@.validators, e, n);
    assert forall|i: int| 0 <= i < n implies (#[trigger] indices@.to_set().contains(i as usize) <==> sp_is_active(state@.validators[i], e)) by {
        if indices@.contains(i as usize) { let k = choose|k: int| 0 <= k < indices@.len() && indices@[k] == i as usize; assert(sp_is_active(state@.validators[indices@[k] as int], e)); }
    }
    assert forall|x: usize| indices@.to_set().contains(x) implies x < n by { let k = choose|k: int| 0 <= k < indices@.len() && indices@[k] == x; }
    lemma_active_set(state@.validators, e, indices@.to_set(), n);
}
@@test balances props=C07 n=200
let c = gen_ctx(g); let mut st = gen_state(g, &c); let i = g.idx(st.validators.len()); let d = match g.below(4) { 0 => st.balances[i], 1 => st.balances[i] + g.below(3), 2 => g.below(100 * GWEI), _ => g.below(1 << 50) };
let s = st.cv(); let mut t = st.clone();
sp::increase_balance(&mut t, i, d); seq_st!(t, sp_increase_balance(s, i as int, d as int), "increase_balance({i}, {d})");
let mut t = st.clone();
sp::decrease_balance(&mut t, i, d); seq_st!(t, sp_decrease_balance(s, i as int, d as int), "decrease_balance({i}, {d})");
let set: std::collections::HashSet<usize> = (0..st.validators.len()).filter(|_| g.bool()).collect();
eqv!(sp::get_total_balance(&st, &set, &c).ok().map(|x| x as int), Some(sp_total_balance(s, set.cv(), c.cv())), "get_total_balance({set:?})");
eqv!(sp::get_total_active_balance(&st, &c).ok().map(|x| x as int), Some(sp_total_active_balance(s, c.cv())), "get_total_active_balance");
