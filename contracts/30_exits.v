@@spec
// latest exit epoch among the first n validators that have one; 0 if none has
pub open spec fn sp_max_exit(vs: Seq<Validator>, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { vmax(sp_max_exit(vs, n - 1), if vs[n - 1].exit_epoch as int == far_future() { 0 } else { vs[n - 1].exit_epoch as int }) }
}
// number of validators among the first n that exit in epoch e
pub open spec fn sp_exit_count(vs: Seq<Validator>, e: int, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { sp_exit_count(vs, e, n - 1) + (if vs[n - 1].exit_epoch as int == e { 1 as int } else { 0 }) }
}
pub open spec fn sp_activation_exit_epoch(e: int, c: Context) -> int { e + 1 + c.max_seed_lookahead as int }

@@spec forks=..deneb
pub open spec fn sp_exit_queue_start(s: StateV, c: Context) -> int {
    vmax(sp_max_exit(s.validators, s.validators.len() as int), sp_activation_exit_epoch(sp_cur(s, c), c))
}
// first epoch at or after the end of the exit queue that has churn left
pub open spec fn sp_exit_epoch(s: StateV, c: Context) -> int {
    sp_exit_queue_start(s, c) + (if sp_exit_count(s.validators, sp_exit_queue_start(s, c), s.validators.len() as int) >= sp_churn_limit(s, c) { 1 as int } else { 0 })
}
pub open spec fn sp_set_exit(v: Validator, e: int, c: Context) -> Validator {
    Validator { exit_epoch: e as u64, withdrawable_epoch: (e + c.min_validator_withdrawability_delay as int) as u64, ..v }
}
pub open spec fn sp_initiate_exit(s: StateV, i: int, c: Context) -> StateV {
    if s.validators[i].exit_epoch as int != far_future() { s }
    else { StateV { validators: s.validators.update(i, sp_set_exit(s.validators[i], sp_exit_epoch(s, c), c)), ..s } }
}

@@vspec
pub open spec fn seq_max(q: Seq<u64>, k: int) -> int
    decreases k
{
    if k <= 0 { 0 } else { vmax(seq_max(q, k - 1), q[k - 1] as int) }
}
pub proof fn lemma_seq_max_push(q: Seq<u64>, x: u64, k: int)
    requires 0 <= k <= q.len()
    ensures seq_max(q.push(x), k) == seq_max(q, k)
    decreases k
{
    if k > 0 { lemma_seq_max_push(q, x, k - 1); }
}
pub proof fn lemma_max_exit_bound(vs: Seq<Validator>, n: int, b: int)
    requires 0 <= n <= vs.len(), wf_exits(vs, b), b > 0
    ensures 0 <= sp_max_exit(vs, n) < b
    decreases n
{
    if n > 0 { lemma_max_exit_bound(vs, n - 1, b); let v = vs[n - 1]; }
}
pub proof fn lemma_exit_count_bound(vs: Seq<Validator>, e: int, n: int)
    requires 0 <= n <= vs.len()
    ensures 0 <= sp_exit_count(vs, e, n) <= n
    decreases n
{
    if n > 0 { lemma_exit_count_bound(vs, e, n - 1); }
}
@@fn initiate_validator_exit forks=..deneb
requires wf_ctx(*context), wf_len(old(state)@), wf_exits(old(state)@.validators, 4 * pow2_60()), index < old(state)@.validators.len()
ensures r is Ok, final(state)@ == sp_initiate_exit(old(state)@, index as int, *context)
@ start
proof { lemma_epoch_bound(state@.slot as int, *context); lemma_max_exit_bound(state@.validators, state@.validators.len() as int, 4 * pow2_60()); }
@ loop 0
invariant seq_max(__acc0@, __acc0@.len() as int) == sp_max_exit(state@.validators, __i0 as int),
@ then 1
proof { lemma_seq_max_push(__acc0@, state@.validators[__c0 as int].exit_epoch, __acc0@.len() as int); }
@ let exit_epochs 0
let ghost q0 = exit_epochs@;
@ before 1
proof { lemma_seq_max_push(q0, exit_epochs@[q0.len() as int], q0.len() as int); assert(exit_epochs@ == q0.push(exit_epochs@[q0.len() as int])); }
@ loop 1
invariant __acc1 is None <==> __i1 == 0, __acc1 matches Some(m) ==> *m as int == seq_max(exit_epochs@, __i1 as int),
@ loop 2
invariant __acc2 as int == sp_exit_count(state@.validators, exit_queue_epoch as int, __i2 as int), __acc2 <= __i2,
@ tail
proof { assert(state@.validators =~= sp_initiate_exit(old(state)@, index as int, *context).validators); }
@@test exits props=C08 forks=..deneb n=200
let c = gen_ctx(g); let mut st = gen_state(g, &c); let s0 = st.cv(); let k = g.range(1, 6);
eqv!(sp::get_validator_churn_limit(&st, &c) as int, sp_churn_limit(s0, c.cv()), "get_validator_churn_limit");
for _ in 0..k { let i = g.idx(st.validators.len()); let s = st.cv();
    sp::initiate_validator_exit(&mut st, i, &c).map_err(|e| format!("initiate_validator_exit({i}): {e}"))?;
    seq_st!(st, sp_initiate_exit(s, i as int, c.cv()), "initiate_validator_exit({i}) at slot {}", st.slot); }
