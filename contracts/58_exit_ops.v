@@spec
// ---- voluntary exits ----
pub open spec fn sp_exit_valid(s: StateV, x: SignedVoluntaryExit, c: Context) -> bool {
    let m = x.message; let e = sp_cur(s, c);
    (m.validator_index as int) < s.validators.len() as int && sp_exit_ready(s.validators[m.validator_index as int], m.epoch as int, e, c) && sp_exit_unclaimed(s, m.validator_index as int)
    && sig_valid(s.validators[m.validator_index as int].public_key, sp_signing_root(htr(m), sp_exit_domain(s, m.epoch as int, c)), x.signature)
}
pub open spec fn sp_exit_ready(v: Validator, from: int, e: int, c: Context) -> bool {
    sp_is_active(v, e) && v.exit_epoch as int == far_future() && from <= e && sp_exit_since(v) + c.shard_committee_period as int <= e
}
@@spec forks=phase0,deneb,electra
pub open spec fn sp_exit_since(v: Validator) -> int { v.activation_epoch as int }
@@spec forks=altair,bellatrix,capella unless=K16
pub open spec fn sp_exit_since(v: Validator) -> int { v.activation_epoch as int }
@@spec forks=altair,bellatrix,capella known=K16
pub open spec fn sp_exit_since(v: Validator) -> int { v.activation_eligibility_epoch as int }
@@spec forks=..capella
pub open spec fn sp_exit_domain(s: StateV, epoch: int, c: Context) -> Seq<u8> { sp_state_domain(s, DomainType::VoluntaryExit, epoch) }
@@spec forks=deneb+
pub open spec fn sp_exit_domain(s: StateV, epoch: int, c: Context) -> Seq<u8> { sp_domain(DomainType::VoluntaryExit, c.capella_fork_version, s.genesis_validators_root) }
@@spec forks=..deneb
pub open spec fn sp_exit_unclaimed(s: StateV, i: int) -> bool { true }
@@spec forks=electra
pub open spec fn sp_exit_unclaimed(s: StateV, i: int) -> bool { sp_pending_withdraw(s, i) == 0 }
@@spec forks=capella+
pub open spec fn sp_change_valid(s: StateV, x: SignedBlsToExecutionChange, c: Context) -> bool {
    let m = x.message; let i = m.validator_index as int;
    i < s.validators.len() as int && b32(s.validators[i].withdrawal_credentials)[0] == 0
    && b32(s.validators[i].withdrawal_credentials).subrange(1, 32) == b32(sha256(pkb(m.from_bls_public_key))).subrange(1, 32)
    && sig_valid(m.from_bls_public_key, sp_signing_root(htr(m), sp_domain(DomainType::BlsToExecutionChange, c.genesis_fork_version, s.genesis_validators_root)), x.signature)
}
pub open spec fn sp_address_creds(a: ExecutionAddress) -> Bytes32 { Bytes32 { data: arr32((seq1(1) + Seq::new(11 as nat, |k: int| 0u8)) + xb(a)) } }
pub open spec fn sp_change(s: StateV, m: BlsToExecutionChange) -> StateV {
    let i = m.validator_index as int; let v = s.validators[i];
    StateV { validators: s.validators.update(i, Validator { withdrawal_credentials: sp_address_creds(m.to_execution_address), ..v }), ..s }
}
@@vspec
// an active validator became eligible at some time
pub open spec fn elig_set(vs: Seq<Validator>, e: int) -> bool { forall|i: int| 0 <= i < vs.len() && sp_is_active(#[trigger] vs[i], e) ==> vs[i].activation_eligibility_epoch < pow2_60() }
@@vspec forks=..deneb
pub open spec fn exit_pre(s: StateV, i: int, c: Context) -> bool { wf_ctx(c) && wf_len(s) && wf_exits(s.validators, 4 * pow2_60()) && elig_set(s.validators, sp_cur(s, c)) }
@@vspec forks=electra
pub open spec fn exit_pre(s: StateV, i: int, c: Context) -> bool { wf_ctx(c) && wf_len(s) && wf_exits(s.validators, 4 * pow2_60()) && wf_eff(s.validators) && wf_churn(s, 4 * pow2_60()) && out_ok(s, i) }
@@fn process_voluntary_exit
requires exit_pre(old(state)@, signed_voluntary_exit.message.validator_index as int, *context)
ensures r is Ok <==> sp_exit_valid(old(state)@, *signed_voluntary_exit, *context),
    final(state)@ == (if r is Ok { sp_initiate_exit(old(state)@, signed_voluntary_exit.message.validator_index as int, *context) } else { old(state)@ })
@ start
proof { lemma_epoch_bound(state@.slot as int, *context); }
@@fn process_bls_to_execution_change forks=capella+
ensures r is Ok <==> sp_change_valid(old(state)@, *signed_address_change, *context),
    final(state)@ == (if r is Ok { sp_change(old(state)@, signed_address_change.message) } else { old(state)@ })
@ start
let ghost s0 = state@;
let ghost m0 = signed_address_change.message;
proof { if m0.validator_index < s0.validators.len() { assert(s0.validators.update(m0.validator_index as int, s0.validators[m0.validator_index as int]) =~= s0.validators); } }
@ tail
proof {
    assert(b32(*withdrawal_credentials) =~= (seq1(1) + Seq::new(11 as nat, |k: int| 0u8)) + xb(m0.to_execution_address));
    assert(*withdrawal_credentials == sp_address_creds(m0.to_execution_address));
}
@@rust forks=..deneb
pub fn gen_claims(_g: &mut G, _st: &mut RealBeaconState, _i: usize) {}
@@rust forks=electra
pub fn gen_claims(g: &mut G, st: &mut RealBeaconState, i: usize) {
    st.pending_partial_withdrawals.clear();
    for _ in 0..g.below(3) { let k = if g.chance(15) { i } else { g.idx(st.validators.len()) }; st.pending_partial_withdrawals.push(ec::electra::PendingPartialWithdrawal { index: k, amount: g.below(3), withdrawable_epoch: g.below(100) }); }
}
@@test voluntary_exit props=C16 n=150
let mut c = gen_ctx(g); c.shard_committee_period = g.below(4); c.capella_fork_version = g.bytes(); let mut st = gen_state(g, &c); let cc = c.cv(); let n = st.validators.len(); let i = g.idx(n); let e = epoch_of(&st, &c);
for k in 0..n { st.validators[k].public_key = key(k).pk; if st.validators[k].activation_epoch <= e { st.validators[k].activation_eligibility_epoch = g.below(st.validators[k].activation_epoch + 1); } }
if g.chance(80) { let v = &mut st.validators[i]; v.activation_epoch = g.below(e + 1); if g.chance(30) { v.activation_epoch = e.saturating_sub(c.shard_committee_period); } v.activation_eligibility_epoch = if g.bool() { v.activation_epoch } else { g.below(v.activation_epoch + 1) }; if g.chance(90) { v.exit_epoch = u64::MAX; v.withdrawable_epoch = u64::MAX; } }
gen_claims(g, &mut st, i);
let mut x = RealSignedVoluntaryExit::default(); x.message.validator_index = if g.chance(5) { n + g.idx(2) } else { i }; x.message.epoch = match g.below(4) { 0 => e, 1 => e + 1, 2 => st.fork.epoch.min(e), _ => g.below(e + 1) };
let s = st.cv();
let d = match g.below(8) { 0 => sp_state_domain(s, DomainType::Deposit, x.message.epoch as int), 1 => sp_domain(DomainType::VoluntaryExit, c.genesis_fork_version, s.genesis_validators_root), 2 => sp_state_domain(s, DomainType::VoluntaryExit, sp_cur(s, cc)), 3 => sp_domain(DomainType::VoluntaryExit, c.capella_fork_version, s.genesis_validators_root), _ => sp_exit_domain(s, x.message.epoch as int, cc) };
x.signature = key(if g.chance(5) { i + 1 } else { i }).sk.sign(sp_signing_root(x.message.cv().htr1(), d).0);
let m = x.cv(); let ok = sp_exit_valid(s, m, cc); g.note("exit accepted", ok);
let r = sp::process_voluntary_exit(&mut st, &x, &c).is_ok();
eqv!(r, ok, "process_voluntary_exit of {i} at epoch {e}, exit epoch {}, shard committee period {}", x.message.epoch, c.shard_committee_period);
seq_st!(st, if ok { sp_initiate_exit(s, i as int, cc) } else { s }, "process_voluntary_exit of {i} at epoch {e}");
@@test credential_change props=C16 forks=capella+ n=100
let mut c = gen_ctx(g); c.genesis_fork_version = g.bytes(); let mut st = gen_state(g, &c); let cc = c.cv(); let n = st.validators.len(); let i = g.idx(n); let k = key(g.idx(9));
let mut h = sha256(pkb(k.pk.cv())).data; h[0] = if g.chance(10) { 1 } else { 0 }; if g.chance(15) { let j = g.idx(32); h[j] ^= 1; }
st.validators[i].withdrawal_credentials = Bytes32 { data: h }.rv();
let mut x = RealSignedBlsToExecutionChange::default(); x.message.validator_index = if g.chance(5) { n + g.idx(2) } else { i }; x.message.from_bls_public_key = k.pk.clone(); for j in 0..20 { x.message.to_execution_address[j] = g.below(256) as u8; }
let s = st.cv();
let d = match g.below(8) { 0 => sp_state_domain(s, DomainType::BlsToExecutionChange, sp_cur(s, cc)), 1 => sp_domain(DomainType::VoluntaryExit, c.genesis_fork_version, s.genesis_validators_root), _ => sp_domain(DomainType::BlsToExecutionChange, c.genesis_fork_version, s.genesis_validators_root) };
x.signature = if g.chance(5) { bad_sig(g) } else { k.sk.sign(sp_signing_root(x.message.cv().htr1(), d).0) };
let m = x.cv(); let ok = sp_change_valid(s, m, cc); g.note("change accepted", ok);
let r = sp::process_bls_to_execution_change(&mut st, &x, &c).is_ok();
eqv!(r, ok, "process_bls_to_execution_change of {i} with credentials {:?}", h); seq_st!(st, if ok { sp_change(s, m.message) } else { s }, "process_bls_to_execution_change of {i}");
