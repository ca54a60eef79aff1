@@spec
// ---- deposits ----
// the first validator with a public key among the first n, or -1
pub open spec fn sp_first_key(vs: Seq<Validator>, k: BlsPublicKey, n: int) -> int
    decreases n
{
    if n <= 0 { -1 } else { let r = sp_first_key(vs, k, n - 1); if r >= 0 { r } else { if vs[n - 1].public_key == k { n - 1 } else { -1 } } }
}
pub open spec fn sp_deposit_signed(d: DepositData, c: Context) -> bool {
    sig_valid(d.public_key, sp_signing_root(htr(DepositMessage { public_key: d.public_key, withdrawal_credentials: d.withdrawal_credentials, amount: d.amount }), sp_domain(DomainType::Deposit, c.genesis_fork_version, zero_node())), d.signature)
}
pub open spec fn sp_new_validator(k: BlsPublicKey, w: Bytes32, e: int) -> Validator {
    Validator { public_key: k, withdrawal_credentials: w, effective_balance: e as u64, slashed: false, activation_eligibility_epoch: far_future() as u64, activation_epoch: far_future() as u64, exit_epoch: far_future() as u64, withdrawable_epoch: far_future() as u64 }
}
pub open spec fn sp_first_eff(amount: int, c: Context) -> int { vmin(amount - amount % (c.effective_balance_increment as int), c.max_effective_balance as int) }
@@spec forks=phase0
pub open spec fn sp_add_validator(s: StateV, k: BlsPublicKey, w: Bytes32, amount: u64, c: Context) -> StateV {
    StateV { validators: s.validators.push(sp_new_validator(k, w, sp_first_eff(amount as int, c))), balances: s.balances.push(amount), ..s }
}
@@spec forks=altair-deneb
pub open spec fn sp_add_validator(s: StateV, k: BlsPublicKey, w: Bytes32, amount: u64, c: Context) -> StateV {
    StateV { validators: s.validators.push(sp_new_validator(k, w, sp_first_eff(amount as int, c))), balances: s.balances.push(amount),
        previous_epoch_participation: s.previous_epoch_participation.push(0u8), current_epoch_participation: s.current_epoch_participation.push(0u8), inactivity_scores: s.inactivity_scores.push(0u64), ..s }
}
@@spec forks=electra
pub open spec fn sp_add_validator(s: StateV, k: BlsPublicKey, w: Bytes32, amount: u64) -> StateV {
    StateV { validators: s.validators.push(sp_new_validator(k, w, 0)), balances: s.balances.push(0u64),
        previous_epoch_participation: s.previous_epoch_participation.push(0u8), current_epoch_participation: s.current_epoch_participation.push(0u8), inactivity_scores: s.inactivity_scores.push(0u64),
        pending_balance_deposits: s.pending_balance_deposits.push(PendingBalanceDeposit { index: s.validators.len() as usize, amount: amount }), ..s }
}
@@spec forks=..deneb
pub open spec fn sp_apply_deposit(s: StateV, d: DepositData, c: Context) -> StateV {
    let i = sp_first_key(s.validators, d.public_key, s.validators.len() as int);
    if i >= 0 { sp_increase_balance(s, i, d.amount as int) } else { if sp_deposit_signed(d, c) { sp_add_validator(s, d.public_key, d.withdrawal_credentials, d.amount, c) } else { s } }
}
@@spec forks=electra
pub open spec fn sp_apply_deposit(s: StateV, d: DepositData, c: Context) -> StateV {
    let i = sp_first_key(s.validators, d.public_key, s.validators.len() as int);
    if i >= 0 {
        let t = StateV { pending_balance_deposits: s.pending_balance_deposits.push(PendingBalanceDeposit { index: i as usize, amount: d.amount }), ..s };
        if b32(d.withdrawal_credentials)[0] == 2 && sp_eth1_cred(s.validators[i]) && sp_deposit_signed(d, c) { sp_switch(t, i, c) } else { t }
    } else { if sp_deposit_signed(d, c) { sp_add_validator(s, d.public_key, d.withdrawal_credentials, d.amount) } else { s } }
}
@@spec
pub open spec fn sp_deposit_ok(s: StateV, d: Deposit) -> bool { branch_valid(htr(d.data), d.proof@, 33, s.eth1_deposit_index as int, s.eth1_data.deposit_root) }
pub open spec fn sp_deposit(s: StateV, d: Deposit, c: Context) -> StateV { sp_apply_deposit(StateV { eth1_deposit_index: (s.eth1_deposit_index as int + 1) as u64, ..s }, d.data, c) }
@@spec forks=electra
pub open spec fn sp_deposit_receipt(s: StateV, d: DepositReceipt, c: Context) -> StateV {
    sp_apply_deposit(StateV { deposit_receipts_start_index: if s.deposit_receipts_start_index as int == far_future() { d.index } else { s.deposit_receipts_start_index }, ..s },
        DepositData { public_key: d.public_key, withdrawal_credentials: d.withdrawal_credentials, amount: d.amount, signature: d.signature }, c)
}
@@vspec
pub proof fn lemma_first_key(vs: Seq<Validator>, k: BlsPublicKey, n: int)
    requires n <= vs.len() ensures -1 <= sp_first_key(vs, k, n) < vs.len() || n <= 0
    decreases n
{
    if n > 0 { lemma_first_key(vs, k, n - 1); }
}
// a later validator with the key does not count
pub proof fn lemma_first_stays(vs: Seq<Validator>, k: BlsPublicKey, i: int, n: int)
    requires i <= n, sp_first_key(vs, k, i) >= 0 ensures sp_first_key(vs, k, n) == sp_first_key(vs, k, i)
    decreases n - i
{
    if i < n { lemma_first_stays(vs, k, i, n - 1); }
}
@@vspec forks=..deneb
pub open spec fn found_key(a: Option<usize>, vs: Seq<Validator>, k: BlsPublicKey) -> bool { a matches Some(i) ==> sp_first_key(vs, k, vs.len() as int) == i && i < vs.len() }
pub open spec fn deposit_fits(s: StateV, k: BlsPublicKey, amount: int) -> bool { forall|i: int| 0 <= i < s.balances.len() ==> (#[trigger] s.balances[i]) + amount <= u64::MAX }
@@vspec forks=electra
pub open spec fn found_key(a: Option<(usize, &Validator)>, vs: Seq<Validator>, k: BlsPublicKey) -> bool { a matches Some(p) ==> sp_first_key(vs, k, vs.len() as int) == p.0 && p.0 < vs.len() && *p.1 == vs[p.0 as int] }
pub open spec fn deposit_fits(s: StateV, k: BlsPublicKey, amount: int) -> bool { true }
@@fn get_validator_from_deposit forks=..deneb
requires context.effective_balance_increment > 0
ensures r == sp_new_validator(public_key, withdrawal_credentials, sp_first_eff(amount as int, *context))
@ start
proof { assert(0 <= amount % context.effective_balance_increment <= amount) by (nonlinear_arith) requires context.effective_balance_increment > 0; }
@@fn get_validator_from_deposit forks=electra
ensures r == sp_new_validator(public_key, withdrawal_credentials, 0)
@@fn add_validator_to_registry forks=..deneb
requires context.effective_balance_increment > 0
ensures final(state)@ == sp_add_validator(old(state)@, public_key, withdrawal_credentials, amount, *context)
@@fn add_validator_to_registry forks=electra
ensures final(state)@ == sp_add_validator(old(state)@, public_key, withdrawal_credentials, amount)
@@fn is_valid_deposit_signature forks=electra
ensures r is Ok <==> sp_deposit_signed(DepositData { public_key: *public_key, withdrawal_credentials: withdrawal_credentials, amount: amount, signature: *signature }, *context)
@@fn apply_deposit forks=..deneb cinv=1
requires wf_ctx(*context), wf_len(old(state)@), deposit_fits(old(state)@, *public_key, amount as int)
ensures r is Ok, final(state)@ == sp_apply_deposit(old(state)@, DepositData { public_key: *public_key, withdrawal_credentials: *withdrawal_credentials, amount: amount, signature: *signature }, *context)
@ start
let ghost s0 = state@; let ghost vs = s0.validators; let ghost n = vs.len() as int;
@ loop 0
invariant state@ == s0, vs == s0.validators, n == vs.len(), __i0 <= vs.len(), __acc0 is None, sp_first_key(vs, *public_key, __i0 as int) < 0 && __p0 == __i0
ensures found_key(__acc0, vs, *public_key), __acc0 is None ==> sp_first_key(vs, *public_key, n) < 0,
decreases vs.len() - __i0
@ then 0
proof { assert(sp_first_key(vs, *public_key, __c0 as int + 1) == __c0); lemma_first_stays(vs, *public_key, __c0 as int + 1, n); }
@@fn apply_deposit forks=electra cinv=1
requires wf_ctx(*context), wf_len(old(state)@), deposit_fits(old(state)@, *public_key, amount as int)
ensures r is Ok, final(state)@ == sp_apply_deposit(old(state)@, DepositData { public_key: *public_key, withdrawal_credentials: *withdrawal_credentials, amount: amount, signature: *signature }, *context)
@ start
let ghost s0 = state@; let ghost vs = s0.validators; let ghost n = vs.len() as int;
@ loop 0
invariant state@ == s0, vs == s0.validators, n == vs.len(), __i0 <= vs.len(), __acc0 is None, sp_first_key(vs, *public_key, __i0 as int) < 0
ensures found_key(__acc0, vs, *public_key), __acc0 is None ==> sp_first_key(vs, *public_key, n) < 0,
decreases vs.len() - __i0
@ then 0
proof { assert(sp_first_key(vs, *public_key, __c0 as int + 1) == __c0); lemma_first_stays(vs, *public_key, __c0 as int + 1, n); }
@@fn process_deposit
requires wf_ctx(*context), wf_len(old(state)@), deposit_fits(old(state)@, deposit.data.public_key, deposit.data.amount as int), old(state)@.eth1_deposit_index < u64::MAX
ensures r is Ok <==> sp_deposit_ok(old(state)@, *deposit), r is Ok ==> final(state)@ == sp_deposit(old(state)@, *deposit, *context)
@@fn process_deposit_receipt forks=electra
requires wf_ctx(*context), wf_len(old(state)@), deposit_fits(old(state)@, deposit_receipt.public_key, deposit_receipt.amount as int)
ensures r is Ok, final(state)@ == sp_deposit_receipt(old(state)@, *deposit_receipt, *context)
@@spec
// ---- a block's operations: lists of one kind in order, each step on the state the one before left ----
@@spec
pub open spec fn sp_run_ps(s: StateV, q: Seq<ProposerSlashing>, n: int, c: Context) -> StateV
    decreases n
{
    if n <= 0 { s } else { let x = q[n - 1]; let r = sp_run_ps(s, q, n - 1, c); sp_proposer_slashing(r, x, c) }
}
pub open spec fn sp_run_ps_ok(s: StateV, q: Seq<ProposerSlashing>, n: int, c: Context) -> bool
    decreases n
{
    if n <= 0 { true } else { let x = q[n - 1]; sp_run_ps_ok(s, q, n - 1, c) && sp_proposer_slashing_ok(sp_run_ps(s, q, n - 1, c), x, c) }
}
@@vspec
pub open spec fn pre_ps(s: StateV, x: ProposerSlashing, c: Context) -> bool { wf_ops(s, c, kmax() - 8) && has_active(s, c) }
@@vspec
pub open spec fn pre_run_ps(s: StateV, q: Seq<ProposerSlashing>, c: Context) -> bool { forall|k: int| 0 <= k < q.len() && #[trigger] sp_run_ps_ok(s, q, k, c) ==> pre_ps(sp_run_ps(s, q, k, c), q[k], c) }
pub proof fn lemma_run_ps(s: StateV, q: Seq<ProposerSlashing>, k: int, n: int, c: Context)
    requires k <= n, !sp_run_ps_ok(s, q, k, c) ensures !sp_run_ps_ok(s, q, n, c)
    decreases n
{
    if k < n { lemma_run_ps(s, q, k, n - 1, c); }
}
@@spec
pub open spec fn sp_run_as(s: StateV, q: Seq<AttesterSlashing>, n: int, c: Context) -> StateV
    decreases n
{
    if n <= 0 { s } else { let x = q[n - 1]; let r = sp_run_as(s, q, n - 1, c); sp_attester_slashing(r, x, c) }
}
pub open spec fn sp_run_as_ok(s: StateV, q: Seq<AttesterSlashing>, n: int, c: Context) -> bool
    decreases n
{
    if n <= 0 { true } else { let x = q[n - 1]; sp_run_as_ok(s, q, n - 1, c) && sp_attester_slashing_ok(sp_run_as(s, q, n - 1, c), x, c) }
}
@@vspec
pub open spec fn pre_as(s: StateV, x: AttesterSlashing, c: Context) -> bool { wf_ops(s, c, slash_k()) && has_active(s, c) && x.attestation_1.attesting_indices@.len() <= 0x10_0000 }
@@vspec
pub open spec fn pre_run_as(s: StateV, q: Seq<AttesterSlashing>, c: Context) -> bool { forall|k: int| 0 <= k < q.len() && #[trigger] sp_run_as_ok(s, q, k, c) ==> pre_as(sp_run_as(s, q, k, c), q[k], c) }
pub proof fn lemma_run_as(s: StateV, q: Seq<AttesterSlashing>, k: int, n: int, c: Context)
    requires k <= n, !sp_run_as_ok(s, q, k, c) ensures !sp_run_as_ok(s, q, n, c)
    decreases n
{
    if k < n { lemma_run_as(s, q, k, n - 1, c); }
}
@@spec
pub open spec fn sp_run_at(s: StateV, q: Seq<Attestation>, n: int, c: Context) -> StateV
    decreases n
{
    if n <= 0 { s } else { let x = q[n - 1]; let r = sp_run_at(s, q, n - 1, c); sp_attestation(r, x, c) }
}
pub open spec fn sp_run_at_ok(s: StateV, q: Seq<Attestation>, n: int, c: Context) -> bool
    decreases n
{
    if n <= 0 { true } else { let x = q[n - 1]; sp_run_at_ok(s, q, n - 1, c) && sp_attestation_ok(sp_run_at(s, q, n - 1, c), x, c) }
}
@@vspec forks=phase0
pub open spec fn pre_at(s: StateV, x: Attestation, c: Context) -> bool { atn_pre(s, c) && s.previous_epoch_attestations.len() < pow2_40() && s.current_epoch_attestations.len() < pow2_40() }
@@vspec forks=altair-deneb
pub open spec fn pre_at(s: StateV, x: Attestation, c: Context) -> bool { atn_pre(s, c) && att_fit(s, c) }
@@vspec forks=electra
pub open spec fn pre_at(s: StateV, x: Attestation, c: Context) -> bool { atn_pre(s, c) && att_fit(s, c) && x.committee_bits@.len() <= 0x1_0000 }
@@vspec
pub open spec fn pre_run_at(s: StateV, q: Seq<Attestation>, c: Context) -> bool { forall|k: int| 0 <= k < q.len() && #[trigger] sp_run_at_ok(s, q, k, c) ==> pre_at(sp_run_at(s, q, k, c), q[k], c) }
pub proof fn lemma_run_at(s: StateV, q: Seq<Attestation>, k: int, n: int, c: Context)
    requires k <= n, !sp_run_at_ok(s, q, k, c) ensures !sp_run_at_ok(s, q, n, c)
    decreases n
{
    if k < n { lemma_run_at(s, q, k, n - 1, c); }
}
@@spec
pub open spec fn sp_run_dp(s: StateV, q: Seq<Deposit>, n: int, c: Context) -> StateV
    decreases n
{
    if n <= 0 { s } else { let x = q[n - 1]; let r = sp_run_dp(s, q, n - 1, c); sp_deposit(r, x, c) }
}
pub open spec fn sp_run_dp_ok(s: StateV, q: Seq<Deposit>, n: int, c: Context) -> bool
    decreases n
{
    if n <= 0 { true } else { let x = q[n - 1]; sp_run_dp_ok(s, q, n - 1, c) && sp_deposit_ok(sp_run_dp(s, q, n - 1, c), x) }
}
@@vspec
pub open spec fn pre_dp(s: StateV, x: Deposit, c: Context) -> bool { wf_ctx(c) && wf_len(s) && deposit_fits(s, x.data.public_key, x.data.amount as int) && s.eth1_deposit_index < u64::MAX }
@@vspec
pub open spec fn pre_run_dp(s: StateV, q: Seq<Deposit>, c: Context) -> bool { forall|k: int| 0 <= k < q.len() && #[trigger] sp_run_dp_ok(s, q, k, c) ==> pre_dp(sp_run_dp(s, q, k, c), q[k], c) }
pub proof fn lemma_run_dp(s: StateV, q: Seq<Deposit>, k: int, n: int, c: Context)
    requires k <= n, !sp_run_dp_ok(s, q, k, c) ensures !sp_run_dp_ok(s, q, n, c)
    decreases n
{
    if k < n { lemma_run_dp(s, q, k, n - 1, c); }
}
@@spec
pub open spec fn sp_run_ve(s: StateV, q: Seq<SignedVoluntaryExit>, n: int, c: Context) -> StateV
    decreases n
{
    if n <= 0 { s } else { let x = q[n - 1]; let r = sp_run_ve(s, q, n - 1, c); sp_initiate_exit(r, x.message.validator_index as int, c) }
}
pub open spec fn sp_run_ve_ok(s: StateV, q: Seq<SignedVoluntaryExit>, n: int, c: Context) -> bool
    decreases n
{
    if n <= 0 { true } else { let x = q[n - 1]; sp_run_ve_ok(s, q, n - 1, c) && sp_exit_valid(sp_run_ve(s, q, n - 1, c), x, c) }
}
@@vspec
pub open spec fn pre_ve(s: StateV, x: SignedVoluntaryExit, c: Context) -> bool { exit_pre(s, x.message.validator_index as int, c) }
@@vspec
pub open spec fn pre_run_ve(s: StateV, q: Seq<SignedVoluntaryExit>, c: Context) -> bool { forall|k: int| 0 <= k < q.len() && #[trigger] sp_run_ve_ok(s, q, k, c) ==> pre_ve(sp_run_ve(s, q, k, c), q[k], c) }
pub proof fn lemma_run_ve(s: StateV, q: Seq<SignedVoluntaryExit>, k: int, n: int, c: Context)
    requires k <= n, !sp_run_ve_ok(s, q, k, c) ensures !sp_run_ve_ok(s, q, n, c)
    decreases n
{
    if k < n { lemma_run_ve(s, q, k, n - 1, c); }
}
@@spec forks=capella+
pub open spec fn sp_run_bc(s: StateV, q: Seq<SignedBlsToExecutionChange>, n: int, c: Context) -> StateV
    decreases n
{
    if n <= 0 { s } else { let x = q[n - 1]; let r = sp_run_bc(s, q, n - 1, c); sp_change(r, x.message) }
}
pub open spec fn sp_run_bc_ok(s: StateV, q: Seq<SignedBlsToExecutionChange>, n: int, c: Context) -> bool
    decreases n
{
    if n <= 0 { true } else { let x = q[n - 1]; sp_run_bc_ok(s, q, n - 1, c) && sp_change_valid(sp_run_bc(s, q, n - 1, c), x, c) }
}
@@vspec forks=capella+
pub open spec fn pre_bc(s: StateV, x: SignedBlsToExecutionChange, c: Context) -> bool { true }
@@vspec forks=capella+
pub open spec fn pre_run_bc(s: StateV, q: Seq<SignedBlsToExecutionChange>, c: Context) -> bool { forall|k: int| 0 <= k < q.len() && #[trigger] sp_run_bc_ok(s, q, k, c) ==> pre_bc(sp_run_bc(s, q, k, c), q[k], c) }
pub proof fn lemma_run_bc(s: StateV, q: Seq<SignedBlsToExecutionChange>, k: int, n: int, c: Context)
    requires k <= n, !sp_run_bc_ok(s, q, k, c) ensures !sp_run_bc_ok(s, q, n, c)
    decreases n
{
    if k < n { lemma_run_bc(s, q, k, n - 1, c); }
}
@@spec forks=electra
pub open spec fn sp_run_wr(s: StateV, q: Seq<ExecutionLayerWithdrawalRequest>, n: int, c: Context) -> StateV
    decreases n
{
    if n <= 0 { s } else { let x = q[n - 1]; let r = sp_run_wr(s, q, n - 1, c); sp_withdrawal_request(r, x, c) }
}
pub open spec fn sp_run_wr_ok(s: StateV, q: Seq<ExecutionLayerWithdrawalRequest>, n: int, c: Context) -> bool
    decreases n
{
    if n <= 0 { true } else { let x = q[n - 1]; sp_run_wr_ok(s, q, n - 1, c) && true }
}
@@vspec forks=electra
pub open spec fn pre_wr(s: StateV, x: ExecutionLayerWithdrawalRequest, c: Context) -> bool { wf_ctx(c) && wf_len(s) && wf_eff(s.validators) && wf_exits(s.validators, 4 * pow2_60()) && wf_churn(s, 4 * pow2_60()) && (forall|i: int| out_ok(s, i)) && forall|i: int| 0 <= i < s.balances.len() ==> (#[trigger] s.balances[i]) < 0x2000_0000_0000_0000 }
@@vspec forks=electra
pub open spec fn pre_run_wr(s: StateV, q: Seq<ExecutionLayerWithdrawalRequest>, c: Context) -> bool { forall|k: int| 0 <= k < q.len() && #[trigger] sp_run_wr_ok(s, q, k, c) ==> pre_wr(sp_run_wr(s, q, k, c), q[k], c) }
pub proof fn lemma_run_wr(s: StateV, q: Seq<ExecutionLayerWithdrawalRequest>, k: int, n: int, c: Context)
    requires k <= n, !sp_run_wr_ok(s, q, k, c) ensures !sp_run_wr_ok(s, q, n, c)
    decreases n
{
    if k < n { lemma_run_wr(s, q, k, n - 1, c); }
}
@@spec forks=electra
pub open spec fn sp_run_dr(s: StateV, q: Seq<DepositReceipt>, n: int, c: Context) -> StateV
    decreases n
{
    if n <= 0 { s } else { let x = q[n - 1]; let r = sp_run_dr(s, q, n - 1, c); sp_deposit_receipt(r, x, c) }
}
pub open spec fn sp_run_dr_ok(s: StateV, q: Seq<DepositReceipt>, n: int, c: Context) -> bool
    decreases n
{
    if n <= 0 { true } else { let x = q[n - 1]; sp_run_dr_ok(s, q, n - 1, c) && true }
}
@@vspec forks=electra
pub open spec fn pre_dr(s: StateV, x: DepositReceipt, c: Context) -> bool { wf_ctx(c) && wf_len(s) && deposit_fits(s, x.public_key, x.amount as int) }
@@vspec forks=electra
pub open spec fn pre_run_dr(s: StateV, q: Seq<DepositReceipt>, c: Context) -> bool { forall|k: int| 0 <= k < q.len() && #[trigger] sp_run_dr_ok(s, q, k, c) ==> pre_dr(sp_run_dr(s, q, k, c), q[k], c) }
pub proof fn lemma_run_dr(s: StateV, q: Seq<DepositReceipt>, k: int, n: int, c: Context)
    requires k <= n, !sp_run_dr_ok(s, q, k, c) ensures !sp_run_dr_ok(s, q, n, c)
    decreases n
{
    if k < n { lemma_run_dr(s, q, k, n - 1, c); }
}
@@spec forks=electra
pub open spec fn sp_run_cs(s: StateV, q: Seq<SignedConsolidation>, n: int, c: Context) -> StateV
    decreases n
{
    if n <= 0 { s } else { let x = q[n - 1]; let r = sp_run_cs(s, q, n - 1, c); sp_consolidation(r, x.message, c) }
}
pub open spec fn sp_run_cs_ok(s: StateV, q: Seq<SignedConsolidation>, n: int, c: Context) -> bool
    decreases n
{
    if n <= 0 { true } else { let x = q[n - 1]; sp_run_cs_ok(s, q, n - 1, c) && sp_cons_valid(sp_run_cs(s, q, n - 1, c), x, c) }
}
@@vspec forks=electra
pub open spec fn pre_cs(s: StateV, x: SignedConsolidation, c: Context) -> bool { wf_ctx(c) && wf_len(s) && wf_eff(s.validators) && wf_churn(s, 4 * pow2_60()) }
@@vspec forks=electra
pub open spec fn pre_run_cs(s: StateV, q: Seq<SignedConsolidation>, c: Context) -> bool { forall|k: int| 0 <= k < q.len() && #[trigger] sp_run_cs_ok(s, q, k, c) ==> pre_cs(sp_run_cs(s, q, k, c), q[k], c) }
pub proof fn lemma_run_cs(s: StateV, q: Seq<SignedConsolidation>, k: int, n: int, c: Context)
    requires k <= n, !sp_run_cs_ok(s, q, k, c) ensures !sp_run_cs_ok(s, q, n, c)
    decreases n
{
    if k < n { lemma_run_cs(s, q, k, n - 1, c); }
}
@@spec forks=..deneb
pub open spec fn sp_deposit_count_ok(s: StateV, b: BeaconBlockBody, c: Context) -> bool {
    s.eth1_data.deposit_count >= s.eth1_deposit_index && b.deposits@.len() == vmin(c.max_deposits as int, s.eth1_data.deposit_count as int - s.eth1_deposit_index as int)
}
@@spec forks=electra
pub open spec fn sp_deposit_count_ok(s: StateV, b: BeaconBlockBody, c: Context) -> bool {
    let limit = vmin(s.eth1_data.deposit_count as int, s.deposit_receipts_start_index as int); let i = s.eth1_deposit_index as int;
    b.deposits@.len() == (if i < limit { vmin(c.max_deposits as int, limit - i) } else { 0 })
}
@@spec forks=..bellatrix
pub open spec fn sp_op1(s: StateV, b: BeaconBlockBody, c: Context) -> StateV { sp_run_ps(s, b.proposer_slashings@, b.proposer_slashings@.len() as int, c) }
pub open spec fn sp_op2(s: StateV, b: BeaconBlockBody, c: Context) -> StateV { sp_run_as(sp_op1(s, b, c), b.attester_slashings@, b.attester_slashings@.len() as int, c) }
pub open spec fn sp_op3(s: StateV, b: BeaconBlockBody, c: Context) -> StateV { sp_run_at(sp_op2(s, b, c), b.attestations@, b.attestations@.len() as int, c) }
pub open spec fn sp_op4(s: StateV, b: BeaconBlockBody, c: Context) -> StateV { sp_run_dp(sp_op3(s, b, c), b.deposits@, b.deposits@.len() as int, c) }
pub open spec fn sp_op5(s: StateV, b: BeaconBlockBody, c: Context) -> StateV { sp_run_ve(sp_op4(s, b, c), b.voluntary_exits@, b.voluntary_exits@.len() as int, c) }
pub open spec fn sp_operations(s: StateV, b: BeaconBlockBody, c: Context) -> StateV { sp_op5(s, b, c) }
pub open spec fn sp_operations_ok(s: StateV, b: BeaconBlockBody, c: Context) -> bool {
    sp_deposit_count_ok(s, b, c)
    && sp_run_ps_ok(s, b.proposer_slashings@, b.proposer_slashings@.len() as int, c)
    && sp_run_as_ok(sp_op1(s, b, c), b.attester_slashings@, b.attester_slashings@.len() as int, c)
    && sp_run_at_ok(sp_op2(s, b, c), b.attestations@, b.attestations@.len() as int, c)
    && sp_run_dp_ok(sp_op3(s, b, c), b.deposits@, b.deposits@.len() as int, c)
    && sp_run_ve_ok(sp_op4(s, b, c), b.voluntary_exits@, b.voluntary_exits@.len() as int, c)
}
@@vspec forks=..bellatrix
pub open spec fn operations_pre(s: StateV, b: BeaconBlockBody, c: Context) -> bool {
    pre_run_ps(s, b.proposer_slashings@, c)
    && pre_run_as(sp_op1(s, b, c), b.attester_slashings@, c)
    && pre_run_at(sp_op2(s, b, c), b.attestations@, c)
    && pre_run_dp(sp_op3(s, b, c), b.deposits@, c)
    && pre_run_ve(sp_op4(s, b, c), b.voluntary_exits@, c)
}
@@spec forks=capella,deneb
pub open spec fn sp_op1(s: StateV, b: BeaconBlockBody, c: Context) -> StateV { sp_run_ps(s, b.proposer_slashings@, b.proposer_slashings@.len() as int, c) }
pub open spec fn sp_op2(s: StateV, b: BeaconBlockBody, c: Context) -> StateV { sp_run_as(sp_op1(s, b, c), b.attester_slashings@, b.attester_slashings@.len() as int, c) }
pub open spec fn sp_op3(s: StateV, b: BeaconBlockBody, c: Context) -> StateV { sp_run_at(sp_op2(s, b, c), b.attestations@, b.attestations@.len() as int, c) }
pub open spec fn sp_op4(s: StateV, b: BeaconBlockBody, c: Context) -> StateV { sp_run_dp(sp_op3(s, b, c), b.deposits@, b.deposits@.len() as int, c) }
pub open spec fn sp_op5(s: StateV, b: BeaconBlockBody, c: Context) -> StateV { sp_run_ve(sp_op4(s, b, c), b.voluntary_exits@, b.voluntary_exits@.len() as int, c) }
pub open spec fn sp_op6(s: StateV, b: BeaconBlockBody, c: Context) -> StateV { sp_run_bc(sp_op5(s, b, c), b.bls_to_execution_changes@, b.bls_to_execution_changes@.len() as int, c) }
pub open spec fn sp_operations(s: StateV, b: BeaconBlockBody, c: Context) -> StateV { sp_op6(s, b, c) }
pub open spec fn sp_operations_ok(s: StateV, b: BeaconBlockBody, c: Context) -> bool {
    sp_deposit_count_ok(s, b, c)
    && sp_run_ps_ok(s, b.proposer_slashings@, b.proposer_slashings@.len() as int, c)
    && sp_run_as_ok(sp_op1(s, b, c), b.attester_slashings@, b.attester_slashings@.len() as int, c)
    && sp_run_at_ok(sp_op2(s, b, c), b.attestations@, b.attestations@.len() as int, c)
    && sp_run_dp_ok(sp_op3(s, b, c), b.deposits@, b.deposits@.len() as int, c)
    && sp_run_ve_ok(sp_op4(s, b, c), b.voluntary_exits@, b.voluntary_exits@.len() as int, c)
    && sp_run_bc_ok(sp_op5(s, b, c), b.bls_to_execution_changes@, b.bls_to_execution_changes@.len() as int, c)
}
@@vspec forks=capella,deneb
pub open spec fn operations_pre(s: StateV, b: BeaconBlockBody, c: Context) -> bool {
    pre_run_ps(s, b.proposer_slashings@, c)
    && pre_run_as(sp_op1(s, b, c), b.attester_slashings@, c)
    && pre_run_at(sp_op2(s, b, c), b.attestations@, c)
    && pre_run_dp(sp_op3(s, b, c), b.deposits@, c)
    && pre_run_ve(sp_op4(s, b, c), b.voluntary_exits@, c)
    && pre_run_bc(sp_op5(s, b, c), b.bls_to_execution_changes@, c)
}
@@spec forks=electra
pub open spec fn sp_op1(s: StateV, b: BeaconBlockBody, c: Context) -> StateV { sp_run_ps(s, b.proposer_slashings@, b.proposer_slashings@.len() as int, c) }
pub open spec fn sp_op2(s: StateV, b: BeaconBlockBody, c: Context) -> StateV { sp_run_as(sp_op1(s, b, c), b.attester_slashings@, b.attester_slashings@.len() as int, c) }
pub open spec fn sp_op3(s: StateV, b: BeaconBlockBody, c: Context) -> StateV { sp_run_at(sp_op2(s, b, c), b.attestations@, b.attestations@.len() as int, c) }
pub open spec fn sp_op4(s: StateV, b: BeaconBlockBody, c: Context) -> StateV { sp_run_dp(sp_op3(s, b, c), b.deposits@, b.deposits@.len() as int, c) }
pub open spec fn sp_op5(s: StateV, b: BeaconBlockBody, c: Context) -> StateV { sp_run_ve(sp_op4(s, b, c), b.voluntary_exits@, b.voluntary_exits@.len() as int, c) }
pub open spec fn sp_op6(s: StateV, b: BeaconBlockBody, c: Context) -> StateV { sp_run_bc(sp_op5(s, b, c), b.bls_to_execution_changes@, b.bls_to_execution_changes@.len() as int, c) }
pub open spec fn sp_op7(s: StateV, b: BeaconBlockBody, c: Context) -> StateV { sp_run_wr(sp_op6(s, b, c), b.execution_payload.withdrawal_requests@, b.execution_payload.withdrawal_requests@.len() as int, c) }
pub open spec fn sp_op8(s: StateV, b: BeaconBlockBody, c: Context) -> StateV { sp_run_dr(sp_op7(s, b, c), b.execution_payload.deposit_receipts@, b.execution_payload.deposit_receipts@.len() as int, c) }
pub open spec fn sp_op9(s: StateV, b: BeaconBlockBody, c: Context) -> StateV { sp_run_cs(sp_op8(s, b, c), b.consolidations@, b.consolidations@.len() as int, c) }
pub open spec fn sp_operations(s: StateV, b: BeaconBlockBody, c: Context) -> StateV { sp_op9(s, b, c) }
pub open spec fn sp_operations_ok(s: StateV, b: BeaconBlockBody, c: Context) -> bool {
    sp_deposit_count_ok(s, b, c)
    && sp_run_ps_ok(s, b.proposer_slashings@, b.proposer_slashings@.len() as int, c)
    && sp_run_as_ok(sp_op1(s, b, c), b.attester_slashings@, b.attester_slashings@.len() as int, c)
    && sp_run_at_ok(sp_op2(s, b, c), b.attestations@, b.attestations@.len() as int, c)
    && sp_run_dp_ok(sp_op3(s, b, c), b.deposits@, b.deposits@.len() as int, c)
    && sp_run_ve_ok(sp_op4(s, b, c), b.voluntary_exits@, b.voluntary_exits@.len() as int, c)
    && sp_run_bc_ok(sp_op5(s, b, c), b.bls_to_execution_changes@, b.bls_to_execution_changes@.len() as int, c)
    && sp_run_wr_ok(sp_op6(s, b, c), b.execution_payload.withdrawal_requests@, b.execution_payload.withdrawal_requests@.len() as int, c)
    && sp_run_dr_ok(sp_op7(s, b, c), b.execution_payload.deposit_receipts@, b.execution_payload.deposit_receipts@.len() as int, c)
    && sp_run_cs_ok(sp_op8(s, b, c), b.consolidations@, b.consolidations@.len() as int, c)
}
@@vspec forks=electra
pub open spec fn operations_pre(s: StateV, b: BeaconBlockBody, c: Context) -> bool {
    pre_run_ps(s, b.proposer_slashings@, c)
    && pre_run_as(sp_op1(s, b, c), b.attester_slashings@, c)
    && pre_run_at(sp_op2(s, b, c), b.attestations@, c)
    && pre_run_dp(sp_op3(s, b, c), b.deposits@, c)
    && pre_run_ve(sp_op4(s, b, c), b.voluntary_exits@, c)
    && pre_run_bc(sp_op5(s, b, c), b.bls_to_execution_changes@, c)
    && pre_run_wr(sp_op6(s, b, c), b.execution_payload.withdrawal_requests@, c)
    && pre_run_dr(sp_op7(s, b, c), b.execution_payload.deposit_receipts@, c)
    && pre_run_cs(sp_op8(s, b, c), b.consolidations@, c)
}
@@spec forks=altair,bellatrix,deneb known=K17
pub open spec fn kf_deposits(s: StateV) -> bool { s.eth1_data.deposit_count < s.eth1_deposit_index }
@@spec forks=altair,bellatrix,deneb unless=K17
pub open spec fn kf_deposits(s: StateV) -> bool { false }
@@spec forks=phase0,capella,electra
pub open spec fn kf_deposits(s: StateV) -> bool { false }
@@fn process_operations forks=..bellatrix
requires !kf_deposits(old(state)@), operations_pre(old(state)@, *body, *context)
ensures r is Ok <==> sp_operations_ok(old(state)@, *body, *context), r is Ok ==> final(state)@ == sp_operations(old(state)@, *body, *context)
@ start
hide(sp_attestation); hide(sp_attestation_ok); hide(sp_attester_slashing); hide(sp_attester_slashing_ok); hide(sp_deposit); hide(sp_deposit_ok); hide(sp_exit_valid); hide(sp_initiate_exit); hide(sp_proposer_slashing); hide(sp_proposer_slashing_ok);
let ghost s0 = state@; let ghost b = *body; let ghost c = *context;
@ loop 0
invariant b == *body, c == *context, __i0 <= b.proposer_slashings@.len(), pre_run_ps(s0, b.proposer_slashings@, c), state@ == sp_run_ps(s0, b.proposer_slashings@, __i0 as int, c), sp_run_ps_ok(s0, b.proposer_slashings@, __i0 as int, c),
    old(state)@ == s0, sp_operations_ok(s0, b, c) ==> sp_run_ps_ok(s0, b.proposer_slashings@, b.proposer_slashings@.len() as int, c)
@ loopstart 0
proof {
    assert(pre_ps(state@, b.proposer_slashings@[__i0 as int], c));
    if !sp_run_ps_ok(s0, b.proposer_slashings@, __i0 as int + 1, c) { lemma_run_ps(s0, b.proposer_slashings@, __i0 as int + 1, b.proposer_slashings@.len() as int, c); }
}
@ loop 1
invariant b == *body, c == *context, __i1 <= b.attester_slashings@.len(), pre_run_as(sp_op1(s0, b, c), b.attester_slashings@, c), state@ == sp_run_as(sp_op1(s0, b, c), b.attester_slashings@, __i1 as int, c), sp_run_as_ok(sp_op1(s0, b, c), b.attester_slashings@, __i1 as int, c),
    old(state)@ == s0, sp_operations_ok(s0, b, c) ==> sp_run_as_ok(sp_op1(s0, b, c), b.attester_slashings@, b.attester_slashings@.len() as int, c)
@ loopstart 1
proof {
    assert(pre_as(state@, b.attester_slashings@[__i1 as int], c));
    if !sp_run_as_ok(sp_op1(s0, b, c), b.attester_slashings@, __i1 as int + 1, c) { lemma_run_as(sp_op1(s0, b, c), b.attester_slashings@, __i1 as int + 1, b.attester_slashings@.len() as int, c); }
}
@ loop 2
invariant b == *body, c == *context, __i2 <= b.attestations@.len(), pre_run_at(sp_op2(s0, b, c), b.attestations@, c), state@ == sp_run_at(sp_op2(s0, b, c), b.attestations@, __i2 as int, c), sp_run_at_ok(sp_op2(s0, b, c), b.attestations@, __i2 as int, c),
    old(state)@ == s0, sp_operations_ok(s0, b, c) ==> sp_run_at_ok(sp_op2(s0, b, c), b.attestations@, b.attestations@.len() as int, c)
@ loopstart 2
proof {
    assert(pre_at(state@, b.attestations@[__i2 as int], c));
    if !sp_run_at_ok(sp_op2(s0, b, c), b.attestations@, __i2 as int + 1, c) { lemma_run_at(sp_op2(s0, b, c), b.attestations@, __i2 as int + 1, b.attestations@.len() as int, c); }
}
@ loop 3
invariant b == *body, c == *context, __i3 <= b.deposits@.len(), pre_run_dp(sp_op3(s0, b, c), b.deposits@, c), state@ == sp_run_dp(sp_op3(s0, b, c), b.deposits@, __i3 as int, c), sp_run_dp_ok(sp_op3(s0, b, c), b.deposits@, __i3 as int, c),
    old(state)@ == s0, sp_operations_ok(s0, b, c) ==> sp_run_dp_ok(sp_op3(s0, b, c), b.deposits@, b.deposits@.len() as int, c)
@ loopstart 3
proof {
    assert(pre_dp(state@, b.deposits@[__i3 as int], c));
    if !sp_run_dp_ok(sp_op3(s0, b, c), b.deposits@, __i3 as int + 1, c) { lemma_run_dp(sp_op3(s0, b, c), b.deposits@, __i3 as int + 1, b.deposits@.len() as int, c); }
}
@ loop 4
invariant b == *body, c == *context, __i4 <= b.voluntary_exits@.len(), pre_run_ve(sp_op4(s0, b, c), b.voluntary_exits@, c), state@ == sp_run_ve(sp_op4(s0, b, c), b.voluntary_exits@, __i4 as int, c), sp_run_ve_ok(sp_op4(s0, b, c), b.voluntary_exits@, __i4 as int, c),
    old(state)@ == s0, sp_operations_ok(s0, b, c) ==> sp_run_ve_ok(sp_op4(s0, b, c), b.voluntary_exits@, b.voluntary_exits@.len() as int, c)
@ loopstart 4
proof {
    assert(pre_ve(state@, b.voluntary_exits@[__i4 as int], c));
    if !sp_run_ve_ok(sp_op4(s0, b, c), b.voluntary_exits@, __i4 as int + 1, c) { lemma_run_ve(sp_op4(s0, b, c), b.voluntary_exits@, __i4 as int + 1, b.voluntary_exits@.len() as int, c); }
}
@@fn process_operations forks=capella,deneb
requires !kf_deposits(old(state)@), operations_pre(old(state)@, *body, *context)
ensures r is Ok <==> sp_operations_ok(old(state)@, *body, *context), r is Ok ==> final(state)@ == sp_operations(old(state)@, *body, *context)
@ start
hide(sp_attestation); hide(sp_attestation_ok); hide(sp_attester_slashing); hide(sp_attester_slashing_ok); hide(sp_change); hide(sp_change_valid); hide(sp_deposit); hide(sp_deposit_ok); hide(sp_exit_valid); hide(sp_initiate_exit); hide(sp_proposer_slashing); hide(sp_proposer_slashing_ok);
let ghost s0 = state@; let ghost b = *body; let ghost c = *context;
@ loop 0
invariant b == *body, c == *context, __i0 <= b.proposer_slashings@.len(), pre_run_ps(s0, b.proposer_slashings@, c), state@ == sp_run_ps(s0, b.proposer_slashings@, __i0 as int, c), sp_run_ps_ok(s0, b.proposer_slashings@, __i0 as int, c),
    old(state)@ == s0, sp_operations_ok(s0, b, c) ==> sp_run_ps_ok(s0, b.proposer_slashings@, b.proposer_slashings@.len() as int, c)
@ loopstart 0
proof {
    assert(pre_ps(state@, b.proposer_slashings@[__i0 as int], c));
    if !sp_run_ps_ok(s0, b.proposer_slashings@, __i0 as int + 1, c) { lemma_run_ps(s0, b.proposer_slashings@, __i0 as int + 1, b.proposer_slashings@.len() as int, c); }
}
@ loop 1
invariant b == *body, c == *context, __i1 <= b.attester_slashings@.len(), pre_run_as(sp_op1(s0, b, c), b.attester_slashings@, c), state@ == sp_run_as(sp_op1(s0, b, c), b.attester_slashings@, __i1 as int, c), sp_run_as_ok(sp_op1(s0, b, c), b.attester_slashings@, __i1 as int, c),
    old(state)@ == s0, sp_operations_ok(s0, b, c) ==> sp_run_as_ok(sp_op1(s0, b, c), b.attester_slashings@, b.attester_slashings@.len() as int, c)
@ loopstart 1
proof {
    assert(pre_as(state@, b.attester_slashings@[__i1 as int], c));
    if !sp_run_as_ok(sp_op1(s0, b, c), b.attester_slashings@, __i1 as int + 1, c) { lemma_run_as(sp_op1(s0, b, c), b.attester_slashings@, __i1 as int + 1, b.attester_slashings@.len() as int, c); }
}
@ loop 2
invariant b == *body, c == *context, __i2 <= b.attestations@.len(), pre_run_at(sp_op2(s0, b, c), b.attestations@, c), state@ == sp_run_at(sp_op2(s0, b, c), b.attestations@, __i2 as int, c), sp_run_at_ok(sp_op2(s0, b, c), b.attestations@, __i2 as int, c),
    old(state)@ == s0, sp_operations_ok(s0, b, c) ==> sp_run_at_ok(sp_op2(s0, b, c), b.attestations@, b.attestations@.len() as int, c)
@ loopstart 2
proof {
    assert(pre_at(state@, b.attestations@[__i2 as int], c));
    if !sp_run_at_ok(sp_op2(s0, b, c), b.attestations@, __i2 as int + 1, c) { lemma_run_at(sp_op2(s0, b, c), b.attestations@, __i2 as int + 1, b.attestations@.len() as int, c); }
}
@ loop 3
invariant b == *body, c == *context, __i3 <= b.deposits@.len(), pre_run_dp(sp_op3(s0, b, c), b.deposits@, c), state@ == sp_run_dp(sp_op3(s0, b, c), b.deposits@, __i3 as int, c), sp_run_dp_ok(sp_op3(s0, b, c), b.deposits@, __i3 as int, c),
    old(state)@ == s0, sp_operations_ok(s0, b, c) ==> sp_run_dp_ok(sp_op3(s0, b, c), b.deposits@, b.deposits@.len() as int, c)
@ loopstart 3
proof {
    assert(pre_dp(state@, b.deposits@[__i3 as int], c));
    if !sp_run_dp_ok(sp_op3(s0, b, c), b.deposits@, __i3 as int + 1, c) { lemma_run_dp(sp_op3(s0, b, c), b.deposits@, __i3 as int + 1, b.deposits@.len() as int, c); }
}
@ loop 4
invariant b == *body, c == *context, __i4 <= b.voluntary_exits@.len(), pre_run_ve(sp_op4(s0, b, c), b.voluntary_exits@, c), state@ == sp_run_ve(sp_op4(s0, b, c), b.voluntary_exits@, __i4 as int, c), sp_run_ve_ok(sp_op4(s0, b, c), b.voluntary_exits@, __i4 as int, c),
    old(state)@ == s0, sp_operations_ok(s0, b, c) ==> sp_run_ve_ok(sp_op4(s0, b, c), b.voluntary_exits@, b.voluntary_exits@.len() as int, c)
@ loopstart 4
proof {
    assert(pre_ve(state@, b.voluntary_exits@[__i4 as int], c));
    if !sp_run_ve_ok(sp_op4(s0, b, c), b.voluntary_exits@, __i4 as int + 1, c) { lemma_run_ve(sp_op4(s0, b, c), b.voluntary_exits@, __i4 as int + 1, b.voluntary_exits@.len() as int, c); }
}
@ loop 5
invariant b == *body, c == *context, __i5 <= b.bls_to_execution_changes@.len(), pre_run_bc(sp_op5(s0, b, c), b.bls_to_execution_changes@, c), state@ == sp_run_bc(sp_op5(s0, b, c), b.bls_to_execution_changes@, __i5 as int, c), sp_run_bc_ok(sp_op5(s0, b, c), b.bls_to_execution_changes@, __i5 as int, c),
    old(state)@ == s0, sp_operations_ok(s0, b, c) ==> sp_run_bc_ok(sp_op5(s0, b, c), b.bls_to_execution_changes@, b.bls_to_execution_changes@.len() as int, c)
@ loopstart 5
proof {
    assert(pre_bc(state@, b.bls_to_execution_changes@[__i5 as int], c));
    if !sp_run_bc_ok(sp_op5(s0, b, c), b.bls_to_execution_changes@, __i5 as int + 1, c) { lemma_run_bc(sp_op5(s0, b, c), b.bls_to_execution_changes@, __i5 as int + 1, b.bls_to_execution_changes@.len() as int, c); }
}
@@fn process_operations forks=electra
requires !kf_deposits(old(state)@), operations_pre(old(state)@, *body, *context)
ensures r is Ok <==> sp_operations_ok(old(state)@, *body, *context), r is Ok ==> final(state)@ == sp_operations(old(state)@, *body, *context)
@ start
hide(sp_attestation); hide(sp_attestation_ok); hide(sp_attester_slashing); hide(sp_attester_slashing_ok); hide(sp_change); hide(sp_change_valid); hide(sp_cons_valid); hide(sp_consolidation); hide(sp_deposit); hide(sp_deposit_ok); hide(sp_deposit_receipt); hide(sp_exit_valid); hide(sp_initiate_exit); hide(sp_proposer_slashing); hide(sp_proposer_slashing_ok); hide(sp_withdrawal_request);
let ghost s0 = state@; let ghost b = *body; let ghost c = *context;
@ loop 0
invariant b == *body, c == *context, __i0 <= b.proposer_slashings@.len(), pre_run_ps(s0, b.proposer_slashings@, c), state@ == sp_run_ps(s0, b.proposer_slashings@, __i0 as int, c), sp_run_ps_ok(s0, b.proposer_slashings@, __i0 as int, c),
    old(state)@ == s0, sp_operations_ok(s0, b, c) ==> sp_run_ps_ok(s0, b.proposer_slashings@, b.proposer_slashings@.len() as int, c)
@ loopstart 0
proof {
    assert(pre_ps(state@, b.proposer_slashings@[__i0 as int], c));
    if !sp_run_ps_ok(s0, b.proposer_slashings@, __i0 as int + 1, c) { lemma_run_ps(s0, b.proposer_slashings@, __i0 as int + 1, b.proposer_slashings@.len() as int, c); }
}
@ loop 1
invariant b == *body, c == *context, __i1 <= b.attester_slashings@.len(), pre_run_as(sp_op1(s0, b, c), b.attester_slashings@, c), state@ == sp_run_as(sp_op1(s0, b, c), b.attester_slashings@, __i1 as int, c), sp_run_as_ok(sp_op1(s0, b, c), b.attester_slashings@, __i1 as int, c),
    old(state)@ == s0, sp_operations_ok(s0, b, c) ==> sp_run_as_ok(sp_op1(s0, b, c), b.attester_slashings@, b.attester_slashings@.len() as int, c)
@ loopstart 1
proof {
    assert(pre_as(state@, b.attester_slashings@[__i1 as int], c));
    if !sp_run_as_ok(sp_op1(s0, b, c), b.attester_slashings@, __i1 as int + 1, c) { lemma_run_as(sp_op1(s0, b, c), b.attester_slashings@, __i1 as int + 1, b.attester_slashings@.len() as int, c); }
}
@ loop 2
invariant b == *body, c == *context, __i2 <= b.attestations@.len(), pre_run_at(sp_op2(s0, b, c), b.attestations@, c), state@ == sp_run_at(sp_op2(s0, b, c), b.attestations@, __i2 as int, c), sp_run_at_ok(sp_op2(s0, b, c), b.attestations@, __i2 as int, c),
    old(state)@ == s0, sp_operations_ok(s0, b, c) ==> sp_run_at_ok(sp_op2(s0, b, c), b.attestations@, b.attestations@.len() as int, c)
@ loopstart 2
proof {
    assert(pre_at(state@, b.attestations@[__i2 as int], c));
    if !sp_run_at_ok(sp_op2(s0, b, c), b.attestations@, __i2 as int + 1, c) { lemma_run_at(sp_op2(s0, b, c), b.attestations@, __i2 as int + 1, b.attestations@.len() as int, c); }
}
@ loop 3
invariant b == *body, c == *context, __i3 <= b.deposits@.len(), pre_run_dp(sp_op3(s0, b, c), b.deposits@, c), state@ == sp_run_dp(sp_op3(s0, b, c), b.deposits@, __i3 as int, c), sp_run_dp_ok(sp_op3(s0, b, c), b.deposits@, __i3 as int, c),
    old(state)@ == s0, sp_operations_ok(s0, b, c) ==> sp_run_dp_ok(sp_op3(s0, b, c), b.deposits@, b.deposits@.len() as int, c)
@ loopstart 3
proof {
    assert(pre_dp(state@, b.deposits@[__i3 as int], c));
    if !sp_run_dp_ok(sp_op3(s0, b, c), b.deposits@, __i3 as int + 1, c) { lemma_run_dp(sp_op3(s0, b, c), b.deposits@, __i3 as int + 1, b.deposits@.len() as int, c); }
}
@ loop 4
invariant b == *body, c == *context, __i4 <= b.voluntary_exits@.len(), pre_run_ve(sp_op4(s0, b, c), b.voluntary_exits@, c), state@ == sp_run_ve(sp_op4(s0, b, c), b.voluntary_exits@, __i4 as int, c), sp_run_ve_ok(sp_op4(s0, b, c), b.voluntary_exits@, __i4 as int, c),
    old(state)@ == s0, sp_operations_ok(s0, b, c) ==> sp_run_ve_ok(sp_op4(s0, b, c), b.voluntary_exits@, b.voluntary_exits@.len() as int, c)
@ loopstart 4
proof {
    assert(pre_ve(state@, b.voluntary_exits@[__i4 as int], c));
    if !sp_run_ve_ok(sp_op4(s0, b, c), b.voluntary_exits@, __i4 as int + 1, c) { lemma_run_ve(sp_op4(s0, b, c), b.voluntary_exits@, __i4 as int + 1, b.voluntary_exits@.len() as int, c); }
}
@ loop 5
invariant b == *body, c == *context, __i5 <= b.bls_to_execution_changes@.len(), pre_run_bc(sp_op5(s0, b, c), b.bls_to_execution_changes@, c), state@ == sp_run_bc(sp_op5(s0, b, c), b.bls_to_execution_changes@, __i5 as int, c), sp_run_bc_ok(sp_op5(s0, b, c), b.bls_to_execution_changes@, __i5 as int, c),
    old(state)@ == s0, sp_operations_ok(s0, b, c) ==> sp_run_bc_ok(sp_op5(s0, b, c), b.bls_to_execution_changes@, b.bls_to_execution_changes@.len() as int, c)
@ loopstart 5
proof {
    assert(pre_bc(state@, b.bls_to_execution_changes@[__i5 as int], c));
    if !sp_run_bc_ok(sp_op5(s0, b, c), b.bls_to_execution_changes@, __i5 as int + 1, c) { lemma_run_bc(sp_op5(s0, b, c), b.bls_to_execution_changes@, __i5 as int + 1, b.bls_to_execution_changes@.len() as int, c); }
}
@ loop 6
invariant b == *body, c == *context, __i6 <= b.execution_payload.withdrawal_requests@.len(), pre_run_wr(sp_op6(s0, b, c), b.execution_payload.withdrawal_requests@, c), state@ == sp_run_wr(sp_op6(s0, b, c), b.execution_payload.withdrawal_requests@, __i6 as int, c), sp_run_wr_ok(sp_op6(s0, b, c), b.execution_payload.withdrawal_requests@, __i6 as int, c),
    old(state)@ == s0, sp_operations_ok(s0, b, c) ==> sp_run_wr_ok(sp_op6(s0, b, c), b.execution_payload.withdrawal_requests@, b.execution_payload.withdrawal_requests@.len() as int, c)
@ loopstart 6
proof {
    assert(pre_wr(state@, b.execution_payload.withdrawal_requests@[__i6 as int], c));
    if !sp_run_wr_ok(sp_op6(s0, b, c), b.execution_payload.withdrawal_requests@, __i6 as int + 1, c) { lemma_run_wr(sp_op6(s0, b, c), b.execution_payload.withdrawal_requests@, __i6 as int + 1, b.execution_payload.withdrawal_requests@.len() as int, c); }
}
@ loop 7
invariant b == *body, c == *context, __i7 <= b.execution_payload.deposit_receipts@.len(), pre_run_dr(sp_op7(s0, b, c), b.execution_payload.deposit_receipts@, c), state@ == sp_run_dr(sp_op7(s0, b, c), b.execution_payload.deposit_receipts@, __i7 as int, c), sp_run_dr_ok(sp_op7(s0, b, c), b.execution_payload.deposit_receipts@, __i7 as int, c),
    old(state)@ == s0, sp_operations_ok(s0, b, c) ==> sp_run_dr_ok(sp_op7(s0, b, c), b.execution_payload.deposit_receipts@, b.execution_payload.deposit_receipts@.len() as int, c)
@ loopstart 7
proof {
    assert(pre_dr(state@, b.execution_payload.deposit_receipts@[__i7 as int], c));
    if !sp_run_dr_ok(sp_op7(s0, b, c), b.execution_payload.deposit_receipts@, __i7 as int + 1, c) { lemma_run_dr(sp_op7(s0, b, c), b.execution_payload.deposit_receipts@, __i7 as int + 1, b.execution_payload.deposit_receipts@.len() as int, c); }
}
@ loop 8
invariant b == *body, c == *context, __i8 <= b.consolidations@.len(), pre_run_cs(sp_op8(s0, b, c), b.consolidations@, c), state@ == sp_run_cs(sp_op8(s0, b, c), b.consolidations@, __i8 as int, c), sp_run_cs_ok(sp_op8(s0, b, c), b.consolidations@, __i8 as int, c),
    old(state)@ == s0, sp_operations_ok(s0, b, c) ==> sp_run_cs_ok(sp_op8(s0, b, c), b.consolidations@, b.consolidations@.len() as int, c)
@ loopstart 8
proof {
    assert(pre_cs(state@, b.consolidations@[__i8 as int], c));
    if !sp_run_cs_ok(sp_op8(s0, b, c), b.consolidations@, __i8 as int + 1, c) { lemma_run_cs(sp_op8(s0, b, c), b.consolidations@, __i8 as int + 1, b.consolidations@.len() as int, c); }
}
@@rust
/// the root of a deposit tree with the given consecutive leaves, and their branches
pub fn deposit_tree(g: &mut G, first: u64, leaves: &[Node]) -> (Node, Vec<Vec<Node>>) {
    let mut m: std::collections::BTreeMap<u64, Node> = leaves.iter().enumerate().map(|(i, x)| (first + i as u64, *x)).collect();
    let mut at: Vec<u64> = (0..leaves.len()).map(|i| first + i as u64).collect(); let mut br = vec![vec![]; leaves.len()];
    for _ in 0..33 {
        let ks: Vec<u64> = m.keys().cloned().collect();
        for k in ks { if !m.contains_key(&(k ^ 1)) { m.insert(k ^ 1, g.node().cv()); } }
        for i in 0..at.len() { br[i].push(m[&(at[i] ^ 1)]); at[i] /= 2; }
        m = m.iter().filter(|(k, _)| **k % 2 == 0).map(|(k, v)| (k / 2, Node { data: sha256(nb(*v) + nb(m[&(k + 1)])).data })).collect();
    }
    let root = m.into_iter().next().map(|x| x.1).unwrap_or(zero_node()); (root, br)
}
pub fn gen_deposit_data(g: &mut G, st: &RealBeaconState, c: &RealCtx) -> ec::phase0::DepositData {
    let n = st.validators.len(); let i = if g.bool() { g.idx(n) } else { n + g.idx(3) }; let cc = c.cv();
    let mut d = ec::phase0::DepositData::default(); d.public_key = key(i).pk; d.amount = match g.below(5) { 0 => 0, 1 => g.below(GWEI), 2 => 32 * GWEI, 3 => 40 * GWEI + g.below(GWEI), _ => g.below(64 * GWEI) };
    d.withdrawal_credentials[0] = g.pick(&[0u8, 1, 2, 2]); d.withdrawal_credentials[20] = g.below(256) as u8;
    let z = d.cv(); let v = if g.chance(7) { [9u8, 9, 9, 9] } else { c.genesis_fork_version }; let t = if g.chance(7) { DomainType::Randao } else { DomainType::Deposit };
    let msg = sp_signing_root(htr(DepositMessage { public_key: z.public_key, withdrawal_credentials: z.withdrawal_credentials, amount: z.amount }), sp_domain(t, v, zero_node()));
    d.signature = if g.chance(8) { bad_sig(g) } else { key(if g.chance(8) { i + 1 } else { i }).sk.sign(msg.0) };
    if g.chance(5) { d.amount += 1; }
    d
}
pub fn gen_deposits(g: &mut G, st: &mut RealBeaconState, c: &RealCtx, n: usize) -> Vec<ec::phase0::Deposit> {
    let ds: Vec<ec::phase0::DepositData> = (0..n).map(|_| gen_deposit_data(g, st, c)).collect();
    let leaves: Vec<Node> = ds.iter().map(|d| d.cv().htr1()).collect();
    let (root, br) = deposit_tree(g, st.eth1_deposit_index, &leaves); st.eth1_data.deposit_root = root.rv();
    ds.into_iter().enumerate().map(|(i, d)| { let mut x = ec::phase0::Deposit::default(); x.data = d; for k in 0..33 { x.proof[k] = br[i][k].rv(); } x }).collect()
}
pub fn gen_deposit_state(g: &mut G, c: &RealCtx) -> RealBeaconState { let mut st = gen_block_state(g, c); for i in 0..st.validators.len() { st.validators[i].public_key = key(i).pk; if g.chance(20) { st.validators[i].withdrawal_credentials[0] = 1; } } st.eth1_deposit_index = g.pick(&[0u64, 1, 7, 1 << 31, (1 << 32) - 9]) + g.below(4); st }
@@test deposit props=C17,C32 n=100
let mut c = gen_ctx(g); c.genesis_fork_version = g.bytes(); let mut st = gen_deposit_state(g, &c); let cc = c.cv();
let mut x = gen_deposits(g, &mut st, &c, 1).remove(0);
match g.below(12) { 0 => { x.proof[g.idx(33)] = g.node(); } 1 => { st.eth1_deposit_index += 1; } 2 => { x.data.amount += 1; } _ => {} }
let s = st.cv(); let ok = sp_deposit_ok(s, x.cv()); g.note("deposit accepted", ok);
let r = sp::process_deposit(&mut st, &x, &c); eqv!(r.is_ok(), ok, "process_deposit at index {}", s.eth1_deposit_index);
if ok { g.note("new validator", st.validators.len() as int > s.validators.len()); seq_st!(st, sp_deposit(s, x.cv(), cc), "process_deposit of {:?} among {} validators", x.data, s.validators.len()); }
@@test receipt props=C17 forks=electra n=100
let mut c = gen_ctx(g); c.genesis_fork_version = g.bytes(); let mut st = gen_deposit_state(g, &c); let cc = c.cv(); if g.bool() { st.deposit_receipts_start_index = u64::MAX; }
let d = gen_deposit_data(g, &st, &c); let x = ec::electra::DepositReceipt { public_key: d.public_key, withdrawal_credentials: d.withdrawal_credentials, amount: d.amount, signature: d.signature, index: g.below(1000) }; let s = st.cv();
chk!(sp::process_deposit_receipt(&mut st, &x, &c).is_ok(), "process_deposit_receipt failed"); seq_st!(st, sp_deposit_receipt(s, x.cv(), cc), "process_deposit_receipt({x:?})");
@@rust forks=..deneb
pub fn gen_more(_g: &mut G, _st: &mut RealBeaconState, _b: &mut RealBeaconBlockBody, _c: &RealCtx) {}
@@rust forks=electra
pub fn gen_more(g: &mut G, st: &mut RealBeaconState, b: &mut RealBeaconBlockBody, c: &RealCtx) {
    st.deposit_receipts_start_index = g.pick(&[u64::MAX, u64::MAX, 0, st.eth1_deposit_index + 1]);
    for _ in 0..g.below(3) { let d = gen_deposit_data(g, st, c); b.execution_payload.deposit_receipts.push(ec::electra::DepositReceipt { public_key: d.public_key, withdrawal_credentials: d.withdrawal_credentials, amount: d.amount, signature: d.signature, index: g.below(1000) }); }
    for _ in 0..g.below(3) {
        let i = g.idx(st.validators.len()); let mut r = ec::electra::ExecutionLayerWithdrawalRequest::default(); r.validator_public_key = key(i).pk;
        for k in 0..20 { r.source_address[k] = st.validators[i].withdrawal_credentials[12 + k]; } r.amount = g.pick(&[0u64, 1, GWEI]); b.execution_payload.withdrawal_requests.push(r);
    }
}
@@test operations props=C17 n=60
let mut c = gen_ctx(g); c.max_deposits = g.idx(4); c.shard_committee_period = 0; let (mut st, a) = gen_attested(g, &mut c); st.eth1_deposit_index = g.below(100); let cc = c.cv(); let n = st.validators.len(); let e = epoch_of(&st, &c);
let mut b = RealBeaconBlockBody::default(); gen_more(g, &mut st, &mut b, &c);
let left = g.below(5); st.eth1_data.deposit_count = st.eth1_deposit_index + left; let k = if g.chance(10) { g.idx(4) } else { (left as usize).min(c.max_deposits) };
for d in gen_deposits(g, &mut st, &c, k) { b.deposits.push(d); }
if g.bool() { b.attestations.push(a); }
for _ in 0..g.below(3) {
    let i = g.idx(n); let mut x = RealSignedVoluntaryExit::default(); x.message.validator_index = i; x.message.epoch = 0;
    let v = &mut st.validators[i]; v.activation_epoch = 0; v.activation_eligibility_epoch = 0; v.exit_epoch = u64::MAX; v.withdrawable_epoch = u64::MAX;
    let s = st.cv(); x.signature = key(i).sk.sign(sp_signing_root(x.message.cv().htr1(), sp_exit_domain(s, 0, cc)).0); b.voluntary_exits.push(x);
}
if kf_deposits(st.cv()) { return Ok(()); }
let s = st.cv(); let m = b.cv(); let ok = sp_operations_ok(s, m, cc); g.note("operations", ok); g.note("deposit count", sp_deposit_count_ok(s, m, cc));
let r = sp::process_operations(&mut st, &b, &c).is_ok(); eqv!(r, ok, "process_operations with {} deposits at most {}, {} left, {} exits and {} attestations at epoch {e}", b.deposits.len(), c.max_deposits, left, b.voluntary_exits.len(), b.attestations.len());
if ok { seq_st!(st, sp_operations(s, m, cc), "process_operations with {} deposits, {} exits and {} attestations", b.deposits.len(), b.voluntary_exits.len(), b.attestations.len()); }
