@@vspec forks=bellatrix+
pub open spec fn sp_root_transactions(p: ExecutionPayload) -> Node { htr(p.transactions@) }
@@rust forks=bellatrix+
pub fn sp_root_transactions(p: ExecutionPayload) -> Node { ssz_rs::HashTreeRoot::hash_tree_root(&p.rv().transactions).unwrap().cv() }
@@vspec forks=capella+
pub open spec fn sp_root_withdrawals(p: ExecutionPayload) -> Node { htr(p.withdrawals@) }
@@rust forks=capella+
pub fn sp_root_withdrawals(p: ExecutionPayload) -> Node { ssz_rs::HashTreeRoot::hash_tree_root(&p.rv().withdrawals).unwrap().cv() }
@@vspec forks=electra
pub open spec fn sp_root_deposit_receipts(p: ExecutionPayload) -> Node { htr(p.deposit_receipts@) }
@@rust forks=electra
pub fn sp_root_deposit_receipts(p: ExecutionPayload) -> Node { ssz_rs::HashTreeRoot::hash_tree_root(&p.rv().deposit_receipts).unwrap().cv() }
@@vspec forks=electra
pub open spec fn sp_root_withdrawal_requests(p: ExecutionPayload) -> Node { htr(p.withdrawal_requests@) }
@@rust forks=electra
pub fn sp_root_withdrawal_requests(p: ExecutionPayload) -> Node { ssz_rs::HashTreeRoot::hash_tree_root(&p.rv().withdrawal_requests).unwrap().cv() }
@@spec forks=bellatrix+
pub open spec fn sp_timestamp(s: StateV, slot: int, c: Context) -> int { s.genesis_time as int + slot * (c.seconds_per_slot as int) }
@@vspec forks=bellatrix+
pub open spec fn sp_default_header() -> ExecutionPayloadHeader { default_of::<ExecutionPayloadHeader>() }
pub open spec fn sp_default_payload() -> ExecutionPayload { default_of::<ExecutionPayload>() }
@@vspec forks=bellatrix
pub open spec fn sp_engine_ok(s: StateV, b: BeaconBlockBody, c: Context) -> bool { engine_ok(c.execution_engine, b.execution_payload) }
@@rust forks=bellatrix+
pub fn sp_default_header() -> ExecutionPayloadHeader { RealExecutionPayloadHeader::default().cv() }
pub fn sp_default_payload() -> ExecutionPayload { RealExecutionPayload::default().cv() }
@@vspec forks=capella
pub open spec fn sp_engine_ok(s: StateV, b: BeaconBlockBody, c: Context) -> bool { engine_ok(c.execution_engine, b.execution_payload) }
@@vspec forks=deneb+
pub open spec fn sp_engine_ok(s: StateV, b: BeaconBlockBody, c: Context) -> bool {
    engine_ok(c.execution_engine, NewPayloadRequest { execution_payload: b.execution_payload, versioned_hashes: vec_of(sp_versioned_hashes(b.blob_kzg_commitments@)), parent_beacon_block_root: s.latest_block_header.parent_root })
}
@@rust forks=bellatrix+
pub fn sp_engine_ok(_s: StateV, _b: BeaconBlockBody, c: Context) -> bool { c.execution_engine }
@@spec forks=deneb+
pub open spec fn sp_versioned(k: KzgCommitment) -> Bytes32 { Bytes32 { data: arr32(seq1(1u8) + b32(sha256(kzb(k))).subrange(1, 32)) } }
pub open spec fn sp_versioned_hashes(k: Seq<KzgCommitment>) -> Seq<Bytes32> { Seq::new(k.len(), |i: int| sp_versioned(k[i])) }
@@spec forks=bellatrix+
pub open spec fn sp_merge_complete(s: StateV) -> bool { s.latest_execution_payload_header != sp_default_header() }
pub open spec fn sp_merge_block(s: StateV, b: BeaconBlockBody) -> bool { !sp_merge_complete(s) && b.execution_payload != sp_default_payload() }
pub open spec fn sp_execution_enabled(s: StateV, b: BeaconBlockBody) -> bool { sp_merge_complete(s) || sp_merge_block(s, b) }
@@spec forks=bellatrix
pub open spec fn sp_parent_ok(s: StateV, p: ExecutionPayload) -> bool { !sp_merge_complete(s) || p.parent_hash == s.latest_execution_payload_header.block_hash }
pub open spec fn sp_blobs_ok(b: BeaconBlockBody, c: Context) -> bool { true }
@@spec forks=capella+
pub open spec fn sp_parent_ok(s: StateV, p: ExecutionPayload) -> bool { p.parent_hash == s.latest_execution_payload_header.block_hash }
@@spec forks=capella
pub open spec fn sp_blobs_ok(b: BeaconBlockBody, c: Context) -> bool { true }
@@spec forks=deneb+
pub open spec fn sp_blobs_ok(b: BeaconBlockBody, c: Context) -> bool { b.blob_kzg_commitments.len() as int <= c.max_blobs_per_block as int }
@@spec forks=bellatrix+
pub open spec fn sp_payload_ok(s: StateV, b: BeaconBlockBody, c: Context) -> bool {
    sp_parent_ok(s, b.execution_payload) && b.execution_payload.prev_randao == sp_randao_mix(s, sp_cur(s, c))
    && b.execution_payload.timestamp as int == sp_timestamp(s, s.slot as int, c) && sp_blobs_ok(b, c) && sp_engine_ok(s, b, c)
}
@@spec forks=bellatrix
pub open spec fn sp_payload_header(p: ExecutionPayload) -> ExecutionPayloadHeader {
    ExecutionPayloadHeader { parent_hash: p.parent_hash, fee_recipient: p.fee_recipient, state_root: p.state_root, receipts_root: p.receipts_root, logs_bloom: p.logs_bloom, prev_randao: p.prev_randao,
        block_number: p.block_number, gas_limit: p.gas_limit, gas_used: p.gas_used, timestamp: p.timestamp, extra_data: p.extra_data, base_fee_per_gas: p.base_fee_per_gas, block_hash: p.block_hash,
        transactions_root: sp_root_transactions(p) }
}
@@spec forks=capella
pub open spec fn sp_payload_header(p: ExecutionPayload) -> ExecutionPayloadHeader {
    ExecutionPayloadHeader { parent_hash: p.parent_hash, fee_recipient: p.fee_recipient, state_root: p.state_root, receipts_root: p.receipts_root, logs_bloom: p.logs_bloom, prev_randao: p.prev_randao,
        block_number: p.block_number, gas_limit: p.gas_limit, gas_used: p.gas_used, timestamp: p.timestamp, extra_data: p.extra_data, base_fee_per_gas: p.base_fee_per_gas, block_hash: p.block_hash,
        transactions_root: sp_root_transactions(p), withdrawals_root: sp_root_withdrawals(p) }
}
@@spec forks=deneb
pub open spec fn sp_payload_header(p: ExecutionPayload) -> ExecutionPayloadHeader {
    ExecutionPayloadHeader { parent_hash: p.parent_hash, fee_recipient: p.fee_recipient, state_root: p.state_root, receipts_root: p.receipts_root, logs_bloom: p.logs_bloom, prev_randao: p.prev_randao,
        block_number: p.block_number, gas_limit: p.gas_limit, gas_used: p.gas_used, timestamp: p.timestamp, extra_data: p.extra_data, base_fee_per_gas: p.base_fee_per_gas, block_hash: p.block_hash,
        transactions_root: sp_root_transactions(p), withdrawals_root: sp_root_withdrawals(p), blob_gas_used: p.blob_gas_used, excess_blob_gas: p.excess_blob_gas }
}
@@spec forks=electra
pub open spec fn sp_payload_header(p: ExecutionPayload) -> ExecutionPayloadHeader {
    ExecutionPayloadHeader { parent_hash: p.parent_hash, fee_recipient: p.fee_recipient, state_root: p.state_root, receipts_root: p.receipts_root, logs_bloom: p.logs_bloom, prev_randao: p.prev_randao,
        block_number: p.block_number, gas_limit: p.gas_limit, gas_used: p.gas_used, timestamp: p.timestamp, extra_data: p.extra_data, base_fee_per_gas: p.base_fee_per_gas, block_hash: p.block_hash,
        transactions_root: sp_root_transactions(p), withdrawals_root: sp_root_withdrawals(p), blob_gas_used: p.blob_gas_used, excess_blob_gas: p.excess_blob_gas,
        deposit_receipts_root: sp_root_deposit_receipts(p), withdrawal_requests_root: sp_root_withdrawal_requests(p) }
}
@@spec forks=bellatrix+
pub open spec fn sp_payload(s: StateV, p: ExecutionPayload) -> StateV { StateV { latest_execution_payload_header: sp_payload_header(p), ..s } }
@@vspec forks=bellatrix+
pub open spec fn payload_pre(s: StateV, c: Context) -> bool { wf_ctx(c) && wf_len(s) && sp_timestamp(s, s.slot as int, c) <= u64::MAX }
@@fn is_merge_transition_complete forks=bellatrix+
ensures r == sp_merge_complete(state@)
@@fn is_merge_transition_block forks=bellatrix+
ensures r == sp_merge_block(state@, *body)
@@fn is_execution_enabled forks=bellatrix+
ensures r == sp_execution_enabled(state@, *body)
@@fn Context::execution_engine forks=bellatrix+
ensures r.on() == self.execution_engine
@@fn compute_timestamp_at_slot forks=bellatrix+
requires sp_timestamp(state@, slot as int, *context) <= u64::MAX
ensures r is Ok, r matches Ok(v) ==> v as int == sp_timestamp(state@, slot as int, *context)
@ start
proof { assert(slot * context.seconds_per_slot >= 0) by (nonlinear_arith); assert(slot - GENESIS_SLOT == slot); }
@@fn kzg_commitment_to_versioned_hash forks=deneb+
ensures r == sp_versioned(*kzg_commitment)
@ tail
proof { assert(result.data@ =~= seq1(1u8) + sha256(kzb(*kzg_commitment)).data@.subrange(1, 32)); }
@@fn process_execution_payload forks=bellatrix,capella
requires payload_pre(old(state)@, *context)
ensures r is Ok <==> sp_payload_ok(old(state)@, *block, *context), r is Ok ==> final(state)@ == sp_payload(old(state)@, block.execution_payload), r is Err ==> final(state)@ == old(state)@
@ start
proof { lemma_epoch_bound(state@.slot as int, *context); }
@@fn process_execution_payload forks=deneb+
requires payload_pre(old(state)@, *context)
ensures r is Ok <==> sp_payload_ok(old(state)@, *body, *context), r is Ok ==> final(state)@ == sp_payload(old(state)@, body.execution_payload), r is Err ==> final(state)@ == old(state)@
@ start
proof { lemma_epoch_bound(state@.slot as int, *context); }
@ loop 0
invariant state@ == old(state)@, __acc0@ =~= sp_versioned_hashes(body.blob_kzg_commitments@).subrange(0, __i0 as int), __i0 <= body.blob_kzg_commitments.len()
@ after 0
proof { assert(__acc0@ =~= sp_versioned_hashes(body.blob_kzg_commitments@)); assert(vec_of(__acc0@) == __acc0); }
@@rust forks=bellatrix
pub fn more_payload(_g: &mut G, _p: &mut RealExecutionPayload) {}
pub fn more_body(_g: &mut G, _b: &mut RealBeaconBlockBody, _c: &RealCtx) {}
@@rust forks=capella
pub fn more_payload(g: &mut G, p: &mut RealExecutionPayload) { gen_withdrawals(g, p); }
pub fn more_body(_g: &mut G, _b: &mut RealBeaconBlockBody, _c: &RealCtx) {}
@@rust forks=deneb
pub fn more_payload(g: &mut G, p: &mut RealExecutionPayload) { gen_withdrawals(g, p); p.blob_gas_used = g.below(1000); p.excess_blob_gas = g.below(1000); }
@@rust forks=electra
pub fn more_payload(g: &mut G, p: &mut RealExecutionPayload) {
    gen_withdrawals(g, p); p.blob_gas_used = g.below(1000); p.excess_blob_gas = g.below(1000);
    for _ in 0..g.below(3) { let mut d = ec::electra::DepositReceipt::default(); d.amount = g.below(1000); d.index = g.below(50); p.deposit_receipts.push(d); }
    for _ in 0..g.below(3) { let mut d = ec::electra::ExecutionLayerWithdrawalRequest::default(); d.amount = g.below(1000); p.withdrawal_requests.push(d); }
}
@@rust forks=deneb+
pub fn more_body(g: &mut G, b: &mut RealBeaconBlockBody, c: &RealCtx) {
    let n = g.pick(&[0usize, 1, 2, c.max_blobs_per_block, c.max_blobs_per_block + 1]).min(c.max_blobs_per_block + 1);
    for _ in 0..n { let mut k = ec::crypto::KzgCommitment::default(); for i in 0..48 { k[i] = g.below(256) as u8; } b.blob_kzg_commitments.push(k); }
}
@@rust forks=capella+
pub fn gen_withdrawals(g: &mut G, p: &mut RealExecutionPayload) {
    for i in 0..g.idx(4) { let mut w = ec::capella::Withdrawal::default(); w.index = i; w.validator_index = g.idx(20); w.amount = g.below(1000); p.withdrawals.push(w); }
}
@@rust forks=bellatrix+
pub fn gen_payload_in(g: &mut G, st: &RealBeaconState, c: &RealCtx, p: &mut RealExecutionPayload) {
    let s = st.cv(); let cc = c.cv();
    p.parent_hash = st.latest_execution_payload_header.block_hash.clone(); p.prev_randao = sp_randao_mix(s, sp_cur(s, cc)).rv();
    p.timestamp = st.genesis_time + st.slot * c.seconds_per_slot;
    p.block_hash = g.b32(); p.state_root = g.b32(); p.receipts_root = g.b32(); p.block_number = g.below(1000); p.gas_limit = g.below(1000); p.gas_used = g.below(1000);
    p.base_fee_per_gas = Default::default(); for i in 0..g.idx(5) { p.extra_data.push(i as u8 + 1); } for i in 0..20 { p.fee_recipient[i] = g.below(256) as u8; } for i in 0..9 { p.logs_bloom[i * 3] = g.below(256) as u8; }
    for _ in 0..g.idx(4) { let mut x = ec::bellatrix::Transaction::default(); for i in 0..g.idx(6) { x.push(i as u8 + 7); } p.transactions.push(x); }
}
pub fn gen_latest(g: &mut G, st: &mut RealBeaconState) {
    let h = &mut st.latest_execution_payload_header; *h = Default::default();
    if g.chance(70) { h.block_hash = g.b32(); h.block_number = g.below(9); }
    st.genesis_time = g.pick(&[0u64, 1, 1606824023, 77]);
}
@@test payload props=C19 forks=bellatrix+ n=120
let mut c = gen_ctx(g); c.seconds_per_slot = g.pick(&[12u64, 1, 6, 5]); c.execution_engine = g.chance(85); let mut st = gen_state(g, &c); gen_latest(g, &mut st);
let q = st.slot + g.below(50); eqv!(sp::compute_timestamp_at_slot(&st, q, &c).unwrap() as int, sp_timestamp(st.cv(), q as int, c.cv()), "compute_timestamp_at_slot");
let mut b = RealBeaconBlockBody::default(); let (_, bad) = (0, g.chance(40));
gen_payload_in(g, &st, &c, &mut b.execution_payload); more_payload(g, &mut b.execution_payload); more_body(g, &mut b, &c);
if bad { let p = &mut b.execution_payload; match g.below(5) { 0 => p.parent_hash = g.b32(), 1 => p.prev_randao = g.b32(), 2 => p.timestamp += 1, 3 => p.timestamp = p.timestamp.wrapping_sub(1), _ => p.prev_randao = st.randao_mixes[(epoch_of(&st, &c) as usize + 1) % st.randao_mixes.len()].clone() } }
let s = st.cv(); let m = b.cv(); let cc = c.cv(); let ok = sp_payload_ok(s, m, cc); g.note("payload", ok);
let r = sp::process_execution_payload(&mut st, &b, &c).is_ok();
eqv!(r, ok, "process_execution_payload at slot {} with payload {:?}, engine answer {}", st.slot, b.execution_payload, c.execution_engine);
seq_st!(st, if ok { sp_payload(s, m.execution_payload) } else { s }, "process_execution_payload");
@@test merge props=C19 forks=bellatrix+ n=60
let c = gen_ctx(g); let mut st = gen_state(g, &c); gen_latest(g, &mut st); let mut b = RealBeaconBlockBody::default();
if g.chance(30) { gen_payload_in(g, &st, &c, &mut b.execution_payload); } else { match g.below(4) { 0 => b.execution_payload.timestamp = 1, 1 => b.execution_payload.transactions.push(Default::default()), 2 => b.execution_payload.extra_data.push(0), _ => {} } }
if g.chance(10) { st.latest_execution_payload_header = Default::default(); st.latest_execution_payload_header.extra_data.push(0); }
let s = st.cv(); let m = b.cv();
eqv!(sp::is_merge_transition_complete(&st), sp_merge_complete(s), "is_merge_transition_complete"); eqv!(sp::is_merge_transition_block(&st, &b), sp_merge_block(s, m), "is_merge_transition_block");
eqv!(sp::is_execution_enabled(&st, &b), sp_execution_enabled(s, m), "is_execution_enabled");
@@test versioned_hash props=C19 forks=deneb+ n=20
let mut k = ec::crypto::KzgCommitment::default(); for i in 0..48 { k[i] = g.below(256) as u8; }
eqv!(sp::kzg_commitment_to_versioned_hash(&k).cv(), sp_versioned(k.cv()), "kzg_commitment_to_versioned_hash of {:?}", k);
