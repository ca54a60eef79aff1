@@module identifiers file=ethereum-consensus/src/networks.rs,ethereum-consensus/src/fork.rs,ethereum-consensus/src/networking.rs,ethereum-consensus/src/ssz/byte_vector.rs,ethereum-consensus/src/crypto/bls.rs,beacon-api-client/src/types.rs,ethereum-consensus/src/primitives.rs assoc=1
@@prelude
pub mod fmt { pub struct Error; pub type Result = core::result::Result<(), Error>; }
// ---- specification: two lowercase digits per byte ----
pub open spec fn digit(n: int) -> char { if 0 <= n < 10 { (48 + n) as char } else { (87 + n) as char } }
pub open spec fn hex_of(b: Seq<u8>) -> Seq<char>
    decreases b.len()
{
    if b.len() == 0 { Seq::empty() } else { hex_of(b.drop_last()) + seq![digit(b.last() as int / 16), digit(b.last() as int % 16)] }
}
pub open spec fn digit_val(c: char) -> int {
    if 48 <= c as int <= 57 { c as int - 48 } else if 97 <= c as int <= 102 { c as int - 87 } else if 65 <= c as int <= 70 { c as int - 55 } else { -1 }
}
// bytes of a digit string, None if it is malformed
pub open spec fn hex_parse(s: Seq<char>) -> Option<Seq<u8>>
    decreases s.len()
{
    if s.len() == 0 { Some(Seq::empty()) }
    else if s.len() == 1 { None }
    else {
        let a = digit_val(s[s.len() - 2]);
        let b = digit_val(s[s.len() - 1]);
        match hex_parse(s.subrange(0, s.len() - 2)) {
            Some(v) => if a >= 0 && b >= 0 { Some(v.push((a * 16 + b) as u8)) } else { None },
            None => None,
        }
    }
}
// decoding what was encoded gives the bytes back
pub proof fn lemma_round_trip(b: Seq<u8>)
    ensures hex_parse(hex_of(b)) == Some(b), hex_of(b).len() == 2 * b.len()
    decreases b.len()
{
    if b.len() > 0 {
        lemma_round_trip(b.drop_last());
        let h = hex_of(b);
        assert(h.subrange(0, h.len() - 2) =~= hex_of(b.drop_last()));
        assert(b.drop_last().push(b.last()) =~= b);
    }
}
pub proof fn lemma_push(b: Seq<u8>, x: u8)
    ensures hex_of(b.push(x)) == hex_of(b) + seq![digit(x as int / 16), digit(x as int % 16)]
{
    assert(b.push(x).drop_last() =~= b);
}
pub open spec fn prefix() -> Seq<char> { seq!['0', 'x'] }
pub open spec fn strip(s: Seq<char>) -> Seq<char> { if s.len() >= 2 && s[0] == '0' && s[1] == 'x' { s.subrange(2, s.len() as int) } else { s } }
// ---- decimal numbers ----
pub open spec fn dec(n: nat) -> Seq<char>
    decreases n
{
    if n < 10 { seq![(48 + n) as char] } else { dec(n / 10).push((48 + n % 10) as char) }
}
pub open spec fn is_dec(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> 48 <= #[trigger] s[i] as int <= 57 }
pub open spec fn dec_val(s: Seq<char>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { dec_val(s.drop_last()) * 10 + (s.last() as int - 48) }
}
pub open spec fn no_plus(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s[0] == '+' { s.drop_first() } else { s } }
// what parsing an unsigned number accepts
pub open spec fn dec_parse(s: Seq<char>) -> Option<u64> {
    let t = no_plus(s);
    if t.len() > 0 && is_dec(t) && dec_val(t) <= u64::MAX { Some(dec_val(t) as u64) } else { None }
}
pub proof fn lemma_dec(n: nat)
    ensures dec(n).len() > 0, is_dec(dec(n)), dec_val(dec(n)) == n
    decreases n
{
    if n >= 10 {
        lemma_dec(n / 10);
        assert(dec(n).drop_last() =~= dec(n / 10));
    } else {
        assert(dec(n).drop_last() =~= Seq::<char>::empty());
        assert(dec_val(Seq::<char>::empty()) == 0);
    }
}
pub proof fn lemma_dec_round_trip(n: u64)
    ensures dec_parse(dec(n as nat)) == Some(n)
{
    lemma_dec(n as nat);
    assert(48 <= dec(n as nat)[0] as int <= 57);
    assert(no_plus(dec(n as nat)) == dec(n as nat));
}
// ---- 32-byte roots (ssz_rs::Node): printed as 0x and 64 digits ----
#[verifier::external_body]
pub struct Root { _p: [u8; 32] }
impl Clone for Root { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl Copy for Root {}
impl View for Root { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
pub uninterp spec fn root_of(b: Seq<u8>) -> Root;
#[verifier::external_body]
pub proof fn axiom_root(r: Root)
    ensures r@.len() == 32, root_of(r@) == r
{}
#[verifier::external_body]
pub fn v_root(b: &[u8]) -> (r: core::result::Result<Root, ()>)
    ensures r is Ok <==> b@.len() == 32, r matches Ok(x) ==> x == root_of(b@)
{ unimplemented!() }
// the error message only
#[verifier::external_body]
pub fn v_msg() -> (r: String) { unimplemented!() }
// ---- specification of the identifiers ----
pub open spec fn text_state_id(x: StateId) -> Seq<char> {
    match x {
        StateId::Head => "head"@,
        StateId::Genesis => "genesis"@,
        StateId::Finalized => "finalized"@,
        StateId::Justified => "justified"@,
        StateId::Slot(n) => dec(n as nat),
        StateId::Root(r) => prefix() + hex_of(r@),
    }
}
// the state a text names, None where it names nothing
pub open spec fn state_id_of(s: Seq<char>) -> Option<StateId> {
    if s == "head"@ { Some(StateId::Head) }
    else if s == "genesis"@ { Some(StateId::Genesis) }
    else if s == "finalized"@ { Some(StateId::Finalized) }
    else if s == "justified"@ { Some(StateId::Justified) }
    else if dec_parse(s) is Some { Some(StateId::Slot(dec_parse(s)->0)) }
    else if hex_parse(strip(s)) is Some && (hex_parse(strip(s))->0).len() == 32 { Some(StateId::Root(root_of(hex_parse(strip(s))->0))) }
    else { None }
}
pub open spec fn text_block_id(x: BlockId) -> Seq<char> {
    match x {
        BlockId::Head => "head"@,
        BlockId::Genesis => "genesis"@,
        BlockId::Finalized => "finalized"@,
        BlockId::Slot(n) => dec(n as nat),
        BlockId::Root(r) => prefix() + hex_of(r@),
    }
}
pub proof fn lemma_words()
    ensures "head"@ == seq!['h', 'e', 'a', 'd'], "genesis"@ == seq!['g', 'e', 'n', 'e', 's', 'i', 's'], "finalized"@ == seq!['f', 'i', 'n', 'a', 'l', 'i', 'z', 'e', 'd'], "justified"@ == seq!['j', 'u', 's', 't', 'i', 'f', 'i', 'e', 'd']
{
    reveal_strlit("head"); reveal_strlit("genesis"); reveal_strlit("finalized"); reveal_strlit("justified");
    assert("head"@ =~= seq!['h', 'e', 'a', 'd']);
    assert("genesis"@ =~= seq!['g', 'e', 'n', 'e', 's', 'i', 's']);
    assert("finalized"@ =~= seq!['f', 'i', 'n', 'a', 'l', 'i', 'z', 'e', 'd']);
    assert("justified"@ =~= seq!['j', 'u', 's', 't', 'i', 'f', 'i', 'e', 'd']);
}
// a formatted state identifier parses back to itself
pub proof fn lemma_state_id_round_trip(x: StateId)
    ensures state_id_of(text_state_id(x)) == Some(x)
{
    lemma_words();
    let t = text_state_id(x);
    match x {
        StateId::Slot(n) => {
            lemma_dec_round_trip(n);
            lemma_dec(n as nat);
            assert(48 <= t[0] as int <= 57);
            assert("head"@[0] == 'h' && "genesis"@[0] == 'g' && "finalized"@[0] == 'f' && "justified"@[0] == 'j');
        },
        StateId::Root(r) => {
            axiom_root(r);
            lemma_round_trip(r@);
            assert(t.subrange(2, t.len() as int) =~= hex_of(r@));
            assert(t[0] == '0' && t[1] == 'x');
            assert("head"@[0] == 'h' && "genesis"@[0] == 'g' && "finalized"@[0] == 'f' && "justified"@[0] == 'j');
            assert(no_plus(t) == t);
            assert(!is_dec(t));
        },
        StateId::Genesis => { assert("head"@.len() != "genesis"@.len()); },
        StateId::Finalized => { assert("head"@.len() != "finalized"@.len() && "genesis"@.len() != "finalized"@.len()); },
        StateId::Justified => { assert("head"@.len() != "justified"@.len() && "genesis"@.len() != "justified"@.len()); assert("justified"@[0] != "finalized"@[0]); },
        _ => {},
    }
}
// no two block identifiers share a text, and a block identifier names the same in place of a state
pub proof fn lemma_block_id(a: BlockId, b: BlockId)
    ensures text_block_id(a) == text_block_id(b) ==> a == b,
        text_block_id(a) == text_state_id(as_state(a)),
{
    lemma_state_id_round_trip(as_state(a));
    lemma_state_id_round_trip(as_state(b));
}
pub open spec fn as_state(a: BlockId) -> StateId {
    match a {
        BlockId::Head => StateId::Head,
        BlockId::Genesis => StateId::Genesis,
        BlockId::Finalized => StateId::Finalized,
        BlockId::Slot(n) => StateId::Slot(n),
        BlockId::Root(r) => StateId::Root(r),
    }
}
pub open spec fn text_validator(x: PublicKeyOrIndex) -> Seq<char> {
    match x {
        PublicKeyOrIndex::PublicKey(k) => prefix() + hex_of(k.0@),
        PublicKeyOrIndex::Index(n) => dec(n as nat),
    }
}
// a validator's text says whether it is a key or an index, and which
pub proof fn lemma_validator(a: PublicKeyOrIndex, b: PublicKeyOrIndex)
    requires text_validator(a) == text_validator(b)
    ensures (a is Index <==> b is Index), a is Index ==> a == b, a is PublicKey ==> (a->PublicKey_0).0@ == (b->PublicKey_0).0@
{
    let (s, t) = (text_validator(a), text_validator(b));
    if a is Index { lemma_dec_round_trip(a->Index_0 as u64); lemma_dec((a->Index_0) as nat); }
    if b is Index { lemma_dec_round_trip(b->Index_0 as u64); lemma_dec((b->Index_0) as nat); }
    if a is PublicKey { assert(s[1] == 'x'); lemma_round_trip((a->PublicKey_0).0@); assert(s.subrange(2, s.len() as int) =~= hex_of((a->PublicKey_0).0@)); }
    if b is PublicKey { assert(t[1] == 'x'); lemma_round_trip((b->PublicKey_0).0@); assert(t.subrange(2, t.len() as int) =~= hex_of((b->PublicKey_0).0@)); }
}
pub open spec fn text_ValidatorStatus(x: ValidatorStatus) -> Seq<char> {
    match x {
        ValidatorStatus::PendingInitialized => "pending_initialized"@,
        ValidatorStatus::PendingQueued => "pending_queued"@,
        ValidatorStatus::ActiveOngoing => "active_ongoing"@,
        ValidatorStatus::ActiveExiting => "active_exiting"@,
        ValidatorStatus::ActiveSlashed => "active_slashed"@,
        ValidatorStatus::ExitedUnslashed => "exited_unslashed"@,
        ValidatorStatus::ExitedSlashed => "exited_slashed"@,
        ValidatorStatus::WithdrawalPossible => "withdrawal_possible"@,
        ValidatorStatus::WithdrawalDone => "withdrawal_done"@,
        ValidatorStatus::Active => "active"@,
        ValidatorStatus::Pending => "pending"@,
        ValidatorStatus::Exited => "exited"@,
        ValidatorStatus::Withdrawal => "withdrawal"@,
    }
}
// no two values share a text
pub proof fn lemma_text_ValidatorStatus(a: ValidatorStatus, b: ValidatorStatus)
    requires text_ValidatorStatus(a) == text_ValidatorStatus(b)
    ensures a == b
{
    reveal_strlit("pending_initialized");
    reveal_strlit("pending_queued");
    reveal_strlit("active_ongoing");
    reveal_strlit("active_exiting");
    reveal_strlit("active_slashed");
    reveal_strlit("exited_unslashed");
    reveal_strlit("exited_slashed");
    reveal_strlit("withdrawal_possible");
    reveal_strlit("withdrawal_done");
    reveal_strlit("active");
    reveal_strlit("pending");
    reveal_strlit("exited");
    reveal_strlit("withdrawal");
    let (s, t) = (text_ValidatorStatus(a), text_ValidatorStatus(b));
    assert(s.len() == t.len());
    assert(forall|i: int| 0 <= i < s.len() ==> s[i] == t[i]);
    if a is PendingInitialized && b is WithdrawalPossible { assert(s[0] != t[0]); }
    if a is PendingQueued && b is ActiveOngoing { assert(s[0] != t[0]); }
    if a is PendingQueued && b is ActiveExiting { assert(s[0] != t[0]); }
    if a is PendingQueued && b is ActiveSlashed { assert(s[0] != t[0]); }
    if a is PendingQueued && b is ExitedSlashed { assert(s[0] != t[0]); }
    if a is ActiveOngoing && b is PendingQueued { assert(s[0] != t[0]); }
    if a is ActiveOngoing && b is ActiveExiting { assert(s[7] != t[7]); }
    if a is ActiveOngoing && b is ActiveSlashed { assert(s[7] != t[7]); }
    if a is ActiveOngoing && b is ExitedSlashed { assert(s[0] != t[0]); }
    if a is ActiveExiting && b is PendingQueued { assert(s[0] != t[0]); }
    if a is ActiveExiting && b is ActiveOngoing { assert(s[7] != t[7]); }
    if a is ActiveExiting && b is ActiveSlashed { assert(s[7] != t[7]); }
    if a is ActiveExiting && b is ExitedSlashed { assert(s[0] != t[0]); }
    if a is ActiveSlashed && b is PendingQueued { assert(s[0] != t[0]); }
    if a is ActiveSlashed && b is ActiveOngoing { assert(s[7] != t[7]); }
    if a is ActiveSlashed && b is ActiveExiting { assert(s[7] != t[7]); }
    if a is ActiveSlashed && b is ExitedSlashed { assert(s[0] != t[0]); }
    if a is ExitedSlashed && b is PendingQueued { assert(s[0] != t[0]); }
    if a is ExitedSlashed && b is ActiveOngoing { assert(s[0] != t[0]); }
    if a is ExitedSlashed && b is ActiveExiting { assert(s[0] != t[0]); }
    if a is ExitedSlashed && b is ActiveSlashed { assert(s[0] != t[0]); }
    if a is WithdrawalPossible && b is PendingInitialized { assert(s[0] != t[0]); }
    if a is Active && b is Exited { assert(s[0] != t[0]); }
    if a is Exited && b is Active { assert(s[0] != t[0]); }
}
pub open spec fn text_BroadcastValidation(x: BroadcastValidation) -> Seq<char> {
    match x {
        BroadcastValidation::Gossip => "gossip"@,
        BroadcastValidation::Consensus => "consensus"@,
        BroadcastValidation::ConsensusAndEquivocation => "consensus_and_equivocation"@,
    }
}
// no two values share a text
pub proof fn lemma_text_BroadcastValidation(a: BroadcastValidation, b: BroadcastValidation)
    requires text_BroadcastValidation(a) == text_BroadcastValidation(b)
    ensures a == b
{
    reveal_strlit("gossip");
    reveal_strlit("consensus");
    reveal_strlit("consensus_and_equivocation");
    let (s, t) = (text_BroadcastValidation(a), text_BroadcastValidation(b));
    assert(s.len() == t.len());
    assert(forall|i: int| 0 <= i < s.len() ==> s[i] == t[i]);
}
pub open spec fn text_PeerState(x: PeerState) -> Seq<char> {
    match x {
        PeerState::Disconnected => "disconnected"@,
        PeerState::Connecting => "connecting"@,
        PeerState::Connected => "connected"@,
        PeerState::Disconnecting => "disconnecting"@,
    }
}
// no two values share a text
pub proof fn lemma_text_PeerState(a: PeerState, b: PeerState)
    requires text_PeerState(a) == text_PeerState(b)
    ensures a == b
{
    reveal_strlit("disconnected");
    reveal_strlit("connecting");
    reveal_strlit("connected");
    reveal_strlit("disconnecting");
    let (s, t) = (text_PeerState(a), text_PeerState(b));
    assert(s.len() == t.len());
    assert(forall|i: int| 0 <= i < s.len() ==> s[i] == t[i]);
}
pub open spec fn text_ConnectionOrientation(x: ConnectionOrientation) -> Seq<char> {
    match x {
        ConnectionOrientation::Inbound => "inbound"@,
        ConnectionOrientation::Outbound => "outbound"@,
    }
}
// no two values share a text
pub proof fn lemma_text_ConnectionOrientation(a: ConnectionOrientation, b: ConnectionOrientation)
    requires text_ConnectionOrientation(a) == text_ConnectionOrientation(b)
    ensures a == b
{
    reveal_strlit("inbound");
    reveal_strlit("outbound");
    let (s, t) = (text_ConnectionOrientation(a), text_ConnectionOrientation(b));
    assert(s.len() == t.len());
    assert(forall|i: int| 0 <= i < s.len() ==> s[i] == t[i]);
}
pub open spec fn text_Fork(x: Fork) -> Seq<char> {
    match x {
        Fork::Phase0 => "phase0"@,
        Fork::Altair => "altair"@,
        Fork::Bellatrix => "bellatrix"@,
        Fork::Capella => "capella"@,
        Fork::Deneb => "deneb"@,
        Fork::Electra => "electra"@,
    }
}
// no two values share a text
pub proof fn lemma_text_Fork(a: Fork, b: Fork)
    requires text_Fork(a) == text_Fork(b)
    ensures a == b
{
    reveal_strlit("phase0");
    reveal_strlit("altair");
    reveal_strlit("bellatrix");
    reveal_strlit("capella");
    reveal_strlit("deneb");
    reveal_strlit("electra");
    let (s, t) = (text_Fork(a), text_Fork(b));
    assert(s.len() == t.len());
    assert(forall|i: int| 0 <= i < s.len() ==> s[i] == t[i]);
    if a is Phase0 && b is Altair { assert(s[0] != t[0]); }
    if a is Altair && b is Phase0 { assert(s[0] != t[0]); }
    if a is Capella && b is Electra { assert(s[0] != t[0]); }
    if a is Electra && b is Capella { assert(s[0] != t[0]); }
}
// ---- networks ----
pub open spec fn text_network(n: Network) -> Seq<char> {
    match n {
        Network::Mainnet => "mainnet"@,
        Network::Sepolia => "sepolia"@,
        Network::Goerli => "goerli"@,
        Network::Holesky => "holesky"@,
        Network::Hoodi => "hoodi"@,
        Network::Custom(dir) => "custom ("@ + dir@ + "/config.yaml)"@,
    }
}
// the text that names a network: its name, or the configuration directory
pub open spec fn name_network(n: Network) -> Seq<char> {
    match n { Network::Custom(dir) => dir@, _ => text_network(n) }
}
pub open spec fn named(n: Network, s: Seq<char>) -> bool {
    if s == "mainnet"@ { n is Mainnet }
    else if s == "sepolia"@ { n is Sepolia }
    else if s == "goerli"@ { n is Goerli }
    else if s == "holesky"@ { n is Holesky }
    else if s == "hoodi"@ { n is Hoodi }
    else { n is Custom && (n->Custom_0)@ == s }
}
// a network that was read from a text is written as that text
pub proof fn lemma_network(n: Network, s: Seq<char>)
    requires named(n, s)
    ensures name_network(n) == s
{}
// and what is written is read back, a custom network whose directory has the name of an established one excepted
pub proof fn lemma_network_back(n: Network, m: Network)
    requires named(m, name_network(n)), n is Custom ==> !(n->Custom_0@ == "mainnet"@ || n->Custom_0@ == "sepolia"@ || n->Custom_0@ == "goerli"@ || n->Custom_0@ == "holesky"@ || n->Custom_0@ == "hoodi"@)
    ensures m is Mainnet <==> n is Mainnet, m is Sepolia <==> n is Sepolia, m is Goerli <==> n is Goerli, m is Holesky <==> n is Holesky, m is Hoodi <==> n is Hoodi,
        m is Custom <==> n is Custom, m is Custom ==> (m->Custom_0)@ == (n->Custom_0)@
{
    reveal_strlit("mainnet"); reveal_strlit("sepolia"); reveal_strlit("goerli"); reveal_strlit("holesky"); reveal_strlit("hoodi");
    assert("mainnet"@[0] == 'm' && "sepolia"@[0] == 's' && "goerli"@[0] == 'g' && "holesky"@[0] == 'h' && "hoodi"@[0] == 'h' && "holesky"@.len() == 7 && "hoodi"@.len() == 5);
}
pub struct VStringFrom;
#[verifier::external_body]
pub struct Context { _p: u8 }
pub use mh::Error;
pub uninterp spec fn ctx_mainnet() -> Context;
pub uninterp spec fn ctx_sepolia() -> Context;
pub uninterp spec fn ctx_goerli() -> Context;
pub uninterp spec fn ctx_holesky() -> Context;
pub uninterp spec fn ctx_hoodi() -> Context;
pub uninterp spec fn ctx_file(path: Seq<char>) -> core::result::Result<Context, Error>;
// the contexts themselves: property C27
impl Context {
    #[verifier::external_body] pub fn for_mainnet() -> (r: Context) ensures r == ctx_mainnet() { unimplemented!() }
    #[verifier::external_body] pub fn for_sepolia() -> (r: Context) ensures r == ctx_sepolia() { unimplemented!() }
    #[verifier::external_body] pub fn for_goerli() -> (r: Context) ensures r == ctx_goerli() { unimplemented!() }
    #[verifier::external_body] pub fn for_holesky() -> (r: Context) ensures r == ctx_holesky() { unimplemented!() }
    #[verifier::external_body] pub fn for_hoodi() -> (r: Context) ensures r == ctx_hoodi() { unimplemented!() }
    #[verifier::external_body] pub fn try_from_file(p: PathBuf) -> (r: core::result::Result<Context, Error>) ensures r == ctx_file(p@) { unimplemented!() }
}
#[verifier::external_body]
pub struct PathBuf { _p: u8 }
impl View for PathBuf { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub uninterp spec fn joined(a: Seq<char>, b: Seq<char>) -> Seq<char>;
impl PathBuf {
    #[verifier::external_body] pub fn from(s: String) -> (r: PathBuf) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body] pub fn join(&self, s: &str) -> (r: PathBuf) ensures r@ == joined(self@, s@) { unimplemented!() }
}
// ---- the library functions called (assumed contracts) ----
#[verifier::external_body]
pub fn v_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn v_parse_u64(s: &str) -> (r: core::result::Result<u64, ()>) ensures r is Ok <==> dec_parse(s@) is Some, r matches Ok(n) ==> dec_parse(s@) == Some(n) { unimplemented!() }
#[verifier::external_body]
pub struct Formatter { _p: u8 }
pub uninterp spec fn out_of(f: Formatter) -> Seq<char>;
#[verifier::external_body]
pub fn v_write_lit(f: &mut Formatter, s: &str) -> (r: fmt::Result) ensures r is Ok ==> out_of(*final(f)) == out_of(*old(f)) + s@ { unimplemented!() }
// what the values write of themselves: `{x}` (Display) and `{x:?}` (Debug)
pub trait VDisplay { spec fn shown(&self) -> Seq<char>; }
pub trait VDebug { spec fn debugged(&self) -> Seq<char>; }
impl<T: VDisplay + ?Sized> VDisplay for &T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
impl<T: VDebug> VDebug for &T { open spec fn debugged(&self) -> Seq<char> { (**self).debugged() } }
impl VDisplay for u64 { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) } }
impl VDisplay for usize { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) } }
impl VDisplay for String { open spec fn shown(&self) -> Seq<char> { self@ } }
impl VDisplay for str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl VDisplay for Network { open spec fn shown(&self) -> Seq<char> { text_network(*self) } }
impl VDebug for Root { open spec fn debugged(&self) -> Seq<char> { prefix() + hex_of(self@) } }
impl<const N: usize> VDebug for ByteVector<N> { open spec fn debugged(&self) -> Seq<char> { prefix() + hex_of(self@) } }
impl VDebug for PublicKey { open spec fn debugged(&self) -> Seq<char> { prefix() + hex_of(self.0@) } }
#[verifier::external_body]
pub fn v_write_show<T: VDisplay>(f: &mut Formatter, x: &T) -> (r: fmt::Result) ensures r is Ok ==> out_of(*final(f)) == out_of(*old(f)) + x.shown() { unimplemented!() }
#[verifier::external_body]
pub fn v_write_debug<T: VDebug>(f: &mut Formatter, x: &T) -> (r: fmt::Result) ensures r is Ok ==> out_of(*final(f)) == out_of(*old(f)) + x.debugged() { unimplemented!() }
#[verifier::external_body]
pub fn v_write_3<T: VDisplay>(f: &mut Formatter, a: &str, x: &T, b: &str) -> (r: fmt::Result) ensures r is Ok ==> out_of(*final(f)) == out_of(*old(f)) + (a@ + x.shown() + b@) { unimplemented!() }
#[verifier::external_body]
pub fn v_show<T: VDisplay>(x: &T) -> (r: String) ensures r@ == x.shown() { unimplemented!() }
// ssz_rs vectors of bytes
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Vector<T, const N: usize> { _p: core::marker::PhantomData<T> }
impl<const N: usize> View for Vector<u8, N> { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
pub struct DeserializeError;
impl<const N: usize> ByteVector<N> {
    pub open spec fn view(&self) -> Seq<u8> { self.0@ }
    // ssz_rs: a byte vector is serialized as its bytes
    #[verifier::external_body] pub fn deserialize(b: &[u8]) -> (r: core::result::Result<ByteVector<N>, DeserializeError>) ensures r is Ok <==> b@.len() == N, r matches Ok(v) ==> v@ == b@ { unimplemented!() }
}
// proved in module serde
#[verifier::external_body]
pub fn write_bytes_to_lower_hex<const N: usize>(f: &mut Formatter, v: &Vector<u8, N>) -> (r: fmt::Result) ensures r is Ok ==> out_of(*final(f)) == out_of(*old(f)) + prefix() + hex_of(v@) { unimplemented!() }
#[verifier::external_body]
pub fn try_bytes_from_hex_str(s: &str) -> (r: core::result::Result<Vec<u8>, ()>) ensures r is Ok <==> hex_parse(strip(s@)) is Some, r matches Ok(v) ==> hex_parse(strip(s@)) == Some(v@) { unimplemented!() }
// ---- peer identities ----
pub mod mh {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub struct Multihash { _p: u8 }
    pub enum Error { UnsupportedCode(u64), Other }
    pub enum Code { Sha2_256, Identity, Other }
    impl Clone for Multihash { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
    impl Copy for Multihash {}
    pub uninterp spec fn mh_bytes(m: Multihash) -> Seq<u8>;
    pub uninterp spec fn mh_parse(b: Seq<u8>) -> Option<Multihash>;
    pub uninterp spec fn mh_code(m: Multihash) -> u64;
    pub uninterp spec fn mh_digest(m: Multihash) -> Seq<u8>;
    pub uninterp spec fn b58(b: Seq<u8>) -> Seq<char>;
    pub uninterp spec fn b58_parse(s: Seq<char>) -> Option<Seq<u8>>;
    #[verifier::external_body]
    pub proof fn axiom_multihash(m: Multihash) ensures mh_parse(mh_bytes(m)) == Some(m) {}
    #[verifier::external_body]
    pub proof fn axiom_b58(b: Seq<u8>) ensures b58_parse(b58(b)) == Some(b) {}
    impl Multihash {
        #[verifier::external_body] pub fn code(&self) -> (r: u64) ensures r == mh_code(*self) { unimplemented!() }
        #[verifier::external_body] pub fn digest(&self) -> (r: &[u8]) ensures r@ == mh_digest(*self) { unimplemented!() }
        #[verifier::external_body] pub fn to_bytes(&self) -> (r: Vec<u8>) ensures r@ == mh_bytes(*self) { unimplemented!() }
        #[verifier::external_body] pub fn from_bytes(d: &[u8]) -> (r: core::result::Result<Multihash, Error>) ensures r is Ok <==> mh_parse(d@) is Some, r matches Ok(m) ==> mh_parse(d@) == Some(m) { unimplemented!() }
    }
    // the multicodec table: 0x00 identity, 0x12 sha2-256
    impl Code {
        #[verifier::external_body] pub fn try_from(c: u64) -> (r: core::result::Result<Code, Error>)
            ensures c == 0 ==> r == core::result::Result::<Code, Error>::Ok(Code::Identity), c == 0x12 ==> r == core::result::Result::<Code, Error>::Ok(Code::Sha2_256), (c != 0 && c != 0x12) ==> (r is Err || r->Ok_0 is Other) { unimplemented!() }
    }
    #[verifier::external_body] pub fn v_b58(b: Vec<u8>) -> (r: String) ensures r@ == b58(b@) { unimplemented!() }
    #[verifier::external_body] pub fn v_b58_parse(s: &str) -> (r: core::result::Result<Vec<u8>, super::ParseError>) ensures r is Ok <==> b58_parse(s@) is Some, r matches Ok(v) ==> b58_parse(s@) == Some(v@) { unimplemented!() }
}
pub use mh::{Multihash, Code, mh_bytes, mh_parse, mh_code, mh_digest, b58, b58_parse, axiom_multihash, axiom_b58, v_b58, v_b58_parse};
pub enum ParseError { B58, MultiHash }
// a peer identity is a SHA-256 multihash or an inlined key of at most 42 bytes
pub open spec fn peer_ok(m: Multihash) -> bool { mh_code(m) == 0x12 || (mh_code(m) == 0 && mh_digest(m).len() <= 42) }
pub open spec fn peer_of(b: Seq<u8>) -> Option<PeerId> {
    match mh_parse(b) { Some(m) => if peer_ok(m) { Some(PeerId { multihash: m }) } else { None }, None => None }
}
pub open spec fn peer_named(s: Seq<char>) -> Option<PeerId> { match b58_parse(s) { Some(b) => peer_of(b), None => None } }
pub proof fn lemma_peer(p: PeerId)
    requires peer_ok(p.multihash)
    ensures peer_named(b58(mh_bytes(p.multihash))) == Some(p)
{
    axiom_b58(mh_bytes(p.multihash));
    axiom_multihash(p.multihash);
}
@@subst
& mut (?:std :: )?fmt :: Formatter(?: < '_ >)? => & mut Formatter
(?:std :: )?fmt :: Result => fmt :: Result
\bwrite ! \( (\w+) , ("[^"{}]*") \) => v_write_lit ( \1 , \2 )
\bwrite ! \( (\w+) , "\{(\w+)\}" \) => v_write_show ( \1 , & \2 )
\bwrite ! \( (\w+) , "\{(\w+):\?\}" \) => v_write_debug ( \1 , & \2 )
\bwrite ! \( (\w+) , "([^"{}]*)\{(\w+)\}([^"{}]*)" \) => v_write_3 ( \1 , "\2" , & \3 , "\4" )
\bwrite ! \( (\w+) , "\{\}" , (\w+) \) => v_write_show ( \1 , & \2 )
\bwrite ! \( (\w+) , "\{:\?\}" , (\w+) \) => v_write_debug ( \1 , & \2 )
\bf \. write_str \( ("[^"]*"|\w+) \) => v_write_lit ( f , \1 )
\b(\w+) == ("[^"]*") => v_str_eq ( \1 , \2 )
\bwrite ! \( (\w+) , "\{\}" , ([^;{}]*) \) \} => v_write_show ( \1 , & \2 ) }
\bformat ! \( "\{(\w+)\}" \) => v_show ( & \1 )
\. map_err \( \| err \| format ! \( "[^"]*" \) \) => . map_err ( | err | -> ( r : String ) { v_msg ( ) } )
\bformat ! \( "[^"]*" \) => v_msg ( )
(\w+) \. parse :: < Slot > \( \) => v_parse_u64 ( \1 )
Root :: try_from \( (\w+) \. as_slice \( \) \) => v_root ( \1 . as_slice ( ) )
\b(?<!:: )Result < => core :: result :: Result <
bs58 :: encode \( ([^;{}]*?) \) \. into_string \( \) => v_b58 ( \1 )
\( value : Network \) -> \( r ?: Self \) => ( value : Network ) -> ( r : String )
bs58 :: decode \( s \) \. into_vec \( \) => v_b58_parse ( s )
ByteVector < BLS_PUBLIC_KEY_BYTES_LEN > => ByteVector < 48 >
\bBlsPublicKey\b => PublicKey
\| _ \| ParseError :: MultiHash => | _e | -> ( r : ParseError ) { ParseError :: MultiHash }
@@type Slot ValidatorIndex
@@const MAX_INLINE_KEY_LENGTH
@@enumr StateId BlockId PublicKeyOrIndex Network
@@struct PeerId PublicKey ByteVector
@@fn StateId::Display::fmt
ensures r is Ok ==> out_of(*final(f)) == out_of(*old(f)) + text_state_id(*self)
@@fn StateId::FromStr::from_str
ensures r is Ok <==> state_id_of(s@) is Some, r matches Ok(x) ==> state_id_of(s@) == Some(x)
@ start
proof { lemma_words(); assert("head"@.len() != "genesis"@.len()); assert("finalized"@[0] != "justified"@[0]); assert("head"@.len() == 4 && "genesis"@.len() == 7 && "finalized"@.len() == 9 && "justified"@.len() == 9); }
@@fn BlockId::Display::fmt
ensures r is Ok ==> out_of(*final(f)) == out_of(*old(f)) + text_block_id(*self)
@@fn PublicKeyOrIndex::Display::fmt
ensures r is Ok ==> out_of(*final(f)) == out_of(*old(f)) + text_validator(*self)
@@fn PublicKey::Debug::fmt
ensures r is Ok ==> out_of(*final(f)) == out_of(*old(f)) + self.debugged()
@@impl ByteVector impl<const N: usize> ByteVector<N>
@@fn ByteVector::Debug::fmt
ensures r is Ok ==> out_of(*final(f)) =~= out_of(*old(f)) + self.debugged()
@@fn ByteVector::TryFrom::try_from
ensures r is Ok <==> bytes@.len() == N, r matches Ok(v) ==> v@ == bytes@
@@fn Network::Display::fmt
ensures r is Ok ==> out_of(*final(f)) == out_of(*old(f)) + text_network(*self)
@@impl String impl VStringFrom
@@fn String::From::from
ensures r@ == name_network(value)
@@fn Network::From::from
ensures named(r, value@)
@@impl Context impl Context
@@fn Context::TryFrom::try_from
ensures match network {
    Network::Mainnet => r == core::result::Result::<Context, Error>::Ok(ctx_mainnet()),
    Network::Sepolia => r == core::result::Result::<Context, Error>::Ok(ctx_sepolia()),
    Network::Goerli => r == core::result::Result::<Context, Error>::Ok(ctx_goerli()),
    Network::Holesky => r == core::result::Result::<Context, Error>::Ok(ctx_holesky()),
    Network::Hoodi => r == core::result::Result::<Context, Error>::Ok(ctx_hoodi()),
    Network::Custom(dir) => r == ctx_file(joined(dir@, "config.yaml"@)),
}
@@fn PeerId::Display::fmt
ensures r is Ok ==> out_of(*final(f)) == out_of(*old(f)) + b58(mh_bytes(self.multihash))
@@fn PeerId::to_base58
ensures r@ == b58(mh_bytes(self.multihash))
@@fn PeerId::to_bytes
ensures r@ == mh_bytes(self.multihash)
@@fn PeerId::from_bytes
ensures r is Ok <==> peer_of(data@) is Some, r matches Ok(p) ==> peer_of(data@) == Some(p)
@@fn PeerId::from_multihash
ensures r is Ok <==> peer_ok(multihash), r matches Ok(p) ==> p.multihash == multihash
@@fn PeerId::FromStr::from_str
ensures r is Ok <==> peer_named(s@) is Some, r matches Ok(p) ==> peer_named(s@) == Some(p)
@@enum ValidatorStatus
@@fn ValidatorStatus::Display::fmt
ensures r is Ok ==> out_of(*final(f)) == out_of(*old(f)) + text_ValidatorStatus(*self)
@@enum BroadcastValidation
@@fn BroadcastValidation::Display::fmt
ensures r is Ok ==> out_of(*final(f)) == out_of(*old(f)) + text_BroadcastValidation(*self)
@@enum PeerState
@@fn PeerState::Display::fmt
ensures r is Ok ==> out_of(*final(f)) == out_of(*old(f)) + text_PeerState(*self)
@@enum ConnectionOrientation
@@fn ConnectionOrientation::Display::fmt
ensures r is Ok ==> out_of(*final(f)) == out_of(*old(f)) + text_ConnectionOrientation(*self)
@@enum Fork
@@fn Fork::Display::fmt
ensures r is Ok ==> out_of(*final(f)) == out_of(*old(f)) + text_Fork(*self)
