# The executor: blocks of any fork applied to a state of any fork, upgrading it at each fork boundary on the way (C35).
@@module executor file=ethereum-consensus/src/state_transition/executor.rs,ethereum-consensus/src/state_transition/context.rs
@@prelude
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Fork { Phase0, Altair, Bellatrix, Capella, Deneb, Electra }
#[derive(Clone, Copy)] pub enum Validation { Enabled, Disabled }
pub enum Error { Overflow, InvalidForkTransition { source_fork: Fork, destination_fork: Fork }, Other(u8) }
pub type Epoch = u64;
pub type Slot = u64;
#[verifier::external_body] pub struct Rest { _p: u8 }
pub struct Context { pub altair_fork_epoch: u64, pub bellatrix_fork_epoch: u64, pub capella_fork_epoch: u64, pub deneb_fork_epoch: u64, pub electra_fork_epoch: u64, pub slots_per_epoch: u64, pub rest: Rest }
// the state transition functions: what they do is the subject of C20 (slots, blocks) and C21 (upgrades); here they are functions of their arguments
pub struct phase0__BeaconState { pub slot: u64, pub rest: Rest }
pub struct phase0__BeaconBlock { pub slot: u64, pub rest: Rest }
pub struct phase0__SignedBeaconBlock { pub message: phase0__BeaconBlock, pub signature: Rest }
pub mod phase0 { use super::*; use vstd::prelude::*;
pub uninterp spec fn slots(s: phase0__BeaconState, slot: u64, c: Context) -> Option<phase0__BeaconState>;
pub uninterp spec fn block(s: phase0__BeaconState, b: phase0__SignedBeaconBlock, v: Validation, c: Context) -> Option<phase0__BeaconState>;
pub open spec fn transition(s: phase0__BeaconState, b: phase0__SignedBeaconBlock, v: Validation, c: Context) -> Option<phase0__BeaconState> {
    match slots(s, b.message.slot, c) { Some(x) => block(x, b, v, c), None => None }
}
#[verifier::external_body] pub fn process_slots(state: &mut phase0__BeaconState, slot: u64, context: &Context) -> (r: core::result::Result<(), Error>)
    ensures r is Ok <==> slots(*old(state), slot, *context) is Some, r is Ok ==> slots(*old(state), slot, *context) == Some(*final(state)) && old(state).slot < slot && final(state).slot == slot { unimplemented!() }
#[verifier::external_body] pub fn state_transition(state: &mut phase0__BeaconState, signed_block: &phase0__SignedBeaconBlock, validation: Validation, context: &Context) -> (r: core::result::Result<(), Error>)
    ensures r is Ok <==> transition(*old(state), *signed_block, validation, *context) is Some, r is Ok ==> transition(*old(state), *signed_block, validation, *context) == Some(*final(state)) { unimplemented!() }
#[verifier::external_body] pub fn state_transition_block_in_slot(state: &mut phase0__BeaconState, signed_block: &phase0__SignedBeaconBlock, validation: Validation, context: &Context) -> (r: core::result::Result<(), Error>)
    ensures r is Ok <==> block(*old(state), *signed_block, validation, *context) is Some, r is Ok ==> block(*old(state), *signed_block, validation, *context) == Some(*final(state)) { unimplemented!() }
}
pub struct altair__BeaconState { pub slot: u64, pub rest: Rest }
pub struct altair__BeaconBlock { pub slot: u64, pub rest: Rest }
pub struct altair__SignedBeaconBlock { pub message: altair__BeaconBlock, pub signature: Rest }
pub mod altair { use super::*; use vstd::prelude::*;
pub uninterp spec fn slots(s: altair__BeaconState, slot: u64, c: Context) -> Option<altair__BeaconState>;
pub uninterp spec fn block(s: altair__BeaconState, b: altair__SignedBeaconBlock, v: Validation, c: Context) -> Option<altair__BeaconState>;
pub open spec fn transition(s: altair__BeaconState, b: altair__SignedBeaconBlock, v: Validation, c: Context) -> Option<altair__BeaconState> {
    match slots(s, b.message.slot, c) { Some(x) => block(x, b, v, c), None => None }
}
#[verifier::external_body] pub fn process_slots(state: &mut altair__BeaconState, slot: u64, context: &Context) -> (r: core::result::Result<(), Error>)
    ensures r is Ok <==> slots(*old(state), slot, *context) is Some, r is Ok ==> slots(*old(state), slot, *context) == Some(*final(state)) && old(state).slot < slot && final(state).slot == slot { unimplemented!() }
#[verifier::external_body] pub fn state_transition(state: &mut altair__BeaconState, signed_block: &altair__SignedBeaconBlock, validation: Validation, context: &Context) -> (r: core::result::Result<(), Error>)
    ensures r is Ok <==> transition(*old(state), *signed_block, validation, *context) is Some, r is Ok ==> transition(*old(state), *signed_block, validation, *context) == Some(*final(state)) { unimplemented!() }
#[verifier::external_body] pub fn state_transition_block_in_slot(state: &mut altair__BeaconState, signed_block: &altair__SignedBeaconBlock, validation: Validation, context: &Context) -> (r: core::result::Result<(), Error>)
    ensures r is Ok <==> block(*old(state), *signed_block, validation, *context) is Some, r is Ok ==> block(*old(state), *signed_block, validation, *context) == Some(*final(state)) { unimplemented!() }
pub uninterp spec fn upgrade(s: phase0__BeaconState, c: Context) -> Option<altair__BeaconState>;
#[verifier::external_body] pub fn upgrade_to_altair(state: &phase0__BeaconState, context: &Context) -> (r: core::result::Result<altair__BeaconState, Error>)
    ensures r is Ok <==> upgrade(*state, *context) is Some, r is Ok ==> upgrade(*state, *context) == Some(r->Ok_0) && r->Ok_0.slot == state.slot { unimplemented!() }
}
pub struct bellatrix__BeaconState { pub slot: u64, pub rest: Rest }
pub struct bellatrix__BeaconBlock { pub slot: u64, pub rest: Rest }
pub struct bellatrix__SignedBeaconBlock { pub message: bellatrix__BeaconBlock, pub signature: Rest }
pub mod bellatrix { use super::*; use vstd::prelude::*;
pub uninterp spec fn slots(s: bellatrix__BeaconState, slot: u64, c: Context) -> Option<bellatrix__BeaconState>;
pub uninterp spec fn block(s: bellatrix__BeaconState, b: bellatrix__SignedBeaconBlock, v: Validation, c: Context) -> Option<bellatrix__BeaconState>;
pub open spec fn transition(s: bellatrix__BeaconState, b: bellatrix__SignedBeaconBlock, v: Validation, c: Context) -> Option<bellatrix__BeaconState> {
    match slots(s, b.message.slot, c) { Some(x) => block(x, b, v, c), None => None }
}
#[verifier::external_body] pub fn process_slots(state: &mut bellatrix__BeaconState, slot: u64, context: &Context) -> (r: core::result::Result<(), Error>)
    ensures r is Ok <==> slots(*old(state), slot, *context) is Some, r is Ok ==> slots(*old(state), slot, *context) == Some(*final(state)) && old(state).slot < slot && final(state).slot == slot { unimplemented!() }
#[verifier::external_body] pub fn state_transition(state: &mut bellatrix__BeaconState, signed_block: &bellatrix__SignedBeaconBlock, validation: Validation, context: &Context) -> (r: core::result::Result<(), Error>)
    ensures r is Ok <==> transition(*old(state), *signed_block, validation, *context) is Some, r is Ok ==> transition(*old(state), *signed_block, validation, *context) == Some(*final(state)) { unimplemented!() }
#[verifier::external_body] pub fn state_transition_block_in_slot(state: &mut bellatrix__BeaconState, signed_block: &bellatrix__SignedBeaconBlock, validation: Validation, context: &Context) -> (r: core::result::Result<(), Error>)
    ensures r is Ok <==> block(*old(state), *signed_block, validation, *context) is Some, r is Ok ==> block(*old(state), *signed_block, validation, *context) == Some(*final(state)) { unimplemented!() }
pub uninterp spec fn upgrade(s: altair__BeaconState, c: Context) -> Option<bellatrix__BeaconState>;
#[verifier::external_body] pub fn upgrade_to_bellatrix(state: &altair__BeaconState, context: &Context) -> (r: bellatrix__BeaconState)
    ensures upgrade(*state, *context) == Some(r) && r.slot == state.slot { unimplemented!() }
}
pub struct capella__BeaconState { pub slot: u64, pub rest: Rest }
pub struct capella__BeaconBlock { pub slot: u64, pub rest: Rest }
pub struct capella__SignedBeaconBlock { pub message: capella__BeaconBlock, pub signature: Rest }
pub mod capella { use super::*; use vstd::prelude::*;
pub uninterp spec fn slots(s: capella__BeaconState, slot: u64, c: Context) -> Option<capella__BeaconState>;
pub uninterp spec fn block(s: capella__BeaconState, b: capella__SignedBeaconBlock, v: Validation, c: Context) -> Option<capella__BeaconState>;
pub open spec fn transition(s: capella__BeaconState, b: capella__SignedBeaconBlock, v: Validation, c: Context) -> Option<capella__BeaconState> {
    match slots(s, b.message.slot, c) { Some(x) => block(x, b, v, c), None => None }
}
#[verifier::external_body] pub fn process_slots(state: &mut capella__BeaconState, slot: u64, context: &Context) -> (r: core::result::Result<(), Error>)
    ensures r is Ok <==> slots(*old(state), slot, *context) is Some, r is Ok ==> slots(*old(state), slot, *context) == Some(*final(state)) && old(state).slot < slot && final(state).slot == slot { unimplemented!() }
#[verifier::external_body] pub fn state_transition(state: &mut capella__BeaconState, signed_block: &capella__SignedBeaconBlock, validation: Validation, context: &Context) -> (r: core::result::Result<(), Error>)
    ensures r is Ok <==> transition(*old(state), *signed_block, validation, *context) is Some, r is Ok ==> transition(*old(state), *signed_block, validation, *context) == Some(*final(state)) { unimplemented!() }
#[verifier::external_body] pub fn state_transition_block_in_slot(state: &mut capella__BeaconState, signed_block: &capella__SignedBeaconBlock, validation: Validation, context: &Context) -> (r: core::result::Result<(), Error>)
    ensures r is Ok <==> block(*old(state), *signed_block, validation, *context) is Some, r is Ok ==> block(*old(state), *signed_block, validation, *context) == Some(*final(state)) { unimplemented!() }
pub uninterp spec fn upgrade(s: bellatrix__BeaconState, c: Context) -> Option<capella__BeaconState>;
#[verifier::external_body] pub fn upgrade_to_capella(state: &bellatrix__BeaconState, context: &Context) -> (r: capella__BeaconState)
    ensures upgrade(*state, *context) == Some(r) && r.slot == state.slot { unimplemented!() }
}
pub struct deneb__BeaconState { pub slot: u64, pub rest: Rest }
pub struct deneb__BeaconBlock { pub slot: u64, pub rest: Rest }
pub struct deneb__SignedBeaconBlock { pub message: deneb__BeaconBlock, pub signature: Rest }
pub mod deneb { use super::*; use vstd::prelude::*;
pub uninterp spec fn slots(s: deneb__BeaconState, slot: u64, c: Context) -> Option<deneb__BeaconState>;
pub uninterp spec fn block(s: deneb__BeaconState, b: deneb__SignedBeaconBlock, v: Validation, c: Context) -> Option<deneb__BeaconState>;
pub open spec fn transition(s: deneb__BeaconState, b: deneb__SignedBeaconBlock, v: Validation, c: Context) -> Option<deneb__BeaconState> {
    match slots(s, b.message.slot, c) { Some(x) => block(x, b, v, c), None => None }
}
#[verifier::external_body] pub fn process_slots(state: &mut deneb__BeaconState, slot: u64, context: &Context) -> (r: core::result::Result<(), Error>)
    ensures r is Ok <==> slots(*old(state), slot, *context) is Some, r is Ok ==> slots(*old(state), slot, *context) == Some(*final(state)) && old(state).slot < slot && final(state).slot == slot { unimplemented!() }
#[verifier::external_body] pub fn state_transition(state: &mut deneb__BeaconState, signed_block: &deneb__SignedBeaconBlock, validation: Validation, context: &Context) -> (r: core::result::Result<(), Error>)
    ensures r is Ok <==> transition(*old(state), *signed_block, validation, *context) is Some, r is Ok ==> transition(*old(state), *signed_block, validation, *context) == Some(*final(state)) { unimplemented!() }
#[verifier::external_body] pub fn state_transition_block_in_slot(state: &mut deneb__BeaconState, signed_block: &deneb__SignedBeaconBlock, validation: Validation, context: &Context) -> (r: core::result::Result<(), Error>)
    ensures r is Ok <==> block(*old(state), *signed_block, validation, *context) is Some, r is Ok ==> block(*old(state), *signed_block, validation, *context) == Some(*final(state)) { unimplemented!() }
pub uninterp spec fn upgrade(s: capella__BeaconState, c: Context) -> Option<deneb__BeaconState>;
#[verifier::external_body] pub fn upgrade_to_deneb(state: &capella__BeaconState, context: &Context) -> (r: deneb__BeaconState)
    ensures upgrade(*state, *context) == Some(r) && r.slot == state.slot { unimplemented!() }
}
pub enum BeaconState { Phase0(phase0__BeaconState), Altair(altair__BeaconState), Bellatrix(bellatrix__BeaconState), Capella(capella__BeaconState), Deneb(deneb__BeaconState) }
pub enum SignedBeaconBlock { Phase0(phase0__SignedBeaconBlock), Altair(altair__SignedBeaconBlock), Bellatrix(bellatrix__SignedBeaconBlock), Capella(capella__SignedBeaconBlock), Deneb(deneb__SignedBeaconBlock) }
pub open spec fn sp_version(s: BeaconState) -> Fork { match s { BeaconState::Phase0(_) => Fork::Phase0, BeaconState::Altair(_) => Fork::Altair, BeaconState::Bellatrix(_) => Fork::Bellatrix, BeaconState::Capella(_) => Fork::Capella, BeaconState::Deneb(_) => Fork::Deneb } }
impl BeaconState { // proved in C30
#[verifier::external_body] pub fn version(&self) -> (r: Fork) ensures r == sp_version(*self) { unimplemented!() } }
pub open spec fn rank(f: Fork) -> int { match f { Fork::Phase0 => 0, Fork::Altair => 1, Fork::Bellatrix => 2, Fork::Capella => 3, Fork::Deneb => 4, Fork::Electra => 5 } }
// the latest fork whose epoch has come
pub open spec fn sp_fork_at(slot: u64, c: Context) -> Fork {
    let e = slot as int / c.slots_per_epoch as int;
    if e >= c.electra_fork_epoch { Fork::Electra } else if e >= c.deneb_fork_epoch { Fork::Deneb } else if e >= c.capella_fork_epoch { Fork::Capella }
    else if e >= c.bellatrix_fork_epoch { Fork::Bellatrix } else if e >= c.altair_fork_epoch { Fork::Altair } else { Fork::Phase0 }
}
// a phase0 state as it is at the first slot of altair: every slot before it processed (none, if it is there already), then upgraded
pub open spec fn to_altair(s: phase0__BeaconState, c: Context) -> Option<altair__BeaconState> {
    let t = c.altair_fork_epoch as int * c.slots_per_epoch as int;
    if t > u64::MAX { None } else if s.slot == t { altair::upgrade(s, c) } else { match phase0::slots(s, t as u64, c) { Some(x) => altair::upgrade(x, c), None => None } }
}
// a altair state as it is at the first slot of bellatrix: every slot before it processed (none, if it is there already), then upgraded
pub open spec fn to_bellatrix(s: altair__BeaconState, c: Context) -> Option<bellatrix__BeaconState> {
    let t = c.bellatrix_fork_epoch as int * c.slots_per_epoch as int;
    if t > u64::MAX { None } else if s.slot == t { bellatrix::upgrade(s, c) } else { match altair::slots(s, t as u64, c) { Some(x) => bellatrix::upgrade(x, c), None => None } }
}
// a bellatrix state as it is at the first slot of capella: every slot before it processed (none, if it is there already), then upgraded
pub open spec fn to_capella(s: bellatrix__BeaconState, c: Context) -> Option<capella__BeaconState> {
    let t = c.capella_fork_epoch as int * c.slots_per_epoch as int;
    if t > u64::MAX { None } else if s.slot == t { capella::upgrade(s, c) } else { match bellatrix::slots(s, t as u64, c) { Some(x) => capella::upgrade(x, c), None => None } }
}
// a capella state as it is at the first slot of deneb: every slot before it processed (none, if it is there already), then upgraded
pub open spec fn to_deneb(s: capella__BeaconState, c: Context) -> Option<deneb__BeaconState> {
    let t = c.deneb_fork_epoch as int * c.slots_per_epoch as int;
    if t > u64::MAX { None } else if s.slot == t { deneb::upgrade(s, c) } else { match capella::slots(s, t as u64, c) { Some(x) => deneb::upgrade(x, c), None => None } }
}
pub open spec fn sp_apply_phase0(st: BeaconState, b: phase0__SignedBeaconBlock, v: Validation, c: Context) -> Option<phase0__BeaconState> {
    if rank(sp_fork_at(b.message.slot, c)) > 0 { None } else { match st { BeaconState::Phase0(s) => phase0::transition(s, b, v, c), _ => None } }
}
pub open spec fn at_start_altair(s: altair__BeaconState, b: altair__SignedBeaconBlock, v: Validation, c: Context) -> Option<altair__BeaconState> {
    if b.message.slot == s.slot { altair::block(s, b, v, c) } else { altair::transition(s, b, v, c) }
}
pub open spec fn sp_apply_altair(st: BeaconState, b: altair__SignedBeaconBlock, v: Validation, c: Context) -> Option<altair__BeaconState> {
    if rank(sp_fork_at(b.message.slot, c)) > 1 { None } else { match st { BeaconState::Phase0(s0) => match to_altair(s0, c) { Some(s1) => at_start_altair(s1, b, v, c), None => None }, BeaconState::Altair(s) => altair::transition(s, b, v, c), _ => None } }
}
pub open spec fn at_start_bellatrix(s: bellatrix__BeaconState, b: bellatrix__SignedBeaconBlock, v: Validation, c: Context) -> Option<bellatrix__BeaconState> {
    if b.message.slot == s.slot { bellatrix::block(s, b, v, c) } else { bellatrix::transition(s, b, v, c) }
}
pub open spec fn sp_apply_bellatrix(st: BeaconState, b: bellatrix__SignedBeaconBlock, v: Validation, c: Context) -> Option<bellatrix__BeaconState> {
    if rank(sp_fork_at(b.message.slot, c)) > 2 { None } else { match st { BeaconState::Phase0(s0) => match to_altair(s0, c) { Some(s1) => match to_bellatrix(s1, c) { Some(s2) => at_start_bellatrix(s2, b, v, c), None => None }, None => None }, BeaconState::Altair(s1) => match to_bellatrix(s1, c) { Some(s2) => at_start_bellatrix(s2, b, v, c), None => None }, BeaconState::Bellatrix(s) => bellatrix::transition(s, b, v, c), _ => None } }
}
pub open spec fn at_start_capella(s: capella__BeaconState, b: capella__SignedBeaconBlock, v: Validation, c: Context) -> Option<capella__BeaconState> {
    if b.message.slot == s.slot { capella::block(s, b, v, c) } else { capella::transition(s, b, v, c) }
}
pub open spec fn sp_apply_capella(st: BeaconState, b: capella__SignedBeaconBlock, v: Validation, c: Context) -> Option<capella__BeaconState> {
    if rank(sp_fork_at(b.message.slot, c)) > 3 { None } else { match st { BeaconState::Phase0(s0) => match to_altair(s0, c) { Some(s1) => match to_bellatrix(s1, c) { Some(s2) => match to_capella(s2, c) { Some(s3) => at_start_capella(s3, b, v, c), None => None }, None => None }, None => None }, BeaconState::Altair(s1) => match to_bellatrix(s1, c) { Some(s2) => match to_capella(s2, c) { Some(s3) => at_start_capella(s3, b, v, c), None => None }, None => None }, BeaconState::Bellatrix(s2) => match to_capella(s2, c) { Some(s3) => at_start_capella(s3, b, v, c), None => None }, BeaconState::Capella(s) => capella::transition(s, b, v, c), _ => None } }
}
pub open spec fn at_start_deneb(s: deneb__BeaconState, b: deneb__SignedBeaconBlock, v: Validation, c: Context) -> Option<deneb__BeaconState> {
    if b.message.slot == s.slot { deneb::block(s, b, v, c) } else { deneb::transition(s, b, v, c) }
}
pub open spec fn sp_apply_deneb(st: BeaconState, b: deneb__SignedBeaconBlock, v: Validation, c: Context) -> Option<deneb__BeaconState> {
    if rank(sp_fork_at(b.message.slot, c)) > 4 { None } else { match st { BeaconState::Phase0(s0) => match to_altair(s0, c) { Some(s1) => match to_bellatrix(s1, c) { Some(s2) => match to_capella(s2, c) { Some(s3) => match to_deneb(s3, c) { Some(s4) => at_start_deneb(s4, b, v, c), None => None }, None => None }, None => None }, None => None }, BeaconState::Altair(s1) => match to_bellatrix(s1, c) { Some(s2) => match to_capella(s2, c) { Some(s3) => match to_deneb(s3, c) { Some(s4) => at_start_deneb(s4, b, v, c), None => None }, None => None }, None => None }, BeaconState::Bellatrix(s2) => match to_capella(s2, c) { Some(s3) => match to_deneb(s3, c) { Some(s4) => at_start_deneb(s4, b, v, c), None => None }, None => None }, BeaconState::Capella(s3) => match to_deneb(s3, c) { Some(s4) => at_start_deneb(s4, b, v, c), None => None }, BeaconState::Deneb(s) => deneb::transition(s, b, v, c) } }
}
pub open spec fn sp_apply(st: BeaconState, b: SignedBeaconBlock, v: Validation, c: Context) -> Option<BeaconState> {
    match b { SignedBeaconBlock::Phase0(x) => match sp_apply_phase0(st, x, v, c) { Some(s) => Some(BeaconState::Phase0(s)), None => None }, SignedBeaconBlock::Altair(x) => match sp_apply_altair(st, x, v, c) { Some(s) => Some(BeaconState::Altair(s)), None => None }, SignedBeaconBlock::Bellatrix(x) => match sp_apply_bellatrix(st, x, v, c) { Some(s) => Some(BeaconState::Bellatrix(s)), None => None }, SignedBeaconBlock::Capella(x) => match sp_apply_capella(st, x, v, c) { Some(s) => Some(BeaconState::Capella(s)), None => None }, SignedBeaconBlock::Deneb(x) => match sp_apply_deneb(st, x, v, c) { Some(s) => Some(BeaconState::Deneb(s)), None => None } }
}
pub struct Executor { pub state: BeaconState, pub context: Context }
@@subst
(\w+) :: SignedBeaconBlock < [^<>]* > => \1__SignedBeaconBlock
\bSignedBeaconBlock < [^<>]* > => SignedBeaconBlock
\bBeaconState < [^<>]* > => BeaconState
\bResult < (\([^<>]*\)|\w+) > => core::result::Result<\1, Error>
@@impl Executor impl Executor
@@impl Context impl Context
@@fn Context::fork_for
requires self.slots_per_epoch > 0,
ensures r == sp_fork_at(slot, *self),
@@fn Executor::new
ensures r.state == state, r.context == context,
@@fn fork_start_slot
ensures match r { Ok(x) => x as int == fork_epoch * context.slots_per_epoch, Err(_) => fork_epoch * context.slots_per_epoch > u64::MAX },
@@fn verify_fork_not_after
requires context.slots_per_epoch > 0,
ensures r is Ok <==> rank(sp_fork_at(slot, *context)) <= rank(fork),
@@fn Executor::apply_block
requires old(self).context.slots_per_epoch > 0,
ensures
r is Ok <==> sp_apply(old(self).state, *signed_block, Validation::Enabled, old(self).context) is Some,
r is Ok ==> sp_apply(old(self).state, *signed_block, Validation::Enabled, old(self).context) == Some(final(self).state),
final(self).context == old(self).context,
@@fn Executor::apply_block_with_validation
requires old(self).context.slots_per_epoch > 0,
ensures
r is Ok <==> sp_apply(old(self).state, *signed_block, validation, old(self).context) is Some,
r is Ok ==> sp_apply(old(self).state, *signed_block, validation, old(self).context) == Some(final(self).state),
final(self).context == old(self).context,
@@fn Executor::apply_phase0_block_with_validation
requires old(self).context.slots_per_epoch > 0,
ensures
r is Ok <==> sp_apply_phase0(old(self).state, *signed_block, validation, old(self).context) is Some,
r is Ok ==> (final(self).state matches BeaconState::Phase0(x) && sp_apply_phase0(old(self).state, *signed_block, validation, old(self).context) == Some(x)),
rank(sp_version(old(self).state)) > 0 ==> final(self).state == old(self).state,
final(self).context == old(self).context,
@@fn Executor::apply_altair_block_with_validation
requires old(self).context.slots_per_epoch > 0,
ensures
r is Ok <==> sp_apply_altair(old(self).state, *signed_block, validation, old(self).context) is Some,
r is Ok ==> (final(self).state matches BeaconState::Altair(x) && sp_apply_altair(old(self).state, *signed_block, validation, old(self).context) == Some(x)),
rank(sp_version(old(self).state)) > 1 ==> final(self).state == old(self).state,
final(self).context == old(self).context,
@@fn Executor::apply_bellatrix_block_with_validation
requires old(self).context.slots_per_epoch > 0,
ensures
r is Ok <==> sp_apply_bellatrix(old(self).state, *signed_block, validation, old(self).context) is Some,
r is Ok ==> (final(self).state matches BeaconState::Bellatrix(x) && sp_apply_bellatrix(old(self).state, *signed_block, validation, old(self).context) == Some(x)),
rank(sp_version(old(self).state)) > 2 ==> final(self).state == old(self).state,
final(self).context == old(self).context,
@@fn Executor::apply_capella_block_with_validation
requires old(self).context.slots_per_epoch > 0,
ensures
r is Ok <==> sp_apply_capella(old(self).state, *signed_block, validation, old(self).context) is Some,
r is Ok ==> (final(self).state matches BeaconState::Capella(x) && sp_apply_capella(old(self).state, *signed_block, validation, old(self).context) == Some(x)),
rank(sp_version(old(self).state)) > 3 ==> final(self).state == old(self).state,
final(self).context == old(self).context,
@@fn Executor::apply_deneb_block_with_validation
requires old(self).context.slots_per_epoch > 0,
ensures
r is Ok <==> sp_apply_deneb(old(self).state, *signed_block, validation, old(self).context) is Some,
r is Ok ==> (final(self).state matches BeaconState::Deneb(x) && sp_apply_deneb(old(self).state, *signed_block, validation, old(self).context) == Some(x)),
rank(sp_version(old(self).state)) > 4 ==> final(self).state == old(self).state,
final(self).context == old(self).context,
