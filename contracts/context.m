@@module context file=ethereum-consensus/src/state_transition/context.rs,ethereum-consensus/src/fork.rs
@@prelude
pub type Epoch = u64;
pub type Slot = u64;
pub type Gwei = u64;
pub type Version = [u8; 4];
pub type Hash32 = [u8; 32];
pub struct U256(pub [u8; 32]);
pub struct ExecutionAddress(pub [u8; 20]);
pub struct KzgSettings;
pub struct VArc<T>(pub T);
pub enum Network { Mainnet, Sepolia, Goerli, Holesky, Hoodi, Custom(u64) }
pub open spec fn ord_of(f: Fork) -> int {
    match f { Fork::Phase0 => 0, Fork::Altair => 1, Fork::Bellatrix => 2, Fork::Capella => 3, Fork::Deneb => 4, Fork::Electra => 5 }
}
// the configured activation epoch of a fork
pub open spec fn activation(c: Context, f: Fork) -> int {
    match f { Fork::Phase0 => 0, Fork::Altair => c.altair_fork_epoch as int, Fork::Bellatrix => c.bellatrix_fork_epoch as int,
        Fork::Capella => c.capella_fork_epoch as int, Fork::Deneb => c.deneb_fork_epoch as int, Fork::Electra => c.electra_fork_epoch as int }
}
pub open spec fn version_of(c: Context, f: Fork) -> [u8; 4] {
    match f { Fork::Phase0 => c.genesis_fork_version, Fork::Altair => c.altair_fork_version, Fork::Bellatrix => c.bellatrix_fork_version,
        Fork::Capella => c.capella_fork_version, Fork::Deneb => c.deneb_fork_version, Fork::Electra => c.electra_fork_version }
}
// the latest fork whose activation epoch has been reached
pub open spec fn is_active_fork(c: Context, e: int, f: Fork) -> bool {
    &&& activation(c, f) <= e
    &&& forall|g: Fork| #[trigger] activation(c, g) <= e ==> ord_of(g) <= ord_of(f)
}
pub proof fn lemma_one_active_fork(c: Context, e: int, f: Fork, g: Fork)
    requires is_active_fork(c, e, f), is_active_fork(c, e, g)
    ensures f == g
{
    assert(activation(c, g) <= e && activation(c, f) <= e);
    assert(ord_of(f) == ord_of(g));
}
@@subst
pub execution_engine : bool , (?:pub )?execution_engine : bool => pub execution_engine : bool
\bArc < => VArc <
\bSelf :: => Fork ::
@@struct Context
@@enum Fork
@@fn Context::fork_for
requires self.slots_per_epoch > 0
ensures is_active_fork(*self, slot as int / self.slots_per_epoch as int, r)
@@fn Context::fork_version_for
ensures r == version_of(*self, fork)
