@@module clock file=ethereum-consensus/src/clock.rs
@@prelude
pub type Slot = u64;
pub type Epoch = u64;
// model of std::time::Duration: a number of nanoseconds (assumed contracts of the standard library)
pub struct Duration { pub n: u128 }
pub open spec fn nanos(d: Duration) -> int { d.n as int }
pub open spec fn G() -> int { 1_000_000_000 }
impl Duration {
    #[verifier::external_body] pub fn from_nanos(n: u64) -> (r: Duration) ensures nanos(r) == n as int { unimplemented!() }
    #[verifier::external_body] pub fn from_micros(n: u64) -> (r: Duration) ensures nanos(r) == n as int * 1000 { unimplemented!() }
    #[verifier::external_body] pub fn from_millis(n: u64) -> (r: Duration) ensures nanos(r) == n as int * 1_000_000 { unimplemented!() }
    #[verifier::external_body] pub fn from_secs(n: u64) -> (r: Duration) ensures nanos(r) == n as int * G() { unimplemented!() }
    #[verifier::external_body] pub fn default() -> (r: Duration) ensures nanos(r) == 0 { unimplemented!() }
    #[verifier::external_body] pub fn as_secs(&self) -> (r: u64) ensures r as int == nanos(*self) / G() { unimplemented!() }
    #[verifier::external_body] pub fn as_millis(&self) -> (r: u128) ensures r as int == nanos(*self) / 1_000_000 { unimplemented!() }
    #[verifier::external_body] pub fn as_nanos(&self) -> (r: u128) ensures r as int == nanos(*self) { unimplemented!() }
    #[verifier::external_body] pub fn saturating_sub(self, o: Duration) -> (r: Duration) ensures nanos(r) == (if nanos(self) >= nanos(o) { nanos(self) - nanos(o) } else { 0 }) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_u128_from(x: u64) -> (r: u128) ensures r as int == x as int { unimplemented!() }
#[verifier::external_body]
pub fn v_u64_try(x: u128) -> (r: core::result::Result<u64, ()>) ensures r is Ok <==> x <= u64::MAX, r matches Ok(v) ==> v as int == x as int { unimplemented!() }
pub struct Clock<T: TimeProvider>(pub Inner<T>);
impl<T: TimeProvider> Clock<T> {
    pub open spec fn genesis(&self) -> int { self.0.genesis_time as int }
    pub open spec fn sps(&self) -> int { self.0.seconds_per_slot as int }
    pub open spec fn spe(&self) -> int { self.0.slots_per_epoch as int }
    // the instants the time provider may answer with while the code at hand runs: two readings need not be equal
    pub open spec fn reads(&self, t: u128) -> bool { self.0.time_provider.reads(t) }
    pub open spec fn fits(&self) -> bool {
        0 < self.sps() <= u64::MAX && forall|t: u128| #[trigger] self.reads(t) ==> self.fits_at(t)
    }
    pub open spec fn fits_at(&self, t: u128) -> bool { self.genesis() - t <= u64::MAX && (t >= self.genesis() ==> slot_of(t as int, self.genesis(), self.sps()) < u64::MAX && t + self.sps() <= u128::MAX) }
    pub open spec fn slot_at(&self, t: u128) -> Option<u64> { if t < self.genesis() { None } else { Some(slot_of(t as int, self.genesis(), self.sps()) as u64) } }
    // the time from an instant to the start of the next slot
    pub open spec fn wait(&self, t: u128) -> int { if t < self.genesis() { self.genesis() - t } else { start_of(slot_of(t as int, self.genesis(), self.sps()) + 1, self.genesis(), self.sps()) - t } }
}
pub trait TimeProvider {
    spec fn reads(&self, t: u128) -> bool;
    fn get_current_time(&self) -> (r: u128) ensures self.reads(r);
}
// ---- the stream of slots: a pending slot, and a timer ----
pub enum Poll<T> { Ready(T), Pending }
pub struct TaskContext;
#[verifier::external_body] pub struct Sleep { _p: u8 }
impl Sleep { pub uninterp spec fn dur(&self) -> int; }
#[verifier::external_body] pub fn sleep(d: Duration) -> (r: Sleep) ensures r.dur() == nanos(d) { unimplemented!() }
#[verifier::external_body] pub fn v_poll(d: &mut Sleep, cx: &mut TaskContext) -> (r: Poll<()>) ensures final(d).dur() == old(d).dur() { unimplemented!() }
// what a waiting stream last yielded, and its timer, belong to one instant
pub open spec fn waits<T: TimeProvider>(c: Clock<T>, last: Option<Slot>, d: Sleep) -> bool { exists|t: u128| #[trigger] c.reads(t) && last == c.slot_at(t) && d.dur() == c.wait(t) }
// so the next reading, taken once the timer has run out, is in a later slot, and exactly the next one if it comes within a slot's time
pub proof fn lemma_stream<T: TimeProvider>(c: Clock<T>, t: u128, t2: u128)
    requires c.sps() > 0, t2 >= t + c.wait(t), c.genesis() >= 0
    ensures t < c.genesis() ==> t2 >= c.genesis() && slot_of(t2 as int, c.genesis(), c.sps()) >= 0,
        t >= c.genesis() ==> slot_of(t2 as int, c.genesis(), c.sps()) >= slot_of(t as int, c.genesis(), c.sps()) + 1,
        t >= c.genesis() && t2 < t + c.wait(t) + c.sps() ==> slot_of(t2 as int, c.genesis(), c.sps()) == slot_of(t as int, c.genesis(), c.sps()) + 1,
        t < c.genesis() && t2 < t + c.wait(t) + c.sps() ==> slot_of(t2 as int, c.genesis(), c.sps()) == 0,
{
    let (g, s) = (c.genesis(), c.sps());
    lemma_slot_of(t2 as int, g, s);
    let b = slot_of(t2 as int, g, s);
    if t >= g {
        lemma_slot_of(t as int, g, s);
        let a = slot_of(t as int, g, s);
        assert(b >= a + 1) by (nonlinear_arith) requires g + (a + 1) * s <= t2, t2 < g + (b + 1) * s, s > 0;
        if t2 < t + c.wait(t) + s { assert(b <= a + 1) by (nonlinear_arith) requires t2 < g + (a + 1) * s + s, g + b * s <= t2, s > 0; }
    } else if t2 < t + c.wait(t) + s { assert(b == 0) by (nonlinear_arith) requires t2 < g + s, g + b * s <= t2, s > 0, b >= 0; }
}
// the slot of an instant: the only k with genesis + k*sps <= t < genesis + (k+1)*sps
pub open spec fn slot_of(t: int, genesis: int, sps: int) -> int { (t - genesis) / sps }
pub proof fn lemma_slot_of(t: int, genesis: int, sps: int)
    requires t >= genesis, sps > 0
    ensures genesis + slot_of(t, genesis, sps) * sps <= t < genesis + (slot_of(t, genesis, sps) + 1) * sps, slot_of(t, genesis, sps) >= 0,
        forall|k: int| #[trigger] start_of(k, genesis, sps) <= t < start_of(k + 1, genesis, sps) ==> k == slot_of(t, genesis, sps)
{
    let q = slot_of(t, genesis, sps);
    let d = t - genesis;
    assert(q * sps <= d < (q + 1) * sps && q >= 0) by (nonlinear_arith) requires q == d / sps, sps > 0, d >= 0;
    assert forall|k: int| #[trigger] start_of(k, genesis, sps) <= t < start_of(k + 1, genesis, sps) implies k == q by {
        assert(k == q) by (nonlinear_arith) requires k * sps <= d, d < (k + 1) * sps, q * sps <= d, d < (q + 1) * sps, sps > 0;
    }
}
// the instant a slot starts
pub open spec fn start_of(slot: int, genesis: int, sps: int) -> int { genesis + slot * sps }
pub proof fn lemma_secs(a: int)
    ensures (a * G()) / G() == a
{
    assert((a * 1_000_000_000) / 1_000_000_000 == a) by (nonlinear_arith);
}
pub proof fn lemma_mul(a: int, b: int, c: int, d: int)
    requires 0 <= a <= c, 0 <= b <= d
    ensures 0 <= a * b <= c * d
{
    assert(0 <= a * b <= c * d) by (nonlinear_arith) requires 0 <= a <= c, 0 <= b <= d;
}
@@subst
Pin < Box < Sleep > > => Sleep
T : TimeProvider \+ Send \+ Sync => T : TimeProvider
Box :: pin \( sleep \( (.*?) \) \) ; => sleep ( \1 ) ;
mut self : Pin < & mut Self > => & mut self
& mut task :: Context < '_ > => & mut TaskContext
Pin :: new \( & mut self \. delay \) \. poll \( cx \) => v_poll ( & mut self . delay , cx )
Self :: Item => Slot
\bu64 :: try_from \( => v_u64_try (
\. unwrap_or_default \( \) => . unwrap_or ( Duration :: default ( ) )
\. map \( \| (\w+) \| Duration :: from_nanos \( (.*?) \) \) \. unwrap => . map ( | \1 : u128 | -> ( r : Duration ) requires \1 <= u64 :: MAX ensures nanos ( r ) == \1 { Duration :: from_nanos ( \2 ) } ) . unwrap
\bArc :: new \( (\w+) \) => \1
\bself \. (genesis_time|seconds_per_slot|slots_per_epoch|time_provider)\b => self . 0 . \1
u128 :: from \( => v_u128_from (
\bu64 :: from \( => v_u64_from (
@@struct Inner SlotStream
@@impl SlotStream impl<T: TimeProvider> SlotStream<T>
@@impl Clock impl<T: TimeProvider> Clock<T>
@@fn slot_to_nanos
requires start_of(slot as int, genesis_time as int, seconds_per_slot as int) <= u128::MAX
ensures r as int == start_of(slot as int, genesis_time as int, seconds_per_slot as int)
@@fn u128_to_u64
requires t <= u64::MAX
ensures r as int == t as int
@@fn convert_timestamp_to_slot
requires seconds_per_slot > 0
ensures r is Some <==> timestamp >= genesis_time, r matches Some(k) ==> k as int == slot_of(timestamp as int, genesis_time as int, seconds_per_slot as int)
@@fn convert_timestamp_nanos_to_slot
requires seconds_per_slot > 0, timestamp >= genesis_time ==> slot_of(timestamp as int, genesis_time as int, seconds_per_slot as int) <= u64::MAX
ensures r is Some <==> timestamp >= genesis_time, r matches Some(k) ==> k as int == slot_of(timestamp as int, genesis_time as int, seconds_per_slot as int)
@@fn convert_slot_to_timestamp
requires seconds_per_slot <= u64::MAX, genesis_time <= u64::MAX, start_of(slot as int, genesis_time as int / G(), seconds_per_slot as int / G()) <= u64::MAX
ensures r as int == start_of(slot as int, genesis_time as int / G(), seconds_per_slot as int / G())
@ start
proof { lemma_mul(slot as int, seconds_per_slot as int / G(), slot as int, seconds_per_slot as int / G()); }
@@fn Clock::new
ensures r.genesis() == genesis_time as int * G(), r.sps() == seconds_per_slot as int * G(), r.spe() == slots_per_epoch, r.0.time_provider == time_provider
@@fn Clock::get_current_time
ensures self.reads(r)
@@fn Clock::before_genesis
ensures exists|t: u128| #[trigger] self.reads(t) && r == (t < self.genesis())
@@fn Clock::before_genesis_at
ensures r == (current_time < self.genesis())
@@fn Clock::current_slot
requires self.fits()
ensures exists|t: u128| #[trigger] self.reads(t) && r == self.slot_at(t)
@@fn Clock::slot_at_time
requires self.sps() > 0, current_time >= self.genesis() ==> slot_of(current_time as int, self.genesis(), self.sps()) <= u64::MAX
ensures r == self.slot_at(current_time), r is Some <==> current_time >= self.genesis(), r matches Some(k) ==> k as int == slot_of(current_time as int, self.genesis(), self.sps())
@@fn Clock::timestamp_at_slot
requires self.sps() <= u64::MAX, self.genesis() <= u64::MAX, start_of(slot as int, self.genesis() / G(), self.sps() / G()) <= u64::MAX
ensures r as int == start_of(slot as int, self.genesis() / G(), self.sps() / G())
@@fn Clock::current_epoch
requires self.fits(), self.spe() > 0
ensures exists|t: u128| #[trigger] self.reads(t) && (r is Some <==> self.slot_at(t) is Some) && (r matches Some(e) ==> e as int == self.slot_at(t)->0 as int / self.spe())
@@fn Clock::epoch_for
requires self.spe() > 0
ensures r as int == slot as int / self.spe()
@@fn Clock::duration_until_slot
requires start_of(slot as int, self.genesis(), self.sps()) <= u128::MAX, forall|t: u128| #[trigger] self.reads(t) ==> start_of(slot as int, self.genesis(), self.sps()) - t <= u64::MAX
ensures exists|t: u128| #[trigger] self.reads(t) && nanos(r) as int == (if start_of(slot as int, self.genesis(), self.sps()) >= t { start_of(slot as int, self.genesis(), self.sps()) - t } else { 0 as int })
@@fn Clock::duration_until_next_slot
requires self.fits()
ensures exists|t: u128| #[trigger] self.reads(t) && nanos(r) == self.wait(t)
@@fn Clock::duration_until_next_slot_at
requires self.fits(), self.fits_at(current_time)
ensures nanos(r) == self.wait(current_time), nanos(r) > 0, current_time >= self.genesis() ==> nanos(r) <= self.sps()
@ start
proof { if current_time >= self.genesis() { lemma_slot_of(current_time as int, self.genesis(), self.sps());
    let q = slot_of(current_time as int, self.genesis(), self.sps()); assert((q + 1) * self.sps() == q * self.sps() + self.sps()) by (nonlinear_arith); } }
@@fn Clock::into_stream
requires self.fits()
ensures r.clock == self, waits(r.clock, r.first_slot, r.delay)
@@fn SlotStream::Stream::poll_next
requires old(self).clock.fits()
ensures final(self).clock == old(self).clock,
    old(self).first_slot is Some ==> r == Poll::Ready(old(self).first_slot) && final(self).first_slot is None && final(self).delay == old(self).delay,
    old(self).first_slot is None ==> (r matches Poll::Ready(s) ==> waits(final(self).clock, s, final(self).delay)) && (r is Pending ==> final(self).delay.dur() == old(self).delay.dur()) && final(self).first_slot is None
