@@crust
use ec::clock;
use ec::domains::DomainType;
use std::sync::{Arc, atomic::{AtomicU64, Ordering}};
pub const BIL: u128 = 1_000_000_000;
#[derive(Clone)] pub struct Fixed(pub u128);
impl clock::TimeProvider for Fixed { fn get_current_time(&self) -> u128 { self.0 } }
#[derive(Clone)] pub struct Tok(pub u128, pub tokio::time::Instant);
impl clock::TimeProvider for Tok { fn get_current_time(&self) -> u128 { self.0 + self.1.elapsed().as_nanos() } }
#[derive(Clone)] pub struct Ticking(pub u128, pub u128, pub tokio::time::Instant, pub Arc<AtomicU64>);
impl clock::TimeProvider for Ticking { fn get_current_time(&self) -> u128 { self.0 + self.2.elapsed().as_nanos() + self.3.fetch_add(1, Ordering::Relaxed) as u128 * self.1 } }
pub fn slot_of(now: u128, gen: u128, sps: u128) -> Option<u64> {
    if now < gen { return None; }
    // the only slot whose interval holds the instant, found without division
    let d = now - gen; let mut lo = 0u128; let mut hi = 1u128;
    while hi * sps <= d { hi *= 2; }
    while hi - lo > 1 { let m = (lo + hi) / 2; if m * sps <= d { lo = m } else { hi = m } }
    Some(lo as u64)
}
#[path = "/repo/ethereum-consensus/src/bin/ec/validator/mnemonic.rs"]
pub mod mnemonic;
pub struct Shown(pub Vec<u8>);
impl std::fmt::Display for Shown { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { ec::serde::write_bytes_to_lower_hex(f, &self.0) } }
pub fn hexs(b: &[u8]) -> String { let mut s = String::new(); for x in b { s.push(std::char::from_digit((x >> 4) as u32, 16).unwrap()); s.push(std::char::from_digit((x & 15) as u32, 16).unwrap()); } s }
#[derive(serde::Serialize, serde::Deserialize, PartialEq, Debug, Clone)]
pub struct Js {
    #[serde(with = "ec::serde::as_hex")] pub h: HV,
    #[serde(with = "ec::serde::as_str")] pub n: u64,
    #[serde(with = "ec::serde::as_str")] pub w: u128,
    #[serde(with = "ec::serde::seq_of_str")] pub v: Vec<u64>,
}
#[derive(PartialEq, Debug, Clone)] pub struct HV(pub Vec<u8>);
impl AsRef<[u8]> for HV { fn as_ref(&self) -> &[u8] { &self.0 } }
impl<'a> TryFrom<&'a [u8]> for HV { type Error = String; fn try_from(b: &'a [u8]) -> Result<Self, String> { if b.first() == Some(&0xee) { Err("refused".into()) } else { Ok(HV(b.to_vec())) } } }
@@ctest clock_times props=C01 n=400
let sps = match g.below(4) { 0 => 12, 1 => 6, 2 => g.range(1, 30), _ => g.range(1, 4000) };
let spe = match g.below(3) { 0 => 32, 1 => 8, _ => g.range(1, 100) };
let gen = match g.below(5) { 0 => 0, 1 => 1606824023, 2 => g.below(1000), _ => g.below(1 << 33) };
let (gn, sn) = (gen as u128 * BIL, sps as u128 * BIL);
let k = match g.below(4) { 0 => g.below(4), 1 => spe * g.below(50), 2 => (spe * g.range(1, 50)) - 1, _ => g.below(20_000_000) } as u128;
let now = match g.below(7) { 0 => gn, 1 => gn.saturating_sub(1), 2 => gn.saturating_sub(g.below(1 << 50) as u128), 3 => gn + k * sn, 4 => (gn + (k + 1) * sn) - 1, 5 => gn + k * sn + 1, _ => gn + k * sn + g.next() as u128 % sn };
let c = clock::Clock::new(gen, sps, spe, Fixed(now));
let want = slot_of(now, gn, sn);
let m = format!("genesis {gen}s, {sps}s per slot, {spe} slots per epoch, now {now}ns");
eqv!(c.before_genesis(), now < gn, "{m}: before_genesis");
eqv!(c.current_slot(), want, "{m}: current_slot");
eqv!(c.slot_at_time(now), want, "{m}: slot_at_time(now)");
let other = match g.below(3) { 0 => gn + k * sn, 1 => gn.saturating_sub(g.below(3) as u128), _ => gn + g.next() as u128 % (sn * 1000) };
eqv!(c.slot_at_time(other), slot_of(other, gn, sn), "{m}: slot_at_time({other})");
eqv!(c.current_epoch(), want.map(|s| s / spe), "{m}: current_epoch");
eqv!(clock::convert_timestamp_nanos_to_slot(now, gn, sn), want, "convert_timestamp_nanos_to_slot({now}, {gn}, {sn})");
let ts = (now / BIL) as u64;
eqv!(clock::convert_timestamp_to_slot(ts, gen, sps), slot_of(ts as u128, gen as u128, sps as u128), "convert_timestamp_to_slot({ts}, {gen}, {sps})");
let s = match g.below(4) { 0 => 0, 1 => want.unwrap_or(0), 2 => want.unwrap_or(0) + g.below(3), _ => g.below(1 << 24) };
eqv!(c.timestamp_at_slot(s), gen + s * sps, "{m}: timestamp_at_slot({s})");
eqv!(clock::convert_slot_to_timestamp(s, sn, gn), gen + s * sps, "convert_slot_to_timestamp({s}, {sn}, {gn})");
eqv!(c.epoch_for(s), s / spe, "{m}: epoch_for({s})");
let start = gn + s as u128 * sn;
if start.saturating_sub(now) < (1 << 63) { eqv!(c.duration_until_slot(s).as_nanos(), start.saturating_sub(now), "{m}: duration_until_slot({s})"); }
let next = match want { None => gn - now, Some(k) => gn + (k as u128 + 1) * sn - now };
if next < (1 << 63) { eqv!(c.duration_until_next_slot().as_nanos(), next, "{m}: duration_until_next_slot"); }
eqv!(c.clone().current_slot(), want, "{m}: a clone");
@@ctest clock_networks props=C01,C27 n=1
let now = clock::get_current_unix_time_in_nanos();
for (n, c, gen, name) in [(1, clock::for_mainnet(), 1606824023u64, "mainnet"), (2, clock::for_sepolia(), 1655733600, "sepolia"), (3, clock::for_goerli(), 1616508000, "goerli"), (4, clock::for_holesky(), 1695902400, "holesky")] {
    eqv!(c.timestamp_at_slot(0), gen, "genesis time of {name}");
    eqv!(c.timestamp_at_slot(1), gen + 12, "start of slot 1 of {name}");
    eqv!(c.epoch_for(31), 0, "epoch of slot 31 of {name}");
    eqv!(c.epoch_for(32), 1, "epoch of slot 32 of {name}");
    eqv!(c.before_genesis(), now < gen as u128 * BIL, "{name} before genesis");
    let a = slot_of(clock::get_current_unix_time_in_nanos(), gen as u128 * BIL, 12 * BIL); let b = c.current_slot(); let d = slot_of(clock::get_current_unix_time_in_nanos(), gen as u128 * BIL, 12 * BIL);
    chk!(b == a || b == d, "current slot of {name} is {b:?}, not {a:?}");
}
let c = clock::from_system_time(1000, 7, 5);
eqv!((c.timestamp_at_slot(3), c.epoch_for(9), c.epoch_for(10)), (1021, 1, 2), "from_system_time(1000, 7, 5)");
let t = clock::duration_since_unix_epoch().as_secs() + 1000;
let d = clock::duration_until(t).as_secs();
chk!(d <= 1000 && d >= 990, "duration until 1000 s from now is {d} s");
eqv!(clock::duration_until(5).as_nanos(), 0, "duration until a past instant");
for (n, name) in [("mainnet", 1606824023u64), ("sepolia", 1655733600), ("goerli", 1616508000), ("holesky", 1695902400)] {
    let c: ec::state_transition::Context = ec::networks::Network::from(n.to_string()).try_into().unwrap();
    eqv!(c.genesis_time().ok(), Some(name), "genesis time of the {n} context");
    eqv!(c.clock().map(|k| k.timestamp_at_slot(2)), Some(name + 24), "clock of the {n} context");
    eqv!(c.clock_at(77).timestamp_at_slot(3), 77 + 36, "clock of the {n} context at genesis 77");
}
@@ctest slot_stream_between_readings props=C01 n=30
// time goes on between two readings of the clock: over the end of a slot, when they come just before it
let sps = g.range(1, 30); let sn = sps as u128 * BIL; let gen = g.range(100000, 200000); let gn = gen as u128 * BIL;
let ms = 1_000_000u128;
let step = ms * g.pick(&[1u64, 2, 5, 20]) as u128;
let gap = g.below(4 * (step / ms) as u64) as u128 * ms + ms / 2;
let base = gn + g.below(50) as u128 * sn - gap;
let readings = Arc::new(AtomicU64::new(0));
let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
let r2 = readings.clone();
let got: Option<Vec<Option<u64>>> = rt.block_on(async move {
    use tokio_stream::StreamExt;
    let c = clock::Clock::new(gen, sps, 32, Ticking(base, step, tokio::time::Instant::now(), r2));
    let mut s = Box::pin(c.into_stream());
    let mut v = vec![];
    for _ in 0..6 { match tokio::time::timeout(std::time::Duration::from_secs(1_000_000), s.next()).await { Ok(x) => v.push(x), Err(_) => return None } }
    Some(v)
});
let m = format!("slot stream from {base}ns, {step}ns later at each reading of the clock, genesis {gen}s, {sps}s per slot");
let v = match got { None => return Err(format!("{m}: no slot within a million seconds")), Some(v) => v };
for i in 1..6 { eqv!(v[i], v[i - 1].map(|k| k + 1), "{m}: items {v:?}, item {i}"); }
@@ctest slot_stream props=C01 n=30
let sps = g.range(1, 30); let sn = sps as u128 * BIL; let gen = g.range(100000, 200000); let gn = gen as u128 * BIL;
let ms = 1_000_000u128;
let base = match g.below(5) { 0 => gn - g.range(1, 100_000) as u128 * ms, 1 => gn, 2 => gn + g.below(1000) as u128 * sn, 3 => gn + g.range(1, 1000) as u128 * sn - ms, _ => gn + g.below(1 << 24) as u128 * ms };
let want = slot_of(base, gn, sn);
let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
let got: Option<Vec<(Option<u64>, u128)>> = rt.block_on(async {
    use tokio_stream::StreamExt;
    let t0 = tokio::time::Instant::now();
    let c = clock::Clock::new(gen, sps, 32, Tok(base, t0));
    let mut s = Box::pin(c.into_stream());
    let mut v = vec![];
    for _ in 0..5 { match tokio::time::timeout(std::time::Duration::from_secs(1_000_000), s.next()).await { Ok(x) => v.push((x, base + t0.elapsed().as_nanos())), Err(_) => return None } }
    Some(v)
});
let m = format!("slot stream from {base}ns, genesis {gen}s, {sps}s per slot");
let v = match got { None => return Err(format!("{m}: no slot within a million seconds")), Some(v) => v };
let first = want.unwrap_or(0);
for (i, (x, at)) in v.iter().enumerate() {
    let k = first + i as u64;
    eqv!(*x, Some(k), "{m}: item {i} at {at}ns");
    if i > 0 || want.is_none() { let start = gn + k as u128 * sn; chk!(*at >= start && *at < start + 5 * ms, "{m}: item {i} came at {at}ns, the slot starts at {start}ns"); }
    else { eqv!(*at, base, "{m}: the current slot comes at once"); }
}
@@ctest hex_codec props=C25 n=300
let n = match g.below(4) { 0 => 0, 1 => g.idx(5), 2 => 32, _ => g.idx(100) };
let mut b: Vec<u8> = (0..n).map(|_| if g.chance(30) { g.below(17) as u8 } else { g.next() as u8 }).collect();
let h = format!("0x{}", hexs(&b));
eqv!(format!("{}", Shown(b.clone())), h.clone(), "write_bytes_to_lower_hex({b:?})");
eqv!(ec::serde::try_bytes_from_hex_str(&h).ok(), Some(b.clone()), "try_bytes_from_hex_str({h})");
let bare = hexs(&b);
eqv!(ec::serde::try_bytes_from_hex_str(&bare.to_uppercase()).ok(), Some(b.clone()), "try_bytes_from_hex_str({}) (upper case, no prefix)", bare.to_uppercase());
// one character changed, dropped or added
let mut bad: Vec<char> = h.chars().collect();
let what = g.below(3);
if what == 0 && bad.len() > 2 { let i = 2 + g.idx(bad.len() - 2); bad[i] = g.pick(&['g', 'x', ' ', '-', 'G', '/', ':', '@', '`', '.', 'é']); }
else if what == 1 && bad.len() > 2 { bad.pop(); } else { bad.push('a'); }
let mut bad: String = bad.into_iter().collect();
if g.chance(40) { bad = match g.below(9) { 0 => format!("0x{h}"), 1 => format!("0X{bare}"), 2 => format!(" {h}"), 3 => format!("{h} "), 4 => format!("0x 0{bare}"), 5 => format!("x{bare}0"), 6 => format!("0x{bare}\n"), 7 => format!("{h}_0"), _ => format!("+{bare}0") }; }
chk!(ec::serde::try_bytes_from_hex_str(&bad).is_err(), "try_bytes_from_hex_str({bad}) accepts malformed text");
let f = |v: &Vec<u8>| { struct D(Vec<u8>); impl std::fmt::Display for D { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { ec::serde::write_bytes_to_lower_hex(f, &self.0) } } format!("{:>3}", D(v.clone())) };
eqv!(f(&b), h.clone(), "write_bytes_to_lower_hex under a width");
@@ctest short_hex props=C25 n=300
// the shortened text: the first two and last two bytes around an ellipsis, all of them when there are fewer than four
struct Short(Vec<u8>);
impl std::fmt::Display for Short { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { ec::serde::write_bytes_to_lower_hex_display(f, self.0.iter()) } }
// a sink that takes a limited number of bytes
struct Sink(String, usize);
impl std::fmt::Write for Sink { fn write_str(&mut self, s: &str) -> std::fmt::Result { if self.0.len() + s.len() > self.1 { self.1 = 0; return Err(std::fmt::Error) } self.0.push_str(s); Ok(()) } }
let n = match g.below(3) { 0 => g.idx(7), 1 => 32, _ => g.idx(60) };
let b: Vec<u8> = (0..n).map(|_| if g.chance(30) { g.below(17) as u8 } else { g.next() as u8 }).collect();
let short = if n < 4 { format!("0x{}", hexs(&b)) } else { format!("0x{}…{}", hexs(&b[..2]), hexs(&b[n - 2..])) };
eqv!(guard(|| Short(b.clone()).to_string())?, short.clone(), "shortened hexadecimal of {b:?}");
for (full, text) in [(false, short), (true, format!("0x{}", hexs(&b)))] {
    let room = g.idx(text.len() + 2);
    let mut w = Sink(String::new(), room);
    use std::fmt::Write;
    let r = guard(|| if full { write!(w, "{}", Shown(b.clone())) } else { write!(w, "{}", Short(b.clone())) })?;
    eqv!(r.is_ok(), room >= text.len(), "writing the {} bytes of {text:?} where {room} fit", text.len());
}
@@ctest json_codec props=C25 n=300
let n = g.idx(40); let mut b: Vec<u8> = (0..n).map(|_| g.next() as u8).collect();
if b.first() == Some(&0xee) { b[0] = 1; }
let k = g.idx(6);
let x = Js { h: HV(b.clone()), n: g.u64_edge(), w: g.u64_edge() as u128 * g.u64_edge() as u128, v: (0..k).map(|_| g.u64_edge()).collect() };
let s = serde_json::to_value(&x).map_err(|e| format!("{x:?} does not encode: {e}"))?;
let want = serde_json::json!({"h": format!("0x{}", hexs(&b)), "n": format!("{}", x.n), "w": format!("{}", x.w), "v": x.v.iter().map(|y| format!("{y}")).collect::<Vec<_>>()});
eqv!(s.to_string(), want.to_string(), "encoding of {x:?}");
let text = s.to_string();
let y: Js = serde_json::from_str(&text).map_err(|e| format!("{text} does not decode: {e}"))?;
eqv!(y, x.clone(), "decoding of {text}");
let mut bad = s.clone();
let m = match g.below(12) {
    0 => { bad["h"] = serde_json::json!(format!("0x{}a", hexs(&b))); "odd number of digits" }
    1 => { bad["h"] = serde_json::json!(match g.below(6) { 0 => format!("0x{}zz", hexs(&b)), 1 => format!("0x0x{}", hexs(&b)), 2 => format!("0X{}", hexs(&b)), 3 => format!(" 0x{}", hexs(&b)), 4 => format!("0x{} ", hexs(&b)), _ => format!("0x {}", hexs(&b)) }); "non-hex characters" }
    2 => { bad["h"] = serde_json::json!("0xee"); "bytes the type refuses" }
    3 => { bad["h"] = serde_json::json!(5); "a number for hex" }
    4 => { bad["n"] = serde_json::json!(g.pick(&["12a", " 12", "12 ", "0x12", "1.5", "1_0", "1e3", "true", "\u{ff11}"])); "not a number" }
    5 => { bad["n"] = serde_json::json!(""); "an empty number" }
    6 => { bad["n"] = serde_json::json!("-1"); "a negative number" }
    7 => { bad["n"] = serde_json::json!("18446744073709551616"); "a number beyond the range" }
    8 => { let mut v: Vec<String> = x.v.iter().map(|y| y.to_string()).collect(); let p = g.idx(v.len() + 1); v.insert(p, g.pick(&["x1", "", " ", "1 ", " 1", "0x1", "1.0", "-0", "1_0", "null", "1,2", "\u{ff11}"]).to_string()); bad["v"] = serde_json::json!(v); "a malformed element" }
    9 => { let mut v: Vec<String> = x.v.iter().map(|y| y.to_string()).collect(); v.push("18446744073709551616".into()); bad["v"] = serde_json::json!(v); "an element beyond the range" }
    10 => { bad["v"] = serde_json::json!("1,2"); "a string for a sequence" }
    _ => { bad["n"] = serde_json::json!(["1"]); "a sequence for a number" }
};
chk!(serde_json::from_str::<Js>(&bad.to_string()).is_err(), "{m} is accepted: {bad}");
@@ctest domain_types props=C02 n=1
let t = [(DomainType::BeaconProposer, [0u8, 0, 0, 0]), (DomainType::BeaconAttester, [1, 0, 0, 0]), (DomainType::Randao, [2, 0, 0, 0]), (DomainType::Deposit, [3, 0, 0, 0]), (DomainType::VoluntaryExit, [4, 0, 0, 0]),
    (DomainType::SelectionProof, [5, 0, 0, 0]), (DomainType::AggregateAndProof, [6, 0, 0, 0]), (DomainType::SyncCommittee, [7, 0, 0, 0]), (DomainType::SyncCommitteeSelectionProof, [8, 0, 0, 0]),
    (DomainType::ContributionAndProof, [9, 0, 0, 0]), (DomainType::BlsToExecutionChange, [10, 0, 0, 0]), (DomainType::Consolidation, [11, 0, 0, 0]), (DomainType::ApplicationMask, [0, 0, 0, 1]), (DomainType::ApplicationBuilder, [0, 0, 0, 1])];
for (i, (d, b)) in t.iter().enumerate() { eqv!(d.as_bytes(), *b, "domain type {i}"); }
@@ctest fork_schedule props=C02 n=200
let mut c = ec::state_transition::Context::for_minimal();
let mut v: Vec<u64> = (0..5).map(|_| g.below(12)).collect(); v.sort();
let k = g.idx(6); for i in k..5 { v[i] = u64::MAX; }
c.altair_fork_epoch = v[0]; c.bellatrix_fork_epoch = v[1]; c.capella_fork_epoch = v[2]; c.deneb_fork_epoch = v[3]; c.electra_fork_epoch = v[4];
c.genesis_fork_version = [0, 1, 2, 9]; c.altair_fork_version = [1, 1, 2, 9]; c.bellatrix_fork_version = [2, 1, 2, 9]; c.capella_fork_version = [3, 1, 2, 9]; c.deneb_fork_version = [4, 1, 2, 9]; c.electra_fork_version = [5, 1, 2, 9];
c.slots_per_epoch = g.range(1, 10);
let slot = g.below(14 * c.slots_per_epoch);
let e = slot / c.slots_per_epoch;
let n = v.iter().filter(|x| **x <= e).count();
let names = ["phase0", "altair", "bellatrix", "capella", "deneb", "electra"];
eqv!(c.fork_for(slot).to_string(), names[n].to_string(), "fork at slot {slot}, {} slots per epoch, activation epochs {v:?}", c.slots_per_epoch);
eqv!(c.fork_version_for(c.fork_for(slot)), [n as u8, 1, 2, 9], "fork version at slot {slot}, activation epochs {v:?}");
eqv!(serde_json::to_string(&c.fork_for(slot)).unwrap(), format!("\"{}\"", names[n]), "JSON name of the fork");
eqv!(serde_json::from_str::<ec::Fork>(&format!("\"{}\"", names[n])).ok().map(|f| f.to_string()), Some(names[n].to_string()), "fork parsed from its JSON name");
chk!(serde_json::from_str::<ec::Fork>(&format!("\"{}x\"", names[n])).is_err(), "a name that is no fork is accepted");
@@ctest mnemonics props=C29 n=60
let n = g.pick(&[16usize, 20, 24, 28, 32]);
let e: Vec<u8> = (0..n).map(|_| g.next() as u8).collect();
let m = bip39::Mnemonic::from_entropy(&e).unwrap();
let phrase = m.to_string();
let pass = match g.below(4) { 0 => None, 1 => Some("".to_string()), 2 => Some("TREZOR".to_string()), _ => Some(match g.below(9) { 0 => format!("p {} ", g.next()), 1 => format!(" p{}", g.next()), 2 => "\t".into(), 3 => format!("\u{e9}\u{212b}\u{fb01}{}", g.next()), 4 => format!("ABC def {}\n", g.next()), 5 => "\u{3000}\u{30d1}".into(), 6 => "x".repeat(200), 7 => "mnemonic".into(), _ => format!("{}", g.next()) }) };
let r = mnemonic::recover_from_phrase(&phrase).map_err(|e| format!("{phrase}: {e}"))?;
eqv!(r.to_entropy(), e.clone(), "entropy recovered from \"{phrase}\"");
let s = mnemonic::to_seed(r, pass.as_deref());
eqv!(s.to_vec(), m.to_seed(pass.clone().unwrap_or_default()).to_vec(), "seed of \"{phrase}\" with passphrase {pass:?}");
for v in [phrase.to_uppercase(), format!(" {phrase}"), format!("{phrase} "), phrase.replace(' ', "  "), phrase.replacen(' ', "", 1), format!("{phrase} {phrase}")] {
    use std::str::FromStr;
    eqv!(mnemonic::recover_from_phrase(&v).ok().map(|m| m.to_entropy()), bip39::Mnemonic::from_str(&v).ok().map(|m| m.to_entropy()), "recovering \"{v}\"");
}
let mut w: Vec<String> = phrase.split(' ').map(|x| x.to_string()).collect();
let i = g.idx(w.len()); w[i] = "zzzz".into();
chk!(mnemonic::recover_from_phrase(&w.join(" ")).is_err(), "an unknown word is accepted: {}", w.join(" "));
w.pop(); chk!(mnemonic::recover_from_phrase(&w.join(" ")).is_err(), "a phrase with a missing word is accepted");
// a wrong checksum: another last word
let mut w: Vec<&str> = phrase.split(' ').collect();
let other = ["abandon", "zoo", "legal", "winner", "thank"].iter().find(|o| { let mut v = w.clone(); let k = v.len() - 1; v[k] = o; bip39::Mnemonic::parse(v.join(" ")).is_err() }).copied();
if let Some(o) = other { let k = w.len() - 1; w[k] = o; chk!(mnemonic::recover_from_phrase(&w.join(" ")).is_err(), "a wrong checksum is accepted: {}", w.join(" ")); }
@@ctest mnemonic_vectors props=C29 n=1
let m = mnemonic::recover_from_phrase("abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about").map_err(|e| e.to_string())?;
eqv!(hexs(&mnemonic::to_seed(m.clone(), Some("TREZOR"))), "c55257c360c07c72029aebc1b53c05ed0362ada38ead3e3e9efa3708e53495531f09a6987599d18264c1e1c92f2cf141630c7a3c4ab7c81b2f001698e7463b04".to_string(), "published BIP-39 vector");
eqv!(hexs(&mnemonic::to_seed(m, None)), "5eb00bbddcf069084889a8ab9155568165f5c453ccb85e70811aaed6f6da5fc19a5ac40b389cd370d086206dec8aa6c43daea6690f20ad3d8d48b2d2ce9e38e4".to_string(), "published BIP-39 vector without passphrase");
@@ctest fresh_mnemonics props=C29 n=3
// 64 fresh phrases: 24 words, all different, every entropy bit takes both values
let mut all: Vec<Vec<u8>> = vec![];
for _ in 0..64 { let m = mnemonic::generate_random_from_system_entropy().map_err(|e| e.to_string())?; eqv!(m.to_string().split(' ').count(), 24, "words of a fresh phrase"); all.push(m.to_entropy()); }
for i in 0..64 { for j in 0..i { chk!(all[i] != all[j], "two fresh phrases are equal"); } }
for bit in 0..256 { let k = all.iter().filter(|e| e[bit / 8] >> (bit % 8) & 1 == 1).count(); chk!(k > 0 && k < 64, "bit {bit} of the entropy was {} in all of 64 fresh phrases", k / 64); }
for a in 0..256 { for b in 0..a { let f = |e: &Vec<u8>, i: usize| e[i / 8] >> (i % 8) & 1; let k = all.iter().filter(|e| f(e, a) == f(e, b)).count(); chk!(k > 0 && k < 64, "bits {a} and {b} of the entropy always {} in 64 fresh phrases", if k == 0 { "differ" } else { "agree" }); } }

@@ctest signatures props=C33,C15,C22 n=400
use ec::crypto as cr;
// keys and signatures: good ones, other ones, infinity, outside the group, and bytes that encode nothing
fn spoil(g: &mut G, b: &mut [u8]) { match g.below(6) { 0 => { for x in b.iter_mut() { *x = 0; } b[0] = 0xc0; } 1 | 2 => b[1] |= 0x80, 3 => b[0] ^= 0x80, 4 => { let k = g.idx(b.len()); b[k] ^= 1 << g.below(8); } _ => for x in b.iter_mut() { *x = 0; } } }
let n = g.idx(5); let msgs: Vec<[u8; 32]> = (0..n.max(1)).map(|_| g.bytes()).collect(); let m = msgs[0]; let same = g.bool();
let mut pks: Vec<_> = (0..n).map(|i| key(i).pk).collect();
let mut sigs: Vec<_> = (0..n).map(|i| key(i).sk.sign(if same { &m } else { &msgs[i] })).collect();
if n > 0 && g.chance(35) { let i = g.idx(n); spoil(g, &mut pks[i][..]); }
if n > 0 && g.chance(35) { let i = g.idx(n); spoil(g, &mut sigs[i][..]); }
if n > 1 && g.chance(15) { let i = g.idx(n); pks[i] = pks[0].clone(); }
let pb: Vec<&[u8]> = pks.iter().map(|k| &k[..]).collect(); let sb: Vec<&[u8]> = sigs.iter().map(|k| &k[..]).collect(); let mb: Vec<&[u8]> = msgs.iter().take(n).map(|x| &x[..]).collect();
let want = raw_sig(&sb); let got = cr::aggregate(&sigs);
eqv!(got.as_ref().ok().map(|x| x.to_vec()), want, "aggregate of {sigs:?}");
eqv!(cr::eth_aggregate_public_keys(&pks).ok().map(|x| x.to_vec()), raw_key(&pb), "eth_aggregate_public_keys of {pks:?}");
let mut sig = got.unwrap_or_else(|_| if g.bool() { let mut s = key(0).sk.sign(&m); s[..].copy_from_slice(&infinity_sig()); s } else { key(0).sk.sign(&m) });
if g.chance(30) { spoil(g, &mut sig[..]); }
let refs: Vec<_> = pks.iter().collect();
let v = raw_fast(&pb, &m, &sig[..]); g.note("valid aggregate", v);
eqv!(cr::fast_aggregate_verify(&refs, &m, &sig).is_ok(), v, "fast_aggregate_verify of {pks:?} with {sig:?}");
eqv!(cr::eth_fast_aggregate_verify(&refs, &m, &sig).is_ok(), v || (n == 0 && sig[..] == infinity_sig()), "eth_fast_aggregate_verify of {pks:?} with {sig:?}");
let v = raw_multi(&pb, &mb, &sig[..]); g.note("valid messages", v);
eqv!(cr::aggregate_verify(&pks, &mb, &sig).is_ok(), v, "aggregate_verify of {pks:?} with {sig:?}");
if n > 1 { eqv!(cr::aggregate_verify(&pks, &mb[1..], &sig).is_ok(), false, "aggregate_verify with fewer messages than keys"); eqv!(cr::aggregate_verify(&pks[1..], &mb, &sig).is_ok(), false, "aggregate_verify with fewer keys than messages"); }
for i in 0..n { let m = if same { &m } else { &msgs[i] }; let v = raw_verify(&pks[i][..], m, &sigs[i][..]); g.note("valid signature", v); eqv!(cr::verify_signature(&pks[i], m, &sigs[i]).is_ok(), v, "verify_signature of {:?} with {:?}", pks[i], sigs[i]);
    let mut w = *m; let k = g.idx(32); w[k] ^= 1 << g.below(8); eqv!(cr::verify_signature(&pks[i], &w, &sigs[i]).is_ok(), raw_verify(&pks[i][..], &w, &sigs[i][..]), "verify_signature of another message"); }
@@ctest signature_bytes props=C33 n=100
use ec::crypto as cr;
let n = g.pick(&[0usize, 1, 31, 32, 33, 47, 48, 49, 95, 96, 97, 128]); let b: Vec<u8> = (0..n).map(|_| g.next() as u8).collect();
eqv!(cr::PublicKey::try_from(&b[..]).ok().map(|x| x.to_vec()), if n == 48 { Some(b.clone()) } else { None }, "a public key of {n} bytes");
eqv!(cr::Signature::try_from(&b[..]).ok().map(|x| x.to_vec()), if n == 96 { Some(b.clone()) } else { None }, "a signature of {n} bytes");
let mut k: [u8; 32] = g.bytes(); match g.below(4) { 0 => k = [0; 32], 1 => k[0] = 0xff, 2 => k[0] = 0, _ => k[0] = 0x70 + g.below(8) as u8 }
eqv!(cr::SecretKey::try_from(&k[..]).ok().map(|x| x.to_bytes()), blst::min_pk::SecretKey::from_bytes(&k).ok().map(|x| x.to_bytes()), "a secret key from {k:?}");
eqv!(cr::SecretKey::try_from(&b[..]).is_ok(), blst::min_pk::SecretKey::from_bytes(&b).is_ok(), "a secret key of {n} bytes");
eqv!(cr::SecretKey::key_gen(&b).ok().map(|x| x.to_bytes()), blst::min_pk::SecretKey::key_gen(&b, &[]).ok().map(|x| x.to_bytes()), "key_gen from {n} bytes");
eqv!(cr::SecretKey::from_bytes(&b).ok().map(|x| x.to_bytes()), blst::min_pk::SecretKey::derive_master_eip2333(&b).ok().map(|x| x.to_bytes()), "master key from {n} bytes");
let i = g.idx(9); let sk = key(i).sk; let r = blst::min_pk::SecretKey::from_bytes(&sk.clone().to_bytes()).unwrap(); let m: [u8; 32] = g.bytes();
eqv!(sk.public_key().to_vec(), r.sk_to_pk().to_bytes().to_vec(), "public key of a secret key"); eqv!(sk.sign(&m).to_vec(), r.sign(&m, TAG, &[]).to_bytes().to_vec(), "signature of {m:?}");
struct Once([u8; 64], usize, bool);
impl rand::RngCore for Once { fn next_u32(&mut self) -> u32 { 0 } fn next_u64(&mut self) -> u64 { 0 } fn fill_bytes(&mut self, d: &mut [u8]) { for x in d.iter_mut() { *x = self.0[self.1]; self.1 += 1; } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { if self.2 { return Err(rand::Error::new("no entropy")); } self.fill_bytes(d); Ok(()) } }
let src: [u8; 64] = g.bytes(); let fail = g.chance(20); let mut o = Once(src, 0, fail);
eqv!(cr::SecretKey::random(&mut o).ok().map(|x| x.to_bytes()), if fail { None } else { blst::min_pk::SecretKey::key_gen(&src[..32], &[]).ok().map(|x| x.to_bytes()) }, "random key from {src:?}, failing source {fail}");
eqv!(format!("{:?}", key(i).sk).contains(&hexs(&key(i).sk.to_bytes())[..16]), false, "the debug text shows the secret key");
let mut s = sk.sign(&m); eqv!(s.is_infinity(), false, "is_infinity"); s[..].copy_from_slice(&infinity_sig()); eqv!(s.is_infinity(), true, "is_infinity of the infinity encoding");
let j = g.idx(96); s[j] ^= 1 << g.below(8); eqv!(s.is_infinity(), false, "is_infinity of {s:?}");
@@crust props=C24
use crate::blobs::{encode, decode, framing, Error as BE};
pub fn getbit(d: &[u8], i: usize) -> bool { i < 8 * d.len() && (d[i / 8] >> (7 - i % 8)) & 1 == 1 }
// the format, written from its definition: two clear bits, then 254 bits of data per element
pub fn pack_spec(d: &[u8]) -> Vec<Vec<u8>> {
    let n = if d.is_empty() { 1 } else { (8 * d.len() + 1040383) / 1040384 };
    let mut out = vec![vec![0u8; 131072]; n];
    for i in 0..8 * d.len() { if getbit(d, i) { let q = 256 * (i / 254) + 2 + i % 254; out[q / 1048576][q % 1048576 / 8] |= 1 << (7 - q % 8); } }
    out
}
pub fn blob_data(g: &mut G) -> Vec<u8> {
    let n = match g.below(8) { 0 => g.below(4) as usize, 1 => 130048, 2 => 130048 - g.below(40) as usize, 3 => 130049 + g.below(40) as usize, 4 => g.below(300) as usize, 5 => 2 * 130048 + g.below(3) as usize, 6 => 130043 + g.below(8) as usize, _ => g.below(70000) as usize };

    let full = g.below(4) == 0;
    (0..n).map(|_| if full { 255 } else { g.next() as u8 }).collect()
}
pub fn jsonb(b: &[crate::blobs::Blob]) -> Vec<u8> { serde_json::to_vec(&b.to_vec()).unwrap() }
@@ctest blob_packing props=C24 n=40
let d = blob_data(g);
let b = match guard(|| encode::pack_into_blobs(&d)) { Ok(Ok(b)) => b, Ok(Err(e)) => return Err(format!("pack_into_blobs refuses {} bytes: {e}", d.len())), Err(e) => return Err(format!("pack_into_blobs panics on {} bytes: {e}", d.len())) };
let w = pack_spec(&d);
eqv!(b.len(), w.len(), "number of blobs for {} bytes", d.len());
for (i, (x, y)) in b.iter().zip(&w).enumerate() { chk!(x.as_ref() == &y[..], "blob {i} of {} for {} bytes of data is not the packing of the data", b.len(), d.len()); }
let s = decode::unpack_from_blobs(&b).map_err(|e| format!("unpack_from_blobs: {e}"))?;
eqv!(s.len(), 131072 * b.len(), "length of the unpacked stream");
chk!(s[..d.len()] == d[..], "unpacking does not return the {} packed bytes", d.len());
chk!(s[d.len()..].iter().all(|x| *x == 0), "the stream after the {} data bytes is not zero", d.len());
@@ctest blob_files props=C24 n=24
let d = blob_data(g);
let sized = g.below(2) == 0;
let mode = || if sized { framing::Mode::Sized } else { framing::Mode::Raw };
let b = encode::from_reader(&d[..], mode()).map_err(|e| format!("from_reader: {e}"))?;
let mut f = vec![]; if sized { f.push(0u8); f.extend((d.len() as u32).to_be_bytes()); } f.extend(&d);
let w = pack_spec(&f);
eqv!(b.len(), w.len(), "number of blobs");
for (i, (x, y)) in b.iter().zip(&w).enumerate() { chk!(x.as_ref() == &y[..], "blob {i} of {} (sized framing: {sized}) for {} bytes of data", b.len(), d.len()); }
let mut out = vec![];
decode::to_writer_from_json(&jsonb(&b)[..], &mut out, mode()).map_err(|e| format!("to_writer_from_json: {e}"))?;
if sized { chk!(out == d, "decoding returns {} bytes, other than the {} encoded", out.len(), d.len()); }
else { chk!(out.len() == 131072 * b.len() && out[..d.len()] == d[..] && out[d.len()..].iter().all(|x| *x == 0), "decoding does not return the data and zero filling"); }
@@ctest blob_unpacking props=C24 n=16
let n = g.below(3) as usize;
let mut raw: Vec<Vec<u8>> = (0..n).map(|_| (0..131072).map(|_| g.next() as u8).collect()).collect();
let kind = g.below(5);
if n > 0 && kind < 4 {
    // a frame header in front: bits 2.. of the first element
    let size = match g.below(6) { 0 => 131072 * n as u64 - 5, 1 => 131072 * n as u64 - 4, 2 => 131072 * n as u64 - g.below(6), 3 => 131072 * n as u64 + g.below(6), 4 => g.below(131072 * n as u64), _ => g.next() & 0xffff_ffff };
    let h = [&[if kind == 0 { g.below(3) as u8 } else { 0 }][..], &(size as u32).to_be_bytes()].concat();

    for i in 0..40 { let q = 2 + i; let m = 1u8 << (7 - q % 8); if getbit(&h, i) { raw[0][q / 8] |= m } else { raw[0][q / 8] &= !m } }
}
let blobs: Vec<crate::blobs::Blob> = raw.iter().map(|b| crate::blobs::Blob::try_from(&b[..]).unwrap()).collect();
let flat: Vec<u8> = raw.concat();
let mut s = vec![0u8; 131072 * n];
for i in 0..1040384 * n { if getbit(&flat, 256 * (i / 254) + 2 + i % 254) { s[i / 8] |= 1 << (7 - i % 8); } }
chk!(decode::unpack_from_blobs(&blobs).map_err(|e| e.to_string())? == s, "unpacking {n} arbitrary blobs");
let want: Result<&[u8], u8> = if s.len() < 5 { Err(0) } else if s[0] != 0 { Err(1) } else {
    let k = u32::from_be_bytes([s[1], s[2], s[3], s[4]]) as usize; if k > s.len() - 5 { Err(2) } else { Ok(&s[5..5 + k]) } };
let mut out = vec![];
let got = match guard(|| decode::to_writer_from_json(&jsonb(&blobs)[..], &mut out, framing::Mode::Sized)) { Ok(r) => r, Err(e) => return Err(format!("decoding a sized frame of {n} blobs panics: {e}")) };
match (want, got) {
    (Ok(w), Ok(())) => chk!(out == w, "decoding returns other bytes than the frame holds ({} of {})", out.len(), w.len()),
    (Err(0), Err(BE::ExpectedHeaderForSizedFraming)) | (Err(1), Err(BE::UnsupportedSizedFramingVersion)) | (Err(2), Err(BE::InvalidPayloadSize)) => {}
    (w, o) => return Err(format!("sized frame: expected {:?}, got {o:?}", w.map(|x| x.len()))),
}
@@ctest frame_header props=C24 n=300
let n = match g.below(5) { 0 => g.below(10), 1 => u32::MAX as u64 - g.below(3), 2 => u32::MAX as u64 + 1 + g.below(3), 3 => g.next(), _ => g.next() >> 32 } as usize;
match framing::sized_header(n) {
    Ok(h) => chk!(n <= u32::MAX as usize && h[0] == 0 && h[1..] == (n as u32).to_be_bytes(), "header for {n} bytes: {h:?}"),
    Err(BE::InvalidPayloadSize) => chk!(n > u32::MAX as usize, "header for {n} bytes refused"),
    Err(e) => return Err(format!("header for {n} bytes: {e}")),
}
let mut s: Vec<u8> = (0..g.below(20)).map(|_| g.next() as u8).collect();
if s.len() >= 5 && g.below(4) > 0 { s[0] = 0; s[1] = 0; s[2] = 0; s[3] = 0; s[4] = (s.len() as u8).wrapping_add(g.below(9) as u8).wrapping_sub(9); }
match guard(|| framing::payload_from_sized(&s).map(|x| x.to_vec())) {
    Err(e) => return Err(format!("payload_from_sized panics on {s:?}: {e}")),
    Ok(Err(BE::ExpectedHeaderForSizedFraming)) => chk!(s.len() < 5, "a header of {} bytes reported missing", s.len()),
    Ok(Err(BE::UnsupportedSizedFramingVersion)) => chk!(s.len() >= 5 && s[0] != 0, "version refused"),
    Ok(Err(BE::InvalidPayloadSize)) => chk!(s.len() >= 5 && s[0] == 0 && u32::from_be_bytes([s[1], s[2], s[3], s[4]]) as usize > s.len() - 5, "announced length refused though the data is there: {s:?}"),
    Ok(Ok(p)) => chk!(s.len() >= 5 && s[0] == 0 && p[..] == s[5..5 + u32::from_be_bytes([s[1], s[2], s[3], s[4]]) as usize], "payload {p:?} of {s:?}"),
    Ok(Err(e)) => return Err(format!("{e}")),
}
@@crust props=C32
use ssz_rs::prelude::{Node as SNode, HashTreeRoot as _, GeneralizedIndexable as _};
pub fn h2(a: SNode, b: SNode) -> SNode { let mut v = a.as_slice().to_vec(); v.extend_from_slice(b.as_slice()); SNode::from(sha2::sha256(&v)) }
pub fn rnode(g: &mut G) -> SNode { let mut b = [0u8; 32]; for x in b.iter_mut() { *x = g.next() as u8; } SNode::from(b) }
// layers of a whole tree over the given leaves, bottom first
pub fn tree(mut l: Vec<SNode>, width: usize) -> Vec<Vec<SNode>> { l.resize(width, SNode::default()); let mut t = vec![l]; while t.last().unwrap().len() > 1 { let p = t.last().unwrap(); let n = p.chunks(2).map(|c| h2(c[0], c[1])).collect(); t.push(n); } t }
pub fn siblings(t: &[Vec<SNode>], mut i: usize) -> Vec<SNode> { let mut v = vec![]; for l in t { if l.len() > 1 { v.push(l[i ^ 1]); i /= 2; } } v }
macro_rules! sidecars { ($name:ident, $p:ident) => {
pub fn $name(g: &mut G) -> R {
    use ec::deneb::$p as dp;
    const D: usize = dp::KZG_COMMITMENT_INCLUSION_PROOF_DEPTH; const M: usize = dp::MAX_BLOB_COMMITMENTS_PER_BLOCK;
    let check = |s: &dp::BlobSidecar| dp::verify_blob_sidecar_inclusion_proof::<{ D }, { dp::BYTES_PER_BLOB }, dp::BeaconBlockBody>(s).is_ok();
    let i = match g.below(5) { 0 => 0, 1 => M - 1, 2 => M + g.below(3) as usize, 3 => (g.next() >> g.below(64)) as usize, _ => g.below(M as u64) as usize };
    let mut s = dp::BlobSidecar::default();
    s.index = i;
    let c: Vec<u8> = (0..48).map(|_| g.next() as u8).collect();
    s.kzg_commitment = (&c[..]).try_into().unwrap();
    let real = g.below(2) == 0 && i < M;
    let mut root;
    if real {
        // a real body: the branch of its i-th commitment, from the tree of its fields
        let mut b = dp::BeaconBlockBody::default();
        b.graffiti = (&[g.next() as u8; 32][..]).try_into().unwrap();
        let n = (i + 1 + g.below(3) as usize).min(M).min(12);
        let i = i % n; s.index = i;
        for k in 0..n { b.blob_kzg_commitments.push((&(0..48).map(|_| g.next() as u8).collect::<Vec<u8>>()[..]).try_into().unwrap()); }
        s.kzg_commitment = b.blob_kzg_commitments[i].clone();
        root = b.hash_tree_root().unwrap();
        let r = |x: Result<SNode, _>| -> SNode { let x: Result<SNode, ssz_rs::prelude::MerkleizationError> = x; x.unwrap() };
        let leaves = b.blob_kzg_commitments.iter().map(|x| { let mut p = [0u8; 64]; p[..48].copy_from_slice(x.as_ref()); SNode::from(sha2::sha256(&p)) }).collect();
        let lt = tree(leaves, M);
        let mut len = [0u8; 32]; len[..8].copy_from_slice(&(n as u64).to_le_bytes());
        let list = h2(lt.last().unwrap()[0], SNode::from(len));
        let ft = tree(vec![r(b.randao_reveal.hash_tree_root()), r(b.eth1_data.hash_tree_root()), r(b.graffiti.hash_tree_root()), r(b.proposer_slashings.hash_tree_root()), r(b.attester_slashings.hash_tree_root()), r(b.attestations.hash_tree_root()),
            r(b.deposits.hash_tree_root()), r(b.voluntary_exits.hash_tree_root()), r(b.sync_aggregate.hash_tree_root()), r(b.execution_payload.hash_tree_root()), r(b.bls_to_execution_changes.hash_tree_root()), list], 16);
        let mut br = siblings(&lt, i); br.push(SNode::from(len)); br.extend(siblings(&ft, 11));
        eqv!(br.len(), D, "depth of the inclusion proof");
        for (k, x) in br.into_iter().enumerate() { s.kzg_commitment_inclusion_proof[k] = x; }
    } else {
        for k in 0..D { s.kzg_commitment_inclusion_proof[k] = rnode(g); }
        let mut p = [0u8; 64]; p[..48].copy_from_slice(s.kzg_commitment.as_ref());
        root = SNode::from(sha2::sha256(&p));
        let q = 27 * 2 * M as u128 + i as u128;
        for k in 0..D { let x = s.kzg_commitment_inclusion_proof[k]; root = if (q >> k) & 1 == 1 { h2(x, root) } else { h2(root, x) }; }
    }
    s.signed_block_header.message.body_root = root;
    let ok = s.index < M;
    eqv!(check(&s), ok, "inclusion proof of commitment {} (valid branch, at most {M} commitments, real body {real})", s.index);
    if !ok { return Ok(()) }
    let mut t = s.clone();
    let what = match g.below(6) {
        0 => { let k = g.below(D as u64) as usize; let mut b = t.kzg_commitment_inclusion_proof[k].as_slice().to_vec(); b[g.below(32) as usize] ^= 1 << g.below(8); t.kzg_commitment_inclusion_proof[k] = SNode::from(<[u8; 32]>::try_from(&b[..]).unwrap()); "a changed branch node" }
        1 => { t.index = (s.index + 1 + g.below(M as u64 - 1) as usize) % M; "another index" }
        2 => { t.signed_block_header.message.body_root = rnode(g); "another body root" }
        3 => { let mut b = t.kzg_commitment.as_ref().to_vec(); b[g.below(48) as usize] ^= 1 << g.below(8); t.kzg_commitment = (&b[..]).try_into().unwrap(); "another commitment" }
        4 => { t.index = s.index + M * (1 + g.below(3) as usize); "an index past the list" }
        _ => { t.signed_block_header.message.state_root = rnode(g); t.kzg_proof = (&c[..]).try_into().unwrap(); t.signed_block_header.message.slot += 1; eqv!(check(&t), true, "the proof does not depend on the other fields"); return Ok(()) }
    };
    chk!(!check(&t), "inclusion proof of commitment {} accepted with {what}", s.index);
    Ok(())
} } }
sidecars!(sidecar_mainnet, mainnet);
sidecars!(sidecar_minimal, minimal);
@@ctest blob_inclusion_mainnet props=C32 n=60
sidecar_mainnet(g)?;
@@ctest blob_inclusion_minimal props=C32 n=200
sidecar_minimal(g)?;
@@ctest light_client_indices props=C32 n=10
use ec::altair::{FINALIZED_ROOT_INDEX as FR, CURRENT_SYNC_COMMITTEE_INDEX as CS, NEXT_SYNC_COMMITTEE_INDEX as NS, FINALIZED_ROOT_INDEX_FLOOR_LOG_2 as FRL, CURRENT_SYNC_COMMITTEE_INDEX_FLOOR_LOG_2 as CSL, NEXT_SYNC_COMMITTEE_INDEX_FLOOR_LOG_2 as NSL};
use ec::capella::{EXECUTION_PAYLOAD_INDEX as EP, EXECUTION_PAYLOAD_INDEX_FLOOR_LOG_2 as EPL};
for (n, i, l) in [("finalized root", FR, FRL), ("current sync committee", CS, CSL), ("next sync committee", NS, NSL), ("execution payload", EP, EPL)] { eqv!(i.ilog2() as usize, l, "depth of {n}"); }
macro_rules! st { ($f:ident) => {
    eqv!(ec::$f::minimal::BeaconState::generalized_index(&["finalized_checkpoint".into(), "root".into()]).unwrap(), FR, "{}: finalized root", stringify!($f));
    eqv!(ec::$f::minimal::BeaconState::generalized_index(&["current_sync_committee".into()]).unwrap(), CS, "{}: current sync committee", stringify!($f));
    eqv!(ec::$f::minimal::BeaconState::generalized_index(&["next_sync_committee".into()]).unwrap(), NS, "{}: next sync committee", stringify!($f));
} }
st!(altair); st!(bellatrix); st!(capella); st!(deneb);
eqv!(ec::capella::minimal::BeaconBlockBody::generalized_index(&["execution_payload".into()]).unwrap(), EP, "capella: execution payload");
eqv!(ec::deneb::minimal::BeaconBlockBody::generalized_index(&["execution_payload".into()]).unwrap(), EP, "deneb: execution payload");
eqv!((FR, CS, NS, EP), (105, 54, 55, 25), "light client indices");
@@crust props=C34
use ec::crypto::kzg;
pub fn kb(g: &mut G, n: usize) -> Vec<u8> { (0..n).map(|i| if i == 0 && g.below(6) == 0 { 0xff } else { g.next() as u8 & 0x7f }).collect() }
pub fn kblob(g: &mut G) -> Vec<u8> { let mut v = vec![g.next() as u8 & 0x3f; 131072]; for _ in 0..20 { let i = g.below(131072) as usize; v[i] = g.next() as u8 & 0x7f; } if g.below(6) == 0 { v[0] = 0xff; } v }
pub fn kind(r: Result<(), kzg::Error>) -> &'static str { match r { Ok(()) => "accepted", Err(kzg::Error::InvalidProof) => "invalid proof", Err(kzg::Error::CKzg(_)) => "refused by the library" } }
pub fn want(r: Result<bool, c_kzg::Error>) -> &'static str { match r { Ok(true) => "accepted", Ok(false) => "invalid proof", Err(_) => "refused by the library" } }
pub fn raw_blob(b: &[u8]) -> Result<c_kzg::Blob, c_kzg::Error> { c_kzg::Blob::from_bytes(b) }
pub fn raw48(b: &[u8]) -> c_kzg::Bytes48 { c_kzg::Bytes48::from_bytes(b).unwrap() }
@@ctest kzg_wrappers props=C34 n=60
let ks = c_kzg::KzgSettings;
let mut b = kblob(g);
match g.below(8) { 0 => { b.pop(); } 1 => b.push(0), 2 => b = kb(g, 32), _ => {} }
let (z, y) = (kb(g, 32), kb(g, 32));
let n32 = |v: &[u8]| kzg::FieldElement::try_from(v).unwrap();
let c48 = |v: &[u8]| kzg::KzgCommitment::try_from(v).unwrap();
let rb = raw_blob(&b);
let wc = rb.as_ref().ok().and_then(|b| ks.blob_to_kzg_commitment(b).ok());
eqv!(kzg::blob_to_kzg_commitment(&b, &ks).ok().map(|c| c.to_vec()), wc.as_ref().map(|c| c.to_vec()), "commitment of a blob of {} bytes", b.len());
let c = match &wc { Some(c) if g.below(4) > 0 => c.to_vec(), _ => kb(g, 48) };
let wp = rb.as_ref().ok().and_then(|b| ks.compute_kzg_proof(b, &c_kzg::Bytes32::from_bytes(&z).unwrap()).ok());
eqv!(kzg::compute_kzg_proof(&b, &n32(&z), &ks).ok().map(|p| (p.proof.to_vec(), p.evaluation.to_vec())), wp.as_ref().map(|(p, y)| (p.to_vec(), y.to_vec())), "proof and evaluation at a point");
let wb = rb.as_ref().ok().and_then(|b| ks.compute_blob_kzg_proof(b, &raw48(&c)).ok());
eqv!(kzg::compute_blob_kzg_proof(&b, &c48(&c), &ks).ok().map(|p| p.to_vec()), wb.as_ref().map(|p| p.to_vec()), "blob proof");
let p = match &wb { Some(p) if g.below(4) > 0 => p.to_vec(), _ => kb(g, 48) };
let w = match &rb { Err(_) => "refused by the library", Ok(b) => want(ks.verify_blob_kzg_proof(b, &raw48(&c), &raw48(&p))) };
eqv!(kind(kzg::verify_blob_kzg_proof(&b, &c48(&c), &c48(&p), &ks)), w, "verify_blob_kzg_proof of a blob of {} bytes", b.len());
let (mut p2, mut y2) = match &wp { Some((p, y)) if g.below(5) > 0 => (p.to_vec(), y.to_vec()), _ => (kb(g, 48), y.clone()) };
match g.below(6) { 0 => p2[47] ^= 1, 1 => y2[31] ^= 1, _ => {} }
let w = want(ks.verify_kzg_proof(&raw48(&c), &c_kzg::Bytes32::from_bytes(&z).unwrap(), &c_kzg::Bytes32::from_bytes(&y2).unwrap(), &raw48(&p2)));
eqv!(kind(kzg::verify_kzg_proof(&c48(&c), &n32(&z), &n32(&y2), &c48(&p2), &ks)), w, "verify_kzg_proof");
g.note("accepted", w == "accepted");
@@ctest kzg_batches props=C34 n=30
let ks = c_kzg::KzgSettings;
let n = g.below(4) as usize;
let mut b: Vec<Vec<u8>> = (0..n).map(|_| { let mut b = kblob(g); if b[0] == 0xff && g.below(3) > 0 { b[0] = 1; } b }).collect();
let mut c: Vec<Vec<u8>> = b.iter().map(|b| ks.blob_to_kzg_commitment(&raw_blob(b).unwrap()).map(|c| c.to_vec()).unwrap_or(vec![1; 48])).collect();
let mut p: Vec<Vec<u8>> = b.iter().zip(&c).map(|(b, c)| ks.compute_blob_kzg_proof(&raw_blob(b).unwrap(), &raw48(c)).map(|c| c.to_vec()).unwrap_or(vec![2; 48])).collect();
let what = match g.below(9) {
    0 if n > 0 => { let k = g.below(n as u64) as usize; p[k][47] ^= 1; "a changed proof" }
    1 if n > 1 => { c.swap(0, n - 1); "commitments out of order" }
    2 if n > 1 => { p.swap(0, n - 1); "proofs out of order" }
    3 => { p.pop(); "a proof missing" }
    4 => { c.push(vec![0; 48]); "a commitment too many" }
    5 if n > 0 => { let k = g.below(n as u64) as usize; b[k].pop(); "a short blob" }
    6 if n > 0 => { b[n - 1][5] ^= 1; "a changed blob" }
    _ => "all in place" };
let c48 = |v: &Vec<Vec<u8>>| v.iter().map(|x| kzg::KzgCommitment::try_from(&x[..]).unwrap()).collect::<Vec<_>>();
let rb: Result<Vec<_>, _> = b.iter().map(|b| raw_blob(b)).collect();
let w = match rb { Err(_) => "refused by the library", Ok(rb) => want(ks.verify_blob_kzg_proof_batch(&rb, &c.iter().map(|x| raw48(x)).collect::<Vec<_>>(), &p.iter().map(|x| raw48(x)).collect::<Vec<_>>())) };
eqv!(kind(kzg::verify_blob_kzg_proof_batch(&b, &c48(&c), &c48(&p), &ks)), w, "batch of {n} blobs, {what}");
if what != "all in place" { return Ok(()) }
let blobs: Vec<crate::blobs::Blob> = b.iter().map(|b| crate::blobs::Blob::try_from(&b[..]).unwrap()).collect();
let bad = b.iter().any(|b| b[0] == 0xff);
match crate::blobs::bundler::bundle(blobs.clone(), &ks) {
    Err(_) => chk!(bad, "a bundle of {n} valid blobs is refused"),
    Ok(x) => { chk!(!bad, "a bundle holds a blob that is no polynomial"); chk!(x.blobs == blobs, "the bundle's blobs"); chk!(x.commitments == c48(&c), "the bundle's commitments"); chk!(x.proofs == c48(&p), "the bundle's proofs"); }
}
match crate::blobs::bundler::from_reader(&serde_json::to_vec(&blobs).unwrap()[..]) {
    Err(_) => chk!(bad, "reading {n} valid blobs fails"),
    Ok(x) => chk!(!bad && x.blobs == blobs && x.commitments == c48(&c) && x.proofs == c48(&p), "the bundle made from a file differs"),
}
g.note("good", !bad);
@@crust props=C26
use crate::api;
fn word_of(s: &str) -> String { let mut o = String::new(); for (i, c) in s.chars().enumerate() { if c.is_uppercase() { if i > 0 { o.push('_') } o.push(c.to_ascii_lowercase()) } else { o.push(c) } } o }
// what a text names as a state: a word, an unsigned number, or 64 digits with or without prefix
fn state_words(s: &str) -> Option<String> {
    if ["head", "genesis", "finalized", "justified"].contains(&s) { return Some(s.to_string()) }
    let t = s.strip_prefix('+').unwrap_or(s);
    if !t.is_empty() && t.bytes().all(|c| c.is_ascii_digit()) { let u = t.trim_start_matches('0'); let u = if u.is_empty() { "0" } else { u };
        if u.len() < 20 || (u.len() == 20 && u <= "18446744073709551615") { return Some(u.to_string()) } }
    let h = s.strip_prefix("0x").unwrap_or(s);
    if h.len() == 64 && h.bytes().all(|c| c.is_ascii_hexdigit()) { return Some(format!("0x{}", h.to_ascii_lowercase())) }
    None
}
@@ctest state_ids props=C26 n=400
let root = { let mut d = [0u8; 32]; for x in d.iter_mut() { *x = if g.chance(20) { g.below(17) as u8 } else { g.next() as u8 } } d };
let digits = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
let h = digits(&root);
let slot = g.u64_edge();
let s = match g.below(16) {
    0 => "head".to_string(), 1 => "genesis".into(), 2 => "finalized".into(), 3 => "justified".into(), 4 => format!("{slot}"), 5 => format!("0x{h}"), 6 => h.clone(), 7 => h.to_uppercase(),
    8 => format!("0x{}", &h[..g.idx(64)]), 9 => format!("0x{h}00"), 10 => format!("{}{}", u64::MAX, g.below(3)), 11 => format!("18446744073709551{}", g.range(600, 700)), 12 => g.pick(&["Head", "head ", "", "latest", "safe", "0", "-1", "+7", "007", "0x", "finalised", "HEAD", "1e3", "0x00"]).to_string(),
    13 => { let k = g.idx(64); let mut c: Vec<char> = h.chars().collect(); c[k] = g.pick(&['g', ' ', 'x', '/', ':', '_']); format!("0x{}", c.into_iter().collect::<String>()) }
    14 => format!(" {slot}"), _ => "1".repeat(64),
};
let got = guard(|| s.parse::<api::StateId>().map(|x| x.to_string()).map_err(|e| e.to_string())).and_then(|x| x);
eqv!(got.as_ref().ok().cloned(), state_words(&s), "state id from {s:?} ({got:?})");
let all = [(api::StateId::Head, "head".to_string()), (api::StateId::Genesis, "genesis".into()), (api::StateId::Finalized, "finalized".into()), (api::StateId::Justified, "justified".into()), (api::StateId::Slot(slot), format!("{slot}")), (api::StateId::Root(ec::primitives::Root::try_from(&root[..]).unwrap()), format!("0x{h}"))];
for (id, text) in all { eqv!(id.to_string(), text.clone(), "text of {id:?}"); eqv!(text.parse::<api::StateId>().map(|x| format!("{x:?}")).ok(), Some(format!("{id:?}")), "{text} parses back"); }
let all = [(api::BlockId::Head, "head".to_string()), (api::BlockId::Genesis, "genesis".into()), (api::BlockId::Finalized, "finalized".into()), (api::BlockId::Slot(slot), format!("{slot}")), (api::BlockId::Root(ec::primitives::Root::try_from(&root[..]).unwrap()), format!("0x{h}"))];
for (id, text) in all { eqv!(id.to_string(), text, "text of {id:?}"); }
let mut kb = vec![0u8; 48]; for x in kb.iter_mut() { *x = g.next() as u8 }
let pk = ec::primitives::BlsPublicKey::try_from(&kb[..]).unwrap();
eqv!(format!("{}", api::PublicKeyOrIndex::from(pk.clone())), format!("0x{}", digits(&kb)), "text of a key");
eqv!(format!("{:?}", pk), format!("0x{}", digits(&kb)), "text of a key");
eqv!(serde_json::to_string(&pk).unwrap(), format!("\"0x{}\"", digits(&kb)), "encoding of a key");
eqv!(format!("{}", api::PublicKeyOrIndex::from(slot as usize)), format!("{slot}"), "text of an index");
@@ctest api_words props=C26 n=1
macro_rules! words { ($t:ident: $($v:ident),*) => { $( let x = api::$t::$v; let w = word_of(stringify!($v));
    eqv!(x.to_string(), w.clone(), "text of {}::{}", stringify!($t), stringify!($v));
    eqv!(serde_json::to_string(&x).unwrap(), format!("\"{w}\""), "encoding of {}::{}", stringify!($t), stringify!($v));
    let back: Result<api::$t, _> = serde_json::from_str(&format!("\"{w}\""));
    eqv!(back.map(|b| b.to_string()).ok(), Some(w.clone()), "decoding of {w}");
    chk!(serde_json::from_str::<api::$t>(&format!("\"{w} \"")).is_err() && serde_json::from_str::<api::$t>(&format!("\"{}\"", w.to_uppercase())).is_err(), "a misspelt {w} decodes"); )* } }
words!(ValidatorStatus: PendingInitialized, PendingQueued, ActiveOngoing, ActiveExiting, ActiveSlashed, ExitedUnslashed, ExitedSlashed, WithdrawalPossible, WithdrawalDone, Active, Pending, Exited, Withdrawal);
words!(BroadcastValidation: Gossip, Consensus, ConsensusAndEquivocation);
words!(PeerState: Disconnected, Connecting, Connected, Disconnecting);
words!(ConnectionOrientation: Inbound, Outbound);
for (f, w) in [(ec::Fork::Phase0, "phase0"), (ec::Fork::Altair, "altair"), (ec::Fork::Bellatrix, "bellatrix"), (ec::Fork::Capella, "capella"), (ec::Fork::Deneb, "deneb"), (ec::Fork::Electra, "electra")] {
    eqv!(f.to_string(), w.to_string(), "text of {f:?}");
    eqv!(serde_json::to_string(&f).unwrap(), format!("\"{w}\""), "encoding of {f:?}");
    eqv!(serde_json::from_str::<ec::Fork>(&format!("\"{w}\"")).map(|x| x.to_string()).ok(), Some(w.to_string()), "decoding of {w}");
}
@@ctest network_names props=C26 n=60
use ec::networks::Network;
let d = match g.below(5) { 0 => "".to_string(), 1 => "mainnet ".into(), 2 => "Mainnet".into(), 3 => "/tmp/no such dir".into(), _ => format!("dir{}", g.next()) };
for (n, w) in [(Network::Mainnet, "mainnet"), (Network::Sepolia, "sepolia"), (Network::Goerli, "goerli"), (Network::Holesky, "holesky"), (Network::Hoodi, "hoodi"), (Network::Custom(d.clone()), d.as_str())] {
    eqv!(String::from(n.clone()), w.to_string(), "name of {n:?}");
    eqv!(Network::from(w.to_string()), n.clone(), "network named {w:?}");
    eqv!(serde_json::to_string(&n).unwrap(), serde_json::to_string(w).unwrap(), "encoding of {n:?}");
    eqv!(serde_json::from_str::<Network>(&serde_json::to_string(w).unwrap()).ok(), Some(n.clone()), "decoding of {w}");
    let shown = if let Network::Custom(d) = &n { format!("custom ({d}/config.yaml)") } else { w.to_string() };
    eqv!(n.to_string(), shown, "text of {n:?}");
    match ec::state_transition::Context::try_from(n.clone()) { Ok(c) => { eqv!(c.name, n.clone(), "the context of {n:?}"); } Err(_) => { chk!(matches!(n, Network::Custom(_)), "no context for {n:?}"); } }
}
@@crust props=C35
pub type Exec = ec::state_transition::Executor<64, 16777216, 32, 1099511627776, 64, 64, 2048, 1024, 32, 256, 32, 1073741824, 1048576, 16, 2, 128, 16, 16, 4, 16, 16>;
pub type AnyState = ec::types::BeaconState<64, 16777216, 32, 1099511627776, 64, 64, 2048, 1024, 32, 256, 32>;
pub type AnyBlock = ec::types::SignedBeaconBlock<16, 2048, 2, 128, 16, 16, 32, 256, 32, 1073741824, 1048576, 4, 16, 16>;
pub fn ex_rank(s: &AnyState) -> usize { match s { AnyState::Phase0(_) => 0, AnyState::Altair(_) => 1, AnyState::Bellatrix(_) => 2, AnyState::Capella(_) => 3, AnyState::Deneb(_) => 4 } }
macro_rules! ex_up { ($s:expr, $c:expr, $ep:ident, $from:ident, $up:expr) => {{ let t = $c.$ep.checked_mul($c.slots_per_epoch)?; if $s.slot != t { ec::$from::process_slots(&mut $s, t, $c).ok()?; } $up }} }
// one fork further: every slot before the fork processed, then upgraded
pub fn ex_upgrade(st: AnyState, c: &ec::state_transition::Context) -> Option<AnyState> {
    Some(match st {
        AnyState::Phase0(mut s) => AnyState::Altair(ex_up!(s, c, altair_fork_epoch, phase0, ec::altair::upgrade_to_altair(&s, c).ok()?)),
        AnyState::Altair(mut s) => AnyState::Bellatrix(ex_up!(s, c, bellatrix_fork_epoch, altair, ec::bellatrix::upgrade_to_bellatrix(&s, c))),
        AnyState::Bellatrix(mut s) => AnyState::Capella(ex_up!(s, c, capella_fork_epoch, bellatrix, ec::capella::upgrade_to_capella(&s, c))),
        AnyState::Capella(mut s) => AnyState::Deneb(ex_up!(s, c, deneb_fork_epoch, capella, ec::deneb::upgrade_to_deneb(&s, c))),
        AnyState::Deneb(_) => return None,
    })
}
macro_rules! ex_block { ($g:expr, $s:expr, $slot:expr, $c:expr, $from:ident, $var:ident) => {{
    let mut p = $s.clone(); if $slot > p.slot { let mut q = p.clone(); if guard(|| ec::$from::process_slots(&mut q, $slot, $c).is_ok()) == Ok(true) { p = q; } }
    let mut b = guard(|| { let mut b = crate::$from::gen_block($g, &p, $c); crate::$from::sign_block($g, &p, $c, &mut b); b }).unwrap_or_default(); b.message.slot = $slot; AnyBlock::$var(b)
}} }
macro_rules! ex_run { ($s:expr, $b:expr, $up:expr, $c:expr, $v:expr, $from:ident, $var:ident) => {{
    let r = if $up && $s.slot == $b.message.slot { ec::$from::state_transition_block_in_slot(&mut $s, $b, $v, $c) } else { ec::$from::state_transition(&mut $s, $b, $v, $c) };
    r.ok()?; Some(AnyState::$var($s))
}} }
pub fn ex_apply(st: Option<AnyState>, up: bool, b: &AnyBlock, v: ec::state_transition::Validation, c: &ec::state_transition::Context) -> Option<AnyState> {
    match (st?, b) {
        (AnyState::Phase0(mut s), AnyBlock::Phase0(b)) => ex_run!(s, b, up, c, v, phase0, Phase0),
        (AnyState::Altair(mut s), AnyBlock::Altair(b)) => ex_run!(s, b, up, c, v, altair, Altair),
        (AnyState::Bellatrix(mut s), AnyBlock::Bellatrix(b)) => ex_run!(s, b, up, c, v, bellatrix, Bellatrix),
        (AnyState::Capella(mut s), AnyBlock::Capella(b)) => ex_run!(s, b, up, c, v, capella, Capella),
        (AnyState::Deneb(mut s), AnyBlock::Deneb(b)) => ex_run!(s, b, up, c, v, deneb, Deneb),
        _ => None,
    }
}
@@ctest executor props=C35 n=120
let mut c = crate::phase0::ctx_block(g); let i = g.below(5) as usize;
let st = match i { 0 => AnyState::Phase0(crate::phase0::state_block(g, &c)), 1 => AnyState::Altair(crate::altair::state_block(g, &c)), 2 => AnyState::Bellatrix(crate::bellatrix::state_block(g, &c)), 3 => AnyState::Capella(crate::capella::state_block(g, &c)), _ => AnyState::Deneb(crate::deneb::state_block(g, &c)) };
let j = if g.chance(8) { g.below(i as u64 + 1) as usize } else { i + g.below(5 - i as u64) as usize };
let spe = c.slots_per_epoch; let cur = st.slot() / spe; let mut e = [0u64; 6];
let mut at = if st.slot() % spe == 0 && g.chance(60) { cur } else { cur + 1 + g.below(2) };
for k in 1..6 { if k > i { if k > i + 1 { at += g.pick(&[0u64, 0, 1]); } if g.chance(3) { at = u64::MAX; } e[k] = at; if at > 1 << 60 { at = u64::MAX - 100; } } }
if g.chance(40) { e[5] = u64::MAX; }
c.altair_fork_epoch = e[1]; c.bellatrix_fork_epoch = e[2]; c.capella_fork_epoch = e[3]; c.deneb_fork_epoch = e[4]; c.electra_fork_epoch = e[5];
let mut a = Some(st.clone()); for _ in i..j { a = match a { Some(x) => match guard(|| ex_upgrade(x, &c)) { Ok(y) => y, Err(_) => return Ok(()) }, None => None }; }
let base = match &a { Some(x) if ex_rank(x) == j => x.slot(), _ => st.slot() };
let later = j < 4 && e[j + 1] < 1 << 60 && g.chance(20);
let slot = if later { (e[j + 1] * spe) + g.below(3) } else if j > i && g.chance(50) { base } else { base + g.below(3) };
let b = match (j, &a) {
    (0, Some(AnyState::Phase0(s))) => ex_block!(g, s, slot, &c, phase0, Phase0), (1, Some(AnyState::Altair(s))) => ex_block!(g, s, slot, &c, altair, Altair), (2, Some(AnyState::Bellatrix(s))) => ex_block!(g, s, slot, &c, bellatrix, Bellatrix),
    (3, Some(AnyState::Capella(s))) => ex_block!(g, s, slot, &c, capella, Capella), (4, Some(AnyState::Deneb(s))) => ex_block!(g, s, slot, &c, deneb, Deneb),
    (0, _) => AnyBlock::Phase0(Default::default()), (1, _) => AnyBlock::Altair(Default::default()), (2, _) => AnyBlock::Bellatrix(Default::default()), (3, _) => AnyBlock::Capella(Default::default()), _ => AnyBlock::Deneb(Default::default()),
};
let mut over = false; for k in (j + 1)..6 { if b.message().slot() / spe >= e[k] { over = true; } }
let on = g.chance(75); let v = || if on { ec::state_transition::Validation::Enabled } else { ec::state_transition::Validation::Disabled };
let want = if over || j < i { None } else { match guard(|| ex_apply(a, j > i, &b, v(), &c)) { Ok(x) => x, Err(_) => return Ok(()) } };
g.note("executor", want.is_some()); if over { g.note("executor at a later fork's slot", false); } if j > i { g.note("executor across forks", want.is_some()); }
let txt = format!("a {} block of slot {} on a {} state at slot {} (slots per epoch {}, fork epochs {:?})", b.version(), b.message().slot(), st.version(), st.slot(), spe, &e[1..]);
let mut x = Exec::new(st, c);
let r = guard(|| if on { x.apply_block(&b).is_ok() } else { x.apply_block_with_validation(&b, v()).is_ok() })?;
if r != want.is_some() { return Err(format!("executor: {txt} must be {}, the code {} it", if want.is_some() { "applied" } else { "refused" }, if r { "applied" } else { "refused" })); }
if let Some(w) = want { if x.state != w { return Err(format!("executor: {txt} leaves another state than the fork's own rules; code: {}", short(&x.state))); } }
@@crust props=C29
// EIP-2333 with its own HMAC, HKDF and arithmetic
pub mod eip2333 {
    fn sha(b: &[u8]) -> Vec<u8> { sha2::sha256(b).to_vec() }
    fn hmac(key: &[u8], data: &[u8]) -> Vec<u8> {
        let mut k = if key.len() > 64 { sha(key) } else { key.to_vec() };
        k.resize(64, 0);
        let mut i: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect(); i.extend(data);
        let mut o: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect(); o.extend(sha(&i));
        sha(&o)
    }
    pub fn hkdf(salt: &[u8], ikm: &[u8], info: &[u8], n: usize) -> Vec<u8> {
        let prk = hmac(salt, ikm);
        let (mut t, mut out, mut i) = (vec![], vec![], 1u8);
        while out.len() < n { let mut d = t.clone(); d.extend(info); d.push(i); t = hmac(&prk, &d); out.extend(&t); i = i.wrapping_add(1); }
        out.truncate(n);
        out
    }
    // the group order of BLS12-381, most significant byte first
    pub const R: [u8; 32] = [0x73, 0xed, 0xa7, 0x53, 0x29, 0x9d, 0x7d, 0x48, 0x33, 0x39, 0xd8, 0x08, 0x09, 0xa1, 0xd8, 0x05, 0x53, 0xbd, 0xa4, 0x02, 0xff, 0xfe, 0x5b, 0xfe, 0xff, 0xff, 0xff, 0xff, 0x00, 0x00, 0x00, 0x01];
    pub fn rem(n: &[u8]) -> [u8; 32] {
        let mut r = [0i32; 33];
        for x in n {
            for bit in (0..8).rev() {
                let mut c = (x >> bit & 1) as i32;
                for j in (0..33).rev() { let v = r[j] * 2 + c; r[j] = v & 255; c = v >> 8; }
                let mut d = r; let mut b = 0;
                for j in (0..33).rev() { let v = d[j] - if j > 0 { R[j - 1] as i32 } else { 0 } + b; d[j] = v & 255; b = v >> 8; }
                if b == 0 { r = d; }
            }
        }
        let mut o = [0u8; 32];
        for j in 0..32 { o[j] = r[j + 1] as u8; }
        o
    }
    pub fn mod_r(ikm: &[u8]) -> [u8; 32] {
        let mut salt = sha(b"BLS-SIG-KEYGEN-SALT-");
        let mut i = ikm.to_vec(); i.push(0);
        loop {
            let k = rem(&hkdf(&salt, &i, &[0, 48], 48));
            if k != [0u8; 32] { return k }
            salt = sha(&salt);
        }
    }
    pub fn child(parent: &[u8; 32], index: u32) -> [u8; 32] {
        let salt = [(index >> 24) as u8, (index >> 16) as u8, (index >> 8) as u8, index as u8];
        let not: Vec<u8> = parent.iter().map(|b| 255 - b).collect();
        let mut all = vec![];
        for ikm in [&parent[..], &not[..]] { for c in hkdf(&salt, ikm, &[], 255 * 32).chunks(32) { all.extend(sha(c)); } }
        mod_r(&sha(&all))
    }
    pub fn dec(b: &[u8]) -> String {
        let mut d = vec![0u8];
        for x in b { let mut c = *x as u32; for v in d.iter_mut().rev() { c += *v as u32 * 256; *v = (c % 10) as u8; c /= 10; } while c > 0 { d.insert(0, (c % 10) as u8); c /= 10; } }
        d.iter().map(|x| (b'0' + x) as char).collect::<String>().trim_start_matches('0').to_string()
    }
}
@@ctest derived_keys props=C29 n=6
// the reference gives the published values
let mut seed = [0u8; 64];
let bip = bip39::Mnemonic::parse("abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about").unwrap().to_seed("TREZOR");
let master = eip2333::mod_r(&bip);
assert_eq!(eip2333::dec(&master), "6083874454709270928345386274498605044986640685124978867557563392430687146096");
assert_eq!(eip2333::dec(&eip2333::child(&master, 0)), "20397789859736650942317412262472558107875392172444076792671091975210932703118");
if g.chance(4) { seed = bip; } else { for b in seed.iter_mut() { *b = g.next() as u8; } }
let start = match g.below(6) { 0 => 0u32, 1 => 1, 2 => 255 + g.below(3) as u32, 3 => u32::MAX - 3, 4 => g.next() as u32, _ => g.below(1000) as u32 };
let n = g.below(3) as u32;
let end = if g.chance(6) { start.saturating_sub(g.below(3) as u32) } else { start.saturating_add(n) };
let (s, w) = guard(|| crate::validator::keys::generate(&seed, start, end)).map_err(|e| format!("deriving keys {start}..{end} of seed {seed:02x?}: {e}"))?;
let want = end.saturating_sub(start) as usize;
eqv!((s.len(), w.len()), (want, want), "numbers of signing and withdrawal keys for the indices {start}..{end}");
let root = eip2333::mod_r(&seed);
let base = eip2333::child(&eip2333::child(&root, 12381), 3600);
for (k, i) in (start..end).enumerate() {
    let wk = eip2333::child(&eip2333::child(&base, i), 0);
    let sk = eip2333::child(&wk, 0);
    for (name, key, pair, path) in [("withdrawal", wk, &w[k], format!("m/12381/3600/{i}/0")), ("signing", sk, &s[k], format!("m/12381/3600/{i}/0/0"))] {
        eqv!(hexs(&pair.private_key.clone().to_bytes()), hexs(&key), "{name} key {i} of seed {seed:02x?} (EIP-2333, {path})");
        eqv!(pair.path.clone(), path, "path of {name} key {i}");
        let want = ec::crypto::SecretKey::try_from(key.as_ref()).map_err(|e| format!("{e:?}"))?.public_key();
        eqv!(format!("{:?}", pair.public_key), format!("{want:?}"), "public key of {name} key {i}");
    }
}
@@ctest keystores props=C29 n=3
// a standard reader (EIP-2335) recovers the secret; half of the time the counter of the cipher carries out of its low half
let mut sb = [0u8; 32]; for b in sb.iter_mut() { *b = g.next() as u8; } sb[0] &= 0x3f; sb[31] |= 1;
let private_key = ec::crypto::SecretKey::try_from(sb.as_ref()).map_err(|e| format!("{e:?}"))?;
let public_key = private_key.public_key();
let carry = g.chance(50);
let pair = crate::validator::keys::KeyPair { private_key, public_key: public_key.clone(), path: format!("m/12381/3600/{}/0/0", g.below(100)) };
let path = pair.path.clone();
scrypt::password_hash::rand_core::LAST_EIGHT_SET.with(|x| x.set(carry));
let made = guard(|| crate::validator::keystores::generate(vec![pair]));
scrypt::password_hash::rand_core::LAST_EIGHT_SET.with(|x| x.set(false));
let v = serde_json::to_value(&made?).map_err(|e| e.to_string())?;
eqv!(v.as_array().map(|a| a.len()), Some(1), "keystores of one key");
let pass = v[0]["voting_keystore_password"].as_str().unwrap_or("").to_string();
eqv!((pass.len(), pass.bytes().all(|c| c.is_ascii_hexdigit())), (64, true), "passphrase {pass:?}");
let k: serde_json::Value = serde_json::from_str(v[0]["voting_keystore"].as_str().unwrap_or("")).map_err(|e| format!("keystore {v}: {e}"))?;
let text = |p: &str| k.pointer(p).and_then(|x| x.as_str()).map(|x| x.to_string());
let num = |p: &str| k.pointer(p).and_then(|x| x.as_u64());
let bytes = |p: &str| text(p).and_then(|x| hex::decode(x).ok()).ok_or_else(|| format!("no plain hexadecimal at {p} in {k}"));
eqv!((num("/version"), text("/path"), text("/crypto/kdf/message")), (Some(4), Some(path), Some(String::new())), "version, path and kdf message of {k}");
eqv!((text("/crypto/kdf/function"), text("/crypto/checksum/function"), text("/crypto/cipher/function")), (Some("scrypt".to_string()), Some("sha256".to_string()), Some("aes-128-ctr".to_string())), "functions of {k}");
eqv!(k["crypto"]["checksum"]["params"].clone(), serde_json::json!({}), "checksum parameters");
eqv!(k["pubkey"].clone(), serde_json::to_value(&public_key).unwrap(), "public key of {k}");
eqv!(text("/uuid").map(|u| u.len()), Some(36), "identifier of {k}");
let (n, r, p, len) = (num("/crypto/kdf/params/n"), num("/crypto/kdf/params/r"), num("/crypto/kdf/params/p"), num("/crypto/kdf/params/dklen"));
chk!(n.map_or(false, |n| n.is_power_of_two() && n >= 16384 && n <= 1 << 20) && len == Some(32), "key derivation parameters {n:?} {r:?} {p:?} {len:?}");
let dk = scrypt::scrypt_raw(pass.as_bytes(), &bytes("/crypto/kdf/params/salt")?, n.unwrap() as usize, r.ok_or("no r")? as usize, p.ok_or("no p")? as usize, 32);
let ct = bytes("/crypto/cipher/message")?;
let mut sum = dk[16..].to_vec(); sum.extend(&ct);
eqv!(hexs(&bytes("/crypto/checksum/message")?), hexs(&sha2::sha256(&sum)), "checksum under passphrase {pass} of {k}");
let iv = u128::from_be_bytes(bytes("/crypto/cipher/params/iv")?[..].try_into().map_err(|_| format!("iv of {k}"))?);
let key: [u8; 16] = dk[..16].try_into().unwrap();
let got: Vec<u8> = ct.iter().enumerate().map(|(i, x)| x ^ aes::encrypt_block(&key, iv.wrapping_add(i as u128 / 16).to_be_bytes())[i % 16]).collect();
eqv!(hexs(&got), hexs(&sb), "secret decrypted with passphrase {pass} from {k}");
