//! Run-time library of the concrete harness: executable versions of the specification-language
//! types (`Seq`, `int`), random generation, reporting.
#![allow(non_camel_case_types)]
use std::alloc::{alloc, Layout};
use std::cell::RefCell;
use std::fmt;
use std::ops::{Add, Index};

pub type int = i128;
pub type nat = i128;

// ---- arena: values of one test iteration; reset before the next ----
struct Arena { chunks: Vec<(*mut u8, usize)>, cur: usize, off: usize }
thread_local! { static ARENA: RefCell<Arena> = RefCell::new(Arena { chunks: vec![], cur: 0, off: 0 }); }
pub fn arena_reset() { ARENA.with(|a| { let mut a = a.borrow_mut(); a.cur = 0; a.off = 0; }) }
fn arena_alloc(size: usize) -> *mut u8 {
    ARENA.with(|a| {
        let mut a = a.borrow_mut();
        let size = (size + 15) & !15;
        loop {
            if a.cur < a.chunks.len() {
                let (p, n) = a.chunks[a.cur];
                if a.off + size <= n { let r = unsafe { p.add(a.off) }; a.off += size; return r; }
                a.cur += 1; a.off = 0; continue;
            }
            let n = std::cmp::max(size, 1 << 24);
            let p = unsafe { alloc(Layout::from_size_align(n, 16).unwrap()) };
            a.chunks.push((p, n));
        }
    })
}
pub struct Seq<T: 'static>(pub &'static [T]);
impl<T> Clone for Seq<T> { fn clone(&self) -> Self { *self } }
impl<T> Copy for Seq<T> {}
impl<T: PartialEq> PartialEq for Seq<T> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<T: fmt::Debug> fmt::Debug for Seq<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) } }
impl<T: Copy> Seq<T> {
    pub fn of(v: Vec<T>) -> Self {
        if v.is_empty() || std::mem::size_of::<T>() == 0 { return Seq(Box::leak(v.into_boxed_slice())); }
        let p = arena_alloc(v.len() * std::mem::size_of::<T>()) as *mut T;
        unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), p, v.len()); Seq(std::slice::from_raw_parts(p, v.len())) }
    }
    pub fn empty() -> Self { Seq(&[]) }
    pub fn new(n: int, f: impl Fn(int) -> T) -> Self { Self::of((0..n).map(f).collect()) }
    pub fn len(&self) -> int { self.0.len() as int }
    pub fn push(self, x: T) -> Self { let mut v = self.0.to_vec(); v.push(x); Self::of(v) }
    pub fn update(self, i: int, x: T) -> Self { let mut v = self.0.to_vec(); if i >= 0 && (i as usize) < v.len() { v[i as usize] = x; } Self::of(v) }
    pub fn subrange(self, a: int, b: int) -> Self { Seq(&self.0[a as usize..b as usize]) }
    pub fn drop_first(self) -> Self { self.subrange(1, self.len()) }
    pub fn drop_last(self) -> Self { self.subrange(0, self.len() - 1) }
    pub fn last(self) -> T { self.0[self.0.len() - 1] }
    pub fn first(self) -> T { self.0[0] }
    pub fn skip(self, n: int) -> Self { self.subrange(n, self.len()) }
    pub fn take(self, n: int) -> Self { self.subrange(0, n) }
}
impl<T: Copy + PartialEq> Seq<T> { pub fn contains(self, x: T) -> bool { self.0.contains(&x) } }
impl<T> Index<int> for Seq<T> { type Output = T; fn index(&self, i: int) -> &T { &self.0[i as usize] } }
impl<T: Copy> Add for Seq<T> { type Output = Seq<T>; fn add(self, o: Seq<T>) -> Seq<T> { let mut v = self.0.to_vec(); v.extend_from_slice(o.0); Seq::of(v) } }

#[derive(Debug)]
pub struct Set<T: 'static>(pub Seq<T>);
impl<T> Clone for Set<T> { fn clone(&self) -> Self { *self } }
impl<T> Copy for Set<T> {}
impl<T: Copy + PartialEq> PartialEq for Set<T> { fn eq(&self, o: &Self) -> bool { self.0 .0.iter().all(|x| o.contains(*x)) && o.0 .0.iter().all(|x| self.contains(*x)) } }
impl<T: Copy + PartialEq> Set<T> {
    pub fn contains(&self, x: T) -> bool { self.0.contains(x) }
    pub fn empty() -> Self { Set(Seq::empty()) }
    pub fn insert(self, x: T) -> Self { if self.contains(x) { self } else { Set(self.0.push(x)) } }
    pub fn len(&self) -> int { self.0.len() }
}
impl Cv for std::collections::HashSet<usize> { type M = Set<usize>; fn cv(&self) -> Set<usize> { let mut v: Vec<usize> = self.iter().copied().collect(); v.sort(); Set(Seq::of(v)) } }
impl<T: Copy + PartialEq> Seq<T> { pub fn to_set(self) -> Set<T> { let mut s = Set::empty(); for x in self.0 { s = s.insert(*x); } s } }

macro_rules! bytes_t { ($($n:ident $k:expr),*) => { $(
    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)] pub struct $n { pub data: [u8; $k] }
    impl fmt::Debug for $n { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { for b in self.data { write!(f, "{b:02x}")?; } Ok(()) } }
)* } }
bytes_t!(Bytes32 32, Node 32, ExecutionAddress 20, BlsPublicKey 48, BlsSignature 96, KzgCommitment 48, U256 32);
#[derive(Clone, Copy, PartialEq, Debug)] pub struct ByteVector { pub data: Seq<u8> }
#[derive(Clone, Copy, PartialEq, Debug)] pub struct ByteList { pub data: Seq<u8> }
#[derive(Clone, Copy, PartialEq, Debug)] pub struct Transaction { pub data: Seq<u8> }

pub fn seq1(x: u8) -> Seq<u8> { Seq::of(vec![x]) }
pub fn xb(x: ExecutionAddress) -> Seq<u8> { Seq::of(x.data.to_vec()) }
pub fn seq2<T: Copy>(a: T, b: T) -> Seq<T> { Seq::of(vec![a, b]) }
pub fn kzb(x: KzgCommitment) -> Seq<u8> { Seq::of(x.data.to_vec()) }
pub fn pkb(x: BlsPublicKey) -> Seq<u8> { Seq::of(x.data.to_vec()) }
pub fn sigb(x: BlsSignature) -> Seq<u8> { Seq::of(x.data.to_vec()) }
pub fn b32(x: Bytes32) -> Seq<u8> { Seq::of(x.data.to_vec()) }
pub fn nb(x: Node) -> Seq<u8> { Seq::of(x.data.to_vec()) }
pub fn sha256(s: Seq<u8>) -> Bytes32 { Bytes32 { data: sha2::sha256(s.0) } }
pub fn le_u64(s: Seq<u8>) -> u64 { u64::from_le_bytes(s.0[..8].try_into().unwrap()) }
pub fn u64_le(x: u64) -> Seq<u8> { Seq::of(x.to_le_bytes().to_vec()) }
pub fn u32_le(x: u32) -> Seq<u8> { Seq::of(x.to_le_bytes().to_vec()) }
pub fn isqrt(n: int) -> int { let mut r = (n as f64).sqrt() as int; while r * r > n { r -= 1; } while (r + 1) * (r + 1) <= n { r += 1; } r }
pub fn zero_node() -> Node { Node { data: [0; 32] } }
pub fn zero_bytes32() -> Bytes32 { Bytes32 { data: [0; 32] } }

/// real value -> specification value
pub trait Cv { type M: Copy + PartialEq + fmt::Debug + 'static; fn cv(&self) -> Self::M; }
/// specification value -> real value
pub trait Rv<R> { fn rv(&self) -> R; }
macro_rules! prim { ($($t:ty),*) => { $( impl Cv for $t { type M = $t; fn cv(&self) -> $t { *self } } impl Rv<$t> for $t { fn rv(&self) -> $t { *self } } )* } }
prim!(u8, u16, u32, u64, u128, usize, bool, [u8; 4], [u8; 32]);
impl<T: Cv> Cv for Vec<T> { type M = Seq<T::M>; fn cv(&self) -> Seq<T::M> { Seq::of(self.iter().map(|x| x.cv()).collect()) } }
impl<T: Cv> Cv for [T] { type M = Seq<T::M>; fn cv(&self) -> Seq<T::M> { Seq::of(self.iter().map(|x| x.cv()).collect()) } }
impl<T: Cv> Cv for Option<T> { type M = Option<T::M>; fn cv(&self) -> Option<T::M> { self.as_ref().map(|x| x.cv()) } }
impl<'a, T: Cv> Cv for &'a T { type M = T::M; fn cv(&self) -> T::M { (**self).cv() } }
use ssz_rs as sz;
impl<T: Cv, const N: usize> Cv for sz::List<T, N> { type M = Seq<T::M>; fn cv(&self) -> Seq<T::M> { Seq::of(self.iter().map(|x| x.cv()).collect()) } }
impl<T: Cv, const N: usize> Cv for sz::Vector<T, N> { type M = Seq<T::M>; fn cv(&self) -> Seq<T::M> { Seq::of(self.iter().map(|x| x.cv()).collect()) } }
impl<const N: usize> Cv for sz::Bitlist<N> { type M = Seq<bool>; fn cv(&self) -> Seq<bool> { Seq::of(self.iter().map(|x| *x).collect()) } }
impl<const N: usize> Cv for sz::Bitvector<N> { type M = Seq<bool>; fn cv(&self) -> Seq<bool> { Seq::of(self.iter().map(|x| *x).collect()) } }
impl<T: Rv<R> + Copy, R, const N: usize> Rv<sz::List<R, N>> for Seq<T> where sz::List<R, N>: TryFrom<Vec<R>> {
    fn rv(&self) -> sz::List<R, N> { match sz::List::try_from(self.0.iter().map(|x| x.rv()).collect::<Vec<R>>()) { Ok(x) => x, Err(_) => panic!("list bound") } } }
impl<T: Rv<R> + Copy, R, const N: usize> Rv<sz::Vector<R, N>> for Seq<T> where sz::Vector<R, N>: TryFrom<Vec<R>> {
    fn rv(&self) -> sz::Vector<R, N> { match sz::Vector::try_from(self.0.iter().map(|x| x.rv()).collect::<Vec<R>>()) { Ok(x) => x, Err(_) => panic!("vector length") } } }
impl<T: Rv<R> + Copy, R> Rv<Vec<R>> for Seq<T> { fn rv(&self) -> Vec<R> { self.0.iter().map(|x| x.rv()).collect() } }
impl<const N: usize> Rv<sz::Bitlist<N>> for Seq<bool> { fn rv(&self) -> sz::Bitlist<N> { let mut b = sz::Bitlist::<N>::default(); for x in self.0 { b.push(*x); } b } }
impl<const N: usize> Rv<sz::Bitvector<N>> for Seq<bool> { fn rv(&self) -> sz::Bitvector<N> { let mut b = sz::Bitvector::<N>::default(); for (i, x) in self.0.iter().enumerate() { b.set(i, *x); } b } }
impl Cv for sz::Node { type M = Node; fn cv(&self) -> Node { Node { data: self.as_ref().try_into().unwrap() } } }
impl Rv<sz::Node> for Node { fn rv(&self) -> sz::Node { sz::Node::try_from(&self.data[..]).unwrap() } }
impl Cv for sz::U256 { type M = U256; fn cv(&self) -> U256 { use sz::Serialize; let mut v = vec![]; self.serialize(&mut v).unwrap(); U256 { data: v.try_into().unwrap() } } }
impl Rv<sz::U256> for U256 { fn rv(&self) -> sz::U256 { use sz::Deserialize; sz::U256::deserialize(&self.data).unwrap() } }
use ethereum_consensus::{primitives as pr, ssz::prelude::{ByteList as RBL, ByteVector as RBV}};
macro_rules! bv { ($($m:ident $n:expr),*) => { $(
    impl Cv for RBV<$n> { type M = $m; fn cv(&self) -> $m { $m { data: self.as_ref().try_into().unwrap() } } }
    impl Rv<RBV<$n>> for $m { fn rv(&self) -> RBV<$n> { RBV::<$n>::try_from(&self.data[..]).unwrap() } }
)* } }
bv!(Bytes32 32, ExecutionAddress 20, KzgCommitment 48);
impl Cv for RBV<256> { type M = ByteVector; fn cv(&self) -> ByteVector { ByteVector { data: Seq::of(self.as_ref().to_vec()) } } }
impl Rv<RBV<256>> for ByteVector { fn rv(&self) -> RBV<256> { RBV::<256>::try_from(self.data.0).unwrap() } }
impl Cv for RBL<32> { type M = ByteList; fn cv(&self) -> ByteList { ByteList { data: Seq::of(self.as_ref().to_vec()) } } }
impl Rv<RBL<32>> for ByteList { fn rv(&self) -> RBL<32> { RBL::<32>::try_from(self.data.0).unwrap() } }
impl Cv for RBL<1073741824> { type M = Transaction; fn cv(&self) -> Transaction { Transaction { data: Seq::of(self.as_ref().to_vec()) } } }
impl Rv<RBL<1073741824>> for Transaction { fn rv(&self) -> RBL<1073741824> { RBL::<1073741824>::try_from(self.data.0).unwrap() } }
impl Cv for pr::BlsPublicKey { type M = BlsPublicKey; fn cv(&self) -> BlsPublicKey { BlsPublicKey { data: self.as_ref().try_into().unwrap() } } }
impl Cv for pr::BlsSignature { type M = BlsSignature; fn cv(&self) -> BlsSignature { BlsSignature { data: self.as_ref().try_into().unwrap() } } }
impl Rv<pr::BlsPublicKey> for BlsPublicKey { fn rv(&self) -> pr::BlsPublicKey { let mut k = pr::BlsPublicKey::default(); for i in 0..48 { k[i] = self.data[i]; } k } }
impl Rv<pr::BlsSignature> for BlsSignature { fn rv(&self) -> pr::BlsSignature { let mut k = pr::BlsSignature::default(); for i in 0..96 { k[i] = self.data[i]; } k } }

pub fn arr20(s: Seq<u8>) -> [u8; 20] { s.0.try_into().unwrap() }
pub fn arr32(s: Seq<u8>) -> [u8; 32] { s.0.try_into().unwrap() }
pub fn sorted_set(s: Set<usize>) -> Seq<usize> { let mut v = s.0 .0.to_vec(); v.sort(); v.dedup(); Seq::of(v) }
pub fn vec_of<T>(s: Seq<T>) -> Seq<T> { s }
pub fn list_fits<T>(_n: int) -> bool { true }
use ethereum_consensus::crypto as cr;
// the oracle for signatures is the library itself, not the crate's wrappers
use blst::min_pk as bp;
pub const TAG: &[u8] = b"BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_";
fn good(e: blst::BLST_ERROR) -> bool { e == blst::BLST_ERROR::BLST_SUCCESS }
fn points(pks: &[&[u8]]) -> Option<Vec<bp::PublicKey>> { pks.iter().map(|k| bp::PublicKey::key_validate(k).ok()).collect() }
pub fn raw_verify(pk: &[u8], msg: &[u8], sig: &[u8]) -> bool {
    match (bp::PublicKey::key_validate(pk), bp::Signature::from_bytes(sig)) { (Ok(k), Ok(s)) => good(s.verify(true, msg, TAG, &[], &k, true)), _ => false }
}
pub fn raw_fast(pks: &[&[u8]], msg: &[u8], sig: &[u8]) -> bool {
    match (points(pks), bp::Signature::from_bytes(sig)) { (Some(v), Ok(s)) if !v.is_empty() => good(s.fast_aggregate_verify(true, msg, TAG, &v.iter().collect::<Vec<_>>())), _ => false }
}
pub fn raw_multi(pks: &[&[u8]], msgs: &[&[u8]], sig: &[u8]) -> bool {
    match (points(pks), bp::Signature::from_bytes(sig)) { (Some(v), Ok(s)) if !v.is_empty() && v.len() == msgs.len() => good(s.aggregate_verify(true, msgs, TAG, &v.iter().collect::<Vec<_>>(), true)), _ => false }
}
pub fn raw_key(pks: &[&[u8]]) -> Option<Vec<u8>> {
    let v = points(pks)?; if v.is_empty() { return None; }
    bp::AggregatePublicKey::aggregate(&v.iter().collect::<Vec<_>>(), true).ok().map(|a| a.to_public_key().to_bytes().to_vec())
}
pub fn raw_sig(sigs: &[&[u8]]) -> Option<Vec<u8>> {
    let v: Vec<bp::Signature> = sigs.iter().map(|s| bp::Signature::from_bytes(s).ok()).collect::<Option<_>>()?; if v.is_empty() { return None; }
    bp::AggregateSignature::aggregate(&v.iter().collect::<Vec<_>>(), true).ok().map(|a| a.to_signature().to_bytes().to_vec())
}
pub fn infinity_sig() -> [u8; 96] { let mut x = [0u8; 96]; x[0] = 0xc0; x }
fn keyb(pks: &Seq<BlsPublicKey>) -> Vec<&[u8]> { pks.0.iter().map(|k| &k.data[..]).collect() }
pub fn sig_valid(pk: BlsPublicKey, msg: Seq<u8>, sig: BlsSignature) -> bool { raw_verify(&pk.data, msg.0, &sig.data) }
pub fn agg_valid(pks: Seq<BlsPublicKey>, msg: Seq<u8>, sig: BlsSignature) -> bool { raw_fast(&keyb(&pks), msg.0, &sig.data) }
pub fn eth_agg_valid(pks: Seq<BlsPublicKey>, msg: Seq<u8>, sig: BlsSignature) -> bool { (pks.0.is_empty() && sig.data == infinity_sig()) || agg_valid(pks, msg, sig) }
pub fn agg_key_ok(pks: Seq<BlsPublicKey>) -> bool { raw_key(&keyb(&pks)).is_some() }
pub fn agg_key(pks: Seq<BlsPublicKey>) -> BlsPublicKey { BlsPublicKey { data: raw_key(&keyb(&pks)).unwrap().try_into().unwrap() } }
/// fold of the siblings along the bits of the index
pub fn branch_valid(leaf: Node, branch: Seq<Node>, depth: int, index: int, root: Node) -> bool {
    if branch.len() != depth { return false; }
    let mut x = leaf;
    for i in 0..depth { let b = branch[i]; x = Node { data: sha256(if (index >> i) & 1 == 1 { nb(b) + nb(x) } else { nb(x) + nb(b) }).data }; }
    x == root
}
pub struct Key { pub sk: cr::SecretKey, pub pk: pr::BlsPublicKey }
/// the i-th of a fixed sequence of key pairs
pub fn key(i: usize) -> Key { let mut s = [7u8; 32]; s[..8].copy_from_slice(&(i as u64).wrapping_add(1).to_be_bytes()); let sk = cr::SecretKey::key_gen(&s).unwrap(); let pk = sk.public_key(); Key { sk, pk } }
pub trait Htr { fn htr1(&self) -> Node; }
pub fn htr<T: Htr>(x: T) -> Node { x.htr1() }
// ---- generation ----
pub static NOTES: std::sync::Mutex<std::collections::BTreeMap<&'static str, (u64, u64)>> = std::sync::Mutex::new(std::collections::BTreeMap::new());
pub struct G { s: u64, pub iter: u64 }
impl G {
    pub fn new(seed: u64) -> Self { G { s: seed.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x1234_5678_9abc_def1, iter: 0 } }
    pub fn next(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn range(&mut self, a: u64, b: u64) -> u64 { a + self.below(b - a + 1) }
    pub fn idx(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    /// counts how often a generated case has a feature
    pub fn note(&mut self, name: &'static str, b: bool) { let mut m = NOTES.lock().unwrap(); let e = m.entry(name).or_insert((0, 0)); if b { e.0 += 1 } else { e.1 += 1 } }
    pub fn chance(&mut self, pct: u64) -> bool { self.below(100) < pct }
    pub fn bool(&mut self) -> bool { self.next() & 1 == 1 }
    pub fn bytes<const N: usize>(&mut self) -> [u8; N] { let mut b = [0u8; N]; for x in b.iter_mut() { *x = self.next() as u8; } b }
    pub fn b32(&mut self) -> pr::Bytes32 { Bytes32 { data: self.bytes() }.rv() }
    pub fn node(&mut self) -> sz::Node { Node { data: self.bytes() }.rv() }
    /// one of few distinct nodes
    pub fn small_node(&mut self) -> sz::Node { let mut d = [0u8; 32]; d[0] = self.below(3) as u8; Node { data: d }.rv() }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T { v[self.idx(v.len())].clone() }
    /// near x, or a boundary, or unset
    pub fn near(&mut self, x: u64) -> u64 {
        match self.below(10) {
            0 => u64::MAX, 1 => 0, 2 => x, 3 => x + 1, 4 => x.saturating_sub(1), 5 => x + 2, 6 => x.saturating_sub(2),
            7 => x + self.below(12), _ => x.saturating_sub(self.below(12)),
        }
    }
    pub fn u64_edge(&mut self) -> u64 {
        match self.below(8) { 0 => 0, 1 => 1, 2 => u64::MAX, 3 => u64::MAX - 1, 4 => self.below(100), 5 => 1 << self.below(64), _ => self.next() >> self.below(64) }
    }
}
/// run real code, turning a panic into an error message
pub fn guard<T>(f: impl FnOnce() -> T) -> std::result::Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        format!("the code panicked: {m}")
    })
}
pub fn short<T: fmt::Debug>(x: &T) -> String { let s = format!("{x:?}"); if s.len() > 600 { format!("{}...", s.chars().take(600).collect::<String>()) } else { s } }
#[macro_export]
macro_rules! eqv { ($a:expr, $b:expr, $($m:tt)*) => {{ let (a, b) = ($a, $b); if a != b { return Err(format!("{}: the code gives {} but the specification gives {}", format!($($m)*), $crate::rt::short(&a), $crate::rt::short(&b))); } }} }
#[macro_export]
macro_rules! chk { ($c:expr, $($m:tt)*) => { if !($c) { return Err(format!($($m)*)); } } }
pub type R = std::result::Result<(), String>;
pub struct Test { pub fork: &'static str, pub name: &'static str, pub n: u64, pub f: fn(&mut G) -> R }
pub fn seed_of(seed: u64, fork: &str, name: &str, iter: u64) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325 ^ seed;
    for b in fork.bytes().chain(name.bytes()).chain(iter.to_le_bytes()) { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
    h
}
pub fn run_one(t: &Test, seed: u64, iter: u64) -> R {
    arena_reset();
    let mut g = G::new(seed_of(seed, t.fork, t.name, iter));
    g.iter = iter;
    match guard(|| (t.f)(&mut g)) { Ok(r) => r, Err(m) => Err(m) }
}
pub fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += " ", c => o.push(c) } } o.push('"'); o }
/// args: SEED MILLIS [fork:test:iter] ; prints one JSON line per test
pub fn main(tests: Vec<Test>) {
    if std::env::var("HARNESS_TRACE").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[1].parse().unwrap();
    let millis: u64 = a[2].parse().unwrap();
    let mut tests = tests;
    if a.len() > 3 && a[3].starts_with("only=") {
        let only: Vec<&str> = a[3][5..].split(',').collect();
        tests.retain(|t| only.contains(&t.name));
    } else if a.len() > 3 {
        let w: Vec<&str> = a[3].split(':').collect();
        let t = tests.iter().find(|t| t.fork == w[0] && t.name == w[1]).expect("no such test");
        match run_one(t, seed, w[2].parse().unwrap()) { Ok(()) => println!("held"), Err(m) => { println!("VIOLATED: {m}"); std::process::exit(1) } }
        return;
    }
    let next = std::sync::atomic::AtomicUsize::new(0);
    let tests = &tests;
    // what each worker is running: (test, iteration, since when); an iteration takes well under a second
    let now: std::sync::Mutex<Vec<Option<(usize, u64, std::time::Instant)>>> = std::sync::Mutex::new(vec![None; 6]);
    let done = std::sync::atomic::AtomicUsize::new(0);
    let (now, done) = (&now, &done);
    std::thread::scope(|s| {
        s.spawn(move || loop {
            if done.load(std::sync::atomic::Ordering::SeqCst) == 6 { break; }
            std::thread::sleep(std::time::Duration::from_millis(50));
            let l = now.lock().unwrap();
            let mut stuck = false;
            for x in l.iter().flatten() {
                if x.2.elapsed().as_secs() >= 150 {
                    println!("{{\"fork\": {}, \"test\": {}, \"runs\": {}, \"iter\": {}, \"violation\": \"the code does not terminate (stopped after 150 s)\"}}", js(tests[x.0].fork), js(tests[x.0].name), x.1, x.1);
                    stuck = true;
                }
            }
            if stuck { std::process::exit(3); }
        });
        for w in 0..6 {
            let next = &next;
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if k >= tests.len() { now.lock().unwrap()[w] = None; done.fetch_add(1, std::sync::atomic::Ordering::SeqCst); break; }
                let t = &tests[k];
                println!("{{\"start\": {}}}", js(t.name));
                let t0 = std::time::Instant::now();
                let mut i = 0;
                let mut out = None;
                while i < t.n.max(1) && (i < 1 || t0.elapsed().as_millis() < millis as u128) || (i < t.n * 50 && t0.elapsed().as_millis() < millis as u128 && t.n > 1) {
                    now.lock().unwrap()[w] = Some((k, i, std::time::Instant::now()));
                    if let Err(m) = run_one(t, seed, i) { out = Some((i, m)); break; }
                    i += 1;
                }
                let v = match &out { Some((k, m)) => format!(", \"iter\": {k}, \"violation\": {}", js(m)), None => String::new() };
                println!("{{\"fork\": {}, \"test\": {}, \"runs\": {i}{v}}}", js(t.fork), js(t.name));
            }).unwrap();
        }
    });
    for (k, (a, b)) in NOTES.lock().unwrap().iter() { eprintln!("note: {k}: {a} with, {b} without"); }
}
/// a Merkle tree over the roots of a vector whose length is a power of two
impl Htr for Seq<Node> {
    fn htr1(&self) -> Node {
        let mut v: Vec<Node> = self.0.to_vec();
        assert!(v.len().is_power_of_two());
        while v.len() > 1 { v = v.chunks(2).map(|p| Node { data: sha256(nb(p[0]) + nb(p[1])).data }).collect(); }
        v[0]
    }
}
/// a 32-byte value is its own root
impl Htr for Node { fn htr1(&self) -> Node { *self } }
impl Htr for u64 { fn htr1(&self) -> Node { let mut d = [0u8; 32]; d[..8].copy_from_slice(&self.to_le_bytes()); Node { data: d } } }
pub fn sorted_pairs(s: Seq<(u64, usize)>) -> Seq<(u64, usize)> { let mut v = s.0.to_vec(); v.sort(); Seq::of(v) }
