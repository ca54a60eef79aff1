//! Stand-in for `ssz_rs` (a git dependency of the code under test that cannot be fetched offline).
//! Implements SSZ serialisation and merkleisation per the consensus-specs `ssz/simple-serialize.md`
//! with the API surface the repository uses.
pub use ssz_rs_derive::{HashTreeRoot, Serializable, SimpleSerialize};
use bitvec::prelude::*;
use serde::{de::Error as _, ser::SerializeSeq, Deserializer, Serializer};
use std::fmt;
use std::ops::{Deref, DerefMut, Index, IndexMut};
use std::slice::SliceIndex;

pub mod prelude {
    pub use crate::{
        deserialize, is_valid_merkle_branch, serialize, Bitlist, Bitvector, Deserialize,
        DeserializeError, GeneralizedIndexable, HashTreeRoot, List, MerkleizationError, Node, PathElement,
        Serializable, Serialize, SerializeError, SimpleSerialize, SimpleSerializeError, Sizable,
        Vector, U256,
    };
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum SerializeError {
    MaximumEncodedLengthExceeded(usize),
    InvalidInstance(InstanceError),
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum InstanceError {
    Exact { required: usize, provided: usize },
    Bounded { bound: usize, provided: usize },
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum DeserializeError {
    ExpectedFurtherInput { provided: usize, expected: usize },
    AdditionalInput { provided: usize, expected: usize },
    InvalidByte(u8),
    InvalidInput,
    OffsetNotIncreasing,
    InvalidInstance(InstanceError),
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum MerkleizationError {
    SerializationError(SerializeError),
    InputExceedsLimit(usize),
    InvalidPathElement(PathElement),
    InvalidGeneralizedIndex,
    InvalidProof,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum SimpleSerializeError {
    Serialize(SerializeError),
    Deserialize(DeserializeError),
    Merkleization(MerkleizationError),
    Instance(InstanceError),
}
macro_rules! disp { ($($t:ty),*) => { $(impl fmt::Display for $t { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self) } } impl std::error::Error for $t {})* } }
disp!(SerializeError, InstanceError, DeserializeError, MerkleizationError, SimpleSerializeError);
impl From<SerializeError> for SimpleSerializeError { fn from(e: SerializeError) -> Self { Self::Serialize(e) } }
impl From<DeserializeError> for SimpleSerializeError { fn from(e: DeserializeError) -> Self { Self::Deserialize(e) } }
impl From<MerkleizationError> for SimpleSerializeError { fn from(e: MerkleizationError) -> Self { Self::Merkleization(e) } }
impl From<InstanceError> for SimpleSerializeError { fn from(e: InstanceError) -> Self { Self::Instance(e) } }

pub trait Sizable {
    fn is_variable_size() -> bool;
    fn size_hint() -> usize;
}
pub trait Serialize {
    fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError>;
}
pub trait Deserialize: Sized {
    fn deserialize(encoding: &[u8]) -> Result<Self, DeserializeError>;
}
pub trait Serializable: Serialize + Deserialize + Sizable {}
pub trait HashTreeRoot {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError>;
    fn is_composite_type() -> bool where Self: Sized { true }
}
pub trait GeneralizedIndexable {
    fn compute_generalized_index(parent: usize, path: &[PathElement]) -> Result<usize, MerkleizationError> {
        match path.first() { None => Ok(parent), Some(p) => Err(MerkleizationError::InvalidPathElement(p.clone())) }
    }
    fn generalized_index(path: &[PathElement]) -> Result<usize, MerkleizationError> {
        Self::compute_generalized_index(1, path)
    }
}
pub trait SimpleSerialize: Serializable + HashTreeRoot + GeneralizedIndexable {}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum PathElement { Field(String), Index(usize), Length }
impl From<&str> for PathElement { fn from(s: &str) -> Self { Self::Field(s.to_string()) } }
impl From<usize> for PathElement { fn from(s: usize) -> Self { Self::Index(s) } }
pub type GeneralizedIndex = usize;

pub mod proofs {
    use super::*;
    pub fn get_depth(g: GeneralizedIndex) -> Result<u32, MerkleizationError> {
        if g == 0 { Err(MerkleizationError::InvalidGeneralizedIndex) } else { Ok(g.ilog2()) }
    }
    pub fn get_subtree_index(g: GeneralizedIndex) -> Result<usize, MerkleizationError> {
        Ok(g % (1usize << get_depth(g)?))
    }
    pub fn is_valid_merkle_branch(leaf: Node, branch: &[Node], depth: usize, index: usize, root: Node) -> Result<(), MerkleizationError> {
        super::is_valid_merkle_branch(leaf, branch, depth, index, root)
    }
}

pub fn is_valid_merkle_branch<T: AsRef<[Node]> + ?Sized>(leaf: Node, branch: &T, depth: usize, index: usize, root: Node) -> Result<(), MerkleizationError> {
    let branch = branch.as_ref();
    if branch.len() != depth { return Err(MerkleizationError::InvalidProof) }
    let mut value = leaf;
    for i in 0..depth {
        let bit = if i < 64 { (index >> i) & 1 } else { 0 };
        value = if bit == 1 { hash_pair(&branch[i], &value) } else { hash_pair(&value, &branch[i]) };
    }
    if value == root { Ok(()) } else { Err(MerkleizationError::InvalidProof) }
}

pub fn serialize<T: Serialize>(v: &T) -> Result<Vec<u8>, SerializeError> {
    let mut b = vec![];
    v.serialize(&mut b)?;
    Ok(b)
}
pub fn deserialize<T: Deserialize>(b: &[u8]) -> Result<T, DeserializeError> { T::deserialize(b) }

// ---- Node
#[derive(Default, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Node(pub [u8; 32]);
impl Node { pub fn as_slice(&self) -> &[u8] { &self.0 } }
impl AsRef<[u8]> for Node { fn as_ref(&self) -> &[u8] { &self.0 } }
impl Deref for Node { type Target = [u8; 32]; fn deref(&self) -> &[u8; 32] { &self.0 } }
impl DerefMut for Node { fn deref_mut(&mut self) -> &mut [u8; 32] { &mut self.0 } }
impl From<[u8; 32]> for Node { fn from(b: [u8; 32]) -> Self { Node(b) } }
impl TryFrom<&[u8]> for Node { type Error = DeserializeError; fn try_from(b: &[u8]) -> Result<Self, DeserializeError> { <Node as Deserialize>::deserialize(b) } }
impl fmt::Debug for Node { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "0x{}", hex::encode(self.0)) } }
impl fmt::Display for Node { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "0x{}", hex::encode(self.0)) } }
impl fmt::LowerHex for Node { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "0x{}", hex::encode(self.0)) } }
impl serde::Serialize for Node { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&format!("0x{}", hex::encode(self.0))) } }
impl<'de> serde::Deserialize<'de> for Node {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = <String as serde::Deserialize>::deserialize(d)?;
        let h = s.strip_prefix("0x").ok_or_else(|| D::Error::custom("missing 0x"))?;
        let b = hex::decode(h).map_err(D::Error::custom)?;
        <Node as Deserialize>::deserialize(&b).map_err(D::Error::custom)
    }
}
fn exact(encoding: &[u8], n: usize) -> Result<(), DeserializeError> {
    if encoding.len() < n { return Err(DeserializeError::ExpectedFurtherInput { provided: encoding.len(), expected: n }) }
    if encoding.len() > n { return Err(DeserializeError::AdditionalInput { provided: encoding.len(), expected: n }) }
    Ok(())
}
macro_rules! fixed { ($t:ty, $n:expr, $ser:expr, $de:expr, $root:expr, $comp:expr) => {
    impl Sizable for $t { fn is_variable_size() -> bool { false } fn size_hint() -> usize { $n } }
    impl Serialize for $t { fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> { let f: fn(&$t) -> Vec<u8> = $ser; let v = f(self); b.extend_from_slice(&v); Ok(v.len()) } }
    impl Deserialize for $t { fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> { exact(e, $n)?; let f: fn(&[u8]) -> Result<$t, DeserializeError> = $de; f(e) } }
    impl Serializable for $t {}
    impl HashTreeRoot for $t { fn hash_tree_root(&self) -> Result<Node, MerkleizationError> { let f: fn(&$t) -> Node = $root; Ok(f(self)) } fn is_composite_type() -> bool { $comp } }
    impl GeneralizedIndexable for $t {}
    impl SimpleSerialize for $t {}
} }
fn pad(v: &[u8]) -> Node { let mut n = [0u8; 32]; n[..v.len()].copy_from_slice(v); Node(n) }
macro_rules! uints { ($($t:ty, $n:expr);*) => { $( fixed!($t, $n, |x| x.to_le_bytes()[..$n].to_vec(), |e| Ok(<$t>::from_le_bytes(e.try_into().unwrap())), |x| pad(&x.to_le_bytes()), false); )* } }
uints!(u8,1;u16,2;u32,4;u64,8;usize,8;u128,16);
fixed!(bool, 1, |x| vec![*x as u8], |e| match e[0] { 0 => Ok(false), 1 => Ok(true), b => Err(DeserializeError::InvalidByte(b)) }, |x| pad(&[*x as u8]), false);
fixed!(Node, 32, |x| x.0.to_vec(), |e| Ok(Node(e.try_into().unwrap())), |x| *x, true);

impl<T: HashTreeRoot> HashTreeRoot for &T { fn hash_tree_root(&self) -> Result<Node, MerkleizationError> { T::hash_tree_root(*self) } fn is_composite_type() -> bool { T::is_composite_type() } }
impl<T: HashTreeRoot> HashTreeRoot for &mut T { fn hash_tree_root(&self) -> Result<Node, MerkleizationError> { T::hash_tree_root(*self) } fn is_composite_type() -> bool { T::is_composite_type() } }

// fixed arrays (used for versions, domains)
impl<T: Sizable, const N: usize> Sizable for [T; N] { fn is_variable_size() -> bool { T::is_variable_size() } fn size_hint() -> usize { N * T::size_hint() } }
impl<T: Serialize + Sizable, const N: usize> Serialize for [T; N] { fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> { ser_seq(self, b) } }
impl<T: Deserialize + Sizable, const N: usize> Deserialize for [T; N] {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        let v: Vec<T> = de_seq(e, Some(N))?;
        v.try_into().map_err(|_| DeserializeError::InvalidInput)
    }
}
impl<T: Serializable, const N: usize> Serializable for [T; N] {}
impl<T: HashTreeRoot + Serialize, const N: usize> HashTreeRoot for [T; N] { fn hash_tree_root(&self) -> Result<Node, MerkleizationError> { seq_root(self, chunk_limit::<T>(N)) } }
impl<T, const N: usize> GeneralizedIndexable for [T; N] {}
impl<T: Serializable + HashTreeRoot, const N: usize> SimpleSerialize for [T; N] {}

// ---- containers
#[derive(Default)]
pub struct Parts { items: Vec<(bool, Vec<u8>)> }
impl Parts {
    pub fn add<T: Serialize + Sizable>(&mut self, v: &T) -> Result<(), SerializeError> {
        let mut b = vec![];
        v.serialize(&mut b)?;
        self.items.push((T::is_variable_size(), b));
        Ok(())
    }
    pub fn finish(self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError> {
        let start = buffer.len();
        let fixed: usize = self.items.iter().map(|(v, b)| if *v { 4 } else { b.len() }).sum();
        let mut off = fixed;
        for (v, b) in &self.items {
            if *v { buffer.extend_from_slice(&(off as u32).to_le_bytes()); off += b.len() } else { buffer.extend_from_slice(b) }
        }
        if off > u32::MAX as usize { return Err(SerializeError::MaximumEncodedLengthExceeded(off)) }
        for (v, b) in &self.items { if *v { buffer.extend_from_slice(b) } }
        Ok(buffer.len() - start)
    }
}
pub fn split_container<'a>(e: &'a [u8], shape: &[(bool, usize)]) -> Result<Vec<&'a [u8]>, DeserializeError> {
    let fixed: usize = shape.iter().map(|(v, n)| if *v { 4 } else { *n }).sum();
    if e.len() < fixed { return Err(DeserializeError::ExpectedFurtherInput { provided: e.len(), expected: fixed }) }
    let mut pos = 0;
    let mut offs: Vec<usize> = vec![];
    for (v, n) in shape {
        if *v { offs.push(u32::from_le_bytes(e[pos..pos + 4].try_into().unwrap()) as usize); pos += 4 } else { pos += n }
    }
    if offs.is_empty() && e.len() != fixed { return Err(DeserializeError::AdditionalInput { provided: e.len(), expected: fixed }) }
    if let Some(f) = offs.first() { if *f != fixed { return Err(DeserializeError::InvalidInput) } }
    offs.push(e.len());
    for w in offs.windows(2) { if w[1] < w[0] || w[1] > e.len() { return Err(DeserializeError::OffsetNotIncreasing) } }
    let (mut pos, mut k, mut out) = (0, 0, vec![]);
    for (v, n) in shape {
        if *v { out.push(&e[offs[k]..offs[k + 1]]); k += 1; pos += 4 } else { out.push(&e[pos..pos + n]); pos += n }
    }
    Ok(out)
}
fn ser_seq<T: Serialize + Sizable>(v: &[T], buffer: &mut Vec<u8>) -> Result<usize, SerializeError> {
    let start = buffer.len();
    if !T::is_variable_size() { for x in v { x.serialize(buffer)?; } return Ok(buffer.len() - start) }
    let mut p = Parts::default();
    for x in v { p.add(x)? }
    p.finish(buffer)
}
fn de_seq<T: Deserialize + Sizable>(e: &[u8], exact_n: Option<usize>) -> Result<Vec<T>, DeserializeError> {
    let mut out = vec![];
    if !T::is_variable_size() {
        let n = T::size_hint();
        if e.len() % n != 0 { return Err(DeserializeError::InvalidInput) }
        for c in e.chunks(n) { out.push(T::deserialize(c)?) }
    } else if !e.is_empty() {
        if e.len() < 4 { return Err(DeserializeError::InvalidInput) }
        let first = u32::from_le_bytes(e[..4].try_into().unwrap()) as usize;
        if first % 4 != 0 || first == 0 || first > e.len() { return Err(DeserializeError::InvalidInput) }
        let shape = vec![(true, 0usize); first / 4];
        for s in split_container(e, &shape)? { out.push(T::deserialize(s)?) }
    }
    if let Some(n) = exact_n { if out.len() != n { return Err(DeserializeError::InvalidInstance(InstanceError::Exact { required: n, provided: out.len() })) } }
    Ok(out)
}

// ---- merkleisation
pub fn hash_pair(a: &Node, b: &Node) -> Node {
    let mut buf = [0u8; 64];
    buf[..32].copy_from_slice(&a.0);
    buf[32..].copy_from_slice(&b.0);
    Node(sha2::sha256(&buf))
}
fn zero_hashes() -> &'static [Node; 65] {
    static Z: std::sync::OnceLock<[Node; 65]> = std::sync::OnceLock::new();
    Z.get_or_init(|| { let mut z = [Node::default(); 65]; for i in 1..65 { z[i] = hash_pair(&z[i - 1], &z[i - 1]); } z })
}
pub fn merkleize_nodes(chunks: &[Node], limit: Option<usize>) -> Result<Node, MerkleizationError> {
    if let Some(l) = limit { if chunks.len() > l { return Err(MerkleizationError::InputExceedsLimit(l)) } }
    let n = limit.unwrap_or(chunks.len()).max(1);
    let depth = n.next_power_of_two().trailing_zeros() as usize;
    let z = zero_hashes();
    let mut layer: Vec<Node> = chunks.to_vec();
    if layer.is_empty() { return Ok(z[depth]) }
    for d in 0..depth {
        let mut next = Vec::with_capacity(layer.len() / 2 + 1);
        for c in layer.chunks(2) { next.push(hash_pair(&c[0], c.get(1).unwrap_or(&z[d]))) }
        layer = next;
    }
    Ok(layer[0])
}
pub fn pack_bytes(b: &[u8]) -> Vec<Node> { b.chunks(32).map(pad).collect() }
fn mix_in(root: Node, n: usize) -> Node { hash_pair(&root, &pad(&n.to_le_bytes())) }
fn chunk_limit<T: HashTreeRoot>(n: usize) -> usize
{
    if T::is_composite_type() { n } else { ((n as u128 * std::mem::size_of::<T>() as u128 + 31) / 32) as usize }
}
fn seq_root<T: HashTreeRoot + Serialize>(v: &[T], limit: usize) -> Result<Node, MerkleizationError> {
    if T::is_composite_type() {
        let r = v.iter().map(|x| x.hash_tree_root()).collect::<Result<Vec<_>, _>>()?;
        merkleize_nodes(&r, Some(limit))
    } else {
        let mut b = vec![];
        for x in v { x.serialize(&mut b).map_err(MerkleizationError::SerializationError)?; }
        merkleize_nodes(&pack_bytes(&b), Some(limit))
    }
}

// ---- List
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct List<T, const N: usize>(Vec<T>);
impl<T, const N: usize> Default for List<T, N> { fn default() -> Self { List(vec![]) } }
impl<T: fmt::Debug, const N: usize> fmt::Debug for List<T, N> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "List<len={}>{:?}", self.0.len(), self.0) } }
impl<T, const N: usize> Deref for List<T, N> { type Target = Vec<T>; fn deref(&self) -> &Vec<T> { &self.0 } }
impl<T, const N: usize> DerefMut for List<T, N> { fn deref_mut(&mut self) -> &mut Vec<T> { &mut self.0 } }
impl<T, const N: usize> AsRef<[T]> for List<T, N> { fn as_ref(&self) -> &[T] { &self.0 } }
impl<T, I: SliceIndex<[T]>, const N: usize> Index<I> for List<T, N> { type Output = I::Output; fn index(&self, i: I) -> &I::Output { &self.0[i] } }
impl<T, I: SliceIndex<[T]>, const N: usize> IndexMut<I> for List<T, N> { fn index_mut(&mut self, i: I) -> &mut I::Output { &mut self.0[i] } }
impl<T, const N: usize> TryFrom<Vec<T>> for List<T, N> {
    type Error = (Vec<T>, SimpleSerializeError);
    fn try_from(v: Vec<T>) -> Result<Self, Self::Error> {
        if v.len() > N { let provided = v.len(); Err((v, SimpleSerializeError::Instance(InstanceError::Bounded { bound: N, provided }))) } else { Ok(List(v)) }
    }
}
impl<T: Clone, const N: usize> TryFrom<&[T]> for List<T, N> {
    type Error = SimpleSerializeError;
    fn try_from(v: &[T]) -> Result<Self, Self::Error> { v.to_vec().try_into().map_err(|(_, e)| e) }
}
impl<'a, T, const N: usize> IntoIterator for &'a List<T, N> { type Item = &'a T; type IntoIter = std::slice::Iter<'a, T>; fn into_iter(self) -> Self::IntoIter { self.0.iter() } }
impl<'a, T, const N: usize> IntoIterator for &'a mut List<T, N> { type Item = &'a mut T; type IntoIter = std::slice::IterMut<'a, T>; fn into_iter(self) -> Self::IntoIter { self.0.iter_mut() } }
impl<T, const N: usize> IntoIterator for List<T, N> { type Item = T; type IntoIter = std::vec::IntoIter<T>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
impl<T, const N: usize> FromIterator<T> for List<T, N> { fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self { List(it.into_iter().collect()) } }
impl<T, const N: usize> Sizable for List<T, N> { fn is_variable_size() -> bool { true } fn size_hint() -> usize { 0 } }
impl<T: Serialize + Sizable, const N: usize> Serialize for List<T, N> {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        if self.0.len() > N { return Err(SerializeError::InvalidInstance(InstanceError::Bounded { bound: N, provided: self.0.len() })) }
        ser_seq(&self.0, b)
    }
}
impl<T: Deserialize + Sizable, const N: usize> Deserialize for List<T, N> {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        let v = de_seq(e, None)?;
        if v.len() > N { return Err(DeserializeError::InvalidInstance(InstanceError::Bounded { bound: N, provided: v.len() })) }
        Ok(List(v))
    }
}
impl<T: Serialize + Deserialize + Sizable, const N: usize> Serializable for List<T, N> {}
impl<T: HashTreeRoot + Serialize, const N: usize> HashTreeRoot for List<T, N> {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        if self.0.len() > N { return Err(MerkleizationError::InputExceedsLimit(N)) }
        Ok(mix_in(seq_root(&self.0, chunk_limit::<T>(N))?, self.0.len()))
    }
}
impl<T: HashTreeRoot + GeneralizedIndexable, const N: usize> GeneralizedIndexable for List<T, N> {
    fn compute_generalized_index(parent: usize, path: &[PathElement]) -> Result<usize, MerkleizationError> {
        let Some((next, rest)) = path.split_first() else { return Ok(parent) };
        match next {
            PathElement::Length => Ok(parent * 2 + 1),
            PathElement::Index(i) => {
                if *i >= N { return Err(MerkleizationError::InvalidPathElement(next.clone())) }
                let w = chunk_limit::<T>(N).next_power_of_two();
                let c = if T::is_composite_type() { *i } else { *i * std::mem::size_of::<T>() / 32 };
                T::compute_generalized_index(parent * 2 * w + c, rest)
            }
            _ => Err(MerkleizationError::InvalidPathElement(next.clone())),
        }
    }
}
impl<T: SimpleSerialize, const N: usize> SimpleSerialize for List<T, N> {}
impl<T: serde::Serialize, const N: usize> serde::Serialize for List<T, N> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { let mut q = s.serialize_seq(Some(self.0.len()))?; for x in &self.0 { q.serialize_element(x)? } q.end() }
}
impl<'de, T: serde::Deserialize<'de>, const N: usize> serde::Deserialize<'de> for List<T, N> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let v = <Vec<T> as serde::Deserialize>::deserialize(d)?; List::try_from(v).map_err(|(_, e)| D::Error::custom(e)) }
}

// ---- Vector
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Vector<T, const N: usize>(Vec<T>);
impl<T: Default, const N: usize> Default for Vector<T, N> { fn default() -> Self { Vector((0..N).map(|_| T::default()).collect()) } }
impl<T: fmt::Debug, const N: usize> fmt::Debug for Vector<T, N> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Vector<len={}>{:?}", N, self.0) } }
impl<T, const N: usize> Deref for Vector<T, N> { type Target = Vec<T>; fn deref(&self) -> &Vec<T> { &self.0 } }
impl<T, const N: usize> DerefMut for Vector<T, N> { fn deref_mut(&mut self) -> &mut Vec<T> { &mut self.0 } }
impl<T, const N: usize> AsRef<[T]> for Vector<T, N> { fn as_ref(&self) -> &[T] { &self.0 } }
impl<T, I: SliceIndex<[T]>, const N: usize> Index<I> for Vector<T, N> { type Output = I::Output; fn index(&self, i: I) -> &I::Output { &self.0[i] } }
impl<T, I: SliceIndex<[T]>, const N: usize> IndexMut<I> for Vector<T, N> { fn index_mut(&mut self, i: I) -> &mut I::Output { &mut self.0[i] } }
impl<T, const N: usize> TryFrom<Vec<T>> for Vector<T, N> {
    type Error = (Vec<T>, SimpleSerializeError);
    fn try_from(v: Vec<T>) -> Result<Self, Self::Error> {
        if v.len() != N { let provided = v.len(); Err((v, SimpleSerializeError::Instance(InstanceError::Exact { required: N, provided }))) } else { Ok(Vector(v)) }
    }
}
impl<T: Clone, const N: usize> TryFrom<&[T]> for Vector<T, N> {
    type Error = SimpleSerializeError;
    fn try_from(v: &[T]) -> Result<Self, Self::Error> { v.to_vec().try_into().map_err(|(_, e)| e) }
}
impl<'a, T, const N: usize> IntoIterator for &'a Vector<T, N> { type Item = &'a T; type IntoIter = std::slice::Iter<'a, T>; fn into_iter(self) -> Self::IntoIter { self.0.iter() } }
impl<T, const N: usize> IntoIterator for Vector<T, N> { type Item = T; type IntoIter = std::vec::IntoIter<T>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
impl<T: Sizable, const N: usize> Sizable for Vector<T, N> { fn is_variable_size() -> bool { T::is_variable_size() } fn size_hint() -> usize { if T::is_variable_size() { 0 } else { N * T::size_hint() } } }
impl<T: Serialize + Sizable, const N: usize> Serialize for Vector<T, N> { fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> { ser_seq(&self.0, b) } }
impl<T: Deserialize + Sizable, const N: usize> Deserialize for Vector<T, N> {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        if !T::is_variable_size() { exact(e, N * T::size_hint())? }
        Ok(Vector(de_seq(e, Some(N))?))
    }
}
impl<T: Serialize + Deserialize + Sizable, const N: usize> Serializable for Vector<T, N> {}
impl<T: HashTreeRoot + Serialize, const N: usize> HashTreeRoot for Vector<T, N> { fn hash_tree_root(&self) -> Result<Node, MerkleizationError> { seq_root(&self.0, chunk_limit::<T>(N)) } }
impl<T: HashTreeRoot + GeneralizedIndexable, const N: usize> GeneralizedIndexable for Vector<T, N> {
    fn compute_generalized_index(parent: usize, path: &[PathElement]) -> Result<usize, MerkleizationError> {
        let Some((next, rest)) = path.split_first() else { return Ok(parent) };
        match next {
            PathElement::Index(i) if *i < N => {
                let w = chunk_limit::<T>(N).next_power_of_two();
                let c = if T::is_composite_type() { *i } else { *i * std::mem::size_of::<T>() / 32 };
                T::compute_generalized_index(parent * w + c, rest)
            }
            _ => Err(MerkleizationError::InvalidPathElement(next.clone())),
        }
    }
}
impl<T: SimpleSerialize, const N: usize> SimpleSerialize for Vector<T, N> {}
impl<T: serde::Serialize, const N: usize> serde::Serialize for Vector<T, N> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { let mut q = s.serialize_seq(Some(self.0.len()))?; for x in &self.0 { q.serialize_element(x)? } q.end() }
}
impl<'de, T: serde::Deserialize<'de>, const N: usize> serde::Deserialize<'de> for Vector<T, N> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let v = <Vec<T> as serde::Deserialize>::deserialize(d)?; Vector::try_from(v).map_err(|(_, e)| D::Error::custom(e)) }
}

// ---- bitfields
macro_rules! bits_common { ($t:ident) => {
    impl<const N: usize> Deref for $t<N> { type Target = BitVec<u8, Lsb0>; fn deref(&self) -> &Self::Target { &self.0 } }
    impl<const N: usize> DerefMut for $t<N> { fn deref_mut(&mut self) -> &mut Self::Target { &mut self.0 } }
    impl<const N: usize> fmt::Debug for $t<N> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}[", stringify!($t))?; for b in self.0.iter() { write!(f, "{}", *b as u8)? } write!(f, "]") } }
    impl<const N: usize> fmt::Display for $t<N> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self) } }
    impl<const N: usize> serde::Serialize for $t<N> { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { let mut b = vec![]; Serialize::serialize(self, &mut b).map_err(serde::ser::Error::custom)?; s.serialize_str(&format!("0x{}", hex::encode(b))) } }
    impl<'de, const N: usize> serde::Deserialize<'de> for $t<N> { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let s = <String as serde::Deserialize>::deserialize(d)?; let h = s.strip_prefix("0x").ok_or_else(|| D::Error::custom("missing 0x"))?; let b = hex::decode(h).map_err(D::Error::custom)?; <Self as Deserialize>::deserialize(&b).map_err(D::Error::custom) } }
    impl<const N: usize> Serializable for $t<N> {}
    impl<const N: usize> GeneralizedIndexable for $t<N> {}
    impl<const N: usize> SimpleSerialize for $t<N> {}
} }
fn bits_to_bytes(b: &BitSlice<u8, Lsb0>) -> Vec<u8> { let mut v = vec![0u8; (b.len() + 7) / 8]; for (i, x) in b.iter().enumerate() { if *x { v[i / 8] |= 1 << (i % 8) } } v }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Bitvector<const N: usize>(BitVec<u8, Lsb0>);
impl<const N: usize> Default for Bitvector<N> { fn default() -> Self { Bitvector(BitVec::repeat(false, N)) } }
bits_common!(Bitvector);
impl<const N: usize> Sizable for Bitvector<N> { fn is_variable_size() -> bool { false } fn size_hint() -> usize { (N + 7) / 8 } }
impl<const N: usize> Serialize for Bitvector<N> { fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> { let v = bits_to_bytes(&self.0); b.extend_from_slice(&v); Ok(v.len()) } }
impl<const N: usize> Deserialize for Bitvector<N> {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        exact(e, (N + 7) / 8)?;
        for i in N..e.len() * 8 { if e[i / 8] >> (i % 8) & 1 == 1 { return Err(DeserializeError::InvalidByte(e[i / 8])) } }
        Ok(Bitvector((0..N).map(|i| e[i / 8] >> (i % 8) & 1 == 1).collect()))
    }
}
impl<const N: usize> HashTreeRoot for Bitvector<N> { fn hash_tree_root(&self) -> Result<Node, MerkleizationError> { merkleize_nodes(&pack_bytes(&bits_to_bytes(&self.0)), Some((N + 255) / 256)) } }
impl<const N: usize> TryFrom<&[u8]> for Bitvector<N> { type Error = DeserializeError; fn try_from(e: &[u8]) -> Result<Self, DeserializeError> { <Self as Deserialize>::deserialize(e) } }
#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct Bitlist<const N: usize>(BitVec<u8, Lsb0>);
bits_common!(Bitlist);
impl<const N: usize> Bitlist<N> {
    pub fn with_length(n: usize) -> Self { Bitlist(BitVec::repeat(false, n)) }
    }
impl<const N: usize> TryFrom<&[bool]> for Bitlist<N> { type Error = InstanceError; fn try_from(b: &[bool]) -> Result<Self, InstanceError> { if b.len() > N { Err(InstanceError::Bounded { bound: N, provided: b.len() }) } else { Ok(Bitlist(b.iter().copied().collect())) } } }
impl<const N: usize> Sizable for Bitlist<N> { fn is_variable_size() -> bool { true } fn size_hint() -> usize { 0 } }
impl<const N: usize> Serialize for Bitlist<N> {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        if self.0.len() > N { return Err(SerializeError::InvalidInstance(InstanceError::Bounded { bound: N, provided: self.0.len() })) }
        let mut c = self.0.clone(); c.push(true);
        let v = bits_to_bytes(&c); b.extend_from_slice(&v); Ok(v.len())
    }
}
impl<const N: usize> Deserialize for Bitlist<N> {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        let Some(last) = e.last() else { return Err(DeserializeError::ExpectedFurtherInput { provided: 0, expected: 1 }) };
        if *last == 0 { return Err(DeserializeError::InvalidByte(0)) }
        let n = (e.len() - 1) * 8 + (7 - last.leading_zeros() as usize);
        if n > N { return Err(DeserializeError::InvalidInstance(InstanceError::Bounded { bound: N, provided: n })) }
        Ok(Bitlist((0..n).map(|i| e[i / 8] >> (i % 8) & 1 == 1).collect()))
    }
}
impl<const N: usize> HashTreeRoot for Bitlist<N> {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        if self.0.len() > N { return Err(MerkleizationError::InputExceedsLimit(N)) }
        Ok(mix_in(merkleize_nodes(&pack_bytes(&bits_to_bytes(&self.0)), Some((N + 255) / 256))?, self.0.len()))
    }
}
impl<const N: usize> TryFrom<&[u8]> for Bitlist<N> { type Error = DeserializeError; fn try_from(e: &[u8]) -> Result<Self, DeserializeError> { <Self as Deserialize>::deserialize(e) } }

// ---- U256
#[derive(Clone, Copy, PartialEq, Eq, Default, Hash)]
pub struct U256([u64; 4]);
impl U256 {
    pub const ZERO: U256 = U256([0; 4]);
    pub const MAX: U256 = U256([u64::MAX; 4]);
    pub fn from_le_bytes(b: [u8; 32]) -> Self { let mut r = [0u64; 4]; for i in 0..4 { r[i] = u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap()) } U256(r) }
    pub fn to_le_bytes(&self) -> [u8; 32] { let mut b = [0u8; 32]; for i in 0..4 { b[i * 8..i * 8 + 8].copy_from_slice(&self.0[i].to_le_bytes()) } b }
    pub fn from_be_bytes(mut b: [u8; 32]) -> Self { b.reverse(); Self::from_le_bytes(b) }
    fn divmod_small(self, d: u64) -> (U256, u64) { let mut r = [0u64; 4]; let mut rem = 0u128; for i in (0..4).rev() { let c = (rem << 64) | self.0[i] as u128; r[i] = (c / d as u128) as u64; rem = c % d as u128 } (U256(r), rem as u64) }
}
impl From<u64> for U256 { fn from(x: u64) -> Self { U256([x, 0, 0, 0]) } }
impl Ord for U256 { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.0.iter().rev().cmp(o.0.iter().rev()) } }
impl PartialOrd for U256 { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl fmt::Display for U256 { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { let mut x = *self; let mut s = vec![]; loop { let (q, r) = x.divmod_small(10); s.push(b'0' + r as u8); x = q; if x == U256::ZERO { break } } s.reverse(); f.write_str(std::str::from_utf8(&s).unwrap()) } }
impl fmt::Debug for U256 { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}_U256", self) } }
impl std::str::FromStr for U256 {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        if s.is_empty() { return Err("empty".into()) }
        let mut r = [0u64; 4];
        for c in s.bytes() {
            if !c.is_ascii_digit() { return Err("bad digit".into()) }
            let mut carry = (c - b'0') as u128;
            for l in r.iter_mut() { let v = *l as u128 * 10 + carry; *l = v as u64; carry = v >> 64 }
            if carry != 0 { return Err("overflow".into()) }
        }
        Ok(U256(r))
    }
}
fixed!(U256, 32, |x| x.to_le_bytes().to_vec(), |e| Ok(U256::from_le_bytes(e.try_into().unwrap())), |x| Node(x.to_le_bytes()), false);
impl serde::Serialize for U256 { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&self.to_string()) } }
impl<'de> serde::Deserialize<'de> for U256 { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { <String as serde::Deserialize>::deserialize(d)?.parse().map_err(D::Error::custom) } }
