//! Stand-in for `c-kzg` (not in the offline cache): hash-based commitments with the same API shape.
use std::{fmt, sync::Arc};
pub const BYTES_PER_BLOB: usize = 131072;
#[derive(Debug)]
pub enum Error { InvalidBytesLength(String), BadArgs(String) }
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self) } }
impl std::error::Error for Error {}
macro_rules! bytes { ($t:ident, $n:expr) => {
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct $t(Vec<u8>);
    impl $t {
        pub fn from_bytes(b: &[u8]) -> Result<Self, Error> { if b.len() != $n { Err(Error::InvalidBytesLength(format!("expected {} got {}", $n, b.len()))) } else { Ok($t(b.to_vec())) } }
        pub fn to_bytes(&self) -> $t { self.clone() }
        pub fn as_slice(&self) -> &[u8] { &self.0 }
    }
    impl std::ops::Deref for $t { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
} }
bytes!(Blob, BYTES_PER_BLOB);
bytes!(Bytes32, 32);
bytes!(Bytes48, 48);
pub type KzgCommitment = Bytes48;
pub type KzgProof = Bytes48;
#[derive(Debug, Default, Clone, PartialEq, Eq)]
pub struct KzgSettings;
pub fn ethereum_kzg_settings_arc(_p: u64) -> Arc<KzgSettings> { Arc::new(KzgSettings) }
fn h48(parts: &[&[u8]]) -> Bytes48 { let mut v = vec![]; for p in parts { v.extend_from_slice(p) } let h = sha2::sha256(&v); let mut o = vec![0xa0; 48]; o[16..].copy_from_slice(&h); Bytes48(o) }
// stands for field elements and curve points the library refuses
fn ok(parts: &[&[u8]]) -> Result<(), Error> { if parts.iter().any(|p| p.first() == Some(&0xff)) { Err(Error::BadArgs("not canonical".into())) } else { Ok(()) } }
impl KzgSettings {
    pub fn blob_to_kzg_commitment(&self, b: &Blob) -> Result<KzgCommitment, Error> { ok(&[&b.0])?; Ok(h48(&[b"c", &b.0])) }
    pub fn compute_kzg_proof(&self, b: &Blob, z: &Bytes32) -> Result<(KzgProof, Bytes32), Error> {
        ok(&[&z.0])?;
        let c = self.blob_to_kzg_commitment(b)?;
        let y = Bytes32(sha2::sha256(&[&c.0[..], &z.0[..]].concat()).to_vec());
        Ok((h48(&[b"p", &c.0, &z.0, &y.0]), y))
    }
    pub fn compute_blob_kzg_proof(&self, b: &Blob, c: &Bytes48) -> Result<KzgProof, Error> { ok(&[&b.0, &c.0])?; Ok(h48(&[b"b", &b.0, &c.0])) }
    pub fn verify_kzg_proof(&self, c: &Bytes48, z: &Bytes32, y: &Bytes32, p: &Bytes48) -> Result<bool, Error> { ok(&[&c.0, &z.0, &y.0, &p.0])?; Ok(h48(&[b"p", &c.0, &z.0, &y.0]) == *p) }
    pub fn verify_blob_kzg_proof(&self, b: &Blob, c: &Bytes48, p: &Bytes48) -> Result<bool, Error> { ok(&[&b.0, &c.0, &p.0])?; Ok(self.blob_to_kzg_commitment(b)? == *c && h48(&[b"b", &b.0, &c.0]) == *p) }
    pub fn verify_blob_kzg_proof_batch(&self, b: &[Blob], c: &[Bytes48], p: &[Bytes48]) -> Result<bool, Error> {
        if b.len() != c.len() || b.len() != p.len() { return Err(Error::BadArgs("length mismatch".into())) }
        for i in 0..b.len() { if !self.verify_blob_kzg_proof(&b[i], &c[i], &p[i])? { return Ok(false) } }
        Ok(true)
    }
}
