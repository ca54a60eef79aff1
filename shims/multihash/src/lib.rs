//! Stand-in for multihash 0.16: varint code, varint length, digest (at most 64 bytes).
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Code { Identity, Sha2_256 }
#[derive(Debug)]
pub enum Error { UnsupportedCode(u64), InvalidSize(u64), Varint }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) } }
impl std::error::Error for Error {}
impl TryFrom<u64> for Code { type Error = Error; fn try_from(c: u64) -> Result<Self, Error> { match c { 0 => Ok(Code::Identity), 0x12 => Ok(Code::Sha2_256), c => Err(Error::UnsupportedCode(c)) } } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Multihash { code: u64, size: u8, digest: [u8; 64] }
impl Multihash {
    pub fn wrap(code: u64, d: &[u8]) -> Result<Self, Error> { if d.len() > 64 { return Err(Error::InvalidSize(d.len() as u64)) } let mut digest = [0; 64]; digest[..d.len()].copy_from_slice(d); Ok(Self { code, size: d.len() as u8, digest }) }
    pub fn code(&self) -> u64 { self.code }
    pub fn digest(&self) -> &[u8] { &self.digest[..self.size as usize] }
    pub fn to_bytes(&self) -> Vec<u8> { let mut v = vec![]; uv(self.code, &mut v); uv(self.size as u64, &mut v); v.extend_from_slice(self.digest()); v }
    pub fn from_bytes(b: &[u8]) -> Result<Self, Error> { let (c, r) = rv(b)?; let (n, r) = rv(r)?; if n as usize != r.len() { return Err(Error::InvalidSize(n)) } Self::wrap(c, r) }
}
fn uv(mut x: u64, v: &mut Vec<u8>) { while x >= 0x80 { v.push(x as u8 | 0x80); x >>= 7 } v.push(x as u8) }
fn rv(b: &[u8]) -> Result<(u64, &[u8]), Error> {
    let mut x = 0u64;
    for (i, c) in b.iter().enumerate().take(9) { x |= ((c & 0x7f) as u64) << (7 * i); if c & 0x80 == 0 { if *c == 0 && i > 0 { return Err(Error::Varint) } return Ok((x, &b[i + 1..])) } }
    Err(Error::Varint)
}
