//! Stand-in for `hkdf` (not in the offline cache): RFC 5869 over SHA-256.
use std::marker::PhantomData;
pub fn hmac(key: &[u8], data: &[&[u8]]) -> [u8; 32] {
    let mut k = [0u8; 64];
    if key.len() > 64 { k[..32].copy_from_slice(&sha2::sha256(key)); } else { k[..key.len()].copy_from_slice(key); }
    let mut inner: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    for d in data { inner.extend_from_slice(d); }
    let mut outer: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    outer.extend_from_slice(&sha2::sha256(&inner));
    sha2::sha256(&outer)
}
pub struct Hkdf<H> { prk: [u8; 32], h: PhantomData<H> }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct InvalidLength;
impl std::fmt::Display for InvalidLength { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "invalid number of blocks, too large output") } }
impl std::error::Error for InvalidLength {}
impl<H> Hkdf<H> {
    pub fn new(salt: Option<&[u8]>, ikm: &[u8]) -> Self { Hkdf { prk: hmac(salt.unwrap_or(&[0u8; 32]), &[ikm]), h: PhantomData } }
    pub fn expand(&self, info: &[u8], out: &mut [u8]) -> Result<(), InvalidLength> {
        if out.len() > 255 * 32 { return Err(InvalidLength) }
        let mut t: Vec<u8> = vec![];
        for (i, c) in out.chunks_mut(32).enumerate() {
            t = hmac(&self.prk, &[&t, info, &[i as u8 + 1]]).to_vec();
            c.copy_from_slice(&t[..c.len()]);
        }
        Ok(())
    }
}
#[test]
fn rfc5869_case_1() {
    let h = Hkdf::<()>::new(Some(&(0u8..13).collect::<Vec<_>>()), &[0x0b; 22]);
    let mut o = [0u8; 42];
    h.expand(&(0xf0u8..0xfa).collect::<Vec<_>>(), &mut o).unwrap();
    assert_eq!(o[..8], [0x3c, 0xb2, 0x5f, 0x25, 0xfa, 0xac, 0xd5, 0x7a]);
    assert_eq!(o[40..], [0x58, 0x65]);
}
