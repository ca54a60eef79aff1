//! Stand-in for `scrypt` (not in the offline cache): RFC 7914, and the part of `password_hash` used with it.
use hkdf::hmac;
fn pbkdf2(pass: &[u8], salt: &[u8], n: usize) -> Vec<u8> {
    let mut out = vec![];
    let mut i = 1u32;
    while out.len() < n { out.extend(hmac(pass, &[salt, &i.to_be_bytes()])); i += 1; }
    out.truncate(n);
    out
}
fn salsa8(b: &mut [u32; 16]) {
    let mut x = *b;
    for _ in 0..4 {
        for c in 0..4 {
            let q = [c * 4 + c, (c * 4 + c + 4) % 16, (c * 4 + c + 8) % 16, (c * 4 + c + 12) % 16];
            qr(&mut x, q);
        }
        for c in 0..4 { let q = [c * 4 + c, c * 4 + (c + 1) % 4, c * 4 + (c + 2) % 4, c * 4 + (c + 3) % 4]; qr(&mut x, q); }
    }
    for i in 0..16 { b[i] = b[i].wrapping_add(x[i]); }
}
#[inline(always)]
fn qr(x: &mut [u32; 16], q: [usize; 4]) {
    x[q[1]] ^= x[q[0]].wrapping_add(x[q[3]]).rotate_left(7);
    x[q[2]] ^= x[q[1]].wrapping_add(x[q[0]]).rotate_left(9);
    x[q[3]] ^= x[q[2]].wrapping_add(x[q[1]]).rotate_left(13);
    x[q[0]] ^= x[q[3]].wrapping_add(x[q[2]]).rotate_left(18);
}
fn block_mix(b: &[u32], out: &mut [u32], r: usize) {
    let mut x: [u32; 16] = b[(2 * r - 1) * 16..].try_into().unwrap();
    for i in 0..2 * r {
        for j in 0..16 { x[j] ^= b[i * 16 + j]; }
        salsa8(&mut x);
        let k = if i % 2 == 0 { i / 2 } else { r + i / 2 };
        out[k * 16..k * 16 + 16].copy_from_slice(&x);
    }
}
pub fn scrypt_raw(pass: &[u8], salt: &[u8], n: usize, r: usize, p: usize, len: usize) -> Vec<u8> {
    let mut b = pbkdf2(pass, salt, p * 128 * r);
    for c in b.chunks_mut(128 * r) {
        let w = 32 * r;
        let mut x: Vec<u32> = c.chunks(4).map(|t| u32::from_le_bytes(t.try_into().unwrap())).collect();
        let mut y = vec![0u32; w];
        let mut v = vec![0u32; w * n];
        for i in 0..n { v[i * w..(i + 1) * w].copy_from_slice(&x); block_mix(&x, &mut y, r); std::mem::swap(&mut x, &mut y); }
        for _ in 0..n {
            let j = x[w - 16] as usize & (n - 1);
            for (a, k) in x.iter_mut().zip(&v[j * w..(j + 1) * w]) { *a ^= k; }
            block_mix(&x, &mut y, r);
            std::mem::swap(&mut x, &mut y);
        }
        for (t, k) in c.chunks_mut(4).zip(&x) { t.copy_from_slice(&k.to_le_bytes()); }
    }
    pbkdf2(pass, &b, len)
}
#[derive(Clone, Copy, Debug)]
pub struct Params { log_n: u8, r: u32, p: u32, len: usize }
#[derive(Debug)]
pub struct InvalidParams;
impl Params {
    pub const RECOMMENDED_LOG_N: u8 = 17;
    pub const RECOMMENDED_R: u32 = 8;
    pub const RECOMMENDED_P: u32 = 1;
    pub const RECOMMENDED_LEN: usize = 32;
    pub fn new(log_n: u8, r: u32, p: u32, len: usize) -> Result<Params, InvalidParams> { if log_n == 0 || log_n > 40 || r == 0 || p == 0 || len < 10 || len > 64 { Err(InvalidParams) } else { Ok(Params { log_n, r, p, len }) } }
    pub fn recommended() -> Params { Params { log_n: 17, r: 8, p: 1, len: 32 } }
    pub fn log_n(&self) -> u8 { self.log_n }
    pub fn r(&self) -> u32 { self.r }
    pub fn p(&self) -> u32 { self.p }
}
#[derive(Clone, Copy, Debug)]
pub struct Scrypt;
impl password_hash::PasswordHasher for Scrypt {
    type Params = Params;
    fn hash_password_customized<'a>(&self, password: &[u8], alg: Option<password_hash::Ident>, version: Option<u32>, params: Params, salt: &'a password_hash::SaltString) -> Result<password_hash::PasswordHash, password_hash::Error> {
        if alg.is_some() || version.is_some() { return Err(password_hash::Error) }
        let mut b = [0u8; 64];
        let s = salt.decode_b64(&mut b)?;
        Ok(password_hash::PasswordHash { hash: Some(password_hash::Output(scrypt_raw(password, s, 1 << params.log_n, params.r as usize, params.p as usize, params.len))) })
    }
}
pub mod password_hash {
    pub mod rand_core {
        pub use ::rand_core::{Error, RngCore, CryptoRng};
        thread_local! { pub static LAST_EIGHT_SET: std::cell::Cell<bool> = std::cell::Cell::new(false); }
        /// the system's source; a test may ask that 16-byte requests end in eight bytes that are all ones
        #[derive(Clone, Copy, Debug, Default)]
        pub struct OsRng;
        impl RngCore for OsRng {
            fn next_u32(&mut self) -> u32 { ::rand_core::OsRng.next_u32() }
            fn next_u64(&mut self) -> u64 { ::rand_core::OsRng.next_u64() }
            fn fill_bytes(&mut self, b: &mut [u8]) { ::rand_core::OsRng.fill_bytes(b); if b.len() == 16 && LAST_EIGHT_SET.with(|x| x.get()) { b[8..].fill(0xff); } }
            fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), Error> { self.fill_bytes(b); Ok(()) }
        }
        impl CryptoRng for OsRng {}
    }
    pub type Ident = u8;
    #[derive(Debug, Clone, Copy)]
    pub struct Error;
    pub struct Output(pub(crate) Vec<u8>);
    impl Output { pub fn as_bytes(&self) -> &[u8] { &self.0 } }
    pub struct PasswordHash { pub hash: Option<Output> }
    pub trait PasswordHasher {
        type Params;
        fn hash_password_customized<'a>(&self, password: &[u8], alg: Option<Ident>, version: Option<u32>, params: Self::Params, salt: &'a SaltString) -> Result<PasswordHash, Error>;
    }
    #[derive(Clone, Debug)]
    pub struct SaltString(String);
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    impl SaltString {
        pub fn generate(mut r: impl rand_core::RngCore) -> Self { let mut b = [0u8; 16]; r.fill_bytes(&mut b); Self::encode_b64(&b).unwrap() }
        pub fn encode_b64(b: &[u8]) -> Result<Self, Error> {
            let mut s = String::new();
            for c in b.chunks(3) {
                let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
                for i in 0..c.len() + 1 { s.push(A[(v >> (18 - 6 * i) & 63) as usize] as char); }
            }
            Ok(SaltString(s))
        }
        pub fn len(&self) -> usize { self.0.len() }
        pub fn as_str(&self) -> &str { &self.0 }
        pub fn decode_b64<'a>(&self, buf: &'a mut [u8]) -> Result<&'a [u8], Error> {
            let (mut acc, mut bits, mut n) = (0u32, 0, 0);
            for c in self.0.bytes() {
                acc = acc << 6 | A.iter().position(|a| *a == c).ok_or(Error)? as u32;
                bits += 6;
                if bits >= 8 { bits -= 8; *buf.get_mut(n).ok_or(Error)? = (acc >> bits) as u8; n += 1; acc &= (1 << bits) - 1; }
            }
            Ok(&buf[..n])
        }
    }
}
#[test]
fn rfc7914() { assert_eq!(scrypt_raw(b"password", b"NaCl", 1024, 8, 16, 64)[..8], [0xfd, 0xba, 0xbe, 0x1c, 0x9d, 0x34, 0x72, 0x00]); }
