//! Stand-in for `blst` (not in the offline cache). It has the same API shape and the algebra the
//! callers rely on (signatures and keys aggregate additively; verification is the bilinear equation)
//! over Z_p with p = 2^61 - 1. It is NOT cryptographically secure; it is used only to execute callers.
#![allow(non_camel_case_types)]
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum BLST_ERROR {
    BLST_SUCCESS,
    BLST_BAD_ENCODING,
    BLST_POINT_NOT_ON_CURVE,
    BLST_POINT_NOT_IN_GROUP,
    BLST_AGGR_TYPE_MISMATCH,
    BLST_VERIFY_FAIL,
    BLST_PK_IS_INFINITY,
    BLST_BAD_SCALAR,
}
const P: u128 = (1 << 61) - 1;
/// BLS12-381 scalar field modulus, big endian.
const R: [u8; 32] = [
    0x73, 0xed, 0xa7, 0x53, 0x29, 0x9d, 0x7d, 0x48, 0x33, 0x39, 0xd8, 0x08, 0x09, 0xa1, 0xd8, 0x05, 0x53, 0xbd,
    0xa4, 0x02, 0xff, 0xfe, 0x5b, 0xfe, 0xff, 0xff, 0xff, 0xff, 0x00, 0x00, 0x00, 0x01,
];
fn red(b: &[u8]) -> u64 {
    let mut r: u128 = 0;
    for x in b {
        r = (r * 256 + *x as u128) % P;
    }
    r as u64
}
fn h2g(dst: &[u8], aug: &[u8], msg: &[u8]) -> u64 {
    let mut v = (dst.len() as u64).to_le_bytes().to_vec();
    v.extend_from_slice(dst);
    v.extend_from_slice(aug);
    v.extend_from_slice(msg);
    let r = red(&sha2::sha256(&v));
    if r == 0 { 1 } else { r }
}
/// A point is its discrete logarithm mod P; bit 63 marks a component outside the prime-order group.
const OUT: u64 = 1 << 63;
fn mul(a: u64, b: u64) -> u64 {
    ((a & !OUT) as u128 * (b & !OUT) as u128 % P) as u64
}
fn add(a: u64, b: u64) -> u64 {
    (((a & !OUT) as u128 + (b & !OUT) as u128) % P) as u64 | ((a ^ b) & OUT)
}
fn enc<const N: usize>(x: u64) -> [u8; N] {
    let mut o = [0u8; N];
    if x == 0 {
        o[0] = 0xc0;
    } else {
        o[0] = 0x80;
        o[1..9].copy_from_slice(&x.to_be_bytes());
    }
    o
}
fn dec(b: &[u8], n: usize) -> Result<u64, BLST_ERROR> {
    if b.len() != n {
        return Err(BLST_ERROR::BLST_BAD_ENCODING)
    }
    if b[9..].iter().any(|x| *x != 0) {
        return Err(BLST_ERROR::BLST_POINT_NOT_ON_CURVE)
    }
    let x = u64::from_be_bytes(b[1..9].try_into().unwrap());
    match b[0] {
        0xc0 if x == 0 => Ok(0),
        0x80 if x != 0 && ((x & !OUT) as u128) < P => Ok(x),
        _ => Err(BLST_ERROR::BLST_BAD_ENCODING),
    }
}
pub mod min_pk {
    use super::*;
    #[derive(Clone, Copy, Default, Debug, PartialEq, Eq)]
    pub struct PublicKey(u64);
    #[derive(Clone, Copy, Default, Debug, PartialEq, Eq)]
    pub struct Signature(u64);
    #[derive(Clone, Default, Debug, PartialEq, Eq)]
    pub struct SecretKey([u8; 32]);
    pub struct AggregateSignature(u64);
    pub struct AggregatePublicKey(u64);
    impl SecretKey {
        pub fn key_gen(ikm: &[u8], info: &[u8]) -> Result<Self, BLST_ERROR> {
            if ikm.len() < 32 {
                return Err(BLST_ERROR::BLST_BAD_ENCODING)
            }
            let mut v = ikm.to_vec();
            v.extend_from_slice(info);
            let mut h = sha2::sha256(&v);
            h[0] &= 0x3f;
            Ok(SecretKey(h))
        }
        pub fn derive_master_eip2333(ikm: &[u8]) -> Result<Self, BLST_ERROR> {
            Self::key_gen(ikm, b"master")
        }
        pub fn from_bytes(b: &[u8]) -> Result<Self, BLST_ERROR> {
            let b: [u8; 32] = b.try_into().map_err(|_| BLST_ERROR::BLST_BAD_ENCODING)?;
            if b == [0; 32] || b >= R {
                return Err(BLST_ERROR::BLST_BAD_ENCODING)
            }
            Ok(SecretKey(b))
        }
        pub fn to_bytes(&self) -> [u8; 32] {
            self.0
        }
        pub fn sk_to_pk(&self) -> PublicKey {
            PublicKey(red(&self.0))
        }
        pub fn sign(&self, msg: &[u8], dst: &[u8], aug: &[u8]) -> Signature {
            Signature(mul(red(&self.0), h2g(dst, aug, msg)))
        }
    }
    impl PublicKey {
        pub fn key_validate(b: &[u8]) -> Result<Self, BLST_ERROR> {
            let x = dec(b, 48)?;
            if x == 0 {
                return Err(BLST_ERROR::BLST_PK_IS_INFINITY)
            }
            if x & OUT != 0 {
                return Err(BLST_ERROR::BLST_POINT_NOT_IN_GROUP)
            }
            Ok(PublicKey(x))
        }
        pub fn from_bytes(b: &[u8]) -> Result<Self, BLST_ERROR> {
            Ok(PublicKey(dec(b, 48)?))
        }
        pub fn to_bytes(&self) -> [u8; 48] {
            enc(self.0)
        }
    }
    impl Signature {
        pub fn from_bytes(b: &[u8]) -> Result<Self, BLST_ERROR> {
            Ok(Signature(dec(b, 96)?))
        }
        pub fn to_bytes(&self) -> [u8; 96] {
            enc(self.0)
        }
        pub fn verify(&self, g: bool, msg: &[u8], dst: &[u8], aug: &[u8], pk: &PublicKey, v: bool) -> BLST_ERROR {
            if g && self.0 & OUT != 0 || v && pk.0 & OUT != 0 {
                return BLST_ERROR::BLST_POINT_NOT_IN_GROUP
            }
            if pk.0 == 0 {
                return BLST_ERROR::BLST_PK_IS_INFINITY
            }
            if self.0 & !OUT == mul(pk.0, h2g(dst, aug, msg)) { BLST_ERROR::BLST_SUCCESS } else { BLST_ERROR::BLST_VERIFY_FAIL }
        }
        pub fn aggregate_verify(&self, g: bool, msgs: &[&[u8]], dst: &[u8], pks: &[&PublicKey], v: bool) -> BLST_ERROR {
            if g && self.0 & OUT != 0 || v && pks.iter().any(|k| k.0 & OUT != 0) {
                return BLST_ERROR::BLST_POINT_NOT_IN_GROUP
            }
            if pks.is_empty() || pks.len() != msgs.len() {
                return BLST_ERROR::BLST_VERIFY_FAIL
            }
            let mut s = 0;
            for (m, k) in msgs.iter().zip(pks) {
                if k.0 == 0 {
                    return BLST_ERROR::BLST_PK_IS_INFINITY
                }
                s = add(s, mul(k.0, h2g(dst, &[], m)));
            }
            if self.0 & !OUT == s { BLST_ERROR::BLST_SUCCESS } else { BLST_ERROR::BLST_VERIFY_FAIL }
        }
        pub fn fast_aggregate_verify(&self, g: bool, msg: &[u8], dst: &[u8], pks: &[&PublicKey]) -> BLST_ERROR {
            let pk = match AggregatePublicKey::aggregate(pks, false) {
                Ok(a) => a.to_public_key(),
                Err(e) => return e,
            };
            self.verify(g, msg, dst, &[], &pk, false)
        }
    }
    impl AggregateSignature {
        pub fn aggregate(s: &[&Signature], g: bool) -> Result<Self, BLST_ERROR> {
            if g && s.iter().any(|k| k.0 & OUT != 0) {
                return Err(BLST_ERROR::BLST_POINT_NOT_IN_GROUP)
            }
            if s.is_empty() {
                return Err(BLST_ERROR::BLST_AGGR_TYPE_MISMATCH)
            }
            Ok(Self(s.iter().fold(0, |a, b| add(a, b.0))))
        }
        pub fn to_signature(&self) -> Signature {
            Signature(self.0)
        }
    }
    impl AggregatePublicKey {
        pub fn aggregate(s: &[&PublicKey], v: bool) -> Result<Self, BLST_ERROR> {
            if v && s.iter().any(|k| k.0 == 0) {
                return Err(BLST_ERROR::BLST_PK_IS_INFINITY)
            }
            if v && s.iter().any(|k| k.0 & OUT != 0) {
                return Err(BLST_ERROR::BLST_POINT_NOT_IN_GROUP)
            }
            if s.is_empty() {
                return Err(BLST_ERROR::BLST_AGGR_TYPE_MISMATCH)
            }
            Ok(Self(s.iter().fold(0, |a, b| add(a, b.0))))
        }
        pub fn to_public_key(&self) -> PublicKey {
            PublicKey(self.0)
        }
    }
}
