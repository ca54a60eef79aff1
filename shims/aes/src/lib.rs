//! Stand-in for `aes` (not in the offline cache): AES-128 of one block (FIPS 197).
pub mod cipher {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct InvalidLength;
    pub trait KeyIvInit: Sized {
        fn new_from_slices(key: &[u8], iv: &[u8]) -> Result<Self, InvalidLength>;
        fn new(key: &[u8; 16], iv: &[u8; 16]) -> Self { Self::new_from_slices(key, iv).unwrap() }
    }
    pub trait StreamCipher { fn apply_keystream(&mut self, data: &mut [u8]); }
}
pub struct Aes128;
fn mul(mut a: u8, mut b: u8) -> u8 { let mut r = 0; while b > 0 { if b & 1 == 1 { r ^= a; } a = (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 }; b >>= 1; } r }
fn sub(x: u8) -> u8 {
    let mut i = 1u8; // x^254
    if x == 0 { i = 0; } else { for k in (0..8).rev() { i = mul(i, i); if 254 >> k & 1 == 1 { i = mul(i, x); } } }
    i ^ i.rotate_left(1) ^ i.rotate_left(2) ^ i.rotate_left(3) ^ i.rotate_left(4) ^ 0x63
}
pub fn encrypt_block(key: &[u8; 16], block: [u8; 16]) -> [u8; 16] {
    let mut w = [[0u8; 4]; 44];
    let mut rc = 1u8;
    for i in 0..44 {
        if i < 4 { w[i].copy_from_slice(&key[4 * i..4 * i + 4]); continue }
        let mut t = w[i - 1];
        if i % 4 == 0 { t = [sub(t[1]) ^ rc, sub(t[2]), sub(t[3]), sub(t[0])]; rc = mul(rc, 2); }
        for j in 0..4 { w[i][j] = w[i - 4][j] ^ t[j]; }
    }
    let mut s = block;
    for j in 0..16 { s[j] ^= w[j / 4][j % 4]; }
    for round in 1..11 {
        let b: Vec<u8> = s.iter().map(|x| sub(*x)).collect();
        for c in 0..4 { for r in 0..4 { s[4 * c + r] = b[4 * ((c + r) % 4) + r]; } }
        if round < 10 {
            for c in 0..4 {
                let a = [s[4 * c], s[4 * c + 1], s[4 * c + 2], s[4 * c + 3]];
                for r in 0..4 { s[4 * c + r] = mul(a[r], 2) ^ mul(a[(r + 1) % 4], 3) ^ a[(r + 2) % 4] ^ a[(r + 3) % 4]; }
            }
        }
        for j in 0..16 { s[j] ^= w[4 * round + j / 4][j % 4]; }
    }
    s
}
#[test]
fn fips197() {
    let k: Vec<u8> = (0..16).collect();
    let b: Vec<u8> = (0..16).map(|i| i * 0x11).collect();
    assert_eq!(encrypt_block(k[..].try_into().unwrap(), b[..].try_into().unwrap()), [0x69, 0xc4, 0xe0, 0xd8, 0x6a, 0x7b, 0x04, 0x30, 0xd8, 0xcd, 0xb7, 0x80, 0x70, 0xb4, 0xc5, 0x5a]);
}
