//! Stand-in for `ruint` (not in the offline cache): fixed-width numbers with comparison, parsing, bytes and remainder.
use std::{cmp::Ordering, fmt, ops::{Rem, Shr, Add, Sub}};
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Uint<const BITS: usize, const LIMBS: usize> { limbs: [u64; LIMBS] } // least significant first
pub mod aliases {
    pub type U256 = crate::Uint<256, 4>;
    pub type U384 = crate::Uint<384, 6>;
}
impl<const BITS: usize, const LIMBS: usize> Uint<BITS, LIMBS> {
    pub const ZERO: Self = Self { limbs: [0; LIMBS] };
    pub const MAX: Self = Self { limbs: [u64::MAX; LIMBS] };
    pub const fn parse(s: &str) -> Self {
        let b = s.as_bytes();
        let (mut v, mut i) = (Self::ZERO, 0);
        while i < b.len() && (b[i] == b'_' || (b[i] >= b'0' && b[i] <= b'9')) {
            if b[i] != b'_' {
                let (mut c, mut j) = ((b[i] - b'0') as u128, 0);
                while j < LIMBS {
                    let x = v.limbs[j] as u128 * 10 + c;
                    v.limbs[j] = x as u64;
                    c = x >> 64;
                    j += 1;
                }
                assert!(c == 0);
            }
            i += 1;
        }
        v
    }
    pub fn from_be_slice(s: &[u8]) -> Self {
        Self::try_from_be_slice(s).expect("value too large")
    }
    pub fn try_from_be_slice(s: &[u8]) -> Option<Self> {
        let mut v = Self::ZERO;
        for (k, x) in s.iter().rev().enumerate() {
            if k >= LIMBS * 8 { if *x != 0 { return None } } else { v.limbs[k / 8] |= (*x as u64) << (8 * (k % 8)); }
        }
        Some(v)
    }
    pub fn from_be_bytes<const N: usize>(b: [u8; N]) -> Self { assert_eq!(N, BITS / 8); Self::from_be_slice(&b) }
    pub fn from_le_bytes<const N: usize>(mut b: [u8; N]) -> Self { assert_eq!(N, BITS / 8); b.reverse(); Self::from_be_slice(&b) }
    pub fn to_be_bytes<const N: usize>(&self) -> [u8; N] {
        assert_eq!(N, BITS / 8);
        let mut b = [0u8; N];
        for k in 0..N { b[N - 1 - k] = (self.limbs[k / 8] >> (8 * (k % 8))) as u8; }
        b
    }
    pub fn to_le_bytes<const N: usize>(&self) -> [u8; N] { let mut b = self.to_be_bytes::<N>(); b.reverse(); b }
    fn bit(&self, i: usize) -> bool { self.limbs[i / 64] >> (i % 64) & 1 == 1 }
    pub fn overflowing_sub(self, o: Self) -> (Self, bool) {
        let (mut v, mut br) = (self, false);
        for i in 0..LIMBS { let (a, x) = v.limbs[i].overflowing_sub(o.limbs[i]); let (a, y) = a.overflowing_sub(br as u64); v.limbs[i] = a; br = x || y; }
        (v, br)
    }
    pub fn overflowing_add(self, o: Self) -> (Self, bool) {
        let (mut v, mut c) = (self, false);
        for i in 0..LIMBS { let (a, x) = v.limbs[i].overflowing_add(o.limbs[i]); let (a, y) = a.overflowing_add(c as u64); v.limbs[i] = a; c = x || y; }
        (v, c)
    }
    pub fn is_zero(&self) -> bool { *self == Self::ZERO }
    pub fn reduce_mod(self, m: Self) -> Self { if m.is_zero() { m } else { self % m } }
    pub fn from<T>(x: T) -> Self where Self: UintFrom<T> { Self::uint_from(x) }
}
pub trait UintFrom<T> { fn uint_from(x: T) -> Self; }
impl<const B: usize, const L: usize, const B2: usize, const L2: usize> UintFrom<Uint<B2, L2>> for Uint<B, L> {
    fn uint_from(x: Uint<B2, L2>) -> Self {
        let mut v = Self::ZERO;
        for i in 0..L2 { if i < L { v.limbs[i] = x.limbs[i]; } else { assert!(x.limbs[i] == 0, "value too large"); } }
        v
    }
}
macro_rules! prim { ($($t:ty)*) => { $(impl<const B: usize, const L: usize> UintFrom<$t> for Uint<B, L> { fn uint_from(x: $t) -> Self { let mut v = Self::ZERO; v.limbs[0] = x as u64; v } })* } }
prim!(u8 u16 u32 u64 usize i32);
impl<const B: usize, const L: usize> Default for Uint<B, L> { fn default() -> Self { Self::ZERO } }
impl<const B: usize, const L: usize> PartialOrd for Uint<B, L> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl<const B: usize, const L: usize> Ord for Uint<B, L> { fn cmp(&self, o: &Self) -> Ordering { self.limbs.iter().rev().cmp(o.limbs.iter().rev()) } }
impl<const B: usize, const L: usize> Rem for Uint<B, L> {
    type Output = Self;
    fn rem(self, m: Self) -> Self {
        assert!(!m.is_zero(), "division by zero");
        let mut r = Self::ZERO;
        for i in (0..B).rev() {
            let top = r.bit(B - 1);
            for j in (0..L).rev() { r.limbs[j] = r.limbs[j] << 1 | if j > 0 { r.limbs[j - 1] >> 63 } else { self.bit(i) as u64 }; }
            if top || r >= m { r = r.overflowing_sub(m).0; }
        }
        r
    }
}
impl<const B: usize, const L: usize> Add for Uint<B, L> { type Output = Self; fn add(self, o: Self) -> Self { self.overflowing_add(o).0 } }
impl<const B: usize, const L: usize> Sub for Uint<B, L> { type Output = Self; fn sub(self, o: Self) -> Self { self.overflowing_sub(o).0 } }
impl<const B: usize, const L: usize> Shr<usize> for Uint<B, L> {
    type Output = Self;
    fn shr(self, k: usize) -> Self { let mut v = Self::ZERO; for i in k..B { if self.bit(i) { v.limbs[(i - k) / 64] |= 1 << ((i - k) % 64); } } v }
}
impl<const B: usize, const L: usize> fmt::Debug for Uint<B, L> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "0x")?; for l in self.limbs.iter().rev() { write!(f, "{l:016x}")?; } Ok(()) } }
#[macro_export]
macro_rules! uint { ($t:tt) => { $crate::aliases::U256::parse(stringify!($t)) }; }
