//! Stand-in for integer-sqrt: floor square root.
pub trait IntegerSquareRoot {
    fn integer_sqrt(&self) -> Self;
}
macro_rules! imp { ($($t:ty),*) => { $(impl IntegerSquareRoot for $t {
    fn integer_sqrt(&self) -> Self {
        let n = *self as u128;
        let (mut lo, mut hi) = (0u128, (1u128 << 64) - 1);
        while lo < hi { let m = (lo + hi + 1) / 2; if m * m <= n { lo = m } else { hi = m - 1 } }
        lo as $t
    }
})* } }
imp!(u8, u16, u32, u64, usize);
