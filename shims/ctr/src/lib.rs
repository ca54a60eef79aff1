//! Stand-in for `ctr` (not in the offline cache): counter mode; the counter is the last 4, 8 or 16 bytes of the block.
use aes::cipher::{InvalidLength, KeyIvInit, StreamCipher};
use std::marker::PhantomData;
macro_rules! ctr { ($($name:ident $bits:expr),*) => { $(
    pub struct $name<C> { key: [u8; 16], iv: u128, at: u128, c: PhantomData<C> }
    impl<C> KeyIvInit for $name<C> {
        fn new_from_slices(key: &[u8], iv: &[u8]) -> Result<Self, InvalidLength> {
            Ok(Self { key: key.try_into().map_err(|_| InvalidLength)?, iv: u128::from_be_bytes(iv.try_into().map_err(|_| InvalidLength)?), at: 0, c: PhantomData })
        }
    }
    impl<C> StreamCipher for $name<C> {
        fn apply_keystream(&mut self, data: &mut [u8]) {
            for x in data {
                let mask = if $bits == 128 { u128::MAX } else { (1u128 << ($bits % 128)) - 1 };
                let b = (self.iv & !mask) | (self.iv.wrapping_add(self.at / 16) & mask);
                *x ^= aes::encrypt_block(&self.key, b.to_be_bytes())[(self.at % 16) as usize];
                self.at += 1;
            }
        }
    }
)* } }
ctr!(Ctr32BE 32, Ctr64BE 64, Ctr128BE 128);
