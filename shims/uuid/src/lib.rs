//! Stand-in for `uuid`: random identifiers as text.
use rand_core::{OsRng, RngCore};
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Uuid([u8; 16]);
impl Uuid {
    pub fn new_v4() -> Self { let mut b = [0; 16]; OsRng.fill_bytes(&mut b); b[6] = b[6] & 15 | 0x40; b[8] = b[8] & 63 | 0x80; Uuid(b) }
    pub fn nil() -> Self { Uuid([0; 16]) }
}
impl std::fmt::Display for Uuid { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { for (i, x) in self.0.iter().enumerate() { if [4, 6, 8, 10].contains(&i) { write!(f, "-")?; } write!(f, "{x:02x}")?; } Ok(()) } }
impl serde::Serialize for Uuid { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_str(self) } }
impl<'d> serde::Deserialize<'d> for Uuid {
    fn deserialize<D: serde::Deserializer<'d>>(d: D) -> Result<Self, D::Error> {
        use serde::de::Error;
        let s: String = serde::Deserialize::deserialize(d)?;
        let h: String = s.chars().filter(|c| *c != '-').collect();
        let mut b = [0; 16];
        if h.len() != 32 || !h.is_ascii() { return Err(D::Error::custom("not a uuid")) }
        for i in 0..16 { b[i] = u8::from_str_radix(&h[2 * i..2 * i + 2], 16).map_err(D::Error::custom)?; }
        Ok(Uuid(b))
    }
}
