//! Stand-in for bs58 (Bitcoin alphabet).
const A: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
pub struct Enc(Vec<u8>);
pub fn encode<I: AsRef<[u8]>>(i: I) -> Enc { Enc(i.as_ref().to_vec()) }
impl Enc {
    pub fn into_string(self) -> String {
        let mut d: Vec<u8> = vec![];
        for b in &self.0 { let mut c = *b as u32; for x in d.iter_mut() { c += (*x as u32) << 8; *x = (c % 58) as u8; c /= 58 } while c > 0 { d.push((c % 58) as u8); c /= 58 } }
        let z = self.0.iter().take_while(|b| **b == 0).count();
        let mut s = "1".repeat(z);
        s.extend(d.iter().rev().map(|x| A[*x as usize] as char));
        s
    }
}
pub struct Dec(Vec<u8>);
pub fn decode<I: AsRef<[u8]>>(i: I) -> Dec { Dec(i.as_ref().to_vec()) }
impl Dec {
    pub fn into_vec(self) -> Result<Vec<u8>, decode::Error> {
        let mut d: Vec<u8> = vec![];
        for (i, ch) in self.0.iter().enumerate() {
            let mut c = A.iter().position(|a| a == ch).ok_or(decode::Error::InvalidCharacter { character: *ch as char, index: i })? as u32;
            for x in d.iter_mut() { c += *x as u32 * 58; *x = c as u8; c >>= 8 }
            while c > 0 { d.push(c as u8); c >>= 8 }
        }
        let z = self.0.iter().take_while(|b| **b == b'1').count();
        let mut v = vec![0; z];
        v.extend(d.iter().rev());
        Ok(v)
    }
}
pub mod decode {
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub enum Error { InvalidCharacter { character: char, index: usize } }
    impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) } }
    impl std::error::Error for Error {}
}
