@@module mnemonic file=ethereum-consensus/src/bin/ec/validator/mnemonic.rs
@@prelude
// ---- BIP-39 and the system's random source (assumed contracts of the libraries) ----
pub struct Error;
#[verifier::external_body]
pub struct Mnemonic { _p: u8 }
impl View for Mnemonic { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }      // its entropy
pub uninterp spec fn phrase_entropy(p: Seq<char>) -> Option<Seq<u8>>;                      // None: wrong word, count or checksum
pub uninterp spec fn standard_seed(entropy: Seq<u8>, passphrase: Seq<char>) -> Seq<u8>;
pub open spec fn entropy_len_ok(n: int) -> bool { 16 <= n <= 32 && n % 4 == 0 }
// bytes the system's random source has just produced
pub uninterp spec fn fresh(b: Seq<u8>) -> bool;
impl Mnemonic {
    #[verifier::external_body]
    pub fn from_entropy(e: &[u8; 32]) -> (r: core::result::Result<Mnemonic, Error>) ensures r is Ok, r matches Ok(m) ==> m@ == e@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from_str(p: &str) -> (r: core::result::Result<Mnemonic, Error>) ensures r is Ok <==> phrase_entropy(p@) is Some, r matches Ok(m) ==> phrase_entropy(p@) == Some(m@) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_seed(&self, p: &str) -> (r: [u8; 64]) ensures r@ == standard_seed(self@, p@) { unimplemented!() }
}
pub struct VOsRng;
impl VOsRng {
    #[verifier::external_body]
    pub fn fill_bytes(&self, b: &mut [u8; 32]) ensures fresh(final(b)@) { unimplemented!() }
}
@@subst
\bOsRng \. => VOsRng .
Result < Mnemonic , Error > => core :: result :: Result < Mnemonic , Error >
@@const KEY_SIZE
@@type Seed
@@fn generate_random_from_system_entropy
ensures r matches Ok(m) ==> fresh(m@) && m@.len() == 32, r is Ok
@@fn recover_from_phrase
ensures r is Ok <==> phrase_entropy(phrase@) is Some, r matches Ok(m) ==> phrase_entropy(phrase@) == Some(m@)
@@fn to_seed
ensures r@ == standard_seed(mnemonic@, if passphrase is Some { passphrase->0@ } else { Seq::empty() })
@ start
proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
