# The keystores of the `validator` command: EIP-2335, version 4 (C29).
@@module keystores file=ethereum-consensus/src/bin/ec/validator/keystores.rs,ethereum-consensus/src/bin/ec/validator/keys.rs
@@prelude
// ---- the primitives: functions of their inputs (assumed) ----
pub uninterp spec fn sha(b: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn nfkd(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub uninterp spec fn scrypt(pass: Seq<u8>, salt: Seq<u8>, log_n: nat, r: nat, p: nat, len: nat) -> Seq<u8>;
// AES-128 of one block, the block and its image as numbers of 128 bits
pub uninterp spec fn aes128(key: Seq<u8>, block: nat) -> Seq<u8>;
pub uninterp spec fn hex_of(b: Seq<u8>) -> Seq<char>;
// bytes the system's random source has just produced
pub uninterp spec fn fresh(b: Seq<u8>) -> bool;
pub open spec fn be_nat(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { be_nat(s.drop_last()) * 256 + s.last() as nat } }
pub open spec fn two128() -> nat { two64() * two64() }
pub open spec fn two64() -> nat { 0x1_0000_0000_0000_0000 }
// ---- EIP-2335 ----
// the control codes C0, C1 and Delete
pub open spec fn control(c: char) -> bool { c as u32 <= 0x1f || 0x7f <= c as u32 <= 0x9f }
pub open spec fn kept(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { s } else if control(s.last()) { kept(s.drop_last()) } else { kept(s.drop_last()).push(s.last()) } }
pub open spec fn password(pass: Seq<char>) -> Seq<u8> { utf8(kept(nfkd(pass))) }
// counter mode: block k of the key stream is the cipher of the initial counter plus k
pub open spec fn ctr_stream(key: Seq<u8>, iv: nat, i: int) -> u8 { aes128(key, ((iv + i / 16) % two128() as int) as nat)[i % 16] }
// the variant that counts in the last eight bytes only
pub open spec fn ctr64_stream(key: Seq<u8>, iv: nat, i: int) -> u8 { aes128(key, (iv - iv % two64() + (iv % two64() + i / 16) % two64() as int) as nat)[i % 16] }
pub open spec fn aes128_ctr(key: Seq<u8>, iv: Seq<u8>, m: Seq<u8>) -> Seq<u8> { Seq::new(m.len(), |i: int| m[i] ^ ctr_stream(key, be_nat(iv), i)) }
pub open spec fn pow2(n: nat) -> nat decreases n { if n == 0 { 1 } else { 2 * pow2((n - 1) as nat) } }
// the decryption key a reader of the keystore derives
pub open spec fn is_dk(k: KdfParams, pass: Seq<char>, dk: Seq<u8>) -> bool {
    exists|log_n: nat| k.n == #[trigger] pow2(log_n) && dk == scrypt(password(pass), k.salt@, log_n, k.r as nat, k.p as nat, k.dklen as nat) && dk.len() == 32 && k.dklen == 32
}
pub open spec fn kdf_ok(k: Kdf, pass: Seq<char>) -> bool { k.function@ == "scrypt"@ && is_dk(k.params, pass, k.message@) }
pub open spec fn cipher_ok(c: Cipher, dk: Seq<u8>, secret: Seq<u8>) -> bool {
    c.function@ == "aes-128-ctr"@ && c.params.iv@.len() == 16 && fresh(c.params.iv@) && c.message@ == aes128_ctr(dk.subrange(0, 16), c.params.iv@, secret)
}
pub open spec fn checksum_ok(c: Checksum, dk: Seq<u8>, text: Seq<u8>) -> bool { c.function@ == "sha256"@ && c.message@ == sha(dk.subrange(16, 32) + text) }
pub open spec fn crypto_ok(c: Crypto, pass: Seq<char>, secret: Seq<u8>) -> bool {
    kdf_ok(c.kdf, pass) && fresh(c.kdf.params.salt@) && cipher_ok(c.cipher, c.kdf.message@, secret) && checksum_ok(c.checksum, c.kdf.message@, c.cipher.message@)
}
pub open spec fn keystore_ok(k: Keystore, pass: Seq<char>, key: KeyPair) -> bool {
    crypto_ok(k.crypto, pass, key.private_key@) && k.public_key == key.public_key && k.path@ == key.path@ && k.version == 4 && k.uuid.v4()
}
// the passphrase handed out with it: 32 fresh bytes in hexadecimal
pub open spec fn entry_ok(k: KeystoreWithPassphrase, key: KeyPair) -> bool {
    keystore_ok(k.keystore, k.passphrase@, key) && exists|b: Seq<u8>| b.len() == 32 && fresh(b) && k.passphrase@ == #[trigger] hex_of(b)
}
// what a standard reader does: check the sum, then decrypt
pub open spec fn sum_of(dk: Seq<u8>, text: Seq<u8>) -> Seq<u8> { sha(dk.subrange(16, 32) + text) }
pub proof fn lemma_decrypts(k: Keystore, pass: Seq<char>, key: KeyPair)
    requires keystore_ok(k, pass, key)
    ensures exists|dk: Seq<u8>| #[trigger] is_dk(k.crypto.kdf.params, pass, dk) && sum_of(dk, k.crypto.cipher.message@) == k.crypto.checksum.message@
        && aes128_ctr(dk.subrange(0, 16), k.crypto.cipher.params.iv@, k.crypto.cipher.message@) =~= key.private_key@
{
    let dk = k.crypto.kdf.message@;
    assert(is_dk(k.crypto.kdf.params, pass, dk));
    let iv = k.crypto.cipher.params.iv@; let s = key.private_key@;
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] aes128_ctr(dk.subrange(0, 16), iv, aes128_ctr(dk.subrange(0, 16), iv, s))[i] == s[i] by {
        let a = s[i]; let b = ctr_stream(dk.subrange(0, 16), be_nat(iv), i);
        assert((a ^ b) ^ b == a) by (bit_vector);
    }
}
pub proof fn lemma_kept_push(s: Seq<char>, c: char) ensures kept(s.push(c)) == (if control(c) { kept(s) } else { kept(s).push(c) }) { assert(s.push(c).drop_last() =~= s); }
// ---- models of the libraries ----
#[verifier::external_body] pub struct V_String { _p: u8 }
impl View for V_String { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl V_String {
    #[verifier::external_body] pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == utf8(self@) { unimplemented!() }
    #[verifier::external_body] pub fn v_push(&mut self, c: char) ensures final(self)@ == old(self)@.push(c) { unimplemented!() }
}
#[verifier::external_body] pub fn v_new() -> (r: V_String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body] pub fn v_nfkd(s: &V_String) -> (r: V_String) ensures r@ == nfkd(s@) { unimplemented!() }
#[verifier::external_body] pub fn v_string(s: &str) -> (r: V_String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn v_chars(s: &V_String) -> (r: Vec<char>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn v_is_control(c: char) -> (r: bool) ensures r == control(c) { unimplemented!() }
#[verifier::external_body] pub fn v_vec(b: &[u8]) -> (r: Vec<u8>) ensures r@ == b@ { unimplemented!() }
#[verifier::external_body] pub fn v_mut(b: &mut Vec<u8>) -> (r: &mut [u8]) ensures r@ == old(b)@, final(b)@ == final(r)@ { unimplemented!() }
#[verifier::external_body] pub fn v_zeros(n: usize) -> (r: Vec<u8>) ensures r@.len() == n { unimplemented!() }
#[verifier::external_body] pub fn v_from(b: &Vec<u8>, k: usize) -> (r: &[u8]) requires k <= b@.len() ensures r@ == b@.subrange(k as int, b@.len() as int) { unimplemented!() }
#[verifier::external_body] pub fn v_upto(b: &Vec<u8>, k: usize) -> (r: &[u8]) requires k <= b@.len() ensures r@ == b@.subrange(0, k as int) { unimplemented!() }
#[verifier::external_body] pub fn v_arr_slice<const N: usize>(b: &[u8; N]) -> (r: &[u8]) ensures r@ == b@ { unimplemented!() }
#[verifier::external_body] pub fn v_pow2(n: u32) -> (r: usize) requires n < 63 ensures r == pow2(n as nat) { unimplemented!() }
#[verifier::external_body] pub struct Bytes32 { _p: u8 }
impl View for Bytes32 { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Bytes32 { #[verifier::external_body] pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body] pub fn hash(b: Vec<u8>) -> (r: Bytes32) ensures r@ == sha(b@) { unimplemented!() }
#[verifier::external_body] pub fn v_hex(b: [u8; 32]) -> (r: V_String) ensures r@ == hex_of(b@) { unimplemented!() }
pub struct VOsRng;
impl VOsRng { #[verifier::external_body] pub fn fill_bytes<const N: usize>(&self, b: &mut [u8; N]) ensures fresh(final(b)@) { unimplemented!() } }
#[derive(Debug)] pub struct PasswordError;
#[derive(Debug)] pub struct InvalidLength;
// a salt: its text in base 64, seen as the bytes it stands for
#[verifier::external_body] pub struct SaltString { _p: u8 }
impl View for SaltString { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl SaltString {
    pub uninterp spec fn text_len(&self) -> nat;
    #[verifier::external_body] pub fn generate(g: VOsRng) -> (r: SaltString) ensures fresh(r@), r@.len() == 16 { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.text_len(), r >= self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn decode_b64<'a>(&self, b: &'a mut [u8]) -> (r: core::result::Result<&'a [u8], PasswordError>) ensures old(b)@.len() >= self@.len() ==> r is Ok, r matches Ok(s) ==> s@ == self@ { unimplemented!() }
}
#[verifier::external_body] #[derive(Clone, Copy)] pub struct ScryptParams { _p: u8 }
impl ScryptParams {
    pub uninterp spec fn ln(&self) -> nat;
    pub uninterp spec fn sr(&self) -> nat;
    pub uninterp spec fn sp(&self) -> nat;
    pub uninterp spec fn sl(&self) -> nat;
    #[verifier::external_body] pub fn recommended() -> (r: ScryptParams) ensures r.ln() == 17, r.sr() == 8, r.sp() == 1, r.sl() == 32 { unimplemented!() }
    #[verifier::external_body] pub fn log_n(&self) -> (r: u8) ensures r == self.ln() { unimplemented!() }
    #[verifier::external_body] pub fn r(&self) -> (r: u32) ensures r == self.sr() { unimplemented!() }
    #[verifier::external_body] pub fn p(&self) -> (r: u32) ensures r == self.sp() { unimplemented!() }
}
pub struct Scrypt;
#[verifier::external_body] pub struct PasswordHash { _p: u8 }
impl View for PasswordHash { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
#[verifier::external_body] pub fn v_hash_bytes(h: &PasswordHash) -> (r: Vec<u8>) ensures r@ == h@ { unimplemented!() }
impl Scrypt {
    #[verifier::external_body] pub fn hash_password_customized(&self, password: &[u8], alg: Option<u8>, version: Option<u8>, params: ScryptParams, salt: &SaltString) -> (r: core::result::Result<PasswordHash, PasswordError>)
        ensures r is Ok <==> alg is None && version is None && salt@.len() <= 48, r matches Ok(h) ==> h@ == scrypt(password@, salt@, params.ln(), params.sr(), params.sp(), params.sl()) && h@.len() == params.sl() { unimplemented!() }
}
#[verifier::external_body] pub struct Ctr128BE { _p: u8 }
#[verifier::external_body] pub struct Ctr64BE { _p: u8 }
impl Ctr128BE {
    pub uninterp spec fn key(&self) -> Seq<u8>;
    pub uninterp spec fn iv(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn new_from_slices(key: &[u8], iv: &[u8]) -> (r: core::result::Result<Ctr128BE, InvalidLength>) ensures r is Ok <==> key@.len() == 16 && iv@.len() == 16, r matches Ok(c) ==> c.key() == key@ && c.iv() == iv@ { unimplemented!() }
    #[verifier::external_body] pub fn apply_keystream(&mut self, m: &mut [u8]) ensures final(m)@ == Seq::new(old(m)@.len(), |i: int| old(m)@[i] ^ ctr_stream(old(self).key(), be_nat(old(self).iv()), i)) { unimplemented!() }
}
impl Ctr64BE {
    pub uninterp spec fn key(&self) -> Seq<u8>;
    pub uninterp spec fn iv(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn new_from_slices(key: &[u8], iv: &[u8]) -> (r: core::result::Result<Ctr64BE, InvalidLength>) ensures r is Ok <==> key@.len() == 16 && iv@.len() == 16, r matches Ok(c) ==> c.key() == key@ && c.iv() == iv@ { unimplemented!() }
    #[verifier::external_body] pub fn apply_keystream(&mut self, m: &mut [u8]) ensures final(m)@ == Seq::new(old(m)@.len(), |i: int| old(m)@[i] ^ ctr64_stream(old(self).key(), be_nat(old(self).iv()), i)) { unimplemented!() }
}
#[verifier::external_body] pub struct Uuid { _p: u8 }
impl Uuid { pub uninterp spec fn v4(&self) -> bool; #[verifier::external_body] pub fn new_v4() -> (r: Uuid) ensures r.v4() { unimplemented!() } }
#[verifier::external_body] pub struct BlsPublicKey { _p: u8 }
#[verifier::external_body] pub struct BlsSecretKey { _p: u8 }
impl View for BlsSecretKey { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl BlsSecretKey { #[verifier::external_body] pub fn to_bytes(self) -> (r: [u8; 32]) ensures r@ == self@ { unimplemented!() } }
@@subst
_FN : & str => _FN : &'static str
^struct (\w+) => pub struct \1
\bString\b => V_String
\bOsRng\b => VOsRng
pub type Path = V_String ; => pub type Path = V_String ;
ctr :: Ctr(\d+)BE < aes :: Aes128 > => Ctr\1BE
= passphrase \. nfkd \( \) \. collect :: < V_String > \( \) => = v_nfkd ( passphrase )
passphrase \. retain \( \| c \| (.*?) \) ; => let __c = v_chars ( & passphrase ) ; passphrase = v_new ( ) ; let mut __i : usize = 0 ; while __i < __c . len ( ) { __loop ! ( 1 ) ; let c = __c [ __i ] ; if \1 { passphrase . v_push ( c ) ; } __i = __i + 1 ; }
\bc \. is_control \( \) => v_is_control ( c )
vec ! \[ 0u8 ; salt \. len \( \) \] => v_zeros ( salt . len ( ) )
decode_b64 \( & mut buf \) \. unwrap \( \) \. to_vec \( \) => decode_b64_vec ( & mut buf )
salt \. decode_b64_vec \( & mut buf \) => v_vec ( salt . decode_b64 ( v_mut ( & mut buf ) ) . unwrap ( ) )
2_usize \. pow \( => v_pow2 (
password_hash \. hash \. unwrap \( \) \. as_bytes \( \) \. to_vec \( \) => v_hash_bytes ( & password_hash )
(\w+_FN) \. to_string \( \) => v_string ( \1 )
& self \. message \[ \.\. (\d+) \] => v_upto ( & self . message , \1 )
& self \. message \[ (\d+) \.\. \] => v_from ( & self . message , \1 )
new_from_slices \( key , & iv \) => new_from_slices ( key , v_arr_slice ( & iv ) )
secret \. to_bytes \( \) \. to_vec \( \) => v_vec ( v_arr_slice ( & secret . to_bytes ( ) ) )
apply_keystream \( & mut message \) => apply_keystream ( v_mut ( & mut message ) )
iv \. to_vec \( \) => v_vec ( v_arr_slice ( & iv ) )
salt \. to_vec \( \) => v_vec ( salt )
hash \( pre_image \) \. as_ref \( \) \. to_vec \( \) => v_vec ( hash ( pre_image ) . as_ref ( ) )
hex :: encode => v_hex
KeyPair \{ private_key , public_key , path \} : KeyPair => __kp : KeyPair
keys \. into_par_iter \( \) \. map \( \| key_pair \| \{ (.*) \} \) \. collect \( \) => { let mut __k = keys ; let mut __out : Vec < KeystoreWithPassphrase > = Vec :: new ( ) ; while __k . len ( ) > 0 { __loop ! ( 2 ) ; let key_pair = __k . remove ( 0 ) ; __out . push ( { \1 } ) ; } __out }
@@const PASSPHRASE_LEN VERSION KDF_FN SCRYPT_DKLEN CIPHER_FN AES_SIZE CHECKSUM_FN
@@type Passphrase CtrCipher Path
@@struct KeyPair KdfParams Kdf CipherParams Cipher Empty Checksum Crypto Keystore KeystoreWithPassphrase
@@impl Kdf impl Kdf
@@impl Cipher impl Cipher
@@impl Checksum impl Checksum
@@impl Crypto impl Crypto
@@impl Keystore impl Keystore
@@fn Kdf::new_with_salt_and_params
requires params.sl() == 32, params.ln() < 63, salt@.len() <= 48,
ensures kdf_ok(r, passphrase@), r.params.salt@ == salt@, r.message@.len() == 32, r.params.n == pow2(params.ln()), r.params.r == params.sr(), r.params.p == params.sp(),
@ start
let ghost pass0 = passphrase@;
@ loop 1
invariant __i <= __c@.len(), __c@ == nfkd(pass0), passphrase@ == kept(__c@.subrange(0, __i as int)),
decreases __c@.len() - __i,
@ loopstart 1
proof { lemma_kept_push(__c@.subrange(0, __i as int), __c@[__i as int]); assert(__c@.subrange(0, __i + 1) =~= __c@.subrange(0, __i as int).push(__c@[__i as int])); }
@ before let mut buf
proof { assert(__c@.subrange(0, __c@.len() as int) =~= __c@); }
@@fn Kdf::from
ensures kdf_ok(r, passphrase@), r.message@.len() == 32, fresh(r.params.salt@), r.params.n == pow2(17), r.params.r == 8, r.params.p == 1,
@@fn Kdf::encryption_key
requires self.message@.len() == 32,
ensures r@ == self.message@.subrange(0, 16),
@@fn Kdf::checksum_salt
requires self.message@.len() == 32,
ensures r@ == self.message@.subrange(16, 32),
@@fn Cipher::new_with_iv
requires key@.len() == 16,
ensures r.function@ == "aes-128-ctr"@, r.params.iv@ == iv@, r.message@ =~= aes128_ctr(key@, iv@, secret@),
@@fn Cipher::new
requires key@.len() == 16,
ensures r.function@ == "aes-128-ctr"@, r.params.iv@.len() == 16, fresh(r.params.iv@), r.message@ == aes128_ctr(key@, r.params.iv@, secret@),
@@fn Cipher::cipher_text
ensures r@ == self.message@,
@@fn Checksum::new
ensures r.function@ == "sha256"@, r.message@ == sha(salt@ + secret@),
@ before let message
proof { assert(pre_image@ =~= salt@ + secret@); }
@@fn Crypto::from
ensures crypto_ok(r, passphrase@, key@),
@@fn Keystore::new_with_generated_passphrase
ensures entry_ok(KeystoreWithPassphrase { keystore: r.0, passphrase: r.1 }, key_pair),
@@fn Keystore::new
ensures keystore_ok(r, passphrase@, __kp),
@ start
let KeyPair { private_key, public_key, path } = __kp;
@@fn generate
ensures r@.len() == keys@.len(), forall|i: int| 0 <= i < keys@.len() ==> entry_ok(#[trigger] r@[i], keys@[i]),
@ loop 2
invariant __k@.len() + __out@.len() == keys@.len(), __k@ =~= keys@.subrange(__out@.len() as int, keys@.len() as int), forall|i: int| 0 <= i < __out@.len() ==> entry_ok(#[trigger] __out@[i], keys@[i]),
decreases __k@.len(),
