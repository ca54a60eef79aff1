@@module serde file=ethereum-consensus/src/serde.rs
@@prelude
pub struct FromHexError;
pub mod fmt { pub struct Error; pub type Result = core::result::Result<(), Error>; }
// ---- specification: two lowercase digits per byte ----
pub open spec fn digit(n: int) -> char { if 0 <= n < 10 { (48 + n) as char } else { (87 + n) as char } }
pub open spec fn hex_of(b: Seq<u8>) -> Seq<char>
    decreases b.len()
{
    if b.len() == 0 { Seq::empty() } else { hex_of(b.drop_last()) + seq![digit(b.last() as int / 16), digit(b.last() as int % 16)] }
}
pub open spec fn digit_val(c: char) -> int {
    if 48 <= c as int <= 57 { c as int - 48 } else if 97 <= c as int <= 102 { c as int - 87 } else if 65 <= c as int <= 70 { c as int - 55 } else { -1 }
}
// bytes of a digit string, None if it is malformed
pub open spec fn hex_parse(s: Seq<char>) -> Option<Seq<u8>>
    decreases s.len()
{
    if s.len() == 0 { Some(Seq::empty()) }
    else if s.len() == 1 { None }
    else {
        let a = digit_val(s[s.len() - 2]);
        let b = digit_val(s[s.len() - 1]);
        match hex_parse(s.subrange(0, s.len() - 2)) {
            Some(v) => if a >= 0 && b >= 0 { Some(v.push((a * 16 + b) as u8)) } else { None },
            None => None,
        }
    }
}
// decoding what was encoded gives the bytes back
pub proof fn lemma_round_trip(b: Seq<u8>)
    ensures hex_parse(hex_of(b)) == Some(b), hex_of(b).len() == 2 * b.len()
    decreases b.len()
{
    if b.len() > 0 {
        lemma_round_trip(b.drop_last());
        let h = hex_of(b);
        assert(h.subrange(0, h.len() - 2) =~= hex_of(b.drop_last()));
        assert(b.drop_last().push(b.last()) =~= b);
    }
}
pub proof fn lemma_push(b: Seq<u8>, x: u8)
    ensures hex_of(b.push(x)) == hex_of(b) + seq![digit(x as int / 16), digit(x as int % 16)]
{
    assert(b.push(x).drop_last() =~= b);
}
pub open spec fn prefix() -> Seq<char> { seq!['0', 'x'] }
pub open spec fn strip(s: Seq<char>) -> Seq<char> { if s.len() >= 2 && s[0] == '0' && s[1] == 'x' { s.subrange(2, s.len() as int) } else { s } }
// ---- the library functions called (assumed contracts) ----
#[verifier::external_body]
pub struct Formatter { _p: u8 }
pub uninterp spec fn out_of(f: Formatter) -> Seq<char>;
#[verifier::external_body]
pub fn v_write_lit(f: &mut Formatter, s: &str) -> (r: fmt::Result) ensures r is Ok ==> out_of(*final(f)) == out_of(*old(f)) + s@ { unimplemented!() }
// "{:02x}" of a byte
#[verifier::external_body]
pub fn v_write_02x(f: &mut Formatter, b: u8) -> (r: fmt::Result) ensures r is Ok ==> out_of(*final(f)) == out_of(*old(f)) + seq![digit(b as int / 16), digit(b as int % 16)] { unimplemented!() }
pub trait VBytes {
    spec fn bytes(&self) -> Seq<u8>;
    fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.bytes();
}
pub trait VIterBytes {
    spec fn bytes(&self) -> Seq<u8>;
    fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.bytes();
    fn len(&self) -> (r: usize) ensures r == self.bytes().len();
}
impl VBytes for &[u8] {
    open spec fn bytes(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &[u8]) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_sub(s: &[u8], a: core::ops::Range<usize>) -> (r: &[u8]) requires a.start <= a.end <= s.len() ensures r@ == s@.subrange(a.start as int, a.end as int) { unimplemented!() }
#[verifier::external_body]
pub fn v_strip_prefix<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>)
    ensures r is Some <==> (s@.len() >= p@.len() && s@.subrange(0, p@.len() as int) =~= p@), r matches Some(t) ==> t@ == s@.subrange(p@.len() as int, s@.len() as int) { unimplemented!() }
pub mod hex {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub fn decode(s: &str) -> (r: core::result::Result<Vec<u8>, FromHexError>)
        ensures r is Ok <==> hex_parse(s@) is Some, r matches Ok(v) ==> hex_parse(s@) == Some(v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn encode(s: &[u8]) -> (r: String) ensures r@ == hex_of(s@) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_concat(a: &str, b: &str) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
pub trait VSer: Sized {
    type Ok;
    type Error;
    spec fn str_out(&self, s: Seq<char>) -> core::result::Result<Self::Ok, Self::Error>;
    fn collect_str(self, s: &str) -> (r: core::result::Result<Self::Ok, Self::Error>) ensures r == self.str_out(s@);
}
pub trait VShow {
    spec fn text(&self) -> Seq<char>;
    fn to_string(&self) -> (r: String) ensures r@ == self.text();
}
pub trait VCustom: Sized { fn custom() -> Self; }
// a deserializer holds one string, or something else
pub trait VDe: Sized {
    type Error: VCustom;
    spec fn text(&self) -> Option<Seq<char>>;
    fn de_string(self) -> (r: core::result::Result<String, Self::Error>) ensures r is Ok <==> self.text() is Some, r matches Ok(s) ==> self.text() == Some(s@);
}
pub trait VFromBytes: Sized {
    spec fn of_bytes(b: Seq<u8>) -> Option<Self>;
    fn try_from(b: &Vec<u8>) -> (r: core::result::Result<Self, ()>) ensures r is Ok <==> Self::of_bytes(b@) is Some, r matches Ok(x) ==> Self::of_bytes(b@) == Some(x);
}
pub trait VFromVec<U>: Sized {
    spec fn of_vec(b: Seq<U>) -> Option<Self>;
    fn try_from(b: Vec<U>) -> (r: core::result::Result<Self, ()>) ensures r is Ok <==> Self::of_vec(b@) is Some, r matches Ok(x) ==> Self::of_vec(b@) == Some(x);
}
pub trait VFromStr: Sized {
    spec fn of_str(s: Seq<char>) -> Option<Self>;
    fn from_str(s: &str) -> (r: core::result::Result<Self, ()>) ensures r is Ok <==> Self::of_str(s@) is Some, r matches Ok(x) ==> Self::of_str(s@) == Some(x);
}
// a sequence being read: the remaining elements; None where one is malformed
pub trait VSeqAccess: Sized {
    type Error: VCustom;
    spec fn rest(&self) -> Seq<Seq<char>>;
    spec fn good(&self) -> bool;
    fn size_hint(&self) -> Option<usize>;
    fn next_element(&mut self) -> (r: core::result::Result<Option<&'static str>, Self::Error>)
        ensures final(self).good() == old(self).good(), old(self).good() ==> r is Ok,
            r matches Ok(None) ==> old(self).good() && old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
            r matches Ok(Some(e)) ==> old(self).rest().len() > 0 && e@ == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first();
}
// a sequence being written
pub trait VSerSeq: Sized {
    type Ok;
    type Error;
    spec fn done(&self) -> Seq<Seq<char>>;
    spec fn finished(s: Seq<Seq<char>>) -> core::result::Result<Self::Ok, Self::Error>;
    fn serialize_element(&mut self, e: &String) -> (r: core::result::Result<(), Self::Error>) ensures r is Ok ==> final(self).done() == old(self).done().push(e@);
    fn end(self) -> (r: core::result::Result<Self::Ok, Self::Error>) ensures r == Self::finished(self.done());
}
pub trait VSerS: Sized {
    type Ok;
    type Error;
    type Seq: VSerSeq<Ok = Self::Ok, Error = Self::Error>;
    fn serialize_seq(self, n: Option<usize>) -> (r: core::result::Result<Self::Seq, Self::Error>) ensures r matches Ok(s) ==> s.done() == Seq::<Seq<char>>::empty();
}
pub trait VSlice<U> {
    spec fn els(&self) -> Seq<U>;
    fn as_ref(&self) -> (r: &[U]) ensures r@ == self.els();
}
#[verifier::external_body]
pub fn v_show<U: VShow>(u: &U) -> (r: String) ensures r@ == u.text() { unimplemented!() }
pub struct Visitor<T> { pub p: core::marker::PhantomData<T> }
@@subst
serde :: Serializer , T : AsRef < \[ U \] > => VSerS , T : VSlice < U >
String :: deserialize \( deserializer \) => deserializer . de_string ( )
serde :: Deserializer < 'de > => VDe
for < 'a > TryFrom < & 'a \[ u8 \] , Error = E > \+ fmt :: Debug => VFromBytes
, E : Display , => ,
: FromStr < Err = E > => : VFromStr
: FromStr\b => : VFromStr
\. map_err \( serde :: de :: Error :: custom \) => . map_err ( | e | -> ( r : D :: Error ) { D :: Error :: custom ( ) } )
try_bytes_from_hex_str \( & str \) => try_bytes_from_hex_str ( str . as_str ( ) )
T :: from_str \( & s \) => T :: from_str ( s . as_str ( ) )
\. map_err \( \| _ \| \{ Error :: custom \( "[^"]*" \) \} \) => . map_err ( | e | -> ( r : S :: Error ) { S :: Error :: custom ( ) } )
Result < Self :: Value , S :: Error > => core :: result :: Result < Vec < T > , S :: Error >
serde :: de :: SeqAccess < 'de > => VSeqAccess
Vec :: with_capacity \( .*? \) \) => Vec :: new ( )
Result < T , D :: Error > => core :: result :: Result < T , D :: Error >
'de ,(?: |$) => 
serialize_seq \( None \) => serialize_seq ( None )
& mut mut  => & mut
format ! \( "\{(\w+)\}" \) => v_show ( \1 )
U : fmt :: Display => U : VShow
\. as_ref \( \) \. iter \( \) => . as_ref ( )
: & str = => : & 'static str =
\bwrite ! \( (\w+) , ("[^"{}]*") \) => v_write_lit ( \1 , \2 )
\bwrite ! \( (\w+) , "\{(\w+):02x\}" \) => v_write_02x ( \1 , * \2 )
\bwrite ! \( (\w+) , "\{:02x\}" , (\w+) \) => v_write_02x ( \1 , * \2 )
\bfor (\w+) in ([^{}]*?) \{ __loop ! \( (\d+) \) ; => let __s\3 = \2 ; for __k\3 in 0 .. __s\3 . len ( ) { __loop ! ( \3 ) ; let \1 = & __s\3 [ __k\3 ] ;
& mut fmt :: Formatter < '_ > => & mut Formatter
: AsRef < \[ u8 \] > \+ ExactSizeIterator => : VIterBytes
: AsRef < \[ u8 \] > => : VBytes
& data \[ (\w+) \] => v_sub ( data , \1 )
(\w+) \. strip_prefix \( => v_strip_prefix ( \1 ,
Result < Vec < u8 > , FromHexError > => core :: result :: Result < Vec < u8 > , FromHexError >
format ! \( "\{(\w+)\}\{(\w+)\}" \) => v_concat ( \1 , & \2 )
Result < S :: Ok , S :: Error > => core :: result :: Result < S :: Ok , S :: Error >
serde :: Serializer => VSer
\bT : Display\b => T : VShow
@@const HEX_ENCODING_PREFIX
@@fn write_hex_from_bytes
ensures r is Ok ==> out_of(*final(f)) == out_of(*old(f)) + hex_of(data.bytes())
@ start
let ghost f0 = out_of(*f);
proof { assert(data.bytes().subrange(0, 0) =~= Seq::empty()); assert(f0 + hex_of(Seq::<u8>::empty()) =~= f0); }
@ loop 0
invariant out_of(*f) == f0 + hex_of(data.bytes().subrange(0, __k0 as int)), __s0@ == data.bytes(), f0 == out_of(*old(f)),
@ loopstart 0
proof { let b = data.bytes(); assert(b.subrange(0, __k0 as int + 1) =~= b.subrange(0, __k0 as int).push(b[__k0 as int])); lemma_push(b.subrange(0, __k0 as int), b[__k0 as int]);
    assert((f0 + hex_of(b.subrange(0, __k0 as int))) + seq![digit(b[__k0 as int] as int / 16), digit(b[__k0 as int] as int % 16)] =~= f0 + hex_of(b.subrange(0, __k0 as int + 1))); }
@ before Ok \( \( \) \)
proof { assert(data.bytes().subrange(0, data.bytes().len() as int) =~= data.bytes()); }
@@fn write_bytes_to_lower_hex
ensures r is Ok ==> out_of(*final(f)) == out_of(*old(f)) + prefix() + hex_of(data.bytes())
@ start
proof { reveal_strlit("0x"); assert("0x"@ =~= prefix()); }
@@fn write_bytes_to_lower_hex_display
ensures r is Ok ==> out_of(*final(f)) =~= out_of(*old(f)) + prefix() + (if data.bytes().len() < 4 { hex_of(data.bytes()) } else {
    hex_of(data.bytes().subrange(0, 2)) + seq!['…'] + hex_of(data.bytes().subrange(data.bytes().len() - 2, data.bytes().len() as int)) })
@ start
proof { reveal_strlit("0x"); assert("0x"@ =~= prefix()); reveal_strlit("…"); assert("…"@ =~= seq!['…']); assert(data.bytes().subrange(0, data.bytes().len() as int) =~= data.bytes()); }
@@fn try_bytes_from_hex_str
ensures r is Ok <==> hex_parse(strip(s@)) is Some, r matches Ok(v) ==> hex_parse(strip(s@)) == Some(v@)
@ start
proof { reveal_strlit("0x"); assert("0x"@ =~= prefix()); if s@.len() >= 2 { assert(s@.subrange(0, 2) =~= seq![s@[0], s@[1]]); if s@.subrange(0, 2) =~= prefix() { assert(s@.subrange(0, 2)[0] == '0' && s@.subrange(0, 2)[1] == 'x'); } } }
@@fn as_hex::serialize
ensures r == serializer.str_out(prefix() + hex_of(data.bytes()))
@ start
proof { reveal_strlit("0x"); assert("0x"@ =~= prefix()); }
@@fn as_str::serialize
ensures r == serializer.str_out(data.text())
@@fn as_hex::deserialize
ensures r matches Ok(x) ==> deserializer.text() is Some && hex_parse(strip(deserializer.text()->0)) is Some && T::of_bytes(hex_parse(strip(deserializer.text()->0))->0) == Some(x),
    r is Err ==> !(deserializer.text() is Some && hex_parse(strip(deserializer.text()->0)) is Some && T::of_bytes(hex_parse(strip(deserializer.text()->0))->0) is Some)
@@fn as_str::deserialize
ensures r matches Ok(x) ==> deserializer.text() is Some && T::of_str(deserializer.text()->0) == Some(x),
    r is Err ==> !(deserializer.text() is Some && T::of_str(deserializer.text()->0) is Some)
@@impl Visitor impl<T: VFromStr> Visitor<T>
@@fn seq_of_str::Visitor::Visitor::visit_seq noterm=1
ensures r matches Ok(v) ==> access.good() && v@.len() == access.rest().len() && forall|i: int| 0 <= i < v@.len() ==> T::of_str(#[trigger] access.rest()[i]) == Some(v@[i]),
    r is Err ==> !(access.good() && forall|i: int| 0 <= i < access.rest().len() ==> T::of_str(#[trigger] access.rest()[i]) is Some)
@ start
let ghost rest0 = access.rest(); let ghost good0 = access.good();
@ loop 0
invariant coll@.len() <= rest0.len(), access.rest() =~= rest0.subrange(coll@.len() as int, rest0.len() as int), access.good() == good0,
    forall|i: int| 0 <= i < coll@.len() ==> T::of_str(#[trigger] rest0[i]) == Some(coll@[i]),
@@fn seq_of_str::serialize
ensures r matches Ok(o) ==> exists|s: Seq<Seq<char>>| s.len() == data.els().len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == data.els()[i].text()) && S::Seq::finished(s) == core::result::Result::<S::Ok, S::Error>::Ok(o)
@ loop 0
invariant __s0@ == data.els(), seq.done().len() == __k0, forall|i: int| 0 <= i < seq.done().len() ==> #[trigger] seq.done()[i] == __s0@[i].text(),
@ before seq \. end \(
let ghost sd = seq.done();
proof { assert(S::Seq::finished(sd) == S::Seq::finished(seq.done())); }
