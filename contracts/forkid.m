@@module forkid file=ethereum-consensus/src/fork.rs
@@prelude
pub mod fmt { pub struct Error; pub type Result = core::result::Result<(), Error>; }
#[verifier::external_body]
pub struct Formatter { _p: u8 }
pub uninterp spec fn out_of(f: Formatter) -> Seq<char>;
#[verifier::external_body]
pub fn v_write_lit(f: &mut Formatter, s: &str) -> (r: fmt::Result) ensures r is Ok ==> out_of(*final(f)) == out_of(*old(f)) + s@ { unimplemented!() }
pub open spec fn fork_name(f: Fork) -> Seq<char> {
    match f { Fork::Phase0 => "phase0"@, Fork::Altair => "altair"@, Fork::Bellatrix => "bellatrix"@, Fork::Capella => "capella"@, Fork::Deneb => "deneb"@, Fork::Electra => "electra"@ }
}
pub proof fn lemma_names_differ(a: Fork, b: Fork)
    requires fork_name(a) =~= fork_name(b)
    ensures a == b
{
    reveal_strlit("phase0"); reveal_strlit("altair"); reveal_strlit("bellatrix"); reveal_strlit("capella"); reveal_strlit("deneb"); reveal_strlit("electra");
    assert(fork_name(a)[0] == fork_name(b)[0]);
}
@@subst
\bwrite ! \( (\w+) , ("[^"{}]*") \) => v_write_lit ( \1 , \2 )
(\w+) \. write_str \( ("[^"]*") \) => v_write_lit ( \1 , \2 )
& mut fmt :: Formatter < '_ > => & mut Formatter
\bSelf :: => Fork ::
@@enum Fork
@@fn Fork::Display::fmt
ensures r is Ok ==> out_of(*final(f)) == out_of(*old(f)) + fork_name(*self)
