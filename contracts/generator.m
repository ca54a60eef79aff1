@@module generator file=spec-gen/src/generator.rs
@@prelude
#[verifier::external_body]
pub struct Container { _p: u8 }
#[verifier::external_body]
pub struct Fn { _p: u8 }
#[verifier::external_body]
pub struct Constant { _p: u8 }
#[verifier::external_body]
pub struct TypeDef { _p: u8 }
#[verifier::external_body]
pub struct TraitDef { _p: u8 }
/// the derived order of `Fork` is the order of its discriminants
pub proof fn lemma_chronological()
    ensures Fork::Phase0 as int == 0, Fork::Altair as int == 1, Fork::Bellatrix as int == 2, Fork::Capella as int == 3, Fork::Deneb as int == 4, Fork::Electra as int == 5
{}
@@subst
for (\w+) in other \. (\w+) => for \1 in it : other . \2
^struct (\w+) => pub struct \1
@@enum Fork
@@struct Module
@@fn Module::merge
ensures
    final(self).containers@ == old(self).containers@ + other.containers@,
    final(self).fns@ == old(self).fns@ + other.fns@,
    final(self).constants@ == old(self).constants@ + other.constants@,
    final(self).type_defs@ == old(self).type_defs@ + other.type_defs@,
    final(self).trait_defs@ == old(self).trait_defs@ + other.trait_defs@,
@ start
let ghost o = *self;
@ loop 0
invariant self.containers@ == o.containers@ + other.containers@.take(it.index@), it.seq() == other.containers@, self.fns@ == o.fns@, self.constants@ == o.constants@, self.type_defs@ == o.type_defs@, self.trait_defs@ == o.trait_defs@,
@ loop 1
invariant self.containers@ == o.containers@ + other.containers@, self.fns@ == o.fns@ + other.fns@.take(it.index@), it.seq() == other.fns@, self.constants@ == o.constants@, self.type_defs@ == o.type_defs@, self.trait_defs@ == o.trait_defs@,
@ loop 2
invariant self.containers@ == o.containers@ + other.containers@, self.fns@ == o.fns@ + other.fns@, self.constants@ == o.constants@ + other.constants@.take(it.index@), it.seq() == other.constants@, self.type_defs@ == o.type_defs@, self.trait_defs@ == o.trait_defs@,
@ loop 3
invariant self.containers@ == o.containers@ + other.containers@, self.fns@ == o.fns@ + other.fns@, self.constants@ == o.constants@ + other.constants@, self.type_defs@ == o.type_defs@ + other.type_defs@.take(it.index@), it.seq() == other.type_defs@, self.trait_defs@ == o.trait_defs@,
@ loop 4
invariant self.containers@ == o.containers@ + other.containers@, self.fns@ == o.fns@ + other.fns@, self.constants@ == o.constants@ + other.constants@, self.type_defs@ == o.type_defs@ + other.type_defs@, self.trait_defs@ == o.trait_defs@ + other.trait_defs@.take(it.index@), it.seq() == other.trait_defs@,
