//@ source patch/mod.rs
//@ strlit
//@ addbound T=Text
//@ rebound AsRef=- Write=VSink
//@ retype Formatter=VFormatter
//@ rename Display VDisplay
//@ derefs Filename::needs_to_be_escaped Filename::needs_to_be_escaped_bytes Filename::write_into Display@Filename::fmt
//@ raw
use super::*;
use super::utils::*;
use super::patch::*;
use super::syntax::*;
use super::print::*;
use super::format::*;
broadcast use super::print::chs::group_chs;
use super::parse::ParsePatchError;
use super::parse;
//@ fn Patch::to_bytes
    ensures r@ == plain_text(true, self.v()),
//@ fn Patch::from_str
    ensures (match r { Ok(p) => read_patch(str_bytes(s)) == Some(p.v()) && p.inv(), Err(_) => read_patch(str_bytes(s)) is None }), // [C05,C06,C07,C13]
//@ fn Patch::from_bytes
    ensures (match r { Ok(p) => read_patch(s@) == Some(p.v()) && p.inv(), Err(_) => read_patch(s@) is None }), // [C05,C06,C07,C13]
//@ implraw Display@Patch
open spec fn dv(&self) -> Seq<u8> { plain_text(true, self.v()) }
//@ fn Display@Patch::fmt
//@ fn Filename::needs_to_be_escaped
    ensures r == !plain(self.0.cv()),
//@ fn Filename::needs_to_be_escaped_bytes
    ensures r == !plain(self.0.cv()),
//@ loop Filename::needs_to_be_escaped_bytes c0
    invariant_except_break ic0 <= nc0, !outc0, forall|j: int| 0 <= j < ic0 ==> !special(#[trigger] sc0@[j]),
    invariant nc0 == sc0@.len(), sc0@ == self.0.cv(),
    ensures outc0 == !plain(self.0.cv()),
    decreases nc0 - ic0,
//@ ghost Filename::needs_to_be_escaped_bytes chain 0 start
    proof { lemma_special(); }
//@ fn Filename::write_into
    ensures r is Ok ==> final(w).out() == old(w).out() + name_text(self.0.cv()), final(w).fails() == old(w).fails(), r is Err ==> old(w).fails(),
//@ ghost Filename::write_into start
    broadcast use super::print::cat::group_cat;
//@ loop Filename::write_into l0
    invariant i0 <= n0, n0 == s0@.len(), s0@ == self.0.cv(), w.fails() == old(w).fails(),
        w.out() == old(w).out() + (seq![34u8] + esc_all(s0@.take(i0 as int))),
    decreases n0 - i0,
//@ ghost Filename::write_into loop l0 before
    assert(self.0.cv().take(0) =~= Seq::empty());
//@ ghost Filename::write_into loop l0 start
    assert(s0@.take(i0 as int).drop_last() =~= s0@.take(i0 - 1)); proof { lemma_special(); }
//@ ghost Filename::write_into loop l0 after
    assert(s0@.take(n0 as int) =~= s0@);
//@ implraw Display@Filename
open spec fn dv(&self) -> Seq<u8> { name_text(self.0.cv()) }
//@ fn Display@Filename::fmt
//@ loop Display@Filename::fmt l0
    invariant f.fails() == old(f).fails(),
        old(f).out() + (seq![34u8] + esc_all(self.0.cv())) == f.out() + esc_all(enc_all(it0.rest())),
        forall|c: char| #[trigger] cspecials().contains(c) == cspecial(c),
    ensures it0.rest().len() == 0,
    decreases it0.rest().len(),
//@ ghost Display@Filename::fmt loop l0 pre
    proof { if it0.rest().len() > 0 { lemma_esc_first(it0.rest()); } }
//@ ghost Display@Filename::fmt start
    broadcast use super::print::cat::group_cat; proof { lemma_cspecial(); }
//@ implraw Display@HunkRange
open spec fn dv(&self) -> Seq<u8> { range_text(self.start as int, self.len as int) }
//@ fn Display@HunkRange::fmt
//@ ghost Display@HunkRange::fmt start
    broadcast use super::print::cat::group_cat;
