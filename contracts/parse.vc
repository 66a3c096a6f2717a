//@ source patch/parse.rs
//@ strlit
//@ litparams prefix
//@ addbound T=Text
//@ droparg ParsePatchError::new
//@ raw
use super::*;
use super::utils::*;
use super::patch::*;
use super::syntax::*;

/// an error; its message is dropped
pub struct ParsePatchError;
impl ParsePatchError { pub fn new() -> (r: ParsePatchError) { ParsePatchError } }
pub type Result<T> = core::result::Result<T, ParsePatchError>;

impl<'a, T: Text + ?Sized> Parser<'a, T> {
    /// the lines still to be read
    pub open spec fn left(&self) -> Seq<Seq<u8>> { self.lines.rest() }
}
/// the header of a hunk, as the code holds it
pub open spec fn hhv<T: Text + ?Sized>(x: (HunkRange, HunkRange, Option<&T>)) -> HH {
    HH { os: x.0.start as int, ol: x.0.len as int, ns: x.1.start as int, nl: x.1.len as int, ctx: otv(x.2) }
}
broadcast use lemma_lvs_push, lemma_lvs_sub, lemma_hvs_push;
//@ type Parser attr=verifier::reject_recursive_types(T)
//@ fn Parser::new
    ensures r.left() == lines(input.tv()),
//@ fn Parser::peek
    ensures final(self).left() == old(self).left(), (match r { Some(x) => old(self).left().len() > 0 && (**x).tv() == old(self).left()[0], None => old(self).left().len() == 0 }),
//@ fn Parser::next
    ensures (match r { Ok(x) => old(self).left().len() > 0 && x.tv() == old(self).left()[0] && final(self).left() == old(self).left().skip(1), Err(_) => old(self).left().len() == 0 }),
//@ fn parse
    ensures (match r { Ok(p) => read_patch(str_bytes(input)) == Some(p.v()) && p.inv(), Err(_) => read_patch(str_bytes(input)) is None }), // [C05,C06,C07,C13]
//@ fn parse_bytes
    ensures (match r { Ok(p) => read_patch(input@) == Some(p.v()) && p.inv(), Err(_) => read_patch(input@) is None }), // [C05,C06,C07,C13]
//@ fn convert_cow_to_str
    requires utf8(cow.cv()),
    ensures r.cv() == cow.cv(),
//@ fn patch_header
    ensures (match r {
        Ok(x) => header(skip_pre(old(parser).left()), None, None) == Some((ocv(x.0), ocv(x.1), final(parser).left())) && (T::tu() ==> (x.0 is Some ==> utf8(x.0->0.cv())) && (x.1 is Some ==> utf8(x.1->0.cv()))),
        Err(_) => header(skip_pre(old(parser).left()), None, None) is None,
    }),
//@ loop patch_header l0
    invariant
        header(skip_pre(old(parser).left()), None, None) == header(parser.left(), ocv(filename1), ocv(filename2)),
        T::tu() ==> (filename1 is Some ==> utf8(filename1->0.cv())) && (filename2 is Some ==> utf8(filename2->0.cv())),
    ensures header(skip_pre(old(parser).left()), None, None) == Some((ocv(filename1), ocv(filename2), parser.left())),
    decreases parser.left().len(),
//@ fn skip_header_preamble
    ensures r is Ok, final(parser).left() == skip_pre(old(parser).left()),
//@ loop skip_header_preamble l0
    invariant skip_pre(old(parser).left()) == skip_pre(parser.left()),
    ensures parser.left() == skip_pre(old(parser).left()),
    decreases parser.left().len(),
//@ fn parse_filename
    requires ascii(prefix@),
    ensures (match r {
        Ok(x) => cutp(line.tv(), prefix@) is Some && file_name(cutp(line.tv(), prefix@)->0) == Some(x.cv()) && (T::tu() ==> utf8(x.cv())),
        Err(_) => cutp(line.tv(), prefix@) is None || file_name(cutp(line.tv(), prefix@)->0) is None,
    }),
//@ fn is_quoted
    ensures otv(r) == quoted(s.tv()),
//@ fn unescaped_filename
    ensures (match r { Ok(x) => (T::tu() ==> utf8(x.cv())) && plain(filename.tv()) && x.cv() == filename.tv(), Err(_) => !plain(filename.tv()) }),
//@ ghost unescaped_filename start
    proof { filename.lemma_bd(); lemma_special(); }
//@ loop unescaped_filename c0
    invariant_except_break
        !outc0, forall|j: int| 0 <= j < ic0 ==> !special(#[trigger] sc0@[j]),
    invariant
        sc0@ == filename.tv(), nc0 == sc0@.len(), ic0 <= nc0,
        forall|b: u8| #[trigger] specials().contains(b) == special(b),
    ensures outc0 == !plain(filename.tv()),
    decreases nc0 - ic0,
//@ fn escaped_filename
    ensures (match r { Ok(x) => (T::tu() ==> utf8(x.cv())) && unesc(escaped.tv()) == Some(x.cv()), Err(_) => unesc(escaped.tv()) is None }),
//@ ghost escaped_filename start
    proof { lemma_special(); escaped.lemma_bd(); lemma_unesc_utf8s(escaped.tv()); }
//@ ghost escaped_filename loop l0 before
    assert(chars.rest() =~= escaped.tv());
    proof { lemma_pre(filename@, unesc(escaped.tv())); }
//@ ghost escaped_filename loop l0 after
    proof { lemma_pre(filename@, None); }
//@ ghost escaped_filename loop l0 pre
    proof { if chars.rest().len() > 0 { lemma_unesc_step(filename@, chars.rest()); } }
//@ loop escaped_filename l0
    invariant
        forall|b: u8| #[trigger] specials().contains(b) == special(b),
        unesc(escaped.tv()) == pre_name(filename@, unesc(chars.rest())),
    ensures unesc(escaped.tv()) == pre_name(filename@, Some(Seq::empty())),
    decreases chars.rest().len(),
//@ fn verify_hunks_in_order
    requires forall|i: int| 0 <= i < hunks@.len() ==> (#[trigger] hunks@[i]).inv(),
    ensures r == ordered(hvs(hunks@)),
//@ ghost verify_hunks_in_order loop l0 pre
    proof { if it0.i + 1 < hunks@.len() { assert(hvs(hunks@)[it0.i as int] == hunks@[it0.i as int].v() && hvs(hunks@)[it0.i + 1] == hunks@[it0.i + 1].v()); } }
//@ loop verify_hunks_in_order l0
    invariant
        it0.s == hunks, it0.n == 2, it0.i <= hunks@.len(), it0.i < hunks@.len() || hunks@.len() == 0,
        forall|i: int| 0 <= i < hunks@.len() ==> (#[trigger] hunks@[i]).inv(),
        forall|i: int| 0 <= i < it0.i ==> (#[trigger] hvs(hunks@)[i]).os + hvs(hunks@)[i].ol <= hvs(hunks@)[i + 1].os && hvs(hunks@)[i].ns + hvs(hunks@)[i].nl <= hvs(hunks@)[i + 1].ns,
    ensures it0.i + 2 > hunks@.len(),
    decreases hunks@.len() - it0.i,
//@ fn hunks
    ensures (match r {
        Ok(x) => hunks_of(old(parser).left()) == Some(hvs(x@)) && ordered(hvs(x@)) && forall|i: int| 0 <= i < x@.len() ==> (#[trigger] x@[i]).inv(),
        Err(_) => hunks_of(old(parser).left()) is None || !ordered(hunks_of(old(parser).left())->0),
    }),
//@ ghost hunks loop l0 before
    proof { assert(hvs(hunks@) =~= Seq::<HV>::empty()); lemma_more_nil(hvs(hunks@), hunks_of(old(parser).left())); }
//@ ghost hunks loop l0 start
    proof { lemma_hunks_step(hvs(hunks@), parser.left()); }
//@ ghost hunks loop l0 after
    proof { lemma_more_end(hvs(hunks@)); }
//@ loop hunks l0
    invariant
        hunks_of(old(parser).left()) == more(hvs(hunks@), hunks_of(parser.left())),
        forall|i: int| 0 <= i < hunks@.len() ==> (#[trigger] hunks@[i]).inv(),
    decreases parser.left().len(),
//@ fn hunk
    requires old(parser).left().len() > 0,
    ensures (match r {
        Ok(x) => one_hunk(old(parser).left()) == Some((x.v(), final(parser).left())) && x.inv(),
        Err(_) => one_hunk(old(parser).left()) is None,
    }),
//@ fn hunk_header
    ensures (match r { Ok(x) => hunk_head(input.tv()) == Some(hhv(x)) && x.0.fits() && x.1.fits(), Err(_) => hunk_head(input.tv()) is None }),
//@ fn range
    ensures (match r { Ok(x) => range_of(s.tv()) == Some((x.start as int, x.len as int)) && x.fits(), Err(_) => range_of(s.tv()) is None }),
//@ fn hunk_lines
    ensures (match r { Ok(x) => body(old(parser).left(), bs0()) == Some((lvs(x@), final(parser).left())), Err(_) => body(old(parser).left(), bs0()) is None }),
//@ ghost hunk_lines loop l0 before
    assert(lvs(lines@) =~= Seq::<LV>::empty());
//@ loop hunk_lines l0
    invariant
        body(old(parser).left(), bs0()) == body(parser.left(), BS { ls: lvs(lines@), c: no_newline_context, d: no_newline_delete, i: no_newline_insert }),
    ensures body(old(parser).left(), bs0()) == Some((lvs(lines@), parser.left())),
    decreases parser.left().len(),
//@ fn strip_newline
    ensures (match r { Ok(x) => cuts(s.tv(), seq![10u8]) == Some(x.tv()), Err(_) => cuts(s.tv(), seq![10u8]) is None }),
