//@ source patch/mod.rs
//@ addbound T=Text
//@ strlit
//@ rebound ToOwned=Text AsRef=Text Into=IntoCow
//@ retype AsRef=VAsRef String=VString
//@ rename Clone VClone Patch Filename Hunk
//@ rename AsRef VAsRef
//@ derefs VAsRef@Filename::as_ref AsRef@Filename::as_ref
//@ raw
use super::*;
use super::utils::*;
use std::ops;

// ------------------------------------------------------------------ what a patch says
/// a line: 0 context, 1 deleted, 2 inserted
pub struct LV { pub k: int, pub t: Seq<u8> }
pub struct HV { pub os: int, pub ol: int, pub ns: int, pub nl: int, pub ctx: Option<Seq<u8>>, pub lines: Seq<LV> }
pub struct PV { pub orig: Option<Seq<u8>>, pub modi: Option<Seq<u8>>, pub hunks: Seq<HV> }

pub open spec fn lrev(l: LV) -> LV { LV { k: if l.k == 1 { 2 } else if l.k == 2 { 1 } else { l.k }, t: l.t } }
pub open spec fn hrev(h: HV) -> HV { HV { os: h.ns, ol: h.nl, ns: h.os, nl: h.ol, ctx: h.ctx, lines: h.lines.map_values(|l: LV| lrev(l)) } }
pub open spec fn prev(p: PV) -> PV { PV { orig: p.modi, modi: p.orig, hunks: p.hunks.map_values(|h: HV| hrev(h)) } }
/// the lines a hunk expects / leaves, in order
pub open spec fn pre(ls: Seq<LV>) -> Seq<Seq<u8>>
    decreases ls.len()
{ if ls.len() == 0 { Seq::empty() } else if ls.last().k == 2 { pre(ls.drop_last()) } else { pre(ls.drop_last()).push(ls.last().t) } }
pub open spec fn post(ls: Seq<LV>) -> Seq<Seq<u8>>
    decreases ls.len()
{ if ls.len() == 0 { Seq::empty() } else if ls.last().k == 1 { post(ls.drop_last()) } else { post(ls.drop_last()).push(ls.last().t) } }
/// the header lengths count the lines
pub open spec fn counted(h: HV) -> bool { h.ol == pre(h.lines).len() && h.nl == post(h.lines).len() }
/// the header ranges are in order and do not overlap, in both files
pub open spec fn ordered(hs: Seq<HV>) -> bool {
    forall|i: int| 0 <= i < hs.len() - 1 ==> (#[trigger] hs[i]).os + hs[i].ol <= hs[i + 1].os && hs[i].ns + hs[i].nl <= hs[i + 1].ns
}

pub proof fn lemma_prepost_add(a: Seq<LV>, b: Seq<LV>)
    ensures pre(a + b) == pre(a) + pre(b), post(a + b) == post(a) + post(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(pre(a) + pre(b) =~= pre(a));
        assert(post(a) + post(b) =~= post(a));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        lemma_prepost_add(a, b.drop_last());
        assert(pre(a) + pre(b.drop_last()).push(b.last().t) =~= (pre(a) + pre(b.drop_last())).push(b.last().t));
        assert(post(a) + post(b.drop_last()).push(b.last().t) =~= (post(a) + post(b.drop_last())).push(b.last().t));
    }
}
pub proof fn lemma_pre_len(a: Seq<LV>)
    ensures pre(a).len() <= a.len(), post(a).len() <= a.len(),
    decreases a.len(),
{ if a.len() > 0 { lemma_pre_len(a.drop_last()); } }
/// reversing swaps what a hunk expects and leaves
pub proof fn lemma_rev_lines(a: Seq<LV>)
    ensures pre(a.map_values(|l: LV| lrev(l))) == post(a), post(a.map_values(|l: LV| lrev(l))) == pre(a),
    decreases a.len(),
{
    if a.len() > 0 {
        lemma_rev_lines(a.drop_last());
        let r = a.map_values(|l: LV| lrev(l));
        assert(r.drop_last() =~= a.drop_last().map_values(|l: LV| lrev(l)));
        assert(r.last() == lrev(a.last()));
    }
}
pub open spec fn kinds_ok(ls: Seq<LV>) -> bool { forall|i: int| 0 <= i < ls.len() ==> 0 <= (#[trigger] ls[i]).k <= 2 }
/// [C02] reversing twice gives the same patch back
pub proof fn theorem_rev_rev(p: PV)
    ensures prev(prev(p)) == p,
{
    assert forall|i: int| 0 <= i < p.hunks.len() implies prev(prev(p)).hunks[i] == #[trigger] p.hunks[i] by {
        let h = p.hunks[i];
        assert(hrev(hrev(h)).lines =~= h.lines);
        assert(hrev(hrev(h)) == h);
    }
    assert(prev(prev(p)).hunks =~= p.hunks);
}

impl<'a, T: Text + ?Sized> VClone for Line<'a, T> {
    open spec fn cl(&self, r: &Self) -> bool { *r == *self }
    fn vclone(&self) -> (r: Self) { *self }
}
impl<'a, T: Text + ?Sized> Line<'a, T> {
    pub open spec fn v(self) -> LV {
        match self { Line::Context(t) => LV { k: 0, t: t.tv() }, Line::Delete(t) => LV { k: 1, t: t.tv() }, Line::Insert(t) => LV { k: 2, t: t.tv() } }
    }
}
pub open spec fn lvs<'a, T: Text + ?Sized>(s: Seq<Line<'a, T>>) -> Seq<LV> { s.map_values(|l: Line<'a, T>| l.v()) }
pub open spec fn otv<T: Text + ?Sized>(o: Option<&T>) -> Option<Seq<u8>> { match o { Some(t) => Some(t.tv()), None => None } }
impl<'a, T: Text + ?Sized> Hunk<'a, T> {
    pub open spec fn v(self) -> HV {
        HV { os: self.old_range.start as int, ol: self.old_range.len as int, ns: self.new_range.start as int, nl: self.new_range.len as int,
            ctx: otv(self.function_context), lines: lvs(self.lines@) }
    }
    /// invariant of every Hunk: the header lengths count the lines and the ranges' ends are numbers
    pub open spec fn inv(self) -> bool { counted(self.v()) && self.old_range.fits() && self.new_range.fits() }
}
impl HunkRange { pub open spec fn fits(self) -> bool { self.start + self.len <= usize::MAX } }
pub open spec fn hvs<'a, T: Text + ?Sized>(s: Seq<Hunk<'a, T>>) -> Seq<HV> { s.map_values(|h: Hunk<'a, T>| h.v()) }
pub open spec fn fnv<'a, T: Text + ?Sized>(o: Option<Filename<'a, T>>) -> Option<Seq<u8>> { match o { Some(f) => Some(f.0.cv()), None => None } }
impl<'a, T: Text + ?Sized> Patch<'a, T> {
    pub open spec fn v(self) -> PV { PV { orig: fnv(self.original), modi: fnv(self.modified), hunks: hvs(self.hunks@) } }
    pub open spec fn inv(self) -> bool { forall|i: int| 0 <= i < self.hunks@.len() ==> (#[trigger] self.hunks@[i]).inv() }
}
//@ const NO_NEWLINE_AT_EOF
//@ const ESCAPED_CHARS
//@ const ESCAPED_CHARS_BYTES
//@ type Patch attr=verifier::reject_recursive_types(T)
//@ type Filename attr=verifier::reject_recursive_types(T)
//@ type Hunk attr=verifier::reject_recursive_types(T)
//@ type HunkRange
//@ type Line attr=verifier::reject_recursive_types(T)
//@ fn Patch::new
    ensures r.v().orig == (match original { Some(o) => Some(o.iv()), None => None }), r.v().modi == (match modified { Some(o) => Some(o.iv()), None => None }), r.hunks == hunks,
//@ fn Patch::original
    ensures otv(r) == self.v().orig,
//@ fn Patch::modified
    ensures otv(r) == self.v().modi,
//@ fn Patch::hunks
    ensures r@ == self.hunks@,
//@ fn Patch::reverse ty=outc0:Vec<Hunk<'_,T>>
    ensures r.v() == prev(self.v()), self.inv() ==> r.inv(),
//@ loop Patch::reverse c0
    invariant
        sc0@ == self.hunks@, nc0 == sc0@.len(), ic0 <= nc0, outc0@.len() == ic0,
        forall|i: int| 0 <= i < ic0 ==> (#[trigger] outc0@[i]).v() == hrev(self.hunks@[i].v()) && (self.hunks@[i].inv() ==> outc0@[i].inv()),
    decreases nc0 - ic0,
//@ ghost Patch::reverse chain 0 after
    assert(hvs(outc0@) =~= hvs(self.hunks@).map_values(|h: HV| hrev(h)));
//@ implraw Clone@Patch
    open spec fn cl(&self, r: &Self) -> bool { r.v() == self.v() && (self.inv() ==> r.inv()) }
//@ ghost Clone@Patch::clone end
    proof {
        assert(hvs(r__.hunks@) =~= hvs(self.hunks@)) by { assert forall|i: int| 0 <= i < self.hunks@.len() implies r__.hunks@[i].v() == self.hunks@[i].v() by { assert(self.hunks@[i].cl(&r__.hunks@[i])); } }
        if self.inv() { assert forall|i: int| 0 <= i < r__.hunks@.len() implies (#[trigger] r__.hunks@[i]).inv() by { assert(self.hunks@[i].cl(&r__.hunks@[i])); assert(self.hunks@[i].inv()); } }
    }
//@ implraw Clone@Filename
    open spec fn cl(&self, r: &Self) -> bool { r.0.cv() == self.0.cv() }
//@ implraw Clone@Hunk
    open spec fn cl(&self, r: &Self) -> bool { r.v() == self.v() && r.old_range == self.old_range && r.new_range == self.new_range }
//@ fn Clone@Hunk::clone
//@ ghost Clone@Hunk::clone end
    assert(lvs(r__.lines@) =~= lvs(self.lines@)) by { assert forall|i: int| 0 <= i < self.lines@.len() implies r__.lines@[i].v() == self.lines@[i].v() by { assert(self.lines@[i].cl(&r__.lines@[i])); } }
//@ implraw Copy@Line
//@ fn Clone@Patch::clone
//@ fn AsRef@Filename::as_ref
//@ implraw AsRef@Filename
    open spec fn rv(&self) -> Seq<u8> { self.0.cv() }
//@ fn Clone@Filename::clone
//@ fn hunk_lines_count
    ensures r.0 == pre(lvs(lines@)).len(), r.1 == post(lvs(lines@)).len(),
//@ loop hunk_lines_count c0
    invariant
        sc0@ == lines@, nc0 == sc0@.len(), ic0 <= nc0,
        outc0.0 == pre(lvs(lines@).take(ic0 as int)).len(), outc0.1 == post(lvs(lines@).take(ic0 as int)).len(), outc0.0 <= ic0, outc0.1 <= ic0,
    decreases nc0 - ic0,
//@ ghost hunk_lines_count chain 0 start
    assert(lvs(lines@).take(ic0 + 1).drop_last() =~= lvs(lines@).take(ic0 as int));
    assert(lvs(lines@).take(ic0 + 1).last() == lines@[ic0 as int].v());
//@ ghost hunk_lines_count chain 0 after
    assert(lvs(lines@).take(ic0 as int) =~= lvs(lines@));
//@ fn Hunk::new
    requires old_range.fits(), new_range.fits(), counted(HV { os: 0, ol: old_range.len as int, ns: 0, nl: new_range.len as int, ctx: None, lines: lvs(lines@) }),
    ensures r.old_range == old_range, r.new_range == new_range, r.function_context == function_context, r.lines == lines, r.inv(),
//@ fn Hunk::old_range
    ensures r == self.old_range,
//@ fn Hunk::new_range
    ensures r == self.new_range,
//@ fn Hunk::function_context
    ensures r == self.function_context,
//@ fn Hunk::lines
    ensures r@ == self.lines@,
//@ fn Hunk::reverse ty=outc0:Vec<Line<'_,T>>
    ensures r.v() == hrev(self.v()), self.inv() ==> r.inv(),
//@ loop Hunk::reverse c0
    invariant
        sc0@ == self.lines@, nc0 == sc0@.len(), ic0 <= nc0, outc0@.len() == ic0,
        forall|i: int| 0 <= i < ic0 ==> (#[trigger] outc0@[i]).v() == lrev(self.lines@[i].v()),
    decreases nc0 - ic0,
//@ ghost Hunk::reverse chain 0 after
    proof {
        assert(lvs(outc0@) =~= lvs(self.lines@).map_values(|l: LV| lrev(l)));
        lemma_rev_lines(lvs(self.lines@));
    }
//@ fn HunkRange::new
    ensures r.start == start, r.len == len,
//@ fn HunkRange::range
    requires self.start + self.len <= usize::MAX,
    ensures r.start == self.start, r.end == self.start + self.len,
//@ fn HunkRange::start
    ensures r == self.start,
//@ fn HunkRange::end
    requires self.start + self.len <= usize::MAX,
    ensures r == self.start + self.len,
//@ fn HunkRange::len
    ensures r == self.len,
//@ fn HunkRange::is_empty
    ensures r == (self.len == 0),
//@ fn Clone@Line::clone
//@ fn Line::reverse
    ensures r.v() == lrev(self.v()),
