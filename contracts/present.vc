//@ raw
use super::*;
use super::utils::*;
use super::patch::*;
use super::syntax::*;
use super::print::*;

// ------------------------------------------------------------------ presentation options only filter (C14)
// The printed form is cut into pieces that do not depend on the switches `color`, `blank` and `msg`;
// the switches say which kinds of pieces are shown.
/// kind 0: always; 1: an escape sequence; 2: the space before an empty context line; 3: the
/// missing-newline message
pub struct Pc { pub k: int, pub t: Seq<u8> }
pub open spec fn pc(k: int, t: Seq<u8>) -> Pc { Pc { k, t } }
pub open spec fn kept(f: FV, k: int) -> bool { k == 0 || (k == 1 && f.color) || (k == 2 && !f.blank) || (k == 3 && f.msg) }
pub open spec fn sel1(f: FV, p: Pc) -> Seq<u8> { if kept(f, p.k) { p.t } else { Seq::empty() } }
/// the kept pieces, one after the other
pub open spec fn sel(f: FV, ps: Seq<Pc>) -> Seq<u8>
    decreases ps.len()
{ if ps.len() == 0 { Seq::empty() } else { sel(f, ps.drop_last()) + sel1(f, ps.last()) } }

pub open spec fn styled_pcs(s: Style, t: Seq<Pc>) -> Seq<Pc> { seq![pc(1, style_pre(s))] + t + seq![pc(1, style_suf(s))] }
pub open spec fn line_pcs(f: FV, l: LV) -> Seq<Pc> {
    styled_pcs(lstyle(f, l.k), seq![pc(if l.k == 0 && l.t == seq![10u8] { 2 } else { 0 }, sign(l.k)), pc(0, l.t)])
    + if is_suffix(seq![10u8], l.t) { Seq::empty() } else { seq![pc(0, seq![10u8]), pc(3, t_nonl() + seq![10u8])] }
}
pub open spec fn lines_pcs(f: FV, ls: Seq<LV>) -> Seq<Pc>
    decreases ls.len()
{ if ls.len() == 0 { Seq::empty() } else { lines_pcs(f, ls.drop_last()) + line_pcs(f, ls.last()) } }
pub open spec fn ctx_pcs(f: FV, c: Option<Seq<u8>>) -> Seq<Pc> { match c { Some(c) => seq![pc(0, seq![32u8])] + styled_pcs(f.fc, seq![pc(0, c)]), None => Seq::empty() } }
pub open spec fn hunk_pcs(f: FV, h: HV) -> Seq<Pc> {
    styled_pcs(f.hh, seq![pc(0, head_text(h))]) + ctx_pcs(f, h.ctx) + seq![pc(0, seq![10u8])] + lines_pcs(f, h.lines)
}
pub open spec fn hunks_pcs(f: FV, hs: Seq<HV>) -> Seq<Pc>
    decreases hs.len()
{ if hs.len() == 0 { Seq::empty() } else { hunks_pcs(f, hs.drop_last()) + hunk_pcs(f, hs.last()) } }
pub open spec fn patch_pcs(f: FV, p: PV) -> Seq<Pc> {
    (if p.orig is Some || p.modi is Some { styled_pcs(f.ph, seq![pc(0, names_text(p))]) } else { Seq::empty() }) + hunks_pcs(f, p.hunks)
}

pub proof fn lemma_sel_cat(f: FV, a: Seq<Pc>, b: Seq<Pc>)
    ensures sel(f, a + b) == sel(f, a) + sel(f, b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(sel(f, a) + sel(f, b) =~= sel(f, a)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_sel_cat(f, a, b.drop_last());
        assert(sel(f, a + b) =~= sel(f, a) + sel(f, b));
    }
}
pub proof fn lemma_sel1(f: FV, p: Pc)
    ensures sel(f, seq![p]) == sel1(f, p),
{ assert(seq![p].drop_last() =~= Seq::empty()); reveal_with_fuel(sel, 2); assert(sel(f, seq![p]) =~= sel1(f, p)); }
pub proof fn lemma_sel2(f: FV, p: Pc, q: Pc)
    ensures sel(f, seq![p, q]) == sel1(f, p) + sel1(f, q),
{ assert(seq![p, q] =~= seq![p] + seq![q]); lemma_sel_cat(f, seq![p], seq![q]); lemma_sel1(f, p); lemma_sel1(f, q); }
pub proof fn lemma_styled_pcs(f: FV, s: Style, t: Seq<Pc>)
    ensures sel(f, styled_pcs(s, t)) == styled(f, s, sel(f, t)),
{
    reveal(pre_if); reveal(suf_if);
    let a = pc(1, style_pre(s)); let b = pc(1, style_suf(s));
    lemma_sel_cat(f, seq![a] + t, seq![b]); lemma_sel_cat(f, seq![a], t); lemma_sel1(f, a); lemma_sel1(f, b);
    assert(sel(f, styled_pcs(s, t)) =~= styled(f, s, sel(f, t)));
}
pub proof fn lemma_line_pcs(f: FV, l: LV)
    requires 0 <= l.k <= 2,
    ensures sel(f, line_pcs(f, l)) == line_text(f, l),
{
    let k = if l.k == 0 && l.t == seq![10u8] { 2int } else { 0 };
    let m = seq![pc(k, sign(l.k)), pc(0, l.t)];
    lemma_sel2(f, pc(k, sign(l.k)), pc(0, l.t));
    assert(sel(f, m) =~= line_main(f, l));
    lemma_styled_pcs(f, lstyle(f, l.k), m);
    let e = if is_suffix(seq![10u8], l.t) { Seq::<Pc>::empty() } else { seq![pc(0, seq![10u8]), pc(3, t_nonl() + seq![10u8])] };
    lemma_sel2(f, pc(0, seq![10u8]), pc(3, t_nonl() + seq![10u8]));
    assert(sel(f, e) =~= line_end(f, l));
    lemma_sel_cat(f, styled_pcs(lstyle(f, l.k), m), e);
}
pub proof fn lemma_lines_pcs(f: FV, ls: Seq<LV>)
    requires forall|i: int| 0 <= i < ls.len() ==> 0 <= (#[trigger] ls[i]).k <= 2,
    ensures sel(f, lines_pcs(f, ls)) == lines_text(f, ls),
    decreases ls.len(),
{
    if ls.len() > 0 {
        lemma_lines_pcs(f, ls.drop_last()); lemma_line_pcs(f, ls.last());
        lemma_sel_cat(f, lines_pcs(f, ls.drop_last()), line_pcs(f, ls.last()));
    }
}
pub open spec fn kinds_ok(h: HV) -> bool { forall|i: int| 0 <= i < h.lines.len() ==> 0 <= (#[trigger] h.lines[i]).k <= 2 }
pub proof fn lemma_hunk_pcs(f: FV, h: HV)
    requires kinds_ok(h),
    ensures sel(f, hunk_pcs(f, h)) == hunk_text(f, h),
{
    let a = styled_pcs(f.hh, seq![pc(0, head_text(h))]); let n = seq![pc(0, seq![10u8])];
    lemma_sel1(f, pc(0, head_text(h))); lemma_styled_pcs(f, f.hh, seq![pc(0, head_text(h))]);
    match h.ctx {
        Some(c) => {
            lemma_sel1(f, pc(0, c)); lemma_styled_pcs(f, f.fc, seq![pc(0, c)]);
            lemma_sel1(f, pc(0, seq![32u8]));
            lemma_sel_cat(f, seq![pc(0, seq![32u8])], styled_pcs(f.fc, seq![pc(0, c)]));
        },
        None => {},
    }
    assert(sel(f, ctx_pcs(f, h.ctx)) =~= ctx_text(f, h.ctx));
    lemma_sel1(f, pc(0, seq![10u8]));
    lemma_lines_pcs(f, h.lines);
    lemma_sel_cat(f, a + ctx_pcs(f, h.ctx) + n, lines_pcs(f, h.lines));
    lemma_sel_cat(f, a + ctx_pcs(f, h.ctx), n);
    lemma_sel_cat(f, a, ctx_pcs(f, h.ctx));
}
pub proof fn lemma_hunks_pcs(f: FV, hs: Seq<HV>)
    requires forall|i: int| 0 <= i < hs.len() ==> kinds_ok(#[trigger] hs[i]),
    ensures sel(f, hunks_pcs(f, hs)) == hunks_text(f, hs),
    decreases hs.len(),
{
    if hs.len() > 0 {
        lemma_hunks_pcs(f, hs.drop_last()); lemma_hunk_pcs(f, hs.last());
        lemma_sel_cat(f, hunks_pcs(f, hs.drop_last()), hunk_pcs(f, hs.last()));
    }
}
/// two settings that differ in the switches only
pub open spec fn same_styles(f: FV, g: FV) -> bool { f.ctx == g.ctx && f.del == g.del && f.ins == g.ins && f.hh == g.hh && f.ph == g.ph && f.fc == g.fc }
proof fn lemma_pcs_same(f: FV, g: FV, hs: Seq<HV>)
    requires same_styles(f, g),
    ensures hunks_pcs(f, hs) == hunks_pcs(g, hs),
    decreases hs.len(),
{ if hs.len() > 0 { lemma_pcs_same(f, g, hs.drop_last()); lemma_pcs_same_lines(f, g, hs.last().lines); } }
proof fn lemma_pcs_same_lines(f: FV, g: FV, ls: Seq<LV>)
    requires same_styles(f, g),
    ensures lines_pcs(f, ls) == lines_pcs(g, ls),
    decreases ls.len(),
{ if ls.len() > 0 { lemma_pcs_same_lines(f, g, ls.drop_last()); } }
/// [C14] formatter options change presentation only: there is one sequence of pieces from which every
/// setting of the switches shows a selection
pub proof fn theorem_presentation(f: FV, g: FV, p: PV)
    requires same_styles(f, g), forall|i: int| 0 <= i < p.hunks.len() ==> kinds_ok(#[trigger] p.hunks[i]),
    ensures
        patch_text(f, p) == sel(f, patch_pcs(f, p)),
        patch_text(g, p) == sel(g, patch_pcs(f, p)),
{
    lemma_pcs_same(f, g, p.hunks);
    assert(patch_pcs(f, p) == patch_pcs(g, p));
    lemma_pres1(f, p); lemma_pres1(g, p);
}
proof fn lemma_pres1(f: FV, p: PV)
    requires forall|i: int| 0 <= i < p.hunks.len() ==> kinds_ok(#[trigger] p.hunks[i]),
    ensures patch_text(f, p) == sel(f, patch_pcs(f, p)),
{
    lemma_hunks_pcs(f, p.hunks);
    if p.orig is Some || p.modi is Some {
        let a = styled_pcs(f.ph, seq![pc(0, names_text(p))]);
        lemma_sel1(f, pc(0, names_text(p))); lemma_styled_pcs(f, f.ph, seq![pc(0, names_text(p))]);
        lemma_sel_cat(f, a, hunks_pcs(f, p.hunks));
    } else {
        lemma_sel_cat(f, Seq::empty(), hunks_pcs(f, p.hunks));
    }
}
