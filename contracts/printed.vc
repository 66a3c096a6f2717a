//@ source lib.rs
//@ raw
use super::*;
use super::utils::*;
use super::patch::*;
use super::diff::*;
use super::syntax::*;
use super::print::*;
use super::roundtrip::*;

/// where line i is among the lines a hunk expects / leaves
pub proof fn lemma_pre_at(ls: Seq<LV>, i: int)
    requires 0 <= i < ls.len(),
    ensures
        ls[i].k != 2 ==> pre(ls.take(i)).len() < pre(ls).len() && pre(ls)[pre(ls.take(i)).len() as int] == ls[i].t,
        ls[i].k != 1 ==> post(ls.take(i)).len() < post(ls).len() && post(ls)[post(ls.take(i)).len() as int] == ls[i].t,
        forall|j: int| i < j < ls.len() && ls[i].k != 2 ==> pre(ls.take(i)).len() < pre(#[trigger] ls.take(j)).len(),
        forall|j: int| i < j < ls.len() && ls[i].k != 1 ==> post(ls.take(i)).len() < post(#[trigger] ls.take(j)).len(),
{
    lemma_pre_at0(ls, i);
    assert forall|j: int| i < j < ls.len() && ls[i].k != 2 implies pre(ls.take(i)).len() < pre(#[trigger] ls.take(j)).len() by { lemma_pre_at0(ls.take(j), i); assert(ls.take(j).take(i) =~= ls.take(i)); }
    assert forall|j: int| i < j < ls.len() && ls[i].k != 1 implies post(ls.take(i)).len() < post(#[trigger] ls.take(j)).len() by { lemma_pre_at0(ls.take(j), i); assert(ls.take(j).take(i) =~= ls.take(i)); }
}
pub proof fn lemma_pre_at0(ls: Seq<LV>, i: int)
    requires 0 <= i < ls.len(),
    ensures
        ls[i].k != 2 ==> pre(ls.take(i)).len() < pre(ls).len() && pre(ls)[pre(ls.take(i)).len() as int] == ls[i].t,
        ls[i].k != 1 ==> post(ls.take(i)).len() < post(ls).len() && post(ls)[post(ls.take(i)).len() as int] == ls[i].t,
{
    let a = ls.take(i);
    let b = ls.skip(i);
    let c = ls.skip(i + 1);
    assert(a + b =~= ls);
    lemma_prepost_add(a, b);
    let x = seq![ls[i]];
    assert(x + c =~= b);
    lemma_prepost_add(x, c);
    let e = x.drop_last();
    assert(e =~= Seq::<LV>::empty() && x.last() == ls[i]);
    assert(pre(e) =~= Seq::<Seq<u8>>::empty() && post(e) =~= Seq::<Seq<u8>>::empty());
    if ls[i].k != 2 { assert(pre(x) == pre(e).push(ls[i].t)); assert(pre(b)[0] == ls[i].t); }
    if ls[i].k != 1 { assert(post(x) == post(e).push(ls[i].t)); assert(post(b)[0] == ls[i].t); }
}
pub proof fn lemma_lacks_last(ls: Seq<Seq<u8>>, i: int)
    requires wf_lines(ls), 0 <= i < ls.len(),
    ensures nl_end(ls[i]), lacks(ls[i]) ==> i == ls.len() - 1,
{ assert(wf_line(ls[i], i == ls.len() - 1)); lemma_lacks(ls[i]); }
/// exact hunks of texts can be printed
pub proof fn lemma_exact_body(h: HV, la: Seq<Seq<u8>>, lb: Seq<Seq<u8>>)
    requires exact(h, la, lb), wf_lines(la), wf_lines(lb), kinds_ok(h.lines),
    ensures body_ok(h.lines), counted(h),
{
    let ls = h.lines;
    assert(lines_ok(ls)) by {
        assert forall|i: int| 0 <= i < ls.len() implies 0 <= (#[trigger] ls[i]).k <= 2 && nl_end(ls[i].t) by {
            lemma_pre_at(ls, i);
            if ls[i].k != 2 { let q = pre(ls.take(i)).len() as int; lemma_lacks_last(la, opos(h) + q); assert(pre(ls)[q] == la[opos(h) + q]); }
            else { let q = post(ls.take(i)).len() as int; lemma_lacks_last(lb, npos(h) + q); assert(post(ls)[q] == lb[npos(h) + q]); }
        }
    }
    assert(ends_ok(ls)) by {
        assert forall|i: int, j: int| 0 <= i < j < ls.len() implies #[trigger] after_ok(ls[i], ls[j]) by {
            lemma_pre_at(ls, i);
            lemma_pre_at(ls, j);
            assert(kinds_ok(ls) && 0 <= ls[i].k <= 2 && 0 <= ls[j].k <= 2);
            let p = pre(ls.take(i)).len() as int;
            let q = post(ls.take(i)).len() as int;
            if ls[i].k != 2 { lemma_lacks_last(la, opos(h) + p); assert(pre(ls)[p] == la[opos(h) + p]); }
            if ls[i].k != 1 { lemma_lacks_last(lb, npos(h) + q); assert(post(ls)[q] == lb[npos(h) + q]); }
            assert(ls.take(j).len() == j);
        }
    }
}
pub proof fn lemma_chained_exact(hs: Seq<HV>, la: Seq<Seq<u8>>, lb: Seq<Seq<u8>>)
    requires chained(hs, la, lb),
    ensures forall|i: int| 0 <= i < hs.len() ==> exact(#[trigger] hs[i], la, lb),
    decreases hs.len(),
{
    if hs.len() > 0 {
        let p = hs.drop_last();
        lemma_chained_exact(p, la, lb);
        assert forall|i: int| 0 <= i < hs.len() implies exact(#[trigger] hs[i], la, lb) by { if i < p.len() { assert(p[i] == hs[i]); } }
    }
}
/// [C07] a created patch is printable
pub proof fn theorem_created_printable<T: Text + ?Sized>(p: Patch<T>, o: Seq<u8>, n: Seq<u8>, ctx: int)
    requires p.inv(), created(p.v(), o, n, ctx),
    ensures printable(p.v()),
{
    let hs = p.v().hunks;
    lemma_lines(o);
    lemma_lines(n);
    lemma_chained_exact(hs, lines(o), lines(n));
    assert forall|i: int| 0 <= i < hs.len() implies printable_h(#[trigger] hs[i]) by {
        let h = p.hunks@[i];
        assert(h.inv());
        assert(hs[i] == h.v());
        assert(exact(hs[i], lines(o), lines(n)));
        assert(kinds_ok(hs[i].lines)) by { assert forall|k: int| 0 <= k < hs[i].lines.len() implies 0 <= (#[trigger] hs[i].lines[k]).k <= 2 by { assert(hs[i].lines[k] == h.lines@[k].v()); } }
        lemma_exact_body(hs[i], lines(o), lines(n));
    }
}
/// [C07] create, print, parse
pub proof fn theorem_created_read<T: Text + ?Sized>(p: Patch<T>, o: Seq<u8>, n: Seq<u8>, ctx: int, f: FV)
    requires p.inv(), created(p.v(), o, n, ctx), plainf(f),
    ensures read_patch(patch_text(f, p.v())) == Some(p.v()),
{
    theorem_created_printable(p, o, n, ctx);
    theorem_print_read(f, p.v());
}
