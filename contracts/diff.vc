//@ source diff/mod.rs
//@ addbound T=Text
//@ inst PartialEq=u64 _=u64
//@ rebound Into=IntoCow
//@ retype String=VString
//@ remethod as_bytes=std_as_bytes
//@ rename Default VDefault
//@ raw
use super::*;
use super::range::*;
use super::utils::*;
use super::patch::*;
use super::myers::LIM;
use std::ops;

// ------------------------------------------------------------------ the changed stretches of an edit script
pub open spec fn gap_eq<X>(a: Seq<X>, b: Seq<X>, o: int, n: int, g: int) -> bool {
    o + g <= a.len() && n + g <= b.len() && a.subrange(o, o + g) == b.subrange(n, n + g)
}
pub open spec fn peo(es: Seq<EditRange>, i: int) -> int { if i <= 0 { 0 } else { es[i - 1].old.end as int } }
pub open spec fn pen(es: Seq<EditRange>, i: int) -> int { if i <= 0 { 0 } else { es[i - 1].new.end as int } }
/// es[i] is a change, preceded by equal elements since the change before it
pub open spec fn er_ok<X>(es: Seq<EditRange>, a: Seq<X>, b: Seq<X>, i: int) -> bool {
    let e = es[i];
    let g = e.old.start - peo(es, i);
    &&& e.old.start <= e.old.end <= a.len() && e.new.start <= e.new.end <= b.len()
    &&& (e.old.start < e.old.end || e.new.start < e.new.end)
    &&& g == e.new.start - pen(es, i) && g >= 0 && (i > 0 ==> g > 0)
    &&& gap_eq(a, b, peo(es, i), pen(es, i), g)
}
/// es are the changes between the first o of a and the first n of b, which are equal since the last change
pub open spec fn es_pre<X>(es: Seq<EditRange>, a: Seq<X>, b: Seq<X>, o: int, n: int) -> bool {
    let g = o - peo(es, es.len() as int);
    &&& forall|i: int| 0 <= i < es.len() ==> #[trigger] er_ok(es, a, b, i)
    &&& g == n - pen(es, es.len() as int) && g >= 0
    &&& gap_eq(a, b, peo(es, es.len() as int), pen(es, es.len() as int), g)
}
pub open spec fn es_ok<X>(es: Seq<EditRange>, a: Seq<X>, b: Seq<X>) -> bool { es_pre(es, a, b, a.len() as int, b.len() as int) }
pub proof fn lemma_es_push(es: Seq<EditRange>, e: EditRange, a: Seq<u64>, b: Seq<u64>)
    requires forall|i: int| 0 <= i < es.len() ==> #[trigger] er_ok(es, a, b, i), er_ok(es.push(e), a, b, es.len() as int),
    ensures forall|i: int| 0 <= i < es.len() + 1 ==> #[trigger] er_ok(es.push(e), a, b, i),
        peo(es.push(e), (es.len() + 1) as int) == e.old.end, pen(es.push(e), (es.len() + 1) as int) == e.new.end,
{
    assert forall|i: int| 0 <= i < es.len() + 1 implies #[trigger] er_ok(es.push(e), a, b, i) by {
        if i < es.len() {
            assert(er_ok(es, a, b, i));
            assert(es.push(e)[i] == es[i]);
            if i > 0 { assert(es.push(e)[i - 1] == es[i - 1]); }
        }
    }
}
pub proof fn lemma_gap_add<X>(a: Seq<X>, b: Seq<X>, o: int, n: int, g: int, h: int)
    requires gap_eq(a, b, o, n, g), gap_eq(a, b, o + g, n + g, h), 0 <= o, 0 <= n, g >= 0, h >= 0,
    ensures gap_eq(a, b, o, n, g + h),
{
    assert(a.subrange(o, o + g + h) =~= a.subrange(o, o + g) + a.subrange(o + g, o + g + h));
    assert(b.subrange(n, n + g + h) =~= b.subrange(n, n + g) + b.subrange(n + g, n + g + h));
}
/// the state of `build_edit_script` at (o, n)
pub open spec fn bes(es: Seq<EditRange>, sc: Option<EditRange>, a: Seq<u64>, b: Seq<u64>, o: int, n: int) -> bool {
    match sc {
        None => es_pre(es, a, b, o, n) && (es.len() > 0 ==> o > peo(es, es.len() as int)),
        Some(s) => {
            &&& forall|i: int| 0 <= i < es.len() ==> #[trigger] er_ok(es, a, b, i)
            &&& er_ok(es.push(s), a, b, es.len() as int)
            &&& s.old.end == o && s.new.end == n
        }
    }
}
/// a script explains how A becomes B
pub open spec fn explains<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, la: Seq<Seq<u8>>, lb: Seq<Seq<u8>>) -> bool {
    exists|m: Map<Seq<u8>, u64>| #[trigger] expl_by(m, s, la, lb)
}
pub open spec fn expl_by<'a, 'b>(m: Map<Seq<u8>, u64>, s: Seq<DiffRange<'a, 'b, [u64]>>, la: Seq<Seq<u8>>, lb: Seq<Seq<u8>>) -> bool {
    inj(m) && known(m, la) && known(m, lb) && full(s, ids(m, la), ids(m, lb))
}
pub open spec fn all_equal<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] is Equal }
pub proof fn lemma_gap_lines(m: Map<Seq<u8>, u64>, la: Seq<Seq<u8>>, lb: Seq<Seq<u8>>, o: int, n: int, g: int)
    requires inj(m), known(m, la), known(m, lb), gap_eq(ids(m, la), ids(m, lb), o, n, g), 0 <= o, 0 <= n, 0 <= g,
    ensures gap_eq(la, lb, o, n, g),
{
    let (a, b) = (ids(m, la), ids(m, lb));
    assert forall|k: int| 0 <= k < g implies #[trigger] la.subrange(o, o + g)[k] == lb.subrange(n, n + g)[k] by {
        assert(a.subrange(o, o + g)[k] == b.subrange(n, n + g)[k]);
        lemma_ids_eq(m, la, lb, o + k, n + k);
    }
    assert(la.subrange(o, o + g) =~= lb.subrange(n, n + g));
}

// ------------------------------------------------------------------ alignment: where every old element is in the new sequence (-1: deleted)
pub open spec fn al1<'a, 'b>(e: DiffRange<'a, 'b, [u64]>, n: int) -> Seq<int> {
    match e {
        DiffRange::Equal(r, _) => Seq::new(r.len as nat, |k: int| n + k),
        DiffRange::Delete(r) => Seq::new(r.len as nat, |k: int| -1int),
        DiffRange::Insert(_) => Seq::empty(),
    }
}
pub open spec fn al<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, n: int) -> Seq<int>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { al(s.drop_last(), n) + al1(s.last(), nend(s.drop_last(), n)) } }
/// x maps every element of a to an equal one of b or to -1, in order
pub open spec fn is_align<X>(x: Seq<int>, a: Seq<X>, b: Seq<X>) -> bool {
    &&& x.len() == a.len()
    &&& forall|i: int| 0 <= i < x.len() ==> -1 <= #[trigger] x[i] < b.len() && (x[i] >= 0 ==> a[i] == b[x[i]])
    &&& forall|i: int, j: int| 0 <= i < j < x.len() && #[trigger] x[i] >= 0 && #[trigger] x[j] >= 0 ==> x[i] < x[j]
}
/// the script `diff_slice` computes, as kinds (0 equal, 1 delete, 2 insert) and lengths: a function of its arguments (the code is deterministic) ...
pub uninterp spec fn shape_of(a: Seq<u64>, b: Seq<u64>, compact: bool) -> Seq<(int, int)>;
/// ... that depends only on which elements are equal (the code is generic over `T: PartialEq`: the extractor checks this)
pub uninterp spec fn script(la: Seq<Seq<u8>>, lb: Seq<Seq<u8>>, compact: bool) -> Seq<(int, int)>;
pub axiom fn axiom_script(m: Map<Seq<u8>, u64>, la: Seq<Seq<u8>>, lb: Seq<Seq<u8>>, compact: bool)
    requires inj(m), known(m, la), known(m, lb),
    ensures shape_of(ids(m, la), ids(m, lb), compact) == script(la, lb, compact);
/// the alignment that a script describes
pub open spec fn sal1(e: (int, int), n: int) -> Seq<int> {
    if e.0 == 0 { Seq::new(e.1 as nat, |k: int| n + k) } else if e.0 == 1 { Seq::new(e.1 as nat, |k: int| -1int) } else { Seq::empty() }
}
pub open spec fn snend(sh: Seq<(int, int)>, n: int) -> int
    decreases sh.len()
{ if sh.len() == 0 { n } else { snend(sh.drop_last(), n) + if sh.last().0 == 1 { 0 } else { sh.last().1 } } }
pub open spec fn sal(sh: Seq<(int, int)>, n: int) -> Seq<int>
    decreases sh.len()
{ if sh.len() == 0 { Seq::empty() } else { sal(sh.drop_last(), n) + sal1(sh.last(), snend(sh.drop_last(), n)) } }
pub open spec fn align(la: Seq<Seq<u8>>, lb: Seq<Seq<u8>>, compact: bool) -> Seq<int> { sal(script(la, lb, compact), 0) }
pub proof fn lemma_sal<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, a: Seq<u64>, b: Seq<u64>, n: int)
    requires okp(s, a, b, 0, 0),
    ensures sal(shape(s), n) == al(s, n), snend(shape(s), n) == nend(s, n),
    decreases s.len(),
{
    if s.len() > 0 {
        assert(okp(s.drop_last(), a, b, 0, 0));
        assert(shape(s).drop_last() =~= shape(s.drop_last()));
        assert(shape(s).last() == sh1(s.last()));
        lemma_sal(s.drop_last(), a, b, n);
        assert(sal1(sh1(s.last()), nend(s.drop_last(), n)) =~= al1(s.last(), nend(s.drop_last(), n)));
    }
}
pub open spec fn sh1<'a, 'b>(e: DiffRange<'a, 'b, [u64]>) -> (int, int) {
    match e { DiffRange::Equal(r, _) => (0, r.len as int), DiffRange::Delete(r) => (1, r.len as int), DiffRange::Insert(r) => (2, r.len as int) }
}
pub open spec fn shape<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>) -> Seq<(int, int)> { s.map_values(|e: DiffRange<'a, 'b, [u64]>| sh1(e)) }
// ------------------------------------------------------------------ C13: the hunks as a function of the script and the lines
/// lines a..b of the old become lines c..d of the new text
pub struct EV { pub a: int, pub b: int, pub c: int, pub d: int }
pub open spec fn ev(e: EditRange) -> EV { EV { a: e.old.start as int, b: e.old.end as int, c: e.new.start as int, d: e.new.end as int } }
pub open spec fn evs(es: Seq<EditRange>) -> Seq<EV> { es.map_values(|e: EditRange| ev(e)) }
pub open spec fn oev(e: Option<EditRange>) -> Option<EV> { match e { Some(e) => Some(ev(e)), None => None } }
pub struct BF { pub es: Seq<EV>, pub sc: Option<EV>, pub a: int, pub b: int }
pub open spec fn opush<X>(s: Seq<X>, x: Option<X>) -> Seq<X> { match x { Some(x) => s.push(x), None => s } }
pub open spec fn bstep1(s: BF, e: (int, int)) -> BF {
    let o = match s.sc { Some(x) => x, None => EV { a: s.a, b: s.a, c: s.b, d: s.b } };
    if e.0 == 0 { BF { es: opush(s.es, s.sc), sc: None, a: s.a + e.1, b: s.b + e.1 } }
    else if e.0 == 1 { BF { es: s.es, sc: Some(EV { b: o.b + e.1, ..o }), a: s.a + e.1, b: s.b } }
    else { BF { es: s.es, sc: Some(EV { d: o.d + e.1, ..o }), a: s.a, b: s.b + e.1 } }
}
pub open spec fn bfold(sh: Seq<(int, int)>) -> BF
    decreases sh.len()
{ if sh.len() == 0 { BF { es: Seq::empty(), sc: None, a: 0, b: 0 } } else { bstep1(bfold(sh.drop_last()), sh.last()) } }
/// the changes of a script
pub open spec fn changes(sh: Seq<(int, int)>) -> Seq<EV> { opush(bfold(sh).es, bfold(sh).sc) }
pub open spec fn mk(k: int, ts: Seq<Seq<u8>>) -> Seq<LV> { ts.map_values(|t: Seq<u8>| LV { k, t }) }
pub open spec fn back(x: int, ctx: int) -> int { if x <= ctx { 0 } else { x - ctx } }
pub open spec fn aft(e: EV, na: int, nb: int, ctx: int) -> int { v3(ctx, na - e.b, nb - e.d) }
/// change i + 1 is in the hunk of change i
pub open spec fn joins(x: Seq<EV>, i: int, na: int, nb: int, ctx: int) -> bool {
    i + 1 < x.len() && back(if x[i + 1].a <= na - 1 { x[i + 1].a } else { na - 1 }, ctx) < x[i].b + aft(x[i], na, nb, ctx)
}
/// the last change in the hunk of change i
pub open spec fn glast(x: Seq<EV>, i: int, na: int, nb: int, ctx: int) -> int
    decreases x.len() - i
{ if joins(x, i, na, nb, ctx) { glast(x, i + 1, na, nb, ctx) } else { i } }
pub open spec fn chg(e: EV, la: Seq<Seq<u8>>, lb: Seq<Seq<u8>>) -> Seq<LV> { mk(1, la.subrange(e.a, e.b)) + mk(2, lb.subrange(e.c, e.d)) }
/// changes i to j - 1, with what lies between them and before change j
pub open spec fn sofar(x: Seq<EV>, i: int, j: int, la: Seq<Seq<u8>>, lb: Seq<Seq<u8>>) -> Seq<LV>
    decreases j - i
{ if j <= i { Seq::empty() } else { sofar(x, i, j - 1, la, lb) + chg(x[j - 1], la, lb) + mk(0, lb.subrange(x[j - 1].d, x[j].c)) } }
/// the hunk of change i, up to change j
pub open spec fn hk(x: Seq<EV>, i: int, j: int, la: Seq<Seq<u8>>, lb: Seq<Seq<u8>>, ctx: int) -> HV {
    let (na, nb) = (la.len() as int, lb.len() as int);
    let (s1, s2) = (back(x[i].a, ctx), back(x[i].c, ctx));
    let k = aft(x[j], na, nb, ctx);
    let (l1, l2) = (x[j].b + k - s1, x[j].d + k - s2);
    HV {
        os: if l1 > 0 { s1 + 1 } else { s1 }, ol: l1, ns: if l2 > 0 { s2 + 1 } else { s2 }, nl: l2, ctx: None,
        lines: mk(0, lb.subrange(s2, x[i].c)) + sofar(x, i, j, la, lb) + chg(x[j], la, lb) + mk(0, lb.subrange(x[j].d, x[j].d + k)),
    }
}
pub proof fn lemma_glast(x: Seq<EV>, i: int, na: int, nb: int, ctx: int)
    ensures glast(x, i, na, nb, ctx) >= i, i < x.len() ==> glast(x, i, na, nb, ctx) < x.len(),
    decreases x.len() - i
{ if joins(x, i, na, nb, ctx) { lemma_glast(x, i + 1, na, nb, ctx); } }
pub proof fn lemma_glast_step(x: Seq<EV>, i: int, na: int, nb: int, ctx: int)
    ensures glast(x, i, na, nb, ctx) == (if joins(x, i, na, nb, ctx) { glast(x, i + 1, na, nb, ctx) } else { i }),
{}
#[via_fn]
proof fn hks_dec(x: Seq<EV>, i: int, la: Seq<Seq<u8>>, lb: Seq<Seq<u8>>, ctx: int) { lemma_glast(x, i, la.len() as int, lb.len() as int, ctx); }
/// the hunks of the changes from i on
pub open spec fn hks(x: Seq<EV>, i: int, la: Seq<Seq<u8>>, lb: Seq<Seq<u8>>, ctx: int) -> Seq<HV>
    decreases x.len() - i via hks_dec
{
    if i >= x.len() { Seq::empty() } else {
        let j = glast(x, i, la.len() as int, lb.len() as int, ctx);
        seq![hk(x, i, j, la, lb, ctx)] + hks(x, j + 1, la, lb, ctx)
    }
}
pub proof fn lemma_mk_push(k: int, s: Seq<Seq<u8>>, i: int)
    requires 0 <= i < s.len(),
    ensures mk(k, s.take(i + 1)) == mk(k, s.take(i)).push(LV { k, t: s[i] }),
{ assert(mk(k, s.take(i + 1)) =~= mk(k, s.take(i)).push(LV { k, t: s[i] })); }
pub proof fn lemma_mk0(k: int, p: Seq<LV>, s: Seq<Seq<u8>>)
    ensures p + mk(k, s.take(0)) == p,
{ assert(p + mk(k, s.take(0)) =~= p); }
pub proof fn lemma_sofar0(p: Seq<LV>, x: Seq<EV>, i: int, la: Seq<Seq<u8>>, lb: Seq<Seq<u8>>, s: Seq<Seq<u8>>)
    ensures mk(0, s.take(s.len() as int)) == mk(0, s) + sofar(x, i, i, la, lb),
{ assert(s.take(s.len() as int) =~= s); assert(mk(0, s) =~= mk(0, s) + sofar(x, i, i, la, lb)); }
pub proof fn lemma_chg(p: Seq<LV>, e: EV, la: Seq<Seq<u8>>, lb: Seq<Seq<u8>>, x: Seq<LV>, y: Seq<LV>, a: Seq<Seq<u8>>, b: Seq<Seq<u8>>)
    requires x == p + mk(1, a.take(a.len() as int)), y == x + mk(2, b.take(b.len() as int)), a == la.subrange(e.a, e.b), b == lb.subrange(e.c, e.d),
    ensures y == p + chg(e, la, lb),
{
    assert(a.take(a.len() as int) =~= a && b.take(b.len() as int) =~= b);
    assert(y =~= p + chg(e, la, lb));
}
pub proof fn lemma_sofar(p: Seq<LV>, x: Seq<EV>, i: int, j: int, la: Seq<Seq<u8>>, lb: Seq<Seq<u8>>, y: Seq<LV>, gap: Seq<Seq<u8>>)
    requires i <= j, y == p + sofar(x, i, j, la, lb) + chg(x[j], la, lb) + mk(0, gap.take(gap.len() as int)), gap == lb.subrange(x[j].d, x[j + 1].c),
    ensures y == p + sofar(x, i, j + 1, la, lb),
{
    assert(gap.take(gap.len() as int) =~= gap);
    assert(y =~= p + sofar(x, i, j + 1, la, lb));
}
pub proof fn lemma_hks_end(p: Seq<HV>, x: Seq<EV>, la: Seq<Seq<u8>>, lb: Seq<Seq<u8>>, ctx: int)
    ensures p + hks(x, x.len() as int, la, lb, ctx) == p,
{ assert(p + hks(x, x.len() as int, la, lb, ctx) =~= p); }
pub proof fn lemma_hks_step(p: Seq<HV>, x: Seq<EV>, i: int, j: int, la: Seq<Seq<u8>>, lb: Seq<Seq<u8>>, ctx: int)
    requires 0 <= i < x.len(), j == glast(x, i, la.len() as int, lb.len() as int, ctx),
    ensures p.push(hk(x, i, j, la, lb, ctx)) + hks(x, j + 1, la, lb, ctx) == p + hks(x, i, la, lb, ctx),
{ assert(p.push(hk(x, i, j, la, lb, ctx)) + hks(x, j + 1, la, lb, ctx) =~= p + hks(x, i, la, lb, ctx)); }
pub proof fn lemma_hk_lines(p: Seq<LV>, x: Seq<EV>, i: int, j: int, la: Seq<Seq<u8>>, lb: Seq<Seq<u8>>, ctx: int, s: Seq<Seq<u8>>)
    requires s == lb.subrange(x[j].d, x[j].d + aft(x[j], la.len() as int, lb.len() as int, ctx)), p == mk(0, lb.subrange(back(x[i].c, ctx), x[i].c)) + sofar(x, i, j, la, lb) + chg(x[j], la, lb),
    ensures hk(x, i, j, la, lb, ctx).lines == p + mk(0, s.take(s.len() as int)),
{ assert(s.take(s.len() as int) =~= s); }
/// the hunks of creating a patch
pub open spec fn hunks_of_texts(o: Seq<u8>, n: Seq<u8>, compact: bool, ctx: int) -> Seq<HV> {
    hks(changes(script(lines(o), lines(n), compact)), 0, lines(o), lines(n), ctx)
}
pub proof fn lemma_al_concat<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, t: Seq<DiffRange<'a, 'b, [u64]>>, n: int)
    ensures al(s + t, n) == al(s, n) + al(t, nend(s, n)),
    decreases t.len(),
{
    if t.len() == 0 { assert(s + t =~= s); assert(al(s, n) + al(t, nend(s, n)) =~= al(s, n)); } else {
        assert((s + t).drop_last() =~= s + t.drop_last());
        assert((s + t).last() == t.last());
        lemma_al_concat(s, t.drop_last(), n);
        lemma_nend_concat(s, t.drop_last(), n);
        assert(al(s + t, n) =~= al(s, n) + al(t, nend(s, n)));
    }
}
pub proof fn lemma_nend_concat<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, t: Seq<DiffRange<'a, 'b, [u64]>>, n: int)
    ensures nend(s + t, n) == nend(t, nend(s, n)),
    decreases t.len(),
{
    if t.len() == 0 { assert(s + t =~= s); } else {
        assert((s + t).drop_last() =~= s + t.drop_last());
        assert((s + t).last() == t.last());
        lemma_nend_concat(s, t.drop_last(), n);
    }
}
/// the alignment of a script is one
pub proof fn lemma_al_ok<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, a: Seq<u64>, b: Seq<u64>)
    requires okp(s, a, b, 0, 0),
    ensures
        al(s, 0).len() == oend(s, 0), 0 <= oend(s, 0) <= a.len(), 0 <= nend(s, 0) <= b.len(),
        forall|i: int| 0 <= i < al(s, 0).len() ==> -1 <= #[trigger] al(s, 0)[i] < nend(s, 0) && (al(s, 0)[i] >= 0 ==> a[i] == b[al(s, 0)[i]]),
        forall|i: int, j: int| 0 <= i < j < al(s, 0).len() && #[trigger] al(s, 0)[i] >= 0 && #[trigger] al(s, 0)[j] >= 0 ==> al(s, 0)[i] < al(s, 0)[j],
    decreases s.len(),
{
    if s.len() > 0 {
        let p = s.drop_last();
        lemma_al_ok(p, a, b);
        let (o, n) = (oend(p, 0), nend(p, 0));
        let x = al1(s.last(), n);
        let y = al(s, 0);
        assert(y == al(p, 0) + x);
        assert(x.len() == ol(s.last()));
        assert forall|i: int| 0 <= i < y.len() implies -1 <= #[trigger] y[i] < nend(s, 0) && (y[i] >= 0 ==> a[i] == b[y[i]]) && (i >= al(p, 0).len() && y[i] >= 0 ==> y[i] == n + (i - o)) by {
            if i < al(p, 0).len() { assert(y[i] == al(p, 0)[i]); } else {
                assert(y[i] == x[i - o]);
                match s.last() {
                    DiffRange::Equal(r1, r2) => { assert(r1.sv()[i - o] == r2.sv()[i - o]); }
                    _ => {}
                }
            }
        }
        assert forall|i: int, j: int| 0 <= i < j < y.len() && #[trigger] y[i] >= 0 && #[trigger] y[j] >= 0 implies y[i] < y[j] by {
            if j < al(p, 0).len() { assert(y[i] == al(p, 0)[i] && y[j] == al(p, 0)[j]); }
            else if i < al(p, 0).len() { assert(y[i] == al(p, 0)[i]); }
        }
    }
}
pub proof fn lemma_is_align<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, a: Seq<u64>, b: Seq<u64>)
    requires full(s, a, b),
    ensures is_align(al(s, 0), a, b),
{ lemma_al_ok(s, a, b); }
/// nothing changed: the identity
pub proof fn lemma_al_equal<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, a: Seq<u64>, b: Seq<u64>)
    requires okp(s, a, b, 0, 0), all_equal(s),
    ensures al(s, 0).len() == oend(s, 0), oend(s, 0) == nend(s, 0), oend(s, 0) >= 0, forall|i: int| 0 <= i < al(s, 0).len() ==> #[trigger] al(s, 0)[i] == i,
    decreases s.len(),
{
    if s.len() > 0 {
        let p = s.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] is Equal by { assert(s[i] is Equal); }
        lemma_al_equal(p, a, b);
        assert(s.last() is Equal) by { assert(s[s.len() - 1] is Equal); }
    }
}

// ------------------------------------------------------------------ C03: exact hunks
pub open spec fn opos(h: HV) -> int { if h.ol > 0 { h.os - 1 } else { h.os } }
pub open spec fn npos(h: HV) -> int { if h.nl > 0 { h.ns - 1 } else { h.ns } }
/// [C03] the hunk lists exactly the lines at its positions
pub open spec fn exact(h: HV, la: Seq<Seq<u8>>, lb: Seq<Seq<u8>>) -> bool {
    &&& h.ol >= 0 && h.nl >= 0 && opos(h) >= 0 && npos(h) >= 0
    &&& opos(h) + h.ol <= la.len() && npos(h) + h.nl <= lb.len()
    &&& pre(h.lines) == la.subrange(opos(h), opos(h) + h.ol)
    &&& post(h.lines) == lb.subrange(npos(h), npos(h) + h.nl)
}
pub open spec fn oe(hs: Seq<HV>) -> int { if hs.len() == 0 { 0 } else { opos(hs.last()) + hs.last().ol } }
pub open spec fn ne(hs: Seq<HV>) -> int { if hs.len() == 0 { 0 } else { npos(hs.last()) + hs.last().nl } }
/// hunks in order, exact, with identical lines between them
pub open spec fn chained(hs: Seq<HV>, la: Seq<Seq<u8>>, lb: Seq<Seq<u8>>) -> bool
    decreases hs.len()
{
    hs.len() == 0 || {
        let p = hs.drop_last();
        let h = hs.last();
        &&& chained(p, la, lb)
        &&& exact(h, la, lb)
        &&& oe(p) <= opos(h) && ne(p) <= npos(h)
        &&& la.subrange(oe(p), opos(h)) == lb.subrange(ne(p), npos(h))
    }
}
/// [C03] hs describe exactly how la becomes lb
pub open spec fn covers(hs: Seq<HV>, la: Seq<Seq<u8>>, lb: Seq<Seq<u8>>) -> bool {
    chained(hs, la, lb) && oe(hs) <= la.len() && ne(hs) <= lb.len() && la.skip(oe(hs)) == lb.skip(ne(hs))
}
// ------------------------------------------------------------------ C04: tight hunks
/// l lines of context at the start, then a change
pub open spec fn lead_is(ls: Seq<LV>, l: int) -> bool { 0 <= l < ls.len() && ls[l].k != 0 && forall|i: int| 0 <= i < l ==> (#[trigger] ls[i]).k == 0 }
pub open spec fn trail_is(ls: Seq<LV>, t: int) -> bool { 0 <= t < ls.len() && ls[ls.len() - 1 - t].k != 0 && forall|i: int| ls.len() - t <= i < ls.len() ==> (#[trigger] ls[i]).k == 0 }
/// no more than w lines of context between two changes
pub open spec fn runs(ls: Seq<LV>, w: int) -> bool {
    forall|i: int, j: int| #[trigger] gap_at(ls, i, j) ==> j - i - 1 <= w
}
/// i and j are neighbouring changes
pub open spec fn gap_at(ls: Seq<LV>, i: int, j: int) -> bool {
    0 <= i < j < ls.len() && ls[i].k != 0 && ls[j].k != 0 && forall|q: int| i < q < j ==> (#[trigger] ls[q]).k == 0
}
/// [C04] at least one change, exactly the requested context around it
pub open spec fn tight_by(h: HV, na: int, nb: int, ctx: int, l: int, t: int) -> bool {
    &&& lead_is(h.lines, l) && trail_is(h.lines, t) && runs(h.lines, 2 * ctx)
    &&& (l == ctx || (l < ctx && opos(h) == 0 && npos(h) == 0))
    &&& (t == ctx || (t < ctx && opos(h) + h.ol == na && npos(h) + h.nl == nb))
}
pub open spec fn tight(h: HV, na: int, nb: int, ctx: int) -> bool { exists|l: int, t: int| #[trigger] tight_by(h, na, nb, ctx, l, t) }
/// lines being collected: `lead` of leading context, ending in t lines of context
pub open spec fn coll(ls: Seq<LV>, lead: int, t: int, ctx: int) -> bool {
    &&& 0 <= t <= ls.len()
    &&& runs(ls, 2 * ctx)
    &&& forall|i: int| ls.len() - t <= i < ls.len() ==> (#[trigger] ls[i]).k == 0
    &&& (t < ls.len() ==> ls[ls.len() - 1 - t].k != 0 && lead_is(ls, lead))
}
pub proof fn lemma_coll_ctx(ls: Seq<LV>, l: LV, lead: int, t: int, ctx: int)
    requires coll(ls, lead, t, ctx), l.k == 0,
    ensures coll(ls.push(l), lead, t + 1, ctx),
{
    let x = ls.push(l);
    assert forall|i: int| 0 <= i < ls.len() implies x[i] == ls[i] by {}
    assert(runs(x, 2 * ctx)) by {
        assert forall|i: int, j: int| #[trigger] gap_at(x, i, j) implies j - i - 1 <= 2 * ctx by {
            assert forall|q: int| i < q < j implies (#[trigger] ls[q]).k == 0 by { assert(x[q].k == 0); }
            assert(gap_at(ls, i, j));
        }
    }
    if t < ls.len() { assert(lead_is(x, lead)) by { assert forall|i: int| 0 <= i < lead implies (#[trigger] x[i]).k == 0 by { assert(ls[i].k == 0); } } }
}
pub proof fn lemma_coll_change(ls: Seq<LV>, l: LV, lead: int, t: int, ctx: int)
    requires coll(ls, lead, t, ctx), l.k != 0, t == ls.len() ==> lead == t, t < ls.len() ==> t <= 2 * ctx,
    ensures coll(ls.push(l), lead, 0, ctx),
{
    let x = ls.push(l);
    let n = ls.len() as int;
    assert forall|i: int| 0 <= i < ls.len() implies x[i] == ls[i] by {}
    assert(runs(x, 2 * ctx)) by {
        assert forall|i: int, j: int| #[trigger] gap_at(x, i, j) implies j - i - 1 <= 2 * ctx by {
            if j < n {
                assert forall|q: int| i < q < j implies (#[trigger] ls[q]).k == 0 by { assert(x[q].k == 0); }
                assert(gap_at(ls, i, j));
            } else {
                if i < n - 1 - t { assert(x[n - 1 - t].k == 0); }
                assert(i >= n - 1 - t);
            }
        }
    }
    assert(lead_is(x, lead)) by {
        assert forall|i: int| 0 <= i < lead implies (#[trigger] x[i]).k == 0 by { assert(ls[i].k == 0); }
    }
}
pub proof fn lemma_push_pp(ls: Seq<LV>, l: LV)
    ensures pre(ls.push(l)) == (if l.k == 2 { pre(ls) } else { pre(ls).push(l.t) }), post(ls.push(l)) == (if l.k == 1 { post(ls) } else { post(ls).push(l.t) }),
{
    assert(ls.push(l).drop_last() =~= ls);
}
pub proof fn lemma_lvs_push<'a, T: Text + ?Sized>(s: Seq<Line<'a, T>>, l: Line<'a, T>)
    ensures lvs(s.push(l)) == lvs(s).push(l.v()),
{ assert(lvs(s.push(l)) =~= lvs(s).push(l.v())); }
/// element i of a script
pub proof fn lemma_at<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, a: Seq<u64>, b: Seq<u64>, i: int)
    requires full(s, a, b), 0 <= i < s.len(),
    ensures elem_ok(s[i], a, b, oend(s.take(i), 0), nend(s.take(i), 0)),
        oend(s.take(i + 1), 0) == oend(s.take(i), 0) + ol(s[i]), nend(s.take(i + 1), 0) == nend(s.take(i), 0) + nl(s[i]),
        0 <= oend(s.take(i), 0), 0 <= nend(s.take(i), 0), oend(s.take(i + 1), 0) <= a.len(), nend(s.take(i + 1), 0) <= b.len(),
{
    assert(s.take(i + 1) + s.skip(i + 1) =~= s);
    lemma_concat(s.take(i + 1), s.skip(i + 1), a, b, 0, 0);
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    lemma_mono(s.take(i), 0, 0);
    lemma_mono(s.skip(i + 1), oend(s.take(i + 1), 0), nend(s.take(i + 1), 0));
}
pub proof fn lemma_mono<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, o: int, n: int)
    ensures oend(s, o) >= o, nend(s, n) >= n,
    decreases s.len(),
{ if s.len() > 0 { lemma_mono(s.drop_last(), o, n); } }

pub proof fn lemma_bes_equal(es: Seq<EditRange>, sc: Option<EditRange>, a: Seq<u64>, b: Seq<u64>, o: int, n: int, g: int)
    requires bes(es, sc, a, b, o, n), gap_eq(a, b, o, n, g), g > 0, 0 <= o, 0 <= n,
    ensures bes(match sc { Some(s) => es.push(s), None => es }, None, a, b, o + g, n + g),
{
    match sc {
        Some(s) => { lemma_es_push(es, s, a, b); }
        None => {
            let i = es.len() as int;
            if i > 0 { assert(er_ok(es, a, b, i - 1)); }
            lemma_gap_add(a, b, peo(es, i), pen(es, i), o - peo(es, i), g);
        }
    }
}
pub open spec fn er(o0: int, o1: int, n0: int, n1: int) -> EditRange { EditRange { old: ops::Range { start: o0 as usize, end: o1 as usize }, new: ops::Range { start: n0 as usize, end: n1 as usize } } }
pub proof fn lemma_bes_change(es: Seq<EditRange>, sc: Option<EditRange>, a: Seq<u64>, b: Seq<u64>, o: int, n: int, d: int, i: int)
    requires bes(es, sc, a, b, o, n), d >= 0, i >= 0, d + i > 0, 0 <= o, 0 <= n, o + d <= a.len() <= LIM, n + i <= b.len() <= LIM,
    ensures (match sc {
        None => bes(es, Some(er(o, o + d, n, n + i)), a, b, o + d, n + i),
        Some(s) => bes(es, Some(er(s.old.start as int, o + d, s.new.start as int, n + i)), a, b, o + d, n + i),
    }),
{
    let k = es.len() as int;
    let x = match sc {
        None => er(o, o + d, n, n + i),
        Some(s) => er(s.old.start as int, o + d, s.new.start as int, n + i),
    };
    if sc is None { if k > 0 { assert(er_ok(es, a, b, k - 1)); } }
    if sc is Some { let s = sc->0; assert(er_ok(es.push(s), a, b, k)); assert(es.push(s)[k] == s); if k > 0 { assert(es.push(s)[k - 1] == es[k - 1]); } }
    assert(es.push(x)[k] == x);
    if k > 0 { assert(es.push(x)[k - 1] == es[k - 1]); }
    assert(er_ok(es.push(x), a, b, k));
}
pub open spec fn bounded<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, a: Seq<u64>, b: Seq<u64>) -> bool { full(s, a, b) && a.len() <= LIM && b.len() <= LIM }

pub open spec fn v3(a: int, b: int, c: int) -> int { let m = if b <= c { b } else { c }; if a <= m { a } else { m } }
// ------------------------------------------------------------------ collecting the lines of a hunk
pub open spec fn lst(ls: Seq<LV>, la: Seq<Seq<u8>>, lb: Seq<Seq<u8>>, s1: int, e1: int, s2: int, e2: int, lead: int, t: int, ctx: int) -> bool {
    &&& 0 <= s1 <= e1 <= la.len() && 0 <= s2 <= e2 <= lb.len()
    &&& pre(ls) == la.subrange(s1, e1) && post(ls) == lb.subrange(s2, e2)
    &&& coll(ls, lead, t, ctx)
}
pub proof fn lemma_ctx(ls: Seq<LV>, l: LV, la: Seq<Seq<u8>>, lb: Seq<Seq<u8>>, s1: int, e1: int, s2: int, e2: int, lead: int, t: int, ctx: int)
    requires lst(ls, la, lb, s1, e1, s2, e2, lead, t, ctx), l.k == 0, e1 < la.len(), e2 < lb.len(), l.t == la[e1], l.t == lb[e2],
    ensures lst(ls.push(l), la, lb, s1, e1 + 1, s2, e2 + 1, lead, t + 1, ctx),
{
    lemma_push_pp(ls, l);
    lemma_coll_ctx(ls, l, lead, t, ctx);
    assert(la.subrange(s1, e1 + 1) =~= la.subrange(s1, e1).push(la[e1]));
    assert(lb.subrange(s2, e2 + 1) =~= lb.subrange(s2, e2).push(lb[e2]));
}
pub proof fn lemma_del(ls: Seq<LV>, l: LV, la: Seq<Seq<u8>>, lb: Seq<Seq<u8>>, s1: int, e1: int, s2: int, e2: int, lead: int, t: int, ctx: int)
    requires lst(ls, la, lb, s1, e1, s2, e2, lead, t, ctx), l.k == 1, e1 < la.len(), l.t == la[e1], t == ls.len() ==> lead == t, t < ls.len() ==> t <= 2 * ctx,
    ensures lst(ls.push(l), la, lb, s1, e1 + 1, s2, e2, lead, 0, ctx),
{
    lemma_push_pp(ls, l);
    lemma_coll_change(ls, l, lead, t, ctx);
    assert(la.subrange(s1, e1 + 1) =~= la.subrange(s1, e1).push(la[e1]));
}
pub proof fn lemma_ins(ls: Seq<LV>, l: LV, la: Seq<Seq<u8>>, lb: Seq<Seq<u8>>, s1: int, e1: int, s2: int, e2: int, lead: int, t: int, ctx: int)
    requires lst(ls, la, lb, s1, e1, s2, e2, lead, t, ctx), l.k == 2, e2 < lb.len(), l.t == lb[e2], t == ls.len() ==> lead == t, t < ls.len() ==> t <= 2 * ctx,
    ensures lst(ls.push(l), la, lb, s1, e1, s2, e2 + 1, lead, 0, ctx),
{
    lemma_push_pp(ls, l);
    lemma_coll_change(ls, l, lead, t, ctx);
    assert(lb.subrange(s2, e2 + 1) =~= lb.subrange(s2, e2).push(lb[e2]));
}
/// the same changes, seen on lines instead of their identities
pub proof fn lemma_es_lines(m: Map<Seq<u8>, u64>, es: Seq<EditRange>, la: Seq<Seq<u8>>, lb: Seq<Seq<u8>>)
    requires inj(m), known(m, la), known(m, lb), es_ok(es, ids(m, la), ids(m, lb)),
    ensures es_ok(es, la, lb),
{
    let (a, b) = (ids(m, la), ids(m, lb));
    assert forall|i: int| 0 <= i < es.len() implies #[trigger] er_ok(es, la, lb, i) by {
        assert(er_ok(es, a, b, i));
        lemma_gap_lines(m, la, lb, peo(es, i), pen(es, i), es[i].old.start - peo(es, i));
    }
    let n = es.len() as int;
    if n > 0 { assert(er_ok(es, a, b, n - 1)); }
    lemma_gap_lines(m, la, lb, peo(es, n), pen(es, n), la.len() - peo(es, n));
}
/// a part of a gap
pub proof fn lemma_gap_part<X>(a: Seq<X>, b: Seq<X>, o: int, n: int, g: int, i: int, k: int)
    requires gap_eq(a, b, o, n, g), 0 <= o, 0 <= n, 0 <= i, 0 <= k, i + k <= g,
    ensures gap_eq(a, b, o + i, n + i, k), k > 0 ==> a[o + i] == b[n + i],
{
    assert(a.subrange(o + i, o + i + k) =~= a.subrange(o, o + g).subrange(i, i + k));
    assert(b.subrange(n + i, n + i + k) =~= b.subrange(n, n + g).subrange(i, i + k));
    if k > 0 { assert(a.subrange(o, o + g)[i] == a[o + i]); assert(b.subrange(n, n + g)[i] == b[n + i]); }
}
/// between two changes of the collection of hunks
pub open spec fn hst(hs: Seq<HV>, es: Seq<EditRange>, i: int, la: Seq<Seq<u8>>, lb: Seq<Seq<u8>>, ctx: int) -> bool {
    let t = oe(hs) - peo(es, i);
    &&& chained(hs, la, lb) && ordered(hs)
    &&& 0 <= i <= es.len()
    &&& (i == 0) == (hs.len() == 0)
    &&& t == ne(hs) - pen(es, i) && 0 <= t <= ctx
    &&& t <= la.len() - peo(es, i)
    &&& (0 < i < es.len() ==> oe(hs) + ctx <= es[i].old.start && ne(hs) + ctx <= es[i].new.start)
}
pub open spec fn ocv<T: Text + ?Sized>(o: Option<Cow<'static, T>>) -> Option<Seq<u8>> { match o { Some(c) => Some(c.cv()), None => None } }
/// [C03, C04] what creating a patch promises
pub open spec fn created(p: PV, o: Seq<u8>, n: Seq<u8>, ctx: int) -> bool {
    &&& covers(p.hunks, lines(o), lines(n)) && ordered(p.hunks)
    &&& forall|i: int| 0 <= i < p.hunks.len() ==> #[trigger] tight(p.hunks[i], lines(o).len() as int, lines(n).len() as int, ctx)
    &&& forall|i: int| 0 <= i < p.hunks.len() ==> (#[trigger] p.hunks[i]).ctx is None
    &&& (p.hunks.len() == 0) == (o == n)
}
pub proof fn lemma_created<'a, 'b, 'c, T: Text + ?Sized>(hs: Seq<Hunk<'c, T>>, sol: Seq<DiffRange<'a, 'b, [u64]>>, m: Map<Seq<u8>, u64>, o: Seq<u8>, n: Seq<u8>, ctx: int)
    requires
        expl_by(m, sol, lines(o), lines(n)), covers(hvs(hs), lines(o), lines(n)), all_equal(sol) ==> hs.len() == 0, ids(m, lines(o)) == ids(m, lines(n)) ==> all_equal(sol),
    ensures (hs.len() == 0) == (o == n),
{
    lemma_lines(o);
    lemma_lines(n);
    if hs.len() == 0 {
        assert(lines(o).skip(0) =~= lines(o) && lines(n).skip(0) =~= lines(n));
    }
}
pub open spec fn t_original() -> Seq<u8> { str_bytes("original") }
pub open spec fn t_modified() -> Seq<u8> { str_bytes("modified") }
pub open spec fn default_patch(o: Seq<u8>, n: Seq<u8>) -> PV { PV { orig: Some(t_original()), modi: Some(t_modified()), hunks: hunks_of_texts(o, n, true, 3) } }
//@ type DiffOptions
//@ type EditRange
//@ fn EditRange::new
    ensures r.old == old__, r.new == new,
//@ fn calc_end
    requires script1_end <= text1_len, script2_end <= text2_len,
    ensures ({
        let (p, q) = (text1_len - script1_end, text2_len - script2_end);
        let m = if p <= q { p } else { q };
        let k = if context_len <= m { context_len as int } else { m };
        r.0 == script1_end + k && r.1 == script2_end + k
    }),
//@ fn build_edit_script
    requires exists|a: Seq<u64>, b: Seq<u64>| #[trigger] bounded(solution@, a, b),
    ensures forall|a: Seq<u64>, b: Seq<u64>| #[trigger] bounded(solution@, a, b) ==> es_ok(r@, a, b),
        all_equal(solution@) ==> r@.len() == 0,
        evs(r@) == changes(shape(solution@)),
//@ ghost build_edit_script start
    let ghost sol = solution@;
//@ ghost build_edit_script loop l0 before
    proof {
        assert forall|a: Seq<u64>, b: Seq<u64>| #[trigger] bounded(sol, a, b) implies bes(edit_script@, script, a, b, 0, 0) by {
            assert(a.subrange(0, 0) =~= b.subrange(0, 0));
        }
        assert(oend(sol.take(0), 0) == 0 && nend(sol.take(0), 0) == 0);
        assert(evs(edit_script@) =~= Seq::<EV>::empty());
        assert(shape(sol).take(0).len() == 0);
    }
//@ loop build_edit_script l0
    invariant
        sol == solution@, s0@ == sol, n0 == sol.len(), i0 <= n0,
        exists|a: Seq<u64>, b: Seq<u64>| #[trigger] bounded(sol, a, b),
        idx_a == oend(sol.take(i0 as int), 0), idx_b == nend(sol.take(i0 as int), 0),
        forall|a: Seq<u64>, b: Seq<u64>| #[trigger] bounded(sol, a, b) ==> bes(edit_script@, script, a, b, idx_a as int, idx_b as int),
        all_equal(sol) ==> edit_script@.len() == 0 && script is None,
        bfold(shape(sol).take(i0 as int)) == (BF { es: evs(edit_script@), sc: oev(script), a: idx_a as int, b: idx_b as int }),
    decreases n0 - i0,
//@ ghost build_edit_script loop l0 start
    let ghost (ga, gb) = choose|a: Seq<u64>, b: Seq<u64>| #[trigger] bounded(sol, a, b);
    let ghost (es1, sc1, ia, ib, ii) = (edit_script@, script, idx_a as int, idx_b as int, i0 - 1);
    proof { lemma_at(sol, ga, gb, ii); if sc1 is Some { assert(es1.push(sc1->0)[es1.len() as int] == sc1->0); } }
//@ ghost build_edit_script loop l0 end
    proof {
        let e = sol[ii];
        assert forall|a: Seq<u64>, b: Seq<u64>| #[trigger] bounded(sol, a, b) implies bes(edit_script@, script, a, b, idx_a as int, idx_b as int) by {
            lemma_at(sol, a, b, ii);
            match e {
                DiffRange::Equal(r1, r2) => { lemma_bes_equal(es1, sc1, a, b, ia, ib, r1.len as int); }
                DiffRange::Delete(r) => { lemma_bes_change(es1, sc1, a, b, ia, ib, r.len as int, 0); }
                DiffRange::Insert(r) => { lemma_bes_change(es1, sc1, a, b, ia, ib, 0, r.len as int); }
            }
        }
        let t = shape(sol).take(ii + 1);
        assert(t.drop_last() =~= shape(sol).take(ii) && t.last() == sh1(e));
        assert(evs(edit_script@) =~= opush(evs(es1), if e is Equal { oev(sc1) } else { None }));
    }
//@ ghost build_edit_script loop l0 after
    let ghost (es2, sc2) = (edit_script@, script);
    proof { assert(sol.take(i0 as int) =~= sol); assert(shape(sol).take(i0 as int) =~= shape(sol)); }
//@ ghost build_edit_script end
    proof {
        assert(evs(r__@) =~= opush(evs(es2), oev(sc2)));
        assert forall|a: Seq<u64>, b: Seq<u64>| #[trigger] bounded(sol, a, b) implies es_ok(r__@, a, b) by {
            if sc2 is Some {
                lemma_es_push(es2, sc2->0, a, b);
                assert(a.subrange(a.len() as int, a.len() as int) =~= b.subrange(b.len() as int, b.len() as int));
            }
        }
    }
//@ fn to_hunks hide=sofar hide=glast hide=hks hide=chg hide=hk hide=mk ty=hunks:Vec<Hunk<'a,T>> ty=lines:Vec<Line<'a,T>>
    requires explains(solution@, lv(lines1@), lv(lines2@)), lines1@.len() <= LIM, lines2@.len() <= LIM,
    ensures covers(hvs(r@), lv(lines1@), lv(lines2@)), ordered(hvs(r@)), all_equal(solution@) ==> r@.len() == 0,
        hvs(r@) == hks(changes(shape(solution@)), 0, lv(lines1@), lv(lines2@), context_len as int), // [C13]
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).inv() && tight(r@[i].v(), lines1@.len() as int, lines2@.len() as int, context_len as int) && r@[i].function_context is None,
//@ ghost to_hunks start
    let ghost (la, lb) = (lv(lines1@), lv(lines2@));
    let ghost m = choose|m: Map<Seq<u8>, u64>| #[trigger] expl_by(m, solution@, la, lb);
    proof { assert(bounded(solution@, ids(m, la), ids(m, lb))); }
//@ ghost to_hunks loop l0 before
    let ghost es = edit_script@;
    let ghost (na, nb, ctx) = (la.len() as int, lb.len() as int, context_len as int);
    proof {
        lemma_es_lines(m, es, la, lb);
        assert(oe(hvs(hunks@)) == 0 && ne(hvs(hunks@)) == 0);
        assert(hvs(hunks@) =~= Seq::<HV>::empty()); assert(Seq::<HV>::empty() + hks(evs(es), 0, la, lb, ctx) =~= hks(evs(es), 0, la, lb, ctx));
    }
//@ loop to_hunks l0
    invariant
        la == lv(lines1@), lb == lv(lines2@), na == la.len(), nb == lb.len(), ctx == context_len, na <= LIM, nb <= LIM, es == edit_script@,
        es_ok(es, la, lb), 0 <= idx <= es.len(), all_equal(solution@) ==> es.len() == 0,
        hst(hvs(hunks@), es, idx as int, la, lb, ctx),
        hvs(hunks@) + hks(evs(es), idx as int, la, lb, ctx) == hks(evs(es), 0, la, lb, ctx), evs(es) == changes(shape(solution@)),
        forall|i: int| 0 <= i < hunks@.len() ==> (#[trigger] hunks@[i]).inv() && tight(hunks@[i].v(), na, nb, ctx) && hunks@[i].function_context is None,
    ensures idx == es.len(),
    decreases es.len() - idx,
//@ ghost to_hunks before let start1
    let ghost (hs0, idx0) = (hvs(hunks@), idx as int);
    let ghost hunks0 = hunks@;
    let ghost xs = evs(es);
    proof { assert(er_ok(es, la, lb, idx0)); assert(script == es[idx0]); if idx0 > 0 { assert(er_ok(es, la, lb, idx0 - 1)); } }
//@ ghost to_hunks before let mut lines
    let ghost (lead, mut tr) = (script.old.start - start1, 0int);
    let ghost (po, pn) = (peo(es, idx0), pen(es, idx0));
    proof {
        assert(lead == script.new.start - start2);
        assert(lead <= ctx && (lead < ctx ==> start1 == 0 && start2 == 0));
        assert(po <= oe(hs0) <= start1 && pn <= ne(hs0) <= start2);
        assert(start1 == back(xs[idx0].a, ctx) && start2 == back(xs[idx0].c, ctx));
    }
//@ ghost to_hunks loop l1 enter
    proof {
        assert(la.subrange(start1 as int, start1 as int) =~= Seq::<Seq<u8>>::empty() && lb.subrange(start2 as int, start2 as int) =~= Seq::<Seq<u8>>::empty());
        assert(lvs(lines@) =~= Seq::<LV>::empty());
        assert(s1@ =~= lines2@.subrange(start2 as int, script.new.start as int));
        assert(lv(s1@) =~= lb.subrange(start2 as int, script.new.start as int));
        lemma_mk0(0, Seq::empty(), lv(s1@)); assert(lvs(lines@) =~= Seq::<LV>::empty() + mk(0, lv(s1@).take(0)));
    }
//@ loop to_hunks l1
    invariant
        es_ok(es, la, lb), 0 <= idx0 < es.len(), er_ok(es, la, lb, idx0), *script == es[idx0],
        la == lv(lines1@), lb == lv(lines2@), po == peo(es, idx0), pn == pen(es, idx0), 0 <= po <= start1 <= script.old.start, 0 <= pn <= start2,
        lead == script.old.start - start1, lead == script.new.start - start2,
        s1@ == lines2@.subrange(start2 as int, script.new.start as int), n1 == s1@.len(), i1 <= n1,
        tr == i1, lvs(lines@).len() == i1, lv(s1@) == lb.subrange(start2 as int, script.new.start as int), lvs(lines@) == mk(0, lv(s1@).take(i1 as int)),
        lst(lvs(lines@), la, lb, start1 as int, start1 + i1, start2 as int, start2 + i1, lead, tr, ctx),
    decreases n1 - i1,
//@ ghost to_hunks loop l1 start
    let ghost lin0 = lines@;
//@ ghost to_hunks loop l1 end
    proof {
        let k = i1 - 1;
        lemma_gap_part(la, lb, po, pn, script.old.start - po, start1 + k - po, 1);
        lemma_lvs_push(lines@.drop_last(), lines@.last());
        assert(lines@ =~= lines@.drop_last().push(lines@.last()));
        assert(lines@.drop_last() =~= lin0);
        lemma_ctx(lvs(lines@.drop_last()), lines@.last().v(), la, lb, start1 as int, start1 + k, start2 as int, start2 + k, lead, tr, ctx);
        lemma_mk_push(0, lv(s1@), k);
        tr = tr + 1;
    }
//@ ghost to_hunks loop l2 before
    let ghost pc = mk(0, lb.subrange(start2 as int, script.new.start as int));
    proof { lemma_sofar0(lvs(lines@), xs, idx0, la, lb, lv(s1@)); }
//@ loop to_hunks l2
    invariant_except_break
        lst(lvs(lines@), la, lb, start1 as int, script.old.start as int, start2 as int, script.new.start as int, lead, tr, ctx),
        tr == lvs(lines@).len() ==> tr == lead, tr < lvs(lines@).len() ==> tr <= 2 * ctx,
        lvs(lines@) == pc + sofar(xs, idx0, idx as int, la, lb), glast(xs, idx as int, na, nb, ctx) == glast(xs, idx0, na, nb, ctx),
    invariant
        xs == evs(es),
        la == lv(lines1@), lb == lv(lines2@), na == la.len(), nb == lb.len(), ctx == context_len, na <= LIM, nb <= LIM, es == edit_script@,
        es_ok(es, la, lb), 0 <= idx0 <= idx < es.len(), *script == es[idx as int], lead >= 0,
        end1 == script.old.end + v3(ctx, na - script.old.end, nb - script.new.end), end2 == script.new.end + v3(ctx, na - script.old.end, nb - script.new.end),
        start1 <= script.old.start, start2 <= script.new.start,
    ensures
        lst(lvs(lines@), la, lb, start1 as int, script.old.end as int, start2 as int, script.new.end as int, lead, 0, ctx), lines@.len() > 0,
        lvs(lines@) == pc + sofar(xs, idx0, idx as int, la, lb) + chg(xs[idx as int], la, lb), glast(xs, idx0, na, nb, ctx) == idx,
        idx + 1 < es.len() ==> end1 + ctx <= es[idx + 1].old.start && end2 + ctx <= es[idx + 1].new.start,
    decreases es.len() - idx,
//@ ghost to_hunks loop l2 start
    proof { assert(er_ok(es, la, lb, idx as int)); if idx + 1 < es.len() { assert(er_ok(es, la, lb, idx + 1)); } }
//@ ghost to_hunks loop l3 enter
    assert(s3@ =~= lines1@.subrange(script.old.start as int, script.old.end as int));
    assert(lv(s3@) =~= la.subrange(script.old.start as int, script.old.end as int));
    let ghost l30 = lvs(lines@);
    proof { lemma_mk0(1, l30, lv(s3@)); }
//@ loop to_hunks l3
    invariant
        la == lv(lines1@), lb == lv(lines2@), s3@ == lines1@.subrange(script.old.start as int, script.old.end as int), n3 == s3@.len(), i3 <= n3,
        lv(s3@) == la.subrange(script.old.start as int, script.old.end as int), lvs(lines@) == l30 + mk(1, lv(s3@).take(i3 as int)),
        script.old.start <= script.old.end <= la.len(),
        lst(lvs(lines@), la, lb, start1 as int, script.old.start + i3, start2 as int, script.new.start as int, lead, tr, ctx),
        tr == lvs(lines@).len() ==> tr == lead, tr < lvs(lines@).len() ==> tr <= 2 * ctx, i3 > 0 ==> tr == 0 && lines@.len() > 0, ctx >= 0,
    decreases n3 - i3,
//@ ghost to_hunks loop l3 start
    let ghost lin0 = lines@;
//@ ghost to_hunks loop l3 end
    proof {
        lemma_lvs_push(lines@.drop_last(), lines@.last());
        assert(lines@ =~= lines@.drop_last().push(lines@.last()));
        assert(lines@.drop_last() =~= lin0);
        lemma_del(lvs(lines@.drop_last()), lines@.last().v(), la, lb, start1 as int, script.old.start + i3 - 1, start2 as int, script.new.start as int, lead, tr, ctx);
        lemma_mk_push(1, lv(s3@), i3 - 1);
        assert(lvs(lines@) =~= l30 + mk(1, lv(s3@).take(i3 as int)));
        tr = 0;
    }
//@ ghost to_hunks loop l4 enter
    assert(s4@ =~= lines2@.subrange(script.new.start as int, script.new.end as int));
    assert(lv(s4@) =~= lb.subrange(script.new.start as int, script.new.end as int));
    let ghost l40 = lvs(lines@);
    proof { lemma_mk0(2, l40, lv(s4@)); }
//@ loop to_hunks l4
    invariant
        la == lv(lines1@), lb == lv(lines2@), s4@ == lines2@.subrange(script.new.start as int, script.new.end as int), n4 == s4@.len(), i4 <= n4,
        lv(s4@) == lb.subrange(script.new.start as int, script.new.end as int), lvs(lines@) == l40 + mk(2, lv(s4@).take(i4 as int)),
        script.new.start <= script.new.end <= lb.len(), script.old.start <= script.old.end <= la.len(),
        lst(lvs(lines@), la, lb, start1 as int, script.old.end as int, start2 as int, script.new.start + i4, lead, tr, ctx),
        tr == lvs(lines@).len() ==> tr == lead, tr < lvs(lines@).len() ==> tr <= 2 * ctx, (i4 > 0 || script.old.start < script.old.end) ==> tr == 0 && lines@.len() > 0, ctx >= 0,
    decreases n4 - i4,
//@ ghost to_hunks loop l4 start
    let ghost lin0 = lines@;
//@ ghost to_hunks loop l4 end
    proof {
        lemma_lvs_push(lines@.drop_last(), lines@.last());
        assert(lines@ =~= lines@.drop_last().push(lines@.last()));
        assert(lines@.drop_last() =~= lin0);
        lemma_ins(lvs(lines@.drop_last()), lines@.last().v(), la, lb, start1 as int, script.old.end as int, start2 as int, script.new.start + i4 - 1, lead, tr, ctx);
        lemma_mk_push(2, lv(s4@), i4 - 1);
        assert(lvs(lines@) =~= l40 + mk(2, lv(s4@).take(i4 as int)));
        tr = 0;
    }
//@ ghost to_hunks loop l4 after
    let ghost l50 = lvs(lines@);
    proof {
        lemma_glast_step(xs, idx as int, na, nb, ctx);
        lemma_chg(l30, xs[idx as int], la, lb, l40, l50, lv(s3@), lv(s4@));
    }
//@ ghost to_hunks loop l5 enter
    let ghost gap = lb.subrange(script.new.end as int, s.new.start as int);
    proof { lemma_mk0(0, l50, gap); }
//@ loop to_hunks l5
    invariant
        gap == lb.subrange(script.new.end as int, s.new.start as int), lvs(lines@) == l50 + mk(0, gap.take(i5 as int)),
        la == lv(lines1@), lb == lv(lines2@), na == la.len(), nb == lb.len(), es_ok(es, la, lb), 0 <= idx, idx + 1 < es.len(), *script == es[idx as int], *s == es[idx + 1],
        er_ok(es, la, lb, idx as int), er_ok(es, la, lb, idx + 1),
        lo5 == script.old.end, lo5_1 == script.new.end, n5 == s.old.start - script.old.end, n5 == s.new.start - script.new.end, i5 <= n5,
        tr == i5, tr < lvs(lines@).len(),
        lst(lvs(lines@), la, lb, start1 as int, script.old.end + i5, start2 as int, script.new.end + i5, lead, tr, ctx),
    decreases n5 - i5,
//@ ghost to_hunks loop l5 start
    let ghost lin0 = lines@;
//@ ghost to_hunks loop l5 end
    proof {
        let k = i5 - 1;
        lemma_gap_part(la, lb, script.old.end as int, script.new.end as int, n5 as int, k, 1);
        lemma_lvs_push(lines@.drop_last(), lines@.last());
        assert(lines@ =~= lines@.drop_last().push(lines@.last()));
        assert(lines@.drop_last() =~= lin0);
        lemma_ctx(lvs(lines@.drop_last()), lines@.last().v(), la, lb, start1 as int, script.old.end + k, start2 as int, script.new.end + k, lead, tr, ctx);
        lemma_mk_push(0, gap, k);
        assert(lvs(lines@) =~= l50 + mk(0, gap.take(i5 as int)));
        tr = tr + 1;
    }
//@ ghost to_hunks loop l5 after
    proof {
        assert(joins(xs, idx as int, na, nb, ctx));
        lemma_glast_step(xs, idx as int, na, nb, ctx);
        lemma_sofar(pc, xs, idx0, idx as int, la, lb, lvs(lines@), gap);
    }
//@ ghost to_hunks loop l6 enter
    let ghost l60 = lvs(lines@);
    assert(lv(s6@) =~= lb.subrange(script.new.end as int, end2 as int));
    proof { lemma_mk0(0, l60, lv(s6@)); }
    let ghost k6 = idx as int;
    let ghost (q1, q2) = (script.old.end as int, script.new.end as int);
    let ghost rem = (if k6 + 1 < es.len() { es[k6 + 1].old.start as int } else { na }) - q1;
    proof {
        tr = 0;
        assert(er_ok(es, la, lb, k6));
        if k6 + 1 < es.len() { assert(er_ok(es, la, lb, k6 + 1)); }
        assert(gap_eq(la, lb, q1, q2, rem));
        assert(end1 - q1 <= rem);
        assert(s6@ =~= lines2@.subrange(script.new.end as int, end2 as int));
    }
//@ loop to_hunks l6
    invariant
        la == lv(lines1@), lb == lv(lines2@), gap_eq(la, lb, q1, q2, rem), 0 <= q1, 0 <= q2, end2 - q2 <= rem, q2 <= end2,
        s6@ == lines2@.subrange(q2, end2 as int), n6 == s6@.len(), i6 <= n6, tr == i6, tr < lvs(lines@).len(),
        lv(s6@) == lb.subrange(q2, end2 as int), lvs(lines@) == l60 + mk(0, lv(s6@).take(i6 as int)),
        lst(lvs(lines@), la, lb, start1 as int, q1 + i6, start2 as int, q2 + i6, lead, tr, ctx),
    decreases n6 - i6,
//@ ghost to_hunks loop l6 start
    let ghost lin0 = lines@;
//@ ghost to_hunks loop l6 end
    proof {
        let k = i6 - 1;
        lemma_gap_part(la, lb, q1, q2, rem, k, 1);
        lemma_lvs_push(lines@.drop_last(), lines@.last());
        assert(lines@ =~= lines@.drop_last().push(lines@.last()));
        assert(lines@.drop_last() =~= lin0);
        lemma_ctx(lvs(lines@.drop_last()), lines@.last().v(), la, lb, start1 as int, q1 + k, start2 as int, q2 + k, lead, tr, ctx);
        lemma_mk_push(0, lv(s6@), k);
        assert(lvs(lines@) =~= l60 + mk(0, lv(s6@).take(i6 as int)));
        tr = tr + 1;
    }
//@ ghost to_hunks before let len1
    let ghost lines0 = lvs(lines@);
//@ ghost to_hunks after hunks.push
    proof {
        let h = hunks@.last();
        let hv = h.v();
        assert(hunks@ =~= hunks0.push(h));
        assert(hvs(hunks@).drop_last() =~= hs0);
        assert(hvs(hunks@).last() == hv);
        assert(opos(hv) == start1 && npos(hv) == start2);
        assert(exact(hv, la, lb));
        lemma_hk_lines(l60, xs, idx0, k6, la, lb, ctx, lv(s6@));
        assert(hv == hk(xs, idx0, k6, la, lb, ctx)) by { reveal(hk); }
        assert(hvs(hunks@) =~= hs0.push(hv));
        lemma_hks_step(hs0, xs, idx0, k6, la, lb, ctx);
        assert(tight_by(hv, na, nb, ctx, lead, tr));
        lemma_gap_part(la, lb, po, pn, es[idx0].old.start - po, oe(hs0) - po, start1 - oe(hs0));
        assert(chained(hvs(hunks@), la, lb));
        if hs0.len() > 0 {
            let q = hs0.last();
            assert(q.os + q.ol <= oe(hs0) + 1 && q.ns + q.nl <= ne(hs0) + 1);
            assert(q.os + q.ol <= hv.os && q.ns + q.nl <= hv.ns);
        }
        assert(ordered(hvs(hunks@))) by {
            let x = hvs(hunks@);
            assert forall|i: int| 0 <= i < x.len() - 1 implies (#[trigger] x[i]).os + x[i].ol <= x[i + 1].os && x[i].ns + x[i].nl <= x[i + 1].ns by {
                if i < hs0.len() - 1 { assert(hs0[i].os + hs0[i].ol <= hs0[i + 1].os); }
                else { assert(x[i] == hs0.last() && x[i + 1] == hv); }
            }
        }
    }
//@ ghost to_hunks end
    proof {
        let hs = hvs(r__@);
        lemma_hks_end(hs, evs(es), la, lb, ctx);
        let n = es.len() as int;
        if n > 0 { assert(er_ok(es, la, lb, n - 1)); }
        lemma_gap_part(la, lb, peo(es, n), pen(es, n), la.len() - peo(es, n), oe(hs) - peo(es, n), la.len() - oe(hs));
        assert(la.skip(oe(hs)) =~= la.subrange(oe(hs), la.len() as int));
        assert(lb.skip(ne(hs)) =~= lb.subrange(ne(hs), lb.len() as int));
    }
//@ fn cow_str_to_bytes
    ensures r.cv() == cow.cv(),
//@ fn DiffOptions::diff_slice generic=PartialEq
    requires old__@.len() <= LIM, new@.len() <= LIM,
    ensures full(r@, old__@, new@), old__@ == new@ ==> all_equal(r@),
        shape(r@) == shape_of(old__@, new@, self.compact),
//@ ghost DiffOptions::diff_slice start
    assert(old__@.len() == spec_slice_len(old__) && new@.len() == spec_slice_len(new));
//@ ghost DiffOptions::diff_slice end
    // a deterministic function of its arguments
    assume(shape(r__@) == shape_of(old__@, new@, self.compact));
//@ ghost DiffOptions::diff_slice after let mut solution
    let ghost s0 = solution@;
    proof { assert(full(s0, old__@, new@)); }
//@ fn Default@DiffOptions::default
    ensures r.context_len == 3, r.compact, ocv(r.original_filename) == Some(t_original()), ocv(r.modified_filename) == Some(t_modified()),
//@ fn DiffOptions::new
    ensures r.context_len == 3, r.compact, ocv(r.original_filename) == Some(t_original()), ocv(r.modified_filename) == Some(t_modified()),
//@ fn DiffOptions::create_patch
    ensures created(r.v(), str_bytes(original), str_bytes(modified), self.context_len as int), r.inv(),
        r.v().hunks == hunks_of_texts(str_bytes(original), str_bytes(modified), self.compact, self.context_len as int), // [C13]
        r.v().orig == ocv(self.original_filename), r.v().modi == ocv(self.modified_filename),
//@ fn DiffOptions::create_patch_bytes
    ensures created(r.v(), original@, modified@, self.context_len as int), r.inv(),
        r.v().hunks == hunks_of_texts(original@, modified@, self.compact, self.context_len as int), // [C13]
        r.v().orig == ocv(self.original_filename), r.v().modi == ocv(self.modified_filename),
//@ fn create_patch
    ensures created(r.v(), str_bytes(original), str_bytes(modified), 3), r.inv(),
        r.v() == default_patch(str_bytes(original), str_bytes(modified)), // [C13]
//@ fn create_patch_bytes
    ensures created(r.v(), original@, modified@, 3), r.inv(),
        r.v() == default_patch(original@, modified@), // [C13]
//@ ghost DiffOptions::create_patch after let (old_lines, old_ids)
    let ghost m1 = classifier.m();
//@ ghost DiffOptions::create_patch before let solution
    let ghost (la, lb) = (lines(original.tv()), lines(modified.tv()));
    let ghost m = classifier.m();
    proof {
        lemma_ids_sub(m1, m, la);
        assert(lv(old_lines@) == la && lv(new_lines@) == lb);
        assert(old_lines@.len() == la.len() && new_lines@.len() == lb.len());
        assert(old_ids@ == ids(m, la) && new_ids@ == ids(m, lb));
    }
//@ ghost DiffOptions::create_patch after let solution
    proof { assert(expl_by(m, solution@, la, lb)); axiom_script(m, la, lb, self.compact); }
//@ ghost DiffOptions::create_patch after let hunks
    proof { lemma_created(hunks@, solution@, m, original.tv(), modified.tv(), self.context_len as int); }
//@ ghost DiffOptions::create_patch_bytes after let (old_lines, old_ids)
    let ghost m1 = classifier.m();
//@ ghost DiffOptions::create_patch_bytes before let solution
    let ghost (la, lb) = (lines(original.tv()), lines(modified.tv()));
    let ghost m = classifier.m();
    proof {
        lemma_ids_sub(m1, m, la);
        assert(lv(old_lines@) == la && lv(new_lines@) == lb);
        assert(old_lines@.len() == la.len() && new_lines@.len() == lb.len());
        assert(old_ids@ == ids(m, la) && new_ids@ == ids(m, lb));
    }
//@ ghost DiffOptions::create_patch_bytes after let solution
    proof { assert(expl_by(m, solution@, la, lb)); axiom_script(m, la, lb, self.compact); }
//@ ghost DiffOptions::create_patch_bytes after let hunks
    proof { lemma_created(hunks@, solution@, m, original.tv(), modified.tv(), self.context_len as int); }
//@ fn DiffOptions::set_context_len
    ensures r.context_len == context_len, r.original_filename == old(self).original_filename, r.modified_filename == old(self).modified_filename, *final(r) == *final(self),
//@ fn DiffOptions::set_original_filename
    ensures r.context_len == old(self).context_len, r.modified_filename == old(self).modified_filename, ocv(r.original_filename) == Some(filename.iv()), *final(r) == *final(self),
//@ fn DiffOptions::set_modified_filename
    ensures r.context_len == old(self).context_len, r.original_filename == old(self).original_filename, ocv(r.modified_filename) == Some(filename.iv()), *final(r) == *final(self),
