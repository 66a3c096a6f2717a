//@ source diff/cleanup.rs
//@ inst PartialEq=u64 SliceLike=[u64]
//@ raw
use super::*;
use super::range::*;

pub open spec fn kind<'a, 'b>(e: DiffRange<'a, 'b, [u64]>) -> int {
    match e { DiffRange::Equal(_, _) => 0, DiffRange::Delete(_) => 1, DiffRange::Insert(_) => 2 }
}
/// weight 0: number of equal elements; weight k: whether the element is of kind k
pub open spec fn w<'a, 'b>(e: DiffRange<'a, 'b, [u64]>, k: int) -> int {
    if k == 0 { match e { DiffRange::Equal(r, _) => r.len as int, _ => 0 } } else if kind(e) == k { 1 } else { 0 }
}
pub open spec fn wsum<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, k: int) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { wsum(s.drop_last(), k) + w(s.last(), k) } }
pub open spec fn before<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, p: int, k: int) -> int { wsum(s.subrange(0, p), k) }
pub open spec fn after<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, p: int, k: int) -> int { wsum(s.subrange(p + 1, s.len() as int), k) }

pub proof fn lemma_wsum<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, t: Seq<DiffRange<'a, 'b, [u64]>>, k: int)
    ensures wsum(s + t, k) == wsum(s, k) + wsum(t, k), wsum(s, k) >= 0, wsum(t, k) >= 0,
    decreases s.len() + t.len()
{
    if t.len() == 0 {
        assert(s + t =~= s);
        if s.len() > 0 { lemma_wsum(s.drop_last(), t, k); }
    } else {
        assert((s + t).drop_last() =~= s + t.drop_last());
        lemma_wsum(s, t.drop_last(), k);
    }
}
pub proof fn lemma_wsum1<'a, 'b>(e: DiffRange<'a, 'b, [u64]>, k: int)
    ensures wsum(seq![e], k) == w(e, k),
{
    assert(seq![e].drop_last() =~= Seq::<DiffRange<'a, 'b, [u64]>>::empty());
    assert(wsum(seq![e].drop_last(), k) == 0);
}

/// s is an edit script between some pair of sequences
pub open spec fn valid<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>) -> bool { exists|a: Seq<u64>, b: Seq<u64>| full(s, a, b) }

pub proof fn lemma_unique_rec<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, a: Seq<u64>, b: Seq<u64>, a2: Seq<u64>, b2: Seq<u64>, o: int, n: int)
    requires okp(s, a, b, o, n), okp(s, a2, b2, o, n),
    ensures oend(s, o) == o || a == a2, nend(s, n) == n || b == b2,
    decreases s.len()
{
    if s.len() > 0 { lemma_unique_rec(s.drop_last(), a, b, a2, b2, o, n); }
}
pub proof fn lemma_unique<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, a: Seq<u64>, b: Seq<u64>, a2: Seq<u64>, b2: Seq<u64>)
    requires full(s, a, b), full(s, a2, b2),
    ensures a == a2, b == b2,
{
    lemma_unique_rec(s, a, b, a2, b2, 0, 0);
    if a.len() == 0 { assert(a =~= a2); }
    if b.len() == 0 { assert(b =~= b2); }
}

/// positions of the elements of a script
pub proof fn lemma_mono<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, a: Seq<u64>, b: Seq<u64>, o: int, n: int)
    requires okp(s, a, b, o, n),
    ensures oend(s, o) >= o, nend(s, n) >= n,
    decreases s.len()
{
    if s.len() > 0 { lemma_mono(s.drop_last(), a, b, o, n); }
}
pub open spec fn bo<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, i: int) -> int { oend(s.subrange(0, i), 0) }
pub open spec fn bn<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, i: int) -> int { nend(s.subrange(0, i), 0) }
pub proof fn lemma_elem<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, a: Seq<u64>, b: Seq<u64>, i: int)
    requires full(s, a, b), 0 <= i < s.len(),
    ensures
        elem_ok(s[i], a, b, bo(s, i), bn(s, i)), bo(s, i + 1) == bo(s, i) + ol(s[i]), bn(s, i + 1) == bn(s, i) + nl(s[i]),
        bo(s, i) >= 0, bn(s, i) >= 0,
{
    let t = s.subrange(0, i + 1);
    assert(t + s.subrange(i + 1, s.len() as int) =~= s);
    lemma_concat(t, s.subrange(i + 1, s.len() as int), a, b, 0, 0);
    assert(t.drop_last() =~= s.subrange(0, i));
    assert(okp(t, a, b, 0, 0));
    lemma_mono(s.subrange(0, i), a, b, 0, 0);
}
/// replacing the elements i..i+c of s by `mid`
pub proof fn lemma_replace<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, t: Seq<DiffRange<'a, 'b, [u64]>>, mid: Seq<DiffRange<'a, 'b, [u64]>>, a: Seq<u64>, b: Seq<u64>, i: int, c: int)
    requires
        full(s, a, b), 0 <= i, 0 <= c, i + c <= s.len(),
        t == s.subrange(0, i) + mid + s.subrange(i + c, s.len() as int),
        ok(mid, a, b, bo(s, i), bn(s, i), bo(s, i + c), bn(s, i + c)),
    ensures full(t, a, b),
{
    let pre = s.subrange(0, i);
    let smid = s.subrange(i, i + c);
    let post = s.subrange(i + c, s.len() as int);
    assert(pre + smid + post =~= s);
    assert(pre + smid =~= s.subrange(0, i + c));
    lemma_concat(pre + smid, post, a, b, 0, 0);
    lemma_concat(pre, smid, a, b, 0, 0);
    lemma_concat(pre, mid, a, b, 0, 0);
    lemma_concat(pre + mid, post, a, b, 0, 0);
}
pub proof fn lemma_two<'a, 'b>(x: DiffRange<'a, 'b, [u64]>, y: DiffRange<'a, 'b, [u64]>, a: Seq<u64>, b: Seq<u64>, o: int, n: int)
    requires elem_ok(x, a, b, o, n), elem_ok(y, a, b, o + ol(x), n + nl(x)),
    ensures ok(seq![x, y], a, b, o, n, o + ol(x) + ol(y), n + nl(x) + nl(y)),
{
    lemma_one(x, a, b, o, n);
    lemma_one(y, a, b, o + ol(x), n + nl(x));
    lemma_join(seq![x], seq![y], a, b, o, n, o + ol(x), n + nl(x), o + ol(x) + ol(y), n + nl(x) + nl(y));
    assert(seq![x] + seq![y] =~= seq![x, y]);
}
pub proof fn lemma_three<'a, 'b>(x: DiffRange<'a, 'b, [u64]>, y: DiffRange<'a, 'b, [u64]>, z: DiffRange<'a, 'b, [u64]>, a: Seq<u64>, b: Seq<u64>, o: int, n: int)
    requires elem_ok(x, a, b, o, n), elem_ok(y, a, b, o + ol(x), n + nl(x)), elem_ok(z, a, b, o + ol(x) + ol(y), n + nl(x) + nl(y)),
    ensures ok(seq![x, y, z], a, b, o, n, o + ol(x) + ol(y) + ol(z), n + nl(x) + nl(y) + nl(z)),
{
    lemma_one(z, a, b, o + ol(x) + ol(y), n + nl(x) + nl(y));
    lemma_two(x, y, a, b, o, n);
    lemma_join(seq![x, y], seq![z], a, b, o, n, o + ol(x) + ol(y), n + nl(x) + nl(y), o + ol(x) + ol(y) + ol(z), n + nl(x) + nl(y) + nl(z));
    assert(seq![x, y] + seq![z] =~= seq![x, y, z]);
}
pub open spec fn mk1<'a, 'b>(x: DiffRange<'a, 'b, [u64]>, keep: bool) -> Seq<DiffRange<'a, 'b, [u64]>> { if keep { seq![x] } else { Seq::empty() } }

pub proof fn lemma_ba<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, p: int, k: int)
    requires 0 <= p < s.len(),
    ensures
        before(s, p + 1, k) == before(s, p, k) + w(s[p], k), before(s, p, k) >= 0, after(s, p, k) >= 0,
        p + 1 < s.len() ==> after(s, p, k) == w(s[p + 1], k) + after(s, p + 1, k) && after(s, p + 1, k) >= 0,
{
    assert(s.subrange(0, p + 1).drop_last() =~= s.subrange(0, p));
    lemma_wsum(s.subrange(0, p), s.subrange(p + 1, s.len() as int), k);
    if p + 1 < s.len() {
        assert(s.subrange(p + 1, s.len() as int) =~= seq![s[p + 1]] + s.subrange(p + 2, s.len() as int));
        lemma_wsum(seq![s[p + 1]], s.subrange(p + 2, s.len() as int), k);
        lemma_wsum1(s[p + 1], k);
    }
}
/// equal contents, pointwise
pub proof fn lemma_sv<'a, 'b>(r1: Range<'a, [u64]>, r2: Range<'b, [u64]>)
    requires r1.fits(), r2.fits(), r1.len == r2.len, forall|i: int| 0 <= i < r1.len ==> #[trigger] r1.sv()[i] == r2.sv()[i],
    ensures r1.sv() == r2.sv(),
{
    assert(r1.sv() =~= r2.sv());
}
pub open spec fn is_sub<'a>(r: Range<'a, [u64]>, a: Seq<u64>, off: int, len: int) -> bool {
    r.inner@ == a && r.offset == off && r.len == len
}

/// the change at p moves up by sl elements of the Equal before it
pub proof fn lemma_up<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, t: Seq<DiffRange<'a, 'b, [u64]>>, p: int, q: int, sl: int, e: DiffRange<'a, 'b, [u64]>, x: DiffRange<'a, 'b, [u64]>, z: DiffRange<'a, 'b, [u64]>, a: Seq<u64>, b: Seq<u64>)
    requires
        full(s, a, b), 1 <= p < s.len(), s[p - 1] is Equal, !(s[p] is Equal), 0 < sl,
        match (s[p], s[p - 1]) {
            (DiffRange::Insert(r), DiffRange::Equal(e1, _)) => is_csl(r.sv(), e1.sv(), sl),
            (DiffRange::Delete(r), DiffRange::Equal(_, e2)) => is_csl(r.sv(), e2.sv(), sl),
            _ => true,
        },
        e is Equal, z is Equal, kind(x) == kind(s[p]),
        is_sub(e->Equal_0, a, s[p - 1]->Equal_0.lo(), s[p - 1]->Equal_0.len - sl),
        is_sub(e->Equal_1, b, s[p - 1]->Equal_1.lo(), s[p - 1]->Equal_1.len - sl),
        match (s[p], x) {
            (DiffRange::Insert(r), DiffRange::Insert(y)) => is_sub(y, b, r.offset - sl, r.len as int),
            (DiffRange::Delete(r), DiffRange::Delete(y)) => is_sub(y, a, r.offset - sl, r.len as int),
            _ => true,
        },
        ({
            let had = p + 1 < s.len() && s[p + 1] is Equal;
            let ql = if had { s[p + 1]->Equal_0.len as int } else { 0int };
            &&& is_sub(z->Equal_0, a, s[p - 1]->Equal_0.hi() + ol(s[p]) - sl, ql + sl)
            &&& is_sub(z->Equal_1, b, s[p - 1]->Equal_1.hi() + nl(s[p]) - sl, ql + sl)
            &&& t == s.subrange(0, p - 1) + (mk1(e, s[p - 1]->Equal_0.len > sl) + seq![x, z]) + s.subrange(if had { p + 2 } else { p + 1 }, s.len() as int)
            &&& q == (if s[p - 1]->Equal_0.len > sl { p } else { p - 1 })
        }),
    ensures
        full(t, a, b), 0 <= q < t.len(), t[q] == x,
        0 <= before(t, q, 0) < before(s, p, 0), after(t, q, kind(x)) == after(s, p, kind(x)),
{
    let had = p + 1 < s.len() && s[p + 1] is Equal;
    let c = if had { 3int } else { 2 };
    let keep = s[p - 1]->Equal_0.len > sl;
    lemma_elem(s, a, b, p - 1);
    lemma_elem(s, a, b, p);
    if had { lemma_elem(s, a, b, p + 1); }
    let (o, n) = (bo(s, p - 1), bn(s, p - 1));
    let (e1, e2) = (s[p - 1]->Equal_0, s[p - 1]->Equal_1);
    let l = e1.len as int;
    // the moved element
    assert(x.own().fits());
    let (z1, z2) = (z->Equal_0, z->Equal_1);
    assert(z1.fits() && z2.fits());
    assert forall|i: int| 0 <= i < z1.len implies #[trigger] z1.sv()[i] == z2.sv()[i] by {
        if i < sl {
            match s[p] {
                DiffRange::Insert(r) => {
                    assert(r.sv()[r.len - sl + i] == e1.sv()[l - sl + i]);
                    assert(z1.sv()[i] == e1.sv()[l - sl + i]);
                    assert(z2.sv()[i] == r.sv()[r.len - sl + i]);
                }
                DiffRange::Delete(r) => {
                    assert(r.sv()[r.len - sl + i] == e2.sv()[l - sl + i]);
                    assert(z2.sv()[i] == e2.sv()[l - sl + i]);
                    assert(z1.sv()[i] == r.sv()[r.len - sl + i]);
                }
                _ => {}
            }
        } else {
            assert(s[p + 1]->Equal_0.sv()[i - sl] == s[p + 1]->Equal_1.sv()[i - sl]);
        }
    }
    lemma_sv(z1, z2);
    if keep {
        let (f1, f2) = (e->Equal_0, e->Equal_1);
        assert forall|i: int| 0 <= i < f1.len implies #[trigger] f1.sv()[i] == f2.sv()[i] by {
            assert(e1.sv()[i] == e2.sv()[i]);
        }
        lemma_sv(f1, f2);
        lemma_three(e, x, z, a, b, o, n);
        assert(mk1(e, keep) + seq![x, z] =~= seq![e, x, z]);
    } else {
        lemma_two(x, z, a, b, o, n);
        assert(mk1(e, keep) + seq![x, z] =~= seq![x, z]);
    }
    lemma_replace(s, t, mk1(e, keep) + seq![x, z], a, b, p - 1, c);
    // measures
    lemma_ba(s, p - 1, 0);
    let pre = s.subrange(0, p - 1);
    let post = s.subrange(if had { p + 2 } else { p + 1 }, s.len() as int);
    if keep {
        assert(t.subrange(0, p) =~= pre.push(e));
        assert(pre.push(e).drop_last() =~= pre);
    } else {
        assert(t.subrange(0, p - 1) =~= pre);
    }
    assert(t.subrange(q + 1, t.len() as int) =~= seq![z] + post);
    lemma_wsum(seq![z], post, kind(x));
    lemma_wsum1(z, kind(x));
    if had { lemma_ba(s, p, kind(x)); }
}
/// the same, from the updates the code makes
pub proof fn lemma_up_at<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, d: Seq<DiffRange<'a, 'b, [u64]>>, t: Seq<DiffRange<'a, 'b, [u64]>>, p: int, q: int, sl: int, e: DiffRange<'a, 'b, [u64]>, x: DiffRange<'a, 'b, [u64]>, z: DiffRange<'a, 'b, [u64]>, a: Seq<u64>, b: Seq<u64>)
    requires
        full(s, a, b), 1 <= p < s.len(), s[p - 1] is Equal, !(s[p] is Equal), 0 < sl,
        match (s[p], s[p - 1]) {
            (DiffRange::Insert(r), DiffRange::Equal(e1, _)) => is_csl(r.sv(), e1.sv(), sl),
            (DiffRange::Delete(r), DiffRange::Equal(_, e2)) => is_csl(r.sv(), e2.sv(), sl),
            _ => true,
        },
        e is Equal, z is Equal, kind(x) == kind(s[p]),
        is_sub(e->Equal_0, a, s[p - 1]->Equal_0.lo(), s[p - 1]->Equal_0.len - sl),
        is_sub(e->Equal_1, b, s[p - 1]->Equal_1.lo(), s[p - 1]->Equal_1.len - sl),
        match (s[p], x) {
            (DiffRange::Insert(r), DiffRange::Insert(y)) => is_sub(y, b, r.offset - sl, r.len as int),
            (DiffRange::Delete(r), DiffRange::Delete(y)) => is_sub(y, a, r.offset - sl, r.len as int),
            _ => true,
        },
        ({
            let had = p + 1 < s.len() && s[p + 1] is Equal;
            let ql = if had { s[p + 1]->Equal_0.len as int } else { 0int };
            &&& is_sub(z->Equal_0, a, s[p - 1]->Equal_0.hi() + ol(s[p]) - sl, ql + sl)
            &&& is_sub(z->Equal_1, b, s[p - 1]->Equal_1.hi() + nl(s[p]) - sl, ql + sl)
            &&& d == (if had { s.update(p + 1, z).update(p, x).update(p - 1, e) } else { s.insert(p + 1, z).update(p, x).update(p - 1, e) })
            &&& t == (if s[p - 1]->Equal_0.len > sl { d } else { d.remove(p - 1) })
            &&& q == (if s[p - 1]->Equal_0.len > sl { p } else { p - 1 })
        }),
    ensures
        full(t, a, b), 0 <= q < t.len(), t[q] == x,
        0 <= before(t, q, 0) < before(s, p, 0), after(t, q, kind(x)) == after(s, p, kind(x)),
{
    let had = p + 1 < s.len() && s[p + 1] is Equal;
    let keep = s[p - 1]->Equal_0.len > sl;
    assert(t =~= s.subrange(0, p - 1) + (mk1(e, keep) + seq![x, z]) + s.subrange(if had { p + 2 } else { p + 1 }, s.len() as int));
    lemma_up(s, t, p, q, sl, e, x, z, a, b);
}
/// the change at p moves down by sl elements of the Equal after it
pub proof fn lemma_down<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, t: Seq<DiffRange<'a, 'b, [u64]>>, p: int, q: int, sl: int, z: DiffRange<'a, 'b, [u64]>, x: DiffRange<'a, 'b, [u64]>, e: DiffRange<'a, 'b, [u64]>, a: Seq<u64>, b: Seq<u64>)
    requires
        full(s, a, b), 0 <= p, p + 1 < s.len(), s[p + 1] is Equal, !(s[p] is Equal), 0 < sl,
        match (s[p], s[p + 1]) {
            (DiffRange::Insert(r), DiffRange::Equal(e1, _)) => is_cpl(r.sv(), e1.sv(), sl),
            (DiffRange::Delete(r), DiffRange::Equal(_, e2)) => is_cpl(r.sv(), e2.sv(), sl),
            _ => true,
        },
        e is Equal, z is Equal, kind(x) == kind(s[p]),
        is_sub(e->Equal_0, a, s[p + 1]->Equal_0.lo() + sl, s[p + 1]->Equal_0.len - sl),
        is_sub(e->Equal_1, b, s[p + 1]->Equal_1.lo() + sl, s[p + 1]->Equal_1.len - sl),
        match (s[p], x) {
            (DiffRange::Insert(r), DiffRange::Insert(y)) => is_sub(y, b, r.offset + sl, r.len as int),
            (DiffRange::Delete(r), DiffRange::Delete(y)) => is_sub(y, a, r.offset + sl, r.len as int),
            _ => true,
        },
        ({
            let had = p >= 1 && s[p - 1] is Equal;
            let ql = if had { s[p - 1]->Equal_0.len as int } else { 0int };
            &&& is_sub(z->Equal_0, a, s[p + 1]->Equal_0.lo() - ol(s[p]) - ql, ql + sl)
            &&& is_sub(z->Equal_1, b, s[p + 1]->Equal_1.lo() - nl(s[p]) - ql, ql + sl)
            &&& t == s.subrange(0, if had { p - 1 } else { p }) + (seq![z, x] + mk1(e, s[p + 1]->Equal_0.len > sl)) + s.subrange(p + 2, s.len() as int)
            &&& q == (if had { p } else { p + 1 })
        }),
    ensures
        full(t, a, b), 0 <= q < t.len(), t[q] == x,
        0 <= after(t, q, 0) < after(s, p, 0), after(t, q, kind(x)) == after(s, p, kind(x)),
{
    let had = p >= 1 && s[p - 1] is Equal;
    let i0 = if had { p - 1 } else { p };
    let keep = s[p + 1]->Equal_0.len > sl;
    lemma_elem(s, a, b, p);
    lemma_elem(s, a, b, p + 1);
    if had { lemma_elem(s, a, b, p - 1); }
    let (o, n) = (bo(s, i0), bn(s, i0));
    let (e1, e2) = (s[p + 1]->Equal_0, s[p + 1]->Equal_1);
    let ql = if had { s[p - 1]->Equal_0.len as int } else { 0int };
    assert(x.own().fits());
    let (z1, z2) = (z->Equal_0, z->Equal_1);
    assert(z1.fits() && z2.fits());
    assert forall|i: int| 0 <= i < z1.len implies #[trigger] z1.sv()[i] == z2.sv()[i] by {
        if i >= ql {
            let j = i - ql;
            match s[p] {
                DiffRange::Insert(r) => {
                    assert(r.sv()[j] == e1.sv()[j]);
                    assert(z1.sv()[i] == e1.sv()[j]);
                    assert(z2.sv()[i] == r.sv()[j]);
                }
                DiffRange::Delete(r) => {
                    assert(r.sv()[j] == e2.sv()[j]);
                    assert(z2.sv()[i] == e2.sv()[j]);
                    assert(z1.sv()[i] == r.sv()[j]);
                }
                _ => {}
            }
        } else {
            assert(s[p - 1]->Equal_0.sv()[i] == s[p - 1]->Equal_1.sv()[i]);
        }
    }
    lemma_sv(z1, z2);
    if keep {
        let (f1, f2) = (e->Equal_0, e->Equal_1);
        assert forall|i: int| 0 <= i < f1.len implies #[trigger] f1.sv()[i] == f2.sv()[i] by {
            assert(e1.sv()[i + sl] == e2.sv()[i + sl]);
        }
        lemma_sv(f1, f2);
        lemma_three(z, x, e, a, b, o, n);
        assert(seq![z, x] + mk1(e, keep) =~= seq![z, x, e]);
    } else {
        lemma_two(z, x, a, b, o, n);
        assert(seq![z, x] + mk1(e, keep) =~= seq![z, x]);
    }
    lemma_replace(s, t, seq![z, x] + mk1(e, keep), a, b, i0, p + 2 - i0);
    // measures
    lemma_ba(s, p, 0);
    lemma_ba(s, p, kind(x));
    let post = s.subrange(p + 2, s.len() as int);
    assert(t.subrange(q + 1, t.len() as int) =~= mk1(e, keep) + post);
    lemma_wsum(mk1(e, keep), post, 0);
    lemma_wsum(mk1(e, keep), post, kind(x));
    lemma_wsum1(e, 0);
    lemma_wsum1(e, kind(x));
}
/// the same, from the updates the code makes
pub proof fn lemma_down_at<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, d: Seq<DiffRange<'a, 'b, [u64]>>, t: Seq<DiffRange<'a, 'b, [u64]>>, p: int, q: int, sl: int, z: DiffRange<'a, 'b, [u64]>, x: DiffRange<'a, 'b, [u64]>, e: DiffRange<'a, 'b, [u64]>, a: Seq<u64>, b: Seq<u64>)
    requires
        full(s, a, b), 0 <= p, p + 1 < s.len(), s[p + 1] is Equal, !(s[p] is Equal), 0 < sl,
        match (s[p], s[p + 1]) {
            (DiffRange::Insert(r), DiffRange::Equal(e1, _)) => is_cpl(r.sv(), e1.sv(), sl),
            (DiffRange::Delete(r), DiffRange::Equal(_, e2)) => is_cpl(r.sv(), e2.sv(), sl),
            _ => true,
        },
        e is Equal, z is Equal, kind(x) == kind(s[p]),
        is_sub(e->Equal_0, a, s[p + 1]->Equal_0.lo() + sl, s[p + 1]->Equal_0.len - sl),
        is_sub(e->Equal_1, b, s[p + 1]->Equal_1.lo() + sl, s[p + 1]->Equal_1.len - sl),
        match (s[p], x) {
            (DiffRange::Insert(r), DiffRange::Insert(y)) => is_sub(y, b, r.offset + sl, r.len as int),
            (DiffRange::Delete(r), DiffRange::Delete(y)) => is_sub(y, a, r.offset + sl, r.len as int),
            _ => true,
        },
        ({
            let had = p >= 1 && s[p - 1] is Equal;
            let ql = if had { s[p - 1]->Equal_0.len as int } else { 0int };
            &&& is_sub(z->Equal_0, a, s[p + 1]->Equal_0.lo() - ol(s[p]) - ql, ql + sl)
            &&& is_sub(z->Equal_1, b, s[p + 1]->Equal_1.lo() - nl(s[p]) - ql, ql + sl)
            &&& d == (if had { s.update(p - 1, z).update(p, x).update(p + 1, e) } else { s.insert(p, z).update(p + 1, x).update(p + 2, e) })
            &&& t == (if s[p + 1]->Equal_0.len > sl { d } else { d.remove(q + 1) })
            &&& q == (if had { p } else { p + 1 })
        }),
    ensures
        full(t, a, b), 0 <= q < t.len(), t[q] == x,
        0 <= after(t, q, 0) < after(s, p, 0), after(t, q, kind(x)) == after(s, p, kind(x)),
{
    let had = p >= 1 && s[p - 1] is Equal;
    let keep = s[p + 1]->Equal_0.len > sl;
    assert(t =~= s.subrange(0, if had { p - 1 } else { p }) + (seq![z, x] + mk1(e, keep)) + s.subrange(p + 2, s.len() as int));
    lemma_down(s, t, p, q, sl, z, x, e, a, b);
}
/// a Delete and an Insert next to each other change places
pub proof fn lemma_swap<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, t: Seq<DiffRange<'a, 'b, [u64]>>, i: int, a: Seq<u64>, b: Seq<u64>)
    requires
        full(s, a, b), 0 <= i, i + 1 < s.len(), kind(s[i]) != 0, kind(s[i + 1]) != 0, kind(s[i]) != kind(s[i + 1]),
        t == s.update(i, s[i + 1]).update(i + 1, s[i]),
    ensures
        full(t, a, b),
        0 <= before(t, i, 0) == before(s, i + 1, 0), after(t, i, kind(s[i + 1])) == after(s, i + 1, kind(s[i + 1])),
        0 <= after(t, i + 1, 0) == after(s, i, 0), after(t, i + 1, kind(s[i])) <= after(s, i, kind(s[i])),
{
    lemma_elem(s, a, b, i);
    lemma_elem(s, a, b, i + 1);
    let (x, y) = (s[i], s[i + 1]);
    lemma_two(y, x, a, b, bo(s, i), bn(s, i));
    assert(t =~= s.subrange(0, i) + seq![y, x] + s.subrange(i + 2, s.len() as int));
    lemma_replace(s, t, seq![y, x], a, b, i, 2);
    lemma_ba(s, i, 0);
    lemma_ba(s, i, kind(x));
    lemma_ba(t, i, kind(y));
    assert(t.subrange(0, i) =~= s.subrange(0, i));
    assert(t.subrange(i + 2, t.len() as int) =~= s.subrange(i + 2, s.len() as int));
}
/// two changes of the same kind next to each other become one
pub proof fn lemma_merge<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, t: Seq<DiffRange<'a, 'b, [u64]>>, i: int, x: DiffRange<'a, 'b, [u64]>, a: Seq<u64>, b: Seq<u64>)
    requires
        full(s, a, b), 0 <= i, i + 1 < s.len(),
        match (s[i], s[i + 1], x) {
            (DiffRange::Insert(r), DiffRange::Insert(y), DiffRange::Insert(z)) => is_sub(z, b, r.offset as int, r.len + y.len),
            (DiffRange::Delete(r), DiffRange::Delete(y), DiffRange::Delete(z)) => is_sub(z, a, r.offset as int, r.len + y.len),
            _ => false,
        },
        t == s.subrange(0, i) + seq![x] + s.subrange(i + 2, s.len() as int),
    ensures
        full(t, a, b), t.len() == s.len() - 1, t[i] == x,
        0 <= before(t, i, 0) == before(s, i + 1, 0), after(t, i, kind(x)) == after(s, i + 1, kind(x)),
        0 <= after(t, i, 0) == after(s, i, 0), after(t, i, kind(x)) <= after(s, i, kind(x)),
{
    lemma_elem(s, a, b, i);
    lemma_elem(s, a, b, i + 1);
    lemma_one(x, a, b, bo(s, i), bn(s, i));
    lemma_replace(s, t, seq![x], a, b, i, 2);
    lemma_ba(s, i, 0);
    lemma_ba(s, i, kind(x));
    assert(t.subrange(0, i) =~= s.subrange(0, i));
    assert(t.subrange(i + 1, t.len() as int) =~= s.subrange(i + 2, s.len() as int));
}
//@ fn shift_diff_up hide=okp,oend,nend,wsum,full
    requires valid(old(diffs)@), pointer < old(diffs)@.len(), kind(old(diffs)@[pointer as int]) != 0,
    ensures
        forall|a: Seq<u64>, b: Seq<u64>| full(old(diffs)@, a, b) ==> full(final(diffs)@, a, b),
        r < final(diffs)@.len(), kind(final(diffs)@[r as int]) == kind(old(diffs)@[pointer as int]),
        after(final(diffs)@, r as int, kind(old(diffs)@[pointer as int])) <= after(old(diffs)@, pointer as int, kind(old(diffs)@[pointer as int])),
//@ ghost shift_diff_up start
    let ghost (a, b) = choose|a: Seq<u64>, b: Seq<u64>| full(diffs@, a, b);
    let ghost s00 = diffs@;
    let ghost p00 = pointer as int;
    let ghost kd = kind(diffs@[pointer as int]);
//@ loop shift_diff_up l0
    invariant
        full(s00, a, b), full(diffs@, a, b), pointer < diffs@.len(), kind(diffs@[pointer as int]) == kd, kd == 1 || kd == 2,
        after(diffs@, pointer as int, kd) <= after(s00, p00, kd),
    decreases before(diffs@, pointer as int, 0), pointer,
//@ ghost shift_diff_up loop l0 start
    assert(diffs@.len() == diffs.len());
    let ghost s = diffs@;
    let ghost p = pointer as int;
    proof {
        lemma_elem(s, a, b, p - 1);
        lemma_elem(s, a, b, p);
        if p + 1 < s.len() { lemma_elem(s, a, b, p + 1); }
        lemma_ba(s, p - 1, 0);
        lemma_ba(s, p - 1, kd);
    }
//@ ghost shift_diff_up end
    assert forall|a2: Seq<u64>, b2: Seq<u64>| full(s00, a2, b2) implies full(diffs@, a2, b2) by { lemma_unique(s00, a, b, a2, b2); }
//@ fn shift_diff_down hide=okp,oend,nend,wsum,full
    requires valid(old(diffs)@), pointer < old(diffs)@.len(), kind(old(diffs)@[pointer as int]) != 0,
    ensures
        forall|a: Seq<u64>, b: Seq<u64>| full(old(diffs)@, a, b) ==> full(final(diffs)@, a, b),
        r < final(diffs)@.len(), kind(final(diffs)@[r as int]) == kind(old(diffs)@[pointer as int]),
        after(final(diffs)@, r as int, kind(old(diffs)@[pointer as int])) <= after(old(diffs)@, pointer as int, kind(old(diffs)@[pointer as int])),
//@ fn compact
    requires valid(old(diffs)@),
    ensures
        forall|a: Seq<u64>, b: Seq<u64>| full(old(diffs)@, a, b) ==> full(final(diffs)@, a, b),
        (forall|i: int| 0 <= i < old(diffs)@.len() ==> old(diffs)@[i] is Equal) ==> final(diffs)@ == old(diffs)@,
//@ ghost shift_diff_up before if diffs[pointer - 1].is_empty() #0
    proof {
        let sl = suffix_len as int;
        let keep = s[p - 1]->Equal_0.len > sl;
        let had = p + 1 < s.len() && s[p + 1] is Equal;
        let t = if keep { diffs@ } else { diffs@.remove(p - 1) };
        let q = if keep { p } else { p - 1 };
        let (e, x, z) = (diffs@[p - 1], diffs@[p], diffs@[p + 1]);
        assert(diffs@ =~= (if had { s.update(p + 1, z).update(p, x).update(p - 1, e) } else { s.insert(p + 1, z).update(p, x).update(p - 1, e) }));
        lemma_up_at(s, diffs@, t, p, q, sl, e, x, z, a, b);
    }
//@ ghost shift_diff_up before if diffs[pointer - 1].is_empty() #1
    proof {
        let sl = suffix_len as int;
        let keep = s[p - 1]->Equal_0.len > sl;
        let had = p + 1 < s.len() && s[p + 1] is Equal;
        let t = if keep { diffs@ } else { diffs@.remove(p - 1) };
        let q = if keep { p } else { p - 1 };
        let (e, x, z) = (diffs@[p - 1], diffs@[p], diffs@[p + 1]);
        assert(diffs@ =~= (if had { s.update(p + 1, z).update(p, x).update(p - 1, e) } else { s.insert(p + 1, z).update(p, x).update(p - 1, e) }));
        lemma_up_at(s, diffs@, t, p, q, sl, e, x, z, a, b);
    }
//@ ghost shift_diff_up after diffs.swap(pointer - 1, pointer)
    proof { lemma_swap(s, diffs@, p - 1, a, b); }
//@ ghost shift_diff_up after diffs.remove(pointer);
    proof {
        assert(diffs@ =~= s.subrange(0, p - 1) + seq![diffs@[p - 1]] + s.subrange(p + 1, s.len() as int));
        lemma_merge(s, diffs@, p - 1, diffs@[p - 1], a, b);
    }
//@ ghost shift_diff_down start
    let ghost (a, b) = choose|a: Seq<u64>, b: Seq<u64>| full(diffs@, a, b);
    let ghost s00 = diffs@;
    let ghost p00 = pointer as int;
    let ghost kd = kind(diffs@[pointer as int]);
//@ loop shift_diff_down l0
    invariant
        full(s00, a, b), full(diffs@, a, b), pointer < diffs@.len(), kind(diffs@[pointer as int]) == kd, kd == 1 || kd == 2,
        after(diffs@, pointer as int, kd) <= after(s00, p00, kd),
    decreases after(diffs@, pointer as int, 0), diffs@.len() - pointer,
//@ ghost shift_diff_down loop l0 start
    assert(diffs@.len() == diffs.len());
    let ghost s = diffs@;
    let ghost p = pointer as int;
    proof {
        lemma_elem(s, a, b, p + 1);
        lemma_elem(s, a, b, p);
        if p >= 1 { lemma_elem(s, a, b, p - 1); }
        lemma_ba(s, p, 0);
        lemma_ba(s, p, kd);
    }
//@ ghost shift_diff_down end
    assert forall|a2: Seq<u64>, b2: Seq<u64>| full(s00, a2, b2) implies full(diffs@, a2, b2) by { lemma_unique(s00, a, b, a2, b2); }
//@ ghost shift_diff_down before if diffs[pointer + 1].is_empty() #0
    proof {
        let sl = prefix_len as int;
        let keep = s[p + 1]->Equal_0.len > sl;
        let had = p >= 1 && s[p - 1] is Equal;
        let q = if had { p } else { p + 1 };
        let t = if keep { diffs@ } else { diffs@.remove(q + 1) };
        let (z, x, e) = (diffs@[q - 1], diffs@[q], diffs@[q + 1]);
        assert(diffs@ =~= (if had { s.update(p - 1, z).update(p, x).update(p + 1, e) } else { s.insert(p, z).update(p + 1, x).update(p + 2, e) }));
        lemma_down_at(s, diffs@, t, p, q, sl, z, x, e, a, b);
    }
//@ ghost shift_diff_down before if diffs[pointer + 1].is_empty() #1
    proof {
        let sl = prefix_len as int;
        let keep = s[p + 1]->Equal_0.len > sl;
        let had = p >= 1 && s[p - 1] is Equal;
        let q = if had { p } else { p + 1 };
        let t = if keep { diffs@ } else { diffs@.remove(q + 1) };
        let (z, x, e) = (diffs@[q - 1], diffs@[q], diffs@[q + 1]);
        assert(diffs@ =~= (if had { s.update(p - 1, z).update(p, x).update(p + 1, e) } else { s.insert(p, z).update(p + 1, x).update(p + 2, e) }));
        lemma_down_at(s, diffs@, t, p, q, sl, z, x, e, a, b);
    }
//@ ghost shift_diff_down after diffs.swap(pointer, pointer + 1)
    proof { lemma_swap(s, diffs@, p, a, b); }
//@ ghost shift_diff_down after diffs.remove(pointer + 1) #4
    proof {
        assert(diffs@ =~= s.subrange(0, p) + seq![diffs@[p]] + s.subrange(p + 2, s.len() as int));
        lemma_merge(s, diffs@, p, diffs@[p], a, b);
    }
//@ ghost compact start
    let ghost (a, b) = choose|a: Seq<u64>, b: Seq<u64>| full(diffs@, a, b);
    let ghost s00 = diffs@;
//@ loop compact l0
    invariant
        full(s00, a, b), full(diffs@, a, b), pointer <= diffs@.len(),
        (forall|i: int| 0 <= i < s00.len() ==> s00[i] is Equal) ==> diffs@ == s00,
    decreases wsum(diffs@.subrange(pointer as int, diffs@.len() as int), 1), diffs@.len() - pointer,
//@ ghost compact loop l0 start
    assert(diffs@.len() == diffs.len());
    proof {
        lemma_ba(diffs@, pointer as int, 1);
        assert(diffs@.subrange(pointer as int, diffs@.len() as int) =~= seq![diffs@[pointer as int]] + diffs@.subrange(pointer + 1, diffs@.len() as int));
        lemma_wsum(seq![diffs@[pointer as int]], diffs@.subrange(pointer + 1, diffs@.len() as int), 1);
        lemma_wsum1(diffs@[pointer as int], 1);
    }
//@ loop compact l1
    invariant
        full(s00, a, b), full(diffs@, a, b), pointer <= diffs@.len(),
        (forall|i: int| 0 <= i < s00.len() ==> s00[i] is Equal) ==> diffs@ == s00,
    decreases wsum(diffs@.subrange(pointer as int, diffs@.len() as int), 2), diffs@.len() - pointer,
//@ ghost compact loop l1 start
    assert(diffs@.len() == diffs.len());
    proof {
        lemma_ba(diffs@, pointer as int, 2);
        assert(diffs@.subrange(pointer as int, diffs@.len() as int) =~= seq![diffs@[pointer as int]] + diffs@.subrange(pointer + 1, diffs@.len() as int));
        lemma_wsum(seq![diffs@[pointer as int]], diffs@.subrange(pointer + 1, diffs@.len() as int), 2);
        lemma_wsum1(diffs@[pointer as int], 2);
    }
//@ ghost compact end
    assert forall|a2: Seq<u64>, b2: Seq<u64>| full(s00, a2, b2) implies full(diffs@, a2, b2) by { lemma_unique(s00, a, b, a2, b2); }
//@ ghost compact before pointer += 1 #0
    assert(diffs@.len() == diffs.len());
    proof { lemma_ba(diffs@, pointer as int, 1); }
//@ ghost shift_diff_down before diffs[pointer].shift_down(prefix_len) #0
    assert(diffs@.len() == diffs.len());
//@ ghost compact before pointer += 1 #1
    assert(diffs@.len() == diffs.len());
    proof { lemma_ba(diffs@, pointer as int, 2); }
//@ ghost shift_diff_down before diffs[pointer].shift_down(prefix_len) #1
    assert(diffs@.len() == diffs.len());
