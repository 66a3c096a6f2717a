//@ source merge/mod.rs
//@ inst SliceLike=[u64]
//@ retype String=VString
//@ rename Default VDefault
//@ remethod ends_with=v_ends_with
//@ strlit
//@ litparams filename
//@ eqfn as_slice
//@ extendall
//@ raw
use super::*;
use super::range::*;
use super::utils::*;
use super::diff::*;
use super::patch::HV;
use super::cleanup::lemma_unique;
use super::myers::LIM;
use std::ops;

impl<'a, 'b> Vw for DiffRange<'a, 'b, [u64]> { type V = DiffRange<'a, 'b, [u64]>; open spec fn vw(self) -> DiffRange<'a, 'b, [u64]> { self } }

// ------------------------------------------------------------------ the reference: what a three-way merge is
/// a piece of a merge: a line, or a conflict (ancestor, ours, theirs)
pub enum It<X> { Ln(X), Cf(Seq<X>, Seq<X>, Seq<X>) }
pub open spec fn lns<X>(s: Seq<X>) -> Seq<It<X>> { s.map_values(|x: X| It::Ln(x)) }
/// a region: the common result, else the side that changed it, else a conflict
pub open spec fn reg<X>(a: Seq<X>, o: Seq<X>, t: Seq<X>) -> Seq<It<X>> {
    if o == t { lns(o) } else if a == o { lns(t) } else if a == t { lns(o) } else { seq![It::Cf(a, o, t)] }
}
/// a merge of a prefix of the ancestor: the pieces, and where the open region starts
pub struct RS<X> { pub its: Seq<It<X>>, pub ra: int, pub ro: int, pub rt: int }
/// merge of the first i lines of the ancestor a, given where each side has them (-1: not)
pub open spec fn refp<X>(x1: Seq<int>, x2: Seq<int>, a: Seq<X>, o: Seq<X>, t: Seq<X>, i: int) -> RS<X>
    decreases i
{
    if i <= 0 { RS { its: Seq::empty(), ra: 0, ro: 0, rt: 0 } } else {
        let p = refp(x1, x2, a, o, t, i - 1);
        // kept by both sides
        if x1[i - 1] >= 0 && x2[i - 1] >= 0 {
            RS {
                its: p.its + reg(a.subrange(p.ra, i - 1), o.subrange(p.ro, x1[i - 1]), t.subrange(p.rt, x2[i - 1])) + lns(a.subrange(i - 1, i)),
                ra: i, ro: x1[i - 1] + 1, rt: x2[i - 1] + 1,
            }
        } else { p }
    }
}
pub open spec fn merge_ref<X>(x1: Seq<int>, x2: Seq<int>, a: Seq<X>, o: Seq<X>, t: Seq<X>) -> Seq<It<X>> {
    let p = refp(x1, x2, a, o, t, a.len() as int);
    p.its + reg(a.subrange(p.ra, a.len() as int), o.subrange(p.ro, o.len() as int), t.subrange(p.rt, t.len() as int))
}
pub open spec fn nconf<X>(s: Seq<It<X>>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { nconf(s.drop_last()) + if s.last() is Cf { 1int } else { 0 } } }

// ------------------------------------------------------------------ rendering
pub open spec fn rep(c: u8, n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| c) }
/// [C12] a marker: on a line of its own, of the configured length, with its label
pub open spec fn mark(out: Seq<u8>, c: u8, n: int, label: Option<Seq<u8>>) -> Seq<u8> {
    let o = if out.len() > 0 && out.last() != 10 { out.push(10) } else { out };
    o + rep(c, n) + (match label { Some(l) => seq![32u8] + l, None => Seq::empty() }) + seq![10u8]
}
pub open spec fn l_ours() -> Seq<u8> { seq![111u8, 117u8, 114u8, 115u8] }
pub open spec fn l_orig() -> Seq<u8> { seq![111u8, 114u8, 105u8, 103u8, 105u8, 110u8, 97u8, 108u8] }
pub open spec fn l_theirs() -> Seq<u8> { seq![116u8, 104u8, 101u8, 105u8, 114u8, 115u8] }
/// [C12] a conflict, rendered
pub open spec fn rend_cf(out: Seq<u8>, a: Seq<Seq<u8>>, o: Seq<Seq<u8>>, t: Seq<Seq<u8>>, n: int, d3: bool) -> Seq<u8> {
    let s1 = mark(out, 60, n, Some(l_ours())) + cat(o);
    let s2 = if d3 { mark(s1, 124, n, Some(l_orig())) + cat(a) } else { s1 };
    let s3 = mark(s2, 61, n, None) + cat(t);
    mark(s3, 62, n, Some(l_theirs()))
}
pub open spec fn rend1(out: Seq<u8>, it: It<Seq<u8>>, n: int, d3: bool) -> Seq<u8> {
    match it { It::Ln(x) => out + x, It::Cf(a, o, t) => rend_cf(out, a, o, t, n, d3) }
}
pub open spec fn rend_on(out: Seq<u8>, its: Seq<It<Seq<u8>>>, n: int, d3: bool) -> Seq<u8>
    decreases its.len()
{ if its.len() == 0 { out } else { rend1(rend_on(out, its.drop_last(), n, d3), its.last(), n, d3) } }
pub open spec fn rend(its: Seq<It<Seq<u8>>>, n: int, d3: bool) -> Seq<u8> { rend_on(Seq::empty(), its, n, d3) }

pub proof fn lemma_rend_concat(out: Seq<u8>, s: Seq<It<Seq<u8>>>, t: Seq<It<Seq<u8>>>, n: int, d3: bool)
    ensures rend_on(out, s + t, n, d3) == rend_on(rend_on(out, s, n, d3), t, n, d3),
    decreases t.len(),
{
    if t.len() == 0 { assert(s + t =~= s); } else {
        assert((s + t).drop_last() =~= s + t.drop_last());
        assert((s + t).last() == t.last());
        lemma_rend_concat(out, s, t.drop_last(), n, d3);
    }
}
pub proof fn lemma_nconf_concat<X>(s: Seq<It<X>>, t: Seq<It<X>>)
    ensures nconf(s + t) == nconf(s) + nconf(t), nconf(s) >= 0, nconf(t) >= 0,
    decreases t.len() + s.len(),
{
    if t.len() == 0 { assert(s + t =~= s); if s.len() > 0 { lemma_nconf_concat(s.drop_last(), t); } } else {
        assert((s + t).drop_last() =~= s + t.drop_last());
        assert((s + t).last() == t.last());
        lemma_nconf_concat(s, t.drop_last());
    }
}
pub proof fn lemma_nconf_lns<X>(s: Seq<X>)
    ensures nconf(lns(s)) == 0,
    decreases s.len(),
{
    if s.len() > 0 {
        assert(lns(s).drop_last() =~= lns(s.drop_last()));
        lemma_nconf_lns(s.drop_last());
    }
}
pub proof fn lemma_cat_push(s: Seq<Seq<u8>>, x: Seq<u8>)
    ensures cat(s.push(x)) == cat(s) + x,
    decreases s.len(),
{
    if s.len() == 0 {
        assert(s.push(x).skip(1) =~= Seq::<Seq<u8>>::empty());
        assert(s.push(x)[0] == x && cat(s.push(x).skip(1)) == Seq::<u8>::empty());
        assert(cat(s.push(x)) == x + cat(s.push(x).skip(1)));
        assert(cat(s.push(x)) =~= x);
        assert(cat(s) + x =~= x);
    } else {
        assert(s.push(x).skip(1) =~= s.skip(1).push(x));
        lemma_cat_push(s.skip(1), x);
        assert(cat(s.push(x)) =~= cat(s) + x);
    }
}
pub proof fn lemma_rend_lns(out: Seq<u8>, s: Seq<Seq<u8>>, n: int, d3: bool)
    ensures rend_on(out, lns(s), n, d3) == out + cat(s),
    decreases s.len(),
{
    if s.len() == 0 { assert(out + cat(s) =~= out); } else {
        let p = s.drop_last();
        assert(lns(s).drop_last() =~= lns(p));
        lemma_rend_lns(out, p, n, d3);
        lemma_cat_push(p, s.last());
        assert(p.push(s.last()) =~= s);
        assert(out + cat(p) + s.last() =~= out + (cat(p) + s.last()));
    }
}

// ------------------------------------------------------------------ both scripts, zipped
pub struct P3 { pub a: int, pub o: int, pub t: int }
pub open spec fn p3(a: int, o: int, t: int) -> P3 { P3 { a, o, t } }
/// x maps p..p+k to q..q+k
pub open spec fn kept(x: Seq<int>, p: int, k: int, q: int) -> bool { 0 <= p && p + k <= x.len() && forall|i: int| p <= i < p + k ==> #[trigger] x[i] == q + (i - p) }
pub open spec fn gone(x: Seq<int>, p: int, k: int) -> bool { 0 <= p && p + k <= x.len() && forall|i: int| p <= i < p + k ==> #[trigger] x[i] == -1 }
/// a non-empty range of s at p
pub open spec fn r_at<'a>(r: Range<'a, [u64]>, s: Seq<u64>, p: int) -> bool { r.inner@ == s && r.offset == p && r.len > 0 && r.fits() }
pub open spec fn d3elem<'a, 'b, 'c>(e: Diff3Range<'a, 'b, 'c, [u64]>, a: Seq<u64>, o: Seq<u64>, t: Seq<u64>, x1: Seq<int>, x2: Seq<int>, p: P3) -> bool {
    match e {
        Diff3Range::Equal(ra, ro, rt) => r_at(ra, a, p.a) && r_at(ro, o, p.o) && r_at(rt, t, p.t) && ra.len == ro.len && ra.len == rt.len
            && kept(x1, p.a, ra.len as int, p.o) && kept(x2, p.a, ra.len as int, p.t),
        Diff3Range::Ancestor(ra) => r_at(ra, a, p.a) && gone(x1, p.a, ra.len as int) && gone(x2, p.a, ra.len as int),
        Diff3Range::AncestorOurs(ra, ro) => r_at(ra, a, p.a) && r_at(ro, o, p.o) && ra.len == ro.len && ra.sv() == ro.sv() && kept(x1, p.a, ra.len as int, p.o) && gone(x2, p.a, ra.len as int),
        Diff3Range::AncestorTheirs(ra, rt) => r_at(ra, a, p.a) && r_at(rt, t, p.t) && ra.len == rt.len && ra.sv() == rt.sv() && gone(x1, p.a, ra.len as int) && kept(x2, p.a, ra.len as int, p.t),
        Diff3Range::Ours(ro) => r_at(ro, o, p.o),
        Diff3Range::Theirs(rt) => r_at(rt, t, p.t),
    }
}
pub open spec fn d3adv<'a, 'b, 'c>(e: Diff3Range<'a, 'b, 'c, [u64]>, p: P3) -> P3 {
    match e {
        Diff3Range::Equal(ra, ro, rt) => p3(p.a + ra.len, p.o + ro.len, p.t + rt.len),
        Diff3Range::Ancestor(ra) => p3(p.a + ra.len, p.o, p.t),
        Diff3Range::AncestorOurs(ra, ro) => p3(p.a + ra.len, p.o + ro.len, p.t),
        Diff3Range::AncestorTheirs(ra, rt) => p3(p.a + ra.len, p.o, p.t + rt.len),
        Diff3Range::Ours(ro) => p3(p.a, p.o + ro.len, p.t),
        Diff3Range::Theirs(rt) => p3(p.a, p.o, p.t + rt.len),
    }
}
pub open spec fn d3end<'a, 'b, 'c>(s: Seq<Diff3Range<'a, 'b, 'c, [u64]>>) -> P3
    decreases s.len()
{ if s.len() == 0 { p3(0, 0, 0) } else { d3adv(s.last(), d3end(s.drop_last())) } }
pub open spec fn d3ok<'a, 'b, 'c>(s: Seq<Diff3Range<'a, 'b, 'c, [u64]>>, a: Seq<u64>, o: Seq<u64>, t: Seq<u64>, x1: Seq<int>, x2: Seq<int>) -> bool
    decreases s.len()
{ s.len() == 0 || (d3ok(s.drop_last(), a, o, t, x1, x2) && d3elem(s.last(), a, o, t, x1, x2, d3end(s.drop_last()))) }
pub proof fn lemma_d3_empty<'a, 'b, 'c>(s: Seq<Diff3Range<'a, 'b, 'c, [u64]>>, a: Seq<u64>, o: Seq<u64>, t: Seq<u64>, x1: Seq<int>, x2: Seq<int>)
    requires s.len() == 0,
    ensures d3ok(s, a, o, t, x1, x2), d3end(s) == p3(0, 0, 0),
{
}
/// s merges a, o and t completely
pub open spec fn d3full<'a, 'b, 'c>(s: Seq<Diff3Range<'a, 'b, 'c, [u64]>>, a: Seq<u64>, o: Seq<u64>, t: Seq<u64>, x1: Seq<int>, x2: Seq<int>) -> bool {
    x1.len() == a.len() && x2.len() == a.len() && d3ok(s, a, o, t, x1, x2) && d3end(s) == p3(a.len() as int, o.len() as int, t.len() as int)
}
pub open spec fn both_full<'a, 'b, 'c>(s1: Seq<DiffRange<'a, 'b, [u64]>>, s2: Seq<DiffRange<'a, 'c, [u64]>>, a: Seq<u64>, o: Seq<u64>, t: Seq<u64>) -> bool {
    full(s1, a, o) && full(s2, a, t)
}

/// e without its first k elements
pub open spec fn rshr<'a>(r: Range<'a, [u64]>, k: int) -> Range<'a, [u64]> { Range { inner: r.inner, offset: (r.offset + k) as usize, len: (r.len - k) as usize } }
pub open spec fn shr<'a, 'b>(e: DiffRange<'a, 'b, [u64]>, k: int) -> DiffRange<'a, 'b, [u64]> {
    match e { DiffRange::Equal(r, s) => DiffRange::Equal(rshr(r, k), rshr(s, k)), DiffRange::Delete(r) => DiffRange::Delete(rshr(r, k)), DiffRange::Insert(r) => DiffRange::Insert(rshr(r, k)) }
}
pub open spec fn opt_seq<X>(e: Option<X>) -> Seq<X> { match e { Some(x) => seq![x], None => Seq::empty() } }
/// e (where not empty) and tail are what is left of a script with alignment x, at (p, q)
pub open spec fn sleft<'a, 'b>(e: Option<DiffRange<'a, 'b, [u64]>>, tail: Seq<DiffRange<'a, 'b, [u64]>>, a: Seq<u64>, b: Seq<u64>, x: Seq<int>, p: int, q: int) -> bool {
    let s = match e { Some(d) => if d.own().len > 0 { seq![d] + tail } else { tail }, None => tail };
    ok(s, a, b, p, q, a.len() as int, b.len() as int) && 0 <= p <= x.len() && al(s, q) == x.skip(p)
}
pub open spec fn fresh<'a, 'b>(e: Option<DiffRange<'a, 'b, [u64]>>, tail: Seq<DiffRange<'a, 'b, [u64]>>) -> bool {
    match e { Some(d) => d.own().len > 0, None => tail.len() == 0 }
}
pub proof fn lemma_len<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, a: Seq<u64>, b: Seq<u64>, o: int, n: int)
    requires okp(s, a, b, o, n),
    ensures oend(s, o) >= o, nend(s, n) >= n, s.len() == 0 ==> oend(s, o) == o && nend(s, n) == n, al(s, n).len() == oend(s, o) - o,
    decreases s.len(),
{
    if s.len() > 0 { lemma_len(s.drop_last(), a, b, o, n); }
}
pub proof fn lemma_start<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, e: Option<DiffRange<'a, 'b, [u64]>>, tail: Seq<DiffRange<'a, 'b, [u64]>>, a: Seq<u64>, b: Seq<u64>)
    requires full(s, a, b), (match e { Some(d) => s.len() > 0 && d == s[0] && tail == s.skip(1), None => s.len() == 0 && tail.len() == 0 }),
    ensures sleft(e, tail, a, b, al(s, 0), 0, 0), fresh(e, tail), al(s, 0).len() == a.len(),
{
    lemma_len(s, a, b, 0, 0);
    assert(al(s, 0).skip(0) =~= al(s, 0));
    match e {
        Some(d) => {
            assert(seq![d] + tail =~= s);
            lemma_concat(seq![d], tail, a, b, 0, 0);
            lemma_one(d, a, b, 0, 0);
        }
        None => { assert(tail =~= s); }
    }
}
/// what is known about the next element
pub proof fn lemma_head<'a, 'b>(e: Option<DiffRange<'a, 'b, [u64]>>, tail: Seq<DiffRange<'a, 'b, [u64]>>, a: Seq<u64>, b: Seq<u64>, x: Seq<int>, p: int, q: int)
    requires sleft(e, tail, a, b, x, p, q), fresh(e, tail), x.len() == a.len(),
    ensures
        0 <= p <= a.len(), q <= b.len(),
        (match e {
            Some(d) => elem_ok(d, a, b, p, q) && ok(tail, a, b, p + ol(d), q + nl(d), a.len() as int, b.len() as int) && al(tail, q + nl(d)) == x.skip(p + ol(d))
                && (match d { DiffRange::Equal(r, _) => kept(x, p, r.len as int, q), DiffRange::Delete(r) => gone(x, p, r.len as int), _ => true }),
            None => p == a.len() && q == b.len(),
        }),
{
    match e {
        Some(d) => {
            let s = seq![d] + tail;
            lemma_len(s, a, b, p, q);
            lemma_concat(seq![d], tail, a, b, p, q);
            lemma_one(d, a, b, p, q);
            lemma_al_concat(seq![d], tail, q);
            lemma_len(tail, a, b, p + ol(d), q + nl(d));
            assert(seq![d].drop_last() =~= Seq::<DiffRange<'a, 'b, [u64]>>::empty());
            assert(al(seq![d].drop_last(), q) =~= Seq::<int>::empty());
            assert(al(seq![d], q) =~= al1(d, q));
            let y = x.skip(p);
            assert(y == al1(d, q) + al(tail, q + nl(d)));
            assert(x.skip(p + ol(d)) =~= y.skip(ol(d)));
            assert(y.skip(ol(d)) =~= al(tail, q + nl(d)));
            assert forall|i: int| p <= i < p + ol(d) implies #[trigger] x[i] == al1(d, q)[i - p] by { assert(x[i] == y[i - p]); }
        }
        None => { assert(tail =~= Seq::<DiffRange<'a, 'b, [u64]>>::empty()); }
    }
}
/// after k elements
pub proof fn lemma_shr<'a, 'b>(d: DiffRange<'a, 'b, [u64]>, tail: Seq<DiffRange<'a, 'b, [u64]>>, a: Seq<u64>, b: Seq<u64>, x: Seq<int>, p: int, q: int, k: int)
    requires
        elem_ok(d, a, b, p, q), ok(tail, a, b, p + ol(d), q + nl(d), a.len() as int, b.len() as int), al(tail, q + nl(d)) == x.skip(p + ol(d)),
        match d { DiffRange::Equal(r, _) => kept(x, p, r.len as int, q), DiffRange::Delete(r) => gone(x, p, r.len as int), _ => false },
        0 < k <= ol(d), x.len() == a.len(),
    ensures sleft(Some(shr(d, k)), tail, a, b, x, p + k, q + (if d is Equal { k } else { 0 })),
{
    let f = shr(d, k);
    let (p2, q2) = (p + k, q + (if d is Equal { k } else { 0 }));
    if f.own().len > 0 {
        match (d, f) {
            (DiffRange::Equal(r, s), DiffRange::Equal(r2, s2)) => {
                assert(r2.sv() =~= r.sv().skip(k));
                assert(s2.sv() =~= s.sv().skip(k));
            }
            _ => {}
        }
        assert(elem_ok(f, a, b, p2, q2));
        let s = seq![f] + tail;
        lemma_concat(seq![f], tail, a, b, p2, q2);
        lemma_one(f, a, b, p2, q2);
        lemma_al_concat(seq![f], tail, q2);
        assert(seq![f].drop_last() =~= Seq::<DiffRange<'a, 'b, [u64]>>::empty());
        assert(al(seq![f].drop_last(), q2) =~= Seq::<int>::empty());
        assert(al(seq![f], q2) =~= al1(f, q2));
        assert(al(s, q2) =~= x.skip(p2)) by {
            assert forall|i: int| 0 <= i < x.len() - p2 implies al(s, q2)[i] == #[trigger] x.skip(p2)[i] by {
                assert(x.skip(p2)[i] == x[p2 + i]);
                if i >= ol(f) { assert(al(tail, q + nl(d))[i - ol(f)] == x.skip(p + ol(d))[i - ol(f)]); }
            }
            lemma_len(s, a, b, p2, q2);
            assert(x.skip(p + ol(d)).len() == x.len() - (p + ol(d)));
        }
    } else {
        assert(p2 == p + ol(d) && q2 == q + nl(d));
    }
}
/// the element after an empty one
pub proof fn lemma_next<'a, 'b>(e: Option<DiffRange<'a, 'b, [u64]>>, tail: Seq<DiffRange<'a, 'b, [u64]>>, f: Option<DiffRange<'a, 'b, [u64]>>, tail2: Seq<DiffRange<'a, 'b, [u64]>>, a: Seq<u64>, b: Seq<u64>, x: Seq<int>, p: int, q: int)
    requires
        sleft(e, tail, a, b, x, p, q),
        if e is Some && e->0.own().len > 0 { f == e && tail2 == tail } else {
            match f { Some(y) => tail.len() > 0 && y == tail[0] && tail2 == tail.skip(1), None => tail.len() == 0 && tail2.len() == 0 }
        },
    ensures sleft(f, tail2, a, b, x, p, q), fresh(f, tail2),
{
    if !(e is Some && e->0.own().len > 0) {
        match f {
            Some(y) => {
                assert(seq![y] + tail2 =~= tail);
                lemma_concat(seq![y], tail2, a, b, p, q);
                lemma_one(y, a, b, p, q);
                assert(y.own().len > 0);
            }
            None => { assert(tail =~= tail2); }
        }
    }
}

/// q is the first k elements of r
pub open spec fn front<'a>(q: Range<'a, [u64]>, r: Range<'a, [u64]>, k: int) -> bool { q.inner == r.inner && q.offset == r.offset && q.len == k }
/// one step of the zip: d is taken from the front of e1 and e2, leaving f1 and f2
pub open spec fn zipped<'a, 'b, 'c>(e1: Option<DiffRange<'a, 'b, [u64]>>, e2: Option<DiffRange<'a, 'c, [u64]>>, f1: Option<DiffRange<'a, 'b, [u64]>>, f2: Option<DiffRange<'a, 'c, [u64]>>, d: Diff3Range<'a, 'b, 'c, [u64]>) -> bool {
    match d {
        Diff3Range::Ours(r) => f2 == e2 && e1 == Some(DiffRange::<'a, 'b, [u64]>::Insert(r)) && f1 is None,
        Diff3Range::Theirs(r) => f1 == e1 && e2 == Some(DiffRange::<'a, 'c, [u64]>::Insert(r)) && f2 is None,
        _ => e1 is Some && e2 is Some && ({
            let k = if e1->0.own().len <= e2->0.own().len { e1->0.own().len as int } else { e2->0.own().len as int };
            f1 == Some(shr(e1->0, k)) && f2 == Some(shr(e2->0, k)) && match (d, e1->0, e2->0) {
                (Diff3Range::Equal(ra, ro, rt), DiffRange::Equal(a1, o1), DiffRange::Equal(a2, t2)) => (front(ra, a1, k) || front(ra, a2, k)) && front(ro, o1, k) && front(rt, t2, k),
                (Diff3Range::AncestorOurs(ra, ro), DiffRange::Equal(a1, o1), DiffRange::Delete(a2)) => (front(ra, a1, k) || front(ra, a2, k)) && front(ro, o1, k),
                (Diff3Range::AncestorTheirs(ra, rt), DiffRange::Delete(a1), DiffRange::Equal(a2, t2)) => (front(ra, a1, k) || front(ra, a2, k)) && front(rt, t2, k),
                (Diff3Range::Ancestor(ra), DiffRange::Delete(a1), DiffRange::Delete(a2)) => front(ra, a1, k) || front(ra, a2, k),
                _ => false,
            }
        }),
    }
}
pub proof fn lemma_zip<'a, 'b, 'c>(s: Seq<Diff3Range<'a, 'b, 'c, [u64]>>, e1: Option<DiffRange<'a, 'b, [u64]>>, e2: Option<DiffRange<'a, 'c, [u64]>>, f1: Option<DiffRange<'a, 'b, [u64]>>, f2: Option<DiffRange<'a, 'c, [u64]>>, d: Diff3Range<'a, 'b, 'c, [u64]>,
    t1: Seq<DiffRange<'a, 'b, [u64]>>, t2: Seq<DiffRange<'a, 'c, [u64]>>, a: Seq<u64>, o: Seq<u64>, t: Seq<u64>, x1: Seq<int>, x2: Seq<int>, p: P3)
    requires
        sleft(e1, t1, a, o, x1, p.a, p.o), fresh(e1, t1), sleft(e2, t2, a, t, x2, p.a, p.t), fresh(e2, t2), zipped(e1, e2, f1, f2, d),
        x1.len() == a.len(), x2.len() == a.len(), d3ok(s, a, o, t, x1, x2), d3end(s) == p,
    ensures ({
        let q = d3adv(d, p);
        &&& d3ok(s.push(d), a, o, t, x1, x2) && d3end(s.push(d)) == q
        &&& sleft(f1, t1, a, o, x1, q.a, q.o) && sleft(f2, t2, a, t, x2, q.a, q.t)
        &&& p.a <= q.a <= a.len() && p.o <= q.o <= o.len() && p.t <= q.t <= t.len() && (p.a < q.a || p.o < q.o || p.t < q.t)
    }),
{
    lemma_head(e1, t1, a, o, x1, p.a, p.o);
    lemma_head(e2, t2, a, t, x2, p.a, p.t);
    assert(s.push(d).drop_last() =~= s);
    match d {
        Diff3Range::Ours(r) => { }
        Diff3Range::Theirs(r) => { }
        _ => {
            let (g1, g2) = (e1->0, e2->0);
            let k = if g1.own().len <= g2.own().len { g1.own().len as int } else { g2.own().len as int };
            lemma_shr(g1, t1, a, o, x1, p.a, p.o, k);
            lemma_shr(g2, t2, a, t, x2, p.a, p.t, k);
            match (d, g1, g2) {
                (Diff3Range::AncestorOurs(ra, ro), DiffRange::Equal(r, s), _) => { assert(ra.sv() =~= r.sv().take(k)); assert(ro.sv() =~= s.sv().take(k)); }
                (Diff3Range::AncestorTheirs(ra, ro), _, DiffRange::Equal(r, s)) => { assert(ra.sv() =~= r.sv().take(k)); assert(ro.sv() =~= s.sv().take(k)); }
                _ => {}
            }
        }
    }
    assert(d3elem(d, a, o, t, x1, x2, p));
}
// ------------------------------------------------------------------ merge ranges
/// what a merge range stands for, before conflicts are resolved
pub open spec fn sub_of<'a, X, T: ?Sized>(r: Range<'a, T>, s: Seq<X>) -> Seq<X> { s.subrange(r.lo(), r.hi()) }
pub open spec fn mi<'a, 'b, 'c, X, T: ?Sized>(e: MergeRange<'a, 'b, 'c, T>, a: Seq<X>, o: Seq<X>, t: Seq<X>) -> Seq<It<X>> {
    match e {
        MergeRange::Equal(ra, _, _) => lns(sub_of(ra, a)),
        MergeRange::Conflict(ra, ro, rt) => reg(sub_of(ra, a), sub_of(ro, o), sub_of(rt, t)),
        MergeRange::Ours(ro) => lns(sub_of(ro, o)),
        MergeRange::Theirs(rt) => lns(sub_of(rt, t)),
        MergeRange::Both(ro, _) => lns(sub_of(ro, o)),
    }
}
/// ... and after that
pub open spec fn mo<'a, 'b, 'c, X, T: ?Sized>(e: MergeRange<'a, 'b, 'c, T>, a: Seq<X>, o: Seq<X>, t: Seq<X>) -> Seq<It<X>> {
    match e {
        MergeRange::Conflict(ra, ro, rt) => seq![It::Cf(sub_of(ra, a), sub_of(ro, o), sub_of(rt, t))],
        _ => mi(e, a, o, t),
    }
}
pub open spec fn mis<'a, 'b, 'c, X, T: ?Sized>(s: Seq<MergeRange<'a, 'b, 'c, T>>, a: Seq<X>, o: Seq<X>, t: Seq<X>) -> Seq<It<X>>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { mis(s.drop_last(), a, o, t) + mi(s.last(), a, o, t) } }
pub open spec fn mos<'a, 'b, 'c, X, T: ?Sized>(s: Seq<MergeRange<'a, 'b, 'c, T>>, a: Seq<X>, o: Seq<X>, t: Seq<X>) -> Seq<It<X>>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { mos(s.drop_last(), a, o, t) + mo(s.last(), a, o, t) } }
/// the range is one of s
pub open spec fn rsub<'a>(r: Range<'a, [u64]>, s: Seq<u64>) -> bool { r.fits() && r.hi() <= s.len() && r.sv() == s.subrange(r.lo(), r.hi()) }
pub open spec fn wfm<'a, 'b, 'c>(e: MergeRange<'a, 'b, 'c, [u64]>, a: Seq<u64>, o: Seq<u64>, t: Seq<u64>) -> bool {
    match e {
        MergeRange::Equal(ra, ro, rt) => rsub(ra, a) && rsub(ro, o) && rsub(rt, t) && ra.len > 0,
        MergeRange::Conflict(ra, ro, rt) => rsub(ra, a) && rsub(ro, o) && rsub(rt, t),
        MergeRange::Ours(ro) => rsub(ro, o),
        MergeRange::Theirs(rt) => rsub(rt, t),
        MergeRange::Both(ro, rt) => rsub(ro, o) && rsub(rt, t),
    }
}
pub open spec fn wfms<'a, 'b, 'c>(s: Seq<MergeRange<'a, 'b, 'c, [u64]>>, a: Seq<u64>, o: Seq<u64>, t: Seq<u64>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> wfm(#[trigger] s[i], a, o, t)
}
/// the ranges of e lie in texts of these many lines
pub open spec fn inb<'a, 'b, 'c, T: ?Sized>(e: MergeRange<'a, 'b, 'c, T>, na: int, no: int, nt: int) -> bool {
    match e {
        MergeRange::Equal(ra, _, _) => ra.hi() <= na,
        MergeRange::Conflict(ra, ro, rt) => ra.hi() <= na && ro.hi() <= no && rt.hi() <= nt,
        MergeRange::Ours(ro) => ro.hi() <= no,
        MergeRange::Theirs(rt) => rt.hi() <= nt,
        MergeRange::Both(ro, _) => ro.hi() <= no,
    }
}
/// one conflict elimination step: only where the ranges say so
pub open spec fn cleaned<'a, 'b, 'c>(e: MergeRange<'a, 'b, 'c, [u64]>, f: MergeRange<'a, 'b, 'c, [u64]>) -> bool {
    match e {
        MergeRange::Conflict(ra, ro, rt) => match f {
            MergeRange::Conflict(ra2, ro2, rt2) => f == e && ro.sv() != rt.sv() && ra.sv() != ro.sv() && ra.sv() != rt.sv(),
            MergeRange::Both(ro2, rt2) => ro2 == ro && rt2 == rt && ro.sv() == rt.sv(),
            MergeRange::Ours(ro2) => ro2 == ro && (ro.sv() == rt.sv() || ra.sv() == rt.sv()),
            MergeRange::Theirs(rt2) => rt2 == rt && (ro.sv() == rt.sv() || ra.sv() == ro.sv()),
            MergeRange::Equal(ra2, ro2, rt2) => ra2 == ra && ro2 == ro && rt2 == rt && ra.sv() == ro.sv() && ro.sv() == rt.sv() && ra.len > 0,
        },
        _ => f == e,
    }
}
pub open spec fn fitm<'a, 'b, 'c>(e: MergeRange<'a, 'b, 'c, [u64]>) -> bool {
    match e { MergeRange::Conflict(ra, ro, rt) => ra.fits() && ro.fits() && rt.fits(), _ => true }
}
/// the open part of a region
pub open spec fn rng<'a>(r: Option<Range<'a, [u64]>>, s: Seq<u64>, b: int, e: int) -> bool {
    match r {
        None => b == e,
        Some(r) => if r.len == 0 { b == e && r.offset == 0 && r.fits() } else { r.inner@ == s && r.offset == b && r.offset + r.len == e && r.fits() },
    }
}
/// the outcome of a region
pub open spec fn out3<'a, 'b, 'c>(m: Option<MergeRange<'a, 'b, 'c, [u64]>>, sa: Seq<u64>, so: Seq<u64>, st: Seq<u64>, b: P3, e: P3) -> bool {
    match m {
        None => b == e,
        Some(m) => wfm(m, sa, so, st) && forall|a: Seq<Seq<u8>>, o: Seq<Seq<u8>>, t: Seq<Seq<u8>>| a.len() == sa.len() && o.len() == so.len() && t.len() == st.len() ==>
            #[trigger] mi(m, a, o, t) == reg(a.subrange(b.a, e.a), o.subrange(b.o, e.o), t.subrange(b.t, e.t)),
    }
}
/// progress of the grouping
pub open spec fn grouped<'a, 'b, 'c>(ms: Seq<MergeRange<'a, 'b, 'c, [u64]>>, ra: Option<Range<'a, [u64]>>, ro: Option<Range<'b, [u64]>>, rt: Option<Range<'c, [u64]>>,
    sa: Seq<u64>, so: Seq<u64>, st: Seq<u64>, x1: Seq<int>, x2: Seq<int>, b: P3, e: P3) -> bool {
    &&& wfms(ms, sa, so, st)
    &&& rng(ra, sa, b.a, e.a) && rng(ro, so, b.o, e.o) && rng(rt, st, b.t, e.t)
    &&& ra is Some ==> ro is Some || rt is Some
    &&& 0 <= b.a <= e.a <= sa.len() && 0 <= b.o <= e.o <= so.len() && 0 <= b.t <= e.t <= st.len()
    &&& forall|a: Seq<Seq<u8>>, o: Seq<Seq<u8>>, t: Seq<Seq<u8>>| a.len() == sa.len() && o.len() == so.len() && t.len() == st.len() ==>
        #[trigger] refp(x1, x2, a, o, t, e.a) == (RS { its: mis(ms, a, o, t), ra: b.a, ro: b.o, rt: b.t })
}
/// the merge ranges are a three-way merge
pub open spec fn is_merged<'a, 'b, 'c>(ms: Seq<MergeRange<'a, 'b, 'c, [u64]>>, sa: Seq<u64>, so: Seq<u64>, st: Seq<u64>, x1: Seq<int>, x2: Seq<int>) -> bool {
    wfms(ms, sa, so, st) && forall|a: Seq<Seq<u8>>, o: Seq<Seq<u8>>, t: Seq<Seq<u8>>| a.len() == sa.len() && o.len() == so.len() && t.len() == st.len() ==>
        #[trigger] mis(ms, a, o, t) == merge_ref(x1, x2, a, o, t)
}
pub proof fn lemma_reg_empty<X>(a: Seq<X>, o: Seq<X>, t: Seq<X>)
    requires a.len() == 0, o.len() == 0, t.len() == 0,
    ensures reg(a, o, t) =~= Seq::<It<X>>::empty(),
{
    assert(o =~= t);
}
pub proof fn lemma_skip<X>(x1: Seq<int>, x2: Seq<int>, a: Seq<X>, o: Seq<X>, t: Seq<X>, i: int, k: int)
    requires 0 <= i, 0 <= k, i + k <= x1.len(), i + k <= x2.len(), gone(x1, i, k) || gone(x2, i, k),
    ensures refp(x1, x2, a, o, t, i + k) == refp(x1, x2, a, o, t, i),
    decreases k,
{
    if k > 0 {
        lemma_skip(x1, x2, a, o, t, i, k - 1);
        assert(x1[i + k - 1] == -1 || x2[i + k - 1] == -1);
    }
}
pub proof fn lemma_stable<X>(x1: Seq<int>, x2: Seq<int>, a: Seq<X>, o: Seq<X>, t: Seq<X>, i: int, k: int, q1: int, q2: int)
    requires 0 < k, 0 <= q1, 0 <= q2, kept(x1, i, k, q1), kept(x2, i, k, q2), i + k <= a.len(), q1 + k <= o.len(), q2 + k <= t.len(),
    ensures ({
        let p = refp(x1, x2, a, o, t, i);
        refp(x1, x2, a, o, t, i + k) == (RS { its: p.its + reg(a.subrange(p.ra, i), o.subrange(p.ro, q1), t.subrange(p.rt, q2)) + lns(a.subrange(i, i + k)), ra: i + k, ro: q1 + k, rt: q2 + k })
    }),
    decreases k,
{
    let p = refp(x1, x2, a, o, t, i);
    let j = i + k - 1;
    assert(x1[j] == q1 + k - 1 && x2[j] == q2 + k - 1);
    if k > 1 {
        lemma_stable(x1, x2, a, o, t, i, k - 1, q1, q2);
        let r = refp(x1, x2, a, o, t, j);
        lemma_reg_empty(a.subrange(r.ra, j), o.subrange(r.ro, x1[j]), t.subrange(r.rt, x2[j]));
        let head = p.its + reg(a.subrange(p.ra, i), o.subrange(p.ro, q1), t.subrange(p.rt, q2));
        assert(head + lns(a.subrange(i, j)) + Seq::<It<X>>::empty() + lns(a.subrange(j, j + 1)) =~= head + lns(a.subrange(i, i + k)));
    }
}
pub proof fn lemma_mis_push<'a, 'b, 'c, X, T: ?Sized>(s: Seq<MergeRange<'a, 'b, 'c, T>>, e: MergeRange<'a, 'b, 'c, T>, a: Seq<X>, o: Seq<X>, t: Seq<X>)
    ensures mis(s.push(e), a, o, t) == mis(s, a, o, t) + mi(e, a, o, t),
{ assert(s.push(e).drop_last() =~= s); }
pub proof fn lemma_d3_unique_rec<'a, 'b, 'c>(s: Seq<Diff3Range<'a, 'b, 'c, [u64]>>, a: Seq<u64>, o: Seq<u64>, t: Seq<u64>, x1: Seq<int>, x2: Seq<int>, a2: Seq<u64>, o2: Seq<u64>, t2: Seq<u64>, y1: Seq<int>, y2: Seq<int>)
    requires d3ok(s, a, o, t, x1, x2), d3ok(s, a2, o2, t2, y1, y2),
    ensures d3end(s).a == 0 || a == a2, d3end(s).o == 0 || o == o2, d3end(s).t == 0 || t == t2,
        d3end(s).a >= 0, d3end(s).o >= 0, d3end(s).t >= 0,
        forall|i: int| 0 <= i < d3end(s).a ==> #[trigger] x1[i] == y1[i] && x2[i] == y2[i],
    decreases s.len(),
{
    if s.len() > 0 {
        let p = d3end(s.drop_last());
        lemma_d3_unique_rec(s.drop_last(), a, o, t, x1, x2, a2, o2, t2, y1, y2);
        assert forall|i: int| 0 <= i < d3end(s).a implies #[trigger] x1[i] == y1[i] && x2[i] == y2[i] by { let (z1, z2) = (x2[i], y2[i]); }
    }
}
pub proof fn lemma_d3_unique<'a, 'b, 'c>(s: Seq<Diff3Range<'a, 'b, 'c, [u64]>>, a: Seq<u64>, o: Seq<u64>, t: Seq<u64>, x1: Seq<int>, x2: Seq<int>, a2: Seq<u64>, o2: Seq<u64>, t2: Seq<u64>, y1: Seq<int>, y2: Seq<int>)
    requires d3full(s, a, o, t, x1, x2), d3full(s, a2, o2, t2, y1, y2),
    ensures a == a2, o == o2, t == t2, x1 == y1, x2 == y2,
{
    lemma_d3_unique_rec(s, a, o, t, x1, x2, a2, o2, t2, y1, y2);
    assert(a =~= a2);
    assert(o =~= o2);
    assert(t =~= t2);
    assert(x1 =~= y1) by { assert forall|i: int| 0 <= i < x1.len() implies x1[i] == y1[i] by {} }
    assert(x2 =~= y2) by { assert forall|i: int| 0 <= i < x2.len() implies x2[i] == y2[i] by { assert(x1[i] == y1[i]); } }
}
pub proof fn lemma_d3_at<'a, 'b, 'c>(s: Seq<Diff3Range<'a, 'b, 'c, [u64]>>, a: Seq<u64>, o: Seq<u64>, t: Seq<u64>, x1: Seq<int>, x2: Seq<int>, i: int)
    requires d3ok(s, a, o, t, x1, x2), 0 <= i < s.len(),
    ensures d3elem(s[i], a, o, t, x1, x2, d3end(s.take(i))), d3end(s.take(i + 1)) == d3adv(s[i], d3end(s.take(i))),
    decreases s.len(),
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    assert(s.take(i + 1).last() == s[i]);
    if i == s.len() - 1 {
        assert(s.drop_last() =~= s.take(i));
    } else {
        lemma_d3_at(s.drop_last(), a, o, t, x1, x2, i);
        assert(s.drop_last().take(i) =~= s.take(i));
    }
}
/// a line kept by both sides closes the region
pub proof fn lemma_close<'a, 'b, 'c>(ms: Seq<MergeRange<'a, 'b, 'c, [u64]>>, m: Option<MergeRange<'a, 'b, 'c, [u64]>>, ra: Option<Range<'a, [u64]>>, ro: Option<Range<'b, [u64]>>, rt: Option<Range<'c, [u64]>>,
    ea: Range<'a, [u64]>, eo: Range<'b, [u64]>, et: Range<'c, [u64]>, sa: Seq<u64>, so: Seq<u64>, st: Seq<u64>, x1: Seq<int>, x2: Seq<int>, b: P3, e: P3)
    requires grouped(ms, ra, ro, rt, sa, so, st, x1, x2, b, e), out3(m, sa, so, st, b, e), d3elem(Diff3Range::Equal(ea, eo, et), sa, so, st, x1, x2, e),
    ensures ({
        let f = d3adv(Diff3Range::Equal(ea, eo, et), e);
        grouped((ms + opt_seq(m)).push(MergeRange::Equal(ea, eo, et)), None, None, None, sa, so, st, x1, x2, f, f)
    }),
{
    let f = d3adv(Diff3Range::Equal(ea, eo, et), e);
    let g = MergeRange::Equal(ea, eo, et);
    let ms1 = ms + opt_seq(m);
    let ms2 = ms1.push(g);
    assert(wfm(g, sa, so, st));
    assert forall|i: int| 0 <= i < ms2.len() implies wfm(#[trigger] ms2[i], sa, so, st) by {
        if i < ms.len() { assert(ms2[i] == ms[i]); } else if i < ms1.len() { assert(ms2[i] == m->0); } else { assert(ms2[i] == g); }
    }
    assert forall|a: Seq<Seq<u8>>, o: Seq<Seq<u8>>, t: Seq<Seq<u8>>| a.len() == sa.len() && o.len() == so.len() && t.len() == st.len() implies
        #[trigger] refp(x1, x2, a, o, t, f.a) == (RS { its: mis(ms2, a, o, t), ra: f.a, ro: f.o, rt: f.t }) by {
        let p = refp(x1, x2, a, o, t, e.a);
        lemma_stable(x1, x2, a, o, t, e.a, ea.len as int, e.o, e.t);
        lemma_mis_push(ms1, g, a, o, t);
        let r = reg(a.subrange(b.a, e.a), o.subrange(b.o, e.o), t.subrange(b.t, e.t));
        match m {
            Some(m) => {
                assert(ms1 =~= ms.push(m));
                lemma_mis_push(ms, m, a, o, t);
                assert(mi(m, a, o, t) == r);
            }
            None => {
                assert(ms1 =~= ms);
                lemma_reg_empty(a.subrange(b.a, e.a), o.subrange(b.o, e.o), t.subrange(b.t, e.t));
                assert(p.its + r =~= p.its);
            }
        }
        assert(mi(g, a, o, t) == lns(a.subrange(e.a, e.a + ea.len)));
    }
}
/// anything else leaves it open
pub proof fn lemma_open<'a, 'b, 'c>(ms: Seq<MergeRange<'a, 'b, 'c, [u64]>>, ra: Option<Range<'a, [u64]>>, ro: Option<Range<'b, [u64]>>, rt: Option<Range<'c, [u64]>>,
    ra2: Option<Range<'a, [u64]>>, ro2: Option<Range<'b, [u64]>>, rt2: Option<Range<'c, [u64]>>,
    d: Diff3Range<'a, 'b, 'c, [u64]>, sa: Seq<u64>, so: Seq<u64>, st: Seq<u64>, x1: Seq<int>, x2: Seq<int>, b: P3, e: P3)
    requires grouped(ms, ra, ro, rt, sa, so, st, x1, x2, b, e), d3elem(d, sa, so, st, x1, x2, e), !(d is Equal),
        ({ let f = d3adv(d, e); rng(ra2, sa, b.a, f.a) && rng(ro2, so, b.o, f.o) && rng(rt2, st, b.t, f.t) && (ra2 is Some ==> ro2 is Some || rt2 is Some) }),
    ensures grouped(ms, ra2, ro2, rt2, sa, so, st, x1, x2, b, d3adv(d, e)),
{
    let f = d3adv(d, e);
    assert forall|a: Seq<Seq<u8>>, o: Seq<Seq<u8>>, t: Seq<Seq<u8>>| a.len() == sa.len() && o.len() == so.len() && t.len() == st.len() implies
        #[trigger] refp(x1, x2, a, o, t, f.a) == (RS { its: mis(ms, a, o, t), ra: b.a, ro: b.o, rt: b.t }) by {
        assert(refp(x1, x2, a, o, t, e.a) == (RS { its: mis(ms, a, o, t), ra: b.a, ro: b.o, rt: b.t }));
        if f.a > e.a { lemma_skip(x1, x2, a, o, t, e.a, f.a - e.a); }
    }
}
pub proof fn lemma_finish<'a, 'b, 'c>(ms: Seq<MergeRange<'a, 'b, 'c, [u64]>>, m: Option<MergeRange<'a, 'b, 'c, [u64]>>, ra: Option<Range<'a, [u64]>>, ro: Option<Range<'b, [u64]>>, rt: Option<Range<'c, [u64]>>,
    sa: Seq<u64>, so: Seq<u64>, st: Seq<u64>, x1: Seq<int>, x2: Seq<int>, b: P3)
    requires grouped(ms, ra, ro, rt, sa, so, st, x1, x2, b, p3(sa.len() as int, so.len() as int, st.len() as int)), out3(m, sa, so, st, b, p3(sa.len() as int, so.len() as int, st.len() as int)),
    ensures is_merged(ms + opt_seq(m), sa, so, st, x1, x2),
{
    let e = p3(sa.len() as int, so.len() as int, st.len() as int);
    let ms1 = ms + opt_seq(m);
    assert forall|i: int| 0 <= i < ms1.len() implies wfm(#[trigger] ms1[i], sa, so, st) by { if i < ms.len() { assert(ms1[i] == ms[i]); } else { assert(ms1[i] == m->0); } }
    assert forall|a: Seq<Seq<u8>>, o: Seq<Seq<u8>>, t: Seq<Seq<u8>>| a.len() == sa.len() && o.len() == so.len() && t.len() == st.len() implies
        #[trigger] mis(ms1, a, o, t) == merge_ref(x1, x2, a, o, t) by {
        let p = refp(x1, x2, a, o, t, e.a);
        let r = reg(a.subrange(b.a, e.a), o.subrange(b.o, e.o), t.subrange(b.t, e.t));
        assert(p == (RS { its: mis(ms, a, o, t), ra: b.a, ro: b.o, rt: b.t }));
        match m {
            Some(m) => {
                assert(ms1 =~= ms.push(m));
                lemma_mis_push(ms, m, a, o, t);
                assert(mi(m, a, o, t) == r);
            }
            None => {
                assert(ms1 =~= ms);
                lemma_reg_empty(a.subrange(b.a, e.a), o.subrange(b.o, e.o), t.subrange(b.t, e.t));
                assert(p.its + r =~= p.its);
            }
        }
    }
}
/// equal identities, equal pieces of the texts
pub proof fn lemma_sub_eq<'a, 'b>(m: Map<Seq<u8>, u64>, la: Seq<Seq<u8>>, lb: Seq<Seq<u8>>, r: Range<'a, [u64]>, s: Range<'b, [u64]>)
    requires inj(m), known(m, la), known(m, lb), rsub(r, ids(m, la)), rsub(s, ids(m, lb)),
    ensures (r.sv() == s.sv()) == (sub_of(r, la) == sub_of(s, lb)),
{
    let (x, y) = (sub_of(r, la), sub_of(s, lb));
    assert(r.sv().len() == r.len && s.sv().len() == s.len);
    if r.sv() == s.sv() {
        assert(x =~= y) by {
            assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by {
                assert(r.sv()[i] == s.sv()[i]);
                lemma_ids_eq(m, la, lb, r.lo() + i, s.lo() + i);
            }
        }
    }
    if x == y {
        assert(x.len() == r.len && y.len() == s.len);
        assert(r.sv() =~= s.sv()) by {
            assert forall|i: int| 0 <= i < r.sv().len() implies r.sv()[i] == s.sv()[i] by {
                assert(x[i] == y[i]);
                assert(r.sv()[i] == ids(m, la)[r.lo() + i] && s.sv()[i] == ids(m, lb)[s.lo() + i]);
            }
        }
    }
}
/// [C10] conflict elimination does not change the outcome
pub proof fn lemma_cleaned<'a, 'b, 'c>(ms: Seq<MergeRange<'a, 'b, 'c, [u64]>>, ms2: Seq<MergeRange<'a, 'b, 'c, [u64]>>, m: Map<Seq<u8>, u64>, a: Seq<Seq<u8>>, o: Seq<Seq<u8>>, t: Seq<Seq<u8>>, k: int)
    requires inj(m), known(m, a), known(m, o), known(m, t), wfms(ms, ids(m, a), ids(m, o), ids(m, t)),
        ms.len() == ms2.len(), forall|i: int| 0 <= i < ms.len() ==> cleaned(ms[i], #[trigger] ms2[i]), 0 <= k <= ms.len(),
    ensures mos(ms2.take(k), a, o, t) == mis(ms.take(k), a, o, t), forall|i: int| 0 <= i < k ==> inb(#[trigger] ms2[i], a.len() as int, o.len() as int, t.len() as int),
    decreases k,
{
    if k > 0 {
        lemma_cleaned(ms, ms2, m, a, o, t, k - 1);
        let (e, f) = (ms[k - 1], ms2[k - 1]);
        assert(ms.take(k).drop_last() =~= ms.take(k - 1) && ms2.take(k).drop_last() =~= ms2.take(k - 1));
        assert(wfm(e, ids(m, a), ids(m, o), ids(m, t)));
        assert(cleaned(e, f));
        match e {
            MergeRange::Conflict(ra, ro, rt) => {
                lemma_sub_eq(m, o, t, ro, rt);
                lemma_sub_eq(m, a, o, ra, ro);
                lemma_sub_eq(m, a, t, ra, rt);
            }
            _ => {}
        }
        assert(mo(f, a, o, t) == mi(e, a, o, t));
        assert(inb(f, a.len() as int, o.len() as int, t.len() as int));
    } else {
        assert(ms2.take(0) =~= Seq::empty() && ms.take(0) =~= Seq::empty());
    }
}

// ------------------------------------------------------------------ C11
pub open spec fn ident(x: Seq<int>) -> bool { forall|i: int| 0 <= i < x.len() ==> #[trigger] x[i] == i }
pub proof fn lemma_reg_ours<X>(a: Seq<X>, o: Seq<X>)
    ensures reg(a, o, a) == lns(o), reg(a, o, o) == lns(o), reg(a, a, o) == lns(o),
{ }
pub proof fn lemma_lns_sub<X>(s: Seq<X>, i: int, j: int, k: int)
    requires 0 <= i <= j <= k <= s.len(),
    ensures lns(s.subrange(i, j)) + lns(s.subrange(j, k)) =~= lns(s.subrange(i, k)),
{ }
/// [C11] ours is the ancestor
pub proof fn lemma_ours_same<X>(x1: Seq<int>, x2: Seq<int>, a: Seq<X>, t: Seq<X>, i: int)
    requires ident(x1), x1.len() == a.len(), is_align(x2, a, t), 0 <= i <= a.len(),
    ensures ({
        let p = refp(x1, x2, a, a, t, i);
        &&& p.its == lns(t.subrange(0, p.rt)) && p.ra == p.ro && 0 <= p.ra <= i && 0 <= p.rt <= t.len()
        &&& forall|j: int| i <= j < a.len() && #[trigger] x2[j] >= 0 ==> p.rt <= x2[j]
    }),
    decreases i,
{
    if i > 0 {
        lemma_ours_same(x1, x2, a, t, i - 1);
        let p = refp(x1, x2, a, a, t, i - 1);
        assert(x1[i - 1] == i - 1);
        if x2[i - 1] >= 0 {
            let q = x2[i - 1];
            lemma_reg_ours(a.subrange(p.ra, i - 1), t.subrange(p.rt, q));
            lemma_lns_sub(t, 0, p.rt, q);
            lemma_lns_sub(t, 0, q, q + 1);
            assert(a.subrange(i - 1, i) =~= t.subrange(q, q + 1));
        }
    } else {
        assert(t.subrange(0, 0) =~= Seq::empty());
        assert(lns(t.subrange(0, 0)) =~= Seq::<It<X>>::empty());
    }
}
pub proof fn lemma_theirs_same<X>(x1: Seq<int>, x2: Seq<int>, a: Seq<X>, o: Seq<X>, i: int)
    requires ident(x2), x2.len() == a.len(), is_align(x1, a, o), 0 <= i <= a.len(),
    ensures ({
        let p = refp(x1, x2, a, o, a, i);
        &&& p.its == lns(o.subrange(0, p.ro)) && p.ra == p.rt && 0 <= p.ra <= i && 0 <= p.ro <= o.len()
        &&& forall|j: int| i <= j < a.len() && #[trigger] x1[j] >= 0 ==> p.ro <= x1[j]
    }),
    decreases i,
{
    if i > 0 {
        lemma_theirs_same(x1, x2, a, o, i - 1);
        let p = refp(x1, x2, a, o, a, i - 1);
        assert(x2[i - 1] == i - 1);
        if x1[i - 1] >= 0 {
            let q = x1[i - 1];
            lemma_reg_ours(a.subrange(p.ra, i - 1), o.subrange(p.ro, q));
            lemma_lns_sub(o, 0, p.ro, q);
            lemma_lns_sub(o, 0, q, q + 1);
            assert(a.subrange(i - 1, i) =~= o.subrange(q, q + 1));
        }
    } else {
        assert(o.subrange(0, 0) =~= Seq::empty());
        assert(lns(o.subrange(0, 0)) =~= Seq::<It<X>>::empty());
    }
}
pub proof fn lemma_both_same<X>(x: Seq<int>, a: Seq<X>, o: Seq<X>, i: int)
    requires is_align(x, a, o), 0 <= i <= a.len(),
    ensures ({
        let p = refp(x, x, a, o, o, i);
        &&& p.its == lns(o.subrange(0, p.ro)) && p.ro == p.rt && 0 <= p.ra <= i && 0 <= p.ro <= o.len()
        &&& forall|j: int| i <= j < a.len() && #[trigger] x[j] >= 0 ==> p.ro <= x[j]
    }),
    decreases i,
{
    if i > 0 {
        lemma_both_same(x, a, o, i - 1);
        let p = refp(x, x, a, o, o, i - 1);
        if x[i - 1] >= 0 {
            let q = x[i - 1];
            lemma_reg_ours(a.subrange(p.ra, i - 1), o.subrange(p.ro, q));
            lemma_lns_sub(o, 0, p.ro, q);
            lemma_lns_sub(o, 0, q, q + 1);
            assert(a.subrange(i - 1, i) =~= o.subrange(q, q + 1));
        }
    } else {
        assert(o.subrange(0, 0) =~= Seq::empty());
        assert(lns(o.subrange(0, 0)) =~= Seq::<It<X>>::empty());
    }
}
/// [C11] one-sided and identical changes
pub proof fn lemma_trivial<X>(x1: Seq<int>, x2: Seq<int>, a: Seq<X>, o: Seq<X>, t: Seq<X>)
    requires is_align(x1, a, o), is_align(x2, a, t), o == a ==> ident(x1), t == a ==> ident(x2), o == t ==> x1 == x2,
    ensures o == a ==> merge_ref(x1, x2, a, o, t) == lns(t), t == a ==> merge_ref(x1, x2, a, o, t) == lns(o), o == t ==> merge_ref(x1, x2, a, o, t) == lns(o),
{
    let n = a.len() as int;
    let p = refp(x1, x2, a, o, t, n);
    if o == a {
        lemma_ours_same(x1, x2, a, t, n);
        lemma_reg_ours(a.subrange(p.ra, n), t.subrange(p.rt, t.len() as int));
        lemma_lns_sub(t, 0, p.rt, t.len() as int);
        assert(t.subrange(0, t.len() as int) =~= t);
    }
    if t == a {
        lemma_theirs_same(x1, x2, a, o, n);
        lemma_reg_ours(a.subrange(p.ra, n), o.subrange(p.ro, o.len() as int));
        lemma_lns_sub(o, 0, p.ro, o.len() as int);
        assert(o.subrange(0, o.len() as int) =~= o);
    }
    if o == t {
        lemma_both_same(x1, a, o, n);
        lemma_reg_ours(a.subrange(p.ra, n), o.subrange(p.ro, o.len() as int));
        lemma_lns_sub(o, 0, p.ro, o.len() as int);
        assert(o.subrange(0, o.len() as int) =~= o);
    }
}

// ------------------------------------------------------------------ the result of a merge
/// the outcome of merging texts a, o, t
pub open spec fn outcome(a: Seq<u8>, o: Seq<u8>, t: Seq<u8>) -> Seq<It<Seq<u8>>> {
    merge_ref(align(lines(a), lines(o), true), align(lines(a), lines(t), true), lines(a), lines(o), lines(t))
}
/// [C10] success exactly without conflicts
pub open spec fn result_ok<R>(r: Result<R, R>, its: Seq<It<Seq<u8>>>) -> bool { r is Ok <==> nconf(its) == 0 }
pub open spec fn val<R>(r: Result<R, R>) -> R { match r { Ok(x) => x, Err(x) => x } }
pub open spec fn d3s(s: ConflictStyle) -> bool { s is Diff3 }
pub open spec fn merge_post<R>(r: Result<R, R>, v: Seq<u8>, a: Seq<u8>, o: Seq<u8>, t: Seq<u8>, len: int, d3: bool) -> bool {
    // [C10]
    &&& result_ok(r, outcome(a, o, t))
    // [C10] [C12]
    &&& v == rend(outcome(a, o, t), len, d3)
    // [C10]
    &&& shown(align(lines(a), lines(o), true), hunks_of_texts(a, o, true, 0))
    &&& shown(align(lines(a), lines(t), true), hunks_of_texts(a, t, true, 0))
    // [C11]
    &&& trivial(r, v, a, o, t)
}
/// [C11]
pub open spec fn trivial<R>(r: Result<R, R>, v: Seq<u8>, a: Seq<u8>, o: Seq<u8>, t: Seq<u8>) -> bool {
    &&& o == a ==> r is Ok && v == t
    &&& t == a ==> r is Ok && v == o
    &&& o == t ==> r is Ok && v == o
}
// ------------------------------------------------------------------ C10: the alignment is what a zero-context patch shows
/// [C10] y sends every line outside the hunks to where the patch leaves it, and exactly the lines inside them to -1
pub open spec fn shown(y: Seq<int>, hs: Seq<HV>) -> bool {
    &&& forall|k: int, i: int| 0 <= k < hs.len() && opos(#[trigger] hs[k]) <= i < opos(hs[k]) + hs[k].ol ==> 0 <= i < y.len() && #[trigger] y[i] == -1
    &&& forall|k: int, i: int| 0 <= k < hs.len() && opos(#[trigger] hs[k]) + hs[k].ol <= i < (if k + 1 < hs.len() { opos(hs[k + 1]) } else { y.len() as int })
        ==> 0 <= i < y.len() && #[trigger] y[i] == npos(hs[k]) + hs[k].nl + (i - opos(hs[k]) - hs[k].ol)
    &&& forall|i: int| 0 <= i < (if hs.len() > 0 { opos(hs[0]) } else { y.len() as int }) ==> i < y.len() && #[trigger] y[i] == i
}
pub open spec fn ev_ok(x: Seq<EV>, k: int, a: int, b: int) -> bool {
    0 <= x[k].a <= x[k].b <= a && 0 <= x[k].c <= x[k].d <= b && (k > 0 ==> x[k - 1].b < x[k].a && x[k - 1].d < x[k].c)
}
pub open spec fn evs_ok(x: Seq<EV>, a: int, b: int) -> bool {
    &&& forall|k: int| 0 <= k < x.len() ==> #[trigger] ev_ok(x, k, a, b)
    &&& if x.len() > 0 { b - x.last().d == a - x.last().b } else { a == b }
}
pub open spec fn nexta(x: Seq<EV>, k: int, a: int) -> int { if k + 1 < x.len() { x[k + 1].a } else { a } }
pub open spec fn told1(y: Seq<int>, x: Seq<EV>, k: int, a: int) -> bool {
    &&& forall|i: int| x[k].a <= i < x[k].b ==> #[trigger] y[i] == -1
    &&& forall|i: int| x[k].b <= i < nexta(x, k, a) ==> #[trigger] y[i] == x[k].d + (i - x[k].b)
}
pub open spec fn told(y: Seq<int>, x: Seq<EV>, a: int) -> bool {
    &&& y.len() == a
    &&& forall|k: int| 0 <= k < x.len() ==> #[trigger] told1(y, x, k, a)
    &&& forall|i: int| 0 <= i < (if x.len() > 0 { x[0].a } else { a }) ==> #[trigger] y[i] == i
}
pub open spec fn shape_ok(sh: Seq<(int, int)>) -> bool { forall|i: int| 0 <= i < sh.len() ==> 0 <= (#[trigger] sh[i]).0 <= 2 && sh[i].1 > 0 }
/// the changes and the alignment of a script tell the same
pub proof fn lemma_told(sh: Seq<(int, int)>)
    requires shape_ok(sh),
    ensures ({
        let f = bfold(sh);
        let x = opush(f.es, f.sc);
        &&& f.b == snend(sh, 0) && f.a == sal(sh, 0).len()
        &&& evs_ok(x, f.a, f.b) && told(sal(sh, 0), x, f.a)
        &&& match f.sc { Some(e) => e.b == f.a && e.d == f.b, None => f.es.len() > 0 ==> f.es.last().b < f.a }
    }),
    decreases sh.len(),
{
    if sh.len() > 0 {
        let p = sh.drop_last();
        let e = sh.last();
        assert(0 <= e.0 <= 2 && e.1 > 0) by { assert(e == sh[sh.len() - 1]); }
        assert(shape_ok(p)) by { assert forall|i: int| 0 <= i < p.len() implies 0 <= (#[trigger] p[i]).0 <= 2 && p[i].1 > 0 by { assert(p[i] == sh[i]); } }
        lemma_told(p);
        let f0 = bfold(p);
        let f = bfold(sh);
        let x0 = opush(f0.es, f0.sc);
        let x = opush(f.es, f.sc);
        let (y0, y) = (sal(p, 0), sal(sh, 0));
        assert(f == bstep1(f0, e));
        assert(y == y0 + sal1(e, f0.b));
        assert(f.a >= f0.a && f.b >= f0.b);
        if e.0 == 0 { assert(x == x0); }
        let n = x.len() - 1;
        assert(e.0 != 0 ==> x.len() > 0);
        if e.0 != 0 && f0.sc is Some { assert(x.len() == x0.len() && x[n].a == x0[n].a && x[n].c == x0[n].c); }
        if e.0 != 0 && f0.sc is None { assert(x.len() == x0.len() + 1 && x[n].a == f0.a && x[n].c == f0.b); }
        assert(forall|k: int| 0 <= k < n ==> x[k] == x0[k]);
        assert forall|k: int| 0 <= k < x.len() implies #[trigger] ev_ok(x, k, f.a, f.b) by {
            if k < x0.len() { assert(ev_ok(x0, k, f0.a, f0.b)); }
            if k > 0 { assert(ev_ok(x0, k - 1, f0.a, f0.b)); }
        }
        assert forall|i: int| 0 <= i < y0.len() implies #[trigger] y[i] == y0[i] by {}
        assert forall|k: int| 0 <= k < x.len() implies #[trigger] told1(y, x, k, f.a) by {
            assert(ev_ok(x, k, f.a, f.b));
            if k < x0.len() { assert(ev_ok(x0, k, f0.a, f0.b)); assert(told1(y0, x0, k, f0.a)); }
            if k + 1 < x.len() { assert(ev_ok(x, k + 1, f.a, f.b)); }
            if k + 1 < x0.len() { assert(ev_ok(x0, k + 1, f0.a, f0.b)); }
            assert forall|i: int| x[k].a <= i < x[k].b implies #[trigger] y[i] == -1 by {
                if i < y0.len() { assert(y[i] == y0[i]); assert(k < x0.len() && x0[k].a <= i < x0[k].b); }
            }
            assert forall|i: int| x[k].b <= i < nexta(x, k, f.a) implies #[trigger] y[i] == x[k].d + (i - x[k].b) by {
                if i < y0.len() { assert(y[i] == y0[i]); assert(k < x0.len() && x0[k].b <= i < nexta(x0, k, f0.a)); }
            }
        }
        assert forall|i: int| 0 <= i < (if x.len() > 0 { x[0].a } else { f.a }) implies #[trigger] y[i] == i by {
            if x0.len() > 0 { assert(ev_ok(x0, 0, f0.a, f0.b)); }
            if i < y0.len() { assert(y[i] == y0[i]); }
        }
    }
}
pub proof fn lemma_hk0(x: Seq<EV>, k: int, la: Seq<Seq<u8>>, lb: Seq<Seq<u8>>)
    requires evs_ok(x, la.len() as int, lb.len() as int), 0 <= k < x.len(),
    ensures !joins(x, k, la.len() as int, lb.len() as int, 0), ({
        let h = hk(x, k, k, la, lb, 0);
        opos(h) == x[k].a && h.ol == x[k].b - x[k].a && npos(h) == x[k].c && h.nl == x[k].d - x[k].c && h.lines == chg(x[k], la, lb)
    }),
{
    let (na, nb) = (la.len() as int, lb.len() as int);
    assert(ev_ok(x, k, na, nb));
    if k + 1 < x.len() { assert(ev_ok(x, k + 1, na, nb)); }
    assert(hk(x, k, k, la, lb, 0).lines =~= chg(x[k], la, lb));
}
pub proof fn lemma_hks0(x: Seq<EV>, i: int, la: Seq<Seq<u8>>, lb: Seq<Seq<u8>>)
    requires evs_ok(x, la.len() as int, lb.len() as int), 0 <= i <= x.len(),
    ensures hks(x, i, la, lb, 0).len() == x.len() - i, forall|k: int| i <= k < x.len() ==> hks(x, i, la, lb, 0)[k - i] == #[trigger] hk(x, k, k, la, lb, 0),
    decreases x.len() - i,
{
    if i < x.len() {
        lemma_hk0(x, i, la, lb);
        lemma_hks0(x, i + 1, la, lb);
        let t = hks(x, i + 1, la, lb, 0);
        assert(hks(x, i, la, lb, 0) == seq![hk(x, i, i, la, lb, 0)] + t);
        assert forall|k: int| i <= k < x.len() implies hks(x, i, la, lb, 0)[k - i] == #[trigger] hk(x, k, k, la, lb, 0) by {
            if k > i { assert(hks(x, i, la, lb, 0)[k - i] == t[k - i - 1]); }
        }
    }
}
/// [C10] the alignment of a script is what its hunks without context show
pub proof fn lemma_shown(sh: Seq<(int, int)>, la: Seq<Seq<u8>>, lb: Seq<Seq<u8>>)
    requires shape_ok(sh), sal(sh, 0).len() == la.len(), snend(sh, 0) == lb.len(),
    ensures shown(sal(sh, 0), hks(changes(sh), 0, la, lb, 0)),
{
    lemma_told(sh);
    let (x, y) = (changes(sh), sal(sh, 0));
    let (na, nb) = (la.len() as int, lb.len() as int);
    lemma_hks0(x, 0, la, lb);
    let hs = hks(x, 0, la, lb, 0);
    assert forall|k: int| 0 <= k < hs.len() implies opos(#[trigger] hs[k]) == x[k].a && hs[k].ol == x[k].b - x[k].a && npos(hs[k]) == x[k].c && hs[k].nl == x[k].d - x[k].c && ev_ok(x, k, na, nb) && told1(y, x, k, na) by {
        lemma_hk0(x, k, la, lb);
        assert(hs[k] == hk(x, k, k, la, lb, 0));
    }
    assert forall|k: int, i: int| 0 <= k < hs.len() && opos(#[trigger] hs[k]) + hs[k].ol <= i < (if k + 1 < hs.len() { opos(hs[k + 1]) } else { y.len() as int })
        implies 0 <= i < y.len() && #[trigger] y[i] == npos(hs[k]) + hs[k].nl + (i - opos(hs[k]) - hs[k].ol) by {
        assert(told1(y, x, k, na));
        if k + 1 < hs.len() { assert(ev_ok(x, k + 1, na, nb)); assert(opos(hs[k + 1]) == x[k + 1].a); }
        assert(x[k].b <= i < nexta(x, k, na));
    }
    if hs.len() > 0 { assert(opos(hs[0]) == x[0].a && ev_ok(x, 0, na, nb)); }
}
pub proof fn lemma_shape_ok<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, a: Seq<u64>, b: Seq<u64>)
    requires okp(s, a, b, 0, 0),
    ensures shape_ok(shape(s)),
    decreases s.len(),
{
    if s.len() > 0 {
        let p = s.drop_last();
        lemma_shape_ok(p, a, b);
        assert forall|i: int| 0 <= i < s.len() implies 0 <= (#[trigger] shape(s)[i]).0 <= 2 && shape(s)[i].1 > 0 by {
            if i < p.len() { assert(shape(s)[i] == shape(p)[i]); } else { assert(s[i] == s.last()); }
        }
    }
}
pub proof fn lemma_full_align<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, m: Map<Seq<u8>, u64>, la: Seq<Seq<u8>>, lb: Seq<Seq<u8>>)
    requires inj(m), known(m, la), known(m, lb), full(s, ids(m, la), ids(m, lb)), ids(m, la) == ids(m, lb) ==> all_equal(s), shape(s) == shape_of(ids(m, la), ids(m, lb), true),
    ensures al(s, 0) == align(la, lb, true), is_align(align(la, lb, true), la, lb), la == lb ==> ident(align(la, lb, true)),
        shown(align(la, lb, true), hks(changes(script(la, lb, true)), 0, la, lb, 0)), // [C10]
{
    lemma_shape_ok(s, ids(m, la), ids(m, lb));
    axiom_script(m, la, lb, true);
    let x = align(la, lb, true);
    let (a, b) = (ids(m, la), ids(m, lb));
    lemma_sal(s, a, b, 0);
    lemma_is_align(s, a, b);
    lemma_shown(shape(s), la, lb);
    assert forall|i: int| 0 <= i < x.len() implies -1 <= #[trigger] x[i] < lb.len() && (x[i] >= 0 ==> la[i] == lb[x[i]]) by {
        if x[i] >= 0 { lemma_ids_eq(m, la, lb, i, x[i]); }
    }
    if la == lb { lemma_al_equal(s, a, b); }
}
pub proof fn lemma_merge<'a, 'b, 'c, R>(ms: Seq<MergeRange<'a, 'b, 'c, [u64]>>, ms2: Seq<MergeRange<'a, 'b, 'c, [u64]>>, m: Map<Seq<u8>, u64>, s1: Seq<DiffRange<'a, 'b, [u64]>>, s2: Seq<DiffRange<'a, 'c, [u64]>>,
    a: Seq<u8>, o: Seq<u8>, t: Seq<u8>, r: Result<R, R>, v: Seq<u8>, len: int, d3: bool)
    requires
        inj(m), known(m, lines(a)), known(m, lines(o)), known(m, lines(t)),
        ({ let (ia, io, it) = (ids(m, lines(a)), ids(m, lines(o)), ids(m, lines(t)));
            full(s1, ia, io) && full(s2, ia, it) && (ia == io ==> all_equal(s1)) && (ia == it ==> all_equal(s2)) && shape(s1) == shape_of(ia, io, true) && shape(s2) == shape_of(ia, it, true)
            && is_merged(ms, ia, io, it, al(s1, 0), al(s2, 0)) }),
        ms.len() == ms2.len(), forall|i: int| 0 <= i < ms.len() ==> cleaned(ms[i], #[trigger] ms2[i]),
        result_ok(r, mos(ms2, lines(a), lines(o), lines(t))),
        v == rend(mos(ms2, lines(a), lines(o), lines(t)), len, d3),
    ensures merge_post(r, v, a, o, t, len, d3),
{
    let (la, lo, lt) = (lines(a), lines(o), lines(t));
    lemma_full_align(s1, m, la, lo);
    lemma_full_align(s2, m, la, lt);
    lemma_cleaned(ms, ms2, m, la, lo, lt, ms.len() as int);
    assert(ms.take(ms.len() as int) =~= ms && ms2.take(ms.len() as int) =~= ms2);
    assert(mis(ms, la, lo, lt) == outcome(a, o, t));
    lemma_trivial(align(la, lo, true), align(la, lt, true), la, lo, lt);
    lemma_rend_lns(Seq::empty(), lt, len, d3);
    lemma_rend_lns(Seq::empty(), lo, len, d3);
    lemma_nconf_lns(lt);
    lemma_nconf_lns(lo);
    lemma_lines(a);
    lemma_lines(o);
    lemma_lines(t);
    assert(Seq::<u8>::empty() + cat(lt) =~= cat(lt));
    assert(Seq::<u8>::empty() + cat(lo) =~= cat(lo));
}
pub proof fn lemma_create<'a, 'b, 'c>(ra: Option<Range<'a, [u64]>>, ro: Option<Range<'b, [u64]>>, rt: Option<Range<'c, [u64]>>, m: Option<MergeRange<'a, 'b, 'c, [u64]>>, sa: Seq<u64>, so: Seq<u64>, st: Seq<u64>, b: P3, e: P3)
    requires
        rng(ra, sa, b.a, e.a), rng(ro, so, b.o, e.o), rng(rt, st, b.t, e.t),
        0 <= b.a <= e.a <= sa.len(), 0 <= b.o <= e.o <= so.len(), 0 <= b.t <= e.t <= st.len(),
        created_by(ra, ro, rt, m),
    ensures out3(m, sa, so, st, b, e),
{
    if m is Some {
        let mm = m->0;
        lemma_rng(ra, sa, b.a, e.a);
        lemma_rng(ro, so, b.o, e.o);
        lemma_rng(rt, st, b.t, e.t);
        assert(wfm(mm, sa, so, st)) by {
            assert forall|r: Range<'a, [u64]>| nil(r) implies rsub(r, sa) by { assert(r.sv() =~= sa.subrange(0, 0)); }
            assert forall|r: Range<'b, [u64]>| nil(r) implies rsub(r, so) by { assert(r.sv() =~= so.subrange(0, 0)); }
            assert forall|r: Range<'c, [u64]>| nil(r) implies rsub(r, st) by { assert(r.sv() =~= st.subrange(0, 0)); }
        }
        assert forall|a: Seq<Seq<u8>>, o: Seq<Seq<u8>>, t: Seq<Seq<u8>>| a.len() == sa.len() && o.len() == so.len() && t.len() == st.len() implies
            #[trigger] mi(mm, a, o, t) == reg(a.subrange(b.a, e.a), o.subrange(b.o, e.o), t.subrange(b.t, e.t)) by {
            let (pa, po, pt) = (a.subrange(b.a, e.a), o.subrange(b.o, e.o), t.subrange(b.t, e.t));
            let z = Seq::<Seq<u8>>::empty();
            if b.a == e.a { assert(pa =~= z); }
            if b.o == e.o { assert(po =~= z); }
            if b.t == e.t { assert(pt =~= z); }
            assert(a.subrange(0, 0) =~= z && o.subrange(0, 0) =~= z && t.subrange(0, 0) =~= z);
            match mm {
                MergeRange::Conflict(qa, qo, qt) => { assert(sub_of(qa, a) == pa && sub_of(qo, o) == po && sub_of(qt, t) == pt); }
                MergeRange::Ours(qo) => { assert(sub_of(qo, o) == po); }
                MergeRange::Theirs(qt) => { assert(sub_of(qt, t) == pt); }
                _ => {}
            }
        }
    }
}
pub open spec fn nil<'a>(r: Range<'a, [u64]>) -> bool { r.len == 0 && r.offset == 0 && r.fits() }
pub open spec fn same_or_nil<'a>(r: Range<'a, [u64]>, o: Option<Range<'a, [u64]>>) -> bool { match o { Some(x) => r == x, None => nil(r) } }
pub open spec fn created_by<'a, 'b, 'c>(ra: Option<Range<'a, [u64]>>, ro: Option<Range<'b, [u64]>>, rt: Option<Range<'c, [u64]>>, m: Option<MergeRange<'a, 'b, 'c, [u64]>>) -> bool {
    match m {
        None => ra is None && ro is None && rt is None,
        Some(MergeRange::Conflict(qa, qo, qt)) => same_or_nil(qa, ra) && same_or_nil(qo, ro) && same_or_nil(qt, rt),
        Some(MergeRange::Ours(qo)) => ra is None && rt is None && same_or_nil(qo, ro),
        Some(MergeRange::Theirs(qt)) => ra is None && ro is None && same_or_nil(qt, rt),
        _ => false,
    }
}
pub proof fn lemma_rng<'a>(r: Option<Range<'a, [u64]>>, s: Seq<u64>, b: int, e: int)
    requires rng(r, s, b, e), 0 <= b <= e <= s.len(),
    ensures r is Some ==> rsub(r->0, s),
{
    if r is Some { let x = r->0; if x.len == 0 { assert(x.sv() =~= s.subrange(0, 0)); } }
}
/// the text after one more range
pub open spec fn stepv<'a, 'b, 'c, T: ?Sized>(out: Seq<u8>, e: MergeRange<'a, 'b, 'c, T>, a: Seq<Seq<u8>>, o: Seq<Seq<u8>>, t: Seq<Seq<u8>>, n: int, d3: bool) -> Seq<u8> {
    match e {
        MergeRange::Equal(ra, _, _) => out + cat(sub_of(ra, a)),
        MergeRange::Conflict(ra, ro, rt) => rend_cf(out, sub_of(ra, a), sub_of(ro, o), sub_of(rt, t), n, d3),
        MergeRange::Ours(ro) => out + cat(sub_of(ro, o)),
        MergeRange::Theirs(rt) => out + cat(sub_of(rt, t)),
        MergeRange::Both(ro, _) => out + cat(sub_of(ro, o)),
    }
}
pub proof fn lemma_step<'a, 'b, 'c, T: ?Sized>(ms: Seq<MergeRange<'a, 'b, 'c, T>>, a: Seq<Seq<u8>>, o: Seq<Seq<u8>>, t: Seq<Seq<u8>>, i: int, out0: Seq<u8>, out: Seq<u8>, n: int, d3: bool)
    requires 0 < i <= ms.len(), out0 == rend(mos(ms.take(i - 1), a, o, t), n, d3), out == stepv(out0, ms[i - 1], a, o, t, n, d3),
    ensures out == rend(mos(ms.take(i), a, o, t), n, d3),
        nconf(mos(ms.take(i), a, o, t)) == nconf(mos(ms.take(i - 1), a, o, t)) + (if ms[i - 1] is Conflict { 1int } else { 0 }),
{
    let e = ms[i - 1];
    let m1 = mos(ms.take(i - 1), a, o, t);
    assert(ms.take(i).drop_last() =~= ms.take(i - 1));
    lemma_rend_concat(Seq::empty(), m1, mo(e, a, o, t), n, d3);
    lemma_nconf_concat(m1, mo(e, a, o, t));
    match e {
        MergeRange::Conflict(ra, ro, rt) => {
            let it = It::Cf(sub_of(ra, a), sub_of(ro, o), sub_of(rt, t));
            let z = seq![it];
            assert(z.drop_last() =~= Seq::<It<Seq<u8>>>::empty());
            assert(rend_on(out0, z.drop_last(), n, d3) == out0);
            assert(nconf(z.drop_last()) == 0);
            assert(nconf(z) == 1);
        }
        MergeRange::Equal(r, _, _) => { lemma_rend_lns(out0, sub_of(r, a), n, d3); lemma_nconf_lns(sub_of(r, a)); }
        MergeRange::Ours(r) => { lemma_rend_lns(out0, sub_of(r, o), n, d3); lemma_nconf_lns(sub_of(r, o)); }
        MergeRange::Theirs(r) => { lemma_rend_lns(out0, sub_of(r, t), n, d3); lemma_nconf_lns(sub_of(r, t)); }
        MergeRange::Both(r, _) => { lemma_rend_lns(out0, sub_of(r, o), n, d3); lemma_nconf_lns(sub_of(r, o)); }
    }
}
//@ const DEFAULT_CONFLICT_MARKER_LENGTH
//@ type Diff3Range
//@ implraw Copy@Diff3Range
//@ fn Clone@Diff3Range::clone
    ensures r == *self,
//@ type MergeRange
//@ implraw Copy@MergeRange
//@ fn Clone@MergeRange::clone
    ensures r == *self,
//@ type ConflictStyle
//@ type MergeOptions
//@ fn MergeOptions::new
    // [C12] documented defaults
    ensures r.conflict_marker_length == 7, d3s(r.style),
//@ fn MergeOptions::set_conflict_marker_length
    ensures r.conflict_marker_length == conflict_marker_length, r.style == old(self).style, *final(r) == *final(self),
//@ fn MergeOptions::set_conflict_style
    ensures r.conflict_marker_length == old(self).conflict_marker_length, r.style == style, *final(r) == *final(self),
//@ fn MergeOptions::merge
    ensures merge_post(r, val(r).bs(), str_bytes(ancestor), str_bytes(ours), str_bytes(theirs), self.conflict_marker_length as int, d3s(self.style)),
//@ fn MergeOptions::merge_bytes
    ensures merge_post(r, val(r)@, ancestor@, ours@, theirs@, self.conflict_marker_length as int, d3s(self.style)),
//@ fn Default@MergeOptions::default
    ensures r.conflict_marker_length == 7, d3s(r.style),
//@ fn merge
    ensures merge_post(r, val(r).bs(), str_bytes(ancestor), str_bytes(ours), str_bytes(theirs), 7, true),
//@ fn merge_bytes
    ensures merge_post(r, val(r)@, ancestor@, ours@, theirs@, 7, true),
//@ ghost MergeOptions::merge after let (ancestor_lines
    let ghost m1 = classifier.m();
//@ ghost MergeOptions::merge after let (our_lines
    let ghost m2 = classifier.m();
//@ ghost MergeOptions::merge before let opts
    let ghost m = classifier.m();
    let ghost (la, lo, lt) = (lines(ancestor.tv()), lines(ours.tv()), lines(theirs.tv()));
    proof {
        lemma_ids_sub(m1, m2, la);
        lemma_ids_sub(m2, m, la);
        lemma_ids_sub(m2, m, lo);
        assert(ancestor_lines@.len() == la.len() && our_lines@.len() == lo.len() && their_lines@.len() == lt.len());
    }
//@ ghost MergeOptions::merge before let merged
    proof { assert(both_full(our_solution@, their_solution@, ancestor_ids@, our_ids@, their_ids@)); }
//@ ghost MergeOptions::merge after let merged
    proof { assert(d3full(merged@, ancestor_ids@, our_ids@, their_ids@, al(our_solution@, 0), al(their_solution@, 0))); }
//@ ghost MergeOptions::merge after let mut merge
    let ghost ms = merge@;
    proof {
        assert(is_merged(ms, ancestor_ids@, our_ids@, their_ids@, al(our_solution@, 0), al(their_solution@, 0)));
        assert forall|i: int| 0 <= i < ms.len() implies fitm(#[trigger] ms[i]) by { assert(wfm(ms[i], ancestor_ids@, our_ids@, their_ids@)); }
    }
//@ ghost MergeOptions::merge after cleanup_conflicts
    proof { lemma_cleaned(ms, merge@, m, la, lo, lt, ms.len() as int); }
//@ ghost MergeOptions::merge end
    proof { lemma_merge(ms, merge@, m, our_solution@, their_solution@, ancestor.tv(), ours.tv(), theirs.tv(), r__, val(r__).bs(), self.conflict_marker_length as int, d3s(self.style)); }
//@ ghost MergeOptions::merge_bytes after let (ancestor_lines
    let ghost m1 = classifier.m();
//@ ghost MergeOptions::merge_bytes after let (our_lines
    let ghost m2 = classifier.m();
//@ ghost MergeOptions::merge_bytes before let opts
    let ghost m = classifier.m();
    let ghost (la, lo, lt) = (lines(ancestor.tv()), lines(ours.tv()), lines(theirs.tv()));
    proof {
        lemma_ids_sub(m1, m2, la);
        lemma_ids_sub(m2, m, la);
        lemma_ids_sub(m2, m, lo);
        assert(ancestor_lines@.len() == la.len() && our_lines@.len() == lo.len() && their_lines@.len() == lt.len());
    }
//@ ghost MergeOptions::merge_bytes before let merged
    proof { assert(both_full(our_solution@, their_solution@, ancestor_ids@, our_ids@, their_ids@)); }
//@ ghost MergeOptions::merge_bytes after let merged
    proof { assert(d3full(merged@, ancestor_ids@, our_ids@, their_ids@, al(our_solution@, 0), al(their_solution@, 0))); }
//@ ghost MergeOptions::merge_bytes after let mut merge
    let ghost ms = merge@;
    proof {
        assert(is_merged(ms, ancestor_ids@, our_ids@, their_ids@, al(our_solution@, 0), al(their_solution@, 0)));
        assert forall|i: int| 0 <= i < ms.len() implies fitm(#[trigger] ms[i]) by { assert(wfm(ms[i], ancestor_ids@, our_ids@, their_ids@)); }
    }
//@ ghost MergeOptions::merge_bytes after cleanup_conflicts
    proof { lemma_cleaned(ms, merge@, m, la, lo, lt, ms.len() as int); }
//@ ghost MergeOptions::merge_bytes end
    proof { lemma_merge(ms, merge@, m, our_solution@, their_solution@, ancestor.tv(), ours.tv(), theirs.tv(), r__, val(r__)@, self.conflict_marker_length as int, d3s(self.style)); }
//@ fn shrink_front
    requires (match *old(maybe_range) { None => true, Some(d) => (match d {
        DiffRange::Equal(a, b) => a.offset + len <= usize::MAX && a.len >= len && b.offset + len <= usize::MAX && b.len >= len,
        DiffRange::Delete(a) => a.offset + len <= usize::MAX && a.len >= len,
        DiffRange::Insert(a) => a.offset + len <= usize::MAX && a.len >= len,
    }) }),
    ensures (match (*old(maybe_range), *final(maybe_range)) { (Some(d), Some(e)) => e == shr(d, len as int), (None, None) => true, _ => false }),
//@ fn merge_solutions hide=sleft hide=d3ok hide=kept hide=gone hide=ok hide=okp hide=full
    requires exists|a: Seq<u64>, o: Seq<u64>, t: Seq<u64>| #[trigger] both_full(our_solution@, their_solution@, a, o, t),
    ensures forall|a: Seq<u64>, o: Seq<u64>, t: Seq<u64>| #[trigger] both_full(our_solution@, their_solution@, a, o, t) ==> d3full(r@, a, o, t, al(our_solution@, 0), al(their_solution@, 0)),
//@ ghost merge_solutions start
    let ghost (s1, s2) = (our_solution@, their_solution@);
    let ghost (x1, x2) = (al(s1, 0), al(s2, 0));
    let ghost (ga, go, gt) = choose|a: Seq<u64>, o: Seq<u64>, t: Seq<u64>| #[trigger] both_full(s1, s2, a, o, t);
    let ghost mut p = p3(0, 0, 0);
//@ ghost merge_solutions after let mut their_solution
    proof { assert(our_solution.rest() =~= s1); assert(their_solution.rest() =~= s2); }
//@ ghost merge_solutions loop l0 before
    proof {
        lemma_start(s1, ours, our_solution.rest(), ga, go);
        lemma_start(s2, theirs, their_solution.rest(), ga, gt);
        lemma_d3_empty(solution@, ga, go, gt, x1, x2);
    }
//@ loop merge_solutions l0
    invariant
        both_full(s1, s2, ga, go, gt), x1 == al(s1, 0), x2 == al(s2, 0), x1.len() == ga.len(), x2.len() == ga.len(),
        d3ok(solution@, ga, go, gt, x1, x2), d3end(solution@) == p, 0 <= p.a <= ga.len(), p.o <= go.len(), p.t <= gt.len(),
        sleft(ours, our_solution.rest(), ga, go, x1, p.a, p.o), fresh(ours, our_solution.rest()),
        sleft(theirs, their_solution.rest(), ga, gt, x2, p.a, p.t), fresh(theirs, their_solution.rest()),
    decreases ga.len() - p.a + go.len() - p.o + gt.len() - p.t,
//@ ghost merge_solutions loop l0 start
    let ghost (e1, e2, t1, t2, p0, sol0) = (ours, theirs, our_solution.rest(), their_solution.rest(), p, solution@);
    proof {
        lemma_head(e1, t1, ga, go, x1, p.a, p.o);
        lemma_head(e2, t2, ga, gt, x2, p.a, p.t);
    }
//@ ghost merge_solutions after solution.push
    let ghost (f1, f2) = (ours, theirs);
    proof {
        assert(zipped(e1, e2, f1, f2, merge_range));
        lemma_zip(sol0, e1, e2, f1, f2, merge_range, t1, t2, ga, go, gt, x1, x2, p0);
        p = d3adv(merge_range, p0);
    }
//@ ghost merge_solutions loop l0 end
    proof {
        lemma_next(f1, t1, ours, our_solution.rest(), ga, go, x1, p.a, p.o);
        lemma_next(f2, t2, theirs, their_solution.rest(), ga, gt, x2, p.a, p.t);
    }
//@ ghost merge_solutions end
    proof {
        lemma_head(ours, our_solution.rest(), ga, go, x1, p.a, p.o);
        lemma_head(theirs, their_solution.rest(), ga, gt, x2, p.a, p.t);
        assert forall|a: Seq<u64>, o: Seq<u64>, t: Seq<u64>| #[trigger] both_full(s1, s2, a, o, t) implies d3full(r__@, a, o, t, x1, x2) by {
            lemma_unique(s1, ga, go, a, o);
            lemma_unique(s2, ga, gt, a, t);
        }
    }
//@ fn set_or_merge_range
    requires (match *old(range1) { Some(r) => r.len == 0 || range2.len == 0 || (r.offset + r.len == range2.offset && r.len + range2.len <= usize::MAX), None => true }),
    ensures (match (*old(range1), *final(range1)) {
        (_, None) => false,
        (None, Some(f)) => f == range2,
        (Some(r), Some(f)) => if r.len == 0 { f == range2 } else if range2.len == 0 { f == r } else { f.inner == r.inner && f.offset == r.offset && f.len == r.len + range2.len },
    }),
//@ fn create_merge_range
    requires ancestor is Some ==> ours is Some || theirs is Some,
    ensures forall|sa: Seq<u64>, so: Seq<u64>, st: Seq<u64>, b: P3, e: P3|
        rng(ancestor, sa, b.a, e.a) && rng(ours, so, b.o, e.o) && rng(theirs, st, b.t, e.t)
        && 0 <= b.a <= e.a <= sa.len() && 0 <= b.o <= e.o <= so.len() && 0 <= b.t <= e.t <= st.len()
        ==> #[trigger] out3(r, sa, so, st, b, e),
//@ ghost create_merge_range end
    proof {
        assert forall|sa: Seq<u64>, so: Seq<u64>, st: Seq<u64>, b: P3, e: P3|
        rng(ancestor, sa, b.a, e.a) && rng(ours, so, b.o, e.o) && rng(theirs, st, b.t, e.t)
        && 0 <= b.a <= e.a <= sa.len() && 0 <= b.o <= e.o <= so.len() && 0 <= b.t <= e.t <= st.len()
        implies #[trigger] out3(r__, sa, so, st, b, e) by {
            lemma_create(ancestor, ours, theirs, r__, sa, so, st, b, e);
        }
    }
//@ fn diff3_range_to_merge_range
    requires exists|a: Seq<u64>, o: Seq<u64>, t: Seq<u64>, x1: Seq<int>, x2: Seq<int>| #[trigger] d3full(solution@, a, o, t, x1, x2),
    ensures forall|a: Seq<u64>, o: Seq<u64>, t: Seq<u64>, x1: Seq<int>, x2: Seq<int>| #[trigger] d3full(solution@, a, o, t, x1, x2) ==> is_merged(r@, a, o, t, x1, x2),
//@ ghost diff3_range_to_merge_range start
    let ghost sol = solution@;
    let ghost (ga, go, gt, x1, x2) = choose|a: Seq<u64>, o: Seq<u64>, t: Seq<u64>, x1: Seq<int>, x2: Seq<int>| #[trigger] d3full(sol, a, o, t, x1, x2);
    let ghost mut b = p3(0, 0, 0);
//@ ghost diff3_range_to_merge_range loop l0 before
    proof { assert(grouped(merge@, ancestor, ours, theirs, ga, go, gt, x1, x2, b, d3end(sol.take(0)))) by { assert(sol.take(0) =~= Seq::empty()); } }
//@ loop diff3_range_to_merge_range l0
    invariant
        d3full(sol, ga, go, gt, x1, x2), s0@ == sol, n0 == sol.len(), i0 <= n0,
        grouped(merge@, ancestor, ours, theirs, ga, go, gt, x1, x2, b, d3end(sol.take(i0 as int))),
    decreases n0 - i0,
//@ ghost diff3_range_to_merge_range loop l0 start
    let ghost (ra, ro, rt, ms0, e) = (ancestor, ours, theirs, merge@, d3end(sol.take(i0 - 1)));
    proof { lemma_d3_at(sol, ga, go, gt, x1, x2, i0 - 1); }
//@ ghost diff3_range_to_merge_range loop l0 end
    proof {
        match diff3 {
            Diff3Range::Equal(ea, eo, et) => {
                let m = if merge@.len() == ms0.len() + 1 { None } else { Some(merge@[ms0.len() as int]) };
                assert(out3(m, ga, go, gt, b, e));
                lemma_close(ms0, m, ra, ro, rt, ea, eo, et, ga, go, gt, x1, x2, b, e);
                assert(merge@ =~= (ms0 + opt_seq(m)).push(MergeRange::Equal(ea, eo, et)));
                b = d3adv(diff3, e);
            }
            _ => { lemma_open(ms0, ra, ro, rt, ancestor, ours, theirs, diff3, ga, go, gt, x1, x2, b, e); }
        }
    }
//@ ghost diff3_range_to_merge_range loop l0 after
    let ghost (ms1, ra1, ro1, rt1) = (merge@, ancestor, ours, theirs);
    proof { assert(sol.take(i0 as int) =~= sol); }
//@ ghost diff3_range_to_merge_range end
    proof {
        let m = if r__@.len() == ms1.len() { None } else { Some(r__@[ms1.len() as int]) };
        assert(out3(m, ga, go, gt, b, d3end(sol)));
        lemma_finish(ms1, m, ra1, ro1, rt1, ga, go, gt, x1, x2, b);
        assert(r__@ =~= ms1 + opt_seq(m));
        assert forall|a: Seq<u64>, o: Seq<u64>, t: Seq<u64>, y1: Seq<int>, y2: Seq<int>| #[trigger] d3full(sol, a, o, t, y1, y2) implies is_merged(r__@, a, o, t, y1, y2) by {
            lemma_d3_unique(sol, ga, go, gt, x1, x2, a, o, t, y1, y2);
        }
    }
//@ fn cleanup_conflicts
    requires forall|i: int| 0 <= i < old(solution)@.len() ==> fitm(#[trigger] old(solution)@[i]),
    ensures final(solution)@.len() == old(solution)@.len(), forall|i: int| 0 <= i < old(solution)@.len() ==> cleaned(old(solution)@[i], #[trigger] final(solution)@[i]),
//@ ghost cleanup_conflicts start
    let ghost s0 = solution@;
//@ loop cleanup_conflicts l0
    invariant
        solution@.len() == s0.len(), 0 <= pointer <= s0.len(),
        forall|i: int| 0 <= i < s0.len() ==> fitm(#[trigger] s0[i]),
        forall|i: int| 0 <= i < pointer ==> cleaned(s0[i], #[trigger] solution@[i]),
        forall|i: int| pointer <= i < s0.len() ==> s0[i] == #[trigger] solution@[i],
    ensures pointer == s0.len(),
    decreases s0.len() - pointer,
//@ fn add_conflict_marker
    requires (marker as u32) < 128, filename is Some ==> ascii(filename->0@),
    ensures final(output).bs() == mark(old(output).bs(), marker as u8, marker_len as int, match filename { Some(f) => Some(f@), None => None }),
//@ ghost add_conflict_marker loop l0 before
    let ghost o1 = output.bs();
//@ loop add_conflict_marker l0
    invariant (marker as u32) < 128, e0 == marker_len, i0 <= e0, output.bs() == o1 + rep(marker as u8, i0 as int),
    decreases e0 - i0,
//@ fn add_conflict_marker_bytes
    ensures final(output)@ == mark(old(output)@, marker, marker_len as int, match filename { Some(f) => Some(f@), None => None }),
//@ ghost add_conflict_marker_bytes start
    proof { let o = output@; if o.len() > 0 { assert(o.skip(o.len() - 1) =~= seq![o.last()]); assert(seq![o.last()][0] == o.last()); if o.last() == 10 { assert(is_suffix(seq![10u8], o)); } } }
//@ ghost add_conflict_marker_bytes loop l0 before
    let ghost o1 = output@;
//@ loop add_conflict_marker_bytes l0
    invariant e0 == marker_len, i0 <= e0, output@ == o1 + rep(marker, i0 as int),
    decreases e0 - i0,
//@ fn output_result
    requires forall|i: int| 0 <= i < merge@.len() ==> inb(#[trigger] merge@[i], ancestor@.len() as int, ours@.len() as int, theirs@.len() as int), merge@.len() <= usize::MAX,
    ensures ({ let its = mos(merge@, lv(ancestor@), lv(ours@), lv(theirs@)); result_ok(r, its) && val(r).bs() == rend(its, marker_len as int, d3s(style)) }),
//@ ghost output_result start
    let ghost (la, lo, lt, n, d3) = (lv(ancestor@), lv(ours@), lv(theirs@), marker_len as int, d3s(style));
//@ loop output_result l0
    invariant
        la == lv(ancestor@), lo == lv(ours@), lt == lv(theirs@), n == marker_len, d3 == d3s(style),
        s0@ == merge@, n0 == merge@.len(), i0 <= n0,
        forall|i: int| 0 <= i < merge@.len() ==> inb(#[trigger] merge@[i], ancestor@.len() as int, ours@.len() as int, theirs@.len() as int),
        output.bs() == rend(mos(merge@.take(i0 as int), la, lo, lt), n, d3), 0 <= conflicts <= i0, conflicts == nconf(mos(merge@.take(i0 as int), la, lo, lt)),
    decreases n0 - i0,
//@ ghost output_result loop l0 start
    let ghost out0 = output.bs();
    proof {
        lemma_lv_sub(ancestor@); lemma_lv_sub(ours@); lemma_lv_sub(theirs@);
        assert(ancestor@.len() == spec_slice_len(ancestor) && ours@.len() == spec_slice_len(ours) && theirs@.len() == spec_slice_len(theirs));
        assert(inb(merge@[i0 - 1], ancestor@.len() as int, ours@.len() as int, theirs@.len() as int));
    }
//@ ghost output_result loop l0 end
    proof { lemma_step(merge@, la, lo, lt, i0 as int, out0, output.bs(), n, d3); }
//@ ghost output_result loop l0 after
    proof { assert(merge@.take(i0 as int) =~= merge@); }
//@ fn output_result_bytes
    requires forall|i: int| 0 <= i < merge@.len() ==> inb(#[trigger] merge@[i], ancestor@.len() as int, ours@.len() as int, theirs@.len() as int), merge@.len() <= usize::MAX,
    ensures ({ let its = mos(merge@, lv(ancestor@), lv(ours@), lv(theirs@)); result_ok(r, its) && val(r)@ == rend(its, marker_len as int, d3s(style)) }),
//@ ghost output_result_bytes start
    let ghost (la, lo, lt, n, d3) = (lv(ancestor@), lv(ours@), lv(theirs@), marker_len as int, d3s(style));
//@ loop output_result_bytes l0
    invariant
        la == lv(ancestor@), lo == lv(ours@), lt == lv(theirs@), n == marker_len, d3 == d3s(style),
        s0@ == merge@, n0 == merge@.len(), i0 <= n0,
        forall|i: int| 0 <= i < merge@.len() ==> inb(#[trigger] merge@[i], ancestor@.len() as int, ours@.len() as int, theirs@.len() as int),
        output@ == rend(mos(merge@.take(i0 as int), la, lo, lt), n, d3), 0 <= conflicts <= i0, conflicts == nconf(mos(merge@.take(i0 as int), la, lo, lt)),
    decreases n0 - i0,
//@ ghost output_result_bytes loop l0 start
    let ghost out0 = output@;
    proof {
        lemma_lv_sub(ancestor@); lemma_lv_sub(ours@); lemma_lv_sub(theirs@);
        assert(ancestor@.len() == spec_slice_len(ancestor) && ours@.len() == spec_slice_len(ours) && theirs@.len() == spec_slice_len(theirs));
        assert(inb(merge@[i0 - 1], ancestor@.len() as int, ours@.len() as int, theirs@.len() as int));
    }
//@ ghost output_result_bytes loop l0 end
    proof { lemma_step(merge@, la, lo, lt, i0 as int, out0, output@, n, d3); }
//@ ghost output_result_bytes loop l0 after
    proof { assert(merge@.take(i0 as int) =~= merge@); }
