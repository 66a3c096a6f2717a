//@ source lib.rs
//@ raw
use super::*;
use super::utils::*;
use super::patch::*;
use super::diff::*;
use super::apply::*;

/// the image after applying hunks that are chained from la to lb
pub proof fn lemma_run_chained(hs: Seq<HV>, la: Seq<Seq<u8>>, lb: Seq<Seq<u8>>)
    requires chained(hs, la, lb),
    ensures
        0 <= oe(hs) <= la.len(), 0 <= ne(hs) <= lb.len(),
        run(made(la, false), hs) is Ok,
        ({
            let x = run(made(la, false), hs)->Ok_0;
            x.len() == ne(hs) + (la.len() - oe(hs)) && texts(x) == lb.take(ne(hs)) + la.skip(oe(hs)) && forall|k: int| ne(hs) <= k < x.len() ==> !(#[trigger] x[k]).p
        }),
    decreases hs.len(),
{
    let img0 = made(la, false);
    if hs.len() == 0 {
        assert(texts(img0) =~= lb.take(0) + la.skip(0));
    } else {
        let p = hs.drop_last();
        let h = hs.last();
        lemma_run_chained(p, la, lb);
        let x = run(img0, p)->Ok_0;
        let (o0, n0) = (oe(p), ne(p));
        let (o1, n1) = (opos(h), npos(h));
        assert(la.subrange(o0, o1).len() == lb.subrange(n0, n1).len());
        assert(o1 - o0 == n1 - n0);
        assert forall|k: int| n0 <= k < x.len() implies (#[trigger] x[k]).t == la[o0 + (k - n0)] by {
            assert(texts(x)[k] == x[k].t);
            assert((lb.take(n0) + la.skip(o0))[k] == la.skip(o0)[k - n0]);
        }
        assert(matches(x, h.lines, n1)) by {
            let old = pre(h.lines);
            assert forall|k: int| 0 <= k < old.len() implies !(#[trigger] x[n1 + k]).p && x[n1 + k].t == old[k] by {
                assert(old[k] == la.subrange(o1, o1 + h.ol)[k]);
                assert(x[n1 + k].t == la[o0 + (n1 + k - n0)]);
            }
        }
        assert(stated(h) == n1);
        lemma_step(x, h, n1);
        let y = replaced(x, h, n1);
        assert(run(img0, hs) == Ok::<Seq<IL>, int>(y));
        assert(oe(hs) == o1 + h.ol && ne(hs) == n1 + h.nl);
        assert(texts(y) =~= lb.take(ne(hs)) + la.skip(oe(hs))) by {
            assert forall|k: int| 0 <= k < y.len() implies #[trigger] texts(y)[k] == (lb.take(ne(hs)) + la.skip(oe(hs)))[k] by {
                if k < n0 { assert(y[k] == x[k]); assert(texts(x)[k] == (lb.take(n0) + la.skip(o0))[k]); }
                else if k < n1 {
                    assert(y[k] == x[k]);
                    assert(la.subrange(o0, o1)[k - n0] == lb.subrange(n0, n1)[k - n0]);
                } else if k < n1 + h.nl {
                    assert(y[k].t == post(h.lines)[k - n1]);
                    assert(lb.subrange(n1, n1 + h.nl)[k - n1] == lb[k]);
                } else {
                    assert(y[k] == x[k - h.nl + h.ol]);
                }
            }
        }
        assert forall|k: int| ne(hs) <= k < y.len() implies !(#[trigger] y[k]).p by { assert(y[k] == x[k - h.nl + h.ol]); }
    }
}
pub proof fn lemma_applied(hs: Seq<HV>, o: Seq<u8>, n: Seq<u8>)
    requires covers(hs, lines(o), lines(n)),
    ensures applied(o, hs) == Ok::<Seq<u8>, int>(n),
{
    lemma_run_chained(hs, lines(o), lines(n));
    let x = run(made(lines(o), false), hs)->Ok_0;
    assert(texts(x) =~= lines(n)) by { assert(lines(n).take(ne(hs)) + lines(n).skip(ne(hs)) =~= lines(n)); }
    lemma_lines(n);
}
/// a chain backwards
pub proof fn lemma_rev_chained(hs: Seq<HV>, la: Seq<Seq<u8>>, lb: Seq<Seq<u8>>)
    requires chained(hs, la, lb),
    ensures ({ let r = hs.map_values(|h: HV| hrev(h)); chained(r, lb, la) && oe(r) == ne(hs) && ne(r) == oe(hs) }),
    decreases hs.len(),
{
    let r = hs.map_values(|h: HV| hrev(h));
    if hs.len() > 0 {
        let p = hs.drop_last();
        lemma_rev_chained(p, la, lb);
        assert(r.drop_last() =~= p.map_values(|h: HV| hrev(h)));
        assert(r.last() == hrev(hs.last()));
        lemma_rev_lines(hs.last().lines);
    }
}
/// [C01] applying the patch made from o and n to o gives n
pub proof fn theorem_roundtrip(p: PV, o: Seq<u8>, n: Seq<u8>, ctx: int)
    requires created(p, o, n, ctx),
    ensures applied(o, p.hunks) == Ok::<Seq<u8>, int>(n),
{
    lemma_applied(p.hunks, o, n);
}
/// [C02] applying its reverse to n gives o; reversing twice is the identity
pub proof fn theorem_reverse(p: PV, o: Seq<u8>, n: Seq<u8>, ctx: int)
    requires created(p, o, n, ctx),
    ensures applied(n, prev(p).hunks) == Ok::<Seq<u8>, int>(o), prev(prev(p)) == p,
{
    lemma_rev_chained(p.hunks, lines(o), lines(n));
    lemma_applied(prev(p).hunks, n, o);
    theorem_rev_rev(p);
}
