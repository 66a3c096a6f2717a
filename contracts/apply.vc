//@ source apply.rs
//@ addbound T=Text
//@ rebound PartialEq=Text Iterator=VIter IntoIterator=VIter
//@ retype String=VString
//@ rename Iterator VIter
//@ iterfn LineIter::new
//@ raw
use super::*;
use super::utils::*;
use super::patch::*;
use std::ops;

/// a line of the image: whether a hunk produced it, and its text
pub struct IL { pub p: bool, pub t: Seq<u8> }
impl<'a, T: Text + ?Sized> ImageLine<'a, T> {
    pub open spec fn v(self) -> IL { match self { ImageLine::Unpatched(t) => IL { p: false, t: t.tv() }, ImageLine::Patched(t) => IL { p: true, t: t.tv() } } }
}
impl<'a, T: Text + ?Sized> Vw for ImageLine<'a, T> { type V = IL; open spec fn vw(self) -> IL { self.v() } }
pub open spec fn ivs<'a, T: Text + ?Sized>(s: Seq<ImageLine<'a, T>>) -> Seq<IL> { s.map_values(|x: ImageLine<'a, T>| x.v()) }

// ------------------------------------------------------------------ C08, C09: what applying means
/// the hunk's old lines are there, and no hunk produced them
pub open spec fn matches(img: Seq<IL>, ls: Seq<LV>, p: int) -> bool {
    let old = pre(ls);
    0 <= p <= img.len() && p + old.len() <= img.len() && forall|k: int| 0 <= k < old.len() ==> !(#[trigger] img[p + k]).p && img[p + k].t == old[k]
}
/// the position stated by the hunk's new range
pub open spec fn stated(h: HV) -> int { if h.nl == 0 { h.ns } else if h.ns >= 1 { h.ns - 1 } else { 0 } }
pub open spec fn dist(a: int, b: int) -> int { if a <= b { b - a } else { a - b } }
/// p is the matching position nearest to the stated one, the earlier one on a tie
pub open spec fn is_best(img: Seq<IL>, h: HV, p: int) -> bool {
    matches(img, h.lines, p) && forall|q: int| #[trigger] matches(img, h.lines, q) ==> dist(p, stated(h)) < dist(q, stated(h)) || (dist(p, stated(h)) == dist(q, stated(h)) && p <= q)
}
pub open spec fn made(ts: Seq<Seq<u8>>, p: bool) -> Seq<IL> { ts.map_values(|t: Seq<u8>| IL { p, t }) }
pub open spec fn replaced(img: Seq<IL>, h: HV, p: int) -> Seq<IL> { img.take(p) + made(post(h.lines), true) + img.skip(p + pre(h.lines).len()) }
/// applying one hunk
pub open spec fn step(img: Seq<IL>, h: HV) -> Option<Seq<IL>> {
    if exists|p: int| is_best(img, h, p) { Some(replaced(img, h, choose|p: int| is_best(img, h, p))) } else { None }
}
/// applying the hunks in order; the index of the first that has no position
pub open spec fn run(img: Seq<IL>, hs: Seq<HV>) -> Result<Seq<IL>, int>
    decreases hs.len()
{
    if hs.len() == 0 { Ok(img) } else {
        match run(img, hs.drop_last()) {
            Err(k) => Err(k),
            Ok(x) => match step(x, hs.last()) { Some(y) => Ok(y), None => Err(hs.len() - 1) },
        }
    }
}
pub open spec fn texts(img: Seq<IL>) -> Seq<Seq<u8>> { img.map_values(|l: IL| l.t) }
/// [C08, C09] the result of applying hunks to a text, or the index of the failing hunk
pub open spec fn applied(base: Seq<u8>, hs: Seq<HV>) -> Result<Seq<u8>, int> {
    match run(made(lines(base), false), hs) { Ok(x) => Ok(cat(texts(x))), Err(k) => Err(k) }
}
pub proof fn lemma_step(img: Seq<IL>, h: HV, p: int)
    requires is_best(img, h, p),
    ensures step(img, h) == Some(replaced(img, h, p)),
{
    let q = choose|p: int| is_best(img, h, p);
    assert(is_best(img, h, q));
    assert(matches(img, h.lines, p) && matches(img, h.lines, q));
}

// ------------------------------------------------------------------ the order in which positions are tried
pub open spec fn inter<X>(a: Seq<X>, b: Seq<X>, f: bool) -> Seq<X>
    decreases a.len() + b.len()
{
    if f && a.len() > 0 { seq![a[0]] + inter(a.skip(1), b, !f) }
    else if b.len() > 0 { seq![b[0]] + inter(a, b.skip(1), !f) }
    else if a.len() > 0 { seq![a[0]] + inter(a.skip(1), b, !f) }
    else { Seq::empty() }
}

pub proof fn lemma_inter_next<X>(a: Seq<X>, b: Seq<X>, f: bool)
    ensures
        (f && a.len() > 0) || (b.len() == 0 && a.len() > 0) ==> inter(a, b, f).len() > 0 && inter(a, b, f)[0] == a[0] && inter(a, b, f).skip(1) == inter(a.skip(1), b, !f),
        !(f && a.len() > 0) && b.len() > 0 ==> inter(a, b, f).len() > 0 && inter(a, b, f)[0] == b[0] && inter(a, b, f).skip(1) == inter(a, b.skip(1), !f),
        a.len() == 0 && b.len() == 0 ==> inter(a, b, f).len() == 0,
{
    if (f && a.len() > 0) || (b.len() == 0 && a.len() > 0) { assert(inter(a, b, f).skip(1) =~= inter(a.skip(1), b, !f)); }
    if !(f && a.len() > 0) && b.len() > 0 { assert(inter(a, b, f).skip(1) =~= inter(a, b.skip(1), !f)); }
}
/// the positions before / after the starting one, by distance, from distance i+1 (j+1) on
pub open spec fn bwd(pos: int, i: int) -> Seq<usize> { Seq::new((pos - i) as nat, |k: int| (pos - 1 - i - k) as usize) }
pub open spec fn fwn(pos: int, len: int) -> int { if pos + 1 <= len { len - pos - 1 } else { 0 } }
pub open spec fn fwd(pos: int, j: int, len: int) -> Seq<usize> { Seq::new((fwn(pos, len) - j) as nat, |k: int| (pos + 1 + j + k) as usize) }
pub open spec fn tried(img: Seq<IL>, ls: Seq<LV>, pos: int, i: int, j: int) -> bool { forall|p: int| pos - i <= p <= pos + j ==> !#[trigger] matches(img, ls, p) }
pub open spec fn balance(pos: int, len: int, i: int, j: int, f: bool) -> bool {
    0 <= i <= pos && 0 <= j <= fwn(pos, len) && (i == pos || j == fwn(pos, len) || (f && i == j) || (!f && i == j + 1))
}
pub open spec fn back_next(pos: int, len: int, i: int, j: int, f: bool) -> bool { (f && i < pos) || j == fwn(pos, len) }
pub proof fn lemma_inter(pos: int, len: int, i: int, j: int, f: bool)
    requires balance(pos, len, i, j, f), len <= usize::MAX, pos <= len,
    ensures ({
        let s = inter(bwd(pos, i), fwd(pos, j, len), f);
        if i == pos && j == fwn(pos, len) { s.len() == 0 }
        else if back_next(pos, len, i, j, f) { s.len() > 0 && s[0] == pos - 1 - i && s.skip(1) == inter(bwd(pos, i + 1), fwd(pos, j, len), !f) && balance(pos, len, i + 1, j, !f) }
        else { s.len() > 0 && s[0] == pos + 1 + j && s.skip(1) == inter(bwd(pos, i), fwd(pos, j + 1, len), !f) && balance(pos, len, i, j + 1, !f) }
    }),
{
    let a = bwd(pos, i);
    let b = fwd(pos, j, len);
    let s = inter(a, b, f);
    if i == pos && j == fwn(pos, len) {
    } else if back_next(pos, len, i, j, f) {
        assert(a.skip(1) =~= bwd(pos, i + 1));
        assert(s =~= seq![a[0]] + inter(a.skip(1), b, !f));
        assert(s.skip(1) =~= inter(a.skip(1), b, !f));
    } else {
        assert(b.skip(1) =~= fwd(pos, j + 1, len));
        assert(s =~= seq![b[0]] + inter(a, b.skip(1), !f));
        assert(s.skip(1) =~= inter(a, b.skip(1), !f));
    }
}
/// only the end of the image is never tried, and a hunk that fits there fits everywhere
pub proof fn lemma_end(img: Seq<IL>, ls: Seq<LV>, pos: int)
    requires 0 <= pos <= img.len(), matches(img, ls, img.len() as int),
    ensures matches(img, ls, pos),
{}
/// the next position tried is the best one if it matches
pub proof fn lemma_best(img: Seq<IL>, h: HV, pos: int, i: int, j: int, q: int)
    requires
        pos == (if stated(h) <= img.len() { stated(h) } else { img.len() as int }), pos >= 0, 0 <= i <= pos, 0 <= j <= fwn(pos, img.len() as int),
        tried(img, h.lines, pos, i, j), matches(img, h.lines, q),
        (q == pos - 1 - i && (i <= j || j == fwn(pos, img.len() as int))) || (q == pos + 1 + j && (j < i || i == pos)),
    ensures is_best(img, h, q),
{
    assert forall|p: int| #[trigger] matches(img, h.lines, p) implies dist(q, stated(h)) < dist(p, stated(h)) || (dist(q, stated(h)) == dist(p, stated(h)) && q <= p) by {
        if p == img.len() { lemma_end(img, h.lines, pos); assert(!matches(img, h.lines, pos)); }
        assert(p < pos - i || p > pos + j);
    }
}
pub proof fn lemma_first(img: Seq<IL>, h: HV, pos: int)
    requires pos == (if stated(h) <= img.len() { stated(h) } else { img.len() as int }), matches(img, h.lines, pos),
    ensures is_best(img, h, pos),
{}
/// nothing is left to try
pub proof fn lemma_none(img: Seq<IL>, ls: Seq<LV>, pos: int)
    requires 0 <= pos <= img.len(), tried(img, ls, pos, pos, fwn(pos, img.len() as int)),
    ensures forall|p: int| !#[trigger] matches(img, ls, p),
{
    assert forall|p: int| !#[trigger] matches(img, ls, p) by {
        if matches(img, ls, p) { if p == img.len() { lemma_end(img, ls, pos); } }
    }
}
pub proof fn lemma_run_err(img: Seq<IL>, hs: Seq<HV>, k: int, e: int)
    requires 0 <= k <= hs.len(), run(img, hs.take(k)) == Err::<Seq<IL>, int>(e),
    ensures run(img, hs) == Err::<Seq<IL>, int>(e),
    decreases hs.len(),
{
    if k == hs.len() { assert(hs.take(k) =~= hs); } else {
        assert(hs.drop_last().take(k) =~= hs.take(k));
        lemma_run_err(img, hs.drop_last(), k, e);
    }
}
pub proof fn lemma_run_step(img: Seq<IL>, hs: Seq<HV>, k: int)
    requires 0 <= k < hs.len(), run(img, hs.take(k)) is Ok,
    ensures ({
        let x = run(img, hs.take(k))->Ok_0;
        match step(x, hs[k]) { Some(y) => run(img, hs.take(k + 1)) == Ok::<Seq<IL>, int>(y), None => run(img, hs) == Err::<Seq<IL>, int>(k) }
    }),
{
    assert(hs.take(k + 1).drop_last() =~= hs.take(k));
    assert(hs.take(k + 1).last() == hs[k]);
    let x = run(img, hs.take(k))->Ok_0;
    if step(x, hs[k]) is None { lemma_run_err(img, hs, k + 1, k); }
}
/// no slice holds more than isize::MAX bytes
pub axiom fn axiom_image_len<'a, T: Text + ?Sized>(s: &[ImageLine<'a, T>])
    ensures s@.len() <= isize::MAX / 16;
pub axiom fn axiom_line_len<'a, T: Text + ?Sized>(s: &[Line<'a, T>])
    ensures s@.len() <= isize::MAX / 16;
//@ type ApplyError
//@ type ImageLine attr=verifier::reject_recursive_types(T)
//@ type Interleave
//@ implraw Copy@ImageLine
//@ fn Clone@ImageLine::clone
    ensures r == *self,
//@ fn ImageLine::inner
    ensures r.tv() == self.v().t,
//@ fn ImageLine::into_inner
    ensures r.tv() == self.v().t,
//@ fn ImageLine::is_patched
    ensures r == self.v().p,
//@ fn apply collect=c1:VString
    ensures (match r { Ok(s) => applied(str_bytes(base_image), patch.v().hunks) == Ok::<Seq<u8>, int>(s.bs()), Err(e) => e.0 >= 1 && applied(str_bytes(base_image), patch.v().hunks) == Err::<Seq<u8>, int>(e.0 - 1) }),
//@ ghost apply start
    let ghost img0 = made(lines(str_bytes(base_image)), false);
    let ghost hs = hvs(patch.hunks@);
//@ loop apply c0
    invariant ivs(outc0@) + made(itc0.rest(), false) == img0,
    ensures itc0.rest().len() == 0,
    decreases itc0.rest().len(),
//@ ghost apply chain 0 start
    let ghost r1 = itc0.rest();
    let ghost o1 = ivs(outc0@);
//@ ghost apply chain 0 end
    assert(ivs(outc0@) =~= o1.push(IL { p: false, t: r1[0] }));
    assert(ivs(outc0@) + made(itc0.rest(), false) =~= o1 + made(r1, false));
//@ ghost apply chain 0 before
    assert(ivs(outc0@) + made(itc0.rest(), false) =~= img0);
//@ ghost apply chain 0 after
    assert(ivs(outc0@) + made(itc0.rest(), false) =~= ivs(outc0@));
//@ ghost apply loop l0 before
    assert(hs.take(0) =~= Seq::<HV>::empty());
//@ loop apply l0
    invariant
        s0@ == patch.hunks@, n0 == s0@.len(), i0 <= n0, hs == hvs(patch.hunks@), patch.v().hunks == hs,
        img0 == made(lines(str_bytes(base_image)), false), run(img0, hs.take(i0 as int)) == Ok::<Seq<IL>, int>(ivs(image@)),
    decreases n0 - i0,
//@ ghost apply loop l0 start
    proof { lemma_run_step(img0, hs, i0 - 1); }
//@ ghost apply loop l0 after
    assert(hs.take(n0 as int) =~= hs);
    let ghost fin = ivs(image@);
//@ loop apply c1
    invariant
        ivs(sc1@) == fin, nc1 == sc1@.len(), ic1 <= nc1, outc1.bs() == cat(texts(fin.take(ic1 as int))),
    decreases nc1 - ic1,
//@ ghost apply chain 1 before
    assert(texts(fin.take(0)) =~= Seq::<Seq<u8>>::empty());
//@ ghost apply chain 1 end
    proof {
        let k = ic1 - 1;
        assert(texts(fin.take(ic1 as int)) =~= texts(fin.take(k)) + seq![fin[k].t]);
        lemma_cat(texts(fin.take(k)), seq![fin[k].t]);
        lemma_cat1(fin[k].t);
    }
//@ ghost apply chain 1 after
    assert(fin.take(nc1 as int) =~= fin);
//@ fn apply_bytes
    ensures (match r { Ok(s) => applied(base_image@, patch.v().hunks) == Ok::<Seq<u8>, int>(s@), Err(e) => e.0 >= 1 && applied(base_image@, patch.v().hunks) == Err::<Seq<u8>, int>(e.0 - 1) }),
//@ ghost apply_bytes start
    let ghost img0 = made(lines(base_image@), false);
    let ghost hs = hvs(patch.hunks@);
//@ loop apply_bytes c0
    invariant ivs(outc0@) + made(itc0.rest(), false) == img0,
    ensures itc0.rest().len() == 0,
    decreases itc0.rest().len(),
//@ ghost apply_bytes chain 0 start
    let ghost r1 = itc0.rest();
    let ghost o1 = ivs(outc0@);
//@ ghost apply_bytes chain 0 end
    assert(ivs(outc0@) =~= o1.push(IL { p: false, t: r1[0] }));
    assert(ivs(outc0@) + made(itc0.rest(), false) =~= o1 + made(r1, false));
//@ ghost apply_bytes chain 0 before
    assert(ivs(outc0@) + made(itc0.rest(), false) =~= img0);
//@ ghost apply_bytes chain 0 after
    assert(ivs(outc0@) + made(itc0.rest(), false) =~= ivs(outc0@));
//@ ghost apply_bytes loop l0 before
    assert(hs.take(0) =~= Seq::<HV>::empty());
//@ loop apply_bytes l0
    invariant
        s0@ == patch.hunks@, n0 == s0@.len(), i0 <= n0, hs == hvs(patch.hunks@), patch.v().hunks == hs,
        img0 == made(lines(base_image@), false), run(img0, hs.take(i0 as int)) == Ok::<Seq<IL>, int>(ivs(image@)),
    decreases n0 - i0,
//@ ghost apply_bytes loop l0 start
    proof { lemma_run_step(img0, hs, i0 - 1); }
//@ ghost apply_bytes loop l0 after
    assert(hs.take(n0 as int) =~= hs);
    let ghost fin = ivs(image@);
//@ loop apply_bytes c1
    invariant
        ivs(sc1@) == fin, nc1 == sc1@.len(), ic1 <= nc1, outc1@ == cat(texts(fin.take(ic1 as int))),
    decreases nc1 - ic1,
//@ ghost apply_bytes chain 1 before
    assert(texts(fin.take(0)) =~= Seq::<Seq<u8>>::empty());
//@ ghost apply_bytes chain 1 end
    proof {
        let k = ic1 - 1;
        assert(texts(fin.take(ic1 as int)) =~= texts(fin.take(k)) + seq![fin[k].t]);
        lemma_cat(texts(fin.take(k)), seq![fin[k].t]);
        lemma_cat1(fin[k].t);
    }
//@ ghost apply_bytes chain 1 after
    assert(fin.take(nc1 as int) =~= fin);
//@ fn apply_hunk
    ensures (match r { Ok(_) => step(ivs(old(image)@), hunk.v()) == Some(ivs(final(image)@)), Err(_) => step(ivs(old(image)@), hunk.v()) is None }),
//@ ghost apply_hunk start
    let ghost img0 = ivs(image@);
    let ghost P = post(lvs(hunk.lines@));
//@ ghost apply_hunk before image.splice
    proof { lemma_step(img0, hunk.v(), pos as int); assert(image@.len() == image.len()); }
//@ loop apply_hunk c0
    invariant ivs(outc0@) + made(itc0.rest(), true) == made(P, true),
    ensures itc0.rest().len() == 0,
    decreases itc0.rest().len(),
//@ ghost apply_hunk chain 0 before
    assert(lv(itc0.items()) =~= itc0.rest());
    assert(ivs(outc0@) + made(itc0.rest(), true) =~= made(P, true));
//@ ghost apply_hunk chain 0 start
    let ghost r1 = itc0.rest();
    let ghost o1 = ivs(outc0@);
//@ ghost apply_hunk chain 0 end
    assert(ivs(outc0@) =~= o1.push(IL { p: true, t: r1[0] }));
    assert(ivs(outc0@) + made(itc0.rest(), true) =~= o1 + made(r1, true));
//@ ghost apply_hunk chain 0 after
    assert(ivs(outc0@) + made(itc0.rest(), true) =~= ivs(outc0@));
//@ ghost apply_hunk end
    assert(ivs(image@) =~= replaced(img0, hunk.v(), pos as int));
//@ fn find_position
    ensures (match r { Some(p) => is_best(ivs(image@), hunk.v(), p as int), None => forall|p: int| !#[trigger] matches(ivs(image@), hunk.v().lines, p) }),
//@ ghost find_position start
    let ghost img = ivs(image@);
    let ghost L = image@.len() as int;
    let ghost h = hunk.v();
    let ghost mut first = true;
    let ghost mut i: int = 0;
    let ghost mut j: int = 0;
    let ghost mut f = true;
    proof { axiom_image_len(image); }
//@ loop find_position c0
    invariant_except_break
        outc0 is None,
        first ==> itc0.rest() == seq![pos] + inter(bwd(pos as int, 0), fwd(pos as int, 0, L), true) && i == 0 && j == 0 && f,
        !first ==> itc0.rest() == inter(bwd(pos as int, i), fwd(pos as int, j, L), f) && tried(img, h.lines, pos as int, i, j),
    invariant
        img == ivs(image@), h == hunk.v(), L == image@.len(), L <= isize::MAX, pos <= L,
        pos == (if stated(h) <= L { stated(h) } else { L }), balance(pos as int, L, i, j, f),
    ensures
        (match outc0 { Some(p) => is_best(img, h, p as int), None => forall|p: int| !#[trigger] matches(img, h.lines, p) }),
    decreases itc0.rest().len(),
//@ ghost find_position after let forward
    assert(backward.rest() =~= bwd(pos as int, 0));
    assert(forward.rest() =~= fwd(pos as int, 0, L));
//@ ghost find_position chain 0 before
    assert(itc0.rest() =~= seq![pos] + inter(bwd(pos as int, 0), fwd(pos as int, 0, L), true));
//@ ghost find_position chain 0 start
    let ghost r1 = seq![pos] + inter(bwd(pos as int, 0), fwd(pos as int, 0, L), true);
    proof {
        lemma_inter(pos as int, L, i, j, f);
        assert(r1.skip(1) =~= inter(bwd(pos as int, 0), fwd(pos as int, 0, L), true));
    }
    let ghost i1 = i;
    let ghost j1 = j;
    let ghost f1 = f;
    let ghost first1 = first;
    proof {
        if !first && i == pos && j == fwn(pos as int, L) { lemma_none(img, h.lines, pos as int); }
        if first { assert(itc0.rest()[0] == pos); if matches(img, h.lines, pos as int) { lemma_first(img, h, pos as int); } }
        else if itc0.rest().len() > 0 { if matches(img, h.lines, itc0.rest()[0] as int) { lemma_best(img, h, pos as int, i, j, itc0.rest()[0] as int); } }
    }
//@ ghost find_position chain 0 end
    proof {
        if first { first = false; assert(tried(img, h.lines, pos as int, 0, 0)); }
        else if back_next(pos as int, L, i, j, f) { i = i + 1; f = !f; }
        else { j = j + 1; f = !f; }
    }
//@ ghost find_position chain 0 after
//@ fn pre_image_line_count
    ensures r == pre(lvs(lines@)).len(),
//@ ghost pre_image_line_count start
    proof { lemma_pre_len(lvs(lines@)); axiom_line_len(lines); }
//@ loop pre_image_line_count c0
    invariant outc0 + itc0.rest().len() == pre(lvs(lines@)).len(), pre(lvs(lines@)).len() <= isize::MAX,
    ensures itc0.rest().len() == 0,
    decreases itc0.rest().len(),
//@ ghost pre_image_line_count chain 0 before
    assert(lv(itc0.items()) =~= itc0.rest());
//@ fn post_image
    ensures lv(r.items()) == post(lvs(lines@)),
//@ loop post_image c0
    invariant sc0@ == lines@, nc0 == sc0@.len(), ic0 <= nc0, lv(outc0@) == post(lvs(lines@).take(ic0 as int)),
    decreases nc0 - ic0,
//@ ghost post_image chain 0 before
    assert(lvs(lines@).take(0) =~= Seq::<LV>::empty());
    assert(lv(outc0@) =~= post(lvs(lines@).take(0)));
//@ ghost post_image chain 0 start
    let ghost o1 = lv(outc0@);
    let ghost k = ic0 as int;
//@ ghost post_image chain 0 end
    proof {
        let ls = lvs(lines@);
        assert(ls.take(k + 1).drop_last() =~= ls.take(k));
        assert(ls.take(k + 1).last() == ls[k]);
        assert(lv(outc0@) =~= post(ls.take(k + 1)));
    }
//@ ghost post_image chain 0 after
    assert(lvs(lines@).take(nc0 as int) =~= lvs(lines@));
//@ fn pre_image
    ensures lv(r.items()) == pre(lvs(lines@)),
//@ loop pre_image c0
    invariant sc0@ == lines@, nc0 == sc0@.len(), ic0 <= nc0, lv(outc0@) == pre(lvs(lines@).take(ic0 as int)),
    decreases nc0 - ic0,
//@ ghost pre_image chain 0 before
    assert(lvs(lines@).take(0) =~= Seq::<LV>::empty());
    assert(lv(outc0@) =~= pre(lvs(lines@).take(0)));
//@ ghost pre_image chain 0 start
    let ghost o1 = lv(outc0@);
    let ghost k = ic0 as int;
//@ ghost pre_image chain 0 end
    proof {
        let ls = lvs(lines@);
        assert(ls.take(k + 1).drop_last() =~= ls.take(k));
        assert(ls.take(k + 1).last() == ls[k]);
        assert(lv(outc0@) =~= pre(ls.take(k + 1)));
    }
//@ ghost pre_image chain 0 after
    assert(lvs(lines@).take(nc0 as int) =~= lvs(lines@));
//@ fn match_fragment ty=outc2:Vec<&T>
    requires pos <= image@.len(),
    ensures r == matches(ivs(image@), lvs(lines@), pos as int),
//@ ghost match_fragment start
    let ghost img = ivs(image@);
    let ghost P = pre(lvs(lines@));
    proof { axiom_image_len(image); axiom_line_len(lines); lemma_pre_len(lvs(lines@)); }
//@ loop match_fragment c0
    invariant_except_break
        !outc0, forall|k: int| 0 <= k < ic0 ==> !(#[trigger] sc0@[k]).v().p,
    invariant
        sc0@ == image@, nc0 == sc0@.len(), ic0 <= nc0,
    ensures
        outc0 ==> exists|k: int| 0 <= k < image@.len() && (#[trigger] image@[k]).v().p,
        !outc0 ==> forall|k: int| 0 <= k < image@.len() ==> !(#[trigger] image@[k]).v().p,
    decreases nc0 - ic0,
//@ ghost match_fragment chain 0 after
    proof {
        assert(image@.len() == P.len());
        assert forall|k: int| 0 <= k < P.len() implies #[trigger] img[pos + k] == image@[k].v() by {}
        if outc0 { let k = choose|k: int| 0 <= k < image@.len() && (#[trigger] image@[k]).v().p; assert(img[pos + k].p); }
    }
//@ loop match_fragment c2
    invariant
        sc2@ == image@, nc2 == sc2@.len(), ic2 <= nc2, outc2@.len() == ic2,
        forall|k: int| 0 <= k < ic2 ==> (#[trigger] outc2@[k]).tv() == image@[k].v().t,
    decreases nc2 - ic2,
//@ ghost match_fragment chain 1 before
    let ghost mut k: int = 0;
    let ghost Q = oc1.rest();
    assert(lv(itc1.items()) =~= itc1.rest());
    assert(P.skip(0) =~= P);
    assert(Q.skip(0) =~= Q);
    assert forall|k: int| 0 <= k < Q.len() implies #[trigger] Q[k] == image@[k].v().t by {}
//@ loop match_fragment c1
    invariant_except_break
        outc1,
        itc1.rest() == P.skip(k), oc1.rest() == Q.skip(k),
    invariant
        0 <= k <= P.len(), Q.len() == P.len(),
        forall|x: int| 0 <= x < k ==> #[trigger] P[x] == Q[x],
    ensures
        outc1 ==> P == Q && oc1.rest().len() == 0, !outc1 ==> P != Q,
    decreases itc1.rest().len(),
//@ ghost match_fragment chain 1 end
    proof { k = k + 1; }
//@ ghost match_fragment chain 1 after
    proof {
        if P == Q { assert forall|x: int| 0 <= x < P.len() implies img[pos + x].t == P[x] by { assert(img[pos + x] == image@[x].v()); assert(Q[x] == P[x]); } }
        else if matches(img, lvs(lines@), pos as int) { assert(P =~= Q) by { assert forall|x: int| 0 <= x < P.len() implies P[x] == Q[x] by { assert(img[pos + x] == image@[x].v()); assert(img[pos + x].t == P[x]); } } }
    }
//@ fn interleave
    ensures r.rest() == inter(i.rest(), j.rest(), true),
//@ implraw Iterator@Interleave
    open spec fn rest(&self) -> Seq<<I::Item as Vw>::V> { inter(self.a.rest(), self.b.rest(), !self.flag) }
//@ fn Iterator@Interleave::next
//@ ghost Iterator@Interleave::next start
    proof { lemma_inter_next(self.a.rest(), self.b.rest(), !self.flag); }
//@ ghost Iterator@Interleave::next arm None #0
    assert(self.a.rest() =~= old(self).a.rest());
//@ ghost Iterator@Interleave::next arm None #1
    assert(self.b.rest() =~= old(self).b.rest());
