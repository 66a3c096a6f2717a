//@ source range.rs
//@ inst SliceLike=[u64] PartialEq=u64
//@ inline for_each
//@ raw
use super::*;
use std::ops;

impl<'a, T: ?Sized> VClone for Range<'a, T> {
    open spec fn cl(&self, r: &Self) -> bool { *r == *self }
    fn vclone(&self) -> (r: Self) { *self }
}
impl<'a, T: ?Sized> Range<'a, T> {
    pub open spec fn lo(self) -> int { self.offset as int }
    pub open spec fn hi(self) -> int { self.offset + self.len }
}
impl<'a> Range<'a, [u64]> {
    /// the range lies in its text
    pub open spec fn fits(self) -> bool { self.offset + self.len <= self.inner@.len() && self.offset + self.len <= usize::MAX }
    /// the elements of the range
    pub open spec fn sv(self) -> Seq<u64> { self.inner@.subrange(self.offset as int, self.offset + self.len) }
}

/// r is the length of the longest common prefix
pub open spec fn is_cpl(a: Seq<u64>, b: Seq<u64>, r: int) -> bool {
    &&& 0 <= r <= a.len() && r <= b.len()
    &&& forall|i: int| 0 <= i < r ==> #[trigger] a[i] == b[i]
    &&& (r < a.len() && r < b.len() ==> a[r] != b[r])
}
/// r is the length of the longest common suffix
pub open spec fn is_csl(a: Seq<u64>, b: Seq<u64>, r: int) -> bool {
    &&& 0 <= r <= a.len() && r <= b.len()
    &&& forall|i: int| a.len() - r <= i < a.len() ==> #[trigger] a[i] == b[i - a.len() + b.len()]
    &&& (r < a.len() && r < b.len() ==> a[a.len() - 1 - r] != b[b.len() - 1 - r])
}

// ------------------------------------------------------------------ edit scripts
/// old / new length of an element
pub open spec fn ol<'a, 'b>(e: DiffRange<'a, 'b, [u64]>) -> int {
    match e { DiffRange::Equal(r, _) => r.len as int, DiffRange::Delete(r) => r.len as int, DiffRange::Insert(_) => 0 }
}
pub open spec fn nl<'a, 'b>(e: DiffRange<'a, 'b, [u64]>) -> int {
    match e { DiffRange::Equal(_, r) => r.len as int, DiffRange::Delete(_) => 0, DiffRange::Insert(r) => r.len as int }
}
/// the element says what happens at position o of the old and n of the new sequence
pub open spec fn elem_ok<'a, 'b>(e: DiffRange<'a, 'b, [u64]>, a: Seq<u64>, b: Seq<u64>, o: int, n: int) -> bool {
    match e {
        DiffRange::Equal(r1, r2) => {
            &&& r1.inner@ == a && r2.inner@ == b && r1.offset == o && r2.offset == n && r1.len == r2.len && r1.len > 0
            &&& r1.fits() && r2.fits()
            &&& r1.sv() == r2.sv()
        }
        DiffRange::Delete(r) => r.inner@ == a && r.offset == o && r.len > 0 && r.fits(),
        DiffRange::Insert(r) => r.inner@ == b && r.offset == n && r.len > 0 && r.fits(),
    }
}
pub open spec fn oend<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, o: int) -> int
    decreases s.len()
{ if s.len() == 0 { o } else { oend(s.drop_last(), o) + ol(s.last()) } }
pub open spec fn nend<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, n: int) -> int
    decreases s.len()
{ if s.len() == 0 { n } else { nend(s.drop_last(), n) + nl(s.last()) } }
/// s is an edit script starting at (o, n): consecutive, every element non-empty and true
pub open spec fn okp<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, a: Seq<u64>, b: Seq<u64>, o: int, n: int) -> bool
    decreases s.len()
{ s.len() == 0 || (okp(s.drop_last(), a, b, o, n) && elem_ok(s.last(), a, b, oend(s.drop_last(), o), nend(s.drop_last(), n))) }
/// ... and ending at (o2, n2)
pub open spec fn ok<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, a: Seq<u64>, b: Seq<u64>, o: int, n: int, o2: int, n2: int) -> bool {
    okp(s, a, b, o, n) && oend(s, o) == o2 && nend(s, n) == n2
}
/// s is an edit script from all of a to all of b
pub open spec fn full<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, a: Seq<u64>, b: Seq<u64>) -> bool {
    ok(s, a, b, 0, 0, a.len() as int, b.len() as int)
}

pub proof fn lemma_concat<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, t: Seq<DiffRange<'a, 'b, [u64]>>, a: Seq<u64>, b: Seq<u64>, o: int, n: int)
    ensures
        oend(s + t, o) == oend(t, oend(s, o)), nend(s + t, n) == nend(t, nend(s, n)),
        okp(s + t, a, b, o, n) == (okp(s, a, b, o, n) && okp(t, a, b, oend(s, o), nend(s, n))),
    decreases t.len()
{
    if t.len() == 0 {
        assert(s + t =~= s);
    } else {
        assert((s + t).drop_last() =~= s + t.drop_last());
        assert((s + t).last() == t.last());
        lemma_concat(s, t.drop_last(), a, b, o, n);
    }
}
pub proof fn lemma_join<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, t: Seq<DiffRange<'a, 'b, [u64]>>, a: Seq<u64>, b: Seq<u64>, o: int, n: int, o1: int, n1: int, o2: int, n2: int)
    requires ok(s, a, b, o, n, o1, n1), ok(t, a, b, o1, n1, o2, n2),
    ensures ok(s + t, a, b, o, n, o2, n2),
{
    lemma_concat(s, t, a, b, o, n);
}
pub proof fn lemma_one<'a, 'b>(e: DiffRange<'a, 'b, [u64]>, a: Seq<u64>, b: Seq<u64>, o: int, n: int)
    ensures
        oend(seq![e], o) == o + ol(e), nend(seq![e], n) == n + nl(e),
        okp(seq![e], a, b, o, n) == elem_ok(e, a, b, o, n),
{
    assert(seq![e].drop_last() =~= Seq::<DiffRange<'a, 'b, [u64]>>::empty());
    assert(oend(seq![e].drop_last(), o) == o);
    assert(nend(seq![e].drop_last(), n) == n);
    assert(okp(seq![e].drop_last(), a, b, o, n));
}
//@ type Range
//@ type DiffRange
//@ fn Clone@Range::clone
    ensures r == *self,
//@ fn Range::is_empty
    ensures r == (self.len == 0),
//@ fn Range::inner
    ensures r == self.inner,
//@ fn Range::len
    ensures r == self.len,
//@ fn Range::offset
    ensures r == self.offset,
//@ fn Range::range
    requires self.offset + self.len <= usize::MAX,
    ensures r.start == self.offset, r.end == self.offset + self.len,
//@ fn Range::empty
    ensures r.offset == 0, r.len == 0, r.inner@.len() == 0,
//@ fn Range::grow_up
    requires old(self).offset >= adjust, old(self).len + adjust <= usize::MAX,
    ensures final(self).inner == old(self).inner, final(self).offset == old(self).offset - adjust, final(self).len == old(self).len + adjust,
//@ fn Range::grow_down
    requires old(self).len + adjust <= usize::MAX,
    ensures final(self).inner == old(self).inner, final(self).offset == old(self).offset, final(self).len == old(self).len + adjust,
//@ fn Range::shrink_front
    requires old(self).offset + adjust <= usize::MAX, old(self).len >= adjust,
    ensures final(self).inner == old(self).inner, final(self).offset == old(self).offset + adjust, final(self).len == old(self).len - adjust,
//@ fn Range::shrink_back
    requires old(self).len >= adjust,
    ensures final(self).inner == old(self).inner, final(self).offset == old(self).offset, final(self).len == old(self).len - adjust,
//@ fn Range::shift_up
    requires old(self).offset >= adjust,
    ensures final(self).inner == old(self).inner, final(self).offset == old(self).offset - adjust, final(self).len == old(self).len,
//@ fn Range::shift_down
    requires old(self).offset + adjust <= usize::MAX,
    ensures final(self).inner == old(self).inner, final(self).offset == old(self).offset + adjust, final(self).len == old(self).len,
//@ fn Range::slice
    requires bounds.bok(self.len), self.offset + self.len <= usize::MAX,
    ensures r.inner == self.inner, r.offset == self.offset + bounds.blo(self.len), r.len == bounds.bhi(self.len) - bounds.blo(self.len),
//@ fn Range::get
    requires self.offset + self.len <= usize::MAX,
    ensures (match r {
        Some(s) => bounds.bok(self.len) && s.inner == self.inner && s.offset == self.offset + bounds.blo(self.len) && s.len == bounds.bhi(self.len) - bounds.blo(self.len),
        None => !bounds.bok(self.len),
    }),
//@ fn Range::split_at
    requires mid <= self.len, self.offset + self.len <= usize::MAX,
    ensures r.0.inner == self.inner, r.0.offset == self.offset, r.0.len == mid,
        r.1.inner == self.inner, r.1.offset == self.offset + mid, r.1.len == self.len - mid,
//@ fn Range::new
    requires bounds.bok(inner@.len() as usize),
    ensures r.inner == inner, r.offset == bounds.blo(inner@.len() as usize), r.len == bounds.bhi(inner@.len() as usize) - bounds.blo(inner@.len() as usize), r.fits(),
//@ fn Range::as_slice
    requires self.fits(),
    ensures r@ == self.sv(),
//@ fn Range::common_prefix_len
    requires self.fits(), other.fits(),
    ensures is_cpl(self.sv(), other.sv(), r as int),
//@ fn Range::common_suffix_len
    requires self.fits(), other.fits(),
    ensures is_csl(self.sv(), other.sv(), r as int),

//@ trait RangeBounds
bounds: Sized + VClone
proof fn lemma_cl(a: &Self, b: &Self) requires a.cl(b), ensures *a == *b;
    /// the bounds fit a sequence of this length
    spec fn bok(self, len: usize) -> bool;
    spec fn blo(self, len: usize) -> usize;
    spec fn bhi(self, len: usize) -> usize;
    proof fn laws(self, len: usize)
        ensures self.bok(len) ==> self.blo(len) <= self.bhi(len) <= len;
//@ fn RangeBounds::try_index
    ensures (match r {
        Some(p) => self.bok(len) && p.0 == self.blo(len) && p.1 == self.bhi(len) - self.blo(len),
        None => !self.bok(len),
    }),
//@ fn RangeBounds::index
    requires self.bok(len),
    ensures r.0 == self.blo(len), r.1 == self.bhi(len) - self.blo(len),
//@ ghost RangeBounds::index start
    proof { assert forall|b: Self| #[trigger] self.cl(&b) implies b == self by { Self::lemma_cl(&self, &b); } }
//@ ghost Range::slice start
    proof { bounds.laws(self.len); }
//@ ghost Range::get start
    proof { bounds.laws(self.len); }
//@ ghost Range::new start
    proof { bounds.laws(inner.len()); }
//@ implraw RangeBounds@Range
proof fn lemma_cl(a: &Self, b: &Self) {}
    open spec fn bok(self, len: usize) -> bool { self.start <= self.end && self.end <= len }
    open spec fn blo(self, len: usize) -> usize { self.start }
    open spec fn bhi(self, len: usize) -> usize { self.end }
    proof fn laws(self, len: usize) {}
//@ fn RangeBounds@Range::try_index
//@ implraw RangeBounds@RangeFrom
proof fn lemma_cl(a: &Self, b: &Self) {}
    open spec fn bok(self, len: usize) -> bool { self.start <= len }
    open spec fn blo(self, len: usize) -> usize { self.start }
    open spec fn bhi(self, len: usize) -> usize { len }
    proof fn laws(self, len: usize) {}
//@ fn RangeBounds@RangeFrom::try_index
//@ implraw RangeBounds@RangeTo
proof fn lemma_cl(a: &Self, b: &Self) {}
    open spec fn bok(self, len: usize) -> bool { self.end <= len }
    open spec fn blo(self, len: usize) -> usize { 0 }
    open spec fn bhi(self, len: usize) -> usize { self.end }
    proof fn laws(self, len: usize) {}
//@ fn RangeBounds@RangeTo::try_index
//@ implraw RangeBounds@RangeFull
proof fn lemma_cl(a: &Self, b: &Self) {}
    open spec fn bok(self, len: usize) -> bool { true }
    open spec fn blo(self, len: usize) -> usize { 0 }
    open spec fn bhi(self, len: usize) -> usize { len }
    proof fn laws(self, len: usize) {}
//@ fn RangeBounds@RangeFull::try_index

//@ trait SliceLike
    spec fn elems(&self) -> Seq<u64>;
//@ fn SliceLike::empty
    ensures r.elems().len() == 0,
//@ fn SliceLike::len
    ensures r == self.elems().len(),
//@ fn SliceLike::as_slice
    requires range.start <= range.end <= self.elems().len(),
    ensures r.elems() == self.elems().subrange(range.start as int, range.end as int),
//@ fn SliceLike::common_prefix_len
    ensures is_cpl(self.elems(), other.elems(), r as int),
//@ fn SliceLike::common_suffix_len
    ensures is_csl(self.elems(), other.elems(), r as int),
//@ implraw SliceLike@[T]
    open spec fn elems(&self) -> Seq<u64> { self@ }
//@ fn SliceLike@[T]::empty
//@ fn SliceLike@[T]::len
//@ fn SliceLike@[T]::as_slice
//@ fn SliceLike@[T]::common_prefix_len
//@ loop SliceLike@[T]::common_prefix_len l0
    invariant
        s0 == self, s0_1 == other, n0 == (if self@.len() <= other@.len() { self@.len() } else { other@.len() }), i0 <= n0,
        forall|j: int| 0 <= j < i0 ==> self@[j] == other@[j],
    decreases n0 - i0,
//@ fn SliceLike@[T]::common_suffix_len
//@ loop SliceLike@[T]::common_suffix_len l0
    invariant
        s0 == self, s0_1 == other, n0 == (if self@.len() <= other@.len() { self@.len() } else { other@.len() }), i0 <= n0,
        forall|j: int| self@.len() - i0 <= j < self@.len() ==> self@[j] == other@[j - self@.len() + other@.len()],
    decreases n0 - i0,

//@ fn Clone@DiffRange::clone
    ensures r == *self,
//@ fn DiffRange::inner
    ensures r == self.own(),
//@ implraw DiffRange
    /// the range a Delete / Insert stands for, the old side of an Equal
    pub open spec fn own(self) -> Range<'tmp, [u64]> {
        match self { DiffRange::Equal(r, _) => r, DiffRange::Delete(r) => r, DiffRange::Insert(r) => r }
    }
//@ fn DiffRange::is_empty
    ensures r == (self.own().len == 0),
//@ fn DiffRange::len
    ensures r == self.own().len,
//@ fn DiffRange::grow_up
    requires (match *old(self) {
        DiffRange::Equal(a, b) => a.offset >= adjust && a.len + adjust <= usize::MAX && b.offset >= adjust && b.len + adjust <= usize::MAX,
        DiffRange::Delete(a) => a.offset >= adjust && a.len + adjust <= usize::MAX,
        DiffRange::Insert(a) => a.offset >= adjust && a.len + adjust <= usize::MAX,
    }),
    ensures (match (*old(self), *final(self)) {
        (DiffRange::Equal(a, b), DiffRange::Equal(c, d)) => c.inner == a.inner && c.offset == a.offset - adjust && c.len == a.len + adjust && d.inner == b.inner && d.offset == b.offset - adjust && d.len == b.len + adjust,
        (DiffRange::Delete(a), DiffRange::Delete(c)) => c.inner == a.inner && c.offset == a.offset - adjust && c.len == a.len + adjust,
        (DiffRange::Insert(a), DiffRange::Insert(c)) => c.inner == a.inner && c.offset == a.offset - adjust && c.len == a.len + adjust,
        _ => false,
    }),
//@ fn DiffRange::grow_down
    requires (match *old(self) {
        DiffRange::Equal(a, b) => a.len + adjust <= usize::MAX && b.len + adjust <= usize::MAX,
        DiffRange::Delete(a) => a.len + adjust <= usize::MAX,
        DiffRange::Insert(a) => a.len + adjust <= usize::MAX,
    }),
    ensures (match (*old(self), *final(self)) {
        (DiffRange::Equal(a, b), DiffRange::Equal(c, d)) => c.inner == a.inner && c.offset == a.offset && c.len == a.len + adjust && d.inner == b.inner && d.offset == b.offset && d.len == b.len + adjust,
        (DiffRange::Delete(a), DiffRange::Delete(c)) => c.inner == a.inner && c.offset == a.offset && c.len == a.len + adjust,
        (DiffRange::Insert(a), DiffRange::Insert(c)) => c.inner == a.inner && c.offset == a.offset && c.len == a.len + adjust,
        _ => false,
    }),
//@ fn DiffRange::shrink_front
    requires (match *old(self) {
        DiffRange::Equal(a, b) => a.offset + adjust <= usize::MAX && a.len >= adjust && b.offset + adjust <= usize::MAX && b.len >= adjust,
        DiffRange::Delete(a) => a.offset + adjust <= usize::MAX && a.len >= adjust,
        DiffRange::Insert(a) => a.offset + adjust <= usize::MAX && a.len >= adjust,
    }),
    ensures (match (*old(self), *final(self)) {
        (DiffRange::Equal(a, b), DiffRange::Equal(c, d)) => c.inner == a.inner && c.offset == a.offset + adjust && c.len == a.len - adjust && d.inner == b.inner && d.offset == b.offset + adjust && d.len == b.len - adjust,
        (DiffRange::Delete(a), DiffRange::Delete(c)) => c.inner == a.inner && c.offset == a.offset + adjust && c.len == a.len - adjust,
        (DiffRange::Insert(a), DiffRange::Insert(c)) => c.inner == a.inner && c.offset == a.offset + adjust && c.len == a.len - adjust,
        _ => false,
    }),
//@ fn DiffRange::shrink_back
    requires (match *old(self) {
        DiffRange::Equal(a, b) => a.len >= adjust && b.len >= adjust,
        DiffRange::Delete(a) => a.len >= adjust,
        DiffRange::Insert(a) => a.len >= adjust,
    }),
    ensures (match (*old(self), *final(self)) {
        (DiffRange::Equal(a, b), DiffRange::Equal(c, d)) => c.inner == a.inner && c.offset == a.offset && c.len == a.len - adjust && d.inner == b.inner && d.offset == b.offset && d.len == b.len - adjust,
        (DiffRange::Delete(a), DiffRange::Delete(c)) => c.inner == a.inner && c.offset == a.offset && c.len == a.len - adjust,
        (DiffRange::Insert(a), DiffRange::Insert(c)) => c.inner == a.inner && c.offset == a.offset && c.len == a.len - adjust,
        _ => false,
    }),
//@ fn DiffRange::shift_up
    requires (match *old(self) {
        DiffRange::Equal(a, b) => a.offset >= adjust && b.offset >= adjust,
        DiffRange::Delete(a) => a.offset >= adjust,
        DiffRange::Insert(a) => a.offset >= adjust,
    }),
    ensures (match (*old(self), *final(self)) {
        (DiffRange::Equal(a, b), DiffRange::Equal(c, d)) => c.inner == a.inner && c.offset == a.offset - adjust && c.len == a.len && d.inner == b.inner && d.offset == b.offset - adjust && d.len == b.len,
        (DiffRange::Delete(a), DiffRange::Delete(c)) => c.inner == a.inner && c.offset == a.offset - adjust && c.len == a.len,
        (DiffRange::Insert(a), DiffRange::Insert(c)) => c.inner == a.inner && c.offset == a.offset - adjust && c.len == a.len,
        _ => false,
    }),
//@ fn DiffRange::shift_down
    requires (match *old(self) {
        DiffRange::Equal(a, b) => a.offset + adjust <= usize::MAX && b.offset + adjust <= usize::MAX,
        DiffRange::Delete(a) => a.offset + adjust <= usize::MAX,
        DiffRange::Insert(a) => a.offset + adjust <= usize::MAX,
    }),
    ensures (match (*old(self), *final(self)) {
        (DiffRange::Equal(a, b), DiffRange::Equal(c, d)) => c.inner == a.inner && c.offset == a.offset + adjust && c.len == a.len && d.inner == b.inner && d.offset == b.offset + adjust && d.len == b.len,
        (DiffRange::Delete(a), DiffRange::Delete(c)) => c.inner == a.inner && c.offset == a.offset + adjust && c.len == a.len,
        (DiffRange::Insert(a), DiffRange::Insert(c)) => c.inner == a.inner && c.offset == a.offset + adjust && c.len == a.len,
        _ => false,
    }),
//@ implraw Copy@Range
//@ implraw Copy@DiffRange
//@ ghost Range::as_slice start
    assert(self.inner@.len() == spec_slice_len(self.inner));
