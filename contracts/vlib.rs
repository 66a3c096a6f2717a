// Prelude of every extracted crate: contracts of the std operations the extraction maps to.
// `external_body` items here are assumptions about std; everything else is proved.
#![allow(mismatched_lifetime_syntaxes, unstable_name_collisions, unused_assignments, unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, unused_parens, unused_braces, unused_labels, unreachable_code)]
use vstd::prelude::*;
use vstd::slice::*;
use vstd::std_specs::range::*;
use std::ops;
use std::cmp;

verus! {

global size_of usize == 8;

// ------------------------------------------------------------------ small std functions
pub fn v_min(a: usize, b: usize) -> (r: usize)
    ensures r == (if a <= b { a } else { b }),
{ if a <= b { a } else { b } }

pub fn v_max(a: usize, b: usize) -> (r: usize)
    ensures r == (if a >= b { a } else { b }),
{ if a >= b { a } else { b } }

pub fn v_mem_replace<T>(d: &mut T, s: T) -> (r: T)
    ensures r == *old(d), *final(d) == s,
{ let mut s = s; core::mem::swap(d, &mut s); s }

// assumed std contracts, checked on enumerated inputs by `conform/`
pub assume_specification[usize::abs_diff](a: usize, b: usize) -> (r: usize)
    ensures r == if a <= b { b - a } else { a - b };
pub assume_specification[u8::is_ascii_digit](a: &u8) -> (r: bool)
    ensures r == (48 <= *a <= 57);
pub assume_specification<T>[<[T]>::split_last](s: &[T]) -> (r: Option<(&T, &[T])>)
    ensures (match r { Some((x, y)) => s@.len() > 0 && *x == s@.last() && y@ == s@.drop_last(), None => s@.len() == 0 });
pub assume_specification<T: Copy>[Option::<&T>::copied](o: Option<&T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None });
pub assume_specification<T>[Option::<T>::replace](o: &mut Option<T>, v: T) -> (r: Option<T>)
    ensures r == *old(o), *final(o) == Some(v);
pub assume_specification<T, U>[Option::<T>::zip](o: Option<T>, u: Option<U>) -> (r: Option<(T, U)>)
    ensures r == (match (o, u) { (Some(x), Some(y)) => Some((x, y)), _ => None });
pub assume_specification<T>[Option::<Option<T>>::flatten](o: Option<Option<T>>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => x, None => None });

/// length of the iteration over `lo..hi`
pub fn v_range_len(lo: usize, hi: usize) -> (r: usize)
    ensures r == (if lo <= hi { hi - lo } else { 0int }),
{ if lo <= hi { hi - lo } else { 0 } }

pub fn v_assert(b: bool) requires b {}

#[verifier::external_body]
pub fn v_unreachable<T>() -> (r: T)
    requires false,
{ unimplemented!() }


/// `Clone`: `cl` says what a clone has in common with the original
pub trait VClone: Sized {
    spec fn cl(&self, r: &Self) -> bool;
    fn vclone(&self) -> (r: Self)
        ensures self.cl(&r);
}
impl VClone for ops::Range<usize> {
    open spec fn cl(&self, r: &Self) -> bool { *r == *self }
    #[verifier::external_body]
    fn vclone(&self) -> (r: Self)
    { self.clone() }
}
impl VClone for ops::RangeFrom<usize> {
    open spec fn cl(&self, r: &Self) -> bool { *r == *self }
    #[verifier::external_body]
    fn vclone(&self) -> (r: Self)
    { self.clone() }
}
impl VClone for ops::RangeTo<usize> {
    open spec fn cl(&self, r: &Self) -> bool { *r == *self }
    #[verifier::external_body]
    fn vclone(&self) -> (r: Self)
    { self.clone() }
}
impl VClone for ops::RangeFull {
    open spec fn cl(&self, r: &Self) -> bool { *r == *self }
    #[verifier::external_body]
    fn vclone(&self) -> (r: Self)
    { self.clone() }
}
impl<'a, T: ?Sized> VClone for &'a T {
    open spec fn cl(&self, r: &Self) -> bool { *r == *self }
    fn vclone(&self) -> (r: Self)
    { *self }
}
impl<T: VClone> VClone for Option<T> {
    open spec fn cl(&self, r: &Self) -> bool { match (*self, *r) { (Some(a), Some(b)) => a.cl(&b), (None, None) => true, _ => false } }
    fn vclone(&self) -> (r: Self)
    { match self { Some(x) => Some(x.vclone()), None => None } }
}
impl<T: VClone> VClone for Vec<T> {
    open spec fn cl(&self, r: &Self) -> bool { r@.len() == self@.len() && forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).cl(&r@[i]) }
    fn vclone(&self) -> (r: Self)
    {
        let mut o = Vec::new();
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self@.len(), o@.len() == i, forall|j: int| 0 <= j < i ==> (#[trigger] self@[j]).cl(&o@[j]),
            decreases self@.len() - i,
        { o.push(self[i].vclone()); i += 1; }
        o
    }
}

/// `isize::abs`, which panics (or wraps) on the minimum
pub trait VAbs: Sized {
    spec fn abs_ok(self) -> bool;
    spec fn abs_val(self) -> Self;
    fn v_abs(self) -> (r: Self)
        requires self.abs_ok(),
        ensures r == self.abs_val();
}
impl VAbs for isize {
    open spec fn abs_ok(self) -> bool { self > isize::MIN }
    open spec fn abs_val(self) -> isize { if self >= 0 { self } else { (-self) as isize } }
    fn v_abs(self) -> (r: isize) { if self >= 0 { self } else { -self } }
}

/// slice `swap`
pub trait VSwap<T> {
    spec fn sw(&self) -> Seq<T>;
    fn v_swap(&mut self, a: usize, b: usize)
        requires a < old(self).sw().len(), b < old(self).sw().len(),
        ensures final(self).sw() == old(self).sw().update(a as int, old(self).sw()[b as int]).update(b as int, old(self).sw()[a as int]);
}
impl<T> VSwap<T> for Vec<T> {
    open spec fn sw(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_swap(&mut self, a: usize, b: usize) { self.swap(a, b) }
}

// ------------------------------------------------------------------ texts
/// a literal
pub const fn v_lit<'a, T, const N: usize>(a: &'a [T; N]) -> (r: &'a [T])
    ensures r@ == a@,
{ a.as_slice() }

/// the bytes of a str: its characters, encoded
pub closed spec fn str_bytes(s: &str) -> Seq<u8> { enc_all(s@) }

pub open spec fn cont(b: u8) -> bool { 0x80 <= b <= 0xBF }
/// length of the well-formed UTF-8 sequence at the start of s, 0 if there is none (Unicode, table 3-7)
pub open spec fn utf8_head(s: Seq<u8>) -> int {
    if s.len() >= 1 && s[0] <= 0x7F { 1 }
    else if s.len() >= 2 && 0xC2 <= s[0] <= 0xDF && cont(s[1]) { 2 }
    else if s.len() >= 3 && cont(s[1]) && cont(s[2]) && (
        (s[0] == 0xE0 && 0xA0 <= s[1]) || (0xE1 <= s[0] <= 0xEC) || (s[0] == 0xED && s[1] <= 0x9F) || (0xEE <= s[0] <= 0xEF)) { 3 }
    else if s.len() >= 4 && cont(s[1]) && cont(s[2]) && cont(s[3]) && (
        (s[0] == 0xF0 && 0x90 <= s[1]) || (0xF1 <= s[0] <= 0xF3) || (s[0] == 0xF4 && s[1] <= 0x8F)) { 4 }
    else { 0 }
}
pub open spec fn utf8(s: Seq<u8>) -> bool
    decreases s.len()
{
    s.len() == 0 || (utf8_head(s) > 0 && utf8(s.skip(utf8_head(s))))
}
pub proof fn lemma_utf8_cat(a: Seq<u8>, b: Seq<u8>)
    requires utf8(a), utf8(b),
    ensures utf8(a + b),
    decreases a.len(),
{
    if a.len() == 0 { assert(a + b =~= b); } else {
        let k = utf8_head(a);
        lemma_utf8_cat(a.skip(k), b);
        assert(utf8_head(a + b) == k) by { assert(forall|i: int| 0 <= i < a.len() ==> (a + b)[i] == a[i]); }
        assert((a + b).skip(k) =~= a.skip(k) + b);
    }
}
pub proof fn lemma_utf8_enc(s: Seq<char>)
    ensures utf8(enc_all(s)),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_utf8_enc(s.drop_last());
        let e = enc(s.last());
        assert(utf8_head(e) == e.len());
        assert(e.skip(e.len() as int) =~= Seq::<u8>::empty());
        assert(utf8(Seq::<u8>::empty()));
        assert(utf8(e));
        lemma_utf8_cat(enc_all(s.drop_last()), e);
    }
}
/// a str is valid UTF-8
pub proof fn lemma_str(s: &str)
    ensures utf8(str_bytes(s)), str_bytes(s).len() <= isize::MAX,
{ lemma_utf8_enc(s@); axiom_str_len(s); }
pub axiom fn axiom_str_len(s: &str)
    ensures str_bytes(s).len() <= isize::MAX;
/// Rust: no object is larger than isize::MAX bytes
pub axiom fn axiom_bytes(s: &[u8])
    ensures s@.len() <= isize::MAX;
/// the byte after an ASCII byte does not continue a sequence
pub proof fn lemma_utf8_ascii(s: Seq<u8>, i: int)
    requires utf8(s), 0 <= i < s.len() - 1, s[i] < 0x80,
    ensures !cont(s[i + 1]),
    decreases s.len(),
{
    let k = utf8_head(s);
    let t = s.skip(k);
    if i >= k {
        lemma_utf8_ascii(t, i - k);
        assert(t[i - k + 1] == s[i + 1]);
    } else {
        assert(i == k - 1);
        assert(t[0] == s[i + 1]);
        assert(utf8(t));
        assert(t.len() > 0);
        assert(utf8_head(t) > 0);
    }
}

pub open spec fn ascii(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 0x80 }
pub open spec fn occ(s: Seq<u8>, n: Seq<u8>, j: int) -> bool { 0 <= j <= s.len() - n.len() && s.subrange(j, j + n.len()) == n }
/// r is the first position of n in s
pub open spec fn is_find(s: Seq<u8>, n: Seq<u8>, r: Option<usize>) -> bool {
    match r {
        Some(i) => occ(s, n, i as int) && forall|j: int| 0 <= j < i ==> !#[trigger] occ(s, n, j),
        None => forall|j: int| !#[trigger] occ(s, n, j),
    }
}
pub open spec fn is_suffix(n: Seq<u8>, s: Seq<u8>) -> bool { n.len() <= s.len() && s.skip(s.len() - n.len()) == n }

/// the inherent methods of str and [u8] that the crate uses, as documented by std
pub trait StdText {
    spec fn sb(&self) -> Seq<u8>;
    /// a position the text can be cut at
    spec fn cut(&self, i: int) -> bool;
    fn std_is_empty(&self) -> (r: bool) ensures r == (self.sb().len() == 0);
    fn std_len(&self) -> (r: usize) ensures r == self.sb().len();
    fn std_starts_with(&self, n: &[u8]) -> (r: bool) requires ascii(n@), ensures r == n@.is_prefix_of(self.sb());
    fn std_ends_with(&self, n: &[u8]) -> (r: bool) requires ascii(n@), ensures r == is_suffix(n@, self.sb());
    fn std_strip_prefix(&self, n: &[u8]) -> (r: Option<&Self>)
        requires ascii(n@),
        ensures (match r { Some(x) => n@.is_prefix_of(self.sb()) && x.sb() == self.sb().skip(n@.len() as int), None => !n@.is_prefix_of(self.sb()) });
    fn std_strip_suffix(&self, n: &[u8]) -> (r: Option<&Self>)
        requires ascii(n@),
        ensures (match r { Some(x) => is_suffix(n@, self.sb()) && x.sb() == self.sb().take(self.sb().len() - n@.len()), None => !is_suffix(n@, self.sb()) });
    fn std_find(&self, n: &[u8]) -> (r: Option<usize>) requires ascii(n@), n@.len() > 0, ensures is_find(self.sb(), n@, r);
    fn std_split_at(&self, mid: usize) -> (r: (&Self, &Self))
        requires mid <= self.sb().len(), self.cut(mid as int),
        ensures r.0.sb() == self.sb().take(mid as int), r.1.sb() == self.sb().skip(mid as int);
    fn std_to(&self, mid: usize) -> (r: &Self)
        requires mid <= self.sb().len(), self.cut(mid as int),
        ensures r.sb() == self.sb().take(mid as int);
    fn std_from(&self, mid: usize) -> (r: &Self)
        requires mid <= self.sb().len(), self.cut(mid as int),
        ensures r.sb() == self.sb().skip(mid as int);
    fn std_as_bytes(&self) -> (r: &[u8]) ensures r@ == self.sb();
}
pub open spec fn str_cut(s: Seq<u8>, i: int) -> bool { i == 0 || i == s.len() || (0 <= i < s.len() && !cont(s[i])) }
impl StdText for str {
    open spec fn sb(&self) -> Seq<u8> { str_bytes(self) }
    open spec fn cut(&self, i: int) -> bool { str_cut(str_bytes(self), i) }
    #[verifier::external_body] fn std_is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn std_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn std_starts_with(&self, n: &[u8]) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn std_ends_with(&self, n: &[u8]) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn std_strip_prefix(&self, n: &[u8]) -> (r: Option<&Self>) { unimplemented!() }
    #[verifier::external_body] fn std_strip_suffix(&self, n: &[u8]) -> (r: Option<&Self>) { unimplemented!() }
    #[verifier::external_body] fn std_find(&self, n: &[u8]) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn std_split_at(&self, mid: usize) -> (r: (&Self, &Self)) { unimplemented!() }
    #[verifier::external_body] fn std_to(&self, mid: usize) -> (r: &Self) { unimplemented!() }
    #[verifier::external_body] fn std_from(&self, mid: usize) -> (r: &Self) { unimplemented!() }
    #[verifier::external_body] fn std_as_bytes(&self) -> (r: &[u8]) { unimplemented!() }
}
impl StdText for [u8] {
    open spec fn sb(&self) -> Seq<u8> { self@ }
    open spec fn cut(&self, i: int) -> bool { true }
    #[verifier::external_body] fn std_is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn std_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn std_starts_with(&self, n: &[u8]) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn std_ends_with(&self, n: &[u8]) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn std_strip_prefix(&self, n: &[u8]) -> (r: Option<&Self>) { unimplemented!() }
    #[verifier::external_body] fn std_strip_suffix(&self, n: &[u8]) -> (r: Option<&Self>) { unimplemented!() }
    #[verifier::external_body] fn std_find(&self, n: &[u8]) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn std_split_at(&self, mid: usize) -> (r: (&Self, &Self)) { unimplemented!() }
    #[verifier::external_body] fn std_to(&self, mid: usize) -> (r: &Self) { unimplemented!() }
    #[verifier::external_body] fn std_from(&self, mid: usize) -> (r: &Self) { unimplemented!() }
    #[verifier::external_body] fn std_as_bytes(&self) -> (r: &[u8]) { unimplemented!() }
}

/// std::str::from_utf8(..).ok()
#[verifier::external_body]
pub fn v_from_utf8(s: &[u8]) -> (r: Option<&str>)
    ensures (match r { Some(x) => utf8(s@) && str_bytes(x) == s@, None => !utf8(s@) }),
{ unimplemented!() }

/// an error whose contents are dropped
#[derive(Debug)]
pub struct VErr;
/// std::str::from_utf8(..)
#[verifier::external_body]
pub fn v_from_utf8r(s: &[u8]) -> (r: Result<&str, VErr>)
    ensures (match r { Ok(x) => utf8(s@) && str_bytes(x) == s@, Err(_) => !utf8(s@) }),
{ unimplemented!() }
/// String::from_utf8(..)
#[verifier::external_body]
pub fn v_string_from_utf8(v: Vec<u8>) -> (r: Result<VString, VErr>)
    ensures (match r { Ok(x) => utf8(v@) && x.bs() == v@, Err(_) => !utf8(v@) }),
{ unimplemented!() }

/// value of a string of decimal digits
pub open spec fn dec(s: Seq<u8>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { 10 * dec(s.drop_last()) + (s.last() - 48) as nat } }
pub open spec fn digits(s: Seq<u8>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> 48 <= #[trigger] s[i] <= 57 }
/// what `usize::from_str` accepts: an optional '+' and digits, without overflow
pub open spec fn parse_num(s: Seq<u8>) -> Option<nat> {
    let t = if s.len() > 0 && s[0] == 43 { s.skip(1) } else { s };
    if digits(t) && dec(t) <= usize::MAX { Some(dec(t)) } else { None }
}
/// s.parse::<usize>().ok()
#[verifier::external_body]
pub fn v_parse_usize(s: &str) -> (r: Option<usize>)
    ensures (match r { Some(x) => parse_num(str_bytes(s)) == Some(x as nat), None => parse_num(str_bytes(s)) is None }),
{ unimplemented!() }
pub proof fn lemma_num_utf8(s: Seq<u8>)
    requires !utf8(s),
    ensures parse_num(s) is None,
{
    if parse_num(s) is Some {
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] < 0x80 by {
            if i > 0 && s[0] == 43 { assert(s.skip(1)[i - 1] == s[i]); }
        }
        lemma_ascii_utf8(s);
    }
}
pub proof fn lemma_ascii_utf8(s: Seq<u8>)
    requires ascii(s),
    ensures utf8(s),
    decreases s.len(),
{
    if s.len() > 0 {
        assert(utf8_head(s) == 1);
        assert forall|i: int| 0 <= i < s.skip(1).len() implies #[trigger] s.skip(1)[i] < 0x80 by { assert(s.skip(1)[i] == s[i + 1]); }
        lemma_ascii_utf8(s.skip(1));
    }
}

/// the value an item stands for
pub trait Vw { type V; spec fn vw(self) -> Self::V; }
impl Vw for usize { type V = usize; open spec fn vw(self) -> usize { self } }
impl Vw for u8 { type V = u8; open spec fn vw(self) -> u8 { self } }

pub trait VDefault: Sized { fn default() -> Self; }

/// `HashMap`
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(X)]
pub struct VMap<K, X> { p: core::marker::PhantomData<(K, X)> }
impl<K: Vw, X: Copy> VMap<K, X> {
    pub uninterp spec fn mv(&self) -> Map<<K as Vw>::V, X>;
    #[verifier::external_body]
    pub fn lookup(&self, k: K) -> (r: Option<X>)
        ensures (match r { Some(x) => self.mv().contains_key(k.vw()) && self.mv()[k.vw()] == x, None => !self.mv().contains_key(k.vw()) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&mut self, k: K, x: X) -> (r: X)
        ensures final(self).mv() == old(self).mv().insert(k.vw(), x), r == x,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self)
        ensures r.mv() == Map::<<K as Vw>::V, X>::empty(),
    { unimplemented!() }
}

// ------------------------------------------------------------------ iterators
/// `Iterator`
pub trait VIter: Sized {
    type Item: Vw;
    /// what is still to come
    spec fn rest(&self) -> Seq<<Self::Item as Vw>::V>;
    fn next(&mut self) -> (r: Option<Self::Item>)
        ensures (match r {
            Some(x) => old(self).rest().len() > 0 && x.vw() == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
            None => old(self).rest().len() == 0 && final(self).rest().len() == 0,
        });
    fn v_into_iter(self) -> (r: Self) ensures r == self, { self }
    fn v_fuse(self) -> (r: iter::Fuse<Self>) ensures r.a == self, { iter::Fuse { a: self } }
    fn v_peekable(self) -> (r: iter::Peekable<Self>) ensures r.it == self, r.p is None, { iter::Peekable { it: self, p: None } }
}
pub trait VChain<B>: Sized { fn v_chain(self, b: B) -> (r: iter::Chain<Self, B>) ensures r.a == self, r.b == b; }
impl<A: VIter, B: VIter<Item = A::Item>> VChain<B> for A { fn v_chain(self, b: B) -> (r: iter::Chain<Self, B>) { iter::Chain { a: self, b } } }
pub mod iter {
    use super::*;
    /// every iterator here keeps returning None after the first one
    pub struct Fuse<A> { pub a: A }
    impl<A: VIter> VIter for Fuse<A> {
        type Item = A::Item;
        open spec fn rest(&self) -> Seq<<A::Item as Vw>::V> { self.a.rest() }
        fn next(&mut self) -> (r: Option<A::Item>) { self.a.next() }
    }
    pub struct Chain<A, B> { pub a: A, pub b: B }
    impl<A: VIter, B: VIter<Item = A::Item>> VIter for Chain<A, B> {
        type Item = A::Item;
        open spec fn rest(&self) -> Seq<<A::Item as Vw>::V> { self.a.rest() + self.b.rest() }
        fn next(&mut self) -> (r: Option<A::Item>) {
            let ghost o = self.rest();
            match self.a.next() {
                Some(x) => { assert(self.rest() =~= o.skip(1)); Some(x) }
                None => { assert(self.rest() =~= o); let r = self.b.next(); assert(r is Some ==> self.rest() =~= o.skip(1)); r }
            }
        }
    }
    pub struct Once<X> { pub x: Option<X> }
    impl<X: Vw> VIter for Once<X> {
        type Item = X;
        open spec fn rest(&self) -> Seq<<X as Vw>::V> { match self.x { Some(x) => seq![x.vw()], None => Seq::empty() } }
        fn next(&mut self) -> (r: Option<X>) { let ghost o = self.rest(); let r = self.x.take(); assert(self.rest() =~= o.skip(1) || r is None); r }
    }
    #[verifier::reject_recursive_types(I)]
    pub struct Peekable<I: VIter> { pub it: I, pub p: Option<Option<I::Item>> }
    impl<I: VIter> VIter for Peekable<I> {
        type Item = I::Item;
        open spec fn rest(&self) -> Seq<<I::Item as Vw>::V> { match self.p { None => self.it.rest(), Some(None) => Seq::empty(), Some(Some(x)) => seq![x.vw()] + self.it.rest() } }
        fn next(&mut self) -> (r: Option<I::Item>) {
            let ghost o = self.rest();
            match self.p.take() {
                None => self.it.next(),
                Some(None) => { self.p = Some(None); None }
                Some(Some(x)) => { assert(self.rest() =~= o.skip(1)); Some(x) }
            }
        }
    }
    impl<I: VIter> Peekable<I> {
        pub fn peek(&mut self) -> (r: Option<&I::Item>)
            ensures final(self).rest() == old(self).rest(), (match r { Some(x) => old(self).rest().len() > 0 && x.vw() == old(self).rest()[0], None => old(self).rest().len() == 0 }),
        {
            if self.p.is_none() { self.p = Some(self.it.next()); assert(self.rest() =~= old(self).rest()); }
            match &self.p { Some(Some(x)) => Some(x), _ => None }
        }
    }
}
pub fn v_once<X: Vw>(x: X) -> (r: iter::Once<X>) ensures r.x == Some(x), { iter::Once { x: Some(x) } }
/// a range, in order
impl VIter for ops::Range<usize> {
    type Item = usize;
    open spec fn rest(&self) -> Seq<usize> { Seq::new((if self.start <= self.end { self.end - self.start } else { 0 }) as nat, |k: int| (self.start + k) as usize) }
    fn next(&mut self) -> (r: Option<usize>) {
        let ghost o = self.rest();
        if self.start < self.end { let x = self.start; self.start = x + 1; assert(self.rest() =~= o.skip(1)); Some(x) } else { None }
    }
}
/// the elements of a slice, by reference / copied
pub struct VSliceIter<'a, X> { pub s: &'a [X], pub i: usize }
pub struct VCopied<'a, X> { pub it: VSliceIter<'a, X> }
pub trait VIterOp<X> { fn v_iter<'a>(&'a self) -> (r: VSliceIter<'a, X>) ensures r.i == 0, r.s@ == self.vis(); spec fn vis(&self) -> Seq<X>; }
impl<X> VIterOp<X> for [X] {
    open spec fn vis(&self) -> Seq<X> { self@ }
    fn v_iter<'a>(&'a self) -> (r: VSliceIter<'a, X>) { VSliceIter { s: self, i: 0 } }
}
impl<'a, X: Copy> VSliceIter<'a, X> { pub fn v_copied(self) -> (r: VCopied<'a, X>) ensures r.it == self, { VCopied { it: self } } }
impl<'a, X: Vw + Copy> VIter for VCopied<'a, X> {
    type Item = X;
    open spec fn rest(&self) -> Seq<<X as Vw>::V> { if self.it.i <= self.it.s@.len() { self.it.s@.skip(self.it.i as int).map_values(|x: X| x.vw()) } else { Seq::empty() } }
    fn next(&mut self) -> (r: Option<X>) {
        let ghost o = self.rest();
        if self.it.i < self.it.s.len() {
            let x = self.it.s[self.it.i];
            self.it.i = self.it.i + 1;
            assert(self.rest() =~= o.skip(1));
            Some(x)
        } else { assert(o =~= Seq::empty()); None }
    }
}
/// `windows`
pub struct VWindows<'a, X> { pub s: &'a [X], pub n: usize, pub i: usize }
impl<'a, X> VWindows<'a, X> {
    pub fn next(&mut self) -> (r: Option<&'a [X]>)
        requires old(self).i <= old(self).s@.len(), old(self).n > 0,
        ensures final(self).s == old(self).s, final(self).n == old(self).n, (match r {
            Some(w) => old(self).i + old(self).n <= old(self).s@.len() && w@ == old(self).s@.subrange(old(self).i as int, old(self).i + old(self).n) && final(self).i == old(self).i + 1,
            None => old(self).i + old(self).n > old(self).s@.len() && final(self).i == old(self).i,
        }),
    {
        if self.n <= self.s.len() - self.i {
            let w = vstd::slice::slice_subrange(self.s, self.i, self.i + self.n);
            self.i = self.i + 1;
            Some(w)
        } else { None }
    }
}
pub trait VWindowsOp<X> {
    spec fn vws(&self) -> Seq<X>;
    fn v_windows<'a>(&'a self, n: usize) -> (r: VWindows<'a, X>) requires n > 0, ensures r.s@ == self.vws(), r.n == n, r.i == 0;
}
impl<X> VWindowsOp<X> for [X] {
    open spec fn vws(&self) -> Seq<X> { self@ }
    fn v_windows<'a>(&'a self, n: usize) -> (r: VWindows<'a, X>) { VWindows { s: self, n, i: 0 } }
}
/// `contains`
pub trait VContains<P> {
    spec fn vcon(&self, p: P) -> bool;
    fn v_contains(&self, p: P) -> (r: bool) ensures r == self.vcon(p);
}
impl<'b> VContains<&'b u8> for [u8] {
    open spec fn vcon(&self, p: &'b u8) -> bool { self@.contains(*p) }
    fn v_contains(&self, p: &'b u8) -> (r: bool) {
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self@.len(), forall|j: int| 0 <= j < i ==> #[trigger] self@[j] != *p,
            decreases self@.len() - i,
        { if self[i] == *p { assert(self@[i as int] == *p); assert(self.vcon(p)); return true; } i += 1; }
        assert(!self.vcon(p));
        false
    }
}
/// `&s[r]`
pub fn v_subslice<'a, X>(s: &'a [X], r: ops::Range<usize>) -> (x: &'a [X])
    requires r.start <= r.end <= s@.len(),
    ensures x@ == s@.subrange(r.start as int, r.end as int),
{ vstd::slice::slice_subrange(s, r.start, r.end) }
/// `extend_from_slice`
pub trait VExtend { spec fn ves(&self) -> Seq<u8>; fn v_extend(&mut self, x: &[u8]) ensures final(self).ves() == old(self).ves() + x@; }
impl VExtend for Vec<u8> {
    open spec fn ves(&self) -> Seq<u8> { self@ }
    fn v_extend(&mut self, x: &[u8]) { v_extend_copied(self, x); }
}
/// a range, backwards
pub struct VRev { pub lo: usize, pub hi: usize }
impl VIter for VRev {
    type Item = usize;
    open spec fn rest(&self) -> Seq<usize> { Seq::new((if self.lo <= self.hi { self.hi - self.lo } else { 0 }) as nat, |k: int| (self.hi - 1 - k) as usize) }
    fn next(&mut self) -> (r: Option<usize>) {
        let ghost o = self.rest();
        if self.lo < self.hi { self.hi = self.hi - 1; assert(self.rest() =~= o.skip(1)); Some(self.hi) } else { None }
    }
}
pub trait VRevOp: Sized {
    spec fn rlo(self) -> usize;
    spec fn rhi(self) -> usize;
    fn v_rev(self) -> (x: VRev) ensures x.lo == self.rlo(), x.hi == self.rhi();
}
impl VRevOp for ops::Range<usize> {
    open spec fn rlo(self) -> usize { self.start }
    open spec fn rhi(self) -> usize { self.end }
    fn v_rev(self) -> (x: VRev) { VRev { lo: self.start, hi: self.end } }
}
/// a lazy iteration, computed at once
pub struct VecIter<X> { pub v: Vec<X> }
impl<X> VecIter<X> { pub open spec fn items(&self) -> Seq<X> { self.v@ } }
pub fn v_vec_iter<X>(v: Vec<X>) -> (r: VecIter<X>) ensures r.items() == v@, { VecIter { v } }
impl<X: Vw> VIter for VecIter<X> {
    type Item = X;
    open spec fn rest(&self) -> Seq<<X as Vw>::V> { self.items().map_values(|x: X| x.vw()) }
    fn next(&mut self) -> (r: Option<X>) {
        if self.v.len() > 0 {
            let ghost o = self.rest();
            let x = self.v.remove(0);
            assert(self.rest() =~= o.skip(1));
            Some(x)
        } else { None }
    }
}
/// `Vec::splice`
pub fn v_splice<X>(v: &mut Vec<X>, a: usize, b: usize, it: VecIter<X>)
    requires a <= b <= old(v)@.len(),
    ensures final(v)@ == old(v)@.take(a as int) + it.items() + old(v)@.skip(b as int),
{
    let mut tail = v.split_off(b);
    v.truncate(a);
    let mut m = it.v;
    v.append(&mut m);
    v.append(&mut tail);
    assert(v@ =~= old(v)@.take(a as int) + it.items() + old(v)@.skip(b as int));
}

/// equality of slices of bytes
pub trait VEq<R: ?Sized> {
    spec fn veq(&self, o: &R) -> bool;
    fn v_eq_(&self, o: &R) -> (r: bool) ensures r == self.veq(o);
}
impl VEq<[u8]> for [u8] {
    open spec fn veq(&self, o: &[u8]) -> bool { self@ == o@ }
    #[verifier::external_body]
    fn v_eq_(&self, o: &[u8]) -> (r: bool) { unimplemented!() }
}
pub fn v_eq<L: ?Sized + VEq<R>, R: ?Sized>(l: &L, o: &R) -> (r: bool) ensures r == l.veq(o) { l.v_eq_(o) }

impl VEq<[u64]> for [u64] {
    open spec fn veq(&self, o: &[u64]) -> bool { self@ == o@ }
    #[verifier::external_body]
    fn v_eq_(&self, o: &[u64]) -> (r: bool) { unimplemented!() }
}

/// `String`: its bytes
pub struct VString { pub v: Vec<u8> }
impl VString {
    pub open spec fn bs(&self) -> Seq<u8> { self.v@ }
    pub fn new() -> (r: VString) ensures r.bs() == Seq::<u8>::empty(), { VString { v: Vec::new() } }
    pub fn push_item(&mut self, x: &str) ensures final(self).bs() == old(self).bs() + str_bytes(x), { v_extend_copied(&mut self.v, x.std_as_bytes()); }
    pub fn push(&mut self, c: char)
        requires (c as u32) < 128,
        ensures final(self).bs() == old(self).bs().push(c as u8),
    { self.v.push(c as u8); }
    pub fn push_str(&mut self, x: &[u8]) requires ascii(x@), ensures final(self).bs() == old(self).bs() + x@, { v_extend_copied(&mut self.v, x); }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.bs().len() == 0), { self.v.len() == 0 }
    pub fn into_bytes(self) -> (r: Vec<u8>) ensures r@ == self.bs(), { self.v }
}
pub trait VEndsWith<P> {
    spec fn vew(&self, p: P) -> bool;
    spec fn vok(&self, p: P) -> bool;
    fn v_ends_with(&self, p: P) -> (r: bool) requires self.vok(p), ensures r == self.vew(p);
}
/// only for ASCII characters
impl VEndsWith<char> for VString {
    open spec fn vok(&self, p: char) -> bool { (p as u32) < 128 }
    open spec fn vew(&self, p: char) -> bool { self.bs().len() > 0 && self.bs().last() as u32 == p as u32 }
    fn v_ends_with(&self, p: char) -> (r: bool) { self.v.len() > 0 && self.v[self.v.len() - 1] as u32 == p as u32 }
}
impl VEndsWith<&[u8]> for Vec<u8> {
    open spec fn vok(&self, p: &[u8]) -> bool { true }
    open spec fn vew(&self, p: &[u8]) -> bool { is_suffix(p@, self@) }
    #[verifier::external_body]
    fn v_ends_with(&self, p: &[u8]) -> (r: bool) { unimplemented!() }
}
/// an owned text
pub trait OwnedText: Sized + VClone {
    spec fn ob(&self) -> Seq<u8>;
    proof fn lemma_ob_clone(a: &Self, b: &Self) requires a.cl(b), ensures a.ob() == b.ob();
}
impl VClone for VString {
    open spec fn cl(&self, r: &Self) -> bool { r.bs() == self.bs() }
    fn vclone(&self) -> (r: Self) {
        let v = self.v.vclone();
        assert(v@ =~= self.v@) by { assert forall|i: int| 0 <= i < v@.len() implies v@[i] == self.v@[i] by { assert(self.v@[i].cl(&v@[i])); } }
        VString { v }
    }
}
impl VClone for u8 {
    open spec fn cl(&self, r: &Self) -> bool { *r == *self }
    fn vclone(&self) -> (r: Self) { *self }
}
impl OwnedText for VString {
    open spec fn ob(&self) -> Seq<u8> { self.bs() }
    proof fn lemma_ob_clone(a: &Self, b: &Self) {}
}
impl OwnedText for Vec<u8> {
    open spec fn ob(&self) -> Seq<u8> { self@ }
    proof fn lemma_ob_clone(a: &Self, b: &Self) { assert(a@ =~= b@) by { assert forall|i: int| 0 <= i < a@.len() implies a@[i] == b@[i] by { assert(a@[i].cl(&b@[i])); } } }
}

/// `opt.into_iter().flatten()` over an optional slice
pub fn v_flatten_opt<'a, T>(o: Option<&'a [T]>) -> (r: &'a [T])
    ensures (match o { Some(s) => r@ == s@, None => r@.len() == 0 }),
{ match o { Some(s) => s, None => v_lit::<T, 0>(&[]) } }

/// `extend(x.iter().copied())`
pub fn v_extend_copied(v: &mut Vec<u8>, x: &[u8])
    ensures final(v)@ == old(v)@ + x@,
{
    let ghost o = v@;
    let mut i: usize = 0;
    while i < x.len()
        invariant i <= x@.len(), v@ == o + x@.take(i as int),
        decreases x@.len() - i,
    {
        v.push(x[i]);
        i += 1;
        assert(o + x@.take(i as int) =~= (o + x@.take(i - 1)).push(x@[i - 1]));
    }
    assert(x@.take(i as int) =~= x@);
}

// ------------------------------------------------------------------ writing
/// `fmt::Result`, `io::Result<()>`; the contents of errors are dropped
pub type VRes = core::result::Result<(), VErr>;
/// `io::Write`, `fmt::Write`: what has been written, and whether writing can fail
pub trait VSink {
    spec fn out(&self) -> Seq<u8>;
    spec fn fails(&self) -> bool;
    fn write_all(&mut self, b: &[u8]) -> (r: VRes)
        ensures r is Ok ==> final(self).out() == old(self).out() + b@, final(self).fails() == old(self).fails(), r is Err ==> old(self).fails();
}
impl VSink for Vec<u8> {
    open spec fn out(&self) -> Seq<u8> { self@ }
    open spec fn fails(&self) -> bool { false }
    fn write_all(&mut self, b: &[u8]) -> (r: VRes) { v_extend_copied(self, b); Ok(()) }
}
/// `fmt::Formatter`
#[verifier::external_body]
pub struct VFormatter<'a> { p: core::marker::PhantomData<&'a ()> }
pub uninterp spec fn fmt_out(f: &VFormatter<'_>) -> Seq<u8>;
pub uninterp spec fn fmt_fails(f: &VFormatter<'_>) -> bool;
impl VSink for VFormatter<'_> {
    open spec fn out(&self) -> Seq<u8> { fmt_out(self) }
    open spec fn fails(&self) -> bool { fmt_fails(self) }
    #[verifier::external_body]
    fn write_all(&mut self, b: &[u8]) -> (r: VRes) { unimplemented!() }
}
impl<'a> VFormatter<'a> {
    #[verifier::external_body]
    pub fn write_char(&mut self, c: char) -> (r: VRes)
        ensures r is Ok ==> final(self).out() == old(self).out() + enc(c), final(self).fails() == old(self).fails(), r is Err ==> old(self).fails(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: VRes)
        ensures r is Ok ==> final(self).out() == old(self).out() + str_bytes(s), final(self).fails() == old(self).fails(), r is Err ==> old(self).fails(),
    { unimplemented!() }
}
/// a literal piece of a format string
pub fn v_put<W: VSink + ?Sized>(w: &mut W, b: &[u8]) -> (r: VRes)
    ensures r is Ok ==> final(w).out() == old(w).out() + b@, final(w).fails() == old(w).fails(), r is Err ==> old(w).fails(),
{ w.write_all(b) }
/// `Display`: `dv` is the text
pub trait VDisplay {
    spec fn dv(&self) -> Seq<u8>;
    fn fmt(&self, f: &mut VFormatter<'_>) -> (r: VRes)
        ensures r is Ok ==> final(f).out() == old(f).out() + self.dv(), final(f).fails() == old(f).fails(), r is Err ==> old(f).fails();
}
/// `{}` of a format string
#[verifier::external_body]
pub fn v_fmt<W: VSink + ?Sized, D: VDisplay + ?Sized>(w: &mut W, d: &D) -> (r: VRes)
    ensures r is Ok ==> final(w).out() == old(w).out() + d.dv(), final(w).fails() == old(w).fails(), r is Err ==> old(w).fails(),
{ unimplemented!() }
impl<'a, D: VDisplay + ?Sized> VDisplay for &'a D {
    open spec fn dv(&self) -> Seq<u8> { (**self).dv() }
    fn fmt(&self, f: &mut VFormatter<'_>) -> (r: VRes) { (**self).fmt(f) }
}
impl VDisplay for str {
    open spec fn dv(&self) -> Seq<u8> { str_bytes(self) }
    fn fmt(&self, f: &mut VFormatter<'_>) -> (r: VRes) { f.write_str(self) }
}
/// a literal (they are slices of bytes here)
impl VDisplay for [u8] {
    open spec fn dv(&self) -> Seq<u8> { self@ }
    fn fmt(&self, f: &mut VFormatter<'_>) -> (r: VRes) { f.write_all(self) }
}
impl VDisplay for char {
    open spec fn dv(&self) -> Seq<u8> { enc(*self) }
    fn fmt(&self, f: &mut VFormatter<'_>) -> (r: VRes) { f.write_char(*self) }
}
/// decimal digits
pub open spec fn udec(n: nat) -> Seq<u8>
    decreases n
{ if n < 10 { seq![(48 + n) as u8] } else { udec(n / 10).push((48 + n % 10) as u8) } }
impl VDisplay for usize {
    open spec fn dv(&self) -> Seq<u8> { udec(*self as nat) }
    #[verifier::external_body]
    fn fmt(&self, f: &mut VFormatter<'_>) -> (r: VRes) { unimplemented!() }
}
pub proof fn lemma_udec(n: nat)
    ensures digits(udec(n)), dec(udec(n)) == n,
    decreases n,
{
    let s = udec(n);
    if n < 10 {
        assert(s.drop_last() =~= Seq::<u8>::empty());
        assert(dec(s.drop_last()) == 0);
    } else {
        lemma_udec(n / 10);
        assert(s.drop_last() =~= udec(n / 10));
    }
}
pub proof fn lemma_udec_parse(n: nat)
    requires n <= usize::MAX,
    ensures parse_num(udec(n)) == Some(n), digits(udec(n)),
{ lemma_udec(n); assert(udec(n)[0] != 43); }

/// UTF-8
pub open spec fn enc(c: char) -> Seq<u8> { if (c as u32) < 128 { seq![c as u8] } else { enc_hi(c) } }
pub open spec fn enc_hi(c: char) -> Seq<u8> {
    let n = c as u32;
    if n < 0x800 { seq![(0xC0 + n / 0x40) as u8, (0x80 + n % 0x40) as u8] }
    else if n < 0x10000 { seq![(0xE0 + n / 0x1000) as u8, (0x80 + n / 0x40 % 0x40) as u8, (0x80 + n % 0x40) as u8] }
    else { seq![(0xF0 + n / 0x40000) as u8, (0x80 + n / 0x1000 % 0x40) as u8, (0x80 + n / 0x40 % 0x40) as u8, (0x80 + n % 0x40) as u8] }
}
/// the bytes of a character that is not ASCII are not ASCII
pub proof fn lemma_enc(c: char)
    ensures (c as u32) >= 128 ==> forall|i: int| 0 <= i < enc_hi(c).len() ==> #[trigger] enc_hi(c)[i] >= 128,
{}
pub open spec fn enc_all(s: Seq<char>) -> Seq<u8>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { enc_all(s.drop_last()) + enc(s.last()) } }
/// the bytes of a text are those of its characters
pub proof fn lemma_chars(s: &str)
    ensures str_bytes(s) == enc_all(s@),
{}
impl Vw for char { type V = char; open spec fn vw(self) -> char { self } }
/// `str::chars`
#[verifier::external_body]
pub struct VChars<'a> { p: core::marker::PhantomData<&'a ()> }
pub uninterp spec fn chars_rest(c: &VChars<'_>) -> Seq<char>;
impl<'a> VIter for VChars<'a> {
    type Item = char;
    open spec fn rest(&self) -> Seq<char> { chars_rest(self) }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<char>) { unimplemented!() }
}
pub trait VCharsOp { spec fn cs(&self) -> Seq<char>; fn v_chars(&self) -> (r: VChars<'_>) ensures r.rest() == self.cs(); }
impl VCharsOp for str {
    open spec fn cs(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_chars(&self) -> (r: VChars<'_>) { unimplemented!() }
}
impl<'b> VContains<&'b char> for [char] {
    open spec fn vcon(&self, p: &'b char) -> bool { self@.contains(*p) }
    fn v_contains(&self, p: &'b char) -> (r: bool) {
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self@.len(), forall|j: int| 0 <= j < i ==> #[trigger] self@[j] != *p,
            decreases self@.len() - i,
        { if self[i] == *p { assert(self@[i as int] == *p); assert(self.vcon(p)); return true; } i += 1; }
        assert(!self.vcon(p));
        false
    }
}
/// one of the characters occurs
impl<'b> VContains<&'b [char]> for str {
    open spec fn vcon(&self, p: &'b [char]) -> bool { exists|i: int| 0 <= i < self@.len() && p@.contains(#[trigger] self@[i]) }
    fn v_contains(&self, p: &'b [char]) -> (r: bool) {
        let mut it = self.v_chars();
        let ghost mut k: int = 0;
        assert(it.rest() =~= self@.skip(0));
        loop
            invariant 0 <= k <= self@.len(), it.rest() == self@.skip(k), forall|j: int| 0 <= j < k ==> !p@.contains(#[trigger] self@[j]),
            ensures k == self@.len(),
            decreases self@.len() - k,
        {
            match it.next() {
                Some(c) => {
                    assert(c.vw() == c);
                    assert(c == self@[k]);
                    if p.v_contains(&c) { return true; }
                    proof { assert(self@.skip(k).skip(1) =~= self@.skip(k + 1)); k = k + 1; }
                }
                None => { break; }
            }
        }
        false
    }
}
impl VEndsWith<char> for str {
    open spec fn vok(&self, p: char) -> bool { (p as u32) < 128 }
    open spec fn vew(&self, p: char) -> bool { is_suffix(seq![p as u8], str_bytes(self)) }
    #[verifier::external_body]
    fn v_ends_with(&self, p: char) -> (r: bool) { unimplemented!() }
}
impl VEndsWith<&[u8]> for [u8] {
    open spec fn vok(&self, p: &[u8]) -> bool { true }
    open spec fn vew(&self, p: &[u8]) -> bool { is_suffix(p@, self@) }
    #[verifier::external_body]
    fn v_ends_with(&self, p: &[u8]) -> (r: bool) { unimplemented!() }
}
impl VEq<[u8]> for str {
    open spec fn veq(&self, o: &[u8]) -> bool { str_bytes(self) == o@ }
    fn v_eq_(&self, o: &[u8]) -> (r: bool) { v_eq(self.std_as_bytes(), o) }
}
impl<'a, R: ?Sized, L: VEq<R> + ?Sized> VEq<R> for &'a L {
    open spec fn veq(&self, o: &R) -> bool { (**self).veq(o) }
    fn v_eq_(&self, o: &R) -> (r: bool) { (**self).v_eq_(o) }
}

// ------------------------------------------------------------------ nu-ansi-term: styles and the escape sequences before and after a styled text
#[derive(Clone, Copy)]
pub struct Style { pub id: u64 }
pub struct VPrefix { pub s: Style }
pub struct VSuffix { pub s: Style }
pub uninterp spec fn style_pre(s: Style) -> Seq<u8>;
pub uninterp spec fn style_suf(s: Style) -> Seq<u8>;
impl Style {
    #[verifier::external_body]
    pub fn new() -> (r: Style) { unimplemented!() }
    #[verifier::external_body]
    pub fn bold(self) -> (r: Style) { unimplemented!() }
    pub fn prefix(self) -> (r: VPrefix) ensures r.dv() == style_pre(self), { VPrefix { s: self } }
    pub fn suffix(self) -> (r: VSuffix) ensures r.dv() == style_suf(self), { VSuffix { s: self } }
}
impl VDisplay for VPrefix {
    open spec fn dv(&self) -> Seq<u8> { style_pre(self.s) }
    #[verifier::external_body]
    fn fmt(&self, f: &mut VFormatter<'_>) -> (r: VRes) { unimplemented!() }
}
impl VDisplay for VSuffix {
    open spec fn dv(&self) -> Seq<u8> { style_suf(self.s) }
    #[verifier::external_body]
    fn fmt(&self, f: &mut VFormatter<'_>) -> (r: VRes) { unimplemented!() }
}
pub enum Color { Black, Red, Green, Yellow, Blue, Purple, Magenta, Cyan, White, Default }
impl Color {
    #[verifier::external_body]
    pub fn normal(self) -> (r: Style) { unimplemented!() }
    #[verifier::external_body]
    pub fn bold(self) -> (r: Style) { unimplemented!() }
}
