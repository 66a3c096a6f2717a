//@ source utils.rs
//@ strlit
//@ inst FromStr=usize
//@ rebound Eq=Text
//@ retype HashMap=VMap
//@ stdself Text@str Text@[u8]
//@ litparams prefix suffix needle
//@ eqfn haystack
//@ iterfn LineIter::new
//@ rename Iterator VIter
//@ rename Default VDefault
//@ raw
use super::*;

impl<'a, T: Text + ?Sized> Vw for &'a T { type V = Seq<u8>; open spec fn vw(self) -> Seq<u8> { self.tv() } }

// ------------------------------------------------------------------ lines
/// index of the first newline (the length if there is none)
pub open spec fn nli(s: Seq<u8>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else if s[0] == 10 { 0 } else { 1 + nli(s.skip(1)) } }
/// length of the first line, its newline included
pub open spec fn fl(s: Seq<u8>) -> int { if nli(s) < s.len() { nli(s) + 1 } else { s.len() as int } }
/// the lines of a text, newlines included
pub open spec fn lines(s: Seq<u8>) -> Seq<Seq<u8>>
    decreases s.len()
    via lines_dec
{ if s.len() == 0 { Seq::empty() } else { seq![s.take(fl(s))] + lines(s.skip(fl(s))) } }
#[via_fn]
proof fn lines_dec(s: Seq<u8>) { lemma_nli(s); }
/// concatenation
pub open spec fn cat(ls: Seq<Seq<u8>>) -> Seq<u8>
    decreases ls.len()
{ if ls.len() == 0 { Seq::empty() } else { ls[0] + cat(ls.skip(1)) } }
/// a line: not empty, a newline only at its end, and there unless it is the last
pub open spec fn wf_line(l: Seq<u8>, last: bool) -> bool {
    l.len() > 0 && (forall|i: int| 0 <= i < l.len() - 1 ==> #[trigger] l[i] != 10) && (last || l.last() == 10)
}
pub open spec fn wf_lines(ls: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < ls.len() ==> wf_line(#[trigger] ls[i], i == ls.len() - 1) }
/// what lines stand for
pub open spec fn lv<'a, T: Text + ?Sized>(s: Seq<&'a T>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| s[i].tv()) }

pub proof fn lemma_nli(s: Seq<u8>)
    ensures 0 <= nli(s) <= s.len(), forall|i: int| 0 <= i < nli(s) ==> #[trigger] s[i] != 10, nli(s) < s.len() ==> s[nli(s)] == 10,
        s.len() > 0 ==> 0 < fl(s) <= s.len(),
    decreases s.len(),
{
    if s.len() > 0 && s[0] != 10 {
        let t = s.skip(1);
        lemma_nli(t);
        assert forall|i: int| 0 <= i < nli(s) implies #[trigger] s[i] != 10 by { if i > 0 { assert(t[i - 1] == s[i]); } }
        if nli(s) < s.len() { assert(t[nli(t)] == s[nli(s)]); }
    }
}
pub proof fn lemma_nli_is(s: Seq<u8>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> #[trigger] s[i] != 10, k < s.len() ==> s[k] == 10,
    ensures nli(s) == k,
{
    lemma_nli(s);
    if nli(s) < k { assert(s[nli(s)] != 10); }
    if k < nli(s) { assert(s[k] != 10); }
}
pub proof fn lemma_cat(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>)
    ensures cat(a + b) == cat(a) + cat(b),
    decreases a.len(),
{
    if a.len() == 0 {
        assert(a + b =~= b);
        assert(cat(a) + cat(b) =~= cat(b));
    } else {
        assert((a + b).skip(1) =~= a.skip(1) + b);
        lemma_cat(a.skip(1), b);
        assert((a + b)[0] == a[0]);
        assert(a[0] + (cat(a.skip(1)) + cat(b)) =~= (a[0] + cat(a.skip(1))) + cat(b));
    }
}
pub proof fn lemma_cat1(l: Seq<u8>)
    ensures cat(seq![l]) == l,
{
    assert(seq![l].skip(1) =~= Seq::<Seq<u8>>::empty());
    assert(cat(seq![l].skip(1)) =~= Seq::<u8>::empty());
    assert(cat(seq![l]) =~= l);
}
/// the lines of a text are lines and concatenate to it
pub proof fn lemma_lines(s: Seq<u8>)
    ensures cat(lines(s)) == s, wf_lines(lines(s)), lines(s).len() <= s.len(), (lines(s).len() == 0) == (s.len() == 0),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_nli(s);
        let k = fl(s);
        let t = s.skip(k);
        lemma_lines(t);
        let l = lines(s);
        assert(l.skip(1) =~= lines(t));
        assert(l[0] == s.take(k));
        assert(cat(l) == s.take(k) + t);
        assert(s.take(k) + t =~= s);
        assert forall|i: int| 0 <= i < l.len() implies wf_line(#[trigger] l[i], i == l.len() - 1) by {
            if i > 0 {
                assert(l[i] == lines(t)[i - 1]);
            } else {
                assert forall|j: int| 0 <= j < l[0].len() - 1 implies #[trigger] l[0][j] != 10 by { assert(s[j] != 10); }
                if l.len() > 1 { assert(t.len() > 0); }
            }
        }
    }
}
/// ... and they are the only such sequence
pub proof fn lemma_lines_unique(ls: Seq<Seq<u8>>)
    requires wf_lines(ls),
    ensures lines(cat(ls)) == ls,
    decreases ls.len(),
{
    if ls.len() > 0 {
        let s = cat(ls);
        let t = ls.skip(1);
        let l = ls[0];
        assert(wf_line(l, 0 == ls.len() - 1));
        assert forall|i: int| 0 <= i < t.len() implies wf_line(#[trigger] t[i], i == t.len() - 1) by { assert(t[i] == ls[i + 1]); }
        lemma_lines_unique(t);
        assert(s == l + cat(t));
        let k = if l.last() == 10 { l.len() - 1 } else { l.len() as int };
        if l.last() != 10 { assert(t.len() == 0); assert(cat(t).len() == 0); }
        assert forall|i: int| 0 <= i < k implies #[trigger] s[i] != 10 by { assert(s[i] == l[i]); }
        lemma_nli_is(s, k);
        assert(s.take(fl(s)) =~= l);
        assert(s.skip(fl(s)) =~= cat(t));
        assert(lines(s) =~= ls);
    } else {
        assert(lines(cat(ls)) =~= ls);
    }
}
pub proof fn lemma_occ_nl(s: Seq<u8>, n: Seq<u8>, j: int)
    requires n == seq![10u8],
    ensures occ(s, n, j) == (0 <= j < s.len() && s[j] == 10),
{
    if 0 <= j < s.len() {
        assert(s.subrange(j, j + 1) =~= seq![s[j]]);
        assert(seq![s[j]][0] == s[j]);
    }
}
pub mod bl {
use super::super::*;
/// the first occurrence of n
pub open spec fn is_first(s: Seq<u8>, n: Seq<u8>, i: int) -> bool { occ(s, n, i) && forall|j: int| 0 <= j < i ==> !#[trigger] occ(s, n, j) }
/// before and after the first occurrence of n
pub closed spec fn split(s: Seq<u8>, n: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> {
    if exists|i: int| #[trigger] occ(s, n, i) {
        let i = choose|i: int| is_first(s, n, i);
        Some((s.take(i), s.skip(i + n.len())))
    } else { None }
}
pub proof fn lemma_split(s: Seq<u8>, n: Seq<u8>, i: int)
    requires is_first(s, n, i),
    ensures split(s, n) == Some((s.take(i), s.skip(i + n.len()))),
{
    let k = choose|k: int| is_first(s, n, k);
    assert(is_first(s, n, k));
    assert(occ(s, n, i) && occ(s, n, k));
    assert(k == i);
}
pub proof fn lemma_split_none(s: Seq<u8>, n: Seq<u8>)
    requires is_find(s, n, None),
    ensures split(s, n) is None,
{}
pub proof fn lemma_first(s: Seq<u8>, n: Seq<u8>, i: int)
    requires occ(s, n, i),
    ensures exists|k: int| is_first(s, n, k),
    decreases i,
{
    if exists|j: int| 0 <= j < i && #[trigger] occ(s, n, j) { let j = choose|j: int| 0 <= j < i && #[trigger] occ(s, n, j); lemma_first(s, n, j); }
    else { assert(is_first(s, n, i)); }
}
/// the parts
pub proof fn lemma_split_parts(s: Seq<u8>, n: Seq<u8>)
    ensures split(s, n) is Some ==> exists|i: int| 0 <= i <= s.len() - n.len() && split(s, n) == Some((s.take(i), #[trigger] s.skip(i + n.len()))),
{
    if split(s, n) is Some {
        let j = choose|j: int| #[trigger] occ(s, n, j);
        lemma_first(s, n, j);
        let i = choose|i: int| is_first(s, n, i);
        assert(is_first(s, n, i));
        assert(split(s, n) == Some((s.take(i), s.skip(i + n.len()))));
    }
}
pub broadcast proof fn lemma_split_find(s: Seq<u8>, n: Seq<u8>, r: Option<usize>)
    requires #[trigger] is_find(s, n, r),
    ensures split(s, n) == (match r { Some(i) => Some((s.take(i as int), s.skip(i + n.len()))), None => None }),
{
    if let Some(i) = r { assert(is_first(s, n, i as int)); lemma_split(s, n, i as int); }
}
}
pub use bl::*;
broadcast use bl::lemma_split_find;
/// no Vec of u64 has more elements (Rust: an allocation spans at most isize::MAX bytes)
pub axiom fn axiom_vec_u64(v: &Vec<u64>)
    ensures v@.len() <= 0x0fff_ffff_ffff_ffff;

/// identities of lines under a classification
pub open spec fn ids(m: Map<Seq<u8>, u64>, ls: Seq<Seq<u8>>) -> Seq<u64> { Seq::new(ls.len(), |i: int| m[ls[i]]) }
pub open spec fn known(m: Map<Seq<u8>, u64>, ls: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < ls.len() ==> m.contains_key(#[trigger] ls[i]) }
/// different lines have different identities
pub open spec fn inj(m: Map<Seq<u8>, u64>) -> bool { forall|k: Seq<u8>, l: Seq<u8>| m.contains_key(k) && m.contains_key(l) && #[trigger] m[k] == #[trigger] m[l] ==> k == l }
pub proof fn lemma_ids_sub(m: Map<Seq<u8>, u64>, m2: Map<Seq<u8>, u64>, ls: Seq<Seq<u8>>)
    requires known(m, ls), m.submap_of(m2),
    ensures known(m2, ls), ids(m2, ls) == ids(m, ls),
{
    assert forall|i: int| 0 <= i < ls.len() implies m2.contains_key(#[trigger] ls[i]) && m2[ls[i]] == m[ls[i]] by { assert(m.contains_key(ls[i])); }
    assert(ids(m2, ls) =~= ids(m, ls));
}
/// equal identities, equal lines
pub proof fn lemma_ids_eq(m: Map<Seq<u8>, u64>, a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, i: int, j: int)
    requires inj(m), known(m, a), known(m, b), 0 <= i < a.len(), 0 <= j < b.len(),
    ensures (ids(m, a)[i] == ids(m, b)[j]) == (a[i] == b[j]),
{
    assert(m.contains_key(a[i]) && m.contains_key(b[j]));
    assert(ids(m, a)[i] == m[a[i]] && ids(m, b)[j] == m[b[j]]);
}
impl<'a, T: Text + ?Sized> Classifier<'a, T> {
    pub open spec fn m(&self) -> Map<Seq<u8>, u64> { self.unique_ids.mv() }
    pub open spec fn inv(&self) -> bool {
        inj(self.m()) && forall|k: Seq<u8>| #[trigger] self.m().contains_key(k) ==> self.m()[k] < self.next_id
    }
}

/// equality of texts: equality of their bytes
#[verifier::external_body]
pub fn v_item_eq<'a, 'b, T: Text + ?Sized>(x: &'a T, y: &'b T) -> (r: bool) ensures r == (x.tv() == y.tv()), { unimplemented!() }
/// `Cow`
#[verifier::reject_recursive_types(T)]
pub enum Cow<'a, T: Text + ?Sized> { Borrowed(&'a T), Owned(<T as Text>::Owned) }
impl<'a, T: Text + ?Sized> Cow<'a, T> {
    pub open spec fn cv(&self) -> Seq<u8> { match self { Cow::Borrowed(t) => t.tv(), Cow::Owned(o) => o.ob() } }
    pub fn as_ref(&self) -> (r: &T) ensures r.tv() == self.cv(), { match self { Cow::Borrowed(t) => *t, Cow::Owned(o) => T::std_borrow(o) } }
}
impl<'a, T: Text + ?Sized> VClone for Cow<'a, T> {
    open spec fn cl(&self, r: &Self) -> bool { self.cv() == r.cv() }
    fn vclone(&self) -> (r: Self) {
        match self {
            Cow::Borrowed(t) => Cow::Borrowed(*t),
            Cow::Owned(o) => { let c = o.vclone(); proof { <<T as Text>::Owned as OwnedText>::lemma_ob_clone(o, &c); } Cow::Owned(c) }
        }
    }
}
/// `Into`
pub trait HasBytes { spec fn hb(&self) -> Seq<u8>; }
impl<'a, T: Text + ?Sized> HasBytes for Cow<'a, T> { open spec fn hb(&self) -> Seq<u8> { self.cv() } }
pub trait IntoCow<C: HasBytes>: Sized {
    spec fn iv(self) -> Seq<u8>;
    fn v_into(self) -> (r: C) ensures r.hb() == self.iv();
}
impl<'a, T: Text + ?Sized> IntoCow<Cow<'a, T>> for Cow<'a, T> {
    open spec fn iv(self) -> Seq<u8> { self.cv() }
    fn v_into(self) -> (r: Cow<'a, T>) { self }
}
impl<'a, T: Text + ?Sized> IntoCow<Cow<'a, T>> for &'a T {
    open spec fn iv(self) -> Seq<u8> { self.tv() }
    fn v_into(self) -> (r: Cow<'a, T>) { Cow::Borrowed(self) }
}
impl<'a> IntoCow<Cow<'a, [u8]>> for Vec<u8> {
    open spec fn iv(self) -> Seq<u8> { self@ }
    fn v_into(self) -> (r: Cow<'a, [u8]>) { Cow::Owned(self) }
}
impl<'a> IntoCow<Cow<'a, str>> for VString {
    open spec fn iv(self) -> Seq<u8> { self.bs() }
    fn v_into(self) -> (r: Cow<'a, str>) { Cow::Owned(self) }
}
/// `AsRef`
pub trait VAsRef<T: Text + ?Sized> {
    spec fn rv(&self) -> Seq<u8>;
    fn as_ref(&self) -> (r: &T) ensures r.tv() == self.rv();
}
pub proof fn lemma_lv_sub<'a, T: Text + ?Sized>(s: Seq<&'a T>)
    ensures forall|i: int, j: int| 0 <= i <= j <= s.len() ==> #[trigger] lv(s.subrange(i, j)) == lv(s).subrange(i, j),
{
    assert forall|i: int, j: int| 0 <= i <= j <= s.len() implies #[trigger] lv(s.subrange(i, j)) == lv(s).subrange(i, j) by { assert(lv(s.subrange(i, j)) =~= lv(s).subrange(i, j)); }
}
/// append all pieces
pub trait VExtendAll<T: Text + ?Sized> {
    spec fn vea(&self) -> Seq<u8>;
    fn v_extend_all<'a>(&mut self, s: &[&'a T]) ensures final(self).vea() == old(self).vea() + cat(lv(s@));
}
impl VExtendAll<str> for VString {
    open spec fn vea(&self) -> Seq<u8> { self.bs() }
    fn v_extend_all<'a>(&mut self, s: &[&'a str]) {
        let ghost o = self.bs();
        let mut i: usize = 0;
        proof { assert(s@.skip(0) =~= s@); assert(o =~= o + Seq::<u8>::empty()); }
        while i < s.len()
            invariant i <= s@.len(), self.bs() + cat(lv(s@.skip(i as int))) == o + cat(lv(s@)),
            decreases s@.len() - i,
        {
            proof { lemma_ext_step(self.bs(), s@, i as int); }
            self.push_item(s[i]);
            i += 1;
        }
        assert(lv(s@.skip(i as int)) =~= Seq::<Seq<u8>>::empty());
        assert(self.bs() =~= self.bs() + cat(lv(s@.skip(i as int))));
    }
}
impl VExtendAll<[u8]> for Vec<u8> {
    open spec fn vea(&self) -> Seq<u8> { self@ }
    fn v_extend_all<'a>(&mut self, s: &[&'a [u8]]) {
        let ghost o = self@;
        let mut i: usize = 0;
        proof { assert(s@.skip(0) =~= s@); assert(o =~= o + Seq::<u8>::empty()); }
        while i < s.len()
            invariant i <= s@.len(), self@ + cat(lv(s@.skip(i as int))) == o + cat(lv(s@)),
            decreases s@.len() - i,
        {
            proof { lemma_ext_step(self@, s@, i as int); }
            v_extend_copied(self, s[i]);
            i += 1;
        }
        assert(lv(s@.skip(i as int)) =~= Seq::<Seq<u8>>::empty());
        assert(self@ =~= self@ + cat(lv(s@.skip(i as int))));
    }
}
pub proof fn lemma_ext_step<'a, T: Text + ?Sized>(o: Seq<u8>, s: Seq<&'a T>, i: int)
    requires 0 <= i < s.len(),
    ensures o + cat(lv(s.skip(i))) == o + s[i].tv() + cat(lv(s.skip(i + 1))),
{
    assert(lv(s.skip(i)).skip(1) =~= lv(s.skip(i + 1)));
    assert(lv(s.skip(i))[0] == s[i].tv());
    assert(o + (s[i].tv() + cat(lv(s.skip(i + 1)))) =~= o + s[i].tv() + cat(lv(s.skip(i + 1))));
}
//@ type Classifier attr=verifier::reject_recursive_types(T)
//@ type LineIter
//@ trait Text
/// `ToOwned`
type Owned: OwnedText;
fn std_borrow(o: &Self::Owned) -> (r: &Self) ensures r.tv() == o.ob();
spec fn tv(&self) -> Seq<u8>;
/// a position the text can be cut at
spec fn bd(&self, i: int) -> bool;
/// texts of this type are valid UTF-8
spec fn tu() -> bool;
proof fn lemma_bd(&self)
    ensures self.tv().len() <= isize::MAX, Self::tu() ==> utf8(self.tv()), self.bd(0), self.bd(self.tv().len() as int), forall|i: int| 0 <= i < self.tv().len() && #[trigger] self.tv()[i] < 0x80 ==> self.bd(i) && self.bd(i + 1);
//@ implraw Text@str
type Owned = VString;
#[verifier::external_body]
fn std_borrow(o: &VString) -> (r: &str) { unimplemented!() }
open spec fn tv(&self) -> Seq<u8> { str_bytes(self) }
open spec fn tu() -> bool { true }
open spec fn bd(&self, i: int) -> bool { str_cut(str_bytes(self), i) }
proof fn lemma_bd(&self) {
    lemma_str(self);
    assert forall|i: int| 0 <= i < self.tv().len() && #[trigger] self.tv()[i] < 0x80 implies self.bd(i) && self.bd(i + 1) by {
        if i + 1 < self.tv().len() { lemma_utf8_ascii(self.tv(), i); }
    }
}
//@ implraw Text@[u8]
type Owned = Vec<u8>;
fn std_borrow(o: &Vec<u8>) -> (r: &[u8]) { o.as_slice() }
open spec fn tv(&self) -> Seq<u8> { self@ }
open spec fn tu() -> bool { false }
open spec fn bd(&self, i: int) -> bool { true }
proof fn lemma_bd(&self) { axiom_bytes(self); }
//@ fn Text::is_empty
    ensures r == (self.tv().len() == 0),
//@ fn Text::len
    ensures r == self.tv().len(),
//@ fn Text::starts_with
    requires ascii(prefix@),
    ensures r == prefix@.is_prefix_of(self.tv()),
//@ fn Text::ends_with
    requires ascii(suffix@),
    ensures r == is_suffix(suffix@, self.tv()),
//@ fn Text::strip_prefix
    requires ascii(prefix@),
    ensures (match r { Some(x) => prefix@.is_prefix_of(self.tv()) && x.tv() == self.tv().skip(prefix@.len() as int), None => !prefix@.is_prefix_of(self.tv()) }),
//@ fn Text::strip_suffix
    requires ascii(suffix@),
    ensures (match r { Some(x) => is_suffix(suffix@, self.tv()) && x.tv() == self.tv().take(self.tv().len() - suffix@.len()), None => !is_suffix(suffix@, self.tv()) }),
//@ fn Text::split_at_exclusive
    requires ascii(needle@), needle@.len() > 0,
    ensures split(self.tv(), needle@) == (match r { Some((x, y)) => Some((x.tv(), y.tv())), None => None }),
//@ fn Text::find
    requires ascii(needle@), needle@.len() > 0,
    ensures is_find(self.tv(), needle@, r),
//@ fn Text::split_at
    requires mid <= self.tv().len(), self.bd(mid as int),
    ensures r.0.tv() == self.tv().take(mid as int), r.1.tv() == self.tv().skip(mid as int),
//@ fn Text::as_str
    ensures (match r { Some(x) => str_bytes(x) == self.tv(), None => !utf8(self.tv()) }),
//@ fn Text::as_bytes
    ensures r@ == self.tv(),
//@ fn Text::lines
    ensures r.0.tv() == self.tv(),
//@ fn Text::parse
    ensures (match r { Some(x) => parse_num(self.tv()) == Some(x as nat), None => parse_num(self.tv()) is None }),
//@ ghost Text::parse start
    proof { if !utf8(self.tv()) { lemma_num_utf8(self.tv()); } }
//@ fn Text@str::is_empty
//@ fn Text@str::len
//@ fn Text@str::starts_with
//@ fn Text@str::ends_with
//@ fn Text@str::strip_prefix
//@ fn Text@str::strip_suffix
//@ fn Text@str::split_at_exclusive
//@ ghost Text@str::split_at_exclusive start
    proof {
        self.lemma_bd();
        assert forall|j: int| occ(self.tv(), needle@, j) implies self.tv()[j] < 0x80 && self.tv()[j + needle@.len() - 1] < 0x80 by {
            assert(self.tv().subrange(j, j + needle@.len())[0] == self.tv()[j]);
            assert(self.tv().subrange(j, j + needle@.len())[needle@.len() - 1] == self.tv()[j + needle@.len() - 1]);
        }
    }
//@ fn Text@str::find
//@ fn Text@str::split_at
//@ fn Text@str::as_str
//@ fn Text@str::as_bytes
//@ fn Text@str::lines
//@ fn Text@[u8]::is_empty
//@ fn Text@[u8]::len
//@ fn Text@[u8]::starts_with
//@ fn Text@[u8]::ends_with
//@ fn Text@[u8]::strip_prefix
//@ fn Text@[u8]::strip_suffix
//@ fn Text@[u8]::split_at_exclusive
//@ ghost Text@[u8]::split_at_exclusive start
    proof { axiom_bytes(self); }
//@ fn Text@[u8]::find
//@ fn Text@[u8]::split_at
//@ fn Text@[u8]::as_str
//@ fn Text@[u8]::as_bytes
//@ fn Text@[u8]::lines
//@ fn LineIter::new
    ensures r.0 == text,
//@ implraw VIter@LineIter
//@ fn Classifier::classify
    requires old(self).inv(), old(self).next_id < u64::MAX,
    ensures
        final(self).inv(), old(self).m().submap_of(final(self).m()), final(self).m().contains_key(record.tv()), final(self).m()[record.tv()] == r,
        old(self).next_id <= final(self).next_id <= old(self).next_id + 1,
//@ fn Classifier::classify_lines
    requires old(self).inv(), old(self).next_id <= 0x3fff_ffff_ffff_ffff,
    ensures
        final(self).inv(), old(self).m().submap_of(final(self).m()),
        lv(r.0@) == lines(text.tv()), known(final(self).m(), lines(text.tv())), r.1@ == ids(final(self).m(), lines(text.tv())),
        final(self).next_id <= old(self).next_id + 0x0fff_ffff_ffff_ffff, r.1@.len() <= 0x0fff_ffff_ffff_ffff,
//@ ghost Classifier::classify_lines start
    let ghost st0 = *old(self);
    let ghost mut done: Seq<Seq<u8>> = Seq::empty();
//@ loop Classifier::classify_lines c0
    invariant
        st0.inv(), st0.next_id <= 0x3fff_ffff_ffff_ffff,
        self.inv(), st0.m().submap_of(self.m()), known(self.m(), done), outbc0@ == ids(self.m(), done), lv(outac0@) == done,
        done + itc0.rest() == lines(text.tv()), self.next_id <= st0.next_id + outbc0@.len(),
    ensures itc0.rest().len() == 0,
    decreases itc0.rest().len(),
//@ ghost Classifier::classify_lines chain 0 start
    let ghost st1 = *self;
    let ghost it1 = itc0.rest();
    proof { axiom_vec_u64(&outbc0); }
//@ ghost Classifier::classify_lines chain 0 end
    proof {
        let d2 = done.push(it1[0]);
        lemma_ids_sub(st1.m(), self.m(), done);
        assert(st0.m().submap_of(self.m())) by { assert forall|k: Seq<u8>| #[trigger] st0.m().contains_key(k) implies self.m().contains_key(k) && self.m()[k] == st0.m()[k] by { assert(st1.m().contains_key(k)); } }
        assert(known(self.m(), d2)) by { assert forall|i: int| 0 <= i < d2.len() implies self.m().contains_key(#[trigger] d2[i]) by { if i < done.len() { assert(d2[i] == done[i]); } } }
        assert(outbc0@ =~= ids(self.m(), d2));
        assert(lv(outac0@) =~= d2);
        assert(d2 + itc0.rest() =~= done + it1);
        done = d2;
    }
//@ ghost Classifier::classify_lines chain 0 after
    proof { axiom_vec_u64(&outbc0); assert(done + itc0.rest() =~= done); }
//@ ghost Classifier::classify_lines chain 0 before
    assert(done + itc0.rest() =~= lines(text.tv()));
    assert(lv(outac0@) =~= done);
    assert(outbc0@ =~= ids(self.m(), done));
//@ fn Default@Classifier::default
    ensures r.inv(), r.next_id == 0, r.m() == Map::<Seq<u8>, u64>::empty(),
//@ implraw Iterator@LineIter
open spec fn rest(&self) -> Seq<Seq<u8>> { lines(self.0.tv()) }
//@ fn Iterator@LineIter::next
//@ ghost Iterator@LineIter::next start
    let ghost s = self.0.tv();
    proof {
        self.0.lemma_bd();
        lemma_nli(s);
        assert forall|j: int| occ(s, seq![10u8], j) == (0 <= j < s.len() && s[j] == 10) by { lemma_occ_nl(s, seq![10u8], j); }
    }
//@ ghost Iterator@LineIter::next after let end
    proof {
        if end == s.len() && !(s.len() > 0 && s[end - 1] == 10) { lemma_nli_is(s, end as int); } else { lemma_nli_is(s, end - 1); }
        assert(end == fl(s));
        assert(lines(s).skip(1) =~= lines(s.skip(fl(s))));
    }
//@ fn find_bytes attr=verifier::loop_isolation(false) attr=verifier::allow_complex_invariants
    ensures needle@.len() == 0 ==> r == Some(0usize), needle@.len() > 0 ==> is_find(haystack@, needle@, r),
//@ fn find_byte
    ensures (match r {
        Some(i) => i < haystack@.len() && haystack@[i as int] == byte && forall|j: int| 0 <= j < i ==> #[trigger] haystack@[j] != byte,
        None => forall|j: int| 0 <= j < haystack@.len() ==> #[trigger] haystack@[j] != byte,
    }),
//@ loop find_byte c0
    invariant_except_break
        pc0 == ic0, outc0 is None,
        forall|j: int| 0 <= j < ic0 ==> #[trigger] haystack@[j] != byte,
    invariant
        sc0@ == haystack@, nc0 == haystack@.len(), ic0 <= nc0,
    ensures
        (match outc0 {
            Some(i) => i < haystack@.len() && haystack@[i as int] == byte && forall|j: int| 0 <= j < i ==> #[trigger] haystack@[j] != byte,
            None => forall|j: int| 0 <= j < haystack@.len() ==> #[trigger] haystack@[j] != byte,
        }),
    decreases nc0 - ic0,
//@ ghost find_bytes start
    let ghost h0 = haystack@;
    proof {
        axiom_bytes(haystack); axiom_bytes(needle);
        if needle@.len() > 0 {
            assert forall|j: int| #[trigger] occ(h0, needle@, j) implies h0[j] == needle@[0] by { assert(h0.subrange(j, j + needle@.len())[0] == h0[j]); }
        }
        if needle@.len() == 1 {
            assert forall|j: int| #[trigger] occ(h0, needle@, j) == (0 <= j < h0.len() && h0[j] == needle@[0]) by {
                if 0 <= j < h0.len() { assert(h0.subrange(j, j + 1)[0] == h0[j]); if h0[j] == needle@[0] { assert(h0.subrange(j, j + 1) =~= needle@); } }
            }
        }
    }
//@ loop find_bytes l0
    invariant
        needle_len == needle@.len(), needle_len >= 2, offset + haystack@.len() == h0.len(), haystack@ == h0.skip(offset as int), h0.len() <= isize::MAX, needle_len <= isize::MAX,
        forall|j: int| 0 <= j < offset ==> !#[trigger] occ(h0, needle@, j),
        forall|j: int| #[trigger] occ(h0, needle@, j) && j >= offset ==> haystack@[j - offset] == needle@[0],
    ensures is_find(h0, needle@, None),
    decreases haystack@.len(),
//@ ghost find_bytes after offset += position
    proof {
        assert(haystack@[position as int] == h0[offset as int]);
        assert forall|j: int| 0 <= j < offset implies !#[trigger] occ(h0, needle@, j) by {
            if j >= offset - position && occ(h0, needle@, j) {
                assert(h0.subrange(j, j + needle@.len())[0] == h0[j]);
                assert(haystack@[j - (offset - position)] == h0[j]);
            }
        }
        if offset + needle_len > h0.len() {
            assert forall|j: int| !#[trigger] occ(h0, needle@, j) by {}
        }
        if offset + needle_len <= h0.len() {
            assert(haystack@.subrange(position as int, position + needle_len) =~= h0.subrange(offset as int, offset + needle_len));
        }
    }
//@ ghost find_bytes loop l0 start
    let ghost hay1 = haystack@;
