//@ source lib.rs
//@ raw
use super::*;
use super::utils::*;
use super::patch::*;
use super::syntax::*;
use super::print::*;

// ------------------------------------------------------------------ C07: what is printed is read back
pub open spec fn lacks(t: Seq<u8>) -> bool { !is_suffix(seq![10u8], t) }
/// no newline but at the end
pub open spec fn nl_end(t: Seq<u8>) -> bool { forall|i: int| 0 <= i < t.len() - 1 ==> #[trigger] t[i] != 10 }
pub open spec fn no_nl(t: Seq<u8>) -> bool { forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != 10 }
/// a side that lacks its newline ends there
pub open spec fn lines_ok(ls: Seq<LV>) -> bool { forall|i: int| 0 <= i < ls.len() ==> 0 <= (#[trigger] ls[i]).k <= 2 && nl_end(ls[i].t) }
pub open spec fn after_ok(l: LV, m: LV) -> bool { lacks(l.t) ==> l.k != 0 && m.k != l.k }
pub open spec fn ends_ok(ls: Seq<LV>) -> bool { forall|i: int, j: int| 0 <= i < j < ls.len() ==> #[trigger] after_ok(ls[i], ls[j]) }
pub open spec fn body_ok(ls: Seq<LV>) -> bool { lines_ok(ls) && ends_ok(ls) }
pub open spec fn printable_h(h: HV) -> bool {
    &&& body_ok(h.lines) && counted(h)
    &&& (h.ctx is Some ==> no_nl(h.ctx->0))
    &&& 0 <= h.os && 0 <= h.ol && h.os + h.ol <= usize::MAX
    &&& 0 <= h.ns && 0 <= h.nl && h.ns + h.nl <= usize::MAX
}
pub open spec fn printable(p: PV) -> bool { ordered(p.hunks) && forall|i: int| 0 <= i < p.hunks.len() ==> printable_h(#[trigger] p.hunks[i]) }

/// a complete line
pub open spec fn full_line(l: Seq<u8>) -> bool { l.len() > 0 && l.last() == 10 && nl_end(l) }
pub open spec fn full_lines(ls: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < ls.len() ==> full_line(#[trigger] ls[i]) }
pub open spec fn nl1() -> Seq<u8> { seq![10u8] }

// the printed lines
pub open spec fn nlines(t: Seq<u8>, n: Option<Seq<u8>>) -> Seq<Seq<u8>> { match n { Some(n) => seq![t + name_text(n) + nl1()], None => Seq::empty() } }
pub open spec fn llines(f: FV, l: LV) -> Seq<Seq<u8>> { if lacks(l.t) { seq![line_main(f, l) + nl1(), t_nonl() + nl1()] } else { seq![line_main(f, l)] } }
pub open spec fn blines(f: FV, ls: Seq<LV>) -> Seq<Seq<u8>>
    decreases ls.len()
{ if ls.len() == 0 { Seq::empty() } else { blines(f, ls.drop_last()) + llines(f, ls.last()) } }
pub open spec fn hline(f: FV, h: HV) -> Seq<u8> { head_text(h) + ctx_text(f, h.ctx) + nl1() }
pub open spec fn hlines(f: FV, h: HV) -> Seq<Seq<u8>> { seq![hline(f, h)] + blines(f, h.lines) }
pub open spec fn hslines(f: FV, hs: Seq<HV>) -> Seq<Seq<u8>>
    decreases hs.len()
{ if hs.len() == 0 { Seq::empty() } else { hslines(f, hs.drop_last()) + hlines(f, hs.last()) } }
pub open spec fn plines(f: FV, p: PV) -> Seq<Seq<u8>> { nlines(t_orig(), p.orig) + nlines(t_modi(), p.modi) + hslines(f, p.hunks) }
pub open spec fn plainf(f: FV) -> bool { !f.color && f.msg }

pub proof fn lemma_styled(f: FV, s: Style, t: Seq<u8>)
    requires !f.color,
    ensures styled(f, s, t) == t,
{ reveal(pre_if); reveal(suf_if); assert(Seq::<u8>::empty() + (t + Seq::<u8>::empty()) =~= t); }
pub proof fn lemma_cat2(a: Seq<u8>, b: Seq<u8>)
    ensures cat(seq![a, b]) == a + b,
{ assert(seq![a, b] =~= seq![a] + seq![b]); lemma_cat(seq![a], seq![b]); lemma_cat1(a); lemma_cat1(b); }
pub proof fn lemma_blines_cat(f: FV, ls: Seq<LV>)
    requires plainf(f),
    ensures cat(blines(f, ls)) == lines_text(f, ls),
    decreases ls.len(),
{
    if ls.len() > 0 {
        let l = ls.last();
        lemma_blines_cat(f, ls.drop_last());
        lemma_cat(blines(f, ls.drop_last()), llines(f, l));
        lemma_styled(f, lstyle(f, l.k), line_main(f, l));
        if lacks(l.t) {
            lemma_cat2(line_main(f, l) + nl1(), t_nonl() + nl1());
            assert(line_main(f, l) + nl1() + (t_nonl() + nl1()) =~= line_main(f, l) + (nl1() + (t_nonl() + nl1())));
        } else {
            lemma_cat1(line_main(f, l));
            assert(line_main(f, l) + Seq::<u8>::empty() =~= line_main(f, l));
        }
    }
}
pub proof fn lemma_hlines_cat(f: FV, h: HV)
    requires plainf(f),
    ensures cat(hlines(f, h)) == hunk_text(f, h),
{
    lemma_cat(seq![hline(f, h)], blines(f, h.lines));
    lemma_cat1(hline(f, h));
    lemma_blines_cat(f, h.lines);
    lemma_styled(f, f.hh, head_text(h));
    if h.ctx is Some { lemma_styled(f, f.fc, h.ctx->0); }
}
pub proof fn lemma_hslines_cat(f: FV, hs: Seq<HV>)
    requires plainf(f),
    ensures cat(hslines(f, hs)) == hunks_text(f, hs),
    decreases hs.len(),
{
    if hs.len() > 0 {
        lemma_hslines_cat(f, hs.drop_last());
        lemma_cat(hslines(f, hs.drop_last()), hlines(f, hs.last()));
        lemma_hlines_cat(f, hs.last());
    }
}
pub proof fn lemma_nlines_cat(t: Seq<u8>, n: Option<Seq<u8>>)
    ensures cat(nlines(t, n)) == name_line(t, n),
{ match n { Some(n) => { lemma_cat1(t + name_text(n) + nl1()); } None => {} } }
pub proof fn lemma_plines_cat(f: FV, p: PV)
    requires plainf(f),
    ensures cat(plines(f, p)) == patch_text(f, p),
{
    let (a, b, c) = (nlines(t_orig(), p.orig), nlines(t_modi(), p.modi), hslines(f, p.hunks));
    lemma_cat(a + b, c);
    lemma_cat(a, b);
    lemma_nlines_cat(t_orig(), p.orig);
    lemma_nlines_cat(t_modi(), p.modi);
    lemma_hslines_cat(f, p.hunks);
    lemma_styled(f, f.ph, names_text(p));
    if p.orig is None && p.modi is None { assert(names_text(p) =~= Seq::empty()); }
}

// they are complete lines
pub proof fn lemma_full_add(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>)
    requires full_lines(a), full_lines(b),
    ensures full_lines(a + b),
{
    assert forall|i: int| 0 <= i < (a + b).len() implies full_line(#[trigger] (a + b)[i]) by { if i < a.len() { assert(full_line(a[i])); } else { assert(full_line(b[i - a.len()])); } }
}
pub proof fn lemma_full_nl(x: Seq<u8>)
    requires no_nl(x),
    ensures full_line(x + nl1()),
{
    let l = x + nl1();
    assert forall|i: int| 0 <= i < l.len() - 1 implies #[trigger] l[i] != 10 by { assert(l[i] == x[i]); }
}
pub proof fn lemma_no_nl_add(a: Seq<u8>, b: Seq<u8>)
    requires no_nl(a), no_nl(b),
    ensures no_nl(a + b),
{ assert forall|i: int| 0 <= i < (a + b).len() implies #[trigger] (a + b)[i] != 10 by { if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); } } }
/// what escapes consist of
pub open spec fn quiet(b: u8) -> bool { b != 10 && b != 9 && b != 0 && b != 13 }
pub open spec fn quiets(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> quiet(#[trigger] s[i]) }
pub proof fn lemma_quiet_add(a: Seq<u8>, b: Seq<u8>)
    requires quiets(a), quiets(b),
    ensures quiets(a + b),
{ assert forall|i: int| 0 <= i < (a + b).len() implies quiet(#[trigger] (a + b)[i]) by { if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); } } }
pub proof fn lemma_esc_quiet(s: Seq<u8>)
    ensures quiets(esc_all(s)),
    decreases s.len(),
{ if s.len() > 0 { lemma_esc_quiet(s.drop_last()); lemma_quiet_add(esc_all(s.drop_last()), esc1(s.last())); } }
pub proof fn lemma_name_quiet(n: Seq<u8>)
    ensures quiets(name_text(n)),
{
    if plain(n) { assert forall|i: int| 0 <= i < n.len() implies quiet(#[trigger] n[i]) by { assert(!special(n[i])); } }
    else { lemma_esc_quiet(n); lemma_quiet_add(seq![34u8], esc_all(n)); lemma_quiet_add(seq![34u8] + esc_all(n), seq![34u8]); }
}
pub proof fn lemma_quiet_nl(s: Seq<u8>)
    requires quiets(s),
    ensures no_nl(s),
{ assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != 10 by { assert(quiet(s[i])); } }
pub proof fn lemma_nlines_full(t: Seq<u8>, n: Option<Seq<u8>>)
    requires no_nl(t),
    ensures full_lines(nlines(t, n)),
{
    if let Some(n) = n { lemma_name_quiet(n); lemma_quiet_nl(name_text(n)); lemma_no_nl_add(t, name_text(n)); lemma_full_nl(t + name_text(n)); }
}
pub proof fn lemma_lacks(t: Seq<u8>)
    ensures lacks(t) == (t.len() == 0 || t.last() != 10),
{
    if t.len() > 0 {
        let x = t.skip(t.len() - 1);
        assert(x =~= seq![t.last()]);
        assert(nl1()[0] == 10 && x[0] == t.last());
    }
}
pub proof fn lemma_line_full(f: FV, l: LV)
    requires nl_end(l.t), 0 <= l.k <= 2,
    ensures full_lines(llines(f, l)),
{
    let m = line_main(f, l);
    lemma_lacks(l.t);
    if lacks(l.t) {
        assert(m == sign(l.k) + l.t);
        assert(no_nl(l.t)) by { assert forall|i: int| 0 <= i < l.t.len() implies #[trigger] l.t[i] != 10 by { if i == l.t.len() - 1 { assert(l.t[i] == l.t.last()); } } }
        lemma_no_nl_add(sign(l.k), l.t);
        lemma_full_nl(m);
        lemma_full_nl(t_nonl());
    } else if f.blank && l.k == 0 && l.t == nl1() {
        assert(full_line(m));
    } else {
        assert(m == sign(l.k) + l.t);
        assert(m.last() == l.t.last());
        assert forall|i: int| 0 <= i < m.len() - 1 implies #[trigger] m[i] != 10 by { if i > 0 { assert(m[i] == l.t[i - 1]); } }
    }
}
pub proof fn lemma_blines_full(f: FV, ls: Seq<LV>)
    requires forall|i: int| 0 <= i < ls.len() ==> 0 <= (#[trigger] ls[i]).k <= 2 && nl_end(ls[i].t),
    ensures full_lines(blines(f, ls)),
    decreases ls.len(),
{
    if ls.len() > 0 {
        let p = ls.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies 0 <= (#[trigger] p[i]).k <= 2 && nl_end(p[i].t) by { assert(p[i] == ls[i]); }
        lemma_blines_full(f, p);
        assert(ls[ls.len() - 1] == ls.last());
        lemma_line_full(f, ls.last());
        lemma_full_add(blines(f, p), llines(f, ls.last()));
    }
}
/// digits and commas
pub open spec fn numeric(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> (48 <= #[trigger] s[i] <= 57 || s[i] == 44) }
pub proof fn lemma_range_text(s: int, l: int)
    requires 0 <= s, 0 <= l,
    ensures numeric(range_text(s, l)), range_text(s, l).len() > 0,
{
    lemma_udec(s as nat);
    lemma_udec(l as nat);
    let (a, b) = (udec(s as nat), udec(l as nat));
    let x = a + seq![44u8] + b;
    assert forall|i: int| 0 <= i < x.len() implies (48 <= #[trigger] x[i] <= 57 || x[i] == 44) by {
        if i < a.len() { assert(x[i] == a[i]); } else if i > a.len() { assert(x[i] == b[i - a.len() - 1]); }
    }
}
pub proof fn lemma_hline_full(f: FV, h: HV)
    requires printable_h(h), plainf(f),
    ensures full_line(hline(f, h)),
{
    lemma_range_text(h.os, h.ol);
    lemma_range_text(h.ns, h.nl);
    let (a, b) = (range_text(h.os, h.ol), range_text(h.ns, h.nl));
    assert(no_nl(a) && no_nl(b));
    let m = seq![32u8, 43];
    let e = seq![32u8, 64, 64];
    let t = seq![64u8, 64, 32, 45];
    assert(no_nl(t) && no_nl(m) && no_nl(e));
    lemma_no_nl_add(t, a);
    lemma_no_nl_add(t + a, m);
    lemma_no_nl_add(t + a + m, b);
    lemma_no_nl_add(t + a + m + b, e);
    let c = ctx_text(f, h.ctx);
    if h.ctx is Some { lemma_styled(f, f.fc, h.ctx->0); assert(no_nl(seq![32u8])); lemma_no_nl_add(seq![32u8], h.ctx->0); }
    assert(no_nl(c));
    lemma_no_nl_add(head_text(h), c);
    lemma_full_nl(head_text(h) + c);
}
pub proof fn lemma_hlines_full(f: FV, h: HV)
    requires printable_h(h), plainf(f),
    ensures full_lines(hlines(f, h)),
{
    lemma_hline_full(f, h);
    lemma_blines_full(f, h.lines);
    lemma_full_add(seq![hline(f, h)], blines(f, h.lines));
}
pub proof fn lemma_hslines_full(f: FV, hs: Seq<HV>)
    requires plainf(f), forall|i: int| 0 <= i < hs.len() ==> printable_h(#[trigger] hs[i]),
    ensures full_lines(hslines(f, hs)),
    decreases hs.len(),
{
    if hs.len() > 0 {
        let p = hs.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies printable_h(#[trigger] p[i]) by { assert(p[i] == hs[i]); }
        lemma_hslines_full(f, p);
        assert(hs[hs.len() - 1] == hs.last());
        lemma_hlines_full(f, hs.last());
        lemma_full_add(hslines(f, p), hlines(f, hs.last()));
    }
}
pub proof fn lemma_plines(f: FV, p: PV)
    requires printable(p), plainf(f),
    ensures lines(patch_text(f, p)) == plines(f, p),
{
    let (a, b, c) = (nlines(t_orig(), p.orig), nlines(t_modi(), p.modi), hslines(f, p.hunks));
    assert(no_nl(t_orig()) && no_nl(t_modi()));
    lemma_nlines_full(t_orig(), p.orig);
    lemma_nlines_full(t_modi(), p.modi);
    lemma_hslines_full(f, p.hunks);
    lemma_full_add(a, b);
    lemma_full_add(a + b, c);
    let x = plines(f, p);
    assert forall|i: int| 0 <= i < x.len() implies wf_line(#[trigger] x[i], i == x.len() - 1) by { assert(full_line(x[i])); }
    lemma_lines_unique(x);
    lemma_plines_cat(f, p);
}

// names
pub proof fn lemma_unesc_esc(s: Seq<u8>, r: Seq<u8>)
    ensures unesc(esc_all(s) + r) == (match unesc(r) { Some(y) => Some(s + y), None => None }),
    decreases s.len(),
{
    if s.len() == 0 {
        assert(esc_all(s) + r =~= r);
        if unesc(r) is Some { assert(s + unesc(r)->0 =~= unesc(r)->0); }
    } else {
        let p = s.drop_last();
        let b = s.last();
        let t = esc1(b) + r;
        assert(esc_all(s) + r =~= esc_all(p) + t);
        lemma_unesc_esc(p, t);
        if special(b) { assert(t[0] == 92 && t[1] == esc_ch(b)); assert(t.skip(2) =~= r); assert(unch(esc_ch(b)) == Some(b)); }
        else { assert(t[0] == b); assert(t.skip(1) =~= r); }
        assert(unesc(t) == cons(b, unesc(r)));
        if unesc(r) is Some { assert(p + (seq![b] + unesc(r)->0) =~= s + unesc(r)->0); }
    }
}
/// the first place of one byte
pub proof fn lemma_split_byte(s: Seq<u8>, b: u8, i: int)
    requires 0 <= i < s.len(), s[i] == b, forall|j: int| 0 <= j < i ==> #[trigger] s[j] != b,
    ensures split(s, seq![b]) == Some((s.take(i), s.skip(i + 1))),
{
    let n = seq![b];
    assert(s.subrange(i, i + 1) =~= n);
    assert forall|j: int| 0 <= j < i implies !#[trigger] occ(s, n, j) by { if occ(s, n, j) { assert(s.subrange(j, j + 1)[0] == s[j]); assert(n[0] == b); } }
    assert(is_first(s, n, i));
    lemma_split(s, n, i);
}
pub proof fn lemma_split_nobyte(s: Seq<u8>, b: u8)
    requires forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] != b,
    ensures split(s, seq![b]) is None,
{
    let n = seq![b];
    assert forall|j: int| !#[trigger] occ(s, n, j) by { if occ(s, n, j) { assert(s.subrange(j, j + 1)[0] == s[j]); assert(n[0] == b); } }
    lemma_split_none(s, n);
}
pub proof fn lemma_file_name(n: Seq<u8>)
    ensures file_name(name_text(n) + nl1()) == Some(n),
{
    let x = name_text(n);
    let s = x + nl1();
    lemma_name_quiet(n);
    assert forall|j: int| 0 <= j < s.len() implies #[trigger] s[j] != 9 by { if j < x.len() { assert(s[j] == x[j]); assert(quiet(x[j])); } }
    lemma_split_nobyte(s, 9);
    assert forall|j: int| 0 <= j < x.len() implies #[trigger] s[j] != 10 by { assert(s[j] == x[j]); assert(quiet(x[j])); }
    lemma_split_byte(s, 10, x.len() as int);
    assert(s.take(x.len() as int) =~= x);
    let q = seq![34u8];
    if plain(n) {
        if sw(n, q) { assert(n[0] == q[0]); assert(special(n[0])); }
        assert(quoted(n) is None);
    } else {
        let e = esc_all(n);
        assert(x =~= q + (e + q));
        assert(x.take(1) =~= q);
        assert(sw(x, q));
        assert(x.skip(1) =~= e + q);
        assert((e + q).skip(e.len() as int) =~= q);
        assert((e + q).take(e.len() as int) =~= e);
        assert(quoted(x) == Some(e));
        lemma_unesc_esc(n, Seq::empty());
        assert(e + Seq::<u8>::empty() =~= e);
        assert(n + Seq::<u8>::empty() =~= n);
    }
}

// hunk headers
pub proof fn lemma_range_of(s: int, l: int)
    requires 0 <= s, 0 <= l, s + l <= usize::MAX,
    ensures range_of(range_text(s, l)) == Some((s, l)),
{
    let (a, b) = (udec(s as nat), udec(l as nat));
    lemma_udec_parse(s as nat);
    lemma_udec_parse(l as nat);
    if l == 1 { assert forall|j: int| 0 <= j < a.len() implies #[trigger] a[j] != 44 by {} lemma_split_nobyte(a, 44); }
    else {
        let x = a + seq![44u8] + b;
        assert forall|j: int| 0 <= j < a.len() implies #[trigger] x[j] != 44 by { assert(x[j] == a[j]); }
        lemma_split_byte(x, 44, a.len() as int);
        assert(x.take(a.len() as int) =~= a);
        assert(x.skip((a.len() + 1) as int) =~= b);
    }
}
pub proof fn lemma_two_ranges(h: HV)
    requires 0 <= h.os, 0 <= h.ol, h.os + h.ol <= usize::MAX, 0 <= h.ns, 0 <= h.nl, h.ns + h.nl <= usize::MAX,
    ensures two_ranges(seq![45u8] + range_text(h.os, h.ol) + seq![32u8, 43] + range_text(h.ns, h.nl)) == Some(((h.os, h.ol), (h.ns, h.nl))),
{
    let (a, b) = (range_text(h.os, h.ol), range_text(h.ns, h.nl));
    let s = seq![45u8] + a + seq![32u8, 43] + b;
    lemma_range_text(h.os, h.ol);
    lemma_range_text(h.ns, h.nl);
    lemma_range_of(h.os, h.ol);
    lemma_range_of(h.ns, h.nl);
    let i = 1 + a.len();
    assert forall|j: int| 0 <= j < i implies #[trigger] s[j] != 32 by { if j > 0 { assert(s[j] == a[j - 1]); } }
    lemma_split_byte(s, 32, i as int);
    let (x, y) = (s.take(i as int), s.skip((i + 1) as int));
    assert(x =~= seq![45u8] + a);
    assert(y =~= seq![43u8] + b);
    assert(x.take(1) =~= seq![45u8] && y.take(1) =~= seq![43u8]);
    assert(x.skip(1) =~= a && y.skip(1) =~= b);
    assert(sw(x, seq![45u8]) && sw(y, seq![43u8]));
}
pub proof fn lemma_hunk_head(f: FV, h: HV)
    requires printable_h(h), plainf(f),
    ensures hunk_head(hline(f, h)) == Some(HH { os: h.os, ol: h.ol, ns: h.ns, nl: h.nl, ctx: h.ctx }), hline(f, h)[0] == 64, hline(f, h).len() > 0,
{
    let (a, b) = (range_text(h.os, h.ol), range_text(h.ns, h.nl));
    lemma_range_text(h.os, h.ol);
    lemma_range_text(h.ns, h.nl);
    let c = ctx_text(f, h.ctx);
    let r = seq![45u8] + a + seq![32u8, 43] + b;
    let l = hline(f, h);
    let x = r + t_end() + c + nl1();
    assert(l =~= t_hunk() + x);
    assert(l.take(3) =~= t_hunk());
    assert(sw(l, t_hunk()));
    assert(l.skip(3) =~= x);
    let i = r.len() as int;
    let e = t_end();
    assert(x.subrange(i, i + 3) =~= e);
    assert forall|j: int| 0 <= j < i implies !#[trigger] occ(x, e, j) by {
        if occ(x, e, j) {
            let z = x.subrange(j, j + 3);
            assert(z[0] == x[j] && z[1] == x[j + 1]);
            assert(e[0] == 32 && e[1] == 64);
            assert(x[j] == r[j]);
            if j == 0 {} else if j < 1 + a.len() { assert(r[j] == a[j - 1]); } else if j == 1 + a.len() { assert(x[j + 1] == 43); } else if j == 2 + a.len() {} else { assert(r[j] == b[j - 3 - a.len()]); }
        }
    }
    assert(is_first(x, e, i));
    lemma_split(x, e, i);
    assert(x.take(i) =~= r);
    let y = x.skip(i + 3);
    assert(y =~= c + nl1());
    lemma_two_ranges(h);
    let sp = seq![32u8];
    if h.ctx is Some {
        let k = h.ctx->0;
        lemma_styled(f, f.fc, k);
        assert(y =~= sp + (k + nl1()));
        assert(y.take(1) =~= sp);
        assert(sw(y, sp));
        assert(y.skip(1) =~= k + nl1());
        assert((k + nl1()).skip(k.len() as int) =~= nl1());
        assert((k + nl1()).take(k.len() as int) =~= k);
        assert(chomp(k + nl1()) == k);
    } else {
        assert(y =~= nl1());
        assert(nl1()[0] == 10 && sp[0] == 32);
        if sw(y, sp) { assert(y[0] == sp[0]); }
    }
}

// bodies
pub open spec fn lacking(ls: Seq<LV>, k: int) -> bool { exists|i: int| 0 <= i < ls.len() && (#[trigger] ls[i]).k == k && lacks(ls[i].t) }
pub open spec fn bst(ls: Seq<LV>) -> BS { BS { ls, c: lacking(ls, 0), d: lacking(ls, 1), i: lacking(ls, 2) } }
pub proof fn lemma_has_push(ls: Seq<LV>, l: LV, k: int)
    ensures lacking(ls.push(l), k) == (lacking(ls, k) || (l.k == k && lacks(l.t))),
{
    let x = ls.push(l);
    if lacking(ls, k) { let i = choose|i: int| 0 <= i < ls.len() && (#[trigger] ls[i]).k == k && lacks(ls[i].t); assert(x[i] == ls[i]); }
    if l.k == k && lacks(l.t) { assert(x[ls.len() as int] == l); }
    if lacking(x, k) { let i = choose|i: int| 0 <= i < x.len() && (#[trigger] x[i]).k == k && lacks(x[i].t); if i < ls.len() { assert(ls[i] == x[i]); } }
}
pub proof fn lemma_sw1(l: Seq<u8>, b: u8)
    ensures sw(l, seq![b]) == (l.len() > 0 && l[0] == b),
{
    let n = seq![b];
    if l.len() > 0 && l[0] == b { assert(l.take(1) =~= n); assert(sw(l, n)); }
    if sw(l, n) { assert(l[0] == n[0]); }
}
/// one line and its marker are read back
pub proof fn lemma_line_read(f: FV, ls: Seq<LV>, rest: Seq<Seq<u8>>)
    requires ls.len() > 0, body_ok(ls),
    ensures body(llines(f, ls.last()) + rest, bst(ls.drop_last())) == body(rest, bst(ls)),
{
    let p = ls.drop_last();
    let l = ls.last();
    let b = bst(p);
    let n = ls.len() - 1;
    assert(ls =~= p.push(l));
    assert(ls[n] == l);
    assert(!b.c && !(b.d && l.k == 1) && !(b.i && l.k == 2)) by {
        assert forall|k: int| #[trigger] lacking(p, k) implies k != 0 && k != l.k by {
            let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).k == k && lacks(p[i].t);
            assert(ls[i] == p[i]);
            assert(after_ok(ls[i], ls[n]));
        }
    }
    lemma_has_push(p, l, 0); lemma_has_push(p, l, 1); lemma_has_push(p, l, 2);
    lemma_lacks(l.t);
    let m = line_main(f, l);
    let x = llines(f, l) + rest;
    if lacks(l.t) {
        let m1 = m + nl1();
        let c = bpush(b, l.k, l.t + nl1());
        assert(m == sign(l.k) + l.t);
        assert(m1[0] == sign(l.k)[0]);
        assert(m1.skip(1) =~= l.t + nl1());
        lemma_sw1(m1, 32); lemma_sw1(m1, 10); lemma_sw1(m1, 45); lemma_sw1(m1, 43); lemma_sw1(m1, 64);
        assert(bstep(b, m1) == Some(c));
        assert(x[0] == m1);
        let y = x.skip(1);
        assert(y =~= seq![t_nonl() + nl1()] + rest);
        let k = t_nonl() + nl1();
        assert(k[0] == 92);
        lemma_sw1(k, 32); lemma_sw1(k, 10); lemma_sw1(k, 45); lemma_sw1(k, 43); lemma_sw1(k, 64);
        assert(k.take(t_nonl().len() as int) =~= t_nonl());
        assert(sw(k, t_nonl()));
        assert(y[0] == k && y.skip(1) =~= rest);
        let z = l.t + nl1();
        assert(z.skip(l.t.len() as int) =~= nl1());
        assert(z.take(l.t.len() as int) =~= l.t);
        assert(cuts(z, nl1()) == Some(l.t));
        assert(c.ls.last().t == z);
        assert(c.ls.drop_last() =~= p);
        assert(p.push(LV { k: l.k, t: l.t }) =~= ls);
        assert(bstep(c, k) == Some(bst(ls)));
        assert(body(y, c) == body(rest, bst(ls)));
    } else {
        assert(x[0] == m);
        assert(x.skip(1) =~= rest);
        lemma_sw1(m, 32); lemma_sw1(m, 10); lemma_sw1(m, 45); lemma_sw1(m, 43); lemma_sw1(m, 64);
        if f.blank && l.k == 0 && l.t == nl1() {
            assert(m == nl1() && m[0] == 10);
        } else {
            assert(m[0] == sign(l.k)[0]);
            assert(m.skip(1) =~= l.t);
        }
        assert(bpush(b, l.k, l.t).ls =~= ls);
        assert(bstep(b, m) == Some(bst(ls)));
    }
}
pub proof fn lemma_body_ok_sub(ls: Seq<LV>)
    requires ls.len() > 0, body_ok(ls),
    ensures body_ok(ls.drop_last()),
{
    let p = ls.drop_last();
    assert(lines_ok(p)) by {
        assert forall|i: int| 0 <= i < p.len() implies 0 <= (#[trigger] p[i]).k <= 2 && nl_end(p[i].t) by { assert(p[i] == ls[i]); }
    }
    assert(ends_ok(p)) by {
        assert forall|i: int, j: int| 0 <= i < j < p.len() implies #[trigger] after_ok(p[i], p[j]) by { assert(p[i] == ls[i] && p[j] == ls[j]); assert(after_ok(ls[i], ls[j])); }
    }
}
pub proof fn lemma_body_read(f: FV, ls: Seq<LV>, rest: Seq<Seq<u8>>)
    requires body_ok(ls),
    ensures body(blines(f, ls) + rest, bs0()) == body(rest, bst(ls)),
    decreases ls.len(),
{
    if ls.len() == 0 {
        assert(blines(f, ls) + rest =~= rest);
        assert(bst(ls) == bs0()) by { assert(ls =~= Seq::<LV>::empty()); assert(!lacking(ls, 0) && !lacking(ls, 1) && !lacking(ls, 2)); }
    } else {
        lemma_body_ok_sub(ls);
        let r2 = llines(f, ls.last()) + rest;
        lemma_body_read(f, ls.drop_last(), r2);
        assert(blines(f, ls) + rest =~= blines(f, ls.drop_last()) + r2);
        lemma_line_read(f, ls, rest);
    }
}
pub open spec fn at_head(ls: Seq<Seq<u8>>) -> bool { ls.len() == 0 || (ls[0].len() > 0 && ls[0][0] == 64) }
pub proof fn lemma_hunk_read(f: FV, h: HV, rest: Seq<Seq<u8>>)
    requires printable_h(h), plainf(f), at_head(rest),
    ensures one_hunk(hlines(f, h) + rest) == Some((h, rest)), at_head(hlines(f, h) + rest),
{
    let x = hlines(f, h) + rest;
    lemma_hunk_head(f, h);
    assert(x[0] == hline(f, h));
    assert(x.skip(1) =~= blines(f, h.lines) + rest);
    lemma_body_read(f, h.lines, rest);
    if rest.len() > 0 { lemma_sw1(rest[0], 64); }
    assert(body(rest, bst(h.lines)) == Some((h.lines, rest)));
}
pub proof fn lemma_hunks_read(f: FV, hs: Seq<HV>, rest: Seq<Seq<u8>>)
    requires plainf(f), forall|i: int| 0 <= i < hs.len() ==> printable_h(#[trigger] hs[i]), at_head(rest),
    ensures hunks_of(hslines(f, hs) + rest) == more(hs, hunks_of(rest)), at_head(hslines(f, hs) + rest),
    decreases hs.len(),
{
    if hs.len() == 0 {
        assert(hslines(f, hs) + rest =~= rest);
        lemma_more_nil(hs, hunks_of(rest));
    } else {
        let p = hs.drop_last();
        let h = hs.last();
        assert(h == hs[hs.len() - 1]);
        assert forall|i: int| 0 <= i < p.len() implies printable_h(#[trigger] p[i]) by { assert(p[i] == hs[i]); }
        let r2 = hlines(f, h) + rest;
        lemma_hunk_read(f, h, rest);
        lemma_hunks_read(f, p, r2);
        assert(hslines(f, hs) + rest =~= hslines(f, p) + r2);
        assert(r2.len() > 0);
        assert(hunks_of(r2) == hcons(h, hunks_of(rest)));
        if hunks_of(rest) is Some { assert(p + (seq![h] + hunks_of(rest)->0) =~= hs + hunks_of(rest)->0); }
    }
}
pub proof fn lemma_sw_head(l: Seq<u8>)
    requires l.len() > 0, l[0] == 64,
    ensures !sw(l, t_orig()), !sw(l, t_modi()),
{ assert(t_orig()[0] == 45 && t_modi()[0] == 43); if sw(l, t_orig()) { assert(l[0] == t_orig()[0]); } if sw(l, t_modi()) { assert(l[0] == t_modi()[0]); } }
pub proof fn lemma_name_line(t: Seq<u8>, n: Seq<u8>)
    requires t.len() == 4,
    ensures ({ let l = t + name_text(n) + nl1(); sw(l, t) && file_name(l.skip(4)) == Some(n) && l[0] == t[0] && l.len() > 0 }),
{
    let l = t + name_text(n) + nl1();
    assert(l.take(4) =~= t);
    assert(l.skip(4) =~= name_text(n) + nl1());
    lemma_file_name(n);
}
pub proof fn lemma_header_read(f: FV, p: PV)
    requires printable(p), plainf(f),
    ensures header(skip_pre(plines(f, p)), None, None) == Some((p.orig, p.modi, hslines(f, p.hunks))),
{
    let x = plines(f, p);
    let h = hslines(f, p.hunks);
    let (a, b) = (nlines(t_orig(), p.orig), nlines(t_modi(), p.modi));
    lemma_hunks_read(f, p.hunks, Seq::empty());
    assert(h + Seq::<Seq<u8>>::empty() =~= h);
    if h.len() > 0 {
        lemma_sw_head(h[0]);
        assert(h[0] == hslines(f, p.hunks)[0]);
        lemma_first_head(f, p.hunks);
    }
    assert forall|o: Option<Seq<u8>>, m: Option<Seq<u8>>| #[trigger] header(h, o, m) == Some((o, m, h)) by {}
    let y = b + h;
    assert(x =~= a + y);
    assert(t_orig()[0] == 45 && t_modi()[0] == 43);
    if let Some(m) = p.modi {
        lemma_name_line(t_modi(), m);
        assert(y[0] == t_modi() + name_text(m) + nl1());
        if sw(y[0], t_orig()) { assert(y[0][0] == t_orig()[0]); }
        assert(y.skip(1) =~= h);
        assert(file_name(y[0].skip(4)) == p.modi);
        assert(header(h, p.orig, p.modi) == Some((p.orig, p.modi, h)));
        assert(header(y, p.orig, None) == header(h, p.orig, file_name(y[0].skip(4))));
        assert(header(y, p.orig, None) == Some((p.orig, p.modi, h)));
    } else { assert(y =~= h); }
    if let Some(o) = p.orig {
        lemma_name_line(t_orig(), o);
        assert(x[0] == t_orig() + name_text(o) + nl1());
        assert(x.skip(1) =~= y);
        assert(header(x, None, None) == header(y, p.orig, None));
    } else { assert(x =~= y); }
    assert(skip_pre(x) == x);
}
/// the first line of hunks
pub proof fn lemma_first_head(f: FV, hs: Seq<HV>)
    requires hslines(f, hs).len() > 0,
    ensures sw(hslines(f, hs)[0], t_hunk()),
    decreases hs.len(),
{
    if hs.len() > 0 {
        let p = hs.drop_last();
        let x = hslines(f, p);
        if x.len() > 0 { lemma_first_head(f, p); assert(hslines(f, hs)[0] == x[0]); }
        else {
            let l = hline(f, hs.last());
            assert(hslines(f, hs)[0] == l);
            assert(l.take(3) =~= t_hunk());
        }
    }
}
/// [C07] a printable patch is read back
pub proof fn theorem_print_read(f: FV, p: PV)
    requires printable(p), plainf(f),
    ensures read_patch(patch_text(f, p)) == Some(p),
{
    lemma_plines(f, p);
    lemma_header_read(f, p);
    let h = hslines(f, p.hunks);
    lemma_hunks_read(f, p.hunks, Seq::empty());
    assert(h + Seq::<Seq<u8>>::empty() =~= h);
    assert(hunks_of(Seq::empty()) == Some(Seq::<HV>::empty()));
    lemma_more_end(p.hunks);
}

// ------------------------------------------------------------------ what is read can be printed
pub proof fn lemma_wf_skip(ls: Seq<Seq<u8>>)
    requires wf_lines(ls), ls.len() > 0,
    ensures wf_lines(ls.skip(1)),
{
    let t = ls.skip(1);
    assert forall|i: int| 0 <= i < t.len() implies wf_line(#[trigger] t[i], i == t.len() - 1) by { assert(t[i] == ls[i + 1]); assert(wf_line(ls[i + 1], i + 1 == ls.len() - 1)); }
}
pub open spec fn flagged(b: BS) -> bool { (lacking(b.ls, 0) ==> b.c) && (lacking(b.ls, 1) ==> b.d) && (lacking(b.ls, 2) ==> b.i) }
pub proof fn lemma_bpush(b: BS, k: int, t: Seq<u8>)
    requires body_ok(b.ls), flagged(b), !b.c, 0 <= k <= 2, k == 1 ==> !b.d, k == 2 ==> !b.i, nl_end(t),
    ensures body_ok(bpush(b, k, t).ls), !lacks(t) ==> flagged(bpush(b, k, t)),
{
    let l = LV { k, t };
    let x = b.ls.push(l);
    let n = b.ls.len() as int;
    assert(lines_ok(x)) by { assert forall|i: int| 0 <= i < x.len() implies 0 <= (#[trigger] x[i]).k <= 2 && nl_end(x[i].t) by { if i < n { assert(x[i] == b.ls[i]); } } }
    assert(ends_ok(x)) by {
        assert forall|i: int, j: int| 0 <= i < j < x.len() implies #[trigger] after_ok(x[i], x[j]) by {
            assert(x[i] == b.ls[i]);
            if j < n { assert(x[j] == b.ls[j]); assert(after_ok(b.ls[i], b.ls[j])); }
            else if lacks(x[i].t) { assert(lacking(b.ls, x[i].k)); }
        }
    }
    lemma_has_push(b.ls, l, 0); lemma_has_push(b.ls, l, 1); lemma_has_push(b.ls, l, 2);
}
pub proof fn lemma_bstep(b: BS, l: Seq<u8>, last: bool)
    requires body_ok(b.ls), flagged(b), wf_line(l, last),
    ensures bstep(b, l) is Some ==> body_ok((bstep(b, l)->0).ls) && (!last ==> flagged(bstep(b, l)->0)),
{
    if bstep(b, l) is Some {
        lemma_sw1(l, 32); lemma_sw1(l, 10); lemma_sw1(l, 45); lemma_sw1(l, 43);
        let t = l.skip(1);
        assert forall|i: int| 0 <= i < t.len() - 1 implies #[trigger] t[i] != 10 by { assert(t[i] == l[i + 1]); }
        lemma_lacks(t);
        lemma_lacks(l);
        if sw(l, seq![32u8]) { lemma_bpush(b, 0, t); }
        else if sw(l, seq![10u8]) { lemma_bpush(b, 0, l); }
        else if sw(l, seq![45u8]) { lemma_bpush(b, 1, t); }
        else if sw(l, seq![43u8]) { lemma_bpush(b, 2, t); }
        else {
            let x = b.ls.last();
            let n = b.ls.len() - 1;
            assert(b.ls[n] == x);
            let y = cuts(x.t, seq![10u8])->0;
            let p = b.ls.drop_last();
            let z = LV { k: x.k, t: y };
            let q = p.push(z);
            assert(nl_end(x.t));
            assert(no_nl(y)) by { assert forall|i: int| 0 <= i < y.len() implies #[trigger] y[i] != 10 by { assert(y[i] == x.t[i]); } }
            lemma_lacks(y);
            lemma_body_ok_sub(b.ls);
            assert(lines_ok(q)) by { assert forall|i: int| 0 <= i < q.len() implies 0 <= (#[trigger] q[i]).k <= 2 && nl_end(q[i].t) by { if i < n { assert(q[i] == p[i]); } } }
            assert(ends_ok(q)) by {
                assert forall|i: int, j: int| 0 <= i < j < q.len() implies #[trigger] after_ok(q[i], q[j]) by {
                    assert(q[i] == b.ls[i]);
                    assert(after_ok(b.ls[i], b.ls[j]));
                    if j < n { assert(q[j] == b.ls[j]); }
                }
            }
            assert(b.ls =~= p.push(x));
            lemma_has_push(p, z, 0); lemma_has_push(p, z, 1); lemma_has_push(p, z, 2);
            lemma_has_push(p, x, 0); lemma_has_push(p, x, 1); lemma_has_push(p, x, 2);
        }
    }
}
pub proof fn lemma_body_printable(ls: Seq<Seq<u8>>, b: BS)
    requires wf_lines(ls), body_ok(b.ls), ls.len() > 0 ==> flagged(b),
    ensures body(ls, b) is Some ==> body_ok((body(ls, b)->0).0) && wf_lines((body(ls, b)->0).1),
    decreases ls.len(),
{
    if ls.len() > 0 && !sw(ls[0], seq![64u8]) && bstep(b, ls[0]) is Some {
        assert(wf_line(ls[0], 0 == ls.len() - 1));
        lemma_bstep(b, ls[0], 0 == ls.len() - 1);
        lemma_wf_skip(ls);
        lemma_body_printable(ls.skip(1), bstep(b, ls[0])->0);
    }
}
pub proof fn lemma_nl_skip(t: Seq<u8>, i: int)
    requires nl_end(t), 0 <= i <= t.len(),
    ensures nl_end(t.skip(i)),
{
    let u = t.skip(i);
    assert forall|j: int| 0 <= j < u.len() - 1 implies #[trigger] u[j] != 10 by { assert(u[j] == t[i + j]); }
}
pub proof fn lemma_chomp(t: Seq<u8>)
    requires nl_end(t),
    ensures no_nl(chomp(t)),
{
    lemma_lacks(t);
    let u = chomp(t);
    assert forall|j: int| 0 <= j < u.len() implies #[trigger] u[j] != 10 by { assert(u[j] == t[j]); if j == t.len() - 1 { assert(t[j] == t.last()); } }
}
pub proof fn lemma_head_printable(l: Seq<u8>)
    requires nl_end(l),
    ensures hunk_head(l) is Some ==> ({
        let h = hunk_head(l)->0;
        0 <= h.os && 0 <= h.ol && 0 <= h.ns && 0 <= h.nl && h.os + h.ol <= usize::MAX && h.ns + h.nl <= usize::MAX && (h.ctx is Some ==> no_nl(h.ctx->0))
    }),
{
    if hunk_head(l) is Some {
        let x = l.skip(3);
        assert(t_hunk().len() == 3 && t_end().len() == 3);
        lemma_nl_skip(l, 3);
        lemma_split_parts(x, t_end());
        let i = choose|i: int| 0 <= i <= x.len() - 3 && split(x, t_end()) == Some((x.take(i), #[trigger] x.skip(i + 3)));
        let y = x.skip(i + 3);
        lemma_nl_skip(x, i + 3);
        if y.len() > 0 { lemma_nl_skip(y, 1); lemma_chomp(y.skip(1)); }
    }
}
pub proof fn lemma_hunks_printable(ls: Seq<Seq<u8>>)
    requires wf_lines(ls),
    ensures hunks_of(ls) is Some ==> forall|i: int| 0 <= i < (hunks_of(ls)->0).len() ==> printable_h(#[trigger] (hunks_of(ls)->0)[i]),
    decreases ls.len(),
{
    if ls.len() > 0 && hunks_of(ls) is Some {
        let x = one_hunk(ls)->0;
        assert(wf_line(ls[0], 0 == ls.len() - 1));
        lemma_head_printable(ls[0]);
        lemma_wf_skip(ls);
        assert(bs0().ls.len() == 0);
        assert(body_ok(bs0().ls) && flagged(bs0()));
        lemma_body_printable(ls.skip(1), bs0());
        lemma_body_len(ls.skip(1), bs0());
        lemma_hunks_printable(x.1);
        let r = hunks_of(x.1)->0;
        let y = hunks_of(ls)->0;
        assert(y == seq![x.0] + r);
        assert(printable_h(x.0));
        assert forall|i: int| 0 <= i < y.len() implies printable_h(#[trigger] y[i]) by { if i > 0 { assert(y[i] == r[i - 1]); } }
    }
}
pub proof fn lemma_skip_pre_wf(ls: Seq<Seq<u8>>)
    requires wf_lines(ls),
    ensures wf_lines(skip_pre(ls)),
    decreases ls.len(),
{ if !(ls.len() == 0 || sw(ls[0], t_orig()) || sw(ls[0], t_modi()) || sw(ls[0], t_hunk())) { lemma_wf_skip(ls); lemma_skip_pre_wf(ls.skip(1)); } }
pub proof fn lemma_header_wf(ls: Seq<Seq<u8>>, o: Option<Seq<u8>>, m: Option<Seq<u8>>)
    requires wf_lines(ls),
    ensures header(ls, o, m) is Some ==> wf_lines((header(ls, o, m)->0).2),
    decreases ls.len(),
{
    if ls.len() > 0 {
        lemma_wf_skip(ls);
        if sw(ls[0], t_orig()) { lemma_header_wf(ls.skip(1), file_name(ls[0].skip(4)), m); }
        else if sw(ls[0], t_modi()) { lemma_header_wf(ls.skip(1), o, file_name(ls[0].skip(4))); }
    }
}
/// [C07] a parsed patch is printable
pub proof fn theorem_read_printable(s: Seq<u8>)
    ensures read_patch(s) is Some ==> printable(read_patch(s)->0),
{
    lemma_lines(s);
    let ls = lines(s);
    lemma_skip_pre_wf(ls);
    lemma_header_wf(skip_pre(ls), None, None);
    if read_patch(s) is Some { lemma_hunks_printable((header(skip_pre(ls), None, None)->0).2); }
}
/// [C07] parse, print, parse
pub proof fn theorem_reparse(s: Seq<u8>, f: FV)
    requires plainf(f),
    ensures read_patch(s) is Some ==> read_patch(patch_text(f, read_patch(s)->0)) == read_patch(s),
{
    theorem_read_printable(s);
    if read_patch(s) is Some { theorem_print_read(f, read_patch(s)->0); }
}
