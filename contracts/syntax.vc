//@ raw
use super::*;
use super::utils::*;
use super::patch::*;

// ------------------------------------------------------------------ the patch format, read
pub open spec fn sw(l: Seq<u8>, p: Seq<u8>) -> bool { p.is_prefix_of(l) }
/// the rest after a prefix
pub open spec fn cutp(l: Seq<u8>, p: Seq<u8>) -> Option<Seq<u8>> { if sw(l, p) { Some(l.skip(p.len() as int)) } else { None } }
/// without a suffix
pub open spec fn cuts(l: Seq<u8>, p: Seq<u8>) -> Option<Seq<u8>> { if is_suffix(p, l) { Some(l.take(l.len() - p.len())) } else { None } }
pub open spec fn t_orig() -> Seq<u8> { seq![45, 45, 45, 32] }
pub open spec fn t_modi() -> Seq<u8> { seq![43, 43, 43, 32] }
pub open spec fn t_hunk() -> Seq<u8> { seq![64, 64, 32] }
pub open spec fn t_end() -> Seq<u8> { seq![32, 64, 64] }
/// "\ No newline at end of file"
pub open spec fn t_nonl() -> Seq<u8> { seq![92, 32, 78, 111, 32, 110, 101, 119, 108, 105, 110, 101, 32, 97, 116, 32, 101, 110, 100, 32, 111, 102, 32, 102, 105, 108, 101] }

/// the lines from the first file name or hunk on
pub open spec fn skip_pre(ls: Seq<Seq<u8>>) -> Seq<Seq<u8>>
    decreases ls.len()
{ if ls.len() == 0 || sw(ls[0], t_orig()) || sw(ls[0], t_modi()) || sw(ls[0], t_hunk()) { ls } else { skip_pre(ls.skip(1)) } }

/// a character that is escaped in file names
pub open spec fn special(b: u8) -> bool { b == 10 || b == 9 || b == 0 || b == 13 || b == 34 || b == 92 }
/// the character an escape stands for
pub open spec fn unch(b: u8) -> Option<u8> {
    if b == 110 { Some(10u8) } else if b == 116 { Some(9u8) } else if b == 48 { Some(0u8) } else if b == 114 { Some(13u8) } else if b == 34 { Some(34u8) } else if b == 92 { Some(92u8) } else { None }
}
pub open spec fn cons(x: u8, r: Option<Seq<u8>>) -> Option<Seq<u8>> { match r { Some(y) => Some(seq![x] + y), None => None } }
pub open spec fn unesc(s: Seq<u8>) -> Option<Seq<u8>>
    decreases s.len()
{
    if s.len() == 0 { Some(Seq::empty()) }
    else if s[0] == 92 {
        if s.len() == 1 || unch(s[1]) is None { None } else { cons(unch(s[1])->0, unesc(s.skip(2))) }
    } else if special(s[0]) { None } else { cons(s[0], unesc(s.skip(1))) }
}
pub open spec fn plain(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> !special(#[trigger] s[i]) }
pub open spec fn quoted(s: Seq<u8>) -> Option<Seq<u8>> { match cutp(s, seq![34u8]) { Some(x) => cuts(x, seq![34u8]), None => None } }
/// the file name of a header line, after its "--- " or "+++ "
pub open spec fn file_name(s: Seq<u8>) -> Option<Seq<u8>> {
    let f = match split(s, seq![9u8]) { Some(x) => Some(x.0), None => match split(s, seq![10u8]) { Some(x) => Some(x.0), None => None } };
    match f {
        None => None,
        Some(n) => match quoted(n) { Some(q) => unesc(q), None => if plain(n) { Some(n) } else { None } },
    }
}
pub open spec fn header(ls: Seq<Seq<u8>>, o: Option<Seq<u8>>, m: Option<Seq<u8>>) -> Option<(Option<Seq<u8>>, Option<Seq<u8>>, Seq<Seq<u8>>)>
    decreases ls.len()
{
    if ls.len() > 0 && sw(ls[0], t_orig()) {
        if o is Some || file_name(ls[0].skip(4)) is None { None } else { header(ls.skip(1), file_name(ls[0].skip(4)), m) }
    } else if ls.len() > 0 && sw(ls[0], t_modi()) {
        if m is Some || file_name(ls[0].skip(4)) is None { None } else { header(ls.skip(1), o, file_name(ls[0].skip(4))) }
    } else { Some((o, m, ls)) }
}
/// start and length
pub open spec fn range_of(s: Seq<u8>) -> Option<(int, int)> {
    let r = match split(s, seq![44u8]) {
        Some(x) => if parse_num(x.0) is Some && parse_num(x.1) is Some { Some((parse_num(x.0)->0 as int, parse_num(x.1)->0 as int)) } else { None },
        None => if parse_num(s) is Some { Some((parse_num(s)->0 as int, 1int)) } else { None },
    };
    match r { Some(x) => if x.0 + x.1 <= usize::MAX { r } else { None }, None => None }
}
pub struct HH { pub os: int, pub ol: int, pub ns: int, pub nl: int, pub ctx: Option<Seq<u8>> }
/// the line without its newline
pub open spec fn chomp(s: Seq<u8>) -> Seq<u8> { match cuts(s, seq![10u8]) { Some(x) => x, None => s } }
/// "-S,L +S,L"
pub open spec fn two_ranges(s: Seq<u8>) -> Option<((int, int), (int, int))> {
    match split(s, seq![32u8]) {
        None => None,
        Some(x) => match (cutp(x.0, seq![45u8]), cutp(x.1, seq![43u8])) {
            (Some(a), Some(b)) => match (range_of(a), range_of(b)) { (Some(c), Some(d)) => Some((c, d)), _ => None },
            _ => None,
        }
    }
}
/// "@@ -S,L +S,L @@ CONTEXT"
pub open spec fn hunk_head(l: Seq<u8>) -> Option<HH> {
    match cutp(l, t_hunk()) {
        None => None,
        Some(x) => match split(x, t_end()) {
            None => None,
            Some(y) => match two_ranges(y.0) {
                None => None,
                Some(z) => Some(HH { os: z.0.0, ol: z.0.1, ns: z.1.0, nl: z.1.1, ctx: match cutp(y.1, seq![32u8]) { Some(c) => Some(chomp(c)), None => None } }),
            }
        }
    }
}
/// the lines of a hunk so far, and which of them lacked their newline
pub struct BS { pub ls: Seq<LV>, pub c: bool, pub d: bool, pub i: bool }
pub open spec fn bs0() -> BS { BS { ls: Seq::empty(), c: false, d: false, i: false } }
pub open spec fn bpush(b: BS, k: int, t: Seq<u8>) -> BS { BS { ls: b.ls.push(LV { k, t }), ..b } }
pub open spec fn bstep(b: BS, l: Seq<u8>) -> Option<BS> {
    if b.c { None }
    else if sw(l, seq![32u8]) { Some(bpush(b, 0, l.skip(1))) }
    else if sw(l, seq![10u8]) { Some(bpush(b, 0, l)) }
    else if sw(l, seq![45u8]) { if b.d { None } else { Some(bpush(b, 1, l.skip(1))) } }
    else if sw(l, seq![43u8]) { if b.i { None } else { Some(bpush(b, 2, l.skip(1))) } }
    else if sw(l, t_nonl()) {
        if b.ls.len() == 0 { None } else {
            let x = b.ls.last();
            match cuts(x.t, seq![10u8]) {
                None => None,
                Some(t) => Some(BS { ls: b.ls.drop_last().push(LV { k: x.k, t }), c: b.c || x.k == 0, d: b.d || x.k == 1, i: b.i || x.k == 2 }),
            }
        }
    }
    else { None }
}
/// the lines up to the next hunk
pub open spec fn body(ls: Seq<Seq<u8>>, b: BS) -> Option<(Seq<LV>, Seq<Seq<u8>>)>
    decreases ls.len()
{
    if ls.len() == 0 || sw(ls[0], seq![64u8]) { Some((b.ls, ls)) }
    else { match bstep(b, ls[0]) { Some(c) => body(ls.skip(1), c), None => None } }
}
pub open spec fn one_hunk(ls: Seq<Seq<u8>>) -> Option<(HV, Seq<Seq<u8>>)> {
    if ls.len() == 0 { None } else {
        match hunk_head(ls[0]) {
            None => None,
            Some(h) => match body(ls.skip(1), bs0()) {
                None => None,
                Some(b) => {
                    let v = HV { os: h.os, ol: h.ol, ns: h.ns, nl: h.nl, ctx: h.ctx, lines: b.0 };
                    if counted(v) { Some((v, b.1)) } else { None }
                }
            }
        }
    }
}
pub proof fn lemma_body_len(ls: Seq<Seq<u8>>, b: BS)
    ensures body(ls, b) is Some ==> (body(ls, b)->0).1.len() <= ls.len(),
    decreases ls.len(),
{ if ls.len() > 0 && !sw(ls[0], seq![64u8]) && bstep(b, ls[0]) is Some { lemma_body_len(ls.skip(1), bstep(b, ls[0])->0); } }
pub open spec fn hcons(h: HV, r: Option<Seq<HV>>) -> Option<Seq<HV>> { match r { Some(y) => Some(seq![h] + y), None => None } }
pub open spec fn hunks_of(ls: Seq<Seq<u8>>) -> Option<Seq<HV>>
    decreases ls.len()
    via hunks_of_dec
{
    if ls.len() == 0 { Some(Seq::empty()) } else {
        match one_hunk(ls) {
            None => None,
            Some(x) => hcons(x.0, hunks_of(x.1)),
        }
    }
}
#[via_fn]
proof fn hunks_of_dec(ls: Seq<Seq<u8>>) { lemma_body_len(ls.skip(1), bs0()); }
/// what a text says, if it is a patch
pub open spec fn read_lines(ls: Seq<Seq<u8>>) -> Option<PV> {
    match header(skip_pre(ls), None, None) {
        None => None,
        Some(h) => match hunks_of(h.2) {
            None => None,
            Some(hs) => if ordered(hs) { Some(PV { orig: h.0, modi: h.1, hunks: hs }) } else { None },
        }
    }
}
pub open spec fn read_patch(s: Seq<u8>) -> Option<PV> { read_lines(lines(s)) }

pub proof fn lemma_unesc_hi(s: Seq<u8>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> #[trigger] s[i] >= 0x80,
    ensures unesc(s) == (match unesc(s.skip(k)) { Some(y) => Some(s.take(k) + y), None => None }),
    decreases k,
{
    if k == 0 {
        assert(s.skip(0) =~= s);
        if unesc(s) is Some { assert(s.take(0) + unesc(s)->0 =~= unesc(s)->0); }
    } else {
        let t = s.skip(1);
        assert(!special(s[0]));
        assert forall|i: int| 0 <= i < k - 1 implies #[trigger] t[i] >= 0x80 by { assert(t[i] == s[i + 1]); }
        lemma_unesc_hi(t, k - 1);
        assert(t.skip(k - 1) =~= s.skip(k));
        if unesc(s.skip(k)) is Some {
            assert(seq![s[0]] + (t.take(k - 1) + unesc(s.skip(k))->0) =~= s.take(k) + unesc(s.skip(k))->0);
        }
    }
}
pub proof fn lemma_utf8_cons(x: u8, r: Seq<u8>)
    requires x < 0x80, utf8(r),
    ensures utf8(seq![x] + r),
{
    assert((seq![x] + r).skip(1) =~= r);
    assert(utf8_head(seq![x] + r) == 1);
}
/// unescaping keeps a text valid
pub proof fn lemma_unesc_utf8(s: Seq<u8>)
    requires utf8(s),
    ensures unesc(s) is Some ==> utf8(unesc(s)->0),
    decreases s.len(),
{
    if s.len() > 0 && unesc(s) is Some {
        let k = utf8_head(s);
        if s[0] == 92 {
            let t = s.skip(1);
            assert(utf8(t));
            assert(t[0] == s[1]);
            assert(utf8_head(t) == 1);
            assert(t.skip(1) =~= s.skip(2));
            lemma_unesc_utf8(s.skip(2));
            lemma_utf8_cons(unch(s[1])->0, unesc(s.skip(2))->0);
        } else if s[0] < 0x80 {
            lemma_unesc_utf8(s.skip(1));
            lemma_utf8_cons(s[0], unesc(s.skip(1))->0);
        } else {
            lemma_unesc_hi(s, k);
            lemma_unesc_utf8(s.skip(k));
            let y = unesc(s.skip(k))->0;
            let z = s.take(k) + y;
            assert(z.skip(k) =~= y);
            assert forall|i: int| 0 <= i < k implies z[i] == s[i] by {}
            assert(utf8_head(z) == k);
        }
    }
}

// ------------------------------------------------------------------ what has been read, and the rest
pub open spec fn more(x: Seq<HV>, r: Option<Seq<HV>>) -> Option<Seq<HV>> { match r { Some(y) => Some(x + y), None => None } }
pub open spec fn pre_name(x: Seq<u8>, r: Option<Seq<u8>>) -> Option<Seq<u8>> { match r { Some(y) => Some(x + y), None => None } }
pub open spec fn ocv<'a, T: Text + ?Sized>(o: Option<Cow<'a, T>>) -> Option<Seq<u8>> { match o { Some(f) => Some(f.cv()), None => None } }
pub proof fn lemma_hunks_step(x: Seq<HV>, ls: Seq<Seq<u8>>)
    requires ls.len() > 0,
    ensures more(x, hunks_of(ls)) == (match one_hunk(ls) { None => None, Some(y) => more(x.push(y.0), hunks_of(y.1)) }), one_hunk(ls) is Some ==> (one_hunk(ls)->0).1.len() < ls.len(),
{
    lemma_body_len(ls.skip(1), bs0());
    if let Some(y) = one_hunk(ls) {
        if hunks_of(y.1) is Some { assert(x + (seq![y.0] + hunks_of(y.1)->0) =~= x.push(y.0) + hunks_of(y.1)->0); }
    }
}
pub proof fn lemma_unesc_step(x: Seq<u8>, s: Seq<u8>)
    requires s.len() > 0,
    ensures pre_name(x, unesc(s)) == (
        if s[0] == 92 { if s.len() == 1 || unch(s[1]) is None { None } else { pre_name(x.push(unch(s[1])->0), unesc(s.skip(1).skip(1))) } }
        else if special(s[0]) { None } else { pre_name(x.push(s[0]), unesc(s.skip(1))) }),
{
    if s[0] == 92 {
        if s.len() > 1 && unch(s[1]) is Some {
            let r = unesc(s.skip(2));
            assert(s.skip(1).skip(1) =~= s.skip(2));
            if r is Some { assert(x + (seq![unch(s[1])->0] + r->0) =~= x.push(unch(s[1])->0) + r->0); }
        }
    } else if !special(s[0]) {
        let r = unesc(s.skip(1));
        if r is Some { assert(x + (seq![s[0]] + r->0) =~= x.push(s[0]) + r->0); }
    }
}
pub proof fn lemma_pre(x: Seq<u8>, r: Option<Seq<u8>>)
    ensures x.len() == 0 ==> pre_name(x, r) == r, pre_name(x, Some(Seq::empty())) == Some(x),
{
    if x.len() == 0 && r is Some { assert(x + r->0 =~= r->0); }
    assert(x + Seq::<u8>::empty() =~= x);
}
pub proof fn lemma_more_nil(x: Seq<HV>, r: Option<Seq<HV>>)
    requires x.len() == 0,
    ensures more(x, r) == r,
{ if r is Some { assert(x + r->0 =~= r->0); } }
pub proof fn lemma_more_end(x: Seq<HV>)
    ensures more(x, Some(Seq::empty())) == Some(x),
{ assert(x + Seq::<HV>::empty() =~= x); }
pub open spec fn specials() -> Seq<u8> { seq![10u8, 9u8, 0u8, 13u8, 34u8, 92u8] }
pub proof fn lemma_special()
    ensures forall|b: u8| #[trigger] specials().contains(b) == special(b),
{
    let s = specials();
    assert forall|b: u8| #[trigger] s.contains(b) == special(b) by {
        if special(b) {
            assert(s[0] == 10 && s[1] == 9 && s[2] == 0 && s[3] == 13 && s[4] == 34 && s[5] == 92);
            let i = choose|i: int| 0 <= i < 6 && s[i] == b;
        }
    }
}
pub broadcast proof fn lemma_lvs_push<'a, T: Text + ?Sized>(s: Seq<Line<'a, T>>, x: Line<'a, T>)
    ensures #[trigger] lvs(s.push(x)) == lvs(s).push(x.v()),
{ assert(lvs(s.push(x)) =~= lvs(s).push(x.v())); }
pub broadcast proof fn lemma_lvs_sub<'a, T: Text + ?Sized>(s: Seq<Line<'a, T>>, i: int, j: int)
    requires 0 <= i <= j <= s.len(),
    ensures #[trigger] lvs(s.subrange(i, j)) == lvs(s).subrange(i, j),
{ assert(lvs(s.subrange(i, j)) =~= lvs(s).subrange(i, j)); }
pub broadcast proof fn lemma_hvs_push<'a, T: Text + ?Sized>(s: Seq<Hunk<'a, T>>, x: Hunk<'a, T>)
    ensures #[trigger] hvs(s.push(x)) == hvs(s).push(x.v()),
{ assert(hvs(s.push(x)) =~= hvs(s).push(x.v())); }
pub proof fn lemma_unesc_utf8s(s: Seq<u8>)
    ensures utf8(s) && unesc(s) is Some ==> utf8(unesc(s)->0),
{ if utf8(s) { lemma_unesc_utf8(s); } }
