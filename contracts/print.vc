//@ raw
use super::*;
use super::utils::*;
use super::patch::*;
use super::syntax::*;

// ------------------------------------------------------------------ the patch format, written
/// the letter after the backslash
pub open spec fn esc_ch(b: u8) -> u8 { if b == 10 { 110 } else if b == 9 { 116 } else if b == 0 { 48 } else if b == 13 { 114 } else { b } }
pub open spec fn esc1(b: u8) -> Seq<u8> { if special(b) { seq![92, esc_ch(b)] } else { seq![b] } }
pub open spec fn esc_all(s: Seq<u8>) -> Seq<u8>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { esc_all(s.drop_last()) + esc1(s.last()) } }
/// a file name, quoted if needed
pub open spec fn name_text(s: Seq<u8>) -> Seq<u8> { if plain(s) { s } else { seq![34u8] + esc_all(s) + seq![34u8] } }
/// "S,L", or "S" for one line
pub open spec fn range_text(s: int, l: int) -> Seq<u8> { if l == 1 { udec(s as nat) } else { udec(s as nat) + seq![44u8] + udec(l as nat) } }

/// how to print: colours, the missing-newline message, blank context lines without their space
pub struct FV { pub color: bool, pub msg: bool, pub blank: bool, pub ctx: Style, pub del: Style, pub ins: Style, pub hh: Style, pub ph: Style, pub fc: Style }
/// text in a style
pub open spec fn styled(f: FV, s: Style, t: Seq<u8>) -> Seq<u8> { pre_if(f, s) + (t + suf_if(f, s)) }
#[verifier::opaque]
pub open spec fn pre_if(f: FV, s: Style) -> Seq<u8> { if f.color { style_pre(s) } else { Seq::empty() } }
#[verifier::opaque]
pub open spec fn suf_if(f: FV, s: Style) -> Seq<u8> { if f.color { style_suf(s) } else { Seq::empty() } }
pub open spec fn sign(k: int) -> Seq<u8> { if k == 0 { seq![32u8] } else if k == 1 { seq![45u8] } else { seq![43u8] } }
pub open spec fn lstyle(f: FV, k: int) -> Style { if k == 0 { f.ctx } else if k == 1 { f.del } else { f.ins } }
/// a line with its sign
pub open spec fn line_main(f: FV, l: LV) -> Seq<u8> { if f.blank && l.k == 0 && l.t == seq![10u8] { l.t } else { sign(l.k) + l.t } }
/// what ends a line that lacks its newline
pub open spec fn line_end(f: FV, l: LV) -> Seq<u8> {
    if is_suffix(seq![10u8], l.t) { Seq::empty() } else if f.msg { seq![10u8] + (t_nonl() + seq![10u8]) } else { seq![10u8] }
}
pub open spec fn line_text(f: FV, l: LV) -> Seq<u8> { styled(f, lstyle(f, l.k), line_main(f, l)) + line_end(f, l) }
pub open spec fn lines_text(f: FV, ls: Seq<LV>) -> Seq<u8>
    decreases ls.len()
{ if ls.len() == 0 { Seq::empty() } else { lines_text(f, ls.drop_last()) + line_text(f, ls.last()) } }
pub open spec fn head_text(h: HV) -> Seq<u8> { seq![64u8, 64, 32, 45] + range_text(h.os, h.ol) + seq![32u8, 43] + range_text(h.ns, h.nl) + seq![32u8, 64, 64] }
pub open spec fn ctx_text(f: FV, c: Option<Seq<u8>>) -> Seq<u8> { match c { Some(c) => seq![32u8] + styled(f, f.fc, c), None => Seq::empty() } }
pub open spec fn hunk_text(f: FV, h: HV) -> Seq<u8> { styled(f, f.hh, head_text(h)) + ctx_text(f, h.ctx) + seq![10u8] + lines_text(f, h.lines) }
pub open spec fn hunks_text(f: FV, hs: Seq<HV>) -> Seq<u8>
    decreases hs.len()
{ if hs.len() == 0 { Seq::empty() } else { hunks_text(f, hs.drop_last()) + hunk_text(f, hs.last()) } }
pub open spec fn name_line(t: Seq<u8>, n: Option<Seq<u8>>) -> Seq<u8> { match n { Some(n) => t + name_text(n) + seq![10u8], None => Seq::empty() } }
pub open spec fn names_text(p: PV) -> Seq<u8> { name_line(t_orig(), p.orig) + name_line(t_modi(), p.modi) }
pub open spec fn patch_text(f: FV, p: PV) -> Seq<u8> {
    (if p.orig is Some || p.modi is Some { styled(f, f.ph, names_text(p)) } else { Seq::empty() }) + hunks_text(f, p.hunks)
}
/// the patch as it is printed without colours, and with the missing-newline message
pub open spec fn plain_fv(blank: bool) -> FV { FV { color: false, msg: true, blank, ctx: arbitrary(), del: arbitrary(), ins: arbitrary(), hh: arbitrary(), ph: arbitrary(), fc: arbitrary() } }
pub open spec fn plain_text(blank: bool, p: PV) -> Seq<u8> { patch_text(plain_fv(blank), p) }
pub proof fn lemma_plain_lines(f: FV, g: FV, ls: Seq<LV>)
    requires !f.color, !g.color, f.msg == g.msg, f.blank == g.blank,
    ensures lines_text(f, ls) == lines_text(g, ls),
    decreases ls.len(),
{ reveal(pre_if); reveal(suf_if); if ls.len() > 0 { lemma_plain_lines(f, g, ls.drop_last()); } }
pub proof fn lemma_plain_hunks(f: FV, g: FV, hs: Seq<HV>)
    requires !f.color, !g.color, f.msg == g.msg, f.blank == g.blank,
    ensures hunks_text(f, hs) == hunks_text(g, hs),
    decreases hs.len(),
{ reveal(pre_if); reveal(suf_if); if hs.len() > 0 { lemma_plain_hunks(f, g, hs.drop_last()); lemma_plain_lines(f, g, hs.last().lines); } }
/// colours off: the styles do not matter
pub proof fn lemma_plain(f: FV, p: PV)
    requires !f.color, f.msg,
    ensures patch_text(f, p) == plain_text(f.blank, p),
{ reveal(pre_if); reveal(suf_if); lemma_plain_hunks(f, plain_fv(f.blank), p.hunks); }

pub proof fn lemma_esc_cat(a: Seq<u8>, b: Seq<u8>)
    ensures esc_all(a + b) == esc_all(a) + esc_all(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(esc_all(a) + esc_all(b) =~= esc_all(a));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_esc_cat(a, b.drop_last());
        assert(esc_all(a) + (esc_all(b.drop_last()) + esc1(b.last())) =~= esc_all(a) + esc_all(b.drop_last()) + esc1(b.last()));
    }
}
/// no special characters, nothing escaped
pub proof fn lemma_esc_plain(a: Seq<u8>)
    requires plain(a),
    ensures esc_all(a) == a,
    decreases a.len(),
{
    if a.len() > 0 {
        assert forall|i: int| 0 <= i < a.drop_last().len() implies !special(#[trigger] a.drop_last()[i]) by { assert(!special(a[i])); }
        lemma_esc_plain(a.drop_last());
        assert(!special(a[a.len() - 1]));
        assert(a.drop_last() + seq![a.last()] =~= a);
    }
}
/// the escape of one byte
pub proof fn lemma_esc_one(b: u8)
    ensures esc_all(seq![b]) == esc1(b),
{
    assert(seq![b].drop_last() =~= Seq::<u8>::empty());
    assert(esc_all(seq![b].drop_last()) + esc1(b) =~= esc1(b));
}
/// the escape of one more character
pub proof fn lemma_esc_char(s: Seq<u8>, c: char)
    ensures esc_all(s + enc(c)) == esc_all(s) + (if (c as u32) < 128 { esc1(c as u8) } else { enc(c) }),
{
    lemma_esc_cat(s, enc(c));
    if (c as u32) < 128 { lemma_esc_one(c as u8); } else {
        lemma_enc(c);
        assert forall|i: int| 0 <= i < enc(c).len() implies !special(#[trigger] enc(c)[i]) by {}
        lemma_esc_plain(enc(c));
    }
}
/// a special character is an ASCII character of the text
pub proof fn lemma_plain_chars(s: Seq<char>)
    ensures plain(enc_all(s)) == !exists|i: int| 0 <= i < s.len() && (#[trigger] s[i] as u32) < 128 && special(s[i] as u8),
    decreases s.len(),
{
    if s.len() == 0 {} else {
        let a = s.drop_last();
        let c = s.last();
        lemma_plain_chars(a);
        let x = enc_all(a);
        let y = enc(c);
        assert(enc_all(s) == x + y);
        lemma_enc(c);
        assert(plain(x + y) == (plain(x) && plain(y))) by {
            if plain(x) && plain(y) {
                assert forall|i: int| 0 <= i < (x + y).len() implies !special(#[trigger] (x + y)[i]) by { if i >= x.len() { assert((x + y)[i] == y[i - x.len()]); } }
            }
            if plain(x + y) {
                assert forall|i: int| 0 <= i < x.len() implies !special(#[trigger] x[i]) by { assert((x + y)[i] == x[i]); }
                assert forall|i: int| 0 <= i < y.len() implies !special(#[trigger] y[i]) by { assert((x + y)[x.len() + i] == y[i]); }
            }
        }
        if (c as u32) < 128 { assert(y == seq![c as u8]); if special(c as u8) { assert(special(y[0])); assert(s[s.len() - 1] == c); } }
        if !plain(x) {
            let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i] as u32) < 128 && special(a[i] as u8);
            assert(s[i] == a[i]);
        }
        if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i] as u32) < 128 && special(s[i] as u8) {
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i] as u32) < 128 && special(s[i] as u8);
            if i < s.len() - 1 { assert(a[i] == s[i]); }
        }
    }
}

/// concatenation: broadcast in the modules that print
pub mod cat {
    use super::*;
    pub broadcast proof fn lemma_cat_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
        ensures #[trigger] ((a + b) + c) == a + (b + c),
    { assert((a + b) + c =~= a + (b + c)); }
    pub broadcast proof fn lemma_cat_nil(a: Seq<u8>)
        ensures #[trigger] (a + Seq::<u8>::empty()) == a,
    { assert(a + Seq::<u8>::empty() =~= a); }
    pub broadcast proof fn lemma_nil_cat(a: Seq<u8>)
        ensures #[trigger] (Seq::<u8>::empty() + a) == a,
    { assert(Seq::<u8>::empty() + a =~= a); }
    pub broadcast group group_cat { lemma_cat_assoc, lemma_cat_nil, lemma_nil_cat }
}
pub proof fn lemma_lines_text_step(f: FV, ls: Seq<LV>, i: int)
    requires 0 <= i < ls.len(),
    ensures lines_text(f, ls.take(i + 1)) == lines_text(f, ls.take(i)) + line_text(f, ls[i]),
{ assert(ls.take(i + 1).drop_last() =~= ls.take(i)); }
pub proof fn lemma_hunks_text_step(f: FV, hs: Seq<HV>, i: int)
    requires 0 <= i < hs.len(),
    ensures hunks_text(f, hs.take(i + 1)) == hunks_text(f, hs.take(i)) + hunk_text(f, hs[i]),
{ assert(hs.take(i + 1).drop_last() =~= hs.take(i)); }
pub open spec fn names_part(f: FV, p: PV) -> Seq<u8> { if p.orig is Some || p.modi is Some { styled(f, f.ph, names_text(p)) } else { Seq::empty() } }
pub open spec fn hunk_top(f: FV, h: HV) -> Seq<u8> { styled(f, f.hh, head_text(h)) + ctx_text(f, h.ctx) + seq![10u8] }

pub open spec fn cspecials() -> Seq<char> { seq!['\n', '\t', '\0', '\r', '\"', '\\'] }
pub open spec fn cspecial(c: char) -> bool { (c as u32) < 128 && special(c as u8) }
pub proof fn lemma_cspecial()
    ensures forall|c: char| #[trigger] cspecials().contains(c) == cspecial(c),
{
    let s = cspecials();
    assert forall|c: char| #[trigger] s.contains(c) == cspecial(c) by {
        assert(s[0] == '\n' && s[1] == '\t' && s[2] == '\0' && s[3] == '\r' && s[4] == '\"' && s[5] == '\\');
        if cspecial(c) { assert(c == s[0] || c == s[1] || c == s[2] || c == s[3] || c == s[4] || c == s[5]); }
        if s.contains(c) { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; assert(0 <= i < 6); }
    }
}
pub proof fn lemma_enc_all_first(c: char, s: Seq<char>)
    ensures enc_all(seq![c] + s) == enc(c) + enc_all(s),
    decreases s.len(),
{
    let t = seq![c] + s;
    if s.len() == 0 {
        assert(t.drop_last() =~= Seq::<char>::empty());
        assert(enc_all(t.drop_last()) + enc(t.last()) =~= enc(c) + enc_all(s));
    } else {
        lemma_enc_all_first(c, s.drop_last());
        assert(t.drop_last() =~= seq![c] + s.drop_last());
        assert(enc(c) + enc_all(s.drop_last()) + enc(s.last()) =~= enc(c) + (enc_all(s.drop_last()) + enc(s.last())));
    }
}
/// the escaped text of the characters from c on
pub proof fn lemma_esc_first(s: Seq<char>)
    requires s.len() > 0,
    ensures esc_all(enc_all(s)) == (if (s[0] as u32) < 128 { esc1(s[0] as u8) } else { enc(s[0]) }) + esc_all(enc_all(s.skip(1))),
{
    let c = s[0];
    assert(s =~= seq![c] + s.skip(1));
    lemma_enc_all_first(c, s.skip(1));
    lemma_esc_cat(enc(c), enc_all(s.skip(1)));
    lemma_esc_char(Seq::empty(), c);
    assert(Seq::<u8>::empty() + enc(c) =~= enc(c));
    let x = if (c as u32) < 128 { esc1(c as u8) } else { enc(c) };
    assert(Seq::<u8>::empty() + x =~= x);
}
pub mod chs {
    use super::*;
    pub broadcast proof fn lemma_str_special(s: &str, p: &[char])
        ensures p@ == cspecials() ==> #[trigger] s.vcon(p) == !plain(str_bytes(s)),
    { lemma_cspecial(); lemma_chars(s); lemma_plain_chars(s@);
      if exists|i: int| 0 <= i < s@.len() && cspecials().contains(#[trigger] s@[i]) {
          let i = choose|i: int| 0 <= i < s@.len() && cspecials().contains(#[trigger] s@[i]);
          assert(cspecial(s@[i]));
      }
      if exists|i: int| 0 <= i < s@.len() && (#[trigger] s@[i] as u32) < 128 && special(s@[i] as u8) {
          let i = choose|i: int| 0 <= i < s@.len() && (#[trigger] s@[i] as u32) < 128 && special(s@[i] as u8);
          assert(cspecials().contains(s@[i]));
      }
    }
    pub broadcast proof fn lemma_cs(s: &str)
        ensures enc_all(#[trigger] s.cs()) == str_bytes(s),
    { lemma_chars(s); }
    pub broadcast proof fn lemma_plain_fv(f: FV, p: PV)
        ensures !f.color && f.msg ==> #[trigger] patch_text(f, p) == plain_text(f.blank, p),
    { if !f.color && f.msg { lemma_plain(f, p); } }
    pub broadcast group group_chs { lemma_plain_fv, lemma_str_special, lemma_cs }
}
