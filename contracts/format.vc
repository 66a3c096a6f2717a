//@ source patch/format.rs
//@ strlit
//@ addbound T=Text
//@ rebound AsRef=- Write=VSink
//@ retype Formatter=VFormatter
//@ rename Display VDisplay
//@ rename Default VDefault
//@ remethod as_ref=as_bytes ends_with=v_ends_with
//@ raw
use super::*;
use super::utils::*;
use super::patch::*;
use super::syntax::*;
use super::print::*;
use super::patchio::*;
impl PatchFormatter {
    pub open spec fn fv(&self) -> FV {
        FV { color: self.with_color, msg: self.with_missing_newline_message, blank: self.suppress_blank_empty,
            ctx: self.context, del: self.delete, ins: self.insert, hh: self.hunk_header, ph: self.patch_header, fc: self.function_context }
    }
}
//@ type PatchFormatter
//@ type PatchDisplay attr=verifier::reject_recursive_types(T)
//@ type HunkDisplay attr=verifier::reject_recursive_types(T)
//@ type LineDisplay attr=verifier::reject_recursive_types(T)
//@ fn PatchFormatter::new
    ensures !r.with_color, r.with_missing_newline_message, r.suppress_blank_empty,
//@ fn PatchFormatter::with_color
    ensures r.fv() == (FV { color: true, ..self.fv() }),
//@ fn PatchFormatter::missing_newline_message
    ensures r.fv() == (FV { msg: enable, ..self.fv() }),
//@ fn PatchFormatter::suppress_blank_empty
    ensures r.fv() == (FV { blank: enable, ..self.fv() }),
//@ fn PatchFormatter::fmt_patch ret=PatchDisplay<'a,str>
    ensures r.dv() == patch_text(self.fv(), patch.v()),
//@ fn PatchFormatter::write_patch_into
    ensures r is Ok ==> final(w).out() == old(w).out() + patch_text(self.fv(), patch.v()), final(w).fails() == old(w).fails(), r is Err ==> old(w).fails(),
//@ fn PatchFormatter::fmt_hunk ret=HunkDisplay<'a,str>
    ensures r.dv() == hunk_text(self.fv(), hunk.v()),
//@ fn PatchFormatter::write_hunk_into
    ensures r is Ok ==> final(w).out() == old(w).out() + hunk_text(self.fv(), hunk.v()), final(w).fails() == old(w).fails(), r is Err ==> old(w).fails(),
//@ fn PatchFormatter::fmt_line ret=LineDisplay<'a,str>
    ensures r.dv() == line_text(self.fv(), line.v()),
//@ fn PatchFormatter::write_line_into
    ensures r is Ok ==> final(w).out() == old(w).out() + line_text(self.fv(), line.v()), final(w).fails() == old(w).fails(), r is Err ==> old(w).fails(),
//@ fn Default@PatchFormatter::default
//@ fn PatchDisplay::write_into hide=name_text hide=hunk_text hide=plain
    ensures r is Ok ==> final(w).out() == old(w).out() + patch_text(self.f.fv(), self.patch.v()), final(w).fails() == old(w).fails(), r is Err ==> old(w).fails(),
//@ ghost PatchDisplay::write_into after if self.f.with_color #0
    assert(w.out() =~= old(w).out() + pre_if(self.f.fv(), self.f.fv().ph)) by { reveal(pre_if); reveal(suf_if); }
//@ ghost PatchDisplay::write_into after if let Some(original)
    assert(w.out() =~= old(w).out() + (pre_if(self.f.fv(), self.f.fv().ph) + name_line(t_orig(), self.patch.v().orig)));
//@ ghost PatchDisplay::write_into after if let Some(modified)
    assert(w.out() =~= old(w).out() + (pre_if(self.f.fv(), self.f.fv().ph) + names_text(self.patch.v())));
//@ ghost PatchDisplay::write_into after if self.f.with_color #1
    assert(w.out() =~= old(w).out() + (pre_if(self.f.fv(), self.f.fv().ph) + (names_text(self.patch.v()) + suf_if(self.f.fv(), self.f.fv().ph)))) by { reveal(pre_if); reveal(suf_if); }
//@ ghost PatchDisplay::write_into before for hunk in
    assert(w.out() =~= old(w).out() + names_part(self.f.fv(), self.patch.v()));
//@ loop PatchDisplay::write_into l0
    invariant i0 <= n0, n0 == s0@.len(), s0@ == self.patch.hunks@, w.fails() == old(w).fails(),
        w.out() == old(w).out() + (names_part(self.f.fv(), self.patch.v()) + hunks_text(self.f.fv(), hvs(s0@).take(i0 as int))),
    decreases n0 - i0,
//@ ghost PatchDisplay::write_into loop l0 before
    assert(w.out() =~= old(w).out() + names_part(self.f.fv(), self.patch.v()));
    assert(names_part(self.f.fv(), self.patch.v()) + Seq::<u8>::empty() =~= names_part(self.f.fv(), self.patch.v()));
    assert(hvs(self.patch.hunks@).take(0) =~= Seq::empty());
//@ ghost PatchDisplay::write_into loop l0 start
    proof { lemma_hunks_text_step(self.f.fv(), hvs(s0@), i0 - 1); }
//@ ghost PatchDisplay::write_into loop l0 end
    assert(w.out() =~= old(w).out() + (names_part(self.f.fv(), self.patch.v()) + hunks_text(self.f.fv(), hvs(s0@).take(i0 as int))));
//@ ghost PatchDisplay::write_into loop l0 after
    assert(hvs(s0@).take(n0 as int) =~= hvs(s0@));
//@ implraw Display@PatchDisplay
open spec fn dv(&self) -> Seq<u8> { patch_text(self.f.fv(), self.patch.v()) }
//@ fn Display@PatchDisplay::fmt hide=name_text hide=hunk_text hide=plain
//@ ghost Display@PatchDisplay::fmt after if self.f.with_color #0
    assert(f.out() =~= old(f).out() + pre_if(self.f.fv(), self.f.fv().ph)) by { reveal(pre_if); reveal(suf_if); }
//@ ghost Display@PatchDisplay::fmt after if let Some(original)
    assert(f.out() =~= old(f).out() + (pre_if(self.f.fv(), self.f.fv().ph) + name_line(t_orig(), self.patch.v().orig)));
//@ ghost Display@PatchDisplay::fmt after if let Some(modified)
    assert(f.out() =~= old(f).out() + (pre_if(self.f.fv(), self.f.fv().ph) + names_text(self.patch.v())));
//@ ghost Display@PatchDisplay::fmt after if self.f.with_color #1
    assert(f.out() =~= old(f).out() + (pre_if(self.f.fv(), self.f.fv().ph) + (names_text(self.patch.v()) + suf_if(self.f.fv(), self.f.fv().ph)))) by { reveal(pre_if); reveal(suf_if); }
//@ ghost Display@PatchDisplay::fmt before for hunk in
    assert(f.out() =~= old(f).out() + names_part(self.f.fv(), self.patch.v()));
//@ loop Display@PatchDisplay::fmt l0
    invariant i0 <= n0, n0 == s0@.len(), s0@ == self.patch.hunks@, f.fails() == old(f).fails(),
        f.out() == old(f).out() + (names_part(self.f.fv(), self.patch.v()) + hunks_text(self.f.fv(), hvs(s0@).take(i0 as int))),
    decreases n0 - i0,
//@ ghost Display@PatchDisplay::fmt loop l0 before
    assert(f.out() =~= old(f).out() + names_part(self.f.fv(), self.patch.v()));
    assert(names_part(self.f.fv(), self.patch.v()) + Seq::<u8>::empty() =~= names_part(self.f.fv(), self.patch.v()));
    assert(hvs(self.patch.hunks@).take(0) =~= Seq::empty());
//@ ghost Display@PatchDisplay::fmt loop l0 start
    proof { lemma_hunks_text_step(self.f.fv(), hvs(s0@), i0 - 1); }
//@ ghost Display@PatchDisplay::fmt loop l0 end
    assert(f.out() =~= old(f).out() + (names_part(self.f.fv(), self.patch.v()) + hunks_text(self.f.fv(), hvs(s0@).take(i0 as int))));
//@ ghost Display@PatchDisplay::fmt loop l0 after
    assert(hvs(s0@).take(n0 as int) =~= hvs(s0@));
//@ fn HunkDisplay::write_into hide=range_text hide=line_text
    ensures r is Ok ==> final(w).out() == old(w).out() + hunk_text(self.f.fv(), self.hunk.v()), final(w).fails() == old(w).fails(), r is Err ==> old(w).fails(),
//@ ghost HunkDisplay::write_into after if self.f.with_color #0
    assert(w.out() =~= old(w).out() + pre_if(self.f.fv(), self.f.fv().hh)) by { reveal(pre_if); reveal(suf_if); }
//@ ghost HunkDisplay::write_into before if self.f.with_color #1
    assert(w.out() =~= old(w).out() + (pre_if(self.f.fv(), self.f.fv().hh) + head_text(self.hunk.v())));
//@ ghost HunkDisplay::write_into after if self.f.with_color #1
    assert(w.out() =~= old(w).out() + styled(self.f.fv(), self.f.fv().hh, head_text(self.hunk.v()))) by { reveal(pre_if); reveal(suf_if); }
//@ ghost HunkDisplay::write_into after if self.f.with_color #2
    assert(w.out() =~= old(w).out() + (styled(self.f.fv(), self.f.fv().hh, head_text(self.hunk.v())) + (seq![32u8] + pre_if(self.f.fv(), self.f.fv().fc)))) by { reveal(pre_if); reveal(suf_if); }
//@ ghost HunkDisplay::write_into after if self.f.with_color #3
    assert(w.out() =~= old(w).out() + (styled(self.f.fv(), self.f.fv().hh, head_text(self.hunk.v())) + ctx_text(self.f.fv(), self.hunk.v().ctx))) by { reveal(pre_if); reveal(suf_if); }
//@ ghost HunkDisplay::write_into before writeln!
    assert(w.out() =~= old(w).out() + (styled(self.f.fv(), self.f.fv().hh, head_text(self.hunk.v())) + ctx_text(self.f.fv(), self.hunk.v().ctx)));
//@ loop HunkDisplay::write_into l0
    invariant i0 <= n0, n0 == s0@.len(), s0@ == self.hunk.lines@, w.fails() == old(w).fails(),
        w.out() == old(w).out() + (hunk_top(self.f.fv(), self.hunk.v()) + lines_text(self.f.fv(), lvs(s0@).take(i0 as int))),
    decreases n0 - i0,
//@ ghost HunkDisplay::write_into loop l0 before
    assert(w.out() =~= old(w).out() + hunk_top(self.f.fv(), self.hunk.v()));
    assert(hunk_top(self.f.fv(), self.hunk.v()) + Seq::<u8>::empty() =~= hunk_top(self.f.fv(), self.hunk.v()));
    assert(lvs(self.hunk.lines@).take(0) =~= Seq::empty());
//@ ghost HunkDisplay::write_into loop l0 start
    proof { lemma_lines_text_step(self.f.fv(), lvs(s0@), i0 - 1); }
//@ ghost HunkDisplay::write_into loop l0 end
    assert(w.out() =~= old(w).out() + (hunk_top(self.f.fv(), self.hunk.v()) + lines_text(self.f.fv(), lvs(s0@).take(i0 as int))));
//@ ghost HunkDisplay::write_into loop l0 after
    assert(lvs(s0@).take(n0 as int) =~= lvs(s0@));
//@ implraw Display@HunkDisplay
open spec fn dv(&self) -> Seq<u8> { hunk_text(self.f.fv(), self.hunk.v()) }
//@ fn Display@HunkDisplay::fmt hide=range_text hide=line_text
//@ ghost Display@HunkDisplay::fmt after if self.f.with_color #0
    assert(f.out() =~= old(f).out() + pre_if(self.f.fv(), self.f.fv().hh)) by { reveal(pre_if); reveal(suf_if); }
//@ ghost Display@HunkDisplay::fmt before if self.f.with_color #1
    assert(f.out() =~= old(f).out() + (pre_if(self.f.fv(), self.f.fv().hh) + head_text(self.hunk.v())));
//@ ghost Display@HunkDisplay::fmt after if self.f.with_color #1
    assert(f.out() =~= old(f).out() + styled(self.f.fv(), self.f.fv().hh, head_text(self.hunk.v()))) by { reveal(pre_if); reveal(suf_if); }
//@ ghost Display@HunkDisplay::fmt after if self.f.with_color #2
    assert(f.out() =~= old(f).out() + (styled(self.f.fv(), self.f.fv().hh, head_text(self.hunk.v())) + (seq![32u8] + pre_if(self.f.fv(), self.f.fv().fc)))) by { reveal(pre_if); reveal(suf_if); }
//@ ghost Display@HunkDisplay::fmt after if self.f.with_color #3
    assert(f.out() =~= old(f).out() + (styled(self.f.fv(), self.f.fv().hh, head_text(self.hunk.v())) + ctx_text(self.f.fv(), self.hunk.v().ctx))) by { reveal(pre_if); reveal(suf_if); }
//@ ghost Display@HunkDisplay::fmt before writeln!
    assert(f.out() =~= old(f).out() + (styled(self.f.fv(), self.f.fv().hh, head_text(self.hunk.v())) + ctx_text(self.f.fv(), self.hunk.v().ctx)));
//@ loop Display@HunkDisplay::fmt l0
    invariant i0 <= n0, n0 == s0@.len(), s0@ == self.hunk.lines@, f.fails() == old(f).fails(),
        f.out() == old(f).out() + (hunk_top(self.f.fv(), self.hunk.v()) + lines_text(self.f.fv(), lvs(s0@).take(i0 as int))),
    decreases n0 - i0,
//@ ghost Display@HunkDisplay::fmt loop l0 before
    assert(f.out() =~= old(f).out() + hunk_top(self.f.fv(), self.hunk.v()));
    assert(hunk_top(self.f.fv(), self.hunk.v()) + Seq::<u8>::empty() =~= hunk_top(self.f.fv(), self.hunk.v()));
    assert(lvs(self.hunk.lines@).take(0) =~= Seq::empty());
//@ ghost Display@HunkDisplay::fmt loop l0 start
    proof { lemma_lines_text_step(self.f.fv(), lvs(s0@), i0 - 1); }
//@ ghost Display@HunkDisplay::fmt loop l0 end
    assert(f.out() =~= old(f).out() + (hunk_top(self.f.fv(), self.hunk.v()) + lines_text(self.f.fv(), lvs(s0@).take(i0 as int))));
//@ ghost Display@HunkDisplay::fmt loop l0 after
    assert(lvs(s0@).take(n0 as int) =~= lvs(s0@));
//@ fn LineDisplay::write_into
    ensures r is Ok ==> final(w).out() == old(w).out() + line_text(self.f.fv(), self.line.v()), final(w).fails() == old(w).fails(), r is Err ==> old(w).fails(),
//@ ghost LineDisplay::write_into after if self.f.with_color #0
    assert(w.out() =~= old(w).out() + pre_if(self.f.fv(), style)) by { reveal(pre_if); reveal(suf_if); }
//@ ghost LineDisplay::write_into after if self.f.with_color #1
    assert(w.out() =~= old(w).out() + styled(self.f.fv(), style, line_main(self.f.fv(), self.line.v()))) by { reveal(pre_if); reveal(suf_if); }
//@ ghost LineDisplay::write_into after if self.f.suppress_blank_empty
    assert(w.out() =~= old(w).out() + (pre_if(self.f.fv(), style) + line_main(self.f.fv(), self.line.v())));
//@ implraw Display@LineDisplay
open spec fn dv(&self) -> Seq<u8> { line_text(self.f.fv(), self.line.v()) }
//@ fn Display@LineDisplay::fmt
//@ ghost Display@LineDisplay::fmt after if self.f.with_color #0
    assert(f.out() =~= old(f).out() + pre_if(self.f.fv(), style)) by { reveal(pre_if); reveal(suf_if); }
//@ ghost Display@LineDisplay::fmt after if self.f.with_color #1
    assert(f.out() =~= old(f).out() + styled(self.f.fv(), style, line_main(self.f.fv(), self.line.v()))) by { reveal(pre_if); reveal(suf_if); }
//@ ghost Display@LineDisplay::fmt after if self.f.suppress_blank_empty
    assert(f.out() =~= old(f).out() + (pre_if(self.f.fv(), style) + line_main(self.f.fv(), self.line.v())));
//@ ghost LineDisplay::write_into before if !line.ends_with
    assert(w.out() =~= old(w).out() + styled(self.f.fv(), lstyle(self.f.fv(), self.line.v().k), line_main(self.f.fv(), self.line.v())));
//@ ghost LineDisplay::write_into end
    assert(w.out() =~= old(w).out() + line_text(self.f.fv(), self.line.v()));
//@ ghost Display@LineDisplay::fmt before if !line.ends_with
    assert(f.out() =~= old(f).out() + styled(self.f.fv(), lstyle(self.f.fv(), self.line.v().k), line_main(self.f.fv(), self.line.v())));
//@ ghost Display@LineDisplay::fmt end
    assert(f.out() =~= old(f).out() + line_text(self.f.fv(), self.line.v()));
