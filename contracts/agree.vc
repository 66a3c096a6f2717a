//@ source lib.rs
//@ raw
use super::*;
use super::utils::*;
use super::patch::*;
use super::diff::*;
use super::diff::DiffOptions;
use super::syntax::*;
use super::print::*;
use super::apply::applied;
use super::merge::MergeOptions;

// ------------------------------------------------------------------ C13: the two interfaces, called side by side
// verification-only callers: each call is judged by the contract of the function called
/// [C13] creating patches
fn agree_create(d: &DiffOptions, o: &str, n: &str, ob: &[u8], nb: &[u8])
    requires ob@ == str_bytes(o), nb@ == str_bytes(n),
{
    let p = d.create_patch(o, n);
    let q = d.create_patch_bytes(ob, nb);
    assert(p.v() == q.v());
    let b = p.to_bytes();
    let c = q.to_bytes();
    assert(b@ == c@ && b@ == p.dv());
}
/// [C13] ... with the default options
fn agree_create_default(o: &str, n: &str, ob: &[u8], nb: &[u8])
    requires ob@ == str_bytes(o), nb@ == str_bytes(n),
{
    let p = super::diff::create_patch(o, n);
    let q = super::diff::create_patch_bytes(ob, nb);
    assert(p.v() == q.v());
}
/// [C13] applying
fn agree_apply(s: &str, p: &Patch<str>, b: &[u8], q: &Patch<[u8]>)
    requires b@ == str_bytes(s), q.v() == p.v(),
{
    match (super::apply::apply(s, p), super::apply::apply_bytes(b, q)) {
        (Ok(x), Ok(y)) => { assert(x.bs() == y@); }
        (Err(x), Err(y)) => { assert(x == y); }
        _ => { assert(false); }
    }
}
/// [C13] reversing
fn agree_reverse(p: &Patch<str>, q: &Patch<[u8]>)
    requires q.v() == p.v(),
{
    let x = p.reverse();
    let y = q.reverse();
    assert(x.v() == y.v());
}
/// [C13] printing
fn agree_print<W: VSink>(f: &super::format::PatchFormatter, p: &Patch<str>, q: &Patch<[u8]>, w: &mut W)
    requires q.v() == p.v(), !old(w).fails(),
{
    let d = f.fmt_patch(p);
    let r = f.write_patch_into(q, &mut *w);
    assert(r is Ok && final(w).out() == old(w).out() + d.dv());
    let b = q.to_bytes();
    assert(b@ == p.dv());
}
/// [C13] parsing
fn agree_parse(s: &str, b: &[u8])
    requires b@ == str_bytes(s),
{
    match (Patch::from_str(s), Patch::from_bytes(b)) {
        (Ok(p), Ok(q)) => { assert(p.v() == q.v()); }
        (Err(_), Err(_)) => {}
        _ => { assert(false); }
    }
}
/// [C13] merging
fn agree_merge(m: &MergeOptions, a: &str, o: &str, t: &str, ab: &[u8], ob: &[u8], tb: &[u8])
    requires ab@ == str_bytes(a), ob@ == str_bytes(o), tb@ == str_bytes(t),
{
    match (m.merge(a, o, t), m.merge_bytes(ab, ob, tb)) {
        (Ok(x), Ok(y)) => { assert(x.bs() == y@); }
        (Err(x), Err(y)) => { assert(x.bs() == y@); }
        _ => { assert(false); }
    }
}
/// [C13] ... with the default options
fn agree_merge_default(a: &str, o: &str, t: &str, ab: &[u8], ob: &[u8], tb: &[u8])
    requires ab@ == str_bytes(a), ob@ == str_bytes(o), tb@ == str_bytes(t),
{
    match (super::merge::merge(a, o, t), super::merge::merge_bytes(ab, ob, tb)) {
        (Ok(x), Ok(y)) => { assert(x.bs() == y@); }
        (Err(x), Err(y)) => { assert(x.bs() == y@); }
        _ => { assert(false); }
    }
}
