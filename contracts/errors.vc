//@ source apply.rs
//@ strlit
//@ retype Formatter=VFormatter
//@ rename Display VSays
//@ raw
use super::*;
use super::utils::*;
use super::apply::ApplyError;
/// `Display`, with the text only characterised
pub trait VSays {
    spec fn says(&self, t: Seq<u8>) -> bool;
    fn fmt(&self, f: &mut VFormatter<'_>) -> (r: VRes)
        ensures r is Ok ==> (exists|t: Seq<u8>| final(f).out() == old(f).out() + t && #[trigger] self.says(t)), final(f).fails() == old(f).fails(), r is Err ==> old(f).fails();
}
pub open spec fn is_digit(b: u8) -> bool { 48 <= b <= 57 }
/// the number, whole, is in the text
pub open spec fn numbered(t: Seq<u8>, n: nat) -> bool { exists|p: Seq<u8>, s: Seq<u8>| #[trigger] (p + udec(n) + s) == t && (p.len() > 0 ==> !is_digit(p.last())) && (s.len() > 0 ==> !is_digit(s[0])) }
//@ implraw Display@ApplyError
/// [C09] the message names the hunk, counted from 1
open spec fn says(&self, t: Seq<u8>) -> bool { numbered(t, self.0 as nat) }
//@ fn Display@ApplyError::fmt
//@ ghost Display@ApplyError::fmt end
    proof {
        if r__ is Ok {
            let n = udec(self.0 as nat);
            let (o, x) = (old(f).out(), f.out());
            let t = x.skip(o.len() as int);
            let p = t.take(t.len() - n.len());
            assert(x =~= o + t);
            assert(t =~= p + n + Seq::<u8>::empty());
            assert(self.says(t));
        }
    }
