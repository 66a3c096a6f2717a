//! Bounded check of the contracts that the proofs *assume* about std (contracts/vlib.rs): each
//! assumed postcondition, written again as a small executable definition, is compared with the real
//! std function on an enumerated set of inputs. It proves nothing about std; it shows that no
//! assumed contract is wrong on these inputs. Prints one line per contract: name and cases.
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::Write as _;

macro_rules! ck {
    ($n:expr, $c:expr, $($a:tt)*) => {
        if !$c {
            println!("MISMATCH {}: {}", $n, format!($($a)*));
            std::process::exit(1);
        }
    };
}
fn say(n: &str, k: u64) {
    println!("{} {}", n, k);
}

// ---- the definitions of vlib.rs
fn cont(b: u8) -> bool {
    (0x80..=0xBF).contains(&b)
}
fn utf8_head(s: &[u8]) -> usize {
    if !s.is_empty() && s[0] <= 0x7F {
        1
    } else if s.len() >= 2 && (0xC2..=0xDF).contains(&s[0]) && cont(s[1]) {
        2
    } else if s.len() >= 3
        && cont(s[1])
        && cont(s[2])
        && ((s[0] == 0xE0 && 0xA0 <= s[1]) || (0xE1..=0xEC).contains(&s[0]) || (s[0] == 0xED && s[1] <= 0x9F) || (0xEE..=0xEF).contains(&s[0]))
    {
        3
    } else if s.len() >= 4
        && cont(s[1])
        && cont(s[2])
        && cont(s[3])
        && ((s[0] == 0xF0 && 0x90 <= s[1]) || (0xF1..=0xF3).contains(&s[0]) || (s[0] == 0xF4 && s[1] <= 0x8F))
    {
        4
    } else {
        0
    }
}
fn utf8(s: &[u8]) -> bool {
    let mut s = s;
    while !s.is_empty() {
        let k = utf8_head(s);
        if k == 0 {
            return false;
        }
        s = &s[k..];
    }
    true
}
fn enc(c: char) -> Vec<u8> {
    let n = c as u32;
    if n < 0x80 {
        vec![n as u8]
    } else if n < 0x800 {
        vec![(0xC0 + n / 0x40) as u8, (0x80 + n % 0x40) as u8]
    } else if n < 0x10000 {
        vec![(0xE0 + n / 0x1000) as u8, (0x80 + n / 0x40 % 0x40) as u8, (0x80 + n % 0x40) as u8]
    } else {
        vec![(0xF0 + n / 0x40000) as u8, (0x80 + n / 0x1000 % 0x40) as u8, (0x80 + n / 0x40 % 0x40) as u8, (0x80 + n % 0x40) as u8]
    }
}
fn digits(s: &[u8]) -> bool {
    !s.is_empty() && s.iter().all(|b| (48..=57).contains(b))
}
fn parse_num(s: &[u8]) -> Option<usize> {
    let t = if !s.is_empty() && s[0] == 43 { &s[1..] } else { s };
    if !digits(t) {
        return None;
    }
    let mut v: u128 = 0;
    for b in t {
        v = v * 10 + (b - 48) as u128;
        if v > usize::MAX as u128 {
            return None;
        }
    }
    Some(v as usize)
}
fn udec(n: usize) -> Vec<u8> {
    if n < 10 {
        vec![48 + n as u8]
    } else {
        let mut v = udec(n / 10);
        v.push(48 + (n % 10) as u8);
        v
    }
}
fn occ(s: &[u8], n: &[u8], j: usize) -> bool {
    j + n.len() <= s.len() && &s[j..j + n.len()] == n
}
fn find(s: &[u8], n: &[u8]) -> Option<usize> {
    (0..=s.len()).find(|j| occ(s, n, *j))
}
fn prefix(n: &[u8], s: &[u8]) -> bool {
    n.len() <= s.len() && (0..n.len()).all(|i| n[i] == s[i])
}
fn suffix(n: &[u8], s: &[u8]) -> bool {
    n.len() <= s.len() && (0..n.len()).all(|i| n[i] == s[s.len() - n.len() + i])
}
fn str_cut(s: &[u8], i: usize) -> bool {
    i == 0 || i == s.len() || (i < s.len() && !cont(s[i]))
}

/// all sequences over xs of at most n elements
fn words<X: Clone>(xs: &[X], n: usize) -> Vec<Vec<X>> {
    let mut all = vec![vec![]];
    let mut last: Vec<Vec<X>> = vec![vec![]];
    for _ in 0..n {
        let mut next = vec![];
        for w in &last {
            for x in xs {
                let mut v = w.clone();
                v.push(x.clone());
                next.push(v);
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}

struct D<'a>(&'a dyn Fn(&mut std::fmt::Formatter<'_>) -> std::fmt::Result);
impl std::fmt::Display for D<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        (self.0)(f)
    }
}

fn main() {
    let mut k = 0u64;
    // from_utf8, String::from_utf8: every sequence of at most 3 bytes, 4 bytes at all class limits
    let mut utf = |s: &[u8]| {
        k += 1;
        let u = utf8(s);
        ck!("from_utf8", std::str::from_utf8(s).is_ok() == u, "{:?}", s);
        if u {
            ck!("from_utf8", std::str::from_utf8(s).unwrap().as_bytes() == s, "{:?}", s);
        }
    };
    utf(&[]);
    for a in 0..=255u8 {
        utf(&[a]);
        for b in 0..=255u8 {
            utf(&[a, b]);
            for c in 0..=255u8 {
                utf(&[a, b, c]);
            }
        }
    }
    let lim = [0u8, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xFF];
    for w in words(&lim, 4) {
        utf(&w);
    }
    for w in words(&[0x41u8, 0x80, 0xC3, 0xE2, 0xF0, 0x9F], 6) {
        utf(&w);
        ck!("String::from_utf8", String::from_utf8(w.clone()).is_ok() == utf8(&w), "{:?}", w);
        if let Ok(s) = String::from_utf8(w.clone()) {
            ck!("String::from_utf8", s.into_bytes() == w, "");
        }
    }
    say("from_utf8", k);
    // chars, encoding: every character
    k = 0;
    for n in 0..=0x10FFFFu32 {
        if let Some(c) = char::from_u32(n) {
            k += 1;
            let s = c.to_string();
            ck!("enc", s.as_bytes() == &enc(c)[..], "{:?}", c);
            ck!("chars", s.chars().collect::<Vec<_>>() == [c], "{:?}", c);
        } else {
            ck!("char range", (0xD800..0xE000).contains(&n), "{}", n);
        }
    }
    say("enc, chars (every character)", k);
    k = 0;
    let cs = ['a', '\n', '\r', '"', '\\', '\u{7f}', '\u{80}', 'é', '€', '𝄞', '\u{10FFFF}'];
    let texts: Vec<String> = words(&cs, 4).into_iter().map(|w| w.into_iter().collect()).collect();
    for (w, s) in words(&cs, 4).iter().zip(&texts) {
        k += 1;
        let b: Vec<u8> = w.iter().flat_map(|c| enc(*c)).collect();
        ck!("chars", s.as_bytes() == &b[..] && s.chars().collect::<Vec<_>>() == *w && s.len() == b.len(), "{:?}", s);
        ck!("contains", s.contains(&cs[1..4]) == w.iter().any(|c| cs[1..4].contains(c)), "{:?}", s);
        ck!("ends_with", s.ends_with('\n') == suffix(b"\n", &b), "{:?}", s);
        let mut p = String::new();
        for c in w {
            p.push(*c);
        }
        ck!("String::push", p == *s, "{:?}", s);
        let mut p = String::from("x");
        p.push_str(s);
        p.extend([&s[..], &s[..]]);
        ck!("String::push_str, extend", p.as_bytes() == &[b"x", &b[..], &b[..], &b[..]].concat()[..], "{:?}", s);
    }
    say("chars, String", k);
    // the operations of str and [u8] that `Text` uses
    k = 0;
    let needles: Vec<Vec<u8>> = words(b"a\n@- ", 2).into_iter().chain([b"\r\n".to_vec(), b"@@ -".to_vec(), b" @@".to_vec()]).collect();
    let hay: Vec<String> = words(&['a', '\n', '@', '-', 'é'], 5).into_iter().map(|w| w.into_iter().collect()).collect();
    for s in hay.iter().chain(texts.iter().take(2000)) {
        let b = s.as_bytes();
        ck!("len", s.is_empty() == b.is_empty() && s.len() == b.len(), "");
        for n in &needles {
            k += 1;
            let t = std::str::from_utf8(n).unwrap();
            ck!("starts_with", s.starts_with(t) == prefix(n, b) && b.starts_with(n) == prefix(n, b), "{:?} {:?}", s, t);
            ck!("ends_with", s.ends_with(t) == suffix(n, b) && b.ends_with(n) == suffix(n, b), "{:?} {:?}", s, t);
            let want = if prefix(n, b) { Some(&b[n.len()..]) } else { None };
            ck!("strip_prefix", s.strip_prefix(t).map(|x| x.as_bytes()) == want && b.strip_prefix(&n[..]) == want, "{:?} {:?}", s, t);
            let want = if suffix(n, b) { Some(&b[..b.len() - n.len()]) } else { None };
            ck!("strip_suffix", s.strip_suffix(t).map(|x| x.as_bytes()) == want && b.strip_suffix(&n[..]) == want, "{:?} {:?}", s, t);
            if !n.is_empty() {
                ck!("find", s.find(t) == find(b, n), "{:?} {:?}", s, t);
                ck!("windows position", b.windows(n.len()).position(|w| w == &n[..]) == find(b, n), "{:?} {:?}", s, t);
            }
        }
        for i in 0..=b.len() {
            k += 1;
            ck!("is_char_boundary", s.is_char_boundary(i) == str_cut(b, i), "{:?} {}", s, i);
            ck!("split_at", b.split_at(i) == (&b[..i], &b[i..]), "");
            if str_cut(b, i) {
                let (x, y) = s.split_at(i);
                ck!("split_at", x.as_bytes() == &b[..i] && y.as_bytes() == &b[i..] && &s[..i] == x && &s[i..] == y, "{:?} {}", s, i);
            }
        }
    }
    say("str and [u8] operations", k);
    // parse::<usize>, Display of usize
    k = 0;
    for w in words(&['0', '1', '9', '+', '-', ' ', 'x', '_', '١'], 5) {
        k += 1;
        let s: String = w.into_iter().collect();
        ck!("parse", s.parse::<usize>().ok() == parse_num(s.as_bytes()), "{:?}", s);
    }
    let m = usize::MAX as u128;
    for d in 0..2000u128 {
        for (p, z) in [("", ""), ("+", ""), ("", "000"), ("++", ""), ("-", "")] {
            k += 1;
            let s = format!("{}{}{}", p, z, m + 1000 - d);
            ck!("parse", s.parse::<usize>().ok() == parse_num(s.as_bytes()), "{:?}", s);
        }
    }
    for n in (0..200_000usize).chain((0..64).flat_map(|i| [1usize << i, (1 << i) - 1, usize::MAX - (1 << i)])).chain((0..20).flat_map(|i| [10usize.pow(i.min(19)), 10usize.pow(i.min(19)) - 1])) {
        k += 1;
        ck!("udec", n.to_string().as_bytes() == &udec(n)[..], "{}", n);
        ck!("parse", n.to_string().parse::<usize>().ok() == Some(n), "{}", n);
    }
    say("parse::<usize>, Display of usize", k);
    // HashMap through `entry` is a map
    k = 0;
    for w in words(&[b"a".to_vec(), b"b".to_vec(), b"a\n".to_vec(), b"".to_vec()], 6) {
        k += 1;
        let mut h: HashMap<&[u8], u64> = HashMap::default();
        let mut l: Vec<(&[u8], u64)> = vec![];
        for (i, x) in w.iter().enumerate() {
            let want = l.iter().find(|y| y.0 == &x[..]).map(|y| y.1);
            let got = match h.entry(x) {
                std::collections::hash_map::Entry::Occupied(o) => Some(*o.get()),
                std::collections::hash_map::Entry::Vacant(v) => {
                    ck!("entry", *v.insert(i as u64) == i as u64, "");
                    None
                }
            };
            ck!("entry", got == want, "{:?}", w);
            if want.is_none() {
                l.push((x, i as u64));
            }
        }
        ck!("entry", l.iter().all(|x| h[x.0] == x.1) && h.len() == l.len(), "{:?}", w);
    }
    say("HashMap::entry", k);
    // writers are append-only
    k = 0;
    for a in &texts[..1500] {
        for b in ["", "x", "é\n"] {
            k += 1;
            let d = D(&|f| {
                f.write_str(a)?;
                f.write_char('€')?;
                write!(f, "{}", b)
            });
            let want = format!("{}{}{}", a, '€', b);
            ck!("Formatter", d.to_string() == want, "{:?}", a);
            let mut v = b"pre".to_vec();
            ck!("io::Write", v.write_all(a.as_bytes()).is_ok() && write!(v, "{}", d).is_ok(), "");
            ck!("io::Write", v == [b"pre", a.as_bytes(), want.as_bytes()].concat(), "{:?}", a);
        }
    }
    say("fmt::Formatter, io::Write for Vec<u8>", k);
    // slices and vectors
    k = 0;
    for w in words(&[1u64, 2, 3], 6) {
        for i in 0..w.len() {
            for j in 0..w.len() {
                k += 1;
                let mut v = w.clone();
                v.swap(i, j);
                ck!("swap", (0..w.len()).all(|x| v[x] == if x == i { w[j] } else if x == j { w[i] } else { w[x] }), "");
            }
        }
        for i in 0..=w.len() {
            for j in i..=w.len() {
                k += 1;
                let mut v = w.clone();
                let cut: Vec<u64> = v.splice(i..j, [7, 8]).collect();
                ck!("splice", cut == w[i..j] && v == [&w[..i], &[7, 8], &w[j..]].concat(), "");
                let mut v = w.clone();
                let x = v.drain(i..j).count();
                ck!("drain", x == j - i && v == [&w[..i], &w[j..]].concat(), "");
                ck!("get", w.get(i..j) == Some(&w[i..j]) && w.get(i..w.len() + 1).is_none(), "");
            }
        }
        let same = w.len() % 2 == 0 && (0..w.len() / 2).all(|i| w[i] == w[w.len() / 2 + i]);
        if w.len() % 2 == 0 {
            let (x, y) = w.split_at(w.len() / 2);
            ck!("slice ==", (x == y) == same, "");
        }
    }
    for w in words(&[1u64, 2, 3], 5) {
        k += 1;
        ck!("split_last", match w.split_last() { Some((x, y)) => *x == w[w.len() - 1] && y == &w[..w.len() - 1], None => w.is_empty() }, "");
    }
    say("slice and Vec operations", k);
    // small std functions
    k = 0;
    let ns = [0usize, 1, 2, 9, 1 << 40, usize::MAX - 1, usize::MAX];
    for a in ns {
        for b in ns {
            k += 1;
            ck!("abs_diff", a.abs_diff(b) == if a <= b { b - a } else { a - b }, "{} {}", a, b);
        }
    }
    for a in 0..=255u8 {
        k += 1;
        ck!("is_ascii_digit", a.is_ascii_digit() == (48 <= a && a <= 57), "{}", a);
    }
    let os = [None, Some(1), Some(2)];
    for a in os {
        for b in os {
            k += 1;
            ck!("copied", a.as_ref().copied() == a, "");
            let mut x = a;
            ck!("replace", x.replace(7) == a && x == Some(7), "");
            ck!("zip", a.zip(b) == match (a, b) { (Some(x), Some(y)) => Some((x, y)), _ => None }, "");
            ck!("flatten", Some(a).flatten() == a && None::<Option<u8>>.flatten().is_none(), "");
            ck!("swap", { let (mut x, mut y) = (a, b); std::mem::swap(&mut x, &mut y); (x, y) == (b, a) }, "");
        }
    }
    say("small std functions", k);
}
