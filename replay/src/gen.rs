//! Case generation: a small exhaustive part (partitioned over the workers) followed by an endless
//! random part.
use crate::dict::dict;
use crate::Case;

pub struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        ((self.next() >> 11) % n as u64) as usize
    }
    fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
}

type Lines = Vec<Vec<u8>>;

pub struct Gen {
    prop: String,
    r: Rng,
    w: usize,
    threads: usize,
    i: usize,
    small: Vec<Vec<u8>>,
    total: usize,
    exhausted: bool,
}

/// all texts of at most `max` lines over the line alphabet, each also with a variant whose last
/// line has no newline
fn all_texts(alpha: &[&str], max: usize) -> Vec<Vec<u8>> {
    let mut out = vec![vec![]];
    let mut cur: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..max {
        let mut nxt = vec![];
        for c in &cur {
            for a in alpha {
                let mut t = c.clone();
                t.extend(a.as_bytes());
                let mut o = t.clone();
                o.push(b'\n');
                if !t.is_empty() && *t.last().unwrap() != b'\n' {
                    out.push(t);
                }
                out.push(o.clone());
                nxt.push(o);
            }
        }
        cur = nxt;
    }
    out
}

const NASTY: &[&[u8]] = &[
    b"\n", b" \n", b"a\r\n", b"\r\n", b"--- x\n", b"+++ x\n", b"-- x\n", b"@@ -1 +1 @@\n", b"@\n",
    b"\\ No newline at end of file\n", b"\\\n", b"-\n", b"+\n", b"\t\n", b"\"q\"\n", b"\xc3\xa9\n",
    b"\xe2\x98\x83\n", b"\xe2\x98\x84\n", b"\x00\n", b"a b\n", b"<<<<<<< ours\n", b"=======\n", b">>>>>>> theirs\n",
    b"\xc2\x85\n", b"\xe2\x80\xa8\n", b"\x0b\n", b"\x0c\n", b"\r\r\n",
];
const BADUTF: &[&[u8]] = &[b"\xff\n", b"\xc3\n", b"\xe2\x98\n", b"\x80x\n", b"\xf0\x9f\n"];

const PIECES: &[&str] = &[
    "@@ -1 +1 @@\n", "@@ -1,2 +1,2 @@\n", "@@ -0,0 +1 @@\n", "@@ -1 +0,0 @@\n", "@@ -3,0 +4 @@ fn x()\n",
    "@@ -3,1 +4,2 @@ \n", "@@ -5 +6 @@", "@@ -1,0 +1,0 @@\n", "@@ -1,0 +1,0 @@ f\n", "@@ -9 +9 @@  two\n", "@@ -2,0 +2,0 @@x\n",
    "@@ -18446744073709551615 +1 @@\n", "@@ -1 +18446744073709551615 @@\n", "@@ -18446744073709551615,0 +18446744073709551615,0 @@\n",
    "@@ -18446744073709551614 +18446744073709551614 @@\n", "@@ -99999999999999999999 +1 @@\n", "@@ -+1 ++1 @@\n", "@@ -01 +1 @@\n",
    "@@ -1,1, +1 @@\n", "@@ -1 +1@@\n", "@@ 1 +1 @@\n", "@@ -1 1 @@\n", "@@-1 +1 @@\n", "@@ -,1 +1 @@\n", "@@ - + @@\n", "@@  @@\n", "@@ @@\n",
    "@@ -1 +1 @@ a @@ b\n", "@\n", "@@\n",
    "--- a\n", "+++ b\n", "--- \"a\\n\\t\\0\\r\\\"\\\\\"\n", "+++ \"x\\q\"\n", "--- \"x\\\"\n", "--- \"\"\n", "--- \"\n", "--- a\tdate\n", "--- a\"b\n",
    "--- a\\b\n", "+++ \t\n", "--- ", "+++ b", "--- a b c\n", "--- \"a\tb\"\n", "--- \"a\"\tx\n", "--- \"\\\"\n", "--- \"a\rb\"\n", "+++ a\rb\n",
    "diff --git a b\n", "index 1..2\n", "\n", " \n", " a\n", " b\n", "-a\n", "-b\n", "+a\n", "+b\n", "-\n", "+\n", " a", "-a", "+a", " ", "-", "+",
    "\\ No newline at end of file\n", "\\ No newline at end of file", "\\ No newline at end of file!!\n", "\\ no\n", "x\n",
    "--- \u{e9}\n", " \u{2603}\n", "---\n", "+++\n", "--\n",
];

impl Gen {
    pub fn new(prop: &str, seed: u64, w: usize, threads: usize) -> Gen {
        let mut r = Rng((seed.wrapping_add(1)).wrapping_mul(0x9E3779B97F4A7C15) ^ ((w as u64 + 1) << 32) ^ 0x1234567);
        for _ in 0..10 {
            r.next();
        }
        let (small, total) = match prop {
            "C01" | "C02" | "C03" | "C04" => {
                let s = all_texts(&["a", "b"], 5);
                let n = s.len() * s.len() * 4;
                (s, n)
            }
            "C11" => {
                let s = all_texts(&["a", "b"], 5);
                let n = s.len() * s.len();
                (s, n)
            }
            "C10" | "C12" => {
                let s = all_texts(&["a", "b"], 3);
                let n = s.len() * s.len() * s.len() * 2;
                (s, n)
            }
            "C05" | "C13" => {
                let s = all_texts(&["a", ""], 3);
                let n = s.len() * s.len() * s.len();
                (s, n)
            }
            "C06" => {
                // all sequences of at most 3 pieces
                let k = PIECES.len();
                (vec![], 1 + k + k * k + k * k * k)
            }
            _ => (vec![], 0),
        };
        Gen { prop: prop.into(), r, w, threads, i: w, small, total, exhausted: false }
    }
    pub fn exhausted_flag(&self) -> bool {
        self.exhausted
    }

    /// a number near one the code under test contains
    fn near(&mut self) -> Option<usize> {
        let d = &dict().nums;
        if d.len() <= 1 {
            // only the conflict marker length
            return None;
        }
        let n = d[self.r.below(d.len())];
        Some(match self.r.below(10) {
            0..=3 => n,
            4 | 5 => n + 1,
            6 | 7 => n - 1,
            8 => n + self.r.below(1 + n / 2),
            _ => n * 2 + self.r.below(2),
        })
    }
    /// with a small chance, a number near one the code under test contains
    fn near1(&mut self, den: usize) -> Option<usize> {
        if self.r.chance(1, den) {
            self.near()
        } else {
            None
        }
    }
    /// a text the code under test contains (one that the fixed alphabets do not cover)
    fn lit(&mut self) -> Option<Vec<u8>> {
        let d = &dict().strs;
        if d.is_empty() {
            return None;
        }
        Some(d[self.r.below(d.len())].clone())
    }
    fn lit_line(&mut self) -> Option<Vec<u8>> {
        if self.r.chance(1, 4) {
            let n = self.near()?.min(9000);
            let fill = [b'x', b' ', b'y', b'-'][self.r.below(4)];
            let mut l = vec![fill; n.saturating_sub(self.r.below(3))];
            if self.r.chance(1, 3) {
                l.extend("\u{e9}".bytes());
            }
            l.push(b'\n');
            return Some(l);
        }
        let mut l = if self.r.chance(1, 3) { [&b"x"[..], b" ", b"+", b"\t"][self.r.below(4)].to_vec() } else { vec![] };
        l.extend(self.lit()?);
        match self.r.below(6) {
            0 => l.extend(b"x"),
            1 => l.extend(b" "),
            2 => l.extend(self.lit()?),
            _ => {}
        }
        if l.last() != Some(&b'\n') {
            l.push(b'\n')
        }
        Some(l)
    }

    fn line(&mut self, alpha: usize) -> Vec<u8> {
        if self.r.chance(1, 12) {
            if let Some(l) = self.lit_line() {
                return l;
            }
        }
        match alpha {
            0 => [&b"a\n"[..], b"b\n"][self.r.below(2)].to_vec(),
            1 => [&b"a\n"[..], b"b\n", b"c\n"][self.r.below(3)].to_vec(),
            2 => format!("line {}\n", self.r.below(10)).into_bytes(),
            3 => format!("l{}\n", self.r.below(1000)).into_bytes(),
            4 => NASTY[self.r.below(NASTY.len())].to_vec(),
            5 => {
                if self.r.chance(1, 3) {
                    BADUTF[self.r.below(BADUTF.len())].to_vec()
                } else {
                    NASTY[self.r.below(NASTY.len())].to_vec()
                }
            }
            6 => {
                // mostly distinct numbered lines with some blank and some very long ones
                match self.r.below(40) {
                    0..=3 => b"\n".to_vec(),
                    4 => {
                        let n = 200 + self.r.below(6000);
                        let mut l = vec![b'x'; n];
                        l.extend(format!("{}\n", self.r.below(3)).bytes());
                        l
                    }
                    5 => NASTY[self.r.below(NASTY.len())].to_vec(),
                    _ => format!("item {}\n", self.r.below(100000)).into_bytes(),
                }
            }
            _ => {
                let mut l: Vec<u8> = (0..self.r.below(40)).map(|_| b'a' + self.r.below(26) as u8).collect();
                l.push(b'\n');
                l
            }
        }
    }
    fn size(&mut self) -> usize {
        if let Some(n) = self.near1(8) {
            // large texts are slow: seldom
            if n < 300 || self.r.chance(1, 6) {
                return n.min(6000);
            }
        }
        match self.r.below(20) {
            0..=8 => self.r.below(6),
            9..=15 => self.r.below(14),
            16..=18 => self.r.below(50),
            _ => {
                if self.r.chance(1, 60) {
                    self.r.below(3000)
                } else if self.r.chance(1, 8) {
                    self.r.below(700)
                } else {
                    self.r.below(160)
                }
            }
        }
    }
    fn lines(&mut self, alpha: usize, n: usize) -> Lines {
        let mut v: Lines = Vec::new();
        if self.r.chance(1, 6) {
            // periodic
            let p = 1 + self.r.below(4);
            let base: Lines = (0..p).map(|_| self.line(alpha)).collect();
            for i in 0..n {
                v.push(base[i % p].clone())
            }
        } else {
            for _ in 0..n {
                v.push(self.line(alpha))
            }
        }
        v
    }
    /// a size for a block of lines
    fn block(&mut self) -> usize {
        if let Some(n) = self.near1(3) {
            if n < 300 || self.r.chance(1, 6) {
                return n.min(4000);
            }
        }
        match self.r.below(12) {
            0..=8 => self.r.below(4),
            9 | 10 => self.r.below(12),
            _ => self.r.below(70),
        }
    }
    /// changes of chosen sizes at chosen distances
    fn spaced(&mut self, alpha: usize, sides: usize) -> Vec<Lines> {
        let k = 1 + self.block();
        let mut out: Vec<Lines> = vec![vec![]; sides + 1];
        let fixed = if self.r.chance(1, 2) { Some(self.block()) } else { None };
        for _ in 0..k {
            let g = fixed.unwrap_or_else(|| self.block());
            for _ in 0..g {
                let l = self.line(alpha);
                for o in out.iter_mut() {
                    o.push(l.clone())
                }
            }
            let n = self.block();
            let old = self.lines(alpha, n);
            out[0].extend(old.iter().cloned());
            for s in 1..=sides {
                match self.r.below(4) {
                    0 => out[s].extend(old.iter().cloned()),
                    1 if s > 1 => {
                        // the same insertion on both sides
                        let m = self.block();
                        let new = self.lines(alpha, m);
                        for o in out[1..=s].iter_mut() {
                            o.extend(new.iter().cloned())
                        }
                    }
                    _ => {
                        let m = self.block();
                        let new = self.lines(alpha, m);
                        out[s].extend(new)
                    }
                }
            }
            if out[0].len() > 5000 {
                break;
            }
        }
        let g = self.block();
        let tail = self.lines(alpha, g);
        for o in out.iter_mut() {
            o.extend(tail.iter().cloned())
        }
        out
    }
    fn mutate(&mut self, b: &Lines, alpha: usize) -> Lines {
        let mut v = b.clone();
        let k = match self.r.below(10) {
            0 => 0,
            1..=3 => 1,
            4..=6 => 2 + self.r.below(2),
            _ => self.r.below(3 + v.len() / 3),
        };
        for _ in 0..k {
            let n = v.len();
            let p = self.r.below(n + 1);
            match self.r.below(8) {
                0 | 1 => {
                    let l = self.line(alpha);
                    v.insert(p, l)
                }
                2 | 3 if p < n => {
                    v.remove(p);
                }
                4 if p < n => v[p] = self.line(alpha),
                5 => {
                    // delete a block
                    let k = self.near1(4).unwrap_or_else(|| self.r.below(6));
                    let e = (p + k).min(n);
                    v.drain(p..e);
                }
                6 => {
                    // duplicate a block elsewhere
                    let e = (p + 1 + self.r.below(5)).min(n);
                    let blk: Lines = v[p..e].to_vec();
                    let q = self.r.below(v.len() + 1);
                    for (i, l) in blk.into_iter().enumerate() {
                        v.insert(q + i, l)
                    }
                }
                _ => {
                    // insert a block
                    let m = self.near1(6).unwrap_or_else(|| self.r.below(6)).min(3000);
                    let blk = self.lines(alpha, m);
                    for (i, l) in blk.into_iter().enumerate() {
                        v.insert(p + i, l)
                    }
                }
            }
        }
        v
    }
    fn join(&mut self, l: &Lines) -> Vec<u8> {
        let mut t = l.concat();
        if self.r.chance(1, 3) && t.last() == Some(&b'\n') {
            t.pop();
        }
        t
    }
    fn pair(&mut self) -> (usize, Lines, Lines) {
        let alpha = self.r.below(8);
        if self.r.chance(1, 10) {
            let mut v = self.spaced(alpha, 1);
            let b = v.pop().unwrap();
            return (alpha, v.pop().unwrap(), b);
        }
        let n = self.size();
        let a = self.lines(alpha, n);
        let b = if self.r.chance(1, 4) {
            let m = self.size();
            self.lines(alpha, m)
        } else {
            self.mutate(&a, alpha)
        };
        (alpha, a, b)
    }
    fn ctx(&mut self) -> usize {
        if let Some(n) = self.near1(6) {
            return n;
        }
        match self.r.below(12) {
            0..=2 => 0,
            3 | 4 => 1,
            5 => 2,
            6 | 7 => 3,
            8 => 4 + self.r.below(10),
            9 => self.r.below(200),
            10 => usize::MAX,
            _ => usize::MAX / 2 + self.r.below(3),
        }
    }
    /// a conflict marker length
    fn mlen(&mut self) -> usize {
        if let Some(n) = self.near1(5) {
            return n.min(9000);
        }
        match self.r.below(12) {
            0..=5 => 7,
            6..=9 => self.r.below(12),
            10 => self.r.below(80),
            _ => 200 + self.r.below(200),
        }
    }
    fn name(&mut self) -> Vec<u8> {
        let mut s = Vec::new();
        const P: &[&str] = &[
            "a", "b/c.txt", " ", "\n", "\t", "\0", "\r", "\"", "\\", "n", "t", "0", "r", "\u{e9}", "\u{2603}", "@@ ", "--- ", "+++ ", "\\n", "x",
            "\x01", "\x07", "\x08", "\x0b", "\x0c", "\x1b", "\x7f", "\u{85}", "\u{2028}", "\u{1f600}", "'", "%", "$", "#", "//", "\u{feff}",
        ];
        for _ in 0..self.r.below(6) {
            if self.r.chance(1, 8) {
                s.extend(self.lit().filter(|l| std::str::from_utf8(l).is_ok()).unwrap_or_default());
                continue;
            }
            s.extend(P[self.r.below(P.len())].as_bytes())
        }
        if let Some(n) = self.near1(8) {
            s.resize(s.len().max(n.min(9000)), b'f');
        }
        s
    }
    /// something unusual in or around a number of a hunk header
    fn odd_number(&mut self, s: &mut String) {
        const P: &[&str] = &[
            " ", "\t", "\0", "\r", "+", "-", "0", "00", "_", ".", ",", "1", "x", "\"", "\\", "\u{a0}", "\u{2003}", "\u{feff}", "\u{661}", "\u{b2}",
            "\x0b", "\x0c", "\x1f", "\x7f", "\u{85}", "0x", "e0", "18446744073709551616", "\n", "@",
        ];
        let n = s.len();
        let p = match self.r.below(4) {
            0 => 0,
            1 => n,
            2 => s.find(',').unwrap_or(n),
            _ => s.find(',').map_or(0, |i| i + 1),
        };
        let x = P[self.r.below(P.len())];
        s.insert_str(p, x);
    }
    /// a file name line
    fn name_line(&mut self) -> Vec<u8> {
        let mut o = [&b"--- "[..], b"+++ "][self.r.below(2)].to_vec();
        let q = self.r.chance(1, 2);
        if q {
            o.push(b'"')
        }
        const E: &[&str] = &["\\n", "\\t", "\\0", "\\r", "\\\"", "\\\\", "\\a", "\\x", "\\1", "\\3", "\\", "\\ "];
        for _ in 0..self.r.below(4) {
            if q && self.r.chance(1, 2) {
                o.extend(E[self.r.below(E.len())].as_bytes())
            } else {
                let n = self.name();
                o.extend(n.into_iter().filter(|b| *b != b'\n'))
            }
        }
        if q && self.r.chance(7, 8) {
            o.push(b'"')
        }
        if self.r.chance(1, 4) {
            o.extend([&b"\t2020-01-01"[..], b" ", b"\t", b"\r", b"\tx\ty"][self.r.below(5)])
        }
        o.push(b'\n');
        o
    }
    fn patch_text(&mut self) -> Vec<u8> {
        // grammar-based: mostly valid hunks
        let mut o = Vec::new();
        if self.r.chance(1, 2) {
            o.extend(b"--- a\n+++ b\n");
        } else {
            for _ in 0..self.r.below(4) {
                if self.r.chance(1, 4) {
                    let l = self.name_line();
                    o.extend(l);
                    continue;
                }
                o.extend(PIECES[self.r.below(PIECES.len())].as_bytes());
            }
        }
        let mut po = self.near1(8).unwrap_or_else(|| self.r.below(3));
        let mut pn = self.near1(8).unwrap_or_else(|| self.r.below(3));
        for _ in 0..self.near1(20).unwrap_or_else(|| self.r.below(4)).min(300) {
            let mut body: Vec<u8> = vec![];
            let (mut co, mut cn) = (0, 0);
            for _ in 0..self.near1(20).unwrap_or_else(|| self.r.below(7)).min(600) {
                let al = if self.r.chance(1, 5) { 4 + self.r.below(2) } else { 0 };
                let l = self.line(al);
                match self.r.below(8) {
                    0..=2 => {
                        if l == b"\n" && self.r.chance(1, 2) {
                            body.extend(&l)
                        } else {
                            body.push(b' ');
                            body.extend(&l)
                        }
                        co += 1;
                        cn += 1;
                    }
                    3 | 4 => {
                        body.push(b'-');
                        body.extend(&l);
                        co += 1;
                    }
                    5 | 6 => {
                        body.push(b'+');
                        body.extend(&l);
                        cn += 1;
                    }
                    _ => body.extend(b"\\ No newline at end of file\n"),
                }
            }
            if self.r.chance(1, 20) {
                co += 1
            }
            if self.r.chance(1, 20) {
                cn += 1
            }
            let rg = |s: usize, l: usize, force: bool| {
                if l == 1 && !force {
                    format!("{}", s)
                } else {
                    format!("{},{}", s, l)
                }
            };
            let f = ["\n", "\n", "\n", " fn f()\n", "x\n", "  y\n", " \n", " a @@ b\n"][self.r.below(8)];
            let force = self.r.chance(1, 6);
            let (mut r1, mut r2) = (rg(po, co, force), rg(pn, cn, force));
            if self.r.chance(1, 10) {
                self.odd_number(&mut r1)
            }
            if self.r.chance(1, 10) {
                self.odd_number(&mut r2)
            }
            let h = format!("@@ -{} +{} @@{}", r1, r2, f);
            o.extend(h.as_bytes());
            if self.r.chance(1, 8) {
                if let Some(l) = self.lit_line() {
                    o.pop();
                    o.push(b' ');
                    o.extend(l);
                }
            }
            o.extend(&body);
            let back = if self.r.chance(1, 15) { 1 } else { 0 };
            po = (po + co + self.r.below(4)).saturating_sub(back);
            pn = (pn + cn + self.r.below(4)).saturating_sub(back);
        }
        if self.r.chance(1, 8) {
            o.pop();
        }
        if self.r.chance(1, 8) {
            if let Some(l) = self.lit() {
                let p = self.r.below(o.len() + 1);
                o.splice(p..p, l);
            }
        }
        if self.r.chance(1, 6) && !o.is_empty() {
            // byte-level mutation
            for _ in 0..1 + self.r.below(3) {
                let p = self.r.below(o.len());
                match self.r.below(3) {
                    0 => {
                        o.remove(p);
                        if o.is_empty() {
                            break;
                        }
                    }
                    1 => o[p] = { const B: &[u8] = b" -+@\n\\0,1\"\tx"; B[self.r.below(B.len())] },
                    _ => o.insert(p, { const B: &[u8] = b" -+@\n\\0,1\"\tx"; B[self.r.below(B.len())] }),
                }
            }
        }
        if self.r.chance(1, 40) {
            let k = self.r.below(6) + 1;
            for _ in 0..k {
                o.extend(PIECES[self.r.below(PIECES.len())].as_bytes());
            }
        }
        o
    }

    /// base image + patch text whose hunks are derived from it, with shifted positions
    fn base_and_patch(&mut self) -> Case {
        let (alpha, a, b) = {
            let (al, a, b) = self.pair();
            let cap = if self.r.chance(1, 20) { 900 } else { 60 };
            if a.len() > cap {
                (al, a[..cap].to_vec(), b[..b.len().min(cap)].to_vec())
            } else {
                (al, a, b)
            }
        };
        let mut base = if self.r.chance(1, 3) { a.clone() } else { self.mutate(&a, alpha) };
        if self.r.chance(1, 6) {
            // the matching place lies far from the stated one
            let al = if self.r.chance(1, 2) { alpha } else { self.r.below(8) };
            let m = if self.r.chance(1, 3) { 400 } else { 40 };
            let n = self.near1(2).unwrap_or_else(|| self.r.below(m)).min(3000);
            let mut pre = self.lines(al, n);
            if self.r.chance(1, 2) {
                pre.extend(base);
                base = pre;
            } else {
                base.extend(pre);
            }
        }
        let base = self.join(&base);
        let (ta, tb) = (self.join(&a), self.join(&b));
        let mut o = diffy::DiffOptions::new();
        let ctx = self.r.below(4);
        o.set_context_len(ctx);
        let p = o.create_patch_bytes(&ta, &tb);
        let p = if self.r.chance(1, 3) { p.reverse() } else { p };
        let shift = match self.r.below(8) {
            0 => self.near1(1).map_or(self.r.below(9) as i64 - 4, |n| n as i64 * (1 - 2 * self.r.below(2) as i64)),
            1 | 2 => self.r.below(9) as i64 - 4,
            3 => self.r.below(200) as i64 - 100,
            _ => 0,
        };
        let mut text = Vec::new();
        let rng = |s: i64, l: usize| format!("{},{}", s.max(0), l);
        for h in p.hunks() {
            let jitter = if self.r.chance(1, 6) { self.r.below(3) as i64 } else { 0 };
            text.extend(
                format!(
                    "@@ -{} +{} @@\n",
                    rng(h.old_range().start() as i64 + shift + jitter, h.old_range().len()),
                    rng(h.new_range().start() as i64 + shift + jitter, h.new_range().len())
                )
                .as_bytes(),
            );
            for l in h.lines() {
                let (s, l) = match l {
                    diffy::Line::Context(l) => (b' ', l),
                    diffy::Line::Delete(l) => (b'-', l),
                    diffy::Line::Insert(l) => (b'+', l),
                };
                text.push(s);
                text.extend(*l);
                if l.last() != Some(&b'\n') {
                    text.extend(b"\n\\ No newline at end of file\n")
                }
            }
        }
        Case { t: vec![base, text], n: vec![] }
    }

    fn exhaustive(&mut self, i: usize) -> Case {
        let s = &self.small;
        match self.prop.as_str() {
            "C01" | "C02" | "C03" | "C04" => {
                let (c, i) = (i % 4, i / 4);
                Case { t: vec![s[i / s.len()].clone(), s[i % s.len()].clone()], n: vec![c] }
            }
            "C11" => Case { t: vec![s[i / s.len()].clone(), s[i % s.len()].clone()], n: vec![7, 1] },
            "C10" | "C12" => {
                let (d, i) = (i % 2, i / 2);
                let k = s.len();
                Case { t: vec![s[i / k / k].clone(), s[i / k % k].clone(), s[i % k].clone()], n: vec![7, d] }
            }
            "C05" | "C13" => {
                let k = s.len();
                Case { t: vec![s[i / k / k].clone(), s[i / k % k].clone(), s[i % k].clone()], n: vec![i % 4, 7, i % 2] }
            }
            _ => {
                let k = PIECES.len();
                let mut o = String::new();
                let mut i = i;
                let len = if i < 1 {
                    0
                } else if i < 1 + k {
                    i -= 1;
                    1
                } else if i < 1 + k + k * k {
                    i -= 1 + k;
                    2
                } else {
                    i -= 1 + k + k * k;
                    3
                };
                for _ in 0..len {
                    o.push_str(PIECES[i % k]);
                    i /= k
                }
                Case { t: vec![o.into_bytes()], n: vec![] }
            }
        }
    }

    pub fn next(&mut self) -> Option<Case> {
        // the exhaustive part is interleaved with the random part, so that a short run sees both
        if self.i < self.total && self.r.chance(2, 3) {
            let i = self.i;
            self.i += self.threads;
            return Some(self.exhaustive(i));
        }
        if self.i >= self.total {
            self.exhausted = true;
        }
        let _ = self.w;
        Some(self.random())
    }

    fn random(&mut self) -> Case {
        match self.prop.as_str() {
            "C01" | "C02" | "C03" | "C04" => {
                let (_, a, b) = self.pair();
                let t = vec![self.join(&a), self.join(&b)];
                let c = self.ctx();
                if self.prop == "C02" && self.r.chance(1, 5) {
                    return Case { t: vec![self.patch_text()], n: vec![c] };
                }
                Case { t, n: vec![c] }
            }
            "C05" | "C13" => {
                let (al, a, b) = self.pair();
                let c = if self.r.chance(1, 2) { self.mutate(&a, al) } else { self.mutate(&b, al) };
                let t3 = if self.prop == "C13" && self.r.chance(1, 4) { self.patch_text() } else { self.join(&c) };
                let t = vec![self.join(&a), self.join(&b), t3];
                let n = vec![self.ctx(), self.mlen(), self.r.below(2)];
                Case { t, n }
            }
            "C06" => Case { t: vec![self.patch_text()], n: vec![] },
            "C07" | "C14" => {
                if self.r.chance(1, 2) {
                    Case { t: vec![self.patch_text()], n: vec![] }
                } else {
                    let (_, a, b) = self.pair();
                    let t = vec![self.join(&a), self.join(&b), self.name(), self.name()];
                    let c = self.ctx();
                    Case { t, n: vec![c] }
                }
            }
            "C08" | "C09" => {
                if self.r.chance(1, 8) {
                    let n = self.r.below(8);
                    let b = self.lines(0, n);
                    let t = vec![self.join(&b), self.patch_text()];
                    Case { t, n: vec![] }
                } else {
                    self.base_and_patch()
                }
            }
            "C11" => {
                let (_, a, b) = self.pair();
                let t = vec![self.join(&a), self.join(&b)];
                let n = vec![self.mlen(), self.r.below(2)];
                Case { t, n }
            }
            _ => {
                // C10, C12
                let al = self.r.below(8);
                if self.r.chance(1, 10) {
                    let v = self.spaced(al, 2);
                    let t = v.iter().map(|l| self.join(l)).collect();
                    let n = vec![self.mlen(), self.r.below(2)];
                    return Case { t, n };
                }
                let n = self.size();
                let a = self.lines(al, n);
                let o = self.mutate(&a, al);
                let t = match self.r.below(4) {
                    0 => self.mutate(&o, al),
                    1 => o.clone(),
                    _ => self.mutate(&a, al),
                };
                let t = vec![self.join(&a), self.join(&o), self.join(&t)];
                let n = vec![self.mlen(), self.r.below(2)];
                Case { t, n }
            }
        }
    }
}

pub fn rule(prop: &str) -> String {
    let ex = match prop {
        "C01" | "C02" | "C03" | "C04" => "all pairs of texts of at most 5 lines over {a,b} with and without final newline, context 0..3",
        "C11" => "all pairs of texts of at most 5 lines over {a,b} with and without final newline",
        "C10" | "C12" => "all triples of texts of at most 3 lines over {a,b} with and without final newline, both styles",
        "C05" | "C13" => "all triples of texts of at most 3 lines over {a,empty} with and without final newline",
        "C06" => "all sequences of at most 3 lines from a fixed list of patch-syntax lines",
        _ => "none",
    };
    format!(
        "exhaustive part: {}; random part: edited pairs/triples of texts over eight line alphabets (tiny, distinct, long, control and marker-like, invalid UTF-8) of up to 3000 lines, grammar-generated patch texts, and patches applied to edited images with shifted headers; sizes, lengths and contents are also taken from the literals in the source under test that the pinned tree does not have; a case is non-trivial when the texts differ (diff, merge), both sides changed or conflict (merge regions) or at least one hunk was accepted (parser, apply)",
        ex
    )
}
