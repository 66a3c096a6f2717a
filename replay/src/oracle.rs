//! Independent reference oracles.  Nothing here calls the function under test to judge itself.
use crate::Case;
use diffy::*;

pub fn split(b: &[u8]) -> Vec<&[u8]> {
    let mut v = Vec::new();
    let mut s = 0;
    for i in 0..b.len() {
        if b[i] == b'\n' {
            v.push(&b[s..=i]);
            s = i + 1;
        }
    }
    if s < b.len() {
        v.push(&b[s..]);
    }
    v
}

fn st(b: &[u8]) -> Option<&str> {
    std::str::from_utf8(b).ok()
}

/// borrowed, type-erased hunk
#[derive(Debug, Clone, PartialEq)]
pub struct H {
    o: (usize, usize),
    n: (usize, usize),
    f: Option<Vec<u8>>,
    /// 'c' 'd' 'i'
    l: Vec<(u8, Vec<u8>)>,
}

fn hunks_b(p: &Patch<'_, [u8]>) -> Vec<H> {
    p.hunks()
        .iter()
        .map(|h| H {
            o: (h.old_range().start(), h.old_range().len()),
            n: (h.new_range().start(), h.new_range().len()),
            f: h.function_context().map(|x| x.to_vec()),
            l: h.lines()
                .iter()
                .map(|l| match l {
                    Line::Context(x) => (b'c', x.to_vec()),
                    Line::Delete(x) => (b'd', x.to_vec()),
                    Line::Insert(x) => (b'i', x.to_vec()),
                })
                .collect(),
        })
        .collect()
}
fn hunks_s(p: &Patch<'_, str>) -> Vec<H> {
    p.hunks()
        .iter()
        .map(|h| H {
            o: (h.old_range().start(), h.old_range().len()),
            n: (h.new_range().start(), h.new_range().len()),
            f: h.function_context().map(|x| x.as_bytes().to_vec()),
            l: h.lines()
                .iter()
                .map(|l| match l {
                    Line::Context(x) => (b'c', x.as_bytes().to_vec()),
                    Line::Delete(x) => (b'd', x.as_bytes().to_vec()),
                    Line::Insert(x) => (b'i', x.as_bytes().to_vec()),
                })
                .collect(),
        })
        .collect()
}

fn opts(ctx: usize) -> DiffOptions {
    let mut o = DiffOptions::new();
    o.set_context_len(ctx);
    o
}

fn first(r: (usize, usize)) -> Option<usize> {
    // 0-based index of the first line covered (or of the insertion point when empty)
    if r.1 == 0 {
        Some(r.0)
    } else {
        r.0.checked_sub(1)
    }
}

/// Strict positional reading of a patch: header positions and contents must be exact.
fn strict(a: &[u8], b: &[u8], hs: &[H]) -> Result<(), String> {
    let la = split(a);
    let lb = split(b);
    let (mut i, mut j) = (0, 0);
    for (k, h) in hs.iter().enumerate() {
        let (so, sn) = match (first(h.o), first(h.n)) {
            (Some(x), Some(y)) => (x, y),
            _ => return Err(format!("hunk {} header start 0 with nonzero length", k)),
        };
        if so < i || sn < j {
            return Err(format!("hunk {} overlaps or precedes its predecessor", k));
        }
        if so - i != sn - j {
            return Err(format!("hunk {} old/new positions are inconsistent", k));
        }
        while i < so {
            if i >= la.len() || j >= lb.len() || la[i] != lb[j] {
                return Err(format!("a line outside every hunk differs (old line {})", i));
            }
            i += 1;
            j += 1;
        }
        let (mut co, mut cn) = (0, 0);
        for (t, l) in &h.l {
            if *t != b'i' {
                if i >= la.len() || la[i] != &l[..] {
                    return Err(format!("hunk {} line does not match the original at line {}", k, i));
                }
                i += 1;
                co += 1;
            }
            if *t != b'd' {
                if j >= lb.len() || lb[j] != &l[..] {
                    return Err(format!("hunk {} line does not match the modified at line {}", k, j));
                }
                j += 1;
                cn += 1;
            }
        }
        if co != h.o.1 || cn != h.n.1 {
            return Err(format!("hunk {} header lengths {:?} {:?} but body {} {}", k, h.o, h.n, co, cn));
        }
    }
    if la[i..] != lb[j..] {
        return Err("lines after the last hunk differ".into());
    }
    Ok(())
}

fn minimal_shape(a: &[u8], b: &[u8], ctx: usize, hs: &[H]) -> Result<(), String> {
    if hs.is_empty() != (a == b) {
        return Err("no hunks iff equal is broken".into());
    }
    let n1 = split(a).len();
    let mut prev_end = 0;
    for (k, h) in hs.iter().enumerate() {
        let lead = h.l.iter().take_while(|l| l.0 == b'c').count();
        let trail = h.l.iter().rev().take_while(|l| l.0 == b'c').count();
        if lead == h.l.len() {
            return Err(format!("hunk {} contains no change", k));
        }
        let so = first(h.o).unwrap_or(0);
        let end = so + h.o.1;
        let want_lead = ctx.min(so + lead);
        let want_trail = ctx.min(n1 - (end - trail));
        if lead != want_lead {
            return Err(format!("hunk {} has {} leading context lines, expected {}", k, lead, want_lead));
        }
        if trail != want_trail {
            return Err(format!("hunk {} has {} trailing context lines, expected {}", k, trail, want_trail));
        }
        if k > 0 && so < prev_end {
            return Err(format!("hunk {} overlaps its predecessor", k));
        }
        prev_end = end;
        // two changes inside one hunk are never separated by more context than would separate hunks
        let mut run = 0usize;
        let mut seen = false;
        for l in &h.l {
            if l.0 == b'c' {
                run += 1
            } else {
                if seen && run > ctx.saturating_mul(2) {
                    return Err(format!("hunk {} has an inner run of {} context lines", k, run));
                }
                seen = true;
                run = 0
            }
        }
    }
    Ok(())
}

/// Reference application: nearest matching position, backward first.
fn ref_apply(base: &[u8], hs: &[H]) -> Result<Vec<u8>, usize> {
    let mut img: Vec<(Vec<u8>, bool)> = split(base).iter().map(|l| (l.to_vec(), false)).collect();
    for (k, h) in hs.iter().enumerate() {
        let pre: Vec<&Vec<u8>> = h.l.iter().filter(|l| l.0 != b'i').map(|l| &l.1).collect();
        let post: Vec<(Vec<u8>, bool)> =
            h.l.iter().filter(|l| l.0 != b'd').map(|l| (l.1.clone(), true)).collect();
        let want = if h.n.1 == 0 { h.n.0 } else { h.n.0.saturating_sub(1) };
        let want = want.min(img.len());
        let mut best: Option<(usize, usize)> = None; // (distance, pos)
        let mut pos = 0;
        while pos + pre.len() <= img.len() {
            let ok = (0..pre.len()).all(|t| !img[pos + t].1 && &img[pos + t].0 == pre[t]);
            if ok {
                let d = if pos > want { pos - want } else { want - pos };
                match best {
                    Some((bd, _)) if bd <= d => {}
                    _ => best = Some((d, pos)),
                }
            }
            pos += 1;
        }
        match best {
            None => return Err(k + 1),
            Some((_, p)) => {
                let tail = img.split_off(p + pre.len());
                img.truncate(p);
                img.extend(post);
                img.extend(tail);
            }
        }
    }
    Ok(img.into_iter().flat_map(|x| x.0).collect())
}

/// the numbers in an error message
fn nums(e: &dyn std::fmt::Display) -> String {
    let s = e.to_string();
    let v: Vec<&str> = s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).collect();
    v.join(" ")
}
fn app_b(base: &[u8], p: &Patch<'_, [u8]>) -> Result<Vec<u8>, String> {
    apply_bytes(base, p).map_err(|e| nums(&e))
}
fn app_s(base: &str, p: &Patch<'_, str>) -> Result<Vec<u8>, String> {
    apply(base, p).map(|x| x.into_bytes()).map_err(|e| nums(&e))
}
fn expect_apply(base: &[u8], hs: &[H]) -> Result<Vec<u8>, String> {
    ref_apply(base, hs).map_err(|k| k.to_string())
}

/// Parsed result must be accounted for by the text: reference reading of an accepted patch.
fn wellformed(hs: &[H]) -> Result<(), String> {
    let mut po = 0u128;
    let mut pn = 0u128;
    for (k, h) in hs.iter().enumerate() {
        let o = h.l.iter().filter(|l| l.0 != b'i').count();
        let n = h.l.iter().filter(|l| l.0 != b'd').count();
        if o != h.o.1 || n != h.n.1 {
            return Err(format!("hunk {}: header lengths do not match body", k));
        }
        if k > 0 && ((h.o.0 as u128) < po || (h.n.0 as u128) < pn) {
            return Err(format!("hunk {} out of order or overlapping", k));
        }
        po = h.o.0 as u128 + h.o.1 as u128;
        pn = h.n.0 as u128 + h.n.1 as u128;
    }
    Ok(())
}

/// Reference parser: line-based, written from the unified-diff grammar the crate documents.
#[derive(Debug, PartialEq, Clone)]
pub struct RP {
    o: Option<Vec<u8>>,
    n: Option<Vec<u8>>,
    h: Vec<H>,
}
fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    (0..(h.len() + 1).saturating_sub(n.len())).find(|&i| &h[i..i + n.len()] == n)
}
fn ref_name(l: &[u8]) -> Option<Vec<u8>> {
    let l = &l[4..];
    let e = match find(l, b"\t") {
        Some(i) => i,
        None => find(l, b"\n")?,
    };
    let l = &l[..e];
    let special = |c: u8| b"\n\t\0\r\"\\".contains(&c);
    if l.len() >= 2 && l[0] == b'"' && l[l.len() - 1] == b'"' {
        let l = &l[1..l.len() - 1];
        let mut o = vec![];
        let mut i = 0;
        while i < l.len() {
            if l[i] == b'\\' {
                i += 1;
                o.push(match l.get(i)? {
                    b'n' => b'\n',
                    b't' => b'\t',
                    b'0' => 0,
                    b'r' => b'\r',
                    b'"' => b'"',
                    b'\\' => b'\\',
                    _ => return None,
                });
            } else if special(l[i]) {
                return None;
            } else {
                o.push(l[i])
            }
            i += 1;
        }
        Some(o)
    } else if l.iter().any(|c| special(*c)) {
        None
    } else {
        Some(l.to_vec())
    }
}
fn ref_num(l: &[u8]) -> Option<usize> {
    st(l)?.parse().ok()
}
fn ref_range(l: &[u8]) -> Option<(usize, usize)> {
    let r = match find(l, b",") {
        Some(i) => (ref_num(&l[..i])?, ref_num(&l[i + 1..])?),
        None => (ref_num(l)?, 1),
    };
    r.0.checked_add(r.1)?;
    Some(r)
}
pub fn ref_parse(s: &[u8]) -> Option<RP> {
    let ls = split(s);
    let mut i = 0;
    let head = |l: &[u8]| l.starts_with(b"--- ") || l.starts_with(b"+++ ");
    while i < ls.len() && !head(ls[i]) && !ls[i].starts_with(b"@@ ") {
        i += 1
    }
    let mut p = RP { o: None, n: None, h: vec![] };
    while i < ls.len() && head(ls[i]) {
        let slot = if ls[i][0] == b'-' { &mut p.o } else { &mut p.n };
        if slot.is_some() {
            return None;
        }
        *slot = Some(ref_name(ls[i])?);
        i += 1;
    }
    while i < ls.len() {
        let h = ls[i].strip_prefix(b"@@ ")?;
        i += 1;
        let e = find(h, b" @@")?;
        let (r, f) = (&h[..e], &h[e + 3..]);
        let f = f.strip_prefix(b" ").map(|f| f.strip_suffix(b"\n").unwrap_or(f).to_vec());
        let sp = find(r, b" ")?;
        let o = ref_range(r[..sp].strip_prefix(b"-")?)?;
        let n = ref_range(r[sp + 1..].strip_prefix(b"+")?)?;
        let mut l: Vec<(u8, Vec<u8>)> = vec![];
        let (mut nc, mut nd, mut ni) = (false, false, false);
        while i < ls.len() && ls[i][0] != b'@' {
            if nc {
                return None;
            }
            let x = ls[i];
            match x[0] {
                b' ' => l.push((b'c', x[1..].to_vec())),
                b'\n' => l.push((b'c', x.to_vec())),
                b'-' if !nd => l.push((b'd', x[1..].to_vec())),
                b'+' if !ni => l.push((b'i', x[1..].to_vec())),
                b'\\' if x.starts_with(b"\\ No newline at end of file") => {
                    let q = l.last_mut()?;
                    q.1 = q.1.strip_suffix(b"\n")?.to_vec();
                    match q.0 {
                        b'c' => nc = true,
                        b'd' => nd = true,
                        _ => ni = true,
                    }
                }
                _ => return None,
            }
            i += 1;
        }
        p.h.push(H { o, n, f, l });
    }
    if wellformed(&p.h).is_err() {
        return None;
    }
    Some(p)
}

fn rp_b(p: &Patch<'_, [u8]>) -> RP {
    RP { o: p.original().map(|x| x.to_vec()), n: p.modified().map(|x| x.to_vec()), h: hunks_b(p) }
}
fn rp_s(p: &Patch<'_, str>) -> RP {
    RP {
        o: p.original().map(|x| x.as_bytes().to_vec()),
        n: p.modified().map(|x| x.as_bytes().to_vec()),
        h: hunks_s(p),
    }
}

/// edit script (old range, new range) from a zero-context patch
fn edits(a: &[u8], b: &[u8]) -> Vec<(usize, usize, usize, usize)> {
    let p = opts(0).create_patch_bytes(a, b);
    hunks_b(&p)
        .iter()
        .map(|h| (first(h.o).unwrap(), h.o.1, first(h.n).unwrap(), h.n.1))
        .collect()
}

/// one region: ancestor, ours, theirs line ranges
struct Region {
    stable: bool,
    a: (usize, usize),
    o: (usize, usize),
    t: (usize, usize),
}
fn keep(n: usize, e: &[(usize, usize, usize, usize)]) -> Vec<Option<usize>> {
    // for each ancestor line: its index on the other side if kept
    let mut v = Vec::new();
    let mut j = 0;
    let mut k = 0;
    let mut i = 0;
    while i < n {
        if k < e.len() && e[k].0 == i && e[k].1 > 0 {
            for _ in 0..e[k].1 {
                v.push(None)
            }
            i += e[k].1;
            j += e[k].3;
            k += 1;
            continue;
        }
        if k < e.len() && e[k].0 == i {
            j += e[k].3;
            k += 1;
        }
        v.push(Some(j));
        i += 1;
        j += 1;
    }
    v
}
fn regions(a: &[u8], o: &[u8], t: &[u8]) -> Vec<Region> {
    let n = split(a).len();
    let ko = keep(n, &edits(a, o));
    let kt = keep(n, &edits(a, t));
    let (no, nt) = (split(o).len(), split(t).len());
    let mut r = vec![];
    let (mut pa, mut po, mut pt) = (0, 0, 0);
    for i in 0..=n {
        let (x, y) = if i == n {
            (no, nt)
        } else {
            match (ko[i], kt[i]) {
                (Some(x), Some(y)) => (x, y),
                _ => continue,
            }
        };
        if pa < i || po < x || pt < y {
            r.push(Region { stable: false, a: (pa, i), o: (po, x), t: (pt, y) });
        }
        if i < n {
            r.push(Region { stable: true, a: (i, i + 1), o: (x, x + 1), t: (y, y + 1) });
        }
        pa = i + 1;
        po = x + 1;
        pt = y + 1;
    }
    r
}
fn marker(out: &mut Vec<u8>, c: u8, len: usize, name: Option<&str>) {
    if !out.is_empty() && out[out.len() - 1] != b'\n' {
        out.push(b'\n')
    }
    out.extend(std::iter::repeat(c).take(len));
    if let Some(n) = name {
        out.push(b' ');
        out.extend(n.as_bytes());
    }
    out.push(b'\n');
}
fn ref_merge(a: &[u8], o: &[u8], t: &[u8], len: usize, diff3: bool) -> Result<Vec<u8>, Vec<u8>> {
    let (la, lo, lt) = (split(a), split(o), split(t));
    let mut out = vec![];
    let mut conflict = false;
    for r in regions(a, o, t) {
        let (sa, so, s_t) = (&la[r.a.0..r.a.1], &lo[r.o.0..r.o.1], &lt[r.t.0..r.t.1]);
        if r.stable {
            out.extend(sa.concat())
        } else if so == s_t || s_t == sa {
            out.extend(so.concat())
        } else if so == sa {
            out.extend(s_t.concat())
        } else {
            conflict = true;
            marker(&mut out, b'<', len, Some("ours"));
            out.extend(so.concat());
            if diff3 {
                marker(&mut out, b'|', len, Some("original"));
                out.extend(sa.concat());
            }
            marker(&mut out, b'=', len, None);
            out.extend(s_t.concat());
            marker(&mut out, b'>', len, Some("theirs"));
        }
    }
    if conflict {
        Err(out)
    } else {
        Ok(out)
    }
}
fn mopts(len: usize, diff3: bool) -> MergeOptions {
    let mut m = MergeOptions::new();
    m.set_conflict_marker_length(len);
    m.set_conflict_style(if diff3 { ConflictStyle::Diff3 } else { ConflictStyle::Merge });
    m
}
fn by(r: Result<String, String>) -> Result<Vec<u8>, Vec<u8>> {
    r.map(|x| x.into_bytes()).map_err(|x| x.into_bytes())
}
fn show<T: std::fmt::Debug>(x: T) -> String {
    let s = format!("{:?}", x);
    s.chars().take(400).collect()
}
fn mshow(r: &Result<Vec<u8>, Vec<u8>>) -> String {
    match r {
        Ok(x) => format!("Ok({})", crate::esc(x)),
        Err(x) => format!("Err({})", crate::esc(x)),
    }
}

fn strip_ansi(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == 0x1b && b.get(i + 1) == Some(&b'[') {
            let mut j = i + 2;
            while j < b.len() && (b[j].is_ascii_digit() || b[j] == b';') {
                j += 1
            }
            if b.get(j) == Some(&b'm') {
                i = j + 1;
                continue;
            }
        }
        o.push(b[i]);
        i += 1;
    }
    o
}

/// reference formatter (no colour)
fn ref_fmt(p: &RP, msg: bool, suppress: bool) -> Vec<u8> {
    fn name(n: &[u8]) -> Vec<u8> {
        let e = |c: u8| -> Option<u8> {
            Some(match c {
                b'\n' => b'n',
                b'\t' => b't',
                0 => b'0',
                b'\r' => b'r',
                b'"' => b'"',
                b'\\' => b'\\',
                _ => return None,
            })
        };
        if n.iter().any(|c| e(*c).is_some()) {
            let mut o = vec![b'"'];
            for c in n {
                match e(*c) {
                    Some(x) => {
                        o.push(b'\\');
                        o.push(x)
                    }
                    None => o.push(*c),
                }
            }
            o.push(b'"');
            o
        } else {
            n.to_vec()
        }
    }
    fn rng(r: (usize, usize)) -> String {
        if r.1 == 1 {
            format!("{}", r.0)
        } else {
            format!("{},{}", r.0, r.1)
        }
    }
    let mut o = vec![];
    for (s, n) in [("--- ", &p.o), ("+++ ", &p.n)] {
        if let Some(n) = n {
            o.extend(s.as_bytes());
            o.extend(name(n));
            o.push(b'\n');
        }
    }
    for h in &p.h {
        o.extend(format!("@@ -{} +{} @@", rng(h.o), rng(h.n)).as_bytes());
        if let Some(f) = &h.f {
            o.push(b' ');
            o.extend(f);
        }
        o.push(b'\n');
        for (t, l) in &h.l {
            if !(suppress && *t == b'c' && l == b"\n") {
                o.push(match t {
                    b'c' => b' ',
                    b'd' => b'-',
                    _ => b'+',
                });
            }
            o.extend(l);
            if l.last() != Some(&b'\n') {
                o.push(b'\n');
                if msg {
                    o.extend(b"\\ No newline at end of file\n");
                }
            }
        }
    }
    o
}

fn flip(h: &H) -> H {
    H {
        o: h.n,
        n: h.o,
        f: h.f.clone(),
        l: h.l
            .iter()
            .map(|(t, l)| {
                (
                    match t {
                        b'd' => b'i',
                        b'i' => b'd',
                        x => *x,
                    },
                    l.clone(),
                )
            })
            .collect(),
    }
}

fn fmts(k: usize) -> PatchFormatter {
    let f = PatchFormatter::new().missing_newline_message(k & 1 == 0).suppress_blank_empty(k & 2 == 0);
    if k & 4 != 0 {
        f.with_color()
    } else {
        f
    }
}

/// bytes and string output of the same patch under every setting
fn same_print(pb: &Patch<'_, [u8]>, ps: &Patch<'_, str>, what: &str) -> Result<(), String> {
    if pb.to_bytes() != ps.to_string().into_bytes() {
        return Err(format!("{}: formatted patches differ", what));
    }
    for k in 0..8 {
        let f = fmts(k);
        let (x, y) = (written(&f, pb)?, written(&f, ps)?);
        let z = f.fmt_patch(ps).to_string().into_bytes();
        if x != y || x != z {
            return Err(format!("{}: the string and byte output differ (setting {}): {} / {}", what, k, crate::esc(&x), crate::esc(&z)));
        }
    }
    Ok(())
}

/// every style that is switched on is switched off again before the next one and before the end
fn balanced(b: &[u8]) -> bool {
    let mut on = false;
    let mut i = 0;
    while i < b.len() {
        if b[i] == 0x1b {
            let mut j = i + 1;
            while j < b.len() && b[j] != b'm' {
                j += 1
            }
            let reset = &b[i..(j + 1).min(b.len())] == b"\x1b[0m";
            if reset != on {
                return false;
            }
            on = !reset;
            i = j;
        }
        i += 1;
    }
    !on
}

macro_rules! ensure {
    ($c:expr, $($m:tt)*) => { if !$c { return Err(format!($($m)*)); } };
}

/// the options hold `Cow<'static, str>`; no patch made from them outlives the case that owns the name
fn forever(s: &str) -> &'static str {
    unsafe { std::mem::transmute::<&str, &'static str>(s) }
}

fn name_opts(ctx: usize, n1: &str, n2: &str) -> DiffOptions {
    let mut o = opts(ctx);
    // borrowed and owned names take different ways
    if n1.len() % 2 == 0 {
        o.set_original_filename(forever(n1));
    } else {
        o.set_original_filename(n1.to_string());
    }
    if n2.len() % 2 == 1 {
        o.set_modified_filename(forever(n2));
    } else {
        o.set_modified_filename(n2.to_string());
    }
    o
}

/// a writer that takes little at a time, is interrupted now and then, and fails when it is full
struct Slow {
    got: Vec<u8>,
    calls: usize,
    room: usize,
}
impl std::io::Write for Slow {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.calls % 7 == 3 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        if b.is_empty() {
            return Ok(0);
        }
        if self.got.len() >= self.room {
            return Err(std::io::ErrorKind::Other.into());
        }
        let n = b.len().min(1 + self.calls % 3).min(self.room - self.got.len());
        self.got.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// write_patch_into, through a well-behaved writer and (for short patches) through `Slow`
fn written<T: ToOwned + AsRef<[u8]> + ?Sized>(f: &PatchFormatter, p: &Patch<'_, T>) -> Result<Vec<u8>, String> {
    let mut v = Vec::new();
    f.write_patch_into(p, &mut v).map_err(|e| e.to_string())?;
    if v.len() < 600 {
        let mut s = Slow { got: vec![], calls: 0, room: usize::MAX };
        let r = f.write_patch_into(p, &mut s);
        ensure!(r.is_ok() && s.got == v, "a writer that takes little at a time gets {} ({:?}) instead of {}", crate::esc(&s.got), r.is_ok(), crate::esc(&v));
        let room = v.len() * 5 / 7;
        if room < v.len() {
            let mut s = Slow { got: vec![], calls: 0, room };
            let r = f.write_patch_into(p, &mut s);
            ensure!(r.is_err() && v.starts_with(&s.got), "a writer that fails after {} bytes: reported {:?}, got {}", room, r.is_ok(), crate::esc(&s.got));
        }
    }
    Ok(v)
}


fn roundtrip_b(p: &Patch<'_, [u8]>, what: &str) -> Result<(), String> {
    for suppress in [true, false] {
        let mut text = Vec::new();
        PatchFormatter::new().suppress_blank_empty(suppress).write_patch_into(p, &mut text).map_err(|e| e.to_string())?;
        match Patch::from_bytes(&text) {
            Ok(q) => ensure!(rp_b(&q) == rp_b(p) && q == *p, "{}: bytes parse(format(p)) != p (suppress={}): {}", what, suppress, crate::esc(&text)),
            Err(e) => return Err(format!("{}: bytes formatted patch is rejected: {} in {}", what, e, crate::esc(&text))),
        }
    }
    Ok(())
}
fn roundtrip_s(p: &Patch<'_, str>, what: &str) -> Result<(), String> {
    for suppress in [true, false] {
        let f = PatchFormatter::new().suppress_blank_empty(suppress);
        let text = f.fmt_patch(p).to_string();
        match Patch::from_str(&text) {
            Ok(q) => ensure!(rp_s(&q) == rp_s(p) && q == *p, "{}: parse(format(p)) != p (suppress={}): {:?}", what, suppress, text),
            Err(e) => return Err(format!("{}: formatted patch is rejected: {} in {:?}", what, e, text)),
        }
        let w = written(&f, p)?;
        match st(&w).map(Patch::from_str) {
            Some(Ok(q)) => ensure!(q == *p, "{}: parse(write_patch_into(p)) != p: {}", what, crate::esc(&w)),
            _ => return Err(format!("{}: written patch is rejected: {}", what, crate::esc(&w))),
        }
    }
    Ok(())
}

/// patches under test for formatter properties: created from t[0],t[1] with names t[2],t[3], or parsed from t[0]
fn with_patches(
    c: &Case,
    fb: &mut dyn FnMut(&Patch<'_, [u8]>, &str) -> Result<(), String>,
    fs: &mut dyn FnMut(&Patch<'_, str>, &str) -> Result<(), String>,
) -> Result<bool, String> {
    if c.t.len() == 1 {
        let mut nt = false;
        if let Ok(p) = Patch::from_bytes(&c.t[0]) {
            nt = !p.hunks().is_empty();
            fb(&p, "parsed")?;
            fb(&p.reverse(), "parsed reversed")?;
        }
        if let Some(s) = st(&c.t[0]) {
            if let Ok(p) = Patch::from_str(s) {
                fs(&p, "parsed")?;
                fs(&p.reverse(), "parsed reversed")?;
            }
        }
        Ok(nt)
    } else {
        let (a, b) = (&c.t[0][..], &c.t[1][..]);
        let n1 = String::from_utf8_lossy(&c.t[2]).to_string();
        let n2 = String::from_utf8_lossy(&c.t[3]).to_string();
        let o = name_opts(c.n[0], &n1, &n2);
        let p = o.create_patch_bytes(a, b);
        ensure!(p.original() == Some(n1.as_bytes()) && p.modified() == Some(n2.as_bytes()), "filenames lost");
        fb(&p, "created")?;
        fb(&p.reverse(), "created reversed")?;
        if let (Some(a), Some(b)) = (st(a), st(b)) {
            let p = o.create_patch(a, b);
            ensure!(p.original() == Some(&n1[..]) && p.modified() == Some(&n2[..]), "filenames lost");
            fs(&p, "created")?;
            fs(&p.reverse(), "created reversed")?;
        }
        Ok(a != b)
    }
}

/// the accessors of every hunk header agree with each other
fn ranges<T: ?Sized + ToOwned>(p: &Patch<'_, T>) -> Result<(), String> {
    for h in p.hunks() {
        for r in [h.old_range(), h.new_range()] {
            ensure!(
                r.end().checked_sub(r.start()) == Some(r.len()) && r.range() == (r.start()..r.end()) && r.is_empty() == (r.len() == 0),
                "range {:?}: start {} len {} end {} range {:?} is_empty {}", r, r.start(), r.len(), r.end(), r.range(), r.is_empty()
            );
        }
    }
    Ok(())
}

pub fn check(prop: &str, c: &Case) -> Result<bool, String> {
    match prop {
        "C02" if c.t.len() == 1 => {
            // reversing a parsed patch
            let mut nt = false;
            if let Ok(p) = Patch::from_bytes(&c.t[0]) {
                nt = !p.hunks().is_empty();
                let rv = p.reverse();
                ensure!(hunks_b(&rv) == hunks_b(&p).iter().map(flip).collect::<Vec<_>>(), "reverse is not the mirrored patch");
                ensure!(rv.original() == p.modified() && rv.modified() == p.original(), "reverse does not swap file names");
                ensure!(rv.reverse() == p, "reverse(reverse(p)) != p");
                ensure!(p.clone() == p && p.clone().reverse() == rv, "a cloned patch is not the patch");
            }
            if let Some(Ok(p)) = st(&c.t[0]).map(Patch::from_str) {
                let rv = p.reverse();
                ensure!(hunks_s(&rv) == hunks_s(&p).iter().map(flip).collect::<Vec<_>>(), "reverse is not the mirrored patch (str)");
                ensure!(rv.original() == p.modified() && rv.modified() == p.original(), "reverse does not swap file names (str)");
                ensure!(rv.reverse() == p, "reverse(reverse(p)) != p (str)");
            }
            Ok(nt)
        }
        "C01" | "C02" | "C03" | "C04" => {
            let (a, b, ctx) = (&c.t[0][..], &c.t[1][..], c.n[0]);
            let o = opts(ctx);
            let pb = o.create_patch_bytes(a, b);
            let s = st(a).zip(st(b));
            let ps = s.map(|(x, y)| o.create_patch(x, y));
            match prop {
                "C01" => {
                    let r = app_b(a, &pb);
                    ensure!(r.as_deref() == Ok(b), "apply_bytes(a, create_patch_bytes(a,b)) = {}", show(r.map(|x| crate::esc(&x))));
                    if let (Some(p), Some((x, _))) = (&ps, s) {
                        let r = app_s(x, p);
                        ensure!(r.as_deref() == Ok(b), "apply(a, create_patch(a,b)) = {}", show(r.map(|x| crate::esc(&x))));
                    }
                    // the same after printing and re-parsing is C07's business
                }
                "C02" => {
                    let r = app_b(b, &pb.reverse());
                    ensure!(r.as_deref() == Ok(a), "apply_bytes(b, reverse) = {}", show(r.map(|x| crate::esc(&x))));
                    if let (Some(p), Some((_, y))) = (&ps, s) {
                        let r = app_s(y, &p.reverse());
                        ensure!(r.as_deref() == Ok(a), "apply(b, reverse) = {}", show(r.map(|x| crate::esc(&x))));
                        let rv = p.reverse();
                        ensure!(hunks_s(&rv) == hunks_s(p).iter().map(flip).collect::<Vec<_>>(), "reverse is not the mirrored patch (str)");
                        ensure!(rv.original() == p.modified() && rv.modified() == p.original(), "reverse does not swap file names (str)");
                        ensure!(rv.reverse() == *p, "reverse(reverse(p)) != p (str)");
                    }
                    // reverse is structural
                    let h = hunks_b(&pb);
                    let hr = hunks_b(&pb.reverse());
                    ensure!(hr == h.iter().map(flip).collect::<Vec<_>>(), "reverse is not the mirrored patch");
                    let rv = pb.reverse();
                    ensure!(rv.original() == pb.modified() && rv.modified() == pb.original(), "reverse does not swap file names");
                    ensure!(rv.reverse() == pb, "reverse(reverse(p)) != p");
                    ensure!(pb.clone() == pb && pb.clone().reverse() == rv, "a cloned patch is not the patch");
                }
                "C03" => {
                    ranges(&pb)?;
                    strict(a, b, &hunks_b(&pb)).map_err(|e| format!("bytes: {}", e))?;
                    if let Some(p) = &ps {
                        strict(a, b, &hunks_s(p)).map_err(|e| format!("str: {}", e))?;
                    }
                }
                _ => {
                    minimal_shape(a, b, ctx, &hunks_b(&pb)).map_err(|e| format!("bytes: {}", e))?;
                    if let Some(p) = &ps {
                        minimal_shape(a, b, ctx, &hunks_s(p)).map_err(|e| format!("str: {}", e))?;
                    }
                }
            }
            Ok(a != b)
        }
        "C05" => {
            // totality: only panics / hangs / overflow count
            let (a, b, t, ctx) = (&c.t[0][..], &c.t[1][..], &c.t[2][..], c.n[0]);
            let o = opts(ctx);
            let p = o.create_patch_bytes(a, b);
            let _ = apply_bytes(t, &p);
            let _ = apply_bytes(t, &p.reverse());
            let _ = p.to_bytes();
            for k in 0..8 {
                let f = fmts(k);
                let _ = f.write_patch_into(&p, &mut Vec::new());
                let _ = f.write_patch_into(&p.reverse(), &mut Vec::new());
            }
            let _ = mopts(c.n[1], c.n[2] == 1).merge_bytes(a, b, t);
            let _ = merge_bytes(a, b, t);
            let _ = create_patch_bytes(a, b);
            if let (Some(a), Some(b), Some(t)) = (st(a), st(b), st(t)) {
                let p = o.create_patch(a, b);
                let _ = apply(t, &p);
                let _ = apply(t, &p.reverse());
                let _ = p.to_string();
                let _ = format!("{:?}", p);
                for k in 0..8 {
                    let f = fmts(k);
                    let _ = f.fmt_patch(&p).to_string();
                    let _ = f.fmt_patch(&p.reverse()).to_string();
                }
                let _ = mopts(c.n[1], c.n[2] == 1).merge(a, b, t);
                let _ = merge(a, b, t);
                let _ = create_patch(a, b);
            }
            Ok(a != b)
        }
        "C06" => {
            let s = &c.t[0][..];
            let want = ref_parse(s);
            let got = Patch::from_bytes(s);
            if let Ok(p) = &got {
                let _ = p.to_bytes();
                wellformed(&hunks_b(p))?;
                ranges(p)?;
                ensure!(want.as_ref() == Some(&rp_b(p)), "from_bytes accepted but misread: {}", show(rp_b(p)));
            } else {
                ensure!(want.is_none(), "from_bytes rejects a well-formed patch: {}", got.err().unwrap());
            }
            if let Some(x) = st(s) {
                match Patch::from_str(x) {
                    Ok(p) => {
                        let _ = p.to_string();
                        wellformed(&hunks_s(&p))?;
                        ensure!(want.as_ref() == Some(&rp_s(&p)), "from_str accepted but misread: {}", show(rp_s(&p)));
                    }
                    Err(e) => ensure!(want.is_none(), "from_str rejects a well-formed patch: {}", e),
                }
            }
            Ok(want.map_or(false, |p| !p.h.is_empty()))
        }
        "C07" => with_patches(c, &mut |p, w| roundtrip_b(p, w), &mut |p, w| roundtrip_s(p, w)),
        "C14" => with_patches(
            c,
            &mut |p, w| {
                let r = rp_b(p);
                for k in 0..4 {
                    let (m, s) = (k & 1 == 1, k & 2 == 2);
                    let want = ref_fmt(&r, m, s);
                    let plain = written(&PatchFormatter::new().missing_newline_message(m).suppress_blank_empty(s), p)?;
                    ensure!(plain == want, "{}: written {} expected {}", w, crate::esc(&plain), crate::esc(&want));
                    if !want.contains(&0x1b) {
                        let col = written(&PatchFormatter::new().with_color().missing_newline_message(m).suppress_blank_empty(s), p)?;
                        ensure!(strip_ansi(&col) == want, "{}: colour changes the text: {}", w, crate::esc(&col));
                        ensure!(balanced(&col), "{}: a style is not reset: {}", w, crate::esc(&col));
                        ensure!(r.h.is_empty() || col.contains(&0x1b), "{}: colour adds nothing", w);
                    }
                }
                ensure!(p.to_bytes() == ref_fmt(&r, true, true), "{}: to_bytes differs from the default format", w);
                Ok(())
            },
            &mut |p, w| {
                let r = rp_s(p);
                for k in 0..4 {
                    let (m, s) = (k & 1 == 1, k & 2 == 2);
                    let want = ref_fmt(&r, m, s);
                    let plain = PatchFormatter::new().missing_newline_message(m).suppress_blank_empty(s).fmt_patch(p).to_string();
                    ensure!(plain.as_bytes() == &want[..], "{}: printed {:?} expected {}", w, plain, crate::esc(&want));
                    if !want.contains(&0x1b) {
                        let col = PatchFormatter::new().with_color().missing_newline_message(m).suppress_blank_empty(s).fmt_patch(p).to_string();
                        ensure!(strip_ansi(col.as_bytes()) == want, "{}: colour changes the text: {:?}", w, col);
                        ensure!(balanced(col.as_bytes()), "{}: a style is not reset: {:?}", w, col);
                        ensure!(r.h.is_empty() || col.contains('\x1b'), "{}: colour adds nothing", w);
                    }
                }
                ensure!(p.to_string().as_bytes() == &ref_fmt(&r, true, true)[..] && p.to_bytes() == p.to_string().into_bytes(), "{}: to_string/to_bytes differ from the default format", w);
                Ok(())
            },
        ),
        "C08" | "C09" => {
            // t[0] base image, t[1] patch text
            let base = &c.t[0][..];
            let mut nt = false;
            let go = |hs: &[H], got: Result<Vec<u8>, String>, w: &str| -> Result<(), String> {
                let want = expect_apply(base, hs);
                if prop == "C09" {
                    ensure!(got == want, "{}: got {} expected {}", w, show(got.map(|x| crate::esc(&x))), show(want.map(|x| crate::esc(&x))));
                } else if let Ok(g) = &got {
                    ensure!(sound(base, hs, g), "{}: result {} is not the base with each hunk's old lines replaced by its new lines", w, crate::esc(g));
                }
                Ok(())
            };
            if let Ok(p) = Patch::from_bytes(&c.t[1]) {
                let hs = hunks_b(&p);
                nt = !hs.is_empty();
                go(&hs, app_b(base, &p), "apply_bytes")?;
            }
            if let (Some(x), Some(y)) = (st(base), st(&c.t[1])) {
                if let Ok(p) = Patch::from_str(y) {
                    go(&hunks_s(&p), app_s(x, &p), "apply")?;
                }
            }
            Ok(nt)
        }
        "C10" | "C12" => {
            let (a, o, t) = (&c.t[0][..], &c.t[1][..], &c.t[2][..]);
            let d3 = c.n[1] == 1;
            let want = ref_merge(a, o, t, c.n[0], d3);
            let got = mopts(c.n[0], d3).merge_bytes(a, o, t);
            let chk = |got: &Result<Vec<u8>, Vec<u8>>, w: &str| -> Result<(), String> {
                if prop == "C10" {
                    ensure!(got.is_ok() == want.is_ok(), "{}: {} but reference {}", w, mshow(got), mshow(&want));
                    if want.is_ok() {
                        ensure!(*got == want, "{}: {} expected {}", w, mshow(got), mshow(&want));
                    }
                } else {
                    ensure!(*got == want, "{}: {} expected {}", w, mshow(got), mshow(&want));
                }
                Ok(())
            };
            chk(&got, "merge_bytes")?;
            if let (Some(a), Some(o), Some(t)) = (st(a), st(o), st(t)) {
                chk(&by(mopts(c.n[0], d3).merge(a, o, t)), "merge")?;
            }
            if c.n[0] == 7 && d3 {
                chk(&merge_bytes(a, o, t), "merge_bytes()")?;
            }
            Ok(want.is_err() || (o != a && t != a))
        }
        "C11" => {
            let (a, b) = (&c.t[0][..], &c.t[1][..]);
            let m = mopts(c.n[0], c.n[1] == 1);
            let e: Result<Vec<u8>, Vec<u8>> = Ok(b.to_vec());
            for (w, o, t) in [("ours unchanged", a, b), ("theirs unchanged", b, a), ("same change", b, b)] {
                let g = m.merge_bytes(a, o, t);
                ensure!(g == e, "merge_bytes, {}: {}", w, mshow(&g));
                if let (Some(a), Some(o), Some(t)) = (st(a), st(o), st(t)) {
                    let g = by(m.merge(a, o, t));
                    ensure!(g == e, "merge, {}: {}", w, mshow(&g));
                }
            }
            Ok(a != b)
        }
        "C13" => {
            let (a, b, t) = (&c.t[0][..], &c.t[1][..], &c.t[2][..]);
            let (sa, sb, s_t) = match (st(a), st(b), st(t)) {
                (Some(a), Some(b), Some(t)) => (a, b, t),
                _ => return Ok(false),
            };
            const NAMES: &[&str] = &["a", "b.txt", " a b ", "x\n", "\t", "q\"", "\\", "\u{e9}", "/dev/null", "n\0", "\u{1}", "\u{1b}[m", "\u{7f}", "\u{85}x", "a\u{8}", "\u{b}", "'", "a,b", "%24", "\u{1f600}",  "r\r", "", "\u{2028}", "a/b\u{a0}"];
            let (i, j) = (a.len() + 3 * b.len(), 5 * a.len() + t.len());
            let o = name_opts(c.n[0], NAMES[i % NAMES.len()], NAMES[j % NAMES.len()]);
            if i % 8 == 0 {
                ensure!(rp_b(&diffy::create_patch_bytes(a, b)) == rp_s(&diffy::create_patch(sa, sb)), "the default create_patch and create_patch_bytes differ");
                ensure!(by(diffy::merge(sa, sb, s_t)) == diffy::merge_bytes(a, b, t), "the default merge and merge_bytes differ");
            }
            let (pb, ps) = (o.create_patch_bytes(a, b), o.create_patch(sa, sb));
            ensure!(rp_b(&pb) == rp_s(&ps), "create_patch and create_patch_bytes differ");
            same_print(&pb, &ps, "created")?;
            ensure!(rp_b(&pb.reverse()) == rp_s(&ps.reverse()), "the reversed patches differ");
            ensure!(app_b(t, &pb) == app_s(s_t, &ps), "apply and apply_bytes differ");
            ensure!(app_b(t, &pb.reverse()) == app_s(s_t, &ps.reverse()), "apply and apply_bytes differ on the reverse");
            let m = mopts(c.n[1], c.n[2] == 1);
            ensure!(by(m.merge(sa, sb, s_t)) == m.merge_bytes(a, b, t), "merge and merge_bytes differ");
            // parser: on the formatted patch, and on t taken as patch text
            for x in [ps.to_string(), s_t.to_string()] {
                let r1 = Patch::from_str(&x).map(|p| rp_s(&p)).map_err(|_| "rejected".to_string());
                let r2 = Patch::from_bytes(x.as_bytes()).map(|p| rp_b(&p)).map_err(|_| "rejected".to_string());
                ensure!(r1 == r2, "from_str and from_bytes differ: {} / {}", show(r1), show(r2));
                if let (Ok(ps), Ok(pb)) = (Patch::from_str(&x), Patch::from_bytes(x.as_bytes())) {
                    same_print(&pb, &ps, "parsed")?;
                    ensure!(rp_b(&pb.reverse()) == rp_s(&ps.reverse()), "the reversed patches differ");
                    ensure!(app_b(a, &pb) == app_s(sa, &ps), "apply and apply_bytes differ on a parsed patch");
                    ensure!(app_b(b, &pb.reverse()) == app_s(sb, &ps.reverse()), "apply and apply_bytes differ on a reversed parsed patch");
                }
            }
            Ok(a != b)
        }
        _ => Err(format!("unknown property {}", prop)),
    }
}

/// C08: is `got` the base with disjoint, verbatim-matching, in-image segments replaced, one per hunk?
/// Searches over all placements (independent of where the code put them).
fn sound(base: &[u8], hs: &[H], got: &[u8]) -> bool {
    // image as a list of (line, patched); depth-first over placements
    fn go(img: &mut Vec<(Vec<u8>, bool)>, hs: &[H], got: &[u8], budget: &mut usize) -> bool {
        let cost = 1 + img.iter().map(|x| 1 + x.0.len() / 16).sum::<usize>();
        if *budget < cost {
            return true; // undecided within budget: never an alarm
        }
        *budget -= cost;
        if hs.is_empty() {
            return img.iter().flat_map(|x| x.0.iter().copied()).eq(got.iter().copied());
        }
        let h = &hs[0];
        let pre: Vec<&Vec<u8>> = h.l.iter().filter(|l| l.0 != b'i').map(|l| &l.1).collect();
        let post: Vec<(Vec<u8>, bool)> =
            h.l.iter().filter(|l| l.0 != b'd').map(|l| (l.1.clone(), true)).collect();
        let mut pos = 0;
        while pos + pre.len() <= img.len() {
            if (0..pre.len()).all(|t| !img[pos + t].1 && &img[pos + t].0 == pre[t]) {
                let mut n = img[..pos].to_vec();
                n.extend(post.iter().cloned());
                n.extend(img[pos + pre.len()..].iter().cloned());
                if go(&mut n, &hs[1..], got, budget) {
                    return true;
                }
            }
            pos += 1;
        }
        false
    }
    // the usual case: the nearest placements give exactly this result
    if ref_apply(base, hs).as_deref() == Ok(got) {
        return true;
    }
    let mut img: Vec<(Vec<u8>, bool)> = split(base).iter().map(|l| (l.to_vec(), false)).collect();
    let mut budget = 2_000_000;
    go(&mut img, hs, got, &mut budget)
}
