//! Literals of the code under test, as a fuzzing dictionary: a condition on a size, a length or a
//! content that the code makes is met by the generated cases.
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    pub nums: Vec<usize>,
    pub strs: Vec<Vec<u8>>,
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let root = std::env::var("REPLAY_SRC").unwrap_or_else(|_| "/repo/src".into());
        let mut d = Dict::default();
        walk(std::path::Path::new(&root), &mut d);
        d.nums.sort();
        d.nums.dedup();
        d.strs.sort();
        d.strs.dedup();
        // what the code has always contained is covered by the fixed alphabets of gen.rs
        let base: Vec<&[u8]> = include_bytes!("dict_base.txt").split(|b| *b == b'\x1e').collect();
        d.strs.retain(|x| !base.contains(&&x[..]));
        d
    })
}

fn walk(p: &std::path::Path, d: &mut Dict) {
    let Ok(rd) = std::fs::read_dir(p) else { return };
    let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    es.sort();
    for e in es {
        if e.is_dir() {
            walk(&e, d)
        } else if e.extension().map_or(false, |x| x == "rs") && e.file_stem().map_or(false, |x| x != "tests") {
            if let Ok(t) = std::fs::read_to_string(&e) {
                scan(&t, d)
            }
        }
    }
}

fn unescape(s: &str) -> Vec<u8> {
    let c: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut b = vec![];
    let mut i = 0;
    while i < c.len() {
        if c[i] == '\\' && i + 1 < c.len() {
            i += 1;
            match c[i] {
                'n' => o.push('\n'),
                't' => o.push('\t'),
                'r' => o.push('\r'),
                '0' => o.push('\0'),
                'x' if i + 2 < c.len() => {
                    let h: String = c[i + 1..i + 3].iter().collect();
                    b.extend(o.drain(..).collect::<String>().bytes());
                    b.push(u8::from_str_radix(&h, 16).unwrap_or(b'x'));
                    i += 2;
                }
                'u' => {
                    let j = c[i..].iter().position(|x| *x == '}').map_or(c.len() - 1, |j| i + j);
                    let h: String = c[(i + 2).min(j)..j].iter().collect();
                    o.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).unwrap_or('u'));
                    i = j;
                }
                '\n' => {}
                x => o.push(x),
            }
        } else {
            o.push(c[i]);
        }
        i += 1;
    }
    b.extend(o.bytes());
    b
}

fn scan(t: &str, d: &mut Dict) {
    let c: Vec<char> = t.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut i = 0;
    while i < c.len() {
        let x = c[i];
        let idc = i > 0 && (c[i - 1].is_alphanumeric() || c[i - 1] == '_');
        if x == '/' && at(i + 1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1
            }
        } else if x == '/' && at(i + 1) == '*' {
            i += 2;
            while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') {
                i += 1
            }
            i += 1;
        } else if x == '#' && c[i..].iter().take(12).collect::<String>() == "#[cfg(test)]" {
            // a test module ends the file
            let rest: String = c[i + 12..].iter().take(30).collect();
            let rest = rest.trim_start();
            if rest.starts_with("mod ") && rest.split('\n').next().unwrap_or("").contains('{') {
                return;
            }
            i += 11;
        } else if x == '"' {
            let s = i + 1;
            i = s;
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' {
                    i += 1
                }
                i += 1
            }
            let l: String = c[s.min(c.len())..i.min(c.len())].iter().collect();
            let u = unescape(&l);
            if !u.is_empty() && u.len() <= 40 {
                d.strs.push(u)
            }
        } else if x == '\'' {
            if at(i + 1) == '\\' {
                let s = i + 1;
                i += 3;
                while i < c.len() && c[i] != '\'' {
                    i += 1
                }
                d.strs.push(unescape(&c[s..i.min(c.len())].iter().collect::<String>()))
            } else if at(i + 2) == '\'' {
                d.strs.push(c[i + 1].to_string().into_bytes());
                i += 2
            }
        } else if x.is_ascii_digit() && !idc {
            let s = i;
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                i += 1
            }
            let l: String = c[s..i].iter().filter(|x| **x != '_').collect();
            let l = l.trim_end_matches("usize").trim_end_matches("u8").trim_end_matches("u64").trim_end_matches("u32").trim_end_matches("isize").trim_end_matches("i32");
            let n = match l.strip_prefix("0x") {
                Some(h) => usize::from_str_radix(h, 16).ok(),
                None => l.parse().ok(),
            };
            if let Some(n) = n {
                if n > 3 && n <= 20000 {
                    d.nums.push(n)
                }
                if (1..256).contains(&n) {
                    d.strs.push(vec![n as u8])
                }
                // 1 << k
                let r: String = c[i..].iter().take(6).collect();
                if let Some(k) = r.trim_start().strip_prefix("<<") {
                    let k: String = k.trim_start().chars().take_while(|x| x.is_ascii_digit()).collect();
                    if let Some(v) = k.parse::<u32>().ok().and_then(|k| n.checked_shl(k)) {
                        if v > 3 && v <= 20000 {
                            d.nums.push(v)
                        }
                    }
                }
            }
            continue;
        }
        i += 1
    }
}
