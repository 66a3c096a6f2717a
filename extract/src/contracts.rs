//! Reader for the contract files in /verif/contracts (one per source module).
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct FnC {
    pub spec: String,
    pub loops: BTreeMap<String, String>,
    /// (anchor, text)
    pub ghosts: Vec<(String, String)>,
    pub flags: Vec<String>,
}

#[derive(Default, Debug)]
pub struct Contracts {
    pub module: String,
    pub source: String,
    pub raw: Vec<String>,
    pub types: Vec<String>,
    pub typeattrs: Vec<(String, String)>,
    pub consts: Vec<String>,
    pub traits: Vec<String>,
    pub fns: BTreeMap<String, FnC>,
    pub traitraw: BTreeMap<String, String>,
    pub implraw: BTreeMap<String, String>,
    /// whole directive words -> text, e.g. inst / rebound / inline / strlit
    pub dirs: Vec<(String, String)>,
}

pub fn read(module: &str, text: &str) -> Contracts {
    let mut c = Contracts { module: module.into(), ..Default::default() };
    let mut cur: Vec<String> = vec![];
    let mut head: Option<String> = None;
    let mut blocks: Vec<(String, String)> = vec![];
    for l in text.lines() {
        if let Some(h) = l.strip_prefix("//@ ") {
            if let Some(h) = head.take() {
                blocks.push((h, cur.join("\n")));
            }
            cur.clear();
            head = Some(h.trim().to_string());
        } else {
            cur.push(l.to_string())
        }
    }
    if let Some(h) = head.take() {
        blocks.push((h, cur.join("\n")));
    }
    for (h, b) in blocks {
        let (w, rest) = h.split_once(' ').unwrap_or((&h, ""));
        let rest = rest.trim().to_string();
        match w {
            "source" => c.source = rest,
            "raw" => c.raw.push(b),
            "type" => {
                let mut it = rest.split_whitespace();
                let n = it.next().unwrap().to_string();
                for f in it {
                    c.typeattrs.push((n.clone(), f.strip_prefix("attr=").unwrap().to_string()));
                }
                c.types.push(n)
            }
            "const" => c.consts.push(rest),
            "trait" => {
                c.traits.push(rest.clone());
                c.traitraw.insert(rest, b);
            }
            "implraw" => {
                c.implraw.insert(rest, b);
            }
            "fn" => {
                let mut it = rest.split_whitespace();
                let key = it.next().unwrap().to_string();
                let f = c.fns.entry(key).or_default();
                f.spec = b;
                f.flags = it.map(|x| x.to_string()).collect();
            }
            "loop" => {
                let (k, n) = rest.split_once(' ').unwrap();
                c.fns.entry(k.into()).or_default().loops.insert(n.trim().into(), b);
            }
            "ghost" => {
                let (k, a) = rest.split_once(' ').unwrap();
                c.fns.entry(k.into()).or_default().ghosts.push((a.trim().into(), b));
            }
            "inst" | "remethod" | "rebound" | "inline" | "strlit" | "index" | "iterfn" | "stdself" | "retype" | "litparams" | "instname" | "addbound" | "derefs" | "rename" | "droparg" | "eqfn" | "extendall" => c.dirs.push((w.into(), rest)),
            _ => panic!("unknown directive in {}: {}", module, h),
        }
    }
    c
}
