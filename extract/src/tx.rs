//! Rewriting of one function body into the dialect Verus accepts.  Every rule is listed in
//! DESIGN.md ("Extraction"); each replaces a construct by its documented std meaning.
use crate::contracts::*;
use crate::norm;
use proc_macro2::Span;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct CrateInfo {
    /// type name -> (index parameter, body expression of `index`)
    index_impls: BTreeMap<String, (Ident, Expr)>,
    /// functions taking a closure that are inlined: name -> (closure parameter, body)
    inline: BTreeMap<String, (Ident, Block)>,
    /// functions whose result is an iterator
    iter_fns: BTreeSet<String>,
    /// fields that are a `Vec`
    vec_fields: BTreeSet<String>,
}

fn id(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}

impl CrateInfo {
    pub fn new(f: &File, c: &Contracts, extra: &[(String, String)]) -> CrateInfo {
        let mut r = CrateInfo { index_impls: BTreeMap::new(), inline: BTreeMap::new(), iter_fns: BTreeSet::new(), vec_fields: BTreeSet::new() };
        for d in c.dirs.iter().chain(extra) {
            if d.0 == "iterfn" {
                for w in d.1.split_whitespace() {
                    r.iter_fns.insert(w.to_string());
                }
            }
        }
        let want_inline: BTreeSet<String> = c.dirs.iter().filter(|d| d.0 == "inline").flat_map(|d| d.1.split_whitespace().map(|x| x.to_string()).collect::<Vec<_>>()).collect();
        for i in &f.items {
            if let Item::Struct(s) = i {
                for x in s.fields.iter() {
                    if let (Some(n), Type::Path(p)) = (&x.ident, &x.ty) {
                        if p.path.segments.last().unwrap().ident == "Vec" {
                            r.vec_fields.insert(n.to_string());
                        }
                    }
                }
            }
            if let Item::Fn(f) = i {
                if let ReturnType::Type(_, t) = &f.sig.output {
                    if let Type::ImplTrait(it) = &**t {
                        if it.to_token_stream().to_string().contains("Iterator") {
                            r.iter_fns.insert(f.sig.ident.to_string());
                        }
                    }
                }
            }
            if let Item::Impl(im) = i {
                if let Some((_, p, _)) = &im.trait_ {
                    if p.segments.last().unwrap().ident == "Index" {
                        for x in &im.items {
                            if let ImplItem::Fn(f) = x {
                                if let (Some(FnArg::Typed(a)), Some(Stmt::Expr(e, None))) = (f.sig.inputs.iter().nth(1), f.block.stmts.last()) {
                                    if let (Pat::Ident(p), 1) = (&*a.pat, f.block.stmts.len()) {
                                        let e = match e {
                                            Expr::Reference(r) => (*r.expr).clone(),
                                            e => e.clone(),
                                        };
                                        r.index_impls.insert(im.self_ty.to_token_stream().to_string(), (p.ident.clone(), e));
                                    }
                                }
                            }
                        }
                    }
                } else {
                    for x in &im.items {
                        if let ImplItem::Fn(f) = x {
                            if want_inline.contains(&f.sig.ident.to_string()) {
                                if let Some(FnArg::Typed(a)) = f.sig.inputs.iter().nth(1) {
                                    if let Pat::Ident(p) = &*a.pat {
                                        r.inline.insert(f.sig.ident.to_string(), (p.ident.clone(), f.block.clone()));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        r
    }
}

pub struct Tx<'a> {
    fc: &'a FnC,
    cr: &'a CrateInfo,
    used_loops: BTreeSet<String>,
    used_ghosts: BTreeSet<usize>,
    pub loops_without: Vec<String>,
    nloop: usize,
    nchain: usize,
    nfresh: usize,
    /// variables of a type with an Index impl
    ixvars: BTreeMap<String, String>,
    /// parameters of reference type
    refvars: BTreeSet<String>,
    strlit: bool,
    eqfn: BTreeSet<String>,
    droparg: BTreeSet<String>,
    stdself: bool,
    extendall: bool,
    plain_lit: bool,
    derefs: bool,
    /// parameters that are writers
    pub sinkvars: BTreeSet<String>,
    collect: Option<String>,
    remethod: BTreeMap<String, String>,
}

/// `old` is a keyword-like name in contracts: variables of that name become `old__`
pub struct RenameOld;
impl VisitMut for RenameOld {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.path.is_ident("old") {
            p.path.segments[0].ident = id("old__");
        }
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if p.ident == "old" {
            p.ident = id("old__");
        }
        visit_mut::visit_pat_ident_mut(self, p)
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f)
    }
}

/// `mut self` by value becomes a mutable local
pub struct RenameSelf;
impl VisitMut for RenameSelf {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.path.is_ident("self") {
            p.path.segments[0].ident = id("self_");
        }
    }
}

struct Replace<'b> {
    name: &'b str,
    with: &'b Expr,
}
impl VisitMut for Replace<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.path.is_ident(self.name) {
                *e = self.with.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e)
    }
}

struct BetaCall<'b> {
    f: &'b Ident,
    clo: &'b Expr,
}
impl VisitMut for BetaCall<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if p.path.is_ident(self.f) {
                    let a = c.args[0].clone();
                    *e = apply_fn(self.clo, a);
                }
            }
        }
    }
}

/// `let PAT = e;` statements, with `&p` patterns turned into dereferences and tuples split
pub fn bind(p: &Pat, e: Expr) -> Vec<Stmt> {
    match p {
        Pat::Reference(r) => {
            let e2: Expr = match e {
                Expr::Reference(x) => (*x.expr).clone(),
                e => parse_quote!(*#e),
            };
            bind(&r.pat, e2)
        }
        Pat::Tuple(t) => {
            if let Expr::Tuple(x) = &e {
                if x.elems.len() == t.elems.len() {
                    return t.elems.iter().zip(x.elems.iter()).flat_map(|(p, e)| bind(p, e.clone())).collect();
                }
            }
            vec![parse_quote!(let #p = #e;)]
        }
        Pat::Paren(q) => bind(&q.pat, e),
        Pat::Wild(_) => vec![],
        _ => vec![parse_quote!(let #p = #e;)],
    }
}

/// a `?` or `return` that would leave the closure the expression is the body of
fn escapes(e: &Expr) -> bool {
    struct E(bool);
    impl VisitMut for E {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Try(_) | Expr::Return(_) => self.0 = true,
                Expr::Closure(_) => {}
                _ => visit_mut::visit_expr_mut(self, e),
            }
        }
    }
    let mut v = E(false);
    v.visit_expr_mut(&mut e.clone());
    v.0
}
/// the body of a closure without parameters
fn thunk(f: &Expr) -> Expr {
    match f {
        Expr::Closure(c) if escapes(&c.body) => parse_quote!(v_closure_leaves__()),
        Expr::Closure(c) => (*c.body).clone(),
        f => parse_quote!(#f()),
    }
}
fn apply_fn(f: &Expr, arg: Expr) -> Expr {
    match f {
        Expr::Closure(c) if escapes(&c.body) => parse_quote!(v_closure_leaves__()),
        Expr::Closure(c) => {
            let st = bind(&c.inputs[0], arg);
            let b = &c.body;
            if st.is_empty() {
                parse_quote!(#b)
            } else {
                parse_quote!({ #(#st)* #b })
            }
        }
        f => parse_quote!(#f(#arg)),
    }
}

fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        Expr::Group(p) => strip_paren(&p.expr),
        e => e,
    }
}

/// recognisably a truth value
fn is_bool(e: &Expr) -> bool {
    match strip_paren(e) {
        Expr::MethodCall(m) => ["starts_with", "ends_with", "v_ends_with", "v_contains", "contains", "is_empty", "is_some", "is_none", "is_ok", "is_err"].contains(&m.method.to_string().as_str()),
        Expr::Binary(b) => matches!(b.op, BinOp::And(_) | BinOp::Or(_) | BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_)),
        Expr::Unary(u) => matches!(u.op, UnOp::Not(_)) && is_bool(&u.expr),
        Expr::Lit(l) => matches!(l.lit, Lit::Bool(_)),
        Expr::Block(b) => matches!(b.block.stmts.last(), Some(Stmt::Expr(x, None)) if is_bool(x)),
        _ => false,
    }
}

/// random-access source of an iteration
enum Ix {
    /// (variable suffix, source expression (a slice or reference to one), by value, reversed)
    Slice(String, Expr, bool, bool),
    Range(String, Expr, Expr),
    /// descending inclusive range with a step: hi, lo, step
    Down(String, Expr, Expr, Expr),
    Up(String, Expr, Expr, bool),
    RevRange(String, Expr, Expr),
    Zip(Box<Ix>, Box<Ix>),
    Enumerate(Box<Ix>),
    Copied(Box<Ix>),
}

const CLOSURE_STAGES: &[&str] = &["map", "filter_map", "flat_map", "filter"];
const TERMINALS: &[&str] = &["collect", "count", "any", "all", "find", "position", "for_each", "fold", "unzip", "eq"];

impl<'a> Tx<'a> {
    pub fn new(fc: &'a FnC, cr: &'a CrateInfo, c: &'a Contracts, sig: &Signature) -> Tx<'a> {
        let mut ixvars = BTreeMap::new();
        let mut refvars = BTreeSet::new();
        for a in &sig.inputs {
            if let FnArg::Typed(t) = a {
                if let Pat::Ident(p) = &*t.pat {
                    let ty = match &*t.ty {
                        Type::Reference(r) => {
                            refvars.insert(p.ident.to_string());
                            (*r.elem).to_token_stream().to_string()
                        }
                        t => t.to_token_stream().to_string(),
                    };
                    if cr.index_impls.contains_key(&ty) {
                        ixvars.insert(p.ident.to_string(), ty);
                    }
                }
            }
        }
        Tx {
            fc,
            cr,
            used_loops: BTreeSet::new(),
            used_ghosts: BTreeSet::new(),
            loops_without: vec![],
            nloop: 0,
            nchain: 0,
            nfresh: 0,
            ixvars,
            refvars,
            strlit: c.dirs.iter().any(|d| d.0 == "strlit"),
            eqfn: c.dirs.iter().filter(|d| d.0 == "eqfn").flat_map(|d| d.1.split_whitespace().map(|x| x.to_string()).collect::<Vec<_>>()).collect(),
            stdself: false,
            extendall: false,
            plain_lit: false,
            derefs: false,
            sinkvars: BTreeSet::new(),
            collect: fc.flags.iter().find_map(|f| f.strip_prefix("collect=").map(|x| x.to_string())),
            remethod: c.dirs.iter().filter(|d| d.0 == "remethod").flat_map(|d| d.1.split_whitespace().filter_map(|x| x.split_once('=')).map(|(a, b)| (a.to_string(), b.to_string())).collect::<Vec<_>>()).collect(),
            droparg: c.dirs.iter().filter(|d| d.0 == "droparg").flat_map(|d| d.1.split_whitespace().map(|x| x.to_string()).collect::<Vec<_>>()).collect(),
        }
    }
    pub fn set_key(&mut self, c: &Contracts, key: &str) {
        self.derefs = c.dirs.iter().any(|d| d.0 == "derefs" && d.1.split_whitespace().any(|k| key == k));
        self.extendall = c.dirs.iter().any(|d| d.0 == "extendall");
        self.stdself = c.dirs.iter().any(|d| d.0 == "stdself" && d.1.split_whitespace().any(|k| key.starts_with(k)));
    }
    pub fn expr_only(&mut self, e: &mut Expr) {
        self.plain_lit = true;
        self.visit_expr_mut(e)
    }
    pub fn run(&mut self, b: &mut Block) {
        // a. number the loops, b. place ghost markers on the original statements, c. rewrite
        let mut n = Number { n: 0 };
        n.visit_block_mut(b);
        self.nloop = n.n;
        let mut g = Ghost { fc: self.fc, used: BTreeSet::new(), count: BTreeMap::new() };
        g.visit_block_mut(b);
        g.func(b);
        self.used_ghosts.extend(g.used);
        self.visit_block_mut(b);
        RenameOld.visit_block_mut(b);
        Unflat.visit_block_mut(b);
    }
    pub fn lost(&self) -> Vec<String> {
        let mut v: Vec<String> = self.fc.ghosts.iter().enumerate().filter(|(i, _)| !self.used_ghosts.contains(i)).map(|(_, g)| format!("ghost {}", g.0)).collect();
        v.extend(self.fc.loops.keys().filter(|k| !self.used_loops.contains(*k)).map(|k| format!("loop {}", k)));
        v
    }
    /// textual insertion of loop specifications and ghost code at the markers
    pub fn splice(&mut self, txt: &str) -> String {
        let mut o = String::new();
        let mut rest = txt;
        loop {
            let l = rest.find("__L!(");
            let g = rest.find("__G!(");
            if let Some(a) = rest.find("__A!(") {
                if l.map_or(true, |l| a < l) && g.map_or(true, |g| a < g) {
                    let e = a + rest[a..].find(')').unwrap();
                    o.push_str(&rest[..a]);
                    o.push_str(&format!("assert(l__@ =~= seq![{}])", &rest[a + 5..e]));
                    rest = &rest[e + 1..];
                    continue;
                }
            }
            let (p, is_l) = match (l, g) {
                (None, None) => break,
                (Some(l), None) => (l, true),
                (None, Some(g)) => (g, false),
                (Some(l), Some(g)) => (l.min(g), l < g),
            };
            let e = p + rest[p..].find(')').unwrap();
            let key = norm(&rest[p + 5..e]);
            let after = rest[e + 1..].strip_prefix(';').unwrap_or(&rest[e + 1..]);
            if is_l {
                let head = rest[..p].trim_end();
                let head = head.strip_suffix('{').unwrap_or(head).trim_end();
                o.push_str(head);
                o.push('\n');
                match self.fc.loops.get(&key) {
                    Some(s) => {
                        o.push_str(s.trim_end());
                        self.used_loops.insert(key);
                    }
                    None => self.loops_without.push(key),
                }
                o.push_str("\n{");
            } else {
                o.push_str(&rest[..p]);
                let i: usize = key.parse().unwrap();
                o.push_str(self.fc.ghosts[i].1.trim_end());
                o.push('\n');
            }
            rest = after;
        }
        o.push_str(rest);
        // the contract may name loops that no longer exist
        o
    }

    fn fresh(&mut self, p: &str) -> Ident {
        self.nfresh += 1;
        id(&format!("{}__{}", p, self.nfresh))
    }

    /// `R.extend(S.iter().copied())` and `S.iter().for_each(|x| R.extend_from_slice(x))`: all pieces of S, appended to R
    fn extend_all(&self, m: &ExprMethodCall) -> Option<Expr> {
        if !self.extendall {
            return None;
        }
        fn slice_of(e: &Expr) -> Option<Expr> {
            let e = match strip_paren(e) {
                Expr::MethodCall(c) if c.method == "copied" || c.method == "cloned" => strip_paren(&c.receiver).clone(),
                x => x.clone(),
            };
            let r = match &e {
                Expr::MethodCall(c) if c.method == "iter" && c.args.is_empty() => strip_paren(&c.receiver).clone(),
                Expr::Reference(r) => strip_paren(&r.expr).clone(),
                _ => return None,
            };
            match &r {
                Expr::Index(ix) => {
                    let (x, rg) = (&ix.expr, &ix.index);
                    Some(parse_quote!(v_subslice(#x, #rg)))
                }
                Expr::Path(_) => Some(parse_quote!(&#r)),
                _ => None,
            }
        }
        if m.method == "extend" && m.args.len() == 1 {
            let (r, s) = (&m.receiver, slice_of(&m.args[0])?);
            return Some(parse_quote!(#r.v_extend_all(#s)));
        }
        if m.method == "for_each" && m.args.len() == 1 {
            let s = slice_of(&m.receiver)?;
            let Expr::Closure(c) = strip_paren(&m.args[0]) else { return None };
            let Pat::Ident(p) = c.inputs.first()? else { return None };
            let mut body = strip_paren(&c.body).clone();
            if let Expr::Block(b) = &body {
                if b.block.stmts.len() != 1 {
                    return None;
                }
                let Stmt::Expr(x, _) = &b.block.stmts[0] else { return None };
                body = x.clone();
            }
            let Expr::MethodCall(q) = &body else { return None };
            if (q.method == "extend_from_slice" || q.method == "push_str") && matches!(strip_paren(&q.args[0]), Expr::Path(a) if a.path.is_ident(&p.ident)) {
                let r = &q.receiver;
                return Some(parse_quote!(#r.v_extend_all(#s)));
            }
        }
        None
    }
    fn is_iter(&self, e: &Expr) -> bool {
        match strip_paren(e) {
            Expr::Range(_) => true,
            Expr::MethodCall(m) => match m.method.to_string().as_str() {
                "iter" | "into_iter" | "windows" | "chars" | "bytes" => true,
                "rev" | "step_by" | "zip" | "enumerate" | "copied" | "flatten" | "chain" | "fuse" | "peekable" | "map" | "filter_map" | "flat_map" => self.is_iter(&m.receiver),
                _ => false,
            },
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let l = s.last().unwrap();
                    self.cr.iter_fns.contains(l) || self.cr.iter_fns.contains(&s.join("::")) || (l == "once" && s.len() > 1)
                } else {
                    false
                }
            }
            _ => false,
        }
    }

    /// try to see an iteration source as random access
    fn indexable(&mut self, e: &Expr, tag: &str, k: &mut usize, top: bool) -> Option<Ix> {
        let mut name = || {
            *k += 1;
            if *k == 1 {
                tag.to_string()
            } else {
                format!("{}_{}", tag, *k - 1)
            }
        };
        match strip_paren(e) {
            Expr::Range(r) => {
                let (a, b) = (r.start.clone()?, r.end.clone()?);
                Some(Ix::Up(name(), *a, *b, matches!(r.limits, RangeLimits::Closed(_))))
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "iter" => {
                        let r = (*m.receiver).clone();
                        // a Vec field is borrowed
                        let own = matches!(&r, Expr::Field(f) if matches!(&f.member, Member::Named(n) if self.cr.vec_fields.contains(&n.to_string())));
                        // a sub-slice
                        if let Expr::Index(ix) = &r {
                            let (x, rg) = (&ix.expr, &ix.index);
                            let ranged = matches!(strip_paren(rg), Expr::Range(_)) || matches!(strip_paren(rg), Expr::MethodCall(m) if m.method == "range");
                            let e: Expr = if ranged { parse_quote!(v_subslice(#x, #rg)) } else { parse_quote!(&#r) };
                            return Some(Ix::Slice(name(), e, false, false));
                        }
                        Some(Ix::Slice(name(), if own { parse_quote!(&#r) } else { r }, false, false))
                    }
                    // a view of a slice
                    "as_bytes" | "as_slice" | "as_ref" if top => Some(Ix::Slice(name(), e.clone(), false, false)),
                    "into_iter" => {
                        if let Expr::Path(_) = &*m.receiver {
                            Some(Ix::Slice(name(), (*m.receiver).clone(), true, false))
                        } else {
                            None
                        }
                    }
                    "flatten" => {
                        if let Expr::MethodCall(i) = strip_paren(&m.receiver) {
                            if i.method == "into_iter" {
                                let r = &i.receiver;
                                return Some(Ix::Slice(name(), parse_quote!(v_flatten_opt(#r)), false, false));
                            }
                        }
                        None
                    }
                    "copied" => Some(Ix::Copied(Box::new(self.indexable(&m.receiver, tag, k, false)?))),
                    "enumerate" => Some(Ix::Enumerate(Box::new(self.indexable(&m.receiver, tag, k, false)?))),
                    "zip" => {
                        let a = self.indexable(&m.receiver, tag, k, false)?;
                        let b = self.indexable(&m.args[0], tag, k, false)?;
                        Some(Ix::Zip(Box::new(a), Box::new(b)))
                    }
                    "rev" => match self.indexable(&m.receiver, tag, k, false)? {
                        Ix::Slice(t, e, v, r) => Some(Ix::Slice(t, e, v, !r)),
                        Ix::Up(t, a, b, true) => Some(Ix::Down(t, b, a, parse_quote!(1))),
                        Ix::Up(t, a, b, false) => Some(Ix::RevRange(t, a, b)),
                        _ => None,
                    },
                    "step_by" if top => match self.indexable(&m.receiver, tag, k, false)? {
                        Ix::Down(t, h, l, _) => Some(Ix::Down(t, h, l, m.args[0].clone())),
                        _ => None,
                    },
                    _ => None,
                }
            }
            Expr::Reference(_) if top => Some(Ix::Slice(name(), e.clone(), false, false)),
            Expr::Path(p) if top => {
                let v = p.path.get_ident().map(|x| x.to_string()).unwrap_or_default();
                if self.refvars.contains(&v) {
                    Some(Ix::Slice(name(), e.clone(), false, false))
                } else {
                    None
                }
            }
            _ => None,
        }
    }

    /// (initialisation, length expression, item expression at index i)
    fn ix_code(&self, x: &Ix, i: &Ident) -> (Vec<Stmt>, Expr, Expr) {
        match x {
            Ix::Slice(t, e, by_value, rev) => {
                let s = id(&format!("s{}", t));
                let n: Expr = parse_quote!(#s.len());
                let at: Expr = if *rev { parse_quote!(#s.len() - 1 - #i) } else { parse_quote!(#i) };
                let item: Expr = if *by_value { parse_quote!(#s[#at]) } else { parse_quote!(&#s[#at]) };
                (vec![parse_quote!(let #s = #e;)], n, item)
            }
            Ix::Up(t, a, b, false) | Ix::Range(t, a, b) => {
                let (lo, hi) = (id(&format!("lo{}", t)), id(&format!("hi{}", t)));
                (vec![parse_quote!(let #lo = #a;), parse_quote!(let #hi = #b;)], parse_quote!(v_range_len(#lo, #hi)), parse_quote!(#lo + #i))
            }
            Ix::RevRange(t, a, b) => {
                let (lo, hi) = (id(&format!("lo{}", t)), id(&format!("hi{}", t)));
                (vec![parse_quote!(let #lo = #a;), parse_quote!(let #hi = #b;)], parse_quote!(v_range_len(#lo, #hi)), parse_quote!(#hi - 1 - #i))
            }
            Ix::Zip(a, b) => {
                let (mut s, n, e) = self.ix_code(a, i);
                let (s2, n2, e2) = self.ix_code(b, i);
                s.extend(s2);
                (s, parse_quote!(v_min(#n, #n2)), parse_quote!((#e, #e2)))
            }
            Ix::Enumerate(a) => {
                let (s, n, e) = self.ix_code(a, i);
                (s, n, parse_quote!((#i, #e)))
            }
            Ix::Copied(a) => {
                let (s, n, e) = self.ix_code(a, i);
                let e: Expr = match e {
                    Expr::Reference(r) => (*r.expr).clone(),
                    e => parse_quote!(*#e),
                };
                (s, n, e)
            }
            Ix::Up(..) | Ix::Down(..) => unreachable!(),
        }
    }

    /// build an iteration: `body` receives the item expression
    fn iteration(&mut self, src: &Expr, tag: &str, lmark: Vec<Stmt>, label: Option<Label>, body: impl FnOnce(&mut Self, Expr) -> Vec<Stmt>) -> Vec<Stmt> {
        let mut k = 0;
        let ixs = self.indexable(src, tag, &mut k, true);
        match ixs {
            Some(Ix::Up(_, a, b, incl)) => {
                let (iv, ev) = (id(&format!("i{}", tag)), id(&format!("e{}", tag)));
                let b2 = body(self, parse_quote!(#iv));
                // the item must be taken before the counter advances
                let (first, rest) = split_binding(b2, &iv);
                let cmp: Expr = if incl { parse_quote!(#iv <= #ev) } else { parse_quote!(#iv < #ev) };
                vec![
                    parse_quote!(let mut #iv = #a;),
                    parse_quote!(let #ev = #b;),
                    Stmt::Expr(parse_quote!(#label while #cmp { #(#lmark)* #(#first)* #iv += 1; #(#rest)* }), None),
                ]
            }
            Some(Ix::Down(_, hi, lo, step)) => {
                let (iv, ev) = (id(&format!("i{}", tag)), id(&format!("e{}", tag)));
                let b2 = body(self, parse_quote!(#iv));
                let (first, rest) = split_binding(b2, &iv);
                vec![
                    parse_quote!(let mut #iv = #hi;),
                    parse_quote!(let #ev = #lo;),
                    Stmt::Expr(parse_quote!(#label while #iv >= #ev { #(#lmark)* #(#first)* #iv -= #step; #(#rest)* }), None),
                ]
            }
            Some(x) => {
                let (iv, nv) = (id(&format!("i{}", tag)), id(&format!("n{}", tag)));
                let (init, n, item) = self.ix_code(&x, &iv);
                let b2 = body(self, item);
                let (first, rest) = split_binding(b2, &iv);
                let mut o = init;
                o.push(parse_quote!(let #nv = #n;));
                o.push(parse_quote!(let mut #iv: usize = 0;));
                o.push(Stmt::Expr(parse_quote!(#label while #iv < #nv { #(#lmark)* #(#first)* #iv += 1; #(#rest)* }), None));
                o
            }
            None => {
                let it = id(&format!("it{}", tag));
                let xv = id(&format!("x{}", tag));
                let b2 = body(self, parse_quote!(#xv));
                let pre = self.named_ghost(&format!("loop l{} pre", tag));
                vec![
                    parse_quote!(let mut #it = #src;),
                    Stmt::Expr(parse_quote!(#label loop { #(#lmark)* #(#pre)* match #it.next() { Some(#xv) => { #(#b2)* } None => { break; } } }), None),
                ]
            }
        }
    }

    fn chain(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let (term, mut rest): (Option<&ExprMethodCall>, Expr) = if TERMINALS.contains(&name.as_str()) {
            (Some(m), (*m.receiver).clone())
        } else if CLOSURE_STAGES.contains(&name.as_str()) {
            (None, Expr::MethodCall(m.clone()))
        } else {
            return None;
        };
        if !self.is_iter(&rest) {
            return None;
        }
        let mut stages: Vec<(String, Expr)> = vec![];
        let mut copied_after = false;
        loop {
            match strip_paren(&rest).clone() {
                Expr::MethodCall(s) if CLOSURE_STAGES.contains(&s.method.to_string().as_str()) => {
                    stages.push((s.method.to_string(), s.args[0].clone()));
                    rest = *s.receiver;
                }
                Expr::MethodCall(s) if s.method == "copied" && matches!(strip_paren(&s.receiver), Expr::MethodCall(q) if CLOSURE_STAGES.contains(&q.method.to_string().as_str())) => {
                    copied_after = true;
                    rest = *s.receiver;
                }
                _ => break,
            }
        }
        stages.reverse();
        let n = self.nchain;
        self.nchain += 1;
        let tag = format!("c{}", n);
        // `collect=TYPE` or `collect=cN:TYPE`
        let coll: Option<String> = self.collect.as_ref().and_then(|c| match c.split_once(':') {
            None => Some(c.clone()),
            Some((t, ty)) => (t == tag).then(|| ty.to_string()),
        });
        let out = id(&format!("out{}", tag));
        let mark = vec![self.loop_mark(&tag)];
        let gs = self.chain_ghost(n, "start");
        let ge = self.chain_ghost(n, "end");
        let gb = self.chain_ghost(n, "before");
        let ga = self.chain_ghost(n, "after");
        let mut mark2 = mark;
        mark2.extend(gs);
        let tname = term.map(|t| t.method.to_string()).unwrap_or("collect_iter".into());
        let targs: Vec<Expr> = term.map(|t| t.args.iter().cloned().collect()).unwrap_or_default();
        let (mut pre, result): (Vec<Stmt>, Expr) = match tname.as_str() {
            "collect" => {
                let t = id(coll.as_deref().unwrap_or("Vec"));
                (vec![parse_quote!(let mut #out = #t::new();)], parse_quote!(#out))
            }
            "collect_iter" => (vec![parse_quote!(let mut #out = Vec::new();)], parse_quote!(v_vec_iter(#out))),
            "count" => (vec![parse_quote!(let mut #out: usize = 0;)], parse_quote!(#out)),
            "any" => (vec![parse_quote!(let mut #out: bool = false;)], parse_quote!(#out)),
            "all" => (vec![parse_quote!(let mut #out: bool = true;)], parse_quote!(#out)),
            "find" => (vec![parse_quote!(let mut #out = None;)], parse_quote!(#out)),
            "position" => (vec![parse_quote!(let mut #out: Option<usize> = None;)], parse_quote!(#out)),
            "for_each" => (vec![], parse_quote!(())),
            "fold" => {
                let a = &targs[0];
                (vec![parse_quote!(let mut #out = #a;)], parse_quote!(#out))
            }
            "unzip" => {
                let (o1, o2) = (id(&format!("outa{}", tag)), id(&format!("outb{}", tag)));
                (vec![parse_quote!(let mut #o1 = Vec::new();), parse_quote!(let mut #o2 = Vec::new();)], parse_quote!((#o1, #o2)))
            }
            "eq" => (vec![parse_quote!(let mut #out: bool = true;)], parse_quote!(#out)),
            _ => return None,
        };
        let pos = id(&format!("p{}", tag));
        if tname == "position" {
            pre.push(parse_quote!(let mut #pos: usize = 0;));
        }
        let other = id(&format!("o{}", tag));
        if tname == "eq" {
            let o = &targs[0];
            pre.push(parse_quote!(let mut #other = #o;));
        }
        let is_str = coll.is_some();
        let final_stage = |x: Expr| -> Vec<Stmt> {
            match tname.as_str() {
                "collect" if is_str => vec![parse_quote!(#out.push_item(#x);)],
                "collect" => vec![parse_quote!(#out.push(#x);)],
                "collect_iter" => vec![parse_quote!(#out.push(#x);)],
                "count" => vec![parse_quote!(#out += 1;)],
                "any" => {
                    let c = apply_fn(&targs[0], x);
                    vec![Stmt::Expr(parse_quote!(if #c { #out = true; break; }), None)]
                }
                "all" => {
                    let c = apply_fn(&targs[0], x);
                    vec![Stmt::Expr(parse_quote!(if !(#c) { #out = false; break; }), None)]
                }
                "find" => {
                    let xi = id("xf__");
                    let c = apply_fn(&targs[0], parse_quote!(&#xi));
                    vec![parse_quote!(let #xi = #x;), Stmt::Expr(parse_quote!(if #c { #out = Some(#xi); break; }), None)]
                }
                "position" => {
                    let c = apply_fn(&targs[0], x);
                    vec![Stmt::Expr(parse_quote!(if #c { #out = Some(#pos); break; }), None), parse_quote!(#pos += 1;)]
                }
                "for_each" => {
                    let c = apply_fn(&targs[0], x);
                    vec![parse_quote!(#c;)]
                }
                "fold" => {
                    if let Expr::Closure(c) = &targs[1] {
                        let b = &c.body;
                        let mut s = bind(&c.inputs[0], parse_quote!(#out));
                        s.extend(bind(&c.inputs[1], x));
                        s.push(parse_quote!(#out = #b;));
                        s
                    } else {
                        let f = &targs[1];
                        vec![parse_quote!(#out = #f(#out, #x);)]
                    }
                }
                "unzip" => {
                    let (o1, o2) = (id(&format!("outa{}", tag)), id(&format!("outb{}", tag)));
                    vec![parse_quote!(let (xa__, xb__) = #x;), parse_quote!(#o1.push(xa__);), parse_quote!(#o2.push(xb__);)]
                }
                "eq" => vec![Stmt::Expr(
                    parse_quote!(match #other.next() { Some(y__) => { if !v_item_eq(#x, y__) { #out = false; break; } } None => { #out = false; break; } }),
                    None,
                )],
                _ => unreachable!(),
            }
        };
        let stg = stages.clone();
        let ca = copied_after;
        let body = move |tx: &mut Self, item: Expr| -> Vec<Stmt> {
            let mut cur = item;
            // nest: each stage wraps the rest
            fn nest(tx: &mut Tx, stages: &[(String, Expr)], cur: Expr, ca: bool, fin: &dyn Fn(Expr) -> Vec<Stmt>) -> Vec<Stmt> {
                if stages.is_empty() {
                    let _ = ca;
                    return fin(cur);
                }
                let (k, f) = &stages[0];
                let v = tx.fresh("y");
                let a = apply_fn(f, cur);
                match k.as_str() {
                    "map" => {
                        let mut s: Vec<Stmt> = vec![parse_quote!(let #v = #a;)];
                        s.extend(nest(tx, &stages[1..], parse_quote!(#v), ca, fin));
                        s
                    }
                    "filter_map" => {
                        let r = nest(tx, &stages[1..], parse_quote!(#v), ca, fin);
                        vec![Stmt::Expr(parse_quote!(match #a { Some(#v) => { #(#r)* } None => {} }), None)]
                    }
                    "filter" => {
                        let r = nest(tx, &stages[1..], parse_quote!(#v), ca, fin);
                        vec![parse_quote!(let #v = #a;), Stmt::Expr(parse_quote!(if #v { #(#r)* }), None)]
                    }
                    // only the form flat_map(f).copied().collect() over byte slices
                    _ => {
                        let r = fin(parse_quote!(#v));
                        let _ = r;
                        vec![parse_quote!(let #v = #a;), parse_quote!(v_extend_copied(&mut OUT__, #v);)]
                    }
                }
            }
            cur = match cur {
                c => c,
            };
            let mut r = nest(tx, &stg, cur, ca, &final_stage);
            r.extend(ge);
            r
        };
        let mut it = self.iteration(&rest, &tag, mark2, None, body);
        // patch OUT__
        for s in it.iter_mut() {
            let o: Expr = parse_quote!(#out);
            Replace { name: "OUT__", with: &o }.visit_stmt_mut(s);
        }
        if tname == "eq" {
            it.push(Stmt::Expr(parse_quote!(if #out { match #other.next() { Some(_) => { #out = false; } None => {} } }), None));
        }
        // "before": directly before the loop
        let at = it.iter().rposition(|s| matches!(s, Stmt::Expr(Expr::While(_) | Expr::Loop(_), _))).unwrap_or(0);
        let tail = it.split_off(at);
        pre.extend(it);
        pre.extend(gb);
        pre.extend(tail);
        pre.extend(ga);
        Some(parse_quote!({ #(#pre)* #result }))
    }
    fn loop_mark(&self, key: &str) -> Stmt {
        let k = id(key);
        Stmt::Macro(StmtMacro { attrs: vec![], mac: parse_quote!(__L!(#k)), semi_token: Some(Default::default()) })
    }
    fn chain_ghost(&mut self, n: usize, what: &str) -> Vec<Stmt> {
        self.named_ghost(&format!("chain {} {}", n, what))
    }
    fn named_ghost(&mut self, a: &str) -> Vec<Stmt> {
        let mut v = vec![];
        for (i, g) in self.fc.ghosts.iter().enumerate() {
            if g.0 == a {
                self.used_ghosts.insert(i);
                v.push(gmark(i));
            }
        }
        v
    }

    /// option / result combinators with closure arguments, as matches
    fn combinator(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let r = &m.receiver;
        let a0 = m.args.first();
        let v = id("v__");
        let clo = |f: &Expr| matches!(f, Expr::Closure(_));
        match (m.method.to_string().as_str(), a0) {
            ("map", Some(f)) => {
                let b = apply_fn(f, parse_quote!(#v));
                Some(parse_quote!(match #r { Some(#v) => Some(#b), None => None }))
            }
            ("and_then", Some(f)) if clo(f) => {
                let b = apply_fn(f, parse_quote!(#v));
                Some(parse_quote!(match #r { Some(#v) => #b, None => None }))
            }
            ("ok_or_else", Some(f)) => {
                let b = thunk(f);
                Some(parse_quote!(match #r { Some(#v) => Ok(#v), None => Err(#b) }))
            }
            // arguments that are not closures are evaluated in any case
            ("ok_or", Some(b)) => Some(parse_quote!(match (#r, #b) { (Some(#v), _) => Ok(#v), (None, d__) => Err(d__) })),
            ("unwrap_or", Some(b)) => Some(parse_quote!(match (#r, #b) { (Some(#v), _) => #v, (None, d__) => d__ })),
            ("or", Some(b)) => Some(parse_quote!(match (#r, #b) { (Some(#v), _) => Some(#v), (None, d__) => d__ })),
            ("and", Some(b)) => Some(parse_quote!(match (#r, #b) { (Some(_), d__) => d__, (None, _) => None })),
            ("xor", Some(b)) => Some(parse_quote!(match (#r, #b) { (Some(#v), None) => Some(#v), (None, d__) => d__, (Some(_), Some(_)) => None })),
            ("or_else", Some(f)) => {
                let b = thunk(f);
                Some(parse_quote!(match #r { Some(#v) => Some(#v), None => #b }))
            }
            ("unwrap_or_else", Some(f)) => {
                let b = thunk(f);
                Some(parse_quote!(match #r { Some(#v) => #v, None => #b }))
            }
            ("filter", Some(f)) if clo(f) => {
                let b = apply_fn(f, parse_quote!((&#v)));
                Some(parse_quote!(match #r { Some(#v) => if #b { Some(#v) } else { None }, None => None }))
            }
            ("then", Some(f)) => {
                let b = thunk(f);
                Some(parse_quote!(if #r { Some(#b) } else { None }))
            }
            ("then_some", Some(b)) => Some(parse_quote!(match (#r, #b) { (c__, d__) => if c__ { Some(d__) } else { None } })),
            ("map_or_else", Some(d)) => {
                let d = thunk(d);
                let b = apply_fn(&m.args[1], parse_quote!(#v));
                Some(parse_quote!(match #r { Some(#v) => #b, None => #d }))
            }
            ("is_none_or", Some(f)) => {
                let b = apply_fn(f, parse_quote!(#v));
                Some(parse_quote!(match #r { Some(#v) => #b, None => true }))
            }
            ("map_err", Some(f)) => {
                let b = apply_fn(f, parse_quote!(#v));
                Some(parse_quote!(match #r { Ok(#v) => Ok(#v), Err(#v) => Err(#b) }))
            }
            ("map_or", Some(d)) => {
                let b = apply_fn(&m.args[1], parse_quote!(#v));
                Some(parse_quote!(match (#r, #d) { (Some(#v), _) => #b, (None, d__) => d__ }))
            }
            ("is_some_and", Some(f)) => {
                let b = apply_fn(f, parse_quote!(#v));
                Some(parse_quote!(match #r { Some(#v) => #b, None => false }))
            }
            _ => None,
        }
    }
}

/// statements that bind the item (leading lets that mention the counter) go before the increment
fn split_binding(b: Vec<Stmt>, iv: &Ident) -> (Vec<Stmt>, Vec<Stmt>) {
    let mut last = 0;
    let s = iv.to_string();
    for (i, st) in b.iter().enumerate() {
        let uses = st.to_token_stream().into_iter().any(|t| has_ident(&t, &s));
        if uses {
            last = i + 1;
        }
    }
    if b[..last].iter().all(|s| matches!(s, Stmt::Local(_))) {
        let r = b[last..].to_vec();
        (b[..last].to_vec(), r)
    } else {
        // an item used inside a larger statement: the counter advances at the end instead; such
        // bodies (generated ones) contain no `continue`
        let mut f = b;
        f.push(parse_quote!(__NOINC__;));
        (f, vec![])
    }
}
fn has_ident(t: &proc_macro2::TokenTree, s: &str) -> bool {
    match t {
        proc_macro2::TokenTree::Ident(i) => i == s,
        proc_macro2::TokenTree::Group(g) => g.stream().into_iter().any(|t| has_ident(&t, s)),
        _ => false,
    }
}

fn gmark(i: usize) -> Stmt {
    let l = LitInt::new(&i.to_string(), Span::call_site());
    Stmt::Macro(StmtMacro { attrs: vec![], mac: parse_quote!(__G!(#l)), semi_token: Some(Default::default()) })
}

struct Number {
    n: usize,
}
impl Number {
    fn mark(&mut self, b: &mut Block) {
        let k = id(&format!("l{}", self.n));
        self.n += 1;
        b.stmts.insert(0, Stmt::Macro(StmtMacro { attrs: vec![], mac: parse_quote!(__L!(#k)), semi_token: Some(Default::default()) }));
    }
}
impl VisitMut for Number {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(f) => self.mark(&mut f.body),
            Expr::While(f) => self.mark(&mut f.body),
            Expr::Loop(f) => self.mark(&mut f.body),
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e)
    }
}
fn loop_no(b: &Block) -> Option<String> {
    if let Some(Stmt::Macro(m)) = b.stmts.first() {
        if m.mac.path.is_ident("__L") {
            return Some(m.mac.tokens.to_string());
        }
    }
    None
}

struct Ghost<'a> {
    fc: &'a FnC,
    used: BTreeSet<usize>,
    count: BTreeMap<usize, usize>,
}
impl Ghost<'_> {
    fn hit(&mut self, kind: &str, text: &str) -> Vec<Stmt> {
        let mut v = vec![];
        for (i, (a, _)) in self.fc.ghosts.iter().enumerate() {
            if let Some(p) = a.strip_prefix(kind) {
                let p = match p.strip_prefix(' ') {
                    Some(p) => p.trim(),
                    None => continue,
                };
                let (p, k) = match p.rsplit_once('#') {
                    Some((q, k)) if k.parse::<usize>().is_ok() => (q.trim(), k.parse::<usize>().unwrap()),
                    _ => (p, 0),
                };
                if text.starts_with(&norm(p)) {
                    let c = self.count.entry(i).or_insert(0);
                    *c += 1;
                    if *c - 1 == k {
                        self.used.insert(i);
                        v.push(gmark(i));
                    }
                }
            }
        }
        v
    }
    fn exact(&mut self, anchor: &str) -> Vec<Stmt> {
        let mut v = vec![];
        for (i, (a, _)) in self.fc.ghosts.iter().enumerate() {
            if a == anchor {
                self.used.insert(i);
                v.push(gmark(i));
            }
        }
        v
    }
    fn func(&mut self, b: &mut Block) {
        let s = self.exact("start");
        for (i, x) in s.into_iter().enumerate() {
            b.stmts.insert(i, x);
        }
        let e = self.exact("end");
        if !e.is_empty() {
            push_end(b, e);
        }
    }
}
fn push_end(b: &mut Block, e: Vec<Stmt>) {
    match b.stmts.last().cloned() {
        Some(Stmt::Expr(x, None)) if !matches!(x, Expr::While(_) | Expr::ForLoop(_)) => {
            b.stmts.pop();
            b.stmts.push(parse_quote!(let r__ = #x;));
            b.stmts.extend(e);
            b.stmts.push(Stmt::Expr(parse_quote!(r__), None));
        }
        _ => b.stmts.extend(e),
    }
}
impl VisitMut for Ghost<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let n = b.stmts.len();
        let mut out: Vec<Stmt> = vec![];
        for (i, s) in b.stmts.iter_mut().enumerate() {
            let t = norm(&s.to_token_stream().to_string());
            let mut before = self.hit("before", &t);
            let mut after = self.hit("after", &t);
            if let Stmt::Expr(e, _) = s {
                let l = match e {
                    Expr::ForLoop(f) => loop_no(&f.body),
                    Expr::While(f) => loop_no(&f.body),
                    Expr::Loop(f) => loop_no(&f.body),
                    _ => None,
                };
                if let Some(l) = l {
                    before.extend(self.exact(&format!("loop {} before", l)));
                    after.extend(self.exact(&format!("loop {} after", l)));
                }
            }
            let tail = i + 1 == n && matches!(s, Stmt::Expr(e, None) if !matches!(e, Expr::While(_) | Expr::ForLoop(_)));
            visit_mut::visit_stmt_mut(self, s);
            out.extend(before);
            if tail && !after.is_empty() {
                if let Stmt::Expr(e, None) = s {
                    out.push(parse_quote!(let r__ = #e;));
                    out.extend(after);
                    out.push(Stmt::Expr(parse_quote!(r__), None));
                }
            } else {
                out.push(s.clone());
                out.extend(after);
            }
        }
        b.stmts = out;
        if let Some(l) = loop_no(b) {
            let st = self.exact(&format!("loop {} start", l));
            for (i, x) in st.into_iter().enumerate() {
                b.stmts.insert(1 + i, x);
            }
            let en = self.exact(&format!("loop {} end", l));
            b.stmts.extend(en);
        }
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        let t = norm(&a.pat.to_token_stream().to_string());
        let g = self.hit("arm", &t);
        let g2 = self.hit("armend", &t);
        visit_mut::visit_arm_mut(self, a);
        if !g.is_empty() || !g2.is_empty() {
            let e = &a.body;
            let mut b: Block = match &**e {
                Expr::Block(b) => b.block.clone(),
                e => parse_quote!({ #e }),
            };
            for (i, x) in g.into_iter().enumerate() {
                b.stmts.insert(i, x);
            }
            if !g2.is_empty() {
                push_end(&mut b, g2);
            }
            a.body = parse_quote!(#b);
            a.comma = None;
        }
    }
}

/// replace `&x` sub-patterns below constructors by fresh names; returns the derefs to add
fn deref_pats(p: &mut Pat, top: bool, out: &mut Vec<Stmt>, n: &mut usize) {
    match p {
        Pat::Reference(r) if !top => {
            if let Pat::Ident(i) = &*r.pat {
                let x = i.ident.clone();
                *n += 1;
                let y = id(&format!("{}__ref", x));
                out.push(parse_quote!(let #x = *#y;));
                *p = parse_quote!(#y);
            }
        }
        Pat::TupleStruct(t) => {
            for e in t.elems.iter_mut() {
                deref_pats(e, false, out, n)
            }
        }
        Pat::Tuple(t) => {
            for e in t.elems.iter_mut() {
                deref_pats(e, false, out, n)
            }
        }
        _ => {}
    }
}

fn is_flat(b: &Block) -> bool {
    matches!(b.stmts.first(), Some(Stmt::Expr(Expr::Path(p), _)) if p.path.is_ident("__FLAT__"))
}
struct Unflat;
impl VisitMut for Unflat {
    fn visit_block_mut(&mut self, b: &mut Block) {
        if is_flat(b) {
            b.stmts.remove(0);
        }
        visit_mut::visit_block_mut(self, b)
    }
}

impl VisitMut for Tx<'_> {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(e) = self.mac(&m.mac) {
                *s = Stmt::Expr(e, Some(Default::default()));
            }
        }
        visit_mut::visit_stmt_mut(self, s)
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // `use` items inside bodies are dropped
        b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Use(_))));
        visit_mut::visit_block_mut(self, b);
        // the counters of a rewritten `for` statement live in the enclosing block
        let mut out: Vec<Stmt> = vec![];
        for s in b.stmts.drain(..) {
            match s {
                Stmt::Expr(Expr::Block(x), _) if is_flat(&x.block) => out.extend(x.block.stmts.into_iter().skip(1)),
                // a block right behind a loop would be read as part of the loop's specification
                Stmt::Expr(Expr::Block(_), _) if matches!(out.last(), Some(Stmt::Expr(Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_), _))) => {
                    out.push(parse_quote!(();));
                    out.push(s)
                }
                s => out.push(s),
            }
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // ---- pre-order rewrites
        match e {
            Expr::Macro(m) => {
                if let Some(x) = self.mac(&m.mac) {
                    *e = x;
                }
            }
            Expr::ForLoop(f) => {
                let no = loop_no(&f.body).unwrap_or("l999".into());
                let tag = no.trim_start_matches('l').to_string();
                let mut stmts = f.body.stmts.clone();
                let mark: Vec<Stmt> = vec![stmts.remove(0)];
                let pat = (*f.pat).clone();
                let src = (*f.expr).clone();
                let label = f.label.clone();
                let v = self.iteration(&src, &tag, mark, label, |_, item| {
                    let mut o = bind(&pat, item);
                    o.extend(stmts);
                    o
                });
                let mut v = v;
                let at = v.iter().rposition(|s| matches!(s, Stmt::Expr(Expr::While(_) | Expr::Loop(_), _))).unwrap_or(0);
                let tail = v.split_off(at);
                v.extend(self.named_ghost(&format!("loop {} enter", no)));
                v.extend(tail);
                *e = parse_quote!({ __FLAT__; #(#v)* });
            }
            Expr::While(w) => {
                if let Expr::Let(l) = &*w.cond {
                    let mut p = (*l.pat).clone();
                    let mut ds = vec![];
                    let mut n = 0;
                    deref_pats(&mut p, true, &mut ds, &mut n);
                    let mut stmts = w.body.stmts.clone();
                    let mark = stmts.remove(0);
                    let label = w.label.clone();
                    let pre = match loop_no(&w.body) {
                        Some(no) => self.named_ghost(&format!("loop {} pre", no)),
                        None => vec![],
                    };
                    let x = &l.expr;
                    *e = parse_quote!(#label loop { #mark #(#pre)* match #x { #p => { #(#ds)* #(#stmts)* } _ => { break; } } });
                }
            }
            Expr::If(i) => {
                if let Expr::Let(l) = &mut *i.cond {
                    let mut ds = vec![];
                    let mut n = 0;
                    deref_pats(&mut l.pat, true, &mut ds, &mut n);
                    for (k, d) in ds.into_iter().enumerate() {
                        i.then_branch.stmts.insert(k, d);
                    }
                }
            }
            Expr::Match(m) => {
                // match MAP.entry(K) { Entry::Occupied(o) => A, Entry::Vacant(v) => B }
                if let Some(x) = self.entry(m) {
                    *e = x;
                } else {
                    for a in m.arms.iter_mut() {
                        let mut ds = vec![];
                        let mut n = 0;
                        deref_pats(&mut a.pat, true, &mut ds, &mut n);
                        if !ds.is_empty() {
                            let b = &a.body;
                            a.body = parse_quote!({ #(#ds)* #b });
                        }
                    }
                }
            }
            // &self[a..b] of a std type
            // a Cow in place of what it dereferences to
            Expr::Reference(r) if r.mutability.is_some() && self.sinkvars.contains(&norm(&r.expr.to_token_stream().to_string())) => {
                *e = (*r.expr).clone();
            }
            // x.as_ref().as_ref() of a Cow: its text, then the bytes
            Expr::MethodCall(m) if m.method == "as_ref" && matches!(&*m.receiver, Expr::MethodCall(q) if q.method == "as_ref") => {
                m.method = id("as_bytes");
            }
            Expr::Reference(r) if self.derefs && norm(&r.expr.to_token_stream().to_string()) == "self.0" => {
                *e = parse_quote!(self.0.as_ref());
            }
            Expr::MethodCall(m) if self.derefs && m.method != "as_ref" && m.method != "clone" && norm(&m.receiver.to_token_stream().to_string()) == "self.0" => {
                let r: Expr = parse_quote!(self.0.as_ref());
                *m.receiver = r;
            }
            Expr::Reference(r) if self.stdself && matches!(&*r.expr, Expr::Index(_)) => {
                if let Expr::Index(ix) = &*r.expr {
                    if let (Expr::Path(p), Expr::Range(rg)) = (&*ix.expr, strip_paren(&ix.index)) {
                        if p.path.is_ident("self") {
                            *e = match (&rg.start, &rg.end) {
                                (Some(a), Some(b)) => parse_quote!(self.std_slice(#a, #b)),
                                (Some(a), None) => parse_quote!(self.std_from(#a)),
                                (None, Some(b)) => parse_quote!(self.std_to(#b)),
                                (None, None) => parse_quote!(self),
                            };
                        }
                    }
                }
            }
            // x.parse().ok() / std::str::from_utf8(x).ok()
            Expr::MethodCall(m) if m.method == "ok" && m.args.is_empty() && matches!(&*m.receiver, Expr::MethodCall(q) if q.method == "parse") => {
                if let Expr::MethodCall(q) = &*m.receiver {
                    let x = &q.receiver;
                    *e = parse_quote!(v_parse_usize(#x));
                }
            }
            Expr::MethodCall(m) if m.method == "ok" && m.args.is_empty() && matches!(&*m.receiver, Expr::Call(q) if norm(&q.func.to_token_stream().to_string()).ends_with("from_utf8")) => {
                if let Expr::Call(q) = &*m.receiver {
                    let x = &q.args[0];
                    *e = parse_quote!(v_from_utf8(#x));
                }
            }
            Expr::MethodCall(m) => {
                if self.stdself && matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self")) {
                    m.method = id(&format!("std_{}", m.method));
                }
                if let Some((f, body)) = self.cr.inline.get(&m.method.to_string()) {
                    if matches!(m.args.first(), Some(Expr::Closure(_))) {
                        let mut b = body.clone();
                        BetaCall { f, clo: &m.args[0] }.visit_block_mut(&mut b);
                        if b.stmts.len() == 1 {
                            if let Stmt::Expr(x, _) = &b.stmts[0] {
                                *e = x.clone();
                            }
                        } else {
                            *e = parse_quote!(#b);
                        }
                        self.visit_expr_mut(e);
                        return;
                    }
                }
                if let Some(x) = self.extend_all(m) {
                    *e = x;
                } else if let Some(x) = self.chain(m) {
                    *e = x;
                } else if m.method == "splice" {
                    // X.splice(a..b, ITER)
                    let (r, rg, it) = (&m.receiver, &m.args[0], &m.args[1]);
                    if let Expr::Range(rg) = strip_paren(rg) {
                        let (a, b) = (&rg.start, &rg.end);
                        let it = if self.is_iter(it) { it.clone() } else { it.clone() };
                        *e = parse_quote!(v_splice(#r, #a, #b, #it));
                    }
                } else if m.method == "extend" && self.is_iter(&m.args[0]) {
                    let (r, it) = (m.receiver.clone(), m.args[0].clone());
                    let n = self.nchain;
                    self.nchain += 1;
                    let tag = format!("c{}", n);
                    let mut mark = vec![self.loop_mark(&tag)];
                    mark.extend(self.chain_ghost(n, "start"));
                    let ge = self.chain_ghost(n, "end");
                    let mut v = self.chain_ghost(n, "before");
                    let after = self.chain_ghost(n, "after");
                    v.extend(self.iteration(&it, &tag, mark, None, |_, item| {
                        let mut o: Vec<Stmt> = vec![parse_quote!(let x__ = #item;), parse_quote!(#r.push_item(x__);)];
                        o.extend(ge);
                        o
                    }));
                    v.extend(after);
                    *e = parse_quote!({ #(#v)* });
                } else if let Some(x) = self.combinator(m) {
                    *e = x;
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        // ---- post-order rewrites
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let new = match n.as_str() {
                    "iter" if !self.cr.iter_fns.contains("-iter") => "v_iter",
                    "into_iter" => "v_into_iter",
                    "rev" => "v_rev",
                    "copied" => "v_copied",
                    "chain" => "v_chain",
                    "fuse" => "v_fuse",
                    "peekable" => "v_peekable",
                    "windows" => "v_windows",
                    "clone" => "vclone",
                    "abs" => "v_abs",
                    "contains" => "v_contains",
                    "swap" => "v_swap",
                    "extend_from_slice" => "v_extend",
                    "into" => "v_into",
                    "chars" => "v_chars",
                    "get" if matches!(m.args.first().map(strip_paren), Some(Expr::Range(_))) && self.strlit => "get",
                    _ => "",
                };
                if n == "write_all" {
                    for a in m.args.iter_mut() {
                        if matches!(a, Expr::Reference(r) if matches!(&*r.expr, Expr::Array(_))) {
                            let b = a.clone();
                            *a = parse_quote!(v_lit(#b));
                        }
                    }
                }
                if let Some(x) = self.remethod.get(&n) {
                    m.method = id(x);
                } else if !new.is_empty() {
                    m.method = id(new);
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &mut *c.func {
                    let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    match s.join("::").as_str() {
                        "cmp::min" | "std::cmp::min" => *c.func = parse_quote!(v_min),
                        "cmp::max" | "std::cmp::max" => *c.func = parse_quote!(v_max),
                        "mem::replace" | "std::mem::replace" => *c.func = parse_quote!(v_mem_replace),
                        "mem::swap" | "std::mem::swap" => *c.func = parse_quote!(core::mem::swap),
                        "str::from_utf8" | "std::str::from_utf8" => *c.func = parse_quote!(v_from_utf8r),
                        "String::from_utf8" => *c.func = parse_quote!(v_string_from_utf8),
                        "iter::once" => *c.func = parse_quote!(v_once),
                        x if self.droparg.contains(x) => {
                            c.args.clear();
                        }
                        _ => {}
                    }
                }
            }
            Expr::Range(r) => {
                // a range handed to an iterator position is rewritten by its user
                let _ = r;
            }
            Expr::Index(ix) => {
                if let Expr::Path(p) = &*ix.expr {
                    if let Some(v) = p.path.get_ident() {
                        if let Some(t) = self.ixvars.get(&v.to_string()) {
                            let (par, body) = &self.cr.index_impls[t];
                            let mut b = body.clone();
                            let i = (*ix.index).clone();
                            let i: Expr = if matches!(i, Expr::Path(_) | Expr::Lit(_)) { i } else { parse_quote!((#i)) };
                            Replace { name: &par.to_string(), with: &i }.visit_expr_mut(&mut b);
                            let s: Expr = parse_quote!(#v);
                            Replace { name: "self", with: &s }.visit_expr_mut(&mut b);
                            *e = b;
                        }
                    }
                }
            }
            Expr::Lit(l) if self.strlit => {
                let bytes: Option<Vec<u8>> = match &l.lit {
                    Lit::Str(s) => Some(s.value().into_bytes()),
                    Lit::ByteStr(s) => Some(s.value()),
                    _ => None,
                };
                if let Some(b) = bytes {
                    let b = b.iter().map(|x| LitInt::new(&format!("{}u8", x), Span::call_site()));
                    let b: Vec<_> = b.collect();
                    *e = if self.plain_lit { parse_quote!(v_lit(&[#(#b),*])) } else { parse_quote!({ let l__ = v_lit(&[#(#b),*]); __A!(#(#b),*); l__ }) };
                } else if let Lit::Byte(b) = &l.lit {
                    let b = LitInt::new(&format!("{}u8", b.value()), Span::call_site());
                    *e = parse_quote!(#b);
                }
            }
            Expr::Lit(l) => {
                if let Lit::Byte(b) = &l.lit {
                    let b = LitInt::new(&format!("{}u8", b.value()), Span::call_site());
                    *e = parse_quote!(#b);
                }
            }
            // `|` and `&` of truth values: both sides are evaluated
            Expr::Binary(b) if matches!(b.op, BinOp::BitOr(_) | BinOp::BitAnd(_)) && (is_bool(&b.left) || is_bool(&b.right)) => {
                let (l, r) = (&b.left, &b.right);
                let (x, y) = (self.fresh("b"), self.fresh("b"));
                *e = if matches!(b.op, BinOp::BitOr(_)) { parse_quote!({ let #x = #l; let #y = #r; #x || #y }) } else { parse_quote!({ let #x = #l; let #y = #r; #x && #y }) };
            }
            Expr::Binary(b) => {
                let op = match b.op {
                    BinOp::Eq(_) => Some(false),
                    BinOp::Ne(_) => Some(true),
                    _ => None,
                };
                if let Some(neg) = op {
                    let (l, r) = (&b.left, &b.right);
                    let lt = norm(&l.to_token_stream().to_string());
                    let rt = norm(&r.to_token_stream().to_string());
                    if lt.contains("v_lit(") || rt.contains("v_lit(") || self.eqfn.iter().any(|x| (lt.contains(x.as_str()) || rt.contains(x.as_str()))) {
                        let strip = |e: &Expr| -> Expr {
                            match e {
                                Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => (*u.expr).clone(),
                                e => e.clone(),
                            }
                        };
                        let (l, r) = (strip(l), strip(r));
                        *e = if neg { parse_quote!(!v_eq(#l, #r)) } else { parse_quote!(v_eq(#l, #r)) };
                    }
                }
            }
            Expr::While(w) => noinc(&mut w.body),
            _ => {}
        }
    }
}

/// see split_binding: drop the leading increment when the body places it at the end
fn noinc(b: &mut Block) {
    let p = b.stmts.iter().position(|s| norm(&s.to_token_stream().to_string()) == "__NOINC__;");
    if let Some(p) = p {
        // __NOINC__; is directly followed by the increment, which already is at the end
        b.stmts.remove(p);
    }
}

impl Tx<'_> {
    fn mac(&mut self, m: &Macro) -> Option<Expr> {
        let n = m.path.segments.last().unwrap().ident.to_string();
        let args: syn::punctuated::Punctuated<Expr, Token![,]> = match n.as_str() {
            "assert" | "assert_eq" | "debug_assert" | "debug_assert_eq" | "assert_ne" => m.parse_body_with(syn::punctuated::Punctuated::parse_terminated).ok()?,
            _ => Default::default(),
        };
        match n.as_str() {
            "assert" | "debug_assert" => {
                let c = &args[0];
                Some(parse_quote!(v_assert(#c)))
            }
            "assert_eq" | "debug_assert_eq" => {
                let (a, b) = (&args[0], &args[1]);
                Some(parse_quote!(v_assert(#a == #b)))
            }
            "assert_ne" => {
                let (a, b) = (&args[0], &args[1]);
                Some(parse_quote!(v_assert(#a != #b)))
            }
            "unreachable" | "panic" | "todo" | "unimplemented" => Some(parse_quote!(return v_unreachable())),
            "write" | "writeln" => self.write_macro(m, n == "writeln"),
            _ => None,
        }
    }
    /// write!(w, "lit {} lit {}", a, b) -> sequence of writes, `?` applied between them
    fn write_macro(&mut self, m: &Macro, nl: bool) -> Option<Expr> {
        let args: syn::punctuated::Punctuated<Expr, Token![,]> = m.parse_body_with(syn::punctuated::Punctuated::parse_terminated).ok()?;
        let w = &args[0];
        let mut parts: Vec<Expr> = vec![];
        let mut k = 2;
        if let Some(Expr::Lit(l)) = args.get(1).cloned().as_ref() {
            if let Lit::Str(s) = &l.lit {
                let v: Vec<char> = s.value().chars().collect();
                let mut lit = String::new();
                let mut i = 0;
                while i < v.len() {
                    let next = v.get(i + 1).copied();
                    if (v[i] == '{' || v[i] == '}') && next == Some(v[i]) {
                        lit.push(v[i]);
                        i += 2;
                    } else if v[i] == '}' {
                        return None;
                    } else if v[i] == '{' {
                        let n = v[i..].iter().position(|c| *c == '}')?;
                        let name: String = v[i + 1..i + n].iter().collect();
                        i += n + 1;
                        if !lit.is_empty() {
                            parts.push(parse_quote!(v_put(#w, #lit)));
                            lit.clear();
                        }
                        if name.is_empty() {
                            let a = args.get(k)?;
                            k += 1;
                            parts.push(parse_quote!(v_fmt(#w, &(#a))));
                        } else {
                            let a = parse_str::<syn::Ident>(&name).ok()?;
                            parts.push(parse_quote!(v_fmt(#w, &#a)));
                        }
                    } else {
                        lit.push(v[i]);
                        i += 1;
                    }
                }
                if nl {
                    lit.push('\n');
                }
                if !lit.is_empty() {
                    parts.push(parse_quote!(v_put(#w, #lit)));
                }
            }
        } else if nl {
            parts.push(parse_quote!(v_put(#w, "\n")));
        }
        let last = parts.pop()?;
        if parts.is_empty() {
            Some(last)
        } else {
            Some(parse_quote!({ #(#parts?;)* #last }))
        }
    }
    fn entry(&mut self, m: &ExprMatch) -> Option<Expr> {
        if let Expr::MethodCall(c) = &*m.expr {
            if c.method == "entry" && m.arms.len() == 2 {
                let (map, key) = (&c.receiver, &c.args[0]);
                let mut occ = None;
                let mut vac = None;
                for a in &m.arms {
                    if let Pat::TupleStruct(t) = &a.pat {
                        let n = t.path.segments.last().unwrap().ident.to_string();
                        let v = match &t.elems[0] {
                            Pat::Ident(i) => i.ident.clone(),
                            _ => return None,
                        };
                        if n == "Occupied" {
                            occ = Some((v, a.body.clone()));
                        } else if n == "Vacant" {
                            vac = Some((v, a.body.clone()));
                        }
                    }
                }
                let (ov, ob) = occ?;
                let (vv, vb) = vac?;
                let mut ob = (*ob).clone();
                let mut vb = (*vb).clone();
                EntryUse { var: ov.to_string(), with: parse_quote!(got__), map: None }.visit_expr_mut(&mut ob);
                EntryUse { var: vv.to_string(), with: parse_quote!(key__), map: Some((**map).clone()) }.visit_expr_mut(&mut vb);
                return Some(parse_quote!({ let key__ = #key; match #map.lookup(key__) { Some(got__) => #ob, None => #vb } }));
            }
        }
        None
    }
}

struct EntryUse {
    var: String,
    with: Expr,
    map: Option<Expr>,
}
impl VisitMut for EntryUse {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        // *o.get() -> got__ ; *v.insert(x) -> map.store(key__, x)
        if let Expr::Unary(u) = e {
            if let (UnOp::Deref(_), Expr::MethodCall(m)) = (&u.op, &*u.expr) {
                if let Expr::Path(p) = &*m.receiver {
                    if p.path.is_ident(&self.var) {
                        if m.method == "get" && self.map.is_none() {
                            *e = self.with.clone();
                        } else if m.method == "insert" {
                            if let Some(map) = &self.map {
                                let (x, k) = (&m.args[0], &self.with);
                                *e = parse_quote!(#map.store(#k, #x));
                            }
                        }
                    }
                }
            }
        }
    }
}

#[allow(dead_code)]
pub fn unused() {
    let _ = quote!();
}
