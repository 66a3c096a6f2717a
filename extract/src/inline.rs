//! Calls of functions that have no contract (helpers extracted from a function under contract, say) are
//! replaced by their bodies, so that the caller is still verified as a whole.  A call that cannot be
//! replaced faithfully is left alone: the caller is then undecided.
use crate::norm;
use proc_macro2::{Group, Span, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
pub struct Helper {
    sig: Signature,
    block: Block,
    /// type of the inherent impl it stands in
    ty: Option<String>,
}

#[derive(Default)]
pub struct Helpers {
    fns: BTreeMap<String, Vec<Helper>>,
}

/// names of std methods: a method of that name is not recognisable by its name
const STD: &[&str] = &[
    "iter", "into_iter", "iter_mut", "len", "is_empty", "get", "get_mut", "push", "pop", "insert", "remove", "map", "find", "position", "contains", "starts_with", "ends_with", "take", "skip", "next", "peek", "rev", "zip", "chain", "fold", "all", "any", "count", "collect", "filter",
    "filter_map", "flat_map", "flatten", "last", "first", "min", "max", "clone", "copied", "cloned", "as_ref", "as_mut", "as_str", "as_bytes", "as_slice", "to_vec", "to_owned", "to_string", "into", "from", "unwrap", "expect", "ok", "err", "ok_or", "and_then", "or_else", "eq", "ne", "cmp",
    "lt", "le", "gt", "ge", "abs", "pow", "extend", "append", "clear", "truncate", "split_at", "split_off", "splice", "drain", "retain", "swap", "sort", "chunks", "windows", "join", "concat", "lines", "chars", "bytes", "trim", "parse", "replace", "entry", "or_insert", "fmt", "write", "write_all", "write_str", "write_char",
    "flush", "index", "index_mut", "deref", "borrow", "default", "new", "is_some", "is_none", "is_ok", "is_err", "nth", "step_by", "enumerate", "sum", "product", "start", "end", "with_capacity", "reserve", "resize", "fill", "saturating_sub", "saturating_add", "checked_add", "checked_sub", "prefix", "suffix", "bold", "paint", "normal",
];

fn id(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}
fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| (a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("test")) || a.path().is_ident("test"))
}

impl Helpers {
    pub fn add_file(&mut self, f: &File, contracted: &BTreeSet<String>) {
        self.items(&f.items, contracted)
    }
    fn items(&mut self, items: &[Item], contracted: &BTreeSet<String>) {
        for i in items {
            match i {
                Item::Fn(f) if !is_test(&f.attrs) => self.add(&f.sig, &f.block, None, contracted),
                Item::Impl(im) if im.trait_.is_none() && !is_test(&im.attrs) => {
                    let t = crate::self_name(&im.self_ty);
                    for x in &im.items {
                        if let ImplItem::Fn(f) = x {
                            self.add(&f.sig, &f.block, Some(t.clone()), contracted);
                        }
                    }
                }
                _ => {}
            }
        }
    }
    fn add(&mut self, sig: &Signature, block: &Block, ty: Option<String>, contracted: &BTreeSet<String>) {
        let n = sig.ident.to_string();
        if contracted.contains(&n) || n == "for_each" || (ty.is_some() && STD.contains(&n.as_str())) || sig.asyncness.is_some() || sig.unsafety.is_some() {
            return;
        }
        self.fns.entry(n).or_default().push(Helper { sig: sig.clone(), block: block.clone(), ty });
    }
    /// helpers that (may) call themselves are not put in place of their calls
    pub fn drop_recursive(&mut self) {
        let uses: BTreeMap<String, BTreeSet<String>> = self.fns.iter().map(|(n, v)| (n.clone(), v.iter().flat_map(|h| idents(&h.block.to_token_stream())).filter(|x| self.fns.contains_key(x)).collect())).collect();
        self.fns.retain(|n, _| {
            let mut seen: BTreeSet<String> = BTreeSet::new();
            let mut todo: Vec<String> = uses[n].iter().cloned().collect();
            while let Some(x) = todo.pop() {
                if seen.insert(x.clone()) {
                    todo.extend(uses[&x].iter().cloned());
                }
            }
            !seen.contains(n)
        });
    }
    fn get(&self, n: &str, method: bool) -> Option<&Helper> {
        match self.fns.get(n) {
            Some(v) if v.len() == 1 && v[0].ty.is_some() == method => Some(&v[0]),
            _ => None,
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Place {
    /// the value of the call is the value of the caller (or of its `return`)
    Tail,
    /// the call is the operand of `?`
    Try,
    Value,
}

pub struct Inliner<'a> {
    pub h: &'a Helpers,
    pub this: String,
    depth: usize,
    n: usize,
    pub done: BTreeSet<String>,
    /// parameters of the caller that are references
    refs: BTreeSet<String>,
}

impl<'a> Inliner<'a> {
    pub fn new(h: &'a Helpers, this: &str) -> Inliner<'a> {
        Inliner { h, this: this.to_string(), depth: 0, n: 0, done: BTreeSet::new(), refs: BTreeSet::new() }
    }
    pub fn function(&mut self, sig: &Signature, b: &mut Block) {
        self.refs = refs_of(sig);
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            self.tail(e);
        }
        self.visit_block_mut(b);
    }
    fn tail(&mut self, e: &mut Expr) {
        match e {
            Expr::Paren(p) => self.tail(&mut p.expr),
            Expr::Block(b) => {
                if let Some(Stmt::Expr(e, None)) = b.block.stmts.last_mut() {
                    self.tail(e)
                }
            }
            Expr::If(i) => {
                if let Some(Stmt::Expr(e, None)) = i.then_branch.stmts.last_mut() {
                    self.tail(e)
                }
                if let Some((_, x)) = &mut i.else_branch {
                    self.tail(x)
                }
            }
            Expr::Match(m) => {
                for a in m.arms.iter_mut() {
                    self.tail(&mut a.body)
                }
            }
            _ => {
                if let Some(x) = self.call(e, Place::Tail) {
                    *e = x;
                    // what was put in place is in tail position as well
                    self.depth += 1;
                    if self.depth < 6 {
                        self.tail(e);
                    }
                    self.depth -= 1;
                }
            }
        }
    }
    /// helper and arguments (the receiver first) of a call
    fn resolve(&self, e: &Expr) -> Option<(Helper, Option<Expr>, Vec<Expr>)> {
        match e {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let n = s.last().unwrap();
                let q = if s.len() > 1 { Some(s[s.len() - 2].as_str()) } else { None };
                let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                if let Some(q) = q.filter(|q| q.chars().next().unwrap().is_uppercase()) {
                    let h = self.h.get(n, true)?;
                    let t = h.ty.clone().unwrap();
                    if (q == "Self" && t == self.this) || q == t {
                        let recv = if h.sig.receiver().is_some() {
                            if args.is_empty() {
                                return None;
                            }
                            let r = args.remove(0);
                            Some(match r {
                                Expr::Reference(r) => (*r.expr).clone(),
                                r => r,
                            })
                        } else {
                            None
                        };
                        return Some((h.clone(), recv, args));
                    }
                    return None;
                }
                let h = self.h.get(n, false)?;
                Some((h.clone(), None, args))
            }
            Expr::MethodCall(m) => {
                let h = self.h.get(&m.method.to_string(), true)?;
                h.sig.receiver()?;
                Some((h.clone(), Some((*m.receiver).clone()), m.args.iter().cloned().collect()))
            }
            _ => None,
        }
    }
    fn call(&mut self, e: &Expr, pl: Place) -> Option<Expr> {
        if self.depth > 5 {
            return None;
        }
        let (h, recv, args) = self.resolve(e)?;
        let nargs = h.sig.inputs.iter().filter(|a| matches!(a, FnArg::Typed(_))).count();
        if nargs != args.len() {
            return None;
        }
        let mut body = h.block.clone();
        struct Strip;
        impl VisitMut for Strip {
            fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
                a.clear()
            }
        }
        Strip.visit_block_mut(&mut body);
        for s in &body.stmts {
            if matches!(s, Stmt::Item(Item::Fn(_) | Item::Macro(_))) {
                return None;
            }
        }
        // returns
        if leaves(&body) {
            let b = tailify(&body, &h.sig.output);
            body = match (b, pl) {
                (Some(b), _) if !leaves(&b) => b,
                (_, Place::Tail) => body,
                (_, Place::Try) if only_errors_leave(&body) => body,
                _ => return None,
            };
        }
        self.n += 1;
        let n = self.n;
        let mut lets: Vec<Stmt> = vec![];
        let mut late: Vec<Stmt> = vec![];
        let bound = bound_names(&body);
        let mut subst: Vec<(String, Sub)> = vec![];
        let mut used: BTreeSet<String> = BTreeSet::new();
        let all: Vec<String> = recv.iter().chain(args.iter()).map(|x| x.to_token_stream().to_string()).collect();
        let shared = |e: &Expr, k: usize| {
            let i = idents(&e.to_token_stream());
            all.iter().enumerate().any(|(j, a)| j != k && (a.contains("mut") || a.contains('(')) && !idents(&a.parse::<TokenStream>().unwrap()).is_disjoint(&i))
        };
        let mut k = 0;
        if let (Some(r), Some(rc)) = (recv.as_ref().map(|r| strip(r).clone()), h.sig.receiver()) {
            let own = path_ident(&r).as_deref() == Some("self");
            if rc.reference.is_none() && rc.mutability.is_some() {
                let v = id(&format!("self__i{}", n));
                lets.push(parse_quote!(let mut #v = #r;));
                subst.push(("self".into(), Sub::Same(parse_quote!(#v))));
            } else if own {
                // the same name
            } else if pure_place(&r) {
                used.extend(idents(&r.to_token_stream()));
                let isref = path_ident(&r).is_some_and(|i| self.refs.contains(&i));
                if rc.reference.is_none() || isref {
                    subst.push(("self".into(), Sub::Same(r)));
                } else {
                    subst.push(("self".into(), Sub::Place(r, rc.mutability.is_some())));
                }
            } else if rc.reference.is_none() {
                let v = id(&format!("self__i{}", n));
                lets.push(parse_quote!(let #v = #r;));
                subst.push(("self".into(), Sub::Same(parse_quote!(#v))));
            } else if rc.mutability.is_none() {
                let v = id(&format!("self__i{}", n));
                lets.push(parse_quote!(let #v = #r;));
                subst.push(("self".into(), Sub::Place(parse_quote!(#v), false)));
            } else {
                return None;
            }
            k = 1;
        }
        for (p, a) in h.sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { Some(t) } else { None }).zip(args.iter()) {
            let a = strip(a).clone();
            let me = k;
            k += 1;
            let Pat::Ident(pi) = &*p.pat else {
                let pat = &p.pat;
                lets.push(parse_quote!(let #pat = #a;));
                continue;
            };
            let name = pi.ident.to_string();
            let byref = matches!(&*p.ty, Type::Reference(_));
            if let Expr::Closure(c) = &a {
                // the helper's calls of its argument
                let free = idents(&c.to_token_stream());
                let others: BTreeSet<String> = h.sig.inputs.iter().flat_map(|x| idents(&x.to_token_stream())).collect();
                if !free.is_disjoint(&others) || local_closure(&name, c, &mut body.stmts).is_none() {
                    return None;
                }
                continue;
            }
            if bound.contains(&name) {
                // bound again in the body: a variable of its own
                if matches!(&*p.ty, Type::Reference(r) if r.mutability.is_some()) {
                    return None;
                }
                let v = id(&format!("{}__i{}", name, n));
                lets.push(parse_quote!(let #v = #a;));
                let pat = &p.pat;
                late.push(parse_quote!(let #pat = #v;));
                continue;
            }
            if pi.mutability.is_none() && pi.subpat.is_none() && pi.by_ref.is_none() {
                if let (Type::Reference(rt), Expr::Reference(ra)) = (&*p.ty, &a) {
                    if rt.mutability.is_some() == ra.mutability.is_some() && pure_place(&ra.expr) {
                        used.extend(idents(&ra.expr.to_token_stream()));
                        subst.push((name, Sub::Place((*ra.expr).clone(), ra.mutability.is_some())));
                        continue;
                    }
                }
                let ok = pure_place(&a) && (byref || path_ident(&a).is_some() || matches!(a, Expr::Lit(_)));
                if (ok && (byref || !shared(&a, me))) || (matches!(a, Expr::Lit(_))) {
                    used.extend(idents(&a.to_token_stream()));
                    subst.push((name, Sub::Same(a)));
                    continue;
                }
                if matches!(&*p.ty, Type::Reference(r) if r.mutability.is_some()) {
                    return None;
                }
            }
            let v = id(&format!("{}__i{}", name, n));
            if pi.mutability.is_some() {
                lets.push(parse_quote!(let mut #v = #a;));
            } else {
                lets.push(parse_quote!(let #v = #a;));
            }
            subst.push((name, Sub::Same(parse_quote!(#v))));
        }
        // names bound in the body that mean something else in what is put in
        let own: BTreeSet<String> = h.sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { if let Pat::Ident(i) = &*t.pat { Some(i.ident.to_string()) } else { None } } else { None }).collect();
        for b in &bound {
            if used.contains(b) {
                if own.contains(b) {
                    return None;
                }
                Renamer { from: b.clone(), to: format!("{}__i{}", b, n) }.visit_block_mut(&mut body);
            }
        }
        let mut s = Substitute { m: &subst };
        s.visit_block_mut(&mut body);
        // helpers called by the helper
        let mut inner = Inliner { h: self.h, this: h.ty.clone().unwrap_or_else(|| self.this.clone()), depth: self.depth + 1, n: n * 100, done: BTreeSet::new(), refs: self.refs.clone() };
        inner.visit_block_mut(&mut body);
        self.done.extend(inner.done);
        self.done.insert(h.sig.ident.to_string());
        if lets.is_empty() && late.is_empty() && body.stmts.len() == 1 {
            if let Stmt::Expr(x, None) = &body.stmts[0] {
                return Some(match x {
                    Expr::Path(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Lit(_) | Expr::Field(_) | Expr::Paren(_) | Expr::Match(_) | Expr::If(_) | Expr::Block(_) | Expr::Macro(_) => match x {
                        Expr::Match(_) | Expr::If(_) => parse_quote!((#x)),
                        _ => x.clone(),
                    },
                    x => parse_quote!((#x)),
                });
            }
        }
        lets.extend(late);
        lets.extend(body.stmts);
        Some(parse_quote!({ #(#lets)* }))
    }
    /// a helper named in place of a closure
    fn as_closure(&mut self, e: &Expr) -> Option<Expr> {
        let Expr::Path(p) = e else { return None };
        let n = p.path.segments.last()?.ident.to_string();
        let method = p.path.segments.len() > 1 && p.path.segments[p.path.segments.len() - 2].ident.to_string().chars().next()?.is_uppercase();
        let h = self.h.get(&n, method)?;
        let vs: Vec<Ident> = (0..h.sig.inputs.len()).map(|i| id(&format!("a{}__h", i))).collect();
        let call: Expr = parse_quote!(#e(#(#vs),*));
        let b = self.call(&call, Place::Value)?;
        Some(parse_quote!(|#(#vs),*| #b))
    }
}

/// calls of a local closure are replaced by its body; None: it is used in another way
fn local_closure(f: &str, c: &ExprClosure, rest: &mut Vec<Stmt>) -> Option<()> {
    if c.capture.is_some() || c.asyncness.is_some() {
        return None;
    }
    let body = &c.body;
    if leaves(&parse_quote!({ #body })) {
        return None;
    }
    let mut pats: Vec<Pat> = vec![];
    for p in &c.inputs {
        pats.push(match p {
            Pat::Type(t) => (*t.pat).clone(),
            p => p.clone(),
        });
    }
    let params: BTreeSet<String> = pats.iter().flat_map(|p| bound_names(&parse_quote!({ let #p = x; }))).collect();
    let free: BTreeSet<String> = idents(&body.to_token_stream()).difference(&params).cloned().collect();
    let blk = Block { brace_token: Default::default(), stmts: rest.clone() };
    let b = bound_names(&blk);
    if !b.is_disjoint(&free) || b.contains(f) {
        return None;
    }
    struct Beta<'b> {
        f: &'b str,
        pats: &'b [Pat],
        body: &'b Expr,
        bad: bool,
    }
    impl VisitMut for Beta<'_> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Call(c) if path_ident(strip(&c.func)).as_deref() == Some(self.f) => {
                    for a in c.args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    if c.args.len() != self.pats.len() {
                        self.bad = true;
                        return;
                    }
                    let mut st: Vec<Stmt> = vec![];
                    let mut bound: BTreeSet<String> = BTreeSet::new();
                    for (p, a) in self.pats.iter().zip(c.args.iter()) {
                        if !bound.is_disjoint(&idents(&a.to_token_stream())) {
                            self.bad = true;
                        }
                        bound.extend(bound_names(&parse_quote!({ let #p = x; })));
                        // a variable of the same name, or a pattern without a name
                        if path_ident(a).is_some() && path_ident(a) == norm_pat(p) {
                            continue;
                        }
                        st.extend(crate::tx::bind(p, a.clone()));
                    }
                    let b = self.body;
                    *e = if st.is_empty() { parse_quote!((#b)) } else { parse_quote!({ #(#st)* #b }) };
                }
                Expr::MethodCall(m) => {
                    self.visit_expr_mut(&mut m.receiver);
                    for a in m.args.iter_mut() {
                        let x = match &*a {
                            Expr::Reference(r) => strip(&r.expr).clone(),
                            a => a.clone(),
                        };
                        if path_ident(&x).as_deref() == Some(self.f) {
                            let (p, b) = (self.pats, self.body);
                            *a = parse_quote!(|#(#p),*| #b);
                        } else {
                            self.visit_expr_mut(a)
                        }
                    }
                }
                Expr::Path(p) if p.path.is_ident(self.f) => self.bad = true,
                _ => visit_mut::visit_expr_mut(self, e),
            }
        }
        fn visit_macro_mut(&mut self, m: &mut Macro) {
            use syn::punctuated::Punctuated;
            if !idents(&m.tokens).contains(self.f) {
                return;
            }
            match m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) {
                Ok(mut v) => {
                    for x in v.iter_mut() {
                        self.visit_expr_mut(x);
                    }
                    m.tokens = v.to_token_stream();
                }
                Err(_) => self.bad = true,
            }
        }
    }
    let mut v = Beta { f, pats: &pats, body, bad: false };
    let mut blk = blk;
    v.visit_block_mut(&mut blk);
    if v.bad {
        return None;
    }
    *rest = blk.stmts;
    Some(())
}
fn norm_pat(p: &Pat) -> Option<String> {
    match p {
        Pat::Ident(i) if i.mutability.is_none() && i.by_ref.is_none() && i.subpat.is_none() => Some(i.ident.to_string()),
        _ => None,
    }
}

impl VisitMut for Inliner<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            let hit = match &b.stmts[i] {
                Stmt::Local(l) => match (&l.pat, l.init.as_ref().map(|x| (strip(&x.expr).clone(), x.diverge.is_some()))) {
                    (Pat::Ident(p), Some((Expr::Closure(c), false))) => Some((p.ident.to_string(), c)),
                    _ => None,
                },
                _ => None,
            };
            if let Some((f, c)) = hit {
                let mut rest = b.stmts[i + 1..].to_vec();
                if local_closure(&f, &c, &mut rest).is_some() {
                    b.stmts.truncate(i);
                    b.stmts.extend(rest);
                    self.done.insert(f);
                    continue;
                }
            }
            i += 1;
        }
        // a call that is a statement of its own (or the value of a `let`): the statements of the body join the block
        let mut i = 0;
        while i < b.stmts.len() {
            let hit = match &b.stmts[i] {
                Stmt::Expr(e @ (Expr::Call(_) | Expr::MethodCall(_)), Some(_)) => Some((e.clone(), None)),
                Stmt::Local(l) => match &l.init {
                    Some(x) if x.diverge.is_none() && matches!(strip(&x.expr), Expr::Call(_) | Expr::MethodCall(_)) => Some((strip(&x.expr).clone(), Some(l.clone()))),
                    _ => None,
                },
                _ => None,
            };
            if let Some((e, l)) = hit {
                if let Some(Expr::Block(x)) = self.call(&e, Place::Value) {
                    let mut names: BTreeSet<String> = BTreeSet::new();
                    for s in &x.block.stmts {
                        if let Stmt::Local(l) = s {
                            let p = &l.pat;
                            names.extend(bound_names(&parse_quote!({ let #p = x; })));
                        }
                    }
                    let mut own: BTreeSet<String> = BTreeSet::new();
                    if let Some(l) = &l {
                        let p = &l.pat;
                        own = bound_names(&parse_quote!({ let #p = x; }));
                    }
                    let rest: BTreeSet<String> = b.stmts[i + 1..].iter().flat_map(|s| idents(&s.to_token_stream())).filter(|n| !own.contains(n)).collect();
                    if names.is_disjoint(&rest) {
                        let mut st = x.block.stmts.clone();
                        if let Some(l) = l {
                            let Some(Stmt::Expr(v, None)) = st.pop() else {
                                i += 1;
                                continue;
                            };
                            let mut l = l.clone();
                            if !matches!((norm_pat(&l.pat), path_ident(&v)), (Some(a), Some(b)) if a == b) {
                                *l.init.as_mut().unwrap().expr = v;
                                st.push(Stmt::Local(l));
                            }
                        } else if let Some(Stmt::Expr(v, None)) = st.pop() {
                            st.push(Stmt::Expr(v, Some(Default::default())));
                        } else {
                            st = x.block.stmts.clone();
                        }
                        b.stmts.splice(i..i + 1, st);
                    }
                }
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b)
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Try(t) => {
                if let Some(x) = self.call(strip(&t.expr), Place::Try) {
                    *t.expr = x;
                }
            }
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    if let Some(y) = self.call(strip(x), Place::Tail) {
                        **x = y;
                    }
                }
            }
            Expr::Call(_) => {
                if let Some(x) = self.call(e, Place::Value) {
                    *e = x;
                }
            }
            Expr::MethodCall(m) => {
                for a in m.args.iter_mut() {
                    if let Some(x) = self.as_closure(a) {
                        *a = x;
                    }
                }
                if let Some(x) = self.call(e, Place::Value) {
                    *e = x;
                }
            }
            _ => {}
        }
        self.depth += 1;
        if self.depth < 200 {
            let d = std::mem::replace(&mut self.depth, 0);
            visit_mut::visit_expr_mut(self, e);
            self.depth = d;
        }
        self.depth -= 1;
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        // macros whose arguments are plain expressions
        let mac = match s {
            Stmt::Macro(m) => Some(&mut m.mac),
            _ => None,
        };
        if let Some(m) = mac {
            self.macro_args(m);
        }
        visit_mut::visit_stmt_mut(self, s)
    }
    fn visit_expr_macro_mut(&mut self, m: &mut ExprMacro) {
        self.macro_args(&mut m.mac);
    }
}
impl Inliner<'_> {
    fn macro_args(&mut self, m: &mut Macro) {
        use syn::punctuated::Punctuated;
        if m.path.is_ident("matches") {
            return;
        }
        if let Ok(mut v) = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) {
            let old = v.to_token_stream().to_string();
            for x in v.iter_mut() {
                self.visit_expr_mut(x);
            }
            let t = v.to_token_stream();
            if t.to_string() != old {
                m.tokens = t;
            }
        }
    }
}

fn refs_of(sig: &Signature) -> BTreeSet<String> {
    sig.inputs
        .iter()
        .filter_map(|a| match a {
            FnArg::Typed(t) if matches!(&*t.ty, Type::Reference(_)) => match &*t.pat {
                Pat::Ident(i) => Some(i.ident.to_string()),
                _ => None,
            },
            _ => None,
        })
        .collect()
}
fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        e => e,
    }
}
fn path_ident(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        _ => None,
    }
}
/// a variable, a constant, a literal, or a field of a variable
fn pure_place(e: &Expr) -> bool {
    match strip(e) {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => pure_place(&f.base),
        _ => false,
    }
}
fn idents(t: &TokenStream) -> BTreeSet<String> {
    let mut o = BTreeSet::new();
    for x in t.clone() {
        match x {
            TokenTree::Ident(i) => {
                o.insert(i.to_string());
            }
            TokenTree::Group(g) => o.extend(idents(&g.stream())),
            _ => {}
        }
    }
    o
}
/// `return` or `?` that leaves the function (not one inside a closure)
fn leaves(b: &Block) -> bool {
    struct E(bool);
    impl VisitMut for E {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Try(_) | Expr::Return(_) => self.0 = true,
                Expr::Closure(_) => {}
                _ => visit_mut::visit_expr_mut(self, e),
            }
        }
        fn visit_macro_mut(&mut self, m: &mut Macro) {
            if idents(&m.tokens).contains("return") || m.tokens.to_string().contains('?') {
                self.0 = true;
            }
        }
        fn visit_item_mut(&mut self, _: &mut Item) {}
    }
    let mut v = E(false);
    v.visit_block_mut(&mut b.clone());
    v.0
}
/// every `return` returns an error (or None): in `helper(..)?` it may return from the caller directly
fn only_errors_leave(b: &Block) -> bool {
    struct E(bool);
    impl VisitMut for E {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Return(r) => match r.expr.as_deref() {
                    Some(Expr::Call(c)) if norm(&c.func.to_token_stream().to_string()) == "Err" => {}
                    Some(Expr::Path(p)) if p.path.is_ident("None") => {}
                    _ => self.0 = false,
                },
                Expr::Closure(_) => {}
                _ => visit_mut::visit_expr_mut(self, e),
            }
        }
        fn visit_macro_mut(&mut self, m: &mut Macro) {
            if idents(&m.tokens).contains("return") {
                self.0 = false;
            }
        }
        fn visit_item_mut(&mut self, _: &mut Item) {}
    }
    let mut v = E(true);
    v.visit_block_mut(&mut b.clone());
    v.0
}

fn ends_in_return(b: &Block) -> bool {
    match b.stmts.last() {
        Some(Stmt::Expr(e, _)) => expr_returns(e),
        _ => false,
    }
}
fn expr_returns(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::Block(b) => ends_in_return(&b.block),
        Expr::If(i) => ends_in_return(&i.then_branch) && i.else_branch.as_ref().is_some_and(|(_, e)| expr_returns(e)),
        Expr::Match(m) => !m.arms.is_empty() && m.arms.iter().all(|a| expr_returns(&a.body)),
        _ => false,
    }
}
/// the same block with its early returns turned into the values of branches
fn tailify(b: &Block, out: &ReturnType) -> Option<Block> {
    let mut stmts = b.stmts.clone();
    for i in 0..stmts.len() {
        let last = i + 1 == stmts.len();
        match &stmts[i] {
            Stmt::Expr(e, _) if expr_returns(e) || last => {
                let semi = matches!(&stmts[i], Stmt::Expr(_, Some(_)));
                let e2 = tail_expr(e, out)?;
                let returns = expr_returns(e);
                stmts.truncate(i);
                stmts.push(Stmt::Expr(e2, if semi && !returns { Some(Default::default()) } else { None }));
                return Some(Block { brace_token: b.brace_token, stmts });
            }
            // if c { ..return r; } rest
            Stmt::Expr(Expr::If(f), _) if f.else_branch.is_none() && ends_in_return(&f.then_branch) => {
                let c = &f.cond;
                let t = tailify(&f.then_branch, out)?;
                let rest = tailify(&Block { brace_token: b.brace_token, stmts: stmts[i + 1..].to_vec() }, out)?;
                let e: Expr = parse_quote!(if #c #t else #rest);
                stmts.truncate(i);
                stmts.push(Stmt::Expr(e, None));
                return Some(Block { brace_token: b.brace_token, stmts });
            }
            Stmt::Local(l) => {
                if let Some(init) = &l.init {
                    let rest = Block { brace_token: b.brace_token, stmts: stmts[i + 1..].to_vec() };
                    // let P = e else { return r };
                    if let Some((_, d)) = &init.diverge {
                        let Expr::Block(d) = &**d else { return None };
                        if !ends_in_return(&d.block) {
                            return None;
                        }
                        let (p, x, d) = (&l.pat, &init.expr, tailify(&d.block, out)?);
                        let rest = tailify(&rest, out)?;
                        let e: Expr = parse_quote!(match #x { #p => #rest, _ => #d });
                        stmts.truncate(i);
                        stmts.push(Stmt::Expr(e, None));
                        return Some(Block { brace_token: b.brace_token, stmts });
                    }
                    // let x = e?;
                    if let Expr::Try(t) = &*init.expr {
                        let rt = match out {
                            ReturnType::Type(_, t) => norm(&t.to_token_stream().to_string()),
                            _ => return None,
                        };
                        let (p, x) = (&l.pat, &t.expr);
                        let rest = tailify(&rest, out)?;
                        let e: Expr = if rt.starts_with("Option") {
                            parse_quote!(match #x { Some(#p) => #rest, None => None })
                        } else if rt.contains("Result<") {
                            parse_quote!(match #x { Ok(#p) => #rest, Err(e__) => Err(e__) })
                        } else {
                            return None;
                        };
                        stmts.truncate(i);
                        stmts.push(Stmt::Expr(e, None));
                        return Some(Block { brace_token: b.brace_token, stmts });
                    }
                    // let x = match e { A => v, B => return r };
                    if let Expr::Match(m) = &*init.expr {
                        let r: Vec<usize> = m.arms.iter().enumerate().filter(|(_, a)| !expr_returns(&a.body)).map(|(i, _)| i).collect();
                        if r.len() == 1 && m.arms.len() > 1 {
                            let mut m = m.clone();
                            let rest = tailify(&rest, out)?;
                            for (k, a) in m.arms.iter_mut().enumerate() {
                                if k == r[0] {
                                    let (p, x) = (&l.pat, &a.body);
                                    let st = &rest.stmts;
                                    a.body = parse_quote!({ let #p = #x; #(#st)* });
                                } else {
                                    a.body = Box::new(tail_expr(&a.body, out)?);
                                }
                            }
                            stmts.truncate(i);
                            stmts.push(Stmt::Expr(Expr::Match(m), None));
                            return Some(Block { brace_token: b.brace_token, stmts });
                        }
                    }
                }
            }
            _ => {}
        }
    }
    Some(Block { brace_token: b.brace_token, stmts })
}
fn tail_expr(e: &Expr, out: &ReturnType) -> Option<Expr> {
    Some(match e {
        Expr::Return(r) => match &r.expr {
            Some(x) => tail_expr(x, out)?,
            None => parse_quote!(()),
        },
        Expr::Block(b) => {
            let b = tailify(&b.block, out)?;
            parse_quote!(#b)
        }
        Expr::If(i) if i.else_branch.is_some() => {
            let (c, t) = (&i.cond, tailify(&i.then_branch, out)?);
            let x = tail_expr(&i.else_branch.as_ref().unwrap().1, out)?;
            parse_quote!(if #c #t else #x)
        }
        Expr::Match(m) => {
            let mut m = m.clone();
            for a in m.arms.iter_mut() {
                a.body = Box::new(tail_expr(&a.body, out)?);
                a.comma = Some(Default::default());
            }
            Expr::Match(m)
        }
        e => e.clone(),
    })
}

fn bound_names(b: &Block) -> BTreeSet<String> {
    struct B(BTreeSet<String>);
    impl VisitMut for B {
        fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
            self.0.insert(p.ident.to_string());
            visit_mut::visit_pat_ident_mut(self, p)
        }
    }
    let mut v = B(BTreeSet::new());
    v.visit_block_mut(&mut b.clone());
    v.0
}
struct Renamer {
    from: String,
    to: String,
}
impl Renamer {
    fn tokens(&self, t: TokenStream) -> TokenStream {
        let mut dot = false;
        t.into_iter()
            .map(|x| {
                let r = match &x {
                    TokenTree::Ident(i) if !dot && *i == self.from => TokenTree::Ident(id(&self.to)),
                    TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), self.tokens(g.stream()))),
                    _ => x.clone(),
                };
                dot = matches!(&x, TokenTree::Punct(p) if p.as_char() == '.');
                r
            })
            .collect()
    }
}
impl VisitMut for Renamer {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.path.is_ident(&self.from) {
            p.path.segments[0].ident = id(&self.to);
        }
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if p.ident == self.from {
            p.ident = id(&self.to);
        }
        visit_mut::visit_pat_ident_mut(self, p)
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f)
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_pat_mut(self, f)
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = self.tokens(m.tokens.clone());
    }
}

enum Sub {
    /// the name stands for this expression
    Same(Expr),
    /// the name is a reference (mutable?) to this place
    Place(Expr, bool),
}
struct Substitute<'b> {
    m: &'b [(String, Sub)],
}
impl Substitute<'_> {
    fn find(&self, e: &Expr) -> Option<&Sub> {
        let n = path_ident(strip(e))?;
        self.m.iter().find(|x| x.0 == n).map(|x| &x.1)
    }
    fn tokens(&self, t: TokenStream) -> TokenStream {
        let v: Vec<TokenTree> = t.into_iter().collect();
        let mut o = TokenStream::new();
        for (i, x) in v.iter().enumerate() {
            let dot = i > 0 && matches!(&v[i - 1], TokenTree::Punct(p) if p.as_char() == '.');
            let next = matches!(v.get(i + 1), Some(TokenTree::Punct(p)) if p.as_char() == '.');
            match x {
                TokenTree::Ident(n) if !dot => match self.m.iter().find(|m| *n == m.0) {
                    Some((_, Sub::Same(e))) => o.extend(e.to_token_stream()),
                    Some((_, Sub::Place(e, m))) => {
                        let star = i > 0 && matches!(&v[i - 1], TokenTree::Punct(p) if p.as_char() == '*');
                        if next {
                            o.extend(e.to_token_stream())
                        } else if star {
                            o.extend(quote::quote!((&#e)))
                        } else if *m {
                            o.extend(quote::quote!(&mut #e))
                        } else {
                            o.extend(quote::quote!(&#e))
                        }
                    }
                    None => o.extend([x.clone()]),
                },
                TokenTree::Group(g) => o.extend([TokenTree::Group(Group::new(g.delimiter(), self.tokens(g.stream())))]),
                _ => o.extend([x.clone()]),
            }
        }
        o
    }
}
impl VisitMut for Substitute<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // positions where a reference is dereferenced implicitly
        let inner: Option<&mut Box<Expr>> = match e {
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
                if let Some(Sub::Place(p, _)) = self.find(&u.expr) {
                    *e = p.clone();
                    return;
                }
                None
            }
            Expr::MethodCall(m) => Some(&mut m.receiver),
            Expr::Field(f) => Some(&mut f.base),
            Expr::Index(i) => Some(&mut i.expr),
            _ => None,
        };
        if let Some(x) = inner {
            if let Some(Sub::Place(p, _)) = self.find(x) {
                **x = p.clone();
                // the rest of the expression (arguments, index)
                match e {
                    Expr::MethodCall(m) => {
                        for a in m.args.iter_mut() {
                            self.visit_expr_mut(a)
                        }
                    }
                    Expr::Index(i) => self.visit_expr_mut(&mut i.index),
                    _ => {}
                }
                return;
            }
        }
        match self.find(e) {
            Some(Sub::Same(x)) if matches!(e, Expr::Path(_)) => {
                *e = x.clone();
                return;
            }
            Some(Sub::Place(p, m)) if matches!(e, Expr::Path(_)) => {
                *e = if *m { parse_quote!(&mut #p) } else { parse_quote!(&#p) };
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e)
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f)
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = self.tokens(m.tokens.clone());
    }
}
