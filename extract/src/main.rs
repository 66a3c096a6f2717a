//! Mechanical extraction of functions of /repo/src into a Verus crate: see DESIGN.md, "Extraction".
//! usage: extract SRC_DIR CONTRACTS_DIR OUT.rs OUT.json MODULE,MODULE,... [OPAQUE_KEY,...]
mod contracts;
mod inline;
mod tx;

use contracts::*;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use syn::visit_mut::VisitMut;
use syn::*;

pub fn norm(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join("")
}

fn self_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Slice(s) => format!("[{}]", s.elem.to_token_stream()),
        Type::Reference(r) => self_name(&r.elem),
        t => t.to_token_stream().to_string(),
    }
}

fn is_cfg_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("test"))
}

struct Hoist {
    out: Vec<ItemFn>,
    consts: Vec<ItemConst>,
}
impl VisitMut for Hoist {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut k = vec![];
        for s in b.stmts.drain(..) {
            match s {
                Stmt::Item(Item::Fn(f)) => self.out.push(f),
                Stmt::Item(Item::Const(c)) => self.consts.push(c),
                s => k.push(s),
            }
        }
        b.stmts = k;
        visit_mut::visit_block_mut(self, b)
    }
}

struct Strip;
impl VisitMut for Strip {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear()
    }
}

/// type substitution for instantiated generics
struct Subst {
    m: BTreeMap<String, Type>,
    rebound: BTreeMap<String, String>,
    retype: BTreeMap<String, String>,
}
impl VisitMut for Subst {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            // fmt::Result, io::Result<()>, and Result where it was imported from std::fmt
            let n = norm(&p.path.to_token_stream().to_string());
            if matches!(n.trim_start_matches("std::"), "fmt::Result" | "io::Result<()>" | "Result") && p.qself.is_none() {
                *t = parse_quote!(VRes);
                return;
            }
            // <I as IntoIterator>::IntoIter with I instantiated is I itself
            if let (Some(q), Some(l)) = (&p.qself, p.path.segments.last()) {
                if l.ident == "IntoIter" {
                    if let Type::Path(i) = &*q.ty {
                        if let Some(n) = i.path.get_ident().and_then(|i| self.m.get(&i.to_string())) {
                            *t = n.clone();
                            return;
                        }
                        if self.rebound.get("IntoIterator").map(|x| x == "VIter").unwrap_or(false) && i.path.get_ident().is_some() {
                            *t = (*q.ty).clone();
                            return;
                        }
                    }
                }
            }
            // I::Item with I instantiated
            if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[1].ident == "Item" && self.m.contains_key(&p.path.segments[0].ident.to_string()) {
                if let Some(n) = self.m.get("Item__") {
                    *t = n.clone();
                    return;
                }
            }
            if p.qself.is_none() && p.path.segments.len() == 1 && p.path.segments[0].arguments.is_none() {
                if let Some(n) = self.m.get(&p.path.segments[0].ident.to_string()) {
                    *t = n.clone();
                    return;
                }
            }
        }
        visit_mut::visit_type_mut(self, t)
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.segments.len() > 1 && p.segments[0].ident == "std" && p.segments[1].ident == "iter" {
            p.segments = p.segments.iter().skip(1).cloned().collect();
        }
        // modules are siblings that import each other
        while p.segments.len() > 1 && p.segments[0].ident == "super" {
            p.segments = p.segments.iter().skip(1).cloned().collect();
        }
        // a type of std that has a stand-in is named without its module
        if p.segments.len() > 1 && p.segments.last().map(|l| self.retype.contains_key(&l.ident.to_string())).unwrap_or(false) {
            let l = p.segments.last().unwrap().clone();
            p.segments = std::iter::once(l).collect();
        }
        for s in p.segments.iter_mut() {
            if let Some(n) = self.retype.get(&s.ident.to_string()) {
                s.ident = syn::Ident::new(n, proc_macro2::Span::call_site());
            }
        }
        // T::method()
        if p.segments.len() >= 2 {
            if let Some(Type::Path(n)) = self.m.get(&p.segments[0].ident.to_string()) {
                let mut q = n.path.clone();
                q.segments.extend(p.segments.iter().skip(1).cloned());
                *p = q;
                return;
            }
        }
        visit_mut::visit_path_mut(self, p)
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // T::method(..) with T instantiated to a non-path type: <[u64]>::method(..)
        if let Expr::Path(p) = e {
            if p.qself.is_none() && p.path.segments.len() >= 2 {
                if let Some(t) = self.m.get(&p.path.segments[0].ident.to_string()) {
                    if !matches!(t, Type::Path(_)) {
                        let rest = &p.path.segments.iter().skip(1).collect::<Vec<_>>()[0];
                        let x: Expr = parse_quote!(<#t>::#rest);
                        *e = x;
                        return;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e)
    }
    fn visit_type_param_bound_mut(&mut self, b: &mut TypeParamBound) {
        if let TypeParamBound::Trait(t) = b {
            let l = t.path.segments.last().unwrap().ident.to_string();
            if let Some(n) = self.rebound.get(&l) {
                let id = syn::Ident::new(n, proc_macro2::Span::call_site());
                let args = t.path.segments.last().unwrap().arguments.clone();
                t.path = parse_quote!(#id);
                if n != "Text" {
                    t.path.segments[0].arguments = args;
                }
            }
        }
        visit_mut::visit_type_param_bound_mut(self, b)
    }
}

/// `&str` parameters that only receive literals become `&[u8]`
struct LitTy;
impl VisitMut for LitTy {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Reference(r) = t {
            if r.elem.to_token_stream().to_string() == "str" {
                *r.elem = parse_quote!([u8]);
                return;
            }
        }
        visit_mut::visit_type_mut(self, t)
    }
}

struct Ctx<'a> {
    helpers: &'a inline::Helpers,
    known_consts: &'a BTreeSet<String>,
    c: &'a Contracts,
    opaque: &'a BTreeSet<String>,
    out: String,
    info: Vec<String>,
    inst: Vec<(String, Type)>,
    rebound: BTreeMap<String, String>,
    retype: BTreeMap<String, String>,
    instname: Vec<(String, Type)>,
    litparams: BTreeSet<String>,
    addbound: Vec<(String, String)>,
    drop_bounds: BTreeSet<String>,
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jlist(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","))
}

impl<'a> Ctx<'a> {
    /// decide instantiation of the generics of an item, remove instantiated params, rebind bounds
    fn generics(&self, g: &mut Generics, m: &mut BTreeMap<String, Type>) {
        let mut here: BTreeMap<String, Vec<String>> = BTreeMap::new();
        for p in &g.params {
            if let GenericParam::Type(t) = p {
                let e = here.entry(t.ident.to_string()).or_default();
                for b in &t.bounds {
                    if let TypeParamBound::Trait(b) = b {
                        e.push(b.path.segments.last().unwrap().ident.to_string())
                    }
                }
            }
        }
        if let Some(w) = &g.where_clause {
            for p in &w.predicates {
                if let WherePredicate::Type(t) = p {
                    if let Some(e) = here.get_mut(&t.bounded_ty.to_token_stream().to_string()) {
                        for b in &t.bounds {
                            if let TypeParamBound::Trait(b) = b {
                                e.push(b.path.segments.last().unwrap().ident.to_string())
                            }
                        }
                    }
                }
            }
        }
        let mut gone = BTreeSet::new();
        if let Some((_, t)) = self.instname.iter().find(|x| x.0 == "Item__") {
            m.insert("Item__".into(), t.clone());
        }
        for (n, bs) in &here {
            if let Some((_, t)) = self.instname.iter().find(|x| x.0 == *n) {
                m.insert(n.clone(), t.clone());
                gone.insert(n.clone());
                continue;
            }
            for (b, t) in &self.inst {
                if bs.contains(b) || (b == "_" && bs.is_empty()) {
                    m.insert(n.clone(), t.clone());
                    gone.insert(n.clone());
                    break;
                }
            }
        }
        g.params = g
            .params
            .iter()
            .filter(|p| match p {
                GenericParam::Type(t) => !gone.contains(&t.ident.to_string()),
                _ => true,
            })
            .cloned()
            .collect();
        if let Some(w) = &mut g.where_clause {
            w.predicates = w
                .predicates
                .iter()
                .filter(|p| match p {
                    WherePredicate::Type(t) => !gone.contains(&t.bounded_ty.to_token_stream().to_string()),
                    _ => true,
                })
                .cloned()
                .collect();
            if w.predicates.is_empty() {
                g.where_clause = None
            }
        }
        for p in g.params.iter_mut() {
            if let GenericParam::Type(t) = p {
                let bs: Vec<TypeParamBound> = t.bounds.iter().filter(|b| !self.dropped(b)).cloned().collect();
                t.bounds = bs.into_iter().collect();
                if t.bounds.is_empty() {
                    t.colon_token = None
                }
            }
        }
        for p in g.params.iter_mut() {
            if let GenericParam::Type(t) = p {
                for (n, b) in &self.addbound {
                    // only for parameters that range over texts
                    if t.ident == n && t.bounds.iter().any(|b| matches!(b, TypeParamBound::Trait(t) if matches!(t.modifier, TraitBoundModifier::Maybe(_)))) {
                        let b = syn::Ident::new(b, proc_macro2::Span::call_site());
                        t.colon_token = Some(Default::default());
                        t.bounds.push(parse_quote!(#b));
                    }
                }
            }
        }
        if let Some(w) = &mut g.where_clause {
            for p in w.predicates.iter_mut() {
                if let WherePredicate::Type(t) = p {
                    let bs: Vec<TypeParamBound> = t.bounds.iter().filter(|b| !self.dropped(b)).cloned().collect();
                    t.bounds = bs.into_iter().collect();
                }
            }
            w.predicates = w
                .predicates
                .iter()
                .filter(|p| match p {
                    WherePredicate::Type(t) => !t.bounds.is_empty(),
                    _ => true,
                })
                .cloned()
                .collect();
            if w.predicates.is_empty() {
                g.where_clause = None
            }
        }
    }
    fn dropped(&self, b: &TypeParamBound) -> bool {
        match b {
            TypeParamBound::Trait(t) => {
                let l = t.path.segments.last().unwrap().ident.to_string();
                self.drop_bounds.contains(&l) && !self.rebound.contains_key(&l)
            }
            _ => false,
        }
    }

    fn emit_fn(&mut self, key: &str, sig: &Signature, block: Option<&Block>, outer: &BTreeMap<String, Type>, in_trait: bool, pubvis: bool, cr: &tx::CrateInfo) {
        let fc = self.c.fns.get(key).cloned().unwrap_or_default();
        let src_line = sig.ident.span().start().line;
        let mut lost_generic = vec![];
        for f in &fc.flags {
            // generic=B: every type parameter has exactly the bound B, so the body can only use the values through B
            if let Some(b) = f.strip_prefix("generic=") {
                let mut bounds: Vec<Vec<String>> = sig.generics.type_params().map(|t| t.bounds.iter().map(|b| norm(&b.to_token_stream().to_string())).collect()).collect();
                if let Some(w) = &sig.generics.where_clause {
                    let names: Vec<String> = sig.generics.type_params().map(|t| t.ident.to_string()).collect();
                    for p in &w.predicates {
                        if let WherePredicate::Type(p) = p {
                            if let Some(i) = names.iter().position(|n| *n == p.bounded_ty.to_token_stream().to_string()) {
                                bounds[i].extend(p.bounds.iter().map(|b| norm(&b.to_token_stream().to_string())));
                            }
                        }
                    }
                }
                if bounds.is_empty() || bounds.iter().any(|x| x.len() != 1 || x[0] != b) {
                    lost_generic.push(format!("generic over {}", b));
                }
            }
        }
        let mut sig = sig.clone();
        let mut m = outer.clone();
        self.generics(&mut sig.generics, &mut m);
        let mut sub = Subst { m, rebound: self.rebound.clone(), retype: self.retype.clone() };
        sub.visit_signature_mut(&mut sig);
        let mut block = block.cloned();
        let mut inlined: Vec<String> = vec![];
        if let Some(b) = &mut block {
            Strip.visit_block_mut(b);
            let ty = if key.contains("::") { key.rsplit_once("::").unwrap().0 } else { "" };
            let mut inl = inline::Inliner::new(self.helpers, ty.rsplit('@').next().unwrap());
            inl.function(&sig, b);
            inlined.extend(inl.done);
            sub.visit_block_mut(b);
        }
        // `mut x: T` parameters become `x: T` and `let mut x = x;`
        let mut muts = vec![];
        for a in sig.inputs.iter_mut() {
            match a {
                FnArg::Typed(t) => {
                    t.attrs.clear();
                    if let Pat::Ident(i) = &*t.pat {
                        if self.litparams.contains(&i.ident.to_string()) {
                            LitTy.visit_type_mut(&mut t.ty);
                        }
                    }
                    if let Pat::Ident(i) = &mut *t.pat {
                        if i.mutability.is_some() {
                            i.mutability = None;
                            muts.push(i.ident.clone());
                        }
                    }
                }
                FnArg::Receiver(r) => {
                    if r.mutability.is_some() && r.reference.is_none() {
                        r.mutability = None;
                        // handled by renaming self
                        muts.push(syn::Ident::new("self_", proc_macro2::Span::call_site()));
                    }
                }
            }
        }
        // a writer taken by value (`mut w: W`, `W: io::Write`) is taken by reference: `&mut W` forwards to `W`
        let sinks: BTreeSet<String> = sig.generics.type_params().filter(|t| t.bounds.iter().any(|b| norm(&b.to_token_stream().to_string()) == "VSink")).map(|t| t.ident.to_string()).collect();
        let mut sinkvars = BTreeSet::new();
        for a in sig.inputs.iter_mut() {
            if let FnArg::Typed(t) = a {
                if sinks.contains(&t.ty.to_token_stream().to_string()) {
                    if let Pat::Ident(i) = &*t.pat {
                        sinkvars.insert(i.ident.to_string());
                        muts.retain(|m| *m != i.ident);
                        let ty = &t.ty;
                        *t.ty = parse_quote!(&mut #ty);
                    }
                }
            }
        }
        let mut t = tx::Tx::new(&fc, cr, self.c, &sig);
        t.sinkvars = sinkvars;
        t.set_key(self.c, key);
        let has_body = block.is_some();
        let body = block.map(|mut b| {
            t.run(&mut b);
            for x in muts.iter_mut().rev() {
                if x == "old" {
                    *x = syn::Ident::new("old__", proc_macro2::Span::call_site());
                }
                if x == "self_" {
                    tx::RenameSelf.visit_block_mut(&mut b);
                    b.stmts.insert(0, parse_quote!(let mut self_ = self;));
                } else {
                    b.stmts.insert(0, parse_quote!(let mut #x = #x;));
                }
            }
            b
        });
        tx::RenameOld.visit_signature_mut(&mut sig);
        if sig.ident == "clone" && renamed(self.c, "Clone", key.split("::").next().unwrap().split('@').nth(1).unwrap_or("")).is_some() {
            sig.ident = syn::Ident::new("vclone", proc_macro2::Span::call_site());
        }
        let ret = match &sig.output {
            ReturnType::Default => String::new(),
            ReturnType::Type(_, t) => format!(" -> (r: {})", tidy(&self.impl_ret(t, &fc))),
        };
        let wh = sig.generics.where_clause.take();
        sig.output = ReturnType::Default;
        let opaque = self.opaque.contains(key) || fc.flags.iter().any(|f| f == "opaque");
        let start = self.out.lines().count() + 1;
        let _ = writeln!(self.out, "    //@@FN {} {}:{}", key, self.c.source, src_line);
        if opaque && body.is_some() {
            let _ = writeln!(self.out, "    #[verifier::external_body]");
        }
        for f in &fc.flags {
            if let Some(a) = f.strip_prefix("attr=") {
                let _ = writeln!(self.out, "    #[{}]", a);
            }
        }
        let _ = write!(self.out, "    {}{}{}", if in_trait || !pubvis { "" } else { "pub " }, tidy(&sig.to_token_stream().to_string()), ret);
        if let Some(w) = wh {
            let _ = write!(self.out, "\n    {}", tidy(&w.to_token_stream().to_string()));
        }
        let _ = write!(self.out, "\n{}\n", fc.spec.trim_end());
        let mut canary = false;
        match body {
            None => self.out.push_str("    ;\n"),
            Some(_) if opaque => self.out.push_str("    { unimplemented!() }\n"),
            Some(b) => {
                let txt = fmt_block(&b.to_token_stream().to_string());
                let mut txt = t.splice(&txt);
                if std::env::var_os("CANARY").is_some() && self.c.fns.contains_key(key) {
                    txt = txt.replacen('{', "{ assert(false);", 1);
                    canary = true;
                }
                for f in &fc.flags {
                    if let Some((n, ty)) = f.strip_prefix("ty=").and_then(|a| a.split_once(':')) {
                        for m in ["mut ", ""] {
                            txt = txt.replace(&format!("let {}{} =", m, n), &format!("let {}{}: {} =", m, n, ty));
                        }
                    }
                    if let Some(a) = f.strip_prefix("hide=") {
                        let h: String = a.split(',').map(|x| format!(" hide({});", x)).collect();
                        txt = txt.replacen('{', &format!("{{{}", h), 1);
                    }
                }
                self.out.push_str(&txt);
                self.out.push('\n');
            }
        }
        let end = self.out.lines().count();
        self.info.push(format!(
            "{{\"key\":{},\"module\":{},\"src\":{},\"start\":{},\"end\":{},\"contracted\":{},\"opaque\":{},\"assumed\":{},\"lost\":{},\"loops_without_spec\":{},\"has_body\":{},\"inlined\":{},\"canary\":{}}}",
            jstr(key),
            jstr(&self.c.module),
            jstr(&format!("src/{}:{}", self.c.source, src_line)),
            start,
            end,
            self.c.fns.contains_key(key),
            opaque,
            fc.flags.iter().any(|f| f == "opaque"),
            jlist(&t.lost().into_iter().chain(lost_generic).collect::<Vec<_>>()),
            jlist(&t.loops_without),
            has_body,
            jlist(&inlined),
            canary
        ));
    }
    /// `impl Iterator<Item = X> + 'b` return types become the eager vector iterator
    fn impl_ret(&self, t: &Type, fc: &FnC) -> String {
        if let (Type::ImplTrait(_), Some(r)) = (t, fc.flags.iter().find_map(|f| f.strip_prefix("ret="))) {
            return r.to_string();
        }
        if let Type::ImplTrait(i) = t {
            for b in &i.bounds {
                if let TypeParamBound::Trait(tb) = b {
                    let s = tb.path.segments.last().unwrap();
                    if s.ident == "Iterator" || s.ident == "VIter" {
                        if let PathArguments::AngleBracketed(a) = &s.arguments {
                            if let Some(GenericArgument::AssocType(at)) = a.args.first() {
                                let ty = &at.ty;
                                return quote!(VecIter<#ty>).to_string();
                            }
                        }
                    }
                }
            }
        }
        t.to_token_stream().to_string()
    }
}

fn tidy(s: &str) -> String {
    s.replace(" :: ", "::").replace(" < ", "<").replace(" > ", "> ").replace("& ", "&").replace(" ,", ",").replace("' ", "'")
}

fn fmt_block(s: &str) -> String {
    use std::io::Write;
    use std::process::*;
    let src = format!("fn x__() {}", s);
    let r = Command::new("rustfmt")
        .args(["--edition", "2021", "--config", "max_width=140"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .and_then(|mut c| {
            c.stdin.take().unwrap().write_all(src.as_bytes())?;
            c.wait_with_output()
        });
    let o = match r {
        Ok(o) if o.status.success() => String::from_utf8_lossy(&o.stdout).to_string(),
        _ => src,
    };
    o.trim().strip_prefix("fn x__()").unwrap_or(&o).trim().to_string()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (src, con, outf, outj) = (&a[1], &a[2], &a[3], &a[4]);
    let mods: Vec<String> = a[5].split(',').map(|x| x.to_string()).collect();
    let opaque: BTreeSet<String> = a.get(6).map(|x| x.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()).unwrap_or_default();
    let mut out = String::new();
    let mut infos = vec![];
    out.push_str(&std::fs::read_to_string(format!("{}/vlib.rs", con)).unwrap());
    let mut all: Vec<Contracts> = vec![];
    let mut dirs: Vec<(String, String)> = vec![];
    for m in &mods {
        let c = read(m, &std::fs::read_to_string(format!("{}/{}.vc", con, m)).unwrap_or_else(|_| panic!("no contract file for {}", m)));
        dirs.extend(c.dirs.iter().filter(|d| d.0 == "iterfn").cloned());
        all.push(c);
    }
    // the functions without contract, of the whole crate
    let mut contracted: BTreeSet<String> = BTreeSet::new();
    let mut known: BTreeSet<String> = BTreeSet::new();
    let mut sources: BTreeSet<String> = BTreeSet::new();
    for e in std::fs::read_dir(con).unwrap().flatten() {
        let n = e.file_name().to_string_lossy().to_string();
        if let Some(m) = n.strip_suffix(".vc") {
            let c = read(m, &std::fs::read_to_string(e.path()).unwrap());
            contracted.extend(c.fns.keys().map(|k| k.rsplit("::").next().unwrap().to_string()));
            known.extend(c.consts.iter().cloned());
            sources.insert(c.source.clone());
        }
    }
    let mut helpers = inline::Helpers::default();
    for s in sources.iter().filter(|s| !s.is_empty()) {
        if let Ok(mut f) = syn::parse_file(&std::fs::read_to_string(format!("{}/{}", src, s)).unwrap_or_default()) {
            hoist(&mut f);
            helpers.add_file(&f, &contracted);
        }
    }
    helpers.drop_recursive();
    for c in &all {
        let path = format!("{}/{}", src, c.source);
        let text = std::fs::read_to_string(&path).unwrap_or_default();
        let mut file = match syn::parse_file(&text) {
            Ok(f) => f,
            Err(e) => {
                eprintln!("cannot parse {}: {}", path, e);
                std::process::exit(3)
            }
        };
        file.items.retain(|i| match i {
            Item::Mod(m) => !is_cfg_test(&m.attrs) && m.content.is_none() && false,
            Item::Fn(f) => !is_cfg_test(&f.attrs),
            _ => true,
        });
        // functions declared inside bodies move to the module
        hoist(&mut file);
        let cr = tx::CrateInfo::new(&file, c, &dirs);
        let mut cx = Ctx { helpers: &helpers, known_consts: &known, c, opaque: &opaque, out: String::new(), info: vec![], inst: vec![], rebound: BTreeMap::new(), retype: BTreeMap::new(), instname: vec![], litparams: BTreeSet::new(), addbound: vec![], drop_bounds: ["Debug", "Eq", "Hash", "Clone", "ToOwned"].iter().map(|x| x.to_string()).collect() };
        for (k, v) in &c.dirs {
            if k == "inst" {
                for w in v.split_whitespace() {
                    let (b, t) = w.split_once('=').unwrap();
                    cx.inst.push((b.into(), parse_str(t).unwrap()));
                }
            } else if k == "instname" {
                for w in v.split_whitespace() {
                    let (b, t) = w.split_once('=').unwrap();
                    cx.instname.push((b.into(), parse_str(t).unwrap()));
                }
            } else if k == "addbound" {
                for w in v.split_whitespace() {
                    let (b, t) = w.split_once('=').unwrap();
                    cx.addbound.push((b.into(), t.into()));
                }
            } else if k == "retype" {
                for w in v.split_whitespace() {
                    let (b, t) = w.split_once('=').unwrap();
                    cx.retype.insert(b.into(), t.into());
                }
            } else if k == "litparams" {
                cx.litparams.extend(v.split_whitespace().map(|x| x.to_string()));
            } else if k == "rebound" {
                for w in v.split_whitespace() {
                    let (b, t) = w.split_once('=').unwrap();
                    if t == "-" {
                        cx.drop_bounds.insert(b.into());
                    } else {
                        cx.rebound.insert(b.into(), t.into());
                    }
                }
            }
        }
        cx.out.push_str(&out);
        let _ = writeln!(cx.out, "\npub mod {} {{", c.module);
        for r in &c.raw {
            cx.out.push_str(r);
            cx.out.push('\n');
        }
        let mut seen: BTreeSet<String> = BTreeSet::new();
        for item in &file.items {
            emit_item(&mut cx, item, &cr, &mut seen);
        }
        let _ = writeln!(cx.out, "}} // mod {}", c.module);
        out = std::mem::take(&mut cx.out);
        infos.extend(cx.info);
        let missing: Vec<String> = c.fns.keys().filter(|k| !seen.contains(*k)).cloned().collect();
        for k in missing {
            infos.push(format!("{{\"key\":{},\"module\":{},\"missing\":true}}", jstr(&k), jstr(&c.module)));
        }
    }
    out.push_str("\n} // verus!\nfn main() {}\n");
    std::fs::write(outf, out).unwrap();
    std::fs::write(outj, format!("[\n{}\n]\n", infos.join(",\n"))).unwrap();
}

fn plain_type(t: &Type) -> bool {
    ["usize", "u8", "u16", "u32", "u64", "isize", "i8", "i16", "i32", "i64", "bool", "char"].contains(&t.to_token_stream().to_string().as_str())
}

/// functions and constants declared inside bodies move to the module
fn hoist(file: &mut File) {
    let mut h = Hoist { out: vec![], consts: vec![] };
    h.visit_file_mut(file);
    file.items.extend(h.out.into_iter().map(Item::Fn));
    for c in h.consts {
        if !file.items.iter().any(|i| matches!(i, Item::Const(k) if k.ident == c.ident)) {
            file.items.push(Item::Const(c));
        }
    }
}

fn make_pub_fields(f: &mut Fields) {
    for x in f.iter_mut() {
        x.vis = parse_quote!(pub);
        x.attrs.clear();
    }
}

fn emit_item(cx: &mut Ctx, item: &Item, cr: &tx::CrateInfo, seen: &mut BTreeSet<String>) {
    match item {
        // constants no contract mentions
        Item::Const(k) if !cx.known_consts.contains(&k.ident.to_string()) && !is_cfg_test(&k.attrs) && plain_type(&k.ty) => {
            let (id, ty) = (&k.ident, &k.ty);
            let mut e2: Expr = (*k.expr).clone();
            let fc = FnC::default();
            let sig: Signature = parse_quote!(fn x());
            let mut t = tx::Tx::new(&fc, cr, cx.c, &sig);
            t.expr_only(&mut e2);
            let _ = writeln!(cx.out, "    pub const {}: {} = {};", id, tidy(&ty.to_token_stream().to_string()), tidy(&e2.to_token_stream().to_string()));
        }
        Item::Const(k) if cx.c.consts.contains(&k.ident.to_string()) || (!cx.known_consts.contains(&k.ident.to_string()) && cx.c.dirs.iter().any(|d| d.0 == "strlit") && !is_cfg_test(&k.attrs) && matches!(&*k.ty, Type::Reference(_))) => {
            let (id, ty, e) = (&k.ident, &k.ty, &k.expr);
            let mut e2: Expr = (**e).clone();
            let fc = FnC::default();
            let sig: Signature = parse_quote!(fn x());
            let mut t = tx::Tx::new(&fc, cr, cx.c, &sig);
            t.expr_only(&mut e2);
            if let Type::Reference(r) = &**ty {
                let el = r.elem.to_token_stream().to_string();
                let el = if el == "str" { "[u8]".to_string() } else { el };
                let txt = tidy(&e2.to_token_stream().to_string());
                let arr = match txt.find('[') {
                    Some(p) => txt[p..].trim_end_matches(')').trim().to_string(),
                    None => return,
                };
                let _ = writeln!(cx.out, "    pub exec const {}: &'static {} ensures {}@ == seq!{} {{ v_lit(&{}) }}", id, el, id, arr, arr);
                return;
            }
            let _ = writeln!(cx.out, "    pub const {}: {} = {};", id, tidy(&ty.to_token_stream().to_string()), tidy(&e2.to_token_stream().to_string()));
        }
        Item::Struct(s) if cx.c.types.contains(&s.ident.to_string()) => {
            let mut s = s.clone();
            let mut derives = derives(&s.attrs);
            for (n, a) in &cx.c.typeattrs {
                if s.ident == n {
                    derives.push_str(&format!("    #[{}]\n", a));
                }
            }
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            make_pub_fields(&mut s.fields);
            let mut m = BTreeMap::new();
            cx.generics(&mut s.generics, &mut m);
            let mut sub = Subst { m, rebound: cx.rebound.clone(), retype: cx.retype.clone() };
            sub.visit_fields_mut(&mut s.fields);
            sub.visit_generics_mut(&mut s.generics);
            let _ = writeln!(cx.out, "{}    {}", derives, tidy(&s.to_token_stream().to_string()));
        }
        Item::Enum(s) if cx.c.types.contains(&s.ident.to_string()) => {
            let mut s = s.clone();
            let mut derives = derives(&s.attrs);
            for (n, a) in &cx.c.typeattrs {
                if s.ident == n {
                    derives.push_str(&format!("    #[{}]\n", a));
                }
            }
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            for v in s.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    f.attrs.clear()
                }
            }
            let mut m = BTreeMap::new();
            cx.generics(&mut s.generics, &mut m);
            let mut sub = Subst { m, rebound: cx.rebound.clone(), retype: cx.retype.clone() };
            for v in s.variants.iter_mut() {
                sub.visit_fields_mut(&mut v.fields);
            }
            let _ = writeln!(cx.out, "{}    {}", derives, tidy(&s.to_token_stream().to_string()));
        }
        Item::Trait(t) if cx.c.traits.contains(&t.ident.to_string()) => {
            let name = t.ident.to_string();
            let mut g = t.generics.clone();
            let mut m = BTreeMap::new();
            cx.generics(&mut g, &mut m);
            let (ig, _, _) = g.split_for_impl();
            let raw = cx.c.traitraw.get(&name).cloned().unwrap_or_default();
            let (bounds, raw) = match raw.trim_start().strip_prefix("bounds:") {
                Some(r) => {
                    let (b, rest) = r.split_once('\n').unwrap_or((r, ""));
                    (format!(": {}", b.trim()), rest.to_string())
                }
                None => (String::new(), raw),
            };
            let _ = writeln!(cx.out, "    pub trait {}{}{} {{\n{}", name, tidy(&ig.to_token_stream().to_string()), bounds, raw);
            for i in &t.items {
                if let TraitItem::Fn(f) = i {
                    let key = format!("{}::{}", name, f.sig.ident);
                    if cx.c.fns.contains_key(&key) {
                        seen.insert(key.clone());
                        cx.emit_fn(&key, &f.sig, f.default.as_ref(), &m, true, false, cr);
                    }
                }
            }
            cx.out.push_str("    }\n");
        }
        Item::Impl(im) => {
            let sn = self_name(&im.self_ty);
            let tn = im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
            let pre = match &tn {
                Some(t) => format!("{}@{}", t, sn),
                None => sn.clone(),
            };
            let fns: Vec<(&ImplItemFn, String)> = im
                .items
                .iter()
                .filter_map(|i| if let ImplItem::Fn(f) = i { Some((f, format!("{}::{}", pre, f.sig.ident))) } else { None })
                .filter(|(_, k)| cx.c.fns.contains_key(k))
                .collect();
            let marker = im.items.is_empty() && cx.c.implraw.contains_key(&pre);
            if fns.is_empty() && !marker {
                return;
            }
            let mut g = im.generics.clone();
            let mut m = BTreeMap::new();
            cx.generics(&mut g, &mut m);
            let mut sub = Subst { m: m.clone(), rebound: cx.rebound.clone(), retype: cx.retype.clone() };
            let mut st = (*im.self_ty).clone();
            sub.visit_type_mut(&mut st);
            sub.visit_generics_mut(&mut g);
            let tr = im.trait_.as_ref().map(|t| {
                let mut p = t.1.clone();
                sub.visit_path_mut(&mut p);
                let l = p.segments.last().unwrap().clone();
                let mut l2 = l.clone();
                let ren = renamed(cx.c, &l.ident.to_string(), &sn);
                if let Some(r) = ren {
                    l2.ident = syn::Ident::new(&r, proc_macro2::Span::call_site());
                }
                quote!(#l2 for)
            });
            let (ig, _, wh) = g.split_for_impl();
            let _ = writeln!(
                cx.out,
                "    impl{} {} {} {} {{",
                tidy(&ig.to_token_stream().to_string()),
                tr.as_ref().map(|t| t.to_string()).unwrap_or_default(),
                tidy(&st.to_token_stream().to_string()),
                wh.map(|w| w.to_token_stream().to_string()).unwrap_or_default()
            );
            for i in &im.items {
                if let ImplItem::Type(t) = i {
                    let mut t = t.clone();
                    t.attrs.clear();
                    sub.visit_type_mut(&mut t.ty);
                    let _ = writeln!(cx.out, "    {}", tidy(&t.to_token_stream().to_string()));
                }
            }
            if let Some(r) = cx.c.implraw.get(&pre) {
                if !seen.contains(&format!("implraw {}", pre)) {
                    seen.insert(format!("implraw {}", pre));
                    cx.out.push_str(r);
                    cx.out.push('\n');
                }
            }
            for (f, key) in fns {
                seen.insert(key.clone());
                cx.emit_fn(&key, &f.sig, Some(&f.block), &m, tn.is_some(), tn.is_none(), cr);
            }
            cx.out.push_str("    }\n");
        }
        Item::Fn(f) => {
            let key = f.sig.ident.to_string();
            if cx.c.fns.contains_key(&key) {
                seen.insert(key.clone());
                cx.emit_fn(&key, &f.sig, Some(&f.block), &BTreeMap::new(), false, true, cr);
            }
        }
        _ => {}
    }
}

/// `rename Trait NewTrait [Self...]`
fn renamed(c: &Contracts, tr: &str, sn: &str) -> Option<String> {
    for d in &c.dirs {
        if d.0 == "rename" {
            let w: Vec<&str> = d.1.split_whitespace().collect();
            if w[0] == tr && (w.len() == 2 || w[2..].contains(&sn)) {
                return Some(w[1].to_string());
            }
        }
    }
    None
}

fn derives(attrs: &[Attribute]) -> String {
    let mut o = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let s = a.to_token_stream().to_string();
            if s.contains("Copy") {
                o.push("Copy");
                o.push("Clone");
            }
        }
    }
    if o.is_empty() {
        String::new()
    } else {
        format!("    #[derive({})]\n", o.join(", "))
    }
}
