//! Rewriting of one function into the verifier's subset.  Every rule here is listed in DESIGN.md
//! ("what extraction changes").
use crate::resolve::{Def, ModPath, World};
use proc_macro2::{Span, TokenStream};
use quote::{quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use syn::{parse_quote, visit_mut::VisitMut, Expr, Ident, Pat, Stmt, Type};

pub struct Extracted {
    pub json: Value,
    pub callees: Vec<Def>,
    pub types: Vec<Def>,
}

const PRIMS: &[&str] = &["u8", "u16", "u32", "u64", "u128", "usize", "bool", "i64", "i128", "i32", "String", "str"];

/// number of parts of the tuple a final `map` / `filter_map` closure yields
fn closure_tuple(e: &Expr) -> Option<usize> {
    let Expr::MethodCall(m) = e else { return None };
    let n = m.method.to_string();
    let Some(Expr::Closure(c)) = m.args.first() else { return None };
    struct V(Option<usize>);
    impl<'ast> syn::visit::Visit<'ast> for V {
        fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
            if let Expr::Path(p) = &*c.func {
                if p.path.is_ident("Some") { if let Some(Expr::Tuple(t)) = c.args.first() { self.0 = Some(t.elems.len()); } }
            }
            syn::visit::visit_expr_call(self, c);
        }
    }
    match n.as_str() {
        "filter_map" => { let mut v = V(None); syn::visit::Visit::visit_expr(&mut v, &c.body); v.0 }
        "map" => if let Expr::Tuple(t) = &*c.body { Some(t.elems.len()) } else { None },
        _ => None,
    }
}
fn is_const_name(s: &str) -> bool {
    s.len() >= 2 && s.chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_')
}

pub struct Rw<'a> {
    w: &'a World,
    module: ModPath,
    fork: String,
    externals: &'a BTreeSet<String>,
    ext_types: &'a BTreeSet<String>,
    ext_sigs: BTreeMap<String, String>,
    cgs: BTreeSet<String>,
    tparams: BTreeSet<String>,
    cgs_used: BTreeSet<String>,
    callees: Vec<Def>,
    types: Vec<Def>,
    loops: Vec<String>,
    nif: usize,
    gens: usize,
    unsupported: Vec<String>,
    dropped: Vec<String>,
    env: Vec<BTreeMap<String, Type>>,
    ret: Option<Type>,
    self_ty: Option<String>,
    ext_used: BTreeSet<String>,
    calls: BTreeMap<String, usize>,
    lets: BTreeMap<String, usize>,
}

fn path_segs(p: &syn::Path) -> Vec<String> {
    p.segments.iter().map(|s| s.ident.to_string()).collect()
}
fn id(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}
/// a unit-typed tail expression becomes a statement
fn semi(v: Vec<Stmt>) -> Vec<Stmt> {
    v.into_iter()
        .map(|s| match s {
            Stmt::Expr(e, None) if !matches!(e, Expr::If(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_) | Expr::Match(_) | Expr::Block(_)) => Stmt::Expr(e, Some(Default::default())),
            s => s,
        })
        .collect()
}
/// base and bounds of `X[a..b]` (half-open ranges only)
fn range_index(e: &Expr) -> Option<(Expr, Option<Expr>, Option<Expr>)> {
    if let Expr::Index(i) = strip_paren(e) {
        if let Expr::Range(r) = strip_paren(&i.index) {
            if matches!(r.limits, syn::RangeLimits::HalfOpen(_)) {
                return Some(((*i.expr).clone(), r.start.as_ref().map(|e| (**e).clone()), r.end.as_ref().map(|e| (**e).clone())));
            }
        }
    }
    None
}
fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        Expr::Group(p) => strip_paren(&p.expr),
        _ => e,
    }
}

enum Item {
    Val(Expr),
    Tup(Vec<Item>),
}
impl Item {
    fn expr(&self) -> Expr {
        match self {
            Item::Val(e) => e.clone(),
            Item::Tup(v) => {
                let es: Vec<Expr> = v.iter().map(|i| i.expr()).collect();
                parse_quote!((#(#es),*))
            }
        }
    }
}

#[derive(Debug)]
enum Src {
    Slice(Expr, u8), // 0 ref 1 mut 2 owned
    Set(Expr, u8),
    Range(Expr, Expr, bool),
    Chunks(Expr, Expr),
}
struct Chain {
    src: Src,
    adapters: Vec<(String, Vec<Expr>)>,
}

impl<'a> Rw<'a> {
    fn gensym(&mut self, p: &str) -> Ident {
        self.gens += 1;
        id(&format!("{}{}", p, self.gens))
    }
    fn lookup_var(&self, n: &str) -> Option<&Type> {
        self.env.iter().rev().find_map(|m| m.get(n))
    }
    fn bind_var(&mut self, n: &str, t: Option<Type>) {
        if let Some(t) = t {
            self.env.last_mut().unwrap().insert(n.to_string(), t);
        }
    }

    // ---------- types ----------
    pub fn map_type(&mut self, t: &Type) -> Type {
        match t {
            Type::Reference(r) => {
                let mut r = r.clone();
                r.elem = Box::new(self.map_type(&r.elem));
                Type::Reference(r)
            }
            Type::Slice(s) => {
                let e = self.map_type(&s.elem);
                parse_quote!([#e])
            }
            Type::Array(a) => {
                let e = self.map_type(&a.elem);
                let n = &a.len;
                parse_quote!([#e; #n])
            }
            Type::Tuple(tt) => {
                let es: Vec<Type> = tt.elems.iter().map(|e| self.map_type(e)).collect();
                if es.is_empty() { parse_quote!(()) } else { parse_quote!((#(#es),*)) }
            }
            Type::Paren(p) => self.map_type(&p.elem),
            Type::ImplTrait(it) => {
                for b in &it.bounds {
                    if let syn::TypeParamBound::Trait(tb) = b {
                        let seg = tb.path.segments.last().unwrap();
                        let n = seg.ident.to_string();
                        // the only implementation in the crate; any other hidden type fails to type-check
                        if n == "ExecutionEngine" { return parse_quote!(bool); }
                        if n == "Iterator" || n == "IntoIterator" {
                            if let syn::PathArguments::AngleBracketed(ab) = &seg.arguments {
                                for a in &ab.args {
                                    if let syn::GenericArgument::AssocType(at) = a {
                                        let e = self.map_type(&at.ty);
                                        return parse_quote!(Vec<#e>);
                                    }
                                }
                            }
                        }
                    }
                }
                self.unsupported.push(format!("impl type {}", quote!(#t)));
                t.clone()
            }
            Type::Path(p) => {
                let segs = path_segs(&p.path);
                let last = p.path.segments.last().unwrap();
                let name = last.ident.to_string();
                if name == "Self" {
                    if let Some(s) = &self.self_ty {
                        let i = id(s);
                        return parse_quote!(#i);
                    }
                }
                if segs.len() == 1 && (self.tparams.contains(&name) || PRIMS.contains(&name.as_str())) {
                    return t.clone();
                }
                let mut args: Vec<Type> = vec![];
                let mut lts: Vec<syn::Lifetime> = vec![];
                if let syn::PathArguments::AngleBracketed(ab) = &last.arguments {
                    for a in &ab.args {
                        match a {
                            syn::GenericArgument::Type(Type::Path(q))
                                if q.path.segments.len() == 1 && is_const_name(&q.path.segments[0].ident.to_string()) => {}
                            syn::GenericArgument::Type(x) => args.push(self.map_type(x)),
                            syn::GenericArgument::Lifetime(l) => lts.push(l.clone()),
                            _ => {}
                        }
                    }
                }
                match name.as_str() {
                    "List" | "Vector" | "Vec" => {
                        if args.is_empty() { return parse_quote!(Vec); }
                        let a = &args[0];
                        return parse_quote!(Vec<#a>);
                    }
                    "Bitlist" | "Bitvector" => return parse_quote!(Vec<bool>),
                    "Result" => {
                        if args.is_empty() { return parse_quote!(Result<()>); }
                        let a = &args[0];
                        return parse_quote!(Result<#a>);
                    }
                    "Option" | "HashSet" | "HashMap" | "Box" => {
                        let i = id(&name);
                        return parse_quote!(#i<#(#args),*>);
                    }
                    _ => {}
                }
                if self.ext_types.contains(&name) {
                    let i = id(&name);
                    return if args.is_empty() { parse_quote!(#i) } else { parse_quote!(#i<#(#args),*>) };
                }
                if let Some(d) = self.w.resolve(&self.module, &segs) {
                    if let syn::Item::Type(a) = &*d.item {
                        // alias: substitute
                        let save = std::mem::replace(&mut self.module, d.module.clone());
                        let r = self.map_type(&a.ty);
                        self.module = save;
                        return r;
                    }
                    let key = self.w.key_for(&self.fork, &d);
                    self.types.push(d);
                    let i = id(&key);
                    return if lts.is_empty() && args.is_empty() { parse_quote!(#i) } else { parse_quote!(#i<#(#lts,)* #(#args),*>) };
                }
                let i = id(&name);
                if args.is_empty() { parse_quote!(#i) } else { parse_quote!(#i<#(#args),*>) }
            }
            _ => t.clone(),
        }
    }

    fn tname(&self, t: &Type) -> Option<String> {
        match t {
            Type::Reference(r) => self.tname(&r.elem),
            Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
            _ => None,
        }
    }
    fn targ(&self, t: &Type, n: usize) -> Option<Type> {
        if let Type::Path(p) = t {
            if let syn::PathArguments::AngleBracketed(ab) = &p.path.segments.last()?.arguments {
                let v: Vec<&Type> = ab.args.iter().filter_map(|a| if let syn::GenericArgument::Type(t) = a { Some(t) } else { None }).collect();
                return v.get(n).map(|t| (*t).clone());
            }
        }
        None
    }
    fn strip_ref(t: &Type) -> &Type {
        match t {
            Type::Reference(r) => Self::strip_ref(&r.elem),
            _ => t,
        }
    }
    fn type_def(&self, t: &Type) -> Option<Def> {
        if let Type::Path(p) = Self::strip_ref(t) {
            let n = p.path.segments.last()?.ident.to_string();
            if self.ext_types.contains(&n) {
                return None;
            }
            // keys may be "mod__Name"
            if let Some((m, n2)) = n.split_once("__") {
                return self.w.resolve(&vec![], &[m.to_string(), n2.to_string()]);
            }
            return self.w.resolve(&vec![self.fork.clone()], &[n.clone()]).or_else(|| self.w.resolve(&self.module, &[n.clone()]))
                .or_else(|| self.types.iter().find(|d| d.name == n).cloned());
        }
        None
    }
    fn with_module<T>(&mut self, m: &ModPath, f: impl FnOnce(&mut Self) -> T) -> T {
        let save = std::mem::replace(&mut self.module, m.clone());
        let st = std::mem::take(&mut self.tparams);
        let r = f(self);
        self.module = save;
        self.tparams = st;
        r
    }
    fn ret_type(&mut self, d: &Def) -> Option<Type> {
        let sig = match (&d.method, &*d.item) {
            (Some(m), _) => m.sig.clone(),
            (None, syn::Item::Fn(f)) => f.sig.clone(),
            _ => return None,
        };
        if let syn::ReturnType::Type(_, t) = &sig.output {
            let n = self.types.len();
            let su = self.unsupported.len();
            let st = std::mem::replace(&mut self.self_ty, d.impl_of.clone());
            let r = self.with_module(&d.module, |s| s.map_type(t));
            self.self_ty = st;
            let _ = n;
            self.unsupported.truncate(su);
            return Some(r);
        }
        None
    }

    fn infer(&mut self, e: &Expr) -> Option<Type> {
        match e {
            Expr::Paren(p) => self.infer(&p.expr),
            Expr::Path(p) if p.path.segments.len() == 1 => {
                let n = p.path.segments[0].ident.to_string();
                if let Some(t) = self.lookup_var(&n).cloned() { return Some(t); }
                if is_const_name(&n) {
                    let d = self.w.resolve(&self.module, &[n])?;
                    if let syn::Item::Const(c) = &*d.item { return Some((*c.ty).clone()); }
                }
                None
            }
            Expr::Reference(r) => {
                let t = self.infer(&r.expr)?;
                Some(if r.mutability.is_some() { parse_quote!(&mut #t) } else { parse_quote!(&#t) })
            }
            Expr::Unary(u) => {
                let t = self.infer(&u.expr)?;
                if matches!(u.op, syn::UnOp::Deref(_)) {
                    if let Type::Reference(r) = &t {
                        return Some((*r.elem).clone());
                    }
                }
                Some(t)
            }
            Expr::Cast(c) => Some((*c.ty).clone()),
            Expr::Field(f) => {
                let t = self.infer(&f.base)?;
                let d = self.type_def(&t)?;
                if let syn::Item::Struct(s) = &*d.item {
                    let n = f.member.to_token_stream().to_string();
                    let st = s.clone();
                    for (i, fl) in st.fields.iter().enumerate() {
                        let fnm = fl.ident.as_ref().map(|i| i.to_string()).unwrap_or(i.to_string());
                        if fnm == n {
                            let sl = self.types.len();
                            let r = self.with_module(&d.module, |s| s.map_type(&fl.ty));
                            self.types.truncate(sl.max(self.types.len()));
                            return Some(r);
                        }
                    }
                }
                None
            }
            Expr::Index(i) => {
                let t = self.infer(&i.expr)?;
                if self.tname(&t).map(|n| self.ext_types.contains(&n) && !n.starts_with("Bit")).unwrap_or(false) {
                    return Some(if matches!(strip_paren(&i.index), Expr::Range(_)) { parse_quote!([u8]) } else { parse_quote!(u8) });
                }
                let t = Self::strip_ref(&t).clone();
                if matches!(strip_paren(&i.index), Expr::Range(_)) {
                    return match &t {
                        Type::Slice(_) => Some(t),
                        _ => {
                            let a = self.elem_type(&t)?;
                            Some(parse_quote!([#a]))
                        }
                    };
                }
                self.elem_type(&t)
            }
            Expr::Try(t) => {
                let t = self.infer(&t.expr)?;
                self.targ(&t, 0)
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs = path_segs(&p.path);
                    if segs.len() == 2 && (segs[0] == "HashSet" || segs[0] == "HashMap" || segs[0] == "Vec") {
                        let i = id(&segs[0]);
                        return Some(parse_quote!(#i<usize>));
                    }
                    if segs.last().map(|s| s == "Some" || s == "Ok").unwrap_or(false) {
                        let a = self.infer(&c.args[0])?;
                        return Some(if segs[0] == "Some" { parse_quote!(Option<#a>) } else { parse_quote!(Result<#a>) });
                    }
                    if let Some(t) = self.ext_sigs.get(segs.last().unwrap()) {
                        return syn::parse_str(t).ok();
                    }
                    if segs.len() == 2 && segs[1] == "default" && c.args.is_empty() {
                        let i = id(&segs[0]);
                        return Some(self.map_type(&parse_quote!(#i)));
                    }
                    let d = self.w.resolve(&self.module, &segs)?;
                    return self.ret_type(&d);
                }
                None
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "clone" | "vclone" | "to_vec" | "to_owned" => {
                        let t = self.infer(&m.receiver)?;
                        let t = Self::strip_ref(&t).clone();
                        if let Type::Slice(s) = &t {
                            let e = &s.elem;
                            return Some(parse_quote!(Vec<#e>));
                        }
                        return Some(t);
                    }
                    "len" | "count" => return Some(parse_quote!(usize)),
                    "unwrap" | "expect" => {
                        let t = self.infer(&m.receiver)?;
                        return self.targ(&t, 0);
                    }
                    "get" => {
                        let t = self.infer(&m.receiver)?;
                        let e = self.elem_type(&Self::strip_ref(&t).clone())?;
                        return Some(parse_quote!(Option<&#e>));
                    }
                    "get_mut" => {
                        let t = self.infer(&m.receiver)?;
                        let e = self.elem_type(&Self::strip_ref(&t).clone())?;
                        return Some(parse_quote!(Option<&mut #e>));
                    }
                    "ok_or" | "ok_or_else" => {
                        let t = self.infer(&m.receiver)?;
                        let a = self.targ(&t, 0)?;
                        return Some(parse_quote!(Result<#a>));
                    }
                    "collect" => {
                        if let Some(tf) = &m.turbofish {
                            if let Some(syn::GenericArgument::Type(t)) = tf.args.first() {
                                if let Some(k) = closure_tuple(&m.receiver) {
                                    if quote!(#t).to_string() == "Vec < _ >" {
                                        let us: Vec<Type> = (0..k).map(|_| parse_quote!(_)).collect();
                                        return Some(parse_quote!(Vec<(#(#us),*)>));
                                    }
                                }
                                return Some(t.clone());
                            }
                        }
                        return None;
                    }
                    "saturating_sub" | "saturating_add" | "min" | "max" | "pow" => return self.infer(&m.receiver),
                    _ => {}
                }
                let t = self.infer(&m.receiver)?;
                let d = self.type_def(&t)?;
                let md = self.w.method(&d, &n)?;
                self.ret_type(&md)
            }
            Expr::Struct(s) => {
                let i = s.path.segments.last()?.ident.clone();
                Some(parse_quote!(#i))
            }
            Expr::Macro(m) if m.mac.path.is_ident("vec") => Some(parse_quote!(Vec<u64>)),
            Expr::Block(b) => {
                if let Some(Stmt::Expr(e, None)) = b.block.stmts.last() {
                    return self.infer(&e.clone());
                }
                None
            }
            _ => None,
        }
    }
    fn elem_type(&self, t: &Type) -> Option<Type> {
        match t {
            Type::Slice(s) => Some((*s.elem).clone()),
            Type::Array(s) => Some((*s.elem).clone()),
            Type::Reference(r) => self.elem_type(&r.elem),
            _ => match self.tname(t)?.as_str() {
                "Vec" | "HashSet" => self.targ(t, 0),
                "Bitlist" | "Bitvector" => Some(parse_quote!(bool)),
                _ => None,
            },
        }
    }

    // ---------- iterator chains ----------
    fn chain_of(&mut self, e: &Expr) -> Option<Chain> {
        match strip_paren(e) {
            Expr::Range(r) if r.start.is_some() && r.end.is_some() => Some(Chain {
                src: Src::Range(*r.start.clone().unwrap(), *r.end.clone().unwrap(), matches!(r.limits, syn::RangeLimits::Closed(_))),
                adapters: vec![],
            }),
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "iter" | "iter_mut" | "into_iter" => {
                        if let Some(c) = self.chain_of(&m.receiver) {
                            if n == "into_iter" || n == "iter" {
                                return Some(c);
                            }
                        }
                        let t = self.infer(&m.receiver);
                        let owned_is_ref = n == "into_iter" && matches!(t, Some(Type::Reference(_)));
                        let mode = match n.as_str() { "iter" => 0, "iter_mut" => 1, _ => if owned_is_ref { 0 } else { 2 } };
                        if t.as_ref().and_then(|t| self.tname(t)) == Some("HashSet".into()) {
                            return Some(Chain { src: Src::Set((*m.receiver).clone(), mode), adapters: vec![] });
                        }
                        Some(Chain { src: Src::Slice((*m.receiver).clone(), mode), adapters: vec![] })
                    }
                    "chunks" | "chunks_exact" => Some(Chain { src: Src::Chunks((*m.receiver).clone(), m.args[0].clone()), adapters: vec![] }),
                    "flat_map" => {
                        if let Expr::Closure(cl) = &m.args[0] {
                            let b = cl.body.to_token_stream().to_string();
                            if b.contains("then_some") || b.contains("Some (") {
                                let mut c = self.chain_of(&m.receiver)?;
                                c.adapters.push(("filter_map".into(), m.args.iter().cloned().collect()));
                                return Some(c);
                            }
                        }
                        None
                    }
                    "enumerate" | "filter" | "map" | "filter_map" | "zip" | "take" | "skip" | "rev" | "copied" | "cloned" | "step_by" | "take_while" => {
                        let mut c = self.chain_of(&m.receiver)?;
                        c.adapters.push((n, m.args.iter().cloned().collect()));
                        Some(c)
                    }
                    _ => None,
                }
            }
            Expr::Call(c) => {
                // call of a repo function returning `impl Iterator` (extracted as a Vec)
                if let Expr::Path(p) = &*c.func {
                    let segs = path_segs(&p.path);
                    if segs.last().map(|s| s == "zip").unwrap_or(false) && c.args.len() == 2 {
                        let mut ch = match self.chain_of(&c.args[0]) { Some(c) => c, None => Chain { src: self.for_src(&c.args[0]), adapters: vec![] } };
                        ch.adapters.push(("zip".into(), vec![c.args[1].clone()]));
                        return Some(ch);
                    }
                    let d = self.w.resolve(&self.module, &segs)?;
                    if let syn::Item::Fn(f) = &*d.item {
                        if let syn::ReturnType::Type(_, t) = &f.sig.output {
                            if matches!(**t, Type::ImplTrait(_)) {
                                return Some(Chain { src: Src::Slice(e.clone(), 2), adapters: vec![] });
                            }
                        }
                    }
                }
                None
            }
            _ => None,
        }
    }
    /// source of `for pat in E` when E is not a chain
    fn for_src(&mut self, e: &Expr) -> Src {
        let e = strip_paren(e).clone();
        if let Expr::Reference(r) = &e {
            let t = self.infer(&r.expr);
            let mode = if r.mutability.is_some() { 1 } else { 0 };
            if t.as_ref().and_then(|t| self.tname(t)) == Some("HashSet".into()) {
                return Src::Set((*r.expr).clone(), mode);
            }
            return Src::Slice((*r.expr).clone(), mode);
        }
        let t = self.infer(&e);
        let isref = matches!(t, Some(Type::Reference(_)));
        let mode = if let Some(Type::Reference(r)) = &t { if r.mutability.is_some() { 1 } else { 0 } } else { 2 };
        let _ = isref;
        if t.as_ref().and_then(|t| self.tname(t)) == Some("HashSet".into()) {
            return Src::Set(e, mode);
        }
        Src::Slice(e, mode)
    }

    fn bind(&mut self, pat: &Pat, item: &Item, byref: bool, out: &mut Vec<Stmt>) {
        match (pat, item) {
            (Pat::Wild(_), _) => {}
            (Pat::Type(t), _) => self.bind(&t.pat, item, byref, out),
            (Pat::Paren(p), _) => self.bind(&p.pat, item, byref, out),
            (Pat::Reference(p), it) if byref => self.bind(&p.pat, it, false, out),
            (Pat::Reference(p), Item::Val(e)) => match strip_paren(e) {
                Expr::Reference(r) => {
                    let inner = (*r.expr).clone();
                    self.bind(&p.pat, &Item::Val(inner), false, out)
                }
                e => {
                    let e2: Expr = parse_quote!(*#e);
                    self.bind(&p.pat, &Item::Val(e2), false, out)
                }
            },
            // destructuring an owned element in place: bind its parts by reference
            (Pat::Tuple(p), Item::Val(e)) if matches!(strip_paren(e), Expr::Index(_)) && !matches!(self.infer(e), Some(Type::Tuple(_))) => {
                out.push(parse_quote!(let #p = &#e;));
            }
            (Pat::Tuple(p), Item::Tup(v)) if p.elems.len() == v.len() => {
                for (p, i) in p.elems.iter().zip(v) {
                    self.bind(p, i, byref, out);
                }
            }
            (p, it) => {
                let e = it.expr();
                let e: Expr = if byref { parse_quote!(&#e) } else { e };
                out.push(parse_quote!(let #p = #e;));
            }
        }
    }

    /// builds the loop for a chain; `body` receives the item and produces statements
    fn build_loop(
        &mut self,
        c: Chain,
        label: Option<syn::Label>,
        desc: &str,
        body: &mut dyn FnMut(&mut Self, &Item) -> Vec<Stmt>,
    ) -> Vec<Stmt> {
        let k = self.loops.len();
        self.loops.push(String::new());
        let kk = proc_macro2::Literal::usize_unsuffixed(k);
        let mut pre: Vec<Stmt> = vec![];
        let idx = id(&format!("__i{k}"));
        let end = id(&format!("__n{k}"));
        let mut inner: Vec<Stmt> = vec![];
        let mut adapters = c.adapters;
        let mut d = format!("{desc}");
        // `rev` directly after the source, `take`/`skip`
        let mut rev = false;
        let mut skip: Option<Expr> = None;
        let mut take: Option<Expr> = None;
        loop {
            match adapters.first().map(|a| a.0.as_str()) {
                Some("rev") if !rev && skip.is_none() && take.is_none() => rev = true,
                Some("skip") if skip.is_none() && take.is_none() && !rev => skip = Some(adapters[0].1[0].clone()),
                Some("take") if take.is_none() && !rev => take = Some(adapters[0].1[0].clone()),
                _ => break,
            }
            d.push_str(&format!(".{}", adapters[0].0));
            adapters.remove(0);
        }
        let cur: Expr; // expression for the current element
        let (start, stop): (Expr, Expr);
        let mut simple = |s: &mut Self, e: &Expr, mode: u8, pre: &mut Vec<Stmt>| -> Expr {
            fn place(e: &Expr) -> bool {
                match e {
                    Expr::Path(_) => true,
                    Expr::Field(f) => place(&f.base),
                    Expr::Paren(p) => place(&p.expr),
                    _ => false,
                }
            }
            if place(e) {
                return e.clone();
            }
            let v = id(&format!("__s{k}"));
            let t = s.infer(e);
            if let Some(t) = t {
                s.bind_var(&v.to_string(), Some(t));
            }
            match mode {
                2 => pre.push(parse_quote!(let #v = #e;)),
                0 => {
                    let isref = matches!(strip_paren(e), Expr::Call(_) | Expr::Try(_) | Expr::MethodCall(_));
                    let e2: Expr = if isref { e.clone() } else { parse_quote!(&#e) };
                    pre.push(parse_quote!(let #v = #e2;));
                }
                _ => pre.push(parse_quote!(let #v = &mut #e;)),
            }
            parse_quote!(#v)
        };
        match &c.src {
            Src::Range(a, b, incl) => {
                d.push_str(" range");
                start = a.clone();
                let b2: Expr = if *incl { parse_quote!((#b) + 1) } else { b.clone() };
                pre.push(parse_quote!(let #end = #b2;));
                stop = parse_quote!(#end);
                cur = parse_quote!(__CUR);
            }
            Src::Slice(e, mode) => {
                d.push_str(&format!(" slice({})", quote!(#e)));
                let p = simple(self, e, *mode, &mut pre);
                start = parse_quote!(0usize);
                stop = parse_quote!(#p.len());
                cur = match mode {
                    0 => parse_quote!(&#p[__CUR]),
                    1 => parse_quote!(&mut #p[__CUR]),
                    _ => parse_quote!(#p[__CUR]),
                };
            }
            Src::Set(e, mode) => {
                d.push_str(&format!(" set({})", quote!(#e)));
                let v = id(&format!("__s{k}"));
                let rf: Expr = match self.infer(e) {
                    Some(Type::Reference(_)) => e.clone(),
                    _ => parse_quote!(&#e),
                };
                self.ext_used.insert("vset_to_vec".into());
                pre.push(parse_quote!(let #v = vset_to_vec(#rf);));
                start = parse_quote!(0usize);
                stop = parse_quote!(#v.len());
                cur = if *mode == 0 { parse_quote!(&#v[__CUR]) } else { parse_quote!(#v[__CUR]) };
            }
            Src::Chunks(e, n) => {
                d.push_str(" chunks");
                let p = simple(self, e, 0, &mut pre);
                let nn = id(&format!("__cn{k}"));
                pre.push(parse_quote!(let #nn = #n;));
                pre.push(parse_quote!(let #end = vnum_chunks(#p.len(), #nn);));
                self.ext_used.insert("vnum_chunks".into());
                self.ext_used.insert("vchunk".into());
                start = parse_quote!(0usize);
                stop = parse_quote!(#end);
                cur = parse_quote!(vchunk(&#p, #nn, __CUR));
            }
        }
        let curid = id(&format!("__c{k}"));
        struct Sub(Ident);
        impl VisitMut for Sub {
            fn visit_ident_mut(&mut self, i: &mut Ident) {
                if i == "__CUR" {
                    *i = self.0.clone();
                }
            }
        }
        let cur = {
            let mut x = cur;
            Sub(curid.clone()).visit_expr_mut(&mut x);
            x
        };
        // range bound / skip / take / rev
        let start_id = id(&format!("__a{k}"));
        let mut lo: Expr = start;
        let mut hi: Expr = stop.clone();
        if skip.is_some() || take.is_some() || rev {
            pre.push(parse_quote!(let #start_id = #lo;));
            lo = parse_quote!(#start_id);
            if let Some(s) = skip {
                let sk = id(&format!("__sk{k}"));
                self.ext_used.insert("vskip".into());
                pre.push(parse_quote!(let #sk = vskip(#start_id, #hi, #s);));
                lo = parse_quote!(#sk);
            }
            if let Some(t) = take {
                let tk = id(&format!("__tk{k}"));
                self.ext_used.insert("vtake_end".into());
                pre.push(parse_quote!(let #tk = vtake_end(#lo, #hi, #t);));
                hi = parse_quote!(#tk);
            }
        }
        if rev {
            // iterate downwards
            pre.push(parse_quote!(let mut #idx = #hi;));
            inner.push(parse_quote!(#idx = #idx - 1;));
            inner.push(parse_quote!(let #curid = #idx;));
        } else {
            pre.push(parse_quote!(let mut #idx = #lo;));
            inner.push(parse_quote!(let #curid = #idx;));
            inner.push(parse_quote!(#idx = #idx + 1;));
        }
        let mut item = Item::Val(cur);
        if let Src::Range(..) = c.src {
            item = Item::Val(parse_quote!(#curid));
        }
        // adapters
        enum Wrap { None, If(Expr), IfLet(Ident, Expr) }
        let mut stack: Vec<(Vec<Stmt>, Wrap)> = vec![]; // statements, then a wrapper around the rest
        let mut curstmts = inner;
        let mut filtered = false;
        let mut ecount = 0;
        for (name, args) in adapters {
            d.push_str(&format!(".{name}"));
            match name.as_str() {
                "enumerate" => {
                    // index of the element among those reaching this point
                    let pos: Expr = if filtered {
                        ecount += 1;
                        let ev = id(&format!("__e{k}_{ecount}"));
                        let ec = id(&format!("__ec{k}_{ecount}"));
                        pre.push(parse_quote!(let mut #ev: usize = 0;));
                        curstmts.push(parse_quote!(let #ec = #ev;));
                        curstmts.push(parse_quote!(#ev = #ev + 1;));
                        parse_quote!(#ec)
                    } else if rev {
                        parse_quote!(((#hi) - 1 - #curid))
                    } else {
                        match &lo {
                            Expr::Lit(_) => parse_quote!(#curid),
                            _ => {
                                // offset from the start
                                if let Expr::Path(_) = &lo { } else {
                                    pre.insert(0, parse_quote!(let #start_id = #lo;));
                                }
                                let b: Expr = if let Expr::Path(_) = &lo { lo.clone() } else { parse_quote!(#start_id) };
                                parse_quote!((#curid - #b))
                            }
                        }
                    };
                    item = Item::Tup(vec![Item::Val(pos), item]);
                }
                "copied" | "cloned" => {
                    if let Item::Val(e) = &item {
                        item = match strip_paren(e) {
                            Expr::Reference(r) => { let x = &r.expr; if name == "cloned" { Item::Val(parse_quote!(#x.clone())) } else { Item::Val((*r.expr).clone()) } }
                            x => Item::Val(if name == "cloned" { parse_quote!(#x.clone()) } else { parse_quote!(*#x) }),
                        };
                    }
                }
                "zip" => {
                    let other = match self.chain_of(&args[0]) {
                        Some(c2) if c2.adapters.is_empty() => c2.src,
                        Some(_) => { self.unsupported.push("zip with adapters".into()); Src::Slice(args[0].clone(), 2) }
                        None => self.for_src(&args[0]),
                    };
                    if let Src::Slice(e, mode) = other {
                        let zn = id(&format!("__z{k}"));
                        let p: Expr = match &e {
                            Expr::Path(_) | Expr::Field(_) => e.clone(),
                            _ => {
                                let rf: Expr = if mode == 0 { parse_quote!(&#e) } else { e.clone() };
                                pre.push(parse_quote!(let #zn = #rf;));
                                parse_quote!(#zn)
                            }
                        };
                        let h2 = hi.clone();
                        pre.push(parse_quote!(let #end = vmin_usize(#h2, #p.len());));
                        hi = parse_quote!(#end);
                        self.ext_used.insert("vmin_usize".into());
                        let e2: Expr = match mode { 0 => parse_quote!(&#p[#curid]), 1 => parse_quote!(&mut #p[#curid]), _ => parse_quote!(#p[#curid]) };
                        item = Item::Tup(vec![item, Item::Val(e2)]);
                    } else {
                        self.unsupported.push("zip".into());
                    }
                }
                "filter" => {
                    if let Expr::Closure(cl) = &args[0] {
                        self.bind(&cl.inputs[0], &item, true, &mut curstmts);
                        let cond = (*cl.body).clone();
                        let st = std::mem::take(&mut curstmts);
                        stack.push((st, Wrap::If(cond)));
                        filtered = true;
                    } else {
                        self.unsupported.push("filter with non-closure".into());
                    }
                }
                "map" => match &args[0] {
                    Expr::Closure(cl) => {
                        self.bind(&cl.inputs[0], &item, false, &mut curstmts);
                        let m = self.gensym("__m");
                        let b = &cl.body;
                        curstmts.push(parse_quote!(let #m = #b;));
                        item = Item::Val(parse_quote!(#m));
                    }
                    f => {
                        let m = self.gensym("__m");
                        let e = item.expr();
                        curstmts.push(parse_quote!(let #m = #f(#e);));
                        item = Item::Val(parse_quote!(#m));
                    }
                },
                "filter_map" => {
                    if let Expr::Closure(cl) = &args[0] {
                        self.bind(&cl.inputs[0], &item, false, &mut curstmts);
                        let m = self.gensym("__m");
                        let b = (*cl.body).clone();
                        let st = std::mem::take(&mut curstmts);
                        stack.push((st, Wrap::IfLet(m.clone(), b)));
                        item = Item::Val(parse_quote!(#m));
                        filtered = true;
                    } else {
                        self.unsupported.push("filter_map with non-closure".into());
                    }
                }
                o => self.unsupported.push(format!("adapter {o}")),
            }
        }
        let mut b = body(self, &item);
        curstmts.append(&mut b);
        stack.push((curstmts, Wrap::None));
        let mut stmts: Vec<Stmt> = vec![];
        while let Some((st, wrap)) = stack.pop() {
            let rest = std::mem::take(&mut stmts);
            stmts = st;
            match wrap {
                Wrap::If(c) => stmts.push(Stmt::Expr(parse_quote!(if #c { #(#rest)* }), None)),
                Wrap::IfLet(m, c) => stmts.push(Stmt::Expr(parse_quote!(if let Some(#m) = #c { #(#rest)* }), None)),
                Wrap::None => stmts.extend(rest),
            }
        }
        self.loops[k] = d;
        let cond: Expr = if rev { parse_quote!(#idx > #lo) } else { parse_quote!(#idx < #hi) };
        let wl: Expr = parse_quote!(#label while #cond { __loop!(#kk); #(#stmts)* __loop_end!(#kk); });
        pre.push(parse_quote!(__before_loop!(#kk);));
        pre.push(Stmt::Expr(wl, None));
        pre.push(parse_quote!(__after_loop!(#kk);));
        pre
    }

    fn sink(&mut self, e: &Expr, expected: Option<Type>) -> Option<Expr> {
        // a `for`-less chain used as a value
        let m = match e {
            Expr::MethodCall(m) => m.clone(),
            _ => return None,
        };
        let n = m.method.to_string();
        if !["collect", "sum", "count", "max", "min", "any", "all", "fold", "try_fold", "try_for_each", "for_each", "find", "position", "max_by_key", "min_by_key", "min_by", "next"].contains(&n.as_str()) {
            return None;
        }
        if n == "collect" {
            // `repeat_n(x, n).collect()`
            if let Expr::Call(c) = &*m.receiver {
                if matches!(&*c.func, Expr::Path(p) if p.path.segments.last().map(|x| x.ident == "repeat_n").unwrap_or(false)) && c.args.len() == 2 {
                    let (a, b) = (&c.args[0], &c.args[1]);
                    self.ext_used.insert("vrepeat".into());
                    return Some(parse_quote!(vrepeat(#a, #b)));
                }
            }
            // `A.intersection(&B).cloned().collect()`: the common elements, each once, in no particular order
            let mut r = &*m.receiver;
            while let Expr::MethodCall(x) = r {
                if (x.method == "cloned" || x.method == "copied") && x.args.is_empty() { r = &*x.receiver; } else { break; }
            }
            if let Expr::MethodCall(x) = r {
                if x.method == "intersection" && x.args.len() == 1 {
                    let (a, b) = (&x.receiver, &x.args[0]);
                    let tf: Option<Type> = m.turbofish.as_ref().and_then(|t| t.args.first().cloned()).and_then(|a| if let syn::GenericArgument::Type(t) = a { Some(t) } else { None });
                    if tf.or(expected.clone()).as_ref().and_then(|t| self.tname(t)).as_deref() == Some("HashSet") { return None; }
                    self.ext_used.insert("vset_inter".into());
                    return Some(parse_quote!(vset_inter(&#a, #b)));
                }
            }
        }
        let c = self.chain_of(&m.receiver)?;
        if (n == "max" || n == "min") && m.args.len() == 1 {
            return None;
        }
        let tf: Option<Type> = m.turbofish.as_ref().and_then(|t| t.args.first().cloned()).and_then(|a| if let syn::GenericArgument::Type(t) = a { Some(t) } else { None });
        let acc = id(&format!("__acc{}", self.loops.len()));
        let noref = |i: &Item| -> Expr {
            let e = i.expr();
            match strip_paren(&e) {
                Expr::Reference(r) => (*r.expr).clone(),
                _ => e,
            }
        };
        let closure = |i: usize| -> Option<syn::ExprClosure> {
            match m.args.iter().nth(i) {
                Some(Expr::Closure(c)) => Some(c.clone()),
                _ => None,
            }
        };
        Some(match n.as_str() {
            "collect" => {
                let t = tf.or(expected);
                let tn = t.as_ref().and_then(|t| self.tname(t)).unwrap_or("Vec".into());
                match tn.as_str() {
                    "HashMap" | "BTreeMap" => {
                        let b = self.build_loop(c, None, "collect-map", &mut |_, it| { let e = it.expr(); vec![parse_quote!(#acc.push(#e);)] });
                        parse_quote!({ let mut #acc = Vec::new(); #(#b)* vmap_of(#acc) })
                    }
                    "HashSet" => {
                        let b = self.build_loop(c, None, "collect-set", &mut |_, it| { let e = it.expr(); vec![parse_quote!(#acc.insert(#e);)] });
                        parse_quote!({ let mut #acc = HashSet::new(); #(#b)* #acc })
                    }
                    "Result" => {
                        let mt = t.as_ref().and_then(|t| self.targ(t, 0)).unwrap_or(parse_quote!(Vec<_>));
                        let set = self.tname(&mt) == Some("HashSet".into());
                        let b = self.build_loop(c, None, "collect-result", &mut |_, it| { let e = it.expr(); vec![if set { parse_quote!(#acc.insert(#e?);) } else { parse_quote!(#acc.push(#e?);) }] });
                        // an early return from the enclosing function: only valid directly under `?`
                        parse_quote!({ let mut #acc = Vec::new(); #(#b)* __ok_under_try(#acc) })
                    }
                    _ => {
                        let b = self.build_loop(c, None, "collect-vec", &mut |_, it| { let e = it.expr(); vec![parse_quote!(#acc.push(#e);)] });
                        let lt: Option<Type> = t.as_ref().filter(|t| self.tname(t).as_deref() == Some("Vec")).map(|t| self.map_type(&t.clone()));
                        let ty: TokenStream = lt.filter(|t| !quote!(#t).to_string().contains('_')).map(|t| quote!(: #t)).unwrap_or_default();
                        parse_quote!({ let mut #acc #ty = Vec::new(); #(#b)* #acc })
                    }
                }
            }
            "sum" => {
                let ty = tf.or(expected).map(|t| self.map_type(&t)).unwrap_or(parse_quote!(u64));
                let b = self.build_loop(c, None, "sum", &mut |_, it| { let e = noref(it); vec![parse_quote!(#acc = #acc + #e;)] });
                parse_quote!({ let mut #acc: #ty = 0; #(#b)* #acc })
            }
            "count" => {
                let b = self.build_loop(c, None, "count", &mut |_, _| vec![parse_quote!(#acc = #acc + 1;)]);
                parse_quote!({ let mut #acc: usize = 0; #(#b)* #acc })
            }
            "max" | "min" => {
                let ge = n == "max";
                let mut at: Option<Type> = None;
                let b = self.build_loop(c, None, &n, &mut |s, it| {
                    let v = s.gensym("__v");
                    let o = s.gensym("__o");
                    let e = it.expr();
                    at = s.infer(&e);
                    let isref = matches!(strip_paren(&e), Expr::Reference(_));
                    let cmp: Expr = match (ge, isref) {
                        (true, true) => parse_quote!(*#v >= *#o),
                        (true, false) => parse_quote!(#v >= #o),
                        (false, true) => parse_quote!(*#v < *#o),
                        (false, false) => parse_quote!(#v < #o),
                    };
                    vec![parse_quote!(let #v = #e;), parse_quote!(#acc = match #acc { None => Some(#v), Some(#o) => if #cmp { Some(#v) } else { Some(#o) } };)]
                });
                match at {
                    Some(t) => { let t = self.map_type(&t); parse_quote!({ let mut #acc: Option<#t> = None; #(#b)* #acc }) }
                    None => parse_quote!({ let mut #acc = None; #(#b)* #acc }),
                }
            }
            "any" | "all" => {
                let cl = closure(0)?;
                let any = n == "any";
                let b = self.build_loop(c, None, &n, &mut |s, it| {
                    let mut v = vec![];
                    s.bind(&cl.inputs[0], it, false, &mut v);
                    let body = &cl.body;
                    v.push(if any { Stmt::Expr(parse_quote!(if #body { #acc = true; break; }), None) } else { Stmt::Expr(parse_quote!(if !(#body) { #acc = false; break; }), None) });
                    v
                });
                if any { parse_quote!({ let mut #acc = false; #(#b)* #acc }) } else { parse_quote!({ let mut #acc = true; #(#b)* #acc }) }
            }
            "fold" => {
                let cl = closure(1)?;
                let init = m.args[0].clone();
                let b = self.build_loop(c, None, "fold", &mut |s, it| {
                    let p = &cl.inputs[0];
                    let mut v: Vec<Stmt> = vec![parse_quote!(let #p = #acc;)];
                    s.bind(&cl.inputs[1], it, false, &mut v);
                    let body = &cl.body;
                    v.push(parse_quote!(#acc = #body;));
                    v
                });
                parse_quote!({ let mut #acc = #init; #(#b)* #acc })
            }
            "try_fold" => {
                let cl = closure(1)?;
                let init = m.args[0].clone();
                let ok = id(&format!("__ok{}", self.loops.len()));
                let b = self.build_loop(c, None, "try_fold", &mut |s, it| {
                    let p = &cl.inputs[0];
                    let mut v: Vec<Stmt> = vec![parse_quote!(let #p = #acc;)];
                    s.bind(&cl.inputs[1], it, false, &mut v);
                    let body = &cl.body;
                    let x = s.gensym("__v");
                    v.push(Stmt::Expr(parse_quote!(match #body { Some(#x) => { #acc = #x; } None => { #ok = false; break; } }), None));
                    v
                });
                parse_quote!({ let mut #acc = #init; let mut #ok = true; #(#b)* if #ok { Some(#acc) } else { None } })
            }
            "find" | "position" | "next" => {
                let isf = n == "find";
                let cl = closure(0);
                let cnt = id(&format!("__p{}", self.loops.len()));
                let b = self.build_loop(c, None, &n, &mut |s, it| {
                    let mut v = vec![];
                    let e = it.expr();
                    if let Some(cl) = &cl {
                        s.bind(&cl.inputs[0], it, isf, &mut v);
                        let body = &cl.body;
                        let r: Expr = if isf { e } else { parse_quote!(#cnt) };
                        v.push(Stmt::Expr(parse_quote!(if #body { #acc = Some(#r); break; }), None));
                        if !isf { v.push(parse_quote!(#cnt = #cnt + 1;)); }
                    } else {
                        v.push(parse_quote!(#acc = Some(#e);));
                        v.push(Stmt::Expr(parse_quote!(break), Some(Default::default())));
                    }
                    v
                });
                parse_quote!({ let mut #acc = None; let mut #cnt: usize = 0; #(#b)* #acc })
            }
            "try_for_each" | "for_each" => {
                let cl = closure(0)?;
                let b = self.build_loop(c, None, &n, &mut |s, it| {
                    let mut v = vec![];
                    s.bind(&cl.inputs[0], it, false, &mut v);
                    let body = &cl.body;
                    v.push(if n == "for_each" { parse_quote!(#body;) } else { parse_quote!(#body?;) });
                    v
                });
                if n == "for_each" { parse_quote!({ #(#b)* }) } else { parse_quote!({ #(#b)* __ok_under_try(()) }) }
            }
            "min_by" => {
                let cl = closure(0)?;
                let (_, key, _) = self.cmp_key(&cl)?;
                let plain: Option<Expr> = match &c.src {
                    Src::Slice(e, 0) if c.adapters.is_empty() && matches!(strip_paren(e), Expr::Path(_)) => Some(e.clone()),
                    _ => None,
                };
                let mut at: Option<Type> = None;
                let b = self.build_loop(c, None, &n, &mut |s, it| {
                    let v = s.gensym("__v");
                    let o = s.gensym("__o");
                    let e = it.expr();
                    at = s.infer(&e);
                    let mut b1 = vec![];
                    let mut b2 = vec![];
                    s.bind(&cl.inputs[0], &Item::Val(parse_quote!(#v)), true, &mut b1);
                    s.bind(&cl.inputs[0], &Item::Val(parse_quote!(#o)), true, &mut b2);
                    vec![parse_quote!(let #v = #e;), parse_quote!(#acc = match #acc { None => Some(#v), Some(#o) => if { #(#b1)* #key } < { #(#b2)* #key } { Some(#v) } else { Some(#o) } };)]
                });
                if let Some(e) = plain {
                    self.ext_used.insert("vnone_of".into());
                    return Some(parse_quote!({ let mut #acc = vnone_of(&#e); #(#b)* #acc }));
                }
                match at {
                    Some(t) => { let t = self.map_type(&t); parse_quote!({ let mut #acc: Option<#t> = None; #(#b)* #acc }) }
                    None => parse_quote!({ let mut #acc = None; #(#b)* #acc }),
                }
            }
            o => {
                self.unsupported.push(format!("sink {o}"));
                return None;
            }
        })
    }

    fn subslice(&mut self, (b, lo, hi): (Expr, Option<Expr>, Option<Expr>)) -> Expr {
        let lo: Expr = lo.unwrap_or(parse_quote!(0));
        match hi {
            Some(h) => parse_quote!(#b.vsub(#lo, #h)),
            None => parse_quote!(#b.vsub_from(#lo)),
        }
    }
    /// `X.as_ref()` / `X.as_slice()` where X is a sequence (not an Option)
    fn seq_ref(&mut self, e: &Expr) -> bool {
        if let Expr::MethodCall(m) = strip_paren(e) {
            if m.args.is_empty() && ["as_ref", "vas_ref", "as_slice"].contains(&m.method.to_string().as_str()) {
                return self.infer(&m.receiver).as_ref().and_then(|t| self.tname(t)).map(|n| n != "Option").unwrap_or(false);
            }
        }
        false
    }
    /// base and index of an element of an opaque byte type
    fn ext_index(&mut self, e: &Expr) -> Option<(Expr, Expr)> {
        if let Expr::Index(i) = strip_paren(e) {
            let t = self.infer(&i.expr)?;
            let n = self.tname(&t)?;
            if self.ext_types.contains(&n) && !n.starts_with("Bit") && !matches!(strip_paren(&i.index), Expr::Range(_)) {
                return Some(((*i.expr).clone(), (*i.index).clone()));
            }
        }
        None
    }
    fn drop_err(&mut self, payload: &Expr) -> Vec<Stmt> {
        // keep arithmetic of dropped error payloads so that panics stay visible
        struct V(Vec<Expr>);
        impl<'ast> syn::visit::Visit<'ast> for V {
            fn visit_expr(&mut self, e: &'ast Expr) {
                match e {
                    Expr::Binary(_) | Expr::Index(_) => self.0.push(e.clone()),
                    Expr::MethodCall(m) if m.method == "unwrap" => self.0.push(e.clone()),
                    _ => syn::visit::visit_expr(self, e),
                }
            }
        }
        let mut v = V(vec![]);
        syn::visit::Visit::visit_expr(&mut v, payload);
        self.dropped.push(quote!(#payload).to_string());
        v.0.into_iter().map(|e| parse_quote!(let _ = #e;)).collect()
    }

    /// top-down rewriting; returns the replacement
    fn pre(&mut self, e: &Expr) -> Option<Expr> {
        match e {
            Expr::ForLoop(f) => {
                let c = match self.chain_of(&f.expr) {
                    Some(c) => c,
                    None => Chain { src: self.for_src(&f.expr), adapters: vec![] },
                };
                let fb = f.body.stmts.clone();
                let fpat = (*f.pat).clone();
                // element type into the environment
                let et = match &c.src {
                    Src::Slice(e, m) | Src::Set(e, m) if c.adapters.is_empty() => {
                        let t = self.infer(e);
                        t.and_then(|t| self.elem_type(&t)).map(|t| match m { 0 => parse_quote!(&#t), 1 => parse_quote!(&mut #t), _ => t })
                    }
                    Src::Slice(e, m) if c.adapters.len() == 1 && c.adapters[0].0 == "enumerate" => {
                        let t = self.infer(e);
                        t.and_then(|t| self.elem_type(&t)).map(|t| -> Type { match m { 0 => parse_quote!((usize, &#t)), 1 => parse_quote!((usize, &mut #t)), _ => parse_quote!((usize, #t)) } })
                    }
                    _ => None,
                };
                if let Some(t) = et {
                    self.bind_pat_types(&fpat, &t);
                }
                let label = f.label.clone();
                let stmts = self.build_loop(c, label, "for", &mut |s, it| {
                    let mut v = vec![];
                    s.bind(&fpat, it, false, &mut v);
                    v.extend(semi(fb.clone()));
                    v
                });
                Some(parse_quote!({ #(#stmts)* }))
            }
            Expr::While(w) => {
                if w.body.stmts.first().map(|s| quote!(#s).to_string().starts_with("__loop")).unwrap_or(false) {
                    return None;
                }
                let k = self.loops.len();
                self.loops.push("while".into());
                let kk = proc_macro2::Literal::usize_unsuffixed(k);
                let (l, c, b) = (&w.label, &w.cond, &semi(w.body.stmts.clone()));
                if let Expr::Let(_) = &**c {
                    // `while let P = E { B }` -> `loop { if let P = E { B } else { break; } }`
                    return Some(parse_quote!({ __before_loop!(#kk); #l loop { __loop!(#kk); if #c { #(#b)* } else { break; } } __after_loop!(#kk); }));
                }
                Some(parse_quote!({ __before_loop!(#kk); #l while #c { __loop!(#kk); #(#b)* __loop_end!(#kk); } __after_loop!(#kk); }))
            }
            Expr::Loop(w) => {
                if w.body.stmts.first().map(|s| quote!(#s).to_string().starts_with("__loop")).unwrap_or(false) {
                    return None;
                }
                let k = self.loops.len();
                self.loops.push("loop".into());
                let kk = proc_macro2::Literal::usize_unsuffixed(k);
                let (l, b) = (&w.label, &semi(w.body.stmts.clone()));
                Some(parse_quote!(#l loop { __loop!(#kk); #(#b)* }))
            }
            Expr::Try(t) => {
                // X.ok_or(E)?  /  X.ok_or_else(..)?
                if let Expr::MethodCall(m) = strip_paren(&t.expr) {
                    let n = m.method.to_string();
                    if n == "ok_or" || n == "ok_or_else" {
                        let r = &m.receiver;
                        let d = self.drop_err(&m.args[0].clone());
                        let d = if n == "ok_or" && !d.is_empty() { self.unsupported.push("arithmetic in ok_or".into()); d } else { d };
                        return Some(parse_quote!(match #r { Some(__x) => __x, None => { #(#d)* return Err(Error); } }));
                    }
                    if n == "map_err" {
                        let r = &m.receiver;
                        self.dropped.push(format!("map_err({})", m.args.to_token_stream()));
                        return Some(parse_quote!(#r?));
                    }
                    if n == "collect" || n == "try_for_each" {
                        if let Some(Expr::Block(mut b)) = self.sink(&t.expr, Some(parse_quote!(Result<Vec<_>>))) {
                            if let Some(Stmt::Expr(Expr::Call(c), None)) = b.block.stmts.last().cloned() {
                                if quote!(#c).to_string().starts_with("__ok_under_try") {
                                    let a = c.args[0].clone();
                                    b.block.stmts.pop();
                                    b.block.stmts.push(Stmt::Expr(a, None));
                                    return Some(Expr::Block(b));
                                }
                            }
                            return Some(Expr::Block(b));
                        }
                    }
                }
                None
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs = path_segs(&p.path);
                    let last = segs.last().cloned().unwrap_or_default();
                    if segs.len() == 1 && last == "Err" && quote!(#c).to_string() != "Err (Error)" {
                        let arg = c.args[0].clone();
                        if let Expr::Path(p) = &arg {
                            // Err(err) of a bound error
                            let n = path_segs(&p.path);
                            if n.len() == 1 && n[0].chars().next().unwrap().is_lowercase() {
                                return Some(parse_quote!(Err(Error)));
                            }
                        }
                        let d = self.drop_err(&arg);
                        return Some(if d.is_empty() { parse_quote!(Err(Error)) } else { parse_quote!({ #(#d)* Err(Error) }) });
                    }
                    if segs.len() == 2 && last == "with_capacity" {
                        let i = id(&segs[0]);
                        return Some(parse_quote!(#i::new()));
                    }
                    if segs.len() == 2 && segs[0] == "HashSet" && last == "from_iter" {
                        let a = c.args[0].clone();
                        if let Some(ch) = self.chain_of(&a) {
                            let acc = id(&format!("__acc{}", self.loops.len()));
                            let b = self.build_loop(ch, None, "collect-set", &mut |_, it| { let e = it.expr(); vec![parse_quote!(#acc.insert(#e);)] });
                            return Some(parse_quote!({ let mut #acc = HashSet::new(); #(#b)* #acc }));
                        }
                        self.ext_used.insert("vset_from_vec".into());
                        return Some(parse_quote!(vset_from_vec(#a)));
                    }
                    // `hash(x)` of a `&mut [u8]`: a shared view
                    if last == "hash" && c.args.len() == 1 {
                        if let Some(Type::Reference(r)) = self.infer(&c.args[0]) {
                            if r.mutability.is_some() {
                                if let Expr::Path(x) = &c.args[0] { return Some(parse_quote!(hash(&*#x))); }
                            }
                        }
                    }
                    // `Vector::<T, N>::try_from(x)`: an error unless the length is N
                    if segs.len() >= 2 && last == "try_from" && segs[segs.len() - 2] == "Vector" {
                        let a = &c.args[0];
                        if let Some(syn::PathArguments::AngleBracketed(g)) = p.path.segments.iter().nth(segs.len() - 2).map(|s| s.arguments.clone()) {
                            if let Some(n) = g.args.iter().nth(1) {
                                let n: Expr = syn::parse2(n.to_token_stream()).ok()?;
                                self.ext_used.insert("vtry_vector".into());
                                return Some(parse_quote!(vtry_vector(#a, #n)));
                            }
                        }
                    }
                    // `Vector::try_from(x)` of an inferred length
                    if segs == ["Vector", "try_from"] && matches!(p.path.segments[0].arguments, syn::PathArguments::None) {
                        let a = &c.args[0];
                        self.ext_used.insert("vtry_some_vector".into());
                        return Some(parse_quote!(vtry_some_vector(#a)));
                    }
                    // min / max / default / take / replace
                    if segs.len() == 2 && (last == "max" || last == "min") && c.args.len() == 2 {
                        let t: Type = parse_quote!(#p);
                        let _ = t;
                        let ty = if segs[0] == "cmp" { self.infer(&c.args[0]).or_else(|| self.infer(&c.args[1])).and_then(|t| self.tname(&t)) } else {
                            let i = id(&segs[0]);
                            let t = self.map_type(&parse_quote!(#i));
                            self.tname(&t)
                        };
                        if let Some(ty) = ty {
                            let f = id(&format!("v{last}_{ty}"));
                            self.ext_used.insert(f.to_string());
                            let (a, b) = (&c.args[0], &c.args[1]);
                            return Some(parse_quote!(#f(#a, #b)));
                        }
                    }
                    if segs == ["Default", "default"] && c.args.is_empty() {
                        self.ext_used.insert("vdefault".into());
                        return Some(parse_quote!(VDefault::vdefault()));
                    }
                    if segs.len() == 2 && last == "default" && c.args.is_empty() {
                        let i = id(&segs[0]);
                        let t = self.map_type(&parse_quote!(#i));
                        if let Type::Array(ar) = &t {
                            if let (Type::Path(el), len) = (&*ar.elem, &ar.len) {
                                if el.path.is_ident("u8") { return Some(parse_quote!([0u8; #len])); }
                            }
                        }
                        if let Some(n) = self.tname(&t) {
                            if n == "Vec" || n == "HashSet" { let i = id(&n); return Some(parse_quote!(#i::new())); }
                            if ["u64", "usize", "u8", "u32"].contains(&n.as_str()) {
                                let l = proc_macro2::Literal::u64_unsuffixed(0);
                                let ti = id(&n);
                                return Some(parse_quote!((#l as #ti)));
                            }
                            self.ext_used.insert("vdefault".into());
                            return Some(parse_quote!(<#t as VDefault>::vdefault()));
                        }
                    }
                    if segs == ["mem", "take"] || segs == ["std", "mem", "take"] {
                        let a = &c.args[0];
                        self.ext_used.insert("vtake".into());
                        return Some(parse_quote!(vtake(#a)));
                    }
                    if segs == ["mem", "replace"] {
                        let (a, b) = (&c.args[0], &c.args[1]);
                        self.ext_used.insert("vreplace".into());
                        return Some(parse_quote!(vreplace(#a, #b)));
                    }
                    if segs == ["mem", "swap"] {
                        let (a, b) = (&c.args[0], &c.args[1]);
                        self.ext_used.insert("vswap".into());
                        return Some(parse_quote!(vswap(#a, #b)));
                    }
                    if segs.len() == 2 && ["from_le_bytes", "from_be_bytes"].contains(&last.as_str()) {
                        let f = id(&format!("v{}_{}", segs[0], last));
                        let a = &c.args[0];
                        self.ext_used.insert(f.to_string());
                        return Some(parse_quote!(#f(#a)));
                    }
                }
                None
            }
            Expr::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                match n.as_str() {
                    "vec" => {
                        let ts = &m.mac.tokens;
                        if ts.is_empty() {
                            return Some(parse_quote!(Vec::new()));
                        }
                        let wrapped: syn::Result<Expr> = syn::parse2(quote!([#ts]));
                        match wrapped {
                            Ok(Expr::Repeat(r)) => {
                                let (a, b) = (&r.expr, &r.len);
                                self.ext_used.insert("vvec_repeat".into());
                                Some(parse_quote!(vvec_repeat(#a, #b)))
                            }
                            Ok(Expr::Array(a)) => {
                                let acc = self.gensym("__acc");
                                let es = a.elems.iter();
                                Some(parse_quote!({ let mut #acc = Vec::new(); #(#acc.push(#es);)* #acc }))
                            }
                            _ => None,
                        }
                    }
                    "cfg" => {
                        let s = m.mac.tokens.to_string();
                        let f = id(&format!("cfg_{}", s.replace(|c: char| !c.is_alphanumeric(), "_")));
                        self.ext_used.insert(f.to_string());
                        Some(parse_quote!(#f()))
                    }
                    "unreachable" | "panic" | "unimplemented" | "todo" => {
                        self.ext_used.insert("vpanic".into());
                        Some(parse_quote!(vpanic()))
                    }
                    "assert" => {
                        let a: syn::Result<Expr> = m.mac.parse_body_with(|i: syn::parse::ParseStream| { let e = i.parse::<Expr>()?; let _: TokenStream = i.parse()?; Ok(e) });
                        let a = a.ok()?;
                        self.ext_used.insert("vassert".into());
                        Some(parse_quote!(vassert(#a)))
                    }
                    "__loop" | "__loop_end" | "__after_loop" | "__before_loop" => None,
                    _ => {
                        self.unsupported.push(format!("macro {n}!"));
                        None
                    }
                }
            }
            // `&X[a..b]`
            Expr::Reference(rf) if rf.mutability.is_none() && range_index(&rf.expr).is_some() => Some(self.subslice(range_index(&rf.expr).unwrap())),
            // `X[a..b] == Y[c..d]`
            Expr::Binary(b) if matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_)) && range_index(&b.left).is_some() && range_index(&b.right).is_some() => {
                let l = self.subslice(range_index(&b.left).unwrap());
                let r = self.subslice(range_index(&b.right).unwrap());
                self.ext_used.insert("vslice_eq".into());
                Some(if matches!(b.op, syn::BinOp::Eq(_)) { parse_quote!(vslice_eq(#l, #r)) } else { parse_quote!((!vslice_eq(#l, #r))) })
            }
            // `a ^ b` on references to integers
            Expr::Binary(b) if matches!(b.op, syn::BinOp::BitXor(_) | syn::BinOp::BitAnd(_) | syn::BinOp::BitOr(_) | syn::BinOp::Add(_) | syn::BinOp::Sub(_) | syn::BinOp::Mul(_) | syn::BinOp::Div(_) | syn::BinOp::Rem(_)) && [&b.left, &b.right].iter().any(|x| matches!(self.infer(x), Some(Type::Reference(_)))) => {
                let mut d = |x: &Expr| -> Expr { if matches!(self.infer(x), Some(Type::Reference(_))) { parse_quote!((*#x)) } else { parse_quote!(#x) } };
                let (l, r) = (d(&b.left), d(&b.right));
                let op = &b.op;
                Some(parse_quote!((#l #op #r)))
            }
            // `X.as_ref() == V` on sequences
            Expr::Binary(b) if matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_)) && self.seq_ref(&b.left) | self.seq_ref(&b.right) => {
                let (l, r) = (&b.left, &b.right);
                self.ext_used.insert("veq_seq".into());
                Some(if matches!(b.op, syn::BinOp::Eq(_)) { parse_quote!(veq_seq(&#l, &#r)) } else { parse_quote!((!veq_seq(&#l, &#r))) })
            }
            // `X[i] = v` on an opaque byte type
            Expr::Assign(a) if self.ext_index(&a.left).is_some() => {
                let (b, i) = self.ext_index(&a.left).unwrap();
                let v = &a.right;
                self.ext_used.insert("vset".into());
                Some(parse_quote!(#b.vset(#i, #v)))
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if let Some(x) = self.sink(e, None) {
                    return Some(x);
                }
                let r = &m.receiver;
                if (n == "unwrap" || n == "expect") && matches!(strip_paren(r), Expr::MethodCall(t) if t.method == "try_into") {
                    if let Expr::MethodCall(t) = strip_paren(r) {
                        let x = &t.receiver;
                        let bytes = range_index(x).is_some() || self.infer(x).map(|t| { let t = Rw::strip_ref(&t).clone(); matches!(t, Type::Slice(_) | Type::Array(_)) }).unwrap_or(false);
                        if bytes {
                            let x: Expr = match range_index(x) { Some(ri) => self.subslice(ri), None => (**x).clone() };
                            self.ext_used.insert("vto_array".into());
                            return Some(parse_quote!(vto_array(#x)));
                        }
                    }
                }
                // `T::try_from(bytes).unwrap()` for a fixed-size byte type
                if n == "unwrap" || n == "expect" {
                    if let Expr::Call(c) = strip_paren(r) {
                        if let Expr::Path(p) = strip_paren(&c.func) {
                            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                            let k = segs.len();
                            if k >= 2 && segs[k - 1] == "try_from" && ["ByteVector", "Bytes32", "ExecutionAddress"].contains(&segs[k - 2].as_str()) {
                                let a = &c.args[0];
                                self.ext_used.insert("vfrom_bytes".into());
                                return Some(if segs[k - 2] == "ByteVector" { parse_quote!(vfrom_bytes(#a)) } else { let t = id(&segs[k - 2]); parse_quote!(vfrom_bytes::<#t>(#a)) });
                            }
                        }
                    }
                }
                if n == "try_into" && m.args.is_empty() && self.infer(r).as_ref().and_then(|t| self.tname(t)).as_deref() == Some("Vec") {
                    self.ext_used.insert("vtry_list".into());
                    return Some(parse_quote!(vtry_list(#r)));
                }
                if let (Some(ri), true) = (range_index(r), ["to_vec", "len", "to_owned", "iter"].contains(&n.as_str())) {
                    let x = self.subslice(ri);
                    let f = id(if n == "to_owned" || n == "to_vec" { "vto_vec" } else { &n });
                    return Some(parse_quote!(#x.#f()));
                }
                if let (Some((b, lo, hi)), true) = (range_index(r), n == "fill") {
                    let v = &m.args[0];
                    let lo: Expr = lo.unwrap_or(parse_quote!(0));
                    let hi: Expr = hi.unwrap_or(parse_quote!(#b.len()));
                    self.ext_used.insert("vfill_range".into());
                    return Some(parse_quote!(#b.vfill_range(#lo, #hi, #v)));
                }
                match n.as_str() {
                    "get" if m.args.len() == 1 && matches!(strip_paren(&m.args[0]), Expr::Range(_)) => { self.unsupported.push("get(range)".into()); None }
                    "get" if m.args.len() == 1 => {
                        let a = &m.args[0];
                        self.ext_used.insert("vget".into());
                        Some(parse_quote!(#r.vget(#a)))
                    }
                    "get_mut" if m.args.len() == 1 => {
                        let a = &m.args[0];
                        self.ext_used.insert("vget_mut".into());
                        Some(parse_quote!(#r.vget_mut(#a)))
                    }
                    "iter" if m.args.is_empty() => {
                        self.ext_used.insert("viter".into());
                        Some(parse_quote!(#r.viter()))
                    }
                    "clone" => Some(parse_quote!(#r.vclone())),
                    "as_ref" => {
                        let t = self.infer(r);
                        if t.as_ref().map(|t| self.tname(t) == Some("Option".into())).unwrap_or(false) { None } else { Some(parse_quote!(#r.vas_ref())) }
                    }
                    "to_le_bytes" | "to_be_bytes" => {
                        let f = id(&format!("v{n}"));
                        Some(parse_quote!(#r.#f()))
                    }
                    "pow" if m.args.len() == 1 => { let a = &m.args[0]; Some(parse_quote!(#r.vpow(#a))) }
                    "last" if m.args.is_empty() => Some(parse_quote!(#r.vlast())),
                    "contains" if m.args.len() == 1 && self.infer(r).map(|t| { let t = match t { Type::Reference(x) => (*x.elem).clone(), t => t }; matches!(t, Type::Array(_) | Type::Slice(_)) || matches!(self.tname(&t).as_deref(), Some("Vec") | Some("List") | Some("Vector")) }).unwrap_or(false) => { let a = &m.args[0]; Some(parse_quote!(#r.vcontains(#a))) }
                    "integer_sqrt" => Some(parse_quote!(#r.vinteger_sqrt())),
                    "swap" if m.args.len() == 2 => { let (a, b) = (&m.args[0], &m.args[1]); Some(parse_quote!(#r.vswap_elems(#a, #b))) }
                    "to_vec" => Some(parse_quote!(#r.vto_vec())),
                    "clear" if m.args.is_empty() => Some(parse_quote!(#r.vclear())),
                    "sort_unstable" | "sort" => Some(parse_quote!(#r.vsort())),
                    "copy_from_slice" => {
                        // A[a..b].copy_from_slice(E)
                        let a = &m.args[0];
                        if let Expr::Index(ix) = strip_paren(r) {
                            if let Expr::Range(rg) = strip_paren(&ix.index) {
                                let base = &ix.expr;
                                let lo: Expr = rg.start.as_ref().map(|e| (**e).clone()).unwrap_or(parse_quote!(0));
                                let a2: Expr = parse_quote!(#a);
                                return Some(match &rg.end {
                                    Some(h) => parse_quote!(#base.vcopy_range(#lo, #h, #a2)),
                                    None => { parse_quote!(#base.vcopy_from(#lo, #a2)) }
                                });
                            }
                        }
                        Some(parse_quote!(#r.vcopy_from(0, #a)))
                    }
                    "drain" if m.args.len() == 1 => {
                        if let Expr::Range(rg) = strip_paren(&m.args[0]) {
                            let zero = rg.start.as_ref().map(|e| quote!(#e).to_string() == "0").unwrap_or(true);
                            if let (true, Some(hi)) = (zero && matches!(rg.limits, syn::RangeLimits::HalfOpen(_)), rg.end.clone()) {
                                return Some(parse_quote!(#r.vdrain_to(#hi)));
                            }
                        }
                        self.unsupported.push("drain".into());
                        None
                    }
                    "copy_within" => {
                        if let Expr::Range(rg) = strip_paren(&m.args[0]) {
                            let hi = rg.end.clone()?;
                            if rg.start.is_none() {
                                let d = &m.args[1];
                                return Some(parse_quote!(#r.vcopy_within_to(#hi, #d)));
                            }
                        }
                        self.unsupported.push("copy_within".into());
                        None
                    }
                    "all" | "any" | "count_ones" if m.args.is_empty() => {
                        if let Expr::Index(ix) = strip_paren(r) {
                            if let Expr::Range(rg) = strip_paren(&ix.index) {
                                let f = id(&format!("v{n}_range"));
                                let base = &ix.expr;
                                let lo: Expr = rg.start.as_ref().map(|e| (**e).clone()).unwrap_or(parse_quote!(0));
                                let hi: Expr = rg.end.as_ref().map(|e| (**e).clone()).unwrap_or(parse_quote!(#base.len()));
                                return Some(parse_quote!(#base.#f(#lo, #hi)));
                            }
                        }
                        let f = id(&format!("v{n}_bits"));
                        Some(parse_quote!(#r.#f()))
                    }
                    "unwrap_or_else" => {
                        if let Expr::Closure(c) = &m.args[0] {
                            if c.inputs.is_empty() {
                                let b = &c.body;
                                return Some(parse_quote!(match #r { Some(__x) => __x, None => #b }));
                            }
                        }
                        self.unsupported.push("unwrap_or_else".into());
                        None
                    }
                    "unwrap_or" => {
                        let a = &m.args[0];
                        let d = self.gensym("__d");
                        if self.infer(r).and_then(|t| self.tname(&t)).as_deref() == Some("Result") {
                            return Some(parse_quote!({ let #d = #a; match #r { Ok(__x) => __x, Err(_) => #d } }));
                        }
                        Some(parse_quote!({ let #d = #a; match #r { Some(__x) => __x, None => #d } }))
                    }
                    "unwrap_or_default" if matches!(&**r, Expr::MethodCall(x) if x.method == "cloned" && x.args.is_empty()) => {
                        let Expr::MethodCall(x) = &**r else { return None };
                        let a = &x.receiver;
                        self.ext_used.insert("vcloned_or_default".into());
                        Some(parse_quote!(vcloned_or_default(#a)))
                    }
                    "unwrap_or_default" => {
                        let t = self.infer(r).and_then(|t| self.targ(&t, 0));
                        if let Some(t) = t {
                            return Some(parse_quote!(match #r { Some(__x) => __x, None => <#t as VDefault>::vdefault() }));
                        }
                        self.unsupported.push("unwrap_or_default".into());
                        None
                    }
                    "then_some" => { let a = &m.args[0]; let d = self.gensym("__d"); Some(parse_quote!({ let #d = #a; if (#r).vb() { Some(#d) } else { None } })) }
                    "then" => { if let Expr::Closure(cl) = &m.args[0] { let b = &cl.body; Some(parse_quote!(if (#r).vb() { Some(#b) } else { None })) } else { None } }
                    "expect" => Some(parse_quote!(#r.unwrap())),
                    "ok_or" | "ok_or_else" => {
                        let d = self.drop_err(&m.args[0].clone());
                        Some(parse_quote!(match #r { Some(__x) => Ok(__x), None => { #(#d)* Err(Error) } }))
                    }
                    "map_err" => {
                        self.dropped.push(format!("map_err({})", m.args.to_token_stream()));
                        Some((**r).clone())
                    }
                    "map" => {
                        if let Expr::Closure(c) = &m.args[0] {
                            let p = &c.inputs[0];
                            let b = &c.body;
                            if self.infer(r).and_then(|t| self.tname(&t)).as_deref() == Some("Result") {
                                return Some(parse_quote!(match #r { Ok(#p) => Ok(#b), Err(__e) => Err(__e) }));
                            }
                            return Some(parse_quote!(match #r { Some(#p) => Some(#b), None => None }));
                        }
                        self.unsupported.push("map(non-closure)".into());
                        None
                    }
                    "sort_by" | "sort_by_key" | "sort_unstable_by" | "sort_unstable_by_key" => self.sort_by(m),
                    "max" | "min" if m.args.len() == 1 => {
                        let t = self.infer(r).and_then(|t| self.tname(&t)).unwrap_or("u64".into());
                        let f = id(&format!("v{n}_{t}"));
                        let a = &m.args[0];
                        self.ext_used.insert(f.to_string());
                        Some(parse_quote!(#f(#r, #a)))
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }

    /// key function of a comparator closure `|p1, p2| { lets; K1.cmp(&K2) }` with K2 = K1[p1 -> p2]
    fn cmp_key(&mut self, c: &syn::ExprClosure) -> Option<(Pat, Expr, Vec<Stmt>)> {
            // |p1, p2| { lets; K1.cmp(&K2) } with K2 = K1 under p1 -> p2
            let (mut stmts, tail) = match &*c.body {
                Expr::Block(b) => {
                    let mut s = b.block.stmts.clone();
                    match s.pop() { Some(Stmt::Expr(e, None)) => (s, e), _ => { self.unsupported.push("sort_by".into()); return None; } }
                }
                e => (vec![], e.clone()),
            };
            let mc = match &tail { Expr::MethodCall(mc) if mc.method == "cmp" => mc.clone(), _ => { self.unsupported.push("sort_by comparator".into()); return None; } };
            let k1 = strip_paren(&mc.receiver).clone();
            let k2 = match strip_paren(&mc.args[0]) { Expr::Reference(r) => strip_paren(&r.expr).clone(), e => e.clone() };
            // variables of the two sides
            fn pid(p: &Pat) -> Option<Ident> { match p { Pat::Ident(i) => Some(i.ident.clone()), Pat::Reference(r) => pid(&r.pat), Pat::Type(t) => pid(&t.pat), _ => None } }
            let (i, j) = (pid(&c.inputs[0])?, pid(&c.inputs[1])?);
            let mut map: BTreeMap<String, String> = BTreeMap::new();
            map.insert(j.to_string(), i.to_string());
            // let pairs: rename second-side lets to first-side lets
            let mut firsts: Vec<(String, String)> = vec![];
            let mut keep: Vec<Stmt> = vec![];
            for s in stmts.drain(..) {
                if let Stmt::Local(l) = &s {
                    if let (Some(n), Some(init)) = (pid(&l.pat), &l.init) {
                        let mut e = (*init.expr).clone();
                        let orig = quote!(#e).to_string();
                        struct Ren<'b>(&'b BTreeMap<String, String>);
                        impl<'b> VisitMut for Ren<'b> { fn visit_ident_mut(&mut self, i: &mut Ident) { if let Some(n) = self.0.get(&i.to_string()) { *i = Ident::new(n, i.span()); } } }
                        Ren(&map).visit_expr_mut(&mut e);
                        let norm = quote!(#e).to_string();
                        if norm != orig || firsts.iter().any(|f| f.1 == norm) && firsts.iter().any(|f| f.1 == norm) {
                            if let Some(f) = firsts.iter().find(|f| f.1 == norm) {
                                map.insert(n.to_string(), f.0.clone());
                                continue;
                            }
                        }
                        firsts.push((n.to_string(), norm));
                        keep.push(s.clone());
                        continue;
                    }
                }
                self.unsupported.push("sort_by comparator body".into());
                return None;
            }
            struct Ren<'b>(&'b BTreeMap<String, String>);
            impl<'b> VisitMut for Ren<'b> { fn visit_ident_mut(&mut self, i: &mut Ident) { if let Some(n) = self.0.get(&i.to_string()) { *i = Ident::new(n, i.span()); } } }
            let mut k2n = k2.clone();
            Ren(&map).visit_expr_mut(&mut k2n);
            if quote!(#k2n).to_string() != quote!(#k1).to_string() {
                self.unsupported.push(format!("sort_by keys differ: {} / {}", quote!(#k1), quote!(#k2n)));
                return None;
            }
            Some((c.inputs[0].clone(), k1, keep))
    }

    fn sort_by(&mut self, m: &syn::ExprMethodCall) -> Option<Expr> {
        let c = match &m.args[0] {
            Expr::Closure(c) => c.clone(),
            _ => { self.unsupported.push("sort_by".into()); return None; }
        };
        let r = (*m.receiver).clone();
        let name = m.method.to_string();
        let (pat, key, pre): (Pat, Expr, Vec<Stmt>);
        if name.ends_with("by_key") {
            pat = c.inputs[0].clone();
            match &*c.body {
                Expr::Block(b) => {
                    let mut s = b.block.stmts.clone();
                    match s.pop() { Some(Stmt::Expr(e, None)) => { key = e; pre = s; } _ => { self.unsupported.push("sort_by_key".into()); return None; } }
                }
                e => { key = e.clone(); pre = vec![]; }
            }
        } else {
            let (p_, k1, keep) = self.cmp_key(&c)?;
            let _ = p_;
            pat = c.inputs[0].clone();
            key = k1;
            pre = keep;
        }
        self.ext_used.insert("vsort_by_keys".into());
        let keys = id(&format!("__keys{}", self.loops.len()));
        let b = self.build_loop(Chain { src: Src::Slice(r.clone(), 0), adapters: vec![] }, None, "sort-keys", &mut |s, it| {
            let mut v = vec![];
            s.bind(&pat, it, false, &mut v);
            v.extend(pre.clone());
            v.push(parse_quote!(#keys.push(#key);));
            v
        });
        Some(parse_quote!({ let mut #keys = Vec::new(); #(#b)* let __perm = vsort_by_keys(&mut #r, #keys); }))
    }

    fn bind_pat_types(&mut self, pat: &Pat, t: &Type) {
        match (pat, t) {
            (Pat::Ident(i), _) => { let n = i.ident.to_string(); self.bind_var(&n, Some(t.clone())); }
            (Pat::Type(p), _) => { let tt = self.map_type(&p.ty); self.bind_pat_types(&p.pat, &tt) }
            (Pat::Reference(r), Type::Reference(tr)) => self.bind_pat_types(&r.pat, &tr.elem),
            (Pat::Tuple(p), Type::Tuple(tt)) if p.elems.len() == tt.elems.len() => {
                for (p, t) in p.elems.iter().zip(tt.elems.iter()) { self.bind_pat_types(p, t); }
            }
            (Pat::TupleStruct(p), _) if p.elems.len() == 1 => {
                if let Some(a) = self.targ(t, 0) { self.bind_pat_types(&p.elems[0], &a); }
            }
            _ => {}
        }
    }

    fn note_callee(&mut self, d: &Def) -> String {
        let key = self.w.key_for(&self.fork, d);
        if !self.callees.iter().any(|c| c.module == d.module && c.name == d.name && c.impl_of == d.impl_of) {
            self.callees.push(d.clone());
        }
        *self.calls.entry(key.clone()).or_insert(0) += 1;
        key
    }
}

impl<'a> VisitMut for Rw<'a> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        self.env.push(Default::default());
        let mut out: Vec<Stmt> = vec![];
        for s in std::mem::take(&mut b.stmts) {
            let mut s = s;
            match &mut s {
                Stmt::Macro(m) => {
                    let n = m.mac.path.segments.last().unwrap().ident.to_string();
                    if ["trace", "debug", "info", "warn", "error", "debug_assert", "debug_assert_eq"].contains(&n.as_str()) {
                        self.dropped.push(format!("{n}!"));
                        continue;
                    }
                    if n.starts_with("__") {
                        out.push(s);
                        continue;
                    }
                    let e = Expr::Macro(syn::ExprMacro { attrs: vec![], mac: m.mac.clone() });
                    s = Stmt::Expr(e, m.semi_token);
                }
                _ => {}
            }
            match &mut s {
                Stmt::Local(l) => {
                    // expected type of a collect
                    let ann: Option<Type> = if let Pat::Type(pt) = &l.pat { Some((*pt.ty).clone()) } else { None };
                    if let Some(init) = &mut l.init {
                        if let Some(t) = &ann {
                            if let Some(e) = self.sink(&init.expr, Some(t.clone())) {
                                *init.expr = e;
                            }
                        }
                        // `let x: [u8; 8] = E[..8].try_into().unwrap()`
                        if let (Some(Type::Array(_)), Expr::MethodCall(u)) = (&ann, &*init.expr) {
                            if u.method == "unwrap" || u.method == "expect" {
                                if let Expr::MethodCall(ti) = strip_paren(&u.receiver) {
                                    if ti.method == "try_into" {
                                        let r = &ti.receiver;
                                        *init.expr = parse_quote!(vto_array(&#r));
                                        self.ext_used.insert("vto_array".into());
                                    }
                                }
                            }
                        }
                        let t = ann.clone().map(|t| self.map_type(&t)).or_else(|| self.infer(&init.expr));
                        self.visit_expr_mut(&mut init.expr);
                        if let Some((_, d)) = &mut init.diverge {
                            self.visit_expr_mut(d);
                        }
                        if let Some(t) = t {
                            self.bind_pat_types(&l.pat.clone(), &t);
                        }
                    }
                    if let Pat::Type(pt) = &mut l.pat {
                        *pt.ty = self.map_type(&pt.ty.clone());
                    }
                    let mk = if let Some(n) = pat_first(&l.pat) {
                        let c = self.lets.entry(n.clone()).or_insert(0);
                        let kk = proc_macro2::Literal::usize_unsuffixed(*c);
                        *c += 1;
                        let ni = id(&n);
                        Some::<Stmt>(parse_quote!(__al!(#ni, #kk);))
                    } else { None };
                    self.visit_pat_mut(&mut l.pat);
                    out.push(s);
                    if let Some(m) = mk { out.push(m); }
                    continue;
                }
                Stmt::Expr(e, semi) => {
                    let had_semi = semi.is_some();
                    // call statement marker
                    let callee = match strip_paren(e) {
                        Expr::Try(t) => match &*t.expr { Expr::Call(c) => Some(c.clone()), _ => None },
                        Expr::Call(c) => Some(c.clone()),
                        _ => None,
                    };
                    // assignment to a variable
                    let asg: Option<String> = match strip_paren(e) {
                        Expr::Assign(a) => match strip_paren(&a.left) {
                            Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
                            _ => None,
                        },
                        _ => None,
                    };
                    self.visit_expr_mut(e);
                    // splice generated blocks `{ let..; while.. }` that are statements
                    if let (Expr::Block(bl), true) = (&*e, bl_is_gen(e)) {
                        let st = bl.block.stmts.clone();
                        // keep scoping: leave as a block
                        let _ = st;
                    }
                    out.push(s.clone());
                    if let (Some(c), true) = (callee, had_semi) {
                        if let Expr::Path(p) = &*c.func {
                            let n = p.path.segments.last().unwrap().ident.to_string();
                            let c = self.lets.entry(format!("call {n}")).or_insert(0);
                            let kk = proc_macro2::Literal::usize_unsuffixed(*c);
                            *c += 1;
                            let ni = id(&n);
                            out.push(parse_quote!(__ac!(#ni, #kk);));
                        }
                    }
                    if let (Some(n), true) = (asg, had_semi) {
                        let c = self.lets.entry(format!("assign {n}")).or_insert(0);
                        let kk = proc_macro2::Literal::usize_unsuffixed(*c);
                        *c += 1;
                        let ni = id(&n);
                        out.push(parse_quote!(__as!(#ni, #kk);));
                    }
                    continue;
                }
                Stmt::Item(_) => {
                    self.unsupported.push("item in block".into());
                }
                _ => {}
            }
            out.push(s);
        }
        b.stmts = out;
        self.env.pop();
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // top-down
        let mut guard = 0;
        while let Some(n) = self.pre(e) {
            *e = n;
            guard += 1;
            if guard > 20 {
                self.unsupported.push("rewrite loop".into());
                break;
            }
            // generated blocks/loops: stop re-applying on the same node
            if matches!(e, Expr::Block(_) | Expr::Loop(_) | Expr::While(_)) {
                break;
            }
        }
        match e {
            Expr::Call(c) => {
                let c2 = c.clone();
                if let Expr::Path(p) = &mut *c.func {
                    let segs = path_segs(&p.path);
                    let last = segs.last().unwrap().clone();
                    if !(segs.len() == 1 && ["Some", "Ok", "Err", "None"].contains(&last.as_str())) {
                        if self.externals.contains(&last) || last.starts_with('v') && self.ext_used.contains(&last) || last.starts_with("__ok") || last.starts_with("cfg_") {
                            self.ext_used.insert(last.clone());
                            if self.externals.contains(&last) {
                                // keep the bare name
                                let i = id(&last);
                                p.path = parse_quote!(#i);
                            }
                        } else if segs.len() == 2 && ["HashSet", "HashMap", "Vec", "Option"].contains(&segs[0].as_str()) {
                        } else {
                            let mut rs = segs.clone();
                            if rs[0] == "Self" {
                                if let Some(t) = &self.self_ty { rs[0] = t.clone(); }
                            }
                            match self.w.resolve(&self.module, &rs) {
                                Some(d) if matches!(&*d.item, syn::Item::Fn(_)) || d.method.is_some() => {
                                    let key = self.note_callee(&d);
                                    if d.method.is_some() {
                                        let t = id(d.impl_of.as_ref().unwrap());
                                        let n = id(&d.name);
                                        p.path = parse_quote!(#t::#n);
                                    } else {
                                        let i = id(&key);
                                        p.path = parse_quote!(#i);
                                    }
                                }
                                Some(d) => {
                                    let key = self.w.key_for(&self.fork, &d);
                                    self.types.push(d);
                                    let i = id(&key);
                                    p.path = parse_quote!(#i);
                                }
                                None => {
                                    // enum variant constructor or unknown
                                    if segs.len() >= 2 {
                                        if let Some(d) = self.w.resolve(&self.module, &rs[..rs.len() - 1]) {
                                            let key = self.w.key_for(&self.fork, &d);
                                            self.types.push(d);
                                            let (i, l) = (id(&key), id(&last));
                                            p.path = parse_quote!(#i::#l);
                                        } else {
                                            self.ext_used.insert(segs.join("::"));
                                        }
                                    } else {
                                        if !last.starts_with('v') && !self.lookup_var(&last).is_some() {
                                            self.unsupported.push(format!("call of {last}"));
                                        }
                                        self.ext_used.insert(last.clone());
                                    }
                                }
                            }
                        }
                    }
                } else {
                    self.visit_expr_mut(&mut c.func);
                }
                let _ = c2;
                for a in c.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
            }
            Expr::Path(p) => {
                let segs = path_segs(&p.path);
                let last = segs.last().unwrap().clone();
                if segs.len() == 1 {
                    if last == "self" || last == "None" || last == "Error" || self.lookup_var(&last).is_some() && !is_const_name(&last) {
                        return;
                    }
                    if self.cgs.contains(&last) {
                        self.cgs_used.insert(last.clone());
                        let f = id(&format!("cg_{last}"));
                        *e = parse_quote!(#f());
                        return;
                    }
                    if is_const_name(&last) {
                        if let Some(d) = self.w.resolve(&self.module, &segs) {
                            self.types.push(d);
                        }
                    }
                    return;
                }
                if segs.len() == 2 && (last == "MAX" || last == "MIN") {
                    let i = id(&segs[0]);
                    if let Type::Path(tp) = self.map_type(&parse_quote!(#i)) {
                        let t = &tp.path.segments.last().unwrap().ident;
                        let l = id(&last);
                        *e = parse_quote!(#t::#l);
                    }
                    return;
                }
                if is_const_name(&last) {
                    if let Some(d) = self.w.resolve(&self.module, &segs) {
                        if d.method.is_none() {
                            self.types.push(d);
                            let i = id(&last);
                            *e = parse_quote!(#i);
                            return;
                        }
                    }
                }
                let mut rs = segs[..segs.len() - 1].to_vec();
                if rs[0] == "Self" { if let Some(t) = &self.self_ty { rs[0] = t.clone(); } }
                if let Some(d) = self.w.resolve(&self.module, &rs) {
                    if matches!(&*d.item, syn::Item::Enum(_)) {
                        let key = self.w.key_for(&self.fork, &d);
                        self.types.push(d);
                        let (i, l) = (id(&key), id(&last));
                        *e = parse_quote!(#i::#l);
                    }
                }
            }
            Expr::Struct(s) => {
                let segs = path_segs(&s.path);
                if segs != ["Error"] {
                    let t: Type = { let p = &s.path; parse_quote!(#p) };
                    if let Type::Path(tp) = self.map_type(&t) {
                        let mut p = tp.path;
                        for sg in p.segments.iter_mut() { sg.arguments = syn::PathArguments::None; }
                        s.path = p;
                    }
                }
                for f in s.fields.iter_mut() {
                    if f.colon_token.is_none() {
                        f.colon_token = Some(Default::default());
                    }
                    self.visit_expr_mut(&mut f.expr);
                }
                if let Some(r) = &s.rest {
                    if quote!(#r).to_string().contains("default") {
                        let t = s.path.clone();
                        self.ext_used.insert("vdefault".into());
                        s.rest = Some(parse_quote!(<#t as VDefault>::vdefault()));
                    } else if let Some(r) = s.rest.as_mut() { self.visit_expr_mut(r); }
                }
            }
            Expr::Index(i) => {
                if let Some(t) = self.infer(&i.expr) {
                    if let Some(n) = self.tname(&t) {
                        if self.ext_types.contains(&n) {
                            let b = &i.expr;
                            let ix = &i.index;
                            let ne: Expr = if n.starts_with("Bit") { parse_quote!(#b.vbit(#ix)) } else { parse_quote!(#b.vas_ref()[#ix]) };
                            *e = ne;
                            if let Expr::MethodCall(m) = e { self.visit_expr_mut(&mut m.receiver); for a in m.args.iter_mut() { self.visit_expr_mut(a); } }
                            else if let Expr::Index(i) = e { if let Expr::MethodCall(m) = &mut *i.expr { self.visit_expr_mut(&mut m.receiver); } self.visit_expr_mut(&mut i.index); }
                            return;
                        }
                    }
                }
                self.visit_expr_mut(&mut i.expr);
                self.visit_expr_mut(&mut i.index);
            }
            Expr::Cast(c) => {
                self.visit_expr_mut(&mut c.expr);
                *c.ty = self.map_type(&c.ty.clone());
            }
            Expr::Closure(_) => {
                self.unsupported.push(format!("closure {}", quote!(#e)));
            }
            Expr::MethodCall(m) => {
                // resolve repo methods
                let n = m.method.to_string();
                if let Some(t) = self.infer(&m.receiver) {
                    if let Some(d) = self.type_def(&t) {
                        if let Some(md) = self.w.method(&d, &n) {
                            if !self.externals.contains(&format!("{}::{}", d.name, n)) {
                                self.note_callee(&md);
                            }
                        }
                    }
                }
                m.turbofish = None;
                self.visit_expr_mut(&mut m.receiver);
                for a in m.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
            }
            Expr::If(i) => {
                let k = self.nif;
                self.nif += 1;
                // types of `if let Some(x) = E`
                if let Expr::Let(l) = &*i.cond {
                    if let Some(t) = self.infer(&l.expr.clone()) {
                        let p = (*l.pat).clone();
                        self.bind_pat_types(&p, &t);
                    }
                }
                self.visit_expr_mut(&mut i.cond);
                self.visit_block_mut(&mut i.then_branch);
                let kk = proc_macro2::Literal::usize_unsuffixed(k);
                i.then_branch.stmts.insert(0, parse_quote!(__then!(#kk);));
                if let Some((_, el)) = &mut i.else_branch {
                    self.visit_expr_mut(el);
                    if let Expr::Block(b) = &mut **el {
                        b.block.stmts.insert(0, parse_quote!(__else!(#kk);));
                    }
                }
            }
            Expr::Binary(b) => {
                // `==`/`!=` on references of references are fine; compound assignment operators
                self.visit_expr_mut(&mut b.left);
                self.visit_expr_mut(&mut b.right);
            }
            Expr::Match(m) => {
                self.visit_expr_mut(&mut m.expr);
                for a in m.arms.iter_mut() {
                    self.visit_pat_mut(&mut a.pat);
                    if let Some((_, g)) = &mut a.guard { self.visit_expr_mut(g); }
                    self.visit_expr_mut(&mut a.body);
                }
            }
            Expr::Block(b) => self.visit_block_mut(&mut b.block),
            _ => syn::visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        match p {
            Pat::Path(pp) => {
                let segs = path_segs(&pp.path);
                if segs.len() >= 2 {
                    let mut rs = segs[..segs.len() - 1].to_vec();
                    if rs[0] == "Self" { if let Some(t) = &self.self_ty { rs[0] = t.clone(); } }
                    if let Some(d) = self.w.resolve(&self.module, &rs) {
                        let key = self.w.key_for(&self.fork, &d);
                        self.types.push(d);
                        let (i, l) = (id(&key), id(segs.last().unwrap()));
                        pp.path = parse_quote!(#i::#l);
                    }
                }
            }
            Pat::TupleStruct(ts) => {
                let segs = path_segs(&ts.path);
                if segs.len() >= 2 {
                    let mut rs = segs[..segs.len() - 1].to_vec();
                    if rs[0] == "Self" { if let Some(t) = &self.self_ty { rs[0] = t.clone(); } }
                    if let Some(d) = self.w.resolve(&self.module, &rs) {
                        let key = self.w.key_for(&self.fork, &d);
                        self.types.push(d);
                        let (i, l) = (id(&key), id(segs.last().unwrap()));
                        ts.path = parse_quote!(#i::#l);
                    }
                }
                for e in ts.elems.iter_mut() { self.visit_pat_mut(e); }
            }
            _ => syn::visit_mut::visit_pat_mut(self, p),
        }
    }
}

fn pat_first(p: &Pat) -> Option<String> {
    match p {
        Pat::Ident(i) => Some(i.ident.to_string()),
        Pat::Type(t) => pat_first(&t.pat),
        Pat::Tuple(t) => t.elems.iter().find_map(pat_first),
        _ => None,
    }
}
fn bl_is_gen(_e: &Expr) -> bool { false }

fn pretty(ts: TokenStream) -> String {
    // one statement per line (the text is only read by the verifier and by people debugging)
    let s = ts.to_string();
    let mut out = String::new();
    let mut depth = 0i32;
    let mut paren = 0i32;
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut instr = false;
    while i < b.len() {
        let c = b[i];
        if instr {
            out.push(c);
            if c == '\\' { i += 1; out.push(b[i]); } else if c == '"' { instr = false; }
            i += 1;
            continue;
        }
        match c {
            '"' => { instr = true; out.push(c); }
            '(' | '[' => { paren += 1; out.push(c); }
            ')' | ']' => { paren -= 1; out.push(c); }
            '{' => { depth += 1; out.push(c); out.push('\n'); out.push_str(&"  ".repeat(depth.max(0) as usize)); }
            '}' => { depth -= 1; out.push('\n'); out.push_str(&"  ".repeat(depth.max(0) as usize)); out.push(c); if paren == 0 { out.push('\n'); out.push_str(&"  ".repeat(depth.max(0) as usize)); } }
            ';' => { out.push(c); if paren == 0 { out.push('\n'); out.push_str(&"  ".repeat(depth.max(0) as usize)); } }
            _ => out.push(c),
        }
        i += 1;
    }
    out
}

fn new_rw<'a>(w: &'a World, fork: &str, module: &ModPath, externals: &'a BTreeSet<String>, ext_types: &'a BTreeSet<String>) -> Rw<'a> {
    Rw { w, module: module.clone(), fork: fork.to_string(), externals, ext_types, ext_sigs: Default::default(), cgs: Default::default(), tparams: Default::default(), cgs_used: Default::default(),
        callees: vec![], types: vec![], loops: vec![], nif: 0, gens: 0, unsupported: vec![], dropped: vec![], env: vec![Default::default()], ret: None,
        self_ty: None, ext_used: Default::default(), calls: Default::default(), lets: Default::default() }
}

pub fn extract_fn(w: &mut World, fork: &str, def: &Def, externals: &BTreeSet<String>, ext_types: &BTreeSet<String>, ext_sigs: &BTreeMap<String, String>) -> Result<Extracted, String> {
    let w: &World = w;
    let (sig, mut block, impl_generics) = match (&def.method, &*def.item) {
        (Some(m), syn::Item::Impl(i)) => (m.sig.clone(), m.block.clone(), Some(i.generics.clone())),
        (None, syn::Item::Fn(f)) => (f.sig.clone(), (*f.block).clone(), None),
        _ => return Err("not a function".into()),
    };
    let mut rw = new_rw(w, fork, &def.module, externals, ext_types);
    rw.self_ty = def.impl_of.clone();
    rw.ext_sigs = ext_sigs.clone();
    let mut lts: Vec<String> = vec![];
    let mut tps: Vec<(String, String)> = vec![];
    for g in sig.generics.params.iter().chain(impl_generics.iter().flat_map(|g| g.params.iter())) {
        match g {
            syn::GenericParam::Const(c) => { rw.cgs.insert(c.ident.to_string()); }
            syn::GenericParam::Lifetime(l) => lts.push(l.lifetime.to_string()),
            syn::GenericParam::Type(t) => { 
                rw.tparams.insert(t.ident.to_string()); 
                let b = &t.bounds;
                let mut bs = quote!(#b).to_string();
                if let Some(wc) = &sig.generics.where_clause {
                    for p in &wc.predicates {
                        if let syn::WherePredicate::Type(pt) = p {
                            if let Type::Path(q) = &pt.bounded_ty { if q.path.is_ident(&t.ident) { let b = &pt.bounds; bs = quote!(#b).to_string(); } }
                        }
                    }
                }
                tps.push((t.ident.to_string(), bs));
            }
        }
    }
    let ret: Option<Type> = match &sig.output { syn::ReturnType::Default => None, syn::ReturnType::Type(_, t) => Some((**t).clone()) };
    let ret_is_iter = matches!(&ret, Some(Type::ImplTrait(it)) if quote!(#it).to_string().contains("Iter"));
    let ret_m = ret.as_ref().map(|t| rw.map_type(t));
    rw.ret = ret_m.clone();
    let mut params: Vec<(String, String)> = vec![];
    let mut prologue: Vec<Stmt> = vec![];
    for a in &sig.inputs {
        match a {
            syn::FnArg::Receiver(r) => {
                let s = id(def.impl_of.as_ref().unwrap());
                let t: Type = if r.reference.is_some() { if r.mutability.is_some() { parse_quote!(&mut #s) } else { parse_quote!(&#s) } } else { parse_quote!(#s) };
                rw.bind_var("self", Some(t));
                params.push(("self".into(), if r.reference.is_some() { if r.mutability.is_some() { "&mut self".into() } else { "&self".into() } } else { "self".into() }));
            }
            syn::FnArg::Typed(t) => {
                // `mut x: T` -> param x + `let mut x = x;`
                let mut pat = (*t.pat).clone();
                let ty = rw.map_type(&t.ty);
                if let Pat::Ident(i) = &mut pat {
                    let n = i.ident.to_string();
                    if i.mutability.is_some() {
                        let ii = &i.ident;
                        prologue.push(parse_quote!(let mut #ii = #ii;));
                    }
                    rw.bind_var(&n, Some(ty.clone()));
                    params.push((n, quote!(#ty).to_string()));
                } else {
                    params.push(("_p".into(), quote!(#ty).to_string()));
                    rw.unsupported.push("parameter pattern".into());
                }
            }
        }
    }
    // tail expression of an `impl Iterator` function: collect
    if ret_is_iter {
        if let Some(Stmt::Expr(e, None)) = block.stmts.last().cloned() {
            let e2: Expr = parse_quote!(#e.collect());
            *block.stmts.last_mut().unwrap() = Stmt::Expr(e2, None);
        }
    }
    // expected type of a tail `collect()` / `sum()`
    if let (Some(Stmt::Expr(e, None)), Some(rm)) = (block.stmts.last().cloned(), &ret_m) {
        // bring earlier lets into scope cheaply: types are inferred during the visit, so only
        // record the expectation through a turbofish
        if let Expr::MethodCall(m) = &e {
            if (m.method == "collect" || m.method == "sum") && m.turbofish.is_none() {
                let mut m = m.clone();
                let t = rm;
                let ab: syn::AngleBracketedGenericArguments = parse_quote!(::<#t>);
                m.turbofish = Some(ab);
                *block.stmts.last_mut().unwrap() = Stmt::Expr(Expr::MethodCall(m), None);
            }
        }
    }
    rw.visit_block_mut(&mut block);
    // markers
    let has_tail = matches!(block.stmts.last(), Some(Stmt::Expr(_, None)));
    if has_tail {
        let t = block.stmts.pop().unwrap();
        block.stmts.push(parse_quote!(__tail!();));
        block.stmts.push(t);
    } else {
        block.stmts.push(parse_quote!(__tail!();));
    }
    let mut all = prologue;
    all.extend(block.stmts);
    block.stmts = all;
    block.stmts.insert(0, parse_quote!(__fn_start!();));
    let body = pretty(quote!(#block));
    let callees: Vec<String> = rw.callees.iter().map(|d| w.key_for(fork, d)).collect();
    // self type fields/consts
    let j = json!({
        "name": w.key_for(fork, def), "impl_of": def.impl_of, "origin": def.origin(), "module": def.module.join("::"),
        "params": params, "ret": ret_m.as_ref().map(|t| quote!(#t).to_string()), "lifetimes": lts, "tparams": tps,
        "body": body, "callees": callees, "loops": rw.loops, "unsupported": rw.unsupported, "dropped": rw.dropped,
        "cgs": rw.cgs_used.iter().collect::<Vec<_>>(), "externals": rw.ext_used.iter().collect::<Vec<_>>(),
        "const": sig.constness.is_some(),
    });
    Ok(Extracted { json: j, callees: rw.callees, types: rw.types })
}

pub fn extract_item(w: &mut World, fork: &str, d: &Def, ext_types: &BTreeSet<String>) -> (Value, Vec<Def>) {
    let w: &World = w;
    let empty = BTreeSet::new();
    let mut rw = new_rw(w, fork, &d.module, &empty, ext_types);
    let j = match &*d.item {
        syn::Item::Struct(s) => {
            for g in &s.generics.params {
                if let syn::GenericParam::Type(t) = g { rw.tparams.insert(t.ident.to_string()); }
            }
            let fields: Vec<(String, String)> = s.fields.iter().enumerate().map(|(i, f)| {
                let t = rw.map_type(&f.ty);
                (f.ident.as_ref().map(|i| i.to_string()).unwrap_or(i.to_string()), quote!(#t).to_string())
            }).collect();
            let of = |f: &syn::Field, n: &str| matches!(&f.ty, syn::Type::Path(p) if p.path.segments.last().map(|x| x.ident == n).unwrap_or(false));
            let lists: Vec<String> = s.fields.iter().filter(|f| of(f, "List")).filter_map(|f| f.ident.as_ref().map(|i| i.to_string())).collect();
            let vectors: Vec<(String, String)> = s.fields.iter().filter(|f| of(f, "Vector") || of(f, "Bitvector")).filter_map(|f| {
                let syn::Type::Path(p) = &f.ty else { return None };
                let syn::PathArguments::AngleBracketed(a) = &p.path.segments.last()?.arguments else { return None };
                let n = a.args.iter().last()?;
                Some((f.ident.as_ref()?.to_string(), quote!(#n).to_string()))
            }).collect();
            let derives: Vec<String> = s.attrs.iter().map(|a| quote!(#a).to_string()).filter(|s| s.contains("derive")).collect();
            let lts: Vec<String> = s.generics.lifetimes().map(|l| l.lifetime.to_string()).collect();
            json!({"kind": "struct", "name": w.key_for(fork, d), "origin": d.origin(), "fields": fields, "tuple": matches!(s.fields, syn::Fields::Unnamed(_)), "derives": derives, "lifetimes": lts, "lists": lists, "vectors": vectors,
                "cgenerics": s.generics.const_params().map(|c| c.ident.to_string()).collect::<Vec<_>>(), "path": d.module.join("::") + "::" + &d.name})
        }
        syn::Item::Enum(e) => {
            let vars: Vec<(String, Vec<String>, Option<String>)> = e.variants.iter().map(|v| {
                (v.ident.to_string(), v.fields.iter().map(|f| { let t = rw.map_type(&f.ty); quote!(#t).to_string() }).collect(),
                 v.discriminant.as_ref().map(|(_, e)| quote!(#e).to_string()))
            }).collect();
            json!({"kind": "enum", "name": w.key_for(fork, d), "origin": d.origin(), "variants": vars, "path": d.module.join("::") + "::" + &d.name})
        }
        syn::Item::Const(c) => {
            let t = rw.map_type(&c.ty);
            let mut e = (*c.expr).clone();
            rw.visit_expr_mut(&mut e);
            json!({"kind": "const", "name": w.key_for(fork, d), "origin": d.origin(), "ty": quote!(#t).to_string(), "expr": quote!(#e).to_string()})
        }
        syn::Item::Trait(t) => json!({"kind": "trait", "name": t.ident.to_string()}),
        _ => json!({"kind": "other", "name": d.name}),
    };
    (j, rw.types)
}
