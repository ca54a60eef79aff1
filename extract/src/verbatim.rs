//! Verbatim items (token text) of one file: functions, methods, constants, enums, structs.
//! The only insertion is a marker statement `__loop!(k);` at the start of the k-th loop of each body.
use quote::{quote, ToTokens};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use syn::visit_mut::VisitMut;

struct Loops(usize);
impl VisitMut for Loops {
    fn visit_block_mut(&mut self, b: &mut syn::Block) { syn::visit_mut::visit_block_mut(self, b) }
    fn visit_expr_for_loop_mut(&mut self, l: &mut syn::ExprForLoop) {
        let k = proc_macro2::Literal::usize_unsuffixed(self.0);
        self.0 += 1;
        syn::visit_mut::visit_expr_for_loop_mut(self, l);
        l.body.stmts.insert(0, syn::parse_quote!(__loop!(#k);));
    }
    fn visit_expr_while_mut(&mut self, l: &mut syn::ExprWhile) {
        let k = proc_macro2::Literal::usize_unsuffixed(self.0);
        self.0 += 1;
        syn::visit_mut::visit_expr_while_mut(self, l);
        l.body.stmts.insert(0, syn::parse_quote!(__loop!(#k);));
    }
    fn visit_expr_loop_mut(&mut self, l: &mut syn::ExprLoop) {
        let k = proc_macro2::Literal::usize_unsuffixed(self.0);
        self.0 += 1;
        syn::visit_mut::visit_expr_loop_mut(self, l);
        l.body.stmts.insert(0, syn::parse_quote!(__loop!(#k);));
    }
}

/// `match s { "a" => x, .., _ => y }` on text becomes the chain of comparisons it stands for (the verifier has no string patterns).
struct StrMatch;
impl StrMatch {
    fn lits(p: &syn::Pat) -> Option<Vec<syn::Expr>> {
        match p {
            syn::Pat::Lit(l) if matches!(l.lit, syn::Lit::Str(_)) => { let l = l.clone(); Some(vec![syn::parse_quote!(#l)]) }
            syn::Pat::Or(o) => o.cases.iter().map(Self::lits).collect::<Option<Vec<_>>>().map(|v| v.concat()),
            syn::Pat::Paren(p) => Self::lits(&p.pat),
            _ => None,
        }
    }
}
impl VisitMut for StrMatch {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        let syn::Expr::Match(m) = &*e else { return };
        if m.arms.is_empty() || !m.arms.iter().any(|a| Self::lits(&a.pat).is_some()) { return }
        let (last, rest) = m.arms.split_last().unwrap();
        let mut out: syn::Expr = match (&last.pat, &last.guard) {
            (syn::Pat::Wild(_), None) => { let b = &last.body; syn::parse_quote!({ #b }) }
            (syn::Pat::Ident(i), None) => { let b = &last.body; syn::parse_quote!({ let #i = __s; #b }) }
            _ => return,
        };
        for a in rest.iter().rev() {
            let Some(ls) = Self::lits(&a.pat) else { return };
            let b = &a.body;
            let cs = ls.iter().map(|l| -> syn::Expr { syn::parse_quote!(v_str_eq(__s, #l)) });
            let c: syn::Expr = match &a.guard { Some((_, g)) => syn::parse_quote!((#(#cs)||*) && #g), None => syn::parse_quote!(#(#cs)||*) };
            out = syn::parse_quote!(if #c { #b } else { #out });
        }
        let s = &m.expr;
        *e = syn::parse_quote!({ let __s = #s; #out });
    }
}
fn test_only(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && quote!(#a).to_string().contains("cfg (test)"))
}
fn fnj(sig: &syn::Signature, block: &syn::Block, recv: Option<&syn::ItemImpl>) -> Value {
    use syn::spanned::Spanned;
    let mut b = block.clone();
    StrMatch.visit_block_mut(&mut b);
    let mut l = Loops(0);
    l.visit_block_mut(&mut b);
    let params: Vec<Value> = sig.inputs.iter().map(|a| match a {
        syn::FnArg::Receiver(r) => json!([r.to_token_stream().to_string(), ""]),
        syn::FnArg::Typed(t) => json!([t.pat.to_token_stream().to_string(), t.ty.to_token_stream().to_string()]),
    }).collect();
    let mut callees = Callees(Default::default());
    syn::visit::Visit::visit_block(&mut callees, block);
    json!({"kind": "fn", "generics": sig.generics.params.to_token_stream().to_string(),
           "where": sig.generics.where_clause.as_ref().map(|w| w.to_token_stream().to_string()),
           "params": params, "ret": match &sig.output { syn::ReturnType::Default => None, syn::ReturnType::Type(_, t) => Some(t.to_token_stream().to_string()) },
           "body": b.to_token_stream().to_string(), "line": sig.ident.span().start().line, "loops": l.0, "asyncness": sig.asyncness.is_some(),
           "callees": callees.0.into_iter().collect::<Vec<_>>(),
           "impl": recv.map(|i| json!({"assoc": i.items.iter().filter_map(|x| if let syn::ImplItem::Type(t) = x { Some((t.ident.to_string(), t.ty.to_token_stream().to_string())) } else { None }).collect::<BTreeMap<_, _>>(), "generics": i.generics.params.to_token_stream().to_string(), "self": i.self_ty.to_token_stream().to_string(),
                "where": i.generics.where_clause.as_ref().map(|w| w.to_token_stream().to_string()),
                "trait": i.trait_.as_ref().map(|t| t.1.to_token_stream().to_string()), "line": i.impl_token.span().start().line}))})
}
struct Callees(std::collections::BTreeSet<String>);
impl<'a> syn::visit::Visit<'a> for Callees {
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func { self.0.insert(p.path.segments.last().unwrap().ident.to_string()); }
        syn::visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'a syn::ExprMethodCall) {
        self.0.insert(c.method.to_string());
        syn::visit::visit_expr_method_call(self, c);
    }
}
fn items(list: &[syn::Item], pre: &str, out: &mut BTreeMap<String, Value>) {
    for it in list {
        match it {
            syn::Item::Fn(f) if !test_only(&f.attrs) => { out.insert(format!("{pre}{}", f.sig.ident), fnj(&f.sig, &f.block, None)); }
            syn::Item::Const(c) => { out.insert(format!("{pre}{}", c.ident), json!({"kind": "const", "pub": matches!(c.vis, syn::Visibility::Public(_)), "ty": c.ty.to_token_stream().to_string(), "expr": c.expr.to_token_stream().to_string()})); }
            syn::Item::Enum(e) => { let at = attrs(&e.attrs); let mut e = e.clone(); e.attrs.clear(); for v in e.variants.iter_mut() { v.attrs.clear(); }
                out.insert(format!("{pre}{}", e.ident), json!({"kind": "enum", "text": e.to_token_stream().to_string(), "variants": e.variants.iter().map(|v| v.ident.to_string()).collect::<Vec<_>>(),
                    "attrs": at, "payloads": e.variants.iter().map(|v| v.fields.iter().map(|f| f.ty.to_token_stream().to_string()).collect::<Vec<_>>()).collect::<Vec<_>>()})); }
            syn::Item::Struct(s) => { let at = attrs(&s.attrs); let mut e = s.clone(); e.attrs.clear(); for v in e.fields.iter_mut() { v.attrs.clear(); }
                out.insert(format!("{pre}{}", e.ident), json!({"kind": "struct", "text": e.to_token_stream().to_string(),
                    "attrs": at, "fattrs": s.fields.iter().map(|f| attrs(&f.attrs)).collect::<Vec<_>>(),
                    "types": e.fields.iter().map(|f| f.ty.to_token_stream().to_string()).collect::<Vec<_>>(),
                    "fields": e.fields.iter().map(|f| f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default()).collect::<Vec<_>>()})); }
            syn::Item::Type(t) => { out.insert(format!("{pre}{}", t.ident), json!({"kind": "type", "ty": t.ty.to_token_stream().to_string()})); }
            syn::Item::Impl(i) if !test_only(&i.attrs) => {
                let ty = match &*i.self_ty { syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), t => t.to_token_stream().to_string() };
                for m in &i.items {
                    if let syn::ImplItem::Fn(f) = m {
                        let n = match &i.trait_ { Some(t) => format!("{pre}{ty}::{}::{}", t.1.segments.last().unwrap().ident, f.sig.ident), None => format!("{pre}{ty}::{}", f.sig.ident) };
                        // several impls of one trait: also under the whole self type and trait text
                        if let (Some(t), syn::Type::Path(p)) = (&i.trait_, &*i.self_ty) {
                            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                            let full = if segs.len() > 1 { format!("X_{}", segs.join("_")) } else { segs[0].clone() };
                            let tr = t.1.segments.last().unwrap().to_token_stream().to_string().replace(' ', "").replace("::", "_");
                            out.entry(format!("{pre}{full}::{tr}::{}", f.sig.ident)).or_insert_with(|| fnj(&f.sig, &f.block, Some(i)));
                        }
                        out.insert(n, fnj(&f.sig, &f.block, Some(i)));
                    }
                }
            }
            syn::Item::Mod(m) if !test_only(&m.attrs) => if let Some((_, l)) = &m.content { items(l, &format!("{pre}{}::", m.ident), out); },
            _ => {}
        }
    }
}
pub fn run(files: &[String]) -> Value {
    let mut all = BTreeMap::new();
    for f in files {
        let mut out = BTreeMap::new();
        match std::fs::read_to_string(f).map_err(|e| e.to_string()).and_then(|t| syn::parse_file(&t).map_err(|e| e.to_string())) {
            Ok(p) => items(&p.items, "", &mut out),
            Err(e) => { out.insert("error".into(), json!(e)); }
        }
        all.insert(f.clone(), out);
    }
    json!(all)
}

fn attrs(a: &[syn::Attribute]) -> Vec<String> {
    a.iter().filter(|a| !a.path().is_ident("doc")).map(|a| a.meta.to_token_stream().to_string()).collect()
}
