//! Appended to a copy of spec-gen: runs the real generator and prints what it wrote, in a canonical form.
use quote::ToTokens;
use std::collections::BTreeMap;

fn q(s: &str) -> String { format!("{:?}", s).replace("\\'", "'") }
fn norm(t: impl ToTokens) -> String {
    let mut s = t.to_token_stream().to_string();
    for c in [")", "]", "}", ">"] { s = s.replace(&format!(", {c}"), &format!(" {c}")); }
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}
fn flat(pre: &str, t: &syn::UseTree, out: &mut Vec<String>) {
    match t {
        syn::UseTree::Path(p) => flat(&format!("{pre}{}::", p.ident), &p.tree, out),
        syn::UseTree::Name(n) => out.push(if n.ident == "self" { pre.trim_end_matches("::").to_string() } else { format!("{pre}{}", n.ident) }),
        syn::UseTree::Rename(r) => out.push(format!("{}{} as {}", pre, r.ident, r.rename).replace("::self as", " as")),
        syn::UseTree::Glob(_) => out.push(format!("{pre}*")),
        syn::UseTree::Group(g) => for x in &g.items { flat(pre, x, out) },
    }
}
fn dump(path: &str) -> String {
    let text = match std::fs::read_to_string(path) { Ok(t) => t, Err(e) => return format!("{{\"error\": {}}}", q(&e.to_string())) };
    let file = match syn::parse_file(&text) { Ok(f) => f, Err(e) => return format!("{{\"error\": {}}}", q(&e.to_string())) };
    let mut uses = vec![];
    let mut items: BTreeMap<String, String> = BTreeMap::new();
    let mut put = |k: String, v: String| { let mut k = k; while items.contains_key(&k) { k += "'"; } items.insert(k, v); };
    for i in &file.items {
        match i {
            syn::Item::Use(u) => { let mut l = vec![]; flat("", &u.tree, &mut l); let p = if matches!(u.vis, syn::Visibility::Public(_)) { "pub " } else { "" }; uses.extend(l.into_iter().map(|x| format!("{p}{x}"))); }
            syn::Item::Fn(f) => put(format!("fn {}", f.sig.ident), norm(f)),
            syn::Item::Enum(e) => put(format!("enum {}", e.ident), norm(e)),
            syn::Item::Struct(e) => put(format!("struct {}", e.ident), norm(e)),
            syn::Item::Impl(m) => {
                let head = format!("impl {} {} for {}", norm(&m.generics), m.trait_.as_ref().map(|t| norm(&t.1)).unwrap_or_default(), norm(&m.self_ty));
                for x in &m.items { if let syn::ImplItem::Method(f) = x { put(format!("{head} :: {}", f.sig.ident), norm(f)) } else { put(format!("{head} :: other"), norm(x)) } }
            }
            i => put("other".into(), norm(i)),
        }
    }
    uses.sort();
    format!("{{\"uses\": [{}], \"items\": {{{}}}}}", uses.iter().map(|x| q(x)).collect::<Vec<_>>().join(", "), items.iter().map(|(k, v)| format!("{}: {}", q(k), q(v))).collect::<Vec<_>>().join(", "))
}
pub fn run() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "order" => {
            use crate::generator::Fork::*;
            let all = [Phase0, Altair, Bellatrix, Capella, Deneb, Electra];
            let names = ["phase0", "altair", "bellatrix", "capella", "deneb", "electra"];
            let mut n = 0;
            for (i, f) in all.iter().enumerate() {
                if f.name() != names[i] { println!("the name of {f:?} is {}", f.name()); }
                for (j, g) in all.iter().enumerate() {
                    n += 1;
                    if f.cmp(g) != i.cmp(&j) { println!("{f:?}.cmp({g:?}) is {:?} but chronologically it is {:?}", f.cmp(g), i.cmp(&j)); }
                    if f.partial_cmp(g) != Some(i.cmp(&j)) { println!("{f:?}.partial_cmp({g:?}) is {:?}", f.partial_cmp(g)); }
                    if (f == g) != (i == j) { println!("({f:?} == {g:?}) is {}", f == g); }
                    if (f < g) != (i < j) || (f <= g) != (i <= j) || (f > g) != (i > j) || (f >= g) != (i >= j) { println!("{f:?} and {g:?} compare wrongly"); }
                    if f.max(g) != &all[i.max(j)] || f.min(g) != &all[i.min(j)] { println!("max or min of {f:?} and {g:?} is wrong"); }
                }
            }
            println!("compared {n}");
        }
        "gen" => {
            std::env::set_current_dir(&a[2]).unwrap();
            for w in a[3].split(',') { if w == "forks" { crate::generator::run() } else { crate::type_generator::run() } }
            dumps(&a[2], &a[4]);
        }
        "dump" => dumps(&a[2], &a[4]),
        _ => {}
    }
}
fn dumps(dir: &str, out: &str) {
    let mut o = vec![];
    for f in ["phase0", "altair", "bellatrix", "capella", "deneb", "electra"] { o.push(format!("{}: {}", q(f), dump(&format!("{dir}/ethereum-consensus/src/{f}/spec/mod.rs")))); }
    for t in ["beacon_block_body", "beacon_block", "signed_beacon_block", "execution_payload", "execution_payload_header", "blinded_beacon_block_body", "blinded_beacon_block", "signed_blinded_beacon_block", "beacon_state"] {
        o.push(format!("{}: {}", q(&format!("types/{t}")), dump(&format!("{dir}/ethereum-consensus/src/types/{t}.rs"))));
    }
    std::fs::write(out, format!("{{{}}}", o.join(",\n"))).unwrap();
}
