//! Name resolution over the crate's module tree (`use` declarations, re-exports, globs).
use std::{collections::{BTreeMap, BTreeSet}, rc::Rc};

pub type ModPath = Vec<String>;

#[derive(Clone)]
pub struct Def {
    pub module: ModPath,
    pub name: String,
    pub impl_of: Option<String>,
    pub item: Rc<syn::Item>,
    pub method: Option<Rc<syn::ImplItemFn>>,
    pub file: String,
    pub line: usize,
}
impl Def {
    pub fn origin(&self) -> String {
        format!("{}:{}", self.file, self.line)
    }
}

pub struct Module {
    pub file: String,
    pub items: BTreeMap<String, Rc<syn::Item>>,
    pub fnitems: BTreeMap<String, Rc<syn::Item>>,
    pub impls: Vec<Rc<syn::Item>>,
    pub uses: BTreeMap<String, Vec<String>>,
    pub globs: Vec<Vec<String>>,
}
pub struct World {
    pub mods: BTreeMap<ModPath, Module>,
}

fn flatten(tree: &syn::UseTree, pre: &mut Vec<String>, uses: &mut BTreeMap<String, Vec<String>>, globs: &mut Vec<Vec<String>>) {
    match tree {
        syn::UseTree::Path(p) => {
            pre.push(p.ident.to_string());
            flatten(&p.tree, pre, uses, globs);
            pre.pop();
        }
        syn::UseTree::Name(n) => {
            let s = n.ident.to_string();
            let mut v = pre.clone();
            if s == "self" {
                uses.insert(v.last().cloned().unwrap_or_default(), v);
            } else {
                v.push(s.clone());
                uses.insert(s, v);
            }
        }
        syn::UseTree::Rename(r) => {
            let mut v = pre.clone();
            v.push(r.ident.to_string());
            uses.insert(r.rename.to_string(), v);
        }
        syn::UseTree::Glob(_) => globs.push(pre.clone()),
        syn::UseTree::Group(g) => {
            for t in &g.items {
                flatten(t, pre, uses, globs);
            }
        }
    }
}

fn cfg_skip(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        if !a.path().is_ident("cfg") {
            return false;
        }
        let s = quote::quote!(#a).to_string();
        s.contains("cfg (test)") || s.contains("not (feature") || s.contains("feature = \"peer-to-peer\"")
    })
}

impl World {
    pub fn new(src: &str) -> Self {
        let mut w = World { mods: BTreeMap::new() };
        fn walk(w: &mut World, dir: &std::path::Path, root: &std::path::Path) {
            let mut ents: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
            ents.sort();
            for p in ents {
                if p.is_dir() {
                    if p.file_name().map(|n| n == "bin").unwrap_or(false) && p.parent() == Some(root) {
                        // binary: modules under crate path "bin"
                    }
                    walk(w, &p, root);
                } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
                    let rel = p.strip_prefix(root).unwrap();
                    let mut mp: Vec<String> = rel.with_extension("").components().map(|c| c.as_os_str().to_string_lossy().to_string()).collect();
                    if mp.last().map(|s| s == "mod").unwrap_or(false) {
                        mp.pop();
                    }
                    if mp == ["lib"] {
                        mp.clear();
                    }
                    if let Ok(text) = std::fs::read_to_string(&p) {
                        if let Ok(f) = syn::parse_file(&text) {
                            w.add(mp, p.to_string_lossy().to_string(), f.items);
                        }
                    }
                }
            }
        }
        let root = std::path::PathBuf::from(src);
        walk(&mut w, &root, &root);
        w
    }
    fn add(&mut self, mp: ModPath, file: String, items: Vec<syn::Item>) {
        let mut m = Module { file: file.clone(), items: Default::default(), fnitems: Default::default(), impls: vec![], uses: Default::default(), globs: vec![] };
        for it in items {
            match it {
                syn::Item::Use(u) => {
                    if cfg_skip(&u.attrs) { continue; }
                    flatten(&u.tree, &mut vec![], &mut m.uses, &mut m.globs)
                }
                syn::Item::Fn(f) => {
                    if cfg_skip(&f.attrs) { continue; }
                    let n = f.sig.ident.to_string();
                    m.fnitems.insert(n, Rc::new(syn::Item::Fn(f)));
                }
                syn::Item::Struct(s) => {
                    let n = s.ident.to_string();
                    m.items.insert(n, Rc::new(syn::Item::Struct(s)));
                }
                syn::Item::Enum(s) => {
                    let n = s.ident.to_string();
                    m.items.insert(n, Rc::new(syn::Item::Enum(s)));
                }
                syn::Item::Type(s) => {
                    let n = s.ident.to_string();
                    m.items.insert(n, Rc::new(syn::Item::Type(s)));
                }
                syn::Item::Const(s) => {
                    let n = s.ident.to_string();
                    m.items.insert(n, Rc::new(syn::Item::Const(s)));
                }
                syn::Item::Trait(s) => {
                    let n = s.ident.to_string();
                    m.items.insert(n, Rc::new(syn::Item::Trait(s)));
                }
                syn::Item::Impl(i) => m.impls.push(Rc::new(syn::Item::Impl(i))),
                syn::Item::Mod(md) => {
                    if cfg_skip(&md.attrs) { continue; }
                    if let Some((_, its)) = md.content {
                        let mut p = mp.clone();
                        p.push(md.ident.to_string());
                        self.add(p, file.clone(), its);
                    }
                }
                _ => {}
            }
        }
        self.mods.insert(mp, m);
    }
    fn line_of(item: &syn::Item) -> usize {
        use syn::spanned::Spanned;
        item.span().start().line
    }
    fn mk(&self, module: &ModPath, name: &str, item: &Rc<syn::Item>) -> Def {
        Def { module: module.clone(), name: name.to_string(), impl_of: None, item: item.clone(), method: None,
              file: self.mods[module].file.clone(), line: Self::line_of(item) }
    }
    /// resolve a path as written inside `module`
    pub fn resolve(&self, module: &ModPath, path: &[String]) -> Option<Def> {
        let mut seen = BTreeSet::new();
        self.res(module, path, &mut seen)
    }
    fn res(&self, module: &ModPath, path: &[String], seen: &mut BTreeSet<(ModPath, Vec<String>)>) -> Option<Def> {
        if path.is_empty() || path.len() > 8 || !seen.insert((module.clone(), path.to_vec())) {
            return None;
        }
        if path[0] == "crate" || path[0] == "ethereum_consensus" {
            return self.res(&vec![], &path[1..], seen);
        }
        if path[0] == "self" {
            return self.res(module, &path[1..], seen);
        }
        if path[0] == "super" {
            let mut m = module.clone();
            m.pop();
            return self.res(&m, &path[1..], seen);
        }
        let m = self.mods.get(module)?;
        if path.len() == 1 {
            if let Some(i) = m.fnitems.get(&path[0]) {
                return Some(self.mk(module, &path[0], i));
            }
            if let Some(i) = m.items.get(&path[0]) {
                return Some(self.mk(module, &path[0], i));
            }
        } else {
            let mut sub = module.clone();
            sub.push(path[0].clone());
            if self.mods.contains_key(&sub) {
                if let Some(d) = self.res(&sub, &path[1..], seen) {
                    return Some(d);
                }
            }
            // Type::method
            if path.len() == 2 {
                if let Some(d) = m.items.get(&path[0]) {
                    let td = self.mk(module, &path[0], d);
                    return self.method(&td, &path[1]);
                }
            }
        }
        if let Some(u) = m.uses.get(&path[0]) {
            let mut p = u.clone();
            p.extend_from_slice(&path[1..]);
            // an absolute path, or relative to this module
            if p[0] == "crate" || p[0] == "super" || p[0] == "self" || p[0] == "ethereum_consensus" {
                return self.res(module, &p, seen);
            }
            let mut sub = module.clone();
            sub.push(p[0].clone());
            if self.mods.contains_key(&sub) {
                return self.res(module, &p, seen);
            }
            if p != path {
                return self.res(module, &p, seen);
            }
            return None;
        }
        for g in &m.globs {
            let mut p = g.clone();
            p.extend_from_slice(path);
            if g.is_empty() { continue; }
            let first_known = g[0] == "crate" || g[0] == "super" || g[0] == "self" || {
                let mut sub = module.clone();
                sub.push(g[0].clone());
                self.mods.contains_key(&sub)
            };
            if !first_known { continue; }
            if let Some(d) = self.res(module, &p, seen) {
                return Some(d);
            }
        }
        None
    }
    pub fn method(&self, td: &Def, name: &str) -> Option<Def> {
        // inherent and trait impls in any module, nearest first (module of the type)
        let mut order: Vec<&ModPath> = vec![&td.module];
        order.extend(self.mods.keys().filter(|k| **k != td.module));
        for (pass, mp) in order.iter().enumerate() {
            let m = &self.mods[*mp];
            for i in &m.impls {
                if let syn::Item::Impl(im) = &**i {
                    if let syn::Type::Path(p) = &*im.self_ty {
                        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                        let same = if pass == 0 { segs.last() == Some(&td.name) } else {
                            segs.last() == Some(&td.name) && self.resolve(mp, &segs).map(|d| d.module == td.module).unwrap_or(false)
                        };
                        if !same { continue; }
                        for it in &im.items {
                            if let syn::ImplItem::Fn(f) = it {
                                if f.sig.ident == name {
                                    use syn::spanned::Spanned;
                                    return Some(Def { module: (*mp).clone(), name: name.to_string(), impl_of: Some(td.name.clone()),
                                        item: i.clone(), method: Some(Rc::new(f.clone())), file: m.file.clone(), line: f.span().start().line });
                                }
                            }
                        }
                    }
                }
            }
        }
        None
    }
    pub fn lookup_root(&self, fork: &str, r: &str) -> Option<Def> {
        let parts: Vec<String> = r.split("::").map(|s| s.to_string()).collect();
        self.resolve(&vec![fork.to_string()], &parts)
            .or_else(|| self.resolve(&vec![], &parts))
            .or_else(|| {
                // a function of another fork, named with its prefix
                let (m, n) = r.split_once("__")?;
                self.resolve(&vec![m.to_string()], &[n.to_string()])
            })
            .or_else(|| {
                // a private function of one of the fork's modules
                let mut hits = self.mods.iter().filter(|(p, m)| p.first().map(|x| x == fork).unwrap_or(false) && parts.len() == 1 && m.fnitems.contains_key(r));
                match (hits.next(), hits.next()) {
                    (Some((p, _)), None) => self.resolve(p, &parts),
                    _ => None,
                }
            })
            .or_else(|| {
                // a function with a name of its own outside the forks
                let forks = ["phase0", "altair", "bellatrix", "capella", "deneb", "electra"];
                let mut hits = self.mods.iter().filter(|(p, m)| p.first().map(|x| !forks.contains(&x.as_str())).unwrap_or(true) && parts.len() == 1 && m.fnitems.contains_key(r));
                match (hits.next(), hits.next()) {
                    (Some((p, _)), None) => self.resolve(p, &parts),
                    _ => None,
                }
            })
    }
    /// output name of a definition: the bare name if the fork module resolves it to the same
    /// definition (or does not know it), `module__name` otherwise
    pub fn key_for(&self, fork: &str, d: &Def) -> String {
        let base = match &d.impl_of {
            Some(t) => format!("{t}::{}", d.name),
            None => d.name.clone(),
        };
        if d.impl_of.is_some() { 
            return base;
        }
        match self.resolve(&vec![fork.to_string()], &[d.name.clone()]) {
            Some(x) if x.module != d.module => format!("{}__{}", d.module.first().cloned().unwrap_or_default(), base),
            _ => base,
        }
    }
}
