//! Mechanical extraction of functions of /repo into the subset of Rust the verifier accepts.
//!
//! usage: extract REQUEST.json  (writes JSON to stdout)
//! request: { "src": "<crate>/src", "fork": "altair", "roots": ["fn path or name", ...],
//!            "externals": ["hash", ...], "types_external": [...], "sets": [...] }
mod resolve;
mod rewrite;
mod verbatim;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, VecDeque};

fn main() {
    let req: Value =
        serde_json::from_str(&std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap())
            .unwrap();
    if let Some(fs) = req["verbatim"].as_array() {
        let fs: Vec<String> = fs.iter().map(|x| x.as_str().unwrap().to_string()).collect();
        println!("{}", serde_json::to_string_pretty(&verbatim::run(&fs)).unwrap());
        return;
    }
    let src = req["src"].as_str().unwrap().to_string();
    let fork = req["fork"].as_str().unwrap().to_string();
    let strs = |k: &str| -> BTreeSet<String> {
        req[k].as_array().map(|a| a.iter().map(|s| s.as_str().unwrap().to_string()).collect()).unwrap_or_default()
    };
    let externals = strs("externals");
    let ext_types = strs("types_external");
    let ext_sigs: BTreeMap<String, String> = req["ext_sigs"].as_object().map(|o| o.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect()).unwrap_or_default();
    let mut world = resolve::World::new(&src);
    let mut out_fns = BTreeMap::new();
    let mut out_types: BTreeMap<String, Value> = BTreeMap::new();
    let mut out_consts: BTreeMap<String, Value> = BTreeMap::new();
    let mut errors = Vec::new();
    let mut queue: VecDeque<(String, resolve::Def)> = VecDeque::new();
    let mut tqueue: VecDeque<(String, resolve::Def)> = VecDeque::new();
    let mut seen = BTreeSet::new();
    for r in req["roots"].as_array().unwrap() {
        let r = r.as_str().unwrap();
        // "Type::method", "name" (looked up in fork module) or "a::b::name"
        match world.lookup_root(&fork, r) {
            Some(d) => {
                let key = world.key_for(&fork, &d);
                if seen.insert(key.clone()) {
                    queue.push_back((key, d));
                }
            }
            None => errors.push(json!({"root": r, "error": "not found"})),
        }
    }
    while let Some((key, def)) = queue.pop_front() {
        if std::env::var("EXTRACT_TRACE").is_ok() { eprintln!("{key}"); }
        match rewrite::extract_fn(&mut world, &fork, &def, &externals, &ext_types, &ext_sigs) {
            Ok(x) => {
                for d in x.callees.iter() {
                    let k = world.key_for(&fork, d);
                    if seen.insert(k.clone()) {
                        queue.push_back((k, d.clone()));
                    }
                }
                for d in x.types.iter() {
                    let k = world.key_for(&fork, d);
                    if seen.insert(format!("type {k}")) {
                        tqueue.push_back((k, d.clone()));
                    }
                }
                out_fns.insert(key, x.json);
            }
            Err(e) => {
                out_fns.insert(key, json!({"error": e, "origin": def.origin()}));
            }
        }
        while let Some((k, d)) = tqueue.pop_front() {
            let (j, more) = rewrite::extract_item(&mut world, &fork, &d, &ext_types);
            for d in more {
                let k = world.key_for(&fork, &d);
                if seen.insert(format!("type {k}")) {
                    tqueue.push_back((k, d));
                }
            }
            if j["kind"] == "const" {
                out_consts.insert(k, j);
            } else {
                out_types.insert(k, j);
            }
        }
    }
    println!(
        "{}",
        serde_json::to_string_pretty(&json!({"fns": out_fns, "types": out_types, "consts": out_consts, "errors": errors})).unwrap()
    );
}
