"""Assemble per-fork verification files from /repo's current source and the contracts, run the verifier."""
import json, os, re, signal, subprocess, sys, hashlib, threading, time, tempfile, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/ethereum-consensus/src"
TARGET = os.environ.get("VERIF_TARGET", VERIF + "/target")
FORKS = ["phase0", "altair", "bellatrix", "capella", "deneb", "electra"]
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.85.0", CARGO_NET_OFFLINE="true")

EXT_FNS = ["hash", "fast_aggregate_verify", "verify_signature",
           "eth_aggregate_public_keys", "eth_fast_aggregate_verify", "is_valid_merkle_branch", "zip", "invalid_operation_error",
           "hash_tree_root_state"]
EXT_TYPES = ["Bytes32", "Node", "SecretKey", "BlsPublicKey", "BlsSignature", "ByteList", "ByteVector", "ExecutionAddress", "KzgCommitment",
             "Transaction", "U256", "Error"]
EXT_SIGS = {"hash": "Bytes32", "compute_signing_root": "Result<Node>", "verify_signature": "Result<()>", "fast_aggregate_verify": "Result<()>",
            "eth_aggregate_public_keys": "Result<BlsPublicKey>", "eth_fast_aggregate_verify": "Result<()>"}
CTX_TYPES = {"u64", "usize", "[u8 ; 4]", "Bytes32", "bool"}


class ToolError(Exception):
    pass


def build_extract():
    r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--manifest-path", VERIF + "/extract/Cargo.toml"],
                       env=dict(ENV, CARGO_TARGET_DIR=TARGET + "/extract"), capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError("extractor does not build: " + r.stderr[-2000:])
    return TARGET + "/extract/debug/extract"


def fork_match(spec, fork):
    if not spec:
        return True
    for s in spec.split(","):
        if s.endswith("+"):
            if FORKS.index(fork) >= FORKS.index(s[:-1]):
                return True
        elif s.startswith(".."):
            if FORKS.index(fork) <= FORKS.index(s[2:]):
                return True
        elif "-" in s:
            a, b = s.split("-")
            if FORKS.index(a) <= FORKS.index(fork) <= FORKS.index(b):
                return True
        elif s == fork:
            return True
    return False


class Section:
    def __init__(self, kind, args, opts, file):
        self.kind, self.args, self.opts, self.file, self.lines = kind, args, opts, file, []
        self.parts = {}

    def text(self):
        return "\n".join(self.lines)


def load_contracts(d=None):
    d = d or VERIF + "/contracts"
    secs = []
    for f in sorted(os.listdir(d)):
        if not f.endswith(".v"):
            continue
        cur = None
        for ln in open(os.path.join(d, f)):
            ln = ln.rstrip("\n")
            if ln.startswith("@@"):
                w = ln[2:].split()
                opts = {}
                args = []
                for x in w[1:]:
                    if "=" in x:
                        k, v = x.split("=", 1)
                        opts[k] = v
                    else:
                        args.append(x)
                cur = Section(w[0], args, opts, f)
                secs.append(cur)
                part = "contract"
            elif cur is not None:
                if cur.kind == "fn" and re.match(r"^@ ", ln):
                    part = ln[2:].strip()
                    cur.parts.setdefault(part, [])
                elif cur.kind == "fn":
                    cur.parts.setdefault(part, []).append(ln)
                else:
                    cur.lines.append(ln)
    return secs


class Contracts:
    def __init__(self, repaired=()):
        """`known=K` sections describe a recorded finding, `unless=K` sections what should hold instead"""
        self.all = load_contracts()
        self.repaired = set(repaired)
        self.secs = [s for s in self.all if s.opts.get("known") not in self.repaired and
                     (s.opts.get("unless") is None or s.opts["unless"] in self.repaired)]

    def spec(self, fork, kinds=("spec",)):
        return "\n".join(s.text() for s in self.secs if s.kind in kinds and fork_match(s.opts.get("forks"), fork))

    def fn(self, name, fork):
        best = None
        for s in self.secs:
            if s.kind == "fn" and s.args[0] == name and fork_match(s.opts.get("forks"), fork):
                best = s
        return best


_CX = {}


ALL_ROOTS = ["process_slots", "process_block", "process_epoch", "state_transition"]


def extract_all(fork, cx, exe, extra=()):
    """one extraction per fork and run: every function with a contract, and the whole transition function for the types"""
    names = {s.args[0] for s in cx.secs if s.kind == "fn" and fork_match(s.opts.get("forks"), fork)} | set(ALL_ROOTS) | set(extra)
    key = (fork, tuple(sorted(names)))
    if key not in _CX:
        _CX[key] = extract(fork, names, exe)
    return _CX[key]


def split_items(text):
    """top-level items of a specification text: [(name or None, text)]"""
    items, cur, depth = [], [], 0
    for ln in text.split("\n"):
        code = re.sub(r"//.*", "", ln)
        cur.append(ln)
        depth += code.count("{") - code.count("}") + code.count("(") - code.count(")")
        st = code.strip()
        if depth == 0 and (st.endswith("}") or st.endswith(";")):
            items.append("\n".join(cur))
            cur = []
    if "".join(cur).strip():
        items.append("\n".join(cur))
    out = []
    for t in items:
        m = re.search(r"^\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?(?:broadcast\s+)?(?:(?:open|closed|uninterp)\s+)?(?:spec|proof|axiom)?\s*(?:fn|const|struct|enum|type)\s+(\w+)", re.sub(r"^\s*//.*\n", "", t, flags=re.M), re.M)
        out.append((m.group(1) if m else None, t))
    return out


def prune(text, seed_text):
    """the items of `text` reachable from the identifiers of `seed_text` (unnamed items are kept)"""
    items = split_items(text)
    by = {}
    for n, t in items:
        by.setdefault(n, []).append(t)
    keep, todo = {None}, set(re.findall(r"\w+", seed_text + "\n".join(by.get(None, []))))
    while todo:
        w = todo.pop()
        if w in by and w not in keep:
            keep.add(w)
            for t in by[w]:
                todo |= set(re.findall(r"\w+", t))
    return "\n".join(t for n, t in items if n in keep)


def extract(fork, roots, exe):
    req = {"src": SRC, "fork": fork, "roots": sorted(roots), "externals": EXT_FNS, "types_external": EXT_TYPES, "ext_sigs": EXT_SIGS}
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
        json.dump(req, f)
    try:
        r = subprocess.run([exe, f.name], capture_output=True, text=True, timeout=120)
    finally:
        os.unlink(f.name)
    if r.returncode != 0:
        raise ToolError("extractor failed: " + r.stderr[-1500:])
    out = json.loads(r.stdout)
    for c in out["consts"].values():  # a power of two literals is the number itself
        c["expr"] = re.sub(r"\b(\d+)(u\d+|usize) \. vpow \((\d+)\)", lambda m: "%d%s" % (int(m.group(1)) ** int(m.group(3)), m.group(2)), c["expr"])
    return out


def has_vec(types, t, seen=()):
    if re.search(r"\b(Vec|HashSet|HashMap|Option)\b", t) or "&" in t:
        return True
    for w in re.findall(r"\w+", t):
        if w in types and w not in seen:
            d = types[w]
            if d["kind"] == "struct" and any(has_vec(types, ft, seen + (w,)) for _, ft in d["fields"]):
                return True
            if d["kind"] == "enum" and any(has_vec(types, ft, seen + (w,)) for v in d["variants"] for ft in v[1]):
                return True
    return False


def seq_of(t):
    t = t.strip()
    m = re.match(r"^Vec < (.*) >$", t)
    if m:
        return "Seq<%s>" % m.group(1)
    return t


def uses_type(types, name, root_set):
    return name in root_set


def emit_types(ex, fork, seed_text):
    out = []
    types = {k: v for k, v in ex["types"].items()}
    # only the types and constants that are used
    keep, todo = set(), set(re.findall(r"\w+", seed_text))
    while todo:
        w = todo.pop()
        if w in keep:
            continue
        w2 = w.replace("StateV", "BeaconState") if w.endswith("StateV") else w
        if w2 in types:
            keep |= {w, w2}
            t = types[w2]
            fs = [ft for _, ft in t["fields"]] if t["kind"] == "struct" else [ft for v in t.get("variants", []) for ft in v[1]]
            if w2 == "Context":
                fs = [ft for ft in fs if ft in CTX_TYPES]
            for ft in fs:
                todo |= set(re.findall(r"\w+", ft)) - keep
        elif w in ex["consts"]:
            keep.add(w)
            todo |= set(re.findall(r"\w+", ex["consts"][w]["ty"] + ex["consts"][w]["expr"])) - keep
    types = {k: v for k, v in types.items() if k in keep}
    dax = []
    for n, t in sorted(types.items()):
        if n in EXT_TYPES:
            continue
        if t["kind"] == "struct":
            fields = t["fields"]
            if n == "Context":
                fields = [(a, b) for a, b in fields if b in CTX_TYPES]
            fields = list({a: (a, b) for a, b in fields}.values())
            hv = has_vec(types, n) if n != "Context" else False
            der = ""
            if not hv and n != "Context":
                der = "#[derive(Clone, Copy, PartialEq, Eq, Structural)]\n"
            lt = "<%s>" % ", ".join(t.get("lifetimes", [])) if t.get("lifetimes") else ""
            if t.get("tuple"):
                out.append(der + "pub struct %s%s(%s);" % (n, lt, ", ".join("pub " + b for a, b in fields)))
            else:
                out.append(der + "pub struct %s%s { %s }" % (n, lt, ", ".join("pub %s: %s" % (a, b) for a, b in fields)))
            if n.endswith("BeaconState"):
                vn = n.replace("BeaconState", "StateV")
                out.append("pub struct %s { %s }" % (vn, ", ".join("pub %s: %s" % (a, seq_of(b)) for a, b in fields)))
                out.append("impl View for %s { type V = %s; open spec fn view(&self) -> %s { %s { %s } } }" % (
                    n, vn, vn, vn, ", ".join("%s: self.%s%s" % (a, a, "@" if b.startswith("Vec <") else "") for a, b in fields)))
                out.append("impl VHtr for %s { open spec fn root(&self) -> Node { htr(self@) } #[verifier::external_body] fn hash_tree_root(&self) -> (r: Result<Node>) { unimplemented!() } }" % n)
            if hv and not n.endswith("BeaconState") and not lt and any(re.search(r"\bPartialEq\b", d) for d in t.get("derives", [])):
                out.append("impl PartialEq for %s { #[verifier::external_body] fn eq(&self, o: &%s) -> (r: bool) { unimplemented!() } }" % (n, n))
                out.append("impl vstd::std_specs::cmp::PartialEqSpecImpl for %s { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &%s) -> bool { *self == *o } }" % (n, n))
            ds = ["default_of::<%s>().%s == %s" % (n, a, {"bool": "false", "Bytes32": "zero_bytes32()", "Node": "zero_node()"}.get(b, "0" if b in ("u64", "usize", "u8") else "default_of::<%s>()" % b))
                  for a, b in fields if re.fullmatch(r"\w+", b)]
            if n.endswith("BeaconState") and any(re.search(r"\bDefault\b", d) for d in t.get("derives", [])):
                # the collections of a default state (called by name: the lengths are defined in terms of the crate that uses them)
                lens = ["d.%s@.len() == 0" % a for a in t.get("lists", [])] + [
                    "d.%s@.len() == %s" % (a, "sg_" + g + "()" if g in t.get("cgenerics", []) else ex["consts"][g]["expr"] if g in ex["consts"] else g)
                    for a, g in t.get("vectors", []) if g in t.get("cgenerics", []) or g.isdigit() or g in ex["consts"]]
                out.append("pub axiom fn axiom_default_%s_lists() ensures ({ let d = default_of::<%s>(); %s });" % (n, n, " && ".join(lens)))
            if ds and n != "Context" and not lt and not t.get("tuple") and any(re.search(r"\bDefault\b", d) for d in t.get("derives", [])):
                dax.append((n, "pub broadcast axiom fn axiom_default_%s() ensures ({ let d = #[trigger] default_of::<%s>(); %s });" % (n, n, " && ".join(d.replace("default_of::<%s>()" % n, "d", 1) for d in ds))))
            if n.endswith("BeaconState"):
                pass
            elif not lt:
                out.append("impl VHtr for %s { open spec fn root(&self) -> Node { htr(*self) } #[verifier::external_body] fn hash_tree_root(&self) -> (r: Result<Node>) { unimplemented!() } }" % n)
        elif t["kind"] == "enum":
            if any(re.search(r"Box|dyn|BLST|io ::|serde|String", ft) for v in t["variants"] for ft in v[1]):
                continue
            if n in ("Error",) or n.startswith("Invalid") or n.endswith("Error") or "Error" in n:
                continue
            out.append("#[derive(Clone, Copy, PartialEq, Eq, Structural)]\npub enum %s { %s }" % (
                n, ", ".join(v[0] + ("(%s)" % ", ".join(v[1]) if v[1] else "") for v in t["variants"])))
    # #[derive(Default)] is field by field
    out.append("pub mod dax {\nuse super::*;\n%s\npub broadcast group all { %s }\n}" % ("\n".join(a for _, a in dax), ", ".join(["pre::ax::axiom_default_node", "pre::ax::axiom_default_u64", "pre::ax::axiom_default_usize", "pre::ax::axiom_default_vec"] + ["axiom_default_" + n for n, _ in dax])))
    for n, c in sorted(ex["consts"].items()):
        if n not in keep:
            continue
        out.append("pub const %s: %s = %s;" % (n, c["ty"], c["expr"]))
    return "\n".join(out)


MARK = r"(?P<n>fn_start|tail|loop|loop_end|after_loop|before_loop|al|ac|as|then|else)"
RX_MARK = re.compile(r"__%s ! \((?P<a>[^()]*)\) ;" % MARK)


def emit_fn(f, c, verify, problems):
    """text of one function"""
    parts = dict((k, list(v)) for k, v in (c.parts.items() if c else []))
    contract = "\n".join(parts.pop("contract", []))
    name = f["name"].split("::")[-1]
    gen = list(f.get("lifetimes", []))
    for t, b in f.get("tparams", []):
        gen.append("%s: %s" % (t, "VHtr" if re.search("SimpleSerialize|HashTreeRoot|Merkleized", b) else "VAny"))
    g = "<%s>" % ", ".join(gen) if gen else ""
    ps = ", ".join((t or p) if p.endswith("self") else "%s: %s" % (p, t) for p, t in f["params"])
    attrs = ""
    if c and "rlimit" in c.opts:
        attrs += "#[verifier::rlimit(%s)]\n" % c.opts["rlimit"]
    if c and c.opts.get("noterm"):
        attrs += "#[verifier::exec_allows_no_decreases_clause]\n"
    if c and c.opts.get("cinv"):
        attrs += "#[verifier::allow_complex_invariants]\n"
    if c and c.opts.get("spinoff"):
        attrs += "#[verifier::spinoff_prover]\n"
    head = "pub fn %s%s(%s)" % (name, g, ps)
    if f["ret"]:
        head += " -> (r: %s)" % f["ret"]
    if not verify:
        return "#[verifier::external_body]\n" + head + "\n" + contract + "\n{ unimplemented!() }\n"
    body = f["body"]
    used = set()
    def repl_loop(m):
        k = m.group("k")
        cond = m.group("cond")
        inv = "\n".join(parts.get("loop %s" % k, []))
        start = "\n".join(parts.get("loopstart %s" % k, []))
        used.add("loop %s" % k); used.add("loopstart %s" % k)
        auto_inv, dec = "", ""
        mm = re.match(r"^\s*__i%s < (.*)$" % k, cond, re.S)
        if mm:
            hi = mm.group(1).strip()
            auto_inv = "__i%s <= %s," % (k, hi)
            dec = "%s - __i%s" % (hi, k)
        mm = re.match(r"^\s*__i%s > (.*)$" % k, cond, re.S)
        if mm:
            auto_inv = "__i%s >= %s," % (k, mm.group(1).strip())
            dec = "__i%s - %s" % (k, mm.group(1).strip())
        txt = inv
        decl = ""
        md = re.search(r"^\s*decreases\b.*", inv, re.M | re.S)
        if md:
            decl = md.group(0)
            txt = inv[:md.start()]
        elif dec:
            decl = "decreases " + dec
        body_inv = ("invariant " + auto_inv + "\n" + re.sub(r"^\s*invariant\b", "", txt, count=1)) if (auto_inv or txt.strip()) else ""
        if not auto_inv and txt.strip():
            body_inv = txt
        return "%s\n%s\n%s\n{\n%s" % (("while" + cond) if cond is not None else "loop", body_inv, decl, start)
    body = re.sub(r"while(?P<cond>(?:(?!while)[^;])*?)\{\s*__loop ! \((?P<k>\d+)\) ;", repl_loop, body, flags=re.S)
    def repl_loop2(m):
        k = m.group("k")
        inv = "\n".join(parts.get("loop %s" % k, []))
        start = "\n".join(parts.get("loopstart %s" % k, []))
        used.add("loop %s" % k); used.add("loopstart %s" % k)
        return "loop\n%s\n{\n%s" % (inv, start)
    body = re.sub(r"loop\s*\{\s*__loop ! \((?P<k>\d+)\) ;", repl_loop2, body)
    def repl(m):
        n, a = m.group("n"), [x.strip() for x in m.group("a").split(",")]
        key = {"fn_start": "start", "tail": "tail", "loop_end": "loopend %s" % a[0], "after_loop": "after %s" % a[0], "before_loop": "before %s" % a[0],
               "al": "let " + " ".join(a), "ac": "call " + " ".join(a), "as": "assign " + " ".join(a), "then": "then %s" % a[0], "else": "else %s" % a[0]}.get(n, "?")
        used.add(key)
        return "\n".join(parts.get(key, []))
    body = RX_MARK.sub(repl, body)
    for k in parts:
        if k not in used and "".join(parts[k]).strip():
            problems.append("%s: proof hint anchor '%s' not found" % (f["name"], k))
    return attrs + head + "\n" + contract + "\n" + body + "\n"


def assemble(fork, verify, cx, exe, extra_roots=(), assumed=(), preset_consts=True):
    """returns (text, meta).  verify: functions whose bodies are checked."""
    ex = extract_all(fork, cx, exe, set(verify) | set(extra_roots))
    meta = {"fork": fork, "missing": [], "problems": [], "verified": [], "assumed_contract": [], "uncontracted": [], "origins": {}, "unsupported": {},
            "loops": {}, "dropped": {}}
    for e in ex["errors"]:
        if e["root"] in verify:
            meta["missing"].append(e["root"])
    # reachable functions that need at least a declaration
    need, todo = [], [n for n in list(verify) + list(extra_roots) if n in ex["fns"]]
    seen = set()
    while todo:
        n = todo.pop(0)
        if n in seen:
            continue
        seen.add(n)
        need.append(n)
        f = ex["fns"].get(n)
        if f is None or "error" in f:
            meta["missing"].append(n)
            continue
        if n in verify or cx.fn(n, fork) is None:
            todo.extend(f["callees"])
    text = []
    chunks = []
    cgs = set()
    used_ext = set()
    impls = {}
    for n in sorted(need):
        f = ex["fns"].get(n)
        if f is None or "error" in f:
            continue
        c = cx.fn(n, fork)
        v = n in verify
        if not v and c is None:
            # helper without a contract: verified for its own obligations would need a contract;
            # emitted with its body hidden
            meta["uncontracted"].append(n)
        if v and c is None:
            meta["uncontracted"].append(n)
            v = False
        if v and f["unsupported"]:
            meta["unsupported"][n] = f["unsupported"]
            v = False
        if c is not None and c.opts.get("assume"):
            v = False
        t = emit_fn(f, c, v, meta["problems"])
        meta["origins"][n] = f["origin"]
        meta["loops"][n] = f["loops"]
        if f["dropped"]:
            meta["dropped"][n] = f["dropped"]
        (meta["verified"] if v else meta["assumed_contract"]).append(n)
        cgs |= set(f["cgs"])
        used_ext |= set(f["externals"])
        if f["impl_of"]:
            impls.setdefault(f["impl_of"], []).append((n, t))
        else:
            chunks.append((n, t))
    all_cgs = set(cgs)
    spec = cx.spec(fork, ("spec",)) + "\n" + cx.spec(fork, ("vspec",))
    spec = prune(spec, "\n".join(t for _, t in chunks) + "\n".join(t for v in impls.values() for _, t in v))
    typ = emit_types(ex, fork, spec + "\n".join(t for _, t in chunks) + "\n".join(t for v in impls.values() for _, t in v) + " ".join(impls))
    all_cgs |= set(re.findall(r"\bcg_([A-Z0-9_]+)\b", spec)) | set(re.findall(r"\bsg_([A-Z0-9_]+)\b", typ))
    head = "#![verifier::loop_isolation(false)]\n#![allow(warnings)]\nuse vstd::prelude::*;\nuse std::collections::{HashSet, HashMap};\nverus! {\n"
    head += "global size_of usize == 8;\n"
    pa, pb = open(VERIF + "/contracts/prelude.rs").read().split("//--split--")
    head += pa + "pub mod pre {\nuse vstd::prelude::*;\nuse std::collections::{HashSet, HashMap};\nuse super::{Bytes32, Node, SecretKey, ExecutionAddress, BlsPublicKey, BlsSignature, KzgCommitment, ByteVector, ByteList, Transaction, U256, Error, Result};\n" + pb + "}\nuse pre::*;\n"
    cfgs = sorted(x for x in used_ext if x.startswith("cfg_"))
    for x in cfgs:
        head += "pub uninterp spec fn s%s() -> bool;\n#[verifier::external_body]\npub fn %s() -> (r: bool) ensures r == s%s() { unimplemented!() }\n" % (x, x, x)
    for x in sorted(all_cgs):
        head += ("pub uninterp spec fn scg_%s() -> int;\n#[verifier::external_body]\npub fn cg_%s() -> (r: usize) ensures r as int == scg_%s(), 0 < scg_%s() <= 0x10000000000 { unimplemented!() }\n" % (x, x, x, x)).replace("scg_", "sg_")
    parts = [("(prelude)", head), ("(types)", typ + "\n"), ("(specs)", re.sub(r"\bcg_([A-Z0-9_]+)\b", r"sg_\1()", spec) + "\n")]
    for t, fs in sorted(impls.items()):
        parts.append(("(impl)", "impl %s {\n" % t))
        parts.extend(fs)
        parts.append(("(impl)", "}\n"))
    parts.extend(chunks)
    # vacuity guard: must be refuted
    parts.append(("(end)", "}\nfn main() {}\n"))
    out, line, ranges = "", 1, []
    for n, t in parts:
        if not t.endswith("\n"):
            t += "\n"
        if n not in ("(prelude)", "(types)", "(specs)", "(impl)", "(end)"):
            t = re.sub(r"\bcg_([A-Z0-9_]+)\b(?!\s*\()", r"sg_\1()", t)
        k = t.count("\n")
        ranges.append((line, line + k - 1, n))
        out += t
        line += k
    meta["ranges"] = ranges
    return out, meta


class Budget:
    """One check's time: a run of the verifier that fails makes the check look for a failing input at once (suspect); once one is
    found, or the deadline has passed, failed proofs are not tried again (spent) and running ones are ended after a while (over)."""
    def __init__(self):
        self.reset(None)

    def reset(self, deadline):
        self.suspect, self.found, self.deadline = threading.Event(), None, deadline

    def spent(self):
        return self.found is not None or (self.deadline is not None and time.time() > self.deadline)

    def over(self):
        return (self.found is not None and time.time() > self.found + 150) or (self.deadline is not None and time.time() > self.deadline + 120)


BUDGET = Budget()


def run_limited(cmd, cwd, timeout):
    """a command in its own process group, which is ended at the time limit or when the check's time is over"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=cwd, start_new_session=True)
    t0 = time.time()
    while True:
        try:
            o, e = p.communicate(timeout=2)
            return subprocess.CompletedProcess(cmd, p.returncode, o, e)
        except subprocess.TimeoutExpired:
            if time.time() > t0 + timeout or BUDGET.over():
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.communicate()
                raise subprocess.TimeoutExpired(cmd, timeout)


def run_verus(path, rlimit=40, threads=1, timeout=600, seed=None):
    t0 = time.time()
    try:
        r = run_limited(["verus", path, *(["--smt-option", "smt.random_seed=%d" % seed] if seed else []), "--error-format=json", "--output-json", "--time-expanded", "--multiple-errors", "4", "--rlimit", str(rlimit),
                            "--num-threads", str(threads), "--triggers-mode", "silent"],
                           os.path.dirname(path), timeout)
    except subprocess.TimeoutExpired:
        return {"timeout": True, "wall": time.time() - t0, "errors": [], "fns": {}}
    res = {"wall": time.time() - t0, "errors": [], "fns": {}, "rc": r.returncode}
    try:
        j = json.loads(r.stdout)
        res["results"] = j["verification-results"]
        res["smt_ms"] = j["times-ms"].get("smt", {}).get("smt-run", 0)
        for m in j["times-ms"].get("smt", {}).get("smt-run-module-times", []):
            for fb in m.get("function-breakdown", []):
                res["fns"].setdefault(fb["function"].split("::", 1)[-1], []).append((fb["success"], fb["time"], fb["rlimit"]))
    except Exception as e:
        res["bad_output"] = r.stdout[-500:]
    for ln in r.stderr.splitlines():
        try:
            d = json.loads(ln)
        except Exception:
            continue
        if d.get("$message_type") == "diagnostic" and d["level"] == "error" and not d["message"].startswith("aborting"):
            res["errors"].append({"message": d["message"], "rendered": d["rendered"], "code": d.get("code"),
                                  "lines": [(s["line_start"], s["is_primary"], s.get("label")) for s in d["spans"]]})
    return res


VERIF_MSGS = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied", "possible arithmetic",
              "possible division by zero", "decreases not satisfied", "possible bit shift", "recommendation not met", "unreachable", "loop invariant", "could not prove", "constructed value", "split assertion",
              "requires not satisfied", "cannot show")


def classify(msg):
    m = msg["message"]
    if "Resource limit" in m or "rlimit" in m:
        return "rlimit"
    if msg.get("code"):
        return "compile"
    if any(m.startswith(v) or v in m for v in VERIF_MSGS):
        return "verification"
    return "compile"


def owner(meta, lines):
    prim = [l for l, p, _ in lines if p] + [l for l, p, _ in lines if not p]
    def own(l):
        for a, b, n in meta["ranges"]:
            if a <= l <= b:
                return n
        return None
    # for a failed postcondition the primary span is the ensures clause of the function itself;
    # for a failed precondition the primary span is the call
    for l in prim:
        n = own(l)
        if n and not n.startswith("("):
            return n
    return own(prim[0]) if prim else None


def run_retry(path, rlimit, meta, seeds=(7, 23)):
    """One run of the verifier; what it fails to prove is tried again with other solver seeds (a proof found is a proof,
    whatever the seed).  A function or lemma counts as proved if one run proves it completely."""
    res = run_verus(path, rlimit)
    text = open(path).read().split("\n")

    def unit(e):
        n = owner(meta, e["lines"])
        if n and not n.startswith("("):
            return n
        for l, p, _ in sorted(e["lines"], key=lambda x: not x[1])[:1]:
            for k in range(min(l, len(text)) - 1, -1, -1):
                m = re.search(r"\bfn (\w+)", text[k])
                if m:
                    return "(specs)::" + m.group(1)
        return None

    def bad(r):
        return {unit(e) for e in r["errors"] if classify(e) != "compile"}
    if res.get("timeout") or res["errors"]:
        BUDGET.suspect.set()
    if res.get("timeout") or any(classify(e) == "compile" for e in res["errors"]):
        return res
    left = bad(res)
    res["retried"] = []
    for sd in seeds:
        if not left or None in left or BUDGET.spent():
            break
        r = run_verus(path, rlimit * 2, 2, 300, sd)
        if r.get("timeout") or any(classify(e) == "compile" for e in r["errors"]) or not (r.get("results") or {}).get("verified"):
            continue
        won = left - bad(r)
        if won:
            res["errors"] = [e for e in res["errors"] if unit(e) not in won]
            res["retried"] += sorted(won)
            settle(res, len(won))
        left -= won
    return res


def settle(res, n):
    v = res.get("results") or {}
    k = min(n, v.get("errors", 0))
    if k:
        v["errors"] -= k
        v["verified"] = v.get("verified", 0) + k


def verify_fork(fork, fns, cx, exe, outdir, rlimit=40, extra_roots=()):
    """Verify `fns`; if the verifier's front end gives up on the whole file, the functions are split until the ones
    responsible are found, and a function that fails is tried once more on its own, with only what it depends on."""
    r = verify_once(fork, fns, cx, exe, outdir, rlimit, extra_roots)
    whole = [n for n, w in r["undecided"].items() if w.startswith(("verifier gave no result", "verifier front end (whole file)", "verifier timeout"))]
    if whole and len(fns) > 1 and not BUDGET.spent():
        h = len(fns) // 2
        a = verify_fork(fork, fns[:h], cx, exe, outdir, rlimit, extra_roots)
        b = verify_fork(fork, fns[h:], cx, exe, outdir, rlimit, extra_roots)
        return join(a, b)
    for n in [n for n in list(r["failed"]) + [n for n, w in r["undecided"].items() if w == "solver resource limit"] if n in fns][:4]:
        if len(fns) == 1 or BUDGET.spent():
            break
        x = verify_once(fork, [n], cx, exe, outdir, rlimit * 2, extra_roots, "_one")
        if n in x["proved"] and not x["spec_fail"]:
            r["failed"].pop(n, None)
            r["undecided"].pop(n, None)
            r["proved"].append(n)
            settle(r["res"], 1)
            r["res"].setdefault("retried", []).append(n)
    return r


def join(a, b):
    a["proved"] = sorted(set(a["proved"]) | set(b["proved"]))
    a["failed"].update(b["failed"])
    a["undecided"].update(b["undecided"])
    a["undecided"] = {k: v for k, v in a["undecided"].items() if k not in a["proved"]}
    a["spec_fail"] += b["spec_fail"]
    for k, v in b["meta"].items():
        if isinstance(v, dict):
            a["meta"].setdefault(k, {}).update(v)
        elif isinstance(v, list) and k != "ranges":
            a["meta"][k] = a["meta"].get(k, []) + [x for x in v if x not in a["meta"].get(k, [])]
    a["meta"]["assumed_contract"] = [n for n in a["meta"].get("assumed_contract", []) if n not in a["meta"].get("verified", [])]
    x, y = a["res"].get("results") or {}, b["res"].get("results") or {}
    if y:
        a["res"]["results"] = {k: (x.get(k, 0) + y.get(k, 0) if isinstance(y.get(k), int) and not isinstance(y.get(k), bool) else y.get(k)) for k in set(x) | set(y)}
    a["res"]["smt_ms"] = a["res"].get("smt_ms", 0) + b["res"].get("smt_ms", 0)
    a["res"]["wall"] = a["res"].get("wall", 0) + b["res"].get("wall", 0)
    a["res"]["fns"] = {**a["res"].get("fns", {}), **b["res"].get("fns", {})}
    return a


def verify_once(fork, fns, cx, exe, outdir, rlimit=40, extra_roots=(), suffix=""):
    """Verify `fns` of `fork`.  Functions that do not compile in the verifier are taken out one by one
    (undecided) so that one unsupported construct does not hide the rest."""
    verify = [f for f in fns]
    undecided = {}
    for attempt in range(6):
        text, meta = assemble(fork, verify, cx, exe, extra_roots)
        path = os.path.join(outdir, "%s%s.rs" % (fork, suffix))
        open(path, "w").write(text)
        res = run_retry(path, rlimit, meta)
        comp = {}
        for e in res["errors"]:
            if classify(e) == "compile":
                comp.setdefault(owner(meta, e["lines"]), e)
        if not comp:
            break
        bad = [n for n in comp if n in verify]
        if not bad or any(n is None or n.startswith("(") for n in comp):
            # not attributable: everything is undecided
            for n in verify:
                undecided[n] = "verifier front end (whole file): " + [v for k, v in comp.items() if k is None or k not in verify][0]["rendered"][:800]
            break
        for n in bad:
            undecided[n] = "verifier front end: " + comp[n]["rendered"][:800]
            verify.remove(n)
        if not verify:
            break
    for n, u in meta["unsupported"].items():
        undecided.setdefault(n, "outside the extractor's subset: " + "; ".join(u))
    for n in meta["missing"]:
        undecided.setdefault(n, "anchor not found")
    for n in fns:
        if n in meta["uncontracted"]:
            undecided.setdefault(n, "no contract")
    failed, proved = {}, []
    spec_fail = []
    for e in res["errors"]:
        k = classify(e)
        if k == "compile":
            continue
        n = owner(meta, e["lines"])
        if k == "rlimit":
            undecided[n] = "solver resource limit"
        elif n and n.startswith("("):
            spec_fail.append(e["rendered"])
        else:
            failed.setdefault(n, []).append(e["rendered"])
    if res.get("timeout"):
        for n in verify:
            undecided[n] = "verifier timeout"
    for n in meta["verified"]:
        if n in failed or n in undecided:
            continue
        proved.append(n)
    for n in list(failed):
        if n in undecided:
            del failed[n]
    if not (res.get("results") or {}).get("verified") and not failed and not res.get("timeout"):
        for n in meta["verified"]:
            undecided.setdefault(n, "verifier gave no result: " + (res["errors"][0]["rendered"][:600] if res["errors"] else str(res.get("bad_output"))[:300]))
        proved = []
    return {"fork": fork, "proved": proved, "failed": failed, "undecided": undecided, "spec_fail": spec_fail, "meta": meta, "res": res, "path": path}
