"""Concrete harness: the `@@spec` text of the contracts made executable, run against the real crate."""
import json, os, re, subprocess, time
import vlib
from vlib import VERIF, FORKS, fork_match, ENV

# the type-level constants of the `minimal` preset
CGV = {
    "SLOTS_PER_HISTORICAL_ROOT": 64, "HISTORICAL_ROOTS_LIMIT": 16777216, "ETH1_DATA_VOTES_BOUND": 32, "VALIDATOR_REGISTRY_LIMIT": 2**40,
    "EPOCHS_PER_HISTORICAL_VECTOR": 64, "EPOCHS_PER_SLASHINGS_VECTOR": 64, "MAX_VALIDATORS_PER_COMMITTEE": 2048, "PENDING_ATTESTATIONS_BOUND": 1024,
    "MAX_PROPOSER_SLASHINGS": 16, "MAX_ATTESTER_SLASHINGS": 2, "MAX_ATTESTATIONS": 128, "MAX_DEPOSITS": 16, "MAX_VOLUNTARY_EXITS": 16,
    "SYNC_COMMITTEE_SIZE": 32, "BYTES_PER_LOGS_BLOOM": 256, "MAX_EXTRA_DATA_BYTES": 32, "MAX_BYTES_PER_TRANSACTION": 1073741824,
    "MAX_TRANSACTIONS_PER_PAYLOAD": 1048576, "MAX_WITHDRAWALS_PER_PAYLOAD": 4, "MAX_BLS_TO_EXECUTION_CHANGES": 16, "MAX_BLOB_COMMITMENTS_PER_BLOCK": 16,
    "MAX_VALIDATORS_PER_SLOT": 8192, "MAX_COMMITTEES_PER_SLOT": 4, "MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD": 4, "MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD": 2,
    "MAX_CONSOLIDATIONS": 1, "PENDING_BALANCE_DEPOSITS_LIMIT": 2**27, "PENDING_PARTIAL_WITHDRAWALS_LIMIT": 64, "PENDING_CONSOLIDATIONS_LIMIT": 64,
    "DEPOSIT_CONTRACT_TREE_DEPTH": 32, "SYNC_SUBCOMMITTEE_SIZE": 8, "BYTES_PER_BLOB": 131072, "KZG_COMMITMENT_INCLUSION_PROOF_DEPTH": 9,
}
# constants whose value differs per fork
CGV_FORK = {"electra": {"MAX_ATTESTER_SLASHINGS": 1, "MAX_ATTESTATIONS": 8}, "deneb": {}, }
ROOTS = ["process_slots", "process_block", "process_epoch", "state_transition"]


def spec_to_rust(t):
    t = re.sub(r"//[^\n]*", "", t)
    t = re.sub(r"\bpub (open|closed) spec fn", "pub fn", t)
    t = re.sub(r"\n\s*decreases [^\n{]*", "\n", t)
    t = re.sub(r"#\[trigger\]", "", t)
    t = t.replace("@", "")
    t = re.sub(r"(0x[0-9a-fA-F_]+|\b\d+)int\b", r"\1i128", t)
    return t


def cgs_of(fork, name):
    return CGV_FORK.get(fork, {}).get(name, CGV.get(name))


def real_path(fork, key, t):
    gs = t.get("cgenerics", [])
    p = "ethereum_consensus::%s::%s" % (fork, key)
    if key == "Context":
        p = "ethereum_consensus::state_transition::Context"
    elif "__" in key:
        p = "ethereum_consensus::" + t["path"].replace("crate::", "")
    elif gs:
        p = "ethereum_consensus::%s::spec::%s" % (fork, key)
    if gs:
        vals = []
        for g in gs:
            v = cgs_of(fork, g)
            if v is None:
                return None
            vals.append(str(v))
        p += "<%s>" % ", ".join(vals)
    return p


def mirror_ty(t):
    return re.sub(r"\bVec\b", "Seq", t)


EXT = {"Bytes32", "Node", "BlsPublicKey", "BlsSignature", "ByteList", "ByteVector", "ExecutionAddress", "KzgCommitment", "Transaction", "U256"}


def gen_fork(fork, cx, exe, props, seen):
    ex = vlib.extract(fork, set(ROOTS) | {"upgrade_to_" + fork}, exe)
    types = ex["types"]
    out = ["#![allow(warnings)]", "use crate::rt::*;", "use crate::{chk, eqv};", "use ethereum_consensus as ec;",
           "use ec::%s as sp;" % fork]
    names = set()
    for n, t in sorted(types.items()):
        if n in EXT or t["kind"] not in ("struct", "enum"):
            continue
        if t["kind"] == "enum":
            if any(re.search(r"Box|dyn|BLST|io ::|serde|String", ft) for v in t["variants"] for ft in v[1]) or "Error" in n or n.startswith("Invalid"):
                continue
            if any(v[1] for v in t["variants"]):
                continue
            if seen.setdefault(t["path"], (fork, n)) != (fork, n):
                out.append("pub use crate::%s::%s as %s;" % (*seen[t["path"]], n))
                continue
            out.append("#[derive(Clone, Copy, PartialEq, Debug)] pub enum %s { %s }" % (n, ", ".join(v[0] for v in t["variants"])))
            continue
        if t.get("lifetimes"):
            continue
        fields = list({a: (a, b) for a, b in t["fields"]}.values())
        if n == "Context":
            fields = [(a, b) for a, b in fields if b in vlib.CTX_TYPES]
        if t.get("tuple"):
            continue
        mn = n.replace("BeaconState", "StateV")
        ident = t["path"] + str([cgs_of(fork, x) for x in t.get("cgenerics", [])])
        if seen.setdefault(ident, (fork, n)) != (fork, n):
            of, on = seen[ident]
            out.append("pub use crate::%s::{%s as %s, Real%s as Real%s};" % (of, on.replace("BeaconState", "StateV"), mn, on, n))
            if mn != n:
                out.append("pub type %s = %s;" % (n, mn))
            continue
        out.append("#[derive(Clone, Copy, PartialEq, Debug)] pub struct %s { %s }" % (mn, ", ".join("pub %s: %s" % (a, mirror_ty(b)) for a, b in fields)))
        if mn != n:
            out.append("pub type %s = %s;" % (n, mn))
        names.add(n)
        rp = real_path(fork, n, t)
        if rp is None:
            out.append("pub type Real%s = ();" % n)
            continue
        out.append("pub type Real%s = %s;" % (n, rp))
        out.append("impl Cv for %s { type M = %s; fn cv(&self) -> %s { %s { %s } } }" % (rp, mn, mn, mn, ", ".join("%s: self.%s.cv()" % (a, a) for a, b in fields)))
        if n != "Context":
            out.append("impl Rv<%s> for %s { fn rv(&self) -> %s { type R = %s; R { %s } } }" % (rp, mn, rp, rp, ", ".join("%s: self.%s.rv()" % (a, a) for a, b in fields)))
            if "SimpleSerialize" in " ".join(t.get("derives", [])): out.append("impl Htr for %s { fn htr1(&self) -> Node { let r: %s = self.rv(); use ssz_rs::HashTreeRoot; r.hash_tree_root().unwrap().cv() } }" % (mn, rp))
        if n == "BeaconState":
            out.append("pub fn sdiff(a: %s, b: %s) -> String { let mut o = String::new(); %s o }" % (mn, mn, " ".join(
                "if a.%s != b.%s { o += &format!(\"{}: the code gives {} but the specification gives {}; \", \"%s\", short(&a.%s), short(&b.%s)); }" % (x, x, x, x, x) for x, _ in fields)))
    spec = spec_to_rust(cx.spec(fork, ("spec",)))
    native = cx.spec(fork, ("rust",))
    body = spec + "\n" + native
    for n, c in sorted(ex["consts"].items()):
        if re.search(r"\b%s\b" % n, body) and not re.search(r"^pub const %s\b" % n, native, re.M):
            m = re.match(r"^\[", c["ty"])
            out.append("pub const %s: %s = %s;" % (n, c["ty"], c["expr"]))
    tests = []
    for s in cx.secs:
        if s.kind == "test" and fork_match(s.opts.get("forks"), fork):
            ps = s.opts.get("props", "").split(",")
            if props is None or set(ps) & set(props):
                tests.append((s.args[0], int(s.opts.get("n", "40"))))
                body += "\npub fn test_%s(g: &mut G) -> R {\n%s\nOk(())\n}\n" % (s.args[0], s.text())
    for x in sorted(set(re.findall(r"\bcg_([A-Z0-9_]+)\b", body))):
        out.append("pub const cg_%s: int = %d;" % (x, cgs_of(fork, x)))
    out.append(body)
    out.append("pub fn tests() -> Vec<Test> { vec![%s] }" % ", ".join('Test { fork: "%s", name: "%s", n: %d, f: test_%s }' % (fork, n, k, n) for n, k in tests))
    return "\n".join(out), len(tests)


def generated(props, exe):
    """the tests generated from the source rather than written in the contracts: (name, runs, text)"""
    out = []
    if props is None or "C27" in props:
        import consts
        out += consts.tests(exe)
    if props is None or "C30" in props:
        import dispatch
        out += dispatch.tests(exe)
    return out


def gen_common(cx, props, exe):
    """tests that do not depend on a fork"""
    body = spec_to_rust("\n".join(s.text() for s in cx.secs if s.kind == "cspec")) + "\n".join(s.text() for s in cx.secs if s.kind == "crust" and (props is None or "props" not in s.opts or set(s.opts["props"].split(",")) & set(props)))
    tests = []
    for s in cx.secs:
        if s.kind == "ctest":
            ps = s.opts.get("props", "").split(",")
            if props is None or set(ps) & set(props):
                tests.append((s.args[0], int(s.opts.get("n", "40"))))
                body += "\npub fn test_%s(g: &mut G) -> R {\n%s\nOk(())\n}\n" % (s.args[0], s.text())
    for n, k, t in generated(props, exe):
        tests.append((n, k))
        body += t
    return ("#![allow(warnings)]\nuse crate::rt::*;\nuse crate::{chk, eqv};\nuse ethereum_consensus as ec;\n" + body +
            "\npub fn tests() -> Vec<Test> { vec![%s] }" % ", ".join('Test { fork: "common", name: "%s", n: %d, f: test_%s }' % (n, k, n) for n, k in tests)), len(tests)


CARGO = """[package]
name = "harness"
version = "0.1.0"
edition = "2021"
[dependencies]
ethereum-consensus = { path = "%(v)s/real/ethereum-consensus", features = ["spec-tests"] }
ssz_rs = { path = "%(v)s/shims/ssz_rs" }
sha2 = { path = "%(v)s/shims/sha2" }
blst = { path = "%(v)s/shims/blst" }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
hex = "0.4"
rand = "0.8"
tokio = { version = "1", features = ["full", "test-util"] }
tokio-stream = "0.1"
bip39 = "2"
rand_core = { version = "0.6", features = ["std", "getrandom"] }
bitvec = "1"
thiserror = "2"
c-kzg = { path = "%(v)s/shims/c-kzg" }
ruint = { path = "%(v)s/shims/ruint" }
hkdf = { path = "%(v)s/shims/hkdf" }
rayon = { path = "%(v)s/shims/rayon" }
aes = { path = "%(v)s/shims/aes" }
ctr = { path = "%(v)s/shims/ctr" }
scrypt = { path = "%(v)s/shims/scrypt" }
uuid = { path = "%(v)s/shims/uuid" }
unicode-normalization = "0.1"
%(extra)s
[profile.dev]
opt-level = 1
debug = false
overflow-checks = true
[profile.dev.package."*"]
opt-level = 0
debug = false
overflow-checks = true
[profile.dev.package.sha2]
opt-level = 3
[profile.dev.package.hkdf]
opt-level = 3
[profile.dev.package.scrypt]
opt-level = 3
overflow-checks = false
[profile.dev.package.aes]
opt-level = 2
[profile.dev.package.ruint]
opt-level = 2
[profile.dev.package.ssz_rs]
opt-level = 2
[profile.dev.package.ethereum-consensus]
opt-level = 1
[profile.dev.build-override]
opt-level = 0
debug = false
codegen-units = 16
[workspace]
"""


BLOBS = {"C24", "C34"}


def blobs_modules():
    """the `blobs` command's own modules (they live in the binary): the declarations of its mod.rs with paths, without the command line"""
    b = vlib.REPO + "/ethereum-consensus/src/bin/ec/"
    m = open(b + "blobs/mod.rs").read()
    m = re.sub(r"(?m)^pub use command::[^;]*;|^(pub )?mod command;", "", m)
    m = re.sub(r"(?m)^(?:pub(?:\([^)]*\))? )?mod (\w+);", r'#[path = "%sblobs/\1.rs"] pub mod \1;' % b, m)
    return "pub mod blobs {\n%s\n}\n" % m


KEYS = {"C29"}


def bls_module():
    k = re.search(r"const MODULUS[^;]*;", open(vlib.REPO + "/ethereum-consensus/src/bin/ec/bls.rs").read())
    return "pub mod bls { use ruint::{aliases::U256, uint}; pub %s }\n" % (k.group(0) if k else "")


def keys_modules():
    """the `validator` command's key derivation and keystores (it lives in the binary)"""
    b = vlib.REPO + "/ethereum-consensus/src/bin/ec/validator/"
    return "pub mod validator {\n" + "".join('#[path = "%s%s.rs"] pub mod %s;\n' % (b, m, m) for m in ("mnemonic", "keys", "keystores")) + "}\n"


API = {"C26"}


def api_modules():
    """the API client's own types (the client itself needs a network stack that is not here); its error type and serde aliases stand in"""
    return """pub mod serde { pub(crate) use ethereum_consensus::serde::{as_hex, as_str, seq_of_str}; }
#[derive(::serde::Serialize, ::serde::Deserialize, Debug)] pub struct ApiError { pub message: String }
#[path = "%s/beacon-api-client/src/types.rs"] pub mod api;
""" % vlib.REPO


def write(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if os.path.exists(p) and open(p).read() == s:
        return
    open(p, "w").write(s)


def build(cx, exe, props, forks=None, name="harness", timeout=600):
    d = os.path.join(vlib.TARGET, name)
    mods, n, seen = [], 0, {}
    for f in forks or FORKS:
        txt, k = gen_fork(f, cx, exe, props, seen)
        n += k
        write("%s/src/%s.rs" % (d, f), txt)
        mods.append(f)
    txt, k = gen_common(cx, props, exe)
    if k:
        write("%s/src/common.rs" % d, txt)
        mods.append("common")
        n += k
    if n == 0:
        return None, 0
    for f in ("rt.rs",):
        write("%s/src/%s" % (d, f), open("%s/harness/%s" % (VERIF, f)).read())
    main = "#![allow(warnings)]\n#[macro_use] mod rt;\n" + "".join("mod %s;\n" % m for m in mods)
    if props is None or set(props) & BLOBS:
        main += blobs_modules()
    if props is None or set(props) & (BLOBS | KEYS):
        main += bls_module()
    if props is None or set(props) & KEYS:
        main += keys_modules()
    if props is None or set(props) & API:
        main += api_modules()
    main += "fn main() { let mut t = vec![]; %s rt::main(t) }\n" % " ".join("t.extend(%s::tests());" % m for m in mods)
    write("%s/src/main.rs" % d, main)
    write("%s/Cargo.toml" % d, CARGO % {"v": VERIF, "extra": ""})
    r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--manifest-path", d + "/Cargo.toml"],
                       env=dict(ENV, CARGO_TARGET_DIR=vlib.TARGET + "/harness_target", RUSTFLAGS="-Awarnings"), capture_output=True, text=True, timeout=timeout)
    if r.returncode != 0:
        raise vlib.ToolError("the concrete harness does not build: " + "\n".join(l for l in r.stderr.splitlines())[:6000])
    return vlib.TARGET + "/harness_target/debug/harness", n


def prebuild():
    """the real crate and its dependencies, before the tests are generated"""
    d = os.path.join(vlib.TARGET, "harness_pre")
    write(d + "/Cargo.toml", (CARGO % {"v": VERIF, "extra": ""}).replace("name = \"harness\"", "name = \"harness_pre\""))
    write(d + "/src/main.rs", "fn main() {}\n")
    subprocess.run(["cargo", "build", "--offline", "--quiet", "--manifest-path", d + "/Cargo.toml"],
                   env=dict(ENV, CARGO_TARGET_DIR=vlib.TARGET + "/harness_target", RUSTFLAGS="-Awarnings"), capture_output=True, text=True, timeout=600)


def run_raw(exe, seed, millis, only, timeout):
    """output of one run; None for the exit code means it was stopped by the time limit"""
    p = subprocess.Popen([exe, str(seed), str(millis)] + (["only=" + ",".join(only)] if only is not None else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    try:
        o, e = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        p.kill()
        o, e = p.communicate()
        rc = None
    out, started = [], []
    for ln in o.splitlines():
        try:
            x = json.loads(ln)
        except Exception:
            continue
        if "start" in x:
            started.append(x["start"])
        else:
            out.append(x)
    return out, started, rc, e


class Ended:
    def __init__(self, rc, err):
        self.returncode, self.stderr = rc, err


def run(exe, seed, millis, only=None, timeout=420):
    out, started, rc, err = run_raw(exe, seed, millis, only, timeout)
    if rc is not None and rc < 0 and not any("violation" in x for x in out):
        # the process died (stack overflow, abort): which of the tests under way does it alone?
        fin = {x["test"] for x in out}
        for t in dict.fromkeys(x for x in started if x not in fin):
            o2, s2, rc2, e2 = run_raw(exe, seed, millis, [t], 120)
            if rc2 is not None and rc2 < 0 and rc2 != -9:
                out.append({"fork": "", "test": t, "runs": 0, "iter": 0, "violation": "the code ends the process (signal %d): %s" % (-rc2, e2.strip()[-300:])})
                break
            out += [x for x in o2 if "violation" in x or x["test"] not in fin]
    return out, Ended(rc, err)
