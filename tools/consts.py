"""The constants of the repository: every `const` item of the listed files, verbatim, against the published values.

contracts/constants.json holds the published values (the specification).  One file is generated for the verifier, with the
const items of every listed file in a module of the same path, the preset and configuration structs, every `config()`, and
`Context::from` / `Context::for_*`.  Each constant is one obligation; each function is verified against a contract that gives
the value of every field.

Rewritten mechanically: powers of literals and byte strings are written out; `U256::ZERO`, `ExecutionAddress::try_from(..)`,
`"..".to_string()`, `Default::default()` and `Arc` become models with the obvious contract; items are moved into nested
modules, with the names they import.
"""
import json, os, re
import vlib, modules
from vlib import VERIF, REPO

FK = ["phase0", "altair", "bellatrix", "capella", "deneb", "electra"]
E = "ethereum-consensus/src/"
NETS = ["mainnet", "minimal", "goerli", "sepolia", "holesky", "hoodi"]
SECT = [("primitives", "primitives.rs")]
SECT += [("configs::" + n, "configs/%s.rs" % n) for n in NETS]
for _f in FK:
    SECT += [("%s::%s" % (_f, n), "%s/presets/%s.rs" % (_f, n)) for n in ("mainnet", "minimal")]
    for _x in ("constants", "networking", "light_client", "blob_sidecar"):
        SECT.append(("%s::%s" % (_f, _x), "%s/%s.rs" % (_f, _x)))
SECT += [("crypto::kzg", "crypto/kzg.rs"), ("crypto::bls", "crypto/bls.rs"), ("networking", "networking.rs"), ("clock", "clock.rs"),
         ("bin::mnemonic", "bin/ec/validator/mnemonic.rs"), ("bin::framing", "bin/ec/blobs/framing.rs")]
SECT = [(m, E + f) for m, f in SECT if os.path.exists(REPO + "/" + E + f) or "presets" in f or "configs" in f]
TABLE = VERIF + "/contracts/constants.json"
NUM = {"u8", "u16", "u32", "u64", "usize", "Epoch", "Slot", "Gwei", "ChainId", "NetworkId"}

PRELUDE = """#![allow(warnings)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub mod vt { use vstd::prelude::*;
pub type Epoch = u64; pub type Slot = u64; pub type Gwei = u64; pub type Version = [u8; 4];
#[derive(Clone, Copy)] pub struct U256(pub [u8; 32]);
impl U256 { pub fn from_le_bytes(b: [u8; 32]) -> (r: U256) ensures r.0@ == b@ { U256(b) } }
#[verifier::external_body] pub fn u256_zero() -> (r: U256) ensures forall|i: int| 0 <= i < 32 ==> r.0@[i] == 0 { unimplemented!() }
pub struct Hash32(pub [u8; 32]);
impl Hash32 { #[verifier::external_body] pub fn clone(&self) -> (r: Hash32) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub fn default_hash32() -> (r: Hash32) ensures forall|i: int| 0 <= i < 32 ==> r.0@[i] == 0 { unimplemented!() }
pub struct ExecutionAddress(pub [u8; 20]);
impl ExecutionAddress {
    #[verifier::external_body] pub fn clone(&self) -> (r: ExecutionAddress) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn try_from<const N: usize>(b: [u8; N]) -> (r: Result<ExecutionAddress, ()>)
        ensures N == 20 ==> r is Ok && r->Ok_0.0@ == b@, N != 20 ==> r is Err { unimplemented!() }
}
pub struct VStr(pub Seq<char>);
#[verifier::external_body] pub fn vstr(s: &str) -> (r: VStr) ensures r.0 == s@ { unimplemented!() }
pub enum Network { Mainnet, Sepolia, Goerli, Holesky, Hoodi, Custom(VStr) }
impl Network { #[verifier::external_body] pub fn clone(&self) -> (r: Network) ensures r == *self { unimplemented!() } }
pub struct KzgSettings;
pub struct VArc<T>(pub T);
pub const PRECOMPUTE: u64 = 0;
#[verifier::external_body] pub fn kzg_settings_with_precompute_arc(p: u64) -> (r: VArc<KzgSettings>) { unimplemented!() }
}
"""
SUBST = [
    (r'"(\w+)" ?\. ?to_string ?\( ?\)', r'vstr("\1")'),
    (r"U256 ?:: ?ZERO", "u256_zero()"),
    (r"Default ?:: ?default ?\( ?\)", "default_hash32()"),
    (r"\] ?\. ?as_ref ?\( ?\)", "]"),
    (r"\bArc ?<", "VArc <"),
    (r"Duration ?:: ?from_secs ?\( ?(\w+) ?\)", r"\1 * 1000"),
    (r"Duration ?:: ?from_millis ?\( ?(\w+) ?\)", r"\1"),
    (r"\bSelf \{", "Context {"), (r"\bSelf :: from", "Context :: from"), (r"-> Self", "-> Context"),
    (r"super ?:: ?", ""),
]


def prep(t, env=None):
    def p(m):
        e = m.group(3)
        if not e.isdigit():
            e = (env or {}).get(e)
            if e is None:
                return m.group(0)
        return "%d%s" % (int(m.group(1)) ** int(e), m.group(2))
    t = re.sub(r"\b(\d+)(u64|usize) ?\. ?pow ?\( ?(\w+)(?: as u32)? ?\)", p, t)
    t = re.sub(r'b"([^"\\]*)"', lambda m: "[%s]" % ", ".join("%du8" % ord(c) for c in m.group(1)), t)
    t = re.sub(r"\[ ?(\w+) ?; ?(\d+) ?\]", lambda m: m.group(0) if re.match(r"^u?\d*$|^[ui]\w+$", m.group(1)) and m.group(1) in NUM else "[%s]" % ", ".join([m.group(1)] * int(m.group(2))), t)
    for rx, rep in SUBST:
        t = re.sub(rx, rep, t)
    return t


def read(exe):
    it = {}
    for m, f in SECT:
        if os.path.exists(REPO + "/" + f):
            it[m] = {k: v for k, v in modules.verbatim(exe, [f]).items() if isinstance(v, dict)}
    return it


def own_names(it, m):
    return {k for k, v in it.get(m, {}).items() if v.get("kind") == "const"}


def resolve(it, m, name):
    """the module a name imported by module m comes from"""
    segs = m.split("::")
    order = []
    if segs[0] in FK:
        i = FK.index(segs[0])
        for f in reversed(FK[:i + 1]):
            if segs[1] in ("mainnet", "minimal"):
                order.append("%s::%s" % (f, segs[1]))
            order += ["%s::%s" % (f, x) for x in ("constants", "networking", "light_client", "blob_sidecar")]
    order += ["primitives", "crypto::kzg", "crypto::bls"]
    for o in order:
        if o != m and name in own_names(it, o):
            return o
    return None


def evaluate(it):
    """values of the constants, for writing the table once"""
    vals = {}

    def ev(m, n):
        if (m, n) in vals:
            return vals[(m, n)]
        e = it[m][n]["expr"]
        ty = it[m][n]["ty"]
        x = prep(e.replace("crate :: crypto :: kzg :: ", ""), {"DEPOSIT_CONTRACT_TREE_DEPTH": 32})
        x = x.replace("Epoch :: MAX", str(2**64 - 1)).replace("u64 :: MAX", str(2**64 - 1)).replace("as usize", "").replace("as u64", "").replace("&", "")
        x = re.sub(r"(\d)(u64|usize|u8)\b", r"\1", x).replace("/", "//")
        x = re.sub(r"0x([0-9a-f]{2})_", r"0x\1", x)
        env = {}
        for i in set(re.findall(r"\b[A-Z][A-Z0-9_]+\b", x)):
            o = m if i in it[m] else resolve(it, m, i)
            if o is None:
                raise KeyError((m, i, x))
            env[i] = ev(o, i)
        vals[(m, n)] = eval(x, {}, env)
        return vals[(m, n)]
    out = {}
    for m in it:
        for n in sorted(own_names(it, m)):
            if n == "PRESET":
                continue
            try:
                out.setdefault(m, {})[n] = ev(m, n)
            except Exception as e:
                print("skip", m, n, repr(e)[:150])
    return out


def lit(v, ty):
    return str(v)


def claim(path, v):
    if isinstance(v, list):
        return "%s@ =~= seq![%s]" % (path, ", ".join(map(str, v)))
    return "%s == %s" % (path, v)


def fields(it, key):
    return [f for f in it[key]["fields"]]


def generate(exe, drop=frozenset()):
    T = json.load(open(TABLE))
    it = read(exe)
    ctx_it = modules.verbatim(exe, [E + "state_transition/context.rs"])
    cfg_it = modules.verbatim(exe, [E + "configs/mod.rs"])
    parts, missing, names = [("(prelude)", PRELUDE)], [], []

    def emit_consts(m):
        want = T["consts"].get(m, {})
        if m not in it:
            missing.extend("%s::%s" % (m, n) for n in want)
            return
        own = own_names(it, m)
        need = {n for n in own if n in want}
        grow = True
        while grow:
            grow = False
            for n in list(need):
                for i in re.findall(r"\b[A-Z][A-Z0-9_]+\b", it[m][n]["expr"] + it[m][n]["ty"]):
                    if i in own and i not in need:
                        need.add(i); grow = True
        if "PRESET" in own:
            need.add("PRESET")
            for i in re.findall(r"\b[A-Z][A-Z0-9_]+\b", it[m]["PRESET"]["expr"]):
                if i in own:
                    need.add(i)
        imports = {}
        for n in sorted(need):
            e = it[m][n]["expr"] + " " + it[m][n]["ty"]
            for i in re.findall(r"(?<!:: )\b([A-Z][A-Z0-9_]+)\b", e):
                if i not in own and i not in ("U256",):
                    o = resolve(it, m, i)
                    if o:
                        imports[i] = o
        if "configs::" in m:
            imports.setdefault("FAR_FUTURE_EPOCH", "primitives")
        parts.append(("(item)", "".join("pub use crate::%s::%s;\n" % (o, i) for i, o in sorted(imports.items()) if i not in own)))
        for n in sorted(need):
            q = "%s::%s" % (m, n)
            if q in drop:
                continue
            ty = it[m][n]["ty"].replace("Duration", "u64")
            ex = it[m][n]["expr"]
            env = {"DEPOSIT_CONTRACT_TREE_DEPTH": T["consts"].get("phase0::constants", {}).get("DEPOSIT_CONTRACT_TREE_DEPTH")} if "DEPOSIT_CONTRACT_TREE_DEPTH" in own else {}
            if "b\"" in ex:
                ty = "[u8 ; %d]" % (prep(ex).count("u8"))
                ex = ex.replace("&", "")
            if " * " in ex:
                # products: the constants of the same file are written out (a product of named constants is not linear)
                ex = re.sub(r"(?<!:: )\b([A-Z][A-Z0-9_]+)\b(?! ::)", lambda x: "( %s )" % it[m][x.group(1)]["expr"] if x.group(1) in own else x.group(0), ex)
            parts.append((q, "pub const %s : %s = %s ;\n" % (n, ty, prep(ex, env))))
        for n in want:
            if n not in own:
                missing.append("%s::%s" % (m, n))

    # modules in nested form
    tree = {}
    for m, _ in SECT:
        d = tree
        for s in m.split("::"):
            d = d.setdefault(s, {})
    H = "use vstd::prelude::*; #[allow(unused_imports)] use crate::vt::*;\n"

    def walk(d, path):
        for s, sub in d.items():
            p = path + [s]
            m = "::".join(p)
            parts.append(("(item)", "pub mod %s { %s" % (s, H)))
            if len(p) == 1 and s in FK:
                pm = modules.verbatim(exe, [E + s + "/presets/mod.rs"])
                if "Preset" in pm:
                    parts.append(("(item)", re.sub(r"(?<=[{,]) (?:pub )?(\w+) :(?!:)", r" pub \1 :", modules.norm(pm["Preset"]["text"])) + "\n"))
            if len(p) == 1 and s == "configs":
                parts.append(("(item)", re.sub(r"String", "VStr", re.sub(r"(?<=[{,]) (?:pub )?(\w+) :(?!:)", r" pub \1 :", modules.norm(cfg_it["Config"]["text"]))) + "\n"))
            if m in dict(SECT):
                if p[0] in FK and p[-1] in ("mainnet", "minimal"):
                    parts.append(("(item)", "use crate::%s::Preset;\n" % p[0]))
                if p[0] == "configs" and len(p) == 2:
                    parts.append(("(item)", "use crate::configs::Config;\n"))
                emit_consts(m)
                if p[0] == "configs" and len(p) == 2:
                    q = m + "::config"
                    f = it.get(m, {}).get("config")
                    want = T["config"][p[1]]
                    ens = []
                    for k, v in want.items():
                        ens.append(field_claim("r", k, v))
                    ct = "pub fn config() -> (r: Config)\nensures %s\n" % ", ".join(ens)
                    if f is None:
                        missing.append(q)
                    elif q in drop:
                        parts.append((q, "#[verifier::external_body]\n" + ct + "{ unimplemented!() }\n"))
                    else:
                        body = prep(modules.norm(f["body"]))
                        lits = sorted(set(re.findall(r'vstr\("(\w+)"\)', body)) | {want["preset_base"]} | ({want["name"][7:]} if want["name"].startswith("Custom:") else set()))
                        rev = "".join('reveal_strlit("%s");' % l for l in lits)
                        parts.append((q, ct + re.sub(r"^\{", lambda _: "{ proof { %s }" % rev, body, count=1).replace(" ; ", " ;\n") + "\n"))
            walk(sub, p)
            parts.append(("(item)", "}\n"))
    walk(tree, [])
    # ---- the context
    parts.append(("(item)", "use crate::vt::*;\nuse crate::configs::Config;\n"))
    t = modules.norm(ctx_it["Context"]["text"])
    t = re.sub(r"(?<=[{,]) (?:pub )?(\w+) :(?!:)", r" pub \1 :", t)
    t = re.sub(r"pub execution_engine : bool , pub execution_engine : bool", "pub execution_engine : bool", prep(t))
    parts.append(("(item)", t + "\nimpl Context {\n"))
    for n, ct in [("from", from_contract(T))] + [("for_" + k, "pub fn for_%s() -> (r: Context)\nensures %s\n" % (k, ", ".join(for_claims(T, k)))) for k in NETS]:
        q = "Context::" + n
        f = ctx_it.get(q)
        if f is None:
            missing.append(q)
            continue
        if q in drop:
            parts.append((q, "#[verifier::external_body]\n" + ct + "{ unimplemented!() }\n"))
            continue
        body = prep(modules.norm(f["body"])).replace("DEFAULT_EXECUTION_ENGINE_VALIDITY", "true")
        parts.append((q, ct + body.replace(" ; ", " ;\n") + "\n"))
    parts.append(("(item)", "}\n"))
    # ---- obligations
    for m, want in T["consts"].items():
        own = own_names(it, m)
        for n, v in want.items():
            q = "%s::%s" % (m, n)
            if n in own and q not in drop:
                parts.append((q, "pub proof fn obl_%s() ensures %s {}\n" % (q.replace("::", "_"), claim("crate::" + q, v))))
                names.append(q)
    for f in FK:
        for net in ("mainnet", "minimal"):
            m = "%s::%s" % (f, net)
            q = m + "::PRESET"
            if "PRESET" in own_names(it, m) and q not in drop:
                parts.append((q, "pub proof fn obl_%s() ensures %s {}\n" % (q.replace("::", "_"), ", ".join("crate::%s.%s == %s" % (q, k, v) for k, v in T["preset"][m].items()))))
                names.append(q)
            elif m in it:
                missing.append(q)
    # ---- relations between the constants, and the ranges the other contracts assume of a configuration
    for n in NETS:
        m = "crate::configs::" + n
        v = ["GENESIS", "ALTAIR", "BELLATRIX", "CAPELLA", "DENEB", "ELECTRA"]
        ens = ["%s::%s_FORK_EPOCH <= %s::%s_FORK_EPOCH" % (m, a, m, b) for a, b in zip(v[1:], v[2:])]
        ens += ["%s::%s_FORK_VERSION@ != %s::%s_FORK_VERSION@" % (m, a, m, b) for i, a in enumerate(v) for b in v[i + 1:]]
        pr = "".join("assert(%s::%s_FORK_VERSION@ =~= seq!%s); " % (m, a, T["consts"]["configs::" + n][a + "_FORK_VERSION"]) for a in v)
        pr += "".join("assert(%s::%s_FORK_VERSION@[%d] != %s::%s_FORK_VERSION@[%d]); " % (m, a, k, m, b, k)
                      for i, a in enumerate(v) for b in v[i + 1:] for k in [next(j for j in range(4) if T["consts"]["configs::" + n][a + "_FORK_VERSION"][j] != T["consts"]["configs::" + n][b + "_FORK_VERSION"][j])])
        q = "relations::" + n
        if q not in drop:
            parts.append((q, "pub proof fn obl_relations_%s() ensures %s { %s }\n" % (n, ", ".join(ens), pr)))
            names.append(q)
    for net in ("mainnet", "minimal"):
        def c(x):
            for f in FK:
                if x in T["consts"].get("%s::%s" % (f, net), {}):
                    return "(crate::%s::%s::%s as int)" % (f, net, x)
            raise KeyError(x)
        ens = ["0 < %s <= 0x10000" % c("SLOTS_PER_EPOCH"), "%s <= 0x10000" % c("MAX_SEED_LOOKAHEAD"), "%s < %s" % (c("MIN_SEED_LOOKAHEAD"), c("EPOCHS_PER_HISTORICAL_VECTOR")),
               "%s %% %s == 0" % (c("SLOTS_PER_HISTORICAL_ROOT"), c("SLOTS_PER_EPOCH")), "%s <= %s" % (c("SLOTS_PER_EPOCH"), c("SLOTS_PER_HISTORICAL_ROOT")),
               "0 < %s" % c("EFFECTIVE_BALANCE_INCREMENT"), "%s %% %s == 0" % (c("MAX_EFFECTIVE_BALANCE"), c("EFFECTIVE_BALANCE_INCREMENT")),
               "%s <= %s" % (c("MIN_DEPOSIT_AMOUNT"), c("MAX_EFFECTIVE_BALANCE")), "%s == %s" % (c("MIN_ACTIVATION_BALANCE"), c("MAX_EFFECTIVE_BALANCE")),
               "%s <= %s" % (c("MAX_EFFECTIVE_BALANCE"), c("MAX_EFFECTIVE_BALANCE_ELECTRA")),
               "%s == %s * %s" % (c("ETH1_DATA_VOTES_BOUND"), c("EPOCHS_PER_ETH1_VOTING_PERIOD"), c("SLOTS_PER_EPOCH")),
               "%s == %s * %s" % (c("PENDING_ATTESTATIONS_BOUND"), c("MAX_ATTESTATIONS"), c("SLOTS_PER_EPOCH")),
               "%s == 4 * %s" % (c("SYNC_COMMITTEE_SIZE"), c("SYNC_SUBCOMMITTEE_SIZE")),
               "%s == 32 * %s" % (c("BYTES_PER_BLOB"), c("FIELD_ELEMENTS_PER_BLOB")),
               "%s <= %s" % (c("MAX_BLOBS_PER_BLOCK"), c("MAX_BLOB_COMMITMENTS_PER_BLOCK"))]
        q = "relations::preset_" + net
        if q not in drop:
            parts.append((q, "pub proof fn obl_relations_preset_%s() ensures %s {}\n" % (net, ", ".join(ens))))
            names.append(q)
    a = "crate::altair::constants::"
    q = "relations::weights"
    if q not in drop:
        parts.append((q, "pub proof fn obl_weights() ensures %sTIMELY_SOURCE_WEIGHT + %sTIMELY_TARGET_WEIGHT + %sTIMELY_HEAD_WEIGHT + %sSYNC_REWARD_WEIGHT + %sPROPOSER_WEIGHT == %sWEIGHT_DENOMINATOR {}\n" % (a, a, a, a, a, a)))
        names.append(q)
    parts.append(("(end)", "}\nfn main() {}\n"))
    names += ["configs::%s::config" % n for n in NETS] + ["Context::from"] + ["Context::for_" + n for n in NETS]
    names = [n for n in names if n not in drop and n not in missing]
    return parts, missing, names, it, ctx_it


def field_claim(r, k, v):
    if k == "name":
        if v.startswith("Custom:"):
            return '%s.name matches Network::Custom(s) && s.0 == "%s"@' % (r, v[7:]) if False else '(%s.name is Custom && %s.name->Custom_0.0 == "%s"@)' % (r, r, v[7:])
        return "%s.name is %s" % (r, v)
    if k == "preset_base":
        return '%s.preset_base.0 == "%s"@' % (r, v)
    if k in ("terminal_total_difficulty", "terminal_block_hash", "deposit_contract_address"):
        return "%s.%s.0@ =~= seq![%s]" % (r, k, ", ".join("%du8" % b for b in v))
    if isinstance(v, list):
        return "%s.%s@ =~= seq![%s]" % (r, k, ", ".join("%du8" % b for b in v))
    return "%s.%s == %s" % (r, k, v)


def from_contract(T):
    ens = ["r.%s == %s.%s" % (k, src, k) for k, src in T["context"].items()]
    ps = ", ".join("%s_preset: &%s::Preset" % (f, f) for f in FK)
    return "pub fn from(%s, config: &Config) -> (r: Context)\nensures %s\n" % (ps, ", ".join(ens))


def for_claims(T, net):
    pre = "minimal" if net == "minimal" else "mainnet"
    ens = []
    for k, src in T["context"].items():
        if src == "config":
            ens.append(field_claim("r", k, T["config"][net][k]))
        else:
            ens.append("r.%s == %s" % (k, T["preset"]["%s::%s" % (src[:-7], pre)][k]))
    return ens


def all_names():
    T = json.load(open(TABLE))
    n = ["%s::%s" % (m, c) for m, w in T["consts"].items() for c in w] + ["%s::PRESET" % m for m in T["preset"]]
    return n + ["relations::" + x for x in NETS + ["preset_mainnet", "preset_minimal", "weights"]] + ["configs::%s::config" % x for x in NETS] + ["Context::from"] + ["Context::for_" + x for x in NETS]


def verify(m, exe, outdir, rlimit=40):
    drop, undecided = set(), {}
    for attempt in range(8):
        parts, missing, names, it, ctx_it = generate(exe, drop)
        meta = {"missing": missing, "problems": [], "verified": list(names), "origins": {}, "ranges": [], "loops": {}, "callees": {},
                "assumed_contract": [], "dropped": {}, "unsupported": {}, "uncontracted": [], "subst": ["%s => %s" % x for x in SUBST]}
        out, line = "", 1
        for n, t in parts:
            if not t.endswith("\n"):
                t += "\n"
            k = t.count("\n")
            meta["ranges"].append((line, line + k - 1, n))
            out += t
            line += k
        path = os.path.join(outdir, "mod_%s.rs" % m["name"])
        open(path, "w").write(out)
        res = vlib.run_verus(path, rlimit, threads=4)
        comp = {}
        for e in res["errors"]:
            if vlib.classify(e) == "compile":
                comp.setdefault(vlib.owner(meta, e["lines"]), e)
        if not comp:
            break
        bad = [n for n in comp if n and not n.startswith("(")]
        if not bad:
            for n in names:
                undecided[n] = "verifier front end: " + list(comp.values())[0]["rendered"][:600]
            break
        for n in bad:
            undecided[n] = "verifier front end: " + comp[n]["rendered"][:600]
            drop.add(n)
    for n in missing:
        undecided.setdefault(n, "anchor not found")
    failed, spec_fail = {}, []
    for e in res["errors"]:
        k = vlib.classify(e)
        if k == "compile":
            continue
        n = vlib.owner(meta, e["lines"])
        if k == "rlimit":
            undecided[n] = "solver resource limit"
        elif n and n.startswith("("):
            spec_fail.append(e["rendered"])
        else:
            failed.setdefault(n, []).append(e["rendered"])
    for n in list(failed):
        if n in undecided:
            del failed[n]
    for n in names:
        segs = n.split("::")
        fl = dict(SECT).get("::".join(segs[:-1]))
        meta["origins"][n] = fl or (E + "state_transition/context.rs" if segs[0] == "Context" else "")
        meta["loops"][n], meta["callees"][n] = 0, []
    proved = [n for n in names if n not in failed and n not in undecided]
    if not (res.get("results") or {}).get("verified") and not failed:
        for n in names:
            undecided.setdefault(n, "verifier gave no result: " + (res["errors"][0]["rendered"][:600] if res["errors"] else str(res.get("bad_output"))[:300]))
        proved = []
    return {"fork": "module constants", "proved": proved, "failed": failed, "undecided": undecided, "spec_fail": spec_fail, "meta": meta, "res": res, "path": path, "items": {}}


def tests(exe):
    """the table against the compiled crate"""
    T = json.load(open(TABLE))
    it = read(exe)
    def arr(v):
        return "vec![%s]" % ", ".join("%di128" % b for b in v)
    def cmp(what, expr, v):
        if isinstance(v, list):
            return 'eqv!((%s).iter().map(|x| *x as i128).collect::<Vec<i128>>(), %s, "%s");' % (expr, arr(v), what)
        return 'eqv!((%s) as i128, %di128, "%s");' % (expr, v, what)
    out, b = [], []
    for m, want in T["consts"].items():
        if m.startswith("bin::"):
            continue
        for n, v in want.items():
            c = it.get(m, {}).get(n)
            if c and c["pub"]:
                x = "ec::%s::%s" % (m, n)
                b.append(cmp("%s::%s" % (m, n), x + ".as_millis()" if "Duration" in c["ty"] else x, v))
    out.append(("constants", 1, "\npub fn test_constants(g: &mut G) -> R {\n%s\nOk(())\n}\n" % "\n".join(b)))
    def fld(r, what, k, v):
        if k == "name":
            n = 'Network::Custom("%s".to_string())' % v[7:] if v.startswith("Custom:") else "Network::" + v
            return 'chk!(%s.name == ec::networks::%s, "%s.name is {:?}", %s.name);' % (r, n, what, r)
        if k == "preset_base":
            return 'chk!(%s.preset_base == "%s", "%s.preset_base is {}", %s.preset_base);' % (r, v, what, r)
        e = "%s.%s" % (r, k)
        if k == "terminal_total_difficulty":
            e += ".to_le_bytes()"
        return cmp("%s.%s" % (what, k), e, v)
    b, c2 = [], []
    for n in NETS:
        b.append("{ let c = ec::configs::%s::config();" % n)
        b += [fld("c", "configs::%s::config()" % n, k, v) for k, v in T["config"][n].items()] + ["}"]
        pre = "minimal" if n == "minimal" else "mainnet"
        c2.append("{ let c = ec::state_transition::Context::for_%s();" % n)
        for k, src in T["context"].items():
            c2.append(fld("c", "Context::for_%s()" % n, k, T["config"][n][k] if src == "config" else T["preset"]["%s::%s" % (src[:-7], pre)][k]))
        c2.append("}")
    # the containers each preset instantiates: the value given to every size parameter
    fs, b3 = [], []
    for i, (m, k, f, x, vals) in enumerate(aliases(exe)[0]):
        gs = [q if q.startswith("'") else "const %s: usize" % q for q, _, _ in vals]
        cs = [q for q, _, w in vals if w is not None]
        fs.append("fn al_%d<%s>(_: std::marker::PhantomData<ec::%s::%s<%s>>) -> Vec<(&'static str, i128)> { vec![%s] }" % (
            i, ", ".join(gs), f, x, ", ".join(q for q, _, _ in vals), ", ".join('("%s", %s as i128)' % (q, q) for q in cs)))
        b3.append("eqv!(al_%d(std::marker::PhantomData::<ec::%s::%s>), vec![%s], \"the sizes of %s::%s\");" % (i, m, k, ", ".join('("%s", %di128)' % (q, w) for q, _, w in vals if w is not None), m, k))
    out.append(("preset_types", 1, "\n%s\npub fn test_preset_types(g: &mut G) -> R {\n%s\nOk(())\n}\n" % ("\n".join(fs), "\n".join(b3))))
    out.append(("configs", 1, "\npub fn test_configs(g: &mut G) -> R {\n%s\nOk(())\n}\n" % "\n".join(b)))
    out.append(("contexts", 1, "\npub fn test_contexts(g: &mut G) -> R {\n%s\nOk(())\n}\n" % "\n".join(c2)))
    return out


if __name__ == "__main__":
    import sys
    exe = vlib.build_extract()
    if sys.argv[1] == "table":
        it = read(exe)
        consts = evaluate(it)
        preset = {}
        for f in FK:
            for n in ("mainnet", "minimal"):
                m = "%s::%s" % (f, n)
                body = it[m]["PRESET"]["expr"]
                preset[m] = {}
                for k, x in re.findall(r"(\w+) : (\w+)", body):
                    o = m if x in it[m] else resolve(it, m, x)
                    preset[m][k] = consts[o][x]
        ctx = modules.verbatim(exe, [E + "state_transition/context.rs"])
        ctxm = {k: src for k, src in re.findall(r"(\w+) : (\w+_preset|config) \. \1", modules.norm(ctx["Context::from"]["body"]))}
        config = {}
        for n in NETS:
            m = "configs::" + n
            b = modules.norm(it[m]["config"]["body"])
            c = {}
            for k, x in re.findall(r"(\w+) : ([A-Z][A-Z0-9_]+)\b(?! ::)", b):
                c[k] = consts[m][x] if x in consts[m] else consts["primitives"][x]
            mm = re.search(r"from_le_bytes \( \[([^\]]*)\]", b)
            c["terminal_total_difficulty"] = [int(x) for x in mm.group(1).replace(" ", "").strip(",").split(",")] if mm else [0] * 32
            c["terminal_block_hash"] = [0] * 32
            mm = re.search(r"try_from \( \[([^\]]*)\]", b)
            c["deposit_contract_address"] = [int(x, 0) for x in mm.group(1).replace(" ", "").strip(",").split(",")]
            c["preset_base"] = re.search(r'preset_base : "(\w+)"', b).group(1)
            mm = re.search(r'name : Network :: (\w+)(?: \( "(\w+)")?', b)
            c["name"] = mm.group(1) if not mm.group(2) else "Custom:" + mm.group(2)
            config[n] = c
        json.dump({"consts": consts, "preset": preset, "context": ctxm, "config": config}, open(TABLE, "w"), indent=0)
        print(len(ctxm), {k: len(v) for k, v in config.items()}, sum(len(v) for v in consts.values()), {k: len(v) for k, v in preset.items()})
        fs = modules.verbatim(exe, [E + "state_transition/context.rs"])["Context"]["fields"]
        print([f for f in fs if f not in ctxm])
        fs = modules.verbatim(exe, [E + "configs/mod.rs"])["Config"]["fields"]
        print({n: [f for f in fs if f not in config[n]] for n in NETS})
    else:
        os.makedirs("/tmp/v", exist_ok=True)
        r = verify({"name": "constants"}, exe, "/tmp/v")
        print(len(r["proved"]), "proved", r["failed"].keys(), "undecided", len(r["undecided"]), r["spec_fail"][:1], r["res"].get("results"), r["res"]["wall"])
        for k, v in list(r["undecided"].items())[:5]: print(k, v)
        for k, v in list(r["failed"].items())[:3]: print(k, v[0])


def aliases(exe):
    """[(module, alias, fork or types, struct, [(parameter, argument text, published value)])]: the containers each preset instantiates"""
    T = json.load(open(TABLE))
    out, unknown = [], []
    import glob
    defs = {}
    for f in FK + ["types"]:
        for p in sorted(glob.glob("%s/%s%s/*.rs" % (REPO, E, f))):
            for k, v in modules.verbatim(exe, [p[len(REPO) + 1:]]).items():
                if isinstance(v, dict) and v["kind"] in ("struct", "enum") and "::" not in k:
                    m = re.match(r"^(?:pub )?(?:struct|enum) \w+ < ([^<>{(;]*) >", modules.norm(v["text"]))
                    if m and "const" in m.group(1):
                        defs.setdefault(k, {})[f] = [x.split(":")[0].replace("const", "").strip() for x in m.group(1).split(",") if x.strip()]
    for f in FK + ["types"]:
        for n in ("mainnet", "minimal"):
            p = "%s%s/presets/%s.rs" % (E, f, n)
            if not os.path.exists(REPO + "/" + p):
                continue
            for k, v in sorted(modules.verbatim(exe, [p]).items()):
                if not isinstance(v, dict) or v["kind"] != "type" or "::" in k:
                    continue
                m = re.match(r"^(?:([\w ]+(?: :: \w+)*?) :: )?(\w+) < (.*?),? >$", modules.norm(v["ty"]))
                if not m:
                    continue
                order = [f] if f == "types" else FK[:FK.index(f) + 1][::-1]
                home = next((g for g in order if g in defs.get(m.group(2), {})), None)
                if home is None:
                    unknown.append((f, n, k, m.group(2)))
                    continue
                ps = defs[m.group(2)][home]
                vals = []
                for q, a in zip(ps, [x.strip() for x in m.group(3).split(",")]):
                    look = FK[::-1] if f == "types" else order
                    want = next((T["consts"][s][q] for g in look for s in ("%s::%s" % (g, n), "%s::constants" % g, "%s::blob_sidecar" % g) if q in T["consts"].get(s, {})), None)
                    if want is None:
                        want = T["consts"]["primitives"].get(q)
                    vals.append((q, a, want))
                out.append(("%s::%s" % (f, n), k, f, m.group(2), vals))
    return out, unknown
