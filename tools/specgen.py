"""The real generator (a copy of /repo/spec-gen's sources, built on every run) on fixed and random source trees."""
import gzip, json, os, random, re, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import VERIF, REPO
FK = ["phase0", "altair", "bellatrix", "capella", "deneb", "electra"]


def build():
    d = vlib.TARGET + "/specgen"
    os.makedirs(d + "/src", exist_ok=True)
    for f in os.listdir(d + "/src"):
        p = d + "/src/" + f
        shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
    shutil.copytree(REPO + "/spec-gen/src", d + "/src", dirs_exist_ok=True)
    m = open(d + "/src/main.rs").read()
    m, k = re.subn(r"\bfn\s+main\s*\(\s*\)", "fn app_main()", m)
    if k != 1:
        raise vlib.ToolError("spec-gen: no main function")
    open(d + "/src/main.rs", "w").write(m + "\nmod vharness;\n#[allow(dead_code)]\nfn main() { if std::env::args().len() > 2 { vharness::run() } else { app_main() } }\n")
    shutil.copy(VERIF + "/specgen/vharness.rs", d + "/src/vharness.rs")
    ws = open(REPO + "/Cargo.toml").read()
    dep = {k: re.search(r"(?ms)^%s\s*=\s*(\"[^\"]*\"|\{.*?\})\s*$" % k, ws).group(1) for k in ("syn", "prettyplease", "quote", "clap", "convert_case")}
    open(d + "/Cargo.toml", "w").write('[package]\nname = "specgen"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\n' + "".join("%s = %s\n" % x for x in dep.items()) + "[workspace]\n")
    shutil.copy(VERIF + "/specgen/Cargo.lock", d + "/Cargo.lock") if os.path.exists(VERIF + "/specgen/Cargo.lock") else None
    r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--manifest-path", d + "/Cargo.toml"], env=dict(vlib.ENV, CARGO_TARGET_DIR=vlib.TARGET + "/specgen_target", RUSTFLAGS="-Awarnings"), capture_output=True, text=True, timeout=600)
    if r.returncode != 0:
        raise vlib.ToolError("spec-gen does not build: " + r.stderr[-2000:])
    return vlib.TARGET + "/specgen_target/debug/specgen"


def nn(s):
    """layout-insensitive text: no blanks, braces, commas, elided lifetimes"""
    return re.sub(r"[\s{},]|'_|'a", "", s).replace("<>", "")


def load():
    return json.loads(gzip.open(VERIF + "/specgen/snapshot.json.gz").read())


def write_tree(d, files):
    for f in FK + ["types"]:
        os.makedirs("%s/ethereum-consensus/src/%s/spec" % (d, f), exist_ok=True)
    for p, t in files.items():
        os.makedirs(os.path.dirname(d + "/" + p), exist_ok=True)
        open(d + "/" + p, "w").write(t)


def generate(exe, d, what):
    r = subprocess.run([exe, "gen", d, what, d + "/out.json"], capture_output=True, text=True, timeout=300)
    if r.returncode != 0:
        return None, (r.stderr or r.stdout)[-600:]
    return json.load(open(d + "/out.json")), None


def compare(got, want, own=None):
    """differences of one module: (got, want are {"uses": [..], "items": {..}})"""
    out = []
    if "error" in got:
        return ["not generated: " + got["error"]]
    gu, wu = list(got["uses"]), list(want["uses"])
    for u in sorted(set(gu) | set(wu)):
        a, b = gu.count(u), wu.count(u)
        if a != b:
            out.append("`use %s` appears %d times, expected %d" % (u, a, b))
    gi = {nn(k): v for k, v in got["items"].items()}
    wi = {nn(k): v for k, v in want["items"].items()}
    for k in sorted(set(gi) | set(wi)):
        if k not in gi:
            out.append("`%s` is missing" % k[-120:])
        elif k not in wi:
            out.append("`%s` should not be there" % k[-120:])
        elif nn(gi[k]) != nn(wi[k]):
            x, y = nn(gi[k]), nn(wi[k])
            p = next((i for i, (c, e) in enumerate(zip(x, y)) if c != e), min(len(x), len(y)))
            out.append("`%s` differs: got ..%s.. expected ..%s.." % (k[-80:], x[max(0, p - 40):p + 80], y[max(0, p - 40):p + 80]))
    return out


def order(exe):
    r = subprocess.run([exe, "order", "x", "x"], capture_output=True, text=True, timeout=60)
    ls = [l for l in r.stdout.splitlines() if l]
    if not ls or ls[-1] != "compared 36":
        return ["the fork order could not be computed: " + (r.stderr or r.stdout)[-300:]], 0
    return ["fork order: " + l for l in ls[:-1]], 36


def golden(exe, d, snap):
    write_tree(d, snap["files"])
    got, err = generate(exe, d, "forks,types")
    if err:
        return ["the generator fails on the recorded sources: " + err], 0
    out, n = [], 0
    for k, w in snap["expected"].items():
        n += len(w["uses"]) + len(w["items"])
        out += ["recorded sources, module %s: %s" % (k, m) for m in compare(got.get(k, {"error": "absent"}), w)]
    return out, n


SAMPLES = []
FILTERED = ["get_unslashed_attesting_indices", "get_source_deltas", "get_attesting_balance", "get_attestation_deltas", "process_participation_record_updates", "get_matching_head_attestations"]


def tree(rng, mods):
    """random sources of the six forks and, from the rule `latest definition not after the fork, exactly once`, what has to come out"""
    files, want = {}, {}
    live = {}          # name -> (kind, fork of definition, module, data)
    names = {"c": ["ZC%d" % i for i in range(6)], "s": ["State"] + ["Zs%d" % i for i in range(4)], "k": ["Zk%d" % i for i in range(3)],
             "t": ["Zt%d" % i for i in range(4)], "r": ["Zr%d" % i for i in range(3)], "f": ["zf%d" % i for i in range(9)] + FILTERED}
    params = ["A", "B"]
    for fi, fork in enumerate(FK):
        params = params + ["P%d" % fi] if fi and rng.random() < .7 else list(params)
        if rng.random() < .3:
            rng.shuffle(params)
        own, priv = {}, []
        def place():
            return rng.choice(mods[fork])
        own["State"] = ("s", place(), list(params))
        for kind, p in (("c", .35), ("s", .45), ("k", .4), ("t", .35), ("r", .3), ("f", .3)):
            for n in names[kind]:
                if n in own or (kind == "k" and n in live):
                    continue
                if kind == "f" and n in FILTERED and fi == 1:
                    continue
                if rng.random() < (p if fi else .8):
                    own[n] = (kind, place(), None)
                elif rng.random() < .1:
                    priv.append((kind, n, place()))
        visible = {n: v for n, v in live.items()}
        for n in list(own):
            kind, m, _ = own[n]
            if kind in "sk" and n != "State":
                own[n] = (kind, m, sorted(rng.sample(params, rng.randint(1, len(params))), key=params.index))
            if kind == "k":
                own[n] = (kind, m, ["N"])
        conts = {n: v[3] for n, v in live.items() if v[0] in "sk"}
        conts.update({n: v[2] for n, v in own.items() if v[0] in "sk"})
        text = {m: ["use crate::primitives::*;\n"] for m in mods[fork]}
        for n in own:
            kind, m, a = own[n]
            if kind == "f":
                r = rng.random()
                if r < .25:
                    f = {"gen": [], "args": [("x", "u64", None)], "ret": "u64", "loc": None}
                elif r < .4:
                    ks = [c for c in conts if c.startswith("Zk")]
                    f = {"gen": ["N"], "args": [("x", c, ["N"]) for c in ks[:1]], "ret": "u64", "loc": None} if ks else {"gen": [], "args": [], "ret": "u64", "loc": None}
                else:
                    cs = ["State"] + rng.sample([c for c in conts if c.startswith("Zs")], rng.randint(0, min(2, len([c for c in conts if c.startswith("Zs")]))))
                    rng.shuffle(cs)
                    f = {"gen": list(conts["State"]), "args": [("a%d" % i, c, list(conts[c])) for i, c in enumerate(cs)], "ret": "u64", "loc": ("State", list(conts["State"])) if rng.random() < .5 else None}
                f["body"] = "let y = helper_%d(1, 2); y + %d" % (fi, rng.randint(0, 99))
                own[n] = a = f
                text[m].append("pub " + fn_text(n, f))
                own[n] = (kind, m, f)
            else:
                text[m].append("pub " + item_text(kind, n, a))
        for kind, n, m in priv:
            if n not in own and kind != "f":
                text[m].append(item_text(kind, n, ["A"]))
        for m in mods[fork]:
            l = text[m]
            if rng.random() < .4:
                l.append("use std::mem;\n")
            if rng.random() < .3:
                l.append("mod tests_%s { }\n" % m)
            h, b = l[:1], l[1:]
            rng.shuffle(b)
            files["ethereum-consensus/src/%s/%s.rs" % (fork, m)] = "".join(h + b)
        for e in ("beacon_block", "beacon_state", "blinded_beacon_block", "execution_payload"):
            files.setdefault("ethereum-consensus/src/%s/%s.rs" % (fork, e), "")
        new = {}
        for n, (kind, m, a) in own.items():
            new[n] = (kind, fork, m, a, True)
        for n, (kind, fk, m, a, imp) in live.items():
            if n in new:
                continue
            if kind == "f":
                if fork == "altair" and n in FILTERED:
                    continue
                red = [c for _, c, _ in a["args"] if c in own]
                if red:
                    g, seen = json.loads(json.dumps(a)), []
                    for c in red:
                        seen += [x for x in own[c][2] if x not in seen]
                    g["gen"] = seen
                    g["args"] = [(v, c, own[c][2] if c in own else p) for v, c, p in g["args"]]
                    if g["loc"] and g["loc"][0] in own:
                        g["loc"] = (g["loc"][0], own[g["loc"][0]][2])
                    new[n] = (kind, fork, m, g, False)
                    continue
            new[n] = (kind, fk, m, a, imp)
        live = new
        want[fork] = {"uses": sorted("pub crate::%s::%s::%s" % (fk, m, n) for n, (k, fk, m, a, imp) in live.items() if imp),
                      "items": {"fn " + n: "pub " + fn_text(n, a) for n, (k, fk, m, a, imp) in live.items() if not imp}}
    return files, want


def item_text(kind, n, a):
    if kind == "c":
        return "const %s: u64 = 3;\n" % n
    if kind in "sk":
        return "struct %s<%s> { pub x: u64 }\n" % (n, ", ".join("const %s: usize" % x for x in a))
    if kind == "t":
        return "type %s = u64;\n" % n
    return "trait %s { fn go(&self); }\n" % n


def fn_text(n, f):
    g = "<%s>" % ", ".join("const %s: usize" % x for x in f["gen"]) if f["gen"] else ""
    ar = ", ".join("%s: &mut %s<%s>" % (v, c, ", ".join(p)) if p else "%s: %s" % (v, c) for v, c, p in f["args"])
    loc = "let z: &State<%s> = w(1); " % ", ".join(f["loc"][1]) if f["loc"] else ""
    return "fn %s%s(%s) -> %s { %s%s }\n" % (n, g, ar, f["ret"], loc, f["body"])


def trees(exe, d, snap, seed, n):
    out, k, items = [], 0, 0
    for i in range(n):
        t = "%s/t%d" % (d, i)
        files, want = tree(random.Random("%s/%d" % (seed, i)), snap["modules"])
        if not SAMPLES:
            SAMPLES.append({"sources": {p: x for p, x in files.items() if x}, "expected": want})
        write_tree(t, files)
        got, err = generate(exe, t, "forks")
        k += 1
        if err:
            out.append("random sources %d: the generator fails: %s" % (i, err))
        else:
            base = {f: {u for u in snap["expected"][f]["uses"] if not re.match(r"pub crate::(%s)::\w+::" % "|".join(FK), u) or "::fork::upgrade_to" in u} for f in FK}
            for f in FK:
                g = got[f]
                if "error" not in g:
                    for u in base[f]:
                        if u in g["uses"]:
                            g["uses"].remove(u)
                items += len(want[f]["uses"]) + len(want[f]["items"])
                out += ["random sources %d, module %s: %s" % (i, f, m) for m in compare(g, want[f])[:4]]
        if not out:
            shutil.rmtree(t)
        if len(out) > 12:
            break
    return out, k, items


def check(seed, n):
    """-> messages, coverage"""
    exe = build()
    snap = load()
    d = tempfile.mkdtemp(prefix="specgen-")
    try:
        o, no = order(exe)
        g, ng = golden(exe, d + "/golden", snap)
        t, k, ni = trees(exe, d, snap, seed, n)
        return o + g + t, {"fork_pairs": no, "recorded_module_entries": ng, "random_source_trees": k, "random_module_entries": ni}
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    m, c = check(sys.argv[1] if len(sys.argv) > 1 else "1", int(sys.argv[2]) if len(sys.argv) > 2 else 20)
    print("\n".join(x[:400] for x in m[:20]), c)
