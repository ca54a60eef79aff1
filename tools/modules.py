"""Stand-alone modules: the text of the real items, with contracts, through the verifier.

contracts/*.m:
  @@module NAME file=PATH[,PATH]      start of a module
  @@prelude                           specification text and models of the library functions called
  @@subst                             one mechanical rewriting per line: REGEX  =>  REPLACEMENT   (on the token text)
  @@fields STRUCT NAME                the field names of STRUCT in order, as a sequence of numbers (SYM_<field>)
  @@enum NAME / @@struct NAME / @@const NAME..   items taken over as they are
  @@fn NAME                           contract; hint sections `@ start`, `@ loop k`, `@ loopstart k`, `@ before PATTERN`
  @@impl TYPE HEADER                  how the impl block of TYPE is written
"""
import json, os, re, subprocess, tempfile
import vlib
from vlib import VERIF, REPO

ANY = r"[^;{}]*"


def load():
    mods = []
    for fn in sorted(os.listdir(VERIF + "/contracts")):
        if not fn.endswith(".m"):
            continue
        cur = sec = None
        for ln in open(VERIF + "/contracts/" + fn):
            ln = ln.rstrip("\n")
            if ln.startswith("@@"):
                w = ln[2:].split(" ")
                if w[0] == "module":
                    cur = {"name": w[1], "files": [], "prelude": [], "subst": [], "items": [], "fns": {}, "impls": {}, "opts": {}}
                    for x in w[2:]:
                        k, v = x.split("=", 1)
                        if k == "file":
                            cur["files"] = v.split(",")
                        else:
                            cur["opts"][k] = v
                    mods.append(cur)
                    sec = None
                elif w[0] == "prelude":
                    sec = cur["prelude"]
                elif w[0] == "subst":
                    sec = cur["subst"]
                elif w[0] == "impl":
                    cur["impls"][w[1]] = " ".join(w[2:])
                    sec = None
                elif w[0] == "fields":
                    cur["items"].append(("fields", w[1] + " " + w[2]))
                    sec = None
                elif w[0] in ("enum", "enumr", "struct", "const", "type"):
                    cur["items"] += [(w[0], n) for n in w[1:]]
                    sec = None
                elif w[0] == "fn":
                    sec = []
                    cur["fns"][w[1]] = {"parts": {"contract": sec}, "opts": dict(x.split("=", 1) for x in w[2:])}
                    f = cur["fns"][w[1]]
                else:
                    raise vlib.ToolError("bad section " + ln)
            elif ln.startswith("@ ") and sec is not None:
                sec = f["parts"].setdefault(ln[2:].strip(), [])
            elif sec is not None:
                sec.append(ln)
    import consts
    mods.append({"name": "constants", "files": [f for _, f in consts.SECT], "prelude": consts.PRELUDE.splitlines(), "subst": ["%s => %s" % x for x in consts.SUBST],
                 "items": [], "fns": {n: {"parts": {}, "opts": {}} for n in consts.all_names()}, "impls": {}, "opts": {}})
    mods.append({"name": "forktypes", "files": [], "prelude": [], "subst": [], "items": [], "fns": {}, "impls": {}, "opts": {}})  # built from the field lists: tools/dispatch.py
    return mods


_VB = {}


def verbatim(exe, files):
    key = tuple(files)
    if key in _VB:
        return _VB[key]
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
        json.dump({"verbatim": ["%s/%s" % (REPO, x) for x in files]}, f)
    try:
        r = subprocess.run([exe, f.name], capture_output=True, text=True, timeout=120)
    finally:
        os.unlink(f.name)
    if r.returncode != 0:
        raise vlib.ToolError("extractor failed: " + r.stderr[-1500:])
    j = json.loads(r.stdout)
    out = {}
    for x in files:
        for k, v in j["%s/%s" % (REPO, x)].items():
            out.setdefault(k, v)
            out.setdefault("_".join(x[:-3].split("/")[-2:]) + "::" + k, v)                         # altair_beacon_state::BeaconState
            out.setdefault(os.path.basename(x)[:-3] + "::" + k, v)                                 # the item of one particular file
            if isinstance(out[k], dict):
                out[k].setdefault("file", x)
    _VB[key] = out
    return out


def norm(text):
    """one canonical spacing, so that the rewriting rules do not depend on the printer"""
    out = []
    for i, part in enumerate(re.split(r'(b?"(?:[^"\\]|\\.)*")', text)):
        out.append(part if i % 2 else re.sub(r"\s+", " ", re.sub(r"([()\[\]{},;])", r" \1 ", part)))
    return "".join(out).strip()


def subst(text, rules):
    text = norm(text)
    for rx, rep in rules:
        text = re.sub(rx, rep, text)
    return text


def big(m):
    """an integer literal beyond 128 bits, which the verifier's front end cannot read"""
    n = int(m.group(1), 0)
    return "(%dnat * 0x10000000000000000 * 0x10000000000000000 + %dnat) as nat" % (n >> 128, n & (2**128 - 1))


def assemble(m, items, verify):
    rules = [tuple(x.strip() for x in l.split(" => ", 1)) for l in m["subst"] if " => " in l]
    meta = {"missing": [], "problems": [], "verified": [], "origins": {}, "ranges": [], "loops": {}, "callees": {}}
    parts = [("(prelude)", "#![verifier::loop_isolation(false)]\n#![allow(warnings)]\nuse vstd::prelude::*;\nverus! {\nglobal size_of usize == 8;\n" + "\n".join(m["prelude"]) + "\n")]
    syms = {}
    for kind, n in m["items"]:
        it = items.get(n.split(" ")[0])
        if it is None:
            meta["missing"].append(n)
            continue
        if kind == "fields":                                                                     # a struct's field names, in order, as numbers
            for x in it["fields"]:
                if x not in syms:
                    syms[x] = len(syms) + 1
                    parts.append(("(item)", "pub const SYM_%s : u64 = %d ;\n" % (x, syms[x])))
            parts.append(("(item)", "pub open spec fn %s() -> Seq<int> { seq![%s] }\n" % (n.split(" ")[1], ", ".join("%dint" % syms[x] for x in it["fields"]))))
            continue
        n0 = n.split("::")[-1]
        if re.match(r"kzg::BYTES|(\w+_)?(mainnet|minimal)::", n):
            n0 = n.replace("::", "_")
        if kind == "const":
            if re.match(r'^b"', it["expr"]):
                bs = eval(it["expr"])
                it = dict(it, ty="[u8 ; %d]" % len(bs), expr="[%s]" % ", ".join("%du8" % b for b in bs))
            parts.append(("(item)", subst("pub const %s : %s = %s ;" % (n0, it["ty"], it["expr"]), rules) + "\n"))
        elif kind == "type":
            parts.append(("(item)", subst("pub type %s = %s ;" % (n0, it["ty"]), rules) + "\n"))
        elif kind == "struct":
            t = re.sub(r"(?<=[{,]) (?:pub )?(\w+) :(?!:)", r" pub \1 :", subst(it["text"], rules))
            t = re.sub(r"^((?:pub )?struct \w+(?: ?<[^()]*>)? \() (?!pub )", r"\1 pub ", t)
            parts.append(("(item)", t + "\n"))
        elif kind == "enumr":                                                                    # an enum that is not Copy
            parts.append(("(item)", "pub " + re.sub(r"^pub ", "", subst(it["text"], rules)) + "\n"))
        else:
            parts.append(("(item)", "#[derive(Clone, Copy, PartialEq, Eq, Structural)]\n" + subst(it["text"], rules) + "\n"))
    groups = {}
    for n, c in m["fns"].items():
        it = items.get(n)
        if it is None or it.get("kind") != "fn":
            meta["missing"].append(n)
            continue
        v = n in verify
        if m["opts"].get("assoc"):                                                               # `Self::Err`: the associated type of the impl
            it = dict(it, ret=re.sub(r"Self :: (\w+)", lambda x: (it["impl"] or {}).get("assoc", {}).get(x.group(1), x.group(0)), it["ret"] or "") or None)
        t = emit(n, it, c, v, rules, meta)
        if v:
            meta["verified"].append(n)
        meta["origins"][n] = "%s:%d" % (it["file"], it["line"])
        meta["loops"][n] = it["loops"]
        meta["callees"][n] = it["callees"]
        segs = n.split("::")[:-1]
        ty = next((x for x in segs if x[0].isupper()), None)
        groups.setdefault((tuple(x for x in segs if x[0].islower()), ty), []).append((n, t))
    for ms in dict.fromkeys(k[0] for k in groups):
        for x in ms:
            parts.append(("(impl)", "pub mod " + x + " { use super::*; use vstd::prelude::*;\n"))
        for (ms1, ty), fs in groups.items():
            if ms1 != ms:
                continue
            if ty:
                parts.append(("(impl)", m["impls"].get(ty, "impl " + ty) + " {\n" + m.get("implbody", {}).get(ty, "") + "\n"))
            parts += fs
            if ty:
                parts.append(("(impl)", "}\n"))
        parts.append(("(impl)", "}" * len(ms) + "\n"))
    parts.append(("(end)", "}\nfn main() {}\n"))
    out, line = "", 1
    for n, t in parts:
        t = re.sub(r"\b(0x[0-9a-f]{33,}|\d{40,})\b", big, t)
        if not t.endswith("\n"):
            t += "\n"
        k = t.count("\n")
        meta["ranges"].append((line, line + k - 1, n))
        out += t
        line += k
    return out, meta


def emit(n, it, c, verify, rules, meta):
    p = {k: "\n".join(v) for k, v in c["parts"].items()}
    name = n.split("::")[-1]
    g = "<%s>" % it["generics"] if it["generics"] else ""
    ps = ", ".join(a if not t else "%s : %s" % (a, t) for a, t in it["params"])
    head = "%sfn %s%s(%s)" % ("" if c["opts"].get("nopub") else "pub ", name, g, ps)
    if it["ret"]:
        head += " -> (r: %s)" % it["ret"]
    if it["where"]:
        head += " " + it["where"]
    head = subst(head, rules)
    attrs = "#[verifier::exec_allows_no_decreases_clause]\n" if c["opts"].get("noterm") else ""
    if not verify:
        return "#[verifier::external_body]\n" + head + "\n" + p.get("contract", "") + "\n{ unimplemented!() }\n"
    body = subst(it["body"], rules)
    used = {"contract"}
    def loop(m):
        k = m.group("k")
        used.update({"loop " + k, "loopstart " + k})
        return "%s\n%s\n{\n%s" % (m.group("h"), p.get("loop " + k, ""), p.get("loopstart " + k, ""))
    body = re.sub(r"(?P<h>\b(?:while|for|loop)\b(?:(?!\b(?:while|for|loop)\b)[^;{}])*?)\{\s*__loop ! \( (?P<k>\d+) \) ;", loop, body)
    if "start" in p:
        body = re.sub(r"^\{", lambda _: "{\n" + p["start"] + "\n", body, count=1)
        used.add("start")
    for k in p:
        if k.startswith("before ") or k.startswith("after "):
            w, pat = k.split(" ", 1)
            i = re.search(pat, body)
            if i:
                q = i.start() if w == "before" else i.end()
                body = body[:q] + "\n" + p[k] + "\n" + body[q:]
                used.add(k)
    for k in p:
        if k not in used and p[k].strip():
            meta["problems"].append("%s: proof hint anchor '%s' not found" % (n, k))
    body = re.sub(r"__loop ! \( \d+ \) ;", "", body)
    body = re.sub(r" ; ", " ;\n", body)
    return attrs + head + "\n" + p.get("contract", "") + "\n" + body + "\n"


def resolve(m, exe):
    """a module whose contracts are generated: with its functions filled in"""
    if m["name"] != "forktypes" or "built" in m:
        return m
    import dispatch
    m, items = dispatch.build(exe)
    return dict(m, built=items)


def verify(m, exe, outdir, rlimit=40):
    if m["name"] == "constants":
        import consts
        return consts.verify(m, exe, outdir, rlimit)
    m = resolve(m, exe)
    items = m.get("built") or verbatim(exe, m["files"])
    todo = [n for n, c in m["fns"].items() if not c["opts"].get("assume")]
    undecided = {}
    for attempt in range(6):
        text, meta = assemble(m, items, todo)
        path = os.path.join(outdir, "mod_%s.rs" % m["name"])
        open(path, "w").write(text)
        res = vlib.run_retry(path, rlimit, meta)
        comp = {}
        for e in res["errors"]:
            if vlib.classify(e) == "compile":
                comp.setdefault(vlib.owner(meta, e["lines"]), e)
        if not comp:
            break
        bad = [n for n in comp if n in todo]
        if not bad or any(n is None or n.startswith("(") for n in comp):
            for n in todo:
                undecided[n] = "verifier front end: " + [v for k, v in comp.items() if k is None or k not in todo][0]["rendered"][:900]
            break
        for n in bad:
            undecided[n] = "verifier front end: " + comp[n]["rendered"][:900]
            todo.remove(n)
    for n in meta["missing"]:
        undecided.setdefault(n, "anchor not found")
    failed, spec_fail = {}, []
    for e in res["errors"]:
        k = vlib.classify(e)
        if k == "compile":
            continue
        n = vlib.owner(meta, e["lines"])
        if k == "rlimit":
            undecided[n] = "solver resource limit"
        elif n and n.startswith("("):
            spec_fail.append(e["rendered"])
        else:
            failed.setdefault(n, []).append(e["rendered"])
    for n in list(failed):
        if n in undecided:
            del failed[n]
    proved = [n for n in meta["verified"] if n not in failed and n not in undecided]
    if not (res.get("results") or {}).get("verified") and not failed:
        for n in meta["verified"]:
            undecided.setdefault(n, "verifier gave no result: " + (res["errors"][0]["rendered"][:600] if res["errors"] else str(res.get("bad_output"))[:300]))
        proved = []
    meta["assumed_contract"], meta["dropped"], meta["unsupported"], meta["uncontracted"] = [], {}, {}, []
    meta["subst"] = m["subst"]
    return {"fork": "module " + m["name"], "proved": proved, "failed": failed, "undecided": undecided, "spec_fail": spec_fail, "meta": meta, "res": res, "path": path, "items": items}
