"""C30: contracts of the fork-polymorphic containers (ethereum-consensus/src/types/*.rs), written from the field lists of the forks' containers.

Types are erased to opaque names (two different types keep different names); the bodies are the real ones.
For an enum E over variants V1..Vn, each holding the container of its fork, and a field f of at least one of them:
  f / f_mut         gives the field of the container held, in an Option exactly when some variant has no such field
  <fork>[_mut]      gives the container held exactly when it is of that fork
  version           is the fork held
  from              holds the container given
  deserialize       decodes as the latest fork whose container the text has all the fields of
"""
import os, re
import modules, vlib

E = "ethereum-consensus/src/"
T = E + "types/"
FILES = {"beacon_block": ["BeaconBlock"], "beacon_block_body": ["BeaconBlockBody"], "beacon_state": ["BeaconState"], "blinded_beacon_block": ["BlindedBeaconBlock"],
         "blinded_beacon_block_body": ["BlindedBeaconBlockBody"], "execution_payload": ["ExecutionPayload"], "execution_payload_header": ["ExecutionPayloadHeader"],
         "signed_beacon_block": ["SignedBeaconBlock"], "signed_blinded_beacon_block": ["SignedBlindedBeaconBlock"]}
CONT = [c for l in FILES.values() for c in l]
FORKS = ["phase0", "altair", "bellatrix", "capella", "deneb"]
HOME = {"BeaconBlock": "beacon_block", "BeaconBlockBody": "beacon_block", "SignedBeaconBlock": "beacon_block", "BeaconState": "beacon_state", "BlindedBeaconBlock": "blinded_beacon_block",
        "BlindedBeaconBlockBody": "blinded_beacon_block", "SignedBlindedBeaconBlock": "blinded_beacon_block", "ExecutionPayload": "execution_payload", "ExecutionPayloadHeader": "execution_payload"}
PRIM = {"u64", "usize", "bool", "u8"}


class Erase:
    def __init__(self):
        self.opaque = set()

    def head(self, ty):
        ty = re.sub(r"'\w+", "", modules.norm(ty))
        return [x for x in re.findall(r"[A-Za-z_]\w*", ty) if not re.match(r"^[A-Z][A-Z0-9_]+$", x) or x == "U256"]

    def ty(self, t, fork=None, cont=()):
        """erased type; `fork`: whose container definition it stands in"""
        t = modules.norm(t).strip()
        m = re.match(r"^& (?:('\w+) )?(mut )?(.*)$", re.sub(r"&(?! )", "& ", t))
        if m:
            return "&%s%s" % (m.group(1) + " " if m.group(1) else "", (m.group(2) or "") + self.ty(m.group(3), fork, cont))
        m = re.match(r"^Option < (.*?),? >$", t)
        if m:
            return "Option<%s>" % self.ty(m.group(1), fork, cont)
        ids = self.head(t)
        if ids == ["Self"] or ids == ["Version"]:
            return ids[0]
        if ids[0] in FORKS and len(ids) == 2:
            return "%s__%s" % tuple(ids)
        if re.sub(r"Ref(Mut)?$", "", ids[0]) in CONT and len(ids) == 1:
            if fork:
                return "%s__%s" % (fork, ids[0])
            return ids[0] + ("<'_>" if ids[0] not in CONT else "")
        if len(ids) == 1 and ids[0] in PRIM:
            return ids[0]
        n = "T_" + "_".join(ids)
        self.opaque.add(n)
        return n


def build(exe):
    er = Erase()
    src, keys = {}, {}
    for c in CONT:
        for f in FORKS:
            it = modules.verbatim(exe, [E + "%s/%s.rs" % (f, HOME[c])]) if os.path.exists("%s/%s%s/%s.rs" % (vlib.REPO, E, f, HOME[c])) else {}
            if c in it and isinstance(it[c], dict) and it[c]["kind"] == "struct":
                src[f, c] = [(n, er.ty(t, f)) for n, t in zip(it[c]["fields"], it[c]["types"])]
                keys[f, c] = json_keys(it[c])
    prelude = ["#[derive(Clone, Copy, PartialEq, Eq, Structural)]\npub enum Version { Phase0, Altair, Bellatrix, Capella, Deneb, Electra }",
               "pub trait VFrom<X>: Sized { #[verifier::prophetic] spec fn holds(x: X, r: Self) -> bool; fn from(x: X) -> (r: Self) ensures Self::holds(x, r); }"]
    items, fns, impls, ibody = {}, {}, {}, {}
    prelude.append("""// ---- JSON values: which containers they have all the fields of ----
#[verifier::external_body] pub struct Json { _p: u8 }
pub trait VDe: Sized { type Error; spec fn text(&self) -> Option<Json>; fn custom() -> Self::Error; fn value(self) -> (r: core::result::Result<Json, Self::Error>) ensures r is Ok <==> self.text() is Some, r matches Ok(v) ==> self.text() == Some(v); }
pub trait VDec: Sized { spec fn dec(v: Json) -> Option<Self>; fn deserialize(v: &Json) -> (r: core::result::Result<Self, ()>) ensures r is Ok <==> Self::dec(*v) is Some, r matches Ok(x) ==> Self::dec(*v) == Some(x); }""")
    for (f, c), fl in src.items():
        prelude.append("pub struct %s__%s { %s }" % (f, c, ", ".join("pub %s: %s" % x for x in fl)))
        prelude.append("pub uninterp spec fn dec_%s__%s(v: Json) -> Option<%s__%s>;\nimpl VDec for %s__%s { open spec fn dec(v: Json) -> Option<Self> { dec_%s__%s(v) } #[verifier::external_body] fn deserialize(v: &Json) -> (r: core::result::Result<Self, ()>) { unimplemented!() } }" % ((f, c) * 4))
    lem, known, unread = json_laws(src, keys)
    prelude += lem
    for stem, cs in FILES.items():
        it = modules.verbatim(exe, [T + stem + ".rs"])
        for c in cs:
            vs = [f for f in FORKS if (f, c) in src]
            for kind in ("", "Ref", "RefMut"):
                en = c + kind
                if en not in it:
                    continue
                lt = "<'a>" if kind else ""
                inner = [er.ty(p[0]) for p in it[en]["payloads"]]
                prelude.append("pub enum %s%s { %s }" % (en, lt, ", ".join("%s(%s)" % x for x in zip(it[en]["variants"], inner))))
                for k, v in it.items():
                    if not isinstance(v, dict) or v.get("kind") != "fn" or not k.startswith(en + "::"):
                        continue
                    name = k.split("::")[-1]
                    v = dict(v, file=T + stem + ".rs", generics="", where=None)
                    if "::From<" in k:
                        p = er.ty(v["params"][0][1])
                        fk = re.match(r"&'a (?:mut )?(\w+)__", p)
                        if not fk:
                            continue
                        key = "F_%s_%s::from" % (fk.group(1), en)
                        v.update(params=[[v["params"][0][0], p]], ret="Self")
                        impls["F_%s_%s" % (fk.group(1), en)] = "impl<'a> VFrom<%s> for %s<'a>" % (p, en)
                        V = fk.group(1).capitalize()
                        ibody["F_%s_%s" % (fk.group(1), en)] = "#[verifier::prophetic] open spec fn holds(x: %s, r: Self) -> bool { %s }" % (
                            p, "r matches %s::%s(i) && *i == *x%s" % (en, V, " && *final(i) == *final(x)" if "mut" in p else ""))
                        fns[key] = {"parts": {"contract": []}, "opts": {"nopub": "1"}}
                        items[key] = v
                        continue
                    if name == "from":
                        continue
                    if name == "deserialize":
                        key = en + "::deserialize"
                        if key in fns:
                            continue
                        v.update(params=[["deserializer", "D"]], ret="core::result::Result<Self, D::Error>", generics="D: VDe")
                        last = "core::result::Result::<%s, D::Error>::Ok" % en
                        lines, cond = [], "deserializer.text() is Some"
                        for f in reversed(vs):
                            d = "dec_%s__%s(deserializer.text()->0)" % (f, c)
                            lines.append("%s && %s is Some ==> (r is Ok && r->Ok_0 == %s::%s(%s->0))," % (cond, d, en, f.capitalize(), d))
                            cond += " && %s is None" % d
                        lines.append("deserializer.text() is None ==> r is Err, %s ==> r is Err," % cond)
                        # the text of a value: that of the container it holds (serde's untagged representation)
                        un = "serde (untagged)" in it[en]["attrs"]
                        prelude.append("pub %s spec fn enc_%s(e: %s) -> Json%s" % ("open" if un else "uninterp", en, en, " { match e { %s } }" % ", ".join("%s::%s(x) => enc_%s__%s(x)" % (en, f.capitalize(), f, c) for f in vs) if un else ";"))
                        lines.append("forall|e: %s| deserializer.text() == Some(#[trigger] enc_%s(e)) ==> r is Ok && r->Ok_0 == e," % (en, en))
                        hint = ["proof { assert forall|e: %s| deserializer.text() == Some(#[trigger] enc_%s(e)) implies %s by { match e { %s } } }" % (
                            en, en, "({ let v = enc_%s(e); match e { %s } })" % (en, ", ".join("%s::%s(x) => %s" % (en, f.capitalize(), " && ".join(["dec_%s__%s(v) == Some(x)" % (f, c)] + ["dec_%s__%s(v) is None" % (g, c) for g in vs[i + 1:]])) for i, f in enumerate(vs))),
                            ", ".join("%s::%s(x) => { ax_enc_%s__%s(x); %s }" % (en, f.capitalize(), f, c, " ".join("tell_%s__%s__%s(x);" % (c, f, g) for g in vs[i + 1:] if (c, f, g) in known)) for i, f in enumerate(vs)))]
                        if any((f, c) in unread for f in vs):
                            v["loops"] = -1                                                    # an attribute whose meaning is not modelled: no verdict from the proof
                        fns[key] = {"parts": {"contract": ["ensures"] + lines, "start": hint}, "opts": {}}
                        items[key] = v
                        continue
                    key = en + "::" + name
                    ct = contract(c, kind, en, name, v, vs, src)
                    if ct is None:
                        continue
                    v["params"] = [[x[0], ""] for x in v["params"][:1]]
                    v["ret"] = er.ty(v["ret"])
                    fns[key] = {"parts": {"contract": [ct]}, "opts": {}}
                    items[key] = v
                impls[en] = "impl%s %s%s" % (lt, en, lt)
    # every accessor the field lists call for is there
    for stem, cs in FILES.items():
        for c in cs:
            for f in FORKS:
                for n, _ in src.get((f, c), []):
                    fns.setdefault("%s::%s" % (c, n), {"parts": {"contract": []}, "opts": {}})
    prelude[2:2] = ["#[verifier::external_body] #[derive(Clone, Copy)] pub struct %s { _p: u8 }" % n for n in sorted(er.opaque)]
    return {"name": "forktypes", "files": [], "prelude": prelude, "subst": SUBST, "items": [], "fns": fns, "impls": impls, "implbody": ibody, "opts": {}}, items


def json_keys(it):
    """[(key, required, written)] per field, as serde's derive reads the attributes; None: an attribute of another meaning"""
    if any(a.startswith("serde") for a in it["attrs"]) or not any("Deserialize" in a and "Serialize" in a for a in it["attrs"]):
        return None
    out = []
    for n, t, at in zip(it["fields"], it["types"], it["fattrs"]):
        key, req, wr = n, not modules.norm(t).startswith("Option"), True
        for a in at:
            m = re.match(r"^serde \((.*)\)$", a)
            for x in re.findall(r'(?:[^,"]|"[^"]*")+', m.group(1)) if m else []:
                x = modules.norm(x).strip()
                if re.match(r'^rename = "', x):
                    key = x.split('"')[1]
                elif re.match(r'^(default|default = .*|skip_serializing_if = .*)$', x):
                    req, wr = (False, wr) if x.startswith("default") else (req, False)
                elif not re.match(r'^with = "', x):
                    return None
        out.append((key, req, wr))
    return out


def json_laws(src, keys):
    """what serde's derive promises of the containers' texts (assumed), and lemmas: the text of fork f's container is none of a later fork g's"""
    sym, out, known = {}, ["pub uninterp spec fn sub(v: Json, key: int) -> Option<Json>;"], set()
    unread = {k for k, v in keys.items() if v is None}
    num = lambda k: sym.setdefault(k, len(sym) + 1)
    kid = lambda f, ty: (lambda m: m and (f, m.group(1)) in src and m.group(1))(re.match(r"^%s__(\w+)$" % f, ty))
    for (f, c), fl in src.items():
        out.append("pub uninterp spec fn enc_%s__%s(x: %s__%s) -> Json;" % (f, c, f, c))
        ks = keys[f, c]
        law = ["dec_%s__%s(enc_%s__%s(x)) == Some(x)" % (f, c, f, c)]
        dl = []
        for (n, ty), (key, req, wr) in zip(fl, ks or []):
            d = num(key)
            if req:
                dl.append("sub(v, %d) is Some" % d)
            if kid(f, ty):
                law.append("sub(enc_%s__%s(x), %d) == Some(enc_%s(x.%s))" % (f, c, d, ty, n))
                dl.append("dec_%s(sub(v, %d)->0) is Some" % (ty, d))
        if ks is not None:
            maybe = [num(k) for k, _, w in ks]
            law.append("forall|k: int| sub(enc_%s__%s(x), k) is Some ==> %s" % (f, c, " || ".join("k == %d" % k for k in maybe)))
        out.append("pub axiom fn ax_enc_%s__%s(x: %s__%s) ensures %s;" % (f, c, f, c, ", ".join(law)))
        out.append("pub axiom fn ax_dec_%s__%s(v: Json) requires dec_%s__%s(v) is Some ensures %s;" % (f, c, f, c, ", ".join(dl) or "true"))
    def witness(c, f, g, seen=()):
        """a path of keys that fork g requires and fork f's text does not have"""
        if (f, c) not in src or (g, c) not in src or keys[f, c] is None or keys[g, c] is None:
            return None
        have = {k for k, _, _ in keys[f, c]}
        for key, req, _ in keys[g, c]:
            if req and key not in have:
                return [key]
        fd = {k: (n, kid(f, t)) for (n, t), (k, r, _) in zip(src[f, c], keys[f, c])}
        gd = {k: (r, kid(g, t)) for (n, t), (k, r, _) in zip(src[g, c], keys[g, c])}
        for key, (n, cc) in fd.items():
            if cc and key in gd and gd[key] == (True, cc) and witness(cc, f, g):
                return [key, n, cc]
        return None
    done = []
    for c in dict.fromkeys(c for _, c in src):
        for i, f in enumerate(FORKS):
            for g in FORKS[i + 1:]:
                w = witness(c, f, g)
                if not w:
                    continue
                known.add((c, f, g))
                step = "" if len(w) == 1 else "tell_%s__%s__%s(x.%s);" % (w[2], f, g, w[1])
                out.append("pub proof fn tell_%s__%s__%s(x: %s__%s) ensures dec_%s__%s(enc_%s__%s(x)) is None { // by the key %s\n if dec_%s__%s(enc_%s__%s(x)) is Some { ax_enc_%s__%s(x); ax_dec_%s__%s(enc_%s__%s(x)); %s assert(false); } }" % (
                    c, f, g, f, c, g, c, f, c, w[0], g, c, f, c, f, c, g, c, f, c, step))
    return out, known, unread


SUBST = [r"(?<!V)\bFrom :: from => VFrom :: from",
         r"serde_json :: Value :: deserialize \( deserializer \) => deserializer . value ( )",
         r"serde :: Deserialize > :: => VDec > ::",
         r"< (?:serde :: )?de :: Error => < de :: Error",
         r"serde :: de :: Error :: custom \( \"[^\"]*\" \) => D :: custom ( )"]


def contract(c, kind, en, name, v, vs, src):
    """the ensures clause, from the forks' field lists and the signature"""
    mut = name.endswith("_mut")
    base = name[:-4] if mut else name
    ret = modules.norm(v["ret"] or "")
    opt = ret.startswith("Option")
    arms = []
    for f in vs:
        V = f.capitalize()
        fl = [n for n, _ in src[f, c]]
        # inner container before / after a mutation
        def after(new):
            """the container afterwards is `new`; a reference held stays the same reference"""
            if kind == "RefMut":
                return "(*final(self) matches %s::%s(j) && *j == %s && *final(j) == *final(i))" % (en, V, new)
            return "*final(self) == %s::%s(%s)" % (en, V, new)
        star = "*" if kind else ""
        unch = "*final(self) == *old(self)" if mut else "true"
        if base == "version" and not mut:
            arms.append((V, "r == Version::" + V))
        elif base in FORKS:
            if base == f:
                arms.append((V, "r is Some && *(r->0) == %si%s" % (star, " && " + after("*final(r->0)") if mut else "")))
            else:
                arms.append((V, "r is None && " + unch))
        elif any(base in [n for n, _ in src[g, c]] for g in vs):
            if base not in fl:
                if not opt:
                    return None
                arms.append((V, "r is None && " + unch))
                continue
            val = "r->0" if opt else "r"
            pre = "r is Some && " if opt else ""
            ty = dict(src[f, c])[base]
            ref = re.match(r"^%s__(\w+)$" % f, ty)
            fld = "(%si).%s" % (star, base)
            upd = lambda x: "(%s__%s { %s: %s, ..%si })" % (f, c, base, x, star)
            if ref:                                                                            # a container: held by the reference type of the same fork
                got = "(%s)->%s_0" % (val, V)
                arms.append((V, "%s(%s) is %s && *%s == %s%s" % (pre, val, V, got, fld, " && " + after(upd("*final(%s)" % got)) if mut else "")))
            else:
                d = "*(%s)" % val if "&" in ret else val
                arms.append((V, "%s%s == %s%s" % (pre, d, fld, " && " + after(upd("*final(%s)" % val)) if mut else "")))
        else:
            return None
    return "ensures match %s { %s }," % ("*old(self)" if mut else "*self", ", ".join("%s::%s(i) => %s" % (en, V, x) for V, x in arms))


def tests(exe):
    """[(name, iterations, Rust text)]: the same expectations, run against the real types"""
    m, items = build(exe)
    er = Erase()
    src, sig = {}, {}
    for c in CONT:
        for f in FORKS:
            it = modules.verbatim(exe, [E + "%s/%s.rs" % (f, HOME[c])]) if os.path.exists("%s/%s%s/%s.rs" % (vlib.REPO, E, f, HOME[c])) else {}
            if c in it and isinstance(it[c], dict) and it[c]["kind"] == "struct":
                src[f, c] = [(n, er.ty(t, f)) for n, t in zip(it[c]["fields"], it[c]["types"])]
    for k, v in items.items():
        sig[k] = modules.norm(v.get("ret") or "")
    val = {(c, k.split("::")[-1]) for c in CONT for k, r in sig.items() if k.split("::")[0] in (c, c + "Ref", c + "RefMut") and "&" not in r and "Ref" not in r and k.split("::")[-1] in {n for f in FORKS for n, _ in src.get((f, c), [])}}
    out = []
    for c in CONT:
        vs = [f for f in FORKS if (f, c) in src]
        for f in vs:
            V, fl = f.capitalize(), dict(src[f, c])
            for kind in ("", "Ref", "RefMut"):
                en = c + kind
                mine = {k.split("::")[-1]: r for k, r in sig.items() if k.startswith(en + "::")}
                if not mine:
                    continue
                if kind:
                    par = next(((pc, n) for pc in CONT for n, t in src.get((f, pc), []) if t == "%s__%s" % (f, c)), None)
                    if par is None:
                        continue
                pc, path = (par[0], "i." + par[1]) if kind else (c, "i")
                b = ["let mut e = ec::types::minimal::%s::%s(Default::default());" % (pc, V)]
                by = [n for n in fl if (c, n) in val]
                for n in by:
                    b.append("let v_%s = <_ as FtRnd>::rnd(g);" % n)
                set_ = "".join("%s.%s = v_%s;" % (path, n, n) for n in by)
                b.append("let (pi, %s) = match &mut e { ec::types::minimal::%s::%s(i) => { %s (ftp(%s), %s) } _ => unreachable!() };" % (
                    "".join("p_%s, " % n for n in fl), pc, V, set_, "&" + path if kind else "&*i", "".join("ftp(&%s.%s), " % (path, n) for n in fl)))
                if kind == "Ref":
                    b += ["let mut q = e.%s()%s;" % (par[1], ".unwrap()" if sig.get("%s::%s" % (pc, par[1]), "").startswith("Option") else "")]
                elif kind == "RefMut":
                    b += ["let mut q = e.%s_mut()%s;" % (par[1], ".unwrap()" if sig.get("%s::%s_mut" % (pc, par[1]), "").startswith("Option") else "")]
                x = "q" if kind else "e"
                full = "ec::types::%s%s" % ("" if kind else "minimal::", en)
                def look(tag):
                    for n, r in mine.items():
                        mut = n.endswith("_mut")
                        base = n[:-4] if mut else n
                        opt = r.startswith("Option")
                        say = '"%s holding %s: %s()%%s"' % (en, f, n)
                        if n == "version":
                            yield "chk!(matches!(%s.version(), ec::Fork::%s), %s);" % (x, V, say % " is not its fork")
                        elif base in FORKS:
                            if base == f:
                                yield "chk!(%s.%s().map(|y| ftp(y) == pi).unwrap_or(false), %s);" % (x, n, say % " is not the container held")
                            else:
                                yield "chk!(%s.%s().is_none(), %s);" % (x, n, say % " gives a container it does not hold")
                        elif any(base in dict(src[g, c]) for g in vs):
                            if base not in fl:
                                if opt:
                                    yield "chk!(%s.%s().is_none(), %s);" % (x, n, say % " is a field this fork does not have")
                                continue
                            t = re.match(r"^%s__(\w+)$" % f, fl[base])
                            if t:
                                R = t.group(1) + ("RefMut" if mut else "Ref")
                                hit = "match y { ec::types::%s::%s(z) => ftp(z) == p_%s, _ => false }" % (R, V, base)
                            elif "&" in r:
                                hit = "ftp(y) == p_%s" % base
                            else:
                                hit = "y == v_%s" % base
                            one = "{ let y = %s.%s(); %s }" % (x, n, hit) if not opt else "match %s.%s() { Some(y) => { %s } None => false }" % (x, n, hit)
                            yield "chk!(%s, %s);" % (one, say % " is not the field of that name")
                b += list(look(""))
                if kind == "Ref":
                    b.append("q = unsafe { &*pi }.into(); chk!(matches!(&q, ec::types::%s::%s(z) if ftp(*z) == pi), \"%s::from: not the container given\");" % (en, V, en))
                elif kind == "RefMut":
                    b.append("q = ftm(pi).into(); chk!(matches!(&q, ec::types::%s::%s(z) if ftp(&**z) == pi), \"%s::from: not the container given\");" % (en, V, en))
                elif any(k == en + "::deserialize" for k in items):
                    b.append('let text = serde_json::to_string(&e).map_err(|x| x.to_string())?;\n'
                             'let back: ec::types::minimal::%s = match serde_json::from_str(&text) { Ok(y) => y, Err(x) => return Err(format!("%s holding %s: its own text does not decode: {x}")) };\n'
                             'chk!(matches!(&back, ec::types::minimal::%s::%s(_)), "%s holding %s: its text decodes as another fork");\n'
                             'chk!(back == e, "%s holding %s: its text decodes to another value");\n'
                             'let inner = serde_json::to_string(e.%s().unwrap()).map_err(|x| x.to_string())?;\n'
                             'chk!(inner == text, "%s holding %s: its text is not that of the container held");' % (c, c, f, c, V, c, f, c, f, f, c, f))
                nm = "ft_%s_%s" % (re.sub(r"(?<!^)(?=[A-Z])", "_", en).lower(), f)
                out.append((nm, 8, "\npub fn test_%s(g: &mut G) -> R {\n%s\nOk(())\n}\n" % (nm, "\n".join(b))))
    pre = "\npub fn ftp<T>(x: &T) -> *const T { x }\npub fn ftm<'a, T>(x: *const T) -> &'a mut T { unsafe { &mut *(x as *mut T) } }\npub trait FtRnd { fn rnd(g: &mut G) -> Self; }\nimpl FtRnd for u64 { fn rnd(g: &mut G) -> Self { g.u64_edge() } }\nimpl FtRnd for usize { fn rnd(g: &mut G) -> Self { g.u64_edge() as usize } }\nimpl FtRnd for ec::primitives::Root { fn rnd(g: &mut G) -> Self { let mut r = Self::default(); r.0 = g.bytes(); r } }\n"
    if out:
        out[0] = (out[0][0], out[0][1], pre + out[0][2])
    return out
