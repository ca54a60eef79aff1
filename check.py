#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]   decide one property on /repo's current tree."""
import json, os, re, sys, time, shutil, subprocess, tempfile, threading
import concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + "/tools")
import vlib, harness, modules
from vlib import VERIF, FORKS
from props import PROPS, ALL_ASSUMPTIONS

BASE = VERIF + "/contracts/baseline.json"


def load_json(p, d):
    try:
        return json.load(open(p))
    except Exception:
        return d


def closure(ex_by_fork, cx, fork, roots, own=None):
    """the contracted functions reached from the roots; with `own` (a property), callees that carry another property stay
    behind their contracts, which that property's check discharges"""
    fns = ex_by_fork[fork]["fns"]
    seen, todo = [], [r for r in roots]
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        c = cx.fn(n, fork)
        if c is None and n not in roots:
            continue
        seen.append(n)
        f = fns.get(n)
        if f and "error" not in f and not (c is not None and c.opts.get("assume")):
            todo.extend(x for x in f["callees"] if own is None or x in roots or not owners(x) - {own})
    return seen


def owners(n, f=""):
    if f.startswith("module "):
        return {p for p, d in PROPS.items() if f[7:] in d.get("modules", {}) and (d["modules"][f[7:]] is None or n in d["modules"][f[7:]])}
    return {p for p, d in PROPS.items() if n in d.get("fns", [])}


def norm(s):
    return re.sub(r"\s+", "", s)


class Check:
    def __init__(self, prop, thorough):
        self.prop, self.thorough = prop, thorough
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.notes = []
        self.undec_printed = 0
        self.d = PROPS[prop]

    def log(self, m):
        print("[%5.1fs] %s" % (time.time() - self.t0, m), flush=True)

    def prebuild(self):
        """build the real crate and its dependencies while the extractor is built"""
        try:
            harness.prebuild()
        except Exception as e:
            self.notes.append("prebuild: %s" % str(e)[:300])

    def run(self):
        code, pending, lines = self.attempt(())
        ids = self.known_ids()
        if code and ids:
            # has a recorded finding been repaired?
            self.log("again, as if %s were repaired" % ", ".join(sorted(ids)))
            c2, p2, l2 = self.attempt(ids)
            if c2 == 0:
                code, pending, lines = c2, p2, l2
        elif not code:
            for l in self.known_lines():
                print(l)
        pending()
        for l in lines:
            print(l)
        self.log("exit %d" % code)
        return code

    def known_lines(self):
        p = VERIF + "/known-findings.txt"
        return [l.strip() for l in open(p) if l.startswith("KNOWN-FINDING: property=%s " % self.prop)] if os.path.exists(p) else []

    def known_ids(self):
        return {m for l in self.known_lines() for m in re.findall(r"\[(K\w+)\]", l)} | set(self.d.get("findings", []))

    def attempt(self, repaired):
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        pre = threading.Thread(target=self.prebuild)
        pre.start()
        exe = vlib.build_extract()
        cx = vlib.Contracts(repaired)
        self.cx = cx
        vlib._CX.clear()
        baseline = load_json(BASE, {})
        forks = [f for f in FORKS if self.d.get("forks") is None or vlib.fork_match(self.d["forks"], f)]
        roots = {f: [n for n in self.d.get("fns", []) if cx.fn(n, f) is not None] for f in forks}
        forks = [f for f in forks if roots[f]]
        with cf.ThreadPoolExecutor(6) as pool:
            exs = dict(zip(forks, pool.map(lambda f: vlib.extract_all(f, cx, exe), forks)))
        todo = {f: [n for n in closure(exs, cx, f, roots[f], self.prop if self.d.get("modular") else None) if not cx.fn(n, f).opts.get("assume")] for f in forks}
        dep_props = set()
        for f in forks:
            for n in todo[f]:
                dep_props |= owners(n)
        dep_props.discard(self.prop)
        mods = [modules.resolve(m, exe) for m in modules.load() if m["name"] in self.d.get("modules", {})]
        self.log("functions under contract: %d" % (sum(len(v) for v in todo.values()) + sum(len(m["fns"]) for m in mods)))
        hres = {}
        own = sorted({t.args[0] for t in cx.secs if t.kind in ("test", "ctest") and self.prop in t.opts.get("props", "").split(",")} | {x[0] for x in harness.generated({self.prop}, exe)})
        done = threading.Event()
        budget = vlib.BUDGET
        budget.reset(time.time() + (3000 if self.thorough else 330))
        def hb():
            pre.join()
            try:
                hres["exe"], hres["n"] = harness.build(cx, exe, {self.prop} | dep_props, None)
            except Exception as e:
                hres["err"] = str(e)
            if not hres.get("exe") or not own:
                return
            # a failing input found now spares the second and third attempts at proofs that cannot succeed
            hres["early"] = harness.run(hres["exe"], self.seed, 1500, own)
            while not any("violation" in x for x in hres["early"][0]):
                while not budget.suspect.is_set() and not done.is_set():
                    done.wait(0.3)
                if done.is_set() or hres.get("longer"):
                    return
                hres["longer"] = True
                hres["early"] = harness.run(hres["exe"], self.seed, 5000, own)
            budget.found = time.time()
        ht = threading.Thread(target=hb)
        ht.start()
        out = tempfile.mkdtemp(prefix="vcheck-")
        try:
            with cf.ThreadPoolExecutor(6) as pool:
                rl = 120 if self.thorough else 50
                mres = [pool.submit(modules.verify, m, exe, out, rl) for m in mods]
                res = list(pool.map(lambda f: vlib.verify_fork(f, todo[f], cx, exe, out, rlimit=rl), forks)) + [x.result() for x in mres]
            self.log("verifier finished")
        finally:
            done.set()
            if not os.environ.get("KEEP"):
                shutil.rmtree(out, ignore_errors=True)
        ht.join()
        self.log("harness: %s" % (hres.get("err", "built %s tests" % hres.get("n"))[:3000]))
        failed, undecided = [], []
        for r in res:
            f, meta = r["fork"], r["meta"]
            bl = baseline.get(f, {})
            for n, errs in r["failed"].items():
                why = None
                probs = [p for p in meta["problems"] if p.startswith("%s:" % n) or p.split(":")[0].split("::")[-1] == n]
                mod = f.startswith("module ")
                ex = {"loops": meta["loops"].get(n), "callees": meta["callees"].get(n, [])} if mod else exs[f]["fns"].get(n, {})
                b = bl.get(n)
                if n is None or (n not in meta["verified"] if mod else n not in todo[f]):
                    why = "not attributable to a function"
                elif probs:
                    why = "; ".join(probs)
                elif b is None:
                    why = "no baseline for this function"
                elif ex.get("loops") != b["loops"]:
                    why = "the loops changed: the recorded invariants may not be the right ones"
                else:
                    unc = [c for c in ex.get("callees", []) if (mod or cx.fn(c, f) is None) and c not in b["callees"]]
                    if unc:
                        why = "calls functions without a contract: " + ", ".join(unc)
                if why:
                    undecided.append((f, n, why))
                else:
                    failed.append((f, n, errs))
            for n, why in r["undecided"].items():
                undecided.append((f, n, why))
            for p in meta["problems"]:
                self.notes.append("%s: %s" % (f, p))
            for s in r["spec_fail"]:
                self.notes.append("%s: a lemma of the contracts failed: %s" % (f, s[:400]))
                for n in (meta["verified"] if f.startswith("module ") else todo[f]):
                    if not any(u[0] == f and u[1] == n for u in undecided):
                        undecided.append((f, n, "a lemma failed"))
        for f, n, why in undecided:
            if self.undec_printed < 12:
                self.log("UNDECIDED %s::%s: %s" % (f, n, why[:300].replace("\n", " ")))
            self.undec_printed += 1
        for f, n, errs in failed:
            self.log("FAILED OBLIGATION %s::%s: %s" % (f, n, errs[0].splitlines()[0]))
        # ---- the executable contract against the real code ----
        runs, viol = [], []
        if hres.get("exe"):
            dep = []
            touched = {(f, n) for f, n, _ in failed} | {(f, n) for f, n, _ in undecided}
            if touched:
                ps = set()
                for f, n in touched:
                    ps |= owners(n, f)
                dep = sorted({t.args[0] for t in cx.secs if t.kind in ("test", "ctest") and ps & set(t.opts.get("props", "").split(","))} - set(own))
            ms = 20000 if self.thorough else (5000 if touched else 1500)
            if "early" in hres and not self.thorough and (budget.found or not touched or (hres.get("longer") and not dep)):
                runs, r = hres["early"]
            else:
                runs, r = harness.run(hres["exe"], self.seed, ms, own + dep)
            if r.returncode != 0 and not any("violation" in x for x in runs):
                self.notes.append("harness ended with %s: %s" % (r.returncode, r.stderr[-300:]))
            viol = [x for x in runs if "violation" in x]
        self.log("concrete runs: %d over %d tests, %d violated" % (sum(x["runs"] for x in runs), len(runs), len(viol)))
        for m in self.notes:
            self.log("NOTE " + m)
        # static checks attached to the property
        stat = []
        for s in self.d.get("static", []):
            import static
            try:
                stat += [(s, m) for m in getattr(static, s)(self)]
            except Exception as e:
                self.notes.append("static check %s could not run: %s" % (s, e))
                self.log("NOTE static %s: %s" % (s, e))
        # ---- verdict ----
        own_failed = [x for x in failed if self.prop in owners(x[1], x[0])] or [x for x in failed if not owners(x[1], x[0])]
        code, lines = 0, []
        if viol or stat:
            x = viol[0] if viol else None
            rep = {"property": self.prop, "kind": "failing input",
                   "failed_obligations": [{"function": "%s::%s" % (f, n), "verifier": e} for f, n, e in failed],
                   "static": stat, "violations": viol, "seed": self.seed}
            if x:
                rep["command"] = "cd %s && python3 check.py %s --replay %s:%s:%d --seed %d" % (VERIF, self.prop, x["fork"], x["test"], x["iter"], self.seed)
            p = self.write_replay(rep)
            for x in viol[:4]:
                lines.append("%s %s iteration %d: %s" % (x["fork"], x["test"], x["iter"], x["violation"][:1500]))
            for s, m in stat[:6]:
                lines.append("%s: %s" % (s, m[:1500]))
            lines.append("VIOLATION property=%s replay=%s" % (self.prop, p))
            code = 1
        elif own_failed:
            rep = {"property": self.prop, "kind": "failed obligation",
                   "failed_obligations": [{"function": "%s::%s" % (f, n), "verifier": e} for f, n, e in failed],
                   "concrete_runs": runs, "seed": self.seed}
            p = self.write_replay(rep)
            lines.append("\n".join(own_failed[0][2][:2]))
            lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (self.prop, p))
            code = 1
        return code, (lambda: self.evidence(res, runs, failed, undecided, viol, stat, exs)), lines

    def write_replay(self, rep):
        os.makedirs(VERIF + "/replay", exist_ok=True)
        p = "%s/replay/%s.json" % (VERIF, self.prop)
        json.dump(rep, open(p, "w"), indent=1)
        return p

    def evidence(self, res, runs, failed, undecided, viol, stat, exs):
        obl = dis = 0
        funcs, smt = {}, 0
        trusted = set()
        for r in res:
            v = r["res"].get("results") or {}
            obl += v.get("verified", 0) + v.get("errors", 0)
            dis += v.get("verified", 0)
            smt += r["res"].get("smt_ms", 0)
            und = {u[1] for u in undecided if u[0] == r["fork"]}
            funcs[r["fork"]] = {"proved": sorted(r["proved"]), "failed": sorted(str(k) for k in r["failed"]), "undecided": sorted(str(u) for u in und),
                                "origins": {n: r["meta"]["origins"].get(n, "").replace("/repo/", "") for n in r["proved"]},
                                "dropped_by_extraction": {k: v for k, v in r["meta"]["dropped"].items() if k in r["proved"]}}
            obl += len([u for u in und if u not in r["failed"]])
            for n in r["meta"]["assumed_contract"]:
                if n not in und and n not in r["failed"]:
                    trusted.add("%s::%s: contract used, body not verified" % (r["fork"], n))
            for c in self.cx.secs:
                if c.kind == "fn" and c.opts.get("assume") and c.args[0] in r["meta"]["origins"]:
                    trusted.add("%s::%s: assumed contract" % (r["fork"], c.args[0]))
            noterm = [c.args[0] for c in self.cx.secs if c.kind == "fn" and c.opts.get("noterm") and c.args[0] in r["proved"]]
            for n in noterm:
                trusted.add("%s: termination not proved" % n)
        for m in modules.load():
            if m["name"] in self.d.get("modules", {}):
                trusted |= {"module %s: rewriting rule %s" % (m["name"], x.strip()) for x in m["subst"] if x.strip()}
                trusted |= {"module %s: library function with assumed contract: %s" % (m["name"], re.search(r"fn (\w+)", l).group(1)) for l in m["prelude"] if "unimplemented!()" in l and re.search(r"fn (\w+)", l)}
        for ln in open(VERIF + "/contracts/prelude.rs"):
            m = re.search(r"(?:axiom fn|proof fn|assume_specification.*?\[)\s*(ax_\w+|[\w:<> ,]+)", ln)
            if "axiom" in ln and m:
                trusted.add("axiom " + m.group(1).strip())
        ex_ext = set()
        for r in res:
            for n in r["proved"]:
                ex_ext |= set(exs[r["fork"]]["fns"].get(n, {}).get("externals", [])) if r["fork"] in exs else set()
        trusted |= {"external function with assumed contract: " + x for x in ex_ext}
        ev = {"property": self.prop, "tier": "thorough" if self.thorough else "quick", "seed": self.seed, "level": self.d.get("level", "proof"),
              "coverage": {"obligations": obl, "discharged": dis, "checker_cmd": "verus <generated>/<fork>.rs (Z3 back end), one run per fork: see tools/vlib.py run_verus",
                           "trusted_base": sorted(trusted), "solver_ms": smt, "functions": funcs, "assumed_preconditions": self.d.get("assumes", []),
                           "bounded_standins": [{"fork": x["fork"], "test": x["test"], "random_runs": x["runs"], "violated": "violation" in x} for x in runs],
                           "evaluations": sum(x["runs"] for x in runs) + sum(getattr(self, "cover", {}).values()),
                           "static": dict({"checks": self.d.get("static", []), "violations": len(stat)}, **getattr(self, "cover", {})),
                           "undecided": ["%s::%s: %s" % (f, n, w[:200]) for f, n, w in undecided], "notes": self.notes[:50]},
              "assumptions": ALL_ASSUMPTIONS + self.d.get("assumptions", []), "wall_s": round(time.time() - self.t0, 2),
              "violations": len(viol) + len(stat) + len(failed)}
        if ev["level"] == "exploration":
            ev["coverage"].update(getattr(self, "explore", {}))
        json.dump(ev, open("%s/evidence/%s.json" % (VERIF, self.prop), "w"), indent=1)


def replay(prop, case, seed):
    exe = vlib.build_extract()
    h, _ = harness.build(vlib.Contracts(), exe, {prop}, None)
    r = subprocess.run([h, str(seed), "1000", case])
    return r.returncode


def write_baseline():
    exe = vlib.build_extract()
    cx = vlib.Contracts()
    out = {}
    for f in FORKS:
        names = sorted({c.args[0] for c in cx.secs if c.kind == "fn" and vlib.fork_match(c.opts.get("forks"), f)})
        ex = vlib.extract(f, set(names), exe)
        out[f] = {n: {"loops": d["loops"], "callees": d["callees"]} for n, d in sorted(ex["fns"].items()) if "error" not in d and cx.fn(n, f) is not None}
    for m in modules.load():
        if m["name"] == "constants":
            out["module constants"] = {n: {"loops": 0, "callees": []} for n in m["fns"]}
            continue
        m = modules.resolve(m, exe)
        it = m.get("built") or modules.verbatim(exe, m["files"])
        out["module " + m["name"]] = {n: {"loops": it[n]["loops"], "callees": it[n]["callees"]} for n in m["fns"]}
    json.dump(out, open(BASE, "w"), indent=0, sort_keys=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--baseline":
        write_baseline()
        sys.exit(0)
    if "--replay" in a:
        seed = int(a[a.index("--seed") + 1]) if "--seed" in a else 1
        sys.exit(replay(a[0], a[a.index("--replay") + 1], seed))
    sys.exit(Check(a[0], "--thorough" in a or os.environ.get("VERIF_TIER") == "thorough").run())
