"""What every check has in common: running explorations, known findings,
replay files, evidence."""
import os, sys, json, time, hashlib, traceback, collections

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class Report:
    """outcome of a check"""

    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.viol = []          # dicts: what, sig, src?, stdin?, extra
        self.unrep = []         # counterexamples that did not reproduce
        self.problems = []      # inconclusive / harness errors
        self.skipped = []       # stated, tolerated gaps
        self.cov = {}
        self.assumptions = []
        self.samples = []
        self.functions = set()
        self.queries = 0
        self.solver_s = 0.0
        self.t0 = time.time()
        self.bounds = []
        self.fams = {}

    def add_exploration(self, name, R, total=None):
        self.queries += R.nq
        self.solver_s += R.tq
        for v in R.viol:
            (self.unrep if v.get("unreproduced") else self.viol).append(dict(v, family=v.get("family", name)))
        for dec, w in R.err:
            self.problems.append(f"{name}: harness error at {dec}: {w}")
        for dec, w in R.inc:
            self.skipped.append(f"{name}: {w}")
        self.samples += R.samples[:6]
        for k, r in R.by.items():
            self.fams[k] = {"paths": r.paths, "cut": r.out, "inconclusive": len(r.inc), "queries": r.nq,
                            "solver_s": round(r.tq, 2), "complete": R.complete, "programs": len(r.keys)}
        for k, n in R.cnt.items():
            self.cov[k] = self.cov.get(k, 0) + n
        self.cov["paths"] = self.cov.get("paths", 0) + R.paths
        self.cov["paths_outside_bounds"] = self.cov.get("paths_outside_bounds", 0) + R.out
        self.cov["programs_distinct"] = self.cov.get("programs_distinct", 0) + sum(len(r.keys) for r in R.by.values())
        self.cov["exhaustive_within_bounds"] = bool(self.cov.get("exhaustive_within_bounds", True) and R.complete and not R.inc)
        self.cov["unknown_feasibility"] = self.cov.get("unknown_feasibility", 0) + R.unkf


def known(pid):
    p = os.path.join(V, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p, encoding="utf8"):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == pid and d.get("status") == "finding":
                    out.append(d)
    return out


def functions_run(fn):
    """names of the functions of /repo's compiler executed by fn()"""
    import pipe
    names = set()
    root = os.path.join(os.path.realpath(pipe.REPO), "amanda")

    def prof(frame, ev, arg):
        if ev == "call":
            c = frame.f_code
            if os.path.realpath(c.co_filename).startswith(root):
                names.add(os.path.relpath(c.co_filename, root) + ":" + c.co_qualname)
    sys.setprofile(prof)
    try:
        fn()
    except Exception:
        pass
    finally:
        sys.setprofile(None)
    return names


def finish(rep, replay_dir=None):
    pid = rep.pid
    out = os.path.join(V, "out", pid)
    import shutil
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    # one representative per signature
    sigs = {}
    for v in rep.viol:
        sigs.setdefault(v.get("sig") or v["what"][:60], v)
    rc = 0
    for n, (s, v) in enumerate(sorted(sigs.items())[:8]):
        p = os.path.join(out, f"violation{n}.txt")
        with open(p, "w", encoding="utf8") as f:
            f.write(f"property: {pid}\nwhat: {v['what']}\nfamily: {v.get('family')}\n")
            for k in v:
                if k not in ("what", "family", "src", "stdin", "unreproduced"):
                    f.write(f"{k}: {v[k]}\n")
            if "src" in v:
                f.write("---- stdin\n" + (v.get("stdin") or "") + "---- program\n" + v["src"])
        print(f"VIOLATION property={pid} replay={p}")
        print(f"  {v['what'][:600]}")
        rc = 1
    if rc == 0 and (rep.unrep or rep.problems):
        for v in rep.unrep[:5]:
            print("UNREPRODUCED", v["what"], v.get("src", ""), v.get("stdin", ""), {k: v[k] for k in v if k not in ("src", "stdin", "what")})
        for p in rep.problems[:5]:
            print("PROBLEM", p)
        rc = 2
    if rc == 0 and rep.skipped:
        c = collections.Counter(s[:100] for s in rep.skipped)
        tot = rep.cov.get("paths", 0) + len(rep.skipped)
        print("inconclusive paths:", len(rep.skipped), "of", tot, c.most_common(5))
        if len(rep.skipped) > 0.2 * tot:
            print("PROBLEM: more than a fifth of the paths are inconclusive")
            rc = 2
    cov = dict(rep.cov)
    cov["families"] = rep.fams
    cov["queries_discharged"] = rep.queries
    cov["solver_seconds"] = round(rep.solver_s, 2)
    cov["functions_encoded"] = sorted(rep.functions)
    cov["bounds"] = rep.bounds
    cov["inconclusive_paths"] = len(rep.skipped)
    cov["samples"] = [s if isinstance(s, (dict, str)) else str(s) for s in rep.samples[:6]]
    if rep.level == "translation_validation":
        cov.setdefault("programs", cov.get("programs_distinct", 0))
        cov.setdefault("disagreements_checked", cov.get("claims", 0))
    if rep.level == "model_checking":
        cov.setdefault("states", cov.get("paths", 0))
        cov.setdefault("transitions", rep.queries)
    if rep.level == "other":
        cov.setdefault("explanation", "; ".join(rep.bounds))
    ev = {"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": rep.level,
          "coverage": cov, "assumptions": rep.assumptions, "wall_s": round(time.time() - rep.t0, 2), "violations": len(sigs)}
    with open(os.path.join(V, "evidence", pid + ".json"), "w", encoding="utf8") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
    print(f"{pid}: exit {rc}; " + ", ".join(f"{k}={cov[k]}" for k in ("paths", "claims", "queries_discharged", "solver_seconds", "exhaustive_within_bounds") if k in cov) + f", wall={ev['wall_s']}")
    return rc


class RawH:
    """a family given as a ready harness"""

    def __init__(self, h):
        self.h = h


def tv_check(pid, families, bounds, assumptions=(), budget=None, extra=None, level="translation_validation"):
    """families: name -> (gen, harness options)"""
    import sx, tv, realvm, pipe, symtok
    rep = Report(pid, level)
    rep.bounds = list(bounds)
    rep.assumptions = ["lib/vm.py states the meaning of each VM instruction; every explored path's witness is also run on the VM built from /repo and compared",
                       "the reference evaluator lib/ref.py is the specification of the source language"] + list(assumptions)
    realvm.build()
    hs = {}
    for n, f in families.items():
        g, kw = (None, {}) if isinstance(f, RawH) else f if isinstance(f, tuple) else (f, {})
        hs[n] = f.h if isinstance(f, RawH) else symtok.total_harness(g) if kw.get("total") else symtok.accept_harness(g, kw.get("stage", "compile")) if kw.get("sym") else tv.harness(g, **kw)
    only = os.environ.get("VERIF_FAMILY")
    if only:
        hs = {k: v for k, v in hs.items() if k in only.split(",")}
    b = budget or (1500 if THOROUGH else 150)
    R = sx.explore(hs, budget_s=b, shuffle_seed=SEED)
    rep.add_exploration(pid, R)
    for k in hs:
        if R.by[k].paths == 0 and not R.by[k].viol and R.complete:
            rep.problems.append(f"family {k} is vacuous: no path reached the claim")
    for s in R.samples[:4]:
        src = s.get("source") or (symtok.HOLE.sub(lambda m: s["alternatives"][int(m.group(1))][0], s["template"]) if "template" in s else None)
        if src:
            rep.functions |= functions_run(lambda: pipe.compile_text(src, raw=True))
    rep.functions |= {"amanda/vm/src/*.rs via the lib/vm.py encoding of each executed opcode"}
    if extra:
        extra(rep)
    known_findings(rep)
    return finish(rep)


def known_findings(rep):
    """re-run each listed finding of this property; print it while it still fails"""
    import tv
    for d in known(rep.pid):
        still = True
        if "program" in d:
            still = replay_known(d)
        if still:
            print(f"KNOWN-FINDING: property={rep.pid} {d['what']}")


def replay_known(d):
    import tv, realvm
    c = tv.compile_cached(d["program"])
    if "compile" in d:
        return c[0] == d["compile"]
    if c[0] != "ok":
        return False
    if "replay" in d:
        import sys
        return sys.modules[d["property"]].REPLAY[d["replay"]](c[1])
    rc, out, err = realvm.run(c[1], d.get("stdin", ""))
    return out == d["wrong_output"] if "wrong_output" in d else rc != 0
