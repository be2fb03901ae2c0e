"""Translation validation of compiled programs.

A generator builds a reference program tree (ref.py) by structural choices; the
program's inputs are symbolic.  The tree is rendered to source text, compiled by
the REAL pipeline of /repo, and the emitted module is executed symbolically
(vm.py).  On every joint path of reference and bytecode the solver decides
whether endings and outputs agree for all inputs of the path.  One witness per
path is also run on the real VM built from /repo."""
import z3, hashlib, re, os, traceback
import sx, ref, vm, pipe, realvm
from vals import *

_CACHE = {}


def compile_cached(src):
    """-> ("ok", raw, nbytes) | ("reject", msg) | ("crash", text)"""
    if src in _CACHE:
        return _CACHE[src]
    if len(_CACHE) > 60:
        _CACHE.clear()
    try:
        k, r = pipe.compile_text(src, raw=True)
        res = ("ok", bytes(r)) if k == "ok" else ("reject", getattr(r, "message", None) or str(r), getattr(r, "line", None))
    except RecursionError as e:
        res = ("crash", "RecursionError")
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        res = ("crash", f"{type(e).__name__}: {e} at {os.path.basename(tb[-1].filename)}:{tb[-1].name}")
    _CACHE[src] = res
    return res


KINDS = (("intervalo de inteiros", "overflow"), ("por zero", "zero"), ("índice", "index"), ("referência nula", "null"),
         ("recurs", "recursion"), ("dimens", "vecdim"), ("Conversão inválida", "cast"), ("não é um inteiro", "cast"), ("não é um número", "cast"))


def real_end(rc, err):
    if rc == 0:
        return ("ok",), []
    if rc == 1:
        lines = []
        body = re.sub(r"\x1b\[[0-9;]*m", "", err)
        for m in re.finditer(r"linha\s+(\d+)", body, re.I):
            lines.append(int(m.group(1)))
        kind = next((k for t, k in KINDS if t in body), "other")
        return ("err", kind), lines
    if rc == "timeout":
        return ("steps",), []
    return ("panic", (err.strip().splitlines() or [str(rc)])[-1][:200] + f" rc={rc}"), []


def text_of(out):
    p = norm([x for c in out for x in c])
    if all(isinstance(x, str) for x in p):
        return "".join(p)
    raise sx.Inconclusive("output not concrete on a concrete run")


def ref_concrete(prog, vals_, limit):
    try:
        o = ref.run(prog, Inputs(concrete=vals_).stream(), limit)
    except ref.NoArm:
        return "noarm", "", []
    return o.end, text_of(o.out), o.lines


def end_class(e):
    return e[0]


def concrete_compare(prog, src, vals_, stdin, limit, lines=False):
    """reference vs the real compiler + real VM on one input -> None or description"""
    rend, rout, rlines = ref_concrete(prog, vals_, limit)
    c = compile_cached(src)
    if c[0] != "ok":
        return f"well-formed program is not compiled: {c[0]}: {c[1]}"
    rc, out, err = realvm.run(c[1], stdin)
    e, ls = real_end(rc, err)
    if end_class(e) != end_class(rend) or (e[0] == "err" and e[1] != "other" and e[1] != rend[1]):
        return f"expected end {rend} output {rout!r}; real VM ended {e} output {out!r}"
    if out != rout:
        return f"expected output {rout!r}; real output {out!r}"
    if lines and e[0] == "err" and not lines_ok(ls, rlines):
        return f"expected error line(s) {rlines[::-1]}; real VM reports {ls}"
    return None


def lines_ok(real, expect):
    """real: numbers in the order printed.  One frame: the line itself.  Several: the trace"""
    e = [x for x in expect]
    return real and (real == e or real == e[::-1] or (real[0] in (e[-1],) and sorted(set(real)) == sorted(set(e)))
                     )


def harness(gen, lo=-20, hi=20, limit=600, steps=8000, check_lines=False, realcheck=True, only=None, text=None):
    """gen(ctx) -> program (list of statements) or None (skip)"""
    def h(ctx):
        prog = gen(ctx)
        if prog is None:
            raise sx.PathEnd()
        src = ref.render(prog)
        c = compile_cached(src)
        sample = {"source": src}
        key = hash(src)
        if c[0] != "ok":
            return {"viol": [{"what": f"well-formed program is not compiled: {c[0]}: {c[1]}", "src": src, "stdin": "",
                              "vals": [], "sig": f"{c[0]}:{re.sub('[0-9]+','N',c[1])[:80]}"}], "cnt": {"programs_rejected": 1}, "key": key}
        ins = Inputs(lo, hi, text=text)
        try:
            r = ref.run(prog, ins.stream(), limit)
            rend = r.end
        except ref.NoArm:
            raise sx.PathEnd()
        v = vm.run_raw(c[1], ins.stream(), steps)
        cnt = {"vm_steps": v.steps, "joint_paths": 1}
        bad = None
        vend = v.end
        if end_class(vend) != end_class(rend) or (rend[0] == "err" and vend[1] != rend[1]):
            claim = False
        else:
            claim = pieces_eq([x for o in r.out for x in o], [x for o in v.out for x in o])
            if check_lines and rend[0] == "err" and r.lines != v.lines:
                claim = False
        m = ctx.holds(claim)
        cnt["claims"] = 1
        if m is not None:
            m = ctx.model()if claim is False else m
            vs, stdin = ins.witness(m)
            what = concrete_compare(prog, src, vs, stdin, limit, check_lines)
            d = {"src": src, "stdin": stdin, "model_end": str(vend), "ref_end": str(rend), "ref_lines": r.lines, "vm_lines": v.lines}
            if what is None:
                d["what"] = "encoding and real VM disagree"
                d["unreproduced"] = True
            else:
                d["what"] = what
            d["sig"] = re.sub(r"[0-9]+", "N", d["what"])[:60]
            return {"viol": [d], "cnt": cnt, "sample": sample, "key": key}
        if realcheck:
            m = ctx.model()
            vs, stdin = ins.witness(m)
            what = concrete_compare(prog, src, vs, stdin, limit, check_lines)
            cnt["real_vm_runs"] = 1
            if what is not None:
                return {"viol": [{"src": src, "stdin": stdin, "what": what, "sig": re.sub(r"[0-9]+", "N", what)[:60]}], "cnt": cnt, "key": key}
            sample["stdin"] = stdin
        return {"viol": [], "cnt": cnt, "sample": sample, "key": key}
    return h


def summary(R):
    return (f"paths={R.paths} cut={R.out} queries={R.nq} solver={R.tq:.1f}s wall={R.wall:.1f}s complete={R.complete} "
            f"viol={len(R.viol)} inc={len(R.inc)} err={len(R.err)} {dict(R.cnt)}")
