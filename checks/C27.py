"""C27 the operand stack is disciplined: no path leaks or steals an operand

For each module that the real compiler emits (programs with symbolic tokens) a number of
pending operands is sought for every reachable instruction: one z3 integer per instruction,
one equation per edge of the control-flow graph.  A solution is a proof for all runs, of
any length; unsat is a violation."""
import z3
import symtok, tv, pipe, vm, sx
from framework import tv_check, RawH, THOROUGH, Report
import importlib.util, os
_s = importlib.util.spec_from_file_location("C14", os.path.join(os.path.dirname(os.path.abspath(__file__)), "C14.py"))
C14 = importlib.util.module_from_spec(_s)
_s.loader.exec_module(C14)
C04, norm, widths = C14.C04, C14.norm, C14.widths

BIN = {"opadd", "opminus", "opmul", "opdiv", "opfloordiv", "opmodulo", "opand", "opor", "opeq", "opnoteq", "opgreater", "opgreatereq", "opless", "oplesseq"}
# operation -> (operands needed, results)
EFFECT = {"mostra": (1, 0), "loadconst": (0, 1), "loadname": (0, 1), "loadregisto": (0, 1), "loadmoduledef": (0, 1), "getglobal": (0, 1), "getlocal": (0, 1),
          "setglobal": (1, 0), "setlocal": (1, 0), "opinvert": (1, 1), "opnot": (1, 1), "isnull": (1, 1), "matchvariant": (1, 1), "jump": (0, 0), "jumpiffalse": (1, 0),
          "poptop": (1, 0), "opindexget": (2, 1), "opindexset": (3, 0), "getprop": (2, 1), "setprop": (3, 0), "cast": (2, 1), "halt": (0, 0), "return": (1, 0)}
EFFECT.update({b: (2, 1) for b in BIN})


def effect(op, args):
    n = args[0] if args else 0
    if op == "callfunction":
        return n + 1, 1
    if op in ("buildstr", "buildvec"):
        return n, 1
    if op == "buildobj":
        return 2 * n + 1, 1
    if op == "buildvariant":
        return n + 1, 1
    if op == "bindmatchargs":
        return n + 1, 0
    if op == "unwrap":
        return (2, 1) if n else (1, 1)
    return EFFECT[op]


def decode(m):
    byval = {op.value: op for op in C14.ops()}
    code, starts, i = m["ops"], {}, 0
    while i < len(code):
        op = byval[code[i]]
        j, args = i + 1, []
        for w in widths(op):
            args.append(int.from_bytes(code[j:j + w], "big"))
            j += w
        starts[i] = (norm(op.name), args)
        i = j
    return starts


TAGS = 2      # variants of every union that the programs match on
STAT = {"instr": 0, "q": 0}


def discipline(m):
    """None, or what is wrong with the module's use of the stack"""
    starts = decode(m)
    order = sorted(starts)
    nexts = dict(zip(order, order[1:]))
    s = z3.Solver()
    d = lambda a: z3.Int(f"d{a}")
    seen, edges, states = {}, set(), set()
    for e, who in [(0, "main")] + [(f["start_ip"], f["name"]) for f in m["functions"]]:
        s.add(d(e) == 0)
        # a state: instruction, variants already excluded for a variable, last value loaded, last test
        todo = [(e, frozenset(), None, None)]
        while todo:
            st = todo.pop()
            if st in states:
                continue
            states.add(st)
            a, excl, load, test = st
            op, args = starts[a]
            need, res = effect(op, args)
            if a not in seen:
                seen[a] = who
                s.assert_and_track(d(a) >= need, f"need {a}")
                if op == "halt":
                    s.assert_and_track(d(a) == 0, f"left {a}")
            if op in ("halt", "return"):
                continue
            if op in ("setglobal", "setlocal"):
                k = (op[3:], args[0])
                excl = frozenset(x for x in excl if x[0] != k)
            elif op == "callfunction":
                excl = frozenset(x for x in excl if x[0] and x[0][0] == "local")
            load = (op[3:], args[0]) if op in ("getglobal", "getlocal") else load if op == "jump" else None
            out = []
            if op == "jump":
                out = [(args[0], excl, load, test)]
            elif op == "jumpiffalse":
                out = [(nexts[a], excl, None, None)]
                e2 = excl | {test} if test else excl
                if not test or len({t for k, t in e2 if k == test[0]}) < TAGS:
                    out.append((args[0], e2, None, None))
            else:
                out = [(nexts[a], excl, load, (st[2], args[0]) if op == "matchvariant" else None)]
            for o in out:
                if (a, o[0]) not in edges:
                    edges.add((a, o[0]))
                    s.assert_and_track(d(o[0]) == d(a) - need + res, f"edge {a} {o[0]}")
                todo.append(o)
    STAT["instr"] += len(seen)
    STAT["q"] += 1
    r = s.check()
    if r == z3.sat:
        return None
    if r != z3.unsat:
        raise sx.Inconclusive("stack equations: " + str(r))
    core = sorted(str(x) for x in s.unsat_core())
    ip = [int(x.split()[1]) for x in core]
    lines = sorted({m["src_map"][k + 2] for a in ip for k in range(0, len(m["src_map"]), 3) if m["src_map"][k] <= a <= m["src_map"][k + 1]})
    return f"no number of pending operands fits every path through {seen[ip[0]]} of {m['name']} (lines {lines}, instructions {sorted({starts[a][0] for a in ip})})"


def examine(raw):
    d = vm.unpack_doc(bytes(raw)[4:])
    for m in [d, *d["imports"]]:
        w = discipline(m)
        if w:
            return w


REPLAY = {"stack": lambda raw: bool(examine(raw))}


def harness(gen):
    def h(ctx):
        text, alts = gen(ctx)
        t = symtok.Template(ctx, text, alts)
        with symtok.limit(20):
            res = t.run("compile")
        if res[0] != "ok":
            return {"viol": [], "cnt": {res[0]: 1}, "key": hash((text, res[:2]))}
        i0 = STAT["instr"]
        bad = examine(res[1])
        ctx.nq += 1 if hasattr(ctx, "nq") else 0
        m = ctx.holds(not bad)
        src = t.source(t.pick_of(m or ctx.model()))
        cnt = {"claims": 1, "ok": 1, "combinations": t.ncombos(), "instructions": STAT["instr"] - i0}
        key = hash((text, tuple(tuple(sorted(c.alive)) for c in t.choices)))
        if m is None:
            return {"viol": [], "cnt": cnt, "key": key, "sample": {"template": text, "alternatives": [[c.alts[i] for i in sorted(c.alive)] for c in t.choices]}}
        c = tv.compile_cached(src)
        again = examine(c[1]) if c[0] == "ok" else None
        return {"viol": [{"what": again or bad, "sig": symtok.re.sub("[0-9]+", "N", bad.split("(lines")[0]), "src": src, "stdin": "", "unreproduced": not again}], "cnt": cnt, "key": key}
    return h


# an expression statement and an assignment, with one expression in a place where others are pending
PLACES = ["{e}\n", "mostra {e}\n", "x = {e}\n", "novo: int = {e}\n", "mostra x + {e}\n", "mostra x * (x - {e})\n", "mostra f({e})\n", "mostra f2(x, {e})\n", "f2({e}, 1)\n", "mostra [int: x, {e}]\n", "v[0] = {e}\n", "v[{e}] = x\n", "mostra v[{e}]\n",
          "p.a = {e}\n", "p = P(a: {e}, b: 1.0)\n", "u = U::N({e}, \"a\")\n", "mostra f\"{{{x}}}-{{{e}}}\"\n", "se {e} == 1 entao\nmostra 1\nfim\n", "enquanto {e} < 0 faca\nmostra 2\nfim\n", "para i{n} de 0..{e} faca\nmostra 1\nfim\n", "para i{n} de 0..9 inc {e} faca\nmostra 1\nfim\n",
          "escolha {e}:\ncaso 1:\nmostra 1\nsenao:\nmostra 2\nfim\n", "mostra -{e}\n", "mostra {e} :> real\n", "mostra o.valor_ou({e})\n", "mostra p.m({e})\n", "o = {e}\n", "x += {e}\n", "v[{e}] += 1\n", "p.a *= {e}\n", "anexa(v, {e})\n", "mostra remova(v, {e})\n", "vi[x][{e}] = 3\n", "mostra nao ({e} > 1) e verdadeiro\n", "mostra \"abc\"[{e}]\n", "escreva({e})\n"]
EXPRS = ["{t}", "f2({t}, f(1))", "{t}()"]
TOK = ["1", "x", "u", "nada", "g"]
if THOROUGH:
    EXPRS += ["f({t})", "v[{t}]", "p.m({t})", "o.valor_ou({t})", "({t} + 1)", "-{t}", "remova(v, {t})", "vi[0][{t}]", "p.{t}", "o.{t}", "tam({t})", "P(a: {t}, b: 2.0).a", "U::{t}", "leia_int({t})"]
    TOK += ["nulo", "v", "a", "valor", "Z", "\"a\"", "k"]
MATCH = ["iguala x\n1 => {e}\n_ => 2\nfim", "iguala x\n1 => faca\n{s}produz {e}\nfim\n_ => 2\nfim", "iguala u\nU::N(a{n}, _) => a{n}\nU::Z => {e}\nfim", "iguala u\nU::N(a{n}, b{n}) => faca\n{s}produz {e}\nfim\nU::Z => {e}\nfim",
         "iguala x\n1 => iguala u\nU::N(c{n}, _) => {e}\nU::Z => 5\nfim\n_ => 2\nfim",
         "iguala x\n1 => {e}\n_ => nada()\nfim", "iguala x\n1 => faca\n{s}produz {e}\nfim\n_ => faca\nproduz nada()\nfim\nfim"]
INARM = ["mostra x", "novo{n}: int = f(1)", "f(1)", "x = x + 1", "retorna 3", "para j{n} de 0..3 faca\nquebra\nfim", "enquanto x < 0 faca\ncontinua\nfim", "se x > 1 entao\nretorna 1\nfim", "iguala u\nU::Z => faca\nmostra 1\nfim\n_ => faca\nmostra 2\nfim\nfim"]
WRAP = ["{b}", "para k{n} de 0..3 faca\n{b}fim\n", "enquanto x < 9 faca\n{b}x = x + 1\nfim\n", "se x > 0 entao\n{b}senao\nmostra 0\nfim\n"]
PRE = C04.PRE + "func f2(a: int, b: int): int\nretorna a\nfim\nfunc nada()\nfim\n"


def places(fn):
    """every expression in every place, directly and inside iguala arms"""
    def gen(ctx):
        pl = ctx.choose(PLACES)
        form = ctx.choose(["{e}", *MATCH])
        w = ctx.choose(WRAP if THOROUGH or form == "{e}" and not fn else WRAP[1:2])
        arms = [s for s in INARM if fn and THOROUGH or ("retorna" in s) == fn]
        st = ctx.choose(arms) if "{s}" in form else ""
        e = form.replace("{e}", ctx.choose(EXPRS).replace("{t}", "hole0__")).replace("{s}", st.replace("{n}", "9") + "\n").replace("{n}", "5")
        b = w.replace("{b}", pl.replace("{e}", e).replace("{{", "{").replace("}}", "}").replace("{x}", "x")).replace("{n}", "1")
        if fn:
            return PRE + "func h(): int\n" + b + "retorna x\nfim\nmostra h()\n", [TOK]
        return PRE + b + "mostra 1\n", [TOK]
    return gen


def main():
    f = {"places": RawH(harness(places(False))), "places_func": RawH(harness(places(True)))}
    for w in ("main", "func", "void"):
        f[w] = RawH(harness(C14.nested(w)))
    f["contexts"] = RawH(harness(C04.family(C04.HEAD + C04.BLOCK, 1, C04.ALL if THOROUGH else C04.SMALL)))
    return tv_check("C27", f, [
        f"places: {len(EXPRS)} expressions around a symbolic token in {len(PLACES)} places, directly and as results of iguala arms of {len(MATCH)} forms, in loops and branches, in main and in a function",
        f"nested: two nested control constructs (11 kinds each) in main, a function, a void function and a method, with one statement of {len(C14.STM)} kinds around a symbolic token; contexts: one symbolic token in the contexts of C04",
        "per emitted module the claim holds for runs of any length; quebra and continua inside an arm of an iguala with operands pending are outside (known finding)"],
        ["the effect of each instruction on the stack is as in the table EFFECT (compared with the VM's own code in C21)"], level="other")
