"""C12 calls bind each argument to its parameter and return to the caller"""
from framework import tv_check, THOROUGH
from gx import *
import itertools

# a function with effects, to observe the order of evaluation of arguments
EF = Func("ef", [("k", "int")], "int", [Mostra(Bin("+", V("k"), I(800))), Asg(V("g"), Bin("+", Bin("*", V("g"), I(10)), V("k"))), RetS(V("g"))])


def args_order(ctx):
    g = G(ctx)
    n = 1 + g.pick(4)

    def leaf(j):
        k = g.pick(3)
        return [lambda: Call("ef", [I(j + 1)], "int"), lambda: V("g"), lambda: Read("int")][k]()
    a = [leaf(j) for j in range(n)]
    ps = [(f"p{j}", "int") for j in range(n)]
    out = [Mostra(V(p)) for p, _ in ps]
    kind = g.pick(5)
    d = [Decl("g", "int", I(1)), EF]
    if kind == 0:
        return d + [Func("f", ps, None, out), ES(Call("f", a)), Mostra(V("g"))]
    if kind == 1:
        return d + [Func("f", ps, "int", out + [RetS(Bin("-", V("p0"), V(f"p{n-1}")))]), Mostra(Bin("+", V("g"), Call("f", a, "int"))), Mostra(V("g"))]
    if kind == 2:
        return d + [RegDef("R", [("q", "int")]), Func("m", ps, "int", out + [Mostra(Fld(V("alvo"), "q", "int")), RetS(V("p0"))], reg="R"),
                    Decl("r", ("reg", "R"), New("R", [("q", I(55))])), Mostra(MCall(V("r"), "m", a, "int", "R")), Mostra(V("g"))]
    if kind == 3:
        perm = g.choose(list(itertools.permutations(range(n)))[:4 if n > 2 else 9])
        return d + [RegDef("R", [(f"f{j}", "int") for j in range(n)]), Decl("r", ("reg", "R"), New("R", [(f"f{perm[j]}", a[j]) for j in range(n)]))] + \
            [Mostra(Fld(V("r"), f"f{j}", "int")) for j in range(n)] + [Mostra(V("g"))]
    bs = [f"b{j}" for j in range(n)]
    return d + [UniDef("U", [("Z", []), ("N", ["int"] * n), ("W", [])]), Decl("u", ("uni", "U"), Variant("U", "N", a)),
                SeIguala(V("u"), PVar("U", "N", [PBind(b) for b in bs]), [Mostra(V(b)) for b in bs], [Mostra(I(-1) if False else I(404))]), Mostra(V("g"))]


def types_(ctx):
    """parameters of every type keep their argument; the right function is called"""
    g = G(ctx)
    tys = ["int", "real", "bool", "texto", ("vec", "int"), ("reg", "R"), ("opt", "int")]
    val = {"int": lambda: Read("int"), "real": lambda: g.choose([Read("real"), Read("int")]), "bool": lambda: Bin(">", Read("int"), I(0)), "texto": lambda: Read("texto"),
           ("vec", "int"): lambda: VecLit("int", [I(1), Read("int")]), ("reg", "R"): lambda: New("R", [("q", Read("int"))]), ("opt", "int"): lambda: g.choose([NULO, I(6)])}
    a, b = g.choose(tys), g.choose(tys)
    sh = lambda n, t: [Mostra(Fld(V(n, t), "q", "int"))] if t == ("reg", "R") else [Mostra(V(n, t))]
    f1 = Func("f1", [("x", a), ("y", b)], a, [Mostra(I(1))] + sh("x", a) + sh("y", b) + [RetS(V("x", a))])
    f2 = Func("f2", [("x", b), ("y", a)], a, [Mostra(I(2))] + sh("x", b) + sh("y", a) + [RetS(V("y", a))])
    pre = [RegDef("R", [("q", "int")]), f1, f2]
    va, vb = val[a](), val[b]()
    k = g.pick(3)
    if k == 0:
        return pre + [Decl("r", a, Call("f1", [va, vb], a))] + sh("r", a)
    if k == 1:
        return pre + [Decl("r", a, Call("f2", [vb, va], a))] + sh("r", a)
    return pre + [Decl("r", a, Call("f1", [Call("f2", [vb, va], a), Read("int") if b in ("int", "real") else val[b]()], a))] + sh("r", a)


def nested(ctx):
    """calls in arguments, in callee, mutual recursion"""
    g = G(ctx)
    f = Func("f", [("a", "int"), ("b", "int")], "int", [Decl("t", "int", Bin("-", V("a"), V("b"))), RetS(V("t"))])
    h = Func("h", [("a", "int"), ("b", "int")], "int", [Decl("u", "int", Call("f", [V("b"), V("a")], "int")), RetS(Bin("+", V("u"), V("a")))])
    ev = Func("par", [("n", "int"), ("k", "bool")], "bool", [If([(Bin("<=", V("n"), I(0)), [RetS(Bin("e", V("k", "bool"), Par(Bin("==", V("n"), I(0)))))])]),
                                                             RetS(Call("par", [Bin("-", V("n"), I(1)), Un("nao", V("k", "bool"))], "bool"))])

    def e(d):
        k = g.pick(4) if d else g.pick(2)
        if k == 0:
            return Read("int")
        if k == 1:
            return I(3)
        return Call("f" if k == 2 else "h", [e(d - 1), e(d - 1)], "int")
    k = g.pick(3)
    if k == 0:
        return [f, h, Mostra(Call(g.choose(["f", "h"]), [e(1), e(1)], "int"))]
    if k == 1:
        return [ev, Mostra(Call("par", [Bin("%", Read("int"), I(4)), B(True)], "bool"))]
    return [f, h, Decl("v", "int", Call("h", [e(0), Bin("-", Call("f", [e(0), I(1)], "int"), e(0))], "int")), Mostra(V("v"))]


def methods(ctx):
    """methods of the same name on different types, calling each other, changing alvo, recursion, results used"""
    g = G(ctx)
    P, Q = ("reg", "P"), ("reg", "Q")
    order = g.pick(2)
    same = g.choose(["m", "x"])
    mp = Func("m", [("k", "int")], "int", [Mostra(I(1)), Asg(Fld(V("alvo"), "v", "int"), V("k"), "+="), RetS(Fld(V("alvo"), "v", "int"))], reg="P")
    mq = Func("m", [("k", "int")], "int", [Mostra(I(2)), Decl("l", "int", V("k")), RetS(Bin("*", Fld(V("alvo"), "v", "int"), V("l")))], reg="Q")
    mr = Func("r", [("n", "int")], "int", [If([(Bin("<=", V("n"), I(0)), [RetS(Fld(V("alvo"), "v", "int"))])]), Asg(Fld(V("alvo"), "v", "int"), I(2), "+="),
                                             RetS(Bin("+", MCall(V("alvo", P), "r", [Bin("-", V("n"), I(1))], "int", "P"), V("n")))], reg="P")
    fm = Func("m", [("k", "int")], "int", [Mostra(I(3)), RetS(V("k"))])
    defs = [RegDef("P", [("v", "int")]), RegDef("Q", [("w", "int"), ("v", "int")])] + ([mp, mq, mr] if order == 0 else [mq, mp, mr]) + ([fm] if g.pick(2) else [])
    defs += [Decl("p", P, New("P", [("v", Read("int"))])), Decl("q", Q, New("Q", [("w", I(4)), ("v", I(5))]))]
    hasf = any(d is fm for d in defs)
    calls = [lambda: MCall(V("p", P), "m", [I(2)], "int", "P"), lambda: MCall(V("q", Q), "m", [Read("int")], "int", "Q"),
             lambda: MCall(V("p", P), "r", [I(2)], "int", "P"), lambda: Call("m", [I(9)], "int") if hasf else Fld(V("q"), "w", "int"),
             lambda: MCall(New("P", [("v", I(30))]), "m", [MCall(V("p", P), "m", [I(1)], "int", "P")], "int", "P")]
    a, b = g.choose(calls)(), g.choose(calls)()
    k = g.pick(3)
    st = [[Mostra(Bin("-", a, b))], [ES(a), Mostra(b)], [If([(Bin(">", a, b), [Mostra(I(70))])], [Mostra(I(71))])]][k]
    return defs + st + [Mostra(Fld(V("p"), "v", "int")), Mostra(Fld(V("q"), "v", "int"))]


TY = ["int", "real", "bool", "texto", "P", "U"]
VAL = {"1": "int", "x": "int", "1.5": "real", "verdadeiro": "bool", '"a"': "texto", "p": "P", "u": "U", "v": "[int]", "nulo": "nulo"}
PRE = "x: int = 1\nregisto P\n a: int\n b: real\nfim\nuniao U\n N(int, texto),\n Z\nfim\np: P = P(a: 1, b: 2.0)\nu: U = U::Z\nv: [int] = [int: 1]\n"


def fits(t, v):
    return VAL[v] == t or (t == "real" and VAL[v] == "int")


def rejects(ctx):
    """wrong number, name or type of arguments is rejected; the right ones are accepted"""
    k = ctx.pick(5)
    h = lambda n: f"hole{n}__"
    vals = list(VAL)
    if k in (0, 1):
        n, m = ctx.pick(3), ctx.pick(4)
        if n == 2 and m == 2 and not THOROUGH:
            vals = ["1", "1.5", '"a"', "p"]
        alts = [TY] * n + [vals] * m
        decl = ", ".join(f"p{j}: {h(j)}" for j in range(n))
        args = ", ".join(h(n + j) for j in range(m))
        if m != n:
            alts = [TY[:2]] * n + [vals[:3]] * m
        if k == 0:
            src = PRE + f"func f({decl}): int\n retorna 1\nfim\nmostra f({args})\n"
        else:
            src = PRE + f"met P::f({', '.join(['alvo'] + ([decl] if decl else []))}): int\n retorna 1\nfim\nmostra p.f({args})\n"
        return src, alts, lambda c: n == m and all(fits(c[j], c[n + j]) for j in range(n)), "arguments of a " + ("method" if k else "function")
    if k == 2:
        n = 1 + ctx.pick(3)
        alts = sum([[["a", "b", "c"], ["1", "1.5", '"a"']] for _ in range(n)], [])
        src = PRE + f"q: P = P({', '.join(f'{h(2*j)}: {h(2*j+1)}' for j in range(n))})\n"
        return src, alts, lambda c: sorted(c[::2]) == ["a", "b"] and all(fits("int" if f == "a" else "real", v) for f, v in zip(c[::2], c[1::2])), "record initialisers"
    if k == 3:
        n = ctx.pick(4)
        src = PRE + f"q: U = U::{h(0)}" + (f"({', '.join(h(j + 1) for j in range(n))})" if n else "") + "\n"
        return src, [["N", "Z", "K"]] + [vals[:7]] * n, lambda c: (c[0] == "Z" and n == 0) or (c[0] == "N" and n == 2 and fits("int", c[1]) and fits("texto", c[2])), "variant arguments"
    pre = PRE + "func f(a: int): int\n retorna a\nfim\nmet P::f(alvo, a: int): int\n retorna a\nfim\n"
    names = ["x", "f", "p", "P", "U", "nada", "v", "u"]
    k2 = ctx.pick(3)
    if k2 == 0:
        return pre + "mostra hole0__(1)\n", [names], lambda c: c[0] == "f", "what is called"
    if k2 == 1:
        return pre + "mostra hole0__.hole1__(1)\n", [names, ["f", "a", "g"]], lambda c: c[0] == "p" and c[1] == "f", "what is called"
    return pre + "z: int = hole0__.hole1__\n", [names, ["f", "a", "b", "c"]], lambda c: c[0] == "p" and c[1] == "a", "the field that is read"


def main():
    return tv_check("C12", {"args_order": args_order, "types": types_, "nested": nested, "methods": methods, "rejects": (rejects, {"sym": True})}, [
        "functions, methods, record constructors (every order of fields up to 3) and variants of 1-4 arguments, each argument an effectful call, a global or an input",
        "pairs of parameter types among int, real, bool, texto, vector, record, optional; call nesting <= 3; recursion and mutual recursion <= 20 frames",
        "acceptance: 0-2 parameters of 7 types against 0-3 arguments of 7 types; inputs symbolic in [-20,20]"])
