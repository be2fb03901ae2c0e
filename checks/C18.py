"""C18 a run-time error names the source line that failed

Programs in which every statement may be the one that fails: each divides by
(input - k) for a k of its own, so the solver drives the failure to every statement,
in every iteration, branch and call.  The line (and call trace) that the emitted line
table gives for the failing instruction must be the statement's."""
from framework import tv_check, THOROUGH
from gx import *

L = {"check_lines": True, "lo": 0, "hi": 9}
P, VI = ("reg", "P"), ("vec", "int")
GAPS = ["", "# comentário", "  "]


class Risk:
    """statements that fail for one value of the input each"""

    def __init__(self, ctx, x="x"):
        self.ctx, self.k, self.x, self.u = ctx, 0, x, 0

    def z(self):
        self.k += 1
        return Bin("-", V(self.x), I(self.k), paren=True)

    def risky(self):
        return Bin("//", I(100), self.z(), paren=True)

    def name(self, p):
        self.u += 1
        return f"{p}{self.u}"

    def stmt(self, kinds=None):
        k = self.ctx.choose(kinds or STM)
        r = self.risky
        if k == "mostra":
            return [Mostra(r())]
        if k == "decl":
            return [Decl(self.name("d"), "int", r())]
        if k == "asg":
            return [Asg(V("a"), r())]
        if k == "aug":
            return [Asg(V("a"), r(), "+=")]
        if k == "fld":
            return [Asg(Fld(V("p", P), "f", "int"), r())]
        if k == "idx":
            return [Asg(Idx(V("v", VI), self.z()), I(7))]      # out of range except for two inputs
        if k == "get":
            return [Mostra(Idx(V("v", VI), Bin("-", V(self.x), I(self.k), paren=True)))]
        if k == "fmt":
            return [Mostra(Fmt(["<", r(), ">"]))]
        if k == "valor":
            return [Mostra(Valor(Call("mk", [self.z()], ("opt", "int"))))]
        if k == "cast":
            return [Mostra(Conv(Call("tx", [self.z()], "texto"), "int"))]
        if k == "over":
            return [Mostra(Bin("+", I(2**63 - 6), V(self.x)))]
        if k == "call":
            return [ES(Call("id", [r()], None))]
        if k == "blank":
            return [Raw(self.ctx.choose(GAPS))] + [Mostra(r())]
        raise AssertionError(k)


STM = ["mostra", "decl", "asg", "aug", "fld", "idx", "get", "fmt", "valor", "cast", "over", "call", "blank"]
FEW = ["mostra", "aug", "blank"]


def header(x=True):
    defs = [RegDef("P", [("f", "int")]), Raw(""), Func("mk", [("k", "int")], ("opt", "int"), [If([(Bin("==", V("k"), I(0)), [RetS(NULO)])]), RetS(V("k"))]),
            Func("tx", [("k", "int")], "texto", [Raw("# nada"), If([(Bin("==", V("k"), I(0)), [RetS(S("z"))])]), RetS(Fmt([V("k")]))]), Func("id", [("k", "int")], None, [Mostra(V("k"))])]
    return defs + ([Decl("x", "int", Read("int"))] if x else []) + pre()


def pre():
    return [Decl("a", "int", I(0)), Decl("p", P, New("P", [("f", I(0))])), Decl("v", VI, VecLit("int", [I(1), I(2)]))]


def statements(ctx):
    r = Risk(ctx)
    b = r.stmt() + r.stmt() + [Mostra(I(1))]
    return header() + b if ctx.pick(2) == 0 else header(False) + [Raw(""), Func("f", [("x", "int")], None, pre() + b), Raw(""), Decl("y", "int", Read("int")), ES(Call("f", [V("y")], None)), Mostra(I(2))]


def cond(r):
    return Bin("<", r.risky(), I(1000))


def construct(r, d, kinds=None):
    """a construct whose header and inner statements may all fail"""
    c = r.ctx
    s = lambda: r.stmt(FEW[:1])
    if d == 0:
        return r.stmt(FEW[:2] if not THOROUGH else FEW)
    k = c.pick(10) if kinds is None else c.choose(kinds)
    w = c.pick(2)
    sub = lambda j: (s() + construct(r, d - 1) + s()) if j == w else s()
    if k == 0:
        return [If([(cond(r), sub(0))], sub(1))]
    if k == 1:
        return [If([(Bin(">", r.risky(), I(1000)), s()), (Bin(">", V("x"), I(4)), sub(0)), (cond(r), sub(1))], s())]
    if k == 2:
        n = r.name("n")
        return [Decl(n, "int", I(0)), While(Bin("<", V(n), Bin("+", I(2), Bin("*", r.risky(), I(0)))), s() + sub(w) + [Asg(V(n), I(1), "+=")])]
    if k == 3:
        i = r.name("i")
        return [For(i, I(0), Bin("+", I(2), Bin("*", r.risky(), I(0))), [Mostra(Bin("//", I(9), Bin("-", Bin("+", V("x"), V(i)), I(3 + r.k), paren=True)))] + sub(w) + s())]
    if k == 4:
        i = r.name("i")
        return [For(i, I(0), I(3), s() + sub(w) + [Mostra(V(i))], Bin("+", I(2), Bin("*", r.risky(), I(0))))]
    if k == 5:
        return [Switch(Bin("%", r.risky(), I(2)), [(I(0), sub(0)), (I(1), s())], sub(1))]
    if k == 6:
        return [IgualaS(Bin("%", r.risky(), I(3)), [(PLit(I(0)), sub(0)), (PLit(I(1)), s()), (PBind("_"), sub(1))])]
    if k == 7:
        U = ("uni", "U")
        return [IgualaS(Call("mu", [r.z()], U), [(PVar("U", "A", [PLit(I(1))]), s()), (PVar("U", "B"), sub(0)), (PVar("U", "A", [PBind("_")]), sub(1)), (PVar("U", "C", [PBind("_"), PLit(I(2))]), s()), (PBind("_"), s())])]
    if k == 8:
        return [SeIguala(Call("mu", [r.z()], ("uni", "U")), PVar("U", "A", [PBind("q")]), sub(0), sub(1))]
    e = Iguala(Bin("%", r.risky(), I(3)), [(PLit(I(0)), r.risky()), (PLit(I(1)), sub(w), r.risky()), (PBind("_"), Bin("+", I(1), r.risky()))], "int")
    return [Decl(r.name("g"), "int", e) if w else Mostra(e)]


UNI = [UniDef("U", [("A", ["int"]), ("B", []), ("C", ["int", "int"])]),
       Func("mu", [("k", "int")], ("uni", "U"), [If([(Bin("==", V("k"), I(0)), [RetS(Variant("U", "B"))]), (Bin("<", V("k"), I(3)), [RetS(Variant("U", "A", [V("k")]))])]), RetS(Variant("U", "C", [V("k"), I(2)]))])]


def nest(ctx):
    r = Risk(ctx)
    b = r.stmt(FEW[:1]) + construct(r, 1 if not THOROUGH else 2) + r.stmt(FEW[:1])
    if ctx.pick(2):
        return header() + UNI + b
    return header(False) + UNI + [Func("f", [("x", "int")], None, pre() + b), Decl("y", "int", Read("int")), ES(Call("f", [V("y")], None)), Mostra(I(2))]


def nest2(ctx):
    r = Risk(ctx)
    return header() + UNI + construct(r, 2) + r.stmt(FEW[:1])


def calls(ctx):
    """the call trace: functions, methods, recursion, calls inside expressions and loops"""
    r = Risk(ctx)
    k = ctx.pick(8)
    x = lambda: Decl("x", "int", Read("int"))
    f = Func("f", [("x", "int")], "int", [Mostra(r.risky()), Raw(""), RetS(Bin("+", r.risky(), I(1)))])
    g = Func("g", [("x", "int")], "int", [Decl("t", "int", Call("f", [Bin("+", V("x"), I(1))], "int")), Raw("# x"), Mostra(r.risky()), RetS(Bin("*", V("t"), Call("f", [Bin("-", V("x"), I(1))], "int")))])
    call = lambda n, e: Call(n, [e], "int")
    if k == 0:
        return [f, g, x(), Mostra(call("g", V("x"))), Mostra(call("f", V("x")))]
    if k == 1:
        return [f, Raw(""), g, x(), Mostra(Bin("+", call("f", V("x")), call("g", V("x"))))]
    if k == 2:
        h = Func("h", [("x", "int")], "int", [If([(Bin("<", V("x"), I(1)), [RetS(Bin("//", I(1), V("x")))])]), RetS(Bin("+", I(1), call("h", Bin("-", V("x"), I(1)))))])
        return [h, x(), Mostra(I(1)), Mostra(call("h", V("x")))]
    if k == 3:
        m = Func("m", [("x", "int")], "int", [Asg(Fld(V("alvo"), "f", "int"), r.risky()), RetS(Bin("//", Fld(V("alvo"), "f", "int"), Bin("-", V("x"), I(5))))], reg="P")
        m2 = Func("m2", [("x", "int")], "int", [Raw(""), RetS(MCall(V("alvo", P), "m", [V("x")], "int", "P"))], reg="P")
        return [RegDef("P", [("f", "int")]), m, m2, x(), Decl("p", P, New("P", [("f", r.risky())])), Mostra(MCall(V("p", P), "m2", [V("x")], "int", "P")), Mostra(Fld(V("p", P), "f", "int"))]
    if k == 4:
        return [f, x(), For("i", I(0), I(3), [Raw(""), Mostra(V("i")), Mostra(call("f", Bin("-", V("x"), V("i"))))]), Mostra(r.risky())]
    if k == 5:
        return [f, g, x(), If([(Bin(">", call("f", V("x")), I(1)), [Mostra(I(1))]), (Bin(">", call("g", V("x")), I(1)), [Mostra(I(2))])], [Mostra(call("f", Bin("-", V("x"), I(3))))])]
    if k == 6:
        w = Func("w", [("x", "int")], "int", [Decl("n", "int", I(0)), While(Bin("<", V("n"), I(3)), [Asg(V("n"), I(1), "+="), If([(Bin("==", V("n"), V("x")), [Raw(""), Mostra(call("f", V("n")))])])]), RetS(call("f", V("x")))])
        return [f, w, x(), Mostra(call("w", V("x"))), Mostra(call("w", Bin("-", V("x"), I(4))))]
    v = Func("v", [("x", "int"), ("w", VI)], None, [Asg(Idx(V("w", VI), Bin("-", V("x"), I(6))), call("f", V("x"))), Mostra(V("w", VI))])
    return [f, v, x(), Raw(""), ES(Call("v", [Bin("+", V("x"), I(1)), VecLit("int", [I(1), I(2)])], None)), Mostra(r.risky())]


def main():
    f = {"statements": (statements, L), "nest": (nest, L), "calls": (calls, L), "nest2": (nest2, L)}
    return tv_check("C18", f, [f"{len(STM)} kinds of failing statement in pairs; 10 kinds of construct nested up to 2 deep with failing headers, bodies and what follows them, at top level and in a function; call traces of depth 1 to 10",
                               "each statement on one line; iguala expressions on several, an alternative counting as the line it is on"], level="other", budget=75 if not THOROUGH else 600)
