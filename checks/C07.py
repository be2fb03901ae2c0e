"""C07 integers stored where a real is expected become reals"""
from framework import tv_check, THOROUGH
from gx import *

P = ("reg", "P")
VR, OR = ("vec", "real"), ("opt", "real")
DEFS = [RegDef("P", [("k", "int"), ("r", "real"), ("o", OR)]), UniDef("U", [("A", ["real", "int"]), ("B", ["int"]), ("C", [])]),
        Func("fi", [("n", "int")], "int", [RetS(Bin("+", V("n"), I(1)))]),
        Func("mi", [("n", "int")], "int", [RetS(Bin("-", Fld(V("alvo"), "k", "int"), V("n")))], reg="P"),
        Func("show", [("q", "real")], None, [Mostra(V("q", "real")), Mostra(Bin("//", V("q", "real"), I(2))), Mostra(Fmt(["<", V("q", "real"), ">"]))])]


def forms(x):
    """int expressions of every form over the int variable x"""
    return [lambda: I(3), lambda: V(x), lambda: Bin("+", V(x), I(1)), lambda: Un("-", V(x)), lambda: Bin("//", V(x), I(2)), lambda: Call("fi", [V(x)], "int"),
            lambda: MCall(V("p", P), "mi", [I(2)], "int", "P"), lambda: Idx(V("vi", ("vec", "int")), I(1)), lambda: Fld(V("p", P), "k", "int"),
            lambda: Valor(V("oi", ("opt", "int"))), lambda: ValorOu(V("oi", ("opt", "int")), V(x)), lambda: Conv(R(7.5), "int"), lambda: Par(V(x)),
            lambda: Nat("tam", [V("vi", ("vec", "int"))], "int"), lambda: Read("int"), lambda: Un("-", Par(Un("+", V(x)))), lambda: Bin("%", Call("fi", [V(x)], "int"), I(3))]


def setup():
    return [Decl("x", "int", Read("int")), Decl("vi", ("vec", "int"), VecLit("int", [I(4), V("x")])), Decl("oi", ("opt", "int"), V("x")),
            Decl("p", P, New("P", [("k", I(5)), ("r", R(0.5)), ("o", NULO)])), Decl("d", "real", R(1.5)), Decl("vr", VR, VecLit("real", [R(1.5), R(2.5)])),
            Decl("o", OR, NULO)]


D, VRv, Pv, Ov = V("d", "real"), V("vr", VR), V("p", P), V("o", OR)


def positions(e, g):
    """(defs, statements) storing e() in a real position and observing it"""
    pr = lambda x: [Mostra(x), Mostra(Bin("//", x, I(2))), ES(Call("show", [x]))]
    return [
        lambda: ([], [Decl("z", "real", e()), *pr(V("z", "real"))]),
        lambda: ([], [Asg(D, e()), *pr(D)]),
        lambda: ([], [Asg(D, e(), g.choose(["+=", "-=", "*=", "/="])), *pr(D)]),
        lambda: ([Func("f", [("a", "int"), ("q", "real")], "real", [Mostra(V("q", "real")), RetS(Bin("+", V("q", "real"), V("a")))])],
                 [Mostra(Call("f", [I(1), e()], "real"))]),
        lambda: ([Func("f", [("q", "real")], "real", [Asg(V("q", "real"), e()), RetS(V("q", "real"))])], [Mostra(Call("f", [R(2.5)], "real"))]),
        lambda: ([Func("f", [], "real", [If([(Bin(">", V("x"), I(0)), [RetS(e())])]), RetS(e())])], [*pr(Call("f", [], "real"))]),
        lambda: ([Func("mm", [("q", "real")], "real", [Mostra(V("q", "real")), RetS(e())], reg="P")], [Mostra(MCall(Pv, "mm", [e()], "real", "P"))]),
        lambda: ([], [Decl("w", P, New("P", [("k", I(1)), ("r", e()), ("o", e())])), *pr(Fld(V("w", P), "r", "real")), *pr(Valor(Fld(V("w", P), "o", OR)))]),
        lambda: ([], [Decl("w", P, New("P", [("o", e()), ("r", e()), ("k", I(1))])), *pr(Fld(V("w", P), "r", "real"))]),
        lambda: ([], [Asg(Fld(Pv, "r", "real"), e()), *pr(Fld(Pv, "r", "real"))]),
        lambda: ([], [Asg(Fld(Pv, "r", "real"), e(), g.choose(["+=", "*="])), *pr(Fld(Pv, "r", "real"))]),
        lambda: ([], [Asg(Fld(Pv, "o", OR), e()), *pr(Valor(Fld(Pv, "o", OR)))]),
        lambda: ([], [Decl("w", VR, VecLit("real", [R(0.5), e(), e()])), Mostra(V("w", VR)), *pr(Idx(V("w", VR), I(1)))]),
        lambda: ([], [Asg(Idx(VRv, I(1)), e()), Mostra(VRv), *pr(Idx(VRv, I(1)))]),
        lambda: ([], [Asg(Idx(VRv, I(0)), e(), g.choose(["+=", "/="])), Mostra(VRv), *pr(Idx(VRv, I(0)))]),
        lambda: ([], [ES(Nat("anexa", [VRv, e()], None)), Mostra(VRv), *pr(Idx(VRv, I(2)))]),
        lambda: ([], [Decl("w", OR, e()), Mostra(V("w", OR)), *pr(Valor(V("w", OR)))]),
        lambda: ([], [Asg(Ov, e()), Mostra(Ov), *pr(Valor(Ov))]),
        lambda: ([], [*pr(ValorOu(Ov, e()))]),
        lambda: ([Func("f", [("q", OR)], OR, [Mostra(V("q", OR)), RetS(e())])], [Mostra(Call("f", [e()], OR))]),
        lambda: ([], [Decl("z", "real"), Asg([V("z", "real"), D], e()), *pr(V("z", "real")), *pr(D)]),
        lambda: ([], [Decl("u", ("uni", "U"), Variant("U", "A", [e(), V("x")])),
                      IgualaS(V("u", ("uni", "U")), [(PVar("U", "A", [PBind("b"), PBind("c")]), [*pr(V("b", "real")), Mostra(V("c"))]), (PBind("rest"), [Mostra(I(0))])])]),
        lambda: ([], [Decl("z", "real", Iguala(Variant("U", "B", [V("x")]), [(PVar("U", "B", [PBind("b")]), e()), (PBind("rest"), e())], "real")), *pr(V("z", "real"))]),
        lambda: ([], [Mostra(Bin(g.choose(["+", "-", "*"]), e(), D)), Mostra(Bin("-", D, e())), Mostra(Bin("//", e(), D))]),
        lambda: ([], [Mostra(Bin(g.choose(["==", "<", ">="]), e(), D)), Mostra(Bin("!=", D, e()))]),
        lambda: ([], [Decl("w", ("vec", VR), VecLit(VR, [VecLit("real", [e(), R(0.5)])])), Mostra(V("w", ("vec", VR))), Asg(Idx(Idx(V("w", ("vec", VR)), I(0), VR), I(1), "real"), e()), Mostra(V("w", ("vec", VR)))]),
    ]


def gen(ctx):
    g = G(ctx)
    nf = len(forms("x"))
    k = g.pick(nf)
    cnt = [0]

    def e():
        return forms("x")[k]()
    n = len(positions(e, g))
    d, st = positions(e, g)[g.pick(n)]()
    where = g.pick(2 if not d else 1)
    if where == 0:
        return DEFS + setup() + d + st
    return DEFS + [Decl("x", "int", Read("int")) if s.name == "x" else s for s in setup()] + [If([(B(True), st)])]


def inside(ctx):
    """the same positions inside a function, over parameters and locals"""
    g = G(ctx)
    k = g.choose(range(17) if THOROUGH else [1, 2, 5, 7, 14])
    e = lambda: forms("y")[k]()
    n = len(positions(e, g))
    d, st = positions(e, g)[g.pick(n)]()
    if d:
        return None
    return DEFS + setup() + [Func("run", [("y", "int")], None, st), ES(Call("run", [Read("int")]))]


def main():
    return tv_check("C07", {"positions": gen, "inside": inside}, [
        "every pair of 17 forms of int expression and 26 positions of type real (declaration, assignment, compound assignment, argument, return, record field, vector element, optional, variant, match result, operand), at program level, in a block and in a function",
        "int inputs symbolic in [-20,20]"])
