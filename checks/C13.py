"""C13 element, field and compound assignment update exactly one place"""
from framework import tv_check, THOROUGH
from gx import *

P, Q = ("reg", "P"), ("reg", "Q")
VI, VR, VVI = ("vec", "int"), ("vec", "real"), ("vec", ("vec", "int"))
DEFS = [RegDef("P", [("a", "int"), ("b", "real"), ("c", "int")]), RegDef("Q", [("p", P), ("v", VI), ("k", "int")]),
        Func("id", [("o", P)], P, [Mostra(I(900)), RetS(V("o", P))]),
        Func("iv", [("o", VI)], VI, [Mostra(I(901)), RetS(V("o", VI))]),
        Func("ix", [("k", "int")], "int", [Mostra(Bin("+", V("k"), I(800))), RetS(V("k"))])]


def setup():
    r = lambda: Read("int")
    return DEFS + [
        Decl("x", "int", r()), Decl("y", "int", r()), Decl("z", "real", R(2.5)),
        Decl("p", P, New("P", [("a", V("x")), ("b", R(0.5)), ("c", I(7))])), Decl("p2", P, V("p", P)),
        Decl("p3", P, New("P", [("a", I(11)), ("b", I(12)), ("c", I(13))])),
        Decl("v", VI, VecLit("int", [I(1), V("y"), I(3)])), Decl("w", VI, V("v", VI)), Decl("u", VI, VecLit("int", [I(4), I(5), I(6)])),
        Decl("q", Q, New("Q", [("p", V("p", P)), ("v", V("v", VI)), ("k", I(8))])),
        Decl("m", VVI, VecLit(VI, [VecLit("int", [I(21), I(22)]), V("v", VI)])),
        Decl("vr", VR, VecLit("real", [R(1.5), I(2)])),
        Decl("vp", ("vec", P), VecLit(P, [V("p", P), V("p3", P)]))]


def dump():
    f = lambda o, n, t="int": Mostra(Fld(V(o), n, t))
    out = [Mostra(V(n)) for n in "xyz"]
    for o in ("p", "p2", "p3"):
        out += [f(o, "a"), f(o, "b", "real"), f(o, "c")]
    out += [Mostra(V(n, VI)) for n in ("v", "w", "u")] + [Mostra(V("m", VVI)), Mostra(V("vr", VR))]
    out += [Mostra(Fld(Fld(V("q"), "p", P), "a", "int")), Mostra(Fld(V("q"), "v", VI)), f("q", "k")]
    return out + [Mostra(Fld(Idx(V("vp", ("vec", P)), I(1)), "c", "int"))]


def targets(g, idx):
    v = lambda n, t=VI: V(n, t)
    return {
        "x": lambda: V("x"),
        "p.a": lambda: Fld(v("p", P), "a", "int"),
        "p2.c": lambda: Fld(v("p2", P), "c", "int"),
        "p.b": lambda: Fld(v("p", P), "b", "real"),
        "v": lambda: Idx(v("v"), idx()),
        "w": lambda: Idx(v("w"), idx()),
        "vr": lambda: Idx(v("vr", VR), I(1)),
        "q.p.a": lambda: Fld(Fld(v("q", Q), "p", P), "a", "int"),
        "q.v": lambda: Idx(Fld(v("q", Q), "v", VI), idx()),
        "m": lambda: Idx(Idx(v("m", VVI), I(1)), idx()),
        "m0": lambda: Idx(Idx(v("m", VVI), idx()), I(0)),
        "vp": lambda: Fld(Idx(v("vp", ("vec", P)), idx()), "c", "int"),
        "id.a": lambda: Fld(Call("id", [v("p", P)], P), "a", "int"),
        "iv": lambda: Idx(Call("iv", [v("v")], VI), Call("ix", [I(1)], "int")),
        "vix": lambda: Idx(v("v"), Call("ix", [idx()], "int")),
        "q.k": lambda: Fld(v("q", Q), "k", "int"),
    }


NAMES = ["x", "p.a", "p2.c", "p.b", "v", "w", "vr", "q.p.a", "q.v", "m", "m0", "vp", "id.a", "iv", "vix", "q.k"]


def idxs(g):
    return g.choose([lambda: I(0), lambda: I(2), lambda: V("x"), lambda: Bin("-", V("y"), I(1))]) if THOROUGH else g.choose([lambda: I(1), lambda: V("x")])


def values(g, real=False):
    c = [lambda: Read("int"), lambda: Fld(V("p", P), "a", "int"), lambda: Idx(V("v", VI), I(1)), lambda: Call("ix", [I(5)], "int")]
    if real:
        c += [lambda: R(0.25)]
    return g.choose(c)()


def one(ctx):
    """one plain or compound assignment of each form, everything printed afterwards"""
    g = G(ctx)
    n = g.choose(NAMES)
    t = targets(g, idxs(g))[n]()
    real = n in ("p.b", "vr")
    op = g.choose(["=", "+=", "-=", "*="] + (["/="] if real else []))
    return setup() + [Asg(t, values(g, real), op)] + dump()


def two(ctx):
    """two assignments in a row; the second may read what the first wrote"""
    g = G(ctx)
    ns = ["x", "p.a", "v", "q.p.a", "q.v", "m", "w", "vr"] if not THOROUGH else NAMES
    ts = targets(g, lambda: I(1))
    a, b = g.choose(ns), g.choose(ns)
    op = g.choose(["=", "+=", "*="])
    ts2 = targets(g, lambda: g.choose([I(1), V("x")]) if b in ("v", "m") else I(2))
    return setup() + [Asg(ts[a](), Read("int"), "="), Asg(ts2[b](), ts[a]() if a != "vr" else I(3), op)] + dump()


def chained(ctx):
    """t1 = t2 [= t3] = value"""
    g = G(ctx)
    ns = ["x", "p.a", "v", "q.p.a", "q.v", "m", "vix", "id.a"]
    ts = targets(g, g.choose([lambda: I(1), lambda: V("x")]))
    k = g.pick(3)
    if k == 0:
        return setup() + [Asg([ts[g.choose(ns)](), ts[g.choose(ns)]()], values(g))] + dump()
    if k == 1:
        a, b, c = g.choose(["x", "p.a", "v"]), g.choose(["x", "q.v", "vix"]), g.choose(["x", "m", "q.p.a"])
        return setup() + [Asg([ts[a](), ts[b](), ts[c]()], Read("int"))] + dump()
    a = g.choose([V("z", "real"), ts["p.b"](), ts["vr"]()])     # an int target's value flows into a real one
    return setup() + [Asg([a, ts[g.choose(["x", "p.a", "v", "q.v"])]()], Read("int"))] + dump()


def whole(ctx):
    """assigning a whole vector or record makes it shared, assigning a name does not touch the old object"""
    g = G(ctx)
    k = g.pick(7)
    v, u, p = V("v", VI), V("u", VI), V("p", P)
    st = [lambda: [Asg(V("v", VI), u), Asg(Idx(v, I(0)), Read("int"))],
          lambda: [Asg(Fld(V("q", Q), "v", VI), u), Asg(Idx(Fld(V("q", Q), "v", VI), V("x")), I(77)), Asg(Idx(u, I(2)), I(78))],
          lambda: [Asg(Idx(V("m", VVI), I(0)), V("v", VI)), Asg(Idx(Idx(V("m", VVI), I(0)), V("x")), I(79), "+=")],
          lambda: [Asg(V("p", P), V("p3", P)), Asg(Fld(p, "a", "int"), Read("int"), "-="), Asg(Fld(V("p2", P), "c", "int"), I(80))],
          lambda: [Asg(Fld(V("q", Q), "p", P), V("p3", P)), Asg(Fld(Fld(V("q", Q), "p", P), "c", "int"), Read("int"), "*=")],
          lambda: [Asg(Idx(V("vp", ("vec", P)), I(1)), p), Asg(Fld(Idx(V("vp", ("vec", P)), I(1)), "c", "int"), Read("int"), "+=")],
          lambda: [Asg([V("v", VI), V("u", VI)], VecLit("int", [I(1), Read("int"), I(2)])), Asg(Idx(v, I(0)), I(81)), Asg(Idx(u, V("x")), I(82))]][k]()
    return setup() + st + dump()


def places(ctx):
    """assignments inside functions, methods, loops and branches"""
    g = G(ctx)
    op = g.choose(["=", "+=", "*="])
    p = V("p", P)
    k = g.pick(6)
    if k == 0:
        f = Func("f", [("o", P), ("s", VI), ("i", "int")], "int", [Asg(Fld(V("o", P), "a", "int"), V("i"), op), Asg(Idx(V("s", VI), V("i")), Bin("+", V("i"), I(50)), op), RetS(Fld(V("o", P), "a", "int"))])
        return setup() + [f, Mostra(Call("f", [g.choose([p, V("p3", P), Fld(V("q", Q), "p", P)]), g.choose([V("v", VI), V("u", VI), Idx(V("m", VVI), I(0))]), V("x")], "int"))] + dump()
    if k == 1:
        m = Func("mm", [("i", "int")], None, [Asg(Fld(V("alvo", P), "c", "int"), V("i"), op), Asg(Fld(V("alvo", P), "b", "real"), V("i"), op)], reg="P")
        return setup() + [m, ES(MCall(g.choose([p, V("p3", P), Fld(V("q", Q), "p", P), Idx(V("vp", ("vec", P)), I(1))]), "mm", [V("y")], None, "P"))] + dump()
    if k == 2:
        return setup() + [For("i", I(0), I(3), [Asg(Idx(V("v", VI), V("i")), V("i"), op), Asg(V("x"), Idx(V("w", VI), V("i")), "+=")])] + dump()
    if k == 3:
        return setup() + [For("i", I(0), I(2), [Asg(Idx(Idx(V("m", VVI), V("i")), I(1)), Bin("+", V("i"), V("x")), op)])] + dump()
    if k == 4:
        return setup() + [If([(Bin(">", V("x"), I(1)), [Asg(Fld(p, "a", "int"), V("y"), op)])], [Asg(Idx(V("u", VI), I(1)), V("y"), op)])] + dump()
    f = Func("g", [("i", "int")], "int", [Asg(V("x"), V("i"), op), Asg(Fld(V("p", P), "a", "int"), V("x"), op), RetS(V("x"))])
    return setup() + [f, Asg(Idx(V("v", VI), I(1)), Call("g", [I(2)], "int"), op), Asg(Fld(V("p3", P), "c", "int"), Call("g", [I(3)], "int"), op)] + dump()


def texts(ctx):
    """bool, texto, optional and union places"""
    g = G(ctx)
    UT = ("uni", "U")
    defs = [UniDef("U", [("N", ["int"]), ("Z", [])]), RegDef("T", [("s", "texto"), ("b", "bool"), ("o", ("opt", "int")), ("u", UT)]),
            Decl("t", ("reg", "T"), New("T", [("s", Read("texto")), ("b", B(True)), ("o", NULO), ("u", Variant("U", "Z"))])), Decl("t2", ("reg", "T"), New("T", [("s", S("k")), ("b", B(False)), ("o", I(4)), ("u", Variant("U", "N", [I(1)]))])),
            Decl("vs", ("vec", "texto"), VecLit("texto", [S("x"), S("y")])), Decl("vb", ("vec", "bool"), VecLit("bool", [B(False), B(True)])), Decl("n", "int", Read("int"))]
    t = lambda f, ty: Fld(V("t"), f, ty)
    st = [lambda: Asg(t("s", "texto"), S("novo")), lambda: Asg(t("b", "bool"), Bin(">", V("n"), I(0))), lambda: Asg(t("o", ("opt", "int")), g.choose([V("n"), NULO])),
          lambda: Asg(t("u", UT), Variant("U", "N", [V("n")])), lambda: Asg(Idx(V("vs", ("vec", "texto")), V("n")), t("s", "texto")), lambda: Asg(Idx(V("vb", ("vec", "bool")), V("n")), B(True)),
          lambda: Asg([Idx(V("vs", ("vec", "texto")), I(0)), t("s", "texto")], S("dd")), lambda: Asg(V("t"), V("t2"))]
    out = [g.choose(st)(), g.choose(st)()]
    show_ = []
    for o in ("t", "t2"):
        show_ += [Mostra(Fld(V(o), "s", "texto")), Mostra(Fld(V(o), "b", "bool")), Mostra(Bin("==", Fld(V(o), "o", ("opt", "int")), NULO)), Mostra(ValorOu(Fld(V(o), "o", ("opt", "int")), I(-1))),
                  SeIguala(Fld(V(o), "u", UT), PVar("U", "N", [PBind("k")]), [Mostra(V("k"))], [Mostra(I(99))])]
    return defs + out + show_ + [Mostra(V("vs", ("vec", "texto"))), Mostra(V("vb", ("vec", "bool")))]


def main():
    return tv_check("C13", {"one": one, "two": two, "chained": chained, "whole": whole, "places": places, "texts": texts}, [
        "16 target forms: variable, field, element, nested field/element, objects and indexes that are calls, elements of vectors of records; '=', '+=', '-=', '*=', '/='; values: inputs, reads of the same objects, calls",
        "chains of 2-3 targets; two assignments in a row; whole-object assignment followed by element/field assignment",
        "objects: 3 records (two names for one), vectors with a second name, shared inside a record and inside a vector; everything printed after the assignment; inputs symbolic in [-20,20]"])
