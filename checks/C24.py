"""C24 vector operations stay in bounds and keep the other elements"""
from framework import tv_check, THOROUGH
from gx import *

P = ("reg", "P")
VI = ("vec", "int")
ELS = {"int": lambda: Read("int"), "real": lambda: R(0.5), "texto": lambda: S("n"), "bool": lambda: B(True), VI: lambda: VecLit("int", [I(50), Read("int")]),
       P: lambda: New("P", [("k", Read("int"))]), ("opt", "int"): lambda: I(6)}
INIT = {"int": [I(10), I(20), I(30)], "real": [R(1.5), I(2), R(3.25)], "texto": [S("a"), S("b"), S("c")], "bool": [B(True), B(False), B(False)],
        VI: [VecLit("int", [I(1), I(2)]), VecLit("int", [I(3)]), VecLit("int", [])], P: [New("P", [("k", I(1))]), New("P", [("k", I(2))]), New("P", [("k", I(3))])],
        ("opt", "int"): [NULO, I(4), NULO]}


def show_el(e, ty):
    if ty == P:
        return [Mostra(Fld(e, "k", "int"))]
    return [Mostra(e)]


def dump(n, ty):
    v = V(n, ("vec", ty))
    if ty == P:
        i = "i" + n
        return [Mostra(Nat("tam", [v], "int")), For(i, I(0), Nat("tam", [v], "int"), [Mostra(Fld(Idx(v, V(i)), "k", "int"))])]
    return [Mostra(Nat("tam", [v], "int")), Mostra(v)]


def op(g, ty, k, idx):
    """one operation on v"""
    v = V("v", ("vec", ty))
    n = g.name("r")
    return [lambda: [ES(Nat("anexa", [v, ELS[ty]()], None))],
            lambda: [Decl(n, ty, Nat("remova", [v, idx()], ty))] + show_el(V(n, ty), ty),
            lambda: show_el(Idx(v, idx()), ty),
            lambda: [Asg(Idx(v, idx()), ELS[ty]())],
            lambda: [ES(Nat("remova", [v, idx()], ty))]][k]()


def ops(ctx):
    """up to three operations with symbolic indexes on a vector that has a second name"""
    g = G(ctx)
    ty = "int"
    n = 1 + g.pick(3)
    body = []
    for j in range(n):
        k = g.pick(5 if j < 2 else 4)
        body += op(g, ty, k, [lambda: V("i"), lambda: V("j"), lambda: I(1)][j])
    size = g.pick(4) if n < 3 or THOROUGH else 2
    vt = ("vec", ty)
    return [Decl("i", "int", Read("int")), Decl("j", "int", Read("int")), Decl("v", vt, VecLit(ty, INIT[ty][:size])), Decl("w", vt, V("v", vt)),
            Decl("o", vt, VecLit(ty, INIT[ty]))] + body + dump("v", ty) + dump("w", ty) + dump("o", ty)


def types_(ctx):
    """the same for every element type"""
    g = G(ctx)
    ty = g.choose([t for t in ELS if t != "int"])
    vt = ("vec", ty)
    body = []
    for j in range(1 + g.pick(2)):
        body += op(g, ty, g.pick(5), [lambda: V("i"), lambda: I(0)][j])
    size = g.choose([0, 3])
    return [RegDef("P", [("k", "int")]), Decl("i", "int", Read("int")), Decl("v", vt, VecLit(ty, INIT[ty][:size])), Decl("w", vt, V("v", vt))] + body + dump("v", ty) + dump("w", ty)


def dims(ctx):
    """vec builds the requested dimensions with distinct rows"""
    g = G(ctx)
    ty = g.choose(["int", "real", "bool", "texto"])
    n = 1 + g.pick(3 if not THOROUGH else 4)
    ds = [g.choose([I(2), V("a"), V("b")]) if k < 2 else I(2) for k in range(n)]
    t = ty
    for _ in range(n):
        t = ("vec", t)
    out = [Decl("a", "int", Read("int")), Decl("b", "int", Read("int"))]
    sz = lambda x: If([(Bin("ou", Bin("<", V(x), I(-1)), Bin(">", V(x), I(3))), [Asg(V(x), I(2))])])
    out += [sz("a"), sz("b"), Decl("m", t, Nat("vec", [V(ty, "tipo")] + ds, t)), Mostra(V("m", t)), Mostra(Nat("tam", [V("m", t)], "int"))]
    e, et = V("m", t), t
    for k in range(n):
        e, et = Idx(e, g.choose([I(0), V("b")]) if k == 0 else I(1 if k == n - 1 else 0)), et[1]
    new = {"int": I(9), "real": R(9.5), "bool": B(True), "texto": S("z")}[ty]
    out += [Asg(e, new), Mostra(V("m", t))]
    if n > 1:
        out += [ES(Nat("anexa", [Idx(V("m", t), I(1)), VecLit(t[1][1][1], []) if n > 2 else new], None)), Mostra(V("m", t))]
    return out


def nested(ctx):
    """operations on rows of vectors of vectors, elements of fields, results of calls"""
    g = G(ctx)
    VV = ("vec", VI)
    m, q = V("m", VV), V("q", ("reg", "Q"))
    pre = [RegDef("Q", [("v", VI), ("n", "int")]), Decl("i", "int", Read("int")), Decl("r", VI, VecLit("int", [I(1), I(2), I(3)])),
           Decl("m", VV, VecLit(VI, [V("r", VI), VecLit("int", [I(4)]), V("r", VI)])), Decl("q", ("reg", "Q"), New("Q", [("v", V("r", VI)), ("n", I(0))])),
           Func("row", [("k", "int")], VI, [Mostra(Bin("+", V("k"), I(600))), RetS(Idx(m, V("k")))])]
    tgt = g.choose([lambda: Idx(m, V("i")), lambda: Idx(m, I(1)), lambda: Fld(q, "v", VI), lambda: V("r", VI), lambda: Call("row", [V("i")], VI), lambda: Nat("remova", [m, V("i")], VI)])
    k = g.pick(6)
    st = [lambda: [ES(Nat("anexa", [tgt(), Read("int")], None))], lambda: [Mostra(Nat("remova", [tgt(), I(0)], "int"))], lambda: [Mostra(Idx(tgt(), V("i")))],
          lambda: [Asg(Idx(tgt(), I(0)), V("i"))], lambda: [Mostra(Nat("tam", [tgt()], "int"))], lambda: [Asg(Idx(tgt(), I(0)), I(2), "*=")]][k]()
    return pre + st + [Mostra(m), Mostra(V("r", VI)), Mostra(Fld(q, "v", VI)), Mostra(Nat("tam", [m], "int"))]


def loops(ctx):
    """building, reading and emptying vectors in loops"""
    g = G(ctx)
    v = V("v", VI)
    T_ = Nat("tam", [v], "int")
    pre = [Decl("n", "int", Bin("%", Read("int"), I(4))), Decl("v", VI, VecLit("int", [])), For("i", I(0), V("n"), [ES(Nat("anexa", [v, Bin("*", V("i"), V("i"))], None))]), Mostra(v)]
    k = g.pick(5)
    st = [lambda: [While(Bin(">", T_, I(0)), [Mostra(Nat("remova", [v, g.choose([I(0), Bin("-", T_, I(1))])], "int"))])],
          lambda: [Decl("s", "int", I(0)), For("j", I(0), T_, [Asg(V("s"), Idx(v, V("j")), "+="), Asg(Idx(v, V("j")), V("s"))]), Mostra(V("s"))],
          lambda: [Decl("j", "int", Bin("-", T_, I(1))), While(Bin(">=", V("j"), I(0)), [Mostra(Idx(v, V("j"))), Asg(V("j"), I(1), "-=")])],
          lambda: [ES(Nat("anexa", [v, Nat("remova", [v, I(0)], "int")], None))],
          lambda: [ES(Nat("anexa", [v, Idx(v, Bin("-", T_, I(1)))], None)), ES(Nat("anexa", [v, T_], None))]][k]()
    return pre + st + [Mostra(v), Mostra(T_)]


def literals(ctx):
    """elements of vector literals are evaluated in order, each into its place"""
    g = G(ctx)
    n = g.pick(5)
    ef = Func("ef", [("k", "int")], "int", [Mostra(Bin("+", V("k"), I(700))), Asg(V("c"), I(1), "+="), RetS(Bin("+", V("k"), V("c")))])
    items = [g.choose([lambda: Call("ef", [I(k)], "int"), lambda: Read("int"), lambda: V("c")])() for k in range(n)]
    body = [Decl("v", VI, VecLit("int", items)), Mostra(V("v", VI)), Mostra(Nat("tam", [V("v", VI)], "int"))]
    if g.pick(2):
        body = [Decl("t", ("vec", VI), VecLit(VI, [VecLit("int", items), VecLit("int", [I(5)])])), Mostra(V("t", ("vec", VI))), Mostra(Nat("tam", [Idx(V("t", ("vec", VI)), I(0))], "int"))]
    return [Decl("c", "int", I(0)), ef] + body


def main():
    return tv_check("C24", {"ops": ops, "types": types_, "dims": dims, "nested": nested, "loops": loops, "literals": literals}, [
        "sequences of 1-3 operations among append, remove (as value or statement), read, write on int vectors of 0-3 elements with a second name and a bystander; 1-2 operations for real, bool, texto, vector, record, optional elements",
        "vec with 1-3 dimensions (sizes symbolic from -1 to 3) and writes/appends through one row; literals of 0-4 effectful elements",
        "indexes symbolic in [-20,20]; vectors of more than about 6 elements are outside the bounds"])
