"""C09 compiled expressions compute the value the source denotes"""
import framework
from framework import tv_check, THOROUGH
from ref import *

AR = ["+", "-", "*", "/", "//", "%"]
CMP = ["==", "!=", "<", "<=", ">", ">="]


def arith(depth, leaves, ops=AR):
    def g(ctx):
        def e(d):
            c = ctx.pick(len(leaves) + (1 if d else 0))
            if c < len(leaves):
                return leaves[c]()
            return Bin(ctx.choose(ops), e(d - 1), e(d - 1))
        return [Mostra(Bin(ctx.choose(ops), e(depth - 1), e(depth - 1)))]
    return g


def logic(ctx):
    """comparisons, equality of every kind, e/ou/nao, precedence left to the source"""
    def cmp_():
        k = ctx.pick(5)
        if k == 0:
            return Bin(ctx.choose(CMP), Read("int"), I(3))
        if k == 1:
            return Bin(ctx.choose(["==", "<"]), Read("real"), Read("int"))
        if k == 2:
            return Bin(ctx.choose(["==", "!="]), Read("texto"), S("ab"))
        if k == 3:
            return Par(Bin(ctx.choose(["==", "!="]), B(True), Bin("<", Read("int"), I(0), paren=True)))
        return B(ctx.pick(2) == 1)

    def b(d):
        k = ctx.pick(4) if d else 0
        if k == 0:
            x = cmp_()
            return Par(x) if not isinstance(x, (Lit, Par)) else x
        if k == 1:
            return Un("nao", b(d - 1))
        return Bin("e" if k == 2 else "ou", b(d - 1), b(d - 1))
    return [Mostra(b(2 if THOROUGH else 1))]


def unary(ctx):
    def leaf():
        k = ctx.pick(4)
        return [Read("int"), Read("real"), I(7), Par(Bin("-", Read("int"), I(2)))][k]

    def u(d):
        k = ctx.pick(3)
        x = leaf() if d == 0 else u(d - 1)
        if k == 2:
            return Par(x)
        return Un("+-"[k], Par(x) if isinstance(x, Un) else x)
    k = ctx.pick(3)
    x = u(1)
    if k == 0:
        return [Mostra(x)]
    if k == 1:
        return [Mostra(Bin(ctx.choose(AR), x, Read("int")))]
    return [Mostra(Bin(ctx.choose(AR), Read("int"), u(0)))]


def once(ctx):
    """operands with side effects: order and number of evaluations"""
    f = Func("f", [("k", "int")], "int", [Mostra(Var("k")), Asg(Var("g"), Bin("+", Bin("*", Var("g"), I(10)), Var("k"))),
                                             RetS(Var("g"))])
    n = [0]

    def leaf():
        k = ctx.pick(3)
        if k == 0:
            n[0] += 1
            return Call("f", [I(n[0])], "int")
        return Var("g") if k == 1 else Read("int")

    def e(d):
        k = ctx.pick(2) if d else 0
        if k == 0:
            return leaf()
        return Bin(ctx.choose(["+", "-", "//"]), e(d - 1), e(d - 1))
    pos = ctx.pick(9)
    x = Bin(ctx.choose(["+", "-"]), e(1), leaf())
    if pos == 0:
        st = [Mostra(x)]
    elif pos == 1:
        st = [Decl("a", "int", x), Mostra(Var("a"))]
    elif pos == 2:
        st = [If([(Bin("<", x, I(5)), [Mostra(I(100))]), (Bin(">", leaf(), I(2)), [Mostra(I(101))])], [Mostra(I(102))])]
    elif pos == 3:
        st = [Mostra(Call("f", [x], "int"))]
    elif pos == 4:
        st = [ES(x), ES(leaf()), Mostra(Var("g"))]
    elif pos == 5:
        st = [Mostra(Bin(ctx.choose(["e", "ou"]), Par(Bin("<", x, I(0))), Par(Bin("==", leaf(), leaf()))))]
    elif pos == 6:
        st = [Mostra(VecLit("int", [x, leaf()]))]
    elif pos == 7:
        st = [Asg(Var("g"), x), Asg(Var("g"), leaf(), "+="), Mostra(Var("g"))]
    else:
        st = [Mostra(Fmt(["<", x, "|", leaf(), ">"]))]
    return [Decl("g", "int", I(1)), f] + st + [Mostra(Var("g"))]


def discard(ctx):
    """expression statements leave nothing behind: locals of the enclosing frames stay intact"""
    def es():
        k = ctx.pick(6)
        return [lambda: ES(Bin("+", Var("a"), I(1))), lambda: ES(Var("b")), lambda: ES(Call("h", [Var("a")], "int")),
                lambda: ES(I(5)), lambda: ES(Un("-", Var("a"))), lambda: ES(Call("p", [], None))][k]()
    where = ctx.pick(4)
    body = [es(), es()]
    use = [Mostra(Var("a")), Mostra(Var("b"))]
    h = Func("h", [("q", "int")], "int", [Decl("z", "int", I(9)), RetS(Bin("+", Var("q"), Var("z")))])
    p = Func("p", [], None, [Mostra(I(77))])
    inner = [Decl("a", "int", Read("int")), Decl("b", "int", I(2))]
    if where == 0:
        return [h, p] + inner + body + use
    if where == 1:
        return [h, p, Func("w", [], "int", inner + body + use + [Decl("c", "int", I(3)), Mostra(Var("c")), RetS(Var("a"))]),
                Mostra(Call("w", [], "int"))]
    if where == 2:
        return [h, p, Func("w", [("n", "int")], "int", inner + [For("i", I(0), Var("n"), body + [Decl("d", "int", Var("i"))] + use + [Mostra(Var("d"))])]
                           + [RetS(Var("b"))]), Mostra(Call("w", [I(2)], "int"))]
    return [h, p] + inner + [If([(Bin("<", Var("a"), I(0)), body + [Decl("d", "int", I(8)), Mostra(Var("d"))])], body)] + use


def forms(ctx):
    """one expression of each form nested in each operator position"""
    defs = [RegDef("P", [("x", "int"), ("y", "real")]), Func("d", [("n", "int")], "int", [RetS(Bin("*", Var("n"), I(2)))]),
            Func("P_soma", [("p", ("reg", "P"))], "int", [RetS(Fld(Var("p"), "x", "int"))]),
            Func("m", [("k", "int")], "int", [RetS(Bin("-", Fld(Var("alvo"), "x", "int"), Var("k")))], reg="P"),
            Decl("p", ("reg", "P"), New("P", [("x", Read("int")), ("y", I(4))])), Decl("v", ("vec", "int"), VecLit("int", [I(5), Read("int"), I(-7) if False else I(7)])),
            Decl("o", ("opt", "int"), I(6)), Decl("t", "int", I(3))]
    fs = [lambda: Call("d", [Var("t")], "int"), lambda: MCall(Var("p"), "m", [I(1)], "int", "P"), lambda: Idx(Var("v"), I(1)),
          lambda: Fld(Var("p"), "x", "int"), lambda: Fld(Var("p"), "y", "real"), lambda: Valor(Var("o")),
          lambda: ValorOu(Var("o"), I(0)), lambda: Nat("tam", [Var("v")], "int"), lambda: Conv(R(2.5), "int"),
          lambda: Fld(New("P", [("x", I(11)), ("y", I(1))]), "x", "int"), lambda: Idx(VecLit("int", [I(8), I(9)]), I(1)),
          lambda: Call("P_soma", [Var("p")], "int"), lambda: Idx(Var("v"), Bin("-", Var("t"), I(1)))]
    a = ctx.choose(fs)()
    k = ctx.pick(5)
    if k == 0:
        e = Bin(ctx.choose(AR), a, ctx.choose(fs)())
    elif k == 1:
        e = Un("-", a)
    elif k == 2:
        e = Bin(ctx.choose(CMP), Bin("+", a, I(1)), ctx.choose(fs)())
    elif k == 3:
        e = Call("d", [Conv(Par(a), "int")], "int")
    else:
        e = Bin("-", I(100), Par(Bin("-", a, I(1))))
    return defs + [Mostra(e), Mostra(Var("t"))]


def main():
    ri, rr = (lambda: Read("int")), (lambda: Read("real"))
    fam = {
        "int_arith": arith(2, [ri, lambda: I(3)]),
        "int_edge": (arith(1, [ri, lambda: I(2**63 - 1), lambda: I(0), lambda: I(3037000500)], ops=AR),
                     {"lo": -2**63, "hi": 2**63 - 1}),
        "mixed": arith(2, [ri, rr, lambda: R(0.5)], ops=AR if THOROUGH else ["+", "*", "/", "//"]),
        "logic": logic, "unary": unary, "once": once, "discard": discard, "forms": forms,
    }
    return tv_check("C09", fam, [
        "expression trees of depth <= 2 over + - * / // % (int: all operators; int/real mixed), comparisons, equality of int/real/texto/bool, e/ou/nao, unary chains",
        "operands: int inputs in [-20,20] (int_edge: the whole 64-bit range), real inputs k/4 in [-20,20], texts of <= 2 characters, all symbolic",
        "real / and % are uninterpreted in the solver (rounding is outside), so their operands and order are decided, not their rounding"])
