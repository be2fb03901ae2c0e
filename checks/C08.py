"""C08 compiled control flow does what the source says"""
from framework import tv_check, THOROUGH
from gx import *


def shape(d, where, kinds=None):
    def gen(ctx):
        g = G(ctx)
        x = Decl("x", "int", Read("int"))
        if where == "global":
            return [x, CFUN] + flow(g, d, False, None, kinds=kinds)
        if where == "func":
            return [x, CFUN, Func("f", [("p", "int")], "int", flow(g, d, False, "int", kinds=kinds) + [RetS(V("p"))]),
                    Mostra(Call("f", [I(500)], "int")), g.mark()]
        if where == "vazio":
            return [x, CFUN, Func("f", [("p", "int")], None, [Decl("l", "int", V("p"))] + flow(g, d, False, "vazio", kinds=kinds)),
                    ES(Call("f", [I(500)])), g.mark()]
        if where == "met":
            return [x, CFUN, RegDef("R", [("a", "int")]), Func("m", [], "int", flow(g, d, False, "int", kinds=kinds) + [RetS(Fld(V("alvo"), "a", "int"))], reg="R"),
                    Mostra(MCall(New("R", [("a", I(600))]), "m", [], "int", "R")), g.mark()]
    return gen


def seqs(ctx):
    """two constructs one after the other inside a loop body"""
    g = G(ctx)
    k = ["se", "para", "escolha", "while"]
    i = "i"
    if not THOROUGH:
        g.leaves, g.conds = ["mark", "quebra", "gquebra", "gcontinua"], [0, 2]
    outer = g.pick(2)
    body = construct(g, 1, True, None, "x", i if outer == 0 else "n", k) + construct(g, 1, True, None, "x", i if outer == 0 else "n", k) + [g.mark()]
    x = [Decl("x", "int", Read("int")), CFUN]
    if outer == 0:
        return x + [For(i, I(0), I(3), body), g.mark()]
    return x + [Decl("n", "int", I(0)), While(lt(V("n"), I(3)), [Asg(V("n"), I(1), "+=")] + body), g.mark()]


def bounds(ctx):
    """loop bounds, start, step and the control variable changed by the body"""
    g = G(ctx)
    n, m, s = V("n"), V("m"), V("s")
    a = g.choose([I(0), n, Bin("-", n, I(1)), Un("-", I(2))])
    b = g.choose([I(3), m, Bin("+", n, I(2)), Call("h", [m], "int")])
    inc = g.choose([None, I(1), I(2), s, Bin("+", s, I(1))])
    body = g.choose([[Mostra(V("i"))], [Mostra(V("i")), If([(Bin("==", V("i"), I(1)), [Asg(V("i"), I(1), "+=")])]), Mostra(V("i"))],
                     [Mostra(V("i")), Asg(m, I(1), "-=")], [If([(Bin("==", V("i"), I(1)), [ContS()])]), Mostra(V("i"))]])
    h = Func("h", [("q", "int")], "int", [Mostra(Bin("+", V("q"), I(100))), RetS(V("q"))])
    pre = [h, Decl("n", "int", Read("int")), Decl("m", "int", Read("int")), Decl("s", "int", I(2))]
    return pre + [For("i", a, b, body, inc), Mostra(I(99))]


def switch(ctx):
    """escolha over int and texto, with and without senao, cases out of order, nested"""
    g = G(ctx)
    t = g.pick(3)
    if t == 0:
        e, lits, d = V("x"), [I(2), I(0), I(7)], Decl("x", "int", Read("int"))
    elif t == 1:
        e, lits, d = V("x", "texto"), [S("a"), S("bc"), S("")], Decl("x", "texto", Read("texto"))
    else:
        e, lits, d = Call("h", [I(1)], "int"), [I(2), I(0), I(-1) if False else I(1)], Decl("x", "int", Read("int"))
    h = Func("h", [("k", "int")], "int", [Mostra(I(900)), Asg(V("x"), V("k"), "+="), RetS(V("x"))])
    n = 1 + g.pick(3)
    cs = [(l, [g.mark()] * 1) for l in lits[:n]]
    if g.pick(2):
        cs[0] = (cs[0][0], [g.mark(), Decl("w", "int", I(5)), Mostra(V("w"))])
    if g.pick(2):
        inner = Switch(I(3), [(I(3), [g.mark()])], [g.mark()])
        cs[-1] = (cs[-1][0], [inner, g.mark()])
    st = [Switch(e, cs, [g.mark()] if g.pick(2) else None)]
    if g.pick(2):
        st = [For("i", I(0), I(2), [Switch(e, cs, [ContS()]), g.mark()])]
    return ([d, h] if t == 2 else [d]) + st + [g.mark()]


def early(ctx):
    """retorna from inside nested loops and branches keeps the caller intact"""
    g = G(ctx)
    k = g.choose(["para", "while"])
    k2 = g.choose(["se", "para", "while", "escolha"])
    inner = construct(g, 1, True, "int", "x", "i", [k2])
    lp = [For("i", I(0), I(3), [Mostra(V("i"))] + inner)] if k == "para" else \
        [Decl("i", "int", I(0)), While(lt(V("i"), I(3)), [Asg(V("i"), I(1), "+=")] + inner)]
    f = Func("f", [("a", "int"), ("b", "int")], "int", [Decl("l", "int", V("b"))] + lp + [RetS(V("l"))])
    use = g.pick(3)
    x = [Decl("x", "int", Read("int")), CFUN, f]
    c = lambda n: Call("f", [I(n), I(n + 1)], "int")
    if use == 0:
        return x + [Mostra(Bin("+", c(10), c(20)))]
    if use == 1:
        return x + [For("j", I(0), I(2), [Decl("k", "int", V("j")), Decl("r", "int", c(30)), Mostra(V("k")), Mostra(V("r"))])]
    return x + [Func("o", [("p", "int")], "int", [Decl("l", "int", I(7)), Decl("m", "int", c(40)), Mostra(V("p")), Mostra(V("l")), RetS(V("m"))]),
                Mostra(Call("o", [I(3)], "int"))]


def main():
    K = ["se", "elif", "while", "para", "escolha"]
    fam = {"global2": shape(2, "global"), "func2": shape(2, "func", None if THOROUGH else ["seelse", "elif", "while", "para", "escolhaelse"]), "vazio1": shape(1, "vazio"), "met1": shape(1, "met"),
           "seqs": seqs, "bounds": (bounds, {"lo": -3, "hi": 5}), "switch": switch, "early": early}
    if THOROUGH:
        fam["global3"] = shape(3, "global", ["se", "while", "para", "escolha"])
        fam["met2"] = shape(2, "met")
        fam["vazio2"] = shape(2, "vazio")
    return tv_check("C08", fam, [
        "statement nesting depth <= 3 (two compound levels plus a leaf: quebra/continua/retorna, guarded or not) at program, function, void-function and method level; every shape of the grammar in checks/C08.py",
        "loop bounds, starts and steps symbolic in [-3,5]; conditions over symbolic inputs in [-20,20]; at most 600 executed statements per run",
    ])
