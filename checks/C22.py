"""C22 optional values cannot be misread

Acceptance: `.valor` and `.valor_ou` on every kind of value, and optionals where
their inner type is wanted, over symbolic tokens.  Values: programs whose optional
is nulo or a value depending on the (symbolic) input, in every use."""
from framework import tv_check, THOROUGH
from gx import *
from tenv import *

SYM = {"sym": True, "stage": "check"}
P, U, VI = ("reg", "P"), ("uni", "U"), ("vec", "int")
IN = {"int": VI}


# ---------------------------------------------------------------- acceptance
def fill(s, alts):
    for k in range(len(alts)):
        s = s.replace("{h}", f"hole{k}__", 1)
    return s


def acc(pre, s, alts, pred):
    return PRE + pre + fill(s, alts) + "\n", alts, pred, s


OPTS = [v for v in VARS if opt(TY[v])]
EX = "func go(): int?\n retorna nulo\nfim\nregisto H\n o: int?\n oo: P?\nfim\nh: H = H(o: 1, oo: nulo)\nxo: [int?] = [int?: 1]\nmet P::mo(alvo): texto?\n retorna nulo\nfim\n"
FORMS = [("go()", "int?"), ("h.o", "int?"), ("h.oo", "P?"), ("xo[0]", "int?"), ("p.mo()", "texto?"), ("(oi)", "int?"), ("p", "P"), ("vi[0]", "int"), ("go().valor", "int"), ("oi.valor_ou(1)", "int"), ("1", "int"), ("p.a", "int"), ('f"{i}"', "texto"), ("nulo", "nulo")]
T2 = ["int", "real", "texto", "P", "bool", "indef"]


def unwrap(ctx):
    """.valor exists exactly on optionals and has the inner type"""
    if ctx.pick(2):
        return acc("", "novo: {h} = {h}.valor", [T2, VARS + ["nulo"]], lambda c: opt(TY[c[1]]) and compat(c[0], TY[c[1]][:-1]))
    e, t = ctx.choose(FORMS)
    return acc(EX, f"novo: {{h}} = {e}.valor", [T2], lambda c: opt(t) and compat(c[0], t[:-1]))


def default(ctx):
    """.valor_ou(d): d must fit the inner type, the result has the inner type"""
    if ctx.pick(2):
        return acc("", "novo: {h} = {h}.valor_ou({h})", [T2, OPTS + ["i", "nulo", "p"], ["i", "r", "t", "p", "q", "vi", "oi", "op", "nulo", "1"]],
                   lambda c: opt(TY[c[1]]) and compat(TY[c[1]][:-1], TY[c[2]]) and compat(c[0], TY[c[1]][:-1]))
    e, t = ctx.choose(FORMS)
    return acc(EX, f"novo: {{h}} = {e}.valor_ou({{h}})", [T2, ["i", "r", "t", "p", "oi", "nulo"]], lambda c: opt(t) and compat(t[:-1], TY[c[1]]) and compat(c[0], t[:-1]))


USES = [("mostra {h} + 1", "num"), ("mostra 1 < {h}", "num"), ("mostra -{h}", "num"), ("se {h} entao\n mostra 1\nfim", "none"), ("mostra vi[{h}]", "int"), ("mostra {h}[0]", "seq"), ("mostra tam({h})", "seq"),
        ("anexa({h}, 1)", "vi"), ("mostra {h}.a", "rec"), ("{h}.a = 1", "rec"), ("{h}[0] = 1", "veci"), ("mostra {h}.m()", "p"), ("para k1 de 0..{h} faca\n mostra k1\nfim", "int"), ("escolha {h}:\n caso 1:\n  mostra 1\nfim", "esc"), ("novo: int = {h}", "int"),
        ("novo: P = {h}", "p"), ("novo: texto = {h}", "txt"), ("f9({h})", "int"), ("i = {h}", "int"), ("i += {h}", "int"), ("mostra remova({h}, 0)", "vec"), ("iguala {h}\n  1 => 1\n  _ => 2\nfim", "int"), ("mostra nao {h}", "none"), ("mostra {h} e b", "none"),
        ("mostra 1 == {h}", "num"), ("mostra p == {h}", "?"), ("mostra {h} :> int", "?"), ("mostra [int: {h}]", "int")]
KIND = {"num": lambda t: t in NUM, "none": lambda t: False, "int": lambda t: t == "int", "seq": lambda t: t == "texto" or t[0] == "[", "vi": lambda t: t in ("[int]", "[real]"), "rec": lambda t: t in ("P", "Q"), "veci": lambda t: t in ("[int]", "[real]"),
        "p": lambda t: t == "P", "esc": lambda t: t in ("int", "texto"), "txt": lambda t: t == "texto", "vec": lambda t: t[0] == "["}
MORE = "func f9(a: int)\n mostra a\nfim\nmet P::m(alvo): bool\n retorna verdadeiro\nfim\n"


def misuse(ctx):
    """an optional is never taken where its inner value is needed; the unwrapped value is"""
    s, k = ctx.choose(USES)
    alts = OPTS + ["nulo"]
    if ctx.pick(2):
        return acc(MORE, s, [alts], lambda c: None if k == "?" else False)
    if k in ("?", "esc"):
        return None
    return acc(MORE, s.replace("{h}", "{h}.valor"), [OPTS], lambda c: (KIND[k](TY[c[0]][:-1]) if k != "none" else False))


# ---------------------------------------------------------------- values
def kinds(g):
    """inner type, its values (from the input), how to look at one"""
    show = lambda e: [Mostra(e)]
    return {
        "int": ("int", lambda k: Bin("*", k, I(3)), lambda: I(77), show),
        "real": ("real", lambda k: Bin("/", k, I(2)), lambda: R(0.5), show),
        "texto": ("texto", lambda k: Fmt(["<", k, ">"]), lambda: S(""), show),
        "bool": ("bool", lambda k: Bin("==", Bin("%", k, I(2)), I(0)), lambda: B(False), show),
        "P": (P, lambda k: New("P", [("a", k), ("o", NULO)]), lambda: New("P", [("a", I(5)), ("o", I(6))]), lambda e: [Mostra(Fld(e, "a", "int"))]),
        "vec": (VI, lambda k: VecLit("int", [k, I(1)]), lambda: VecLit("int", []), lambda e: [Mostra(e), Mostra(Nat("tam", [e], "int"))]),
        "U": (U, lambda k: Variant("U", "A", [k]), lambda: Variant("U", "B"), lambda e: [SeIguala(e, PVar("U", "A", [PBind("b")]), [Mostra(V("b"))], [Mostra(I(1))])]),
    }


def parts(ctx):
    g = G(ctx)
    return g, kinds(g)[g.choose(["int", "real", "texto", "bool", "P", "vec", "U"])]


def setup(t, val):
    o = ("opt", t)
    defs = [RegDef("P", [("a", "int"), ("o", ("opt", "int"))]), UniDef("U", [("A", ["int"]), ("B", [])]), RegDef("H", [("z", "int"), ("o", o)]),
            Func("mk", [("k", "int")], o, [If([(Bin(">", V("k"), I(0)), [RetS(val(V("k")))])]), RetS(NULO)]),
            Func("same", [("y", "int"), ("o", o)], o, [Mostra(V("y")), RetS(V("o", o))]),
            Func("get", [], o, [RetS(Fld(V("alvo"), "o", o))], reg="H")]
    return defs, [Decl("x", "int", Read("int"))]


def sources(g, t):
    """(statements, expression): the same optional reached in different ways"""
    o = ("opt", t)
    mk = lambda: Call("mk", [V("x")], o)
    return g.choose([
        lambda: ([], mk()),
        lambda: ([Decl("o", o, mk())], V("o", o)),
        lambda: ([Decl("o", o, NULO), Asg(V("o", o), mk())], V("o", o)),
        lambda: ([Decl("h", ("reg", "H"), New("H", [("z", I(1)), ("o", mk())]))], Fld(V("h", ("reg", "H")), "o", o)),
        lambda: ([Decl("h", ("reg", "H"), New("H", [("o", NULO), ("z", I(1))])), Asg(Fld(V("h", ("reg", "H")), "o", o), mk())], MCall(V("h", ("reg", "H")), "get", [], o, "H")),
        lambda: ([Decl("w", ("vec", o), VecLit(o, [NULO, mk()]))], Idx(V("w", ("vec", o)), I(1))),
        lambda: ([], Call("same", [I(3), mk()], o)),
    ])()


def uses(ctx):
    g, (t, val, dflt, show) = parts(ctx)
    o = ("opt", t)
    defs, pre = setup(t, val)
    s, e = sources(g, t)
    k = g.pick(7)
    if k == 0:
        b = [Mostra(Bin("==", e, NULO)), Mostra(Bin("!=", e, NULO))]
    elif k == 1:
        b = [Mostra(I(1))] + show(Valor(e)) + [Mostra(I(2))]
    elif k == 2:
        b = show(ValorOu(e, dflt())) + [Mostra(I(2))]
    elif k == 3:
        b = [If([(Bin("!=", e, NULO), show(Valor(e)))], [Mostra(I(0))])]
    elif k == 4:
        b = [If([(Bin("==", e, NULO), [Mostra(I(0))])], show(Valor(e)))]
    elif k == 5:
        b = [Decl("n", t, ValorOu(e, dflt()))] + show(V("n", t)) + [Decl("m", t, Valor(e))] + show(V("m", t))
    else:
        b = [Decl("c", "bool", Bin("!=", e, NULO)), Mostra(Un("nao", V("c", "bool"))), Mostra(Bin("e", V("c", "bool"), Bin("==", e, NULO)))]
    if g.pick(2):
        return defs + pre + s + b
    # the same inside a function
    return defs + [Func("f", [("x", "int")], None, s + b), Decl("y", "int", Read("int")), ES(Call("f", [V("y")], None)), Mostra(I(99))]


def history(ctx):
    """assignments between optionals: each keeps its own value"""
    g, (t, val, dflt, show) = parts(ctx)
    o = ("opt", t)
    defs, pre = setup(t, val)
    mk = lambda k: Call("mk", [k], o)
    A, Bv = V("a", o), V("b2", o)
    b = [Decl("a", o, mk(V("x"))), Decl("b2", o, A)]
    for _ in range(3 if not THOROUGH else 4):
        k = g.pick(6)
        b += [lambda: [Asg(A, NULO)], lambda: [Asg(Bv, A)], lambda: [Asg(A, mk(Un("-", V("x"))))], lambda: [Asg(A, val(I(4)))], lambda: [Asg(Bv, dflt())],
              lambda: [If([(Bin("==", A, NULO), [Asg(A, Bv)])], [Asg(Bv, NULO)])]][k]()
    b += [Mostra(Bin("==", A, NULO)), Mostra(Bin("==", Bv, NULO))] + show(ValorOu(A, dflt())) + show(Valor(Bv))
    return defs + pre + b


def special(ctx):
    """effects of the default, chains, loops over optionals, shared records, failing unwrap"""
    g = G(ctx)
    oi, op = ("opt", "int"), ("opt", P)
    defs, pre = setup("int", lambda k: Bin("*", k, I(3)))
    ef = Func("ef", [("k", "int")], "int", [Mostra(Bin("+", V("k"), I(800))), RetS(V("k"))])
    mp = Func("mp", [("k", "int")], op, [If([(Bin(">", V("k"), I(1)), [RetS(New("P", [("a", V("k")), ("o", V("k"))]))]), (Bin("==", V("k"), I(1)), [RetS(New("P", [("a", V("k")), ("o", NULO)]))])]), RetS(NULO)])
    mk = lambda k: Call("mk", [k], oi)
    k = g.pick(9)
    defs += [ef, mp]
    if k == 0:
        b = [Mostra(ValorOu(mk(V("x")), Call("ef", [I(5)], "int"))), Mostra(Valor(mk(Call("ef", [V("x")], "int"))))]
    elif k == 1:
        b = [Mostra(Bin("+", ValorOu(mk(V("x")), I(1)), ValorOu(mk(Bin("-", I(3), V("x"))), I(2))))]
    elif k == 2:
        b = [Decl("o", oi, mk(V("x"))), Decl("n", "int", I(0)), While(Bin("!=", V("o", oi), NULO), [Mostra(Valor(V("o", oi))), Asg(V("n"), I(1), "+="), Asg(V("o", oi), mk(Bin("-", I(2), V("n"))))]), Mostra(V("n"))]
    elif k == 3:
        b = [Decl("p", op, Call("mp", [V("x")], op)), Mostra(Valor(Fld(Valor(V("p", op)), "o", oi))), Mostra(I(1))]
    elif k == 4:
        b = [Decl("p", op, Call("mp", [V("x")], op)), Decl("q", P, ValorOu(V("p", op), New("P", [("a", I(50)), ("o", I(51))]))), Asg(Fld(V("q", P), "a", "int"), I(7), "+="), Mostra(Fld(V("q", P), "a", "int")), Mostra(Fld(Valor(V("p", op)), "a", "int"))]
    elif k == 5:
        b = [Decl("p", op, Call("mp", [V("x")], op)), Asg(Fld(Valor(V("p", op)), "o", oi), g.choose([NULO, V("x")])), Mostra(ValorOu(Fld(Valor(V("p", op)), "o", oi), I(60))), Mostra(Bin("==", Fld(Valor(V("p", op)), "o", oi), NULO))]
    elif k == 6:
        b = [Decl("v", ("vec", oi), VecLit(oi, [mk(V("x")), NULO, I(4)])), Asg(Idx(V("v", ("vec", oi)), I(1)), V("x")), ES(Nat("anexa", [V("v", ("vec", oi)), mk(Un("-", V("x")))], None)), Mostra(Nat("tam", [V("v", ("vec", oi))], "int"))]
        b += [Mostra(ValorOu(Idx(V("v", ("vec", oi)), I(j)), I(70 + j))) for j in range(4)]
    elif k == 7:
        b = [Decl("o", oi, mk(V("x"))), Mostra(V("o", oi)), Mostra(Fmt(["[", ValorOu(V("o", oi), I(8)), "]"])), Mostra(Bin("==", Valor(V("o", oi)), I(6)))]
    else:
        f = Func("first", [("v", VI), ("k", "int")], oi, [For("i", I(0), Nat("tam", [V("v", VI)], "int"), [If([(Bin(">", Idx(V("v", VI), V("i")), V("k")), [RetS(V("i"))])])]), RetS(NULO)])
        return defs + [f] + pre + [Decl("v", VI, VecLit("int", [I(1), V("x"), I(9)])), Mostra(Valor(Call("first", [V("v", VI), I(3)], oi))), Mostra(Bin("==", Call("first", [V("v", VI), Read("int")], oi), NULO)), Mostra(ValorOu(Call("first", [V("v", VI), I(20)], oi), I(-1 + 0) if False else Un("-", I(1))))]
    return defs + pre + b


def main():
    return tv_check("C22", {"valor": (unwrap, SYM), "valor_ou": (default, SYM), "misuse": (misuse, SYM), "uses": uses, "history": history, "special": special},
                    [f"acceptance: optionals of int, real, texto, P and [int] in {len(USES)} uses, {len(FORMS)} expression forms, result types {T2}",
                     "values: inner types int, real, texto, bool, record, vector, union; the optional is nulo or a value as the input decides; reached as a variable, call or method result, argument, field, element; histories of 3 assignments"],
                    level="other", budget=70 if not THOROUGH else 600)
