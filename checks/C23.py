"""C23 explicit conversions are accepted and computed as documented

Acceptance: `e :> T` with a symbolic operand and a symbolic target through the real
parser and checker, including optional targets, other operand forms and the type of
the result.  Values: programs converting (symbolic) input values, against the
reference's conversions; symbolic texts for the text -> int and text -> bool cases."""
import z3
from framework import tv_check, THOROUGH
from gx import *
from tenv import *

SYM = {"sym": True, "stage": "check"}
PRIM = ["int", "real", "bool", "texto", "indef"]
TGT = PRIM + ["P", "U", "vazio"]
P = ("reg", "P")


# ---------------------------------------------------------------- acceptance
def acc(s, alts, pred, pre=""):
    for k in range(len(alts)):
        s = s.replace("{h}", f"hole{k}__", 1)
    return PRE + pre + s + "\n", alts, pred, s


def direct(ctx):
    k = ctx.pick(4)
    if k == 0:
        return acc("mostra {h} :> {h}", [VALS, TGT], lambda c: cast(TY[c[0]], c[1]))
    if k == 1:
        return acc("mostra {h} :> {h}?", [VALS, ["int", "real", "bool", "texto"]], lambda c: cast(TY[c[0]], c[1] + "?"))
    if k == 2:
        return acc("mostra {h} :> [{h}]", [VALS, PRIM + ["P"]], lambda c: False)
    return acc("mostra {h} :> {h}", [["1", "2.5", '"s"', "verdadeiro", "nulo", "i", "t"], ["int", "real", "nada", "p", "mostra", "5"]],
               lambda c: None if c[1] in ("int", "real") else False)


def result(ctx):
    k = ctx.pick(3)
    few = ["i", "r", "b", "t", "n"]
    if k == 0:
        return acc("novo: {h} = {h} :> {h}", [PRIM + ["P"], few, PRIM], lambda c: cast(TY[c[1]], c[2]) and compat(c[0], c[2]))
    if k == 1:
        return acc("novo: {h}? = {h} :> {h}?", [["int", "real", "texto", "bool"], few + ["nulo"], ["int", "real", "texto", "bool"]], lambda c: cast(TY[c[1]], c[2] + "?") and c[0] == c[2])
    return acc("novo: {h} = ({h} :> {h}) :> {h}", [PRIM, few, PRIM, PRIM], lambda c: cast(TY[c[1]], c[2]) and cast(c[2], c[3]) and compat(c[0], c[3]))


FORMS = [("f9(1)", "int"), ("f8(1)", "real"), ("p.a", "int"), ("vi[0]", "int"), ("vv[0]", "[int]"), ("t[0]", "texto"), ("(r + i)", "real"), ("(-i)", "int"), ("(nao b)", "bool"), ("oi.valor", "int"), ("zr.valor_ou(1)", "real"), ('f"{i}"', "texto"), ("g()", "vazio"),
         ("P(a: 1)", "P"), ("U::A", "U"), ("[int: 1]", "[int]"), ("tam(vi)", "int"), ("p.m(2)", "bool"), ('leia("")', "texto"), ("(i < 2)", "bool"), ("(i / 2)", "real"), ("fn(1)", "indef"), ("go()", "int?")]
MORE = VOID + "func f9(a: int): int\n retorna a\nfim\nfunc f8(a: int): real\n retorna a\nfim\nmet P::m(alvo, a: int): bool\n retorna verdadeiro\nfim\nfunc fn(a: int): indef\n retorna a\nfim\nfunc go(): int?\n retorna nulo\nfim\n"
USES = [("novo: {t} = {e}", lambda to: True), ("mostra {e} + 1", lambda to: to in NUM), ("se {e} entao\n mostra 1\nfim", lambda to: to == "bool"), ("mostra vi[{e}]", lambda to: to == "int"), ("f9({e})", lambda to: to == "int"),
        ("mostra tam({e})", lambda to: to == "texto"), ("mostra nao {e}", lambda to: to == "bool"), ("mostra ({e}) < 2", lambda to: to in NUM), ('mostra f"{{e}}"', lambda to: True), ("r = {e}", lambda to: to in NUM), ("n = {e}", lambda to: True), ("mostra [texto: {e}]", lambda to: to == "texto"), ("func z1(): real\n retorna {e}\nfim", lambda to: to in NUM)]


def forms(ctx):
    e, t = ctx.choose(FORMS)
    return acc(f"novo: {{h}} = {e} :> {{h}}", [["int", "real", "bool", "texto", "indef"], PRIM], lambda c: cast(t, c[1]) and compat(c[0], c[1]), MORE)


def uses(ctx):
    s, ok = ctx.choose(USES)
    s = s.replace("{t}", "indef").replace("{e}", "{h} :> {h}") if "f\"" not in s else 'mostra f"{{h} :> {h}}"'
    return acc(s, [["i", "r", "b", "t", "n", "p", "oi"], PRIM], lambda c: cast(TY[c[0]], c[1]) and ok(c[1]), MORE)


# ---------------------------------------------------------------- values
def source(g, kinds=("int", "real", "bool", "texto")):
    """(type, expression over the input)"""
    k = g.choose([k for k in ("int", "real", "bool", "texto") if k in kinds])
    if k == "int":
        return k, g.choose([lambda: V("x"), lambda: Bin("*", V("x"), I(3), paren=True), lambda: Call("fi", [V("x")], "int")])()
    if k == "real":
        return k, g.choose([lambda: V("y", "real"), lambda: Un("-", V("y", "real")), lambda: Bin("+", V("y", "real"), V("x"), paren=True), lambda: Bin("/", V("x"), I(4), paren=True)])()
    if k == "bool":
        return k, g.choose([lambda: Bin(">", V("x"), I(0), paren=True), lambda: Un("nao", Par(Bin("==", V("x"), I(1))))])()
    return k, g.choose([lambda: Fmt([V("x")]), lambda: Fmt(["a", V("x")]), lambda: S(""), lambda: S("12"), lambda: S("-4"), lambda: S("x9")])()


def sink(g, e, t):
    """statements that look at a value of type t in different ways"""
    k = g.pick(5)
    if k == 0:
        return [Mostra(e)]
    if k == 1:
        return [Decl("z", t, e), Mostra(V("z", t))] + ([Mostra(Bin("==", V("z", t), V("z", t)))] if t != "texto" else [])
    if k == 2:
        if t in ("int", "real"):
            return [Mostra(Bin("/", e, I(4))), Mostra(Bin("<", e, I(2)))]
        if t == "bool":
            return [If([(e, [Mostra(I(1))])], [Mostra(I(2))]), Mostra(Un("nao", Par(e)))]
        return [Decl("z", t, e), Mostra(Fmt(["<", V("z", t), ">"]))]
    if k == 3:
        return [Mostra(Call("id" + t, [e], t))]
    return [Decl("w", ("vec", t), VecLit(t, [e])), Mostra(V("w", ("vec", t)))]


def pre(g, r=True):
    ids = [Func("id" + t, [("k", t)], t, [Mostra(V("k", t)), RetS(V("k", t))]) for t in ("int", "real", "bool", "texto")]
    return ids + [Func("fi", [("k", "int")], "int", [Mostra(I(500)), RetS(Bin("-", V("k"), I(2)))]), Decl("x", "int", Read("int"))] + ([Decl("y", "real", Read("real"))] if r else [])


def convert1(ctx):
    g = G(ctx)
    t, e = source(g)
    to = g.choose([x for x in ("int", "real", "bool", "texto") if cast(t, x)])
    if t == "texto" and to in ("int", "real") and isinstance(e, Fmt) and len(e.parts) > 1:
        return None
    return pre(g, t == "real") + sink(g, Conv(e, to), to) + [Mostra(I(9))]


def chain(ctx):
    g = G(ctx)
    t, e = source(g, ("int", "real", "bool"))
    a = g.choose([x for x in ("int", "real", "bool", "texto") if cast(t, x)])
    b = g.choose([x for x in ("int", "real", "bool", "texto") if cast(a, x)])
    if a == "texto" and (b == "int" and t != "int" or b == "real" and t == "bool"):
        return None
    return pre(g, t == "real") + [Mostra(Conv(Par(Conv(e, a)), b))]


TEXTS = ["", "0", "5", "-7", "+3", " 5", "5 ", "1.5", "abc", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "1_000", "0x10", ".5", "5.", "-2.25", "--1", "-", "007", "1e3", "2.5e-1", "a1", "1a", "é", "verdadeiro", "falso", " ", "1,5", "٣"]


def texts(ctx):
    g = G(ctx)
    s = g.choose(TEXTS)
    to = g.choose(["int", "real", "bool", "texto"])
    e = g.choose([lambda: S(s), lambda: V("t", "texto")])()
    return [Decl("t", "texto", S(s)), Mostra(I(1)), Mostra(Conv(e, to)), Mostra(I(2))]


def symtexts(ctx):
    """any input text of bounded length"""
    g = G(ctx)
    to = g.choose(["int", "bool", "texto"])
    b = [Decl("t", "texto", Read("texto")), Mostra(I(1))]
    c = Conv(V("t", "texto"), to)
    if to == "int":
        return b + g.choose([lambda: [Mostra(c)], lambda: [Decl("z", "int", c), Mostra(Bin("+", V("z"), I(1))), Mostra(Bin(">", V("z"), I(10)))]])()
    return b + [Mostra(c)]


def short_text(x):
    ch = z3.Union(z3.Range("0", "9"), z3.Re("+"), z3.Re("-"), z3.Re("."), z3.Re("e"), z3.Re(" "))
    return z3.InRe(x, z3.Loop(ch, 0, 3 if not THOROUGH else 5))


def indef(ctx):
    """an indef gives back exactly the kind of value it holds"""
    g = G(ctx)
    U, N, VI = ("uni", "U"), "indef", ("vec", "int")
    vals = [lambda: V("x"), lambda: V("y", "real"), lambda: Bin(">", V("x"), I(0)), lambda: S("t"), lambda: New("P", [("a", V("x"))]), lambda: Variant("U", "A", [V("x")]), lambda: VecLit("int", [V("x")]), lambda: V("o", ("opt", "int"))]
    v, other = g.choose(vals)(), g.choose(vals)()
    to = g.choose(["int", "real", "bool", "texto"])
    defs = [RegDef("P", [("a", "int")]), RegDef("H", [("z", "int"), ("n", N)]), UniDef("U", [("A", ["int"]), ("B", [])]), Func("fn", [("n", N)], N, [Mostra(I(700)), RetS(V("n", N))])]
    b = pre(g) + [Decl("o", ("opt", "int"), NULO), If([(Bin(">", V("x"), I(2)), [Asg(V("o", ("opt", "int")), V("x"))])])]
    k = g.pick(5)
    dyn = [Decl("n", N, v), If([(Bin("<", V("x"), I(1)), [Asg(V("n", N), other)])])]
    if k == 0:
        b += dyn + sink(g, Conv(V("n", N), to), to)
    elif k == 1:
        b += [Mostra(Conv(Call("fn", [v], N), to))]
    elif k == 2:
        b += [Decl("h", ("reg", "H"), New("H", [("z", I(1)), ("n", v)])), Asg(Fld(V("h", ("reg", "H")), "n", N), other), Mostra(Conv(Fld(V("h", ("reg", "H")), "n", N), to))]
    elif k == 3:
        b += dyn + [Decl("m", N, V("n", N)), Mostra(Conv(V("m", N), to))]
    else:
        b += dyn + [Decl("z", to, Conv(Par(Conv(V("n", N), "indef")), to)), Mostra(V("z", to))]
    return defs + b


def optional(ctx):
    """conversion to an optional type"""
    g = G(ctx)
    t, e = source(g)
    if t == "texto" and isinstance(e, Fmt) and len(e.parts) > 1:
        return None
    to = g.choose([x for x in ("int", "real", "bool", "texto") if cast(t, x)])
    o = ("opt", to)
    k = g.pick(4)
    c = Conv(e, o)
    b = pre(g, t == "real")
    if k == 0:
        b += [Mostra(Valor(Par(c)))]
    elif k == 1:
        b += [Decl("o", o, c), Mostra(Bin("==", V("o", o), NULO))] + sink(g, Conv(Valor(V("o", o)), to), to)
    elif k == 2:
        b += [Decl("o", o, NULO), If([(Bin(">", V("x"), I(0)), [Asg(V("o", o), c)])]), Mostra(Valor(V("o", o)))]
    else:
        b += [Decl("o", o, Conv(NULO, o)), Mostra(Bin("==", V("o", o), NULO)), Mostra(Valor(V("o", o)))]
    return b


def main():
    f = {"direct": (direct, SYM), "result": (result, SYM), "forms": (forms, SYM), "uses-acc": (uses, SYM), "convert": convert1, "chain": chain, "texts": texts, "symtexts": (symtexts, {"text": short_text}), "indef": indef, "optional": optional}
    return tv_check("C23", f, [f"acceptance: operands of {len(set(TY.values()))} types and {len(FORMS)} other forms; targets {TGT}, their optionals and vectors; result types; {len(USES)} contexts; chains of two",
                               f"values: ints in [-20, 20], multiples of 1/4, bools, {len(TEXTS)} fixed texts, every text of up to {3 if not THOROUGH else 5} characters out of 0-9 + - . e and space to int and bool; indef holding each of 8 kinds as the input decides"],
                    assumptions=["Rust's i64/f64 parse and Display (round trip of a printed number) as specified; reals outside the int range, inf and nan excluded"], level="other", budget=70 if not THOROUGH else 600)
