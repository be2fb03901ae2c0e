"""C16 a function that must return a value always returns one

Acceptance: function bodies whose statements are symbolic - each hole is `retorna` or
`mostra` - through the real parser and checker; the verdict must be the definite-return
analysis for every combination.  Values: accepted shapes run in the VM with symbolic
conditions; the value of the call is the one the taken `retorna` gave."""
from framework import tv_check, THOROUGH
from gx import *

SYM = {"sym": True, "stage": "check"}
DEF = "uniao U\n A,\n B(int),\n C\nfim\nregisto P\n a: int\nfim\n"


class Sh:
    """a body under construction: text, holes, and functions of the choices: strict (every
    path returns) and loose (counting the body of a loop as if it always ran)"""

    def __init__(self, ctx, value, kinds=None):
        self.ctx, self.n, self.value, self.kinds = ctx, 0, value, kinds
        self.alts = []

    def leaf(self):
        k = len(self.alts)
        self.alts.append(["retorna", "mostra"])
        f = lambda c, k=k: c[k] == "retorna"
        return f"hole{k}__ {self.value}\n", f, f

    def block(self, d, loop, tail=True):
        """statements before, the construct, maybe one after"""
        n = (self.ctx.pick(3) if d == 1 or THOROUGH else 2 * self.ctx.pick(2)) if d else 0
        parts = []
        if n == 1:
            parts.append(self.leaf())
        parts.append(self.construct(d, loop) if d else self.leaf())
        if n == 2:
            parts.append(self.leaf())
        return self.seq(parts)

    def seq(self, parts):
        return "".join(p[0] for p in parts), lambda c: any(p[1](c) for p in parts), lambda c: any(p[2](c) for p in parts)

    def every(self, fmt, blocks, total):
        t = fmt.format(*[b[0] for b in blocks])
        return t, lambda c: total and all(b[1](c) for b in blocks), lambda c: total and all(b[2](c) for b in blocks)

    def construct(self, d, loop):
        """one of the blocks is deep, the others are leaves"""
        kinds = [("se b entao\n{}fim\n", 1, False), ("se b entao\n{}senao\n{}fim\n", 2, True), ("se b entao\n{}senaose b entao\n{}senao\n{}fim\n", 3, True), ("se b entao\n{}senaose b entao\n{}fim\n", 2, False),
                 ("se b entao\n{}senaose b entao\n{}senaose nao b entao\n{}senao\n{}fim\n", 4, True),
                 ("enquanto b faca\n{}fim\n", 1, None), ("para k{n} de 0..x faca\n{}fim\n", 1, None),
                 ("iguala x\n1 => faca\n{}fim\n_ => faca\n{}fim\nfim\n", 2, True), ("iguala u\nU::A => faca\n{}fim\nU::B(_) => faca\n{}fim\nU::C => faca\n{}fim\nfim\n", 3, True),
                 ("iguala u\nU::B(_) => faca\n{}fim\nm{n} => faca\n{}fim\nfim\n", 2, True), ("iguala u\nU::B(1) => faca\n{}fim\nU::B(_) => faca\n{}fim\n_ => faca\n{}fim\nfim\n", 3, True),
                 ("se iguala u => U::B(h{n}) entao\n{}fim\n", 1, False), ("se iguala u => U::B(h{n}) entao\n{}senao\n{}fim\n", 2, True),
                 ("escolha x:\ncaso 1:\n{}caso 2:\n{}fim\n", 2, False), ("escolha x:\ncaso 1:\n{}senao:\n{}fim\n", 2, "?")]
        kinds = [kinds[j] for j in self.kinds[d]] if self.kinds and d in self.kinds else kinds
        fmt, n, total = self.ctx.choose(kinds)
        self.n += 1
        fmt = fmt.replace("{n}", str(self.n))
        w = self.ctx.pick(n) if d > 1 else -1
        blocks = [self.block(d - 1, loop or total is None) if j == w else self.leaf() for j in range(n)]
        if total is None:       # a loop may run no time
            t, s, l = self.every(fmt, blocks, True)
            return t, lambda c: False, l
        if total == "?":        # whether an escolha with senao counts is not specified: accepted only when every path returns
            t, s, l = self.every(fmt, blocks, True)
            return t, lambda c: False, l
        return self.every(fmt, blocks, total)


TYPES = [("int", "1"), ("texto", '"s"'), ("bool", "b"), ("real", "1"), ("U", "U::A"), ("P", "P(a: 1)"), ("[int]", "[int: 1]"), ("indef", "1")]
HEADS = ["func f(x: int, b: bool, u: U): {t}\n", "met P::f(alvo, x: int, b: bool, u: U): {t}\n"]


def shape(ctx, d, types=TYPES, heads=HEADS, kinds=None):
    t, v = ctx.choose(types) if len(types) > 1 else types[0]
    if v == "U::A" or v == "P(a: 1)":
        v = {"U::A": "u", "P(a: 1)": "P(a: 1)"}[v]
    s = Sh(ctx, v, kinds)
    head = ctx.choose(heads) if len(heads) > 1 else heads[0]
    body, strict, loose = s.block(d, False)
    src = DEF + head.replace("{t}", t) + body + "fim\nmostra 1\n"
    return src, s.alts, lambda c: True if strict(c) else None if loose(c) else False, src


def types(ctx):
    """every kind of result type, functions and methods"""
    return shape(ctx, 1, kinds={1: [0, 1, 5, 8, 12]} if not THOROUGH else None)


def nest(ctx):
    return shape(ctx, 2, TYPES[:1], HEADS[:1], {2: [1, 2, 3, 5, 6, 7, 8, 12, 14], 1: [0, 1, 3, 5, 8, 9, 11, 12]} if not THOROUGH else None)


def flat(ctx):
    """every construct alone"""
    return shape(ctx, 1, TYPES[:1], HEADS[:1])


def deep(ctx):
    return shape(ctx, 3, TYPES[:1], HEADS[:1])


def void(ctx):
    """without a result type anything is accepted; a value is not"""
    k = ctx.pick(3)
    if k == 0:
        return DEF + "func f(x: int, b: bool)\nse hole0__ entao\nhole1__ 1\nfim\nfim\n", [["b", "nao"], ["mostra", "retorna"]], lambda c: None if c[0] == "nao" else c[1] == "mostra", "void"
    if k == 1:
        return DEF + "func f(x: int, b: bool): hole0__\nse b entao\nretorna 1\nsenao\nretorna\nfim\nfim\n", [["int", "real", "indef", "bool"]], lambda c: False, "empty return"
    w = ctx.pick(2)
    body = ["se b entao\nretorna hole1__\nfim\nretorna 1\n", "retorna 1\nse b entao\nretorna hole1__\nfim\n"][w]
    ty = {"1": "int", "2.5": "real", '"s"': "texto", "b": "bool", "x": "int", "u": "U"}
    return DEF + "func f(x: int, b: bool, u: U): hole0__\n" + body + "fim\n", [["int", "real", "indef"], list(ty)], lambda c: c[0] == ty[c[1]] or c[0] == "indef" or c[0] == "real" and ty[c[1]] == "int", "value type"


# ---------------------------------------------------------------- values
def retblock(g, d, loop=False):
    """statements every path of which ends in a return"""
    g.n += 1
    r = lambda: [g.mark(), RetS(Bin("+", V("x"), I(100 * g.n)))]
    if d == 0:
        return r()
    U = ("uni", "U")
    c = lambda: Bin(">", V("x"), I(g.n)) if g.n % 2 else Call("c", [I(g.n)], "bool")
    k = g.pick(8)
    w = g.pick(2)
    two = [retblock(g, d - 1) if j == w else r() for j in range(2)]
    cc = c()
    if k == 0:
        return [g.mark(), If([(cc, two[0])], two[1])]
    if k == 1:
        return [If([(cc, r()), (c(), two[0])], two[1])]
    if k == 2:
        return [If([(cc, [g.mark()])])] + two[0] + [g.mark()]
    if k == 3:
        return [IgualaS(Bin("%", V("x"), I(3)), [(PLit(I(0)), two[0]), (PBind("_"), two[1])])]
    if k == 4:
        return [IgualaS(Call("mk", [V("x")], U), [(PVar("U", "A"), two[0]), (PVar("U", "B", [PBind("k")]), two[1]), (PVar("U", "C"), r())])]
    if k == 5:
        return [SeIguala(Call("mk", [V("x")], U), PVar("U", "B", [PBind("k")]), two[0], two[1])]
    if k == 6:
        i = g.name("i")
        return [For(i, I(0), V("x"), [If([(Bin("==", V(i), I(2)), two[0])]), g.mark()])] + two[1]
    n = g.name("n")
    return [Decl(n, "int", I(0)), While(lt(V(n), V("x")), [Asg(V(n), I(1), "+="), If([(cc, two[0])]), g.mark()])] + two[1]


def values(ctx):
    g = G(ctx)
    ty = g.choose(["int", "real"])
    U = ("uni", "U")
    defs = [UniDef("U", [("A", []), ("B", ["int"]), ("C", [])]),
            Func("mk", [("k", "int")], U, [If([(Bin(">", V("k"), I(2)), [RetS(Variant("U", "A"))]), (Bin(">", V("k"), I(0)), [RetS(Variant("U", "B", [V("k")]))])]), RetS(Variant("U", "C"))]),
            Func("c", [("k", "int")], "bool", [Mostra(Bin("+", V("k"), I(1000))), RetS(Bin(">", V("k"), I(3)))])]
    return defs + [Func("f", [("x", "int")], ty, retblock(g, 2 if not THOROUGH else 3)), Decl("y", "int", Read("int")), Mostra(Call("f", [V("y")], ty)), Mostra(Bin("+", I(1), Call("f", [Bin("-", V("y"), I(1))], ty)))]


def main():
    f = {"types": (types, SYM), "flat": (flat, SYM), "nest": (nest, SYM), "void": (void, SYM), "values": (values, {"lo": -2, "hi": 4})}
    if THOROUGH:
        f["deep"] = (deep, SYM)
    return tv_check("C16", f, [f"bodies of 15 constructs nested {2 if not THOROUGH else 3} deep with one statement before or after, every statement `retorna` or `mostra`; functions and methods, {len(TYPES)} result types",
                               "not judged: a body that returns only if a loop body is assumed to run (known finding), and an escolha with senao all of whose cases return"], level="other", budget=70 if not THOROUGH else 600)
