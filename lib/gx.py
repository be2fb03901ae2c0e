"""helpers shared by the program generators"""
from ref import *


class G:
    """one program under construction"""

    def __init__(self, ctx):
        self.ctx, self.n, self.uniq = ctx, 0, 0
        self.leaves = self.conds = None     # optional restrictions

    def pick(self, n):
        return self.ctx.pick(n)

    def choose(self, s):
        return self.ctx.choose(s)

    def mark(self):
        self.n += 1
        return Mostra(I(self.n))

    def name(self, p="t"):
        self.uniq += 1
        return f"{p}{self.uniq}"


def V(n, ty="int"):
    return Var(n, ty)


def lt(a, b):
    return Bin("<", a, b)


def flow(g, d, loop, fn, x="x", ctr=None, kinds=None):
    """list of statements: marker, one construct of nesting depth d, marker"""
    return [g.mark()] + construct(g, d, loop, fn, x, ctr, kinds) + [g.mark()]


def cond(g, x, ctr):
    k = g.choose(g.conds) if g.conds else g.pick(3 if ctr else 2)
    if k == 0:
        return Bin(">", V(x), I(1))
    if k == 1:
        g.n += 1
        return Call("c", [I(g.n)], "bool")      # prints a marker, value depends on the input
    return Bin("==", V(ctr), I(1))


CFUN = Func("c", [("k", "int")], "bool", [Mostra(Bin("+", V("k"), I(1000))), RetS(Bin("==", Bin("%", Bin("+", V("x"), V("k")), I(2)), I(0)))])


def construct(g, d, loop, fn, x, ctr, kinds=None):
    leaf = ["mark"] + (["quebra", "continua", "gquebra", "gcontinua"] if loop else []) + (["ret", "gret"] if fn else [])
    if g.leaves:
        leaf = [l for l in leaf if l in g.leaves]
    comp = kinds or ["se", "seelse", "elif", "while", "para", "parainc", "escolha", "escolhaelse"]
    k = g.choose(comp) if d > 0 else g.choose(leaf)
    ret = lambda: RetS(Bin("+", V(x), I(g.n))) if fn == "int" else RetS()
    if k == "mark":
        return [g.mark()]
    if k in ("quebra", "continua"):
        return [BreakS() if k == "quebra" else ContS()]
    if k in ("gquebra", "gcontinua"):
        return [If([(cond(g, x, ctr), [g.mark(), BreakS() if k == "gquebra" else ContS()])])]
    if k == "ret":
        return [If([(B(True), [ret()])])]
    if k == "gret":
        return [If([(cond(g, x, ctr), [ret()])])]
    sub = lambda L=loop, c=ctr: flow(g, d - 1, L, fn, x, c, kinds)
    if k == "se":
        return [If([(cond(g, x, ctr), sub())])]
    if k == "seelse":
        if g.pick(2):
            return [If([(cond(g, x, ctr), sub())], [g.mark()])]
        return [If([(cond(g, x, ctr), [g.mark()])], sub())]
    if k == "elif":
        w = g.pick(3)
        bs = [[g.mark()] if w != j else sub() for j in range(3)]
        return [If([(Bin("==", V(x), I(1)), bs[0]), (cond(g, x, ctr), bs[1])], bs[2])]
    if k == "while":
        n = g.name("n")
        return [Decl(n, "int", I(0)), While(lt(V(n), I(2)), [Asg(V(n), I(1), "+=")] + sub(True, n)), Mostra(V(n))]
    if k in ("para", "parainc"):
        i = g.name("i")
        b = I(2) if k == "para" else I(3)
        a = I(0) if not ctr else g.choose([I(0), V(ctr)])
        return [For(i, a, b, [Mostra(V(i))] + sub(True, i), None if k == "para" else I(2))]
    if k in ("escolha", "escolhaelse"):
        w = g.pick(2)
        bs = [sub() if w == j else [g.mark()] for j in range(2)]
        e = Bin("%", V(x), I(3)) if not ctr or g.pick(2) == 0 else V(ctr)
        return [Switch(e, [(I(0), bs[0]), (I(1), bs[1])], [g.mark()] if k == "escolhaelse" else None)]
    raise AssertionError(k)
