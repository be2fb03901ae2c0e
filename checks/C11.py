"""C11 variables are lexically scoped and never share storage"""
from framework import tv_check, THOROUGH
from gx import *


class Sc:
    def __init__(self, g):
        self.g, self.k = g, 10

    def const(self):
        self.k += 1
        return I(self.k)

    def show(self, vis):
        return [Mostra(V(n)) for n in vis]

    def block(self, vis, own, d, kinds, decl=True):
        """statements of one scope. vis: visible names (outer to inner), own: names declared in this scope"""
        g = self.g
        vis, own = list(vis), set(own)
        out = []
        if decl:
            k = g.pick(4)
            if k:
                n = {1: g.name("v"), 2: "a", 3: "b"}[k]
                if n not in own:
                    out.append(Decl(n, "int", self.const()))
                    own.add(n)
                    if n not in vis:
                        vis.append(n)
        if d > 0:
            out += self.nested(vis, d, kinds)
        t = g.choose(vis)
        out.append(Asg(V(t), g.choose([self.const(), Bin("+", V(vis[0]), I(100))]) if d > 0 else self.const()))
        return out + self.show(vis)

    def nested(self, vis, d, kinds):
        g = self.g
        k = g.choose(kinds)
        sub = lambda own=(), v=vis: self.block(v, own, d - 1, kinds)
        if k == "se":
            return [If([(Bin(">", V(vis[0]), I(0)), sub())], None if g.pick(2) else self.show(vis))]
        if k == "senao":
            n = g.name("e")
            return [If([(Bin(">", V(vis[0]), I(0)), [Decl(n, "int", self.const()), Mostra(V(n))])], sub())]
        if k == "para":
            n = g.choose([g.name("i"), "a", "b"])
            return [For(n, I(0), I(2), sub((n,), vis if n in vis else vis + [n]))]
        if k == "enquanto":
            n = g.name("n")
            return [Decl(n, "int", I(0)), While(lt(V(n), I(2)), [Asg(V(n), I(1), "+=")] + sub())]
        if k == "escolha":
            return [Switch(Bin("%", V(vis[0]), I(2)), [(I(0), sub()), (I(1), self.show(vis))], None)]
        if k == "seig":
            n = g.choose([g.name("m"), "a"])
            return [SeIguala(Variant("U", "N", [V(vis[0])]), PVar("U", "N", [PBind(n)]), sub((n,), vis if n in vis else vis + [n]))]
        if k == "ig":
            n = g.choose([g.name("m"), "a"])
            return [IgualaS(Variant("U", "N", [V(vis[0])]), [(PVar("U", "N", [PBind(n)]), sub((n,), vis if n in vis else vis + [n])),
                                                             (PVar("U", "Z"), [])])]
        raise AssertionError(k)


UD = UniDef("U", [("N", ["int"]), ("Z", [])])
KINDS = ["se", "senao", "para", "enquanto", "escolha", "seig", "ig"]


def scopes(where, d, kinds, names=("a", "b")):
    def gen(ctx):
        g = G(ctx)
        s = Sc(g)
        gl = [UD] + [Decl(n, "int", Read("int")) for n in names]
        if where == "global":
            return gl + s.nested(list(names), d, kinds) + s.show(names)
        if where == "func":
            # parameter shadows a global or not; the other global stays visible
            p = g.choose(["a", "p"])
            vis = ["a", "b"] + ([] if p == "a" else ["p"])
            f = Func("f", [(p, "int")], None, s.block(vis, (p,), d, kinds))
            return gl + [f, ES(Call("f", [I(7)])), ES(Call("f", [V("b")]))] + s.show(names)
        raise AssertionError
    return gen


def calls(ctx):
    """functions with different numbers of locals called from everywhere: frames never overlap"""
    g = G(ctx)
    nl = g.pick(3)
    h = Func("h", [("q", "int")], "int", [Decl(f"z{j}", "int", I(70 + j)) for j in range(nl)] + [Asg(V("q"), I(1), "+="), RetS(V("q"))])
    call = Call("h", [V("a")], "int")
    forms = [[Decl("r", "int", call), Mostra(V("r"))], [Asg(V("a"), call)], [Mostra(Bin("+", V("l"), call))], [Mostra(Bin("+", call, V("l")))],
             [ES(call)], [If([(Bin(">", call, V("l")), [Decl("w", "int", I(3)), Mostra(V("w"))])])],
             [For("i", I(0), I(2), [Decl("w", "int", V("i")), Asg(V("w"), call, "+="), Mostra(V("w")), Mostra(V("i"))])],
             [Mostra(Idx(VecLit("int", [call, V("l")]), I(1)))]]
    st = g.choose(forms) + g.choose(forms[2:])
    where = g.pick(3)
    body = [Decl("l", "int", I(50))] + st + [Mostra(V("a")), Mostra(V("l"))]
    if where == 0:
        return [Decl("a", "int", Read("int")), h] + body
    if where == 1:
        return [Decl("a", "int", Read("int")), h, Func("k", [], None, body), ES(Call("k", []))]
    return [Decl("g", "int", Read("int")), h, Func("k", [("a", "int"), ("b", "int")], "int", body + [RetS(V("b"))]), Mostra(Call("k", [V("g"), I(5)], "int")), Mostra(V("g"))]


def recurse(ctx):
    """every activation has its own parameters and locals"""
    g = G(ctx)
    n, a = V("n"), V("a")
    rec = Call("f", [Bin("-", n, I(1)), Bin("+", a, I(10))], "int")
    mid = g.choose([[Decl("r", "int", rec), Mostra(n), Mostra(V("l")), RetS(Bin("+", V("r"), V("l")))],
                    [Decl("r", "int", Bin("+", rec, V("l"))), Decl("s", "int", rec), Mostra(V("r")), RetS(V("s"))],
                    [If([(Bin("==", a, I(10)), [Decl("k", "int", rec), Mostra(V("k")), Mostra(V("l"))])]), Asg(a, rec), Mostra(n), RetS(a)],
                    [For("i", I(0), I(2), [Decl("k", "int", rec), Mostra(V("k")), Mostra(V("i"))]), RetS(V("l"))],
                    [Asg(V("l"), Bin("-", V("l"), rec)), Asg(n, I(0)), Mostra(n), RetS(V("l"))]])
    f = Func("f", [("n", "int"), ("a", "int")], "int", [Decl("l", "int", Bin("*", n, I(2))), If([(Bin("<=", n, I(0)), [RetS(a)])])] + mid)
    return [f, Mostra(Call("f", [g.choose([I(1), I(2)]), Read("int")], "int"))]


def reinit(ctx):
    """a declaration inside a loop or called function starts from its initialiser every time"""
    g = G(ctx)
    ty = g.choose(["int", "real", "bool", "texto"])
    chg = {"int": I(5), "real": R(2.5), "bool": B(True), "texto": S("z")}[ty]
    init = g.choose([None, {"int": I(1), "real": I(1), "bool": B(False), "texto": S("k")}[ty]])
    body = [Decl("v", ty, init), Mostra(V("v", ty)), Asg(V("v", ty), chg), Mostra(V("v", ty))]
    k = g.pick(4)
    if k == 0:
        return [For("i", I(0), I(2), body)]
    if k == 1:
        return [Decl("n", "int", I(0)), While(lt(V("n"), I(2)), [Asg(V("n"), I(1), "+=")] + body)]
    if k == 2:
        return [Func("f", [], None, body), ES(Call("f", [])), ES(Call("f", []))]
    return [If([(B(True), body)]), If([(B(True), [Decl("w", ty, init), Mostra(V("w", ty))])])]


def globals_(ctx):
    """functions and blocks see the one global; several globals of several types"""
    g = G(ctx)
    tys = ["int", "real", "texto"]
    ini = {"int": Read("int"), "real": R(1.5), "texto": S("a")}
    new = {"int": I(9), "real": I(4), "texto": S("q")}
    gl = [Decl(f"g{j}", t, ini[t]) for j, t in enumerate(tys)]
    t = g.pick(3)
    setter = Func("put", [], None, [Asg(V(f"g{t}", tys[t]), new[tys[t]])])
    shw = Func("show", [], None, [Mostra(V(f"g{j}", tys[j])) for j in range(3)])
    c = lambda n: ES(Call(n, []))
    pos = g.pick(5)
    st = [[c("put"), c("show")], [If([(Bin(">", V("g0"), I(0)), [c("put")])]), c("show")],
          [For("g9", I(0), I(1), [c("put"), Decl("g1", "real", I(8)), c("show"), Mostra(V("g1", "real"))]), c("show")],
          [Decl("l", "int", I(1)), c("put"), Mostra(V("l")), c("show")],
          [IgualaS(Variant("U", "N", [V("g0")]), [(PVar("U", "N", [PBind("g1")]), [c("put"), Mostra(V("g1")), c("show")]), (PVar("U", "Z"), [])])]][pos]
    return [UD] + gl + [setter, shw] + st + [Mostra(V("g0"))]


def many(ctx):
    """more variables than one byte of index can name"""
    g = G(ctx)
    n = g.choose([3, 130, 255] + ([250, 254] if THOROUGH else []))
    where = g.pick(2)
    ds = [Decl(f"q{j}", "int", I(j)) for j in range(n)] + [Asg(V("q0"), Read("int")), Asg(V(f"q{n-1}"), Bin("+", V("q0"), I(1)))]
    use = [Mostra(V("q0")), Mostra(V("q1")), Mostra(V(f"q{n//2}")), Mostra(V(f"q{n-1}"))]
    if where == 0:
        return ds + [Func("f", [], None, use), ES(Call("f", []))] + use
    if n > 200 and False:
        return None
    return [Func("f", [("p", "int")], "int", ds + use + [RetS(V("p"))]), Mostra(Call("f", [I(4)], "int"))]


def main():
    ks = KINDS if THOROUGH else ["se", "para", "enquanto", "ig"]
    fam = {"global1": scopes("global", 1, KINDS), "global2": scopes("global", 2, ks, ("a", "b")), "func1": scopes("func", 1, KINDS),
           "calls": calls, "recurse": recurse, "reinit": reinit, "globals": globals_, "many": many}
    if THOROUGH:
        fam["func2"] = scopes("func", 2, ["se", "para", "ig"])
    return tv_check("C11", fam, [
        "block nesting depth <= 3 (se, senao, para, enquanto, escolha, iguala, se iguala) with fresh or shadowing declarations in each, one assignment per scope to any visible variable, all visible variables printed after each scope",
        "functions: parameters shadowing globals, recursion depth <= 2, callee with 0-2 extra locals called from every expression position; up to 255 variables in one frame",
        "initial values symbolic in [-20,20]"])
