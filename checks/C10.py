"""C10 iguala takes the first matching arm and accepts exactly exhaustive matches

Arms are enumerated; the matched value is symbolic (tags and parts are inputs).
The solver decides (1) whether the arms cover every value of the type, which must
be exactly what the checker decides, and (2) for accepted matches, that the
compiled decision tree runs the first matching arm for every value."""
from framework import tv_check, RawH, THOROUGH
from gx import *
import tv, sx, ref, z3, itertools

# union types: name -> [(variant, [types])]
T = {
    "P": [("A", ["int", "int"])],
    "Q": [("A", ["int", "int", "int"])],
    "U": [("A", ["int", "int"]), ("B", ["texto"]), ("C", [])],
    "V": [("X", []), ("Y", ["int"])],
    "W": [("N", [("uni", "V")]), ("M", [("uni", "V"), ("uni", "V")]), ("Z", [])],
    "E": [("R", []), ("G", []), ("K", [])],
    "S": [("T", ["texto", "texto"]), ("O", ["int"])],
}
TXT = ["a", "b"]


# patterns as data: ("_",) any, ("l", literal), (variant, [subs])
def covers(pats, ty):
    """z3: some pattern matches an arbitrary value of ty. -> (value constraint, formula)"""
    cons = []

    def value(t, n):
        if t == "int" or t == "texto":
            return (t, z3.Int(n))
        u = t[1]
        tag = z3.Int(n + "_t")
        cons.append(z3.And(tag >= 0, tag < len(T[u])))
        return (u, tag, [[value(x, f"{n}_{j}{k}") for k, x in enumerate(ts)] for j, (_, ts) in enumerate(T[u])])
    v = value(ty, "v")

    def m(p, v):
        if p[0] == "_":
            return z3.BoolVal(True)
        if p[0] == "l":
            return v[1] == (p[1] if v[0] == "int" else TXT.index(p[1]))
        j = [n for n, _ in T[v[0]]].index(p[0])
        return z3.And([v[1] == j] + [m(s, x) for s, x in zip(p[1], v[2][j])])
    return cons, [m(p, v) for p in pats]


def to_ref(p, ty, g, binds, wild):
    if p[0] == "_":
        if wild:
            return PBind("_")
        n = g.name("b")
        binds.append((n, ty))
        return PBind(n)
    if p[0] == "l":
        return PLit(I(p[1]) if ty == "int" else S(p[1]))
    u = ty[1]
    return PVar(u, p[0], [to_ref(s, t, g, binds, wild) for s, t in zip(p[1], dict(T[u])[p[0]])])


def mk(ty):
    """functions that build a value of ty from inputs"""
    if not isinstance(ty, tuple):
        return []
    u = ty[1]
    out = [UniDef(u, T[u])]
    pre = []
    for t in {x for _, ts in T[u] for x in ts}:
        pre += mk(t)
    arg = lambda t: Read(t) if not isinstance(t, tuple) else Call("mk" + t[1], [], t)
    rets = [[RetS(Variant(u, n, [arg(t) for t in ts]))] for n, ts in T[u]]
    body = rets[0] if len(rets) == 1 else [Decl("t", "int", Read("int")), If([(Bin("==", V("t"), I(j)), r) for j, r in enumerate(rets[:-1])], rets[-1])]
    return pre + out + [Func("mk" + u, [], ty, body)]


def build(ty, pats, g, form):
    val = Read(ty) if not isinstance(ty, tuple) else Call("mk" + ty[1], [], ty)
    defs = mk(ty)
    arms = []
    for j, p in enumerate(pats):
        binds = []
        rp = to_ref(p, ty, g, binds, (j + len(pats)) % 3 == 2)
        sh = [Mostra(V(n, t)) for n, t in binds if not isinstance(t, tuple)]
        arms.append((rp, sh, I(j + 1)))
    if form == 0:       # expression, target stored in a variable
        ig = Iguala(V("v", ty), [(p, e) if not s else (p, s, e) for p, s, e in arms], "int")
        return defs + [Decl("v", ty, val), Decl("r", "int", ig), Mostra(V("r"))]
    if form == 1:       # expression, target is a call
        ig = Iguala(val, [(p, s, e) for p, s, e in arms], "int")
        return defs + [Decl("r", "int", I(0)), Asg(V("r"), ig), Mostra(V("r"))]
    if form == 2:       # in a function whose parameter is matched
        ig = Iguala(V("v", ty), [(p, e) if not s else (p, s, e) for p, s, e in arms], "int")
        return defs + [Func("f", [("k", "int"), ("v", ty)], "int", [Decl("z", "int", I(90)), Decl("r", "int", ig), Mostra(V("z")), RetS(Bin("+", V("r"), V("k")))]),
                       Mostra(Call("f", [I(100), val], "int"))]
    return defs + [Decl("v", ty, val), IgualaS(V("v", ty) if form == 3 else val, [(p, s + [Mostra(e)]) for p, s, e in arms]), Mostra(I(0))]


def family(ty, gen, forms=(0, 1, 2, 3, 4)):
    def h(ctx):
        g = G(ctx)
        pats = gen(g)
        if pats is None:
            raise sx.PathEnd()
        cons, ms = covers(pats, ty)
        s = z3.Solver()
        s.add(cons)
        s.add([z3.Not(m) for m in ms])
        exh = ctx_check(ctx, s)
        form = forms[sum(len(str(p)) for p in pats) % len(forms)]       # forms vary with the arms
        prog = build(ty, pats, g, form)
        src = ref.render(prog)
        c = tv.compile_cached(src)
        if exh and c[0] == "ok":
            return tv.harness(lambda _: prog)(ctx)
        cnt = {"claims": 1, "non_exhaustive" if not exh else "exhaustive": 1}
        if not exh and c[0] == "reject":
            return {"viol": [], "cnt": cnt, "key": hash(src), "sample": {"source": src, "verdict": c[1]}}
        what = (f"an iguala that covers every value is not compiled: {c[0]}: {c[1]}" if exh else
                f"an iguala that leaves the value {witness(ty, s)} unmatched is {'accepted' if c[0] == 'ok' else 'not diagnosed: ' + str(c[1])}")
        return {"viol": [{"what": what, "src": src, "stdin": "", "sig": what[:40]}], "cnt": cnt, "key": hash(src)}
    return RawH(h)


def witness(ty, s):
    return str(s.model())


def ctx_check(ctx, s):
    import time
    t = time.time()
    r = s.check()
    ctx.nq += 1
    ctx.tq += time.time() - t
    if r == z3.unknown:
        raise sx.Inconclusive("solver unknown on coverage")
    return r == z3.unsat


ANY = ("_",)


def canon(lits):
    """literals are used in order of first occurrence (symmetry)"""
    for order in ([1, 2, 3], TXT):
        seen = []
        for l in lits:
            if l in order and l not in seen:
                seen.append(l)
        if seen != order[:len(seen)]:
            return False
    return True


def lits_of(p):
    if p[0] == "_":
        return []
    if p[0] == "l":
        return [p[1]]
    return [l for s in p[1] for l in lits_of(s)]


def arms(g, pool, n, dups=False, final=False, minn=1):
    """every sequence of minn..n patterns of the pool"""
    k = minn + g.pick(n - minn + 1)
    out = []
    for _ in range(k):
        out.append(g.choose([p for p in pool if dups or p not in out]))
    if final and g.pick(2):
        out.append(ANY)
    if not canon([l for p in out for l in lits_of(p)]):
        return None
    return out


def lits(v):
    return [("l", x) for x in v]


L = 1 if THOROUGH else 0
simple_i = family("int", lambda g: arms(g, lits([1, 2, 3]) + [ANY], 4, dups=True))
simple_t = family("texto", lambda g: arms(g, lits(TXT) + [ANY], 4, dups=True))
pairp = [("A", [a, b]) for a in lits([1, 2]) + [ANY] for b in lits([1, 2]) + [ANY]]
pair = family(("uni", "P"), lambda g: arms(g, pairp, 4 + L, final=True, minn=4 if not L else 3))
pairs = family(("uni", "P"), lambda g: arms(g, pairp + [ANY], 3))
tripp = [("A", list(t)) for t in itertools.product(lits([1]) + [ANY], repeat=3)]


def triple_g(g):
    a = arms(g, tripp[:-1], 4 + L, minn=4)
    return a and a + [ANY]


triple = family(("uni", "Q"), triple_g)
mixedp = [("A", [("l", 1), ANY]), ("A", [ANY, ("l", 1)]), ("A", [("l", 1), ("l", 1)]), ("A", [ANY, ANY]), ("B", [("l", "a")]), ("B", [ANY]), ("C", []), ANY]
mixed = family(("uni", "U"), lambda g: arms(g, mixedp, 4 + L))
txtp = [("T", [a, b]) for a in lits(TXT) + [ANY] for b in lits(TXT[:1]) + [ANY]] + [("O", [ANY]), ("O", [("l", 1)]), ANY]
txt = family(("uni", "S"), lambda g: arms(g, txtp, 3 + L, final=True))
X, Y, Y1 = ("X", []), ("Y", [ANY]), ("Y", [("l", 1)])
nestp = [("Z", []), ("N", [ANY]), ("N", [X]), ("N", [Y]), ("N", [Y1]), ("M", [ANY, ANY]), ("M", [X, ANY]), ("M", [ANY, X]), ("M", [Y, Y]), ("M", [Y1, X]), ("M", [ANY, Y1]), ANY]
nestq = nestp if L else [p for p in nestp if p not in (("N", [ANY]), ("M", [ANY, X]), ("M", [Y1, X]))]
nested = family(("uni", "W"), lambda g: arms(g, nestq, 3 + L, final=True))


def deep_g(g):
    """sequences over the two-argument variant, closed by the other variants"""
    a = arms(g, [p for p in nestp if p[0] == "M"], 4 + L, minn=3)
    return a and a + g.choose([[("Z", []), ("N", [Y]), ("N", [X])], [("N", [ANY])]])


deep = family(("uni", "W"), deep_g)
enum_ = family(("uni", "E"), lambda g: arms(g, [("R", []), ("G", []), ("K", []), ANY], 4, dups=True))


def se_iguala(ctx):
    g = G(ctx)
    ty = g.choose([("uni", "U"), ("uni", "W"), ("uni", "P"), "int", "texto", ("uni", "S")])
    pool = {"U": mixedp, "W": nestp, "P": pairp, "S": txtp}[ty[1]] if isinstance(ty, tuple) else (lits([1, 2]) if ty == "int" else lits(TXT)) + [ANY]
    p = g.choose(pool)
    binds = []
    rp = to_ref(p, ty, g, binds, g.pick(2))
    sh = [Mostra(V(n, t)) for n, t in binds if not isinstance(t, tuple)] + [Mostra(I(1))]
    val = Read(ty) if not isinstance(ty, tuple) else Call("mk" + ty[1], [], ty)
    els = [None, [Mostra(I(2))]][g.pick(2)]
    if g.pick(2):
        return mk(ty) + [Decl("v", ty, val), SeIguala(V("v", ty), rp, sh, els), Mostra(I(3))]
    return mk(ty) + [SeIguala(val, rp, sh, els), Mostra(I(3))]


EF = Func("ef", [("k", "int")], ("uni", "V"), [Mostra(Bin("+", V("k"), I(800))), If([(Bin(">", V("k"), I(0)), [RetS(Variant("V", "Y", [V("k")]))])]), RetS(Variant("V", "X"))])


def contexts(ctx):
    """where matches appear: nested, in loops, in functions, in operands, shadowing, with effects"""
    g = G(ctx)
    VT = ("uni", "V")
    x = Decl("x", "int", Read("int"))
    pre = [UniDef("V", T["V"]), EF, x]
    k = g.pick(9)
    tgt = g.choose([lambda: Call("ef", [V("x")], VT), lambda: Variant("V", "Y", [V("x")])])
    y = lambda n: PVar("V", "Y", [PBind(n)])
    px = PVar("V", "X")
    if k == 0:      # the target is evaluated once
        return pre + [Decl("r", "int", Iguala(tgt(), [(PVar("V", "Y", [PLit(I(2))]), I(1)), (PVar("V", "Y", [PLit(I(3))]), I(2)), (y("b"), V("b")), (px, I(4))], "int")), Mostra(V("r"))]
    if k == 1:      # nested matches, both directions
        inner = lambda n: Iguala(Call("ef", [V(n)], VT), [(px, I(5)), (y("c"), Bin("-", V("c"), V(n)))], "int")
        return pre + [Decl("r", "int", Iguala(tgt(), [(px, I(9)), (y("b"), [Decl("s", "int", inner("b")), Mostra(V("s"))], Bin("+", V("s"), V("b")))], "int")), Mostra(V("r"))]
    if k == 2:      # in a loop, with quebra / continua in the arms
        leave = g.choose([BreakS, ContS])
        body = [Mostra(V("i")), IgualaS(Call("ef", [Bin("-", V("i"), V("x"))], VT), [(y("b"), [Mostra(V("b")), leave()]), (px, [Mostra(I(70))])]), Mostra(I(71))]
        return pre + [For("i", I(0), I(3), body), Mostra(I(72))]
    if k == 3:      # returns from the arms
        b = [IgualaS(V("v", VT), [(y("b"), [If([(Bin(">", V("b"), I(3)), [RetS(I(50))])]), Mostra(V("b"))]), (PBind("_"), [RetS(I(51))])]), RetS(I(52))]
        return pre + [Func("f", [("v", VT)], "int", b), Mostra(Call("f", [tgt()], "int"))]
    if k == 4:      # a binding hides a variable of the same name, which keeps its value
        n = g.choose(["x", "z", "v"])
        return pre + [Decl("z", "int", I(7)), Decl("v", VT, tgt()), IgualaS(V("v", VT), [(y(n), [Mostra(V(n)), Asg(V(n), I(99)), Mostra(V(n))]), (px, [Mostra(V("z"))])]),
                      Mostra(V("x")), Mostra(V("z")), SeIguala(V("v", VT), y("b"), [Mostra(V("b"))], [Mostra(I(1))])]
    if k == 5:      # the target variable is assigned in the arm
        return pre + [Decl("v", VT, tgt()), IgualaS(V("v", VT), [(y("b"), [Asg(V("v", VT), Variant("V", "X")), Mostra(V("b"))]), (px, [Asg(V("v", VT), Variant("V", "Y", [I(4)]))])]),
                      IgualaS(V("v", VT), [(px, [Mostra(I(30))]), (y("c"), [Mostra(V("c"))])])]
    if k == 6:      # two matches in one scope, same names
        m = lambda: IgualaS(tgt(), [(y("b"), [Decl("q", "int", Bin("+", V("b"), I(1))), Mostra(V("q"))]), (px, [Decl("q", "int", I(3)), Mostra(V("q"))])])
        return pre + [m(), m(), Mostra(V("x"))]
    if k == 7:      # value of other types
        ty = g.choose(["texto", "real", "bool", VT])
        e = {"texto": (S("u"), S("w")), "real": (R(1.5), R(2.0)), "bool": (B(True), B(False)), VT: (Variant("V", "X"), Variant("V", "Y", [I(8)]))}[ty]
        d = Decl("r", ty, Iguala(tgt(), [(px, e[0]), (PBind("_"), e[1])], ty))
        sh = [Mostra(V("r", ty))] if ty != VT else [SeIguala(V("r", ty), y("b"), [Mostra(V("b"))], [Mostra(I(1))])]
        return pre + [d] + sh
    # inside a method, matching alvo's field
    return pre + [RegDef("R", [("v", VT), ("n", "int")]),
                  Func("m", [], "int", [Decl("r", "int", Iguala(Fld(V("alvo"), "v", VT), [(y("b"), Bin("*", V("b"), Fld(V("alvo"), "n", "int"))), (px, Fld(V("alvo"), "n", "int"))], "int")), RetS(V("r"))], reg="R"),
                  Decl("o", ("reg", "R"), New("R", [("v", tgt()), ("n", Read("int"))])), Mostra(MCall(V("o"), "m", [], "int", "R"))]


def main():
    return tv_check("C10", {"simple_int": simple_i, "simple_texto": simple_t, "pair": pair, "pair_short": pairs, "triple": triple, "mixed": mixed, "texts": txt,
                            "nested": nested, "deep": deep, "enum": enum_, "se_iguala": se_iguala, "contexts": contexts}, [
        "targets: int, texto, enumerations, unions with 1-3 int/texto parts, unions of unions (nesting 2)",
        f"up to {4 + L} arms (plus a catch-all) over literals {{1,2,3}}/{{\"a\",\"b\"}}, names, '_' and nested patterns; the literals up to renaming",
        "the matched value is symbolic: any variant, int parts in [-20,20], texts of up to the bound of lib/vals.py; coverage is decided for every value of the type",
        "iguala as initialiser, assigned value, statement, in functions and methods, nested, in loops; se iguala with and without senao"],
        budget=None if not THOROUGH else 1500)
