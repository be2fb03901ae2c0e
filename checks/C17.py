"""C17 modules: each reachable module once, cycles and clashes rejected, definitions
usable through the mode of the import, each module with its own globals and constants

Three kinds of family.  Import graphs: the paths of all `usa` lines of all files are
symbolic tokens; accepted exactly when no cycle is reachable.  Names: the imported
items, aliases, declared and used names are symbolic tokens; accepted exactly when
nothing clashes and every used name was made visible.  Programs: several files with
symbolic input, emitted bytecode of all modules against the reference evaluator."""
from framework import tv_check, THOROUGH
from gx import *

MODES = ["tudo", "alias", "itens"]


def files(**f):
    return "".join(f"#### ficheiro {n}.ama\n{t}" for n, t in f.items())


def hole(k):
    return f"hole{k}__"


# ------------------------------------------------------------------ import graphs
def graph(ctx):
    """edges[m] = number of usa lines of module m; path of each symbolic"""
    names = ["a", "b", "c"]
    shape = ctx.choose([dict(main=2, a=1, b=1, c=1), dict(main=1, a=2, b=1, c=1), dict(main=1, a=1, b=2, c=0)] +
                       ([dict(main=2, a=2, b=1, c=1), dict(main=2, a=2, b=2, c=1)] if THOROUGH else []))
    mode = ctx.choose(["tudo", "alias", "itens", "misto"])
    alts, edges, out, k = [], {}, {}, 0
    for m in ["main"] + names:
        t = ""
        for j in range(shape[m]):
            # items need a name that every module has and no importer defines: `z` once only
            md = mode if mode != "misto" else ctx.choose(["tudo", "alias"])
            if md == "itens" and j:
                md = "alias"
            t += f"usa {hole(k)}" + {"tudo": "", "alias": f" => {m}{j}", "itens": f" => [z{m}]"}[md] + "\n"
            alts.append(['"a"', '"b"', '"c"', '"nada"', '"main"'] if m != "main" else ['"a"', '"b"', '"nada"', '"main"'])
            edges.setdefault(m, []).append(k)
            k += 1
        out[m] = t
    for m in ["main"] + names:
        # every module defines the items that others ask for
        out[m] += f"x{m} : int = 1\nmostra x{m}\n"
        if mode == "itens":
            out[m] += "".join(f"z{o} : int = 1\n" for o in ["main"] + names if o != m)
    out["nada"] = "".join(f"z{o} : int = 1\n" for o in ["main"] + names) if mode == "itens" else ""
    mod = lambda s: s.strip('"')

    def pred(c):
        state = {}
        clash = []

        def go(m):
            state[m] = 1
            for e in edges.get(m, []):
                t = mod(c[e])
                if state.get(t) == 1:
                    return False
                if t not in state and not go(t):
                    return False
            state[m] = 2
            return True
        return go("main")
    return files(**out), alts, pred, f"import graph, {mode}"


# ------------------------------------------------------------------ names
ID = ["p", "q", "r"]


def uses(ctx):
    """what main sees of one module, or of two"""
    md = ctx.choose(MODES)
    a = "p : int = 1\nfunc q(): int\n retorna 2\nfim\nregisto R\n v: int\nfim\n"
    u = {"tudo": 'usa "a"\n', "alias": f'usa "a" => {hole(0)}\n', "itens": f'usa "a" => [{hole(0)}, {hole(1)}]\n'}[md]
    n = {"tudo": 0, "alias": 1, "itens": 2}[md]
    alts = {"tudo": [], "alias": [["k", "p", "tam", "int"]], "itens": [["p", "q", "R", "s", "leia"], ["p", "q", "R", "k"]]}[md]
    form = ctx.pick(5)
    x, y = hole(n), hole(n + 1)
    use = [f"mostra {x}\n", f"mostra {x}()\n", f"mostra {x}(v: 1).v\n", f"mostra {x}.{y}\n", f"mostra {x}.{y}()\n"][form]
    where = ctx.pick(2)
    if where:
        use = f"func main_f()\n {use}fim\n"
    alts = alts + [["p", "q", "R", "k", "s"]] + ([["p", "q", "s"]] if form > 2 else [])

    def pred(c):
        names = {"p", "q", "R"}
        if md == "alias":
            if c[0] in ("tam", "int"):
                return False
            vis, al = set(), {c[0]}
        elif md == "itens":
            if c[0] == c[1] or not set(c[:2]) <= names:
                return False
            vis, al = set(c[:2]), set()
        else:
            vis, al = names, set()
        h = c[n]
        kind = {"p": "var", "q": "func", "R": "reg"}
        if form < 3:
            return h in vis and kind[h] == ["var", "func", "reg"][form]
        return h in al and kind.get(c[n + 1]) == ["var", "func"][form - 3]
    return files(a=a, main=u + use), alts, pred, f"names through {md}"


def clash(ctx):
    """two imports and a declaration"""
    m1, m2 = ctx.choose(MODES), ctx.choose(MODES)
    da, db = ctx.choose([("x : int = 1\n", "x", "y", "var"), ("func x()\nfim\n", "x", "y", "func")]), ctx.pick(2)
    tb = ["{} : int = 1\n", "registo {}\n v: int\nfim\n"][db].format(hole(0))
    alts = [["x", "y"]]
    n = 1
    us = []
    for m, f in ((m1, "a"), (m2, "b")):
        if m == "tudo":
            us.append(f'usa "{f}"\n')
        else:
            us.append(f'usa "{f}" => ' + (hole(n) if m == "alias" else f"[{hole(n)}]") + "\n")
            alts.append(["x", "y", "k"] if m == "alias" else ["x", "y"])
            n += 1
    dk = ctx.pick(3)
    decl = ["{} : int = 5\n", "func {}(z: int)\nfim\n", "registo {}\n w: int\nfim\n"][dk].format(hole(n))
    alts.append(["x", "y", "k", "w"])

    def pred(c):
        seen, j = set(), 1
        for m, own in ((m1, "x"), (m2, c[0])):
            if m == "tudo":
                new = own
            else:
                new = c[j]
                if m == "itens" and new != own:
                    return False
                j += 1
            if new in seen:
                return False
            seen.add(new)
        return c[j] not in seen
    return files(a=da[0], b=tb, main="".join(us) + decl), alts, pred, f"clash of {m1} and {m2}"


def again(ctx):
    """the same module reached twice, in any two modes, through main or another module"""
    m1, m2 = ctx.choose(MODES), ctx.choose(MODES)
    imp = lambda m, al: {"tudo": 'usa "a"\n', "alias": f'usa "a" => {al}\n', "itens": f'usa "a" => [p, f]\n'}[m]
    ref = lambda m, al: {"tudo": "", "alias": f"{al}.", "itens": ""}[m]
    a = "p : int = 1\nfunc f(): int\n p += 1\n retorna p\nfim\n"
    use = lambda m, al: f"mostra {ref(m, al)}{hole(0)}\nmostra {ref(m, al)}{hole(1)}()\n"
    k = ctx.pick(3)
    if k == 0:
        # both in main; items clash with what is visible already
        t = files(a=a, main=imp(m1, "k") + imp(m2, "l") + use(m1, "k") + use(m2, "l"))
        ok = "alias" in (m1, m2) or (m1, m2) == ("tudo", "tudo")
        ok = None if not ok else True       # the same item under the same name twice: left open
    elif k == 1:
        t = files(a=a, b=imp(m1, "k") + "func fb()\n" + use(m1, "k") + "fim\n", main='usa "b" => b\n' + imp(m2, "l") + use(m2, "l") + "b.fb()\n")
        ok = True
    else:
        t = files(a=a, b=imp(m1, "k") + "func fb()\n" + use(m1, "k") + "fim\n", c=imp(m2, "l") + "func fc()\n" + use(m2, "l") + "fim\n", main='usa "b" => b\nusa "c" => c\nb.fb()\nc.fc()\n')
        ok = True
    return t, [["p", "f", "zz"], ["f", "p", "zz"]], lambda c: False if c != ["p", "f"] else ok, f"module reached twice: {m1}, {m2}"


def distinct(ctx):
    """types of the same name of two modules are different types"""
    k = ctx.pick(2)
    ty = ["registo T\n v: int\nfim\nfunc mk(): T\n retorna T(v: 1)\nfim\n", "uniao T\n A(int),\n B\nfim\nfunc mk(): T\n retorna T::A(1)\nfim\n"][k]
    tk = ty + "func tk(t: T)\nfim\nfunc tv(t: [T])\nfim\nfunc to(t: T?)\nfim\n"
    form = ctx.pick(5)
    h = [hole(i) for i in range(3)]
    body = [f"x : {h[0]}.T = {h[1]}.mk()\n", f"{h[0]}.tk({h[1]}.mk())\n", f"{h[0]}.tv([{h[1]}.T: {h[2]}.mk()])\n", f"{h[0]}.to({h[1]}.mk())\n", f"x : {h[0]}.T = {h[1]}.mk()\n{h[2]}.tk(x)\n"][form]
    n = 3 if form in (2, 4) else 2
    return files(a=tk, b=tk, main='usa "a" => a\nusa "b" => b\n' + body), [["a", "b"]] * n, lambda c: len(set(c)) == 1, "types of two modules"


def values(ctx):
    """a module is not a value"""
    ex = ["mostra {}\n", "mostra {} == 1\n", "v : [int] = [int: {}]\n", 'mostra f"{{{}}}"\n', "escreva({})\n", "mostra {} :> texto\n", "mostra tam({})\n", "z : int = {}\n",
          "se {} entao\nfim\n", "mostra -{}\n", "func h(): int\n retorna {}\nfim\n", "mostra [int: 1][{}]\n", "para i de 0..{} faca\nfim\n", "x += {}\n", "x = {}\n", "escolha {}:\n caso 1:\n  x = 1\nfim\n",
          "z : int = iguala {}\n n => 1\nfim\n", "a.f({})\n", "mostra vec(int, {})\n"]
    t = ctx.choose(ex)
    two = ctx.pick(2)
    form = "{}.{}".format(hole(0), hole(1)) if two else hole(0)
    ok_text = ["mostra [int: 1]", "mostra tam", "se ", "escolha", "z : int = iguala"]

    def pred(c):
        if c[0] == "a" and (not two or c[1] == "c"):
            return False
        return None          # the type rules of values are other properties'
    return files(c="g : int = 1\n", a='usa "c" => c\ng : int = 1\nfunc f(n: int)\nfim\n', main='usa "a" => a\nx : int = 0\n' + t.format(form)), [["a", "x"]] + ([["c", "g"]] if two else []), pred, "a module as a value"


def missing(ctx):
    """files and items that do not exist"""
    m = ctx.choose(MODES)
    suf = {"tudo": "", "alias": " => k", "itens": " => [p]"}[m]
    alts = ['"a"', '"a.ama"', '"./a"', '"sub/s"', '"./sub/s.ama"', '"s"', '"z"', '"sub"', '"sub/"', '""', '"../a"', "'a'", '"mat"']
    ok = {"a", "a.ama", "./a", "sub/s", "./sub/s.ama"}
    d = ctx.pick(2)
    t = f"usa {hole(0)}{suf}\n"
    fs = {"a": "p : int = 1\n", "sub/s": "p : int = 2\n"}
    if d:
        fs["b"], t = t, 'usa "b" => b\n'

    def pred(c):
        n = c[0][1:-1]
        return n in ok or (n == "mat" and m != "itens")
    return files(**fs, main=t), [alts], pred, "paths of usa"


# ------------------------------------------------------------------ programs
def imp(m, mode, items):
    return Usa(m, None if mode == "tudo" else m if mode == "alias" else items)


def nm(m, mode, n):
    return f"{m}.{n}" if mode == "alias" else n


def state(ctx):
    """a module with state, used by main and by another module, in every mode and order"""
    ma, mb, mba = ctx.choose(MODES), ctx.choose(MODES), ctx.choose(MODES)
    order = ctx.pick(2)
    a = [Decl("g", "int", I(5)), Func("soma", [("n", "int")], "int", [Asg(V("g"), V("n"), "+="), Mostra(S("em a")), RetS(V("g"))]),
         Func("ver", [], None, [Mostra(Fmt(["a:", V("g")]))]),
         Func("rec", [("n", "int")], "int", [If([(Bin("<=", V("n"), I(0)), [RetS(V("g"))])]), Asg(V("g"), I(1), "+="), RetS(Bin("+", Call("rec", [Bin("-", V("n"), I(1))], "int"), V("g")))]),
         Mostra(S("corpo a")), ES(Call("soma", [I(1)], None))]
    ia = ["g", "soma", "ver", "rec"]
    n = lambda f, mode=mba: nm("a", mode, f)
    b = [imp("a", mba, ia), Decl("h", "int", Call(n("soma"), [I(2)], "int")), Mostra(S("corpo b")), Mostra(Bin("+", V("h"), V(n("g")))),
         Func("duas", [("n", "int")], "int", [ES(Call(n("ver"), [], None)), Asg(V("h"), Call(n("soma"), [V("n")], "int"), "+="), Mostra(S("em b")), RetS(Bin("+", Call(n("soma"), [V("h")], "int"), V(n("g"))))])]
    us = [imp("a", ma, ia), imp("b", mb, ["h", "duas"])]
    if order:
        us = us[::-1]
    if ma == "alias" and (mb, mba) == ("tudo", "alias"):
        return None         # the alias `a` of b reaches main as well
    # what is visible twice under one name is the same definition; as an item it is a clash
    if ma != "alias" and (mb == "tudo" and mba != "alias"):
        if not (ma == "tudo" and mba == "tudo"):
            return None
    n, q = (lambda f: nm("a", ma, f)), (lambda f: nm("b", mb, f))
    st = [ES(Call(n("soma"), [V("x")], None)), Mostra(Call(q("duas"), [V("x")], "int")), Mostra(V(n("g"))), Mostra(Call(n("rec"), [Bin("%", V("x"), I(3), paren=True)], "int")), ES(Call("meu", [V("x")], None)),
          For("i", I(0), I(2), [Mostra(Call(n("soma"), [Call(q("duas"), [V("i")], "int")], "int"))])]
    m = us + [Decl("x", "int", Read("int")), Decl("y", "int", I(100)),
              Func("meu", [("g2", "int")], None, [Mostra(S("em main")), Asg(V("y"), Call(n("soma"), [V("g2")], "int"), "+="), Mostra(Bin("+", V("y"), Call(q("duas"), [V("y")], "int")))])]
    k = 2 if not THOROUGH else 3
    m += [ctx.choose(st) for _ in range(k)] + [Mostra(S("fim")), Mostra(V("y")), Mostra(V(q("h"))), ES(Call(n("ver"), [], None))]
    return Multi({"a": a, "b": b, "main": m})


def own(ctx):
    """the same names in every module: functions, globals, texts"""
    ed = [ctx.choose(["alias", "um"]) for _ in range(3)]
    mk = lambda t, extra: [Decl("g", "int", I(len(t))), Func("f", [("n", "int")], "int", [Mostra(S("f de " + t)), Asg(V("g"), V("n"), "+=")] + extra + [RetS(Bin("*", V("g"), I(2)))]), Func(f"so_{t}", [("n", "int")], "int", [Mostra(S("so " + t)), RetS(Bin("+", Call("f", [V("n")], "int"), V("g")))])]
    use = lambda m, e: Usa(m, m if e == "alias" else [f"so_{m}"])
    cl = lambda m, e, x: Call(f"{m}.f" if e == "alias" else f"so_{m}", [x], "int")
    c = mk("c", []) + [Mostra(Call("f", [I(1)], "int"))]
    b = [use("c", ed[0])] + mk("b", [Asg(V("g"), cl("c", ed[0], V("n")), "+=")]) + [Mostra(Call("f", [I(1)], "int"))]
    a = [use("b", ed[1]), use("c", "alias")] + mk("a", [Asg(V("g"), cl("b", ed[1], V("n")), "+="), Asg(V("g"), Call("c.f", [V("g")], "int"), "-=")]) + [Mostra(Call("f", [I(1)], "int"))]
    us = [use("a", ed[2]), use("b", "alias"), use("c", "alias")]
    us = [us, us[::-1], [us[1], us[0], us[2]]][ctx.pick(3)]
    m = us + mk("main", [Asg(V("g"), cl("a", ed[2], V("n")), "+=")]) + [Decl("x", "int", Read("int"))]
    st = [Mostra(Call("f", [V("x")], "int")), Mostra(Call("so_main", [V("x")], "int")), Mostra(Call("b.f", [V("x")], "int")), Mostra(Bin("+", V("b.g"), V("g"))), Mostra(Call("c.so_c", [V("x")], "int")), If([(Bin(">", V("x"), I(0)), [Mostra(cl("a", ed[2], I(1)))])], [Mostra(V("c.g"))])]
    k = 2 if not THOROUGH else 3
    m += [ctx.choose(st) for _ in range(k)] + [Mostra(V("g")), Mostra(V("b.g")), Mostra(V("c.g"))]
    return Multi({"c": c, "b": b, "a": a, "main": m})


def types(ctx):
    """records, methods, unions, vectors and optionals of another module"""
    md = ctx.choose(MODES)
    k = ctx.pick(6)
    P = ("reg", nm("a", md, "P"))
    base = [RegDef("P", [("v", "int"), ("s", "texto")]), Decl("k", "int", I(3)),
            Func("m", [("n", "int")], "int", [Asg(Fld(V("alvo", ("reg", "P")), "v", "int"), V("n"), "+="), Asg(V("k"), I(1), "+="), RetS(Bin("*", Fld(V("alvo", ("reg", "P")), "v", "int"), V("k")))], reg="P"),
            Func("mk", [("n", "int")], ("reg", "P"), [RetS(New("P", [("v", V("n")), ("s", S("feito"))]))]),
            Func("tal", [("n", "int")], ("opt", ("reg", "P")), [If([(Bin(">", V("n"), I(0)), [RetS(Call("mk", [V("n")], ("reg", "P")))])]), RetS(NULO)]),
            UniDef("U", [("A", ["int"]), ("B", []), ("C", ["int", "texto"])]),
            Func("mu", [("n", "int")], ("uni", "U"), [If([(Bin(">", V("n"), I(2)), [RetS(Variant("U", "A", [V("n")]))]), (Bin("==", V("n"), I(2)), [RetS(Variant("U", "B"))])]), RetS(Variant("U", "C", [V("n"), S("c")]))]),
            Func("val", [("u", ("uni", "U"))], "int", [RetS(Iguala(V("u", ("uni", "U")), [(PVar("U", "A", [PBind("n")]), V("n")), (PVar("U", "B"), I(0)), (PVar("U", "C", [PBind("n"), PBind("t")]), Bin("-", V("k"), V("n")))], "int"))])]
    items = ["P", "mk", "tal", "k", "U", "mu", "val"]
    N = lambda n: nm("a", md, n)
    U = ("uni", N("U"))
    m = [imp("a", md, items), Decl("x", "int", Read("int"))]
    pv = V("p", P)
    if k == 0:
        m += [Decl("p", P, New(N("P"), [("v", V("x")), ("s", S("aqui"))])), Mostra(MCall(pv, "m", [I(2)], "int", N("P"))), Mostra(Fld(pv, "v", "int")), Asg(Fld(pv, "v", "int"), I(4)), Mostra(MCall(pv, "m", [V("x")], "int", N("P"))), Mostra(V(N("k"))), Mostra(Fld(pv, "s", "texto"))]
    elif k == 1:
        m += [Decl("p", P, Call(N("mk"), [V("x")], P)), Mostra(MCall(Call(N("mk"), [I(1)], P), "m", [V("x")], "int", N("P"))), Mostra(MCall(pv, "m", [I(1)], "int", N("P"))), Asg(Fld(pv, "s", "texto"), S("mudado")), Mostra(Fld(pv, "s", "texto"))]
    elif k == 2:
        o = ("opt", P)
        m += [Decl("o", o, Call(N("tal"), [V("x")], o)), Mostra(Bin("==", V("o", o), NULO)), Decl("p", P, ValorOu(V("o", o), Call(N("mk"), [I(9)], P))), Mostra(MCall(pv, "m", [I(1)], "int", N("P"))), Mostra(Fld(Valor(V("o", o)), "v", "int"))]
    elif k == 3:
        t = ("vec", P)
        m += [Decl("vs", t, VecLit(P, [Call(N("mk"), [V("x")], P), New(N("P"), [("v", I(7)), ("s", S("b"))])])), For("i", I(0), I(2), [Mostra(MCall(Idx(V("vs", t), V("i"), P), "m", [V("i")], "int", N("P")))]), Mostra(Fld(Idx(V("vs", t), I(0), P), "v", "int"))]
    elif k == 4:
        m += [Decl("u", U, Call(N("mu"), [V("x")], U)), Mostra(Call(N("val"), [V("u", U)], "int")), Mostra(Call(N("val"), [Call(N("mu"), [I(4)], U)], "int"))]
        if md != "alias":
            m += [UniDef("W", [("B", []), ("A", ["texto"])]), Decl("w", ("uni", "W"), Variant("W", "A", [S("do w")])),
                  Mostra(Iguala(V("w", ("uni", "W")), [(PVar("W", "B"), S("b")), (PVar("W", "A", [PBind("t")]), V("t", "texto"))], "texto")),
                  Mostra(Iguala(V("u", U), [(PVar("U", "C", [PLit(I(0)), PBind("t")]), V("t", "texto")), (PVar("U", "A", [PBind("_")]), S("A")), (PBind("_"), S("outro"))], "texto")), Mostra(Call(N("val"), [Variant("U", "C", [V("x"), S("z")])], "int"))]
    else:
        # methods added by the importer, and the same record name in a third module
        m = [imp("a", md, items), Usa("b", "b"), Decl("x", "int", Read("int")), Decl("p", P, Call(N("mk"), [V("x")], P)), Decl("q", ("reg", "b.P"), New("b.P", [("v", I(1))])),
             Mostra(MCall(pv, "m", [I(1)], "int", N("P"))), Mostra(MCall(V("q", ("reg", "b.P")), "m", [V("x")], "int", "b.P")), Mostra(MCall(pv, "m", [I(1)], "int", N("P"))), Mostra(MCall(V("x"), "dobro", [], "int", "int"))]
        b = [RegDef("P", [("v", "int")]), Decl("k", "int", I(50)), Func("m", [("n", "int")], "int", [Asg(V("k"), V("n"), "+="), RetS(Bin("-", V("k"), Fld(V("alvo", ("reg", "P")), "v", "int")))], reg="P"),
             Func("dobro", [], "int", [RetS(Bin("+", Bin("*", V("alvo"), I(2)), V("k")))], reg="int")]
        return Multi({"a": base, "b": b, "main": m})
    return Multi({"a": base, "main": m})


def fails(ctx):
    """an error inside a module, at its top level or in a call from another"""
    md = ctx.choose(MODES)
    k = ctx.pick(5)
    risky = lambda e, j: Bin("//", I(60), Bin("-", e, I(j), paren=True))
    a = [Raw("# a"), Decl("g", "int", I(1)), Func("f", [("n", "int")], "int", [Mostra(S("f")), Raw(""), Mostra(risky(V("n"), 1)), RetS(risky(V("n"), 2))]),
         Raw(""), Raw("# mais"), Func("h", [("n", "int")], "int", [Decl("t", "int", Call("f", [Bin("+", V("n"), I(1))], "int")), Mostra(risky(V("n"), 4)), RetS(Bin("+", V("t"), Call("f", [Bin("-", V("n"), I(3))], "int")))]),
         RegDef("P", [("v", "int")]), Func("m", [("n", "int")], "int", [Mostra(risky(V("n"), 6)), RetS(Call("h", [V("n")], "int"))], reg="P")]
    N = lambda n: nm("a", md, n)
    m = [imp("a", md, ["g", "f", "h", "P"]), Decl("x", "int", Read("int"))]
    P = ("reg", N("P"))
    if k == 0:
        m += [Mostra(Call(N("f"), [V("x")], "int")), Raw(""), Mostra(Call(N("h"), [V("x")], "int")), Mostra(risky(V("x"), 7))]
    elif k == 1:
        m += [Func("w", [("n", "int")], "int", [Mostra(I(0)), RetS(Bin("+", Call(N("h"), [V("n")], "int"), risky(V("n"), 8)))]), Raw(""), For("i", I(0), I(3), [Mostra(Call("w", [Bin("+", V("x"), V("i"))], "int"))])]
    elif k == 2:
        m += [Decl("p", P, New(N("P"), [("v", I(1))])), Mostra(MCall(V("p", P), "m", [V("x")], "int", N("P"))), Raw(""), Mostra(risky(V("x"), 5))]
    elif k == 3:
        # top level of the module
        a += [Raw(""), Decl("x0", "int", Read("int")), Mostra(risky(V("x0"), 3)), Mostra(Call("h", [V("x0")], "int")), Raw("")]
        m = [imp("a", md, ["g", "f", "h", "P"]), Raw(""), Mostra(Call(N("f"), [I(3)], "int"))]
    else:
        b = [Raw("# b"), Raw(""), imp("a", md, ["g", "f", "h", "P"]), Func("f2", [("n", "int")], "int", [Mostra(risky(V("n"), 5)), RetS(Call(N("h"), [V("n")], "int"))]), Raw(""), Decl("y0", "int", Read("int")), Mostra(Call("f2", [V("y0")], "int"))]
        m = [Usa("b", "b"), Decl("x", "int", Read("int")), Raw(""), Mostra(Call("b.f2", [V("x")], "int")), Mostra(risky(V("x"), 9))]
        return Multi({"a": a, "b": b, "main": m})
    return Multi({"a": a, "main": m})


def natives(ctx):
    """the native module, in every mode, from main and from a module"""
    m1, m2 = ctx.choose(MODES), ctx.choose(MODES)
    u = lambda m: Usa("mat", None if m == "tudo" else "mat" if m == "alias" else ["abs"])
    f = lambda m, e: Nat(nm("mat", m, "abs"), [e], "real")
    a = [u(m1), Func("f", [("n", "int")], "real", [RetS(f(m1, V("n")))]), Mostra(f(m1, I(-3)))]
    m = [u(m2), Usa("a", "a")]
    m = (m if ctx.pick(2) else m[::-1]) + [Decl("x", "int", Read("int")), Mostra(f(m2, V("x"))), Mostra(Call("a.f", [V("x")], "real")), ES(Nat("a.escrevaln", [S("oi")], None))]
    return Multi({"a": a, "main": m})


def main():
    acc = lambda g: (g, {"sym": True, "stage": "compile"})
    L = {"check_lines": True, "lo": -3, "hi": 10}
    fams = {"graph": acc(graph), "uses": acc(uses), "clash": acc(clash), "again": acc(again), "distinct": acc(distinct), "values": acc(values), "missing": acc(missing),
            "natives": natives, "state": state, "own": own, "types": (types, {"lo": -3, "hi": 6}), "fails": (fails, L)}
    return tv_check("C17", fams,
                    ["import graphs over main and 3 modules with up to 5 (thorough: 7) usa lines, each of which may name any of the modules, an empty one or main; in the three importing modes and mixed",
                     "names: every choice of the imported, aliased, declared and used names from the stated lists, for two modules and main, in every pair of modes; modules reached twice",
                     "programs of 2 to 4 modules: state, calls across modules, records/methods/unions/optionals/vectors of other modules, run-time errors in modules and their lines; input -20..20 (fails: -3..10)"],
                    ["importing the same item twice under the same name is left open; names visible only through what an imported module itself imports are left open",
                     "module search outside of the current directory and std is outside the bounds"], level="other")
