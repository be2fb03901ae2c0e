"""A prelude that declares one variable of every kind of type, and the language's
typing rules (the specification of C05, C06, C22, C23)."""

ENV = [("i", "int"), ("r", "real"), ("b", "bool"), ("t", "texto"), ("p", "P"), ("q", "Q"), ("u", "U"), ("w", "W"), ("vi", "[int]"), ("vr", "[real]"), ("vv", "[[int]]"), ("vp", "[P]"),
       ("oi", "int?"), ("zr", "real?"), ("ot", "texto?"), ("op", "P?"), ("ov", "[int]?"), ("n", "indef"), ("nulo", "nulo"), ("1", "int"), ("2.5", "real"), ('"s"', "texto"), ("verdadeiro", "bool")]
TY = dict(ENV)
VALS = [n for n, _ in ENV]
VARS = [n for n in VALS if n[0].isalpha() and n not in ("nulo", "verdadeiro")]
INIT = {"int": "1", "real": "1.5", "bool": "falso", "texto": '"a"', "P": "P(a: 1)", "Q": "Q(a: 1)", "U": "U::A", "W": "W::A", "[int]": "[int: 1, 2]", "[real]": "[real: 1.5]", "[[int]]": "[[int]: [int: 1]]",
        "[P]": "[P: P(a: 1)]", "int?": "1", "real?": "1.5", "texto?": '"a"', "P?": "P(a: 1)", "[int]?": "[int: 1]", "indef": "1"}
TYPES = list(INIT)
ID = {t: f"k{j}" for j, t in enumerate(TYPES)}      # a name per type
DECLS = "registo P\n a: int\nfim\nregisto Q\n a: int\nfim\nuniao U\n A,\n B(int)\nfim\nuniao W\n A,\n B(int)\nfim\n"
PRE = DECLS + "".join(f"{n}: {TY[n]} = {INIT[TY[n]]}\n" for n in VARS)
VOID = "func g()\n mostra 1\nfim\n"
NUM = ("int", "real")
CMP = (">", "<", ">=", "<=")
ARITH = ("+", "-", "*", "/", "//", "%")


def opt(t):
    return t.endswith("?")


def compat(exp, got):
    """is a value of type got accepted where exp is expected"""
    if got == "vazio":
        return False
    if exp == got:
        return True
    if exp == "real":
        return got == "int"
    if exp == "indef":
        return got not in ("nulo", "vazio")
    if opt(exp):
        return got == "nulo" or not opt(got) and compat(exp[:-1], got)
    return False


def binop(l, op, r):
    """result type; None: rejected; "?": not specified"""
    if op in ARITH:
        if l in NUM and r in NUM:
            return "real" if op == "/" or "real" in (l, r) else "int"
        return None
    if op in CMP:
        return "bool" if l in NUM and r in NUM else None
    if op in ("e", "ou"):
        return "bool" if l == r == "bool" else None
    # == and !=
    if l in NUM and r in NUM:
        return "bool"
    if "indef" in (l, r):
        return "?"
    if opt(l):
        return "bool" if r == "nulo" or r == l else "?"
    if opt(r):
        return "?" if l in ("nulo", "P", "Q") else None
    if l == r:
        return "bool" if l in ("bool", "texto", "nulo", "P", "Q") else "?"
    if {l, r} == {"P", "Q"}:
        return "?"
    return None


def unop(op, t):
    if op == "nao":
        return "bool" if t == "bool" else None
    return t if t in NUM else None


def cast(src, to):
    """is src :> to accepted"""
    prim = ("int", "real", "bool", "texto", "indef")
    if opt(to):
        return src == "nulo" or src in prim and cast(src, to[:-1])
    if to == "nulo" or src not in prim or to not in prim:
        return False
    return src != "bool" or to in ("bool", "texto", "indef")
