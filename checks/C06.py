"""C06 a value is accepted only where its type is compatible

For every position that takes a value, the expected type and the value are symbolic
tokens; the checker must accept exactly the compatible pairs."""
from framework import tv_check, THOROUGH
from tenv import *

SIMPLE = ["int", "real", "bool", "texto", "P", "Q", "U", "W", "indef"]
COMP = [t for t in TYPES if t not in SIMPLE]
FN = "".join(f"func f{ID[t]}(a: {t})\n mostra 1\nfim\n" for t in TYPES)
FN2 = "".join(f"func f{ID[t]}(b1: int, a: {t}): int\n retorna 1\nfim\n" for t in TYPES)
MET = "".join(f"met P::f{ID[t]}(alvo, a: {t})\n mostra 1\nfim\n" for t in TYPES)
REG = "".join(f"registo R{ID[t]}\n a: {t}\n z: int\nfim\nz{ID[t]}: R{ID[t]} = R{ID[t]}(a: {INIT[t]}, z: 1)\n" for t in TYPES)
UNI = "uniao Y\n" + ",\n".join(f" N{ID[t]}(int, {t})" for t in TYPES) + "\nfim\n"
VEC = "".join(f"y{ID[t]}: [{t}] = [{t}: {INIT[t]}]\n" for t in TYPES if not t.endswith("?") or True)
BYID = {ID[t]: t for t in TYPES}
EXPRS = [("g()", "vazio"), ("i + 1", "int"), ("i + r", "real"), ("i // 2", "int"), ("i / 2", "real"), ("i == 1", "bool"), ("p.a", "int"), ("vi[0]", "int"), ("vv[0]", "[int]"), ("vp[0]", "P"), ("oi.valor", "int"), ("op.valor", "P"), ("U::B(1)", "U"),
         ("P(a: 2)", "P"), ("[real: 1]", "[real]"), ("vec(int, 2)", "[int]"), ("vec(int, 2, 2)", "[[int]]"), ("r :> int", "int"), ('f"{i}"', "texto"), ("t[0]", "texto"), ("tam(vi)", "int"), ("remova(vr, 0)", "real"), ("-r", "real"), ("nao b", "bool"), ("n :> bool", "bool"),
         ("iguala i\n 1 => 1\n _ => 2\nfim", "int"), ("(p)", "P"), ("zr.valor_ou(1)", "real")]


def fill(s, alts):
    for k in range(len(alts)):
        s = s.replace("{h}", f"hole{k}__", 1)
    return s


def ids(pre):
    return [pre + ID[t] for t in TYPES]


def at(x):
    return BYID[x[1:]]


# name -> (prelude, statement, alternatives of the holes, expected type of the choice, index of the value hole)
POS = {
    "decl": ("", "novo: {h} = {h}", [SIMPLE, VALS], lambda c: c[0]),
    "assign": ("", "{h} = {h}", [VARS, VALS], lambda c: TY[c[0]]),
    "arg": (FN, "{h}({h})", [ids("f"), VALS], lambda c: at(c[0])),
    "arg2": (FN2, "mostra {h}(1, {h})", [ids("f"), VALS], lambda c: at(c[0])),
    "metarg": (MET, "p.{h}({h})", [ids("f"), VALS], lambda c: at(c[0])),
    "init": (REG, "mostra {h}(a: {h}, z: 1) == p", [ids("R"), VALS], lambda c: at(c[0])),
    "init2": (REG, "mostra {h}(z: 1, a: {h}) == p", [ids("R"), VALS], lambda c: at(c[0])),
    "field": (REG, "{h}.a = {h}", [ids("z"), VALS], lambda c: at(c[0])),
    "element": (VEC, "{h}[0] = {h}", [ids("y"), VALS], lambda c: at(c[0])),
    "append": (VEC, "anexa({h}, {h})", [ids("y"), VALS], lambda c: at(c[0])),
    "list": ("", "mostra tam([{h}: {h}])", [SIMPLE, VALS], lambda c: c[0]),
    "variant": (UNI, "ya: Y = Y::{h}(1, {h})", [ids("N"), VALS], lambda c: at(c[0])),
    "default": ("", "mostra {h}.valor_ou({h})", [["oi", "zr", "ot", "op", "ov"], VALS], lambda c: TY[c[0]][:-1]),
    "vecfield": (REG, "vec(int, 1)[0] = {h}", [VALS], lambda c: "int"),
}
INTPOS = ["para k1 de {h}..2 faca\n mostra k1\nfim", "para k1 de 0..{h} faca\n mostra k1\nfim", "para k1 de 0..2 inc {h} faca\n mostra k1\nfim", "mostra vi[{h}]", "mostra t[{h}]", "vi[{h}] = 1", "mostra vec(int, {h})", "mostra vec(int, 1, {h})", "mostra remova(vi, {h})", "mostra vv[0][{h}]"]
BOOLPOS = ["se {h} entao\n mostra 1\nfim", "enquanto {h} faca\n quebra\nfim", "se b entao\n mostra 1\nsenaose {h} entao\n mostra 2\nfim"]


def positions(ctx):
    pre, s, alts, exp = POS[ctx.choose(list(POS))]
    return PRE + pre + fill(s, alts) + "\n", alts, lambda c: compat(exp(c), TY[c[-1]]), s


def composite(ctx):
    """expected types that take several tokens"""
    t = ctx.choose(COMP)
    s = ctx.choose(["novo: {t} = {h}\n", "func h1(): {t}\n retorna {h}\nfim\n", "mostra tam([{t}: {h}])\n", "func h1(): {t}\n se b entao\n  retorna {h}\n fim\n retorna {i}\nfim\n"])
    return PRE + fill(s.replace("{t}", t).replace("{i}", INIT[t]), [VALS]), [VALS], lambda c: compat(t, TY[c[0]]), s


def returns(ctx):
    s = ctx.choose(["func h1(): {h}\n retorna {h}\nfim\n", "met P::h1(alvo): {h}\n retorna {h}\nfim\n", "func h1(): {h}\n enquanto b faca\n  retorna {h}\n fim\n retorna nulo1()\nfim\n"])
    if "nulo1" in s:
        t = ctx.choose(TYPES)
        s = s.replace(": {h}\n", f": {t}\n", 1).replace("nulo1()", INIT[t])
        return PRE + fill(s, [VALS]), [VALS], lambda c: compat(t, TY[c[0]]), s
    return PRE + fill(s, [SIMPLE, VALS]), [SIMPLE, VALS], lambda c: compat(c[0], TY[c[1]]), s


def others(ctx):
    """conditions must be bool; bounds, indexes and sizes must be int"""
    if ctx.pick(2):
        s, t = ctx.choose(INTPOS), "int"
    else:
        s, t = ctx.choose(BOOLPOS), "bool"
    return PRE + fill(s, [VALS]) + "\n", [VALS], lambda c: TY[c[0]] == t, s


def exprs(ctx):
    """values of other forms at every position"""
    e, t = ctx.choose(EXPRS)
    pre, s, alts, exp = POS[ctx.choose(list(POS))]
    k = s.rindex("{h}")
    s = s[:k] + e + s[k + 3:]
    if not alts[:-1]:
        return PRE + VOID + pre + s + "\nmostra hole0__\n", [["i", "r"]], lambda c: compat("int", t), s
    return PRE + VOID + pre + fill(s, alts[:-1]) + "\n", alts[:-1], lambda c: compat(exp(c), t), s


def iguala_arms(ctx):
    """the arms of an iguala have one type; the match has it"""
    s = "novo: {h} = iguala i\n 1 => {h}\n _ => {h}\nfim\n"
    few = ["i", "r", "b", "t", "p", "u", "oi", "1", "nulo"]
    A = [["int", "real", "texto", "indef"], few, few]
    return PRE + fill(s, A), A, lambda c: TY[c[1]] == TY[c[2]] and compat(c[0], TY[c[1]]), s


def main():
    S = {"sym": True, "stage": "check"}
    f = {n: (g, S) for n, g in dict(positions=positions, composite=composite, returns=returns, others=others, exprs=exprs, iguala=iguala_arms).items()}
    return tv_check("C06", f, [f"{len(POS)} value positions, returns, {len(INTPOS)} int and {len(BOOLPOS)} condition positions; {len(TYPES)} expected types; values: one token of each type, nulo, and {len(EXPRS)} other expression forms"], level="other", budget=80 if not THOROUGH else 600)
