"""C05 operators are accepted exactly for the documented operand types

Operands of every type and every operator as symbolic tokens through the real parser
and checker; the verdict must be the typing table's for all of them. Result types are
observed by declaring a variable of a symbolic type with the expression."""
from framework import tv_check, THOROUGH
from tenv import *

BIN = list(ARITH) + list(CMP) + ["==", "!=", "e", "ou"]
SIMPLE = ["int", "real", "bool", "texto", "P", "U", "indef"]
WRAP = ["{s}\n", "func z1()\n {s}\nfim\n", "se b entao\n {s}\nfim\n"]
# operands that are not one token: text, type
LITS = ["1", "2.5", '"s"', "verdadeiro"]
FEW = ["i", "r", "b", "t", "p", "u", "vi", "oi", "n", "nulo"]
FORMS = [("f9(1)", "int"), ("f8(1)", "real"), ("p.a", "int"), ("vi[0]", "int"), ("vv[0]", "[int]"), ("t[0]", "texto"), ("(r)", "real"), ("-i", "int"), ("nao b", "bool"), ("oi.valor", "int"), ("zr.valor_ou(1)", "real"), ("i :> texto", "texto"), ('f"{i}"', "texto"), ("g()", "vazio"), ("P(a: 1)", "P"), ("U::A", "U"), ("[int: 1]", "[int]"), ("vec(int, 2)", "[int]"), ("tam(vi)", "int"), ("p.m(2)", "bool")]
MORE = VOID + "func f9(a: int): int\n retorna a\nfim\nfunc f8(a: int): real\n retorna a\nfim\nmet P::m(alvo, a: int): bool\n retorna verdadeiro\nfim\n"


def body(ctx, s, pred, alts, pre="", wrap=WRAP[:1]):
    w = ctx.choose(wrap)
    for k in range(len(alts)):
        s = s.replace("{h}", f"hole{k}__", 1)
    return PRE + pre + w.replace("{s}", s), alts, pred, s


def contexts(ctx):
    return body(ctx, "mostra {h} {h} {h}", lambda c: spec(binop(TY[c[0]], c[1], TY[c[2]])), [["i", "b", "p", "oi"] + LITS, BIN, LITS], wrap=WRAP[1:])


def spec(x):
    return None if x == "?" else bool(x)


def binary(ctx):
    return body(ctx, "mostra {h} {h} {h}", lambda c: spec(binop(TY[c[0]], c[1], TY[c[2]])), [VARS + ["nulo"], BIN, VARS + ["nulo"]])


def result(ctx):
    def pred(c):
        t = binop(TY[c[1]], c[2], TY[c[3]])
        return None if t == "?" else t is not None and compat(c[0], t)
    few = ["i", "r", "b", "t", "oi", "nulo"]
    return body(ctx, "novo: {h} = {h} {h} {h}", pred, [SIMPLE, few, BIN, few])


def unary(ctx):
    if ctx.pick(2):
        return body(ctx, "mostra {h} {h}", lambda c: spec(unop(c[0], TY[c[1]])), [["+", "-", "nao"], VALS])
    def pred(c):
        t = unop(c[1], TY[c[2]])
        return t is not None and compat(c[0], t)
    return body(ctx, "novo: {h} = {h} {h}", pred, [SIMPLE, ["+", "-", "nao"], VALS])


def forms(ctx):
    """operands that are calls, fields, elements, conversions, ..."""
    e, t = ctx.choose(FORMS)
    k = ctx.pick(3)
    if k == 0:
        return body(ctx, f"mostra ({e}) {{h}} {{h}}", lambda c: spec(binop(t, c[0], TY[c[1]])), [BIN, FEW], MORE)
    if k == 1:
        return body(ctx, f"mostra {{h}} {{h}} ({e})", lambda c: spec(binop(TY[c[0]], c[1], t)), [FEW, BIN], MORE)
    return body(ctx, f"mostra {{h}} ({e})", lambda c: spec(unop(c[0], t)), [["+", "-", "nao"]], MORE)


def nested(ctx):
    """three operands: the type of the inner result decides"""
    few = ["i", "r", "b", "t"] if not THOROUGH else ["i", "r", "b", "t", "oi"]
    ops = ["+", "/", "//", "<", "==", "e"]
    left = ctx.pick(2)

    def pred(c):
        l, o1, m, o2, r = c
        t = binop(TY[l], o1, TY[m]) if left else binop(TY[m], o2, TY[r])
        if t == "?" or t is None:
            return None if t == "?" else False
        return spec(binop(t, o2, TY[r]) if left else binop(TY[l], o1, t))
    return body(ctx, "mostra ({h} {h} {h}) {h} {h}" if left else "mostra {h} {h} ({h} {h} {h})", pred, [few, ops, few, ops, few])


def compound(ctx):
    """x op= e means x = x op e"""
    def pred(c):
        t = binop(TY[c[0]], c[1][0], TY[c[2]])
        return None if t == "?" else t is not None and compat(TY[c[0]], t)
    return body(ctx, "{h} {h} {h}", pred, [[v for v in VARS], ["+=", "-=", "*=", "/="], VALS])


def main():
    S = {"sym": True, "stage": "check"}
    f = {"binary": (binary, S), "result": (result, S), "unary": (unary, S), "contexts": (contexts, S), "forms": (forms, S), "nested": (nested, S), "compound": (compound, S)}
    return tv_check("C05", f, [f"operands: one token of each of {len(set(TY.values()))} types, {len(FORMS)} other expression forms, one nesting; all {len(BIN)} binary and 3 prefix operators; result observed through a declaration of each simple type",
                               "not specified and left free: equality on indef, vectors and unions, and between an optional and something that is neither nulo nor of the same type"], level="other", budget=75 if not THOROUGH else 600)
