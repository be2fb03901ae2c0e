"""C04 the front end never crashes: a program compiles or gets a diagnostic

Token sequences with symbolic tokens (the whole token alphabet) are put into every
syntactic context; the real parser, checker and code generator run on them."""
from framework import tv_check, THOROUGH

KW = ["mostra", "e", "ou", "nao", "verdadeiro", "falso", "caso", "retorna", "produz", "se", "senao", "senaose", "escolha", "entao", "enquanto", "para", "faca", "de",
      "continua", "quebra", "usa", "como", "alvo", "registo", "iguala", "inc", "fim", "func", "met", "nulo", "vazio", "nativa", "uniao", "classe"]
OPS = ["+", "-", "*", "/", "//", "%", "+=", "-=", "*=", "/=", "<", ">", "<=", ">=", "!=", "=", "=="]
DEL = ["(", ")", ".", "..", ";", ",", "{", "}", "[", "]", "@", "@@", ":", "?", "::", ":>", "=>", "\n"]
LIT = ["1", "2.5", '"a"', '"{b}"', "'{'", 'f"{x}"', 'f""', "99999999999999999999"]
ID = ["x", "p", "P", "u", "U", "v", "f", "g", "o", "int", "N", "Z", "a", "m", "vec", "tam", "anexa", "remova", "escrevaln", "valor", "valor_ou", "Opcao", "_", "novo", "vi", "texto", "k", "I"]
ALL = KW + OPS + DEL + LIT + ID
SMALL = ["mostra", "fim", "retorna", "se", "faca", "alvo", "nulo", "-", "=", "==", "(", ")", ".", ",", "[", "]", ":", "?", "::", ":>", "=>", "\n", "1", '"a"', "x", "p", "P", "u", "U", "v", "f", "g", "o", "int", "N", "vec", "_", "novo"]
EXPR = ["1", "2.5", '"a"', "nulo", "verdadeiro", 'f"{x}"', "x", "p", "P", "u", "U", "v", "f", "g", "o", "int", "vec", "tam", "alvo", "_", "novo", "escrevaln", "k", "vi", "I"]

PRE = """x: int = 1
k: real = 1.5
registo P
 a: int
 b: real
fim
uniao U
 N(int, texto),
 Z
fim
p: P = P(a: 1, b: 2.0)
u: U = U::Z
v: [int] = [int: 1, 2]
vi: [[int]] = [[int]: v]
o: int? = 3
I: indef = 1
func g()
 mostra 1
fim
func f(a: int): int
 retorna a
fim
met P::m(alvo, a: int): int
 retorna a
fim
"""

# contexts: text with _ for the holes
HEAD = [
    "{h}\n", "mostra {h}\n", "x {h}\n", "x = {h}\n", "x += {h}\n", "p . {h}\n", "p.a = {h}\n", "v [ {h}\n", "v[0] = {h}\n", "o . {h}\n", "u {h}\n",
    "f ( {h} )\n", "P ( {h} )\n", "P(a: {h}, b: 1)\n", "U :: {h}\n", "U::N({h})\n", "novo {h}\n", "novo : {h}\n", "novo: {h} = 1\n", "novo: int = {h}\n", "novo: [{h}] = v\n", "novo: int? = {h}\n",
    "p . m ( {h} )\n", "novo, x2 {h}\n", "mostra x {h}\n", "mostra ( {h} )\n", "mostra - {h}\n", "mostra x :> {h}\n", "mostra 1 + {h}\n", "mostra p == {h}\n", "mostra nao {h}\n", "mostra [ {h} ]\n", "mostra [int: {h} ]\n",
    "mostra f\"a{{{h}}}\"\n", "mostra vec ( {h} )\n", "mostra vec( {h}, 2)\n", "mostra vec(int, {h} )\n", "anexa ( {h} )\n", "anexa(v, {h} )\n", "mostra tam ( {h} )\n", "mostra remova( {h} )\n", "mostra remova(v, {h} )\n", "escrevaln( {h} )\n", "mostra o.valor_ou( {h} )\n",
    "mostra txt_contem( {h} )\n", "mostra leia( {h} )\n", "novo: int = 1 + {h}\n", "mostra f(p.{h})\n", "mostra f(U::{h})\n", "P(a: 1).{h}\n", "f(1).{h}\n", "vi[0][{h}]\n", "v[x].{h}\n", "U::Z.{h}\n", "mostra -f({h})\n", "mostra (x).{h}\n", "usa \"{h}\"\n",
]
BLOCK = [
    "se {h} entao\n mostra 1\nfim\n", "se verdadeiro entao\n {h}\nfim\n", "se verdadeiro {h}\nfim\n", "se falso entao\nmostra 1\nsenaose {h} entao\nmostra 2\nsenao\n mostra 3\nfim\n", "se falso entao\nmostra 1\nsenao {h}\nfim\n",
    "enquanto {h} faca\n quebra\nfim\n", "enquanto falso faca\n {h}\nfim\n", "para {h} faca\n mostra 1\nfim\n", "para i de {h} faca\n mostra i\nfim\n", "para i de 0..{h} faca\n mostra i\nfim\n", "para i de 0..2 {h} faca\n mostra i\nfim\n", "para i de 0..2 inc {h} faca\n mostra i\nfim\n",
    "para i de 0..2 faca\n {h}\nfim\n",
    "escolha {h}:\n caso 1:\n mostra 1\nfim\n", "escolha x:\n caso {h}:\n mostra 1\nfim\n", "escolha x:\n {h}\nfim\n", "escolha x:\n caso 1:\n {h}\n senao:\n mostra 2\nfim\n", "escolha x:\n caso 1: mostra 2\n senao {h}\nfim\n",
    "func h({h})\n mostra 1\nfim\n", "func h {h}\n mostra 1\nfim\n", "func h(n: {h}): int\n retorna 1\nfim\n", "func h(): {h}\n retorna 1\nfim\n", "func h(): int\n retorna {h}\nfim\n", "func h(): int\n {h}\nfim\n", "func h()\n novo: int = 1 + {h}\nfim\n", "func h(n: int?)\n mostra n {h}\nfim\n", "func h()\n a: int = 1\n {h}\n mostra a\nfim\n", "func h()\n para i de 0..2 faca\n {h} \nfim\n retorna\nfim\n", "func h()\n {h}\nfim\n", "func {h}\nfim\n", "func h(n: int, {h})\nfim\n",
    "func h(): int\n se {h} entao\n retorna 1\n senao\n retorna 2\n fim\nfim\n",
    "met P::q({h})\n mostra 1\nfim\n", "met {h}(alvo)\nfim\n", "met P::q(alvo): {h}\n retorna 1\nfim\n", "met P::q(alvo): int\n retorna alvo {h}\nfim\n", "met P::q(alvo)\n alvo {h}\nfim\n", "met P::q(alvo)\n {h}\nfim\n", "met {h}\nfim\n", "met P::{h}\nfim\n", "met int::q(alvo): int\n retorna alvo {h}\nfim\n",
    "met U::q(alvo): int\n retorna iguala alvo\n {h}\n fim\nfim\n",
    "registo Q\n {h}\nfim\n", "registo {h}\nfim\n", "registo Q\n n: {h}\nfim\n", "registo Q\n n, {h}\nfim\n", "uniao Y\n {h}\nfim\n", "uniao {h}\nfim\n", "uniao Y\n W({h}),\n T\nfim\n", "uniao Y\n W {h}\nfim\n",
    "iguala {h}\n U::Z => 1\n _ => 2\nfim\n", "iguala u\n {h}\nfim\n", "iguala u\n {h} => 1\n _ => 2\nfim\n", "iguala u\n U::N({h}) => 1\n _ => 2\nfim\n", "iguala u\n U::Z => {h}\n _ => 2\nfim\n", "iguala u\n U::Z => faca\n {h}\n fim\n _ => 2\nfim\n",
    "r: int = iguala x\n {h} => 1\n _ => 2\nfim\n", "r: int = iguala x\n 1 => {h}\n _ => 2\nfim\n", "se iguala u => {h} entao\n mostra 1\nfim\n", "se iguala {h} => U::Z entao\n mostra 1\nfim\n", "se iguala u => U::N(a1, b1) entao\n {h}\nsenao\n {h2}\nfim\n", "iguala o\n {h} => 1\n _ => 2\nfim\n",
    "usa {h}\n", "usa \"a\" => {h}\n", "usa \"a\" {h}\n", "@@{h}\nfunc h() fim\n", "@{h}\nfunc h() fim\n", "@embutido({h})\nfunc h() fim\n",
]


def seq(ctx, n, first=0):
    return " ".join(f"hole{first + j}__" for j in range(n))


def family(contexts, n, alpha, tail=True):
    def gen(ctx):
        c = ctx.choose(contexts)
        text = c
        k = n
        if "{h2}" in text:
            text = text.replace("{h2}", "mostra 1")
        text = text.replace("{h}", seq(ctx, k)).replace("{{", "{").replace("}}", "}")
        if tail and ctx.pick(2):        # the text ends right after the holes
            i = text.rindex("hole") + len("hole0__")
            text = text[:i]
        return PRE + text, [alpha] * k
    return gen


def starts(ctx):
    """the very beginning of a file"""
    t = ctx.choose(["{h}", "{h}\n", "\n{h}\n", "#c\n{h}\n", "usa {h}\n", "@@{h}", "x: {h}\n"])
    return t.replace("{h}", seq(ctx, 2)), [ALL, ALL]


def main():
    T = {"total": True}
    f = {"expr1": (family(HEAD, 1, ALL), T), "block1": (family(BLOCK, 1, ALL), T), "expr2": (family(HEAD, 2, ALL if THOROUGH else SMALL, THOROUGH), T),
         "block2": (family(BLOCK, 2, ALL if THOROUGH else SMALL, THOROUGH), T), "starts": (starts, T)}
    if THOROUGH:
        f["expr3"] = (family(HEAD, 3, SMALL, False), T)
        f["block3"] = (family(BLOCK, 3, SMALL, False), T)
    return tv_check("C04", f, [
        f"{len(HEAD)} expression/statement and {len(BLOCK)} block contexts, over a prelude that declares one thing of each kind",
        f"1 token out of all {len(ALL)} (keywords, operators, delimiters, literals, identifiers of every kind) with and without the rest of the context, 2 tokens out of {len(ALL) if THOROUGH else len(SMALL)}" + (f", 3 tokens out of {len(SMALL)}" if THOROUGH else ""),
        "each run ends within 20 s; a diagnostic must be printable by the command line"], level="other", budget=100 if not THOROUGH else 1500)
