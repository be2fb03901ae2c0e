"""C03 tokens and compile-time errors carry the right source line

Tokens: the real lexer on symbolic characters (see lexcheck.py). Errors: statements
with symbolic tokens inside every construct, after blank lines, comments and texts
that span lines; a diagnostic must name the line of the symbolic tokens."""
import sys, os, re
sys.path.insert(0, os.path.dirname(__file__))
import lexcheck, sx, symtok
from framework import THOROUGH, RawH
from C04 import PRE, EXPR

PAD = ["", "\n\n", "# c\n", 't0: texto = "a\nb\n"\n', "func pad0(a: int): int\n\n retorna a\nfim\n", 'mostra f"{x}\n{p.a}"\n', "se verdadeiro entao\nfim\n"]
# one line with holes; the error, if any, is about that line
STMT = ["mostra {h} + {h}", "x = {h}", "novo: int = {h}", "novo: {h} = 1", "p.a = {h}", "v[0] = {h}", "f({h})", "p.m({h})", "P(a: {h}, b: 1)", "U::N({h}, \"a\")", "mostra -{h}", "mostra f\"a{{{h}}}\"", "mostra {h} :> int",
        "mostra [int: {h}]", "anexa(v, {h})", "mostra {h}[0]", "mostra {h}.a", "x += {h}", "mostra o.valor_ou({h})", "mostra vec(int, {h})", "mostra {h}.m(1)", "mostra f\"{{x}} {{{h} + 1}}\"", "mostra nao {h}", "mostra {h}({h})", "mostra {h} == {h}"]
WRAP = ["{s}\n", "se verdadeiro entao\n mostra 1\n{s}\nfim\n", "func h1(): int\n mostra 1\n{s}\n\n retorna 1\nfim\n", "enquanto falso faca\n{s}\nfim\n", "para i de 0..2 faca\n mostra i\n{s}\nfim\n",
        "escolha x:\n caso 1:\n mostra 1\n senao:\n{s}\nfim\n", "met P::q(alvo)\n{s}\nfim\n", "r0: int = iguala u\n U::Z => 1\n U::N(a1, b1) => faca\n mostra a1\n{s}\n produz 2\n fim\nfim\n", "se falso entao\n mostra 1\nsenaose x == 1 entao\n{s}\nsenao\n mostra 2\nfim\n"]
HEADS = ["se {h} entao\n mostra 1\nfim\n", "se falso entao\n mostra 1\nsenaose {h} entao\n mostra 2\nfim\n", "enquanto {h} faca\n quebra\nfim\n", "para i de 0..{h} faca\n mostra i\nfim\n", "para i de {h}..2 faca\n mostra i\nfim\n", "escolha {h}:\n caso 1:\n mostra 1\nfim\n",
         "escolha x:\n caso 0:\n mostra 1\n caso {h}:\n mostra 1\nfim\n", "func h1(n: {h}): int\n retorna 1\nfim\n", "func h1(): int\n mostra 1\n retorna {h}\nfim\n", "func h1(): {h}\n mostra 2\nfim\n", "func h1()\n mostra 1\n retorna {h}\nfim\n", "registo Q\n a: int\n b: {h}\nfim\n", "uniao Y\n W({h}),\n T\nfim\n",
         "met {h}::q(alvo)\n mostra 1\nfim\n", "r0: int = iguala {h}\n 1 => 1\n _ => 2\nfim\n", "r0: int = iguala x\n 1 => 1\n {h} => 3\n _ => 2\nfim\n", "mostra iguala u\n U::{h} => 2\n _ => 1\nfim\n",
         "usa {h}\n"]


def gen_stmt(ctx):
    s, w = ctx.pick(len(STMT)), ctx.pick(len(WRAP))
    two = STMT[s].count("{h}") > 1
    return WRAP[w].replace("{s}", STMT[s]), PAD if THOROUGH else [PAD[(s + w) % len(PAD)]] if not two or w == s % len(WRAP) else []


def gen_head(ctx):
    return ctx.choose(HEADS), PAD


def harness(gen, alpha):
    def h(ctx):
        body, pads = gen(ctx)
        if not pads:
            raise sx.PathEnd()
        pad = ctx.choose(pads)
        if body.startswith("usa "):
            body = pad.replace("f\"{x}\n{p.a}\"", '"\n"') + body
        else:
            body = PRE + pad + body
        n = body.count("{h}")
        for k in range(n):
            body = body.replace("{h}", f"hole{k}__", 1)
        body = body.replace("{{", "{").replace("}}", "}") if "f\"" in body else body
        t = symtok.Template(ctx, body + "mostra 7\n", [alpha] * n)
        res = t.run("check", diag=False)
        cnt = {"claims": 1, res[0]: 1}
        line = body[:body.index("hole0__")].count("\n") + 1
        # a target that does not go with an alternative: either may be named
        last = body.count("\n") if re.search("(escolha|iguala) hole0__", body) else line
        m = ctx.holds(res[0] != "reject" or line <= res[2] <= last)
        key = hash((body, tuple(tuple(sorted(c.alive)) for c in t.choices)))
        if m is None:
            ctx.model()
            return {"viol": [], "cnt": cnt, "key": key, "sample": {"template": body, "alternatives": [[c.alts[i] for i in sorted(c.alive)] for c in t.choices], "verdict": list(res[:3]) if res[0] == "reject" else res[0]}}
        src = t.source(t.pick_of(m))
        c = symtok.front_end(src)
        d = {"src": src, "stdin": ""}
        if c[0] == "reject" and c[2] == res[2]:
            d["what"] = f"the error of line {line} is reported on line {c[2]}: {c[1]}"
            d["sig"] = re.sub(r"\d+|'[^']*'", "N", d["what"])[:100]
        else:
            d["what"], d["unreproduced"] = f"symbolic run {res} does not reproduce: {c}", True
        return {"viol": [d], "cnt": cnt, "key": key}
    return h


def main():
    f = {"statement": RawH(harness(gen_stmt, EXPR)), "construct": RawH(harness(gen_head, EXPR + ['"a{b}"', "2.5"]))}
    return lexcheck.main("C03", f, [f"{len(STMT)} statements in {len(WRAP)} constructs and {len(HEADS)} construct headers, {len(EXPR)} alternatives for each of 1-2 symbolic tokens, after {len(PAD)} kinds of preceding text"])
