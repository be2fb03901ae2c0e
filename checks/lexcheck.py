"""C02/C03: one exploration, two claims (what the tokens are / which lines they name)."""
import z3
import sx, symchar, reflex, pipe, symtok
from symchar import SymNum, SymStr, atoms, mk
from framework import tv_check, THOROUGH, RawH

FREE = ["", "\0", "\0\0", "\0\0\0"]
CTX = ["x = \0\0", '"\0\0"', '"\0\0\0', "'\0\0'", "f'\0\0'", 'f"\0\0\0', '"a\n\0"\0', '"\\\0\0"', "12\0\0", "1.\0\0", "1.5\0\0", "a\0\0", "_\0\0", "\0_1\0", "se\0\0", "fi\0\0", "sena\0\0", "#\0\0", "#\0\nx\0", "x#\0\0\ny",
       "\n\n\0\0", "a\n\0\nb", "\0\n\0\nx", '"\n\n"\0\0', '"\0" \0 "\0"', "f\0\0\"", "=\0\0", "/\0\0", ":\0\0", ".\0\0", "\0\0=", "a\0b\0c", " \0 \0 ", "\t\0\n \0", "\0\0\n", "\\\0\0", "e\0u", "func\0f\0)", '"\\n\0"\0', "'\0'\n\0"]
LONG = ["1\0\0\0", "a\0\0\0", "\0\0\0\0", 'f"\0\0\0\0"', "\0\0\0\n\0", "1\0\0\0\0", "a\0\0\0\0"]


def conc_tokens(mod, src):
    toks, end = symchar.run_lexer(mod, src, 3 * len(src) + 5)
    return [(k, v, l) for k, v, l in toks], end


def ref_tokens(src):
    """reference on concrete text, with values"""
    toks, err = reflex.lex(list(src))
    out = []
    for k, w, l in toks:
        t = "".join(w)
        out.append((k, int(t) if k == "INTEGER" else float(t) if k == "REAL" else t, l))
    return out, None if err is None else ("error", err)


def differs(pid, got, want):
    """text of the first difference that concerns the property"""
    (gt, ge), (wt, we) = got, want
    gk, wk = ge[0] if ge else None, we[0] if we else None
    if pid == "C02":
        if gk != wk:
            return f"the text is {'rejected' if gk == 'error' else 'accepted' if gk is None else gk}, it must be {'rejected' if wk else 'accepted'}"
        for i in range(max(len(gt), len(wt))):
            if i >= len(gt) or i >= len(wt):
                return f"token {i}: got {gt[i][:2] if i < len(gt) else 'nothing'}, expected {wt[i][:2] if i < len(wt) else 'nothing'}"
            a, b = gt[i], wt[i]
            if a[0] != b[0] or type(a[1]) is not type(b[1]) or a[1] != b[1]:
                return f"token {i}: got {a[0]} {a[1]!r}, expected {b[0]} {b[1]!r}"
        return None
    if gk == "error" and wk == "error" and ge[1] != we[1]:
        return f"the error is reported on line {ge[1]}, the offending text is on line {we[1]}"
    if [t[0] for t in gt] == [t[0] for t in wt]:
        for i, (a, b) in enumerate(zip(gt, wt)):
            if a[2] != b[2]:
                return f"token {i} ({a[0]} {a[1]!r}) is given line {a[2]}, it starts on line {b[2]}"
    return None


def harness(pid, specs):
    def h(ctx):
        spec = ctx.choose(specs)
        src, n = symchar.text(spec)
        symchar.CH = symchar.Chars(n)
        got, gend = symchar.run_lexer(symchar.symparse, src, 3 * len(src) + 5)
        want, wend = reflex.lex([mk(c) for c in src])
        wend = None if wend is None else ("error", wend)
        claim, eqs = True, []
        symchar.CH.seal()
        gk, wk = gend and gend[0], wend and wend[0]
        if pid == "C02":
            claim = gk == wk and len(got) == len(want)
            if claim:
                for (k, v, _), (k2, w, _) in zip(got, want):
                    t = "".join(str.__str__(c) for c in w)
                    if k != k2:
                        claim = False
                        break
                    if k2 in ("INTEGER", "REAL"):
                        if not isinstance(v, SymNum):
                            if symchar.is_sym(t) or v != (int(t) if k2 == "INTEGER" else float(t)):
                                claim = False
                                break
                            continue
                        v = v.text
                    a, b = atoms(v), atoms(t)
                    if len(a) != len(b):
                        claim = False
                        break
                    for x, y in zip(a, b):
                        if x != y:
                            f = lambda q: z3.Int(f"c{q[1]}") if isinstance(q, tuple) else z3.IntVal(q)
                            eqs.append(f(x) == f(y))
        else:
            if gk == "error" and wk == "error":
                claim = gend[1] == wend[1]
            if claim and [t[0] for t in got] == [t[0] for t in want]:
                claim = all(a[2] == b[2] for a, b in zip(got, want))
        m = ctx.holds(z3.And([z3.BoolVal(bool(claim))] + eqs))
        cnt = {"claims": 1, "rejected" if gk else "tokenised": 1}
        key = hash((spec, tuple(tuple(a) for a in symchar.CH.alive)))
        src_c = symchar.concrete(src, m) if m is not None else symchar.member(src) or symchar.concrete(src, ctx.model())
        d = differs(pid, conc_tokens(pipe.P, src_c), ref_tokens(src_c))
        if m is None and d is None:
            return {"viol": [], "cnt": cnt, "key": key, "sample": {"text": spec.replace("\0", "▢"), "witness": src_c, "tokens": [str(t) for t in got][:6], "end": str(gend)}}
        if d is None:
            raise sx.Inconclusive(f"the difference on {src_c!r} does not reproduce")
        return {"viol": [{"what": f"{d}; source text {src_c!r}", "src": src_c, "sig": d.split(";")[0][:60]}], "cnt": cnt, "key": key}
    return h


def main(pid, more=(), bounds=()):
    for n in ("isspace", "isalpha", "isalnum", "isdecimal", "isdigit"):
        symchar.pred(n)
    f = {"free": RawH(harness(pid, FREE)), "context": RawH(harness(pid, CTX))}
    if THOROUGH:
        f["long"] = RawH(harness(pid, LONG))
    f.update(more)
    return tv_check(pid, f, list(bounds) + [
        "texts of up to 3 characters, every character any Unicode scalar value except NUL and carriage return",
        f"{len(CTX)} contexts (strings, format strings, numbers, words, comments, blank lines, operators) with 2-3 such characters inside" + (f"; {len(LONG)} longer ones" if THOROUGH else "")],
        ["carriage returns never reach the lexer: source files are read with universal newlines"], level="other", budget=100 if not THOROUGH else 1500)
