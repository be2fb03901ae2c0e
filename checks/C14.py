"""C14 emitted bytecode is well formed for every operand value and program

Encoding: the code generator's own functions run on symbolic operands (unbounded for
practical purposes: +-2^66), label addresses and code offsets.  Modules: every program of
the stated contexts, with symbolic tokens, is compiled and its code decoded."""
import z3
import sx, symint, symtok, tv, pipe, vm
from symint import SInt, SBytes, items
from framework import tv_check, RawH, THOROUGH
import importlib, os
_s = importlib.util.spec_from_file_location("C04", os.path.join(os.path.dirname(os.path.abspath(__file__)), "C04.py"))
C04 = importlib.util.module_from_spec(_s)
_s.loader.exec_module(C04)

CG = pipe.CG
norm = lambda n: n.replace("_", "").lower().replace("opunwrap", "unwrap").replace("opisnull", "isnull")
WIDTH = {norm(k): ([w] if k != "LoadModuleDef" else [8, 8]) for k, w in vm.WIDTH.items()}
JUMPS = ("jump", "jumpiffalse")
ops = lambda: list(CG.OpCode)
widths = lambda op: WIDTH.get(norm(op.name), [])


def gen():
    g = CG.ByteGen(pipe.Module("prog.ama"))
    g.lineno = 1
    return g


def emit(op, args):
    """the bytes the generator writes for the instruction, or ("refused", exception)"""
    try:
        g = gen()
        if norm(op.name) in JUMPS:
            g.ip = 0
            lab = g.new_label()
            g.ip = args[0]
            g.patch_label_loc(lab)
            g.ip = 0
            g.append_op(op, lab)
        else:
            g.append_op(op, *args)
        return "ok", g.write_op_bytes(g.ops[-1])
    except sx.Inconclusive:
        raise
    except Exception as e:
        return "refused", e


def spec(op, args):
    out = [op.value]
    for a, w in zip(args, widths(op)):
        out += list(a.to_bytes(w, "big"))
    return out


def usable():
    """the internal interface the encoding harness drives exists"""
    k, r = emit(CG.OpCode.LOAD_CONST, [1])
    k2, r2 = emit(CG.OpCode.JUMP, [1])
    return k == "ok" and k2 == "ok" and isinstance(r, bytes) and isinstance(r2, bytes) or not isinstance(r, (AttributeError, TypeError)) and not isinstance(r2, (AttributeError, TypeError))


def operands(ctx):
    op = ctx.choose(ops())
    ws = widths(op)
    args = [SInt.var(f"arg{i}", -(1 << 66), 1 << 66) for i in range(len(ws))]
    with symint.patched(CG):
        k, r = emit(op, args)
    fits = z3.And([z3.And(a.e >= 0, a.e <= z3.BitVecVal((1 << 8 * w) - 1, symint.N)) for a, w in zip(args, ws)] or [z3.BoolVal(True)])
    if k == "ok":
        got = items(r)
        want = [SInt(z3.BitVecVal(op.value, symint.N))]
        for a, w in zip(args, ws):
            want += a.bytes(w, "big")
        claim = z3.And(fits, len(got) == len(want), *[symint.bv(x) == y.e for x, y in zip(got, want)])
    else:
        claim = z3.Not(fits)
    ctx.model()
    m = ctx.holds(claim)
    cnt = {"claims": 1, "encoded_" + k: 1}
    smp = {"operation": op.name, "widths": ws, "verdict": k}
    if m is None:
        return {"viol": [], "cnt": cnt, "key": (op.name, k), "sample": smp}
    vals = [m.eval(a.e, model_completion=True).as_signed_long() for a in args]
    k2, r2 = emit(op, vals)
    ok = all(0 <= v < 1 << 8 * w for v, w in zip(vals, ws))
    good = (k2 == "ok" and ok and list(r2) == spec(op, vals)) or (k2 == "refused" and not ok)
    what = f"{op.name} with operands {vals}: " + (f"encoded as {list(r2)}" if k2 == "ok" else f"refused ({type(r2).__name__}: {r2})") + (f", expected {spec(op, vals)}" if ok else ", expected a refusal")
    return {"viol": [{"what": what, "sig": op.name, "unreproduced": good, "operation": op.name, "operands": vals}], "cnt": cnt, "key": (op.name, k)}


def addresses(ctx):
    """from any offset p: the offset after an instruction is p + the bytes it is written as,
    and a label placed at p denotes p"""
    op = ctx.choose(ops())
    p = SInt.var("p", 0, 1 << 60)

    def step(p):
        g = gen()
        g.ip = p
        lab = g.new_label()
        g.patch_label_loc(lab)
        first = g.ip
        g.append_op(op, *(lab if norm(op.name) in JUMPS else 0 for _ in widths(op)))
        r = g.write_op_bytes(g.ops[-1])
        jb = g.write_op_bytes((CG.OpCode.JUMP, (lab,)))
        return first, g.ip, len(r), jb
    with symint.patched(CG):
        first, after, n, jb = step(p)
    b = items(jb)
    claim = z3.And(symint.bv(after) == p.e + n, symint.bv(first) == p.e, *[symint.bv(x) == y.e for x, y in zip(b[1:], p.bytes(8, "big"))], len(b) == 9)
    ctx.model()
    m = ctx.holds(claim)
    if m is None:
        return {"viol": [], "cnt": {"claims": 1}, "key": op.name}
    v = m.eval(p.e, model_completion=True).as_long()
    first, after, n, jb = step(v)
    good = after == v + n and list(jb[1:]) == list(v.to_bytes(8, "big"))
    return {"viol": [{"what": f"{op.name} at offset {v}: {n} bytes are written, the next offset is {after}, a label placed there is {list(jb)}", "sig": "ip" + op.name, "unreproduced": good}], "cnt": {"claims": 1}, "key": op.name}


# ------------------------------------------------------------------ whole modules
def defects(m):
    """the ill-formed parts of a module (a decoded document)"""
    byval = {op.value: op for op in ops()}
    code, out, starts, i = m["ops"], [], {}, 0
    while i < len(code):
        op = byval.get(code[i])
        if op is None:
            return [f"byte {code[i]} at {i} is no operation"]
        ws, j, args = widths(op), i + 1, []
        for w in ws:
            args.append(int.from_bytes(code[j:j + w], "big"))
            j += w
        if j > len(code):
            return [f"{op.name} at {i} is cut off"]
        starts[i] = (norm(op.name), args)
        i = j
    name = m["name"]
    for a, (op, args) in starts.items():
        if op in JUMPS and args[0] not in starts:
            out.append(f"{op} at {a} of {name} goes to {args[0]}, which is not the start of an instruction")
        if op == "loadconst" and args[0] >= len(m["constants"]) or op in ("loadname", "getglobal", "setglobal") and args[0] >= len(m["names"]) or op == "loadregisto" and args[0] >= len(m["registos"]):
            out.append(f"{op} at {a} of {name} refers to entry {args[0]} of a shorter table")
        if op == "loadmoduledef" and (args[0] >= len(m.get("all", [])) or args[1] >= len(m["names"])):
            out.append(f"{op} at {a} of {name} refers to module or name {args} that does not exist")
    if not starts or starts[max(starts)][0] != "halt":
        out.append(f"the code of {name} does not end with HALT")
    entries = sorted([0] + [f["start_ip"] for f in m["functions"]])
    for f in m["functions"]:
        if f["start_ip"] not in starts:
            out.append(f"function {f['name']} of {name} begins at {f['start_ip']}, which is not the start of an instruction")
    if out:
        return out
    # locals: reachable code of a function uses only its own slots
    for e, n, who in [(0, m["entry_locals"], "main")] + [(f["start_ip"], f["locals"], f["name"]) for f in m["functions"]]:
        seen, todo = set(), [e]
        nexts = dict(zip(sorted(starts), sorted(starts)[1:]))
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            seen.add(a)
            op, args = starts[a]
            if op in ("getlocal", "setlocal") and args[0] >= n:
                out.append(f"{op} {args[0]} at {a} of {name} is outside the {n} slots of {who}")
            if op in JUMPS:
                todo.append(args[0])
            if op not in ("jump", "return", "halt"):
                if a not in nexts:
                    out.append(f"the code of {who} runs off the end of {name}")
                else:
                    todo.append(nexts[a])
            if op == "halt" and who != "main":
                out.append(f"function {who} of {name} runs into HALT")
    # the line table: its entries are ranges of starts, in order and disjoint
    s = m["src_map"]
    if len(s) % 3 == 0:
        last = -1
        for k in range(0, len(s), 3):
            if s[k] not in starts or s[k + 1] not in starts or s[k] <= last or s[k + 1] < s[k]:
                out.append(f"entry {s[k:k + 3]} of the line table of {name} is no range of instructions")
            last = s[k + 1]
    return out


def examine(raw):
    d = vm.unpack_doc(bytes(raw)[4:])
    out = []
    for m in [d, *d["imports"]]:
        m["all"] = d["imports"]
        if not m["builtin"]:
            out += defects(m)
    return out


def module_harness(gen):
    def h(ctx):
        text, alts = gen(ctx)
        t = symtok.Template(ctx, text, alts)
        with symtok.limit(20):
            res = t.run("compile")
        if res[0] != "ok":
            return {"viol": [], "cnt": {res[0]: 1}, "key": hash((text, res[:2]))}
        bad = examine(res[1])
        m = ctx.holds(not bad)
        src = t.source(t.pick_of(m or ctx.model()))
        cnt = {"claims": 1, "ok": 1, "combinations": t.ncombos()}
        key = hash((text, tuple(tuple(sorted(c.alive)) for c in t.choices)))
        if m is None:
            return {"viol": [], "cnt": cnt, "key": key, "sample": {"template": text, "alternatives": [[c.alts[i] for i in sorted(c.alive)] for c in t.choices]}}
        c = tv.compile_cached(src)
        again = examine(c[1]) if c[0] == "ok" else None
        return {"viol": [{"what": (again or bad)[0], "sig": symtok.re.sub("[0-9]+", "N", bad[0])[:60], "src": src, "stdin": "", "unreproduced": not again}], "cnt": cnt, "key": key}
    return h


CTX = ["{h}", "se x > 0 entao\n{h}fim\n", "se x > 0 entao\n{h}senaose x < 0 entao\nmostra 1\nsenao\n{h2}fim\n", "enquanto x < 0 faca\n{h}fim\n", "para i{n} de 0..2 faca\n{h}fim\n", "para i{n} de 0..4 inc 2 faca\n{h}mostra i{n}\nfim\n",
       "escolha x:\ncaso 1:\n{h}caso 2:\n{h2}senao:\nmostra 3\nfim\n", "iguala u\nU::N(a{n}, _) => faca\n{h}fim\nU::Z => faca\n{h2}fim\nfim\n", "se iguala u => U::N(c{n}, _) entao\n{h}mostra c{n}\nsenao\n{h2}fim\n", "iguala x\n1 => faca\n{h}fim\n_ => faca\n{h2}fim\nfim\n",
       "w{n}: int = iguala x\n1 => 2\n_ => faca\n{h}produz x\nfim\nfim\n"]
STM = ["{t}", "mostra {t}", "x = {t}", "retorna {t}", "p.a = {t}", "v[0] += {t}", "novo{k}: int = {t}", "f({t})", "p.m({t})", "o = {t}"][:None if THOROUGH else 4] + ["se x == {t} entao\nquebra\nfim", "iguala o.valor\n1 => faca\ncontinua\nfim\n_ => faca\nmostra {t}\nfim\nfim"]
TOK = ["quebra", "continua", "retorna", "x", "1", "2.5", "nulo", "u", "g", "l"] if THOROUGH else ["quebra", "continua", "retorna", "x"]


def nested(where):
    def gen(ctx):
        n = [0]

        def fill(c, inner):
            n[0] += 1
            return c.replace("{n}", str(n[0])).replace("{h}", inner).replace("{h2}", "mostra 9\n")
        a = ctx.choose(CTX)
        b = ctx.choose(CTX)
        st = [ctx.choose(STM).replace("{t}", f"hole{k}__").replace("{k}", str(k)) + "\n" for k in range(2 if THOROUGH else 1)]
        body = fill(a, fill(b, "".join(st) + ("" if THOROUGH else "mostra 5\n")) + ("mostra 7\n" if ctx.pick(2) else ""))
        if where == "main":
            text = C04.PRE + body
        elif where == "func":
            text = C04.PRE + "func h(): int\nl: int = 1\n" + body + "retorna l\nfim\nmostra h()\n"
        else:
            text = C04.PRE + "func h()\n" + body + "fim\nmet P::q(alvo)\n" + body.replace("alvo", "x") + "fim\nh()\np.q()\n"
        return text, [TOK] * (2 if THOROUGH else 1)
    return gen


BIG = ["mostra tam([int: {xs}])\n", "mostra f\"{fs}\"\n", "func h({ps}): int\nretorna a0\nfim\nmostra h({xs})\n", "uniao B\nM({ts})\nfim\nb: B = B::M({xs})\niguala b\nB::M({bs}) => faca\nmostra b1\nfim\nfim\n" ,
       "registo R\n{rs}fim\nr: R = R({ri})\nmostra r.a1\n"]


def sizes(ctx):
    """as many elements, arguments, parts as an operand byte holds, one more, and many more"""
    t = ctx.choose(BIG)
    n = ctx.choose([254, 255, 256, 257, 300])
    rep = lambda f, s=", ": s.join(f.format(i=i) for i in range(n))
    text = t.replace("{xs}", rep("{i}")).replace("{fs}", rep("{{x}}", "")).replace("{ps}", rep("a{i}: int")).replace("{ts}", rep("int")).replace("{bs}", rep("b{i}")).replace("{rs}", rep("a{i}: int\n", "")).replace("{ri}", rep("a{i}: {i}"))
    text = "x: int = 7\n" + text
    c = tv.compile_cached(text)
    what = None
    if c[0] == "crash":
        what = f"{n} operands: the compiler fails internally: {c[1]}"
    elif c[0] == "reject":
        if n <= 255:
            what = f"{n} operands fit and are refused: {c[1]}"
    else:
        bad = examine(c[1])
        want = {0: str(n), 1: "7" * n, 2: "0", 3: "1", 4: "1"}[BIG.index(t)] + "\n"
        got = pipe_run(c[1])
        what = bad[0] if bad else None if got == want else f"{n} operands: the program prints {got[:60]!r}, expected {want[:60]!r}"
    d = {"viol": [], "cnt": {"claims": 1, c[0]: 1}, "key": (n, t)}
    if what:
        d["viol"] = [{"what": what, "sig": symtok.re.sub("[0-9]+", "N", what)[:60] + str(BIG.index(t)), "src": text, "stdin": ""}]
    return d


def pipe_run(raw):
    import realvm
    rc, out, err = realvm.run(bytes(raw), "")
    return out if rc == 0 else f"{rc}: {err}"


def main():
    f = {}
    if usable():
        f["operands"] = RawH(operands)
        f["addresses"] = RawH(addresses)
    for w in ("main", "func", "void"):
        f[w] = RawH(module_harness(nested(w)))
    f["contexts"] = RawH(module_harness(C04.family(C04.HEAD + C04.BLOCK, 1, C04.ALL if THOROUGH else C04.SMALL)))
    f["sizes"] = RawH(sizes)
    return tv_check("C14", f, [
        "encoding: every operation, every operand value in +-2^66, every jump target 0..2^66 (operand widths as in the VM)",
        "addresses: every operation emitted at every offset 0..2^60: the next offset and a label placed there",
        "modules: two nested control constructs (11 kinds each) in main, a function, a function and a method, with " + ("two" if THOROUGH else "one") + " statement(s) of " + str(len(STM)) + " kinds around a symbolic token; one symbolic token in the contexts of C04",
        "sizes: vectors, format strings, calls, variants and records of 254 to 300 elements"],
        ["the widths of operands are those of the VM (lib/vm.py WIDTH, compared with the VM itself in C21)"], level="other")
