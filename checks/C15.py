"""C15 serialised modules decode to exactly what was written

bindump.dumps runs on values whose integers, bytes, characters, doubles and sizes are
symbolic; what it writes is read back with the loader's rules.  The loader's own Rust
functions decode the same bytes in Kani, with the same positions symbolic."""
import z3, struct, re
import sx, symint, pipe, kani, realvm
from symint import SInt, SBytes, SText, SFloat, Blob, bv, items
from framework import tv_check, RawH, THOROUGH

BD = pipe.bindump
BITS = lambda n: 1 << n


class Bad(Exception):
    """the bytes do not decode; `cond` says when (default: always)"""


class Rd:
    """the loader's reading position over items"""

    def __init__(self, it):
        self.it, self.i, self.claims = list(it), 0, []

    def one(self):
        if self.i >= len(self.it):
            raise Bad("read past the end")
        x = self.it[self.i]
        if type(x) is Blob:
            raise Bad("a length or type byte is read inside a payload")
        self.i += 1
        return x

    def byte(self):
        """a byte that steers decoding: it must be determined"""
        x = self.one()
        if type(x) is SInt:
            e = z3.simplify(x.e)
            if not z3.is_bv_value(e):
                raise Bad("payload is read as structure")
            x = e.as_long()
        return x

    def key(self):
        out = []
        while True:
            b = self.byte()
            if b == 0:
                return "".join(map(chr, out))
            out.append(b)

    def le(self, n):
        e = z3.BitVecVal(0, symint.N)
        for k in range(n):
            e = e | (bv(self.one()) << (8 * k))
        return e

    def i32(self):
        return z3.SignExt(symint.N - 32, z3.Extract(31, 0, self.le(4)))

    def take(self, n):
        """the payload of n bytes (n a term): whole items whose sizes add up to n"""
        e = z3.simplify(n)
        if z3.is_bv_value(e):
            n = e.as_signed_long()
            if n < 0:
                raise Bad("negative size")
            got = []
            while n:
                got.append(self.one())
                n -= 1
            return got
        x = self.it[self.i] if self.i < len(self.it) else None
        if type(x) is not Blob:
            raise Bad("a payload of undetermined size")
        self.i += 1
        # the size read is the size of the payload
        self.claims.append(e == x.n.e)
        return [x]


def decode(r, t):
    """binload.rs: unpack_bson_value"""
    if t == 1:
        return ("real", r.le(8))
    if t == 2:
        s = r.take(r.i32())
        r.one()
        return ("text", s)
    if t in (3, 4):
        start, n = r.i, r.i32()
        body, d = r.i, []
        while True:
            c = r.byte()
            if c == 0:
                break
            k = r.key()
            d.append((k, decode(r, c)))
        # the size written describes the elements (without the final zero)
        r.claims.append(n == size(r.it[body:r.i - 1]))
        return ("doc", d) if t == 3 else ("list", [v for _, v in d])
    if t == 5:
        n = r.i32()
        r.one()
        return ("bytes", r.take(n))
    if t == 0x12:
        return ("int", z3.SignExt(symint.N - 64, z3.Extract(63, 0, r.le(8))))
    raise Bad(f"type byte {t}")


def size(it):
    n = SBytes(it).size()
    return bv(n)


def decode_top(it):
    r = Rd(it)
    n = r.i32()
    body, d = r.i, []
    while True:
        c = r.byte()
        if c == 0:
            break
        k = r.key()
        d.append((k, decode(r, c)))
    r.claims.append(n == size(r.it[body:r.i - 1]))
    if r.i != len(r.it):
        raise Bad("bytes after the end of the document")
    return ("doc", d), r.claims


def equal(want, got):
    """-> list of claims; Bad when the shapes differ"""
    t = type(want)
    base = symint.SYM.get(t, t)
    k, v = got
    if base is int:
        if k != "int":
            raise Bad(f"an integer is read as {k}")
        return [v == bv(want)]
    if base is float:
        e = want.e if t is SFloat else z3.BitVecVal(struct.unpack("<Q", struct.pack("<d", want))[0], 64)
        if k != "real":
            raise Bad(f"a real is read as {k}")
        return [z3.Extract(63, 0, v) == e]
    if base in (str, bytes):
        if k != ("text" if base is str else "bytes"):
            raise Bad(f"{base.__name__} is read as {k}")
        w = items(want.encode() if base is str else want)
        if len(w) != len(v):
            raise Bad("a payload of another size")
        return [bv(a) == bv(b) if Blob not in (type(a), type(b)) else z3.BoolVal(a is b) for a, b in zip(w, v)]
    if base is list:
        if k != "list" or len(v) != len(want):
            raise Bad("a list of another length")
        return [c for a, b in zip(want, v) for c in equal(a, b)]
    if base is dict:
        if k != "doc" or [n for n, _ in v] != list(want):
            raise Bad(f"the keys {list(want)} are read as {[n for n, _ in v]}" if k == "doc" else "not a document")
        return [c for (n, b) in v for c in equal(want[n], b)]
    raise Bad(str(base))


# --------------------------------------------------------------- symbolic values
class Make:
    def __init__(self, ctx, depth=0):
        self.ctx, self.n, self.deep = ctx, 0, depth > 0

    def name(self, p):
        self.n += 1
        return f"{p}{self.n}"

    def leaf(self, kind):
        c = self.ctx
        if kind == "int":
            return SInt.var(self.name("i"), -BITS(66), BITS(66))
        if kind == "real":
            return SFloat(z3.BitVec(self.name("d"), 64))
        if kind == "chars":
            n = self.ctx.pick(2 + (not self.deep or THOROUGH))
            return SText([SInt.var(self.name("c"), 0, 0x10FFFF) for _ in range(n)])
        if kind == "mixed":
            return SText(["a", SInt.var(self.name("c"), 0, 0x10FFFF), "ç\0z"])
        if kind == "bytes":
            return SBytes([SInt.var(self.name("b"), 0, 255) for _ in range(self.ctx.choose([0, 3] if self.deep else [0, 1, 2, 3]))])
        if kind == "blob":
            n = SInt.var(self.name("n"), 0, BITS(40))
            return SBytes([Blob(n, self.name("blob"))])
        if kind == "longtext":
            n = SInt.var(self.name("n"), 0, BITS(40))
            return SText([Blob(n, self.name("text"))])
        if kind == "empty":
            return self.ctx.choose([[], {}, list(range(12)), ["t", *range(1100)], {f"k{j}": j for j in range(12)}, "", b"", 0, -1, 1.5, -0.0, "a" * 300, b"\0" * 70000, 2**63 - 1, -2**63])

    def value(self, d):
        ks = KINDS + (["list", "dict"] if d else [])
        k = self.ctx.choose(ks)
        if k == "list":
            return [self.value(d - 1) if j == 0 else self.leaf("int") for j in range(1 + self.ctx.pick(2))]
        if k == "dict":
            return {"k": self.value(d - 1), **({"l": self.leaf("chars")} if self.ctx.pick(2) else {})}
        return self.leaf(k)


KINDS = ["int", "real", "chars", "mixed", "bytes", "blob", "longtext", "empty"]


def concrete(v, m):
    t = type(v)
    ev = lambda e: m.eval(e, model_completion=True)
    if t is SInt:
        return ev(v.e).as_signed_long()
    if t is SFloat:
        return struct.unpack("<d", struct.pack("<Q", ev(v.e).as_long()))[0]
    if t is SText:
        return "".join(c if isinstance(c, str) else "x" * min(ev(c.n.e).as_long(), 1 << 20) if type(c) is Blob else chr(ev(c.e).as_long()) for c in v.items)
    if t is SBytes:
        return b"".join(bytes([c]) if type(c) is int else b"y" * min(ev(c.n.e).as_long(), 1 << 20) if type(c) is Blob else bytes([ev(c.e).as_long()]) for c in v.items)
    if t is list:
        return [concrete(x, m) for x in v]
    if t is dict:
        return {k: concrete(x, m) for k, x in v.items()}
    return v


def same(a, b):
    if isinstance(a, float):
        return isinstance(b, float) and struct.pack("<d", a) == struct.pack("<d", b)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return type(a) is type(b) and a == b


def real_trip(doc):
    """the concrete document through the real dumps and the loader's rules -> what is wrong, or None"""
    import vm
    try:
        raw = bytes(BD.dumps(doc))
    except Exception as e:
        return None if not representable(doc) else f"{doc!r:.300} is refused: {type(e).__name__}: {e}"
    if not representable(doc):
        return f"{doc!r:.300} is written although it does not fit"
    try:
        got = vm.unpack_doc(raw[4:])
    except Exception as e:
        return f"{doc!r:.300} is written as bytes that do not decode ({type(e).__name__}: {e})"
    if not same(doc, got):
        return f"{doc!r:.300} decodes to {got!r:.300}"
    if struct.unpack("<i", raw[:4])[0] != len(raw) - 5:
        return f"{doc!r:.300}: the size written is {struct.unpack('<i', raw[:4])[0]}, the document has {len(raw) - 5} bytes"
    try:
        it = list(raw)
        _, claims = decode_top(it)
        if not all(z3.is_true(z3.simplify(c)) for c in claims):
            return f"{doc!r:.300}: an embedded size is not the size of what it describes"
    except Bad as e:
        return f"{doc!r:.300}: {e}"
    return None


def representable(v):
    if isinstance(v, int):
        return -BITS(63) <= v < BITS(63)
    if isinstance(v, str):
        try:
            v.encode()
        except UnicodeEncodeError:
            return False
    if isinstance(v, dict):
        return all(map(representable, v.values()))
    if isinstance(v, list):
        return all(map(representable, v))
    return True


def fits(v):
    """the integers are 64-bit and the texts have an encoding"""
    t = type(v)
    if t is SInt:
        return [v.e >= z3.BitVecVal(-BITS(63), symint.N), v.e <= z3.BitVecVal(BITS(63) - 1, symint.N)]
    if t is SText:
        return [z3.Not(z3.And(c.e >= 0xD800, c.e <= 0xDFFF)) for c in v.items if type(c) is SInt]
    if t in (list, dict):
        return [c for x in (v if t is list else v.values()) for c in fits(x)]
    return []


def small(v):
    """everything together stays far below the 2^31 limit of a size"""
    t = type(v)
    if t in (SText, SBytes):
        return [c.n.e < BITS(29) for c in v.items if type(c) is Blob]
    if t in (list, dict):
        return [c for x in (v if t is list else v.values()) for c in small(x)]
    return []


def harness(depth):
    def h(ctx):
        mk = Make(ctx, depth)
        doc = {"a": mk.value(depth)}
        shape = ctx.pick(3) if not depth else 2 * ctx.pick(2)
        if shape == 1:
            doc["bb"] = mk.leaf("int")
        elif shape == 2:
            doc = {"z": mk.leaf("chars"), **doc, "c": [mk.leaf("int")]}
        with symint.patched(BD):
            try:
                raw, why = BD.dumps(doc), None
            except sx.Inconclusive:
                raise
            except Exception as e:
                raw, why = None, e
        good = z3.And(fits(doc) or [z3.BoolVal(True)])
        bad = None
        if raw is None:
            # refused: something did not fit, or is too large
            claim = z3.Not(z3.And(good, *small(doc)))
        else:
            try:
                got, claims = decode_top(items(raw))
                claim = z3.And(good, *claims, *equal(doc, got))
            except Bad as e:
                claim, bad = z3.BoolVal(False), str(e)
        ctx.model()
        m = ctx.holds(claim)
        cnt = {"claims": 1, "refused" if raw is None else "written": 1}
        shp = re.sub(r"[0-9]+", "N", repr(doc))
        if m is None:
            return {"viol": [], "cnt": cnt, "key": shp, "sample": {"document": shp[:200]}}
        c = concrete(doc, m)
        what = real_trip(c)
        return {"viol": [{"what": what or f"{shp[:300]}: {bad or why or 'another value'} (no concrete witness: {c!r:.200})", "sig": shp[:80], "document": repr(c)[:2000], "unreproduced": what is None}], "cnt": cnt, "key": shp}
    return h


# --------------------------------------------------------------- the loader, in Kani
PRE = r"""
#[cfg(kani)]
mod ama_bin {
    use super::*;
    use core::mem::ManuallyDrop as M;
"""


class Loader:
    """documents written by the real dumps with symbolic payloads -> harnesses that the
    loader reads the payload back; payload bytes are kani::any()"""

    def __init__(self):
        self.H = {}

    def add(self, name, make, unwind=9):
        old, sx.CUR = sx.CUR, sx.Ctx()
        try:
            self.decls, self.vars, n = [], {}, 0
            doc = make(self)
            with symint.patched(BD):
                raw = items(BD.dumps(doc))
            out = [self.byte(i) for i in raw]
        finally:
            sx.CUR = old
        checks = self.check("d.get(\"a\").unwrap()", doc["a"], 0)
        self.H["binload::ama_bin::" + name] = (f"    #[kani::proof]\n    #[kani::unwind({unwind})]\n    fn {name}() {{\n        " + " ".join(self.decls) +
            f"\n        let mut raw: [u8; {len(out) - 4}] = [{', '.join(out[4:])}];\n        let d = M::new(unpack_bson_doc(&mut raw));\n        {checks}\n    }}\n")

    def new(self, n, cond=""):
        v = f"x{len(self.decls)}"
        self.decls.append(f"let {v}: [u8; {n}] = kani::any();" + (" " + cond.replace("$", v) if cond else ""))
        return v

    def int(self):
        v = self.new(8)
        return SInt(z3.SignExt(symint.N - 64, self.bits(v, 8)))

    def real(self):
        v = self.new(8)
        return SFloat(self.bits(v, 8))

    def bits(self, v, n):
        e = z3.BitVec(v, 8 * n)
        self.vars[v] = (e, n)
        return e

    def bytes(self, n):
        v = self.new(n)
        e = self.bits(v, n)
        return SBytes([SInt(z3.ZeroExt(symint.N - 8, z3.Extract(8 * k + 7, 8 * k, e))) for k in range(n)])

    def text(self, n):
        v = self.new(n, " ".join(f"kani::assume($[{k}] < 128);" for k in range(n)))
        e = self.bits(v, n)
        cs = [SInt(z3.ZeroExt(symint.N - 8, z3.Extract(8 * k + 7, 8 * k, e))) for k in range(n)]
        for c in cs:
            sx.CUR.add(c.e < 128)
        return SText(cs)

    def byte(self, i):
        if type(i) is not SInt:
            return str(i)
        for v, (e, n) in self.vars.items():
            for k in range(n):
                s = z3.Solver()
                s.add(z3.Extract(7, 0, i.e) != z3.Extract(8 * k + 7, 8 * k, e))
                if s.check() == z3.unsat:
                    return f"{v}[{k}]"
        raise Bad("a byte that is no byte of a value")

    def var(self, x):
        it = x.items[0] if type(x) in (SText, SBytes) else x
        return next(v for v, (e, _) in self.vars.items() if str(e) in {str(y) for y in z3util_vars(it.e)})

    def check(self, ex, v, d):
        t = type(v)
        m = lambda pat, body: f"match {ex} {{ BSONType::{pat} => {{ {body} }}, _ => assert!(false, \"type\") }}"
        if t is SInt:
            return m(f"Int(y{d})", f"assert!(*y{d} == i64::from_le_bytes({self.var(v)}));")
        if t is SFloat:
            return m(f"Double(y{d})", f"assert!(y{d}.to_bits() == u64::from_le_bytes({self.var(v)}));")
        if t is SBytes or t is SText:
            p, c = ("Bytes", f"y{d}") if t is SBytes else ("String", f"y{d}.as_bytes()")
            n = len(v.items)
            body = f"let z = {c}; assert!(z.len() == {n});" + (f" let w = {self.var(v)};" + "".join(f" assert!(z[{k}] == w[{k}]);" for k in range(n)) if n else "")
            return m(f"{p}(y{d})", body)
        if t is list:
            return m(f"Array(y{d})", f"assert!(y{d}.len() == {len(v)});" + " ".join(self.check(f"&y{d}[{k}]", x, d + 1) for k, x in enumerate(v)))
        if t is dict:
            return m(f"Doc(y{d})", " ".join(self.check(f"y{d}.get(\"{k}\").unwrap()", x, d + 1) for k, x in v.items()))
        raise Bad(str(t))


def z3util_vars(e):
    from z3 import z3util
    return z3util.get_vars(e)


def loader(rep):
    L = Loader()
    try:
        L.add("ints", lambda l: {"a": [l.int(), l.int()]})
        L.add("real_bytes", lambda l: {"a": [l.real(), l.bytes(3)]})
        L.add("text", lambda l: {"a": l.text(3)})
        L.add("texts", lambda l: {"a": [l.text(2), SText([])]})
        L.add("nested", lambda l: {"a": [[l.int()], {"k": l.int()}, []]})
        if THOROUGH:
            L.add("many", lambda l: {"a": [l.int(), l.text(1), l.real(), l.bytes(1), {"k": [l.int()]}]})
    except (Bad, sx.Inconclusive) as e:
        rep.skipped.append(f"the loader was not run on what dumps writes: {e}")
        return
    try:
        c = kani.Crate("", False, {"binload.rs": PRE + "".join(L.H.values()) + "}\n"})
        res = c.run(list(L.H), "cadical", each=200, total=450)
    except (kani.BuildError, OSError) as e:
        rep.skipped.append(f"the loader cannot be called by the harness ({str(e)[:200]}): its rules are checked by running it")
        return
    ok = 0
    for n, r in res.items():
        rep.solver_s += r[1]
        if r[0] == "ok":
            ok += 1
            rep.queries += max(1, int(r[3].get("vccs_remaining", 1) or 1))
        elif r[0] == "unknown":
            rep.skipped.append(f"{n}: no verdict {r[2]}")
        else:
            vals, _ = c.counterexample(n)
            what = loader_replay(n.split("::")[-1], vals)
            (rep.viol if what else rep.problems).append({"what": what, "sig": n, "family": "kani"} if what else f"{n}: fails ({r[2]}) without a replayable value ({vals})")
    what = loader_replay("", None)
    if what and not rep.viol:
        rep.viol.append({"what": what, "sig": "replay", "family": "replay"})
    rep.cov["loader_harnesses"] = len(res)
    rep.cov["loader_verified"] = ok
    rep.functions |= {"amanda/vm/src/binload.rs:unpack_bson_doc", "amanda/vm/src/binload.rs:unpack_bson_value", "amanda/vm/src/binload.rs:read_bson_key", "amanda/vm/src/binload.rs:read_bytes"}


def const_program(v):
    """a module that prints the constant v (as the loader reads it)"""
    O = pipe.CG.OpCode
    return {"name": "m", "builtin": 0, "entry_locals": 0, "constants": [v], "names": [], "ops": bytes([O.LOAD_CONST.value, 0, 0, O.MOSTRA.value, O.HALT.value]),
            "functions": [], "registos": [], "src_map": [0, 4, 1], "imports": []}


def loader_replay(name, vals):
    """values of the failing harness (and of the boundary) through dumps and the real VM"""
    import math
    ints = [struct.unpack("<q", v)[0] for v in vals or [] if len(v) == 8] + [0, 1, -1, 255, 256, -256, 2**63 - 1, -2**63, 0x0102030405060708]
    for x in ints:
        rc, out, err = realvm.run(bytes(BD.dumps(const_program(x))), "")
        if (rc, out) != (0, f"{x}\n"):
            return f"the constant {x} is loaded as {out.strip() or err}"
    for x in [1.5, -2.25, 1e300, 5e-324]:
        rc, out, err = realvm.run(bytes(BD.dumps(const_program(x))), "")
        try:
            good = rc == 0 and float(out) == x
        except ValueError:
            good = False
        if not good:
            return f"the constant {x} is loaded as {out.strip() or err}"
    for x in ['"a"', '"olá\0x"', "'ab'", '""'] + ['"' + v.decode("latin1") + '"' for v in vals or [] if v and all(b < 128 for b in v)]:
        rc, out, err = realvm.run(bytes(BD.dumps(const_program(x))), "")
        if (rc, out) != (0, x[1:-1] + "\n"):
            return f"the constant text {x!r} is loaded as {out!r} {err}"
    return None


def main():
    f = {"flat": RawH(harness(0)), "nested1": RawH(harness(1))}
    if THOROUGH:
        f["nested2"] = RawH(harness(2))
    return tv_check("C15", f, [
        "documents of up to 3 fields, lists and documents nested to depth " + ("2" if THOROUGH else "1") + ": integers in +-2^66, every double, texts of up to 3 arbitrary characters, up to 3 arbitrary bytes, texts and byte strings of every size up to 2^40 with opaque contents"],
        ["the loader's functions read back every symbolic payload of the stated documents (Kani); std's HashMap is replaced by an association list in the model; texts there are ASCII",
         "elsewhere the loader's rules are those of binload.rs as written in this check and in lib/vm.py"], level="other", extra=loader)
