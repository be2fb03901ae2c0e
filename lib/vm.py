"""Symbolic executor of Amanda bytecode: follows amanda/vm/src/{binload,vm,
ama_value}.rs instruction by instruction, including the exact growth and
shrinking of the value stack.  Works on symbolic and on concrete inputs."""
import os, re, struct
from vals import *
import sx

REPO = os.environ.get("AMA_REPO", "/repo")


# ------------------------------------------------------------- module loader
class LoadError(Exception):
    pass


class Rd:
    def __init__(self, b):
        self.b, self.i = b, 0

    def take(self, n):
        if n < 0 or self.i + n > len(self.b):
            raise LoadError("read past the end")
        s = self.b[self.i:self.i + n]
        self.i += n
        return s

    def key(self):
        out = []
        while True:
            c = self.take(1)
            if c == b"\0":
                return b"".join(out).decode("latin1")
            out.append(c)


def _value(r, t):
    if t == 0x01:
        return struct.unpack("<d", r.take(8))[0]
    if t == 0x02:
        n = struct.unpack("<i", r.take(4))[0]
        s = r.take(n)
        r.take(1)
        return s.decode("utf8")
    if t == 0x03:
        r.take(4)
        d = {}
        while True:
            c = r.take(1)[0]
            if c == 0:
                return d
            k = r.key()
            d[k] = _value(r, c)
    if t == 0x04:
        r.take(4)
        a = []
        while True:
            c = r.take(1)[0]
            if c == 0:
                return a
            r.key()
            a.append(_value(r, c))
    if t == 0x05:
        n = struct.unpack("<i", r.take(4))[0]
        r.take(1)
        return bytes(r.take(n))
    if t == 0x12:
        return struct.unpack("<q", r.take(8))[0]
    raise LoadError(f"type byte {t}")


def unpack_doc(raw):
    """binload.rs: unpack_bson_doc on the bytes after the size prefix"""
    r = Rd(raw)
    d = {}
    while r.i < len(raw):
        c = r.take(1)[0]
        if c == 0:
            break
        k = r.key()
        d[k] = _value(r, c)
    return d


_FLOAT = re.compile(r"^[+-]?(inf|infinity|nan|([0-9]+\.?[0-9]*([eE][+-]?[0-9]+)?|\.[0-9]+([eE][+-]?[0-9]+)?))$", re.I)


def const_of(c):
    if isinstance(c, int):
        return VInt(c)
    if isinstance(c, float):
        return VF(c)
    if c in ("verdadeiro", "falso"):
        return VB(c == "verdadeiro")
    if c == "nulo":
        return NONE
    if re.match(r"^[+-]?[0-9]+$", c) and I64MIN <= int(c) <= I64MAX:
        return VInt(int(c))
    if _FLOAT.match(c):
        return VF(float(c))
    if c == "" or len(c.encode()[:1].decode("utf8", "ignore")) != 1:
        raise Panic("constant slicing")
    if c[0] in "\"'":
        if len(c.encode()) < 2:
            raise Panic("constant slicing")
        b = c.encode()[1:-1]
        try:
            return VS(b.decode())
        except UnicodeDecodeError:
            raise Panic("constant slicing")
    return VS(c)


_OPS = None


def opcode_table():
    """byte -> opcode name, read from the VM's own enum"""
    global _OPS
    if _OPS is None:
        s = open(os.path.join(REPO, "amanda/vm/src/opcode.rs"), encoding="utf8").read()
        s = re.sub(r"//[^\n]*|/\*.*?\*/", "", s, flags=re.S)
        m = re.search(r"let\s+\w+\s*:\s*\[\s*OpCode\s*;\s*\d+\s*\]\s*=\s*\[(.*?)\]", s, re.S)
        if m:
            names = re.findall(r"OpCode::(\w+)", m.group(1))
            tab = dict(enumerate(names))
        else:
            body = re.search(r"enum\s+OpCode\s*\{(.*?)\}", s, re.S).group(1)
            tab, k = {}, 0
            for it in body.split(","):
                it = it.strip()
                if not it:
                    continue
                it = re.sub(r"#\[[^\]]*\]", "", it).strip()
                if not it:
                    continue
                mm = re.match(r"(\w+)\s*(?:=\s*(0x[0-9a-fA-F]+|\d+))?$", it)
                if mm.group(2):
                    k = int(mm.group(2), 0)
                tab[k] = mm.group(1)
                k += 1
        tab[255] = "Halt"
        _OPS = tab
    return _OPS


WIDTH = {"LoadConst": 2, "LoadName": 2, "GetGlobal": 2, "SetGlobal": 2, "GetLocal": 2, "SetLocal": 2, "LoadRegisto": 2,
         "Jump": 8, "JumpIfFalse": 8, "MatchVariant": 8, "LoadModuleDef": 16, "CallFunction": 1, "Cast": 1,
         "BuildStr": 1, "BuildVec": 1, "BuildObj": 1, "Unwrap": 1, "BuildVariant": 1, "BindMatchArgs": 1}


class Func:
    __slots__ = ("name", "start_ip", "ip", "last_i", "bp", "locals", "module")

    def __init__(self, name, start_ip, locals_, module):
        self.name, self.start_ip, self.ip, self.last_i = name, start_ip, start_ip, start_ip
        self.bp, self.locals, self.module = -1, locals_, module

    def copy(self):
        f = Func(self.name, self.start_ip, self.locals, self.module)
        f.ip, f.last_i, f.bp = self.ip, self.last_i, self.bp
        return f


class VFn(V):
    def __init__(self, f):
        self.f = f


class VNative(V):
    def __init__(self, name):
        self.name = name


class VType(V):
    def __init__(self, t):
        self.t = t


class VReg(V):
    def __init__(self, name, fields):
        self.name, self.fields = name, fields


class Mod:
    def __init__(self, d, index=-1):
        self.doc = d
        self.name = d["name"]
        self.builtin = d["builtin"] != 0
        self.constants = [const_of(c) for c in d["constants"]]
        self.names = d["names"]
        self.code = d["ops"]
        self.src_map = d["src_map"]
        self.functions = [Func(f["name"], f["start_ip"], f["locals"], f["module"]) for f in d["functions"]]
        self.registos = [VReg(r["name"], r["fields"]) for r in d["registos"]]
        self.globals = {}
        self.main = Func("_inicio_", 0, d["entry_locals"], index)


def load(raw):
    d = unpack_doc(raw[4:])
    imports = [Mod(m, k) for k, m in enumerate(d["imports"])]
    return Mod(d), imports


NATIVES = {"embutidos": {**{n: VType(n) for n in ("int", "real", "bool", "texto")},
                         "PI": VF(3.141592653589793),
                         **{n: VNative(n) for n in ("escrevaln", "escreva", "leia", "leia_int", "leia_real", "tam", "vec",
                                                    "anexa", "remova", "txt_contem")}},
           "mat": {"PI": VF(3.141592653589793), **{n: VNative(n) for n in ("abs", "arredonda", "piso", "teto")}}}

RECURSION_LIMIT = 1000


def line_of(off, sm):
    for i in range(0, len(sm) - 2, 3):
        if sm[i] <= off <= sm[i + 1]:
            return sm[i + 2]
    return 0


class Outcome:
    def __init__(self):
        self.out = []          # printed chunks (pieces incl. newline)
        self.end = None        # ("ok",) | ("err", kind) | ("panic", msg) | ("steps",)
        self.lines = []        # error lines: innermost frame last? -> [main line] + call trace
        self.steps = 0


class VM:
    def __init__(self, raw, instream, step_limit=6000):
        self.instream = instream
        self.limit = step_limit
        self.o = Outcome()
        self.main_module, self.imports = load(raw)
        self.values = [NONE] * 256
        self.sp = -1
        self.frames = []
        self.ops = opcode_table()

    # stack
    def push(self, v):
        self.sp += 1
        n = len(self.values)
        if self.sp == n:
            self.values.append(v)
        elif self.sp < n:
            if self.sp < 0:
                raise Panic("stack underflow")
            self.values[self.sp] = v
        # sp > len: silently lost, as in the VM

    def pop(self):
        n = len(self.values) - 1
        if self.sp == n:
            self.sp -= 1
            if not self.values:
                raise Panic("pop on empty")
            return self.values.pop()
        if self.sp < n:
            if self.sp < 0:
                raise Panic("stack underflow")
            i = self.sp
            self.sp -= 1
            v = self.values[i]
            self.values[i] = NONE
            return v
        raise Panic("sp larger than values")

    def u(self, n):
        f = self.frames[-1]
        s = self.ctx.code[f.ip + 1:f.ip + 1 + n]
        if len(s) < n:
            raise Panic("code index")
        f.ip += n
        return int.from_bytes(s, "big")

    def init_module(self, m):
        if m.builtin:
            if m.name not in NATIVES:
                raise Panic("builtin module not defined")
            m.globals.update(NATIVES[m.name])
        else:
            for f in m.functions:
                m.globals[f.name] = VFn(f)

    def run(self):
        o = self.o
        try:
            for m in self.imports:
                self.init_module(m)
                self.run_module(m)
                self.sp = len(self.values) - 1
                self.frames = []
            self.init_module(self.main_module)
            self.run_module(self.main_module)
            o.end = ("ok",)
        except RtErr as e:
            o.end = ("err", e.kind)
            o.lines = self.trace()
        except Panic as e:
            o.end = ("panic", str(e))
        return o

    def module_of(self, f):
        return self.imports[f.module] if f.module >= 0 else self.main_module

    def trace(self):
        return [line_of(f.last_i, self.module_of(f).src_map) for f in self.frames]      # main first

    def run_module(self, m):
        self.ctx = m
        self.sp = len(self.values) - 1
        f = m.main.copy()
        self.frames.append(f)
        f.bp = 0 if self.sp > -1 else -1
        while True:
            f = self.frames[-1]
            if f.ip >= len(self.ctx.code):
                raise Panic("ip outside the code")
            op = self.ops.get(self.ctx.code[f.ip])
            f.last_i = f.ip
            self.o.steps += 1
            if self.o.steps > self.limit:
                self.o.end = ("steps",)
                raise StepLimit()
            if op is None:
                raise Panic("invalid opcode")
            if op == "Halt":
                break
            if getattr(self, "op_" + op)() is not True:
                self.frames[-1].ip += 1
        if self.frames[-1].name != "_inicio_":
            raise Panic("function did not exit cleanly")

    def op_LoadConst(self):
        i = self.u(2)
        if i >= len(self.ctx.constants):
            raise Panic("constant index")
        self.push(self.ctx.constants[i])

    def nm(self, i):
        if i >= len(self.ctx.names):
            raise Panic("name index")
        return self.ctx.names[i]

    def op_LoadName(self):
        self.push(VS(self.nm(self.u(2))))

    def op_LoadModuleDef(self):
        mi, di = self.u(8), self.u(8)
        if mi >= len(self.imports):
            raise Panic("module index")
        g = self.imports[mi].globals
        n = self.nm(di)
        if n not in g:
            raise Panic("Illegal access to definition")
        self.push(g[n])

    def op_LoadRegisto(self):
        i = self.u(2)
        if i >= len(self.ctx.registos):
            raise Panic("registo index")
        self.push(self.ctx.registos[i])

    def op_Mostra(self):
        self.o.out.append(show(self.pop()) + ("\n",))

    def _bin(self, op):
        r = self.pop()
        l = self.pop()
        self.push(vm_binop(op, l, r))

    def op_PopTop(self):
        self.pop()

    def op_MatchVariant(self):
        t = self.u(8)
        v = self.pop()
        if not isinstance(v, VVar):
            raise Panic("not a variant")
        self.push(VB(v.tag == t))

    def op_IsNull(self):
        self.push(VB(isinstance(self.pop(), VNone)))

    def op_OpInvert(self):
        v = self.pop()
        if isinstance(v, VInt):
            e = -v.e
            self.push(fit(e, -v.hi, -v.lo))
        elif isinstance(v, VF):
            self.push(VF(-v.e))
        else:
            raise Panic("invert")

    def op_OpNot(self):
        v = self.pop()
        if not isinstance(v, VB):
            raise Panic("not a bool")
        self.push(VB(bnot(v.e)))

    def vec_idx(self, vec, idx):
        return concrete_index(idx, len(vec.items))

    def op_OpIndexGet(self):
        idx = take_int(self.pop())
        t = self.pop()
        if isinstance(t, VS):
            p = norm(t.p)
            if not all(isinstance(x, str) for x in p):
                raise sx.Inconclusive("indexing a symbolic text")
            s = "".join(p)
            k = concrete_index(idx, len(s))
            self.push(VS(s[k]))
        elif isinstance(t, VVec):
            self.push(t.items[self.vec_idx(t, idx)])
        else:
            raise Panic("index of something else")

    def op_OpIndexSet(self):
        v = self.pop()
        idx = take_int(self.pop())
        t = self.pop()
        if not isinstance(t, VVec):
            raise Panic("index set")
        t.items[self.vec_idx(t, idx)] = v

    def op_GetGlobal(self):
        n = self.nm(self.u(2))
        if n not in self.ctx.globals:
            raise Panic("unknown global")
        self.push(self.ctx.globals[n])

    def op_SetGlobal(self):
        n = self.nm(self.u(2))
        self.ctx.globals[n] = self.pop()

    def op_Jump(self):
        self.frames[-1].ip = self.u(8)
        return True

    def op_JumpIfFalse(self):
        a = self.u(8)
        v = self.pop()
        if isinstance(v, VB) and not truth(v.e):
            self.frames[-1].ip = a
            return True

    def op_GetLocal(self):
        i = self.u(2) + self.frames[-1].bp
        if i < 0 or i >= len(self.values):
            raise Panic("local index")
        self.push(self.values[i])

    def op_SetLocal(self):
        i = self.frames[-1].bp + self.u(2)
        v = self.pop()
        if i < 0 or i >= len(self.values):
            raise Panic("local index")
        self.values[i] = v

    def reserve(self, n):
        if n < 0:
            raise Panic("negative reserve")
        self.values.extend([NONE] * n)
        self.sp = len(self.values) - 1

    def op_CallFunction(self):
        args = self.u(1)
        fn = self.pop()
        if isinstance(fn, VFn):
            f = fn.f.copy()
            if args > 0:
                f.bp = self.sp - (args - 1)
                self.reserve(f.locals - args)
            elif f.locals > 0:
                f.bp = self.sp + 1
                self.reserve(f.locals)
            else:
                f.bp = self.sp + 1
            self.frames[-1].ip += 1
            self.ctx = self.module_of(f)
            if len(self.frames) >= RECURSION_LIMIT:
                raise RtErr("recursion")
            self.frames.append(f)
            return True
        if isinstance(fn, VNative):
            a = []
            if args > 0:
                st = self.sp - (args - 1)
                a = self.values[st:self.sp + 1]
                self.sp = st - 1
            r = self.native(fn.name, a)
            self.push(r)
            del self.values[self.sp + 1:]
            return
        raise Panic("Expected function at the top of the stack")

    def native(self, n, a):
        o = self.o.out
        if n == "escrevaln":
            o.append(show(a[0]) + ("\n",))
            return NONE
        if n == "escreva":
            o.append(show(a[0]))
            return NONE
        if n in ("abs", "piso", "teto", "arredonda"):
            x = i2f(a[0])
            if isinstance(x, float):
                if n == "abs":
                    return VF(abs(x))
                if x != x:
                    return VInt(0)
                import math
                if x in (math.inf, -math.inf):
                    return VInt(I64MAX if x > 0 else I64MIN)
                return VInt(max(I64MIN, min(I64MAX, math.floor(x) if n == "piso" else math.ceil(x) if n == "teto" else math.trunc(x + math.copysign(0.5, x)) if abs(x) < 2.0**52 else int(x))))
            fl = lambda e: z3.ToInt(e)
            if n == "abs":
                return VF(z3.If(x >= 0, x, -x))
            if n == "piso":
                return VInt(fl(x), -10**12, 10**12)
            if n == "teto":
                return VInt(-fl(-x), -10**12, 10**12)
            return VInt(z3.If(x >= 0, fl(x + z3.RealVal("1/2")), -fl(-x + z3.RealVal("1/2"))), -10**12, 10**12)
        if n in ("leia", "leia_int", "leia_real"):
            o.append(show(a[0]))
            return self.instream.read({"leia": "texto", "leia_int": "int", "leia_real": "real"}[n])
        if n == "tam":
            if isinstance(a[0], VVec):
                return VInt(len(a[0].items))
            if isinstance(a[0], VS):
                p = norm(a[0].p)
                if all(isinstance(x, str) for x in p):
                    return VInt(len("".join(p)))
                if len(p) == 1 and isinstance(p[0], tuple):
                    return VInt(z3.Length(p[0][1]), 0, 10)
                raise sx.Inconclusive("tam of a symbolic text")
            raise Panic("tam")
        if n == "vec":
            if not isinstance(a[0], VType):
                raise Panic("vec type")
            dims = [concrete_int(take_int(d)) for d in a[1:]]
            if any(d < 0 for d in dims):
                raise RtErr("vecdim")
            def mk(ds):
                if len(ds) == 1:
                    z = {"int": VInt(0), "real": VF(0.0), "bool": FALSE, "texto": VS("")}[a[0].t]
                    return VVec([z] * ds[0])
                return VVec([mk(ds[1:]) for _ in range(ds[0])])
            return mk(dims)
        if n == "anexa":
            if not isinstance(a[0], VVec):
                raise Panic("anexa")
            a[0].items.append(a[1])
            return NONE
        if n == "remova":
            if not isinstance(a[0], VVec):
                raise Panic("remova")
            k = self.vec_idx(a[0], take_int(a[1]))
            return a[0].items.pop(k)
        if n == "txt_contem":
            p, q = norm(a[0].p), norm(a[1].p)
            if all(isinstance(x, str) for x in p + q):
                return VB("".join(q) in "".join(p))
            raise sx.Inconclusive("txt_contem on a symbolic text")
        raise Panic("native " + n)

    def op_Return(self):
        v = self.pop()
        bp = self.frames[-1].bp
        self.sp = bp - 1 if bp > -1 else self.sp
        self.frames.pop()
        self.push(v)
        if not self.frames:
            raise Panic("return from main")
        self.ctx = self.module_of(self.frames[-1])
        return True

    def seg(self, n):
        st = self.sp - (n - 1)
        if st < 0:
            raise Panic("stack underflow")
        return st

    def op_BuildStr(self):
        n = self.u(1)
        st = self.seg(n)
        parts = []
        for i in range(st, self.sp + 1):
            parts.extend(show(self.values[i]))
        self.sp = st - 1
        del self.values[self.sp + 1:]
        self.push(VS(norm(parts)))

    def op_BuildVec(self):
        n = self.u(1)
        if n == 0:
            self.push(VVec([]))
            return
        st = self.seg(n)
        v = VVec(self.values[st:self.sp + 1])
        self.sp = st - 1
        self.push(v)
        del self.values[self.sp + 1:]

    def op_BuildObj(self):
        n = self.u(1)
        r = self.pop()
        if not isinstance(r, VReg):
            raise Panic("Expected registo")
        if n == 0:
            self.push(VObj(r.name, {}))
            return
        st = self.sp - (2 * n - 1)
        if st < 0:
            raise Panic("stack underflow")
        a = self.values[st:self.sp + 1]
        del self.values[st:self.sp + 1]
        state = {}
        for k, v in zip(a[::2], a[1::2]):
            state[text_key(k)] = v
        self.sp = st - 1
        self.push(VObj(r.name, state))

    def op_BuildVariant(self):
        n = self.u(1)
        tag = take_int(self.pop())
        if n == 0:
            self.push(VVar(concrete_int(tag), ()))
            return
        st = self.seg(n)
        a = self.values[st:self.sp + 1]
        del self.values[st:self.sp + 1]
        self.sp = st - 1
        self.push(VVar(concrete_int(tag), a))

    def op_BindMatchArgs(self):
        n = self.u(1)
        st = self.sp - (n - 1)
        if st < 0:
            raise Panic("stack underflow")
        idx = [concrete_int(take_int(x)) for x in self.values[st:self.sp + 1]]
        del self.values[st:self.sp + 1]
        self.sp = st - 1
        ob = self.pop()
        if not isinstance(ob, VVar) or not ob.args:
            raise Panic("bind args")
        for i, k in enumerate(idx):
            j = self.frames[-1].bp + k
            if i >= len(ob.args) or j < 0 or j >= len(self.values):
                raise Panic("bind index")
            self.values[j] = ob.args[i]

    def op_GetProp(self):
        k = text_key(self.pop())
        r = self.pop()
        if not isinstance(r, VObj):
            raise Panic("get prop")
        if k not in r.state:
            raise Panic("missing field")
        self.push(r.state[k])

    def op_SetProp(self):
        v = self.pop()
        k = text_key(self.pop())
        r = self.pop()
        if not isinstance(r, VObj):
            raise Panic("set prop")
        r.state[k] = v

    def op_Unwrap(self):
        d = self.u(1) == 1
        dv = self.pop() if d else None
        v = self.pop()
        if isinstance(v, VNone):
            if d:
                self.push(dv)
            else:
                raise RtErr("null")
        else:
            self.push(v)

    def op_Cast(self):
        arg = self.u(1)
        t = self.pop()
        if not isinstance(t, VType):
            raise Panic("take_type")
        v = self.pop()
        if arg == 0:
            self.push(cast(v, t.t))
        elif arg == 1:
            if rt_type(v) != t.t:
                raise RtErr("cast")
            self.push(v)


class StepLimit(Exception):
    pass


for _n, _o in (("OpAdd", "+"), ("OpMinus", "-"), ("OpMul", "*"), ("OpDiv", "/"), ("OpFloorDiv", "//"), ("OpModulo", "%"),
               ("OpAnd", "e"), ("OpOr", "ou"), ("OpEq", "=="), ("OpNotEq", "!="), ("OpGreater", ">"), ("OpGreaterEq", ">="),
               ("OpLess", "<"), ("OpLessEq", "<=")):
    setattr(VM, "op_" + _n, (lambda o: lambda self: self._bin(o))(_o))


def rt_type(v):
    if isinstance(v, VS):
        return "texto"
    if isinstance(v, VInt):
        return "int"
    if isinstance(v, VF):
        return "real"
    if isinstance(v, VB):
        return "bool"
    if isinstance(v, VVec):
        return "vec"
    if isinstance(v, VObj):
        return "registo"
    if isinstance(v, VVar):
        return "uniao"
    if isinstance(v, VNone):
        return "nulo"
    raise Panic("no type for this value")


def text_key(v):
    if isinstance(v, VS) and all(isinstance(x, str) for x in v.p):
        return "".join(v.p)
    raise Panic("field name")


def take_int(v):
    if isinstance(v, VInt):
        return v
    if isinstance(v, VF):
        return ftrunc(v.e)
    raise Panic("Value is not an int")


def concrete_int(v):
    if isinstance(v.e, int):
        return v.e
    k = v.lo
    while k <= v.hi:
        if truth(v.e == k):
            return k
        k += 1
    raise sx.Inconclusive("range of a symbolic int")


def concrete_index(idx, n):
    """bounds check as the VM does it, then fork on the position"""
    if isinstance(idx.e, int):
        if idx.e < 0 or idx.e >= n:
            raise RtErr("index")
        return idx.e
    if truth(idx.e < 0) or truth(idx.e >= n):
        raise RtErr("index")
    for k in range(n - 1):
        if truth(idx.e == k):
            return k
    return n - 1


def vm_equals(l, r):
    """AmaValue::equals -> bool or z3 Bool"""
    isn = lambda v: isinstance(v, (VInt, VF))
    if isinstance(l, VInt) and isinstance(r, VInt):
        return l.e == r.e
    if isn(l) and isn(r):
        a, b = i2f(l), i2f(r)
        return a == b if isinstance(a, float) and isinstance(b, float) else rz(a) == rz(b)
    if isinstance(l, VB) and isinstance(r, VB):
        return beq(l.e, r.e)
    if isinstance(l, VS) and isinstance(r, VS):
        return str_eq(l, r)
    if isinstance(l, VNone) and isinstance(r, VNone):
        return True
    if isinstance(l, (VVec, VObj)) and type(l) is type(r):
        return l is r
    if isinstance(l, VVar) and isinstance(r, VVar):
        if l.tag != r.tag or len(l.args) != len(r.args):
            return False
        c = True
        for a, b in zip(l.args, r.args):
            c = band(c, vm_equals(a, b))
        return c
    return False


def vm_binop(op, l, r):
    isn = lambda v: isinstance(v, (VInt, VF))
    if op in ("==", "!="):
        e = vm_equals(l, r)
        return VB(e if op == "==" else bnot(e))
    if isinstance(l, VF) or isinstance(r, VF):
        t = "real"
    elif isinstance(l, VInt) and isinstance(r, VInt):
        t = "int"
    elif isinstance(l, VB) and isinstance(r, VB):
        t = "bool"
    elif isinstance(l, VS) and isinstance(r, VS):
        t = "texto"
    else:
        raise Panic("Error is not implemented")
    if op in ("+", "-", "*", "%", "/", "//"):
        if t not in ("real", "int") or not (isn(l) and isn(r)):
            raise Panic("Operand type not supported")
        if op in ("%", "/", "//"):
            z = i2f(r) if isinstance(r, VF) else r.e
            if truth(z == 0):
                raise RtErr("zero")
        if op == "//":
            if t == "int":
                return iop("//", l, r)
            q = fop("/", i2f(l), i2f(r))
            return VF(trunc_real(q))
        if op == "/":
            return VF(fop("/", i2f(l), i2f(r)))
        if t == "real":
            return VF(fop(op, i2f(l), i2f(r)))
        return iop(op, l, r)
    if op in ("e", "ou"):
        if t != "bool":
            raise Panic("Value is not a bool")
        return VB(band(l.e, r.e) if op == "e" else bor(l.e, r.e))
    if t == "real" or t == "int":
        if not (isn(l) and isn(r)):
            raise Panic("not numbers")
        if t == "int":
            return VB(sym_cmp(op, l.e, r.e))
        a, b = i2f(l), i2f(r)
        if isinstance(a, float) and isinstance(b, float):
            return VB(sym_cmp(op, a, b))
        return VB(sym_cmp(op, rz(a), rz(b)))
    raise Panic("Operand type not supported")


def cast(v, t):
    if t == "texto":
        return VS(show(v))
    if t == "int":
        if isinstance(v, VF):
            return ftrunc(v.e)
        if isinstance(v, VS):
            s = num_text(v)
            if not isinstance(s, str):
                return s
            if re.match(r"^[+-]?[0-9]+\Z", s) and I64MIN <= int(s) <= I64MAX:
                return VInt(int(s))
            raise RtErr("cast")
        raise Panic("cast")
    if t == "real":
        if isinstance(v, VInt):
            return VF(i2f(v))
        if isinstance(v, VS):
            if len(v.p) == 1 and isinstance(v.p[0], (VInt, VF)):      # shown and read back: the same value
                return VF(i2f(v.p[0]))
            s = conc_text(v)
            if _FLOAT.match(s):
                return VF(float(s))
            raise RtErr("cast")
        raise Panic("cast")
    if t == "bool":
        if isinstance(v, VInt):
            return VB(v.e != 0)
        if isinstance(v, VF):
            return VB(v.e != 0)
        if isinstance(v, VS):
            return VB(bnot(str_eq(v, VS(""))))
        raise Panic("cast")
    raise Panic("Fraudulent cast")


def num_text(v):
    p = norm(v.p)
    if all(isinstance(x, str) for x in p):
        return "".join(p)
    n = text_int(p)
    if n is None:
        raise RtErr("cast")
    return n


def conc_text(v):
    p = norm(v.p)
    if all(isinstance(x, str) for x in p):
        return "".join(p)
    raise sx.Inconclusive("numeric conversion of a symbolic text")


def run_raw(raw, instream, step_limit=6000):
    try:
        vm = VM(raw, instream, step_limit)
    except (LoadError, Panic) as e:
        o = Outcome()
        o.end = ("panic", "load: " + str(e))
        return o
    except Exception as e:
        if isinstance(e, sx.Inconclusive):
            raise
        o = Outcome()
        o.end = ("panic", "load: " + repr(e))
        return o
    try:
        return vm.run()
    except StepLimit:
        return vm.o
