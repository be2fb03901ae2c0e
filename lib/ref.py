"""Reference mini-Amanda: program trees that print themselves as source text and
an evaluator written from the language documentation, independent of the
compiler.  Values and symbolic arithmetic come from vals.py."""
from vals import *
import sx
import re

PREC = {"==": 1, "!=": 1, ">": 2, ">=": 2, "<": 2, "<=": 2, "+": 3, "-": 3, "ou": 3,
        "*": 4, "/": 4, "//": 4, "%": 4, "e": 4}
UN, POST, ATOM = 5, 6, 7


def tname(t):
    if isinstance(t, str):
        return t
    k = t[0]
    if k == "vec":
        return "[" + tname(t[1]) + "]"
    if k == "opt":
        return tname(t[1]) + "?"
    return t[1]


def ren(e, p):
    s, q = e.r()
    return s if q >= p else "(" + s + ")"


def coerce(v, t):
    """store v in a place of static type t"""
    if isinstance(v, VInt) and (t == "real" or t == ("opt", "real")):
        return VF(i2f(v))
    return v


class Break(Exception):
    pass


class Cont(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class E:
    pass


class Lit(E):
    def __init__(self, text, v, ty):
        self.text, self.v, self.ty = text, v, ty

    def r(self):
        return self.text, ATOM

    def ev(self, en):
        return self.v


def I(n):
    return Lit(str(n), VInt(n), "int")


def R(f):
    t = show_float(f)
    return Lit(t, VF(f), "real")


def B(b):
    return Lit("verdadeiro" if b else "falso", VB(b), "bool")


def S(s, q='"'):
    return Lit(q + s.replace("\\", "\\\\").replace(q, "\\" + q).replace("\n", "\\n") + q, VS(s), "texto")


NULO = Lit("nulo", NONE, "nulo")


class Var(E):
    def __init__(self, name, ty="int"):
        self.name, self.ty = name, ty

    def r(self):
        return self.name, ATOM

    def ev(self, en):
        return en.get(self.name).v


class Read(E):
    def __init__(self, ty):
        self.ty = ty

    def r(self):
        return {"int": 'leia_int("")', "real": 'leia_real("")', "texto": 'leia("")'}[self.ty], POST

    def ev(self, en):
        en.g.out.append(("",))
        return en.g.ins.read(self.ty)


class Bin(E):
    def __init__(self, op, l, r, ty=None, paren=False):
        self.op, self.l, self.rr, self.paren = op, l, r, paren
        if ty is None:
            if op in ("==", "!=", "<", ">", "<=", ">=", "e", "ou"):
                ty = "bool"
            elif op == "/":
                ty = "real"
            else:
                ty = "real" if "real" in (l.ty, r.ty) else "int"
        self.ty = ty

    def r(self):
        p = PREC[self.op]
        s = f"{ren(self.l, p)} {self.op} {ren(self.rr, p + 1)}"
        return (f"({s})", ATOM) if self.paren else (s, p)

    def ev(self, en):
        a = self.l.ev(en)
        b = self.rr.ev(en)
        return binop(self.op, a, b)


def binop(op, a, b):
    """documented meaning of the operators"""
    if op in ("==", "!=") and (isinstance(a, VNone) or isinstance(b, VNone)):
        same = isinstance(a, VNone) and isinstance(b, VNone)
        return VB(same if op == "==" else not same)
    num = lambda v: isinstance(v, (VInt, VF))
    if op in ("==", "!=") and not (num(a) and num(b)):
        e = ref_equal(a, b)
        return VB(e if op == "==" else bnot(e))
    if op in ("+", "-", "*"):
        if isinstance(a, VInt) and isinstance(b, VInt):
            return iop(op, a, b)
        return VF(fop(op, i2f(a), i2f(b)))
    if op in ("/", "//", "%"):
        if truth(b.e == 0):
            raise RtErr("zero")
        if op == "/":
            return VF(fop("/", i2f(a), i2f(b)))
        if isinstance(a, VInt) and isinstance(b, VInt):
            return iop(op, a, b)
        if op == "//":
            return VF(trunc_real(fop("/", i2f(a), i2f(b))))
        return VF(fop("%", i2f(a), i2f(b)))
    if op == "e":
        return VB(band(a.e, b.e))
    if op == "ou":
        return VB(bor(a.e, b.e))
    if num(a) and num(b):
        if isinstance(a, VInt) and isinstance(b, VInt):
            return VB(sym_cmp(op, a.e, b.e))
        x, y = i2f(a), i2f(b)
        if not (isinstance(x, float) and isinstance(y, float)):
            x, y = rz(x), rz(y)
        return VB(sym_cmp(op, x, y))
    raise sx.Inconclusive("operands outside the reference")


def ref_equal(a, b):
    """equality: numbers by value, texts by content, objects by identity, anything
    else of different kinds is different"""
    num = lambda v: isinstance(v, (VInt, VF))
    if num(a) and num(b):
        return binop("==", a, b).e
    if type(a) is not type(b):
        return False
    if isinstance(a, VB):
        return beq(a.e, b.e)
    if isinstance(a, VS):
        return str_eq(a, b)
    if isinstance(a, (VVec, VObj)):
        return a is b
    if isinstance(a, VVar):
        if a.tag != b.tag:
            return False
        c = True
        for x, y in zip(a.args, b.args):
            c = band(c, ref_equal(x, y))
        return c
    raise sx.Inconclusive("equality outside the reference")


class Un(E):
    def __init__(self, op, e):
        self.op, self.e = op, e
        self.ty = "bool" if op == "nao" else e.ty

    def r(self):
        s = ren(self.e, UN)
        return (f"nao {s}" if self.op == "nao" else f"{self.op}{s}"), UN

    def ev(self, en):
        v = self.e.ev(en)
        if self.op == "nao":
            return VB(bnot(v.e))
        if self.op == "+":
            return v
        if isinstance(v, VF):
            return VF(-v.e)
        return fit(-v.e, -v.hi, -v.lo)


class Par(E):
    """explicit parentheses"""
    def __init__(self, e):
        self.e, self.ty = e, e.ty

    def r(self):
        return "(" + self.e.r()[0] + ")", ATOM

    def ev(self, en):
        return self.e.ev(en)


class Call(E):
    def __init__(self, fn, args, ty=None):
        self.fn, self.args = fn, args
        self.ty = ty

    def r(self):
        return f"{self.fn}({', '.join(a.r()[0] for a in self.args)})", POST

    def ev(self, en):
        vs = [a.ev(en) for a in self.args]
        return en.g.call(en.g.funcs[self.fn], vs)


class Nat(E):
    """built-in function"""
    def __init__(self, fn, args, ty):
        self.fn, self.args, self.ty = fn, args, ty

    def r(self):
        return f"{self.fn}({', '.join(a.r()[0] for a in self.args)})", POST

    def ev(self, en):
        f = self.fn
        if f == "vec":
            dims = [a.ev(en) for a in self.args[1:]]
            el = self.args[0].name
            ds = [conc_int(d) for d in dims]
            if any(d < 0 for d in ds):
                raise RtErr("vecdim")
            z = zero(el)
            mk = lambda q: VVec([z] * q[0]) if len(q) == 1 else VVec([mk(q[1:]) for _ in range(q[0])])
            return mk(ds)
        a = [x.ev(en) for x in self.args]
        if f in ("a.escrevaln", "escreva", "escrevaln"):
            en.g.out.append(show(a[0]) + (() if f == "escreva" else ("\n",)))
            return NONE
        f = f.split(".")[-1]
        if f in ("abs", "piso", "teto", "arredonda"):
            return mathfn(f, i2f(a[0]))
        if f == "tam":
            if isinstance(a[0], VVec):
                return VInt(len(a[0].items))
            p = norm(a[0].p)
            if all(isinstance(x, str) for x in p):
                return VInt(len("".join(p)))
            if len(p) == 1 and isinstance(p[0], tuple):
                return VInt(z3.Length(p[0][1]), 0, 10)
            raise sx.Inconclusive("tam")
        if f == "anexa":
            a[0].items.append(coerce(a[1], self.args[0].ty[1]))
            return NONE
        if f == "remova":
            return a[0].items.pop(index(a[1], len(a[0].items)))
        raise NotImplementedError(f)


def mathfn(f, x):
    """the integer at or below / at or above / nearest to x (ties away from zero); the size of x"""
    if isinstance(x, float):
        from fractions import Fraction
        if x != x or x in (float("inf"), float("-inf")):
            return VF(abs(x)) if f == "abs" else VInt(0 if x != x else I64MAX if x > 0 else I64MIN)
        q = Fraction(x)
        if f == "abs":
            return VF(x if q > 0 else 0.0 if q == 0 else -x)
        lo = q.numerator // q.denominator
        n = {"piso": lo, "teto": lo if lo == q else lo + 1, "arredonda": lo if q - lo < Fraction(1, 2) or (q - lo == Fraction(1, 2) and q < 0) else lo + 1}[f]
        return VInt(max(I64MIN, min(I64MAX, n)))
    if f == "abs":
        return VF(-x if truth(x < 0) else x)
    n = z3.ToInt(x)                     # n <= x < n + 1
    d = x - z3.ToReal(n)
    h = z3.RealVal("1/2")
    up = {"piso": z3.BoolVal(False), "teto": d != 0, "arredonda": z3.Or(d > h, z3.And(d == h, x > 0))}[f]
    return VInt(n + 1 if truth(up) else n, -10**12, 10**12)


def zero(t):
    return {"int": VInt(0), "real": VF(0.0), "bool": FALSE, "texto": VS("")}[t]


def conc_int(v):
    if isinstance(v.e, int):
        return v.e
    for k in range(v.lo, v.hi + 1):
        if truth(v.e == k):
            return k
    raise sx.Inconclusive("int range")


def index(v, n):
    """position addressed by v in a vector of n elements; outside: index error"""
    if isinstance(v.e, int):
        if not 0 <= v.e < n:
            raise RtErr("index")
        return v.e
    for k in range(n):
        if truth(v.e == k):
            return k
    raise RtErr("index")


class MCall(E):
    def __init__(self, obj, name, args, ty, reg):
        self.obj, self.name, self.args, self.ty, self.reg = obj, name, args, ty, reg

    def r(self):
        return f"{ren(self.obj, POST)}.{self.name}({', '.join(a.r()[0] for a in self.args)})", POST

    def ev(self, en):
        o = self.obj.ev(en)
        vs = [a.ev(en) for a in self.args]
        return en.g.call(en.g.methods[self.reg, self.name], vs, alvo=o)


class Idx(E):
    def __init__(self, v, i, ty=None):
        self.v, self.i = v, i
        self.ty = ty or (v.ty[1] if isinstance(v.ty, tuple) else "texto")

    def r(self):
        return f"{ren(self.v, POST)}[{self.i.r()[0]}]", POST

    def ev(self, en):
        v = self.v.ev(en)
        i = self.i.ev(en)
        if isinstance(v, VS):
            s = norm(v.p)
            if not all(isinstance(x, str) for x in s):
                raise sx.Inconclusive("index of symbolic text")
            s = "".join(s)
            return VS(s[index(i, len(s))])
        return v.items[index(i, len(v.items))]


class Fld(E):
    def __init__(self, o, f, ty):
        self.o, self.f, self.ty = o, f, ty

    def r(self):
        return f"{ren(self.o, POST)}.{self.f}", POST

    def ev(self, en):
        o = self.o.ev(en)
        if isinstance(o, VNone):
            raise RtErr("null")
        return o.state[self.f]


class New(E):
    def __init__(self, reg, inits):
        self.reg, self.inits, self.ty = reg, inits, ("reg", reg)

    def r(self):
        return f"{self.reg}({', '.join(f'{f}: {e.r()[0]}' for f, e in self.inits)})", POST

    def ev(self, en):
        d = en.g.regs[self.reg]
        st = {}
        for f, e in self.inits:
            st[f] = coerce(e.ev(en), d.ftypes[f])
        return VObj(self.reg, st)


class Variant(E):
    def __init__(self, uni, name, args=()):
        self.uni, self.name, self.args, self.ty = uni, name, args, ("uni", uni)

    def r(self):
        a = f"({', '.join(a.r()[0] for a in self.args)})" if self.args else ""
        return f"{self.uni}::{self.name}{a}", POST

    def ev(self, en):
        tys = en.g.unis[self.uni].vs[self.name]
        return VVar((self.uni, self.name), [coerce(a.ev(en), t) for a, t in zip(self.args, tys)])


class VecLit(E):
    def __init__(self, el, items):
        self.el, self.items, self.ty = el, items, ("vec", el)

    def r(self):
        return f"[{tname(self.el)}: {', '.join(e.r()[0] for e in self.items)}]", ATOM

    def ev(self, en):
        return VVec([coerce(e.ev(en), self.el) for e in self.items])


class Fmt(E):
    """parts: str (literal) or E"""
    ty = "texto"

    def __init__(self, parts, q='"'):
        self.parts, self.q = parts, q

    def r(self):
        out = []
        for p in self.parts:
            other = "'" if self.q == '"' else '"'
            out.append(p.replace("\n", "\\n") if isinstance(p, str) else "{" + p.r()[0].replace(self.q * 2, other * 2) + "}")
        return f"f{self.q}{''.join(out)}{self.q}", ATOM

    def ev(self, en):
        ps = []
        for p in self.parts:
            if isinstance(p, str):
                ps.append(p)
            else:
                ps.extend(show(p.ev(en)))
        return VS(norm(ps))


class Conv(E):
    """e :> ty"""
    def __init__(self, e, ty):
        self.e, self.ty = e, ty

    def r(self):
        return f"{ren(self.e, POST)} :> {tname(self.ty)}", UN

    def ev(self, en):
        v = self.e.ev(en)
        ty = self.ty[1] if isinstance(self.ty, tuple) else self.ty      # T? holds a T or nulo
        if isinstance(v, VNone) and self.e.ty != "indef":
            return v
        if self.e.ty == "indef" and ty != "indef":
            want = {"int": VInt, "real": VF, "bool": VB, "texto": VS}[ty]
            if not isinstance(v, want):
                raise RtErr("cast")
            return v
        return v if ty == "indef" else convert(v, ty)


def convert(v, t):
    if t == "texto":
        return v if isinstance(v, VS) else VS(show(v))
    if t == "int":
        if isinstance(v, VInt):
            return v
        if isinstance(v, VF):
            return ftrunc(v.e)
        if isinstance(v, VS):
            return parse_text(v, int)
    if t == "real":
        if isinstance(v, VF):
            return v
        if isinstance(v, VInt):
            return VF(i2f(v))
        if isinstance(v, VS):
            return parse_text(v, float)
    if t == "bool":
        if isinstance(v, VB):
            return v
        if isinstance(v, VS):
            return VB(bnot(str_eq(v, VS(""))))
        return VB(v.e != 0)
    raise sx.Inconclusive("conversion outside the reference")


RINT = re.compile(r"[+-]?[0-9]+\Z")
RREAL = re.compile(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?\Z")


def parse_text(v, k):
    """the number a text spells out, or the conversion error"""
    p = norm(v.p)
    if all(isinstance(x, str) for x in p):
        s = "".join(p)
        if k is int and RINT.match(s) and I64MIN <= int(s) <= I64MAX:
            return VInt(int(s))
        if k is float and RREAL.match(s):
            return VF(float(s))
        raise RtErr("cast")
    if k is float:
        if len(p) == 1 and isinstance(p[0], (VInt, VF)):
            return VF(i2f(p[0]))
        raise sx.Inconclusive("parse of symbolic text")
    n = text_int(p)
    if n is None:
        raise RtErr("cast")
    return n


class Valor(E):
    def __init__(self, e):
        self.e, self.ty = e, e.ty[1]

    def r(self):
        return f"{ren(self.e, POST)}.valor", POST

    def ev(self, en):
        v = self.e.ev(en)
        if isinstance(v, VNone):
            raise RtErr("null")
        return v


class ValorOu(E):
    def __init__(self, e, d):
        self.e, self.d, self.ty = e, d, e.ty[1]

    def r(self):
        return f"{ren(self.e, POST)}.valor_ou({self.d.r()[0]})", POST

    def ev(self, en):
        v = self.e.ev(en)
        d = coerce(self.d.ev(en), self.ty)
        return d if isinstance(v, VNone) else v


# ---------------------------------------------------------------- patterns
class PLit:
    def __init__(self, lit):
        self.lit = lit

    def r(self):
        return self.lit.r()[0]

    def match(self, v, b):
        if isinstance(v, VInt):
            return truth(v.e == self.lit.v.e)
        if isinstance(v, VB):
            return truth(beq(v.e, self.lit.v.e))
        return truth(str_eq(v, self.lit.v))


class PBind:
    def __init__(self, name, ty=None):
        self.name, self.ty = name, ty

    def r(self):
        return self.name

    def match(self, v, b):
        b.append((self.name, v))
        return True


class PVar:
    def __init__(self, uni, name, subs=()):
        self.uni, self.name, self.subs = uni, name, subs

    def r(self):
        a = f"({', '.join(p.r() for p in self.subs)})" if self.subs else ""
        return f"{self.uni}::{self.name}{a}"

    def match(self, v, b):
        if v.tag != (self.uni, self.name):
            return False
        for p, x in zip(self.subs, v.args):
            if not p.match(x, b):
                return False
        return True


class Iguala(E):
    """arms: (pattern, E) or (pattern, [stmts], E) for a block arm"""
    def __init__(self, target, arms, ty):
        self.target, self.arms, self.ty = target, arms, ty
        self.alines = {}

    def r(self):
        raise NotImplementedError

    def lines(self, ind):
        """-> (first text, following lines)"""
        out = []
        for a in self.arms:
            if len(a) == 2:
                out.append((ind + 1, f"{a[0].r()} => {a[1].r()[0]}", id(a)))
            else:
                out.append((ind + 1, f"{a[0].r()} => faca", None))
                out.append((ind + 2, a[1], None))
                if a[2] is not None:
                    out.append((ind + 2, f"produz {a[2].r()[0]}", id(a)))
                out.append((ind + 1, "fim", None))
        return f"iguala {self.target.r()[0]}", out

    def ev(self, en):
        here = en.g.root.lines[-1]
        v = self.ev1(en)
        en.g.at(here)
        return v

    def ev1(self, en):
        v = self.target.ev(en)
        for a in self.arms:
            b = []
            if a[0].match(v, b):
                sub = en.child()
                for n, x in b:
                    sub.vars[n] = Cell(None, x)
                if len(a) == 3:
                    run_block(a[1], sub, own=True)
                    if a[2] is None:
                        return NONE
                    en.g.at(self.alines.get(id(a)))
                    return coerce(a[2].ev(sub), self.ty)
                en.g.at(self.alines.get(id(a)))
                return coerce(a[1].ev(sub), self.ty)
        raise NoArm()


class NoArm(Exception):
    pass


# ---------------------------------------------------------------- statements
class Cell:
    __slots__ = ("ty", "v")

    def __init__(self, ty, v):
        self.ty, self.v = ty, v


class Env:
    def __init__(self, g, parent=None):
        self.g, self.parent, self.vars = g, parent, {}

    def child(self):
        return Env(self.g, self)

    def get(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                return e.vars[n]
            e = e.parent
        raise KeyError(n)


class St:
    line = None


class Decl(St):
    def __init__(self, name, ty, e=None):
        self.name, self.ty, self.e = name, ty, e

    def emit(self, o, ind):
        if isinstance(self.e, Iguala):
            self.line = o.iguala(ind, f"{self.name}: {tname(self.ty)} = ", self.e)
            return
        s = f"{self.name}: {tname(self.ty)}"
        if self.e is not None:
            s += f" = {self.e.r()[0]}"
        self.line = o.add(ind, s)

    def ex(self, en):
        v = coerce(self.e.ev(en), self.ty) if self.e is not None else zero(self.ty)
        en.vars[self.name] = Cell(self.ty, v)


class Asg(St):
    """targets: list of Var/Idx/Fld (left to right), op '=' or '+=' ..."""
    def __init__(self, targets, e, op="="):
        self.targets = targets if isinstance(targets, list) else [targets]
        self.e, self.op = e, op

    def emit(self, o, ind):
        lhs = " = ".join(t.r()[0] for t in self.targets)
        if isinstance(self.e, Iguala):
            self.line = o.iguala(ind, f"{lhs} = ", self.e)
            return
        self.line = o.add(ind, f"{lhs} {self.op} {self.e.r()[0]}")

    def ex(self, en):
        if self.op != "=":
            t = self.targets[0]
            if isinstance(t, Var):
                c = en.get(t.name)
                c.v = coerce(binop(self.op[:-1], c.v, self.e.ev(en)), c.ty)
            else:
                get, put = place(t, en)
                put(binop(self.op[:-1], get(), self.e.ev(en)))
            return
        self.chain(en, self.targets)

    def chain(self, en, ts):
        """a target's object and index are evaluated before what is assigned"""
        if not ts:
            return self.e.ev(en)
        t = ts[0]
        if isinstance(t, Var):
            v = self.chain(en, ts[1:])
            c = en.get(t.name)
            c.v = v = coerce(v, c.ty)
            return v
        get, put = place(t, en)
        return put(self.chain(en, ts[1:]))


def place(t, en):
    if isinstance(t, Idx):
        v = t.v.ev(en)
        i = t.i.ev(en)
        box = {}

        def pos():
            if "k" not in box:
                box["k"] = index(i, len(v.items))
            return box["k"]

        def put(x):
            v.items[pos()] = x = coerce(x, t.ty)
            return x
        return (lambda: v.items[pos()]), put
    o = t.o.ev(en)
    if isinstance(o, VNone):
        raise RtErr("null")

    def putf(x):
        o.state[t.f] = x = coerce(x, t.ty)
        return x
    return (lambda: o.state[t.f]), putf


class Mostra(St):
    def __init__(self, e):
        self.e = e

    def emit(self, o, ind):
        if isinstance(self.e, Iguala):
            self.line = o.iguala(ind, "mostra ", self.e)
            return
        self.line = o.add(ind, f"mostra {self.e.r()[0]}")

    def ex(self, en):
        v = self.e.ev(en)
        en.g.out.append(show(v) + ("\n",))


class ES(St):
    """expression statement"""
    def __init__(self, e):
        self.e = e

    def emit(self, o, ind):
        if isinstance(self.e, Iguala):
            self.line = o.iguala(ind, "", self.e)
            return
        self.line = o.add(ind, self.e.r()[0])

    def ex(self, en):
        self.e.ev(en)


class If(St):
    def __init__(self, arms, els=None):
        self.arms, self.els = arms, els
        self.lines = []

    def emit(self, o, ind):
        self.lines = []
        for k, (c, b) in enumerate(self.arms):
            self.lines.append(o.add(ind, f"{'se' if k == 0 else 'senaose'} {c.r()[0]} entao"))
            o.block(b, ind + 1)
        if self.els is not None:
            o.add(ind, "senao")
            o.block(self.els, ind + 1)
        o.add(ind, "fim")
        self.line = self.lines[0]

    def ex(self, en):
        for k, (c, b) in enumerate(self.arms):
            en.g.at(self.lines[k] if self.lines else None)
            if truth(c.ev(en).e):
                run_block(b, en)
                return
        if self.els is not None:
            run_block(self.els, en)


class While(St):
    def __init__(self, c, body):
        self.c, self.body = c, body

    def emit(self, o, ind):
        self.line = o.add(ind, f"enquanto {self.c.r()[0]} faca")
        o.block(self.body, ind + 1)
        o.add(ind, "fim")

    def ex(self, en):
        while True:
            en.g.tick()
            en.g.at(self.line)
            if not truth(self.c.ev(en).e):
                return
            try:
                run_block(self.body, en)
            except Break:
                return
            except Cont:
                pass


class For(St):
    def __init__(self, var, a, b, body, inc=None):
        self.var, self.a, self.b, self.body, self.inc = var, a, b, body, inc

    def emit(self, o, ind):
        inc = f" inc {self.inc.r()[0]}" if self.inc is not None else ""
        self.line = o.add(ind, f"para {self.var} de {self.a.r()[0]}..{self.b.r()[0]}{inc} faca")
        o.block(self.body, ind + 1)
        o.add(ind, "fim")

    def ex(self, en):
        v = self.a.ev(en)
        sub = en.child()
        sub.vars[self.var] = Cell("int", v)
        while True:
            en.g.tick()
            en.g.at(self.line)
            c = sub.vars[self.var]
            if not truth(binop("<", c.v, self.b.ev(sub)).e):
                return
            try:
                inner = sub.child()
                run_block(self.body, inner, own=True)
            except Break:
                return
            except Cont:
                pass
            en.g.at(self.line)
            inc = self.inc.ev(sub) if self.inc is not None else VInt(1)
            c.v = binop("+", c.v, inc)


class Switch(St):
    def __init__(self, e, cases, els=None):
        self.e, self.cases, self.els = e, cases, els

    def emit(self, o, ind):
        self.line = o.add(ind, f"escolha {self.e.r()[0]}:")
        self.clines = []
        for lit, b in self.cases:
            self.clines.append(o.add(ind + 1, f"caso {lit.r()[0]}:"))
            o.block(b, ind + 2)
        if self.els is not None:
            o.add(ind + 1, "senao:")
            o.block(self.els, ind + 2)
        o.add(ind, "fim")

    def ex(self, en):
        v = self.e.ev(en)
        for lit, b in self.cases:
            if truth(binop("==", v, lit.ev(en)).e):
                run_block(b, en)
                return
        if self.els is not None:
            run_block(self.els, en)


class BreakS(St):
    def emit(self, o, ind):
        self.line = o.add(ind, "quebra")

    def ex(self, en):
        raise Break()


class ContS(St):
    def emit(self, o, ind):
        self.line = o.add(ind, "continua")

    def ex(self, en):
        raise Cont()


class RetS(St):
    def __init__(self, e=None):
        self.e = e

    def emit(self, o, ind):
        if isinstance(self.e, Iguala):
            self.line = o.iguala(ind, "retorna ", self.e)
            return
        self.line = o.add(ind, "retorna" + (f" {self.e.r()[0]}" if self.e is not None else ""))

    def ex(self, en):
        raise Ret(self.e.ev(en) if self.e is not None else NONE)


class IgualaS(St):
    """iguala as a statement with block arms: (pattern, [stmts])"""
    def __init__(self, target, arms):
        self.target, self.arms = target, arms

    def emit(self, o, ind):
        self.line = o.add(ind, f"iguala {self.target.r()[0]}")
        for p, b in self.arms:
            o.add(ind + 1, f"{p.r()} => faca")
            o.block(b, ind + 2)
            o.add(ind + 1, "fim")
        o.add(ind, "fim")

    def ex(self, en):
        v = self.target.ev(en)
        for p, b in self.arms:
            bs = []
            if p.match(v, bs):
                sub = en.child()
                for n, x in bs:
                    sub.vars[n] = Cell(None, x)
                run_block(b, sub, own=True)
                return
        raise NoArm()


class SeIguala(St):
    def __init__(self, e, pat, body, els=None):
        self.e, self.pat, self.body, self.els = e, pat, body, els

    def emit(self, o, ind):
        self.line = o.add(ind, f"se iguala {self.e.r()[0]} => {self.pat.r()} entao")
        o.block(self.body, ind + 1)
        if self.els is not None:
            o.add(ind, "senao")
            o.block(self.els, ind + 1)
        o.add(ind, "fim")

    def ex(self, en):
        v = self.e.ev(en)
        bs = []
        if self.pat.match(v, bs):
            sub = en.child()
            for n, x in bs:
                sub.vars[n] = Cell(None, x)
            run_block(self.body, sub, own=True)
        elif self.els is not None:
            run_block(self.els, en)


class Raw(St):
    """verbatim line without effect"""
    def __init__(self, text):
        self.text = text

    def emit(self, o, ind):
        self.line = o.add(ind, self.text)

    def ex(self, en):
        pass


class Func(St):
    def __init__(self, name, params, ret, body, reg=None):
        self.name, self.params, self.ret, self.body, self.reg = name, params, ret, body, reg

    def emit(self, o, ind):
        ps = [f"{n}: {tname(t)}" for n, t in self.params]
        if self.reg:
            ps = ["alvo"] + ps
        r = f": {tname(self.ret)}" if self.ret else ""
        head = f"met {self.reg}::{self.name}" if self.reg else f"func {self.name}"
        self.line = o.add(ind, f"{head}({', '.join(ps)}){r}")
        o.block(self.body, ind + 1)
        o.add(ind, "fim")

    def ex(self, en):
        pass


class RegDef(St):
    def __init__(self, name, fields):
        self.name, self.fields = name, fields
        self.ftypes = dict(fields)

    def emit(self, o, ind):
        self.line = o.add(ind, f"registo {self.name}")
        for f, t in self.fields:
            o.add(ind + 1, f"{f}: {tname(t)}")
        o.add(ind, "fim")

    def ex(self, en):
        pass


class UniDef(St):
    def __init__(self, name, variants):
        self.name, self.variants = name, variants
        self.vs = dict(variants)

    def emit(self, o, ind):
        self.line = o.add(ind, f"uniao {self.name}")
        for k, (v, ts) in enumerate(self.variants):
            a = f"({', '.join(tname(t) for t in ts)})" if ts else ""
            o.add(ind + 1, f"{v}{a}" + ("," if k < len(self.variants) - 1 else ""))
        o.add(ind, "fim")

    def ex(self, en):
        pass


class Out:
    def __init__(self):
        self.ls = []

    def add(self, ind, s):
        self.ls.append("  " * ind + s)
        return len(self.ls)

    def block(self, b, ind):
        for s in b:
            s.emit(self, ind)

    def iguala(self, ind, head, ig):
        first, rest = ig.lines(ind)
        ln = self.add(ind, head + first)
        for k, t, a in rest:
            if isinstance(t, list):
                self.block(t, k)
            else:
                n = self.add(k, t)
                if a is not None:
                    ig.alines[a] = n
        self.add(ind, "fim")
        return ln


class Multi:
    """a program of several modules: name -> statements, `main` among them"""

    def __init__(self, mods):
        self.mods = mods


class Usa(St):
    """mode: None (all the definitions) | alias name | list of items"""

    def __init__(self, mod, mode=None, path=None):
        self.mod, self.mode, self.path = mod, mode, path or f'"{mod}"'

    def emit(self, o, ind):
        m = self.mode
        self.line = o.add(ind, f"usa {self.path}" + ("" if m is None else f" => {m}" if isinstance(m, str) else f" => [{', '.join(m)}]"))

    def ex(self, en):
        g, t = en.g, en.g.load(self.mod)
        for k, f in t.methods.items():
            g.methods[f"{self.mod}:{k[0]}" if k[0] in t.regs else k[0], k[1]] = f
        for mine, theirs in ((g.funcs, t.funcs), (g.regs, t.regs), (g.unis, t.unis), (en.vars, t.genv.vars)):
            for n, d in theirs.items():
                if isinstance(self.mode, list) and n not in self.mode:
                    continue
                p = f"{self.mode}." if isinstance(self.mode, str) else ""
                mine[p + n] = d
                if theirs is t.regs:
                    for (r, m), f in t.methods.items():
                        if r == n:
                            g.methods[p + n, m] = f


def render(prog):
    if isinstance(prog, Multi):
        return "".join(f"#### ficheiro {n}.ama\n{render(b)}" for n, b in prog.mods.items())
    o = Out()
    o.block(prog, 0)
    return "\n".join(o.ls) + "\n"


def run_block(b, en, own=False):
    sub = en if own else en.child()
    for s in b:
        en.g.tick()
        en.g.at(s.line)
        s.ex(sub)


class Glob:
    def __init__(self, prog, ins, limit=3000, root=None):
        if isinstance(prog, Multi):
            self.mods, self.loaded, prog = prog.mods, {}, prog.mods["main"]
        self.root = root or self
        self.ins = ins
        self.out = self.root.out if root else []
        self.funcs, self.methods, self.regs, self.unis = {}, {}, {}, {}
        for s in prog:
            if isinstance(s, Func):
                s.home = self
                if s.reg:
                    self.methods[s.reg, s.name] = s
                else:
                    self.funcs[s.name] = s
            elif isinstance(s, RegDef):
                self.regs[s.name] = s
            elif isinstance(s, UniDef):
                self.unis[s.name] = s
        self.genv = Env(self)
        if root is None:
            self.lines = [None]
            self.ticks = 0
            self.limit = limit

    def load(self, name):
        """the module, run once, before what follows in the module that uses it"""
        w = self.root
        if name not in w.loaded:
            body = w.mods.get(name, [])         # a native module has no body
            g = w.loaded[name] = Glob(body, self.ins, root=w)
            saved, w.lines = w.lines, [None]
            for s in body:
                w.tick()
                w.at(s.line)
                s.ex(g.genv)
            w.lines = saved
        return w.loaded[name]

    def at(self, line):
        self.root.lines[-1] = line

    def tick(self):
        w = self.root
        w.ticks += 1
        if w.ticks > w.limit:
            raise sx.PathEnd()        # outside the step bound

    def call(self, f, vs, alvo=None):
        en = f.home.genv.child()
        for (n, t), v in zip(f.params, vs):
            en.vars[n] = Cell(t, coerce(v, t))
        if alvo is not None:
            en.vars["alvo"] = Cell(None, alvo)
        self.root.lines.append(f.line)
        try:
            run_block(f.body, en, own=True)
            v = NONE
        except Ret as r:
            v = coerce(r.v, f.ret) if f.ret else r.v
        self.root.lines.pop()
        return v


class RefOut:
    pass


def run(prog, ins, limit=3000):
    g = Glob(prog, ins, limit)
    o = RefOut()
    o.lines = []
    try:
        for s in prog.mods["main"] if isinstance(prog, Multi) else prog:
            g.tick()
            g.at(s.line)
            s.ex(g.genv)
        o.end = ("ok",)
    except RtErr as e:
        o.end = ("err", e.kind)
        o.lines = list(g.lines)
    o.out = g.out
    return o
