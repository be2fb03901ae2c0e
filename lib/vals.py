"""Values shared by the symbolic VM and the reference evaluator, with symbolic
arithmetic.  ints: Python int or z3 Int with an interval; reals: Python float
(dyadic) or z3 Real (inputs are multiples of 1/4, so + - * and comparisons are
exact in double precision too; `/` and real `%` of symbolic operands are the
same uninterpreted function on both sides); bools; texts as piece lists."""
import z3, fractions
import sx

I64MIN, I64MAX = -2**63, 2**63 - 1


class RtErr(Exception):
    """an Amanda run-time error"""
    def __init__(self, kind, msg=""):
        super().__init__(kind)
        self.kind = kind


class Panic(Exception):
    """the VM would panic (crash)"""


class V:
    pass


class VInt(V):
    __slots__ = ("e", "lo", "hi")

    def __init__(self, e, lo=None, hi=None):
        if isinstance(e, int):
            lo = hi = e
        self.e, self.lo, self.hi = e, lo, hi

    def __repr__(self):
        return f"Int({self.e})"


class VF(V):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"Real({self.e})"


class VB(V):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"Bool({self.e})"


class VS(V):
    """text: tuple of pieces, each a str, or ('s', z3 String), or a VInt/VF/VB shown"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = (p,) if isinstance(p, str) else tuple(p)

    def __repr__(self):
        return f"Text({self.p})"


class VNone(V):
    def __repr__(self):
        return "nulo"


class VVec(V):
    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return f"Vec({self.items})"


class VObj(V):
    def __init__(self, reg, state):
        self.reg, self.state = reg, state

    def __repr__(self):
        return f"Obj({self.reg},{self.state})"


class VVar(V):
    def __init__(self, tag, args):
        self.tag, self.args = tag, tuple(args)

    def __repr__(self):
        return f"Variant({self.tag},{self.args})"


NONE = VNone()
TRUE, FALSE = VB(True), VB(False)


def is_sym(x):
    return isinstance(x, z3.ExprRef)


def truth(b):
    """decide a bool expression (fork)"""
    if isinstance(b, bool):
        return b
    return sx.CUR.branch(b)


# ---------------------------------------------------------------- reals
def rz(e):
    if isinstance(e, float):
        return z3.RealVal(fractions.Fraction(e))
    return e


def conc(e):
    """collapse z3 numerals"""
    if isinstance(e, z3.IntNumRef):
        return e.as_long()
    return e


_R = z3.RealSort()
UF_DIV = z3.Function("rdiv", _R, _R, _R)
UF_MOD = z3.Function("rmod", _R, _R, _R)


def i2f(v):
    if isinstance(v, VF):
        return v.e
    if isinstance(v.e, int):
        return float(v.e)
    return z3.ToReal(v.e)


def fop(op, a, b):
    if isinstance(a, float) and isinstance(b, float):
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "/":
            return a / b
        if op == "%":
            import math
            return math.fmod(a, b)
    a, b = rz(a), rz(b)
    return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: UF_DIV(a, b), "%": lambda: UF_MOD(a, b)}[op]()


def ftrunc(e):
    """real -> int, toward zero"""
    if isinstance(e, float):
        return VInt(max(I64MIN, min(I64MAX, int(e))))
    t = z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))
    return VInt(t, -10**12, 10**12)


def trunc_real(q):
    """real with its fractional part removed"""
    if isinstance(q, float):
        import math
        return q if q != q or q in (math.inf, -math.inf) else math.copysign(float(math.trunc(q)), q)
    return z3.ToReal(z3.If(q >= 0, z3.ToInt(q), -z3.ToInt(-q)))


# ---------------------------------------------------------------- ints
def rng(v):
    return v.lo, v.hi


def fit(e, lo, hi):
    """result of exact integer arithmetic: overflow is an error"""
    if isinstance(e, int):
        if not I64MIN <= e <= I64MAX:
            raise RtErr("overflow")
        return VInt(e)
    if lo is None or lo < I64MIN or hi > I64MAX:
        if truth(z3.Or(e < I64MIN, e > I64MAX)):
            raise RtErr("overflow")
        lo, hi = (max(I64MIN, lo) if lo is not None else I64MIN), (min(I64MAX, hi) if hi is not None else I64MAX)
    return VInt(e, lo, hi)


def iop(op, a, b):
    x, y = a.e, b.e
    if op == "+":
        return fit(x + y, a.lo + b.lo, a.hi + b.hi)
    if op == "-":
        return fit(x - y, a.lo - b.hi, a.hi - b.lo)
    if op == "*":
        c = [p * q for p in (a.lo, a.hi) for q in (b.lo, b.hi)]
        return fit(x * y, min(c), max(c))
    # truncated division / remainder; zero divisor was excluded by the caller
    if isinstance(x, int) and isinstance(y, int):
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        r = x - q * y
        if not I64MIN <= q <= I64MAX:
            raise RtErr("overflow")
        return VInt(q if op == "//" else r)
    X = z3.IntVal(x) if isinstance(x, int) else x
    Y = z3.IntVal(y) if isinstance(y, int) else y
    ax, ay = z3.If(X >= 0, X, -X), z3.If(Y >= 0, Y, -Y)
    q = ax / ay
    m = max(abs(a.lo), abs(a.hi))
    if op == "//":
        return fit(z3.If((X < 0) != (Y < 0), -q, q), -m, m)
    r = ax % ay
    return fit(z3.If(X < 0, -r, r), -m, m)


def sym_cmp(op, a, b):
    return {"<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b, ">=": lambda: a >= b,
            "==": lambda: a == b, "!=": lambda: a != b}[op]()


def bnot(b):
    return (not b) if isinstance(b, bool) else z3.Not(b)


def band(a, b):
    if isinstance(a, bool):
        return b if a else False
    if isinstance(b, bool):
        return a if b else False
    return z3.And(a, b)


def bor(a, b):
    if isinstance(a, bool):
        return True if a else b
    if isinstance(b, bool):
        return True if b else a
    return z3.Or(a, b)


def beq(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, bool):
        return b if a else z3.Not(b)
    if isinstance(b, bool):
        return a if b else z3.Not(a)
    return a == b


# ---------------------------------------------------------------- texts
def norm(pieces):
    out = []
    for p in pieces:
        if isinstance(p, VInt) and isinstance(p.e, int):
            p = str(p.e)
        elif isinstance(p, VB) and isinstance(p.e, bool):
            p = "verdadeiro" if p.e else "falso"
        elif isinstance(p, VF) and isinstance(p.e, float):
            p = show_float(p.e)
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != "":
            out.append(p)
    return tuple(out)


def show_float(f):
    import decimal
    if f != f:
        return "NaN"
    if f in (float("inf"), float("-inf")):
        return "inf" if f > 0 else "-inf"
    s = format(decimal.Decimal(repr(f)), "f")
    if f == int(f):
        if "." in s:
            s = s.split(".")[0]
        return s + ".0"
    return s


def str_eq(a, b):
    """equality of two texts -> bool or z3 Bool"""
    pa, pb = norm(a.p), norm(b.p)
    def single(p):
        if len(p) == 0:
            return ""
        if len(p) == 1:
            return p[0]
        return None
    if all(isinstance(x, str) for x in pa) and all(isinstance(x, str) for x in pb):
        return "".join(pa) == "".join(pb)

    def z(p):
        ts = []
        for x in p:
            if isinstance(x, str):
                ts.append(z3.StringVal(x))
            elif isinstance(x, tuple):
                ts.append(x[1])
            elif isinstance(x, VB):
                ts.append(z3.If(x.e, z3.StringVal("verdadeiro"), z3.StringVal("falso")))
            elif isinstance(x, VInt):
                ts.append(z3.If(x.e >= 0, z3.IntToStr(x.e), z3.Concat(z3.StringVal("-"), z3.IntToStr(-x.e))))
            else:
                raise sx.Inconclusive("equality of texts containing a symbolic real")
        if not ts:
            return z3.StringVal("")
        return ts[0] if len(ts) == 1 else z3.Concat(*ts)
    return z(pa) == z(pb)


def show(v):
    """printed form -> pieces"""
    if isinstance(v, (VInt, VF, VB)):
        return (v,)
    if isinstance(v, VS):
        return v.p
    if isinstance(v, VNone):
        return ("nulo",)
    if isinstance(v, VVec):
        out = ["["]
        for i, x in enumerate(v.items):
            if i:
                out.append(", ")
            out.extend(show(x))
        out.append("]")
        return tuple(out)
    if isinstance(v, VObj):
        return (f"<Instância do tipo {v.reg}>",)
    if isinstance(v, VVar):
        return (f"<Variante({v.tag})>",)
    raise Panic("cannot display")


def pieces_eq(a, b):
    """condition that two printed outputs are the same text (bool or z3)"""
    a, b = norm(a), norm(b)
    if len(a) == len(b):
        conj = []
        ok = True
        for x, y in zip(a, b):
            if type(x) is type(y):
                if isinstance(x, str):
                    if x != y:
                        ok = False
                elif isinstance(x, tuple):
                    if x[0] != y[0]:
                        ok = False
                    else:
                        conj.append(x[1] == y[1])
                elif isinstance(x, VB):
                    conj.append(beq(x.e, y.e))
                elif isinstance(x, VF):
                    conj.append(rz(x.e) == rz(y.e))
                else:
                    conj.append(x.e == y.e)
            else:
                ok = False
        if ok:
            if any(c is False for c in conj):
                return False
            return z3.And([c if is_sym(c) else z3.BoolVal(c) for c in conj]) if conj else True
    # different shapes: make the symbolic ints/bools/texts concrete and compare
    if all(isinstance(x, (str, VInt, VB)) for x in a + b):
        ta = z_text(a)
        tb = z_text(b)
        return ta == tb
    return False if kinds(a) != kinds(b) else False


def kinds(p):
    return [type(x) for x in p]


def z_text(p):
    ts = []
    for x in p:
        if isinstance(x, str):
            ts.append(z3.StringVal(x))
        elif isinstance(x, VB):
            ts.append(z3.If(x.e, z3.StringVal("verdadeiro"), z3.StringVal("falso")))
        else:
            ts.append(z3.If(x.e >= 0, z3.IntToStr(x.e), z3.Concat(z3.StringVal("-"), z3.IntToStr(-x.e))))
    if not ts:
        return z3.StringVal("")
    return ts[0] if len(ts) == 1 else z3.Concat(*ts)


# ---------------------------------------------------------------- inputs
DIGITS = z3.Plus(z3.Range("0", "9"))
INTRE = z3.Concat(z3.Option(z3.Union(z3.Re("+"), z3.Re("-"))), DIGITS)


def text_int(p):
    """the integer a text of one symbolic piece spells out (Rust's i64 parse); None: not one"""
    if len(p) != 1 or isinstance(p[0], str):
        raise sx.Inconclusive("numeric conversion of a composed symbolic text")
    x = p[0]
    if isinstance(x, VInt):
        return x
    if not isinstance(x, tuple):
        raise sx.Inconclusive("numeric conversion of a symbolic text")
    x = x[1]
    if not sx.CUR.branch(z3.InRe(x, INTRE)):
        return None
    if sx.CUR.branch(z3.PrefixOf("-", x)):
        return VInt(-z3.StrToInt(z3.SubString(x, 1, z3.Length(x) - 1)), -10**6, 10**6)
    if sx.CUR.branch(z3.PrefixOf("+", x)):
        return VInt(z3.StrToInt(z3.SubString(x, 1, z3.Length(x) - 1)), -10**6, 10**6)
    return VInt(z3.StrToInt(x), -10**6, 10**6)


class Inputs:
    """the program's stdin: the k-th read is a fresh symbolic value of the kind
    asked for (or the k-th value of a concrete list, for replay)"""

    def __init__(self, lo=-20, hi=20, concrete=None, text=None):
        self.vals = []
        self.text = text
        self.lo, self.hi = lo, hi
        self.concrete = concrete

    def stream(self):
        return InStream(self)

    def get(self, k, kind):
        if self.concrete is not None:
            if k >= len(self.concrete):
                raise sx.Inconclusive("replay asks for more inputs than the witness has")
            knd, v = self.concrete[k]
            return v
        while len(self.vals) <= k:
            i = len(self.vals)
            if i > 12:
                raise sx.Inconclusive("too many inputs")
            if kind == "int":
                x = z3.Int(f"in{i}")
                sx.CUR.add(z3.And(x >= self.lo, x <= self.hi))
                v = VInt(x, self.lo, self.hi)
            elif kind == "real":
                x = z3.Int(f"in{i}q")
                sx.CUR.add(z3.And(x >= 4 * self.lo, x <= 4 * self.hi))
                v = VF(z3.ToReal(x) / 4)
            else:
                x = z3.String(f"in{i}")
                sx.CUR.add(self.text(x) if self.text else z3.InRe(x, z3.Loop(z3.Range("a", "c"), 0, 2)))
                v = VS((("s", x),))
            self.vals.append((kind, v, x))
        kd, v, _ = self.vals[k]
        if kd != kind:
            raise sx.Inconclusive(f"input {k} read as {kind} and as {kd}")
        return v

    def witness(self, model):
        """concrete inputs from a model: list of (kind, V) and the stdin text"""
        vals, lines = [], []
        for kind, v, x in self.vals:
            if kind == "int":
                n = model.eval(x, model_completion=True).as_long()
                vals.append((kind, VInt(n)))
                lines.append(str(n))
            elif kind == "real":
                q = model.eval(x, model_completion=True).as_long()
                vals.append((kind, VF(q / 4)))
                lines.append(repr(q / 4))
            else:
                s = model.eval(x, model_completion=True).as_string()
                vals.append((kind, VS(s)))
                lines.append(s)
        return vals, "".join(l + "\n" for l in lines)


class InStream:
    def __init__(self, inp):
        self.inp, self.k = inp, 0

    def read(self, kind):
        v = self.inp.get(self.k, kind)
        self.k += 1
        return v
