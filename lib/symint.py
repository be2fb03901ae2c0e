"""Python integers, byte strings, texts and floats with symbolic contents, and stand-ins
for the built-ins (`bytes`, `len`, `type`, `int`, `isinstance`, `struct`, `BytesIO`) that
code handling bytes goes through.  `patched(module)` puts the stand-ins in the module's
namespace: the module's own functions then run on symbolic values."""
import z3, struct as _struct, io, builtins, contextlib
import sx

N = 128         # integers are two's complement of this width: inputs are kept far below it


class Unsupported(sx.Inconclusive):
    pass


def bv(x):
    return x.e if isinstance_(x, SInt) else z3.BitVecVal(int(x), N)


isinstance_ = builtins.isinstance


def isint(x):
    return builtins.type(x) is SInt or isinstance_(x, builtins.int)


class SInt:
    """an integer; `e` is a bit-vector term"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return builtins.int

    @staticmethod
    def var(name, lo, hi):
        x = SInt(z3.BitVec(name, N))
        sx.CUR.add(z3.And(x.e >= lo, x.e <= hi))
        return x

    def _b(self, o, f):
        if not isint(o):
            return NotImplemented
        return SInt(f(self.e, bv(o)))

    def _rb(self, o, f):
        if not isint(o):
            return NotImplemented
        return SInt(f(bv(o), self.e))
    __add__ = lambda s, o: s._b(o, lambda a, b: a + b)
    __radd__ = lambda s, o: s._rb(o, lambda a, b: a + b)
    __sub__ = lambda s, o: s._b(o, lambda a, b: a - b)
    __rsub__ = lambda s, o: s._rb(o, lambda a, b: a - b)
    __mul__ = lambda s, o: s._b(o, lambda a, b: a * b)
    __rmul__ = lambda s, o: s._rb(o, lambda a, b: a * b)
    __and__ = lambda s, o: s._b(o, lambda a, b: a & b)
    __rand__ = __and__
    __or__ = lambda s, o: s._b(o, lambda a, b: a | b)
    __ror__ = __or__
    __xor__ = lambda s, o: s._b(o, lambda a, b: a ^ b)
    __rxor__ = __xor__
    __lshift__ = lambda s, o: s._b(o, lambda a, b: a << b)
    __rshift__ = lambda s, o: s._b(o, lambda a, b: a >> b)
    __neg__ = lambda s: SInt(-s.e)
    __invert__ = lambda s: SInt(~s.e)
    __pos__ = lambda s: s

    def _pos(self, o):
        if not (isinstance_(o, builtins.int) and builtins.type(o) is not SInt and o > 0):
            raise Unsupported("division of a symbolic integer by this value")
        return z3.BitVecVal(o, N)

    def __mod__(self, o):
        return SInt(z3.simplify(self.e % self._pos(o)))      # z3: sign of the divisor, as in Python

    def __floordiv__(self, o):
        d = self._pos(o)
        return SInt((self.e - self.e % d) / d)

    def __divmod__(self, o):
        return self // o, self % o
    __lt__ = lambda s, o: sx.SymBool(s.e < bv(o)) if isint(o) else NotImplemented
    __le__ = lambda s, o: sx.SymBool(s.e <= bv(o)) if isint(o) else NotImplemented
    __gt__ = lambda s, o: sx.SymBool(s.e > bv(o)) if isint(o) else NotImplemented
    __ge__ = lambda s, o: sx.SymBool(s.e >= bv(o)) if isint(o) else NotImplemented
    __eq__ = lambda s, o: sx.SymBool(s.e == bv(o)) if isint(o) else False
    __ne__ = lambda s, o: sx.SymBool(s.e != bv(o)) if isint(o) else True
    __hash__ = None
    __bool__ = lambda s: builtins.bool(sx.SymBool(s.e != 0))

    def __index__(self):
        raise Unsupported("a symbolic integer is needed as a concrete one")
    __int__ = __index__

    def __repr__(self):
        return f"<int {self.e}>"

    def __format__(self, s):
        return repr(self)

    def within(self, lo, hi):
        return builtins.bool(sx.SymBool(z3.And(self.e >= z3.BitVecVal(lo, N), self.e <= z3.BitVecVal(hi, N))))

    def bytes(self, n, order):
        b = [SInt(z3.simplify(z3.ZeroExt(N - 8, z3.Extract(8 * k + 7, 8 * k, self.e)))) for k in range(n)]
        return b if order == "little" else b[::-1]

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        lo, hi = (-(1 << 8 * length - 1), (1 << 8 * length - 1) - 1) if signed else (0, (1 << 8 * length) - 1)
        if not self.within(lo, hi):
            raise OverflowError("int too big to convert")
        return SBytes(self.bytes(length, byteorder))

    def bit_length(self):
        raise Unsupported("bit_length of a symbolic integer")


class SFloat:
    """a double given by its 64 bits"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return builtins.float

    def bytes(self, order):
        b = [SInt(z3.ZeroExt(N - 8, z3.Extract(8 * k + 7, 8 * k, self.e))) for k in range(8)]
        return b if order == "little" else b[::-1]

    def is_integer(self):
        raise Unsupported("is_integer")


class Blob:
    """a run of bytes of symbolic length whose contents nobody looks at"""

    def __init__(self, n, name):
        self.n, self.name = n, name

    def __repr__(self):
        return f"<blob {self.name}>"


class SBytes:
    """bytes: items are ints, SInts within 0..255, or Blobs"""

    def __init__(self, items=()):
        self.items = list(items)

    @property
    def __class__(self):
        return builtins.bytes

    def size(self):
        n = sum(1 for i in self.items if builtins.type(i) is not Blob)
        for i in self.items:
            if builtins.type(i) is Blob:
                n = i.n + n
        return n

    def __len__(self):
        n = self.size()
        if builtins.type(n) is SInt:
            raise Unsupported("length of bytes of symbolic length")
        return n

    def __iter__(self):
        if any(builtins.type(i) is Blob for i in self.items):
            raise Unsupported("iteration over bytes of symbolic length")
        return iter(self.items)

    def __getitem__(self, k):
        self.__iter__()
        r = self.items[k]
        return SBytes(r) if isinstance_(k, slice) else r

    def __add__(self, o):
        return SBytes(self.items + items(o))

    def __radd__(self, o):
        return SBytes(items(o) + self.items)

    def __bool__(self):
        return builtins.bool(self.size())

    def join(self, seq):
        out = []
        for n, s in enumerate(seq):
            out += (self.items if n else []) + items(s)
        return SBytes(out)

    def __repr__(self):
        return f"<bytes {self.items}>"
    __hash__ = None


def items(o):
    if builtins.type(o) is SBytes:
        return o.items
    if isinstance_(o, (builtins.bytes, bytearray, memoryview)):
        return list(builtins.bytes(o))
    raise TypeError(f"a bytes-like object is required, not {builtins.type(o).__name__!r}")


class SText:
    """a text: items are characters, code points (SInt) or Blobs of symbolic size"""

    def __init__(self, items):
        self.items = list(items)

    @property
    def __class__(self):
        return builtins.str

    def encode(self, encoding="utf-8", errors="strict"):
        if encoding.lower().replace("-", "").replace("_", "") != "utf8":
            raise Unsupported("encoding " + encoding)
        out = []
        for c in self.items:
            if isinstance_(c, builtins.str):
                out += list(c.encode())
            elif builtins.type(c) is Blob:
                out.append(c)
            else:
                out += utf8(c)
        return SBytes(out)

    def size(self):
        if any(builtins.type(i) is Blob for i in self.items):
            raise Unsupported("length of a text of symbolic size")
        return builtins.len(self.items)
    __len__ = size
    __hash__ = None


def utf8(c):
    """the bytes of a code point; the number of bytes is a branch"""
    if c.within(0xD800, 0xDFFF):
        raise UnicodeEncodeError("utf-8", "?", 0, 1, "surrogates not allowed")
    x = c.e
    low = lambda s, m, o: SInt(((z3.LShR(x, s)) & m) | o)
    if c.within(0, 0x7F):
        return [c]
    if c.within(0x80, 0x7FF):
        return [low(6, 31, 0xC0), low(0, 63, 0x80)]
    if c.within(0x800, 0xFFFF):
        return [low(12, 15, 0xE0), low(6, 63, 0x80), low(0, 63, 0x80)]
    return [low(18, 7, 0xF0), low(12, 63, 0x80), low(6, 63, 0x80), low(0, 63, 0x80)]


# ------------------------------------------------------------- stand-ins for built-ins
SYM = {SInt: builtins.int, SFloat: builtins.float, SBytes: builtins.bytes, SText: builtins.str}


def s_len(x):
    return x.size() if builtins.type(x) in (SBytes, SText) else builtins.len(x)


class _Type(builtins.type):
    def __instancecheck__(cls, x):
        return isinstance_(x, builtins.type)


class s_type(metaclass=_Type):
    def __new__(cls, *a):
        if builtins.len(a) == 1:
            t = builtins.type(a[0])
            return PATCH.get(SYM.get(t, t), SYM.get(t, t))
        return builtins.type(*a)


def _shim(base, make):
    class M(builtins.type):
        def __instancecheck__(cls, x):
            return isinstance_(x, base)

        def __subclasscheck__(cls, c):
            return issubclass(c, base)

        def __eq__(cls, o):
            return o is cls or o is base

        def __hash__(cls):
            return hash(base)

        def __getattr__(cls, n):
            return getattr(base, n)
    return M(base.__name__, (), {"__new__": lambda cls, *a, **k: make(*a, **k)})


def _bytes(x=b"", *a, **k):
    if builtins.type(x) is SBytes:
        return x
    if builtins.type(x) is SInt:
        raise Unsupported("bytes(n)")
    if a or k or isinstance_(x, (builtins.int, builtins.bytes, bytearray, builtins.str)):
        return x.encode(*a, **k) if builtins.type(x) is SText else builtins.bytes(x, *a, **k)
    x = list(x)
    if not any(builtins.type(i) is SInt for i in x):
        return builtins.bytes(x)
    for i in x:
        if not (i.within(0, 255) if builtins.type(i) is SInt else 0 <= i <= 255):
            raise ValueError("bytes must be in range(0, 256)")
    return SBytes(x)


def _int(x=0, *a, **k):
    return x if builtins.type(x) is SInt and not a and not k else builtins.int(x, *a, **k)


s_bytes, s_int = _shim(builtins.bytes, _bytes), _shim(builtins.int, _int)
s_bytearray = _shim(bytearray, _bytes)
PATCH = {builtins.bytes: s_bytes, builtins.int: s_int}


class s_struct:
    """struct.pack with symbolic arguments"""
    error = _struct.error
    unpack, unpack_from, calcsize, iter_unpack = map(staticmethod, (_struct.unpack, _struct.unpack_from, _struct.calcsize, _struct.iter_unpack))
    SIZE = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8, "d": 8}

    @staticmethod
    def pack(fmt, *args):
        if not any(builtins.type(a) in SYM for a in args):
            return _struct.pack(fmt, *args)
        order, cs = (fmt[0], fmt[1:]) if fmt[0] in "<>!=" else ("@", fmt)
        if order == "@":
            raise Unsupported("native alignment")
        order = "little" if order in "<=" else "big"
        if builtins.len(cs) != builtins.len(args) or not all(c in s_struct.SIZE for c in cs):
            raise Unsupported("struct format " + fmt)
        out = []
        for c, a in zip(cs, args):
            n = s_struct.SIZE[c]
            if builtins.type(a) is SFloat:
                if c != "d":
                    raise _struct.error("required argument is not an integer")
                out += a.bytes(order)
            elif builtins.type(a) is SInt:
                if c == "d":
                    raise Unsupported("integer packed as a double")
                lo, hi = (-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1) if c.islower() else (0, (1 << 8 * n) - 1)
                if not a.within(lo, hi):
                    raise _struct.error("argument out of range")
                out += a.bytes(n, order)
            else:
                out += list(_struct.pack(("<" if order == "little" else ">") + c, a))
        return SBytes(out)

    class Struct:
        def __init__(self, fmt):
            self.format, self.size = fmt, _struct.calcsize(fmt)

        def pack(self, *a):
            return s_struct.pack(self.format, *a)


class s_BytesIO:
    def __init__(self, init=b""):
        self.items = list(items(init))

    def write(self, b):
        self.items += items(b)
        return s_len(b)

    def writelines(self, l):
        for b in l:
            self.write(b)

    def getvalue(self):
        if all(isinstance_(i, builtins.int) and builtins.type(i) is not SInt for i in self.items):
            return builtins.bytes(self.items)
        return SBytes(self.items)
    getbuffer = getvalue

    def tell(self):
        return SBytes(self.items).size()

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


NAMES = {"len": s_len, "type": s_type, "bytes": s_bytes, "int": s_int, "bytearray": s_bytearray}


@contextlib.contextmanager
def patched(mod, names=("len", "type", "bytes", "int", "bytearray")):
    import sys
    d = vars(mod)
    new = {n: NAMES[n] for n in names}
    for n, v in list(d.items()):
        if v is _struct:
            new[n] = s_struct
        elif v is io.BytesIO:
            new[n] = s_BytesIO
        elif v is _struct.pack:
            new[n] = s_struct.pack
        elif v is io:
            new[n] = builtins.type("io", (), {"BytesIO": s_BytesIO, "StringIO": io.StringIO})
    old = {n: d[n] for n in new if n in d}
    d.update(new)
    try:
        yield
    finally:
        for n in new:
            if n in old:
                d[n] = old[n]
            else:
                del d[n]
