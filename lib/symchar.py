"""Symbolic source characters through the real lexer.

The lexer's source (amanda/compiler/parse.py and tokens.py) is re-read from /repo,
rewritten so that containment tests, joins, numeric conversions and text buffers go
through the helpers below, and executed on texts whose characters are z3 integers
ranging over all of Unicode."""
import ast, sys, types, os, io, bisect
import z3
import sx, pipe

BASE = 0xF0000
MAXU = 0x10FFFF
DOMAIN = [(1, 12), (14, 0xD7FF), (0xE000, MAXU)]     # no surrogates, no carriage return (text files translate it), no NUL


# ------------------------------------------------------------ code point sets
def inter(a, b):
    out, i, j = [], 0, 0
    while i < len(a) and j < len(b):
        lo, hi = max(a[i][0], b[j][0]), min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return out


def minus(a, b):
    out, j = [], 0
    for lo, hi in a:
        while j < len(b) and b[j][1] < lo:
            j += 1
        k = j
        while k < len(b) and b[k][0] <= hi:
            if b[k][0] > lo:
                out.append((lo, b[k][0] - 1))
            lo = b[k][1] + 1
            k += 1
        if lo <= hi:
            out.append((lo, hi))
    return out


def split(a, ranges):
    """(a inside ranges, a outside ranges)"""
    if len(ranges) == 1 and ranges[0][0] == ranges[0][1]:
        c = ranges[0][0]
        i = bisect.bisect_right(a, (c, MAXU + 1)) - 1
        if i < 0 or a[i][1] < c:
            return [], a
        lo, hi = a[i]
        mid = ([(lo, c - 1)] if lo < c else []) + ([(c + 1, hi)] if c < hi else [])
        return [(c, c)], a[:i] + mid + a[i + 1:]
    return inter(a, ranges), minus(a, ranges)


_PRED = {}


def pred(name):
    """ranges of the code points for which str.<name>() holds"""
    if name not in _PRED:
        out, start = [], None
        f = getattr(str, name)
        for c in range(MAXU + 2):
            t = c <= MAXU and f(chr(c))
            if t and start is None:
                start = c
            elif not t and start is not None:
                out.append((start, c - 1))
                start = None
        _PRED[name] = out
    return _PRED[name]


_EXPR = {}


def in_set(i, ranges):
    k = (i, tuple(ranges))
    if k not in _EXPR:
        v = z3.Int(f"c{i}")
        _EXPR[k] = z3.Or([v == lo if lo == hi else z3.And(v >= lo, v <= hi) for lo, hi in ranges])
    return _EXPR[k]


class Chars:
    """the symbolic characters of one run"""

    def __init__(self, n, domain=None):
        self.n = n
        self.alive = [list(domain or DOMAIN) for _ in range(n)]
        self.tied = set()       # characters compared with one another: the solver decides each branch on them

    def decide(self, i, ranges):
        s, rest = split(self.alive[i], ranges)
        if not s:
            return False
        if not rest:
            return True
        if i not in self.tied:
            # nothing else is known about this character: both sides are possible
            r = sx.CUR.pick(2) == 0
            self.alive[i] = s if r else rest
            return r
        # the smaller description of the two sides
        if len(s) <= len(rest):
            r = sx.CUR.branch(in_set(i, s))
        else:
            r = not sx.CUR.branch(in_set(i, rest))
        self.alive[i] = s if r else rest
        return r

    def same(self, i, j):
        if i == j:
            return True
        a, b = self.alive[i], self.alive[j]
        for x, y in ((i, j), (j, i)):
            while sum(h - l + 1 for l, h in self.alive[x]) <= 3:
                al = self.alive[x]
                if len(al) == 1 and al[0][0] == al[0][1]:
                    return self.decide(y, al)
                self.decide(x, [(al[0][0], al[0][0])])
        for x in (i, j):
            if x not in self.tied:
                self.tied.add(x)
                sx.CUR.add(in_set(x, self.alive[x]))
        return sx.CUR.branch(z3.Int(f"c{i}") == z3.Int(f"c{j}"))

    def seal(self):
        """tell the solver what the path says about every character"""
        for i in range(self.n):
            if i not in self.tied:
                sx.CUR.add(in_set(i, self.alive[i]))


CH = None            # the Chars of the current run
_INTEREST = None


def atoms(s):
    """code points (int) or symbolic characters (('s', i))"""
    return [("s", ord(c) - BASE) if BASE <= ord(c) < BASE + 4096 else ord(c) for c in str.__str__(s)]


def is_sym(s):
    return any(BASE <= ord(c) < BASE + 4096 for c in str.__str__(s))


def mk(s):
    return SymStr(s) if is_sym(s) else str.__str__(s)


class SymStr(str):
    def _plain(self):
        return str.__str__(self)

    def _text(self):
        return "".join(self)

    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented if not isinstance(o, str) else False
        a, b = atoms(self), atoms(o)
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if not atom_eq(x, y):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        for s in interesting().get(len(self), ()):
            if self == s:
                return hash(s)
        return hash(("symbolic", str.__str__(self)))

    def __add__(self, o):
        return mk(str.__str__(self) + str.__str__(o))

    def __radd__(self, o):
        return mk(str.__str__(o) + str.__str__(self))

    def __getitem__(self, i):
        return mk(str.__getitem__(self, i))

    def __iter__(self):
        for c in str.__str__(self):
            yield mk(c)

    def __str__(self):
        return self

    def __format__(self, spec):
        return str.__format__(str.__str__(self), spec)

    def __contains__(self, x):
        return _in(x, self)

    def startswith(self, p, *a):
        if a:
            raise sx.Inconclusive("startswith with range")
        return any(len(self) >= len(q) and mk(str.__getitem__(self, slice(0, len(q)))) == q for q in (p if isinstance(p, tuple) else (p,)))

    def endswith(self, p):
        return any(len(self) >= len(q) and (not q or mk(str.__getitem__(self, slice(-len(q), None))) == q) for q in (p if isinstance(p, tuple) else (p,)))

    def strip(self, *a):
        return self.lstrip(*a).rstrip(*a)

    def lstrip(self, *a):
        s = self
        while len(s) and (s[0].isspace() if not a else _in(s[0], a[0])):
            s = s[1:]
        return s

    def rstrip(self, *a):
        s = self
        while len(s) and (s[-1].isspace() if not a else _in(s[-1], a[0])):
            s = s[:-1]
        return s

    def __int__(self):
        raise sx.Inconclusive("int of symbolic text")


def _mkpred(n):
    def f(self):
        if not len(self):
            return False
        for a in atoms(self):
            if not (CH.decide(a[1], pred(n)) if isinstance(a, tuple) else getattr(str, n)(chr(a))):
                return False
        return True
    return f


for _n in ("isspace", "isalpha", "isalnum", "isdecimal", "isdigit", "isnumeric"):
    setattr(SymStr, _n, _mkpred(_n))


def _unsupported(n):
    def f(self, *a, **k):
        raise sx.Inconclusive(f"str.{n} of symbolic text")
    return f


for _n in ("lower", "upper", "split", "partition", "replace", "find", "index", "count", "isidentifier", "isascii", "isupper", "islower", "encode", "translate", "splitlines", "casefold", "title", "__mod__", "__lt__", "__gt__", "__le__", "__ge__"):
    setattr(SymStr, _n, _unsupported(_n))


def atom_eq(x, y):
    if isinstance(x, tuple) and isinstance(y, tuple):
        return CH.same(x[1], y[1])
    if isinstance(x, tuple):
        return CH.decide(x[1], [(y, y)])
    if isinstance(y, tuple):
        return CH.decide(y[1], [(x, x)])
    return x == y


def interesting():
    """every text that is a key of a dictionary or set of the lexer's modules, by length"""
    global _INTEREST
    if _INTEREST is None:
        s = set()

        def box(v):
            if isinstance(v, (dict, set, frozenset)):
                s.update(k for k in v if isinstance(k, str))
        for m in (symtokens, symparse):
            for v in list(vars(m).values()):
                box(v)
                if isinstance(v, type) and getattr(v, "__module__", "").startswith("amanda"):
                    for w in list(vars(v).values()):
                        box(w)
        for t in symtokens.TokenType:
            s.add(t.value)
        _INTEREST = {}
        for t in sorted(s):
            _INTEREST.setdefault(len(t), []).append(t)
    return _INTEREST


# ------------------------------------------------------------ rewriting
def _in(x, c):
    if isinstance(c, str) and (is_sym(c) or (isinstance(x, str) and is_sym(x))):
        n = len(x)
        if n == 0:
            return True
        if n == 1 and not is_sym(c) and isinstance(x, SymStr):
            return CH.decide(atoms(x)[0][1], _norm([(ord(k), ord(k)) for k in set(c)]))
        for i in range(len(c) - n + 1):
            if mk(str.__getitem__(c, slice(i, i + n))) == x:
                return True
        return False
    if isinstance(c, (set, frozenset, dict)) and isinstance(x, str) and is_sym(x):
        return any(k == x for k in c if isinstance(k, str) and len(k) == len(x))
    return x in c


def _norm(r):
    return sorted(r)


class SymNum:
    def __init__(self, kind, text):
        self.kind, self.text = kind, text

    def __repr__(self):
        return f"{self.kind}({str.__str__(self.text)})"


def _int(x=0, *a):
    if isinstance(x, str) and is_sym(x) and not a:
        return SymNum("int", x)
    return int(x, *a)


def _float(x=0.0):
    if isinstance(x, str) and is_sym(x):
        return SymNum("float", x)
    return float(x)


def _join(sep, it):
    if isinstance(sep, str):
        return mk(str.join(str.__str__(sep), [str.__str__(x) for x in it]))
    return sep.join(it)


def _fmt(*parts):
    return mk("".join(str.__str__(p) if isinstance(p, str) else str(p) for p in parts))


class SymIO:
    """text buffer"""

    def __init__(self, s="", *a, **k):
        self.s, self.p = str.__str__(s), 0

    def read(self, n=-1):
        r = self.s[self.p:] if n is None or n < 0 else self.s[self.p:self.p + n]
        self.p += len(r)
        return mk(r)

    def write(self, t):
        t = str.__str__(t)
        self.s = self.s[:self.p] + t + self.s[self.p + len(t):]
        self.p += len(t)
        return len(t)

    def getvalue(self):
        return mk(self.s)

    def tell(self):
        return self.p

    def seek(self, p, w=0):
        self.p = p if w == 0 else len(self.s)
        return self.p

    def readline(self):
        raise sx.Inconclusive("readline of symbolic text")

    def close(self):
        pass

    def truncate(self, *a):
        self.s = self.s[:a[0] if a else self.p]


class Rewrite(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(ast.Name("sx_in__", ast.Load()), [n.left, n.comparators[0]], [])
            return ast.copy_location(ast.UnaryOp(ast.Not(), c) if isinstance(n.ops[0], ast.NotIn) else c, n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ("int", "float"):
            n.func = ast.copy_location(ast.Name(f"sx_{n.func.id}__", ast.Load()), n.func)
        elif isinstance(n.func, ast.Attribute) and n.func.attr == "join" and len(n.args) == 1:
            return ast.copy_location(ast.Call(ast.Name("sx_join__", ast.Load()), [n.func.value] + n.args, []), n)
        return n

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            elif v.format_spec is None and v.conversion == -1:
                parts.append(v.value)
            else:
                parts.append(ast.JoinedStr([v]))
        return ast.copy_location(ast.Call(ast.Name("sx_fmt__", ast.Load()), parts, []), n)


def _load(name, rel):
    path = os.path.join(pipe.REPO, rel)
    tree = ast.fix_missing_locations(Rewrite().visit(ast.parse(open(path, encoding="utf8").read())))
    m = types.ModuleType(name)
    m.__file__ = path
    m.__dict__.update(sx_in__=_in, sx_int__=_int, sx_float__=_float, sx_join__=_join, sx_fmt__=_fmt)
    old = sys.modules.get(name)
    sys.modules[name] = m
    try:
        exec(compile(tree, path, "exec"), m.__dict__)
    finally:
        if old is not None:
            sys.modules[name] = old
    return m


def _load_all():
    t = _load("amanda.compiler.tokens", "amanda/compiler/tokens.py")
    old = sys.modules["amanda.compiler.tokens"]
    sys.modules["amanda.compiler.tokens"] = t
    try:
        p = _load("amanda.compiler.parse", "amanda/compiler/parse.py")
    finally:
        sys.modules["amanda.compiler.tokens"] = old
    for n, v in list(vars(p).items()):
        if v is io.StringIO:
            setattr(p, n, SymIO)
    return t, p


symtokens, symparse = _load_all()


def text(spec):
    """spec: text in which U+0000 stands for the next symbolic character -> (text, n)"""
    n, out = 0, []
    for c in spec:
        if c == "\0":
            out.append(chr(BASE + n))
            n += 1
        else:
            out.append(c)
    return "".join(out), n


def concrete(s, m):
    out = []
    for a in atoms(s):
        if isinstance(a, tuple):
            v = m.eval(z3.Int(f"c{a[1]}"), model_completion=True).as_long()
            out.append(chr(v))
        else:
            out.append(chr(a))
    return "".join(out)


def member(s):
    """a text of the path, when its characters are independent"""
    if CH.tied:
        return None
    return "".join(chr(CH.alive[a[1]][0][0]) if isinstance(a, tuple) else chr(a) for a in atoms(s))


def run_lexer(mod, src, limit):
    """-> list of (kind name, text or value, line), or error line"""
    lx = mod.Lexer("<symbolic>", SymIO(src) if mod is symparse else io.StringIO(src))
    out = []
    try:
        while True:
            t = lx.get_token()
            if t is None:
                return out, ("none", None)
            k = t.token if isinstance(t.token, str) else t.token.name
            if k == mod.Lexer.EOF:
                out.append(("EOF", "", t.line))
                return out, None
            out.append((k, t.lexeme, t.line))
            if len(out) > limit:
                return out, ("endless", None)
    except pipe.AmandaError as e:
        return out, ("error", e.line)
