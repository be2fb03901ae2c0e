"""Symbolic tokens through the real parser, checker and code generator.

A template is source text in which the identifiers `hole0__`, `hole1__`, ... stand
for tokens chosen by the solver from a list of alternatives (token text each).
The real lexer produces the token stream; each hole's token is replaced by a
SymTok whose kind and text are symbolic over the alternatives, so one run of the
real front end covers every alternative the code does not tell apart."""
import z3, itertools, os, re, tempfile, traceback
import contextlib, io, signal
import sx, pipe, tv
import amanda.compiler.error as _err
from pipe import P, Token, TT, AmandaError

_ALT = {}


def lex(text):
    """real token of a one-token text"""
    if text not in _ALT:
        import io
        lx = P.Lexer("<alt>", io.StringIO(text + " "))
        t = lx.get_token()
        end = str(lx.get_token())
        assert text == "\n" or "eof" in end.lower(), "an alternative is one token: " + text
        _ALT[text] = (t.token, t.lexeme)
    return _ALT[text]


class Choice:
    """one hole"""

    def __init__(self, name, alts):
        self.alts = list(alts)
        self.toks = [lex(a) for a in self.alts]
        self.v = z3.Int(name)
        self.alive = set(range(len(self.alts)))
        sx.CUR.add(z3.And(self.v >= 0, self.v < len(self.alts)))

    def decide(self, idx):
        idx = set(idx) & self.alive
        if not idx:
            return False
        if idx == self.alive:
            return True
        r = sx.CUR.branch(z3.Or([self.v == i for i in sorted(idx)]))
        self.alive = idx if r else self.alive - idx
        return r


class View:
    """attribute of a hole's token, as symbolic value"""
    __slots__ = ("c", "k", "cls_")

    def __init__(self, c, k, cls_):
        self.c, self.k, self.cls_ = c, k, cls_

    @property
    def __class__(self):
        return self.cls_

    def _val(self, i):
        return self.c.toks[i][self.k]

    def __eq__(self, o):
        if type(o) is View:
            if o.c is self.c and o.k == self.k:
                return True
            return self.concrete() == o.concrete()
        return self.c.decide([i for i in self.c.alive if self._val(i) == o])

    def __ne__(self, o):
        return not self.__eq__(o)

    def concrete(self):
        while True:
            vals = {}
            for i in sorted(self.c.alive):
                vals.setdefault(self._val(i), []).append(i)
            if len(vals) == 1:
                return next(iter(vals))
            self.c.decide(next(iter(vals.values())))

    def __hash__(self):
        return hash(self.concrete())

    def __str__(self):
        return str(self.concrete())

    def __repr__(self):
        return repr(self.concrete())

    def __format__(self, s):
        return format(self.concrete(), s)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.concrete(), n)

    def __getitem__(self, i):
        return self.concrete()[i]

    def __len__(self):
        return len(self.concrete())

    def __iter__(self):
        return iter(self.concrete())

    def __contains__(self, x):
        return x in self.concrete()

    def __add__(self, o):
        return self.concrete() + o

    def __radd__(self, o):
        return o + self.concrete()

    def __int__(self):
        return int(self.concrete())

    def __float__(self):
        return float(self.concrete())

    def __bool__(self):
        return bool(self.concrete())

    def __lt__(self, o):
        return self.concrete() < o

    def __gt__(self, o):
        return self.concrete() > o

    def __mod__(self, o):
        return self.concrete() % o


class SymTok(Token):
    def __init__(self, c, line, col):
        self.__dict__["c"] = c
        self.token = View(c, 0, TT)
        self.lexeme = View(c, 1, str)
        self.line, self.col = line, col


_REAL = P.Lexer.get_token
HOLE = re.compile(r"hole(\d+)__")
_ACTIVE = {"file": None, "choices": None}


def _get_token(self):
    t = _REAL(self)
    if _ACTIVE["choices"] is not None and self.filename in _ACTIVE["file"] and isinstance(t.lexeme, str):
        m = HOLE.fullmatch(t.lexeme)
        if m:
            return SymTok(_ACTIVE["choices"][int(m.group(1))], t.line, t.col)
    return t


def crash_text(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [x for x in tb if "/amanda/" in x.filename] or tb
    return f"{type(e).__name__}: {str(e)[:120]} at {os.path.basename(fr[-1].filename)}:{fr[-1].name}"


def report(e):
    """what the command line does with a diagnostic: it must be printable"""
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            _err.throw_error(e)
    except SystemExit:
        return "reject", str(e.message), e.line
    except Exception as x:
        return "crash", f"the diagnostic of line {e.line} cannot be shown: {crash_text(x)}"
    return "crash", "throw_error returned"


class Slow(Exception):
    pass


@contextlib.contextmanager
def limit(seconds):
    """the front end must end"""
    def on(*a):
        raise Slow(f"no answer after {seconds} s")
    old = signal.signal(signal.SIGALRM, on)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def front_end(src):
    """the whole front end on one text: ok | reject | crash"""
    with pipe.files(src) as (p, _):
        try:
            with limit(10):
                pipe.compile_file(p, raw=True)
            return ("ok",)
        except AmandaError as e:
            return report(e)
        except RecursionError:
            return "crash", "RecursionError"
        except Exception as e:
            return "crash", crash_text(e)


def total_harness(gen):
    """gen(ctx) -> (text, alternatives): every program ends with a module or a diagnostic"""
    def h(ctx):
        r = gen(ctx)
        if r is None:
            raise sx.PathEnd()
        text, alts = r
        t = Template(ctx, text, alts)
        with limit(20):
            res = t.run("compile", diag=True)
        cnt = {"claims": 1, res[0]: 1, "combinations": t.ncombos()}
        key = hash((text, tuple(tuple(sorted(c.alive)) for c in t.choices)))
        m = ctx.holds(res[0] != "crash")
        src = t.source(t.pick_of(m or ctx.model()))
        c = front_end(src)
        if m is None and c[0] != "crash":
            return {"viol": [], "cnt": cnt, "key": key, "sample": {"template": text, "alternatives": [[c.alts[i] for i in sorted(c.alive)] for c in t.choices], "verdict": list(res[:2])}}
        d = {"src": src, "stdin": "", "template": text}
        if c[0] == "crash":
            d["what"] = f"the compiler fails internally: {c[1]}"
        else:
            d["what"], d["unreproduced"] = f"symbolic run {res} does not reproduce: {c}", True
        d["sig"] = re.sub("[0-9]+|'[^']*'", "N", d["what"])[:140]
        return {"viol": [d], "cnt": cnt, "key": key}
    return h


def plain(x):
    """the module that a choice of tokens leads to, with the text of the tokens in place"""
    if type(x) is View:
        return x.concrete()
    if isinstance(x, dict):
        return {plain(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


class Template:
    def __init__(self, ctx, text, alts, tag="h"):
        """alts: list of alternative lists, one per hole"""
        self.text = text
        self.choices = [Choice(f"{tag}{i}", a) for i, a in enumerate(alts)]

    def run(self, stage="compile", diag=False):
        """-> ("ok", result) | ("reject", message, line) | ("crash", text)"""
        with pipe.files(self.text) as (p, ps):
            return self.run_file(p, ps, stage, diag)

    def run_file(self, p, ps, stage, diag):
        P.Lexer.get_token = _get_token
        _ACTIVE["file"], _ACTIVE["choices"] = ps, self.choices
        try:
            if stage == "parse":
                return "ok", P.parse(p)
            if stage == "check":
                return "ok", pipe.check_program(p)
            return "ok", pipe.bindump.dumps(plain(pipe.compile_file(p, raw=False)))
        except AmandaError as e:
            return ("reject", str(e.message), e.line) if not diag else report(e)
        except RecursionError:
            return "crash", "RecursionError"
        except sx.Inconclusive:
            raise
        except Exception as e:
            return "crash", crash_text(e)
        finally:
            P.Lexer.get_token = _REAL
            _ACTIVE["file"] = _ACTIVE["choices"] = None

    def source(self, pick):
        """concrete text; pick: list of alternative indexes"""
        return HOLE.sub(lambda m: self.choices[int(m.group(1))].alts[pick[int(m.group(1))]], self.text)

    def combos(self):
        return itertools.product(*[sorted(c.alive) for c in self.choices])

    def ncombos(self):
        n = 1
        for c in self.choices:
            n *= len(c.alive)
        return n

    def formula(self, pred):
        """z3: the chosen alternatives satisfy pred (over the alternatives still alive)"""
        if self.ncombos() > 5000:
            raise sx.Inconclusive("too many combinations on one path")
        t, f = [], []
        for cb in self.combos():
            (t if pred([c.alts[i] for c, i in zip(self.choices, cb)]) else f).append(cb)
        conj = lambda cb: z3.And([c.v == i for c, i in zip(self.choices, cb) if len(c.alive) > 1] or [z3.BoolVal(True)])
        if len(t) <= len(f):
            return z3.Or([conj(cb) for cb in t]) if t else z3.BoolVal(False)
        return z3.Not(z3.Or([conj(cb) for cb in f])) if f else z3.BoolVal(True)

    def pick_of(self, m):
        return [m.eval(c.v, model_completion=True).as_long() for c in self.choices]


def accept_harness(gen, stage="compile"):
    """gen(ctx) -> (text, alternatives, pred, note): the program must be accepted
    exactly when pred(list of chosen token texts); a pred of None demands nothing"""
    def h(ctx):
        r = gen(ctx)
        if r is None:
            raise sx.PathEnd()
        text, alts, pred, note = r
        t = Template(ctx, text, alts)
        res = t.run(stage)
        ctx.model()
        cnt = {"claims": 1, res[0]: 1, "combinations": t.ncombos()}
        if res[0] == "crash":
            claim = False
        else:
            # accepted: never ill-formed; rejected: never well-formed
            claim = t.formula(lambda c: pred(c) is not (res[0] != "ok"))
        m = ctx.holds(claim)
        key = hash((text, tuple(tuple(sorted(c.alive)) for c in t.choices)))
        sample = {"template": text, "alternatives": [[c.alts[i] for i in sorted(c.alive)] for c in t.choices], "verdict": res[0] if res[0] == "ok" else list(res[:2])}
        if m is None:
            # the witness of the path through the unpatched pipeline
            src = t.source(t.pick_of(ctx.model()))
            c = tv.compile_cached(src)
            if (c[0] == "ok") != (res[0] == "ok"):
                return {"viol": [{"what": f"symbolic tokens say {res}, text says {c[:2]}", "unreproduced": True, "src": src, "sig": "sym"}], "cnt": cnt, "key": key}
            return {"viol": [], "cnt": cnt, "key": key, "sample": sample}
        if res[0] == "crash":
            m = ctx.model()
        pick = t.pick_of(m)
        src = t.source(pick)
        want = pred([c.alts[i] for c, i in zip(t.choices, pick)])
        c = tv.compile_cached(src)
        d = {"src": src, "stdin": "", "template": text}
        if c[0] == "crash":
            d["what"] = f"the compiler fails internally ({note}): {c[1]}"
        elif want is not None and (c[0] == "ok") != want:
            d["what"] = ("an ill-formed program is accepted" if c[0] == "ok" else f"a well-formed program is rejected: {c[1]}") + f" ({note})"
        else:
            d["what"], d["unreproduced"] = f"symbolic run {res} does not reproduce", True
        d["sig"] = re.sub("[0-9]+", "N", d["what"])[:90]
        return {"viol": [d], "cnt": cnt, "key": key}
    return h
