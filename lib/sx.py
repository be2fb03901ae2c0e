"""Symbolic execution by re-execution.

A harness is an ordinary Python function run again and again; wherever real
code branches on a symbolic condition (`SymBool.__bool__`), z3 decides which
sides are feasible under the path condition; both are explored.  `ctx.pick(n)`
is an n-way structural choice explored exhaustively."""
import z3, time, os, sys, multiprocessing as mp, traceback, collections, random

CUR = None
MAXDEC = 4000


class Inconclusive(Exception):
    """solver said unknown, budget exceeded, unsupported operation"""


class PathEnd(BaseException):
    """this path is outside the bounds (assume failed)"""


class Ctx:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.dec = []
        self.alts = []          # prefixes still to explore
        self.solver = z3.Solver()
        self.solver.set("timeout", 20000)
        self.pc = []
        self.nq = 0
        self.tq = 0.0
        self.fresh = collections.Counter()
        self.unknown_feas = 0

    # -- solver
    def _check(self, *a):
        t = time.time()
        r = self.solver.check(*a)
        self.nq += 1
        self.tq += time.time() - t
        return r

    def add(self, c):
        self.pc.append(c)
        self.solver.add(c)

    def assume(self, c):
        c = expr_of(c)
        if z3.is_true(c):
            return
        self.add(c)
        if len(self.dec) >= len(self.prefix):
            r = self._check()
            if r == z3.unsat:
                raise PathEnd()

    def branch(self, c):
        c = z3.simplify(c) if not isinstance(c, bool) else c
        if isinstance(c, bool):
            return c
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = len(self.dec)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.dec.append(d)
            self.add(c if d else z3.Not(c))
            return d
        if i > MAXDEC:
            raise Inconclusive("too many decisions on one path")
        rt = self._check(c)
        if rt == z3.unsat:
            self.add(z3.Not(c))     # implied; recorded so that prefixes stay aligned
            self.dec.append(False)
            return False
        rf = self._check(z3.Not(c))
        if rf == z3.unsat:
            self.add(c)
            self.dec.append(True)
            return True
        if rt == z3.unknown or rf == z3.unknown:
            self.unknown_feas += 1
        self.alts.append(self.dec + [False])
        self.dec.append(True)
        self.add(c)
        return True

    def pick(self, n):
        """n-way structural choice"""
        if n <= 1:
            return 0
        i = len(self.dec)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.dec.append(d)
            return d
        if i > MAXDEC:
            raise Inconclusive("too many decisions on one path")
        for k in range(n - 1, 0, -1):
            self.alts.append(self.dec + [k])
        self.dec.append(0)
        return 0

    def choose(self, seq):
        return seq[self.pick(len(seq))]

    def name(self, base):
        self.fresh[base] += 1
        return f"{base}{self.fresh[base]}"

    # -- verdicts
    def holds(self, claim):
        """None if claim holds for every value on this path, else a z3 model"""
        claim = expr_of(claim)
        if z3.is_true(claim):
            self.nq += 1
            return None
        r = self._check(z3.Not(claim))
        if r == z3.unsat:
            return None
        if r == z3.unknown:
            raise Inconclusive("solver unknown on final claim: " + self.solver.reason_unknown())
        return self.solver.model()

    def model(self):
        r = self._check()
        if r == z3.sat:
            return self.solver.model()
        if r == z3.unknown:
            raise Inconclusive("solver unknown on path condition")
        raise PathEnd()


def expr_of(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, SymBool):
        return x.e
    return x


# ------------------------------------------------------------------ proxies
class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CUR.branch(self.e)

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __and__(self, o):
        return SymBool(z3.And(self.e, expr_of(o)))

    def __or__(self, o):
        return SymBool(z3.Or(self.e, expr_of(o)))

    def __eq__(self, o):
        return SymBool(self.e == expr_of(o))

    def __hash__(self):
        return hash(bool(self))


class SymEnum:
    """a value from a finite list of Python objects, chosen by the solver"""

    def __init__(self, name, domain, cls=None):
        self._dom = list(domain)
        self._v = z3.Int(name)
        self._alive = set(range(len(self._dom)))
        self._cls = cls or type(self._dom[0])
        CUR.add(z3.And(self._v >= 0, self._v < len(self._dom)))

    @property
    def __class__(self):
        return self._cls

    def _eqcond(self, o):
        idx = [i for i in self._alive if self._dom[i] is o or (type(self._dom[i]) == type(o) and self._dom[i] == o)]
        return idx

    def _decide(self, idx):
        """branch on `index in idx`"""
        idx = set(idx) & self._alive
        if not idx:
            return False
        if idx == self._alive:
            return True
        r = CUR.branch(z3.Or([self._v == i for i in sorted(idx)]))
        self._alive = idx if r else self._alive - idx
        return r

    def __eq__(self, o):
        if type(o) is SymEnum:
            return self.concrete() == o.concrete()
        return self._decide(self._eqcond(o))

    def __ne__(self, o):
        return not self.__eq__(o)

    def isin(self, objs):
        return self._decide([i for i in self._alive if any(self._dom[i] == o for o in objs)])

    def concrete(self):
        while len(self._alive) > 1:
            i = min(self._alive)
            self._decide([i])
        return self._dom[next(iter(self._alive))]

    def index(self):
        self.concrete()
        return next(iter(self._alive))

    def __hash__(self):
        return hash(self.concrete())

    def __str__(self):
        return str(self.concrete())

    __repr__ = __str__

    def __format__(self, s):
        return format(self.concrete(), s)

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        return getattr(self.concrete(), n)


# ------------------------------------------------------------------ explorer
_H = {}


def _run_one(harness, prefix):
    global CUR
    ctx = Ctx(prefix)
    CUR = ctx
    res = None
    try:
        res = harness(ctx)
        kind = "path"
    except PathEnd:
        kind = "out"
    except Inconclusive as e:
        kind = "inconclusive"
        res = {"why": str(e)}
    except Exception as e:
        kind = "error"
        res = {"why": "".join(traceback.format_exception(e)[-6:])}
    finally:
        CUR = None
    return kind, res, ctx


def _job(a):
    key, prefix, slice_s, order = a
    h = _H[key]
    stack = [prefix]
    out = {"paths": 0, "out": 0, "nq": 0, "tq": 0.0, "viol": [], "inc": [], "err": [], "cnt": collections.Counter(),
           "samples": [], "unkf": 0, "dec": 0, "keys": set()}
    t0 = time.time()
    while stack:
        p = stack.pop()
        kind, res, ctx = _run_one(h, p)
        stack.extend(ctx.alts)
        out["nq"] += ctx.nq
        out["tq"] += ctx.tq
        out["unkf"] += ctx.unknown_feas
        out["dec"] += len(ctx.dec) - len(p)
        if kind == "out":
            out["out"] += 1
        elif kind == "inconclusive":
            out["inc"].append((list(ctx.dec), res["why"]))
        elif kind == "error":
            out["err"].append((list(ctx.dec), res["why"]))
        else:
            out["paths"] += 1
            if res:
                for v in res.get("viol", ()):
                    v = dict(v)
                    v["dec"] = list(ctx.dec)
                    out["viol"].append(v)
                for c, n in res.get("cnt", {}).items():
                    out["cnt"][c] += n
                if res.get("key") is not None:
                    out["keys"].add(res["key"])
                if res.get("sample") is not None and len(out["samples"]) < 2:
                    out["samples"].append(res["sample"])
        if time.time() - t0 > slice_s or len(out["viol"]) > 20:
            break
    return key, out, stack


class Result:
    def __init__(self):
        self.paths = self.out = self.nq = self.dec = 0
        self.tq = 0.0
        self.viol, self.inc, self.err, self.samples = [], [], [], []
        self.cnt = collections.Counter()
        self.unkf = 0
        self.complete = True
        self.wall = 0.0
        self.by = {}
        self.keys = set()

    def merge(self, o):
        self.paths += o["paths"]; self.out += o["out"]; self.nq += o["nq"]; self.tq += o["tq"]
        self.dec += o["dec"]; self.unkf += o["unkf"]
        self.viol += o["viol"]; self.inc += o["inc"]; self.err += o["err"]
        self.cnt.update(o["cnt"])
        self.keys |= o["keys"]
        if len(self.samples) < 8:
            self.samples += o["samples"]


def _init(seed):
    import resource
    random.seed(seed)
    sys.setrecursionlimit(6000)


def explore(harnesses, budget_s=600, workers=None, slice_s=0.6, max_viol=25, shuffle_seed=None):
    """harnesses: dict name -> function(ctx). Explores all paths of all harnesses.
    shuffle_seed: explore in random order (only matters when the budget cuts the exploration)."""
    workers = workers or int(os.environ.get("AMA_WORKERS", "8"))
    t0 = time.time()
    _H.clear()
    _H.update(harnesses)
    R = Result()
    for k in harnesses:
        R.by[k] = Result()
    rng = random.Random(shuffle_seed)
    queue = [(k, []) for k in harnesses]
    queue.reverse()
    mpc = mp.get_context("fork")
    with mpc.Pool(workers, initializer=_init, initargs=(1,)) as pool:
        pend = []
        done = False
        while (queue or pend) and not done:
            while queue and len(pend) < workers * 2:
                if shuffle_seed is not None and len(queue) > 1:
                    j = rng.randrange(len(queue))
                    queue[j], queue[-1] = queue[-1], queue[j]
                k, p = queue.pop()
                # short slices while the queue is small, to spread the work
                sl = slice_s if len(queue) > 4 * workers else 0.1
                pend.append(pool.apply_async(_job, ((k, p, sl, None),)))
            time.sleep(0.002)
            np = []
            for a in pend:
                if a.ready():
                    key, o, left = a.get()
                    R.merge(o)
                    R.by[key].merge(o)
                    queue.extend((key, p) for p in left)
                else:
                    np.append(a)
            pend = np
            if len(R.viol) >= max_viol or len(R.err) > 20:
                R.complete = False
                done = True
            if time.time() - t0 > budget_s:
                R.complete = not (queue or pend)
                done = True
                R.left = len(queue) + len(pend)
        pool.terminate()
    R.wall = time.time() - t0
    return R


def replay(harness, dec):
    """re-run one path (for reporting)"""
    return _run_one(harness, dec)
