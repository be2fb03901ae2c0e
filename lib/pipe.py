"""The real pipeline of /repo: source text -> parse -> check -> bytecode."""
import os, sys, tempfile, contextlib, io, enum, re, shutil
REPO = os.environ.get("AMA_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
import amanda.compiler.parse as P
from amanda.compiler.check.core import Analyzer
from amanda.compiler.codegen import ByteGen
import amanda.compiler.codegen as CG
import amanda.compiler.ast as A
from amanda.compiler.error import AmandaError
from amanda.compiler.tokens import Token, TokenType as TT
from amanda.compiler.symbols.core import Module
from amanda.compiler import bindump


def _snapshot():
    """process-global mutable state of the compiler as it is right after import:
    containers in module globals and class attributes, and attributes of
    module-level instances (the built-in module object)"""
    boxes, objs, seen = [], [], set()

    def box(c):
        if isinstance(c, (dict, list, set)) and id(c) not in seen:
            seen.add(id(c))
            boxes.append((c, c.copy()))
    for mn in sorted(sys.modules):
        if mn.split(".")[0] != "amanda" or sys.modules[mn] is None:
            continue
        for n, g in list(vars(sys.modules[mn]).items()):
            if n.startswith("__"):
                continue
            box(g)
            if isinstance(g, type) and g.__module__.startswith("amanda"):
                for k, a in list(vars(g).items()):
                    if not k.startswith("_") or k == "_methods":
                        box(a)
            elif type(g).__module__.startswith("amanda") and hasattr(g, "__dict__") and not isinstance(g, enum.Enum):
                if id(g) not in seen:
                    seen.add(id(g))
                    for a in vars(g).values():
                        box(a)
                    objs.append((g, dict(vars(g))))
    return boxes, objs


_SNAP = _snapshot()


def reset_globals():
    """put the process-global state back to what a fresh process starts with"""
    for c, v in _SNAP[0]:
        if isinstance(c, list):
            c[:] = v
        else:
            c.clear()
            c.update(v)
    for g, d in _SNAP[1]:
        vars(g).clear()
        vars(g).update(d)


def check_program(fname):
    reset_globals()
    program = P.parse(fname)
    return Analyzer(fname, [], Module(fname)).visit_module(program)


def compile_file(fname, raw=False):
    module, imports = check_program(fname)
    return ByteGen(module).compile(imports, raw=raw)


FILE = re.compile(r"^#### ficheiro (\S+)\n", re.M)


@contextlib.contextmanager
def files(src, d=None):
    """the program on disk -> (path of its main file, paths of all of its files).
    A text may hold several files, each after a line `#### ficheiro NAME`; the
    current directory is then the one that holds them"""
    if not src.startswith("#### ficheiro "):
        fd, p = tempfile.mkstemp(suffix=".ama", dir=d)
        with os.fdopen(fd, "w", encoding="utf8", newline="") as f:
            f.write(src)
        try:
            yield p, {p}
        finally:
            os.unlink(p)
        return
    parts = FILE.split(src)[1:]
    d = os.path.realpath(tempfile.mkdtemp(dir=d))
    cwd = os.getcwd()
    try:
        ps = []
        for n, t in zip(parts[::2], parts[1::2]):
            ps.append(os.path.join(d, n))
            os.makedirs(os.path.dirname(ps[-1]), exist_ok=True)
            with open(ps[-1], "w", encoding="utf8", newline="") as f:
                f.write(t)
        os.chdir(d)
        yield os.path.join(d, "main.ama"), set(ps)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)


def compile_text(src, raw=False, d=None):
    """-> ("ok", module) | ("err", AmandaError) ; other exceptions propagate"""
    with files(src, d) as (p, _):
        try:
            return "ok", compile_file(p, raw=raw)
        except AmandaError as e:
            return "err", e
