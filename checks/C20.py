"""C20 VM arithmetic is exact or a reported error

The VM's own AmaValue::binop and AmaVM::run are compiled by Kani; the operands
are symbolic over all 64-bit integers / all doubles."""
import math, struct
from framework import Report, finish, functions_run, tv_check, THOROUGH
import framework
import kani, realvm, pipe
from gx import *

INT = {"+": "i64::try_from(a as i128 + b as i128).ok()", "-": "i64::try_from(a as i128 - b as i128).ok()", "*": "a.checked_mul(b)",
       "//": "if b == 0 { None } else { a.checked_div(b) }", "%": "if b == 0 { None } else { a.checked_rem(b) }"}
REAL = {"+": "Some(a + b)", "-": "Some(a - b)", "*": "Some(a * b)", "/": "if b == 0.0 { None } else { Some(a / b) }",
        "//": "if b == 0.0 { None } else { Some((a / b).trunc()) }", "%": "if b == 0.0 { None } else { Some(a) }"}
CMP = ["==", "!=", "<", "<=", ">", ">="]
NAMES = {"+": "OP_ADD", "-": "OP_MINUS", "*": "OP_MUL", "/": "OP_DIV", "//": "OP_FLOORDIV", "%": "OP_MODULO", "==": "OP_EQ", "!=": "OP_NOTEQ",
         "<": "OP_LESS", "<=": "OP_LESSEQ", ">": "OP_GREATER", ">=": "OP_GREATEREQ"}
W = {"add": "+", "sub": "-", "mul": "*", "div": "/", "fdiv": "//", "rem": "%", "eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}
TAG = {v: k for k, v in W.items()}

PRE = r"""
#[cfg(kani)]
mod ama_harness {
    use crate::ama_value::AmaValue;
    use crate::opcode::OpCode;
    use core::convert::TryFrom;
    use core::mem::ManuallyDrop as M;
    fn run(op: u8, l: AmaValue<'static>, r: AmaValue<'static>) -> (u8, i64, f64) {
        let (l, q) = (M::new(l), M::new(r));
        let r = AmaValue::binop(&l, OpCode::from(&op), &q);
        let out = match &r {
            Ok(AmaValue::Int(x)) => (1u8, *x, 0.0),
            Ok(AmaValue::F64(x)) => (2, 0, *x),
            Ok(AmaValue::Bool(b)) => (3, *b as i64, 0.0),
            Ok(_) => (9, 0, 0.0),
            Err(_) => (0, 0, 0.0),
        };
        core::mem::forget(r);
        out
    }
    fn operands(which: u8) -> (AmaValue<'static>, AmaValue<'static>, f64, f64) {
        if which == 0 { let (x, y): (f64, f64) = (kani::any(), kani::any()); (AmaValue::F64(x), AmaValue::F64(y), x, y) }
        else if which == 1 { let i: i64 = kani::any(); let y: f64 = kani::any(); (AmaValue::Int(i), AmaValue::F64(y), i as f64, y) }
        else { let x: f64 = kani::any(); let i: i64 = kani::any(); (AmaValue::F64(x), AmaValue::Int(i), x, i as f64) }
    }
    fn same(o: f64, y: f64) -> bool { o == y || (y != y && o != o) }
"""


def opnum():
    from amanda.compiler.codegen import OpCode
    return {s: OpCode[n].value for s, n in NAMES.items()}


def harnesses():
    n = opnum()
    H = {}

    def add(name, body, unwind=3):
        H["ama_harness::" + name] = f"    #[kani::proof]\n    #[kani::unwind({unwind})]\n    fn {name}() {{\n        {body}\n    }}\n"
    for s, e in INT.items():
        add("i_" + TAG[s], f"let (a, b): (i64, i64) = (kani::any(), kani::any()); let o = run({n[s]}, AmaValue::Int(a), AmaValue::Int(b)); "
            f"let want: Option<i64> = {e}; match want {{ Some(y) => assert!(o.0 == 1 && o.1 == y), None => assert!(o.0 == 0) }}")
    add("i_div", f"let (a, b): (i64, i64) = (kani::any(), kani::any()); let o = run({n['/']}, AmaValue::Int(a), AmaValue::Int(b)); "
        "if b == 0 { assert!(o.0 == 0) } else { assert!(o.0 == 2 && same(o.2, a as f64 / b as f64)) }")
    for s in CMP:
        add("i_" + TAG[s], f"let (a, b): (i64, i64) = (kani::any(), kani::any()); let o = run({n[s]}, AmaValue::Int(a), AmaValue::Int(b)); assert!(o.0 == 3 && (o.1 == 1) == (a {s} b))")
    for w in range(3):
        for s, e in REAL.items():
            # the value of % on doubles is out of the solvers' reach: its outcome only
            val = "" if s == "%" else " && same(o.2, y)"
            add(f"r{w}_" + TAG[s], f"let (l, r, a, b) = operands({w}); let o = run({n[s]}, l, r); let want: Option<f64> = {e}; "
                f"match want {{ Some(y) => assert!(o.0 == 2{val}), None => assert!(o.0 == 0) }}")
        for s in CMP:
            add(f"r{w}_" + TAG[s], f"let (l, r, a, b) = operands({w}); let o = run({n[s]}, l, r); assert!(o.0 == 3 && (o.1 == 1) == (a {s} b))")
    return H


VMPRE = r"""
#[cfg(kani)]
mod ama_vmh {
    use crate::alloc::Alloc;
    use crate::ama_value::AmaValue;
    use crate::modules::module::Module;
    use crate::values::function::{AmaFunc, FuncModule};
    use crate::vm::AmaVM;
    use core::convert::TryFrom;
    fn no_fmt(_a: std::fmt::Arguments<'_>) -> String { String::new() }
    fn no_defs<'a>() -> crate::modules::builtins::BuiltinDefs<'a> { Default::default() }
    fn same(o: f64, y: f64) -> bool { o == y || (y != y && o != o) }
    macro_rules! vm_run {
        ($m: ident, $ok: ident, $out: ident, $code: expr, $consts: expr) => {
            let $m = core::mem::ManuallyDrop::new(Module {
                name: String::from("m"), builtin: false, constants: $consts, names: vec![String::from("r")], code: $code,
                main: AmaFunc { name: "_inicio_", bp: -1, start_ip: 0, last_i: 0, ip: 0, locals: 0, module: FuncModule::Main },
                functions: vec![], globals: Default::default(), registos: vec![], src_map: vec![0, 7, 1],
            });
            let imports = core::mem::ManuallyDrop::new(Vec::new());
            let mut vm = core::mem::ManuallyDrop::new(AmaVM::new(&$m, &imports, Alloc::new()));
            let r = vm.run(&$m);
            let $ok = r.is_ok();
            core::mem::forget(r);
            let g = core::mem::ManuallyDrop::new($m.globals.borrow());
            let $out = match g.get("r") {
                Some(AmaValue::Int(x)) => (1u8, *x, 0.0),
                Some(AmaValue::F64(x)) => (2, 0, *x),
                Some(AmaValue::Bool(b)) => (3, *b as i64, 0.0),
                Some(_) => (9, 0, 0.0),
                None => (0, 0, 0.0),
            };
        };
    }
"""


def vm_harnesses(deep):
    from amanda.compiler.codegen import OpCode
    n = opnum()
    lc, sg, halt = OpCode.LOAD_CONST.value, OpCode.SET_GLOBAL.value, OpCode.HALT.value
    H = {}

    def add(name, decl, code, consts, claim):
        H["ama_vmh::" + name] = (f"    #[kani::proof]\n    #[kani::unwind(9)]\n    #[kani::stub(crate::modules::builtins::definitions, no_defs)]\n    #[kani::stub(std::fmt::format, no_fmt)]\n"
                                 f"    fn {name}() {{\n        {decl}\n        vm_run!(m, ok, o, vec!{code}, vec![{consts}]);\n        {claim}\n    }}\n")
    one = lambda op: [lc, 0, 0, op, sg, 0, 0, halt]
    two = lambda op: [lc, 0, 0, lc, 0, 1, op, sg, 0, 0, halt]
    inv, nao = OpCode.OP_INVERT.value, OpCode.OP_NOT.value
    add("neg_int", "let a: i64 = kani::any();", one(inv), "AmaValue::Int(a)", "match a.checked_neg() { Some(y) => assert!(ok && o.0 == 1 && o.1 == y), None => assert!(!ok && o.0 == 0) }")
    add("neg_real", "let a: f64 = kani::any();", one(inv), "AmaValue::F64(a)", "assert!(ok && o.0 == 2 && same(o.2, -a));")
    add("not_bool", "let a: bool = kani::any();", one(nao), "AmaValue::Bool(a)", "assert!(ok && o.0 == 3 && (o.1 == 1) == !a);")
    if deep:
        for s, e in INT.items():
            add("vi_" + TAG[s], "let (a, b): (i64, i64) = (kani::any(), kani::any());", two(n[s]), "AmaValue::Int(a), AmaValue::Int(b)",
                f"let want: Option<i64> = {e}; match want {{ Some(y) => assert!(ok && o.0 == 1 && o.1 == y), None => assert!(!ok && o.0 == 0) }}")
        for s in CMP:
            add("vi_" + TAG[s], "let (a, b): (i64, i64) = (kani::any(), kani::any());", two(n[s]), "AmaValue::Int(a), AmaValue::Int(b)", f"assert!(ok && o.0 == 3 && (o.1 == 1) == (a {s} b));")
    return H


# --- replay on the real compiler and VM
def oracle(op, a, b):
    """('int'|'real'|'bool', value) or 'err'"""
    isint = isinstance(a, int) and isinstance(b, int) if b is not None else isinstance(a, int)
    if op == "neg":
        if isint:
            return ("int", -a) if -a < 2**63 else "err"
        return ("real", -a)
    if op in CMP:
        x, y = (a, b) if isint else (float(a), float(b))
        return ("bool", {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op])
    if op in ("/", "//", "%") and b == 0:
        return "err"
    if isint and op != "/":
        q = abs(a) // abs(b) if op in ("//", "%") else 0
        q = q if op not in ("//", "%") or (a < 0) == (b < 0) else -q
        if op == "%" and a == -2**63 and b == -1:
            return "err"
        r = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "//": lambda: q, "%": lambda: a - q * b}[op]()
        return ("int", r) if -2**63 <= r < 2**63 else "err"
    x, y = float(a), float(b)

    def div():
        try:
            return x / y
        except OverflowError:
            return math.inf
    if op in "+-*":
        return ("real", {"+": x + y, "-": x - y, "*": x * y}[op])
    if op == "%":
        return ("real", math.nan if math.isinf(x) or math.isnan(x) or math.isnan(y) else math.fmod(x, y))
    d = div()
    return ("real", d if op == "/" else float(math.trunc(d)) if math.isfinite(d) else d)


def real_run(op, a, b):
    """the program reading the operands at run time -> (source, stdin, observed, agrees)"""
    t = lambda v: "int" if isinstance(v, int) else "real"
    src = f'a : {t(a)} = leia_{t(a)}("")\n'
    if b is not None:
        src += f'b : {t(b)} = leia_{t(b)}("")\nmostra a {op} b\n'
    else:
        src += "mostra -a\n"
    stdin = "".join(f"{v!r}\n" for v in (a, b) if v is not None)
    k, r = pipe.compile_text(src, raw=True)
    if k != "ok":
        return src, stdin, ("rejected", str(r)), False
    rc, out, err = realvm.run(bytes(r), stdin)
    want = oracle(op, a, b)
    if want == "err":
        return src, stdin, (rc, out, err), rc == 1 and out == ""
    ok = rc == 0
    s = out.strip()
    if want[0] == "int":
        ok = ok and s == str(want[1])
    elif want[0] == "bool":
        ok = ok and s == ("verdadeiro" if want[1] else "falso")
    else:
        try:
            v = float(s)
            ok = ok and (v == want[1] or (math.isnan(v) and math.isnan(want[1])))
        except ValueError:
            ok = False
    return src, stdin, (rc, out, err), ok


def decode(name, vals):
    h = name.split("::")[1]
    if h == "not_bool":
        return None
    if h.startswith("neg"):
        return "neg", (struct.unpack("<q", vals[0])[0] if h == "neg_int" else struct.unpack("<d", vals[0])[0]), None
    k, tag = h.split("_")
    op = W[tag]
    i = lambda v: struct.unpack("<q", v)[0]
    f = lambda v: struct.unpack("<d", v)[0]
    if k in ("i", "vi"):
        return op, i(vals[0]), i(vals[1])
    return op, *((f(vals[0]), f(vals[1])), (i(vals[0]), f(vals[1])), (f(vals[0]), i(vals[1])))[int(k[1])]


EDGE = [-2**63, -2**63 + 1, -2**53 - 1, -7, -1, 0, 1, 3, 2**31, 2**53 + 1, 2**62, 2**63 - 1]


def decide(rep, H, text, small, solvers, each, total):
    """runs the harnesses; solvers in order, the next one on what is left"""
    c = kani.Crate(text, small)
    left, got = list(H), {}
    for s in solvers:
        if not left:
            break
        res = c.run(left, s, each=each, total=total)
        for n, r in res.items():
            rep.solver_s += r[1]
            rep.queries += max(1, int(r[3].get("vccs_remaining", 1) or 1)) if r[0] != "unknown" else 0
            if r[0] != "unknown" or s == solvers[-1]:
                got[n] = r
        left = [n for n in left if n not in got]
        # one counterexample is enough to report; the rest would only cost time
    return c, got


def kani_part(rep):
    H = harnesses()
    done = {}
    try:
        c, got = decide(rep, H, PRE + "".join(H.values()) + "}\n", False, ["cvc5", "cadical"], 60 if not THOROUGH else 200, 500)
        done.update({n: (v, c) for n, v in got.items()})
    except kani.BuildError as e:
        rep.skipped.append("AmaValue::binop cannot be called by the harness: decided through AmaVM::run instead")
        H = {}
    VH = vm_harnesses(THOROUGH or not H)
    try:
        c2, got = decide(rep, VH, VMPRE + "".join(VH.values()) + "}\n", True, ["cadical"], 300, 700)
        done.update({n: (v, c2) for n, v in got.items()})
    except kani.BuildError as e:
        rep.skipped.append(f"AmaVM::run cannot be driven by the harness ({str(e)[-200:]}): decided by the program family only")
    ok = 0
    for n, (r, c) in done.items():
        if r[0] == "ok":
            ok += 1
            continue
        if r[0] == "unknown":
            rep.skipped.append(f"{n}: no verdict within the time limit {r[2]}")
            continue
        vals, failed = c.counterexample(n)
        d = decode(n, vals) if vals else None
        if d:
            src, stdin, obs, agrees = real_run(*d)
            if not agrees:
                rep.viol.append({"what": f"{d[0]} on {d[1]!r}, {d[2]!r}: the VM gives {obs}, expected {oracle(*d)} (Kani harness {n})", "sig": n.split('_')[-1] + n.split('::')[1][:2], "src": src, "stdin": stdin, "family": "kani"})
            else:
                rep.problems.append(f"{n}: counterexample {d} does not reproduce on the real VM")
        else:
            # no value extracted: the boundary pairs are tried on the real VM
            h = n.split("::")[1]
            op = "neg" if h.startswith("neg") else W.get(h.split("_")[-1])
            bad = None
            for a in EDGE:
                for b in EDGE if op != "neg" else [None]:
                    if op and bad is None:
                        src, stdin, obs, agrees = real_run(op, a, b)
                        bad = None if agrees else (src, stdin, obs, a, b)
            if bad:
                rep.viol.append({"what": f"{op} on {bad[3]}, {bad[4]}: the VM gives {bad[2]}, expected {oracle(op, bad[3], bad[4])} (Kani harness {n})", "sig": n, "src": bad[0], "stdin": bad[1], "family": "kani"})
            else:
                rep.problems.append(f"{n}: fails ({r[2]}) without a replayable value")
    rep.cov["kani_harnesses"] = len(done)
    rep.cov["kani_verified"] = ok
    rep.cov["kani_slowest_s"] = max([round(r[1], 1) for r, _ in done.values()] or [0])
    rep.functions |= {"amanda/vm/src/ama_value.rs:AmaValue::binop", "amanda/vm/src/opcode.rs:OpCode::from", "amanda/vm/src/vm.rs:AmaVM::run (OpInvert, OpNot, LoadConst, SetGlobal)"}
    # the boundary values, through the whole compiler and the real VM: agreement of harness and product
    n = 0
    for op in list(W.values()) + ["neg"]:
        for a in EDGE[::3] + [2.5]:
            for b in (EDGE[::4] + [0.5] if op != "neg" else [None]):
                src, stdin, obs, agrees = real_run(op, a, b)
                n += 1
                if not agrees:
                    rep.viol.append({"what": f"{op} on {a!r}, {b!r}: the real VM gives {obs}, expected {oracle(op, a, b)}", "sig": "replay" + op, "src": src, "stdin": stdin, "family": "replay"})
    rep.cov["replayed_on_real_vm"] = n


def ops(g):
    """whole programs: every operator over read operands and nested"""
    g = G(g)
    ty = g.choose(["int", "real"])
    op = g.choose(["+", "-", "*", "//", "%", "/", "<", "<=", "==", "!=", ">", ">="])
    form = g.choose(range(3))
    y = g.choose(["int", "real"])
    a, b = V("a", ty), V("b", y)
    rt = lambda o, x, z: "bool" if o in CMP else "real" if o == "/" or "real" in (x, z) else "int"
    e = Bin(op, a, b)
    st = [Decl("a", ty, Read(ty)), Decl("b", y, Read(y))]
    defs = []
    if form == 0:
        st += [Mostra(e)]
    elif form == 1:
        st += [Mostra(Un("-", a)), Mostra(Un("-", Par(e))) if rt(op, ty, y) != "bool" else Mostra(Un("nao", Par(e)))]
    elif form == 2:
        defs = [Func("f", [("p", ty), ("q", y)], rt(op, ty, y), [RetS(Bin(op, V("p", ty), V("q", y)))])]
        st += [Mostra(Call("f", [a, b], rt(op, ty, y)))]
    return defs + st


def main():
    return tv_check("C20", {"ops": (ops, {"lo": -2**63, "hi": 2**63 - 1})}, [
        "Kani: AmaValue::binop for + - * / // % and the six comparisons, on every pair of 64-bit integers and every pair real/real, int/real, real/int of doubles (% on reals: whether it is an error only)",
        "Kani: AmaVM::run on bytecode applying sign change and nao to every integer, real and boolean (initial stack 8 and 6 frames instead of 256 and 1000)",
        "thorough: the same integer operators through AmaVM::run"],
        ["Rust's checked_* methods, i128 arithmetic and IEEE operations are the meaning of exact arithmetic; -0.0 and 0.0 are not distinguished",
         "rustc-hash and Rc are replaced by stand-ins in the model; Kani's translation of Rust is trusted, boundary values are replayed on the real VM"],
        extra=kani_part, level="other")
