"""C21 compiler and VM agree on every opcode

Kani runs the VM's own dispatch loop on bytecode whose numbers come from the compiler's
table: for each operation, with its operands and operand bytes symbolic, the resulting
stack, slots, globals and instruction pointer are those that lib/vm.py states (the meaning
on which every translation check relies)."""
import os, re, struct
import kani, realvm, pipe, vm, tv
from framework import Report, finish, THOROUGH

norm = lambda n: n.replace("_", "").lower().replace("opunwrap", "unwrap").replace("opisnull", "isnull")
PRE = r"""
#[cfg(kani)]
mod ama_ops {
    use super::*;
    use core::mem::ManuallyDrop as M;
    use crate::values::amatype::Type;
    use crate::values::function::NativeFunc;
    use crate::values::registo::Registo;
    type V<'a> = AmaValue<'a>;
    fn no_defs<'a>() -> crate::modules::builtins::BuiltinDefs<'a> { Default::default() }
    fn no_fmt(_a: std::fmt::Arguments<'_>) -> String { String::new() }
    fn n(t: &str) -> String { String::from(t) }
    fn main_at<'a>(ip: usize) -> AmaFunc<'a> { AmaFunc { name: "_inicio_", bp: -1, start_ip: ip, last_i: ip, ip, locals: 0, module: FuncModule::Main } }
    fn module<'a>(code: Vec<u8>, constants: Vec<V<'a>>, names: Vec<String>, registos: Vec<Registo<'a>>) -> Module<'a> {
        Module { name: n("m"), builtin: false, constants, names, code, main: main_at(0), functions: vec![], globals: Default::default(), registos, src_map: vec![0, 99, 1] }
    }
    fn int(v: &V) -> Option<i64> { match v { AmaValue::Int(x) => Some(*x), _ => None } }
    fn boolean(v: &V) -> Option<bool> { match v { AmaValue::Bool(x) => Some(*x), _ => None } }
    macro_rules! go {
        ($m: ident, $vm: ident, $ok: ident, $base: ident, $code: expr, $consts: expr, $names: expr, $regs: expr, $imports: expr, [$($v: expr),*]) => {
            let $m = M::new(module($code, $consts, $names, $regs));
            let imports = M::new($imports);
            let mut $vm = M::new(AmaVM::new(&$m, &imports, Alloc::new()));
            $vm.values.push(AmaValue::Int(-77));
            let $base = $vm.values.len();
            $($vm.values.push($v);)*
            let r = $vm.run(&$m);
            let $ok = r.is_ok();
            core::mem::forget(r);
        };
    }
    // the values from `base` on are exactly `k`, and the one below is untouched
    macro_rules! left { ($vm: ident, $base: ident, $k: expr) => {
        assert!($vm.sp == $base as isize - 1 + $k, "operands taken and left");
        assert!($vm.values.len() <= $base + 1, "space");
        assert!(int(&$vm.values[$base - 1]) == Some(-77), "the value below");
    } }
"""

H = {}
CASES = {}


def num():
    from amanda.compiler.codegen import OpCode
    return {norm(o.name): o.value for o in OpCode}


def table():
    """norm name -> byte as the compiler writes it"""
    return num()


def build():
    N = num()
    halt = N["halt"]
    out = {}

    def add(name, decl, code, claim, pre=(), consts=(), names=(), regs=(), imports="Vec::new()", unwind=9, stubs=(), before=""):
        """code: rust byte expressions; ints for opcodes resolved by @name"""
        b = [str(N[c[1:]]) if isinstance(c, str) and c.startswith("@") else str(c) for c in code] + [str(halt)]
        out["vm::ama_ops::" + name] = f"""    #[kani::proof]
    #[kani::unwind({unwind})]
    #[kani::stub(crate::modules::builtins::definitions, no_defs)]
    #[kani::stub(std::fmt::format, no_fmt)]
{"".join(f"    #[kani::stub({x})]" + chr(10) for x in stubs)}    fn {name}() {{
        {decl}
        {before}
        go!(m, vm, ok, base, vec![{', '.join(b)}], vec![{', '.join(consts)}], vec![{', '.join(f'n("{x}")' for x in names)}], vec![{', '.join(regs)}], {imports}, [{', '.join(pre)}]);
        {claim}
    }}
"""
    I = lambda x: f"AmaValue::Int({x})"
    end = lambda at: f'assert!(ok && vm.frames.peek().ip == {at}, "next instruction"); '
    A1 = "let a: i64 = kani::any(); "
    A2 = "let (a, b): (i64, i64) = (kani::any(), kani::any()); "
    A3 = "let (a, b, c): (i64, i64, i64) = (kani::any(), kani::any(), kani::any()); "
    pick = lambda i: f"(if {i} == 0 {{ a }} else if {i} == 1 {{ b }} else {{ c }})"
    top = "vm.values[base]"
    u8s = lambda n: " ".join(f"let b{k}: u8 = kani::any();" for k in range(n))
    idx = "let i: u8 = kani::any(); kani::assume(i < 3); "
    add("load_const", A3 + idx, ["@loadconst", 0, "i"], end(3) + f"left!(vm, base, 1); assert!(int(&{top}) == Some({pick('i')}));", consts=[I("a"), I("b"), I("c")])
    add("load_name", idx, ["@loadname", 0, "i"], end(3) + f'left!(vm, base, 1); match &{top} {{ AmaValue::Str(s) => assert!(s.as_bytes()[0] == b\'p\' + i), _ => assert!(false) }}', names=["p", "q", "r"])
    add("load_registo", idx.replace("3", "2"), ["@loadregisto", 0, "i"], end(3) + f'left!(vm, base, 1); match &{top} {{ AmaValue::Registo(r) => assert!(r.name.as_bytes()[0] == b\'A\' + i), _ => assert!(false) }}',
        regs=['Registo { name: "A", fields: vec![] }', 'Registo { name: "B", fields: vec![] }'])
    add("set_global", A1 + idx, ["@setglobal", 0, "i"], end(3) + 'left!(vm, base, 0); let g = M::new(m.globals.borrow()); assert!(g.len() == 1); let k = if i == 0 { "p" } else if i == 1 { "q" } else { "r" }; match g.get(k) { Some(v) => assert!(int(v) == Some(a)), None => assert!(false) }',
        names=["p", "q", "r"], pre=[I("a")])
    add("get_global", A2 + idx.replace("3", "2"), ["@getglobal", 0, "i"], end(3) + f"left!(vm, base, 1); assert!(int(&{top}) == Some(if i == 0 {{ a }} else {{ b }}));", names=["p", "q"])
    out["vm::ama_ops::get_global"] = out["vm::ama_ops::get_global"].replace("go!(m, vm", "go_g!(a, b, m, vm")
    for t in (9, 11):
        add(f"jump{t}", "", ["@jump", *[0] * 7, t, halt, halt], end(t) + "left!(vm, base, 0);")
    for c in ("true", "false"):
        add(f"jump_if_{c}", "", ["@jumpiffalse", *[0] * 7, 11, halt, halt], end(9 if c == "true" else 11) + "left!(vm, base, 0);", pre=[f"AmaValue::Bool({c})"], stubs=[f"AmaVM::op_pop, pop_{c}"])
    add("set_local", A1 + idx, ["@setlocal", 0, "i"], end(3) + "left!(vm, base, 0); assert!(int(&vm.values[i as usize]) == Some(a)); for k in 0..3 { assert!(k == i as usize || vm.values[k].is_none()); }", pre=[I("a")])
    add("get_local", A2 + idx.replace("3", "2"), ["@getlocal", 0, "i"], end(3) + f"left!(vm, base, 1); assert!(int(&{top}) == Some(if i == 0 {{ a }} else {{ b }}));")
    out["vm::ama_ops::get_local"] = out["vm::ama_ops::get_local"].replace("go!(m, vm", "go_l!(a, b, m, vm")
    add("pop_top", A1, ["@poptop"], end(1) + "left!(vm, base, 0);", pre=[I("a")])
    add("is_null", "let k: u8 = kani::any(); let v = match k { 0 => AmaValue::None, 1 => AmaValue::Int(0), 2 => AmaValue::Bool(false), 3 => AmaValue::F64(0.0), 4 => AmaValue::Str(Cow::Borrowed(\"\")), _ => AmaValue::Variant(0, None) };",
        ["@isnull"], end(1) + f"left!(vm, base, 1); assert!(boolean(&{top}) == Some(k == 0));", pre=["v"])
    add("unwrap_or", A2 + "let t: bool = kani::any();", ["@unwrap", 1], end(2) + f"left!(vm, base, 1); assert!(int(&{top}) == Some(if t {{ b }} else {{ a }}));", pre=["if t { AmaValue::None } else { AmaValue::Int(a) }", I("b")])
    add("unwrap_some", A1, ["@unwrap", 0], end(2) + f"left!(vm, base, 1); assert!(int(&{top}) == Some(a));", pre=[I("a")])
    add("unwrap_null", "", ["@unwrap", 0], 'assert!(!ok, "null reference");', pre=["AmaValue::None"])
    add("and", "let (x, y): (bool, bool) = (kani::any(), kani::any());", ["@opand"], end(1) + f"left!(vm, base, 1); assert!(boolean(&{top}) == Some(x && y));", pre=["AmaValue::Bool(x)", "AmaValue::Bool(y)"])
    add("or", "let (x, y): (bool, bool) = (kani::any(), kani::any());", ["@opor"], end(1) + f"left!(vm, base, 1); assert!(boolean(&{top}) == Some(x || y));", pre=["AmaValue::Bool(x)", "AmaValue::Bool(y)"])
    for k in range(4):
        vs = ["a", "b", "c"][:k]
        chk = " ".join(f"assert!(int(&v[{j}]) == Some({x}));" for j, x in enumerate(vs))
        add(f"build_vec{k}", A3, ["@buildvec", k], end(2) + f"left!(vm, base, 1); match &{top} {{ AmaValue::Vector(v) => {{ let v = M::new(v.borrow()); assert!(v.len() == {k}); {chk} }} _ => assert!(false) }}", pre=[I(x) for x in vs])
    for k in range(3):
        vs = ["a", "b"][:k]
        chk = " ".join(f"assert!(int(&v[{j}]) == Some({x}));" for j, x in enumerate(vs))
        body = f"Some(v) => {{ assert!(v.len() == {k}); {chk} }} None => assert!(false)" if k else "None => (), Some(_) => assert!(false)"
        add(f"build_variant{k}", A2 + "let tag: u32 = kani::any();", ["@buildvariant", k], end(2) + f"left!(vm, base, 1); match &{top} {{ AmaValue::Variant(t, args) => {{ assert!(*t == tag as u64); match args {{ {body} }} }} _ => assert!(false) }}", pre=[I(x) for x in vs] + ["AmaValue::Int(tag as i64)"])
    add("match_variant", "let tag: u64 = kani::any(); " + u8s(8), ["@matchvariant", *[f"b{k}" for k in range(8)]], end(9) + f"left!(vm, base, 1); assert!(boolean(&{top}) == Some(tag == u64::from_be_bytes([{', '.join(f'b{k}' for k in range(8))}])));", pre=["AmaValue::Variant(tag, None)"])
    add("bind1", A1, ["@bindmatchargs", 1], end(2) + "left!(vm, base, 0); assert!(int(&vm.values[2]) == Some(a));", pre=["AmaValue::None", "AmaValue::Int(2)"], stubs=["AmaVM::op_pop, pop_variant"], before="unsafe { PA = a }")
    add("bind2", A2, ["@bindmatchargs", 2],
        end(2) + "left!(vm, base, 0); assert!(int(&vm.values[2]) == Some(a) && int(&vm.values[0]) == Some(b));", pre=["AmaValue::None", "AmaValue::Int(2)", "AmaValue::Int(0)"], stubs=["AmaVM::op_pop, pop_variant"], before="unsafe { PA = a; PB = b }")
    vec = lambda k: "AmaValue::Vector(Rc::new(RefCell::new(vec![" + ", ".join(f"AmaValue::Int({x})" for x in ["a", "b", "c"][:k]) + "])))"
    for k in (0, 2, 3):
        get = f"if i >= 0 && i < {k} {{ assert!(ok && vm.frames.peek().ip == 1); left!(vm, base, 1); " + (f"assert!(int(&{top}) == Some({pick('i')}));" if k else "") + " } else { assert!(!ok) }"
        add(f"index_get{k}", A3 + "let i: i64 = kani::any();", ["@opindexget"], get, pre=[vec(k), I("i")])
        st = " ".join(f"assert!(int(&x[{j}]) == Some(if i == {j} {{ d }} else {{ {v} }}));" for j, v in enumerate(["a", "b", "c"][:k]))
        add(f"index_set{k}", A3 + f"let (i, d): (i64, i64) = (kani::any(), kani::any()); let v = Rc::new(RefCell::new(vec![{', '.join(I(x) for x in ['a', 'b', 'c'][:k])}])); let w = Rc::clone(&v);", ["@opindexset"],
            f"let x = M::new(w.borrow()); assert!(x.len() == {k}); {st} if i >= 0 && i < {k} {{ assert!(ok && vm.frames.peek().ip == 1); left!(vm, base, 0); }} else {{ assert!(!ok) }}", pre=["AmaValue::Vector(v)", I("i"), I("d")])
    S = lambda t: f'AmaValue::Str(Cow::Borrowed("{t}"))'
    reg = ['Registo { name: "P", fields: vec![n("x"), n("y")] }']
    add("build_obj2", A2, ["@buildobj", 2], end(2) + f"left!(vm, base, 1); match &{top} {{ AmaValue::RegObj(o) => {{ let o = M::new(o.borrow()); let (x, y) = (M::new(o.get(&{S('x')})), M::new(o.get(&{S('y')}))); assert!(int(&x) == Some(a) && int(&y) == Some(b)); }} _ => assert!(false) }}",
        pre=[S("x"), I("a"), S("y"), I("b"), "AmaValue::Registo(&R)"], stubs=["crate::ama_value::AmaValue::equals, eq_stub"])
    add("build_obj0", "", ["@buildobj", 0], end(2) + f"left!(vm, base, 1); match &{top} {{ AmaValue::RegObj(_) => (), _ => assert!(false) }}", pre=["AmaValue::Registo(&R)"])
    obj = "let o = Rc::new(RefCell::new(RegObj::new(&R))); { let mut w = M::new(o.borrow_mut()); w.set(" + S("x") + ", AmaValue::Int(a)); w.set(" + S("y") + ", AmaValue::Int(b)); } unfreeze(&o); let p = Rc::clone(&o); "
    obj = "let o = object(a, b); let p = Rc::clone(&o); "
    add("get_prop", A2 + "let f: bool = kani::any(); " + obj, ["@getprop"], end(1) + f"left!(vm, base, 1); assert!(int(&{top}) == Some(if f {{ a }} else {{ b }}));", pre=["AmaValue::RegObj(o)", f"if f {{ {S('x')} }} else {{ {S('y')} }}"], stubs=["crate::ama_value::AmaValue::equals, eq_stub"])
    add("set_prop", A3 + "let f: bool = kani::any(); " + obj, ["@setprop"], end(1) + f"left!(vm, base, 0); let q = M::new(p.borrow()); let (x, y) = (M::new(q.get(&{S('x')})), M::new(q.get(&{S('y')}))); assert!(int(&x) == Some(if f {{ c }} else {{ a }}) && int(&y) == Some(if f {{ b }} else {{ c }}));",
        pre=["AmaValue::RegObj(o)", f"if f {{ {S('x')} }} else {{ {S('y')} }}", I("c")], stubs=["crate::ama_value::AmaValue::equals, eq_stub"])
    T = "AmaValue::Type(Type::{})"
    add("cast", A1, ["@cast", 0], end(2) + f"left!(vm, base, 1); assert!(int(&{top}) == Some(a ^ 5));", pre=[I("a"), T.format("Real")], stubs=["crate::ama_value::cast, some_cast"])
    add("cast_err", "", ["@cast", 0], "assert!(!ok);", pre=["AmaValue::Bool(true)", T.format("Real")], stubs=["crate::ama_value::cast, some_cast"])
    add("check_cast", A1 + "let k: u8 = kani::any(); kani::assume(k < 4); let t = match k { 0 => Type::Int, 1 => Type::Real, 2 => Type::Texto, _ => Type::Bool };", ["@cast", 1],
        f"if k == 0 {{ assert!(ok && vm.frames.peek().ip == 2); left!(vm, base, 1); assert!(int(&{top}) == Some(a)); }} else {{ assert!(!ok) }}", pre=[I("a"), "AmaValue::Type(t)"])
    FS = ["FrameStack::push, push_once", "AmaVM::op_pop, pop_func"]
    ok_native, bad_native = ["AmaVM::op_pop, pop_native"], ["AmaVM::op_pop, pop_native_err"]
    add("call_native", A2, ["@callfunction", 2], end(2) + f"left!(vm, base, 1); assert!(int(&{top}) == Some(a ^ (b | 1)));", pre=[I("a"), I("b"), 'AmaValue::NativeFn(NativeFunc { name: "f", func: native })'], stubs=ok_native)
    add("call_native_err", A2, ["@callfunction", 2], "assert!(!ok);", pre=[I("a"), I("b"), 'AmaValue::NativeFn(NativeFunc { name: "f", func: native_err })'], stubs=bad_native)
    for k, loc in ((0, 0), (0, 2), (1, 1), (2, 4)):
        vs = [I(x) for x in ["a", "b"][:k]]
        chk = " ".join(f"assert!(int(&vm.values[base + {j}]) == Some({x}));" for j, x in enumerate(["a", "b"][:k])) + " ".join(f"assert!(vm.values[base + {j}].is_none());" for j in range(k, loc))
        add(f"call{k}_{loc}", A2, ["@callfunction", k], f'assert!(!ok); let f = unsafe {{ LAST.unwrap() }}; assert!(f.0 == base as isize && f.1 == 7 && f.2 == {loc}, "frame"); assert!(unsafe {{ FROM }} == 2, "return address"); assert!(vm.sp == (base + {loc}) as isize - 1 && vm.values.len() == base + {loc}); {chk} assert!(int(&vm.values[base - 1]) == Some(-77));',
            pre=vs + ['AmaValue::None'], stubs=FS, unwind=12, before=f"unsafe {{ PL = {loc} }}")
    add("module_def", A2 + "let i: u8 = kani::any(); kani::assume(i < 2);", ["@loadmoduledef", *[0] * 7, 0, *[0] * 7, "i"], end(17) + f"left!(vm, base, 1); assert!(int(&{top}) == Some(if i == 0 {{ a }} else {{ b }}));", names=["p", "q"],
        imports=f"vec![import_module({halt}, a, b)]")
    out["vm::ama_ops::u16_arg"] = args_harness("u16_arg", 2, "get_u16_arg", "u16")
    out["vm::ama_ops::u64_arg"] = args_harness("u64_arg", 8, "get_u64_arg", "u64")
    out["vm::ama_ops::ret"] = f"""    #[kani::proof]
    #[kani::unwind(14)]
    #[kani::stub(crate::modules::builtins::definitions, no_defs)]
    #[kani::stub(std::fmt::format, no_fmt)]
    fn ret() {{
        let a: i64 = kani::any();
        let m = M::new(module(vec![{N['return']}, {halt}], vec![], vec![], vec![]));
        let imports = M::new(Vec::new());
        let mut vm = M::new(AmaVM::new(&m, &imports, Alloc::new()));
        let _ = vm.frames.push(main_at(1));
        vm.values.push(AmaValue::Int(7));
        vm.values.push(AmaValue::Int(a));
        let r = vm.run(&m);
        let ok = r.is_ok();
        core::mem::forget(r);
        assert!(ok && vm.frames.sp == 0 && vm.frames.peek().ip == 1);
        assert!(vm.sp == 0 && int(&vm.values[0]) == Some(a), "the result takes the place of the arguments");
        assert!(vm.values.len() == 1, "the space of the call is released");
    }}
"""
    return out


def args_harness(name, n, fn, ty):
    return f"""    #[kani::proof]
    #[kani::unwind(10)]
    #[kani::stub(crate::modules::builtins::definitions, no_defs)]
    #[kani::stub(std::fmt::format, no_fmt)]
    fn {name}() {{
        {' '.join(f"let b{k}: u8 = kani::any();" for k in range(n))}
        let m = M::new(module(vec![9, {', '.join(f'b{k}' for k in range(n))}, 9], vec![], vec![], vec![]));
        let imports = M::new(Vec::new());
        let mut vm = M::new(AmaVM::new(&m, &imports, Alloc::new()));
        vm.ctx_module = Some(&m);
        let _ = vm.frames.push(main_at(0));
        assert!(vm.{fn}() == {ty}::from_be_bytes([{', '.join(f'b{k}' for k in range(n))}]));
        assert!(vm.frames.peek().ip == {n});
    }}
"""


EXTRA = r"""
    use std::cell::RefCell;
    static mut LAST: Option<(isize, usize, usize)> = None;
    static mut FROM: usize = 0;
    fn push_once<'a: 'a>(this: &mut FrameStack<'a>, f: AmaFunc<'a>) -> Result<(), ()> {
        if this.sp < 0 { this.sp = 0; this.stack[0] = Some(f); return Ok(()); }
        unsafe { LAST = Some((f.bp, f.ip, f.locals)); FROM = this.peek().ip; }
        Err(())
    }
    static mut PA: i64 = 0;
    static mut PB: i64 = 0;
    static mut PL: usize = 0;
    fn drop_top<'a>(this: &mut AmaVM<'a>) { this.sp -= 1; let v = this.values.pop(); core::mem::forget(v); }
    fn pop_true<'a: 'a>(this: &mut AmaVM<'a>) -> AmaValue<'a> { drop_top(this); AmaValue::Bool(true) }
    fn pop_false<'a: 'a>(this: &mut AmaVM<'a>) -> AmaValue<'a> { drop_top(this); AmaValue::Bool(false) }
    fn pop_variant<'a: 'a>(this: &mut AmaVM<'a>) -> AmaValue<'a> { drop_top(this); unsafe { AmaValue::Variant(3, Some(Rc::new(vec![AmaValue::Int(PA), AmaValue::Int(PB)]))) } }
    fn pop_func<'a: 'a>(this: &mut AmaVM<'a>) -> AmaValue<'a> { drop_top(this); AmaValue::Func(AmaFunc { name: "f", bp: -1, start_ip: 7, last_i: 7, ip: 7, locals: unsafe { PL }, module: FuncModule::Main }) }
    fn pop_native<'a: 'a>(this: &mut AmaVM<'a>) -> AmaValue<'a> { drop_top(this); AmaValue::NativeFn(NativeFunc { name: "f", func: native }) }
    fn pop_native_err<'a: 'a>(this: &mut AmaVM<'a>) -> AmaValue<'a> { drop_top(this); AmaValue::NativeFn(NativeFunc { name: "f", func: native_err }) }
    fn some_cast<'a>(v: &AmaValue, t: Type) -> Result<AmaValue<'a>, String> { match (v, t) { (AmaValue::Int(x), Type::Real) => Ok(AmaValue::Int(*x ^ 5)), _ => Err(String::new()) } }
    static R: Registo<'static> = Registo { name: "P", fields: Vec::new() };
    fn object<'a>(a: i64, b: i64) -> RcCell<RegObj<'a>> {
        let mut o = RegObj::new(&R);
        o.set(AmaValue::Str(Cow::Borrowed("x")), AmaValue::Int(a));
        o.set(AmaValue::Str(Cow::Borrowed("y")), AmaValue::Int(b));
        Rc::new(RefCell::new(o))
    }
    fn eq_stub<'a: 'a>(l: &AmaValue<'a>, r: &AmaValue<'a>) -> bool { match (l, r) { (AmaValue::Str(Cow::Borrowed(x)), AmaValue::Str(Cow::Borrowed(y))) => x.as_bytes()[0] == y.as_bytes()[0], _ => false } }
    fn native<'a>(args: &[AmaValue<'a>], _al: &mut Alloc<'a>) -> Result<AmaValue<'a>, AmaErr> { Ok(AmaValue::Int(args[0].take_int() ^ (args[1].take_int() | (args.len() as i64 - 1)))) }
    fn native_err<'a>(_args: &[AmaValue<'a>], _al: &mut Alloc<'a>) -> Result<AmaValue<'a>, AmaErr> { Err(String::new()) }
    fn import_module<'a>(halt: u8, a: i64, b: i64) -> Module<'a> {
        let m = module(vec![halt], vec![], vec![], vec![]);
        { let mut g = m.globals.borrow_mut(); g.insert("p", AmaValue::Int(a)); g.insert("q", AmaValue::Int(b)); }
        m
    }
    macro_rules! go_g {
        ($a: ident, $b: ident, $m: ident, $vm: ident, $ok: ident, $base: ident, $code: expr, $consts: expr, $names: expr, $regs: expr, $imports: expr, []) => {
            let $m = M::new(module($code, $consts, $names, $regs));
            { let mut g = $m.globals.borrow_mut(); g.insert("p", AmaValue::Int($a)); g.insert("q", AmaValue::Int($b)); }
            let imports = M::new($imports);
            let mut $vm = M::new(AmaVM::new(&$m, &imports, Alloc::new()));
            $vm.values.push(AmaValue::Int(-77));
            let $base = $vm.values.len();
            let r = $vm.run(&$m);
            let $ok = r.is_ok();
            core::mem::forget(r);
        };
    }
    macro_rules! go_l {
        ($a: ident, $b: ident, $m: ident, $vm: ident, $ok: ident, $base: ident, $code: expr, $consts: expr, $names: expr, $regs: expr, $imports: expr, []) => {
            let $m = M::new(module($code, $consts, $names, $regs));
            let imports = M::new($imports);
            let mut $vm = M::new(AmaVM::new(&$m, &imports, Alloc::new()));
            $vm.values.push(AmaValue::Int(-77));
            let $base = $vm.values.len();
            $vm.values[0] = AmaValue::Int($a);
            $vm.values[1] = AmaValue::Int($b);
            let r = $vm.run(&$m);
            let $ok = r.is_ok();
            core::mem::forget(r);
        };
    }
"""


def text(hs):
    return PRE + EXTRA + "".join(hs.values()) + "}\n"


def opcode_harness():
    """every byte the compiler writes is decoded as the operation of that name"""
    s = open(os.path.join(realvm.REPO, "amanda/vm/src/opcode.rs"), encoding="utf8").read()
    body = re.search(r"enum\s+OpCode\s*\{(.*?)\}", re.sub(r"//[^\n]*|/\*.*?\*/", "", s, flags=re.S), re.S)
    if not body:
        return {}
    names = {norm(x): x for x in re.findall(r"(?:^|,)\s*(?:#\[[^\]]*\]\s*)*([A-Z]\w*)", body.group(1))}
    N = num()
    if not set(N) <= set(names):
        return {}
    arms = " ".join(f"{b} => matches!(o, OpCode::{names[k]})," for k, b in N.items())
    return {"vm::ama_ops::decode": f"""    #[kani::proof]
    #[kani::unwind(2)]
    fn decode() {{
        let b: u8 = kani::any();
        kani::assume({' || '.join(f'b == {x}' for x in N.values())});
        let o = OpCode::from(&b);
        assert!(match b {{ {arms} _ => false }}, "operation of that number");
    }}
"""}


SLOW = {"bind1", "bind2", "build_obj2", "set_prop", "module_def", "get_prop", "index_get3", "get_local", "get_global", "index_set3", "build_vec2", "build_variant2", "load_registo"}


# ------------------------------------------------- the same operations on the real VM
def corpus():
    """(operations, program, stdin, output): boundary values of every operation and table"""
    rep = lambda f, n, s="": s.join(f.format(i=i) for i in range(n))
    P = []
    add = lambda ops, src, out, stdin="": P.append((set(ops.split()), src, stdin, out))
    n = 700
    add("load_const u16_arg", rep("mostra {i}\n", n), rep("{i}\n", n))
    add("set_global get_global load_name u16_arg", rep("g{i}: int = {i}\n", n) + rep("mostra g{i}\n", n), rep("{i}\n", n))
    add("set_local get_local u16_arg", "func f()\n" + rep("g{i}: int = {i}\n", n) + rep("mostra g{i}\n", n) + "fim\nf()\n", rep("{i}\n", n))
    add("set_local get_local", "se verdadeiro entao\n" + rep("g{i}: int = {i}\n", n) + rep("mostra g{i}\n", n) + "fim\n", rep("{i}\n", n))
    add("load_registo build_obj get_prop", rep("registo R{i}\na{i}: int\nb: int\nfim\n", 300) + rep("r{i}: R{i} = R{i}(a{i}: {i}, b: 1)\nmostra r{i}.a{i}\nmostra r{i}\n", 300), rep("{i}\n<Instância do tipo R{i}>\n", 300))
    add("jump jump_if u64_arg", "x: int = leia_int(\"\")\nse x == 1 entao\n" + rep("mostra {i}\n", 400) + "senao\nmostra 7\nfim\nmostra 8\n", "7\n8\n", "2\n")
    add("jump jump_if u64_arg", "x: int = leia_int(\"\")\nse x == 1 entao\n" + rep("mostra {i}\n", 400) + "senao\nmostra 7\nfim\nmostra 8\n", rep("{i}\n", 400) + "8\n", "1\n")
    add("jump jump_if", "para i de 0..3 faca\nenquanto verdadeiro faca\nquebra\nfim\nmostra i\nfim\n", "0\n1\n2\n")
    add("match_variant build_variant bind", "uniao U\n" + ",\n".join(f"V{i}(int, int, texto)" if i % 2 else f"V{i}" for i in range(300)) + "\nfim\n" + "func f(u: U): int\nretorna iguala u\n" + rep("V", 0) + "".join(f"U::V{i}(a, b, _) => a * 10 + b + {i}\n" if i % 2 else f"U::V{i} => {i}\n" for i in range(300)) + "fim\nfim\n" +
        "mostra f(U::V255(1, 2, \"x\"))\nmostra f(U::V256)\nmostra f(U::V299(3, 4, \"y\"))\nmostra f(U::V0)\nmostra f(U::V1(5, 6, \"\"))\n", "267\n256\n333\n0\n57\n")
    add("call return", "func a(): int\nretorna 1\nfim\nfunc b(x: int): int\ny: int = x * 2\nz: int = y + 1\nretorna z\nfim\nfunc c(x: int, y: int, z: int): int\nk: int = x\nretorna k * 100 + y * 10 + z\nfim\nmostra a() + b(3) * c(1, a() + 1, b(1))\nmostra c(b(1), b(2), b(a()))\n", f"{1 + 7 * 123}\n{353}\n")
    add("call return", "func s(n: int): int\nse n == 0 entao\nretorna 0\nfim\nm: int = s(n - 1)\nretorna m + n\nfim\nmostra s(900)\n", "405450\n")
    add("call return", "func p(" + rep("a{i}: int", 255, ", ") + "): int\nretorna a0 * 1000 + a254\nfim\nmostra p(" + rep("{i}", 255, ", ").replace("0,", "9,", 1) + ")\n", "9254\n")
    add("call_native module_def", "v: [int] = [int: 1, 2]\nanexa(v, 3)\nmostra remova(v, 0)\nmostra v\nmostra tam(v) + tam(\"abc\")\n", "1\n[2, 3]\n5\n")
    for k in (0, 1, 2, 3, 255):
        add("build_vec index_get index_set", f"v: [int] = [int: " + rep("{i}", k, ", ") + "]\nmostra v\nmostra tam(v)\n" + (f"v[{k - 1}] = 77\nmostra v[{k - 1}]\nmostra v[0]\n" if k else ""), "[" + rep("{i}", k, ", ") + f"]\n{k}\n" + (f"77\n{77 if k == 1 else 0}\n" if k else "")) if k else \
            add("build_vec", "v: [int] = vec(int, 0)\nmostra v\nmostra tam(v)\n", "[]\n0\n")
    add("index_get index_set", "v: [int] = vec(int, 70000)\npara i de 0..70000 faca\nv[i] = i * 3\nfim\n" + "".join(f"mostra v[{i}]\n" for i in (0, 1, 255, 256, 257, 65535, 65536, 69999)), "".join(f"{3 * i}\n" for i in (0, 1, 255, 256, 257, 65535, 65536, 69999)))
    for i in (-1, 3, 2**62, -2**63):
        add("index_get", "i: int = leia_int(\"\")\nv: [int] = [int: 1, 2, 3]\nmostra v[i]\n", None, f"{i}\n")
        add("index_set", "i: int = leia_int(\"\")\nv: [int] = [int: 1, 2, 3]\nv[i] = 1\n", None, f"{i}\n")
    add("unwrap is_null", "o: int? = nulo\nmostra o == nulo\nmostra o.valor_ou(4)\no = 5\nmostra o == nulo\nmostra o.valor_ou(4)\nmostra o.valor\n", "verdadeiro\n4\nfalso\n5\n5\n")
    add("unwrap", "o: int? = nulo\nmostra o.valor\n", None)
    add("cast check_cast", "x: int = -3\nmostra x :> real\nmostra x :> bool\nmostra 2.9 :> int\nmostra -2.9 :> int\nmostra 0.0 :> bool\nmostra 0 :> bool\nmostra 1 :> texto\nmostra \"12\" :> int\ni: indef = 5\nmostra i :> int\n", "-3.0\nverdadeiro\n2\n-2\nfalso\nfalso\n1\n12\n5\n")
    add("check_cast", "i: indef = 5\nmostra i :> texto\n", None)
    add("and or", "".join(f"mostra {a} {o} {b}\n" for o in ("e", "ou") for a in ("verdadeiro", "falso") for b in ("verdadeiro", "falso")), "verdadeiro\nfalso\nfalso\nfalso\nverdadeiro\nverdadeiro\nverdadeiro\nfalso\n")
    add("pop_top", "func f(): int\nmostra 1\nretorna 2\nfim\nf()\nf()\nmostra f() + f()\n", "1\n1\n1\n1\n4\n")
    add("set_prop get_prop build_obj", "registo P\nx: int\ny: int\nz: texto\nfim\np: P = P(x: 1, y: 2, z: \"a\")\nq: P = p\np.x = 5\np.y += 3\nmostra p.x\nmostra q.x\nmostra q.y\n", "5\n5\n5\n")
    add("build_str", "x: int = 3\nmostra f\"a{x}b{x + 1}c{f\'\'}d\"\nmostra f\"{x}\"\nmostra f\"\"\n".replace("{f\'\'}", "{verdadeiro}"), "a3b4cverdadeirod\n3\n\n")
    return P


def space():
    """growth in memory between 10^3 and 2*10^6 calls, in MB"""
    src = "func f(a: int): int\nb: int = a + 1\nc: int = b + 1\nd: int = c + 1\nretorna d\nfim\ns: int = 0\npara i de 0..%d faca\ns = f(i)\nfim\nmostra s\n"
    out = []
    for n in (1000, 2000000):
        k, r = pipe.compile_text(src % n, raw=True)
        if k != "ok":
            return None, src
        out.append(realvm.peak(bytes(r)))
    return (out[1] - out[0]) / 1024, src % 2000000


def kani_part(rep):
    H = build()
    short = lambda n: n.split("::")[-1]
    quick = {n: h for n, h in H.items() if short(n) not in SLOW}
    sel = H if THOROUGH else quick
    sel = dict(sel, **opcode_harness())
    res, crate = {}, {}

    def part(names):
        c = kani.Crate("", True, {"vm.rs": text({n: sel[n] for n in names})})
        return c, c.run(names, "cadical", each=900 if THOROUGH else 150, total=3000 if THOROUGH else 420, jobs=2)
    from concurrent.futures import ThreadPoolExecutor
    realvm.scratch()
    names = sorted(sel)
    try:
        # code generation is sequential in Kani: four crates in parallel
        with ThreadPoolExecutor(4) as ex:
            for c, r in ex.map(part, [names[k::4] for k in range(4)]):
                res.update(r)
                crate.update({n: c for n in r})
    except kani.BuildError as e:
        res = {}
        rep.skipped.append(f"the VM's dispatch loop cannot be driven by the harness ({str(e)[-200:]}): decided on the program family only")
    bad = [n for n, r in res.items() if r[0] == "fail"]
    for n, r in res.items():
        rep.solver_s += r[1]
        if r[0] == "ok":
            rep.queries += max(1, int(r[3].get("vccs_remaining", 1) or 1))
        elif r[0] == "unknown":
            rep.skipped.append(f"{n}: no verdict within the time limit {r[2]}")
    rep.cov["kani_harnesses"] = len(res)
    rep.cov["kani_verified"] = sum(r[0] == "ok" for r in res.values())
    rep.cov["kani_slowest_s"] = max([round(r[1], 1) for r in res.values()] or [0])
    rep.cov["kani_operations"] = sorted(short(n) for n, r in res.items() if r[0] == "ok")
    # replay: the operations at their boundary values, compiler and real VM
    wrong = []
    n = 0
    for ops, src, stdin, want in corpus():
        n += 1
        k, raw = pipe.compile_text(src, raw=True)
        if k != "ok":
            wrong.append((ops, src, stdin, f"the program is refused: {raw}"))
            continue
        rc, out, err = realvm.run(bytes(raw), stdin)
        good = rc == 1 and "Erro na linha" in err and out == "" if want is None else (rc, out) == (0, want)
        if not good:
            k = next((j for j, (x, y) in enumerate(zip(out.splitlines(), (want or "").splitlines())) if x != y), None)
            wrong.append((ops, src, stdin, f"exit {rc}, " + (f"line {k + 1} of the output is {out.splitlines()[k]!r}, expected {want.splitlines()[k]!r}" if k is not None else f"output {out[-80:]!r}, expected {(want or 'a reported error')[-80:]!r}, stderr {err[-200:]!r}")))
    rep.cov["replayed_on_real_vm"] = n
    rep.cov["paths"] = n + len(res)
    rep.cov["kani_seconds"] = {short(k): round(v[1], 1) for k, v in res.items()}
    mb, src = space()
    if mb is not None and mb > 16:
        wrong.append(({"ret", "call"}, src, "", f"two million calls need {mb:.0f} MB more than a thousand"))
    ce = {}
    for h in bad[:3]:
        vals, _ = crate[h].counterexample(h)
        ce[h] = f"{h} fails for {[int.from_bytes(v, 'little', signed=True) for v in vals or []]}: {res[h][2]}"
    for ops, src, stdin, what in wrong:
        hs = [ce[h] for h in ce if any(short(h).startswith(o) for o in ops)]
        rep.viol.append({"what": what + ("; Kani: " + "; ".join(hs) if hs else ""), "sig": " ".join(sorted(ops)) + what[:40], "src": src, "stdin": stdin, "family": "replay"})
    if bad and not wrong:
        for h in bad:
            rep.skipped.append(f"{ce.get(h, h)}: the difference is not observable in a program (the VM's inner representation differs from the harness's)")
    rep.functions |= {"amanda/vm/src/vm.rs:AmaVM::run and the arms of " + ", ".join(sorted(short(n) for n in res)), "amanda/vm/src/opcode.rs:OpCode::from"}


def main():
    realvm.build()
    rep = Report("C21", "other")
    rep.bounds = [
        "Kani: one execution of each operation by AmaVM::run with symbolic operands and operand bytes (stack 8 and 6 frames instead of 256 and 1000), and the decoding of every byte the compiler writes",
        "quick leaves out " + ", ".join(sorted(SLOW)) + "; thorough includes them",
        "replay: programs with 700 constants, globals and locals, 300 records and variants, 255 arguments, on the real VM"]
    rep.assumptions = ["Kani's translation of Rust, the stand-ins for Rc, hash maps, graphemes and format! are trusted; memory safety is not decided (the VM is safe Rust)",
         "an operand's symbolic value may be modelled by a stand-in for op_pop or FrameStack::push that returns it (jumps, calls)"]
    kani_part(rep)
    return finish(rep)
