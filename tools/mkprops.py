"""Writes properties.jsonl (kept as code so that the text is easy to review)."""
import json, os
C = "amanda/compiler/"
V = "amanda/vm/src/"
def P(id, title, statement, over, text, why, files, mech):
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
PROPS = [
P("C01", "Expressions group by documented precedence and associativity",
  "In every expression the operands group by these levels, loosest first: `== !=`, then `> >= < <=`, then `+ - ou`, then `* / // % e`, then prefix `+ - nao`, then calls, `[...]` indexing and `.` access; all binary operators are left-associative and parentheses override the levels. No operator, operand or order of operands is lost or changed by parsing.",
  ["inputs"], "every sequence of operators (all 14 binary and 3 prefix ones, with optional parentheses, calls, indexing, member access) joining up to 5 operands",
  "tests fix a dozen expressions; the claim is about every mix of operators",
  [C+"parse.py", C+"tokens.py"], [("expression grammar levels", C+"parse.py: Parser.equality/comparison/addition/term/unary/call")]),
P("C02", "Tokenisation is longest-match, complete and faithful",
  "Every source text is either rejected with a located syntax error or split by longest match into keywords, identifiers, integer and real literals, strings, format strings, operators, delimiters and newlines, where blanks and `#` comments only separate. Each token carries exactly the text of the source characters it stands for (integers their value), and nothing of the source is dropped, merged or duplicated.",
  ["inputs"], "all character strings of bounded length over the whole alphabet of the lexer, alone and after lexical prefixes (identifier, number, string, comment, operator)",
  "the lexer tests pin a few hand-written strings",
  [C+"parse.py", C+"tokens.py"], [("Lexer.get_token and its scanners", C+"parse.py: Lexer")]),
P("C03", "Tokens and compile-time errors carry the right source line",
  "Every token carries the 1-based number of the source line on which it starts, whatever blank lines, comments and multi-line strings precede it. A compile-time error names the line of the offending construct, which is always a line that exists in the file.",
  ["inputs"], "all layouts of newlines, comments, blanks and strings of bounded length before a token or an error",
  "tests compare error messages without their line numbers",
  [C+"parse.py", C+"error.py", C+"check/core.py"], [("Lexer line counter", C+"parse.py: Lexer.advance"), ("error location", C+"check/core.py: Analyzer.error")]),
P("C04", "The front end never crashes: a program compiles or gets a diagnostic",
  "For every source text, parsing, checking and code generation end with either a compiled module or a located Amanda diagnostic. They never end with an internal failure, and never loop forever.",
  ["inputs", "programs"], "every sequence of tokens of bounded length, over the whole token alphabet, in every syntactic context of the language",
  "tests only feed programs somebody wrote; the claim is about all token sequences",
  [C+"parse.py", C+"check/core.py", C+"codegen.py"], [("Parser.consume/error", C+"parse.py"), ("Analyzer.visit", C+"check/core.py"), ("ByteGen.gen", C+"codegen.py")]),
P("C05", "Operators are accepted exactly for the documented operand types",
  "A unary or binary operator application is accepted exactly when its operand types support it: arithmetic needs two numbers, ordering two numbers, `e`/`ou`/`nao` need bool, a prefix sign a number; equality needs two numbers, two values of the same simple type (bool, texto, nulo) or two records, or an optional on the left with nulo or its own type on the right (equality on vectors, unions, indef and other optional pairs is left open). The result type is bool for comparisons and logic, real when an operand is real or for `/`, and int otherwise. `x op= e` is accepted like `x = x op e`.",
  ["inputs", "programs"], "every operator with every pair of operand types, in nested expressions too",
  "the suite checks some rejected pairs, not the whole table",
  [C+"types/core.py", C+"check/core.py"], [("binop/unaryop tables", C+"types/core.py: Primitive.binop"), ("visit_binop", C+"check/core.py")]),
P("C06", "A value is accepted only where its type is compatible",
  "In a declaration, assignment, argument, return, record-field initialiser, variant argument, field or element assignment and list element, a value is accepted exactly when its type equals the expected type, is int where real is expected, fits an optional expected type (nulo, or a non-optional value the inner type accepts), or the expected type is indef (anything but nulo and no value). Everything else is rejected with a diagnostic. Conditions of `se` and `enquanto` are exactly bool; loop bounds, indexes and sizes exactly int.",
  ["inputs", "programs"], "every pair (expected type, value type) over the built-in, vector, optional, record and union types, in each of those positions",
  "tests sample one or two mismatches per position",
  [C+"check/core.py", C+"types/core.py"], [("types_match / promote_to", C+"check/core.py, "+C+"types/core.py")]),
P("C07", "Integers stored where a real is expected become reals",
  "Whenever an int value of any expression form flows into a location or position of type real (variable, parameter, return value, record field, element, optional, match result) the stored value is the equal real number, so it prints with a fractional part and behaves as a real from then on.",
  ["inputs", "programs"], "every expression form yielding int crossed with every real-typed position, for all integer values",
  "tests try literals in declarations only",
  [C+"codegen.py", C+"check/core.py"], [("prom_type and gen_auto_cast", C+"codegen.py")]),
P("C08", "Compiled control flow does what the source says",
  "Running a compiled program executes exactly the statements its `se/senaose/senao`, `enquanto`, `para`, `escolha`, `quebra`, `continua` and `retorna` select, in source order, the selected number of times, for every nesting of them. Conditions and loop bounds are evaluated as often as the source says and loops leave or restart only the loop they belong to.",
  ["inputs", "programs"], "every program of bounded nesting built from these statements, for all values of the conditions and bounds",
  "the generated code is hardly executed by the tests, and never for all values of its conditions",
  [C+"codegen.py", C+"parse.py", V+"vm.rs"], [("gen_se/gen_enquanto/gen_para/gen_loopctlstmt", C+"codegen.py"), ("Jump/JumpIfFalse", V+"vm.rs")]),
P("C09", "Compiled expressions compute the value the source denotes",
  "Every compiled expression evaluates its operands exactly once, left to right, and yields the value its operators denote (`+ - *` on numbers, `/` real division, `//` integer division, `%` remainder, the six comparisons, `e`, `ou`, `nao`, sign), or stops with the error for overflow or division by zero. The rest of the program sees no other effect of evaluating it.",
  ["inputs", "programs"], "every expression tree of bounded size over all operators, for all operand values",
  "tests print a few constant expressions, and the VM is not built in the baseline",
  [C+"codegen.py", V+"ama_value.rs", V+"vm.rs"], [("gen_binop/gen_unaryop", C+"codegen.py"), ("binop", V+"ama_value.rs")]),
P("C10", "iguala takes the first matching arm and accepts exactly exhaustive matches",
  "An `iguala` (and `se iguala`) runs the first arm, in source order, whose pattern matches the value, with the pattern's names bound to the matched parts, and yields that arm's value. It is accepted exactly when its arms cover every value of the matched type, and never leaves a value unmatched at run time.",
  ["inputs", "programs"], "every list of up to four arms over int, texto and union patterns with nested names and literals, for all matched values",
  "a dozen tests; exhaustiveness and decision order depend on the combination of patterns",
  [C+"check/exhaustiveness.py", C+"check/iguala.py", C+"codegen.py"], [("decision tree", C+"check/exhaustiveness.py: IgualaCompiler"), ("gen_iguala*", C+"codegen.py")]),
P("C11", "Variables are lexically scoped and never share storage",
  "Reading a variable yields the value last assigned to that very variable, the innermost one of that name visible at that point. Assigning one variable never changes another, whatever mixture of globals, parameters, block locals, loop variables and pattern names is alive.",
  ["inputs", "programs"], "every bounded nesting and sequence of blocks declaring variables (new or shadowing names), for all stored values",
  "storage clashes need particular nestings and declaration counts",
  [C+"codegen.py", C+"check/core.py", C+"symbols/core.py"], [("local slots", C+"codegen.py: func_locals"), ("define_symbol", C+"check/core.py")]),
P("C12", "Calls bind each argument to its parameter and return to the caller",
  "A call of a function, method, record constructor or union variant evaluates its arguments in order, binds each to its parameter (named arguments to the field they name), runs the body with fresh locals and yields its return value, leaving the caller's state as it was. A call with a wrong number, name or type of arguments is rejected.",
  ["inputs", "programs"], "every call shape with up to 4 arguments, nested, recursive and used as operand or statement, for all argument values",
  "tests make few calls and hardly run compiled code",
  [C+"codegen.py", C+"check/core.py", C+"transform.py", V+"vm.rs"], [("gen_call", C+"codegen.py"), ("CallFunction/Return", V+"vm.rs"), ("method call rewriting", C+"transform.py")]),
P("C13", "Element, field and compound assignment update exactly one place",
  "Assigning an element of a vector or a field of a record, plainly or with `+= -= *= /=`, changes exactly that element or field, to the value the operator denotes; every reference to the same vector or record sees it and no other object changes. Chained assignment gives every target the assigned value.",
  ["inputs", "programs"], "every bounded combination of targets (variables, elements, nested elements, fields) and assignment operators, for all values and indices",
  "tests do a couple of fixed assignments",
  [C+"codegen.py", C+"parse.py", V+"vm.rs"], [("compound_assignment", C+"parse.py"), ("gen_indexset/gen_set/gen_assign", C+"codegen.py")]),
P("C14", "Emitted bytecode is well formed for every operand value and program",
  "Every instruction is encoded with its documented width and big-endian operand bytes and decodes to the same opcode and operands for every operand value the format allows; a value that does not fit is refused. Every jump and function entry address in a compiled module is the first byte of an instruction of that module.",
  ["inputs", "programs"], "all opcodes with all 8-, 16- and 64-bit operand values; all jumps of all programs of bounded shape",
  "only tiny programs are compiled by tests, so operands above 255 never occur",
  [C+"codegen.py", V+"vm.rs", V+"opcode.rs"], [("write_op_bytes/op_size", C+"codegen.py"), ("get_u16_arg/get_u64_arg", V+"vm.rs")]),
P("C15", "Serialised modules decode to exactly what was written",
  "For every module value built from dictionaries, lists, texts, byte strings, integers in the 64-bit range and floats, decoding the serialised bytes with the VM's loader rules gives back an equal value, in the same order, and every embedded length equals the size of what it describes.",
  ["inputs"], "all documents of bounded depth and width with arbitrary keys, texts, byte strings and 64-bit integers",
  "one test with three documents and no nesting of lists",
  [C+"bindump.py", V+"binload.rs"], [("dumps", C+"bindump.py"), ("unpack_bson", V+"binload.rs")]),
P("C16", "A function that must return a value always returns one",
  "A function or method with a declared result type is accepted only when every path through its body ends in a return of a value, whatever the conditions evaluate to; one whose every path does return by `se/senaose/senao`, `iguala` or a final `retorna` is accepted. So a call of it never yields a value that no `retorna` produced.",
  ["inputs", "programs"], "every body of bounded nesting over returns, branches and loops, for all condition values",
  "tests try four fixed bodies",
  [C+"check/core.py"], [("has_return*", C+"check/core.py")]),
P("C17", "Module imports resolve each module once and reject cycles",
  "For every set of modules and `usa` declarations between them, compilation is rejected with a diagnostic exactly when an import cycle is reachable, a name clashes, or an imported file or definition does not exist; otherwise every reachable module is analysed and emitted once and its definitions are usable by name through the importing mode that was written. Definitions of an imported module act on that module's own globals and constants.",
  ["configurations", "programs"], "every import graph over up to 4 modules (main included) and every import mode",
  "tests import fixed pairs of files",
  [C+"check/core.py", C+"codegen.py"], [("visit_usa/load_module", C+"check/core.py"), ("compile imports", C+"codegen.py")]),
P("C18", "A run-time error names the source line that failed",
  "When a compiled program stops with a run-time error, the reported line is the source line of the statement being executed, and each line of the printed call trace is the line of the active call in that function.",
  ["inputs", "programs"], "every layout and statement kind of bounded size with one failing operation, in main code, functions, loops and branches",
  "six tests with one layout each",
  [C+"codegen.py", V+"vm.rs"], [("src_map", C+"codegen.py: append_op"), ("offset_to_line", V+"vm.rs")]),
P("C19", "Literals and format strings reach the program as written",
  "Every integer, real, bool and texto literal denotes at run time the value written in the source, texts character for character. A format string denotes the concatenation of its literal parts, exactly as written, and the printed forms of its expressions, in order.",
  ["inputs"], "all literals and format strings of bounded length over all characters",
  "tests use plain ASCII words and small numbers",
  [C+"parse.py", C+"codegen.py", V+"binload.rs"], [("gen_constant/gen_fmtstr", C+"codegen.py"), ("Const::from_str", V+"binload.rs")]),
P("C20", "VM arithmetic is exact or a reported error, never wrapped or a crash",
  "For all 64-bit integers, `+ - * // %` and sign change give the mathematically exact result (division truncating toward zero) or stop with a reported error when it is not representable or the divisor is zero; comparisons of integers are exact. Mixed and real operands are computed in double precision.",
  ["inputs"], "all pairs of 64-bit integers and all operators",
  "tests add small numbers; the edges are 2^63 and zero",
  [V+"ama_value.rs", V+"vm.rs"], [("AmaValue::binop", V+"ama_value.rs"), ("OpInvert", V+"vm.rs")]),
P("C21", "Compiler and VM agree on every opcode",
  "Each opcode number the compiler can emit is decoded by the VM as the operation of the same name with the same operand width, and the constants, names, functions and records tables are indexed alike on both sides.",
  ["inputs"], "all 256 opcode bytes and all operand encodings",
  "the baseline never runs the VM",
  [C+"codegen.py", V+"opcode.rs", V+"vm.rs"], [("OpCode", C+"codegen.py, "+V+"opcode.rs")]),
P("C22", "Optional values cannot be misread",
  "A value of optional type is usable as its inner type only through `.valor` or `.valor_ou`; `.valor` yields the inner value or stops with the null-reference error, `valor_ou(d)` yields the inner value or `d`, and `== nulo`/`!= nulo` tell the two cases apart, for every inner type and value.",
  ["inputs", "programs"], "every inner type and every value, including nulo, in each use",
  "seven fixed tests",
  [C+"check/core.py", C+"codegen.py", V+"vm.rs"], [("Opcao handling", C+"check/core.py"), ("gen_unwrap", C+"codegen.py"), ("Unwrap/IsNull", V+"vm.rs")]),
P("C23", "Explicit conversions are accepted and computed as documented",
  "`valor :> tipo` is accepted exactly for: int, real, texto and indef to int, real, bool, texto and indef; bool to bool, texto and indef; each of these to the optional of a type it converts to; nulo to every optional. Nothing else converts. The result is the converted value (reals truncate to int; zero and the empty text are falso, everything else verdadeiro; the text is the printed form; the number a text spells out; an indef gives back the value it holds) or a reported run-time error when a text is not a number or an indef holds another kind of value.",
  ["inputs", "programs"], "every pair of types and all values of the source type",
  "ten fixed tests",
  [C+"types/core.py", C+"check/core.py", C+"codegen.py", V+"ama_value.rs"], [("cast_to", C+"types/core.py"), ("cast", V+"ama_value.rs")]),
P("C24", "Vector operations stay in bounds and keep the other elements",
  "Reading, writing, appending to and removing from a vector act on exactly the addressed element and keep all others in order; an index below zero or not below the length stops with the index error and changes nothing. `tam` is always the number of elements, and `vec` builds the requested dimensions with distinct rows.",
  ["inputs", "programs", "histories"], "all histories of bounded length of these operations with arbitrary indices and values",
  "tests index with a few constants",
  [V+"vm.rs", V+"ama_value.rs", V+"modules/builtins/embutidos.rs", C+"codegen.py"], [("vec_index_check", V+"ama_value.rs"), ("anexa/remova/vec/tam", V+"modules/builtins/embutidos.rs")]),
P("C25", "Mathematical library functions return correctly rounded values",
  "`abs`, `raizqd`, `sen`, `cos`, `tan`, `log`, `expoente`, rounding and angle conversions of the mathematics module return the value of the mathematical function for every real argument in its domain.",
  ["inputs"], "all doubles", "one test prints a few values",
  [V+"modules/builtins/mat.rs"], [("wrappers over f64 methods", V+"modules/builtins/mat.rs")]),
P("C26", "Text indexing and length count user-perceived characters",
  "`tam` of a text and indexing into a text count extended grapheme clusters for every Unicode text.",
  ["inputs"], "all Unicode texts", "tests use a few words",
  [V+"vm.rs", V+"modules/builtins/embutidos.rs"], [("graphemes(true)", V+"vm.rs")]),
P("C27", "The operand stack is disciplined: memory does not grow with run length",
  "In every compiled program each instruction finds the same number of pending operands on every path that reaches it, at least as many as it takes; nothing is pending at the end of the program or when a loop starts its next iteration beyond what was pending when it began; a call replaces its arguments by exactly one value. So neither repeated statements, calls nor loop iterations make the stack grow, and no operation takes another's operand.",
  ["programs", "schedules"], "every path, of any length, through the code of every program of the stated shapes (expression forms in every operand position, match arms, loops, early exits)",
  "the suite does not run compiled code, and a leak of one stack slot per iteration shows only after millions of iterations",
  [C+"codegen.py", V+"vm.rs"], [("gen_children/leaves_value", C+"codegen.py"), ("PopTop, Return, CallFunction", V+"vm.rs")]),
]
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w", encoding="utf8") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
