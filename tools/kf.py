import subprocess, json
MAP = {
"e90f25e":("C17","an imported module that calls its own functions at top level ran the code of the main module; traces took lines from the wrong module"),
"a62d713":("C18","a run-time error in the body of a para (and after other compound statements) was reported on the line of its header"),
"dbd08dc":("C16","a function whose exhaustive iguala returns in every arm was rejected unless an arm was a plain binding"),
"2970fcd":("C23","`1 :> int?` compiled and crashed the VM (Illegal access to definition)"),
"4f702aa":("C23","an indef holding a record, union or nulo converted with :> crashed the VM instead of the reported conversion error"),
"3870b46":("C03","an invalid pattern was reported on another line"),
"def6a5b":("C03","an invalid field of a record was reported on the line of the record"),
"4685047":("C19","adjacent control sequences in a string were misread"),
"c28796b":("C02","digits that are not decimal (such as superscripts) were taken into a number and crashed the compiler"),
"9befabe":("C02","a backslash-n outside of a string was swallowed instead of rejected"),
"e98ab87":("C03","errors inside format strings were reported on line 1"),
"704bdfc":("C03","lines after a multi-line string were miscounted"),
"a08be7c":("C04","a diagnostic whose text contains braces ended the compiler with a Python exception"),
"db9cb6e":("C06","a variable could be used inside its own initializer"),
"09effa4":("C04","a bare reference to a method or variant crashed the code generator"),
"c52ac6d":("C04","vec with a first argument that is not a type crashed the compiler"),
"cdc6735":("C19","an integer pattern outside 64 bits was accepted and crashed the code generator"),
"3891db8":("C04","anexa and remova with a wrong number of arguments crashed the compiler"),
"bd4c81c":("C04","a condition or size whose type is a constructed type crashed the compiler"),
"28b4b49":("C19","leia kept the newline in release builds"),
"28e25bb":("C24","rows built by vec were one shared vector"),
"f7c2e43":("C12","an iguala testing literals took an alternative out of order"),
"6bca691":("C11","`_` twice in a pattern was rejected as a repeated name"),
"fdb729f":("C05","== between some values accepted by the checker crashed the VM"),
"721b854":("C20","the negation of the smallest integer crashed or wrapped"),
"23469e8":("C07","`//` on reals truncated the operands instead of the quotient"),
"1d5f977":("C16","a senaose branch without retorna was not noticed"),
"c9e369b":("C11","alternatives of iguala that cannot be reached were not type-checked"),
"61f5d08":("C11","nested patterns of iguala were not checked"),
"932e1a9":("C12","fallback, target and bindings of iguala were compiled wrongly"),
"b7bcc5b":("C13","methods of the same name on different types overwrote each other"),
"f9f74ec":("C19","literal parts of format strings were parsed as code"),
"6c5ab3b":("C08","quebra and continua in para crashed the compiler"),
"28b516c":("C08","the expression of escolha was evaluated for each case"),
"f57b677":("C06","assignment to an element of a vector of texto was rejected"),
"b777638":("C10","the target of a compound assignment was evaluated twice"),
"3f55977":("C10","compound assignment to a field ignored the operator"),
"fad7787":("C07","promotions of int to real were lost in several contexts; chained assignments lost the value"),
"5e95a72":("C09","the unary plus operator crashed the code generator"),
"b0b0f90":("C08","expression statements left values on the stack"),
"bb5e513":("C03","a clash of module aliases was reported in the imported file"),
"6059360":("C04","a module alias used as a value was accepted and crashed the VM"),
"8422c57":("C05","values of equally named types of two modules were accepted for each other"),
"48f6572":("C17","importing into the global scope a module loaded elsewhere made none of its names visible"),
"545e2e1":("C17","a module ran before the modules it imports; using their definitions crashed the VM"),
"9ecf170":("C14","operands that do not fit in an instruction were encoded modulo 65536 (locals, records) or crashed the code generator"),
"c58f915":("C21","a program with more than 256 locals outside of functions crashed the VM"),
"7fcd754":("C27","every call of a function with locals left stack space behind: memory grew with the number of calls"),
"837366c":("C27","mostra of an iguala without value took a stack slot that belongs to somebody else"),
"9b3120f":("C17","a native function called through a module alias crashed the VM; traces showed a mangled name"),
}
log=subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s","91726de.."],capture_output=True,text=True).stdout.split("\n")
F=[{"property":"C16","status":"finding","what":"a function whose only retorna is inside enquanto or para is accepted; when the loop body does not run the call yields a value no retorna produced (the stable test function/nested_return.ama relies on the acceptance)",
    "program":"func f(n: int): int\n para i de 0..n faca\n  retorna i\n fim\nfim\nmostra f(0)\n","stdin":"","wrong_output":"falso\n"},
   {"property":"C27","status":"finding","what":"quebra or continua inside an arm of an iguala that is an operand (s = s + iguala x 1 => faca ... quebra ... fim) leaves the pending operands on the stack: one value per jump",
    "replay":"stack","program":"x: int = 1\ns: int = 0\npara i de 0..3 faca\n s = s + iguala x\n 1 => faca\n se i == 1 entao\n quebra\n fim\n produz 5\n fim\n _ => 2\n fim\nfim\nmostra s\n","stdin":""}]
with open("/verif/known_findings.jsonl","w") as o:
    for f in F: o.write(json.dumps(f,ensure_ascii=False)+"\n")
    for l in log:
        if l:
            h=l.split()[0]; p,w=MAP[h]
            o.write(f"fixed: property={p} {h} {w}\n")
