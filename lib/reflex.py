"""Reference lexer (the specification of C02 and C03), written over sequences of
one-character texts; characters may be symbolic."""
KEYWORDS = {"mostra", "e", "ou", "nao", "verdadeiro", "falso", "caso", "retorna", "produz", "se", "senao", "senaose", "escolha", "entao", "enquanto", "para", "faca", "de",
            "continua", "quebra", "usa", "como", "alvo", "registo", "iguala", "inc", "fim", "func", "met", "nulo", "vazio", "nativa", "uniao", "classe"}
SYMBOLS = {"(": "LPAR", ")": "RPAR", ".": "DOT", "..": "DDOT", ";": "SEMI", ",": "COMMA", "{": "LBRACE", "}": "RBRACE", "[": "LBRACKET", "]": "RBRACKET", "@": "AT", "@@": "DOUBLEAT",
           ":": "COLON", "?": "QMARK", "::": "DOUBLECOLON", ":>": "CAST", "=>": "ARROW", "+": "PLUS", "-": "MINUS", "*": "STAR", "/": "SLASH", "//": "DOUBLESLASH", "%": "MODULO",
           "+=": "PLUSEQ", "-=": "MINUSEQ", "*=": "STAREQ", "/=": "SLASHEQ", "<": "LESS", ">": "GREATER", "<=": "LESSEQ", ">=": "GREATEREQ", "!=": "NOTEQUAL", "=": "EQUAL", "==": "DOUBLEEQUAL"}


def lex(cs):
    """cs: list of one-character texts -> (tokens, error line or None).
    token: (kind, list of characters, line)"""
    out, i, line, n = [], 0, 1, len(cs)
    while True:
        # blanks and comments only separate
        while i < n:
            if cs[i] == "#":
                while i < n and not cs[i] == "\n":
                    i += 1
            elif not cs[i] == "\n" and cs[i].isspace():
                i += 1
            else:
                break
        # a newline that ends the text ends the last line
        if i >= n or (i == n - 1 and cs[i] == "\n"):
            out.append(("EOF", [], line))
            return out, None
        c = cs[i]
        if c == "\n":
            out.append(("NEWLINE", ["\\", "n"], line))
            line += 1
            i += 1
            continue
        fmt = False
        if c == "f" and i + 1 < n and (cs[i + 1] == '"' or cs[i + 1] == "'"):
            fmt, i = True, i + 1
            c = cs[i]
        if c == '"' or c == "'":
            start, q, txt = line, c, []
            i += 1
            while True:
                if i >= n:
                    return out, start
                d = cs[i]
                if d == q:
                    i += 1
                    break
                if d == "\\" and i + 1 < n:
                    e = cs[i + 1]
                    if e == "n":
                        txt.append("\n")
                        i += 2
                        continue
                    if e == "'" or e == '"':
                        txt.append(e)
                        i += 2
                        continue
                if d == "\n":
                    line += 1
                txt.append(d)
                i += 1
            out.append(("FORMAT_STR" if fmt else "STRING", [q] + txt + [q], start))
            continue
        if c.isalpha() or c == "_":
            w = []
            while i < n and (cs[i].isalnum() or cs[i] == "_"):
                w.append(cs[i])
                i += 1
            kw = None
            for k in KEYWORDS:
                if len(k) == len(w) and all(a == b for a, b in zip(w, k)):
                    kw = k
                    break
            out.append((kw.upper() if kw else "IDENTIFIER", w, line))
            continue
        if c.isdecimal():
            w, real = [], False
            while i < n and cs[i].isdecimal():
                w.append(cs[i])
                i += 1
            if i + 1 < n and cs[i] == "." and cs[i + 1].isdecimal():
                real = True
                w.append(".")
                i += 1
                while i < n and cs[i].isdecimal():
                    w.append(cs[i])
                    i += 1
            out.append(("REAL" if real else "INTEGER", w, line))
            continue
        hit = None
        for k in sorted(SYMBOLS, key=len, reverse=True):
            if i + len(k) <= n and all(a == b for a, b in zip(cs[i:i + len(k)], k)):
                hit = k
                break
        if hit is None:
            return out, line
        out.append((SYMBOLS[hit], list(hit), line))
        i += len(hit)
