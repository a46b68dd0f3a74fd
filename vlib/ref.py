"""Reference model of the Skull language: lexer, parser, checker.

Independent of /repo at run time: it states what docs/*.md and the language's
tests say a program means.  `analyse(src)` gives the verdict (accepted or not),
every diagnostic in order, and for accepted programs a resolved tree that
vlib/interp.py can execute.
"""

KEYWORDS = {
    "mut": "mut", "return": "return", "unreachable": "unreachable", "if": "if", "elif": "elif",
    "else": "else", "while": "while", "external": "external", "export": "export", "noop": "noop",
    "break": "break", "continue": "continue", "import": "import", "namespace": "namespace",
    "mod": "mod", ":=": ":=", "not": "not", "is": "is", "isnt": "isnt", "and": "and", "or": "or",
    "xor": "xor", "<=": "<=", ">=": ">=", "<<": "<<", ">>": ">>",
}
RESERVED = {"mut", "return", "unreachable", "if", "elif", "else", "while", "external", "export",
            "noop", "break", "continue", "import", "namespace", "mod", "not", "is", "isnt", "and",
            "or", "xor", "Infinity", "NaN", "true", "false"}
SINGLE = set("=+-*/<>^")
DELIM = {"{": "{", "}": "}", "(": "(", ")": ")", ",": ",", "\n": "nl", "&": "&", "*": None}
SPACE = set(" \t\r\n")
BUILTIN = ("Bool", "Int", "Float", "Rune", "Str", "Void")
DIG = set("0123456789")
ALNUM = DIG | set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
ALPHA = ALNUM - DIG
HEX = DIG | set("abcdefABCDEF")

PREC = {"^": 2, "*": 4, "/": 4, "mod": 4, "+": 5, "-": 5, "and": 6, "or": 6, "xor": 6, "<<": 6,
        ">>": 6, "is": 7, "isnt": 7, "<": 7, ">": 7, "<=": 7, ">=": 7}
UNARY = {"-": "neg", "*": "deref", "not": "not", "&": "ref"}
NOT_BINARY = {"not", "&"}
ATOMS = {"id", "dotid", "int", "float", "bool", "rune", "str"}


class Tok:
    __slots__ = ("kind", "text", "line", "col", "raw")

    def __init__(self, kind, text, line, col):
        self.kind, self.text, self.line, self.col = kind, text, line, col

    @property
    def loc(self):
        return (self.line, self.col)

    def __repr__(self):
        return f"{self.kind}:{self.text!r}@{self.line}:{self.col}"


class Stop(Exception):
    """A diagnostic that ends the compilation."""


class Diag:
    __slots__ = ("kind", "text", "loc", "code")

    def __init__(self, kind, code, text, loc):
        self.kind, self.code, self.text, self.loc = kind, code, text, loc

    def render(self, fname):
        w = "Compilation error" if self.kind == "E" else "Warning"
        at = f"line {self.loc[0]} column {self.loc[1]}: " if self.loc else ""
        return f"{fname}: {w}: {at}{self.text}"


# ---------------------------------------------------------------- lexer

def lex(src, diags):
    """List of tokens, or None after an error."""
    toks = []
    n = len(src)
    pos, line, col = 0, 1, 0
    start = None  # (pos, line, col) of the token being read

    def err(code, text, loc):
        diags.append(Diag("E", code, text, loc))

    while pos < n:
        col += 1
        c = src[pos]
        if c == "#":
            nxt = src[pos + 1] if pos + 1 < n else ""
            if nxt not in (" ", "\t", "{") or nxt == "":
                err("comment_start", "invalid start of comment", (line, col))
                return None
            if start is not None:
                toks.append(Tok(None, src[start[0]:pos], start[1], start[2]))
                start = None
            b, bl, bc = pos, line, col
            if nxt == "{":
                pos += 2
                col += 2
                while True:
                    if pos >= n:
                        err("comment_end", 'expected closing "#}" for block comment', (bl, bc))
                        return None
                    if src[pos] == "#" and pos + 1 < n and src[pos + 1] == "}":
                        pos += 1
                        col += 1
                        break
                    if src[pos] == "#" and pos + 1 < n and src[pos + 1] == "{":
                        err("nested_comment",
                            "cannot put opening block comment in existing block comment",
                            (line, col + 1))
                        return None
                    if src[pos] == "\n":
                        line += 1
                        col = 0
                    pos += 1
                    col += 1
                toks.append(Tok("comment", src[b:pos + 1], bl, bc))
                pos += 1
            else:
                e = src.find("\n", pos)
                # "# " is at least two characters long
                e = n if e < 0 else e
                toks.append(Tok("comment", src[b:e], bl, bc))
                col += e - pos - 1
                pos = e
            continue
        if c == "'" or c == '"':
            if start is None:
                start = (pos, line, col)
            while True:
                pos += 1
                col += 1
                if pos >= n:
                    err("quote", "expected closing quote", (start[1], start[2]))
                    return None
                d = src[pos]
                if d == "\n":
                    line += 1
                    col = 0
                elif d == "\\" and pos + 1 < n and (src[pos + 1] == "\\" or src[pos + 1] == c):
                    pos += 1
                    col += 1
                elif d == c:
                    break
            pos += 1
            continue
        if c in DELIM:
            if start is not None:
                toks.append(Tok(None, src[start[0]:pos], start[1], start[2]))
                start = None
            toks.append(Tok(DELIM[c], c, line, col))
            if c == "\n":
                line += 1
                col = 0
        elif c in SPACE:
            if start is not None:
                toks.append(Tok(None, src[start[0]:pos], start[1], start[2]))
                start = None
        elif start is None:
            start = (pos, line, col)
        pos += 1
    if start is not None:
        toks.append(Tok(None, src[start[0]:], start[1], start[2]))
    for t in toks:
        if t.kind is None:
            classify(t)
    return toks


def classify(t):
    s = t.text
    if len(s) == 1 and s in SINGLE:
        t.kind = s
    elif s in KEYWORDS:
        t.kind = KEYWORDS[s]
    elif is_int(s):
        t.kind = "int"
    elif is_float(s):
        t.kind = "float"
    elif s == "true" or s == "false":
        t.kind = "bool"
    elif is_rune(s):
        t.kind = "rune"
    elif len(s) >= 2 and s[0] == '"' and s[-1] == '"':
        t.kind = "str"
    else:
        body = s[:-1] if s.endswith(":") else s
        if not is_ident(body):
            t.kind = "?"
        elif s.endswith(":"):
            if "." in body or body in RESERVED or body in BUILTIN:
                t.kind = "?"
            else:
                t.kind = "newid"
                t.text = body
        else:
            t.kind = "dotid" if "." in s else "id"


def is_ident(s):
    if not s or s[0] not in ALPHA or s[-1] == ".":
        return False
    for c in s:
        if c not in ALNUM and c != "_" and c != ".":
            return False
    return True


def digits(s, ok):
    """Digits of `ok`, single underscores only between digits."""
    if not s or s[0] == "_" or s[-1] == "_" or "__" in s:
        return False
    for c in s:
        if c not in ok and c != "_":
            return False
    return True


def is_int(s):
    if len(s) > 2 and s[0] == "0" and s[1] not in DIG:
        base = {"x": HEX, "b": set("01"), "o": set("01234567")}.get(s[1])
        return base is not None and digits(s[2:], base)
    return digits(s[1:] if s[:1] == "-" else s, DIG)


def is_float(s):
    if s in ("NaN", "Infinity", "-Infinity"):
        return True
    if s[:1] == "-":
        s = s[1:]
    a, dot, b = s.partition(".")
    if not dot or not digits(a, DIG):
        return False
    return bool(b) and all(c in DIG for c in b)


def is_rune(s):
    if len(s) < 3 or s[0] != "'" or s[-1] != "'":
        return False
    return len(s) == 3 or (len(s) <= 12 and s[1] == "\\")


def int_value(s):
    s = s.replace("_", "")
    if len(s) > 2 and s[0] == "0" and s[1] in "xbo":
        return int(s[2:], {"x": 16, "b": 2, "o": 8}[s[1]])
    return int(s, 10)


ESC = {"\\": 0x5c, '"': 0x22, "'": 0x27, "0": 0, "e": 27, "t": 9, "r": 13, "n": 10}


def unescape(s):
    """[(code point, length in source)], or the text of the bad escape."""
    out = []
    i = 0
    while i < len(s):
        if s[i] != "\\":
            out.append((ord(s[i]), 1))
            i += 1
            continue
        e = s[i + 1] if i + 1 < len(s) else ""
        if e in ESC and e:
            out.append((ESC[e], 2))
            i += 2
            continue
        if e == "x":
            j = i + 2
            while j < len(s) and j < i + 10 and s[j] in HEX:
                j += 1
            if j > i + 2:
                out.append((int(s[i + 2:j], 16), j - i))
                i = j
                continue
            nx = s[j] if j < len(s) else ""
            return "\\x" + ("" if nx in ("'", '"') else nx)
        return "\\" + e
    return out


# ---------------------------------------------------------------- tree

class Node:
    __slots__ = ("kind", "tok", "expr", "child", "name", "type_tok", "is_const", "implicit",
                 "exported", "params", "ret", "external", "export", "sym", "first", "prev", "rtype")

    def __init__(self, kind, tok):
        self.kind, self.tok = kind, tok
        self.expr = self.child = self.name = self.sym = self.prev = None


class Ex:
    """op: const, id, call, neg, not, ref, deref or a binary operator."""
    __slots__ = ("op", "tok", "lhs", "rhs", "args", "type", "value", "sym", "argtoks", "fold")

    def __init__(self, op, tok=None, lhs=None, rhs=None, args=None, argtoks=None):
        self.op, self.tok, self.lhs, self.rhs, self.args = op, tok, lhs, rhs, args
        self.argtoks = argtoks
        self.type = self.value = self.sym = None
        self.fold = False

    def first(self):
        e = self
        while True:
            if e.op in ("const", "id", "call"):
                return e.tok
            e = e.rhs if e.op in ("neg", "not", "ref", "deref") else e.lhs


class Parser:
    def __init__(self, toks, diags):
        self.t, self.i, self.diags = toks, 0, diags
        self.err = False

    def cur(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def error(self, code, text, loc=None):
        self.diags.append(Diag("E", code, text, loc))

    def parse(self):
        nodes = self.block(0)
        return None if self.err else nodes

    def block(self, lvl):
        """Statements up to the closing bracket (left unread) or the end."""
        nodes = []
        stray = None
        while self.cur() is not None and not self.err:
            t = self.cur()
            k = t.kind
            if k == "}":
                if lvl == 0:
                    self.error("open_brak", "missing opening bracket", t.loc)
                    self.err = True
                break
            if k == "{":
                # a block before any statement is also taken for the first one's
                owner_has = (nodes[-1].child is not None if nodes else False) or (
                    stray is not None and len(nodes) <= 1)
                if owner_has:
                    self.error("block", "unexpected code block", t.loc)
                    self.err = True
                    break
                self.i += 1
                child = self.block(lvl + 1)
                if self.err or child is None:
                    self.err = True
                    break
                if not child:
                    self.error("empty_block", "code block cannot be empty", self.cur().loc)
                    self.err = True
                    break
                if nodes:
                    nodes[-1].child = child
                else:
                    stray = child[0].tok
                self.i += 1
                continue
            if k == "nl" or k == ",":
                self.i += 1
                continue
            self.statement(nodes)
        if self.err:
            return None
        if self.cur() is None and lvl != 0:
            self.error("eof_bracket", "Reached EOF, expected closing bracket")
            self.err = True
            return None
        if stray is not None:
            self.error("block", "unexpected code block", stray.loc)
            self.err = True
            return None
        return nodes

    def push(self, nodes, kind, tok):
        n = Node(kind, tok)
        n.prev = nodes[-1] if nodes else None
        nodes.append(n)
        return n

    def statement(self, nodes):
        t = self.cur()
        k = t.kind
        if k in ("unreachable", "comment", "noop", "break", "continue", "else"):
            self.push(nodes, k, t)
            self.i += 1
        elif k == "return":
            n = self.push(nodes, k, t)
            self.i += 1
            e = self.expression()
            if not self.err:
                n.expr = e
        elif k in ("if", "elif", "while"):
            if self.cur(1) is None:
                self.error("expected_expr", f'expected expression after "{t.text}"', t.loc)
                self.err = True
                return
            n = self.push(nodes, k, t)
            self.i += 1
            e = self.expression()
            if e is None or self.err:
                at = self.cur() or t
                self.error("invalid_expr", f'invalid expression near "{at.text}"', at.loc)
                self.err = True
                return
            n.expr = e
        elif k == "namespace":
            nm = self.cur(1)
            if nm is None or nm.kind != "id":
                at = nm or t
                self.error("unexpected_token", f'unexpected token: "{at.text}"', at.loc)
                self.err = True
                return
            n = self.push(nodes, k, t)
            n.name = nm
            self.i += 2
        elif k == "import":
            nm = self.cur(1)
            if nm is None or nm.kind != "id":
                self.error("import_ident", 'expected identifier after "import"', (nm or t).loc)
                self.err = True
                return
            n = self.push(nodes, k, t)
            n.name = nm
            self.i += 2
        else:
            if self.func_proto(nodes) or self.err:
                return
            if self.var_def(nodes) or self.err:
                return
            if self.var_assign(nodes) or self.err:
                return
            e = self.expression()
            if e is None:
                if not self.err:
                    c = self.cur()
                    self.error("unexpected_token", f'unexpected token: "{c.text}"', c.loc)
                self.err = True
                return
            n = self.push(nodes, "expr", t)
            n.expr = e

    # -- types
    def type_end(self, j):
        """Index of the last token of a type starting at j, or None."""
        while j < len(self.t) and self.t[j].kind == "&":
            j += 1
        if j < len(self.t) and self.t[j].kind in ("id", "dotid"):
            return j
        return None

    def typed_name(self):
        """`name: Type` at the current token: index after it, or None."""
        if self.cur() is None or self.cur().kind != "newid":
            return None
        e = self.type_end(self.i + 1)
        return None if e is None else e + 1

    def func_proto(self, nodes):
        i0, t0 = self.i, self.cur()
        ext, exp = t0.kind == "external", t0.kind == "export"
        if ext or exp:
            self.i += 1
        a, b = self.cur(), self.cur(1)
        if not (a and b and a.kind == "id" and b.kind == "("):
            self.i = i0
            return False
        name, paren = a, b
        self.i += 2
        begin = self.i
        params = []
        while True:
            after = self.typed_name()
            if after is None:
                break
            if after >= len(self.t):
                self.i = after
                break
            params.append((self.cur(), self.i + 1))
            self.i = after
            if self.cur().kind != ",":
                break
            self.i += 1
        c = self.cur()
        if c is None:
            self.error("closing_paren", "missing closing parenthesis", paren.loc)
            self.err = True
            return False
        is_proto = self.i != begin
        need = "nl" if ext else "{"
        ret = None
        nx = self.cur(1)
        e = self.type_end(self.i + 1) if c.kind == ")" and nx else None
        if e is not None:
            after = self.t[e + 1] if e + 1 < len(self.t) else None
            if after is not None and after.kind == need:
                ret = self.i + 1
                self.i = e
            else:
                self.error("expected_nl" if ext else "open_brak",
                           "expected a newline" if ext else "missing opening bracket",
                           self.t[e].loc)
                self.err = True
                return False
        elif not (c.kind == ")" and nx and nx.kind == need):
            if is_proto:
                self.error("expected_comma", "expected comma", c.loc)
                self.err = True
                return False
            if ext and nx is None:
                self.error("expected_nl", "expected a newline", c.loc)
                self.err = True
                return False
            self.i = i0
            return False
        n = self.push(nodes, "func", t0)
        n.name, n.external, n.export = name, ext, exp
        n.params, n.ret = params, ret
        self.i += 1
        return True

    def var_def(self, nodes):
        i0, first = self.i, self.cur()
        const, exported, implicit = True, False, True
        if first.kind == "mut":
            const = False
            self.i += 1
        elif first.kind == "export":
            exported = True
            self.i += 1
        name = self.cur()
        if name is None:
            self.i = i0
            return False
        j = self.typed_name()
        type_at = None
        if j is not None:
            implicit = False
            type_at = self.i + 1
            self.i = j
            if self.cur() is None or self.cur().kind != "=":
                self.error("missing_assign", "variable is missing an assignment", name.loc)
                self.err = True
                return False
        elif name.kind == "id" and self.cur(1) and self.cur(1).kind == ":=":
            self.i += 1
        else:
            self.i = i0
            return False
        self.i += 1
        rhs_at = self.i
        n = self.push(nodes, "def", first)
        e = self.expression()
        if self.err:
            return False
        if e is None:
            self.error("assign_expr", "expected expression in assignment variable",
                       (self.cur() or first).loc)
            self.err = True
            return False
        n.name, n.is_const, n.implicit, n.exported = name, const, implicit, exported
        n.type_tok, n.first, n.expr = type_at, rhs_at, e
        if self.cur() is not None and self.cur().kind != "nl":
            self.error("expected_nl", "expected a newline", self.cur().loc)
            self.err = True
            return False
        return True

    def var_assign(self, nodes):
        t, b = self.cur(), self.cur(1)
        if t.kind not in ("id", "dotid") or b is None or b.kind != "=":
            return False
        n = self.push(nodes, "assign", t)
        self.i += 2
        e = self.expression()
        if e is None:
            self.error("assign_expr", "expected expression in assignment variable",
                       (self.cur() or t).loc)
            self.err = True
            return False
        n.expr = e
        return True

    # -- expressions
    def expression(self):
        if self.cur() is None:
            return None
        h = self.single(7)
        if self.err:
            return None
        return self.rhs(h, 7)

    def single(self, prec):
        t = self.cur()
        if t is None:
            return None
        u = UNARY.get(t.kind)
        if u is None:
            return self.root()
        self.i += 1
        c = self.cur()
        if c is None:
            self.error("expected_expr", f'expected expression after "{t.text}"', t.loc)
            self.err = True
            return None
        if c.kind in UNARY:
            self.error("double_unary", "cannot use unary operator twice", c.loc)
            self.err = True
            return None
        r = self.rhs(self.root(), min(prec, 2))
        if r is None:
            if not self.err:
                self.error("expected_expr", f'expected expression after "{t.text}"', t.loc)
            self.err = True
            return None
        return Ex(u, t, rhs=r)

    def root(self):
        t, b = self.cur(), self.cur(1)
        if t.kind == "(":
            return self.paren()
        if t.kind in ("id", "dotid") and b is not None and b.kind == "(":
            return self.call()
        if t.kind in ATOMS:
            self.i += 1
            return Ex("id" if t.kind in ("id", "dotid") else "const", t)
        return None

    def rhs(self, e, prec):
        while e is not None and self.cur() is not None and not self.err:
            t = self.cur()
            if t.kind in NOT_BINARY:
                self.error("unexpected_unary", "unexpected unary operator", t.loc)
                self.err = True
                break
            p = PREC.get(t.kind)
            if p is None or p > prec:
                return e
            self.i += 1
            r = self.single(p - 1)
            if r is None:
                self.error("expected_expr", f'expected expression after "{t.text}"', t.loc)
                self.err = True
                break
            r = self.rhs(r, p - 1)
            if r is None:
                break
            e = Ex(t.kind, t, lhs=e, rhs=r)
        return None if self.err else e

    def paren(self):
        o = self.cur()
        self.i += 1
        e = self.expression()
        c = self.cur()
        if e is not None and (c is None or c.kind != ")"):
            self.error("closing_paren", "missing closing parenthesis", o.loc)
            self.err = True
            return None
        if e is None:
            self.error("invalid_expr", f'invalid expression near "{o.text}"', o.loc)
            self.err = True
            return None
        self.i += 1
        return e

    def call(self):
        name = self.cur()
        self.i += 2
        args, argtoks = [], []
        while True:
            t = self.cur()
            if t is None:
                self.error("unclosed_call", "function call missing closing parenthesis", name.loc)
                self.err = True
                return None
            if t.kind == ",":
                self.error("unexpected_comma", "unexpected comma", t.loc)
                self.err = True
                return None
            e = self.expression()
            if e is not None:
                args.append(e)
                argtoks.append(t)
            c = self.cur()
            if c is None or c.kind == "nl":
                self.error("closing_paren", "missing closing parenthesis", (c or t).loc)
                self.err = True
                return None
            if c.kind == ")":
                break
            if c.kind != ",":
                self.error("expected_comma", "expected comma", c.loc)
                self.err = True
                return None
            self.i += 1
        self.i += 1
        return Ex("call", name, args=args, argtoks=argtoks)


# ---------------------------------------------------------------- checker

class Sym:
    __slots__ = ("kind", "name", "type", "loc", "const", "exported", "read", "written", "params",
                 "ret", "called", "scope", "external", "export", "func", "node", "fold", "implicit",
                 "psyms", "uid")
    N = 0

    def __init__(self, kind, name, loc):
        self.kind, self.name, self.loc = kind, name, loc
        self.read = self.written = self.called = self.exported = self.fold = False
        self.scope = None
        Sym.N += 1
        self.uid = Sym.N


KIND_STR = {"alias": "type alias", "func": "function", "var": "variable", "ns": "namespace"}


class Scope:
    __slots__ = ("names", "parent", "ns_done")

    def __init__(self, parent):
        self.names, self.parent = {}, parent


def find(scope, name):
    head, dot, tail = name.partition(".")
    s = scope
    while s is not None:
        y = s.names.get(head)
        if y is not None:
            break
        s = s.parent
    else:
        return None
    while dot:
        if y.kind != "ns" or y.scope is None:
            return None
        head, dot, tail = tail.partition(".")
        y = y.scope.names.get(head)
        if y is None:
            return None
    return y


class Checker:
    def __init__(self, toks, diags, werror=False, quiet=False, modules=(), fname="m.sk"):
        self.t, self.diags = toks, diags
        self.werror, self.quiet, self.modules = werror, quiet, modules
        self.scope = Scope(None)
        self.main = Sym("func", ".main", None)
        self.main.ret = "Int"
        self.func = self.main
        self.loops = 0
        self.captures = False

    def fail(self, code, text, loc=None):
        self.diags.append(Diag("E", code, text, loc))
        raise Stop

    def warn(self, code, text, loc=None):
        self.diags.append(Diag("W", code, text, loc))
        return self.werror

    def run(self, nodes):
        try:
            self.stmts(nodes)
        except Stop:
            return False
        if self.quiet:
            return True
        return not self.unused(nodes)

    def unused(self, nodes):
        bad = False
        for n in nodes:
            if n.kind == "def":
                v = n.sym
                if v is None:
                    continue
                if not v.const and not v.written:
                    bad |= self.warn("not_const", f'variable "{v.name}" should be constant', v.loc)
                if not v.read and not v.exported:
                    bad |= self.warn("unused_var", f'variable "{v.name}" is unused', v.loc)
            elif n.kind == "func":
                if not n.sym.called:
                    bad |= self.warn("unused_func", f'function "{n.sym.name}" is unused', n.sym.loc)
            elif n.child:
                bad |= self.unused(n.child)
        return bad

    def body(self, nodes, scope=None):
        outer = self.scope
        self.scope = scope or Scope(outer)
        inner = self.scope
        self.stmts(nodes)
        self.scope = outer
        return inner

    def stmts(self, nodes):
        for k, n in enumerate(nodes):
            self.stmt(n, nodes, k)

    def sane(self, n):
        if n.child is not None and not (
                n.kind in ("if", "elif", "else", "while", "namespace")
                or (n.kind == "func" and not n.external)):
            self.fail("block", "unexpected code block", n.child[0].tok.loc)

    def dead(self, nodes, k):
        for m in nodes[k + 1:]:
            if m.kind not in ("comment", "unreachable", "noop"):
                self.fail("unreachable", "unreachable code", m.tok.loc)

    def missing_block(self, n, name):
        if n.child is None:
            self.fail("missing_block", f"{name} statement must be followed by code block", n.tok.loc)

    def needs_if(self, n):
        m = n.prev
        while m is not None and m.kind == "comment":
            m = m.prev
        if m is None or m.kind not in ("if", "elif"):
            self.fail("missing_if", "else/elif statement missing preceding if statement", n.tok.loc)

    def condition(self, e):
        self.expr(e)
        if e.type != "Bool":
            self.fail("non_bool", "expected boolean expression", e.first().loc)
        if e.op == "const":
            if self.warn("cond_always_" + e.tok.text, f"condition is always {e.tok.text}", e.tok.loc):
                raise Stop

    def stmt(self, n, nodes, k):
        self.sane(n)
        kind = n.kind
        if kind == "return":
            if k + 1 < len(nodes):
                self.sane(nodes[k + 1])
            if n.expr is not None:
                self.expr(n.expr)
            rt = self.func.ret
            if n.expr is None:
                if rt != "Void":
                    self.fail("return_expr", "expected expression in return", n.tok.loc)
            else:
                at = n.expr.first()
                if self.func is self.main and n.expr.type != "Int":
                    self.fail("non_int_main", f'returning non-int expression "{at.text}" from main',
                              at.loc)
                if rt == "Void":
                    self.fail("void_return", f'unexpected return from void function "{self.func.name}"')
                if n.expr.type != rt:
                    self.fail("type", f'expected type "{rt}", got "{n.expr.type}"', at.loc)
            self.dead(nodes, k)
        elif kind == "unreachable":
            self.dead(nodes, k)
        elif kind == "func":
            self.func_decl(n)
        elif kind == "def":
            self.define(n)
        elif kind == "assign":
            self.assign(n)
        elif kind == "expr":
            if n.expr.op != "call":
                self.fail("dangling", "expression cannot be used on its own", n.tok.loc)
            self.expr(n.expr)
        elif kind == "if":
            self.missing_block(n, "if")
            self.condition(n.expr)
            self.body(n.child)
        elif kind == "elif":
            self.missing_block(n, "elif")
            self.needs_if(n)
            self.condition(n.expr)
            self.body(n.child)
        elif kind == "else":
            self.needs_if(n)
            self.missing_block(n, "else")
            self.body(n.child)
        elif kind == "while":
            self.loops += 1
            self.missing_block(n, "while")
            self.condition(n.expr)
            self.body(n.child)
            self.loops -= 1
        elif kind in ("break", "continue"):
            if self.loops == 0:
                self.fail(kind, f"{kind} must be inside while loop", n.tok.loc)
            self.dead(nodes, k)
        elif kind == "namespace":
            self.missing_block(n, "namespace")
            y = Sym("ns", n.name.text, n.name.loc)
            self.add(y)
            n.sym = y
            y.scope = self.body(n.child)
            if ends_flow(n.child):
                self.dead(nodes, k)
        elif kind == "import":
            # (modules: the names of those that exist, or what is wrong with each)
            why = self.modules.get(n.name.text, "No such file or directory") if isinstance(self.modules, dict) else (
                None if n.name.text in self.modules else "No such file or directory")
            if why:
                self.fail("load_module", f'could not load module "{n.name.text}": {why}')

    # -- names
    def add(self, y):
        o = find(self.scope, y.name)
        kind = None
        if o is not None:
            kind = o.kind
        elif y.name in BUILTIN:
            kind = "alias"
        if kind is not None:
            if kind != y.kind or kind == "ns":
                self.fail("redeclare", f'cannot redeclare {KIND_STR[kind]} "{y.name}" as '
                          f"{KIND_STR[y.kind]}", y.loc)
            if kind == "var":
                self.fail("var_defined", f'variable "{y.name}" already defined', y.loc)
            if kind == "alias":
                self.fail("alias_defined", f'alias "{y.name}" is already defined', y.loc)
            self.fail("redefine_func", f'cannot redeclare function "{y.name}"', y.loc)
        self.scope.names[y.name] = y

    def type_at(self, j):
        """The type written at token j, or None."""
        refs = 0
        while j < len(self.t) and self.t[j].kind == "&":
            refs += 1
            j += 1
        if j >= len(self.t) or self.t[j].kind not in ("id", "dotid"):
            return None
        name = self.t[j].text
        y = find(self.scope, name)
        if y is not None and y.kind == "alias":
            base = y.type
        elif name in BUILTIN:
            base = name
        else:
            return None
        return "&" * refs + base

    def func_decl(self, n):
        name = n.name
        if (n.external or n.export) and self.scope.parent is not None:
            self.fail("nested", f'cannot declare nested function "{name.text}" as external or exported',
                      name.loc)
        ret = "Void"
        if n.ret is not None:
            ret = self.type_at(n.ret)
            if ret is None:
                self.fail("type_missing", f'type "{self.t[n.ret].text}" could not be found',
                          self.t[n.ret].loc)
        y = Sym("func", name.text, name.loc)
        y.ret, y.external, y.export, y.node = ret, n.external, n.export, n
        y.params, y.psyms = [], []
        y.func = self.func
        self.add(y)
        n.sym = y
        inner = Scope(self.scope)
        outer = self.scope
        self.scope = inner
        for ptok, tj in n.params:
            pt = self.type_at(tj)
            if pt is None or pt == "Void":
                self.fail("type_missing", f'type "{self.t[tj].text}" could not be found',
                          self.t[tj].loc)
            if find(self.scope, ptok.text) is not None:
                self.fail("shadow", f'variable "{ptok.text}" shadows existing variable', ptok.loc)
            v = Sym("var", ptok.text, ptok.loc)
            v.type, v.const, v.func = pt, True, y
            self.scope.names[ptok.text] = v
            y.params.append(pt)
            y.psyms.append(v)
        self.scope = outer
        if n.external:
            return
        f, lp = self.func, self.loops
        self.func, self.loops = y, 0
        self.body(n.child, inner)
        term = next((m for m in n.child if m.kind in ("return", "unreachable")), None)
        valued = term is not None and term.kind == "return" and term.expr is not None
        if not valued and ret != "Void":
            self.fail("expected_return", f'expected return value in function "{name.text}"')
        self.func, self.loops = f, lp

    def define(self, n):
        at = self.t[n.first]
        ty = self.type_at(n.first)
        if ty is not None:
            if not n.is_const:
                self.fail("mut_alias", "type alias cannot be mutable", n.name.loc)
            if not n.implicit or n.expr.op not in ("id", "ref"):
                self.fail("type_expr", "type aliases cannot be used in expressions", at.loc)
            y = Sym("alias", n.name.text, n.name.loc)
            y.type = ty
            self.add(y)
            return
        e = n.expr
        self.expr(e)
        if e.op == "call" and e.type == "Void":
            self.fail("void_assign", "function returning type void cannot be assigned to variable "
                      f'"{n.name.text}"', e.tok.loc)
        vt = e.type
        if not n.implicit:
            vt = self.type_at(n.type_tok)
            if vt is None:
                self.fail("type_missing", f'type "{self.t[n.type_tok].text}" could not be found',
                          self.t[n.type_tok].loc)
        v = Sym("var", n.name.text, n.name.loc)
        v.type, v.const, v.exported, v.func = vt, n.is_const, n.exported, self.func
        v.implicit = n.implicit
        v.fold = e.fold
        self.add(v)
        n.sym = v
        if e.type != vt:
            self.fail("type", f'expected type "{vt}", got "{e.type}"', e.first().loc)
        if e.op == "const" and not n.implicit:
            if self.warn("trivial", f'explicit type "{vt}" can be trivialy deduced'):
                raise Stop

    def var(self, tok):
        y = find(self.scope, tok.text)
        if y is None or y.kind != "var":
            self.fail("var_missing", f'variable "{tok.text}" not found', tok.loc)
        if y.func is not self.func and y.func is not self.main and not (y.const and y.fold):
            self.captures = True
        return y

    def assign(self, n):
        v = self.var(n.tok)
        n.sym = v
        if v.const:
            self.fail("const", f'cannot reassign const variable "{n.tok.text}"', n.tok.loc)
        v.written = True
        e = n.expr
        self.expr(e)
        if e.type != v.type:
            self.fail("type", f'expected type "{v.type}", got "{e.type}"', e.first().loc)
        if e.op == "id" and e.sym is v:
            self.fail("redundant", f'redundant assignment of variable "{e.tok.text}" to itself', e.tok.loc)

    # -- expressions
    def literal(self, e):
        t = e.tok
        k = t.kind
        e.fold = True
        if k == "int":
            v = int_value(t.text)
            if not -2**63 <= v < 2**63:
                self.fail("overflow", f'overflow occurred while parsing "{t.text}"', t.loc)
            e.type, e.value = "Int", v
        elif k == "float":
            s = t.text.replace("_", "")
            v = float({"Infinity": "inf", "-Infinity": "-inf"}.get(s, s))
            if s[-1] in DIG and (v in (float("inf"), float("-inf"))
                                 or (abs(v) < 2.2250738585072014e-308 and s.strip("-0."))):
                self.fail("overflow", f'overflow occurred while parsing "{t.text}"', t.loc)
            e.type, e.value = "Float", v
        elif k == "bool":
            e.type, e.value = "Bool", t.text == "true"
        elif k == "rune":
            c = t.text[1]
            if ord(c) < 32 or ord(c) == 127:
                self.fail("control", "control character cannot be used in rune", t.loc)
            u = unescape_first(t.text[1:])
            if isinstance(u, str):
                self.fail("escape", f'bad escape sequence: "{u}"', t.loc)
            cp, ln = u
            if 1 + ln != len(t.text) - 1:
                self.fail("rune_long", "rune contains too many characters", t.loc)
            if not encodable(cp):
                self.fail("illegal", "illegal UTF8 sequence in this region", t.loc)
            e.type, e.value = "Rune", cp
        elif k == "str":
            u = unescape(t.text[1:-1])
            if isinstance(u, str):
                self.fail("escape", f'bad escape sequence: "{u}"', t.loc)
            b = bytearray()
            for cp, _ in u:
                if cp == 0:
                    break
                if not encodable(cp):
                    self.fail("illegal", "illegal UTF8 sequence in this region", t.loc)
                b += enc(cp)
            e.type, e.value = "Str", bytes(b)

    def expr(self, e):
        op = e.op
        if op == "const":
            self.literal(e)
            return
        if op == "id":
            v = self.var(e.tok)
            v.read = True
            e.sym, e.type = v, v.type
            e.fold = v.const and v.fold and v.func is not self.main
            return
        if op == "call":
            f = find(self.scope, e.tok.text)
            if f is None or f.kind != "func":
                self.fail("missing_decl", f'function "{e.tok.text}" missing declaration', e.tok.loc)
            f.called = True
            e.sym, e.type = f, f.ret
            if len(f.params) != len(e.args):
                self.fail("num_params", "invalid number of parameters", e.tok.loc)
            for a, at, pt in zip(e.args, e.argtoks, f.params):
                self.expr(a)
                if a.type != pt:
                    self.fail("param_type", f'expected param of type "{pt}", got "{a.type}"', at.loc)
            return
        self.expr(e.rhs)
        rt = e.rhs.type
        if op not in ("neg", "not", "ref", "deref"):
            self.expr(e.lhs)
            if e.lhs.type != rt:
                self.fail("type", f'expected type "{e.lhs.type}", got "{rt}"', e.rhs.first().loc)
        at = e.first()
        num = rt in ("Int", "Float")
        if op in ("+", "-", "*", "neg", "<", ">", "<=", ">="):
            if not num:
                self.fail("numeric", "expected a numeric value", at.loc)
        elif op in ("/", "mod"):
            if e.rhs.op == "const" and e.rhs.type == "Int" and e.rhs.value == 0:
                self.fail("div_zero", "division by zero", e.rhs.tok.loc)
            if not num:
                self.fail("numeric", "expected a numeric value", at.loc)
        elif op == "^":
            if not num:
                self.fail("pow_type", f'cannot use type "{rt}" for power operator')
        elif op in ("<<", ">>"):
            if rt != "Int":
                self.fail("int", "expected an integer", at.loc)
        elif op in ("not", "and", "or", "xor"):
            if rt != "Bool":
                self.fail("type", f'expected type "Bool", got "{rt}"', at.loc)
        elif op == "ref":
            if e.rhs.op != "id":
                self.fail("ref_ident", "cannot take reference of non-identifier", at.loc)
        elif op == "deref":
            if e.rhs.op != "id" or rt[0] != "&" or rt == "&Void":
                self.fail("deref", "cannot dereference expression", at.loc)
        elif op in ("is", "isnt"):
            if rt == "Void" or rt[0] == "&":
                self.fail("invalid_expr", f'invalid expression near "{at.text}"', at.loc)
        if op in ("not", "is", "isnt", "<", ">", "<=", ">=", "and", "or", "xor"):
            e.type = "Bool"
        elif op == "ref":
            e.type = "&" + rt
        elif op == "deref":
            e.type = rt[1:]
        else:
            e.type = rt
        if op == "ref":
            e.fold = e.rhs.sym.func is self.main
        elif op in ("deref", "^") or (op in ("is", "isnt") and rt == "Str"):
            e.fold = False
        else:
            e.fold = e.rhs.fold and (e.lhs is None or e.lhs.fold)


def unescape_first(s):
    """(code point, length) of the first character of s, or a bad escape."""
    if s[0] != "\\":
        return (ord(s[0]), 1)
    if len(s) > 1 and s[1] == "x":
        j = 2
        while j < min(len(s), 10) and s[j] in HEX:
            j += 1
        u = unescape(s[:j] if j > 2 else s[:3])
        return u if isinstance(u, str) else u[0]
    u = unescape(s[:2])
    return u if isinstance(u, str) else u[0]


def encodable(cp):
    return cp < 0x80000000 and not 0xd800 <= cp < 0xe000


def enc(cp):
    if cp < 0x110000:
        return chr(cp).encode("utf-8")
    raise Unspecified("code point beyond Unicode")


class Unspecified(Exception):
    """The language does not say what this program does."""


def ends_flow(nodes):
    for n in nodes or ():
        if n.kind in ("return", "unreachable", "break", "continue"):
            return True
        if n.kind == "namespace" and ends_flow(n.child):
            return True
    return False


class Verdict:
    __slots__ = ("ok", "diags", "nodes", "main", "captures", "toks", "empty")

    def lines(self, fname="m.sk"):
        return [d.render(fname) for d in self.diags]

    @property
    def code(self):
        """The kind of the first error, or None."""
        for d in self.diags:
            if d.kind == "E":
                return d.code
        return None


def analyse(src, werror=False, quiet=False, modules=()):
    v = Verdict()
    v.diags, v.nodes, v.main, v.captures, v.toks = [], None, None, False, None
    v.ok = False
    v.empty = False
    if src.startswith("\ufeff"):
        v.diags.append(Diag("W", "bom", "BOM found", None))
        if werror:
            return v
        src = src[1:]
    toks = lex(src, v.diags)
    if toks is None:
        return v
    v.toks = toks
    p = Parser(toks, v.diags)
    nodes = p.parse()
    if nodes is None:
        return v
    if not nodes:
        v.diags.append(Diag("E", "empty", "file is empty", None))
        return v
    c = Checker(toks, v.diags, werror, quiet, modules)
    v.ok = c.run(nodes)
    v.nodes, v.main, v.captures = nodes, c.main, c.captures
    return v
