"""Reference interpreter: what an accepted program does, for every script of
decisions up to a depth.  Mirrors the external functions of harness/driver.c."""
import math
import struct

from .ref import Unspecified

LIMIT = 400


class Cut(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Cell:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


def i64(v):
    if not -2**63 <= v < 2**63:
        raise Unspecified("integer overflow")
    return v


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def binop(op, t, a, b):
    """Value of `a op b` for operands of type t."""
    if op == "is":
        return a == b
    if op == "isnt":
        return not a == b
    if op == "<":
        return a < b
    if op == ">":
        return a > b
    if op == "<=":
        return a <= b
    if op == ">=":
        return a >= b
    if op == "and":
        return a and b
    if op == "or":
        return a or b
    if op == "xor":
        return a != b
    if t == "Int":
        if op == "+":
            return i64(a + b)
        if op == "-":
            return i64(a - b)
        if op == "*":
            return i64(a * b)
        if op == "/":
            if b == 0:
                raise Unspecified("division by zero")
            return i64(tdiv(a, b))
        if op == "mod":
            if b == 0 or (b == -1 and a == -2**63):
                raise Unspecified("mod by zero")
            return a - tdiv(a, b) * b
        if op == "<<":
            if not 0 <= b < 64:
                raise Unspecified("shift amount")
            v = (a << b) & (2**64 - 1)
            return v - 2**64 if v >= 2**63 else v
        if op == ">>":
            if not 0 <= b < 64:
                raise Unspecified("shift amount")
            v = (a & (2**64 - 1)) >> b
            return v - 2**64 if v >= 2**63 else v
        if op == "^":
            if b < 0 or b > 10000:
                raise Unspecified("exponent")
            return i64(a ** b)
    else:
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "/":
            return fdiv(a, b)
        if op == "mod":
            return fmod(a, b)
        if op == "^":
            return fpow(a, b)
    raise AssertionError(op)


def fdiv(a, b):
    if b == 0:
        if a == 0 or a != a:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)
    return a / b


def fmod(a, b):
    if a != a or b != b or math.isinf(a) or b == 0:
        return math.nan
    if math.isinf(b):
        return a
    return math.fmod(a, b)


def fpow(a, b):
    try:
        return math.pow(a, b)
    except OverflowError:
        return -math.inf if a < 0 and b % 2 == 1 else math.inf
    except ValueError:
        if a == 0:  # 0 ^ negative
            return math.copysign(math.inf, a) if b % 2 == 1 else math.inf
        return math.nan


class Interp:
    def __init__(self, verdict, depth, neg_zero=None):
        self.v = verdict
        self.depth = depth
        self.neg = neg_zero
        self.total_steps = 0

    # -- one run
    def run(self, script):
        self.script = script
        self.points = 0
        self.events = 0
        self.steps = 0
        self.trace = []
        self.globals = {}
        self.frame = self.globals
        try:
            self.block(self.v.nodes)
            rv = "0"
        except Ret as r:
            rv = str(r.v)
        except Cut:
            rv = "cut"
        return rv, "".join(self.trace)

    def runs(self, max_runs=1 << 30):
        """[(script, result, trace)] in the order the driver enumerates."""
        out = []
        script = []
        while len(out) < max_runs:
            rv, tr = self.run(script)
            self.total_steps += self.steps + self.points
            out.append(("".join(map(str, script)), rv, tr))
            while script and script[-1] == 1:
                script.pop()
            if not script:
                break
            script[-1] = 1
        return out

    def tick(self):
        self.events += 1
        if self.events > LIMIT:
            raise Cut

    def emit(self, s):
        self.trace.append(s)
        self.tick()

    def choose(self):
        c = 0
        if self.points < len(self.script):
            c = self.script[self.points]
        elif self.points < self.depth:
            self.script.append(0)
        self.points += 1
        self.tick()
        return c

    def external(self, name, a):
        if name == "eI":
            self.emit(f"i{a[0]};")
        elif name == "eF":
            x = a[0]
            self.emit("fnan;" if x != x else f"f{struct.unpack('<Q', struct.pack('<d', x))[0]:016x};")
        elif name == "eB":
            self.emit(f"b{int(a[0])};")
        elif name == "eR":
            self.emit(f"r{a[0]};")
        elif name == "eS":
            self.emit(f"s{a[0].hex()};")
        elif name in ("vI", "vF", "vB", "vR", "vS"):
            return a[0]
        elif name == "chB":
            return self.choose() != 0
        elif name == "chI":
            return self.choose()
        elif name in ("lB", "lI"):
            self.emit(f"l{a[0]};")
            return a[1]
        elif name == "eN":
            self.emit("n;")
        elif name in ("nI", "nF", "nB", "nR", "nS"):
            k = self.events
            self.emit(f"{name};")
            return {"I": k, "F": k + 0.5, "B": k % 2 == 1, "R": 97 + k % 26, "S": b"s%d" % k}[name[1]]
        elif name in ("tI", "tF", "tB", "tR", "tS"):
            self.emit(f"{name};")
            return a[0]
        else:
            raise Unspecified("unknown external " + name)
        return None

    # -- statements
    def block(self, nodes):
        k = 0
        while k < len(nodes):
            n = nodes[k]
            kind = n.kind
            self.steps += 1
            if self.steps > 20000:
                raise Unspecified("does not end")
            if kind == "expr":
                self.ex(n.expr)
            elif kind == "def":
                if n.sym is not None:
                    self.frame[n.sym.uid] = Cell(self.ex(n.expr))
            elif kind == "assign":
                v = self.ex(n.expr)
                self.cell(n.sym).v = v
            elif kind == "if":
                done = self.cond(n)
                j = k + 1
                while j < len(nodes) and nodes[j].kind in ("elif", "else", "comment"):
                    m = nodes[j]
                    if m.kind != "comment":
                        if not done:
                            done = self.cond(m) if m.kind == "elif" else (self.block(m.child), True)[1]
                        k = j
                    j += 1
            elif kind == "while":
                while self.ex(n.expr):
                    self.steps += 1
                    if self.steps > 20000:
                        raise Unspecified("does not end")
                    try:
                        self.block(n.child)
                    except Brk:
                        break
                    except Cont:
                        continue
            elif kind == "return":
                raise Ret(self.ex(n.expr) if n.expr is not None else None)
            elif kind == "break":
                raise Brk
            elif kind == "continue":
                raise Cont
            elif kind == "namespace":
                self.block(n.child)
            elif kind == "unreachable":
                raise Unspecified("unreachable reached")
            k += 1

    def cond(self, n):
        if self.ex(n.expr):
            self.block(n.child)
            return True
        return False

    def cell(self, y):
        if y.func is self.v.main:
            return self.globals[y.uid]
        c = self.frame.get(y.uid)
        if c is None:
            raise Unspecified("variable of another function")
        return c

    def call(self, f, args):
        if f.external:
            return self.external(f.name, args)
        old = self.frame
        self.frame = {p.uid: Cell(a) for p, a in zip(f.psyms, args)}
        self.steps += 1
        try:
            self.block(f.node.child)
            return None
        except Ret as r:
            return r.v
        except RecursionError:
            raise Unspecified("deep recursion")
        finally:
            self.frame = old

    def ex(self, e):
        op = e.op
        if op == "const":
            return e.value
        if op == "id":
            return self.cell(e.sym).v
        if op == "call":
            args = [self.ex(a) for a in e.args]
            return self.call(e.sym, args)
        if op == "ref":
            return self.cell(e.rhs.sym)
        if op == "deref":
            return self.cell(e.rhs.sym).v.v
        if op == "neg":
            x = self.ex(e.rhs)
            return i64(-x) if e.type == "Int" else -x
        if op == "not":
            return not self.ex(e.rhs)
        a = self.ex(e.lhs)
        b = self.ex(e.rhs)
        return self.apply(e, a, b)

    def apply(self, e, a, b):
        return binop(e.op, e.lhs.type, a, b)


def externals_known(verdict):
    known = {"eI", "eF", "eB", "eR", "eS", "vI", "vF", "vB", "vR", "vS", "chB", "chI", "lB", "lI",
             "nI", "nF", "nB", "nR", "nS", "tI", "tF", "tB", "tR", "tS", "eN"}

    def walk(nodes):
        for n in nodes:
            if n.kind == "func" and n.external and n.sym.called and n.name.text not in known:
                return False
            if n.child and not walk(n.child):
                return False
        return True
    return walk(verdict.nodes)
