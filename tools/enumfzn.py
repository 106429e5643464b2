#!/usr/bin/env -S python3 -E -S
"""enumfzn: a small, independent FlatZinc solver (backtracking + filtering on constraints that
have a single unknown left).  Used as a reference backend that has no Gecode in it: MiniZinc
compiles against the plain standard library decompositions and this program enumerates the
solutions of the resulting FlatZinc.  Solutions are distinct with respect to the output
variables (introduced variables are only tested for existence)."""
import sys, re, math, itertools

TOK = re.compile(r'\s*(?:(%[^\n]*)|("(?:[^"\\]|\\.)*")|(-?\d+\.\d+(?:[eE][-+]?\d+)?|-?\d+[eE][-+]?\d+)|(-?\d+)|(\.\.)|(::)|([A-Za-z_]\w*)|(.))', re.S)


class Id(str):
    pass


class Call(tuple):
    pass


def lex(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            break
        i = m.end()
        k = m.lastindex
        if k == 1 or k is None:
            continue
        t = m.group(k)
        if k == 2:
            out.append(("s", t))
        elif k == 3:
            out.append(("f", float(t)))
        elif k == 4:
            out.append(("i", int(t)))
        elif k == 7:
            out.append(("id", t))
        else:
            if not t.isspace():
                out.append(("p", t))
    return out


class P:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, o=0):
        return self.t[self.i + o] if self.i + o < len(self.t) else ("eof", "")

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def acc(self, v):
        if self.peek()[1] == v and self.peek()[0] in ("p", "id"):
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.acc(v):
            raise SyntaxError("expected %r got %r at %d" % (v, self.peek(), self.i))

    def expr(self):
        k, v = self.next()
        if k in "if":
            if k == "i" and self.acc(".."):
                return ("range", v, self.next()[1])
            if k == "f" and self.acc(".."):
                return ("range", v, self.next()[1])
            return v
        if k == "s":
            return ("str", v)
        if k == "id":
            if v == "true":
                return True
            if v == "false":
                return False
            if self.acc("("):
                a = []
                while not self.acc(")"):
                    a.append(self.expr())
                    self.acc(",")
                return Call((v, a))
            if self.acc("["):
                i = self.expr()
                self.exp("]")
                return ("idx", v, i)
            return Id(v)
        if v == "[":
            a = []
            while not self.acc("]"):
                a.append(self.expr())
                self.acc(",")
            return a
        if v == "{":
            a = []
            while not self.acc("}"):
                a.append(self.expr())
                self.acc(",")
            return frozenset(a)
        raise SyntaxError("bad expr %r at %d" % (v, self.i))

    def anns(self):
        a = []
        while self.acc("::"):
            a.append(self.expr())
        return a

    def upto(self, *stop):
        while self.peek()[1] not in stop:
            self.i += 1


def asset(v):
    if isinstance(v, tuple) and v and v[0] == "range":
        return frozenset(range(v[1], v[2] + 1))
    return v


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ relations
def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def r_div(a, b, c):
    return b != 0 and tdiv(a, b) == c


def r_mod(a, b, c):
    return b != 0 and a - b * tdiv(a, b) == c


def powi(a, b):
    if b >= 0:
        return a ** b
    if a == 0:
        return None
    if abs(a) == 1:
        return a ** (-b)
    return 0


def feq(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def fle(a, b):
    return a <= b or feq(a, b)


def lin(c, x):
    return sum(p * int(q) for p, q in zip(c, x))


def flin(c, x):
    return sum(p * q for p, q in zip(c, x))


def elem(i, a, v):
    return 1 <= i <= len(a) and a[i - 1] == v


def felem(i, a, v):
    return 1 <= i <= len(a) and feq(a[i - 1], v)


def setkey(s):
    return sorted(s)


R = {
    "int_eq": lambda a, b: a == b, "int_ne": lambda a, b: a != b, "int_le": lambda a, b: a <= b,
    "int_lt": lambda a, b: a < b,
    "int_plus": lambda a, b, c: a + b == c, "int_minus": lambda a, b, c: a - b == c,
    "int_times": lambda a, b, c: a * b == c,
    "int_div": r_div, "int_mod": r_mod, "int_abs": lambda a, b: abs(a) == b,
    "int_min": lambda a, b, c: min(a, b) == c, "int_max": lambda a, b, c: max(a, b) == c,
    "int_pow": lambda a, b, c: powi(a, b) == c, "int_pow_fixed": lambda a, b, c: powi(a, b) == c,
    "int_negate": lambda a, b: -a == b,
    "int_lin_eq": lambda c, x, k: lin(c, x) == k, "int_lin_le": lambda c, x, k: lin(c, x) <= k,
    "int_lin_ne": lambda c, x, k: lin(c, x) != k,
    "bool_lin_eq": lambda c, x, k: lin(c, x) == k, "bool_lin_le": lambda c, x, k: lin(c, x) <= k,
    "bool_eq": lambda a, b: a == b, "bool_le": lambda a, b: a <= b, "bool_lt": lambda a, b: a < b,
    "bool_ne": lambda a, b: a != b, "bool_not": lambda a, b: a != b,
    "bool_and": lambda a, b, r: (a and b) == r, "bool_or": lambda a, b, r: (a or b) == r,
    "bool_xor": lambda a, b, r=True: (a != b) == r,
    "bool_clause": lambda p, n: any(p) or not all(n),
    "array_bool_and": lambda a, r: all(a) == r, "array_bool_or": lambda a, r: any(a) == r,
    "array_bool_xor": lambda a: sum(a) % 2 == 1,
    "bool2int": lambda b, i: int(b) == i,
    "array_int_element": elem, "array_var_int_element": elem, "array_bool_element": elem,
    "array_var_bool_element": elem, "array_set_element": elem, "array_var_set_element": elem,
    "array_float_element": felem, "array_var_float_element": felem,
    "array_int_minimum": lambda m, a: min(a) == m, "array_int_maximum": lambda m, a: max(a) == m,
    "array_float_minimum": lambda m, a: feq(min(a), m), "array_float_maximum": lambda m, a: feq(max(a), m),
    "set_in": lambda x, s: x in s, "set_eq": lambda a, b: a == b, "set_ne": lambda a, b: a != b,
    "set_subset": lambda a, b: a <= b, "set_superset": lambda a, b: a >= b,
    "set_le": lambda a, b: setkey(a) <= setkey(b), "set_lt": lambda a, b: setkey(a) < setkey(b),
    "set_card": lambda s, n: len(s) == n, "set_union": lambda a, b, c: a | b == c,
    "set_intersect": lambda a, b, c: a & b == c, "set_diff": lambda a, b, c: a - b == c,
    "set_symdiff": lambda a, b, c: a ^ b == c,
    "float_eq": feq, "float_ne": lambda a, b: not feq(a, b), "float_le": fle, "float_lt": lambda a, b: a < b and not feq(a, b),
    "float_plus": lambda a, b, c: feq(a + b, c), "float_times": lambda a, b, c: feq(a * b, c),
    "float_div": lambda a, b, c: b != 0 and feq(a / b, c), "float_abs": lambda a, b: feq(abs(a), b),
    "float_min": lambda a, b, c: feq(min(a, b), c), "float_max": lambda a, b, c: feq(max(a, b), c),
    "float_lin_eq": lambda c, x, k: feq(flin(c, x), k), "float_lin_le": lambda c, x, k: fle(flin(c, x), k),
    "float_lin_lt": lambda c, x, k: flin(c, x) < k and not feq(flin(c, x), k),
    "float_lin_ne": lambda c, x, k: not feq(flin(c, x), k),
    "int2float": lambda a, b: feq(float(a), b),
    "float_floor": lambda a, b: math.floor(a) == b, "float_ceil": lambda a, b: math.ceil(a) == b,
    "float_round": lambda a, b: (math.floor(abs(a) + .5) if a >= 0 else -math.floor(abs(a) + .5)) == b,
    "float_in": lambda a, b, c: fle(b, a) and fle(a, c), "float_dom": None,
    "float_sqrt": lambda a, b: a >= 0 and feq(math.sqrt(a), b),
    "float_pow": lambda a, b, c: feq(a ** b, c),
}


def div0(f):
    def g(*a):
        try:
            return f(*a)
        except (ZeroDivisionError, ValueError, OverflowError):
            return None
    return g


# value of the argument at a given position from the others: name -> {position: function}
F = {
    "int_eq": {0: lambda a, b: b, 1: lambda a, b: a}, "int_plus": {2: lambda a, b, c: a + b, 0: lambda a, b, c: c - b, 1: lambda a, b, c: c - a},
    "int_minus": {2: lambda a, b, c: a - b},
    "int_times": {2: lambda a, b, c: a * b, 0: lambda a, b, c: c // b if b and c % b == 0 else None,
                  1: lambda a, b, c: c // a if a and c % a == 0 else None},
    "int_div": {2: div0(lambda a, b, c: tdiv(a, b))}, "int_mod": {2: div0(lambda a, b, c: a - b * tdiv(a, b))},
    "int_abs": {1: lambda a, b: abs(a)}, "int_negate": {1: lambda a, b: -a},
    "int_min": {2: lambda a, b, c: min(a, b)}, "int_max": {2: lambda a, b, c: max(a, b)},
    "int_pow": {2: lambda a, b, c: powi(a, b)}, "int_pow_fixed": {2: lambda a, b, c: powi(a, b)},
    "bool2int": {1: lambda b, i: int(b)}, "set_card": {1: lambda s, n: len(s)},
    "array_int_minimum": {0: lambda m, a: min(a)}, "array_int_maximum": {0: lambda m, a: max(a)},
    "array_float_minimum": {0: lambda m, a: min(a)}, "array_float_maximum": {0: lambda m, a: max(a)},
    "int2float": {1: lambda a, b: float(a)},
    "float_eq": {0: lambda a, b: b, 1: lambda a, b: a}, "float_plus": {2: lambda a, b, c: a + b, 0: lambda a, b, c: c - b, 1: lambda a, b, c: c - a},
    "float_times": {2: lambda a, b, c: a * b, 0: div0(lambda a, b, c: c / b), 1: div0(lambda a, b, c: c / a)},
    "float_div": {2: div0(lambda a, b, c: a / b)}, "float_abs": {1: lambda a, b: abs(a)},
    "float_min": {2: lambda a, b, c: min(a, b)}, "float_max": {2: lambda a, b, c: max(a, b)},
    "float_sqrt": {1: div0(lambda a, b: math.sqrt(a))}, "float_pow": {2: div0(lambda a, b, c: a ** b)},
    "float_floor": {1: lambda a, b: math.floor(a)}, "float_ceil": {1: lambda a, b: math.ceil(a)},
    "float_round": {1: lambda a, b: (math.floor(abs(a) + .5) if a >= 0 else -math.floor(abs(a) + .5))},
    "set_union": {2: lambda a, b, c: a | b}, "set_intersect": {2: lambda a, b, c: a & b},
    "set_diff": {2: lambda a, b, c: a - b}, "set_symdiff": {2: lambda a, b, c: a ^ b}, "set_eq": {0: lambda a, b: b, 1: lambda a, b: a},
}
for e in ("array_int_element", "array_var_int_element", "array_float_element", "array_var_float_element", "array_set_element", "array_var_set_element"):
    F[e] = {2: lambda i, a, v: a[i - 1] if 1 <= i <= len(a) else None}

LIM = 4000


class Model:
    def __init__(self, text):
        self.par, self.dom, self.order, self.outs, self.cons, self.alias = {}, {}, [], [], [], {}
        self.rows, self.goal, self.obj = {}, "satisfy", None
        p = P(lex(text))
        while p.peek()[0] != "eof":
            self.item(p)
            p.exp(";")

    def vtype(self, p):
        """domain description after `var`"""
        if p.acc("set"):
            p.exp("of")
            k, v = p.peek()
            if v in ("int",):
                p.next()
                raise Unsupported("unbounded set variable")
            u = sorted(asset(p.expr()))
            if len(u) > 12:
                raise Unsupported("large set variable")
            return [frozenset(x for i, x in enumerate(u) if m >> i & 1) for m in range(1 << len(u))]
        k, v = p.peek()
        if v == "bool":
            p.next()
            return [False, True]
        if v == "int":
            p.next()
            return ("int", None, None)
        if v == "float":
            p.next()
            return ("float", None, None)
        e = p.expr()
        if isinstance(e, frozenset):
            return sorted(e)
        if isinstance(e[1], float) or isinstance(e[2], float):
            return ("float", e[1], e[2])
        if e[2] - e[1] > LIM:
            return ("int", e[1], e[2])
        return list(range(e[1], e[2] + 1))

    def item(self, p):
        if p.acc("predicate"):
            p.upto(";")
            return
        if p.acc("constraint"):
            c = p.expr()
            an = p.anns()
            self.cons.append((c[0], c[1]))
            return
        if p.acc("solve"):
            p.anns()
            k, v = p.next()
            self.goal = v
            if v != "satisfy":
                self.obj = p.expr()
            return
        if p.acc("array"):
            p.upto("of")
            p.exp("of")
            isvar = p.acc("var")
            if isvar:
                self.vtype(p)
            else:
                p.upto(":")
            p.exp(":")
            n = p.next()[1]
            an = p.anns()
            p.exp("=")
            e = p.expr()
            self.par[n] = e
            for a in an:
                if isinstance(a, Call) and a[0] == "output_array":
                    self.outs.append((n, a[1][0]))
            return
        if p.acc("var"):
            d = self.vtype(p)
            p.exp(":")
            n = p.next()[1]
            an = p.anns()
            self.dom[n] = d
            self.order.append(n)
            if p.acc("="):
                e = p.expr()
                k = "eq!"
                self.cons.append((k, [Id(n), e]))
            for a in an:
                if a == "output_var":
                    self.outs.append((n, None))
            return
        # parameter
        p.upto(":")
        p.exp(":")
        n = p.next()[1]
        p.anns()
        p.exp("=")
        self.par[n] = p.expr()

    def res(self, e):
        """resolve to constants / Id of variables / nested lists"""
        while isinstance(e, Id) and e in self.par:
            e = self.par[e]
        if isinstance(e, Id):
            if e not in self.dom:
                raise Unsupported("unknown identifier " + e)
            return e
        if isinstance(e, list):
            return [self.res(x) for x in e]
        if isinstance(e, tuple) and e and e[0] == "idx":
            return self.res(self.par[e[1]][self.res(e[2]) - 1])
        return asset(e)


class Con:
    __slots__ = ("name", "args", "vars", "rel", "reif", "neg", "fun")

    def __init__(self, name, args):
        self.name, self.args, self.reif = name, args, None
        base = name
        if name == "eq!":
            self.rel = lambda a, b: (feq(a, b) if isinstance(a, float) else a == b)
            self.fun = {0: lambda a, b: b, 1: lambda a, b: a}
        else:
            if name not in R:
                if name.endswith("_reif"):
                    base, self.reif = name[:-5], "reif"
                elif name.endswith("_imp"):
                    base, self.reif = name[:-4], "imp"
            if base not in R:
                raise Unsupported("constraint " + name)
            self.rel = R[base]
            self.fun = F.get(base, {}) if not self.reif else {}
            self.name = base
        vs = []

        def walk(a):
            if isinstance(a, Id):
                if a not in vs:
                    vs.append(a)
            elif isinstance(a, list):
                for x in a:
                    walk(x)
        walk(args)
        self.vars = vs

    def val(self, asg):
        def v(a):
            if isinstance(a, Id):
                return asg[a]
            if isinstance(a, list):
                return [v(x) for x in a]
            return a
        return [v(a) for a in self.args]

    def check(self, asg):
        a = self.val(asg)
        try:
            if self.reif:
                t = bool(self.rel(*a[:-1]))
                return t == a[-1] if self.reif == "reif" else (t or not a[-1])
            return bool(self.rel(*a))
        except OverflowError:
            return False


class Solver:
    def __init__(self, m):
        self.m = m
        self.cons = []
        for n, a in m.cons:
            self.cons.append(Con(n, [m.res(x) for x in a]))
        self.dom = dict(m.dom)
        self.asg = {}
        self.occ = {v: [] for v in self.dom}
        self.left = []
        for k, c in enumerate(self.cons):
            self.left.append(len(c.vars))
            for v in c.vars:
                self.occ[v].append(k)
        self.trail = []
        outs = []
        for n, d in m.outs:
            e = m.res(Id(n))
            for x in (e if isinstance(e, list) else [e]):
                if isinstance(x, Id) and x not in outs:
                    outs.append(x)
        if m.obj is not None:
            o = m.res(m.obj)
            if isinstance(o, Id) and o not in outs:
                outs.append(o)
        self.outv = outs
        self.rest = [v for v in m.order if v not in outs]
        self.nodes = 0

    def setdom(self, v, d):
        self.trail.append(("d", v, self.dom[v]))
        self.dom[v] = d

    def assign(self, v, x, q):
        self.asg[v] = x
        self.trail.append(("a", v, None))
        for k in self.occ[v]:
            self.left[k] -= 1
            if self.left[k] <= 1:
                q.append(k)

    def undo(self, n):
        while len(self.trail) > n:
            t, v, d = self.trail.pop()
            if t == "d":
                self.dom[v] = d
            else:
                del self.asg[v]
                for k in self.occ[v]:
                    self.left[k] += 1

    def filt(self, c, v, q):
        """c has v as its only unknown"""
        d = self.dom[v]
        if isinstance(d, list):
            nd = []
            for x in d:
                self.asg[v] = x
                if c.check(self.asg):
                    nd.append(x)
            del self.asg[v]
            if not nd:
                return False
            if len(nd) == 1:
                self.assign(v, nd[0], q)
            elif len(nd) < len(d):
                self.setdom(v, nd)
            return True
        # interval domain: functional or inequality reasoning
        kind, lo, hi = d
        name, a = c.name, c.args
        if c.reif:
            b = a[-1]
            b = self.asg[b] if isinstance(b, Id) else b
            if b is None:
                return True
            if not b:
                if c.reif == "imp":
                    return True
                return self.ineq(c, v, a[:-1], False, q)
            r = self.functional(c, F.get(name, {}), a[:-1], v, q)
            return r if r is not None else self.ineq(c, v, a[:-1], True, q)
        r = self.functional(c, c.fun, a, v, q)
        return r if r is not None else self.ineq(c, v, a, True, q)

    def put(self, c, v, x, q):
        kind, lo, hi = self.dom[v]
        if x is None or (lo is not None and x < lo and not (kind == "float" and feq(x, lo))) or (hi is not None and x > hi and not (kind == "float" and feq(x, hi))):
            return False
        self.asg[v] = x
        ok = c.check(self.asg)
        del self.asg[v]
        if ok:
            self.assign(v, x, q)
        return ok

    def functional(self, c, fun, a, v, q):
        if c.name in ("int_lin_eq", "float_lin_eq"):
            co = sum(k for k, x in zip(a[0], a[1]) if x == v and isinstance(x, Id))
            if co == 0:
                return None
            s = a[2] - sum(k * (self.asg[x] if isinstance(x, Id) else x) for k, x in zip(a[0], a[1]) if not (isinstance(x, Id) and x == v))
            if c.name == "float_lin_eq":
                return self.put(c, v, s / co, q)
            if s % co:
                return False
            return self.put(c, v, s // co, q)
        for pos, f in fun.items():
            if isinstance(a[pos], Id) and a[pos] == v and not any(self.mentions(x, v) for i, x in enumerate(a) if i != pos):
                vals = [None if i == pos else self.value(x) for i, x in enumerate(a)]
                return self.put(c, v, f(*vals), q)
        if c.name == "int_abs" and a[0] == v:
            r = self.value(a[1])
            if r is None:
                return None
            if r < 0:
                return False
            if r == 0:
                return self.put(c, v, 0, q)
            self.setdom(v, [x for x in (-r, r) if self.inside(v, x)])
            return bool(self.dom[v])
        if c.name in ("array_var_int_element",) and not self.mentions(a[0], v) and not self.mentions(a[2], v):
            i = self.value(a[0])
            if not 1 <= i <= len(a[1]):
                return False
            if a[1][i - 1] == v:
                return self.put(c, v, self.value(a[2]), q)
            return True
        return None

    def inside(self, v, x):
        k, lo, hi = self.dom[v]
        return (lo is None or x >= lo) and (hi is None or x <= hi)

    def mentions(self, a, v):
        return any(self.mentions(x, v) for x in a) if isinstance(a, list) else (isinstance(a, Id) and a == v)

    def value(self, a):
        if isinstance(a, Id):
            return self.asg.get(a)
        if isinstance(a, list):
            return [self.value(x) for x in a]
        return a

    def ineq(self, c, v, a, pos, q):
        kind, lo, hi = self.dom[v]
        n = c.name
        if n in ("int_le", "int_lt", "float_le") and kind == "int":
            if a[0] == v and isinstance(a[0], Id) and not self.mentions(a[1], v):
                x = self.value(a[1]) - (n == "int_lt")
                if pos:
                    return self.narrow(v, None, x)
                return self.narrow(v, x + 1, None)
            if a[1] == v and isinstance(a[1], Id) and not self.mentions(a[0], v):
                x = self.value(a[0]) + (n == "int_lt")
                if pos:
                    return self.narrow(v, x, None)
                return self.narrow(v, None, x - 1)
        if n == "int_lin_le" and kind == "int":
            co = sum(k for k, x in zip(a[0], a[1]) if x == v and isinstance(x, Id))
            s = a[2] - sum(k * (self.asg[x] if isinstance(x, Id) else x) for k, x in zip(a[0], a[1]) if not (isinstance(x, Id) and x == v))
            if co:
                if not pos:
                    co, s = -co, -s - 1
                if co > 0:
                    return self.narrow(v, None, s // co)
                return self.narrow(v, -(s // -co), None)
        if n == "set_in" and pos and isinstance(a[0], Id) and a[0] == v:
            s = sorted(x for x in self.value(a[1]) if self.inside(v, x))
            if not s:
                return False
            self.setdom(v, s)
            return True
        return True

    def narrow(self, v, lo, hi):
        k, l, h = self.dom[v]
        if lo is not None and (l is None or lo > l):
            l = lo
        if hi is not None and (h is None or hi < h):
            h = hi
        if l is not None and h is not None:
            if l > h:
                return False
            if h - l <= LIM:
                self.setdom(v, list(range(l, h + 1)))
                return True
        if (k, l, h) != self.dom[v]:
            self.setdom(v, (k, l, h))
        return True

    def prop(self, q):
        while q:
            k = q.pop()
            c = self.cons[k]
            if self.left[k] == 0:
                if not c.check(self.asg):
                    return False
            elif self.left[k] == 1:
                v = next(x for x in c.vars if x not in self.asg)
                if not self.filt(c, v, q):
                    return False
        return True

    def run(self):
        """generator of assignments of the output variables"""
        sys.setrecursionlimit(100000)
        q = list(range(len(self.cons)))
        for v in list(self.dom):
            d = self.dom[v]
            if isinstance(d, list) and len(d) == 1 and v not in self.asg:
                self.assign(v, d[0], q)
            elif isinstance(d, list) and not d:
                return
        if not self.prop(q):
            return
        yield from self.search(self.outv, True)

    def pick(self, vs):
        best, bl = None, None
        for v in vs:
            if v in self.asg:
                continue
            d = self.dom[v]
            k = len(d) if isinstance(d, list) else 10 ** 6
            if bl is None or k < bl:
                best, bl = v, k
                if k == 2:
                    break
        return best

    def values(self, v):
        d = self.dom[v]
        if isinstance(d, list):
            return d
        kind, lo, hi = d
        if kind == "float":
            raise Unsupported("float search on " + v)
        return None

    def search(self, vs, out):
        self.nodes += 1
        v = self.pick(vs)
        if v is not None and not isinstance(self.dom[v], list) and out:
            # prefer a finite introduced variable: it may define this one
            w = self.pick(self.rest)
            if w is not None and isinstance(self.dom[w], list):
                v = w
                n = len(self.trail)
                seen = set()
                for x in list(self.dom[v]):
                    q = []
                    self.assign(v, x, q)
                    if self.prop(q):
                        for s in self.search(vs, True):
                            key = tuple(s[y] for y in self.outv)
                            if key not in seen:
                                seen.add(key)
                                yield s
                    self.undo(n)
                return
            raise Unsupported("unbounded output variable " + v)
        if v is None:
            if out:
                n = len(self.trail)
                for s in self.search(self.rest, False):
                    yield s
                    break
                self.undo(n)
            else:
                yield {x: self.asg[x] for x in self.outv}
            return
        d = self.dom[v]
        if not isinstance(d, list):
            if d[0] == "float":
                cand = [x for x in (d[1], d[2], 0.0, 1.0) if x is not None and self.inside(v, x)]
            else:
                b = d[1] if d[1] is not None else d[2] if d[2] is not None else 0
                cand = [x for x in [b] + [b + s * k for k in range(1, 40) for s in (1, -1)] if self.inside(v, x)]
        else:
            cand = list(d)
        n = len(self.trail)
        for x in cand:
            q = []
            self.assign(v, x, q)
            if self.prop(q):
                yield from self.search(vs, out)
            self.undo(n)


def fmt(v):
    if v is True:
        return "true"
    if v is False:
        return "false"
    if isinstance(v, frozenset):
        return "{%s}" % ",".join(map(str, sorted(v)))
    if isinstance(v, tuple) and v and v[0] == "range":
        return "%s..%s" % v[1:]
    if isinstance(v, float):
        r = repr(v)
        return r if ("." in r or "e" in r) else r + ".0"
    return str(v)


def main():
    alls, n, files, stats, inter = False, None, [], False, False
    it = iter(sys.argv[1:])
    for a in it:
        if a == "-a":
            alls = True
        elif a == "-i":
            inter = True
        elif a == "-n":
            n = int(next(it))
        elif a == "-s":
            stats = True
        elif a in ("-f",):
            pass
        elif a in ("-t", "-p", "-r"):
            next(it)
        else:
            files.append(a)
    w = sys.stdout.write
    try:
        m = Model(open(files[0]).read())
        s = Solver(m)
        outs = []
        for name, dims in m.outs:
            outs.append((name, m.res(Id(name)), dims))
        obj = m.res(m.obj) if m.obj is not None else None

        def show(sol):
            for name, e, dims in outs:
                g = lambda x: sol[x] if isinstance(x, Id) else x
                if isinstance(e, list):
                    w("%s = array%dd(%s, [%s]);\n" % (name, len(dims), ", ".join(fmt(x) if not isinstance(x, frozenset) else
                      ("%d..%d" % (min(x), max(x)) if x else "1..0") for x in [asset(d) for d in dims]), ", ".join(fmt(g(x)) for x in e)))
                else:
                    w("%s = %s;\n" % (name, fmt(g(e))))
            w("----------\n")
        count, best, last = 0, None, None
        lim = n if n is not None else (0 if alls else 1)
        done = True
        for sol in s.run():
            if m.goal == "satisfy":
                show(sol)
                count += 1
                if lim and count >= lim:
                    done = n is None and False
                    break
            else:
                v = sol[obj] if isinstance(obj, Id) else obj
                if best is None or (v < best if m.goal == "minimize" else v > best):
                    best, last = v, sol
                    count += 1
                    if alls or inter or n is not None:
                        show(sol)
                        if n and count >= n:
                            done = False
                            break
        if m.goal != "satisfy" and not (alls or inter or n is not None) and last is not None:
            show(last)
        if count == 0:
            w("=====UNSATISFIABLE=====\n")
        elif done:
            w("==========\n")
        if stats:
            w("%%%%%%mzn-stat: nodes=%d\n%%%%%%mzn-stat: solutions=%d\n%%%%%%mzn-stat-end\n" % (s.nodes, count))
        sys.stdout.flush()
    except (Unsupported, RecursionError) as e:
        sys.stderr.write("enumfzn: unsupported: %s\n" % e)
        sys.stdout.write("=====UNKNOWN=====\n")


if __name__ == "__main__":
    main()
