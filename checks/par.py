"""S16, S17: evaluation of fixed expressions against specs/MznPar.tla.

Random typed expressions are evaluated by the compiler in several places (parameter definitions, flattening
with variables, functions, output) and the recorded value or error message is judged by TLC.
"""
import os, sys, json, re, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vf

BIG = 30000


class N:
    def __init__(self, j, s, ty, lo=0, hi=0, n=None, ix=1, d2=None):
        self.j, self.s, self.ty, self.lo, self.hi, self.n, self.ix, self.d2 = j, s, ty, lo, hi, n, ix, d2


def O(o, *a, st=""):
    return {"k": "o", "o": o, "a": [x.j for x in a], "st": st}


def K(v, t):
    return {"k": "c", "v": v, "t": t}


def mstr(v):
    return '"' + v.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t") + '"'


MT = {"i": "int", "b": "bool", "s": "string", "f": "float", "S": "set of int"}


def mtype(t):
    return "array[int] of " + MT[t[1]] if t[0] == "A" else MT[t]


class G:
    def __init__(self, r, mode, err):
        self.r, self.mode, self.err = r, mode, err
        self.scope, self.nid, self.decls, self.post, self.funs = [], 0, [], [], []
        self.uses = 0
        self.infun = False
        self.depth = 0
        self.par = False      # inside a position where only fixed values are possible

    def fresh(self, p):
        self.nid += 1
        return "%s%d" % (p, self.nid)

    def ids(self, t):
        return [x for x in self.scope if x.ty == t]

    # ---- leaves
    def ci(self, v):
        if self.mode in ("out", "var") and not self.infun and self.r.random() < .15 and (self.mode == "out" or not self.par):
            n = self.fresh("x")
            self.decls.append("var %d..%d: %s;" % (v - self.r.randint(0, 3), v + self.r.randint(0, 3), n))
            self.post.append("constraint %s = %d;" % (n, v))
            return N(K(v, "i"), "fix(%s)" % n if self.mode == "out" else n, "i", v, v)
        return N(K(v, "i"), str(v) if v >= 0 else "(%d)" % v, "i", v, v)

    def string(self):
        return "".join(self.r.choice(["a", "b", "c", "x", "X", ",", " ", "é", "\"", "\\", "\n", "1", "ab", "λ"]) for _ in range(self.r.choice([0, 1, 1, 2, 2, 3, 4, 7])))

    def leaf(self, t):
        r = self.r
        v = self.ids(t)
        if v and r.random() < .6:
            self.uses += 1
            return r.choice(v)
        if t == "i":
            return self.ci(r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 7, -1, -2, -3]))
        if t == "b":
            x = r.random() < .5
            return N(K(x, "b"), "true" if x else "false", "b")
        if t == "s":
            x = self.string()
            return N(K(x, "s"), mstr(x), "s")
        if t == "f":
            q = r.choice([0, 1, 2, 3, 4, 6, 10, -1, -2, -3, -6, 9, 14, 400])
            return N(K(q, "f"), ("%r" if q >= 0 else "(%r)") % (q / 4.0), "f", q, q)
        if t == "S":
            if r.random() < .5:
                a = r.randint(-2, 3)
                b = a + r.choice([-1, 0, 1, 2, 4])
                return N(K(list(range(a, b + 1)), "S"), "%s..%s" % (a if a >= 0 else "(%d)" % a, b if b >= 0 else "(%d)" % b), "S", min(a, b), max(a, b))
            x = sorted(r.sample(range(-2, 7), r.randint(0, 4)))
            return N(K(x, "S"), "{" + ", ".join(map(str, x)) + "}" if x else "{}", "S", -2, 6) if x else N(K([], "S"), "(1..0)", "S", -2, 6)
        return self.arrlit(t, 0)

    def arrlit(self, t, d, n=None):
        r = self.r
        n = r.choice([0, 1, 2, 2, 3, 3, 4, 5]) if n is None else n
        es = [self.ex(t[1], d - 1) for _ in range(n)]
        ix = r.choice([1, 1, 1, 1, 0, 2, -1]) if n else 1
        if ix == 1:
            s = "[" + ", ".join(e.s for e in es) + "]"
            if n == 0:
                e0 = {"i": "0", "b": "true", "s": '""', "f": "0.0", "S": "1..2"}[t[1]]
                s = "[%s | _ in 1..0]" % e0
        elif r.random() < .5:
            s = "array1d(%d..%d, [%s])" % (ix, ix + n - 1, ", ".join(e.s for e in es))
        else:
            s = "[%d: %s]" % (ix, ", ".join(e.s for e in es))
        return N({"k": "arr", "lo": ix, "a": [e.j for e in es]}, s, t, min([e.lo for e in es] or [0]), max([e.hi for e in es] or [0]), n, ix)

    def arr2(self, d):
        r = self.r
        p, q = r.randint(1, 3), r.randint(1, 3)
        l1 = r.choice([1, 1, 0, 3])
        es = [self.ex("i", d - 1) for _ in range(p * q)]
        inner = {"k": "arr", "lo": 1, "a": [e.j for e in es]}
        if l1 == 1 and r.random() < .5:
            s = "[|" + "|".join(", ".join(es[i * q + k].s for k in range(q)) for i in range(p)) + "|]"
        else:
            s = "array2d(%d..%d, 1..%d, [%s])" % (l1, l1 + p - 1, q, ", ".join(e.s for e in es))
        j = {"k": "o", "o": "mk2", "a": [K(l1, "i"), K(p, "i"), inner], "st": ""}
        return N(j, s, "Ai", min(e.lo for e in es), max(e.hi for e in es), p * q, l1, (l1, p, 1, q))

    # ---- expressions
    def ex(self, t, d):
        r = self.r
        if d <= 0 or r.random() < .08:
            return self.leaf(t)
        x = r.random()
        if x < self.err:
            return self.errnode(t, d)
        if x < self.err + .22 * (1 if self.err else .6):
            f = r.choice([self.ite, self.let, self.call, self.ite])
            e = f(t, d)
            if e is not None:
                return e
        for _ in range(30):
            n = r.choice(TABLE[t if t[0] != "A" else "A"])
            e = n(self, d, t)
            if e is not None and -BIG <= e.lo <= e.hi <= BIG:
                return e
        return self.leaf(t)

    def par_(self, f):
        old = self.par
        self.par = True
        try:
            return f()
        finally:
            self.par = old

    def clean(self, f):
        """no error nodes inside (positions where it is open whether a part is evaluated)"""
        old = self.err
        self.err = 0
        try:
            return f()
        finally:
            self.err = old

    def cond(self, d):
        return self.par_(lambda: self.ex("b", d))

    def errnode(self, t, d):
        r = self.r
        m = self.fresh("MSG")
        if t == "b" and r.random() < .25:
            if r.random() < .4:
                return N({"k": "abort", "m": m}, 'abort("%s!")' % m, "b")
            c = self.cond(d - 1)
            return N({"k": "assert", "m": m, "a": [c.j, K(True, "b")]}, 'assert(%s, "%s!")' % (c.s, m), "b")
        c = self.cond(d - 1)
        if r.random() < .45:      # mostly true
            c = N({"k": "or", "a": [c.j, K(True, "b")]}, "((%s) \\/ true)" % c.s, "b")
        e = self.ex(t, d - 1)
        return N({"k": "assert", "m": m, "a": [c.j, e.j]}, 'assert(%s, "%s!", %s)' % (c.s, m, e.s), t, e.lo, e.hi, e.n, e.ix)

    def ite(self, t, d):
        c = self.cond(d - 1)
        a, b = self.ex(t, d - 1), self.ex(t, d - 1)
        if self.r.random() < .25:
            c2 = self.cond(d - 1)
            b2 = self.ex(t, d - 1)
            j = {"k": "if", "a": [c.j, a.j, {"k": "if", "a": [c2.j, b.j, b2.j]}]}
            return N(j, "if %s then %s elseif %s then %s else %s endif" % (c.s, a.s, c2.s, b.s, b2.s), t, min(a.lo, b.lo, b2.lo), max(a.hi, b.hi, b2.hi))
        return N({"k": "if", "a": [c.j, a.j, b.j]}, "if %s then %s else %s endif" % (c.s, a.s, b.s), t, min(a.lo, b.lo), max(a.hi, b.hi))

    def let(self, t, d):
        r = self.r
        ds, txt = [], []
        n0 = len(self.scope)
        for _ in range(r.choice([1, 1, 2])):
            ty = r.choice(["i", "i", "b", "Ai", "S", "s"])
            nm = self.fresh("l")
            e = self.par_(lambda: self.ex(ty, d - 1))
            ds.append({"n": nm, "e": e.j})
            txt.append("%s: %s = %s" % (mtype(ty), nm, e.s))
            self.scope.append(N({"k": "id", "n": nm}, nm, ty, e.lo, e.hi, e.n, e.ix))
        b = self.ex(t, d - 1)
        del self.scope[n0:]
        return N({"k": "let", "d": ds, "b": b.j}, "(let { %s } in %s)" % ("; ".join(txt), b.s), t, b.lo, b.hi, b.n, b.ix)

    def call(self, t, d):
        r = self.r
        if self.infun:
            return None
        tys = [r.choice(["i", "i", "b", "s", "Ai", "S"]) for _ in range(r.choice([1, 1, 2]))]
        old = self.scope
        ps = [self.fresh("p") for _ in tys]
        args = [self.par_(lambda: self.ex(ty, d - 1)) for ty in tys]
        self.scope = [N({"k": "id", "n": p}, p, ty, a.lo, a.hi) for p, ty, a in zip(ps, tys, args)]
        self.infun = True
        b = self.ex(t, d - 1)
        self.infun = False
        self.scope = old
        f = self.fresh("f")
        self.funs.append("function %s: %s(%s) = %s;" % (mtype(t), f, ", ".join("%s: %s" % (mtype(ty), p) for p, ty in zip(ps, tys)), b.s))
        return N({"k": "call", "p": ps, "b": b.j, "a": [a.j for a in args]}, "%s(%s)" % (f, ", ".join(a.s for a in args)), t, b.lo, b.hi)

    def comp(self, t, d, kind="A"):
        """comprehension with elements of type t; kind A (array) or S (set)"""
        r = self.r
        gs, txt = [], []
        n0 = len(self.scope)
        two = r.random() < .25
        cl = self.clean if two else (lambda f: f())     # conditions may be tested before later generators
        for _ in range(2 if two else 1):
            gt = r.choice(["S", "S", "Ai"])
            s = cl(lambda: self.par_(lambda: self.ex(gt, min(d - 1, 1))))
            v = self.fresh("g")
            if gt == "S":
                s = N(O("inter", s, N(K(list(range(-2, 5)), "S"), "", "S")), "((%s) intersect -2..4)" % s.s, "S", -2, 4)
            gs.append({"n": v, "s": s.j, "t": gt})
            txt.append("%s in %s" % (v, s.s))
            self.scope.append(N({"k": "id", "n": v}, v, "i", min(s.lo, s.hi), max(s.lo, s.hi)))
            if gt == "Ai" and s.n is None:
                del self.scope[n0:]
                return None
        w = {"k": "none"}
        wt = ""
        if r.random() < .5:
            c = cl(lambda: self.cond(d - 1))
            w, wt = c.j, " where " + c.s
        b = self.ex(t, d - 1)
        del self.scope[n0:]
        j = {"k": "comp", "g": gs, "w": w, "b": b.j, "t": "S" if kind == "S" else "A"}
        return N(j, ("{%s | %s%s}" if kind == "S" else "[%s | %s%s]") % (b.s, ", ".join(txt), wt), "S" if kind == "S" else "A" + t, b.lo, b.hi)


def iv(e):
    return [e.lo, e.hi]


def bin_i(g, d, t):
    o, s = g.r.choice([("add", "+"), ("sub", "-"), ("mul", "*"), ("add", "+")])
    a, b = g.ex("i", d - 1), g.ex("i", d - 1)
    c = [x + y if o == "add" else x - y if o == "sub" else x * y for x in iv(a) for y in iv(b)]
    return N(O(o, a, b), "(%s %s %s)" % (a.s, s, b.s), "i", min(c), max(c))


def divmod_i(g, d, t):
    a = g.ex("i", d - 1)
    k = g.r.choice([1, 2, 3, 5, -1, -2, -3])
    o, s = g.r.choice([("div", "div"), ("mod", "mod")])
    m = max(abs(a.lo), abs(a.hi))
    return N(O(o, a, N(K(k, "i"), "", "i")), "(%s %s %s)" % (a.s, s, k if k > 0 else "(%d)" % k), "i", -m, m)


def un_i(g, d, t):
    a = g.ex("i", d - 1)
    m = max(abs(a.lo), abs(a.hi))
    o, s = g.r.choice([("neg", "(-(%s))"), ("abs", "abs(%s)")])
    return N(O(o, a), s % a.s, "i", -m, m)


def mm_i(g, d, t):
    o = g.r.choice(["min", "max"])
    a, b = g.ex("i", d - 1), g.ex("i", d - 1)
    return N(O(o, a, b), "%s(%s, %s)" % (o, a.s, b.s), "i", min(a.lo, b.lo), max(a.hi, b.hi))


def pow_i(g, d, t):
    a = g.ex("i", d - 1)
    k = g.r.randint(0, 3)
    if max(abs(a.lo), abs(a.hi)) > 25:
        return None
    m = max(abs(a.lo), abs(a.hi)) ** k + 1
    return N(O("pow", a, N(K(k, "i"), "", "i")), "pow(%s, %d)" % (a.s, k) if g.r.random() < .5 else "((%s) ^ %d)" % (a.s, k), "i", -m, m)


def conv_i(g, d, t):
    x = g.r.random()
    if x < .3:
        a = g.ex("b", d - 1)
        return N(O("b2i", a), "bool2int(%s)" % a.s, "i", 0, 1)
    if x < .5:
        a = g.ex("S", d - 1)
        return N(O("card", a), "card(%s)" % a.s, "i", 0, 60)
    if x < .7:
        a = g.ex("A" + g.r.choice("ibsS"), d - 1)
        return N(O("len", a), "length(%s)" % a.s, "i", 0, 60)
    if x < .8:
        a = g.ex("s", d - 1)
        return N(O("strlen", a), "string_length(%s)" % a.s, "i", 0, 200)
    a = g.ex("f", d - 1)
    o = g.r.choice(["floor", "ceil", "round"])
    return N(O(o, a), "%s(%s)" % (o, a.s), "i", a.lo // 4 - 1, a.hi // 4 + 1)


def agg_i(g, d, t):
    x = g.r.random()
    if x < .5:
        a = g.ex("Ai", d - 1)
        m = 40 * max(abs(a.lo), abs(a.hi))
        if g.r.random() < .8 or m > 80:
            return N(O("sum", a), "sum(%s)" % a.s, "i", -m, m)
        if a.n is None or a.n > 6 or max(abs(a.lo), abs(a.hi)) > 5:
            return None
        return N(O("prod", a), "product(%s)" % a.s, "i", -BIG // 2, BIG // 2)
    if x < .7:
        a = g.arrlit("Ai", d - 1, g.r.randint(1, 4))
        o = g.r.choice(["min", "max"])
        return N(O("a" + o, a), "%s(%s)" % (o, a.s), "i", a.lo, a.hi)
    if x < .85:
        b = g.r.random() < .3
        a = g.par_(lambda: g.arrlit("Ab" if b else "Ai", d - 1, g.r.randint(1, 4)))
        o = g.r.choice(["min", "max"])
        return N(O("arg" + o + ("b" if b else ""), a), "arg_%s(%s)" % (o, a.s), "i", a.ix, a.ix + a.n - 1)
    if x < .93:
        a, v = g.ex("Ai", d - 1), g.ex("i", d - 1)
        return N(O("count", a, v), "count(%s, %s)" % (a.s, v.s), "i", 0, 60)
    a = g.ex("Ab", d - 1)
    return N(O("countb", a), "count(%s)" % a.s, "i", 0, 60)


def smm_i(g, d, t):
    k = g.ci(g.r.randint(-2, 5))
    a = g.ex("S", d - 1)
    s = N({"k": "o", "o": "union", "a": [a.j, {"k": "set", "a": [k.j]}], "st": ""}, "((%s) union {%s})" % (a.s, k.s), "S", min(a.lo, k.lo), max(a.hi, k.hi))
    o = g.r.choice(["min", "max"])
    if "x" in k.s:
        return None
    return N(O("s" + o, s), "%s(%s)" % (o, s.s), "i", min(s.lo, s.hi), max(s.lo, s.hi))


def acc(g, d, t):
    x = g.r.random()
    if t == "i" and x < .3:
        a = g.arr2(d - 1)
        i, j = g.r.randint(a.d2[0], a.d2[0] + a.d2[1] - 1), g.r.randint(1, a.d2[3])
        return N(O("acc2", a, N(K(i, "i"), "", "i"), N(K(j, "i"), "", "i")), "%s[%d, %d]" % (a.s, i, j), "i", a.lo, a.hi)
    a = g.arrlit("A" + t, d - 1, g.r.randint(1, 4))
    i = g.r.randint(a.ix, a.ix + a.n - 1)
    k = g.ci(i)
    if "x" in k.s and g.mode == "var":
        return None
    return N(O("acc", a, k), "%s[%s]" % (a.s, k.s), t, a.lo, a.hi)


def acc_guard(g, d, t):
    """element of an array known by name, guarded by its index set"""
    v = g.ids("A" + t)
    if not v:
        return None
    a = g.r.choice(v)
    i = g.r.choice([x for x in g.ids("i")] or [g.ci(1)])
    e = g.leaf(t)
    if "x" in i.s or ("x" in e.s and t == "i"):
        return None
    g.uses += 2
    return N({"k": "if", "a": [O("hasix", i, a), O("acc", a, i), e.j]},
             "if %s in index_set(%s) then %s[%s] else %s endif" % (i.s, a.s, a.s, i.s, e.s), t, min(a.lo, e.lo), max(a.hi, e.hi))


def con_b(g, d, t):
    o, s = g.r.choice([("and", "/\\"), ("or", "\\/"), ("imp", "->")])
    a, b = g.ex("b", d - 1), g.ex("b", d - 1)
    if o == "imp" and g.r.random() < .3:
        return N({"k": "imp", "a": [b.j, a.j]}, "((%s) <- (%s))" % (a.s, b.s), "b") if not g.err else None
    return N({"k": o, "a": [a.j, b.j]}, "((%s) %s (%s))" % (a.s, s, b.s), "b")


def eqv_b(g, d, t):
    o, s = g.r.choice([("iff", "<->"), ("xor", "xor"), ("not", "not")])
    a = g.ex("b", d - 1)
    if o == "not":
        return N(O("not", a), "(not (%s))" % a.s, "b")
    b = g.ex("b", d - 1)
    return N(O(o, a, b), "((%s) %s (%s))" % (a.s, s, b.s), "b")


def cmp_b(g, d, t):
    ty = g.r.choice(["i", "i", "i", "f", "s", "S"])
    a, b = g.ex(ty, d - 1), g.ex(ty, d - 1)
    o, s = g.r.choice([("eq", "="), ("ne", "!=")] if ty in "sS" else [("eq", "="), ("ne", "!="), ("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")])
    return N(O(o, a, b), "((%s) %s (%s))" % (a.s, s, b.s), "b")


def set_b(g, d, t):
    if g.r.random() < .5:
        a, b = g.ex("i", d - 1), g.ex("S", d - 1)
        return N(O("in", a, b), "((%s) in (%s))" % (a.s, b.s), "b")
    o = g.r.choice(["subset", "superset"])
    a, b = g.ex("S", d - 1), g.ex("S", d - 1)
    return N(O(o, a, b), "((%s) %s (%s))" % (a.s, o, b.s), "b")


def agg_b(g, d, t):
    o = g.r.choice(["forall", "exists", "forall", "exists", "xorall", "iffall"])
    a = g.ex("Ab", d - 1) if g.r.random() < .3 else g.comp("b", d) if g.r.random() < .7 else g.arrlit("Ab", d - 1)
    if a is None:
        return None
    return N(O(o, a), "%s(%s)" % (o, a.s), "b")


def misc_b(g, d, t):
    x = g.r.random()
    if x < .25:
        a, b = g.ex("Ab", d - 1), g.ex("Ab", d - 1)
        return N(O("clause", a, b), "clause(%s, %s)" % (a.s, b.s), "b")
    if x < .5:
        a, b = g.arrlit("Ai", d - 1), g.arrlit("A" + g.r.choice("ibs"), d - 1)
        if a.n == 0 or b.n == 0:
            return None
        return N(O("ixagree", a, b), "index_sets_agree(%s, %s)" % (a.s, b.s), "b")
    if x < .75:
        i, a = g.ex("i", d - 1), g.arrlit("A" + g.r.choice("ibs"), d - 1)
        return N(O("hasix", i, a), "has_index(%s, %s)" % (i.s, a.s), "b")
    i, a = g.ex("i", d - 1), g.ex("Ai", d - 1)
    return N(O("hasel", i, a), g.r.choice(["has_element(%s, %s)", "((%s) in (%s))"]) % (i.s, a.s), "b")


def cat_s(g, d, t):
    if g.r.random() < .4:
        a, b = g.ex("s", d - 1), g.ex("s", d - 1)
        return N(O("cat", a, b), "((%s) ++ (%s))" % (a.s, b.s), "s")
    a = g.ex("As", d - 1)
    if g.r.random() < .5:
        return N(O("concat", a), "concat(%s)" % a.s, "s")
    b = g.ex("s", d - 1)
    return N(O("join", b, a), "join(%s, %s)" % (b.s, a.s), "s")


def show_s(g, d, t):
    ty = g.r.choice(["i", "b", "s", "f", "S", "Ai", "As", "Ab", "Af", "AS"])
    a = g.ex(ty, d - 1)
    x = g.r.random()
    if x < .25 and "S" not in ty:
        return N(O("json", a, st=ty), "showJSON(%s)" % a.s, "s")
    if x < .4 and ty == "i":
        return N(O("cat", N(K("", "s"), "", "s"), N(O("show", a, st=ty), "", "s")), "\"\\(%s)\"" % a.s, "s") if '"' not in a.s and "\\" not in a.s else None
    return N(O("show", a, st=ty), "show(%s)" % a.s, "s")


def fmt_s(g, d, t):
    x = g.r.random()
    w = g.ci(g.r.choice([0, 1, 2, 3, 5, 8, -1, -2, -5, -8]))
    if x < .2:
        a = g.ex("i", d - 1)
        return N(O("showint", w, a), "show_int(%s, %s)" % (w.s, a.s), "s")
    if x < .4:
        a = g.ex("f", d - 1)
        p = g.r.choice([2, 3, 4])
        return N(O("showfloat", w, N(K(p, "i"), "", "i"), a), g.r.choice(["show_float(%s, %d, %s)", "format(%s, %d, %s)"]) % (w.s, p, a.s), "s")
    if x < .6:
        ty = g.r.choice(["i", "b", "S", "Ai", "As"])
        a = g.ex(ty, d - 1)
        return N(O("format", w, a, st=ty), "format(%s, %s)" % (w.s, a.s), "s")
    if x < .7:
        ty = g.r.choice(["b", "S", "Ai", "As"])
        a = g.ex(ty, d - 1)
        p = g.ci(g.r.choice([0, 1, 2, 3, 5, 9]))
        return N(O("formatp", w, p, a, st=ty), "format(%s, %s, %s)" % (w.s, p.s, a.s), "s")
    a = g.ex("s", d - 1)
    if g.r.random() < .6:
        return N(O("fjust", w, a), "format_justify_string(%s, %s)" % (w.s, a.s), "s")
    p = g.ci(g.r.choice([0, 1, 2, 3, 5, 9]))
    return N(O("fjustp", w, p, a), "format_justify_string(%s, %s, %s)" % (w.s, p.s, a.s), "s")


def misc_s(g, d, t):
    if g.r.random() < .5:
        a = g.arr2(d - 1) if g.r.random() < .5 else g.arrlit("A" + g.r.choice("ibs"), d - 1, g.r.randint(1, 3))
        return N(O("showix", a), "show_index_sets(%s)" % a.s, "s")
    a = g.ex("As", d - 1)
    return N(O("jarr", a), "json_array(%s)" % a.s, "s")


def ops_f(g, d, t):
    x = g.r.random()
    if x < .2:
        a = g.ex("i", d - 1)
        return N(O("i2f", a), "int2float(%s)" % a.s, "f", a.lo * 4, a.hi * 4)
    if x < .7:
        o, s = g.r.choice([("fadd", "+"), ("fsub", "-")])
        a, b = g.ex("f", d - 1), g.ex("f", d - 1)
        c = [u + v if o == "fadd" else u - v for u in iv(a) for v in iv(b)]
        return N(O(o, a, b), "(%s %s %s)" % (a.s, s, b.s), "f", min(c), max(c))
    if x < .8:
        o = g.r.choice(["min", "max"])
        a, b = g.ex("f", d - 1), g.ex("f", d - 1)
        return N(O(o, a, b), "%s(%s, %s)" % (o, a.s, b.s), "f", min(a.lo, b.lo), max(a.hi, b.hi))
    if x < .9:
        a = g.ex("f", d - 1)
        m = max(abs(a.lo), abs(a.hi))
        return N(O("abs", a), "abs(%s)" % a.s, "f", -m, m)
    a = g.ex("Af", d - 1)
    m = 40 * max(abs(a.lo), abs(a.hi))
    return N(O("fsum", a), "sum(%s)" % a.s, "f", -m, m)


def ops_S(g, d, t):
    x = g.r.random()
    if x < .4:
        o, s = g.r.choice([("union", "union"), ("inter", "intersect"), ("diff", "diff"), ("symdiff", "symdiff")])
        a, b = g.ex("S", d - 1), g.ex("S", d - 1)
        return N(O(o, a, b), "((%s) %s (%s))" % (a.s, s, b.s), "S", min(a.lo, b.lo), max(a.hi, b.hi))
    if x < .55:
        a, b = g.par_(lambda: g.ex("i", d - 1)), g.par_(lambda: g.ex("i", d - 1))
        if max(b.hi, a.hi) - min(b.lo, a.lo) > 60:
            return None
        return N(O("range", a, b), "((%s)..(%s))" % (a.s, b.s), "S", min(a.lo, b.lo), max(a.hi, b.hi))
    if x < .65:
        es = [g.par_(lambda: g.ex("i", d - 1)) for _ in range(g.r.randint(1, 3))]
        return N({"k": "set", "a": [e.j for e in es]}, "{%s}" % ", ".join(e.s for e in es), "S", min(e.lo for e in es), max(e.hi for e in es))
    if x < .75:
        return g.par_(lambda: g.comp("i", d, "S"))
    if x < .85:
        if g.r.random() < .4:
            a = g.arr2(d - 1)
            k = g.r.choice([1, 2])
            return N(O("ixset%d" % k, a), "index_set_%dof2(%s)" % (k, a.s), "S", -1, 6)
        a = g.arrlit("A" + g.r.choice("ibsS"), d - 1)
        return N(O("ixset", a), "index_set(%s)" % a.s, "S", -1, 8)
    if x < .92:
        a = g.par_(lambda: g.ex("Ai", d - 1))
        return N(O("a2s", a), "array2set(%s)" % a.s, "S", a.lo, a.hi)
    a = g.par_(lambda: g.arrlit("AS", d - 1, g.r.randint(1, 3)))
    o, s = g.r.choice([("aunion", "array_union"), ("ainter", "array_intersect")])
    return N(O(o, a), "%s(%s)" % (s, a.s), "S", a.lo, a.hi)


def lit_A(g, d, t):
    return g.arrlit(t, d)


def comp_A(g, d, t):
    return g.comp(t[1], d)


def ops_A(g, d, t):
    x = g.r.random()
    if x < .3:
        a, b = g.ex(t, d - 1), g.ex(t, d - 1)
        return N(O("append", a, b), "(%s ++ %s)" % (a.s, b.s), t, min(a.lo, b.lo), max(a.hi, b.hi), a.n + b.n if a.n is not None and b.n is not None else None)
    if x < .45:
        a = g.ex(t, d - 1)
        return N(O("reverse", a), "reverse(%s)" % a.s, t, a.lo, a.hi, a.n, a.ix)
    if x < .6:
        a = g.ex(t, d - 1)
        return N(O("array1d", a), "array1d(%s)" % a.s, t, a.lo, a.hi, a.n)
    if x < .7:
        a = g.arrlit(t, d - 1)
        k = g.r.choice([0, 1, 3, -2])
        if a.n == 0:
            return None
        return N(O("array1ds", N(K(k, "i"), "", "i"), a), "array1d(%d..%d, %s)" % (k, k + a.n - 1, a.s), t, a.lo, a.hi, a.n, k)
    a = g.clean(lambda: g.par_(lambda: g.arrlit(t, d - 1, g.r.randint(1, 4))))
    i = g.r.randint(a.ix, a.ix + a.n - 1)
    j = g.r.randint(i, a.ix + a.n - 1)
    ki, kj = N(K(i, "i"), "", "i"), N(K(j, "i"), "", "i")
    if x < .8:
        return N(O("slice", a, ki, kj), "%s[%d..%d]" % (a.s, i, j), t, a.lo, a.hi, j - i + 1, i)
    if x < .85:
        S = sorted(g.r.sample(range(a.ix, a.ix + a.n), g.r.randint(1, a.n)))
        if t == "AS":
            return None
        return N(O("select", a, N(K(S, "S"), "", "S")), "select_from_index_1(%s, {%s})" % (a.s, ", ".join(map(str, S))), t, a.lo, a.hi, len(S))
    b = g.par_(lambda: g.arrlit("Ai", d - 1, a.n))
    if t == "Ai" or b.ix != a.ix:
        return None
    return N(O("sortby", a, b), "sort_by(%s, %s)" % (a.s, b.s), t, a.lo, a.hi, a.n, a.ix)


def ops_Ai(g, d, t):
    x = g.r.random()
    if t == "Ab" and x < .4:
        a = g.par_(lambda: g.ex("Ab", d - 1))
        return N(O("sortb", a), "sort(%s)" % a.s, t, 0, 0, a.n, a.ix)
    if t == "As" and x < .5:
        a, b = g.ex("s", d - 1), g.r.choice(["", ",", "a", "ab", "X", "é", " "])
        return N(O("split", a, N(K(b, "s"), "", "s")), "string_split(%s, %s)" % (a.s, mstr(b)), t)
    if t == "Af" and x < .5:
        if x < .25:
            a = g.par_(lambda: g.ex("Af", d - 1))
            return N(O("sort", a), "sort(%s)" % a.s, t, a.lo, a.hi, a.n, a.ix)
        a = g.ex("Ai", d - 1)
        return N(O("i2fs", a), "[int2float(q) | q in %s]" % a.s if False else "int2float(%s)" % a.s, t, a.lo * 4, a.hi * 4, a.n, a.ix)
    if t != "Ai":
        return None
    if x < .25:
        a = g.par_(lambda: g.ex("Ai", d - 1))
        return N(O("sort", a), "sort(%s)" % a.s, t, a.lo, a.hi, a.n, a.ix)
    if x < .4:
        a = g.par_(lambda: g.arrlit("Ai", d - 1))
        return N(O("argsort", a), "arg_sort(%s)" % a.s, t, a.ix, a.ix + 6, a.n)
    if x < .55:
        a = g.ex("S", d - 1)
        return N(O("set2array", a), g.r.choice(["set2array(%s)", "[q | q in %s]"]) % a.s, t, a.lo, a.hi)
    if x < .62:
        a = g.ex("S", d - 1)
        return N(O("ranges", a), "set_to_ranges(%s)" % a.s, t, a.lo, a.hi)
    if x < .7:
        a = g.ex("Ab", d - 1)
        return N(O("b2is", a), "bool2int(%s)" % a.s, t, 0, 1, a.n, a.ix)
    a = g.clean(lambda: g.arr2(d - 1))
    l1, p, l2, q = a.d2
    if x < .84:
        i = g.r.randint(l1, l1 + p - 1)
        return N(O("row", a, N(K(i, "i"), "", "i")), g.r.choice(["row(%s, %d)", "%s[%d, ..]"]) % (a.s, i), t, a.lo, a.hi, q, 1)
    if x < .9:
        i = g.r.randint(1, q)
        return N(O("col", a, N(K(i, "i"), "", "i")), g.r.choice(["col(%s, %d)", "%s[.., %d]"]) % (a.s, i), t, a.lo, a.hi, p, l1)
    b = g.arr2(d - 1)
    if b.d2[1:] != a.d2[1:] or b.d2[0] != a.d2[0]:
        return None
    if x < .97:
        return N(O("array1d", N(O("cat1", a, b), "", "Ai")), "array1d(%s ++ %s)" % (a.s, b.s), t, min(a.lo, b.lo), max(a.hi, b.hi), a.n + b.n)
    return N(O("array1d", N(O("cat2", a, b), "", "Ai")), "array1d(concat_index_2(%s, %s))" % (a.s, b.s), t, min(a.lo, b.lo), max(a.hi, b.hi), a.n + b.n)


TABLE = {
    "i": [bin_i, bin_i, divmod_i, un_i, mm_i, pow_i, conv_i, conv_i, agg_i, agg_i, agg_i, smm_i, acc, acc, acc_guard],
    "b": [con_b, con_b, eqv_b, cmp_b, cmp_b, set_b, agg_b, agg_b, misc_b, acc],
    "s": [cat_s, cat_s, show_s, show_s, fmt_s, fmt_s, misc_s, acc],
    "f": [ops_f, ops_f, ops_f, acc],
    "S": [ops_S, ops_S, ops_S, ops_S, acc],
    "A": [lit_A, comp_A, ops_A, ops_A, ops_Ai, ops_Ai],
}


# --------------------------------------------------------------------------- running
def make(r, pid):
    if pid == "S16":
        mode = r.choice(["par", "par", "var", "out"])
        g = G(r, mode, .2)
        t = "i" if mode == "var" else r.choice(["i", "i", "b", "s", "Ai"])
        for _ in range(20):
            e = g.ex(t, r.choice([2, 3, 3, 4]))
            if "MSG" in e.s and len(e.s) < 1500:
                break
        es = [e]
    else:
        mode = r.choice(["par", "par", "out"])
        g = G(r, mode, 0)
        es = []
        for _ in range(14):
            e = g.ex(r.choice(["i", "b", "s", "s", "s", "f", "S", "Ai", "Ai", "As", "Ab", "Af", "AS"]), r.choice([1, 2, 2, 3]))
            if len(e.s) < 900:
                es.append(e)
    return {"mode": mode, "decls": g.decls, "post": g.post, "funs": g.funs, "es": [{"j": e.j, "s": e.s, "t": e.ty} for e in es]}


def text(c):
    body = " ".join(e["s"] for e in c["es"])
    fs = []
    for f in reversed(c["funs"]):
        n = re.search(r": (f\d+)\(", f).group(1)
        if re.search(r"\b%s\(" % n, body + " ".join(fs)):
            fs.append(f)
    xs = [x for x in c["decls"] + c["post"] if re.search(r"\b%s\b" % re.search(r"\bx\d+", x).group(0), body)]
    L = ['include "%s.mzn";' % x for x in ("count",) if x + "(" in body + " ".join(fs)] + fs + xs
    for k, e in enumerate(c["es"]):
        if c["mode"] == "par":
            L.append("%s: r%d :: add_to_output = %s;" % (mtype(e["t"]), k, e["s"]))
        elif c["mode"] == "var":
            L.append("var int: r%d :: add_to_output = %s;" % (k, e["s"]))
    L.append("solve satisfy;")
    if c["mode"] == "out":
        L.append("output [" + ", ".join("showJSON(%s) ++ \"\\n\"" % e["s"] for e in c["es"]) + "];")
    return "\n".join(L) + "\n"


def conv(v, t):
    """JSON output value to the specification's form, or None"""
    if t[0] == "A" and len(t) == 2:
        if not isinstance(v, list):
            return None
        x = [conv(y, t[1]) for y in v]
        return None if any(y is None for y in x) else x
    if t == "i":
        return v if isinstance(v, int) and not isinstance(v, bool) else None
    if t == "b":
        return v if isinstance(v, bool) else None
    if t == "s":
        return v if isinstance(v, str) else None
    if t == "f":
        return int(v * 4) if isinstance(v, (int, float)) and not isinstance(v, bool) and v * 4 == int(v * 4) else None
    if t == "S":
        if not isinstance(v, dict) or list(v) != ["set"]:
            return None
        out = []
        for y in v["set"]:
            out += list(range(y[0], y[1] + 1)) if isinstance(y, list) else [y]
        return out if len(set(out)) == len(out) else None


def observe(c, timeout=30):
    """-> list of observations (or a string: the run went wrong)"""
    flags = [] if c["mode"] == "out" else ["--output-mode", "json"]
    r = vf.mzn(["--solver", "gecode"] + flags + ["m.mzn"], {"m.mzn": text(c)}, timeout=timeout)
    if r.timeout:
        return "timeout"
    m = re.findall(r"(MSG\d+)!", r.err + r.out)
    if r.rc != 0 or "rror" in r.err:
        if m and r.rc == 1:
            return [{"ok": False, "m": m[0]}]
        return "exit %d: %s" % (r.rc, r.err[-400:])
    if m:
        return "an error message but success: " + r.err[-300:]
    if "----------" not in r.out:
        return "no solution: " + (r.out + r.err)[-300:]
    body = r.out.split("----------")[0]
    try:
        if c["mode"] == "out":
            vals = [json.loads(x) for x in body.split("\n")[:-1]]
        else:
            d = json.loads(body)
            vals = [d["r%d" % k] for k in range(len(c["es"]))]
    except (ValueError, KeyError):
        return "unreadable output: " + body[:300]
    if len(vals) != len(c["es"]):
        return "unreadable output: " + body[:300]
    return [{"ok": True, "v": conv(v, e["t"])} for v, e in zip(vals, c["es"])]


def judge(ck, items):
    p = os.path.join(vf.scratch(), "cases.json")
    json.dump([{"e": j, "t": t, "obs": o} for j, t, o in items], open(p, "w"))
    t = vf.tlc("MznParCheck", "MznParCheck.cfg", env={"CASES": p}, timeout=900)
    acc = {int(m[1]) - 1 for m in t.marks if m[0] == "ACC"}
    rej = {int(m[1]) - 1: "another result" for m in t.marks if m[0] == "REJ"}
    for k in rej:
        m = re.search(r'<<\s*"case",\s*%d,\s*(.*?)>>\n' % (k + 1), t.out, re.S)
        if m:
            rej[k] = m.group(1)
    if len(acc) + len(rej) != len(items) or not t.ok:
        shutil.copy(p, os.path.join(vf.BUILD, "tlc-fail-cases.json"))
        open(os.path.join(vf.BUILD, "tlc-fail.txt"), "w").write(t.out)
        raise vf.ToolError("TLC judged %d of %d: %s" % (len(acc) + len(rej), len(items), t.out[-2500:]))
    ck.tlcstat(t)
    return rej


def run(ck):
    r = ck.rng
    ops = set()
    for batch in range(ck.n(1, 12)):
        cases = [make(r, ck.pid) for _ in range(ck.n(600 if ck.pid == "S16" else 160, 1500))]
        if ck.replay:
            cases = [ck.replay["replay"]]
        obs = vf.pmap(observe, cases)
        items, where = [], []
        for i, (c, o) in enumerate(zip(cases, obs)):
            if isinstance(o, str) or (len(o) == 1 and not o[0]["ok"] and len(c["es"]) > 1):
                # something failed: one expression at a time
                for e in c["es"]:
                    c1 = dict(c, es=[e])
                    o1 = observe(c1, 60)
                    if isinstance(o1, str):
                        ck.violation("%s in\n%s" % (o1, text(c1)), c1)
                        if len(ck.viol) > 40:
                            return
                    else:
                        items.append((e["j"], e["t"], o1[0]))
                        where.append(c1)
            else:
                for e, q in zip(c["es"], o):
                    items.append((e["j"], e["t"], q))
                    where.append(dict(c, es=[e]))
        rej = {}
        good = []
        for k, (j, t, o) in enumerate(items):
            if o["ok"] and o["v"] is None:
                ck.violation("a value of the wrong kind is printed for\n%s" % text(where[k]), where[k])
            else:
                good.append(k)
        rej = judge(ck, [items[k] for k in good])
        ck.traces += len(good) - len(rej)
        for q in sorted(rej):
            k = good[q]
            ck.violation("the specification gives %s, observed %s\n%s" % (rej[q], json.dumps(items[k][2]), text(where[k])), where[k])
        for j, t, o in items:
            for m in re.findall(r'"o": "(\w+)"|"k": "(\w+)"', json.dumps(j)):
                ops.add(m[0] or m[1])
        ck.cov["expressions"] = ck.cov.get("expressions", 0) + len(items)
        ck.cov["errors reached"] = ck.cov.get("errors reached", 0) + sum(1 for x in items if not x[2]["ok"])
        if items:
            ck.sample({"model": text(where[0]), "observed": items[0][2]})
    ck.cov["operations"] = len(ops)
    ck.cov["operation names"] = " ".join(sorted(ops))
    ck.assumptions.append("values stay below 30000; strings are short; only Gecode is used to print the results")
