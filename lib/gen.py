"""Random well-typed MiniZinc programs: each node carries its JSON tree (for the TLA+ spec) and its
MiniZinc text.  Magnitudes are bounded so that the 32-bit integers of TLC are never exceeded."""
import random

LIM = 20000


class N:
    __slots__ = ("j", "s", "ty", "lo", "hi", "par", "n")

    def __init__(self, j, s, ty, lo=0, hi=0, par=False, n=None):
        self.j, self.s, self.ty, self.lo, self.hi, self.par, self.n = j, s, ty, lo, hi, par, n


def ic(v):
    return N({"k": "c", "v": v}, str(v) if v >= 0 else "(%d)" % v, "i", v, v, True)


def bc(v):
    return N({"k": "c", "v": v}, "true" if v else "false", "b", par=True)


def op(o, t, *a):
    return {"k": "o", "o": o, "t": t, "a": [x.j for x in a]}


class Ctx:
    def __init__(self, rng, feats, scope=None):
        self.r = rng
        self.f = feats            # dict feature -> weight
        self.scope = scope or []  # list of N for identifiers
        self.cnt = [0]
        self.funs = {}            # name -> (N-less) definition for calls
        self.funsig = []          # (name, argtypes, rettype, lo, hi)

    def child(self, extra):
        c = Ctx(self.r, self.f, self.scope + extra)
        c.cnt, c.funs, c.funsig = self.cnt, self.funs, self.funsig
        return c

    def w(self, k):
        return self.f.get(k, 0)

    def fresh(self, p="t"):
        self.cnt[0] += 1
        return "%s%d" % (p, self.cnt[0])

    def pick(self, table):
        tot = sum(w for w, _ in table)
        x = self.r.random() * tot
        for w, f in table:
            x -= w
            if x <= 0 and w > 0:
                return f
        return table[0][1]

    def ids(self, ty, par=None):
        return [n for n in self.scope if n.ty == ty and (par is None or n.par == par)]


def ok(n):
    return n.lo >= -LIM and n.hi <= LIM


# ------------------------------------------------------------------ int
def default_j(a, b, opt=True):
    return {"k": "default", "t": "i", "opt": opt, "a": [a.j, b.j]}


def g_int(c, d, par=False):
    for _ in range(6):
        n = _g_int(c, d, par)
        if ok(n):
            return n
    return leaf_int(c, par)


def leaf_int(c, par=False):
    v = c.ids("i", True if par else None)
    if v and c.r.random() < 0.75:
        # prefer decision variables
        vv = [x for x in v if not x.par]
        return c.r.choice(vv if vv and not par and c.r.random() < 0.8 else v)
    return ic(c.r.randint(-2, 4))


def _bin(c, o, txt, a, b, lo, hi, ty="i"):
    return N(op(o, ty, a, b), "(%s %s %s)" % (a.s, txt, b.s), ty, lo, hi, a.par and b.par)


def _g_int(c, d, par):
    if d <= 0:
        return leaf_int(c, par)
    r = c.r

    def add():
        a, b = g_int(c, d - 1, par), g_int(c, d - 1, par)
        return _bin(c, "+", "+", a, b, a.lo + b.lo, a.hi + b.hi)

    def sub():
        a, b = g_int(c, d - 1, par), g_int(c, d - 1, par)
        return _bin(c, "-", "-", a, b, a.lo - b.hi, a.hi - b.lo)

    def mul():
        a, b = g_int(c, d - 1, par), g_int(c, d - 1, par)
        p = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
        return _bin(c, "*", "*", a, b, min(p), max(p))

    def lin():
        k = ic(r.choice([-3, -2, -1, 2, 3, 5]))
        a = g_int(c, d - 1, par)
        p = [k.lo * a.lo, k.lo * a.hi]
        return _bin(c, "*", "*", k, a, min(p), max(p))

    def neg():
        a = g_int(c, d - 1, par)
        return N(op("neg", "i", a), "(-%s)" % a.s, "i", -a.hi, -a.lo, a.par)

    def nz(n):
        return n.lo > 0 or n.hi < 0

    def divmod_(o):
        a = g_int(c, d - 1, par)
        if c.w("partial") and r.random() < 0.8:
            b = g_int(c, d - 1, par)
        else:
            nz = [x for x in c.ids("i", True if par else None) if x.lo > 0 or x.hi < 0]
            b = r.choice(nz) if nz and r.random() < .4 else ic(r.choice([-3, -2, -1, 1, 2, 3, 4]))
        m = max(abs(a.lo), abs(a.hi))
        if o == "div":
            return _bin(c, "div", "div", a, b, -m, m)
        k = max(abs(b.lo), abs(b.hi))
        return _bin(c, "mod", "mod", a, b, -k, k)

    def pw():
        a = g_int(c, d - 1, par)
        if max(abs(a.lo), abs(a.hi)) > 12:
            a = leaf_int(c, par)
        if c.w("partial") and r.random() < 0.5:
            b = leaf_int(c, par or not c.w("varpow"))
            if b.hi > 4 or b.lo < -3:
                b = ic(r.randint(-2, 3))
        else:
            b = ic(r.randint(0, 3))
        m = max(abs(a.lo), abs(a.hi), 1) ** max(b.hi, 1)
        s = "pow(%s, %s)" % (a.s, b.s) if r.random() < 0.5 else "(%s ^ %s)" % (a.s, b.s)
        return N(op("pow", "i", a, b), s, "i", -m, m, a.par and b.par)

    def abs_():
        a = g_int(c, d - 1, par)
        return N(op("abs", "i", a), "abs(%s)" % a.s, "i", 0, max(abs(a.lo), abs(a.hi)), a.par)

    def mm():
        o = r.choice(["min", "max"])
        a, b = g_int(c, d - 1, par), g_int(c, d - 1, par)
        f = min if o == "min" else max
        return N(op(o + "2", "i", a, b), "%s(%s, %s)" % (o, a.s, b.s), "i", f(a.lo, b.lo), f(a.hi, b.hi), a.par and b.par)

    def b2i():
        a = g_bool(c, d - 1, par)
        s = "bool2int(%s)" % a.s if r.random() < 0.6 else "(%s + 0)" % a.s
        if s.startswith("("):
            z = ic(0)
            x = N(op("bool2int", "i", a), "", "i", 0, 1, a.par)
            return N(op("+", "i", x, z), s, "i", 0, 1, a.par)
        return N(op("bool2int", "i", a), s, "i", 0, 1, a.par)

    def ite():
        k = r.choice([1, 1, 1, 2, 2, 3, 4])
        dd = d - 1 if k < 3 else 0
        conds = [g_bool(c, dd, par) for _ in range(k)]
        es = [ic(r.randint(-3, 12)) if k > 1 and r.random() < .4 else g_int(c, dd, par) for _ in range(k + 1)]
        return ite_node(conds, es, "i")

    def agg():
        o = r.choice(["sum", "sum", "product", "min", "max"])
        a = g_arr(c, d - 1, "i", par, nonempty=(o in ("min", "max") and not c.w("partial")))
        n = a.n
        if a.s == "[]" and o in ("min", "max"):
            a.s = "[0 | e0 in 1..0]"         # a bare [] has no element type to select the overload
        m = max(abs(a.lo), abs(a.hi))
        if o == "sum":
            lo, hi = -m * n, m * n
        elif o == "product":
            if m ** max(n, 1) > LIM:
                o, lo, hi = "sum", -m * n, m * n
            else:
                lo, hi = -max(m, 1) ** max(n, 1), max(m, 1) ** max(n, 1)
        else:
            lo, hi = a.lo, a.hi
        return N(op(o, "i", a), "%s(%s)" % (o, a.s), "i", lo, hi, a.par)

    def acc():
        return access(c, d, "i", par)

    def let():
        return let_node(c, d, par, lambda cc: g_int(cc, d - 1, par), "i")

    def card():
        a = g_set(c, d - 1, par)
        return N(op("card", "i", a), "card(%s)" % a.s, "i", 0, max(a.hi - a.lo + 1, 0), a.par)

    def smm():
        o = r.choice(["min", "max"])
        a = g_set(c, d - 1, True)   # var set min/max are partial; par sets only
        if not a.par:
            return leaf_int(c, par)
        return N(op("s" + o, "i", a), "%s(%s)" % (o, a.s), "i", a.lo, a.hi, a.par)

    def length():
        a = g_arr(c, 0 if c.w("partial") else d - 1, r.choice("ib"), par)   # (cf. K2: undefined elements)
        return N(op("length", "i", a), "length(%s)" % a.s, "i", 0, 12, True)

    def call():
        return call_node(c, d, "i", par) or leaf_int(c, par)

    def dopt():
        a = g_opt(c, d - 1, par)
        b = g_int(c, d - 1, par)
        if c.w("partial") and r.random() < 0.5 and a.s != "<>":
            if a.par:
                return N(op("deopt", "i", a), "deopt(%s)" % a.s, "i", a.lo, a.hi, a.par)
            # the library only specifies deopt of a variable that occurs
            return N(default_j(a, b), "(if occurs(%s) then deopt(%s) else %s endif)" % (a.s, a.s, b.s), "i", min(a.lo, b.lo), max(a.hi, b.hi), False)
        if c.w("partial") and r.random() < 0.4:
            a = g_int(c, d - 1, par)
            return N(default_j(a, b, False), "(%s default %s)" % (a.s, b.s), "i", min(a.lo, b.lo), max(a.hi, b.hi), a.par and b.par)
        return N(default_j(a, b), "(%s default %s)" % (a.s, b.s), "i", min(a.lo, b.lo), max(a.hi, b.hi), a.par and b.par)

    def osum():
        k = r.randint(1, 3)
        es = [g_opt(c, d - 1, par) for _ in range(k)]
        o = r.choice(["osum", "osum", "oproduct"])
        m = max(max(abs(e.lo), abs(e.hi)) for e in es)
        if o == "oproduct" and m ** k > LIM:
            o = "osum"
        j = {"k": "o", "o": o, "t": "i", "a": [{"k": "arr", "a": [e.j for e in es]}]}
        b = m * k if o == "osum" else max(m, 1) ** k
        return N(j, "%s([%s])" % (o[1:], ", ".join(e.s for e in es)), "i", -b, b, all(e.par for e in es))

    def tupacc():
        k = r.randint(2, 3)
        es = [g_int(c, d - 1, par) if r.random() < .6 else g_bool(c, d - 1, par) for _ in range(k)]
        i = r.randrange(k)
        es[i] = g_int(c, d - 1, par)
        j = {"k": "fld", "t": "i", "i": i + 1, "r": {"k": "tup", "a": [e.j for e in es]}}
        if r.random() < .5:
            nm = [c.fresh("f") for _ in es]
            s = "(%s).%s" % ("(" + ", ".join("%s: %s" % (a, e.s) for a, e in zip(nm, es)) + ")", nm[i])
        else:
            s = "((%s)).%d" % (", ".join(e.s for e in es), i + 1)
        return N(j, s, "i", es[i].lo, es[i].hi, all(e.par for e in es))

    def sumset():
        a = g_set(c, d - 1, True)
        if not a.par:
            return leaf_int(c, par)
        return None

    return c.pick([(3, add), (3, sub), (1.5, mul), (2, lin), (1, neg),
                   (1.5, lambda: divmod_("div")), (1.5, lambda: divmod_("mod")), (c.w("pow"), pw),
                   (1, abs_), (1.5, mm), (1.5, b2i), (c.w("ite"), ite), (c.w("arr"), agg),
                   (c.w("acc"), acc), (c.w("let"), let), (c.w("set"), card), (0 if c.w("nosmm") else c.w("set") * 0.5, smm),
                   (c.w("arr") * 0.2, length), (c.w("call"), call), (c.w("opt"), dopt), (c.w("opt") * .6, osum),
                   (c.w("tup"), tupacc),
                   (2, lambda: leaf_int(c, par))])()


PARTIAL_OPS = {"div", "mod", "pow", "smin", "smax", "min", "max", "deopt", "array_intersect"}


def maybe_undef(j):
    if isinstance(j, list):
        return any(maybe_undef(x) for x in j)
    if not isinstance(j, dict):
        return False
    if j.get("k") in ("acc", "let", "call") or (j.get("k") == "o" and j["o"] in PARTIAL_OPS):
        return True
    return any(maybe_undef(x) for x in j.values())


def lazy_risk(j):
    """known finding K3: evaluation of a fixed access into a literal with undefined other elements is lazy"""
    if isinstance(j, list):
        return any(lazy_risk(x) for x in j)
    if not isinstance(j, dict):
        return False
    if j.get("k") in ("acc", "fld") and maybe_undef(j["r"]):
        return True
    if j.get("k") == "call" and any(isinstance(x, dict) and x.get("k") in ("arr", "comp", "if", "o") and x.get("t", "a")[0] == "a" and maybe_undef(x) for x in j["a"]):
        return True
    return any(lazy_risk(x) for x in j.values())


def ite_node(conds, es, t):
    a, s = [], ""
    for i, (cd, e) in enumerate(zip(conds, es)):
        a += [cd.j, e.j]
        s += "%s %s then %s " % ("if" if i == 0 else "elseif", cd.s, e.s)
    a.append(es[-1].j)
    s += "else %s endif" % es[-1].s
    return N({"k": "if", "t": t, "a": a}, "(" + s + ")", t, min(e.lo for e in es), max(e.hi for e in es),
             all(x.par for x in conds + es))


def access(c, d, t, par):
    r = c.r
    a = g_arr(c, d - 1, t, par, nonempty=True)
    if par and maybe_undef(a.j):
        a = arr_lit(c, 0, t, par, 2)
    n = a.n
    if c.w("partial") and r.random() < 0.7:
        i = g_int(c, d - 1, par)
    else:
        # total: a variable or constant known to be in range, else clamp
        cand = [x for x in c.ids("i", True if par else None) if x.lo >= 1 and x.hi <= n]
        if cand and r.random() < 0.7:
            i = r.choice(cand)
        elif r.random() < .5:
            x = g_int(c, d - 1, par)
            i = N(op("max2", "i", ic(1), N(op("min2", "i", ic(n), x), "", "i")), "max(1, min(%d, %s))" % (n, x.s), "i", 1, n, x.par)
        else:
            i = ic(r.randint(1, n))
    j = {"k": "acc", "t": t, "r": a.j, "a": [i.j]}
    base = a.s if a.s[0] == "[" or a.s.isidentifier() else "(%s)" % a.s
    return N(j, "%s[%s]" % (base, i.s), t, a.lo, a.hi, a.par and i.par)


def let_node(c, d, par, body, t):
    r = c.r
    if r.random() < 0.2 and t != "b" and not c.w("partial"):
        return body(c)
    if c.w("partial") and r.random() < 0.25:
        cn = g_bool(c, d - 1, par)
        b = body(c)
        if b.par and not cn.par and t != "b":      # known finding K2: the constraint would be lost
            return b
        return N({"k": "let", "t": t, "n": "", "e": cn.j, "b": b.j}, "(let { constraint %s; } in %s)" % (cn.s, b.s), t,
                 b.lo, b.hi, b.par and cn.par, b.n)
    if r.random() < 0.7:
        e = g_int(c, d - 1, par)
        nm = c.fresh("t")
        if r.random() < .25 and c.scope and not c.w("noshadow"):   # shadowing
            sh = [x.s for x in c.scope if x.s.isidentifier()]
            if sh:
                nm = r.choice(sh)
        dom = None
        tt = "int"
        if c.w("partial") and not e.par and r.random() < 0.6:
            lo = r.randint(-2, 2)
            hi = lo + r.randint(0, 3)
            dom = list(range(lo, hi + 1))
            tt = "%d..%d" % (lo, hi)
        x = N({"k": "v", "n": nm}, nm, "i", e.lo, e.hi, e.par)
        if dom:
            x.lo, x.hi = max(x.lo, dom[0]), min(x.hi, dom[-1])
            if x.lo > x.hi:
                x.lo, x.hi = dom[0], dom[-1]
        decl = "%s%s: %s = %s" % ("" if e.par else "var ", tt, nm, e.s)
    else:
        e = g_bool(c, d - 1, par)
        nm = c.fresh("t")
        x = N({"k": "v", "n": nm}, nm, "b", par=e.par)
        dom = None
        decl = "%sbool: %s = %s" % ("" if e.par else "var ", nm, e.s)
    cc = c.child([x])
    cc.scope = [y for y in c.scope if y.s != nm] + [x]
    b = body(cc)
    if dom and b.par and t != "b":                 # known finding K2
        return leaf_int(c, par)
    # the initialiser is in the scope of the new name, so a self reference is not the outer one
    import re
    if re.search(r"\b%s\b" % re.escape(nm), e.s):
        return b if not re.search(r"\b%s\b" % re.escape(nm), b.s) else body(c)
    j = {"k": "let", "t": t, "n": nm, "e": e.j, "b": b.j}
    if dom:
        j["d"] = dom
    return N(j, "(let { %s; } in %s)" % (decl, b.s), t, b.lo, b.hi, b.par and e.par, b.n)


def call_node(c, d, t, par):
    """sig: dict(n=spec name, mz=MiniZinc name, a=[(type, lo, hi, par, length)], t=result, lo, hi, dflt=[N..], pre, post, fld)"""
    sig = [f for f in c.funsig if f["t"] == t]
    if not sig or par:
        return None
    f = c.r.choice(sig)
    args = []
    for ty, lo, hi, pp, ln in f["a"]:
        q = par or pp
        if ty[0] == "a":
            a = arr_lit(c, d - 1 if not pp else 0, ty[1], q, ln)
            if ty == "ai" and (a.lo < lo or a.hi > hi):
                a = arr_lit(c, 0, ty[1], q, ln)
                if a.lo < lo or a.hi > hi:
                    return None
        elif ty == "i":
            a = g_int(c, 0 if q else d - 1, q)
            if a.lo < lo or a.hi > hi:
                a = leaf_int(c, q)
                if a.lo < lo or a.hi > hi:
                    a = ic(c.r.randint(max(lo, -2), min(3, hi)))
        else:
            a = g_bool(c, 0 if q else d - 1, q)
        args.append(a)
    shown = list(args)
    if f.get("dflt") and c.r.random() < .5:        # omitted trailing argument
        args[-1] = f["dflt"]
        shown = shown[:-1]
    j = {"k": "call", "t": t, "f": f["n"], "a": [a.j for a in args]}
    txt = "%s(%s)" % (f["mz"], ", ".join(a.s for a in shown))
    if f.get("fld"):
        j = {"k": "fld", "t": t, "i": f["fld"], "r": dict(j, t="t")}
        txt = "(%s).%d" % (txt, f["fld"])
    return N(j, txt, t, f["lo"], f["hi"], False)


# ------------------------------------------------------------------ bool
def leaf_bool(c, par=False):
    v = c.ids("b", True if par else None)
    if v and c.r.random() < 0.85:
        vv = [x for x in v if not x.par]
        return c.r.choice(vv if vv and not par and c.r.random() < .85 else v)
    a, b = leaf_int(c, par), ic(c.r.randint(-1, 3))
    o = c.r.choice(["=", "!=", "<", "<=", ">", ">="])
    return N(op(o, "b", a, b), "(%s %s %s)" % (a.s, o, b.s), "b", par=a.par)


def g_bool(c, d, par=False):
    r = c.r
    if d <= 0:
        return leaf_bool(c, par)

    def cmp_():
        a, b = g_int(c, d - 1, par), g_int(c, d - 1, par)
        o = r.choice(["=", "!=", "<", "<=", ">", ">="])
        t = {"=": r.choice(["=", "=="])}.get(o, o)
        return N(op(o, "b", a, b), "(%s %s %s)" % (a.s, t, b.s), "b", par=a.par and b.par)

    def bcmp():
        a, b = g_bool(c, d - 1, par), g_bool(c, d - 1, par)
        o, t = r.choice([("=", "="), ("!=", "!="), ("b<", "<"), ("b<=", "<="), ("b>", ">"), ("b>=", ">=")])
        return N(op(o, "b", a, b), "(%s %s %s)" % (a.s, t, b.s), "b", par=a.par and b.par)

    def conn():
        o, t = r.choice([("and", "/\\"), ("and", "/\\"), ("or", "\\/"), ("or", "\\/"), ("->", "->"), ("<-", "<-"), ("<->", "<->"), ("xor", "xor")])
        a, b = g_bool(c, d - 1, par), g_bool(c, d - 1, par)
        return N(op(o, "b", a, b), "(%s %s %s)" % (a.s, t, b.s), "b", par=a.par and b.par)

    def not_():
        a = g_bool(c, d - 1, par)
        return N(op("not", "b", a), "(not %s)" % a.s, "b", par=a.par)

    def ite():
        k = 1 if r.random() < .7 else 2
        return ite_node([g_bool(c, d - 1, par) for _ in range(k)], [g_bool(c, d - 1, par) for _ in range(k + 1)], "b")

    def quant():
        o = r.choice(["forall", "exists"] + (["xorall", "iffall"] if c.w("xorall") else []))
        a = g_arr(c, d - 1, "b", par)
        return N(op(o, "b", a), "%s(%s)" % (o, a.s), "b", par=a.par)

    def clause():
        p = [g_bool(c, d - 1, par) for _ in range(r.randint(0, 2))]
        q = [g_bool(c, d - 1, par) for _ in range(r.randint(0 if p else 1, 2))]
        if not p and not q:
            return leaf_bool(c, par)
        j = {"k": "o", "o": "clause", "t": "b", "a": [{"k": "arr", "a": [x.j for x in p]}, {"k": "arr", "a": [x.j for x in q]}]}
        return N(j, "clause([%s], [%s])" % (", ".join(x.s for x in p), ", ".join(x.s for x in q)), "b", par=all(x.par for x in p + q))

    def member():
        a, s = g_int(c, d - 1, par), g_set(c, d - 1, par)
        return N(op("in", "b", a, s), "(%s in %s)" % (a.s, s.s), "b", par=a.par and s.par)

    def scmp():
        a, b = g_set(c, d - 1, par), g_set(c, d - 1, par)
        ch = [("subset", "subset"), ("superset", "superset"), ("=", "="), ("!=", "!=")]
        if c.w("setord"):
            ch += [("s<", "<"), ("s<=", "<="), ("s>", ">"), ("s>=", ">=")]
        o, t = r.choice(ch)
        return N(op(o, "b", a, b), "(%s %s %s)" % (a.s, t, b.s), "b", par=a.par and b.par)

    def acc():
        return access(c, d, "b", par)

    def let():
        return let_node(c, d, par, lambda cc: g_bool(cc, d - 1, par), "b")

    def acmp():
        n = r.randint(1, 3)
        a, b = arr_lit(c, d - 1, "i", par, n), arr_lit(c, d - 1, "i", par, n)
        o, t = r.choice([("aeq", "="), ("alt", "<"), ("ale", "<=")])
        return N(op(o, "b", a, b), "(%s %s %s)" % (a.s, t, b.s), "b", par=a.par and b.par)

    def call():
        return call_node(c, d, "b", par) or leaf_bool(c, par)

    def ocmp():
        a, b = g_opt(c, d - 1, par), g_opt(c, d - 1, par)
        o, t = r.choice([("oeq", "="), ("one", "!="), ("olt", "<"), ("ole", "<="), ("ogt", ">"), ("oge", ">="), ("~=", "~=")][:6 if par else 7])
        return N(op(o, "b", a, b), "(%s %s %s)" % (a.s, t, b.s), "b", par=a.par and b.par and o != "~=")

    def occ():
        a = g_opt(c, 0, par)      # (a compound argument may be undefined, cf. K2)
        o, t = r.choice([("occurs", "occurs"), ("absent", "absent")])
        return N(op(o, "b", a), "%s(%s)" % (t, a.s), "b", par=a.par)

    def teq():
        k = r.randint(2, 3)
        tys = [r.choice("ib") for _ in range(k)]
        A = [g_int(c, d - 1, par) if t == "i" else g_bool(c, d - 1, par) for t in tys]
        B = [g_int(c, d - 1, par) if t == "i" else g_bool(c, d - 1, par) for t in tys]
        o, t = r.choice([("=", "="), ("!=", "!=")])
        j = {"k": "o", "o": o, "t": "b", "a": [{"k": "tup", "a": [e.j for e in A]}, {"k": "tup", "a": [e.j for e in B]}]}
        return N(j, "((%s) %s (%s))" % (", ".join(e.s for e in A), t, ", ".join(e.s for e in B)), "b", par=all(e.par for e in A + B))

    return c.pick([(4, cmp_), (1, bcmp), (4, conn), (1.5, not_), (c.w("ite") * .6, ite), (c.w("arr") * .8, quant),
                   (c.w("arr") * .3, clause), (c.w("set"), member), (c.w("set"), scmp), (c.w("acc") * .5, acc),
                   (c.w("let") * .7, let), (c.w("arrcmp"), acmp), (c.w("call"), call), (c.w("opt") * 1.5, ocmp),
                   (c.w("opt") * .7, occ), (c.w("tup") * .6, teq),
                   (1.5, lambda: leaf_bool(c, par))])()


# ------------------------------------------------------------------ arrays
def arr_lit(c, d, t, par, n):
    es = [g_int(c, d, par) if t == "i" else g_bool(c, d, par) for _ in range(n)]
    return N({"k": "arr", "a": [e.j for e in es]}, "[%s]" % ", ".join(e.s for e in es), "a" + t,
             min([e.lo for e in es] or [0]), max([e.hi for e in es] or [0]), all(e.par for e in es), n)


def g_arr(c, d, t, par=False, nonempty=False):
    r = c.r
    ids = [x for x in c.ids("a" + t, True if par else None) if x.n]
    if d <= 0 or r.random() < .35:
        if ids and r.random() < .6:
            return r.choice(ids)
        return arr_lit(c, min(d, 1), t, par, r.randint(1 if nonempty or r.random() < .9 else 0, 3))
    x = r.random()
    if x < c.w("comp"):
        return comp(c, d, t, par, nonempty)
    if x < c.w("comp") + .1:
        a, b = g_arr(c, d - 1, t, par, nonempty), g_arr(c, d - 1, t, par)
        if a.n + b.n <= 6:
            return N(op("++", "a", a, b), "(%s ++ %s)" % (a.s, b.s), "a" + t, min(a.lo, b.lo), max(a.hi, b.hi), a.par and b.par, a.n + b.n)
    if x < c.w("comp") + .16:
        k = r.randint(1, 2)
        A = [g_arr(c, d - 1, t, par, nonempty) for _ in range(k + 1)]
        n = A[0].n
        # all branches must have the same length
        B = [arr_lit(c, d - 1, t, par, n) for _ in range(k)]
        if A[0].s.startswith("["):
            return ite_arr([g_bool(c, d - 1, True) for _ in range(k)], [A[0]] + B, t)
    return arr_lit(c, d - 1, t, par, r.randint(1 if nonempty or r.random() < .93 else 0, 3))


def ite_arr(conds, es, t):
    n = ite_node(conds, es, "a")
    n.ty, n.n = "a" + t, es[0].n
    return n


def comp(c, d, t, par, nonempty):
    r = c.r
    gens, txt, extra, size = [], [], [], 1
    cc = c
    allpar = True
    for _ in range(1 if r.random() < .75 else 2):
        nm = c.fresh("i")
        if r.random() < .7:
            lo = r.randint(-1, 2)
            hi = lo + r.randint(0, 2)
            g = {"n": nm, "c": "set", "e": {"k": "o", "o": "..", "t": "s", "a": [ic(lo).j, ic(hi).j]}}
            x = N({"k": "v", "n": nm}, nm, "i", lo, hi, True)
            txt.append("%s in %d..%d" % (nm, lo, hi))
            size *= hi - lo + 1
        else:
            a = g_arr(cc, d - 2, "i", par, nonempty=True)
            if a.n > 3:
                a = arr_lit(cc, 0, "i", par, 2)
            g = {"n": nm, "c": "arr", "e": a.j}
            x = N({"k": "v", "n": nm}, nm, "i", a.lo, a.hi, a.par)
            allpar = allpar and a.par
            txt.append("%s in %s" % (nm, a.s))
            size *= a.n
        gens.append(g)
        cc = cc.child([x])
        if not nonempty and r.random() < .35:
            w = g_bool(cc, d - 2, True)    # par conditions only: var conditions build option arrays
            if w.par:
                g["w"] = w.j
                txt[-1] += " where " + w.s
    b = g_int(cc, d - 2, par) if t == "i" else g_bool(cc, d - 2, par)
    if b.par and not allpar:     # par body over a var collection: see known finding K1
        return arr_lit(c, d - 1, t, par, 2)
    return N({"k": "comp", "c": "arr", "g": gens, "b": b.j}, "[%s | %s]" % (b.s, ", ".join(txt)), "a" + t, b.lo, b.hi,
             b.par and allpar, size)


# ------------------------------------------------------------------ sets
def g_set(c, d, par=False):
    r = c.r
    ids = c.ids("s", True if par else None)

    def lit():
        es = [g_int(c, min(d - 1, 0) if not par else d - 1, True) for _ in range(r.randint(0, 3))]
        es = [e if e.par and ok(e) else ic(r.randint(-1, 3)) for e in es]
        return N({"k": "set", "a": [e.j for e in es]}, "{%s}" % ", ".join(e.s for e in es), "s",
                 min([e.lo for e in es] or [0]), max([e.hi for e in es] or [-1]), True)

    def rng():
        a = ic(r.randint(-2, 3))
        b = ic(a.lo + r.randint(-1, 4))
        return N(op("..", "s", a, b), "(%s..%s)" % (a.s, b.s), "s", a.lo, max(b.lo, a.lo), True)

    def bins():
        o = r.choice(["union", "intersect", "diff", "symdiff"])
        a, b = g_set(c, d - 1, par), g_set(c, d - 1, par)
        return N(op(o, "s", a, b), "(%s %s %s)" % (a.s, o, b.s), "s", min(a.lo, b.lo), max(a.hi, b.hi), a.par and b.par)

    def scomp():
        nm = c.fresh("i")
        lo = r.randint(-2, 1)
        hi = lo + r.randint(0, 3)
        x = N({"k": "v", "n": nm}, nm, "i", lo, hi, True)
        cc = c.child([x])
        b = g_int(cc, 1, True)
        g = {"n": nm, "c": "set", "e": op("..", "s", ic(lo), ic(hi))}
        t = "%s in %d..%d" % (nm, lo, hi)
        if r.random() < .5:
            w = g_bool(cc, 1, True)
            g["w"] = w.j
            t += " where " + w.s
        if not b.par or ("w" in g and not w.par):
            return lit()
        return N({"k": "comp", "c": "set", "g": [g], "b": b.j}, "{%s | %s}" % (b.s, t), "s", b.lo, b.hi, True)

    def var():
        return r.choice(ids) if ids else lit()

    def aun():
        k = r.randint(1, 3)
        o = r.choice(["array_union", "array_intersect"])
        es = [g_set(c, d - 1, par) for _ in range(k)]
        j = {"k": "o", "o": o, "t": "s", "a": [{"k": "arr", "a": [e.j for e in es]}]}
        # (the element type of {} alone cannot be inferred)
        return N(j, "%s([%s])" % (o, ", ".join("1..0" if e.s == "{}" else e.s for e in es)), "s", min(e.lo for e in es), max(e.hi for e in es), all(e.par for e in es))

    def ite():
        cd = g_bool(c, d - 1, par)
        a, b = g_set(c, d - 1, par), g_set(c, d - 1, par)
        return ite_node([cd], [a, b], "s")

    if d <= 0:
        return c.pick([(3 if ids else 0, var), (1, lit), (1, rng)])()
    n = c.pick([(2.5 if ids else 0, var), (1, lit), (1, rng), (2.5, bins), (.7, scomp), (.4, aun), (c.w("setite"), ite)])()
    return n


# ------------------------------------------------------------------ opt int
def g_opt(c, d, par=False):
    r = c.r
    ids = c.ids("oi", True if par else None)

    def some():
        a = g_int(c, d - 1, par)
        return N(op("some", "oi", a), a.s, "oi", a.lo, a.hi, a.par)

    def absent():
        return N({"k": "absent"}, "<>", "oi", 0, 0, True)

    def var():
        return r.choice(ids)

    def ar():
        o = r.choice(["~+", "~-", "~*"])
        a, b = g_opt(c, d - 1, par), g_opt(c, d - 1, par)
        if a.s == "<>" and b.s == "<>":
            return var() if ids else some()
        m = (abs(a.lo) + abs(a.hi)) * (abs(b.lo) + abs(b.hi)) + abs(a.lo) + abs(a.hi) + abs(b.lo) + abs(b.hi)
        if m > LIM:
            return var() if ids else some()
        return N(op(o, "oi", a, b), "(%s %s %s)" % (a.s, o, b.s), "oi", -m, m, a.par and b.par)

    def ite():
        cd = g_bool(c, d - 1, par)
        a, b = g_opt(c, d - 1, par), g_opt(c, d - 1, par)
        if a.s == "<>" and b.s == "<>":
            return var() if ids else some()
        return ite_node([cd], [a, b], "oi")

    if d <= 0:
        if ids and r.random() < .85:
            return var()
        return some()
    n = c.pick([(4 if ids else 0, var), (1, some), (.3, absent if ids and not par else some), (c.w("optarith"), ar), (c.w("optite"), ite)])()
    return n
