"""S03 arrays and index sets, S06 tuples, records and enumerated types."""
import itertools
import vf
from sem import *
from sem_more import fill, base


# ---------------------------------------------------------------- arrays with index sets
class A:
    """array expression: spec tree, text, element type, index ranges, element bounds"""
    __slots__ = ("j", "s", "t", "ix", "lo", "hi", "par")

    def __init__(self, j, s, t, ix, lo, hi, par=False):
        self.j, self.s, self.t, self.ix, self.lo, self.hi, self.par = j, s, t, [list(x) for x in ix], lo, hi, par

    def n(self):
        k = 1
        for lo, hi in self.ix:
            k *= max(0, hi - lo + 1)
        return k


def rg(lo, hi):
    return "%s..%s" % (lo if lo >= 0 else "(%d)" % lo, hi if hi >= 0 else "(%d)" % hi)


def rgn(lo, hi):
    return op("..", "s", ic(lo), ic(hi))


def reix(a, ix, s):
    return A({"k": "reix", "ix": [list(x) for x in ix], "r": a.j}, s, a.t, ix, a.lo, a.hi, a.par)


class ArrGen:
    def __init__(self, m):
        self.m, self.c, self.r = m, m.c, m.r
        self.pool = []

    def elem(self, t, d=1):
        c = self.c
        n = g_int(c, self.r.choice([0, 0, d])) if t == "i" else g_bool(c, self.r.choice([0, 0, d]))
        if self.r.random() < .25:
            n = ic(self.r.randint(-2, 5)) if t == "i" else bc(self.r.random() < .5)
        return n

    def elems(self, t, k):
        es = [self.elem(t) for _ in range(k)]
        lo = min([e.lo for e in es] or [0])
        hi = max([e.hi for e in es] or [0])
        return es, lo, hi, all(e.par for e in es)

    def lit(self, t, k):
        es, lo, hi, par = self.elems(t, k)
        if k == 0:
            z = "0" if t == "i" else "true"
            return A({"k": "arr", "a": []}, "[%s | %s in 1..0]" % (z, self.c.fresh("e")), t, [(1, 0)], 0, 0, True)
        x = self.r.random()
        if x < .75:
            return A({"k": "arr", "a": [e.j for e in es]}, "[%s]" % ", ".join(e.s for e in es), t, [(1, k)], lo, hi, par)
        b = self.r.randint(-2, 4)
        if x < .88:
            s = "[%s]" % ", ".join(["%d: %s" % (b, es[0].s)] + [e.s for e in es[1:]])
        else:
            s = "[%s]" % ", ".join("%d: %s" % (b + i, e.s) for i, e in enumerate(es))
        return A({"k": "arrnd", "ix": [[b, b + k - 1]], "a": [e.j for e in es]}, s, t, [(b, b + k - 1)], lo, hi, par)

    def lit2(self, t):
        r = self.r
        p, q = r.randint(1, 3), r.randint(1, 3)
        es, lo, hi, par = self.elems(t, p * q)
        rows = [es[i * q:(i + 1) * q] for i in range(p)]
        x = r.random()
        if x < .5:
            return A({"k": "arrnd", "ix": [[1, p], [1, q]], "a": [e.j for e in es]},
                     "[| %s |]" % " | ".join(", ".join(e.s for e in row) for row in rows), t, [(1, p), (1, q)], lo, hi, par)
        a, b = r.randint(-2, 3), r.randint(-2, 3)
        ix = [(a, a + p - 1), (b, b + q - 1)]
        j = {"k": "arrnd", "ix": [list(z) for z in ix], "a": [e.j for e in es]}
        if x < .7:
            s = "[%s]" % ", ".join("(%d, %d): %s" % (a + i, b + k, rows[i][k].s) for i in range(p) for k in range(q))
        else:
            hdr = "".join(" %d:" % (b + k) for k in range(q))
            s = "[|%s | %s |]" % (hdr, " | ".join("%d: %s" % (a + i, ", ".join(e.s for e in row)) for i, row in enumerate(rows)))
        return A(j, s, t, ix, lo, hi, par)

    def comp(self, t):
        """indexed or plain comprehension with one or two generators"""
        r, c = self.r, self.c
        i, k = c.fresh("i"), c.fresh("k")
        lo = r.randint(-1, 2)
        hi = lo + r.randint(0, 2)
        ni = N({"k": "v", "n": i}, i, "i", lo, hi, True)
        g = [{"n": i, "c": "set", "e": rgn(lo, hi)}]
        gt = "%s in %s" % (i, rg(lo, hi))
        two = r.random() < .5
        ix = None
        kind = r.choice(["plain", "plain", "idx"])
        scope = [ni]
        if two:
            if kind == "idx" or r.random() < .5:
                l2 = r.randint(-1, 2)
                h2 = l2 + r.randint(0, 2)
                g.append({"n": k, "c": "set", "e": rgn(l2, h2)})
                gt += ", %s in %s" % (k, rg(l2, h2))
            else:
                l2, h2 = lo, hi + 1        # range depending on the first generator
                g.append({"n": k, "c": "set", "e": op("..", "s", ni, ic(h2))})
                gt += ", %s in %s..%d" % (k, i, h2)
            scope.append(N({"k": "v", "n": k}, k, "i", l2, h2, True))
        cnt = None
        if kind == "plain" and r.random() < .5:
            cc = Ctx(r, {"ite": .2}, [x for x in c.scope if x.par and x.ty in "ib"][:2] + scope)
            w = g_bool(cc, 1, True)
            g[-1]["w"] = w.j
            gt += " where " + w.s
            cnt = "where"
        cc = c.child(scope)
        b = g_int(cc, 1) if t == "i" else g_bool(cc, 1)
        j = {"k": "comp", "c": "arr", "g": g, "b": b.j}
        if kind == "idx":
            if two:
                ix = [(lo, hi), (l2, h2)]
                key = "(%s, %s)" % (i, k)
            else:
                o = r.choice([0, 0, 2, -1])
                ix = [(lo + o, hi + o)]
                key = i if not o else "%s + (%d)" % (i, o)
            return A({"k": "reix", "ix": [list(z) for z in ix], "r": j}, "[%s: %s | %s]" % (key, b.s, gt), t, ix, b.lo, b.hi, b.par)
        s = "[%s | %s]" % (b.s, gt)
        # the length of a filtered or dependent comprehension is only known to the specification
        n = None if cnt or (two and gt.find("in " + i) >= 0) else (hi - lo + 1) * ((h2 - l2 + 1) if two else 1)
        return A(j, s, t, [(1, n if n is not None else -1)], b.lo, b.hi, b.par), n

    def over(self, a):
        """comprehension over the elements of an array"""
        r, c = self.r, self.c
        e = c.fresh("y")
        ne = N({"k": "v", "n": e}, e, a.t, a.lo, a.hi, a.par)
        cc = c.child([ne] * 3)
        t = r.choice("ib")
        b = g_int(cc, 1) if t == "i" else g_bool(cc, 1)
        src = a.s
        return A({"k": "comp", "c": "arr", "g": [{"n": e, "c": "arr", "e": a.j}], "b": b.j}, "[%s | %s in %s]" % (b.s, e, src), t, [(1, a.n())],
                 b.lo, b.hi, a.par and b.par)

    def any(self, t, dims=None):
        """an array of known shape; dims = required number of dimensions"""
        r = self.r
        v = [a for a in self.pool if a.t == t and (dims is None or len(a.ix) == dims)]
        if v and r.random() < .55:
            return r.choice(v)
        d = dims or r.choice([1, 1, 2])
        if d == 1:
            if r.random() < .3:
                x = self.comp(t)
                x = x if isinstance(x, tuple) else (x, 0)
                if x[1] is not None and len(x[0].ix) == 1:
                    return x[0]
            return self.lit(t, r.choice([1, 2, 2, 3, 3, 4]))
        if d == 2:
            return self.lit2(t) if r.random() < .7 else self.shape(t, 2)
        return self.shape(t, d)

    def shape(self, t, d):
        """arrayNd(index sets, data)"""
        r = self.r
        a = self.any(t, r.choice([1, 2]) if d < 3 else 1)
        n = a.n()
        if n == 0 or r.random() < .5:
            ls = [r.choice([1, 2, 2, 3] if d < 3 else [1, 2]) for _ in range(d)]
            n = 1
            for x in ls:
                n *= x
            a = self.lit(t, n)
        else:
            ls = []
            for _ in range(d - 1):
                x = r.choice([x for x in range(1, n + 1) if n % x == 0])
                ls.append(x)
                n //= x
            ls.append(n)
            r.shuffle(ls)
        ix = []
        for x in ls:
            b = r.randint(-2, 3)
            ix.append((b, b + x - 1))
        txt = [rg(*z) if r.random() < .8 or z[0] > z[1] else "{%s}" % ", ".join(map(str, range(z[0], z[1] + 1))) for z in ix]
        if d == 2 and r.random() < .2:
            f = self.flat(a)
            txt = ["[%s]" % ", ".join(map(str, range(z[0], z[1] + 1))) for z in ix] if f.ix[0][0] == 1 else txt
            a = f
        return reix(a, ix, "array%dd(%s, %s)" % (d, ", ".join(txt), a.s))

    def flat(self, a):
        return A(op_a("array1d", a), "array1d(%s)" % a.s, a.t, [(1, a.n())], a.lo, a.hi, a.par)

    def slice(self, a):
        r = self.r
        m, args, txt, ix = "", [], [], []
        if any(lo > hi for lo, hi in a.ix):
            return None
        for lo, hi in a.ix:
            k = r.choice(["i", "all", "all", "r", "lo", "hi", "e"])
            if k == "i":
                v = r.randint(lo, hi)
                m += "i"
                args.append(ic(v).j)
                txt.append(str(v))
                continue
            m += "s"
            x, y = lo, hi
            if k in "rlo":
                x = r.randint(lo, hi)
            if k in ("r", "hi"):
                y = r.randint(x, hi)
            if k == "e":
                x, y = 1, 0
            args.append(rgn(x, y))
            txt.append({"all": "..", "r": rg(x, y), "lo": "%d.." % x, "hi": "..%d" % y, "e": "1..0"}[k])
            ix.append((x, y))
        if "s" not in m:
            return None
        j = {"k": "slice", "m": list(m), "r": a.j, "a": args}
        if a.s[0] not in "[(" and not a.s.isidentifier():
            return None
        s = "%s[%s]" % (a.s, ", ".join(txt))
        if len(a.ix) == 2 and r.random() < .3:
            if m == "is" and txt[1] == "..":
                s = "row(%s, %s)" % (a.s, txt[0])
            elif m == "si" and txt[0] == "..":
                s = "col(%s, %s)" % (a.s, txt[1])
        return A(j, s, a.t, ix, a.lo, a.hi, a.par)

    def deriv(self, t):
        """an array built from other arrays (possibly of length unknown here: ix[0][1] = -1)"""
        r = self.r
        k = r.choice(["slice", "slice", "cat", "cat2", "rev", "flat", "shape", "shape", "over", "if", "let", "comp", "comp", "lit", "like", "idx", "shift"])
        if k == "lit":
            return self.lit(t, r.choice([0, 1, 3]))
        if k == "comp":
            x = self.comp(t)
            return x[0] if isinstance(x, tuple) else x
        if k == "shape":
            return self.shape(t, r.choice([1, 1, 2, 2, 3]))
        a = self.any(t, r.choice([None, 1, 2, 2, 3]))
        if k == "slice":
            return self.slice(a) if a.n() else None
        if k == "flat":
            return self.flat(a)
        if k == "over":
            return self.over(a) if a.n() else None
        if k == "rev":
            if len(a.ix) > 1:
                return None
            return A(op_a("reverse", a), "reverse(%s)" % a.s, t, a.ix, a.lo, a.hi, a.par)
        if k == "cat":
            a = self.any(t, 1)
            b = self.any(t, 1) if r.random() < .9 else self.lit(t, 0)
            if r.random() < .5:
                a, b = b, a
            return A(op_a("++", a, b), "(%s ++ %s)" % (a.s, b.s), t, [(1, a.n() + b.n())], min(a.lo, b.lo), max(a.hi, b.hi), a.par and b.par)
        if k == "cat2":
            a = self.any(t, 2)
            q = a.ix[1]
            w = q[1] - q[0] + 1
            p = r.randint(1, 2)
            lo = r.randint(-1, 2)
            b0 = self.lit(t, w * p)
            b = reix(b0, [(lo, lo + p - 1), q], "array2d(%s, %s, %s)" % (rg(lo, lo + p - 1), rg(*q), b0.s))
            n1 = a.ix[0][1] - a.ix[0][0] + 1
            return A({"k": "reix", "ix": [[1, n1 + p], q], "r": op_a("++", a, b)}, "(%s ++ %s)" % (a.s, b.s), t, [(1, n1 + p), q],
                     min(a.lo, b.lo), max(a.hi, b.hi), a.par and b.par)
        if k == "if":
            b0 = self.lit(t, a.n())
            b = reix(b0, a.ix, "array%dd(%s, %s)" % (len(a.ix), ", ".join(rg(*z) for z in a.ix), b0.s))
            cd = g_bool(self.c, 1, True)
            if r.random() < .5:
                a, b = b, a
            return A({"k": "if", "t": "a", "a": [cd.j, a.j, b.j]}, "(if %s then %s else %s endif)" % (cd.s, a.s, b.s), t, a.ix, min(a.lo, b.lo),
                     max(a.hi, b.hi), cd.par and a.par and b.par)
        if k == "let":
            n = self.c.fresh("w")
            v = A({"k": "v", "n": n}, n, t, a.ix, a.lo, a.hi, a.par)
            b = self.slice(v) if r.random() < .6 or len(a.ix) > 1 else A(op_a("reverse", v), "reverse(%s)" % n, t, a.ix, a.lo, a.hi, a.par)
            if b is None or len(a.ix) > 2:
                return None
            ty = "%s%s" % ("" if a.par else "var ", "int" if t == "i" else "bool")
            dcl = r.choice(["any", "array[%s] of %s" % (", ".join("int" if r.random() < .5 else rg(*z) for z in a.ix), ty)])
            return A({"k": "let", "t": "a", "n": n, "e": a.j, "b": b.j}, "let { %s: %s = %s } in %s" % (dcl, n, a.s, b.s), t, b.ix, a.lo, a.hi, a.par)
        if k == "like":
            b = self.any(t, 1)
            shapes = [x for x in self.pool if x.n() == b.n()]
            if not shapes:
                return None
            x = r.choice(shapes)
            return reix(b, x.ix, "arrayXd(%s, %s)" % (x.s, b.s))
        if k == "idx":
            # the array rebuilt from its index sets
            if len(a.ix) > 2 or not a.n() or not a.s.isidentifier():
                return None
            if len(a.ix) == 1:
                i = self.c.fresh("i")
                return A({"k": "reix", "ix": a.ix, "r": a.j}, "[%s: %s[%s] | %s in index_set(%s)]" % (i, a.s, i, i, a.s), t, a.ix, a.lo, a.hi, a.par)
            i, q = self.c.fresh("i"), self.c.fresh("k")
            nix = [a.ix[1], a.ix[0]]
            n1, n2 = a.ix[0][1] - a.ix[0][0] + 1, a.ix[1][1] - a.ix[1][0] + 1
            el = [{"k": "acc", "t": t, "r": a.j, "a": [ic(x).j, ic(y).j]} for y in range(a.ix[1][0], a.ix[1][1] + 1) for x in range(a.ix[0][0], a.ix[0][1] + 1)]
            return A({"k": "arrnd", "ix": nix, "a": el}, "[(%s, %s): %s[%s, %s] | %s in index_set_1of2(%s), %s in index_set_2of2(%s)]" % (
                q, i, a.s, i, q, i, a.s, q, a.s), t, nix, a.lo, a.hi, a.par)
        if k == "shift":
            if len(a.ix) > 2 or not a.n():
                return None
            os = [r.randint(-2, 3) for _ in a.ix]
            ix = [(o, o + z[1] - z[0]) for o, z in zip(os, a.ix)]
            return reix(a, ix, "array_index_shift(%s, %s)" % (", ".join("%s..7" % (o if o >= 0 else "(%d)" % o) for o in os), a.s))
        return None


def op_a(o, *a):
    return {"k": "o", "o": o, "t": "a", "a": [x.j for x in a]}


def scalars(g, v):
    """scalar expressions over a named array"""
    c, r, out = g.c, g.r, []
    for _ in range(r.randint(1, 3)):
        if v.ix[0][1] != -1 and v.n() and r.random() < .7:
            idx = []
            for lo, hi in v.ix:
                ids = [x for x in c.ids("i") if x.s.isidentifier() and x.lo >= lo and x.hi <= hi]
                if ids and r.random() < .6:
                    idx.append(r.choice(ids))
                elif r.random() < .3:
                    ids = [x for x in c.ids("i") if x.s.isidentifier() and x.hi - x.lo <= hi - lo]
                    x = r.choice(ids) if ids else ic(lo)
                    idx.append(N(op("+", "i", x, ic(lo - x.lo)), "%s + (%d)" % (x.s, lo - x.lo), "i", par=x.par) if ids else x)
                else:
                    idx.append(ic(r.randint(lo, hi)))
            out.append(N({"k": "acc", "t": v.t, "r": v.j, "a": [x.j for x in idx]}, "%s[%s]" % (v.s, ", ".join(x.s for x in idx)), v.t, v.lo, v.hi,
                         v.par and all(x.par for x in idx)))
            continue
        o = r.choice(["sum", "length", "min", "max", "count"] if v.t == "i" else ["forall", "exists", "length", "b2i"])
        K = max(abs(v.lo), abs(v.hi)) * 12
        if o in ("sum", "forall", "exists"):
            out.append(N({"k": "o", "o": o, "t": v.t, "a": [v.j]}, "%s(%s)" % (o, v.s if len(v.ix) == 1 else "array1d(%s)" % v.s), v.t, -K, K, v.par))
        elif o == "length":
            out.append(N({"k": "o", "o": o, "t": "i", "a": [v.j]}, "length(%s)" % v.s, "i", 0, 12, True))
        elif o in ("min", "max") and v.ix[0][1] != -1 and v.n():
            out.append(N({"k": "o", "o": o, "t": "i", "a": [v.j]}, "%s(%s)" % (o, v.s), "i", v.lo, v.hi, v.par))
        elif len(v.ix) == 1:
            e = c.fresh("y")
            b = N(op(">", "b", N({"k": "v", "n": e}, e, "i"), ic(1)), "%s > 1" % e, "b") if v.t == "i" else N({"k": "v", "n": e}, e, "b")
            j = {"k": "comp", "c": "arr", "g": [{"n": e, "c": "arr", "e": v.j}], "b": op("bool2int", "i", b)}
            out.append(N({"k": "o", "o": "sum", "t": "i", "a": [j]}, "sum(%s in %s)(%s)" % (e, v.s, b.s), "i", 0, 12, v.par))
    return out


def declare_nd(m, g):
    """a declared array of decision variables with its own index sets"""
    r = m.r
    d = r.choice([1, 1, 2, 2, 3])
    ls = {1: [r.randint(1, 3)], 2: r.choice([[1, 2], [2, 1], [2, 2], [1, 3]]), 3: r.choice([[1, 2, 1], [1, 1, 2], [2, 1, 1]])}[d]
    ix = []
    for x in ls:
        b = r.randint(-2, 3)
        ix.append((b, b + x - 1))
    n = 1
    for x in ls:
        n *= x
    t = r.choice("iib")
    nm = "a%d" % (len(m.vars) + 1)
    lo = r.choice([-1, 0, 1])
    v = [lo, lo + 1] if t == "i" and n > 2 else [lo, lo + 1, lo + 2] if t == "i" else [False, True]
    vals = [list(x) for x in itertools.product(v, repeat=n)]
    m.vars.append({"n": nm + "_", "ty": "a", "d": vals})
    m.size *= len(vals)
    m.items.append({"n": nm, "e": {"k": "reix", "ix": [list(z) for z in ix], "r": {"k": "v", "n": nm + "_"}}})
    m.text.append("array[%s] of var %s: %s :: add_to_output;" % (", ".join(rg(*z) for z in ix), dom_text(v) if t == "i" else "bool", nm))
    a = A({"k": "v", "n": nm}, nm, t, ix, int(v[0]) if t == "i" else 0, int(v[-1]) if t == "i" else 1)
    m.items.append({"n": nm + "_o", "e": {"k": "o", "o": "elems", "t": "a", "a": [a.j]}})
    m.out.append(nm + "_o")
    m.oty.append("el:" + nm)
    g.pool.append(a)
    for s in scalars(g, a):
        m.c.scope.append(s)


def s03(r, i):
    fe = dict(xorall=.5, ite=1, arr=.4, acc=.3, let=.3, comp=.2)
    m = base(r, fe, (1, 2), .5)
    g = ArrGen(m)
    for _ in range(r.randint(0, 2)):
        if m.size <= 30:
            declare_nd(m, g)
    if r.random() < .4:
        a = g.lit("i", 4)
        m.add_par("i")
    k = 0
    for _ in range(r.randint(2, 6)):
        t = r.choice("iib")
        a = g.deriv(t)
        if a is None or max(abs(a.lo), abs(a.hi)) > 2000:
            continue
        t = a.t
        nm = "r%d" % k
        k += 1
        d = len(a.ix)
        known = all(z[1] != -1 for z in a.ix)
        p = a.par and r.random() < .7
        if known and r.random() < .4:
            ixt = ", ".join(rg(*z) if r.random() < .7 else "int" for z in a.ix)
        else:
            ixt = ", ".join(["int"] * d)
        m.text.append("array[%s] of %s%s: %s :: add_to_output = %s;" % (ixt, "" if p else "var ", "int" if t == "i" else "bool", nm, a.s))
        m.items.append({"n": nm, "e": a.j})
        m.items.append({"n": nm + "_o", "e": {"k": "o", "o": "elems", "t": "a", "a": [{"k": "v", "n": nm}]}})
        m.out.append(nm + "_o")
        m.oty.append("el:" + nm)
        v = A({"k": "v", "n": nm}, nm, t, a.ix, a.lo, a.hi, p)
        # the index sets as the program sees them
        for q in range(d):
            if r.random() < .6:
                f = "index_set(%s)" % nm if d == 1 else "index_set_%dof%d(%s)" % (q + 1, d, nm)
                o = r.choice(["set", "min"]) if known and a.n() else "set"
                e = {"k": "o", "o": "ixs", "t": "s", "a": [v.j, ic(q + 1).j]}
                if o == "min":
                    m.text.append("int: %s_i%d :: add_to_output = min(%s);" % (nm, q, f))
                    m.items.append({"n": "%s_i%d" % (nm, q), "e": {"k": "o", "o": "smin", "t": "i", "a": [e]}})
                    m.oty.append("i")
                else:
                    m.text.append("set of int: %s_i%d :: add_to_output = %s;" % (nm, q, f))
                    m.items.append({"n": "%s_i%d" % (nm, q), "e": e})
                    m.oty.append("s")
                m.out.append("%s_i%d" % (nm, q))
        if known:
            g.pool.append(v)
        m.c.scope += scalars(g, v)
    if not k:
        return s03(r, i)
    fill(m, r.randint(1, 3), .6, 2)
    return m.case(solver="gecode" if r.random() < .5 else "enumfzn")


GEN = {"S03": (s03, 420)}


def run(ck):
    g, n = GEN[ck.pid]
    n = ck.n(n, n * 25)
    done = 0
    while done < n:
        k = min(4000, n - done)
        check_cases(ck, [g(ck.rng, done + i) for i in range(k)], ck.pid)
        done += k
