"""S12 global constraints as constraints, S13 global constraints in reified, negated and implied contexts."""
import itertools
import vf
from sem import *
from sem_struct import rg


NUM = {"g_argmin", "g_argmax", "g_inc", "g_dec", "g_sinc", "g_sdec"}


def O(o, t, *a):
    j = [x.j if hasattr(x, "j") else x for x in a]
    if o in NUM or o.startswith("g_lex"):       # Booleans are compared as 0 and 1
        j = [{"k": "o", "o": "g_num", "t": "a", "a": [y]} if getattr(x, "ty", "") == "ab" else y for x, y in zip(a, j)]
    return {"k": "o", "o": o, "t": t, "a": j}


EQLEN = False  # the linear lex_lesseq asserts arrays of equal length


class G:
    """arguments for one global constraint over a small set of decision variables"""

    def __init__(self, m, solver):
        self.m, self.r, self.c, self.solver = m, m.r, m.c, solver
        self.lim = 180

    # ---- decision variables
    def ints(self, k, lo=None, hi=None):
        """k integer variables inside lo..hi"""
        out = []
        for _ in range(k):
            if lo is None:
                v = rand_dom(self.r)
            else:
                v = sorted(self.r.sample(range(lo, hi + 1), min(self.r.choice([2, 3, 3, 4]), hi - lo + 1)))
                if self.r.random() < .6:
                    v = list(range(v[0], v[-1] + 1))
            while self.m.size * len(v) > self.lim and len(v) > 2:
                v = v[:-1]
            if self.m.size * len(v) > self.lim and out:
                out.append(self.r.choice(out))
                continue
            self.m.add_int(v)
            out.append(self.m.c.scope[-1])
        return out

    def bools(self, k):
        out = []
        for _ in range(k):
            if self.m.size * 2 > self.lim and out:
                out.append(self.r.choice(out))
            else:
                self.m.add_bool()
                out.append(self.m.c.scope[-1])
        return out

    def sets(self, k, u=None):
        out = []
        for _ in range(k):
            uu = u or list(range(self.r.choice([0, 1]), self.r.choice([3, 4])))
            if self.m.size * 2 ** len(uu) > 300 and out:
                out.append(self.r.choice(out))
            else:
                self.m.add_set(uu)
                out.append(self.m.c.scope[-1])
        return out

    def opts(self, k, dom=None):
        out = []
        for _ in range(k):
            if self.m.size * 3 > self.lim and out:
                out.append(self.r.choice(out))
                continue
            v = dom or rand_dom(self.r)[:3]
            if self.m.size * (len(v) + 1) > self.lim:
                v = v[:2]
            n = "o%d" % (len(self.m.vars) + 1)
            self.m.vars.append({"n": n, "ty": "oi", "d": [[]] + [[x] for x in v]})
            self.m.text.append("var opt %s: %s :: add_to_output;" % (dom_text(v), n))
            self.m._v(n, "oi", v[0], v[-1], len(v) + 1)
            out.append(self.m.c.scope[-1])
        return out

    # ---- elements and arrays
    def mixi(self, k, lo=None, hi=None, pc=.2, expr=True):
        """k integer elements: variables, repetitions, constants, simple expressions"""
        nv = k if self.r.random() < .6 else max(1, k - 1)
        vs = self.ints(min(nv, 4) or 1, lo, hi) if k else []
        out = []
        for i in range(k):
            x = self.r.random()
            if x < pc:
                a, b = (lo, hi) if lo is not None else (-1, 4)
                out.append(ic(self.r.randint(a, b)))
            elif i < len(vs):
                out.append(vs[i])
            else:
                out.append(self.r.choice(vs))
            if expr and lo is None and self.r.random() < .1:
                e, d = out[-1], self.r.choice([1, 2, -1])
                if not e.par:
                    out[-1] = N(O("+", "i", e, ic(d)), "%s + %s" % (e.s, ic(d).s), "i", e.lo + d, e.hi + d)
        self.r.shuffle(out)
        return out

    def mixb(self, k):
        vs = self.bools(min(k, 4)) if k else []
        out = [self.r.choice(vs) if i >= len(vs) else vs[i] for i in range(k)]
        for i in range(k):
            if self.r.random() < .15:
                out[i] = bc(self.r.random() < .5)
            elif self.r.random() < .12:
                out[i] = N(O("not", "b", out[i]), "not " + out[i].s, "b")
        return out

    def mixs(self, k, u=None):
        vs = self.sets(min(k, 3), u) if k else []
        out = [vs[i] if i < len(vs) else self.r.choice(vs) for i in range(k)]
        for i in range(k):
            if self.r.random() < .2:
                out[i] = self.cset(u)
        return out

    def mixo(self, k, dom=None):
        vs = self.opts(min(k, 3), dom) if k else []
        out = [vs[i] if i < len(vs) else self.r.choice(vs) for i in range(k)]
        for i in range(k):
            x = self.r.random()
            if x < .12:
                v = self.r.choice(dom or [0, 1, 2])
                out[i] = N(O("some", "oi", ic(v)), str(v), "oi", v, v, True)
            elif x < .2:
                out[i] = N({"k": "absent"}, "<>", "oi", 0, 0, True)
        if out and all(e.s == "<>" for e in out):     # nothing to take the bounds of
            out[0] = vs[0]
        return out

    def cset(self, u=None):
        v = sorted(self.r.sample(u or [0, 1, 2, 3], self.r.randint(0, min(3, len(u or [0, 1, 2, 3])))))
        return N({"k": "set", "a": [ic(x).j for x in v]}, "{%s}" % ", ".join(map(str, v)), "s", 0, 0, True)

    def cints(self, vals):
        return [ic(v) for v in vals]

    EMPTY = {"i": "[0 | e0 in 1..0]", "b": "[true | e0 in 1..0]", "s": "[1..1 | e0 in 1..0]"}

    def A(self, es, t="i", base=1, two=False):
        """array node; base: first index"""
        par = all(e.par for e in es)
        if not es:
            return N({"k": "arr", "a": []}, self.EMPTY[t], "a" + t, 0, 0, True, 0)
        j = {"k": "arrnd", "ix": [[base, base + len(es) - 1]], "a": [e.j for e in es]}
        body = "[%s]" % ", ".join(e.s for e in es)
        if base != 1:
            if self.r.random() < .5:
                body = "array1d(%s, %s)" % (rg(base, base + len(es) - 1), body)
            else:
                body = "[%d: %s]" % (base, ", ".join(e.s for e in es))
        return N(j, body, "a" + t, min(e.lo for e in es), max(e.hi for e in es), par, len(es))

    def AX(self, es, t="i"):
        """array of any index type ($X): sometimes with an offset or two dimensions"""
        r = self.r
        if len(es) in (4, 6) and r.random() < .3:
            q = len(es) // 2
            j = {"k": "arrnd", "ix": [[1, 2], [1, q]], "a": [e.j for e in es]}
            return N(j, "array2d(1..2, 1..%d, [%s])" % (q, ", ".join(e.s for e in es)), "a" + t, 0, 0, all(e.par for e in es), len(es))
        return self.A(es, t, r.choice([1, 1, 1, 0, 2, -1]))

    def A2(self, rows, t="i", b1=1, b2=1):
        p, q = len(rows), len(rows[0])
        es = [e for row in rows for e in row]
        j = {"k": "arrnd", "ix": [[b1, b1 + p - 1], [b2, b2 + q - 1]], "a": [e.j for e in es]}
        if b1 == 1 and b2 == 1 and self.r.random() < .6:
            s = "[| %s |]" % " | ".join(", ".join(e.s for e in row) for row in rows)
        else:
            s = "array2d(%s, %s, [%s])" % (rg(b1, b1 + p - 1), rg(b2, b2 + q - 1), ", ".join(e.s for e in es))
        return N(j, s, "ab" if t == "b" else "a2", 0, 0, all(e.par for e in es))

    def k(self, lo=2, hi=4):
        return self.r.choice(list(range(lo, hi + 1)))

    def ke(self, hi=4):
        """length, rarely 0 or 1"""
        return self.r.choice([0, 1] + [2, 3, 3, 4][:hi] * 3)

    def base(self):
        return self.r.choice([1, 1, 1, 0, 2, -1])

    def b(self, name, o, *a, t="b", args=None):
        return N(O(o, t, *a), "%s(%s)" % (name, ", ".join((args or [x.s for x in a]))), t)

    def iv(self, lo=-2, hi=6):
        """a small integer variable or constant"""
        if self.r.random() < .3:
            return ic(self.r.randint(max(lo, -1), min(hi, 4)))
        return self.ints(1, max(lo, -1), min(hi, 4))[0]

    def eq(self, f, y=None, t="i"):
        """relate a function's value to something: a Boolean node"""
        y = y or self.iv()
        o = self.r.choice(["=", "=", "!=", "<=", "<", ">", ">="])
        return N(O(o, "b", f, y), "(%s %s %s)" % (f.s, o, y.s), "b")

    def aeq(self, f, es):
        """array-valued function compared elementwise with es"""
        a = self.A(es)
        return N(O("aeq", "b", O("array1d", "a", f), a), "(array1d(%s) = %s)" % (f.s, a.s), "b")

    def conj(self, *xs):
        n = xs[0]
        for x in xs[1:]:
            n = N(O("and", "b", n, x), n.s, "b")
        return n


REG = {}


def glob(*names, w=1):
    def f(fn):
        for n in names or [fn.__name__]:
            REG[n] = (fn, w)
        return fn
    return f


@glob("all_different", w=2)
def _(g, n):
    x = g.r.random()
    if x < .5:
        return g.b(g.r.choice(["all_different", "alldifferent"]), "g_alldiff", g.AX(g.mixi(g.ke())))
    if x < .7:
        return g.b("all_different", "g_alldiff_opt", g.AX(g.mixo(g.k(2, 3))))
    if x < .85:
        return g.b("all_different", "g_alldiff_except", g.AX(g.mixi(g.ke())), g.cset())
    return g.b("all_different", "g_alldiff", g.AX(g.mixs(g.k(2, 3)), "s"))


@glob("all_different_except_0", "all_different_except", "alldifferent_except_0", "alldifferent_except")
def _(g, n):
    a = g.AX(g.mixi(g.ke()))
    if n.endswith("0"):
        z = {"k": "set", "a": [ic(0).j]}
        return N(O("g_alldiff_except", "b", a, z), "%s(%s)" % (n, a.s), "b")
    return g.b(n, "g_alldiff_except", a, g.cset())


@glob("symmetric_all_different")
def _(g, n):
    b = g.base()
    k = g.k(2, 4)
    return g.b(n, "g_symalldiff", g.A(g.mixi(k, b, b + k - 1, .1), "i", b))


@glob("all_disjoint", "at_most1")
def _(g, n):
    if n == "at_most1":
        n = g.r.choice(["at_most1", "atmost1"])
    return g.b(n, "g_alldisjoint" if n == "all_disjoint" else "g_at_most1", g.AX(g.mixs(g.k(2, 3)), "s"))


@glob("all_equal")
def _(g, n):
    if g.r.random() < .3:
        return g.b(n, "g_allequal", g.AX(g.mixs(g.k(1, 3)), "s"))
    return g.b(n, "g_allequal", g.AX(g.mixi(g.ke())))


@glob("among")
def _(g, n):
    a = g.AX(g.mixi(g.ke()))
    s = g.cset()
    f = N(O("g_among", "i", a, s), "among(%s, %s)" % (a.s, s.s), "i", 0, 4)
    if g.r.random() < .5:
        y = g.iv()
        return N(O("=", "b", y, f), "among(%s, %s, %s)" % (y.s, a.s, s.s), "b")
    return g.eq(f)


def _cnt(g):
    x = g.r.random()
    if x < .55:
        a = g.AX(g.mixi(g.ke()))
        v = g.iv()
        return a, v, O("g_count", "i", a, v)
    if x < .75:
        a = g.AX(g.mixb(g.k(1, 4)), "b")
        v = g.r.choice([bc(True), bc(False), g.bools(1)[0]])
        return a, v, O("g_count", "i", a, v)
    if x < .9:
        a = g.AX(g.mixo(g.k(1, 3)))
        v = g.iv()
        return a, v, O("g_count_opt", "i", a, v)
    a = g.AX(g.mixi(g.ke()))
    v = ic(g.r.randint(-1, 3))
    return a, v, O("g_count", "i", a, v)


@glob("count", "count_fn", w=2)
def _(g, n):
    a, v, j = _cnt(g)
    if n == "count" and g.r.random() < .5:
        y = g.iv()
        return N(O("=", "b", y, j), "count(%s, %s, %s)" % (a.s, v.s, y.s), "b")
    f = N(j, "count(%s, %s)" % (a.s, v.s), "i", 0, 4)
    if g.r.random() < .4 and a.ty == "ai" and "array2d" not in a.s:
        q = g.c.fresh("q")
        f = N(j, g.r.choice(["count(%s in %s)(%s = %s)", "sum(%s in %s)(bool2int(%s = %s))"]) % (q, a.s, q, v.s), "i", 0, 4) \
            if v.ty == "i" and j["o"] == "g_count" else f
    return g.eq(f)


@glob("count_eq", "count_neq", "count_leq", "count_lt", "count_geq", "count_gt")
def _(g, n):
    x = g.r.random()
    if x < .6:
        a, v = g.AX(g.mixi(g.k(1, 4))), g.iv()
    elif x < .85:
        a, v = g.AX(g.mixb(g.k(1, 4)), "b"), g.r.choice([bc(True), bc(False), g.bools(1)[0]])
    else:
        a, v = g.AX(g.mixs(g.k(1, 3)), "s"), g.cset()
    y = g.iv()
    # count_geq(xs, v, n): n is greater or equal to the number of occurrences
    o = {"eq": "=", "neq": "!=", "leq": "<=", "lt": "<", "geq": ">=", "gt": ">"}[n[6:]]
    return N(O(o, "b", y, O("g_count", "i", a, v)), "%s(%s, %s, %s)" % (n, a.s, v.s, y.s), "b")


@glob("at_least", "at_most", "exactly")
def _(g, n):
    st = g.r.random() < .3
    a, v = (g.AX(g.mixs(g.k(1, 3)), "s"), g.cset()) if st else (g.AX(g.mixi(g.ke())), ic(g.r.randint(-1, 3)))
    k = ic(g.r.randint(0, 3))
    o = {"at_least": ">=", "at_most": "<=", "exactly": "="}[n]
    return N(O(o, "b", O("g_count", "i", a, v), k), "%s(%s, %s, %s)" % (n, k.s, a.s, v.s), "b")


@glob("arg_max", "arg_min", "arg_max_weak", "arg_min_weak", "minimum_arg", "maximum_arg")
def _(g, n):
    b = g.base()
    x = g.r.random()
    mm = "max" if "max" in n else "min"
    if n in ("minimum_arg", "maximum_arg"):
        a = g.A(g.mixi(g.k(1, 4)), "i", b) if x < .7 else g.A(g.mixb(g.k(1, 4)), "b", b)
        y = g.iv()
        return N(O("=", "b", O("g_arg" + mm, "i", a), y), "%s(%s, %s)" % (n, a.s, y.s), "b")
    if n.endswith("weak"):
        a = g.A(g.mixo(g.k(1, 3)), "i", b)
        f = O("g_arg%s_weak" % mm, "oi", a)
        s = "%s(%s)" % (n, a.s)
        if g.r.random() < .4:
            return N(O("absent", "b", f), "absent(%s)" % s, "b")
        y = g.opts(1, [b, b + 1])[0]
        return N(O("oeq", "b", f, y), "(%s = %s)" % (s, y.s), "b")
    if x < .5:
        a, o = g.A(g.mixi(g.k(1, 4)), "i", b), "g_arg" + mm
    elif x < .75:
        a, o = g.A(g.mixb(g.k(1, 4)), "b", b), "g_arg" + mm
    else:
        a, o = g.A(g.mixo(g.k(1, 3)), "i", b), "g_arg%s_opt" % mm
    return g.eq(N(O(o, "i", a), "%s(%s)" % (n, a.s), "i", b, b + 3))


@glob("arg_val", "arg_val_weak")
def _(g, n):
    b = g.base()
    if g.r.random() < .7:
        a, v = g.A(g.mixi(g.k(1, 4)), "i", b), g.iv()
    else:
        a, v = g.A(g.mixb(g.k(1, 4)), "b", b), g.bools(1)[0]
    if a.par and v.par:
        return None
    s = "%s(%s, %s)" % (n, a.s, v.s)
    if n == "arg_val":
        return g.eq(N(O("g_argval", "i", a, v), s, "i", b, b + 3))
    f = O("g_argval_weak", "oi", a, v)
    if g.r.random() < .4:
        return N(O("absent", "b", f), "absent(%s)" % s, "b")
    y = g.opts(1, [b, b + 1])[0]
    return N(O("oeq", "b", f, y), "(%s = %s)" % (s, y.s), "b")


@glob("arg_sort")
def _(g, n):
    b = g.base()
    k = g.k(2, 3)
    a = g.A(g.mixi(k), "i", b)
    p = g.mixi(k, b, b + k - 1, .15)
    f = N(O("g_argsort", "a", a), "arg_sort(%s)" % a.s, "a")
    if g.r.random() < .5:
        pa = g.A(p)
        return N(O("aeq", "b", f, pa), "arg_sort(%s, %s)" % (a.s, pa.s), "b")
    return g.aeq(f, p)


@glob("sort", "sort_fn")
def _(g, n):
    k = g.k(1, 3)
    a = g.A(g.mixi(k), "i", g.base())
    y = g.mixi(k)
    f = N(O("g_sort", "a", a), "sort(%s)" % a.s, "a")
    if n == "sort":
        ya = g.A(y, "i", g.base())
        return N(O("aeq", "b", f, O("array1d", "a", ya)), "sort(%s, %s)" % (a.s, ya.s), "b")
    return g.aeq(f, y)


@glob("bin_packing", "bin_packing_capa", "bin_packing_load", "bin_packing_load_fn")
def _(g, n):
    k = g.k(2, 4)
    b = g.base()
    w = g.A(g.cints([g.r.randint(0, 3) for _ in range(k)]))
    nb = g.k(1, 3)
    op_ = g.r.random() < .3
    if op_:
        k = min(k, 3)
        w = g.A(g.cints([g.r.randint(0, 3) for _ in range(k)]))
        bn = g.A(g.mixo(k, [b, b + nb - 1] if nb > 1 else [b]))
    else:
        bn = g.A(g.mixi(k, b, b + nb, .1) if n == "bin_packing" or g.r.random() < .3 else g.mixi(k, b, b + nb - 1, .1))
    sx = "_opt" if op_ else ""
    if n == "bin_packing":
        return g.b(n, "g_bin_packing" + sx, ic(g.r.randint(0, 5)), bn, w)
    if n == "bin_packing_capa":
        if op_:
            return None
        return g.b(n, "g_bin_packing_capa", g.A(g.cints([g.r.randint(0, 5) for _ in range(nb)]), "i", b), bn, w)
    if n == "bin_packing_load_fn":
        if not op_:
            return None
        return None
    ld = g.A(g.mixi(nb, 0, 5), "i", b)
    return g.b("bin_packing_load", "g_bin_packing_load" + sx, ld, bn, w)


@glob("circuit", "subcircuit", w=2)
def _(g, n):
    b = g.base()
    k = g.k(2, 4) if n == "circuit" else min(g.ke(), 4)
    if n == "circuit" and g.r.random() < .3:
        k = g.k(2, 3)
        return g.b(n, "g_circuit_opt", g.A(g.mixo(k, list(range(b, b + k))), "i", b))
    lo, hi = (b, b + k - 1) if g.r.random() < .8 or k == 0 else (b - 1, b + k)
    return g.b(n, "g_" + n, g.A(g.mixi(k, lo, hi, .1), "i", b))


def _graph(g, named=True):
    N_ = g.k(2, 3)
    E = g.k(1, 4)
    fr = [g.r.randint(1, N_) for _ in range(E)]
    to = [g.r.choice([x for x in range(1, N_ + 1) if x != fr[i]]) for i in range(E)]
    return N_, E, fr, to


@glob("subgraph", "dreachable", "reachable", "dconnected", "connected", "dtree", "tree", "dpath", "path", "dag",
      "bounded_dpath", "bounded_path", "d_weighted_spanning_tree", "weighted_spanning_tree", "dsteiner", "steiner")
def _(g, n):
    N_, E, fr, to = _graph(g)
    F, T = g.A(g.cints(fr)), g.A(g.cints(to))
    es = g.A(g.mixb(E), "b")
    ns = g.A(g.mixb(N_), "b") if "spanning" not in n else None
    w = g.A(g.cints([g.r.randint(0, 3) for _ in range(E)]))

    def root():
        return g.ints(1, 1, N_)[0] if g.r.random() < .6 else ic(g.r.randint(1, N_))
    g.lim = 600
    ne = [str(N_), str(E)]
    two = g.r.random() < .5           # the variant with explicit numbers of nodes and edges

    def mk(o, *a):
        s = [x.s for x in a]
        return N(O(o, "b", *a), "%s(%s)" % (n, ", ".join((ne if two else []) + s)), "b")
    if n == "subgraph":
        return mk("g_subgraph", F, T, ns, es)
    if n in ("dag", "connected", "dconnected"):
        two = False
        return mk("g_" + n, F, T, ns, es)
    if n in ("dreachable", "reachable", "dtree", "tree"):
        return mk("g_" + n, F, T, root(), ns, es)
    if n in ("dpath", "path"):
        return mk("g_" + n, F, T, root(), root(), ns, es)
    if n in ("bounded_dpath", "bounded_path"):
        return mk("g_" + n, F, T, w, root(), root(), ns, es, g.iv(0, 6))
    if n == "d_weighted_spanning_tree":
        two = True
        r, k = root(), g.iv(0, 6)
        return N(O("g_dwst", "b", F, T, w, r, es, k, ic(N_)), "%s(%s)" % (n, ", ".join(ne + [x.s for x in (F, T, w, r, es, k)])), "b")
    if n == "weighted_spanning_tree":
        k = g.iv(0, 6)
        return N(O("g_wst", "b", F, T, w, es, k, ic(N_)), "%s(%s)" % (n, ", ".join(ne + [x.s for x in (F, T, w, es, k)])), "b")
    two = True
    if n == "dsteiner":
        return mk("g_dsteiner", F, T, w, root(), ns, es, g.iv(0, 6))
    return mk("g_steiner", F, T, w, ns, es, g.iv(0, 6))


@glob("network_flow", "network_flow_cost")
def _(g, n):
    N_, E, fr, to = _graph(g)
    arcs = g.A2([[ic(a), ic(b)] for a, b in zip(fr, to)])
    fl = [g.r.randint(0, 2) for _ in range(E)]
    bal = [sum(fl[e] for e in range(E) if fr[e] == i) - sum(fl[e] for e in range(E) if to[e] == i) for i in range(1, N_ + 1)]
    if g.r.random() < .3:
        bal[0] += 1
    flow = g.A(g.mixi(E, 0, 2, .1))
    B = g.A(g.cints(bal))
    nf = N(O("g_network_flow", "b", arcs, B, flow), "network_flow(%s, %s, %s)" % (arcs.s, B.s, flow.s), "b")
    if n == "network_flow":
        return nf
    w = g.A(g.cints([g.r.randint(-1, 3) for _ in range(E)]))
    y = g.iv(-1, 6)
    j = O("and", "b", nf, O("=", "b", O("g_flow_cost", "i", w, flow), y))
    return N(j, "network_flow_cost(%s)" % ", ".join([arcs.s, B.s, w.s, flow.s, y.s]), "b")


@glob("cumulative", w=2)
def _(g, n):
    k = g.k(1, 3)
    opt = g.r.random() < .4
    s = g.A(g.mixo(k) if opt else g.mixi(k, 0, 4))
    fix = g.r.random() < .5
    d = g.A(g.cints([g.r.randint(0, 3) for _ in range(k)]) if fix else g.mixi(k, 0, 3, .4))
    q = g.A(g.cints([g.r.randint(0, 2) for _ in range(k)]) if g.r.random() < .6 else g.mixi(k, 0, 2, .5))
    cap = ic(g.r.randint(0, 3)) if g.r.random() < .6 else g.iv(0, 3)
    return g.b(n, "g_cumulative" + ("_opt" if opt else ""), s, d, q, cap)


@glob("cumulatives")
def _(g, n):
    k = g.k(1, 3)
    s = g.A(g.mixi(k, 0, 3))
    d = g.A(g.cints([g.r.randint(0, 3) for _ in range(k)]))
    q = g.A(g.cints([g.r.randint(0, 2) for _ in range(k)]))
    mk = g.k(1, 2)
    mach = g.A(g.mixi(k, 1, mk, .3))
    cap = g.A(g.cints([g.r.randint(0, 3) for _ in range(mk)]))
    j = O("g_cumulatives", "b", s, d, q, mach, cap)
    return N(j, "cumulatives(%s)" % ", ".join(["start: " + s.s, "duration: " + d.s, "resource: " + q.s, "machine: " + mach.s, "upper_bound: " + cap.s]), "b")


@glob("disjunctive", "disjunctive_strict")
def _(g, n):
    k = g.k(1, 3)
    opt = g.r.random() < .4
    s = g.A(g.mixo(k) if opt else g.mixi(k, 0, 4))
    d = g.A(g.cints([g.r.randint(0, 3) for _ in range(k)]) if g.r.random() < .5 else g.mixi(k, 0, 3, .4))
    return g.b(n, "g_" + n + ("_opt" if opt else ""), s, d)


@glob("diffn", "diffn_nonstrict")
def _(g, n):
    k = g.k(2, 3)
    z = lambda: g.A(g.cints([g.r.randint(0, 2) for _ in range(k)]) if g.r.random() < .7 else g.mixi(k, 0, 2, .6))
    return g.b(n, "g_" + n, g.A(g.mixi(k, 0, 3, .3)), g.A(g.mixi(k, 0, 3, .3)), z(), z())


@glob("diffn_k", "diffn_nonstrict_k")
def _(g, n):
    k, q = 2, g.k(1, 2)
    es = g.mixi(k * q, 0, 3, .2)
    ds = g.cints([g.r.randint(0, 2) for _ in range(k * q)]) if g.r.random() < .7 else g.mixi(k * q, 0, 2, .6)
    return g.b(n, "g_" + n, g.A2([es[i * q:(i + 1) * q] for i in range(k)]), g.A2([ds[i * q:(i + 1) * q] for i in range(k)]))


@glob("decreasing", "increasing", "strictly_decreasing", "strictly_increasing", w=1)
def _(g, n):
    o = "g_" + ("s" if n.startswith("strictly") else "") + n.split("_")[-1][:3]
    x = g.r.random()
    if x < .4:
        return g.b(n, o, g.AX(g.mixi(g.ke())))
    if x < .55 and not n.startswith("strictly"):
        return g.b(n, o, g.AX(g.mixb(g.ke()), "b"))
    if x < .8:
        return g.b(n, o + "_opt", g.AX(g.mixo(g.k(2, 3))))
    return g.b(n, o + "_set", g.AX(g.mixs(g.k(2, 3)), "s"))


@glob("disjoint")
def _(g, n):
    a, b = g.mixs(2)
    return g.b(n, "g_disjoint", a, b)


@glob("distribute", "distribute_fn")
def _(g, n):
    k = g.k(1, 2)
    cov = g.A(g.mixi(k))
    xs = g.A(g.mixi(g.k(1, 3)), "i", g.base())
    cnt = g.mixi(k, 0, 3)
    f = N(O("g_distribute", "a", cov, xs), "distribute(%s, %s)" % (cov.s, xs.s), "a")
    if n == "distribute":
        ca = g.A(cnt)
        return N(O("aeq", "b", f, ca), "distribute(%s, %s, %s)" % (ca.s, cov.s, xs.s), "b")
    return g.aeq(f, cnt)


@glob("element")
def _(g, n):
    b = g.base()
    k = g.k(1, 3)
    x = g.r.random()
    es, t, y = (g.mixi(k), "i", g.iv()) if x < .5 else (g.mixb(k), "b", g.bools(1)[0]) if x < .75 else (g.mixs(k), "s", g.mixs(1)[0])
    i = g.ints(1, b - 1, b + k)[0] if t != "b" else g.ints(1, b, b + k - 1)[0] if k > 1 else ic(b)
    a = g.A(es, t, b)
    acc = {"k": "acc", "t": t if t != "b" else "x", "r": a.j, "a": [i.j]}
    return N(O("=", "b", acc, y), "element(%s, %s, %s)" % (i.s, a.s, y.s), "b")


@glob("global_cardinality", "global_cardinality_closed", "global_cardinality_low_up", "global_cardinality_low_up_closed",
      "global_cardinality_fn", w=1.5)
def _(g, n):
    closed = n.endswith("closed")
    lu = "low_up" in n
    if n in ("global_cardinality", "global_cardinality_closed") and g.r.random() < .4:
        lu = True
    x = g.r.random()
    k = g.k(1, 3)
    cv = sorted(g.r.sample(range(-1, 4), k), key=lambda z: g.r.random())
    opt = x < .25 and "low_up" not in n
    st = .25 <= x < .35 and "low_up" not in n and n != "global_cardinality_fn" and not closed
    if st:
        xes = g.mixs(g.k(1, 3), [1, 2, 3])
        xs = g.AX(xes, "s")
    else:
        xes = g.mixo(g.k(1, 3)) if opt else g.mixi(g.ke())
        xs = g.AX(xes)
    cover = g.A(g.cints(cv))
    d = O("g_distribute_opt" if opt else "g_distribute_set" if st else "g_distribute", "a", cover, xs)
    nm = "global_cardinality" + ("_closed" if closed and "low_up" not in n else "")
    if "low_up" in n:
        nm = n
    if lu:
        # (positive lower bounds over no variables are documented to be an error)
        lo = [g.r.randint(0, 1) if len(xes) > 0 else 0 for _ in range(k)]
        up = [v + g.r.randint(0, 2) for v in lo]
        L, U = g.A(g.cints(lo)), g.A(g.cints(up))
        j = O("g_between", "b", d, L, U)
        s = "%s(%s, %s, %s, %s)" % (nm, xs.s, cover.s, L.s, U.s)
    else:
        cnt = g.mixi(k, 0, 3)
        if n == "global_cardinality_fn":
            return g.aeq(N(d, "global_cardinality(%s, %s)" % (xs.s, cover.s), "a"), cnt)
        ca = g.A(cnt)
        j = O("aeq", "b", d, ca)
        s = "%s(%s, %s, %s)" % (nm, xs.s, cover.s, ca.s)
    if closed:
        j = O("and", "b", j, O("g_closed_opt" if opt else "g_closed", "b", xs, cover))
    return N(j, s, "b")


@glob("int_set_channel")
def _(g, n):
    b, c = g.base(), g.base()
    k, q = g.k(1, 2), g.k(1, 2)
    return g.b(n, "g_int_set_channel", g.A(g.mixi(k, c, c + q - 1, .1), "i", b), g.A(g.mixs(q, list(range(b, b + k)) if k > 1 else [b, b + 1]), "s", c))


@glob("inverse", "inverse_in_range", "inverse_fn")
def _(g, n):
    b, c = g.base(), g.base()
    k = g.k(1, 3)
    q = k if n != "inverse_in_range" or g.r.random() < .5 else g.k(1, 3)
    o = 1 if g.r.random() < .25 else 0
    f = g.mixi(k, c - (n == "inverse_in_range" or o), c + q - 1 + (n == "inverse_in_range" or o), .1)
    v = g.mixi(q, b - (n == "inverse_in_range"), b + k - 1 + (n == "inverse_in_range"), .1)
    if n == "inverse_fn":
        return None
    return g.b(n, "g_" + n, g.A(f, "i", b), g.A(v, "i", c))


@glob("inverse_set")
def _(g, n):
    k, q = 2, g.k(1, 2)
    return g.b(n, "g_inverse_set", g.A(g.mixs(k, list(range(1, q + 2))), "s"), g.A(g.mixs(q, [1, 2]), "s"))


@glob("knapsack")
def _(g, n):
    k = g.k(1, 3)
    w, p = [g.A(g.cints([g.r.randint(0, 3) for _ in range(k)])) for _ in "ab"]
    return g.b(n, "g_knapsack", w, p, g.A(g.mixi(k, -1 if g.r.random() < .2 else 0, 2)), g.iv(0, 6), g.iv(0, 6))


@glob("lex_less", "lex_lesseq", "lex_greater", "lex_greatereq", w=1.5)
def _(g, n):
    k = g.k(1, 3)
    q = k if g.r.random() < .6 or EQLEN and "eq" in n else g.ke(3)
    x = g.r.random()
    t = "i" if x < .5 else "b" if x < .8 else "s"
    f = {"i": g.mixi, "b": g.mixb, "s": g.mixs}[t]
    if t == "s":
        k, q = min(k, 2), min(q, 2)
    a, b = g.A(f(k), t, g.base()), g.A(f(q), t, g.base())
    o = {"lex_less": "g_lex_less", "lex_greater": "g_lex_less", "lex_lesseq": "g_lex_lesseq", "lex_greatereq": "g_lex_lesseq"}[n] + ("_set" if t == "s" else "")
    p = (b, a) if "greater" in n else (a, b)
    return N(O(o, "b", *p), "%s(%s, %s)" % (n, a.s, b.s), "b")


@glob("lex_chain_less", "lex_chain_lesseq", "lex_chain_greater", "lex_chain_greatereq", "lex_chain", "lex2", "lex2_strict", "strict_lex2",
      "lex_chain_lesseq_orbitope", "lex_chain_greatereq_orbitope")
def _(g, n):
    p, q = g.k(1, 3), g.k(1, 2)
    if g.r.random() < .5:
        p, q = q, p
    t = "b" if "chain" in n and g.r.random() < .4 else "i"
    orb = n.endswith("orbitope")
    if orb:
        t = "i"
        es = g.mixi(p * q, 0, 1, .1)
    else:
        es = g.mixi(p * q) if t == "i" else g.mixb(p * q)
    a = g.A2([es[i * q:(i + 1) * q] for i in range(p)], t, g.base(), g.base())
    if orb:
        k = ic(g.r.randint(0, 2))
        ln = "less" if "lesseq" in n else "greater"
        return N(O("and", "b", O("g_lex_chain_%seq" % ln, "b", a), O("g_orbitope", "b", a, k)), "%s(%s, %s)" % (n, a.s, k.s), "b")
    o = {"lex_chain": "g_lex_chain_lesseq", "strict_lex2": "g_lex2_strict"}.get(n, "g_" + n)
    return g.b(n, o, a)


@glob("link_set_to_booleans")
def _(g, n):
    u = list(range(g.base(), 0))
    b = g.base()
    k = g.k(2, 3)
    return g.b(n, "g_link", g.sets(1, list(range(b, b + k)))[0], g.A(g.mixb(k), "b", b))


@glob("maximum", "minimum")
def _(g, n):
    a, y = g.AX(g.mixi(g.k(1, 4))), g.iv()
    return N(O("=", "b", O(n[:3], "i", a), y), "%s(%s, %s)" % (n, y.s, a.s), "b")


@glob("member")
def _(g, n):
    x = g.r.random()
    if x < .4:
        return g.b(n, "g_member", g.AX(g.mixi(g.k(1, 4))), g.iv())
    if x < .6:
        return g.b(n, "g_member", g.AX(g.mixb(g.k(1, 4)), "b"), g.bools(1)[0])
    if x < .8:
        return g.b(n, "g_member", g.AX(g.mixs(g.k(1, 2)), "s"), g.mixs(1)[0])
    s, y = g.mixs(1)[0], g.iv()
    return N(O("in", "b", y, s), "member(%s, %s)" % (s.s, y.s), "b")


@glob("nvalue", "nvalue_fn")
def _(g, n):
    opt = g.r.random() < .25
    a = g.AX(g.mixo(g.k(1, 3)) if opt else g.mixi(g.ke()))
    f = N(O("g_nvalue" + ("_opt" if opt else ""), "i", a), "nvalue(%s)" % a.s, "i", 0, 4)
    if n == "nvalue":
        y = g.iv()
        return N(O("=", "b", f, y), "nvalue(%s, %s)" % (y.s, a.s), "b")
    return g.eq(f)


@glob("partition_set")
def _(g, n):
    u = g.r.choice([[1, 2], [1, 2, 3], [0, 1, 2]])
    v = u if g.r.random() < .7 else u[:-1]
    return g.b(n, "g_partition", g.AX(g.mixs(g.k(1, 3), u), "s"), N({"k": "set", "a": [ic(x).j for x in v]}, "%d..%d" % (v[0], v[-1]), "s", 0, 0, True))


@glob("range", "range_fn", "roots", "roots_fn")
def _(g, n):
    b = g.base()
    k = g.k(1, 3)
    a = g.A(g.mixi(k, 0, 3), "i", b)
    if n.startswith("range"):
        d = g.sets(1, list(range(b, b + max(2, k))))[0] if k >= 2 else None
        if d is None:
            return None
        im = g.mixs(1, [0, 1, 2])[0]
        f = O("g_range", "s", a, d)
        if n == "range":
            return N(O("=", "b", f, im), "range(%s, %s, %s)" % (a.s, d.s, im.s), "b")
        if b != 1:
            return None
        return N(O("=", "b", f, im), "(range(%s, %s) = %s)" % (a.s, d.s, im.s), "b")
    im = g.mixs(1, [0, 1, 2])[0]
    if k < 2:
        return None
    pre = g.mixs(1, list(range(b, b + k)))[0]
    f = O("g_roots", "s", a, im)
    if n == "roots":
        return N(O("=", "b", f, pre), "roots(%s, %s, %s)" % (a.s, pre.s, im.s), "b")
    return N(O("=", "b", f, pre), "(roots(%s, %s) = %s)" % (a.s, im.s, pre.s), "b")


def _nfa(g, det):
    Q, S = g.k(1, 3), g.k(1, 3)
    if det:
        d = [[ic(g.r.choice([0] + list(range(1, Q + 1)) * 2)) for _ in range(S)] for _ in range(Q)]
    else:
        d = []
        for _ in range(Q):
            row = []
            for _ in range(S):
                v = sorted(g.r.sample(range(1, Q + 1), g.r.randint(0, Q)))
                row.append(N({"k": "set", "a": [ic(x).j for x in v]}, "{%s}" % ", ".join(map(str, v)) if v else "{}", "s", 0, 0, True))
            d.append(row)
    F = sorted(g.r.sample(range(1, Q + 1), g.r.randint(0 if g.r.random() < .2 else 1, Q)))
    return Q, S, d, ic(g.r.randint(1, Q)), N({"k": "set", "a": [ic(x).j for x in F]}, "{%s}" % ", ".join(map(str, F)), "s", 0, 0, True)


@glob("regular", "regular_nfa", "cost_regular", w=1.5)
def _(g, n):
    Q, S, d, q0, F = _nfa(g, n != "regular_nfa")
    k = g.ke(3)
    o = 1 if g.r.random() < .2 else 0
    off = g.r.choice([1, 1, 1, 0, 2, -1]) if n != "cost_regular" else 1
    xs = g.A(g.mixi(k, off - o, off + S - 1 + o, .1), "i", g.base())
    if n == "cost_regular":
        xs = g.A(g.mixi(k, 1, S, .1))
        D = g.A2(d)
        C = g.A2([[ic(g.r.randint(0, 2)) for _ in range(S)] for _ in range(Q)])
        y = g.iv(0, 6)
        return N(O("g_cost_regular", "b", xs, D, q0, F, C, y), "cost_regular(%s)" % ", ".join([xs.s, str(Q), str(S), D.s, q0.s, F.s, C.s, y.s]), "b")
    D = g.A2(d, "i", 1, off)
    so = "%d" % S if off == 1 and g.r.random() < .6 else rg(off, off + S - 1)
    if off == 1 and so == str(S):
        pass
    return N(O("g_" + n, "b", xs, D, q0, F), "%s(%s)" % (n, ", ".join([xs.s, str(Q), so, D.s, q0.s, F.s])), "b")


def _re(r, d, S):
    """(tree, text) of a random regular expression over 1..S"""
    x = r.random()
    if d == 0 or x < .25:
        y = r.random()
        if y < .6:
            v = r.randint(1, S)
            return ["sym", [v]], "%d " % v
        if y < .75:
            return ["any"], ". "
        v = sorted(r.sample(range(1, S + 1), r.randint(1, S)))
        if y < .9 or len(v) == S:
            return ["sym", v], "[%s]" % " ".join(map(str, v))
        return ["nsym", v], "[^%s]" % " ".join(map(str, v))
    if x < .55:
        a, b = _re(r, d - 1, S), _re(r, d - 1, S)
        return ["cat", a[0], b[0]], "(%s)(%s)" % (a[1], b[1]) if r.random() < .5 else "(%s)%s" % (a[1], "(%s)" % b[1])
    if x < .7:
        a, b = _re(r, d - 1, S), _re(r, d - 1, S)
        return ["alt", a[0], b[0]], "((%s)|(%s))" % (a[1], b[1])
    a = _re(r, d - 1, S)
    k = r.choice(["star", "plus", "opt", "rep", "rep2", "rep3"])
    if k in ("star", "plus", "opt"):
        return [k, a[0]], "(%s)%s" % (a[1], {"star": "*", "plus": "+", "opt": "?"}[k])
    if k == "rep":
        return ["cat", a[0], a[0]], "(%s){2}" % a[1]
    if k == "rep2":
        return ["cat", a[0], ["opt", a[0]]], "(%s){1,2}" % a[1]
    return ["cat", a[0], ["star", a[0]]], "(%s){1,}" % a[1]


@glob("regexp")
def _(g, n):
    S = g.k(2, 3)
    xs = g.A(g.mixi(g.k(1, 4), 1, S, .1), "i", 1)
    tree, text = _re(g.r, g.k(1, 3), S)
    return N(O("g_regexp", "b", xs, {"k": "c", "v": tree}), 'regular(%s, "%s")' % (xs.s, text.strip()), "b")


@glob("seq_precede_chain", "value_precede", "value_precede_chain")
def _(g, n):
    if n == "seq_precede_chain":
        return g.b(n, "g_seq_precede_chain_int" if 0 else "g_seq_precede_chain", g.A(g.mixi(g.ke()), "i", g.base()))
    x = g.r.random()
    if x < .5:
        xs, o = g.A(g.mixi(g.ke() if n == "value_precede" else g.k(1, 4)), "i", g.base()), ""
    elif x < .75:
        xs, o = g.A(g.mixo(g.k(1, 3)), "i", g.base()), "_opt"
    else:
        xs, o = g.A(g.mixs(g.k(1, 3), [1, 2, 3]), "s", g.base()), "_set"
    if n == "value_precede":
        a, b = g.r.sample([0, 1, 2, 3], 2)
        return g.b(n, "g_value_precede" + o, ic(a), ic(b), xs)
    return g.b(n, "g_value_precede_chain" + o, g.A(g.cints(g.r.sample([0, 1, 2, 3], g.k(1, 3))), "i", g.base()), xs)


@glob("sliding_sum", "sliding_among")
def _(g, n):
    k = g.k(1, 4)
    w = ic(g.r.randint(1, k))
    lo = g.r.randint(0, 2)
    up = lo + g.r.randint(0, 2)
    if n == "sliding_sum":
        return g.b(n, "g_sliding_sum", ic(lo), ic(up + 1), w, g.A(g.mixi(k), "i", g.base()))
    if g.r.random() < .5:
        return g.b(n, "g_sliding_among", ic(lo), ic(up), w, g.AX(g.mixi(k)), g.cset())
    return g.b(n, "g_sliding_among_bool", ic(lo), ic(up), w, g.AX(g.mixb(k), "b"), bc(g.r.random() < .5))


@glob("span", "alternative")
def _(g, n):
    k = g.k(1, 2)
    s0 = g.mixo(1, [0, 1, 2])[0]
    if s0.par:
        s0 = g.opts(1, [0, 1, 2])[0]
    d0 = g.iv(0, 4)
    s = g.mixo(k, [0, 1])
    s = g.A([g.opts(1, [0, 1])[0] if e.s == "<>" else e for e in s])    # known finding K5: <> ~+ duration has no bounds
    d = g.A(g.cints([g.r.randint(0, 3) for _ in range(k)]) if g.r.random() < .6 else g.mixi(k, 0, 2, .4))
    return g.b(n, "g_" + n, s0, d0, s, d)


def k5():
    """known finding K5: max_weak over an absent element without bounds is inconsistent"""
    v = lambda n: {"k": "v", "n": n}
    arr = lambda *e: {"k": "arrnd", "ix": [[1, len(e)]], "a": list(e)}
    lines = ['include "globals.mzn";', "constraint alternative(o1, x2, [o3, <>], [1, x4]);", "var 0..1: x4 :: add_to_output;",
             "var opt 0..1: o1 :: add_to_output;", "var 0..1: x2 :: add_to_output;", "var opt 0..1: o3 :: add_to_output;", "solve satisfy;"]
    e = {"k": "o", "o": "g_alternative", "t": "b", "a": [v("o1"), v("x2"), arr(v("o3"), {"k": "absent"}), arr(ic(1).j, v("x4"))]}
    return dict(text="\n".join(lines) + "\n", vars=[{"n": "o1", "ty": "oi", "d": [[], [0], [1]]}, {"n": "x2", "ty": "i", "d": [0, 1]},
                                                    {"n": "o3", "ty": "oi", "d": [[], [0], [1]]}, {"n": "x4", "ty": "i", "d": [0, 1]}],
                items=[{"n": "", "e": e}], funs={"_": 0}, out=["o1", "x2", "o3", "x4"], oty=["oi", "i", "oi", "i"],
                goal="sat", obj=ic(0).j, limit=0, flags=["-G", "std"], solver="enumfzn", glob="alternative", key="K5")


@glob("sum_pred", "sum_set")
def _(g, n):
    if n == "sum_pred":
        k = g.k(1, 3)
        b = g.base()
        i = g.ints(1, b, b + k - 1)[0] if k > 1 else ic(b)
        u = [1, 2, 3]
        st = g.A([g.cset(u) for _ in range(k)], "s", b)
        cf = g.A(g.cints([g.r.randint(-1, 3) for _ in u]))
        y = g.iv()
        return N(O("=", "b", O("g_sum_pred", "i", i, st, cf), y), "sum_pred(%s)" % ", ".join([i.s, st.s, cf.s, y.s]), "b")
    vals = g.r.sample([0, 1, 2, 3], g.k(1, 3))
    a = g.A(g.cints(vals))
    w = g.A(g.cints([g.r.randint(-1, 3) for _ in vals]))
    s, y = g.sets(1, [0, 1, 2])[0], g.iv()
    return N(O("=", "b", O("g_sum_set", "i", a, w, s), y), "sum_set(%s)" % ", ".join([a.s, w.s, s.s, y.s]), "b")


@glob("table", w=1.5)
def _(g, n):
    k = g.k(1, 3)
    nr = g.k(1, 4)
    b = g.base()
    if g.r.random() < .7:
        xs = g.mixi(k, -1, 3)
        dm = [[v for v in range(-1, 4)] for _ in range(k)]
        rows = [[ic(g.r.choice(dm[c])) for c in range(k)] for _ in range(nr)]
        return g.b(n, "g_table", g.A(xs, "i", b), g.A2(rows, "i", g.base(), b))
    xs = g.mixb(k)
    rows = [[bc(g.r.random() < .5) for _ in range(k)] for _ in range(nr)]
    return g.b(n, "g_table", g.A(xs, "b", b), g.A2(rows, "b", g.base(), b))


@glob("var_perm_sym", "var_sqr_sym", w=.6)
def _(g, n):
    if n == "var_sqr_sym":
        es = g.mixi(4, 0, 2)
        return g.b(n, "g_var_sqr_sym", g.A2([es[:2], es[2:]]))
    k = g.k(2, 3)
    ps = g.r.sample(list(itertools.permutations(range(1, k + 1))), 2)
    return g.b(n, "g_var_perm_sym", g.A(g.mixi(k)), g.A2([[ic(v) for v in p] for p in ps]))


@glob("write", "write_fn", "writes", "writes_seq", "writes_seq_fn")
def _(g, n):
    b = g.base()
    k = g.k(1, 3)
    I = g.A(g.mixi(k, 0, 2, .4), "i", b)
    Oa = g.A(g.mixi(k, 0, 2, .2), "i", b)
    if n.startswith("write_") or n == "write":
        i, v = (g.ints(1, b, b + k - 1)[0] if k > 1 else ic(b)), g.iv(0, 2)
        f = N(O("g_write", "a", I, i, v), "write(%s, %s, %s)" % (I.s, i.s, v.s), "a")
        if n == "write":
            return N(O("aeq", "b", f, Oa), "write(%s, %s, %s, %s)" % (I.s, i.s, v.s, Oa.s), "b")
        return N(O("aeq", "b", f, Oa), "(array1d(%s) = array1d(%s))" % (f.s, Oa.s), "b")
    q = g.k(1, 2)
    P, V = g.A(g.mixi(q, b, b + k - 1, .3)) if k > 1 else g.A([ic(b)] * q), g.A(g.mixi(q, 0, 2, .3))
    if n == "writes":
        return g.b(n, "g_writes_rel", I, P, V, Oa)
    f = N(O("g_writes_seq", "a", I, P, V), "writes_seq(%s, %s, %s)" % (I.s, P.s, V.s), "a")
    if n == "writes_seq":
        return N(O("aeq", "b", f, Oa), "writes_seq(%s, %s, %s, %s)" % (I.s, P.s, V.s, Oa.s), "b")
    return N(O("aeq", "b", f, Oa), "(array1d(%s) = array1d(%s))" % (f.s, Oa.s), "b")


@glob("geost", "geost_bb", w=.8)
def _(g, n):
    K = g.k(1, 2)
    nb = g.k(1, 2)
    rs = g.A2([[ic(g.r.randint(1, 2)) for _ in range(K)] for _ in range(nb)])
    ro = g.A2([[ic(g.r.randint(0, 1)) for _ in range(K)] for _ in range(nb)])
    ns = g.k(1, 2)
    shapes = []
    for _ in range(ns):
        v = sorted(g.r.sample(range(1, nb + 1), g.r.randint(1, nb)))
        shapes.append(N({"k": "set", "a": [ic(x).j for x in v]}, "{%s}" % ", ".join(map(str, v)), "s", 0, 0, True))
    sh = g.A(shapes, "s")
    es = g.mixi(2 * K, 0, 3, .2, False)
    xs = g.A2([es[:K], es[K:]])
    kd = g.A(g.mixi(2, 1, ns, .4))
    j = O("g_geost", "b", rs, ro, sh, xs, kd)
    args = [rs, ro, sh, xs, kd]
    if n == "geost_bb":
        lo, up = g.A(g.cints([g.r.randint(0, 1)] * K)), g.A(g.cints([g.r.randint(2, 5) for _ in range(K)]))
        j = O("and", "b", j, O("g_geost_bb", "b", *args, lo, up))
        args += [lo, up]
    return N(j, "%s(%s)" % (n, ", ".join([str(K)] + [a.s for a in args])), "b")


NAMES = sorted(REG)
# the library declares these to have no reified version ("Reified ... is not supported")
POSONLY = {"circuit", "subcircuit", "connected", "dconnected", "cost_regular", "dag", "dreachable", "reachable", "dpath", "path",
           "bounded_dpath", "bounded_path", "dsteiner", "steiner", "dtree", "tree", "d_weighted_spanning_tree",
           "weighted_spanning_tree", "regular_nfa", "seq_precede_chain", "value_precede", "value_precede_chain",
           # functions that constrain a fresh result (also documented to force their argument), predicates without reified form
           "minimum", "maximum", "write_fn", "writes_seq_fn", "arg_val", "arg_val_weak"}


def names_for(pid, n, r):
    out = []
    while len(out) < n:
        p = [x for x in NAMES if pid == "S12" or x not in POSONLY for _ in range(1 if REG[x][1] <= 1 else 2)]
        r.shuffle(p)
        out += p
    return out[:n]


def case(r, name, reif):
    for _ in range(30):
        solver, flags = r.choice([("gecode", ["-G", "std"])] * 3 + [("enumfzn", [])] * 2)
        m = Model(r, {})
        g = G(m, solver)
        if reif:
            g.lim = 100
        n = REG[name][0](g, name)
        if n is None or n.par or m.size > (400 if reif else 3000) or not m.vars:
            continue
        if reif and name in ("table", "bin_packing_load") and not all(v["ty"] == "i" for v in m.vars):
            continue
        if not reif:
            x = r.random()
            if x < .8:
                m.constraint(n)
            else:
                k = g_bool(Ctx(r, {}, [v for v in m.c.scope if v.ty in "ib"][:3]), 1)
                m.constraint(N(O("and", "b", n, k), "(%s /\\ %s)" % (n.s, k.s), "b"))
            if r.random() < .15 and m.size < 60:
                n2 = None
                nm2 = r.choice(NAMES)
                n2 = REG[nm2][0](g, nm2)
                if n2 is not None and not n2.par and m.size <= 600:
                    m.constraint(n2)
        else:
            x = r.random()
            if x < .35:
                m.define(n, "b")
            elif x < .5:
                m.constraint(N(O("not", "b", n), "not (%s)" % n.s, "b"))
            else:
                if x < .85 or m.size > 150:
                    if not [v for v in m.c.scope if v.ty == "b"] and m.size < 400:
                        m.add_bool()
                    sc = [v for v in m.c.scope if v.ty in "ib"]
                    h = g_bool(Ctx(r, {}, sc), 1)
                else:
                    nm2 = r.choice([x for x in NAMES if x not in POSONLY])
                    h = REG[nm2][0](g, nm2)
                    if h is None or h.par or (nm2 in ("table", "bin_packing_load") and not all(v["ty"] == "i" for v in m.vars)):
                        continue
                o = r.choice(["->", "<->", "or", "xor", "<-", "->"])
                a, b = (n, h) if r.random() < .5 else (h, n)
                e = N(O(o, "b", a, b), "(%s %s %s)" % (a.s, {"or": "\\/"}.get(o, o), b.s), "b")
                if r.random() < .2:
                    e = N(O("not", "b", e), "not " + e.s, "b")
                if r.random() < .5:
                    m.define(e, "b")
                else:
                    m.constraint(e)
        if m.size > (800 if reif else 3000):
            continue
        c = m.case(solver=solver, flags=flags)
        c["text"] = 'include "globals.mzn";\n' + c["text"]
        c["src"] = ['include "globals.mzn";'] + c["src"]
        c["glob"] = name
        return c
    return None


def run(ck):
    n = ck.n(560, 560 * 20)
    done = 0
    seen = {}
    while done < n:
        k = min(4000, n - done)
        cs = [c for c in (case(ck.rng, nm, ck.pid == "S13") for nm in names_for(ck.pid, k, ck.rng)) if c]
        if ck.pid == "S12" and not done:
            cs.append(k5())
        for c in cs:
            seen[c["glob"]] = seen.get(c["glob"], 0) + 1
        check_cases(ck, cs, ck.pid)
        done += k
    ck.cov["constraints_covered"] = len(seen)
    ck.cov["per_constraint"] = seen
