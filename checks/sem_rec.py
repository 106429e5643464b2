"""S06 tuples, records and enumerated types."""
import itertools, re
from sem import *
from sem_more import base

# types: ("i",) ("b",) ("e", Enum) ("t", T, T, ...) ("r", (name, T), ...) sorted by name  ("a", lo, hi, T, Enum or None)


class Enum:
    def __init__(self, name, decl, vals, ctors):
        self.name, self.decl, self.vals, self.ctors = name, decl, vals, ctors      # vals: [(program text, JSON text)]
        self.n = len(vals)


class V:
    """structured value: spec tree, text, type, par"""
    __slots__ = ("j", "s", "t", "par")

    def __init__(self, j, s, t, par=False):
        self.j, self.s, self.t, self.par = j, s, t, par


def comps(t):
    return [x for x in t[1:]] if t[0] == "t" else [x[1] for x in t[1:]]


def strip(t):
    """the type without value bounds, for comparing types"""
    if t[0] == "i":
        return ("i",)
    if t[0] == "t":
        return ("t",) + tuple(strip(x) for x in t[1:])
    if t[0] == "r":
        return ("r",) + tuple((n, strip(x)) for n, x in t[1:])
    if t[0] == "a":
        return ("a", t[1], t[2], strip(t[3]), t[4])
    return t


def fld(v, i):
    """component i (0-based) of a tuple or record"""
    if v.t[0] == "t":
        return V({"k": "fld", "t": tyk(v.t[1 + i]), "r": v.j, "i": i + 1}, "%s.%d" % (v.s, i + 1), v.t[1 + i], v.par)
    return V({"k": "fld", "t": tyk(v.t[1 + i][1]), "r": v.j, "i": i + 1}, "%s.%s" % (v.s, v.t[1 + i][0]), v.t[1 + i][1], v.par)


def tyk(t):
    return {"i": "i", "b": "b", "e": "i"}.get(t[0], t[0])


def at(v, k):
    lo, hi, T, E = v.t[1:5]
    x = E.vals[k - 1][0] if E else str(k) if k >= 0 else "(%d)" % k
    return V({"k": "acc", "t": tyk(T), "r": v.j, "a": [ic(k).j]}, "%s[%s]" % (v.s, x), T, v.par)


def leaves(v):
    t = v.t
    if t[0] in "ibe":
        return [v]
    if t[0] == "a":
        return [x for k in range(t[1], t[2] + 1) for x in leaves(at(v, k))]
    return [x for i in range(len(t) - 1) for x in leaves(fld(v, i))]


def order(v):
    """leaves as integers, for lexicographic comparison"""
    return {"k": "arr", "a": [x.j if x.t[0] != "b" else {"k": "o", "o": "bool2int", "t": "i", "a": [x.j]} for x in leaves(v)]}


def has_arr(t):
    return t[0] == "a" or (t[0] in "tr" and any(has_arr(x) for x in comps(t)))


class Rec:
    def __init__(self, r):
        self.r = r
        self.m = base(r, dict(ite=.6, let=.3), (1, 2), .5)
        self.c = self.m.c
        self.enums, self.emap, self.types, self.pool = [], {}, [], []
        self.nest = 0

    # ------------------------------------------------------------ declarations
    def add_enum(self):
        r = self.r
        k = len(self.enums)
        nm = "EFGHK"[k]
        parts, vals, ctors = [], [], []
        for q in range(r.choice([1, 1, 1, 2, 2, 3])):
            x = r.random()
            cn = "%s%sc" % (nm, "xyz"[q])
            if x < .5 or (x < .75 and not self.enums):
                ns = ["%s%s%d" % (nm, "abc"[q], i) for i in range(r.randint(1, 3 if q == 0 else 2))]
                r.shuffle(ns)           # names in no alphabetical order
                parts.append(r.choice(["{%s}", "{ %s }"]) % ", ".join(ns))
                vals += [(n, n) for n in ns]
            elif x < .75:
                E = r.choice(self.enums)
                idx = list(range(E.n))
                txt = E.name
                if r.random() < .3 and E.n > 1:
                    idx = sorted(r.sample(idx, E.n - 1))
                    txt = "{%s}" % ", ".join(E.vals[i][0] for i in idx)
                ctors.append((cn, len(vals), E, [i + 1 for i in idx]))
                vals += [("%s(%s)" % (cn, E.vals[i][0]), "%s(%s)" % (cn, E.vals[i][1])) for i in idx]
                parts.append("%s(%s)" % (cn, txt))
            elif x < .92 or q:
                lo = r.randint(-1, 3)
                src = list(range(lo, lo + r.randint(1, 2)))
                txt = "%s..%s" % (("(%d)" % src[0]) if src[0] < 0 else src[0], src[-1])
                if r.random() < .3:
                    src = [lo, lo + 2]
                    txt = "{%d, %d}" % tuple(src)
                ctors.append((cn, len(vals), None, src))
                vals += [("%s(%d)" % (cn, i), "%s(%d)" % (cn, i)) for i in src]
                parts.append("%s(%s)" % (cn, txt))
            else:
                n = r.randint(1, 3)
                parts.append(r.choice(["_(1..%d)", "anon_enum(%d)"]) % n)
                vals += [("to_enum(%s, %d)" % (nm, i + 1), "to_enum(%s,%d)" % (nm, i + 1)) for i in range(n)]
                break
        if len(vals) > 6:
            return
        E = Enum(nm, "enum %s = %s;" % (nm, " ++ ".join(parts)), vals, ctors)
        for i, (_, t) in enumerate(vals):
            self.emap[t] = i + 1
        self.enums.append(E)
        self.m.text.append(E.decl)

    def leaf_type(self):
        x = self.r.random()
        if x < .45:
            return ("i",)
        if x < .7 or not self.enums:
            return ("b",)
        return ("e", self.r.choice(self.enums))

    def new_type(self, d=1):
        r = self.r
        x = r.random()

        def sub():
            y = r.random()
            if y < .75 or d <= 0:
                return self.leaf_type()
            if y < .87:
                lo = r.choice([1, 1, 0, 2])
                return ("a", lo, lo + r.randint(0, 1), self.leaf_type(), None)
            return self.new_type(d - 1)
        if x < .5:
            return ("t",) + tuple(sub() for _ in range(r.randint(2, 3)))
        ns = sorted(r.sample(["a", "b", "f", "name", "x", "y1", "z"], r.choice([1, 2, 2, 3])))
        return ("r",) + tuple((n, sub()) for n in ns)

    def ttext(self, t, var, dom=None):
        """type text; dom: iterator over leaf domains (texts)"""
        k = t[0]
        if k in "ibe":
            d = dom and next(dom)
            b = d or {"i": "int", "b": "bool"}.get(k) or t[1].name
            return ("var " if var else "") + b
        if k == "t":
            return "tuple(%s)" % ", ".join(self.ttext(x, var, dom) for x in t[1:])
        if k == "r":
            fs = [(n, self.ttext(x, var, dom)) for n, x in t[1:]]
            self.r.shuffle(fs)
            return "record(%s)" % ", ".join("%s: %s" % (b, n) for n, b in fs)
        if t[4]:
            ix = t[4].name
        else:
            ix = "%d..%d" % (t[1], t[2])
        return "array[%s] of %s" % (ix, self.ttext(t[3], var, dom))

    def declare(self, t):
        """variable(s) of structured type"""
        r, m = self.r, self.m
        k = len(self.pool) + len(m.vars)
        nm = "v%d" % k
        leafs = leaves(V({}, "", t))
        doms, txt, size = [], [], 1
        for x in leafs:
            if x.t[0] == "b":
                doms.append([False, True])
                txt.append(None)
            elif x.t[0] == "e":
                if r.random() < .3 and x.t[1].n > 2:
                    d = sorted(r.sample(range(1, x.t[1].n + 1), 2))
                    txt.append("{%s}" % ", ".join(x.t[1].vals[i - 1][0] for i in d))
                else:
                    d = list(range(1, x.t[1].n + 1))
                    txt.append(None)
                doms.append(d)
            else:
                lo = r.choice([-1, 0, 1, 2])
                d = [lo, lo + 1] if r.random() < .7 else [lo, lo + 2]
                doms.append(d)
                txt.append(dom_text(d))
            size *= len(doms[-1])
        if t[0] == "a" and len({x.t for x in leafs}) == 1 or t[0] == "a":    # all elements of an array share the type
            n = max(1, t[2] - t[1] + 1)
            w = len(leafs) // n
            doms = doms[:w] * n
            txt = txt[:w] * n
            size = 1
            for d in doms:
                size *= len(d)
        # nested arrays: one domain per element type, so avoid different ones
        def unify(t, p):
            if t[0] in "ibe":
                return p + 1
            if t[0] == "a":
                w = len(leaves(V({}, "", t[3])))
                unify(t[3], p)
                for q in range(1, t[2] - t[1] + 1):
                    doms[p + q * w:p + (q + 1) * w] = doms[p:p + w]
                    txt[p + q * w:p + (q + 1) * w] = txt[p:p + w]
                return p + w * (t[2] - t[1] + 1)
            for x in comps(t):
                p = unify(x, p)
            return p
        unify(t, 0)
        size = 1
        for d in doms:
            size *= len(d)
        if size * m.size > 400:
            return None
        m.size *= size
        pos = [0]

        def build(t):
            if t[0] in "ibe":
                i = pos[0]
                pos[0] += 1
                n = "%s_%d" % (nm, i)
                m.vars.append({"n": n, "ty": t[0] if t[0] != "e" else "i", "d": doms[i]})
                return {"k": "v", "n": n}
            if t[0] == "a":
                return {"k": "arrnd", "ix": [[t[1], t[2]]], "a": [build(t[3]) for _ in range(t[2] - t[1] + 1)]}
            return {"k": "tup", "a": [build(x) for x in comps(t)]}
        j = build(t)

        # domains in the order of the text: one per leaf of the type, arrays contribute one element type
        def tdoms(t, p):
            if t[0] in "ibe":
                return [txt[p]], p + 1
            if t[0] == "a":
                a, _ = tdoms(t[3], p)
                return a, p + len(leaves(V({}, "", t)))
            out = []
            for x in comps(t):
                a, p = tdoms(x, p)
                out += a
            return out, p
        tt = self.ttext(t, True, iter(tdoms(t, 0)[0]))
        if t[0] in "tr" and r.random() < .25 and not has_arr(t):
            tt = "var " + tt.replace("var ", "")
        # constructor calls over set literals are rejected in a type alias (reported, not judged here)
        if r.random() < .2 and t[0] in "tr" and "(" not in re.sub(r"\b(tuple|record)\(", "", tt):
            al = "T%d" % k
            m.text.append("type %s = %s;" % (al, tt))
            tt = al
        m.text.append("%s: %s :: add_to_output;" % (tt, nm))
        m.items.append({"n": nm, "e": j})
        self.emit(V({"k": "v", "n": nm}, nm, t))

    def emit(self, v):
        """record the value as an output and make it available"""
        m = self.m
        ls = leaves(v)
        m.items.append({"n": v.s + "_o", "e": {"k": "tup", "a": [x.j for x in ls]}})
        m.out.append(v.s + "_o")
        m.oty.append("fl:" + v.s)
        self.pool.append(v)
        for x in ls:
            self.leaf(x)

    def leaf(self, x):
        if x.t[0] == "i":
            self.c.scope.append(N(x.j, x.s, "i", -12, 12, x.par))
        elif x.t[0] == "b":
            self.c.scope.append(N(x.j, x.s, "b", par=x.par))

    # ------------------------------------------------------------ expressions
    def pick(self, t, par=False):
        t = strip(t)
        ok = []
        for v in self.pool:
            ok += [x for x in self.subs(v) if strip(x.t) == t and (x.par or not par)]
        return self.r.choice(ok) if ok else None

    def subs(self, v, d=0):
        """the value and everything selectable from it"""
        out = [v]
        if v.t[0] in "tr":
            for i in range(len(v.t) - 1):
                out += self.subs(fld(v, i), d + 1)
        elif v.t[0] == "a" and v.t[2] >= v.t[1]:
            out += self.subs(at(v, self.r.randint(v.t[1], v.t[2])), d + 1)
            x = self.index(v)
            if x:
                out += self.subs(x, d + 1)
        return out

    def index(self, v):
        """access with a variable index, possibly out of range when that is allowed"""
        lo, hi, T, E = v.t[1:5]
        if has_arr(T):          # not supported: access of an array that contains arrays with a variable
            return None
        if E:
            if d_ := [x for x in self.pool if x.t == ("e", E)]:
                x = self.r.choice(d_)
                return V({"k": "acc", "t": tyk(T), "r": v.j, "a": [x.j]}, "%s[%s]" % (v.s, x.s), T, v.par and x.par)
            return None
        ids = [x for x in self.c.ids("i") if x.s.isidentifier() and x.lo >= lo and x.hi <= hi]
        if not ids:
            return None
        x = self.r.choice(ids)
        return V({"k": "acc", "t": tyk(T), "r": v.j, "a": [x.j]}, "%s[%s]" % (v.s, x.s), T, v.par and x.par)

    def enum(self, E, d=1, par=False, partial=False):
        """expression of enumerated type"""
        r = self.r
        x = r.random()
        if x < .45 or d <= 0:
            v = self.pick(("e", E), par) if r.random() < .75 else None
            if v:
                return v
            i = r.randint(1, E.n)
            return V(ic(i).j, E.vals[i - 1][0], ("e", E), True)
        if x < .6:
            c = g_bool(self.c, 1, par)
            a, b = self.enum(E, d - 1, par, partial), self.enum(E, d - 1, par, partial)
            return V({"k": "if", "t": "i", "a": [c.j, a.j, b.j]}, "if %s then %s else %s endif" % (c.s, a.s, b.s), ("e", E), c.par and a.par and b.par)
        if x < .75 and E.ctors:
            cn, off, S, src = r.choice(E.ctors)
            if S:
                if len(src) == S.n:
                    a = self.enum(S, d - 1, par)
                    return V({"k": "o", "o": "+", "t": "i", "a": [a.j, ic(off).j]}, "%s(%s)" % (cn, a.s), ("e", E), a.par)
                i = r.choice(src)
                return V(ic(off + src.index(i) + 1).j, "%s(%s)" % (cn, S.vals[i - 1][0]), ("e", E), True)
            i = r.choice(src)
            return V(ic(off + src.index(i) + 1).j, "%s(%d)" % (cn, i), ("e", E), True)
        if x < .82:
            o = r.choice(["min2", "max2"])
            a, b = self.enum(E, 0, par), self.enum(E, 0, par)
            return V({"k": "o", "o": o, "t": "i", "a": [a.j, b.j]}, "%s(%s, %s)" % (o[:3], a.s, b.s), ("e", E), a.par and b.par)
        if not partial:
            return self.enum(E, 0, par)
        # partial operations
        o = r.choice(["next", "prev", "to"])
        if o == "to":
            a = g_int(self.c, r.choice([0, 1]), par)
            j, s, p = a.j, "to_enum(%s, %s)" % (E.name, a.s), a.par
            return V({"k": "acc", "t": "i", "r": {"k": "arrnd", "ix": [[1, E.n]], "a": [ic(i + 1).j for i in range(E.n)]}, "a": [j]}, s, ("e", E), p)
        a = self.enum(E, 0, par)
        dl = 1 if o == "next" else -1
        if r.random() < .3:
            s = "enum_%s(%s, %s)" % (o, E.name, a.s)
        else:
            s = "enum_%s(%s)" % (o, a.s)
        return V({"k": "acc", "t": "i", "r": {"k": "arrnd", "ix": [[1, E.n]], "a": [ic(i + 1).j for i in range(E.n)]},
                  "a": [{"k": "o", "o": "+", "t": "i", "a": [a.j, ic(dl).j]}]}, s, ("e", E), a.par)

    def eset(self, E, par=True):
        r = self.r
        x = r.random()
        if x < .5:
            ix = sorted(r.sample(range(1, E.n + 1), r.randint(0, min(3, E.n))))
            if not ix:
                return None
            return {"k": "set", "a": [ic(i).j for i in ix]}, "{%s}" % ", ".join(E.vals[i - 1][0] for i in ix)
        if x < .7 and E.ctors:
            cn, off, S, src = r.choice(E.ctors)
            return {"k": "o", "o": "..", "t": "s", "a": [ic(off + 1).j, ic(off + len(src)).j]}, "%s()" % cn if r.random() < .5 else "%s(%s)" % (
                cn, (S.name if len(src) == S.n else "{%s}" % ", ".join(S.vals[i - 1][0] for i in src)) if S else "{%s}" % ", ".join(map(str, src)))
        a, b = self.enum(E, 0, True), self.enum(E, 0, True)
        return {"k": "o", "o": "..", "t": "s", "a": [a.j, b.j]}, "%s..%s" % (a.s, b.s)

    def value(self, t, d=2, par=False):
        """expression of type t"""
        r, c = self.r, self.c
        k = t[0]
        if k == "i":
            n = g_int(c, r.choice([0, 0, 1]), par)
            return V(n.j, n.s, ("i",), n.par) if abs(n.lo) < 50 and abs(n.hi) < 50 else V(ic(1).j, "1", ("i",), True)
        if k == "b":
            n = g_bool(c, r.choice([0, 0, 1]), par)
            return V(n.j, n.s, ("b",), n.par)
        if k == "e":
            return self.enum(t[1], d - 1, par)
        x = r.random()
        if x < .4 or d <= 0:
            v = self.pick(t, par)
            if v:
                return v
        if d <= 0 and k != "a":
            return self.lit(t, d, par)
        if k == "a":
            lo, hi, T, E = t[1:5]
            y = r.random()
            if y < .3 and not E and hi > lo and T[0] in "tri":
                i = c.fresh("i")
                ni = N({"k": "v", "n": i}, i, "i", lo, hi, True)
                c.scope.append(ni)
                b = self.value(T, d - 1, par)
                c.scope.remove(ni)
                j = {"k": "reix", "ix": [[lo, hi]], "r": {"k": "comp", "c": "arr", "b": b.j,
                     "g": [{"n": i, "c": "set", "e": op("..", "s", ic(lo), ic(hi))}]}}
                if r.random() < .5:
                    return V(j, "[%s: %s | %s in %d..%d]" % (i, b.s, i, lo, hi), t, b.par)
                return V(j, ("%s" if lo == 1 else "array1d(%d..%d, %%s)" % (lo, hi)) % ("[%s | %s in %d..%d]" % (b.s, i, lo, hi)), t, b.par)
            es = [self.value(T, d - 1, par) for _ in range(hi - lo + 1)]
            j = {"k": "arrnd", "ix": [[lo, hi]], "a": [e.j for e in es]}
            if not es:
                return None
            if E and r.random() < .4:
                s = "array1d(%s, [%s])" % (E.name, ", ".join(e.s for e in es))
            elif E:
                s = "[%s]" % ", ".join("%s: %s" % (E.vals[i][0], e.s) for i, e in enumerate(es))
            else:
                s = "[%s]" % ", ".join(e.s for e in es)
                if lo != 1:
                    s = "array1d(%d..%d, %s)" % (lo, hi, s) if r.random() < .5 else "[%s]" % ", ".join("%d: %s" % (lo + i, e.s) for i, e in enumerate(es))
            return V(j, s, t, all(e.par for e in es))
        if x < .55:
            cnd = g_bool(c, 1, par)
            a, b = self.value(t, d - 1, par), self.value(t, d - 1, par)
            if not has_arr(t) or cnd.par:
                return V({"k": "if", "t": k, "a": [cnd.j, a.j, b.j]}, "(if %s then %s else %s endif)" % (cnd.s, a.s, b.s), t,
                         cnd.par and a.par and b.par)
        if x < .68 and k == "r" and len(t) > 2:       # record merge
            q = r.randint(1, len(t) - 2)
            ix = list(range(1, len(t)))
            r.shuffle(ix)
            p1, p2 = sorted(ix[:q]), sorted(ix[q:])
            a = self.value(("r",) + tuple(t[i] for i in p1), d - 1, par)
            b = self.value(("r",) + tuple(t[i] for i in p2), d - 1, par)
            src = {}
            for v, p in ((a, p1), (b, p2)):
                for w, i in enumerate(p):
                    src[i] = fld(v, w).j
            return V({"k": "tup", "a": [src[i] for i in range(1, len(t))]}, "(%s ++ %s)" % (a.s, b.s), t, a.par and b.par)
        if x < .68 and k == "t" and len(t) >= 5:
            q = r.randint(2, len(t) - 3)
            a, b = self.value(t[:1 + q], d - 1, par), self.value(("t",) + t[1 + q:], d - 1, par)
            return V({"k": "tup", "a": [fld(a, i).j for i in range(q)] + [fld(b, i).j for i in range(len(t) - 1 - q)]},
                     "(%s ++ %s)" % (a.s, b.s), t, a.par and b.par)
        return self.lit(t, d, par)

    def lit(self, t, d, par):
        self.nest += 1
        es = [self.value(x, d - 1, par) for x in comps(t)]
        self.nest -= 1
        if t[0] == "t":
            s = "(%s)" % ", ".join(e.s for e in es)
        else:
            fs = [(n, e.s) for (n, _), e in zip(t[1:], es)]
            self.r.shuffle(fs)
            s = "(%s)" % ", ".join("%s: %s" % f for f in fs)
        return V({"k": "tup", "a": [e.j for e in es]}, s, t, all(e.par for e in es))

    # ------------------------------------------------------------ Boolean statements about them
    def stmt(self):
        r = self.r
        x = r.random()
        if x < .45:
            t = r.choice(self.types)
            a, b = self.value(t, r.choice([1, 2])), self.value(t, r.choice([0, 1, 2]))
            if a is None or b is None:
                return self.stmt()
            if t[0] in "tr" and not has_arr(t) and r.random() < .4:
                o = r.choice(["<", "<=", ">", ">="])
                p, q = (order(a), order(b)) if o[0] == "<" else (order(b), order(a))
                j = {"k": "o", "o": "alt" if len(o) == 1 else "ale", "t": "b", "a": [p, q]}
            else:
                o = r.choice(["=", "!=", "="])
                j = {"k": "o", "o": "teq", "t": "b", "a": [a.j, b.j]}
                if o == "!=":
                    if has_arr(t) or t[0] == "a":
                        o = "="
                    else:
                        j = {"k": "o", "o": "one", "t": "b", "a": [a.j, b.j]}
            return N(j, "%s %s %s" % (paren(a.s), o, paren(b.s)), "b", par=a.par and b.par)
        if x < .75 and self.enums:
            E = r.choice(self.enums)
            y = r.random()
            if y < .55:
                a, b = self.enum(E, r.choice([0, 1, 2]), partial=True), self.enum(E, r.choice([0, 1]), partial=True)
                o = r.choice(["=", "!=", "<", "<=", ">", ">="])
                return N({"k": "o", "o": o, "t": "b", "a": [a.j, b.j]}, "%s %s %s" % (paren(a.s), o, paren(b.s)), "b", par=a.par and b.par)
            if y < .8:
                a, s = self.enum(E, r.choice([0, 1]), partial=True), self.eset(E)
                if s is None:
                    return self.stmt()
                return N({"k": "o", "o": "in", "t": "b", "a": [a.j, s[0]]}, "%s in %s" % (paren(a.s), s[1]), "b", par=a.par)
            if y < .9 and E.ctors:
                cn, off, S, src = r.choice(E.ctors)
                a = self.enum(E, 0)
                tab = {"k": "arrnd", "ix": [[off + 1, off + len(src)]], "a": [ic(i).j for i in src]}
                inv = {"k": "acc", "t": "i", "r": tab, "a": [a.j]}
                b = self.enum(S, 0) if S else V(ic(r.choice(src)).j, str(r.choice(src)), ("i",), True)
                if not S:
                    b = V(ic(src[0]).j, str(src[0]) if src[0] >= 0 else "(%d)" % src[0], ("i",), True)
                o = r.choice(["=", "!=", "<="])
                return N({"k": "o", "o": o, "t": "b", "a": [inv, b.j]}, "%s(%s) %s %s" % (cn + r.choice(["^-1", "⁻¹"]), a.s, o, paren(b.s)), "b", par=a.par and b.par)
            # quantification over an enumerated type
            i = self.c.fresh("e")
            v = V({"k": "v", "n": i}, i, ("e", E), True)
            self.pool.append(v)
            b = self.stmt0(E, v)
            self.pool.remove(v)
            q = r.choice(["forall", "exists"])
            return N({"k": "o", "o": q, "t": "b", "a": [{"k": "comp", "c": "arr", "b": b.j, "g": [{"n": i, "c": "set",
                     "e": op("..", "s", ic(1), ic(E.n))}]}]}, "%s(%s in %s)(%s)" % (q, i, E.name, b.s), "b", par=b.par)
        arrs = [v for v in self.pool if v.t[0] == "a" and v.t[3][0] in "tr"]
        if x < .9 and arrs:
            v = r.choice(arrs)
            T = v.t[3]
            y = r.random()
            if y < .5:
                i = r.randrange(len(T) - 1)
                f = comps(T)[i]
                n = self.c.fresh("y")
                nv = V({"k": "v", "n": n}, n, T, v.par)
                b = fld(nv, i)
                if f[0] == "i":
                    z = g_int(self.c, 0)
                    j = {"k": "o", "o": "sum", "t": "i", "a": [{"k": "comp", "c": "arr", "b": b.j, "g": [{"n": n, "c": "arr", "e": v.j}]}]}
                    s = "sum(%s in %s)(%s)" % (n, v.s, b.s)
                    if r.random() < .4:
                        s = "sum(%s.%s)" % (v.s, b.s.split(".")[-1])
                    o = r.choice(["<=", "=", ">"])
                    return N({"k": "o", "o": o, "t": "b", "a": [j, z.j]}, "%s %s %s" % (s, o, z.s), "b", par=v.par and z.par)
                if f[0] == "b":
                    q = r.choice(["forall", "exists"])
                    j = {"k": "o", "o": q, "t": "b", "a": [{"k": "comp", "c": "arr", "b": b.j, "g": [{"n": n, "c": "arr", "e": v.j}]}]}
                    return N(j, "%s(%s.%s)" % (q, v.s, b.s.split(".")[-1]), "b", par=v.par)
            w = self.value(T, 1)
            n = self.c.fresh("y")
            nv = V({"k": "v", "n": n}, n, T, v.par)
            j = {"k": "o", "o": "exists", "t": "b", "a": [{"k": "comp", "c": "arr", "g": [{"n": n, "c": "arr", "e": v.j}],
                 "b": {"k": "o", "o": "teq", "t": "b", "a": [nv.j, w.j]}}]}
            return N(j, "exists(%s in %s)(%s = %s)" % (n, v.s, n, paren(w.s)), "b", par=v.par and w.par)
        n = g_bool(self.c, 2)
        return n

    def stmt0(self, E, v):
        a, b = v, self.enum(E, 1, partial=True)
        o = self.r.choice(["=", "!=", "<", ">="])
        n = N({"k": "o", "o": o, "t": "b", "a": [a.j, b.j]}, "%s %s %s" % (a.s, o, paren(b.s)), "b", par=b.par)
        h = g_bool(self.c, 1)
        q = self.r.choice(["or", "->", "and"])
        return N(op(q, "b", n, h), "((%s) %s %s)" % (n.s, {"or": "\\/", "and": "/\\"}.get(q, q), h.s), "b", par=n.par and h.par)

    def boolean(self):
        a = self.stmt()
        x = self.r.random()
        if x < .35:
            return a
        if x < .5:
            return N(op("not", "b", a), "not (%s)" % a.s, "b", par=a.par)
        b = self.stmt() if self.r.random() < .5 else g_bool(self.c, 1)
        q = self.r.choice(["or", "->", "<->", "xor", "and"])
        return N(op(q, "b", a, b), "((%s) %s (%s))" % (a.s, {"or": "\\/", "and": "/\\"}.get(q, q), b.s), "b", par=a.par and b.par)


def paren(s):
    return s if s.replace(".", "").replace("_", "").isalnum() or s[0] in "([" and s[-1] in ")]" and s.count("(") + s.count("[") == 1 else "(%s)" % s


def s06(r, i):
    g = Rec(r)
    m = g.m
    for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
        g.add_enum()
    for E in g.enums:
        if r.random() < .7 and m.size * E.n <= 200:
            n = "w%s" % E.name
            t = ("e", E)
            m.vars.append({"n": n, "ty": "i", "d": list(range(1, E.n + 1))})
            m.size *= E.n
            m.text.append("var %s: %s :: add_to_output;" % (E.name, n))
            m.out.append(n)
            m.oty.append("e1:" + n)
            g.pool.append(V({"k": "v", "n": n}, n, t))
        if r.random() < .2 and m.size * 2 ** E.n <= 200 and E.n <= 4:
            n = "s%s" % E.name
            m.vars.append({"n": n, "ty": "s", "d": [[k + 1 for k in range(E.n) if b >> k & 1] for b in range(2 ** E.n)]})
            m.size *= 2 ** E.n
            m.text.append("var set of %s: %s :: add_to_output;" % (E.name, n))
            m.out.append(n)
            m.oty.append("s")
            e = g.enum(E, 0)
            b = N({"k": "o", "o": "in", "t": "b", "a": [e.j, {"k": "v", "n": n}]}, "(%s in %s)" % (e.s, n), "b")
            m.c.scope.append(b)
    for _ in range(r.randint(1, 2)):
        t = g.new_type(1)
        if len(leaves(V({}, "", t))) <= 8:
            g.types.append(t)
    if not g.types:
        return s06(r, i)
    for t in list(g.types):
        x = r.random()
        if x < .5 and t[0] in "tr":
            if g.enums and r.random() < .3:
                E = r.choice(g.enums)
                g.types.append(("a", 1, E.n, t, E))
            else:
                lo = r.choice([1, 1, 0, 2, -1])
                g.types.append(("a", lo, lo + r.randint(1, 2) - (r.random() < .1), t, None))
    if g.enums and r.random() < .4:
        E = r.choice(g.enums)
        g.types.append(("a", 1, E.n, g.leaf_type(), E))
    for _ in range(r.randint(1, 3)):
        t = r.choice(g.types)
        g.declare(t)
    # fixed and defined structured values
    for _ in range(r.randint(0, 3)):
        t = r.choice(g.types)
        par = r.random() < .4
        v = g.value(t, 2, par)
        if v is None or "endif" in v.s and "array" in v.s:
            continue
        nm = "q%d" % len(m.items)
        tt = g.ttext(t, not (v.par and r.random() < .8))
        if r.random() < .2 and (t[0] != "a" or t[3][0] in "tr"):    # any arrays of plain values: known finding K4
            tt = "any"
        m.text.append("%s: %s :: add_to_output = %s;" % (tt, nm, v.s))
        m.items.append({"n": nm, "e": v.j})
        g.emit(V({"k": "v", "n": nm}, nm, t, v.par and "var" not in tt))
    k = 0
    for _ in range(r.randint(1, 3)):
        b = g.boolean()
        if r.random() < .5:
            m.define(b, "b")
        else:
            m.constraint(b)
        k += 1
    if not m.vars or m.size > 800:
        return s06(r, i)
    return m.case(solver="gecode" if r.random() < .5 else "enumfzn", emap=g.emap)


def k4():
    """known finding K4: crash when an array whose definition is an `any' array of plain values is printed"""
    a, x = {"k": "v", "n": "a"}, {"k": "v", "n": "x"}
    V3 = {"k": "tup", "a": [{"k": "tup", "a": [a, x]}]}
    eq = lambda v: {"k": "o", "o": "=", "t": "b", "a": [x, ic(v).j]}
    return dict(text="enum E = {A, B};\nrecord(record(var 0..1: a, var 0..1: x): y1): v3 :: add_to_output;\n"
                     "any: q2 = [v3.y1.x = 0, v3.y1.x = 1];\narray[E] of var bool: q4 :: add_to_output = q2;\nsolve satisfy;\n",
                vars=[{"n": n, "ty": "i", "d": [0, 1]} for n in "ax"],
                items=[{"n": "v3_o", "e": {"k": "tup", "a": [a, x]}}, {"n": "q4_o", "e": {"k": "tup", "a": [eq(0), eq(1)]}}],
                funs={"_": 0}, out=["v3_o", "q4_o"], oty=["fl:v3", "fl:q4"], goal="sat", obj=ic(0).j, limit=0, flags=[], solver="gecode",
                emap={"A": 1, "B": 2}, key="K4")


GEN = {"S06": (s06, 260)}


def run(ck):
    g, n = GEN[ck.pid]
    n = ck.n(n, n * 25)
    done = 0
    while done < n:
        k = min(4000, n - done)
        cases = [g(ck.rng, done + i) for i in range(k)]
        check_cases(ck, cases if done else cases + [k4()], ck.pid)
        done += k
