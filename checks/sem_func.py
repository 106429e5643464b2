"""S07 functions and predicates, S08 fixed against variable evaluation, S15 Boolean contexts."""
import re
import vf
from sem import *
from sem_more import fill, base, FE


# ---------------------------------------------------------------- S07
def rename(c, ps):
    """a context that only contains the parameters"""
    cc = Ctx(c.r, dict(c.f), ps)
    cc.cnt, cc.funs, cc.funsig = c.cnt, c.funs, list(c.funsig)
    return cc


TY = {"i": "int", "b": "bool"}


def add_fun(m, i):
    c, r = m.c, m.r
    kind = r.choice(["plain", "plain", "plain", "overload", "rec", "array", "tuple", "default", "reif", "glob", "poly"])
    n = "f%d" % i
    k = r.randint(1, 3)
    tys = [r.choice("iiib") for _ in range(k)]
    t = r.choice("ib")

    def params(tys, pre="q", n=n):
        return [N({"k": "v", "n": "%s_%s%d" % (n, pre, j)}, "%s_%s%d" % (n, pre, j), ty, -3, 5) for j, ty in enumerate(tys)]

    def body(ps, t, d=2, extra=None):
        cc = rename(c, ps)
        return g_int(cc, d) if t == "i" else g_bool(cc, d)

    def decl(n, ps, t, b, var="var ", head=None):
        pt = ", ".join("var %s: %s" % (TY[p.ty], p.s) for p in ps)
        h = head or ("function %s%s: " % (var, TY[t]) if t == "i" or r.random() < .4 else "predicate ")
        return "%s%s(%s) = %s;" % (h, n, pt, b.s)

    def sig(n, mz, ps, t, b, **kw):
        c.funsig.append(dict(n=n, mz=mz, a=[(p.ty, p.lo, p.hi, False, 0) for p in ps], t=t, lo=b.lo, hi=b.hi, **kw))

    if kind in ("plain", "glob"):
        ps = params(tys)
        extra = [x for x in c.scope if x.ty in "ib" and x.s[0] in "xb"] if kind == "glob" else []
        cc = rename(c, ps + extra)
        b = g_int(cc, 2) if t == "i" else g_bool(cc, 2)
        if b.par:
            return
        c.funs[n] = dict(p=[p.s for p in ps], b=b.j, **({"g": 1} if kind == "glob" else {}))
        m.text.append(decl(n, ps, t, b))
        sig(n, n, ps, t, b)
    elif kind == "overload":
        # same name, different signatures, different meanings
        todo = []
        for v, tt in enumerate(r.sample([["i"], ["b"], ["i", "i"], ["i", "b"], ["b", "i"]], 2)):
            ps = params(tt, "q%d" % v)
            b = body(ps, t)
            if b.par:
                continue
            c.funs[n + "v%d" % v] = dict(p=[p.s for p in ps], b=b.j)
            todo.append((n + "v%d" % v, ps, b))
            m.text.append(decl(n, ps, t, b, head="function var %s: " % TY[t]))
            if r.random() < .4 and tt == ["i"] and "var " not in b.s and not re.search(r"\bf\d", b.s):      # fixed-argument version with the same meaning
                m.text.append("function %s: %s(%s) = %s;" % (TY[t], n, ", ".join("%s: %s" % (TY[p.ty], p.s) for p in ps), b.s))
        for nn, ps, b in todo:
            # a call with integer arguments must not be ambiguous with the Boolean version: Booleans are passed as variables only
            c.funsig.append(dict(n=nn, mz=n, a=[(p.ty, p.lo, p.hi, False, 0) for p in ps], t=t, lo=b.lo, hi=b.hi))
    elif kind == "rec":
        x = params(["i"])[0]
        x.lo, x.hi = -3, 4
        st = r.choice(["+", "-", "m"])
        nn = N({"k": "v", "n": n + "_n"}, n + "_n", "i", 0, 3, True)
        cc = rename(c, [x, nn])
        base_ = g_int(cc, 1)
        if abs(base_.lo) > 50 or abs(base_.hi) > 50:
            base_ = x
        step = N({"k": "call", "t": "i", "f": n, "a": [op("-", "i", nn, ic(1)), x.j]}, "%s(%s - 1, %s)" % (n, nn.s, x.s), "i", -99, 99)
        cond = N(op("<=", "b", nn, ic(0)), "%s <= 0" % nn.s, "b", par=True)
        if st == "m":
            y = N(op("max2", "i", step, op_n("-", x, nn)), "max(%s, %s - %s)" % (step.s, x.s, nn.s), "i")
        else:
            y = N(op(st, "i", step, x), "(%s %s %s)" % (step.s, st, x.s), "i")
        b = ite_node([cond], [base_, y], "i")
        M = max(abs(base_.lo), abs(base_.hi)) + 4 * 5
        c.funs[n] = dict(p=[nn.s, x.s], b=b.j)
        m.text.append("function var int: %s(int: %s, var int: %s) = %s;" % (n, nn.s, x.s, b.s))
        c.funsig.append(dict(n=n, mz=n, a=[("i", 0, 3, True, 0), ("i", x.lo, x.hi, False, 0)], t="i", lo=-M, hi=M))
    elif kind == "array":
        ty = r.choice(["ai", "ai", "ab"])
        L = r.randint(1, 3)
        a = N({"k": "v", "n": n + "_a"}, n + "_a", ty, -3, 5, False, L)
        ps = params(r.choice([["i"], ["b"], []]))
        cc = rename(c, [a] + ps)
        cc.f = dict(c.f, arr=4, acc=3, comp=.4)
        b = g_int(cc, 2) if t == "i" else g_bool(cc, 2)
        if b.par:
            return
        c.funs[n] = dict(p=[a.s] + [p.s for p in ps], b=b.j)
        pt = ", ".join(["array[int] of var %s: %s" % (TY[ty[1]], a.s)] + ["var %s: %s" % (TY[p.ty], p.s) for p in ps])
        m.text.append("function var %s: %s(%s) = %s;" % (TY[t], n, pt, b.s))
        c.funsig.append(dict(n=n, mz=n, a=[(ty, -3, 5, False, L)] + [(p.ty, -3, 5, False, 0) for p in ps], t=t, lo=b.lo, hi=b.hi))
    elif kind == "tuple":
        ps = params(tys)
        bs = [body(ps, u) for u in ("i", "b")]
        if any(b.par for b in bs):
            return
        c.funs[n] = dict(p=[p.s for p in ps], b={"k": "tup", "a": [b.j for b in bs]})
        m.text.append("function tuple(var int, var bool): %s(%s) = (%s, %s);" % (n, ", ".join("var %s: %s" % (TY[p.ty], p.s) for p in ps), bs[0].s, bs[1].s))
        for q, u in enumerate("ib"):
            sig(n, n, ps, u, bs[q], fld=q + 1)
    elif kind == "default":
        ps = params(tys) + [N({"k": "v", "n": n + "_d"}, n + "_d", "i", -3, 5)]
        b = body(ps, t)
        if b.par:
            return
        df = ic(r.randint(-2, 3))
        c.funs[n] = dict(p=[p.s for p in ps], b=b.j)
        pt = ", ".join(["var %s: %s" % (TY[p.ty], p.s) for p in ps[:-1]] + ["var int: %s = %s" % (ps[-1].s, df.s)])
        m.text.append("function var %s: %s(%s) = %s;" % (TY[t], n, pt, b.s))
        sig(n, n, ps, t, b, dflt=df)
    elif kind == "reif":
        ps = params(tys)
        b = body(ps, "b")
        if b.par:
            return
        c.funs[n] = dict(p=[p.s for p in ps], b=b.j)
        pt = ", ".join("var %s: %s" % (TY[p.ty], p.s) for p in ps)
        m.text.append("predicate %s(%s) = %s;" % (n, pt, b.s))
        # the reified version is total, so it is only given for definitions without partial operations
        if not c.w("partial"):
            m.text.append("predicate %s_reif(%s, var bool: %s_r) = (%s_r <-> %s);" % (n, pt, n, n, b.s))
            if r.random() < .3:
                m.text.append("predicate %s_imp(%s, var bool: %s_s) = (%s_s -> %s);" % (n, pt, n, n, b.s))
        sig(n, n, ps, "b", b)
    else:
        # type-generic selection between two values
        x, y, q = n + "_x", n + "_y", n + "_c"
        c.funs[n] = dict(p=[q, x, y], b={"k": "if", "t": t, "a": [{"k": "v", "n": q}, {"k": "v", "n": x}, {"k": "v", "n": y}]})
        if r.random() < .5:
            m.text.append("function any $T: %s(var bool: %s, any $T: %s, any $T: %s) = if %s then %s else %s endif;" % (n, q, x, y, q, x, y))
        else:
            m.text.append("function var $T: %s(var bool: %s, var $T: %s, var $T: %s) = if %s then %s else %s endif;" % (n, q, x, y, q, x, y))
        c.funsig.append(dict(n=n, mz=n, a=[("b", 0, 1, False, 0)] + [(t, -3, 5, False, 0)] * 2, t=t, lo=-3, hi=5))
        u = "b" if t == "i" else "i"
        c.funs[n + "u"] = dict(c.funs[n], b=dict(c.funs[n]["b"], t=u))
        c.funsig.append(dict(n=n + "u", mz=n, a=[("b", 0, 1, False, 0)] + [(u, -3, 5, False, 0)] * 2, t=u, lo=-3, hi=5))


def op_n(o, a, b):
    return N(op(o, "i", a, b), "(%s %s %s)" % (a.s, o, b.s), "i", a.lo - b.hi, a.hi - b.lo)


def s07(r, i):
    fe = dict(xorall=.5, ite=1, arr=.8, acc=.5, let=1, noshadow=1)
    if r.random() < .35:
        fe["partial"] = 1
    m = base(r, fe, (1, 3), .8)
    for j in range(r.randint(1, 4)):
        add_fun(m, j)
    m.c.f["call"] = 6 if m.c.funsig else 0
    m.c.f["let"] = .5
    fill(m, r.randint(2, 4), .6)
    if not m.c.funs:
        return s07(r, i)
    return m.case(flags=r.choice([[], [], [], ["-O0"], ["-O2"], ["--two-pass"], ["--no-half-reifications"]]),
                  solver="gecode" if r.random() < .5 else "enumfzn")


# ---------------------------------------------------------------- S15
def s15(r, i):
    fe = dict(xorall=1, ite=1.2, arr=1.2, acc=1, let=.5, noshadow=1, comp=.2)
    if r.random() < .4:
        fe["partial"] = 1
    if r.random() < .15:
        fe["set"] = .4
    m = base(r, fe, (1, 3), .9)
    if fe.get("set") and m.size < 30:
        m.add_set()
    if r.random() < .5:
        for j in range(r.randint(1, 2)):
            add_fun(m, j)
        if m.c.funsig:
            m.c.f["call"] = 2
    # a pool of expressions that is used again and again, textually identical, in different contexts
    pool = []
    for _ in range(r.randint(2, 3)):
        e = g_bool(m.c, r.choice([1, 1, 2]))
        if not e.par:
            pool.append(N(e.j, e.s, "b"))
    keep = list(m.c.scope)
    m.c.scope = [x for x in keep if x.ty != "b" or r.random() < .4] + pool * 2
    fill(m, r.randint(2, 4), .5)
    m.c.scope = keep + pool
    fl = r.choice([[], [], [], ["-O0"], ["-O2"], ["--no-half-reifications"], ["--no-chain-compression"], ["--two-pass"]])
    if r.random() < .2:
        o = g_int(m.c, 3)
        if not o.par:
            m.items.append({"n": "_obj", "e": o.j})
            return m.case(goal=r.choice(["min", "max"]), obj=N({"k": "v", "n": "_obj"}, o.s, "i"), flags=fl, solver="gecode")
    return m.case(flags=fl, solver="gecode" if r.random() < .5 else "enumfzn")


# ---------------------------------------------------------------- S08
def s08(r, i):
    """The same expressions over values that are fixed in different ways (parameter, data, assigned
    variable, equality constraint, singleton domain) or not fixed at all (one more variable)."""
    fe = dict(xorall=1, pow=.6, ite=1, arr=1, acc=.8, let=.8, comp=.4, set=.6, opt=.5 if r.random() < .4 else 0, tup=.5, setord=.5,
              optite=.3, optarith=.3)
    if r.random() < .4:
        fe["partial"] = 1
    else:
        fe["nosmm"] = 1
    m = Model(r, fe)
    c = m.c
    data = []
    for k in range(r.randint(2, 4)):
        ty = r.choice("iiib" + ("s" if r.random() < .5 else "") + ("o" if fe["opt"] else ""))
        n = "v%d" % k
        if ty == "i":
            d = rand_dom(r)
            v, txt, td = r.choice(d), None, dom_text(d)
            txt, dd, lo, hi, oty, mz = str(v), [v], d[0], d[-1], "i", td
        elif ty == "b":
            v = r.random() < .5
            txt, dd, lo, hi, oty, mz = ("true" if v else "false"), [v], 0, 1, "b", "bool"
        elif ty == "s":
            v = sorted(r.sample(range(-1, 3), r.randint(0, 3)))
            txt, dd, lo, hi, oty, mz = "{%s}" % ", ".join(map(str, v)), [v], -1, 2, "s", "set of -1..2"
        else:
            d = rand_dom(r)
            v = [] if r.random() < .4 else [r.choice(d)]
            txt, dd, lo, hi, oty, mz = (str(v[0]) if v else "<>"), [v], d[0], d[-1], "oi", "opt " + dom_text(d)
        how = r.choice(["par", "par", "data", "vardata", "assign", "eq", "dom"])
        if how == "dom" and ty != "i":
            how = "assign"
        par = how in ("par", "data")
        c.scope.append(N({"k": "v", "n": n}, n, oty, lo, hi, par))
        m.vars.append({"n": n, "ty": oty, "d": dd})
        pm = mz.replace("set of -1..2", "set of int")
        if how == "par":
            m.text.append("%s: %s = %s;" % (pm if r.random() < .5 or ty in "so" else "int" if ty == "i" else pm, n, txt))
        elif how == "data":
            m.text.append("%s: %s;" % (pm, n))
            data.append("%s = %s;" % (n, txt))
        elif how == "vardata":
            m.text.append("var %s: %s;" % (mz, n))
            data.append("%s = %s;" % (n, txt))
        elif how == "assign":
            m.text.append("var %s: %s = %s;" % (mz, n, txt))
        elif how == "dom":
            m.text.append("var {%s}: %s;" % (txt, n))
        else:
            m.text.append("var %s: %s;\nconstraint %s = %s;" % (mz, n, n, txt))
    if r.random() < .4:
        m.add_int()
    for _ in range(r.randint(3, 6)):
        if r.random() < .6 or fe.get("partial"):
            e = g_bool(c, r.randint(2, 3))
            if fe.get("partial") and lazy_risk(e.j):
                continue
            par = e.par
            m.define(e, "b")
        else:
            e = g_int(c, r.randint(2, 3))
            par = e.par
            m.define(e, "i")
        if par and r.random() < .7:          # evaluate as a parameter
            k = max(j for j, t in enumerate(m.text) if t.startswith("var ") and ":: add_to_output =" in t)
            m.text[k] = m.text[k][4:]
            c.scope[-1].par = True
    if not m.out:
        return s08(r, i)
    kw = dict(files={"d.dzn": "\n".join(data) + "\n"}, extra=["d.dzn"]) if data else {}
    return m.case(solver="gecode" if r.random() < .5 else "enumfzn", **kw)


def k3():
    """known finding K3: the printed value of d contradicts the constraint over d"""
    x, y = {"k": "v", "n": "x"}, {"k": "v", "n": "y"}
    acc = {"k": "acc", "t": "i", "r": {"k": "arr", "a": [{"k": "o", "o": "div", "t": "i", "a": [x, x]}, y]}, "a": [ic(2).j]}
    d = {"k": "o", "o": ">", "t": "b", "a": [acc, ic(3).j]}
    return dict(text="var 0..1: x :: add_to_output; var 3..4: y :: add_to_output;\nvar bool: d :: add_to_output = [x div x, y][2] > 3;\n"
                     "constraint d -> y = 3;\nsolve satisfy;\n",
                vars=[{"n": "x", "ty": "i", "d": [0, 1]}, {"n": "y", "ty": "i", "d": [3, 4]}],
                items=[{"n": "d", "ty": "b", "e": d},
                       {"n": "", "e": {"k": "o", "o": "->", "t": "b", "a": [{"k": "v", "n": "d"}, {"k": "o", "o": "=", "t": "b", "a": [y, ic(3).j]}]}}],
                funs={"_": 0}, out=["x", "y", "d"], oty=["i", "i", "b"], goal="sat", obj=ic(0).j, limit=0, flags=[], solver="gecode", key="K3")


GEN = {"S07": (s07, 420), "S15": (s15, 420), "S08": (s08, 420)}


def run(ck):
    g, n = GEN[ck.pid]
    n = ck.n(n, n * 25)
    done = 0
    while done < n:
        k = min(4000, n - done)
        cases = [g(ck.rng, done + i) for i in range(k)]
        if ck.pid == "S08" and not done:
            cases.append(k3())
        check_cases(ck, cases, ck.pid)
        done += k
