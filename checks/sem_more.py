"""S-properties decided by the denotational semantics (MznSem/MznSolve): one model generator per property."""
import vf
from sem import *

OPTS = [["-O0"], ["-O1"], ["-O2"], ["-O3"], ["-O4"], ["-O5"], ["--two-pass"], ["--use-gecode"], ["--shave"], ["--sac"],
        ["--no-half-reifications"], ["--no-chain-compression"], ["--only-range-domains"],
        ["--pre-passes", "2"], ["--keep-paths"], ["--no-optimize"], ["--MIPDMaxIntvEE", "0"], ["--statistics"],
        ["--compile-solution-checker-off"]]


def fill(m, k, pdef=.5, bd=3, partial=False):
    """k random items: constraints and defined variables"""
    r = m.r
    for _ in range(k):
        x = r.random()
        if x < pdef:
            m.define(g_bool(m.c, r.randint(1, bd)), "b")
        elif x < pdef + .12:
            n = g_int(m.c, r.randint(2, bd))
            if not n.par:
                m.define(n, "i")
        else:
            e = g_bool(m.c, r.randint(1, bd))
            if r.random() < .5:
                f = g_bool(m.c, 1)
                e = N(op("or", "b", e, f), "(%s \\/ %s)" % (e.s, f.s), "b")
            m.constraint(e)


def base(r, fe, ni=(1, 3), pb=.6):
    m = Model(r, fe)
    for _ in range(r.randint(*ni)):
        m.add_int()
    if r.random() < pb and m.size <= 40:
        m.add_bool()
    return m


FE = {"xorall": 1, "pow": .5, "ite": 1, "arr": 1, "acc": .8, "let": .6, "comp": .3}


# ---------------------------------------------------------------- S04 sets
def s04(r, i):
    en = r.random() < .25
    m = Model(r, {"set": 4, "setord": 1, "setite": .5 if r.random() < .5 else 0, "ite": .4, "arr": .3, "comp": .2, "let": .2, "acc": .2})
    for _ in range(r.randint(1, 2)):
        m.add_set()
    for _ in range(r.randint(0, 2)):
        if m.size <= 30:
            m.add_int()
    if r.random() < .4 and m.size <= 40:
        m.add_bool()
    for _ in range(r.randint(0, 2)):
        m.add_par(r.choice("ss i".replace(" ", "")))
    fill(m, r.randint(1, 4), .6)
    return m.case(solver="enumfzn" if en else "gecode")


# ---------------------------------------------------------------- S05 optional values
def s05(r, i):
    m = Model(r, {"opt": 3, "optite": .5, "optarith": .4, "ite": .4, "arr": .6, "comp": .2, "let": .3, "acc": .3, "varwhere": 1,
                  "partial": r.random() < .3})
    for _ in range(r.randint(1, 2)):
        m.add_opt()
    for _ in range(r.randint(0, 2)):
        if m.size <= 30:
            m.add_int()
    if r.random() < .5 and m.size <= 40:
        m.add_bool()
    fill(m, r.randint(1, 4), .6)
    return m.case(solver="enumfzn" if r.random() < .5 else "gecode")


# ---------------------------------------------------------------- S10 options
def s10(r, i):
    fe = dict(FE, set=.4 if r.random() < .3 else 0, opt=.4 if r.random() < .2 else 0, tup=.2)
    if r.random() < .4:
        fe["partial"] = 1
    m = base(r, fe)
    if r.random() < .3 and m.size <= 16:
        m.add_arr()
    for _ in range(r.randint(0, 2)):
        m.add_par(r.choice(["i", "b", "ai"]))
    # chains of implications and unifications
    bs = [x for x in m.c.scope if x.ty == "b"]
    for _ in range(r.randint(0, 2)):
        m.define(g_bool(m.c, 1), "b")
    fill(m, r.randint(2, 5), .45)
    fl = []
    for o in r.sample(OPTS[:-1], r.choice([1, 1, 2, 3])):
        if o[0].startswith("-O") and any(f.startswith("-O") for f in fl):
            continue
        fl += o
    return m.case(flags=fl, solver="gecode")


# ---------------------------------------------------------------- S14 optimisation
def s14(r, i):
    fe = dict(FE, set=.3 if r.random() < .2 else 0, opt=.3 if r.random() < .2 else 0)
    if r.random() < .35:
        fe["partial"] = 1
    m = base(r, fe, (1, 3))
    for _ in range(r.randint(0, 2)):
        m.add_par(r.choice(["i", "b", "ai"]))
    fill(m, r.randint(0, 4), .4)
    o = g_int(m.c, r.randint(1, 3))
    goal = r.choice(["min", "max"])
    # undefined objectives make the assignment infeasible: an item with the objective's value
    m.items.append({"n": "_obj", "e": o.j})
    ob = N({"k": "v", "n": "_obj"}, o.s, "i", o.lo, o.hi, o.par)
    if o.par:
        return s14(r, i)
    return m.case(goal=goal, obj=ob, flags=r.choice([[], [], [], ["-O0"], ["-O2"], ["--two-pass"]]),
                  solver=r.choice(["gecode", "gecode", "enumfzn", "org.minizinc.mip.coin-bc"]) if not fe.get("set") else "gecode")


GEN = {"S04": (s04, 420), "S05": (s05, 420), "S10": (s10, 420), "S14": (s14, 420)}


def run(ck):
    g, n = GEN[ck.pid]
    n = ck.n(n, n * 25)
    done = 0
    while done < n:
        k = min(4000, n - done)
        check_cases(ck, [g(ck.rng, done + i) for i in range(k)], ck.pid)
        done += k
