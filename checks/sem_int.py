import vf
from sem import *

FE = {"xorall": 1, "pow": .6, "ite": 1, "arr": 1, "acc": .8, "let": .8, "comp": .3}


def model(r, partial=False, enum=False):
    fe = dict(FE)
    if enum:
        fe.update(varpow=1)
    if partial:
        fe["partial"] = 1
        fe["pow"] = 1
        fe["acc"] = 1.6
        fe["let"] = 1.6
    m = Model(r, fe)
    for _ in range(r.randint(1, 3)):
        m.add_int()
    if r.random() < .6 and m.size <= 40:
        m.add_bool()
    if r.random() < .25 and m.size <= 16:
        m.add_arr()
    for _ in range(r.randint(0, 2)):
        m.add_par(r.choice(["i", "b", "ai"]))
    k = r.randint(2, 5)
    for i in range(k):
        x = r.random()
        if x < .2:                  # one root expression of each kind with operands of small depth
            m.define(N(op("not", "b", y), "(not %s)" % y.s, "b") if r.random() < .3 else y, "b") if (y := g_bool(m.c, 2)) else 0
        elif x < .6:
            m.define(g_bool(m.c, r.randint(2, 3)), "b")
        elif x < .7 and m.vars:
            n = g_int(m.c, r.randint(2, 3))
            if not (partial and n.par):      # an undefined parameter is reported as an error
                m.define(n, "i")
        else:
            e = g_bool(m.c, r.randint(2, 3))
            if r.random() < .4:
                f = g_bool(m.c, 1)
                e = N(op("or", "b", e, f), "(%s \\/ %s)" % (e.s, f.s), "b")
            m.constraint(e)
    return m


def k2():
    """known finding K2"""
    x = {"k": "v", "n": "x"}
    four = ic(4).j
    let = {"k": "let", "t": "i", "n": "", "e": {"k": "o", "o": "=", "t": "b", "a": [x, ic(2).j]}, "b": four}
    return dict(text="var 1..2: x :: add_to_output;\nvar bool: b :: add_to_output = (1 <= let {constraint x = 2} in 4);\nsolve satisfy;\n",
                vars=[{"n": "x", "ty": "i", "d": [1, 2]}], items=[{"n": "b", "ty": "b", "e": {"k": "o", "o": "<=", "t": "b", "a": [ic(1).j, let]}}],
                funs={"_": 0}, out=["x", "b"], oty=["i", "b"], goal="sat", obj=ic(0).j, limit=0, flags=[], solver="gecode", key="K2")


def run(ck):
    part = ck.pid == "S02"
    n = ck.n(700, 20000)
    cases = []
    for i in range(n):
        fl = []
        if ck.rng.random() < .15:
            fl = [ck.rng.choice(["-O0", "-O2", "-O3"])]
        en = ck.rng.random() < .5
        cases.append(model(ck.rng, part, en and not {"-O2", "-O3"} & set(fl)).case(flags=fl, solver="enumfzn" if en else "gecode"))
    if part:
        cases.append(k2())
    for i in range(0, len(cases), 4000):
        check_cases(ck, cases[i:i + 4000], ck.pid)
