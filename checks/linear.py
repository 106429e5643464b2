"""S11: models compiled with the linear library have the solutions of the model (MznSem/MznSolve)."""
from sem import *
import sem_int, sem_more, globals as gl

OPTS = [[], [], [], ["-O0"], ["-O2"], ["--no-half-reifications"], ["--two-pass"], ["--no-optimize"]]


def linear(c, r):
    c["solver"] = "gecode"
    c["flags"] = ["-G", "linear"] + r.choice(OPTS)
    return c


def gen(r, i):
    x = r.random()
    if x < .35:
        m = sem_int.model(r, r.random() < .3)
        return linear(m.case(), r)
    if x < .5:
        return linear(sem_more.s05(r, i), r)
    if x < .62:
        return linear(sem_more.s04(r, i), r)
    if x < .7:
        c = sem_more.s14(r, i)
        return linear(c, r)
    while True:
        reif = r.random() < .4
        c = gl.case(r, r.choice([n for n in NAMES if n not in gl.POSONLY] if reif else NAMES), reif)
        if c:
            return linear(c, r)


def run(ck):
    global NAMES
    NAMES = sorted({n for n in gl.names_for("S12", 400, ck.rng)})
    gl.EQLEN = True
    n = ck.n(220, 220 * 40)
    done = 0
    while done < n:
        k = min(4000, n - done)
        check_cases(ck, [gen(ck.rng, done + i) for i in range(k)], ck.pid)
        done += k
    ck.assumptions.append("the linear programs are solved by fzn-gecode, which enumerates all assignments of the auxiliary variables; equal solutions are reported once")
