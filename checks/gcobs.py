"""M02: forced garbage collection schedules do not change what models mean (MznSem/MznSolve)."""
import re
import vf
from sem import *
import sem_int, sem_more, sem_func, sem_struct, sem_rec, globals as gl

TRIVIAL = "var 0..1: x;\nsolve satisfy;\n"


def opportunities():
    """number of collection opportunities a trivial compilation has (nearly all while reading the library)"""
    r = vf.mzn(["--solver", "enumfzn", "-c", "--fzn", "o.fzn", "--no-output-ozn", "m.mzn"], {"m.mzn": TRIVIAL}, env={"MZN_VERIF_GC_COUNT": "1"})
    m = re.search(r"%%%verif-gc (\d+)", r.err)
    if not m:
        raise vf.ToolError("collection hook not active: %s" % r.err[-300:])
    return int(m.group(1))


def gen(r, i, names):
    x = r.random()
    if x < .15:
        return sem_int.model(r, r.random() < .5).case()
    if x < .25:
        return sem_more.s04(r, i)
    if x < .38:
        return sem_more.s05(r, i)
    if x < .5:
        return sem_more.s10(r, i)
    if x < .6:
        return sem_func.GEN["S07"][0](r, i)
    if x < .66:
        return sem_func.GEN["S15"][0](r, i)
    if x < .76:
        return sem_struct.GEN["S03"][0](r, i)
    if x < .88:
        return sem_rec.s06(r, i)
    while True:
        c = gl.case(r, r.choice(names), False)
        if c:
            return c


def runner(c):
    return run_case(c)


def run(ck):
    n0 = opportunities()
    names = sorted(gl.names_for("S12", 400, ck.rng))
    n = ck.n(110, 110 * 30)
    forced = done = 0
    while done < n:
        cases = []
        for i in range(min(2000, n - done)):
            c = gen(ck.rng, done + i, names)
            c["solver"] = "enumfzn"
            c["flags"] = [f for f in c.get("flags") or [] if f not in ("--use-gecode", "--shave", "--sac", "--two-pass", "--pre-passes", "2")
                          and not re.match("-O[2-9]", f)]
            if c.get("key"):
                continue
            per = ck.rng.choice([1, 1, 2, 3, 5, 8])
            frm = n0 - 400 + ck.rng.randint(0, 1200)
            if ck.rng.random() < .1:
                per, frm = 400, 1           # while the library is read
            c["env"] = {"MZN_VERIF_GC": "%d,%d,%d" % (per, frm, 260), "MZN_VERIF_GC_COUNT": "1"}
            c["timeout"] = 90
            cases.append(c)
        check_cases(ck, cases, ck.pid, runner)
        for c in cases:
            m = re.search(r"%%%verif-gc (\d+) (\d+)", c.get("raw", (0, "", ""))[2])
            forced += int(m.group(2)) if m else 0
        done += len(cases)
    ck.cov["forced_collections"] = forced
    ck.assumptions.append("collections are forced at lock() calls (the only places where the implementation collects); reclaimed memory is overwritten")
