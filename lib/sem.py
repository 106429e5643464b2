"""Model assembly, execution on the real toolchain and judgement by MznSolveTrace.tla."""
import json, os, re
import vf
from gen import *

DEC = json.JSONDecoder()


def parse_sols(out):
    """Plain-mode output with JSON solutions -> (list of dicts, status or None, junk)."""
    sols, status, junk, i = [], None, "", 0
    pend = []
    while i < len(out):
        if out[i] in " \n\r\t":
            i += 1
        elif out[i] == "{":
            try:
                v, k = DEC.raw_decode(out, i)
            except ValueError:
                return sols, status, out[i:i + 200]
            pend.append(v)
            i = k
        else:
            e = out.find("\n", i)
            e = len(out) if e < 0 else e
            line = out[i:e].rstrip("\r")
            i = e
            if line == "----------":
                sols.append(pend[-1] if pend else {})
                pend = []
            elif line.startswith("=") and line.endswith("="):
                status = line.strip("=") or "complete"
            elif line.startswith("%"):
                pass
            else:
                junk += line + "\n"
    return sols, status, junk


def etext(v):
    """text of an enumerated value in JSON form"""
    if isinstance(v, dict):
        if "c" in v:
            return "%s(%s)" % (v["c"], etext(v["e"]))
        return v["e"] if "i" not in v else "to_enum(%s,%d)" % (v["e"], v["i"])
    return str(v)


def flat(v, em):
    """leaves of a structured value; record fields in alphabetical order"""
    if isinstance(v, list):
        return [y for x in v for y in flat(x, em)]
    if isinstance(v, dict):
        if "set" in v:
            out = []
            for x in v["set"]:
                if isinstance(x, list):
                    a, b = [em[etext(y)] if isinstance(y, dict) else y for y in x]
                    out += range(a, b + 1)
                else:
                    out += flat(x, em)
            return [sorted(out)]
        if set(v) <= {"e", "c", "i"} and "e" in v:
            return [em[etext(v)]]
        return [y for k in sorted(v) for y in flat(v[k], em)]
    if v is None:
        return [[]]
    if isinstance(v, (bool, int)):
        return [v]
    raise ValueError("unexpected %r" % (v,))


def norm(v, ty, em=None):
    """JSON output value -> the encoding used by the spec."""
    if ty.startswith("fl:"):            # leaves of a structured value
        return flat(v, em or {})
    if ty.startswith("e1:"):            # an enumerated value (its ordinal)
        return flat(v, em or {})[0]
    if ty == "s" and em:
        return flat(v, em)[0]
    if ty == "s":
        out = []
        for x in v["set"]:
            if isinstance(x, list):
                out += list(range(x[0], x[1] + 1))
            else:
                out.append(x)
        return out
    if ty.startswith("el:"):            # elements of a nested array in row-major order
        return [y for x in v for y in norm(x, ty)] if isinstance(v, list) else [v]
    if ty in ("oi", "ob"):
        return [] if v is None else [v]
    if ty == "b" and not isinstance(v, bool):
        raise ValueError("bool expected")
    if ty == "i" and (isinstance(v, bool) or not isinstance(v, int) or abs(v) > 2**31 - 1):
        raise ValueError("int expected, got %r" % (v,))
    return v


def events(case, r):
    """Observed events of one run."""
    if r.timeout:
        return [{"e": "hang"}]
    sols, status, junk = parse_sols(r.out)
    ev = []
    for s in sols:
        try:
            ev.append({"e": "sol", "s": {n: norm(s[t.partition(":")[2] or n], t, case.get("emap")) for n, t in zip(case["out"], case["oty"])}})
        except (KeyError, TypeError, ValueError) as x:
            ev.append({"e": "malformed", "m": str(x)[:80]})
    if r.rc != 0 or "Error:" in r.err or "rror:" in r.out:
        ev.append({"e": "error"})
    elif status is None and case.get("limit", 0):
        ev.append({"e": "stop"})
    elif status == "complete":
        ev.append({"e": "complete"})
    elif status == "UNSATISFIABLE":
        ev.append({"e": "unsat"})
    else:
        ev.append({"e": "status", "m": str(status)})
    return ev


def run_case(case):
    flags = case.get("flags") or []
    files = {"m.mzn": case["text"]}
    args = ["--solver", case.get("solver", "gecode"), "--output-mode", "json"]
    if not case.get("limit") and case["goal"] == "sat":
        args.append("-a")
    if case.get("limit", 0) > 1:
        args += ["-n", str(case["limit"])]
    if case["goal"] != "sat":
        args.append("-a")
    args += flags
    for n, t in (case.get("files") or {}).items():
        files[n] = t
    args += ["m.mzn"] + list(case.get("extra") or [])
    r = vf.mzn(args, files, timeout=case.get("timeout", 30), env=case.get("env"))
    if case.get("solver") == "enumfzn" and (r.timeout or "enumfzn: unsupported" in r.err):
        case["skipped"] = True
    return r


SPECKEYS = ("vars", "items", "funs", "out", "oty", "goal", "obj", "limit", "ev")


def judge(ck, cases, spec="MznSolveTrace", cfg="MznSolveTrace.cfg"):
    """cases with "ev" -> list of indexes rejected by the specification."""
    if not cases:
        return []
    d = vf.tmpdir()
    p = os.path.join(d, "cases.json")
    with open(p, "w") as f:
        json.dump([{k: v for k, v in c.items() if k in SPECKEYS} for c in cases], f)
    t = vf.tlc(spec, cfg, env={"CASES": p}, timeout=850)
    acc = [m for m in t.marks if m[0] == "ACC"]
    rej = [m for m in t.marks if m[0] == "REJ"]
    if len(acc) + len(rej) != len(cases) or not t.ok:
        open(os.path.join(vf.BUILD, "tlc-fail.txt"), "w").write(t.out)
        import shutil
        shutil.copy(p, os.path.join(vf.BUILD, "tlc-fail-cases.json"))
        raise vf.ToolError("TLC judged %d of %d cases: %s" % (len(acc) + len(rej), len(cases), t.out[-1500:]))
    ck.tlcstat(t)
    for m in acc:
        cases[int(m[1]) - 1]["nsol"] = int(m[2])
    for m in rej:
        cases[int(m[1]) - 1]["rej"] = dict(event=int(m[2]), nsol=int(m[3]), todo=int(m[4]))
        cases[int(m[1]) - 1]["nsol"] = int(m[3])
    return sorted(int(m[1]) - 1 for m in rej)


def solver_blamed(ck, c, runner):
    """A run through the external Gecode is only held against MiniZinc when the FlatZinc compiled for
    Gecode, solved by the reference enumerator, is rejected as well (or cannot be enumerated)."""
    if c.get("solver", "gecode") != "gecode" or runner is not run_case:
        return False
    d = vf.tmpdir()
    os.makedirs(os.path.join(d, "s"))
    m = json.load(open(os.path.join(vf.VERIF, "tools", "solvers", "enumfzn.msc")))
    g = json.loads(re.sub(r",(\s*[}\]])", r"\1", open(os.path.join(vf.SOLVERS, "gecode.msc")).read()))
    lib = g.get("mznlib", "")
    if lib and not os.path.isabs(lib):
        lib = lib if lib.startswith("-G") else os.path.normpath(os.path.join(vf.SOLVERS, lib))
    m.update(id="verif.blame", name="blame", mznlib=lib, executable=os.path.join(vf.VERIF, "tools", "enumfzn.py"))
    json.dump(m, open(os.path.join(d, "s", "blame.msc"), "w"))
    b = dict(c, solver="blame", timeout=60, env={"MZN_SOLVER_PATH": os.path.join(d, "s") + ":" + vf.SOLVERS})
    r = runner(b)
    b["ev"] = events(b, r)
    if b["ev"] and b["ev"][-1]["e"] in ("hang", "error", "status"):
        return False
    if judge(ck, [b]):
        return False
    if os.environ.get("VF_SHOW_EXCL"):
        print("EXCL", c["text"].replace("\n", " | "), c.get("flags"), c["ev"][-2:])
    ck.cov["solver_defects_excluded"] = ck.cov.get("solver_defects_excluded", 0) + 1
    return True


def check_cases(ck, cases, label="", runner=None, batch=None):
    """Run all cases, judge them, re-run rejected ones, report confirmed violations."""
    runner = runner or run_case
    rs = vf.pmap(runner, cases)
    keep = [i for i, c in enumerate(cases) if not c.get("skipped")]
    if len(keep) < len(cases):
        ck.cov["skipped_by_reference_solver"] = ck.cov.get("skipped_by_reference_solver", 0) + len(cases) - len(keep)
        cases, rs = [cases[i] for i in keep], [rs[i] for i in keep]
    for c, r in zip(cases, rs):
        c["ev"] = events(c, r)
        c["raw"] = (r.rc, r.out[-1500:], r.err[-1500:])
    rej = judge(ck, cases)
    bad = []
    if rej:
        again = [dict(cases[i], timeout=90) for i in rej]
        rs = vf.pmap(runner, again, 4)
        again, rs = zip(*[(c, r) for c, r in zip(again, rs) if not c.get("skipped")] or [((), ())]) if again else ((), ())
        again, rs = list(again), list(rs)
        for c, r in zip(again, rs):
            c["ev"] = events(c, r)
            c["raw"] = (r.rc, r.out[-1500:], r.err[-1500:])
        rej2 = judge(ck, again)
        bad = [again[i] for i in rej2]
        bad = [c for c in bad if not solver_blamed(ck, c, runner)]
    ck.traces += len(cases) - len(rej)
    for c in bad:
        e = c["ev"][c["rej"]["event"] - 1] if c["rej"]["event"] <= len(c["ev"]) else "end"
        ck.violation("%s: event %s not allowed (solutions declared by the spec: %d, not yet emitted: %d)\n%s\n--flags %s solver %s\nstderr: %s" % (
            label, json.dumps(e), c["rej"]["nsol"], c["rej"]["todo"], c["text"], c.get("flags"), c.get("solver", "gecode"), c["raw"][2][-300:]),
            {k: v for k, v in c.items() if k != "ev"}, key=c.get("key"))
    ck.cov["cases"] = ck.cov.get("cases", 0) + len(cases)
    ck.cov["satisfiable_cases"] = ck.cov.get("satisfiable_cases", 0) + sum(1 for c in cases if c.get("nsol", 0) > 0)
    ck.cov["solutions_compared"] = ck.cov.get("solutions_compared", 0) + sum(c.get("nsol", 0) for c in cases)
    for c in cases[:2]:
        ck.sample({"model": c["text"], "flags": c.get("flags"), "events": c["ev"][:4]})
    return bad


# ------------------------------------------------------------------ random model assembly
def dom_text(vals):
    if vals == list(range(vals[0], vals[-1] + 1)):
        return "%d..%d" % (vals[0], vals[-1])
    return "{%s}" % ", ".join(map(str, vals))


def rand_dom(r, big=False):
    lo = r.choice([-2, -1, 0, 0, 1, 1])
    n = r.randint(2, 4)
    v = list(range(lo, lo + n))
    if r.random() < .25 and n > 2:
        del v[r.randrange(1, n - 1)]
    return v


class Model:
    def __init__(self, rng, feats):
        self.r = rng
        self.c = Ctx(rng, feats)
        self.text, self.vars, self.items, self.out, self.oty = [], [], [], [], []
        self.size = 1

    def add_int(self, vals=None, name=None):
        vals = vals or rand_dom(self.r)
        n = name or "x%d" % (len(self.vars) + 1)
        self.vars.append({"n": n, "ty": "i", "d": vals})
        self.text.append("var %s: %s :: add_to_output;" % (dom_text(vals), n))
        self._v(n, "i", vals[0], vals[-1], len(vals))
        return n

    def _v(self, n, ty, lo, hi, k, out=True):
        self.size *= k
        x = N({"k": "v", "n": n}, n, ty, lo, hi)
        self.c.scope.append(x)
        if out:
            self.out.append(n)
            self.oty.append(ty)
        return x

    def add_bool(self):
        n = "b%d" % (len(self.vars) + 1)
        self.vars.append({"n": n, "ty": "b", "d": [False, True]})
        self.text.append("var bool: %s :: add_to_output;" % n)
        self._v(n, "b", 0, 1, 2)
        return n

    def add_set(self, u=None):
        n = "s%d" % (len(self.vars) + 1)
        if u is None:
            lo = self.r.choice([-1, 0, 1])
            u = list(range(lo, lo + self.r.randint(2, 3)))
            if self.r.random() < .2:
                u = [u[0], u[-1] + 1]
        subs = [[x for i, x in enumerate(u) if m >> i & 1] for m in range(1 << len(u))]
        self.vars.append({"n": n, "ty": "s", "d": subs})
        self.text.append("var set of %s: %s :: add_to_output;" % (dom_text(u), n))
        self._v(n, "s", u[0], u[-1], len(subs))
        return n

    def add_opt(self):
        n = "o%d" % (len(self.vars) + 1)
        v = rand_dom(self.r)[:3]
        self.vars.append({"n": n, "ty": "oi", "d": [[]] + [[x] for x in v]})
        self.text.append("var opt %s: %s :: add_to_output;" % (dom_text(v), n))
        self._v(n, "oi", v[0], v[-1], len(v) + 1)
        return n

    def add_par(self, ty="i"):
        n = "p%d" % (len(self.c.scope) + 1)
        if ty == "i":
            v = self.r.randint(-2, 4)
            self.text.append("int: %s = %d;" % (n, v))
            self.items.append({"n": n, "e": ic(v).j})
            self.c.scope.append(N({"k": "v", "n": n}, n, "i", v, v, True))
        elif ty == "b":
            v = self.r.random() < .5
            self.text.append("bool: %s = %s;" % (n, "true" if v else "false"))
            self.items.append({"n": n, "e": bc(v).j})
            self.c.scope.append(N({"k": "v", "n": n}, n, "b", par=True))
        elif ty == "s":
            v = sorted(self.r.sample(range(-1, 5), self.r.randint(0, 4)))
            self.text.append("set of int: %s = {%s};" % (n, ", ".join(map(str, v))))
            self.items.append({"n": n, "e": {"k": "set", "a": [ic(x).j for x in v]}})
            self.c.scope.append(N({"k": "v", "n": n}, n, "s", min(v or [0]), max(v or [-1]), True))
        elif ty == "ai":
            v = [self.r.randint(-2, 4) for _ in range(self.r.randint(1, 4))]
            self.text.append("array[int] of int: %s = [%s];" % (n, ", ".join(map(str, v))))
            self.items.append({"n": n, "e": {"k": "arr", "a": [ic(x).j for x in v]}})
            self.c.scope.append(N({"k": "v", "n": n}, n, "ai", min(v), max(v), True, len(v)))

    def add_arr(self):
        """array of decision variables (declared as one array)"""
        k = self.r.randint(2, 3)
        t = self.r.choice("iib")
        n = "a%d" % (len(self.c.scope) + 1)
        if t == "i":
            lo = self.r.choice([-1, 0, 1])
            v = list(range(lo, lo + 2 + (k == 2)))
            self.text.append("array[1..%d] of var %s: %s :: add_to_output;" % (k, dom_text(v), n))
        else:
            v = [False, True]
            self.text.append("array[1..%d] of var bool: %s :: add_to_output;" % (k, n))
        import itertools
        vals = [list(x) for x in itertools.product(v, repeat=k)]
        self.vars.append({"n": n, "ty": "a", "d": vals})
        self.size *= len(vals)
        self.c.scope.append(N({"k": "v", "n": n}, n, "a" + t, int(v[0]), int(v[-1]), False, k))
        self.out.append(n)
        self.oty.append("a")

    def constraint(self, n):
        self.text.append("constraint %s;" % n.s)
        self.items.append({"n": "", "e": n.j})

    def define(self, n, ty, dom=None):
        """a variable defined by an expression"""
        if self.c.w("partial") and (lazy_risk(n.j) or (self.c.funs and lazy_risk(list(self.c.funs.values())))):
            if ty == "b":
                f = g_bool(self.c, 1)
                self.constraint(N(op("or", "b", n, f), "(%s \\/ %s)" % (n.s, f.s), "b"))
            else:
                self.constraint(N(op("!=", "b", n, ic(777)), "(%s != 777)" % n.s, "b"))
            return None
        nm = "d%d" % (len(self.out) + 1)
        mz = {"b": "bool", "i": "int"}[ty]
        it = {"n": nm, "e": n.j, "ty": ty}
        if dom:
            mz = dom_text(dom)
            it["d"] = dom
        self.text.append("var %s: %s :: add_to_output = %s;" % (mz, nm, n.s))
        self.items.append(it)
        self.out.append(nm)
        self.oty.append(ty)
        self.c.scope.append(N({"k": "v", "n": nm}, nm, ty, dom[0] if dom else n.lo, dom[-1] if dom else n.hi))
        return nm

    def case(self, goal="sat", obj=None, flags=None, shuffle=True, **kw):
        t = list(self.text)
        if shuffle and self.r.random() < .5:
            self.r.shuffle(t)
        if goal == "sat":
            t.append("solve satisfy;")
        else:
            t.append("solve %s %s;" % ("minimize" if goal == "min" else "maximize", obj.s))
        d = dict(text="\n".join(t) + "\n", vars=self.vars, items=self.items, funs=self.c.funs or {"_": 0}, out=self.out,
                 oty=self.oty, goal=goal, obj=obj.j if obj else {"k": "c", "v": 0}, limit=0, flags=flags or [], src=list(self.text))
        d.update(kw)
        return d
