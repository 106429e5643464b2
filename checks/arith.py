"""S09: exactness of integer arithmetic against specs/MznBig.tla.

Expressions over 64-bit constants are evaluated by the compiler (parameters, data, fixed variables, bounds of
variables, solving); the recorded numbers are judged by TLC over unbounded integers.
"""
import os, sys, json, re, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vf

M = 2 ** 63
SAFE = 2 ** 60


def limbs(v):
    s, d, a = (-1 if v < 0 else 1), [], abs(v)
    while a:
        d.append(a % 10000)
        a //= 10000
    return {"s": s, "d": d}


class Skip(Exception):
    pass


class G:
    """expressions; `self.v` collects (name, value) constants that become variables or data"""
    def __init__(self, r, mode):
        self.r, self.mode, self.vars = r, mode, []

    def const(self):
        r = self.r
        x = r.random()
        if x < .3:
            return r.choice([0, 1, -1, 2, 3, -2, 5, 7, 10, -10, 100])
        if x < .55:
            return r.choice([1, -1]) * (M - r.choice([0, 1, 1, 1, 2, 3, 4, 100])) if r.random() < .9 else r.choice([M, -M, M + 1, 2 * M, -M - 1, 10 * M, 2 * M + 5, 4 * M])
        if x < .75:
            k = r.choice([15, 16, 30, 31, 31, 32, 32, 33, 47, 52, 53, 60, 61, 62, 62])
            return r.choice([1, -1]) * (2 ** k + r.choice([-2, -1, 0, 0, 1, 2]))
        if x < .9:
            return r.choice([1, -1]) * r.choice([3037000499, 3037000500, 2097151, 2097152, 55108, 55109, 6074001000, 4294967296 * 3, M // 3, M // 3 + 1, M // 7, M // 10, M // 10 + 1, 1000000007])
        return r.choice([1, -1]) * r.getrandbits(r.randint(5, 62))

    def lit(self, v):
        r = self.r
        a = abs(v)
        s = r.choice([str(a), str(a), str(a), hex(a), "0o" + oct(a)[2:]])
        return s if v >= 0 else "(-%s)" % s

    def ci(self, v=None):
        r = self.r
        v = self.const() if v is None else v
        if self.mode == "data" and -M <= v < M and r.random() < .6:
            n = "p%d" % len(self.vars)
            self.vars.append((n, v))
            return {"k": "c", "v": limbs(v)}, n, v
        if self.mode == "data" and r.random() < .2:
            n = "p%d" % len(self.vars)
            self.vars.append((n, v))
            return {"k": "c", "v": limbs(v)}, n, v
        if self.mode == "var" and r.random() < .6 and abs(v) < M - 10:
            n = "x%d" % len(self.vars)
            self.vars.append((n, v))
            return {"k": "c", "v": limbs(v)}, n, v
        j = {"k": "c", "v": limbs(v)}
        if v == -M and r.random() < .5:
            return j, "(-9223372036854775807-1)", v
        if v < 0:
            # the sign is an operator: the magnitude is a value of its own
            return {"k": "neg", "a": [{"k": "c", "v": limbs(-v)}]}, self.lit(v), v
        return j, self.lit(v), v

    def ex(self, d):
        """(json, text, value or None)"""
        r = self.r
        if d <= 0:
            return self.ci()
        o = r.choice(["add", "sub", "mul", "mul", "div", "mod", "neg", "abs", "min", "max", "pow", "sum", "prod", "amin", "amax", "card", "smin", "smax", "in", "cmp", "add", "sub"])
        if self.mode in ("var", "fold"):
            o = r.choice(["add", "sub", "mul", "mul", "div", "mod", "neg", "abs", "min", "max", "sum", "add", "sub", "cmp"])
        if o in ("add", "sub", "mul", "min", "max"):
            (ja, sa, va), (jb, sb, vb) = self.ex(d - 1), self.ex(r.choice([0, d - 1]))
            j = {"k": o, "a": [ja, jb]}
            f = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "min": min, "max": max}[o]
            s = "%s(%s, %s)" % (o, sa, sb) if o in ("min", "max") else "(%s %s %s)" % (sa, {"add": "+", "sub": "-", "mul": "*"}[o], sb)
            return j, s, f(va, vb)
        if o in ("div", "mod"):
            (ja, sa, va), (jb, sb, vb) = self.ex(d - 1), self.ex(r.choice([0, 0, d - 1]))
            if vb == 0 and self.mode == "var":
                raise Skip()
            q = 0 if vb == 0 else abs(va) // abs(vb) * (1 if (va < 0) == (vb < 0) else -1)
            if vb == 0:
                raise Skip() if r.random() < .8 else None or Skip()
            return {"k": o, "a": [ja, jb]}, "(%s %s %s)" % (sa, o, sb), q if o == "div" else va - vb * q
        if o in ("neg", "abs"):
            ja, sa, va = self.ex(d - 1)
            return {"k": o, "a": [ja]}, ("(-%s)" if o == "neg" else "abs(%s)") % sa, -va if o == "neg" else abs(va)
        if o == "pow":
            ja, sa, va = self.ex(d - 1)
            n = r.choice([0, 1, 2, 2, 3, 3, 4, 5, 7, 10, 20, 39, 40, 62, 63, 64])
            if abs(va) > 1 and n > 70 // max(1, abs(va).bit_length() - 1) + 1:
                n = r.randint(0, 3)
            return {"k": "pow", "a": [ja], "n": n}, "pow(%s, %d)" % (sa, n) if r.random() < .5 else "(%s ^ %d)" % (sa, n), va ** n
        if o in ("sum", "prod", "amin", "amax"):
            es = [self.ex(d - 1) for _ in range(r.randint(2, 4))]
            vs = [e[2] for e in es]
            p = 1
            for x in vs:
                p *= x
            return ({"k": o, "a": [e[0] for e in es]}, {"sum": "sum([%s])", "prod": "product([%s])", "amin": "min([%s])", "amax": "max([%s])"}[o] % ", ".join(e[1] for e in es),
                    {"sum": sum(vs), "prod": p, "amin": min(vs), "amax": max(vs)}[o])
        if o in ("card", "smin", "smax"):
            j, s, v = self.set_(d - 1)
            if not v and o != "card":
                raise Skip()
            return {"k": o, "a": [j]}, {"card": "card(%s)", "smin": "min(%s)", "smax": "max(%s)"}[o] % s, sum(b - a + 1 for a, b in v) if o == "card" else v[0][0] if o == "smin" else v[-1][1]
        if o == "in":
            j, s, v = self.set_(d - 1)
            ja, sa, va = self.ex(0)
            t = any(a <= va <= b for a, b in v)
            return {"k": "in", "a": [ja, j]}, "bool2int(%s in %s)" % (sa, s), int(t)
        (ja, sa, va), (jb, sb, vb) = self.ex(d - 1), self.ex(d - 1)
        k, s = r.choice([("lt", "<"), ("le", "<="), ("eq", "=")])
        t = {"lt": va < vb, "le": va <= vb, "eq": va == vb}[k]
        return {"k": k, "a": [ja, jb]}, "bool2int(%s %s %s)" % (sa, s, sb), int(t)

    def set_(self, d):
        r = self.r
        if d <= 0 or r.random() < .6:
            (ja, sa, va), (jb, sb, vb) = self.ex(0), self.ex(0)
            if r.random() < .7 and va > vb:
                (ja, sa, va), (jb, sb, vb) = (jb, sb, vb), (ja, sa, va)
            return {"k": "range", "a": [ja, jb]}, "(%s..%s)" % (sa, sb), [(va, vb)] if va <= vb else []
        (ja, sa, va), (jb, sb, vb) = self.set_(d - 1), self.set_(d - 1)
        o, s = r.choice([("union", "union"), ("inter", "intersect"), ("diff", "diff")])
        if o == "union":
            v = norm(va + vb)
        elif o == "inter":
            v = norm([(max(a, c), min(b, e)) for a, b in va for c, e in vb])
        else:
            v = va
            for c, e in vb:
                v = norm([(a, min(b, c - 1)) for a, b in v] + [(max(a, e + 1), b) for a, b in v])
        return {"k": o, "a": [ja, jb]}, "(%s %s %s)" % (sa, s, sb), v

    def bnd(self, d):
        """expression over variables with interval domains"""
        r = self.r
        if d <= 0 or r.random() < .1:
            if r.random() < .3:
                v = self.const()
                if abs(v) >= M:
                    v = 3
                return {"k": "c", "v": limbs(v)}, "(%d)" % v
            a, b = sorted([self.const(), self.const()])
            a, b = max(a, -M + 2), min(b, M - 2)
            if a > b:
                a, b = -1, 1
            n = "x%d" % len(self.vars)
            self.vars.append((n, a, b))
            return {"k": "var", "l": limbs(a), "h": limbs(b)}, n
        o = r.choice(["add", "sub", "mul", "mul", "neg", "abs", "min", "max"])
        ja, sa = self.bnd(d - 1)
        if o in ("neg", "abs"):
            return {"k": o, "a": [ja]}, ("(-%s)" if o == "neg" else "abs(%s)") % sa
        jb, sb = self.bnd(d - 1)
        return {"k": o, "a": [ja, jb]}, "%s(%s, %s)" % (o, sa, sb) if o in ("min", "max") else "(%s %s %s)" % (sa, {"add": "+", "sub": "-", "mul": "*"}[o], sb)


def norm(v):
    v = sorted((a, b) for a, b in v if a <= b)
    out = []
    for a, b in v:
        if out and a <= out[-1][1]:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return out


def make(r):
    while True:
        mode = r.choice(["par", "par", "par", "data", "var", "var", "bnd"])
        g = G(r, mode)
        try:
            if mode == "bnd":
                j, s = g.bnd(r.choice([1, 1, 2, 2, 3]))
                if not g.vars or s.startswith("x"):
                    continue
                ds = "".join("var %d..%d: %s;\n" % (a, b, n) for n, a, b in g.vars)
                return {"mode": mode, "kind": r.choice(["lb", "ub"]), "e": j, "s": s, "decl": ds}
            j, s, v = g.ex(r.choice([1, 1, 1, 2, 2, 3]))
        except (Skip, OverflowError):
            continue
        if abs(v) > 2 ** 200 or len(s) > 600 or "pow" in s and len(json.dumps(j)) > 4000:
            continue
        c = {"mode": mode, "kind": "val", "e": j, "s": s, "vars": g.vars}
        if mode == "data":
            c["fmt"] = r.choice(["dzn", "json", "cmd"])
        if mode == "var":
            c["slack"] = [(r.choice([0, 0, 1, 3]), r.choice([0, 0, 1, 3])) for _ in g.vars]
        return c


def text(c):
    if c["mode"] == "bnd":
        return "%sint: r :: add_to_output = %s(%s);\nsolve satisfy;\n" % (c["decl"], c["kind"], c["s"])
    if c["mode"] == "var":
        ds = "".join("var %d..%d: %s;\n%s" % (v - a, v + b, n, "constraint %s = %d;\n" % (n, v) if a or b else "") for (n, v), (a, b) in zip(c["vars"], c["slack"]))
        return "%svar int: r :: add_to_output = %s;\nsolve satisfy;\n" % (ds, c["s"])
    return "%sint: r :: add_to_output = %s;\nsolve satisfy;\n" % ("".join("int: %s;\n" % n for n, v in c["vars"]) if c["mode"] == "data" else "", c["s"])


def observe(c):
    fs = {"m.mzn": text(c)}
    args = ["--output-mode", "json", "--solver", "enumfzn", "m.mzn"]
    if c["mode"] == "data":
        if not c["vars"]:
            pass
        elif c["fmt"] == "dzn":
            fs["d.dzn"] = "".join("%s = %d;\n" % x for x in c["vars"])
            args.append("d.dzn")
        elif c["fmt"] == "json":
            fs["d.json"] = json.dumps(dict(c["vars"]))
            args.append("d.json")
        else:
            for x in c["vars"]:
                args += ["-D", "%s = %d" % tuple(x)]
    r = vf.mzn(args, fs, timeout=40)
    if r.timeout:
        return "timeout"
    if r.rc == 1 and re.search(r"rror", r.err):
        return {"ok": False, "err": r.err[-300:]}
    if r.rc != 0:
        return "exit %d: %s" % (r.rc, (r.out + r.err)[-400:])
    m = re.search(r'"r" : (\S+)', r.out)
    if not m or not re.fullmatch(r"-?\d+", m.group(1)):
        if c["mode"] == "bnd" and m and "infinity" in m.group(1):
            return {"ok": False, "err": "no bound"}
        if c["mode"] == "var" and ("UNKNOWN" in r.out or not m and "UNSAT" not in r.out):
            return {"ok": False, "err": "unknown", "skip": True}
        if c["mode"] == "var" and "UNSATISFIABLE" in r.out:
            return {"ok": False, "err": "unsatisfiable", "unsat": True}
        return "unreadable: " + (r.out + r.err)[-300:]
    return {"ok": True, "v": limbs(int(m.group(1))), "int": m.group(1)}


def run(ck):
    r = ck.rng
    if ck.replay:
        cases = [ck.replay["replay"]]
    else:
        cases = [make(r) for _ in range(ck.n(480, 12000))]
    obs = vf.pmap(observe, cases)
    good = []
    for k, (c, o) in enumerate(zip(cases, obs)):
        if isinstance(o, str):
            ck.violation("%s for\n%s" % (o, text(c)), c)
        elif not o.get("skip"):
            good.append(k)
    p = os.path.join(vf.scratch(), "cases.json")
    json.dump([{"kind": cases[k]["kind"], "e": cases[k]["e"], "obs": obs[k]} for k in good], open(p, "w"))
    t = vf.tlc("MznBigCheck", "MznBigCheck.cfg", env={"CASES": p}, timeout=900)
    acc = {int(m[1]) - 1 for m in t.marks if m[0] == "ACC"}
    rej = {int(m[1]) - 1 for m in t.marks if m[0] == "REJ"}
    if len(acc) + len(rej) != len(good) or not t.ok:
        shutil.copy(p, os.path.join(vf.BUILD, "tlc-fail-cases.json"))
        raise vf.ToolError("TLC judged %d of %d: %s" % (len(acc) + len(rej), len(good), t.out[-2500:]))
    ck.tlcstat(t)
    ck.traces += len(acc)
    for q in sorted(rej):
        k = good[q]
        o = obs[k]
        ck.violation("observed %s\n%s%s" % (o.get("int") or o["err"], text(cases[k]), ("data %s %s" % (cases[k]["fmt"], cases[k]["vars"])) if cases[k]["mode"] == "data" else ""), cases[k])
    ck.cov["expressions"] = len(good)
    ck.cov["values"] = sum(1 for k in good if obs[k]["ok"])
    ck.cov["reported errors"] = sum(1 for k in good if not obs[k]["ok"])
    ck.cov["undecided"] = len(cases) - len(good)
    for k in good[:3]:
        ck.sample({"model": text(cases[k]), "observed": obs[k].get("int") or obs[k]["err"]})
    ck.assumptions.append("errors are accepted only where a number of magnitude 2^60 or more occurs; reported bounds are checked for containment, not for tightness")
