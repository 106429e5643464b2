"""D02, D03: parameter data from several sources, checked against their declarations (MznData)."""
import json, os
import vf
from sem import flat

ENUMS = {"E": ["A", "B", "C"], "F": ["red", "my colour", "X1", "élan"]}


class Gen:
    def __init__(self, r, multi):
        self.r, self.multi = r, multi
        self.decls, self.enums, self.asg = [], [], []
        self.ints = []          # (name, value): usable as bounds

    # ---------------------------------------------------------------- types
    def scalar(self, opt=True):
        r = self.r
        x = r.random()
        if opt and x < .12:
            return {"k": "opt", "el": self.scalar(False)}
        if x < .42:
            if r.random() < .5:
                return {"k": "i", "lo": 1, "hi": 0, "up": ""}
            if self.ints and r.random() < .4:
                n, v = r.choice(self.ints)
                return {"k": "i", "lo": 1, "hi": 0, "up": n, "val": v}
            lo = r.randint(-3, 2)
            return self.holes({"k": "i", "lo": lo, "hi": lo + r.randint(0, 4), "up": ""})
        if x < .52:
            return {"k": "b"}
        if x < .64:
            lo = r.randint(-6, 4)
            return {"k": "f", "lo": lo, "hi": lo + r.randint(0, 9)} if r.random() < .5 else {"k": "f", "lo": 1, "hi": 0}
        if x < .74:
            return {"k": "s"}
        if x < .9:
            return {"k": "e", "n": self.enum()}
        t = self.holes({"k": "i", "lo": -1, "hi": 3, "up": ""}) if r.random() < .5 else {"k": "i", "lo": 1, "hi": 0, "up": ""} if r.random() < .5 else {"k": "e", "n": self.enum()}
        return {"k": "set", "el": t}

    def holes(self, t):
        if t["hi"] - t["lo"] > 1 and self.r.random() < .5:
            t["not"] = self.r.sample(range(t["lo"] + 1, t["hi"]), self.r.randint(1, t["hi"] - t["lo"] - 1))
        return t

    def enum(self):
        n = self.r.choice(list(ENUMS))
        if n not in self.enums:
            self.enums.append(n)
        return n

    def typ(self):
        r = self.r
        x = r.random()
        if x < .45:
            return self.scalar()
        if x < .8:
            ix = []
            for _ in range(r.choice([1, 1, 1, 2])):
                y = r.random()
                if y < .3:
                    ix.append({"k": "any"})
                elif y < .5:
                    lo = r.randint(-1, 2)
                    ix.append({"k": "r", "lo": lo, "hi": lo + r.randint(0, 2)})
                elif y < .65:
                    ix.append({"k": "r", "lo": 1, "hi": r.randint(1, 3)})
                elif y < .8 and [v for v in self.ints if 1 <= v[1] <= 3]:
                    n, v = r.choice([v for v in self.ints if 1 <= v[1] <= 3])
                    ix.append({"k": "n", "n": n, "val": v})
                else:
                    ix.append({"k": "e", "n": self.enum()})
            el = self.scalar() if r.random() < .75 else self.struct()
            return {"k": "arr", "ix": ix, "el": el}
        return self.struct()

    def struct(self):
        r = self.r
        if r.random() < .5:
            return {"k": "tup", "f": [self.scalar() for _ in range(r.randint(1, 3))]}
        return {"k": "rec", "f": [{"n": n, "t": self.scalar()} for n in sorted(r.sample(["a", "b", "cc", "d"], r.randint(1, 3)))]}

    # ---------------------------------------------------------------- values
    def val(self, t, j, inside=False):
        """a written value of type t; inside: within a tuple or record, where JSON strings are not enumeration members"""
        r, k = self.r, t["k"]
        if k == "i":
            if t["up"]:
                lo, hi = 1, max(t["val"], 1)
            else:
                lo, hi = (t["lo"], t["hi"]) if t["lo"] <= t["hi"] else (-9, 9)
            v = r.choice([x for x in range(lo, hi + 1) if x not in t.get("not", [])])
            if not j and r.random() < .06 and self.ints:
                n, u = r.choice(self.ints)
                return {"k": "ref", "n": n, "plus": v - u}
            if v in (0, 1) and r.random() < .2:
                return {"k": "b", "v": bool(v)}
            return {"k": "i", "v": v}
        if k == "b":
            return {"k": "b", "v": r.random() < .5}
        if k == "f":
            lo, hi = (t["lo"], t["hi"]) if t["lo"] <= t["hi"] else (-20, 40)
            v = r.randint(lo, hi)
            if v % 4 == 0 and r.random() < .5:
                return {"k": "i", "v": v // 4}
            return {"k": "f", "v": v}
        if k == "s":
            return {"k": "s", "v": "".join(r.choice(["a", "B", " ", "\n", "\t", '"', "\\", "é", "'", "%", "1", "(", "☃"]) for _ in range(r.randint(0, 5)))}
        if k == "e":
            m = r.choice(ENUMS[t["n"]])
            return {"k": "s" if j and not inside and r.random() < .6 else "e", "v": m}
        if k == "opt":
            return {"k": "abs"} if r.random() < .35 else self.val(t["el"], j, inside)
        if k == "set":
            if r.random() < .35 and (t["el"]["k"] == "i" and not (t["el"].get("not") and not self.mistakes) or t["el"]["k"] != "i" and not j):
                a, b = self.val(t["el"], True, inside), self.val(t["el"], True, inside)
                if a["k"] in "ie" and b["k"] in "ie" and not (a["k"] == "e" and ENUMS[t["el"]["n"]].index(a["v"]) > ENUMS[t["el"]["n"]].index(b["v"])):
                    return {"k": "rng", "lo": a, "hi": b}
            a = [self.val(t["el"], True, inside) for _ in range(r.randint(0, 3))]
            for x in a:
                if x["k"] == "b":
                    x.update(k="i", v=int(x["v"]))
                if not j and x["k"] == "s":
                    x["k"] = "e"
            if j and any(x["k"] == "e" for x in a):   # members of a JSON set literal are all strings or all objects
                for x in a:
                    x["k"] = "e"
            return {"k": "jl" if j and not inside and r.random() < .5 else "set", "a": a}
        if k == "tup":
            return {"k": "jl" if j else "tup", "a": [self.val(f, j, True) for f in t["f"]]}
        if k == "rec":
            return {"k": "rec", "a": self.shuf([{"n": f["n"], "v": self.val(f["t"], j, True)} for f in t["f"]])}
        ns = [self.size(ix) for ix in t["ix"]]
        if len(ns) == 2:
            rows = [[self.val(t["el"], j, "set" in (t["el"]["k"], t["el"].get("el", {}).get("k"))) for _ in range(ns[1])] for _ in range(ns[0])]
            if j:
                return {"k": "jl", "a": [{"k": "jl", "a": x} for x in rows]}
            st = [self.start(ix) for ix in t["ix"]]
            es = [x.get("n") if x["k"] == "e" else None for x in t["ix"]]
            if any(es) and (st != [1, 1] and not self.mistakes or r.random() < .3):
                return {"k": "arrn", "ix": [[s, s + n - 1] for s, n in zip(st, ns)], "en": es, "a": [y for x in rows for y in x]}
            if (st == [1, 1] or self.mistakes and r.random() < .1) and "e" not in [x["k"] for x in t["ix"]] and r.random() < .6 or "e" in [x["k"] for x in t["ix"]]:
                return {"k": "arr2", "a": rows}
            return {"k": "arrn", "ix": [[s, s + n - 1] for s, n in zip(st, ns)], "a": [y for x in rows for y in x]}
        a = [self.val(t["el"], j, "set" in (t["el"]["k"], t["el"].get("el", {}).get("k"))) for _ in range(ns[0])]
        if j:
            return {"k": "jl", "a": a}
        ix = t["ix"][0]
        if ix["k"] == "e":
            if r.random() < .5:
                return {"k": "arrk", "key": self.shuf(ENUMS[ix["n"]][:]), "a": a}
            return {"k": "arr1", "base": 1, "a": a}
        b = self.start(ix)
        if b != 1 and r.random() < .5:
            return {"k": "arrn", "ix": [[b, b + len(a) - 1]], "a": a}
        return {"k": "arr1", "base": b, "a": a}

    def shuf(self, a):
        self.r.shuffle(a)
        return a

    def size(self, ix):
        return {"any": lambda: self.r.randint(1, 3), "r": lambda: ix["hi"] - ix["lo"] + 1, "n": lambda: ix["val"],
                "e": lambda: len(ENUMS[ix["n"]])}[ix["k"]]()

    def start(self, ix):
        return {"any": lambda: self.r.choice([1, 1, 0, 3]), "r": lambda: ix["lo"], "n": lambda: 1, "e": lambda: 1}[ix["k"]]()

    # ---------------------------------------------------------------- mistakes
    def leaves(self, w, out):
        if w["k"] in ("set", "jl", "tup", "arr1", "arrn", "arrk"):
            for i, x in enumerate(w["a"]):
                out.append((w["a"], i, x))
                self.leaves(x, out)
        elif w["k"] == "arr2":
            for row in w["a"]:
                for i, x in enumerate(row):
                    out.append((row, i, x))
                    self.leaves(x, out)
        elif w["k"] == "rec":
            for f in w["a"]:
                out.append((f, "v", f["v"]))
                self.leaves(f["v"], out)
        return out

    def spoil(self, a):
        r = self.r
        j = a["j"]
        ls = self.leaves(a["v"], [(a, "v", a["v"])])
        p, i, w = r.choice(ls)
        x = r.random()
        inset = False
        if x < .35 and w["k"] in "if":
            w["v"] += r.choice([-3, -1, 1, 2, 5])
        elif x < .6:
            new = r.choice([{"k": "i", "v": r.randint(-4, 6)}, {"k": "b", "v": True}, {"k": "f", "v": 5}, {"k": "f", "v": 8}, {"k": "s", "v": "A"}, {"k": "abs"},
                            {"k": "e", "v": r.choice(["A", "red", "Z9"])}, {"k": "s", "v": "Z9"}])
            if p is not a and r.random() < .5 or new["k"] == "abs" and isinstance(p, list):
                new = {"k": "i", "v": r.randint(-4, 6)}
            p[i] = new
        elif w["k"] in ("arr1", "jl", "set", "tup", "rec") and len(w["a"]) > 1 and r.random() < .5:
            w["a"].pop()
        elif w["k"] in ("arr1", "jl", "set", "tup") and w["a"]:
            w["a"].append(json.loads(json.dumps(w["a"][0])))
        elif w["k"] == "rec":
            if r.random() < .5:
                w["a"][0]["n"] = "zz"
            else:
                w["a"].append({"n": "zz", "v": {"k": "i", "v": 1}})
        elif w["k"] == "arrn":
            w["ix"][0] = [w["ix"][0][0] + 1, w["ix"][0][1] + 1]
            w.pop("en", None)
        if w["k"] == "arr1" and r.random() < .3:
            w["base"] += r.choice([1, -1])

    # ---------------------------------------------------------------- a case
    def case(self, mistakes=True):
        r, self.mistakes = self.r, mistakes
        nsrc = ["model", "init", "a.dzn", "b.dzn", "c.json", "d.json", "cmd"] if self.multi else ["a.dzn", "c.json"]
        srcs = r.sample(nsrc, r.randint(1, min(4, len(nsrc))))
        for i in range(r.randint(0, 2)):
            n = "n%d" % i
            v = r.randint(0 if mistakes else 1, 3)
            self.ints.append((n, v))
            self.decls.append({"n": n, "t": {"k": "i", "lo": 1, "hi": 0, "up": ""}})
            s = r.choice(srcs)
            self.asg.append({"n": n, "v": {"k": "i", "v": v}, "j": s.endswith("json"), "src": s})
        for i in range(r.randint(1, 3)):
            n = r.choice(["x%d", "x%d", "'my %d'", "_y%d", "été%d"][:2] + (["'my %d'"] if r.random() < .3 else [])) % i
            t = self.typ()
            self.decls.append({"n": n, "t": t})
            if t["k"] == "opt" and r.random() < .3:
                continue
            s = r.choice(srcs)
            self.asg.append({"n": n, "v": self.val(t, s.endswith("json")), "j": s.endswith("json"), "src": s})
        for e in self.enums:
            s = r.choice([x for x in srcs if x != "cmd"] + ["init"])
            j = s.endswith("json")
            ms = [{"k": "s" if j else "e", "v": m} for m in ENUMS[e]]
            self.asg.append({"n": e, "v": {"k": "jl" if j and r.random() < .5 else "set", "a": ms}, "j": j, "src": s})
        x = r.random() if mistakes else 1
        y = [a for a in self.asg if a["n"] not in self.enums]
        if self.multi and x < .4 and y:
            a = r.choice(y)
            z = r.random()
            if z < .35:
                s = r.choice([s for s in srcs if not (s == "init" and a["src"] == "init")] or ["a.dzn"])
                t = [d["t"] for d in self.decls if d["n"] == a["n"]][0]
                if not (s == "init" and any(b["n"] == a["n"] and b["src"] == "init" for b in self.asg)):
                    self.asg.append({"n": a["n"], "v": self.val(t, s.endswith("json")), "j": s.endswith("json"), "src": s})
            elif z < .6:
                self.asg.remove(a)
            else:
                s = r.choice([s for s in srcs if s not in ("init", "model")] or ["a.dzn"])
                self.asg.append({"n": r.choice(["unk", "_unk", "x9"]), "v": {"k": "i", "v": 1}, "j": s.endswith("json"), "src": s})
        elif x < (.55 if self.multi else .5) and y:
            self.spoil(r.choice(y))
        r.shuffle(self.decls)
        return dict(decls=self.decls, enums=self.enums, asg=self.asg)


def q(n):
    return n if n.isascii() and n.replace("_", "a").isalnum() and n[0] != "_" or n.startswith("'") else "'%s'" % n


def tt(t):
    k = t["k"]
    if k == "i":
        if t.get("not"):
            return "{%s}" % ", ".join(str(x) for x in range(t["lo"], t["hi"] + 1) if x not in t["not"])
        return "1..%s" % t["up"] if t["up"] else "int" if t["lo"] > t["hi"] else "%d..%d" % (t["lo"], t["hi"])
    if k == "f":
        return "float" if t["lo"] > t["hi"] else "%s..%s" % (t["lo"] / 4, t["hi"] / 4)
    if k in "bs":
        return {"b": "bool", "s": "string"}[k]
    if k == "e":
        return t["n"]
    if k == "opt":
        return "opt " + tt(t["el"])
    if k == "set":
        return "set of " + tt(t["el"])
    if k == "tup":
        return "tuple(%s)" % ", ".join(tt(f) for f in t["f"])
    if k == "rec":
        return "record(%s)" % ", ".join("%s: %s" % (tt(f["t"]), f["n"]) for f in t["f"])
    ix = ["int" if x["k"] == "any" else "%d..%d" % (x["lo"], x["hi"]) if x["k"] == "r" else "1..%s" % x["n"] if x["k"] == "n" else x["n"] for x in t["ix"]]
    return "array[%s] of %s" % (", ".join(ix), tt(t["el"]))


def estr(s):
    return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t")


def dz(w):
    k = w["k"]
    if k == "i":
        return str(w["v"])
    if k == "b":
        return "true" if w["v"] else "false"
    if k == "f":
        return repr(w["v"] / 4)
    if k == "s":
        return estr(w["v"])
    if k == "e":
        return q(w["v"])
    if k == "abs":
        return "<>"
    if k == "ref":
        return w["n"] if not w["plus"] else "%s + %d" % (w["n"], w["plus"])
    if k == "rng":
        return "%s..%s" % (dz(w["lo"]), dz(w["hi"]))
    if k == "set":
        return "{%s}" % ", ".join(map(dz, w["a"]))
    if k == "tup":
        return "(%s%s)" % (", ".join(map(dz, w["a"])), "," if len(w["a"]) == 1 else "")
    if k == "rec":
        return "(%s)" % ", ".join("%s: %s" % (f["n"], dz(f["v"])) for f in w["a"])
    if k == "arr1":
        return "[%s%s]" % ("" if w["base"] == 1 else "%d: " % w["base"], ", ".join(map(dz, w["a"]))) if w["a"] else "[]"
    if k == "arrk":
        return "[%s]" % ", ".join("%s: %s" % (q(a), dz(b)) for a, b in zip(w["key"], w["a"]))
    if k == "arr2":
        return "[| %s |]" % " | ".join(", ".join(map(dz, x)) for x in w["a"])
    if k == "arrn":
        return "array%dd(%s, [%s])" % (len(w["ix"]), ", ".join(e or "%d..%d" % tuple(x) for x, e in zip(w["ix"], w.get("en", [None] * 9))), ", ".join(map(dz, w["a"])))
    raise KeyError(k)


def js(w):
    k = w["k"]
    if k in "ibs":
        return w["v"]
    if k == "f":
        return w["v"] / 4
    if k == "e":
        return {"e": w["v"]}
    if k == "abs":
        return None
    if k == "rng":
        return {"set": [[js(w["lo"]), js(w["hi"])]]}
    if k == "set":
        return {"set": [js(x) for x in w["a"]]}
    if k == "jl":
        return [js(x) for x in w["a"]]
    if k == "rec":
        return {f["n"]: js(f["v"]) for f in w["a"]}
    raise KeyError(k)


def unq(n):
    return n.strip("'")


def render(c, r):
    lines = []
    files = {}
    cmd = []
    jf = {}
    init = {}
    for a in c["asg"]:
        s = a["src"]
        if s == "init":
            init[a["n"]] = a
        elif s == "model":
            lines.append("%s = %s;" % (a["n"], dz(a["v"])))
        elif s == "cmd":
            cmd.append("%s = %s" % (a["n"], dz(a["v"])))
        elif s.endswith("dzn"):
            sep = r.choice([" = ", "=", " =\n  ", " /* = 3; */ = "])
            files.setdefault(s, []).append("%s%s%s;%s" % (a["n"], sep, dz(a["v"]), r.choice(["\n", " ", " % x = 4;\n"])))
        else:
            jf.setdefault(s, []).append((unq(a["n"]), js(a["v"])))
    for e in c["enums"]:
        lines.append("enum %s%s;" % (e, " = " + dz(init[e]["v"]) if e in init else ""))
    for d in c["decls"]:
        n = d["n"]
        lines.append("%s: %s :: add_to_output%s;" % (tt(d["t"]), n, " = " + dz(init[n]["v"]) if n in init else ""))
        if d["t"]["k"] == "arr":
            for i, ix in enumerate(d["t"]["ix"]):
                if ix["k"] != "e":
                    f = "index_set(%s)" % n if len(d["t"]["ix"]) == 1 else "index_set_%dof%d(%s)" % (i + 1, len(d["t"]["ix"]), n)
                    lines.append("set of int: i%d_%s :: add_to_output = %s;" % (i, unq(n).replace(" ", "_"), f))
    r.shuffle(lines)
    out = {"m.mzn": "\n".join(lines) + "\nsolve satisfy;\n"}
    for f, ls in files.items():
        r.shuffle(ls)
        out[f] = "".join(ls)
    for f, ps in jf.items():
        r.shuffle(ps)
        out[f] = "{%s}" % ", ".join("%s: %s" % (json.dumps(k, ensure_ascii=r.random() < .5), json.dumps(v, ensure_ascii=r.random() < .5)) for k, v in ps)
    order = [f for f in out if f != "m.mzn"]
    r.shuffle(order)
    args = ["m.mzn"] + order
    for x in cmd:
        args += ["-D", x + ";" * (r.random() < .5)]
    return out, args


def tag(t, v, em):
    k = t["k"]
    if k == "opt":
        return ["abs"] if v is None else tag(t["el"], v, em)
    if k == "i":
        if isinstance(v, bool) or not isinstance(v, int):
            raise ValueError("int expected: %r" % (v,))
        return ["i", v]
    if k == "b":
        if not isinstance(v, bool):
            raise ValueError("bool expected: %r" % (v,))
        return ["b", v]
    if k == "f":
        if isinstance(v, bool) or not isinstance(v, (int, float)) or v * 4 != int(v * 4):
            raise ValueError("float expected: %r" % (v,))
        return ["f", int(v * 4)]
    if k == "s":
        return ["s", v]
    if k == "e":
        return ["i", em[t["n"]].index(v["e"]) + 1]
    if k == "set":
        return ["set", flat(v, {m: i + 1 for ms in em.values() for i, m in enumerate(ms)})[0]]
    if k == "tup":
        if len(v) != len(t["f"]):
            raise ValueError("length")
        return ["t", [tag(f, x, em) for f, x in zip(t["f"], v)]]
    if k == "rec":
        if sorted(v) != sorted(f["n"] for f in t["f"]):
            raise ValueError("fields")
        return ["t", [tag(f["t"], v[f["n"]], em) for f in t["f"]]]
    raise KeyError(k)


def observe(c, r):
    if r.timeout:
        return None, "timeout"
    if r.rc != 0 and ("rror" in r.err) and "{" not in r.out:
        return {"err": True, "vals": []}, ""
    if r.rc != 0 or r.out.count("----------") != 1:
        return None, "status %d, output %r %r" % (r.rc, r.out[:200], r.err[:200])
    o = json.loads(r.out.split("----------")[0])
    vals = []
    try:
        for d in c["decls"]:
            t, n = d["t"], unq(d["n"])
            v = o[n]
            if t["k"] != "arr":
                vals.append(tag(t, v, ENUMS))
                continue
            dims = len(t["ix"])
            es = v if dims == 1 else [y for x in v for y in x]
            ixs = []
            for i, ix in enumerate(t["ix"]):
                if ix["k"] == "e":
                    ixs.append([1, len(v) if i == 0 else len(v[0])])
                else:
                    s = flat(o["i%d_%s" % (i, n.replace(" ", "_"))], {})[0]
                    ixs.append([s[0], s[-1]] if s else [t["ix"][i].get("lo", 1), t["ix"][i].get("lo", 1) - 1])
            vals.append(["a", ixs, [tag(t["el"], e, ENUMS) for e in es]])
    except (ValueError, KeyError, TypeError, IndexError) as x:
        return None, "unexpected output: %r in %s" % (x, r.out[:300])
    return {"err": False, "vals": vals}, ""


def strip(x):
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items() if k not in ("val", "src", "en")}
    return [strip(v) for v in x] if isinstance(x, list) else x


def judge(ck, jd):
    d = vf.tmpdir()
    p = os.path.join(d, "cases.json")
    json.dump([strip({x: c[x] for x in ("decls", "enums", "asg", "obs")} | {"mode": c.get("mode", "")}) for c in jd], open(p, "w"))
    t = vf.tlc("MznDataCheck", "MznDataCheck.cfg", env={"CASES": p}, timeout=850)
    acc = [m for m in t.marks if m[0] == "ACC"]
    rej = [m for m in t.marks if m[0] == "REJ"]
    if len(acc) + len(rej) != len(jd):
        open(os.path.join(vf.BUILD, "tlc-fail.txt"), "w").write(t.out)
        raise vf.ToolError("TLC judged %d of %d cases: %s" % (len(acc) + len(rej), len(jd), t.out[-1500:]))
    ck.tlcstat(t)
    ck.traces += len(acc)
    for m in rej:
        c = jd[int(m[1]) - 1]
        ck.violation("%s: %s, but the specification says %s\n%s\nargs %s\n%s" % (
            ck.pid, "an error is reported" if c["obs"]["err"] else "values %s" % json.dumps(c["obs"]["vals"], ensure_ascii=False),
            "error" if m[2] == "0" or m[2] == 0 else "the data are valid", "\n".join("--- %s\n%s" % x for x in c["files"].items()), c["args"], (c["r"], c.get("printed"))),
            {"files": c["files"], "args": c["args"], "printed": c.get("printed")})
    for kk, vv in (("cases", len(jd)), ("errors_expected", sum(1 for m in acc if int(m[2]) == 0)), ("accepted", sum(1 for m in acc if int(m[2]) == 1))):
        ck.cov[kk] = ck.cov.get(kk, 0) + vv


def varable(t):
    k = t["k"]
    if k == "s" or k == "opt" and t["el"]["k"] in ("set", "s", "f"):
        return False
    if k == "set":
        return t["el"]["k"] == "e" or t["el"]["lo"] <= t["el"]["hi"]
    return all(varable(x) for x in ([t["el"]] if "el" in t else [f.get("t", f) for f in t.get("f", [])]))


def roundtrip(c, rng):
    """Print the values of a case in DZN or JSON mode, read the output as data, and return what the second run observes."""
    files, args = dict(c["files"]), list(c["args"])
    m = files["m.mzn"].split("\nsolve satisfy")[0].split("\n")
    back = [l for l in m if l.startswith("enum ")]
    if not all(" = " in l for l in back):
        return None, None
    for d in c["decls"]:
        n, t = d["n"], d["t"]
        v = "v_" + unq(n).replace(" ", "_")
        if c["var"] and varable(t):
            m.append("%s: %s :: add_to_output = %s;" % (tt(t).replace("] of ", "] of var ", 1) if t["k"] == "arr" else "var " + tt(t), q(v), n))
            back += ["%s: %s;" % (tt(t), n), "%s: %s;" % (tt(t), q(v)), "any: %s :: add_to_output = %s;" % (q("w_" + v), q(v))]
        else:
            back.append("%s: %s;" % (tt(t), n))
        back.append("any: %s :: add_to_output = %s;" % (q("w_" + unq(n)), n))
        if t["k"] == "arr":
            for i, ix in enumerate(t["ix"]):
                if ix["k"] != "e":
                    o = "i%d_%s" % (i, unq(n).replace(" ", "_"))
                    f = "index_set(%s)" % n if len(t["ix"]) == 1 else "index_set_%dof%d(%s)" % (i + 1, len(t["ix"]), n)
                    back += ["set of int: %s;" % o, "set of int: j%s :: add_to_output = %s;" % (o, f)]
    files["m.mzn"] = "\n".join(m) + "\nsolve satisfy;\n"
    c["files"] = files
    mode = c["mode"] = rng.choice(["dzn", "json"])
    r1 = vf.mzn(["--solver", "enumfzn", "--output-mode", mode] + args, files, timeout=60)
    if r1.rc != 0 or r1.out.count("----------") != 1:
        return r1, r1
    data = r1.out.split("----------")[0]
    c["printed"] = data
    r2 = vf.mzn(["--solver", "enumfzn", "--output-mode", "json", "m.mzn", "d." + mode],
                {"m.mzn": "\n".join(back) + "\nsolve satisfy;\n", "d." + mode: data}, timeout=60)
    c["back"] = "\n".join(back)
    return r1, r2


def unprefix(c, r2):
    """The observation of the second run under the names of the first one."""
    import copy
    r = copy.copy(r2)
    if r2.rc != 0 or r2.out.count("----------") != 1:
        return r, None
    o = json.loads(r2.out.split("----------")[0])
    for d in c["decls"]:
        n = unq(d["n"])
        v = "w_v_" + n.replace(" ", "_")
        if v in o and o[v] != o["w_" + n]:
            return r, "variable and parameter printed with different values: %r and %r" % (o[v], o["w_" + n])
    r.out = json.dumps({(k[2:] if k.startswith("w_") else k[1:] if k.startswith("ji") else k): v for k, v in o.items()}, ensure_ascii=False) + "\n----------\n"
    return r, None


def run_o05(ck):
    n = ck.n(260, 260 * 30)
    done = 0
    while done < n:
        k = min(3000, n - done)
        cases = []
        while len(cases) < k:
            c = Gen(ck.rng, False).case(mistakes=False)
            for a in c["asg"]:          # enumerations are defined in the model
                if a["n"] in c["enums"]:
                    a.update(src="init", j=False, v={"k": "set", "a": [{"k": "e", "v": x} for x in ENUMS[a["n"]]]})
            c["var"] = ck.rng.random() < .7
            c["files"], c["args"] = render(c, ck.rng)
            c["seed"] = ck.rng.random()
            cases.append(c)
        import random

        def go(c):
            return roundtrip(c, random.Random(c["seed"]))
        rs = vf.pmap(go, cases)
        jd = []
        for c, (r1, r2) in zip(cases, rs):
            what = "first run" if r1 is r2 else "run on the printed data"
            r, m = unprefix(c, r2)
            if m is None:
                c["obs"], m = observe(c, r)
            c["r"] = (what, r2.rc, r2.out[:600], r2.err[:400])
            if m or c["obs"] is None or c["obs"]["err"]:
                ck.violation("O05: %s: %s\n%s\n--- printed\n%s\n--- read by\n%s\n%s" % (
                    what, m or "error", "\n".join("--- %s\n%s" % x for x in c["files"].items()), c.get("printed"), c.get("back"), c["r"]),
                    {"files": c["files"], "args": c["args"], "printed": c.get("printed"), "back": c.get("back")})
            else:
                jd.append(c)
        judge(ck, jd)
        for c in jd[:3]:
            ck.sample({"files": c["files"], "printed": c["printed"], "observed": c["obs"]})
        done += k


def run(ck):
    if ck.pid == "O05":
        return run_o05(ck)
    multi = ck.pid == "D02"
    n = ck.n(420, 420 * 30)
    done = 0
    while done < n:
        k = min(4000, n - done)
        cases = []
        for _ in range(k):
            c = Gen(ck.rng, multi).case()
            c["files"], c["args"] = render(c, ck.rng)
            cases.append(c)

        def go(c):
            return vf.mzn(["--solver", "enumfzn", "--output-mode", "json"] + c["args"], c["files"], timeout=60)
        rs = vf.pmap(go, cases)
        jd = []
        for c, r in zip(cases, rs):
            c["obs"], m = observe(c, r)
            c["r"] = (r.rc, r.out[:600], r.err[:400])
            if c["obs"] is None:
                ck.violation("%s: %s\n%s\nargs %s" % (ck.pid, m, json.dumps(c["files"]), c["args"]), {"files": c["files"], "args": c["args"]})
            else:
                jd.append(c)
        judge(ck, jd)
        for c in jd[:3]:
            ck.sample({"files": c["files"], "args": c["args"], "observed": c["obs"]})
        done += k
