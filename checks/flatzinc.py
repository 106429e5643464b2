"""D07: compiled FlatZinc is well formed (MznFlatZinc reads what the compiler writes)."""
import importlib.machinery, importlib.util, json, os, shutil
import vf
import sem_int, sem_more, sem_func, sem_rec, sem_struct, globals as globs

_l = importlib.machinery.SourceFileLoader("enumfzn", os.path.join(vf.VERIF, "tools", "enumfzn.py"))
_s = importlib.util.spec_from_loader("enumfzn", _l)
enumfzn = importlib.util.module_from_spec(_s)
_l.exec_module(enumfzn)
BASE = {"int": "i", "bool": "b", "float": "f"}


class Rd(enumfzn.P):
    """strict FlatZinc reader producing the records of MznFlatZinc"""

    def lst(self, close):
        a = []
        while not self.acc(close):
            if a:
                self.exp(",")
            a.append(self.x())
        return a

    def x(self):
        k, v = self.next()
        if k in ("i", "f"):
            if self.acc(".."):
                k2, w = self.next()
                if k2 != k:
                    raise SyntaxError("range of int and float")
                return {"e": "s" if k == "i" else "sf", "r": max(0, int(w) - int(v) + 1) if k == "i" else 0}
            return {"e": k}
        if k == "s":
            return {"e": "x"}
        if k == "id":
            if v in ("true", "false"):
                return {"e": "b"}
            if self.acc("("):
                return {"e": "call", "n": v, "a": self.lst(")")}
            return {"e": "id", "n": v}
        if v == "[":
            return {"e": "arr", "a": self.lst("]")}
        if v == "{":
            a = self.lst("}")
            if len({y["e"] for y in a}) > 1:
                raise SyntaxError("mixed set literal")
            return {"e": "sf" if a and a[0]["e"] == "f" else "s"}
        raise SyntaxError("bad expression at %r" % v)

    def typ(self):
        """-> (type record without array)"""
        var = self.acc("var")
        st = self.acc("set")
        if st:
            self.exp("of")
        k, v = self.peek()
        if k == "id":
            self.next()
            t = BASE[v]
        else:
            e = self.x()
            t = {"s": "i", "sf": "f"}[e["e"]]
            if not var:
                raise SyntaxError("fixed type with a domain")
        if st:
            t = {"i": "s", "f": "sf"}[t]
        return {"a": False, "v": var, "t": t}

    def code(self):
        a = ""
        if self.acc("array"):
            a = "a"
            self.exp("[")
            self.next()
            if self.acc(".."):
                self.next()
            self.exp("]")
            self.exp("of")
        var = self.acc("var")
        st = self.acc("set")
        if st:
            self.exp("of")
        k, v = self.peek()
        if k == "id":
            self.next()
            t = BASE[v]
        else:
            t = {"s": "i", "sf": "f"}[self.x()["e"]]
        if st:
            t = {"i": "s", "f": "sf"}[t]
        return a + ("v" if var else "") + t

    def an(self):
        a = []
        while self.acc("::"):
            a.append(self.x())
        return a

    def items(self):
        out = []
        while self.peek()[0] != "eof":
            out.append(self.item())
            self.exp(";")
        return out

    def item(self):
        if self.acc("predicate"):
            n = self.next()[1]
            self.exp("(")
            ps = []
            while not self.acc(")"):
                if ps:
                    self.exp(",")
                ps.append(self.code())
                self.exp(":")
                self.next()
            return {"k": "pred", "n": n, "ps": ps}
        if self.acc("constraint"):
            c = self.x()
            an = self.an()
            if c["e"] != "call":
                raise SyntaxError("constraint is not a call")
            ds = [a["a"][0].get("n", "?") for a in an if a["e"] == "call" and a["n"] == "defines_var"]
            return {"k": "con", "n": c["n"], "args": c["a"], "defs": ds, "refs": refs(an)}
        if self.acc("solve"):
            an = self.an()
            g = self.next()[1]
            obj = [] if g == "satisfy" else [self.x()]
            if g not in ("satisfy", "minimize", "maximize"):
                raise SyntaxError("solve " + g)
            return {"k": "solve", "goal": g, "obj": obj, "refs": refs(an)}
        ln, arr = -1, False
        if self.acc("array"):
            arr = True
            self.exp("[")
            if self.next()[1] != 1:
                raise SyntaxError("array index set")
            self.exp("..")
            ln = self.next()[1]
            self.exp("]")
            self.exp("of")
        ty = self.typ()
        ty["a"] = arr
        self.exp(":")
        k, n = self.next()
        if k != "id":
            raise SyntaxError("name expected")
        an = self.an()
        rhs = [self.x()] if self.acc("=") else []
        out = []
        for a in an:
            if a["e"] == "call" and a["n"] == "output_array":
                out = [y.get("r", 0) for y in a["a"][0]["a"]]
        return {"k": "decl", "n": n, "ty": ty, "rhs": rhs, "len": ln, "refs": refs(an), "out": out,
                "defd": any(a["e"] == "id" and a["n"] == "is_defined_var" for a in an)}


def refs(an):
    """names that an annotation uses as variables: in array literals and as the variables of a search"""
    out = []

    def go(x, arr):
        if x["e"] == "id" and (arr or x["n"].startswith("X_INTRODUCED_")):
            out.append(x["n"])
        elif x["e"] == "arr":
            for y in x["a"]:
                go(y, y["e"] == "id" and not x.get("anns"))
        elif x["e"] == "call":
            for i, y in enumerate(x["a"]):
                if x["n"] == "seq_search" and y["e"] == "arr":
                    y = dict(y, anns=True)
                go(y, i == 0 and x["n"] in ("int_search", "bool_search", "float_search", "set_search", "defines_var"))
    for a in an:
        go(a, False)
    return out


def read(text):
    return Rd(enumfzn.lex(text)).items()


def gen(ck, i):
    r = ck.rng
    k = i % 12
    if k == 0:
        return sem_int.model(r, r.random() < .5, False).case(flags=[], solver="gecode")
    if k == 1:
        return sem_more.s04(r, i)
    if k == 2:
        return sem_more.s05(r, i)
    if k == 3:
        return sem_more.s10(r, i)
    if k == 4:
        return sem_more.s14(r, i)
    if k == 5:
        return sem_rec.s06(r, i)
    if k in (6, 7):
        return sem_struct.s03(r, i)
    if k == 8:
        return sem_func.s07(r, i)
    if k == 9:
        return sem_func.s08(r, i)
    if k == 10:
        return sem_func.s15(r, i)
    return globs.case(r, globs.names_for("S12", 1, r)[0], False)


LIBS = [["--solver", "gecode"], ["--solver", "enumfzn"], ["--solver", "gecode", "-G", "linear"], ["--solver", "gecode", "-G", "std"]]


def compile_case(c):
    d = vf.tmpdir()
    try:
        files = {"m.mzn": c["text"]}
        files.update(c.get("files") or {})
        fl = [f for f in c.get("flags") or [] if f.startswith("-O")]
        r = vf.mzn(c["lib"] + fl + c["copt"] + ["-c", "--fzn", "m.fzn", "--ozn", "m.ozn", "m.mzn"] + list(c.get("extra") or []), files, timeout=60, keep=d)
        p = os.path.join(d, "m.fzn")
        return r, open(p).read() if r.rc == 0 and os.path.exists(p) else None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(ck):
    n = ck.n(480, 480 * 25)
    done = 0
    while done < n:
        k = min(2400, n - done)
        cases = [c for c in (gen(ck, done + i) for i in range(k)) if c]
        for c in cases:
            c["lib"] = ck.rng.choice(LIBS)
            c["copt"] = ck.rng.choice([[], [], ["-O0"], ["-O2"], ["--no-optimize"]]) if not any(f.startswith("-O") for f in c.get("flags") or []) else []
            if ck.rng.random() < .3:
                c["text"] = search(c["text"], ck.rng)
        rs = vf.pmap(compile_case, cases)
        jd, js = [], []
        for c, (r, t) in zip(cases, rs):
            if t is None:
                ck.cov["not_compiled"] = ck.cov.get("not_compiled", 0) + 1
                continue
            c["fzn"] = t
            try:
                js.append(read(t))
                jd.append(c)
            except (SyntaxError, KeyError, IndexError) as e:
                ck.violation("D07: the FlatZinc is not in the standard's syntax: %s %s\n%s\n%s\n%s" % (type(e).__name__, e, c["text"], c["lib"] + c["copt"], t[-3000:]), {"text": c["text"], "lib": c["lib"], "copt": c["copt"]})
        d = vf.tmpdir()
        p = os.path.join(d, "cases.json")
        json.dump(js, open(p, "w"))
        t = vf.tlc("MznFlatZincTrace", "MznFlatZincTrace.cfg", env={"CASES": p}, timeout=850)
        acc, rej = [[m for m in t.marks if m[0] == x] for x in ("ACC", "REJ")]
        if len(acc) + len(rej) != len(jd):
            open(os.path.join(vf.BUILD, "tlc-fail.txt"), "w").write(t.out)
            raise vf.ToolError("TLC judged %d of %d cases: %s" % (len(acc) + len(rej), len(jd), t.out[-1500:]))
        ck.tlcstat(t)
        ck.traces += len(acc)
        for m in rej:
            c, it = jd[int(m[1]) - 1], js[int(m[1]) - 1]
            j = int(m[2])
            ck.violation("D07: item %d of the FlatZinc is refused: %s\n%s\n%s\n%s\n%s" % (
                j, m[3], json.dumps(it[j - 1]) if 0 < j <= len(it) else "", c["text"], c["lib"] + c["copt"], c["fzn"][-2500:]), {"text": c["text"], "lib": c["lib"], "copt": c["copt"]})
        for kk, vv in (("files", len(jd)), ("items", sum(len(x) for x in js)), ("constraints", sum(1 for x in js for y in x if y["k"] == "con")),
                       ("defined_variables", sum(1 for x in js for y in x if y.get("defd")))):
            ck.cov[kk] = ck.cov.get(kk, 0) + vv
        ck.cov["constraint_names"] = len(set(y["n"] for x in js for y in x if y["k"] == "con"))
        for c in jd[:2]:
            ck.sample({"model": c["text"], "options": c["lib"] + c["copt"]})
        done += k


def search(text, rng):
    """put a search annotation on the solve item"""
    import re
    vs = re.findall(r"^var (?:int|-?\d+\.\.-?\d+|\{[-\d, ]*\}): (\w+)", text, re.M)
    if not vs or "solve ::" in text:
        return text
    vs = rng.sample(vs, rng.randint(1, len(vs)))
    a = "int_search([%s], %s, indomain_min, complete)" % (", ".join(vs + (["%s + 1" % vs[0]] if rng.random() < .3 else [])), rng.choice(["input_order", "first_fail"]))
    if rng.random() < .3:
        a = "seq_search([%s, int_search([%s], input_order, indomain_max)])" % (a, vs[-1])
    return re.sub(r"^solve ", "solve :: %s " % a, text, count=1, flags=re.M)
