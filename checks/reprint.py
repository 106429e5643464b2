"""T01: parsing and printing a model (harness/reprint.cpp: the real parser and printers) preserves its meaning.

Models are drawn by the generators of the other properties, printed by the plain printer (width 0) and
the document based pretty printer (width 80), and the printed file is solved in place of the model: TLC
judges the run against MznSolve for the model as generated.  Printing the printed file once more must give
the same text.
"""
import hashlib, os, re, subprocess
import vf
from sem import *
import sem_int, sem_more, sem_func, sem_struct, sem_rec, globals as gl, par

SRC = os.path.join(vf.VERIF, "harness", "reprint.cpp")


def harness():
    h = hashlib.sha256()
    h.update(open(SRC, "rb").read())
    h.update(open(os.path.join(vf.MZNBUILD, "libmzn.a"), "rb").read())
    d = os.path.join(vf.BUILD, "h")
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, "reprint-" + h.hexdigest()[:16])
    if not os.path.exists(exe):
        for f in os.listdir(d):
            if f.startswith("reprint"):
                os.unlink(os.path.join(d, f))
        r = subprocess.run(["g++", "-std=c++17", "-O0", "-I" + os.path.join(vf.REPO, "include"),
                            "-I" + os.path.join(vf.MZNBUILD, "include"), SRC, os.path.join(vf.MZNBUILD, "libmzn.a"),
                            "-o", exe + ".tmp", "-lpthread", "-ldl"], capture_output=True, text=True)
        if r.returncode:
            raise vf.ToolError("the harness does not build: " + r.stderr[-2000:])
        os.rename(exe + ".tmp", exe)
    return exe


CH = ["a", "b", " ", "\\n", "\\t", '\\"', "\\\\", "'", "%", "/*", "(", ")", "\\\\(", "{", "é", "\\101", "\\x41", "$", "`", ";", "\\\\n", "\\'"]
LEN = {"/*": 2, "\\\\(": 2, "\\\\n": 2}


def strings(r, c, i):
    """string literals: their length and equality are outputs of the model"""
    cs = [r.choice(CH) for _ in range(r.randint(1, 8))]
    n = sum(LEN.get(x, 1) for x in cs)
    lit = '"%s"' % "".join(cs)
    nm = "sl%d" % i
    x = r.random()
    if x < .4:
        e = "string_length(%s)" % lit
    elif x < .6:
        k = r.randint(0, len(cs))
        e = 'if "%s" ++ "%s" = %s then %d else 1000 endif' % ("".join(cs[:k]), "".join(cs[k:]), lit, n)
    elif x < .8:
        v = r.randint(0, 9)
        k = r.randint(0, len(cs))
        n += 1
        e = 'string_length("%s\\(%d)%s")' % ("".join(cs[:k]), v, "".join(cs[k:]))
    else:
        v = r.choice(["x", "(", ")"])
        k = r.randint(0, len(cs))
        n += 4          # shown with quotes
        e = 'string_length("%s\\("y" ++ "%s")%s")' % ("".join(cs[:k]), v, "".join(cs[k:]))
    item(c, nm, e, ic(n).j, "int")


def item(c, nm, e, j, ty):
    t = "%s: %s :: add_to_output = %s;\n" % (ty, nm, e)
    c["text"] = c["text"] + t if c["text"].endswith("\n") else c["text"] + "\n" + t
    c["items"] = [{"n": nm, "e": j}] + c["items"]
    c["out"] = list(c["out"]) + [nm]
    c["oty"] = list(c["oty"]) + ["i" if ty == "int" else "b"]


def arith(r, d):
    """a fixed integer or Boolean expression written with as few parentheses as its grammar allows, and its value"""
    def integer(d):
        if d == 0 or r.random() < .15:
            v = r.randint(0, 9)
            return (str(v), v, 99) if r.random() < .8 else ("-%d" % v, -v, 50)
        o = r.choice(["+", "-", "*", "div", "mod", "+", "-", "neg", "^", "if", "call", "acc", "max", "len", "default", "bt", "let"])
        if o == "neg":
            s, v, p = integer(d - 1)
            return "-" + br(s, p, 51), -v, 50
        if o == "if":
            c, cv, _ = boolean(d - 1)
            a, b = integer(d - 1), integer(d - 1)
            return "if %s then %s else %s endif" % (c, a[0], b[0]), a[1] if cv else b[1], 99
        if o == "let":
            a, b = integer(d - 1), integer(0)
            return "let { int: z%d = %s; } in z%d - %s" % (d, a[0], d, br(b[0], b[2], 41)), a[1] - b[1], 0
        if o == "call":
            s, v, _ = integer(d - 1)
            return "abs(%s)" % s, abs(v), 99
        if o == "len":
            a, b = integer(d - 1), integer(d - 1)
            return "card(%s..%s)" % (br(a[0], a[2], 31), br(b[0], b[2], 31)), max(0, b[1] - a[1] + 1), 99
        if o == "default":
            a, b = integer(d - 1), integer(d - 1)
            return "%s default %s" % (br(a[0], a[2], 81), br(b[0], b[2], 81)), a[1], 80
        if o == "bt":
            a, b = integer(d - 1), integer(d - 1)
            f = r.choice(["max", "min"])
            return "%s `%s` %s" % (br(a[0], a[2], 91), f, br(b[0], b[2], 91)), (max if f == "max" else min)(a[1], b[1]), 90
        if o == "max":
            a, b = integer(d - 1), integer(d - 1)
            f = r.choice(["max", "min"])
            return "%s(%s, %s)" % (f, a[0], b[0]), (max if f == "max" else min)(a[1], b[1]), 99
        if o == "acc":
            es = [integer(d - 1) for _ in range(r.randint(1, 3))]
            k = r.randint(1, len(es))
            x = r.random()
            if x < .4:
                return "[%s][%d]" % (", ".join(e[0] for e in es), k), es[k - 1][1], 99
            if x < .7:
                return "(%s, true).%d" % (", ".join(e[0] for e in es), k), es[k - 1][1], 99
            b = r.randint(-2, 2)
            c, cv, _ = boolean(d - 1)
            if x < .75:
                return "sum(i in %d..%d, j = i + %d where j > %d)(j)" % (b, b + 2, es[0][1] % 7, b + es[0][1] % 7), 2 * (b + es[0][1] % 7) + 3, 99
            if x < .8:
                return "((a: 1) ++ (b: %s)).b" % es[0][0], es[0][1], 99
            if x < .85:
                return "(let { any: r%d = (b: %s) } in r%d).b" % (d, es[0][0], d), es[0][1], 99
            if x < .88:
                return "((%s) :: mzn_break_here)" % es[0][0], es[0][1], 99
            if x < .92:
                return "(if %s then (b: %s) else (b: 3) endif).b" % (c, es[0][0]), es[0][1] if cv else 3, 99
            return "sum([%s | i in %d..%d where %s])" % (es[0][0], b, b + 1, c), 2 * es[0][1] if cv else 0, 99
        a, b = integer(d - 1), integer(d - 1)
        if o in "+-":
            v = a[1] + b[1] if o == "+" else a[1] - b[1]
            return "%s %s %s" % (br(a[0], a[2], 40), o, br(b[0], b[2], 41)), v, 40
        if o == "*":
            return "%s * %s" % (br(a[0], a[2], 50), br(b[0], b[2], 51)), a[1] * b[1], 50
        if o == "^":
            e = r.randint(0, 2)
            return "%s ^ %d" % (br(a[0], a[2], 71), e), a[1] ** e, 70
        if b[1] == 0:
            b = ("7", 7, 99)
        q = abs(a[1]) // abs(b[1]) * (1 if (a[1] < 0) == (b[1] < 0) else -1)
        return "%s %s %s" % (br(a[0], a[2], 50), o, br(b[0], b[2], 51)), q if o == "div" else a[1] - q * b[1], 50

    def br(s, p, need):
        return s if p >= need else "(%s)" % s

    def boolean(d):
        if d == 0:
            v = r.random() < .5
            return ("true" if v else "false"), v, 99
        o = r.choice(["/\\", "\\/", "->", "<-", "<->", "xor", "not", "cmp", "cmp", "in", "sub", "set"])
        if o == "not":
            s, v, p = boolean(d - 1)
            return "not " + br(s, p, 75), not v, 75
        if o == "cmp":
            a, b = integer(d - 1), integer(d - 1)
            c = r.choice(["<", "<=", "=", "!=", ">", ">=", "=="])
            v = {"<": a[1] < b[1], "<=": a[1] <= b[1], "=": a[1] == b[1], "==": a[1] == b[1], "!=": a[1] != b[1], ">": a[1] > b[1], ">=": a[1] >= b[1]}[c]
            return "%s %s %s" % (br(a[0], a[2], 11), c, br(b[0], b[2], 11)), v, 10
        if o == "in":
            a, s = integer(d - 1), sett(d - 1)
            return "%s in %s" % (br(a[0], a[2], 13), br(s[0], s[2], 13)), a[1] in s[1], 12
        if o in ("sub", "set"):
            a, b = sett(d - 1), sett(d - 1)
            c = r.choice(["subset", "superset", "=", "!="])
            v = {"subset": a[1] <= b[1], "superset": a[1] >= b[1], "=": a[1] == b[1], "!=": a[1] != b[1]}[c]
            p = 12 if c[0] == "s" else 10
            return "%s %s %s" % (br(a[0], a[2], p + 1), c, br(b[0], b[2], p + 1)), v, p
        a, b = boolean(d - 1), boolean(d - 1)
        v = {"/\\": a[1] and b[1], "\\/": a[1] or b[1], "->": not a[1] or b[1], "<-": a[1] or not b[1], "<->": a[1] == b[1], "xor": a[1] != b[1]}[o]
        p = {"/\\": 8, "\\/": 5, "xor": 5, "->": 3, "<-": 3, "<->": 1}[o]
        return "%s %s %s" % (br(a[0], a[2], p), o, br(b[0], b[2], p + 1)), v, p

    def sett(d):
        if d == 0 or r.random() < .3:
            if r.random() < .5:
                a, b = integer(0), integer(0)
                s = set(range(a[1], b[1] + 1))
                return "%s..%s" % (br(a[0], a[2], 31), br(b[0], b[2], 31)), s, 30
            vs = [integer(0) for _ in range(r.randint(1, 3))]
            return "{%s}" % ", ".join(v[0] for v in vs), {v[1] for v in vs}, 99
        o = r.choice(["union", "diff", "symdiff", "intersect", "o..<", "comp"])
        if o == "o..<":
            a, b = integer(d - 1), integer(d - 1)
            f = r.choice(["..<", "<..", "<..<"])
            lo, hi = a[1] + (f != "..<"), b[1] - (f != "<..")
            return "%s%s%s" % (br(a[0], a[2], 31), f, br(b[0], b[2], 31)), set(range(lo, hi + 1)), 30
        if o == "comp":
            s, k = sett(d - 1), integer(0)
            return "{i + %s | i in %s where i mod 2 = 0}" % (br(k[0], k[2], 41), s[0]), {i + k[1] for i in s[1] if i % 2 == 0}, 99
        a, b = sett(d - 1), sett(d - 1)
        v = {"union": a[1] | b[1], "diff": a[1] - b[1], "symdiff": a[1] ^ b[1], "intersect": a[1] & b[1]}[o]
        p = {"union": 14, "diff": 14, "symdiff": 14, "intersect": 20}[o]
        return "%s %s %s" % (br(a[0], a[2], p), o, br(b[0], b[2], p + 1)), v, p

    while True:
        try:
            s, v, _ = integer(d) if r.random() < .5 else boolean(d)
        except OverflowError:
            continue
        if isinstance(v, bool) or abs(v) < 2 ** 30:
            return s, v


ANN = ["int_search(%s, first_fail, indomain_min)", "seq_search([int_search(%s, input_order, indomain_max, complete)])",
       "restart_none", "mzn_path(\"a\\\\b\\\"c\")"]


def decorate(r, c):
    for i in range(r.randint(1, 3)):
        strings(r, c, i)
    for i in range(r.randint(1, 3)):
        s, v = arith(r, r.randint(2, 3))
        if isinstance(v, bool):
            item(c, "ar%d" % i, s, bc(v).j, "bool")
        else:
            item(c, "ar%d" % i, s, ic(v).j, "int")
    t = c["text"]
    xs = [v["n"] for v in c["vars"] if v["ty"] == "i"][:3]
    if xs and r.random() < .4 and re.search(r"\bsolve\s+(satisfy|minimize|maximize)", t) and all(re.search(r"(?m)^var [^;]*: %s\b" % x, t) for x in xs):
        t = re.sub(r"\bsolve\s+", lambda m: "solve :: %s " % (r.choice(ANN[:2]) % ("[%s]" % ", ".join(xs))), t, count=1)
    if r.random() < .5:         # unusual names of functions and parameters
        for n in sorted(set(re.findall(r"\b(?:f|p|g)\d+\b", t)), key=len, reverse=True):
            if r.random() < .5 and n not in c["out"]:
                t = re.sub(r"(?<![\w'])%s(?![\w'])" % n, lambda m: "'%s %s'" % (n, r.choice(["é", "x", "let", "+"]) if False else "x"), t)
    if r.random() < .3:
        t += 'ann: my_ann;\nann: my_ann2(int: i, string: s);\nconstraint (true :: my_ann2(-3, "q\\"\\n")) :: my_ann;\n'
    if r.random() < .3:
        t += '/* block */ % line\nconstraint true; % end'
        t += "\n"
    c["text"] = t
    return c


def gen(r, i, names):
    while True:
        x = r.random()
        if x < .16:
            c = sem_int.model(r, r.random() < .5).case()
        elif x < .24:
            c = sem_more.s04(r, i)
        elif x < .34:
            c = sem_more.s05(r, i)
        elif x < .42:
            c = sem_more.s10(r, i)
        elif x < .54:
            c = sem_func.GEN["S07"][0](r, i)
        elif x < .62:
            c = sem_func.GEN["S15"][0](r, i)
        elif x < .74:
            c = sem_struct.GEN["S03"][0](r, i)
        elif x < .9:
            c = sem_rec.s06(r, i)
        else:
            c = gl.case(r, r.choice(names), False)
        if c and not c.get("key"):
            return decorate(r, c)


def reprint(exe, jobs):
    """[(width, text)] -> [(ok, text or error)]"""
    d = vf.tmpdir()
    def part(js):
        lines = []
        for k, (w, t) in js:
            open(os.path.join(d, "i%d.mzn" % k), "w").write(t)
            lines.append("%d %s/i%d.mzn %s/o%d.mzn" % (w, d, k, d, k))
        r = subprocess.run([exe, os.path.join(vf.REPO, "share", "minizinc")], input="\n".join(lines) + "\n", capture_output=True, text=True, timeout=600)
        ls = r.stdout.splitlines()
        out = []
        for n, (k, _) in enumerate(js):
            if n >= len(ls):
                out.append((k, False, "the printer ended with status %d %s" % (r.returncode, r.stderr[-200:])))
            elif ls[n] == "ok":
                out.append((k, True, open(os.path.join(d, "o%d.mzn" % k), errors="replace").read()))
            else:
                out.append((k, False, ls[n]))
        return out
    ks = list(enumerate(jobs))
    res = {}
    for out in vf.pmap(part, [ks[i::8] for i in range(8) if ks[i::8]]):
        for k, ok, t in out:
            res[k] = (ok, t)
    return [res[k] for k in range(len(jobs))]


def run(ck):
    exe = harness()
    names = sorted(gl.names_for("S12", 400, ck.rng))
    n = ck.n(150, 150 * 40)
    done = 0
    while done < n:
        k = min(2000, n - done)
        cases = [gen(ck.rng, done + i, names) for i in range(k)]
        ws = [0 for _ in cases]
        o1 = reprint(exe, [(w, c["text"]) for w, c in zip(ws, cases)])
        good = []
        for w, c, (ok, t) in zip(ws, cases, o1):
            if not ok:
                ck.violation("T01: printing (width %d) fails: %s\n%s" % (w, t, c["text"]), {"text": c["text"], "width": w}, key=c.get("key"))
                continue
            good.append(dict(c, text=t, orig=c["text"], width=w))
        o2 = reprint(exe, [(c["width"], c["text"]) for c in good])      # may still regroup what is associative
        o3 = reprint(exe, [(c["width"], t) for c, (_, t) in zip(good, o2)])
        for c, (ok2, t2), (ok, t) in zip(good, o2, o3):
            if not ok2 or not ok or t != t2:
                ck.violation("T01: the printed model is not printed as itself:\n%s\n--- printed from\n%s\n--- again\n%s" % (
                    t2 if not ok2 else t if not ok else first_diff(t2, t), c["orig"], c["text"]), {"text": c["orig"], "printed": c["text"]}, key=c.get("key"))
        ck.cov["fixpoints_checked"] = ck.cov.get("fixpoints_checked", 0) + len(good)
        check_cases(ck, good, ck.pid)
        done += k


def first_diff(a, b):
    for x, y in zip(a.splitlines(), b.splitlines()):
        if x != y:
            return "%s  ||  %s" % (x[:200], y[:200])
    return "length"
