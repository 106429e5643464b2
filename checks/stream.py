"""O01-O04: translation of solver output streams (MznStream.tla), driven by scripted solver processes."""
import json, os, random, shutil
import vf

STD = dict(OPT="==========", UNSAT="=====UNSATISFIABLE=====", UNBND="=====UNBOUNDED=====",
           UNSATorUNBND="=====UNSATorUNBOUNDED=====", UNKNOWN="=====UNKNOWN=====", ERROR="=====ERROR=====")
FLAG = dict(OPT="--search-complete-msg", UNSAT="--unsat-msg", UNBND="--unbounded-msg", UNSATorUNBND="--unsatorunbnd-msg",
            UNKNOWN="--unknown-msg", ERROR="--error-msg")
ITEMS = [   # (model output item, lines of parts, ends with newline)
    ('output ["x=\\(x) b=\\(b)", " a=\\(a)"];', [[["s", "x="], ["v", "x"], ["s", " b="], ["v", "b"], ["s", " a="], ["v", "a"]]], False, "xba"),
    ('output ["x=", show(x), "\\n", "b=", show(b), "\\n"];', [[["s", "x="], ["v", "x"]], [["s", "b="], ["v", "b"]]], True, "xb"),
    ('output [show(x)];', [[["v", "x"]]], False, "x"),
    ('output ["\\"q\\"\\t\\\\\u00e9 ", "\\(x)/\\(a)", "\\n\\n", "end {}[]\\n"];',
     [[["s", "\"q\"\t\\\u00e9 "], ["v", "x"], ["s", "/"], ["v", "a"]], [], [["s", "end {}[]"]]], True, "xa"),
    ('', [[["s", "x = "], ["v", "x"], ["s", ";"]], [["s", "b = "], ["v", "b"], ["s", ";"]], [["s", "a = "], ["v", "a"], ["s", ";"]]], True, "xba"),
    ('output ["x=\\(x)\\n"] ++ ["b=\\(b)\\n" | i in 1..2] ++ ["a\\n"];',
     [[["s", "x="], ["v", "x"]], [["s", "b="], ["v", "b"]], [["s", "b="], ["v", "b"]], [["s", "a"]]], True, "xb"),
]
COMMENTS = ["% hello", "%", "% x = 5;", "%%% ---- ----------", "% ----------", "%==========", "  % indented", "\t% tab", "% =====UNSATISFIABLE=====",
            "% \"quoted\" \\ back\\n slash", "% \u00e9\u4e16\u754c", "%% {\"type\": \"status\"}", "% trailing  ", "%%%mzn-other: 5",
            "% " + "long " * 700, "% ctrl \x01\x1f end", "% /* not a block", "% progress 1\rprogress 2", "% a\r\rb", "%%%mzn-stat"]
STATS = ["nodes=12", "failures=3", "time=0.5", 'method="x y"', "k=true", "objective=-7", "neg=-0.25", 's="a\\"b"', 'lit="-"', "v=100000000000"]


def sol(r):
    return {"x": {"val": r.randint(0, 9)}, "b": {"bool": r.random() < .5}, "a": {"arr": [r.randint(0, 9), r.randint(0, 9)]}}


def show(v):
    if "arr" in v:
        return "[%s]" % ", ".join(map(str, v["arr"]))
    return ("true" if v["bool"] else "false") if "bool" in v else str(v["val"])


def render(r, l, eol):
    """text of one line record"""
    k = l["k"]
    if k == "asg":
        out = []
        for n, v in l["a"]:
            t = show(v)
            if "arr" in v:
                t = r.choice([t, "array1d(1..2, %s)" % t, "array1d(1..2,[%d,%d])" % tuple(v["arr"]), t.replace(", ", ",")])
                if l.get("multi"):
                    t = t.replace("[", "[" + eol).replace("]", eol + "]")
            out.append(r.choice(["%s = %s;", "%s=%s;", " %s = %s ;", "%s\t=  %s;"]) % (n, t))
        t = r.choice([" ", "", "  "]).join(out)
        if r.random() < .1:
            t += r.choice([" % x = 1;", "   % ----------", " "])
        return t
    if k == "sep":
        return "----------"
    if k == "st":
        return STD[l["t"]]
    if k == "com":
        return l["t"]
    if k == "stat":
        return "%%%mzn-stat: " + l["t"]
    if k == "statend":
        return "%%%mzn-stat-end"
    if k == "blank":
        return l["t"]
    return l["t"]


def gen_stream(r, names, w):
    """random line records of a stream, and whether it ends with a status"""
    L = []

    def noise(p):
        while r.random() < p:
            x = r.random()
            if x < .5:
                L.append({"k": "com", "t": r.choice(COMMENTS)})
            elif x < .7:
                L.append({"k": "blank", "t": ""})
            elif x < .9 or not w.get("statpart"):
                for s in r.sample(STATS, r.randint(1, 3)):
                    L.append({"k": "stat", "t": s})
                L.append({"k": "statend", "t": ""})
            else:
                L.append({"k": "stat", "t": r.choice(STATS)})
    pool = [sol(r) for _ in range(r.randint(1, 4))]
    if w.get("dups"):
        for p in list(pool):
            if r.random() < .4:
                q = dict(p)
                k = r.choice("xba")
                q[k] = sol(r)[k]
                pool.append(q)
    ns = r.choice(w.get("ns", [0, 1, 2, 2, 3, 4]))
    for i in range(ns):
        noise(.3)
        s = r.choice(pool) if w.get("dups") else sol(r)
        vs = list(names)
        if r.random() < .4:
            r.shuffle(vs)
        groups, cur = [], []
        for v in vs:
            cur.append([v, s[v]])
            if r.random() < .7:
                groups.append(cur)
                cur = []
        if cur:
            groups.append(cur)
        for g in groups:
            L.append({"k": "asg", "a": g, "multi": r.random() < .12 and not w.get("ign")})
            noise(.12)
        L.append({"k": "sep"})
    noise(.3)
    if w.get("bad") and r.random() < w["bad"]:
        L.append({"k": "bad", "t": r.choice(["---------- ", "x = ;", "garbage !", "--------- -"])})
        L.append({"k": "sep"})
        return L
    x = r.random()
    if x < w.get("pstatus", .7):
        if ns and not w.get("anystatus"):
            L.append({"k": "st", "t": "OPT"})
        else:
            L.append({"k": "st", "t": r.choice(list(STD))})
        noise(.3)
    return L


def chunks(r, data, mode):
    """cut points"""
    n = len(data)
    if mode == "whole" or n == 0:
        return [data]
    if mode == "bytes":
        if n > 400:
            a = r.randrange(n - 300)
            return [data[:a]] + [data[i:i + 1] for i in range(a, a + 300)] + [data[a + 300:]]
        return [data[i:i + 1] for i in range(n)]
    k = r.randint(1, 12)
    cuts = set(r.randrange(n) for _ in range(k))
    for i in range(n):      # around line ends and inside markers
        if data[i:i + 1] in (b"\n", b"\r") and r.random() < .4:
            cuts.add(i + r.choice([0, 1]))
        if data[i:i + 4] in (b"----", b"====") and r.random() < .1:
            cuts.add(i + r.randint(0, 3))
    c = sorted(x for x in cuts if 0 < x < n)
    return [data[a:b] for a, b in zip([0] + c, c + [n])]


def make(r, pid):
    w = {}
    o = dict(json=False, uniq=True, canon=False, com=True, sep="----------", comma="", msg=dict(STD), ign=0, rc=0, sa=False,
             sat=True, item=None, needs=[])
    fl = []
    item, parts, nl, names = r.choice(ITEMS)
    end = []
    eolmode = "\n"
    cm = "cuts"
    if pid == "O01":
        w.update(dups=.2)
        eolmode = r.choice(["\n", "\n", "\r\n", "mix"])
        cm = r.choice(["whole", "bytes", "cuts", "cuts", "cuts"])
        if r.random() < .2:
            o["sa"] = True
    elif pid == "O02":
        w.update(dups=1, ns=[2, 3, 4, 5, 6], statpart=1)
        o["sa"] = r.random() < .2
        x = r.random()
        if x < .3:
            o["uniq"] = False
            fl.append("--non-unique")
        elif x < .7:
            o["canon"] = True
            fl.append(r.choice(["--canonicalize"]))
            if r.random() < .2:
                o["uniq"] = False
                fl.append("--non-unique")
        if r.random() < .3:
            o["comma"] = r.choice([",", "+++", "next solution"])
            fl += [r.choice(["--soln-comma", "--solution-comma"]), o["comma"]]
        if r.random() < .3:
            o["sep"] = r.choice(["", "***", "=end=", "sep arator"])
            fl += [r.choice(["--soln-sep", "--soln-separator", "--solution-separator"]), o["sep"]]
        for k in STD:
            if r.random() < .15:
                o["msg"][k] = r.choice(["", "done %s" % k, "%%%"])
                fl += [FLAG[k], o["msg"][k]]
        if r.random() < .2:
            o["com"] = False
            fl.append("--no-output-comments")
        if r.random() < .25:
            w["ign"] = 1
        o["json"] = r.random() < .25 and not o["comma"]
        w["anystatus"] = r.random() < .3
    elif pid == "O03":
        o["json"] = True
        w.update(dups=.5, statpart=1, anystatus=1)
        eolmode = r.choice(["\n", "\n", "\r\n"])
        if r.random() < .2:
            o["canon"] = True
            fl.append("--canonicalize")
        if r.random() < .15:
            o["com"] = False
            fl.append("--no-output-comments")
        if r.random() < .1:
            o["msg"]["OPT"] = ""
            fl += [FLAG["OPT"], ""]
        if r.random() < .3:
            o["sat"] = False
    else:
        w.update(anystatus=1, ns=[0, 0, 1, 1, 2], pstatus=.6, bad=.12)
        x = r.random()
        if x < .35:
            o["rc"] = r.choice([1, 2, 42, 127, 255])
            end = [["x", o["rc"]]]
        elif x < .5:
            s = r.choice([9, 11, 6, 15, 2])
            o["rc"] = 128 + s
            end = [["k", s]]
        o["sat"] = r.random() < .7
        o["json"] = r.random() < .25
        w["dups"] = .3
        if r.random() < .3:
            o["canon"] = True
            fl.append("--canonicalize")
    if o["json"]:
        fl.append("--json-stream")
    o["item"], o["needs"] = parts, list(names)
    L = gen_stream(r, names, w)
    if w.get("ign") and L:
        # a cut between solutions, so that no solution is left with missing values
        cut = [i + 1 for i, l in enumerate(L) if l["k"] == "sep" or all(x["k"] not in ("asg", "sep") for x in L[:i + 1])]
        o["ign"] = r.choice(cut or [0])
        # only ignore whole assignments
        fl += [r.choice(["--ignore-lines", "--ignore-leading-lines"]), str(o["ign"])]
    if o["sa"]:
        # nothing is left over in stand-alone mode
        k = len(L)
        if o["json"] and any(l["k"] == "stat" for l in L):
            L.append({"k": "statend", "t": ""})
    lines = []
    for l in L:
        eol = r.choice(["\n", "\r\n"]) if eolmode == "mix" else eolmode
        lines.append((render(r, l, eol), eol))
    data = b""
    nonl = r.random() < .35
    for i, (t, e) in enumerate(lines):
        data += t.encode() + (b"" if nonl and i == len(lines) - 1 else e.encode())
    if nonl and lines and lines[-1][0] == "" and o["sa"]:
        L.pop()
    model = "var 0..9: x; var bool: b; array[1..2] of var 0..9: a;\n%s\nsolve %s;\n%s\n" % (
        "", "satisfy" if o["sat"] else r.choice(["minimize x", "maximize x"]), item)
    return dict(opt=o, lines=[{k: v for k, v in l.items() if k != "multi"} for l in L], flags=fl, data=data.decode("utf-8"),
                chunks=[c.decode("utf-8", "surrogateescape") for c in chunks(r, data, cm)], end=end, model=model, nl=nl,
                noncan=[], hasnc=o["canon"] and not o["sa"] and r.random() < .3, raw=[], rawin=[],
                hasraw=pid in ("O01", "O02") and not o["sa"] and r.random() < .2, tofile=pid == "O02" and r.random() < .15 and not o["sa"],
                gap=r.choice([0, .0005, .002]))


KINDS = {"solution", "comment", "status", "statistics", "checker", "error", "warning", "trace", "time", "profiling", "paths", "interface", "core"}


def records(c, text, js=None):
    js = c["opt"]["json"] if js is None else js
    out = []
    if not js:
        ls = text.split("\n")
        if ls[-1] != "":
            out = [["l", x] for x in ls]
            return out + [["malformed", "no final newline"]]
        return [["l", x] for x in ls[:-1]]
    for ln in text.split("\n")[:-1] if text.endswith("\n") or not text else text.split("\n"):
        try:
            d = json.loads(ln)
            t = d["type"]
            if t == "statistics":       # keep repeated names
                d["statistics"] = json.loads(ln, object_pairs_hook=list)[1][1]
            if t not in KINDS:
                raise ValueError("kind")
            if t == "solution":
                v = d["output"].get("default", d["output"].get("dzn"))
                if c["nl"]:
                    if not v.endswith("\n"):
                        raise ValueError("newline")
                    v = v[:-1]
                if set(d["sections"]) != set(d["output"]):
                    raise ValueError("sections")
            elif t == "comment":
                v = d["comment"]
            elif t == "status":
                v = d["status"]
            elif t == "statistics":
                v = ";".join("%s=%s" % (k, json.dumps(x)) for k, x in d["statistics"])
            else:
                v = d.get("message", json.dumps(d))
            out.append([t, v])
        except (ValueError, KeyError, TypeError, AttributeError) as e:
            out.append(["malformed", ln + " " + str(e)])
    return out


def run_case(c):
    d = vf.tmpdir()
    script = []
    for i, ch in enumerate(c["chunks"]):
        script.append(["o", ch])
        if c["gap"] and i < len(c["chunks"]) - 1:
            script.append(["s", c["gap"]])
    script += c["end"]
    json.dump(script, open(os.path.join(d, "script.json"), "w"))
    args = list(c["flags"])
    if c["hasnc"]:
        args += ["--output-non-canonical", "nc.txt"]
    if c["hasraw"]:
        args += ["--output-raw", "raw.txt"]
    if c["tofile"]:
        args += ["--output-to-file", "res.txt"]
    open(os.path.join(d, "m.mzn"), "w").write(c["model"])
    try:
        if c["opt"]["sa"]:
            r0 = vf.mzn(["-c", "--solver", "fake", "m.mzn", "--fzn", "m.fzn", "--ozn", "m.ozn"] + (["--json-stream"] if c["opt"]["json"] else []), keep=d)
            if r0.rc:
                raise vf.ToolError("compile failed: " + r0.err)
            r = vf.mzn(["--ozn-file", "m.ozn"] + args, keep=d, stdin=c["data"])
        else:
            r = vf.mzn(["--solver", "fake", "-a" if c["opt"]["sat"] else "-i"] + args + ["m.mzn"], keep=d,
                       env={"FAKE_SCRIPT": os.path.join(d, "script.json"), "FAKE_LOG": os.path.join(d, "log")})

        def rd(n):
            p = os.path.join(d, n)
            return open(p, newline="").read() if os.path.exists(p) else ""
        c["rc"], c["stdout"], c["err"] = r.rc, r.out, r.err
        if r.timeout:
            c["rc"], c["out"] = -1, [["malformed", "hang"]]
            return c
        c["out"] = records(c, rd("res.txt") if c["tofile"] else r.out)
        if c["tofile"] and r.out:
            c["out"].append(["malformed", "standard output: " + r.out[:100]])
        if c["hasnc"]:
            c["noncan"] = records(c, rd("nc.txt"))
        if c["hasraw"]:
            raw = rd("raw.txt")
            c["raw"], c["rawin"] = raw.rstrip("\n").split("\n"), c["data"].rstrip("\n").split("\n")
        # JSON statistics: normal form of the values
        if c["opt"]["json"]:
            pass
        if c["rc"] != 0 and c["opt"]["rc"] == 0 and "rror" not in r.err + r.out and not any(l.get("t") == "ERROR" for l in c["lines"]):
            c["out"].append(["malformed", "failure without message"])
        return c
    finally:
        shutil.rmtree(d, ignore_errors=True)


def statnorm(t):
    k, v = t.split("=", 1)
    if v.startswith('"'):
        x = json.loads(v)
    elif v in ("true", "false"):
        x = v == "true"
    else:
        x = float(v) if "." in v else int(v)
    return "%s=%s" % (k, json.dumps(x))


def judge(ck, cases):
    d = vf.tmpdir()
    p = os.path.join(d, "cases.json")
    J = []
    for c in cases:
        j = {k: c[k] for k in ("opt", "lines", "out", "noncan", "hasnc", "raw", "rawin", "rc")}
        if c["opt"]["json"]:
            j["lines"] = [dict(l, t=statnorm(l["t"])) if l["k"] == "stat" else l for l in c["lines"]]
        J.append(j)
    json.dump(J, open(p, "w"))
    t = vf.tlc("MznStreamTrace", "MznStreamTrace.cfg", env={"CASES": p}, timeout=600)
    acc = [m for m in t.marks if m[0] == "ACC"]
    rej = [m for m in t.marks if m[0] == "REJ"]
    if len(acc) + len(rej) != len(cases) or not t.ok:
        shutil.copy(p, os.path.join(vf.BUILD, "tlc-fail-cases.json"))
        open(os.path.join(vf.BUILD, "tlc-fail.txt"), "w").write(t.out)
        raise vf.ToolError("TLC judged %d of %d: %s" % (len(acc) + len(rej), len(cases), t.out[-1500:]))
    ck.tlcstat(t)
    return [(int(m[1]) - 1, int(m[2]), m[3]) for m in rej]


def run(ck):
    r = ck.rng
    n = ck.n(260, 2500)
    for batch in range(ck.n(1, 4)):
        cases = [make(r, ck.pid) for _ in range(n)]
        vf.pmap(run_case, cases)
        rej = judge(ck, cases)
        if rej:
            again = [cases[i] for i, _, _ in rej]
            vf.pmap(run_case, again, 4)
            rej = [(cases.index(again[i]), a, b) for i, a, b in judge(ck, again)]
        ck.traces += len(cases) - len(rej)
        for i, at, why in rej:
            c = cases[i]
            ck.violation("stream translation (%s after line %d): flags %s rc %d solver rc %d\ninput %r\noutput %r" % (
                why, at, c["flags"], c["rc"], c["opt"]["rc"], c["data"][:300], c["stdout"][:400]),
                {k: v for k, v in c.items()})
        ck.cov["streams"] = ck.cov.get("streams", 0) + len(cases)
        ck.cov["stream_lines"] = ck.cov.get("stream_lines", 0) + sum(len(c["lines"]) for c in cases)
        ck.cov["reads_forced"] = ck.cov.get("reads_forced", 0) + sum(len(c["chunks"]) for c in cases)
        for c in cases[:2]:
            ck.sample({"flags": c["flags"], "input": c["data"][:400], "chunks": len(c["chunks"]), "output": c["out"][:8]})
