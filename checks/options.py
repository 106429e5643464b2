"""D04, D06: which solver a name selects and which options reach the solver process (MznOptions)."""
import json, os, random, shutil
import vf

FAKE = os.path.join(vf.VERIF, "tools", "fakesolver.py")
STD = ["-a", "-i", "-n", "-s", "-p", "-r", "-f", "-t", "-n-o", "-a-o"]
ALIAS = {"-a": ["-a", "--all", "--all-solns", "--all-solutions"], "-i": ["-i", "--intermediate", "--intermediate-solutions"],
         "-n-i": ["-n-i", "--no-intermediate", "--no-intermediate-solutions"], "-n": ["-n", "--num-solutions"],
         "-p": ["-p", "--parallel"], "-r": ["-r", "--seed", "--random-seed"], "-s": ["-s", "--statistics", "--solver-statistics"],
         "-f": ["-f", "--free-search"], "-t": ["-t", "--solver-time-limit", "--fzn-time-limit"], "-n-o": ["-n-o", "--num-optimal"],
         "-a-o": ["-a-o", "--all-opt", "--all-optimal"], "-b": ["-b", "--backend", "--solver-backend"]}
SWITCH = ["-a", "-i", "-s", "-f", "-a-o"]
VALUED = ["-n", "-p", "-r", "-t", "-n-o", "-b"]
EXTRA = [("--xint", "int", True), ("--xflag", "bool", False), ("--xname", "string", True), ("-xs", "bool", False), ("--xf", "float", True),
         ("--xopt", "opt:one:two", True), ("--xbo", "bool:on:off", True)]
MODEL = {True: "var 1..3: x; solve satisfy;", False: "var 1..3: x; solve maximize x;"}


def value(rng, k):
    if k == "-t":
        return str(rng.choice([20000, 30001, 45678]))
    if k == "-b":
        return rng.choice(["cplex", "gurobi"])
    if k in ("-n", "-n-o"):
        return str(rng.choice([0, 1, 1, 2, 5]))
    return str(rng.choice([0, 1, 2, 3, 7, 4294967295 if k == "-r" else 64]))


def xval(rng, n):
    return {"--xint": rng.choice(["0", "-3", "12"]), "--xname": rng.choice(["a b", "x", "-a", "-n"]), "--xf": "0.5", "--xopt": rng.choice(["one", "two"]),
            "--xbo": rng.choice(["on", "off"])}[n]


def gen_opts(rng):
    std = [f for f in STD if rng.random() < rng.choice([.3, .6, .9])]
    extra = [e for e in EXTRA if rng.random() < .4]
    cfg = {"std": std, "extra": [{"n": n, "arg": a} for n, t, a in extra], "pass": []}
    ops, args, prefs = [], [], []
    for _ in range(rng.choice([0, 0, 1, 2])):       # default options from the preferences
        k = rng.choice([x for x in ("-n", "-p", "-r", "-f", "-a-o") if x in std] + ["-p", "-f"])
        if any(p[1] == k for p in prefs):
            continue
        v = value(rng, k) if k in VALUED else ""
        prefs.append(["", k, v])
        ops.append({"k": k, "v": v})
    for _ in range(rng.choice([0, 1, 2, 3, 4, 6])):
        # mostly options that the configuration allows, so that runs are not all refused
        k = rng.choice(["-a", "-i", "-n-i", "--all-satisfaction", "--disable-all-satisfaction", "-n", "-p", "-r", "-s", "-f", "-t", "-n-o", "-a-o", "-b", "raw", "x", "x"])
        bad = rng.random() < .08
        if k in ("-a", "-i") and not {"-a", "-i"} & set(std) and not bad or k == "--all-satisfaction" and "-a" not in std and not bad \
                or k in ("-n", "-n-o", "-a-o") and k not in std and not bad:
            continue
        if k == "x":
            pool = [e for e in EXTRA if bad or e in extra]
            if not pool:
                continue
            n, t, a = rng.choice(pool)
            v = xval(rng, n) if a else ""
            ops.append({"k": n, "v": v})
            args += [n, v] if a else [n]
        elif k == "raw":
            if rng.random() < .5:
                toks = ["--raw%d" % rng.randint(0, 9) for _ in range(rng.randint(1, 3))]
                args += [rng.choice(["--fzn-flags", "--flatzinc-flags", "--backend-flags"]), " ".join(toks)]
            else:
                toks = [rng.choice(["--raw a b", "-a", "-n", "--raw\"q\"", "--raw5"])]
                args += [rng.choice(["--fzn-flag", "--flatzinc-flag", "--backend-flag"]), toks[0]]
            ops += [{"k": "raw", "v": x} for x in toks]
        elif k in VALUED:
            v = value(rng, k)
            ops.append({"k": k, "v": v})
            args += [rng.choice(ALIAS[k]), v]
        else:
            ops.append({"k": k, "v": ""})
            args.append(rng.choice(ALIAS.get(k, [k])))
    # -s, -t and -r are read before the other options of the command line, but nothing observable depends on it
    return cfg, ops, args, prefs, extra


def case(rng, select):
    cfg, ops, args, prefs, extra = gen_opts(rng)
    c = {"cfg": cfg, "ops": ops, "sat": rng.random() < .5, "args": args, "prefs": prefs, "xt": extra}
    if not select:
        c["configs"] = [conf("verif.s0", "Solver", "1.0", [])]
        c["query"], c["defaults"] = [{"t": "verif.s0", "v": ""}], []
        c["qtext"] = "verif.s0"
        c["dirs"] = [["s.msc" if rng.random() < .2 else "solver.msc"]]
        return c
    c.update(cfg={"std": ["-a"], "extra": [], "pass": []}, ops=[], args=[], prefs=[], xt=[])
    n = rng.randint(1, 6)
    cs = []
    for i in range(n):
        idn = rng.choice(["verif.alpha", "verif.beta", "verif.x.gamma", "verif.Delta", "eps"])
        name = rng.choice(["Alpha Solver", "beta", "Zeta", idn.split(".")[-1], "N%d" % i])
        tags = rng.sample(["tg0", "tg1", "tg2", "tg3"], rng.randint(0, 3))
        cs.append(conf(idn, name, rng.choice(["1.0", "1.1", "2.0", "10.0"]), tags))
    c["configs"] = cs
    terms = [x["id"] for x in cs] + [x["last"] for x in cs] + [x["name"] for x in cs] + ["tg0", "tg1", "tg2", "tg3"] * 2
    q = []
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
        t = rng.choice(terms + ["nosuch"] if rng.random() < .3 else terms)
        v = rng.choice(["", "", "", "1.0", "1.1", "2.0", "9.9"])
        q.append({"t": t, "v": v})
    c["defaults"] = [{"t": t, "id": rng.choice([x["id0"] for x in cs] + ["verif.none"]).lower()} for t in rng.sample(["tg0", "tg1", "tg2", "tg3", cs[0]["last"]], rng.randint(0, 3))]
    # the preferences name the identifier as it is written in the configuration
    for d in c["defaults"]:
        for x in cs:
            if x["id"] == d["id"]:
                d["text"] = x["id0"]
    c["qtext"] = ",".join(mix(rng, x["t"]) + ("@" + x["v"] if x["v"] else "") for x in q)
    if rng.random() < .1:
        dd = rng.choice(cs)
        c["defaults"].append({"t": "", "id": dd["id"], "text": dd["id0"]})
        c["qtext"], q = None, [{"t": dd["id"], "v": ""}]
    elif rng.random() < .08:
        dd = rng.choice(cs)
        c["defaults"].append({"t": "", "id": dd["id"], "text": dd["id0"]})
        for x in cs:
            if x["id"] == dd["id"]:
                x["tags0"] = list(x["tags"])
                x["tags"] = x["tags"] + ["default"]
        q = [{"t": "default", "v": rng.choice(["", "", "1.0"])}]
        c["qtext"] = "default" + ("@1.0" if q[0]["v"] else "")
    c["query"] = q
    # the order of configurations in one directory is not specified: one directory each
    c["dirs"] = [[rng.choice(["s.msc", "solver.msc", "my.solver.msc"])] for _ in cs]
    return c


def mix(rng, t):
    return "".join(ch.upper() if rng.random() < .15 else ch for ch in t)


def conf(idn, name, version, tags):
    return {"id": idn.lower(), "id0": idn, "last": idn.lower().split(".")[-1], "name": name.lower(), "name0": name, "version": version, "tags": tags}


def execute(c):
    d = vf.tmpdir()
    try:
        path = []
        for i, x in enumerate(c["configs"]):
            p = os.path.join(d, "c%d" % i)
            os.makedirs(p)
            shutil.copy(FAKE, os.path.join(p, "run%d" % i))
            m = {"id": x["id0"], "name": x["name0"], "version": x["version"], "mznlib": "", "executable": "./run%d" % i, "supportsFzn": True, "supportsMzn": False,
                 "needsSolns2Out": True, "stdFlags": c["cfg"]["std"], "tags": [t.title() if (len(t) + i + len(c["args"])) % 3 == 0 else t for t in x.get("tags0", x["tags"])]}
            if c["xt"]:
                m["extraFlags"] = [[n, "an extra flag", t, {"bool": "false", "int": "1", "float": "0.0", "string": "", "opt:one:two": "one", "bool:on:off": "off"}[t]] for n, t, a in c["xt"]]
            json.dump(m, open(os.path.join(p, c["dirs"][i][0]), "w"))
            path.append(p)
        os.makedirs(os.path.join(d, ".minizinc"))
        json.dump({"tagDefaults": [[mix(random.Random(x["t"] + x["id"]), x["t"]), x.get("text", x["id"])] for x in c["defaults"]],
                   "solverDefaults": [[c["configs"][0]["id0"]] + p[1:] for p in c["prefs"]]}, open(os.path.join(d, ".minizinc", "Preferences.json"), "w"))
        open(os.path.join(d, "m.mzn"), "w").write(MODEL[c["sat"]])
        open(os.path.join(d, "script"), "w").write(json.dumps([["o", "x = 1;\n----------\n==========\n"]]))
        log = os.path.join(d, "log")
        sel = ["--solver", c["qtext"]] if c["qtext"] is not None else []
        r = vf.mzn(sel + c["args"] + ["m.mzn"], keep=d, timeout=60,
                   env={"MZN_SOLVER_PATH": ":".join(path), "HOME": d, "FAKE_LOG": log, "FAKE_SCRIPT": os.path.join(d, "script")})
        runs = []
        if os.path.exists(log):
            runs = [x for x in map(json.loads, open(log)) if x[0] == "argv"]
        return r, runs
    finally:
        shutil.rmtree(d, ignore_errors=True)


def observe(c, r, runs):
    """-> (obs, None) or (None, message)."""
    if r.timeout:
        return None, "no answer"
    if not runs:
        if r.rc == 1 and (r.err + r.out).strip() and "x = " not in r.out:
            return {"err": True, "warn": False, "sw": [], "val": [], "raw": [], "sel": 0}, None
        return None, "exit status %d, but no solver was started" % r.rc
    if len(runs) > 1:
        return None, "the solver was started %d times" % len(runs)
    if r.rc != 0:
        return None, "exit status %d" % r.rc
    if "x = 1;" not in r.out:
        return None, "the solution is not reported"
    a = runs[0][1]
    exp = list(c["rawexp"])
    o = {"err": False, "warn": "does not support all solutions" in r.err + r.out, "raw": []}
    # tokens that the user passes verbatim may look like options: they keep their order
    toks, val, sw, files = list(a), {}, [], 0
    i = 0
    while i < len(toks):
        t = toks[i]
        if exp and t == exp[0] and not (t in VALUED and i + 1 < len(toks) and t not in c["rawexp"]):
            o["raw"].append(exp.pop(0))
        elif t in VALUED and i + 1 < len(toks):
            val[t] = toks[i + 1]
            i += 1
        elif t in SWITCH:
            sw.append(t)
        elif t.endswith(".fzn"):
            files += 1
        else:
            o["raw"].append(t)
        i += 1
    if files != 1:
        return None, "%d FlatZinc files in the command line %s" % (files, a)
    o["sw"], o["val"] = sorted(set(sw)), sorted(val.items())
    o["sel"] = 1 + int(runs[0][3][3:])
    return o, None


def rawtokens(c):
    """What the user passes verbatim, in order (used only to split the command line into tokens)."""
    out = []
    xs = {n: a for n, t, a in EXTRA}
    dec = {n for n, t, a in c["xt"]}
    for op in c["ops"]:
        if op["k"] == "raw":
            out.append(op["v"])
        elif op["k"] in dec:
            out += [op["k"], op["v"]] if xs[op["k"]] else [op["k"]]
    return out


def run(ck):
    select = ck.pid == "D04"
    n = ck.n(400, 400 * 30)
    done = 0
    while done < n:
        k = min(3000, n - done)
        cases = [case(ck.rng, select) for _ in range(k)]
        for c in cases:
            c["rawexp"] = rawtokens(c)
        rs = vf.pmap(execute, cases)
        jd = []
        for c, (r, runs) in zip(cases, rs):
            c["obs"], m = observe(c, r, runs)
            c["r"] = (r.rc, r.out[:400], r.err[:400], runs)
            if c["obs"] is None:
                ck.violation("%s: %s\n%s" % (ck.pid, m, describe(c)), strip(c))
            else:
                jd.append(c)
        d = vf.tmpdir()
        p = os.path.join(d, "cases.json")
        json.dump([{x: c[x] for x in ("cfg", "ops", "sat", "configs", "query", "defaults", "obs")} for c in jd], open(p, "w"))
        t = vf.tlc("MznOptionsTrace", "MznOptionsTrace.cfg", env={"CASES": p}, timeout=850)
        acc, rej = [[m for m in t.marks if m[0] == x] for x in ("ACC", "REJ")]
        if len(acc) + len(rej) != len(jd):
            open(os.path.join(vf.BUILD, "tlc-fail.txt"), "w").write(t.out)
            raise vf.ToolError("TLC judged %d of %d cases: %s" % (len(acc) + len(rej), len(jd), t.out[-1500:]))
        ck.tlcstat(t)
        ck.traces += len(acc)
        for m in rej:
            c = jd[int(m[1]) - 1]
            ck.violation("%s: the specification does not allow %s\n%s" % (ck.pid, json.dumps(c["obs"]), describe(c)), strip(c))
        for kk, vv in (("cases", len(jd)), ("refused", sum(1 for m in acc if int(m[2]) == 0)), ("solver_runs", sum(1 for m in acc if int(m[2]) == 1))):
            ck.cov[kk] = ck.cov.get(kk, 0) + vv
        for c in jd[:3]:
            ck.sample(strip(c))
        done += k


def strip(c):
    return {x: c[x] for x in ("cfg", "sat", "args", "prefs", "configs", "qtext", "defaults", "obs", "r")}


def describe(c):
    return "solver %s of %s, defaults %s, preferences %s\nflags %s extra %s, %s, args %s\n%s" % (
        c["qtext"], [(x["id0"], x["name0"], x["version"], x["tags"]) for x in c["configs"]], c["defaults"], c["prefs"], c["cfg"]["std"], [e[0] for e in c["xt"]],
        "satisfy" if c["sat"] else "maximize", c["args"], c["r"])
