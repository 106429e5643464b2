"""P01-P03: the running of solver processes.

Schedules are behaviours of specs/MznProcessGen.tla (the closed model, TLC simulation mode) with
jittered delays and sizes; the real loop of minizinc/process.hh runs them in a virtual operating
system (harness/procworld.cpp), and TLC checks each recorded run against specs/MznProcess.tla
(MznProcessTrace).  A few runs of the real binary with a misbehaving solver complete this.
"""
import os, sys, json, subprocess, shutil, time, hashlib, signal
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vf

SRC = os.path.join(vf.VERIF, "harness", "procworld.cpp")
SIG = {"INT": 2, "TERM": 15}


def harness():
    """Compiles the virtual world with /repo's process.hh (content addressed)."""
    h = hashlib.sha256()
    inc = os.path.join(vf.REPO, "include", "minizinc")
    for p in [SRC] + sorted(os.path.join(inc, f) for f in os.listdir(inc) if f.endswith((".hh", ".h"))):
        h.update(open(p, "rb").read())
    d = os.path.join(vf.BUILD, "h")
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, "procworld-" + h.hexdigest()[:16])
    if not os.path.exists(exe):
        for f in os.listdir(d):
            if f.startswith("procworld"):
                os.unlink(os.path.join(d, f))
        r = subprocess.run(["g++", "-std=c++17", "-O0", "-U_FORTIFY_SOURCE", "-I" + os.path.join(vf.REPO, "include"),
                            "-I" + os.path.join(vf.MZNBUILD, "include"), SRC, os.path.join(vf.MZNBUILD, "libmzn.a"),
                            "-o", exe + ".tmp", "-lpthread", "-ldl"], capture_output=True, text=True)
        if r.returncode:
            raise vf.ToolError("the harness does not build: " + r.stderr[-2000:])
        os.rename(exe + ".tmp", exe)
    return exe


def gencfg(limits, steps, firsts, intrs, waits, hist, holder, ns, inv=""):
    return """CONSTANTS
  Slack = 200
  Inf = 1000000
  Limits = %s
  Steps = %d
  Sizes = {1}
  Ns = %s
  Firsts = %s
  Intrs = %s
  Waits = %s
  KeepHist = %s
  Holder = %s
SPECIFICATION GSpec
%s
CHECK_DEADLOCK FALSE
""" % (limits, steps, ns, firsts, intrs, waits, "TRUE" if hist else "FALSE", holder, inv)


INV = "INVARIANTS NothingLost NoEarlySignal BoundedEnd Undisturbed Escalates Progress"
PAR = {
    "P01": ("{0, 60000}", "{}", 9),
    "P02": ("{1, 400, 1500}", "{}", 6),
    "P03": ("{0, 1500, 20000}", '{"INT", "TERM"}', 5),
}


def model(ck):
    """Exhaustive check of the reference parent for small constants."""
    if ck.pid == "P03":
        c = gencfg("{0}", 3, '{"TERM"}', '{"INT"}' if not ck.thorough else '{"INT", "TERM"}', "{1000}", False, "{FALSE}", "{1}", INV)
    elif ck.pid == "P02":
        c = gencfg("{1500}", 3, '{"TERM"}', "{}", "{700}", False, "{FALSE, TRUE}", "{1}", INV)
    else:
        c = gencfg("{0}", 4, '{"TERM"}', "{}", "{700}", False, "{FALSE, TRUE}", "{1, 2}", INV)
    p = os.path.join(vf.SPECS, "gen-%s-%d.cfg" % (ck.pid, os.getpid()))
    try:
        open(p, "w").write(c)
        t = vf.tlc("MznProcessGen", os.path.basename(p), timeout=600)
    finally:
        os.unlink(p)
    if not t.ok or "violated" in t.out:
        raise vf.ToolError("the reference model fails: " + t.out[-3000:])
    ck.tlcstat(t)


def schedules(ck, n):
    lim, intrs, steps = PAR[ck.pid]
    c = gencfg(lim, steps, '{"TERM", "INT"}', intrs, "{1, 90, 700, 1300}", True, "{FALSE, TRUE}", "{1, 7, 300}")
    p = os.path.join(vf.SPECS, "gen-%s-%d.cfg" % (ck.pid, os.getpid()))
    try:
        open(p, "w").write(c)
        t = vf.tlc("MznProcessGen", os.path.basename(p), extra=["-simulate", "num=%d" % n, "-seed", str(ck.rng.randrange(1 << 30)), "-depth", "80"],
                   workers=1, timeout=600)
    finally:
        os.unlink(p)
    import re
    out = []
    for x in re.findall(r'<<"@", "SCHED", "(.*?)">>', t.out, re.S):
        out.append(json.loads(re.sub(r"\n\s*", " ", x).replace('\\"', '"')))
    if len(out) < n // 10:
        raise vf.ToolError("only %d schedules: %s" % (len(out), t.out[-2000:]))
    return out


def concrete(r, s, pid):
    """A line for the virtual world, from a behaviour of the model with jittered delays and sizes."""
    g = s["cfg"]
    cfg = {"limit": g["limit"], "cleanup": r.choice([1000, 1000, 1, 50, 2999]), "first": g["first"], "ign": sorted(g["ign"]),
           "react": r.choice([0, 0, 1, 40, 300, 1200]), "nopg": g["nopg"] and r.random() < .4, "holder": g["holder"]}
    if g["limit"] == 1500:
        cfg["limit"] = r.choice([1500, 1500, 999, 1000, 1001, 2500, r.randint(2, 4000)])
    ops, at = [], 0
    intr = []
    alive = True
    for e in s["ev"]:
        d = e["d"] + r.choice([0, 0, 0, 1, 3, 50, 499]) if r.random() < .5 else e["d"]
        at += d
        k = e["k"]
        if k == "w":
            b = e["b"] * r.choice([1, 1, 3, 10]) if r.random() < .9 else r.choice([998, 999, 1000, 1001, 1998, 5000, 65536, 70000, 200000])
            ops.append(["w", d, 1 if e["a"] == "out" else 2, b])
        elif k in "ch":
            ops.append([k, d, 1 if e["a"] == "out" else 2, 0])
        elif k == "x":
            ops.append(["x", d, 0, r.choice([0, 0, 1, 3, 255])])
            alive = False
        elif k == "i":
            intr.append((at, SIG[e["a"]]))
            if ops or not intr:
                pass
    if cfg["holder"]:
        ops.append(["h", r.choice([0, 1, 2000, 7000]), 0, 0])
    if pid == "P03":
        # some of the signals arrive exactly at a system call of the parent
        for t, sg in intr:
            if r.random() < .55:
                ops.append(["b", r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 17, 20, 25, 40]), sg, 0])
            else:
                ops.append(["i", t, sg, 0])
        if not intr:
            ops.append(["b", r.randint(1, 30), r.choice([2, 15]), 0])
    usec = r.choice([0, 1, 999999, 999000, r.randrange(1000000)])
    line = [usec, cfg["limit"], cfg["cleanup"], SIG[cfg["first"]], sum({"INT": 1, "TERM": 2}[x] for x in cfg["ign"]), cfg["react"],
            int(cfg["nopg"]), int(cfg["holder"]), len(ops)]
    for o in ops:
        line += o
    return cfg, " ".join(map(str, line))


def world(lines, exe):
    p = subprocess.run([exe], input="\n".join(lines) + "\n", capture_output=True, text=True, timeout=300)
    out = p.stdout.split("\n")[:-1]
    return out, p.returncode


def observe(lines, exe):
    """Runs the schedules; a schedule that kills the harness is reported as an event."""
    res = []
    chunk = max(1, (len(lines) + vf.NCPU - 1) // vf.NCPU)

    def go(ls):
        got = []
        while len(got) < len(ls):
            try:
                o, rc = world(ls[len(got):], exe)
            except subprocess.TimeoutExpired:
                raise vf.ToolError("the virtual world does not end")
            got += [json.loads(x) for x in o]
            if len(got) < len(ls):
                got.append([[0, "crash"]])
        return got
    for g in vf.pmap(go, [lines[i:i + chunk] for i in range(0, len(lines), chunk)]):
        res += g
    return res


def event(e):
    t, k = e[0], e[1]
    a = b = None
    if k in ("w", "d"):
        a, b = e[2], e[3]
    elif k == "close" or k == "intr" or k == "ret":
        a = e[2]
    elif k == "exit":
        a, b = "keep" if e[3] else "", e[2]
    elif k == "sig":
        a, b = ("reaped" if e[4] else e[2]), int(e[3])
    return {"t": t, "k": k, "a": a if a is not None else "", "b": b if b is not None else 0}


def judge(ck, cases):
    p = os.path.join(vf.scratch(), "cases.json")
    json.dump([{"cfg": c["cfg"], "tr": [event(e) for e in c["tr"]]} for c in cases], open(p, "w"))
    t = vf.tlc("MznProcessTrace", "MznProcessTrace.cfg", env={"CASES": p}, timeout=600)
    # a run is accepted if one way of reading it is
    acc = {int(m[1]) - 1: m for m in t.marks if m[0] == "ACC"}
    rej = {}
    for m in t.marks:
        if m[0] == "REJ" and int(m[1]) - 1 not in acc and (int(m[1]) - 1 not in rej or int(m[2]) - 1 > rej[int(m[1]) - 1][1]):
            rej[int(m[1]) - 1] = (int(m[1]) - 1, int(m[2]) - 1, m[3], m[4], m[5])
    if len(acc) + len(rej) != len(cases) or not t.ok:
        open(os.path.join(vf.BUILD, "tlc-fail.txt"), "w").write(t.out)
        raise vf.ToolError("TLC judged %d of %d: %s" % (len(acc) + len(rej), len(cases), t.out[-1500:]))
    ck.tlcstat(t)
    return list(acc.values()), [rej[i] for i in sorted(rej)]


def run(ck):
    exe = harness()
    model(ck)
    r = ck.rng
    for batch in range(ck.n(1, 8)):
        sch = schedules(ck, ck.n(1500, 6000))
        cases = []
        for s in sch:
            cfg, line = concrete(r, s, ck.pid)
            cases.append({"cfg": cfg, "line": line})
        obs = observe([c["line"] for c in cases], exe)
        for c, o in zip(cases, obs):
            c["tr"] = o
        acc, rej = judge(ck, cases)
        ck.traces += len(acc)
        for i, at, k, now, must in rej:
            c = cases[i]
            ck.violation("solver loop: event %d (%s) of the run is not permitted (time %s, the parent had to act by %s)\nsetup %s\ntrace %s" % (
                at, k, now, must, json.dumps(c["cfg"]), json.dumps(c["tr"][max(0, at - 12):at + 3])), {"line": c["line"], "cfg": c["cfg"], "trace": c["tr"][:200]})
        ck.cov["schedules"] = ck.cov.get("schedules", 0) + len(cases)
        ck.cov["signals sent"] = ck.cov.get("signals sent", 0) + sum(int(m[2]) for m in acc)
        ck.cov["events"] = ck.cov.get("events", 0) + sum(len(c["tr"]) for c in cases)
    real(ck)


MODEL = "var 1..100000: x;\nsolve satisfy;\n"


def gone(pid):
    try:
        return open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()[0] in "ZX"
    except OSError:
        return True


def realrun(flags, script, sig=None, after=None, timeout=40):
    """Runs the binary with a scripted solver; sends sig once the solver has logged `after`."""
    d = vf.tmpdir()
    tmp = os.path.join(d, "tmp")
    os.makedirs(tmp)
    open(os.path.join(d, "m.mzn"), "w").write(MODEL)
    json.dump(script, open(os.path.join(d, "s.json"), "w"))
    log = os.path.join(d, "log")
    env = vf.mzn_env({"FAKE_SCRIPT": os.path.join(d, "s.json"), "FAKE_LOG": log, "TMPDIR": tmp})
    t0 = time.time()
    p = subprocess.Popen([os.path.join(vf.MZNBUILD, "minizinc"), "--solver", "fake"] + flags + ["m.mzn"], cwd=d, env=env, stdin=subprocess.DEVNULL,
                         stdout=open(os.path.join(d, "out"), "wb"), stderr=open(os.path.join(d, "err"), "wb"), start_new_session=True)
    sent = None
    to = False
    while p.poll() is None:
        if sig is not None and sent is None and os.path.exists(log) and ('"%s"' % after) in open(log).read():
            time.sleep(.15)
            sent = time.time()
            p.send_signal(sig)
        if time.time() - t0 > timeout:
            to = True
            p.kill()
        time.sleep(.02)
    el = time.time() - (sent or t0)
    L = [json.loads(x) for x in open(log)] if os.path.exists(log) else []
    pids = [x[2] for x in L if x and x[0] == "argv"] + [x[1] for x in L if x and x[0] == "child"]
    t1 = time.time()
    while time.time() - t1 < 3 and not all(gone(x) for x in pids):
        time.sleep(.05)
    left = [x for x in pids if not gone(x)]
    for x in left:
        try:
            os.kill(x, 9)
        except OSError:
            pass
    res = {"rc": p.returncode, "out": open(os.path.join(d, "out"), errors="replace").read(), "err": open(os.path.join(d, "err"), errors="replace").read(),
           "elapsed": el, "left": len(left), "tmp": os.listdir(tmp), "log": L, "timeout": to, "solver": bool(pids)}
    shutil.rmtree(d, ignore_errors=True)
    return res


def sol(i):
    return "x = %d;\n----------\n" % i


def real(ck):
    """End-to-end runs with real processes (generous times)."""
    jobs = []
    many = "".join(sol(i) for i in range(1, 4001))
    if ck.pid == "P01":
        jobs.append((["-a"], [["o", many[:30001]], ["bige", 9000, "noise\n"], ["o", many[30001:]], ["o", "==========\n"]], None, None,
                     lambda r: r["out"].count("----------") == 4000 and r["out"].rstrip().endswith("==========") and r["err"].count("noise") == 9000 and r["rc"] == 0))
        jobs.append((["-a"], [["o", sol(1)], ["co"], ["s", .5], ["bige", 5000, "noise\n"], ["s", .3], ["w", "end"]], None, None,
                     lambda r: "x = 1" in r["out"] and r["err"].count("noise") == 5000 and ["end"] in r["log"]))
    if ck.pid == "P02":
        stub = [["ign", [2, 15]]]
        jobs.append((["-a", "--time-limit", "700"], stub + [["o", sol(1)], ["e", "noise\n"], ["s", 60]], None, None,
                     lambda r: "x = 1;" in r["out"] and .65 < r["elapsed"] < 12 and not r["left"] and r["rc"] == 0))
        jobs.append((["-a", "--solver-time-limit", "700"], stub + [["o", sol(2)], ["co"], ["s", 60]], None, None,
                     lambda r: "x = 2;" in r["out"] and .65 < r["elapsed"] < 12 and not r["left"] and r["rc"] == 0))
        jobs.append((["-a", "--time-limit", "900"], [["h", 15, sol(3)], ["h", 2, sol(3)], ["o", sol(1)], ["s", 1.2], ["o", sol(4)], ["x", 0]], None, None,
                     lambda r: [x for x in r["out"].split("\n") if x.startswith("x")] == ["x = 1;", "x = 3;", "x = 4;"]))
        jobs.append((["-a", "--time-limit", "20000"], [["o", sol(1)], ["s", .3], ["o", sol(2) + "==========\n"], ["x", 0]], None, None,
                     lambda r: r["elapsed"] < 10 and "==========" in r["out"] and "x = 2" in r["out"]))
    if ck.pid == "P03":
        for sg in (signal.SIGINT, signal.SIGTERM):
            jobs.append((["-a"], [["ign", [2, 15]], ["fork", [["ign", [2, 15]], ["w", "up"], ["s", 60]]], ["o", sol(1)], ["w", "run"], ["s", 60]], sg, "up",
                         lambda r: "x = 1;" in r["out"] and r["elapsed"] < 12 and not r["left"] and not r["tmp"] and r["rc"] != 0))
            jobs.append((["-a"], [["h", 2, sol(2)], ["h", 15, sol(2)], ["o", sol(1)], ["w", "up"], ["s", .8], ["o", sol(3)], ["x", 0]], sg, "up",
                         lambda r: r["out"].count("----------") == 3 and r["elapsed"] < 12 and not r["left"] and not r["tmp"] and r["rc"] != 0))

    def one(j):
        r = realrun(*j[:4])
        if not j[4](r) and not (j[2] is not None and not r["solver"]):
            r = realrun(*j[:4])       # (a loaded machine)
        return r
    for j, r in zip(jobs, vf.pmap(one, jobs)):
        if not j[4](r):
            if not r["solver"]:
                raise vf.ToolError("the scripted solver was not started: " + r["err"][:500])
            r["out"], r["err"] = r["out"][-600:], r["err"][-600:]
            ck.violation("run of a solver process: flags %s script %s signal %s: %s" % (j[0], str(j[1])[:300], j[2], json.dumps(r)),
                         {"flags": j[0], "script": j[1], "signal": j[2], "observed": r})
        else:
            ck.traces += 1
    ck.cov["real runs"] = len(jobs)
