"""shrink.py REPLAY.json: removes items of a failing generated model while it keeps failing."""
import json, re, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, sem


class CK:
    traces = 0
    cov = {}

    def tlcstat(self, t):
        pass


def key(t):
    if t.startswith("constraint"):
        return None
    m = re.search(r"(\w+)(?: ::[^=]*)?(?: = .*)?;$", t.split(" = ")[0] + ";" if " = " in t else t)
    return re.sub(r" :: .*", "", t.split(" = ")[0].rstrip(";")).split()[-1].rstrip(";")


def parts(c):
    cons = iter([i for i in c["items"] if i["n"] == ""])
    out = []
    for t in c["src"]:
        m = re.match(r"(?:function [^:(]*(?:\([^)]*\))?[^:(]*: ?|predicate )(\w+)\(", t)
        if m:
            out.append((t, m.group(1), []))
            continue
        k = re.match(r"(?:enum|type) (\w+)", t)
        k = k.group(1) if k else key(t)
        if k is None:
            out.append((t, "", [next(cons)]))
        else:
            # hidden items and variables of a declared name: name_o (its output form), name_ (its raw value)
            out.append((t, k, [i for i in c["items"] + c["vars"] if i["n"] == k or i["n"].startswith(k + "_")]))
    return out


def build(c, ps):
    c = dict(c)
    c["src"] = [p[0] for p in ps]
    c["text"] = "\n".join([l for l in c["text"].split("\n") if l.startswith("include")] + c["src"]) + "\n" + [l for l in c["text"].split("\n") if l.startswith("solve")][0] + "\n"
    ids = {id(i) for p in ps for i in p[2]}
    c["items"] = [i for i in c["items"] if id(i) in ids or i["n"] == "_obj"]
    c["vars"] = [v for v in c["vars"] if id(v) in ids]
    if c.get("files"):
        c["files"] = {f: "".join(l + "\n" for l in x.split("\n") if any(l.startswith(p[1] + " =") for p in ps if p[1])) for f, x in c["files"].items()}
    keep = [i for i, n in enumerate(c["out"]) if any(i["n"] == n for p in ps for i in p[2])]
    c["out"], c["oty"] = [c["out"][i] for i in keep], [c["oty"][i] for i in keep]
    return c


def fails(cs):
    rs = vf.pmap(sem.run_case, cs)
    for c, r in zip(cs, rs):
        c["ev"] = sem.events(c, r)
        c["raw"] = (r.rc, r.out[-600:], r.err[-600:])
    return set(sem.judge(CK(), cs))


def shrink(c):
    ps = parts(c)
    while True:
        cand = []
        for i, p in enumerate(ps):
            q = ps[:i] + ps[i + 1:]
            txt = "\n".join(x[0] for x in q) + "\n" + c["text"].split("solve")[-1]
            if p[1] and re.search(r"\b%s\b" % p[1], txt):
                continue
            x = build(c, q)
            if x["out"]:
                cand.append((q, x))
        if not cand:
            return c
        try:
            f = fails([x for _, x in cand])
        except Exception:
            f = []
            for i, (_, x) in enumerate(cand):
                try:
                    f += [i] if fails([x]) else []
                except Exception:
                    pass
        if not f:
            return c
        j = min(f)
        ps, c = cand[j]


if __name__ == "__main__":
    for p in sys.argv[1:]:
        d = json.load(open(p))
        c = d["replay"]
        c = shrink(c)
        print("=" * 20, p, c.get("flags"), c.get("solver"))
        print(c["text"], json.dumps(c.get("ev"))[-700:], c.get("raw", ["", "", ""])[2][-300:])
