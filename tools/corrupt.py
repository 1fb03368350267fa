"""Does the specification notice? Records runs of the library, corrupts one recorded observation in each
(an attribute's value, a byte saved, an error, a kind, a member found ...), and counts those TLC accepts.

    python3 tools/corrupt.py [runs per scenario]

Prints, per kind of observation, how many corruptions were rejected. The ones accepted are observations the
specification leaves open (values it knows nothing about, "any error", a refused value)."""
import collections
import json
import os
import random
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCEN = ["session", "roundtrip", "malformed", "frame", "find", "atomic", "equal", "plug"]


def bump(v, r):
    """another value like v"""
    if isinstance(v, list):
        if not v:
            return [1]
        w = list(v)
        i = r.randrange(len(w))
        if i == 0 and len(w) > 1 and isinstance(w[0], int):
            i = r.randrange(1, len(w))
        w[i] = bump(w[i], r)
        return w
    if isinstance(v, int):
        return v + r.choice([1, -1]) if v > 0 else v + 1
    if isinstance(v, str):
        return v + "x"
    return 0


def corrupt(ops, r):
    """changes one observation in place; its description"""
    for _ in range(50):
        i = r.randrange(len(ops))
        op = ops[i]
        o = op["o"]
        if o == "dump" and op["k"]:
            m = r.choice(op["k"])
            if r.random() < 0.2:
                op["k"].remove(m)
                return "model missing", i
            if not m[2]:
                continue
            j = r.randrange(len(m[2]))
            m[2][j] = bump(m[2][j], r)
            return "attribute of a dump", i
        if o == "events" and op["l"]:
            e = r.choice(op["l"])
            j = r.randrange(4)
            e[j] = bump(e[j], r)
            return "event " + ["id", "value", "size", "bytes"][j], i
        if o == "get":
            op["v"] = bump(op["v"], r)
            return "attribute read", i
        if o == "set":
            op["r"] = 0 if op["r"] else 1
            return "outcome of an assignment", i
        if o == "save" and op["b"]:
            j = r.randrange(len(op["b"]))
            op["b"][j] ^= 1 << r.randrange(8)
            return "byte saved", i
        if o == "open":
            op["e"] = 0 if op["e"] else 1
            return "outcome of opening", i
        if o == "find":
            op["v"] = bump(op["v"], r)
            return "member found", i
        if o == "equal":
            op["r"] = [1 - x if x >= 0 else 0 for x in op["r"]]
            return "comparison", i
        if o == "plug":
            op["r"] = 0 if op["r"] else 1
            return "plugin assigned", i
    return None, 0


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 40
    r = random.Random(7)
    py = "/opt/venv/bin/python"
    with tempfile.TemporaryDirectory() as d:
        tab = os.path.join(d, "tab.json")
        tlc = ["tlc", "-metadir", os.path.join(d, "md"), "-deadlock", "-workers", "8"]
        env = dict(os.environ, JAVA_TOOL_OPTIONS="-Xss64m -Xmx8g")
        spec = os.path.join(HERE, "spec")
        subprocess.run(tlc + ["-config", "Export.cfg", "Export.tla"], cwd=spec, env=dict(env, OUT=tab),
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        what, where, lines = {}, {}, []
        for sc in SCEN:
            job = {"table": tab, "out": os.path.join(d, "t"), "seed": 1, "from": 0, "to": n, "scenario": sc, "scratch": d, "arg": {}}
            with open(os.path.join(d, "job"), "w") as fp:
                json.dump(job, fp)
            subprocess.check_call([py, "-B", os.path.join(HERE, "harness", "drive.py"), os.path.join(d, "job")])
            with open(os.path.join(d, "t")) as fp:
                for line in fp:
                    run = json.loads(line)
                    k, i = corrupt(run["ops"], r)
                    if k:
                        run["t"] = len(lines)
                        what[run["t"]], where[run["t"]] = k, (sc, run["ops"][i])
                        lines.append(json.dumps(run))
        trace = os.path.join(d, "trace")
        with open(trace, "w") as fp:
            fp.write("\n".join(lines))
        out = subprocess.run(tlc + ["-config", "TraceSession.cfg", "TraceSession.tla"], cwd=spec, env=dict(env, TRACE=trace),
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout
        seen = set()
        for line in out.splitlines():
            if line.startswith('"@@'):
                seen.add(json.loads(json.loads(line)[2:])["t"])
        total, hit = collections.Counter(what.values()), collections.Counter(what[t] for t in seen)
        for k in sorted(total):
            print("%-26s %4d of %4d rejected" % (k, hit[k], total[k]))
        if "-v" in sys.argv:
            for t in what:
                if t not in seen:
                    print(what[t], json.dumps(where[t])[:300])
        print("no completion" if "No error has been found" not in out else "", end="")


main()
