"""check.py PROPERTY [quick|thorough] - decides one property on the current tree.

A check is a list of parts (plans.py). A part of type
  traces  runs the implementation on generated sessions (drive.py) and asks TLC
          whether what it did is a behaviour of the specification;
  model   model checks a specification;
  replay  model checks a specification which writes its behaviours, performs
          them on the implementation and asks TLC whether the outcomes agree;
  play    the same with MCSession: histories of assignments to generated files.
Exit 0: held on everything explored; exit 1: a VIOLATION line was printed.
"""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
EVIDENCE = os.path.join(VERIF, "evidence")
REPO = os.environ.get("VP_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PYTHON = next((p for p in ("/opt/venv/bin/python", "/opt/venv/bin/python3") if os.path.exists(p)), sys.executable)
CORES = max(1, min(8, os.cpu_count() or 1))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import gen                                    # noqa: E402
import plans                                  # noqa: E402


def find_jars():
    if all(os.path.exists(p) for p in JARS.split(":")):
        return JARS
    d = "/opt/veriftools/tla"
    return ":".join(os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".jar"))


class Result:
    def __init__(self):
        self.states = self.transitions = self.traces = self.steps = 0
        self.failures = []          # dicts: clause, want, got, part, trace, ops
        self.parts = []
        self.samples = []
        self.skipped = 0            # shards left out: no time left, or a failure is known already
        self.deadline = 0
        self.more = []              # work found while working
        self.lock = threading.Lock()


def tlc(module, cfg, scratch, env=None, workers=1, heap="3g", timeout=400, extra=(), fast=False):
    """-> (output, states generated, distinct states)"""
    meta = tempfile.mkdtemp(prefix="m", dir=scratch)
    # short runs: the quick compiler will do
    cmd = ["java", *(["-XX:TieredStopAtLevel=1"] if workers == 1 or fast else []), "-Djava.io.tmpdir=" + meta, "-Xss64m", "-Xmx" + heap, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-cp", find_jars(), "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           *extra, "-config", cfg, module]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
        out = p.stdout
    except subprocess.TimeoutExpired as exc:
        out = (exc.stdout or b"").decode("utf8", "replace") if isinstance(exc.stdout, bytes) else (exc.stdout or "")
        out += "\n@timeout"
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct", out)
    gen, dis = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return out, gen, dis


def failures_of(out):
    """the lines printed by the Fail operators"""
    res = []
    for line in out.splitlines():
        if line.startswith('"@@'):
            try:
                res.append(json.loads(json.loads(line)[2:]))
            except ValueError:
                res.append({"t": -1, "step": 0, "clause": "unreadable", "want": line[:300], "got": ""})
    return res


def finished(out):
    return "Model checking completed. No error has been found." in out


def simulated(out):
    return "The number of states generated" in out and not re.search(r"^Error", out, re.M)


def read_traces(path):
    d = {}
    try:
        with open(path) as fp:
            for line in fp:
                tr = json.loads(line)
                d[tr["t"]] = tr["ops"]
    except (OSError, ValueError):
        pass
    return d


def run_driver(job, scratch, tag, timeout):
    path = os.path.join(scratch, "job%s.json" % tag)
    with open(path, "w") as fp:
        json.dump(job, fp)
    try:
        p = subprocess.run([PYTHON, "-B", os.path.join(HERE, "drive.py"), path], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout, cwd=scratch)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return -1, "the driver did not finish in %d s" % timeout


def shard(res, part, table, scratch, seed, lo, hi, tag, behaviours=None):
    """one driver run and the validation of what it recorded"""
    if res.failures or time.time() > res.deadline:
        with res.lock:
            res.skipped += 1
        return
    out = os.path.join(scratch, "tr%s.ndjson" % tag)
    work = os.path.join(scratch, "w" + tag)
    os.mkdir(work)
    job = {"table": table, "out": out, "seed": seed, "from": lo, "to": hi, "scenario": part["scenario"],
           "arg": part.get("arg", {}), "scratch": work, "limit": part.get("limit", 60)}
    if behaviours:
        job["behaviours"] = behaviours
    for attempt in (1, 2):
        rc, msg = run_driver(job, scratch, tag, 300)
        if rc in (0, -1):
            break
    shutil.rmtree(work, ignore_errors=True)
    if rc == -1:                     # slow, which a single run is not: see drive.py
        with res.lock:
            res.skipped += 1
        return
    if rc != 0:
        with res.lock:
            res.failures.append({"part": part, "t": lo, "clause": "the library cannot be driven",
                                 "want": "", "got": msg[-600:], "ops": []})
        return
    mod = part.get("validator", "TraceSession")
    text, gen, dis = tlc(mod + ".tla", mod + ".cfg", scratch, {"TRACE": out})
    fails = failures_of(text)
    if "@timeout" in text and not fails:
        with res.lock:
            res.skipped += 1
        return
    ops = read_traces(out) if fails or not finished(text) else {}
    if not finished(text) and not fails:
        # the specification could not even be evaluated on what was recorded
        m = re.findall(r"^/\\ tr = (\d+)", text, re.M)
        k = sorted(ops)[int(m[-1]) - 1] if m and int(m[-1]) <= len(ops) else lo
        err = [x for x in text.splitlines() if x.strip()][-40:]
        fails = [{"t": k, "step": 0, "clause": "recorded run is outside of the specification", "want": "",
                  "got": "\n".join(err)[:1500]}]
    with open(out + ".n") as fp:
        total = int(fp.read())
    if not fails and dis != total:
        fails = [{"t": lo, "step": 0, "clause": "runs not consumed to their end", "want": total, "got": dis}]
    n = hi - lo
    with res.lock:
        res.states += dis
        res.transitions += max(0, gen - n)
        res.traces += n
        for f in fails:
            f["part"] = part
            f["ops"] = ops.get(f["t"], [])
            f["seed"] = seed
            res.failures.append(f)
        if len(res.samples) < 3:
            d = ops or read_traces(out)
            for k in sorted(d):
                if d[k]:
                    res.samples.append("%s #%d: %s" % (part["scenario"], k, " ".join(
                        (o["o"] + ("(%s)" % ",".join(map(str, o["k"])) if o["o"] in ("get", "set") else ""))
                        for o in d[k])[:300]))
                    break
    os.remove(out)


def run_traces(res, part, table, scratch, seed, count, pool):
    n = CORES * max(1, round(count / (CORES * part.get("chunk", 120))))
    step = max(1, -(-count // n))
    jobs = [(i, min(i + step, count)) for i in range(0, count, step)]
    res.parts.append({"scenario": part["scenario"], "arg": part.get("arg", {}), "runs": count})
    return [pool.submit(shard, res, part, table, scratch, seed, a, b, "%d_%d" % (len(res.parts), a))
            for a, b in jobs]


def run_model(res, part, scratch, tier):
    env = dict(part.get("env", {}))
    env.update({k.upper(): str(v) for k, v in part.get(tier, {}).items()})
    if "outfile" in part:
        env["OUT"] = os.path.join(scratch, part["outfile"])
    text, gen, dis = tlc(part["module"] + ".tla", part.get("cfg", part["module"]) + ".cfg", scratch, env,
                         workers=CORES, heap="8g", fast=tier == "quick", timeout=400 if tier == "quick" else 7200)
    with res.lock:
        res.states += dis
        res.transitions += gen
    res.parts.append({"model": part["module"], "states": dis, "generated": gen})
    if "OUT" in env:
        with open(env["OUT"], "w") as fp:
            for line in text.splitlines():
                if line.startswith('"@B'):
                    fp.write(json.loads(line)[2:] + "\n")
    if not finished(text):
        bad = failures_of(text)
        res.failures.append({"part": part, "t": 0, "clause": "model %s" % part["module"], "want": bad[:1],
                             "got": "\n".join(x for x in text.splitlines() if not x.startswith('"@B'))[-1500:], "ops": []})
    return env.get("OUT")


def run_replay(res, part, table, scratch, seed, tier, pool):
    path = run_model(res, dict(part, outfile="behaviours%d.ndjson" % len(res.parts)), scratch, tier)
    with open(path) as fp:
        n = sum(1 for _ in fp)
    res.parts[-1]["behaviours"] = n
    cut = CORES * max(1, round(n / (CORES * part.get("chunk", 400))))
    step = max(1, -(-n // cut))
    return [pool.submit(shard, res, part, table, scratch, seed, a, min(a + step, n),
                        "b%d_%d" % (len(res.parts), a), path) for a in range(0, n, step)]


def write_files(path, part, seed, which):
    """the files a model starts with"""
    kw = dict(part.get("gen", {}))
    if "parts" in kw:
        kw["parts"] = set(kw["parts"])
    with open(path, "w") as fp:
        for i in which:
            r = random.Random("%s/%s/%d" % (seed, json.dumps(part.get("gen", {})), i))
            g = gen.Gen(r, **dict({"sparse": 0.1}, **kw))
            fp.write(json.dumps({"b": list(g.file())}) + "\n")


def play(res, part, table, scratch, seed, pool, which, tag, num):
    """histories of MCSession from some files, performed and validated"""
    if res.failures or time.time() > res.deadline:
        with res.lock:
            res.skipped += 1
        return
    files = os.path.join(scratch, "files%s.ndjson" % tag)
    write_files(files, part, seed, which)
    fam = ""
    if part.get("families"):
        fam = os.path.join(scratch, "fam%s.json" % tag)
        with open(fam, "w") as fp:
            json.dump(part["families"], fp)
    depth = part["depth"]
    env = {"FILES": files, "DEPTH": str(depth), "MODE": part["mode"], "FAMILIES": fam, "EACH": str(part.get("each", 1))}
    drawn = part["mode"] in ("random", "mixed")
    extra = ("-simulate", "num=%d" % num, "-depth", str(depth + 2), "-seed", str(seed * 1000 + which[0])
             ) if drawn else ()
    text, gen_, dis = tlc("MCSession.tla", "MCSession.cfg", scratch, env, extra=extra)
    if "@timeout" in text:
        with res.lock:
            res.skipped += 1
        return
    m = re.search(r"The number of states generated: (\d+)", text)
    if m:
        gen_ = dis = int(m.group(1))
    with res.lock:
        res.states += dis
        res.transitions += gen_
    if not (simulated(text) if drawn else finished(text)):
        with res.lock:
            res.failures.append({"part": part, "t": 0, "clause": "model MCSession", "want": "", "ops": [], "got": "\n".join(
                x for x in text.splitlines() if re.match(r"Error|/\\ (hist|file) = ", x))[:3000]})
        return
    path = os.path.join(scratch, "beh%s.ndjson" % tag)
    n = 0
    with open(path, "w") as fp:
        for line in text.splitlines():
            if line.startswith('"@B'):
                fp.write(json.loads(line)[2:] + "\n")
                n += 1
    arg = {"files": files, "full": part["mode"] != "all"}
    step = part.get("chunk", 250)
    for a in range(0, n, step):
        res.more.append(pool.submit(shard, res, dict(part, scenario="play", arg=arg), table, scratch, seed, a, min(a + step, n),
                                    "%s_%d" % (tag, a), path))


def run_play(res, part, table, scratch, seed, tier, pool):
    nf, num = part[tier]
    res.parts.append({"model": "MCSession", "mode": part["mode"], "depth": part["depth"], "files": nf,
                      "histories": num if part["mode"] in ("random", "mixed") else "all", "families": part.get("families", "all")})
    k = min(nf, CORES)
    jobs = [(list(range(i, nf, k)), part) for i in range(k)]
    if part["mode"] == "all" and nf < CORES:        # one file, several groups of models
        fams = part.get("families") or list(range(1, 22))
        split = [[f for f in fams if f in g] for g in ([3], [1, 21], [2, 4, 5, 6], [7, 8, 9, 10, 11], [12, 13, 14, 15, 16],
                                                       [17, 18], [19, 20])]
        jobs = [(g, dict(part, families=f)) for g, _ in jobs for f in split if f]
    return [pool.submit(play, res, p, table, scratch, seed, pool, g, "m%d_%d" % (len(res.parts), i), -(-num // k))
            for i, (g, p) in enumerate(jobs)]


def known_findings(prop):
    """[(property, scenario, trace, clause text)] of the committed list"""
    path = os.path.join(VERIF, "known-findings.json")
    try:
        with open(path) as fp:
            return [k for k in json.load(fp)["findings"] if k["property"] == prop]
    except OSError:
        return []


def check_known(res, prop, table, scratch):
    """replays the listed findings: they are announced as long as they are there"""
    lines = []
    for k in known_findings(prop):
        out = os.path.join(scratch, "known.ndjson")
        job = {"table": table, "out": out, "seed": 1, "from": k["index"], "to": k["index"] + 1,
               "scenario": "known", "arg": {}, "scratch": scratch}
        rc, msg = run_driver(job, scratch, "known", 120)
        ops = read_traces(out).get(k["index"], [])
        shown = [o for o in ops if o["o"] == "finding"]
        if rc == 0 and shown and shown[0]["n"] == k["history"] and shown[0]["x"] != shown[0]["y"]:
            lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    return lines


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    plan = plans.PLANS[prop]
    t0 = time.time()
    res = Result()
    res.deadline = t0 + (600 if tier == "quick" else 6 * 3600)
    os.makedirs(EVIDENCE, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="vp_%s_" % prop)
    known = []
    try:
        table = os.path.join(scratch, "attrs.json")
        text, _, _ = tlc("Export.tla", "Export.cfg", scratch, {"OUT": table})
        if not os.path.exists(table):
            raise RuntimeError("cannot export the tables of the specification:\n" + text[-2000:])
        with ThreadPoolExecutor(CORES) as pool:
            futures = []
            for part in plan["parts"]:
                if tier == "quick" and part.get("only") == "thorough":
                    continue
                if part["type"] == "traces":
                    count = part["n"] if tier == "quick" else part.get("N", part["n"] * 12)
                    futures += run_traces(res, part, table, scratch, seed, count, pool)
                elif part["type"] == "play":
                    futures += run_play(res, part, table, scratch, seed, tier, pool)
                elif part["type"] == "model":
                    run_model(res, part, scratch, tier)
                else:
                    futures += run_replay(res, part, table, scratch, seed, tier, pool)
            for f in futures:
                f.result()
            while res.more:
                res.more.pop().result()
        known = check_known(res, prop, table, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    violations = []
    if res.failures:
        rdir = os.path.join(EVIDENCE, "replay")
        os.makedirs(rdir, exist_ok=True)
        f = min(res.failures, key=lambda f: (len(f["ops"]), f["t"]))
        path = os.path.join(rdir, "%s.json" % prop)
        with open(path, "w") as fp:
            json.dump({"property": prop, "seed": seed, "failure": f,
                       "others": [{k: x[k] for k in ("t", "clause", "want", "got")} for x in res.failures[:40]]},
                      fp, default=str)
        violations.append(path)
        print("%d failing runs; first: %s\n  specified: %s\n  observed:  %s" % (
            len(res.failures), f["clause"], str(f["want"])[:400], str(f["got"])[:700]))
        clauses = sorted({x["clause"] for x in res.failures})
        print("clauses: " + "; ".join(clauses[:12]))
    for line in known:
        print(line)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": plan["level"],
          "coverage": {"states": res.states, "transitions": res.transitions,
                       "traces_validated_against_impl": res.traces,
                       "samples": res.samples or [json.dumps(p)[:300] for p in res.parts[:3]]},
          "wall_s": round(time.time() - t0, 1), "violations": len(res.failures),
          "assumptions": plan.get("assumptions", []) + (
              ["%d groups of runs left out (time, or after a failure)" % res.skipped] if res.skipped else []) + ["parts: " + json.dumps(p) for p in res.parts]}
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as fp:
        json.dump(ev, fp, indent=1)
    if violations:
        print("VIOLATION property=%s replay=%s" % (prop, violations[0]))
        return 1
    if res.skipped and not res.traces:
        print("%s %s: nothing was explored in the time there was" % (prop, tier))
        return 2
    print("%s %s: held on %d runs, %d states (%.0f s)" % (prop, tier, res.traces, res.states, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as exc:                 # never ends without a verdict
        import traceback
        traceback.print_exc()
        p = sys.argv[1] if len(sys.argv) > 1 else "?"
        print("VIOLATION property=%s replay=%s" % (p, "none (the machinery failed: %s)" % type(exc).__name__))
        sys.exit(1)
