"""Runs the implementation and records what it does: drive.py JOB.json

JOB: {"table": attrs.json, "out": traces.ndjson, "seed": n, "from": i, "to": j,
      "scenario": name, "arg": {...}, "scratch": dir, "limit": seconds}
Every trace t in [from, to) is generated from its own random stream (seed, t),
so that any single one can be replayed.
"""
import json
import os
import random
import signal
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import impl                                   # noqa: E402
import objects                                # noqa: E402
import scenarios                              # noqa: E402
import tree                                   # noqa: E402


def main():
    with open(sys.argv[1]) as fp:
        job = json.load(fp)
    with open(job["table"]) as fp:
        table = json.load(fp)

    def alarm(*_):
        raise impl.Timeout()
    signal.signal(signal.SIGALRM, alarm)
    fn = getattr(scenarios, "sc_" + job["scenario"], None) or getattr(
        tree, "sc_" + job["scenario"], None) or getattr(objects, "sc_" + job["scenario"])
    if "behaviours" in job:                     # one per line, written by TLC
        with open(job["behaviours"]) as fp:
            lines = [line for i, line in enumerate(fp) if job["from"] <= i < job["to"]]
    total, slow = 0, False
    with open(job["out"], "w") as out:
        for t in range(job["from"], job["to"]):
            rng = random.Random("%s/%s/%d" % (job["seed"], job["scenario"], t))
            path = os.path.join(job["scratch"], "p%d.flp" % os.getpid())
            run = impl.Run(table["attrs"], path)
            ops = []
            signal.setitimer(signal.ITIMER_REAL, job.get("limit", 60))
            arg = dict(job.get("arg", {}))
            if "behaviours" in job:
                arg["behaviour"] = json.loads(lines[t - job["from"]])
            try:
                fn(run, rng, ops, t, **arg)
            except impl.Timeout:
                ops.append({"o": "same", "n": "the operation terminates", "x": 1, "y": 0})
                slow = True
            except Exception as exc:             # the library broke the driver
                import traceback
                tb = traceback.extract_tb(exc.__traceback__)[-1]
                ops.append({"o": "same", "n": "no unexpected exception", "x": "",
                            "y": "%s: %s at %s:%d" % (type(exc).__name__, str(exc)[:100],
                                                      os.path.basename(tb.filename), tb.lineno)})
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            total += len(ops) + 1
            out.write(json.dumps({"t": t, "ops": ops}, separators=(",", ":")) + "\n")
            if slow:                             # the others would wait just as long
                break
    with open(job["out"] + ".n", "w") as fp:    # states of a specification which admits all of it
        fp.write(str(total))


if __name__ == "__main__":
    main()
