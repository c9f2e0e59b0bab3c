"""Suite S2/S5: streams (C10), signals (C11) and the scheduler (C14): every recorded history must be explained by the
specification as a sequence of atomic operations (linearizability), and no waiter may be left behind."""
import json, os, re
from common import *

KIND = {"C10": ("stream", "Stream", 4, 6), "C11": ("signal", "Signal", 3, 4), "C14": ("sched", "Scheduler", 3, 4)}


def paths(mc, depth, timeout=800):
    out = tlc(mc, env={"DEPTH": depth, "PRINT": "1"}, workers=1, timeout=timeout, heap="8g")
    if "No error has been found" not in out:
        raise ToolError("the specification itself is broken (%s):\n%s" % (mc, out[-3000:]))
    gen, dist, _ = tlc_stats(out)
    ps = {m[1].replace('\\"', '"') for m in re.finditer(r'<<"PATH", "(.*)">>', out)}
    return gen, dist, [json.loads(p) for p in sorted(ps)]


def note(res, key, out):
    m = re.search(r"runs (\d+) different (\d+)(?: exhausted (\d+) of (\d+))?", out)
    t = "%s runs, %s different histories" % (m[1], m[2])
    if m[3]:
        t += ", every interleaving of %s of %s programs" % (m[3], m[4])
    res.extra[key] = t


def run(exe, res, prop):
    kind, mod, dq, dt = KIND[prop]
    trace = mod + "Trace"
    # 1. the specification itself
    depth = dt if THOROUGH else dq
    gen, dist, ps = paths(mod + "MC", depth)
    res.model("%sMC, every sequence of %d operations" % (mod, depth), gen, dist)
    if mod == "Stream":
        out = tlc("StreamLoop", workers=1)
        if "No error has been found" not in out:
            raise ToolError("the specification itself is broken (StreamLoop):\n" + out[-3000:])
        g, d, _ = tlc_stats(out)
        res.model("StreamLoop (liveness of a task that polls when woken)", g, d)
    # 2. each of those sequences in the real code
    f, o = os.path.join(WORK, kind + "-seq.in"), os.path.join(WORK, kind + "-seq.ndjson")
    open(f, "w").write("".join(json.dumps([[], p]) + "\n" for p in ps))
    note(res, "sequences of the model replayed", harness(exe, ["hist", "--kind", kind, "--seed", SEED, "--in", f, "--out", o]))
    vs, recs, trs, _ = validate(trace, o, kind + "-seq")
    res.traces(kind + "-seq", o, vs, recs, trs)
    # 3. concurrently on real threads
    o = os.path.join(WORK, kind + "-thr.ndjson")
    n, reps = (3000, 40) if THOROUGH else (1000, 10)
    note(res, "histories on real threads",
         harness(exe, ["hist", "--kind", kind, "--seed", SEED, "--n", n, "--reps", reps, "--big", 400 if THOROUGH else 40, "--out", o]))
    vs, recs, trs, _ = validate(trace, o, kind + "-thr")
    res.traces(kind + "-thr", o, vs, recs, trs)
    # 4. interleavings of their lock operations chosen by shuttle
    try:
        conc = build(CONC, "conc", ["astro-run", "astro-run-scheduler"])
    except ToolError as e:
        log("no interleavings: the code does not build with the instrumented locks:", str(e)[-1500:])
        res.extra["interleavings"] = "none: the code does not build with the instrumented locks"
        return
    for k in range(8 if THOROUGH else 1):
        o = os.path.join(WORK, "%s-conc%d.ndjson" % (kind, k))
        n, dfs, rnd = (600, 2000, 300) if THOROUGH else (250, 400, 100)
        note(res, "interleavings %d" % k,
             harness(conc, ["--kind", kind, "--seed", SEED + 100 * k, "--n", n, "--dfs", dfs, "--rnd", rnd, "--out", o],
                     timeout=1500))
        vs, recs, trs, _ = validate(trace, o, "%s-conc%d" % (kind, k), timeout=1500)
        res.traces("%s-conc%d" % (kind, k), o, vs, recs, trs)
