"""Suite S1: the workflow engine against Engine.tla (C01-C09, C21)."""
import json, os, re
from common import *
import engine_mc, github

FILES = ["src/a.rs", "docs/x.md"]
FIX = {"auth": [{"k": "token"}], "down": False, "commits": {"sha-w1": FILES, "sha-w2": FILES, "sha-w3": FILES}, "pulls": {"7": FILES}}


def drive(exe, args):
    """Runs the harness with a GitHub at hand that knows the files of the workflows' commits."""
    d = workdir("engine-github")
    fx = os.path.join(d, "fix.ndjson")
    with open(fx, "w") as o:
        o.write("".join(json.dumps({"owner": "owner-w%d" % i, "fix": FIX}) + "\n" for i in (1, 2, 3)))
    with github.standin(d, fx) as (env, _):
        return harness(exe, args, env=env)


def conditional(res, path):
    n = 0
    with open(path) as f:
        for l in f:
            if '"k":"cfg"' in l and '"on":false' in l:
                n += 1
    res.extra["runs with something that must not run by its condition"] = res.extra.get("runs with something that must not run by its condition", 0) + n


def random_runs(exe, res, name, n, fams, seed=None):
    f = os.path.join(WORK, name + ".ndjson")
    out = drive(exe, ["engine", "--seed", seed if seed is not None else SEED, "--n", n, "--fam", fams, "--out", f])
    lost = int(re.search(r"lost (\d+)", out)[1])
    if lost:
        res.extra["runs of one workflow at the same time that could not be told apart"] = res.extra.get("runs of one workflow at the same time that could not be told apart", 0) + lost
    conditional(res, f)
    vs, recs, trs, states = validate("EngineTrace", f, name)
    res.traces(name, f, vs, recs, trs)


def model(res, names, mode, cfg="EngineMC", timeout=800):
    f = os.path.join(WORK, "cfg-%s-%s.ndjson" % (mode, "-".join(names)[:40]))
    open(f, "w").write("".join(json.dumps(engine_mc.BY_NAME[n][0]) + "\n" for n in names))
    out = tlc("EngineMC", cfg + ".cfg", env={"CONFIGS": f, "MODE": mode, "PRINT": "0"}, workers=CORES, timeout=timeout,
              heap="8g")
    gen, dist, done = tlc_stats(out)
    if "No error has been found" not in out:
        raise ToolError("the specification itself is broken (%s):\n%s" % (names, out[-3000:]))
    res.model("EngineMC %s, mode %s, configurations %s" % (cfg, mode, ",".join(names)), gen, dist)


def schedules(exe, res, names, limit=None, timeout=800):
    """Every transition of the model with those configurations becomes one run of the real engine."""
    import concurrent.futures as cf

    def paths(n):
        f = os.path.join(WORK, "cfg-sched-%s.ndjson" % n)
        open(f, "w").write(json.dumps(engine_mc.BY_NAME[n][0]) + "\n")
        out = tlc("EngineMC", env={"CONFIGS": f, "MODE": "max", "PRINT": "1"}, workers=1, timeout=timeout, heap="4g")
        if "No error has been found" not in out:
            raise ToolError("the specification itself is broken (%s):\n%s" % (n, out[-3000:]))
        gen, dist, _ = tlc_stats(out)
        ps = {m[1].replace('\\"', '"') for m in re.finditer(r'<<"PATH", \d+, "(.*)">>', out)}
        ps = [json.loads(p) for p in sorted(ps)]
        pre = set()
        for p in ps:
            for i in range(len(p)):
                pre.add(json.dumps(p[:i]))
        mx = [p for p in ps if json.dumps(p) not in pre]
        return n, gen, dist, len(ps), mx

    with cf.ThreadPoolExecutor(CORES) as ex:
        got = list(ex.map(paths, names))
    items, total = [], 0
    for n, gen, dist, np, mx in got:
        total += np
        res.model("EngineMC mode max, configuration %s" % n, gen, dist)
        if limit and len(mx) > limit:
            step = len(mx) / limit
            off = (SEED * 0.6180339887) % 1
            mx = [mx[int((i + off) * step)] for i in range(limit)]
        items += [{"sc": engine_mc.BY_NAME[n][1], "path": p} for p in mx]
    name = "sched-" + "-".join(names)[:40]
    fin, fout = os.path.join(WORK, name + ".in"), os.path.join(WORK, name + ".ndjson")
    open(fin, "w").write("".join(json.dumps(i) + "\n" for i in items))
    out = drive(exe, ["schedules", "--in", fin, "--out", fout])
    vs, recs, trs, states = validate("EngineTrace", fout, name)
    res.traces(name, fout, vs, recs, trs)
    res.extra["schedules replayed"] = res.extra.get("schedules replayed", 0) + len(items)
    res.extra["spec transitions covered by schedules"] = res.extra.get("spec transitions covered by schedules", 0) + total
    conditional(res, fout)
    m = re.search(r"off (\d+)", out)
    res.extra["schedules the engine left"] = res.extra.get("schedules the engine left", 0) + int(m[1])


BIG = "wide,freewide,long,bulk,wide,freewide,long,freebulk"
PLANS = {
    # property: (families, full-mode models, schedules)
    "C01": ("deps,deps,mix,twins,free", ["diamond", "two"], ["diamond", "chain", "two", "twins", "skips", "alloff"]),
    "C02": ("mix,deps,steps,cancel,timeout,twins,free,freetwins", ["two", "twins", "policy3", "skips"], ["policy3", "diamond", "two", "twins", "logs", "skips", "alloff"]),
    "C03": ("steps,steps,cancel,mix,twins,free", ["policy3", "policy4", "cancel2"], ["policy3", "policy4", "cancel2", "chain", "skips"]),
    "C04": ("steps,mix,cancel,deps,twins,free", ["policy3", "policy4", "two"], ["policy3", "policy4", "chain", "two", "skips", "alloff"]),
    "C05": ("mix,steps,plugins,cancel,deps,twins,free", ["cancel2", "two", "skips"], ["cancel2", "logs", "two", "fan", "skips"]),
    "C06": ("plugins,plugins,mix,free", ["fan", "cancel2"], ["fan", "cancel2", "logs"]),
    "C07": ("logs,logs,timeout,mix,free", ["logs"], ["logs", "timeoutS"]),
    "C08": ("cancel,cancel,cancel,timeout,mix,chatty", ["cancel2", "logs", "two"], ["cancel2", "chain", "logs", "two", "policy3", "skips"]),
    "C09": ("timeout,timeout,cancel,mix,chatty", ["timeoutS"], ["timeoutS"]),
    "C13": ("deps,steps,mix,cancel,free", ["skips", "alloff"], ["skips", "alloff"]),
    "C21": ("plugins,mix,twins,free,freetwins", ["fan", "twins"], ["fan", "two", "twins"]),
}


def run(exe, res, prop):
    fams, full, sched = PLANS[prop]
    if THOROUGH:
        for k in range(12):
            random_runs(exe, res, "rand%d" % k, 1500, fams, SEED + 1000 * k)
            random_runs(exe, res, "big%d" % k, 240, BIG, SEED + 1000 * k + 500)
        model(res, full, "full")
        for n in full:
            if n in ("policy3", "policy4", "logs", "two", "cancel2", "diamond"):
                model(res, [n], "max", "EngineLive")
        schedules(exe, res, sched)
        if prop in ("C07", "C08", "C09"):
            model(res, ["timeout"], "max")
    else:
        random_runs(exe, res, "rand", 600, fams)
        random_runs(exe, res, "big", 80, BIG, SEED + 500)
        model(res, full, "full")
        schedules(exe, res, sched, limit=700)
