"""Suite S6: remote runners (C14, C15, C16, C17, C18, C21): real servers, the real client, connections that break."""
import json, os, random, re
from common import *

RES = [["end", "succeeded", 0]] * 4 + [["end", "failed", 3], ["end", "failed", -1], ["end", "failed", 300], ["end", "cancelled", 0]]
LINES = ["x", "", "two\nlines", "ä € \u2028", "\t\"quoted\" \\", "a" * 119, "b" * 5000, "::set x=1", "\x1b[31mred", "x"]
KINDS = ["wf.run", "job.run", "st.run", "state", "log", "st.done", "job.done", "wf.done"]


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def good(self, id):
        r = self.r
        n = r.choice([0, 0, 1, 1, 2, 3])
        obs = [str(o) for o in range(1, n + 2)]
        return self.found({"how": "good", "id": id, "plugins": n, "delay": r.choice([0, 0, 0, 0, 1, 3]), "docker": r.random() < 0.8,
                "host": r.random() < 0.8, "max": r.choice([1, 5, 1000, -3]), "found": r.choice(["", "", "", "ok", "down", "missing"]),
                "fail": {o: r.sample(KINDS, r.choice([1, 3, 8])) for o in obs if r.random() < 0.2},
                "before": {o: r.choice(["run", "run", "env", "all"] + (["fail"] if o != obs[-1] or r.random() < 0.4 else []))
                           for o in obs if r.random() < 0.4}})

    def found(self, s):
        """It is left to the runner to find out whether there is docker, and to the defaults what else it offers."""
        if s.get("found"):
            s.update(docker=s["found"] == "ok", host=True, max=5)
        return s

    def fake(self, id, version):
        r = self.r
        return {"how": "fake", "id": id, "plugins": 0, "version": version, "os": r.choice(["linux", "windows", "macos"]),
                "arch": r.choice(["x86_64", "aarch64"]), "docker": r.random() < 0.5, "host": r.random() < 0.5, "max": 2}

    def lines(self, n):
        r = self.r
        return [[r.choice(["log", "log", "err"]), r.choice(LINES)] for _ in range(n)]

    def script(self, fam):
        r = self.r
        c = r.random()
        if c < 0.07:
            return [["refuse"]] if r.random() < 0.7 else [["panic"]]
        acts = self.lines(r.choice([0, 1, 2, 3, 5]))
        if fam == "burst":
            acts = [["many", r.choice([31, 64, 150, 31, 64, 150, 150, 400])]] + acts
        if fam == "big":
            acts.insert(r.randrange(len(acts) + 1), ["big", r.choice([4 << 20, 5 << 20])])
        if r.random() < 0.3:
            acts.insert(r.randrange(len(acts) + 1), ["pause", r.choice([1, 5, 30])])
        if r.random() < (0.2 if fam == "cut" else 0.01):
            acts.insert(r.randrange(len(acts) + 1), ["cut"])
        if r.random() < (0.7 if fam == "signal" else 0.04):
            k = r.randrange(len(acts) + 1)
            acts[k:k] = [["cancel"]] + ([["hold"]] if r.random() < 0.8 else [])
        end = list(r.choice(RES))
        if fam == "cut" and r.random() < 0.4:
            end.append("own")
        return acts + [end]

    def step(self):
        r = self.r
        s = {"run": r.choice(["echo x", "a\nb\n", "é"]), "continue-on-error": r.random() < 0.6}
        if r.random() < 0.3:
            s["name"] = r.choice(["N", "名"])
        if r.random() < 0.3:
            s["environments"] = {"A": r.choice(["x", 1, 2.5, True, ""]), "B": "é"}
        if r.random() < 0.2:
            s["secrets"] = r.choice([["s1", "s2"], ["", "s", "s"]])
        if r.random() < 0.3:
            s["container"] = r.choice(["host", "host/linux-x86_64", "ubuntu", {"name": "alpine", "volumes": ["a:/b"],
                                                                               "security-opts": ["x=y"]}])
        if r.random() < 0.2:
            s["timeout"] = r.choice(["2h", "90s", "1500ms"])
        return s

    def odd_event(self):
        r = self.r
        return {"event": r.choice(["push", "pull_request", "", "release"]), "repo_owner": r.choice(["", "o", "ö w"]), "repo_name": r.choice(["", "r"]),
                "sha": r.choice(["", "0", "sha \" x"]), "branch": r.choice(["", "féature/x"]), "ref_name": r.choice(["", "refs/tags/v1"]),
                "pr_number": r.choice([None, 0, 1, -1, 2 ** 63 - 1])}

    def workflows(self, n, fam):
        r = self.r
        out, scripts, pre = [], {}, {}
        for k in range(n):
            jobs = {}
            wid = r.choice(["w%d"] * 8 + ["w-%d", "w %d\u00e9"]) % k
            keys = ["a", "b", "c", "d"] if fam != "wide" else ["j%d" % i for i in range(30)]
            if fam != "wide" and r.random() < 0.2:
                keys = ["a b", "a-b", "\u6df1", "x\"y", "0", "w0", "a.b", "null"]
            for j in r.sample(keys, r.choice({"burst": [1, 2], "wide": [9, 15, 30], "long": [1, 2]}.get(fam, [1, 1, 2, 3]))):
                jobs[j] = {"steps": []}
                if r.random() < 0.3 and len(jobs) > 1:
                    jobs[j]["depends-on"] = r.sample(sorted(set(jobs) - {j}), 1)
                for s in range(r.choice([1] if fam in ("big", "burst", "wide") else [12, 25] if fam == "long" else [1, 1, 2, 3])):
                    e = "%s/%s/%d" % (wid, j, s)
                    st = self.step()
                    scripts[e] = self.script(fam)
                    if fam == "signal" and r.random() < 0.3:
                        st["timeout"] = r.choice(["40ms", "150ms"])
                        scripts[e] = self.lines(2) + [["hold"]] + self.lines(1) + [list(r.choice(RES))]
                    if r.random() < (0.08 if fam in ("cut", "signal") else 0):
                        pre[e] = [["cancel"]] if fam == "signal" else [["cut", r.randrange(4)]]
                    jobs[j]["steps"].append(st)
            out.append({"id": wid, "doc": {"jobs": jobs}, "event": r.random() < 0.6 and (r.random() < 0.7 or self.odd_event()), "payload": r.random() < 0.6})
            if r.random() < 0.3:
                out[-1]["doc"]["name"] = "the workflow"
        return out, scripts, pre

    def late(self):
        """The connection is lost long after the result has arrived, while the lines are still being worked off."""
        r = self.r
        wf, scripts = {"jobs": {}}, {}
        for j in "ab":
            wf["jobs"][j] = {"steps": [{"run": "x"}]}
            scripts["w/%s/0" % j] = self.lines(24) + [list(r.choice(RES)) + ["own", 500]]
        servers = [self.fake("f", "same"), self.fake("g", "same")]
        sc = scenario(servers, [[0, 1]], [[{"id": "w", "doc": wf}]], scripts, {}, pick={"w/a/0": "f", "w/b/0": "g"})
        return dict(sc, lag=40)

    def one(self, tr, fam):
        r = self.r
        if fam == "late":
            return self.late()
        n = r.choice({"big": [1, 2], "crowd": [7, 10], "nostart": [0, 0, 2], "long": [1, 2], "wide": [1, 2, 3]}.get(fam, [1, 2, 2, 3, 4]))
        servers = [self.good("r%d" % i) for i in range(n)]
        if fam == "hang":  # hooks that never return, on some of the runners
            n = r.choice([2, 3, 4])
            servers = [self.good("r%d" % i) for i in range(n)]
            for s in r.sample(servers, r.choice([1, 1, n - 1])):
                s["hang"] = {str(r.randint(1, s["plugins"] + 1)): r.choice(KINDS)}
        if fam not in ("big", "nostart") and r.random() < (0.4 if fam == "cut" else 0.15):
            servers.append(self.fake("f", "same"))
        starts = None
        if fam in ("connect", "mute"):
            v = ["0.1.9", "0.2", "0.2.1", "0.2.0-beta", "v0.2.0", "0.3.0", "1.2.0", "", "0.2.00", "error"]
            bad = [{"how": "dead", "id": "d"}, {"how": "badurl", "id": "u", "url": r.choice(["", "not a url", "http://", "ftp://127.0.0.1:1"])},
                   {"how": "garbage", "id": "g"}, self.fake("o", r.choice(v)), self.fake("r0", r.choice(v)), self.fake("o2", r.choice(v)),
                   self.fake("r0", "same"), self.good("r0"), self.good("r1")]
            servers += r.sample(bad, r.choice([1, 2, 3, 5]))
            if fam == "mute":
                servers.append({"how": "mute", "id": "m"})
            order = list(range(len(servers)))
            r.shuffle(order)
            k = r.randrange(len(order) + 1)
            starts = [order[:k], order[k:]] if r.random() < 0.6 else [order]
            if r.random() < 0.2:
                starts.append([r.choice(order)])  # an address given twice
        else:
            order = list(range(len(servers)))
            k = r.randrange(1, len(order) + 1) if order else 0
            starts = r.choice([[], [[]]]) if n == 0 or fam == "nostart" else [order[:k], order[k:]] if r.random() < 0.2 and k < len(order) else [order]
        if fam == "connect" and r.random() < 0.05:
            keep = [i for i, s in enumerate(servers) if not usable(s)]
            starts = [keep]
        wfs, scripts, pre = self.workflows(r.choice([1, 1, 2, 3]) if fam not in ("big", "mute", "wide", "long") else 1, fam)
        rounds = [wfs]
        if fam == "rerun":  # the same workflows again and again, with slow runners
            for s in servers:
                s["delay"] = r.choice([0, 2, 8])
            rounds = [wfs] * r.choice([2, 3])
            for e in scripts:
                if r.random() < 0.6:
                    scripts[e] = [["log", "a"], ["pause", r.choice([1, 10, 40, 150])], ["cancel"], ["hold"], ["end", "cancelled", 0]]
        pre = {e: [p for p in ps if p[0] != "cut" or (p[1] < len(servers) and usable(servers[p[1]]))] for e, ps in pre.items()}
        return scenario(servers, starts, rounds, scripts, pre, seed=r.randrange(1 << 30),
                        sched=r.choice(["default", "any", "any"]), settle=5 if fam == "connect" else 0)


def usable(s):
    return s["how"] == "good" or (s["how"] == "fake" and s["version"] == "same")


def scenario(servers, starts, rounds, scripts, pre, seed=1, sched="any", settle=0, pick=None):
    used, watch, ids = [], [], set()
    for p in starts:
        for i in p:
            s = servers[i]
            if usable(s) and s["id"] not in ids:
                ids.add(s["id"])
                watch.append(i)
        used.append(len(ids))
    return {"servers": servers, "starts": starts, "rounds": rounds, "scripts": scripts, "pre": pre, "seed": seed, "sched": sched,
            "settle": settle, "used": used, "watch": watch, "pick": pick or {}}


def execute(exe, res, name, scs, par=12, min_chunk=2000):
    d = workdir(name)
    fin, fout = os.path.join(d, "in.ndjson"), os.path.join(d, "out.ndjson")
    with open(fin, "w") as o:
        o.write("".join(json.dumps(s) + "\n" for s in scs))
    out = harness(exe, ["remote", "--in", fin, "--out", fout, "--par", par])
    pace(out, res, name, par)
    vs, n, trs, _ = validate("RemoteTrace", fout, name, min_chunk=min_chunk)
    res.traces(name, fout, vs, n, trs)
    return vs


# ------------------------------------------------------------------ the model, and its behaviours replayed

def config(steps, logs, cuts, sigs, events, obs, ends):
    return {"servers": [{"id": i, "good": True, "obs": o, "meta": k + 1} for k, (i, o) in enumerate(zip("AB", obs))],
            "starts": [list(range(len(obs)))], "steps": ["w/%s/0" % s for s in steps], "logs": logs, "cuts": cuts, "sigs": sigs,
            "ends": [{"state": "succeeded", "code": -999}, {"state": "failed", "code": 3}, {"state": "cancelled", "code": -999}][:ends],
            "events": events, "befFail": [[0, 1]]}


CONFIGS = {
    "one": config("a", 2, 1, 1, False, [2, 1], 3),
    "two-cut": config("ab", 1, 1, 0, False, [2, 1], 1),
    "two-sig": config("ab", 1, 0, 1, False, [2, 1], 1),
    "events-cut": config("a", 1, 1, 0, True, [2, 1], 1),
    "events": config("a", 2, 0, 0, True, [2, 1], 1),
    "one-big": config("a", 3, 1, 1, False, [2, 1], 2),
    "events-two": config("a", 1, 1, 1, True, [2, 1], 2),
    "live": config("a", 1, 1, 1, False, [2, 1], 1),
}
FAULTS = {"one": ["wrong", "chain", "lostok", "silent", "deaf"], "events": ["bounded", "plugonly", "reorder"]}


def tlc_model(name, mode="full", bug="none", cfg="RemoteMC", show="0", workers=CORES):
    f = os.path.join(WORK, "remote-%s.ndjson" % name)
    with open(f, "w") as o:
        o.write(json.dumps(CONFIGS[name]) + "\n")
    return tlc("RemoteMC", cfg + ".cfg", env={"CONFIGS": f, "MODE": mode, "BUG": bug, "PRINT": show}, workers=workers, timeout=850, heap="6g")


def model(res, name, mode="full", cfg="RemoteMC"):
    out = tlc_model(name, mode, cfg=cfg)
    if "No error has been found" not in out:
        raise ToolError("the specification itself is broken (RemoteMC %s):\n%s" % (name, out[-3000:]))
    gen, dist, _ = tlc_stats(out)
    res.model("RemoteMC %s, mode %s, configuration %s" % (cfg, mode, name), gen, dist)
    for b in FAULTS.get(name, []) if mode == "full" and cfg == "RemoteMC" else []:
        if "NoViolation is violated" not in tlc_model(name, mode, b):
            raise ToolError("the properties do not find the fault %s in the model %s" % (b, name))
        res.extra["faults put into the model and found"] = res.extra.get("faults put into the model and found", 0) + 1


def replay(k, path, gap):
    """One behaviour of the model as a scenario: who acts at which turn."""
    servers = [{"how": "good", "id": s["id"], "plugins": s["obs"] - 1, "docker": True, "host": True,
                "before": {"1": "fail" if [i, 1] in k["befFail"] and s["obs"] > 1 else "run", str(s["obs"]): "run"}}
               for i, s in enumerate(k["servers"])]
    scripts, turns, pick, driver = {e: [] for e in k["steps"]}, {}, {}, []
    for n, a in enumerate(path):
        if a[0] == "pick":
            turns[a[1]], pick[a[1]] = n, a[2]
        elif a[0] in ("cut", "cancel"):
            driver.append([n, a[0], a[1]])
        else:
            act = {"log": ["log", str(n)], "err": ["err", str(n)], "refuse": ["refuse"],
                   "end": ["end", a[2] if len(a) > 2 else "", 3]}[a[0]]
            scripts[a[1]] += [["at", n], act]
    for e in scripts:
        if not scripts[e] or scripts[e][-1][0] not in ("end", "refuse"):  # another path goes on from there
            scripts[e].append(["end", "succeeded", 0])
    jobs = {e.split("/")[1]: {"steps": [{"run": "x"}]} for e in k["steps"]}
    sc = scenario(servers, k["starts"], [[{"id": "w", "doc": {"jobs": jobs}, "event": True, "payload": True}]], scripts, {}, pick=pick)
    return dict(sc, turns=turns, driver=driver, gap=gap)


def schedules(exe, res, name, limit, gap=2):
    out = tlc_model(name, "max", show="1", workers=1)
    if "No error has been found" not in out:
        raise ToolError("the specification itself is broken (RemoteMC %s):\n%s" % (name, out[-3000:]))
    gen, dist, _ = tlc_stats(out)
    res.model("RemoteMC mode max, configuration %s" % name, gen, dist)
    ps = sorted({m[1].replace('\\"', '"') for m in re.finditer(r'<<"PATH", \d+, "(.*)">>', out)})
    ps = [json.loads(p) for p in ps]
    pre = {json.dumps(p[:i]) for p in ps for i in range(len(p))}
    mx = [p for p in ps if json.dumps(p) not in pre]
    if len(mx) > limit:
        random.Random(SEED).shuffle(mx)
        mx = mx[:limit]
    going(res) and execute(exe, res, "remote-sched-" + name, [replay(CONFIGS[name], p, gap) for p in mx])
    res.extra["behaviours of the model replayed"] = res.extra.get("behaviours of the model replayed", 0) + len(mx)


FAMS = {"plain": 40, "cut": 50, "signal": 40, "connect": 40, "burst": 10, "rerun": 10, "big": 3, "late": 3, "mute": 3, "hang": 20,
        "nostart": 6, "wide": 5, "long": 3, "crowd": 4}


SMALL = {"C14": {"plain": 30, "rerun": 6, "cut": 20, "nostart": 3, "wide": 3}, "C21": {"plain": 40, "connect": 10, "crowd": 2}}


def run(exe, res, prop):
    if prop in SMALL:
        g = Gen(SEED + 7)
        for fam, n in SMALL[prop].items():
            going(res) and execute(exe, res, "remote-" + fam, [g.one(i + 1, fam) for i in range(n * (8 if THOROUGH else 1))])
        return
    if THOROUGH:
        for n in ("one", "events", "events-cut", "one-big", "events-two"):
            model(res, n)
        for n in ("two-cut", "two-sig"):
            model(res, n, "max")
        model(res, "live", cfg="RemoteLive")
        for n in ("one", "two-cut", "two-sig", "events-cut"):
            schedules(exe, res, n, 3000, gap=3)
        fams = {f: n * 8 for f, n in FAMS.items()}
    else:
        model(res, "events-cut" if prop in ("C17", "C18") else "one")
        model(res, "live", cfg="RemoteLive")
        for n in ("one", "two-sig") if prop == "C16" else ("one", "two-cut"):
            schedules(exe, res, n, 200)
        fams = FAMS
    g = Gen(SEED)
    for fam, n in fams.items():
        going(res) and execute(exe, res, "remote-" + fam, [g.one(i + 1, fam) for i in range(n)], par=24 if fam in ("mute", "connect") else 12)
