"""Suite S4: trigger conditions (C13): patterns, decisions, whole runs against a stand-in for GitHub."""
import itertools, json, os, random, subprocess, sys, time
import github
from common import *


def cps(s):
    return [ord(c) for c in s]


def strs(alpha, n):
    for k in range(n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield "".join(t)


# ------------------------------------------------------------------ generating

class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)

    FILES = ["a", "b", "README.md", "src/main.rs", "src/lib.rs", "src/a/b.rs", "docs/x/y/z.md", ".github/w.yml", "a b/ü.txt", "x[1].js",
             "Src/Main.rs", "src", "src/", "main.rs", "a/*", "x?y"]
    BRANCHES = ["main", "master", "feature/x", "feature/x/y", "release-1.0", "é", "Main", "", "dev"]
    PATS = ["*", "**", "src/**", "src/*", "**/*.rs", "*.rs", "src/*.rs", "main", "ma*", "feature/*", "feature/**", "[a-m]*", "[!a-m]*",
            "?ain", "release-[0-9].?", "a**", "***", "[", "[]", "[!]", "src/**/b.rs", "**/b.rs", "docs/**/z.md", "", "x[[]1].js", "é",
            "src/", "a/[*]", "x[?]y", "**/.github/**", "[]-a]*", "*/*", "/**", "a b/*", "README.md", "[M]ain", "main/**", "[a-c-e]"]

    def pats(self, pool):
        r = self.r
        out = []
        for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3, 5])):
            c = r.random()
            if c < 0.35:
                out.append(r.choice(self.PATS))
            elif c < 0.6 and pool:
                out.append(r.choice(pool))
            elif c < 0.9 and pool:  # a pattern made from a value
                v = list(r.choice(pool))
                for _ in range(r.choice([1, 1, 2])):
                    i = r.randrange(len(v) + 1)
                    w = r.random()
                    if w < 0.3 and i < len(v):
                        v[i] = "?"
                    elif w < 0.5 and i < len(v):
                        v[i] = r.choice(["[%s]", "[!%s]", "[%s-z]", "[a%s]"]) % v[i] if v[i] not in "[]!-?*" else "?"
                    elif w < 0.75:
                        j = r.randrange(i, len(v) + 1)
                        v[i:j] = ["*"]
                    elif w < 0.85 and i < len(v):
                        v[i] = "x"
                    elif w < 0.95:
                        ks = [k for k, c in enumerate(v) if c == "/"]
                        if ks:
                            k = r.choice(ks)
                            v[:k] = ["**"]
                out.append("".join(v))
            else:
                out.append("".join(r.choice("ab/*?[]!-é") for _ in range(r.randrange(8))))
        return out

    def entry(self, branch, files):
        r = self.r
        o = lambda p, pool: [self.pats(pool)] if r.random() < p else []
        return {"branches": o(0.45, [branch] + self.BRANCHES[:2]), "paths": o(0.55, files[:40] + self.FILES[:3])}

    def cond(self, ev, branch, files):
        r = self.r
        if r.random() < 0.25:
            return {"k": "events", "l": r.choice([["push"], ["pull_request"], ["push", "pull_request"], [], ["release"], ["Push"], [ev], [ev]])}
        o = lambda p: [self.entry(branch, files)] if r.random() < p else []
        c = {"k": "config", "push": o(0.8), "pull": o(0.8)}
        return c

    def files(self):
        r = self.r
        return r.sample(self.FILES, r.choice([0, 1, 1, 2, 3, 5, 8]))

    def match(self):
        r = self.r
        ev, branch, files = r.choice(["push", "push", "pull_request", "pull_request", "release", "", "Push"]), r.choice(self.BRANCHES), self.files()
        return {"k": "match", "c": self.cond(ev, branch, files), "event": ev, "branch": branch, "files": files}

    def run(self, tr):
        """A whole run. What GitHub says: fix, for the stand-in; commits and pulls, for the specification."""
        r = self.r
        ev = r.choice(["push", "push", "pull_request", "pull_request", "release"])
        branch = r.choice(self.BRANCHES)
        sha, pr = r.choice(["abc", "HEAD", "0123"]), r.choice([1, 7, 12])
        many = r.random() < 0.06
        mine, other, third = self.files(), self.files(), self.files()
        if many:
            n = r.choice([31, 101, 120, 310, 420])
            mine = ["big/f%d" % i for i in range(n)] + [r.choice(self.FILES)]
        commits, pulls = {sha: mine, "other": other}, {str(pr): mine, "99": other}
        # the commit of a pull request has other files than the request itself
        if r.random() < 0.9:
            (pulls if ev == "push" else commits)[str(pr) if ev == "push" else sha] = third
        if r.random() < 0.07:
            (commits if ev == "push" else pulls).pop(sha if ev == "push" else str(pr))
        auth = r.choice([[]] + [[{"k": "pat", "token": "good", "ok": True}]] * 8 + [[{"k": "pat", "token": "bad", "ok": False}]]
                        + [[{"k": "app", "id": r.randrange(1, 10**6), "how": h, "ok": h == "ok"}]
                           for h in ("ok", "ok", "ok", "not installed", "no token")])
        event = [] if r.random() < 0.06 else [{"event": ev, "branch": branch, "sha": sha,
                                               "pr": [] if r.random() < (0.5 if ev != "pull_request" else 0.06) else [pr]}]
        how = r.choice(["500", "garbage", "close"] + (["later"] * 4 if many and len(mine) > 300 else []))
        down = r.random() < (0.3 if how == "later" else 0.07)
        o = lambda p: [self.cond(ev, branch, mine[-30:])] if r.random() < p else []
        keys = r.sample(["a", "b", "c", "d"], r.choice([1, 2, 2, 3]))
        p = r.choice([0.3, 0.6, 1.0])
        jobs = {k: {"on": o(p * 0.6), "deps": r.sample(keys[:i], r.randrange(i + 1)),
                    "steps": [{"on": o(p), "fails": r.random() < 0.15, "coe": r.random() < 0.4} for _ in range(r.choice([1, 2, 3, 4]))]}
                for i, k in enumerate(keys)}
        return {"tr": tr, "k": "run", "on": o(p * 0.3), "jobs": jobs, "event": event, "auth": auth, "down": down,
                "fix": {"commits": commits, "pulls": pulls, "auth": auth, "down": down, "how": how, "nofiles": r.random() < 0.3,
                        "delay": r.choice([0, 0, 0, 0.02])}}


def coded(x):
    """Condition texts as code points."""
    if isinstance(x, list):
        return [coded(v) for v in x]
    if not isinstance(x, dict):
        return x
    d = {}
    for k, v in x.items():
        if k in ("branches", "paths"):
            d[k] = [[cps(p) for p in l] for l in v]
        elif k in ("l", "files"):
            d[k] = [cps(p) for p in v]
        elif k in ("event", "branch") and isinstance(v, str):
            d[k] = cps(v)
        elif k in ("commits", "pulls"):
            d[k] = {n: [cps(p) for p in l] for n, l in v.items()}
        elif k == "fix":
            d[k] = v
        else:
            d[k] = coded(v)
    return d


def check(exe, res, name, recs, vals=()):
    d = workdir(name)
    fin, fout = os.path.join(d, "in.ndjson"), os.path.join(d, "out.ndjson")
    with open(fin, "w") as o:
        o.write("".join(json.dumps(coded(r)) + "\n" for r in recs))
    args, runs = ["cond", "--in", fin, "--out", fout], any(r["k"] == "run" for r in recs)
    if runs:
        with github.standin(d, fin) as (env, key):
            harness(exe, args + ["--key", key], env=env)
    else:
        harness(exe, args)
    vf = os.path.join(d, "vals.json")
    with open(vf, "w") as o:
        json.dump([cps(v) for v in vals] or [[]], o)
    with open(fout) as i:
        out = [json.loads(l) for l in i]
    for r in out:
        r.pop("vals", None)
        if r["k"] == "run":
            r["commits"], r["pulls"] = ({n: [cps(p) for p in l] for n, l in r["fix"][k].items()} or {"-": []} for k in ("commits", "pulls"))
            del r["fix"]
    with open(fout, "w") as o:
        o.write("".join(json.dumps(r) + "\n" for r in out))
    vs, n, trs, _ = validate("CondTrace", fout, name, min_chunk=100, env={"VALS": vf})
    res.traces(name, fout, vs, n, trs)
    if runs:
        skipped = lambda r: r["out"]["state"] == "skipped" or any(j["state"] == "skipped" or "skipped" in j["steps"] for j in r["out"]["jobs"].values())
        res.extra[name] = "%d runs, something skipped in %d of them" % (len(out), sum(map(skipped, out)))
    elif out[0]["k"] == "match":
        res.extra[name] = "%d decisions, %d of them to run" % (len(out), sum(1 for r in out if r["ok"] is True))
    else:
        res.extra[name] = "%d patterns tried on %d values" % (len(out), len(vals))


def run(exe, res, prop):
    for what in ("globs", "lists", "known"):
        out = tlc("CondMC", env={"WHAT": what, "LEN": 5 if THOROUGH else 4}, workers=CORES)
        if "No error has been found" not in out:
            raise ToolError("the specification itself is broken (CondMC):\n" + out[-3000:])
        gen, dist, _ = tlc_stats(out)
        res.model("CondMC " + what, gen, dist)
    vals = list(strs("ab/", 4 if THOROUGH else 3))
    pats = list(strs("ab/*?[]!-" if THOROUGH else "ab/*?[]!", 5 if THOROUGH else 4))
    check(exe, res, "cond-globs", [{"tr": i + 1, "k": "glob", "p": cps(p), "vals": [cps(v) for v in vals]} for i, p in enumerate(pats)], vals)
    for k in range(10 if THOROUGH else 1):
        g = Gen(SEED + 1000 * k)
        check(exe, res, "cond-match%d" % k, [dict(g.match(), tr=i + 1) for i in range(20000 if THOROUGH else 6000)])
        check(exe, res, "cond-runs%d" % k, [g.run(i + 1) for i in range(2500 if THOROUGH else 700)])
