"""Suite S3: workflow files, what they mean and which are rejected (C12, C22, supplied actions of C06)."""
import json, os, random, re
from common import *


def canon(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"), ensure_ascii=False)


# ------------------------------------------------------------------ from a structure to YAML text

PLAIN = re.compile(r"^[A-Za-z_][A-Za-z0-9_./:-]*[A-Za-z0-9_]$")
WORDS = {"null", "true", "false", "yes", "no", "on", "off", "y", "n", "nan", "inf"}


def scalar(x, rnd):
    if isinstance(x, Lit):
        return x.t
    if isinstance(x, bool):
        return "true" if x else "false"
    if x is None:
        return rnd.choice(["null", "~"])
    if isinstance(x, (int, float)):
        return json.dumps(x)
    s = str(x)
    if PLAIN.match(s) and s.lower() not in WORDS and ": " not in s and rnd.random() < 0.7:
        return s
    if "'" not in s and s.isprintable() and s and rnd.random() < 0.3:
        return "'" + s + "'"
    return json.dumps(s, ensure_ascii=rnd.random() < 0.5)


class Lit:
    def __init__(self, t):
        self.t = t


def flow(x, rnd):
    if isinstance(x, dict):
        return "{" + ", ".join("%s: %s" % (json.dumps(k), flow(v, rnd)) for k, v in x.items()) + "}"
    if isinstance(x, list):
        return "[" + ", ".join(flow(v, rnd) for v in x) + "]"
    if isinstance(x, (bool, Lit)) or x is None:
        return scalar(x, rnd)
    return json.dumps(x, ensure_ascii=False)


def yaml(x, rnd, ind=0):
    pad = "  " * ind
    out = []
    if isinstance(x, dict):
        items = list(x.items())
        if rnd.random() < 0.5:
            rnd.shuffle(items)
        for k, v in items:
            key = scalar(k, rnd)
            if isinstance(v, str) and "\n" in v and v.endswith("\n") and not v.endswith("\n\n") and not v.startswith((" ", "\n")) \
                    and v.isascii() and "\t" not in v and v.strip() and all(c.isprintable() or c == "\n" for c in v):
                out.append("%s%s: |" % (pad, key))
                out += [(pad + "  " + l) if l else "" for l in v[:-1].split("\n")]
            elif isinstance(v, (dict, list)) and v and rnd.random() < 0.8:
                out.append("%s%s:" % (pad, key))
                out += yaml(v, rnd, ind + 1)
            else:
                out.append("%s%s: %s" % (pad, key, flow(v, rnd) if isinstance(v, (dict, list)) else scalar(v, rnd)))
    else:
        for v in x:
            if isinstance(v, (dict, list)) and v:
                sub = yaml(v, rnd, ind + 1)
                out.append(pad + "- " + sub[0].strip())
                out += sub[1:]
            else:
                out.append(pad + "- " + (flow(v, rnd) if isinstance(v, (dict, list)) else scalar(v, rnd)))
    return out


def put(d, k, o, f=lambda x: x):
    if o:
        d[k] = f(o[0])


def box(c):
    if c["short"]:
        return c["name"]
    d = {"name": c["name"]}
    put(d, "volumes", c["volumes"])
    put(d, "security-opts", c["security"])
    return d


def env(l):
    return {k: (v if t == "s" else Lit(v)) for k, t, v in l}


def step_tree(s):
    d = {}
    put(d, "name", s["name"])
    put(d, "on", s["on"], json.loads)
    if s["k"] == "cmd":
        put(d, "container", s["container"], box)
        d["run"] = s["run"]
    else:
        d["uses"] = s["uses"]
        put(d, "with", s["with"])
    put(d, "continue-on-error", s["coe"])
    put(d, "environments", s["env"], env)
    put(d, "secrets", s["secrets"])
    put(d, "timeout", s["timeout"])
    return d


def tree(f):
    d = {}
    put(d, "name", f["name"])
    put(d, "on", f["on"], json.loads)
    jobs = {}
    for k, j in (f["jobs"] or {}).items():
        t = {}
        put(t, "name", j["name"])
        put(t, "on", j["on"], json.loads)
        put(t, "container", j["container"], box)
        put(t, "working-directories", j["wd"])
        put(t, "depends-on", j["deps"])
        t["steps"] = [step_tree(s) for s in j["steps"]]
        jobs[k] = t
    d["jobs"] = jobs
    return d


def num(v):
    return float(v)


def raw(s):
    """What the action is given, in canonical form."""
    e = {k: v if t == "s" else (v == "true" if t == "b" else num(v)) for k, t, v in s["env"][0]} if s["env"] else None
    o = lambda x: x[0] if x else None
    return canon({"name": o(s["name"]), "uses": s["uses"], "with": o(s["with"]), "on": json.loads(s["on"][0]) if s["on"] else None,
                  "continue-on-error": o(s["coe"]), "environments": e, "secrets": o(s["secrets"]), "timeout": o(s["timeout"])})


# ------------------------------------------------------------------ random files

NAMES = ["a", "build", "test-1", "déploy", "x y", "job.2", "1", "true", "a/b", "A", "Ä", "null", "z_9"]
TEXTS = ["echo hi", "make all\n", "a\nb\n", "  lead", "tab\there", "q\"uote'", "# no comment", "é✓", "- x", "k: v", "x\n\ny\n", "",
         "true", "12", "{{ x }}", "*a", "&b", "!t", "%d", "@e", "`f`", "|", ">"]
GOOD = ["60m", "10m", "1h", "90s", "1h 30m", "500ms", "2days", "1h30m15s", "1week", "3 min", "0s", "1ms"]
BAD = ["1ss", "", "m", "-1m", "ten", "1h foo", "60", "1m1", "h1", "∞", "1,5h"]


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def opt(self, p, f):
        return [f()] if self.r.random() < p else []

    def text(self):
        return self.r.choice(TEXTS) if self.r.random() < 0.6 else "echo %d" % self.r.randrange(1000)

    def name(self):
        return self.r.choice(NAMES + TEXTS[:6])

    def cond(self):
        r = self.r
        ps = lambda: r.choice([None, ["main"], ["a/*", "**/b"], [], ["é", "x y"]])
        c = r.random()
        if c < 0.4:
            return canon(r.choice([["push"], ["pull_request"], ["push", "pull_request"], [], ["release"]]))
        one = lambda: {"branches": ps(), "paths": ps()}
        return canon({"push": r.choice([None, one()]), "pull_request": r.choice([None, one()])})

    def env(self):
        r = self.r
        d = {}
        for _ in range(r.randrange(4)):
            k = r.choice(["A", "B_2", "path", "é", "X.Y", "1"])
            t = r.choice("ssnb")
            d[k] = [k, t, {"s": lambda: self.text(), "n": lambda: r.choice(["0", "1", "-7", "2.5", "1000000", "0.1", "123456789"]),
                           "b": lambda: r.choice(["true", "false"])}[t]()]
        return sorted(d.values(), key=lambda e: e[0].encode())

    def box(self):
        r = self.r
        n = r.choice(["alpine", "host/linux", "reg.io/x:1@sha", "host", "é"])
        if r.random() < 0.5:
            return {"short": True, "name": n, "volumes": [], "security": []}
        l = lambda xs: [r.sample(xs, r.randrange(len(xs) + 1))] if r.random() < 0.6 else []
        return {"short": False, "name": n, "volumes": l(["/a:/b", "c:/d", "/e"]), "security": l(["seccomp=unconfined", "x"])}

    def common(self, p=0.3):
        r = self.r
        return {"name": self.opt(p, self.name), "on": self.opt(p, self.cond), "coe": self.opt(p, lambda: r.random() < 0.5),
                "env": self.opt(p, self.env), "secrets": self.opt(p, lambda: r.sample(["T", "u", "é", "T"], r.randrange(4))),
                "timeout": self.opt(p, lambda: r.choice(GOOD) if r.random() > self.bad else r.choice(BAD))}

    def cmd(self):
        return {"k": "cmd", "container": self.opt(0.3, self.box), "run": self.text(), **self.common()}

    def act(self, uses=None):
        r = self.r
        withs = [None, {"path": "x", "n": 1}, ["a", True], "text", {"deep": {"er": [None, "é"]}}, {}]
        s = {"k": "act", "uses": uses or r.choice(self.known), "with": [w] if (w := r.choice(withs)) is not None else [], **self.common()}
        if r.random() < self.bad:
            s["uses"] = r.choice(["nope", "", "acts/one "])
        s["raw"] = raw(s)
        return s

    def given(self):
        r = self.r
        if r.random() < self.bad:
            return {"k": "error", "says": "refused %d" % r.randrange(99)}
        part = lambda p: [self.cmd()] if r.random() < p else []
        a = {"k": "steps", "echo": r.random() < 0.4, "pre": part(0.5), "run": [self.cmd()], "post": part(0.5)}
        if r.random() < self.bad:
            a[r.choice(["pre", "run", "post"])] = [self.act()]
        return a

    def graph(self):
        """Many jobs; sometimes one edge that closes a cycle, or a job that does not exist."""
        r = self.r
        n = r.randrange(4, 40)
        keys = ["j%d" % i for i in range(n)]
        deps = {k: r.sample(keys[:i], min(i, r.choice([0, 1, 1, 2, 3]))) for i, k in enumerate(keys)}
        if r.random() < 0.5:
            a, b = sorted(r.sample(range(n), 2))
            deps[keys[a]] = deps[keys[a]] + [r.choice([keys[b], keys[b], keys[a], "ghost"])]
            if r.random() < 0.6:
                deps[keys[b]] = deps[keys[b]] + [keys[a]]
        jobs = {k: {"name": [], "on": [], "container": [], "wd": [], "deps": [deps[k]] if deps[k] else [], "steps": [self.cmd()]}
                for k in r.sample(keys, n)}
        return {"id": "wf", "name": [], "on": [], "jobs": jobs, "actions": {"zzz": {"k": "none"}}, "plugins": []}

    def file(self):
        r = self.r
        self.bad = r.choice([0, 0, 0, 0.04, 0.1])
        if r.random() < 0.12:
            return self.graph()
        self.known = ["acts/one", "two@v1", "three", "four"]
        acts = {n: self.given() for n in self.known[:2] if r.random() < 0.8 or not self.bad}
        plugs = []
        for _ in range(r.randrange(4)):
            p = {}
            for n in self.known:
                c = r.random()
                if c < 0.35:
                    p[n] = self.given()
                elif c < 0.45:
                    p[n] = {"k": "fail"}
                elif c < 0.5:
                    p[n] = {"k": "none"}
            plugs.append(p or {"zzz": {"k": "none"}})
        if not self.bad:
            plugs.append({n: self.given() for n in self.known})
        keys = r.sample(NAMES, r.choice([1, 1, 2, 3, 4, 6, 9]))
        jobs = {}
        for i, k in enumerate(keys):
            pool = keys[:i] if r.random() > self.bad else keys + ["ghost"]
            deps = r.sample(pool, r.randrange(min(len(pool), 4) + 1)) if pool else []
            if deps and r.random() < 0.1:
                deps.append(deps[0])
            n = r.choice([1, 1, 2, 3, 5]) if r.random() > self.bad / 2 else 0
            if r.random() < 0.03:
                n = r.randrange(10, 40)
            jobs[k] = {"name": self.opt(0.3, self.name), "on": self.opt(0.3, self.cond), "container": self.opt(0.4, self.box),
                       "wd": self.opt(0.3, lambda: r.sample(["/w", "src", "é"], r.randrange(4))),
                       "deps": [deps] if deps or r.random() < 0.3 else [],
                       "steps": [self.cmd() if r.random() < 0.65 else self.act() for _ in range(n)]}
        items = list(jobs.items())
        r.shuffle(items)
        return {"id": r.choice(["wf", "w-1", "é x", ""]), "name": self.opt(0.5, self.name), "on": self.opt(0.3, self.cond),
                "jobs": dict(items) if r.random() > self.bad / 4 else {}, "actions": acts or {"zzz": {"k": "none"}}, "plugins": plugs}


# ------------------------------------------------------------------ running

def steps_of(f):
    for j in (f["jobs"] or {}).values():
        yield from j["steps"]
    for a in list(f["actions"].values()) + [a for p in f["plugins"] for a in p.values()]:
        for part in ("pre", "run", "post"):
            yield from a.get(part, [])


def build_all(exe, res, name, files, seed):
    rnd = random.Random(seed)
    fin, fout = os.path.join(WORK, name + ".in"), os.path.join(WORK, name + ".ndjson")
    with open(fin, "w") as o:
        for i, f in enumerate(files):
            t = tree(f)
            text = "\n".join(yaml(t, rnd)) + "\n" if rnd.random() < 0.85 else flow(t, rnd)
            o.write(json.dumps({"tr": i + 1, "f": f, "yaml": text}) + "\n")
    harness(exe, ["plan", "--in", fin, "--out", fout])
    seen = set()
    with open(fout) as i:
        recs = [json.loads(l) for l in i]
    for r in recs:
        f, out = r["f"], r["out"]
        names = set(f["jobs"] or {}) | {"ghost", "x"}
        for j in (f["jobs"] or {}).values():
            for s in j["steps"]:
                if s["k"] == "act":
                    names.add(s["uses"])
        acts = list(f["actions"].values()) + [a for p in f["plugins"] for a in p.values()]
        names |= {a["says"] for a in acts if a["k"] == "error"}
        out["mentions"] = sorted(n for n in names if n in out["err"])
        if not f["id"] and out["ok"] and out["plan"] != "panic":
            i = out["plan"]["id"]
            if i and i not in seen:
                seen.add(i)
                f["id"] = i
        if not f["jobs"]:
            f["jobs"] = []
        for s in steps_of(f):
            s.pop("with", None)
    with open(fout, "w") as o:
        o.write("".join(json.dumps(r, ensure_ascii=False) + "\n" for r in recs))
    vs, n, trs, _ = validate("PlanTrace", fout, name, min_chunk=300)
    res.traces(name, fout, vs, n, trs)
    res.extra[name] = "%d files built, %d of them rejected" % (len(recs), sum(1 for r in recs if not r["out"]["ok"]))


def enumerated(res, what, steps):
    out = tlc("PlanMC", env={"WHAT": what, "STEPS": steps, "PRINT": "1"}, workers=1, heap="6g", timeout=800)
    if "No error has been found" not in out:
        raise ToolError("the specification itself is broken (PlanMC):\n" + out[-3000:])
    gen, dist, _ = tlc_stats(out)
    res.model("PlanMC, %s (jobs of up to %d steps)" % (what, steps), gen, dist)
    fs = []
    for m in re.finditer(r'<<"PATH", "(.*)">>', out):
        f = json.loads(m[1].replace('\\"', '"'))
        for j in f["jobs"].values():
            for s in j["steps"]:
                if s["k"] == "act":
                    s["raw"] = raw(s)
        fs.append(f)
    return fs


def run(exe, res, prop):
    steps = 4 if THOROUGH else 3
    if prop != "C06":
        build_all(exe, res, "plan-graphs", enumerated(res, "graphs", steps), SEED)
    build_all(exe, res, "plan-jobs", enumerated(res, "jobs", steps), SEED + 1)
    for k in range(10 if THOROUGH else 1):
        g = Gen(SEED + 1000 * k)
        n = 5000 if THOROUGH else 2500 if prop != "C06" else 1000
        build_all(exe, res, "plan-random%d" % k, [g.file() for _ in range(n)], SEED + k)
