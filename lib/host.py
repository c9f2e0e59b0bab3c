"""Suite S7: the runner (C19, C20, C23): real commands, a stand-in for docker, as an unprivileged user in a scratch directory."""
import json, os, random, re, shutil, subprocess, tempfile
from common import *

TEXTS = ["x", "", " ", "é € ", "tab\tbed", "a" * 119, "b" * 5000, "c" * 70000, "$HOME `id` \"q\" 'p' \\", "prog\rress", "::set x=1", "\x1b[31mred"]
SHORT = ["x", "é", "a b", "$x", "0"]
RAW = [[0xff], [0x61, 0xc3], [0xf0, 0x9f, 0x98], [0x80, 0x62, 0xfe], list(b"ok \xe9t\xe9")]
ENVV = ["v", "", "a b", "é€", "$HOME", "`id`", "a\"b", "a'b", "back\\slash", "two\nlines", "$(id) ; ls #", "${X:-y}", "!x", 1, 2.5, -3, True, False, "a=b", "\\\"", "*", "~"]
IMAGES = [None, "ubuntu", "node:18", "a/b/c:latest", "host", "host/macos", "hosts/linux", "host/linux-riscv", "broken:1"]
HOSTS = ["host/linux", "host/linux-x86_64"]


KEYS = ["a", "b", "data", "c-1", "caches"]
ODD = ["a b", "a-b", "a_b", "a  b", "x.y", "\u00e9", "j$1", "q\"q", "it's", "`id`", "a;b", "~", "-a", "a&b", "(a)", "a\\b", "$HOME", "*"]


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.n = 0

    def piece(self, s):
        r = self.r
        c = r.random()
        if c < 0.08:
            return [["out", s, r.choice(RAW), "nl"]]
        if c < 0.2:  # a line in several parts
            k = r.choice([2, 3])
            return [["out", s, r.choice(SHORT), ""] for _ in range(k - 1)] + [["out", s, r.choice(SHORT), r.choice(["nl", "crlf"])]]
        if c < 0.25:
            return [["lines", s, r.choice([10, 50, 300] * 4 + [2000])]]
        return [["out", s, r.choice(TEXTS), r.choice(["nl", "nl", "nl", "crlf"])]]

    def acts(self, fam):
        r = self.r
        acts, open_ = [], ["o", "e"]
        for _ in range(r.choice([0, 1, 2, 3, 5, 8])):
            c = r.random()
            if c < 0.12 and open_:
                s = r.choice(open_)
                if r.random() < 0.3:
                    acts.append(["out", s, r.choice(SHORT), ""])  # the last line is not ended
                acts.append(["close", s])
                open_.remove(s)
            elif c < 0.3:
                acts.append(r.choice([["touch", r.choice(["f", "g", "h", "é x"])]] * 4 + [["link", "l"]]))
            elif c < 0.38:
                acts.append(["pause", r.choice([1, 3, 10])])
            elif open_:
                acts += self.piece(r.choice(open_))
        if open_ and r.random() < 0.25:
            acts.append(["out", r.choice(open_), r.choice(SHORT), ""])
        if fam in ("signal", "engine") and r.random() < 0.6:
            k = r.randrange(len(acts) + 1)
            a = r.choice(["cancel", "timeout"]) if fam == "signal" else "canceljob"
            acts[k:k] = [[a]] + ([["hold"]] if r.random() < 0.7 else [])
        c = r.random()
        acts.append(["exit", 0] if c < 0.5 else ["abort"] if c < 0.6 else ["exit", r.choice([1, 2, 3, 42, 123, 126, 127, 128, 130, 255])])
        return acts

    def step(self, fam, e, hooks, key):
        r = self.r
        s = {"run": 'exec "$VH" child ' + key, "acts": self.acts(fam), "env": {}, "hook": {}, "after": {}, "key": key}
        host = {"host": 0.95, "docker": 0.05, "busy": 0.05}.get(fam, 0.5)
        s["image"] = r.choice(HOSTS) if r.random() < host else r.choice(IMAGES)
        if r.random() < 0.5:
            for k in r.sample(["V_A", "V_B", "V_C_9", "V_d"], r.choice([1, 2, 4])):
                s["env"][k] = r.choice(ENVV)
            if r.random() < 0.1:
                s["env"][r.choice(["Program(x86)", "my var", "$V", "a;b"])] = r.choice(ENVV)
        c = r.random()
        if c < 0.15:
            s["run"] = "# é\ntrue\n" + s["run"]
        elif c < 0.25 and s["image"] not in HOSTS:
            s["run"] = "#!/bin/sh -e\n" + s["run"]
        elif c < 0.3:
            s["run"] = "# " + "x" * 90000 + "\n" + s["run"]
        if s["image"] and s["image"] not in HOSTS:
            if r.random() < 0.4:
                s["volumes"] = r.sample(["/a:/b", "/c d:/e", "named:/f", "/g:/h:ro"], r.choice([1, 2, 4]))
            if r.random() < 0.3:
                s["opts"] = r.sample(["seccomp=unconfined", "no-new-privileges", "seccomp=/p q/(x).json", "label=$a"], r.choice([1, 2]))
        for p in range(1, hooks + 1):
            m = r.choice(["", "", "env", "run", "fail", "sleep", "env", "host", "image"])
            if fam == "signal" and r.random() < 0.15:
                m = r.choice(["cancel", "timeout"])
            if m:
                s["hook"][str(p)] = m
            if r.random() < 0.2:
                s["after"][str(p)] = "fail"
        if fam == "signal" and r.random() < 0.15:
            s["pre"] = r.choice(["cancel", "timeout"])
        if fam == "engine" and r.random() < 0.25:
            s["timeout"] = r.choice(["60ms", "200ms"])
            s["acts"] = [a for a in s["acts"] if a[0] not in ("exit", "abort", "canceljob", "hold")] + [["hold"]]
        if fam == "signal" and r.random() < 0.2:
            s["pause_end"] = True
        return s

    def one(self, k, fam):
        r = self.r
        self.n += 1
        hooks = r.choice([0, 1, 2, 3])
        tag = "%s%d" % (fam[0], self.n)
        wfs, steps, blocks = [], {}, []
        events = [None, ["own", "rep"], ["own", "rep2"], ["own2", "rep"], ["öwn", "r p"]]
        for i in range(r.choice([1, 1, 2, 3])):
            wid = "%sw%d%s" % (tag, i, r.choice([""] * 9 + [" x", "\u00e9", "$x"]))
            jobs = {}
            for j in r.sample(KEYS if r.random() < 0.8 else ODD, r.choice([1, 1, 2, 3])):
                jobs[j] = r.choice([1, 2, 2, 3])
                for n in range(jobs[j]):
                    e = "%s/%s/%d" % (wid, j, n)
                    steps[e] = self.shell(e) if fam == "shell" else self.step(fam, e, hooks, "%s.%s" % (tag, re.sub(r"[^A-Za-z0-9.]", lambda m: "_%x" % ord(m[0]), e.replace("/", "."))))
            wfs.append({"id": wid, "event": r.choice(events), "jobs": jobs})
        rounds = [list(range(len(wfs)))]
        if fam in ("host", "docker", "mixed") and r.random() < 0.25:
            # once more, the first of them without its trigger event or with another one
            wfs.append(dict(wfs[0], event=r.choice(events)))
            rounds.append([len(wfs) - 1])
            if r.random() < 0.4:
                rounds.append([0])
        if fam in ("host", "docker", "mixed", "signal") and len(rounds) == 1 and r.random() < 0.15:
            # something is in the way of what the runner needs
            wf = r.choice(wfs)
            at = "/".join((wf["event"] or []) + [wf["id"]])
            j = r.choice(sorted(wf["jobs"]))
            if r.random() < 0.6:
                blocks.append("%s/%s" % (at, j))
                hit = range(wf["jobs"][j])
            else:
                hit = [r.randrange(wf["jobs"][j])]
                blocks.append("%s/%s/%d/entrypoint/x" % (at, j, hit[0]))
            for n in hit:
                steps["%s/%s/%d" % (wf["id"], j, n)]["bad"] = True
        bad = [e for e in steps if not steps[e].get("bad") and steps[e].get("image") in HOSTS]
        if fam != "shell" and bad and r.random() < 0.1:
            e = r.choice(bad)
            if not any(m in ("image", "run") for m in steps[e]["hook"].values()):
                steps[e].update(run="x\0y", bad=True)
        keep = ["caches/k", "own/rep/caches/k", "own/rep/other/x", "other"]
        return {"wd": tag + "/" + r.choice(["wd", "w d", "wé/x", "w$x"]), "hooks": hooks, "wfs": wfs, "steps": steps, "rounds": rounds, "keep": keep,
                "block": blocks, "engine": fam == "engine"}

    def shell(self, e):
        """A script for the real shell; what it prints is known."""
        r = self.r
        lines, prints = [], []

        def out(s, text, fin=True):
            prints.append({"k": "out", "s": s, "c": text, "fin": fin})
        code = r.choice([0, 0, 1, 7, 255])
        for _ in range(r.choice([1, 2, 4, 6])):
            c = r.randrange(7)
            if c == 0:
                n = r.choice([5, 50, 400])
                lines.append("i=0; while [ $i -lt %d ]; do echo l$i; echo m$i >&2; i=$((i+1)); done" % n)
                for i in range(n):
                    out("o", "l%d" % i)
                    out("e", "m%d" % i)
            elif c == 1:
                lines.append("(sleep 0.05; echo later >&2) & wait")
                out("e", "later")
            elif c == 2:
                lines.append("cd /; echo at $PWD; cd - >/dev/null")
                out("o", "at /")
            elif c == 3:
                lines.append("if [ -e n ]; then echo no; fi; false")
            elif c == 4:
                lines.append("V=$V_X; echo \"[$V]\"")
                out("o", "[v 1]")
            elif c == 5:
                lines.append("printf 'a\\n\\nb\\n'")
                for t in "a", "", "b":
                    out("o", t)
            else:
                lines.append("echo to both; echo to both >&2")
                out("o", "to both")
                out("e", "to both")
        c = r.random()
        if c < 0.15:
            lines.append("exec >&-")
            lines.append("sleep 0.02; echo after the close >&2")
            out("e", "after the close")
        elif c < 0.3:
            lines.append("exec 2>&-")
            lines.append("sleep 0.02; echo after the close")
            out("o", "after the close")
        if r.random() < 0.2:
            lines.append("printf last")
            if 0.15 > c:
                lines.pop()
            else:
                out("o", "last", False)
        if r.random() < 0.2:
            lines.append("kill -%s $$" % r.choice(["KILL", "TERM", "SEGV"]))
            code = -1
        else:
            lines.append("exit %d" % code)
        prints.append({"k": "exit", "code": code})
        return {"run": "\n".join(lines), "script": True, "prints": prints, "env": {"V_X": "v 1"}, "hook": {}, "after": {},
                "image": r.choice(HOSTS)}


def execute(exe, res, name, scs, par=12, min_chunk=4000, busy=False):
    d = workdir(name)
    scratch = tempfile.mkdtemp(prefix="vhost-")
    try:
        os.chmod(scratch, 0o755)
        b, data = os.path.join(scratch, "bin"), os.path.join(scratch, "data")
        os.makedirs(b)
        os.makedirs(data)
        shutil.copy(exe, os.path.join(b, "vh"))
        with open(os.path.join(b, "docker"), "w") as o:
            o.write('#!/bin/sh\nexec "$VH" docker "$@"\n')
        os.chmod(os.path.join(b, "docker"), 0o755)
        with open(os.path.join(data, "in.ndjson"), "w") as o:
            o.write("".join(json.dumps(s) + "\n" for s in scs))
        for p in (data, os.path.join(data, "in.ndjson")):
            os.chown(p, 65534, 65534)
        env = {"PATH": b + ":/usr/bin:/bin", "VH": os.path.join(b, "vh"), "VSOCK": os.path.join(data, "sock"), "HOME": data, "LANG": "C.UTF-8"}
        cmd = ["setpriv", "--reuid=65534", "--regid=65534", "--clear-groups", os.path.join(b, "vh"), "host", "--in",
               os.path.join(data, "in.ndjson"), "--out", os.path.join(data, "out.ndjson"), "--scratch", data, "--par", str(par)] + (["--busy", "1"] if busy else [])
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600, env=env, cwd=data)
        except subprocess.TimeoutExpired:
            raise ToolError("harness host: no end within 600 s")
        if p.returncode != 0:
            raise ToolError("harness host failed (%d):\n%s" % (p.returncode, (p.stdout + p.stderr)[-3000:]))
        pace(p.stdout, res, name, par)
        shutil.copy(os.path.join(data, "out.ndjson"), os.path.join(d, "out.ndjson"))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    fout = os.path.join(d, "out.ndjson")
    vs, n, trs, _ = validate("HostTrace", fout, name, min_chunk=min_chunk)
    res.traces(name, fout, vs, n, trs)
    return vs


# ------------------------------------------------------------------ the model

def conf(jobs, docker=(), hooks=0, mode=None, pre=None, lines=1, touch=0, sigs=0, codes=(0, 3), close=False, bad=()):
    steps = {}
    for l in jobs.values():
        for e in l:
            w, k, n = e.split("/")
            steps[e] = {"wf": w, "job": "%s/%s" % (w, k), "name": "%s-%s-%s" % (w, k, n), "bad": e in bad}
    return {"jobs": jobs, "steps": steps, "docker": list(docker), "hooks": hooks, "mode": mode or {"-": []}, "pre": pre or {"-": ""},
            "lines": lines, "touch": touch, "sigs": sigs, "codes": list(codes), "close": close, "keep": 0}


A, B, W = "w/a", "w/b", "v/a"
CONFIGS = {
    "out": conf({A: ["w/a/0"]}, lines=2, codes=(0, 3, -1), close=True),
    "out-docker": conf({A: ["w/a/0"]}, docker=["w/a/0"], lines=1, sigs=1, codes=(0, 3, -1), close=True, hooks=1),
    "sig": conf({A: ["w/a/0", "w/a/1"]}, hooks=1, sigs=1, lines=1, touch=1, codes=(0,)),
    "sig-docker": conf({A: ["w/a/0", "w/a/1"], B: ["w/b/0"]}, docker=["w/a/0", "w/b/0"], hooks=1, sigs=1, lines=0, touch=1, codes=(0,)),
    "dirs": conf({A: ["w/a/0", "w/a/1"], B: ["w/b/0"], W: ["v/a/0"]}, lines=0, touch=1, codes=(0,)),
    "hooks": conf({A: ["w/a/0"], B: ["w/b/0"], W: ["v/a/0"]}, hooks=3, docker=["v/a/0"], lines=0, codes=(0,), mode={
        "w/a/0": ["change", "fail", "change"], "w/b/0": ["change", "timeout", "change"], "v/a/0": ["fail", "change", "cancel"]}),
    "pre": conf({A: ["w/a/0", "w/a/1"], B: ["w/b/0"]}, hooks=2, docker=["w/b/0"], pre={"w/a/0": "timeout", "w/b/0": "cancel"},
                mode={"w/a/1": ["cancel", ""]}, lines=0, codes=(0,)),
    "bad": conf({A: ["w/a/0", "w/a/1"], B: ["w/b/0"]}, docker=["w/b/0"], hooks=2, sigs=1, lines=0, touch=1, codes=(0,),
                bad=["w/a/0", "w/b/0"], mode={"w/b/0": ["change", ""]}, pre={"w/a/1": "cancel"}),
    "big": conf({A: ["w/a/0", "w/a/1"], B: ["w/b/0"]}, docker=["w/a/1"], hooks=1, sigs=1, lines=0, touch=1, codes=(0, 3)),
}
FAULTS = {"out": ["firsteof", "kind", "skip", "killed0", "one"], "out-docker": ["nokill", "noafter"], "sig": ["rmdir", "swap", "noafter", "twice"],
          "dirs": ["rmdir", "shared", "rmall", "keepdir"], "hooks": ["hookfirst", "hookundo", "hookstop"], "pre": ["late", "swap", "noafter"],
          "bad": ["mutebad", "goodbad", "badhook"]}


def tlc_model(name, mode, bug="none", show="0", cfg="HostMC", workers=CORES):
    d = workdir("hostmc-%s-%s-%s" % (name, mode, bug))
    f = os.path.join(d, "config.ndjson")
    with open(f, "w") as o:
        o.write(json.dumps(CONFIGS[name]) + "\n")
    return tlc("HostMC", cfg, {"CONFIGS": f, "MODE": mode, "BUG": bug, "PRINT": show}, workers=workers, timeout=800)


def model(res, name, mode="full", cfg="HostMC"):
    out = tlc_model(name, mode, cfg=cfg)
    if "No error has been found" not in out:
        raise ToolError("the specification itself is broken (HostMC %s):\n%s" % (name, out[-3000:]))
    gen, dist, _ = tlc_stats(out)
    res.model("HostMC %s, mode %s, configuration %s" % (cfg, mode, name), gen, dist)
    for b in FAULTS.get(name, []) if mode == "full" and cfg == "HostMC" else []:
        if "NoViolation is violated" not in tlc_model(name, mode, b):
            raise ToolError("the properties do not find the fault %s in the model %s" % (b, name))
        res.extra["faults put into the model and found"] = res.extra.get("faults put into the model and found", 0) + 1


def replay(k, path, tag, gap):
    """One behaviour of the model as a scenario: who acts at which turn."""
    scripts, driver = {e: [] for e in k["steps"]}, []
    for n, a in enumerate(path):
        if a[0] in ("cancel", "timeout"):
            driver.append([n, a[0], tag + a[1]])
            continue
        e = a[1]
        act = {"out": lambda: ["out", a[2], "%s%d" % (a[2], sum(1 for x in scripts[e] if x[:2] == ["out", a[2]])), "nl"],
               "close": lambda: ["close", a[2]], "touch": lambda: ["touch", "f"],
               "exit": lambda: ["abort"] if a[2] == "-1" else ["exit", int(a[2])]}[a[0]]()
        scripts[e] += [["at", n], act]
    steps = {}
    for e in scripts:
        key = tag + e.replace("/", ".")
        if not scripts[e] or scripts[e][-1][0] not in ("exit", "abort"):
            scripts[e].append(["exit", 0])
        mode = k["mode"].get(e, [])
        steps[tag + e] = {"run": 'exec "$VH" child ' + key, "acts": scripts[e], "env": {"V_A": "x"}, "after": {}, "key": key,
                          "hook": {str(p + 1): {"change": "env"}.get(m, m) for p, m in enumerate(mode) if m},
                          "image": "img" if e in k["docker"] else "host/linux"}
        if e in k["pre"]:
            steps[tag + e]["pre"] = k["pre"][e]
    wfs = {}
    for j, l in k["jobs"].items():
        w, n = j.split("/")
        wfs.setdefault(w, {"id": tag + w, "event": ["own", "rep"] if w == "w" else None, "jobs": {}})["jobs"][n] = len(l)
    return {"wd": tag + "/wd", "hooks": k["hooks"], "wfs": list(wfs.values()), "steps": steps, "rounds": [list(range(len(wfs)))],
            "keep": ["own/rep/caches/k"], "block": [], "engine": False, "driver": driver, "gap": gap}


def schedules(exe, res, name, limit, gap=6):
    out = tlc_model(name, "max", show="1", workers=1)
    if "No error has been found" not in out:
        raise ToolError("the specification itself is broken (HostMC %s):\n%s" % (name, out[-3000:]))
    gen, dist, _ = tlc_stats(out)
    res.model("HostMC mode max, configuration %s" % name, gen, dist)
    ps = sorted({m[1].replace('\\"', '"') for m in re.finditer(r'<<"PATH", \d+, "(.*)">>', out)})
    ps = [json.loads(p) for p in ps]
    pre = {json.dumps(p[:i]) for p in ps for i in range(len(p))}
    mx = [p for p in ps if json.dumps(p) not in pre]
    total = len(mx)
    if total > limit:
        random.Random(SEED).shuffle(mx)
        mx = mx[:limit]
    going(res) and execute(exe, res, "host-sched-" + name, [replay(CONFIGS[name], p, "p%d" % i, gap) for i, p in enumerate(mx)], par=24)
    res.extra["behaviours of the model replayed"] = res.extra.get("behaviours of the model replayed", 0) + len(mx)


FAMS = {"host": 90, "docker": 70, "mixed": 60, "signal": 120, "shell": 25, "engine": 50, "busy": 30}


def run(exe, res, prop):
    models = {"C19": ["out"], "C20": ["sig", "dirs", "hooks", "pre", "bad"], "C23": ["out-docker", "sig-docker"]}
    scheds = {"C19": ["out", "sig"], "C20": ["sig", "dirs", "sig-docker"], "C23": ["out-docker", "sig-docker"]}
    if THOROUGH:
        for n in CONFIGS:
            if n != "big":
                model(res, n)
        model(res, "big", "max")
        model(res, "sig", cfg="HostLive")
        for n in ("out", "out-docker", "sig", "sig-docker", "dirs", "big"):
            schedules(exe, res, n, 3000, gap=8)
        fams = {f: n * 12 for f, n in FAMS.items()}
    else:
        for n in models[prop]:
            model(res, n)
        model(res, "out-docker", cfg="HostLive")
        for n in scheds[prop]:
            schedules(exe, res, n, 150)
        fams = FAMS
    g = Gen(SEED)
    for fam, n in fams.items():
        going(res) and execute(exe, res, "host-" + fam, [g.one(i + 1, fam) for i in range(n)], busy=fam == "busy")
