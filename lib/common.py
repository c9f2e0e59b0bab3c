"""Shared by all checks: building the harness from /repo's working tree, running TLC, splitting traces."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(VERIF, "work")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
CONC = os.path.join(VERIF, "conc")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
CORES = 8


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ building

def repo_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "crates"), os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock")]
    files = []
    for r in roots:
        if os.path.isfile(r):
            files.append(r)
        for d, ds, fs in os.walk(r):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules"))
            files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        h.update(f.encode() + b"\0")
        try:
            with open(f, "rb") as fh:
                h.update(fh.read())
        except OSError:
            pass
        h.update(b"\0")
    return h.hexdigest()


REPO_CRATES = ["astro-run", "astro-runner", "astro-run-scheduler", "astro-run-protocol", "astro-run-remote-runner"]


def cargo_env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN="stable")
    e.pop("CARGO_TARGET_DIR", None)
    e.pop("RUSTFLAGS", None)
    return e


def build(crate=HARNESS, binary="vharness", crates=None):
    """Builds a harness crate against /repo's working tree; content hashes, not times, decide what is stale."""
    t0 = time.time()
    target = os.path.join(crate, "target")
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, ".repo-hash")
    cur = repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    env = cargo_env()
    if old and old != cur:
        args = ["cargo", "clean", "--offline"]
        for c in crates or REPO_CRATES:
            args += ["-p", c]
        subprocess.run(args, cwd=crate, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    open(stamp, "w").write("building")
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=crate, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    exe = os.path.join(target, "debug", binary)
    if p.returncode != 0 or not os.path.exists(exe):
        raise ToolError("build failed:\n" + p.stdout[-6000:])
    open(stamp, "w").write(cur)
    log("built %s in %.1f s" % (binary, time.time() - t0))
    return exe


def workdir(name):
    d = os.path.join(WORK, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def harness(exe, args, timeout=600, env=None, ok=(0,)):
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        p = subprocess.run([exe] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        raise ToolError("harness %s: no end within %d s" % (args[0], timeout))
    if p.returncode not in ok:
        raise ToolError("harness %s failed (%d):\n%s" % (args, p.returncode, (p.stdout + p.stderr)[-3000:]))
    return p.stdout


CUT_SHORT = []


def pace(out, res, name, par):
    """After a batch of scenarios under the harness's watchdog ("slow N"): says whether to go on with more batches.
    A batch is cut short when a round of its scenarios was slow; then what was found is all there is to find."""
    m = re.search(r"^slow (\d+)$", out, re.M)
    n = int(m[1]) if m else 0
    if n:
        res.extra["slow scenarios"] = res.extra.get("slow scenarios", 0) + n
        log("%s: %d slow scenarios" % (name, n))
    if n >= par:
        CUT_SHORT.append(name)


def going(res):
    return not CUT_SHORT or (len(CUT_SHORT) < 2 and not res.viols)


# ------------------------------------------------------------------ TLC

_n = [0]


def tlc(module, cfg=None, env=None, workers=1, timeout=600, extra=(), heap="3g", ok_fail=False, cwd=None):
    _n[0] += 1
    meta = tempfile.mkdtemp(prefix="tlc", dir=WORK)
    e = dict(os.environ)
    e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -XX:+UseParallelGC -Xss64m" % heap
    if env:
        e.update({k: str(v) for k, v in env.items()})
    args = ["tlc", "-workers", str(workers), "-metadir", meta, "-config", os.path.join(SPEC, cfg or module + ".cfg")]
    args += ["-noTE"] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e,
                           cwd=cwd or meta)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC %s: no end within %d s" % (module, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.stdout


def tlc_stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
    if not m:
        return 0, 0, False
    return int(m[1]), int(m[2]), int(m[3]) == 0


STUCK = []


class Viol:
    def __init__(self, props, where, text, records):
        self.props, self.where, self.text, self.records = set(props), where, text, records


def read_ndjson(path):
    with open(path) as f:
        return [json.loads(l) for l in f]


def validate(module, path, name, chunks=CORES, timeout=800, env=None, min_chunk=4000):
    """Validates a file of recorded traces (records with tr) with TLC, in parallel chunks of whole traces.
    Returns (list of Viol, records, traces, states)."""
    lines = [l for l in open(path).read().split("\n") if l]
    if not lines:
        raise ToolError("no records in " + path)
    groups, last = [], None
    for l in lines:
        tr = re.search(r'"tr":\s*(\d+)', l)[1] if last is None or True else last
        if tr != last:
            groups.append([])
            last = tr
        groups[-1].append(l)
    chunks = max(1, min(chunks, len(lines) // min_chunk + 1, len(groups)))
    parts = [[] for _ in range(chunks)]
    sizes = [0] * chunks
    for g in sorted(groups, key=len, reverse=True):
        i = sizes.index(min(sizes))
        parts[i].append(g)
        sizes[i] += len(g)
    d = os.path.join(WORK, "val-" + name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)

    def one(i):
        mine = list(parts[i])
        vs, tries = [], 0
        while mine:
            f = os.path.join(d, "part%d-%d.ndjson" % (i, tries))
            flat = [l for g in mine for l in g]
            open(f, "w").write("\n".join(flat) + "\n")
            out = tlc(module, env=dict(env or {}, TRACE=f), timeout=timeout, heap="2500m")
            found = []
            for m in re.finditer(r'<<"VIOL", (\d+), (\d+), "(.*?)">>', out.replace("\n", " ")):
                idx = int(m[2])
                if len(found) >= 300:
                    break
                props = json.loads(m[3].replace('\\"', '"'))
                rec = json.loads(flat[idx - 1])
                start = idx - 1
                while start > 0 and json.loads(flat[start - 1]).get("tr") == rec.get("tr"):
                    start -= 1
                found.append(Viol(props, (name, rec.get("tr"), idx - start), short(rec), (f, start, idx)))
            m = re.search(r'<<"DONE", (\d+), (\d+)>>', out)
            if m and int(m[1]) == int(m[2]) == len(flat):
                return vs + found
            # the specification cannot even be evaluated on some trace: set it aside, go on with the others
            ls = [int(x) for x in re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)]
            tries += 1
            if not ls or tries > 25:
                raise ToolError("TLC did not get through the trace %s (%s):\n%s" % (f, module, out[-2500:]))
            at, k = min(max(ls) + 1, len(flat)), 0
            for n, g in enumerate(mine):
                k += len(g)
                if k >= at:
                    tr = json.loads(g[0]).get("tr")
                    stuck.append("%s trace %s: %s" % (module, tr, short(json.loads(flat[at - 1]))))
                    vs += [v for v in found if v.where[1] == tr]
                    del mine[n]
                    break
        return vs

    stuck = []
    with cf.ThreadPoolExecutor(chunks) as ex:
        res = list(ex.map(one, range(chunks)))
    STUCK.extend(stuck)
    return [v for r in res for v in r], len(lines), len(groups), len(lines)


def short(r):
    r = {k: v for k, v in r.items() if k not in ("c", "cfg", "u")}
    t = json.dumps(r, ensure_ascii=False)
    return t if len(t) < 400 else t[:400] + "..."


def sample_of(path, n=12, pick=1):
    """The first records of one trace of a file, written out."""
    out, want = [], None
    for l in open(path):
        r = json.loads(l)
        if r.get("tr") != pick:
            if out:
                break
            continue
        out.append(short(r))
        if len(out) >= n:
            break
    return out
