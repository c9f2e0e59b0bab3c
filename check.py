#!/usr/bin/env python3
"""check.py Cxx: decides one property. Exit 0: held on everything explored; 1: VIOLATION line; 2: no answer."""
import importlib, json, os, sys, time, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from common import *


class Results:
    def __init__(self, prop):
        self.prop = prop
        self.viols, self.models, self.samples, self.extra = [], [], [], {}
        self.nrec = self.ntr = 0
        self.gen = self.dist = 0

    def traces(self, name, path, vs, recs, trs):
        self.nrec += recs
        self.ntr += trs
        self.viols += [v for v in vs if self.prop in v.props]
        if len(self.samples) < 4:
            self.samples.append({"suite": name, "records of trace 1": sample_of(path)})

    def add(self, props, where, text, records=None):
        if self.prop in props:
            self.viols.append(Viol(props, where, text, records))

    def model(self, what, gen, dist):
        self.models.append({"model": what, "states generated": gen, "distinct states": dist})
        self.gen += gen
        self.dist += dist


SUITES = json.load(open(os.path.join(VERIF, "lib", "suites.json")))


def known_findings():
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    for l in open(p) if os.path.exists(p) else []:
        l = l.strip()
        if l.startswith("finding:"):
            f = dict(x.split("=", 1) for x in l[len("finding:"):].split() if "=" in x)
            f["text"] = l.split(" -- ", 1)[-1]
            out.append(f)
    return out


def main():
    prop = sys.argv[1]
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = os.path.join(VERIF, "evidence", prop + ".json")
    if os.path.exists(ev):
        os.remove(ev)
    res = Results(prop)
    try:
        exe = build()
        for s in SUITES[prop]:
            t1 = time.time()
            importlib.import_module(s).run(exe, res, prop)
            log("suite %s: %.1f s" % (s, time.time() - t1))
    except ToolError as e:
        if not res.viols:
            print("no answer: %s" % e)
            return 2
        log("after a violation: %s" % e)
    except Exception:
        traceback.print_exc()
        if not res.viols:
            return 2
    if CUT_SHORT and not res.viols:
        print("no answer: too slow, not everything was explored (%s)" % ", ".join(CUT_SHORT))
        return 2
    if STUCK:
        log("traces the specification could not be evaluated on:", *STUCK[:5])
        if not res.viols:
            print("no answer: the specification could not be evaluated on %d traces, e.g. %s" % (len(STUCK), STUCK[0]))
            return 2
    known = [f for f in known_findings() if f.get("property") == prop]
    fresh, hit = [], {}
    for v in res.viols:
        k = next((f for f in known if f.get("match") and f["match"] in v.text.replace(" ", "")), None)
        if k:
            hit[k["match"]] = k
        else:
            fresh.append(v)
    for f in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, f["text"]))
    json.dump({
        "property": prop, "tier": TIER, "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": res.dist + res.nrec, "transitions": res.gen + res.nrec,
            "traces_validated_against_impl": res.ntr, "records_validated": res.nrec,
            "models": res.models, "samples": res.samples[:4], **res.extra,
        },
        "wall_s": round(time.time() - t0, 1), "violations": len(fresh),
    }, open(ev, "w"), indent=1, ensure_ascii=False)
    if fresh:
        rd = os.path.join(WORK, "replays")
        os.makedirs(rd, exist_ok=True)
        shown = 0
        seen = set()
        for v in fresh:
            key = v.where[:2]
            if key in seen:
                continue
            seen.add(key)
            path = os.path.join(rd, "%s-%d.ndjson" % (prop, shown + 1))
            with open(path, "w") as o:
                o.write(json.dumps({"property": prop, "where": list(v.where), "violating": v.text,
                                    "all": sorted(v.props)}) + "\n")
                if v.records:
                    f, a, b = v.records
                    for l in open(f).read().split("\n")[a:b]:
                        o.write(l + "\n")
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s broken by %s in %s" % (",".join(sorted(v.props)), v.text, v.where))
            shown += 1
            if shown >= 5:
                break
        print("%d violating records in all" % len(fresh))
        return 1
    print("%s held: %d traces, %d records, %d model states, %.0f s" % (prop, res.ntr, res.nrec, res.dist, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
