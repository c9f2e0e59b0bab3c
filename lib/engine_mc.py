"""Small configurations of the engine for the exhaustive model (EngineMC) and the schedules derived from it."""

NO = ["release"]  # a condition that the event (a push) does not meet

def step(coe=False, timeout=None, on=True):
    s = {"run": "x"}
    if not on: s.update({"on": NO, "x-match": False})
    if coe: s["continue-on-error"] = True
    if timeout: s["timeout"] = "%ds" % timeout
    return s

def wf(wid, jobs, off=(), event=False, payload=False):
    """off: the jobs whose condition is not met ("" for the workflow itself)."""
    no = {"on": NO, "x-match": False}
    return {"id": wid, "event": event, "payload": payload, **(no if "" in off else {}),
            "jobs": [dict(key=k, steps=steps, **({"depends-on": deps} if deps else {}), **(no if k in off else {})) for k, deps, steps in jobs]}

ALL = ["wf.run", "wf.state", "wf.done", "job.run", "job.state", "job.done", "st.before", "st.run", "st.state", "st.log", "st.done"]

def conf(name, wfs, rec=("r",), gate=(), ends=("succeeded",), logs=0, cancels=0, targets=(), refuse=(), ticks=0):
    sc = {"seed": 1, "fam": "schedule", "name": name, "rec": list(rec), "wfs": wfs,
          "obs": {r: {"err": [], "before": {}} for r in rec}, "refuse": list(refuse), "scripts": {}, "gated": -2,
          "gate": list(gate)}
    if any(w["event"] for w in wfs):
        sc["token"] = "good"
    c = {"rec": list(rec), "wfs": {}, "jobs": {}, "steps": {}, "gate": list(gate), "ends": list(ends), "logs": logs,
         "cancels": cancels, "targets": list(targets), "refuse": list(refuse), "ticks": ticks,
         "order": [w["id"] for w in wfs], "jorder": []}
    for w in wfs:
        jl = []
        for j in w["jobs"]:
            jid = w["id"] + "/" + j["key"]
            sl = []
            for i, s in enumerate(j["steps"]):
                sid = "%s/%d" % (jid, i)
                to = int(s["timeout"][:-1]) * 1000 if "timeout" in s else 3600000
                c["steps"][sid] = {"j": jid, "i": i, "coe": s.get("continue-on-error", False), "on": s.get("x-match", True), "to": to, "body": "b"}
                sl.append(sid)
            c["jobs"][jid] = {"w": w["id"], "on": j.get("x-match", True), "deps": [w["id"] + "/" + d for d in j.get("depends-on", [])], "steps": sl}
            jl.append(jid); c["jorder"].append(jid)
        c["wfs"][w["id"]] = {"on": w.get("x-match", True), "ev": "", "pl": "", "jobs": jl}
    return name, c, sc

ENDS = ["succeeded", "failed", "cancelled"]
CONFIGS = [
    # cancellation at every point of a two-step job, with two observers
    conf("cancel2", [wf("w1", [("a", [], [step(), step(coe=True)])])], rec=("p1", "r"), gate=ALL,
         ends=["succeeded", "failed"], logs=0, cancels=2, targets=["w1/a"]),
    # the failure policy over three steps
    conf("policy3", [wf("w1", [("a", [], [step(), step(coe=True), step()])])], gate=["st.state"], ends=ENDS, cancels=1,
         targets=["w1/a"]),
    conf("policy4", [wf("w1", [("a", [], [step(), step(coe=True), step(), step(coe=True)])])], ends=ENDS,
         refuse=["w1/a/1"]),
    # dependencies: a diamond with a bystander, a chain, a fan
    conf("diamond", [wf("w1", [("a", [], [step()]), ("b", ["a"], [step()]), ("c", ["a"], [step()]),
                               ("d", ["b", "c"], [step()]), ("e", [], [step()])])], ends=["succeeded", "failed"],
         gate=["job.done"]),
    conf("chain", [wf("w1", [("a", [], [step(), step()]), ("b", ["a"], [step()]), ("c", ["b"], [step()]), ("x", [], [step()])])],
         ends=ENDS, cancels=1, targets=["w1/a", "w1/b", "w1/x"], gate=["job.run", "job.done"]),
    # lines against the end of the step and its cancellation
    conf("logs", [wf("w1", [("a", [], [step()])])], rec=("p1", "r"), gate=["st.log", "st.state", "st.done"], logs=3,
         ends=ENDS, cancels=1, targets=["w1/a"]),
    # timeouts of the steps of two jobs against lines, ends and cancellations
    conf("timeout", [wf("w1", [("a", [], [step(timeout=2), step(timeout=1)]), ("b", [], [step(timeout=3)])])], gate=["st.log"],
         logs=1, ticks=4, cancels=1, targets=["w1/a", "w1/b"], ends=["succeeded"]),
    conf("timeoutS", [wf("w1", [("a", [], [step(timeout=2), step(timeout=1)])])], gate=["st.log", "st.done"],
         logs=1, ticks=4, cancels=1, targets=["w1/a"], ends=["succeeded", "failed"]),
    # two workflows side by side
    conf("two", [wf("w1", [("a", [], [step()]), ("b", ["a"], [step()])]), wf("w2", [("a", [], [step()])])],
         ends=["succeeded", "cancelled"], cancels=1, targets=["w1/a", "w2/a", "w1/b"],
         gate=["wf.run", "wf.done", "job.state"]),
    # the same workflow twice at the same time (the harness tells their runs apart by their payloads)
    conf("twins", [wf("w1~%d" % k, [("a", [], [step()]), ("b", ["a"], [step()])], payload=True) for k in (1, 2)],
         ends=["succeeded", "failed"], gate=["job.run", "job.done"]),
    # observers one after the other
    conf("fan", [wf("w1", [("a", [], [step()]), ("b", [], [step()])])], rec=("p1", "p2", "r"), gate=["job.run", "st.run", "st.done", "st.before"]),
    # conditions: a job, steps (first, tolerant, last) and a whole workflow that must not run
    conf("skips", [wf("w1", [("a", [], [step(on=False), step(), step(coe=True, on=False)]), ("b", ["a"], [step()]),
                             ("c", ["b"], [step(), step(on=False)])], off=("b",), event=True),
                   wf("w2", [("a", [], [step()])], off=("",), event=True)],
         ends=ENDS, cancels=1, targets=["w1/a", "w1/b", "w1/c", "w2/a"], gate=["wf.state", "job.state", "st.state"]),
    conf("alloff", [wf("w1", [("a", [], [step(on=False)]), ("b", ["a", "c"], [step()]), ("c", [], [step()])], off=("b", "c"), event=True)],
         cancels=1, targets=["w1/a", "w1/b"], gate=["job.run", "job.state", "job.done"]),
]
BY_NAME = {n: (c, s) for n, c, s in CONFIGS}
