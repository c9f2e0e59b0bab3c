import json
ENG = "TLA+ (Engine.tla) checked with TLC; traces of the real engine validated against it, schedules enumerated by TLC replayed into it"
ENGN = ("Exhaustive for the specification within the listed small configurations, and for the real engine on every transition of those "
        "configurations (quick: a seeded subset) under virtual time; beyond them seeded random workflows, schedules, faults and real-time "
        "runs on several threads. Trusts tokio's paused clock and the recording observers.")
N = {p: (ENG, ENGN) for p in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C21".split()}
LOCK = ("TLA+ (Stream/Signal/Scheduler.tla) checked with TLC; histories of the real types, driven by an exhaustive or random thread scheduler "
        "(shuttle), checked for a linearisation by TLC")
LOCKN = ("The thread scheduler chooses at lock, atomic and wake-up operations of a build of the repository's own source files against shuttle's "
         "primitives; short programs are exhausted, longer ones sampled; multi-threaded histories of the ordinary build are checked as well.")
N.update({p: (LOCK, LOCKN) for p in ("C10", "C11")})
PLAN = "TLA+ (Plan.tla) as the oracle, checked with TLC; plans the real builder makes for enumerated and generated files compared with it"
PLANN = ("Exhaustive over the model's small files; beyond them seeded random files with every feature of the format and every fault class. "
         "The YAML text itself is written by the harness, so YAML syntax is sampled only.")
N["C12"] = N["C22"] = (PLAN, PLANN)
N["C06"] = (ENG + "; action resolution by Plan.tla", ENGN)
N["C13"] = ("TLA+ (Cond.tla) checked with TLC; decisions of the real trigger code, with a stand-in for the GitHub API, validated against it",
            "Exhaustive over the model's small conditions; beyond them seeded random conditions, events, paged file lists and API failures. "
            "Matching of one glob against one name is an input computed by an independent matcher in the generator.")
N["C14"] = ("TLA+ (Scheduler.tla) checked with TLC; histories of the real scheduler under exhaustive and random thread schedules, and runs with "
            "real remote runners, validated against it", LOCKN)
REM = ("TLA+ (Remote.tla, RemoteMC.tla) checked with TLC; its behaviours replayed against real servers and the real client, traces of random "
       "runs validated against it")
REMN = ("The model is exhausted for up to two runners, two steps, one lost connection and one signal; the real code runs over loopback TCP "
        "with cut connections, hanging hooks, hostile peers and large messages, so interleavings inside the RPC stack are sampled.")
N.update({p: (REM, REMN) for p in ("C15", "C16", "C17", "C18")})
N["C21"] = (ENG + "; the same over real remote runners (Remote.tla)", ENGN)
HOST = ("TLA+ (Host.tla, HostMC.tla) checked with TLC; its behaviours replayed into the real runner with scripted commands, traces of random "
        "runs validated against it")
HOSTN = ("Exhaustive for the model's small configurations; the real runner runs with real processes as an unprivileged user in a scratch "
         "directory, with a stand-in for docker, so operating-system scheduling is sampled.")
N.update({p: (HOST, HOSTN) for p in ("C19", "C20", "C23")})
json.dump(N, open("/verif/lib/notes.json", "w"), indent=1)
