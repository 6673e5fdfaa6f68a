"""What each property's check runs, per tier."""
import gzip, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

BUILDS = {
    "rel": {"crate": "harness", "profile": "release"},
    "chk": {"crate": "harness", "profile": "checked"},
    "nodef": {"crate": "harness", "profile": "release", "args": ["--no-default-features"]},
}
BUILDS["shut"] = {"crate": "conc", "profile": "release", "args": ["--features", "shut"]}
BUILDS["std"] = {"crate": "conc", "profile": "release", "args": ["--features", "qc-default"]}
BUILDS["stdnd"] = {"crate": "conc", "profile": "release"}
LEVEL = {}
ASSUME = {}
ASSUME_ALL = [
    "TLC's verdicts are trusted; the recording of calls, results, callbacks and contents by the harness is trusted",
    "executions of the code outside the recorded traces and tours are not covered",
]

def known_findings(prop):
    f = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if not os.path.exists(f):
        return []
    return [l.strip()[len("finding: property=%s " % prop):] for l in open(f)
            if l.startswith("finding: property=%s " % prop)]

def tour_file(name):
    """unpacks tours/<name>.gz next to the other scratch files"""
    d = os.path.join(VERIF, "work", "tours")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name + ".cmds")
    src = os.path.join(VERIF, "tours", name + ".gz")
    if not os.path.exists(p) or os.path.getmtime(p) < os.path.getmtime(src):
        with gzip.open(src) as z, open(p + ".tmp%d" % os.getpid(), "wb") as o:
            o.write(z.read())
        os.replace(p + ".tmp%d" % os.getpid(), p)
    return p

def mc(name, module="ContractMC", cfg=None, **k):
    return dict(kind="mc", name="mc-" + name, module=module, cfg=cfg or "MC_%s.cfg" % name, **k)

def seqgen(prop, seed, focus, njobs, events, length=60, module="ContractTrace", build="rel", name=None):
    base = seed * 1000 + int(prop[1:]) * 37
    return dict(kind="trace", name=name or "seq-" + focus + ("" if build == "rel" else "-" + build), build=build,
                bin="seq", module=module,
                jobs=[{"args": ["gen", "{out}", str(base + j), "1000000", str(length), focus, str(events)]}
                      for j in range(njobs)])

def tour(name, parts, module="ContractTrace", build="rel", only=None):
    f = tour_file(name)
    return dict(kind="trace", name="tour-" + name, build=build, bin="seq", module=module,
                jobs=[{"args": ["replay", "{out}", f, str(j), str(parts)]} for j in (only or range(parts))])

def twin(prop, seed, mode, njobs, events, length=60, build="rel"):
    base = seed * 1000 + int(prop[1:]) * 37
    return dict(kind="trace", name="twin-" + mode + ("-big" if length >= 1000 else "") + ("" if build == "rel" else "-" + build), build=build, bin="twin",
                module="TwinTrace",
                jobs=[{"args": ["{out}", str(base + j), mode, str(events), str(length)]} for j in range(njobs)])

def cfgs(prop, seed, njobs, n, build="rel"):
    base = seed * 1000 + int(prop[1:]) * 37
    return dict(kind="trace", name="configs" + ("" if build == "rel" else "-" + build), build=build, bin="cfgs",
                module="ConfigTrace", jobs=[{"args": ["{out}", str(base + j), str(n)]} for j in range(njobs)])

def conc(prop, seed, focus, njobs, hist, iters=500, build="shut"):
    base = seed * 1000 + int(prop[1:]) * 37
    return dict(kind="trace", mode="histories", name="%s-%s" % ("sched" if build == "shut" else "threads-" + build, focus),
                build=build, bin="qcconc", module={"cap": "ConcTrace", "pol": "ConcClock"}.get(focus, "GuardTrace"), heap="4g",
                jobs=[{"args": ["{out}", str(base + j), "1000000", str(iters), focus, str(hist)]} for j in range(njobs)])

def timed(prop, seed, njobs, programs, attempts=5, build="std"):
    base = seed * 1000 + int(prop[1:]) * 37
    return dict(kind="trace", mode="histories", name="timed-" + build, build=build, bin="qcconc", module="TimedTrace",
                heap="4g", jobs=[{"args": ["{out}", str(base + j), str(programs), str(attempts), "timed", "0"]} for j in range(njobs)])

def probe(prop, rounds, build="std"):
    return dict(kind="trace", name="probe-" + build, build=build, bin="qcconc", module="ProbeTrace",
                jobs=[{"args": ["{out}", "1", str(rounds), "1", "probe", "0"]}])

def mem(prop, seed, njobs, runs, steps, build="rel"):
    base = seed * 1000 + int(prop[1:]) * 37
    return dict(kind="trace", name="memory" + ("" if build == "rel" else "-" + build), build=build, bin="mem",
                module="MemTrace", jobs=[{"args": ["{out}", str(base + j), str(runs), str(steps)]} for j in range(njobs)])

def nest(prop, seed, njobs, events, build="rel"):
    base = seed * 1000 + int(prop[1:]) * 37
    return dict(kind="trace", name="nested" + ("" if build == "rel" else "-" + build), build=build, bin="nest",
                module="NestTrace", jobs=[{"args": ["{out}", str(base + j), str(events)]} for j in range(njobs)])

# property: (model configurations, [(focus, jobs, histories)], sequential focus)
CONC = {
    "C02": (["q"], [("lin", 4, 4000), ("guard", 1, 2500)], None),
    "C10": (["q"], [("guard", 3, 3000), ("wait", 2, 2500)], ("guards", 1, 60000)),
    "C11": (["q", "live2"], [("wait", 4, 2500), ("guard", 1, 2500)], ("guards", 1, 60000)),
    "C12": (["q"], [("steal", 4, 2500), ("guard", 1, 2500)], ("guards", 1, 60000)),
}
CONTRACT = {
    #        mc quick,  tours quick,                     random focuses (focus, jobs, events)
    "C01": (["q_plain"], [("q_plain", 1), ("x_guard", 2)], [("any", 3, 90000), ("guards", 1, 70000), ("shards", 1, 40000)]),
    "C03": (["q_plain"], [("q_plain", 1), ("x_pins", 2), ("x_shrink", 1)], [("any", 4, 90000), ("shards", 1, 40000)]),
    "C04": (["q_plain"], [("x_zero", 2), ("q_plain", 1)], [("any", 3, 90000), ("unsync", 1, 70000), ("shards", 1, 40000)]),
    "C05": (["q_shrink"], [("q_plain", 1), ("x_shrink", 1), ("x_pins", 2)], [("any", 4, 90000)]),
    "C06": (["q_shrink"], [("x_zero", 2), ("x_pins", 2), ("x_shrink", 1)], [("any", 4, 90000)]),
    "C07": (["q_plain"], [("q_plain", 1), ("x_guard", 2)], [("any", 3, 90000), ("guards", 2, 80000)]),
    "C08": (["q_plain"], [("q_plain", 1), ("x_shrink", 1), ("x_pins", 2)], [("any", 4, 90000), ("guards", 1, 70000)]),
    "C09": (["q_plain"], [("q_plain", 1), ("x_zero", 2)], [("any", 3, 90000), ("unsync", 1, 70000), ("shards", 1, 40000)]),
    "C15": (["q_guard"], [("x_guard", 2), ("q_plain", 1)], [("any", 3, 90000), ("guards", 2, 80000)]),
    "C17": (["q_plain"], [("x_guard", 2), ("q_plain", 1)], [("any", 3, 90000), ("guards", 1, 80000), ("shards", 1, 40000)]),
}

# thorough tier: larger configurations of the specification, (configuration, module, options)
MORE_MC = {
    "C01": [("t_plain", {})], "C03": [("t_pins", {}), ("t_plain", {})], "C04": [("t_mixed", {})],
    "C05": [("t_shrink", {})], "C06": [("t_pins", {}), ("t_shrink", {})], "C07": [("t_guard", {}), ("t_plain", {})],
    "C08": [("t_shrink", {}), ("t_plain", {})], "C09": [("t_plain", {})], "C15": [("t_guard", {})],
    "C17": [("t_guard", {}), ("t_plain", {})], "C13": [("t_policy", {})], "C20": [("t_pins", {})],
}
MORE = {
    "C14": [("twin_t", "TwinMC", "MC_twin_t.cfg"), ("twin_lag", "TwinMC", "MC_twin_lag.cfg")],
    "C16": [("timed-delay", "TimedWait", "TimedWait_1.cfg"), ("timed-3", "TimedWait", "TimedWait_t.cfg")],
    "C19": [("config-t", "ConfigMC", "ConfigMC_t.cfg")],
    "C21": [("reentry-3", "Reentry", "Reentry_3.cfg")],
    "C11": [("guard-4", "GuardMC", "GMC_4.cfg"), ("guard-live", "GuardMC", "GMC_live.cfg")],
    "C02": [("guard-3x2", "GuardMC", "GMC_3x2.cfg"), ("guard-2x2", "GuardMC", "GMC_t.cfg")],
    "C10": [("guard-4", "GuardMC", "GMC_4.cfg"), ("guard-3x2", "GuardMC", "GMC_3x2.cfg"), ("guard-2x2", "GuardMC", "GMC_t.cfg")],
    "C12": [("guard-3x2", "GuardMC", "GMC_3x2.cfg"), ("guard-2x2", "GuardMC", "GMC_t.cfg"), ("guard-2k", "GuardMC", "GMC_k.cfg")],
}
MORE["C18"] = MORE["C14"]
ROUNDS = 8      # seeds per random stage in the thorough tier

def stages(prop, tier, seed):
    s = base(prop, seed)
    if tier == "quick":
        return s
    by = {x["name"]: x for x in s}
    for r in range(1, ROUNDS):
        for x in base(prop, seed + 100 * r):
            if x["kind"] == "trace" and not x["name"].startswith(("tour-", "timed-", "probe-")):
                by[x["name"]]["jobs"] += x["jobs"]
    have = {x["name"] for x in s}
    big = dict(workers=6, heap="10g", timeout=3000)
    extra = [mc(n, env={"PROPS": "none" if prop == "C13" else prop}, **o, **big) for n, o in MORE_MC.get(prop, [])]
    extra += [mc(n, module=m, cfg=c, **big) for n, m, c in MORE.get(prop, [])]
    if prop in CONTRACT:
        extra += [tour(n, 2) for n in ("q_plain", "x_pins", "x_shrink", "x_zero", "x_guard") if "tour-" + n not in have]
        for b in ("chk", "nodef"):
            extra.append(seqgen(prop, seed + ord(b[0]), "any", 4, 120000, build=b))
        extra.append(seqgen(prop, seed, "long", 3, 60000, 1500))
        extra.append(seqgen(prop, seed, "wide", 1, 20000))
    if prop == "C13":
        for b in ("chk", "nodef"):
            extra.append(seqgen(prop, seed + ord(b[0]), "exact", 8, 250000, module="ClockTrace", build=b))
    if prop in CONC:
        for f in ("guard", "lin", "wait", "steal"):
            extra.append(conc(prop, seed + 77, f, 4, 2500, 150, "stdnd"))
    return extra + s

def base(prop, seed):
    quick = True
    s = []
    if prop in CONTRACT:
        m, t, r = CONTRACT[prop]
        for n in m:
            s.append(mc(n, env={"PROPS": prop}))
        if quick:
            for n, parts in t:
                s.append(tour(n, parts))
            for f, j, e in r:
                s.append(seqgen(prop, seed, f, j, e))
            s.append(seqgen(prop, seed, "big", 1, 2500, 700))
        if prop == "C15":
            s.append(mc("storage", module="Storage", cfg="Storage.cfg"))
            for i, h in enumerate(("abandon", "refuse", "trim"), 1):
                s.append(mc("storage-" + h, module="Storage", cfg="Storage_bad%d.cfg" % i, refute="Bounded"))
            s.append(mem(prop, seed, 2, 150, 60000))
            s.append(conc(prop, seed, "guard", 1, 2500))
            s.append(conc(prop, seed, "wait", 1, 2500))
        if prop != "C15":
            s.append(conc(prop, seed, "cap", 1, 3500))
            s.append(conc(prop, seed, "cap", 1, 2500, 60, "std"))
        if prop in ("C01", "C09"):
            s.append(conc(prop, seed, "lin", 1, 2500))
        if prop == "C17":
            s.append(conc(prop, seed, "guard", 1, 2500))
            s.append(conc(prop, seed, "wait", 1, 2500))
    elif prop == "C13":
        s.append(mc("q_policy", env={"PROPS": "none"}))
        for n, parts in (("q_policy", 1), ("q_plain", 1), ("x_pins", 1), ("x_shrink", 1), ("x_zero", 1), ("x_guard", 1)):
            s.append(tour(n, parts, module="ClockTrace"))
        s.append(seqgen(prop, seed, "exact", 8, 250000, module="ClockTrace"))
        s.append(seqgen(prop, seed, "big", 4, 12000, 1500, module="ClockTrace"))
        s.append(conc(prop, seed, "pol", 1, 3000))
        s.append(conc(prop, seed, "pol", 1, 3000, 100, "std"))
    elif prop in ("C14", "C18"):
        s.append(mc("twin_q", module="TwinMC"))
        mode = "neutral" if prop == "C14" else "clone"
        s.append(twin(prop, seed, mode, 6, 150000))
        s.append(twin(prop, seed + 50, mode, 2, 100000, 400, "chk"))
        s.append(twin(prop, seed + 60, mode, 1, 12000, 1500))
    elif prop == "C16":
        s.append(mc("timed", module="TimedWait", cfg="TimedWait.cfg"))
        s.append(mc("timed-restart", module="TimedWait", cfg="TimedWait_bad1.cfg", refute="NotStuck"))
        s.append(mc("timed-early", module="TimedWait", cfg="TimedWait_bad2.cfg", refute="NotEarly"))
        s.append(timed(prop, seed, 2, 400))
        s.append(probe(prop, 1))
        s.append(probe(prop, 1, "stdnd"))
        s.append(timed(prop, seed + 50, 1, 400, build="stdnd"))
        s.append(conc(prop, seed, "time", 3, 2000))
        s.append(conc(prop, seed, "time", 1, 2000, 150, "std"))
        s.append(seqgen(prop, seed, "guards", 1, 60000))
    elif prop == "C19":
        s.append(mc("config", module="ConfigMC", cfg="ConfigMC.cfg"))
        s.append(cfgs(prop, seed, 2, 40000))
        s.append(cfgs(prop, seed + 50, 1, 20000, "chk"))
        s.append(seqgen(prop, seed, "shards", 3, 50000))
        s.append(seqgen(prop, seed, "wide", 3, 30000))
    elif prop == "C20":
        s.append(mc("q_pins", env={"PROPS": prop}))
        for b in ("rel", "chk", "nodef"):
            s.append(seqgen(prop, seed + ord(b[0]), "any", 2, 150000, build=b))
        s.append(seqgen(prop, seed, "guards", 1, 80000, build="chk"))
        s.append(seqgen(prop, seed, "shards", 1, 80000, build="chk"))
        s.append(seqgen(prop, seed, "long", 1, 80000, 1500, build="chk"))
        for n, parts in (("x_pins", 1), ("x_guard", 1), ("x_zero", 1), ("x_shrink", 1)):
            s.append(tour(n, parts, build="chk"))
        s.append(cfgs(prop, seed, 1, 20000, "chk"))
        s.append(conc(prop, seed, "guard", 1, 2500))
    elif prop == "C21":
        s.append(mc("reentry", module="Reentry", cfg="Reentry.cfg"))
        for h in ("begin", "load", "end"):
            s.append(mc("reentry-" + h, module="Reentry", cfg="Reentry_%s.cfg" % h, refute="NoSelfDeadlock"))
        s.append(nest(prop, seed, 4, 250000))
        s.append(nest(prop, seed + 50, 1, 150000, "chk"))
        s.append(nest(prop, seed + 51, 1, 150000, "nodef"))
        s.append(conc(prop, seed, "wait", 1, 2500))
    elif prop in CONC:
        ms, hs, sq = CONC[prop]
        for m in ms:
            s.append(mc("guard-" + m, module="GuardMC", cfg="GMC_%s.cfg" % m))
        for f, j, n in hs:
            s.append(conc(prop, seed, f, j, n))
        s.append(conc(prop, seed, hs[0][0], 2, 2000, 150, "std"))
        if prop == "C02":
            s.append(conc(prop, seed, "cap", 2, 3500))
            s.append(conc(prop, seed, "cap", 1, 2500, 60, "std"))
        if sq:
            s.append(seqgen(prop, seed, *sq))
    else:
        raise SystemExit("unknown property " + prop)
    return s

CLAIMED = set(CONTRACT) | set(CONC) | {"C13", "C14", "C16", "C18", "C19", "C20", "C21"}
UNCLAIMED = {}
_SEQ = ("TLA+ contract predicate %s of CacheContract: TLC proves it of every transition of the policy model in small configurations "
        "(ContractMC); tours of whole model state graphs are replayed into the real code and, with random sequential traces, "
        "validated call by call (ContractTrace)")
_CAP = "; concurrent histories under shuttle and on threads must be explained by an order of calls satisfying it (ConcTrace)"
_GRD = ("TLA+ protocol of loads, guards, waiters and futures (GuardProtocol): TLC explores all interleavings of small programs (GuardMC%s); "
        "histories of the real code under shuttle's schedulers and on threads are validated by TLC's search for the unobserved steps (GuardTrace)")
TECHNIQUE = {p: _SEQ % p + _CAP for p in ("C01", "C03", "C04", "C05", "C06", "C07", "C08", "C09")}
TECHNIQUE.update({
    "C02": _GRD % "" + "; capacity and eviction histories must be linearizable to CacheContract (ConcTrace)",
    "C10": _GRD % "" + "; sequential traces with held guards and futures (ContractTrace)",
    "C11": _GRD % ", liveness under fairness" + "; sequential traces with futures polled exactly when woken (ContractTrace)",
    "C12": _GRD % "" + "; sequential traces with held guards and futures (ContractTrace)",
    "C13": "TLA+ model of the policy (ClockOps, CacheModel): real traces and tours of whole model state graphs must be exactly its behaviour (ClockTrace), concurrent histories some order of its calls (ConcClock)",
    "C14": "TLA+ twin model (TwinMC) explored by TLC; recorded executions of two real caches, one with extra neutral calls, must agree (TwinTrace)",
    "C15": _SEQ % "C15" + "; TLA+ slot model with refuted leaky variants (Storage); live instances after concurrent histories (GuardTrace); allocations of long runs (MemTrace)",
    "C16": "TLA+ model of timed waits in discrete time with refuted wrong variants (TimedWait); real waits with time stamps (TimedTrace); concurrent histories with time-outs (GuardTrace)",
    "C17": _SEQ % "C17" + "; counters at the end of concurrent histories (GuardTrace, ConcTrace)",
    "C18": "TLA+ twin model (TwinMC) explored by TLC; recorded executions of a real cache and its clone must agree (TwinTrace)",
    "C19": "TLA+ arithmetic of shards and capacities (ConfigSpec) explored by TLC; real constructions (ConfigTrace) and traces of sharded caches (ContractTrace) validated",
    "C20": "Tours of TLA+ model state graphs and random traces executed in release, checked and minimal builds with a watchdog; TLC rejects calls that panic or never return (ContractTrace, GuardTrace)",
    "C21": "TLA+ model of calls with user code and a non-reentrant lock, wrong variants refuted (Reentry); nested real traces validated by a TLA+ stack machine (NestTrace)",
})
GENERIC = ("Exhaustive TLC exploration of a small configuration of the specification; the real code is bound to it by replaying "
           "tours of the model's whole state graph and by validating randomly generated call histories (all of the API, "
           "adversarial hashers, weighters, lifecycles) step by step with TLC. Outside the explored bounds and generated "
           "histories nothing is claimed; TLC and the recording harness are trusted.")
NOTES = {p: GENERIC for p in CLAIMED}
