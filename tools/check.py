#!/usr/bin/env python3
"""Runs the check of one property: check.py Cxx   (VERIF_TIER, VERIF_SEED)

A check is a list of stages (see plan.py):
  mc     TLC explores a configuration of the specification exhaustively
  trace  a driver executes the real code (built from /repo) and records traces,
         which TLC validates against the specification
Exit 0: everything explored conforms.  Exit 1: VIOLATION line and replay file.
Exit 2: the machinery itself failed (no verdict).
"""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
WORK = os.path.join(VERIF, "work")
TARGET = os.path.join(VERIF, "target")
EVID = os.path.join(VERIF, "evidence")
TLA = "/opt/veriftools/tla/tla2tools.jar"
sys.path.insert(0, os.path.join(VERIF, "tools"))
import plan  # noqa: E402

T0 = time.time()
def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)

class Broken(Exception):
    """the machinery failed; there is no verdict"""

_lock = threading.Lock()
_procs, _stop = set(), [False]
class Stopped(Exception):
    """another job found a violation already"""
def run(cmd, timeout, **k):
    """subprocess.run whose process can be ended early"""
    with _lock:
        if _stop[0]:
            raise Stopped()
        p = subprocess.Popen(cmd, **k)
        _procs.add(p)
    try:
        so, se = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired as x:
        p.kill()
        so, se = p.communicate()
        x.stdout, x.stderr = so, se
        raise
    finally:
        with _lock:
            _procs.discard(p)
    if _stop[0]:
        raise Stopped()
    return subprocess.CompletedProcess(cmd, p.returncode, so, se)
def stop_all():
    with _lock:
        _stop[0] = True
        for p in _procs:
            p.kill()

def tlc_cmd(module, cfg, workers, heap, meta, extra=()):
    cp = TLA
    for d in ("/opt/veriftools/tla",):
        for f in sorted(os.listdir(d)):
            if f.endswith(".jar") and os.path.join(d, f) != TLA:
                cp += ":" + os.path.join(d, f)
    return ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m",
            "-cp", cp, "tlc2.TLC", "-workers", str(workers), "-config", cfg, "-metadir", meta,
            "-noGenerateSpecTE", *extra, module + ".tla"]

_meta = [0]

def metadir():
    with _lock:
        _meta[0] += 1
        d = os.path.join(RUN, "meta%d" % _meta[0])
    os.makedirs(d, exist_ok=True)
    return d

def run_tlc(module, cfg, env=None, workers=1, heap="3g", timeout=800, extra=(), jopts=()):
    e = dict(os.environ)
    e.update(env or {})
    meta = metadir()
    cmd = tlc_cmd(module, cfg, workers, heap, meta, extra)
    cmd[1:1] = list(jopts)
    try:
        p = run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired as x:
        raise Broken("TLC timed out: %s %s" % (module, cfg)) from x
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout

def tlc_counts(out):
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    return tuple(int(x.replace(",", "")) for x in m[-1])

# ---------------------------------------------------------------------------
_built = {}
_blocks = {}
def build(variant):
    """variant: key of plan.BUILDS -> directory with the binaries"""
    with _lock:
        lk = _blocks.setdefault(variant, threading.Lock())
    with lk:
        if variant in _built:
            if isinstance(_built[variant], Exception):
                raise _built[variant]
            return _built[variant]
        b = plan.BUILDS[variant]
        t = os.path.join(TARGET, variant)
        env = dict(os.environ, CARGO_TARGET_DIR=t, CARGO_NET_OFFLINE="true")
        env.update(b.get("env", {}))
        cmd = ["cargo", "build", "--offline", "--locked", "--quiet", "--profile", b["profile"], *b.get("args", [])]
        t1 = time.time()
        p = subprocess.run(cmd, cwd=os.path.join(VERIF, b["crate"]), env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            _built[variant] = Broken("build of %s failed:\n%s" % (variant, p.stdout[-4000:]))
            raise _built[variant]
        log("built", variant, "in %.1fs" % (time.time() - t1))
        _built[variant] = os.path.join(t, b["profile"] if b["profile"] != "dev" else "debug")
        return _built[variant]

# ---------------------------------------------------------------------------
class Violation:
    def __init__(self, what, stage, trace, detail, cmd=None):
        self.what, self.stage, self.trace, self.detail, self.cmd = what, stage, trace, detail, cmd

def trace_of(lines, line):
    """the trace (from its "new" line) that ends at the 1-based line"""
    i = line - 1
    while i > 0 and '"o":"new"' not in lines[i]:
        i -= 1
        if line - i > 3000 or (i == 0 and line > 3000):
            return lines[max(0, line - 5):line]
    return lines[i:line]

def produce(stage, job, n):
    """run a driver; returns (trace file, stats, violation or None)"""
    bindir = build(stage["build"])
    out = os.path.join(RUN, "%s.%d.ndjson" % (stage["name"], n))
    cmd = [os.path.join(bindir, stage["bin"])] + [a.replace("{out}", out).replace("{verif}", VERIF) for a in job["args"]]
    env = dict(os.environ)
    env.update(job.get("env", {}))
    lim = stage.get("driver_timeout", 300)
    try:
        p = run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=lim, text=True, env=env,
                errors="replace")
        rc, so, se = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        rc, so, se = "timeout", str(x.stdout or ""), str(x.stderr or "")
    stats = {}
    for l in so.splitlines():
        if l.startswith("GEN "):
            for kv in l.split()[1:]:
                k, v = kv.split("=")
                stats[k] = stats.get(k, 0) + int(v)
    if rc == 0 or rc == 8:      # 8: the watchdog recorded a call that never returned
        return out, stats, None, cmd
    tail = []
    if os.path.exists(out):
        tail = open(out, errors="replace").read().splitlines()[-30:]
    return None, stats, Violation("the driver %s did not survive the run (exit %s): a crash, abort or hang "
                                  "inside the code under test" % (stage["bin"], rc), stage["name"], tail,
                                  (se or "")[-2000:], cmd), cmd

def undefined(stage, path, cmd, out):
    """the specification is not even defined for what the code did (an unknown value, a key that cannot exist)"""
    m = re.search(r"(Attempted to [^\n]*|[^\n]*not in the domain of[^\n]*|[^\n]*[Nn]onexistent field[^\n]*)", out)
    if not m:
        return None
    at = re.findall(r"/\\ i = (\d+)", out)
    lines = open(path).read().splitlines()
    line = int(at[-1]) if at else len(lines)
    return Violation("the specification has no step for a recorded one: " + m.group(1)[:200], stage["name"],
                     trace_of(lines, min(line, len(lines))), "near line %d of the trace file" % line, cmd)

def validate(stage, prop, path, cmd):
    """TLC validates one file of traces"""
    n = sum(1 for _ in open(path))
    if n == 0:
        raise Broken("empty trace file from " + " ".join(cmd))
    env = {"TRACE": path, "PROPS": prop}
    env.update(stage.get("env", {}))
    rc, out = run_tlc(stage["module"], stage.get("cfg", stage["module"] + ".cfg"), env, 1,
                      stage.get("heap", "3g"), stage.get("timeout", 800), jopts=stage.get("jopts", ()))
    if stage.get("mode") == "histories":
        return judge_histories(stage, path, cmd, n, out)
    u = undefined(stage, path, cmd, out)
    if u:
        return n, 0, 0, [u], 1, None
    done = re.findall(r'<<"DONE", (\d+), (\d+)(?:, ([^>]*))?>>', out)
    if not done:
        i = out.find("Error:")
        raise Broken("TLC gave no verdict for %s (%s):\n%s" % (path, " ".join(cmd), out[i if i >= 0 else -3000:][:3000]))
    gen, dist = tlc_counts(out)
    viol = []
    rej = re.findall(r'<<"REJECT", (\d+), (.*)>>', out)
    if rej:
        lines = open(path).read().splitlines()
        for line, what in rej[:3]:
            viol.append(Violation("TLC rejects a recorded step: " + what, stage["name"],
                                  trace_of(lines, int(line)), "line %s of the trace file" % line, cmd))
        if int(done[-1][1]) == 0:
            raise Broken("inconsistent verdict")
    elif int(done[-1][1]) != 0:
        raise Broken("inconsistent verdict:\n" + out[-2000:])
    return n, gen, dist, viol, len(rej), None

def judge_histories(stage, path, cmd, n, out):
    """one history per line; TLC names those it can explain"""
    u = undefined(stage, path, cmd, out)
    if u:
        return n, 0, 0, [u], 1, n
    if "Model checking completed. No error has been found." not in out:
        i = out.find("Error:")
        raise Broken("TLC gave no verdict for %s (%s):\n%s" % (path, " ".join(cmd), out[i if i >= 0 else -3000:][:3000]))
    gen, dist = tlc_counts(out)
    acc = set(map(int, re.findall(r'<<"ACC", (\d+)>>', out)))
    viol, rej, events = [], 0, 0
    for i, l in enumerate(open(path), 1):
        h = json.loads(l)
        events += len(h["t"])
        if i not in acc:
            rej += 1
            viol.append((len(h["t"]), i, h))
    viol.sort(key=lambda x: x[:2])
    vs = [Violation("no behaviour of the specification explains this history of the real code (program %d)" % h["p"],
                    stage["name"], [json.dumps({k: v for k, v in h.items() if k != "t"})] + [json.dumps(e) for e in h["t"]],
                    "line %d of the history file; %d histories are not explained" % (i, rej), cmd)
          for _, i, h in viol[:3]]
    late = set(map(int, re.findall(r'<<"LATE", (\d+)>>', out)))
    for p in sorted(late)[:3]:
        for h in (json.loads(l) for l in open(path)):
            if h["p"] == p:
                vs.append(Violation("calls with a timeout return much later than it, in every attempt (program %d)" % p,
                                    stage["name"], [json.dumps(e) for e in h["t"]], "", cmd))
                break
    return events, gen, dist, vs, rej + len(late), n

# ---------------------------------------------------------------------------
def main():
    global RUN
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    RUN = os.path.join(WORK, "%s-%s-%d" % (prop, tier, os.getpid()))
    os.makedirs(RUN, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    try:
        return go(prop, tier, seed)
    finally:
        shutil.rmtree(RUN, ignore_errors=True)

def go(prop, tier, seed):
    stages = plan.stages(prop, tier, seed)
    viol, cov = [], {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                     "events_validated": 0, "stages": [], "samples": []}
    only = os.environ.get("VERIF_STAGES")
    if only:
        stages = [s for s in stages if s["name"] in only.split(",")]

    # the drivers run while TLC explores the specification; TLC jobs share a pool
    pool = cf.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8")))
    prod = cf.ThreadPoolExecutor(4)
    futs = []
    def mc(stage):
        rc, out = run_tlc(stage["module"], stage["cfg"], stage.get("env"), stage.get("workers", 4),
                          stage.get("heap", "6g"), stage.get("timeout", 800), stage.get("extra", ()))
        gen, dist = tlc_counts(out)
        ok = "No error has been found" in out
        if "refute" in stage:   # a deliberately wrong variant: the property must not hold of it
            ok = "Invariant %s is violated" % stage["refute"] in out or "Temporal properties were violated" in out
            if not ok:
                raise Broken("%s is not refuted:\n%s" % (stage["name"], out[-3000:]))
            return {"stage": stage["name"], "kind": "refutation of a wrong variant of the model", "module": stage["module"],
                    "config": stage["cfg"], "distinct_states": dist, "states_generated": gen}, gen, dist
        if not ok:
            raise Broken("the specification itself failed in %s:\n%s" % (stage["name"], out[-3000:]))
        return {"stage": stage["name"], "kind": "model checking", "module": stage["module"], "config": stage["cfg"],
                "distinct_states": dist, "states_generated": gen}, gen, dist
    def tr(stage, job, n):
        t1 = time.time()
        path, stats, v, cmd = prod.submit(produce, stage, job, n).result()
        t2 = time.time()
        if v is not None:
            return stage, job, None, stats, [v], 0
        nl, gen, dist, vs, nrej, nhist = validate(stage, prop, path, cmd)
        sample, ntr = None, 0
        with open(path) as f:
            for i, l in enumerate(f):
                if i < 6:
                    sample = (sample or []) + [l.strip()[:400]]
                if '"o":"new"' in l:
                    ntr += 1
        if nhist is not None:
            ntr = nhist
        os.unlink(path)
        if os.environ.get("VERIF_TIMES"):
            log(stage["name"], n, "driver %.1fs, TLC %.1fs, %d events" % (t2 - t1, time.time() - t2, nl))
        return stage, job, (nl, gen, dist, ntr, sample), stats, vs, nrej
    # long TLC jobs first
    for s in stages:
        if s["kind"] == "mc":
            futs.append(("mc", s, pool.submit(mc, s)))
    for s in stages:
        if s["kind"] == "trace":
            for n, j in enumerate(s["jobs"]):
                futs.append(("trace", s, pool.submit(tr, s, j, n)))
    per = {}
    broken = None
    kinds = {f: (kind, s) for kind, s, f in futs}
    for f in cf.as_completed(kinds):
        kind, s = kinds[f]
        try:
            r = f.result()
        except Stopped:
            continue
        except Broken as x:
            broken = broken or x
            continue
        if kind == "mc":
            info, gen, dist = r
            cov["stages"].append(info)
            cov["states"] += dist
            cov["transitions"] += gen
        else:
            stage, job, res, stats, vs, nrej = r
            viol += vs
            if vs:
                stop_all()
            d = per.setdefault(stage["name"], {"stage": stage["name"], "kind": "trace validation",
                               "module": stage["module"], "driver": stage["bin"], "build": stage["build"],
                               "traces": 0, "events": 0, "rejected": 0, "driver_stats": {}})
            d["rejected"] += nrej
            for k, v in stats.items():
                d["driver_stats"][k] = d["driver_stats"].get(k, 0) + v
            if res:
                nl, gen, dist, ntr, sample = res
                d["traces"] += ntr
                d["events"] += nl
                cov["traces_validated_against_impl"] += ntr
                cov["events_validated"] += nl
                if "sample" not in d:
                    d["sample"] = 1
                    cov["samples"].append({"stage": stage["name"], "command": " ".join(job["args"]), "first_lines": sample})
    for d in per.values():
        d.pop("sample", None)
        cov["stages"].append(d)

    ev = {"property": prop, "tier": tier, "seed": seed, "level": plan.LEVEL.get(prop, "model_checking"),
          "coverage": cov, "assumptions": plan.ASSUME.get(prop, []) + plan.ASSUME_ALL,
          "wall_s": round(time.time() - T0, 1), "violations": len(viol)}
    for s in cov["stages"]:
        log(json.dumps(s))
    for k in plan.known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if viol:
        rd = os.path.join(WORK, "replay")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, "%s-%s.json" % (prop, tier))
        json.dump({"property": prop, "violations": [
            {"what": v.what, "stage": v.stage, "detail": v.detail, "driver_command": " ".join(v.cmd or []),
             "trace": v.trace} for v in viol[:5]]}, open(rp, "w"), indent=1)
        json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
        v = viol[0]
        log("stage %s: %s; %s" % (v.stage, v.what, v.detail[:300]))
        for l in v.trace[-6:] if len(v.trace) > 60 else v.trace:
            print("   ", l[:600])
        print("VIOLATION property=%s replay=%s" % (prop, rp), flush=True)
        return 1
    if broken:
        print("ERROR (no verdict): %s" % broken, flush=True)
        return 2
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    log("property %s held: %d states / %d transitions explored, %d traces (%d events) of the real code validated"
        % (prop, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], cov["events_validated"]))
    return 0

if __name__ == "__main__":
    if sys.argv[1:] == ["--setup"]:
        RUN = WORK
        os.makedirs(WORK, exist_ok=True)
        for v in plan.BUILDS:
            build(v)
        sys.exit(0)
    sys.exit(main())
