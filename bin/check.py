#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property: builds the drivers from /repo's working tree, runs the
model checker on the small models, executes histories on the real code, and
has TLC judge recorded executions against the specification.  Executions the
native transcription of the specification disagrees with are minimised and
judged first; a violation is reported only if TLC rejects the recorded
execution and rejects a second, fresh recording of it as well.
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("REPO", "/repo")
sys.path.insert(0, HERE)
from props import PROPS, MODELS
import universe

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
T0 = time.time()
lock = threading.Lock()


def say(*a):
    with lock:
        print(*a, flush=True)


class ToolError(Exception):
    pass


def sh(cmd, timeout=None, env=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e,
                           errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        out = x.stdout or ""
        return None, out if isinstance(out, str) else out.decode(errors="replace")


def tlc(module, cfg, meta, env=None, timeout=600, workers=1, heap="2g", extra=()):
    """-> (verdict, distinct states, states generated, output); verdict ok | rejected | violated | error"""
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-Xss256m", "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % max(2, workers),
           "-cp", JAR, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta,
           "-config", os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, module)]
    rc, out = sh(cmd, timeout, env)
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", ","))
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", out)
    gen, dist = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    if rc is None:
        return "timeout", dist, gen, out
    if "Postcondition" in out and "is false" in out:
        return "rejected", dist, gen, out
    if "No error has been found" in out:
        return "ok", dist, gen, out
    if re.search(r"Invariant \S+ is violated|Action property .* is violated|Temporal properties were violated|"
                 r"is violated by the initial state", out):
        return "violated", dist, gen, out
    return "error", dist, gen, out


def build(out, drivers, mode=""):
    rc, log = sh(["bash", os.path.join(VERIF, "harness", "build.sh"), out, mode], 600,
                 {"DRIVERS": " ".join(drivers), "REPO": REPO})
    if rc != 0:
        raise ToolError("build failed:\n" + log[-3000:])


def common_args(part):
    a = ["--kinds", part["kinds"]]
    for k in ("twin", "maxI", "gate", "cpu", "batch", "tree"):
        if part.get(k) not in (None, "", 0):
            a += ["--" + k, str(part[k])]
    return a


def run_scan(exe, part, fam, seed, ms):
    rc, out = sh([exe, "scan", "--fam", str(fam), "--seed", str(seed), "--count", "100000000", "--ms", str(int(ms)),
                  *common_args(part)], ms / 1000 + 400)
    if rc != 0 or "DONE" not in out:
        raise ToolError("scan ended unexpectedly (rc=%s): %s" % (rc, out[-500:]))
    flags = [dict(x.split("=") for x in l.split()[1:]) for l in out.splitlines() if l.startswith("FLAG")]
    done = [dict(x.split("=") for x in l.split()[1:]) for l in out.splitlines() if l.startswith("DONE")][-1]
    return flags, int(done["histories"]), int(done["ops"])


def run_trace(exe, part, fam, seed, path, extra=()):
    rc, out = sh([exe, "trace", "--fam", str(fam), "--seed", str(seed), "--out", path, *common_args(part),
                  *part.get("file", ()), *extra], 900)
    if rc != 0 or "TRACE" not in out:
        raise ToolError("trace ended unexpectedly (rc=%s): %s" % (rc, out[-500:]))
    line = [l for l in out.splitlines() if l.startswith("TRACE")][-1]
    return dict(x.split("=") for x in line.split()[1:])


def judge(part, path, tag, work, timeout=600, heap="3g"):
    return tlc(part["spec"] + ".tla", part["spec"] + ".cfg", os.path.join(work, "meta-" + tag),
               {"TRACE": path, "JUDGE": part.get("judge", ""), "GATE": part.get("gate", "")}, timeout, 1, heap)


def rejected_event(path, out):
    m = re.findall(r"depth of the complete state graph search is (\d+)", out)
    n = int(m[-1]) if m else 1
    lines = open(path, errors="replace").read().splitlines()
    ev = lines[n - 1] if n - 1 < len(lines) else "(end)"
    return n, len(lines), ev


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[prop]
    work = os.path.join(VERIF, "out", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    ncpu = os.cpu_count() or 4
    quick = tier == "quick"
    scan_s = P.get("scan_s", 35) if quick else P.get("thorough_s", 600)
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
           "histories_executed": 0, "operations_executed": 0, "per_family": {}, "models": {}, "trace_events": 0}
    notes = []

    os.environ["ASAN_OPTIONS"] = "detect_leaks=0"
    builds = {}
    for part in P["parts"]:
        builds.setdefault(part.get("mode", ""), set()).add(part["driver"])
    for mode, drivers in builds.items():
        build(os.path.join(work, "build" + mode), sorted(drivers), mode)
    say("built in %.0fs" % (time.time() - T0))

    def exe(part):
        return os.path.join(work, "build" + part.get("mode", ""), part["driver"])

    # 1. the models, while the histories run
    def run_model(name):
        m = MODELS[name]
        v, d, g, out = tlc(m["module"], m["cfg"], os.path.join(work, "mc-" + name), None,
                           m.get("timeout", 3000), 2 if quick else 4, "4g", m.get("extra", ()))
        if v != "ok":
            open(os.path.join(work, "mc-%s.log" % name), "w").write(out)
            raise ToolError("model %s: %s\n%s" % (name, v, out[-1500:]))
        return name, d, g

    # 1b. every short history over a small universe, written out by TLC and replayed on the real code
    def run_universe(part, n, depth):
        base = os.path.join(work, "universe-%d" % n)
        rc, tab = sh([exe(part), "tab"], 60)
        if rc != 0:
            raise ToolError("no size table: " + tab[-300:])
        u = universe.universe(n, json.loads(tab), depth)
        with open(base + ".json", "w") as fh:
            json.dump(u, fh)
        v, d, g, out = tlc("GenFilter.tla", "GenFilter.cfg", base + "-meta",
                           {"UNIVERSE": base + ".json", "OUT": base + ".out"}, 3000, 1, "3g")
        if v != "ok":
            raise ToolError("universe %d: %s\n%s" % (n, v, out[-1500:]))
        universe.convert(u, base + ".out", base + ".txt")
        os.remove(base + ".out")
        rc, out = sh([exe(part), "replay", "--in", base + ".txt", "--kinds", part["kinds"]], 1500)
        if rc != 0 or "DONE" not in out:
            raise ToolError("replay ended unexpectedly (rc=%s): %s" % (rc, out[-500:]))
        fl = [dict(x.split("=") for x in l.split()[1:]) for l in out.splitlines() if l.startswith("FLAG")]
        done = [dict(x.split("=") for x in l.split()[1:]) for l in out.splitlines() if l.startswith("DONE")][-1]
        return {**part, "file": ("--in", base + ".txt")}, fl, d, g, int(done["histories"]), int(done["ops"])

    # 2. histories on the real code
    pool = cf.ThreadPoolExecutor(max_workers=ncpu)
    models = [pool.submit(run_model, n) for n in P.get("models", []) + ([] if quick else P.get("deep_models", []))]
    unis = []
    if P.get("universes"):
        k, depth = P["universes"] if quick else P["universes_deep"]
        unis = [pool.submit(run_universe, P["parts"][0], seed * 1000 + 6 * 100 * (not quick) + j, depth) for j in range(k)]
    jobs = []
    total_fams = sum(len(p["fams"]) for p in P["parts"])
    # each family gets its share of the processor time, cut into slices
    per = scan_s * ncpu / total_fams
    slices = 1 if quick else 4
    for part in P["parts"]:
        for fam in part["fams"]:
            for s in range(slices):
                base = seed * 10000000 + s * 1000000 + 1
                jobs.append((part, fam, pool.submit(run_scan, exe(part), part, fam, base, per * 1000 / slices)))
    flagged = []
    for part, fam, j in jobs:
        fl, h, o = j.result()
        cov["histories_executed"] += h
        cov["operations_executed"] += o
        f = cov["per_family"].setdefault("%s/%s" % (part["driver"], fam), 0)
        cov["per_family"]["%s/%s" % (part["driver"], fam)] = f + h
        flagged += [(part, fam, x) for x in fl]
    for m in models:
        name, d, g = m.result()
        cov["models"][name] = {"distinct": d, "generated": g}
        cov["states"] += d
        cov["transitions"] += g
    for n, m in enumerate(unis):
        part, fl, d, g, h, o = m.result()
        cov["states"] += d
        cov["transitions"] += g
        cov["histories_executed"] += h
        cov["operations_executed"] += o
        cov["histories_written_by_tlc_and_replayed"] = cov.get("histories_written_by_tlc_and_replayed", 0) + h
        flagged += [(part, "u%d" % n, x) for x in fl]
    say("%d histories, %d operations, %d flagged, %.0fs" % (cov["histories_executed"], cov["operations_executed"],
                                                            len(flagged), time.time() - T0))

    # 3. verdicts on flagged executions
    seen, todo = {}, []
    for part, fam, x in flagged:
        k = (id(part), x["kind"])
        if seen.setdefault(k, 0) < 2 and len(todo) < 2 * ncpu:
            seen[k] += 1
            todo.append((part, fam, x))

    def verdict(i, part, fam, x):
        path = os.path.join(work, "flag-%d.ndjson" % i)
        fam = 0 if str(fam).startswith("u") else fam
        t = run_trace(exe(part), part, fam, x["seed"], path)
        if t.get("kind") == "0":
            return ("unrepeated", path, None, t, part)
        v, d, g, out = judge(part, path, "f%d" % i, work)
        if v == "rejected":
            p2 = os.path.join(work, "flag-%d-again.ndjson" % i)
            run_trace(exe(part), part, fam, x["seed"], p2)
            v2, *_ = judge(part, p2, "g%d" % i, work)
            if v2 != "rejected":
                return ("unrepeated", path, None, t, part)
        return (v, path, out, t, part)

    results = list(pool.map(lambda a: verdict(a[0], *a[1]), enumerate(todo)))
    bad = [r for r in results if r[0] == "rejected"]
    undecided = [r for r in results if r[0] in ("timeout", "error")]
    for r in results:
        if r[0] in ("ok", "unrepeated"):
            notes.append("flagged execution %s: %s" % (os.path.basename(r[1]), r[0]))

    # 4. a sample of all executions is judged too
    def sample(a):
        n, part, fam, k = a
        path = os.path.join(work, "sample-%d.ndjson" % n)
        if os.path.exists(path):
            os.remove(path)
        cnt = ev = 0
        for j in range(k):
            p1 = path + ".one"
            run_trace(exe(part), part, fam, seed * 10000000 + 500000 + j, p1, part.get("sample_args", ()))
            size = os.path.getsize(p1) if os.path.exists(p1) else 0
            if 0 < size <= part.get("sample_max", 3000000):
                with open(path, "a") as o, open(p1) as i:
                    s = i.read()
                    o.write(s)
                    ev += s.count("\n")
                cnt += 1
        if not cnt:
            return ("none", path, "", part, fam, 0, 0, 0, 0)
        v, d, g, out = judge(part, path, "s%d" % n, work, 200 if quick else 3000)
        if v == "rejected":
            v2, *_ = judge(part, path, "t%d" % n, work, 400 if quick else 3000)
            if v2 != "rejected":
                v = "error"
        return (v, path, out, part, fam, cnt, ev, d, g)

    if not bad:
        sj, n = [], 0
        for part in P["parts"]:
            for fam in part["fams"]:
                sj.append((n, part, fam, part.get("samples", 2) * (1 if quick else 6)))
                n += 1
        for r in pool.map(sample, sj):
            v, path, out, part, fam, cnt, ev, d, g = r
            if v == "ok":
                cov["traces_validated_against_impl"] += cnt
                cov["trace_events"] += ev
                cov["states"] += d
                cov["transitions"] += g
                if len(cov["samples"]) < 3:
                    with open(path) as fh:
                        cov["samples"].append({"family": fam, "events": [fh.readline()[:300], fh.readline()[:300]]})
            elif v == "rejected":
                bad.append(("rejected", path, out, {}, part))
            elif v == "timeout":
                notes.append("sample %s not finished" % os.path.basename(path))
            elif v != "none":
                open(path + ".log", "w").write(out[-20000:])
                raise ToolError("TLC failed on %s: %s" % (path, out[-800:]))
        if cov["traces_validated_against_impl"] == 0 and not bad:
            raise ToolError("no execution could be judged")
    pool.shutdown()

    wall = time.time() - T0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": P.get("level", "model_checking"), "coverage": cov,
          "wall_s": round(wall, 1), "notes": notes, "violations": len(bad)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for t in notes:
        say("note:", t)
    if bad:
        bad.sort(key=lambda r: os.path.getsize(r[1]))
        v, path, out, t, part = bad[0]
        n, total, e = rejected_event(path, out)
        replay = os.path.join(work, "violation.ndjson")
        shutil.copy(path, replay)
        with open(os.path.join(work, "violation.txt"), "w") as fh:
            fh.write("spec %s judge %s gate %s\nevent %d of %d is not allowed by the specification:\n%s\n"
                     % (part["spec"], part.get("judge"), part.get("gate"), n, total, e))
        say("event %d of %d is not allowed by %s: %s" % (n, total, part["spec"], e[:400]))
        say("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if undecided and not cov["traces_validated_against_impl"]:
        raise ToolError("flagged executions could not be judged")
    if undecided:
        r = undecided[0]
        raise ToolError("flagged execution %s: TLC %s: %s" % (r[1], r[0], (r[2] or "")[-800:]))
    say("%s held: %d executions judged by TLC (%d events), %d histories run, %.0fs"
        % (prop, cov["traces_validated_against_impl"], cov["trace_events"], cov["histories_executed"], wall))
    if quick or True:       # keep the disk small
        for d in os.listdir(work):
            if d.startswith(("sample-", "build", "universe-")):
                p = os.path.join(work, d)
                shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except ToolError as e:
        print("TOOL FAILURE:", e, flush=True)
        sys.exit(2)
