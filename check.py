#!/usr/bin/env python3
"""Decides one property by deterministic simulation.

  python3 check.py C05 [--tier quick|thorough]   decide a property
  python3 check.py --replay FILE                 execute a replay file
  python3 check.py --selftest                    setup: build and prove determinism

Exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer.
"""
import argparse, hashlib, json, os, random, re, shutil, struct, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(V, "sim")
JOBS = 8
WRAPPED = """malloc realloc calloc free memcpy memmove memset memcmp aligned_alloc posix_memalign reallocarray strlen strdup strcpy strncpy strcat strcmp vsnprintf vsprintf snprintf sprintf __snprintf_chk __sprintf_chk __vsnprintf_chk __vsprintf_chk __memcpy_chk __memmove_chk __memset_chk __strcpy_chk __strncpy_chk __strcat_chk""".split()
sys.path.insert(0, os.path.join(V, "sim"))
from checks import GROUPS, CHECKS, DROPPABLE  # noqa: E402


def die(msg):
    print("NO-ANSWER: " + msg)
    sys.exit(2)


# ------------------------------------------------------------------ building
def run_all(cmds):
    """Runs the commands, at most JOBS at a time; returns the failures."""
    todo, live, bad = list(cmds), [], []
    while todo or live:
        while todo and len(live) < JOBS:
            c = todo.pop(0)
            live.append((c, subprocess.Popen(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        c, p = live.pop(0)
        out, _ = p.communicate()
        if p.returncode:
            bad.append((c, out))
    return bad


def no_compile(cmd, log):
    die("the harness does not compile against the present tree:\n%s\n%s" % (cmd, "\n".join(l for l in log.splitlines() if "error" in l)[:3000]))


def without(cmd, log, out, prop, dropped):
    """The command that builds the same file without what did not compile."""
    src = re.search(r"-c (\S+/(\w+)(?:\.dropped)?\.cpp)", cmd)
    name = src.group(2)
    if name in DROPPABLE and prop not in DROPPABLE[name] and "-DVERIF_DROPPED" not in cmd:
        dropped.add(name)
        return cmd.replace(" -c ", " -DVERIF_DROPPED -c ")
    if not re.match(r"cat_[abcdel]$", name):
        no_compile(cmd, log)
    lines = open(src.group(1)).read().split("\n")
    again = False
    for m in re.finditer(r"\b%s(?:\.dropped)?\.cpp:(\d+)" % name, log):
        i = int(m.group(1)) - 1
        while i > 0 and not re.match(r"OP(_DROPPED)?\(|$|#|const (Cat|Long)Op|template|static", lines[i]):
            i -= 1
        op = re.match(r"OP\((\w+)", lines[i])
        if op:
            lines[i] = "OP_DROPPED" + lines[i][2:]
            dropped.add(op.group(1))
            again = True
    if not again:
        no_compile(cmd, log)
    variant = re.search(r"-o \S+\.(\w+)\.o", cmd).group(1)
    f = "%s/%s/%s.dropped.cpp" % (out, variant, name)
    os.makedirs(os.path.dirname(f), exist_ok=True)
    open(f, "w").write("\n".join(lines))
    return cmd.replace(src.group(1), f).replace(" -c ", " -I%s -c " % SIM, 1) if "-I" + SIM not in cmd else cmd.replace(src.group(1), f)


def build(out, groups, variants=("pattern",), prop=None, dropped=None):
    """Builds the named groups from REPO's working tree into out; returns {(group, variant): exe}."""
    dropped = set() if dropped is None else dropped
    os.makedirs(out, exist_ok=True)
    cmds, exes = [], {}
    for f in ("rt", "main"):
        cmds.append("g++ -std=c++17 -O2 -g1 -fno-threadsafe-statics -c %s/%s.cpp -o %s/%s.o" % (SIM, f, out, f))
    objcopy = "objcopy " + " ".join("--redefine-sym %s=__wrap_%s" % (w, w) for w in WRAPPED)
    srcs = sorted({s for g in groups for s in GROUPS[g]}, key=lambda s: -os.path.getsize("%s/%s.cpp" % (SIM, s)))
    for s in srcs:
        for v in variants:
            o = "%s/%s.%s.o" % (out, s, v)
            cmds.insert(0, "g++ -std=c++17 -O1 -g1 -w -fsanitize=thread -ftrivial-auto-var-init=%s -I%s/include -c %s/%s.cpp -o %s && %s %s" % (v, REPO, SIM, s, o, objcopy, o))
    bad = run_all(cmds)
    for attempt in range(6):
        if not bad:
            break
        bad = run_all([without(c, log, out, prop, dropped) for c, log in bad])
    if bad:
        no_compile(*bad[0])
    if len(dropped) > 40 or dropped >= {"hist_double", "hist_int", "hist_complex"}:
        die("%d operations do not compile against the present tree" % len(dropped))
    for d in sorted(dropped):
        print("NOT-EXERCISED: %s does not compile against the present tree" % d)
    cmds = []
    for g in groups:
        for v in variants:
            e = "%s/%s.%s" % (out, g, v)
            exes[(g, v)] = e
            cmds.append("g++ -rdynamic -pthread %s -ldl -o %s" % (" ".join(["%s/rt.o" % out, "%s/main.o" % out] + ["%s/%s.%s.o" % (out, s, v) for s in GROUPS[g]]), e))
    bad = run_all(cmds)
    if bad:
        die("linking failed:\n" + bad[0][1][:3000])
    return exes


# ------------------------------------------------------------------ running
REC = struct.Struct("<QQQQQIIQ")


class Batch:
    def __init__(self, exe, scenario, base, start, count, seconds, out, tier):
        os.makedirs(out)
        self.exe, self.scenario, self.base, self.out, self.tier = exe, scenario, base, out, tier
        p = subprocess.run([exe, "batch", scenario, str(base), str(start), str(count), str(JOBS), str(seconds), out, str(tier)],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode:
            die("the simulator failed: " + p.stderr[-500:])
        kv = dict(l.split() for l in p.stdout.splitlines())
        self.states, self.scheds, self.wall = int(kv["states"]), int(kv["scheds"]), float(kv["wall"])
        self.cnt, self.hit = {}, {}
        self.recs, self.viol, self.samples, self.errmsg = [], [], [], []
        for j in range(JOBS):
            for l in open("%s/agg.%d" % (out, j)):
                n, a, b = l.split()
                self.cnt[n] = self.cnt.get(n, 0) + int(a)
                self.hit[n] = self.hit.get(n, 0) + int(b)
            data = open("%s/rec.%d" % (out, j), "rb").read()
            self.recs += list(REC.iter_unpack(data[:len(data) // REC.size * REC.size]))
            for l in open("%s/viol.%d" % (out, j), errors="replace"):
                i, c, m = l.rstrip("\n").split("\t", 2)
                self.viol.append((int(i), c, m))
            for l in open("%s/sample.%d" % (out, j), errors="replace"):
                i, s, t = l.rstrip("\n").split("\t", 2)
                self.samples.append((int(i), s, t))
            e = "%s/error.%d" % (out, j)
            if os.path.exists(e):
                self.errmsg.append(open(e, errors="replace").read().strip())
        self.viol.sort()
        self.samples.sort()
        self.nondet, self.errors = self.cnt.pop("nondet", 0), self.cnt.pop("errors", 0)


def replay(exe, plan_text, tmp):
    f = os.path.join(tmp, "replay.plan")
    open(f, "w").write(plan_text)
    try:
        p = subprocess.run([exe, "replay", f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", timeout=100)
    except subprocess.TimeoutExpired:
        return {"done": "2", "cls": "hang", "msg": "the replay did not end", "hash": "0", "digest": "0", "sched": "0"}
    return dict((l.split(" ", 1) + [""])[:2] for l in p.stdout.splitlines() if " " in l)


def violates(r, cls):
    return r.get("done") == "2" and r.get("cls") == cls


def minimise(test, text, budget):
    """Removes plan lines (operations, faults, switches) while test(text) still holds."""
    t0 = time.time()
    lines = text.splitlines()
    head = [l for l in lines if not l.startswith(("step", "fault", "switch"))]
    body = [l for l in lines if l.startswith(("step", "fault", "switch"))]

    def ok(b):
        return time.time() - t0 < budget and test("\n".join(head + b) + "\n")
    n = 2
    while len(body) >= 1 and time.time() - t0 < budget:
        size = max(1, len(body) // n)
        for i in range(0, len(body), size):
            cand = body[:i] + body[i + size:]
            if ok(cand):
                body, n = cand, max(n - 1, 2)
                break
        else:
            if size == 1:
                break
            n = min(len(body), n * 2)
    # smaller numbers in cfg lines and simpler switch positions are not searched for
    return "\n".join(head + body) + "\n"


def known_findings(prop):
    out = []
    for l in open(os.path.join(V, "known_findings.txt")):
        m = re.match(r"finding: property=(\S+) scenario=(\S+) class=(\S+) match=/(.*)/ :: (.*)", l.strip())
        if m and m.group(1) == prop:
            out.append(dict(scenario=m.group(2), cls=m.group(3), rx=re.compile(m.group(4)), text=m.group(5)))
    return out


def dual_violation(exes, g, text, tmp):
    a, b = replay(exes[(g, "pattern")], text, tmp), replay(exes[(g, "zero")], text, tmp)
    return a.get("done") == b.get("done") == "1" and a.get("digest") != b.get("digest"), a


def decide(prop, tier):
    t0 = time.time()
    spec = CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tmp = tempfile.mkdtemp(prefix="malg-sim-")
    try:
        return _decide(prop, tier, spec, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _decide(prop, tier, spec, seed, tmp, t0):
    dual = any(p.get("dual") for p in spec["parts"])
    dropped = set()
    exes = build(os.path.join(tmp, "b"), sorted({p["group"] for p in spec["parts"]}), ("pattern", "zero") if dual else ("pattern",), prop, dropped)
    t_build = time.time() - t0
    known = known_findings(prop)
    T = 0 if tier == "quick" else 1
    batches, found, answered_by = [], [], {}
    quick_cap = 60.0  # a slow machine explores less rather than running into a time limit
    total_weight = float(sum(p.get("weight", 1) for p in spec["parts"]))
    for k, p in enumerate(spec["parts"]):
        base = int.from_bytes(hashlib.sha256(("%d/%s/%s/%s" % (seed, prop, p["group"], p["scenario"])).encode()).digest()[:8], "little")
        if T:
            secs = spec.get("thorough_s", 420) * p.get("weight", 1) / total_weight
            count = 10 ** 9
        else:
            secs = quick_cap / len(spec["parts"])
            count = p["quick"]
        b = Batch(exes[(p["group"], "pattern")], p["scenario"], base, 0, count, secs, "%s/o%d" % (tmp, k), T)
        b.part = p
        batches.append(b)
        for i, c, m in b.viol:
            found.append((b, i, c, m, open("%s/plan.%d" % (b.out, i)).read()))
        if p.get("dual"):
            z = Batch(exes[(p["group"], "zero")], p["scenario"], base, 0, len(b.recs) if T == 0 else max(1, len(b.recs) // 3), secs, "%s/z%d" % (tmp, k), T)
            other = {r[0]: r for r in z.recs}
            b.dual_compared = 0
            for r in sorted(b.recs):
                o = other.get(r[0])
                if o and r[5] == 1 and o[5] == 1:
                    b.dual_compared += 1
                    if r[3] != o[3] and len([x for x in found if x[2] == "uninitialised"]) < 3:
                        pt = subprocess.run([b.exe, "gen", p["scenario"], str(base), str(r[0]), str(T)], stdout=subprocess.PIPE, text=True).stdout
                        found.append((b, r[0], "uninitialised", "results differ between zero and patterned uninitialised local variables", pt))
    errors = sum(b.errors for b in batches)
    runs = sum(len(b.recs) for b in batches)
    new, hits = [], {}
    for b, i, c, m, text in found:
        for n, kf in enumerate(known):
            if kf["scenario"] == b.scenario and kf["cls"] == c and kf["rx"].search(m):
                hits[n] = hits.get(n, 0) + 1
                break
        else:
            new.append((b, i, c, m, text))
    status, reported = 0, []
    t_search = time.time()
    for kf in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, kf["text"]))
    unreproduced = []
    seen = set()
    for b, i, c, m, text in new:
        if c in seen or (reported and time.time() - t_search > 200):
            continue
        g = b.part["group"]
        if c == "uninitialised":
            ok, r = dual_violation(exes, g, text, tmp)
            ok2, r2 = dual_violation(exes, g, text, tmp)
            test = lambda t: dual_violation(exes, g, t, tmp)[0]
        else:
            r, r2 = replay(b.exe, text, tmp), replay(b.exe, text, tmp)
            ok, ok2 = violates(r, c), violates(r2, c)
            test = lambda t: violates(replay(b.exe, t, tmp), c)
        if not (ok and ok2):
            unreproduced.append((b.scenario, i, c, m))
            continue
        seen.add(c)
        # violations that take long to execute (hangs) must not use up the time of the check
        left = 300 - (time.time() - t_search)
        small = minimise(test, text, max(0, min(25 if T == 0 else 60, left)))
        if c == "uninitialised":
            _, r = dual_violation(exes, g, small, tmp)
            r["msg"] = m
            same = True
        else:
            r, r2 = replay(b.exe, small, tmp), replay(b.exe, small, tmp)
            same = r.get("hash") == r2.get("hash")
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        path = os.path.join(V, "replays", "%s-%s-%d.plan" % (prop, re.sub(r"\W+", "_", c), i))
        open(path, "w").write("# property %s\n# group %s\n# class %s\n# hash %s\n# found by run %d of seed %d, %d lines before minimising\n# %s\n%s" % (
            prop, g, c, r.get("hash"), i, seed, len(text.splitlines()), r.get("msg", ""), small))
        print("%s: %s" % (c, r.get("msg", m)))
        if not same:
            print("(the violation repeats, its run hash does not: the code under test is itself nondeterministic)")
        print("VIOLATION property=%s replay=%s" % (prop, path))
        reported.append({"class": c, "message": r.get("msg", m), "replay": path})
        status = 1
        if len(reported) >= 4:
            break
    if status == 0 and unreproduced:
        status = 2
        print("NO-ANSWER: a violation did not repeat: %r" % (unreproduced[0],))
    if status == 0 and errors * 50 > runs:
        status = 2
        print("NO-ANSWER: %d of %d runs ended in a simulator error: %s" % (errors, runs, [e for b in batches for e in b.errmsg][:1]))
    if runs == 0:
        status = status or 2
        print("NO-ANSWER: nothing was executed")
    write_evidence(prop, tier, spec, seed, batches, reported, errors, t_build, t0, hits, known, dropped)
    print("%s %s: %d simulated runs, %d distinct non-trivial, %.1f s (build %.1f s), exit %d" % (prop, tier, runs, distinct(batches), time.time() - t0, t_build, status))
    return status


def distinct(batches):
    return len({(b.scenario, r[2]) for b in batches for r in b.recs if r[5] == 1 and r[6]})


FAULTS = ["preempt", "alloc_once", "alloc_sticky", "alloc_huge", "read_short", "read_eintr", "read_eio", "write_short", "write_eintr", "write_eio",
          "enospc", "open_fail", "close_fail", "crash", "torn_write", "lost_page", "bit_flip", "truncate", "garbage", "entropy_open_fail",
          "entropy_read_fail", "entropy_stuck", "sink_fail", "sink_fail_exceptions", "memory_contents", "address_reuse"]


def write_evidence(prop, tier, spec, seed, batches, reported, errors, t_build, t0, hits, known, dropped):
    runs = sum(len(b.recs) for b in batches)
    wall = sum(b.wall for b in batches) or 1e-9
    cnt, hit = {}, {}
    for b in batches:
        for k, v in b.cnt.items():
            cnt[k] = cnt.get(k, 0) + v
        for k, v in b.hit.items():
            hit[k] = hit.get(k, 0) + v
    probes = {}
    for b in batches:
        for k, name in b.part.get("probes", {}).items():
            probes[name] = probes.get(name, 0) + b.cnt.get(k, 0)
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": distinct(batches),
        "rule": spec["rule"] + " One run is one plan generated from its own seed and executed in its own process; it counts as non-trivial if at least one injected fault, preemption or change of memory contents took effect in it, and as distinct by the hash of everything it observed.",
        "samples": [{"scenario": b.scenario, "run": i, "seed": s, "what": t} for b in batches for i, s, t in b.samples[:4]],
        "seeds": runs,
        "runs_per_hour": int(runs / wall * 3600),
        "simulated_time": {"library_memory_events": cnt.get("events", 0), "library_operations": cnt.get("ops", 0), "allocation_requests": cnt.get("allocs", 0),
                           "note": "the library has no clock; simulated time is counted in instrumented memory events"},
        "faults_injected": {k: {"times": cnt.get(k, 0), "runs": hit.get(k, 0)} for k in FAULTS if cnt.get(k)},
        "fault_kinds_not_used": [k for k in FAULTS if not cnt.get(k)],
        "context_switches": cnt.get("switches", 0),
        "distinct_interleavings": sum(b.scheds for b in batches),
        "interleaving_measure": "hash of (thread, its local event number, next thread) over all context switches of a run",
        "distinct_states": sum(b.states for b in batches),
        "state_measure": spec["state"],
        "outcomes": {k: cnt.get(k, 0) for k in ("threw_bad_alloc", "threw_invalid_argument", "threw_other")},
        "probes": probes,
        "determinism": {"rule": "every 37th run is executed twice and all hashes compared", "mismatches": sum(b.nondet for b in batches)},
        "simulator_errors": errors,
        "parts": [{"group": b.part["group"], "scenario": b.scenario, "runs": len(b.recs), "seconds": round(b.wall, 2)} for b in batches],
        "real_components": "all headers under include/malg as they are in the working tree, libstdc++ streams, containers and random engines",
        "stub_components": spec.get("stubs", "heap, thread scheduler, clock, entropy device and file system calls are the simulator's"),
    }
    if dropped:
        cov["not_exercised"] = sorted(dropped)
    dc = [b.dual_compared for b in batches if hasattr(b, "dual_compared")]
    if dc:
        cov["dual_build_runs_compared"] = sum(dc)
    if reported:
        cov["violations_found"] = reported
    if known:
        cov["known_findings_hit"] = {known[n]["text"]: c for n, c in hits.items()}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": spec.get("assume", []) + ["Preemption happens at instrumented memory accesses, allocations and synchronisation calls of code compiled from include/malg and inlined library code; code inside libstdc++.so runs without being interrupted.",
                                                   "Memory accesses are sequentially consistent; data races are reported by happens-before and not by their effects."],
          "wall_s": round(time.time() - t0, 2), "violations": len(reported)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)


def do_replay(path):
    text = open(path).read()
    meta = dict(re.findall(r"^# (property|group|class|hash) (.*)$", text, re.M))
    tmp = tempfile.mkdtemp(prefix="malg-sim-")
    try:
        dual = meta["class"] == "uninitialised"
        exes = build(os.path.join(tmp, "b"), [meta["group"]], ("pattern", "zero") if dual else ("pattern",), meta["property"])
        if dual:
            bad, r = dual_violation(exes, meta["group"], text, tmp)
        else:
            r = replay(exes[(meta["group"], "pattern")], text, tmp)
            bad = r.get("done") == "2"
        print("\n".join("%s: %s" % kv for kv in sorted(r.items())))
        if bad:
            print("same hash as recorded: %s" % (r.get("hash") == meta.get("hash")))
            print("VIOLATION property=%s replay=%s" % (meta["property"], path))
        return 1 if bad else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def selftest():
    """Builds everything and executes a few runs of every scenario twice."""
    tmp = tempfile.mkdtemp(prefix="malg-sim-")
    try:
        groups = sorted({p["group"] for c in CHECKS.values() for p in c["parts"]})
        exes = build(os.path.join(tmp, "b"), groups)
        k = 0
        for prop, c in sorted(CHECKS.items()):
            for p in c["parts"]:
                k += 1
                a = Batch(exes[(p["group"], "pattern")], p["scenario"], 12345, 0, 64, 30, "%s/a%d" % (tmp, k), 0)
                b = Batch(exes[(p["group"], "pattern")], p["scenario"], 12345, 0, 64, 30, "%s/b%d" % (tmp, k), 0)
                ra = {r[0]: r for r in a.recs}
                diff = sum(1 for r in b.recs if r[0] in ra and ra[r[0]] != r)
                print("%s %s/%s: %d runs twice, %d differ" % (prop, p["group"], p["scenario"], len(b.recs), diff))
                if diff:
                    print("warning: executions of the present tree are not repeatable")
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args()
    if a.selftest:
        sys.exit(selftest())
    if a.replay:
        sys.exit(do_replay(a.replay))
    if a.prop not in CHECKS:
        die("no such property")
    sys.exit(decide(a.prop, a.tier))


main()
