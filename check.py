#!/usr/bin/env python3
"""Decides one property by deterministic simulation.

  check.py run  PROP [--tier quick|thorough] [--secs N] [--seed N] [--workers N]
  check.py replay FILE [--trace]

run: exit 0 if the property held on every simulated execution, exit 1 with a line
"VIOLATION property=<id> replay=<path>" otherwise, exit 2 if nothing could be decided.
"""
import argparse, array, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build as B

KNOWN = os.path.join(VERIF, "known_findings.txt")
QUICK, THOROUGH = 40, 600
COUNTERS = {0: "transition_firings", 1: "api_calls", 2: "actions_run", 3: "condition_evaluations"}
STRATEGIES = ["round_robin_until_blocked", "random_walk", "pct_priorities", "delay_bounded", "fair_random_walk"]
MODES = ["SINGLE_THREAD", "EVENT_LOOP", "DETACHED", "JOB_QUEUE"]
REAL = ["everything under PTN_Engine/ (engine, event loop, job queue, executors, places, transitions, managers, XML import/export), compiled from the working tree",
        "libstdc++ (thread, jthread, stop_token, shared_mutex, condition_variable, barrier, atomic wait, random_device consumers)", "pugixml"]
STUBS = ["pthread threads, mutexes, rwlocks, condition variables, once, semaphores and futexes: simulated, one thread runs at a time",
         "clocks, sleeps and timed waits: virtual time", "random_device / getrandom: seeded stream",
         "malloc/free of the engine: arena with freed memory quarantined", "fopen/fwrite/fread and friends on the scratch directory: real files behind a fault injecting layer",
         "user callbacks, API clients: generated by the harness"]


def sym_table(exe):
    so = os.path.join(os.path.dirname(exe), "libptnsim.so")
    cache = {}

    def one(m):
        a = int(m.group(1), 16)
        obj = so
        if a >> 40 & 1:
            obj = exe
            a &= (1 << 40) - 1
        if a >> 32 or a < 0x1000:
            return "<system library>"
        if (obj, a) not in cache:
            try:
                r = subprocess.run(["addr2line", "-sCfe", obj, hex(a - 1)], capture_output=True, text=True, timeout=60).stdout.split("\n")
                fn = re.sub(r"\(.*", "", r[0])
                fn = re.sub(r"<.*>", "<>", fn)[-70:]
                cache[(obj, a)] = fn + "@" + r[1].split(" ")[0]
            except Exception:
                cache[(obj, a)] = m.group(0)
        return cache[(obj, a)]
    return lambda text: re.sub(r"@([0-9a-f]+)\b", one, text)


def known_findings(prop):
    """finding: property=<id> kind=<kind> match=<text of the message> :: <what fails>"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) kind=(\S+) match=(.*?) :: (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    return out


def statement(prop):
    try:
        for l in open(os.path.join(VERIF, "properties.jsonl")):
            d = json.loads(l)
            if d["id"] == prop:
                return d["title"]
    except OSError:
        pass
    return prop


def run(args):
    t0 = time.time()
    prop = args.prop
    secs = args.secs or (QUICK if args.tier == "quick" else THOROUGH)
    try:
        exe = B.build()
    except RuntimeError as e:
        print("cannot build the simulator from the working tree:\n%s" % e, file=sys.stderr)
        return 2
    tbuild = time.time() - t0
    out = tempfile.mkdtemp(prefix="ptnsim-%s-" % prop)
    try:
        return run2(args, prop, secs, exe, out, t0, tbuild)
    finally:
        shutil.rmtree(out, ignore_errors=True)


def run2(args, prop, secs, exe, out, t0, tbuild):
    findings = known_findings(prop)
    kf = os.path.join(out, "known")
    with open(kf, "w") as f:
        for kind, match, _ in findings:
            f.write("%s\t%s\t%s\n" % (prop, kind, match))
    n = args.workers or len(os.sched_getaffinity(0))
    minimise = 40 if args.tier == "quick" else 120
    procs = []
    for i in range(n):
        procs.append(subprocess.Popen([exe, "run", prop, "--seed", str(args.seed), "--start", str(i), "--stride", str(n), "--secs", str(secs), "--out", out,
                                       "--known", kf, "--core", str(i), "--minimise", str(minimise)],
                                      stdout=subprocess.DEVNULL, stderr=open(os.path.join(out, "err.%d" % i), "w")))
    for p in procs:
        try:
            p.wait(timeout=secs + minimise + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
    res = []
    for i in range(n):
        try:
            res.append(json.load(open(os.path.join(out, "%s.%d.json" % (prop, i)))))
        except (OSError, ValueError) as e:
            err = open(os.path.join(out, "err.%d" % i)).read()[-800:]
            print("worker %d gave no result (%s): %s" % (i, e, err), file=sys.stderr)
    tot = lambda k: sum(r[k] for r in res)
    violations = sorted((r["violation"] for r in res if "violation" in r), key=lambda v: v["idx"])
    hashes, hashesnt, pairs = set(), set(), bytearray()
    for i in range(n):
        for name, s in (("hashes", hashes), ("hashesnt", hashesnt)):
            try:
                a = array.array("Q")
                a.frombytes(open(os.path.join(out, "%s.%d.%s" % (prop, i, name)), "rb").read())
                s.update(a)
            except OSError:
                pass
        try:
            b = open(os.path.join(out, "%s.%d.pairs" % (prop, i)), "rb").read()
            pairs = bytearray(x | y for x, y in zip(pairs, b)) if pairs else bytearray(b)
        except OSError:
            pass
    runs = tot("runs") if res else 0
    wall = time.time() - t0
    search = max([r["wall_s"] for r in res] or [0.001])
    faults = {}
    for r in res:
        for k, (c, w) in r["faults"].items():
            f = faults.setdefault(k, [0, 0])
            f[0] += c
            f[1] += w
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(hashesnt),
        "rule": "one evaluation is one simulated execution of the real engine: net, clients, callbacks, scheduling strategy and faults are drawn from "
                "(seed, run number). Distinct: the hash over the sequence of (thread, kind, object) of every synchronisation operation and preemption differs. "
                "Non-trivial: at least two engine calls, actions or firings, and at least one injected fault or more than ten context switches.",
        "samples": [s for r in res for s in r["samples"]][:6],
        "seed": args.seed,
        "runs_per_hour": int(runs / search * 3600),
        "distinct_seeds_per_hour": int(runs / search * 3600),
        "distinct_interleavings": len(hashes),
        "distinct_ordered_site_pairs": sum(bin(x).count("1") for x in pairs),
        "distinct_ordered_site_pairs_measure": "pairs (code site of one thread, code site of the next thread to touch the same synchronisation object), hashed into 65536 bits",
        "simulated_hours": round(tot("vtime_us") / 3.6e9, 4) if res else 0,
        "synchronisation_steps": tot("steps") if res else 0,
        "context_switches": tot("switches") if res else 0,
        "scheduling_decisions": tot("choices") if res else 0,
        "memory_accesses_observed": tot("plain_accesses") if res else 0,
        "simulated_threads": tot("threads") if res else 0,
        "clock_jumps_when_idle": tot("idle_advances") if res else 0,
        "faults_injected": {k: {"times": c, "in_runs": w} for k, (c, w) in sorted(faults.items()) if c},
        "activity": {v: sum(r["counters"][k] for r in res) for k, v in COUNTERS.items()},
        "runs_per_strategy": {s: sum(r["strategies"][i] for r in res) for i, s in enumerate(STRATEGIES)},
        "runs_per_mode": {s: sum(r["modes"][i] for r in res) for i, s in enumerate(MODES)},
        "runs_discarded": tot("discarded") if res else 0,
        "runs_without_verdict": tot("harness_errors") if res else 0,
        "runs_not_repeatable": tot("nondeterministic") if res else 0,
        "real_code": REAL,
        "stubs": STUBS,
        "known_findings_met": {k: v for r in res for k, v in r.get("known", {}).items()},
        "search_s": round(search, 1),
        "build_s": round(tbuild, 1),
    }
    notes = [r["harness_error"] for r in res if r["harness_error"]]
    if notes:
        cov["notes"] = notes[:5]
    ev = {
        "property": prop, "tier": args.tier, "seed": args.seed, "level": "exploration", "coverage": cov,
        "assumptions": ["sequentially consistent memory between preemption points (data races are looked for separately, by happens-before, in C10)",
                        "operator new does not fail except where a run says so", "callbacks call the engine only where the documentation allows it"],
        "wall_s": round(wall, 1), "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s: %s" % (prop, statement(prop)))
    print("  %d simulated executions (%d distinct interleavings, %d of them non-trivial), %.2f simulated hours, %.0f s; faults: %s" % (
        runs, len(hashes), len(hashesnt), cov["simulated_hours"], search, ", ".join("%s %d" % (k, v["times"]) for k, v in cov["faults_injected"].items()) or "none"))
    for m in notes[:3]:
        print("  note: %s" % m[:400])
    for kind, match, text in findings:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    if violations:
        v = violations[0]
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        dst = os.path.join(rdir, "%s-seed%d-run%d.replay" % (prop, args.seed, v["idx"]))
        shutil.copy(v["replay"], dst)
        print("  %s in run %d of seed %d (minimised: client operations %d -> %d, scheduling and fault deviations %d -> %d)" % (
            v["kind"], v["idx"], args.seed, v["ops"][0], v["ops"][1], v["devs"][0], v["devs"][1]))
        for l in sym_table(exe)(v["msg"][:4000]).split("\n"):
            print("    " + l)
        print("  replay with: python3 %s replay %s" % (os.path.join(VERIF, "check.py"), dst))
        print("VIOLATION property=%s replay=%s" % (prop, dst))
        return 1
    if not res or runs == 0 or tot("ok") * 2 < runs:
        print("nothing decided: %d of %d runs gave a verdict" % (tot("ok") if res else 0, runs), file=sys.stderr)
        return 2
    return 0


def replay(args):
    try:
        exe = B.build()
    except RuntimeError as e:
        print("cannot build the simulator from the working tree:\n%s" % e, file=sys.stderr)
        return 2
    r = subprocess.run([exe, "replay", args.file] + (["--trace"] if args.trace else []), capture_output=True, text=True, errors="replace")
    if args.trace:
        print(r.stderr)
    print(sym_table(exe)(r.stdout))
    if r.returncode == 1:
        m = re.search(r"^prop (\S+)", open(args.file).read(), re.M)
        print("VIOLATION property=%s replay=%s" % (m.group(1) if m else "?", args.file))
    return r.returncode


def main():
    ap = argparse.ArgumentParser()
    sp = ap.add_subparsers(dest="cmd", required=True)
    a = sp.add_parser("run")
    a.add_argument("prop")
    a.add_argument("--tier", choices=("quick", "thorough"), default=os.environ.get("VERIF_TIER") if os.environ.get("VERIF_TIER") in ("quick", "thorough") else "quick")
    a.add_argument("--secs", type=float, default=0)
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a.add_argument("--workers", type=int, default=0)
    b = sp.add_parser("replay")
    b.add_argument("file")
    b.add_argument("--trace", action="store_true")
    args = ap.parse_args()
    return run(args) if args.cmd == "run" else replay(args)


if __name__ == "__main__":
    sys.exit(main())
