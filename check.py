#!/usr/bin/env python3
"""Runs the check of one property: builds its monitors from /repo's working tree, runs their workloads, decides.

usage: check.py PROPERTY [quick|thorough]

exit 0: held on everything explored; exit 1: VIOLATION line(s); anything else: the check itself failed.
"""
import array, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
INC = os.path.join(REPO, "include")
HARNESS = os.path.join(HERE, "harness")
BUILD = os.path.join(HERE, "_build")
CXX = os.environ.get("VERIF_CXX", "g++")
CORES = os.cpu_count() or 8

sys.path.insert(0, os.path.join(HERE, "tools"))


class HarnessError(Exception):
    pass


# ---- building ------------------------------------------------------------------------------------------------------

from plan import HARNESSES, VARIANTS, PLAN  # noqa: E402


def tree_hash():
    h = hashlib.sha256()
    for root in (INC, HARNESS):
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def run_cmd(cmd, timeout, cwd=HARNESS):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", timeout=timeout)


SIM_FLAGS = ["-std=c++20", "-w", "-O2", "-g1", "-fno-tree-loop-distribute-patterns", "-minline-all-stringops", "-fno-exceptions",
             "-I" + HARNESS]


def build_all(wanted, tree):
    """wanted: set of (harness, variant). Returns {(harness, variant): path of the executable}, seconds, and the builds
    of the controlled scheduler that failed: it replaces the standard threading primitives, and code that uses them in a
    way it does not know is left to the native builds."""
    out, compiles, links = {}, {}, []
    for name, variant in sorted(wanted):
        spec = HARNESSES[name]
        v = VARIANTS[variant]
        flags = ["-std=c++20", "-w", "-fmax-errors=5", "-pthread", "-I" + INC, "-I" + HARNESS] + v["cxx"] + spec.get("cxx", [])
        key = hashlib.sha256(json.dumps([tree, name, variant, flags, spec, CXX], default=str).encode()).hexdigest()[:16]
        d = os.path.join(BUILD, "%s-%s-%s" % (name, variant, key))
        os.makedirs(d, exist_ok=True)
        if "products" in spec:  # several linked outputs
            exe = os.path.join(d, spec["products"][-1]["out"])
        else:
            exe = os.path.join(d, name)
        out[(name, variant)] = exe
        if os.path.exists(exe + ".ok"):
            continue
        objs = {}
        for src, defs, *_ in spec["srcs"]:
            o = os.path.join(d, re.sub(r"\W+", "_", src + " ".join(defs)) + ".o")
            objs[(src, tuple(defs))] = o
            compiles[o] = [CXX] + flags + defs + ["-c", os.path.join(HARNESS, src), "-o", o]
        order = [objs[(s, tuple(df))] for s, df, *_ in spec["srcs"]]
        if "sim" in v:
            o = os.path.join(d, "sim.o")
            compiles[o] = [CXX] + SIM_FLAGS + v["sim"] + ["-c", os.path.join(HARNESS, "sim/sim.cpp"), "-o", o]
            order.append(o)
        links.append((name, variant, d, exe, spec, order, v))
    t = time.time()

    def comp(item):
        o, cmd = item
        if os.path.exists(o):
            return None
        r = run_cmd(cmd[:-1] + [o + ".tmp"], 600)
        if r.returncode != 0:
            return "compiling %s failed:\n%s\n%s" % (o, " ".join(cmd), r.stdout[-6000:])
        os.rename(o + ".tmp", o)
        return None

    with ThreadPoolExecutor(CORES) as ex:
        failed = {o: e for (o, _), e in zip(compiles.items(), ex.map(comp, compiles.items())) if e}
    dropped = {}
    for name, variant, d, exe, spec, order, v in links:
        bad = [failed[o] for o in order if o in failed]
        if bad and "sim" in v:
            dropped[(name, variant)] = bad[0]
        elif bad:
            raise HarnessError(bad[0])

    for name, variant, d, exe, spec, order, v in links:
        if (name, variant) in dropped:
            continue
        if "products" in spec:
            byname = {s[2]: o for s, o in zip(spec["srcs"], order)}
            for p in spec["products"]:
                cmd = [CXX] + v["ld"] + ["-pthread"] + [byname.get(x, x.replace("@D", d)) for x in p["link"]] + ["-o", os.path.join(d, p["out"])]
                r = run_cmd(cmd, 300)
                if r.returncode != 0:
                    raise HarnessError("linking failed:\n%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
        else:
            r = run_cmd([CXX] + v["ld"] + ["-pthread"] + order + spec.get("ld", []) + ["-o", exe], 300)
            if r.returncode != 0:
                raise HarnessError("linking failed:\n" + r.stdout[-4000:])
        open(exe + ".ok", "w").close()
    return out, time.time() - t, dropped


# ---- running -------------------------------------------------------------------------------------------------------

ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:halt_on_error=1:exitcode=99:allocator_may_return_null=0:detect_stack_use_after_return=1:check_initialization_order=0:handle_abort=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=97:second_deadlock_stack=1:history_size=4:detect_deadlocks=0",
}


def crash_key(rc, text):
    m = re.search(r"ERROR: AddressSanitizer:? ([\w-]+)", text)
    if m:
        return "asan-" + m.group(1)
    m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+?) \(", text)
    if m:
        return "tsan-" + m.group(1).strip().replace(" ", "-")
    m = re.search(r"runtime error: (.*)", text)
    if m:
        return "ubsan-" + re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(1))[:60].strip().replace(" ", "-")
    m = re.search(r"Assertion [`'](.*?)['`] failed", text)
    if m:
        return "assert-" + re.sub(r"\W+", "-", m.group(1))[:60]
    if "terminate called" in text:
        m = re.search(r"what\(\):\s*(.*)", text)
        return "terminate"
    if rc < 0:
        return "signal-" + signal.Signals(-rc).name
    return "exit-%d" % rc


class Result:
    def __init__(self):
        self.stats = None
        self.violations = []  # (prop, key, message, case, log)
        self.error = None
        self.note = None
        self.hashes = ""
        self.crash = None


def cpu_ticks(pid):
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return int(f[11]) + int(f[12])
    except Exception:
        return None


FOUND = []  # when a violation was first seen


def communicate(p, status, stall, deadline, watch_cpu):
    """Returns out, err, why: None, or why the process was ended: "stalled" (no new case for 'stall' seconds), "late" (the
    time of the check is up), "found" (another process has found a violation a while ago), "blocked" (the process, of the
    controlled scheduler, sits in an operation the scheduler does not know about)."""
    ticks, since = cpu_ticks(p.pid), time.time()
    moved, seen = time.time(), None
    while True:
        try:
            out, err = p.communicate(timeout=3)
            return out, err, None
        except subprocess.TimeoutExpired:
            pass
        t = time.time()
        now = cpu_ticks(p.pid)
        if now != ticks:
            ticks, since = now, t
        try:
            cur = open(status).read()
        except OSError:
            cur = None
        if cur != seen:
            seen, moved = cur, t
        why = ("blocked" if watch_cpu and t - since > 40 else "stalled" if t - moved > stall else "late" if t > deadline
               else "found" if FOUND and t - FOUND[0] > 60 else None)
        if why:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            out, err = p.communicate()
            return out, err, why


def run_job(job, exe, prop, scratch, n, deadline):
    res = run_process(job, exe, prop, scratch, n, deadline)
    if not FOUND and any(v[0] == prop and v[:2] not in known_findings() for v in res.violations):
        FOUND.append(time.time())
    return res


def run_process(job, exe, prop, scratch, n, deadline):
    res = Result()
    sim = "sim" in VARIANTS[job["variant"]]
    argv = [exe, "prop=" + prop] + ["%s=%s" % kv for kv in job["args"].items()]
    status = os.path.join(scratch, "status.%d" % n)
    hashes = os.path.join(scratch, "hashes.%d" % n)
    argv += ["status=" + status, "hashes=" + hashes]
    env = dict(os.environ)
    env.update(ENV)
    env.update(job.get("env", {}))
    # a case takes milliseconds to seconds; no new case for minutes is no progress at all, and is confirmed by a second run
    for stall in (120, 200):
        if deadline - time.time() < 5:
            res.note = "no time left for " + " ".join(argv[1:])
            return res
        p = subprocess.Popen(argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=scratch,
                             start_new_session=True)
        out, err, why = communicate(p, status, stall, deadline, sim)
        if why != "stalled":
            break
    text = out.decode(errors="replace")
    etext = err.decode(errors="replace")
    case = None
    try:
        case = int(open(status).read().split()[0])
    except Exception:
        pass
    trace = [l[6:] for l in text.splitlines() if l.startswith("TRACE\t")]
    for line in text.splitlines():
        if line.startswith("VIOL\t"):
            f = line.split("\t", 4)
            res.violations.append((f[1], f[2], f[4], int(f[3]), trace))
        elif line.startswith("STATS\t"):
            res.stats = json.loads(line[6:])
    res.hashes = hashes
    if why == "blocked":
        res.note = "blocked outside of the controlled scheduler: " + " ".join(argv[1:])
        return res
    if why in ("late", "found"):
        res.note = "ended early in case %s: %s" % (case, " ".join(argv[1:]))
        return res
    if why == "stalled":
        res.violations.append((prop, "hang", "no progress for minutes, twice (case %s)" % case, case,
                               (text + etext)[-3000:].splitlines()))
        return res
    rc = p.returncode
    if rc == -signal.SIGKILL:
        res.error = "killed (out of memory?): " + " ".join(argv)
        return res
    if rc in (0, 1) and res.stats is not None:
        return res
    if "ReserveShadowMemoryRange failed" in etext or "unexpected memory mapping" in etext or rc == 3:
        res.error = "harness failure (%d): %s\n%s" % (rc, " ".join(argv), etext[-2000:])
        return res
    if not res.violations:
        res.violations.append((prop, crash_key(rc, etext), "the program crashed in case %s: %s" % (case, first_report(etext, rc)),
                               case, etext.splitlines()[:120]))
    return res


def first_report(text, rc):
    for l in text.splitlines():
        if re.search(r"ERROR: AddressSanitizer|runtime error:|WARNING: ThreadSanitizer|Assertion|terminate called", l):
            return l.strip()[:300]
    return "exit status %d" % rc


# ---- known findings ------------------------------------------------------------------------------------------------

def known_findings():
    """Lines 'KNOWN property=<id> key=<violation key> <what fails>' suppress exactly that violation key."""
    known = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"KNOWN property=(\S+) key=(\S+) (.*)", line)
            if m:
                known[(m.group(1), m.group(2))] = m.group(3).strip()
    return known


# ---- main ----------------------------------------------------------------------------------------------------------

def main():
    if sys.argv[1:] == ["--setup"]:  # nothing is built ahead: every check builds from /repo's current tree
        os.makedirs(BUILD, exist_ok=True)
        return subprocess.run([CXX, "--version"], stdout=subprocess.DEVNULL).returncode
    if len(sys.argv) < 2 or sys.argv[1] not in PLAN:
        print(__doc__)
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        return 2
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    deadline = t0 + (840 if tier == "quick" else 3 * 3600)
    plan = PLAN[prop]
    jobs = plan["jobs"](tier, seed)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return check(prop, tier, seed, plan, jobs, scratch, t0, deadline)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def prune_build():
    # keep the newest builds only
    try:
        ds = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD)), key=os.path.getmtime)
    except FileNotFoundError:
        return
    for d in ds[:-60]:
        shutil.rmtree(d, ignore_errors=True)


def check(prop, tier, seed, plan, jobs, scratch, t0, deadline):
    os.makedirs(BUILD, exist_ok=True)
    prune_build()
    tree = tree_hash()
    wanted = {(j["harness"], j["variant"]) for j in jobs}
    exes, build_s, dropped = build_all(wanted, tree)
    notes = ["not built: %s/%s: %s" % (k + (e[-300:],)) for k, e in dropped.items()]
    jobs = [j for j in jobs if (j["harness"], j["variant"]) not in dropped]

    # jobs take 'threads' cores each
    sem = threading.Semaphore(CORES)
    gate = threading.Lock()
    results = [None] * len(jobs)

    def one(i):
        j = jobs[i]
        need = min(j.get("threads", 1), CORES)
        with gate:
            for _ in range(need):
                sem.acquire()
        try:
            results[i] = run_job(j, exes[(j["harness"], j["variant"])], prop, scratch, i, deadline)
        finally:
            for _ in range(need):
                sem.release()

    with ThreadPoolExecutor(max(1, len(jobs))) as ex:
        list(ex.map(one, range(len(jobs))))

    errors = [r.error for r in results if r.error]
    notes += [r.note for r in results if r.note]
    counters, samples, hashes = {}, [], {}
    for r in results:
        if not r.stats:
            continue
        for k, v in r.stats["counters"].items():
            if k.startswith("max_"):
                counters[k] = max(counters.get(k, 0), v)
            else:
                counters[k] = counters.get(k, 0) + v
        samples += r.stats["samples"][:2]
        for path in glob.glob(r.hashes + ".*"):
            name = path[len(r.hashes) + 1:]
            a = array.array("Q")
            with open(path, "rb") as f:
                a.frombytes(f.read())
            hashes.setdefault(name, set()).update(a)
    distinct = {k: len(v) for k, v in hashes.items()}

    known = known_findings()
    reported, seen_known = [], {}
    for job, r in zip(jobs, results):
        for (p, key, msg, case, log) in r.violations:
            if p != prop:
                continue
            if (p, key) in known:
                seen_known[(p, key)] = known[(p, key)]
                continue
            reported.append((key, msg, case, log, job))
    for (p, key), what in sorted(known.items()):
        if p == prop:
            print("KNOWN-FINDING: property=%s %s" % (p, what))

    evaluations = sum(counters.get(c, 0) for c in plan["evaluations"])
    nontrivial = sum(distinct.get(d, 0) for d in plan["distinct"])
    violations = 0
    lines = []
    seen_keys = set()
    for (key, msg, case, log, job) in reported:
        violations += 1
        if key in seen_keys or len(seen_keys) >= 5:
            continue
        seen_keys.add(key)
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        path = os.path.join(HERE, "replay", "%s-%s.txt" % (prop, re.sub(r"[^\w.-]+", "_", key)[:60]))
        a = dict(job["args"])
        if case is not None:
            a["first"], a["cases"] = case, 1
        with open(path, "w") as f:
            f.write("property: %s\nviolation: %s\n%s\n" % (prop, key, msg))
            f.write("harness: %s variant: %s tree: %s\n" % (job["harness"], job["variant"], tree[:16]))
            f.write("replay: %s prop=%s %s\n" % (exes[(job["harness"], job["variant"])], prop,
                                                  " ".join("%s=%s" % kv for kv in a.items())))
            f.write("(build it with: check.py %s %s)\n\n" % (prop, tier))
            f.write("\n".join(log) + "\n")
        lines.append("violation %s: %s" % (key, msg))
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))

    floor = plan.get("floor", 1) if not notes else 1
    if not violations and not errors and (evaluations < floor or nontrivial < 1):
        errors.append("the workload observed too little: %d evaluations, %d distinct" % (evaluations, nontrivial))

    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": nontrivial,
            "rule": plan["rule"],
            "samples": (samples + ["%s/%s %s" % (j["harness"], j["variant"], j["args"]) for j in jobs])[:10],
            "observed": dict(sorted(counters.items())),
            "distinct_observed": distinct,
            "processes": len(jobs),
            "builds": sorted("%s/%s" % w for w in wanted),
            "build_s": round(build_s, 1),
        },
        "assumptions": plan.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": violations,
    }
    if notes:
        evidence["coverage"]["notes"] = notes
    if errors:
        evidence["coverage"]["errors"] = [e[-500:] for e in errors]
    tmp = os.path.join(HERE, "evidence", prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1)
    os.rename(tmp, os.path.join(HERE, "evidence", prop + ".json"))

    for l in lines:
        print(l)
    if violations:
        return 1
    if errors:
        for e in errors:
            print("CHECK ERROR: " + e, file=sys.stderr)
        return 2
    print("%s: held on what was observed: %d evaluations, %d distinct, %.0f s" % (prop, evaluations, nontrivial, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except HarnessError as e:
        print("CHECK ERROR: %s" % e, file=sys.stderr)
        sys.exit(2)
    except SystemExit:
        raise
    except BaseException as e:  # a failure of the driver is never a verdict
        import traceback
        traceback.print_exc()
        sys.exit(2)
