#!/usr/bin/env python3
"""check.py PROPERTY | --replay FILE | --setup | --determinism

Builds the simulator from /repo's working tree, searches simulated executions of one property for a
violation, confirms and minimises what it finds, and writes evidence/PROPERTY.json."""
import array, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B

HDR, WMAX, SMAX = 16, 1 << 14, 1 << 18
CORES = min(8, os.cpu_count() or 1)
T0 = time.time()


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def wenv(scratch):
    env = {k: v for k, v in os.environ.items() if not k.startswith("GO")}
    env.update(GOMAXPROCS="1", GODEBUG="asyncpreemptoff=1", GOGC="off", GOTRACEBACK="all", TMPDIR=scratch,
               GORACE="exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=2")
    return env


def shm_read(path):
    b = open(path, "rb").read()
    h = struct.unpack("<%dQ" % HDR, b[:HDR * 8])
    w = array.array("I", b[HDR * 8:HDR * 8 + WMAX * 4])
    s = array.array("I", b[HDR * 8 + WMAX * 4:HDR * 8 + WMAX * 4 + SMAX * 4])
    return h, list(w[1:1 + w[0]]), list(s[1:1 + s[0]])


def crash_line(err):
    """The line that says why a process died, normalised; None when it did not die of the code under test."""
    for l in err.splitlines():
        if l.startswith("panic: ") or l.startswith("fatal error: "):
            l = re.sub(r"0x[0-9a-f]+", "0x", l)
            l = re.sub(r"goroutine \d+", "goroutine", l)
            return re.sub(r"\d+", "N", l)[:200]
    return None


def race_head(err):
    i = err.find("WARNING: DATA RACE")
    if i < 0:
        return ""
    return err[i:].split("==================")[0]


def tail(path, n=200000):
    try:
        with open(path, "rb") as f:
            b = f.read(n)
        return b.decode("utf8", "replace")
    except OSError:
        return ""


class Sim:
    def __init__(self, scratch, exe, sites):
        self.scratch, self.exe = scratch, exe
        self.sites = [l.strip() for l in open(sites)]
        self.n = 0
        out = subprocess.run([exe, "-list"], env=wenv(scratch), stdout=subprocess.PIPE, text=True)
        if out.returncode != 0:
            die("the simulator does not start")
        self.scen = [l.split() for l in out.stdout.splitlines()]

    def sequence(self, c, first, timeout=300):
        """Runs the executions from index first up to the candidate's in one fresh process; returns like replay."""
        q = c["sequence"]
        d = tempfile.mkdtemp(dir=self.scratch)
        errf, outf, shm = os.path.join(d, "err"), os.path.join(d, "out"), os.path.join(d, "shm")
        n = (c["k"] - first) // q["step"] + 1
        try:
            with open(errf, "w") as e:
                p = subprocess.run([self.exe, "-prop", q["prop"], "-seed", str(c["seed"]), "-from", str(first), "-step", str(q["step"]), "-count", str(n),
                                    "-out", outf, "-shm", shm] + KNOWN, env=wenv(d), stdout=e, stderr=e, timeout=timeout, cwd=d)
            err = tail(errf)
            if p.returncode in (0, 3, 10):
                v = json.load(open(outf))["violation"] or {"class": "", "msg": "", "k": -1}
                if v["class"] and v["k"] != c["k"]:
                    return "", "", None, {}
                return v["class"], race_head(err) if v["class"] == "race" else v["msg"], v.get("trace"), v
            h, w, s = shm_read(shm)
            raw = {"w": w, "s": s}
            if h[1] != c["k"]:
                return "", "", None, raw
            if p.returncode == 12:
                return "runaway", "the run exceeded its step bound (a loop that makes no progress)", None, raw
            t = crash_line(err)
            if t and h[0] in (1, 5):
                return "crash", t + "\n" + stack(err), None, raw
            return "error", "exit %d: %s" % (p.returncode, err[-2000:]), None, raw
        except subprocess.TimeoutExpired:
            return "error", "timeout", None, {}
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def clock(self, cand):
        """Whether a violation needs the wall clock's faults: scenarios run under those must not report what happens without them, too."""
        return not cand["scenario"].startswith("wall-") or self.replay(cand, flags=["-steady"])[0] == ""

    def replay(self, cand, timeout=60, flags=[]):
        """Runs one candidate in a fresh process; returns (class, message, trace, raw)."""
        self.n += 1
        if cand.get("sequence", {}).get("needed"):
            return self.sequence(cand, cand["sequence"]["from"])
        d = tempfile.mkdtemp(dir=self.scratch)
        f = os.path.join(d, "c.json")
        json.dump(cand, open(f, "w"))
        errf = os.path.join(d, "err")
        outf = os.path.join(d, "out")
        shm = os.path.join(d, "shm")
        try:
            with open(errf, "w") as e:
                p = subprocess.run([self.exe, "-replay", f, "-out", outf, "-shm", shm] + flags, env=wenv(d), stdout=e, stderr=e, timeout=timeout, cwd=d)
            err = tail(errf)
            if p.returncode in (0, 10):
                r = json.load(open(outf))
                cls, msg = r["class"], r["msg"]
                if cls == "race":
                    msg = race_head(err)
                return cls, msg, r.get("trace"), r
            h, w, s = shm_read(shm)
            raw = {"w": w, "s": s, "hash": 0}
            if p.returncode == 12:
                return "runaway", "the run exceeded its step bound (a loop that makes no progress)", None, raw
            c = crash_line(err)
            if c and h[0] in (1, 5):
                return "crash", c + "\n" + stack(err), None, raw
            return "error", "exit %d: %s" % (p.returncode, err[-2000:]), None, raw
        except subprocess.TimeoutExpired:
            return "error", "timeout", None, {"w": [], "s": []}
        finally:
            shutil.rmtree(d, ignore_errors=True)


def stack(err):
    i = max(err.find("panic: "), 0) or max(err.find("fatal error: "), 0)
    return "\n".join(err[i:].splitlines()[:40])


def search(sim, prop, seed, budget_s, hang_s=90):
    """Returns (candidate or None, totals, samples, hashes, processes)."""
    stop = time.time() + budget_s
    totals, samples, hashes = {}, [], set()
    cand = []
    errors = []
    procs = []
    nproc = [0]

    def merge(o):
        for k, v in o["totals"].items():
            if isinstance(v, dict):
                d = totals.setdefault(k, {})
                for a, b in v.items():
                    d[a] = d.get(a, 0) + b
            elif isinstance(v, list):
                d = totals.setdefault(k, [0] * len(v))
                totals[k] = [a + b for a, b in zip(d, v)]
            elif k == "MaxRunnable":
                totals[k] = max(totals.get(k, 0), v)
            else:
                totals[k] = totals.get(k, 0) + v

    def report(c):
        if sim.clock(c):
            cand.append(c)
        else:
            totals["SteadyToo"] = totals.get("SteadyToo", 0) + 1

    def worker(i):
        k = i
        while time.time() < stop and not cand and not errors:
            first = k
            d = tempfile.mkdtemp(dir=sim.scratch)
            shm, outf, errf, hf = (os.path.join(d, x) for x in ("shm", "out", "err", "hash"))
            left = max(50, int((stop - time.time()) * 1000))
            with open(errf, "w") as e:
                p = subprocess.Popen([sim.exe, "-prop", prop, "-seed", str(seed), "-from", str(k), "-step", str(CORES), "-budget", str(left),
                                      "-shm", shm, "-out", outf, "-hashes", hf] + KNOWN + ["-samples", "2" if k == i and i == 0 else "0"],
                                     env=wenv(d), stdout=e, stderr=e, cwd=d)
            nproc[0] += 1
            procs.append(p)
            beat, since = None, time.time()
            while p.poll() is None:
                time.sleep(0.02)
                if cand or errors:
                    p.kill()
                    p.wait()
                    shutil.rmtree(d, ignore_errors=True)
                    return
                try:
                    with open(shm, "rb") as f:
                        b = f.read(32)
                except OSError:
                    b = b""
                if b != beat:
                    beat, since = b, time.time()
                elif time.time() - since > hang_s:
                    p.kill()
                    p.wait()
                    errors.append("no progress in run %d for %d s" % (struct.unpack("<4Q", b)[1] if len(b) == 32 else -1, hang_s))
            err = tail(errf)
            rc = p.returncode
            if rc in (0, 3, 10) and os.path.exists(outf):
                o = json.load(open(outf))
                merge(o)
                samples.extend(o["samples"] or [])
                if os.path.exists(hf):
                    a = array.array("Q")
                    a.frombytes(open(hf, "rb").read())
                    hashes.update(a)
                if rc == 10:
                    v = o["violation"]
                    report({"scenario": v["scenario"], "k": v["k"], "seed": seed, "w": v.get("w") or [], "s": v.get("s") or [], "class": v["class"], "msg": v["msg"] if v["class"] != "race" else race_head(err),
                                 "sequence": {"prop": prop, "from": first, "step": CORES}})
                k = o["next"]
                if rc == 0:
                    shutil.rmtree(d, ignore_errors=True)
                    return
            elif not errors:
                try:
                    h, w, s = shm_read(shm)
                except Exception:
                    h = [0] * HDR
                c = crash_line(err)
                if rc == 12 or (h[0] in (1, 5) and c):
                    k = h[1] + CORES
                    report({"scenario": sim.scen[h[2]][1], "k": h[1], "seed": seed, "w": w, "s": s, "class": "runaway" if rc == 12 else "crash", "msg": c or "step bound exceeded",
                                 "sequence": {"prop": prop, "from": first, "step": CORES}})
                else:
                    errors.append("worker ended with %s: %s" % (rc, err[-3000:]))
            shutil.rmtree(d, ignore_errors=True)

    with ThreadPoolExecutor(CORES) as ex:
        list(ex.map(worker, range(CORES)))
    if errors:
        die(errors[0])
    return (min(cand, key=lambda c: c["k"]) if cand else None), totals, samples, hashes, nproc[0]


def shorten(sim, cand, seconds):
    """Drops the executions at the front of a sequence that the violation does not need."""
    end, tries = time.time() + seconds, 0
    best = dict(cand, sequence=dict(cand["sequence"]))
    q = best["sequence"]
    n = 2
    while time.time() < end:
        first = max(q["from"], cand["k"] - (n - 1) * q["step"])
        if first <= q["from"]:
            break
        tries += 1
        if sim.sequence(best, first)[0] == cand["class"]:
            q["from"] = first
            break
        n *= 2
    return best, tries


def minimise(sim, prop, cand, seconds):
    """Shrinks the two decision logs while the same class of violation remains."""
    end = time.time() + seconds
    best = dict(cand)
    tries = [0]

    def ok(c):
        tries[0] += 1
        cls, msg, tr, raw = sim.replay(c)
        if cls == best["class"] and sim.clock(c):
            n = dict(c)
            # what was really consumed
            n["w"], n["s"] = raw.get("w") or c["w"], raw.get("s") or c["s"]
            n["w"], n["s"] = n["w"][:len(c["w"])], n["s"][:len(c["s"])]
            return n
        return None

    def strip(l):
        while l and l[-1] == 0:
            l = l[:-1]
        return l

    def variants(key):
        l = best[key]
        n = len(l)
        cut = n // 2
        seen = set()
        while cut >= 1:
            c = n - cut
            if c not in seen:
                seen.add(c)
                yield l[:c]
            cut //= 2
        size = max(1, n // 2)
        while size >= 1:
            for i in range(0, n, size):
                seg = l[i:i + size]
                if any(seg):
                    yield l[:i] + [0] * len(seg) + l[i + size:]
                yield l[:i] + l[i + size:]
            if size == 1:
                break
            size //= 2
        for i in range(n):
            if l[i] > 1:
                yield l[:i] + [1] + l[i + 1:]
                yield l[:i] + [l[i] // 2] + l[i + 1:]

    def cost(c):
        return (len(c["w"]) + len(c["s"]), sum(1 for x in c["s"] if x), sum(c["w"]) + sum(c["s"]))

    for key in ("w", "s"):
        best[key] = strip(best[key])
    with ThreadPoolExecutor(CORES) as ex:
        progress = True
        while progress and time.time() < end:
            progress = False
            for key in ("w", "s"):
                again = True
                while again and time.time() < end:
                    again = False
                    it = variants(key)
                    while time.time() < end and not again:
                        batch = []
                        for v in it:
                            c = dict(best)
                            c[key] = strip(v)
                            if cost(c) < cost(best):
                                batch.append(c)
                            if len(batch) == CORES * 2:
                                break
                        if not batch:
                            break
                        good = [n for n in ex.map(ok, batch) if n]
                        for n in good:
                            n["w"], n["s"] = strip(n["w"]), strip(n["s"])
                        good = [n for n in good if cost(n) < cost(best)]
                        if good:
                            best = min(good, key=cost)
                            again = progress = True
    return best, tries[0]


KNOWN_FILE = os.path.join(VERIF, "known-findings.txt")
KNOWN = ["-known", KNOWN_FILE] if os.path.exists(KNOWN_FILE) else []


def with_build(fn):
    base = os.environ.get("AXSIM_TMP") or tempfile.gettempdir()
    scratch = tempfile.mkdtemp(prefix="axsim.", dir=base)
    # a signal must not leave the scratch directory behind
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    try:
        try:
            exe, sites, mode = B.build(scratch)
        except B.BuildError as e:
            die(str(e))
        # only the program is needed from here on
        for d in ("gocache", "std", "hsrc"):
            shutil.rmtree(os.path.join(scratch, d), ignore_errors=True)
        return fn(Sim(scratch, exe, sites), mode)
    finally:
        subprocess.run(["chmod", "-R", "u+w", scratch], stderr=subprocess.DEVNULL)
        shutil.rmtree(scratch, ignore_errors=True)


FAULTS = None


def check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    budget = float(os.environ.get("AXSIM_BUDGET") or (25 if tier == "quick" else 600))

    def go(sim, mode):
        tb = time.time()
        cand, totals, samples, hashes, nproc = search(sim, prop, seed, budget)
        searched = time.time() - tb
        for what, n in sorted(totals.get("Known", {}).items()):
            print("KNOWN-FINDING: property=%s %s (met in %d runs)" % (prop, what, n))
        rc, violations, note = 0, 0, None
        if cand:
            got = sim.replay(cand)
            if got[0] == cand["class"]:
                best, tries = minimise(sim, prop, cand, float(os.environ.get("AXSIM_MINIMISE") or (20 if tier == "quick" else 120)))
            else:
                # it needs what earlier executions left behind in the process: the replay is the sequence of executions
                alone = got
                cand["sequence"]["needed"] = True
                got = sim.replay(cand)
                if got[0] != cand["class"]:
                    die("run %d (%s): %s in the search, %s in a fresh process, %s after the runs before it\n%s\n%s" % (
                        cand["k"], cand["scenario"], cand["class"], alone[0] or "nothing", got[0] or "nothing", cand["msg"], alone[1]))
                best, tries = shorten(sim, cand, 20 if tier == "quick" else 120)
            cls, msg, trace, raw = sim.replay(best)
            if cls != cand["class"]:
                best = cand
                cls, msg, trace, raw = sim.replay(cand)
            best = dict(best, property=prop, msg=msg, trace=trace, minimised_from={"w": len(cand["w"]), "s": len(cand["s"])}, attempts=tries)
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-%d-%d.json" % (prop, seed, cand["k"]))
            json.dump(best, open(path, "w"), indent=1)
            print("%s: %s in scenario %s, seed %d run %d" % (prop, cls, best["scenario"], seed, cand["k"]))
            print(msg)
            for l in trace or []:
                print("  " + l)
            print("decisions: workload %d -> %d, schedule %d -> %d (%d attempts)" % (len(cand["w"]), len(best["w"]), len(cand["s"]), len(best["s"]), tries))
            print("replay with: %s/check.sh --replay %s" % (VERIF, path))
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
            rc, violations = 1, 1
        evidence(prop, tier, seed, sim, mode, totals, samples, hashes, nproc, searched, violations)
        return rc

    return with_build(go)


def evidence(prop, tier, seed, sim, mode, t, samples, hashes, nproc, searched, violations):
    from props import FAULT_NAMES
    runs = t.get("Runs", 0)
    faults = {n: c for n, c in zip(FAULT_NAMES, t.get("Faults", [])) if c}
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(hashes),
        "rule": "One evaluation is one simulated execution: workload, configuration, faults, clock and every scheduling decision drawn from one seed (VERIF_SEED, run index). "
                "Non-trivial: at least one scheduling decision had more than one runnable goroutine, or a fault fired. Distinct: by a hash over the sequence of (goroutine, code position) scheduled and all operations with their results.",
        "runs_per_hour": int(runs / max(searched, 0.001) * 3600),
        "simulated_seconds": round(t.get("SimNanos", 0) / 1e9, 3),
        "scheduling_choices": t.get("Choices", 0),
        "preemptions": t.get("Preempts", 0),
        "select_order_choices": t.get("Selects", 0),
        "scheduling_points_passed": t.get("Yields", 0),
        "goroutines_started": t.get("Goroutines", 0),
        "max_runnable": t.get("MaxRunnable", 0),
        "clock_jumps_to_next_timer": t.get("Jumps", 0),
        "operations_recorded": t.get("Ops", 0),
        "faults_fired": faults,
        "stall_seconds": round(t.get("StallNanos", 0) / 1e9, 3),
        "runs_per_scenario": t.get("PerScenario", {}),
        "probes_hit": dict(sorted(t.get("Probes", {}).items())),
        "history_overflows": t.get("Overflow", 0),
        "decision_log_overflows": t.get("LogOverflow", 0),
        "worker_processes": nproc,
        "failed_without_clock_faults_too": t.get("SteadyToo", 0),
        "instrumentation_points": len(sim.sites),
        "instrumentation": mode,
        "race_detector": "on",
        "real_components": "all of axutils from /repo's working tree, the Go runtime's goroutines, channels, select, timers, maps and locks, context, sync, os, crypto and compress",
        "stubbed_components": "clock (virtual), choice of the next goroutine and of select's case order, runtime random source, and, where the property has them, disk errors (at the system call layer), network connections and callbacks",
        "samples": samples[:2],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["scheduling points are before every statement of axutils and at every blocking operation; single statements are atomic, apart from what the race detector sees",
                          "memory is sequentially consistent (GOMAXPROCS=1); the race detector stands in for the rest",
                          "the Go standard library is right"],
          "wall_s": round(time.time() - T0, 2), "violations": violations}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % prop)
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(d, prop + ".json"))
    print("%s: %d runs, %d distinct interleavings, %.1f simulated s, faults %s, %.1f s" % (prop, runs, len(hashes), t.get("SimNanos", 0) / 1e9, faults, time.time() - T0))


def replay(path):
    c = json.load(open(path))

    def go(sim, mode):
        cls, msg, trace, raw = sim.replay(c)
        print("%s: %s\n%s" % (c["scenario"], cls or "no violation", msg))
        for l in trace or []:
            print("  " + l)
        if cls == "error":
            return 2
        if cls:
            print("VIOLATION property=%s replay=%s" % (c.get("property", "?"), path))
            return 1
        return 0

    return with_build(go)


def determinism():
    """The same seeds give the same executions: one process against eight, and once more."""

    def go(sim, mode):
        bad = 0

        def hashes(prop, first, step, count):
            out = []
            k, end = first, first + step * count
            while k < end:
                d = tempfile.mkdtemp(dir=sim.scratch)
                p = subprocess.run([sim.exe, "-prop", prop, "-seed", "1", "-from", str(k), "-step", str(step), "-count", str((end - k + step - 1) // step), "-out", d + "/out", "-hashes", d + "/h"] + KNOWN,
                                   env=wenv(d), cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if p.returncode not in (0, 3):
                    die("%s: worker ended with %d" % (prop, p.returncode))
                k = json.load(open(d + "/out"))["next"]
                a = array.array("Q")
                a.frombytes(open(d + "/h", "rb").read())
                out += a
                shutil.rmtree(d, ignore_errors=True)
            return sorted(out)

        props = sorted(set(s[0] for s in sim.scen))
        n = int(os.environ.get("AXSIM_RUNS") or 800) // 8 * 8
        with ThreadPoolExecutor(CORES) as ex:
            for p in props:
                one = ex.submit(hashes, p, 0, 1, n)
                eight = [ex.submit(hashes, p, i, 8, n // 8) for i in range(8)]
                a, b = one.result(), sorted(x for f in eight for x in f.result())
                print("%s: %d contended executions of %d, %s" % (p, len(a), n, "identical" if a == b else "DIFFERENT"), flush=True)
                bad += a != b
        return 1 if bad else 0

    return with_build(go)


def main():
    a = sys.argv[1:]
    if not a:
        die(__doc__)
    if a[0] == "--replay":
        return replay(os.path.abspath(a[1]))
    if a[0] == "--determinism":
        return determinism()
    if a[0] == "--setup":
        return with_build(lambda sim, mode: print("simulator builds: %d scenarios, %d scheduling points" % (len(sim.scen), len(sim.sites))) or 0)
    return check(a[0])


if __name__ == "__main__":
    sys.exit(main())
