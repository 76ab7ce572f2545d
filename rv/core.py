"""The runner: deterministic cases, forked workers, watchdogs, replays, evidence, exit codes.

A property module (rv/props/cNN.py) provides

    ID, RULE           the property id and, for the evidence, how cases are made / what is non-trivial
    COUNT              {"quick": n, "thorough": n} cases
    make(rng, i, tier) -> a case: plain JSON-able data
    run(case, obs)     execute the case against the real code, watching it.  Returns None when the
                       monitor had nothing to judge, or a hashable key of what it judged.
                       Raises Violation when the property is broken.
    fixed(tier)        optional: a list of hand-written cases, run before the random ones
    shrink(case, fails) optional
    KNOWN              optional: {finding id: probe() -> text or None}
    MIN                optional: the smallest number of judged cases that makes a run conclusive
    final(totals)      optional: a reason why the run is inconclusive, from the summed counters

Exit status: 0 held, 1 violation, 2 inconclusive (the monitor observed too little).
"""
import hashlib
import importlib
import json
import mmap
import os
import random
import resource
import select
import signal
import struct
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
CAP = {"quick": 150.0, "thorough": 420.0}  # seconds of exploration, far above the normal need on quick
CASE_TIMEOUT = {"quick": 20, "thorough": 40}


TRACE = os.environ.get("VERIF_TRACE")


class Violation(Exception):
    """the monitor saw the property broken. mech: a short stable name of what is wrong."""

    def __init__(self, mech, detail):
        Exception.__init__(self, "%s: %s" % (mech, detail))
        self.mech, self.detail = mech, detail


class Absent(Exception):
    """an internal name of simpy that a check looks at is not there (any more): nothing to judge"""


class Timeout(BaseException):
    pass


def absent(ex):
    """is this a check that asked a simpy module for a name it does not have?"""
    if isinstance(ex, Absent):
        return True
    if not isinstance(ex, AttributeError) or "module 'simpy" not in str(ex):
        return False
    tb = traceback.extract_tb(ex.__traceback__)
    return bool(tb) and os.path.abspath(tb[-1].filename).startswith(os.path.join(HERE, "rv"))


class Obs:
    """what one worker observed"""

    def __init__(self):
        self.c = {}

    def add(self, name, n=1):
        self.c[name] = self.c.get(name, 0) + n

    def max(self, name, v):
        if v > self.c.get(name, 0):
            self.c[name] = v


def module(pid):
    return importlib.import_module("rv.props." + pid.lower())


def rng_for(seed, pid, i):
    h = hashlib.sha256(("%s:%s:%s" % (seed, pid, i)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def _alarm(signum, frame):
    raise Timeout()


def crash(what, exc):
    """an exception that escaped from simpy, as a violation"""
    where = ""
    tb = exc.__traceback__
    for fr in traceback.extract_tb(tb):
        if "/simpy/" in fr.filename:
            where = "%s:%s" % (os.path.basename(fr.filename), fr.name)
    return Violation("raised", "%s raised %s: %s [%s]" % (what, type(exc).__name__, str(exc)[:300], where))


def place(exc):
    """where in simpy it was"""
    fs = [f for f in traceback.extract_tb(exc.__traceback__) if "/simpy/" in f.filename]
    return " [%s]" % " < ".join("%s:%s" % (os.path.basename(f.filename), f.name) for f in fs[:-6:-1]) if fs else ""


def run_case(mod, case, obs, timeout):
    """-> (status, key, mech, detail); status: ok / vacuous / timeout / violation"""
    t0 = time.process_time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(timeout)
    try:
        key = mod.run(case, obs)
        signal.alarm(0)
        return ("vacuous", None, None, None) if key is None else ("ok", key, None, None)
    except Violation as v:
        signal.alarm(0)
        return "violation", None, v.mech, v.detail
    except Timeout as ex:
        busy = time.process_time() - t0
        return "timeout", None, "hang" if busy > 0.3 * timeout else None, "no answer after %.0f s of computing%s" % (busy, place(ex))
    except MemoryError as ex:
        return "timeout", None, "hang", "no answer before the memory ran out" + place(ex)
    except Exception as ex:
        if absent(ex):
            signal.alarm(0)
            obs.add("skipped_absent_name")
            return "vacuous", None, None, None
        # simpy handed the monitor something it cannot even read
        signal.alarm(0)
        tb = traceback.extract_tb(ex.__traceback__)
        return "violation", None, "unreadable", "%s: %s [%s]" % (
            type(ex).__name__, str(ex)[:300], " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:]))
    finally:
        signal.alarm(0)


def _jsonable(o):
    return json.loads(json.dumps(o))


def all_fixed(mod, tier):
    return [_jsonable(c) for c in mod.fixed(tier)] if hasattr(mod, "fixed") else []


def worker(mod, tier, seed, w, fd, deadline, clock, skip):
    """clock: shared memory in which the parent can see which case is running since when.
    skip: how many of this worker's cases have been dealt with by a predecessor that had to be killed."""
    out = os.fdopen(fd, "w", buffering=1)

    def send(**kw):
        out.write(json.dumps(kw) + "\n")
        out.flush()

    obs = Obs()
    keys = set()
    n = 0
    counts = {"ok": 0, "vacuous": 0, "timeout": 0}
    samples = []
    total = mod.COUNT[tier]
    fixed = all_fixed(mod, tier)
    timeout = getattr(mod, "CASE_TIMEOUT", CASE_TIMEOUT)[tier]
    last = time.time()

    def report(done):
        send(t="stat", w=w, n=n, counts=counts, obs=obs.c, keys=len(keys), samples=samples[:3], done=done)

    def begin(pos):
        if pos >= skip:
            CLOCK.pack_into(clock, w * CLOCK.size, pos + 1, time.time())
        return pos >= skip

    def cases():
        pos = -1
        for j in range(w, len(fixed), WORKERS):
            pos += 1
            if begin(pos):
                yield "fixed-%d" % j, fixed[j]
        for i in range(w, total, WORKERS):
            pos += 1
            if not begin(pos):
                continue
            signal.signal(signal.SIGALRM, _alarm)
            signal.alarm(timeout)
            try:
                c = mod.make(rng_for(seed, mod.ID, i), i, tier)
            except Timeout:
                counts["timeout"] += 1
                continue
            finally:
                signal.alarm(0)
            yield i, _jsonable(c)

    hashes = []
    for i, case in cases():
        if time.time() > deadline:
            obs.add("stopped_by_time_cap")
            break
        # the code under test may draw random names: make that reproducible, but not the same for every case
        random.seed("%s:%s:%s" % (seed, mod.ID, i))
        if TRACE:
            with open("%s.%d" % (TRACE, w), "w") as f:
                f.write("%s %s" % (i, json.dumps(case)))
        st, key, mech, detail = run_case(mod, case, obs, timeout)
        n += 1
        if st == "violation":
            send(t="viol", i=str(i), case=case, mech=mech, detail=detail)
            report(False)
            continue
        counts[st] += 1
        if st == "timeout" and mech:
            send(t="hang", i=str(i), case=case, detail=detail)
            report(False)
        if st == "ok":
            h = hashlib.sha256(repr(key).encode()).hexdigest()[:16]
            if h not in keys:
                keys.add(h)
                hashes.append(h)
            if len(samples) < 3 and counts["ok"] % 7 == 1:
                samples.append(mod.describe(case) if hasattr(mod, "describe") else case)
        if time.time() - last > 1.0:
            last = time.time()
            send(t="keys", h=hashes)
            hashes = []
            report(False)
    send(t="keys", h=hashes)
    report(True)
    out.close()


CLOCK = struct.Struct("<qd")
RESPAWNS = 6
HANGS = {"quick": 5, "thorough": 15}


def confirmed(mod, hang, limit=60):
    """does the case not end in a minute of its own either?"""
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
        try:
            st, _, m, _ = run_case(mod, hang["case"], Obs(), limit)
            os._exit(7 if st == "timeout" and m else 0)
        except BaseException:
            os._exit(0)
    t0 = time.time()
    while time.time() < t0 + limit + 15:
        p, status = os.waitpid(pid, os.WNOHANG)
        if p:
            return os.WIFEXITED(status) and os.WEXITSTATUS(status) == 7
        time.sleep(0.2)
    os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    return False


def explore(mod, tier, seed):
    deadline = time.time() + float(os.environ.get("VERIF_CAP", CAP[tier]))
    clock = mmap.mmap(-1, CLOCK.size * WORKERS)
    kids = {}

    def spawn(w, skip):
        r, wr = os.pipe()
        sys.stdout.flush()
        CLOCK.pack_into(clock, w * CLOCK.size, skip, time.time())
        pid = os.fork()
        if pid == 0:
            os.close(r)
            code = 0
            resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
            try:
                worker(mod, tier, seed, w, wr, deadline, clock, skip)
            except BaseException:
                traceback.print_exc()
                code = 3
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
        os.close(wr)
        kids[r] = {"pid": pid, "buf": b"", "stat": None, "w": w}

    for w in range(WORKERS):
        spawn(w, 0)
    viols, keys, hangs = [], set(), []
    stats = []
    patience = getattr(mod, "CASE_TIMEOUT", CASE_TIMEOUT)[tier] + 10
    hard = deadline + 2 * CASE_TIMEOUT[tier]
    broken, lost, respawns = [], [], {}
    stop = False
    while kids:
        if time.time() > hard:
            stop = True
            lost.append("hard time limit")
        if stop:
            for k in kids.values():
                os.kill(k["pid"], signal.SIGKILL)
        else:
            for k in kids.values():
                pos, since = CLOCK.unpack_from(clock, k["w"] * CLOCK.size)
                if time.time() - since > patience and not k.get("killed"):
                    # stuck where no signal handler is run
                    k["killed"] = True
                    os.kill(k["pid"], signal.SIGKILL)
        ready, _, _ = select.select(list(kids), [], [], 1.0)
        for r in ready:
            data = os.read(r, 1 << 16)
            k = kids[r]
            if not data:
                del kids[r]
                os.close(r)
                _, status = os.waitpid(k["pid"], 0)
                if k["stat"]:
                    stats.append(k["stat"])
                if status and not stop:
                    pos, _ = CLOCK.unpack_from(clock, k["w"] * CLOCK.size)
                    lost.append("case %d of worker %d: %s" % (pos - 1, k["w"], "did not end" if k.get("killed") else "status %d" % status))
                    respawns[k["w"]] = respawns.get(k["w"], 0) + 1
                    if respawns[k["w"]] <= RESPAWNS:
                        spawn(k["w"], pos)
                    else:
                        broken.append("worker %d kept dying" % k["w"])
                continue
            k["buf"] += data
            while b"\n" in k["buf"]:
                line, k["buf"] = k["buf"].split(b"\n", 1)
                m = json.loads(line)
                if m["t"] == "viol":
                    viols.append(m)
                elif m["t"] == "hang":
                    hangs.append(m)
                elif m["t"] == "keys":
                    keys.update(m["h"])
                else:
                    k["stat"] = m
        if len(viols) >= 40:
            stop = True
        if len(hangs) >= HANGS[tier] and getattr(mod, "ENDS", True) and not viols:
            # one slow question may be too big; several are not
            viols += [dict(m, mech="does-not-end") for m in hangs]
            stop = True
    if hangs and not viols and getattr(mod, "PROMPT", False) and confirmed(mod, hangs[0]):
        viols.append(dict(hangs[0], mech="does-not-end"))
    tot = {"n": 0, "ok": 0, "vacuous": 0, "timeout": 0}
    obs, samples = {}, []
    for s in stats:
        tot["n"] += s["n"]
        for a in ("ok", "vacuous", "timeout"):
            tot[a] += s["counts"][a]
        for a, v in s["obs"].items():
            obs[a] = max(obs.get(a, 0), v) if a.startswith("max_") else obs.get(a, 0) + v
        samples += s["samples"][:1]
    if lost:
        obs["processes_killed_or_lost"] = len(lost)
        print("note: " + "; ".join(lost[:5]))
    tot["timeout"] += len(lost)
    return viols, tot, obs, keys, samples, broken


def known_findings():
    """{property: {finding id: line}} from the committed file; 'fixed:' lines suppress nothing"""
    res = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("finding: "):
                continue
            f = dict(p.split("=", 1) for p in line.split(" ")[1:3])
            res.setdefault(f["property"], {})[f["id"]] = line.split(" ", 3)[3]
    return res


def do_shrink(mod, case, mech, obs, timeout):
    t0 = time.time()

    def fails(c):
        if time.time() - t0 > 25:
            return False
        st, _, m, _ = run_case(mod, _jsonable(c), Obs(), min(timeout, 8))
        return st == "violation" and m == mech

    try:
        return _jsonable(mod.shrink(case, fails))
    except BaseException:
        return case


def main(argv):
    pid = argv[0].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    rest = argv[1:]
    while rest:
        a = rest.pop(0)
        if a == "--tier":
            tier = rest.pop(0)
        elif a == "--replay":
            replay = rest.pop(0)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    # The code must at least import.
    try:
        mod = module(pid)
    except Exception:
        traceback.print_exc()
        print("INCONCLUSIVE property=%s the code under test could not be loaded" % pid)
        return 2
    if replay:
        j = json.load(open(replay))
        random.seed(j.get("random_seed", "1"))
        st, key, mech, detail = run_case(mod, j["case"], Obs(), 120)
        print(st, mech or "", detail or "")
        if st == "violation" or st == "timeout" and j["mechanism"] == "does-not-end":
            print("VIOLATION property=%s replay=%s" % (pid, replay))
            return 1
        return 0

    # 1. probes of the listed findings
    listed = known_findings().get(pid, {})
    for fid, probe in getattr(mod, "KNOWN", {}).items():
        if fid not in listed:
            continue
        try:
            text = probe()
        except Exception as ex:
            text = "probe raised %s: %s" % (type(ex).__name__, ex)
        if text:
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, fid, listed[fid]))
        else:
            print("note: listed finding %s of %s was not observed on this tree" % (fid, pid))

    # 2. exploration
    viols, tot, obs, keys, samples, broken = explore(mod, tier, seed)

    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    coverage = {
        "evaluations": tot["n"],
        "distinct_nontrivial": len(keys),
        "rule": mod.RULE,
        "samples": samples[:6] or ["none"],
        "judged": tot["ok"],
        "nothing_to_judge": tot["vacuous"],
        "timed_out": tot["timeout"],
        "observed": dict(sorted(obs.items())),
    }
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
        "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2),
        "violations": len(viols),
    }

    code = 0
    if viols:
        code = 1
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        done = {}
        viols.sort(key=lambda v: len(json.dumps(v["case"])))
        for v in viols:
            done.setdefault(v["mech"], []).append(v)
        for mech, vs in list(done.items())[:4]:
            v = vs[0]
            case, detail = v["case"], v["detail"]
            rs = "%s:%s:%s" % (seed, pid, v["i"])
            if hasattr(mod, "shrink") and mech != "does-not-end" and not os.environ.get("VERIF_NOSHRINK"):
                random.seed(rs)
                small = do_shrink(mod, case, mech, Obs(), 20)
                if small != case:
                    random.seed(rs)
                    st, _, m, d = run_case(mod, small, Obs(), 30)
                    if st == "violation" and m == mech:
                        case, detail = small, d
            name = "%s-%s.json" % (pid, hashlib.sha256(json.dumps([case, mech]).encode()).hexdigest()[:10])
            path = os.path.join(HERE, "replays", name)
            with open(path, "w") as f:
                json.dump({"property": pid, "mechanism": mech, "detail": detail, "case": case, "index": v["i"],
                           "random_seed": rs, "seed": seed, "tier": tier}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  mechanism %s (%d of %d violations): %s" % (mech, len(vs), len(viols), detail))
    else:
        need = getattr(mod, "MIN", {"quick": 20, "thorough": 20})[tier]
        why = None
        if broken:
            why = "; ".join(broken)
        elif tot["ok"] < need:
            why = "only %d cases gave the monitor something to judge, %d are needed" % (tot["ok"], need)
        elif hasattr(mod, "final"):
            why = mod.final(tot, obs)
        if why:
            code = 2
            print("INCONCLUSIVE property=%s %s" % (pid, why))
    ev["wall_s"] = round(time.time() - t0, 2)
    tmp = os.path.join(HERE, "evidence", pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", pid + ".json"))
    print("%s %s seed=%d: %d cases, %d judged, %d distinct, %d timed out, %.1f s -> exit %d"
          % (pid, tier, seed, tot["n"], tot["ok"], len(keys), tot["timeout"], ev["wall_s"], code))
    return code
