"""Decision tape, run context, search driver, minimiser, replay and evidence for the Python part of the simulator.

One run is decided by its tape alone: every choice (problem data, reply, schedule turn, budget, fault point) is drawn
from Tape.pick; generation mode draws from a splitmix64 stream seeded by (VERIF_SEED, property, run index), replay mode
reads a recorded tape (missing entries are option 0, the plainest choice)."""
import hashlib
import json
import os
import signal
import struct
import sys
import threading
import time

M64 = (1 << 64) - 1
WORKERS = 8
HANG_CPU = 60  # CPU seconds one run may use before it counts as a hang (ordinary runs take milliseconds)


def mix(*parts):
    h = hashlib.blake2b(digest_size=8)
    for p in parts:
        h.update(repr(p).encode())
        h.update(b"|")
    return int.from_bytes(h.digest(), "little")


class Tape:
    def __init__(self, seed=None, replay=None):
        self.s = seed
        self.replay = replay
        self.rec = []

    def pick(self, n):
        if self.replay is not None:
            i = len(self.rec)
            v = self.replay[i] % n if i < len(self.replay) else 0
        else:
            self.s = (self.s + 0x9E3779B97F4A7C15) & M64
            z = self.s
            z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M64
            z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M64
            v = (z ^ (z >> 31)) % n
        self.rec.append(v)
        return v


class Violation(Exception):
    pass


class Hang(BaseException):
    pass


class Ctx:
    """state of one simulated run"""

    def __init__(self, tape, log, deep):
        self.tape = tape
        self.deep = deep
        self.want_log = log
        self.log = []
        self.bad = None
        self.steps = 0
        self.checks = 0
        self.faults = {}
        self.cover = {}
        self.nontrivial = False
        self.hist = hashlib.blake2b(digest_size=8)

    # decisions
    def pick(self, n):
        return self.tape.pick(n)

    def rare(self, n):
        """true once in n; false is option 0"""
        return self.tape.pick(n) == n - 1

    def of(self, seq):
        return seq[self.tape.pick(len(seq))]

    def real(self, lo, hi):
        """coarse or fine real number in [lo, hi]; option 0 is lo"""
        return lo + (hi - lo) * (self.tape.pick(1 << 30) / float((1 << 30) - 1))

    def signed(self):
        """a number of moderate size with either sign, sometimes exact"""
        k = self.tape.pick(4)
        if k == 0:
            return float(self.tape.pick(9) - 4)
        return self.real(-1.0, 1.0) * (1.0, 10.0, 0.1)[k - 1]

    # records
    def ev(self, f):
        """event line; f is a string or a function building one"""
        if self.want_log:
            self.log.append(f if isinstance(f, str) else f())

    def note(self, *p):
        self.hist.update(repr(p).encode())

    def fault(self, k, n=1):
        self.faults[k] = self.faults.get(k, 0) + n

    def reach(self, k, n=1):
        self.cover[k] = self.cover.get(k, 0) + n

    def check(self, ok, msg):
        self.checks += 1
        if not ok:
            m = msg() if callable(msg) else msg
            if self.bad is None:
                self.bad = m
            raise Violation(m)


class Injected(Exception):
    """an ordinary failure of user code"""


class InjectedStop(StopIteration):
    """user code lets a StopIteration escape"""


class Interrupted(BaseException):
    """the user interrupts the search (like KeyboardInterrupt)"""


INJECT = (Injected, ArithmeticError, InjectedStop, Interrupted, KeyError)


class Sched:
    """runs several jobs on real threads, one at a time; the tape decides who runs after every switch point"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.live = []
        self.cur = None
        self.active = False

    def point(self):
        if not self.active or threading.current_thread() is not self.cur.thread:
            return
        c = self.cur
        if len(self.live) > 1 and self.ctx.pick(3) != 0:
            n = self.live[self.ctx.pick(len(self.live))]
            if n is not c:
                self.ctx.reach("switched between sessions in a callback")
                self.cur = n
                n.sem.release()
                c.sem.acquire()

    def run(self, jobs):
        """jobs: functions; runs all to completion"""
        done = threading.Semaphore(0)

        class Job:
            pass

        for f in jobs:
            j = Job()
            j.sem = threading.Semaphore(0)

            def body(j=j, f=f):
                j.sem.acquire()
                try:
                    f()
                except Violation:
                    pass
                except BaseException as e:  # noqa: B902 - anything that escapes a job is reported
                    if self.ctx.bad is None:
                        self.ctx.bad = f"unexpected {type(e).__name__} in the harness: {e}"
                self.live.remove(j)
                if self.live:
                    self.cur = self.live[self.ctx.pick(len(self.live))]
                    self.cur.sem.release()
                else:
                    done.release()

            j.thread = threading.Thread(target=body, daemon=True)
            self.live.append(j)
        for j in self.live:
            j.thread.start()
        self.active = True
        self.cur = self.live[self.ctx.pick(len(self.live))]
        self.cur.sem.release()
        done.acquire()
        self.active = False


# ---------------------------------------------------------------- one run

def execute(prop, tape, log, deep):
    ctx = Ctx(tape, log, deep)
    try:
        prop["run"](ctx)
    except Violation:
        pass
    except Hang:
        ctx.bad = ctx.bad or f"no answer after {HANG_CPU} CPU seconds"
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        ctx.bad = ctx.bad or f"unexpected {type(e).__name__}: {e} at {os.path.basename(tb.filename)}:{tb.name}"
    return ctx, ctx.bad


def on_alarm(_s, _f):
    raise Hang()


def worker(prop, tier, seed, shard, total, out):
    signal.signal(signal.SIGVTALRM, on_alarm)
    deep = tier == "thorough"
    R = dict(runs=0, steps=0, checks=0, nontriv=0, decisions=0, faults={}, cover={}, samples=[], viol=None)
    hashes = set()
    idx = shard
    while idx < total:
        want = shard == 0 and len(R["samples"]) < 2
        signal.setitimer(signal.ITIMER_VIRTUAL, HANG_CPU)
        ctx, bad = execute(prop, Tape(mix(seed, prop["id"], idx)), want, deep)
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        R["runs"] += 1
        R["steps"] += ctx.steps
        R["checks"] += ctx.checks
        R["decisions"] += len(ctx.tape.rec)
        for a, b in ((R["faults"], ctx.faults), (R["cover"], ctx.cover)):
            for k, n in b.items():
                a[k] = a.get(k, 0) + n
        if ctx.nontrivial:
            R["nontriv"] += 1
            hashes.add(ctx.hist.digest())
        if want and ctx.nontrivial:
            l = ctx.log[:14] + ([f"... {len(ctx.log) - 14} more events"] if len(ctx.log) > 14 else [])
            R["samples"].append(f"run {idx}: " + " | ".join(l))
        if bad:
            R["viol"] = (idx, bad, ctx.tape.rec)
            break
        idx += WORKERS
    R["hashes"] = [h.hex() for h in hashes]
    with open(out, "w") as f:
        json.dump(R, f)


def fork_run(fn, cpu):
    """fn in a child process; returns its JSON value, or None if it died or ran out of time"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            v = json.dumps(fn()).encode()
            with os.fdopen(w, "wb") as f:
                f.write(v)
            os._exit(0)
        except BaseException:
            os._exit(1)
    os.close(w)
    data = b""
    end = time.time() + cpu
    import select
    while True:
        left = end - time.time()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            break
        if select.select([r], [], [], left)[0]:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return json.loads(data)
    except ValueError:
        return None


def try_tape(prop, tape, deep, log=False):
    def f():
        ctx, bad = execute(prop, Tape(replay=tape), log, deep)
        return [bad, ctx.tape.rec, ctx.log]
    r = fork_run(f, 20)
    return r if r else ["no answer (hang or crash)", tape, []]


def minimise(prop, tape, deep):
    best = list(tape)
    tries = 0
    end = time.time() + 90
    size = max(1, len(best) // 2)
    while size >= 1 and tries < 200 and time.time() < end:
        i = 0
        while i < len(best) and tries < 200 and time.time() < end:
            cand = best[:i] + best[i + size:]
            tries += 1
            if try_tape(prop, cand, deep)[0]:
                best = cand
            else:
                i += size
        size //= 2
    i = 0
    while i < len(best) and tries < 300 and time.time() < end:
        if best[i]:
            cand = best[:i] + [0] + best[i + 1:]
            tries += 1
            if try_tape(prop, cand, deep)[0]:
                best = cand
        i += 1
    return best


def check(prop, tier, seed, home):
    t0 = time.time()
    total = int(os.environ.get("PYSIM_RUNS") or prop["runs"][tier])
    tmp = os.path.join(home, "replays", f".py-{prop['id']}-{os.getpid()}")
    os.makedirs(tmp, exist_ok=True)
    pids = []
    for k in range(WORKERS):
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                worker(prop, tier, seed, k, total, f"{tmp}/{k}")
                os._exit(0)
            except BaseException:
                import traceback
                traceback.print_exc()
                os._exit(1)
        pids.append(pid)
    for p in pids:
        os.waitpid(p, 0)
    parts = []
    broken = False
    for k in range(WORKERS):
        try:
            with open(f"{tmp}/{k}") as f:
                parts.append(json.load(f))
            os.remove(f"{tmp}/{k}")
        except (OSError, ValueError):
            broken = True
    os.rmdir(tmp)
    if broken:
        print("a worker process of the simulator died", file=sys.stderr)
        return 2
    S = {k: sum(p[k] for p in parts) for k in ("runs", "steps", "checks", "nontriv", "decisions")}
    F, C = {}, {}
    for p in parts:
        for a, b in ((F, p["faults"]), (C, p["cover"])):
            for k, n in b.items():
                a[k] = a.get(k, 0) + n
    distinct = len({h for p in parts for h in p["hashes"]})
    viols = sorted(p["viol"] for p in parts if p["viol"])
    wall = time.time() - t0
    rc = 0
    if viols:
        rc = 1
        idx, msg, tape = viols[0]
        deep = tier == "thorough"
        small = tape if msg.startswith("no answer") else minimise(prop, tape, deep)
        m2, rec, log = try_tape(prop, small, deep, True)
        if not m2:
            m2, rec, log = msg, tape, []
        path = os.path.join(home, "replays", f"{prop['id']}-s{seed}-r{idx}.json")
        with open(path, "w") as f:
            json.dump({"property": prop["id"], "seed": seed, "run": idx, "deep": deep, "violation": m2, "tape": rec, "trace": log}, f, indent=1)
        print(m2)
        for l in log[-12:]:
            print("  " + l)
        print(f"VIOLATION property={prop['id']} replay={path}")
    ev = {
        "property": prop["id"], "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": S["runs"], "distinct_nontrivial": distinct, "rule": prop["rule"], "nontrivial_runs": S["nontriv"],
            "runs_per_hour": int(S["runs"] / max(wall, 1e-3) * 3600), "simulated_steps": S["steps"],
            "simulated_time_note": "the system has no clock; simulated time is counted in steps (one step = one cut, oracle query or probe)",
            "decisions_drawn": S["decisions"], "assertions_checked": S["checks"], "faults_injected": F, "situations_reached": C,
            "distinct_histories_measure": prop["measure"], "real_components": prop["real"], "stub_components": prop["stub"],
            "samples": [s for p in parts for s in p["samples"]],
        },
        "assumptions": prop["assumptions"], "wall_s": round(wall, 3), "violations": len(viols),
    }
    os.makedirs(os.path.join(home, "evidence"), exist_ok=True)
    with open(os.path.join(home, "evidence", prop["id"] + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if not rc:
        print(f"{prop['id']}: held on {S['runs']} runs ({distinct} distinct histories, {S['checks']} assertions) in {wall:.1f} s")
    return rc


def replay(props, path):
    with open(path) as f:
        r = json.load(f)
    ctx, bad = execute(props[r["property"]], Tape(replay=r["tape"]), True, r["deep"])
    for l in ctx.log:
        print("  " + l)
    print(bad or "the property held")
    if bad:
        print(f"VIOLATION property={r['property']} replay={path}")
    return 1 if bad else 0


def digest(prop, seed, lo, hi):
    for idx in range(lo, hi):
        ctx, bad = execute(prop, Tape(mix(seed, prop["id"], idx)), True, False)
        print(idx, mix(ctx.tape.rec, ctx.log), ctx.hist.hexdigest(), ctx.steps, ctx.checks, bad)
    return 0


def bits(x):
    """bit pattern of a float; all NaNs alike"""
    return "nan" if x != x else struct.pack("<d", x).hex()
