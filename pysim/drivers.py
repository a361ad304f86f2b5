"""C23: the Python drivers against scripted and real regions and oracles, interleaved, nested and failing."""
import importlib

import numpy as np

from core import INJECT, Sched, Violation, bits

cp = importlib.import_module("ellalgo.cutting_plane")
ell = importlib.import_module("ellalgo.ell")
lmi = importlib.import_module("ellalgo.oracles.lmi_oracle")
profit = importlib.import_module("ellalgo.oracles.profit_oracle")
ST = cp.CutStatus


def vb(x):
    return [bits(float(v)) for v in np.asarray(x, dtype=float).ravel()]


def cb(cut):
    """bit snapshot of a cut"""
    g, b = cut
    if isinstance(b, tuple):
        b = ["pair"] + [None if v is None else bits(float(v)) for v in b]
    else:
        b = bits(float(b))
    return [vb(g), b]


class Drive:
    """one call of a driver: what is scripted, and everything that happened"""

    def __init__(self, sim, ident, depth):
        ctx = sim.ctx
        self.sim, self.ctx, self.id, self.depth = sim, ctx, ident, depth
        self.calls = []          # (name, payload)
        self.raised = None
        self.kind = ctx.of(("feas", "optim", "general-feas", "general-optim", "bisect", "general-both"))
        k = ctx.pick(20)
        if k == 19:
            self.maxi, self.tol, self.opts = 2000, 1e-20, None
        else:
            self.maxi = ctx.pick(1 + (0, 3, 8, 20)[ctx.pick(4)]) if k < 16 else ctx.pick(60)
            if ctx.rare(12):
                self.maxi = np.int64(self.maxi)
            self.tol = ctx.of((1e-3, 0.0, 1e-20, 1e-8, 0.5, 4.0))
            self.opts = cp.Options(self.maxi, self.tol) if ctx.pick(2) else cp.Options(max_iters=self.maxi, tolerance=self.tol)
        # fault: raise at the k-th callback
        self.fail_at = ctx.pick(1 + min(4 * int(self.maxi), 30)) + 1 if ctx.rare(4) else None
        self.exc = INJECT[ctx.pick(len(INJECT))] if self.fail_at else None
        self.ncall = 0
        # pace of the script
        self.stop_rate = ctx.of((0, 6, 20, 3)) if self.maxi < 100 else ctx.of((0, 500))
        self.trend = ctx.of(("free", "falling", "steady"))
        self.level = 1.0
        self.real = self.kind != "bisect" and ctx.rare(6)
        self.k = 0
        self.after_stop = False

    # callbacks ------------------------------------------------------
    def enter(self, name):
        self.ncall += 1
        self.ctx.steps += name in ("assess", "probe", "update")
        if self.ncall > 8 * int(self.maxi) + 40:
            self.bad(f"the driver goes on calling beyond its budget of {self.maxi}")
        if self.raised is not None:
            self.bad(f"the driver calls {name} after a callback failed")
        self.sim.sched.point()
        if self.fail_at and self.ncall == self.fail_at:
            self.ctx.fault(f"{name} raises {self.exc.__name__}")
            self.raised = self.exc("injected")
            self.calls.append((name, "raise"))
            raise self.raised

    def bad(self, m):
        m = f"drive {self.id} ({self.kind}, budget {self.maxi}, tolerance {self.tol}): {m}"
        if self.ctx.bad is None:
            self.ctx.bad = m
        raise Violation(m)

    def nest(self):
        if self.depth < 2 and self.maxi < 100 and self.ctx.rare(25):
            self.ctx.reach("a search started inside a callback")
            self.sim.drive(self.depth + 1)

    def measure(self):
        """what the region reports as its measure after the update that was just made"""
        c = self.ctx
        if self.trend == "falling":
            self.level *= c.of((0.5, 0.9, 0.1, 1e-3))
        elif self.trend == "free":
            k = c.pick(12)
            self.level = (1.0, 0.1, 2.0, 10.0, 1.5, 3.0, 1e-9, 0.0, -1.0, float("inf"), self.tol, float("nan"))[k]
            if self.maxi > 100 and self.level < self.tol:
                self.level = 1.0
        return self.level

    # the run --------------------------------------------------------
    def go(self):
        ctx = self.ctx
        if self.kind == "bisect":
            return self.bisect()
        space = RealSpace(self) if self.real else StubSpace(self)
        oracle = make_oracle(self, space)
        self.space = space
        ctx.ev(lambda: f"drive {self.id}: {self.kind}, budget {self.maxi}, tolerance {self.tol}, options {'default' if self.opts is None else 'given'}, region {type(space).__name__}, fails at {self.fail_at}")
        f = {"feas": cp.cutting_plane_feas, "optim": cp.cutting_plane_optim}.get(self.kind, cp.cutting_plane)
        self.centres = [vb(space.centre())]
        self.measures = [None]
        out = self.invoke(f, oracle, space)
        self.judge(out)

    def invoke(self, f, *a):
        try:
            if self.opts is None:
                self.ctx.reach("default options")
                r = f(*a) if self.ctx.pick(2) else f(*a, None)
            elif self.ctx.pick(2):
                r = f(*a, self.opts)
            else:
                r = f(*a, options=self.opts)
            out = ("return", r)
        except Violation:
            raise
        except BaseException as e:
            out = ("raise", e)
        if self.ctx.bad:
            raise Violation(self.ctx.bad)
        if out[0] == "raise" and out[1] is not self.raised:
            self.bad(f"raises {type(out[1]).__name__}: {out[1]}")
        if self.raised is not None:
            if out[0] != "raise" or out[1] is not self.raised:
                self.bad(f"a callback failed with {type(self.raised).__name__} but the driver returned {out[1]!r}")
            self.ctx.reach("a failing callback reached the caller")
        if self.opts is not None:
            self.ctx.check(self.opts.max_iters == self.maxi and self.opts.tolerance == self.tol, lambda: f"drive {self.id}: the options were changed")
        return out

    def judge(self, out):
        """the reference loop, over what was recorded"""
        ctx = self.ctx
        calls = [c for c in self.calls if c[0] in ("assess", "update")]
        feas = self.kind in ("feas", "general-feas", "general-both")
        exp = None
        pos = 0
        i = 0
        cut_by_fault = self.raised is not None
        inf = float("inf")
        while exp is None:
            if i >= self.maxi:
                exp = (ST.UNKNOWN, self.centres[-1], int(self.maxi))
                ctx.reach("ended by the budget")
                break
            if pos >= len(calls):
                if cut_by_fault:
                    return self.finish(calls, "fault")
                self.bad(f"stopped before query {i} although nothing had decided; returned {out[1]!r}")
            name, p = calls[pos]
            pos += 1
            if name != "assess":
                self.bad(f"query {i} was skipped: two updates in a row")
            if p == "raise":
                return self.finish(calls, "fault")
            ctx.check(p["x"] == self.centres[i], lambda: f"drive {self.id}: query {i} was not at the region's current centre")
            ctx.check(feas == (p["which"] == "feas"), lambda: f"drive {self.id}: {self.kind} asked the oracle's {p['which']} question")
            if not feas:
                ctx.check(p["gamma"] == bits(inf), lambda: f"drive {self.id}: query {i} was given objective value other than infinity")
            if p["done"]:
                exp = (ST.SUCCESS, self.centres[i], i)
                ctx.reach("the oracle was satisfied")
                break
            if pos >= len(calls):
                if cut_by_fault:
                    return self.finish(calls, "fault")
                self.bad(f"the cut of query {i} was not applied; returned {out[1]!r}")
            name, u = calls[pos]
            pos += 1
            if name != "update":
                self.bad(f"the cut of query {i} was not applied before the next query")
            if u == "raise":
                return self.finish(calls, "fault")
            ctx.check(u["how"] == "bias", lambda: f"drive {self.id}: cut {i} applied as {u['how']}")
            ctx.check(u["cut"] == p["cut"], lambda: f"drive {self.id}: the cut applied at {i} is not the oracle's reply: {u['cut']} for {p['cut']}")
            if u["status"] is not ST.SUCCESS:
                exp = (u["status"], self.centres[i], i)
                ctx.reach("the region refused a cut")
                break
            if u["tsq"] < self.tol:
                exp = (ST.SUCCESS, self.centres[i + 1], i)
                ctx.reach("the measure fell below the tolerance")
                break
            i += 1
        if cut_by_fault:
            # only the pure accessors may fail after the deciding call
            if pos < len(calls):
                self.bad("calls after the search was decided")
            return self.finish(calls, "fault")
        if pos < len(calls):
            self.bad(f"calls {calls[pos][0]} after the search was decided at {i}")
        r = out[1]
        want = 3 if self.kind == "feas" else 4
        ok = isinstance(r, tuple) and len(r) == want
        ctx.check(ok, lambda: f"drive {self.id}: returned {r!r}")
        ctx.check(r[0] is exp[0], lambda: f"drive {self.id}: verdict {r[0]} instead of {exp[0]} at {i} (budget {self.maxi}, tolerance {self.tol})")
        ctx.check(np.shape(r[1]) == (self.space.n,) and vb(r[1]) == exp[1], lambda: f"drive {self.id}: returned point {r[1]} is not the one that decided ({exp[0].value} at {i})")
        if self.kind in ("optim", "general-optim"):
            ctx.check(r[2] == inf, lambda: f"drive {self.id}: objective value {r[2]}")
        elif want == 4:
            ctx.check(r[2] is None, lambda: f"drive {self.id}: objective value {r[2]} of a feasibility problem")
        ctx.check(r[-1] == exp[2], lambda: f"drive {self.id}: index {r[-1]} instead of {exp[2]}")
        self.finish(calls, exp[0].value)

    def finish(self, calls, how):
        ctx = self.ctx
        if len(calls) > 1:
            ctx.nontrivial = True
        ctx.note(self.kind, how, [(c[0], c[1] if c[1] == "raise" else c[1].get("status", c[1].get("done"))) for c in calls], self.real)
        ctx.ev(lambda: f"drive {self.id}: {how} after {len(calls)} calls")

    # bisection ------------------------------------------------------
    def bisect(self):
        ctx = self.ctx
        mode = ctx.pick(3)
        if mode == 0:
            lo = float(ctx.pick(65) - 32)
            up = lo + 2.0 ** (ctx.pick(12) - 4)
        elif mode == 1:
            lo = ctx.signed()
            up = lo + abs(ctx.signed())
        else:
            s = 10.0 ** (ctx.pick(61) - 30)
            lo, up = sorted((ctx.signed() * s, ctx.signed() * s))
        exact = mode == 0 and self.maxi <= 30
        src = ctx.of(("threshold", "script", "all", "none"))
        th = ctx.real(lo, up)
        probes = []
        cast = ctx.of((bool, np.bool_, int))
        drive = self

        class Probe:
            def assess_bs(self, g):
                drive.enter("probe")
                drive.nest()
                a = {"threshold": lambda: bool(g >= th), "script": lambda: ctx.pick(2) == 1, "all": lambda: True, "none": lambda: False}[src]()
                probes.append((float(g), a))
                return cast(a)

        ctx.ev(lambda: f"drive {self.id}: bisect [{lo}, {up}], {src}, budget {self.maxi}, tolerance {self.tol}, fails at {self.fail_at}")
        out = self.invoke(cp.binary_search, Probe(), lo, up)
        eps = 0.0 if exact else 8e-16 * max(abs(lo), abs(up), up - lo)
        i = 0
        exp = None
        while True:
            if i >= self.maxi:
                exp = (ST.UNKNOWN, int(self.maxi))
                break
            w = up - lo
            near = not exact and abs(w - self.tol) <= 4 * eps
            if i == len(probes):
                if self.raised is not None:
                    break
                ctx.check(w < self.tol or near, lambda: f"drive {self.id}: stopped with bracket width {w}, tolerance {self.tol}, budget {self.maxi}, after {i} probes: {out[1]!r}")
                exp = (ST.SUCCESS, i)
                ctx.reach("bracket below the tolerance")
                break
            ctx.check(w >= self.tol or near, lambda: f"drive {self.id}: probe {i} although the bracket [{lo}, {up}] is below the tolerance {self.tol}")
            g, a = probes[i]
            m = (lo + up) / 2.0
            ctx.check(abs(g - m) <= eps, lambda: f"drive {self.id}: probe {i} at {g} instead of the midpoint {m} of [{lo}, {up}]")
            if a:
                up = g
            else:
                lo = g
            i += 1
        if i < len(probes):
            self.bad("probes after the end")
        if i > 1:
            ctx.nontrivial = True
        ctx.note("bisect", [a for _, a in probes], exp and exp[0].value, self.raised is not None)
        if self.raised is not None:
            return
        r = out[1]
        ctx.check(isinstance(r, tuple) and len(r) == 3 and r[0] is exp[0] and r[2] == exp[1], lambda: f"drive {self.id}: returned {r!r} instead of {exp}")
        m = (lo + up) / 2.0
        ctx.check(abs(float(r[1]) - m) <= eps, lambda: f"drive {self.id}: returned {r[1]} instead of the midpoint {m}")


class Space:
    def refuse(self, how):
        self.d.bad(f"the driver applied a cut as {how}")

    def update_central_cut(self, cut):
        return self._update("central", cut)

    def update_bias_cut(self, cut):
        return self._update("bias", cut)

    def update_q(self, cut):
        return self._update("q", cut)

    def set_xc(self, x):
        self.d.bad("the driver re-centred the region")

    def _update(self, how, cut):
        d = self.d
        d.enter("update")
        snap = cb(cut)
        d.nest()
        status = self.apply(cut)
        d.centres.append(vb(self.centre())) if status is ST.SUCCESS else None
        d.calls.append(("update", {"how": how, "cut": snap, "status": status, "tsq": float(self.measure())}))
        return status


class StubSpace(Space):
    """centres, measures and statuses from the tape; accessors are pure"""

    def __init__(self, d):
        self.d = d
        self.n = 1 + d.ctx.pick(4)
        self.c = np.array([d.ctx.signed() for _ in range(self.n)])
        self.live = d.ctx.rare(3)
        self.t = d.ctx.of((1.0, 0.0, 1e9, -1.0))

    def centre(self):
        return self.c.copy()

    def measure(self):
        return self.t

    def xc(self):
        self.d.enter("xc")
        return self.c if self.live else self.c.copy()

    def tsq(self):
        self.d.enter("tsq")
        return np.float64(self.t) if self.live else self.t

    def apply(self, cut):
        d = self.d
        if d.stop_rate and d.ctx.rare(2 * d.stop_rate):
            d.ctx.fault("the region refuses a cut")
            return d.ctx.of((ST.NO_SOLN, ST.NO_EFFECT, ST.UNKNOWN))
        step = np.array([d.ctx.signed() for _ in range(self.n)])
        if self.live:
            self.c += step
        else:
            self.c = self.c + step
        self.t = d.measure()
        return ST.SUCCESS


class RealSpace(Space):
    """the port's own ellipsoid behind the accessors the drivers use"""

    def __init__(self, d):
        self.d = d
        c = d.ctx
        self.n = 2 + c.pick(3)
        x = np.array([c.signed() for _ in range(self.n)])
        k = c.pick(3)
        if k == 0:
            self.e = ell.Ell.new_with_scalar(c.of((4.0, 1.0, 100.0)), x)
        elif k == 1:
            self.e = ell.Ell.new(np.array([c.real(0.5, 9.0) for _ in range(self.n)]), x)
        else:
            self.e = ell.Ell(c.real(0.5, 4.0), np.diag([c.real(0.5, 9.0) for _ in range(self.n)]), x, no_defer_trick=True)
        c.reach("the port's own ellipsoid driven")

    def centre(self):
        return self.e.get_xc()

    def measure(self):
        return self.e.get_tsq()

    def xc(self):
        self.d.enter("xc")
        return self.e.get_xc()

    def tsq(self):
        self.d.enter("tsq")
        return self.e.get_tsq()

    def apply(self, cut):
        return self.e.update_bias_cut(cut)


def make_oracle(d, space):
    ctx = d.ctx
    n = space.n
    feas = d.kind in ("feas", "general-feas", "general-both")
    reuse = np.zeros(n) if ctx.rare(3) else None
    inner = None
    if d.real and ctx.rare(2):
        ctx.reach("the port's own oracle driven")
        if feas:
            m = 1 + ctx.pick(3)

            def sym():
                a = np.array([[ctx.signed() for _ in range(m)] for _ in range(m)])
                return a + a.T
            inner = lmi.LmiOracle(sym(), [sym() for _ in range(n)])
        elif n == 2:
            inner = profit.ProfitOracle(ctx.real(1.0, 20.0), ctx.real(0.5, 4.0), np.array([ctx.real(0.1, 0.5), ctx.real(0.1, 0.5)]),
                                        np.array([ctx.real(0.5, 5.0), ctx.real(0.5, 5.0)]), ctx.real(0.5, 10.0))

    def cut():
        g = np.array([ctx.signed() for _ in range(n)])
        if reuse is not None:
            reuse[:] = g
            g = reuse
        k = ctx.pick(6)
        b = -ctx.real(0.0, 1.0) if k < 3 else ctx.signed()
        if k == 4:
            b = (b, None)
        elif k == 5:
            b = (b, b * 2.0)
        return g, b

    def done():
        return bool(d.stop_rate) and ctx.rare(d.stop_rate)

    def ask(which, x, gamma):
        d.enter("assess")
        xs = vb(x)
        d.nest()
        with np.errstate(all="ignore"):
            if which == "feas":
                r = inner.assess_feas(x) if inner else (None if done() else cut())
                fin = r is None
                c = None if fin else cb(r)
            else:
                r = inner.assess_optim(x, gamma) if inner else (cut(), ctx.of((bool, np.bool_))(done()))
                fin = bool(r[1])
                c = cb(r[0])
        d.calls.append(("assess", {"which": which, "x": xs, "gamma": bits(float(gamma)), "done": fin, "cut": c}))
        return r

    class O:
        pass
    if feas:
        O.assess_feas = lambda self, xc: ask("feas", xc, 0.0)
    if not feas or d.kind == "general-both":
        O.assess_optim = lambda self, xc, gamma: ask("optim", xc, gamma)
    if ctx.rare(8):
        O.update = lambda self, gamma: d.bad("the driver changed the oracle's level")
    return O()


class Sim:
    def __init__(self, ctx):
        self.ctx = ctx
        self.sched = Sched(ctx)
        self.count = 0

    def drive(self, depth=0):
        self.count += 1
        if self.count > 12:
            return
        Drive(self, self.count, depth).go()


def run(ctx):
    with np.errstate(all="ignore"):
        sim = Sim(ctx)
        if ctx.rare(8):
            o = cp.Options.default()
            o.max_iters = 3
            o.tolerance = 1.0
            ctx.fault("a set of default options was changed by its owner")
        k = ctx.pick(4)
        if k == 3:
            def job():
                with np.errstate(all="ignore"):
                    for _ in range(1 + ctx.pick(2)):
                        sim.drive()
            sim.sched.run([job for _ in range(2 + ctx.pick(2))])
            if ctx.bad:
                raise Violation(ctx.bad)
        else:
            for _ in range(1 + ctx.pick(3)):
                sim.drive()


PROP = {
    "id": "C23", "run": run, "runs": {"quick": 40000, "thorough": 1200000},
    "rule": "one run = one to six searches (feasibility, optimisation, dispatching, bisection), one after another, nested in callbacks or interleaved on threads at callbacks, against scripted or the port's own regions and oracles; non-trivial when a search got beyond its first call; distinct by kinds, call sequences, replies and endings",
    "measure": "hash of the kind, call sequence, replies and ending of every search",
    "real": "cutting_plane_feas, cutting_plane_optim, cutting_plane, binary_search, Options (python_ai/ellalgo/cutting_plane.py); in some runs Ell, EllCalc, LmiOracle, ProfitOracle",
    "stub": "scripted regions, oracles and probes; a thin adapter exposing the ellipsoid's get_xc/get_tsq as xc()/tsq(), without which the port's drivers do not accept it",
    "assumptions": ["the region's accessors xc() and tsq() are pure", "budgets are not negative, brackets are finite and ordered", "away from exactly representable brackets midpoints may differ by rounding"],
}
