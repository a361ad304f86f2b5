"""C25: the port's bundled oracles - interleaved, repeated, near-boundary and poisoned queries judged by direct evaluation."""
import importlib

import numpy as np

from core import bits

lmi = importlib.import_module("ellalgo.oracles.lmi_oracle")
profit = importlib.import_module("ellalgo.oracles.profit_oracle")


def vb(x):
    return [bits(float(v)) for v in np.asarray(x, dtype=float).ravel()]


def flat(r):
    """bit snapshot of a reply"""
    if r is None:
        return None
    if isinstance(r[0], tuple):
        return [vb(r[0][0]), bits(float(r[0][1])), bool(r[1])]
    return [vb(r[0]), bits(float(r[1]))]


class Lmi:
    kind = "lmi"

    def __init__(self, ctx):
        self.ctx = ctx
        m = 1 + ctx.pick(5) if not ctx.rare(40) else 1 + ctx.pick(24)
        n = 1 + ctx.pick(4)
        self.m, self.n = m, n
        unit = ctx.of((1.0, 1.0, 1e-6, 1e6))
        diag = ctx.rare(4)

        def sym():
            if diag:
                return np.diag([unit * float(ctx.pick(7) - 3) for _ in range(m)])
            if ctx.rare(6):
                return unit * ctx.signed() * np.eye(m)
            a = np.array([[ctx.signed() for _ in range(m)] for _ in range(m)])
            return unit * (a + a.T) / 2.0
        self.F = [sym() for _ in range(n)]
        # a point known to satisfy the inequality, with some margin
        self.good = np.array([ctx.signed() for _ in range(n)])
        a = np.array([[ctx.signed() for _ in range(m)] for _ in range(m)])
        slack = unit * (a @ a.T / m * ctx.pick(2) + ctx.real(0.0, 2.0) * np.eye(m))
        if diag:
            slack = np.diag(np.rint(np.diag(slack) / unit) * unit)
        self.F0 = slack - sum(x * f for x, f in zip(self.good, self.F))
        self.unit = unit
        self.o = self.fresh(True)
        ctx.ev(lambda: f"lmi: {m} rows, {n} unknowns, unit {unit}")

    def fresh(self, spoil=False):
        f0, fs = self.F0.copy(), [f.copy() for f in self.F]
        o = lmi.LmiOracle(f0, fs)
        if spoil:  # the caller goes on using its arrays
            f0[:] = 9.0
            fs[0][:] = 9.0
            fs.append(np.eye(self.m))
        return o

    def value(self, x):
        return self.F0 + sum(v * f for v, f in zip(x, self.F))

    def query(self):
        ctx = self.ctx
        k = ctx.pick(6)
        if k == 0:
            return np.array([ctx.signed() for _ in range(self.n)])
        if k == 1:
            return self.good.copy()
        d = np.array([ctx.signed() for _ in range(self.n)])
        if k == 2:
            # near the boundary: bisect from the known point outwards
            lo, hi = 0.0, 64.0
            if np.linalg.eigvalsh(self.value(self.good + hi * d))[0] >= 0:
                return self.good + hi * d
            for _ in range(ctx.pick(40)):
                t = 0.5 * (lo + hi)
                if np.linalg.eigvalsh(self.value(self.good + t * d))[0] >= 0:
                    lo = t
                else:
                    hi = t
            return self.good + (hi if ctx.pick(2) else lo) * d
        if k == 3:
            return np.array([float(ctx.pick(9) - 4) for _ in range(self.n)])
        return self.good + d * ctx.of((0.1, 1.0, 100.0))

    def ask(self, o, x):
        return o.assess_feas(x)

    def judge(self, x, r):
        ctx = self.ctx
        V = self.value(x)
        w, U = np.linalg.eigh(V)
        s = np.abs(self.F0).max() + sum(abs(v) * np.abs(f).max() for v, f in zip(x, self.F)) + 1e-300
        band = 1e-11 * self.m * s
        lam = w[0]
        ctx.note("lmi", r is None, bool(lam > 0))
        if r is None:
            ctx.reach("inequality satisfied")
            ctx.check(lam >= -band, lambda: f"lmi accepted {x.tolist()}, where the smallest eigenvalue is {lam}")
            return
        ctx.reach("inequality violated")
        ctx.nontrivial = True
        ctx.check(lam < band, lambda: f"lmi rejected {x.tolist()}, where the smallest eigenvalue is {lam}")
        g, b = r
        g = np.asarray(g, dtype=float)
        ctx.check(g.shape == (self.n,), lambda: f"lmi: gradient of shape {g.shape}")
        ctx.check(b < 0.0, lambda: f"lmi: offset {b} at a rejected point")
        ctx.check(abs(b - lam) <= band, lambda: f"lmi: offset {b}, the smallest eigenvalue is {lam}")
        sf = max(np.abs(f).max() for f in self.F) * self.m + 1e-300
        for i, f in enumerate(self.F):
            e = np.linalg.eigvalsh(f)
            ctx.check(e[0] - 1e-9 * sf <= g[i] <= e[-1] + 1e-9 * sf, lambda: f"lmi: gradient component {i} is {g[i]}, outside the range {e[0]}..{e[-1]} of quadratic forms of unit vectors")
        gap = w[1] - w[0] if self.m > 1 else np.inf
        if gap > 1e-5 * s:
            v = U[:, 0]
            for i, f in enumerate(self.F):
                t = float(v @ f @ v)
                ctx.check(abs(g[i] - t) <= 1e-7 * sf + 1e-12 * sf * s / gap, lambda: f"lmi: gradient component {i} is {g[i]} instead of {t} at {x.tolist()}")
        # the reply is a certificate: v'F(y)v = g.(y - x) + b is not negative where the inequality holds
        for y in (self.good,):
            t = float(g @ (y - x)) + float(b)
            tol = 1e-9 * (s + sf * np.abs(y - x).sum()) * self.m
            ctx.check(t >= -tol, lambda: f"lmi: the reply at {x.tolist()} excludes {y.tolist()}, which satisfies the inequality ({t})")


class Profit:
    kind = "profit"

    def __init__(self, ctx):
        self.ctx = ctx
        self.p = ctx.real(1.0, 30.0) * ctx.of((1.0, 1.0, 1e3))
        self.A = ctx.real(0.5, 50.0)
        self.e = np.array([ctx.real(0.05, 0.48), ctx.real(0.05, 0.48)])
        if ctx.rare(6):
            self.e = np.array([ctx.real(0.2, 0.9), ctx.real(0.2, 0.9)])
        self.v = np.array([ctx.real(0.5, 40.0), ctx.real(0.5, 40.0)])
        a, b = self.e
        self.peak = None
        if a + b < 0.97:
            R = (self.p * self.A * (a / self.v[0]) ** a * (b / self.v[1]) ** b) ** (1.0 / (1.0 - a - b))
            if 1e-3 < R < 1e9:
                self.peak = np.array([a * R / self.v[0], b * R / self.v[1]])
        self.k = ctx.real(0.5, 40.0)
        if self.peak is not None and ctx.pick(2):
            self.k = self.peak[0] * ctx.real(0.5, 3.0)
        self.n = 2
        self.o = self.fresh(True)
        ctx.ev(lambda: f"profit: price {self.p}, scale {self.A}, elasticities {self.e.tolist()}, input prices {self.v.tolist()}, capacity {self.k}, peak {self.peak}")

    def fresh(self, spoil=False):
        e, v = self.e.copy(), self.v.copy()
        o = profit.ProfitOracle(self.p, self.A, e, v, self.k)
        if spoil:
            e[:] = 0.9
            v[:] = 99.0
        return o

    def query(self):
        ctx = self.ctx
        k = ctx.pick(8)
        if k == 0:
            x = np.array([ctx.real(0.01, 1.0) * self.k, ctx.real(0.01, 20.0)])
        elif k == 1:
            x = np.array([self.k * (1.0 + ctx.real(0.0, 2.0)), ctx.real(0.01, 20.0)])
        elif k == 2:
            x = np.array([self.k, ctx.real(0.01, 20.0)])
        elif k == 3:
            x = np.array([self.k * (1.0 + (1e-15 if ctx.pick(2) else 1e-9)), ctx.real(-1.0, 20.0)])
        elif k == 4:
            x = np.array([ctx.of((-1.0, 0.0, 0.5)), ctx.of((0.0, -2.0, -1e-300))])
        elif k == 5:
            x = np.array([ctx.of((0.0, -3.0, -1e-9)), ctx.real(0.01, 20.0)])
        elif self.peak is not None:
            h = 10.0 ** -(ctx.pick(16))
            x = self.peak * np.array([1.0 + h * ctx.real(-1.0, 1.0), 1.0 + h * ctx.real(-1.0, 1.0)])
        else:
            x = np.array([1e-3 * self.k, 1e-6])
        return x

    def ask(self, o, x):
        c = self.ctx
        self.gamma = c.of((float("inf"), 0.0, -100.0, 1e9))
        self.again = lambda q: q.assess_optim(x.copy(), self.gamma)
        r = o.assess_optim(x, self.gamma)
        # the best value so far does not enter the reply
        own = float("inf")
        if x.min() > 0.0:
            own = float(np.dot(self.v, x) - self.p * self.A * x[0] ** self.e[0] * x[1] ** self.e[1])
        try:
            own2 = -float(o._compute_profit(x))  # the very number the oracle would compare with, if it still has this helper
        except AttributeError:
            own2 = own
        g2 = c.of((float("inf"), 5.0, -1e12, own, own2))
        r2 = o.assess_optim(x, g2)
        c.check(flat(r) == flat(r2), lambda: f"profit: the reply at {x.tolist()} depends on the best value: {r} for {self.gamma}, {r2} for {g2}")
        return r

    def judge(self, x, r):
        ctx = self.ctx
        (g, b), opt = r
        g = np.asarray(g, dtype=float)
        ctx.check(g.shape == (2,), lambda: f"profit: gradient of shape {g.shape}")
        ctx.note("profit", bool(opt), bool(x[0] > self.k), bool(x.min() > 0))
        if x[0] > self.k:
            ctx.reach("capacity exceeded")
            ctx.nontrivial = True
            ctx.check(not opt and g[0] == 1.0 and g[1] == 0.0 and abs(b - (self.k - x[0])) <= 1e-12 * (abs(self.k) + abs(x[0])), lambda: f"profit: query {x.tolist()} exceeds the capacity {self.k}, reply {r}")
            ctx.check(b < 0.0, lambda: f"profit: offset {b} where the capacity is exceeded")
            return
        if x.min() <= 0.0:
            ctx.reach("outside the domain")
            ctx.check(not opt, lambda: f"profit: {x.tolist()}, where the profit is minus infinity, is declared optimal")
            return
        R = self.p * self.A * x[0] ** self.e[0] * x[1] ** self.e[1]
        t = -(self.e * R / x - self.v)
        tol = 1e-11 * (np.abs(self.e * R / x) + self.v)
        ctx.check(bool((np.abs(g - t) <= tol).all()), lambda: f"profit: gradient {g.tolist()} at {x.tolist()} instead of {t.tolist()}")
        nrm = float(np.linalg.norm(t))
        bound = 1e-6
        if abs(nrm - bound) > 2 * float(tol.sum()):
            ctx.check(bool(opt) == (nrm < bound), lambda: f"profit: optimality {opt} at {x.tolist()}, where the gradient has norm {nrm}")
        ctx.nontrivial = True
        if opt:
            ctx.reach("declared optimal")
        else:
            ctx.reach("improvement asked for")
            ctx.check(b < 0.0, lambda: f"profit: offset {b} of an improvement cut")


def refused(ctx):
    k = ctx.pick(5)
    ctx.fault("malformed construction")
    two = np.array([0.3, 0.3])
    try:
        if k == 0:
            lmi.LmiOracle(np.ones((2, 3)), [np.eye(2)])
        elif k == 1:
            lmi.LmiOracle(np.eye(3), [np.eye(3), np.eye(2)])
        elif k == 2:
            lmi.LmiOracle(np.eye(2), [np.eye(2), np.ones((2, 3))])
        elif k == 3:
            profit.ProfitOracle(1.0, 1.0, np.ones(1 + 2 * ctx.pick(2)), two, 1.0)
        else:
            profit.ProfitOracle(1.0, 1.0, two, np.ones(1 + 2 * ctx.pick(2)), 1.0)
        ok = False
    except ValueError:
        ok = True
    ctx.check(ok, f"an oracle was built from data that do not fit ({k})")


def run(ctx):
    with np.errstate(all="ignore"):
        os_ = [ctx.of((Lmi, Profit))(ctx) for _ in range(1 + ctx.pick(3))]
        past = {}
        for _ in range(1 + ctx.pick(14)):
            j = ctx.pick(len(os_))
            w = os_[j]
            op = ctx.pick(12)
            if op == 11:
                refused(ctx)
                continue
            if op == 10:
                bad = np.full(w.n, ctx.of((np.nan, np.inf, 1e300)))
                ctx.fault("poisoned query")
                try:
                    w.o.assess_feas(bad) if w.kind == "lmi" else w.o.assess_optim(bad, 0.0)
                except (ArithmeticError, ValueError, np.linalg.LinAlgError):
                    pass
                continue
            if op == 9 and j in past:
                x = past[j].copy()
                ctx.reach("an earlier query repeated")
            else:
                x = w.query()
            if ctx.rare(4):
                buf = np.zeros(2 * w.n)
                buf[::2] = x
                q = buf[::2]
            elif ctx.rare(3):
                # one array that the caller fills anew for every query
                if not hasattr(w, "buf"):
                    w.buf = np.zeros(w.n)
                else:
                    ctx.reach("the query array was used before")
                w.buf[:] = x
                q = w.buf
            else:
                q = x.copy()
            if ctx.pick(3) == 0:
                past[j] = x.copy()
            ctx.steps += 1
            r = w.ask(w.o, q)
            ctx.ev(lambda: f"{w.kind} {j}: {x.tolist()} -> {r}")
            ctx.check(vb(q) == vb(x), lambda: f"{w.kind}: the query was changed")
            w.judge(x, r)
            f = w.fresh()
            r2 = f.assess_feas(x.copy()) if w.kind == "lmi" else f.assess_optim(x.copy(), w.gamma)
            a, b = flat(r), flat(r2)
            ctx.check(a == b, lambda: f"{w.kind}: {x.tolist()} is answered {r}, a fresh oracle answers {r2}")
            # the caller overwrites the reply it was given
            if r is not None and ctx.rare(3):
                g = r[0][0] if w.kind == "profit" else r[0]
                g *= 0.0
                ctx.fault("the reply is overwritten by its receiver")


PROP = {
    "id": "C25", "run": run, "runs": {"quick": 150000, "thorough": 4000000},
    "rule": "one run = one to three oracles of the Python port (matrix inequality, profit) under up to 14 interleaved queries: random, near the boundary, at the boundary, outside the domain, repeated, poisoned, with replies and constructor data overwritten by their owner; non-trivial when a cut was returned; distinct by the sequence of verdicts",
    "measure": "hash of oracle kinds and verdicts",
    "real": "LmiOracle, ProfitOracle (python_ai/ellalgo/oracles)",
    "stub": "the query source",
    "assumptions": ["smallest eigenvalues within 1e-11 of zero relative to the data are left open, gradients at nearly multiple smallest eigenvalues are only bounded", "numpy's symmetric eigenvalue routine is trusted"],
}
