"""C24: the port's ellipsoid as a state machine - histories of cuts, refused and malformed cuts, copies, re-centrings."""
import importlib

import numpy as np

from core import bits

cp = importlib.import_module("ellalgo.cutting_plane")
mod = importlib.import_module("ellalgo.ell")
calc = importlib.import_module("ellalgo.ell_calc")
ST = cp.CutStatus


def vb(x):
    return [bits(float(v)) for v in np.asarray(x, dtype=float).ravel()]


class Region:
    """a real region with what its user knows about it"""

    def __init__(self, ctx, name):
        self.ctx, self.name = ctx, name
        n = 2 + ctx.pick(4) if not ctx.rare(40) else 2 + ctx.pick(30)
        x = np.array([ctx.signed() for _ in range(n)])
        unit = ctx.of((1.0, 1.0, 1e-3, 1e4, 1e-8, 1e10))
        d = np.array([unit * ctx.real(0.25, 4.0) for _ in range(n)])
        k = ctx.pick(5)
        if k == 0:
            v = unit * ctx.real(0.5, 4.0)
            self.e = mod.Ell.new_with_scalar(v, x)
            exp = (v, v * np.eye(n))
        elif k == 1:
            self.e = mod.Ell.new(d, x)
            exp = (1.0, np.diag(d))
        else:
            a = np.array([[ctx.signed() for _ in range(n)] for _ in range(n)]) if ctx.pick(2) else np.zeros((n, n))
            m = unit * (a @ a.T / n) + np.diag(d)
            kap = ctx.real(0.5, 4.0)
            src = (m.copy(), x.copy())
            if k == 2:
                self.e = mod.Ell.new_with_matrix(kap, src[0], src[1])
            else:
                self.e = mod.Ell(kap, src[0], src[1], k == 4) if ctx.pick(2) else mod.Ell(kappa=kap, mq=src[0], xc=src[1], no_defer_trick=k == 4)
            # the caller goes on using its arrays
            src[0][:] = 7.0
            src[1][:] = -7.0
            exp = (kap, m)
        if k < 2:
            y = x.copy()
            x[:] = -7.0
            d[:] = 7.0
            x = y
        self.n = n
        self.same((exp[0], exp[1], x), "after construction")
        ctx.check(self.e.no_defer_trick == (k == 4), lambda: f"{name}: wrong scaling mode after construction")
        ctx.check(self.e.ndim == n, lambda: f"{name}: ndim {self.e.ndim}, not {n}")
        ctx.ev(lambda: f"{name}: dimension {n}, kind {k}")

    def state(self):
        return (float(self.e.kappa), np.array(self.e.mq, dtype=float), np.array(self.e.xc, dtype=float))

    def same(self, s, when):
        """bit-identical to s"""
        t = self.state()
        self.ctx.check(bits(s[0]) == bits(t[0]) and s[1].shape == t[1].shape and vb(s[1]) == vb(t[1]) and s[2].shape == t[2].shape and vb(s[2]) == vb(t[2]),
                       lambda: f"{self.name}: {when} the region is kappa {t[0]}, centre {t[2]}, matrix {t[1].tolist()} instead of kappa {s[0]}, centre {s[2]}, matrix {s[1].tolist()}")

    def sane(self):
        k, m, x = self.state()
        with np.errstate(all="ignore"):
            if np.isfinite(m).all() and np.abs(m - m.T).max() > 1e-12 * np.abs(np.diag(m)).min():
                # what is left of the matrix is rounding noise of cuts that nearly used it up
                return False
            return bool(np.isfinite(k) and np.isfinite(m).all() and np.isfinite(x).all() and 1e-60 < abs(k) < 1e60 and np.abs(m).max() < 1e60 and np.abs(np.diag(m)).min() > 1e-12 * np.abs(m).max() and np.abs(x).max() < 1e30)


def coefficients(n, how, beta, tsq):
    """a fresh calculator asked the one question directly"""
    h = calc.EllCalc(n)
    pair = isinstance(beta, tuple)
    if how == "bias":
        return h.calc_bias_cut(beta, tsq) if not pair else h.calc_bias_cut(beta[0], tsq) if beta[1] is None else h.calc_parallel_bias_cut(beta[0], beta[1], tsq)
    if how == "central":
        return h.calc_central_cut(tsq) if not pair or beta[1] is None else h.calc_parallel_central_cut(beta[1], tsq)
    return h.calc_bias_cut_q(beta, tsq) if not pair else h.calc_bias_cut_q(beta[0], tsq) if beta[1] is None else h.calc_parallel_q(beta[0], beta[1], tsq)


def table(how, beta, tsq, band):
    """the verdict the port documents for its offsets, None where it is too close to call"""
    if abs(tsq) <= band:
        return None
    if tsq <= 0.0:
        return ST.NO_EFFECT
    pair = isinstance(beta, tuple) and beta[1] is not None
    if how == "central":
        return ST.SUCCESS
    if pair:
        if beta[0] * beta[1] == 0.0 and beta[0] != 0.0 and beta[1] != 0.0:
            return None
        return ST.NO_SOLN if beta[0] * beta[1] <= 0.0 else ST.SUCCESS
    b = beta[0] if isinstance(beta, tuple) else beta
    if b >= 0.0:
        return ST.NO_SOLN
    tau = np.sqrt(tsq)
    if abs(b + tau) <= 1e-9 * tau:
        return None
    return ST.NO_EFFECT if b <= -tau else ST.SUCCESS


def make_grad(ctx, r, n):
    g = np.array([ctx.signed() for _ in range(n)])
    k = ctx.pick(12)
    if k >= 10:
        # one array that the caller fills anew for every cut
        if not hasattr(r, "buf"):
            r.buf = np.zeros(n)
        r.buf[:] = g
        ctx.reach("the gradient array was used before")
        return r.buf
    if k == 4:
        b = np.zeros(2 * n)
        b[::2] = g
        return b[::2]
    if k == 5:
        return g[::-1].copy()[::-1]
    if k == 6:
        g.flags.writeable = False
        return g
    if k == 7:
        return np.array([float(i == 0) for i in range(n)])
    if k == 8:
        ctx.reach("the gradient is the region's own centre array")
        return r.e.xc
    if k == 9:
        return np.zeros(n)
    return g


def cut_once(ctx, r):
    e, n, name = r.e, r.n, r.name
    kap, mq, xc = r.state()
    defer = e.no_defer_trick
    g = make_grad(ctx, r, n)
    g0 = np.array(g, dtype=float)
    how = ctx.of(("bias", "central", "q"))
    gt = mq @ g0
    om = float(g0 @ gt)
    oma = float(np.abs(g0) @ (np.abs(mq) @ np.abs(g0)))
    tsq = kap * om
    tau = np.sqrt(tsq) if tsq > 0 else 1.0
    k = ctx.pick(10)
    b = -tau * ctx.real(0.02, 0.98)
    if k == 5:
        beta = 0.0 if ctx.pick(2) else -0.0
    elif k == 6:
        beta = tau * ctx.real(0.0, 2.0)
    elif k == 7:
        beta = -tau * ctx.real(1.0, 3.0)
    elif k == 8:
        beta = (b, None)
    elif k == 9:
        beta = ctx.of(((b, b * ctx.real(0.1, 1.0)), (b, -b), (b, 0.0), (-b, -b * 0.5)))
    elif k == 4:
        beta = -int(abs(b)) - 1
    else:
        beta = float(b)
    cut = (g, beta)
    ctx.steps += 1
    pub = calc.EllCalc
    st = {"bias": e.update_bias_cut, "central": e.update_central_cut, "q": e.update_q}[how](cut)
    assert pub is calc.EllCalc
    ctx.ev(lambda: f"{name}: {how} cut, direction {g0.tolist()}, offset {beta} -> {st}")
    ctx.note(how, type(beta).__name__, st.value if isinstance(st, ST) else str(st), defer)
    if g is not e.xc:
        ctx.check(vb(g) == vb(g0), lambda: f"{name}: the cut's gradient was changed")
    ctx.check(cut[1] is beta, "the cut was changed")
    ctx.check(isinstance(st, ST), lambda: f"{name}: verdict {st!r}")
    clear = abs(om) > 1e-6 * oma and 1e-280 < abs(tsq) < 1e280
    band = 0.0 if clear or oma == 0.0 else 1e-5 * abs(kap) * oma
    if clear or oma == 0.0:
        ctx.check(abs(e.get_tsq() - tsq) <= 1e-9 * abs(tsq), lambda: f"{name}: measure {e.get_tsq()} after a cut whose direction has squared half-width {tsq}")
    want = table(how, beta, tsq, band)
    if want is not None:
        ctx.check(st is want, lambda: f"{name}: {how} cut with offset {beta} at half-width {tau} (tsq {tsq}) gave {st} instead of {want}")
    if st is not ST.SUCCESS:
        ctx.reach("refused: " + st.value)
        ctx.fault("refused cut")
        r.same((kap, mq, xc), f"after a refused {how} cut")
        return
    ctx.reach("accepted")
    ctx.nontrivial = True
    ctx.check(e.no_defer_trick == defer, lambda: f"{name}: the scaling mode changed")
    if not clear:
        return
    # what the calculator says, applied to the state before the cut
    _, (rho, sig, dl) = coefficients(n, how, beta if isinstance(beta, tuple) else float(beta), tsq)
    if not (np.isfinite(rho) and np.isfinite(sig) and np.isfinite(dl)):
        return
    x2 = xc - (rho / om) * gt
    m2 = mq - (sig / om) * np.outer(gt, gt)
    k2 = kap * dl
    amp = oma / abs(om)
    tk, tm, tx = r.state()
    sx = np.abs(xc).max() + np.abs(rho / om * gt).max()
    ctx.check(np.abs(tx - x2).max() <= 1e-9 * amp * sx, lambda: f"{name}: centre {tx} after a {how} cut with offset {beta}; its calculator's coefficients give {x2}")
    sm = abs(k2) * (np.abs(mq).max() + abs(sig / om) * np.abs(gt).max() ** 2)
    ctx.check(np.abs(tk * tm - k2 * m2).max() <= 1e-9 * amp * sm, lambda: f"{name}: kappa*matrix {(tk * tm).tolist()} after a {how} cut with offset {beta}; its calculator's coefficients give {(k2 * m2).tolist()}")
    ctx.check(np.abs(tm - tm.T).max() <= 1e-9 * amp * (np.abs(mq).max() + abs(sig / om) * np.abs(gt).max() ** 2) * (abs(k2) if defer else 1.0), lambda: f"{name}: the matrix is no longer symmetric")
    if defer:
        ctx.check(tk == 1.0, lambda: f"{name}: immediate scaling left kappa {tk}")
    elif not (isinstance(beta, tuple) and beta[1] is not None):
        ctx.check(abs(tk) < abs(kap), lambda: f"{name}: an accepted one-sided cut left kappa at {tk}, was {kap}")


def against_copy(ctx, r):
    """one cut on the region and on regions rebuilt from its observable state, in both scaling modes"""
    kap, mq, xc = r.state()
    mode = r.e.no_defer_trick
    a = mod.Ell(kap, mq, xc, mode)
    b = mod.Ell(kap, mq, xc, not mode)
    g = np.array([ctx.signed() for _ in range(r.n)])
    gt = mq @ g
    om = float(g @ gt)
    oma = float(np.abs(g) @ (np.abs(mq) @ np.abs(g)))
    if abs(om) <= 1e-6 * oma or not 1e-280 < abs(kap * om) < 1e280:
        return
    tau = np.sqrt(abs(kap * om))
    beta = ctx.of((-0.5 * tau, -0.01 * tau, 0.3 * tau, (-0.5 * tau, -0.4 * tau), (-0.2 * tau, None)))
    how = ctx.of(("update_bias_cut", "update_central_cut", "update_q"))
    ctx.steps += 1
    ctx.reach("compared with regions rebuilt from its state")
    sts = [getattr(e, how)((g.copy(), beta)) for e in (r.e, a, b)]
    ctx.check(sts[0] is sts[1] and sts[1] is sts[2], lambda: f"{r.name}: {how} with offset {beta}: {sts[0]}, rebuilt {sts[1]}, other scaling mode {sts[2]}")
    k0, m0, x0 = r.state()
    amp = oma / abs(om)
    for e, what in ((a, "a region rebuilt from its state"), (b, "the same region in the other scaling mode")):
        with np.errstate(all="ignore"):
            p, q = k0 * m0, e.kappa * e.mq
            if not np.isfinite(p).all() or not np.isfinite(q).all():
                continue
            sx = np.abs(xc).max() + np.abs(x0 - xc).max()
            sm = max(np.abs(p).max(), np.abs(kap * mq).max() * abs(k0 * m0).max() / max(np.abs(k0 * m0).max(), 1e-300)) + abs(k0 / kap if not r.e.no_defer_trick else 1.0) * np.abs(kap * mq).max()
        ctx.check(np.abs(x0 - e.xc).max() <= 1e-9 * amp * sx, lambda: f"{r.name}: centre {x0} after {how}; {what} has {e.xc}")
        ctx.check(np.abs(p - q).max() <= 1e-8 * amp * sm, lambda: f"{r.name}: after {how}, {what} differs: {p.tolist()} and {q.tolist()}")


def malformed(ctx, r):
    """cuts and centres of the wrong shape: refused by an exception, nothing changed"""
    s = r.state()
    n = r.n
    k = ctx.pick(6)
    ctx.fault(("gradient too long", "gradient too short", "centre too long", "centre of another rank", "offset missing", "three offsets")[k])
    g = np.ones(n)
    try:
        if k == 0:
            r.e.update_bias_cut((np.ones(n + 1), -0.1))
        elif k == 1:
            r.e.update_central_cut((np.ones(n - 1), 0.0))
        elif k == 2:
            r.e.set_xc(np.ones(n + 1 + ctx.pick(2)))
        elif k == 3:
            r.e.set_xc(np.ones((1, n)) if ctx.pick(2) else np.ones((n, 1)))
        elif k == 4:
            r.e.update_bias_cut((g, None))
        else:
            r.e.update_q((g, (-0.1, -0.2, -0.3)))
        raised = None
    except (ValueError, TypeError) as e:
        raised = e
    tsq = s[0] * float(g @ s[1] @ g)
    if k < 4 or tsq > 0:
        ctx.check(raised is not None, lambda: f"{r.name}: a malformed request ({k}) was accepted")
    if k in (2, 3):
        ctx.check(isinstance(raised, ValueError), lambda: f"{r.name}: a centre of the wrong shape gave {raised!r}")
    r.same(s, "after a malformed request")


def build_refused(ctx):
    n = 2 + ctx.pick(3)
    k = ctx.pick(4)
    args = [(np.ones(n), np.zeros(n)), (np.ones((n, n + 1)), np.zeros(n)), (np.eye(n), np.zeros(n + 1)), (np.eye(n), np.zeros((n, 1)))][k]
    ctx.fault("malformed construction")
    try:
        mod.Ell(1.0, *args)
        ok = False
    except ValueError:
        ok = True
    ctx.check(ok, f"a region was built from a matrix and a centre that do not fit ({k})")


def recentre(ctx, r):
    kap, mq, _ = r.state()
    x = np.array([ctx.signed() for _ in range(r.n)])
    keep = x.copy()
    r.e.set_xc(x)
    x[:] = 99.0
    r.same((kap, mq, keep), "after re-centring (and the caller reusing its array)")
    ctx.reach("re-centred")


def look(ctx, r):
    s = r.state()
    y = r.e.get_xc()
    ctx.check(vb(y) == vb(s[2]) and np.shape(y) == s[2].shape, lambda: f"{r.name}: get_xc gives {y}, the centre is {s[2]}")
    y[:] = 55.0
    repr(r.e)
    r.same(s, "after its centre was read and the copy overwritten")


def ask_calc(ctx):
    """calculators of several dimensions keep no memory of earlier questions"""
    n = 2 + ctx.pick(8)
    h = ctx.shared.setdefault(n, calc.EllCalc(n))
    tsq = 10.0 ** (ctx.pick(13) - 6) * ctx.real(1.0, 9.0)
    tau = np.sqrt(tsq)
    how = ctx.pick(6)
    b = -tau * ctx.real(0.02, 0.98)
    q = [lambda c: c.calc_bias_cut(b, tsq), lambda c: c.calc_bias_cut_q(b, tsq), lambda c: c.calc_central_cut(tsq), lambda c: c.calc_parallel_central_cut(0.5 * tau, tsq),
         lambda c: c.calc_single_or_parallel_bias_cut((b, 0.5 * b), tsq), lambda c: c.calc_single_or_parallel_q((b, None), tsq)][how]
    x, y = q(h), q(calc.EllCalc(n))
    flat = lambda r: [r[0]] + vb(r[1])
    ctx.check(flat(x) == flat(y), lambda: f"calculator of dimension {n}, question {how}, offset {b}, tsq {tsq}: {x}, a fresh one says {y}")
    if how in (0, 1):
        # the same question in other units: the step scales with the unit, strength and shrinkage do not
        u = 2.0 ** (ctx.pick(21) - 10)
        z = (h.calc_bias_cut if how == 0 else h.calc_bias_cut_q)(b * u, tsq * u * u)
        ok = z[0] is x[0] and abs(z[1][0] - u * x[1][0]) <= 1e-12 * abs(u * x[1][0]) and abs(z[1][1] - x[1][1]) <= 1e-12 * abs(x[1][1]) and abs(z[1][2] - x[1][2]) <= 1e-12
        ctx.check(ok, lambda: f"calculator of dimension {n}: offset {b}, tsq {tsq} gave {x}; in units of {u}: {z}")
    if how < 3:
        ctx.check(x[0] is ST.SUCCESS and x[1][1] > 0.0 and 0.0 < x[1][2] < 1.0, lambda: f"calculator of dimension {n}: question {how} offset {b} tsq {tsq} gave {x}")


def run(ctx):
    ctx.shared = {}
    with np.errstate(all="ignore"):
        rs = [Region(ctx, f"region {i}") for i in range(1 + ctx.pick(3))]
        for _ in range(1 + ctx.pick(20)):
            i = ctx.pick(len(rs))
            r = rs[i]
            others = [(o, o.state()) for o in rs if o is not r]
            if not r.sane():
                rs[i] = Region(ctx, f"region {i} anew")
                continue
            op = ctx.pick(16)
            if op < 8:
                cut_once(ctx, r)
            elif op < 10:
                against_copy(ctx, r)
            elif op == 10:
                malformed(ctx, r)
            elif op == 11:
                recentre(ctx, r)
            elif op == 12:
                look(ctx, r)
            elif op == 13:
                build_refused(ctx)
            else:
                ask_calc(ctx)
            for o, s in others:
                o.same(s, f"while {r.name} was used")


PROP = {
    "id": "C24", "run": run, "runs": {"quick": 150000, "thorough": 4000000},
    "rule": "one run = one to three ellipsoids of the Python port (all constructors, both scaling modes, dimensions 2 to 31) under up to 20 interleaved steps: cuts of all kinds and offsets, refused and malformed cuts, re-centring, reads, rebuilding from observable state, calculator questions; non-trivial when a cut was accepted; distinct by the sequence of cut kinds, offset forms and verdicts",
    "measure": "hash of cut kinds, offset forms, verdicts and scaling modes",
    "real": "Ell, EllCalc, EllCalcCore (python_ai/ellalgo/ell.py, ell_calc.py)",
    "stub": "the cut source",
    "assumptions": ["verdicts within 1e-9 of an offset boundary and directions whose half-width is lost to cancellation (1e-6) are left open", "numbers compared up to rounding amplified by that cancellation"],
}
