"""C07: derivative estimators are exact to their order and stay aligned."""
import warnings

import numpy as np
import scipy.interpolate as interp
import opinf

from pbt.runner import Check
from pbt.oracle import check, close, same, unchanged

CHECK = Check("C07", assumptions=[
    "tolerances are 1e-9 of max|state|/dt, far above rounding, far below one wrong coefficient",
    "time grids are strictly increasing",
])
SCHEMES = ([f"fwd{i}" for i in range(1, 7)] + [f"bwd{i}" for i in range(1, 7)]
           + ["ctr2", "ctr4", "ctr6", "ord2", "ord4", "ord6"])


class Poly:
    """Random polynomial trajectories of given degree, and their derivatives."""

    def __init__(self, g, r, deg, t):
        self.a, self.w = t[0], (t[-1] - t[0])
        self.C = g.normal((r, deg + 1), "coef")

    def __call__(self, t):
        return np.array([np.polynomial.polynomial.polyval((t - self.a) / self.w, c)
                         for c in self.C])

    def d(self, t):
        return np.array([np.polynomial.polynomial.polyval(
            (t - self.a) / self.w, np.polynomial.polynomial.polyder(c)) / self.w
            for c in self.C])


def uniform_grid(g, k):
    t0 = g.choice([0.0, 0.0, -2.0, 1.5], "t0")
    dt = g.choice([1.0, 0.5, 0.1, 1e-2, 1e-3, 3.7], "dt")
    if g.rarely("extreme dt", 6):
        t0, dt = 0.0, g.choice([1e-9, 1e-6, 1e5, 1e9], "dt2")
    return t0 + dt * np.arange(k), dt


def nonuniform_grid(g, k):
    steps = g.uniform(0.3, 1.7, k - 1, "steps") * g.choice([1.0, 0.1, 1e-3], "dt")
    return g.choice([0.0, -2.0, 1.5], "t0") + np.concatenate([[0.0], np.cumsum(steps)])


def draw_inputs(g, k, t):
    kind = g.choice([None, "2d", "2d", "1d"], "inputs")
    if kind is None:
        return None
    if kind == "1d":
        return t + 10.0
    U = g.normal((g.int(1, 3, "m"), k), "U")
    U[0] = t + 10.0
    return U


def unpack(out, U, msg):
    want = 2 if U is None else 3
    check(isinstance(out, tuple) and len(out) == want, f"{msg}: returns {want} arrays")
    return out if U is not None else (*out, None)


@CHECK.sub(quick=4000, rule="more columns than the minimal stencil, or inputs given")
def uniform(g):
    scheme = g.choice(SCHEMES, "scheme")
    order = int(scheme[3])
    k = order + 1 + g.dim(0, 8, "extra", 40)
    r = g.int(1, 4, "r")
    t, dt = uniform_grid(g, k)
    p = Poly(g, r, g.int(0, order, "deg"), t)
    Q = p(t)
    Q = np.vstack([Q, t])                       # time itself as the last state
    U = draw_inputs(g, k, t)
    tol = 1e-9 * np.abs(Q[:-1]).max() / dt
    ttol = 1e-9 * max(1, np.abs(t).max() / dt)
    est = opinf.ddt.UniformFiniteDifferencer(t, scheme)
    func = getattr(opinf.ddt, scheme)
    check(est.scheme is func and abs(est.dt - dt) <= 1e-10 * dt * max(1, abs(t[0]) / dt),
          "scheme and dt attributes")
    same(est.time_domain, t, "time_domain")
    with unchanged(Q, t, *([] if U is None else [U])):
        S, D, V = unpack(est.estimate(Q, U) if U is not None else est.estimate(Q), U, scheme)
        S2, D2, V2 = unpack(func(Q, dt, U) if U is not None else func(Q, dt), U, scheme)
    kk = k if scheme.startswith("ord") else k - order
    lo = {"ord": 0, "fwd": 0, "bwd": order, "ctr": order // 2}[scheme[:3]]
    sel = slice(lo, lo + kk)
    same(S, Q[:, sel], f"{scheme}: states at the estimation times")
    check(D.shape == S.shape, f"{scheme}: derivatives align with states")
    ts = S[-1]
    close(D[:-1], p.d(ts), f"{scheme}: derivative of a degree <= {order} polynomial", atol=tol)
    close(D[-1], np.ones(kk), f"{scheme}: derivative of time", atol=ttol)
    same(S2, S, "function and class: states")
    close(D2[:-1], D[:-1], "function and class: derivatives", atol=tol)
    close(D2[-1], D[-1], "function and class: derivatives", atol=ttol)
    if U is not None:
        U2 = np.atleast_2d(U)
        same(V, U2[:, sel], f"{scheme}: inputs at the same times")
        same(np.atleast_2d(V2), U2[:, sel], f"{scheme}: function inputs at the same times")
    A = g.normal((2, k), "mask")
    same(est.mask(A), A[:, sel], "mask(matrix)")
    same(est.mask(A[0]), A[0, sel], "mask(vector)")
    same(est.mask(np.array([A, A])), np.array([A, A])[..., sel], "mask(3d)")
    # linear in the states, variable by variable, for arbitrary data
    X, Y = g.normal((2, k), "X"), g.normal((2, k), "Y")
    a = float(g.choice([2.0, -0.5, 3.0], "a"))
    DX, DY = est.estimate(X)[1], est.estimate(Y)[1]
    ltol = 1e-11 * (np.abs(X).max() + np.abs(Y).max()) * 30 / dt
    close(est.estimate(a * X + Y)[1], a * DX + DY, "linear in the states", atol=ltol)
    close(est.estimate(X[1:])[1], DX[1:], "variable by variable", atol=ltol)
    if g.rarely("int", 4):
        Z = g.rng("Z").integers(-5, 6, (2, k))
        close(est.estimate(Z)[1], est.estimate(Z.astype(float))[1], "integer states", atol=ltol)
    if g.rarely("verify", 40):
        est.verify()
        same(est.time_domain, t, "verify() restores the time domain")
        same(est.estimate(X)[1], DX, "verify() does not change the estimator")
    g.tag(scheme, f"U={None if U is None else U.ndim}")
    g.nontrivial(kk > 1 or U is not None)


@CHECK.sub(quick=1500, rule="more than three columns")
def functions(g):
    """ddt(), ddt_uniform(), ddt_nonuniform(), NonuniformFiniteDifferencer."""
    r = g.int(1, 4, "r")
    if g.bool("uniform"):
        order = g.choice([2, 4, 6], "order")
        k = order + 1 + g.dim(0, 8, "extra", 40)
        t, dt = uniform_grid(g, k)
        p = Poly(g, r, g.int(0, order, "deg"), t)
        Q = p(t)
        tol = 1e-9 * max(1, np.abs(Q).max()) / dt
        calls = {
            "ddt_uniform": lambda: opinf.ddt.ddt_uniform(Q, dt, order=order),
            "ddt(dt, order)": lambda: opinf.ddt.ddt(Q, dt, order),
            "ddt(dt=, order=)": lambda: opinf.ddt.ddt(Q, dt=dt, order=order),
            "ddt(dt, order=)": lambda: opinf.ddt.ddt(Q, dt, order=order),
        }
        if order == 2:
            calls.update({
                "ddt_uniform(dt)": lambda: opinf.ddt.ddt_uniform(Q, dt),
                "ddt(dt)": lambda: opinf.ddt.ddt(Q, dt),
                "ddt(dt=)": lambda: opinf.ddt.ddt(Q, dt=dt),
                "ddt(t) on a uniform grid": lambda: opinf.ddt.ddt(Q, t),
            })
        with unchanged(Q):
            for name, fn in calls.items():
                close(fn(), p.d(t), f"{name}, order {order}", atol=tol)
        Z = g.rng("Z").integers(-5, 6, (2, k))
        close(opinf.ddt.ddt_uniform(Z, dt, order), opinf.ddt.ddt_uniform(Z.astype(float), dt, order),
              "integer states", atol=1e-9 / dt)
        g.tag(f"uniform{order}")
    else:
        k = 3 + g.dim(0, 8, "extra", 40)
        t = nonuniform_grid(g, k)
        p = Poly(g, r, g.int(0, 2, "deg"), t)
        Q = p(t)
        tol = 1e-9 * max(1, np.abs(Q).max()) / np.diff(t).min()
        U = draw_inputs(g, k, t)
        est = opinf.ddt.NonuniformFiniteDifferencer(t)
        same(est.time_domain, t, "time_domain")
        with unchanged(Q, t):
            close(opinf.ddt.ddt_nonuniform(Q, t), p.d(t), "ddt_nonuniform", atol=tol)
            close(opinf.ddt.ddt(Q, t), p.d(t), "ddt(t)", atol=tol)
            close(opinf.ddt.ddt(Q, t=t), p.d(t), "ddt(t=)", atol=tol)
            S, D, V = unpack(est.estimate(Q, U) if U is not None else est.estimate(Q), U, "est")
        same(S, Q, "states")
        close(D, p.d(t), "NonuniformFiniteDifferencer", atol=tol)
        if U is not None:
            same(V, np.atleast_2d(U), "inputs")
        X, Y = g.normal((2, k), "X"), g.normal((2, k), "Y")
        DX, DY = est.estimate(X)[1], est.estimate(Y)[1]
        ltol = 1e-10 * (np.abs(X).max() + np.abs(Y).max()) / np.diff(t).min()
        close(est.estimate(2 * X - Y)[1], 2 * DX - DY, "linear in the states", atol=ltol)
        close(est.estimate(X[1:])[1], DX[1:], "variable by variable", atol=ltol)
        A = g.normal((2, k), "mask")
        same(est.mask(A), A, "mask")
        g.tag("nonuniform")
    g.nontrivial(k > 3)


REF = {"cubic": interp.CubicSpline, "akima": interp.Akima1DInterpolator,
       "pchip": interp.PchipInterpolator}


@CHECK.sub(quick=2000, rule="new time domain or inputs given")
def interpolation(g):
    k = 4 + g.dim(0, 8, "extra", 40)
    r = g.int(1, 4, "r")
    t = nonuniform_grid(g, k) if g.bool("nonuniform") else uniform_grid(g, k)[0]
    kind = g.choice(["cubic", "cubic", "akima", "pchip"], "kind")
    opts = {}
    maxdeg = 1
    if kind == "cubic":
        bc = g.choice([None, "natural", "not-a-knot"], "bc")
        if bc is not None:
            opts["bc_type"] = bc
        if bc != "natural":
            maxdeg = 3
    asclass = g.rarely("asclass", 4)
    cls = REF[kind] if asclass else kind
    t2 = None
    t2kind = g.choice([None, "inside", "inside", "same", "beyond"], "t2")
    w = t[-1] - t[0]
    if t2kind == "inside":
        t2 = np.sort(t[0] + w * g.uniform(0, 1, g.int(1, 12, "k2"), "t2v"))
        if g.rarely("endpoints", 3):
            t2 = np.concatenate([[t[0]], t2, [t[-1]]])
        if g.rarely("reverse", 4):
            t2 = t2[::-1].copy()
    elif t2kind == "same":
        t2 = t.copy()
    elif t2kind == "beyond" and kind == "cubic":
        t2 = np.append(t, t[-1] + 0.1 * w / k)
    args = dict(opts)
    if asclass:
        args["axis"] = 1
    est = opinf.ddt.InterpDerivativeEstimator(t, cls, new_time_domain=t2, **args)
    same(est.time_domain, t, "time_domain")
    p = Poly(g, r, g.int(0, maxdeg, "deg"), t)
    Q = np.vstack([p(t), t])
    U = draw_inputs(g, k, t)
    te = t if t2 is None else t2
    dt = np.diff(t).min()
    tol = 1e-8 * max(1, np.abs(Q).max()) / dt
    for rep in range(g.choice([1, 2], "reps")):
        with unchanged(Q, t, *([] if U is None else [U])):
            S, D, V = unpack(est.estimate(Q, U) if U is not None else est.estimate(Q), U, kind)
        close(S[:-1], p(te), "states at the new times", rtol=1e-9, scale=np.abs(Q).max())
        close(S[-1], te, "states[-1] is time", rtol=1e-9, scale=np.abs(t).max())
        close(D[:-1], p.d(te), f"{kind}: derivative of a degree <= {maxdeg} polynomial", atol=tol)
        close(D[-1], np.ones(te.size), "derivative of time", atol=tol)
        if U is not None:
            U2 = np.atleast_2d(U)
            close(V[0], te + 10.0, "inputs at the same times", rtol=1e-9)
            ref = U2 if t2 is None else np.array([REF[kind](t, u, **opts)(t2) for u in U2])
            close(V, ref, "interpolated inputs", rtol=1e-8, scale=np.abs(U2).max())
    # arbitrary data, row by row, against scipy
    X = g.normal((2, k), "X")
    ref = np.array([REF[kind](t, x, **opts)(te, 1) for x in X])
    close(est.estimate(X)[1], ref, "row-wise scipy derivative", rtol=1e-8, scale=1 / dt)
    refm = X if t2 is None else np.array([REF[kind](t, x, **opts)(te) for x in X])
    close(est.mask(X), refm, "mask(matrix)", rtol=1e-8, scale=1.0)
    close(est.mask(X[0]), refm[0], "mask(vector)", rtol=1e-8, scale=1.0)
    if kind == "cubic":
        Y = g.normal((2, k), "Y")
        close(est.estimate(2 * X - Y)[1], 2 * ref - est.estimate(Y)[1], "linear in the states",
              rtol=1e-8, scale=1 / dt)
    str(est)
    g.tag(kind, f"t2={t2kind}", f"U={None if U is None else U.ndim}", *opts.values())
    g.nontrivial(t2 is not None or U is not None)
