"""C20: error metrics follow their definitions and norm laws."""
import math

import numpy as np
import opinf

from pbt.runner import Check
from pbt.oracle import check, close, raises, same, unchanged

post = opinf.post
CHECK = Check("C20", assumptions=[
    "finite data of magnitude 1e-8..1e8, truth not identically zero where a relative error is "
    "compared; no unsigned integers (their differences wrap around)",
    "projection errors for bases with orthonormal real columns",
    "norm laws (triangle inequality) for p >= 1 only; comparisons at 1e-10 relative",
])
TOL = 1e-10


def data(g, shape, label, dtype="f"):
    rng = g.rng(label)
    X = rng.standard_normal(shape)
    kind = g.choice(["plain", "spiky", "scaled", "gappy"], label + ".kind")
    if kind == "spiky":
        X = X * 10.0 ** rng.uniform(-4, 4, shape)
    elif kind == "scaled":
        X = X * g.logscale(-6, 6, label + ".scale")
    elif kind == "gappy":
        X = np.where(rng.uniform(size=shape) < 0.5, 0.0, X)
        X.flat[0] = 1.5
        if X.ndim == 2:
            X[-1] += 1.0
        elif X.size > 1:
            X[-1] += 1.0
    if dtype == "i":
        X = np.round(np.clip(X, -1e3, 1e3) * 5).astype(int)
        X[..., :] += (X == 0)
    elif dtype == "c":
        X = X + 1j * rng.standard_normal(shape)
    return X


def vnorm(column, p):
    """Textbook l-p norm of a sequence of numbers."""
    mags = [abs(x) for x in np.ravel(column).tolist()]
    if p == math.inf:
        return max(mags)
    s = max(mags)
    if s == 0:
        return 0.0
    return s * math.fsum((x / s) ** p for x in mags) ** (1 / p)


def Lnorm(Z, t, p):
    """Textbook L-p norm in time with the trapezoidal rule."""
    Z = np.atleast_2d(Z)
    vals = [vnorm(Z[:, j], p) for j in range(Z.shape[1])]
    if p == math.inf:
        return max(vals)
    s = max(vals)
    if s == 0:
        return 0.0
    t = t.tolist()
    acc = math.fsum(0.5 * (t[j + 1] - t[j]) * ((vals[j] / s) ** p + (vals[j + 1] / s) ** p)
                    for j in range(len(t) - 1))
    return s * acc ** (1 / p)


def order(g):
    p = g.choice([1, 2, np.inf, 1, 2, np.inf, 3, 4, 1.5, 0.5, 7, 2.0, float("inf")], "p")
    if g.rarely("np-scalar", 5):
        p = np.float64(p)
    return p


def pair(g, two=None, timelike=False):
    two = g.bool("2d") if two is None else two
    n, k = g.dim(1, 6, "n", big=40), g.dim(2 if timelike else 1, 7, "k", big=50)
    shape = (n, k) if two else (k if timelike else n,)
    dtype = g.choice("ffffic", "dtype")
    X, Y = data(g, shape, "truth", dtype), data(g, shape, "approx", g.choice("ff" + dtype, "dt2"))
    how = g.choice(["free", "near", "equal", "one", "negated"], "approx")
    if how == "near":
        Y = X + 1e-3 * np.abs(X).max() * np.sign(Y.real if np.iscomplexobj(Y) else Y)
    elif how == "equal":
        Y = X.copy()
    elif how == "one":                      # a single different entry
        Y = np.array(X, dtype=np.result_type(X, float))
        Y.flat[g.int(0, Y.size - 1, "where")] += 1.0
    elif how == "negated":
        Y = -X
    if g.rarely("layout", 4):
        X = np.asfortranarray(X)
        Y = np.repeat(Y, 2, axis=-1)[..., ::2]
    g.tag(how, dtype, f"{X.ndim}d")
    return X, Y


def grid(g, k):
    kind = g.choice(["unit", "uniform", "nonuniform", "int", "negative"], "t")
    if kind == "unit":
        return np.linspace(0, 1, k)
    if kind == "uniform":
        return 3.0 + np.arange(k) * g.logscale(-3, 2, "dt")
    if kind == "int":
        return np.cumsum(g.rng("t").integers(1, 4, k))
    t = np.cumsum(10.0 ** g.rng("t").uniform(-2, 1, k))
    return t - (t[-1] + 1.0 if kind == "negative" else 0.0)


def metrics(g, two=None):
    """(name, call, norm, columnwise, X, Y, p) for a random metric."""
    name = g.choice(["fro", "lp", "lpn", "Lp", "Lp"], "metric")
    if name == "fro":
        X, Y = pair(g, True)
        return name, post.frobenius_error, lambda Z: vnorm(Z, 2), X, Y, 2
    p = order(g)
    if name in ("lp", "lpn"):
        X, Y = pair(g, two)

        def norm(Z):
            if Z.ndim == 1:
                return vnorm(Z, p)
            return np.array([vnorm(Z[:, j], p) for j in range(Z.shape[1])])

        def call(A, B):
            if name == "lp":
                if p == 2 and g.bool("default-p"):
                    return post.lp_error(A, B)
                return post.lp_error(A, B, p)
            return post.lp_error(A, B, p=p, normalize=True)
        return name, call, norm, X, Y, p
    X, Y = pair(g, two, timelike=True)
    t = grid(g, X.shape[-1])

    def callL(A, B):
        if p == np.inf:
            how = g.choice(["no-t", "t"], "with-t")
            return post.Lp_error(A, B, p=p) if how == "no-t" else post.Lp_error(A, B, t, p)
        if p == 2 and g.bool("default-p"):
            return post.Lp_error(A, B, t)
        return post.Lp_error(A, B, t, p)
    return name, callL, lambda Z: Lnorm(Z, t, p), X, Y, p


def rel(name, abs_, nx):
    nx = np.max(nx) if name == "lpn" else nx
    with np.errstate(all="ignore"):
        return abs_ / nx, np.asarray(nx) > 0


@CHECK.sub(quick=3000, rule="truth and approximation differ")
def definition(g):
    name, call, norm, X, Y, p = metrics(g)
    with unchanged(X, Y, msg="error function modified its arguments"), np.errstate(all="ignore"):
        a, r = call(X, Y)
    want = norm(X - Y)
    close(a, want, f"{name}: absolute error", TOL)
    wr, ok = rel(name, np.asarray(want), norm(X))
    if np.ndim(wr) == 0:
        check(np.ndim(a) == 0 and np.ndim(r) == 0, "errors are numbers")
        if ok:
            close(r, wr, f"{name}: relative error", TOL)
    else:
        check(np.shape(a) == (X.shape[1],) and np.shape(r) == (X.shape[1],),
              "one error per snapshot")
        ok = np.broadcast_to(ok, wr.shape)
        close(np.asarray(r)[ok], wr[ok], f"{name}: relative error", TOL)
    check(np.all(np.asarray(a) >= 0), "errors are nonnegative")
    g.tag(name, f"p={float(p):g}")
    g.nontrivial(np.any(X != Y))


@CHECK.sub(quick=2500, rule="truth and approximation differ")
def laws(g):
    name, call, norm, X, Y, p = metrics(g)
    with np.errstate(all="ignore"):
        a, r = call(X, Y)
        b, _ = call(Y, X)
        close(b, a, f"{name}: symmetry", TOL)
        z, _ = call(X, X.copy())
        check(np.all(np.asarray(z) == 0), f"{name}: zero for identical data")
        col = np.any(X != Y, axis=0) if np.ndim(a) else np.any(X != Y)
        check(np.all((np.asarray(a) > 0) == col), f"{name}: zero only for identical data")
        c = g.choice([2.0, -1.0, -0.125, 3.7, 1e5, -1e-5], "c")
        ca, cr = call(c * X, c * Y)
        close(ca, abs(c) * np.asarray(a), f"{name}: homogeneity", TOL)
        ok = np.isfinite(np.asarray(r))
        close(np.asarray(cr)[ok], np.asarray(r)[ok], f"{name}: relative error is scale invariant",
              TOL)
        if p >= 1:
            W = data(g, X.shape, "third")
            c1, c2 = call(X, W)[0], call(W, Y)[0]
            check(np.all(np.asarray(a) <= (np.asarray(c1) + c2) * (1 + 1e-10)),
                  f"{name}: triangle inequality")
        # relative error of the zero approximation is one
        r0 = np.asarray(call(X, 0 * X)[1])
        nx = np.asarray(norm(X))
        want = nx / np.max(nx) if name == "lpn" else np.ones_like(nx, dtype=float)
        ok = nx > 0
        close(r0[ok], want[ok], f"{name}: relative error of the zero approximation", TOL)
    g.tag(name, f"p={float(p):g}")
    g.nontrivial(np.any(X != Y))


@CHECK.sub(quick=800, rule="several columns")
def structure(g):
    """Relations between the metrics and between columns."""
    X, Y = pair(g, True, timelike=True)
    n, k = X.shape
    p = order(g)
    with np.errstate(all="ignore"):
        a, r = post.lp_error(X, Y, p)
        an, rn = post.lp_error(X, Y, p, normalize=True)
        same(np.asarray(a), np.asarray(an), "normalize changes the absolute error")
        j = g.int(0, k - 1, "j")
        aj, rj = post.lp_error(X[:, j], Y[:, j], p)
        close(aj, a[j], "a column is a snapshot", TOL)
        if np.isfinite(rj):
            close(rj, r[j], "a column is a snapshot (relative)", TOL)
        pm = np.array(g.perm(k, "cols"))
        close(post.lp_error(X[:, pm], Y[:, pm], p)[0], a[pm], "column order", TOL)
        pr = np.array(g.perm(n, "rows"))
        close(post.lp_error(X[pr], Y[pr], p)[0], a, "row order", TOL)
        f, fr = post.frobenius_error(X, Y)
        l2 = post.lp_error(X, Y)[0]
        close(f, math.sqrt(math.fsum(float(x) ** 2 for x in l2)), "Frobenius vs columns", TOL)
        fl, flr = post.frobenius_error(X.T, Y.T)
        close(fl, f, "Frobenius of the transpose", TOL)
        close(post.Lp_error(X, Y, p=np.inf)[0], np.max(np.abs(X - Y)), "sup norm", TOL)
        # additivity of the integral over adjacent time intervals
        t = grid(g, k)
        if p != np.inf and k >= 3:
            c = g.int(1, k - 2, "cut")
            whole = post.Lp_error(X, Y, t, p)[0]
            parts = [post.Lp_error(X[:, s], Y[:, s], t[s], p)[0]
                     for s in (slice(0, c + 1), slice(c, k))]
            top = max(whole, *parts)
            if top > 0:
                close((whole / top) ** p, (parts[0] / top) ** p + (parts[1] / top) ** p,
                      "additivity in time", 1e-9, scale=1.0)
        # time shift
        close(post.Lp_error(X, Y, t + 2.5, 1)[0], post.Lp_error(X, Y, t, 1)[0], "time shift", 1e-8)
        # one-dimensional data: each entry is one snapshot
        close(post.Lp_error(X[0], Y[0], t, 1.5)[0], post.Lp_error(X[:1], Y[:1], t, 1.5)[0],
              "one-dimensional data", TOL)
    g.tag(f"p={float(p):g}")
    g.nontrivial(k > 1)


@CHECK.sub(quick=800, rule="the projection is not the identity")
def projection(g):
    n = g.dim(1, 8, "n", big=60)
    r = g.int(1, n, "r")
    V = g.orth(n, r, "V")
    if g.rarely("axes", 4):
        V = np.eye(n)[:, g.perm(n, "ax")[:r]]
    shape = (n,) if g.bool("1d") else (n, g.dim(1, 6, "k", big=30))
    Q = data(g, shape, "Q", g.choice("ffi", "dtype"))
    if g.rarely("inside", 4):
        Q = V @ (V.T @ Q)
        if np.abs(Q).max() < 1e-12:
            return
    with unchanged(Q, V, msg="projection_error() modified its arguments"):
        a, r_ = post.projection_error(Q, V)
    P = np.array([[math.fsum(V[i, l] * V[j, l] for l in range(r)) for j in range(n)]
                  for i in range(n)])
    nq = vnorm(Q, 2)
    close(a, vnorm(Q - P @ Q, 2), "projection error", 1e-10, scale=nq)
    close(r_, vnorm(Q - P @ Q, 2) / nq, "relative projection error", 1e-10, scale=1.0)
    check(np.ndim(a) == 0 and np.ndim(r_) == 0, "errors are numbers")
    check(r_ <= 1 + 1e-10, "projection error at most the norm of the data")
    # Pythagoras, optimality over the subspace, invariance under a change of basis
    c = vnorm(V.T @ Q, 2)
    close(a ** 2 + c ** 2, nq ** 2, "Pythagoras", 1e-9)
    other = V @ data(g, (V.shape[1],) + shape[1:], "coef")
    check(a <= vnorm(Q - other, 2) * (1 + 1e-9) + 1e-10 * nq, "best approximation")
    R = g.orth(r, r, "R")
    close(post.projection_error(Q, V @ R)[0], a, "change of basis", 1e-10, scale=nq)
    close(post.projection_error(2.5 * Q, V)[1], r_, "scale invariance", 1e-10, scale=1.0)
    g.nontrivial(r < n)


@CHECK.sub(quick=500, rule="every generated case")
def misuse(g):
    X, Y = pair(g, True, timelike=True)
    n, k = X.shape
    t = np.linspace(0, 1, k)
    how = g.choice(["cols", "rows", "vec", "p0", "pneg", "plist", "3d", "fro1d", "no-t", "t2d",
                    "t-length", "bcast", "transposed"], "how")
    fns = {"fro": lambda A, B: post.frobenius_error(A, B),
           "lp": lambda A, B: post.lp_error(A, B),
           "Lp": lambda A, B: post.Lp_error(A, B, t),
           "Linf": lambda A, B: post.Lp_error(A, B, p=np.inf)}
    fn = fns[g.choice(sorted(fns), "fn")]
    E = ValueError
    if how == "cols":
        raises(E, lambda: fn(X, Y[:, :-1]), "columns not aligned")
    elif how == "rows":
        raises(E, lambda: fn(np.vstack([X, X]), Y), "rows not aligned")
    elif how == "vec":
        raises(E, lambda: fn(X, Y[:, 0]), "vector against matrix")
    elif how == "bcast" and (n > 1 or k > 1):
        raises(E, lambda: fn(X, Y[:1, :1]), "broadcasting")
        raises(E, lambda: fn(X, Y[:, :1]) if k > 1 else fn(X, Y[:1]), "broadcasting")
    elif how == "transposed" and n != k:
        raises(E, lambda: fn(X, Y.T), "transposed")
    elif how in ("p0", "pneg", "plist"):
        p = {"p0": 0, "pneg": -1.0, "plist": [2]}[how]
        raises(E, lambda: post.lp_error(X, Y, p), "bad p")
        raises(E, lambda: post.Lp_error(X, Y, t, p), "bad p")
    elif how == "3d":
        A = X[None]
        raises(E, lambda: fn(A, A), "three-dimensional")
    elif how == "fro1d":
        raises(E, lambda: post.frobenius_error(X[0], Y[0]), "one-dimensional")
    elif how == "no-t":
        raises(E, lambda: post.Lp_error(X, Y), "no time")
    elif how == "t2d":
        raises(E, lambda: post.Lp_error(X, Y, t[None]), "2d time")
    elif how == "t-length":
        raises(E, lambda: post.Lp_error(X, Y, np.linspace(0, 1, k + 1)), "time length")
        raises(E, lambda: post.Lp_error(X[0], Y[0], np.linspace(0, 1, k - 1)), "time length")
    g.tag(how)
    g.nontrivial()
