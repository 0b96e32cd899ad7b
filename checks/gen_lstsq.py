"""Least-squares problems with known spectra, and solver settings with references."""
import numpy as np
import opinf
import scipy.sparse as sp

L = opinf.lstsq
KINDS = ("plain", "l2", "l2dec", "tik", "tikdec", "tsvd", "tls")
CLASS = {"plain": L.PlainSolver, "l2": L.L2Solver, "l2dec": L.L2DecoupledSolver,
         "tik": L.TikhonovSolver, "tikdec": L.TikhonovDecoupledSolver,
         "tsvd": L.TruncatedSVDSolver, "tls": L.TotalLeastSquaresSolver}
REGULARIZED = ("l2", "l2dec", "tik", "tikdec")


class Problem:
    """D (k x d) with prescribed singular values and Z (r x k)."""

    def __init__(self, D, Z, svals, rank):
        self.D, self.Z, self.svals, self.rank = D, Z, svals, rank
        self.k, self.d = D.shape
        self.r = Z.shape[0]


def problem(g, r=None, d=None, shape=None, deficient=True, label="pb", gaps=False):
    d = d or g.int(1, 8, label + ".d")
    r = r or g.int(1, 4, label + ".r")
    shape = shape or g.choice(["tall", "tall", "tall", "square", "wide"], label + ".shape")
    k = {"tall": d + g.int(1, 12, label + ".k"), "square": d,
         "wide": max(1, d - g.int(1, 4, label + ".k"))}[shape]
    p = min(k, d)
    rank = p
    if deficient and p > 1 and g.rarely(label + ".deficient", 4):
        rank = g.int(1, p - 1, label + ".rank")
    rng = g.rng(label)
    spread = g.choice([0.5, 1.0, 2.0, 3.0], label + ".cond")
    s = 10.0 ** (-np.sort(rng.uniform(0, spread, p)))
    if gaps:
        s = 10.0 ** (-0.3 * np.arange(p) - rng.uniform(0, 0.05, p))
    s *= 10.0 ** g.int(-2, 2, label + ".scale")
    s[rank:] = 0.0
    Uq = np.linalg.qr(rng.standard_normal((k, p)))[0]
    Vq = np.linalg.qr(rng.standard_normal((d, p)))[0]
    D = (Uq * s) @ Vq.T
    Z = rng.standard_normal((r, k))
    form = g.choice(["random", "consistent", "nearly"], label + ".lhs")
    if form != "random":
        Z = rng.standard_normal((r, d)) @ D.T + (0.01 * Z if form == "nearly" else 0.0)
    return Problem(D, Z, s, rank)


class Setting:
    """Constructor arguments of a solver with the matrices Gamma_i they stand for."""

    def __init__(self, kind, arg, gammas, method="lstsq", options=None, modes=None):
        self.kind, self.arg, self.gammas = kind, arg, gammas
        self.method, self.options, self.modes = method, dict(options or {}), modes

    def make(self, with_reg=True):
        Class = CLASS[self.kind]
        if self.kind == "tsvd":
            return Class(self.modes, **self.options)
        kw = dict(self.options)
        if self.kind in ("tik", "tikdec"):
            kw["method"] = self.method
        if self.kind in REGULARIZED:
            return Class(self.arg if with_reg else None, **kw) if with_reg else Class(**kw)
        return Class(**kw)


def gamma_matrix(g, d, label, floor=0.05):
    """(argument form, d x d matrix) of a well-conditioned regularizer."""
    rng = g.rng(label)
    form = g.choice(["diag", "list", "dense", "sparse", "nested", "upper"], label + ".form")
    size = 10.0 ** g.int(-1, 2, label + ".size")
    diag = size * rng.uniform(0.3, 1.5, d)
    if form in ("diag", "list"):
        return (diag if form == "diag" else [float(x) for x in diag]), np.diag(diag)
    if form == "sparse":
        G = np.diag(diag)
        return getattr(sp, g.choice(["csr", "csc", "dia", "coo"], label + ".fmt")
                       + "_array")(G), G
    if form == "upper":
        G = np.triu(rng.standard_normal((d, d)) * 0.2 * size / np.sqrt(d), 1) + np.diag(diag)
        return G, G.copy()
    A = rng.standard_normal((d, d)) / np.sqrt(d)
    G = size * (A @ A.T + 0.3 * np.eye(d))
    return (G if form == "dense" else G.tolist()), G.copy()


def setting(g, kind, r, d, label="set", zero_ok=False):
    opts = {}
    if kind in ("l2", "l2dec", "tsvd", "tls") and g.bool(label + ".driver"):
        opts["lapack_driver"] = g.choice(["gesdd", "gesvd"], label + ".lapack")
    if kind in ("tik", "tikdec", "plain") and g.bool(label + ".driver"):
        opts["lapack_driver"] = g.choice(["gelsd", "gelsy", "gelss"], label + ".lapack")
    if kind == "l2":
        reg = 0 if zero_ok and g.rarely(label + ".zero", 6) else \
            float(g.uniform(0.2, 2.0, None, label) * 10.0 ** g.int(-1, 2, label + ".size"))
        if reg and g.bool(label + ".np"):
            reg = np.float64(reg)
        return Setting(kind, reg, [reg * np.eye(d)] * r, options=opts)
    if kind == "l2dec":
        regs = g.uniform(0.2, 2.0, r, label) * 10.0 ** g.int(-1, 2, label + ".size")
        if zero_ok and g.rarely(label + ".zero", 6):
            regs[g.int(0, r - 1, label + ".which")] = 0.0
        arg = regs if g.bool(label + ".arr") else [float(x) for x in regs]
        return Setting(kind, arg, [x * np.eye(d) for x in regs], options=opts)
    method = g.choice(["lstsq", "normal"], label + ".method")
    if kind == "tik":
        arg, G = gamma_matrix(g, d, label)
        return Setting(kind, arg, [G] * r, method, opts)
    if kind == "tikdec":
        pairs = [gamma_matrix(g, d, f"{label}{i}") for i in range(r)]
        return Setting(kind, [a for a, _ in pairs], [G for _, G in pairs], method, opts)
    return Setting(kind, None, [np.zeros((d, d))] * r, options=opts)


def regularized_solution(D, Z, gammas):
    """Row-wise minimisers of |D o - z|^2 + |G o|^2, and the worst condition number."""
    rows, worst = [], 1.0
    d = D.shape[1]
    for z, G in zip(Z, gammas):
        A = np.vstack([D, G])
        s = np.linalg.svd(A, compute_uv=False)
        worst = max(worst, s[0] / s[-1] if s[-1] > 0 else np.inf)
        rows.append(np.linalg.lstsq(A, np.concatenate([z, np.zeros(d)]), rcond=None)[0])
    return np.array(rows), worst
