"""Generators of parametric operators with independent references."""
import numpy as np
import opinf
import scipy.interpolate as si

from pbt.oracle import check
from checks.gen_ops import CLASSES, Ref, dims, entries_of

ops = opinf.operators
AFFINE = {"c": ops.AffineConstantOperator, "A": ops.AffineLinearOperator,
          "H": ops.AffineQuadraticOperator, "G": ops.AffineCubicOperator,
          "B": ops.AffineInputOperator, "N": ops.AffineStateInputOperator}
INTERP = {"c": ops.InterpConstantOperator, "A": ops.InterpLinearOperator,
          "H": ops.InterpQuadraticOperator, "G": ops.InterpCubicOperator,
          "B": ops.InterpInputOperator, "N": ops.InterpStateInputOperator}
KINDS = "cAHGBN"


def renamed(module, Class):
    """The deprecated name of an interpolatory operator or model class."""
    return getattr(module, Class.__name__.replace("Interp", "Interpolated", 1))


def theta_functions(g, nterms, p, label="theta"):
    """Coefficient functions (a_l + b_l . mu + sin(c_l . mu)), constants and monomials."""
    rng = g.rng(label)
    a, b, c = rng.standard_normal(nterms), rng.standard_normal((nterms, p)), rng.standard_normal((nterms, p))

    special = g.choice([None, None, "one", "zero", "int", "power"], label + ".special")
    which = g.int(0, nterms - 1, label + ".which") if special else None

    def one(i):
        if i == which and special == "power":
            return lambda mu: float(np.atleast_1d(mu)[0]) ** 2
        if i == which:
            return lambda mu: {"one": 1.0, "zero": 0.0, "int": 1}[special]

        def theta(mu):
            mu = np.atleast_1d(mu).astype(float)
            return float(a[i] + b[i] @ mu + np.sin(c[i] @ mu))
        return theta
    return [one(i) for i in range(nterms)]


def coefficients(g, nterms, p, label="coeffs", forms=None):
    """(argument, keyword arguments, reference theta(mu) -> (nterms,), p)."""
    opts = ["list", "tuple", "callable", "callable-list"]
    if nterms == p:
        opts += ["int", "int"]
    if nterms == 1:
        opts += ["callable-scalar"]
    form = g.choice(forms or opts, label + ".form")
    g.tag("coeffs-" + form)
    if form == "int":
        return nterms, {}, (lambda mu: np.atleast_1d(mu).astype(float))
    fs = theta_functions(g, nterms, p, label)

    def ref(mu):
        return np.array([f(mu) for f in fs])
    if form in ("list", "tuple"):
        return (fs if form == "list" else tuple(fs)), {}, ref
    if form == "callable":
        return ref, {"nterms": nterms}, ref
    if form == "callable-list":
        return (lambda mu: [f(mu) for f in fs]), {"nterms": nterms}, ref
    return fs[0], {"nterms": 1}, ref


def draw_parameter(g, p, label="mu", as_is=None):
    v = g.uniform(-2, 2, (p,), label)
    if g.rarely(label + ".whole", 4):       # ones and zeros among them
        v = np.round(v / 2)
    if p == 1:
        form = as_is or g.choice(["scalar", "array"], label + ".form")
        return float(v[0]) if form == "scalar" else v
    return v


class AffineRef:
    """Reference of an affine operator."""

    def __init__(self, theta, refs, p):
        self.theta, self.refs, self.p = theta, refs, p
        self.kind, self.r, self.m = refs[0].kind, refs[0].r, refs[0].m

    @property
    def takes_input(self):
        return self.kind in "BN"

    def at(self, mu):
        t = self.theta(mu)
        return Ref(self.kind, self.r, self.m,
                   sum(a * R.coef for a, R in zip(t, self.refs)), self.refs[0].p)

    def scale_at(self, mu, q, u):
        """Rounding scale: no cancellation between the terms."""
        return float(sum(abs(a) * R.scale(q, u)
                         for a, R in zip(self.theta(mu), self.refs)))


def affine(g, kind=None, r=None, m=None, p=None, nterms=None, label="aff", fmt=None,
           with_entries=True, many=True):
    """(operator, AffineRef, constructor arguments)."""
    kind = kind or g.choice(KINDS, "kind")
    r = r or dims(g, kind)
    m = m or g.int(1, 3, "m")
    p = p or g.choice([1, 2, 1, 3], "p")
    nterms = nterms or g.choice([p, 1, 2, 3, 4], "nterms")
    if many and r <= 3 and g.rarely("many", 8):
        nterms = g.int(10, 13, "many.terms")
    arg, kw, theta = coefficients(g, nterms, p)
    items = [entries_of(g, kind, r, m, fmt=fmt, label=f"{label}{i}") for i in range(nterms)]
    ref = AffineRef(theta, [it[1] for it in items], p)
    # matrices of one operator must share a shape: convert the odd ones out
    args = [it[0] for it in items]
    # (documented: arrays) and a format
    if len({(np.shape(a), False) if not hasattr(a, "toarray") else (a.shape, True)
            for a in args}) > 1:
        args = [R.coef[:, 0] if kind == "c" else R.coef for R in ref.refs]
    op = AFFINE[kind](arg, entries=args if with_entries else None, **kw)
    return op, ref, (arg, kw, args)


def training_points(g, p, s, label="pts"):
    """s distinct parameters, unsorted; (s,) for p == 1 or (s, p).

    For p > 1 they include the corners of a box so the hull has volume."""
    if p == 1:
        steps = g.rng(label).uniform(0.2, 1.0, s)
        x = np.cumsum(steps) - g.float(0, 3, label + ".shift")
        return x[g.perm(s, label + ".perm")]
    corners = np.array(np.meshgrid(*[[-1.0, 1.0]] * p)).reshape(p, -1).T
    inner = g.rng(label).uniform(-0.9, 0.9, (max(s - len(corners), 1), p))
    pts = np.vstack([corners, inner]) * g.uniform(0.5, 2.0, (p,), label + ".scale")
    return pts[g.perm(len(pts), label + ".perm")]


def interpolator_reference(Class, params, values):
    """Elementwise interpolation of values (s, ...) by the given class."""
    values = np.asarray(values, dtype=float)
    flat = values.reshape(len(values), -1)
    if params.ndim == 1:
        order = np.argsort(params)
        Class = Class or si.CubicSpline
        f = Class(params[order], flat[order])

        def at(mu):
            return np.asarray(f(float(np.atleast_1d(mu)[0]))).reshape(values.shape[1:])
    else:
        Class = Class or si.LinearNDInterpolator
        f = Class(params, flat)

        def at(mu):
            return np.asarray(f(np.atleast_2d(mu))).reshape(values.shape[1:])
    return at


ONE_D = [None, None, si.CubicSpline, si.PchipInterpolator, si.Akima1DInterpolator]
MULTI_D = [None, None, si.LinearNDInterpolator, si.NearestNDInterpolator]


class InterpRef:
    def __init__(self, Class, params, refs):
        self.refs, self.params = refs, params
        self.kind, self.r, self.m = refs[0].kind, refs[0].r, refs[0].m
        # interpolation is linear in the entries
        self.linear = Class not in (si.PchipInterpolator, si.Akima1DInterpolator)
        self.f = interpolator_reference(Class, params, [R.coef for R in refs])
        self.maxcoef = max(np.abs(R.coef).max(initial=0) for R in refs)

    @property
    def takes_input(self):
        return self.kind in "BN"

    def at(self, mu):
        return Ref(self.kind, self.r, self.m, self.f(mu), self.refs[0].p)

    def scale_at(self, mu, q, u):
        size = max(self.maxcoef, np.abs(np.nan_to_num(self.f(mu))).max(initial=0))
        C = Ref(self.kind, self.r, self.m,
                np.full_like(self.refs[0].coef, size), self.refs[0].p)
        return 10 * C.scale(q, u)


def interp(g, kind=None, r=None, m=None, p=None, s=None, label="int", Class="draw",
           params=None):
    kind = kind or g.choice(KINDS, "kind")
    r = r or dims(g, kind)
    m = m or g.int(1, 3, "m")
    if params is None:
        p = p or g.choice([1, 1, 2, 3], "p")
        s = s or g.int(2, 7, "s")
        params = training_points(g, p, s)
    else:
        p = 1 if params.ndim == 1 else params.shape[1]
    if Class == "draw":
        Class = g.choice(ONE_D if p == 1 else MULTI_D, label + ".class")
    items = [entries_of(g, kind, r, m, fmt={"A": "dense"}.get(kind), label=f"{label}{i}")
             for i in range(len(params))]
    refs = [it[1] for it in items]
    args = [it[0] for it in items]
    if len({np.shape(a) for a in args}) > 1:
        args = [R.coef[:, 0] if kind == "c" else R.coef for R in refs]
    OpClass = INTERP[kind]
    if g.rarely(label + ".deprecated-name", 6):
        OpClass = renamed(ops, OpClass)
    op = OpClass(params, args, InterpolatorClass=Class)
    return op, InterpRef(Class, params, refs), (params, args, Class)


def draw_inside(g, params, label="mu"):
    """A parameter inside the hull of the training parameters."""
    if params.ndim == 1:
        t = g.float(0, 1, label + ".t")
        lo, hi = params.min(), params.max()
        v = min(max(lo + t * (hi - lo), lo), hi)
        return float(v) if g.bool(label + ".scalar") else np.array([v])
    w = g.rng(label).dirichlet(np.ones(len(params)))
    return 0.99 * (w @ params) + 0.01 * params.mean(axis=0)


def draw_beyond(g, params, label="mu"):
    """A parameter outside the range of the (1-D) training parameters."""
    lo, hi = params.min(), params.max()
    t = g.float(0.01, 1, label + ".t") * max(hi - lo, 0.1)
    v = hi + t if g.bool(label + ".above") else lo - t
    return float(v) if g.bool(label + ".scalar") else np.array([v])
