"""C18: searches return a candidate at least as good as every one tried."""
import contextlib
import copy
import io
import warnings

import numpy as np
import opinf
import scipy.integrate

from pbt.runner import Check
from pbt.oracle import Violation, check, close, raises, same, unchanged

gridsearch = opinf.utils.gridsearch
CHECK = Check("C18", factor=1.2, hangs="abandoned", assumptions=[
    "positive candidates unless only the candidates are to be checked (documented)",
    "regularization selection: a case is not judged if a candidate's stability depends on less "
    "than 1e-4 of the margin or on how the testing window is sampled, or if a candidate's "
    "regularized data matrix has condition number above 1e7",
    "testing windows of at least two time steps",
    "Bayesian selection (random training errors): the winner is judged only if one candidate is "
    "better by a wide margin",
])


# Grid search -------------------------------------------------------------------
class Recorder:
    """An objective on positive numbers (or vectors) that records its calls."""

    def __init__(self, fn):
        self.fn, self.calls = fn, []

    def __call__(self, x):
        self.calls.append(np.array(x, dtype=float, copy=True))
        return self.value(x)

    def value(self, x):
        return self.fn(np.log10(np.asarray(x, dtype=float)))


def objective(g, p, label="f"):
    """(kind, function of log10(x), its minimizer if it is a strictly convex quadratic)"""
    kind = g.choice(["quadratic", "quadratic", "abs", "wavy", "steps", "constant", "holes",
                     "nan", "huge", "monotone", "wall", "lonely", "minusinf"], label + ".kind")
    c = g.uniform(-3, 3, p, label + ".centre")
    w = 10.0 ** g.uniform(-1, 1, p, label + ".width")
    base = g.choice([0.0, 0.5, -2.0, 1e3], label + ".base")
    rng = g.rng(label)
    a, b = rng.uniform(0.5, 4, p), rng.uniform(0, 6, p)

    def quad(x):
        return float(np.sum(w * (np.atleast_1d(x) - c) ** 2)) + base

    def wavy(x):
        x = np.atleast_1d(x)
        return float(np.sum(np.cos(a * x + b) + 0.05 * (x - c) ** 2)) + base

    if kind == "quadratic":
        return kind, quad, c
    if kind == "abs":
        return kind, lambda x: float(np.sum(w * np.abs(np.atleast_1d(x) - c))) + base, None
    if kind == "wavy":
        return kind, wavy, None
    if kind == "steps":
        return kind, lambda x: float(np.sum(np.floor(wavy(x) * 3))), None
    if kind == "constant":
        return kind, lambda x: base, None
    if kind in ("holes", "nan"):
        bad = np.inf if kind == "holes" else np.nan
        f = rng.uniform(1, 5)
        return kind, (lambda x: bad if np.sin(f * np.sum(x)) > 0.2 else wavy(x)), None
    if kind == "huge":
        return kind, lambda x: 10.0 ** min(300.0, 15 + quad(x) - base), None
    if kind == "monotone":
        s = g.choice([-1.0, 1.0], label + ".sign")
        return kind, lambda x: base + s * float(np.sum(w * np.atleast_1d(x))), None
    if kind == "wall":
        edge = float(rng.uniform(-3, 3))
        return kind, (lambda x: np.inf if np.sum(x) / p < edge else quad(x)), None
    if kind == "minusinf":
        return kind, (lambda x: -quad(x)), None
    bump = float(rng.uniform(-3, 3))
    return kind, (lambda x: np.inf if abs(np.sum(x) / p - bump) > 1.0 else wavy(x)), None


def candidates_of(g, p, label="cand", positive=True):
    n = g.int(1, 8, label + ".n")
    lo, hi = sorted(g.uniform(-6, 6, 2, label + ".span"))
    shape = (n,) if p is None else (n, p)
    C = 10.0 ** g.uniform(lo, hi + 0.1, shape, label)
    if n > 1 and g.rarely(label + ".dup", 4):
        C[g.int(0, n - 1, label + ".to")] = C[g.int(0, n - 1, label + ".from")]
    if p is None and g.bool(label + ".sorted"):
        C = np.sort(C)[::g.choice([1, -1], label + ".dir")]
    return C


def as_given(g, C, label="form"):
    """The candidates in one of the accepted forms."""
    if C.ndim == 2:
        form = g.choice(["array", "list", "nested"], label)
        return form, {"array": C.copy(), "list": [c.copy() for c in C],
                      "nested": C.tolist()}[form]
    forms = ["array", "list", "column", "lists", "tuple"] + (["scalar", "float"] if len(C) == 1
                                                             else [])
    form = g.choice(forms, label)
    return form, {"array": C.copy(), "list": C.tolist(), "column": C.reshape((-1, 1)).copy(),
                  "lists": [[float(c)] for c in C], "tuple": tuple(float(c) for c in C),
                  "scalar": np.float64(C[0]), "float": float(C[0])}[form]


def quietly(fn, verbose):
    out = io.StringIO()
    with warnings.catch_warnings(), contextlib.redirect_stdout(out), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        result = fn()
    check(bool(out.getvalue()) == bool(verbose), f"printed output with verbose={verbose}")
    return result


def not_worse(a, b):
    return a <= b + 1e-12 * abs(b)


@CHECK.sub(quick=1500, rule="at least three distinct candidates with different finite values")
def search(g):
    p = g.choice([None, None, 1, 2, 3], "p")
    C = candidates_of(g, None if p in (None, 1) else p)
    q = 1 if C.ndim == 1 else p
    kind, fn, centre = objective(g, q)
    form, given = as_given(g, C)
    only = g.bool("gridsearch_only")
    verbose = g.rarely("verbose", 5)
    f = Recorder(fn)
    values = [f.value(c) for c in C]
    finite = [v for v in values if np.isfinite(v)]
    kw = dict(gridsearch_only=only, verbose=verbose)
    if g.bool("label"):
        kw["label"] = "widget"
    with unchanged(*([given] if isinstance(given, np.ndarray) else
                     [x for x in given if isinstance(x, np.ndarray)] if form == "list" else []),
                   msg="gridsearch() modified the candidates"):
        if not finite:
            ex = raises(RuntimeError, lambda: quietly(lambda: gridsearch(f, given, **kw), verbose)
                        if not verbose else silent(lambda: gridsearch(f, given, **kw)),
                        "every candidate is infinite")
            check(kw.get("label", "parameter") in str(ex), "label in the error message")
            g.tag("hopeless")
            return
        got = quietly(lambda: gridsearch(f, given, **kw), verbose)
    best = min(finite)
    # every candidate is evaluated, and calls have the right shape
    for x in f.calls:
        check(x.shape == (() if C.ndim == 1 else (q,)), f"objective called with shape {x.shape}")
    for c in C:
        check(any(np.array_equal(x, c) for x in f.calls), "a candidate was not evaluated")
    if only:
        for x in f.calls:
            check(any(np.array_equal(x, c) for c in C), "something else was evaluated")
    check(np.shape(got) == (() if C.ndim == 1 else (q,)), "shape of the result")
    v = f.value(got)
    check(not_worse(v, best), f"{kind}: the result ({v}) is worse than a candidate ({best})")
    if only:
        check(any(np.array_equal(got, c) for c in C), "the result is not a candidate")
        check(v == best, "the result is not a best candidate")
    else:
        check(any(np.array_equal(x, got) for x in f.calls), "the result was not evaluated")
        check(np.all(np.asarray(got) > 0), "a result that is not positive")
    if C.ndim == 1 and not only:
        D = np.unique(C)
        winners = [i for i in range(len(D)) if f.value(D[i]) == best]
        lo = min(D[i - 1] if i > 0 else D[0] / 100 for i in winners)
        hi = max(D[i + 1] if i + 1 < len(D) else D[-1] * 100 for i in winners)
        check(lo * (1 - 1e-9) <= got <= hi * (1 + 1e-9),
              "the result lies outside the interval around the best candidate")
        if kind == "quadratic" and len(D) == len(C):
            target = np.clip(centre[0], np.log10(lo), np.log10(hi))
            err = f.value(got) - fn(np.array([target]))
            check(err <= 1e-5 * (1 + abs(best)), f"not refined: {err:.2e} above the minimum")
    # order is irrelevant
    order = g.perm(len(C), "order")
    if C.ndim == 1 or len(set(finite)) == len(finite):
        form2, again = as_given(g, C[order], "form2")
        got2 = quietly(lambda: gridsearch(f.value, again, gridsearch_only=only), False)
        if C.ndim == 1:
            same(got2, got, "the result depends on the order or form of the candidates")
        else:
            close(got2, got, "the result depends on the order of the candidates", 1e-9)
    g.tag(kind, form, "only" if only else "refined", f"p{q}")
    g.nontrivial(len(np.unique(C, axis=0)) > 2 and len(set(finite)) > 2)


@CHECK.sub(quick=300, rule="at least two candidates")
def refinement(g):
    """With several parameters, the optimization follows up on the best candidate."""
    p, n = g.int(2, 3, "p"), g.int(1, 6, "n")
    X = g.uniform(-5, 5, (n, p), "C")
    C = 10.0 ** np.where(np.abs(X) < 0.5, 0.5, X)   # (initial steps are proportional to X)
    i = g.int(0, n - 1, "winner")
    home = np.log10(C[i])
    centre = home + g.uniform(-0.3, 0.3, p, "offset")
    w = g.uniform(0.5, 2.0, p, "w")
    base = g.choice([0.0, 1.0, 50.0], "base")

    def fn(x):
        if np.abs(x - home).max() < 1.5:
            return base + float(np.sum(w * (x - centre) ** 2))
        if any(np.abs(x - c).max() < 1e-9 for c in np.log10(C)):
            return base + 100.0
        return INF

    f = Recorder(fn)
    values = [f.value(c) for c in C]
    if int(np.argmin(values)) != i:
        return
    got = quietly(lambda: gridsearch(f, as_given(g, C)[1]), False)
    check(f.value(got) - base <= 0.05 * (values[i] - base) + 1e-6,
          f"not refined: {f.value(got) - base:.2e} above the minimum, the best candidate "
          f"{values[i] - base:.2e}")
    g.nontrivial(n > 1)


def silent(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


@CHECK.sub(quick=150, rule="a candidate that is not positive wins")
def arbitrary_candidates(g):
    """With gridsearch_only, candidates may have any sign."""
    n = g.int(1, 8, "n")
    p = g.choice([None, 2], "p")
    C = g.array((n,) if p is None else (n, p), "C")
    f = Recorder(None)
    c = g.normal(1 if p is None else p, "centre") * np.abs(C).max()
    f.value = lambda x: float(np.sum((np.atleast_1d(x) - c) ** 2))
    values = [f.value(x) for x in C]
    got = quietly(lambda: gridsearch(f, list(C), gridsearch_only=True), False)
    check(f.value(got) == min(values), "not a best candidate")
    check(any(np.array_equal(got, x) for x in C), "not a candidate")
    check(len(f.calls) >= n, "a candidate was not evaluated")
    g.nontrivial(np.any(np.asarray(got) <= 0))


# Regularization selection ---------------------------------------------------------
ops = opinf.operators
INF = np.inf


class Study:
    """Data, a reduced-order model and settings for a selection."""

    def __init__(self, g, time, flavour="plain", bayes=False):
        self.g, self.time, self.flavour = g, time, flavour
        self.r = r = g.int(1, 2 if flavour != "plain" else 3, "r")
        self.n = r + g.int(0, 3, "n")
        self.kinds = g.choice(["A", "cA", "AB", "cAB"] + ([] if bayes else ["AH", "AH", "cAHB"]),
                              "kinds")
        self.m = g.int(1, 2, "m") if "B" in self.kinds else 0
        self.s = g.int(2, 4, "s") if flavour != "plain" else g.int(1, 3, "s")
        self.params = None if flavour == "plain" else \
            list(np.sort(g.uniform(0.5, 2, self.s, "params")) + 0.3 * np.arange(self.s))
        self.V = np.linalg.qr(g.normal((self.n, self.n), "V"))[0][:, :r]
        growth = g.choice([0.0, 0.0, 0.5, 1.5], "growth")
        rng = g.rng("truth")
        S = rng.standard_normal((r, r))
        self.A = 3 * (S - S.T) / 2 + (growth - 0.5) * np.eye(r)
        self.H = 0.4 * rng.standard_normal((r, r * (r + 1) // 2))
        self.B = rng.standard_normal((r, max(self.m, 1)))
        self.c = rng.standard_normal(r) if "c" in self.kinds else np.zeros(r)
        self.k = g.int(12, 30, "k")
        self.noise = 10.0 ** g.float(-3, -0.5, "noise")
        self.make_data()

    def f(self, mu, q, u):
        A = self.A if mu is None else self.A * (0.6 + 0.3 * mu)
        out = A @ q + self.c
        if "H" in self.kinds:
            i, j = np.tril_indices(self.r)
            out = out + self.H @ (q[i] * q[j])
        if "B" in self.kinds:
            out = out + self.B @ u
        return out

    def make_data(self):
        g, r, m = self.g, self.r, self.m
        rng = g.rng("data")
        self.T, self.Q, self.Z, self.U, self.ufuncs = [], [], [], [], []
        sameT = g.bool("sameT")
        flat = g.bool("flat")
        t0 = None
        self.extra = 10
        self.oneu = self.time == "c" and g.rarely("oneu", 4)     # one input function for all
        for i in range(self.s):
            mu = None if self.params is None else self.params[i]
            q0 = rng.standard_normal(r)
            if self.time == "c":
                k = self.k if sameT or t0 is None else self.k + i
                t = np.linspace(0, float(rng.uniform(1, 2)), k)
                if sameT and t0 is not None:
                    t = t0
                t0 = t
                a, w = rng.standard_normal(max(m, 1)), rng.uniform(0.5, 2)
                u = (lambda s, a=a, w=w: a[:m] * np.cos(w * s)) if m else (lambda s: np.zeros(1))
                if self.oneu and self.ufuncs:
                    u = self.ufuncs[0]
                sol = scipy.integrate.solve_ivp(lambda s, q: self.f(mu, q, u(s)), (t[0], t[-1]),
                                                q0, t_eval=t, method="RK45", max_step=0.1)
                Q = sol.y
                if Q.shape[1] != k or np.abs(Q).max() > 100:
                    Q = np.vstack([np.cos((j + 1) * t + q0[j]) for j in range(r)])
                U = np.column_stack([u(s) for s in t])
                Z = np.column_stack([self.f(mu, q, x) for q, x in zip(Q.T, U.T)])
                self.T.append(t)
                self.ufuncs.append(u)
            else:
                k = self.k + (0 if sameT else i)
                U = rng.uniform(-1, 1, (max(m, 1), k + self.extra))
                R = np.eye(r) + 0.2 * self.A
                Q = np.empty((r, k))
                Q[:, 0] = q0
                for j in range(k - 1):
                    Q[:, j + 1] = R @ Q[:, j] + 0.1 * (self.f(mu, Q[:, j], U[:, j])
                                                       - self.A @ Q[:, j])
                    if np.abs(Q[:, j + 1]).max() > 100:
                        Q[:, j + 1] = q0 * np.cos(j)
                Z = None
                if not m:
                    U = None
                elif m == 1 and flat:
                    U = U[0]
            Q = Q + self.noise * np.abs(Q).max() * rng.standard_normal(Q.shape)
            if Z is not None:
                Z = Z + self.noise * np.abs(Z).max() * rng.standard_normal(Z.shape)
                self.Z.append(self.V @ Z)
            self.Q.append(self.V @ Q + 1e-3 * rng.standard_normal((self.n, Q.shape[1])))
            self.U.append(U)

    # model -----------------------------------------------------------------
    def d(self):
        r, m = self.r, self.m
        w = {"c": 1, "A": r, "H": r * (r + 1) // 2, "B": m}
        return [w[k] * (2 if self.flavour == "affine" and k == "A" else 1) for k in self.kinds]

    def model(self, solver):
        M, P = opinf.models, self.flavour
        made = []
        for k in self.kinds:
            if P == "interp":
                made.append({"c": ops.InterpConstantOperator, "A": ops.InterpLinearOperator,
                             "B": ops.InterpInputOperator}[k]())
            elif P == "affine" and k == "A":
                made.append(ops.AffineLinearOperator(lambda mu: np.array([1.0, np.ravel(mu)[0]]),
                                                     nterms=2))
            else:
                made.append({"c": ops.ConstantOperator, "A": ops.LinearOperator,
                             "H": ops.QuadraticOperator, "B": ops.InputOperator}[k]())
        name = {"plain": "", "affine": "Parametric", "interp": "Interp"}[P]
        Class = getattr(M, f"{name}{'Continuous' if self.time == 'c' else 'Discrete'}Model")
        return Class(made, solver=solver)


def regularizers(g, st):
    """(solver, factory or None, candidates)"""
    L = opinf.lstsq
    d, r = sum(st.d()), st.r
    kind = g.choice(["l2", "l2", "l2dec", "tik", "tikdec"], "solver")
    n = g.int(1, 6, "candidates")
    p = None
    spread = g.uniform(-9, 5, n, "log10")
    if g.bool("moderate"):
        spread = g.uniform(-3, 2, n, "log10")
    if kind == "l2":
        solver, factory = L.L2Solver(), None
        if g.rarely("factory", 4):
            factory = (lambda x: 2 * x)
    elif kind == "l2dec":
        w = 10.0 ** g.uniform(-1, 1, r, "w")
        solver, factory = L.L2DecoupledSolver(), (lambda x: x * w)
        if r > 1 and g.bool("vector"):
            p, factory = r, None
    elif kind == "tik":
        solver = L.TikhonovSolver(method=g.choice(["lstsq", "normal"], "method"))
        sizes = st.d()
        if len(sizes) > 1 and g.bool("vector"):
            p = len(sizes)
            factory = (lambda x: np.repeat(x, sizes))
        elif d > 1 and g.rarely("identity", 3):
            p, factory = d, None
        else:
            factory = (lambda x: x * np.eye(d))
    else:
        solver = L.TikhonovDecoupledSolver()
        w = 10.0 ** g.uniform(-1, 1, (r, d), "w")
        factory = (lambda x: [x * np.diag(v) for v in w])
    C = 10.0 ** (spread if p is None else
                 spread.reshape((-1, 1)) + g.uniform(-1, 1, (n, p), "more"))
    g.tag(kind)
    return solver, factory, C


def size_of(solver, kind=None):
    """The regularizer of a solver as plain arrays."""
    reg = solver.regularizer
    return [np.asarray(x, dtype=float) for x in (reg if isinstance(reg, list) else [reg])]


def windows(st, T):
    """For each trajectory: the time domain with its test window, as sampled by the code, and
    sampled otherwise."""
    out = []
    for t in st.T:
        if not T:
            out.append((t, t))
            continue
        dt = np.mean(np.diff(t))
        test = t[-1] + np.linspace(dt, dt + T, int(T / dt))
        fine = t[-1] + np.linspace(0, T, 4 * int(T / dt) + 1)[1:]
        out.append((np.concatenate([t, test]), np.concatenate([t, fine])))
    return out


class Ambiguous(Exception):
    pass


def predict(model, st, i, q0, dom, u, options):
    args = (q0, dom) + ((u,) if st.m else ())
    if st.params is not None:
        args = (st.params[i],) + args
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return model.predict(*args, **options)


def fails(sol, size, centre, limit):
    """Is the trajectory unstable?  Raises Ambiguous if that is too close to call."""
    if sol.shape[-1] != size:
        return True
    dev = np.abs(sol - centre).max()
    if np.isnan(dev):
        return True
    if abs(dev - limit) < 1e-4 * limit:
        raise Ambiguous
    return dev > limit


class Reference:
    """Training errors by direct fits."""

    def __init__(self, st, rom, factory, options, cases, window, margin, given):
        self.st, self.rom, self.factory = st, rom, factory or (lambda x: x)
        self.options, self.cases, self.window, self.margin = options, cases, window, margin
        self.given = given
        self.cache = []

    def fit(self, x):
        for y, out in self.cache:
            if np.array_equal(x, y):
                return out
        out = rom = self.rom()
        rom.model.solver.regularizer = self.factory(x)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                rom.fit(**self.given)
        except np.linalg.LinAlgError:
            out = None
        self.cache.append((np.array(x), out))
        return out

    def kappa(self, rom):
        st = self.st
        solvers = rom.model.solvers if st.flavour == "interp" else [rom.model.solver]
        return max(np.max(s.regcond()) for s in solvers)

    def error(self, x):
        st, rom = self.st, self.fit(x)
        if rom is None or self.kappa(rom) > 1e7:
            raise Ambiguous
        model = rom.model
        for tc in self.cases:
            q0 = rom.encode(tc.initial_conditions)
            i = 0 if st.params is None else st.params.index(tc.parameters)
            if st.time == "c":
                dom, u = tc.time_domain, tc.input_function
                size = dom.size
            else:
                dom, u = tc.niters, tc.inputs
                size = dom
            sol = predict(model, st, i, q0, dom, u, self.options)
            if sol.shape[-1] != size or not np.all(np.isfinite(sol)):
                return INF
            if tc.bound is not None and fails(sol, size, q0.reshape((-1, 1)), tc.bound):
                return INF
        total = 0.0
        doms = windows(st, self.window) if st.time == "c" else None
        for i, Q in enumerate(st.Q):
            Qr = rom.encode(Q)
            k = Qr.shape[1]
            centre = Qr.mean(axis=1).reshape((-1, 1))
            limit = self.margin * np.abs(Qr - centre).max()
            if st.time == "c":
                dom, other = doms[i]
                u = st.ufuncs[i]
                sol = predict(model, st, i, Qr[:, 0], dom, u, self.options)
                bad = fails(sol, dom.size, centre, limit)
                if self.window:
                    sol2 = predict(model, st, i, Qr[:, 0], other, u, self.options)
                    if fails(sol2, other.size, centre, limit) != bad:
                        raise Ambiguous
                if bad:
                    return INF
                E = (Qr - sol[:, :k]) ** 2
                t = dom[:k]
                wts = np.zeros(k)
                wts[:-1] += np.diff(t) / 2
                wts[1:] += np.diff(t) / 2
                total += np.sqrt((E.sum(axis=0) @ wts) / ((Qr ** 2).sum(axis=0) @ wts))
            else:
                sol = predict(model, st, i, Qr[:, 0], k + self.window, st.U[i], {})
                if not np.all(np.isfinite(sol)) or fails(sol, k + self.window, centre, limit):
                    return INF
                total += np.linalg.norm(Qr - sol[:, :k]) / np.linalg.norm(Qr)
        return total / len(st.Q)


def make_rom(g, st, solver, Class=None):
    """A function that builds the ROM anew."""
    kw = {}
    b = g.choice(["none", "linear", "pod"], "basis") if st.n == st.r else \
        g.choice(["linear", "pod"], "basis")
    if b == "linear":
        kw["basis"] = opinf.basis.LinearBasis(st.V)
    elif b == "pod":
        kw["basis"] = opinf.basis.PODBasis(num_vectors=st.r)
    if g.rarely("transformer", 3):
        kw["transformer"] = opinf.pre.ShiftScaleTransformer(
            centering=g.bool("centering"), scaling=g.choice([None, "maxabs", "standard"],
                                                            "scaling"))
    Class = Class or (opinf.roms.ROM if st.flavour == "plain" else opinf.roms.ParametricROM)
    if st.time == "c" and st.flavour == "plain" and len(set(map(len, st.T))) == 1 \
            and all(np.array_equal(t, st.T[0]) for t in st.T) and g.bool("ddt"):
        kw["ddt_estimator"] = opinf.ddt.UniformFiniteDifferencer(
            st.T[0], scheme=g.choice(["ord2", "ord4", "fwd1"], "scheme"))
        st.Z = None

    def build():
        fresh = {k: copy.deepcopy(v) for k, v in kw.items()}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return Class(st.model(solver.copy()), **fresh)
    return build


def test_cases(g, st):
    out = []
    if g.rarely("cases", 3):
        for j in range(g.int(1, 2, "ncases")):
            i = g.int(0, st.s - 1, f"case{j}")
            ic = st.Q[i][:, 0] * g.uniform(-1.5, 1.5, None, f"ic{j}")
            bound = g.choice([None, 0.5, 3.0, 50.0], f"bound{j}")
            kw = dict(bound=bound)
            if st.params is not None:
                kw["parameters"] = st.params[i]
            if st.time == "c":
                t = np.linspace(0, g.choice([0.5, 3.0], f"len{j}"), g.int(2, 9, f"nt{j}"))
                out.append(opinf.utils.ContinuousRegTest(
                    ic, t, input_function=st.ufuncs[i] if st.m else None, **kw))
            else:
                out.append(opinf.utils.DiscreteRegTest(
                    ic, g.int(2, 12, f"nt{j}"), inputs=st.U[i] if st.m else None, **kw))
        g.tag("cases")
    return out


def select(g, st, rom, C, factory, last, cases, window, margin, only, options, verbose=False,
           extra=None):
    """Call fit_regselect_*() and return what it returned."""
    kw = dict(candidates=as_given(g, np.asarray(C))[1], gridsearch_only=only,
              stability_margin=margin, regularizer_factory=factory, verbose=verbose)
    if len(cases) == 1 and g.bool("onecase"):
        kw["test_cases"] = cases[0]
    elif cases or g.bool("nocases"):
        kw["test_cases"] = list(cases)
    single = st.params is None and st.s == 1 and g.bool("single")
    kw["states"] = st.Q[0] if single else list(st.Q)
    if st.params is not None:
        kw["parameters"] = list(st.params)
    kw.update(extra or {})
    for name, default in (("gridsearch_only", False), ("stability_margin", 5.0),
                          ("verbose", False), ("regularizer_factory", None),
                          ("fit_transformer", True), ("fit_basis", True)):
        if name in kw and kw[name] == default and g.bool("default " + name):
            del kw[name]
    if st.time == "c":
        shared = all(np.array_equal(t, st.T[0]) for t in st.T)
        kw["train_time_domains"] = st.T[0] if shared and g.bool("oneT") else list(st.T)
        if single and not np.ndim(kw["train_time_domains"][0]) == 0:
            kw["train_time_domains"] = list(st.T)
        if st.Z is not None:
            kw["ddts"] = st.Z[0] if single else list(st.Z)
        if st.m:
            kw["input_functions"] = st.ufuncs[0] if single or st.oneu else list(st.ufuncs)
        if window or g.bool("default window"):
            kw["test_time_length"] = window
        method = rom.fit_regselect_continuous
    else:
        if st.m:
            Us = list(st.U)
            if g.bool("exactly"):       # no more inputs than needed
                Us = [U[..., :Q.shape[1] + window] for U, Q in zip(Us, st.Q)]
            kw["inputs"] = Us[0] if single else Us
        if window or g.bool("default window"):
            kw["num_test_iters"] = window
        method = rom.fit_regselect_discrete
    arrays = [a for a in st.Q + (st.Z or []) + [u for u in st.U if u is not None] + st.T]
    with unchanged(*arrays, msg="the selection modified the data"), warnings.catch_warnings(), \
            contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return method(**kw, **options)


def fit_arguments(st):
    out = dict(states=list(st.Q))
    if st.params is not None:
        out["parameters"] = list(st.params)
    if st.time == "c":
        out["lhs"] = list(st.Z) if st.Z is not None else None
    if st.m:
        out["inputs"] = [np.column_stack([u(s) for s in t]) for u, t in zip(st.ufuncs, st.T)] \
            if st.time == "c" else [U[..., :Q.shape[1]] for U, Q in zip(st.U, st.Q)]
    return out


def entries(model):
    out = []
    for op in model.operators:
        E = op.entries
        out.extend([E] if isinstance(E, np.ndarray) and not op.__class__.__name__.startswith(
            ("Interp", "Affine")) else list(E))
    return out


def concentrated(solver):
    """A solver whose posterior has the same means but hardly any variance."""
    Class = type(solver)

    class Concentrated(Class):
        def posterior(self):
            means = self.solve()
            d = means.shape[1]
            return list(means), [1e22 / max(np.abs(row).max(), 1e-10) ** 2 * np.eye(d)
                                 for row in means]

    Concentrated.__name__ = Class.__name__
    out = solver.copy()
    out.__class__ = Concentrated
    return out


def selection(g, time, bayes=False):
    flavour = "plain" if bayes else g.choice(["plain", "plain", "affine", "interp"], "flavour")
    if flavour != "plain":
        g.tag(flavour)
    st = Study(g, time, flavour)
    if flavour == "interp" and "H" in st.kinds:
        st.kinds = st.kinds.replace("H", "")
    solver, factory, C = regularizers(g, st)
    if bayes:
        solver = concentrated(solver)
    fitted = make_rom(g, st, solver, opinf.roms.BayesianROM if bayes else None)
    flags = {}
    if g.rarely("flags", 4):        # stages fitted beforehand, to other data
        flags = dict(fit_transformer=g.bool("fit_transformer"), fit_basis=g.bool("fit_basis"))
    earlier = st.Q[0][:, ::2] * g.choice([0.5, 2.0], "earlier") + 0.1

    def build():
        rom = fitted()
        if flags:
            Q = earlier
            if rom.transformer is not None:
                Q = rom.transformer.fit_transform(Q)
            if rom.basis is not None:
                rom.basis.fit(Q)
        return rom

    rom = build()
    cases = test_cases(g, st)
    if time == "c":
        window = 0 if g.bool("notest") else float(np.mean(np.diff(st.T[0]))) * 2 \
            + g.choice([0.5, 2.0, 5.0], "window")
        options = g.choice([{}, {}, {"method": "RK23"}, {"method": "DOP853"},
                            {"method": "RK23", "rtol": 0.5, "atol": 0.2}], "options")
    else:
        window, options = (0 if g.bool("notest") else g.int(1, 10, "window")), {}
    margin = g.choice([5.0, 5.0, 1.1, 2.0, 50.0], "margin")
    only = not g.rarely("refine", 4)
    seen = []

    def recorded(x):
        seen.append(np.array(x, copy=True))
        return (factory or (lambda y: y))(x)

    ref = Reference(st, build, factory, options, cases, window, margin,
                    {**fit_arguments(st), **flags})
    if not flags and g.rarely("before", 4):      # the ROM was used before, with another regularization
        rom.model.solver.regularizer = ref.factory(C[0])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with contextlib.suppress(np.linalg.LinAlgError):
                rom.fit(**ref.given)
        g.tag("before")
    try:
        errors = np.array([ref.error(c) for c in C])
    except Ambiguous:
        g.tag("ambiguous")
        return
    best = errors.min()
    use = recorded if factory is not None or g.bool("wrapped") else None
    call = (lambda: select(g, st, rom, C, use, seen, cases, window, margin, only, options,
                           g.rarely("verbose", 6),
                           {**flags, **({"num_posterior_draws": g.int(1, 3, "ndraws")}
                                        if bayes else {})}))
    if not np.isfinite(best):
        raises(RuntimeError, call, "no candidate is stable")
        g.tag("hopeless")
        return
    out = call()
    check(out is rom, "the method returns the ROM")
    # which regularization was chosen
    final = rom.model.solvers if flavour == "interp" else [rom.model.solver]
    if use is not None:
        chosen = seen[-1] if seen[-1].ndim else float(seen[-1])
    else:
        chosen = final[0].regularizer
        if isinstance(final[0], opinf.lstsq.TikhonovSolver):
            chosen = np.diag(chosen)
    if only:
        match = [i for i, c in enumerate(C) if np.allclose(c, chosen, rtol=1e-13, atol=0)]
        check(match, "the chosen regularization is not a candidate")
        chosen = C[match[0]]
        err = errors[match[0]]
    else:
        try:
            err = ref.error(chosen)
        except Ambiguous:
            g.tag("ambiguous")
            return
    check(err <= best * (1 + 1e-5) + 1e-10,
          f"chosen training error {err:.6e}, a candidate has {best:.6e}")
    # the fitted model is the direct fit with that regularization
    want = ref.fit(chosen)
    theirs = want.model.solvers if flavour == "interp" else [want.model.solver]
    check(len(final) == len(theirs), "number of solvers")
    for a, b in zip(final, theirs):
        for x, y in zip(size_of(a), size_of(b)):
            close(x, y, "regularizer of the solver", 1e-12)
        close(a.data_matrix, b.data_matrix, "data matrix", 1e-10)
        close(a.lhs_matrix, b.lhs_matrix, "left-hand side", 1e-10)
    kappa = ref.kappa(want)
    g.tag("only" if only else "refined", f"unstable{np.isinf(errors).any()}")
    g.nontrivial(len(C) > 2 and len(set(errors)) > 2)
    if bayes:
        check(rom.posterior is not None, "no posterior after the selection")
        for x, y in zip(rom.posterior.means, want.posterior.means):
            close(x, y, "posterior mean differs from a direct fit", 1e-12 * kappa ** 2 + 1e-9)
        return
    for x, y in zip(entries(rom.model), entries(want.model)):
        close(x, y, "operators differ from a direct fit", 1e-12 * kappa ** 2 + 1e-10,
              scale=max(np.abs(e).max() for e in entries(want.model)))


@CHECK.sub(quick=200, rule="at least three candidates with different training errors")
def continuous(g):
    selection(g, "c")


@CHECK.sub(quick=300, rule="at least three candidates with different training errors")
def discrete(g):
    selection(g, "d")


@CHECK.sub(quick=80, rule="at least three candidates with different training errors")
def bayes_continuous(g):
    """A posterior with hardly any variance: selection is as for the mean operators."""
    selection(g, "c", True)


@CHECK.sub(quick=200, rule="at least three candidates with different training errors")
def bayes_discrete(g):
    selection(g, "d", True)


# Test cases ------------------------------------------------------------------------
class Told:
    """A model that returns a given trajectory and records what it was asked."""

    def __init__(self, out):
        self.out, self.asked = out, []

    def predict(self, *args, **kwargs):
        self.asked.append((args, kwargs))
        return self.out


@CHECK.sub(quick=400, rule="the trajectory is finite and of full length, and there is a bound")
def regtests(g):
    """Test cases pass exactly for complete finite trajectories within the bound."""
    r, k = g.int(1, 3, "r"), g.int(1, 8, "k")
    cont = g.bool("continuous")
    q0 = g.normal((r,), "q0")
    size = g.choice([1e-6, 1.0, 1e4], "size")
    Q = q0[:, None] + size * g.uniform(-1, 1, (r, k), "Q")
    dev = np.abs(Q - q0[:, None])
    bound = g.choice([None, 0.5, 0.9, 1.1, 1.0], "bound")
    if bound is not None:
        bound = bound * dev.max()
    kw, args = {}, {}
    if bound is not None or g.bool("explicit"):
        kw["bound"] = bound
    mu = g.choice([None, 1.5, "vector"], "mu")
    if mu is not None:
        kw["parameters"] = mu = g.normal((2,), "muvec") if mu == "vector" else mu
    inputs = g.bool("inputs")
    u = ((lambda t: t) if cont else g.normal((2, k), "u")) if inputs else None
    if inputs:
        kw["input_function" if cont else "inputs"] = u
    dom = np.linspace(0, 1, k) if cont else k
    Class = opinf.utils.ContinuousRegTest if cont else opinf.utils.DiscreteRegTest
    tc = Class(q0, dom, **kw)
    if g.bool("copied"):
        old, shift = tc, g.choice([0.0, 1.0, -30.0], "shift")
        tc = old.copy(q0 + shift)
        Q = Q + shift
        dev = np.abs(Q - (q0 + shift)[:, None])
        check(type(tc) is Class, "class of a copy")
        check(old.initial_conditions is q0, "copying changed the original")
        same(tc.initial_conditions, q0 + shift, "initial conditions of a copy")
    fault = g.choice([None, None, None, "nan", "inf", "-inf", "short"], "fault")
    if fault == "short":
        Q = Q[:, :g.int(0, k - 1, "len")] if cont else Q
        fault = fault if cont else None
    elif fault:
        Q = Q.copy()
        Q[g.int(0, r - 1, "i"), g.int(0, k - 1, "j")] = float(fault)
    if bound is not None and fault is None and abs(dev.max() - bound) < 1e-9 * (
            bound + np.abs(Q).max()):
        return
    want = fault is None and (bound is None or not dev.max() > bound)
    check(bool(tc.unstable(Q.copy())) is (not want), f"unstable(), fault {fault}, largest deviation "
          f"{dev.max():.3e}, bound {bound}")
    model = Told(Q)
    options = g.choice([{}, {"method": "RK23"}], "options") if cont else {}
    check(bool(tc.evaluate(model, **options)) is want, f"evaluate(), fault {fault}")
    check(len(model.asked) == 1, "number of predictions")
    asked, named = model.asked[0]
    expected = ([] if mu is None else [mu]) + [tc.initial_conditions, dom, u]
    check(named == options, f"options passed to predict(): {named}")
    check(len(asked) == len(expected) and all(a is b or (not callable(a) and np.array_equal(a, b))
                                              for a, b in zip(asked, expected)),
          "arguments of predict()")
    g.tag("c" if cont else "d", fault or "complete", "bound" if bound is not None else "free")
    g.nontrivial(fault is None and bound is not None)


# The same object used again -------------------------------------------------------
@CHECK.sub(quick=60, rule="the dimension changes between the selections")
def again(g):
    """Selections with a changing basis dimension agree with fresh ones."""
    time = g.choice("cd", "time")
    st = Study(g, time, "plain")
    rank = st.r
    solver = g.choice([opinf.lstsq.L2Solver, opinf.lstsq.L2DecoupledSolver,
                       opinf.lstsq.TikhonovSolver, opinf.lstsq.TikhonovDecoupledSolver],
                      "solver")
    C = 10.0 ** g.uniform(-4, 1, g.int(1, 3, "n"), "C")
    margin = 50.0

    def width(r):
        return sum({"c": 1, "A": r, "H": r * (r + 1) // 2, "B": st.m}[k] for k in st.kinds)

    def factory(r):
        if solver is opinf.lstsq.L2Solver:
            return lambda x: x
        if solver is opinf.lstsq.L2DecoupledSolver:
            return lambda x: x * np.ones(r)
        if solver is opinf.lstsq.TikhonovSolver:
            return lambda x: x * np.ones(width(r))
        return lambda x: [x * np.ones(width(r))] * r

    def fresh(r):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return opinf.roms.ROM(st.model(solver()), basis=opinf.basis.PODBasis(num_vectors=r))

    dims = [g.int(1, min(st.n, 4), f"r{i}") for i in range(g.int(2, 3, "times"))]
    rom = fresh(dims[0])
    opts = {} if time == "d" else {"method": "RK23"}
    window = 0
    for r in dims:
        rom.basis.set_dimension(num_vectors=r)
        other = fresh(r)
        results = []
        for x in (other, rom):
            try:
                select(g, st, x, C, factory(r), None, [], window, margin, True, opts)
                results.append(x)
            except RuntimeError as ex:
                check("grid search failed" in str(ex), f"RuntimeError: {ex}")
                results.append(None)
        check((results[0] is None) == (results[1] is None),
              "a ROM used before and a fresh one differ in finding a stable model")
        if results[0] is None:
            g.tag("hopeless")
            continue
        check(rom.model.state_dimension == r, "state dimension of the model")
        for a, b in zip(size_of(rom.model.solver), size_of(other.model.solver)):
            close(a, b, "selected regularizer, used before", 1e-12)
        for a, b in zip(entries(rom.model), entries(other.model)):
            close(a, b, "operators, used before", 1e-8)
    g.tag(solver.__name__, time)
    g.nontrivial(len(set(dims)) > 1)


@CHECK.sub(quick=120, rule="a clear winner among the candidates")
def bayesian(g):
    """The Bayesian ROM selects among the candidates and has the closed-form posterior."""
    time = g.choice("cd", "time")
    st = Study(g, time, "plain", bayes=True)
    solver, factory, C = regularizers(g, st)
    build = make_rom(g, st, solver, opinf.roms.BayesianROM)
    clear = not g.rarely("any", 3)
    if clear:       # one good candidate and otherwise candidates that give nearly zero operators
        C = 10.0 ** g.uniform(4, 6, C.shape, "bad")
        C[g.int(0, len(C) - 1, "good")] = 1e-3
    rom = build()
    f = factory or (lambda x: x)
    options = {} if time == "d" else {"method": "RK23"}
    cases = []
    ref = Reference(st, build, factory, options, cases, 0, 50.0, fit_arguments(st))
    seen = []

    def recorded(x):
        seen.append(np.array(x, copy=True))
        return f(x)

    np.random.seed(g.seed("draws"))
    try:
        out = select(g, st, rom, C, recorded, seen, cases, 0, 50.0, True, options,
                     extra=dict(num_posterior_draws=g.int(2, 5, "ndraws")))
    except RuntimeError as ex:
        if "zero residual" in str(ex):
            return
        check("grid search failed" in str(ex), f"RuntimeError: {ex}")
        g.tag("hopeless")
        return
    check(out is rom, "the method returns the ROM")
    chosen = seen[-1] if seen[-1].ndim else float(seen[-1])
    for c in C:
        check(any(np.allclose(c, x, rtol=1e-13, atol=0) for x in seen),
              "a candidate was not evaluated")
    match = [c for c in C if np.allclose(c, chosen, rtol=1e-13, atol=0)]
    check(match, "the chosen regularization is not a candidate")
    for x, y in zip(size_of(rom.model.solver), size_of_reg(f(chosen), rom.model.solver)):
        close(x, y, "regularizer of the solver", 1e-12)
    want = ref.fit(match[0])
    if want is None or ref.kappa(want) > 1e5:
        return
    check(rom.posterior is not None, "no posterior after the selection")
    kappa = ref.kappa(want)
    for i in range(want.posterior.nrows):
        s = np.sqrt(np.diag(want.posterior.covs[i]))
        close(rom.posterior.means[i], want.posterior.means[i], "posterior mean",
              1e-12 * kappa ** 2 + 1e-9)
        close(rom.posterior.covs[i] / np.outer(s, s), want.posterior.covs[i] / np.outer(s, s),
              "posterior covariance", 1e-11 * kappa ** 2 + 1e-9)
    with contextlib.suppress(Ambiguous):
        if clear:
            ref.rom, errors = build, []
            for c in C:
                errors.append(spread(ref, c, g))
            best = min(hi for lo, hi in errors)
            mine = [e for c, e in zip(C, errors) if np.array_equal(c, match[0])][0]
            check(mine[0] <= 2 * best + 1e-12,
                  f"selected training error about {mine[0]:.2e}, a candidate has about {best:.2e}")
            g.nontrivial(any(lo > 2 * best for lo, hi in errors))
    g.tag(time, "clear" if clear else "any")


def size_of_reg(reg, solver):
    other = solver.copy()
    other.regularizer = reg
    return size_of(other)


def spread(ref, c, g):
    """The range of the training errors of the mean model and a few drawn models."""
    rom = ref.fit(c)
    if rom is None or ref.kappa(rom) > 1e7:
        raise Ambiguous
    ref.kappa(rom)
    values = [ref.error(c)]
    for _ in range(6):
        rom.draw_operators()
        values.append(ref.error(c))
    return min(values), max(values)
