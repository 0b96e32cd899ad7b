"""C19: a reduced-order model equals the composition of its parts."""
import copy
import warnings

import numpy as np
import opinf

from pbt.runner import Check
from pbt.oracle import Violation, check, close, same, unchanged
from checks import c14, gen_basis, gen_models, gen_par, gen_pre

CHECK = Check("C19", hangs="abandoned", assumptions=[
    "the stages and models themselves are taken as given (they have their own properties); what "
    "is judged is that the reduced-order model composes them",
    "regularized solvers, so that operators are compared at 1e-13 times the squared condition "
    "number; derivative estimators hold one time domain, so all trajectories have its length",
    "locations are not combined with a lifting (they index the lifted variables there)",
])


class ExpLifter(opinf.lift.LifterTemplate):
    """(q) -> (q, exp(q), sin(q))"""

    @staticmethod
    def lift(states):
        return np.concatenate((states, np.exp(states), np.sin(states)))

    @staticmethod
    def lift_ddts(states, ddts):
        return np.concatenate((ddts, np.exp(states) * ddts, np.cos(states) * ddts))

    @staticmethod
    def unlift(lifted_states):
        return np.split(lifted_states, 3, axis=0)[0]


class Stages:
    """Which stages there are, and independent copies of them."""

    def __init__(self, g, label="stages", lifting=True, max_n=6):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.draw(g, label, lifting, max_n)

    def draw(self, g, label, lifting, max_n):
        self.n = n = g.int(1, max_n, label + ".n")
        kind = g.choice([None, None, "quad", "poly", "exp"], label + ".lifter") if lifting else None
        self.nv = 1
        self.lifter = None
        if kind == "quad":
            self.lifter, self.nv = opinf.lift.QuadraticLifter(), 2
        elif kind == "poly":
            orders = g.choice([(1, 2, 3), (2, 1), (1, 3), (1,), (3, 1, 0.5)], label + ".orders")
            self.lifter, self.nv = opinf.lift.PolynomialLifter(orders), len(orders)
        elif kind == "exp":
            self.lifter, self.nv = ExpLifter(), 3
        self.N = N = n * self.nv
        kind = g.choice([None, "leaf", "leaf", "pipeline", "multi"], label + ".transformer")
        self.tkind = kind
        self.tf, self.sizes = None, None
        if kind == "leaf":
            self.tf = gen_pre.leaf(g, N, kinds=("ss", "ss", "ss", "shift", "scale", "scalerow",
                                                "null"))
        elif kind == "pipeline":
            self.tf = gen_pre.pipeline(g, N)
        elif kind == "multi":
            self.sizes = [n] * self.nv if self.nv > 1 and g.bool(label + ".byvar") else \
                split(g, N, label + ".sizes")
            self.tf = gen_pre.multi_of(g, self.sizes, nested=True)
        small = N <= 4
        kind = g.choice(["linear", "pod", "pod", "multi"] + [None] * (2 if small else 0),
                        label + ".basis")
        self.bkind = kind
        self.r = N
        self.basis = None
        if kind == "linear":
            self.r = g.int(1, min(N, 4), label + ".r")
            self.basis = gen_basis.linear_basis(g, N, self.r)[0]
        elif kind == "pod":
            self.r = g.int(1, min(N, 4), label + ".r")
            self.basis = opinf.basis.PODBasis(num_vectors=self.r,
                                              weights=gen_basis.weights(g, N)[0])
        elif kind == "multi":
            sizes = self.sizes or split(g, N, label + ".bsizes")
            bases, self.r = [], 0
            for i, ni in enumerate(sizes):
                ri = g.int(1, min(ni, 2), f"{label}.r{i}")
                self.r += ri
                bases.append(opinf.basis.PODBasis(num_vectors=ri) if g.bool(f"{label}.pod{i}")
                             else gen_basis.linear_basis(g, ni, ri)[0])
            self.basis = opinf.basis.BasisMulti(bases, full_variable_sizes=list(sizes))
            self.bsizes = sizes
        g.tag(*[f"{k}:{v}" for k, v in (("lift", type(self.lifter).__name__), ("tf", self.tkind),
                                        ("basis", self.bkind))])

    def fresh(self):
        """(lifter, transformer, basis), untrained."""
        return (self.lifter, None if self.tf is None else copy.deepcopy(self.tf.tf),
                copy.deepcopy(self.basis))

    def fits(self, X):
        """Are the lifted data X fit for learning the transformation?"""
        return self.tf is None or gen_pre.degenerate_free(self.tf, X)

    @property
    def count(self):
        return sum(x is not None for x in (self.lifter, self.tf, self.basis))


def split(g, N, label):
    sizes, left = [], N
    while left > 0 and len(sizes) < 3:
        s = g.int(1, left, label)
        sizes.append(s)
        left -= s
    if left:
        sizes[-1] += left
    return sizes


class Manual:
    """The composition by hand, with stages of its own."""

    def __init__(self, stages, continuous):
        self.L, self.T, self.B = stages.fresh()
        self.continuous = continuous

    def lift(self, Q):
        return Q if self.L is None else self.L.lift(Q)

    def train(self, Qs, transformer=True, basis=True):
        X = np.concatenate([self.lift(Q) for Q in Qs], axis=1)
        if self.T is not None:
            if transformer:
                self.T.fit(X.copy())
            X = self.T.transform(X.copy())
        if self.B is not None and basis:
            self.B.fit(X)

    def encode(self, Q):
        X = self.lift(Q)
        if self.T is not None:
            X = self.T.transform(X.copy())
        return X if self.B is None else self.B.compress(X)

    def encode_lhs(self, Q, Z):
        if not self.continuous:
            return self.encode(Z)
        X = Z if self.L is None else self.L.lift_ddts(Q, Z)
        if self.T is not None:
            X = self.T.transform_ddts(X.copy())
        return X if self.B is None else self.B.compress(X)

    def decode(self, X, locs=None):
        if self.B is not None:
            X = self.B.decompress(X) if locs is None else self.B.decompress(X, locs=locs)
        elif locs is not None:
            X = X[locs]
        if self.T is not None:
            X = self.T.inverse_transform(X.copy()) if locs is None else \
                self.T.inverse_transform(X.copy(), locs=locs)
        return X if self.L is None else self.L.unlift(X)


def wave(g, n, t, label):
    """Smooth, linearly independent, non-degenerate positive rows."""
    rng = g.rng(label)
    k = t.size
    F = np.array([np.sin((j + 1) * 1.3 * t + j) for j in range(n + 2)])
    Q = rng.standard_normal((n, n + 2)) @ F / np.sqrt(n + 2)
    return 2.0 + 0.5 * Q / max(1.0, np.abs(Q).max()) + 0.02 * rng.standard_normal((n, k))


def simple_model(continuous, r):
    Class = opinf.models.ContinuousModel if continuous else opinf.models.DiscreteModel
    return Class([opinf.operators.LinearOperator(np.eye(r))])


def trained_like(rom, hand, probe, msg):
    """The ROM's stages act like the manual ones."""
    X = hand.lift(probe)
    if hand.T is not None:
        want = hand.T.transform(X.copy())
        close(rom.transformer.transform(X.copy()), want, msg + ": transformer", 1e-8)
        X = want
    if hand.B is not None:
        P = hand.B.decompress(hand.B.compress(X))
        close(rom.basis.decompress(rom.basis.compress(X)), P, msg + ": basis", 1e-6,
              scale=np.abs(X).max())


@CHECK.sub(quick=3000, rule="at least two stages")
def stages(g):
    """encode(), decode(), project()."""
    st = Stages(g)
    continuous = g.bool("continuous")
    hand = Manual(st, continuous)
    k = g.int(st.N + 3, st.N + 8, "k")
    t = np.linspace(0, 3, k)
    Q = wave(g, st.n, t, "Q")
    Z = wave(g, st.n, t, "Z") if not continuous else g.normal((st.n, k), "Z")
    if not st.fits(hand.lift(Q)):
        g.tag("degenerate")
        return
    L, T, B = st.fresh()
    rom = opinf.roms.ROM(simple_model(continuous, st.r), lifter=L, transformer=T, basis=B)
    check(rom.lifter is L and rom.transformer is T and rom.basis is B, "stages of the ROM")
    with_lhs = g.bool("with_lhs")
    hand.train([Q])
    with unchanged(Q, Z, msg="encode() modified its arguments"):
        out = rom.encode(Q, Z, fit_transformer=True, fit_basis=True) if with_lhs else \
            rom.encode(Q, fit_transformer=True, fit_basis=True)
    trained_like(rom, hand, wave(g, st.n, t, "probe"), "encode(fit...=True)")
    hand.T, hand.B = rom.transformer, rom.basis      # from here on, exactly the same stages

    def pair(out, lhs):
        if lhs:
            check(isinstance(out, tuple) and len(out) == 2, "encode(states, lhs) is a pair")
            return out
        check(isinstance(out, np.ndarray), "encode(states) is an array")
        return out, None

    a, b = pair(out, with_lhs)
    want, want_lhs = hand.encode(Q), hand.encode_lhs(Q, Z)
    close(a, want, "encode() while training", 1e-10)
    if with_lhs:
        close(b, want_lhs, "encode(lhs) while training", 1e-10)
    for rep in range(2):
        one = g.bool(f"one{rep}")
        j = g.int(0, k - 1, f"j{rep}")
        X, Y = (Q[:, j], Z[:, j]) if one else (Q, Z)
        W, V = (want[:, j], want_lhs[:, j]) if one else (want, want_lhs)
        lhs = g.bool(f"lhs{rep}")
        if g.bool(f"inplace{rep}"):
            a, b = pair(rom.encode(X.copy(), *([Y.copy()] if lhs else []), inplace=True), lhs)
        else:
            with unchanged(X, Y, msg="encode() modified its arguments"):
                a, b = pair(rom.encode(X, *([Y] if lhs else [])), lhs)
        check(a.shape == ((st.r,) if one else (st.r, k)), "shape of the encoded states")
        close(a, W, "encode()", 1e-9, scale=np.abs(want).max())
        if lhs:
            close(b, V, "encode(lhs)", 1e-9, scale=np.abs(want_lhs).max())
        # decode arbitrary low-dimensional states
        E = W if g.bool(f"image{rep}") else np.abs(W) + 0.1 * np.abs(want).max()
        with unchanged(E, msg="decode() modified its argument"):
            D = rom.decode(E)
        with np.errstate(all="ignore"):
            ref = hand.decode(E.copy())
        if np.all(np.isfinite(ref)):
            close(D, ref, "decode()", 1e-9)
            check(D.shape[0] == st.n, "rows of the decoded states")
        if st.lifter is None:
            where(g, st, rom, hand, E, ref)
        with unchanged(X, msg="project() modified its argument"):
            P = rom.project(X)
        close(P, hand.decode(hand.encode(X)), "project()", 1e-9)
        # projecting twice changes nothing where the decoded states encode to the same
        if st.r == st.N:
            close(P, X, "project() is the identity in full dimension", 1e-6)
        if st.lifter is None:
            close(rom.project(P), P, "project() twice", 1e-6,
                  scale=np.abs(Q).max())
    g.nontrivial(st.count > 1)


def where(g, st, rom, hand, E, full):
    """decode() at some locations."""
    multi_t, multi_b = st.tkind == "multi", st.bkind == "multi"
    sizes = st.sizes if multi_t else st.bsizes if multi_b else None
    if sizes is None:
        locs = gen_pre.draw_locs(g, st.N)
        with unchanged(E, msg="decode(locs) modified its argument"):
            got = rom.decode(E, locs=locs)
        close(got, full[locs], "decode(locs)", 1e-9, scale=np.abs(full).max())
        g.tag("locs")
    elif len(set(sizes)) == 1 and (multi_t and multi_b):
        locs = gen_pre.draw_locs(g, sizes[0])
        got = rom.decode(E, locs=locs)
        rows = np.concatenate([np.arange(st.N)[i * sizes[0]:(i + 1) * sizes[0]][locs]
                               for i in range(len(sizes))])
        close(got, full[rows], "decode(locs) of several variables", 1e-9,
              scale=np.abs(full).max())
        g.tag("locs-multi")


# Fitting ---------------------------------------------------------------------------
class Training:
    """Training data in all the layouts the ROM accepts."""

    def __init__(self, g, st, continuous, m, label="data", many=None, estimator=None):
        self.continuous = continuous
        s = many or g.int(1, 3, label + ".s")
        k = g.int(2 * st.N + 8, 2 * st.N + 14, label + ".k")
        self.estimated = continuous and g.bool(label + ".estimated") \
            if estimator is None else estimator
        self.ddter = None
        t = np.linspace(0, 3, k)
        if self.estimated:
            kind = g.choice(["uniform", "uniform", "nonuniform", "interp", "newtimes"],
                            label + ".ddt")
            if kind == "uniform":
                self.ddter = opinf.ddt.UniformFiniteDifferencer(
                    t, scheme=g.choice(["ord2", "ord4", "fwd1", "bwd2", "ctr4", "ord6", "fwd3",
                                        "ctr2"], label + ".scheme"))
            elif kind == "nonuniform":
                t = t + 0.2 * (t[1] - t[0]) * g.uniform(-1, 1, k, label + ".jitter")
                self.ddter = opinf.ddt.NonuniformFiniteDifferencer(t)
            else:
                new = None if kind == "interp" else np.sort(g.uniform(t[0], t[-1], k - 2,
                                                                      label + ".new"))
                self.ddter = opinf.ddt.InterpDerivativeEstimator(
                    t, g.choice(["cubic", "akima", "pchip"], label + ".class"),
                    new_time_domain=new)
            g.tag("ddt-" + kind)
        equal = self.estimated or g.bool(label + ".equal")
        self.Q, self.U = [], []
        for i in range(s):
            size = k + i
            if i and not equal and g.bool(f"{label}.short{i}"):
                size = g.int(4, k, f"{label}.k{i}")
            ti = t if equal else np.linspace(0, 3, size)
            self.Q.append(wave(g, st.n, ti, f"{label}.Q{i}"))
            self.U.append(g.uniform(-1, 1, (m, ti.size), f"{label}.U{i}") if m else None)
        self.shift = not continuous and g.bool(label + ".shift")   # discrete, lhs=None
        self.Z = None
        if not self.estimated and not self.shift:
            self.Z = [g.normal(Q.shape, f"{label}.Z{i}") if continuous else
                      wave(g, st.n, np.linspace(0, 3, Q.shape[1]), f"{label}.Z{i}")
                      for i, Q in enumerate(self.Q)]
        self.single = s == 1 and g.bool(label + ".single")
        self.flat = m == 1 and g.bool(label + ".flat")
        self.container = g.choice([list, tuple], label + ".container")

    def arguments(self):
        U = [u[0] if self.flat else u for u in self.U]
        pick = (lambda x: x[0]) if self.single else self.container
        kw = dict(states=pick(self.Q))
        if self.Z is not None:
            kw["lhs"] = pick(self.Z)
        if self.U[0] is not None:
            kw["inputs"] = pick(U)
        return kw

    def arrays(self):
        return self.Q + (self.Z or []) + [u for u in self.U if u is not None]

    def reduced(self, hand):
        """Lists of reduced states, left-hand sides and inputs, trajectory by trajectory."""
        Qs, Zs, Us = [], [], []
        for i, (Q, U) in enumerate(zip(self.Q, self.U)):
            q = hand.encode(Q)
            if self.estimated:
                out = self.ddter.estimate(q) if U is None else self.ddter.estimate(q, U)
                q, z = out[0], out[1]
                U = out[2] if U is not None else None
            elif self.shift:
                q, z = q[:, :-1], q[:, 1:]
                U = None if U is None else U[:, :-1]
            else:
                z = hand.encode_lhs(Q, self.Z[i])
            Qs.append(q)
            Zs.append(z)
            Us.append(U)
        return Qs, Zs, None if Us[0] is None else Us


def joined(lists):
    return [None if x is None else np.concatenate(x, axis=1) for x in lists]


def new_model(st, continuous, reg):
    Class = opinf.models.ContinuousModel if continuous else opinf.models.DiscreteModel
    return Class([gen_models.build(R, with_entries=k) for R, k in zip(st.refs, st.known)],
                 solver=opinf.lstsq.L2Solver(reg))


def same_operators(got, want, kappa, msg):
    A, B = entries(got), entries(want)
    check(len(A) == len(B), msg)
    big = max([np.abs(b).max() for b in B if b.size] + [0.0])
    for a, b in zip(A, B):
        close(a, b, msg, 1e-13 * kappa ** 2 + 1e-10, scale=big)


def entries(model):
    out = []
    for op in model.operators:
        E = getattr(op, "entries", None)
        if E is None:
            continue
        if isinstance(op, (opinf.operators._base.ParametricOperatorTemplate,)):
            out.extend(np.asarray(e) for e in E)
        else:
            out.append(np.asarray(E))
    return out


def quiet(fn, *args, **kw):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return fn(*args, **kw)


def structure_for(g, st, label="model"):
    kinds = "cAHBN" if st.r <= 4 else "cAB"
    return gen_models.structure(g, r=st.r, kinds=kinds, label=label, poly=False)


def simulate(g, rom, hand, st, ms, continuous, probe, label, before=()):
    """predict() is encode, run, decode."""
    q0 = probe
    m = ms.m if ms.inputs else 0
    if continuous:
        t = np.linspace(0, 0.2, g.int(2, 6, label + ".nt"))
        a = g.uniform(-1, 1, max(m, 1), label + ".u")
        args = [t] + ([lambda s: a * np.cos(s)] if m else [])
        kw = {"method": g.choice(["RK45", "RK23"], label + ".method")}
    else:
        nt = g.int(1, 5, label + ".nt")
        args = [nt] + ([g.uniform(-1, 1, (m, nt), label + ".u")] if m else [])
        kw = {}
    with unchanged(q0, msg="predict() modified the initial condition"):
        got = quiet(rom.predict, *before, q0, *args, **kw)
    x0 = hand.encode(q0)
    want = quiet(rom.model.predict, *before, x0, *args, **kw)
    check(want.shape[0] == st.r, "rows of the model's prediction")
    ref = quiet(hand.decode, want.copy())
    if np.all(np.isfinite(ref)) and np.abs(want).max() < 1e8:
        close(got, ref, "predict() is not encode, run, decode", 1e-7, scale=np.abs(q0).max())
        check(got.shape[0] == st.n, "rows of the prediction")


@CHECK.sub(quick=1500, rule="at least two stages and more than one trajectory")
def fit(g):
    st = Stages(g)
    continuous = g.bool("continuous")
    ms = structure_for(g, st)
    m = ms.m if ms.inputs else 0
    tr = Training(g, st, continuous, m)
    hand = Manual(st, continuous)
    X = np.concatenate([hand.lift(Q) for Q in tr.Q], axis=1)
    if not st.fits(X):
        g.tag("degenerate")
        return
    reg = 10.0 ** g.float(-1, 1, "reg")
    L, T, B = st.fresh()
    rom = quiet(opinf.roms.ROM, new_model(ms, continuous, reg), lifter=L, transformer=T, basis=B,
                ddt_estimator=tr.ddter)
    steps = g.int(1, 3, "steps")
    for step in range(steps):
        flags = {}
        if step:
            new = g.rarely(f"samedata{step}", 3)
            if not new:
                tr2 = Training(g, st, continuous, m, f"data{step}",
                               estimator=tr.estimated)
                if tr.estimated:      # the ROM's estimator has its own time domain
                    k = tr.Q[0].shape[1]
                    tr2.Q = [wave(g, st.n, np.linspace(0, 3, k), f"again{step}{i}")
                             for i in range(len(tr2.Q))]
                    tr2.U = [g.uniform(-1, 1, (m, k), f"againU{step}{i}") if m else None
                             for i in range(len(tr2.Q))]
                tr2.ddter = tr.ddter
                tr = tr2
            X = np.concatenate([hand.lift(Q) for Q in tr.Q], axis=1)
            if not st.fits(X):
                g.tag("degenerate")
                return
            flags = dict(fit_transformer=g.bool(f"ft{step}"), fit_basis=g.bool(f"fb{step}"))
        hand_new = Manual(st, continuous)
        if step:
            hand_new.T, hand_new.B = (copy.deepcopy(rom.transformer), copy.deepcopy(rom.basis))
        hand_new.train(tr.Q, flags.get("fit_transformer", True), flags.get("fit_basis", True))
        hand = hand_new
        kw = tr.arguments()
        with unchanged(*tr.arrays(), msg="fit() modified the data"):
            lens = {k: len(v) for k, v in kw.items()}
            out = quiet(rom.fit, **kw, **flags)
            check({k: len(v) for k, v in kw.items()} == lens, "fit() modified a list")
        check(out is rom, "fit() returns the ROM")
        probe = wave(g, st.n, np.linspace(0, 3, 7), f"probe{step}")
        trained_like(rom, hand, probe, f"fit({flags})")
        hand.T, hand.B = rom.transformer, rom.basis
        Q, Z, U = joined(tr.reduced(hand))
        want = new_model(ms, continuous, reg)
        quiet(want.fit, Q, Z, U)
        kappa = float(np.max(want.solver.regcond()))
        same_operators(rom.model, want, kappa, f"operators, fit number {step + 1}")
        if tr.single:        # the same data as a list of one trajectory
            tr.single = False
            quiet(rom.fit, **tr.arguments(), fit_transformer=False, fit_basis=False)
            same_operators(rom.model, want, kappa, "operators from a list of one trajectory")
        simulate(g, rom, hand, st, ms, continuous, probe[:, 0], f"sim{step}")
    g.tag("continuous" if continuous else "discrete",
          "estimated" if tr.estimated else "shift" if tr.shift else "lhs")
    g.nontrivial(st.count > 1 and len(tr.Q) > 1)


@CHECK.sub(quick=700, rule="at least one stage and more than one parameter")
def parametric(g):
    st = Stages(g, max_n=4)
    if st.r > 4:
        g.tag("large")
        return
    continuous = g.bool("continuous")
    flavour = g.choice(["Parametric", "Parametric", "Interp"], "flavour")
    p = g.choice([1, 1, 2], "p")
    params = gen_par.training_points(g, p, g.int(3, 5, "s"))
    ts, r, m = c14.terms(g, flavour, params, r=st.r, kinds="cAHB" if st.r <= 3 else "cAB")
    uses = any(T.takes_input for T in ts)
    tr = Training(g, st, continuous, m if uses else 0, many=len(params))
    tr.single = False
    hand = Manual(st, continuous)
    if not st.fits(np.concatenate([hand.lift(Q) for Q in tr.Q], axis=1)):
        g.tag("degenerate")
        return
    reg = 10.0 ** g.float(-1, 1, "reg")
    time = "c" if continuous else "d"
    L, T, B = st.fresh()
    rom = quiet(opinf.roms.ParametricROM,
                quiet(c14.make, ts, flavour, time, solver=opinf.lstsq.L2Solver(reg)),
                lifter=L, transformer=T, basis=B, ddt_estimator=tr.ddter)
    mus = c14.as_parameters(g, params)
    flags = {}
    for step in range(g.int(1, 2, "steps")):
        if step:
            flags = dict(fit_transformer=g.bool("ft"), fit_basis=g.bool("fb"))
        with unchanged(*tr.arrays(), params, msg="fit() modified the data"):
            out = quiet(rom.fit, mus, **tr.arguments(), **flags)
        check(out is rom, "fit() returns the ROM")
        hand.T, hand.B = st.fresh()[1:]
        hand.train(tr.Q)
        probe = wave(g, st.n, np.linspace(0, 3, 7), f"probe{step}")
        trained_like(rom, hand, probe, "fit()")
        hand.T, hand.B = rom.transformer, rom.basis
        Q, Z, U = tr.reduced(hand)
        want = quiet(c14.make, ts, flavour, time, solver=opinf.lstsq.L2Solver(reg))
        quiet(want.fit, mus, Q, Z, U)
        solvers = want.solvers if flavour == "Interp" else [want.solver]
        kappa = max(float(np.max(s.regcond())) for s in solvers)
        same_operators(rom.model, want, kappa, "operators")
        i = g.int(0, len(params) - 1, f"mu{step}")

        class Ms:
            inputs = uses
        Ms.m = m
        mu = params[i] if p > 1 or g.bool(f"float{step}") else np.atleast_1d(params[i])
        simulate(g, rom, hand, st, Ms, continuous, probe[:, 0], f"sim{step}", before=(mu,))
    g.tag(flavour, "continuous" if continuous else "discrete")
    g.nontrivial(st.count > 0)
