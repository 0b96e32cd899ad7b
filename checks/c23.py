"""C23: verify() accepts consistent implementations and reports inconsistent ones."""
import contextlib
import io
import os

import h5py
import numpy as np
import opinf
import scipy.linalg as la

from pbt.runner import Check
from pbt.oracle import Violation, check, close, raises, same
from checks import c16, gen_basis, gen_lstsq, gen_ops, gen_par, gen_pre
from checks.c16 import agree, quietly, scratch

VE = opinf.errors.VerificationError
CHECK = Check("C23", assumptions=[
    "faults are large enough to be seen through verify()'s random probes: wrong by a factor or an "
    "offset everywhere (or in a whole row), wrong shapes, wrong types, wrong identity",
    "verify() checks what its documentation names; faults elsewhere are not claimed",
    "data of magnitude about one, as verify() draws its probes from [0, 1)",
    "parameters drawn by verify() itself for interpolatory operators may lie outside the "
    "training set",
])


SCHEMES = ([f"{d}{i}" for d in ("bwd", "fwd") for i in range(1, 7)]
           + [f"{d}{i}" for d in ("ctr", "ord") for i in (2, 4, 6)])


@contextlib.contextmanager
def elsewhere(g):
    """verify() may use temporary files in the working directory; none may stay."""
    here = os.getcwd()
    state = np.random.get_state()
    np.random.seed(g.int(0, 10**6, "npseed"))
    try:
        with scratch() as folder:
            os.chdir(folder)
            try:
                yield
                left = os.listdir(".")
                check(not left, f"verify() left files behind: {left}")
            finally:
                os.chdir(here)
    finally:
        np.random.set_state(state)


def verdict(fn, *args, **kw):
    """None, or the VerificationError; anything else is an alarm."""
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            quietly(lambda: fn(*args, **kw))
    except VE as ex:
        return ex
    except Exception as ex:
        raise Violation(f"verify() raised {type(ex).__name__}: {ex}")


def accept(what, fn, *args, **kw):
    ex = verdict(fn, *args, **kw)
    check(ex is None, f"verify() rejects {what}: {ex}")


def reject(what, fn, *args, **kw):
    check(verdict(fn, *args, **kw) is not None, f"verify() accepts {what}")


def stumble(what, fn, *args, **kw):
    """The fault is reported, by verify() or by the faulty code itself."""
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            quietly(lambda: fn(*args, **kw))
    except Exception:
        return
    raise Violation(f"verify() accepts {what}")


def judge(fault, what, fn, *args, **kw):
    if fault is None:
        accept(what, fn, *args, **kw)
    else:   # (these faults make the methods fail before verify() can look at their results)
        alone = fault == "state_dimension: other" or (
            "a row missing" in fault and "pipeline" in what)
        (stumble if alone else reject)(f"{what} with fault '{fault}'", fn, *args, **kw)


def dimensioned(tf):
    """Every transformer inside has a dimension."""
    parts = getattr(tf, "transformers", [])
    return tf.state_dimension is not None and all(map(dimensioned, parts))


# The library's own classes ===================================================
@CHECK.sub(quick=500, rule="trained object")
def own_transformers(g):
    item = quietly(lambda: c16.TransformerItem(g))
    if not item.trained:
        if item.obj.state_dimension is None:
            raises(AttributeError, lambda: quietly(item.obj.verify), "verify() before fit()")
            g.tag("untrained")
        return
    o = item.obj
    base = item.probe(o)
    for val in base.values():
        if isinstance(val, np.ndarray) and val.dtype.kind == "f" and \
                (not np.all(np.isfinite(val)) or np.abs(val).max() > 1e4
                 or 0 < np.abs(val).max() < 1e-4):
            g.tag("extreme")
            return
    try:
        quietly(lambda: opinf.pre.TransformerTemplate.inverse_transform)
        Z = quietly(lambda: o.transform(item.Y.copy()))
        if not np.allclose(quietly(lambda: o.inverse_transform(Z)), item.Y):
            g.tag("extreme")
            return
    except Exception:
        g.tag("not usable")
        return
    if not dimensioned(o):
        g.tag("no dimension")   # (scaling needs none)
        return
    with elsewhere(g):
        accept(type(o).__name__, o.verify)
    agree(item, base, o, "after verify()")
    g.nontrivial()


@CHECK.sub(quick=400, rule="trained object")
def own_bases(g):
    item = quietly(lambda: c16.BasisItem(g))
    if not item.trained:
        return
    base = item.probe(item.obj)
    with elsewhere(g):
        accept(type(item.obj).__name__, item.obj.verify)
    agree(item, base, item.obj, "after verify()")
    g.nontrivial()


@CHECK.sub(quick=400, rule="trained object")
def own_solvers(g):
    item = quietly(lambda: c16.SolverItem(g))
    o = item.obj
    base = item.probe(o)
    if item.trained and (isinstance(base["solve"], tuple) or not np.all(np.isfinite(base["solve"]))):
        return      # (no regularizer yet, or singular)
    with elsewhere(g):
        accept(type(o).__name__, o.verify)
    agree(item, base, o, "after verify()")
    g.nontrivial(item.trained)


@CHECK.sub(quick=500, rule="operator with entries")
def own_operators(g):
    item = c16.OperatorItem(g)
    if item.kind == "P":
        g.tag("no datablock")
    o = item.obj
    if not item.trained and item.kind == "P":
        return
    if hasattr(o.entries, "toarray"):
        g.tag("sparse")
    base = item.probe(o)
    size = 1.0 if o.entries is None else np.abs(o.entries).max()
    if not 1e-3 < size < 1e3:
        return
    with elsewhere(g):
        accept(type(o).__name__, o.verify)
    agree(item, base, o, "after verify()")
    g.nontrivial(item.trained)


@CHECK.sub(quick=300, rule="operator with entries")
def own_parametric(g):
    item = quietly(lambda: c16.ParametricItem(g))
    if not item.trained:
        return
    o = item.obj
    base = item.probe(o)
    # (verify() may pick parameters outside the hull of the training parameters)
    param = np.atleast_1d(item.mus[0]).astype(float)
    with elsewhere(g):
        accept(type(o).__name__, o.verify, param)
    agree(item, base, o, "after verify()")
    g.nontrivial()


@CHECK.sub(quick=120, rule="always")
def own_estimators(g):
    """Errors that verify() reports shrink at the order of the scheme."""
    k = g.int(8, 20, "k")
    kind = g.choice(["uniform", "uniform", "interp", "newtimes", "nonuniform"], "kind")
    t = np.linspace(0, g.float(0.5, 2.0, "T"), k)
    if kind == "uniform":
        scheme = g.choice(SCHEMES, "scheme")
        est = opinf.ddt.UniformFiniteDifferencer(t, scheme)
        order = int(scheme[-1])
    elif kind == "nonuniform":
        est, order = opinf.ddt.NonuniformFiniteDifferencer(t), 2
    else:
        new = np.sort(g.uniform(t[0], t[-1], g.int(1, 9, "new"), "tnew")) if kind == "newtimes" else None
        est, order = opinf.ddt.InterpDerivativeEstimator(t, "cubic", new_time_domain=new), 3
    X = g.normal((2, k), "X")
    before = est.estimate(X)
    with elsewhere(g):
        accept(type(est).__name__, est.verify_shapes, g.int(1, 7, "r"), g.int(1, 4, "m"))
        with contextlib.redirect_stdout(io.StringIO()):
            out = quietly(lambda: est.verify(return_errors=True))
    same(est.time_domain, t, "verify() restores the time domain")
    for a, b in zip(before, est.estimate(X)):
        same(a, b, "verify() does not change the estimator")
    dts = np.asarray(out["dts"])
    check(len(out) == 7 and all(len(v) == dts.size for v in out.values()), "shape of the report")
    for name, errs in out.items():
        if name == "dts":
            continue
        errs = np.asarray(errs)
        # (at dt = 1e-3 truncation still dominates only for order 1; rounding is about eps / dt)
        for j in np.flatnonzero((dts < 0.05) & (dts > 1e-8)):
            bound = 100 * dts[j] ** min(order, 2) + 1e-12 / dts[j]
            check(errs[j] <= bound, f"{type(est).__name__} reports error {errs[j]:.1e} for {name} "
                  f"at dt = {dts[j]:.0e}")
    g.tag(kind)
    g.nontrivial()


# User-defined transformers ===================================================
class Affine(opinf.pre.TransformerTemplate):
    """q -> a q + b, row by row, with one fault."""

    def __init__(self, a, b, fault=None, ddts=True, eps=0.0):
        super().__init__()
        self.state_dimension = a.size
        self.a, self.b, self.fault, self.ddts, self.eps = a, b, fault, ddts, eps

    def fit_transform(self, states, inplace=False):
        return self.transform(states, inplace)

    def transform(self, states, inplace=False):
        f = self.fault
        if f == "transform: a row missing":
            return (self.at(self.a, states) * states + self.at(self.b, states))[1:]
        make = (lambda Y, Z: self.store(Y, Z, inplace, f, "transform"))
        return make(states, self.at(self.a, states) * states + self.at(self.b, states))

    @staticmethod
    def at(v, states):
        return v[:, None] if states.ndim == 2 else v

    @staticmethod
    def store(Y, Z, inplace, f, label):
        if inplace and f == label + ": in place returns a copy":
            return Z
        if inplace or f == label + ": returns its argument":
            Y[:] = Z
            return Y
        return Z

    def inverse_transform(self, Y, inplace=False, locs=None):
        f = self.fault
        a, b = self.a, self.b
        if f == "inverse: scaled":
            a = 2 * a
        elif f == "inverse: slightly":
            a = a * 1.0005
        elif f == "inverse: shifted":
            b = b + 0.1
        elif f == "inverse: one row":
            b = b + 0.1 * (np.arange(b.size) == b.size - 1)
        if locs is not None:
            if f == "locs: ignored":
                return (np.zeros((a.size, Y.shape[1])) - b[:, None]) / a[:, None]
            a, b = a[locs], b[locs]
            if f == "locs: scaled":
                a = 2 * a
            elif f == "locs: slightly":
                a = a * 1.0005
            elif f == "locs: shifted":
                b = b - 0.2
            elif f == "locs: reversed":
                return ((Y - self.at(b, Y)) / self.at(a, Y))[::-1]
            elif f == "locs: one row":
                b = b - 0.2 * (np.arange(b.size) == 0)
            elif f == "locs: rows":
                return np.concatenate([Y, Y])
        Z = (Y - self.at(b, Y)) / self.at(a, Y)
        if f == "inverse: a row missing" and locs is None:
            return Z[1:]
        return self.store(Y, Z, inplace, f, "inverse")

    def transform_ddts(self, ddts, inplace=False):
        if not self.ddts:
            return NotImplemented
        f = self.fault
        Z = self.at(self.a, ddts) * ddts * (1 + self.eps)
        if f == "ddts: shifted":
            Z = Z + 5 * np.abs(Z).max()
        elif f == "ddts: not scaled":
            Z = ddts * (1 + self.a.max())
        elif f == "ddts: zero":
            Z = 0 * Z
        return self.store(ddts, Z, inplace, f, "ddts")


TF_FAULTS = [s + t for s in ("transform", "inverse") for t in (
    ": a row missing", ": in place returns a copy", ": returns its argument")] + [
    "inverse: scaled", "inverse: slightly", "inverse: shifted", "inverse: one row"]
LOCS_FAULTS = ["locs: ignored", "locs: scaled", "locs: slightly", "locs: shifted", "locs: reversed",
               "locs: one row", "locs: rows"]
TF_FAULTS += LOCS_FAULTS
DDT_FAULTS = ["ddts: in place returns a copy", "ddts: returns its argument", "ddts: shifted",
              "ddts: not scaled", "ddts: zero"]


@CHECK.sub(quick=800, rule="a faulty implementation")
def transformers(g):
    """Affine row-wise maps, alone or inside pipelines and multi-variable transformers."""
    ddts = not g.rarely("noddts", 3)
    fault = None if g.rarely("sound", 4) else g.choice(
        TF_FAULTS + (DDT_FAULTS if ddts else []), "fault")
    n = g.int(6, 9, "n") if fault == "locs: reversed" else g.int(3, 8, "n")

    def make(fault, i, n=n):
        return Affine(g.uniform(0.5, 2.0, n, f"a{i}"), g.uniform(-1, 1, n, f"b{i}"), fault, ddts)
    tf = make(fault, 0)
    how = g.choice(["alone", "alone", "multi", "twice multi", "pipeline"], "how")
    if how == "pipeline":    # the member that is given the argument of the pipeline is at fault
        parts = [tf] + [gen_pre.leaf(g, n, kinds=("shift", "scale", "null")).tf
                        if g.bool(f"lib{i}") else make(None, i + 1)
                        for i in range(g.int(1, 2, "others"))]
        for o in parts:
            if o.state_dimension is None:
                o.state_dimension = n
        if (fault or "").startswith("inverse") or (fault is None and g.bool("last")):
            parts.reverse()
        tf = opinf.pre.TransformerPipeline(parts)
    if how == "multi":
        n2 = n + g.int(0, 1, "more")
        others = [gen_pre.leaf(g, n2, kinds=("shift", "scale", "null")).tf if g.bool(f"lib{i}")
                  else make(None, i + 1, n2) for i in range(g.int(1, 2, "others"))]
        j = g.int(0, len(others), "position")
        for o in others:
            if o.state_dimension is None:
                o.state_dimension = n2
        tf = opinf.pre.TransformerMulti(others[:j] + [tf] + others[j:])
    elif how == "twice multi":
        tf = opinf.pre.TransformerMulti([tf, make(fault, 1)])
    with elsewhere(g):
        judge(fault, "a transformer " + how, tf.verify)
    g.tag(how, fault or "sound")
    g.nontrivial(fault is not None)


@CHECK.sub(quick=300, rule="always")
def transformer_tolerance(g):
    """The relative error of transform_ddts() decides, against the given tolerance."""
    n = g.int(1, 6, "n")
    eps = 10.0 ** g.float(-5, -1, "eps") * g.choice([1, -1], "sign")
    tf = Affine(g.uniform(0.5, 2.0, n, "a"), g.uniform(-1, 1, n, "b"), eps=eps)
    with elsewhere(g):
        f = g.float(1.05, 5.0, "f")
        accept(f"an error of {eps:.2e} within the tolerance", tf.verify, abs(eps) * f)
        reject(f"an error of {eps:.2e} beyond the tolerance", tf.verify, abs(eps) / f)
        if not 0.95e-4 < abs(eps) < 1.05e-4:
            judge(None if abs(eps) < 1e-4 else "error", "the default tolerance", tf.verify)
        multi = opinf.pre.TransformerMulti([
            tf, Affine(g.uniform(0.5, 2.0, n, "a2"), g.uniform(-1, 1, n, "b2"), eps=eps)])
        accept(f"two variables with an error of {eps:.2e} within the tolerance", multi.verify,
               abs(eps) * f)
        reject(f"two variables with an error of {eps:.2e} beyond the tolerance", multi.verify,
               abs(eps) / f)
    g.nontrivial()


# User-defined classes for several variables ----------------------------------
def faulty_multi(fault):
    """A class that is at fault although each of its members is sound."""
    class Multi(opinf.pre.TransformerMulti):
        def transform(self, states, inplace=False):
            Z = super().transform(states, inplace=inplace)
            return Z[1:] if fault == "transform: rows" else Z

        def inverse_transform(self, Y, inplace=False, locs=None):
            out = super().inverse_transform(Y, inplace=inplace, locs=locs)
            if locs is None:
                if fault == "inverse: slightly":
                    out *= 1.0005
                if fault == "inverse: rows":
                    return np.concatenate([out, out])
                if fault == "inverse: in place returns a copy":
                    return out.copy()
            elif fault == "locs: slightly":
                out = 1.0005 * out
            elif fault == "locs: variables":
                out = out[::-1]
            elif fault == "locs: rows":
                out = out[:len(locs)]
            return out

        def transform_ddts(self, ddts, inplace=False):
            out = super().transform_ddts(ddts, inplace=inplace)
            if fault == "ddts: scaled" and out is not NotImplemented:
                out *= 1.01
            return out
    return Multi


def faulty_bases(fault):
    class Multi(opinf.basis.BasisMulti):
        def compress(self, states):
            out = super().compress(states)
            return out[:, 1:] if fault == "compress: columns" and out.ndim > 1 else out

        def decompress(self, states_compressed, locs=None):
            out = super().decompress(states_compressed, locs=locs)
            if locs is None and fault == "decompress: slightly":
                return 1.0005 * out
            if locs is not None:
                if fault == "locs: slightly":
                    return 1.0005 * out
                if fault == "locs: variables":
                    return out[::-1]
                if fault == "locs: rows":
                    return out[:len(locs)]
            return out
    return Multi


@CHECK.sub(quick=300, rule="a faulty implementation")
def multis(g):
    """Faults of the whole, the members being sound."""
    n, nvar = g.int(6, 9, "n"), g.int(2, 3, "nvar")
    if g.bool("transformers"):
        fault = None if g.rarely("sound", 4) else g.choice(
            ["transform: rows", "inverse: slightly", "inverse: rows",
             "inverse: in place returns a copy", "locs: slightly", "locs: variables", "locs: rows",
             "ddts: scaled"], "fault")
        obj = faulty_multi(fault)([Affine(g.uniform(0.5, 2.0, n, f"a{i}"),
                                          g.uniform(-1, 1, n, f"b{i}")) for i in range(nvar)])
    else:
        fault = None if g.rarely("sound", 4) else g.choice(
            ["compress: columns", "decompress: slightly", "locs: slightly", "locs: variables",
             "locs: rows"], "fault")
        obj = faulty_bases(fault)([
            opinf.basis.LinearBasis(np.linalg.qr(g.normal((n, g.int(1, n, f"r{i}")), f"V{i}"))[0])
            for i in range(nvar)])
    with elsewhere(g):
        judge(fault, type(obj).__bases__[0].__name__, obj.verify)
    g.tag(fault or "sound")
    g.nontrivial(fault is not None)


# User-defined bases ==========================================================
class Oblique(opinf.basis.BasisTemplate):
    """compress: W' q, decompress: V q, with W'V = I."""

    def __init__(self, V, W, fault=None):
        super().__init__()
        self.full_state_dimension, self.reduced_state_dimension = V.shape
        self.V, self.W, self.fault = V, W, fault

    def fit(self, states):
        return self

    def compress(self, states):
        f = self.fault
        out = self.W.T @ states
        if states.ndim == 2:
            if f == "compress: columns":
                return out[:, 1:]
            if f == "compress: repeated columns":
                return np.repeat(out, 2, axis=1)
        elif f == "compress: vector to matrix":
            return out[:, None]
        elif f == "compress: vector to number":
            return out.sum()
        return out

    def decompress(self, states_compressed, locs=None):
        f = self.fault
        V = self.V
        if locs is not None:
            if f == "locs: ignored":
                return V @ states_compressed
            V = V[locs]
            if f == "locs: scaled":
                V = 3 * V
            elif f == "locs: slightly":
                V = 1.0005 * V
            elif f == "locs: shifted":
                return V @ states_compressed + 1.0
            elif f == "locs: reversed":
                return (V @ states_compressed)[::-1]
            elif f == "locs: one row":
                return V @ states_compressed + np.eye(len(V), 1)
            elif f == "locs: rows":
                V = np.concatenate([V, V])
        out = V @ states_compressed
        if f == "decompress: scaled" and locs is None:
            out = 1.5 * out
        if f == "decompress: scaled throughout":
            out = 1.5 * out
        if f == "decompress: slightly":
            out = 1.0005 * out
        if states_compressed.ndim == 2:
            if locs is None and f == "decompress: rows":
                return out[1:]
            if locs is None and f == "decompress: columns":
                return out[:, :-1]
        elif f == "decompress: vector to matrix":
            return out[:, None]
        return out


BASIS_FAULTS = ["compress: columns", "compress: repeated columns", "compress: vector to matrix",
                "compress: vector to number", "decompress: rows", "decompress: columns",
                "decompress: vector to matrix", "decompress: scaled",
                "decompress: scaled throughout", "decompress: slightly"] + LOCS_FAULTS


@CHECK.sub(quick=600, rule="a faulty implementation")
def bases(g):
    fault = None if g.rarely("sound", 4) else g.choice(BASIS_FAULTS, "fault")
    n = g.int(6, 9, "n") if fault == "locs: reversed" else g.int(3, 9, "n")

    def make(fault, i, n=n):
        r = g.int(1, n, f"r{i}")
        V = np.linalg.qr(g.normal((n, n), f"V{i}"))[0][:, :r]
        if g.bool(f"oblique{i}"):
            V = V @ (np.eye(r) + 0.3 * np.triu(g.uniform(-1, 1, (r, r), f"R{i}")))
        return Oblique(V, np.linalg.pinv(V).T, fault)
    basis = make(fault, 0)
    how = g.choice(["alone", "multi"], "how")
    if how == "multi":
        j = g.bool("position")
        n2 = n + g.int(0, 1, "more")
        other = gen_basis.linear_basis(g, n2, g.int(1, n, "ro"))[0] if g.bool("lib") \
            else make(None, 1, n2)
        basis = opinf.basis.BasisMulti([other, basis] if j else [basis, other])
    with elsewhere(g):
        judge(fault, "a basis " + how, basis.verify)
    g.tag(how, fault or "sound")
    g.nontrivial(fault is not None)


# User-defined liftings =======================================================
class Lifting(opinf.lift.LifterTemplate):
    """q -> (q, sin q, c q)"""

    def __init__(self, c, fault=None, ddts=True, eps=0.0):
        self.c, self.fault, self.ddts, self.eps = c, fault, ddts, eps

    def lift(self, states):
        out = np.concatenate((states, np.sin(states), self.c * states))
        if self.fault == "lift: columns":
            return out[:, 1:]
        return out

    def unlift(self, lifted):
        f = self.fault
        out = np.split(lifted, 3)[0].copy()
        if f == "unlift: rows":
            return out[1:]
        if f == "unlift: columns":
            return out[:, 1:]
        if f == "unlift: block":
            return np.split(lifted, 3)[1].copy()
        if f == "unlift: one row":
            out[-1] += 0.2
        if f == "unlift: scaled":
            out = 1.1 * out
        if f == "unlift: slightly":
            out = 1.0005 * out
        return out

    def lift_ddts(self, states, ddts):
        if not self.ddts:
            return NotImplemented
        f = self.fault
        inner = np.sin(states) * ddts if f == "lift_ddts: sine" else \
            np.cos(states) if f == "lift_ddts: chain rule" else np.cos(states) * ddts
        out = np.concatenate((ddts, inner, self.c * ddts))
        if f == "lift_ddts: blocks":
            return out[:-len(ddts)]
        if f == "lift_ddts: columns":
            return out[:, :-1]
        return out * (1 + self.eps)


LIFT_FAULTS = ["lift: columns", "unlift: rows", "unlift: columns", "unlift: block",
               "unlift: one row", "unlift: scaled", "unlift: slightly"]
LDDT_FAULTS = ["lift_ddts: sine", "lift_ddts: chain rule", "lift_ddts: blocks",
               "lift_ddts: columns"]


@CHECK.sub(quick=600, rule="a faulty implementation")
def liftings(g):
    n = g.int(1, 5, "n")
    ddts = not g.rarely("noddts", 3)
    fault = None if g.rarely("sound", 3) else g.choice(
        LIFT_FAULTS + (LDDT_FAULTS if ddts else []), "fault")
    t = np.linspace(0, 1, g.int(201, 260, "k"))
    if g.bool("jitter"):
        t = t + 0.1 * t[1] * g.uniform(-1, 1, t.size, "dt")
    Q = np.array([np.cos((1 + 0.5 * i) * t + i + g.float(0, 1, f"p{i}")) + 2 * t for i in range(n)])
    before = Q.copy(), t.copy()
    lifter = Lifting(g.float(0.5, 1.5, "c"), fault, ddts)
    if ddts and g.rarely("notime", 4) and (fault is None or fault in LDDT_FAULTS):
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                lifter.verify(Q)
        except ValueError:
            g.tag("no time domain")
            return
        raise Violation("verify() of lift_ddts() without a time domain")
    if g.bool("own") and fault is None:
        lifter = g.choice([opinf.lift.QuadraticLifter(), opinf.lift.PolynomialLifter((1, 3)),
                           opinf.lift.PolynomialLifter([2, 1, 0]),
                           c16_exp()], "which")
        ddts = True
    judge(fault, "a lifting", lifter.verify, Q, *([t] if ddts or g.bool("time") else []), tol=3e-3)
    if fault is None and isinstance(lifter, Lifting) and ddts:
        eps = 10.0 ** g.float(-1.5, -0.5, "eps")
        off = Lifting(lifter.c, eps=eps)
        reject(f"an error of {eps} beyond the tolerance", off.verify, Q, t, eps / 2)
        accept(f"an error of {eps} within the tolerance", off.verify, Q, t, tol=2 * eps + 1e-2)
    same(Q, before[0], "verify() modified the states")
    same(t, before[1], "verify() modified the time domain")
    g.tag(fault or "sound")
    g.nontrivial(fault is not None)


def c16_exp():
    from checks import c19
    return c19.ExpLifter()


# User-defined derivative estimators ==========================================
TESTS = [(lambda t: t, np.ones_like),
         (lambda t: t**4 - t**3 / 3, lambda t: 4 * t**3 - t**2),
         (np.sin, np.cos), (np.exp, np.exp),
         (lambda t: 1 / (t + 1), lambda t: -1 / (t + 1)**2),
         (lambda t: t - t**3 + np.cos(t) - np.exp(t / 2),
          lambda t: 1 - 3 * t**2 - np.sin(t) - np.exp(t / 2) / 2)]


class Estimator(opinf.ddt.DerivativeEstimatorTemplate):
    """Exact derivatives of verify()'s test functions, off by a factor."""

    def __init__(self, t, start, stop, eps=0.0, fault=None):
        super().__init__(t)
        self.window = slice(start, -stop if stop else None)
        self.eps, self.fault = eps, fault

    def mask(self, arr):
        return arr[..., self.window]

    def estimate(self, states, inputs=None):
        t = self.time_domain
        f = self.fault
        if f == "breaks down" and len(states) == len(TESTS):
            raise ArithmeticError("no estimate")
        D = np.zeros_like(states)
        if len(states) == len(TESTS):
            for i, (fn, dfn) in enumerate(TESTS):
                if np.allclose(fn(t), states[i]):
                    D[i] = dfn(t)
        Q, D = self.mask(states), self.mask(D) * (1 + self.eps)
        U = None if inputs is None else self.mask(inputs)
        if f == "rows of states":
            Q = Q[1:]
        elif f == "rows of derivatives":
            D = np.vstack((D, D[:1]))
        elif f == "columns":
            D = D[:, 1:]
        elif f == "always three":
            return Q, D, U
        elif f == "a list" and inputs is None:
            return [Q, D]
        if inputs is None:
            return Q, D
        if f == "never inputs":
            return Q, D
        if f == "no inputs":
            U = None
        elif f == "rows of inputs":
            U = U[:-1] if len(U) > 1 else np.vstack((U, U))
        elif f == "columns of inputs":
            U = U[:, 1:]
        return Q, D, U


EST_FAULTS = ["rows of states", "rows of derivatives", "columns", "always three", "a list",
              "never inputs", "no inputs", "rows of inputs", "columns of inputs"]


@CHECK.sub(quick=250, rule="always")
def estimators(g):
    """Shapes are checked, and errors are reported for the right instants."""
    k = g.int(4, 20, "k")
    t = np.linspace(0, 1, k)
    fault = None if g.bool("sound") else g.choice(EST_FAULTS, "fault")
    eps = 10.0 ** g.float(-6, 0, "eps")
    est = Estimator(t, g.int(0, 2, "start"), g.int(0, 1, "stop"), eps, fault)
    with elsewhere(g):
        if fault is not None:
            reject(f"an estimator with fault '{fault}'", est.verify_shapes, g.int(2, 6, "r"),
                   g.int(1, 4, "m"))
            reject(f"an estimator with fault '{fault}'", est.verify)
        else:
            accept("an estimator", est.verify_shapes, g.int(1, 7, "r"), g.int(1, 4, "m"))
            plot = False
            with contextlib.redirect_stdout(io.StringIO()):
                out = est.verify(plot, return_errors=True)
                check(est.verify() is None, "verify() returns errors only on demand")
            for name, errs in out.items():
                if name == "dts":
                    continue
                for dt, err in zip(out["dts"], errs):
                    if dt > 1e-6:
                        close(err, eps, f"relative error of {name} at dt = {dt:.0e}", 1e-6, 1e-10)
        broken = Estimator(t, 0, 0, 0.0, "breaks down")
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                broken.verify()
        except ArithmeticError:
            pass
    same(est.time_domain, t, "verify() restores the time domain")
    same(broken.time_domain, t, "verify() restores the time domain after an error")
    g.tag(fault or "sound")
    g.nontrivial()


# User-defined solvers ========================================================
class Ridge(opinf.lstsq.SolverTemplate):
    def __init__(self, reg, fault=None, files=True):
        super().__init__()
        self.reg, self.fault, self.files = reg, fault, files

    def solve(self):
        D, Z = self.data_matrix, self.lhs_matrix
        O = la.solve(D.T @ D + self.reg * np.eye(D.shape[1]), D.T @ Z.T).T
        if self.fault == "solve: transposed":
            return np.zeros((O.shape[1], O.shape[0] + 1))
        if self.fault == "solve: one row":
            return O[0]
        if self.fault == "solve: extra column":
            return np.column_stack((O, O))
        return O

    def copy(self):
        if self.fault == "copy: type":
            new = opinf.lstsq.PlainSolver()
        else:
            new = Ridge(self.reg * (7 if self.fault == "copy: setting" else 1), self.fault, self.files)
        D, Z = self.data_matrix, self.lhs_matrix
        if self.fault == "copy: equations":
            D, Z = D[1:], Z[:, 1:]
        if self.fault == "copy: rows":
            Z = np.vstack((Z, Z))
        return new.fit(D, Z)

    def save(self, savefile, overwrite=False):
        if not self.files:
            raise NotImplementedError
        check(not os.path.exists(savefile) or overwrite, "overwrite")
        with h5py.File(savefile, "w") as hf:
            hf["D"], hf["Z"] = self.data_matrix, self.lhs_matrix
            hf["reg"] = self.reg * (7 if self.fault == "file: setting" else 1)

    @classmethod
    def load(cls, loadfile):
        with h5py.File(loadfile, "r") as hf:
            return cls(hf["reg"][()]).fit(hf["D"][:], hf["Z"][:])


SOLVER_FAULTS = ["solve: transposed", "solve: one row", "solve: extra column", "copy: type",
                 "copy: setting", "copy: equations", "copy: rows", "file: setting"]


@CHECK.sub(quick=400, rule="a faulty implementation")
def solvers(g):
    r, d = g.int(2, 4, "r"), g.int(1, 5, "d")
    k = d + g.int(2, 6, "k")
    files = g.bool("files")
    fault = None if g.rarely("sound", 4) else g.choice(
        SOLVER_FAULTS if files else SOLVER_FAULTS[:-1], "fault")
    solver = Ridge(g.float(0.5, 2.0, "reg"), fault, files)
    with elsewhere(g):
        accept("an untrained solver", solver.verify)
        solver.fit(g.normal((k, d), "D"), 1 + np.abs(g.normal((r, k), "Z")))
        judge(fault, "a solver", solver.verify)
    g.tag(fault or "sound")
    g.nontrivial(fault is not None)


# User-defined operators ======================================================
class SineBase(opinf.operators.OperatorTemplate):
    """(q, u) -> A sin(q) [+ B u]"""
    has = ()

    def __init__(self, A, B=None, fault=None, has=("jacobian", "galerkin", "file")):
        self.A, self.B, self.fault, self.has = A, B, fault, has

    @property
    def state_dimension(self):
        r = self.A.shape[0]
        return {"state_dimension: float": float(r), "state_dimension: none": None,
                "state_dimension: negative": -r, "state_dimension: array": np.array(r), "state_dimension: zero": 0,
                "state_dimension: other": r + 1}.get(self.fault, r)

    def apply(self, state, input_=None):
        f = self.fault
        out = self.A @ np.sin(state)
        if self.B is not None:
            out = out + self.B @ input_
        if f == "apply: matrix for vector" and state.ndim == 1:
            return out[:, None]
        if f == "apply: vector for matrix" and state.ndim == 2:
            return out[:, 0]
        if f == "apply: rows":
            return np.concatenate((out, out))
        if f == "apply: list":
            return out.tolist()
        return out

    def jacobian(self, state, input_=None):
        if "jacobian" not in self.has:
            raise NotImplementedError
        f = self.fault
        J = self.A * np.cos(state)
        if f == "jacobian: transposed":
            return 2 * J.T
        if f == "jacobian: chain rule":
            return self.A * np.sin(state) + 0.5
        if f == "jacobian: no derivative":
            return self.A + 0.3
        if f == "jacobian: vector":
            return J[0] if len(J) > 1 else J[0, 0] + np.ones(2)
        if f == "jacobian: a number":
            return 1.5
        return J

    def galerkin(self, Vr, Wr=None):
        if "galerkin" not in self.has:
            raise NotImplementedError
        f = self.fault
        if Wr is None or f == "galerkin: no test basis":
            L = Vr.T
        else:
            L = np.linalg.solve(Wr.T @ Vr, Wr.T)
            if f == "galerkin: no Gram matrix":
                L = 2 * Wr.T
        if f == "galerkin: trial only" and Wr is None:
            L = 2 * L
        if f == "galerkin: type":
            return L @ self.A
        B = None if self.B is None else L @ self.B
        if f == "galerkin: dimension":
            L = np.vstack((L, L))
        if f == "galerkin: inputs" and B is not None:
            B = np.column_stack((B, B))
        C = ReducedInput if self.B is not None else Reduced
        return C(L @ self.A, Vr, B, factor={"galerkin: doubled": 2, "galerkin: slightly": 1.0005}.get(f, 1))

    def copy(self):
        f = self.fault
        if f == "copy: itself":
            return self
        if f == "copy: type":
            return Reduced(self.A, np.eye(len(self.A)), None)
        A = self.A * {"copy: entries": 1.5, "copy: slightly": 1.0005}.get(f, 1)
        B = self.B
        if f == "copy: dimension":
            A, B = np.vstack((A, A)), None if B is None else np.vstack((B, B))
        return type(self)(A, B, f, self.has)

    def save(self, savefile, overwrite=False):
        if "file" not in self.has:
            raise NotImplementedError
        f = self.fault
        with h5py.File(savefile, "w") as hf:
            hf["A"] = self.A * {"file: entries": 1.5, "file: slightly": 1.0005}.get(f, 1)
            hf["type"] = f == "file: type"
            if self.B is not None:
                hf["B"] = np.column_stack((self.B, self.B)) if f == "file: inputs" else self.B

    @classmethod
    def load(cls, loadfile):
        with h5py.File(loadfile, "r") as hf:
            A, B = hf["A"][:], hf["B"][:] if "B" in hf else None
            return Reduced(A, np.eye(len(A)), None) if hf["type"][()] else cls(A, B)


class Sine(SineBase):
    pass


class SineInput(SineBase, opinf.operators.InputMixin):
    @property
    def input_dimension(self):
        m = self.B.shape[1]
        return {"input_dimension: float": float(m), "input_dimension: none": None,
                "input_dimension: negative": -m, "input_dimension: zero": 0}.get(self.fault, m)


class ReducedBase(opinf.operators.OperatorTemplate):
    def __init__(self, A, V, B, factor=1):
        self.A, self.V, self.B, self.factor = A, V, B, factor

    @property
    def state_dimension(self):
        return self.A.shape[0]

    def apply(self, state, input_=None):
        out = self.A @ np.sin(self.V @ state)
        if self.B is not None:
            out = out + self.B[:, :len(input_)] @ input_
        return out * self.factor


class Reduced(ReducedBase):
    pass


class ReducedInput(ReducedBase, opinf.operators.InputMixin):
    @property
    def input_dimension(self):
        return self.B.shape[1]


OP_FAULTS = ["state_dimension: float", "state_dimension: none", "state_dimension: negative",
             "state_dimension: zero", "state_dimension: other", "state_dimension: array",
             "apply: matrix for vector", "apply: vector for matrix", "apply: rows", "apply: list",
             "copy: itself", "copy: type", "copy: entries", "copy: slightly", "copy: dimension"]
OP_MORE = {"jacobian": ["transposed", "chain rule", "no derivative", "vector", "a number"],
           "galerkin": ["no test basis", "no Gram matrix", "trial only", "type", "dimension",
                        "doubled", "slightly"],
           "file": ["entries", "slightly", "type"]}


@CHECK.sub(quick=1000, rule="a faulty implementation")
def operators(g):
    r, m = g.int(3, 6, "r"), g.int(1, 3, "m")
    has = tuple(h for h in sorted(OP_MORE) if not g.rarely("no" + h, 4))
    inputs = g.bool("inputs")
    faults = OP_FAULTS + [f"{h}: {x}" for h in has for x in OP_MORE[h]]
    if inputs:
        faults = faults + ["input_dimension: " + x for x in ("float", "none", "zero", "negative")]
        faults += ["galerkin: inputs"] if "galerkin" in has else []
        faults += ["file: inputs"] if "file" in has else []
    fault = None if g.rarely("sound", 4) else g.choice(faults, "fault")
    A = np.eye(r) * 3 + g.uniform(0.5, 1.0, (r, r), "A")
    B = 0.1 + g.uniform(0, 1, (r, m), "B") if inputs else None
    op = (SineInput if inputs else Sine)(A, B, fault, has)
    with elsewhere(g):
        kw = {"k": g.int(2, 12, "k"), "ntests": g.int(1, 5, "ntests")} if g.bool("kw") else {}
        judge(fault, "an operator", op.verify, **kw)
    g.tag(fault or "sound", *has)
    g.nontrivial(fault is not None)


@CHECK.sub(quick=250, rule="always")
def operator_tolerance(g):
    """Jacobians off by a given relative error, against the given tolerance."""
    r = g.int(1, 5, "r")
    A = np.eye(r) * 3 + g.uniform(0.5, 1.0, (r, r), "A")
    eps = 10.0 ** g.float(-4, -1, "eps")

    class Off(Sine):
        def apply(self, state, input_=None):
            return self.A @ state

        def jacobian(self, state, input_=None):
            return (1 + eps) * self.A

        def galerkin(self, Vr, Wr=None):
            raise NotImplementedError

        def save(self, savefile, overwrite=False):
            raise NotImplementedError

        def copy(self):
            return Off(self.A)
    f = g.float(1.5, 5, "f")
    with elsewhere(g):
        accept(f"an error of {eps:.1e} within the tolerance", Off(A).verify, fdifftol=f * eps)
        reject(f"an error of {eps:.1e} beyond the tolerance", Off(A).verify, fdifftol=eps / f)
        reject(f"an error of {eps:.1e}", Off(A).verify)
    g.nontrivial()


class Cosine(opinf.operators.OpInfOperator):
    """A cos(q): calibrated from data."""
    fault = None

    @property
    def state_dimension(self):
        return None if self.entries is None else self.entries.shape[0]

    @staticmethod
    def _str(statestr, inputstr=None):
        return f"Acos({statestr})"

    def set_entries(self, entries):
        opinf.operators.OpInfOperator.set_entries(self, entries)

    def apply(self, state, input_=None):
        return self.entries @ np.cos(state)

    def jacobian(self, state, input_=None):
        J = -self.entries * np.sin(state)
        return J + 0.7 if self.fault == "jacobian" else J

    def galerkin(self, Vr, Wr=None):
        raise NotImplementedError

    @staticmethod
    def datablock(states, inputs=None):
        return np.cos(np.atleast_2d(states))

    @staticmethod
    def operator_dimension(r, m=None):
        return r


class NotStatic(Cosine):
    def operator_dimension(self, r, m=None):
        return r


class NotStaticData(Cosine):
    def datablock(self, states, inputs=None):
        return np.cos(np.atleast_2d(states))


class FloatDimension(Cosine):
    @staticmethod
    def operator_dimension(r, m=None):
        return float(r)


class ZeroDimension(Cosine):
    @staticmethod
    def operator_dimension(r, m=None):
        return 0


class OtherDimension(Cosine):
    @staticmethod
    def operator_dimension(r, m=None):
        return r + (m or 1)


class FewColumns(Cosine):
    @staticmethod
    def datablock(states, inputs=None):
        return np.cos(states)[:, 1:]


class ListData(Cosine):
    @staticmethod
    def datablock(states, inputs=None):
        return np.cos(states).tolist()


class Tensor(Cosine):
    @staticmethod
    def datablock(states, inputs=None):
        return np.cos(states)[None]


OPINF_FAULTS = [NotStatic, NotStaticData, FloatDimension, ZeroDimension, OtherDimension, FewColumns,
                ListData, Tensor]


@CHECK.sub(quick=300, rule="always")
def calibrated_operators(g):
    """Data blocks are checked even before entries are there."""
    C = g.choice([Cosine, Cosine] + OPINF_FAULTS, "class")
    r = g.int(1, 5, "r")
    op = C(3 * np.eye(r) + g.uniform(0.5, 1, (r, r), "A")) if g.bool("entries") else C()
    fault = None if C is Cosine else C.__name__
    if C is Cosine and op.entries is not None and g.bool("bad-jacobian"):
        op.fault = fault = "jacobian"
    kw = {}
    if g.bool("kw"):
        kw = dict(r=g.int(2, 8, "kr"), m=g.int(1, 4, "km"), k=g.int(2, 12, "k"))
    with elsewhere(g):
        judge(fault, "a calibrated operator", op.verify, **kw)
    g.tag(fault or "sound")
    g.nontrivial()


# User-defined parametric operators ===========================================
class ParametricBase(opinf.operators.ParametricOperatorTemplate):
    _OperatorClass = opinf.operators.LinearOperator

    def __init__(self, A, p, fault=None):
        self.A, self.p, self.fault = A, p, fault

    @property
    def state_dimension(self):
        r = self.A.shape[0]
        return {"state_dimension: float": float(r), "state_dimension: none": None,
                "state_dimension: zero": 0}.get(self.fault, r)

    @property
    def parameter_dimension(self):
        return self.p

    def evaluate(self, parameter):
        check(np.shape(parameter) == (self.p,), "shape of the parameter")
        f = self.fault
        A = self.A * (1 + np.sum(parameter))
        X = opinf.operators
        if f == "evaluate: an array":
            return A
        if f == "evaluate: other operator":
            return X.ConstantOperator(A[:, 0])
        if f == "evaluate: dimension":
            return self._OperatorClass(np.eye(len(A) + 1))
        return self._OperatorClass(A)


class ParametricLinear(ParametricBase):
    pass


class ParametricInput(ParametricBase, opinf.operators.InputMixin):
    _OperatorClass = opinf.operators.InputOperator

    @property
    def input_dimension(self):
        m = self.A.shape[1]
        return {"input_dimension: none": None, "input_dimension: other": m + 1}.get(self.fault, m)


class Undeclared(ParametricBase):
    """Gives operators with inputs but does not say so."""
    _OperatorClass = opinf.operators.InputOperator


class Overdeclared(ParametricBase, opinf.operators.InputMixin):
    input_dimension = 2


class WrongClass(ParametricBase):
    _OperatorClass = opinf.basis.LinearBasis


@CHECK.sub(quick=400, rule="a faulty implementation")
def parametric_operators(g):
    r, p = g.int(1, 5, "r"), g.int(1, 4, "p")
    C = g.choice([ParametricLinear, ParametricLinear, ParametricInput, ParametricInput, Undeclared,
                  Overdeclared, WrongClass], "class")
    fault = C.__name__ if C in (Undeclared, Overdeclared, WrongClass) else None
    A = g.normal((r, r if C is not ParametricInput else g.int(1, 3, "m")), "A")
    faults = ["state_dimension: float", "state_dimension: none", "state_dimension: zero",
              "evaluate: an array", "evaluate: other operator", "evaluate: dimension"]
    if C is ParametricInput:
        faults += ["input_dimension: none", "input_dimension: other"]
    own = None
    if fault is None and not g.rarely("sound", 3):
        own = fault = g.choice(faults, "fault")
    op = C(A, p, own)
    with elsewhere(g):
        judge(fault, "a parametric operator", op.verify,
              *([g.normal(p, "param")] if g.bool("param") else []))
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                ParametricLinear(np.eye(r), p).verify(np.ones(p + g.int(1, 2, "more")))
        except ValueError:
            pass
        else:
            raise Violation("verify() accepts a misaligned parameter")
    g.tag(fault or "sound")
    g.nontrivial(fault is not None)
