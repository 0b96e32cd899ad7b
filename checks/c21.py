"""C21: misuse is rejected, and leaves objects usable."""
import copy

import numpy as np
import opinf
import scipy.interpolate as si

from pbt.runner import Check
from pbt.oracle import Violation, check, raises, unchanged
from checks import c16, c19, gen_lstsq, gen_ops, gen_par
from checks.c16 import agree, compare, quietly, view

CHECK = Check("C21", factor=1.5, hangs="abandoned", assumptions=[
    "the kind of error is judged where the documentation or the shared helpers name it "
    "(AttributeError: not trained or not set; ValueError: dimensions and options; TypeError: types); "
    "elsewhere any exception counts as a rejection",
    "a rejected (re)training call may leave the object untrained: its methods then raise, and the "
    "next valid training call must give what it would have given without the rejected one",
    "in-place calls may have overwritten their argument before the mismatch is noticed",
])


SCHEMES = ([f"{d}{i}" for d in ("bwd", "fwd") for i in range(1, 7)]
           + [f"{d}{i}" for d in ("ctr", "ord") for i in (2, 4, 6)])


class Misuses(list):
    """Calls that must be rejected."""

    def add(self, label, fn, excs=Exception, args=(), train=False, frozen=True):
        """The call is fn(obj, *args); unless frozen is False the arguments stay as they are."""
        self.append((label, fn, excs, train, tuple(args), frozen))


def raised(val):
    return isinstance(val, tuple) and len(val) == 1 and isinstance(val[0], str) \
        and val[0].startswith("raised ")


def unchanged_or_untrained(item, base, obj, msg):
    """After a rejected training call: errors are fine, other numbers are not."""
    now = item.probe(obj)
    for name, val in base.items():
        if name in item.volatile or raised(now[name]) or now[name] is None:
            continue
        if isinstance(now[name], tuple) and any(x is None for x in now[name]):
            continue
        compare(val, now[name], f"{msg}: {name}")


def history(g, item, steps=5):
    """Valid and invalid calls; a twin only sees the valid ones."""
    o = item.obj
    twin = quietly(lambda: item.copies_of(o))
    base = item.probe(twin)
    agree(item, base, o, "copy")
    dirty = None
    n = g.int(1, steps, "steps")
    rejected = 0
    for i in range(n):
        if dirty is None and g.rarely(f"valid{i}", 3):
            acts = item.actions()
            if acts:
                name, act = g.choice(acts, f"act{i}")
                want = view(lambda: act(twin))
                got = view(lambda: act(o))
                compare(strip(want), strip(got), f"{name} after {rejected} rejected calls")
                base = item.probe(twin)
                agree(item, base, o, f"after {name}")
                item.trained = item.is_trained(twin)
                continue
        bads = Misuses()
        item.misuses(g, twin, bads)
        if dirty is not None:
            bads = [b for b in bads if b[3]]
        if not bads:
            continue
        picked = [g.choice(bads, f"bad{i}")]
        if not picked[0][3]:        # several calls that must not change anything
            light = [b for b in bads if not b[3]]
            picked += [light[j] for j in g.perm(len(light), f"more{i}")[:g.int(0, 4, f"n{i}")]]
        for label, fn, excs, train, args, frozen in picked:
            g.tag(label)
            with unchanged(*(args if frozen else ()), msg=f"{label}: argument modified"):
                quietly(lambda: raises(excs, lambda: fn(o, *args), label))
            rejected += 1
        label = " / ".join(b[0] for b in picked)
        if train:
            dirty = label
            unchanged_or_untrained(item, base, o, f"after rejected {label}")
        else:
            agree(item, base, o, f"after rejected {label}")
    if rejected and (dirty is not None or g.bool("train-at-end")):
        acts = item.trainings()
        if acts:
            name, act = g.choice(acts, "last")
            want = view(lambda: act(twin))
            got = view(lambda: act(o))
            compare(strip(want), strip(got), f"{name} after rejected {dirty}")
            agree(item, item.probe(twin), o, f"{name} after rejected {dirty}")
    g.nontrivial(rejected > 0)


def strip(x):
    """Return values of actions: arrays, or whether an object came back."""
    if x is None or isinstance(x, (np.ndarray, np.generic, float, int, str)):
        return x
    if isinstance(x, tuple):
        return tuple(strip(y) for y in x)
    return type(x).__name__


def off_by(g, n, label="off"):
    """A wrong dimension."""
    return g.choice([m for m in (n + 1, n - 1, 2 * n, n + 3, 1) if m > 0 and m != n], label)


def stages(tf):
    """The elementary transformers of a transformer."""
    if hasattr(tf, "transformers"):
        return [s for t in tf.transformers for s in stages(t)]
    return [tf]


def ready(tf):
    if isinstance(tf, opinf.pre.TransformerMulti):
        return None not in tf.variable_sizes and all(ready(t) for t in tf.transformers)
    if isinstance(tf, opinf.pre.TransformerPipeline):
        return all(ready(t) for t in tf.transformers)
    if isinstance(tf, opinf.pre.ScaleTransformer):
        return tf.state_dimension is not None
    if isinstance(tf, opinf.pre.ShiftScaleTransformer):
        if tf.centering and tf.mean_ is None:
            return False
        return tf.scaling is None or not (tf.scale_ is None or tf.shift_ is None)
    return True


# Transformers ================================================================
class Transformer(c16.TransformerItem):
    copies_of = staticmethod(copy.deepcopy)
    volatile = ("str", "state_dimension", "variable_sizes", "mean_", "scale_", "shift_",
                "wrong rows")

    def is_trained(self, tf):
        return ready(tf)

    def actions(self):
        acts = super().actions()
        if self.is_trained(self.obj):
            acts += [("transform", lambda o: o.transform(self.Y.copy())),
                     ("inverse_transform", lambda o: o.inverse_transform(self.Y.copy()))]
        return acts

    def trainings(self):
        return super().actions()

    def misuses(self, g, tf, B):
        n, Y, known = self.n, self.Y, tf.state_dimension
        ok = ready(tf)
        multi = self.kind == "multi"
        DimError = opinf.errors.DimensionalityError if multi else ValueError
        methods = ("transform", "inverse_transform", "transform_ddts")
        wide = g.bool("2D")
        inplace = g.bool("inplace")
        if not ok:
            # (in a pipeline the error comes from whichever stage notices first)
            for m in methods:
                if m == "transform_ddts" and not multi and self.skips_ddts(tf):
                    continue
                A = g.normal((n, 2) if wide else n, "A")
                B.add(f"untrained {m}", lambda o, A, m=m: getattr(o, m)(A, inplace=inplace),
                      AttributeError, args=(A,), frozen=not inplace)
            if self.kind == "leaf":
                B.add("untrained verify", lambda o: o.verify(), AttributeError)
        if known is not None:
            k = off_by(g, n)
            for m in methods:
                A = g.normal((k, 2) if wide else k, "A")
                B.add(f"{m} of wrong rows", lambda o, A, m=m: getattr(o, m)(A, inplace=inplace),
                      DimError if ok else (ValueError, AttributeError),
                      args=(A,), frozen=not inplace)
        if ok and self.has_locs and known is not None:
            locs = self.locs
            nx = self.sizes[0] if multi else n
            L = len(np.arange(nx)[locs])
            nv = len(self.sizes) if multi else 1
            A = g.normal((nv * off_by(g, L, "offL"),) + ((2,) if wide else ()), "A")
            B.add("inverse_transform of rows misaligned with locs",
                  lambda o, A: o.inverse_transform(A, inplace=inplace, locs=locs), ValueError,
                  args=(A,), frozen=not inplace)
        if multi:
            self.multi_misuses(g, tf, B, known, ok, wide)
            if known is None:
                return
        parts = stages(tf)
        learns = any(isinstance(s, opinf.pre.ShiftScaleTransformer) for s in parts)
        fixed = multi or any(isinstance(s, opinf.pre.ShiftTransformer)
                             or getattr(s, "byrow", False) and not learns_(s) for s in parts)
        fit = g.choice(["fit", "fit_transform"], "fit")
        if learns:
            A = g.normal(n, "A") if g.bool("1D") else g.normal((n, 3, 2), "A")
            if A.ndim == 1 or self.kind == "leaf":
                B.add(f"{fit} of {A.ndim}-dimensional data", lambda o, A: getattr(o, fit)(A),
                      ValueError, train=True, args=(A,))
        if fixed:
            A = g.normal((off_by(g, n), 5), "A")
            B.add(f"{fit} of wrong rows", lambda o, A: getattr(o, fit)(A), DimError, train=True,
                  args=(A,))
        if self.kind == "leaf":
            self.leaf_misuses(g, tf, B)
            if learns and (tf.centering or tf.scaling):
                A = g.rng("ints").integers(-9, 9, (n, 4))
                B.add("in-place fit of integers", lambda o, A: o.fit_transform(A, inplace=True),
                      TypeError, train=True, args=(A,))
                if tf.scaling in ("minmax", "minmaxsym", "maxabs", "maxabssym"):
                    A = np.zeros((n, 0))
                    B.add("fit of no snapshots", lambda o, A: o.fit(A), ValueError, train=True,
                          args=(A,), frozen=False)

    @staticmethod
    def skips_ddts(tf):
        return False

    def leaf_misuses(self, g, tf, B):
        n = self.n
        wrong = off_by(g, n)
        if isinstance(tf, opinf.pre.ShiftScaleTransformer):
            vec = g.choice([g.normal(wrong, "vec"), g.normal((n, 2), "vec2")]
                           + ([np.ones(1), 1.5, np.ones((n, 1))] if n > 1 else []), "vecform")
            if not tf.centering:
                B.add("mean_ without centering", lambda o: setattr(o, "mean_", np.ones(n)),
                      AttributeError)
            elif tf.state_dimension is not None:
                B.add("misaligned mean_", lambda o, vec: setattr(o, "mean_", vec), ValueError,
                      args=(vec,))
            else:
                B.add("2D mean_", lambda o: setattr(o, "mean_", np.ones((n, 1))), ValueError)
            for a in ("scale_", "shift_"):
                if tf.scaling is None:
                    B.add(f"{a} without scaling", lambda o, vec, a=a: setattr(o, a, vec),
                          AttributeError, args=(vec,))
                elif tf.byrow and tf.state_dimension is not None:
                    B.add(f"misaligned {a}", lambda o, vec, a=a: setattr(o, a, vec), ValueError,
                          args=(vec,))
                elif tf.byrow:
                    B.add(f"2D {a}", lambda o, a=a: setattr(o, a, np.ones((n, 1))), ValueError)
        if isinstance(tf, opinf.pre.ShiftTransformer) or (
                isinstance(tf, opinf.pre.ScaleTransformer) and tf.byrow):
            bad = g.choice([wrong, None, "a"], "bad dimension")
            B.add("other state_dimension", lambda o: setattr(o, "state_dimension", bad),
                  AttributeError)

    def multi_misuses(self, g, tf, B, known, ok, wide):
        nv = len(self.sizes)
        if known is None:
            if nv > 1:
                A = g.normal((nv * g.int(1, 5, "nx") + g.int(1, nv - 1, "rest"), 5), "A")
                fit = g.choice(["fit", "fit_transform"], "fit")
                B.add(f"{fit} of rows that cannot be divided", lambda o, A: getattr(o, fit)(A),
                      opinf.errors.DimensionalityError, train=True, args=(A,))
            fixed = [s.state_dimension for s in tf.transformers
                     if isinstance(s, opinf.pre.ShiftTransformer)
                     or isinstance(s, opinf.pre.ScaleTransformer) and s.byrow]
            if fixed:
                A = g.normal((nv * off_by(g, fixed[0]), 5), "A")
                B.add("fit of rows that do not match the sized variables",
                      lambda o, A: o.fit(A), ValueError, train=True, args=(A,))
            A = g.normal(self.n, "A")
            B.add("untrained split", lambda o, A: o.split(A), AttributeError, args=(A,))
            B.add("untrained get_var", lambda o, A: o.get_var(0, A), AttributeError, args=(A,))
            return
        A = g.normal(off_by(g, self.n), "A")
        B.add("split of wrong rows", lambda o, A: o.split(A), opinf.errors.DimensionalityError,
              args=(A,))
        B.add("get_var of wrong rows", lambda o, A: o.get_var(0, A),
              opinf.errors.DimensionalityError, args=(A,))
        A = g.normal(self.n, "A")
        i = g.choice([nv, -nv - 1, nv + 3], "nosuch")
        B.add("get_var of no such variable", lambda o, A: o.get_var(i, A), IndexError, args=(A,))
        B.add("item of no such variable", lambda o: o[i], IndexError)
        if ok and not self.has_locs:
            locs = np.array([0])
            A2 = g.normal(nv, "A")
            B.add("locs with variables of different sizes",
                  lambda o, A2: o.inverse_transform(A2, locs=locs), ValueError, args=(A2,))


def learns_(s):
    return isinstance(s, opinf.pre.ShiftScaleTransformer)


@CHECK.sub(quick=3000, rule="at least one call rejected")
def transformers(g):
    """Histories of transformers."""
    history(g, quietly(lambda: Transformer(g)))


# Bases =======================================================================
class Basis(c16.BasisItem):
    copies_of = staticmethod(copy.deepcopy)
    volatile = ("str", "full_state_dimension", "reduced_state_dimension", "shape", "name",
                "full_variable_sizes", "reduced_variable_sizes", "wrong rows", "max_vectors")

    def is_trained(self, o):
        return all(b.entries is not None for b in (o.bases if self.kind == "multi" else [o]))

    def trainings(self):
        return [a for a in super().actions() if a[0] == "fit"]

    def actions(self):
        acts = super().actions()
        if self.is_trained(self.obj):
            acts = acts + [("compress", lambda o: o.compress(self.Y)),
                           ("project", lambda o: o.project(self.Y))]
        return acts

    def misuses(self, g, b, B):
        n, multi = self.n, self.kind == "multi"
        ok = self.is_trained(b)
        wide = g.bool("2D")
        shape = (lambda k: (k, 2) if wide else (k,))
        DimError = opinf.errors.DimensionalityError if multi else ValueError
        if not ok:
            A = g.normal(shape(n), "A")
            for m in ("compress", "project", "projection_error"):
                B.add(f"untrained {m}", lambda o, A, m=m: getattr(o, m)(A), AttributeError, args=(A,))
            r = b.reduced_state_dimension or 1
            A_ = g.normal(shape(r), "A_")
            B.add("untrained decompress", lambda o, A_: o.decompress(A_), AttributeError, args=(A_,))
            if not multi:
                B.add("untrained verify", lambda o: o.verify(), AttributeError)
                B.add("untrained indexing", lambda o: o[:], AttributeError)
        else:
            r = b.reduced_state_dimension
            A = g.normal(shape(off_by(g, n)), "A")
            A_ = g.normal(shape(off_by(g, r, "offr")), "A_")
            for m in ("compress", "project", "projection_error"):
                B.add(f"{m} of wrong rows", lambda o, A, m=m: getattr(o, m)(A), DimError, args=(A,))
            B.add("decompress of wrong rows", lambda o, A_: o.decompress(A_), DimError, args=(A_,))
            B.add("decompress at locs of wrong rows",
                  lambda o, A_: o.decompress(A_, locs=[0]), ValueError, args=(A_,))
        if multi:
            sizes = b.full_variable_sizes
            if ok and len(set(sizes)) > 1:
                C = g.normal(shape(b.reduced_state_dimension), "C")
                B.add("locs with variables of different sizes",
                      lambda o, C: o.decompress(C, locs=[0]), ValueError, args=(C,))
            nn, rr = b.full_state_dimension, b.reduced_state_dimension
            if nn is not None:
                A2 = g.normal(shape(n + (rr or 0) + 1), "A2")
                B.add("split of wrong rows", lambda o, A2: o.split(A2),
                      opinf.errors.DimensionalityError, args=(A2,))
                B.add("get_var of wrong rows", lambda o, A2: o.get_var(0, A2),
                      opinf.errors.DimensionalityError, args=(A2,))
                A4, nv = g.normal(shape(n), "A4"), len(sizes)
                i = g.choice([nv, -nv - 1, nv + 3], "nosuch")
                B.add("get_var of no such variable", lambda o, A4: o.get_var(i, A4),
                      IndexError, args=(A4,))
                B.add("item of no such variable", lambda o: o[i], IndexError)
                if self.trainings():
                    A3 = g.normal((off_by(g, n, "off3"), 9), "A3")
                    B.add("fit of wrong rows", lambda o, A3: o.fit(A3),
                          opinf.errors.DimensionalityError, train=True, args=(A3,))
            return
        if self.kind == "pod":
            B.add("set_dimension() without criterion", lambda o: o.set_dimension(), ValueError)
            B.add("unknown svdsolver", lambda o: setattr(o, "svdsolver", "smurf"), AttributeError)
            B.add("svdsolver_options of wrong type",
                  lambda o: setattr(o, "svdsolver_options", "smurf"), TypeError)
            B.add("reduced_state_dimension of wrong type",
                  lambda o: setattr(o, "reduced_state_dimension", "many"), ValueError)
            if not ok:
                B.add("untrained plot", lambda o: o.plot_svdval_decay(), AttributeError)
            if b.weights is not None:
                A4 = g.normal((off_by(g, n, "off4"), 9), "A4")
                B.add("fit misaligned with weights", lambda o, A4: o.fit(A4), ValueError, train=True,
                      args=(A4,))
            A5 = g.normal((n, 9), "A5")
            A5[g.int(0, n - 1, "nanrow"), g.int(0, 8, "nancol")] = g.choice([np.nan, np.inf], "x")
            B.add("fit to non-finite data", lambda o, A5: o.fit(A5), ValueError, train=True, args=(A5,))
            A6 = g.normal(n, "A6")
            B.add("fit to a vector", lambda o, A6: o.fit(A6), (ValueError, IndexError), train=True, args=(A6,))


@CHECK.sub(quick=700, rule="at least one call rejected")
def bases(g):
    """Histories of bases."""
    history(g, quietly(lambda: Basis(g)))


@CHECK.sub(quick=250, rule="an unsized basis")
def multi_basis_sizes(g):
    """A BasisMulti without sizes, fitted to rows that cannot be divided."""
    nv = g.int(2, 4, "nv")
    nx = g.int(2, 4, "nx")

    def make():
        return opinf.basis.BasisMulti([opinf.basis.PODBasis(num_vectors=1) for _ in range(nv)])
    o = quietly(make)
    A = g.normal((nv * nx + g.int(1, nv - 1, "rest"), 5), "A")
    with unchanged(A):
        quietly(lambda: raises(opinf.errors.DimensionalityError, lambda: o.fit(A), "fit"))
    check(o.full_variable_sizes == (None,) * nv, "sizes set by a rejected fit()")
    raises(AttributeError, lambda: o.compress(A), "compress after the rejected fit()")
    X = g.normal((nv * nx, 5), "X")
    bad = X.copy()
    bad[0, 0] = np.nan
    if g.bool("nan"):
        quietly(lambda: raises(ValueError, lambda: o.fit(bad), "fit to NaN"))
        Xs = g.normal((nv * (nx + 1), 5), "X2")
    else:
        Xs = X
    twin = quietly(lambda: make().fit(Xs))
    quietly(lambda: o.fit(Xs))
    compare(quietly(lambda: twin.project(Xs)), quietly(lambda: o.project(Xs)), "fit after rejected")
    check(o.full_variable_sizes == twin.full_variable_sizes, "sizes")
    raises(ValueError, lambda: opinf.basis.BasisMulti(list(o.bases), [nx] * (nv + 1)),
           "wrong number of sizes")
    check(o.full_variable_sizes == twin.full_variable_sizes, "sizes after the rejected constructor")
    g.nontrivial()


# Time derivatives ============================================================
def estimator(g, t):
    """(name, function making an estimator)."""
    kind = g.choice(["uniform", "uniform", "nonuniform", "interp"], "kind")
    if kind == "uniform":
        scheme = g.choice(SCHEMES, "scheme")
        return kind, lambda: opinf.ddt.UniformFiniteDifferencer(t, scheme)
    if kind == "nonuniform":
        return kind, lambda: opinf.ddt.NonuniformFiniteDifferencer(t)
    IC = g.choice(["cubic", "akima", "pchip"], "class")
    t2 = np.sort(g.uniform(t[0], t[-1], 5, "t2")) if g.bool("new") else None
    return kind, lambda: opinf.ddt.InterpDerivativeEstimator(t, IC, new_time_domain=t2)


@CHECK.sub(quick=500, rule="a call was rejected")
def derivatives(g):
    """Estimators reject misaligned data and work as before."""
    DimError = opinf.errors.DimensionalityError
    k, r, m = g.int(8, 14, "k"), g.int(1, 4, "r"), g.int(1, 3, "m")
    t = np.linspace(g.float(-1, 1, "t0"), 2, k) + g.int(0, 3, "shift")
    kind, make = estimator(g, t)
    est = quietly(make)
    g.tag(kind)
    Q, U = g.normal((r, k), "Q"), g.normal((m, k), "U")
    want = (view(lambda: quietly(make).estimate(Q, U)), view(lambda: quietly(make).mask(Q)))
    k2 = off_by(g, k, "k2")
    B = Misuses()
    B.add("1D states", lambda o, Q: o.estimate(Q), DimError, args=(Q[0],))
    B.add("3D states", lambda o, Q: o.estimate(Q), DimError, args=(Q.reshape((r, k, 1)),))
    B.add("misaligned inputs", lambda o, Q, U: o.estimate(Q, U), DimError,
          args=(Q, g.normal((m, k2), "U2")))
    B.add("misaligned 1D inputs", lambda o, Q, U: o.estimate(Q, U), DimError,
          args=(Q, g.normal(k2, "U3")))
    if kind != "uniform":
        B.add("states misaligned with time", lambda o, Q: o.estimate(Q), DimError,
              args=(g.normal((r, k2), "Q2"),))
    else:
        tb = t.copy()
        tb[g.int(1, k - 2, "moved")] += 0.2 * (t[1] - t[0])
        B.add("nonuniform time", lambda o, t: type(o)(t), ValueError, args=(tb,))
        B.add("unknown scheme", lambda o, t: type(o)(t, g.choice(
            ["ctr3", "best", "fwd7", "", None], "scheme")), ValueError, args=(t,))
    if kind == "interp":
        B.add("unknown interpolator", lambda o, t: type(o)(t, "smurf"), ValueError, args=(t,))
        B.add("wrong new_time_domain", lambda o, t: type(o)(t, "cubic", new_time_domain=g.choice(
            [3.0, [0.1, 0.2], np.ones((2, 2))], "t2")), TypeError, args=(t,))
    B.add("2D time domain", lambda o, t: type(o)(t), ValueError, args=(t.reshape((1, -1)),))
    B.add("time domain not an array", lambda o, t: type(o)(list(t)), ValueError, args=(t,))
    # functions
    D = opinf.ddt
    name = g.choice(["ddt_uniform", "ddt_nonuniform", "ddt"], "function")
    if name == "ddt_uniform":
        B.add("ddt_uniform of 1D states", lambda o, q: D.ddt_uniform(q, 0.1), DimError,
              args=(Q[0],))
        B.add("ddt_uniform with many steps", lambda o, Q: D.ddt_uniform(Q, np.full(k, 0.1)),
              TypeError, args=(Q,))
        B.add("ddt_uniform of unknown order",
              lambda o, Q: D.ddt_uniform(Q, 0.1, order=g.choice([0, 1, 3, 5, 8, "2"], "order")),
              NotImplementedError, args=(Q,))
    elif name == "ddt_nonuniform":
        B.add("ddt_nonuniform of 1D states", lambda o, q, t: D.ddt_nonuniform(q, t), DimError,
              args=(Q[0], t))
        B.add("ddt_nonuniform with 2D time", lambda o, Q, t: D.ddt_nonuniform(Q, t), DimError,
              args=(Q, t.reshape((1, -1))))
        B.add("ddt_nonuniform misaligned", lambda o, Q, t: D.ddt_nonuniform(Q, t), DimError,
              args=(Q, np.linspace(0, 1, k2)))
    else:
        a, kw = g.choice([((), {}), (("x",), {}), ((1,), {}), ((), {"order": 2}),
                          ((), {"other": 2}), ((0.1, 2, 3), {}), ((t, 2), {}),
                          ((0.1, 2), {"dt": 1.0})], "ddtargs")
        B.add("ddt with wrong arguments", lambda o, Q: D.ddt(Q, *a, **kw), TypeError, args=(Q,))
    for i in range(g.int(1, 4, "steps")):
        label, fn, excs, _, args, _ = g.choice(B, f"bad{i}")
        g.tag(label)
        with unchanged(*args):
            quietly(lambda: raises(excs, lambda: fn(est, *args), label))
    compare(want[0], view(lambda: est.estimate(Q, U)), "estimate() after rejected calls")
    compare(want[1], view(lambda: est.mask(Q)), "mask() after rejected calls")
    g.nontrivial()


# Least-squares solvers =======================================================
class Solver(c16.SolverItem):
    volatile = ("str",)

    def copies_of(self, o):
        return o.copy()

    def is_trained(self, o):
        return o.data_matrix is not None

    def trainings(self):
        return [a for a in super().actions() if a[0] == "fit"]

    def actions(self):
        # (an action that the regularizer does not fit is a misuse)
        return [a for a in super().actions() if a[0] != "in-place"]

    def misuses(self, g, o, B):
        D, Z, O = self.pb.D, self.pb.Z, self.O
        (k, d), r = D.shape, Z.shape[0]
        trained = self.is_trained(o)
        reg = self.kind in gen_lstsq.REGULARIZED
        methods = ["solve", "cond"] + {"tsvd": ["tcond"], "tls": []}.get(self.kind, [])
        if reg:
            methods += ["posterior", "regcond"]
        if not trained:
            for m in methods:
                B.add(f"untrained {m}", lambda o, m=m: getattr(o, m)(), AttributeError)
            B.add("untrained residual", lambda o, O: o.residual(O), AttributeError, args=(O,))
            if reg:
                B.add("untrained regresidual", lambda o, O: o.regresidual(O), AttributeError,
                      args=(O,))
            if self.kind == "tls":
                for m in ("error", "augcond"):
                    B.add(f"untrained {m}", lambda o, m=m: getattr(o, m), AttributeError)
        elif reg and o.regularizer is None:
            for m in ("solve", "posterior", "regcond"):
                B.add(f"{m} without regularizer", lambda o, m=m: getattr(o, m)(), AttributeError)
            B.add("regresidual without regularizer", lambda o, O: o.regresidual(O),
                  AttributeError, args=(O,))
        if trained:
            shape = g.choice([s for s in ((r + 1, d), (r, d + 1), (d, r), (r, d, 1), (d + 1,),
                                          (r * d + 1,)) if s != (r, d)], "Oshape")
            A = g.normal(shape, "A")
            B.add("residual of wrong shape", lambda o, A: o.residual(A),
                  opinf.errors.DimensionalityError, args=(A,))
            if reg and o.regularizer is not None:
                B.add("regresidual of wrong shape", lambda o, A: o.regresidual(A),
                      opinf.errors.DimensionalityError, args=(A,))
        # training
        dim = opinf.errors.DimensionalityError
        k2 = off_by(g, k, "k2")
        B.add("misaligned fit", lambda o, D, Z: o.fit(D, Z), dim, train=True,
              args=(D, g.normal((r, k2), "Zbad")))
        B.add("fit to 1D data matrix", lambda o, D, Z: o.fit(D, Z), ValueError, train=True,
              args=(D[:, 0], Z))
        B.add("fit to 3D lhs", lambda o, D, Z: o.fit(D, Z), ValueError, train=True,
              args=(D, Z.reshape((1, r, k))))
        if self.kind in ("l2", "l2dec", "tsvd", "tls"):
            Dn = D.copy()
            Dn[g.int(0, k - 1, "i"), g.int(0, d - 1, "j")] = np.nan
            B.add("fit to NaN", lambda o, D, Z: o.fit(D, Z), ValueError, train=True, args=(Dn, Z))
        if self.kind == "tls":
            kk = g.int(1, d + r - 1, "kk")
            B.add("underdetermined fit", lambda o, D, Z: o.fit(D, Z), ValueError, train=True,
                  args=(g.normal((kk, d), "Dk"), g.normal((r, kk), "Zk")))
        if reg and o.regularizer is not None:
            dd = d + (off_by(g, d, "dd") - d if self.kind in ("tik", "tikdec") else 0)
            rr = off_by(g, r, "rr") if self.kind == "l2dec" or (
                self.kind == "tikdec" and g.bool("rows")) else r
            if (dd, rr) != (d, r):
                B.add("fit to data that do not match the regularizer",
                      lambda o, D, Z: o.fit(D, Z), ValueError, train=True,
                      args=(g.normal((k, dd), "Dd"), g.normal((rr, k), "Zd")))
        # settings
        neg = -np.abs(g.normal(5, "neg")) - 0.1
        set_reg = (lambda o, x: setattr(o, "regularizer", x))
        if self.kind == "l2":
            B.add("negative regularizer", lambda o: set_reg(o, float(neg[0])), ValueError)
            B.add("regularizer not a scalar", set_reg, TypeError,
                  args=(np.abs(neg[:g.int(1, 3, "len")]),))
            B.add("constructor with negative regularizer", lambda o: type(o)(-1), ValueError)
        elif self.kind == "l2dec":
            vals = np.abs(g.normal(r, "vals")) + 0.1
            bad = vals.copy()
            bad[g.int(0, r - 1, "which")] = -1e-3
            B.add("negative regularizer", set_reg, ValueError, args=(bad,))
            B.add("2D regularizer", set_reg, ValueError, args=(vals.reshape((1, -1)),))
            if trained:
                B.add("misaligned regularizer", set_reg, dim,
                      args=(np.ones(off_by(g, r, "regr")),))
        elif self.kind in ("tik", "tikdec"):
            G = np.diag(np.abs(g.normal(d, "G")) + 0.1)
            bad = np.diag(G).copy()
            bad[g.int(0, d - 1, "which")] = -1e-3
            dec = self.kind == "tikdec"
            wrong = np.eye(off_by(g, d, "regd"))
            wrong = g.choice([wrong, np.diag(wrong), g.normal((d, d + 1), "rect")], "wrongform")
            if dec:
                j = g.int(0, r - 1, "gamma")
                B.add("negative regularizer",
                      lambda o, x: set_reg(o, [x if i == j else G for i in range(r)]),
                      ValueError, args=(bad,))
                if trained:
                    B.add("misaligned regularizer",
                          lambda o, x: set_reg(o, [x if i == j else G for i in range(r)]),
                          ValueError, args=(wrong,))
                    B.add("wrong number of regularizers",
                          lambda o, G: set_reg(o, [G] * off_by(g, r, "count")), ValueError,
                          args=(G,))
            else:
                B.add("negative regularizer", set_reg, ValueError, args=(bad,))
                if trained:
                    B.add("misaligned regularizer", set_reg, dim, args=(wrong,))
            B.add("unknown method", lambda o: setattr(
                o, "method", g.choice(["smurf", None, "LSTSQ", 1], "method")), ValueError)
        elif self.kind == "tsvd":
            B.add("num_svdmodes not an integer", lambda o: setattr(
                o, "num_svdmodes", g.choice([1.5, "2", 2.0], "modes")), TypeError)
            if trained:
                B.add("too many modes", lambda o: setattr(
                    o, "num_svdmodes", o.max_modes + g.int(1, 3, "extra")), ValueError)


@CHECK.sub(quick=1600, rule="at least one call rejected")
def solvers(g):
    """Histories of least-squares solvers."""
    history(g, quietly(lambda: Solver(g)))


# Operators ===================================================================
def bad_entries(g, kind, r, m, p=None):
    """(label, entries that must be rejected)."""
    good = np.array(gen_ops.entries_of(g, kind, r, m, label="Ebad", fmt="dense" if kind == "A"
                                       else None if kind not in "cP" else "1d", p=p)[0], dtype=float) \
        if kind not in "cAP" else None
    if good is None:
        d = 1 if kind == "c" else r if kind == "A" else \
            opinf.operators.PolynomialOperator(p).operator_dimension(r)
        good = g.normal((r, d), "Ebad") if not (kind == "c" or d == 1 and p == 0) else \
            g.normal(r, "Ebad")
    spot = good.copy()
    spot.flat[g.int(0, good.size - 1, "spot")] = g.choice([np.nan, np.inf, -np.inf], "x")
    out = [("non-finite entries", spot, ValueError),
           ("entries of a list", good.tolist() if good.size > 1 else [["a"]], TypeError),
           ("entries of a string", "entries", TypeError)]
    rr = r if r > 1 else 2
    wrong = {"c": [(rr, 2), (rr, rr), (r, 1, 2), (2, 2)],
             "A": [(r, r + 1), (rr,), (r, r, 1), (r + 1, r)],
             "H": [(rr, rr * (rr + 1) // 2 + 2), (rr,), (rr, rr, rr + 1), (rr, 1)],
             "G": [(rr, rr * (rr + 1) * (rr + 2) // 6 + 1), (rr,), (rr, rr, rr, rr + 1), (rr, 1)],
             "Q": [(rr, rr * (rr + 1) * (rr + 2) * (rr + 3) // 24 + 1), (rr,),
                   (rr, rr, rr, rr, rr + 1), (rr, 1)],
             "B": [(r, m, 1), (1, r, m)],
             "N": [(rr, rr * m + 1), (rr, rr * m - 1), (rr,), (rr, m, rr)]}
    if kind == "P":
        d = opinf.operators.PolynomialOperator(p).operator_dimension(rr)
        wrong["P"] = [(rr, d + 1), (rr, d, 1)] + ([(rr,), (rr, d - 1)] if p > 0 else [(rr, 2)])
    shape = g.choice(wrong[kind], "shape")
    out.append((f"entries of wrong shape for {kind}", np.ones(shape), ValueError))
    return out


class Operator(c16.OperatorItem):
    volatile = ()

    def copies_of(self, o):
        return o.copy()

    def is_trained(self, o):
        return o.entries is not None

    def trainings(self):
        return []

    def misuses(self, g, o, B):
        kind, r, m = self.kind, self.r, self.m
        dim = opinf.errors.DimensionalityError
        q, u = self.q, self.u
        trained = self.is_trained(o)
        p = o.polynomial_order if kind == "P" else None
        takes_input = kind in "BN"
        if not trained:
            B.add("untrained apply", lambda o, q, u: o.apply(q, u), AttributeError, args=(q, u))
            B.add("untrained jacobian", lambda o, q, u: o.jacobian(q, u), AttributeError, args=(q, u))
            if kind != "P":
                B.add("untrained galerkin", lambda o, V: o.galerkin(V), AttributeError,
                      args=(np.eye(r),))
        else:
            k = g.int(1, 4, "k")
            wide = g.bool("wide")
            if kind in "AHGQNP" and (r > 1 or kind == "P" and p > 0):
                n = off_by(g, r, "n")
                # (one row broadcasts nowhere, but r = 1 states are batches)
                shape = (n, k) if wide else (n,)
                U = u if not wide else np.outer(u, np.ones(k))
                B.add(f"apply to misaligned state ({kind})", lambda o, Q, U: o.apply(Q, U),
                      ValueError, args=(g.normal(shape, "Qbad"), U))
                if kind in "HGQ" or kind == "P" and p > 1:
                    B.add(f"jacobian at misaligned state ({kind})",
                          lambda o, x, u: o.jacobian(x, u), ValueError,
                          args=(g.normal(n, "qbad"), u))
            if takes_input and m > 1:
                mm = off_by(g, m, "mm")
                shape = (mm, k) if wide else (mm,)
                Q = q if not wide else np.outer(q, np.ones(k))
                if r > 1 or kind == "B":
                    B.add(f"apply to misaligned input ({kind})", lambda o, Q, U: o.apply(Q, U),
                          ValueError, args=(Q, g.normal(shape, "Ubad")))
            if kind == "N":
                mm = off_by(g, m, "mj")
                B.add("jacobian at misaligned input", lambda o, q, u: o.jacobian(q, u), ValueError,
                      args=(q, g.normal(mm, "ubad")))
            if takes_input:
                B.add("apply without input", lambda o, q: o.apply(q, None), args=(q,))
            if kind != "P":
                n = off_by(g, r, "nV")
                V = g.normal((n, g.int(1, n, "rV")), "V")
                B.add("galerkin with misaligned basis", lambda o, V: o.galerkin(V), dim, args=(V,))
                if r > 1:
                    a = g.int(1, r, "ra")
                    b = off_by(g, a, "rb")
                    B.add("galerkin with misaligned bases", lambda o, V, W: o.galerkin(V, W), dim,
                          args=(g.normal((r, a), "V2"), g.normal((r, b), "W2")))
        other = g.choice([k for k in "cAHGQBN" if k != kind], "other")
        x = gen_ops.CLASSES[other](gen_ops.entries_of(g, other, 2, 1, label="Eo")[0])
        B.add("sum with another class", lambda o: o + x, TypeError)
        label, E, excs = g.choice(bad_entries(g, kind, r, m, p), "badentries")
        args = (E,) if isinstance(E, np.ndarray) else ()
        B.add(label, lambda o, *a: setattr(o, "entries", E) if len(label) % 2 else o.set_entries(E),
              excs, args=args)


@CHECK.sub(quick=1600, rule="at least one call rejected")
def operators(g):
    """Histories of nonparametric operators."""
    history(g, quietly(lambda: Operator(g)))


# Parametric operators ========================================================
class Parametric(c16.ParametricItem):
    volatile = ("parameter_dimension", "training_parameters", "str")

    def copies_of(self, o):
        return o.copy()

    def is_trained(self, o):
        return o.entries is not None

    def trainings(self):
        return []

    def misuses(self, g, o, B):
        trained = self.is_trained(o)
        q, u = self.q, self.u
        r = len(q)
        kind = self.kind
        p = o.parameter_dimension
        mu = self.mus[0]
        affine = self.affine
        s = o.nterms if affine else None if o.training_parameters is None else \
            len(o.training_parameters)
        if not trained:
            B.add("untrained evaluate", lambda o, mu: o.evaluate(mu), AttributeError, args=(mu,))
            B.add("untrained apply", lambda o, mu, q, u: o.apply(mu, q, u), AttributeError,
                  args=(mu, q, u))
            B.add("untrained jacobian", lambda o, mu, q, u: o.jacobian(mu, q, u), AttributeError,
                  args=(mu, q, u))
            B.add("untrained galerkin", lambda o, V: o.galerkin(V), AttributeError,
                  args=(np.eye(r),))
        elif p is not None:
            pp = off_by(g, p, "pp")
            bad = g.normal(pp, "badmu")
            # (a scalar is a vector of length one)
            if pp == 1 and g.bool("scalar"):
                bad = float(bad[0])
            a = () if np.isscalar(bad) else (bad,)
            B.add("evaluate at misaligned parameter", lambda o, *_: o.evaluate(bad), ValueError, args=a)
            B.add("apply at misaligned parameter", lambda o, *_: o.apply(bad, q, u), ValueError,
                  args=a)
            B.add("jacobian at misaligned parameter", lambda o, *_: o.jacobian(bad, q, u), ValueError,
                  args=a)
        if trained:
            n = off_by(g, r, "nV")
            V = g.normal((n, g.int(1, n, "rV")), "V")
            B.add("galerkin with misaligned basis", lambda o, V: o.galerkin(V),
                  opinf.errors.DimensionalityError, args=(V,))
        # entries
        if s is not None:
            As = [A.copy() for A in self.again]
            if affine:
                wrong = g.choice([As[:-1], As + [As[0]], As * 2], "count")
            else:
                wrong = g.choice([As[:-1], As + [As[0]]], "count")
            if len(wrong) > 0:
                B.add("wrong number of entries", lambda o: o.set_entries(wrong), ValueError)
            if len(As) > 1:
                j = g.int(0, len(As) - 1, "which")
                odd = list(As)
                odd[j] = np.ones(tuple(x + 1 for x in odd[j].shape))
                B.add("entries of different shapes", lambda o: o.set_entries(odd))
            j = g.int(0, len(As) - 1, "which2")
            nan = list(As)
            nan[j] = As[j] * np.nan
            B.add("non-finite entries", lambda o: o.set_entries(nan), ValueError)
            if kind in "AHGN" and r > 1:
                misfit = [np.ones(A.shape + (1,)) for A in As]
                B.add("entries of wrong dimension", lambda o: o.set_entries(misfit), ValueError)
            B.add("3D block of entries", lambda o: o.set_entries(np.ones((2, 2, 2)), fromblock=True),
                  ValueError)
            if affine:
                B.add("block of entries that is a list",
                      lambda o: o.set_entries(As, fromblock=True), ValueError)
            d = sum(1 if A.ndim == 1 else A.shape[1] for A in As)
            if s > 1:
                B.add("block of entries that cannot be divided", lambda o: o.set_entries(
                    np.ones((r, d + g.int(1, s - 1, "extra"))), fromblock=True), ValueError)
        if p is not None:
            B.add("parameter_dimension set twice", lambda o: setattr(o, "parameter_dimension", p + 1),
                  AttributeError)
        else:
            B.add("parameter_dimension not a positive integer", lambda o: setattr(
                o, "parameter_dimension", g.choice([0, -1, 1.5, "1"], "dim")), ValueError)
        if not affine:
            if trained:
                B.add("training_parameters with entries set", lambda o: o.set_training_parameters(
                    self.params), AttributeError)
            else:
                B.add("3D training_parameters", lambda o: o.set_training_parameters(
                    np.ones((3, 2, 2))), ValueError)
                B.add("training_parameters of different shapes",
                      lambda o: o.set_training_parameters([np.ones(2), np.ones(1), np.ones(2)]),
                      ValueError)
            if s is None:
                B.add("set_entries before training_parameters",
                      lambda o: o.set_entries(self.again), AttributeError)

            class Broken:
                def __init__(self, *a):
                    raise RuntimeError("no interpolation")
            if trained:
                B.add("interpolator that cannot be constructed",
                      lambda o: o.set_interpolator(Broken), RuntimeError)
        else:
            def bad_coeffs(o):
                return type(o)([lambda mu: 1.0, 2.0])
            B.add("coefficients not callable", bad_coeffs, TypeError)
            B.add("coefficients of unknown kind", lambda o: type(o)(1.5), TypeError)
            B.add("coefficients without nterms", lambda o: type(o)(lambda mu: mu), ValueError)
            B.add("nterms not a positive integer", lambda o: type(o)(
                lambda mu: mu, nterms=g.choice([0, -1, 1.5, "2"], "nterms")), TypeError)


@CHECK.sub(quick=700, rule="at least one call rejected")
def parametric_operators(g):
    """Histories of affine and interpolatory operators."""
    item = quietly(lambda: Parametric(g))
    item.kind = next(k for d in (gen_par.AFFINE, gen_par.INTERP) for k, v in d.items()
                     if isinstance(item.obj, v))
    history(g, item)


@CHECK.sub(quick=250, rule="a call was rejected")
def affine_coefficients(g):
    """Coefficient functions with too few or too many values; parameter dimensions."""
    kind = g.choice(gen_par.KINDS, "kind")
    op, ref, (arg, kw, args) = quietly(lambda: gen_par.affine(g, kind=kind, p=g.int(1, 3, "p")))
    C, s, p = type(op), op.nterms, ref.p
    As = [np.array(R.coef[:, 0] if kind == "c" else R.coef) for R in ref.refs]
    wrong = off_by(g, s, "count")
    calls = []

    def theta(mu):
        calls.append(mu)
        return ref.theta(mu) if len(calls) > 1 else np.ones(wrong)
    o = C(theta, nterms=s, entries=[A.copy() for A in As])
    q, u = g.normal(ref.r, "q"), g.normal(ref.m, "u")
    mu = g.normal(p, "mu")
    first = g.normal(off_by(g, p, "pfirst"), "mu1")
    what = g.choice(["evaluate", "apply", "datablock"], "what")
    with unchanged(first):
        if what == "evaluate":
            raises(Exception, lambda: o.evaluate(first), "wrong number of coefficients")
        elif what == "apply":
            raises(Exception, lambda: o.apply(first, q, u), "wrong number of coefficients")
        else:
            Q, U = g.normal((ref.r, 3), "Q"), g.normal((ref.m, 3), "U")
            raises(Exception, lambda: o.datablock([first], [Q], [U]), "wrong number of coefficients")
    check(o.parameter_dimension is None, "parameter_dimension settled by a rejected call")
    want = C(ref.theta, nterms=s, entries=As)
    compare(want.apply(mu, q, u), o.apply(mu, q, u), "evaluation after the rejected call")
    check(o.parameter_dimension == p, "parameter_dimension")
    raises(ValueError, lambda: o.evaluate(g.normal(off_by(g, p, "p3"), "mu3")), "misaligned parameter")
    compare(want.apply(mu, q, u), o.apply(mu, q, u), "evaluation after rejected parameter")
    g.nontrivial()


# Models ======================================================================
class Model(c16.ModelItem):
    volatile = ("str", "state_dimension", "input_dimension", "operator_matrix_dimension",
                "operators", "solve", "solver")

    def copies_of(self, o):
        return o.copy()

    def is_trained(self, o):
        return all(getattr(x, "entries", 0) is not None for x in o.operators)

    def trainings(self):
        return [a for a in super().actions() if a[0] in ("fit", "solver+fit")]

    def misuses(self, g, o, B):
        st, q, u = self.st, self.q, self.u
        r, m = st.r, st.m
        dim = opinf.errors.DimensionalityError
        discrete = self.form == "discrete"
        trained = self.is_trained(o)
        inputs = st.inputs
        k = g.int(2, 6, "nt")
        t = np.linspace(0, 0.1, k)
        U = g.normal((m, k), "Upred") if inputs else None
        if inputs and m == 1 and g.bool("flat"):
            U = U[0]

        def predict(o, q0, U, niters=k, t=t):
            return o.predict(q0, niters if discrete else t, U)

        def rhs(o, q, u, method="rhs"):
            if discrete:
                return getattr(o, method)(q, u)
            return getattr(o, method)(0.1, q, None if u is None else (lambda t: u))
        uu = u if inputs else None
        if not trained:
            B.add("untrained predict", lambda o, q: predict(o, q, U), AttributeError, args=(q,))
            B.add("untrained rhs", lambda o, q: rhs(o, q, uu), AttributeError, args=(q,))
            B.add("untrained jacobian", lambda o, q: rhs(o, q, uu, "jacobian"),
                  (AttributeError, TypeError), args=(q,))
            B.add("untrained operator_matrix", lambda o: o.operator_matrix, AttributeError)
        else:
            n = off_by(g, r, "n")
            q0 = g.choice([np.ones(n), np.ones((r, 1)), 1.5, np.ones((r, 2))], "q0")
            B.add("predict from misaligned state", lambda o: predict(o, q0, U), dim)
            if r > 1:
                x = g.normal(n, "x")
                B.add("rhs at misaligned state", lambda o, x: rhs(o, x, uu), ValueError, args=(x,))
            if inputs:
                B.add("predict without inputs", lambda o, q: predict(o, q, None), ValueError, args=(q,))
                B.add("rhs without inputs", lambda o, q: rhs(o, q, None), args=(q,))
                few = g.int(0, k - 2, "few")
                wrong = g.choice([np.ones((off_by(g, m, "mm"), k)), np.ones((m, few)),
                                  np.ones((m, k, 1))] + ([np.ones(few)] if m == 1 else []), "Ubad")
                B.add("predict with misaligned inputs", lambda o, q: predict(o, q, wrong), ValueError,
                      args=(q,))
                if discrete:
                    B.add("predict with callable inputs",
                          lambda o, q: predict(o, q, lambda t: u), TypeError, args=(q,))
                else:
                    more = np.ones((m, k + g.int(1, 4, "more")))
                    B.add("predict with too many inputs", lambda o, q: predict(o, q, more),
                          ValueError, args=(q,))
                    ff = g.choice([np.ones(off_by(g, m, "mf")), np.ones((m, 1)),
                                   [1.0] * m] + (["u"] if m > 1 else []), "ff")
                    B.add("predict with a misaligned input function",
                          lambda o, q: predict(o, q, lambda t: ff), dim, args=(q,))
            if discrete:
                ni = g.choice([0, -3, 2.0, "5", None], "niters")
                B.add("predict for wrong niters", lambda o, q: predict(o, q, U, niters=ni), ValueError,
                      args=(q,))
            else:
                B.add("predict over 2D time", lambda o, q: predict(o, q, U, t=t.reshape((1, -1))),
                      ValueError, args=(q,))
        if any(st.known) or trained:
            # (dimensions of operators with entries)
            B.add("other state_dimension", lambda o: setattr(o, "state_dimension", r + 1),
                  AttributeError)
            n = off_by(g, r, "nV")
            V = g.normal((n, g.int(1, n, "rV")), "V")
            if not any(R.kind == "P" and R.p is not None and (kn or trained)
                       for R, kn in zip(st.refs, st.known)):
                B.add("galerkin with misaligned basis", lambda o, V: o.galerkin(V), dim, args=(V,))
        if not inputs:
            B.add("input_dimension without inputs", lambda o: setattr(o, "input_dimension", 2),
                  AttributeError)
        elif trained:
            B.add("other input_dimension", lambda o: setattr(o, "input_dimension", m + 1),
                  AttributeError)
        self.operator_misuses(g, B)
        if self.intrusive:
            return
        B.add("negative solver", lambda o: setattr(o, "solver", -1.0), ValueError)
        B.add("solver class", lambda o: setattr(o, "solver", opinf.lstsq.L2Solver), TypeError)
        self.fit_misuses(g, B)

    def operator_misuses(self, g, B):
        r, m = self.st.r, self.st.m
        opsm = opinf.operators
        setops = (lambda o, ops: setattr(o, "operators", ops))
        first = g.choice(["c", "A", "B", "N", "H"], "first")
        B.add("no operators", lambda o: setops(o, []), ValueError)
        B.add("unknown operator abbreviation", lambda o: setops(
            o, [first, g.choice(["Z", "a", "cA", ""], "abbr")]), TypeError)
        B.add("operator of wrong type", lambda o: setops(
            o, [first, g.choice([1, np.ones((r, r)), opsm.LinearOperator, None], "obj")]), TypeError)
        B.add("parametric operator", lambda o: setops(o, [first, opsm.AffineLinearOperator(2)]),
              TypeError)
        B.add("duplicate operators", lambda o: setops(o, [first, "G", first]), ValueError)
        n = off_by(g, r, "nop")
        B.add("operators of different dimensions", lambda o: setops(
            o, ["B", opsm.LinearOperator(np.eye(r)), opsm.ConstantOperator(np.ones(n))]),
            opinf.errors.DimensionalityError)
        mm = off_by(g, m, "mop")
        B.add("operators of different input dimensions", lambda o: setops(
            o, ["A", opsm.InputOperator(np.ones((r, m))),
                opsm.StateInputOperator(np.ones((r, r * mm)))]), opinf.errors.DimensionalityError)

    def fit_misuses(self, g, B):
        st, Q, Z, U = self.st, self.Q2, self.Z2, self.U2
        dim = opinf.errors.DimensionalityError
        r, k = Q.shape
        known = any(st.known)
        n = off_by(g, r, "nfit")
        kk = off_by(g, k, "kfit")
        fewer = g.int(1, k - 1, "fewer")

        def fit(o, Q, Z, U=None):
            return o.fit(Q, Z, *([] if U is None else [U]))
        Us = () if U is None else (U,)
        B.add("fit to lhs of other rows", fit, dim, args=(Q, g.normal((n, k), "Zr")) + Us, train=True)
        B.add("fit to lhs of other columns", fit, dim, args=(Q, g.normal((r, kk), "Zk")) + Us,
              train=True)
        B.add("fit to states of other columns", fit, dim,
              args=(g.normal((r, fewer), "Qk"), Z) + Us, train=True)
        B.add("fit to states of other rows", fit, dim, args=(g.normal((n, k), "Qr"), Z) + Us,
              train=True)
        if known:
            B.add("fit to data of other dimension than known operators", fit, dim,
                  args=(g.normal((n, k), "Qn"), g.normal((n, k), "Zn")) + Us, train=True)
        if U is None:
            return
        m = st.m
        B.add("fit without inputs", fit, ValueError, args=(Q, Z), train=True)
        B.add("fit to too few inputs", fit, dim, args=(Q, Z, g.normal((m, fewer), "Uk")), train=True)
        if self.form == "continuous":
            B.add("fit to too many inputs", fit, dim,
                  args=(Q, Z, g.normal((m, k + fewer), "Ul")), train=True)
        if any(kn and R.takes_input for R, kn in zip(st.refs, st.known)):
            B.add("fit to inputs of other dimension than known operators", fit, dim,
                  args=(Q, Z, g.normal((off_by(g, m, "mu"), k), "Um")), train=True)


@CHECK.sub(quick=1600, rule="at least one call rejected")
def models(g):
    """Histories of nonparametric models."""
    history(g, quietly(lambda: Model(g)))


# Parametric models ===========================================================
class ParametricModel(c16.InterpModelItem):
    # (evaluate() of untrained nonparametric operators is allowed: rhs and jacobian judge those)
    volatile = ("state_dimension", "input_dimension", "parameter_dimension", "entries", "class",
                "solver", "evaluate0", "evaluate1")

    def copies_of(self, o):
        return o.copy()

    def is_trained(self, o):
        return all(x.entries is not None for x in o.operators)

    def trainings(self):
        return [a for a in super().actions() if a[0] in ("fit", "solver+fit")]

    def misuses(self, g, o, B):
        r, m, q, u = self.r, self.m, self.q, self.u
        dim = opinf.errors.DimensionalityError
        discrete, inputs = self.discrete, self.inputs
        trained = self.is_trained(o)
        mu = self.probe_mus[0]
        k = g.int(2, 5, "nt")
        t = np.linspace(0, 0.1, k)
        U = g.normal((m, k), "Upred") if inputs else None
        p = 1 if self.params.ndim == 1 else self.params.shape[1]

        def predict(o, mu, q0, U=U, niters=k, t=t):
            return o.predict(mu, q0, niters if discrete else t, U)

        def rhs(o, mu, q, u, method="rhs"):
            if discrete:
                return getattr(o, method)(mu, q, u)
            return getattr(o, method)(0.1, mu, q, None if u is None else (lambda t: u))
        uu = u if inputs else None
        if not trained:
            B.add("untrained predict", lambda o, q: predict(o, mu, q), AttributeError, args=(q,))
            B.add("untrained rhs", lambda o, q: rhs(o, mu, q, uu), AttributeError, args=(q,))
            B.add("untrained jacobian", lambda o, q: rhs(o, mu, q, uu, "jacobian"),
                  (AttributeError, TypeError), args=(q,))
            if all(T.form != "plain" for T in self.ts):
                B.add("untrained evaluate", lambda o: o.evaluate(mu), AttributeError)
        else:
            bad = g.normal(off_by(g, p, "pp"), "badmu")
            B.add("evaluate at misaligned parameter", lambda o, x: o.evaluate(x), ValueError,
                  args=(bad,))
            B.add("predict at misaligned parameter", lambda o, x, q: predict(o, x, q), ValueError,
                  args=(bad, q))
            n = off_by(g, r, "n")
            q0 = g.choice([np.ones(n), np.ones((r, 1)), 1.5], "q0")
            B.add("predict from misaligned state", lambda o: predict(o, mu, q0), dim)
            if inputs:
                B.add("predict without inputs", lambda o, q: predict(o, mu, q, None), ValueError,
                      args=(q,))
                wrong = g.choice([np.ones((m + 1, k)), np.ones((m, k - 2))], "Ubad")
                B.add("predict with misaligned inputs", lambda o, q: predict(o, mu, q, wrong),
                      ValueError, args=(q,))
            if discrete:
                B.add("predict for wrong niters", lambda o, q: predict(
                    o, mu, q, niters=g.choice([0, -1, 1.5], "niters")), ValueError, args=(q,))
            else:
                B.add("predict over 2D time", lambda o, q: predict(o, mu, q, t=t[:, None]), ValueError,
                      args=(q,))
            B.add("other state_dimension", lambda o: setattr(o, "state_dimension", r + 1),
                  AttributeError)
        if not inputs:
            B.add("input_dimension without inputs", lambda o: setattr(o, "input_dimension", 2),
                  AttributeError)
        B.add("negative solver", lambda o: setattr(o, "solver", -1.0), ValueError)
        B.add("solver class", lambda o: setattr(o, "solver", opinf.lstsq.L2Solver), TypeError)
        self.operator_misuses(g, B, p)
        self.fit_misuses(g, B, o)

    def operator_misuses(self, g, B, p):
        r = self.r
        X = opinf.operators
        interp = self.flavour == "Interp"
        setops = (lambda o, ops: setattr(o, "operators", ops))
        first = X.InterpInputOperator() if interp else g.choice(
            [X.InputOperator(), X.AffineInputOperator(p)], "first")
        B.add("no operators", lambda o: setops(o, []), ValueError)
        B.add("operator of wrong type", lambda o: setops(
            o, [first, g.choice([1, "x", np.eye(r), None], "obj")]), TypeError)
        if interp:
            B.add("operator that is not interpolatory", lambda o: setops(
                o, [first, g.choice([X.LinearOperator(), X.AffineLinearOperator(p)], "obj2")]),
                TypeError)
        B.add("duplicate operators", lambda o: setops(
            o, [first, X.InterpLinearOperator(), X.InterpLinearOperator()]), ValueError)
        pts = np.arange(4.0)
        n = off_by(g, r, "nop")
        make = (lambda C, A, pts=pts: C(pts, [A * (i + 1) for i in range(len(pts))]))
        B.add("operators of different dimensions", lambda o: setops(
            o, [first, make(X.InterpLinearOperator, np.eye(r)),
                make(X.InterpConstantOperator, np.ones(n))]), opinf.errors.DimensionalityError)
        pts2 = np.array([[0, 0], [0, 1.0], [1.0, 0], [1.0, 1.0]])
        B.add("operators of different parameter dimensions", lambda o: setops(
            o, [first, make(X.InterpLinearOperator, np.eye(r)),
                make(X.InterpConstantOperator, np.ones(r), pts2)]),
            opinf.errors.DimensionalityError)

    def fit_misuses(self, g, B, o):
        params, Qs, Zs = self.params, list(self.Q2s), list(self.Z2s)
        Us = None if self.U2s is None else list(self.U2s)
        dim = opinf.errors.DimensionalityError
        s, r = len(params), self.r
        j = g.int(0, s - 1, "j")
        n = off_by(g, r, "nfit")

        def fit(label, params, Qs, Zs, Us, excs=dim):
            arrays = [A for X in (Qs, Zs, Us) if X is not None for A in X]
            B.add("fit: " + label, lambda o, *_: o.fit(params, Qs, Zs, *([] if Us is None else [Us])),
                  excs, train=True, args=arrays)

        def swap(X, A):
            return X[:j] + [A] + X[j + 1:]
        short = g.choice([-1, 1], "short")
        cut = (lambda X: X[:-1] if short < 0 else X + [X[0]])
        fit("wrong number of states", params, cut(Qs), Zs, Us)
        fit("wrong number of lhs", params, Qs, cut(Zs), Us)
        fit("wrong number of parameters", np.concatenate((params, params[:1] + 9)) if short > 0
            else params[:-1], Qs, Zs, Us)
        k = Qs[j].shape[1]
        fit("lhs of other columns", params, Qs, swap(Zs, g.normal((r, off_by(g, k, "kz")), "Zk")), Us)
        fit("lhs of other rows", params, Qs, swap(Zs, g.normal((n, k), "Zr")), Us)
        if s > 1:
            fit("states of other rows", params, swap(Qs, g.normal((n, k), "Qr")), Zs, Us)
        fit("3D parameters", np.ones((s, 1, 1)), Qs, Zs, Us)
        if any(T.known for T in self.ts):
            fit("data of other dimension than known operators", params,
                [g.normal((n, Q.shape[1]), "Qn") for Q in Qs],
                [g.normal((n, Q.shape[1]), "Zn") for Q in Qs], Us)
        if Us is not None:
            m = self.m
            fit("no inputs", params, Qs, Zs, None, ValueError)
            fit("wrong number of inputs", params, Qs, Zs, cut(Us))
            fit("inputs of other columns", params, Qs, Zs, swap(
                Us, g.normal((m, g.int(1, k - 1, "ku")), "Uk")))
            if not self.discrete:
                fit("inputs of more columns", params, Qs, Zs, swap(
                    Us, g.normal((m, k + g.int(1, 3, "kl")), "Ul")))
            fit("inputs of other rows", params, Qs, Zs, swap(
                Us, g.normal((off_by(g, m, "mr"), k), "Ur")))
        if self.flavour == "Interp" and params.ndim == 1 and \
                self.level in (None, si.CubicSpline, c16.MyInterpolator) and all(
                    T.Class in (None, si.CubicSpline) for T in self.ts):
            fit("a single parameter", params[:1], Qs[:1], Zs[:1], None if Us is None else Us[:1],
                ValueError)


@CHECK.sub(quick=500, rule="at least one call rejected")
def parametric_models(g):
    """Histories of parametric models."""
    history(g, quietly(lambda: ParametricModel(g)))


# Reduced-order models ========================================================
class Rom(c16.Item):
    """Lift, transform, compress, and a model."""
    volatile = ("model", "encode", "decode", "decode at")

    def __init__(self, g):
        st = self.st = c19.Stages(g, max_n=3)
        self.parametric = g.rarely("parametric", 3)
        self.continuous = continuous = g.bool("continuous")
        self.estimated = continuous and g.bool("estimated")
        self.plain = st.lifter is None and g.rarely("plain", 4)
        reg = float(g.uniform(0.1, 1.0, None, "reg"))
        solver = opinf.lstsq.PlainSolver() if self.plain else opinf.lstsq.L2Solver(reg)
        self.ops = ["c", "A"] + (["H"] if st.r < 4 and not self.plain and g.bool("H") else []) \
            + (["B"] if g.bool("B") else [])
        self.m = g.int(1, 2, "m") if "B" in self.ops else 0
        self.s = 3 if self.parametric else g.int(2, 3, "s")
        self.params = np.array([0.0, 1.0, 2.5]) if g.bool("1d") else \
            np.array([[0.0, 1.0], [1.0, 0.0], [2.0, 3.0]])
        form = "Continuous" if continuous else "Discrete"
        if self.parametric:
            X = opinf.operators
            C = dict(c=X.AffineConstantOperator, A=X.AffineLinearOperator,
                     H=X.AffineQuadraticOperator, B=X.AffineInputOperator)
            p = 1 if self.params.ndim == 1 else 2
            model = getattr(opinf.models, f"Parametric{form}Model")(
                [C[k](lambda mu: np.concatenate(([1.0], np.atleast_1d(mu)[:1])), 2)
                 if i == 0 else C[k](p) for i, k in enumerate(self.ops)], solver=solver)
        else:
            model = getattr(opinf.models, f"{form}Model")(self.ops, solver=solver)
        k = 3 * st.r + 12
        self.t = np.linspace(0, 3, k)
        ddter = opinf.ddt.UniformFiniteDifferencer(self.t, "ord4") if self.estimated else None
        L, T, B = st.fresh()
        Class = opinf.roms.ParametricROM if self.parametric else opinf.roms.ROM
        self.obj = Class(model, lifter=L, transformer=T, basis=B, ddt_estimator=ddter)
        self.data = [self.draw(g, i) for i in range(2)]
        self.usable = all(st.fits(np.concatenate(
            [Q if L is None else L.lift(Q) for Q in kw["states"]], axis=1)) for kw in self.data)
        self.trained = not g.rarely("untrained", 3)
        if self.trained and self.usable:
            self.fit(self.obj, **self.data[0])
        self.Q = c19.wave(g, st.n, np.linspace(0, 1, 3), "probe")
        self.X = g.normal((st.r, 2), "X")
        self.locs = None if st.lifter is not None or st.tkind == "multi" or st.bkind == "multi" \
            else np.unique([g.int(0, st.N - 1, f"loc{i}") for i in range(2)])
        self.mu = self.params[1]
        self.U = g.uniform(-1, 1, (self.m, 4 if continuous else 2), "Up") if self.m else None
        g.tag(type(self.obj).__name__, "trained" if self.trained else "untrained",
              "continuous" if continuous else "discrete")

    def copies_of(self, o):
        return type(o)(o.model.copy(), lifter=o.lifter, transformer=copy.deepcopy(o.transformer),
                       basis=copy.deepcopy(o.basis), ddt_estimator=o.ddt_estimator)

    def draw(self, g, i):
        st, t = self.st, self.t
        kw = dict(states=[c19.wave(g, st.n, t, f"Q{i}{j}") for j in range(self.s)])
        if not self.estimated and (self.continuous or g.bool(f"lhs{i}")):
            kw["lhs"] = [g.normal(Q.shape, f"Z{i}{j}") if self.continuous else
                         c19.wave(g, st.n, t, f"Z{i}{j}") for j, Q in enumerate(kw["states"])]
        if self.m:
            kw["inputs"] = [g.uniform(-1, 1, (self.m, t.size), f"U{i}{j}") for j in range(self.s)]
        return kw

    def args(self):
        return (self.params,) if self.parametric else ()

    def fit(self, o, *params, **kw):
        return quietly(lambda: o.fit(*(params or self.args()), **kw))

    def predict(self, o, q0, U="default", mu=None):
        U = self.U if isinstance(U, str) else U
        before = (self.mu if mu is None else mu,) if self.parametric else ()
        if not self.continuous:
            return o.predict(*before, q0, 2, U)
        span = 0.1     # (short enough for any model)
        if self.is_trained(o):
            size = max(np.abs(np.concatenate([np.ravel(e) for e in op.entries])).max()
                       for op in o.model.operators)
            span = min(span, 1e-2 / (1 + size))
        return o.predict(*before, q0, np.linspace(0, span, 4), U)

    def is_trained(self, o):
        return all(op.entries is not None for op in o.model.operators)

    def probes(self, o):
        return [("encode", lambda: o.encode(self.Q)),
                ("decode", lambda: o.decode(self.X)),
                ("decode at", lambda: None if self.locs is None else o.decode(self.X, self.locs)),
                ("predict", lambda: self.predict(o, self.Q[:, 0])),
                ("model", lambda: tuple(
                    None if op.entries is None else tuple(map(np.asarray, op.entries))
                    for op in o.model.operators)),
                ("parts", lambda: tuple(type(x).__name__ for x in (
                    o.lifter, o.transformer, o.basis, o.ddt_estimator, o.model)))]

    def actions(self):
        acts = self.trainings()
        acts += [("predict", lambda o: self.predict(o, self.Q[:, 1])),
                 ("project", lambda o: o.project(self.Q))]
        if self.is_trained(self.obj) and self.usable:
            acts += [("refit model only", lambda o: self.fit(
                o, **self.data[1], fit_transformer=False, fit_basis=False))]
        return acts

    def trainings(self):
        if not self.usable:
            return []
        return [(f"fit data {i}", lambda o, kw=kw: self.fit(o, **kw))
                for i, kw in enumerate(self.data)]

    def misuses(self, g, o, B):
        st, s, m, k = self.st, self.s, self.m, self.t.size
        dim = opinf.errors.DimensionalityError
        kw = self.data[g.int(0, 1, "data")]
        Qs, Zs, Us = kw["states"], kw.get("lhs"), kw.get("inputs")
        j = g.int(0, s - 1, "j")
        staged = st.tf is not None or st.basis is not None
        n = off_by(g, st.n, "n")
        kk = off_by(g, k, "k")
        flags = {} if g.bool("flags") else {f: g.bool(f) for f in ("fit_transformer", "fit_basis")}

        def fit(label, excs=dim, params=self.args(), train=False, **changes):
            new = {**kw, **changes}
            new = {name: val for name, val in new.items() if val is not None}
            arrays = [A for X in new.values() for A in X if isinstance(A, np.ndarray)]
            B.add("fit: " + label, lambda o, *_: self.fit(o, *params, **new, **flags), excs,
                  args=arrays, train=train)

        def swap(X, A):
            return X[:j] + [A] + X[j + 1:]
        short = g.bool("short")
        cut = (lambda X: X[:-1] if short else X + [X[0]])
        if self.continuous and not self.estimated:
            fit("no left-hand side", ValueError, lhs=None)
        if Zs is not None:
            fit("wrong number of lhs", lhs=cut(Zs))
            fit("lhs of other columns", lhs=swap(Zs, np.ones((st.n, kk))))
            fit("lhs of other rows", lhs=swap(Zs, np.ones((n, k))))
        if m:
            fit("no inputs", ValueError, inputs=None)
            fit("wrong number of inputs", inputs=cut(Us))
            fit("inputs of fewer columns", inputs=swap(
                Us, np.ones((m, g.int(1, k - 2, "few")))))
            fit("inputs of other rows", inputs=swap(Us, np.ones((off_by(g, m, "mm"), k))))
            if self.continuous:
                fit("inputs of more columns", inputs=swap(Us, np.ones((m, k + 1))))
        if Zs is None or not self.continuous:
            fit("states of other rows", (ValueError, AttributeError), train=not staged, lhs=None,
                states=swap(Qs, c19.wave(g, n, self.t, "Qn")))
        if self.parametric:
            fit("wrong number of parameters", params=(cut(list(self.params)),))
            if not self.estimated or Zs is not None:
                fit("wrong number of states", states=cut(Qs))
        if not self.is_trained(o):
            B.add("untrained predict", lambda o, Q: self.predict(o, Q[:, 0]), AttributeError,
                  args=(self.Q,))
            if st.bkind == "pod" or st.tkind == "leaf" and not ready(o.transformer):
                B.add("untrained encode", lambda o, Q: o.encode(Q), AttributeError, args=(self.Q,))
                B.add("untrained decode", lambda o, X: o.decode(X), AttributeError, args=(self.X,))
        else:
            if staged or st.n > 1:    # (the model flattens what it gets)
                x = c19.wave(g, n, np.linspace(0, 1, 2), "xn")
                B.add("predict from misaligned state", lambda o, x: self.predict(o, x[:, 0]),
                      ValueError, args=(x,))
            if sized(o):
                x = c19.wave(g, n, np.linspace(0, 1, 2), "xe")
                B.add("encode misaligned states", lambda o, x: o.encode(x), ValueError, args=(x,))
            if o.basis is not None:
                x = g.normal((off_by(g, st.r, "rr"), 2), "Xd")
                B.add("decode misaligned states", lambda o, x: o.decode(x), ValueError, args=(x,))
            elif sized(o):
                x = g.normal((off_by(g, st.N, "NN"), 2), "XD")
                B.add("decode misaligned states", lambda o, x: o.decode(x), ValueError, args=(x,))
            if m:
                B.add("predict without inputs", lambda o, Q: self.predict(o, Q[:, 0], None),
                      ValueError, args=(self.Q,))
                B.add("predict with misaligned inputs", lambda o, Q: self.predict(
                    o, Q[:, 0], np.ones((m + 1, 4))), ValueError, args=(self.Q,))
            if self.parametric:
                B.add("predict at misaligned parameter", lambda o, Q: self.predict(
                    o, Q[:, 0], mu=np.ones(3)), ValueError, args=(self.Q,))
        self.regselect_misuses(g, B, kw, cut, swap)

    def regselect_misuses(self, g, B, kw, cut, swap):
        dim = opinf.errors.DimensionalityError
        m, k = self.m, self.t.size
        params = dict(parameters=self.params) if self.parametric else {}
        cands = [0.1, 1.0]

        def call(o, method, new):
            full = {**params, **new}
            return quietly(lambda: getattr(o, "fit_regselect_" + method)(
                cands, **{a: b for a, b in full.items() if b is not None}))
        cont = dict(train_time_domains=self.t, states=kw["states"], ddts=kw.get("lhs"),
                    input_functions=(lambda t: np.ones(m)) if m else None)
        disc = dict(states=kw["states"], inputs=kw.get("inputs"))
        arrays = kw["states"] + kw.get("lhs", []) + kw.get("inputs", [])

        def bad(label, excs, **changes):
            mine, method = (cont, "continuous") if self.continuous else (disc, "discrete")
            new = {**mine, **changes}
            B.add("regselect: " + label, lambda o, *_: call(o, method, new), excs, args=arrays)
        other, name = (disc, "discrete") if self.continuous else (cont, "continuous")
        B.add("regselect of the other kind", lambda o, *_: call(o, name, other), AttributeError,
              args=arrays)
        if self.plain:
            bad("solver without regularizer", AttributeError)
            return
        bad("test case", TypeError, test_cases=[
            g.choice(["x", 1, np.ones(3), opinf.roms.ROM], "case")])
        wrongkind = opinf.utils.DiscreteRegTest(self.Q[:, 0], 3) if self.continuous else \
            opinf.utils.ContinuousRegTest(self.Q[:, 0], np.linspace(0, 1, 3))
        bad("test case of the other kind", TypeError, test_cases=wrongkind)
        if self.continuous:
            bad("negative test time", ValueError, test_time_length=-g.choice([1.0, 1e-3], "neg"))
            bad("wrong number of time domains", dim,
                train_time_domains=cut([self.t] * self.s))
            bad("time domain of other length", dim,
                train_time_domains=swap([self.t] * self.s, np.linspace(0, 3, off_by(g, k, "kt"))))
            if "lhs" in kw:
                bad("wrong number of ddts", dim, ddts=cut(kw["lhs"]))
            elif not self.estimated:
                bad("no ddts", ValueError)
            if m:
                bad("no input functions", ValueError, input_functions=None)
                bad("wrong number of input functions", dim,
                    input_functions=cut([cont["input_functions"]] * self.s))
                bad("input functions that are not callable", TypeError,
                    input_functions=[np.ones((m, k))] * self.s)
                bad("input functions of other dimensions", ValueError, input_functions=swap(
                    [cont["input_functions"]] * self.s, lambda t: np.ones(m + 1)))
        else:
            bad("negative iterations", ValueError, num_test_iters=-g.int(1, 3, "neg"))
            if m:
                bad("no inputs", ValueError, inputs=None)
                bad("wrong number of inputs", dim, inputs=cut(kw["inputs"]))
                bad("too short inputs", ValueError, num_test_iters=g.int(1, 3, "ni"))


def sized(rom):
    """Whether the first stages of a trained ROM know the size of the states."""
    if rom.basis is not None:
        return True
    return rom.transformer is not None and all(
        s.state_dimension is not None for s in stages(rom.transformer)
        if not isinstance(s, opinf.pre.NullTransformer))


@CHECK.sub(quick=1000, rule="at least one call rejected")
def roms(g):
    """Histories of reduced-order models."""
    history(g, quietly(lambda: Rom(g)))


@CHECK.sub(quick=120, rule="a call was rejected")
def rom_constructors(g):
    """ROMs check the kind of model."""
    X = opinf.models
    time = g.choice(["Continuous", "Discrete"], "time")
    plain = getattr(X, time + "Model")("cA")
    par = g.choice([getattr(X, f"Parametric{time}Model")([opinf.operators.AffineLinearOperator(2)]),
                    getattr(X, f"Interp{time}Model")("A")], "par")
    other = g.choice([None, "A", 3, type(plain), opinf.operators.LinearOperator()], "other")
    raises(TypeError, lambda: opinf.roms.ROM(g.choice([par, other], "which")), "ROM of wrong model")
    raises(TypeError, lambda: opinf.roms.ParametricROM(g.choice([plain, other], "which2")),
           "ParametricROM of wrong model")
    g.nontrivial()


@CHECK.sub(quick=200, rule="a call was rejected")
def bayesian_roms(g):
    """A rejected fit leaves the posterior; only suitable models are accepted."""
    R = opinf.roms
    continuous = g.bool("continuous")
    M = getattr(opinf.models, "ContinuousModel" if continuous else "DiscreteModel")
    wrong = g.choice([
        lambda: M("cA", solver=opinf.lstsq.PlainSolver()) if g.bool("plain") else
        M("cA", solver=opinf.lstsq.TruncatedSVDSolver(3)),
        lambda: M([opinf.operators.LinearOperator(np.eye(2))]),
        lambda: opinf.models.ParametricContinuousModel([opinf.operators.AffineLinearOperator(2)]),
    ], "wrong")()
    raises((AttributeError, TypeError), lambda: quietly(lambda: R.BayesianROM(wrong)), "wrong model")
    r, m = g.int(1, 3, "r"), g.int(0, 2, "m")
    basis = None if g.bool("nobasis") else opinf.basis.PODBasis(num_vectors=r)
    n = r if basis is None else r + g.int(0, 3, "more")
    model = M("cAB" if m else "cA", solver=opinf.lstsq.L2Solver(g.float(0.01, 1.0, "reg")))
    rom = R.BayesianROM(model, basis=basis)
    k = 4 * n + 10
    t = np.linspace(0, 3, k)
    Q = [c19.wave(g, n, t, f"Q{i}") for i in range(2)]
    kw = dict(states=Q)
    if continuous:
        kw["lhs"] = [g.normal((n, k), f"Z{i}") for i in range(2)]
    if m:
        kw["inputs"] = [g.uniform(-1, 1, (m, k), f"U{i}") for i in range(2)]
    ahead = (np.linspace(0, 1e-3, 3) if continuous else 2,
             *([(lambda s: np.ones(m)) if continuous else np.ones((m, 2))] if m else []))
    check(rom.posterior is None, "posterior before fit()")
    raises(AttributeError, lambda: rom.predict(Q[0][:, 0], *ahead), "predict() before fit()")
    if g.bool("early"):
        rom.fit(**kw)
    twin = None if rom.posterior is None else (
        [np.array(x) for x in rom.posterior.means], [np.array(x) for x in rom.posterior.covs])
    cut = (lambda X: X[:-1] if g.bool("short") else X + X[:1])
    bads = {"states of other rows": dict(kw, states=[Q[0], np.ones((n + 1, k))])}
    if continuous:
        bads["no lhs"] = {a: b for a, b in kw.items() if a != "lhs"}
        bads["number of lhs"] = dict(kw, lhs=cut(kw["lhs"]))
        bads["columns of lhs"] = dict(kw, lhs=[kw["lhs"][0], kw["lhs"][1][:, 1:]])
    if m:
        bads["no inputs"] = {a: b for a, b in kw.items() if a != "inputs"}
        bads["number of inputs"] = dict(kw, inputs=cut(kw["inputs"]))
        bads["columns of inputs"] = dict(kw, inputs=[kw["inputs"][0], kw["inputs"][1][:, 2:]])
    label = g.choice(sorted(bads), "bad")
    raises(ValueError, lambda: quietly(lambda: rom.fit(**bads[label])), label)
    if twin is None:
        check(rom.posterior is None, f"posterior after rejected {label}")
        raises(AttributeError, lambda: rom.predict(Q[0][:, 0], *ahead), f"predict() after {label}")
    else:
        compare(tuple(twin[0]), tuple(np.array(x) for x in rom.posterior.means), f"means after {label}")
        compare(tuple(twin[1]), tuple(np.array(x) for x in rom.posterior.covs), f"covs after {label}")
    rom.fit(**kw)
    fresh = R.BayesianROM(M("cAB" if m else "cA", solver=opinf.lstsq.L2Solver(
        model.solver.regularizer)), basis=None if basis is None else opinf.basis.PODBasis(num_vectors=r))
    fresh.fit(**kw)
    for a, b in zip(fresh.posterior.means, rom.posterior.means):
        compare(np.array(a), np.array(b), f"means of fit() after rejected {label}")
    # posteriors
    r, d = g.int(1, 3, "pr"), g.int(1, 4, "pd")
    means = [g.normal(d, f"mean{i}") for i in range(r)]
    precs = [np.eye(d) for _ in range(r)]
    i = g.int(0, r - 1, "i")
    bm, bp = list(means), list(precs)
    which = g.choice(["number", "2D mean", "list mean", "1D precision", "list precision",
                      "aligned", "square"], "posterior")
    if which == "number":
        bm.append(means[0])
    elif which == "2D mean":
        bm[i] = means[i][None, :]
    elif which == "list mean":
        bm[i] = list(means[i])
    elif which == "1D precision":
        bp[i] = np.ones(d)
    elif which == "list precision":
        bp[i] = np.eye(d).tolist()
    elif which == "aligned":
        bp[i] = np.eye(d + 1)
    else:
        bp[i] = np.ones((d, d + 1))
    raises(ValueError, lambda: R.OperatorPosterior(bm, bp, alreadyinverted=g.bool("inv")),
           "posterior with wrong " + which)
    g.tag(label, which)
    g.nontrivial()


@CHECK.sub(quick=300, rule="a call was rejected")
def bayesian_selection(g):
    """Selections by a Bayesian ROM check their arguments and leave a usable object."""
    dim = opinf.errors.DimensionalityError
    continuous = g.bool("continuous")
    M = getattr(opinf.models, "ContinuousModel" if continuous else "DiscreteModel")
    n, m, s = g.int(1, 3, "n"), g.int(0, 2, "m"), g.int(2, 3, "s")
    k = 4 * n + 12
    t = np.linspace(0, 3, k)

    def make():
        return opinf.roms.BayesianROM(M("cAB" if m else "cA", solver=opinf.lstsq.L2Solver(0.1)))
    rom = make()
    Q = [c19.wave(g, n, t, f"Q{i}") for i in range(s)]
    kw = dict(states=Q, gridsearch_only=True, num_posterior_draws=1)
    if continuous:
        kw.update(train_time_domains=t, ddts=[np.gradient(q, t, axis=1, edge_order=2) for q in Q])
        if m:
            kw["input_functions"] = lambda x: np.cos(x) * np.ones(m)
        case = opinf.utils.DiscreteRegTest(Q[0][:, 0], 3)
    else:
        if m:
            kw["inputs"] = [g.uniform(-1, 1, (m, k), f"U{i}") for i in range(s)]
        case = opinf.utils.ContinuousRegTest(Q[0][:, 0], np.linspace(0, 1, 3))

    def call(o, new, kind=continuous):
        name = "fit_regselect_" + ("continuous" if kind else "discrete")
        return quietly(lambda: getattr(o, name)([0.1, 1.0], **new))

    def cut(X):
        return X[:-1] if g.bool("short") else X + X[:1]

    def swap(X, y):
        i = g.int(0, len(X) - 1, "swapped")
        return X[:i] + [y] + X[i + 1:]
    bads = {"test case": (TypeError, dict(test_cases=[g.choice(["x", 1, np.ones(3)], "case")])),
            "test case of the other kind": (TypeError, dict(test_cases=case)),
            "states of other rows": (ValueError, dict(states=swap(Q, np.ones((n + 1, k)))))}
    if continuous:
        kk = off_by(g, k, "kt")
        bads.update({
            "negative test time": (ValueError, dict(test_time_length=-g.choice([1.0, 1e-3], "neg"))),
            "number of time domains": (dim, dict(train_time_domains=cut([t] * s))),
            "time domain of other length": (dim, dict(train_time_domains=swap(
                [t] * s, np.linspace(0, 3, kk)))),
            "common time domain of other length": (dim, dict(
                train_time_domains=np.linspace(0, 3, kk))),
            "number of ddts": (dim, dict(ddts=cut(kw["ddts"]))),
            "columns of ddts": (dim, dict(ddts=swap(kw["ddts"], kw["ddts"][0][:, 1:]))),
            "no ddts": (ValueError, dict(ddts=None))})
        if m:
            bads.update({
                "no input functions": (ValueError, dict(input_functions=None)),
                "number of input functions": (dim, dict(input_functions=cut(
                    [kw["input_functions"]] * s))),
                "inputs that are not callable": (TypeError, dict(input_functions=[
                    np.ones((m, k))] * s)),
                "input functions of other dimensions": (ValueError, dict(input_functions=swap(
                    [kw["input_functions"]] * s, lambda t: np.ones(m + 1))))})
    else:
        bads["negative iterations"] = (ValueError, dict(num_test_iters=-g.int(1, 3, "neg")))
        if m:
            bads.update({
                "no inputs": (ValueError, dict(inputs=None)),
                "number of inputs": (dim, dict(inputs=cut(kw["inputs"]))),
                "short inputs": (ValueError, dict(inputs=swap(
                    kw["inputs"], kw["inputs"][0][:, :-g.int(1, 3, "less")]))),
                "short inputs for the iterations": (ValueError, dict(
                    num_test_iters=g.int(1, 3, "ni")))})
    kw["stability_margin"] = 1e6

    def select(o):      # (random draws may all be unstable)
        try:
            call(o, kw)
        except RuntimeError as ex:
            check("grid search failed" in str(ex), f"RuntimeError: {ex}")
            g.tag("hopeless")
            return False
        return True
    early = g.bool("early")
    if early:
        if not select(rom):
            return
        before = [np.array(x) for x in rom.posterior.means]
        reg = np.array(rom.model.solver.regularizer)
    label = g.choice(sorted(bads) + ["the other kind"], "bad")
    if label == "the other kind":
        raises(AttributeError, lambda: getattr(rom, "fit_regselect_" + ("discrete" if continuous else "continuous"))(
                   [0.1], states=Q, **({} if continuous else dict(train_time_domains=t))), label)
    else:
        excs, changes = bads[label]
        new = {a: b for a, b in {**kw, **changes}.items() if b is not None}
        with unchanged(*Q, t):
            raises(excs, lambda: call(rom, new), label)
    if early:
        compare(tuple(before), tuple(np.array(x) for x in rom.posterior.means), f"means after {label}")
        if label != "states of other rows":     # (which may be found only when fitting starts)
            compare(reg, np.array(rom.model.solver.regularizer), f"regularizer after {label}")
    else:
        check(rom.posterior is None, f"posterior after rejected {label}")
    fresh = make()
    if select(rom) and select(fresh) and np.array_equal(fresh.model.solver.regularizer, rom.model.solver.regularizer):
        for a, b in zip(fresh.posterior.means, rom.posterior.means):
            compare(np.array(a), np.array(b), f"means of a selection after rejected {label}")
    g.tag(label)
    g.nontrivial()


@CHECK.sub(quick=2000, rule="a call was rejected")
def functions(g):
    """Functions and constructors check what they are given."""
    n, k = g.int(2, 6, "n"), g.int(2, 6, "k")
    Q = g.normal((n, k), "Q")
    kk, nn = off_by(g, k, "kk"), off_by(g, n, "nn")
    post, pre, ops = opinf.post, opinf.pre, opinf.operators
    other = np.ones(g.choice([(n, kk), (nn, k), (n,), (1, k), (n, 1), (n, k, 1)], "other"))
    p = g.choice([0, -1, -0.5, -np.inf, [2], (1, 2), np.array([2.0])], "p")
    V = np.linalg.qr(g.normal((n, n), "V"))[0][:, :g.int(1, n, "r")]
    r = g.int(1, 5, "rr")
    X = g.choice(["c", "A", "H", "G", "cA", "AB", "cAHGB", "B"], "form")
    badshape = g.choice([(n, k, 1), (2, n, k)], "bad3")
    size = g.int(2, 60, "size")

    def odd(count):
        """A number of columns that no state dimension has."""
        return next(c for c in range(size, size + 9) if c not in {count(i) for i in range(70)})
    dimensionality = opinf.errors.DimensionalityError
    table = {
        "frobenius_error of other shapes": (lambda: post.frobenius_error(Q, other), ValueError),
        "frobenius_error of vectors": (lambda: post.frobenius_error(Q[0], Q[0]), ValueError),
        "lp_error of other shapes": (lambda: post.lp_error(Q, other), ValueError),
        "lp_error of order": (lambda: post.lp_error(Q, Q, p=p), ValueError),
        "lp_error of tensors": (lambda: post.lp_error(np.ones(badshape), np.ones(badshape)), ValueError),
        "Lp_error of other shapes": (lambda: post.Lp_error(Q, other, np.arange(k)), ValueError),
        "Lp_error of order": (lambda: post.Lp_error(Q, Q, np.arange(k), p=p), ValueError),
        "Lp_error without time": (lambda: post.Lp_error(Q, Q, p=g.choice([1, 2, 0.5], "p2")),
                                  ValueError),
        "Lp_error with other time": (lambda: post.Lp_error(Q, Q, np.arange(kk)), ValueError),
        "Lp_error with 2D time": (lambda: post.Lp_error(Q, Q, np.arange(k).reshape((1, k))), ValueError),
        "Lp_error of tensors": (lambda: post.Lp_error(np.ones(badshape), np.ones(badshape),
                                                      np.arange(badshape[-1])), ValueError),
        "projection_error with misaligned basis": (
            lambda: post.projection_error(g.normal((nn, k), "Qn"), V), ValueError),
        "shift of a vector": (lambda: pre.shift(Q[0]), ValueError),
        "shift by a matrix": (lambda: pre.shift(Q, Q), ValueError),
        "shift by a misaligned vector": (lambda: pre.shift(Q, np.ones(max(nn, 2) if nn != 1 else n + 1)),
                                         ValueError),
        "scale to a wrong interval": (lambda: pre.scale(Q, g.choice([(1,), (1, 2, 3), ()], "to")),
                                      ValueError),
        "scale from a wrong interval": (lambda: pre.scale(Q, (0, 1), g.choice([(1,), (1, 2, 3)], "from")),
                                        ValueError),
        "ShiftTransformer": (lambda: pre.ShiftTransformer(
            g.choice([Q, 1.0, [1.0, 2.0], None], "ref")), TypeError),
        "ScaleTransformer": (lambda: pre.ScaleTransformer(
            g.choice([Q, 0, 0.0, "x", None, np.array([1.0, 0.0]), [1.0]], "scl")), TypeError),
        "ShiftScaleTransformer type": (lambda: pre.ShiftScaleTransformer(
            scaling=g.choice([1, True, ["minmax"], 2.5], "sc")), TypeError),
        "ShiftScaleTransformer value": (lambda: pre.ShiftScaleTransformer(
            scaling=g.choice(["minmaxx", "", "MINMAX", "None"], "sc2")), ValueError),
        "ShiftScaleTransformer byrow": (lambda: pre.ShiftScaleTransformer(
            scaling=g.choice(["maxnorm", "maxnormsym"], "sc3"), byrow=True), ValueError),
        "inconsistent pipeline": (lambda: pre.TransformerPipeline(
            [pre.ShiftTransformer(np.ones(n)), pre.ScaleTransformer(np.ones(nn))]), ValueError),
        "no transformers": (lambda: pre.TransformerMulti([]), ValueError),
        "wrong number of sizes": (lambda: pre.TransformerMulti(
            [pre.ScaleTransformer(2.0)] * 2, variable_sizes=[n] * g.choice([1, 3], "ns")), ValueError),
        "wrong sizes": (lambda: pre.TransformerMulti(
            [pre.ShiftTransformer(np.ones(n)), pre.ScaleTransformer(2.0)], variable_sizes=[nn, n]),
            ValueError),
        "no bases": (lambda: opinf.basis.BasisMulti([]), ValueError),
        "PODBasis max_vectors": (lambda: opinf.basis.PODBasis(
            num_vectors=1, max_vectors=g.choice([0, -3], "mv")), ValueError),
        "LinearBasis weights": (lambda: opinf.basis.LinearBasis(
            V, weights=np.ones((n, n, 1)), check_orthogonality=False), ValueError),
        "LinearBasis misaligned weights": (lambda: opinf.basis.LinearBasis(
            V, weights=np.ones(max(nn, 2) if nn != 1 else n + 1)), Exception),
        "PolynomialLifter": (lambda: opinf.lift.PolynomialLifter(
            g.choice([("1",), (1, "x"), (1, None), ([1],)], "orders")), TypeError),
        "QuadraticLifter unlift": (lambda: opinf.lift.QuadraticLifter.unlift(
            np.ones((2 * n + 1, k))), ValueError),
        "PolynomialLifter unlift": (lambda: opinf.lift.PolynomialLifter((1, 2, 3)).unlift(
            np.ones((3 * n + g.choice([1, 2], "res"), k))), ValueError),
        "constant PolynomialLifter unlift": (lambda: quietly(
            lambda: opinf.lift.PolynomialLifter(0)).unlift(np.ones((n, k))), ZeroDivisionError),
        "ddt without time": (lambda: opinf.ddt.ddt(np.ones((n, 10))), TypeError),
        "lstsq_size": (lambda: opinf.lstsq.lstsq_size(X, r, m=0 if "B" in X else g.int(1, 3, "m")),
                       ValueError),
        "PolynomialOperator": (lambda: ops.PolynomialOperator(
            g.choice([-1, 1.5, "2", None, -2.0], "order")), (ValueError, TypeError)),
        "gridsearch without finite values": (lambda: quietly(lambda: opinf.utils.gridsearch(
            lambda x: np.inf, [0.1, 1.0][:g.int(1, 2, "nc")])), RuntimeError),
        "QuadraticOperator.compress_entries": (lambda: ops.QuadraticOperator.compress_entries(
            np.ones((r, odd(lambda i: i**2)))), ValueError),
        "QuadraticOperator.expand_entries": (lambda: ops.QuadraticOperator.expand_entries(
            np.ones((r, odd(lambda i: i * (i + 1) // 2)))), ValueError),
        "CubicOperator.compress_entries": (lambda: ops.CubicOperator.compress_entries(
            np.ones((r, odd(lambda i: i**3)))), ValueError),
        "CubicOperator.expand_entries": (lambda: ops.CubicOperator.expand_entries(
            np.ones((r, odd(lambda i: i * (i + 1) * (i + 2) // 6)))), ValueError),
        "QuarticOperator.compress_entries": (lambda: ops.QuarticOperator.compress_entries(
            np.ones((r, odd(lambda i: i**4)))), ValueError),
        "QuarticOperator.expand_entries": (lambda: ops.QuarticOperator.expand_entries(
            np.ones((r, odd(lambda i: i * (i + 1) * (i + 2) * (i + 3) // 24)))), ValueError),
    }
    tik = opinf.lstsq.TikhonovSolver
    some = [ops.ConstantOperator(), ops.LinearOperator(), ops.QuadraticOperator()]
    acting = g.choice([ops.InputOperator, ops.StateInputOperator], "acting")()
    wide = np.ones((n, 10))
    one = g.choice([1.0, 0.5], "one")
    table.update({
        "regularizer: number of parameters": (lambda: tik.get_operator_regularizer(
            some, [one] * g.choice([1, 2, 4], "np"), r), ValueError),
        "regularizer: no input dimension": (lambda: tik.get_operator_regularizer(
            some + [acting], [one] * 4, r), ValueError),
        "regularizer: unsupported": (lambda: tik.get_operator_regularizer(
            [some[0], g.choice(["A", 3, ops.LinearOperator, None], "unsupported")], [one] * 2, r),
            TypeError),
        "ddt: two keywords": (lambda: opinf.ddt.ddt(wide, t=np.arange(10.0), order=2), TypeError),
        "ddt: unknown keyword": (lambda: opinf.ddt.ddt(wide, dx=0.1), TypeError),
        "ddt: order alone": (lambda: opinf.ddt.ddt(wide, order=4), TypeError),
        "ddt: too many": (lambda: opinf.ddt.ddt(wide, 0.1, 2, 3), TypeError),
        "ddt: wrong type": (lambda: opinf.ddt.ddt(wide, g.choice(["x", [0.1], None], "dt")),
                            TypeError),
        "ddt_uniform: vector": (lambda: opinf.ddt.ddt_uniform(
            g.choice([wide[0], wide[None]], "nd"), 0.1), dimensionality),
        "ddt_uniform: time step": (lambda: opinf.ddt.ddt_uniform(
            wide, g.choice([np.arange(10.0), np.array([0.1]), [0.1]], "dts")), TypeError),
        "ddt_uniform: order": (lambda: opinf.ddt.ddt_uniform(
            wide, 0.1, order=g.choice([0, 1, 3, 5, 7, 8, "4", None, 2.5, -2], "order")),
            NotImplementedError),
        "ddt_nonuniform: vector": (lambda: opinf.ddt.ddt_nonuniform(
            g.choice([wide[0], wide[None]], "nd"), np.arange(10.0)), dimensionality),
        "ddt_nonuniform: 2D time": (lambda: opinf.ddt.ddt_nonuniform(
            wide, np.ones((n, 10)) * np.arange(10.0)), dimensionality),
        "ddt_nonuniform: time": (lambda: opinf.ddt.ddt_nonuniform(
            wide, np.arange(float(off_by(g, 10, "nt")))), dimensionality),
    })
    label = g.choice(sorted(table), "case")
    fn, excs = table[label]
    with unchanged(Q, V, other, wide):
        quietly(lambda: raises(excs, fn, label))
    g.tag(label)
    g.nontrivial()
