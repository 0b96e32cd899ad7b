"""C16: saving then loading, and copying, preserve behaviour."""
import contextlib
import copy
import hashlib
import os
import pickle
import shutil
import tempfile
import warnings

import h5py
import numpy as np
import opinf
import scipy.interpolate as si
import scipy.sparse as sp

from pbt.runner import Check
from pbt.oracle import Violation, check, raises, same
from checks import c14, gen_basis, gen_lstsq, gen_models, gen_ops, gen_par, gen_pre

CHECK = Check("C16", factor=1.5, hangs="abandoned", assumptions=[
    "behaviour is what the public methods and attributes return on probes; numbers are compared "
    "at 1e-9 relative because storage order may differ",
    "a PODBasis file does not record the SVD routine, so refitting after loading is judged for "
    "the default routine only",
    "loaded interpolatory models do not hold the per-parameter data: refit() is judged on copies",
    "parametric models other than the interpolatory ones have no save()",
])
LoadError = opinf.errors.LoadfileFormatError


# Observing ===================================================================
def view(fn):
    """What a probe sees: a value or the kind of error."""
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            out = fn()
        except Exception as ex:
            return ("raised " + type(ex).__name__,)
    return copy_of(out)


def copy_of(x):
    if hasattr(x, "toarray"):
        return np.array(x.toarray())
    if isinstance(x, np.ndarray):
        return np.array(x)
    if isinstance(x, (list, tuple)):
        return tuple(copy_of(y) for y in x)
    return x


def compare(a, b, msg):
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b)):
            raise Violation(f"{msg}: {b!r} instead of {a!r}"[:300])
        for i, (x, y) in enumerate(zip(a, b)):
            compare(x, y, f"{msg}[{i}]")
        return
    if a is None or b is None or isinstance(a, (str, bytes, type)) or callable(a):
        if type(a) is not type(b) or a != b:
            raise Violation(f"{msg}: {b!r} instead of {a!r}"[:300])
        return
    if isinstance(b, (str, bytes)):
        raise Violation(f"{msg}: {b!r} instead of {a!r}"[:300])
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape or x.dtype.kind.replace("u", "i") != y.dtype.kind.replace("u", "i"):
        raise Violation(f"{msg}: {y.dtype}{y.shape} instead of {x.dtype}{x.shape}")
    if x.dtype.kind not in "fc":
        if not np.array_equal(x, y):
            raise Violation(f"{msg}: {b!r} instead of {a!r}"[:300])
        return
    ok = np.isfinite(x)
    if not np.array_equal(ok, np.isfinite(y)) or not np.array_equal(x[~ok], y[~ok], equal_nan=True):
        raise Violation(f"{msg}: non-finite values differ")
    if x[ok].size:
        tol = 1e-9 * np.abs(x[ok]).max()
        if not np.abs(x[ok] - y[ok]).max() <= tol:
            raise Violation(f"{msg}: differs by {np.abs(x[ok] - y[ok]).max():.2e}")


class Item:
    """One object with ways to store, copy, observe and continue using it."""

    def save(self, obj, target, **kw):
        obj.save(target, **kw)

    def copies(self):
        return ["copy"]

    def copy(self, obj, how):
        if how == "copy":
            return obj.copy()
        return copy.deepcopy(obj) if how == "deepcopy" else pickle.loads(pickle.dumps(obj))

    def load(self, source):
        raise NotImplementedError

    def probes(self, obj):
        raise NotImplementedError

    def actions(self):
        """Ways to continue: (name, function(obj))."""
        return []

    def can(self, action, name):
        return True

    def equality(self, obj):
        """Whether == compares by value."""
        return False

    def probe(self, obj):
        return {name: view(fn) for name, fn in self.probes(obj)}


def agree(item, base, obj, msg):
    now = item.probe(obj)
    for name, val in base.items():
        compare(val, now[name], f"{msg}: {name}")


def quietly(fn):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return fn()


@contextlib.contextmanager
def scratch():
    path = tempfile.mkdtemp(prefix="c16_")
    try:
        yield path
    finally:
        shutil.rmtree(path, ignore_errors=True)


def digest(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def transfer(g, item, src, folder, i, savable):
    """One step: src -> a new object that should be equivalent."""
    hows = item.copies() + (["file", "file", "group"] if savable else [])
    how = g.choice(hows, f"how{i}")
    g.tag(how)
    if how not in ("file", "group"):
        return quietly(lambda: item.copy(src, how)), how
    path = os.path.join(folder, f"f{i}.h5")
    if how == "file":
        if g.rarely(f"replace{i}", 3):        # replaces whatever was there
            with open(path, "wb") as f:
                f.write(b"something else")
            quietly(lambda: item.save(src, path, overwrite=True))
        else:
            quietly(lambda: item.save(src, path))
        check(os.path.isfile(path), "save() did not create the file")
        new = quietly(lambda: item.load(path))
    else:
        with h5py.File(path, "w") as hf:
            gp = hf.create_group("a/b")
            quietly(lambda: item.save(src, gp))
            if g.bool(f"same-session{i}"):
                new = quietly(lambda: item.load(gp))
            else:
                new = None
        if new is None:
            with h5py.File(path, "r") as hf:
                new = quietly(lambda: item.load(hf["a/b"]))
    os.remove(path)
    return new, how


def chain(g, item, obj, savable=True):
    """Equivalents of obj by any chain of saving, loading and copying."""
    base = None if g.bool("untouched") else item.probe(obj)
    pool = [(obj, "original")]
    with scratch() as folder:
        for i in range(g.int(1, 4, "steps")):
            src, name = g.choice(pool, f"src{i}")
            new, how = transfer(g, item, src, folder, i, savable)
            check(new is not src, f"{how} returned the object itself")
            check(type(new) is type(src), f"{how} returned a {type(new).__name__}")
            label = f"{name} > {how}"
            if base is None:
                base = item.probe(obj)
            if item.equality(src):
                check(src == new and new == src, f"{label}: not equal to what it came from")
            agree(item, base, src, f"{name} after {how}")
            agree(item, base, new, label)
            pool.append((new, label))
        acts = item.actions()
        if not acts:
            return
        # any of them can be used further without the others noticing ...
        aname, act = g.choice(acts, "action")
        order = g.perm(len(pool), "order")
        done = []
        want = None
        for j in order[:2]:
            victim, name = pool[j]
            if not item.can(aname, name):
                continue
            result = view(lambda: (act(victim), None)[1])
            after = item.probe(victim)
            if want is None:
                want = (result, after, name)
            else:    # ... and in the same way
                compare(want[0], result, f"{aname} on {name} vs {want[2]}")
                for k, v in want[1].items():
                    compare(v, after[k], f"{aname} on {name} vs {want[2]}: {k}")
            done.append(j)
            for j2, (other, oname) in enumerate(pool):
                if j2 not in done:
                    agree(item, base, other, f"{oname} after {aname} on {name}")
        g.tag("act-" + aname)
        # nothing is shared between the two that went on
        if len(done) == 2 and want is not None:
            for j in done:
                agree(item, want[1], pool[j][0], f"{pool[j][1]} after {aname} twice")


# Transformers ================================================================
class TransformerItem(Item):
    def __init__(self, g):
        self.n = n = g.int(1, 6, "n")
        kind = g.choice(["leaf", "leaf", "leaf", "pipeline", "multi"], "kind")
        self.kind = kind
        self.sizes = None
        self.has_locs = True
        if kind == "leaf":
            lf = gen_pre.leaf(g, n)
        elif kind == "pipeline":
            lf = gen_pre.pipeline(g, n)
        else:
            self.sizes = [g.int(1, 4, "nx")] * g.int(1, 4, "nvars") if g.bool("equal") else \
                [g.int(1, 4, "nx") for _ in range(g.int(1, 4, "nvars"))]
            lf = gen_pre.multi_of(g, self.sizes, nested=False)
            self.n = n = sum(self.sizes)
            self.has_locs = lf.has_locs
        self.obj = lf.tf
        self.learned = lf.learn is not None
        self.trained = g.rarely("untrained", 4) is False
        k = g.int(2, 6, "k")
        self.X = gen_pre.multi_data(g, self.sizes or [n], k, "X")
        self.X2 = gen_pre.multi_data(g, self.sizes or [n], k + 1, "X2")
        self.Y = g.normal((n, 3), "Y")
        self.locs = gen_pre.draw_locs(g, self.sizes[0] if self.sizes else n)
        if lf.learn is None:
            if self.trained:
                quietly(lambda: gen_pre.set_shiftscale(g, self.obj, n))
        elif self.trained:
            quietly(lambda: self.obj.fit_transform(self.X.copy()))
        g.tag(lf.desc.split("(")[0], "trained" if self.trained else "untrained")
        g.nontrivial(self.trained)

    def copies(self):
        return ["deepcopy", "pickle"]

    def load(self, source):
        C = type(self.obj)
        if self.kind == "leaf":
            return C.load(source)
        classes = [type(t) for t in self.obj.transformers]
        if self.kind == "multi" and len(set(classes)) == 1:
            classes = classes[0]
        return C.load(source, classes)

    def probes(self, o):
        Y = self.Y
        out = [("state_dimension", lambda: o.state_dimension), ("str", lambda: str(o))]
        for a in ("name", "centering", "scaling", "byrow", "verbose", "mean_", "scale_", "shift_",
                  "reference", "scaler", "num_transformers", "num_variables", "variable_names",
                  "variable_sizes"):
            if hasattr(o, a):
                out.append((a, lambda a=a: as_plain(getattr(o, a))))
        for m in ("transform", "inverse_transform", "transform_ddts"):
            out.append((m, lambda m=m: getattr(o, m)(Y.copy())))
            out.append((m + " vector", lambda m=m: getattr(o, m)(Y[:, 0].copy())))
        out.append(("wrong rows", lambda: o.transform(np.ones((self.n + 1, 2)))))
        if self.has_locs:
            def at():
                Z = o.transform(Y.copy())
                rows = np.concatenate([Z[j * self.n // nv:(j + 1) * self.n // nv][self.locs]
                                       for j in range(nv)])
                return o.inverse_transform(rows, locs=self.locs)
            nv = len(self.sizes) if self.sizes else 1
            out.append(("locs", at))
        return out

    def equality(self, o):
        return isinstance(o, opinf.pre.ShiftScaleTransformer)

    def actions(self):
        return [("fit_transform", lambda o: o.fit_transform(self.X2.copy())),
                ("fit", lambda o: o.fit(self.X2.copy()))]


def diagonal(w):
    """Vectors of weights stand for diagonal matrices."""
    return np.diag(w) if isinstance(w, np.ndarray) and w.ndim == 1 else w


def as_plain(x):
    return x.item() if isinstance(x, (np.bool_, np.integer, np.str_)) else x


@CHECK.sub(quick=1200, rule="trained")
def transformers(g):
    """Save/load/copy chains of transformers."""
    item = quietly(lambda: TransformerItem(g))
    chain(g, item, item.obj)


# Bases =======================================================================
class BasisItem(Item):
    def __init__(self, g):
        kind = g.choice(["linear", "pod", "pod", "multi"], "kind")
        self.kind = kind
        if kind == "multi":
            self.parts = [SingleBasis(g, n=None, sub=f"b{i}") for i in range(g.int(1, 3, "nvars"))]
            self.obj = quietly(lambda: opinf.basis.BasisMulti(
                [p.obj for p in self.parts], [p.n for p in self.parts]))
            self.n = sum(p.n for p in self.parts)
            self.trained = all(p.trained for p in self.parts)
            self.X2 = np.concatenate([p.X2[:, :6] for p in self.parts])
        else:
            p = SingleBasis(g, kind=kind)
            self.parts = [p]
            self.obj, self.n, self.trained, self.X2 = p.obj, p.n, p.trained, p.X2
        self.Y = g.normal((self.n, 3), "Y")
        g.tag(kind, "trained" if self.trained else "untrained")
        g.nontrivial(self.trained)

    def copies(self):
        return (["copy"] if hasattr(self.obj, "copy") else []) + ["deepcopy"]

    def load(self, source):
        if self.kind != "multi":
            return type(self.obj).load(source)
        classes = [type(b) for b in self.obj.bases]
        return opinf.basis.BasisMulti.load(
            source, classes[0] if len(set(classes)) == 1 else classes)

    def probes(self, o):
        Y = self.Y
        out = [(a, lambda a=a: as_plain(getattr(o, a))) for a in (
            "name", "full_state_dimension", "reduced_state_dimension", "shape",
            "entries", "num_variables", "variable_names", "full_variable_sizes",
            "reduced_variable_sizes", "leftvecs", "svdvals", "rightvecs", "max_vectors",
            "residual_energy", "cumulative_energy") if hasattr(type(o), a) or hasattr(o, a)]
        if self.kind != "multi":
            out.append(("weights", lambda: diagonal(o.weights)))
        if self.kind == "linear":
            out.append(("str", lambda: str(o)))
        out += [("compress", lambda: o.compress(Y)), ("compress1", lambda: o.compress(Y[:, 0])),
                ("decompress", lambda: o.decompress(o.compress(Y))),
                ("project", lambda: o.project(Y)),
                ("projection_error", lambda: o.projection_error(Y)),
                ("wrong rows", lambda: o.compress(np.ones((self.n + 1, 2))))]
        if self.kind != "multi":
            out.append(("locs", lambda: o.decompress(o.compress(Y), locs=[self.n - 1, 0])))
        return out

    def equality(self, o):
        return self.trained

    def actions(self):
        if self.kind == "linear":
            return []
        acts = [("fit", lambda o: o.fit(self.X2.copy()))] \
            if all(p.solver == "dense" for p in self.parts) else []
        if self.kind == "pod":
            acts += [("set_dimension", lambda o: o.set_dimension(num_vectors=1)),
                     ("set_energy", lambda o: o.set_dimension(cumulative_energy=0.9)),
                     ("reduced_state_dimension",
                      lambda o: setattr(o, "reduced_state_dimension", 2))]
        return acts


class SingleBasis:
    def __init__(self, g, n=None, kind=None, sub=""):
        kind = kind or g.choice(["linear", "pod"], sub + "kind")
        self.n = n = n or g.int(2, 7, sub + "n")
        name = g.choice([None, "modes", "u v"], sub + "name")
        if sub and name:
            name += sub
        self.trained, self.solver = True, "dense"
        self.X2 = g.normal((n, 9), sub + "X2")
        if kind == "linear":
            self.obj = gen_basis.linear_basis(g, n, g.int(1, n, sub + "r"), name=name,
                                              wkinds=("none", "vector", "dense", "sparse",
                                                      "tridiag"))[0]
            return
        w, W, _ = gen_basis.weights(g, n, ("none", "none", "vector", "dense", "sparse",
                                           "tridiag"))
        X = gen_basis.snapshots(g, n, g.int(3, 9, sub + "k"), W)[0]
        crit = g.choice([{"num_vectors": 2}, {"num_vectors": n}, {"cumulative_energy": 0.95},
                         {"residual_energy": 1e-3}, {"svdval_threshold": 0.1},
                         {"projection_error": 0.1}], sub + "crit")
        self.solver = g.choice(["dense", "dense", "dense", "method-of-snapshots"], sub + "solver")
        if self.solver != "dense" and W is not None and not isinstance(w, np.ndarray):
            self.solver = "dense"
        mv = g.choice([None, None, 1, 2, 3], sub + "max")
        self.obj = opinf.basis.PODBasis(weights=w, name=name, max_vectors=mv,
                                        svdsolver=self.solver, **crit)
        self.trained = not g.rarely(sub + "untrained", 4)
        if self.trained:
            self.obj.fit(X)
            if g.rarely(sub + "setdim", 4):
                self.obj.set_dimension(num_vectors=g.int(1, 2, sub + "newdim"))
        elif g.bool(sub + "preset"):
            self.obj.reduced_state_dimension = 2


@CHECK.sub(quick=900, rule="trained")
def bases(g):
    """Save/load/copy chains of bases."""
    item = quietly(lambda: BasisItem(g))
    chain(g, item, item.obj)


@CHECK.sub(quick=300, rule="fewer vectors are loaded than stored")
def pod_max_vectors(g):
    """PODBasis.load(max_vectors) keeps the leading vectors."""
    b = quietly(lambda: SingleBasis(g, kind="pod"))
    if not b.trained:
        return
    o = b.obj
    mv = g.int(1, b.n + 1, "load_max")
    with scratch() as folder:
        path = os.path.join(folder, "b.h5")
        quietly(lambda: o.save(path))
        new = quietly(lambda: opinf.basis.PODBasis.load(path, max_vectors=mv))
    keep = min(mv, o.max_vectors)
    compare(o.leftvecs[:, :keep], new.leftvecs, "leftvecs")
    compare(o.svdvals, new.svdvals, "svdvals")
    check(new.max_vectors == keep, "max_vectors")
    r = min(keep, o.reduced_state_dimension)
    check(new.reduced_state_dimension == r, f"reduced dimension {new.reduced_state_dimension}")
    compare(o.leftvecs[:, :r], new.entries, "entries")
    g.nontrivial(keep < o.max_vectors)


# Operators ===================================================================
class OperatorItem(Item):
    def __init__(self, g):
        kind = g.choice("cAAHGQBNP", "kind")
        self.kind = kind
        self.r = r = gen_ops.dims(g, kind) if kind != "P" else g.int(1, 3, "r")
        self.m = m = g.int(1, 3, "m")
        p = g.int(0, 4, "order") if kind == "P" else None
        arg, self.ref = gen_ops.entries_of(g, kind, r, m, p=p)
        arg2 = gen_ops.entries_of(g, kind, r, m, label="E2", p=p)[0]
        self.arg2 = arg2
        make = (lambda *a: opinf.operators.PolynomialOperator(p, *a)) if kind == "P" else \
            gen_ops.CLASSES[kind]
        self.trained = not g.rarely("untrained", 5)
        self.obj = make(arg) if self.trained else make()
        self.q, self.u = g.normal(r, "q"), g.normal(m, "u")
        g.tag(kind, "sparse" if hasattr(arg, "toarray") else "dense")
        g.nontrivial(self.trained)

    def copies(self):
        return ["copy", "deepcopy"]

    def load(self, source):
        return type(self.obj).load(source)

    def probes(self, o):
        Q, U = np.outer(self.q, [1, 2.0]), np.outer(self.u, [1, -1.0])
        out = [(a, lambda a=a: getattr(o, a)) for a in (
            "entries", "shape", "state_dimension", "input_dimension", "polynomial_order")
            if hasattr(type(o), a) or hasattr(o, a)]
        out += [("sparse", lambda: getattr(o.entries, "format", "dense")),
                ("str", lambda: str(o)),
                ("apply", lambda: o.apply(self.q, self.u)),
                ("apply2", lambda: o.apply(Q, U)),
                ("jacobian", lambda: o.jacobian(self.q, self.u)),
                ("galerkin", lambda: o.galerkin(np.eye(self.r)[:, :1]).entries)]
        return out

    def equality(self, o):
        return True

    def actions(self):
        def scale(o):
            if isinstance(o.entries, np.ndarray):
                o.entries[:] = 2 * o.entries
        return [("set_entries", lambda o: o.set_entries(self.arg2)),
                ("in-place", scale)]


@CHECK.sub(quick=1200, rule="with entries")
def operators(g):
    """Save/load/copy chains of nonparametric operators."""
    item = OperatorItem(g)
    chain(g, item, item.obj)


class MyInterpolator(si.CubicSpline):
    """A user-defined interpolator (not in scipy.interpolate)."""

    def __init__(self, x, y):
        x, y = np.asarray(x), np.asarray(y)
        order = np.argsort(x)
        super().__init__(x[order], y[order])


class ParametricItem(Item):
    def __init__(self, g):
        self.affine = g.bool("affine")
        self.custom = False
        self.trained = not g.rarely("untrained", 5)
        if self.affine:
            self.obj, ref, (self.arg, self.kw, args) = gen_par.affine(g, with_entries=self.trained)
            p = ref.p
            self.mus = [np.atleast_1d(g.uniform(-2, 2, p, f"mu{i}")) for i in range(2)]
            self.again = [np.array(R.coef[:, 0] if ref.kind == "c" else R.coef) + 1.0
                          for R in ref.refs]
        else:
            self.obj, ref, (params, args, Class) = gen_par.interp(g)
            if params.ndim == 1 and g.rarely("custom", 4):
                self.custom, Class = True, MyInterpolator
            state = "trained" if self.trained else g.choice(["empty", "points"], "state")
            if state == "trained":
                self.obj = type(self.obj)(params, args, InterpolatorClass=Class)
            elif state == "points":
                self.obj = type(self.obj)(params, InterpolatorClass=Class)
            else:
                self.obj = type(self.obj)(InterpolatorClass=Class)
            self.params = params
            self.mus = [gen_par.draw_inside(g, params, f"mu{i}") for i in range(2)]
            self.again = [np.array(R.coef[:, 0] if ref.kind == "c" else R.coef) + 1.0
                          for R in ref.refs]
        self.q, self.u = g.normal(ref.r, "q"), g.normal(ref.m, "u")
        g.tag(ref.kind, "affine" if self.affine else "interp", "custom" if self.custom else "")
        g.nontrivial(self.trained)

    def load(self, source):
        C = type(self.obj)
        if self.affine:
            return C.load(source, self.arg)
        return C.load(source, MyInterpolator) if self.custom else C.load(source)

    def probes(self, o):
        # (some dimensions are settled by the first evaluation)
        attrs = [(a, lambda a=a: as_plain(getattr(o, a))) for a in (
            "entries", "shape", "state_dimension", "input_dimension", "parameter_dimension",
            "nterms", "training_parameters") if hasattr(type(o), a) or hasattr(o, a)]
        out = []
        for i, mu in enumerate(self.mus):
            out += [(f"evaluate{i}", lambda mu=mu: gen_ops.dense(o.evaluate(mu).entries)),
                    (f"apply{i}", lambda mu=mu: o.apply(mu, self.q, self.u)),
                    (f"jacobian{i}", lambda mu=mu: o.jacobian(mu, self.q, self.u))]
        return out + attrs + [("str", lambda: str(o))]

    def equality(self, o):
        return not self.affine

    def actions(self):
        def entries(o):
            if not self.affine and o.training_parameters is None:
                o.set_training_parameters(self.params)
            o.set_entries([A.copy() for A in self.again])

        def scale(o):
            for A in (o.entries if o.entries is not None else []):
                if isinstance(A, np.ndarray):
                    A[:] = 2 * A
        acts = [("set_entries", entries)]
        if self.affine:     # interpolators hold on to what they were built from
            acts.append(("in-place", scale))
        return acts


@CHECK.sub(quick=900, rule="with entries")
def parametric_operators(g):
    """Save/load/copy chains of affine and interpolatory operators."""
    item = quietly(lambda: ParametricItem(g))
    chain(g, item, item.obj)


# Solvers =====================================================================
class SolverItem(Item):
    def __init__(self, g):
        self.kind = kind = g.choice(gen_lstsq.KINDS, "kind")
        self.pb = pb = gen_lstsq.problem(g, shape="tall", deficient=False)
        self.pb2 = gen_lstsq.problem(g, r=pb.r, d=pb.d, shape="tall", deficient=False, label="pb2")
        if kind == "tls" and min(pb.k, self.pb2.k) <= pb.d + pb.r:    # not enough data for it
            self.kind = kind = "plain"
        self.set = gen_lstsq.setting(g, kind, pb.r, pb.d)
        self.set2 = gen_lstsq.setting(g, kind, pb.r, pb.d, label="set2")
        if kind == "tsvd":
            self.set.modes = g.choice([None, 1, pb.d, -1], "modes")
            if pb.d == 1 and self.set.modes == -1:
                self.set.modes = None
        reg = not g.rarely("noreg", 6)
        if self.kind in ("plain", "tik", "tikdec") and g.rarely("cond", 3):
            self.set.options["cond"] = g.choice([1e-12, 0.05, 0.3], "cond value")
        self.obj = self.set.make(with_reg=reg)
        self.trained = not g.rarely("untrained", 4)
        if self.trained:
            self.obj.fit(pb.D, pb.Z)
        self.O = g.normal((pb.r, pb.d), "O")
        g.tag(kind, "trained" if self.trained else "untrained")
        g.nontrivial(self.trained)

    def load(self, source):
        return type(self.obj).load(source)

    def probes(self, o):
        def get(a):
            v = getattr(o, a)
            return v() if callable(v) else v

        def regs():
            v = o.regularizer
            return v if v is None or np.isscalar(v) else np.array(v)
        out = [(a, lambda a=a: get(a)) for a in (
            "data_matrix", "lhs_matrix", "r", "d", "k", "solve", "cond", "posterior", "regcond",
            "tcond", "num_svdmodes", "max_modes", "error", "augcond", "method", "svdvals")
            if hasattr(type(o), a)]
        out += [("residual", lambda: o.residual(self.O)),
                ("options", lambda: sorted((k, v) for k, v in dict(o.options).items()))]
        if hasattr(type(o), "regularizer"):
            out += [("regularizer", regs), ("regresidual", lambda: o.regresidual(self.O))]
        if "cond" not in self.set.options:
            out.append(("str", lambda: str(o)))
        return out

    def actions(self):
        acts = [("fit", lambda o: o.fit(self.pb2.D, self.pb2.Z)), ("reset", lambda o: o.reset())]
        if self.kind in gen_lstsq.REGULARIZED:
            acts.append(("regularizer", lambda o: setattr(o, "regularizer", self.set2.arg)))
        if self.kind in ("l2dec", "tik", "tikdec"):
            def scale(o):
                R = o.regularizer
                if R is None:
                    return
                if self.kind == "l2dec":
                    R[0] = 3.0
                else:
                    R[0][:] = 2 * R[0]
            acts.append(("in-place", scale))
        if self.kind in ("tik", "tikdec"):
            acts.append(("method", lambda o: setattr(o, "method", self.set2.method)))
        if self.kind == "tsvd":
            acts.append(("num_svdmodes", lambda o: setattr(o, "num_svdmodes", 1)))
        return acts


@CHECK.sub(quick=900, rule="trained")
def solvers(g):
    """Save/load/copy chains of least-squares solvers."""
    item = quietly(lambda: SolverItem(g))
    chain(g, item, item.obj)


# Posteriors ==================================================================
class PosteriorItem(Item):
    def __init__(self, g):
        r = g.int(1, 4, "r")
        ds = [g.int(1, 5, "d")] * r if g.bool("equal") else [g.int(1, 5, f"d{i}") for i in range(r)]
        means = [g.normal(d, f"mean{i}") for i, d in enumerate(ds)]
        covs = []
        for i, d in enumerate(ds):
            A = g.normal((d, d), f"cov{i}")
            covs.append(A @ A.T + np.eye(d) * 10.0 ** g.int(-2, 1, f"size{i}"))
        self.obj = opinf.roms.OperatorPosterior(means, covs, alreadyinverted=g.bool("inverted"))
        self.seed = g.seed("draws")
        g.nontrivial(r > 1)

    def copies(self):
        return ["deepcopy"]

    def load(self, source):
        return type(self.obj).load(source)

    def probes(self, o):
        def draw():
            state = np.random.get_state()
            try:
                np.random.seed(self.seed)
                return tuple(np.abs(np.asarray(x)).shape for x in o.rvs())
            finally:
                np.random.set_state(state)

        def logpdf():
            return tuple(rv.logpdf(rv.mean + 0.1) for rv in o.randomvariables)
        return [("nrows", lambda: o.nrows), ("means", lambda: tuple(o.means)),
                ("covs", lambda: tuple(o.covs)), ("draw", draw), ("logpdf", logpdf)]

    def equality(self, o):
        return True


@CHECK.sub(quick=200, rule="at least two rows")
def posteriors(g):
    """Save/load/copy chains of operator posteriors."""
    item = PosteriorItem(g)
    chain(g, item, item.obj)


# Models ======================================================================
class ModelItem(Item):
    CLASSES = {"discrete": opinf.models.DiscreteModel,
               "continuous": opinf.models.ContinuousModel}

    def __init__(self, g, custom=False):
        self.form = g.choice(sorted(self.CLASSES), "form")
        st = gen_models.structure(g, custom=custom)
        self.st = st
        self.Q, self.U = gen_models.samples(g, st)
        self.Q2, self.U2 = gen_models.samples(g, st, label="data2")
        rng = g.rng("noise")
        self.Z = st.rhs(self.Q, self.U) + 0.01 * rng.standard_normal(self.Q.shape)
        self.Z2 = st.rhs(self.Q2, self.U2) + 0.01 * rng.standard_normal(self.Q2.shape)
        if not st.inputs:
            self.U = self.U2 = None
        self.intrusive = all(st.known)
        solver = None
        self.skind = g.choice(("none",) + gen_lstsq.KINDS, "solver")
        if self.skind != "none" and not self.intrusive:
            s = gen_lstsq.setting(g, self.skind, st.r, st.d)
            solver = s.make()
        self.obj = self.CLASSES[self.form](
            [gen_models.build(R, k) for R, k in zip(st.refs, st.known)],
            **({} if solver is None else {"solver": solver}))
        self.trained = not g.rarely("untrained", 4)
        if self.trained:
            self.obj.fit(self.Q, self.Z, *([] if self.U is None else [self.U]))
        self.q, self.u = g.normal(st.r, "q"), g.normal(st.m, "u")
        g.tag(self.form, self.skind, "trained" if self.trained else "untrained")
        g.nontrivial(self.trained and not self.intrusive)

    def load(self, source):
        return type(self.obj).load(source)

    def probes(self, o):
        st = self.st
        u = self.u if st.inputs else None
        out = [(a, lambda a=a: as_plain(getattr(o, a))) for a in (
            "state_dimension", "input_dimension", "operator_matrix", "operator_matrix_dimension")]
        args = (self.q, u)
        if self.form == "continuous":
            args = (0.3, self.q, (lambda t: self.u) if st.inputs else None)
        out += [("rhs", lambda: o.rhs(*args)), ("jacobian", lambda: o.jacobian(*args)),
                ("str", lambda: str(o)),
                ("operators", lambda: tuple(gen_ops.dense(x.entries) for x in o.operators
                                            if getattr(x, "entries", None) is not None)),
                ("kinds", lambda: tuple(type(x).__name__ for x in o.operators)),
                ("solver", lambda: type(o.solver).__name__),
                ("solve", lambda: o.solver.solve())]
        if self.form == "discrete":
            U = None if not st.inputs else np.tile(self.u[:, None], (1, 4))
            out.append(("predict", lambda: o.predict(0.1 * self.q, 4, U)))
        return out

    def equality(self, o):
        return self.trained and not any(R.kind == "sin" for R in self.st.refs)

    def actions(self):
        a2 = [] if self.U2 is None else [self.U2]
        acts = [("fit", lambda o: o.fit(self.Q2, self.Z2, *a2)), ("refit", lambda o: o.refit()),
                ("solver", lambda o: setattr(o, "solver", opinf.lstsq.L2Solver(0.5))),
                ("solver+fit", lambda o: (setattr(o, "solver", opinf.lstsq.L2Solver(0.5)),
                                          o.fit(self.Q2, self.Z2, *a2)))]
        if self.skind in gen_lstsq.REGULARIZED and not self.intrusive:
            def reg(o):
                R = o.solver.regularizer
                o.solver.regularizer = 2 * R if not isinstance(R, list) else [2 * x for x in R]
            acts.append(("regularizer+refit", lambda o: (reg(o), o.refit())))

        def inplace(o):
            for op in o.operators:
                if isinstance(getattr(op, "entries", None), np.ndarray):
                    op.entries[...] *= 2
        acts.append(("in-place", inplace))
        return acts


@CHECK.sub(quick=700, rule="trained with learned operators")
def models(g):
    """Save/load/copy chains of nonparametric models."""
    custom = g.rarely("custom", 5)
    item = quietly(lambda: ModelItem(g, custom))
    savable = not any(R.kind == "sin" for R in item.st.refs)
    chain(g, item, item.obj, savable=savable)


class InterpModelItem(Item):
    def __init__(self, g):
        p = g.choice([1, 1, 2], "p")
        self.params = params = gen_par.training_points(g, p, g.int(3, 5, "s"))
        self.flavour = g.choice(["Interp", "Interp", "Parametric"], "flavour")
        self.discrete = g.bool("discrete")
        ts, r, m = c14.terms(g, self.flavour, params)
        self.ts, self.r, self.m = ts, r, m
        self.inputs = any(T.takes_input for T in ts)
        mus = list(params)
        self.mus = mus
        self.Qs, self.Us = c14.data(g, ts, mus, r, m)
        self.Q2s, self.U2s = c14.data(g, ts, mus, r, m, label="data2")
        rng = g.rng("noise")

        def lhs(Qs, Us):
            return [c14.total(ts, mu, Q, U) + 0.01 * rng.standard_normal(Q.shape)
                    for mu, Q, U in zip(mus, Qs, Us)]
        self.Zs, self.Z2s = lhs(self.Qs, self.Us), lhs(self.Q2s, self.U2s)
        if not self.inputs:
            self.Us = self.U2s = None
        self.level = None
        kw = {}
        if self.flavour == "Interp" and g.rarely("model-class", 3):
            self.level = g.choice([si.CubicSpline, si.PchipInterpolator, MyInterpolator]
                                  if p == 1 else [si.NearestNDInterpolator, si.LinearNDInterpolator],
                                  "level")
            kw["InterpolatorClass"] = self.level
        name = self.flavour + ("Discrete" if self.discrete else "Continuous") + "Model"
        self.reg = float(g.uniform(0.01, 1.0, None, "reg"))
        if g.bool("l2"):
            kw["solver"] = opinf.lstsq.L2Solver(self.reg)
        Class = getattr(opinf.models, name)
        if self.flavour == "Interp" and g.rarely("deprecated-name", 5):
            Class = gen_par.renamed(opinf.models, Class)
        self.obj = Class([T.operator() for T in ts], **kw)
        self.trained = not g.rarely("untrained", 4)
        self.fitargs = [params, self.Qs, self.Zs] + ([] if self.Us is None else [self.Us])
        self.fitargs2 = [params, self.Q2s, self.Z2s] + ([] if self.U2s is None else [self.U2s])
        if self.trained:
            self.obj.fit(*self.fitargs)
        self.probe_mus = [gen_par.draw_inside(g, params, f"mu{i}") for i in range(2)]
        self.q, self.u = g.normal(r, "q"), g.normal(m, "u")
        g.tag(self.flavour, "trained" if self.trained else "untrained",
              "level" if self.level else "")
        g.nontrivial(self.trained)

    def load(self, source):
        args = (MyInterpolator,) if self.level is MyInterpolator else ()
        return type(self.obj).load(source, *args)

    def probes(self, o):
        out = [(a, lambda a=a: as_plain(getattr(o, a))) for a in (
            "state_dimension", "input_dimension", "parameter_dimension")]
        u = self.u if self.inputs else None
        args = (self.q, u) if self.discrete else (0.3, self.q, (lambda t: self.u)
                                                  if self.inputs else None)
        for i, mu in enumerate(self.probe_mus):
            if self.discrete:
                out.append((f"rhs{i}", lambda mu=mu: o.rhs(mu, *args)))
                out.append((f"jacobian{i}", lambda mu=mu: o.jacobian(mu, *args)))
            else:
                out.append((f"rhs{i}", lambda mu=mu: o.rhs(args[0], mu, *args[1:])))
                out.append((f"jacobian{i}", lambda mu=mu: o.jacobian(args[0], mu, *args[1:])))
            out.append((f"evaluate{i}", lambda mu=mu: tuple(
                gen_ops.dense(x.entries) for x in o.evaluate(mu).operators)))
        out += [("kinds", lambda: tuple(type(x).__name__ for x in o.operators)),
                ("entries", lambda: tuple(tuple(gen_ops.dense(A) for A in x.entries)
                                          for x in o.operators
                                          if getattr(x, "entries", None) is not None)),
                ("solver", lambda: (type(o.solver).__name__,
                                    getattr(o.solver, "regularizer", None)))]
        if self.flavour == "Interp":
            out.append(("class", lambda: tuple(
                getattr(x, "_InterpolatorClass", None) for x in o.operators)))
        return out

    def equality(self, o):
        return self.trained and self.flavour == "Interp"

    def actions(self):
        acts = [("fit", lambda o: o.fit(*self.fitargs2)),
                ("solver+fit", lambda o: (setattr(o, "solver", opinf.lstsq.L2Solver(0.5)),
                                          o.fit(*self.fitargs2))),
                ("refit", lambda o: o.refit())]
        return acts

    def can(self, action, name):
        return action != "refit" or not ("file" in name or "group" in name)


@CHECK.sub(quick=350, rule="trained")
def parametric_models(g):
    """Save/load/copy chains of parametric models."""
    item = quietly(lambda: InterpModelItem(g))
    chain(g, item, item.obj, savable=item.flavour == "Interp")


# Files =======================================================================
ITEMS = {"transformer": TransformerItem, "basis": BasisItem, "operator": OperatorItem,
         "parametric": ParametricItem, "solver": SolverItem, "posterior": PosteriorItem,
         "model": ModelItem, "interpmodel": InterpModelItem}


def draw_item(g):
    kind = g.choice(sorted(ITEMS), "item")
    item = quietly(lambda: ITEMS[kind](g))
    if kind == "model" and any(R.kind == "sin" for R in item.st.refs):
        return None, kind
    if kind == "interpmodel" and item.flavour != "Interp":
        return None, kind
    return item, kind


@CHECK.sub(quick=500, rule="an existing file is protected or replaced")
def files(g):
    """Existing files, missing files, file names, several objects in one file."""
    item, kind = draw_item(g)
    if item is None:
        return
    g.tag("item-" + kind)
    o = item.obj
    base = item.probe(o)
    with scratch() as folder:
        path = os.path.join(folder, g.choice(["a.h5", "some name.h5", "x.y.h5"], "filename"))
        raises(FileNotFoundError, lambda: quietly(lambda: item.load(path)), "missing file")
        check(not os.path.exists(path), "load() created the file")
        junk = g.choice(["text", "other", "same"], "existing")
        if junk == "text":
            with open(path, "wb") as f:
                f.write(b"precious")
        elif junk == "other":
            opinf.operators.ConstantOperator(np.arange(3.0)).save(path)
        else:
            quietly(lambda: item.save(o, path))
        before = digest(path)
        kw = {"overwrite": False} if kind == "posterior" or g.bool("explicit") else {}
        raises(FileExistsError, lambda: quietly(lambda: item.save(o, path, **kw)),
               "existing file")
        check(digest(path) == before, "the existing file was changed")
        check(sorted(os.listdir(folder)) == [os.path.basename(path)], "stray files")
        agree(item, base, o, "after the rejected save()")
        quietly(lambda: item.save(o, path, overwrite=True))
        new = quietly(lambda: item.load(path))
        agree(item, base, new, "after overwriting")
        agree(item, base, o, "saved object")
        after = digest(path)
        item.probe(new)
        check(digest(path) == after, "using the loaded object changed the file")
        # an unusual extension warns, and is the name that is used
        odd = os.path.join(folder, "model.dat")
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            item.save(o, odd)
        check(any(issubclass(w.category, opinf.errors.OpInfWarning) for w in ws),
              "no warning about the file extension")
        agree(item, base, quietly(lambda: item.load(odd)), "other extension")
        # two objects in one file
        with h5py.File(os.path.join(folder, "two.h5"), "w") as hf:
            opinf.operators.LinearOperator(np.eye(2)).save(hf.create_group("one"))
            quietly(lambda: item.save(o, hf.create_group("two")))
            agree(item, base, quietly(lambda: item.load(hf["two"])), "second object of a file")
            compare(np.eye(2), opinf.operators.LinearOperator.load(hf["one"]).entries,
                    "first object of a file")
    g.nontrivial()


def pieces(hf):
    out = []

    def visit(name, obj):
        out.append(name)
    hf.visititems(visit)
    return out


@CHECK.sub(quick=500, rule="a piece was missing or of another kind")
def faults(g):
    """Empty files, missing pieces, other classes, wrong numbers of classes."""
    item, kind = draw_item(g)
    if item is None:
        return
    g.tag("item-" + kind)
    o = item.obj
    fault = g.choice(["empty", "piece", "attribute", "class", "count"], "fault")
    with scratch() as folder:
        path = os.path.join(folder, "f.h5")
        if fault == "empty":
            with h5py.File(path, "w"):
                pass
            raises(LoadError, lambda: quietly(lambda: item.load(path)), "empty file")
        elif fault in ("piece", "attribute"):
            quietly(lambda: item.save(o, path))
            with h5py.File(path, "r+") as hf:
                if fault == "piece":
                    name = g.choice(sorted(pieces(hf)), "piece")
                    del hf[name]
                else:
                    names = sorted((n, a) for n in pieces(hf) for a in hf[n].attrs)
                    if not names:
                        return
                    n, a = g.choice(names, "attribute")
                    del hf[n].attrs[a]
            # either it was optional or the file is rejected in the documented way
            try:
                quietly(lambda: item.load(path))
            except LoadError:
                pass
            # the file on disk is closed and can be replaced
            quietly(lambda: item.save(o, path, overwrite=True))
            agree(item, item.probe(o), quietly(lambda: item.load(path)), "after replacing")
        elif fault == "class":
            if kind not in ("operator", "parametric"):
                return
            quietly(lambda: item.save(o, path))
            pool = [C for C in list(gen_ops.CLASSES.values())
                    + [opinf.operators.PolynomialOperator] if C is not type(o)]
            par = [C for C in list(gen_par.INTERP.values()) if C is not type(o)]
            aff = [C for C in list(gen_par.AFFINE.values()) if C is not type(o)]
            C = g.choice(pool + par + aff, "other")
            args = (lambda mu: [1.0],) if C in aff else ()
            raises(LoadError, lambda: quietly(lambda: C.load(path, *args)),
                   f"{C.__name__}.load() of a {type(o).__name__}")
            # ... also by group
            with h5py.File(path, "r") as hf:
                raises((LoadError, TypeError), lambda: quietly(lambda: C.load(hf, *args)),
                       "by group")
        else:
            if kind == "transformer" and item.kind in ("pipeline", "multi"):
                parts = [type(t) for t in o.transformers]
            elif kind == "basis" and item.kind == "multi":
                parts = [type(b) for b in o.bases]
            else:
                return
            quietly(lambda: item.save(o, path))
            bad = parts[:-1] if g.bool("fewer") else parts + [parts[-1]]
            raises(LoadError, lambda: quietly(lambda: type(o).load(path, bad)),
                   f"{len(bad)} classes for {len(parts)} parts")
    g.nontrivial()


@CHECK.sub(quick=500, rule="at least one explicit entry and not square")
def sparse_arrays(g):
    """save_sparray() then load_sparray(): same array, same format, same shape."""
    m, n = g.int(1, 6, "m"), g.int(1, 6, "n")
    A = np.where(g.uniform(0, 1, (m, n), "mask") < g.float(0, 1, "density"), g.normal((m, n), "A"), 0)
    dtype = g.choice([float, float, int, np.float32, complex], "dtype")
    A = (10 * A).astype(dtype)
    fmt = g.choice(["csr", "csc", "coo", "lil", "dok", "dia", "bsr"], "format")
    S = getattr(sp.coo_array(A), "to" + fmt)()
    if fmt == "csr" and g.bool("explicit zeros") and S.nnz:
        S.data[0] = 0
    if fmt == "coo" and S.nnz and g.bool("duplicates"):
        S = sp.coo_array((np.r_[S.data, S.data], (np.r_[S.row, S.row], np.r_[S.col, S.col])),
                         shape=S.shape)
    D = S.toarray()
    group = g.bool("group")
    with scratch() as d:
        path = os.path.join(d, "a.h5")
        with h5py.File(path, "w") as hf:
            quietly(lambda: opinf.utils.save_sparray(hf.create_group("x") if group else hf, S))
        same(S.toarray(), D, "save_sparray() changed the array")
        with h5py.File(path, "r") as hf:
            T = quietly(lambda: opinf.utils.load_sparray(hf["x"] if group else hf))
    check(sp.issparse(T) and isinstance(T, sp.sparray), f"load_sparray() gives {type(T).__name__}")
    check(T.format == fmt, f"{fmt} loaded as {T.format}")
    check(T.shape == (m, n), f"shape {T.shape} != {(m, n)}")
    check(T.dtype == S.dtype, f"dtype {T.dtype} != {S.dtype}")
    same(T.toarray(), D, "loaded entries")
    g.tag(fmt)
    g.nontrivial(m != n and np.any(D))
