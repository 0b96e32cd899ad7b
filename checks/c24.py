"""C24: equality (==) agrees with behaviour."""
import copy
import numpy as np
import opinf
import scipy.interpolate as si
import scipy.sparse as sparse

from pbt.runner import Check
from pbt.oracle import Violation, check
from checks import c16, gen_lstsq, gen_models, gen_ops, gen_par, gen_pre
from checks.c16 import quietly, scratch, view

CHECK = Check("C24", assumptions=[
    "names, descriptions, verbosity, solvers, and the singular values behind a basis are not part "
    "of what == compares",
    "the library compares some arrays up to rounding (1e-5): equal objects are required to behave "
    "alike to 1e-3",
    "classes without value equality (shift and scale transformers, affine operators, solvers) "
    "compare by identity: for them only the laws of equality are judged",
])

NOT_COMPARED = {
    "str", "name", "verbose", "variable_names", "solver", "solve", "kinds", "operators",
    "operator_matrix", "sparse", "leftvecs", "svdvals", "rightvecs", "max_vectors",
    "residual_energy", "cumulative_energy", "class", "weights", "mean_", "scale_", "shift_",
    "draw", "entries"}
STRANGERS = (None, 0, 1.5, "text", (), object(), opinf.models.ContinuousModel)


def behaviour(item, obj):
    return {k: v for k, v in item.probe(obj).items() if k not in NOT_COMPARED}


def close(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return (isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b)
                and all(close(x, y) for x, y in zip(a, b)))
    if a is None or b is None or isinstance(a, (str, type)) or isinstance(b, (str, type)) \
            or callable(a) or callable(b):
        return type(a) is type(b) and a == b
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape:
        return False
    if x.dtype.kind not in "fc" or y.dtype.kind not in "fc":
        return bool(np.array_equal(x, y))
    if not np.array_equal(np.isfinite(x), np.isfinite(y)):
        return False
    ok = np.isfinite(x)
    if not ok.any():
        return True
    x, y = x[ok], y[ok]
    return bool(np.abs(x - y).max() <= 1e-3 * max(1.0, np.abs(x).max()))


def equals(a, b, msg):
    """a == b as a truth value, with everything == promises by itself."""
    try:
        r, n = a == b, a != b
        out, neg = bool(r), bool(n)
    except Exception as ex:
        raise Violation(f"{msg}: == raised {type(ex).__name__}: {ex}") from ex
    check(out is not neg, f"{msg}: == and != are both {out}")
    return out


def laws(item, pool, valued):
    """Pairwise laws for a pool of (object, label, behaviour)."""
    equal = {}
    for i, (a, na, _) in enumerate(pool):
        check(equals(a, a, na), f"{na} is not equal to itself")
        for j, (b, nb, _) in enumerate(pool):
            if i != j:
                equal[i, j] = equals(a, b, f"{na} == {nb}")
    for (i, j), r in equal.items():
        (a, na, pa), (b, nb, pb) = pool[i], pool[j]
        check(r == equal[j, i], f"({na} == {nb}) is {r} but ({nb} == {na}) is {not r}")
        if i < j and r:
            for k in pa:
                if k in pb and not close(pa[k], pb[k]):
                    raise Violation(f"{na} == {nb} but {k} is {pa[k]!r} and {pb[k]!r}"[:400])
    for i, (a, na, _) in enumerate(pool):
        for x in STRANGERS:
            check(not equals(a, x, f"{na} == {x!r}"), f"{na} is equal to {x!r}")
            check(not equals(x, a, f"{x!r} == {na}"), f"{x!r} is equal to {na}")
    for (a, na, pa) in pool:
        for k, v in behaviour(item, a).items():
            c16.compare(pa[k], v, f"{na} after comparing: {k}")
    return equal


# Changing one thing ==========================================================
def bump(A, rng):
    """A copy of an array (dense or sparse) with one entry changed."""
    if sparse.issparse(A):
        B = A.toarray()
        B.flat[rng.integers(B.size)] += 3.0
        return type(A)(B)
    B = np.array(A, dtype=float)
    B.flat[rng.integers(B.size)] += 3.0
    return B


def tweaks(item):
    """Ways to make an object that differs from a copy in one respect."""
    out = []
    if isinstance(item, c16.TransformerItem):
        def option(name, val):
            def run(o, rng):
                quietly(lambda: setattr(o, name, val))
                return o
            return run
        if isinstance(item.obj, opinf.pre.ShiftScaleTransformer):
            n = item.n

            def again(**kw):
                def run(o, rng):
                    args = dict(centering=o.centering, scaling=o.scaling, byrow=o.byrow)
                    args.update(kw)
                    if "norm" in (args["scaling"] or ""):
                        args["byrow"] = False
                    new = quietly(lambda: opinf.pre.ShiftScaleTransformer(**args))
                    if item.trained:
                        quietly(lambda: new.fit(item.X.copy()))
                    return new
                return run
            out += [("centering", again(centering=not item.obj.centering)),
                    ("no scaling", again(scaling=None)), ("minmax", again(scaling="minmax")),
                    ("maxabs", again(scaling="maxabs")),
                    ("same" if item.learned else "refit", again()),
                    ("byrow", again(byrow=not item.obj.byrow))]

            def untrained(o, rng):
                new = quietly(lambda: opinf.pre.ShiftScaleTransformer(
                    centering=o.centering, scaling=o.scaling, byrow=o.byrow))
                if rng.random() < 0.5:
                    new.state_dimension = n
                return new

            def partial(o, rng):
                new = untrained(o, rng)
                n_ = n if new.byrow else None
                if new.centering and rng.random() < 0.5:
                    new.mean_ = rng.random(n)
                elif new.scaling is not None:
                    setattr(new, ["scale_", "shift_"][rng.integers(2)], rng.random(n_))
                return new
            out += [("untrained", untrained), ("partial", partial)]
    if isinstance(item, c16.BasisItem) and item.kind != "multi":
        def rebuilt(change):
            def run(o, rng):
                E, w = o.entries, o.weights
                if E is None:
                    return o
                return quietly(lambda: change(np.array(E), w, rng))
            return run
        LB = opinf.basis.LinearBasis

        def flip(E, w, rng):
            E[:, rng.integers(E.shape[1])] *= -1
            return LB(E, weights=w, check_orthogonality=False)

        def drop(E, w, rng):
            return LB(E[:, :-1] if E.shape[1] > 1 else np.hstack([E, E]), weights=w,
                      check_orthogonality=False)

        def weights(E, w, rng):
            W = np.diag(1.0 + rng.random(len(E)))
            W = [np.diag(W), W, sparse.csr_array(W), None][rng.integers(4)]
            return LB(E, weights=W, check_orthogonality=False)

        def form(E, w, rng):
            if w is None:
                W = np.eye(len(E))
            elif sparse.issparse(w):
                W = w.toarray()
            else:
                W = np.diag(w) if w.ndim == 1 else w
            W = [W, sparse.csr_array(W), sparse.csc_array(W)][rng.integers(3)]
            return LB(E, weights=W, check_orthogonality=False)

        def linear(E, w, rng):
            return LB(E, weights=w, check_orthogonality=False)
        out += [(f.__name__, rebuilt(f)) for f in (flip, drop, weights, form, linear)]
        out.append(("untrained", lambda o, rng: opinf.basis.PODBasis(num_vectors=2)))
    if hasattr(item.obj, "bases") or hasattr(item.obj, "transformers"):
        members = "bases" if hasattr(item.obj, "bases") else "transformers"

        def other_parts(how):
            def run(o, rng):
                parts = [copy.deepcopy(x) for x in getattr(o, members)]
                i = rng.integers(len(parts))
                if how == "longer":
                    parts = parts + [copy.deepcopy(parts[i])]
                elif how == "shorter":
                    parts = parts[:-1] or parts * 2
                elif how == "reversed":
                    parts = parts[::-1]
                return quietly(lambda: type(o)(parts))
            return run
        out += [(h, other_parts(h)) for h in ("longer", "shorter", "reversed")]
    if isinstance(item, c16.OperatorItem):
        def entry(o, rng):
            if o.entries is not None:
                o.set_entries(bump(o.entries, rng))
            return o

        def other_class(o, rng):
            if o.entries is None or o.state_dimension != 1:
                return o
            news = [C(np.array([[2.0]])) for C in gen_ops.CLASSES.values()]
            news += [opinf.operators.PolynomialOperator(p, np.array([[2.0]]))
                     for p in range(1, 5)]
            news = [x for x in news if x.entries.shape == (1, 1)]
            return news[rng.integers(len(news))]

        def form(o, rng):
            E = o.entries
            if E is None or E.ndim != 2 or item.kind == "c":
                return o
            new = type(o)(E.toarray() if sparse.issparse(E) else sparse.csr_array(E)) \
                if item.kind in "AB" else o
            return new
        out += [("entry", entry), ("class", other_class), ("form", form)]
    if isinstance(item, c16.ParametricItem) and not item.affine:
        def made(params=None, Class=None, entries=None):
            def run(o, rng):
                P, E = o.training_parameters, o.entries
                if P is None:
                    return o
                P, E = np.array(P), None if E is None else [np.array(A) for A in E]
                if params == "moved":
                    P[rng.integers(len(P))] += 1e-2
                elif params == "swapped" and len(P) > 1:
                    P[[0, 1]] = P[[1, 0]]
                if E is not None and entries:
                    i = rng.integers(len(E))
                    E[i] = bump(E[i], rng)
                return quietly(lambda: type(o)(P, E, InterpolatorClass=Class))
            return run
        out += [("parameter", made("moved")), ("parameters swapped", made("swapped")),
                ("default interpolator", made()), ("entry", made(entries=True))]
        if item.obj.training_parameters is None or item.obj.training_parameters.ndim == 1:
            out.append(("pchip", made(Class=si.PchipInterpolator)))
        else:
            out.append(("nearest", made(Class=si.NearestNDInterpolator)))
    if isinstance(item, c16.PosteriorItem):
        def post(change):
            def run(o, rng):
                means, covs = [m.copy() for m in o.means], [C.copy() for C in o.covs]
                i = rng.integers(len(means))
                if change == "mean":
                    means[i] = bump(means[i], rng)
                elif change == "cov":
                    covs[i] = 2 * covs[i]
                elif change == "rows" and len(means) > 1:
                    means.pop(), covs.pop()
                return type(o)(means, covs, alreadyinverted=True)
            return run
        out += [(c, post(c)) for c in ("mean", "cov", "rows")]
    if isinstance(item, c16.ModelItem):
        def op_entry(o, rng):
            ops_ = [x for x in o.operators if isinstance(getattr(x, "entries", None), np.ndarray)]
            if ops_:
                op = ops_[rng.integers(len(ops_))]
                op.set_entries(bump(op.entries, rng))
            return o

        def op_removed(o, rng):
            ops_ = [x for x in o.operators]
            if len(ops_) > 1 and item.trained:
                ops_.pop(rng.integers(len(ops_)))
                if all(getattr(x, "entries", None) is not None for x in ops_):
                    return quietly(lambda: type(o)(ops_))
            return o

        def reordered(o, rng):
            if not item.trained or any(R.kind == "sin" for R in item.st.refs):
                return o
            return quietly(lambda: type(o)([o.operators[i].copy()
                                            for i in rng.permutation(len(o.operators))]))

        def other_kind(o, rng):
            if not item.trained:
                return o
            C = [x for x in c16.ModelItem.CLASSES.values() if x is not type(o)][0]
            return quietly(lambda: C([x.copy() for x in o.operators]))
        out += [("entry", op_entry), ("removed", op_removed), ("reordered", reordered),
                ("other kind", other_kind)]
    if isinstance(item, c16.InterpModelItem):
        def change(o, rng):
            ops_ = [x for x in o.operators if getattr(x, "entries", None) is not None]
            if ops_:
                op = ops_[rng.integers(len(ops_))]
                if isinstance(op, opinf.operators.OpInfOperator):
                    op.set_entries(bump(op.entries, rng))
                else:
                    E = [np.array(A) for A in op.entries]
                    i = rng.integers(len(E))
                    E[i] = bump(E[i], rng)
                    op.set_entries(E)
            return o
        out.append(("entry", change))
    return out


@CHECK.sub(quick=1500, rule="the object is trained and a changed version was compared")
def related(g):
    """An object, its copies, what is loaded from its files, and changed versions of it."""
    item, kind = c16.draw_item(g)
    if item is None:
        return
    obj = item.obj
    valued = item.equality(obj)
    pool = [(obj, "original", behaviour(item, obj))]
    equivalent = []
    changes = tweaks(item)
    rng = g.rng("changes")
    changed = False
    with scratch() as folder:
        for i in range(g.int(1, 4, "members")):
            how = g.choice(["same", "act", "tweak", "tweak"], f"member{i}")
            new, label = c16.transfer(g, item, obj, folder, i, True)
            if how == "act" and item.actions():
                aname, act = g.choice(item.actions(), f"act{i}")
                # (what was derived from entries is not recomputed when they are overwritten)
                if item.can(aname, label) and aname != "in-place":
                    view(lambda: act(new))
                    label += "+" + aname
            elif how == "tweak" and changes:
                tname, tweak = g.choice(changes, f"tweak{i}")
                new2 = tweak(new, rng)
                label += "+" + tname
                changed = changed or new2 is not obj
                new = new2
                g.tag(kind + ":" + tname)
            else:
                equivalent.append(len(pool))
            pool.append((new, f"{label}#{i}", behaviour(item, new)))
    g.nontrivial(changed)
    equal = laws(item, pool, valued)
    if valued:
        for j in equivalent:
            check(equal[0, j], f"{pool[j][1]}: not equal to the original")
            for k in range(1, len(pool)):
                if k != j:
                    check(equal[0, k] == equal[j, k],
                          f"{pool[k][1]} compares differently with the original and "
                          f"with {pool[j][1]}")
        for k in range(len(pool)):
            if pool[k][1].split("#")[0].endswith(("+same", "+reordered")):
                check(k == 0 or equal[0, k], f"{pool[k][1]}: not equal to the original")


@CHECK.sub(quick=700, rule="objects of one class")
def strangers(g):
    """Independent objects, of the same or of different classes."""
    kinds = sorted(c16.ITEMS)
    k1 = g.choice(kinds, "kind1")
    k2 = k1 if g.bool("same kind") else g.choice(kinds, "kind2")
    i1, i2 = (quietly(lambda k=k: c16.ITEMS[k](g)) for k in (k1, k2))
    a, b = i1.obj, i2.obj
    r1, r2 = equals(a, b, "first == second"), equals(b, a, "second == first")
    check(r1 == r2, f"first == second is {r1} but second == first is {r2}")
    g.nontrivial(type(a) is type(b))
    g.tag("equal" if r1 else "unequal", k1)
    if r1:
        pa, pb = behaviour(i1, a), behaviour(i1, b)
        for k in pa:
            if not close(pa[k], pb[k]):
                raise Violation(f"equal objects, but {k} is {pa[k]!r} and {pb[k]!r}"[:400])


@CHECK.sub(quick=400, rule="always")
def scales(g):
    """Differences are seen at every scale (where the library compares without tolerances)."""
    s = 10.0 ** g.int(-14, 12, "scale")
    n = g.int(1, 5, "n")
    rng = g.rng("data")
    kind = g.choice(["operator", "posterior", "covariance", "mean", "scaler", "basis",
                     "parameters", "time step"], "kind")
    if kind == "operator":
        C = g.choice(list(gen_ops.CLASSES.values()), "class")
        d = C.operator_dimension(n, 2)
        A = s * rng.standard_normal((n, d))
        A = A[:, 0] if C is opinf.operators.ConstantOperator else A
        make = C
    elif kind in ("posterior", "covariance"):
        OP = opinf.roms.OperatorPosterior
        if kind == "covariance":
            A, mean = s * np.eye(n), rng.standard_normal(n)
            make = (lambda X: OP([mean], [X], alreadyinverted=True))
        else:
            A, cov = s * rng.standard_normal(n), s**2 * np.eye(n)
            make = (lambda X: OP([X], [cov], alreadyinverted=True))
    elif kind == "mean":
        Q = rng.standard_normal((n, 4))
        A = s * rng.standard_normal(n)

        def make(X):
            t = opinf.pre.ShiftScaleTransformer(centering=True)
            t.fit(s * Q)
            t.mean_ = X
            return t
    elif kind == "scaler":
        A = np.array([s * (1 + rng.random())])

        def make(X):
            t = opinf.pre.ShiftScaleTransformer(scaling="standard")
            t.state_dimension = n
            t.scale_, t.shift_ = X[0], 0.0
            return t
    elif kind == "basis":
        A = s * rng.standard_normal((n, 2))
        make = (lambda X: opinf.basis.LinearBasis(X, check_orthogonality=False))
    elif kind == "parameters":
        A = s * np.sort(rng.random(4) + np.arange(4))
        E = [rng.standard_normal((n, n)) for _ in range(4)]
        make = (lambda X: opinf.operators.InterpLinearOperator(X, E))
    else:
        A = np.array([s * (1 + rng.random())])
        make = (lambda X: opinf.models.DiscreteModel([opinf.operators.LinearOperator(
            X[0] * np.eye(n))]))
    B = A.copy()
    diagonal = kind == "covariance"
    i = g.int(0, n - 1 if diagonal else A.size - 1, "entry")
    rel = 10.0 ** g.float(-3, -0.5, "difference")
    B.flat[i * (n + 1) if diagonal else i] *= 1 + rel
    a, b, c = quietly(lambda: make(A.copy())), quietly(lambda: make(B)), quietly(lambda: make(A))
    check(equals(a, c, "same data"), f"{kind}: equal data of size {s:.0e} compare unequal")
    for x, y in ((a, b), (b, a)):
        check(not equals(x, y, "other data"),
              f"{kind}: data of size {s:.0e} that differ by {rel:.1e} compare equal")
    g.tag(kind)
    g.nontrivial()
