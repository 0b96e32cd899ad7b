"""Generators and reference models for preprocessing transformers."""
import copy

import numpy as np
import opinf

SCALINGS = (None, "standard", "minmax", "minmaxsym", "maxabs", "maxabssym",
            "maxnorm", "maxnormsym")


def spread_data(g, n, k, label="X"):
    """(n, k) data whose rows all have spread (when k > 1) and nonzero entries."""
    X = g.array((n, k), label)
    if k > 1:
        rowscale = np.maximum(np.abs(X).max(axis=1), 1e-3)
        X[:, 1] = X[:, 0] + 0.5 * rowscale + np.abs(X[:, 1] - X[:, 0])
        X = X[:, np.argsort(g.rng(label + ".order").random(k))].copy()
    X[np.abs(X).max(axis=1) < 1e-3] += 1.0
    return X


def ref_shiftscale(centering, scaling, byrow, X):
    """Affine map (alpha, beta), per row, from the documented formulas."""
    n = X.shape[0]
    mean = X.mean(axis=1) if centering else np.zeros(n)
    Y = X - mean[:, None]
    a, b = np.ones(n), np.zeros(n)
    if scaling is not None:
        groups = [[i] for i in range(n)] if byrow else [list(range(n))]
        for idx in groups:
            B = Y[idx]
            if scaling == "standard":
                mu, s = B.mean(), B.std()
                al, be = 1 / s, -mu / s
            elif scaling == "minmax":
                al = 1 / (B.max() - B.min())
                be = -B.min() * al
            elif scaling == "minmaxsym":
                al = 2 / (B.max() - B.min())
                be = -B.min() * al - 1
            elif scaling == "maxabs":
                al, be = 1 / np.abs(B).max(), 0.0
            elif scaling == "maxabssym":
                mu = B.mean()
                al = 1 / np.abs(B - mu).max()
                be = -mu * al
            elif scaling == "maxnorm":
                al = 1 / max(np.sqrt((B[:, j] ** 2).sum()) for j in range(B.shape[1]))
                be = 0.0
            elif scaling == "maxnormsym":
                mu = B.mean()
                al = 1 / max(np.sqrt(((B[:, j] - mu) ** 2).sum()) for j in range(B.shape[1]))
                be = -mu * al
            a[idx], b[idx] = al, be
    # q -> a*(q - mean) + b
    return a, b - a * mean


class Leaf:
    """A transformer together with the reference affine map it should learn."""

    def __init__(self, tf, learn, desc, has_locs=True):
        self.tf, self.learn, self.desc, self.has_locs = tf, learn, desc, has_locs


def draw_name(g):
    return g.choice([None, "a", "pressure", "x y"], "name")


def shiftscale_options(g, learnable=True):
    scaling = g.choice(SCALINGS, "scaling")
    centering = g.bool("centering")
    byrow = False
    if scaling not in ("maxnorm", "maxnormsym"):
        byrow = g.bool("byrow")
    return centering, scaling, byrow


def leaf(g, n, kinds=("ss", "ss", "ss", "shift", "scale", "scalerow", "null", "sset"),
         name=True):
    kind = g.choice(kinds, "tfkind")
    nm = draw_name(g) if name else None
    if kind == "shift":
        ref = g.normal(n, "ref")
        return Leaf(opinf.pre.ShiftTransformer(ref, name=nm),
                    lambda X: (np.ones(n), -ref), "shift")
    if kind == "scale":
        s = float(g.choice([-2.0, 0.5, 3.0, -0.125, 1e3], "scaler"))
        return Leaf(opinf.pre.ScaleTransformer(s, name=nm),
                    lambda X: (np.full(n, s), np.zeros(n)), "scale")
    if kind == "scalerow":
        s = g.uniform(0.2, 3, n, "scalers") * np.where(g.uniform(0, 1, n, "sgn") < 0.3, -1, 1)
        return Leaf(opinf.pre.ScaleTransformer(s, name=nm),
                    lambda X: (s.copy(), np.zeros(n)), "scalerow")
    if kind == "null":
        return Leaf(opinf.pre.NullTransformer(name=nm),
                    lambda X: (np.ones(n), np.zeros(n)), "null")
    centering, scaling, byrow = shiftscale_options(g)
    tf = opinf.pre.ShiftScaleTransformer(
        centering=centering, scaling=scaling, byrow=byrow, name=nm,
        verbose=g.rarely("verbose", 6))
    if kind == "ss":
        return Leaf(tf, lambda X: ref_shiftscale(centering, scaling, byrow, X),
                    f"ss-{scaling}-{'c' if centering else ''}{'r' if byrow else ''}")
    return Leaf(tf, None, f"sset-{scaling}-{'c' if centering else ''}{'r' if byrow else ''}")


def set_shiftscale(g, tf, n):
    """User-specified parameters for a ShiftScaleTransformer; returns affine map."""
    a, b, m = np.ones(n), np.zeros(n), np.zeros(n)
    if tf.centering:
        m = g.normal(n, "mean_")
        tf.mean_ = m.copy()
    if tf.scaling:
        if tf.byrow:
            a, b = g.uniform(0.3, 3, n, "scale_"), g.normal(n, "shift_")
            tf.scale_ = a.copy()
            tf.shift_ = b.copy()
        else:
            s, t = float(g.uniform(0.3, 3, None, "scale_")), float(g.normal((), "shift_"))
            tf.scale_, tf.shift_ = s, t
            a, b = np.full(n, s), np.full(n, t)
    return a, b - a * m


def is_trivial_sset(tf):
    return not tf.centering and tf.scaling is None


def pipeline(g, n, maxlen=3, name=True):
    """TransformerPipeline of leaves (learnable stages learn from transformed data)."""
    L = g.int(1, maxlen, "pipelen")
    leaves = [leaf(g, n, kinds=("ss", "ss", "shift", "scale", "scalerow", "null"))
              for _ in range(L)]

    def learn(X):
        A, B = np.ones(n), np.zeros(n)
        Y = X.copy()
        for lf in leaves:
            a, b = lf.learn(Y)
            Y = a[:, None] * Y + b[:, None]
            A, B = a * A, a * B + b
        return A, B

    tf = opinf.pre.TransformerPipeline(
        g.choice([list, tuple], "seqtype")(lf.tf for lf in leaves), name=draw_name(g) if name else None)
    return Leaf(tf, learn, "pipe(" + ",".join(lf.desc for lf in leaves) + ")")


def degenerate_free(leaf_, X, tol=1e-6):
    """False if a learned scaling would divide by (nearly) zero."""
    with np.errstate(all="ignore"):
        a, b = leaf_.learn(X)
    s = max(1.0, np.abs(X).max())
    return bool(np.all(np.isfinite(a)) and np.all(np.isfinite(b))
                and np.abs(a).max() * s < 1e9 and np.abs(a).min() > 0)


def multi(g, max_vars=4, equal=None, nested=True):
    """TransformerMulti with known variable sizes; returns (Leaf, sizes)."""
    nv = g.int(1, max_vars, "nvars")
    equal = g.bool("equal_sizes") if equal is None else equal
    if equal:
        sizes = [g.int(1, 6, "nx")] * nv
    else:
        sizes = [g.int(1, 6, "nx") for _ in range(nv)]
    return multi_of(g, sizes, nested)


def multi_of(g, sizes, nested=True):
    leaves, objs, names = [], [], []
    for ni in sizes:
        if g.rarely("none", 6):
            lf = Leaf(None, lambda X, ni=ni: (np.ones(ni), np.zeros(ni)), "None")
        else:
            if nested and g.rarely("nested_pipeline", 8):
                lf = pipeline(g, ni, name=False)
            else:
                lf = leaf(g, ni, name=False,
                          kinds=("ss", "ss", "ss", "shift", "scale", "scalerow", "null"))
            if g.bool("named"):
                lf.tf.name = f"v{len(leaves)}"
        leaves.append(lf)
        objs.append(lf.tf)
    same = len(set(sizes)) == 1
    give = True if not same else g.bool("give_sizes")
    twins = [copy.deepcopy(o) for o in objs]
    tf = opinf.pre.TransformerMulti(objs, variable_sizes=list(sizes) if give else None)

    def learn(X):
        A, B, i = [], [], 0
        for lf, ni in zip(leaves, sizes):
            a, b = lf.learn(X[i:i + ni])
            A.append(a)
            B.append(b)
            i += ni
        return np.concatenate(A), np.concatenate(B)

    out = Leaf(tf, learn, "multi(" + ",".join(lf.desc for lf in leaves) + ")",
               has_locs=same)
    out.leaves, out.sizes, out.twins = leaves, list(sizes), twins
    return out


def multi_data(g, sizes, k, label="X"):
    return np.concatenate([spread_data(g, ni, k, label) for ni in sizes], axis=0)


def draw_locs(g, n):
    """An index set: slice or integer array, any order, possibly empty/repeated."""
    kind = g.choice(["slice", "array", "array", "single"], "locskind")
    if kind == "slice":
        a = g.int(0, n - 1, "lo")
        b = g.int(a + 1, n, "hi")
        return slice(a, b, g.choice([None, 1, 2], "step"))
    if kind == "single":
        return np.array([g.int(0, n - 1, "loc")])
    m = g.int(1, n, "nlocs")
    return np.array([g.int(0, n - 1, "loc") for _ in range(m)])
