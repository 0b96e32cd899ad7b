"""C01: transformer round trip, columnwise action, argument preservation."""
import numpy as np
import opinf

from pbt.runner import Check
from pbt.oracle import check, close, same, unchanged, raises
from checks import gen_pre as P

CHECK = Check("C01", assumptions=[
    "states are floating-point arrays whose rows are not (numerically) constant",
])


def any_transformer(g):
    """Returns Leaf, n, block sizes."""
    kind = g.choice(["leaf", "leaf", "pipe", "multi", "pipe_multi"], "container")
    if kind == "multi":
        lf = P.multi(g)
        return lf, sum(lf.sizes), lf.sizes
    if kind == "pipe_multi":
        first = P.multi(g)
        second = P.multi_of(g, first.sizes)
        tf = opinf.pre.TransformerPipeline([first.tf, second.tf])

        def learn(X):
            a, b = first.learn(X)
            c, d = second.learn(a[:, None] * X + b[:, None])
            return c * a, c * b + d

        lf = P.Leaf(tf, learn, "pipe_multi", has_locs=first.has_locs)
        lf.sizes = first.sizes
        return lf, sum(first.sizes), first.sizes
    n = g.dim(1, 12, "n", 80)
    lf = P.pipeline(g, n) if kind == "pipe" else P.leaf(g, n)
    return lf, n, [n]


@CHECK.sub(quick=5000, rule="trained transformer that is not the identity, >= 2 columns "
           "transformed, both in-place modes compared")
def round_trip(g):
    lf, n, sizes = any_transformer(g)
    tf = lf.tf
    k = g.dim(2, 9, "k", 60)
    affine = None
    if lf.learn is None:                       # user-specified parameters
        affine = P.set_shiftscale(g, tf, n)
        if tf.state_dimension is None:
            tf.state_dimension = n
    else:
        nfits = g.choice([1, 1, 2], "nfits")
        for _ in range(nfits):
            X = P.multi_data(g, sizes, k) if len(sizes) > 1 else P.spread_data(g, n, k)
            if not P.degenerate_free(lf, X):
                g.tag("degenerate")
                return
            mode = g.choice(["fit", "fit_transform", "fit_transform_inplace"], "fitmode")
            if mode == "fit":
                with unchanged(X, msg="fit() modified its argument"):
                    out = tf.fit(X)
                check(out is tf, "fit() must return self")
            elif mode == "fit_transform":
                with unchanged(X, msg="fit_transform(inplace=False) modified its argument"):
                    Y = tf.fit_transform(X, inplace=False)
                check(Y is not X and not np.shares_memory(Y, X),
                      "fit_transform(inplace=False) aliases its argument")
            else:
                Xc = X.copy()
                Y = tf.fit_transform(Xc, inplace=True)
                check(Y is Xc, "fit_transform(inplace=True) must return its argument")
                close(Y, tf.transform(X), "fit_transform != transform", rtol=1e-9)
            affine = lf.learn(X)
    a, b = affine
    check(tf.state_dimension == n, f"state_dimension {tf.state_dimension} != {n}")
    ncol = g.int(1, 5, "ncol")
    Q = g.array((n, ncol), "Q")
    if g.rarely("fortran", 4):
        Q = np.asfortranarray(Q)
    if g.rarely("strided", 4):
        Q = np.repeat(Q, 2, axis=1)[:, ::2]
    single = g.bool("single")
    if single:
        Q = Q[:, 0].copy()
    scale = max(np.abs(Q).max(), np.abs(b / a).max())
    with unchanged(Q, msg="transform(inplace=False) modified its argument"):
        T = tf.transform(Q, inplace=False)
    check(not np.shares_memory(T, Q), "transform(inplace=False) aliases its argument")
    A, B = (a, b) if single else (a[:, None], b[:, None])
    close(T, A * Q + B, "transform != reference affine map", rtol=1e-8,
          scale=max(np.abs(a).max() * np.abs(Q).max(), np.abs(b).max()))
    Qc = Q.copy()
    T2 = tf.transform(Qc, inplace=True)
    check(T2 is Qc, "transform(inplace=True) must return its argument")
    close(T2, T, "in-place and out-of-place transform differ", rtol=1e-12)
    # columnwise
    if not single:
        for j in range(ncol):
            close(tf.transform(Q[:, j]), T[:, j], f"column {j} alone", rtol=1e-11,
                  scale=np.abs(T).max())
    # inverse
    with unchanged(T, msg="inverse_transform(inplace=False) modified its argument"):
        R = tf.inverse_transform(T, inplace=False)
    check(not np.shares_memory(R, T), "inverse_transform(inplace=False) aliases")
    for i in range(n):     # row by row, so that a small row is not masked
        close(R[i], Q[i], f"round trip row {i}", rtol=1e-9,
              scale=max(np.abs(Q[i]).max(), np.abs(b[i] / a[i]), scale * 1e-6))
    Tc = T.copy()
    R2 = tf.inverse_transform(Tc, inplace=True)
    check(R2 is Tc, "inverse_transform(inplace=True) must return its argument")
    close(R2, R, "in-place and out-of-place inverse differ", rtol=1e-12)
    # ... and it is the inverse for arbitrary transformed states as well
    Z = g.normal(Q.shape, "Z")
    close(tf.transform(tf.inverse_transform(Z)), Z, "transform(inverse_transform(Z))",
          rtol=1e-7, scale=max(np.abs(Z).max(), np.abs(b).max(), np.abs(a).max() * 1e-3))
    # locations
    if lf.has_locs:
        nx = sizes[0]
        locs = P.draw_locs(g, nx)
        blocks = [T[i * nx:(i + 1) * nx] for i in range(len(sizes))]
        full = [R[i * nx:(i + 1) * nx] for i in range(len(sizes))]
        Tl = np.concatenate([x[locs] for x in blocks])
        Rl = np.concatenate([x[locs] for x in full])
        with unchanged(Tl, msg="inverse_transform(locs) modified its argument"):
            out = tf.inverse_transform(Tl, locs=locs)
        close(out, Rl, "inverse_transform(locs) != restriction of the inverse",
              rtol=1e-10, scale=scale)
        Tlc = Tl.copy()
        out = tf.inverse_transform(Tlc, inplace=True, locs=locs)
        check(out is Tlc, "inverse_transform(inplace=True, locs) must return its argument")
        close(out, Rl, "in-place inverse_transform(locs)", rtol=1e-10, scale=scale)
        g.tag("locs-slice" if isinstance(locs, slice) else "locs-array")
    g.tag(lf.desc.split("(")[0], "single" if single else "matrix")
    g.nontrivial(not np.allclose(a, 1) or not np.allclose(b, 0))
