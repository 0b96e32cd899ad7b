"""C02: learned statistics, fit_transform == fit + transform, refits, functions."""
import numpy as np
import opinf

from pbt.runner import Check
from pbt.oracle import check, close, same, unchanged, raises
from checks import gen_pre as P

CHECK = Check("C02", assumptions=[
    "training data have non-degenerate spread (positive standard deviation / range)",
])


def statistic(g, Y, scaling, byrow, msg, tol):
    """The documented statistic of the transformed training data."""
    groups = [Y[i:i + 1] for i in range(Y.shape[0])] if byrow else [Y]
    for i, B in enumerate(groups):
        m = f"{msg} (group {i})"
        if scaling == "standard":
            close(B.mean(), 0.0, m + " mean", atol=tol)
            close(B.std(), 1.0, m + " std", atol=tol)
        elif scaling == "minmax":
            close(B.min(), 0.0, m + " min", atol=tol)
            close(B.max(), 1.0, m + " max", atol=tol)
        elif scaling == "minmaxsym":
            close(B.min(), -1.0, m + " min", atol=tol)
            close(B.max(), 1.0, m + " max", atol=tol)
        elif scaling == "maxabs":
            close(np.abs(B).max(), 1.0, m + " max abs", atol=tol)
        elif scaling == "maxabssym":
            close(B.mean(), 0.0, m + " mean", atol=tol)
            close(np.abs(B).max(), 1.0, m + " max abs", atol=tol)
        elif scaling in ("maxnorm", "maxnormsym"):
            close(np.sqrt((B ** 2).sum(axis=0)).max(), 1.0, m + " max norm", atol=tol)
            if scaling.endswith("sym"):
                close(B.mean(), 0.0, m + " mean", atol=tol)


def train_data(g, n, k, label="X"):
    X = P.spread_data(g, n, k, label)
    off = g.choice([0.0, 0.0, 5.0, -40.0], label + ".offset")
    s = 1.0
    if g.bool(label + ".rescale"):
        s = g.logscale(-30, 20, label + ".extreme") if g.rarely(label + ".extremely", 4) else \
            g.logscale(-4, 4, label + ".scale")
    return (X + off) * s


@CHECK.sub(quick=5000, rule="scaling or centering active and at least 2 distinct entries per group")
def learned_statistics(g):
    centering, scaling, byrow = P.shiftscale_options(g)
    tf = opinf.pre.ShiftScaleTransformer(centering=centering, scaling=scaling,
                                         byrow=byrow, verbose=g.rarely("verbose", 4))
    n = g.dim(1, 10, "n", 80)
    nfits = g.choice([1, 1, 2, 3], "nfits")
    for it in range(nfits):
        if it and g.bool("newdim"):
            n = g.int(1, 10, "n")
        lo = 1 if not (centering or byrow or scaling is None) and \
            (scaling in ("maxabs", "maxnorm") or n > 2) else 2
        k = g.dim(lo, 12, "k", 80)
        X = train_data(g, n, k)
        if scaling is not None:
            a, b = P.ref_shiftscale(centering, scaling, byrow, X)
            s = np.abs(X).max()
            if not (np.all(np.isfinite(a)) and np.abs(a).max() * s < 1e7):
                return
        how = g.choice(["fit_transform", "fit+transform", "inplace"], "how")
        if how == "fit_transform":
            with unchanged(X):
                Y = tf.fit_transform(X)
        elif how == "inplace":
            Y = X.copy()
            out = tf.fit_transform(Y, inplace=True)
            check(out is Y, "fit_transform(inplace=True) returned another array")
        else:
            with unchanged(X):
                check(tf.fit(X) is tf, "fit() must return self")
                Y = tf.transform(X)
    a, b = P.ref_shiftscale(centering, scaling, byrow, X)
    amp = np.abs(a).max() * np.abs(X).max()
    close(Y, a[:, None] * X + b[:, None], "training data transformed", rtol=1e-10, scale=amp)
    tol = 1e-9 * max(1.0, amp)
    if centering:
        close(tf.mean_, X.mean(axis=1), "mean_", rtol=1e-11, scale=np.abs(X).max())
    if scaling is None:
        if centering:
            close(Y.mean(axis=1), np.zeros(n), "centered rows have mean zero",
                  atol=1e-11 * np.abs(X).max())
        else:
            same(Y, X, "no centering, no scaling: identity")
    else:
        statistic(g, Y, scaling, byrow, f"{scaling} byrow={byrow} centering={centering}", tol)
        if byrow:
            check(np.shape(tf.scale_) == (n,) and np.shape(tf.shift_) == (n,),
                  "scale_/shift_ shape with byrow")
        if centering and scaling in ("maxabs", "maxnorm"):
            # documented: symmetric counterpart is equivalent after centering
            tf2 = opinf.pre.ShiftScaleTransformer(centering=True, scaling=scaling + "sym",
                                                  byrow=byrow)
            close(tf2.fit_transform(X), Y, f"{scaling} vs {scaling}sym on centered data",
                  rtol=1e-9, scale=max(1, amp))
    # fit and fit_transform learn the same thing; a refit forgets
    fresh = opinf.pre.ShiftScaleTransformer(centering=centering, scaling=scaling, byrow=byrow)
    with unchanged(X):
        Yf = fresh.fit(X).transform(X)
    close(Y, Yf, "history / fit_transform vs fit+transform", rtol=1e-10, scale=max(1, amp))
    Q = g.array((n, g.int(1, 4, "m")), "Q")
    close(tf.transform(Q), a[:, None] * Q + b[:, None], "transform of new data",
          rtol=1e-9, scale=np.abs(a).max() * max(np.abs(Q).max(), np.abs(X).max()))
    check(tf.state_dimension == n, "state_dimension after fit")
    check(bool(tf == fresh), "equal to a freshly fitted transformer") if how == "fit+transform" else None
    g.tag(str(scaling), "byrow" if byrow else "global", "centered" if centering else "raw",
          f"fits{nfits}", how)
    g.nontrivial((centering or scaling is not None))


@CHECK.sub(quick=1500, rule=">= 2 snapshots and distinct bounds")
def functions(g):
    n, k = g.int(1, 8, "n"), g.int(1, 8, "k")
    X = train_data(g, n, k) if k > 1 else g.array((n, k), "X")
    Z = g.array((n, g.int(1, 5, "m")), "Z")
    with unchanged(X, Z):
        Y, qbar = opinf.pre.shift(X)
        close(qbar, X.mean(axis=1), "shift() learned mean", rtol=1e-11, scale=np.abs(X).max())
        close(Y, X - X.mean(axis=1)[:, None], "shift()", rtol=1e-11, scale=np.abs(X).max())
        close(opinf.pre.shift(Z, qbar), Z - qbar[:, None], "shift by given vector", rtol=1e-12,
              scale=np.abs(qbar).max())
        close(opinf.pre.shift(Y, -qbar), X, "inverse shift", rtol=1e-11, scale=np.abs(X).max())
        tf = opinf.pre.ShiftScaleTransformer(centering=True).fit(X)
        close(tf.transform(Z), opinf.pre.shift(Z, qbar), "shift() vs class", rtol=1e-11,
              scale=np.abs(X).max())
        close(opinf.pre.ShiftTransformer(qbar).transform(Z), opinf.pre.shift(Z, qbar),
              "shift() vs ShiftTransformer", rtol=1e-12, scale=np.abs(qbar).max())
        if k > 1:
            lo = g.choice([0.0, -1.0, 2.0, -3.5], "lo")
            hi = lo + g.choice([1.0, 2.0, 0.25, 10.0], "width")
            S, to, frm = opinf.pre.scale(X, (lo, hi))
            w = (hi - lo)
            rng = X.max() - X.min()
            amp = max(abs(lo), abs(hi), w * np.abs(X).max() / rng)
            close(S.min(), lo, "scale(): minimum", atol=1e-10 * amp)
            close(S.max(), hi, "scale(): maximum", atol=1e-10 * amp)
            close(S, (X - X.min()) / rng * w + lo, "scale()", rtol=1e-10, scale=amp)
            check(tuple(to) == (lo, hi), "scaled_to")
            check(tuple(frm) == (X.min(), X.max()), "scaled_from")
            close(opinf.pre.scale(S, frm, to), X, "inverse scale", rtol=1e-8,
                  scale=np.abs(X).max())
            close(opinf.pre.scale(Z, to, frm), (Z - X.min()) / rng * w + lo,
                  "scale() new data", rtol=1e-9, scale=max(amp, w * np.abs(Z).max() / rng))
            for nm, bounds in (("minmax", (0, 1)), ("minmaxsym", (-1, 1))):
                t2 = opinf.pre.ShiftScaleTransformer(scaling=nm).fit(X)
                close(t2.transform(Z), opinf.pre.scale(Z, bounds, frm), f"{nm} vs scale()",
                      rtol=1e-9, scale=max(amp, 2 * max(np.abs(Z).max(), np.abs(X).max()) / rng))
    g.nontrivial(k > 1)


@CHECK.sub(quick=2000, rule="container with at least two active components")
def containers(g):
    """Pipelines and multivariable transformers learn stage by stage / block by block."""
    if g.bool("multi"):
        lf = P.multi(g)
        sizes = lf.sizes
        n = sum(sizes)
        num = len(sizes)
    else:
        n = g.int(1, 8, "n")
        sizes = [n]
        lf = P.pipeline(g, n)
        num = lf.tf.num_transformers
    k = g.int(2, 8, "k")
    for it in range(g.choice([1, 2], "nfits")):
        X = P.multi_data(g, sizes, k)
        if not P.degenerate_free(lf, X):
            g.tag("degenerate")
            return
        how = g.choice(["fit", "fit_transform", "inplace"], "how")
        if how == "fit":
            with unchanged(X):
                check(lf.tf.fit(X) is lf.tf, "fit returns self")
            Y = lf.tf.transform(X)
        elif how == "inplace":
            Y = X.copy()
            check(lf.tf.fit_transform(Y, inplace=True) is Y, "in-place returns argument")
        else:
            with unchanged(X):
                Y = lf.tf.fit_transform(X)
    a, b = lf.learn(X)
    close(Y, a[:, None] * X + b[:, None], "training data transformed", rtol=1e-7,
          scale=max(np.abs(a).max() * np.abs(X).max(), np.abs(b).max()))
    Q = g.array((n, 3), "Q")
    close(lf.tf.transform(Q), a[:, None] * Q + b[:, None], "new data transformed", rtol=1e-7,
          scale=max(np.abs(a).max() * np.abs(Q).max(), np.abs(b).max()))
    g.tag("multi" if len(sizes) > 1 else "pipe", how)
    g.nontrivial(num > 1)
