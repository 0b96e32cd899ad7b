"""C05: POD dimension selection is minimal, after any history."""
import numpy as np
import opinf

from pbt.runner import Check
from pbt.oracle import check, close, same, unchanged
from checks import gen_basis as B

CHECK = Check("C05", assumptions=[
    "in the history check, thresholds stay a relative 1e-6 away from attained values; exact "
    "ties are checked on spectra whose energies are exactly representable",
    "the randomized solver has a random_state and enough oversampling to be exact",
    "thresholds lie strictly between 0 and 1",
])
CRITERIA = ("num_vectors", "svdval_threshold", "cumulative_energy", "residual_energy",
            "projection_error")


def metric(criterion, s):
    """Attained value after r = 0..len(s) vectors, and the acceptance rule."""
    e = s ** 2
    tot = e.sum()
    res = np.array([e[r:].sum() / tot for r in range(len(s) + 1)])
    if criterion == "cumulative_energy":
        return np.array([e[:r].sum() / tot for r in range(len(s) + 1)])
    if criterion == "residual_energy":
        return res
    if criterion == "projection_error":
        return np.sqrt(res)
    raise KeyError(criterion)


def minimal(criterion, value, s, tie=1e-6):
    """Smallest r >= 1 satisfying the criterion (None if too close to a tie)."""
    if criterion == "num_vectors":
        return int(value)
    if criterion == "svdval_threshold":
        sn = s / s[0]
        if tie and np.any(np.abs(sn - value) < tie * value):
            return None
        return sum(1 for x in sn if x >= value)
    vals = metric(criterion, s)
    if tie and np.any(np.abs(vals - value) < tie * value):
        return None
    for r in range(1, len(s) + 1):
        if (vals[r] >= value) if criterion == "cumulative_energy" else (vals[r] <= value):
            return r
    return len(s)


def draw_criterion(g, s):
    """A criterion with a threshold that selects something interesting for s."""
    m = len(s)
    c = g.choice(CRITERIA, "criterion")
    r = g.int(1, m, "target")
    if c == "num_vectors":
        return c, r
    frac = g.uniform(0.1, 0.9, None, "frac")
    if c == "svdval_threshold":
        sn = s / s[0]
        lo = sn[r] if r < m else sn[-1] / 2
        return c, float(lo + frac * (sn[r - 1] - lo))
    v = metric(c, s)
    a, b = v[r - 1], v[r]
    if r == m:
        b = v[r] + (a - v[r]) * 0.5     # rounding near total energy
    return c, float(a + frac * (b - a))


def set_solver(basis, label, opts):
    basis.svdsolver = label if label != "callable" else (
        lambda A, **kw: np.linalg.svd(A, full_matrices=False))
    basis.svdsolver_options = dict(opts)


@CHECK.sub(quick=2500, rule="at least two fits or dimension changes after the first fit")
def history(g):
    n = g.dim(2, 12, "n", 30)
    w, W, wkind = B.weights(g, n, ("none", "none", "none", "vector", "dense", "sparse"))
    pool = []
    for i in range(g.int(1, 3, "ndata")):
        k = g.dim(1, 12, "k", 30)
        X, U, s, V = B.snapshots(g, n, k, W, rank=min(n, k, 9))
        pool.append((X, s, k))
    maxv = g.choice([None, None, "int"], "maxv")
    if maxv is not None:
        maxv = g.int(1, 12, "max_vectors")
    labels = [("dense", {}), ("dense", {}), ("method-of-snapshots", {}), ("eigh", {}),
              ("callable", {}), ("randomized", {"random_state": g.int(0, 4, "rs")})]
    given = [(lb, dict(o)) for lb, o in labels]
    label, opts = g.choice(labels, "solver")
    crit = draw_criterion(g, pool[0][1])
    basis = opinf.basis.PODBasis(**{crit[0]: crit[1]}, max_vectors=maxv, weights=w,
                                 **opts)
    set_solver(basis, label, opts)
    cur = None          # (X, s, k, solver, opts) of the last fit
    later = 0
    for step in range(g.int(1, 6, "steps")):
        op = "fit" if step == 0 and not g.rarely("late", 4) else g.choice(
            ["fit", "fit", "criterion", "criterion", "setter", "solver"], "op")
        if op == "fit":
            X, s, k = g.choice(pool, "data")
            with unchanged(X):
                check(basis.fit(X) is basis, "fit() returns self")
            cur = (X, s, k, label, opts)
            check(basis.svdsolver_options == opts and labels == given, "fit() leaves the solver options as they were")
        elif op == "criterion":
            crit = draw_criterion(g, g.choice(pool, "for")[1])
            basis.set_dimension(**{crit[0]: crit[1]})
        elif op == "setter":
            crit = ("num_vectors", g.int(1, 10, "r"))
            basis.reduced_state_dimension = crit[1]
        else:
            label, opts = g.choice(labels, "solver")
            set_solver(basis, label, opts)
        str(basis)
        if cur is None:
            check(basis.entries is None and basis.svdvals is None and basis.max_vectors is None,
                  "an unfitted basis has no entries")
            continue
        later += step > 0
        X, s, k, fitlabel, fitopts = cur
        m = min(n, k)
        keep = m if maxv is None else min(maxv, m)
        # a thin SVD has min(n, k) values; those beyond the rank are rounding
        seen = s[:keep] if fitlabel == "randomized" else s
        r = minimal(crit[0], crit[1], seen)
        if r is None:
            g.tag("near-tie")
            return
        L = np.asarray(basis.leftvecs)
        if fitlabel in ("method-of-snapshots", "eigh"):
            check(min(keep, len(s)) <= L.shape[1] <= keep, "number of stored vectors")
            keep = L.shape[1]
        else:
            check(L.shape[1] == keep, f"{L.shape[1]} stored vectors, expected {keep}")
        r = min(r, keep)
        msg = f"{crit[0]}={crit[1]!r} after {op}"
        check(basis.reduced_state_dimension == r,
              f"{msg}: dimension {basis.reduced_state_dimension}, minimal is {r}")
        check(basis.full_state_dimension == n and basis.shape == (n, r), f"{msg}: shape")
        check(basis.max_vectors == keep, f"{msg}: max_vectors")
        same(basis.entries, L[:, :r], f"{msg}: entries are the leading left vectors")
        same(basis[:], L[:, :r], f"{msg}: indexing")
        sv = np.asarray(basis.svdvals)
        close(sv[:len(seen)], seen / s[0], f"{msg}: svdvals", rtol=1e-7)
        en = (seen[:r] ** 2).sum() / (seen ** 2).sum()
        close(basis.cumulative_energy, en, f"{msg}: cumulative energy", rtol=1e-7)
        close(basis.residual_energy, 1 - en, f"{msg}: residual energy", atol=1e-7)
        R = np.asarray(basis.rightvecs)
        check(R.shape == (k, keep), f"{msg}: rightvecs shape {R.shape}")
        q = min(keep, len(s))
        Wd = np.eye(n) if W is None else W
        close(L[:, :q].T @ Wd @ X @ R[:, :q], np.diag(s[:q]),
              f"{msg}: left and right vectors belong to the current data", rtol=1e-6)
        check(basis.compress(X).shape == (r, k), f"{msg}: compress")
        fresh = opinf.basis.PODBasis(**{crit[0]: crit[1]}, max_vectors=maxv, weights=w)
        set_solver(fresh, fitlabel, fitopts)
        fresh.fit(X)
        check(fresh.shape == basis.shape, f"{msg}: fresh basis has another shape")
        close(basis.entries[:, :q], fresh.entries[:, :q], f"{msg}: entries of a fresh basis",
              rtol=1e-10)
        close(sv, fresh.svdvals, f"{msg}: svdvals of a fresh basis", rtol=1e-10)
    g.tag(f"later={min(later, 3)}", label, crit[0], wkind, f"maxv={maxv is not None}")
    g.nontrivial(later >= 2)


TIES = ([2, 1, 1, 1, 1], [4, 2, 2, 2, 2], [2, 2, 2, 2], [1, 1], [4, 2, 2, 2, 1, 1, 1, 1],
        [1], [8, 4, 4, 4, 4])


@CHECK.sub(quick=500, rule="threshold equal to an attained value")
def ties(g):
    """Thresholds exactly equal to attained values: documented inequalities decide."""
    s = np.array(g.choice(TIES, "spectrum"), dtype=float) * g.choice([1.0, 2.0, 0.5], "scale")
    m = len(s)
    n = m + g.int(0, 4, "extra")
    U = g.orth(n, m, "U")
    V = g.orth(m + 1, m, "V") if g.bool("right") else None
    c = g.choice(CRITERIA[1:], "criterion")
    if c == "svdval_threshold":
        value = float(g.choice(s / s[0], "value"))
    else:
        vals = metric(c, s)[1:]
        vals = [v for v in vals if v > 0]
        if not vals:
            return
        value = float(g.choice(vals, "value"))
    expect = minimal(c, value, s, tie=0)
    if g.bool("set"):
        basis = opinf.basis.PODBasis.from_svd(U, s, V)
        check(basis.shape == (n, m), "from_svd keeps all vectors by default")
        basis.set_dimension(**{c: value})
    else:
        basis = opinf.basis.PODBasis.from_svd(U, s, V, **{c: value})
    check(basis.reduced_state_dimension == expect,
          f"{c}={value} for {s}: {basis.reduced_state_dimension} instead of {expect}")
    same(basis.entries, U[:, :expect], "entries")
    # the criteria functions on the same spectrum, in any order
    perm = s[g.perm(m, "perm")]
    if g.bool("ints"):
        perm = (perm * 2).astype(int)
    if c == "svdval_threshold":
        got = opinf.basis.svdval_decay(perm, threshold=value, plot=False)
        want = int(np.count_nonzero(s / s[0] > value))
    elif c == "cumulative_energy":
        got = opinf.basis.cumulative_energy(perm, threshold=value, plot=False)
        want = expect
    else:
        got = opinf.basis.residual_energy(perm, threshold=value, plot=False,
                                          sqrt=(c == "projection_error"))
        want = expect
    check(got == want, f"criteria function for {c}={value}, {perm}: {got} instead of {want}")
    g.tag(c)
    g.nontrivial()


@CHECK.sub(quick=800, rule="more than one singular value")
def helpers(g):
    """svdval_decay, cumulative_energy, residual_energy by brute force."""
    m = g.dim(1, 12, "m", 60)
    s = np.sort(g.uniform(0.01, 1, m, "s") ** g.choice([1, 4], "pow"))[::-1] * g.logscale(-4, 4)
    x = s[g.perm(m, "perm")] if m <= 12 else s[::-1].copy()
    which = g.choice(["svd", "cum", "res", "proj"], "which")
    cname = {"svd": "svdval_threshold", "cum": "cumulative_energy", "res": "residual_energy",
             "proj": "projection_error"}[which]
    ts = []
    for _ in range(g.int(1, 3, "nt")):
        t = float(g.choice([g.uniform(0.001, 0.999, None, "t"), 10.0 ** -g.int(1, 5, "e"),
                            1 - 10.0 ** -g.int(1, 5, "e")], "kind"))
        ts.append(t)
    scalar = len(ts) == 1 and g.bool("scalar")
    arg = ts[0] if scalar else ts
    with unchanged(x):
        if which == "svd":
            got = opinf.basis.svdval_decay(x, threshold=arg, plot=False)
        elif which == "cum":
            got = opinf.basis.cumulative_energy(x, threshold=arg, plot=False)
        else:
            got = opinf.basis.residual_energy(x, threshold=arg, plot=False, sqrt=which == "proj")
    if scalar:
        check(np.ndim(got) == 0, "scalar threshold gives a scalar")
        got = [got]
    check(len(got) == len(ts), "one rank per threshold")
    for t, r in zip(ts, got):
        want = minimal(cname, t, s)
        if want is not None:
            check(r == want, f"{which} threshold {t}: {r} instead of {want}")
    g.tag(which, "scalar" if scalar else "list")
    g.nontrivial(m > 1)


@CHECK.sub(quick=600, rule="more than one singular value")
def function(g):
    """pod_basis() and PODBasis agree with the criterion, in one step."""
    n, k = g.int(1, 12, "n"), g.int(1, 8, "k")
    w, W, wkind = B.weights(g, n, ("none", "none", "vector", "dense"))
    X, U, s, V = B.snapshots(g, n, k, W)
    m = min(n, k)
    c, value = draw_criterion(g, s)
    want = minimal(c, value, s)
    if want is None or s[-1] < 1e-5 * s[0]:
        return
    solver = g.choice(["dense", "dense", "method-of-snapshots"], "solver")
    right = g.bool("right")
    kw = {c: value}
    if g.bool("explicit Nones"):
        kw = {name: kw.get(name) for name in CRITERIA}
    if g.bool("numpy scalar"):
        kw[c] = (np.int64 if c == "num_vectors" else np.float64)(value)
    with unchanged(X):
        out = opinf.basis.pod_basis(X, svdsolver=solver, weights=w, return_rightvecs=right, **kw)
        basis = opinf.basis.PODBasis(svdsolver=solver, weights=w, **kw).fit(X)
    check(len(out) == 2 + right, f"pod_basis() returns {len(out)} arrays")
    Wd = np.eye(n) if W is None else W
    for E, label in ((out[0], "pod_basis()"), (basis.entries, "PODBasis")):
        check(E.shape == (n, want), f"{label} with {c}={value}: {E.shape[1]} instead of {want} "
              f"of {m} vectors")
        close(np.abs(np.diag(U[:, :want].T @ Wd @ E)), np.ones(want), label, rtol=1e-6)
    close(out[1][:want], (s / s[0])[:want], "pod_basis(): singular values", rtol=1e-6)
    if right:
        check(out[2].shape == (k, want), "pod_basis(): right vectors")
    g.tag(c, solver, wkind)
    g.nontrivial(m > 1)
