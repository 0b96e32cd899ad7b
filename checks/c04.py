"""C04: optimality of POD bases and consistency of (de)compression."""
import numpy as np
import opinf

from pbt.runner import Check
from pbt.oracle import check, close, same, unchanged, raises
from checks import gen_basis as B
from checks.gen_pre import draw_locs

CHECK = Check("C04", assumptions=[
    "singular values have relative gaps >= 1.3 so that singular vectors are well defined",
    "the method of snapshots is run on data whose eigenvalues exceed its threshold",
    "the randomized solver is given a random_state and enough components to be exact",
])


def linear_laws(g, basis, V, W, n, r, orthonormal=True):
    """compress/decompress/project laws for a linear basis with entries V."""
    m = g.int(1, 5, "ncols")
    Q = g.array((n, m), "Q")
    Z = g.array((r, m), "Z")
    single = g.bool("single")
    if single:
        Q, Z = Q[:, 0].copy(), Z[:, 0].copy()
    VtW = V.T if W is None else V.T @ W
    vs = np.abs(VtW).sum(axis=1).max()
    with unchanged(Q, Z, msg="(de)compression modified its argument"):
        C = basis.compress(Q)
        close(C, VtW @ Q, "compress", rtol=1e-10, scale=vs * np.abs(Q).max())
        D = basis.decompress(Z)
        close(D, V @ Z, "decompress", rtol=1e-10, scale=np.abs(V).max() * np.abs(Z).sum(axis=0).max())
        P = basis.project(Q)
        close(P, V @ (VtW @ Q), "project = decompress(compress)", rtol=1e-9,
              scale=vs * np.abs(Q).max())
        if orthonormal:
            close(basis.compress(D), Z, "compress(decompress(z)) = z", rtol=1e-9,
                  scale=vs * np.abs(D).max())
            close(basis.project(P), P, "project idempotent", rtol=1e-9,
                  scale=vs * np.abs(P).max())
        err = np.linalg.norm(Q - V @ (VtW @ Q))
        nq = np.linalg.norm(Q)
        close(basis.projection_error(Q, relative=False), err, "absolute projection error",
              rtol=1e-8, scale=nq * vs)
        if nq > 0:
            close(basis.projection_error(Q, relative=True), err / nq,
                  "relative projection error", rtol=1e-8, scale=vs)
            close(basis.projection_error(Q), err / nq, "default projection error",
                  rtol=1e-8, scale=vs)
        locs = draw_locs(g, n)
        close(basis.decompress(Z, locs=locs), (V @ Z)[locs], "decompress at locations",
              rtol=1e-10, scale=np.abs(V).max() * np.abs(Z).sum(axis=0).max())
        if not single:
            j = g.int(0, m - 1, "col")
            close(basis.compress(Q[:, j]), C[:, j], "compress is columnwise", rtol=1e-11,
                  scale=vs * np.abs(Q).max())
            close(basis.decompress(Z[:, j]), D[:, j], "decompress is columnwise", rtol=1e-11,
                  scale=np.abs(D).max())
            close(basis.project(Q[:, j]), P[:, j], "project is columnwise", rtol=1e-10,
                  scale=vs * np.abs(Q).max())


@CHECK.sub(quick=2500, rule="POD basis truncated below the rank, or weighted, or non-default solver")
def pod(g):
    n, k = g.dim(1, 14, "n", 60), g.dim(1, 12, "k", 40)
    solver = g.choice(["dense", "dense", "method-of-snapshots", "eigh", "randomized", "callable"],
                      "solver")
    w, W, wkind = B.weights(g, n)
    m = min(n, k, 10)
    rank = m if not g.rarely("deficient", 4) else g.int(1, m, "rank")
    X, U, s, V = B.snapshots(g, n, k, W, rank)
    r = g.int(1, rank, "r")
    opts, label = {}, solver
    if solver == "randomized":
        opts["random_state"] = g.int(0, 5, "random_state")
    if solver in ("eigh", "method-of-snapshots"):
        opts["minthresh"] = max(1e-15, 1e-4 * s[-1] ** 2 / k)
    if solver == "callable":
        calls = []

        def solver(A, **kw):
            calls.append(kw)
            return np.linalg.svd(A, full_matrices=False)
    maxv = g.choice([None, None, "r", "more"], "max_vectors")
    if maxv is not None:
        opts["max_vectors"] = r if maxv == "r" else r + g.int(0, 4, "extra")
    basis = opinf.basis.PODBasis(num_vectors=r, svdsolver=solver, weights=w,
                                 name=g.choice([None, "b"], "name"), **opts)
    A = X
    if g.rarely("threedim", 6) and k % 2 == 0:
        A = np.array([X[:, :k // 2], X[:, k // 2:]])
    nfits = g.choice([1, 1, 2], "nfits")
    with unchanged(A, msg="fit() modified the snapshots"):
        for it in range(nfits):
            if it == 0 and nfits == 2:      # earlier, unrelated fit
                basis.fit(B.snapshots(g, n, k, W, rank, "X0")[0])
                continue
            out = basis.fit(A)
            check(out is basis, "fit() must return self")
    tol = 1e-9
    if label in ("eigh", "method-of-snapshots"):
        tol += 1e-12 * (s[0] / s[-1]) ** 2
    Vr = np.asarray(basis.entries)
    close(basis.shape, (n, r), "shape")
    check(Vr.shape == (n, r), f"entries shape {Vr.shape} != {(n, r)}")
    check(basis.reduced_state_dimension == r and basis.full_state_dimension == n, "dimensions")
    Wd = np.eye(n) if W is None else W
    close(Vr.T @ Wd @ Vr, np.eye(r), "orthonormality in the weighted inner product", rtol=10 * tol)
    G = U[:, :r].T @ Wd @ Vr
    gap = 1.0 / 0.4
    close(np.abs(np.diag(G)), np.ones(r), "dominant singular vectors, in order",
          rtol=100 * tol * gap * (s[0] / s[r - 1]))
    close(G - np.diag(np.diag(G)), np.zeros((r, r)), "singular vectors separated",
          atol=100 * tol * gap * (s[0] / s[r - 1]))
    ns = min(r, len(basis.svdvals))
    close(basis.svdvals[:ns], s[:ns] / s[0], "normalized singular values", rtol=100 * tol)
    check(np.all(np.diff(basis.svdvals) <= 1e-12), "singular values in decreasing order")
    # optimality in the weighted norm
    E = X - Vr @ (Vr.T @ Wd @ X)
    close(np.sqrt(max(np.trace(E.T @ Wd @ E), 0)), np.sqrt((s[r:] ** 2).sum()),
          "optimal truncation error", rtol=1e-6, atol=1e-7 * s[0])
    exact_energy = not (label == "randomized" and maxv is not None)
    if exact_energy:
        en = (s[:r] ** 2).sum() / (s ** 2).sum()
        close(basis.cumulative_energy, en, "cumulative_energy", rtol=1e-7)
        close(basis.residual_energy, 1 - en, "residual_energy", atol=1e-7)
        if W is None:
            close(basis.projection_error(X) ** 2, 1 - en, "projection error^2 = residual energy",
                  atol=1e-7)
    # stored SVD factors
    check(basis.max_vectors >= r, "max_vectors >= r")
    if maxv is not None:
        check(basis.max_vectors <= min(opts["max_vectors"], n, k), "max_vectors honoured")
    R = np.asarray(basis.rightvecs)
    check(R.shape[0] == k and R.shape[1] >= r, f"rightvecs shape {R.shape}")
    close((Vr * s[:r]) @ R[:, :r].T, (U[:, :r] * s[:r]) @ V[:, :r].T,
          "leftvecs * svdvals * rightvecs' is the truncated data", rtol=1e-6)
    linear_laws(g, basis, Vr, W, n, r)
    if g.bool("fit_compress"):
        b2 = opinf.basis.PODBasis(num_vectors=r, svdsolver=solver, weights=w, **opts)
        close(np.abs(b2.fit_compress(X)), np.abs(Vr.T @ Wd @ X), "fit_compress",
              rtol=1e-4, scale=s[0])
    g.tag(label, wkind, "wide" if k > n else "tall", "deficient" if rank < m else "full")
    g.nontrivial(r < rank or W is not None or label != "dense")


@CHECK.sub(quick=1200, rule="weighted or non-orthogonal or r > 1")
def linear(g):
    n = g.dim(1, 12, "n", 60)
    r = g.int(1, min(n, 6), "r")
    orth = not g.rarely("nonorth", 4)
    if orth:
        basis, V, W, kind = B.linear_basis(g, n, r, ("none", "vector", "dense", "sparse", "tridiag"),
                                           name=g.choice([None, "b"], "name"))
    else:
        w, W, kind = B.weights(g, n)
        V = g.normal((n, r), "V")
        basis = opinf.basis.LinearBasis(V, weights=w, check_orthogonality=g.bool("chk"))
    check(basis.fit(g.normal((n, 3), "X")) is basis, "fit() returns self")
    check(basis.shape == (n, r), "shape")
    same(basis.entries, V, "fit() must not change the entries")
    same(basis[:], V, "indexing")
    linear_laws(g, basis, V, W, n, r, orthonormal=orth)
    close(basis.fit_compress(np.ones((n, 2))), basis.compress(np.ones((n, 2))), "fit_compress",
          rtol=1e-12)
    g.tag(kind, "orth" if orth else "nonorth")
    g.nontrivial(r > 1 or W is not None)


@CHECK.sub(quick=800, rule="more than one vector kept")
def functions(g):
    """method_of_snapshots() and pod_basis()."""
    n, k = g.int(1, 14, "n"), g.int(1, 8, "k")
    w, W, wkind = B.weights(g, n)
    m = min(n, k)
    X, U, s, V = B.snapshots(g, n, k, W)
    Wd = np.eye(n) if W is None else W
    tol = 1e-9 + 1e-12 * (s[0] / s[-1]) ** 2
    with unchanged(X):
        L, sv, Rt = opinf.basis.method_of_snapshots(
            X, inner_product_matrix=w, minthresh=1e-4 * s[-1] ** 2 / k)
    check(L.shape[1] == len(sv) == Rt.shape[0], "method_of_snapshots: consistent sizes")
    if k <= n:
        check(len(sv) == m, f"method_of_snapshots kept {len(sv)} of {m} positive eigenvalues")
    close(sv[:m], s[:len(sv)], "method_of_snapshots singular values", rtol=100 * tol)
    close(L.T @ Wd @ L, np.eye(len(sv)), "method_of_snapshots orthonormality", rtol=100 * tol)
    close(Rt @ Rt.T, np.eye(len(sv)), "right vectors orthonormal", rtol=1e-9)
    close((L * sv) @ Rt, X, "method_of_snapshots factorization", rtol=1e-6)
    r = g.int(1, m, "r")
    solver = g.choice(["dense", "method-of-snapshots", "randomized"], "solver")
    opts = {"random_state": 1} if solver == "randomized" else {}
    with unchanged(X):
        out = opinf.basis.pod_basis(X, num_vectors=r, svdsolver=solver, weights=w,
                                    return_rightvecs=g.bool("right"), **opts)
    Vr, sv = out[:2]
    check(Vr.shape == (n, r), "pod_basis shape")
    close(Vr.T @ Wd @ Vr, np.eye(r), "pod_basis orthonormality", rtol=100 * tol)
    close(sv[:r], (s / s[0])[:r], "pod_basis singular values", rtol=100 * tol)
    close(np.abs(np.diag(U[:, :r].T @ Wd @ Vr)), np.ones(r), "pod_basis vectors", rtol=1e-6)
    if len(out) == 3:
        check(out[2].shape == (k, r), "right vectors shape")
        close((Vr * s[:r]) @ out[2].T, (U[:, :r] * s[:r]) @ V[:, :r].T,
              "pod_basis truncated factorization", rtol=1e-6)
    full, _ = opinf.basis.pod_basis(X)
    check(full.shape == (n, m), "pod_basis keeps everything by default")
    g.tag(solver, wkind)
    g.nontrivial(m > 1)
