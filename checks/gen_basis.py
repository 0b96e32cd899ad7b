"""Generators for snapshot data with prescribed spectra, weights, and bases."""
import numpy as np
import scipy.sparse as sparse
import opinf


def spectrum(g, m, label="spec"):
    """m decreasing singular values with gaps of 1.3-2.2 between neighbours."""
    ratios = g.uniform(1.3, 2.2, m, label)
    s = 1.0 / np.cumprod(ratios)
    return s / s[0] * g.choice([1.0, 0.3, 20.0], label + ".scale")


def weights(g, n, kinds=("none", "none", "vector", "dense", "diag2d", "sparse")):
    """(constructor argument, dense SPD matrix or None, kind)."""
    kind = g.choice(kinds, "weights")
    if kind == "none":
        return None, None, kind
    if kind == "dense":
        A = g.normal((n, n), "W") / np.sqrt(n)
        W = A @ A.T + 0.5 * np.eye(n)
        W = (W + W.T) / 2
        return W.copy(), W, kind
    if kind == "tridiag":
        d = g.uniform(2.0, 4.0, n, "W")
        W = np.diag(d)
        if n > 1:
            W += np.diag(np.full(n - 1, 0.5), 1) + np.diag(np.full(n - 1, 0.5), -1)
        return sparse.dia_array(sparse.csr_array(W)), W, kind
    d = g.uniform(0.2, 3.0, n, "w")
    W = np.diag(d)
    if kind == "vector":
        return d, W, kind
    if kind == "diag2d":
        return W.copy(), W, kind
    fmt = g.choice(["csr", "csc", "dia"], "fmt")
    return sparse.diags_array([d], offsets=[0], shape=(n, n), format=fmt), W, kind


def snapshots(g, n, k, W=None, rank=None, label="X"):
    """X = U diag(s) V' with U' W U = I; returns X, U, s, V."""
    m = min(n, k) if rank is None else rank
    s = spectrum(g, m, label + ".s")
    Q = g.orth(n, m, label + ".U")
    V = g.orth(k, m, label + ".V")
    if W is None:
        U = Q
    else:
        lam, P = np.linalg.eigh(W)
        U = (P / np.sqrt(lam)) @ P.T @ Q
    return (U * s) @ V.T, U, s, V


def linear_basis(g, n, r, wkinds=("none", "none", "vector", "dense", "sparse"), name=None):
    """LinearBasis orthonormal in its weights; returns basis, entries, W."""
    w, W, kind = weights(g, n, wkinds)
    Q = g.orth(n, r, "V")
    if W is not None:
        lam, P = np.linalg.eigh(W)
        Q = (P / np.sqrt(lam)) @ P.T @ Q
    return opinf.basis.LinearBasis(Q, weights=w, name=name), Q, W, kind
