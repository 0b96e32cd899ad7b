"""Generators of operators together with an independent reference."""
import itertools

import numpy as np
import opinf
import scipy.sparse as sp

from pbt.oracle import check, close

ops = opinf.operators
DEGREE = {"c": 0, "A": 1, "H": 2, "G": 3, "Q": 4}
CLASSES = {"c": ops.ConstantOperator, "A": ops.LinearOperator,
           "H": ops.QuadraticOperator, "G": ops.CubicOperator,
           "Q": ops.QuarticOperator, "B": ops.InputOperator,
           "N": ops.StateInputOperator}
ALL = "cAHGQBN"


def tuples(r, p):
    """Index tuples i1 >= i2 >= ... >= ip in lexicographic order (documented)."""
    return [t for t in itertools.product(range(r), repeat=p)
            if all(t[a] >= t[a + 1] for a in range(p - 1))]


def kron_n(q, p):
    out = np.ones(1)
    for _ in range(p):
        out = np.kron(out, q)
    return out


class Ref:
    """out_a(q, u) = sum_d coef[a, d] prod_s q[idx[d][s]] (times u[l] for N, B)."""

    def __init__(self, kind, r, m, coef, p=None):
        self.kind, self.r, self.m = kind, r, m
        self.coef = np.array(coef, dtype=float)
        self.p = {"B": 0, "N": 1}.get(kind, DEGREE.get(kind)) if p is None else p
        if kind == "B":
            self.terms = [((), l) for l in range(m)]
        elif kind == "N":
            self.terms = [((i,), l) for l in range(m) for i in range(r)]
        else:
            self.terms = [(t, None) for t in tuples(r, self.p)]
        assert self.coef.shape == (r, len(self.terms)), (self.coef.shape, r, m, kind)

    @property
    def takes_input(self):
        return self.kind in "BN"

    def block(self, Q, U=None):
        """Rows of the data block at the columns of Q, U."""
        Q = np.asarray(Q, dtype=float)
        k = Q.shape[1]
        rows = []
        for t, l in self.terms:
            row = np.ones(k)
            for i in t:
                row = row * Q[i]
            rows.append(row if l is None else row * U[l])
        return np.array(rows)

    def __call__(self, q, u=None):
        Q = np.asarray(q, dtype=float).reshape(self.r, 1)
        U = None if u is None else np.asarray(u, dtype=float).reshape(-1, 1)
        return (self.coef @ self.block(Q, U))[:, 0]

    def batch(self, Q, U=None):
        return self.coef @ self.block(Q, U)

    def jac(self, q, u=None):
        q = np.asarray(q, dtype=float).reshape(self.r)
        u = None if u is None else np.asarray(u, dtype=float).reshape(-1)
        J = np.zeros((self.r, self.r))
        for d, (t, l) in enumerate(self.terms):
            f = 1.0 if l is None else u[l]
            for s in range(len(t)):
                val = f
                for s2 in range(len(t)):
                    if s2 != s:
                        val = val * q[t[s2]]
                J[:, t[s]] += self.coef[:, d] * val
        return J

    def scale(self, q, u=None):
        """Sum of absolute values of the terms (a rounding scale)."""
        Q = np.abs(np.asarray(q, dtype=float)).reshape(self.r, -1)
        U = None if u is None else np.abs(np.asarray(u, dtype=float)).reshape(self.m, -1)
        return float((np.abs(self.coef) @ self.block(Q, U)).max(initial=0.0))

    def __add__(self, other):
        return Ref(self.kind, self.r, self.m, self.coef + other.coef, self.p)

    def galerkin(self, V, W):
        """out(qr) = (W'V)^-1 W' self(V qr) as a function."""
        G = np.linalg.inv(W.T @ V) @ W.T

        def f(qr, u=None):
            return G @ self(V @ qr, u)
        return f


def entries_of(g, kind, r, m, fmt=None, label="E", p=None):
    """Draw (argument for set_entries, Ref)."""
    kinds = ("normal", "ints", "scaled")
    if kind == "c" or (kind == "P" and p == 0):
        c = g.array((r,), label, kinds)
        form = fmt or g.choice(["1d", "col"] + ([] if kind == "P" else ["row"])
                               + (["scalar"] if r == 1 and kind == "c" else []), label + ".form")
        arg = {"1d": c, "col": c[:, None], "row": c[None, :],
               "scalar": float(c[0])}[form]
        return arg, Ref(kind, r, m, c[:, None], 0 if kind == "P" else None)
    if kind == "A":
        A = g.array((r, r), label, kinds)
        form = fmt or g.choice(["dense", "dense", "csr", "csc", "coo"]
                               + (["scalar", "one"] if r == 1 else []), label + ".form")
        if form in ("csr", "csc", "coo"):
            A = A * (np.abs(A) > 0.5)
            arg = getattr(sp, form + "_array")(A)
        elif form == "scalar":
            arg = float(A[0, 0])
        elif form == "one":
            arg = A[0]
        else:
            arg = A
        return arg, Ref(kind, r, m, A)
    if kind == "B":
        B = g.array((r, m), label, kinds)
        arg = B
        if m == 1:
            form = fmt or g.choice(["2d", "1d"] + (["scalar"] if r == 1 else []), label + ".form")
            arg = {"2d": B, "1d": B[:, 0], "scalar": float(B[0, 0])}[form]
        return arg, Ref(kind, r, m, B)
    if kind == "N":
        N = g.array((r, r * m), label, kinds)
        arg = N
        if r == m == 1 and fmt is None:
            arg = g.choice([N, N[0], float(N[0, 0])], label + ".form")
        return arg, Ref(kind, r, m, N)
    if kind == "P":
        E = g.array((r, len(tuples(r, p))), label, kinds)
        return E, Ref(kind, r, m, E, p)
    # homogeneous polynomials
    p = DEGREE[kind]
    tt = tuples(r, p)
    form = fmt or g.choice(["compressed", "full", "tensor"]
                           + (["scalar", "one"] if r == 1 else []), label + ".form")
    if form == "compressed":
        E = g.array((r, len(tt)), label, kinds)
        return E, Ref(kind, r, m, E)
    F = g.array((r, r ** p), label, kinds)
    if g.rarely(label + ".sym", 3):
        T = F.reshape((r,) * (p + 1))
        T = sum(T.transpose((0,) + tuple(1 + a for a in s))
                for s in itertools.permutations(range(p)))
        F = T.reshape(r, r ** p)
    pos = {t: d for d, t in enumerate(tt)}
    C = np.zeros((r, len(tt)))
    for c, t in enumerate(itertools.product(range(r), repeat=p)):
        C[:, pos[tuple(sorted(t, reverse=True))]] += F[:, c]
    arg = {"full": F, "tensor": F.reshape((r,) * (p + 1)),
           "one": F[0], "scalar": float(F[0, 0])}[form]
    ref = Ref(kind, r, m, C)
    ref.full = F
    return arg, ref


def dims(g, kinds, label="r"):
    """State dimension bounded by the most expensive kind."""
    top = max([DEGREE.get(k, 1) for k in kinds] + [1])
    hi, big = {1: (7, 30), 2: (6, 14), 3: (5, 8), 4: (4, 6)}[top]
    return g.dim(1, hi, label, big)


def operator(g, kind=None, r=None, m=None, fmt=None, kinds=ALL):
    kind = kind or g.choice(kinds, "kind")
    r = r or dims(g, kind)
    m = m or g.choice([1, 2, 3, 1, 4], "m")
    arg, ref = entries_of(g, kind, r, m, fmt)
    return CLASSES[kind](arg), ref


def dense(entries):
    E = entries.toarray() if sp.issparse(entries) else np.asarray(entries)
    return E[:, None] if E.ndim == 1 else E


def draw_state(g, r, label="q"):
    kind = g.choice(["normal", "normal", "ints", "scaled", "zero"], label + ".kind")
    if kind == "zero":
        q = g.rng(label).standard_normal(r)
        q[g.int(0, r - 1, label + ".i")] = 0.0
        return q
    if kind == "ints":
        return g.rng(label).integers(-4, 5, r).astype(float)
    q = g.rng(label).standard_normal(r)
    return q * 10.0 ** g.int(-2, 2, label + ".s") if kind == "scaled" else q


def same_operator(op, ref, g, msg, label="probe"):
    """op and ref agree on a random state / input (identity of polynomials)."""
    rng = g.rng(label)
    q, u = rng.standard_normal(ref.r), rng.standard_normal(ref.m)
    close(np.reshape(op.apply(q, u if ref.takes_input else None), ref.r), ref(q, u), msg,
          rtol=1e-9, scale=ref.scale(q, u))
