"""C03: transform_ddts is the derivative of transform; liftings obey the chain rule."""
import warnings

import numpy as np
import opinf

from pbt.runner import Check
from pbt.oracle import check, close, same, unchanged, raises
from checks import gen_pre as P
from checks.c01 import any_transformer

CHECK = Check("C03", assumptions=[
    "unlifting from powers alone (order 1 not among the orders) is only claimed for "
    "positive states; fractional and negative orders only for positive states",
])


@CHECK.sub(quick=4000, rule="trained transformer with a non-identity linear part or shift")
def transform_derivatives(g):
    lf, n, sizes = any_transformer(g)
    tf = lf.tf
    if lf.learn is None:
        a, b = P.set_shiftscale(g, tf, n)
        if tf.state_dimension is None:
            tf.state_dimension = n
    else:
        k = g.dim(2, 8, "k", 60)
        X = P.multi_data(g, sizes, k)
        if not P.degenerate_free(lf, X):
            g.tag("degenerate")
            return
        if g.bool("fit_transform"):
            tf.fit_transform(X)
        else:
            tf.fit(X)
        a, b = lf.learn(X)
    m = g.int(1, 6, "m")
    D = g.array((n, m), "D")
    Q = g.array((n, m), "Q")
    if g.bool("single"):
        D, Q = D[:, 0].copy(), Q[:, 0].copy()
        A = a
    else:
        A = a[:, None]
    with unchanged(D, msg="transform_ddts(inplace=False) modified its argument"):
        out = tf.transform_ddts(D, inplace=False)
    check(out is not NotImplemented, "transform_ddts not implemented")
    check(not np.shares_memory(out, D), "transform_ddts(inplace=False) aliases its argument")
    close(out, A * D, "transform_ddts != linear part of the transformation", rtol=1e-8,
          scale=np.abs(a).max() * np.abs(D).max())
    Dc = D.copy()
    out2 = tf.transform_ddts(Dc, inplace=True)
    check(out2 is Dc, "transform_ddts(inplace=True) must return its argument")
    close(out2, out, "in-place transform_ddts", rtol=1e-12)
    # affine: transform(Q + D) - transform(Q) = transform_ddts(D), row by row
    diff = tf.transform(Q + D) - tf.transform(Q)
    for i in range(n):
        close(out[i], diff[i], f"transform_ddts vs transform difference, row {i}", rtol=1e-8,
              scale=np.abs(a[i]) * (np.abs(Q[i]).max() + np.abs(D[i]).max()) + np.abs(b[i]))
    if D.ndim == 2:
        for j in range(D.shape[1]):
            close(tf.transform_ddts(D[:, j], inplace=False), out[:, j], f"column {j}",
                  rtol=1e-11, scale=np.abs(out).max())
        # differentiate then transform == transform then differentiate
        t = np.arange(5) * 0.1
        coef = g.normal((3, n), "traj")
        S = coef[0][:, None] + coef[1][:, None] * t + coef[2][:, None] * t ** 2
        dS = coef[1][:, None] + 2 * coef[2][:, None] * t
        T = tf.transform(S)
        dT = opinf.ddt.ddt_uniform(T, 0.1, order=2)
        close(tf.transform_ddts(dS, inplace=False), dT, "d/dt transform(S)", rtol=1e-7,
              scale=max(np.abs(dT).max(), np.abs(T).max() * 10))
    g.tag(lf.desc.split("(")[0].split("-")[0])
    g.nontrivial(not np.allclose(a, 1) or not np.allclose(b, 0))


@CHECK.sub(quick=2500, rule="at least two orders, or an order other than 0 and 1")
def lifting(g):
    n, k = g.dim(1, 6, "n", 40), g.dim(1, 6, "k", 40)
    quad = g.rarely("quadratic", 3)
    if quad:
        orders = (1, 2)
        lifter = g.choice([opinf.lift.QuadraticLifter, opinf.lift.QuadraticLifter()], "cls")
        positive = g.bool("positive")
    else:
        pool = [1, 2, 3, 4, 0, -1, 0.5, -2, 1.5, 5]
        orders = tuple(g.choice(pool, "order") for _ in range(g.int(1, 4, "norders")))
        if all(p == 0 for p in orders):
            orders += (2,)
        whole = all(isinstance(p, int) and p >= 0 for p in orders)
        positive = not (whole and 1 in orders) or g.bool("positive")
        if len(orders) == 1 and g.bool("scalar"):
            lifter = opinf.lift.PolynomialLifter(orders[0])
        else:
            lifter = opinf.lift.PolynomialLifter(g.choice([tuple, list], "seq")(orders))
        if g.rarely("reassign", 5):
            lifter.orders = tuple(reversed(orders))
            orders = tuple(reversed(orders))
        check(lifter.num_variables == len(orders), "num_variables")
    Q = g.uniform(0.3, 2.5, (n, k), "Q")
    if not positive:
        Q *= np.where(g.uniform(0, 1, (n, k), "sign") < 0.5, -1, 1)
        if g.rarely("zeros", 4):
            Q[g.uniform(0, 1, (n, k), "zero") < 0.4] = 0.0
            g.tag("zeros")
    dQ = g.normal((n, k), "dQ")
    with unchanged(Q, dQ):
        L = lifter.lift(Q)
        expect = np.concatenate([np.ones_like(Q) if p == 0 else Q ** p for p in orders])
        close(L, expect, "lift", rtol=1e-12)
        U = lifter.unlift(L)
        close(U, Q, "unlift(lift(q))", rtol=1e-10)
        dL = lifter.lift_ddts(Q, dQ)
        dexp = np.concatenate([
            np.zeros_like(Q) if p == 0 else dQ if p == 1 else p * Q ** (p - 1) * dQ
            for p in orders])
        close(dL, dexp, "lift_ddts", rtol=1e-10)
        # along the trajectory Q + t dQ (chain rule seen from outside)
        h = 1e-4
        num = (-lifter.lift(Q + 2 * h * dQ) + 8 * lifter.lift(Q + h * dQ)
               - 8 * lifter.lift(Q - h * dQ) + lifter.lift(Q - 2 * h * dQ)) / (12 * h)
        close(dL, num, "lift_ddts vs differentiated lift", rtol=1e-6,
              scale=max(np.abs(dexp).max(), np.abs(L).max()))
        j = g.int(0, k - 1, "col")
        close(lifter.lift(Q[:, j:j + 1]), L[:, j:j + 1], "lift is columnwise", rtol=1e-13)
        close(lifter.lift_ddts(Q[:, j:j + 1], dQ[:, j:j + 1]), dL[:, j:j + 1],
              "lift_ddts is columnwise", rtol=1e-13)
        close(lifter.unlift(L[:, j:j + 1]), Q[:, j:j + 1], "unlift is columnwise", rtol=1e-10)
    g.tag("quadratic" if quad else "polynomial", "positive" if positive else "signed")
    g.nontrivial(len(orders) > 1 or orders[0] not in (0, 1))


class NoDerivative(opinf.pre.TransformerTemplate):
    """A user's transformer that does not say how derivatives transform."""

    def fit_transform(self, states, inplace=False):
        self.state_dimension = states.shape[0]
        return self.transform(states, inplace)

    def transform(self, states, inplace=False):
        Y = states if inplace else states.copy()
        Y *= 2
        return Y

    def inverse_transform(self, states_transformed, inplace=False, locs=None):
        Y = states_transformed if inplace else states_transformed.copy()
        Y /= 2
        return Y


@CHECK.sub(quick=500, rule="a composite with a member without derivatives")
def undefined_derivatives(g):
    """A composite transforms derivatives if and only if all of its members do."""
    n = g.int(1, 4, "n")

    def draw(depth, label):
        """(transformer, number of variables it covers, defined?)"""
        kind = g.choice(["leaf", "leaf", "own"] + ["pipeline"] * (depth > 0), label)
        if kind == "leaf":
            return P.leaf(g, n, kinds=("ss", "shift", "scale", "null"), name=False).tf, True
        if kind == "own":
            return NoDerivative(), False
        parts = [draw(depth - 1, f"{label}.{i}") for i in range(g.int(1, 3, label + ".len"))]
        return opinf.pre.TransformerPipeline([p for p, _ in parts]), all(d for _, d in parts)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        parts = [draw(2, f"p{i}") for i in range(g.int(1, 3, "parts"))]
        if len(parts) > 1 or g.bool("multi"):
            tf = opinf.pre.TransformerMulti([p for p, _ in parts], [n] * len(parts))
        else:
            tf = parts[0][0]
    defined = all(d for _, d in parts)
    N = n * len(parts)
    tf.fit(P.spread_data(g, N, 6))
    D = g.normal((N, 3), "D")
    with unchanged(D, msg="transform_ddts(inplace=False) modified its argument"):
        out = tf.transform_ddts(D, inplace=False)
    check((out is NotImplemented) is not defined,
          f"transform_ddts() returned {type(out).__name__}, defined: {defined}")
    if defined:
        check(out.shape == D.shape, f"transform_ddts() returned shape {out.shape}")
    else:
        Q = g.normal((N, 3), "Q")
        close(tf.inverse_transform(tf.transform(Q)), Q, "round trip", rtol=1e-9,
              scale=1 + np.abs(Q).max())
    g.tag("defined" if defined else "undefined")
    g.nontrivial(not defined and not isinstance(tf, NoDerivative))
