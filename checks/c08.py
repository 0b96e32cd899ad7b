"""C08: operators evaluate the polynomial their entries represent."""
import itertools

import numpy as np
import opinf
import scipy.sparse as sp

from pbt.runner import Check
from pbt.oracle import check, close, same, unchanged, raises
from checks.gen_ops import (ALL, CLASSES, DEGREE, Ref, dense, dims, draw_state,
                            entries_of, kron_n, operator, tuples)

ops = opinf.operators
CHECK = Check("C08", assumptions=[
    "rounding is bounded by 1e-10 of the sum of the absolute values of the terms",
])
TOL = 1e-10


def batch(g, r, m, k=None):
    k = k or g.choice([1, 2, 3, 5, r, m], "k")
    Q = g.array((r, k), "Q", ("normal", "ints", "scaled"))
    U = g.array((m, k), "U", ("normal", "ints"))
    return Q, U


def verify_op(g, op, ref, msg):
    r, m = ref.r, ref.m
    Q, U = batch(g, r, m)
    k = Q.shape[1]
    uu = ref.takes_input or g.bool("pass.u")
    Ua = U if uu else None
    s = ref.scale(Q, U)
    with unchanged(Q, U, op.entries):
        out = op.apply(Q, Ua)
        close(out, ref.batch(Q, U), f"{msg}: batch", TOL, scale=s)
        for j in range(k):
            sj = ref.scale(Q[:, j], U[:, j])
            qj, uj = Q[:, j].copy(), U[:, j].copy()
            close(op.apply(qj, uj if uu else None), ref(qj, uj),
                  f"{msg}: single state", TOL, scale=sj)
    # other documented orientations of one-dimensional quantities
    u0 = U[:, 0]
    if m == 1 and uu:
        for u in (u0, float(u0[0]), np.float64(u0[0])):
            out = op.apply(Q[:, 0], u)
            close(np.reshape(out, r), ref(Q[:, 0], u0), f"{msg}: scalar input", TOL, scale=s)
        out = op.apply(Q, U[0])
        close(np.reshape(out, (r, k)), ref.batch(Q, U), f"{msg}: 1-D inputs", TOL, scale=s)
    if r == 1 and ref.kind != "P":
        out = op.apply(float(Q[0, 0]), (float(u0[0]) if m == 1 else u0) if uu else None)
        close(np.reshape(out, 1), ref(Q[:, 0], u0), f"{msg}: scalar state", TOL, scale=s)
        out = op.apply(Q[0], (U[0] if m == 1 else U) if uu else None)
        close(np.reshape(out, (1, k)), ref.batch(Q, U), f"{msg}: 1-D states", TOL, scale=s)
    # integers are numbers too
    Qi = g.rng("Qi").integers(-3, 4, (r, k))
    Ui = g.rng("Ui").integers(-3, 4, (m, k))
    close(op.apply(Qi, Ui), ref.batch(Qi, Ui), f"{msg}: integer batch", TOL,
          scale=ref.scale(Qi, Ui))
    close(op.apply(Qi[:, 0], Ui[:, 0]), ref(Qi[:, 0], Ui[:, 0]), f"{msg}: integer state",
          TOL, scale=ref.scale(Qi, Ui))
    # the data block
    with unchanged(Q, U):
        D = op.datablock(Q, U)
        D2 = type(op).datablock(Q, U) if ref.kind != "P" else D
    same(D, D2, "static datablock")
    d = op.operator_dimension(r, m)
    check(d == len(ref.terms), f"{msg}: operator_dimension {d} != {len(ref.terms)}")
    close(D, ref.block(Q, U), f"{msg}: datablock", TOL)
    close(dense(op.entries) @ D, ref.batch(Q, U), f"{msg}: entries @ datablock", TOL, scale=s)
    if r == 1:
        close(op.datablock(Q[0], U), D, f"{msg}: datablock of 1-D states", 0)
    if m == 1:
        close(op.datablock(Q, U[0]), D, f"{msg}: datablock of 1-D inputs", 0)
    # bookkeeping
    E = dense(op.entries)
    check(E.shape == (r, d), f"{msg}: entries shape {E.shape}")
    check(op.shape == op.entries.shape and op.state_dimension == r, f"{msg}: shape")
    check(isinstance(op, opinf.operators.InputMixin) == ref.takes_input, f"{msg}: has_inputs")
    if ref.takes_input:
        check(op.input_dimension == m, f"{msg}: input_dimension")
    if not sp.issparse(op.entries):
        same(op[0], op.entries[0], f"{msg}: indexing")


@CHECK.sub(quick=3000, rule="r > 1, and m > 1 for operators with inputs")
def apply(g):
    op, ref = operator(g)
    g.tag(ref.kind, f"r={min(ref.r, 5)}", "sparse" if sp.issparse(op.entries) else "dense")
    if hasattr(ref, "full"):
        g.tag("full")
        q = draw_state(g, ref.r)
        close(op.apply(q), ref.full @ kron_n(q, DEGREE[ref.kind]), "full Kronecker formula",
              TOL, scale=ref.scale(q))
    verify_op(g, op, ref, ref.kind)
    g.nontrivial(ref.r > 1 and (ref.m > 1 or not ref.takes_input))


@CHECK.sub(quick=1200, rule="r > 1 and order > 1")
def polynomial(g):
    p = g.int(0, 6, "order")
    r = g.dim(1, {0: 6, 1: 6, 2: 6, 3: 5, 4: 4, 5: 3, 6: 3}[p], "r", 7 if p < 4 else 4)
    arg, ref = entries_of(g, "P", r, 1, p=p)
    op = ops.PolynomialOperator(g.choice([p, float(p)], "type"), arg)
    check(op.polynomial_order == p, "polynomial_order")
    if p in (2, 3, 4):
        twin = CLASSES["AHGQ"[p - 1]](arg)
        q = draw_state(g, r)
        close(op.apply(q), twin.apply(q), "equals the dedicated operator", TOL, scale=ref.scale(q))
        same_block = twin.datablock(q[:, None])
        close(op.datablock(q[:, None]), same_block, "same data block", TOL)
    verify_op(g, op, ref, f"P{p}")
    other, ref2 = entries_of(g, "P", r, 1, p=p, fmt="1d" if arg.ndim == 1 else "col", label="E2")
    op2 = ops.PolynomialOperator(p, other)
    s = op + op2
    check(s.polynomial_order == p and type(s) is type(op), "sum")
    q = draw_state(g, r, "q2")
    close(s.apply(q), ref(q) + ref2(q), "sum", TOL, scale=ref.scale(q) + ref2.scale(q))
    c = op.copy()
    check(c == op and c is not op and c.polynomial_order == p, "copy")
    g.tag(f"order {p}")
    g.nontrivial(r > 1 and p > 1)


@CHECK.sub(quick=1500, rule="r > 1")
def helpers(g):
    """ckron, ckron_indices, compress_entries, expand_entries."""
    kind = g.choice("HGQ", "kind")
    C, p = CLASSES[kind], DEGREE[kind]
    r = dims(g, kind)
    tt = tuples(r, p)
    same(C.ckron_indices(r), np.array(tt), "ckron_indices")
    k = g.int(1, 4, "k")
    Q = g.array((r, k), "Q", ("normal", "ints"))
    want = np.array([np.prod(Q[list(t)], axis=0) for t in tt])
    with unchanged(Q):
        close(C.ckron(Q), want, "ckron of a matrix", TOL)
        close(C.ckron(Q[:, 0]), want[:, 0], "ckron of a vector", TOL)
    a = g.int(1, 4, "a")
    F = g.array((a, r ** p), "F", ("normal", "ints"))
    pos = {t: d for d, t in enumerate(tt)}
    cols = [pos[tuple(sorted(t, reverse=True))] for t in itertools.product(range(r), repeat=p)]
    want = np.zeros((a, len(tt)))
    for c, d in enumerate(cols):
        want[:, d] += F[:, c]
    with unchanged(F):
        Fc = C.compress_entries(F)
    close(Fc, want, "compress_entries", TOL, scale=np.abs(F).max() * 24)
    count = np.bincount(cols, minlength=len(tt))
    with unchanged(Fc):
        Fe = C.expand_entries(Fc)
    close(Fe, (Fc / count)[:, cols], "expand_entries is the symmetric representative", TOL)
    close(C.compress_entries(Fe), Fc, "compress(expand)", TOL)
    q = Q[:, 0]
    close(Fe @ kron_n(q, p), Fc @ C.ckron(q), "expanded and compressed agree", TOL,
          scale=np.abs(Fe).max() * np.abs(kron_n(q, p)).max() * r ** p)
    if a == 1:
        close(C.compress_entries(F[0]), Fc, "compress_entries of a row", TOL)
        close(C.expand_entries(Fc[0]), Fe, "expand_entries of a row", TOL)
    check(C.operator_dimension(r) == len(tt), "operator_dimension")
    g.tag(kind)
    g.nontrivial(r > 1)


@CHECK.sub(quick=1500, rule="at least one change of entries")
def history(g):
    """Entries set, deleted, added, copied: always the current polynomial."""
    kind = g.choice(ALL + "P", "kind")
    p = g.int(0, 4, "p") if kind == "P" else None
    new = (lambda *a: ops.PolynomialOperator(p, *a)) if kind == "P" else CLASSES[kind]
    live = [(new(), None)]
    changes = 0
    for step in range(g.int(2, 7, "steps")):
        i = g.int(0, len(live) - 1, "which")
        op, ref = live[i]
        act = g.choice(["set", "set", "prop", "del", "copy", "add", "jac", "poke"], "act")
        if act in ("set", "prop"):
            r = g.int(1, 4, "r")
            m = g.int(1, 3, "m")
            arg, ref = entries_of(g, kind, r, m, p=p)
            if act == "set":
                op.set_entries(arg)
            else:
                op.entries = arg
            changes += 1
        elif act == "del":
            del op.entries
            ref = None
            changes += 1
            check(op.entries is None and op.shape is None and op.state_dimension is None,
                  "entries deleted")
            if kind in "BN":
                check(op.input_dimension is None, "input_dimension of empty operator")
        elif act == "copy":
            c = op.copy()
            check(c is not op and type(c) is type(op), "copy type")
            check(c == op, "copy equals original")
            if ref is not None:
                check(c.entries is not op.entries, "copy shares entries")
            if len(live) < 3:
                live.append((c, ref))
            continue
        elif act == "add":
            if ref is None:
                continue
            fmt = "dense" if kind == "A" else None
            arg, ref2 = entries_of(g, kind, ref.r, ref.m, fmt=fmt, label="E2", p=p)
            if kind == "P" and p == 0:
                arg = np.reshape(arg, op.entries.shape)
            o2 = new(arg)
            with unchanged(op.entries, o2.entries):
                s = op + o2
            check(type(s) is type(op), "sum type")
            want = ref + ref2
            rng = g.rng("probe.add")
            q, u = rng.standard_normal(ref.r), rng.standard_normal(ref.m)
            close(np.reshape(s.apply(q, u), -1), want(q, u), "sum", TOL,
                  scale=ref.scale(q, u) + ref2.scale(q, u))
            if len(live) < 3:
                live.append((s, want))
        elif act == "jac":
            if ref is not None:
                op.jacobian(np.ones(ref.r), np.ones(ref.m))
            continue
        elif act == "poke":
            # an in-place edit before any Jacobian is a change of the entries
            if ref is None or sp.issparse(op.entries) or getattr(op, "_prejac", None) is not None:
                continue
            c = op.copy()
            c.entries[...] = 7.0
            del c
        live[i] = (op, ref)
        for o, rf in live:
            if rf is None:
                check(o.entries is None, "still empty")
                raises((AttributeError, ValueError), lambda: o.apply(np.ones(2), np.ones(2)), "empty")
                continue
            rng = g.rng("probe")
            q, u = rng.standard_normal(rf.r), rng.standard_normal(rf.m)
            close(np.reshape(o.apply(q, u), -1), rf(q, u), "apply after history", TOL,
                  scale=rf.scale(q, u))
            k = 3
            Q, U = rng.standard_normal((rf.r, k)), rng.standard_normal((rf.m, k))
            close(o.apply(Q, U), rf.batch(Q, U), "batch after history", TOL, scale=rf.scale(Q, U))
            J = o.jacobian(q, u)
            J = np.zeros((rf.r, rf.r)) if np.isscalar(J) and J == 0 else J
            close(J, rf.jac(q, u), "jacobian after history", TOL,
                  scale=(rf.p + 1) * np.abs(rf.coef).max() * rf.coef.shape[1]
                  * (1 + np.abs(q).max()) ** 4 * (1 + np.abs(u).max()))
            others = [(o2, rf2) for o2, rf2 in live if o2 is not o]
            for o2, rf2 in others:
                eq = (rf2 is not None and rf2.coef.shape == rf.coef.shape
                      and np.array_equal(rf.coef, rf2.coef))
                if not eq and kind in "cAGHQBN":
                    check(not (o == o2) or np.allclose(rf.coef, rf2.coef), "unequal operators equal")
    g.tag(kind)
    g.nontrivial(changes > 0)
