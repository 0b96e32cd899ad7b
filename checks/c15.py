"""C15: least-squares solvers return the minimisers of their objectives."""
import os

import numpy as np
import opinf

from pbt.runner import Check
from pbt.oracle import check, close, same, unchanged
from checks.gen_lstsq import (CLASS, KINDS, L, REGULARIZED, Problem, Setting, problem,
                              regularized_solution, setting)
from checks.gen_ops import CLASSES, DEGREE, tuples
from checks.gen_par import AffineRef  # noqa: F401

CHECK = Check("C15", assumptions=[
    "data matrices with prescribed singular values: condition number at most 1e3 on their "
    "range, exactly rank deficient otherwise; d <= 8, r <= 4, k <= 20",
    "ordinary least squares on rank-deficient data only with an explicit cutoff cond=1e-10",
    "regularizers with which the stacked matrix has full column rank; solutions compared at "
    "a relative tolerance of 1e-13 times the squared condition number plus 1e-10",
    "truncation levels 1 <= d' <= rank with gaps between consecutive singular values",
])


def tolerance(kappa):
    return 1e-10 + 1e-13 * kappa ** 2


def expect(S, P):
    """Reference solution and tolerance of setting S on problem P."""
    if S.kind in REGULARIZED:
        X, kappa = regularized_solution(P.D, P.Z, S.gammas)
        if P.d > P.rank and not all(G.any() for G in S.gammas):
            return None, None
        return X, tolerance(kappa)
    if S.kind == "tls":
        M = np.hstack([P.D, P.Z.T])
        V = np.linalg.svd(M)[2].T
        return -np.linalg.solve(V[P.d:, P.d:].T, V[:P.d, P.d:].T), None
    n = P.rank
    if S.kind == "tsvd":
        n = modes(S.modes, min(P.k, P.d))
    U, s, Vt = np.linalg.svd(P.D, full_matrices=False)
    return ((P.Z @ U[:, :n]) / s[:n]) @ Vt[:n], tolerance(s[0] / s[n - 1])


def modes(requested, available):
    if requested is None:
        return available
    return min(requested if requested > 0 else available + requested, available)


def draw_lhs(g, P, label="flat"):
    return P.Z[0] if P.r == 1 and g.bool(label) else P.Z


def same_solution(solver, S, P, msg):
    want, tol = expect(S, P)
    if want is None:
        return
    got = solver.solve()
    check(isinstance(got, np.ndarray) and got.shape == (P.r, P.d), msg + ": shape of solve()")
    scale = np.abs(P.Z).max() / P.svals[0]
    if S.kind == "plain" or S.kind == "tsvd":
        scale = max(scale, np.abs(P.Z).max() / P.svals[P.rank - 1]) if S.kind == "plain" else scale
    close(got, want, msg + ": solve()", tol, scale=scale)


@CHECK.sub(quick=1500, rule="more unknowns than one, regularizer not a multiple of the identity")
def regularized(g):
    kind = g.choice(REGULARIZED, "kind")
    P = problem(g)
    S = setting(g, kind, P.r, P.d, zero_ok=P.rank == P.d)
    late = g.bool("late")
    with unchanged(P.D, P.Z, msg="fit() or solve() modified the data"):
        solver = S.make(with_reg=not late)
        check(solver.k is None and solver.d is None and solver.r is None, "dims before fit")
        out = solver.fit(P.D, draw_lhs(g, P))
        check(out is solver, "fit() returns the solver")
        if late:
            solver.regularizer = S.arg
        same_solution(solver, S, P, kind)
    check((solver.k, solver.d, solver.r) == (P.k, P.d, P.r), "k, d, r")
    same(solver.data_matrix, P.D, "data_matrix")
    same(solver.lhs_matrix, P.Z, "lhs_matrix")
    # definitions at an arbitrary operator matrix
    O = g.normal((P.r, P.d), "O")
    res = ((P.D @ O.T - P.Z.T) ** 2).sum(axis=0)
    pen = np.array([((G @ o) ** 2).sum() for G, o in zip(S.gammas, O)])
    arg = O[0] if P.r == 1 and kind != "tikdec" and g.bool("flatO") else O
    with unchanged(O, msg="residual() modified its argument"):
        close(solver.residual(arg), res, "residual()", 1e-11)
        close(solver.regresidual(arg), res + pen, "regresidual()", 1e-11)
    stacked = [np.linalg.svd(np.vstack([P.D, G]), compute_uv=False) for G in S.gammas]
    conds = np.array([s[0] / s[-1] for s in stacked])
    if P.rank == min(P.k, P.d):
        close(solver.cond(), P.svals[0] / P.svals[-1], "cond()", 1e-9)
    if np.all(np.isfinite(conds)) and conds.max() < 1e6:
        close(solver.regcond(), conds[0] if kind in ("l2", "tik") else conds, "regcond()", 1e-7)
    # minimality over perturbations (independent of the closed form)
    X = solver.solve()
    base = solver.regresidual(X)
    other = solver.regresidual(X + 1e-2 * (1 + np.abs(X).max()) * O)
    check(np.all(base <= other * (1 + 1e-9) + 1e-12), "a better operator matrix exists")
    if P.k >= P.d and P.rank == P.d and np.all(base > 1e-8 * (P.Z ** 2).sum(axis=1)):
        mean, precisions = solver.posterior()
        same_shape = len(precisions) == P.r
        check(same_shape, "one precision matrix per row")
        want, tol = expect(S, P)
        close(mean, want, "posterior mean", tol, scale=np.abs(P.Z).max() / P.svals[0])
        for i in range(P.r):
            sig = base[i] / P.k
            lam = (P.D.T @ P.D + S.gammas[i].T @ S.gammas[i]) / sig
            close(precisions[i], lam, "posterior precision", 1e-8)
    g.tag(kind, S.method if kind.startswith("tik") else "svd", f"rank{P.rank < min(P.k, P.d)}")
    g.nontrivial(P.d > 1 and kind != "l2")


@CHECK.sub(quick=600, rule="more than one unknown")
def ordinary(g):
    kind = g.choice(["plain", "tsvd"], "kind")
    P = problem(g, gaps=kind == "tsvd")
    S = setting(g, kind, P.r, P.d)
    if kind == "plain" and (P.rank < min(P.k, P.d) or g.rarely("cond", 4)):
        S.options["cond"] = 1e-10
    if kind == "tsvd":
        top = min(P.k, P.d)
        S.modes = g.choice([None, 0] + list(range(1, top + 3)) + [-i for i in range(1, top)],
                           "modes")
        if modes(S.modes, top) > P.rank:
            return
    with unchanged(P.D, P.Z, msg="fit() or solve() modified the data"):
        solver = S.make().fit(P.D, draw_lhs(g, P))
        same_solution(solver, S, P, kind)
    O = g.normal((P.r, P.d), "O")
    res = ((P.D @ O.T - P.Z.T) ** 2).sum(axis=0)
    close(solver.residual(O), res, "residual()", 1e-11)
    if P.rank == min(P.k, P.d):
        close(solver.cond(), P.svals[0] / P.svals[-1], "cond()", 1e-9)
    if kind == "tsvd":
        n = modes(S.modes, top)
        check(solver.num_svdmodes == n, "num_svdmodes")
        check(solver.max_modes == top, "max_modes")
        close(solver.tcond(), P.svals[0] / P.svals[n - 1], "tcond()", 1e-9)
        # changing the truncation afterwards
        m2 = g.choice([None, 0] + list(range(1, top + 1)) + [-i for i in range(1, top)], "m2")
        if modes(m2, top) <= P.rank:
            solver.num_svdmodes = m2
            same_solution(solver, Setting("tsvd", None, [], modes=m2), P, "changed truncation")
    else:
        X = solver.solve()
        # stationarity, and least norm among the minimisers
        grad = P.D.T @ (P.D @ X.T - P.Z.T)
        close(grad, 0 * grad, "normal equations", 1e-10,
              scale=P.svals[0] * (np.abs(P.Z).max() + P.svals[0] * np.abs(X).max()) * P.k)
        Vt = np.linalg.svd(P.D)[2][P.rank:]
        close(X @ Vt.T, np.zeros((P.r, Vt.shape[0])), "least norm", 1e-9,
              scale=np.abs(P.Z).max() / P.svals[P.rank - 1])
    g.tag(kind, f"rank{P.rank < min(P.k, P.d)}", f"wide{P.k < P.d}")
    g.nontrivial(P.d > 1)


@CHECK.sub(quick=500, rule="noisy data, more than one row or unknown")
def total(g):
    r, d = g.int(1, 3, "r"), g.int(1, 5, "d")
    k = d + r + g.int(0, 10, "k")
    rng = g.rng("data")
    M = rng.standard_normal((k, d + r))
    D = M[:, :d] * 3.0
    X = rng.standard_normal((r, d))
    noise = 10.0 ** g.int(-3, 0, "noise")
    Z = X @ D.T + noise * M[:, d:].T
    D = D + noise * 0.3 * rng.standard_normal((k, d))
    C = np.hstack([D, Z.T])
    s = np.linalg.svd(C, compute_uv=False)
    V = np.linalg.svd(C)[2].T
    sz = np.linalg.svd(V[d:, d:], compute_uv=False)
    if s[d - 1] / s[d] < 1.05 or sz[-1] < 1e-3:
        return                      # not unique, or nearly no solution
    S = setting(g, "tls", r, d)
    with unchanged(D, Z, msg="fit() modified the data"):
        solver = S.make().fit(D, Z[0] if r == 1 and g.bool("flat") else Z)
        got = solver.solve()
    check(got.shape == (r, d), "shape of solve()")
    want = -np.linalg.solve(V[d:, d:].T, V[:d, d:].T)
    tol = 1e-10 / sz[-1] ** 2 / (s[d - 1] / s[d] - 1)
    close(got, want, "solve()", tol)
    err = np.sqrt((s[d:] ** 2).sum())
    close(solver.error, err, "error", 1e-9, atol=1e-13 * s[0])
    # cost of a given solution, by an independent formula: attained and minimal
    def cost(X):
        R = D @ X.T - Z.T
        return np.sqrt(np.trace(R @ np.linalg.solve(X @ X.T + np.eye(r), R.T)))
    close(cost(got), err, "the solution does not attain the smallest correction", 1e-8,
          atol=1e-11 * s[0])
    check(cost(got + 1e-3 * rng.standard_normal((r, d))) >= err * (1 - 1e-9), "not minimal")
    close(solver.augcond, s[0] / s[-1], "augcond", 1e-7)
    close(solver.cond(), np.linalg.cond(D), "cond()", 1e-9)
    close(solver.residual(got), ((D @ got.T - Z.T) ** 2).sum(axis=0), "residual()", 1e-9,
          atol=1e-12 * s[0] ** 2)
    str(solver)
    g.tag(f"noise{noise:g}")
    g.nontrivial(r > 1 or d > 1)


@CHECK.sub(quick=900, rule="a refit with other data or settings after a first solve")
def history(g):
    """Any sequence of fits and setting changes equals a fresh solver."""
    kind = g.choice(KINDS, "kind")
    wide_ok = kind != "tls"
    shape = None if wide_ok else "tall"

    def new_problem(label):
        P = problem(g, label=label, shape=shape, deficient=False, gaps=kind == "tsvd")
        if kind == "tls":
            rng = g.rng(label + ".tls")
            k = P.d + P.r + 3 + P.k
            D = rng.standard_normal((k, P.d)) * 3
            Z = rng.standard_normal((P.r, P.d)) @ D.T + 0.1 * rng.standard_normal((P.r, k))
            P = Problem(D, Z, np.linalg.svd(D, compute_uv=False), P.d)
        return P

    def new_modes(label, top=None):
        hi = 10 if top is None else top
        n = g.choice([None, 0] + list(range(1, hi + 1)), label)
        return n

    S, P, solver, nsolves, nchanges = None, None, None, 0, 0
    snapshots = []          # (other object, setting, problem): must stay as they were
    for step in range(g.int(3, 9, "steps")):
        lab = f"s{step}"
        if solver is None:
            P0 = new_problem(lab)
            S = setting(g, kind, P0.r, P0.d, lab)
            if kind == "tsvd":
                S.modes = new_modes(lab + ".modes")
            solver = S.make()
            if g.bool(lab + ".fit"):
                solver.fit(P0.D, P0.Z)
                P = P0
            continue
        op = g.choice(["fit", "fit", "refit", "setting", "solve", "solve", "query", "copy",
                       "saveload", "reset"], lab + ".op")
        if op == "fit":
            P = new_problem(lab)
            if kind in REGULARIZED:
                S2 = setting(g, kind, P.r, P.d, lab)
                if g.bool(lab + ".order"):
                    solver.regularizer = None
                    solver.fit(P.D, P.Z)
                    solver.regularizer = S2.arg
                else:
                    if P0_dims(solver) not in (None, (P.r, P.d)):
                        solver.reset()
                    solver.regularizer = S2.arg
                    solver.fit(P.D, P.Z)
                S = Setting(kind, S2.arg, S2.gammas, S.method, S.options)
            else:
                solver.fit(P.D, P.Z)
            nchanges += 1
        elif op == "refit" and P is not None:     # same sizes, other numbers
            rng = g.rng(lab)
            P = Problem(P.D @ np.diag(rng.choice([-1.0, 1.0], P.d)),
                        rng.standard_normal(P.Z.shape) + P.Z, P.svals, P.rank)
            if kind in REGULARIZED and S.arg is None:
                continue
            solver.fit(P.D, P.Z)
            nchanges += 1
        elif op == "setting" and P is not None:
            if kind in REGULARIZED:
                S2 = setting(g, kind, P.r, P.d, lab)
                solver.regularizer = S2.arg
                method = S.method
                if kind.startswith("tik") and g.bool(lab + ".m"):
                    solver.method = method = S2.method
                S = Setting(kind, S2.arg, S2.gammas, method, S.options)
                nchanges += 1
            elif kind == "tsvd":
                n = new_modes(lab, min(P.k, P.d))
                solver.num_svdmodes = n
                S = Setting(kind, None, [], options=S.options, modes=n)
                nchanges += 1
        elif op == "copy":
            other = solver.copy()
            check(type(other) is CLASS[kind], "copy() has another type")
            if g.bool(lab + ".swap"):
                solver, other = other, solver
            snapshots.append((other, S, P))
        elif op == "saveload":
            path = f"s{step}-{len(snapshots)}.h5"
            solver.save(path, overwrite=True)
            other = CLASS[kind].load(path)
            os.remove(path)
            if g.bool(lab + ".swap"):
                solver, other = other, solver
            snapshots.append((other, S, P))
        elif op == "reset":
            solver.reset()
            check(solver.data_matrix is None and solver.k is None, "reset() keeps the data")
            P = None
            if kind in REGULARIZED:
                check(solver.regularizer is None, "reset() keeps the regularizer")
                S = Setting(kind, None, None, S.method, S.options)
        elif op == "query" and P is not None:
            solver.cond(), str(solver)
            if kind in REGULARIZED and S.arg is not None:
                solver.regcond()
                solver.regresidual(solver.solve())
        if P is not None and (kind not in REGULARIZED or S.arg is not None):
            same_solution_h(solver, S, P, f"after step {step} ({op})")
            nsolves += 1
    for other, S2, P2 in snapshots:
        if P2 is not None and (kind not in REGULARIZED or S2.arg is not None):
            same_solution_h(other, S2, P2, "a copied, saved or loaded solver changed")
    g.tag(kind)
    g.nontrivial(nchanges > 1 and nsolves > 1)


def P0_dims(solver):
    return None if solver.d is None else (solver.r, solver.d)


def same_solution_h(solver, S, P, msg):
    if S.kind == "tls":
        C = np.hstack([P.D, P.Z.T])
        s = np.linalg.svd(C, compute_uv=False)
        V = np.linalg.svd(C)[2].T
        sz = np.linalg.svd(V[P.d:, P.d:], compute_uv=False)
        if s[P.d - 1] / s[P.d] < 1.05 or sz[-1] < 1e-2:
            return
        close(solver.solve(), expect(S, P)[0], msg, 1e-6)
        return
    if S.kind == "tsvd":
        check(solver.num_svdmodes == modes(S.modes, min(P.k, P.d)), msg + ": num_svdmodes")
    same_solution(solver, S, P, msg)


@CHECK.sub(quick=400, rule="at least two operators")
def operator_regularizer(g):
    """get_operator_regularizer() puts each parameter on its operator's columns."""
    r, m = g.int(1, 4, "r"), g.int(1, 3, "m")
    oplist, counts = [], []
    for i in range(g.int(1, 5, "nops")):
        kind = g.choice("cAHGQBNP", f"k{i}")
        if kind == "P":
            p = g.int(0, 4, f"p{i}")
            oplist.append(opinf.operators.PolynomialOperator(p))
            counts.append(len(tuples(r, p)))
            continue
        n = {"B": m, "N": r * m}.get(kind)
        n = len(tuples(r, DEGREE[kind])) if n is None else n
        if kind in "cAHGBN" and g.rarely(f"affine{i}", 3):
            Class = {"c": "AffineConstantOperator", "A": "AffineLinearOperator",
                     "H": "AffineQuadraticOperator", "G": "AffineCubicOperator",
                     "B": "AffineInputOperator", "N": "AffineStateInputOperator"}[kind]
            q = g.int(1, 3, f"q{i}")
            oplist.append(getattr(opinf.operators, Class)(q))
            counts.append(q * n)
        else:
            oplist.append(CLASSES[kind]())
            counts.append(n)
    inputs = any("Input" in type(o).__name__ for o in oplist)
    regs, want = [], []
    rng = g.rng("regs")
    for i, n in enumerate(counts):
        v = rng.uniform(0.1, 10, n) if g.rarely(f"vec{i}", 4) else float(rng.uniform(0.1, 10))
        regs.append(v)
        want.append(np.full(n, v) if np.isscalar(v) else v)
    want = np.concatenate(want)
    got = L.TikhonovSolver.get_operator_regularizer(oplist, regs, r, m if inputs else 0)
    same(np.asarray(got), want, "get_operator_regularizer()")
    names = [getattr(o, "polynomial_order", type(o).__name__) for o in oplist]
    names = [CLASSES["cAHGQ"[n]].__name__ if isinstance(n, int) and n < 5 else n for n in names]
    if (len(set(names)) == len(names) and g.bool("fit")
            and not any("Affine" in type(o).__name__ for o in oplist)):
        # each operator's columns are penalised by its own parameter
        k = want.size + 3
        Q, U = rng.standard_normal((r, k)), rng.standard_normal((m, k))
        Z = rng.standard_normal((r, k))
        model = opinf.models.DiscreteModel([o.copy() for o in oplist],
                                           solver=L.TikhonovSolver(got))
        model.fit(Q, Z, U) if inputs else model.fit(Q, Z)
        D = model.solver.data_matrix
        check(D.shape == (k, want.size), "data matrix")
        A = np.vstack([D, np.diag(want)])
        X = np.linalg.lstsq(A, np.vstack([Z.T, np.zeros((want.size, r))]), rcond=None)[0].T
        close(model.operator_matrix, X, "regularized fit", 1e-7)
    g.nontrivial(len(counts) > 1)


@CHECK.sub(quick=300, rule="at least two terms")
def problem_size(g):
    """lstsq_size() counts the columns of the operator matrix."""
    form = g.subset("cAHGB", "form", min_size=1)
    r, m = g.int(1, 7, "r"), g.int(1, 4, "m")
    affines = {k: [abs] * g.int(1, 4, "q" + k) for k in form if g.rarely("aff" + k, 3)}
    size = {"c": 1, "A": r, "H": len(tuples(r, 2)), "G": len(tuples(r, 3)), "B": m}
    want = sum(size[k] * len(affines.get(k, [0])) for k in form)
    got = L.lstsq_size("".join(form), r, m if "B" in form else 0,
                       affines or g.choice([None, {}], "none"))
    check(got == want, f"lstsq_size {got} != {want}")
    g.nontrivial(len(form) > 1)
