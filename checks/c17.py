"""C17: Bayesian operator inference gives the exact Gaussian posterior."""
import os
import tempfile

import numpy as np
import opinf

from pbt.runner import Check
from pbt.oracle import check, close, raises, same, unchanged
from checks import gen_lstsq, gen_models

Posterior = opinf.roms.OperatorPosterior
CHECK = Check("C17", factor=1.5, hangs="abandoned", assumptions=[
    "regularized data matrices [D; Gamma] with condition number at most 1e5 and a residual that "
    "is not zero (a zero residual is rejected by the code with RuntimeError)",
    "laws of random draws are tested on 400 to 2500 draws: mean, full covariance between all "
    "entries, fourth moment and central mass at 7 standard deviations of the estimator",
    "predictions of at most 12 steps, or unit time, that stay finite",
])


# Laws ------------------------------------------------------------------------
def whiten(draws, means, covs):
    """(N, total) coordinates which are independent standard normals under the claimed law."""
    out = []
    for i, (mu, C) in enumerate(zip(means, covs)):
        X = np.array([np.asarray(x[i], dtype=float) for x in draws])
        s = np.sqrt(np.diag(C))
        Lc = np.linalg.cholesky(C / np.outer(s, s))
        out.append(np.linalg.solve(Lc, ((X - mu) / s).T).T)
    return np.hstack(out)


def law(draws, means, covs, msg):
    W = whiten(draws, means, covs)
    N, p = W.shape
    z = 7.0
    close(W.mean(axis=0), np.zeros(p), msg + ": mean of the draws", 0, atol=z / np.sqrt(N))
    S = W.T @ W / N
    np.fill_diagonal(S, (np.diag(S) - 1) / np.sqrt(2))
    close(S, np.zeros((p, p)), msg + ": covariance of the draws (rows independent)", 0,
          atol=z / np.sqrt(N))
    K = N * p
    close(np.array([(W ** 4).mean()]), np.array([3.0]), msg + ": fourth moment", 0,
          atol=1.5 * z * np.sqrt(96 / K))
    close(np.array([(np.abs(W) < 0.67449).mean()]), np.array([0.5]), msg + ": central mass", 0,
          atol=z * 0.5 / np.sqrt(K))


def spd(g, d, label, spread=2.0):
    Q = g.orth(d, d, label)
    s = 10.0 ** g.uniform(-spread / 2, spread / 2, d, label + ".s")
    A = (Q * s) @ Q.T
    return (A + A.T) / 2


def claimed(g, label="law", max_r=4, max_d=5):
    """(means, covs, ragged?)"""
    r = g.int(1, max_r, label + ".r")
    d = g.int(1, max_d, label + ".d")
    ragged = r > 1 and g.rarely(label + ".ragged", 3)
    sizes = [g.int(1, max_d, label + ".di") if ragged else d for _ in range(r)]
    scale = 10.0 ** g.int(-2, 2, label + ".scale")
    means = [scale * g.normal(n, f"{label}.m{i}") for i, n in enumerate(sizes)]
    size = 10.0 ** g.int(-3, 3, label + ".cov")
    covs = [size * spd(g, n, f"{label}.C{i}") for i, n in enumerate(sizes)]
    return means, covs, len(set(sizes)) > 1


def inverse(C):
    P = np.linalg.inv(C)
    return (P + P.T) / 2


def matches(post, means, covs, msg, tol=1e-9):
    check(post.nrows == len(means), msg + ": nrows")
    check(len(post.means) == len(means) and len(post.covs) == len(means), msg + ": rows")
    check(len(post.randomvariables) == len(means), msg + ": randomvariables")
    for i, (m, C) in enumerate(zip(means, covs)):
        close(post.means[i], m, f"{msg}: mean of row {i}", tol)
        close(post.covs[i], C, f"{msg}: covariance of row {i}", tol)


@CHECK.sub(quick=150, rule="more than one entry in some row")
def representations(g):
    means, covs, ragged = claimed(g)
    precs = [inverse(C) for C in covs]
    with unchanged(*means, *covs, *precs, msg="OperatorPosterior modified its arguments"):
        given = [np.array(means), np.array(precs)] if not ragged and g.bool("arrays") \
            else [list(means), list(precs)]
        A = Posterior(*given)
        B = Posterior(list(means), list(covs), alreadyinverted=True)
        posts = {"precision": A, "covariance": B}
        with tempfile.TemporaryDirectory() as tmp:
            for name in ("precision", "covariance"):
                f = os.path.join(tmp, name + ".h5")
                posts[name].save(f)
                posts["loaded " + name] = C = Posterior.load(f)
                check(C == posts[name] and posts[name] == C, "loaded posterior differs")
                matches(posts[name], means, covs, name + " after save()", 1e-9)
            posts["loaded precision"].save(os.path.join(tmp, "again.h5"))
            again = Posterior.load(os.path.join(tmp, "again.h5"))
            check(again == A, "posterior saved twice differs")
        for name, post in posts.items():
            matches(post, means, covs, name)
        which = g.choice(sorted(posts), "drawn")
        N = 400 if g.bool("few") else 2000
        np.random.seed(g.seed("draws"))
        draws = [posts[which].rvs() for _ in range(N)]
        for x in draws[:3]:
            if ragged:
                check(isinstance(x, list) and [np.shape(v) for v in x] ==
                      [m.shape for m in means], "shape of the rows of a draw")
            else:
                check(isinstance(x, np.ndarray) and x.shape == (len(means), means[0].size),
                      "shape of a draw")
        law(draws, means, covs, which)
        matches(posts[which], means, covs, which + " after drawing")
    # equality
    i = g.int(0, len(means) - 1, "row")
    check(A == Posterior(list(means), list(precs)), "equal posteriors")
    m2 = [m.copy() for m in means]
    j = g.int(0, m2[i].size - 1, "col")
    m2[i][j] += 0.1 + abs(m2[i][j])
    check(not (A == Posterior(m2, precs)), "posteriors with other means are equal")
    C2 = [P.copy() for P in precs]
    C2[i][j, j] *= 1.5
    check(not (A == Posterior(means, C2)), "posteriors with other covariances are equal")
    if len(means) > 1:
        check(not (A == Posterior(means[:-1], precs[:-1])), "posteriors of other sizes are equal")
        check(not (Posterior(means[:-1], precs[:-1]) == A), "posteriors of other sizes are equal")
    g.tag(which, f"ragged{ragged}")
    g.nontrivial(max(m.size for m in means) > 1)


# ROMs --------------------------------------------------------------------------
class Case:
    """Reduced data, the problem they define, and a ROM configured to solve it."""

    def __init__(self, g, label="case", kinds="cAHB", small=False):
        self.discrete = g.bool(label + ".discrete")
        r = g.int(1, 3, label + ".r")
        self.st = st = gen_models.structure(g, r=r, kinds=kinds, label=label + ".st",
                                            poly=not small, custom=not small)
        if not st.learned:
            st.known = [False] * len(st.refs)
            st.learned = list(st.refs)
        self.n = r + g.int(0, 4, label + ".n")
        self.V = None
        if self.n > r or g.bool(label + ".basis"):
            self.V = g.orth(self.n, r, label + ".V")
        self.kind = g.choice(gen_lstsq.REGULARIZED, label + ".solver")
        self.setting = gen_lstsq.setting(g, self.kind, r, st.d, label + ".reg")
        self.model = self.new_model()
        basis = None if self.V is None else opinf.basis.LinearBasis(self.V)
        self.rom = opinf.roms.BayesianROM(self.model, basis=basis)

    def new_model(self, solver=None):
        Class = opinf.models.DiscreteModel if self.discrete else opinf.models.ContinuousModel
        return Class([gen_models.build(R, with_entries=k)
                      for R, k in zip(self.st.refs, self.st.known)],
                     solver=solver or self.setting.make())

    def data(self, g, label):
        """([states], [lhs], [inputs] or None) full-order, and the reduced D and Z."""
        st = self.st
        Q, U = gen_models.samples(g, st, label=label)
        U = U if st.inputs else None
        noise = 10.0 ** g.float(-2, 0, label + ".noise")
        Z = st.rhs(Q, U) + noise * g.normal(Q.shape, label + ".noisy")
        D = st.block(Q, U).T
        R = Z - st.known_part(Q, U)
        full = (lambda X: X) if self.V is None else (lambda X: self.V @ X)
        if self.V is not None and self.n > st.r:     # a part the basis does not see
            N = g.normal((self.n, Q.shape[1]), label + ".out")
            N = N - self.V @ (self.V.T @ N)
        else:
            N = 0.0
        X, Y = full(Q) + N, full(Z) - N
        cut = g.int(1, Q.shape[1] - 1, label + ".cut")
        if g.bool(label + ".single"):
            states, lhs, inputs = X, Y, U
        else:
            states, lhs = [X[:, :cut], X[:, cut:]], [Y[:, :cut], Y[:, cut:]]
            inputs = None if U is None else [U[:, :cut], U[:, cut:]]
        if U is not None and st.m == 1 and g.bool(label + ".flat"):
            inputs = inputs[0] if isinstance(inputs, np.ndarray) else [u[0] for u in inputs]
        return states, lhs, inputs, D, R


def arrays(*items):
    out = []
    for x in items:
        if x is not None:
            out.extend(x if isinstance(x, list) else [x])
    return out


def reference(case, D, R):
    """Means, covariances and precisions of the posterior; None if out of bounds."""
    G = case.setting.gammas
    means, kappa = gen_lstsq.regularized_solution(D, R, G)
    if kappa > 1e5:
        return None
    covs, precs = [], []
    for mu, z, Gi in zip(means, R, G):
        sig = (np.sum((D @ mu - z) ** 2) + np.sum((Gi @ mu) ** 2)) / D.shape[0]
        if sig * D.shape[0] < 1e-10 * np.sum(z ** 2) or sig < 1e-12:
            return None
        s = np.linalg.svd(np.vstack([D, Gi]), full_matrices=False)
        covs.append(sig * (s[2].T / s[1] ** 2) @ s[2])
        precs.append((D.T @ D + Gi.T @ Gi) / sig)
    return means, covs, precs, kappa


def agrees(post, ref, msg):
    means, covs, precs, kappa = ref
    tol = 1e-11 * kappa ** 2 + 1e-9
    check(post is not None, msg + ": no posterior")
    check(post.nrows == len(means), msg + ": nrows")
    for i in range(len(means)):
        close(post.means[i], means[i], f"{msg}: mean of row {i}", tol, scale=np.abs(means).max())
        s = np.sqrt(np.diag(covs[i]))
        close(post.covs[i] / np.outer(s, s), covs[i] / np.outer(s, s),
              f"{msg}: covariance of row {i}", max(tol, 1e-7))


@CHECK.sub(quick=500, rule="more than one row and column, regularizer not a multiple of identity")
def closed_form(g):
    case = Case(g, kinds="cAHGBN")
    if g.rarely("refit", 3):      # an earlier fit, on other data, with another regularizer
        other = case.data(g, "old")
        reg = case.rom.model.solver
        if g.bool("newreg"):
            old = gen_lstsq.setting(g, case.kind, case.st.r, case.st.d, "oldreg")
            reg.regularizer = old.arg
        try:
            case.rom.fit(*other[:3])
        except RuntimeError:
            pass
        reg.regularizer = case.setting.arg
        g.tag("refit")
    states, lhs, inputs, D, R = case.data(g, "data")
    ref = reference(case, D, R)
    if ref is None:
        return
    with unchanged(*arrays(states, lhs, inputs), msg="fit() modified the data"):
        out = case.rom.fit(states, lhs=lhs, inputs=inputs)
    check(out is case.rom, "fit() returns the ROM")
    agrees(case.rom.posterior, ref, "posterior")
    O = case.rom.model.operator_matrix
    close(O, ref[0], "operator matrix after fit()", 1e-11 * ref[3] ** 2 + 1e-9,
          scale=np.abs(ref[0]).max())
    # the solver's own account
    means, precs = case.rom.model.solver.posterior()
    close(means, ref[0], "solver.posterior() means", 1e-11 * ref[3] ** 2 + 1e-9,
          scale=np.abs(ref[0]).max())
    for i, P in enumerate(ref[2]):
        close(precs[i], P, f"solver.posterior() precision {i}",
              1e-11 * ref[3] ** 2 + 1e-8)
    g.tag(case.kind, "discrete" if case.discrete else "continuous")
    g.nontrivial(case.st.r > 1 and case.st.d > 1 and case.kind != "l2")


@CHECK.sub(quick=120, rule="more than one row and column, draws made through the model")
def draws(g):
    case = Case(g, kinds="cAB", small=True)
    states, lhs, inputs, D, R = case.data(g, "data")
    ref = reference(case, D, R)
    if ref is None:
        return
    case.rom.fit(states, lhs=lhs, inputs=inputs)
    rom = case.rom
    means = [m.copy() for m in rom.posterior.means]
    covs = [C.copy() for C in rom.posterior.covs]
    known = [np.array(op.entries, copy=True) for op, k in zip(rom.model.operators, case.st.known)
             if k]
    np.random.seed(g.seed("draws"))
    source = g.choice(["rvs", "draw_operators", "predict"], "source")
    N = 600
    q0 = g.normal(case.n, "q0")
    steps = 2
    U = g.uniform(-1, 1, (case.st.m, steps), "U") if case.st.inputs else None
    out = []
    for _ in range(N):
        if source == "rvs":
            out.append(rom.posterior.rvs())
        elif source == "draw_operators":
            rom.draw_operators()
            out.append(rom.model.operator_matrix)
        else:
            if not case.discrete:
                rom.predict(q0, np.linspace(0, 0.01, 2),
                            *([lambda t: U[:, 0]] if U is not None else []), method="RK23")
            else:
                rom.predict(q0, steps, *([U] if U is not None else []))
            out.append(rom.model.operator_matrix)
        check(out[-1].shape == (case.st.r, case.st.d), "shape of a draw")
    law(out, ref[0], ref[1], source)
    for i in range(case.st.r):
        same(rom.posterior.means[i], means[i], "drawing changed the posterior mean")
        same(rom.posterior.covs[i], covs[i], "drawing changed the posterior covariance")
    now = [op.entries for op, k in zip(rom.model.operators, case.st.known) if k]
    for a, b in zip(now, known):
        same(a, b, "drawing changed a known operator")
    g.tag(source, case.kind)
    g.nontrivial(case.st.r > 1 and case.st.d > 1 and source != "rvs")


@CHECK.sub(quick=250, rule="the model has a state-dependent learned operator")
def predict(g):
    case = Case(g, kinds="cAHB", small=True)
    states, lhs, inputs, D, R = case.data(g, "data")
    if reference(case, D, R) is None:
        return
    rom, st = case.rom, case.st
    rom.fit(states, lhs=lhs, inputs=inputs)
    means = [m.copy() for m in rom.posterior.means]
    covs = [C.copy() for C in rom.posterior.covs]
    np.random.seed(g.seed("draws"))
    seen = []
    for rep in range(g.int(1, 3, "reps")):
        q0r = 0.3 * g.normal(st.r, f"q0{rep}")
        q0 = q0r if case.V is None else case.V @ q0r
        if case.discrete:
            n = g.int(1, 8, f"n{rep}")
            U = g.uniform(-1, 1, (st.m, n), f"U{rep}") if st.inputs else None
            args, kw = (n,) + (() if U is None else (U,)), {}
        else:
            t = np.linspace(0, 0.5, g.int(2, 6, f"n{rep}"))
            a = g.uniform(-1, 1, st.m, f"U{rep}")
            args = (t,) + (((lambda s: a * np.cos(s)),) if st.inputs else ())
            kw = {"method": g.choice(["RK45", "RK23", "DOP853"], f"method{rep}")}
        with np.errstate(all="ignore"), unchanged(q0, msg="predict() modified state0"):
            got = rom.predict(q0, *args, **kw)
        O = np.array(rom.model.operator_matrix, copy=True)
        check(O.shape == (st.r, st.d), "operator matrix after predict()")
        for P in seen:
            check(not np.array_equal(P, O), "predict() did not make a new draw")
        check(not np.array_equal(np.array(means), O), "predict() used the mean")
        seen.append(O)
        # the same operators in a fresh model
        ref_ops, j = [], 0
        for Rf, k in zip(st.refs, st.known):
            if k:
                ref_ops.append(gen_models.build(Rf))
                continue
            w = Rf.coef.shape[1]
            ref_ops.append(gen_models.build(
                gen_models.Ref(Rf.kind, st.r, st.m, O[:, j:j + w], getattr(Rf, "p", None))))
            j += w
        check(j == st.d, "width")
        Class = opinf.models.DiscreteModel if case.discrete else opinf.models.ContinuousModel
        with np.errstate(all="ignore"):
            want = Class(ref_ops).predict(q0r, *args, **kw)
        want = want if case.V is None else case.V @ want
        if np.all(np.isfinite(want)) and np.abs(want).max() < 1e6:
            close(got, want, "prediction of the drawn model", 1e-8)
        g.nontrivial(any(x.kind in "AHN" for x in st.learned))
    for i in range(st.r):
        same(rom.posterior.means[i], means[i], "predict() changed the posterior mean")
        same(rom.posterior.covs[i], covs[i], "predict() changed the posterior covariance")
    g.tag(case.kind, "discrete" if case.discrete else "continuous")


@CHECK.sub(quick=60, rule="always")
def rejected(g):
    """Solvers without a posterior, misaligned moments."""
    kind = g.choice(["plain", "tsvd", "tls", "none"], "kind")
    solver = None if kind == "none" else \
        (gen_lstsq.CLASS[kind](2) if kind == "tsvd" else gen_lstsq.CLASS[kind]())
    Class = g.choice([opinf.models.DiscreteModel, opinf.models.ContinuousModel], "class")
    model = Class("cA", solver=solver)
    raises(AttributeError, lambda: opinf.roms.BayesianROM(model), "solver without a posterior")
    means, covs, _ = claimed(g)
    bad = g.choice(["rows", "mean2d", "precision1d", "shape"], "bad")
    i = g.int(0, len(means) - 1, "row")
    if bad == "rows":
        means = means + [means[0]]
    elif bad == "mean2d":
        means[i] = means[i].reshape((1, -1))
    elif bad == "precision1d":
        covs[i] = np.diag(covs[i]).copy()
    else:
        covs[i] = np.eye(means[i].size + 1)
    raises(ValueError, lambda: Posterior(means, covs, alreadyinverted=g.bool("inv")), bad)
    g.tag(kind, bad)
    g.nontrivial()
