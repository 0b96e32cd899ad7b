"""C10: Galerkin projection commutes with evaluation."""
import importlib

import numpy as np
import opinf
import scipy.sparse as sp

from pbt.runner import Check
from pbt.oracle import check, close, numjac, same, unchanged
from checks import gen_par
from checks.gen_ops import CLASSES, dense, dims, entries_of, operator

ops = opinf.operators
try:
    REPROJ = importlib.import_module("opinf.utils._reprojection")
except ImportError:
    REPROJ = opinf.utils
CHECK = Check("C10", assumptions=[
    "trial/test pairs are exactly bi-orthogonal or clearly not (|W'V - I| > 1e-4): the code "
    "treats W'V within 1e-5 of the identity as the identity",
    "W'V has condition number at most 1e4; errors are bounded by 1e-9 times that of the "
    "sum of absolute values of all terms",
    "interpolation that is nonlinear in the entries (Pchip, Akima) does not commute with "
    "projection: for those only the training parameters are used",
])


def bases(g, n, r, label="basis"):
    """(V, W or None, kind): W'V well conditioned."""
    Q = g.orth(n, r, label)
    kind = g.choice(["orth", "orth-same", "scaled", "general", "petrov", "biorth", "unit",
                     "general-test", "gram", "gram", "normed"], label + ".kind")
    R = np.linalg.qr(g.normal((r, r), label + ".R"))[0] * np.linspace(0.6, 1.7, r)
    V, W = Q, None
    if kind == "orth-same":
        W = Q.copy()
    elif kind == "scaled":
        V = Q * 10.0 ** g.int(-3, 3, label + ".s")
        if np.isclose(V[0, 0], Q[0, 0]):
            V = Q * 0.5
    elif kind == "general":
        V = Q @ R
    elif kind == "unit":
        V = np.eye(n)[:, g.perm(n, label + ".cols")[:r]]
    elif kind == "normed":          # unit vectors, not orthogonal
        V = Q @ R
        V = V / np.linalg.norm(V, axis=0)
    elif kind == "gram":            # W'V has a special form
        form = g.choice(["diag", "triangular", "corner", "perm", "negative", "one-sign", "trace", "near",
                         "near"],
                        label + ".gram")
        G = np.eye(r)
        if form == "diag" and r > 1:
            G = G + 0.3 * (g.normal((r, r), label + ".off") * (1 - np.eye(r)))
        elif form == "triangular":
            G = G + np.triu(g.normal((r, r), label + ".off"), 1)
        elif form == "corner" and r > 1:
            G[0, -1] = 0.5
        elif form == "perm":
            G = G[g.perm(r, label + ".gperm")]
        elif form == "negative":
            G = -G
        elif form == "one-sign":
            G[-1, -1] = -1
        elif form == "near":
            G = G + 10.0 ** g.float(-3.3, -1.5, label + ".near") * g.normal((r, r), label + ".off")
        elif form == "trace":
            w = np.linspace(0.5, 1.5, r) if r > 1 else np.array([1.5])
            G = np.diag(w)
        W = Q @ G.T
        if g.bool(label + ".other side"):
            V, W = Q @ G, Q.copy()
        g.tag("gram:" + form)
    elif kind in ("petrov", "biorth", "general-test"):
        V = Q @ R if g.bool(label + ".general") else Q
        W = np.linalg.qr(Q + g.choice([0.2, 0.6, 2.0], label + ".t") * g.orth(n, r, label + ".W"))[0]
        if np.linalg.cond(W.T @ V) > 1e4:
            W = Q.copy()
        if kind == "biorth":
            W = W @ np.linalg.inv(V.T @ W)
        if kind == "general-test":
            W = W @ np.linalg.qr(g.normal((r, r), label + ".R2"))[0] * np.linspace(0.5, 2, r)
    G = (V if W is None else W).T @ V
    d = np.abs(G - np.eye(r)).max()
    if 1e-12 < d <= 1e-4:
        V, W, kind = Q, None, "orth"
    if np.linalg.cond((V if W is None else W).T @ V) > 1e4:
        V, W, kind = Q, None, "orth"
    if g.rarely(label + ".fortran", 4):
        V = np.asfortranarray(V)
    g.tag(kind)
    return V, W, kind


class Proj:
    def __init__(self, V, W):
        self.V, self.W = V, V if W is None else W
        G = self.W.T @ V
        self.M = np.linalg.solve(G, self.W.T)
        self.amp = np.abs(self.M).sum(axis=1).max() * max(1.0, np.linalg.cond(G))
        self.V1 = np.abs(V)

    def __call__(self, x):
        return self.M @ x


def apply_ref(ref, x, u):
    return ref.batch(x, u) if np.ndim(x) == 2 else ref(x, u)


@CHECK.sub(quick=2500, rule="1 < r < n and the operator depends on the state")
def operators(g):
    kind = g.choice("cAHGQBN", "kind")
    n = dims(g, kind, "n")
    op, ref = operator(g, kind, n)
    m = ref.m
    r = g.int(1, n, "rdim")
    V, W, bk = bases(g, n, r)
    P = Proj(V, W)
    with unchanged(V, P.W, dense(op.entries), op.entries, msg="galerkin() modified its arguments"):
        small = op.galerkin(V) if W is None and g.bool("omit") else op.galerkin(V, W)
    check(type(small) is type(op), "galerkin() changed the class")
    check(small is not op, "galerkin() returned the operator itself")
    check(small.state_dimension == r, f"state_dimension {small.state_dimension} != {r}")
    if ref.takes_input:
        check(small.input_dimension == m, f"input_dimension {small.input_dimension} != {m}")
    if kind != "c":
        check(small.entries.shape == (r, op.operator_dimension(r, m)), "entries shape")
    for i in range(g.int(1, 2, "npoints")):
        qr, u = g.normal(r, "q"), g.normal(m, "u")
        sc = ref.scale(P.V1 @ np.abs(qr), u) * P.amp
        args = (qr, u) if ref.takes_input or g.bool("passu") else (qr,)
        close(np.reshape(small.apply(*args), r), P(ref(V @ qr, u)), f"projected apply ({bk})",
              1e-9, scale=sc)
        J = small.jacobian(*args)
        J = np.zeros((r, r)) if np.ndim(J) == 0 else J
        Js = np.abs(P.M) @ type(ref)(ref.kind, ref.r, ref.m, np.abs(ref.coef), ref.p).jac(
            P.V1 @ np.abs(qr), np.abs(u)) @ P.V1
        close(J, P(ref.jac(V @ qr, u) @ V), "projected Jacobian", 1e-9,
              scale=Js.max() * max(1.0, np.linalg.cond(P.W.T @ V)))
    k = g.int(1, 4, "k")
    Qr, U = g.normal((r, k), "Q"), g.normal((m, k), "U")
    sc = ref.scale(P.V1 @ np.abs(Qr), U) * P.amp
    args = (Qr, U) if ref.takes_input else (Qr,)
    close(np.reshape(small.apply(*args), (r, -1)) * np.ones((1, k)),
          P(ref.batch(V @ Qr, U)), "projected batch", 1e-9, scale=sc)
    # projecting in two steps is projecting once
    if r > 1 and W is None and bk in ("orth", "unit"):
        r2 = g.int(1, r, "r2")
        V2 = g.orth(r, r2, "second")
        two = small.galerkin(V2)
        close(dense(two.entries), dense(op.galerkin(V @ V2).entries), "two-step projection", 1e-9,
              scale=np.abs(dense(op.entries)).sum())
    # a change of basis that spans everything loses nothing
    if r == n:
        q = g.normal(n, "full")
        qr = np.linalg.solve(V, q)
        u = g.normal(m, "uf")
        args = (qr, u) if ref.takes_input else (qr,)
        close(V @ np.reshape(small.apply(*args), r), ref(q, u), "square basis", 1e-9,
              scale=ref.scale(np.abs(V) @ np.abs(qr), u) * P.amp * np.abs(V).sum())
    # the projection does not share data with the operator
    before = np.array(dense(small.entries), copy=True)
    if not sp.issparse(op.entries):
        op.entries[...] = 0
        same(dense(small.entries), before, "projection aliases the operator")
    g.tag(kind)
    g.nontrivial(1 < r < n and kind not in "cB")


@CHECK.sub(quick=1000, rule="1 < r < n and at least two parameters/terms")
def parametric(g):
    kind = g.choice(gen_par.KINDS, "kind")
    n = dims(g, kind, "n")
    r = g.int(1, n, "rdim")
    affine = g.bool("affine")
    op, ref, extra = (gen_par.affine if affine else gen_par.interp)(g, kind, n)
    m = ref.m
    V, W, bk = bases(g, n, r)
    P = Proj(V, W)
    if affine and g.bool("known-dim") and op.parameter_dimension is None:
        op.parameter_dimension = ref.p
    before = [np.array(dense(E), copy=True) for E in op.entries]
    with unchanged(V, P.W, msg="galerkin() modified its arguments"):
        small = op.galerkin(V, W)
    for a, b in zip(op.entries, before):
        same(dense(a), b, "galerkin() modified the operator")
    check(type(small) is type(op), "galerkin() changed the class")
    check(small.state_dimension == r, "state_dimension")
    check(small.parameter_dimension == op.parameter_dimension, "parameter_dimension lost")
    if ref.takes_input:
        check(small.input_dimension == m, "input_dimension")
    if not affine:
        same(small.training_parameters, op.training_parameters, "training parameters")
    else:
        check(small.nterms == op.nterms, "nterms")
    for _ in range(g.int(1, 3, "npoints")):
        mu = _parameter(g, affine, op, extra, ref)
        qr, u = g.normal(r, "q"), g.normal(m, "u")
        args = (qr, u) if ref.takes_input else (qr,)
        R = ref.at(mu)
        sc = ref.scale_at(mu, P.V1 @ np.abs(qr), u) * P.amp
        big = op.apply(mu, V @ qr, u) if ref.takes_input else op.apply(mu, V @ qr)
        if not np.all(np.isfinite(big)):
            continue
        close(np.reshape(small.apply(mu, *args), r), P(np.reshape(big, n)),
              "projected apply at a parameter", 1e-9, scale=sc)
        close(np.reshape(small.apply(mu, *args), r), P(R(V @ qr, u)),
              "projected apply at a parameter (reference)", 1e-8, scale=sc)
    g.tag("affine" if affine else "interp", kind)
    g.nontrivial(1 < r < n and len(op.entries) > 1)


def _parameter(g, affine, op, extra, ref):
    if not affine:
        if not ref.linear:      # projection commutes at the training parameters only
            return extra[0][g.int(0, len(extra[0]) - 1, "train")]
        return gen_par.draw_inside(g, extra[0])
    return gen_par.draw_parameter(g, ref.p)


@CHECK.sub(quick=1000, rule="1 < r < n and at least two operators")
def models(g):
    n = g.int(1, 6, "n")
    m = g.int(1, 3, "m")
    kinds = g.subset("cAHGBN", "kinds", min_size=1)
    if n > 5 and "G" in kinds:
        n = 5
    r = g.int(1, n, "rdim")
    V, W, bk = bases(g, n, r)
    P = Proj(V, W)
    time = g.choice(["Continuous", "Discrete"], "time")
    flavour = g.choice(["mono", "mono", "parametric", "interp"], "flavour")
    pdim = g.choice([1, 2], "pdim") if flavour != "mono" else 1
    params = gen_par.training_points(g, pdim, g.int(2, 6, "s")) if flavour != "mono" else None
    oplist, refs = [], []
    for i, k in enumerate(kinds):
        form = {"mono": "plain", "interp": "interp"}.get(flavour) or g.choice(
            ["plain", "affine", "interp"], "form")
        if flavour == "parametric" and i == 0 and form == "plain":
            form = "affine"
        if form == "plain":
            arg, ref = entries_of(g, k, n, m, label=f"E{i}")
            op = CLASSES[k](arg)
        elif form == "affine":
            op, ref, _ = gen_par.affine(g, k, n, m, pdim, label=f"E{i}")
        else:
            op, ref, _ = gen_par.interp(g, k, n, m, params=params, label=f"E{i}", Class=None)
        oplist.append(op)
        refs.append(ref)
    uncal = None
    if g.rarely("uncalibrated", 4):
        missing = [k for k in gen_par.KINDS if k not in kinds]
        if missing:
            uncal = g.choice(missing, "missing")
            oplist.append((gen_par.INTERP if flavour == "interp" else CLASSES)[uncal]())
    Class = getattr(opinf.models, {"mono": "", "parametric": "Parametric",
                                   "interp": "Interp"}[flavour] + time + "Model")
    order = g.perm(len(oplist), "order")
    model = Class([oplist[i] for i in order])
    saved = [None if o.entries is None else [np.array(dense(E), copy=True) for E in
             (o.entries if isinstance(o.entries, list) else [o.entries])] for o in model.operators]
    small = model.galerkin(V, W) if W is not None or g.bool("pass") else model.galerkin(V)
    for o, s in zip(model.operators, saved):
        if s is not None:
            for a, b in zip(o.entries if isinstance(o.entries, list) else [o.entries], s):
                same(dense(a), b, "model.galerkin() modified the model")
    check(type(small) is type(model), "class of the projected model")
    check([type(o) for o in small.operators] == [type(o) for o in model.operators],
          "structure of the projected model")
    check(small.state_dimension == r, "state_dimension of the projected model")
    check(small.input_dimension == model.input_dimension, "input_dimension of the projected model")
    if uncal:
        check(sum(o.entries is None for o in small.operators) == 1, "uncalibrated operators")
        check(not any(a is b for a in small.operators for b in model.operators),
              "projected model shares an operator object")
        g.nontrivial(1 < r < n)
        return
    inputs = any(rf.takes_input for rf in refs)
    for _ in range(g.int(1, 2, "npoints")):
        mu = gen_par.draw_inside(g, params) if params is not None else None
        if params is not None and pdim == 1 and flavour == "parametric":
            mu = float(np.atleast_1d(mu)[0])
        qr, u, t = g.normal(r, "q"), g.normal(m, "u"), g.float(0, 1, "t")
        at = [rf.at(mu) if hasattr(rf, "at") else rf for rf in refs]
        absq = P.V1 @ np.abs(qr)
        sc = sum(rf.scale_at(mu, absq, u) if hasattr(rf, "scale_at") else rf.scale(absq, u)
                 for rf in refs) * P.amp
        want = P(sum(a(V @ qr, u) for a in at))
        if not np.all(np.isfinite(want)):
            continue
        mus = () if mu is None else (mu,)
        if time == "Continuous":
            args = (t,) + mus
            tail = ((lambda s: u),) if inputs else ()
        else:
            args = mus
            tail = (u,) if inputs else ()
        close(small.rhs(*args, qr, *tail), want, f"projected rhs ({flavour})", 1e-8, scale=sc)
        big = model.rhs(*args, V @ qr, *tail)
        close(small.rhs(*args, qr, *tail), P(big), f"projected rhs vs model ({flavour})", 1e-9,
              scale=sc)
        J = small.jacobian(*args, qr, *tail)
        close(J, P(model.jacobian(*args, V @ qr, *tail) @ V), "projected Jacobian", 1e-8,
              scale=sc * np.abs(V).sum() / max(min(1.0, np.abs(qr).min()), 1e-2))
    g.tag(flavour, time)
    g.nontrivial(1 < r < n and len(kinds) > 1)


@CHECK.sub(quick=350, rule="r < n, input or nonlinear terms, fit recovers the projection")
def reprojection(g):
    """Training on re-projected data recovers the Galerkin projection."""
    kinds = g.subset("cAHBN", "kinds", min_size=1)
    if g.rarely("cubic", 4):
        kinds.append("G")
    n = g.int(2, 9 if "G" not in kinds else 5, "n")
    r = g.int(1, min(n - 1, 4 if "G" not in kinds else 2), "rdim")
    inputs = any(k in "BN" for k in kinds)
    m = g.int(1, 3, "m") if inputs else 1
    V = g.orth(n, r)
    discrete = g.bool("discrete")
    rng = g.rng("entries")
    refs = []
    for k in kinds:
        arg, ref = entries_of(g, k, n, m, fmt="1d" if k == "c" else
                              ("compressed" if k in "HG" else ("dense" if k == "A" else "2d")),
                              label=k)
        size = {"c": 1.0, "A": 0.7, "H": 0.3, "G": 0.2, "B": 1.0, "N": 0.3}[k]
        coef = rng.standard_normal(ref.coef.shape) * size / np.sqrt(ref.coef.shape[1])
        refs.append(type(ref)(k, n, m, coef))
    oplist = [CLASSES[rf.kind](rf.coef[:, 0] if rf.kind == "c" else rf.coef) for rf in refs]

    def f(q, u=None):
        u = None if u is None else np.atleast_1d(u)
        return sum(rf(q, u) for rf in refs)
    M = (opinf.models.DiscreteModel if discrete else opinf.models.ContinuousModel)
    truth = M(oplist).galerkin(V)
    d = sum(CLASSES[k].operator_dimension(r, m) for k in kinds)
    flat = inputs and m == 1 and g.bool("flat")
    if discrete:
        ntraj = d + 3
        Qs, Ns, Us = [], [], []
        for i in range(ntraj):
            niters = g.int(2, 4, "niters") if i < 3 else 3
            q0 = rng.standard_normal(n)
            U = rng.standard_normal((m, niters))
            Uarg = U[0] if flat else U
            with unchanged(q0, V, U, msg="reproject_discrete() modified its arguments"):
                S = REPROJ.reproject_discrete(f, V, q0, niters, Uarg) if inputs else \
                    REPROJ.reproject_discrete(f, V, q0, niters)
            check(S.shape == (r, niters), "reprojected states shape")
            q = V.T @ q0
            for j in range(niters):
                close(S[:, j], q, "reprojected trajectory", 1e-7, scale=np.abs(S).max())
                q = V.T @ f(V @ S[:, j], U[:, j] if inputs else None)
            Qs.append(S[:, :-1])
            Ns.append(S[:, 1:])
            Us.append(U[:, :niters - 1])
        X, Z, U = np.hstack(Qs), np.hstack(Ns), np.hstack(Us)
    else:
        k = 2 * d + 5
        Q, U = rng.standard_normal((n, k)), rng.standard_normal((m, k))
        Uarg = U[0] if flat else U
        with unchanged(Q, V, U, msg="reproject_continuous() modified its arguments"):
            X, Z = REPROJ.reproject_continuous(f, V, Q, Uarg) if inputs else \
                REPROJ.reproject_continuous(f, V, Q)
        close(X, V.T @ Q, "reprojected states", 1e-12)
        want = V.T @ np.column_stack([f(V @ X[:, j], U[:, j] if inputs else None)
                                      for j in range(k)])
        close(Z, want, "reprojected derivatives", 1e-9, scale=np.abs(want).max())
    D = np.hstack([CLASSES[k].datablock(X, U).T for k in kinds])
    s = np.linalg.svd(D, compute_uv=False)
    if not np.isfinite(s).all() or s[-1] < 1e-6 * s[0]:
        return
    model = M([CLASSES[k]() for k in kinds])
    if discrete:
        model.fit(X, nextstates=Z, inputs=U if inputs else None)
    else:
        model.fit(X, Z, inputs=U if inputs else None)
    sc = max(np.abs(dense(o.entries)).max() for o in truth.operators)
    for a, b in zip(model.operators, truth.operators):
        close(dense(a.entries), dense(b.entries), "fit to re-projected data", 1e-11 * s[0] / s[-1] + 1e-9,
              scale=max(sc, np.abs(Z).max() / s[-1]))
    g.nontrivial(len(kinds) > 1)
    g.tag("discrete" if discrete else "continuous")
