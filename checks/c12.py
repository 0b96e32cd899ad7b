"""C12: models recover the true operators, whatever the history."""
import warnings

import numpy as np
import opinf

from pbt.runner import Check
from pbt.oracle import check, close, raises, same, unchanged
from checks.gen_models import Structure, build, random_ref, samples, structure
from checks.gen_ops import CLASSES, dense

M = opinf.models
CHECK = Check("C12", hangs="abandoned", assumptions=[
    "noise-free samples whose data matrix has condition number at most 1e6; recovered entries "
    "are compared at 1e-11 times that condition number",
    "models of at most seven kinds of operators, r <= 6, m <= 3",
    "exactness claims about history compare with a freshly built model at 1e-9 relative",
])


def make(g, st, time, solver="default", label="model"):
    oplist = [build(R, k) for R, k in zip(st.refs, st.known)]
    Class = M.ContinuousModel if time == "c" else M.DiscreteModel
    kw = {} if solver == "default" else {"solver": solver}
    arg = oplist[0] if len(oplist) == 1 and g.bool(label + ".single") else oplist
    if (all(R.kind in "cAHGBN" and not k for R, k in zip(st.refs, st.known))
            and g.bool(label + ".str")):
        arg = "".join(R.kind for R in st.refs)
    return Class(arg, **kw)


def do_fit(g, model, st, time, Q, Z, U, label="fit"):
    """Fit in one of the accepted calling conventions."""
    args = []
    if st.inputs:
        Uarg = U
        if st.m == 1 and g.bool(label + ".flat"):
            Uarg = U[0]
    if st.inputs:
        return model.fit(Q, Z, inputs=Uarg) if g.bool(label + ".kw") else model.fit(Q, Z, Uarg)
    return model.fit(Q, Z)


def learned(model, st):
    return [op for op, known, R in zip(model.operators, st.known, st.refs)
            if not known and R.kind != "sin"]


def cond_ok(D):
    s = np.linalg.svd(D, compute_uv=False)
    return s[-1] > 0 and s[0] / s[-1] < 1e6, s


def compare_entries(st, model, s, Z, msg, factor=1e-11):
    tol = factor * s[0] / s[-1] + 1e-10
    for R, known, op in zip(st.refs, st.known, model.operators):
        if R.kind == "sin":
            check(op.alpha == R.alpha, "custom operator changed")
            continue
        E = dense(op.entries)
        if known:
            same(E, R.coef, "known operator modified")
        else:
            close(E, R.coef, f"{msg}: {R.kind} not recovered", tol,
                  scale=max(1.0, np.abs(Z).max() / s[-1]))


@CHECK.sub(quick=1500, rule="at least two learned operators")
def recover(g):
    st = structure(g)
    time = g.choice("cd", "time")
    Q, U = samples(g, st)
    Z = st.rhs(Q, U)
    ok, s = cond_ok(st.block(Q, U).T)
    if not ok:
        return
    which = g.choice(["default", "none", "zero", "plain", "tsvd", "l2tiny", "driver"], "solver")
    solver = {"default": "default", "none": None, "zero": 0, "plain": opinf.lstsq.PlainSolver(),
              "tsvd": opinf.lstsq.TruncatedSVDSolver(0),
              "l2tiny": opinf.lstsq.L2Solver(0.0),
              "driver": opinf.lstsq.PlainSolver(lapack_driver="gelsy")}[which]
    model = make(g, st, time, solver)
    check(len(model.operators) == len(st.refs), "number of operators")
    if g.rarely("noncontig", 4):
        Q, Z, U = np.asfortranarray(Q), np.repeat(Z, 2, axis=1)[:, ::2], U[:, ::-1][:, ::-1]
    with unchanged(Q, Z, U, msg="fit() modified its arguments"):
        out = do_fit(g, model, st, time, Q, Z, U)
    check(out is model, "fit() returns the model")
    check(model.state_dimension == st.r, "state_dimension")
    check(model.input_dimension == (st.m if st.inputs else 0), "input_dimension")
    f = 1e-11 if which != "l2tiny" else 1e-10
    compare_entries(st, model, s, Z, "recovery", f)
    want = np.hstack([dense(op.entries) for op in learned(model, st)])
    close(model.operator_matrix, want, "operator_matrix", 1e-14)
    # the model is then the map that generated the data
    j = g.int(0, Q.shape[1] - 1, "j")
    rhs = model.rhs(0.0, Q[:, j], lambda t: U[:, j]) if time == "c" else model.rhs(Q[:, j], U[:, j])
    close(rhs, Z[:, j], "rhs at a training sample", 1e-10 * s[0] / s[-1] + 1e-9,
          scale=np.abs(Z).max())
    # sample order and duplication do not matter
    if g.bool("shuffle"):
        pm = np.array(g.perm(Q.shape[1], "cols"))
        m2 = make(g, st, time, solver if which in ("default", "none", "zero") else None, "m2")
        do_fit(g, m2, st, time, Q[:, pm], Z[:, pm], U[:, pm], "fit2")
        compare_entries(st, m2, s, Z, "shuffled samples", f)
    g.tag(time, which, *[R.kind for R in st.refs])
    g.nontrivial(len(st.learned) > 1)


@CHECK.sub(quick=500, rule="several trajectories")
def discrete_trajectories(g):
    st = structure(g, custom=False, kinds="cAHGBN")
    for R in st.refs:       # keep the iteration bounded
        R.coef *= 0.3
    ntraj = st.d + 3
    rng = g.rng("traj")
    lists = []
    for i in range(ntraj):
        n = g.int(2, 5, "len") if i < 3 else 2
        q = rng.uniform(-1.5, 1.5, st.r)
        U = rng.uniform(-1.5, 1.5, (st.m, n))
        cols = [q]
        for j in range(n - 1):
            cols.append(st.rhs(cols[-1][:, None], U[:, j:j + 1])[:, 0])
        # inputs may be given at every state or for the transitions only
        trim = g.bool("trim")
        lists.append((np.column_stack(cols), U[:, :n - 1] if trim else U))
    Qs, Us = [a for a, _ in lists], [b for _, b in lists]
    X, Y = np.hstack([Q[:, :-1] for Q in Qs]), np.hstack([Q[:, 1:] for Q in Qs])
    UU = np.hstack([U[:, :Q.shape[1] - 1] for Q, U in lists])
    if not np.isfinite(Y).all() or np.abs(Y).max() > 1e4:
        return
    ok, s = cond_ok(st.block(X, UU).T)
    if not ok:
        return
    Uarg = [U[0] if st.m == 1 and g.bool("flat") else U for U in Us]
    with unchanged(*Qs, *Us, msg="stack_trajectories() modified its arguments"):
        if st.m == 1 and len({np.ndim(u) for u in Uarg}) > 1:
            Uarg = Us
        got = M.DiscreteModel.stack_trajectories(Qs, Uarg)
    same(got[0], X, "stacked states")
    same(got[1], Y, "stacked next states")
    same(np.atleast_2d(got[2]), UU, "stacked inputs")
    got2 = M.DiscreteModel.stack_trajectories(Qs)
    check(len(got2) == 2, "stack_trajectories without inputs")
    same(got2[0], X, "stacked states without inputs")
    same(got2[1], Y, "stacked next states without inputs")
    model = make(g, st, "d")
    if st.inputs:
        model.fit(got[0], got[1], got[2])
    else:
        model.fit(*got[:2])
    compare_entries(st, model, s, Y, "stacked trajectories")
    # one long trajectory, next states implied
    n = 3 * st.d + 6
    long = rng.uniform(-1.0, 1.0, (st.r, n))
    U = rng.uniform(-1.5, 1.5, (st.m, n))
    more = g.int(0, 4, "more inputs")    # inputs for later times are not used
    U2 = np.hstack([U, rng.uniform(-1.5, 1.5, (st.m, more))])
    a = make(g, st, "d", label="a").fit(long, inputs=U2 if st.inputs else None)
    c = make(g, st, "d", label="c").fit(long[:, :-1], long[:, 1:],
                                        inputs=U2 if st.inputs else None)
    b = make(g, st, "d", label="b").fit(long[:, :-1], long[:, 1:],
                                        inputs=U[:, :-1] if st.inputs else None)
    for x, y in zip(a.operators, b.operators):
        same(dense(x.entries), dense(y.entries), "implied next states")
    for x, y in zip(c.operators, b.operators):
        same(dense(x.entries), dense(y.entries), "more inputs than states")
    # and that is the least-squares solution for the consecutive pairs
    D = st.block(long[:, :-1], U[:, :-1]).T
    Z = long[:, 1:] - st.known_part(long[:, :-1], U[:, :-1])
    ok2, s2 = cond_ok(D)
    if ok2:
        want = np.linalg.lstsq(D, Z.T, rcond=None)[0].T
        close(a.operator_matrix, want, "consecutive states", 1e-10 * s2[0] / s2[-1] + 1e-10,
              scale=np.abs(Z).max() / s2[-1])
    g.tag(*[R.kind for R in st.refs])
    g.nontrivial(len(st.learned) > 1)


REG = {
    "plain": lambda g, d, r: (opinf.lstsq.PlainSolver(), None),
    "l2": lambda g, d, r: (lambda x: (opinf.lstsq.L2Solver(x), [x * np.eye(d)] * r))(
        10.0 ** g.int(-3, 2, "l2")),
    "l2dec": lambda g, d, r: (lambda x: (opinf.lstsq.L2DecoupledSolver(x),
                                         [v * np.eye(d) for v in x]))(
        g.uniform(0.01, 3, (r,), "l2dec")),
    "tik": lambda g, d, r: (lambda x: (opinf.lstsq.TikhonovSolver(x), [np.diag(x)] * r))(
        g.uniform(0.01, 3, (d,), "tik")),
    "tikmat": lambda g, d, r: (lambda x: (opinf.lstsq.TikhonovSolver(x, method=g.choice(
        ["lstsq", "normal"], "method")), [x] * r))(g.normal((d, d), "tikmat") + 3 * np.eye(d)),
    "tikdec": lambda g, d, r: (lambda x: (opinf.lstsq.TikhonovDecoupledSolver(x),
                                          [np.diag(v) for v in x]))(
        list(g.uniform(0.01, 3, (r, d), "tikdec"))),
}


def regularized(D, Z, regs):
    return np.array([np.linalg.lstsq(np.vstack([D, G]), np.r_[z, np.zeros(len(G))],
                                     rcond=None)[0] for z, G in zip(Z, regs)])


def draw_solver(g, st, label="solver"):
    kind = g.choice(list(REG), label)
    solver, regs = REG[kind](g, st.d, st.r)
    return kind, solver, (regs or [np.zeros((1, st.d))] * st.r)


@CHECK.sub(quick=1000, rule="regularized, noisy data, known operators or several kinds")
def inference(g):
    """The learned entries solve the documented regression for arbitrary data."""
    st = structure(g)
    time = g.choice("cd", "time")
    Q, U = samples(g, st)
    Z = g.normal((st.r, Q.shape[1]), "lhs") * 2 + st.rhs(Q, U)
    kind, solver, regs = draw_solver(g, st)
    D = st.block(Q, U).T
    ok, s = cond_ok(D)
    if not ok:
        return
    if kind == "l2" and g.bool("scalar"):
        arg = solver.regularizer
    else:
        arg = solver
    model = make(g, st, time, arg)
    do_fit(g, model, st, time, Q, Z, U)
    want = regularized(D, Z - st.known_part(Q, U), regs)
    cond = max(np.linalg.cond(np.vstack([D, G])) for G in regs)
    tol = 1e-12 * cond * (cond if kind == "tikmat" else 1) + 1e-10
    close(model.operator_matrix, want, f"learned operators ({kind})", tol,
          scale=np.abs(Z).max() / s[-1])
    close(model.solver.data_matrix, D, "data matrix", 1e-12)
    close(model.solver.lhs_matrix, Z - st.known_part(Q, U), "left-hand side", 1e-12,
          scale=np.abs(Z).max())
    g.tag(kind, time)
    g.nontrivial(kind != "plain" and len(st.refs) > 1)


@CHECK.sub(quick=700, rule="at least two fits in the history")
def history(g):
    """Only the current data, settings and structure decide the result."""
    st = structure(g)
    fixed = any(st.known)       # known operators pin the dimensions
    time = g.choice("cd", "time")
    kind, solver, regs = draw_solver(g, st, "s0")
    model = make(g, st, time, solver)
    cur = {"st": st, "kind": kind, "regs": regs, "data": None, "stale": True}
    nfits = 0

    def fit_fresh(i):
        cst = cur["st"]
        fresh = make(g, cst, time, fresh_solver(cur), f"fresh{i}")
        Q, Z, U = cur["data"]
        return fresh.fit(Q, Z, U) if cst.inputs else fresh.fit(Q, Z)

    def fresh_solver(cur):
        L = opinf.lstsq
        return {"plain": lambda: L.PlainSolver(),
                "l2": lambda: L.L2Solver(cur["regs"][0][0, 0]),
                "l2dec": lambda: L.L2DecoupledSolver([G[0, 0] for G in cur["regs"]]),
                "tik": lambda: L.TikhonovSolver(cur["regs"][0]),
                "tikmat": lambda: L.TikhonovSolver(cur["regs"][0], method=cur["method"]),
                "tikdec": lambda: L.TikhonovDecoupledSolver(cur["regs"])}[cur["kind"]]()
    cur["method"] = getattr(solver, "method", None)
    for i in range(g.int(3, 8, "nsteps")):
        cst = cur["st"]
        what = g.choice(["fit", "fit", "newdims", "refit", "reg", "solver", "evaluate", "predict",
                         "copy", "reject"], "op")
        if what == "newdims" and (fixed or cur["kind"] != "plain"):
            what = "fit"
        if what in ("fit", "newdims"):
            if what == "newdims":
                r, m = g.int(1, 3, "newr"), g.int(1, 3, "newm")
                cst = cur["st"] = Structure(
                    [random_ref(g, R.kind, r, m, f"n{i}", p=R.p if R.kind == "P" else None)
                     for R in cst.refs], cst.known, r, m)
            Q, U = samples(g, cst, label=f"d{i}")
            Z = cst.rhs(Q, U) + 0.3 * g.normal(Q.shape, f"noise{i}")
            do_fit(g, model, cst, time, Q, Z, U, f"fit{i}")
            cur["data"] = (Q, Z, U)
            cur["stale"] = False
            nfits += 1
        elif what == "refit":
            if cur["data"] is None or cur.get("unfit"):
                continue
            check(model.refit() is model, "refit() returns the model")
            cur["stale"] = False
        elif what == "reg":
            if cur["kind"] == "l2":
                x = 10.0 ** g.int(-3, 2, "newreg")
                model.solver.regularizer = x
                cur["regs"] = [x * np.eye(cst.d)] * cst.r
            elif cur["kind"] == "tik":
                x = g.uniform(0.01, 3, (cst.d,), "newregs")
                model.solver.regularizer = x
                cur["regs"] = [np.diag(x)] * cst.r
            elif cur["kind"] == "tikdec":
                x = g.uniform(0.01, 3, (cst.r, cst.d), "newregs")
                model.solver.regularizer = list(x)
                cur["regs"] = [np.diag(v) for v in x]
            else:
                continue
            # takes effect at the next refit
            if cur["data"] is not None and g.bool("refit-now") and not cur.get("unfit"):
                model.refit()
                cur["stale"] = False
            else:
                cur["stale"] = True
        elif what == "solver":
            kind, solver, regs = draw_solver(g, cst, f"s{i}")
            model.solver = solver
            cur.update(kind=kind, regs=regs, method=getattr(solver, "method", None), stale=True)
            if cur["data"] is None:
                continue
            Q, Z, U = cur["data"]
            do_fit(g, model, cst, time, Q, Z, U, f"sfit{i}")
            cur["stale"] = False
            nfits += 1
        elif what == "copy":
            model = model.copy()
        elif what == "reject":
            if cur["data"] is None:
                continue
            Q, Z, U = cur["data"]
            raises((Exception,), lambda: model.fit(Q, Z[:, :-1], U if cst.inputs else None),
                   "misaligned data accepted")
            # (whether the old operators survive is another property: fit again)
            do_fit(g, model, cst, time, Q, Z, U, f"rfit{i}")
            cur["stale"] = False
        elif cur["data"] is not None:
            Q, Z, U = cur["data"]
            q, u = Q[:, 0] * 0.1, U[:, 0]
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if what == "evaluate":
                    if time == "c":
                        model.rhs(0.0, q, lambda t: u)
                        model.jacobian(0.0, q, lambda t: u)
                    else:
                        model.rhs(q, u)
                        model.jacobian(q, u)
                elif time == "d":
                    model.predict(q, 3, U[:, :2] if cst.inputs else None)
                elif g.rarely("integrate", 3):
                    model.predict(q, np.linspace(0, 1e-3, 3),
                                  (lambda t: u) if cst.inputs else None, method="BDF")
        g.tag(what)
        if cur["data"] is None or cur["stale"]:
            continue
        fresh = fit_fresh(i)
        scale = np.abs(fresh.operator_matrix).max()
        D = cur["st"].block(cur["data"][0], cur["data"][2]).T
        okc, s = cond_ok(D)
        if not okc:
            continue
        close(model.operator_matrix, fresh.operator_matrix, f"after {what}: not a fresh fit",
              1e-9 + 1e-12 * s[0] / s[-1], scale=scale)
        for R, known, op in zip(cur["st"].refs, cur["st"].known, model.operators):
            if known and R.kind != "sin":
                same(dense(op.entries), R.coef, "known operator modified")
        check(model.state_dimension == cur["st"].r, "state_dimension")
    g.nontrivial(nfits >= 2)


@CHECK.sub(quick=250, rule="all operators known")
def intrusive(g):
    """A model with every operator known is not changed by fit()."""
    st = structure(g)
    st.known = [True] * len(st.refs)
    time = g.choice("cd", "time")
    model = (M.ContinuousModel if time == "c" else M.DiscreteModel)(
        [build(R) for R in st.refs])
    Q, U = g.normal((st.r, 8), "Q"), g.normal((st.m, 8), "U")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = model.fit(Q, Q.copy(), U)
        check(out is model and model.refit() is model, "fit() returns the model")
    for R, op in zip(st.refs, model.operators):
        if R.kind != "sin":
            same(dense(op.entries), R.coef, "known operator modified")
    q, u = Q[:, 0], U[:, 0]
    rhs = model.rhs(0.0, q, lambda t: u) if time == "c" else model.rhs(q, u)
    close(rhs, st.rhs(Q[:, :1], U[:, :1])[:, 0], "rhs", 1e-9,
          scale=sum(R.scale(q, u) for R in st.refs))
    g.nontrivial(len(st.refs) > 1)


@CHECK.sub(quick=500, rule="at least two fits to data of different dimensions")
def redimension(g):
    """One model fit to data of other dimensions is a fresh model fit to them."""
    st = structure(g, allow_known=False, custom=False)
    time = g.choice("cd", "time")
    reg = g.choice([None, 0.1, 1.0], "reg")
    model = make(g, st, time, reg)
    seen = set()
    for i in range(g.int(2, 4, "nfits")):
        big = any(R.kind in "GQP" for R in st.refs)
        r, m = g.int(1, 2 if big else 4, f"r{i}"), g.int(1, 3, f"m{i}")
        seen.add((r, m if st.inputs else 0))
        cst = Structure([random_ref(g, R.kind, r, m, f"n{i}", p=R.p if R.kind == "P" else None)
                         for R in st.refs], st.known, r, m)
        Q, U = samples(g, cst, label=f"d{i}")
        Z = cst.rhs(Q, U) + 0.3 * g.normal(Q.shape, f"noise{i}")
        okc, s = cond_ok(cst.block(Q, U).T)
        if not okc:
            continue
        do_fit(g, model, cst, time, Q, Z, U, f"fit{i}")
        fresh = make(g, cst, time, reg, f"fresh{i}")
        do_fit(g, fresh, cst, time, Q, Z, U, f"ffit{i}")
        check(model.state_dimension == r, "state_dimension after refitting")
        check(model.input_dimension == (m if st.inputs else 0), "input_dimension after refitting")
        close(model.operator_matrix, fresh.operator_matrix, "not a fresh fit",
              1e-9 + 1e-12 * s[0] / s[-1], scale=np.abs(fresh.operator_matrix).max())
        if g.rarely(f"copy{i}", 3):
            model = model.copy()
    g.tag(time, *[R.kind for R in st.refs])
    g.nontrivial(len(seen) > 1)
