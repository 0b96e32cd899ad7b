"""C13: models simulate the dynamics their operators define."""
import warnings

import numpy as np
import opinf
import scipy.integrate as spi
import scipy.interpolate as si
import scipy.linalg as la

from pbt.runner import Check
from pbt.oracle import check, close, same, unchanged
from checks.gen_models import SineRef, Structure, build, random_ref, structure
from checks.gen_ops import dense, entries_of, CLASSES

M = opinf.models
CHECK = Check("C13", hangs="abandoned", assumptions=[
    "continuous systems are dissipative and mildly nonlinear on |q| <= 2, time spans <= 2",
    "integrators run at rtol 1e-8 / atol 1e-10 and must agree with an independent solution "
    "to 2e-5",
])


def all_known(st):
    st.known = [True] * len(st.refs)
    return st


def make(st, time):
    return (M.ContinuousModel if time == "c" else M.DiscreteModel)([build(R) for R in st.refs])


def frozen(model):
    """Array copies of everything the model stores."""
    return [None if not hasattr(o, "entries") else np.array(dense(o.entries), copy=True)
            for o in model.operators]


def check_frozen(model, before, msg):
    for o, b in zip(model.operators, before):
        if b is not None:
            same(dense(o.entries), b, msg)


@CHECK.sub(quick=1500, rule="at least two kinds of operators")
def rhs(g):
    st = all_known(structure(g, allow_known=True))
    time = g.choice("cd", "time")
    # raw entry formats instead of the canonical compressed ones
    oplist = []
    for i, R in enumerate(st.refs):
        if R.kind in "cAHGQBN" and g.bool("raw"):
            arg, st.refs[i] = entries_of(g, R.kind, st.r, st.m, label=f"E{i}")
            oplist.append(CLASSES[R.kind](arg))
        else:
            oplist.append(build(R))
    model = (M.ContinuousModel if time == "c" else M.DiscreteModel)(oplist)
    before = frozen(model)
    for i in range(g.int(1, 3, "npoints")):
        q, u, t = g.normal(st.r, "q"), g.normal(st.m, "u"), g.float(0, 2, "t")
        if g.rarely("ints", 5):
            q = np.round(3 * q).astype(int)
        want = sum(R(q, u) for R in st.refs)
        J = sum(R.jac(q, u) for R in st.refs)
        sc = sum(R.scale(q, u) for R in st.refs)
        times = []
        uval = u
        if st.m == 1 and g.bool("scalar-input"):
            uval = float(u[0])

        def f(s):
            times.append(s)
            return uval
        with unchanged(q, u, msg="rhs() modified its arguments"):
            if time == "c":
                tail = (f,) if st.inputs or g.bool("unused") else ()
                got, gotJ = model.rhs(t, q, *tail), model.jacobian(t, q, *tail)
                check(all(s == t for s in times), "input evaluated at another time")
                check(not st.inputs or len(times) > 0, "input function ignored")
            else:
                tail = (uval,) if st.inputs or g.bool("unused") else ()
                got, gotJ = model.rhs(q, *tail), model.jacobian(q, *tail)
        close(got, want, "rhs is not the sum of the operators", 1e-9, scale=sc)
        check(gotJ.shape == (st.r, st.r), "jacobian shape")
        absJ = sum(np.abs(R.jac(q, u)).max() if isinstance(R, SineRef) else
                   type(R)(R.kind, R.r, R.m, np.abs(R.coef), R.p).jac(
                       np.abs(q), np.abs(u)).max(initial=0) for R in st.refs)
        close(gotJ, J, "jacobian is not the sum of the operators'", 1e-9, scale=absJ)
    check_frozen(model, before, "rhs() changed the model")
    # named access to the operators
    for name, cls in (("c", "Constant"), ("A", "Linear"), ("H", "Quadratic"), ("G", "Cubic"),
                      ("B", "Input"), ("N", "StateInput")):
        op = getattr(model, name + "_")
        first = [o for o in model.operators if type(o).__name__ == cls + "Operator"]
        check((op is first[0]) if first else op is None or isinstance(
            op, getattr(opinf.operators, cls + "Operator")), f"{name}_")
    check([o for o in model] == list(model.operators), "iteration")
    g.tag(*[R.kind for R in st.refs])
    g.nontrivial(len(st.refs) > 1)


@CHECK.sub(quick=1500, rule="at least three iterations of a nonlinear or forced model")
def discrete(g):
    st = all_known(structure(g))
    for R in st.refs:
        if not isinstance(R, SineRef):
            R.coef *= 0.3
    model = make(st, "d")
    before = frozen(model)
    n = g.dim(1, 8, "niters", 40)
    q0 = g.uniform(-1, 1, (st.r,), "q0")
    if g.rarely("intq0", 6):
        q0 = np.round(2 * q0).astype(int)
    U = g.uniform(-1, 1, (st.m, n - 1 + g.choice([0, 0, 1, 3], "more")), "U")
    if st.inputs and U.shape[1] == 0:
        U = g.uniform(-1, 1, (st.m, 1), "U1")
    Uarg = U[0] if st.m == 1 and g.bool("flat") else U
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"), unchanged(q0, U, msg="predict() modified its arguments"):
            if st.inputs:
                S = model.predict(q0, n, Uarg) if g.bool("kw") else \
                    model.predict(q0, niters=n, inputs=Uarg)
            else:
                S = model.predict(q0, n)
        check(S.shape == (st.r, n), f"shape {S.shape} != {(st.r, n)}")
        same(S[:, 0], np.asarray(q0, dtype=float), "initial condition")
        upto = n
        for j in range(n - 1):
            q, u = S[:, j], U[:, j] if st.inputs else None
            sc = sum(R.scale(q, u) for R in st.refs)
            if not sc < 1e8:
                upto = j + 1
                break
            close(S[:, j + 1], sum(R(q, u) for R in st.refs), f"iteration {j}", 1e-9, scale=sc)
        if upto == n:
            # a shorter run is a prefix, a run from the middle is the tail
            k = g.int(1, n, "k")
            A = (model.predict(q0, k, Uarg) if st.inputs else model.predict(q0, k))
            same(A, S[:, :k], "prefix")
            if st.inputs and k < n or not st.inputs:
                tail = (U[:, k - 1:],) if st.inputs else ()
                B = model.predict(S[:, k - 1].copy(), n - k + 1, *tail)
                close(B, S[:, k - 1:], "restart", 1e-9, scale=np.abs(S).max())
            again = model.predict(q0, n, Uarg) if st.inputs else model.predict(q0, n)
            same(again, S, "second prediction differs")
    check_frozen(model, before, "predict() changed the model")
    # the result is a new array
    S[...] = 0
    check_frozen(model, before, "prediction aliases the model")
    g.tag(*[R.kind for R in st.refs])
    g.nontrivial(n >= 3 and (st.inputs or any(R.kind in "HGQP" for R in st.refs)))


def dissipative(g):
    """A structure whose solutions stay small."""
    kinds = g.subset("cHGBN", "kinds")
    r = g.int(1, 4 if "G" not in kinds else 3, "r")
    m = g.int(1, 3, "m")
    refs = []
    A = random_ref(g, "A", r, m, "A", 0.4)
    A.coef = A.coef - A.coef.T * g.choice([0, 1], "skew") - np.eye(r) * g.float(0.2, 1.5, "damp")
    refs.append(A)
    for k in kinds:
        R = random_ref(g, k, r, m, k)
        R.coef *= {"c": 0.3, "H": 0.1, "G": 0.05, "B": 0.4, "N": 0.2}[k]
        refs.append(R)
    if g.rarely("sine", 6):
        refs.append(SineRef(r, 0.3))
    order = g.perm(len(refs), "order")
    return Structure([refs[i] for i in order], [True] * len(refs), r, m)


@CHECK.sub(quick=350, rule="forced or nonlinear and at least three sample times")
def continuous(g):
    st = dissipative(g)
    model = make(st, "c")
    before = frozen(model)
    nt = g.int(2, 9, "nt")
    t0 = g.choice([0.0, 0.0, 1.0, -0.7], "t0")
    steps = g.uniform(0.2, 1.0, (nt - 1,), "dt")
    t = t0 + np.r_[0, np.cumsum(steps)] / steps.sum() * g.float(0.3, 2.0, "T")
    q0 = g.uniform(-1, 1, (st.r,), "q0")
    U = g.uniform(-1, 1, (st.m, nt), "U")
    w = g.uniform(0.5, 3, (st.m,), "w")
    form = "none"
    uf, uarg = None, None
    if st.inputs:
        form = g.choice(["callable", "array", "array"] + (["scalar", "flat", "len1", "mixed"]
                        if st.m == 1 else []), "form")

        def smooth(s):
            return np.cos(w * s) * U[:, 0]
        if form in ("callable", "len1"):
            uf = uarg = smooth
        elif form == "mixed":       # an integer at the initial time, floats after it
            def uf(s):
                return smooth(s) - smooth(t0)

            def uarg(s):
                return 0 if s <= t0 else float(uf(s)[0])
        elif form == "scalar":
            uf = smooth

            def uarg(s):
                return float(smooth(s)[0])
        else:
            uf = si.CubicSpline(t, U, axis=1)
            uarg = U[0] if form == "flat" else U
    method = g.choice(["RK45", "RK23", "DOP853", "Radau", "BDF", "LSODA", None], "method")
    opts = {"rtol": 1e-8, "atol": 1e-10}
    if method:
        opts["method"] = method
    if g.rarely("maxstep", 5):
        opts["max_step"] = 0.5
    ref = spi.solve_ivp(
        lambda s, q: sum(R(q, uf(s) if uf else None) for R in st.refs),
        [t[0], t[-1]], q0, t_eval=t, method="DOP853", rtol=1e-10, atol=1e-12)
    if not ref.success or np.abs(ref.y).max() > 4:
        return
    with unchanged(q0, t, U, msg="predict() modified its arguments"):
        if st.inputs:
            S = model.predict(q0, t, uarg, **opts) if g.bool("pos") else \
                model.predict(q0, t, input_func=uarg, **opts)
        else:
            S = model.predict(q0, t, **opts)
    check(isinstance(S, np.ndarray) and S.shape == (st.r, nt), f"shape {np.shape(S)}")
    close(S[:, 0], q0, "initial condition", 1e-14)
    close(S, ref.y, f"solution ({method}, {form})", 2e-5, scale=1.0)
    same(model.predict_result_.t, t, "sample times")
    check_frozen(model, before, "predict() changed the model")
    # the same again with other sample times: subsequence of the solution
    if nt > 2 and form not in ("array", "flat"):
        sub = np.r_[0, np.sort(1 + np.array(g.perm(nt - 2, "sub")[:max(1, (nt - 2) // 2)])), nt - 1]
        S2 = model.predict(q0, t[sub], *([uarg] if st.inputs else []), **opts)
        close(S2, ref.y[:, sub], "other sample times", 2e-5, scale=1.0)
        S3 = model.predict(ref.y[:, sub[1]], t[sub[1]:], *([uarg] if st.inputs else []), **opts)
        close(S3, ref.y[:, sub[1]:], "restart", 4e-5, scale=1.0)
    g.tag(method or "default", form, *[R.kind for R in st.refs])
    g.nontrivial(nt >= 3 and (st.inputs or any(R.kind in "HG" for R in st.refs)))


@CHECK.sub(quick=300, rule="forced linear system with at least two states")
def linear_exact(g):
    """Linear systems: matrix exponential, polynomial inputs are splined exactly."""
    r, m = g.int(1, 5, "r"), g.int(1, 3, "m")
    A = random_ref(g, "A", r, m, "A", 0.6)
    A.coef = A.coef - np.eye(r) * g.float(0.2, 1.0, "damp")
    B = random_ref(g, "B", r, m, "B", 1.0)
    c = random_ref(g, "c", r, m, "c", 1.0)
    model = M.ContinuousModel([build(R) for R in (A, B, c)])
    deg = g.int(0, 3, "deg")
    P = g.uniform(-1, 1, (m, deg + 1), "P")
    nt = g.int(4, 9, "nt")
    T = g.float(0.5, 2.0, "T")
    t = np.linspace(0, T, nt)
    U = sum(P[:, [i]] * t ** i for i in range(deg + 1))
    q0 = g.uniform(-1, 1, (r,), "q0")
    # augmented system: z = (q, tau^0, tau^1, ..., tau^deg)
    n = r + deg + 1
    F = np.zeros((n, n))
    F[:r, :r] = A.coef
    for i in range(deg + 1):
        F[:r, r + i] = B.coef @ P[:, i]
        if i:
            F[r + i, r + i - 1] = i
    F[:r, r] += c.coef[:, 0]
    z0 = np.r_[q0, 1.0, np.zeros(deg)]
    want = np.column_stack([(la.expm(F * s) @ z0)[:r] for s in t])
    method = g.choice(["RK45", "DOP853", "Radau", "BDF", "LSODA"], "method")
    S = model.predict(q0, t, U if m > 1 or g.bool("2d") else U[0], method=method,
                      rtol=1e-9, atol=1e-11)
    close(S, want, f"matrix exponential ({method})", 1e-5, scale=1.0)
    g.tag(method, f"deg{deg}")
    g.nontrivial(r > 1)
