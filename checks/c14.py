"""C14: parametric models recover, evaluate and predict consistently."""
import warnings

import numpy as np
import opinf
import scipy.interpolate as si

from pbt.runner import Check
from pbt.oracle import check, close, raises, same, unchanged
from checks import gen_par
from checks.gen_models import build, random_ref
from checks.gen_ops import CLASSES, Ref, dense

M = opinf.models
CHECK = Check("C14", hangs="abandoned", assumptions=[
    "the stacked data matrix has condition number at most 1e6; entries are compared at 1e-11 "
    "times that condition number",
    "distinct training parameters; two-dimensional parameters include the corners of a box",
    "no two learned operators represent the same term",
])


class Term:
    """One term of a parametric model."""

    def __init__(self, g, kind, form, known, r, m, p, params, label):
        self.kind, self.form, self.known, self.p = kind, form, known, p
        self.params = params
        if form == "plain":
            self.refs = [random_ref(g, kind, r, m, label)]
        elif form == "affine":
            n = g.choice([p, 1, 2, 3], label + ".nterms")
            self.arg, self.kw, self.theta = gen_par.coefficients(g, n, p, label)
            self.refs = [random_ref(g, kind, r, m, f"{label}{i}") for i in range(n)]
        else:
            # known interpolated operators may live on their own parameters
            self.own = known and g.bool(label + ".own")
            self.Class = g.choice(gen_par.ONE_D if p == 1 else [None, None, si.NearestNDInterpolator],
                                  label + ".class")
            if self.own:
                self.params = widen(gen_par.training_points(g, p, 5, label + ".pts"), params)
            self.refs = [random_ref(g, kind, r, m, f"{label}{i}") for i in range(len(self.params))]
        self.renamed = form == "interp" and g.rarely(label + ".deprecated-name", 8)
        self.wrap()

    def wrap(self):
        if self.form == "plain":
            self.at = lambda mu: self.refs[0]
        elif self.form == "affine":
            self.ref = gen_par.AffineRef(self.theta, self.refs, self.p)
            self.at = self.ref.at
        else:
            self.ref = gen_par.InterpRef(self.Class, self.params, self.refs)
            self.at = self.ref.at

    @property
    def takes_input(self):
        return self.kind in "BN"

    def entries(self):
        return [R.coef[:, 0] if self.kind == "c" else R.coef for R in self.refs]

    def operator(self, learned=None):
        fill = self.known if learned is None else not learned
        if self.form == "plain":
            return build(self.refs[0], fill)
        if self.form == "affine":
            return gen_par.AFFINE[self.kind](self.arg, entries=self.entries() if fill else None,
                                             **self.kw)
        OpClass = gen_par.INTERP[self.kind]
        if self.renamed:
            OpClass = gen_par.renamed(gen_par.ops, OpClass)
        if fill:
            return OpClass(self.params, self.entries(), InterpolatorClass=self.Class)
        return OpClass(InterpolatorClass=self.Class)

    def block(self, mus, Qs, Us):
        """Rows of the stacked data matrix for this learned term."""
        one = [self.refs[0].block(Q, U) for Q, U in zip(Qs, Us)]
        if self.form == "plain":
            return np.hstack(one)
        if self.form == "affine":
            return np.hstack([np.vstack([t * D for t in self.theta(mu)])
                              for mu, D in zip(mus, one)])
        rows = one[0].shape[0]
        out = np.zeros((rows * len(mus), sum(D.shape[1] for D in one)))
        c = 0
        for i, D in enumerate(one):
            out[i * rows:(i + 1) * rows, c:c + D.shape[1]] = D
            c += D.shape[1]
        return out


def widen(own, params):
    """Scale own so that its hull covers params."""
    if params.ndim == 1:
        lo, hi = own.min(), own.max()
        a, b = params.min() - 0.1, params.max() + 0.1
        return a + (own - lo) * (b - a) / (hi - lo)
    return own * 1.3 * np.abs(params).max(axis=0) / np.abs(own).max(axis=0)


def terms(g, flavour, params, r=None, m=None, kinds="cAHBN"):
    p = 1 if params.ndim == 1 else params.shape[1]
    picked = g.subset(kinds, "kinds", min_size=1)
    if g.rarely("cubic", 6):
        picked.append("G")
    r = r or g.int(1, 3 if "G" in picked else 4, "r")
    m = m or g.int(1, 2, "m")
    out = []
    for i, k in enumerate(picked):
        form = "interp" if flavour == "Interp" else g.choice(["plain", "affine", "interp"], "form")
        known = g.rarely("known", 3)
        out.append(Term(g, k, form, known, r, m, p, params, f"T{i}"))
    if flavour != "Interp" and all(T.form == "plain" for T in out):
        out[0] = Term(g, out[0].kind, "affine", out[0].known, r, m, p, params, "T-aff")
    if all(T.known for T in out):
        T = out[0]
        out[0] = Term(g, T.kind, T.form, False, r, m, p, params, "T-unk")
    return [out[i] for i in g.perm(len(out), "order")], r, m


def data(g, ts, mus, r, m, label="data", perdim=None):
    """(Qs, Us) rich enough for the learned terms."""
    need = sum(len(T.refs) * T.refs[0].coef.shape[1] for T in ts if not T.known)
    s = len(mus)
    per_interp = sum(T.refs[0].coef.shape[1] for T in ts if not T.known)
    k = int(max(2 * need / s, 2 * per_interp)) + 4
    rng = g.rng(label)
    same_k = g.bool(label + ".samek")
    ks = [k if same_k else k + g.int(0, 5, label + ".k") for _ in range(s)]
    Qs = [rng.uniform(-1.5, 1.5, (r, k)) for k in ks]
    Us = [rng.uniform(-1.5, 1.5, (m, k)) for k in ks]
    return Qs, Us


def total(ts, mu, Q, U):
    return sum(T.at(mu).batch(Q, U) for T in ts)


def known_part(ts, mu, Q, U):
    out = np.zeros_like(Q)
    for T in ts:
        if T.known:
            out = out + T.at(mu).batch(Q, U)
    return out


def as_parameters(g, params):
    if params.ndim == 1:
        form = g.choice(["array", "list", "column", "arrays"], "paramform")
        return {"array": params, "list": [float(x) for x in params], "column": params[:, None],
                "arrays": [np.array([x]) for x in params]}[form]
    return params if g.bool("paramform") else [x for x in params]


def model_class(flavour, time):
    return getattr(M, flavour + ("Continuous" if time == "c" else "Discrete") + "Model")


def make(ts, flavour, time, solver=None):
    Class = model_class(flavour, time)
    if flavour == "Interp" and ts[-1].renamed:
        Class = gen_par.renamed(M, Class)
    return Class([T.operator() for T in ts], solver=solver)


def fit(g, model, ts, mus, Qs, Zs, Us, m, time, label="fit"):
    inputs = any(T.takes_input for T in ts)
    if not inputs:
        return model.fit(mus, Qs, Zs)
    Ua = [U[0] for U in Us] if m == 1 and g.bool(label + ".flat") else Us
    return model.fit(mus, Qs, Zs, inputs=Ua) if g.bool(label + ".kw") else \
        model.fit(mus, Qs, Zs, Ua)


def stacked_ok(ts, mus, Qs, Us, limit=1e6):
    D = np.vstack([T.block(mus, Qs, Us) for T in ts if not T.known]).T
    s = np.linalg.svd(D, compute_uv=False)
    return D, s, s[-1] > 0 and s[0] / s[-1] < limit


def evaluators(model, time, inputs, mu, q, u):
    if time == "c":
        tail = ((lambda t: u),) if inputs else ()
        return (lambda: model.rhs(0.3, mu, q, *tail), lambda: model.jacobian(0.3, mu, q, *tail),
                lambda e: e.rhs(0.3, q, *tail), lambda e: e.jacobian(0.3, q, *tail))
    tail = (u,) if inputs else ()
    return (lambda: model.rhs(mu, q, *tail), lambda: model.jacobian(mu, q, *tail),
            lambda e: e.rhs(q, *tail), lambda e: e.jacobian(q, *tail))


def check_model(g, model, ts, time, r, m, mus, label, rtol=1e-8, amp=1.0, predict=True):
    """Evaluation of the model equals the terms, at several parameters."""
    inputs = any(T.takes_input for T in ts)
    for i, mu in enumerate(mus):
        q, u = g.normal(r, f"{label}.q"), g.normal(m, f"{label}.u")
        at = [T.at(mu) for T in ts]
        if not all(np.isfinite(R.coef).all() for R in at):
            continue
        want, J = sum(R(q, u) for R in at), sum(R.jac(q, u) for R in at)
        sc = amp * sum(max(R.scale(q, u), 10 * max(
            R2.scale(q, u) for R2 in T.refs) if T.form != "plain" else 0) for R, T in zip(at, ts))
        f, df, ef, edf = evaluators(model, time, inputs, mu, q, u)
        with unchanged(np.asarray(mu), q, u, msg="evaluation modified its arguments"):
            ev = model.evaluate(mu)
            got, gotJ = f(), df()
        check(ev.state_dimension == r, "state_dimension of the evaluated model")
        check(ev.input_dimension == (m if inputs else 0), "input_dimension of the evaluated model")
        check(len(ev.operators) == len(ts), "operators of the evaluated model")
        for op, T in zip(ev.operators, ts):
            check(type(op) is CLASSES[T.kind], "operator classes of the evaluated model")
        close(got, want, f"{label}: rhs at a parameter", rtol, scale=sc)
        close(ef(ev), got, f"{label}: rhs of evaluate()", 1e-13, scale=sc)
        close(edf(ev), gotJ, f"{label}: jacobian of evaluate()", 1e-13, scale=sc)
        close(gotJ, J, f"{label}: jacobian at a parameter", rtol,
              scale=sc * 4 / max(min(1.0, np.abs(q).min()), 1e-2))
        if predict and i == 0:
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                if time == "d":
                    n = g.int(1, 4, f"{label}.n")
                    U = g.normal((m, max(n - 1, 1)), f"{label}.U")
                    tail = (U,) if inputs else ()
                    q0 = 0.3 * q
                    A = model.predict(mu, q0, n, *tail)
                    same(A, ev.predict(q0, n, *tail), f"{label}: predict of evaluate()")
                    same(A[:, 0], q0, "initial condition")
                    if n > 1:
                        close(A[:, 1], sum(R(q0, U[:, 0]) for R in at), f"{label}: prediction",
                              rtol, scale=sc)
                elif g.rarely(f"{label}.solve", 3):
                    t = np.linspace(0, 0.01, 4)
                    tail = ((lambda s: u),) if inputs else ()
                    q0 = 0.3 * q
                    opts = {"method": g.choice(["RK45", "BDF"], f"{label}.method"),
                            "rtol": 1e-8, "atol": 1e-10}
                    A = model.predict(mu, q0, t, *tail, **opts)
                    same(A, ev.predict(q0, t, *tail, **opts), f"{label}: predict of evaluate()")
                    rate = np.abs(sum(R(q0, u) for R in at)).max()
                    if rate * 0.01 < 0.05:
                        close(A[:, -1] - q0, 0.01 * sum(R(q0, u) for R in at),
                              f"{label}: prediction", 0.2, scale=rate * 0.01 + 1e-6)


def draw_points(g, params, n, label):
    return [gen_par.draw_inside(g, params, f"{label}{i}") for i in range(n)]


@CHECK.sub(quick=900, rule="at least two terms, one of them learned and parametric")
def recover(g):
    flavour = g.choice(["Parametric", "Parametric", "Interp"], "flavour")
    time = g.choice("cd", "time")
    p = g.choice([1, 1, 2], "p")
    params = gen_par.training_points(g, p, g.int(2, 6, "s"))
    ts, r, m = terms(g, flavour, params)
    mus = as_parameters(g, params)
    Qs, Us = data(g, ts, params, r, m)
    Zs = [total(ts, mu, Q, U) for mu, Q, U in zip(params, Qs, Us)]
    D, s, ok = stacked_ok(ts, params, Qs, Us)
    if not ok:
        return
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        model = make(ts, flavour, time)
        kn = [[np.array(E, copy=True) for E in T.entries()] if T.known else None for T in ts]
        with unchanged(*Qs, *Us, *Zs, params, msg="fit() modified its arguments"):
            out = fit(g, model, ts, mus, Qs, Zs, Us, m, time)
        check(out is model, "fit() returns the model")
        check(model.state_dimension == r, "state_dimension")
        check(model.input_dimension == (m if any(T.takes_input for T in ts) else 0),
              "input_dimension")
        check(model.parameter_dimension == p, "parameter_dimension")
        tol = 1e-11 * s[0] / s[-1] + 1e-9
        for T, op, k in zip(ts, model.operators, kn):
            got = op.entries if T.form != "plain" else [op.entries]
            check(len(got) == len(T.refs), "number of operator matrices")
            for E, R in zip(got, T.refs):
                if T.known:
                    same(dense(E), R.coef, "known operator modified")
                else:
                    close(dense(E), R.coef, f"{T.form} {T.kind} not recovered", tol,
                          scale=max(1.0, max(np.abs(Z).max() for Z in Zs) / s[-1]))
        check_model(g, model, ts, time, r, m, [params[0]] + draw_points(g, params, 2, "mu"),
                    "fitted", rtol=1e-8 + 100 * tol)
    g.tag(flavour, time, f"p{p}", *[T.form + ("-known" if T.known else "") for T in ts])
    g.nontrivial(len(ts) > 1 and any(T.form != "plain" and not T.known for T in ts))


def solver_for(g, d, label="solver"):
    kind = g.choice(["plain", "l2", "tik"], label)
    if kind == "plain":
        return kind, opinf.lstsq.PlainSolver(), np.zeros((1, d))
    if kind == "l2":
        x = 10.0 ** g.int(-2, 1, label + ".reg")
        return kind, opinf.lstsq.L2Solver(x), x * np.eye(d)
    x = g.uniform(0.05, 2, (d,), label + ".regs")
    return kind, opinf.lstsq.TikhonovSolver(x), np.diag(x)


def regression(D, Z, G):
    return np.linalg.lstsq(np.vstack([D, G]), np.hstack([Z, np.zeros((len(Z), len(G)))]).T,
                           rcond=None)[0].T


@CHECK.sub(quick=700, rule="noisy data with at least two terms")
def inference(g):
    """Arbitrary data: the documented regression, or independent fits."""
    flavour = g.choice(["Parametric", "Interp"], "flavour")
    time = g.choice("cd", "time")
    p = g.choice([1, 1, 2], "p")
    params = gen_par.training_points(g, p, g.int(2, 5, "s"))
    ts, r, m = terms(g, flavour, params)
    learned = [T for T in ts if not T.known]
    mus = as_parameters(g, params)
    Qs, Us = data(g, ts, params, r, m)
    Zs = [total(ts, mu, Q, U) + g.normal(Q.shape, "noise") for mu, Q, U in zip(params, Qs, Us)]
    D, s, ok = stacked_ok(ts, params, Qs, Us)
    if not ok:
        return
    d = sum(T.refs[0].coef.shape[1] * (1 if flavour == "Interp" or T.form == "plain"
                                       else len(T.refs)) for T in learned)
    kind, solver, G = solver_for(g, d)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        model = make(ts, flavour, time, solver)
        fit(g, model, ts, mus, Qs, Zs, Us, m, time)
    LHS = [Z - known_part(ts, mu, Q, U) for mu, Z, Q, U in zip(params, Zs, Qs, Us)]
    tol = 1e-12 * s[0] / s[-1] + 1e-9
    sc = max(np.abs(Z).max() for Z in Zs) / s[-1] + 1
    if flavour == "Interp":
        for i in range(len(params)):
            Di = np.vstack([T.refs[0].block(Qs[i], Us[i]) for T in learned]).T
            want = regression(Di, LHS[i], G)
            got = np.hstack([dense(op.entries[i]) for op, T in zip(model.operators, ts)
                             if not T.known])
            close(got, want, f"independent fit at parameter {i} ({kind})", tol, scale=sc)
            # the same thing by fitting the nonparametric model class
            ops_i = [CLASSES[T.kind]() if not T.known else build(T.at(params[i])) for T in ts]
            one = (M.ContinuousModel if time == "c" else M.DiscreteModel)(ops_i, solver.copy())
            one.fit(Qs[i], Zs[i], Us[i] if any(T.takes_input for T in ts) else None)
            for a, b, T in zip(model.operators, one.operators, ts):
                if not T.known:
                    close(dense(a.entries[i]), dense(b.entries), "nonparametric fit", tol, scale=sc)
    else:
        want = regression(D, np.hstack(LHS), G)
        got = np.hstack([np.hstack([dense(E) for E in (op.entries if T.form != "plain"
                                                      else [op.entries])])
                         for op, T in zip(model.operators, ts) if not T.known])
        close(got, want, f"stacked regression ({kind})", tol, scale=sc)
    for T, op in zip(ts, model.operators):
        if T.known:
            for E, R in zip(op.entries if T.form != "plain" else [op.entries], T.refs):
                same(dense(E), R.coef, "known operator modified")
    # order of the training parameters
    order = g.perm(len(params), "reorder")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m2 = make(ts, flavour, time, solver.copy())
        if kind == "tik" and flavour != "Interp" and any(T.form == "interp" for T in learned):
            pass        # the regularizer is attached to positions, not parameters
        else:
            fit(g, m2, ts, params[order], [Qs[i] for i in order], [Zs[i] for i in order],
                [Us[i] for i in order], m, time, "fit2")
            for mu in [params[0], gen_par.draw_inside(g, params, "mu-o")]:
                if p > 1 and any(T.form == "interp" for T in ts):
                    mu = params[0]
                q, u = g.normal(r, "qo"), g.normal(m, "uo")
                inputs = any(T.takes_input for T in ts)
                a = evaluators(model, time, inputs, mu, q, u)[0]()
                b = evaluators(m2, time, inputs, mu, q, u)[0]()
                close(b, a, "order of the training parameters", 1e-9 + 100 * tol,
                      scale=100 * sc)
    g.tag(flavour, time, kind)
    g.nontrivial(len(ts) > 1)


@CHECK.sub(quick=500, rule="at least two fits in the history")
def history(g):
    """Only the current data, settings and structure decide the result."""
    flavour = g.choice(["Parametric", "Interp"], "flavour")
    time = g.choice("cd", "time")
    p = g.choice([1, 1, 2], "p")
    params = gen_par.training_points(g, p, g.int(2, 5, "s"))
    ts, r, m = terms(g, flavour, params)
    for T in ts:        # known interpolated operators must cover later parameters
        if T.known and T.form == "interp":
            big = 2 * np.abs(params).max()
            T.params = widen(T.params, np.array([-big, big]) if p == 1
                             else np.full((2, p), big))
            T.wrap()
    inputs = any(T.takes_input for T in ts)
    solver = opinf.lstsq.L2Solver(0.1)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        model = make(ts, flavour, time, solver)
        cur, reg, stale, nfits = None, 0.1, True, 0
        for i in range(g.int(2, 6, "nsteps")):
            what = g.choice(["fit", "fit", "refit", "reg", "evaluate", "copy"], "op")
            g.tag(what)
            if what == "fit":
                # anywhere inside, in any number
                s = g.int(2, 5, "s-new")
                P = gen_par.training_points(g, p, s, f"pts{i}")
                P = P / np.abs(P).max() * np.abs(params).max()
                Qs, Us = data(g, ts, P, r, m, f"d{i}")
                Zs = [g.normal(Q.shape, "noise") for Q in Qs]
                fit(g, model, ts, P, Qs, Zs, Us, m, time, f"fit{i}")
                cur, stale = (P, Qs, Zs, Us), False
                # the regularizer of the model's own solver decides
                reg = model.solver.regularizer
                nfits += 1
            elif what == "refit":
                if cur is None:
                    continue
                model.refit()
                stale = False
            elif what == "reg":
                reg2 = 10.0 ** g.int(-2, 1, "reg")
                if flavour == "Interp" and cur is not None:
                    model.solver.regularizer = reg2
                    for sv in model.solvers:
                        sv.regularizer = reg2
                else:
                    model.solver.regularizer = reg2
                reg = reg2
                stale = True
            elif what == "copy":
                model = model.copy()
            elif cur is not None:
                mu = gen_par.draw_inside(g, cur[0], "mu")
                q, u = g.normal(r, "q"), g.normal(m, "u")
                f, df, *_ = evaluators(model, time, inputs, mu, q, u)
                f(), df()
            if cur is None or stale:
                continue
            P, Qs, Zs, Us = cur
            fresh = make(ts, flavour, time, opinf.lstsq.L2Solver(reg))
            fresh.fit(P, Qs, Zs, *([Us] if inputs else []))
            for T, a, b in zip(ts, model.operators, fresh.operators):
                A = a.entries if T.form != "plain" else [a.entries]
                B = b.entries if T.form != "plain" else [b.entries]
                check(len(A) == len(B), "number of operator matrices")
                for x, y in zip(A, B):
                    close(dense(x), dense(y), f"after {what}: not a fresh fit", 1e-8,
                          scale=max(np.abs(Z).max() for Z in Zs) / reg)
            mu = gen_par.draw_inside(g, P, f"mu{i}")
            q, u = g.normal(r, "q"), g.normal(m, "u")
            f, *_ = evaluators(model, time, inputs, mu, q, u)
            h, *_ = evaluators(fresh, time, inputs, mu, q, u)
            A, B = f(), h()
            if np.isfinite(B).all():
                close(A, B, f"after {what}: rhs of a fresh fit", 1e-7,
                      scale=np.abs(B).max() + max(np.abs(Z).max() for Z in Zs) / reg)
    g.tag(flavour)
    g.nontrivial(nfits >= 2)


@CHECK.sub(quick=500, rule="at least two terms and two parameters")
def known_models(g):
    """Models built from given operators; discrete trajectories; _from_models."""
    flavour = g.choice(["Parametric", "Interp"], "flavour")
    time = g.choice("cd", "time")
    p = g.choice([1, 1, 2, 3], "p")
    params = gen_par.training_points(g, p, g.int(2, 6, "s"))
    ts, r, m = terms(g, flavour, params)
    for T in ts:
        T.known = True
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        model = make(ts, flavour, time)
        pts = [params[g.int(0, len(params) - 1, "train")]] + draw_points(g, params, 2, "mu")
        check_model(g, model, ts, time, r, m, pts, "given operators")
        # a model built of nonparametric models interpolates them
        if (flavour == "Interp" and all(T.params is params for T in ts)
                and hasattr(model_class(flavour, time), "_from_models")):
            Class = g.choice(gen_par.ONE_D if p == 1 else gen_par.MULTI_D, "class")
            one = M.ContinuousModel if time == "c" else M.DiscreteModel
            parts = [one([build(T.refs[i]) for T in ts]) for i in range(len(params))]
            built = model_class(flavour, time)._from_models(params, parts, InterpolatorClass=Class)
            for T in ts:
                T.Class = Class
                T.wrap()
            check_model(g, built, ts, time, r, m, pts, "from models")
            c = built.copy()
            check_model(g, c, ts, time, r, m, pts, "copy", predict=False)
        else:
            c = model.copy()
            check_model(g, c, ts, time, r, m, pts, "copy", predict=False)
    g.tag(flavour, time, f"p{p}")
    g.nontrivial(len(ts) > 1)


@CHECK.sub(quick=300, rule="at least two parameters and two terms")
def discrete_states(g):
    """Discrete fits with implied next states use consecutive columns."""
    flavour = g.choice(["Parametric", "Interp"], "flavour")
    p = g.choice([1, 2], "p")
    params = gen_par.training_points(g, p, g.int(2, 4, "s"))
    ts, r, m = terms(g, flavour, params, kinds="cAB")
    Qs, Us = data(g, ts, params, r, m)
    inputs = any(T.takes_input for T in ts)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a = make(ts, flavour, "d", 0.1)
        b = make(ts, flavour, "d", 0.1)
        flat = m == 1 and g.bool("flat")
        long = [U[0] for U in Us] if flat else Us
        a.fit(params, Qs, inputs=long if inputs else None)
        b.fit(params, [Q[:, :-1] for Q in Qs], [Q[:, 1:] for Q in Qs],
              inputs=[U[:, :-1] for U in Us] if inputs else None)
        for x, y, T in zip(a.operators, b.operators, ts):
            A = x.entries if T.form != "plain" else [x.entries]
            B = y.entries if T.form != "plain" else [y.entries]
            for E, F in zip(A, B):
                same(dense(E), dense(F), "implied next states")
    g.nontrivial(len(ts) > 1 and len(params) > 1)


@CHECK.sub(quick=300, rule="at least two fits to data of different dimensions")
def redimension(g):
    """One model fit to data of other dimensions is a fresh model fit to them."""
    flavour = g.choice(["Parametric", "Interp"], "flavour")
    time = g.choice("cd", "time")
    kinds = g.subset("cAHBN", "kinds", min_size=1)
    forms = ["interp" if flavour == "Interp" else g.choice(["affine", "plain", "interp"], "form")
             for _ in kinds]
    if flavour != "Interp" and "affine" not in forms:
        forms[0] = "affine"
    thetas = [gen_par.coefficients(g, g.int(1, 3, "nterms"), 1, f"t{i}")
              for i, _ in enumerate(kinds)]

    def fresh(reg):
        oplist = []
        for k, form, (arg, kw, _) in zip(kinds, forms, thetas):
            oplist.append(gen_par.AFFINE[k](arg, **kw) if form == "affine"
                          else gen_par.INTERP[k]() if form == "interp" else CLASSES[k]())
        if flavour == "Interp" and g.bool("string"):
            oplist = "".join(kinds)
        return model_class(flavour, time)(oplist, solver=opinf.lstsq.L2Solver(reg))
    inputs = bool({"B", "N"} & set(kinds))
    reg = 10.0 ** g.int(-2, 1, "reg")
    seen = set()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        model = fresh(reg)
        for i in range(g.int(2, 4, "nfits")):
            r, m, s = g.int(1, 4, "r"), g.int(1, 3, "m"), g.int(2, 4, "s")
            seen.add((r, m if inputs else 0, s))
            P = gen_par.training_points(g, 1, s, f"pts{i}")
            k = 30
            Qs = [g.uniform(-1.5, 1.5, (r, k), "Q") for _ in P]
            Us = [g.uniform(-1.5, 1.5, (m, k), "U") for _ in P]
            Zs = [g.normal((r, k), "Z") for _ in P]
            args = (P, Qs, Zs) + ((Us,) if inputs else ())
            model.fit(*args)
            other = fresh(reg).fit(*args)
            check(model.state_dimension == r, "state_dimension after refitting")
            check(model.input_dimension == (m if inputs else 0), "input_dimension after refitting")
            mu = gen_par.draw_inside(g, P, f"mu{i}")
            q, u = g.normal(r, "q"), g.normal(m, "u")
            for a, b in zip(evaluators(model, time, inputs, mu, q, u)[:2],
                            evaluators(other, time, inputs, mu, q, u)[:2]):
                A, B = a(), b()
                if np.isfinite(B).all():
                    close(A, B, "not a fresh fit", 1e-8, scale=np.abs(B).max() + 1 / reg)
            if g.rarely("copy", 3):
                model = model.copy()
    g.tag(flavour, *kinds)
    g.nontrivial(len(seen) > 1)
