"""C11: parametric operators evaluate to the operator their definition gives."""
import numpy as np
import opinf
import scipy.interpolate as si
import scipy.sparse as sp

from pbt.runner import Check
from pbt.oracle import check, close, raises, same, unchanged
from checks import gen_par
from checks.gen_ops import CLASSES, dense, dims, entries_of, tuples

ops = opinf.operators
CHECK = Check("C11", assumptions=[
    "interpolation references use scipy's documented classes on sorted parameters",
    "two-dimensional parameters: points in the convex hull; corner points included so the "
    "hull is not degenerate",
    "affine coefficient functions return one number per term",
])


def jfull(J, r):
    if np.ndim(J) == 0:
        check(J == 0, "scalar Jacobian other than 0")
        return np.zeros((r, r))
    J = J.toarray() if hasattr(J, "toarray") else J
    check(J.shape == (r, r), f"Jacobian shape {J.shape}")
    return J


def compare(g, op, ref, mu, label, rtol=1e-9):
    """op at mu is ref.at(mu), three ways."""
    r, m = ref.r, ref.m
    q, u = g.normal(r, label + ".q"), g.normal(m, label + ".u")
    want = ref.at(mu)
    if not np.all(np.isfinite(want.coef)):
        return
    sc = ref.scale_at(mu, q, u)
    args = (q, u) if ref.takes_input or g.bool(label + ".passu") else (q,)
    with unchanged(q, u, mu, *[dense(E) for E in op.entries], msg="evaluation modified"):
        ev = op.evaluate(mu)
        out = op.apply(mu, *args)
        jac = op.jacobian(mu, *args)
    check(type(ev) is CLASSES[ref.kind], f"evaluate() gives {type(ev).__name__}")
    check(ev.state_dimension == r and op.state_dimension == r, "state_dimension")
    if ref.takes_input:
        check(ev.input_dimension == m and op.input_dimension == m, "input_dimension")
    close(np.reshape(out, r), want(q, u), "apply at a parameter", rtol, scale=sc)
    same(np.reshape(ev.apply(*args), r), np.reshape(out, r), "evaluate().apply")
    J = jfull(jac, r)
    same(jfull(ev.jacobian(*args), r), J, "evaluate().jacobian")
    absref = type(want)(want.kind, r, m, np.abs(want.coef), want.p)
    close(J, want.jac(q, u), "jacobian at a parameter", rtol,
          scale=max(absref.jac(np.abs(q), np.abs(u)).max(initial=0),
                    sc / max(np.abs(q).min(), 1e-3)))
    E = dense(ev.entries)
    if want.kind != "c" and E.shape == want.coef.shape:
        close(E, want.coef, "entries of the evaluated operator", rtol,
              scale=ref.scale_at(mu, np.ones(r), np.ones(m)))
    k = g.int(1, 3, label + ".k")
    Q, U = g.normal((r, k), label + ".Q"), g.normal((m, k), label + ".U")
    bargs = (Q, U) if ref.takes_input else (Q,)
    close(np.reshape(op.apply(mu, *bargs), (r, -1)) * np.ones((1, k)), want.batch(Q, U),
          "batch at a parameter", rtol, scale=ref.scale_at(mu, Q, U))


def stacked(refs):
    return np.hstack([R.coef for R in refs])


@CHECK.sub(quick=1500, rule="several terms and a state-dependent operator")
def affine(g):
    op, ref, (arg, kw, args) = gen_par.affine(g)
    s = len(ref.refs)
    check(op.nterms == s, "nterms")
    check(len(op.entries) == s, "number of entries")
    mus = [gen_par.draw_parameter(g, ref.p, f"mu{i}", None) for i in range(g.int(1, 3, "nmu"))]
    for mu in mus:
        close(np.asarray(op.coeffs(mu), dtype=float).reshape(-1), ref.theta(mu), "coeffs()", 1e-12)
    for i, mu in enumerate(mus + mus[:1]):
        compare(g, op, ref, mu, f"c{i}")
    check(op.parameter_dimension == ref.p, "parameter_dimension after evaluation")
    # the same entries as a block
    if not any(sp.issparse(a) for a in args):
        block = stacked(ref.refs)
        if ref.kind == "c" and ref.r > 1 and s == 1 and g.bool("flat"):
            pass
        op2 = type(op)(arg, **kw)
        check(op2.entries is None and op2.state_dimension is None, "no entries yet")
        with unchanged(block, msg="set_entries() modified the block"):
            op2.set_entries(block, fromblock=True)
        compare(g, op2, ref, mus[0], "b")
    # copies
    c = op.copy()
    check(type(c) is type(op) and c.nterms == s, "copy type")
    check(c.parameter_dimension == op.parameter_dimension, "copy parameter dimension")
    compare(g, c, ref, mus[0], "copy")
    for E in c.entries:
        if not sp.issparse(E):
            E[...] = 7.0
    compare(g, op, ref, mus[0], "after-copy")
    raises((ValueError, IndexError, TypeError, RuntimeError),
           lambda: op.evaluate(np.ones(ref.p + 1)), "parameter of another dimension")
    compare(g, op, ref, mus[-1], "after-reject")
    # replace the entries
    if g.bool("replace"):
        items = [entries_of(g, ref.kind, ref.r, ref.m, fmt={"A": "dense", "H": "compressed",
                 "G": "compressed", "c": "1d", "B": "2d", "N": "2d"}.get(ref.kind), label=f"new{i}")
                 for i in range(s)]
        ref2 = gen_par.AffineRef(ref.theta, [it[1] for it in items], ref.p)
        op.set_entries([it[0] for it in items])
        compare(g, op, ref2, mus[0], "replaced")
    g.tag(ref.kind)
    g.nontrivial(s > 1 and ref.kind not in "cB")


@CHECK.sub(quick=1500, rule="at least three unsorted training parameters")
def interp(g):
    op, ref, (params, args, Class) = gen_par.interp(g)
    s, r = len(params), ref.r
    check(op.parameter_dimension == (1 if params.ndim == 1 else params.shape[1]), "p")
    same(np.reshape(op.training_parameters, params.shape), params, "training parameters")
    check(len(op.entries) == s and op.shape == dense(op.entries[0]).shape or ref.kind == "c",
          "shape")
    how = g.choice(["array", "list", "column", "from_operators", "block", "late"], "how")
    if how == "list":
        op = type(op)([p for p in params], list(args), InterpolatorClass=Class)
    elif how == "column" and params.ndim == 1:
        op = type(op)(params[:, None], args, InterpolatorClass=Class)
    elif how == "from_operators" and hasattr(op, "_from_operators"):
        op = type(op)._from_operators(params, [CLASSES[ref.kind](a) for a in args],
                                      InterpolatorClass=Class)
    elif how == "block":
        op = type(op)(params, stacked(ref.refs), InterpolatorClass=Class, fromblock=True)
    elif how == "late":
        op = type(op)(InterpolatorClass=None)
        check(op.entries is None and op.training_parameters is None, "fresh operator")
        op.set_training_parameters(params)
        if g.bool("fromblock"):
            op.set_entries(stacked(ref.refs), fromblock=True)
        else:
            op.set_entries(args)
        op.set_interpolator(Class)
    # training parameters
    for i in [g.int(0, s - 1, "train") for _ in range(2)]:
        mu = params[i]
        if params.ndim == 1:
            mu = g.choice([float(mu), np.array([mu])], "form")
        ev = op.evaluate(mu)
        q, u = g.normal(r, "q"), g.normal(ref.m, "u")
        a = (q, u) if ref.takes_input else (q,)
        close(np.reshape(ev.apply(*a), r), ref.refs[i](q, u), "training entries reproduced", 1e-8,
              scale=ref.scale_at(mu, q, u))
    for i in range(g.int(1, 3, "nmu")):
        compare(g, op, ref, gen_par.draw_inside(g, params, f"mu{i}"), f"c{i}", rtol=1e-8)
    if params.ndim == 1 and s > 1 and g.bool("extrapolate"):
        # (classes that do not extrapolate give NaN, which is not judged)
        compare(g, op, ref, gen_par.draw_beyond(g, params, "beyond"), "beyond", rtol=1e-7)
        g.tag("extrapolated")
    # the order in which the training points come does not matter
    order = g.perm(s, "order")
    if Class is None or params.ndim == 1:
        op2 = type(op)(params[order], [args[i] for i in order], InterpolatorClass=Class)
        mu = gen_par.draw_inside(g, params, "mu-order") if params.ndim == 1 else params[0]
        q, u = g.normal(r, "qo"), g.normal(ref.m, "uo")
        a = (q, u) if ref.takes_input else (q,)
        close(np.reshape(op2.apply(mu, *a), r), np.reshape(op.apply(mu, *a), r),
              "order of the training points", 1e-9, scale=ref.scale_at(mu, q, u))
    # copies
    c = op.copy()
    mu = gen_par.draw_inside(g, params, "mu-copy")
    compare(g, c, ref, mu, "copy", rtol=1e-8)
    c.entries[...] = 7.0
    if s > 1 and g.bool("reset"):
        c.set_interpolator(None)
    compare(g, op, ref, mu, "after-copy", rtol=1e-8)
    raises((ValueError,), lambda: op.evaluate(np.ones(op.parameter_dimension + 1)),
           "parameter of another dimension")
    # change the interpolator
    if params.ndim == 1 and g.bool("switch"):
        C2 = g.choice(gen_par.ONE_D, "class2")
        op.set_interpolator(C2)
        ref2 = gen_par.InterpRef(C2, params, ref.refs)
        compare(g, op, ref2, gen_par.draw_inside(g, params, "mu2"), "switched", rtol=1e-8)
    # replace the entries
    if g.bool("replace"):
        items = [entries_of(g, ref.kind, r, ref.m, fmt={"A": "dense", "H": "compressed",
                 "G": "compressed", "c": "1d", "B": "2d", "N": "2d"}.get(ref.kind), label=f"new{i}")
                 for i in range(s)]
        op3 = type(op)(params, args, InterpolatorClass=Class)
        op3.set_entries([it[0] for it in items])
        compare(g, op3, gen_par.InterpRef(Class, params, [it[1] for it in items]),
                gen_par.draw_inside(g, params, "mu3"), "replaced", rtol=1e-8)
    g.tag(ref.kind, "p%d" % op.parameter_dimension, how)
    g.nontrivial(s > 2 and not np.all(np.diff(params[:, 0] if params.ndim == 2 else params) > 0))


@CHECK.sub(quick=1200, rule="at least two parameters with different numbers of snapshots")
def datablocks(g):
    isaffine = g.bool("affine")
    op, ref, extra = gen_par.affine(g) if isaffine else gen_par.interp(g)
    r, m = ref.r, ref.m
    if isaffine:
        s = g.int(1, 4, "s")
        mus = [gen_par.draw_parameter(g, ref.p, f"mu{i}", "scalar") for i in range(s)]
        if g.bool("asarray"):
            mus = np.array(mus)
    else:
        mus = extra[0]
        s = len(mus)
    same_k = g.bool("same-k")
    k0 = g.int(1, 4, "k0")
    ks = [k0 if same_k else g.int(1, 4, "k") for _ in range(s)]
    Qs = [g.normal((r, k), "Q") for k in ks]
    Us = [g.normal((m, k), "U") for k in ks]
    flat = ref.takes_input and m == 1 and g.bool("flat-inputs")
    passU = [U[0] for U in Us] if flat else Us
    if g.bool("3d") and same_k:
        Qs = np.array(Qs)
    with unchanged(*Qs, *Us, *[np.asarray(mu) for mu in mus], msg="datablock() modified"):
        if ref.takes_input:
            D = op.datablock(mus, Qs, passU)
        else:
            D = op.datablock(mus, Qs) if g.bool("omit") else op.datablock(mus, Qs, passU)
    total = sum(ks)
    d = op.operator_dimension(s, r, m)
    nblocks = len(ref.refs)
    one = CLASSES[ref.kind].operator_dimension(r, m)
    check(d == nblocks * one, f"operator_dimension {d} != {nblocks} * {one}")
    check(D.shape == (d, total), f"datablock shape {D.shape} != {(d, total)}")
    E = stacked(ref.refs)
    got = E @ D
    at = 0
    for i, k in enumerate(ks):
        mu = mus[i]
        want = (ref.at(mu) if isaffine else ref.refs[i]).batch(Qs[i], Us[i])
        sc = ref.scale_at(mu, Qs[i], Us[i])
        close(got[:, at:at + k], want, "stacked entries times the data block", 1e-9, scale=sc)
        out = op.apply(mu, Qs[i], Us[i]) if ref.takes_input else op.apply(mu, Qs[i])
        close(np.reshape(out, (r, -1)) * np.ones((1, k)), want, "application at each parameter",
              1e-8, scale=sc)
        at += k
    # a data block is all an uncalibrated operator needs
    if isaffine:
        arg, kw, _ = extra
        empty = type(op)(arg, **kw)
        same(empty.datablock(mus, Qs, passU) if ref.takes_input else empty.datablock(mus, Qs), D,
             "data block of an uncalibrated operator")
        empty.set_entries(E, fromblock=True)
        compare(g, empty, ref, mus[0], "fromblock")
    else:
        same(type(op).datablock(mus, Qs, passU if ref.takes_input else None), D,
             "data block of the class")
    g.tag("affine" if isaffine else "interp", ref.kind)
    g.nontrivial(s > 1 and len(set(ks)) > 1)


@CHECK.sub(quick=700, rule="at least three steps in the history")
def history(g):
    """Whatever happened before, entries and parameters set last decide."""
    kind = g.choice(gen_par.KINDS, "kind")
    p = g.choice([1, 1, 2], "p")
    isaffine = g.bool("affine")
    simple = {"A": "dense", "H": "compressed", "G": "compressed", "c": "1d", "B": "2d", "N": "2d"}
    nterms = g.int(1, 3, "nterms")
    state = {}
    if isaffine:
        arg, kw, theta = gen_par.coefficients(g, nterms, p)
        op = gen_par.AFFINE[kind](arg, **kw)
    else:
        op = gen_par.INTERP[kind]()
        state["class"] = None
    steps = g.int(2, 7, "nsteps")
    done = 0
    for i in range(steps):
        if isaffine:
            what = g.choice(["set", "block", "evaluate", "clear", "copy", "galerkin"], "op")
        else:
            what = g.choice(["set", "block", "evaluate", "clear", "copy", "galerkin", "switch",
                             "params"], "op")
        g.tag(what)
        if what in ("set", "block"):
            r, m = g.int(1, 4, "r"), g.int(1, 3, "m")
            if not isaffine and "params" not in state:
                continue
            s = nterms if isaffine else len(state["params"])
            items = [entries_of(g, kind, r, m, fmt=simple.get(kind), label=f"e{i}.{a}")
                     for a in range(s)]
            if what == "set":
                op.set_entries([it[0] for it in items])
            else:
                op.set_entries(np.hstack([it[1].coef for it in items]), fromblock=True)
            state["refs"] = [it[1] for it in items]
        elif what == "params":
            params = gen_par.training_points(g, p, g.int(2, 5, "s"), f"pts{i}")
            if "refs" in state:
                raises((AttributeError,), lambda: op.set_training_parameters(params),
                       "training parameters replaced under existing entries")
            else:
                op.set_training_parameters(params)
                state["params"] = params
        elif what == "clear" and hasattr(op, "_clear"):
            op._clear()
            state.pop("refs", None)
            check(op.entries is None, "entries after _clear()")
        elif what == "copy":
            op = op.copy()
        elif what == "switch":
            C = g.choice([c for c in gen_par.ONE_D if p == 1 or c is None]
                         if p == 1 else gen_par.MULTI_D, "class")
            op.set_interpolator(C)
            state["class"] = C
        elif what == "galerkin" and "refs" in state:
            R0 = state["refs"][0]
            if not isaffine and state["class"] in (si.PchipInterpolator, si.Akima1DInterpolator):
                pass
            V = np.eye(R0.r)[:, g.perm(R0.r, "V")]      # a permutation of the states
            op = op.galerkin(V)
            new = []
            for R in state["refs"]:
                E = CLASSES[kind](R.coef[:, 0] if kind == "c" else R.coef).galerkin(V).entries
                new.append(type(R)(kind, R.r, R.m, dense(E), R.p))
            state["refs"] = new
        done += 1
        if "refs" not in state:
            q = np.ones(2)
            raises((AttributeError,), lambda: op.apply(np.ones(p), q, q), "operator without entries")
            continue
        if isaffine:
            ref = gen_par.AffineRef(theta, state["refs"], p)
            mu = gen_par.draw_parameter(g, p, f"mu{i}")
        else:
            ref = gen_par.InterpRef(state["class"], state["params"], state["refs"])
            mu = gen_par.draw_inside(g, state["params"], f"mu{i}")
        compare(g, op, ref, mu, f"h{i}", rtol=1e-8)
    g.nontrivial(done >= 3 and "refs" in state)
