"""C09: Jacobians are the derivatives of application."""
import numpy as np
import opinf

from pbt.runner import Check
from pbt.oracle import check, close, numjac, same, unchanged
from checks.gen_ops import (ALL, CLASSES, DEGREE, dense, dims, draw_state,
                            entries_of, operator)

ops = opinf.operators
CHECK = Check("C09", assumptions=[
    "operators that do not depend on the state may return the scalar 0, as documented",
    "rounding is bounded by 1e-9 of the sum of the absolute values of the terms",
])


def full(J, r):
    if np.ndim(J) == 0:
        check(J == 0, "scalar Jacobian other than 0")
        return np.zeros((r, r))
    J = J.toarray() if hasattr(J, "toarray") else J
    check(J.shape == (r, r), f"Jacobian shape {J.shape} != {(r, r)}")
    return J


def jscale(ref, q, u):
    q, u = np.abs(q), np.abs(u)
    a = type(ref)(ref.kind, ref.r, ref.m, np.abs(ref.coef), ref.p)
    return float(a.jac(q, u).max(initial=0.0))


@CHECK.sub(quick=3000, rule="r > 1 and the operator depends on the state")
def operators(g):
    if g.rarely("poly", 6):
        p = g.int(0, 5, "order")
        r = g.int(1, {0: 4, 1: 5, 2: 5, 3: 4, 4: 3, 5: 3}[p], "r")
        arg, ref = entries_of(g, "P", r, 1, p=p)
        op = ops.PolynomialOperator(p, arg)
        g.tag(f"P{p}")
    else:
        op, ref = operator(g)
        g.tag(ref.kind)
    r, m = ref.r, ref.m
    pts = [(draw_state(g, r), g.normal(m, "u")) for _ in range(g.int(1, 3, "npoints"))]
    first = None
    for q, u in pts + pts[:1]:
        with unchanged(q, u, op.entries, msg="jacobian() modified"):
            J = full(op.jacobian(q, u), r)
        close(J, ref.jac(q, u), "jacobian", 1e-9, scale=jscale(ref, q, u))
        if first is None:
            first = J.copy()
        close(np.reshape(op.apply(q, u), r), ref(q, u), "apply after jacobian", 1e-9,
              scale=ref.scale(q, u))
    same(J, first, "jacobian depends on earlier evaluations")
    # the same thing without reference to the entries: finite differences
    q, u = pts[0]
    h = 1e-2 * max(1.0, np.abs(q).max())
    if ref.p <= 4:
        num = numjac(lambda x: np.reshape(op.apply(x, u), r), q, h=h)
        close(J, num, "finite differences", 1e-7,
              scale=jscale(ref, np.abs(q) + h, u) + ref.scale(np.abs(q) + h, u) / h * 1e-6)
    if not ref.takes_input and g.bool("noinput"):
        same(full(op.jacobian(q), r), J, "jacobian without input")
    # one-dimensional quantities as scalars
    if r == 1 and ref.kind != "P":
        same(full(op.jacobian(float(q[0]), u), r), J, "scalar state")
    if m == 1:
        same(full(op.jacobian(q, float(u[0])), r), J, "scalar input")
    qi, ui = g.rng("qi").integers(-3, 4, r), g.rng("ui").integers(-3, 4, m)
    close(full(op.jacobian(qi, ui), r), ref.jac(qi, ui), "integer state", 1e-9,
          scale=jscale(ref, qi, ui))
    if ref.kind != "P" or True:
        c = op.copy()
        same(full(c.jacobian(*pts[-1]), r), full(op.jacobian(*pts[-1]), r), "copy")
    g.nontrivial(r > 1 and ref.kind not in "cB")


@CHECK.sub(quick=1500, rule="at least two kinds of operators")
def models(g):
    r = g.int(1, 5, "r")
    m = g.int(1, 3, "m")
    kinds = g.subset("cAHGQBN", "kinds", min_size=1)
    if r > 3 and "Q" in kinds:
        r = 3
    oplist, refs = [], []
    for k in kinds:
        arg, ref = entries_of(g, k, r, m)
        oplist.append(CLASSES[k](arg))
        refs.append(ref)
    for _ in range(g.int(0, 2, "twice")):       # several known operators of a kind
        k = g.choice(kinds, "kind2")
        arg, ref = entries_of(g, k, r, m, label="E2")
        oplist.append(CLASSES[k](arg))
        refs.append(ref)
    if g.rarely("poly", 3):
        p = g.int(0, 4, "order")
        arg, ref = entries_of(g, "P", r, 1, p=p)
        oplist.append(ops.PolynomialOperator(p, arg))
        refs.append(ref)
    order = g.perm(len(oplist), "order")
    oplist, refs = [oplist[i] for i in order], [refs[i] for i in order]
    inputs = any(rf.takes_input for rf in refs)
    name = g.choice(["Continuous", "Discrete", "Steady"], "class")
    if name == "Steady":
        try:
            from opinf.models.mono._nonparametric import SteadyModel as Model
        except ImportError:
            Model = None
        if Model is None or inputs:
            name = "Discrete"
    if name != "Steady":
        Model = getattr(opinf.models, name + "Model")
    model = Model(oplist)
    uw = g.normal((m, 2), "uw")

    def ufun(t):
        return uw[:, 0] * np.cos(t) + uw[:, 1]

    def call(method, q, t, u):
        f = getattr(model, method)
        if name == "Continuous":
            return f(t, q, ufun if inputs or pass_u else None)
        if name == "Discrete":
            return f(q, u if inputs else None)
        return f(q)

    pass_u = False
    for step in range(g.int(1, 3, "points")):
        q, t = draw_state(g, r), g.float(-2, 2, "t")
        if g.rarely("int", 6):
            q = np.round(q).astype(int)
        u = ufun(t)
        s = sum(rf.scale(q, u) for rf in refs)
        sj = sum(jscale(rf, q, u) for rf in refs)
        acts = g.choice(["jr", "rj", "jj"], "acts")
        with unchanged(q, u, *[o.entries for o in oplist]):
            for a in acts:
                if a == "r":
                    out = call("rhs", q, t, u)
                    close(out, sum(rf(q, u) for rf in refs), "rhs is the sum", 1e-9, scale=s)
                else:
                    J = call("jacobian", q, t, u)
                    close(J, sum(rf.jac(q, u) for rf in refs),
                          "model jacobian is the sum of operator jacobians", 1e-9, scale=sj)
        h = 1e-2 * max(1.0, np.abs(q).max())
        num = numjac(lambda x: call("rhs", x, t, u), q, h=h)
        qq = np.abs(q) + h
        close(J, num, "derivative of the right-hand side", 1e-7,
              scale=sum(jscale(rf, qq, u) + rf.scale(qq, u) / h * 1e-6 for rf in refs))
    g.tag(name, f"ops={len(oplist)}")
    g.nontrivial(len(set(kinds)) > 1)


@CHECK.sub(quick=800, rule="entries were replaced after a Jacobian was evaluated")
def changes(g):
    """Jacobians after entries are replaced, also through a model or a refit."""
    kind = g.choice("HGQANAH", "kind")
    r = g.int(1, 4, "r")
    m = g.int(1, 3, "m")
    arg, ref = entries_of(g, kind, r, m)
    op = CLASSES[kind](arg)
    const = ops.ConstantOperator(np.ones(r))
    model = opinf.models.DiscreteModel([op, const])
    n = 0
    q, u = draw_state(g, r), g.normal(m, "u")
    for _ in range(g.int(1, 4, "steps")):
        act = g.choice(["eval", "set", "prop", "delset", "copy"], "act")
        if act == "eval":
            op.jacobian(draw_state(g, r), u)
        elif act == "copy":
            op.jacobian(q, u)
            c = op.copy()
            arg2, ref2 = entries_of(g, kind, r, m, label="E2")
            c.set_entries(arg2)
            close(full(c.jacobian(q, u), r), ref2.jac(q, u), "changed copy", 1e-9,
                  scale=jscale(ref2, q, u))
        else:
            arg, ref = entries_of(g, kind, r, m)
            if act == "delset":
                del op.entries
            if act == "set":
                op.set_entries(arg)
            else:
                op.entries = arg
            n += 1
        close(full(op.jacobian(q, u), r), ref.jac(q, u), "jacobian after change", 1e-9,
              scale=jscale(ref, q, u))
        uu = u if kind == "N" else None
        close(model.jacobian(q, uu), ref.jac(q, u), "model jacobian after change", 1e-9,
              scale=jscale(ref, q, u))
    if kind in "AHG" and g.bool("refit"):
        # learned operators: refit with different data, evaluate in between
        learned = CLASSES[kind]()
        mdl = opinf.models.DiscreteModel([learned])
        d = learned.operator_dimension(r, m)
        for _ in range(2):
            Q = g.normal((r, d + 4), "Q")
            arg, ref = entries_of(g, kind, r, m, label="true")
            mdl.fit(Q, ref.batch(Q))
            J = learned.jacobian(q)
            E = dense(learned.entries)
            rr = type(ref)(kind, r, m, E)
            close(full(J, r), rr.jac(q), "jacobian after refit", 1e-9, scale=jscale(rr, q, u))
            n += 1
    g.tag(kind)
    g.nontrivial(n > 0)
