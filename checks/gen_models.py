"""Model structures, data and references for the model checks."""
import numpy as np
import opinf

from checks.gen_ops import CLASSES, DEGREE, Ref, entries_of, tuples

ops = opinf.operators
SIZE = {"c": 1.0, "A": 1.0, "H": 0.5, "G": 0.4, "Q": 0.3, "B": 1.0, "N": 0.5}


class SineOperator(ops.OperatorTemplate):
    """A user-defined, non-OpInf operator: alpha * sin(q)."""

    def __init__(self, r, alpha):
        self._r, self.alpha = r, alpha

    @property
    def state_dimension(self):
        return self._r

    def apply(self, state, input_=None):
        return self.alpha * np.sin(state)

    def jacobian(self, state, input_=None):
        return np.diag(np.atleast_1d(self.alpha * np.cos(state)))


class SineRef:
    kind, takes_input = "sin", False

    def __init__(self, r, alpha):
        self.r, self.alpha = r, alpha

    def __call__(self, q, u=None):
        return self.alpha * np.sin(q)

    def batch(self, Q, U=None):
        return self.alpha * np.sin(Q)

    def scale(self, q, u=None):
        return abs(self.alpha)

    def jac(self, q, u=None):
        return np.diag(np.atleast_1d(self.alpha * np.cos(q)))


def random_ref(g, kind, r, m, label, scale=1.0, p=None):
    rng = g.rng(label)
    if kind == "P":
        n = len(tuples(r, p))
        return Ref("P", r, m, rng.standard_normal((r, n)) * scale / np.sqrt(max(n, 1)), p)
    n = {"c": 1, "B": m, "N": r * m}.get(kind) or len(tuples(r, DEGREE[kind]))
    return Ref(kind, r, m, rng.standard_normal((r, n)) * scale * SIZE[kind] / np.sqrt(n))


def build(ref, with_entries=True):
    if ref.kind == "sin":
        return SineOperator(ref.r, ref.alpha)
    if ref.kind == "P":
        return ops.PolynomialOperator(ref.p, ref.coef if with_entries else None) \
            if with_entries else ops.PolynomialOperator(ref.p)
    if not with_entries:
        return CLASSES[ref.kind]()
    return CLASSES[ref.kind](ref.coef[:, 0] if ref.kind == "c" else ref.coef)


class Structure:
    """A model structure: references in model order, some of them known."""

    def __init__(self, refs, known, r, m):
        self.refs, self.known, self.r, self.m = refs, known, r, m
        self.learned = [R for R, k in zip(refs, known) if not k]

    @property
    def inputs(self):
        return any(R.takes_input for R in self.refs)

    def rhs(self, Q, U=None):
        return sum(R.batch(Q, U) for R in self.refs)

    def block(self, Q, U=None):
        return np.vstack([R.block(Q, U) for R in self.learned])

    def known_part(self, Q, U=None):
        out = np.zeros_like(Q)
        for R, k in zip(self.refs, self.known):
            if k:
                out = out + R.batch(Q, U)
        return out

    @property
    def d(self):
        return sum(R.coef.shape[1] for R in self.learned)


def structure(g, r=None, m=None, allow_known=True, kinds="cAHGQBN", label="st", need=None,
              poly=True, custom=True):
    picked = g.subset(kinds, label + ".kinds", min_size=1)
    if need and need not in picked:
        picked.append(need)
    top = max([DEGREE.get(k, 1) for k in picked] + [1])
    r = r or g.int(1, {1: 6, 2: 5, 3: 3, 4: 2}[top], label + ".r")
    m = m or g.int(1, 3, label + ".m")
    refs = [random_ref(g, k, r, m, f"{label}.{k}") for k in picked]
    known = [allow_known and g.rarely(f"{label}.known", 4) for _ in refs]
    if poly and g.rarely(label + ".poly", 5):   # a polynomial term of another order
        p = g.int(0, 5 if r <= 2 else 3, label + ".order")
        name = {0: "c", 1: "A", 2: "H", 3: "G", 4: "Q"}.get(p)
        if name not in picked:
            refs.append(random_ref(g, "P", r, m, label + ".P", 0.4, p))
            known.append(allow_known and g.bool(label + ".P.known"))
    if allow_known and g.rarely(label + ".dup", 4):   # a known term of a kind that is learned
        k = g.choice(picked, label + ".dupkind")
        refs.append(random_ref(g, k, r, m, label + ".dup"))
        known.append(True)
    if custom and allow_known and g.rarely(label + ".sine", 5):
        refs.append(SineRef(r, 0.5))
        known.append(True)
    if all(known):
        known[0] = False
        if refs[0].kind == "sin":
            known[0] = True
    order = g.perm(len(refs), label + ".order")
    return Structure([refs[i] for i in order], [known[i] for i in order], r, m)


def samples(g, st, extra=None, label="data"):
    """(Q, U) with enough independent samples for st."""
    k = 2 * st.d + 4 + g.int(0, 6, label + ".extra")
    rng = g.rng(label)
    Q = rng.uniform(-1.5, 1.5, (st.r, k))
    U = rng.uniform(-1.5, 1.5, (st.m, k))
    return Q, U
