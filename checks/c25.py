"""C25: displays and plots are faithful and harmless."""
import contextlib
import functools
import io
import re

import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt    # noqa: E402
import numpy as np    # noqa: E402
import opinf    # noqa: E402

from pbt.runner import Check    # noqa: E402
from pbt.oracle import Violation, check, close, raises    # noqa: E402
from checks import c16, c19, c23, gen_basis, gen_ops, gen_pre    # noqa: E402
from checks.c16 import quietly, scratch    # noqa: E402

CHECK = Check("C25", factor=2.0, assumptions=[
    "the layout of a display is free: judged are the values shown next to the names of public "
    "attributes, the parts a composite display contains, and the class name in the first line",
    "line styles, colors, labels and figure sizes are free: judged are the plotted data, the marked "
    "thresholds and ranks, the axes used and the returned values",
])


# Displays ====================================================================
def text_of(fn, what):
    """The display of an object: it prints nothing and does not fail."""
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            text = quietly(fn)
        except Exception as ex:
            raise Violation(f"{what} raised {type(ex).__name__}: {ex}"[:300]) from ex
    check(isinstance(text, str), f"{what} is a {type(text).__name__}")
    check(not out.getvalue(), f"{what} prints something")
    return text


def lines_of(text):
    out = [re.sub(r"^[| ]+", "", line).rstrip() for line in text.splitlines()]
    return [line for line in out if line]


def parts_of(o):
    """The objects whose displays are part of the display of o."""
    if isinstance(o, (opinf.pre.TransformerPipeline, opinf.pre.TransformerMulti)):
        return list(o.transformers)
    if isinstance(o, opinf.basis.BasisMulti):
        return list(o.bases)
    if isinstance(o, (opinf.roms.ROM, opinf.roms.ParametricROM)):
        return [x for x in (o.lifter, o.transformer, o.basis, getattr(o, "ddt_estimator", None),
                            o.model) if x is not None]
    if hasattr(o, "operators") and hasattr(o, "solver"):
        return list(o.operators) + [o.solver]
    return []


def own_lines(o, what):
    """The lines of the display of o that do not stem from its parts."""
    text = text_of(lambda: str(o), f"str({what})")
    lines = lines_of(text)
    pos = 1
    own = [lines[0]]
    for i, part in enumerate(parts_of(o)):
        sub = lines_of(str(part))
        at = [k for k in range(pos, len(lines) - len(sub) + 1)
              if lines[k].endswith(sub[0]) and lines[k + 1:k + len(sub)] == sub[1:]]
        if not at:
            raise Violation(f"str({what}) does not show its part {i}:\n{part}\nin\n{text}"[:900])
        own += lines[pos:at[0]]
        pos = at[0] + len(sub)
        if not isinstance(part, (str, type(None))):
            facts(part, f"{what}.{type(part).__name__}{i}")
    return own + lines[pos:]


def number(s):
    m = re.search(r"-?\d+(?:\.\d+)?(?:e[+-]?\d+)?|nan|-?inf", s)
    if m is None:
        raise Violation(f"no number in {s!r}")
    return float(m.group())


def shown_number(s, val, what):
    got = number(s)
    if not np.isfinite(val) or not np.isfinite(got):
        check(got == val or (np.isnan(got) and np.isnan(val)), f"{what}: shows {s}, is {val}")
        return
    check(abs(got - val) <= 1e-3 * abs(val) + 1e-300, f"{what}: shows {s}, is {val}")


def domain(s, t, what):
    m = re.match(r"(\d+) entries in \[([^,]+), ([^\]]+)\]", s)
    check(m is not None, f"{what}: {s}")
    check(int(m.group(1)) == t.size and float(m.group(2)) == t.min()
          and float(m.group(3)) == t.max(), f"{what}: shows {s} for {t.size} entries in "
          f"[{t.min()}, {t.max()}]")


TERMS = {"ConstantOperator": "c", "LinearOperator": "A", "QuadraticOperator": "H",
         "CubicOperator": "G", "QuarticOperator": None, "InputOperator": "B",
         "StateInputOperator": "N"}


def has_inputs(op):
    return isinstance(op, opinf.operators.InputMixin)


def structure(o, s, what):
    """'lhs = term + term + ...': one term per operator, in order."""
    lhs, rhs = s.split(" = ", 1)
    terms = rhs.split(" + ") if rhs else []
    check(len(terms) == len(o.operators), f"{what}: {s!r} for {len(o.operators)} operators")
    for term, op in zip(terms, o.operators):
        name = type(op).__name__
        name = name.replace("Affine", "").replace("Interp", "")
        if name in TERMS:
            letter = TERMS[name]
            check(letter is None or term[0] == letter, f"{what}: {term!r} for a {name}")
            degree = {"ConstantOperator": 0, "InputOperator": 0, "LinearOperator": 1,
                      "StateInputOperator": 1, "QuadraticOperator": 2, "CubicOperator": 3,
                      "QuarticOperator": 4}[name]
            check(len(re.findall("q", term)) == degree, f"{what}: {term!r} for a {name}")
            check(("u" in term) == has_inputs(op),
                  f"{what}: {term!r} for a {name}")


def facts(o, what):
    """Everything the display of o says about o is true."""
    own = own_lines(o, what)
    Class = type(o).__name__
    if isinstance(o, opinf.lift.PolynomialLifter):
        terms = re.sub(r"[() ]", "", "".join(own).split("->")[-1]).split(",")
        orders = [1.0 if x == "q" else float(x.removeprefix("q^")) for x in terms]
        check(orders == [float(p) for p in o.orders], f"orders {o.orders} shown as {own}")
        tail = "".join(own).split("->")[-1]
        check(tail.count("(") == tail.count(")"), f"unbalanced display {own}")
        for x, p in zip(terms, o.orders):
            check((x == "q") == (p == 1), f"order {p} shown as {x}")
        return {}
    check(re.search(rf"\b{re.escape(Class)}\b", own[0]) is not None,
          f"str({what}) begins with {own[0]!r} for a {Class}")
    if isinstance(o, opinf.pre.TransformerTemplate) and o.name is not None:
        check(repr(str(o.name))[1:-1] in own[0] or str(o.name) in own[0],
              f"str({what}) does not name the variable {o.name!r}")
    shown = {}
    for line in own[1:]:
        m = re.match(r"([\w. ()'\-]+?):\s+(.*)$", line)
        if m is None:
            m2 = re.match(r"using (\S+) of (\S+) SVD modes", line)
            if m2:
                check(m2.groups() == (str(o.num_svdmodes), str(o.max_modes)),
                      f"{what}: {line!r} for {o.num_svdmodes} of {o.max_modes}")
            m3 = re.match(r"(\d+) basis vectors available", line)
            if m3:
                check(int(m3.group(1)) == o.max_vectors, f"{what}: {line!r}, not {o.max_vectors}")
            continue
        key, val = m.groups()
        val = val.strip()
        shown[key] = val
        label = f"{what}: {key}"
        if key == "structure":
            structure(o, val, label)
        elif key == "entries.shape":
            check(val == str(o.shape), f"{label}: shows {val}, is {o.shape}")
        elif key in ("data_matrix", "lhs_matrix"):
            check(val == str(getattr(o, key).shape), f"{label}: shows {val}")
        elif key == "solve().shape":
            check(val == str((o.r, o.d)), f"{label}: shows {val}, is {(o.r, o.d)}")
        elif key == "condition number":
            shown_number(val, o.cond(), label)
        elif key == "Truncation condition number":
            shown_number(val, o.tcond(), label)
        elif key == "Augmented condition number":
            aug = np.hstack([o.data_matrix, o.lhs_matrix.T])
            want = np.linalg.cond(aug)
            if want < 1e8:
                shown_number(val, want, label)
        elif key == "regularizer":
            reg = o.regularizer
            if reg is None:
                check(val == "None", f"{label}: shows {val}, is None")
            elif np.isscalar(reg):
                shown_number(val, reg, label)
            elif isinstance(reg, np.ndarray):
                check(val == str(reg.shape), f"{label}: shows {val}, is {reg.shape}")
            else:
                check(val.startswith(str(len(reg))) and str(reg[0].shape) in val,
                      f"{label}: shows {val}, is {len(reg)} of {reg[0].shape}")
        elif key == "training parameters":
            P = o.training_parameters
            check(val == str(None if P is None else len(P)), f"{label}: shows {val}, is {P!r}")
        elif key == "expansion terms":
            check(val == str(o.nterms), f"{label}: shows {val}, is {o.nterms}")
        elif key in ("time_domain", "new_time_domain"):
            domain(val, getattr(o, key), label)
        elif key in ("dt", "scaler"):
            shown_number(val, getattr(o, key), label)
        elif key.endswith("cumulative energy"):
            check(abs(number(val) / 100 - o.cumulative_energy) <= 1e-6, f"{label}: shows {val}, "
                  f"is {o.cumulative_energy}")
        elif key.endswith("residual energy"):
            re_ = o.residual_energy
            check(abs(number(val) - re_) <= 1e-3 * abs(re_) + 1e-14, f"{label}: shows {val}, "
                  f"is {re_}")
        elif hasattr(o, key):
            attr = getattr(o, key)
            if attr is None or isinstance(attr, (int, np.integer, bool, str)):
                check(val.strip("'") == str(attr), f"{label}: shows {val}, is {attr!r}")
    # dimensions are shown wherever they are known
    for key in ("state_dimension", "input_dimension", "parameter_dimension", "num_transformers"):
        val = getattr(o, key, None)
        if val is None or isinstance(o, (opinf.roms.ROM, opinf.roms.ParametricROM)):
            continue
        if key == "input_dimension" and isinstance(o, opinf.operators.OperatorTemplate) \
                and not has_inputs(o):
            continue
        check(key in shown, f"str({what}) does not show {key} = {val}")
    text = "\n".join(own)
    if isinstance(o, opinf.basis.PODBasis):
        for key in ("cumulative", "residual"):
            check((getattr(o, key + "_energy") is not None) == (key + " energy" in text),
                  f"str({what}) and {key}_energy: {text!r}")
        check((o.max_vectors is not None) == ("vectors available" in text),
              f"str({what}) and max_vectors = {o.max_vectors}: {text!r}")
    if isinstance(o, opinf.ddt.DerivativeEstimatorTemplate):
        check("time_domain" in shown, f"str({what}) does not show the time domain")
    if isinstance(o, opinf.ddt.InterpDerivativeEstimator):
        check(("new_time_domain" in shown) == (o.new_time_domain is not None),
              f"str({what}) and the new time domain")
        check(o.InterpolatorClass.__name__ in text, f"str({what}) and the interpolator")
        opts(o.options, text, what, {"axis"})
    if type(o) is opinf.lstsq.PlainSolver:
        opts(o.options, text, what)
    if isinstance(o, opinf.lstsq.SolverTemplate):
        trained = o.data_matrix is not None
        check(("data_matrix" in shown) == trained, f"str({what}): data_matrix {trained}")
        check(("not trained" in own[0]) != trained, f"str({what}): {own[0]!r}")
    return shown


def opts(options, text, what, hidden=()):
    """Options are shown as key=value, except those hidden."""
    for key, val in options.items():
        if key in hidden:
            check(re.search(rf"\b{key}=", text) is None, f"str({what}) shows {key}: {text!r}")
        elif val is not None:
            check(f"{key}={val!r}" in text, f"str({what}) does not show {key}={val!r}: {text!r}")


def display(o, what):
    """str() and repr() of one object."""
    first = text_of(lambda: str(o), f"str({what})")
    if type(o).__str__ is object.__str__:    # (Bayesian posteriors)
        return re.sub("0x[0-9a-f]+", "", first)
    rep = text_of(lambda: repr(o), f"repr({what})")
    check(text_of(lambda: str(o), f"str({what})") == first, f"str({what}) changes between calls")
    head, _, tail = rep.partition("\n")
    check(tail == first, f"repr({what}) does not contain str()")
    check(type(o).__name__ in head and hex(id(o)) in head, f"repr({what}) begins with {head!r}")
    quietly(lambda: facts(o, what))
    check(text_of(lambda: f"{o}", f"f-string of {what}") == first, f"format({what}) is not str()")
    return first


@CHECK.sub(quick=1500, rule="the object is trained and was used between two displays")
def displays(g):
    """Any object in any state of training, its copies and what it becomes."""
    item, kind = c16.draw_item(g)
    if item is None:
        return
    obj = item.obj
    g.tag(kind)
    base = item.probe(obj)
    name = type(obj).__name__
    text = display(obj, name)
    c16.agree(item, base, obj, f"{name} after displaying")
    with scratch() as folder:
        new, how = c16.transfer(g, item, obj, folder, 0, True)
        display(new, f"{how} of {name}")
        if how not in ("file", "group"):
            check(display(new, name) == text, f"str() of the {how} of a {name} differs")
        acts = item.actions()
        if acts:
            aname, act = g.choice(acts, "action")
            if item.can(aname, how):
                c16.view(lambda: act(new))
                display(new, f"{how} of {name} after {aname}")
                g.nontrivial(getattr(item, "trained", True))
        check(display(obj, name) == text, f"str({name}) depends on its {how}")


def training(g, st):
    rng = g.rng("data")
    k = g.int(6, 9, "k")
    return rng.standard_normal((st.n, k)) + 2.0


@CHECK.sub(quick=400, rule="at least two stages, trained")
def composites(g):
    """Reduced-order models, liftings and derivative estimators."""
    kind = g.choice(["rom", "rom", "rom", "lifter", "ddt"], "kind")
    g.tag(kind)
    if kind == "lifter":
        o = g.choice([opinf.lift.QuadraticLifter(), opinf.lift.PolynomialLifter(
            g.choice([(1, 2, 3), (2, 1), (0.5, 1), (1,), (-1, 1)], "orders")), c19.ExpLifter()],
            "lifter")
        display(o, type(o).__name__)
        return
    if kind == "ddt":
        _, o = c23_estimator(g)
        display(o, type(o).__name__)
        return
    st = c19.Stages(g)
    L, T, B = st.fresh()
    continuous = g.bool("continuous")
    model = c19.simple_model(continuous, st.r) if g.bool("simple") else \
        opinf.models.ContinuousModel("cA") if continuous else opinf.models.DiscreteModel("A")
    est = opinf.ddt.UniformFiniteDifferencer(np.linspace(0, 1, 7)) \
        if continuous and g.bool("ddt") else None
    rom = quietly(lambda: opinf.roms.ROM(model, lifter=L, transformer=T, basis=B,
                                         ddt_estimator=est))
    display(rom, "ROM")
    for stage, o in (("lifter", L), ("transformer", T), ("basis", B), ("ddt_estimator", est),
                     ("model", model)):
        if o is not None:
            check(re.search(rf"\b{stage}\b", str(rom)) is not None,
                  f"str(ROM) does not mention its {stage}")
            display(o, stage)
    if g.bool("fit"):
        X = training(g, st)
        if st.fits(X if L is None else quietly(lambda: L.lift(X))):
            done = c16.view(lambda: (rom.fit(
                X, **({"lhs": np.zeros_like(X)} if continuous and est is None else {})), None)[1])
            g.tag("fitted" if done is None else "rejected")
            g.nontrivial(done is None and st.count >= 1)
            display(rom, "trained ROM")


def c23_estimator(g):
    t = np.linspace(g.float(-3, 3, "t0"), 5.0, g.int(7, 12, "k"))
    kind = g.choice(["uniform", "nonuniform", "interp"], "estimator")
    if kind == "uniform":
        schemes = sorted(opinf.ddt.UniformFiniteDifferencer._schemes)
        s = g.choice(schemes, "scheme")
        return t, opinf.ddt.UniformFiniteDifferencer(t, scheme=s)
    if kind == "nonuniform":
        t = np.sort(t + 0.01 * g.normal(t.size, "jitter"))
        return t, opinf.ddt.NonuniformFiniteDifferencer(t)
    new = None if g.bool("same times") else np.linspace(t[0], t[-1], g.int(2, 9, "k2"))
    which, options = g.choice([("cubic", {}), ("akima", {}), ("cubic", {"bc_type": "natural"}),
                               ("cubic", {"bc_type": "clamped", "extrapolate": True})], "interp")
    return t, opinf.ddt.InterpDerivativeEstimator(
        t, InterpolatorClass=which, new_time_domain=new, **options)


# Plots =======================================================================
@contextlib.contextmanager
def canvas(g):
    """An axes to draw on (or None), with other figures around."""
    plt.close("all")
    other = plt.figure().add_subplot(111)
    other.plot([0, 1], [2, 3])
    kind = g.choice(["given", "new", "given-not-current"], "axes")
    ax = None
    if kind != "new":
        ax = plt.figure().add_subplot(111)
        if kind == "given-not-current":
            plt.figure(other.figure.number)
    try:
        yield ax, other
    finally:
        plt.close("all")


def same_line(line, x, y, what):
    close(np.asarray(line.get_xdata(), float), np.asarray(x, float), what + ": x", rtol=1e-9)
    got, y = np.asarray(line.get_ydata(), float), np.asarray(y, float)
    check(got.shape == y.shape, f"{what}: y has shape {got.shape}, not {y.shape}")
    scale = np.abs(y[np.isfinite(y)]).max() if np.isfinite(y).any() else 1.0
    ok = np.isfinite(y)
    check(np.array_equal(ok, np.isfinite(got)), f"{what}: y not finite")
    check(not ok.any() or np.abs(got[ok] - y[ok]).max() <= 1e-9 * scale, f"{what}: y differs")


def marks(ax, lines, thresholds, ranks, what):
    """Each threshold is a horizontal line, each rank a vertical line with a text."""
    texts = [t.get_text() for t in ax.texts]
    for thr, r in zip(thresholds, ranks):
        check(any(np.all(np.isclose(np.asarray(x.get_ydata(), float), thr, rtol=1e-12, atol=0))
                  for x in lines), f"{what}: threshold {thr} not marked")
        check(any(np.all(np.asarray(x.get_xdata(), float) == r) for x in lines),
              f"{what}: rank {r} not marked")
        check(any(re.search(rf"\b{r}$", t) for t in texts), f"{what}: rank {r} not labelled")


KINDS = ("svdval_decay", "cumulative_energy", "residual_energy")


def curve(kind, s, sqrt=False):
    """What is to be plotted for the singular values s."""
    s = np.sort(np.asarray(s, float))[::-1]
    n = s.size
    if kind == "svdval_decay":
        return np.arange(1, n + 1), s / s[0]
    x = np.concatenate([[0], np.cumsum(s**2) / np.sum(s**2)])
    if kind == "residual_energy":
        x = 1 - x
        if sqrt:
            x = np.sqrt(x)
    return np.arange(n + 1), x


def tidy(kind, y):
    """Residuals at rounding level are not compared digit by digit."""
    return np.where(np.abs(y) < 1e-7, 0.0, y)


@CHECK.sub(quick=500, rule="with a threshold or several singular values")
def spectra(g):
    """svdval_decay(), cumulative_energy() and residual_energy() with plots, and the PODBasis
    methods that draw them."""
    n = g.int(1, 8, "n")
    rng = g.rng("svals")
    s = 10.0 ** np.sort(rng.uniform(-3, 2, n))[::-1]
    if g.rarely("shuffled", 4):
        s = rng.permutation(s)
    kind = g.choice(KINDS + ("projection_error",), "kind")
    name = "residual_energy" if kind == "projection_error" else kind
    sqrt = kind == "projection_error" or (kind == "residual_energy" and g.bool("sqrt"))
    thr = g.choice([None, 0.5, 0.03, 0.999, [0.9, 0.01], (0.3,), [1e-6, 0.5, 0.99]], "threshold")
    right = g.choice([None, None, 1, n, n + 5, max(1, n // 2)], "right")
    options = g.choice([{}, {"color": "r"}, {"marker": "x"}, {"linewidth": 2}], "options")
    g.nontrivial(n > 2 or thr is not None)
    g.tag(kind, f"right:{right is not None}")
    before, thr0 = s.copy(), repr(thr)
    x, y = curve(name, s, sqrt)
    asked = {} if thr is None else {"threshold": thr}
    extra = {"sqrt": True} if name == "residual_energy" and sqrt else {}
    f = getattr(opinf.basis, name)
    plain = quietly(lambda: f(s, thr if thr is not None else 0.5, plot=False, **extra))
    ranks = None if thr is None else plain if np.ndim(plain) else [plain]
    use_pod = g.bool("PODBasis")
    with canvas(g) as (ax, other):
        nfig = len(plt.get_fignums())
        untouched = len(other.lines)
        if use_pod:
            E = np.linalg.qr(rng.standard_normal((n + 2, n)))[0]
            X = E * np.sort(s)[::-1] @ np.linalg.qr(rng.standard_normal((n, n)))[0]
            pod = opinf.basis.PODBasis(num_vectors=g.int(1, n, "r"))
            quietly(lambda: pod.fit(X))
            base = [np.copy(pod.entries), np.copy(pod.svdvals), str(pod)]
            if kind != "projection_error" and name == "residual_energy" and extra:
                options = dict(options, **extra)
            got = quietly(lambda: getattr(pod, "plot_" + kind)(
                right=right, ax=ax, **asked, **options))
            used = got
            check(isinstance(got, plt.Axes), f"plot_{kind}() returned {got!r}")
            check(np.array_equal(pod.entries, base[0]) and np.array_equal(pod.svdvals, base[1])
                  and str(pod) == base[2], f"plot_{kind}() changed the basis")
            x, y = curve(name, pod.svdvals, sqrt)
            ranks = None
            if thr is not None:
                ranks = quietly(lambda: f(pod.svdvals, thr, plot=False, **extra))
                ranks = ranks if np.ndim(ranks) else [ranks]
        else:
            got = quietly(lambda: f(s, thr, True, right, ax, **extra, **options)
                          if g.bool("positional") and name != "residual_energy"
                          else f(s, threshold=thr, plot=True, right=right, ax=ax, **extra,
                                 **options))
            used = ax if ax is not None else plt.gca()
            if thr is None:
                check(got is None, f"{name}() without threshold returned {got!r}")
            else:
                check(type(got) is type(plain) and got == plain,
                      f"{name}(): {got} with plot, {plain} without")
        check(ax is None or used is ax, f"{kind}: not drawn on the given axes")
        check(used is not other and len(other.lines) == untouched, f"{kind}: drew on other axes")
        check(len(plt.get_fignums()) == nfig + (ax is None), f"{kind}: opened "
              f"{len(plt.get_fignums()) - nfig} figures")
        check(len(used.lines) >= 1, f"{kind}: nothing drawn")
        main = used.lines[0]
        check(np.array_equal(np.asarray(main.get_xdata(), float), x), f"{kind}: wrong indices")
        gy = np.asarray(main.get_ydata(), float)
        check(gy.shape == y.shape, f"{kind}: {gy.size} values drawn, not {y.size}")
        err = np.abs(gy**(2 if sqrt else 1) - y**(2 if sqrt else 1))
        check(np.all(np.isfinite(gy[y**2 > 1e-13])), f"{kind}: not finite")
        check(np.nanmax(err) <= 1e-9, f"{kind}: curve wrong by {np.nanmax(err):.2e}")
        if ranks is not None:
            marks(used, used.lines[1:], thr if np.ndim(thr) else [thr], ranks, kind)
        if "color" in options:
            check(matplotlib.colors.same_color(main.get_color(), "r"), f"{kind}: color ignored")
        lo, hi = used.get_xlim()
        if right is not None:
            check(abs(hi - min(right, x.size)) < 1e-9, f"{kind}: right={right} shows up to {hi}")
        else:
            check(lo <= x[0] and hi >= x[-1], f"{kind}: x range [{lo}, {hi}] cuts the curve")
        if used.get_xscale() != "linear" or name == "cumulative_energy":
            check(used.get_yscale() == "linear", f"{kind}: scale")
        elif name != "cumulative_energy":
            check(used.get_yscale() == "log", f"{kind}: not on a logarithmic scale")
        check(bool(used.get_xlabel()) and bool(used.get_ylabel()), f"{kind}: no axis labels")
        check(np.array_equal(s, before), f"{kind}: singular values modified")
        check(repr(thr) == thr0, f"{kind}: thresholds modified")


@CHECK.sub(quick=250, rule="more than one basis vector")
def vectors(g):
    """LinearBasis.plot1D(), PODBasis.plot_energy(), DerivativeEstimator.verify(plot=True)."""
    kind = g.choice(["plot1D", "plot1D", "plot1D", "plot_energy", "plot_energy", "verify",
                     "operator", "untrained"], "kind")
    g.tag(kind)
    if kind == "operator":
        op = gen_ops.operator(g, g.choice("AHGN", "operator"), g.int(1, 3, "r"),
                              g.int(1, 2, "m"))[0]
        k, ntests, plot = g.int(2, 6, "k"), g.int(1, 3, "ntests"), g.bool("plot")
        with canvas(g) as (_, other):
            ax = plt.figure().add_subplot(111)
            nfig = len(plt.get_fignums())
            out, _ = printed(lambda: quietly(lambda: op.verify(
                plot, k=k, ntests=ntests) if g.bool("positional")
                else op.verify(plot=plot, k=k, ntests=ntests)))
            check(len(other.lines) == 1 and len(plt.get_fignums()) == nfig,
                  "verify() drew elsewhere than on the current axes")
            check(len(ax.lines) == int(plot), f"verify(plot={plot}) drew {len(ax.lines)} lines")
            if plot:
                hs = np.asarray(ax.lines[0].get_xdata(), float)
                check(ax.get_xscale() == ax.get_yscale() == "log", "verify(plot=True): scales")
                check(np.all(hs > 0) and hs.size > 2, "verify(plot=True): step sizes")
        g.nontrivial(plot)
        return
    if kind == "untrained":
        b = opinf.basis.PODBasis(num_vectors=2)
        methods = ["plot1D", "plot_energy"] + ["plot_" + k for k in KINDS + ("projection_error",)]
        name = g.choice(methods, "method")
        with canvas(g) as (ax, other):
            nfig = len(plt.get_fignums())
            raises(AttributeError, lambda: quietly(lambda: getattr(b, name)(
                **({} if name == "plot_energy" else {"ax": ax}))), f"{name}() before fit()")
            check(len(other.lines) == 1 and (ax is None or not ax.lines),
                  f"{name}() before fit() drew something")
            check(len(plt.get_fignums()) == nfig, f"{name}() before fit() opened a figure")
        g.nontrivial()
        return
    if kind == "verify":
        t, est = c23_estimator(g)
        want = quietly(lambda: silent(lambda: est.verify(return_errors=True)))
        text = str(est)
        with canvas(g) as (_, other):
            nfig = len(plt.get_fignums())
            got = silent(lambda: quietly(lambda: est.verify(plot=True, return_errors=True)))
            check(len(plt.get_fignums()) == nfig + 1, "verify(plot=True): no figure")
            ax = plt.gca()
            check(ax is not other and len(other.lines) == 1, "verify(plot=True): other axes")
            names = [k for k in want if k != "dts"]
            check(list(got) == list(want), "verify(plot=True): other errors returned")
            drawn = {line.get_label(): line for line in ax.lines}
            check(sorted(drawn) == sorted(names), f"verify(plot=True) shows {sorted(drawn)}")
            for k in names:
                same_line(drawn[k], want["dts"], want[k], f"verify(plot=True): {k}")
                close(np.array(got[k]), np.array(want[k]), f"errors of {k}", rtol=1e-9)
            g.nontrivial()
        check(str(est) == text and np.array_equal(est.time_domain, t), "verify() changed times")
        return
    n = g.int(2, 8, "n")
    r = g.int(1, n, "r")
    rng = g.rng("basis")
    if kind == "plot_energy" or g.bool("pod"):
        b = opinf.basis.PODBasis(num_vectors=r)
        quietly(lambda: b.fit(rng.standard_normal((n, n + g.int(0, 3, "more"))) + 1))
    else:
        b, _ = gen_basis.linear_basis(g, n, r)[:2]
    E = np.copy(b.entries)
    r = E.shape[1]
    g.nontrivial(r > 1)
    with canvas(g) as (ax, other):
        nfig = len(plt.get_fignums())
        if kind == "plot_energy":
            right = g.choice([None, 1, n], "right")
            quietly(lambda: b.plot_energy(right=right))
            check(len(plt.get_fignums()) == nfig + 1, "plot_energy(): no figure")
            fig = plt.gcf()
            check(len(other.lines) == 1 and fig is not other.figure, "plot_energy(): other axes")
            found = []
            for a in fig.axes:
                for line in a.lines:
                    found.append((np.asarray(line.get_xdata(), float),
                                  np.asarray(line.get_ydata(), float)))
            for k in KINDS:
                x, y = curve(k, b.svdvals)
                check(any(fx.shape == x.shape and np.array_equal(fx, x)
                          and np.abs(fy - y).max() <= 1e-9 for fx, fy in found),
                      f"plot_energy() does not show {k}")
            check(sum(np.all(fx == r) and fx.size == 2 for fx, fy in found) >= 2,
                  "plot_energy() does not mark the dimension")
            texts = [t.get_text() for a in fig.axes for t in a.texts]
            check(any(re.search(rf"\b{r}$", t) for t in texts), f"plot_energy(): r={r}: {texts}")
            drawn = [a for a in fig.axes if a.lines]
            check(len(drawn) == 3, f"plot_energy(): {len(drawn)} axes with curves")
            for a in drawn:
                size = a.lines[0].get_xdata().size
                hi = a.get_xlim()[1]
                check(right is None or abs(hi - min(right, size)) < 1e-9,
                      f"plot_energy(right={right}) shows up to {hi}")
                inside = [t for t in a.texts]
                for t in inside:
                    lo, top = sorted(a.get_ylim())
                    check(lo <= t.get_position()[1] <= top or top == lo,
                          f"plot_energy(): label outside of the axes")
                    check(t.get_position()[0] >= 0, "plot_energy(): label at a wrong index")
            where = [tuple(np.round(a.get_position().bounds, 6)) for a in drawn]
            check(len(set(where)) == 2, "plot_energy(): two panels")
        else:
            x = None
            if g.bool("x"):
                x = np.sort(rng.uniform(-2, 5, n))
                x = x[::-1].copy() if g.rarely("reversed", 4) else x
            num = g.choice([None, 1, r, r + 3], "num_vectors")
            style = g.choice([{}, {"linewidth": 3}, {"color": "r"}], "style")
            x0 = None if x is None else x.copy()
            got = quietly(lambda: b.plot1D(x, num, ax, **style) if g.bool("positional")
                          else b.plot1D(x=x, num_vectors=num, ax=ax, **style))
            check(isinstance(got, plt.Axes), f"plot1D() returned {got!r}")
            check(ax is None or got is ax, "plot1D(): not drawn on the given axes")
            check(got is not other and len(other.lines) == 1, "plot1D(): drew on other axes")
            check(len(plt.get_fignums()) == nfig + (ax is None), "plot1D(): figures")
            want = r if num is None else min(r, num)
            check(len(got.lines) == want, f"plot1D(num_vectors={num}): {len(got.lines)} curves")
            xs = np.linspace(0, 1, n) if x is None else x
            for j, line in enumerate(got.lines):
                same_line(line, xs, E[:, j], f"plot1D(): vector {j}")
                if "color" in style:
                    check(matplotlib.colors.same_color(line.get_color(), "r"),
                          "plot1D(): color ignored")
            close(np.array(got.get_xlim()), np.array([xs[0], xs[-1]]), "plot1D(): limits",
                  rtol=1e-9)
            check(x is None or np.array_equal(x, x0), "plot1D(): x modified")
        check(np.array_equal(b.entries, E), f"{kind}() changed the basis")


def silent(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


# Reports =====================================================================
def printed(fn):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        res = quietly(fn)
    return res, out.getvalue()


class OwnSVD:
    def __call__(self, X, **kw):
        return np.linalg.svd(X, full_matrices=False)


def own_svd(X, **kw):
    return np.linalg.svd(X, full_matrices=False)


def close_text(s, val, rel, what, digits=0.0):
    got = float(s)
    if not np.isfinite(val):
        check(not np.isfinite(got), f"{what}: shows {s}, is {val}")
        return
    check(abs(got - val) <= rel * abs(val) + digits, f"{what}: shows {s}, is {val}")


@CHECK.sub(quick=500, rule="something was reported")
def reports(g):
    """What verbose options print is true, and they change nothing."""
    kind = g.choice(["transformer", "transformer", "gridsearch", "gridsearch", "verify", "svd"],
                    "kind")
    g.tag(kind)
    if kind == "svd":
        solver = g.choice(["dense", "randomized", "method-of-snapshots", "eigh", own_svd,
                           lambda X, **kw: own_svd(X), OwnSVD(),
                           functools.partial(own_svd, check=1), OwnSVD().__call__], "solver")
        n = g.int(2, 6, "n")
        b = quietly(lambda: opinf.basis.PODBasis(num_vectors=1, svdsolver=solver))
        display(b, "untrained PODBasis")
        quietly(lambda: b.fit(g.rng("X").standard_normal((n, 8))))
        text = display(b, "PODBasis")
        g.nontrivial(callable(solver))
        if solver is own_svd:
            check("own_svd" in text, f"the solver's name is not shown: {text}")
        return
    if kind == "transformer":
        tf = opinf.pre.ShiftScaleTransformer
        options = dict(zip(("centering", "scaling", "byrow"), gen_pre.shiftscale_options(g)))
        options["name"] = g.choice([None, "velocity"], "name")
        n, k = g.int(1, 5, "n"), g.int(2, 7, "k")
        X = gen_pre.spread_data(g, n, k)
        loud = quietly(lambda: tf(**options, verbose=True))
        mute = quietly(lambda: tf(**options, verbose=False))
        inplace = g.bool("inplace")
        X1, X2 = X.copy(), X.copy()
        Y1, text = printed(lambda: loud.fit_transform(X1, inplace=inplace))
        Y2, none = printed(lambda: mute.fit_transform(X2, inplace=inplace))
        check(none == "", f"verbose=False prints {none!r}")
        check(np.array_equal(Y1, Y2, equal_nan=True) and np.array_equal(X1, X2, equal_nan=True),
              "verbose=True changes the result")
        check(loud == mute, "verbose=True changes the transformation")
        c, s = loud.centering, loud.scaling
        check(("centering" in text) == c, f"centering={c} reported as {text!r}")
        check((s is None) or (s in text), f"scaling={s} reported as {text!r}")
        if options["name"]:
            check("velocity" in text, f"name not reported: {text!r}")
        rows = [re.findall(r"-?\d\.\d+e[+-]\d+|nan|-?inf", line) for line in text.splitlines()]
        rows = [r for r in rows if len(r) == 4]
        stages = [X]
        if c:
            stages.append(X - X.mean(axis=1, keepdims=True))
        if s is not None:
            stages.append(Y1)
        check(len(rows) == len(stages), f"{len(stages)} stages reported as {text!r}")
        for row, Z in zip(rows, stages):
            size = max(np.abs(Z).max(), np.abs(X).max() if Z is not Y1 else 0)
            for got, f in zip(row, (np.min, np.mean, np.max, np.std)):
                close_text(got, f(Z), 1e-3, f"reported {f.__name__}", 1e-10 * size)
        g.nontrivial(c or s is not None)
        return
    if kind == "verify":
        t, est = c23_estimator(g)
        want = silent(lambda: quietly(lambda: est.verify(return_errors=True)))
        got, text = printed(lambda: est.verify())
        check(got is None, f"verify() returned {got!r}")
        pairs = re.findall(r"dt = (\S+):\s+error = (\S+)", text)
        flat = [(dt, e) for k in want if k != "dts" for dt, e in zip(want["dts"], want[k])]
        check(len(pairs) == len(flat), f"verify() reports {len(pairs)} errors, not {len(flat)}")
        for (a, b), (dt, e) in zip(pairs, flat):
            close_text(a, dt, 0.1, "time step")
            close_text(b, e, 1e-3, f"error at dt={dt:.0e}")
        g.nontrivial()
        return
    n = g.int(1, 6, "candidates")
    scalar = g.bool("scalar")
    best = 10.0 ** g.int(-3, 3, "best")
    rng = g.rng("cands")
    cands = 10.0 ** rng.uniform(-5, 5, n if scalar else (n, 2))
    bad = g.choice([0.0, 1e-2, 10.0], "unstable below")
    seen = []

    def func(x):
        v = float(np.sum(np.log10(np.asarray(x) / best)**2)) if np.min(x) > bad else np.inf
        seen.append((np.array(x, dtype=float), v))
        return v
    only = g.bool("gridsearch_only")
    kw = dict(gridsearch_only=only, label=g.choice(["parameter", "regularization"], "label"))

    def run(**more):
        try:
            return opinf.utils.gridsearch(func, cands.copy(), **kw, **more)
        except RuntimeError:
            return None
    mute, none = printed(lambda: run(verbose=False))
    check(none == "", f"verbose=False prints {none!r}")
    first, seen[:] = list(seen), []
    loud, text = printed(lambda: run(verbose=True))
    check((loud is None) == (mute is None), "verbose=True changes the outcome")
    check(loud is None or np.array_equal(loud, mute), "verbose=True changes the winner")
    check(len(seen) == len(first), "verbose=True changes the number of evaluations")
    lines = [m for m in text.splitlines() if re.search(r"UNSTABLE|error$", m)]
    check(len(lines) == len(seen), f"{len(seen)} evaluations reported in {len(lines)} lines")
    for line, (x, v) in zip(lines, seen):
        nums = re.findall(r"\d\.\d+e[+-]\d+", line.split("...")[0])
        check(len(nums) == x.size, f"parameters reported as {line!r}")
        for a, b in zip(nums, np.atleast_1d(x)):
            close_text(a, b, 1e-2, "parameter")
        check(("UNSTABLE" in line) == (v == np.inf), f"error {v} reported as {line!r}")
        if v < np.inf:
            close_text(re.search(r"(\d+\.?\d*)% error", line).group(1), 100 * v, 1e-6, "error", 1e-7)
    if loud is not None:
        final = [m for m in text.splitlines() if m.startswith("Best")]
        check(len(final) >= 1, "winner not reported")
        g.nontrivial()
        if only:
            nums = re.findall(r"\d\.\d+e[+-]\d+", final[-1])
            check(len(nums) == np.size(loud), f"winner reported as {final[-1]!r}")
            for a, b in zip(nums, np.atleast_1d(loud)):
                close_text(a, b, 1e-2, "winner")
