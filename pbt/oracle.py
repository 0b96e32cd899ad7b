"""Assertions.  Only ``Violation`` (or an exception that passed through the
package under test) counts as a violated property."""
import contextlib
import numpy as np


class Violation(Exception):
    pass


def check(cond, msg="check failed"):
    if not cond:
        raise Violation(msg)


def _arr(x):
    if hasattr(x, "toarray"):
        x = x.toarray()
    return np.asarray(x)


def close(actual, expected, msg="", rtol=1e-9, atol=0.0, scale=None, shape=True):
    """Same shape and |a-e| <= atol + rtol * max(|e|max, scale)."""
    if actual is None:
        raise Violation(f"{msg}: got None")
    a, e = _arr(actual), _arr(expected)
    if shape and a.shape != e.shape:
        raise Violation(f"{msg}: shape {a.shape} != expected {e.shape}")
    if a.size == 0:
        return
    try:
        a = a.astype(float)
    except (TypeError, ValueError):
        raise Violation(f"{msg}: not numeric: {a!r}")
    if not np.all(np.isfinite(a)):
        if np.all(np.isfinite(e)):
            raise Violation(f"{msg}: non-finite values")
        raise AssertionError(f"oracle not finite: {msg}")
    s = float(np.max(np.abs(e))) if e.size else 0.0
    if scale is not None:
        s = max(s, float(scale))
    tol = atol + rtol * s
    err = float(np.max(np.abs(a - e)))
    if not err <= tol:
        raise Violation(f"{msg}: |actual-expected|={err:.3e} > tol={tol:.3e}")


def same(a, b, msg=""):
    """Bitwise equality of arrays (NaN == NaN)."""
    a, b = _arr(a), _arr(b)
    if a.shape != b.shape or not np.array_equal(a, b, equal_nan=True):
        raise Violation(f"{msg}: arrays differ")


@contextlib.contextmanager
def unchanged(*arrays, msg="argument modified"):
    """The given arrays must come out of the block bitwise unchanged."""
    before = [np.array(_arr(a), copy=True) for a in arrays]
    yield
    for i, (a, b) in enumerate(zip(arrays, before)):
        c = _arr(a)
        if c.shape != b.shape or not np.array_equal(c, b, equal_nan=True):
            raise Violation(f"{msg} (array #{i})")


def raises(excs, fn, msg=""):
    """fn() must raise one of excs.  Returns the exception."""
    try:
        out = fn()
    except excs as ex:
        return ex
    except Exception as ex:
        raise Violation(f"{msg}: raised {type(ex).__name__}: {ex}")
    raise Violation(f"{msg}: accepted (returned {type(out).__name__})")


def numjac(f, x, h=1e-3):
    """Central 5-point difference Jacobian; exact for polynomials of degree<=4."""
    x = np.asarray(x, dtype=float)
    cols = []
    for i in range(x.size):
        e = np.zeros_like(x)
        hh = h * max(1.0, abs(x[i]))
        e[i] = hh
        cols.append(
            (-f(x + 2 * e) + 8 * f(x + e) - 8 * f(x - e) + f(x - 2 * e)) / (12 * hh)
        )
    return np.column_stack(cols)
