"""Case generator handed to every sub-check.

Every random choice goes through one primitive, ``_draw``, so that a case is a
list of JSON-encodable values.  During a run the values come from Hypothesis
(which shrinks them); during a replay they come from the replay file.
"""
import json
import numpy as np


class ReplayMismatch(Exception):
    pass


class G:
    def __init__(self, data=None, replay=None, thorough=False):
        self._data = data
        self._replay = list(replay) if replay is not None else None
        self.log = []
        self.tags = set()
        self.is_nontrivial = False
        self.thorough = thorough

    # primitives -----------------------------------------------------------
    def _draw(self, label, strategy_fn):
        if self._replay is not None:
            if not self._replay:
                raise ReplayMismatch("replay exhausted at " + label)
            lab, value = self._replay.pop(0)
            if lab != label:
                raise ReplayMismatch(f"expected {lab}, asked for {label}")
        else:
            value = self._data.draw(strategy_fn())
        self.log.append([label, value])
        return value

    def int(self, lo, hi, label="int"):
        from hypothesis import strategies as st

        return self._draw(label, lambda: st.integers(lo, hi))

    def bool(self, label="bool"):
        from hypothesis import strategies as st

        return self._draw(label, lambda: st.booleans())

    def rarely(self, label="rarely", n=5):
        """True with probability about 1/n; shrinks to False."""
        return self.int(0, n - 1, label) == n - 1

    def dim(self, lo, hi, label="dim", big=None):
        """A dimension in [lo, hi]; now and then one in (hi, big]."""
        if big is not None and self.int(0, 14, label + ".size") == 14:
            return self.int(hi, big, label + ".big")
        return self.int(lo, hi, label)

    def float(self, lo, hi, label="float"):
        from hypothesis import strategies as st

        return self._draw(
            label,
            lambda: st.floats(lo, hi, allow_nan=False, allow_infinity=False),
        )

    def choice(self, seq, label="choice"):
        seq = list(seq)
        return seq[self.int(0, len(seq) - 1, label)]

    def subset(self, seq, label="subset", min_size=0):
        seq = list(seq)
        keep = [x for x in seq if self.bool(label)]
        while len(keep) < min_size:
            x = self.choice(seq, label + "+")
            if x not in keep:
                keep.append(x)
        return [x for x in seq if x in keep]

    def perm(self, n, label="perm"):
        out = list(range(n))
        for i in range(n - 1):
            j = self.int(i, n - 1, label)
            out[i], out[j] = out[j], out[i]
        return out

    def seed(self, label="seed"):
        return self.int(0, 2**31 - 1, label)

    def logscale(self, lo=-3, hi=3, label="log10"):
        return 10.0 ** self.int(lo, hi, label)

    # arrays ---------------------------------------------------------------
    def rng(self, label="seed"):
        return np.random.default_rng(self.seed(label))

    def array(self, shape, label="array", kinds=("normal", "shifted", "ints", "scaled")):
        """Dense float array: a pure function of (kind, seed, shape)."""
        kind = self.choice(kinds, label + ".kind")
        rng = self.rng(label + ".seed")
        if kind == "normal":
            return rng.standard_normal(shape)
        if kind == "shifted":
            return rng.standard_normal(shape) + 3.0
        if kind == "ints":
            return rng.integers(-4, 5, shape).astype(float)
        if kind == "scaled":
            x = rng.standard_normal(shape)
            s = 10.0 ** rng.uniform(-3, 3, (shape[0],) if np.ndim(x) else ())
            return x * (s.reshape((-1,) + (1,) * (x.ndim - 1)) if x.ndim else s)
        if kind == "positive":
            return rng.uniform(0.25, 2.0, shape)
        if kind == "uniform":
            return rng.uniform(-1.0, 1.0, shape)
        raise ValueError(kind)

    def normal(self, shape, label="normal"):
        return self.rng(label).standard_normal(shape)

    def uniform(self, lo, hi, shape=None, label="uniform"):
        return self.rng(label).uniform(lo, hi, shape)

    def orth(self, n, r, label="orth"):
        q, _ = np.linalg.qr(self.rng(label).standard_normal((n, r)))
        return q

    # bookkeeping ----------------------------------------------------------
    def tag(self, *names):
        self.tags.update(str(n) for n in names)

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def key(self):
        return json.dumps(self.log)
