"""Random nodes lie inside the element, whatever the generator returns."""
import contextlib

import numpy as np

from modepy.nodes import random_nodes_for_shape

from .common import factors, make_shape

BOUNDS = ("up to 4 nodes on simplices of dimension 0-4, squares, cubes, prisms and hypercubes, "
          "(7-200 nodes without rejections), every value in [-1,1) or [0,1) of every draw in the first 3 rounds (4 in the "
          "thorough tier) of rejections of a factor, in all later rounds every value that is "
          "accepted")
ASSUMPTIONS = ["the generator is a stand-in with uniform() and random(): every value of the "
               "documented half-open interval may be returned"]


class Stream:
    """Stands in for numpy.random.Generator: the k-th number drawn is a free real."""

    def __init__(self, env, name, rounds, inside):
        self.env, self.name, self.rounds, self.inside = env, name, rounds, inside
        self.k = self.calls = 0
        self.values = []
        self.replay = None

    def _draw(self, lo, hi, size):
        env = self.env
        shape = (1,) if size is None else tuple(np.atleast_1d(size))
        out = np.empty(shape, dtype=object if env.symbolic else float)
        self.calls += 1
        late = self.calls > self.rounds
        for j in np.ndindex(shape):
            if self.replay is not None:
                v = self.replay.pop(0)
            else:
                v = env.real(f"{self.name}{self.k}", 0, 1)
                env.assume(v < 1)
                if late:
                    env.assume(v * self.inside < 1)
                self.values.append(v)
            self.k += 1
            out[j] = lo + (hi - lo) * v
        if size is None:
            return out[0]
        return out

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._draw(low, high, size)

    def random(self, size=None):
        return self._draw(0, 1, size)

    def again(self):
        other = Stream(self.env, self.name, self.rounds, self.inside)
        other.replay = list(self.values)
        return other


@contextlib.contextmanager
def default_rng(fn):
    old = np.random.default_rng
    np.random.default_rng = fn
    try:
        yield
    finally:
        np.random.default_rng = old


def no_other_source(*a, **kw):
    raise AssertionError("another source of randomness although a generator was passed")


def inside(env, x, desc, label):
    i = 0
    for d in factors(desc):
        part = x[i:i + d]
        i += d
        for p in range(x.shape[1]):
            tot = 0
            for c in range(d):
                env.le(-1, part[c, p], 0, label)
                env.le(part[c, p], 1, 0, label)
                tot = tot + part[c, p]
            if d:
                env.le(tot, 2 - d, 0, label)


def nodes(env, desc, n, rounds, own):
    shape = make_shape(desc)
    fac = factors(desc)
    rng = Stream(env, "r", rounds + len(fac) - 1, max(fac or [1]) + 1)
    with default_rng((lambda *a, **kw: rng) if own else no_other_source):
        x = env.call(random_nodes_for_shape, shape, n, *([] if own else [rng]))
        env.true(np.shape(x) == (shape.dim, n), "one column per node")
        inside(env, x, desc, "inside")
        rng2 = rng.again()
        with default_rng((lambda *a, **kw: rng2) if own else no_other_source):
            y = env.call(random_nodes_for_shape, shape, n, **({} if own else {"rng": rng2}))
        env.eq(y, x, 0, "the same generator state gives the same nodes")


def obligations(tier, seed):
    rounds = 4 if tier == "thorough" else 3
    for desc, top in (("s0", 3), ("s1", 4), ("s2", 3), ("s3", 2), ("s4", 2), ("h2", 3),
                      ("h3", 2), ("p", 2), ("q", 2), ("g", 1)):
        for n in range(top + 1):
            for own in (False, True):
                yield f"nodes-{desc}-{n}-{'own' if own else 'given'}", "nodes", dict(
                    desc=desc, n=n, rounds=rounds, own=own)
    # many nodes, drawn without rejections
    for desc, n in (("s1", 200), ("s2", 7), ("s2", 60), ("s3", 40), ("s4", 20), ("s5", 10),
                    ("h2", 80), ("h3", 50), ("h4", 20), ("p", 30), ("q", 30), ("g", 15), ("w", 12)):
        yield f"many-{desc}-{n}", "nodes", dict(desc=desc, n=n, rounds=-99, own=False)
