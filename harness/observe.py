"""Snapshots of a model after every event, through the public scheduling calls."""
import contextlib, functools
from pysim.sim.simulator import Simulator


def _itself(fn):
    return fn


class _Wrapped:
    """Stands in for a handler: runs it, then takes a snapshot."""
    def __init__(self, fn, cb):
        self.fn, self.cb = fn, cb
        functools.update_wrapper(self, fn, updated=())

    def __reduce__(self):           # other processes get the handler itself
        return _itself, (self.fn,)

    def __call__(self, sim, *args):
        self.fn(sim, *args)
        self.cb(sim, self.fn, args)


@contextlib.contextmanager
def after_events(cb):
    """cb(sim, handler, args) is called after every event of every simulation."""
    s0, c0 = Simulator.schedule, Simulator.call

    def wrap(h):
        return h if h is None or isinstance(h, _Wrapped) or not callable(h) else _Wrapped(h, cb)

    def schedule(self, delay, handler, *a, **k):
        return s0(self, delay, wrap(handler), *a, **k)

    def call(self, handler, *a, **k):
        return c0(self, wrap(handler), *a, **k)
    Simulator.schedule, Simulator.call = schedule, call
    try:
        yield
    finally:
        Simulator.schedule, Simulator.call = s0, c0


class constant_random:
    """Every uniform draw of random and numpy.random gives u (scaled to its range); draws are counted."""
    def __init__(self, u):
        self.u, self.calls = u, 0

    def __enter__(self):
        import random
        import numpy as np

        def unit(*a, **k):
            self.calls += 1
            size = a[0] if a else k.get("size")
            return self.u if size is None else np.full(size, self.u)

        def rand(*shape):
            return unit(shape or None)

        def between(low=0.0, high=1.0, size=None, a=None, b=None):
            low, high = low if a is None else a, high if b is None else b
            return low + (high - low) * unit(size)
        new = [(random, "random", unit), (random, "uniform", between), (np.random, "uniform", between), (np.random, "rand", rand)]
        new += [(np.random, n, unit) for n in ("random", "random_sample", "ranf", "sample")]
        self.old = [(m, n, getattr(m, n)) for m, n, _ in new if hasattr(m, n)]
        for m, n, f in new:
            setattr(m, n, f)
        return self

    def __exit__(self, *a):
        for m, n, f in self.old:
            setattr(m, n, f)


def measure(happens, draws=1, bits=26):
    """Probability of an event that is decided by one uniform draw: the share of the unit interval in which it happens, by bisection.
    happens() -> bool is called with every draw fixed to one number; None when there is not the given number of draws (None: at least
    one), or when the event happens neither in an initial nor in a final part of the interval."""
    def at(u):
        with constant_random(u) as c:
            r = bool(happens())
        return r, c.calls > 0 if draws is None else c.calls == draws
    (lo, a), (hi, b) = at(2.0 ** -40), at(1 - 2.0 ** -40)
    if not (a and b):
        return None
    mid = [lo] + [at(k / 32)[0] for k in range(1, 32, 4)] + [hi]
    if sum(m != n for m, n in zip(mid, mid[1:])) > 1:
        return None
    if lo == hi:
        return float(lo)
    x, y = 0.0, 1.0
    for _ in range(bits):
        z = (x + y) / 2
        if at(z)[0] == lo:
            x = z
        else:
            y = z
    return x if lo else 1 - x
