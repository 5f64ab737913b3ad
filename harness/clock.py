"""A controllable real-time clock.  Import this before importing the code under test."""
import time
_real = {n: getattr(time, n) for n in ("time", "monotonic", "perf_counter", "process_time")}
_ns = {n: getattr(time, n) for n in ("time_ns", "monotonic_ns", "perf_counter_ns", "process_time_ns")}
BASE = 1000.0
_fake = None


def _mk(name):
    real = _real[name]
    def fn():
        return real() if _fake is None else BASE + _fake
    fn.__name__ = name
    return fn


def _mkns(name):
    real = _ns[name]
    def fn():
        return real() if _fake is None else int((BASE + _fake) * 10**9)
    return fn


for _n in _real:
    setattr(time, _n, _mk(_n))
for _n in _ns:
    setattr(time, _n, _mkns(_n))


class fake_clock:
    def __enter__(self):
        global _fake
        _fake = 0.0
        return self

    def __exit__(self, *a):
        global _fake
        _fake = None

    @property
    def now(self):
        return _fake

    def advance(self, d):
        global _fake
        _fake += d
