"""Monitor bookkeeping and the three-valued verdict discipline shared by all checks.

A check is a module with PROPERTY and SCENARIOS.  A scenario drives real klang
code with a seeded workload and reports what its oracle saw to a Monitor.
"""
import collections
import hashlib


class ViolationError(Exception):
    """The oracle saw the property broken."""

    def __init__(self, mechanism, message):
        super().__init__('%s: %s' % (mechanism, message))
        self.mechanism = mechanism
        self.message = message


class Scenario:

    def __init__(self, func, quick, thorough=None, need=1):
        self.func = func
        self.name = func.__name__
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 10
        self.need = need  # minimum number of oracle evaluations per run


class Monitor:
    """Collects events, distinct cases and samples; raises on violations."""

    def __init__(self, known=()):
        self.known = dict(known)
        self.events = collections.Counter()
        self.distinct = set()
        self.samples = []
        self.knownSeen = collections.OrderedDict()
        self.evaluations = 0

    def check(self, condition, mechanism, message='', *args):
        """One oracle evaluation."""
        self.evaluations += 1
        self.events['oracle:' + mechanism] += 1
        if not condition:
            self.violate(mechanism, message, *args)

    def violate(self, mechanism, message='', *args):
        if args:
            message = message % args
        raise ViolationError(mechanism, message)

    def event(self, kind, n=1):
        self.events[kind] += n

    def case(self, *key, nontrivial=True):
        """Register a distinct (non-trivial) case."""
        if nontrivial:
            digest = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
            self.distinct.add(digest)
            if len(self.samples) < 6:
                self.sample('case: ' + ', '.join(describe(k, 150) for k in key))

    def sample(self, text, limit=12):
        if len(self.samples) < limit:
            self.samples.append(str(text)[:600])

    def is_known(self, mechanism):
        return mechanism in self.known

    def check_known(self, condition, mechanism, message='', *args):
        """Like check(), but a mechanism listed in known_findings.jsonl is
        reported as such instead of being raised.  Returns condition."""
        self.evaluations += 1
        self.events['oracle:' + mechanism] += 1
        if not condition:
            if self.is_known(mechanism):
                self.knownSeen.setdefault(mechanism, (message % args) if args else message)
            else:
                self.violate(mechanism, message, *args)
        return condition


def describe(x, limit=200):
    text = repr(x)
    return text if len(text) <= limit else text[:limit] + '...'


def close(mon, actual, expected, mechanism, message='', rtol=1e-9, atol=1e-9):
    """Oracle: arrays agree in shape and value (NaN is never acceptable unless
    expected)."""
    import numpy as np
    try:
        a = np.asarray(actual, dtype=float)
        b = np.asarray(expected, dtype=float)
    except (TypeError, ValueError) as err:
        mon.check(False, mechanism, '%s: not numeric: %s (%s)' % (message, describe(actual), err))
        return
    if a.shape != b.shape:
        mon.check(False, mechanism, '%s: shape %s instead of %s' % (message, a.shape, b.shape))
        return
    ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
    if ok.all():
        mon.check(True, mechanism)
        return
    idx = tuple(int(i[0]) for i in np.nonzero(~ok)) if a.ndim else ()
    mon.check(False, mechanism, '%s: at %s: got %r, expected %r (%d of %d differ)' % (
        message, idx, float(a[idx]), float(b[idx]), int((~ok).sum()), a.size))


def raises(func, *args, **kwargs):
    """The exception func raises, or None."""
    try:
        func(*args, **kwargs)
    except Exception as err:  # pylint: disable=broad-except
        return err
    return None
