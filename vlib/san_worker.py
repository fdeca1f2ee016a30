"""Runs inside CPython with an ASan+UBSan build of the two C extensions: hostile
random call sequences, refcount / heap-growth / result monitors.

usage: san_worker.py EXTDIR SEED N_OPS MODE PROGRESSFILE
"""
import ctypes
import gc
import json
import random
import sys

import numpy as np

extdir, seed, nOps, mode, progress = sys.argv[1:6]
sys.path.insert(0, extdir)
import _envelope  # noqa: E402
import _filters   # noqa: E402

rng = random.Random(seed)
log = open(progress, 'w')
stats = {'ops': 0, 'errors': {}, 'kinds': {}, 'refchecks': 0, 'leakchecks': 0, 'valuechecks': 0}
heap = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
heap.restype = ctypes.c_size_t
FILTERS = [_filters.ForwardCombFilter, _filters.BackwardCombFilter, _filters.EchoFilter]


def note(text):
    log.write(text + '\n')
    log.flush()


def fail(mechanism, message):
    note('FAIL ' + json.dumps([mechanism, message]))
    print('FAIL ' + json.dumps([mechanism, message]))
    sys.stdout.flush()
    sys.exit(3)


class Weird:
    def __float__(self):
        raise KeyError('no float')

    def __len__(self):
        raise ValueError('no length')

    def __bool__(self):
        raise ValueError('no truth')

    def __array__(self, *args, **kwargs):
        raise TypeError('no array')


def number(positive=False):
    r = rng.random()
    if r < .35:
        return rng.choice([0., .01, .1, .5, 1., 2.])
    if r < .7:
        return rng.uniform(0, 1) if positive else rng.uniform(-1, 2)
    return rng.choice([float('nan'), float('inf'), -float('inf'), -1., 1e308, 1e-308, -0., 5, True,
                       10 ** 400, '1', None, Weird(), np.float32(.3), np.array(.5), np.array([1., 2.]), 1j, b'x'])


def array_arg():
    r = rng.randrange(22)
    n = rng.choice([0, 1, 2, 5, 7, 64, 300])
    if r < 6:
        return np.array([rng.uniform(-1, 1) for _ in range(n)])
    if r == 6:
        return np.arange(float(2 * n))[::2]
    if r == 7:
        return np.arange(float(n))[::-1]
    if r == 8:
        return [rng.uniform(-1, 1) for _ in range(n)]
    if r == 9:
        return np.zeros((n, 2))
    if r == 10:
        return np.float64(3.)
    if r == 11:
        return None
    if r == 12:
        return 'abc'
    if r == 13:
        return Weird()
    if r == 14:
        return np.ones(n, dtype=rng.choice([np.int8, np.uint64, np.float32, np.bool_, '>f8', '>i4']))
    if r == 15:
        return np.array([1 + 2j] * n)
    if r == 16:
        return np.array(['x'] * n, dtype=object)
    if r == 17:
        return [[1., 2.], [3.]]
    if r == 18:
        return np.broadcast_to(np.float64(.5), (n,))
    if r == 19:
        raw = np.zeros(n * 8 + 1, dtype=np.uint8)
        return raw[1:].view(np.float64)
    if r == 20:
        x = np.zeros(n)
        x.setflags(write=False)
        return x
    return (float(k) for k in range(n))


def length_arg():
    r = rng.random()
    if r < .6:
        return rng.choice([1, 2, 3, 5, 17, 255, 256, 257, 1000])
    return rng.choice([0, 0, -1, -5, -2 ** 31, 2 ** 31 - 1, 2 ** 31, 2 ** 40, 60 * 44100, 60 * 44100 + 1, 1.5,
                       '3', None, True, 10 ** 30, np.int64(4)])


def sample_arg():
    r = rng.random()
    if r < .75:
        return rng.choice([0, 1, 2, 5, 64, 256, 1000])
    return rng.choice([-1, 2 ** 62, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 2 ** 45, 1.5, None, '4', True, np.int32(3)])


def call(kind, func, *args, **kwargs):
    """Call into native code; any Python exception but SystemError is fine."""
    stats['ops'] += 1
    stats['kinds'][kind] = stats['kinds'].get(kind, 0) + 1
    try:
        text = '%s %r %r' % (kind, args, kwargs)
    except Exception:
        text = kind
    note(text[:300])
    try:
        return func(*args, **kwargs)
    except SystemError as err:
        fail('error-protocol', '%s: %s' % (text[:200], err))
    except Exception as err:
        name = type(err).__name__
        stats['errors'][name] = stats['errors'].get(name, 0) + 1
        return None


def make_envelope(cls=_envelope.Envelope):
    how = rng.randrange(8)
    if how == 0:
        return call('Envelope.__new__', cls.__new__, cls)
    if how == 1:
        args = [number() for _ in range(rng.randint(0, 9))]
        return call('Envelope', cls, *args)
    if how == 2:
        kw = {k: number() for k in rng.sample(['attack', 'decay', 'sustain', 'release', 'dt', 'overshoot',
                                              'retrigger', 'loop', 'nonsense'], rng.randint(0, 9))}
        return call('Envelope', cls, **kw)
    args = [rng.choice([0., .01, .1]), rng.choice([0., .01, .1]), rng.random(), rng.choice([0., .01, .1]),
            rng.choice([.001, .01])]
    kw = {}
    if rng.random() < .6:
        kw = dict(overshoot=rng.choice([1e-9, 1e-3, 1., 1e9, 0]), retrigger=rng.choice([0, 1, 2, 256, -1, [], [1]]),
                  loop=rng.choice([False, True, 'x', '']))
    env = call('Envelope', cls, *args, **kw)
    if env is not None and kw:
        if env.retrigger is not bool(kw['retrigger']) or env.loop is not bool(kw['loop']):
            fail('flags', 'constructed with %r, flags are %r %r' % (kw, env.retrigger, env.loop))
        stats['valuechecks'] += 1
    return env


class SubEnvelope(_envelope.Envelope):
    pass


class SubFilter(_filters.BackwardCombFilter):
    def __init__(self, *args, **kwargs):
        pass


def gate(env, arg):
    """Gates without truth value are rejected; a pending exception is not left behind."""
    try:
        bool(arg)
    except Exception:
        stats['ops'] += 1
        note('gate without truth value')
        rejected = False
        try:
            env.gate(arg)
        except SystemError as err:
            fail('error-protocol', 'gate(%s): %s' % (type(arg).__name__, err))
        except Exception:
            rejected = True
        if not rejected:
            fail('error-protocol', 'gate(%s) without truth value succeeds' % type(arg).__name__)
    else:
        call('gate', env.gate, arg)


def envelope_ops(env):
    for _ in range(rng.randint(1, 12)):
        r = rng.randrange(8)
        if r < 3:
            arg = sample_arg()
            out = call('sample', env.sample, arg)
            if out is not None:
                if not (isinstance(out, np.ndarray) and out.dtype == np.float64 and out.shape == (int(arg),)):
                    fail('result', 'sample(%r) returned %r' % (arg, out))
                if sys.getrefcount(out) != 2:
                    fail('refcount', 'result has %d references' % sys.getrefcount(out))
                stats['refchecks'] += 1
        elif r < 5:
            gate(env, rng.choice([True, False, 0, 1, None, [], [0], 'x', Weird(), np.array([1, 2]),
                                  np.array([]), np.array(True)]))
        elif r == 5:
            name = rng.choice(['attack', 'decay', 'sustain', 'release', 'overshoot', 'retrigger', 'loop', 'active'])
            if rng.random() < .1:
                call('del ' + name, delattr, env, name)
            else:
                call('set ' + name, setattr, env, name, number())
        elif r == 6:
            for name in ['attack', 'decay', 'sustain', 'release', 'overshoot', 'retrigger', 'loop', 'active']:
                call('get ' + name, getattr, env, name)
        else:
            before = env.active
            if rng.random() < .5:
                call('reinit', env.__init__, *[number() for _ in range(5)], retrigger=True, loop=True)
            else:
                call('reinit', env.__init__, .1, .1, .5, .1, .01, loop=rng.choice([True, 256]),
                     retrigger=rng.choice([True, False, 1]))
            if env.active != before:
                fail('state', 'repeated initialization changed the stage: active %s -> %s' % (before, env.active))


def filter_ops(fil):
    for _ in range(rng.randint(1, 12)):
        r = rng.randrange(6)
        if r < 4:
            arg = array_arg()
            before = sys.getrefcount(arg)
            copy = arg.copy() if isinstance(arg, np.ndarray) else None
            out = call('filter', fil.filter, arg)
            if sys.getrefcount(arg) != before:
                fail('refcount', 'filter(%s) changed the references of its input from %d to %d' % (
                    type(arg).__name__, before, sys.getrefcount(arg)))
            stats['refchecks'] += 1
            if out is not None:
                if not (isinstance(out, np.ndarray) and out.dtype == np.float64 and out.ndim == 1):
                    fail('result', 'filter returned %r' % (out,))
                if sys.getrefcount(out) != 2:
                    fail('refcount', 'result has %d references' % sys.getrefcount(out))
                if copy is not None and len(out) != len(copy):
                    fail('result', 'filter returned %d samples for %d' % (len(out), len(copy)))
                if copy is not None and arg.dtype.kind == 'f' and not np.array_equal(arg, copy, equal_nan=True):
                    fail('result', 'filter modified its input')
        elif r == 4:
            call('get', lambda: (fil.length, fil.alpha))
            call('set alpha', setattr, fil, 'alpha', number())
            call('set length', setattr, fil, 'length', 3)
            if rng.random() < .2:
                call('del alpha', delattr, fil, 'alpha')
        else:
            before = fil.length
            call('reinit', fil.__init__, length_arg(), number())
            if fil.length != before:
                fail('state', 'repeated initialization changed the length')


def reference_values():
    """Results of the sanitized build against plain Python arithmetic."""
    k = rng.choice([1, 2, 3, 8, 100])
    alpha = rng.uniform(-1, 1)
    which = rng.randrange(3)
    fil = FILTERS[which](k, alpha)
    line = [0.] * k
    pos = 0
    for _ in range(rng.randint(1, 6)):
        x = np.array([rng.uniform(-1, 1) for _ in range(rng.choice([0, 1, k, 2 * k + 1, 50]))])
        y = fil.filter(x)
        for v, got in zip(x, y):
            d = line[pos]
            want = v + alpha * d if which < 2 else d
            line[pos] = (v, want, v + alpha * d)[which]
            pos = (pos + 1) % k
            if abs(got - want) > 1e-9:
                fail('value', 'filter %d k=%d got %r instead of %r' % (which, k, got, want))
        stats['valuechecks'] += 1
    stats['ops'] += 1


def leak_round(name, func, n, slack):
    for _ in range(20):
        func()
    gc.collect()
    a = heap()
    for _ in range(n):
        func()
    gc.collect()
    b = heap()
    stats['leakchecks'] += 1
    note('leak %s: %d' % (name, b - a))
    if b - a > slack:
        fail('leak', '%s: heap grew by %d bytes in %d calls' % (name, b - a, n))


def leaks():
    def weird():
        try:
            env.gate(Weird())
        except ValueError:
            pass
        else:
            fail('error-protocol', 'gate(Weird) without truth value succeeds')
    x = np.zeros(400)
    lst = [0.] * 400
    xi = np.zeros(400, dtype=np.int32)
    two = np.zeros((2, 200))
    for cls in FILTERS:
        fil = cls(64)
        leak_round(cls.__name__ + '.filter(array)', lambda: fil.filter(x), 150, 40000)
        leak_round(cls.__name__ + '.filter(list)', lambda: fil.filter(lst), 150, 40000)
        leak_round(cls.__name__ + '.filter(int)', lambda: fil.filter(xi), 150, 40000)

        def bad(arg):
            try:
                fil.filter(arg)
            except Exception:
                pass
        leak_round(cls.__name__ + '.filter(2d list)', lambda: bad([[0.] * 200] * 2), 150, 40000)
        leak_round(cls.__name__ + '.filter(2d)', lambda: bad(two.astype(int)), 150, 40000)
        for alpha in (None, 0., .5, -1., 1., 2.):
            args = (1000,) if alpha is None else (1000, alpha)
            leak_round('%s%r' % (cls.__name__, args), lambda: cls(*args), 150, 40000)

        def changed():
            other = cls(1000, .5)
            other.filter(x)
            other.alpha = 0.
        leak_round(cls.__name__ + ' used', changed, 150, 40000)

        def badinit(n):
            try:
                cls(n)
            except Exception:
                pass
        leak_round(cls.__name__ + '(huge)', lambda: badinit(60 * 44100 + 1), 2000, 40000)
        leak_round(cls.__name__ + '(-1)', lambda: badinit(-1), 2000, 40000)
    env = _envelope.Envelope(.1, .1, .5, .1, .001)
    leak_round('sample', lambda: env.sample(400), 150, 40000)
    leak_round('Envelope()', lambda: _envelope.Envelope(.1, .1, .5, .1, .001), 2000, 40000)
    leak_round('gate', lambda: env.gate(True), 2000, 40000)
    leak_round('gate without truth value', weird, 500, 40000)

    def attrs():
        env.attack = env.attack
        env.sustain = env.sustain
        env.active, env.overshoot, env.retrigger
    leak_round('attributes', attrs, 2000, 40000)
    for cls in FILTERS + [_envelope.Envelope]:
        n0 = sys.getrefcount(cls)
        objs = [cls(5) if cls in FILTERS else cls(.1, .1, .1, .1, .1) for _ in range(50)]
        del objs
        gc.collect()
        if abs(sys.getrefcount(cls) - n0) > 10:
            fail('refcount', 'type %s leaks references' % cls.__name__)
    none0 = sys.getrefcount(None)
    for _ in range(3000):
        env.gate(False)
    if sys.getrefcount(None) < none0 - 100:
        fail('refcount', 'None loses references')


def memory_shortage():
    """Allocations fail: first the big ones (the sanitizer refuses them beyond max_allocation_size_mb),
    then the n-th small one of a call (_testcapi.set_nomemory)."""
    import mmap
    import _testcapi
    big = 3 * 1024 * 1024
    flat = np.frombuffer(mmap.mmap(-1, 8 * big), dtype=np.float64)   # 24 MB, never touched

    def failing(kind, func, *args):
        stats['ops'] += 1
        stats['kinds'][kind] = stats['kinds'].get(kind, 0) + 1
        note('out of memory: ' + kind)
        try:
            func(*args)
        except SystemError as err:
            fail('error-protocol', '%s without memory: %s' % (kind, err))
        except (MemoryError, RuntimeError) as err:
            name = type(err).__name__
            stats['errors'][name] = stats['errors'].get(name, 0) + 1
            return True
        return False

    def must_fail(kind, func, *args):
        if not failing(kind, func, *args):
            fail('error-protocol', '%s succeeded without memory' % kind)

    env = _envelope.Envelope(.1, .1, .5, .1, .001)
    for cls in FILTERS:
        fil = cls(5, .5)
        fil.filter(np.array([1., 2., 3., 4., 5., 6., 7.]))
        before = sys.getrefcount(flat)
        name = cls.__name__
        leak_round(name + '.filter without memory',
                   lambda: must_fail(name + '.filter(big array)', fil.filter, flat), 60, 20000)
        if sys.getrefcount(flat) != before:
            fail('refcount', '%s.filter without memory changed the references of its input from %d to %d' % (
                name, before, sys.getrefcount(flat)))
        stats['refchecks'] += 1
        must_fail(name + '.filter(big strided)', fil.filter, np.broadcast_to(np.float64(0.), (big,)))
        leak_round(name + ' without memory',
                   lambda: must_fail(name + '(big)', cls, 60 * 44100, .5), 60, 20000)
        if fil.length != 5 or len(fil.filter(np.zeros(3))) != 3:
            fail('state', 'filter unusable after a failed call')
    leak_round('sample without memory', lambda: must_fail('sample(big)', env.sample, big), 60, 20000)
    x = np.zeros(50)
    lst = [0.] * 50
    for cls in FILTERS + [SubFilter, _envelope.Envelope, SubEnvelope]:
        args = (7, .5) if cls in FILTERS + [SubFilter] else (.1, .1, .5, .1, .01)
        obj = cls(*args)
        calls = [('construct', lambda: cls(*args)), ('init', lambda: obj.__init__(*args))]
        if cls in FILTERS + [SubFilter]:
            calls += [('filter', lambda: obj.filter(x)), ('filter list', lambda: obj.filter(lst)),
                      ('length', lambda: obj.length), ('alpha', lambda: setattr(obj, 'alpha', .3))]
        else:
            calls += [('sample', lambda: obj.sample(50)), ('gate', lambda: obj.gate(True)),
                      ('attack', lambda: setattr(obj, 'attack', .3)), ('active', lambda: obj.active),
                      ('get attack', lambda: obj.attack)]
        for kind, func in calls:
            for n in range(1, 13):
                stats['ops'] += 1
                kept = sys.getrefcount(x), sys.getrefcount(lst)
                note('allocation %d fails: %s %s' % (n, cls.__name__, kind))
                error = None
                _testcapi.set_nomemory(n, n + 1)
                try:
                    func()
                except Exception as err:
                    error = type(err)
                finally:
                    _testcapi.remove_mem_hooks()
                if error is SystemError:
                    fail('error-protocol', '%s %s: SystemError when allocation %d fails' % (cls.__name__, kind, n))
                if error is not None:
                    stats['errors'][error.__name__] = stats['errors'].get(error.__name__, 0) + 1
                if kept != (sys.getrefcount(x), sys.getrefcount(lst)):
                    fail('refcount', '%s %s: references of the input changed when allocation %d fails' % (
                        cls.__name__, kind, n))
                stats['refchecks'] += 1
        if isinstance(obj, _envelope.Envelope):
            obj.sample(10)
        else:
            obj.filter(x)


if mode == 'leaks':
    leaks()
elif mode == 'memory':
    memory_shortage()
else:
    for _ in range(int(nOps)):
        r = rng.random()
        if r < .45:
            env = make_envelope(rng.choice([_envelope.Envelope, SubEnvelope]))
            if env is not None:
                envelope_ops(env)
        elif r < .9:
            cls = rng.choice(FILTERS + [SubFilter])
            how = rng.randrange(5)
            if how == 0:
                fil = call('Filter', cls, *[length_arg() for _ in range(rng.randint(0, 3))])
            elif how == 1:
                fil = call('Filter', cls, length=length_arg(), alpha=number())
            elif how == 2:
                fil = call('Filter.__new__', cls.__new__, cls, length_arg())
            else:
                fil = call('Filter', cls, rng.choice([1, 2, 3, 64, 256, 257]), rng.uniform(-1, 1))
            if fil is not None:
                filter_ops(fil)
            del fil
        else:
            reference_values()
note('DONE')
print('DONE ' + json.dumps(stats))
