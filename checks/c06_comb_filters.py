"""C06: comb / echo filters and the reverb built from them."""
import numpy as np

import klang.audio.filters as F
from klang.audio.effects import Reverb
from klang.config import BUFFER_SIZE, SAMPLING_RATE
from vlib.core import Scenario, close, raises

PROPERTY = 'C06'
RULE = ('random lengths, gains, chunkings and input representations (dtypes, strides, byte orders, '
        'lists) against the sample-wise difference equation, native filters and pure Python '
        'fallbacks side by side; distinct = distinct (type, length, gain, chunking); non-trivial = '
        'more samples than the filter length')


class Reference:

    def __init__(self, kind, k, alpha):
        self.kind, self.alpha = kind, alpha
        self.line = [0.] * k
        self.pos = 0

    def filter(self, x):
        out = []
        for v in x:
            d = self.line[self.pos]
            if self.kind == 'forward':
                y = v + self.alpha * d
                new = v
            elif self.kind == 'backward':
                y = v + self.alpha * d
                new = y
            else:
                y = d
                new = v + self.alpha * d
            self.line[self.pos] = new
            self.pos = (self.pos + 1) % len(self.line)
            out.append(y)
        return out


NATIVE = {'forward': F.ForwardCombFilter, 'backward': F.BackwardCombFilter, 'echo': F.EchoFilter}
PYTHON = {'forward': F.PyForwardCombFilter, 'backward': F.PyBackwardCombFilter,
          'echo': F.PyEchoFilter}


def represent(rng, x):
    """The same numbers in some other representation."""
    how = rng.choice(['plain', 'plain', 'list', 'strided', 'reversed', 'column', 'swapped', 'float32',
                      'int', 'readonly', 'unaligned', 'tuple', 'bool'])
    if how == 'list':
        return how, [float(v) for v in x]
    if how == 'tuple':
        return how, tuple(float(v) for v in x)
    if how == 'strided':
        k = rng.randint(2, 4)
        buf = np.full(len(x) * k, 77.)
        buf[::k] = x
        return how, buf[::k]
    if how == 'reversed':
        return how, x[::-1].copy()[::-1]
    if how == 'column':
        buf = np.full((len(x), 3), -55.)
        buf[:, 1] = x
        return how, buf[:, 1]
    if how == 'swapped':
        return how, x.astype('>f8')
    if how == 'float32':
        return how, np.round(x * 8).astype(np.float32)
    if how == 'int':
        return how, np.round(x * 8).astype(rng.choice([np.int64, np.int16, np.int32]))
    if how == 'bool':
        return how, x > 0
    if how == 'readonly':
        y = x.copy()
        y.setflags(write=False)
        return how, y
    if how == 'unaligned':
        raw = np.zeros(len(x) * 8 + 1, dtype=np.uint8)
        view = raw[1:].view(np.float64)
        view[:] = x
        return how, view
    return how, x.copy()


def streams(rng, mon):
    rs = np.random.RandomState(rng.getrandbits(32))
    kind = rng.choice(sorted(NATIVE))
    k = rng.choice([1, 1, 2, 3, 5, 8, 17, 64, 255, 256, 257, 700])
    alpha = rng.choice([0., .5, .9, -.6, 1., -1., rng.uniform(-1, 1), rng.uniform(-1, 1)])
    if rng.random() < .1:
        alpha = rng.choice([1.1, -1.3, 1.5, 2])     # growing
        k = max(k, 64)
    huge = rng.random() < .02
    if huge:
        k, alpha = rng.randint(20000, 90000), rng.uniform(-1, 1)
    form = rng.randrange(3)
    if form == 0 and rng.random() < .5:
        alpha = .9
        fil = NATIVE[kind](k)
    elif form == 1:
        fil = NATIVE[kind](k, alpha)
    else:
        fil = NATIVE[kind](k, alpha=alpha)
    scale = rng.choice([1., 1., 1., 1., 1., 2. ** -40, 2. ** -80, 2. ** 40])    # exact
    ref = Reference(kind, k, alpha)
    other = NATIVE[kind](k, alpha)  # an independent instance must not interfere
    total = 0
    chunks = []
    for _ in range(rng.randint(2, 14)):
        n = rng.choice([0, 1, 2, 3, k - 1, k, k + 1, 2 * k + 1, rng.randint(1, 300)])
        n = max(0, min(n, 800))
        if huge and rng.random() < .5:
            n = rng.choice([rng.randint(30000, 70000), 65536, 32768, rng.randint(65000, 100000)])
        how, x = represent(rng, rs.uniform(-1, 1, n)) if scale == 1. else ('quiet', scale * rs.uniform(-1, 1, n))
        keep = np.array(x, dtype=float)
        if rng.random() < .08:
            bad = rng.choice([np.zeros((2, 3)), np.zeros((3, 1)), np.float64(1.), [[1., 2.]]])
            err = raises(fil.filter, bad)
            mon.check(isinstance(err, ValueError), 'rejects-ndim', 'ndim %d input: %r', np.ndim(bad), err)
        y = fil.filter(x)
        other.filter(rs.uniform(-1, 1, 3))
        want = ref.filter(float(v) for v in keep)
        close(mon, np.asarray(y) / scale, np.asarray(want) / scale, 'difference-equation',
              '%s comb k=%d alpha=%s chunks %s+%d (%s)' % (kind, k, alpha, chunks, n, how))
        close(mon, np.array(x, dtype=float), keep, 'input-untouched', how)
        mon.event('input as ' + how)
        total += n
        chunks.append(n)
        mon.check(fil.length == k, 'length', 'length %s instead of %d', fil.length, k)
        mon.check(fil.alpha == alpha, 'alpha', 'alpha %s instead of %s', fil.alpha, alpha)
        if rng.random() < .1:
            alpha = rng.uniform(-1, 1)
            fil.alpha = alpha
            ref.alpha = alpha
    mon.event('samples filtered', total)
    mon.case(kind, k, alpha, tuple(chunks), nontrivial=total > k)
    mon.sample('%s k=%d alpha=%.3f chunks %s' % (kind, k, alpha, chunks))


def fallbacks(rng, mon):
    """The Python fallbacks agree (delay of at least one chunk)."""
    rs = np.random.RandomState(rng.getrandbits(32))
    kind = rng.choice(sorted(PYTHON))
    k = rng.choice([1, 2, 5, 17, 64, 255, 256, 257, 700])
    alpha = rng.choice([0., .5, .9, -.6, 1.])
    py, ref = PYTHON[kind](k, alpha), Reference(kind, k, alpha)
    native = NATIVE[kind](k, alpha)
    chunks = []
    integers = rng.choice([None, None, None, np.int16, np.int64, np.float32])
    for _ in range(rng.randint(2, 30)):
        n = rng.randint(1, min(k, BUFFER_SIZE))
        x = rs.uniform(-1, 1, n)
        if integers:
            x = np.round(8 * x).astype(integers)
        keep = x.copy()
        want = ref.filter(x.tolist())
        close(mon, py.filter(x), want, 'difference-equation',
              'Python %s k=%d alpha=%s chunks %s+%d' % (kind, k, alpha, chunks, n))
        close(mon, native.filter(x), want, 'difference-equation', 'native next to Python %s' % kind)
        close(mon, x, keep, 'input-untouched', 'Python %s' % kind)
        chunks.append(n)
    mon.event('fallback samples', sum(chunks))
    mon.case('py', kind, k, alpha, tuple(chunks), nontrivial=sum(chunks) > k)


def primes_from(k, n):
    out = []
    while len(out) < n:
        if k > 1 and all(k % d for d in range(2, int(k ** .5) + 1)):
            out.append(k)
        k += 1
    return out


def reverb(rng, mon):
    rs = np.random.RandomState(rng.getrandbits(32))
    decay = rng.choice([0., .1, 1.5, 5., .002, -1., rng.uniform(.001, 8)])
    dryWet = rng.choice([0., .3, .7, 1., -.5, 1.6])
    nEchos = rng.randint(1, 10) if rng.random() < .9 else rng.randint(20, 140)
    fallback = rng.random() < .3
    kind = rng.choice(sorted(NATIVE))
    # the fallback needs taps of at least one buffer
    pre = rng.choice([.006, .01, .03] if fallback or rng.random() < .5 else [0., .0001, .001, .004, .2])
    cls = (PYTHON if fallback else NATIVE)[kind]
    taps = []

    def tap(*args, **kwargs):
        asked = list(args) + [kwargs[k] for k in sorted(kwargs, reverse=True)]  # length, alpha (k, alpha)
        taps.append((asked[0], asked[1]))
        return cls(*args, **kwargs)

    rev = Reverb(decay=decay, preDelay=pre, dryWet=dryWet, nEchos=nEchos, echoType=tap)
    mon.check(len(taps) == nEchos, 'reverb', 'number of taps')
    lengths = [k for k, _ in taps]
    mon.check(len(set(lengths)) == nEchos and min(lengths) >= int(pre * SAMPLING_RATE), 'reverb',
              'tap lengths %s', lengths)
    mon.check(sorted(lengths) == primes_from(int(pre * SAMPLING_RATE), nEchos), 'reverb', 'tap lengths %s for %s sec',
              lengths, pre)
    mon.check(all(primes_from(k, 1) == [k] for k in lengths), 'reverb', 'tap lengths %s not prime', lengths)
    for k, alpha in taps:
        mon.check(0 <= alpha < 1, 'reverb-stable', 'tap gain %s', alpha)
        # every tap decays at the same rate, mostly after the decay time
        level = -np.inf if alpha == 0 else np.log(alpha) / (k / SAMPLING_RATE)
        if decay <= 0:
            mon.check(alpha == 0, 'reverb-decay', 'decay %s: tap gain %s', decay, alpha)
        else:
            want = -np.pi / decay
            mon.check(abs(level - want) < 1e-6 * abs(want) or want * pre < -600, 'reverb-decay', 'decay %s: rate %s instead of %s', decay,
                      level, want)
    ref = [Reference(kind, k, alpha) for k, alpha in taps]
    dryWet = min(1., max(0., dryWet))
    for i in range(rng.randint(3, 12)):
        x = rs.uniform(-1, 1, BUFFER_SIZE) if i < 3 else np.zeros(BUFFER_SIZE)
        keep = x.copy()
        rev.input.set_value(x)
        rev.update()
        wet = np.mean([r.filter(x) for r in ref], axis=0)
        close(mon, rev.output.value, (1 - dryWet) * x + dryWet * wet, 'reverb',
              'reverb %s taps %s dryWet %s' % (kind, lengths, dryWet))
        close(mon, x, keep, 'input-untouched', 'reverb')
    mon.case('reverb', kind, decay, pre, dryWet, nEchos, fallback)
    mon.event('reverb buffers', i + 1)


SCENARIOS = [
    Scenario(streams, 600, 15000),
    Scenario(fallbacks, 200, 4000),
    Scenario(reverb, 60, 1000),
]
REQUIRED_EVENTS = {'samples filtered': 50000, 'input as strided': 20, 'input as reversed': 20,
                   'fallback samples': 1000, 'reverb buffers': 50}
