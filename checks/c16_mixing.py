"""C16: mixers and panning conserve levels."""
import math

import numpy as np

from klang.audio.mixer import Mixer, StereoMixer
from klang.audio.panning import CENTER, LEFT, RIGHT, pan_signal, panning_amplitudes
from klang.block import Block
from klang.config import BUFFER_SIZE
from vlib.core import Scenario, close, raises

PROPERTY = 'C16'
RULE = ('random mixers built by constructor, new channels and the + operator, with random gains and pannings changed '
        'while running, against direct sums; panning laws against their identities over random levels; distinct = '
        'distinct mixer histories or panning settings; non-trivial = at least two channels or an inner pan level')
MODES = ['linear', 'constant_power', 'mixture']


class Source(Block):

    def __init__(self, stereo=False):
        super().__init__(nOutputs=1)
        self.shape = (2, BUFFER_SIZE) if stereo else (BUFFER_SIZE,)
        self.update()

    def update(self):
        x = np.random.uniform(-1, 1, self.shape)
        x.setflags(write=False)
        self.output.set_value(x)


def amplitudes(level, mode, law):
    """Reference pan amplitudes (left, right)."""
    level = min(1., max(-1., level))
    angle = math.pi / 4 * (1 + level)
    if mode == 'linear':
        pair, center = ((1 - level) / 2, (1 + level) / 2), .5
    elif mode == 'constant_power':
        pair, center = (math.cos(angle), math.sin(angle)), math.sqrt(.5)
    else:
        pair = (math.sqrt(max(0, (1 - level) / 2 * math.cos(angle))), math.sqrt(max(0, (1 + level) / 2 * math.sin(angle))))
        center = math.sqrt(.5 * math.sqrt(.5))
    if law is None:
        return np.array(pair)
    # the exponent which makes all modes agree in the center
    target = 10 ** ((law - 20 * math.log10(2)) / 40)
    alpha = math.log(target) / math.log(center)
    return np.array(pair) ** alpha


def pick_level(rng):
    return rng.choice([-1., 0., 1., .5, -.25, 0, 1, -1, 2., -7., rng.uniform(-1, 1), rng.uniform(-1, 1),
                       rng.choice([-1, 1]) * (1 - 10 ** -rng.uniform(1, 7))])


def laws(rng, mon):
    """Identities of the panning laws."""
    mode = rng.choice(MODES)
    law = rng.choice([None, None, 0, -3, -6, -4.5, rng.uniform(-12, 0)])
    level = pick_level(rng)
    text = '%s law %s level %r' % (mode, law, level)
    amp = panning_amplitudes(level, mode, law)
    mon.check(np.shape(amp) == (2, 1) and np.isfinite(amp).all() and (np.asarray(amp) >= -1e-12).all()
              and (np.asarray(amp) <= 1 + 1e-9).all(), 'range', '%s: %s', text, amp)
    left, right = (float(a) for a in np.ravel(amp))
    if law is None:
        if mode == 'linear':
            mon.check(abs(left + right - 1) < 1e-9, 'constant-sum', '%s: %r + %r', text, left, right)
        elif mode == 'constant_power':
            mon.check(abs(left ** 2 + right ** 2 - 1) < 1e-9, 'constant-power', '%s: %r, %r', text, left, right)
        else:
            # halfway (in decibel) between both
            ref = [math.sqrt(a * b) for a, b in zip(amplitudes(level, 'linear', None),
                                                    np.maximum(0, amplitudes(level, 'constant_power', None)))]
            close(mon, [left, right], ref, 'mixture', text)
    else:
        center = [float(np.ravel(panning_amplitudes(CENTER, m, law))[0]) for m in MODES]
        mon.check(max(center) - min(center) < 1e-9, 'center', '%s: center amplitudes %s depend on the mode', text, center)
        lower = float(np.ravel(panning_amplitudes(CENTER, mode, law - 3))[0])
        mon.check(lower < center[0], 'law-order', '%s: center not lower for a lower pan law', text)
        if law == 0:
            mon.check(abs(2 * center[0] ** 2 - 1) < 1e-9, 'law-zero', 'power of the center changed: %r', center[0])
    close(mon, [left, right], amplitudes(level, mode, law), 'amplitudes', text, atol=1e-7)
    # left and right mirrored
    mirror = np.ravel(panning_amplitudes(-level, mode, law))
    close(mon, mirror, [right, left], 'mirror', text, atol=1e-7)
    for side, want in ((LEFT, [1, 0]), (RIGHT, [0, 1])):
        close(mon, np.ravel(panning_amplitudes(side, mode, law)), want, 'sides', text, atol=1e-7)
    # monotone
    other = rng.uniform(-1, 1)
    b = np.ravel(panning_amplitudes(other, mode, law))
    lo, hi = ((left, right), b) if min(1, max(-1, level)) <= other else (b, (left, right))
    mon.check(lo[0] >= hi[0] - 1e-9 and lo[1] <= hi[1] + 1e-9, 'monotone', '%s and %r: %s %s', text, other, lo, hi)
    # signals
    x = np.random.uniform(-1, 1, (BUFFER_SIZE,) if rng.random() < .6 else (2, BUFFER_SIZE))
    y = pan_signal(x, level, mode, law)
    close(mon, y, amplitudes(level, mode, law)[:, None] * x, 'signal', text, atol=1e-7)
    y[...] = 7.   # results belong to the caller
    close(mon, np.ravel(panning_amplitudes(level, mode, law)), [left, right], 'cache', text)
    bad = rng.choice(['Linear', '', 'stereo', None])
    mon.check(isinstance(raises(panning_amplitudes, level, bad, law), ValueError), 'invalid-mode', '%r accepted', bad)
    mon.check(isinstance(raises(panning_amplitudes, level, mode, rng.choice([1, .5, 3])), ValueError), 'invalid-law',
              'positive law accepted')
    mon.case('law', text, nontrivial=abs(level) < 1)


def mixer(rng, mon):
    stereo = rng.random() < .5
    n = rng.choice([0, 0, 1, 2, 5])
    gains = [rng.choice([1., 0., -1., rng.uniform(-2, 2)]) for _ in range(n)]
    pans = [pick_level(rng) for _ in range(n)]
    mode = rng.choice(MODES)
    law = rng.choice([None, None, -3, -6])
    kwargs = {}
    if rng.random() < .6:
        kwargs['gains'] = list(gains)
    else:
        gains = [1.] * n
    if stereo:
        if rng.random() < .6:
            kwargs['pannings'] = list(pans)
        else:
            pans = [0.] * n
        if rng.random() < .5:
            kwargs.update(mode=mode, panLaw=law)
        else:
            mode, law = 'constant_power', None
        block = StereoMixer(n, **kwargs)
    else:
        block = Mixer(n, **kwargs)
    sources = [None] * n
    log = ['%s %s' % (type(block).__name__, kwargs)]

    def make():
        return Source(stereo and rng.random() < .3)

    for i in range(n):
        if rng.random() < .9:
            sources[i] = make()
            sources[i].output.connect(block.inputs[i])
    for _ in range(rng.randint(1, 8)):
        op = rng.choice(['channel', 'plus', 'iadd', 'radd', 'gain', 'pan', 'run', 'run', 'run'])
        if op == 'channel':
            kw = {}
            g, p = 1., 0.
            if rng.random() < .6:
                g = kw['gain'] = rng.uniform(-2, 2)
            if stereo and rng.random() < .6:
                p = kw['panning'] = pick_level(rng)
            block.add_new_channel(**kw)
            gains.append(g)
            pans.append(p)
            sources.append(None)
            if rng.random() < .8:
                sources[-1] = make()
                sources[-1].output.connect(block.inputs[-1])
            log.append('channel %s' % kw)
        elif op in ('plus', 'iadd', 'radd'):
            s = make()
            if op == 'plus':
                result = block + rng.choice([s, s.output])
            elif op == 'radd':
                # a block on the left has its own mixing operator
                result = s.output + block
            else:
                result = block
                result += rng.choice([s, s.output])
            mon.check(result is block, 'same-mixer', '%s: %s created', op, result)
            gains.append(1.)
            pans.append(0.)
            sources.append(s)
            log.append(op)
        elif op == 'gain' and gains:
            i = rng.randrange(len(gains))
            gains[i] = block.gains[i] = rng.uniform(-2, 2)
            log.append('gain %d' % i)
        elif op == 'pan' and stereo and pans:
            i = rng.randrange(len(pans))
            pans[i] = block.pannings[i] = pick_level(rng)
            log.append('pan %d' % i)
        else:
            for s in sources:
                if s:
                    s.update()
            block.update()
            want = np.zeros((2, BUFFER_SIZE) if stereo else BUFFER_SIZE)
            for g, p, s in zip(gains, pans, sources):
                x = np.asarray(s.output.value) if s else 0.
                want = want + (g * amplitudes(p, mode, law)[:, None] * x if stereo else g * x)
            want = want / max(1, len(sources))
            close(mon, block.output.value, want, 'mix', '%s' % log, atol=1e-7)
            if all(abs(g) <= 1 for g in gains) and not stereo:
                mon.check(np.abs(block.output.value).max() <= 1 + 1e-9, 'headroom', 'mix exceeds 1')
            mon.event('mixed buffers')
        mon.check(len(block.inputs) == len(sources) == block.nInputs, 'channels', '%s: %d inputs', log, len(block.inputs))
    mon.case('mixer', tuple(log), tuple(gains), nontrivial=len(sources) > 1)
    mon.sample(' '.join(log))


def expressions(rng, mon):
    """a + b + c is one mixer with equal shares, in any grouping order."""
    n = rng.randint(2, 8)
    sources = [Source() for _ in range(n)]
    total = None
    kinds = ''
    for s in sources:
        operand = s if total is None or rng.random() < .5 else s.output
        kinds += type(operand).__name__[0]
        total = operand if total is None else total + operand
    mon.check(isinstance(total, Mixer) and total.nInputs == n, 'expression', '%s', total)
    for i, s in zip(total.inputs, sources):
        mon.check(i.incomingConnection is s.output, 'expression', 'wrong connection')
    total.update()
    close(mon, total.output.value, np.mean([s.output.value for s in sources], axis=0), 'expression', '%d sources' % n,
          atol=1e-12)
    mon.case('expression', kinds)


SCENARIOS = [
    Scenario(laws, 400, need=4000),
    Scenario(mixer, 300, need=1500),
    Scenario(expressions, 50, need=150),
]
REQUIRED_EVENTS = {'mixed buffers': 400}
