"""C05: delay lines and delay effects."""
from fractions import Fraction

import numpy as np

from klang.audio.effects import Delay, StereoDelay
from klang.block import Block
from klang.config import BUFFER_SIZE, SAMPLING_RATE
from klang.music.tempo import compute_duration
from klang.ring_buffer import RingBuffer
from vlib.core import Scenario, close, raises

PROPERTY = 'C05'
RULE = ('random delay lengths, capacities, chunkings, channel counts and length changes against a '
        'plain list model (every sample unique); delay blocks against the sample-wise difference '
        'equation; distinct = distinct (configuration, chunking); non-trivial = at least one full '
        'turn of the delay line')


def ring_histories(rng, mon):
    length = rng.choice([1, 2, 3, 4, 5, 7, 8, 13, 16, 31, 40])
    bufferSize = rng.choice([1, 2, 3, 4, 7, 8, 16, 40])
    capacity = None if rng.random() < .5 else length + rng.randint(0, 20)
    channels = rng.choice([1, 1, 1, 2, 3])
    large = rng.random() < .12
    if large:
        length, bufferSize = rng.randint(40, 700), rng.choice([BUFFER_SIZE, BUFFER_SIZE, rng.randint(30, 300)])
        capacity = None if rng.random() < .5 else length + rng.randint(0, 300)
    ring = RingBuffer(length, capacity, bufferSize=bufferSize, nChannels=channels)
    cap = capacity or length
    hist = [0.] * length  # the last `length` samples, oldest first
    fresh = length        # how many of them are known (all: initial zeros)
    serial = 0
    turns = 0
    trace = []

    def make(n):
        nonlocal serial
        vals = [float(serial + k + 1) for k in range(n)]
        serial += n
        return vals

    def shape(vals):
        arr = np.array(vals, dtype=float)
        if channels > 1:
            arr = np.stack([arr * (c + 1) for c in range(channels)], axis=1).reshape(len(vals), channels)
        return arr

    for _ in range(rng.randint(5, 60)):
        op = rng.random()
        limit = min(length, bufferSize)
        if op < .45:
            vals = make(rng.randint(0 if rng.random() < .1 else 1, limit))
            arg = shape(vals)
            if channels == 1 and rng.random() < .3:
                arg = list(vals)
            ring.extend(arg)
            hist = (hist + vals)[-length:]
            fresh = min(length, fresh + len(vals))
            turns += len(vals)
            trace.append('e%d' % len(vals))
        elif op < .6:
            for _ in range(rng.choice([1, 1, 1, rng.randint(2, length + 1)])):
                vals = make(1)
                ring.append(shape(vals)[0])
                hist = (hist + vals)[-length:]
                fresh = min(length, fresh + 1)
                turns += 1
                trace.append('a')
        elif op < .75:
            vals = make(rng.randint(1, limit))
            got = ring.peek_extend(shape(vals))
            if fresh == length:
                close(mon, got, shape(hist[:len(vals)]), 'peek-extend', 'after %s' % trace)
            want_old = list(hist[:len(vals)])
            hist = (hist + vals)[-length:]
            if fresh == length:
                close(mon, got, shape(want_old), 'peek-extend', 'view of the future after %s' % trace)
            fresh = min(length, fresh + len(vals))
            turns += len(vals)
            trace.append('p%d' % len(vals))
        elif op < .82 and rng.random() < .5:
            new = rng.randint(1, cap + 2)
            err = raises(setattr, ring, 'length', new)
            if new > cap:
                mon.check(isinstance(err, ValueError), 'capacity', 'length %d > %d: %r', new, cap, err)
                mon.check(ring.length == length, 'capacity', 'rejected length was taken over')
                mon.event('rejected lengths')
            else:
                mon.check(err is None, 'capacity', 'length %d of %d: %r', new, cap, err)
                if new != length:
                    # what a changed line still contains is unspecified
                    length, hist, fresh = new, [0.] * new, 0
                    mon.event('length changes')
            trace.append('l%d' % new)
        elif op < .86:
            n = bufferSize + rng.randint(1, 3)
            err = raises(ring.extend, shape(make(n)))
            mon.check(isinstance(err, ValueError), 'too-many', '%d > %d: %r', n, bufferSize, err)
            trace.append('x')
        mon.check(ring.length == length, 'length', 'length %s instead of %s', ring.length, length)
        if fresh == length:
            n = rng.randint(1, min(length, bufferSize))
            close(mon, ring.peek(n), shape(hist[:n]), 'peek',
                  'L=%d B=%d cap=%s after %s' % (length, bufferSize, capacity, ' '.join(trace)))
            if bufferSize <= length:
                close(mon, ring.peek(), shape(hist[:bufferSize]), 'peek',
                      'default size: L=%d B=%d after %s' % (length, bufferSize, ' '.join(trace)))
    mon.event('samples through rings', turns)
    mon.case(length, bufferSize, capacity, channels, tuple(trace), nontrivial=turns > length)
    mon.sample('L=%d B=%d cap=%s ch=%d: %s' % (length, bufferSize, capacity, channels, ' '.join(trace)))


class DelayModel:
    """y = (1 - w) x + w d, d[t] = x[t - L] + feedback * d[t - L]"""

    def __init__(self, length, feedback, drywet):
        self.line = [0.] * length
        self.pos = 0
        self.feedback, self.drywet = feedback, drywet

    def process(self, x):
        out = []
        for v in x:
            d = self.line[self.pos]
            self.line[self.pos] = v + self.feedback * d
            self.pos = (self.pos + 1) % len(self.line)
            out.append((1 - self.drywet) * v + self.drywet * d)
        return out


def signal(rs, kind, n):
    if kind == 'impulse':
        x = np.zeros(n)
        x[rs.randint(n)] = 1
    elif kind == 'noise':
        x = rs.uniform(-1, 1, n)
    else:
        x = np.arange(n) / float(n) - .3
    return x * rs.choice([1., 1., 30., 1e4, 1e-6])


def pick_time(rng, small=True):
    r = rng.random()
    if r < .2:
        return rng.choice([rng.randint(1, BUFFER_SIZE), rng.randint(1, 20), BUFFER_SIZE // 2]) / SAMPLING_RATE + 1e-7
    if r < .5:
        return rng.randint(BUFFER_SIZE, 3 * BUFFER_SIZE) / SAMPLING_RATE + 1e-7
    if r < .7:
        return (BUFFER_SIZE * rng.randint(1, 4) + rng.choice([0, 0, 1, -1]) * (rng.random() < .5)) \
            / SAMPLING_RATE + 1e-7
    if r < .85:
        return rng.uniform(.01, .05)
    return Fraction(1, rng.choice([64, 48, 32, 24, 128]))


def n_samples(time):
    return int(compute_duration(time) * SAMPLING_RATE)


def delay_effect(rng, mon):
    rs = np.random.RandomState(rng.getrandbits(32))
    time = pick_time(rng)
    feedback = rng.choice([0., .1, .5, .9, -0.7, 1., 1.15, -1.1])
    drywet = rng.choice([0., .3, .5, 1.])
    delay = Delay(time, feedback=feedback, drywet=drywet)
    length = n_samples(time)
    if length < BUFFER_SIZE:
        mon.event('short delays')
    model = DelayModel(length, feedback, drywet)
    nBuf = rng.randint(4, 12) + length // BUFFER_SIZE
    kind = rng.choice(['impulse', 'noise', 'ramp'])
    x = signal(rs, kind, nBuf * BUFFER_SIZE)
    multi = rng.random() < .2
    for i in range(nBuf):
        chunk = x[i * BUFFER_SIZE:(i + 1) * BUFFER_SIZE].copy()
        arg = chunk
        if multi:
            weights = rng.choice([[1.5, .5], [1.5, .5], [1.], [.25, .75, 2.], [2., 0., 1., 1.]])
            arg = np.outer(weights, chunk)
        keep = arg.copy()
        delay.input.set_value(arg)
        delay.update()
        close(mon, delay.output.value, model.process(chunk), 'delay-effect',
              'delay of %d samples, feedback %s, drywet %s, buffer %d' % (length, feedback, drywet, i),
              atol=1e-9 * max(1., np.abs(x).max(), np.abs(model.line).max()))
        close(mon, arg, keep, 'delay-effect', 'input was modified')
    mon.event('samples through delay blocks', nBuf * BUFFER_SIZE)
    mon.case('delay', length, feedback, drywet, kind, multi, nontrivial=drywet > 0)
    mon.sample('Delay %d samples fb=%s dw=%s %s' % (length, feedback, drywet, kind))


def stereo_delay(rng, mon):
    rs = np.random.RandomState(rng.getrandbits(32))
    times = [pick_time(rng) for _ in range(2)]
    fbs = [rng.choice([0., .2, .8]) for _ in range(2)]
    drywet = rng.choice([.2, .5, 1.])
    delay = StereoDelay(times[0], times[1], fbs[0], fbs[1], drywet)
    src, dst = Block(nOutputs=1), Block(nInputs=1)
    src | delay | dst
    models = [DelayModel(n_samples(t), fb, drywet) for t, fb in zip(times, fbs)]
    mono = rng.random() < .3
    for i in range(rng.randint(4, 10)):
        x = rs.uniform(-1, 1, (1 if mono else 2, BUFFER_SIZE))
        src.output.set_value(x[0] if mono else x)
        delay.update()
        want = [m.process(x[0 if mono else c]) for c, m in enumerate(models)]
        close(mon, dst.input.value, want, 'stereo-delay',
              'delays %s, buffer %d' % ([n_samples(t) for t in times], i))
    mon.case('stereo', [n_samples(t) for t in times], fbs, drywet, mono)


def too_long(rng, mon):
    """More than the maximum delay is rejected, up to the maximum it works."""
    if rng.random() < .5:
        time = rng.choice([Delay.MAX_TIME, Delay.MAX_TIME * rng.uniform(.3, 1), Delay.MAX_TIME * rng.uniform(.7, 1), Delay.MAX_TIME + 1e-3,
                           Delay.MAX_TIME * rng.uniform(1.001, 3)])
    else:
        time = Fraction(rng.randint(1, 12), rng.choice([2, 4, 8]))
    seconds = compute_duration(time)
    made = []
    err = raises(lambda: made.append(Delay(time)))
    if seconds > Delay.MAX_TIME:
        mon.check(isinstance(err, ValueError), 'delay-limit', 'time %s accepted (%r)', time, err)
        mon.event('rejected delays')
    else:
        mon.check(err is None, 'delay-limit', 'time %s: %r', time, err)
        delay = made[0]
        n = n_samples(time)
        delay.drywet, delay.feedback = 1., 0.
        out = []
        first = np.zeros(BUFFER_SIZE)
        first[0] = 1.
        for i in range(n // BUFFER_SIZE + 2):
            delay.input.set_value(first if i == 0 else np.zeros(BUFFER_SIZE))
            delay.update()
            out.append(np.array(delay.output.value))
        out = np.concatenate(out)
        hits = [int(i) for i in np.nonzero(np.abs(out) > 1e-9)[0]]
        mon.check(hits == [n], 'delay-effect', 'impulse delayed by %s instead of [%d]', hits, n)
    mon.case('limit', time)


SCENARIOS = [
    Scenario(ring_histories, 1500, 40000),
    Scenario(delay_effect, 120, 1500),
    Scenario(stereo_delay, 40, 800),
    Scenario(too_long, 48, 300),
]
REQUIRED_EVENTS = {'length changes': 50, 'samples through rings': 10000,
                   'samples through delay blocks': 50000, 'rejected delays': 2}
ASSUMPTIONS = ['rings are not read or written by more than their length at once, delay effects delay by at least one '
               'sample',
               'peeks of at most the delay length; contents across a length change are unspecified '
               'until the line has been filled once']
