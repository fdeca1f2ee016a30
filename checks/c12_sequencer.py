"""C12: sequencer steps, timing and micro rhythms."""
import collections
from fractions import Fraction
import math

import numpy as np

from klang.clock import ClockMixin
from klang.config import BUFFER_SIZE, SAMPLING_RATE
from klang.connections import Output
from klang.music.rhythm import MicroRhyhtm
from klang.sequencer import (
    PatternLookup, PizzaSlicer, Sequencer, pizza_slice_number, random_pattern,
)
from vlib.core import Scenario, close
from vlib.util import Sink

PROPERTY = 'C12'
RULE = ('random patterns (rests, chords, several channels of different lengths), tempos, grids, note lengths and '
        'micro rhythms rendered buffer by buffer; every onset is compared with its ideal time computed from the '
        'tempo; distinct = distinct (patterns, timing, rhythm); non-trivial = more than one complete round')
TAU = 2 * math.pi
INTERVAL = BUFFER_SIZE / SAMPLING_RATE
EPS = 1e-6


def slicer(rng, mon):
    """Every slice is reported exactly once and in order while the phase advances."""
    n = rng.choice([1, 1, 2, 3, 4, 5, 7, 8, 16, 31])
    block = PizzaSlicer(n)
    sink = Sink()
    block.output.connect(sink)
    total = rng.choice([0., 0., rng.uniform(0, TAU * (1 - 1. / n))])
    seen = []
    log = []
    for _ in range(rng.randint(3, 60)):
        block.input.set_value(total % TAU)
        block.update()
        got = list(sink.receive())
        for m in got:
            mon.check(isinstance(m, int) and m == len(seen) % n, 'slice-order', 'n=%d %s: %s after %s', n, log, m, seen)
            seen.append(m)
        # number of slices begun so far
        low = math.floor(total / TAU * n - 1e-9) + 1
        high = math.floor(total / TAU * n + 1e-9) + 1
        mon.check(low <= len(seen) <= high, 'slice-count', 'n=%d phase %.9f: %d slices instead of %d', n, total,
                  len(seen), high)
        log.append('%.3f' % total)
        step = rng.choice([0., rng.uniform(0, TAU / n / 3), rng.uniform(0, .95 * TAU), TAU / n / rng.randint(1, 4)])
        # a whole circle of slices between two updates cannot be told from none
        total += min(step, TAU * (1 - 1. / n) * .999 if n > 1 else .95 * TAU)
        mon.event('phase steps')
    mon.case('slicer', n, tuple(log), nontrivial=len(seen) > n)


def slice_numbers(rng, mon):
    n = rng.randint(1, 64)
    turns = rng.choice([0, 0, 1, -1, 3])
    x = rng.random()
    frac = x * n % 1
    if 1e-6 < frac < 1 - 1e-6:
        mon.check(pizza_slice_number(TAU * (x + turns), n) == int(x * n), 'slice-number', 'x=%r n=%d', x, n)
    edge = pizza_slice_number(math.nextafter(TAU, 0) if hasattr(math, 'nextafter') else np.nextafter(TAU, 0), n)
    mon.check(0 <= edge < n or edge == n, 'slice-number', 'edge %d of %d', edge, n)
    mon.case('number', n, x, turns)


def lookup(rng, mon):
    pattern = make_pattern(rng, rng.randint(1, 12))
    block = PatternLookup(pattern)
    sink = Sink()
    block.output.connect(sink)
    asked = [rng.randrange(len(pattern)) for _ in range(rng.randint(1, 10))]
    for i in asked:
        block.input.push(i)
    block.update()
    got = [n.pitch for n in sink.receive()]
    want = [p for i in asked for p in pitches(pattern[i])]
    mon.check(got == want, 'lookup', '%s: %s instead of %s', pattern, got, want)
    mon.case('lookup', repr(pattern), tuple(asked))


def make_pattern(rng, length):
    kind = rng.choice(['list', 'list', 'rests', 'chords', 'array', 'none'])
    if kind == 'array':
        return np.array([rng.randint(0, 127) for _ in range(length)])
    out = []
    for _ in range(length):
        r = rng.random()
        if kind != 'list' and r < .4:
            out.append(None if kind == 'none' else 0)
        elif kind == 'chords' and r < .7:
            chord = rng.sample(range(1, 128), rng.randint(1, 4))
            if rng.random() < .3:
                chord.insert(rng.randint(0, len(chord)), rng.choice([0, None]))
            out.append(rng.choice([tuple, list])(chord))
        else:
            out.append(rng.randint(1, 127))
    return out


def pitches(step):
    if isinstance(step, (tuple, list)):
        return [p for p in step if p]
    return [int(step)] if step else []


def reference_warp(notes, phrasing, harmonics):
    """Piecewise linear: note boundaries -> equal slices, on each 1/harmonics of the circle."""
    starts = [0.]
    for n in notes:
        starts.append(starts[-1] + float(n))
    total = starts[-1]
    xs = [s / total for s in starts]

    def warp(x):
        k = math.floor(harmonics * x)
        r = harmonics * x - k
        for j in range(len(notes)):
            if r <= xs[j + 1] or j == len(notes) - 1:
                y = (j + (r - xs[j]) / (xs[j + 1] - xs[j])) / len(notes)
                break
        return (1 - phrasing) * x + phrasing * (k + y) / harmonics

    return warp


def inverse(func, y):
    lo, hi = 0., 1.
    for _ in range(60):
        mid = (lo + hi) / 2
        if func(mid) < y:
            lo = mid
        else:
            hi = mid
    return hi


def pick_notes(rng):
    return [Fraction(rng.randint(1, 7), rng.choice([4, 8, 16, 12, 5, 7])) for _ in range(rng.choice([1, 2, 3, 4, 5, 6, rng.randint(7, 24)]))]


def micro_rhythm(rng, mon):
    notes = pick_notes(rng)
    phrasing = rng.choice([1., 1., 0., .5, rng.random()])
    beat = rng.choice([Fraction(1, 4), Fraction(1, 4), Fraction(1, 2), Fraction(1, 8), Fraction(1),
                       Fraction(3, 8), Fraction(3, 16), Fraction(1, 6)])
    block = MicroRhyhtm(notes, phrasing=phrasing, beatValue=beat)
    ref = reference_warp(notes, phrasing, int(1 / beat))
    xs = sorted([0., 1 - 1e-12] + [rng.random() for _ in range(30)] + [k / 8. for k in range(8)])
    last = -1e-9
    for k, x in enumerate(xs):
        if k == 25 and rng.random() < .5:   # now the other way of setting the phrasing
            phrasing, last = rng.random(), -1e-9
            source = Output()
            source.set_value(phrasing)
            source.connect(block.phrasing)
            ref = reference_warp(notes, phrasing, int(1 / beat))
        block.input.set_value(TAU * x)
        block.update()
        y = float(block.output.value)
        mon.check(-1e-9 <= y <= TAU + 1e-9, 'warp-range', '%s: %r -> %r', notes, x, y)
        mon.check(y >= last - 1e-9, 'warp-monotone', '%s phrasing %s: %r at %r after %r', notes, phrasing, y, x, last)
        close(mon, y / TAU, ref(x), 'warp', 'notes %s phrasing %s beat %s at %r' % (notes, phrasing, beat, x),
              atol=1e-7)
        last = y
    mon.check(isinstance(str(block), str), 'str')
    n = rng.choice([1, 2, 3, 4, 8])
    ref = reference_warp(notes, phrasing, n)
    for x in rng.sample(xs, 8):
        close(mon, float(block.warp(TAU * x, n)) / TAU, ref(x), 'warp', '%d-fold %s phrasing %s at %r' % (n, notes, phrasing, x),
              atol=1e-7)
    # Other interpolations: through the same points
    kind = rng.choice(['previous', 'next', 'nearest'] + (len(notes) > 1) * ['quadratic'] + (len(notes) > 2) * ['cubic'])
    other = MicroRhyhtm(notes, phrasing=1., beatValue=beat, kind=kind)
    starts = np.cumsum([0.] + [float(x) for x in notes]) / float(sum(notes))
    for i in range(len(notes)):
        inside = (starts[i] + starts[i + 1]) / 2 + rng.uniform(-.2, .2) * (starts[i + 1] - starts[i])
        if kind in ('quadratic', 'cubic'):
            x, want = starts[i], {i}
        else:
            x = inside
            want = {'previous': {i}, 'next': {i + 1}, 'nearest': {i if inside < (starts[i] + starts[i + 1]) / 2 else i + 1}}[kind]
        y = float(other.warp(TAU * x, 1)) / TAU * len(notes)
        mon.check(min(abs(y - w) for w in want) < 1e-6, 'interpolation', '%s %s at %r: note %r instead of %s', kind, notes, x, y, want)
    mon.case('warp', repr(notes), phrasing, str(beat))


class Channel:
    """Expected onsets of one sequence."""

    def __init__(self, pattern, duration, warp=None):
        self.pattern = [pitches(p) for p in pattern]
        self.n = len(self.pattern)
        self.duration = duration
        self.warp = warp
        self.position = [inverse(warp, i / self.n) if warp and i else i / self.n for i in range(self.n)]
        self.index = 0

    def ideal(self, index):
        rounds, step = divmod(index, self.n)
        return (rounds + self.position[step]) * self.duration

    def feed(self, mon, pitches_, now, text):
        """Consume the note-ons of one update; returns number of steps."""
        todo = list(pitches_)
        while self.ideal(self.index) <= now + EPS:
            at = self.ideal(self.index)
            want = self.pattern[self.index % self.n]
            sure = at <= now - EPS
            if todo[:len(want)] == want and (sure or want):
                todo = todo[len(want):]
            elif self.warp and at > now - INTERVAL - EPS and not todo:
                # an inserted micro rhythm runs after the sequence: one buffer of latency
                break
            elif sure or want and todo:
                mon.check(False, 'step', '%s at %.5f s: got notes %s, step %d %s was due at %.5f', text, now,
                          pitches_, self.index, want, at)
            else:
                # a boundary within rounding of the current time: may follow in the next buffer
                break
            self.index += 1
            mon.event('steps')
        mon.check(not todo, 'extra', '%s at %.5f s: unexpected notes %s of %s (step %d due at %.5f)', text, now, todo,
                  pitches_, self.index, self.ideal(self.index))


def sequencing(rng, mon):
    nChannels = rng.choice([1, 1, 2, 3, 3, rng.randint(4, 9), rng.randint(2, 14)])
    tempo = rng.choice([120, 120., 60, rng.uniform(40, 240), rng.uniform(40, 240), rng.uniform(8, 40)])
    grid = rng.choice([Fraction(1, 16), Fraction(1, 8), Fraction(1, 4), Fraction(1, 12), Fraction(1, 32)])
    beat = rng.choice([Fraction(1, 4), Fraction(1, 4), Fraction(3, 8), Fraction(1, 8)])
    step = float(grid / beat) * 60. / tempo
    if step < 2 * INTERVAL:
        tempo, step = tempo / 4., step * 4
    split = rng.random() < .5
    rel = rng.choice([.5, 1., .99, .1, rng.uniform(.05, 2)])
    kwargs = {'tempo': tempo, 'beatValue': beat, 'grid': grid}
    length = rel * step
    if rng.random() < .3:
        length = kwargs['absNoteLength'] = rng.choice([0., rng.uniform(.5, 20), rng.uniform(.5, 20)]) * INTERVAL
    else:
        kwargs['relNoteLength'] = rel
    # unique pitches per channel, to recognise the channels in a merged output
    width = 120 // nChannels
    patterns = []
    grid_like = rng.choice([1, 1, 2, 4]) if split and rng.random() < .15 else None   # as many single notes in all channels
    for c in range(nChannels):
        base = make_pattern(rng, grid_like or rng.choice([1, 2, 3, 4, 5, 8, 16]))
        if nChannels > 9 or grid_like:   # queues hold 50 messages
            base = [(pitches(s) or [0])[0] for s in base]
        if not split:
            base = [tuple(width * c + 1 + p % (width - 2) for p in dict.fromkeys(pitches(s))) or 0 for s in base]
        patterns.append(base)
    late = patterns.pop() if len(patterns) > 1 and rng.random() < .3 else None
    given = list(patterns)
    if len(given) == 1 and not isinstance(given[0][0], (tuple, list)) and rng.random() < .5:
        given = given[0]   # one channel does not need to be wrapped
        mon.event('unwrapped patterns')
    if rng.random() < .4:   # patterns of single notes as arrays
        rows = given if isinstance(given[0], (list, tuple)) else [given]
        if len({len(p) for p in rows}) == 1 and not any(isinstance(x, (tuple, list)) for p in rows for x in p):
            given = np.array(given)
            mon.event('array patterns')
    if rng.random() < .3:
        order = ['tempo', 'beatValue', 'grid'][:rng.randint(1, 3)]
        seq = Sequencer(given, *[kwargs[k] for k in order], splitOutputs=split,
                        **{k: v for k, v in kwargs.items() if k not in order})
    else:
        seq = Sequencer(given, splitOutputs=split, **kwargs)
    if late is not None:
        patterns.append(late)
        seq.add_new_channel(late, **kwargs)
    text = 'patterns %s tempo %.3f grid %s beat %s split %s %s' % (
        [list(p) for p in patterns], tempo, grid, beat, split, kwargs)
    mon.check(seq.nChannels == nChannels, 'channels', '%s: %s channels', text, seq.nChannels)
    mon.check(len(seq.outputs) == (nChannels if split else 1), 'channels', '%d outputs', len(seq.outputs))
    sinks = [Sink() for _ in seq.outputs]
    for out, sink in zip(seq.outputs, sinks):
        out.connect(sink)
    channels = []
    for c, pattern in enumerate(patterns):
        duration = len(pattern) * step
        mon.check(abs(seq.sequences[c].duration - duration) < 1e-6 * duration, 'duration', '%s: %r not %r', text,
                  seq.sequences[c].duration, duration)
        warp = None
        if rng.random() < .4:
            notes = pick_notes(rng)
            phrasing = rng.choice([1., rng.random()])
            warp = reference_warp(notes, phrasing, 4)
            for _ in range(rng.choice([1, 2])):
                seq.apply_micro_rhythm(MicroRhyhtm(pick_notes(rng)), c)
            seq.reset_micro_rhythm(c)
            seq.apply_micro_rhythm(MicroRhyhtm(notes, phrasing), c)
            text += ' rhythm[%d] %s x %.3f' % (c, [str(n) for n in notes], phrasing)
            mon.event('micro rhythms')
        channels.append(Channel(pattern, duration, warp))
    # skip configurations in which several steps fall in one buffer of a merged chord
    total = min(900, int(2.5 * max(ch.duration for ch in channels) / INTERVAL) + 5)
    ons = collections.defaultdict(list)
    for k in range(total):
        now = k * INTERVAL
        ClockMixin.set_current_time(now)
        seq.update()
        got = [list(s.receive()) for s in sinks]
        if split:
            per = got
        else:
            per = [[m for m in got[0] if (m.pitch - 1) // width == c] for c in range(nChannels)]
        for c, (channel, messages) in enumerate(zip(channels, per)):
            channel.feed(mon, [m.pitch for m in messages if m.on], now, text + ' channel %d' % c)
            for m in messages:
                if m.on:
                    ons[c].append((now, m))
                    mon.event('note-ons')
                else:
                    mon.check(bool(ons[c]), 'note-off', '%s: note-off %s without note-on', text, m)
                    at, note = ons[c].pop(0)
                    mon.check(m.pitch == note.pitch, 'note-off', '%s: %s ends %s', text, m, note)
                    mon.check(-EPS <= now - at - length < INTERVAL + EPS, 'note-length',
                              '%s: lasted %.5f s instead of %.5f', text, now - at, length)
            for at, note in ons[c]:
                mon.check(now - at - length < INTERVAL + EPS, 'note-length', '%s: %s does not end', text, note)
    mon.case('sequencer', text, nontrivial=all(ch.index > ch.n for ch in channels))
    mon.sample(text)


def rhythm_switching(rng, mon):
    """Switching micro rhythms while playing keeps the steps in order."""
    n = rng.choice([2, 3, 4, 8])
    pattern = [rng.sample(range(1, 128), n)]
    seq = Sequencer(pattern, tempo=rng.uniform(100, 300))
    sink = Sink()
    seq.output.connect(sink)
    others = []
    serial = 0
    plain = 0   # updates since there is no micro rhythm any more
    duration = seq.sequences[0].duration
    for k in range(400):
        ClockMixin.set_current_time(k * INTERVAL)
        plain += 1
        if rng.random() < .02:
            if rng.random() < .6:
                mr = MicroRhyhtm(pick_notes(rng), rng.random())
                seq.apply_micro_rhythm(mr, 0)
                others.append(mr)
                plain = -1000
            else:
                seq.reset_micro_rhythm(0)
                plain = max(plain, 0)
            mon.event('micro rhythms')
        seq.update()
        for m in sink.receive():
            if m.on:
                mon.check(m.pitch == pattern[0][serial % n], 'switch-order', 'step %d: %s of %s', serial, m, pattern)
                if plain > 3:
                    # in time, as if there never were any micro rhythms
                    late = (k * INTERVAL / duration * n - serial % n + n / 2) % n - n / 2
                    mon.check(abs(late) < 2.01 * INTERVAL / duration * n, 'switch-time', 'step %d of %d comes %.3f steps '
                              'too late', serial, n, late)
                    mon.event('steps after a reset')
                serial += 1
    mon.check(serial > n, 'switch-order', 'only %d steps', serial)
    seq.reset_micro_rhythm(0)
    for mr in others:
        mon.check(not mr.input.connected and not mr.output.connected, 'unpatched', 'old micro rhythm still connected')
    mon.case('switch', n, serial, len(others))


def patterns(rng, mon):
    length = rng.randint(1, 40)
    period = rng.choice([None, 1, rng.randint(1, length)])
    lo = rng.randint(0, 60)
    hi = lo + rng.randint(0, 60)
    p = random_pattern(length, period, lo, hi)
    mon.check(len(p) == length and all(lo <= v <= hi for v in p), 'random-pattern', '%s', p)
    if period:
        mon.check(all(p[i] == p[i - period] for i in range(period, length)), 'random-pattern', 'period %s: %s', period, p)
    mon.case('pattern', tuple(p))


SCENARIOS = [
    Scenario(slicer, 400, need=4000),
    Scenario(slice_numbers, 100, need=100),
    Scenario(lookup, 100, need=100),
    Scenario(micro_rhythm, 100, need=3000),
    Scenario(sequencing, 250, need=20000),
    Scenario(rhythm_switching, 30, need=300),
    Scenario(patterns, 60, need=60),
]
REQUIRED_EVENTS = {'steps': 3000, 'note-ons': 2000, 'micro rhythms': 50, 'phase steps': 3000}
