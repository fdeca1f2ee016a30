"""C09: oscillators, low frequency oscillators and wave functions."""
import copy
from fractions import Fraction
import math
import warnings

import numpy as np

from klang.audio import waves
from klang.audio.oscillators import (
    Chirper, FmOscillator, Lfo, Oscillator, Phasor, PwmOscillator, sample_phase,
)
from klang.config import BUFFER_SIZE, SAMPLING_RATE
from vlib.core import Scenario, close
from vlib.util import rate_of

PROPERTY = 'C09'
RULE = ('random oscillators driven by constant, switched, note valued and per-sample frequencies over '
        'several buffers; phases recorded through an identity wave function are compared on the circle '
        'with the running sum of the frequencies; distinct = distinct (type, parameters, frequency '
        'history); non-trivial = at least two buffers with a non-zero frequency')
TAU = 2 * math.pi
DT = 1. / SAMPLING_RATE
INTERVAL = BUFFER_SIZE * DT
TOL = 1e-6


def circle(a, b):
    """Distance on the circle."""
    return np.abs((np.asarray(a, dtype=float) - b + math.pi) % TAU - math.pi)


def same_phase(mon, actual, expected, mech, text):
    actual = np.asarray(actual, dtype=float)
    expected = np.asarray(expected, dtype=float)
    mon.check(actual.shape == expected.shape, mech, '%s: shape %s, not %s', text, actual.shape, expected.shape)
    d = circle(actual, expected)
    bad = ~(d < TOL)
    mon.check(not bad.any(), mech, '%s: %d of %d phases differ, by up to %s', text, int(bad.sum()),
              bad.size, float(np.max(d)))


def in_turn(mon, phase, text):
    """Wave functions are given phases of one turn."""
    mon.check(float(np.min(phase)) > -TOL and float(np.max(phase)) < TAU + TOL, 'phase-range', '%s: %s .. %s', text,
              np.min(phase), np.max(phase))


def pick_frequency(rng, array=True, top=20000):
    r = rng.random()
    if r < .1:
        return rng.choice([0, 0., 1, 440, -220., 440., SAMPLING_RATE / 2., 1 / INTERVAL, .5 / INTERVAL])
    if r < .25:
        return Fraction(rng.randint(1, 9), rng.choice([1, 2, 4, 8, 16, 12, 24]))
    if array and r < .55:
        rs = np.random.RandomState(rng.getrandbits(32))
        kind = rng.randrange(4)
        if kind == 0:
            return np.linspace(rng.uniform(0, 2000), rng.uniform(0, 2000), BUFFER_SIZE)
        if kind == 1:
            return rs.uniform(-500, 5000, BUFFER_SIZE)
        if kind == 2:
            return rs.randint(1, 900, BUFFER_SIZE)
        x = np.full(BUFFER_SIZE, rng.uniform(10, 1000))
        x[rng.randrange(BUFFER_SIZE)] = 9999.
        return x
    return rng.choice([1, 1, 1, 1, 1, -1]) * 10 ** rng.uniform(-2, math.log10(top))


def hz(freq):
    return rate_of(freq) if isinstance(freq, Fraction) else freq


def advance(phase, freq):
    """(phases of one buffer, next phase) by the running sum."""
    steps = np.empty(BUFFER_SIZE)
    steps[:] = hz(freq)
    total = phase + TAU * DT * np.concatenate([[0.], np.cumsum(steps)])
    return total[:-1], float(total[-1] % TAU)


def identity(phase):
    return phase


def history(rng, array=True, n=None):
    """Frequencies of consecutive buffers."""
    out = []
    freq = pick_frequency(rng, array)
    for _ in range(n or rng.randint(2, 9)):
        if rng.random() < .4:
            freq = pick_frequency(rng, array)
        out.append(freq)
    return out


def key(freqs):
    return tuple(repr(f)[:40] for f in freqs)


def oscillator_phase(rng, mon):
    start = rng.choice([0., 0., rng.uniform(0, TAU)])
    freqs = history(rng)
    osc = Oscillator(freqs[0], wave_func=identity, startPhase=start)
    phase = start
    kept = []
    clone = None
    at = rng.randrange(len(freqs))
    for i, freq in enumerate(freqs):
        if i == at and rng.random() < .6:
            clone = copy.deepcopy(osc)
        osc.frequency.set_value(freq)
        before = np.array(freq, dtype=float) if isinstance(freq, np.ndarray) else None
        osc.update()
        want, phase = advance(phase, freq)
        same_phase(mon, osc.output.value, want, 'phase', 'buffer %d of %s' % (i, key(freqs)))
        in_turn(mon, osc.output.value, 'buffer %d of %s' % (i, key(freqs)))
        if before is not None:
            mon.check(np.array_equal(before, freq), 'input-intact', 'frequency samples were changed')
        if clone is not None:
            clone.frequency.set_value(freq)
            clone.update()
            same_phase(mon, clone.output.value, want, 'copy-phase', 'copy made at buffer %d' % at)
            mon.event('copies followed')
        kept.append((osc.output.value, np.array(osc.output.value)))
        mon.event('buffers')
    for i, (live, saved) in enumerate(kept):
        mon.check(np.array_equal(live, saved), 'delivered-intact', 'buffer %d changed after delivery', i)
    mon.case('osc', start, key(freqs), nontrivial=any(np.any(np.asarray(f, dtype=float)) for f in freqs))
    mon.sample('Oscillator start=%.3f %s' % (start, key(freqs)))


def oscillator_wave(rng, mon):
    """The output is the wave function of the phase; same phases for any wave function."""
    name = rng.choice(['sine', 'square', 'sawtooth', 'triangle'])
    func = getattr(waves, name)
    start = rng.uniform(0, TAU)
    freqs = history(rng, n=rng.randint(2, 4))
    a = Oscillator(freqs[0], wave_func=func, startPhase=start)
    b = Oscillator(freqs[0], wave_func=identity, startPhase=start)
    for freq in freqs:
        for osc in (a, b):
            osc.frequency.set_value(freq)
            osc.update()
        y = np.asarray(a.output.value)
        mon.check(y.shape == (BUFFER_SIZE,), 'wave-output', 'shape %s', y.shape)
        close(mon, y, func(b.output.value), 'wave-output', name)
        mon.check(np.abs(y).max() <= 1 + 1e-9, 'range', '%s amplitude %r', name, float(np.abs(y).max()))
    mon.case('wave', name, key(freqs))


def phasor(rng, mon):
    freqs = history(rng, array=False)
    start = rng.choice([0., rng.uniform(0, TAU)])
    osc = Phasor(freqs[0], start)
    phase = start
    for i, freq in enumerate(freqs):
        osc.frequency.set_value(freq)
        if rng.random() < .2:
            osc = copy.deepcopy(osc)
        osc.update()
        y = osc.output.value
        mon.check(np.ndim(y) == 0 and 0 <= y < TAU + 1e-9, 'phasor-range', 'phase %r', y)
        same_phase(mon, y, phase, 'phasor', 'buffer %d of %s' % (i, key(freqs)))
        phase = (phase + TAU * hz(freq) * INTERVAL) % TAU
        mon.event('buffers')
    mon.case('phasor', start, key(freqs))


REFERENCE = {
    # as functions of the position in the cycle [0, 1)
    'sine': lambda x: math.sin(TAU * x),
    'square': lambda x: 1. if x < .5 else -1.,
    'sawtooth': lambda x: 2 * x - 1,
    'triangle': lambda x: 1 - 4 * abs(x - .5) if True else None,
}
JUMPS = {'sine': [], 'square': [0., .5, 1.], 'sawtooth': [0., 1.], 'triangle': []}


def wave_functions(rng, mon):
    name = rng.choice(sorted(REFERENCE))
    func = waves.WAVE_FUNCTIONS[name]
    n = rng.choice([1, 7, BUFFER_SIZE])
    turns = rng.choice([0, 0, 1, -1, 5, -9, 1000])
    xs = [rng.random() for _ in range(n)]
    xs = [.25 if any(abs(x - j) < 1e-6 for j in JUMPS[name]) else x for x in xs]
    phase = np.array([TAU * (x + turns) for x in xs])
    saved = phase.copy()
    y = func(phase)
    close(mon, y, [REFERENCE[name](x) for x in xs], 'wave-shape', '%s, %d turns' % (name, turns), atol=1e-7)
    mon.check(np.array_equal(phase, saved), 'input-intact', '%s changed its phases', name)
    mon.check(np.abs(y).max() <= 1 + 1e-12, 'range', name)
    scalar = func(float(phase[0]))
    close(mon, scalar, REFERENCE[name](xs[0]), 'wave-shape', '%s of a scalar' % name, atol=1e-7)
    # closed at the borders: every phase has a value in [-1, 1]
    edge = np.array([0., math.pi, -math.pi, TAU, -TAU, 3 * math.pi, 1e-300, -1e-300, 1e6])
    e = func(edge)
    mon.check(bool(np.all(np.abs(e) <= 1 + 1e-9)), 'range', '%s at the borders: %s', name, e)
    if name == 'square':
        mon.check(set(np.unique(y)) | set(np.unique(e)) <= {-1., 1.}, 'wave-shape', 'square values %s, at the borders %s',
                  np.unique(y), e)
    noise = waves.random(phase)
    mon.check(noise.shape == phase.shape and np.abs(noise).max() <= 1, 'range', 'random')
    mon.check(np.ndim(waves.random(1.5)) == 0, 'wave-shape', 'random value of a scalar: %r', waves.random(1.5))
    # element by element, whatever the shape of the phases
    stacked = np.stack([phase, phase[::-1]])
    for stack in (stacked, stacked.T, stacked[:, ::2]):
        close(mon, func(stack), np.array([[REFERENCE[name](v / TAU % 1) for v in row] for row in stack]), 'wave-shape',
              '%s of shape %s' % (name, stack.shape), atol=1e-6)
        other = np.asarray(waves.random(stack))
        mon.check(other.shape == stack.shape and np.abs(other).max() <= 1, 'wave-shape', 'random of shape %s: %s',
                  stack.shape, other.shape)
    if n == BUFFER_SIZE:
        mon.check(noise.min() < -.5 and noise.max() > .5 and len(np.unique(noise)) > n // 2,
                  'wave-shape', 'random does not cover [-1, 1]: %s .. %s', noise.min(), noise.max())
    mon.case(name, turns, tuple(xs))


def lfo(rng, mon):
    lo, hi = rng.choice([(0, 1), (0., 1.), (-1, 1), (1., 0.), (20., 2000.),
                         (rng.uniform(-5, 5), rng.uniform(-5, 5)), (3., 3.)])
    start = rng.choice([0., rng.uniform(0, TAU)])
    shape = rng.choice([1, BUFFER_SIZE])
    name = rng.choice(['sine', 'square', 'sawtooth', 'triangle', 'identity', 'random'])
    freqs = history(rng, array=False)
    func = identity if name == 'identity' else getattr(waves, name)
    block = Lfo(freqs[0], wave_func=func, shape=shape, outputRange=(lo, hi), startPhase=start)
    phase = start
    for i, freq in enumerate(freqs):
        block.frequency.set_value(freq)
        if rng.random() < .2:
            block = copy.deepcopy(block)
            mon.event('copies followed')
        block.update()
        y = np.asarray(block.output.value)
        text = 'Lfo %s shape %d range (%s, %s) buffer %d' % (name, shape, lo, hi, i)
        mon.check(y.size == shape, 'lfo-shape', '%s: %s values', text, y.size)
        want, after = advance(phase, freq)
        if shape == 1:
            want = want[:1]
        phase = after
        y = y.reshape(-1)
        eps = 1e-9 * (1 + abs(lo) + abs(hi))
        if name == 'identity':
            if lo != hi:
                unscaled = (y - lo) / (hi - lo) * 2. - 1.
                same_phase(mon, unscaled, want, 'lfo-phase', text)
                in_turn(mon, unscaled, text)
            continue
        mon.check(bool(np.all((y >= min(lo, hi) - eps) & (y <= max(lo, hi) + eps))), 'lfo-range',
                  '%s: %s .. %s', text, y.min(), y.max())
        if name == 'random':
            continue
        ref = [REFERENCE[name](x) for x in (want / TAU) % 1]
        expected = lo + (np.array(ref) + 1) / 2 * (hi - lo)
        safe = np.array([all(abs(x - j) > 1e-6 for j in JUMPS[name]) for x in (want / TAU) % 1])
        close(mon, y[safe], expected[safe], 'lfo-value', text, rtol=1e-6, atol=1e-5 * (1 + abs(hi - lo)))
        mon.event('buffers')
    mon.case('lfo', name, shape, lo, hi, start, key(freqs))


def pulse_width(rng, mon):
    start = rng.choice([0., rng.uniform(0, TAU)])
    freqs = history(rng)
    duty = rng.choice([0., .5, 1., rng.random(), 0, 1])
    osc = PwmOscillator(freqs[0], dutyCycle=duty, startPhase=start)
    phase = start
    for i, freq in enumerate(freqs):
        if rng.random() < .3:
            duty = rng.choice([rng.random(), rng.random(), rng.random(), 0., 1.])
            if rng.random() < .4:
                duty = np.random.RandomState(rng.getrandbits(32)).uniform(0, 1, BUFFER_SIZE)
            osc.dutyCycle.set_value(duty)
        osc.frequency.set_value(freq)
        if rng.random() < .2:
            osc = copy.deepcopy(osc)
            mon.event('copies followed')
        osc.update()
        want, phase = advance(phase, freq)
        y = np.asarray(osc.output.value)
        mon.check(y.shape == (BUFFER_SIZE,), 'pwm', 'shape %s', y.shape)
        x = want / TAU % 1
        d = np.broadcast_to(np.asarray(duty, dtype=float), (BUFFER_SIZE,))
        # Extreme duty cycles have no edges
        safe = ((np.abs(x - d) > 1e-6) & (x > 1e-6) & (x < 1 - 1e-6)) | (d <= 0)
        expected = np.where((x < d) & (d > 0), 1., -1.)
        close(mon, y[safe], expected[safe], 'pwm', 'duty %s buffer %d %s' % (np.mean(d), i, key(freqs)))
        mon.check(bool(np.all(np.abs(y) == 1.)), 'pwm', 'values %s', np.unique(y)[:5])
        mon.event('buffers')
    mon.case('pwm', start, repr(duty)[:40], key(freqs))


def frequency_modulation(rng, mon):
    start = rng.choice([0., rng.uniform(0, TAU)])
    freqs = history(rng)
    intensity = rng.choice([0., 1., rng.uniform(-3, 8)])
    mod = rng.choice([10., rng.uniform(.1, 900), Fraction(1, 8)])
    kw, func = {}, np.sin
    if rng.random() < .4:
        kw['wave_func'] = func = rng.choice([np.cos, waves.sine, waves.triangle])
    osc = FmOscillator(freqs[0], intensity=intensity, modFrequency=mod, startPhase=start, **kw)
    phase, modPhase = start, 0.
    at = rng.randrange(len(freqs))
    for i, freq in enumerate(freqs):
        if i == at and rng.random() < .5:
            osc = copy.deepcopy(osc)
            mon.event('copies followed')
        if rng.random() < .3:
            mod = rng.uniform(.1, 900)
            osc.modulator.frequency.set_value(mod)
        osc.frequency.set_value(freq)
        osc.update()
        want, phase = advance(phase, freq)
        wantMod, modPhase = advance(modPhase, mod)
        expected = func(want + intensity * func(wantMod))
        close(mon, osc.output.value, expected, 'fm', 'intensity %s mod %s buffer %d %s' % (
            intensity, mod, i, key(freqs)), atol=1e-5)
        mon.event('buffers')
    mon.case('fm', start, intensity, str(mod), key(freqs))


def chirp_reference(method, f0, f1, t1, t):
    """Phase by definition: integral of the instantaneous frequency."""
    tc = np.minimum(t, t1)
    if f0 == f1:
        return TAU * f1 * t
    if method == 'linear':
        ph = f0 * tc + .5 * (f1 - f0) / t1 * tc ** 2
    elif method == 'quadratic':
        ph = f0 * tc + (f1 - f0) / t1 ** 2 * tc ** 3 / 3
    elif method == 'logarithmic':
        ph = f0 * t1 / math.log(f1 / f0) * ((f1 / f0) ** (tc / t1) - 1)
    else:
        sing = -f1 * t1 / (f0 - f1)
        ph = -sing * f0 * np.log(np.abs(1 - tc / sing))
    return TAU * (ph + f1 * np.maximum(t - t1, 0.))


def chirps(rng, mon):
    method = rng.choice(['linear', 'linear', 'quadratic', 'logarithmic', 'hyperbolic'])
    f0, f1 = rng.uniform(50, 3000), rng.uniform(50, 3000)
    if rng.random() < .15:
        f1 = f0
    n = rng.randint(3, 9)
    if rng.random() < .25:  # slow sweeps
        f0, f1 = rng.uniform(.2, 3), rng.uniform(.2, 3)
        n = rng.randint(40, 90)
        if rng.random() < .05:
            n = 5300    # half a minute
    duration = rng.choice([rng.uniform(.2, 1.3) * n * INTERVAL, 2 * INTERVAL, BUFFER_SIZE * DT + .5 * DT])
    block = Chirper(f0, duration, f1, method, wave_func=identity)
    for turn in range(2):
        parts = []
        for _ in range(n):
            block.update()
            parts.append(np.array(block.output.value))
            mon.event('buffers')
        y = np.concatenate(parts)
        t = DT * np.arange(len(y))
        text = '%s %.1f -> %.1f Hz in %.5f s' % (method, f0, f1, duration)
        if method == 'quadratic':
            # the bend may be at either end: only the frequencies are documented
            pass
        else:
            d = circle(y, chirp_reference(method, f0, f1, duration, t))
            # half a sample of freedom where the chirp ends
            mon.check(bool(np.all(d < 2e-2)), 'chirp', '%s: phase off by %s at sample %d', text,
                      float(d.max()), int(d.argmax()))
        step = circle(y[1:], y[:-1])
        top = TAU * DT * max(f0, f1)
        bottom = TAU * DT * min(f0, f1)
        mon.check(bool(np.all(step < top + 1e-2)) and bool(np.all(step > bottom - 1e-2)), 'chirp-continuity',
                  '%s: phase steps %s .. %s at %d', text, step.min(), step.max(), int(step.argmax()))
        late = np.nonzero(t[:-1] > duration + DT)[0]
        if len(late):
            mon.check(bool(np.all(np.abs(step[late] - TAU * DT * f1) < 1e-5)), 'chirp-end',
                      '%s: frequency after the chirp', text)
            mon.event('chirps ended')
        block.reset()
    mon.case('chirp', method, f0, f1, duration)


def phase_sampler(rng, mon):
    start = rng.choice([0., rng.uniform(0, TAU)])
    freqs = [f for f in history(rng) if not isinstance(f, Fraction)]
    phase = start
    nxt = start
    for freq in freqs:
        got, nxt = sample_phase(freq, nxt)
        want, phase = advance(phase, freq)
        same_phase(mon, got, want, 'sample-phase', str(key(freqs)))
        same_phase(mon, nxt, phase, 'sample-phase', 'next phase %s' % (key(freqs),))
        mon.check(0 <= np.min(got) and np.max(got) <= TAU, 'sample-phase', 'range')
    # the same for waves: cut into pieces or not
    freq, n = rng.choice([rng.uniform(0, 4000), 440, 0.]), rng.randint(1, 4)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        nxt, parts = start, []
        for _ in range(n):
            got, nxt = waves.sample_wave(freq, nxt)
            parts.append(got)
        size = rng.choice([n * BUFFER_SIZE, n * BUFFER_SIZE, rng.randint(1, n * BUFFER_SIZE)])
        whole, after = waves.sample_wave(freq, start, shape=size)
    want = np.sin(start + TAU * freq * DT * np.arange(n * BUFFER_SIZE))
    close(mon, np.concatenate(parts), want, 'sample-wave', 'pieces from %s at %s Hz' % (start, freq), atol=1e-6)
    close(mon, whole, want[:size], 'sample-wave', 'whole from %s at %s Hz' % (start, freq), atol=1e-6)
    mon.check(float(circle(after, start + TAU * freq * DT * size)) < 1e-6, 'sample-wave', 'next phase after %d samples from %s at '
              '%s Hz: %s', size, start, freq, after)
    mon.case('sample', start, key(freqs), nontrivial=bool(freqs))


SCENARIOS = [
    Scenario(oscillator_phase, 260, need=200),
    Scenario(oscillator_wave, 120, need=100),
    Scenario(phasor, 150, need=200),
    Scenario(wave_functions, 200, need=200),
    Scenario(lfo, 260, need=200),
    Scenario(pulse_width, 150, need=200),
    Scenario(frequency_modulation, 150, need=150),
    Scenario(chirps, 80, need=100),
    Scenario(phase_sampler, 80, need=50),
]
REQUIRED_EVENTS = {'buffers': 1000, 'copies followed': 20, 'chirps ended': 20}
