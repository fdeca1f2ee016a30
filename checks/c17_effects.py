"""C17: audio effects transform the signal by their laws, sample exact over buffer borders."""
from fractions import Fraction
import math

import numpy as np
import samplerate
import scipy.signal

from klang.audio.effects import (
    AudioCombiner, AudioSplitter, Bitcrusher, Filter, Gain, OctaveDistortion, PitchShifter, RingModulator, Subsampler,
    TanhDistortion, Transformer, Tremolo,
)
from klang.audio import effects
from klang.audio.oscillators import PwmOscillator
from klang.audio.sync import Clock
from klang.audio.waves import sawtooth, sine, square, triangle
from klang.block import Block
from klang.config import BUFFER_SIZE, SAMPLING_RATE
from klang.connections import Input
from vlib.core import Scenario, close, raises
from vlib.util import rate_of

PROPERTY = 'C17'
RULE = ('effect blocks fed with random mono and stereo buffers (noise, ramps, sines, extremes, read-only arrays) and '
        'changing parameters, compared sample by sample with reference formulas over the whole signal; distinct = '
        'distinct (effect, parameters, signal kinds); non-trivial = at least two buffers')
TAU = 2 * math.pi
NYQUIST = SAMPLING_RATE / 2.


def make_signal(rng, n, stereo=False, kind=None):
    rs = np.random.RandomState(rng.getrandbits(32))
    kind = kind or rng.choice(['noise', 'noise', 'sine', 'ramp', 'impulse', 'extremes', 'silence', 'gaps'])
    shape = (2, n * BUFFER_SIZE) if stereo else (n * BUFFER_SIZE,)
    if kind == 'noise':
        x = rs.uniform(-1, 1, shape)
    elif kind == 'sine':
        x = np.sin(rs.uniform(.001, 2, shape[:-1] + (1,)) * np.arange(shape[-1]) + rs.uniform(0, 6))
    elif kind == 'ramp':
        x = np.linspace(-1, 1, shape[-1]) * np.ones(shape)
    elif kind == 'impulse':
        x = np.zeros(shape)
        x[..., rs.randint(shape[-1])] = 1.
    elif kind == 'extremes':
        x = rs.choice([-1., 1., 0.], shape)
    elif kind == 'gaps':  # each channel is silent for whole buffers
        x = rs.uniform(-1, 1, shape) * np.repeat(rs.randint(2, size=shape[:-1] + (n,)), BUFFER_SIZE, axis=-1)
    else:
        x = np.zeros(shape)
    x = np.ascontiguousarray(x).reshape(shape)
    x.setflags(write=False)
    return x


def buffers(x):
    for k in range(x.shape[-1] // BUFFER_SIZE):
        yield k, x[..., k * BUFFER_SIZE:(k + 1) * BUFFER_SIZE]


def run(mon, block, x, before=None):
    """Feed a signal buffer by buffer, as a downstream block sees it."""
    sink = Input()
    block.output.connect(sink)
    out = []
    for k, buf in buffers(x):
        if before:
            before(k)
        keep = buf.copy()
        block.input.set_value(buf)
        block.update()
        mon.check((keep == buf).all(), 'input-kept', '%s modified its input', type(block).__name__)
        y = np.array(sink.value, dtype=float)
        mon.check(y.shape == buf.shape, 'shape', '%s: %s from %s', type(block).__name__, y.shape, buf.shape)
        out.append(y)
        mon.event('effect buffers')
    block.output.disconnect(sink)
    return np.concatenate(out, axis=-1)


def memoryless(rng, mon):
    n = rng.randint(1, 4)
    stereo = rng.random() < .4
    x = make_signal(rng, n, stereo)
    kind = rng.choice(['gain', 'sub', 'bit', 'bit', 'octave', 'tanh', 'transform'])
    if kind == 'gain':
        gains = [rng.choice([0., 1., -2., rng.uniform(-3, 3), np.random.uniform(-1, 1, BUFFER_SIZE)]) for _ in range(n)]
        block = Gain(gains[0]) if rng.random() < .8 or not np.isscalar(gains[0]) or gains[0] != 1. else Gain()
        y = run(mon, block, x, lambda k: block.gain.set_value(gains[k]) if k else None)
        want = np.concatenate([g * buf for (_, buf), g in zip(buffers(x), gains)], axis=-1)
        text = 'gain'
    elif kind == 'sub':
        factor = rng.choice([2, 4, 8, 16, 32, 64, 128])
        y = run(mon, Subsampler(factor), x)
        want = x[..., np.arange(x.shape[-1]) // factor * factor]
        text = 'subsample %d' % factor
        bad = rng.choice([0, 1, 3, 5, 12, -2, 512, 100])
        mon.check(raises(Subsampler, bad) is not None, 'refused', 'Subsampler(%r) accepted', bad)
    elif kind == 'bit':
        bits = rng.randint(0, 15)
        y = run(mon, Bitcrusher(bits), x)
        step = 2. ** bits / 32768
        text = 'bitcrush %d' % bits
        levels = y / step
        mon.check(np.abs(levels - np.round(levels)).max() < 1e-9, 'levels', '%s: off the grid', text)
        # rounds down, after the truncation to 16 bits
        err = x - y
        mon.check(err.max() < step + 2. / 32767 and err.min() > -2. / 32767, 'resolution', '%s: error %r..%r', text,
                  err.min(), err.max())
        order = np.argsort(x.ravel(), kind='stable')
        mon.check((np.diff(y.ravel()[order]) >= 0).all(), 'monotone', '%s', text)
        mon.check(len(np.unique(np.round(levels))) <= 2 ** (16 - bits) + 1, 'levels', '%s', text)
        want = y
        bad = rng.choice([-1, 16, 20, 17])
        mon.check(raises(Bitcrusher, bad) is not None, 'refused', 'Bitcrusher(%r) accepted', bad)
    elif kind == 'octave':
        scale = rng.choice([1., 1., 1.7, 4.])
        x = scale * x
        y = run(mon, OctaveDistortion(), x)
        # second Chebyshev polynomial, overdriven beyond full level
        inside = np.abs(x) <= 1
        want = np.cosh(2 * np.arccosh(np.maximum(1., np.abs(x))))
        want[inside] = np.cos(2 * np.arccos(x[inside]))
        text = 'octave'
        mon.check(scale > 1 or np.abs(y).max() <= 1 + 1e-12, 'range', 'octave distortion leaves [-1, 1]')
    elif kind == 'tanh':
        drive = rng.choice([1., rng.uniform(.01, 30), rng.uniform(-30, -.01)])
        y = run(mon, TanhDistortion(drive) if drive != 1. else TanhDistortion(), x)
        e = np.exp(-2 * np.abs(drive * x))
        want = np.sign(drive * x) * (1 - e) / (1 + e)
        text = 'tanh %r' % drive
    else:
        lo, hi = sorted([rng.uniform(-5, 5), rng.uniform(-5, 5)])
        how = rng.choice(['plain', 'limits', 'limits2', 'ranges'])
        if how == 'plain':
            block, want = Transformer(hi, lo), hi * x + lo
        elif how == 'limits':
            block, want = Transformer.from_limits(lo, hi), lo + x * (hi - lo)
        elif how == 'limits2':
            block, want = Transformer.from_limits_2(lo, hi), lo + (x + 1) / 2 * (hi - lo)
        else:
            a, b = rng.uniform(-3, 0), rng.uniform(.1, 3)
            ends = rng.choice([(lo, hi), (hi, lo)])
            block = Transformer.from_ranges((a, b), ends)
            want = ends[0] + (x - a) / (b - a) * (ends[1] - ends[0])
        y = run(mon, block, x)
        text = 'transformer ' + how
        mon.check(raises(Transformer.from_limits, hi, lo) is not None
                  and raises(Transformer.from_limits_2, hi, lo) is not None, 'refused', 'swapped limits accepted')
    close(mon, y, want, 'signal', text, atol=1e-9)
    mon.case('memoryless', text, stereo, n, nontrivial=n > 1)


def one_pole(rng, mon):
    """Coefficients of the single pole low pass: gain 1, decays by 2 pi f."""
    f = rng.choice([0., 0, math.inf, float(SAMPLING_RATE), 10 * SAMPLING_RATE, 10 ** rng.uniform(-3, 6), 10 ** rng.uniform(0, 4)])
    b, a = effects.low_pass_coefficients(f)
    n = rng.randint(2, 300)
    x = np.random.uniform(-1, 1, n)
    y, last = 0., rng.choice([0., rng.uniform(-1, 1)])
    got, _ = scipy.signal.lfilter(b, a, x, zi=scipy.signal.lfiltic(b, a, [last]))
    pole = 0. if f == math.inf else math.exp(-TAU * f / SAMPLING_RATE)
    want, y = [], last
    for v in x:
        y = (1 - pole) * v + pole * y
        want.append(y)
    close(mon, got, want, 'one-pole', 'low pass at %r Hz' % f, atol=1e-9)
    mon.event('one pole filters')
    mon.case('one pole', f, n, nontrivial=0 < f < math.inf)


def pick_rate(rng, top=2000.):
    return rng.choice([rng.uniform(.1, 30), rng.uniform(.1, top), Fraction(1, rng.choice([1, 2, 4, 8, 16]))])


def hz(rate):
    return rate_of(rate) if isinstance(rate, Fraction) else float(rate)


def tremolo(rng, mon):
    n = rng.randint(2, 40)
    x = make_signal(rng, n, rng.random() < .3, rng.choice(['noise', 'sine', 'extremes']))
    p = {'rate': pick_rate(rng), 'depth': rng.choice([0., 1., rng.random()]),
         'smoothness': rng.choice([0., 1., rng.random(), rng.random() * .01]),
         'dutyCycle': rng.choice([.5, rng.uniform(.01, .99)])}
    start = dict(p)
    block = Tremolo(**p)
    changes = {}
    for _ in range(rng.choice([0, 0, 1, 3])):
        name = rng.choice(['rate', 'depth', 'smoothness', 'dutyCycle'])
        changes[rng.randint(1, n - 1)] = (name, pick_rate(rng) if name == 'rate' else rng.random())

    def before(k):
        if k in changes:
            name, value = changes[k]
            getattr(block, name).set_value(value)

    y = run(mon, block, x, before)
    # reference: pulse wave -> one pole low pass -> amplitude
    twin = PwmOscillator(p['rate'], p['dutyCycle'])
    state = 0.
    want = []
    for k, buf in buffers(x):
        if k in changes:
            name, value = changes[k]
            p[name] = value
            twin.frequency.set_value(p['rate'])
            twin.dutyCycle.set_value(p['dutyCycle'])
        twin.update()
        decay = max(1e-6, p['smoothness'] * min(p['dutyCycle'], 1 - p['dutyCycle']))
        keep = math.exp(-TAU / decay / SAMPLING_RATE)
        env = np.empty(BUFFER_SIZE)
        for i, v in enumerate(twin.output.value):
            state = keep * state + (1 - keep) * float(v)
            env[i] = state
        amp = 1 - p['depth'] * (.5 - .5 * env)
        mon.check(amp.min() >= 1 - p['depth'] - 1e-9 and amp.max() <= 1 + 1e-9, 'reference', 'amplitude out of range')
        want.append(amp * buf)
    text = 'tremolo %s %s' % (start, changes)
    close(mon, y, np.concatenate(want, axis=-1), 'tremolo', text, atol=1e-7)
    mon.check((np.abs(y) <= np.abs(x) + 1e-9).all(), 'tremolo-range', '%s amplifies', text)
    mon.case(text, n)
    mon.sample(text)


def ring_modulator(rng, mon):
    n = rng.randint(2, 30)
    x = make_signal(rng, n, rng.random() < .3, 'noise')
    wave = rng.choice([sine, square, triangle, sawtooth])
    p = {'frequency': rng.uniform(10, 2000), 'rate': pick_rate(rng, 60.), 'amount': rng.choice([0., rng.random(), rng.uniform(0, 300), rng.uniform(0, 300)]),
         'dryWet': rng.choice([0., 1., rng.random()])}
    if rng.random() < .2:  # varies within the buffers
        p['dryWet'] = np.linspace(*sorted([rng.random(), rng.random()]), BUFFER_SIZE)
    start = dict(p)
    block = RingModulator(wave_func=wave, **p)
    changes = {}
    for _ in range(rng.choice([0, 0, 1, 3])):
        name = rng.choice(sorted(p))
        changes[rng.randint(1, n - 1)] = (name, pick_rate(rng, 60.) if name == 'rate' else rng.random() * (
            1 if name == 'dryWet' else 500))

    def before(k):
        if k in changes:
            name, value = changes[k]
            getattr(block, name).set_value(value)

    y = run(mon, block, x, before)
    lfo = phase = 0.
    want = []
    ambiguous = False
    for k, buf in buffers(x):
        if k in changes:
            p[changes[k][0]] = changes[k][1]
        step = TAU * hz(p['rate']) / SAMPLING_RATE
        lfoPhase = lfo + step * np.arange(BUFFER_SIZE)
        lfo = lfo + step * BUFFER_SIZE
        if wave in (square, sawtooth):
            # jumps of the wave function within rounding may be on either side
            edge = np.abs((lfoPhase + 1e-3) % math.pi - 1e-3)
            ambiguous |= bool((edge[1 if k == 0 else 0:] < 1e-6).any())
        freqs = p['frequency'] + p['amount'] * wave(lfoPhase % TAU)
        steps = TAU * freqs / SAMPLING_RATE
        phases = phase + np.r_[0., np.cumsum(steps)]
        phase = phases[-1]
        want.append((1 - p['dryWet']) * buf + p['dryWet'] * np.sin(phases[:-1]) * buf)
    if np.ndim(start['dryWet']):
        start['dryWet'] = 'ramp'
        mon.event('varying mixtures')
    text = 'ring modulator %s %s %s' % (wave.__name__, start, changes)
    if ambiguous:
        mon.event('ambiguous')
    else:
        close(mon, y, np.concatenate(want, axis=-1), 'ring', text, atol=1e-5)
    if start['dryWet'] == 0. and not changes:
        close(mon, y, x, 'dry', text)
    mon.case(text, n)


def pitch_shifter(rng, mon):
    n = rng.randint(2, 12)
    x = make_signal(rng, n, False, rng.choice(['noise', 'sine']))
    if rng.random() < .4:  # a pause
        x = x.copy()
        x[rng.randrange(n) * BUFFER_SIZE:][:rng.randint(1, 3) * BUFFER_SIZE] = 0.
        x.setflags(write=False)
    shift = rng.choice([1., 2., .5, rng.uniform(.3, 3)])
    mode = rng.choice(['sinc_fastest', 'linear', 'zero_order_hold', 'sinc_medium'])
    mix = rng.choice([0., 1., .5, rng.random()])
    block = PitchShifter(shift, mix, mode)
    y = run(mon, block, x)
    current = [None]
    window = .5 - .5 * np.cos(TAU * np.arange(BUFFER_SIZE) / (BUFFER_SIZE - 1))
    twin = samplerate.CallbackResampler(lambda: current[0] * window, 1. / shift, mode, 1)
    want = []
    for _, buf in buffers(x):
        current[0] = buf
        want.append((1 - mix) * buf + mix * np.ravel(twin.read(BUFFER_SIZE)))
    text = 'shift %r %s mix %r' % (shift, mode, mix)
    close(mon, y, np.concatenate(want), 'pitch', text, atol=1e-6)
    if mix == 0.:
        close(mon, y, x, 'dry', text)
    mon.case(text, n)


def routing(rng, mon):
    n = rng.randint(1, 5)
    split = AudioSplitter(n)
    combine = AudioCombiner(n)
    for o, i in zip(split.outputs, combine.inputs):
        o.connect(i)
    for _ in range(rng.randint(1, 4)):
        mono = rng.random() < .3
        x = np.random.uniform(-1, 1, (BUFFER_SIZE,) if mono else (n, BUFFER_SIZE))
        x.setflags(write=False)
        split.input.set_value(x)
        split.update()
        for c, o in enumerate(split.outputs):
            close(mon, o.value, x if mono else x[c], 'split', 'channel %d' % c)
        combine.update()
        close(mon, combine.output.value, x * np.ones((n, 1)), 'combine', '%d channels' % n)
    # fewer channels than outputs: every channel goes to its own output
    if n > 2:
        few = np.random.uniform(-1, 1, (rng.randrange(2, n), BUFFER_SIZE))
        split.input.set_value(few)
        split.update()
        for c, channel in enumerate(few):
            close(mon, split.outputs[c].value, channel, 'split', 'channel %d of %d' % (c, len(few)))
    # not all inputs are connected, some lose their connection
    values = np.random.uniform(-1, 1, (n, BUFFER_SIZE))
    for c, (o, i) in enumerate(zip(split.outputs, combine.inputs)):
        if rng.random() < .5:
            o.disconnect(i)
            values[c] = rng.choice([0., values[c, 0]])
            if values[c, 0] or np.any(i.value):
                i.set_value(values[c].copy() if rng.random() < .5 else values[c, 0])
    split.input.set_value(values)
    split.update()
    combine.update()
    close(mon, combine.output.value, values, 'combine', '%d channels, partly disconnected' % n)
    mon.case('routing', n)


_filters = {}


def make_filter(key):
    """Filters are expensive to construct: keep pairs and reset them by long silence."""
    if key not in _filters:
        order, btype, design, kw = key
        kwargs = dict(kw)
        if order != 2:
            kwargs['N'] = order
        if btype != 'lowpass':
            kwargs['btype'] = btype
        if design != 'butter':
            kwargs['design_func'] = getattr(scipy.signal, design)
        _filters[key] = Filter(frequency=440., **kwargs), kwargs
    return _filters[key]


def reference_filter(design, order, btype, kw, frequency, state, x):
    f = min(20000., max(20., frequency))
    b, a = getattr(scipy.signal, design)(N=order, Wn=f / NYQUIST, btype=btype, **dict(kw))
    if state is None:
        state = np.zeros(max(len(a), len(b)) - 1)
    return scipy.signal.lfilter(b, a, x, zi=state)


def filters(rng, mon):
    key = rng.choice([(2, 'lowpass', 'butter', ()), (2, 'highpass', 'butter', ()), (1, 'lowpass', 'butter', ()),
                      (3, 'highpass', 'cheby1', (('rp', .5),)), (3, 'highpass', 'cheby1', (('rp', 4.),))])
    order, btype, design, kw = key
    block, _ = make_filter(key)
    n = rng.randint(2, 16)
    stereo = rng.random() < .4
    x = make_signal(rng, n, stereo, rng.choice(['noise', 'impulse', 'sine', 'extremes', 'gaps']))
    freqs = [10 ** rng.uniform(math.log10(40), math.log10(15000))]
    if rng.random() < .2:
        freqs = [rng.choice([20., 20000., 5., 12., 19., 30000., 1000, 440])]
    elif rng.random() < .3:
        freqs = [rng.uniform(20, 60) if rng.random() < .6 else rng.uniform(20, 24)]
    drift = rng.choice([0., 0., .9, .4, freqs[0] * rng.choice([.01, .03, .1])])
    for _ in range(n - 1):
        if drift:
            freqs.append(max(20., freqs[-1] + rng.choice([-1, 1, 1]) * drift))
        else:
            freqs.append(10 ** rng.uniform(2, 4) if rng.random() < .15 else rng.choice([12., 19., 20., 30000.])
                         if rng.random() < .06 else freqs[-1])
    # back to the initial state: silence until everything has decayed (high cutoff)
    silence = np.zeros((2, BUFFER_SIZE))
    block.frequency.set_value(8000.)
    block.input.set_value(silence)
    for _ in range(20):
        block.update()
    peak = float(np.abs(block.output.value).max())
    mon.check(peak < 1e-12, 'decay', '%s: silence in, %r out', key, peak)
    y = run(mon, block, x, lambda k: block.frequency.set_value(freqs[k]))
    text = 'filter %s %s' % (key, ['%.0f' % f for f in freqs])
    # frequencies are rounded to a table with steps of less than a percent
    outs = []
    up, down = 1.008, 1 / 1.008
    patterns = [[1.] * n, [down] * n, [up] * n, [(up, down)[k % 2] for k in range(n)], [(down, up)[k % 2] for k in range(n)]]
    if len(set(freqs)) > 1:
        patterns += [[rng.choice([up, down]) for _ in range(n)] for _ in range(3)]
    for factors in patterns:
        chans = []
        for chan in np.atleast_2d(x):
            state, parts = None, []
            for k, buf in buffers(chan):
                out, state = reference_filter(design, order, btype, kw, freqs[k] * factors[k], state, buf)
                parts.append(out)
            chans.append(np.concatenate(parts))
        outs.append(np.array(chans))
    err = np.linalg.norm(np.atleast_2d(y) - outs[0], axis=1)
    constant = not drift and len(set(freqs)) == 1
    allowed = 2 * np.max([np.linalg.norm(out - outs[0], axis=1) for out in outs[1:3 if constant else None]], axis=0)
    mon.check((err <= allowed + 1e-6).all(), 'filter', '%s: error %s, allowed %s', text, err, allowed)
    mon.event('filtered', n)
    mon.case(text, stereo, n)
    mon.sample(text)


def filter_shift(rng, mon):
    """Linear and time invariant over buffer borders, channels independent."""
    key = rng.choice([(2, 'lowpass', 'butter', ()), (2, 'highpass', 'butter', ())])
    block, _ = make_filter(key)
    n = rng.randint(2, 5)
    f = 10 ** rng.uniform(2, 4)
    delay = rng.randint(1, BUFFER_SIZE - 1)
    x = make_signal(rng, n, False, 'noise')
    later = np.r_[np.zeros(delay), x[:-delay]]

    def clear():
        block.frequency.set_value(8000.)
        block.input.set_value(np.zeros((2, BUFFER_SIZE)))
        for _ in range(20):
            block.update()
        block.frequency.set_value(f)

    clear()
    both = run(mon, block, np.array([x, later]))
    clear()
    alone = run(mon, block, x)
    close(mon, both[0], alone, 'channels', 'stereo differs from mono')
    close(mon, both[1][delay:], both[0][:-delay], 'time-invariant', '%s at %.1f Hz, shifted by %d' % (key, f, delay),
          atol=1e-8)
    clear()
    half = run(mon, block, .5 * x)
    close(mon, half, .5 * alone, 'linear', '%s' % (key,), atol=1e-8)
    # the gain at the cutoff frequency is -3 dB
    fc = 10 ** rng.uniform(2.3, 3.9)
    clear()
    block.frequency.set_value(fc)
    t = np.arange(60 * BUFFER_SIZE)
    tone = np.sin(TAU * fc / SAMPLING_RATE * t)
    y = run(mon, block, tone)
    tail = len(t) // 2
    ref = np.exp(-1j * TAU * fc / SAMPLING_RATE * t[tail:])
    gain = abs(np.mean(y[tail:] * ref)) / abs(np.mean(tone[tail:] * ref))
    mon.check(.69 < gain < .73, 'cutoff', '%s at %.1f Hz: gain %.3f', key, fc, gain)
    mon.check(isinstance(str(block.filters[0]), str), 'str')
    mon.case('shift', key, f, delay, n)


def clocks(rng, mon):
    """Audio clocks: one pulse per period, of the duty cycle's width."""
    rate = rng.choice([rng.uniform(1, 400), Fraction(1, rng.choice([4, 8, 16, 32, 64]))])
    duty = rng.uniform(.02, .98)
    edge = rng.choice(['rising', 'falling'])
    block = Clock(rate, duty, edge)
    mon.check(not np.any(block.output.value), 'clock-start', 'not silent at first')
    n = rng.randint(2, 60)
    dial = None
    if rng.random() < .3:
        dial = Block(nOutputs=1)
        dial.output.set_value(rate)
        dial.output.connect(block.frequency)
        mon.event('clocks with connected rate')
    phase = 0.
    pulses = 0
    last = 0
    for k in range(n):
        if rng.random() < .03:
            rate = rng.uniform(1, 400)
            (dial.output if dial else block.frequency).set_value(rate)
        block.update()
        out = np.asarray(block.output.value)
        mon.check(out.shape == (BUFFER_SIZE,) and set(np.unique(out)) <= {0, 1}, 'clock-values', '%s', np.unique(out))
        step = TAU * hz(rate) / SAMPLING_RATE
        phases = (phase + step * np.arange(BUFFER_SIZE)) % TAU
        want = phases < duty * TAU
        if edge == 'falling':
            want = ~want
        near = (np.abs(phases - duty * TAU) < 1e-6) | (phases < 1e-6) | (phases > TAU - 1e-6)
        bad = (out != want) & ~near
        mon.check(not bad.any(), 'clock', '%s rate %s duty %.3f buffer %d: %d samples wrong', edge, rate, duty, k,
                  bad.sum())
        phase = (phase + step * BUFFER_SIZE) % TAU
        pulses += int((np.diff(np.r_[last, out]) > 0).sum())
        last = out[-1]
        mon.event('clock buffers')
    mon.case('clock', edge, str(rate), duty, n, nontrivial=pulses > 1)


SCENARIOS = [
    Scenario(memoryless, 300, need=1500),
    *([Scenario(one_pole, 80, need=80)] if hasattr(effects, 'low_pass_coefficients') else []),
    Scenario(tremolo, 60, need=1000),
    Scenario(ring_modulator, 80, need=800),
    Scenario(pitch_shifter, 50, need=400),
    Scenario(routing, 60, need=300),
    Scenario(filters, 60, need=500),
    Scenario(filter_shift, 12, need=100),
    Scenario(clocks, 80, need=1000),
]
REQUIRED_EVENTS = {'effect buffers': 3000, 'filtered': 200, 'clock buffers': 1000}
