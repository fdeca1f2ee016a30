"""C23: a block depends on its inputs only: not on other blocks, and never changes what it is given."""
import copy

import numpy as np

import klang.audio.helpers as helpers
from klang.arpeggiator import Arpeggiator
from klang.audio.effects import (
    AudioCombiner, AudioSplitter, Bitcrusher, Delay, Filter, Gain, OctaveDistortion, PitchShifter, Reverb, RingModulator,
    StereoDelay, Subsampler, TanhDistortion, Transformer, Tremolo,
)
from klang.audio.envelopes import ADSR, AR, D, R
from klang.audio.filters import EchoFilter
from klang.audio.mixer import Mixer, StereoMixer
from klang.audio.oscillators import Chirper, FmOscillator, Lfo, Oscillator, Phasor, PwmOscillator
from klang.audio.sync import Clock
from klang.audio.synthesizer import Kick, MonophonicSynthesizer, PolyphonicSynthesizer
from klang.audio.voices import Voice
from klang.audio.waves import sawtooth, sine, square, triangle
from klang.clock import ClockMixin
from klang.config import BUFFER_SIZE, SAMPLING_RATE
from klang.connections import MessageOutput, MessageRelay
from klang.messages import Note
from klang.music.note_values import EIGHT_NOTE, QUARTER_NOTE, SIXTEENTH_NOTE
from klang.music.rhythm import MicroRhyhtm
from klang.note_effects import MaxNotes, MessageMixer, NoteLengthener
from klang.sequencer import PatternLookup, PizzaSlicer, Sequencer
from vlib.core import Scenario, describe
from vlib.util import Sink

PROPERTY = 'C23'
RULE = ('blocks of every kind replay a random input script: alone, between other blocks (same and other kinds, built '
        'before, between and after, with equal and other parameters and scripts), as a deep copy, and again at the '
        'end; all recordings have to be equal bit by bit, inputs and shared constants unchanged; distinct = distinct '
        '(block kind, parameters, script); non-trivial = the output changes within the script')
INTERVAL = BUFFER_SIZE / SAMPLING_RATE
WAVES = [sine, sawtooth, square, triangle]


# -- catalog ------------------------------------------------------------------
# Recipes return (factory, kinds of the inputs).  Factories share their
# arguments (lists, arrays, templates): these are not to be modified either.

def rate(rng):
    return rng.choice([QUARTER_NOTE, 1., 5.5, rng.uniform(.1, 30)])


def r_phasor(rng):
    f, p = rate(rng), rng.uniform(0, 6)
    return lambda: Phasor(f, startPhase=p), ['rate']


def r_oscillator(rng):
    f, w, p = rng.uniform(20, 5000), rng.choice(WAVES), rng.choice([0., 1.])
    return lambda: Oscillator(f, wave_func=w, startPhase=p), ['frequency']


def r_lfo(rng):
    f, w, s, o = rate(rng), rng.choice(WAVES), rng.choice([1, BUFFER_SIZE]), rng.choice([(0, 1), (-3., 2.), [1., 0.]])
    return lambda: Lfo(f, wave_func=w, shape=s, outputRange=o), ['rate']


def r_fm(rng):
    f, i, m = rng.uniform(20, 5000), rng.uniform(0, 10), rng.choice([rng.uniform(1, 100), rng.uniform(100, 8000)])
    return lambda: FmOscillator(f, i, m), ['frequency']


def r_pwm(rng):
    f, d = rng.uniform(20, 5000), rng.uniform(.05, .95)
    return lambda: PwmOscillator(f, d), ['frequency']


def r_chirper(rng):
    a, t, b = rng.uniform(20, 500), rng.uniform(.01, .1), rng.uniform(20, 500)
    m = rng.choice(['linear', 'quadratic', 'logarithmic', 'hyperbolic'])
    return lambda: Chirper(a, t, b, m), []


def r_clock(rng):
    f, d, e = rng.uniform(1, 50), rng.uniform(.05, .9), rng.choice(['rising', 'falling'])
    return lambda: Clock(f, d, e), []


def r_gain(rng):
    g = rng.uniform(-2, 2)
    return lambda: Gain(g), ['audio', 'control']


def r_tremolo(rng):
    f, d, s, c = rate(rng), rng.random(), rng.random(), rng.uniform(.2, .8)
    return lambda: Tremolo(f, d, s, c), ['audio']


def r_delay(rng):
    t, f, m = rng.choice([.0001, .003, .01, .05]), rng.uniform(0, .9), rng.random()
    return lambda: Delay(t, f, m), ['mono']


def r_stereo_delay(rng):
    t, u, f, m = rng.uniform(.0001, .05), rng.uniform(.0001, .05), rng.uniform(0, .9), rng.random()
    return lambda: StereoDelay(t, u, f, f / 2, m), ['stereo']


def r_splitter(rng):
    return lambda: AudioSplitter(2), ['stereo']


def r_combiner(rng):
    n = rng.randrange(1, 4)
    return lambda: AudioCombiner(n), n * ['mono']


def r_filter(rng):
    kw = rng.choice([dict(frequency=500.), dict(frequency=2000., btype='highpass')])
    return lambda: Filter(**kw), ['audio' if rng.random() < .5 else 'mono', 'cutoff']


def r_subsampler(rng):
    f = rng.choice([2, 8, 64])
    return lambda: Subsampler(f), ['audio']


def r_bitcrusher(rng):
    n = rng.randrange(1, 16)
    return lambda: Bitcrusher(n), ['audio']


def r_distortion(rng):
    return rng.choice([OctaveDistortion, TanhDistortion]), ['audio']


def r_pitch_shifter(rng):
    s, d = rng.choice([.5, 2., 1.3]), rng.random()
    return lambda: PitchShifter(s, d, mode='linear'), ['mono']


def r_transformer(rng):
    a, b = rng.uniform(-2, 2), rng.uniform(-2, 2)
    return rng.choice([lambda: Transformer(a, b), lambda: Transformer.from_limits(a, a + 1)]), ['audio']


def r_reverb(rng):
    d, p, m = rng.uniform(.1, 2), rng.uniform(.001, .02), rng.random()
    kw = {'echoType': EchoFilter} if rng.random() < .3 else {}
    return lambda: Reverb(d, p, m, nEchos=3, **kw), ['mono']


def r_ring_modulator(rng):
    f, r, a = rng.uniform(50, 500), rate(rng), rng.uniform(0, 20)
    return lambda: RingModulator(f, r, a), ['audio']


def r_mixer(rng):
    n = rng.randrange(1, 4)
    gains = [rng.random() for _ in range(n)] if rng.random() < .6 else None
    more = rng.random() < .5

    def new():
        mixer = Mixer(n, gains)
        if more:
            mixer.add_new_channel(.5)
        return mixer

    return new, n * ['mono']


def r_stereo_mixer(rng):
    n = rng.randrange(1, 4)
    gains = [rng.random() for _ in range(n)] if rng.random() < .6 else None
    pan = [rng.uniform(-1, 1) for _ in range(n)] if rng.random() < .6 else None
    mode = rng.choice(['linear', 'constant_power', 'mixture'])
    more = rng.random() < .5

    def new():
        mixer = StereoMixer(n, gains, pan, mode=mode)
        if more:
            mixer.add_new_channel(.5, .5)
        return mixer

    return new, n * ['mono']


def envelope(rng):
    a, d, s, r = (rng.choice([0., .005, .02]) for _ in range(4))
    kw = dict(retrigger=rng.random() < .3, loop=rng.random() < .2)
    return rng.choice([lambda: ADSR(a, d, rng.random() * 0 + .6, r, **kw), lambda: AR(a, r, **kw), lambda: D(d + .001, **kw),
                       lambda: R(r, **kw)])


def r_envelope(rng):
    return envelope(rng), ['notes']


def r_kick(rng):
    f, d = rng.uniform(30, 80), rng.uniform(.01, .5)
    return lambda: Kick(f, d), ['notes']


def r_mono_synth(rng):
    env, w, policy = envelope(rng), rng.choice(WAVES), rng.choice(['newest', 'oldest', 'lowest', 'highest'])
    return lambda: MonophonicSynthesizer(Voice(Oscillator(wave_func=w), env()), policy), ['notes']


def r_poly_synth(rng):
    env, w = envelope(rng), rng.choice(WAVES)
    template = Voice(Oscillator(wave_func=w), env())
    return lambda: PolyphonicSynthesizer(template), ['notes']


def r_pizza(rng):
    n = rng.randrange(1, 9)
    return lambda: PizzaSlicer(n), ['phase']


PATTERN = [60, 0, Note(64, .5), (67, 71), None, 62]


def pattern(rng):
    return [rng.choice(PATTERN) for _ in range(rng.randrange(1, 8))]


def r_lookup(rng):
    p = [60 + i for i in range(8)]
    return lambda: PatternLookup(p), ['indices']


def r_sequencer(rng):
    p = [[rng.choice([60, 62, 0, 64]) for _ in range(4)] for _ in range(rng.randrange(1, 3))]
    tempo, length, split = rng.uniform(200, 2000), rng.uniform(.1, .9), rng.random() < .5
    micro = rng.random() < .4
    notes = [EIGHT_NOTE, SIXTEENTH_NOTE]

    def new():
        seq = Sequencer(p, tempo=tempo, relNoteLength=length, splitOutputs=split)
        if micro:
            seq.apply_micro_rhythm(MicroRhyhtm(notes), 0)
        return seq

    return new, []


def r_micro_rhythm(rng):
    notes = [rng.choice([EIGHT_NOTE, SIXTEENTH_NOTE, QUARTER_NOTE]) for _ in range(rng.randrange(1, 5))]
    p = rng.random()
    return lambda: MicroRhyhtm(notes, phrasing=p), ['phase', 'control']


def r_arpeggiator(rng):
    t, order = rng.uniform(.005, .05), rng.choice(['up', 'down', 'upDown', 'downUp', 'alternating'])
    initial = [Note(60), Note(72), Note(66)][:rng.randint(1, 3)] if rng.random() < .6 else rng.choice([None, []])
    return lambda: Arpeggiator(t, order, initialNotes=initial), ['notes']


def r_lengthener(rng):
    t = rng.uniform(0, .1)
    return lambda: NoteLengthener(t), ['notes']


def r_max_notes(rng):
    n = rng.randrange(1, 4)
    return lambda: MaxNotes(n), ['notes']


def r_message_mixer(rng):
    n = rng.randrange(1, 4)
    return lambda: MessageMixer(n), n * ['notes']


CATALOG = {name[2:]: f for name, f in sorted(globals().items()) if name.startswith('r_')}
SLOW = {'filter'}
COPYABLE = {'phasor', 'oscillator', 'lfo', 'fm', 'pwm', 'envelope', 'chirper', 'mono_synth', 'poly_synth', 'kick'}


# -- scripts ------------------------------------------------------------------

class Players:
    """Consistent streams of inputs of the kinds above."""

    def __init__(self, rng, kinds, length):
        nrng = np.random.RandomState(rng.randrange(2 ** 31))
        self.steps = []
        held = {}
        width = {k: rng.random() < .5 for k in range(len(kinds))}   # mono / stereo, per input
        for n in range(length):
            step = {}
            for k, kind in enumerate(kinds):
                if kind in ('mono', 'stereo', 'audio'):
                    stereo = kind == 'stereo' or (kind == 'audio' and width[k])
                    x = nrng.uniform(-1, 1, (2, BUFFER_SIZE) if stereo else BUFFER_SIZE)
                    if rng.random() < .1:
                        x = x * 0
                    x.setflags(write=False)
                    step[k] = x
                elif kind == 'notes':
                    notes = []
                    for _ in range(rng.choice([0, 0, 1, 1, 2])):
                        pitch = rng.randrange(55, 65)
                        on = held.get((k, pitch), False)
                        held[k, pitch] = not on
                        note = Note(pitch, rng.uniform(.1, 1))
                        notes.append(note.silence() if on else note)
                    step[k] = notes
                elif kind == 'indices':
                    step[k] = [rng.randrange(8)] if rng.random() < .5 else []
                elif kind == 'phase':
                    step[k] = (n * .37) % (2 * np.pi)
                elif rng.random() < .3 or n == 0:
                    step[k] = {'control': lambda: rng.random(),
                               'rate': lambda: rng.uniform(.1, 50), 'frequency': lambda: rng.uniform(20, 5000),
                               'cutoff': lambda: rng.uniform(100, 8000)}[kind]()
            self.steps.append(step)


def feed(block, step):
    for k, value in step.items():
        if isinstance(value, list):
            for msg in value:
                block.inputs[k].push(msg)
        else:
            block.inputs[k].set_value(value)


class Run:
    """One instance on its way through a script."""

    def __init__(self, block, script):
        self.block, self.script = block, script
        self.sinks = {}
        for k, output in enumerate(block.outputs):
            if isinstance(output, (MessageOutput, MessageRelay)):
                self.sinks[k] = Sink()
                output.connect(self.sinks[k])
        self.n = 0
        self.recording = []

    @property
    def done(self):
        return self.n >= len(self.script.steps)

    def step(self):
        ClockMixin.set_current_time(self.n * INTERVAL)
        feed(self.block, self.script.steps[self.n])
        self.block.update()
        row = []
        for k, output in enumerate(self.block.outputs):
            if k in self.sinks:
                row.append([tuple(m) if isinstance(m, Note) else m for m in self.sinks[k].receive()])
            else:
                value = output.value
                row.append(np.array(value, copy=True) if isinstance(value, np.ndarray) else value)
        self.recording.append(row)
        self.n += 1

    def finish(self):
        while not self.done:
            self.step()
        return self.recording


def equal(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')
    return a == b or (a != a and b != b)


def compare(mon, expected, got, mechanism, text):
    for n, (x, y) in enumerate(zip(expected, got)):
        for k, (a, b) in enumerate(zip(x, y)):
            if equal(a, b):
                mon.check(True, mechanism)
            else:
                mon.check(False, mechanism, '%s: output %d of update %d: %s instead of %s', text, k, n,
                          describe(b, 120), describe(a, 120))


def frozen(value):
    """Comparable image of plain arguments (lists, arrays, notes)."""
    if isinstance(value, np.ndarray):
        return value.shape, str(value.dtype), value.tobytes()
    if isinstance(value, (list, tuple)):
        return type(value).__name__, [frozen(v) for v in value]
    if isinstance(value, dict):
        return [(k, frozen(v)) for k, v in value.items()]
    return repr(value) if isinstance(value, (int, float, str, np.generic)) else None


def arguments(factory):
    return [frozen(cell.cell_contents) for cell in getattr(factory, '__closure__', None) or ()]


def constants():
    values = [helpers.MONO_SILENCE, helpers.STEREO_SILENCE, helpers.T, helpers.get_silence(BUFFER_SIZE),
              helpers.get_silence((2, BUFFER_SIZE)), helpers.get_time(BUFFER_SIZE), helpers.get_time(10),
              PitchShifter.WINDOW]
    return [np.asarray(v).tobytes() for v in values]


CONSTANTS = constants()


def pick(rng, name=None):
    name = name or rng.choice([n for n in CATALOG if n not in SLOW])
    factory, kinds = CATALOG[name](rng)
    return name, factory, kinds


def independence(rng, mon, name=None):
    name, factory, kinds = pick(rng, name)
    length = rng.randrange(3, 12)
    script = Players(rng, kinds, length)
    digest = [[v.tobytes() for v in s.values() if isinstance(v, np.ndarray)] for s in script.steps]
    given = arguments(factory)
    text = '%s with %s' % (name, describe({k: v for k, v in script.steps[0].items() if not isinstance(v, np.ndarray)}, 100))
    reference = Run(factory(), script).finish()
    # in company
    neighbors = []
    for _ in range(rng.randrange(1, 4)):
        kind = rng.random()
        if kind < .4:
            neighbors.append(Run(factory(), Players(rng, kinds, length)))
        elif kind < .8:
            _, other, otherKinds = pick(rng, name)
            neighbors.append(Run(other(), Players(rng, otherKinds, length)))
        else:
            _, other, otherKinds = pick(rng)
            neighbors.append(Run(other(), Players(rng, otherKinds, length)))
    mon.event('neighbors', len(neighbors))
    run = Run(factory(), script)
    late = rng.randrange(length)
    while not run.done:
        queue = [run] + [x for x in neighbors if not x.done]
        rng.shuffle(queue)
        for x in queue:
            x.step()
        if run.n == late:
            _, other, otherKinds = pick(rng, name)
            neighbors.append(Run(other(), Players(rng, otherKinds, length)))
    compare(mon, reference, run.recording, 'depends-on-others', text)
    # afterwards
    compare(mon, reference, Run(factory(), script).finish(), 'not-repeatable', text)
    if name in COPYABLE:
        original = factory()
        twin = copy.deepcopy(original)
        third = copy.deepcopy(original)
        compare(mon, reference, Run(original, script).finish(), 'copy-differs', text + ' (original)')
        compare(mon, reference, Run(twin, script).finish(), 'copy-differs', text + ' (copy)')
        a, b = Run(third, script), Run(copy.deepcopy(third), Players(rng, kinds, length))
        while not a.done:
            for x in rng.sample([a, b], 2):
                x.step()
        compare(mon, reference, a.recording, 'copy-differs', text + ' (copy next to its own copy)')
        mon.event('copies', 2)
    mon.check([[v.tobytes() for v in s.values() if isinstance(v, np.ndarray)] for s in script.steps] == digest,
              'input-modified', text)
    mon.check(arguments(factory) == given, 'argument-modified', '%s: %s', text, given)
    mon.event('arguments', sum(isinstance(g, (list, tuple)) for g in given))
    mon.check(constants() == CONSTANTS, 'constant-modified', 'shared constants changed by %s', text)
    mon.event('updates', 3 * length)
    mon.event('kind:' + name)
    mon.case(name, text, length, digest,
             nontrivial=any(not all(map(equal, reference[0], row)) for row in reference[1:]))


def filters(rng, mon):
    """Filters compute large tables: few cases."""
    independence(rng, mon, 'filter')


SCENARIOS = [
    Scenario(independence, 900, 20000),
    Scenario(filters, 3, 150),
]
REQUIRED_EVENTS = dict({'arguments': 100, 'updates': 2000, 'neighbors': 300, 'copies': 50}, **{'kind:' + n: 3 for n in CATALOG if n not in SLOW})
REQUIRED_EVENTS['kind:filter'] = 1
