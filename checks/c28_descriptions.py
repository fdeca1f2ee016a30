"""C28: looking at blocks (printing, introspection, plotting) shows the truth and changes nothing."""
import contextlib
from fractions import Fraction
import io
import logging
import math
import os
import re
import tempfile
import wave

os.environ['MPLCONFIGDIR'] = os.environ['VERIF_SCRATCH']
logging.getLogger('matplotlib').setLevel(logging.WARNING)
import matplotlib                   # noqa: E402
matplotlib.use('Agg')
import matplotlib.pyplot as plt     # noqa: E402
import numpy as np                  # noqa: E402

from klang.arpeggiator import Arpeggio          # noqa: E402
from klang.audio.effects import Gain            # noqa: E402
from klang.audio.envelopes import ADSR          # noqa: E402
from klang.audio.oscillators import FmOscillator, Lfo, Oscillator, Phasor, PwmOscillator    # noqa: E402
from klang.audio.sampling import AudioFile      # noqa: E402
from klang.block import (                       # noqa: E402
    Block, collect_connections, input_connections, input_neighbors, output_connections, output_neighbors,
)
from klang.composite import Composite           # noqa: E402
from klang.config import BUFFER_SIZE            # noqa: E402
from klang.connections import Input, MessageInput, MessageOutput, MessageRelay, Output, Relay   # noqa: E402
from klang.execution import determine_execution_order, print_exec_order     # noqa: E402
from klang.messages import Note                 # noqa: E402
from klang.music.note_values import Tuplet      # noqa: E402
from klang.music.rhythm import MicroRhyhtm      # noqa: E402
from klang.music.tunings import Temperament     # noqa: E402
from klang.plotting import plot_metre, plot_scale_in_circle_of_fifth, set_radian_xticks     # noqa: E402
from klang.ring_buffer import RingBuffer        # noqa: E402
from klang.sequencer import PizzaSlicer, Sequencer      # noqa: E402
from checks.c23_independence import CATALOG, SLOW, Players, Run, compare    # noqa: E402
from vlib.core import Scenario, describe        # noqa: E402
from vlib.util import rate_of                   # noqa: E402

PROPERTY = 'C28'
RULE = ('all kinds of blocks looked at (str, repr, neighbors, connections, execution order) between their updates, '
        'compared bit by bit with a run nobody looked at; descriptions of random objects in random states compared with '
        'what they describe; plots drawn into memory; distinct = distinct objects and states; non-trivial = outputs '
        'change over time, or a state other than the initial one')


def described(mon, thing):
    text = str(thing)
    name = type(thing).__name__
    mon.check(isinstance(text, str) and text.startswith(name + '(') and text.endswith(')'), 'format', '%s: %r', name, text)
    mon.check(isinstance(repr(thing), str), 'format', name)
    mon.event('descriptions')
    return text[len(name) + 1:-1]


def look(mon, block):
    described(mon, block)
    for connection in list(block.inputs) + list(block.outputs):
        described(mon, connection)
    for func in (collect_connections, input_connections, output_connections, input_neighbors, output_neighbors):
        list(func(block))
    with contextlib.redirect_stdout(io.StringIO()):
        print_exec_order(determine_execution_order([block]))
    for inner in getattr(block, 'execOrder', []):
        if isinstance(inner, Block):
            look(mon, inner)
    parts = [v for value in vars(block).values() for v in (value if isinstance(value, list) else [value])]
    for part in parts:     # what the block is made of
        if type(part).__module__.startswith('klang.'):
            mon.check(isinstance(str(part), str) and isinstance(repr(part), str), 'format', '%s of %s', type(part).__name__, block)
            mon.event('parts')


def looking(rng, mon, name=None):
    name = name or rng.choice([n for n in CATALOG if n not in SLOW])
    factory, kinds = CATALOG[name](rng)
    length = rng.randrange(2, 8) if rng.random() < .85 else rng.randrange(8, 60)
    script = Players(rng, kinds, length)
    reference = Run(factory(), script).finish()
    run = Run(factory(), script)
    while not run.done:
        look(mon, run.block)
        run.step()
    look(mon, run.block)
    compare(mon, reference, run.recording, 'changed-by-looking', name)
    mon.event('kind:' + name)
    mon.case('looking', name, describe(script.steps[0]), length,
             nontrivial=any(repr(reference[0]) != repr(row) for row in reference[1:]))


# -- facts --------------------------------------------------------------------

def numbers(text):
    return [float(x) for x in re.findall(r'-?\d+(?:\.\d+)?(?:e-?\d+)?', text)]


def oscillators(rng, mon):
    cls = rng.choice([Phasor, Oscillator, Lfo, FmOscillator, PwmOscillator])
    kind = rng.choice(['float', 'int', 'note', 'numpy', 'array', 'connected', 'lfo'])
    value = {'float': lambda: rng.uniform(-100, 5000), 'int': lambda: rng.randrange(5000),
             'note': lambda: Fraction(rng.randrange(1, 5), 2 ** rng.randrange(5)), 'numpy': lambda: np.float64(rng.uniform(0, 99)),
             'array': lambda: np.full(BUFFER_SIZE, 3.), 'connected': lambda: 440., 'lfo': lambda: 1.}[kind]()
    osc = cls(value)
    if kind == 'connected':
        source = Output()
        value = rng.uniform(0, 1000)
        source.set_value(value)
        source.connect(osc.frequency)
    elif kind == 'lfo':
        lfo = Lfo(3., shape=BUFFER_SIZE, outputRange=(200, 300))
        lfo.output.connect(osc.frequency)
        lfo.update()
    text = described(mon, osc)
    if kind not in ('array', 'lfo'):
        hz = rate_of(value) if isinstance(value, Fraction) else value
        mon.check(numbers(text) and abs(numbers(text)[0] - hz) <= .0501 and 'Hz' in text, 'frequency', '%s of %s Hz: %s',
                  cls.__name__, hz, text)
    elif cls is not Phasor:
        osc.update()
        described(mon, osc)
    mon.case(cls.__name__, kind, repr(value)[:30])


class Named(Block):

    def __init__(self, nInputs, nOutputs, name):
        super().__init__(nInputs, nOutputs)
        self.name = name


def blocks(rng, mon):
    nIn, nOut = (rng.choice([rng.randrange(4), rng.randrange(4), rng.randrange(150)]) for _ in range(2))
    name = rng.choice(['', '', 'foo', "it's", '%s %d'])
    if rng.random() < .5:
        block = Named(nIn, nOut, name)
    else:
        block = Composite(nIn, nOut) if rng.random() < .5 else Block(nIn, nOut)
        name = ''
    text = described(mon, block)
    shown = [{int(n) for n in re.findall(r'(\d+) ' + kind, text)} for kind in ('input', 'output')]
    mon.check(shown == [{n} if n else set() for n in (nIn, nOut)], 'connections',
              '%d inputs %d outputs: %s', nIn, nOut, text)
    mon.check(repr(name) in text if name else 'name' not in text, 'name', '%r: %s', name, text)
    # connections
    pairs = [(Input, Output), (MessageInput, MessageOutput), (Relay, Output), (Input, Relay), (MessageRelay, MessageOutput),
             (MessageInput, MessageRelay), (Relay, Relay)]
    src, dst = [], []
    for a, b in rng.sample(pairs, 3):
        owner = rng.choice([None, block])
        dst.append(a(owner=owner))
        src.append(b(owner=rng.choice([None, block])))
        state = rng.choice(['never', 'on', 'off'])
        if state != 'never':
            src[-1].connect(dst[-1])
        if state == 'off':
            src[-1].disconnect(dst[-1])
        for end in (src[-1], dst[-1]):
            text = described(mon, end)
            if end is dst[-1] or not isinstance(end, (Relay, MessageRelay)):    # relays show their incoming side
                mon.check(('not connected' not in text) == (state == 'on') and 'connected' in text, 'connected', '%s: %s', state,
                          text)
            mon.check((str(block) in text) == (end.owner is not None), 'owner', '%s: %s', end.owner, text)
    mon.case('blocks', nIn, nOut, name, [type(x).__name__ for x in dst], nontrivial=True)


def sequencers(rng, mon):
    patterns = [[rng.randrange(40, 80) for _ in range(rng.randrange(1, 9))] for _ in range(rng.randrange(1, 4))]
    tempo, grid, beat = rng.choice([60, 120, 133.25]), Fraction(1, rng.choice([4, 8, 16])), Fraction(1, rng.choice([2, 4, 8]))
    seq = Sequencer(patterns, tempo=tempo, grid=grid, beatValue=beat)
    text = described(mon, seq)
    mon.check(numbers(text) == [len(patterns)], 'sequencer', '%d patterns: %s', len(patterns), text)
    for pattern, sequence in zip(patterns, seq.sequences):
        text = described(mon, sequence)
        mon.check(numbers(text)[:len(pattern)] == pattern, 'sequence', '%s: %s', pattern, text)
        mon.check('tempo=%.1f' % tempo in text and 'grid=%s' % grid in text and 'beatValue=%s' % beat in text, 'sequence',
                  'tempo %s grid %s beat %s: %s', tempo, grid, beat, text)
    n = rng.randrange(1, 40)
    mon.check(numbers(described(mon, PizzaSlicer(n))) == [n], 'slices', '%d', n)
    notes = [Fraction(rng.randrange(1, 8), rng.choice([3, 4, 8])) for _ in range(rng.randrange(1, 6))]
    phrasing = round(rng.random(), 1)
    rhythm = MicroRhyhtm(notes, phrasing=phrasing, beatValue=beat, name=rng.choice(['', 'groove']))
    text = described(mon, rhythm)
    mon.check('[%s]' % ', '.join(map(str, notes)) in text and '%.1f' % phrasing in text and str(beat) in text
              and ('groove' in text) == (rhythm.name == 'groove'), 'rhythm', '%s %s %s: %s', notes, phrasing, beat, text)
    source = Block(nOutputs=1)
    source.output.set_value(round(1 - phrasing, 1))
    source.output.connect(rhythm.phrasing)   # what counts is the connected value
    mon.check('%.1f' % (1 - phrasing) in described(mon, rhythm), 'rhythm', 'phrasing %.1f: %s', 1 - phrasing, rhythm)
    seq.sequences[0].apply_micro_rhythm(rhythm)
    for _ in range(3):
        seq.update()
    for block in seq.execOrder:
        described(mon, block)
    mon.case('sequencers', patterns, tempo, grid, beat, notes, nontrivial=True)


def values(rng, mon):
    p = {k: rng.choice([0., .1, .25, 1., 2.5]) for k in ('attack', 'decay', 'release')}
    p['sustain'] = rng.choice([0., .5, 1.])
    env = ADSR(p['attack'], p['decay'], p['sustain'], p['release'])
    text = described(mon, env)
    for key, value in p.items():
        found = re.search(key + r'\s*[=:]\s*([\d.]+)', text)
        mon.check(float(found.group(1)) == value if found else value == 0, 'envelope', '%s: %s', p, text)
    capacity = rng.randrange(1, 50)
    length = rng.randrange(1, capacity + 1)
    ring = RingBuffer(length, capacity)
    got = numbers(described(mon, ring))
    mon.check(got == ([length] if capacity == length else [length, capacity]), 'ring', '%d of %d: %s', length, capacity, got)
    if capacity > 1:
        ring.length = capacity - 1
        mon.check(numbers(repr(ring)) == [capacity - 1, capacity], 'ring', '%r', ring)
    note = Note(rng.randrange(128), round(rng.random(), 1), frequency=round(rng.uniform(8, 9000), 1))
    mon.check(np.allclose(numbers(described(mon, note)), tuple(note)), 'note', '%s: %s', tuple(note), note)
    num, den = rng.randrange(2, 12), rng.choice([None, rng.randrange(1, 9)])
    tuplet = Tuplet(num, num * [Fraction(1, 8)], den) if den else Tuplet(num, num * [Fraction(1, 8)])
    names = {2: 'Duplet', 3: 'Triplet', 4: 'Quadruplet', 5: 'Quintuplet', 6: 'Sextuplet', 7: 'Septuplet', 8: 'Octuplet'}
    text = str(tuplet)
    mon.check('%d:%d' % (num, den or num - 1) in text and (num not in names or names[num] in text), 'tuplet', '%d:%s: %s',
              num, den, text)
    kammerton = round(rng.uniform(400, 480), 1)
    name = rng.choice(['', 'well'])
    temperament = Temperament(np.arange(12) * 100, kammerton=kammerton, name=name)
    text = described(mon, temperament)
    mon.check(numbers(text) == [kammerton] and (repr(name) in text if name else "'" not in text), 'temperament', '%s %s: %s',
              name, kammerton, text)
    notes = [Note(q, 1.) for q in rng.sample(range(128), rng.randrange(1, 5))]
    text = described(mon, Arpeggio('up', notes))
    mon.check([int(q) for q in re.findall(r'pitch=(\d+)', text)] == sorted(n.pitch for n in notes), 'arpeggio', '%s: %s',
              [n.pitch for n in notes], text)
    order = rng.choice(['up', 'down', 'upDown', 'downUp', 'alternating'])
    plain, seen = Arpeggio(order, notes), Arpeggio(order, notes)
    for _ in range(rng.randrange(2, 12)):
        text = described(mon, seen)
        mon.check(sorted(int(q) for q in re.findall(r'pitch=(\d+)', text)) == sorted(n.pitch for n in notes), 'arpeggio', '%s: %s',
                  [n.pitch for n in notes], text)
        a, b = next(plain), next(seen)
        mon.check(a == b, 'changed-by-looking', '%s arpeggio: %s instead of %s', order, b, a)
    mon.case('values', p, length, capacity, tuple(note), num, den, kammerton, nontrivial=True)


def files(rng, mon):
    rate = rng.choice([22050, 44100])
    n = rng.randrange(2 * BUFFER_SIZE, 3 * rate)
    handle, path = tempfile.mkstemp(suffix='.wav', dir=os.environ['VERIF_SCRATCH'])
    os.close(handle)
    try:
        with wave.open(path, 'wb') as f:
            f.setnchannels(1)
            f.setsampwidth(2)
            f.setframerate(rate)
            f.writeframes(np.random.randint(-999, 999, n).astype('<i2').tobytes())
        block = AudioFile(path, mode='very_crude')
        history = ''
        for _ in range(rng.randrange(1, 12)):
            action = rng.choice(['play', 'play', 'pause', 'rewind', 'stop', 'update', 'update'])
            history += action + ' '
            getattr(block, action)()
            text = described(mon, block)
            position, duration = numbers(text.split("'")[-1])
            mon.check(abs(duration - n / rate) < .00051 and 0 <= position <= duration, 'file', '%s: %s', history, text)
            mon.check(abs(position - block.playingPosition) < .00051 and abs(block.duration - n / rate) < 1e-9, 'file',
                      '%s: %s', history, text)
            mon.check(abs(position - block.sample.currentIndex / rate) < .00051, 'file', '%s: %s at frame %d of %d Hz',
                      history, text, block.sample.currentIndex, rate)
            mon.check(('Playing' in text) == block.playing and ('Paused' in text) != block.playing and repr(path) in text,
                      'file', '%s: %s', history, text)
            if action in ('rewind', 'stop'):
                mon.check(position == 0, 'file', '%s: %s', history, text)
        mon.case('files', rate, n, history, nontrivial='update' in history)
    finally:
        os.unlink(path)


def exec_order(rng, mon):
    """Numbered list of the blocks in their order."""
    blocks = [rng.choice([Gain(), Oscillator(rng.randrange(999)), Named(1, 1, 'b%d' % k)]) for k in range(rng.randrange(1, 9))]
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        print_exec_order(blocks)
    lines = [line for line in out.getvalue().split('\n') if line.strip()]
    mon.check(len(lines) == len(blocks), 'exec-order', '%d blocks: %s', len(blocks), lines)
    for k, (line, block) in enumerate(zip(lines, blocks), 1):
        mon.check(re.match(r'\D*%d\D' % k, line) is not None and str(block) in line, 'exec-order', 'block %d: %s', k, line)
    mon.case('order', [str(b) for b in blocks], nontrivial=len(blocks) > 1)


# -- plots --------------------------------------------------------------------

NAMES = ['C', 'C#', 'D', 'D#', 'E', 'F', 'F#', 'G', 'G#', 'A', 'A#', 'B']


def circle_plot(rng, mon):
    """The polygon has its corners at the labels of the pitches of the scale;
    the labels run clockwise in fifths from the top."""
    steps = []
    while sum(steps) < 12:
        steps.append(min(rng.choice([1, 1, 2, 2, 3, 4]), 12 - sum(steps)))
    pitches = [sum(steps[:k]) for k in range(len(steps))]
    fig = plt.figure()
    try:
        ax = fig.add_subplot(111, polar=True)
        given = rng.choice([steps, tuple(steps), np.array(steps)])
        polygon = plot_scale_in_circle_of_fifth(given, ax=ax) if rng.random() < .7 else plot_scale_in_circle_of_fifth(given)
        xy = np.asarray(polygon.get_xy())[:len(pitches)]
        ticks = [t % (2 * math.pi) for t in ax.get_xticks()]
        labels = [t.get_text() for t in ax.get_xticklabels()]
        mon.check(len(labels) == 12 == len(ticks) and labels[0] == 'C', 'fifths', '%s', labels)
        for a, b in zip(labels, labels[1:] + labels[:1]):
            mon.check((NAMES.index(b) - NAMES.index(a)) % 12 == 7, 'fifths', '%s', labels)
        mon.check(np.allclose(np.diff(ticks), 2 * math.pi / 12), 'fifths', 'ticks at %s', ticks)
        mon.check(polygon in ax.get_children() and np.allclose(xy[:, 1], 1.), 'polygon', '%s', xy)
        got = []
        for angle in xy[:, 0]:
            distance = [abs(math.remainder(angle - t, 2 * math.pi)) for t in ticks]
            k = min(range(12), key=distance.__getitem__)
            mon.check(distance[k] < 1e-6, 'polygon', 'corner at %s', angle)
            got.append(labels[k])
        mon.check(got == [NAMES[p] for p in pitches], 'polygon', '%s: corners at %s', pitches, got)
        mon.check(ax.get_theta_direction() == -1 and abs(math.remainder(ax.get_theta_offset() - math.pi / 2, 2 * math.pi)) < 1e-9,
                  'fifths', 'not clockwise from north')
        mon.check(list(given) == steps, 'given', 'scale was changed')
    finally:
        plt.close(fig)
    mon.event('plots')
    mon.case('circle', steps, nontrivial=True)


def axis_plots(rng, mon):
    fig = plt.figure()
    try:
        ax = fig.add_subplot(111)
        metre = Fraction(rng.randrange(1, 14), rng.choice([2, 4, 8, 16]), _normalize=False)
        plot_metre(ax, metre)
        at = sorted(float(np.asarray(line.get_xdata())[0]) for line in ax.lines)
        want = [2 * math.pi * k / metre.numerator for k in range(metre.numerator)]
        mon.check(np.allclose(at, want) if len(at) == len(want) else False, 'metre-lines', '%s: lines at %s', metre, at)
        n = rng.choice([1, 2, 3, 4, 6, 8])
        ticks = [k * 2 * math.pi / n for k in range(rng.randrange(1, 2 * n + 2))]
        ax.set_xticks(ticks)
        set_radian_xticks(ax)
        labels = [t.get_text() for t in ax.get_xticklabels()]
        mon.check(len(labels) == len(ticks), 'radian-ticks', '%d ticks: %s', len(ticks), labels)
        for k, label in enumerate(labels):
            worth = Fraction(k, n)
            found = re.search(r'frac\{(.*?)\}\{(\d+)\}', label)
            if worth == 0:
                ok = numbers(label) == [0.]
            elif found:
                top = found.group(1)
                ok = Fraction(int(top) if top.isdigit() else 1, int(found.group(2))) == worth and 'tau' in label
            else:
                ok = worth == (int(numbers(label)[0]) if numbers(label) else 1) and 'tau' in label
            mon.check(ok, 'radian-ticks', 'tick at %s turns labelled %s', worth, label)
        mon.case('axis', str(metre), n, len(ticks), nontrivial=True)
    finally:
        plt.close(fig)
    mon.event('plots')


SCENARIOS = [
    Scenario(looking, 250, 8000),
    Scenario(oscillators, 200, 4000),
    Scenario(blocks, 200, 4000),
    Scenario(sequencers, 100, 2000),
    Scenario(values, 200, 4000),
    Scenario(files, 60, 1500),
    Scenario(exec_order, 60, 1000),
    Scenario(circle_plot, 25, 300),
    Scenario(axis_plots, 25, 300),
]
REQUIRED_EVENTS = dict({'descriptions': 3000, 'plots': 40}, **{'kind:' + n: 1 for n in CATALOG if n not in SLOW})
