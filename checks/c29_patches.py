"""C29: a patch renders what its blocks and connections say, however it is written down."""
import contextlib
import io
import logging
import os
import random
import runpy
import types
import wave

import numpy as np

from klang.audio.klanggeber import Dac
from klang.audio.mixer import Mixer
from klang.audio.oscillators import Lfo, Oscillator
from klang.audio.sampling import AudioFile
from klang.audio.synthesizer import HiHat
from klang.audio.waves import random as random_wave
from klang.audio.wavfile import write_wave
from klang.block import Block
from klang.clock import ClockMixin
from klang.composite import Composite
from klang.config import BUFFER_SIZE, SAMPLING_RATE
from klang.connections import (
    Input, MessageInput, MessageOutput, MessageRelay, Relay, RelayBase,
)
import klang.klang as main
from klang.messages import Note
from klang.progress_bar import ProgressBar
from checks.c23_independence import CATALOG, WAVES, equal, feed
from vlib.core import Scenario, describe
from vlib.util import Sink

PROPERTY = 'C29'
RULE = ('random feedback-free patches of all kinds of blocks rendered by run_klang: written down in several ways (order '
        'of creation and connection, methods and operators, starting blocks, listeners, other patches, bundled parts, '
        'duration), all recordings of all blocks equal bit by bit, every block alone repeats its recording on its '
        'recorded inputs, every input shows the output of its source of the same cycle, file = recorded channels; the '
        'example patches with note and level monitors; distinct = distinct patches; non-trivial = sound was rendered')
INTERVAL = BUFFER_SIZE / SAMPLING_RATE
SCRATCH = os.environ.get('VERIF_SCRATCH', '/tmp')
AUDIO = ('mono', 'stereo')
MESSAGES = ('notes', 'indices')


# -- descriptions -------------------------------------------------------------

class Script(Block):
    """Plays given values or messages, one per update."""

    def __init__(self, values, messages):
        super().__init__(nOutputs=0 if messages else 1)
        if messages:
            self.outputs = [MessageOutput(owner=self)]
        self.values, self.messages, self.n = values, messages, 0

    def update(self):
        value = self.values[self.n % len(self.values)]
        self.n += 1
        if self.messages:
            for msg in value:
                self.output.send(msg)
        else:
            self.output.set_value(value)


class Node:

    def __init__(self, name, factory, kinds, outs, noisy=False):
        self.name, self.factory, self.kinds, self.outs, self.noisy = name, factory, kinds, outs, noisy
        self.sources = [None] * len(kinds)


OUTS = {
    'phasor': ['phase'], 'oscillator': ['mono'], 'fm': ['mono'], 'pwm': ['mono'], 'chirper': ['mono'], 'gain': 'same',
    'tremolo': 'same', 'delay': ['mono'], 'stereo_delay': ['stereo'], 'splitter': ['mono', 'mono'], 'combiner': 'width',
    'filter': 'same', 'subsampler': 'same', 'bitcrusher': 'same', 'distortion': 'same', 'transformer': 'same',
    'pitch_shifter': ['mono'], 'reverb': ['mono'], 'ring_modulator': 'same', 'mixer': ['mono'], 'stereo_mixer': ['stereo'],
    'envelope': ['mono'], 'kick': ['mono'], 'mono_synth': ['mono'], 'poly_synth': ['mono'], 'pizza': ['indices'],
    'lookup': ['notes'], 'sequencer': 'notes', 'micro_rhythm': ['phase'], 'arpeggiator': ['notes'], 'lengthener': ['notes'],
    'max_notes': ['notes'], 'message_mixer': ['notes'],
}
RANGES = {'control': (0., 1.), 'rate': (1., 40.), 'frequency': (50., 2000.), 'cutoff': (150., 4000.)}


def note_script(rng, length):
    held, rows = set(), []
    for _ in range(length):
        row = []
        for _ in range(rng.choice([0, 0, 1, 2])):
            pitch = rng.randrange(55, 63)
            note = Note(pitch, rng.uniform(.1, 1))
            row.append(note.silence() if pitch in held else note)
            held ^= {pitch}
        rows.append(row)
    return rows


def source(rng, kind):
    """A block without inputs which plays the kind."""
    if kind == 'notes':
        if rng.random() < .5:
            return Node('sequencer', *CATALOG['sequencer'](rng), outs='notes')
        rows = note_script(rng, rng.randrange(3, 20))
        return Node('note script', lambda: Script(rows, True), [], ['notes'])
    if kind == 'indices':
        rows = [[rng.randrange(8)] if rng.random() < .6 else [] for _ in range(rng.randrange(2, 9))]
        return Node('index script', lambda: Script(rows, True), [], ['indices'])
    if kind == 'phase':
        return Node('phasor', *CATALOG['phasor'](rng), outs=['phase'])
    if kind in RANGES:
        lo, hi = RANGES[kind]
        f, w = rng.uniform(1., 60.), rng.choice(WAVES)
        return Node('lfo', lambda: Lfo(f, wave_func=w, outputRange=(lo, hi)), ['rate'], [kind])
    if kind == 'stereo' and rng.random() < .5:
        x = np.random.RandomState(rng.randrange(2 ** 31)).uniform(-1, 1, (4, 2, BUFFER_SIZE))
        x.setflags(write=False)
        return Node('stereo script', lambda: Script(x, False), [], ['stereo'])
    if kind == 'stereo':
        path = os.path.join(SCRATCH, 'patch-%08x.wav' % rng.randrange(2 ** 32))
        write_wave(np.random.RandomState(rng.randrange(2 ** 31)).uniform(-1, 1, (rng.randrange(300, 3000), 2)), path)
        loop, speed = rng.random() < .5, rng.choice([1., .5, 1.3])

        def new():
            block = AudioFile(path, loop=loop, playbackSpeed=speed)
            block.play()
            return block

        return Node('audio file', new, [], ['stereo'])
    name = rng.choice(['oscillator', 'fm', 'pwm', 'chirper'])
    return Node(name, *CATALOG[name](rng), outs=OUTS[name])


class Patch:
    """A feedback-free patch: nodes in an order with producers first."""

    def __init__(self, rng, size, names):
        self.rng = rng
        self.nodes = []
        noisy = False
        for _ in range(size):
            name = rng.choice(names)
            if name == 'noise':
                if noisy:
                    continue
                noisy = True
                if rng.random() < .5:
                    self.add(Node('hihat', lambda: HiHat(.02), ['notes'], ['mono'], True))
                else:
                    self.add(Node('noise', lambda: Oscillator(wave_func=random_wave), ['frequency'], ['mono'], True))
            elif name == 'plus':
                n = rng.randrange(2, 5)
                self.add(Node('plus', lambda n=n: Mixer(n), n * ['mono'], ['mono']))
            else:
                factory, kinds = CATALOG[name](rng)
                self.add(Node(name, factory, kinds, OUTS[name]))
        self.finish()

    def pool(self, kind):
        kinds = AUDIO if kind == 'audio' else [kind]
        return [(i, k) for i, n in enumerate(self.nodes) for k, out in enumerate(n.outs) if out in kinds]

    def add(self, node):
        rng = self.rng
        for k, kind in enumerate(node.kinds):
            optional = kind in RANGES or kind in MESSAGES
            if optional and rng.random() < .4:
                continue
            have = self.pool(kind)
            if not have or rng.random() < .2:
                self.add(source(rng, rng.choice(AUDIO) if kind == 'audio' else kind))
                have = self.pool(kind)
            # fresh outputs are preferred: long chains
            node.sources[k] = have[-1] if rng.random() < .5 else rng.choice(have)
        if node.outs == 'same':
            node.outs = [self.nodes[node.sources[0][0]].outs[node.sources[0][1]]]
        elif node.outs == 'width':
            node.outs = [{2: 'stereo'}.get(len(node.kinds), 'wide')]
        elif node.outs == 'notes':
            node.outs = len(node.factory().outputs) * ['notes']
        self.nodes.append(node)

    def finish(self):
        """Add the sound card, keep what belongs to its network."""
        rng = self.rng
        have = self.pool('audio') + self.pool('wide')
        if not have:
            self.add(source(rng, 'mono'))
            have = self.pool('audio')
        used = {src for n in self.nodes for src in n.sources}
        loose = [h for h in have if h not in used] or have
        count = rng.randrange(1, 5)
        dac = Node('dac', lambda: Dac(count), count * ['any'], [])
        for k in range(rng.randint(1, count)):
            dac.sources[k] = rng.choice(loose if rng.random() < .7 else have)
        self.nodes.append(dac)
        keep = {len(self.nodes) - 1}
        while True:
            more = set()
            for i, node in enumerate(self.nodes):
                sources = {s[0] for s in node.sources if s}
                if i in keep:
                    more |= sources
                elif sources & keep:
                    more.add(i)
            if more <= keep:
                break
            keep |= more
        index = {old: new for new, old in enumerate(sorted(keep))}
        nodes = [self.nodes[old] for old in sorted(keep)]
        for node in nodes:
            node.sources = [s and (index[s[0]], s[1]) for s in node.sources]
        self.nodes = nodes

    @property
    def edges(self):
        return [(s[0], s[1], i, k) for i, n in enumerate(self.nodes) for k, s in enumerate(n.sources) if s]

    def __str__(self):
        return '; '.join('%d %s%s' % (i, n.name, [s for s in n.sources] or '') for i, n in enumerate(self.nodes))


# -- rendering ----------------------------------------------------------------

def image(value):
    return np.array(value, copy=True) if isinstance(value, np.ndarray) else value


class Recorder:
    """Records what goes into and out of the blocks of a patch."""

    def __init__(self):
        self.rows = {}

    def watch(self, key, block, node):
        rows = self.rows.setdefault(key, [])
        received = {}
        for k, input_ in enumerate(block.inputs):
            if isinstance(input_, MessageInput):
                received[k] = []
                self.tap(input_, received[k])
        original = block.update

        def update():
            row = {}
            for k, src in enumerate(node.sources):
                if k in received:
                    row[k] = received[k][:]
                    del received[k][:]
                elif src is not None:
                    row[k] = image(block.inputs[k].value)
            now = ClockMixin.clock()
            original()
            rows.append((now, row, [None if isinstance(o, (MessageOutput, MessageRelay)) else image(o.value)
                                    for o in block.outputs]))

        block.update = update

    @staticmethod
    def tap(input_, log):
        original = input_.push

        def push(message):
            log.append(message)
            original(message)

        input_.push = push


def is_message(port):
    return isinstance(port, (MessageInput, MessageOutput, MessageRelay))


def connect(rng, output, input_):
    # between two relays the method decides on the direction
    relays = isinstance(output, RelayBase) and isinstance(input_, RelayBase)
    if relays or rng.random() < .5:
        output.connect(input_)
    else:
        input_.connect(output)


def topological(rng, patch):
    """A random order with producers first."""
    left = {i: {s[0] for s in n.sources if s} for i, n in enumerate(patch.nodes)}
    order = []
    while left:
        ready = [i for i, need in left.items() if not need & set(left)]
        i = rng.choice(ready)
        order.append(i)
        del left[i]
    return order


def assemble(rng, patch, recorder, style):
    """Build the patch in some way.  Returns the outermost blocks."""
    blocks = {}
    ids = list(range(len(patch.nodes)))
    if style['shuffle']:
        rng.shuffle(ids)
    operators = set()
    if style['operators']:
        for i, node in enumerate(patch.nodes):
            if node.name == 'plus' and not any(isinstance(patch.nodes[s[0]].factory(), Mixer) for s in node.sources[:1]) \
                    and node.sources[0][1] == 0:
                operators.add(i)
    for i in ids:
        if i not in operators:
            blocks[i] = patch.nodes[i].factory()
    edges = [e for e in patch.edges if e[2] not in operators]
    if style['shuffle']:
        rng.shuffle(edges)
    for i in sorted(operators):
        (first, _), *others = patch.nodes[i].sources
        mixer = None
        for src, k in others:
            operand = blocks[src] if k == 0 and rng.random() < .6 else blocks[src].outputs[k]
            if mixer is None:
                mixer = blocks[first] + operand
            elif rng.random() < .5:
                mixer += operand
            else:
                mixer = mixer + operand
        blocks[i] = mixer
    inner = set()
    if style['bundle']:
        order = [i for i in topological(rng, patch) if i != len(patch.nodes) - 1]
        if len(order) > 1:
            a = rng.randrange(len(order) - 1)
            inner = set(order[a:rng.randrange(a + 1, len(order)) + 1])
        # operators made their connections already
        if inner & operators or any(s and s[0] in inner for i in operators for s in patch.nodes[i].sources):
            inner = set()
    bundle = Composite() if inner else None
    relays, share = {}, rng.random() < .5
    outer = []
    for src, k, dst, j in edges:
        output, input_ = blocks[src].outputs[k], blocks[dst].inputs[j]
        if (src in inner) == (dst in inner):
            outer.append((output, input_, src, k, dst, j))
            continue
        into = dst in inner
        key = (into, src, k) if share else (into, src, k, dst, j)
        if key not in relays:
            relays[key] = (MessageRelay if is_message(output) else Relay)(owner=bundle)
            (bundle.inputs if into else bundle.outputs).append(relays[key])
            outer.append((output, relays[key], None, 1, None, 1))
        outer.append((relays[key], input_, None, 1, None, 1))
    for output, input_, src, k, dst, j in outer:
        if k == 0 and j == 0 and style['operators'] and rng.random() < .7:
            way = rng.randrange(3)
            left = blocks[src] if way < 2 else output
            right = blocks[dst] if way != 1 else input_
            if not isinstance(left, Block) and not isinstance(right, Block):
                right = blocks[dst]
            result = left | right
            assert result is blocks[dst]
        else:
            connect(rng, output, input_)
    for i, block in blocks.items():
        recorder.watch(i, block, patch.nodes[i])
    tops = [block for i, block in blocks.items() if i not in inner]
    if bundle:
        bundle.update_internal_exec_order(*[blocks[i] for i in inner])
        tops.append(bundle)
    if style['listeners']:
        for _ in range(rng.randrange(1, 6)):
            block = rng.choice(list(blocks.values()))
            if block.outputs:
                output = rng.choice(block.outputs)
                owner = Block() if rng.random() < .5 else None
                if is_message(output):
                    listener = MessageInput(owner=owner)
                else:
                    listener = Input(owner=owner)
                if owner:
                    owner.inputs = [listener]
                output.connect(listener)
    return tops, bundle


class Problems(logging.Handler):

    def __init__(self):
        super().__init__(logging.WARNING)
        self.records = []

    def emit(self, record):
        self.records.append(record.getMessage())


@contextlib.contextmanager
def quiet():
    root = logging.getLogger()
    handler = Problems()
    root.addHandler(handler)
    level = root.level
    root.setLevel(logging.WARNING)
    ProgressBar.stream, stream = io.StringIO(), ProgressBar.stream
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            yield handler.records
    finally:
        ProgressBar.stream = stream
        root.removeHandler(handler)
        root.setLevel(level)


def render(blocks, nBuffers, path):
    """Run klang offline; returns (samples of the file, logged problems)."""
    with quiet() as problems:
        main.run_klang(*blocks, duration=(nBuffers + .5) * INTERVAL, filepath=path, offline=True)
    with wave.open(path, 'rb') as wav:
        raw = wav.readframes(-1)
        samples = np.frombuffer(raw, np.int16).reshape(-1, wav.getnchannels())
    os.remove(path)
    return samples, problems


def compare_rows(mon, patch, reference, rows, mechanism, text):
    """All blocks have the same recording (up to the shorter one)."""
    for i, node in enumerate(patch.nodes):
        for n, (x, y) in enumerate(zip(reference[i], rows[i])):
            same = x[0] == y[0] and len(x[2]) == len(y[2]) and all(map(equal, x[2], y[2])) and set(x[1]) == set(y[1]) \
                and all(equal(x[1][k], y[1][k]) for k in x[1])
            if not same:
                mon.check(False, mechanism, '%s: block %d (%s), cycle %d: %s instead of %s; patch %s', text, i, node.name, n,
                          describe(y, 120), describe(x, 120), patch)
        mon.check(True, mechanism)


def flow(mon, patch, rows):
    """Every block alone, on what it received; every input shows its source."""
    sent = {}
    for i, node in enumerate(patch.nodes):
        if node.noisy or not node.outs:
            continue
        alone = node.factory()
        sinks = {}
        for k, output in enumerate(alone.outputs):
            if is_message(output):
                sinks[k] = Sink()
                output.connect(sinks[k])
        for n, (now, row, outs) in enumerate(rows[i]):
            ClockMixin.set_current_time(now)
            feed(alone, row)
            alone.update()
            for k, output in enumerate(alone.outputs):
                if k in sinks:
                    sent[i, k, n] = list(sinks[k].receive())
                else:
                    ok = equal(outs[k], output.value)
                    mon.check(ok, 'in-patch', 'block %d (%s), cycle %d, output %d: %s in the patch, %s alone; patch %s',
                              i, node.name, n, k, '' if ok else describe(outs[k], 100), '' if ok else describe(output.value, 100), patch)
                    mon.event('outputs')
    for src, k, dst, j in patch.edges:
        for n, (now, row, _) in enumerate(rows[dst]):
            if patch.nodes[src].outs[k] in MESSAGES:
                if not patch.nodes[src].noisy:
                    mon.check(row[j] == sent[src, k, n], 'flow', 'cycle %d: messages %s from block %d arrive as %s at block %d; '
                              'patch %s', n, sent[src, k, n], src, row[j], dst, patch)
                    mon.event('messages', len(row[j]))
            else:
                mon.check(equal(rows[src][n][2][k], row[j]), 'flow', 'cycle %d: input %d of block %d is not the output %d of '
                          'block %d; patch %s', n, j, dst, k, src, patch)
                mon.event('values')


def expected_file(patch, rows, nBuffers):
    """Interleaved channels of the sound card, scaled to full range."""
    dac = patch.nodes[-1]
    count = len(dac.kinds)
    frames = []
    for n in range(nBuffers):
        _, row, _ = rows[len(patch.nodes) - 1][n]
        channels = []
        for k in range(count):
            value = row.get(k, np.zeros(BUFFER_SIZE))
            channels.extend([value] if np.ndim(value) == 1 else list(value))
        frames.append(np.array(channels[:count], dtype=np.float32).T)
    x = np.concatenate(frames).astype(float)
    peak = np.abs(x).max()
    return x / peak * 32767 if peak else x


PLAIN = dict(shuffle=False, operators=False, bundle=False, listeners=False)
ALL_NAMES = sorted(OUTS) + ['noise', 'plus', 'plus', 'kick', 'mono_synth', 'poly_synth', 'sequencer', 'mixer']


def written_down(rng, mon, names=None, size=None):
    names = names or [n for n in ALL_NAMES if n != 'filter']
    patch = Patch(rng, size or rng.randrange(2, 9), names)
    nBuffers = rng.randrange(3, 14)
    noise = rng.randrange(2 ** 31)
    path = os.path.join(SCRATCH, 'patch-%d-%08x-out.wav' % (os.getpid(), rng.randrange(2 ** 32)))
    recorder = Recorder()
    np.random.seed(noise)
    tops, _ = assemble(rng, patch, recorder, PLAIN)
    samples, problems = render([tops[-1]], nBuffers, path)
    rows = recorder.rows
    mon.check(not problems, 'warning', '%s; patch %s', problems, patch)
    for i, node in enumerate(patch.nodes):
        mon.check(len(rows[i]) == nBuffers, 'cycles', 'block %d (%s) ran %d times in %d cycles; patch %s', i, node.name,
                  len(rows[i]), nBuffers, patch)
    flow(mon, patch, rows)
    want = expected_file(patch, rows, nBuffers)
    mon.check(samples.shape == want.shape and (abs(samples - want) <= 1.01).all(), 'file', 'patch %s', patch)
    for _ in range(2):
        style = {k: rng.random() < p for k, p in [('shuffle', .8), ('operators', .6), ('bundle', .5), ('listeners', .5)]}
        other = Recorder()
        n = nBuffers if rng.random() < .6 else rng.randrange(1, 20)
        np.random.seed(noise)
        extra = []
        if rng.random() < .3:
            more = Patch(rng, rng.randrange(1, 4), [x for x in names if x != 'noise'])
            before = rng.random() < .5
            if not before:
                more.nodes.pop()
            blocks, _ = assemble(rng, more, Recorder(), PLAIN)
            if before:
                render(blocks, rng.randrange(1, 4), path)
                mon.event('patches before')
            else:
                extra = blocks
                mon.event('patches beside')
        np.random.seed(noise)
        tops, bundle = assemble(rng, patch, other, style)
        starts = rng.sample(tops, rng.randint(1, len(tops))) + extra[:1]
        rng.shuffle(starts)
        again, problems = render(starts, n, path)
        text = 'written down with %s, %d starting blocks' % (sorted(k for k in style if style[k]), len(starts))
        mon.check(not problems, 'warning', '%s: %s; patch %s', text, problems, patch)
        for i, node in enumerate(patch.nodes):
            mon.check(len(other.rows[i]) == n, 'cycles', '%s: block %d (%s) ran %d times in %d cycles; patch %s', text, i,
                      node.name, len(other.rows[i]), n, patch)
        compare_rows(mon, patch, rows, other.rows, 'variant', text)
        if n == nBuffers:
            mon.check(np.array_equal(samples, again), 'variant', '%s: file differs; patch %s', text, patch)
        for k in style:
            mon.event(k, style[k])
        mon.event('bundled', bundle is not None)
        mon.event('variants')
    for node in patch.nodes:
        mon.event('kind:' + node.name)
    mon.event('buffers', nBuffers)
    mon.case(str(patch), nBuffers, [r[2] for r in rows[0][:1]], nontrivial=bool(samples.any()))


def drones(rng, mon):
    """Large patches."""
    written_down(rng, mon, size=rng.randrange(15, 40))


def filters(rng, mon):
    """Filters compute large tables: few cases."""
    written_down(rng, mon, ['filter', 'oscillator', 'stereo_mixer'], 2)


# -- examples -----------------------------------------------------------------

EXAMPLES = ['aeolian_arp', 'arpeggiator_demo', 'audio_file_demo', 'haunting_envelopes', 'hello_world', 'micro_rhythm_demo',
            'reverberation_demo', 'sequencer_demo', 'tempo_aware_effects']


def load_example(name):
    """The blocks an example hands over to run_klang."""
    given = []
    original = main.run_klang

    def run_klang(*blocks, **kwargs):
        given.extend(blocks)

    main.run_klang = run_klang
    try:
        with quiet():
            runpy.run_path(os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'examples', name + '.py'), run_name='__main__')
    finally:
        main.run_klang = original
    return given


def everything(blocks):
    """All blocks of a network, also inside of composites."""
    found, queue = [], list(blocks)
    while queue:
        block = queue.pop(0)
        if any(block is f for f in found):
            continue
        found.append(block)
        for port in list(block.inputs) + list(block.outputs):
            ends = list(getattr(port, 'outgoingConnections', ()))
            if getattr(port, 'incomingConnection', None) is not None:
                ends.append(port.incomingConnection)
            queue.extend(end.owner for end in ends if end.owner is not None)
    return found


def outermost(blocks):
    """The blocks of a network, without the inside of composites."""
    found, queue = [], list(blocks)
    while queue:
        block = queue.pop(0)
        if any(block is f for f in found):
            continue
        found.append(block)
        ends = [end for port in block.outputs for end in port.outgoingConnections]
        for port in block.inputs:
            if port.incomingConnection is not None:
                ends.append(port.incomingConnection)
        queue.extend(end.owner for end in ends if end.owner is not None)
    return found


def play_example(rng, mon, name, nBuffers=None):
    nBuffers = nBuffers or rng.randrange(120, 260)
    path = os.path.join(SCRATCH, 'example-%d.wav' % os.getpid())
    recordings = []
    for attempt in range(2):
        np.random.seed(7)
        random.seed(7)
        blocks = load_example(name)
        mon.check(bool(blocks), 'example', '%s runs nothing', name)
        network = everything(blocks)
        recorder = Recorder()
        for i, block in enumerate(network):
            node = types.SimpleNamespace(sources=[port.incomingConnection if not is_message(port) else None
                                                  for port in block.inputs])
            recorder.watch(i, block, node)
        if attempt:
            outer = outermost(blocks)
            starts = rng.sample(outer, rng.randint(1, len(outer)))
        else:
            starts = blocks
        np.random.seed(11)
        random.seed(11)
        samples, problems = render(starts, nBuffers, path)
        mon.check(not problems, 'warning', '%s: %s', name, problems)
        for i, block in enumerate(network):
            rows = recorder.rows[i]
            mon.check(len(rows) == nBuffers, 'cycles', '%s: %s ran %d times in %d cycles', name, block, len(rows), nBuffers)
            for n, (_, row, outs) in enumerate(rows):
                for value in list(outs) + [v for v in row.values() if not isinstance(v, list)]:
                    if value is not None:
                        ok = np.isfinite(np.asarray(value, dtype=float)).all()
                        mon.check(ok, 'finite', '%s: %s in cycle %d: %s', name, block, n, '' if ok else describe(value))
            notes = [m for row in rows for k, v in row[1].items() if isinstance(v, list) for m in v if isinstance(m, Note)]
            balance = {}
            for note in notes:
                balance[note.pitch] = balance.get(note.pitch, 0) + (1 if note.on else -1)
                mon.check(balance[note.pitch] >= 0, 'notes', '%s: %s received an end of pitch %s which does not sound', name,
                          block, note.pitch)
            mon.event('example notes', len(notes))
        mon.check(samples.any(), 'sound', '%s is silent', name)
        recordings.append((samples, [recorder.rows[i] for i in range(len(network))]))
    mon.check(np.array_equal(recordings[0][0], recordings[1][0]), 'variant', '%s: another rendering differs', name)
    mon.event('example:' + name)
    mon.case(name, nBuffers)


def operators(rng, mon):
    """The operators take blocks as well as outputs on both sides, and refuse anything else without any trace."""
    def sound():
        block = Block(nInputs=rng.randint(0, 2), nOutputs=rng.randint(1, 2))
        return block, block.output, block.output if rng.random() < .4 else block

    def unfit():
        block = Block(nInputs=1)
        if rng.random() < .6:
            block.outputs = [rng.choice([MessageOutput, MessageRelay])(owner=block)]
        return rng.choice([block, block, 3, None, 'x'])

    blocks = []
    for _ in range(rng.randint(1, 6)):
        (left, a, x), (right, b, y) = sound(), sound()
        blocks.extend([left, right])
        mode = rng.choice(['mix', 'refuse', 'refuse-left'])
        if x is not left and y is not right:
            y = right   # one of both has to be a block
        if mode == 'mix':
            mixer = x + y
            mon.check(isinstance(mixer, Mixer), 'mix-operator', 'sum is %s', type(mixer))
            sources = [i.incomingConnection for i in mixer.inputs if i.incomingConnection is not None]
            for out in (a, b):
                mon.check(sum(s is out for s in sources) == 1, 'mix-operator', 'an operand is mixed %d times',
                          sum(s is out for s in sources))
                mon.check(len(out.outgoingConnections) == 1, 'mix-operator', '%d connections of an operand',
                          len(out.outgoingConnections))
            mon.event('sums')
        else:
            other = unfit()
            try:
                other + left if mode == 'refuse-left' else left + other
            except (TypeError, AttributeError):
                mon.event('refused sums')
            else:
                mon.check(False, 'mix-operator', '%s + %s is accepted', left, other)
            ports = [a] + (list(other.outputs) if isinstance(other, Block) else [])
            mon.check(not any(p.outgoingConnections for p in ports), 'mix-operator', 'refused operands got connected')
    mon.case('operators', rng.random())


def make_example(name):
    def scenario(rng, mon):
        play_example(rng, mon, name)
    scenario.__name__ = 'example_' + name
    return scenario


SCENARIOS = [
    Scenario(written_down, 420, 12000),
    Scenario(drones, 24, 500),
    Scenario(filters, 2, 60),
    Scenario(operators, 60, 1500),
] + [Scenario(make_example(name), 1, 3) for name in EXAMPLES]
REQUIRED_EVENTS = {'outputs': 3000, 'values': 3000, 'messages': 300, 'variants': 400, 'bundled': 60, 'operators': 100,
                   'listeners': 100, 'example notes': 50, 'patches before': 20,
                   'refused sums': 60, 'sums': 30}
