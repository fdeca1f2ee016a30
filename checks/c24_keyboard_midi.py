"""C24: keys and notes reach the network and the MIDI port: once, in order, as pressed and released."""
import contextlib
import gc
import io

import numpy as np
import pynput.keyboard
import rtmidi
from pynput.keyboard import Key, KeyCode
from pynput.keyboard._base import Listener as BaseListener

from vlib.core import Scenario, describe
from vlib.util import Sink


class FakeListener(BaseListener):
    """pynput's own listener machinery (wrapped callbacks, thread which dies of
    exceptions) fed from a script instead of a keyboard."""
    script = ()
    latest = None

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        FakeListener.latest = self

    def _run(self):
        self._mark_ready()
        self._feed()

    @BaseListener._emitter
    def _feed(self):
        for pressed, key in type(self).script:
            if not self._running:
                return
            if pressed:
                self.on_press(key, False)
            else:
                self.on_release(key, False)

    def _stop_platform(self):
        pass


class Port:
    """Stand-in for rtmidi.MidiOut."""
    ports = []
    log = []

    def __init__(self, *args, **kwargs):
        self.messages, self.opened, self.closed = [], [], 0
        Port.log.append(self)

    def get_ports(self, *args, **kwargs):
        return list(Port.ports)

    def open_port(self, port=0, name=None):
        self.opened.append(port)
        return self

    def open_virtual_port(self, name=None):
        self.opened.append('virtual')
        return self

    def is_port_open(self):
        return bool(self.opened)

    def send_message(self, message):
        assert self.opened and not self.closed
        self.messages.append([int(b) for b in message])

    def close_port(self):
        self.closed += 1

    def delete(self):
        pass


pynput.keyboard.Listener = FakeListener
rtmidi.MidiOut = Port

import klang.keyboard as keyboard      # noqa: E402
import klang.midi as midi              # noqa: E402
from klang.connections import MessageInput      # noqa: E402
from klang.messages import Note        # noqa: E402
from klang.music.tunings import EQUAL_TEMPERAMENT, TEMPERAMENTS     # noqa: E402

PROPERTY = 'C24'
RULE = ('random sequences of key events (musical, control, other, special and unknown keys, auto-repeat, lost releases, '
        'octave / velocity / tuning changes while keys are held), directly and through the thread of a scripted pynput '
        'listener; random notes through a recording MIDI port; distinct = distinct event sequences; non-trivial = '
        'something was sent')

PITCHES = {c: i for i, c in enumerate('awsedftgzhujkolp')}
KNOWN = list(TEMPERAMENTS.values())


def key_of(char):
    return KeyCode.from_char(char)


OTHER = ['q', 'b', 'n', 'm', 'A', '+', ' ', 'é']
SPECIAL = [Key.alt, None, KeyCode(vk=12)]


def events(rng, n):
    """(pressed, key factory): a player with ten fingers and a restless mind."""
    held = []
    ret = []
    controls = rng.choice([['y', 'x'], ['y'], ['x'], ['c', 'v'], list('0123456789'), list('yxcv01234')])
    for _ in range(n):
        kind = rng.random()
        if rng.random() < .02:
            key = rng.choice(['c', 'c', 'v', 'v', 'x', 'y'])        # up to and beyond a limit
            if key not in held:
                ret += [(True, key), (False, key)] * rng.randrange(3, 15)
        if held and kind < .35:
            i = rng.randrange(len(held))
            ret.append((False, held.pop(i)))
        elif held and kind < .45:
            ret.append((True, rng.choice(held)))        # auto-repeat
        elif kind < .48:
            ret.append((False, rng.choice('awsedq')))   # release without press
        else:
            what = rng.random()
            if what < .5:
                key = rng.choice(list(PITCHES))
            elif what < .8:
                key = rng.choice(controls)
            elif what < .92:
                key = rng.choice(OTHER)
            else:
                key = rng.choice(SPECIAL)
            ret.append((True, key))
            if key is None:
                ret.append((False, None))
            elif key not in held:
                held.append(key)
    if rng.random() < .7:
        rng.shuffle(held)
        ret += [(False, k) for k in held]
    return ret


class Model:
    """What a player expects of a musical keyboard."""

    def __init__(self, temperament, others):
        self.octave, self.velocity, self.temperament = 5, 1., temperament
        self.down = set()
        self.sounding = {}
        self.others = others
        self.notes = []        # (pitch, velocity or 0, frequency or None)
        self.other = []        # (key, pressed, mandatory)

    def event(self, pressed, key):
        if key is None or (key in self.down) == pressed:
            return
        (self.down.add if pressed else self.down.remove)(key)
        if isinstance(key, str) and key in PITCHES:
            if pressed:
                pitch = PITCHES[key] + 12 * self.octave
                if 0 <= pitch < 128:
                    note = pitch, self.velocity, self.temperament.pitch_2_frequency(pitch)
                    self.notes.append(note)
                    self.sounding[key] = note
            elif key in self.sounding:
                # released is what was pressed, whatever has been tuned since
                pitch, _, frequency = self.sounding.pop(key)
                self.notes.append((pitch, 0., frequency))
        elif pressed and key in ('y', 'x'):
            self.octave += 1 if key == 'x' else -1
        elif pressed and key in ('c', 'v'):
            self.velocity = min(1., max(.1, self.velocity + (.1 if key == 'v' else -.1)))
        elif pressed and isinstance(key, str) and key in '0123456789':
            if int(key) < len(KNOWN):
                self.temperament = KNOWN[int(key)]
        else:
            control = isinstance(key, str) and key in 'yxcv0123456789'
            self.other.append((key, pressed, not control))


def make_key(key):
    return key_of(key) if isinstance(key, str) else key


def judge(mon, model, notes, other, text):
    mon.check(len(notes) == len(model.notes), 'notes', '%s: %d notes instead of %d', text, len(notes), len(model.notes))
    for k, (note, (pitch, velocity, frequency)) in enumerate(zip(notes, model.notes)):
        mon.check(isinstance(note, Note) and note.pitch == pitch and abs(note.velocity - velocity) < 1e-9
                  and bool(note.on) == (velocity > 0)
                  and (frequency is None or abs(note.frequency - frequency) <= 1e-9 * frequency), 'notes',
                  '%s: note %d is %s instead of pitch %s velocity %s frequency %s', text, k, note, pitch, velocity, frequency)
    if not model.others:
        return
    # Releases of control keys may or may not be passed on
    got = list(other)
    k = 0
    for key, pressed, mandatory in model.other:
        match = k < len(got) and got[k] == (key, pressed)
        if mandatory or match:
            mon.check(match, 'other-keys', '%s: other key event %d is %s instead of %s', text, k,
                      got[k] if k < len(got) else 'missing', (key, pressed))
            k += 1
    mon.check(k == len(got), 'other-keys', '%s: unexpected key event %s', text, got[k:k + 1])


def record_keys(output):
    """Record (key, pressed) at the moment of sending: key objects are shared."""
    sink = Sink()
    sink.push = lambda key: sink.log.append((getattr(key, 'char', None) or key, key.pressed))
    output.connect(sink)
    return sink


def new_keyboard(rng):
    temperament = rng.choice(KNOWN)
    others = rng.random() < .6
    if rng.random() < .3:
        temperament = EQUAL_TEMPERAMENT
        kb = keyboard.MusicalKeyboard(others=others)
    else:
        kb = keyboard.MusicalKeyboard(others=others, defaultTemperament=temperament)
    return kb, Model(temperament, others)


def direct(rng, mon):
    """Events one after the other, in the thread of the test."""
    kb, model = new_keyboard(rng)
    script = events(rng, rng.randrange(1, 60))
    text = describe(script, 400)
    sink = Sink()
    kb.outputs[0].connect(sink)
    otherSink = record_keys(kb.outputs[1]) if model.others else None
    with contextlib.redirect_stdout(io.StringIO()):
        for pressed, key in script:
            model.event(pressed, key)
            (kb.on_press if pressed else kb.on_release)(make_key(key))
    judge(mon, model, sink.log, otherSink.log if otherSink else [], text)
    mon.event('key-events', len(script))
    mon.event('notes', len(sink.log))
    mon.case('direct', script, nontrivial=bool(sink.log))


def listener(rng, mon):
    """Events from a running listener thread while the network is being
    updated: the listener survives, nothing is lost, doubled or reordered."""
    script = events(rng, rng.randrange(1, 30))[:50]
    text = describe(script, 400)
    FakeListener.script = [(p, make_key(k)) for p, k in script]
    stop = rng.random() < .2
    kb, model = new_keyboard(rng)
    mon.check('not running' in str(kb), 'state', 'before start: %s', kb)
    receiver = MessageInput()
    kb.outputs[0].connect(receiver)
    otherSink = record_keys(kb.outputs[1]) if model.others else None
    for e in script:
        model.event(*e)
    got = []
    with contextlib.redirect_stdout(io.StringIO()):
        worker = FakeListener.latest
        logging_off(worker)
        kb.start()
        while worker.is_alive():
            got.extend(receiver.receive())
            mon.event('polls')
        try:
            worker.join()
        except Exception as err:      # pylint: disable=broad-except
            mon.check(False, 'listener-died', '%s: %r', text, err)
        if stop:
            kb.stop()
    got.extend(receiver.receive())
    mon.check('not running' in str(kb), 'state', 'after the end: %s', kb)
    judge(mon, model, got, otherSink.log if otherSink else [], text)
    mon.event('threaded-events', len(script))
    mon.case('listener', script, nontrivial=bool(got))


def logging_off(worker):
    log = getattr(worker, '_log', None)
    if log is not None:
        log.disabled = True


def base_keyboard(rng, mon):
    """The plain keyboard relays every key once per press and release."""
    kb = keyboard.Keyboard(suppress=rng.random() < .5)
    sink = record_keys(kb.outputs[0])
    script = events(rng, rng.randrange(1, 40))
    expected, down = [], set()
    for pressed, key in script:
        (kb.on_press if pressed else kb.on_release)(make_key(key))
        if key is not None and (key in down) != pressed:
            (down.add if pressed else down.remove)(key)
            expected.append((key, pressed))
    mon.check(sink.log == expected, 'relay', '%s: %s instead of %s', describe(script), describe(sink.log), describe(expected))
    mon.event('key-events', len(script))
    mon.case('base', script, nontrivial=bool(expected))


# -- MIDI ---------------------------------------------------------------------

def random_note(rng):
    v = rng.choice([0., 1., rng.random(), rng.random() * .02, 1 / 127, .999999, rng.randrange(128) / 127])
    pitch = rng.choice([rng.randrange(128), 0, 127])
    if rng.random() < .2:
        pitch = np.int64(pitch)
    return Note(pitch, v)


def midi_port(rng, mon):
    Port.log = []
    Port.ports = ['port %d' % i for i in range(rng.choice([0, 1, 3]))]
    number = rng.randrange(max(1, len(Port.ports)))
    channel = rng.choice([0, rng.randrange(16), 15])
    with contextlib.redirect_stdout(io.StringIO()):
        out = midi.MidiOut(portNumber=number, channel=channel)
    mon.check(len(Port.log) == 1 and Port.log[0].opened == [number if Port.ports else 'virtual'], 'port',
              'opened %s of %s', Port.log and Port.log[0].opened, Port.ports)
    port = Port.log[0]
    expected = []
    serial = {}
    for _ in range(rng.randrange(1, 12)):
        for _ in range(rng.choice([0, 1, 1, 2, 5])):
            note = random_note(rng)
            out.input.push(note)
            expected.append(note)
        out.update()
        mon.check(len(port.messages) == len(expected), 'exactly-once', '%d of %d notes sent', len(port.messages),
                  len(expected))
    for note, message in zip(expected, port.messages):
        status, pitch, velocity = message
        where = '%s on channel %d sent as %s' % (note, channel, message)
        mon.check(status & 0x0f == channel, 'channel', where)
        mon.check(status & 0xf0 == (0x90 if note.velocity > 0 else 0x80), 'status', where)
        mon.check(pitch == note.pitch and 0 <= velocity <= 127, 'data', where)
        mon.check(abs(velocity - 127 * note.velocity) <= 1, 'velocity', where)
        mon.check(note.velocity == 0 or velocity > 0, 'silent-note-on', '%s: means note-off', where)
        serial.setdefault(note.velocity, velocity)
    ordered = [serial[v] for v in sorted(serial)]
    mon.check(ordered == sorted(ordered), 'velocity', 'not monotonous: %s', describe(sorted(serial.items())))
    mon.event('midi-messages', len(expected))
    mon.case('midi', number, channel, [tuple(n) for n in expected], nontrivial=bool(expected))
    del out
    gc.collect()
    gc.collect()
    mon.check(port.closed >= 1, 'close', 'port left open')


SCENARIOS = [
    Scenario(direct, 1500, 40000),
    Scenario(listener, 200, 4000),
    Scenario(base_keyboard, 400, 6000),
    Scenario(midi_port, 400, 8000),
]
REQUIRED_EVENTS = {'key-events': 10000, 'notes': 2000, 'threaded-events': 1000, 'polls': 10, 'midi-messages': 1000,
                   'oracle:other-keys': 500}
