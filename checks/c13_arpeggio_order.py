"""C13: arpeggios play the held notes in their order, whatever is added or removed."""
import math

from klang.arpeggiator import (
    Arpeggiator, Arpeggio, VALID_ORDERS, arpeggio_index_permutation, interleave,
)
from klang.config import BUFFER_SIZE, SAMPLING_RATE
from klang.messages import Note
from vlib.core import Scenario, raises
from vlib.util import Sink

PROPERTY = 'C13'
RULE = ('random histories of added notes (also duplicates of a pitch), removed notes and played steps for every '
        'order; every delivered note is compared with a list model; distinct = distinct (order, history); '
        'non-trivial = more than one complete round was played')
INTERVAL = BUFFER_SIZE / SAMPLING_RATE


def cycle(order, n):
    """One round of indices for n sorted notes."""
    up = list(range(n))
    if n < 2 or order == 'up':
        return up
    if order == 'down':
        return up[::-1]
    if order == 'upDown':
        return up + up[-2:0:-1]
    if order == 'downUp':
        return up[::-1] + up[1:-1]
    if order == 'alternating':
        out = []
        lo, hi = 0, n - 1
        while lo <= hi:
            out.append(lo)
            if lo != hi:
                out.append(hi)
            lo, hi = lo + 1, hi - 1
        return out
    raise AssertionError(order)


def make_note(rng, serial):
    # unique frequencies identify the note, whatever its pitch
    return Note(rng.randrange(128) if rng.random() < .5 else rng.randrange(60, 70),
                rng.choice([1., .5, .1, rng.uniform(.01, 1)]), frequency=serial + 1.)


class Model:
    """Notes sorted by pitch, a position which is kept when notes change."""

    def __init__(self, order):
        self.order = order
        self.notes = []
        self.position = 0
        self.round = []   # 'random': notes of the current round

    def length(self):
        return len(cycle(self.order if self.order != 'random' else 'up', len(self.notes)))

    def add(self, note):
        if any(n.pitch == note.pitch for n in self.notes):
            return False
        self.notes = sorted(self.notes + [note], key=lambda n: n.pitch)
        self.changed()
        return True

    def remove(self, pitch):
        before = len(self.notes)
        self.notes = [n for n in self.notes if n.pitch != pitch]
        if len(self.notes) == before:
            return False
        self.changed()
        return True

    def changed(self):
        self.position = self.position % self.length() if self.notes else 0
        self.start = self.position
        self.round = []

    def feed(self, mon, note, text):
        """Check the next delivered note."""
        if self.order == 'random':
            n = len(self.notes)
            mon.check(note in self.notes, 'held', '%s: %s not in %s', text, note, self.notes)
            # the same shuffled order is repeated until the notes change
            if len(self.round) < n:
                mon.check(note not in self.round, 'round', '%s: %s repeated in %s', text, note, self.round)
            else:
                mon.check(note == self.round[-n], 'round', '%s: %s after %s', text, note, self.round)
            self.round.append(note)
        else:
            want = self.notes[cycle(self.order, len(self.notes))[self.position]]
            mon.check(note == want, 'order', '%s: played %s instead of %s (position %d of %s)', text, note, want,
                      self.position, self.notes)
            self.position = (self.position + 1) % self.length()
        mon.event('steps')


def arpeggio(rng, mon):
    order = rng.choice(VALID_ORDERS)
    serial = 0
    initial = []
    for _ in range(rng.choice([0, 0, 1, 2, 5, 8, rng.randint(9, 40)])):
        initial.append(make_note(rng, serial))
        serial += 1
    arp = Arpeggio(order, list(initial) or rng.choice([None, []]))
    model = Model(order)
    for n in initial:
        model.add(n)
    model.position = 0
    model.round = []
    # adding the initial notes one by one must not move the start
    log = ['%s %s' % (order, [n.pitch for n in model.notes])]
    steps = 0
    longest = 0
    for _ in range(rng.randint(5, 60)):
        op = rng.choice(['add', 'add', 'remove', 'next', 'next', 'next', 'many', 'clear'])
        if op == 'add':
            note = make_note(rng, serial)
            serial += 1
            log.append('+%d' % note.pitch)
            new = model.add(note)
            arp.add_note(note)
            mon.event('notes added' if new else 'duplicates')
        elif op == 'remove':
            pitch = rng.choice(model.notes).pitch if model.notes and rng.random() < .8 else rng.randrange(128)
            log.append('-%d' % pitch)
            note = Note(pitch, rng.choice([0., 0., 1.]), frequency=rng.choice([None, 7.]))
            if model.remove(pitch):
                arp.remove_note(note)
                mon.event('notes removed')
            else:
                err = raises(arp.remove_note, note)
                mon.check(isinstance(err, ValueError), 'missing', '%s: removing a missing pitch: %r', log, err)
        elif op == 'clear' and rng.random() < .3:
            log.append('clear')
            for n in rng.sample(model.notes, len(model.notes)):
                model.remove(n.pitch)
                arp.remove_note(n.silence())
        elif op in ('next', 'many'):
            for _ in range(1 if op == 'next' else rng.randint(2, 2 + 2 * len(model.notes))):
                if model.notes:
                    note = next(arp)
                    log.append('%d' % note.pitch)
                    model.feed(mon, note, log)
                    steps += 1
                else:
                    err = raises(next, arp)
                    mon.check(isinstance(err, StopIteration), 'empty', '%s: %r', log, err)
        longest = max(longest, len(model.notes))
        mon.check(len(arp) == len(model.notes) and list(arp) == model.notes, 'notes', '%s: %s instead of %s', log,
                  list(arp), model.notes)
        probe = rng.randrange(128)
        mon.check((Note(probe) in arp) == any(n.pitch == probe for n in model.notes), 'contains', '%s: %d', log, probe)
        mon.check(bool(arp) == bool(model.notes), 'notes', 'truth value')
    mon.check(isinstance(str(arp), str), 'str')
    mon.case('arpeggio', tuple(log), nontrivial=steps > longest)
    mon.sample(' '.join(log))


def permutations(rng, mon):
    n = rng.randint(0, 60)
    order = rng.choice(VALID_ORDERS)
    got = arpeggio_index_permutation(order, n)
    if order == 'random':
        mon.check(sorted(got) == list(range(n)), 'permutation', 'random %d: %s', n, got)
    else:
        mon.check(list(got) == cycle(order, n), 'permutation', '%s %d: %s', order, n, got)
    bad = rng.choice(['UP', '', 'updown', None, 'up '])
    mon.check(isinstance(raises(arpeggio_index_permutation, bad, n), ValueError), 'invalid', '%r', bad)
    mon.check(isinstance(raises(Arpeggio, bad), ValueError), 'invalid', '%r', bad)
    a = [('a', i) for i in range(rng.randint(0, 6))]
    b = [('b', i) for i in range(rng.randint(0, 6))]
    out = interleave(a, b)
    mon.check([x for x in out if x[0] == 'a'] == a and [x for x in out if x[0] == 'b'] == b, 'interleave', '%s', out)
    k = min(len(a), len(b))
    mon.check(all(out[2 * i] == a[i] and out[2 * i + 1] == b[i] for i in range(k)), 'interleave', '%s', out)
    mon.case('permutation', order, n, len(a), len(b))


def arpeggiator(rng, mon):
    """The block plays its arpeggio, one step per interval."""
    order = rng.choice([o for o in VALID_ORDERS if o != 'random'])
    buffers = rng.uniform(3, 12)
    block = Arpeggiator(buffers * INTERVAL, order=order)
    sink = Sink()
    block.output.connect(sink)
    model = Model(order)
    serial = 0
    log = [order]
    plays = []
    for k in range(rng.randint(60, 200)):
        # events right after a step, so that their place is unambiguous
        for _ in range(rng.choice([0, 0, 0, 0, 0, 1, 2])):
            if model.notes and rng.random() < .45:
                n = rng.choice(model.notes)
                block.input.push(n.silence())
                model.remove(n.pitch)
                log.append('-%d' % n.pitch)
            else:
                n = make_note(rng, serial)
                serial += 1
                block.input.push(n)
                model.add(n)
                log.append('+%d' % n.pitch)
        block.update()
        ons = [m for m in sink.receive() if m.on]
        if k == 0 and model.notes:
            mon.check(len(ons) == 1, 'interval', '%s: notes held, but nothing played at the start', log)
        mon.check(len(ons) <= 1, 'one-step', '%s: %s', log, ons)
        for m in ons:
            mon.check(bool(model.notes), 'order', '%s: %s without notes', log, m)
            log.append(str(m.pitch))
            model.feed(mon, m, log)
            if plays:
                gap = k - plays[-1]
                rounds = gap / buffers
                mon.check(min(abs(math.floor(rounds) - rounds), abs(math.ceil(rounds) - rounds)) * buffers < 1.001,
                          'interval', '%s: %d buffers between steps of %.3f', log, gap, buffers)
            plays.append(k)
    mon.case('arpeggiator', tuple(log), buffers, nontrivial=len(plays) > 3)


SCENARIOS = [
    Scenario(arpeggio, 800, need=20000),
    Scenario(permutations, 200, need=800),
    Scenario(arpeggiator, 150, need=3000),
]
REQUIRED_EVENTS = {'steps': 10000, 'notes added': 3000, 'duplicates': 200, 'notes removed': 1000}
