"""C11: every note-on is followed by exactly one note-off (note effects, arpeggiator)."""
import collections
from fractions import Fraction

from klang.arpeggiator import VALID_ORDERS, Arpeggiator
from klang.clock import ClockMixin
from klang.config import BUFFER_SIZE, SAMPLING_RATE
from klang.connections import MessageOutput
from klang.messages import Note
from klang.note_effects import MaxNotes, MessageMixer, NoteLengthener
from vlib.core import Scenario
from vlib.util import Sink, seconds_of

PROPERTY = 'C11'
RULE = ('random note streams (unique frequencies identify every note) through note lengtheners, note limiters, '
        'message mixers, arpeggiators and chains of them, with regular, stalled and jumping clocks; the output '
        'log is checked on-line against a trace specification; distinct = distinct (configuration, note stream); '
        'non-trivial = at least one note-on was answered by a note-off')
INTERVAL = BUFFER_SIZE / SAMPLING_RATE


class Source:
    """Notes with unique frequencies, and now and then the very same note again."""

    def __init__(self, rng, pitches=None, repeat=.15):
        self.rng = rng
        self.repeat = repeat
        self.last = None
        self.serial = 0
        self.pitches = pitches or [rng.randrange(128) for _ in range(rng.randint(1, 8))]

    def on(self):
        if self.last and self.rng.random() < self.repeat:
            return self.last
        self.serial += 1
        self.last = Note(self.rng.choice(self.pitches), velocity=self.rng.choice([1., .5, .01, 1e-4, 1e-7]),
                         frequency=float(self.serial))
        return self.last


def receive(sink):
    return list(sink.receive())


def is_off_of(off, on):
    return off.velocity == 0. and off.pitch == on.pitch and off.frequency == on.frequency


def lengthener(rng, mon):
    duration = rng.choice([0., INTERVAL, .1, 2, rng.uniform(.001, 3)])
    block = NoteLengthener(duration)
    sink = Sink()
    block.output.connect(sink)
    source = Source(rng)
    now = 0.
    open_ = []   # (due, note), in order
    log = []
    answered = 0
    for step in range(rng.randint(5, 40)):
        now += rng.choice([0., INTERVAL, INTERVAL, rng.uniform(0, 2 * float(duration) + .1)])
        ClockMixin.set_current_time(now)
        incoming = [source.on() for _ in range(rng.choice([0, 0, 1, 1, 2, 4]))]
        ons = list(incoming)
        for note in list(incoming):
            if rng.random() < .2:
                incoming.insert(rng.randint(0, len(incoming)), note.silence())
        for note in incoming:
            block.input.push(note)
        block.update()
        got = receive(sink)
        offs = [m for m in got if m.off]
        # a deadline within rounding of the current time may be either side
        eps = 1e-9 * (1 + now)
        least = sum(t < now - eps for t, _ in open_)
        most = sum(t <= now + eps for t, _ in open_)
        log.append('%.4f:+%d-%d' % (now, len(ons), len(offs)))
        mon.check([m for m in got if m.on] == ons, 'note-on', '%s: forwarded %s of %s', log, got, ons)
        mon.check(least <= len(offs) <= most and all(is_off_of(m, n) for m, (_, n) in zip(offs, open_)), 'note-off',
                  'duration %s, %s: note-offs %s for %s', duration, log, offs, open_[:most])
        due = open_[:len(offs)]
        open_ = open_[len(offs):] + [(now + duration, n) for n in ons]
        mon.check(got == offs + ons, 'off-first', '%s: note-offs after note-ons: %s', log, got)
        answered += len(due)
        mon.event('notes', len(ons))
    ClockMixin.set_current_time(now + duration + 1e-6 * (1 + now))
    block.update()
    got = receive(sink)
    mon.check(len(got) == len(open_) and all(is_off_of(m, n) for m, (_, n) in zip(got, open_)), 'note-off',
              'at the end: %s for %s', got, open_)
    block.update()
    mon.check(not receive(sink), 'once', 'note-off sent twice')
    mon.case('lengthener', duration, tuple(log), nontrivial=answered > 0)
    mon.sample('NoteLengthener(%.3f) %s' % (duration, ' '.join(log)))


def limiter(rng, mon):
    limit = rng.randint(1, 6)
    block = MaxNotes(limit) if rng.random() < .8 or limit > 1 else MaxNotes()
    sink = Sink()
    block.output.connect(sink)
    source = Source(rng)
    active = []
    log = []
    ended = 0
    for step in range(rng.randint(5, 30)):
        if limit > 1 and rng.random() < .05:
            # from the next note on there are less notes, the surplus is ended
            limit = block.nNotes = rng.randint(1, limit - 1)
            log.append('limit %d' % limit)
            mon.event('lowered limits')
        incoming = [source.on() for _ in range(rng.choice([0, 1, 1, 2, 3, 2 * limit]))]
        for note in incoming:
            block.input.push(note)
        if rng.random() < .2 and active:
            # whether the sender's own note-offs are passed on is left open
            block.input.push(rng.choice(active).silence())
        block.update()
        got = receive(sink)
        mon.check([m for m in got if m.on] == incoming, 'note-on', '%s of %s', got, incoming)
        for m in got:
            if m.on:
                active.append(m)
                mon.check(len(active) <= limit, 'limit', '%d notes active, limit %d: %s', len(active), limit, log)
            else:
                match = [n for n in active if is_off_of(m, n)]
                mon.check(len(match) >= 1, 'note-off', 'note-off %s for none of %s', m, active)
                if len(active) == limit and match:
                    ended += 1
                active.remove(match[0])
        log.append(len(incoming))
        mon.event('notes', len(incoming))
    mon.case('limiter', limit, tuple(log), nontrivial=ended > 0)


def limiter_oldest(rng, mon):
    """Only the oldest notes are replaced, and only when necessary."""
    limit = rng.randint(1, 6)
    block = MaxNotes(limit)
    sink = Sink()
    block.output.connect(sink)
    source = Source(rng, repeat=0.)
    active = collections.deque()
    n = rng.randint(1, 4 * limit)
    for _ in range(n):
        note = source.on()
        block.input.push(note)
        if rng.random() < .6:
            continue
        block.update()
    block.update()
    got = receive(sink)
    serial = 0
    for m in got:
        if m.on:
            serial += 1
            mon.check(m.frequency == serial, 'order', 'note-ons %s', got)
            active.append(m)
        else:
            mon.check(is_off_of(m, active[0]) if active else False, 'oldest', '%s does not end the oldest of %s',
                      m, list(active))
            active.popleft()
            mon.check(len(active) == limit - 1, 'oldest', 'note ended although %d of %d active', len(active) + 1, limit)
    mon.check(serial == n and len(active) == min(n, limit), 'limit', '%d of %d active', len(active), limit)
    mon.event('notes', n)
    mon.case('oldest', limit, n, tuple(m.on for m in got))


def mixer(rng, mon):
    n = rng.randint(0, 5) if rng.random() < .85 else rng.randint(6, 70)
    block = MessageMixer(n) if n != 2 else MessageMixer()
    for _ in range(rng.choice([0, 0, 1, 2])):
        block.add_new_channel()
        n += 1
    sources = [MessageOutput() for _ in range(n)]
    for out, inp in zip(sources, block.inputs):
        out.connect(inp)
    mon.check(len(block.inputs) == n, 'mixer-inputs', '%d inputs', len(block.inputs))
    sinks = [Sink() for _ in range(rng.randint(1, 2))]
    for sink in sinks:
        block.output.connect(sink)
    serial = 0
    log = []
    for _ in range(rng.randint(2, 10)):
        sent = []
        only = rng.randrange(n) if n and rng.random() < .15 else None
        for _ in range(0 if not n else rng.randint(0, 8) if only is None else rng.randint(20, 50)):
            i = rng.randrange(n) if only is None else only
            serial += 1
            sources[i].send((i, serial))
            sent.append((i, serial))
        if n > 5 and only is None:
            for i in range(n):
                serial += 1
                sources[i].send((i, serial))
                sent.append((i, serial))
        block.update()
        for sink in sinks:
            got = receive(sink)
            mon.check(sorted(got) == sorted(sent), 'mixer', 'got %s, sent %s', got, sent)
            for i in range(n):
                mon.check([m for m in got if m[0] == i] == [m for m in sent if m[0] == i], 'mixer-order',
                          'input %d: %s of %s', i, got, sent)
        log.append(tuple(i for i, _ in sent))
        mon.event('messages', len(sent))
    mon.case('mixer', n, tuple(log), nontrivial=serial > 1)


def arpeggiator(rng, mon):
    order = rng.choice(VALID_ORDERS)
    interval = rng.choice([.1, rng.uniform(3 * INTERVAL, 30 * INTERVAL), Fraction(1, rng.choice([8, 16, 32, 12]))])
    seconds = seconds_of(interval) if isinstance(interval, Fraction) else interval
    source = Source(rng, rng.sample(range(128), rng.randint(1, 7)))
    initial = [source.on() for _ in range(rng.choice([0, 0, 1, 3]))]
    block = Arpeggiator(interval, order=order, initialNotes=initial)
    sink = Sink()
    block.output.connect(sink)
    held = {}
    for n in initial:
        held.setdefault(n.pitch, n)
    steps = rng.choice([100, 300])
    sounding = None
    plays = 0
    times = []
    missed = 0
    log = []
    emptied = False
    for k in range(steps):
        if k < steps - 60 or rng.random() < .05:
            events = []
            if rng.random() < .15:
                n = source.on()
                block.input.push(n)
                held.setdefault(n.pitch, n)
                events.append('+%d' % n.pitch)
            if rng.random() < .12:
                p = rng.choice(sorted(held)) if held and rng.random() < .8 else rng.randrange(128)
                block.input.push(Note(p, 0.))
                held.pop(p, None)
                events.append('-%d' % p)
            if events:
                log.append('%d:%s' % (k, ''.join(events)))
        if k == steps - 40:
            for p in list(held):
                block.input.push(Note(p, 0., frequency=1.))
            held.clear()
            emptied = True
            log.append('%d:empty' % k)
        if k >= steps - 40 and held:
            emptied = False
        block.update()
        for m in receive(sink):
            if m.on:
                mon.check(sounding is None, 'overlap', '%s: %s while %s sounds', log, m, sounding)
                mon.check(held.get(m.pitch) == m, 'held', '%s: played %s, held %s', log, m, list(held.values()))
                sounding = m
                plays += 1
                times.append(k)
            else:
                mon.check(sounding is not None and is_off_of(m, sounding), 'note-off',
                          '%s %s at %d: note-off %s for %s', order, log, k, m, sounding)
                sounding = None
                mon.event('arpeggio note-offs')
        mon.event('arpeggio buffers')
    if emptied and seconds < 30 * INTERVAL:
        mon.check(sounding is None, 'silent-end', '%s %s: %s still sounds without held notes', order, log, sounding)
        mon.event('arpeggios emptied')
    mon.event('notes', plays)
    mon.case('arp', order, str(interval), tuple(log), nontrivial=plays > 1)
    mon.sample('Arpeggiator(%s, %s) %s' % (interval, order, ' '.join(log[:12])))


def chains(rng, mon):
    """Arpeggiator -> limiter / lengthener -> mixer: nothing sounds for ever."""
    source = Source(rng, rng.sample(range(128), rng.randint(1, 7)))
    arp = Arpeggiator(rng.uniform(3, 12) * INTERVAL, order=rng.choice(VALID_ORDERS))
    duration = rng.uniform(.5, 25) * INTERVAL
    blocks = [arp, NoteLengthener(duration), MessageMixer(1)]
    for a, b in zip(blocks, blocks[1:]):
        a | b
    sink = Sink()
    blocks[-1].output.connect(sink)
    active = collections.Counter()
    notes = [source.on() for _ in range(rng.randint(1, 6))]
    off_at = rng.randint(40, 80)
    plays = 0
    for k in range(150):
        ClockMixin.set_current_time(k * INTERVAL)
        if k == 0:
            for n in notes:
                arp.input.push(n)
        if k == off_at:
            for n in notes:
                arp.input.push(n.silence())
        for b in blocks:
            b.update()
        for m in receive(sink):
            active[m.pitch, m.frequency] += 1 if m.on else -1
            mon.check(active[m.pitch, m.frequency] >= 0, 'chain-off', 'note-off %s without note-on', m)
            plays += m.on
    mon.check(not +active, 'chain-end', 'still sounding: %s', +active)
    mon.check(plays > 1, 'chain-plays', 'nothing played')
    mon.event('notes', plays)
    mon.case('chain', duration, off_at, len(notes))


SCENARIOS = [
    Scenario(lengthener, 500, need=3000),
    Scenario(limiter, 300, need=2000),
    Scenario(limiter_oldest, 200, need=500),
    Scenario(mixer, 200, need=500),
    Scenario(arpeggiator, 300, need=3000),
    Scenario(chains, 100, need=500),
]
REQUIRED_EVENTS = {'notes': 5000, 'arpeggio note-offs': 1000, 'arpeggios emptied': 50}
