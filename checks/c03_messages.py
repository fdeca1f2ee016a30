"""C03: messages arrive exactly once, in order, at every connected receiver."""
import sys
import threading

import numpy as np

from klang.connections import MessageInput, MessageOutput, MessageRelay
from klang.messages import Note
from vlib.core import Scenario

PROPERTY = 'C03'
CAPACITY = 50
RULE = ('random histories of send / receive (complete, partial, latest-only) / connect / disconnect '
        'over message outputs, relay trees and inputs, every message unique; plus two-thread '
        'histories; non-trivial = at least one message delivered; distinct = distinct history')


class Model:

    def __init__(self, outs, relays, ins):
        self.feeder = {}
        self.queues = {i: [] for i in ins}
        self.outs, self.relays, self.ins = outs, relays, ins

    def receivers(self, src):
        found = []
        for d, s in self.feeder.items():
            if s is src:
                if d in self.queues:
                    found.append(d)
                else:
                    found.extend(self.receivers(d))
        return found

    def loops(self, src, dst):
        while src is not None:
            if src is dst:
                return True
            src = self.feeder.get(src)
        return False


def same(got, want):
    """Same objects (or equal ones of the same type)."""
    return len(got) == len(want) and all(
        a is b or type(a) is type(b) and not isinstance(a, np.ndarray) and a == b for a, b in zip(got, want))


def histories(rng, mon):
    outs = [MessageOutput() for _ in range(rng.randint(1, 3))]
    relays = [MessageRelay() for _ in range(rng.randint(0, 4))]
    ins = [MessageInput() for _ in range(rng.randint(1, 4))]
    m = Model(outs, relays, ins)
    serial = 0
    delivered = 0
    trace = []
    burst = rng.random() < .25
    # any object is a message: repeated, equal and empty ones
    others = rng.random() < .3
    stock = [None, 0, False, '', (), 0., 'again', ('m', 1), ('m', 1), np.zeros(3), Note(60), Note(60, 0.), Note(60)]
    if others:
        stock = rng.sample(stock, rng.randint(1, len(stock)))
    for _ in range(rng.randint(10, 60)):
        op = rng.random()
        if op < .2 or not m.feeder:
            src, dst = rng.choice(outs + relays), rng.choice(ins + relays)
            if dst in m.feeder or m.loops(src, dst):
                continue
            src.connect(dst)
            m.feeder[dst] = src
            trace.append('c')
        elif op < .26:
            dst = rng.choice(list(m.feeder))
            m.feeder.pop(dst).disconnect(dst)
            trace.append('d')
        elif op < .65:
            src = rng.choice(outs) if rng.random() < .85 or not relays else rng.choice(relays)
            for _ in range(rng.randint(20, 130) if burst else rng.randint(1, 6)):
                serial += 1
                msg = rng.choice(stock) if others else ('m', serial)
                if src in relays:
                    (src.push if rng.random() < .5 else src.send)(msg)
                else:
                    src.send(msg)
                for i in m.receivers(src):
                    m.queues[i].append(msg)
                    mon.event('deliveries expected')
            for i in ins:
                if len(m.queues[i]) > CAPACITY:
                    mon.event('overflows')
                    m.queues[i] = m.queues[i][-CAPACITY:]
            trace.append('s')
        elif op < .85:
            i = rng.choice(ins)
            how = rng.randrange(3)
            if how < 2:
                got = list(i.receive())
                want, m.queues[i] = m.queues[i], []
            else:
                k = rng.randint(1, 5)
                got = []
                for msg in i.receive():
                    got.append(msg)
                    if len(got) >= k:
                        break
                want, m.queues[i] = m.queues[i][:k], m.queues[i][k:]
            mon.check(same(got, want), 'exactly-once-in-order',
                      'received %s instead of %s', got, want)
            delivered += len(got)
            trace.append('r%d' % len(got))
        else:
            i = rng.choice(ins)
            got = i.receive_latest()
            want = m.queues[i][-1] if m.queues[i] else None
            m.queues[i] = []
            mon.check(got is want or not others and got == want, 'latest', 'latest is %s instead of %s', got, want)
            mon.check(list(i.receive()) == [], 'latest', 'older messages survived')
            trace.append('l')
    for i in ins:
        got = list(i.receive())
        mon.check(same(got, m.queues[i]), 'exactly-once-in-order',
                  'drain: received %s instead of %s', got, m.queues[i])
        mon.check(list(i.receive()) == [] and i.receive_latest() is None, 'exactly-once-in-order',
                  'something left after draining')
        delivered += len(got)
    mon.event('messages received', delivered)
    if others:
        mon.event('histories with repeated or empty messages')
    mon.case(tuple(trace), len(outs), len(relays), len(ins), nontrivial=delivered > 0)
    mon.sample('history %s, %d received' % (' '.join(trace), delivered))


def fan_out(rng, mon):
    """One output, many receivers, wide and deep trees of relays."""
    out = MessageOutput()
    sources = [out]
    ins = []
    relays = rng.choice([0., .03, .2])
    for _ in range(rng.choice([3, 60, 150, 300])):
        src = rng.choice(sources[-3:] if rng.random() < .5 else sources)
        if rng.random() < relays:
            dst = MessageRelay()
            sources.append(dst)
        else:
            dst = MessageInput()
            ins.append(dst)
        src.connect(dst)
    n = rng.choice([1, 5, CAPACITY, CAPACITY + 3])
    for k in range(n):
        out.send(k)
    want = list(range(n))[-CAPACITY:]
    for i in ins:
        got = list(i.receive())
        mon.check(got == want, 'exactly-once-in-order', '%d receivers: received %s instead of %s', len(ins), got, want)
        mon.event('messages received', len(got))
    mon.case('fan', len(ins), len(sources), n, nontrivial=len(ins) > 1)


def receive_while_sending(rng, mon):
    """A consumer that triggers new messages for itself while iterating."""
    out, inp = MessageOutput(), MessageInput()
    out.connect(inp)
    n = rng.randint(1, 20)
    for k in range(n):
        out.send(k)
    extra = rng.randint(1, 20)
    got = []
    sent = n
    for msg in inp.receive():
        got.append(msg)
        if extra and rng.random() < .5:
            out.send(sent)
            sent += 1
            extra -= 1
    mon.check(got == list(range(sent)), 'exactly-once-in-order', 'reentrant: %s of %d', got, sent)
    mon.case('reentrant', tuple(got))


def threads(rng, mon):
    """A listener thread sends while the audio thread receives (as keyboard and
    network inputs do); flow control keeps the queue below its capacity."""
    out, relay, inp = MessageOutput(), MessageRelay(), MessageInput()
    out.connect(relay)
    relay.connect(inp)
    total = 600
    consumed = [0]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    errors = []

    def producer():
        try:
            for k in range(total):
                while k - consumed[0] > CAPACITY - 10:
                    pass
                out.send(k)
        except BaseException as err:  # pylint: disable=broad-except
            errors.append(err)

    thread = threading.Thread(target=producer)
    thread.start()
    got = []
    batches = []
    latestOnly = rng.random() < .3
    spins = 0
    try:
        while len(got) < total and spins < 3000000:
            spins += 1
            before = len(got)
            for msg in inp.receive():
                got.append(msg)
                consumed[0] = len(got)
                if latestOnly:
                    break
            if len(got) > before:
                batches.append(len(got) - before)
                spins = 0
            elif not thread.is_alive() and not errors and spins > 10:
                for msg in inp.receive():
                    got.append(msg)
                break
    finally:
        consumed[0] = total
        thread.join()
        sys.setswitchinterval(old)
    if errors:
        raise errors[0]
    mon.check(got == list(range(total)), 'exactly-once-in-order',
              'threads: %d of %d messages, first deviation at %s', len(got), total,
              next((i for i, g in enumerate(got) if g != i), None))
    mon.event('messages received across threads', len(got))
    mon.case('threads', tuple(batches))


SCENARIOS = [
    Scenario(histories, 1500, 40000),
    Scenario(fan_out, 60, 1500),
    Scenario(receive_while_sending, 100, 1000),
    Scenario(threads, 12, 200),
]
REQUIRED_EVENTS = {'histories with repeated or empty messages': 20, 'messages received': 1000, 'overflows': 5,
                   'messages received across threads': 1000}
