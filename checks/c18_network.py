"""C18: what is sent over the network arrives: complete, in order, unchanged."""
import base64
import json
import logging
import math
import os
import random
import select
import shutil
import socket
import string as strings
import tempfile

import numpy as np

from klang.block import Block
from klang.config import BUFFER_SIZE
from klang.connections import MessageOutput
from klang.execution import determine_execution_order
from klang.messages import Note
from klang.network import JsonCourier, NetworkIn, NetworkMessageIn, NetworkMessageOut, NetworkOut
from vlib.core import Scenario, describe
from vlib.util import Sink

PROPERTY = 'C18'
RULE = ('random JSON values, notes and arrays (all layouts and types) sent in bursts over real UDP and UNIX sockets, '
        'interleaved with malformed datagrams; the received objects are compared in order, type and value; distinct = '
        'distinct histories; non-trivial = at least two objects arrived')
ASSUMPTIONS = ['datagrams on the loopback interface and on UNIX sockets are neither lost nor reordered by the kernel '
               '(bursts stay below the queue lengths)']
BURST = 6   # shortest UNIX datagram queue is 10

logging.getLogger('JsonCourier').setLevel(logging.CRITICAL + 1)


class Address:
    """Fresh receiving courier-like object on a free address."""

    def __init__(self, rng):
        self.folder = None
        self.open = []
        self.unix = rng.random() < .5

    def __enter__(self):
        if self.unix:
            self.folder = tempfile.mkdtemp(prefix='klangnet')
        return self

    def __exit__(self, *exc):
        for one in self.open:
            one.close()   # not left to the garbage collector: descriptors run out
        if self.folder:
            shutil.rmtree(self.folder, ignore_errors=True)

    def new(self, cls, *args, **kwargs):
        """Sending or receiving cls instance, closed at the end."""
        x = cls(*args, **kwargs)
        self.open.append(sock(x))
        return x

    def bound(self, cls, n=[0]):
        """cls bound to a new address: (receiver, address)."""
        if self.unix:
            n[0] += 1
            address = os.path.join(self.folder, 's%d' % n[0])
            return self.new(cls, address, **({'bind': True} if cls is JsonCourier else {})), address
        rx = self.new(cls, ('127.0.0.1', 0), **({'bind': True} if cls is JsonCourier else {}))
        return rx, sock(rx).getsockname()


def courier(x):
    return x if isinstance(x, JsonCourier) else part(x, JsonCourier)


def part(x, cls):
    """Attribute of this type, whatever its name."""
    found, = [v for v in vars(x).values() if isinstance(v, cls)]
    return found


def sock(x):
    return part(courier(x), socket.socket)


def wait(x):
    """Let the kernel hand over datagrams which are on their way."""
    return bool(select.select([sock(x)], [], [], 5.)[0])


# -- objects ------------------------------------------------------------------

def scalar(rng):
    return rng.choice([
        lambda: None, lambda: True, lambda: False,
        lambda: rng.choice([0, 1, -1, 2 ** 63, -10 ** 30, rng.randrange(-1000, 1000)]),
        lambda: rng.choice([0., -0., 5e-324, 1.7e308, 1 / 3, float('inf'), float('-inf'), float('nan'), rng.uniform(-1, 1),
                            math.ldexp(rng.random(), rng.randrange(-300, 300))]),
        lambda: text(rng),
    ])()


def text(rng):
    chars = rng.choice([strings.printable, 'äöüß€ 😀"\\/{}[],:', ' \t\n1', strings.ascii_letters, '\ud800\ue000 \u2028\ufeff\uffff\x00\x7f\x85'])
    return ''.join(rng.choice(chars) for _ in range(rng.choice([0, 1, 3, 10, 40])))


def plain(rng, depth=2):
    """A JSON value."""
    kind = rng.random()
    if depth == 0 or kind < .5:
        return scalar(rng)
    if kind < .75:
        return [plain(rng, depth - 1) for _ in range(rng.randrange(4))]
    dct = {text(rng): plain(rng, depth - 1) for _ in range(rng.randrange(4))}
    if rng.random() < .2:
        dct['type'] = rng.choice(['foo', '', 'note', 'Block', 3, None])
    if rng.random() < .2:
        # looks like a note or an array, but is not one
        for key in rng.sample(['shape', 'data', 'dtype', 'pitch', 'velocity', 'frequency', '__class__'], rng.randrange(1, 5)):
            dct[key] = rng.choice([60, [2], '', 'float64', base64.b64encode(b'x' * 16).decode(), 0.5])
    return dct


def note(rng):
    kw = {}
    if rng.random() < .7:
        kw['velocity'] = rng.choice([0., 1., 0, 1, .5, 1 / 3, rng.random()])
    if rng.random() < .4:
        kw['frequency'] = rng.choice([0., 440., 1e-3, 1 / 3, rng.uniform(20, 20000)])
    return Note(rng.randrange(128), **kw)


def array(rng, nrng):
    shape = rng.choice([(BUFFER_SIZE,), (2, BUFFER_SIZE), (0,), (1,), (3, 4), (2, 3, 4), (), (2, 0), (5,), (300,)])
    dtype = rng.choice(['float64', 'float64', 'float32', 'int64', 'int16', 'uint8', 'bool', 'complex128', '>f8', '<i4', '>i2'])
    x = (nrng.uniform(-100, 100, shape)).astype(dtype) if dtype != 'bool' else nrng.uniform(-1, 1, shape) > 0
    x = np.asarray(x)
    if x.dtype.kind == 'f' and x.size and rng.random() < .3:
        x.flat[rng.randrange(x.size)] = rng.choice([np.nan, np.inf, -np.inf, -0.])
    how = rng.choice(['as is', 'transposed', 'reversed', 'strided', 'fortran', 'read-only', 'view', 'broadcast'])
    if x.ndim:
        if how == 'transposed':
            x = x.T
        elif how == 'reversed':
            x = x[::-1]
        elif how == 'strided':
            x = x[..., ::2]
        elif how == 'fortran':
            x = np.asfortranarray(x)
        elif how == 'view':
            x = x[1:]
        elif how == 'broadcast' and x.size < 100:
            x = np.broadcast_to(x, (2,) + x.shape)
    if how == 'read-only':
        x.setflags(write=False)
    return x


def anything(rng, nrng):
    return rng.choice([lambda: plain(rng), lambda: note(rng), lambda: array(rng, nrng)])()


def listify(x):
    """What JSON makes of x."""
    if isinstance(x, (list, tuple)):
        return [listify(y) for y in x]
    return {k: listify(v) for k, v in x.items()} if isinstance(x, dict) else x


def same(a, b):
    """Received b equals sent a, in value and type."""
    if isinstance(a, np.ndarray):
        return (isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape
                and np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes())
    if type(a) is not type(b):
        return False
    if isinstance(a, Note):
        return tuple(a) == tuple(b) and isinstance(a.pitch, int) == isinstance(b.pitch, int)
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, float):
        return (a != a and b != b) or (a == b and math.copysign(1, a) == math.copysign(1, b))
    return a == b


def compare(mon, sent, received, text_):
    for i, (a, b) in enumerate(zip(sent, received)):
        mon.check(same(a, b), 'object-changed', '%s: object %d %s arrived as %s', text_, i, describe(a), describe(b))
    mon.check(len(sent) == len(received), 'object-lost' if len(sent) > len(received) else 'object-made-up',
              '%s: %d objects sent, %d received: %s / %s', text_, len(sent), len(received),
              describe(sent), describe(received))


def malformed(rng):
    """A datagram and the objects which are decodable before the damage."""
    good = [scalar(rng) for _ in range(rng.choice([0, 0, 1, 2]))]
    good = [x if not isinstance(x, (int, float)) or isinstance(x, bool) else str(x) for x in good]
    head = rng.choice(['', ' ', '\n']).join(json.dumps(x) for x in good)
    kind = rng.choice(['text', 'cut', 'utf8', 'note', 'array', 'deep', 'random'])
    if kind == 'utf8':
        return rng.choice([b'\xff\xfe1', b'"\xc3"', b'\x80', b'[1, "\xe4"]']), []
    if kind == 'text' and rng.random() < .4:
        sep = rng.choice([',', ';', ', ', ' :', '\0', '\n,\n'])
        objs = [scalar(rng) for _ in range(rng.randint(2, 4))]
        objs = [x if isinstance(x, str) else str(x) for x in objs]
        return sep.join(map(json.dumps, objs)).encode(), objs[:1]
    if kind == 'random':
        raw = bytes(rng.choice([0, 1, 128, 255, 192]) for _ in range(rng.randrange(1, 20)))
        return b'\x00' + raw, []
    tail = {
        'text': lambda: rng.choice(['nope', '}', ']', ',', '{1:2}', "'a'", '[1,]', '\\', ':']),
        'cut': lambda: rng.choice(['{"a": 1', '[1, 2', '"abc', '{"a"', '{', '[', '{"type": "Note", "pitch": 6']),
        'note': lambda: json.dumps(rng.choice([
            {'type': 'Note'}, {'type': 'Note', 'pitch': 128}, {'type': 'Note', 'pitch': -1},
            {'type': 'Note', 'pitch': 60, 'velocity': 2}, {'type': 'Note', 'pitch': 'c'},
            {'type': 'Note', 'pitch': 60, 'frequency': -1}, {'type': 'Note', 'pitch': 60, 'foo': 1},
            {'type': 'Note', 'pitch': None}, {'type': 'Note', 'pitch': [60]}])),
        'array': lambda: json.dumps(rng.choice([
            {'type': 'ndarray'}, {'type': 'ndarray', 'data': '', 'dtype': 'nope', 'shape': [0]},
            {'type': 'ndarray', 'data': 'AAA', 'dtype': 'float64', 'shape': [1]},
            {'type': 'ndarray', 'data': base64.b64encode(b'x' * 16).decode(), 'dtype': 'float64', 'shape': [3]},
            {'type': 'ndarray', 'data': base64.b64encode(b'x' * 15).decode(), 'dtype': 'float64', 'shape': [2]},
            {'type': 'ndarray', 'data': base64.b64encode(b'x' * 8).decode(), 'dtype': 'object', 'shape': [1]},
            {'type': 'ndarray', 'data': 5, 'dtype': 'float64', 'shape': [1]},
            {'type': 'ndarray', 'data': base64.b64encode(b'x' * 8).decode(), 'dtype': 'float64', 'shape': 'a'}])),
        'deep': lambda: '[' * 5000,
    }[kind]()
    return (head + tail).encode(), good


# -- scenarios ----------------------------------------------------------------

def drain(mon, rx, expected):
    """Everything which was received in one go, once the kernel has it."""
    if expected:
        mon.check(wait(rx), 'object-lost', 'nothing arrives for %s', describe(expected))
    return list(rx.receive_objects())


def round_trips(rng, mon):
    """Bursts of objects of several senders, mixed with malformed and empty datagrams."""
    nrng = np.random.RandomState(rng.randrange(2 ** 31))
    with Address(rng) as net:
        rx, address = net.bound(JsonCourier)
        other, elsewhere = net.bound(JsonCourier)
        senders = [net.new(JsonCourier, address) for _ in range(rng.choice([1, 1, 2]))]
        history = []
        total = 0
        for _ in range(rng.randrange(2, 8)):
            sent, strange = [], []
            for _ in range(rng.randrange(BURST)):
                tx = rng.choice(senders)
                kind = rng.random()
                if kind < .6:
                    obj = anything(rng, nrng)
                    tx.send_object(obj)
                    sent.append(listify(obj) if not isinstance(obj, (Note, np.ndarray)) else obj)
                    history.append(describe(obj, 60))
                elif kind < .7:
                    objs = [rng.choice([[1], {'a': 2}, 'x', []]) for _ in range(rng.choice([1, 2, 3, 4, rng.randrange(5, 150)]))]
                    raw = rng.choice(['', ' ', '\n', '\t ']).join(map(json.dumps, objs))
                    raw = rng.choice(['', ' ', '\n', '\t', '\r\n ']) + raw + rng.choice(['', ' ', '\n', '\r\n'])
                    sock(tx).sendto(raw.encode(), address)
                    sent.extend(objs)
                    history.append('raw %r' % raw)
                    mon.event('datagrams with several objects')
                elif kind < .8:
                    sock(tx).sendto(b'', address)
                    history.append('empty')
                    mon.event('empty datagrams')
                elif kind < .95:
                    raw, good = malformed(rng)
                    sock(tx).sendto(raw, address)
                    sent.extend(good)
                    history.append('malformed %r' % raw[:60])
                    mon.event('malformed datagrams')
                else:
                    obj = plain(rng)
                    net.new(JsonCourier, elsewhere).send_object(obj)
                    strange.append(listify(obj))
            received = drain(mon, rx, sent)
            mon.event('objects received', len(received))
            compare(mon, sent, received, 'history %s' % history[-12:])
            compare(mon, strange, drain(mon, other, strange), 'other address')
            total += len(sent)
            mon.check(list(rx.receive_objects()) == [], 'object-made-up', 'objects received twice')
        mon.case(net.unix, tuple(history), nontrivial=total > 1)
        mon.sample('unix=%s %s' % (net.unix, history[:4]))


def big(rng, mon):
    """Arrays up to (nearly) the size of a datagram."""
    nrng = np.random.RandomState(rng.randrange(2 ** 31))
    with Address(rng) as net:
        rx, address = net.bound(JsonCourier)
        tx = net.new(JsonCourier, address)
        n = rng.choice([100, 200, 256, 257, 512, 1024, rng.randrange(1, 5800), 5800, 6120])
        x = nrng.uniform(-1, 1, n)
        tx.send_object(x)
        compare(mon, [x], drain(mon, rx, [x]), 'array of %d samples' % n)
        s = ''.join(rng.choice(strings.ascii_letters) for _ in range(rng.choice([1000, 1022, 1024, 4094, 4096, 40000, 65505, rng.randint(64900, 65505)])))
        tx.send_object(s)
        compare(mon, [s], drain(mon, rx, [s]), 'text of %d characters' % len(s))
        mon.case(net.unix, n, len(s))
        mon.event('big datagrams', 2)


class Source(Block):

    """Value and message source."""

    def __init__(self):
        super().__init__(nOutputs=1)
        self.outputs.append(MessageOutput(owner=self))
        self.script = []

    def update(self):
        value, messages = self.script.pop(0)
        self.outputs[0].set_value(value)
        for msg in messages:
            self.outputs[1].send(msg)


def blocks(rng, mon):
    """Value and message blocks of two networks: each updated at its own pace."""
    nrng = np.random.RandomState(rng.randrange(2 ** 31))
    with Address(rng) as net:
        valueIn, va = net.bound(NetworkIn)
        msgIn, ma = net.bound(NetworkMessageIn)
        sources = [Source()]
        valueOut, msgOut = net.new(NetworkOut, va), net.new(NetworkMessageOut, ma)
        sources[0].outputs[0].connect(valueOut.input)
        for src in sources:
            src.outputs[1].connect(msgOut.input)
        sink = Sink()
        msgIn.output.connect(sink)
        order = list(determine_execution_order(sources + [valueOut, msgOut]))
        text_ = []
        arrived = valueIn.output.value
        sentValues, sentMessages = [], []
        total = 0
        for _ in range(rng.randrange(4, 16)):
            if rng.random() < .6 and len(sentValues) < BURST and len(sentMessages) < BURST - 4:
                new = {}
                for src in sources:
                    value = anything(rng, nrng)
                    if isinstance(value, (list, dict)):
                        value = listify(value)
                    messages = [note(rng) if rng.random() < .8 else plain(rng) for _ in range(rng.choice([0, 0, 1, 2]))]
                    if messages and rng.random() < .3:
                        messages[-1] = messages[0]      # the same once more is sent once more
                    src.script.append((value, messages))
                    new[src] = value, [m if isinstance(m, Note) else listify(m) for m in messages]
                for block in order:
                    block.update()
                sentValues.append(new[sources[0]][0])
                for src in sorted(sources, key=order.index):
                    sentMessages.extend(new[src][1])
                text_.append('send')
            else:
                if sentValues:
                    mon.check(wait(valueIn), 'object-lost', 'value does not arrive')
                    arrived = sentValues[-1]
                valueIn.update()
                mon.check(same(arrived, valueIn.output.value), 'value-not-latest', 'sent values %s, received %s',
                          describe(sentValues), describe(valueIn.output.value))
                if sentMessages:
                    mon.check(wait(msgIn), 'object-lost', 'messages do not arrive')
                msgIn.update()
                compare(mon, sentMessages, list(sink.receive()), 'messages')
                total += len(sentMessages)
                mon.event('messages received', len(sentMessages))
                sentValues, sentMessages = [], []
                text_.append('receive')
        mon.case(net.unix, tuple(text_), len(sources), total, rng.random(), nontrivial=total > 1)


def survive(rng, mon):
    """Garbage from the network leaves values, messages and the engine alone."""
    with Address(rng) as net:
        valueIn, va = net.bound(NetworkIn)
        msgIn, ma = net.bound(NetworkMessageIn)
        sink = Sink()
        msgIn.output.connect(sink)
        raw = sock(net.new(JsonCourier, va))
        last = valueIn.output.value
        history = []
        for _ in range(rng.randrange(2, 10)):
            expected = []
            for _ in range(rng.randrange(1, BURST)):
                if rng.random() < .75:
                    data, good = malformed(rng)
                    history.append(data[:40])
                else:
                    obj = note(rng)
                    data, good = json.dumps(dict(zip(('pitch', 'velocity', 'frequency'), obj), type='Note')).encode(), [obj]
                raw.sendto(data, va)
                raw.sendto(data, ma)
                expected.extend(good)
                mon.event('datagrams')
            wait(valueIn)
            valueIn.update()
            if expected:
                last = expected[-1]
            mon.check(same(last, valueIn.output.value), 'value-not-latest', 'value %s instead of %s after %s',
                      describe(valueIn.output.value), describe(last), history[-6:])
            wait(msgIn)
            msgIn.update()
            compare(mon, expected, list(sink.receive()), 'after %s' % history[-6:])
        mon.case(tuple(history), nontrivial=len(history) > 1)


SCENARIOS = [
    Scenario(round_trips, 1000, 20000),
    Scenario(big, 150, 3000),
    Scenario(blocks, 500, 10000),
    Scenario(survive, 500, 10000),
]
REQUIRED_EVENTS = {'objects received': 1000, 'messages received': 200, 'malformed datagrams': 200,
                   'empty datagrams': 100, 'big datagrams': 100}
