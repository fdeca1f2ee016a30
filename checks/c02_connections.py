"""C02: the connection graph stays consistent under any patching history."""
from klang.block import (
    Block, collect_connections, input_connections, input_neighbors, output_connections,
    output_neighbors, pipe_operator,
)
import klang.connections
from klang.connections import (
    Input, MessageInput, MessageOutput, MessageRelay, Output, Relay, are_connected, is_connected,
    IncompatibleConnection, InputAlreadyConnected,
)
from vlib.core import Scenario, raises

PROPERTY = 'C02'
RULE = ('random histories of connect / disconnect / pipe operations (legal and illegal, from either '
        'side) over outputs, relays and inputs of both families, compared after every step with a '
        'shadow graph; distinct = distinct final shadow graph + history length; non-trivial = at '
        'least one accepted and one rejected operation')


class Shadow:
    """Independent model: feeder[input] = output."""

    def __init__(self, items):
        self.items = items
        self.feeder = {}

    def kind(self, x):
        name = type(x).__name__
        family = 'msg' if name.startswith('Message') else 'val'
        role = {'Output': 'out', 'Input': 'in', 'Relay': 'relay'}[name.replace('Message', '')]
        return family, role

    def compatible(self, src, dst):
        fs, rs = self.kind(src)
        fd, rd = self.kind(dst)
        return fs == fd and rs in ('out', 'relay') and rd in ('in', 'relay')

    def would_loop(self, src, dst):
        x = src
        while x is not None:
            if x is dst:
                return True
            x = self.feeder.get(x)
        return False

    def outs(self, x):
        return {d for d, s in self.feeder.items() if s is x}

    def root(self, x):
        while x in self.feeder:
            x = self.feeder[x]
        return x


def compare(mon, sh, when):
    for x in sh.items:
        _, role = sh.kind(x)
        if role in ('in', 'relay'):
            src = sh.feeder.get(x)
            mon.check(x.incomingConnection is src, 'single-incoming',
                      'after %s: incoming of %s is %s instead of %s', when, x, x.incomingConnection, src)
        if role in ('out', 'relay'):
            got = set(x.outgoingConnections)
            mon.check(got == sh.outs(x), 'symmetric',
                      'after %s: outgoing of %s is %s instead of %s', when, x, got, sh.outs(x))
        if role == 'in':
            mon.check(bool(x.connected) == (x in sh.feeder), 'connected-flag',
                      'after %s: %s connected flag', when, x)
        elif role == 'out':
            mon.check(bool(x.connected) == bool(sh.outs(x)), 'connected-flag',
                      'after %s: %s connected flag', when, x)
    for a in sh.items:
        for b in sh.items:
            want = sh.feeder.get(b) is a and a is not None
            if is_connected(a, b) != want:
                mon.check(False, 'is-connected', 'after %s: is_connected(%s, %s) is %s',
                          when, a, b, not want)
    mon.evaluations += 1


def names(sh, *xs):
    return ' '.join('%s#%d' % (type(x).__name__, sh.items.index(x)) for x in xs)


def histories(rng, mon):
    classes = [Output, Input, Relay, MessageOutput, MessageInput, MessageRelay]
    # few keys, so that histories collide
    items = [cls() for cls in classes for _ in range(rng.randint(1, 3))]
    rng.shuffle(items)
    if rng.random() < .5:
        items = [x for x in items if not type(x).__name__.startswith('Message')]
    sh = Shadow(items)
    fallback = {}
    for k, x in enumerate(items):
        if isinstance(x, (Input, Output)):
            fallback[x] = ('start', k)
            x.set_value(fallback[x])
    accepted = rejected = 0
    for step in range(rng.randint(5, 40)):
        op = rng.random()
        a, b = rng.choice(items), rng.choice(items)
        if op < .5:  # connect
            if rng.random() < .7:
                pairs = [(s, d) for s in items for d in items
                         if sh.compatible(s, d) and not sh.would_loop(s, d)]
                if not pairs:
                    continue
                a, b = rng.choice(pairs)
            side = rng.randrange(3)
            ra, rb = sh.kind(a)[1], sh.kind(b)[1]
            # an Input / Output side call states the direction explicitly; a relay
            # decides by the type of its partner
            if side == 1 and not (rb == 'in' or (rb == 'relay' and ra == 'out')):
                side = 0
            if not hasattr(a, 'connect') or (side == 0 and ra == 'in'):
                side = 2
            if side == 0 and ra == 'relay' and rb == 'out':
                continue  # direction flips by design
            if sh.compatible(a, b) and b not in sh.feeder and sh.would_loop(a, b):
                continue  # relay loops have no meaning
            when = 'connect %s (side %d)' % (names(sh, a, b), side)
            if side == 0:
                err = raises(a.connect, b)
            elif side == 1:
                err = raises(b.connect, a)
            else:
                err = raises(getattr(klang.connections, 'make_connection', type(a).connect), a, b)
            if not sh.compatible(a, b):
                mon.check(isinstance(err, IncompatibleConnection), 'rejects-incompatible',
                          '%s: raised %r', when, err)
                rejected += 1
            elif b in sh.feeder:
                mon.check(isinstance(err, InputAlreadyConnected), 'rejects-second-source',
                          '%s: raised %r', when, err)
                rejected += 1
            else:
                mon.check(err is None, 'accepts-legal', '%s: raised %r', when, err)
                sh.feeder[b] = a
                accepted += 1
        elif op < .8:  # disconnect
            if sh.feeder and rng.random() < .7:
                b = rng.choice(list(x for x in items if x in sh.feeder))
                a = sh.feeder[b]
            ra, rb = sh.kind(a)[1], sh.kind(b)[1]
            side = rng.randrange(2)
            if side == 1 and not (rb == 'in' or (rb == 'relay' and ra == 'out')):
                side = 0
            if side == 0 and not (ra == 'out' or (ra == 'relay' and rb != 'out')):
                continue
            when = 'disconnect %s (side %d)' % (names(sh, a, b), side)
            err = raises(a.disconnect, b) if side == 0 else raises(b.disconnect, a)
            if sh.feeder.get(b) is a:
                mon.check(err is None, 'accepts-legal', '%s: raised %r', when, err)
                del sh.feeder[b]
                accepted += 1
            else:
                if not sh.compatible(a, b):
                    mon.check(isinstance(err, IncompatibleConnection), 'rejects-incompatible',
                              '%s: raised %r', when, err)
                rejected += 1
        else:  # write a value somewhere
            vals = [x for x in items if x in fallback]
            if not vals:
                continue
            x = rng.choice(vals)
            fallback[x] = rng.choice([('set', step), ('set', step), None, False, 0, 0., '', [], ()])
            if rng.random() < .5:
                x.set_value(fallback[x])
            else:
                x.value = fallback[x]
            when = 'set %s' % names(sh, x)
        compare(mon, sh, when)
        for x in fallback:
            want = fallback[sh.root(x)]
            mon.check(x.value is want and x.get_value() is want, 'value-from-source',
                      'after %s: %s reads %r instead of %r', when, names(sh, x), x.value, want)
        if rng.random() < .2:
            chain = [rng.choice(items)]
            for _ in range(rng.choice([1, 2, 3, rng.randint(4, 9)])):
                nxt = [d for d in items if sh.feeder.get(d) is chain[-1]]
                chain.append(rng.choice(nxt) if nxt and rng.random() < .8 else rng.choice(items))
            want = all(sh.feeder.get(d) is s for s, d in zip(chain, chain[1:]))
            mon.check(are_connected(*chain) == want, 'is-connected',
                      'are_connected(%s) is %s', names(sh, *chain), not want)
    mon.event('accepted operations', accepted)
    mon.event('rejected operations', rejected)
    mon.case(sorted((items.index(d), items.index(s)) for d, s in sh.feeder.items()),
             accepted, rejected, nontrivial=accepted and rejected)
    mon.sample('%d items, %d accepted, %d rejected, final %s' % (
        len(items), accepted, rejected, [names(sh, s, d) for d, s in sh.feeder.items()]))


def block_patching(rng, mon):
    """The pipe operator and block level views."""
    n = rng.randint(2, 6)
    blocks = []
    for i in range(n):
        b = Block(rng.randint(0, 2), rng.randint(0, 2), name=str(i))
        if rng.random() < .3:
            b.inputs.insert(rng.randint(0, len(b.inputs)), MessageInput(owner=b))
        if rng.random() < .3:
            b.outputs.insert(rng.randint(0, len(b.outputs)), MessageOutput(owner=b))
        if rng.random() < .2:
            b.inputs.insert(rng.randint(0, len(b.inputs)), Relay(owner=b))
        blocks.append(b)
    items = [x for b in blocks for x in b.inputs + b.outputs]
    items += [Output(), Input()]
    sh = Shadow(items)
    ok = bad = 0
    for _ in range(rng.randint(3, 20)):
        left = rng.choice(blocks + [rng.choice(items)])
        right = rng.choice(blocks + [rng.choice(items)])
        src = (left.outputs[0] if left.outputs else None) if isinstance(left, Block) else left
        dst = (right.inputs[0] if right.inputs else None) if isinstance(right, Block) else right
        legal = (src is not None and dst is not None and sh.compatible(src, dst)
                 and dst not in sh.feeder)
        if legal and sh.would_loop(src, dst):
            continue
        if src is None or dst is None:
            kind = AttributeError
        elif sh.kind(src)[1] == 'in' or sh.kind(dst)[1] == 'out':
            kind = TypeError
        elif sh.compatible(src, dst):
            kind = InputAlreadyConnected
        else:
            kind = IncompatibleConnection
        result = []
        if isinstance(left, Block) or isinstance(right, Block):
            err = raises(lambda: result.append(left | right))
        else:
            err = raises(lambda: result.append(pipe_operator(left, right)))
        if legal:
            mon.check(err is None, 'pipe-connects', 'legal pipe raised %r', err)
            mon.check(result[0] is dst.owner, 'pipe-returns-right-block',
                      'pipe returned %s', result[0])
            sh.feeder[dst] = src
            ok += 1
        else:
            mon.check(isinstance(err, kind), 'pipe-rejects',
                      'pipe %s | %s raised %r instead of %s', left, right, err, kind.__name__)
            bad += 1
        compare(mon, sh, 'pipe')
        for b in blocks:
            wantIn = [(sh.feeder[i], i) for i in b.inputs if i in sh.feeder
                      and sh.feeder[i].owner is not b]
            mon.check(list(input_connections(b)) == wantIn, 'block-views', 'input connections')
            wantOut = {(o, d) for o in b.outputs for d in sh.outs(o) if d.owner is not b}
            gotOut = list(output_connections(b))
            mon.check(len(gotOut) == len(wantOut) and set(gotOut) == wantOut, 'block-views',
                      'output connections')
            got = list(collect_connections(b))
            mon.check(sorted(map(id2, got)) == sorted(map(id2, wantIn + list(wantOut))),
                      'block-views', 'connections')
            mon.check(list(input_neighbors(b)) == [s.owner for s, _ in wantIn if s.owner],
                      'block-views', 'input neighbors')
            gotN = sorted(map(id, output_neighbors(b)))
            mon.check(gotN == sorted(id(d.owner) for _, d in wantOut if d.owner),
                      'block-views', 'output neighbors')
    for b in blocks:
        mon.check(b.nInputs == len(b.inputs) and b.nOutputs == len(b.outputs), 'block-views', 'counts')
    mon.event('accepted operations', ok)
    mon.event('rejected operations', bad)
    mon.case('pipe', sorted((items.index(d), items.index(s)) for d, s in sh.feeder.items()),
             ok, bad, nontrivial=ok and bad)


def id2(pair):
    return id(pair[0]), id(pair[1])


def paths(rng, mon):
    """Chains of relays: connected from end to end, until any single link is cut."""
    n = rng.choice([0, 1, 2, 3, rng.randint(4, 12)])
    message = rng.random() < .4
    if message:
        chain = [MessageOutput()] + [MessageRelay() for _ in range(n)] + [MessageInput()]
    else:
        chain = [Output()] + [Relay() for _ in range(n)] + [Input()]
    links = list(zip(chain, chain[1:]))
    def forward(s, d):
        # Seen from a relay, both directions are possible: it leads to the argument.
        return rng.random() < .5 or (s is not chain[0] and d is not chain[-1])

    for s, d in rng.sample(links, len(links)):
        if forward(s, d):
            s.connect(d)
        else:
            d.connect(s)

    def arrives():
        token = object()
        if message:
            chain[0].send(token)
            return list(chain[-1].receive()) == [token]
        chain[0].set_value(token)
        return chain[-1].value is token and chain[-1].get_value() is token

    text = '%d relays' % n
    mon.check(are_connected(*chain), 'path', '%s: not connected', text)
    mon.check(arrives(), 'path', '%s: nothing arrives', text)
    mon.check(not n or not is_connected(chain[0], chain[-1]), 'path', '%s: the ends are connected directly', text)
    for _ in range(3):
        k = rng.randrange(len(links))
        s, d = links[k]
        if forward(s, d):
            s.disconnect(d)
        else:
            d.disconnect(s)
        mon.check(not are_connected(*chain), 'path', '%s: connected although link %d is cut', text, k)
        mon.check(not arrives(), 'path', '%s: arrives although link %d is cut', text, k)
        mon.check(are_connected(*chain[:k + 1]) and are_connected(*chain[k + 1:]), 'path', '%s: parts around link %d', text, k)
        foreign = (MessageOutput if message else Output)()
        foreign.connect(d)
        mon.check(not are_connected(*chain), 'path', '%s: connected although link %d leads elsewhere', text, k)
        foreign.disconnect(d)
        s.connect(d)
        mon.check(are_connected(*chain) and arrives(), 'path', '%s: link %d was restored', text, k)
    mon.event('paths')
    mon.case('path', n, message)


SCENARIOS = [
    Scenario(histories, 1200, 30000),
    Scenario(paths, 150, 2000),
    Scenario(block_patching, 600, 15000),
]
REQUIRED_EVENTS = {'accepted operations': 500, 'rejected operations': 500}
