"""C04: composites behave like the blocks they bundle."""

import numpy as np

from klang.arpeggiator import Arpeggiator
from klang.audio.effects import RingModulator, Tremolo
from klang.audio.envelopes import ADSR
from klang.audio.helpers import INTERVAL
from klang.audio.oscillators import Oscillator
from klang.audio.voices import Voice
from klang.block import Block, collect_connections
from klang.clock import ClockMixin
from klang.composite import Composite, temporarily_unpatch
from klang.config import BUFFER_SIZE
from klang.connections import (
    MessageInput, MessageOutput, MessageRelay, Relay, is_connected,
)
from klang.execution import determine_execution_order, execute
from klang.klang import unravel, validate_global_execution_order
from klang.messages import Note
from klang.sequencer import Sequencer
from vlib.core import Scenario
from vlib.nets import Probe, build, components, random_edges

PROPERTY = 'C04'
RULE = ('random feedback-free networks, cut into (nested) composites with shared or separate value '
        'and message relays in random order and patched before or after the internal order is '
        'determined; run for several cycles against direct evaluation of the flat network; '
        'non-trivial = a composite boundary is crossed; distinct = distinct (edges, partition)')


def topo(n, edges, rng):
    indeg = [0] * n
    for _, b in edges:
        indeg[b] += 1
    ready = [i for i in range(n) if not indeg[i]]
    order = []
    while ready:
        x = ready.pop(rng.randrange(len(ready)))
        order.append(x)
        for a, b in edges:
            if a == x:
                indeg[b] -= 1
                if indeg[b] == 0:
                    ready.append(b)
    return order


def partition(rng, order, depth):
    """Nested consecutive segments of a topological order: no composite level
    feedback can arise.  Returns a list of nodes and sub-lists."""
    if len(order) <= 1 or depth == 0:
        return list(order)
    out = []
    i = 0
    while i < len(order):
        k = rng.randint(1, len(order))
        seg = order[i:i + k]
        i += k
        if rng.random() < .6 and len(seg) < len(order) or rng.random() < .2:
            out.append(partition(rng, seg, depth - 1))
        else:
            out.extend(seg)
    return out


def flatten(tree):
    for x in tree:
        if isinstance(x, list):
            yield from flatten(x)
        else:
            yield x


class Wiring:
    """Builds composites for a partition tree."""

    def __init__(self, rng, blocks, edges, ports, tree):
        self.rng = rng
        self.blocks, self.edges, self.ports = blocks, edges, ports
        self.path = {}
        self.composites = []
        self.children = {}
        self.top = self.make(tree, ())
        self.outRelay = {}
        self.inRelay = {}
        self.todo = []
        self.crossings = 0
        for (a, b), (kind, po, pi) in zip(edges, ports):
            pa, pb = self.path[a], self.path[b]
            common = 0
            while common < len(pa) and common < len(pb) and pa[common] is pb[common]:
                common += 1
            src = (blocks[a].valOut if kind == 'v' else blocks[a].msgOut)[po]
            dst = (blocks[b].valIn if kind == 'v' else blocks[b].msgIn)[pi]
            for comp in reversed(pa[common:]):
                src = self.out_relay(comp, src, kind)
                self.crossings += 1
            for comp in pb[common:]:
                src = self.in_relay(comp, src, kind)
                self.crossings += 1
            self.link(src, dst)
        for comp in self.composites:
            rng.shuffle(comp.inputs)
            rng.shuffle(comp.outputs)

    def make(self, tree, path):
        members = []
        for x in tree:
            if isinstance(x, list):
                # sometimes with ports of its own which lead to no inner block
                comp = Composite(self.rng.choice([0, 0, 0, 1]), self.rng.choice([0, 0, 0, 1]),
                                 'C%d' % len(self.composites))
                self.composites.append(comp)
                self.children[comp] = self.make(x, path + (comp,))
                members.append(comp)
            else:
                self.path[x] = path
                members.append(self.blocks[x])
        return members

    def link(self, src, dst):
        if not is_connected(src, dst):
            self.todo.append((src, dst))

    def out_relay(self, comp, src, kind):
        key = (comp, src)
        if key in self.outRelay and self.rng.random() < .7:
            return self.outRelay[key]
        relay = (Relay if kind == 'v' else MessageRelay)(owner=comp)
        comp.outputs.append(relay)
        self.outRelay[key] = relay
        self.link(src, relay)
        return relay

    def in_relay(self, comp, src, kind):
        key = (comp, src)
        if key in self.inRelay and self.rng.random() < .5:
            return self.inRelay[key]
        relay = (Relay if kind == 'v' else MessageRelay)(owner=comp)
        comp.inputs.append(relay)
        self.inRelay[key] = relay
        self.link(src, relay)
        return relay

    def patch(self, which):
        rest = []
        self.rng.shuffle(self.todo)
        for s, d in self.todo:
            if which(s, d):
                s.connect(d)
            else:
                rest.append((s, d))
        self.todo = rest


def snapshot(items):
    snap = []
    for x in items:
        snap.append((id(x), frozenset(map(id, getattr(x, 'outgoingConnections', ()))),
                     id(getattr(x, 'incomingConnection', None))))
    return snap


def all_ports(blocks):
    return [p for b in blocks for p in b.inputs + b.outputs]


def nested(rng, mon):
    n = rng.randint(2, 9)
    edges = random_edges(rng, n, rng.choice(['dag', 'dag', 'chain', 'tree', 'layers']))
    log = []
    flatEdges = edges
    order = topo(n, edges, rng)
    ports = []
    # unconnected probes first, connections through relays afterwards
    blocks, ports = unconnected(rng, n, edges, log)
    tree = partition(rng, order, rng.randint(1, 3))
    w = Wiring(rng, blocks, edges, ports, tree)
    late = rng.random() < .4
    inside = {c: set(w.children[c]) for c in w.composites}

    def internal(s, d):
        return not late or not (s.owner in inside and d.owner in inside)

    if late:
        # internal patching only: everything which touches a member of a composite
        w.patch(lambda s, d: any(
            (s.owner is c or s.owner in inside[c]) and (d.owner is c or d.owner in inside[c])
            for c in w.composites))
    else:
        w.patch(lambda s, d: True)
    ports_ = all_ports(blocks + w.composites)
    for comp in sorted(w.composites, key=lambda c: rng.random()):
        members = w.children[comp]
        starts = []
        if rng.random() < .5 or not covered(comp, members):
            # one start block per internal component
            comps = member_components(comp, members)
            for group in comps:
                starts.extend(rng.sample(group, rng.randint(1, len(group))))
            rng.shuffle(starts)
        before = snapshot(ports_)
        comp.update_internal_exec_order(*starts)
        mon.check(snapshot(ports_) == before, 'patching-untouched',
                  'determining the internal order of %s changed connections', comp)
        got = list(comp.execOrder)
        mon.check(len(got) == len(members) and set(got) == set(members), 'internal-blocks-once',
                  'internal order %s of members %s (starts %s)',
                  [b.name for b in got], [b.name for b in members], [b.name for b in starts])
        pos = {b: k for k, b in enumerate(got)}
        for b in got:
            for o in b.outputs:
                for d in o.outgoingConnections:
                    if d.owner in pos and d.owner is not b:
                        mon.check(pos[b] < pos[d.owner], 'internal-order',
                                  'inside a feedback-free composite %s runs before its producer %s '
                                  '(edges %s, partition %s)', d.owner.name, b.name, edges, tree)
        mon.event('internal orders')
    w.patch(lambda s, d: True)
    top = determine_execution_order(w.top)
    mon.check(len(top) == len(w.top) and set(top) == set(w.top), 'complete-and-once',
              'top level order %s of %s', [b.name for b in top], [b.name for b in w.top])
    flat = list(unravel(top))
    mon.check(sorted(b.ident for b in flat) == list(range(n)), 'unravel',
              'flattened order %s', [b.name for b in flat])
    check_duplicates_warning(mon, top, False)
    for cycle in range(1, 4):
        del log[:]
        execute(top)
        mon.check(sorted(log) == list(range(n)), 'internal-blocks-once',
                  'cycle %d executed %s of %d blocks', cycle, log, n)
        mon.check(log == [b.ident for b in flat], 'unravel',
                  'flattened order %s but executed %s', [b.ident for b in flat], log)
        value = {}
        for i in order:
            ins = [x.value for x in blocks[i].valIn]
            for (a, b), (kind, po, pi) in zip(edges, ports):
                if b == i and kind == 'v':
                    ins[pi] = hash((value[a], po))
            value[i] = hash(tuple(['b', i, cycle] + ins))
            for po, o in enumerate(blocks[i].valOut):
                mon.check(o.value == hash((value[i], po)), 'same-as-flat',
                          'block %d in cycle %d differs from the flat network '
                          '(edges %s, partition %s)', i, cycle, edges, tree)
            for (a, b), (kind, po, pi) in zip(edges, ports):
                if b == i and kind == 'm':
                    mon.check(blocks[i].got[pi] == [(a, po, cycle)], 'same-as-flat',
                              'block %d got messages %s from %d', i, blocks[i].got[pi], a)
                    mon.event('messages through composites')
    mon.event('relay crossings', w.crossings)
    mon.event('composites', len(w.composites))
    mon.case(sorted(edges), repr(tree), nontrivial=w.crossings > 0)
    mon.sample('edges %s partition %s late=%s' % (edges[:15], tree, late))


def unconnected(rng, n, edges, log):
    kinds = ['m' if rng.random() < .3 else 'v' for _ in edges]
    nIn, nMsg = [0] * n, [0] * n
    nOut = [rng.randint(1, 2) for _ in range(n)]
    ports = []
    for (a, b), kind in zip(edges, kinds):
        arr = nIn if kind == 'v' else nMsg
        if rng.random() < .15:
            arr[b] += 1  # An input which stays unconnected
        ports.append((kind, rng.randrange(nOut[a]), arr[b]))
        arr[b] += 1
    return [Probe(i, nIn[i], nOut[i], nMsg[i], nOut[i], log) for i in range(n)], ports


def covered(comp, members):
    """Does every member hang (possibly indirectly) on a relay of comp?"""
    reached = set()
    for relay in comp.inputs + comp.outputs:
        for b in members:
            if any(p.incomingConnection is relay for p in b.inputs) or any(
                    getattr(relay, 'incomingConnection', None) is p for p in b.outputs):
                reached.add(b)
    return all(set(g) & reached for g in member_components(comp, members))


def member_components(comp, members):
    idx = {b: k for k, b in enumerate(members)}
    edges = []
    for b in members:
        for o in b.outputs:
            for d in o.outgoingConnections:
                if d.owner in idx:
                    edges.append((idx[b], idx[d.owner]))
    ids = components(len(members), edges)
    groups = {}
    for b in members:
        groups.setdefault(ids[idx[b]], []).append(b)
    return list(groups.values())


class _Logger:

    def __init__(self):
        self.warnings = []

    def warning(self, fmt, *args):
        self.warnings.append(fmt % args if args else fmt)

    def __getattr__(self, name):
        return lambda *args, **kwargs: None


def check_duplicates_warning(mon, order, expected):
    logger = _Logger()
    validate_global_execution_order(order, logger)
    mon.check(bool(logger.warnings) == expected, 'duplicate-warning',
              'warnings %s (expected: %s)', logger.warnings, expected)
    mon.event('duplicate warnings' if expected else 'silent validations')


def duplicates(rng, mon):
    """The user is warned exactly when a block would run more than once."""
    blocks = [Block(name='b%d' % i) for i in range(rng.randint(1, 6))]
    pool = []

    def make(depth):
        out = []
        for _ in range(rng.randint(1, 3)):
            if depth and rng.random() < .4:
                c = Composite(name='c')
                c.execOrder = make(depth - 1)
                out.append(c)
            elif blocks and rng.random() < .9:
                b = rng.choice(blocks)
                if rng.random() < .8:
                    blocks.remove(b)
                out.append(b)
            else:
                out.append(Block(name='extra'))
        return out

    order = make(3)
    leaves = list(flat_blocks(order))
    mon.check(list(unravel(order)) == leaves, 'unravel', 'flattening %s', order)
    if leaves:
        check_duplicates_warning(mon, order, len(set(leaves)) < len(leaves))
    mon.case('dup', len(leaves), len(set(leaves)), rng.random())


def flat_blocks(order):
    for b in order:
        if isinstance(b, Composite):
            yield from flat_blocks(b.execOrder)
        else:
            yield b


class _Boom(Exception):
    pass


def unpatching(rng, mon):
    """Temporary unpatching isolates the block and restores everything."""
    n = rng.randint(2, 7)
    edges = random_edges(rng, n, rng.choice(['dag', 'ring', 'any', 'tree']))
    blocks, _ = build(rng, n, edges)
    ports = all_ports(blocks)
    before = snapshot(ports)
    b = rng.choice(blocks)
    others = [c for c in edges if blocks[c[0]] is not b and blocks[c[1]] is not b]
    fail = rng.random() < .4
    try:
        with temporarily_unpatch(b) as inner:
            mon.check(list(collect_connections(b)) == [], 'isolated',
                      'still connected inside the context')
            for p in b.inputs:
                mon.check(not p.connected or p.incomingConnection.owner is b, 'isolated',
                          'still connected inside the context')
            mon.check(determine_execution_order([b]) == [b], 'isolated',
                      'neighbours reachable inside the context')
            if fail:
                raise _Boom()
    except _Boom:
        pass
    mon.check(snapshot(ports) == before,
              'restored-after-error' if fail else 'restored',
              'connections of %s not restored (edges %s)', b, edges)
    mon.event('unpatched with error' if fail else 'unpatched')
    mon.case('unpatch', sorted(edges), b.ident, fail,
             nontrivial=any(b.ident in e for e in edges))


def rewiring(rng, mon):
    """The internal order follows the patching of its last update."""
    comp = Composite(name='comp')
    kinds = [rng.choice([Relay, MessageRelay]) for _ in range(rng.randint(1, 3))]
    comp.inputs.extend(kind(owner=comp) for kind in kinds)
    log = []
    blocks = [Probe(i, 2, 1, 2, 1, log) for i in range(5)]
    chained = {}
    linked = {}
    history = []
    for _ in range(rng.randint(2, 9)):
        relay = rng.randrange(len(kinds))
        what = rng.choice(['patch', 'unpatch', 'chain', 'unchain', 'nothing'])
        port = 'valIn' if kinds[relay] is Relay else 'msgIn'
        if what == 'patch' and relay not in linked:
            b = rng.randrange(5)
            if b not in linked.values():
                comp.inputs[relay].connect(getattr(blocks[b], port)[0])
                linked[relay] = b
        elif what == 'unpatch' and relay in linked:
            comp.inputs[relay].disconnect(getattr(blocks[linked.pop(relay)], port)[0])
        elif what == 'chain':
            a, b = sorted(rng.sample(range(5), 2))
            if b not in chained.values() and a not in chained:
                blocks[a].valOut[0].connect(blocks[b].valIn[1])
                chained[a] = b
        elif what == 'unchain' and chained:
            a = rng.choice(sorted(chained))
            blocks[a].valOut[0].disconnect(blocks[chained.pop(a)].valIn[1])
        history.append((what, relay))
        comp.update_internal_exec_order()
        comps = components(5, list(chained.items()))
        want = {i for i in range(5) if comps[i] in {comps[b] for b in linked.values()}}
        for _ in range(2):
            del log[:]
            comp.update()
            mon.check(len(log) == len(want) and set(log) == want, 'order-of-last-update',
                      'executed %s, patched are %s: %s', log, sorted(want), history)
            mon.check(all(log.index(a) < log.index(b) for a, b in chained.items() if a in want), 'internal-order',
                      'executed %s, chained %s', log, chained)
        mon.event('rewired composites')
    mon.case('rewire', tuple(history), nontrivial=len(linked) > 0)


class Doubler(Composite):
    """Composite with an update of its own. Its blocks are not in an execution order."""

    def __init__(self):
        super().__init__(nOutputs=1)
        self.inputs = [Relay(owner=self)]
        self.count = 0

    def update(self):
        self.count += 1
        self.output.set_value(2. * np.asarray(self.input.value) + self.count)


def own_update(rng, mon):
    """Composites which bring an update of their own (tremolo, arpeggiator, voice...) as inner blocks."""
    kind = rng.choice(['tremolo', 'ring modulator', 'arpeggiator', 'voice', 'doubler', 'sequencer'])
    par = [rng.random() for _ in range(4)]
    pitches = [rng.randint(1, 127) for _ in range(4)]

    def make():
        if kind == 'tremolo':
            return Tremolo(1. + 50. * par[0], par[1], par[2], .1 + .8 * par[3])
        if kind == 'ring modulator':
            return RingModulator(20. + 900. * par[0], 1. + 9. * par[1], 50. * par[2], dryWet=par[3])
        if kind == 'arpeggiator':
            return Arpeggiator((2 + 5 * par[0]) * INTERVAL, 'up')
        if kind == 'voice':
            return Voice(Oscillator(), ADSR(.02 * par[0], .02 * par[1], par[2], .03 * par[3]))
        if kind == 'sequencer':
            return Sequencer([pitches], tempo=300 + 600 * par[0])
        return Doubler()

    alone, inner = make(), make()
    outer = inner
    depth = rng.randint(1, 3)
    for level in range(depth):
        box = Composite(name='box%d' % level)
        if outer.inputs:
            box.inputs = [(MessageRelay if isinstance(outer.input, MessageInput) or isinstance(outer.input, MessageRelay)
                           else Relay)(owner=box)]
            box.input.connect(outer.input)
        box.outputs = [(MessageRelay if isinstance(outer.output, MessageOutput) else Relay)(owner=box)]
        outer.output.connect(box.output)
        box.update_internal_exec_order()
        outer = box
    ears = []
    for b in (alone, outer):
        if isinstance(b.output, MessageOutput):
            ear = MessageInput()
            b.output.connect(ear)
            ears.append(ear)
    cycles = rng.randint(4, 40)
    sounding = 0
    for k in range(cycles):
        ClockMixin.set_current_time(k * INTERVAL)
        if kind in ('arpeggiator', 'voice'):
            while rng.random() < .3:
                note = Note(rng.choice(pitches), rng.choice([0., 1., .5]))
                alone.input.push(note)
                outer.input.push(note)
        elif kind != 'sequencer':
            x = np.random.RandomState(rng.getrandbits(32)).uniform(-1, 1, BUFFER_SIZE)
            alone.input.set_value(x)
            outer.input.set_value(x)
        alone.update()
        outer.update()
        if ears:
            got, want = [list(e.receive()) for e in ears[::-1]]
            sounding += len(want)
            mon.check(got == want, 'own-update', '%s within %d composites, cycle %d: %s instead of %s', kind, depth, k, got,
                      want)
        else:
            got, want = np.asarray(outer.output.value), np.asarray(alone.output.value)
            sounding += int(np.any(want))
            mon.check(got.shape == want.shape and np.array_equal(got, want), 'own-update',
                      '%s within %d composites, cycle %d: differs from the block alone', kind, depth, k)
    mon.event('composites with own update')
    mon.case('own', kind, depth, cycles, round(par[0], 3), nontrivial=sounding > 0)


SCENARIOS = [
    Scenario(nested, 900, 20000),
    Scenario(duplicates, 150, 2000),
    Scenario(unpatching, 400, 6000),
    Scenario(rewiring, 200, 4000),
    Scenario(own_update, 90, 1500),
]
REQUIRED_EVENTS = {'relay crossings': 500, 'composites': 500, 'messages through composites': 100,
                   'composites with own update': 30, 'duplicate warnings': 10, 'silent validations': 100}
