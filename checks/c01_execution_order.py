"""C01: execution order of block networks."""
import logging

import numpy as np

from klang.composite import Composite
from klang.execution import determine_execution_order, execute
from klang.graph import (
    find_back_edges, get_predecessors, get_sinks, get_sources, get_successors, graph_matrix, remove_back_edges,
    topological_sorting,
)
from vlib.core import Scenario
from vlib.nets import Probe, build, components, random_edges, sccs

PROPERTY = 'C01'
RULE = ('random block networks (value and message connections, shared outputs, parallel connections, '
        'self connections, feedback) and random starting blocks; a case is non-trivial when it has '
        'at least one connection between different blocks; distinct = distinct (edges, starts)')
STYLES = ['dag', 'dag', 'chain', 'tree', 'layers', 'ring', 'any', 'star']


def check_order(mon, n, edges, starts, order, what):
    comp = components(n, edges)
    want = {i for i in range(n) if comp[i] in {comp[s] for s in starts}}
    mon.check(sorted(order) == sorted(want), 'complete-and-once',
              '%s: order %s does not contain each of %s exactly once (edges %s, starts %s)',
              what, order, sorted(want), edges, starts)
    pos = {node: k for k, node in enumerate(order)}
    scc = sccs(n, edges)
    acyclic = all(scc[a] != scc[b] for a, b in edges)
    for a, b in edges:
        if scc[a] != scc[b] and a in pos:
            mon.check(pos[a] < pos[b], 'producer-first',
                      '%s: %d feeds %d but runs after it; order %s edges %s starts %s',
                      what, a, b, order, edges, starts)
    mon.event('acyclic networks' if acyclic else 'networks with feedback')
    return acyclic


def network_orders(rng, mon):
    n = rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 14, 20])
    edges = random_edges(rng, n, rng.choice(STYLES))
    blocks, _ = build(rng, n, edges)
    starts = rng.sample(range(n), rng.randint(1, min(n, 4)))
    if rng.random() < .2:
        starts.append(rng.choice(starts))
    arg = [blocks[s] for s in starts]
    kind = rng.randrange(3)
    order = determine_execution_order(arg if kind == 0 else iter(arg) if kind == 1 else tuple(arg))
    for b in order:
        mon.check(isinstance(b, Probe), 'complete-and-once', 'foreign object in order: %r', b)
    ids = [b.ident for b in order]
    check_order(mon, n, edges, starts, ids, 'network')
    mon.case(sorted(edges), tuple(starts), nontrivial=any(a != b for a, b in edges))
    mon.sample('n=%d edges=%s starts=%s -> %s' % (n, edges[:20], starts, ids))


def fresh_values(rng, mon):
    """Run a feedback-free network for several cycles: every consumer must see
    what its producers computed in this very cycle."""
    n = rng.randint(2, 12)
    edges = random_edges(rng, n, rng.choice(['dag', 'chain', 'tree', 'layers']))
    scc = sccs(n, edges)
    edges = [e for e in edges if scc[e[0]] != scc[e[1]]]
    log = []
    blocks, ports = build(rng, n, edges, log)
    start = rng.randrange(n)
    order = determine_execution_order([blocks[start]])
    active = {b.ident for b in order}
    topo = topo_order(n, edges)
    for cycle in range(1, rng.randint(2, 5)):
        del log[:]
        execute(order)
        mon.check(sorted(log) == sorted(active), 'complete-and-once',
                  'cycle ran %s instead of %s', log, sorted(active))
        value = {}
        for i in topo:
            if i not in active:
                continue
            ins = [x.value for x in blocks[i].valIn]
            for (a, b), (kind, po, pi) in zip(edges, ports):
                if b == i and kind == 'v':
                    ins[pi] = hash((value[a], po))
            value[i] = hash(tuple(['b', i, cycle] + ins))
            for po, o in enumerate(blocks[i].valOut):
                mon.check(o.value == hash((value[i], po)), 'current-cycle-data',
                          'block %d computed from stale data in cycle %d (edges %s)', i, cycle, edges)
            for (a, b), (kind, po, pi) in zip(edges, ports):
                if b == i and kind == 'm':
                    mon.check(blocks[i].got[pi] == [(a, po, cycle)], 'current-cycle-data',
                              'block %d got messages %s from %d in cycle %d',
                              i, blocks[i].got[pi], a, cycle)
                    mon.event('messages seen in the cycle they were sent')
    mon.case('fresh', sorted(edges), start, nontrivial=bool(edges))


def topo_order(n, edges):
    indeg = [0] * n
    for _, b in edges:
        indeg[b] += 1
    todo = [i for i in range(n) if not indeg[i]]
    out = []
    while todo:
        x = todo.pop()
        out.append(x)
        for a, b in edges:
            if a == x:
                indeg[b] -= 1
                if not indeg[b]:
                    todo.append(b)
    return out


def matrix_orders(rng, mon):
    """Topological sorting of plain adjacency matrices."""
    big = rng.random() < .04
    n = rng.randint(12, 40) if big else rng.randint(1, 14)
    edges = random_edges(rng, n, rng.choice(STYLES))
    if big and rng.random() < .6:
        # many loops
        density = rng.uniform(.1, .9)
        edges = [(a, b) for a in range(n) for b in range(n) if rng.random() < density]
        mon.event('dense graphs')
    if edges and rng.random() < .5:
        graph = graph_matrix(edges, order=n)
    else:
        graph = np.zeros((n, n), dtype=int)
        for a, b in edges:
            graph[a, b] = 1
    keep = graph.copy()
    for a in range(n):
        for b in range(n):
            mon.evaluations += 0
            if bool(graph[a, b]) != ((a, b) in edges):
                mon.check(False, 'adjacency', 'matrix %s for edges %s', graph.tolist(), edges)
    order = [int(i) for i in topological_sorting(graph)]
    check_order(mon, n, edges, list(range(n)), order, 'matrix')
    # neighbours
    for a in range(n):
        mon.check(sorted(map(int, get_successors(graph, a))) == sorted({y for x, y in edges if x == a}), 'neighbours',
                  'successors of %d: %s (%s)', a, get_successors(graph, a), edges)
        mon.check(sorted(map(int, get_predecessors(graph, a))) == sorted({x for x, y in edges if y == a}), 'neighbours',
                  'predecessors of %d: %s (%s)', a, get_predecessors(graph, a), edges)
    mon.check(sorted(map(int, get_sources(graph))) == sorted(set(range(n)) - {b for _, b in edges}), 'neighbours', 'sources')
    mon.check(sorted(map(int, get_sinks(graph))) == sorted(set(range(n)) - {a for a, _ in edges}), 'neighbours', 'sinks')
    if edges:
        both = graph_matrix(edges, directed=False, order=n)
        mon.check((both == ((keep + keep.T) > 0)).all(), 'adjacency', 'undirected matrix %s for %s', both.tolist(), edges)
        mon.check((graph_matrix(edges) == keep[:1 + max(map(max, edges)), :1 + max(map(max, edges))]).all(), 'adjacency',
                  'matrix of unknown order for %s', edges)
    # only connections within a loop are cut, and all loops are
    scc = sccs(n, edges)
    back = [(int(a), int(b)) for a, b in find_back_edges(graph)]
    mon.check(all(e in edges and scc[e[0]] == scc[e[1]] for e in back), 'back-edges', 'back edges %s of %s', back, edges)
    rest = [(int(a), int(b)) for a, b in zip(*np.nonzero(remove_back_edges(graph)))]
    mon.check(set(rest) == set(edges) - set(back), 'back-edges', 'without back edges %s: %s of %s', back, rest, edges)
    scc = sccs(n, rest)
    mon.check(all(scc[a] != scc[b] for a, b in rest), 'back-edges', 'loops left in %s after removing %s', edges, back)
    mon.check((graph == keep).all(), 'graph-untouched', 'sorting changed the graph %s', edges)
    mon.case('matrix', n, sorted(edges), nontrivial=any(a != b for a, b in edges))


def large_networks(rng, mon):
    """Bounded progress on bigger and denser networks."""
    style = rng.choice(['chain', 'dag', 'ring', 'layers', 'any', 'complete', 'star', 'star'])
    n = rng.randint(30, 60)
    if style == 'complete':
        n = rng.randint(8, 26)
        perm = list(range(n))
        if rng.random() < .5:
            perm.reverse()
        else:
            rng.shuffle(perm)
        edges = [(perm[i], perm[j]) for i in range(n) for j in range(i + 1, n)]
    else:
        edges = random_edges(rng, n, style)
    blocks, _ = build(rng, n, edges, messages=False)
    start = rng.randrange(n)
    order = determine_execution_order([blocks[start]])
    check_order(mon, n, edges, [start], [b.ident for b in order], 'large')
    mon.case('large', style, n, len(edges), start)


def long_chains(rng, mon):
    """Thousands of blocks in a row, with and without feedback, found from any of them."""
    n = rng.randint(4000, 6000)
    perm = list(range(n))
    if rng.random() < .5:
        perm.reverse()
    elif rng.random() < .5:
        rng.shuffle(perm)
    edges = [(perm[i], perm[i + 1]) for i in range(n - 1)]
    if rng.random() < .5:
        edges.append((perm[-1], perm[rng.randrange(n)]))
    blocks, _ = build(rng, n, edges, messages=False)
    start = rng.randrange(n)
    order = determine_execution_order([blocks[start]])
    ids = [b.ident for b in order]
    mon.check(len(ids) == n and set(ids) == set(range(n)), 'complete-and-once', '%d of %d blocks in a row', len(ids), n)
    if len(edges) < n:
        mon.check(ids == perm, 'producer-first', 'order of %d blocks in a row', n)
    mon.event('blocks in a row', n)
    mon.case('long', n, start, perm[:9])


class _Stop(Exception):
    pass


class OwnPart(Probe, Composite):
    """Composite which does its work itself (like Tremolo): nothing inside."""
    execOrder = ()


def main_loop(rng, mon):
    """The real main loop (non-audio) executes the network cycle by cycle."""
    from klang.klang import run_klang
    n = rng.randint(2, 6) if rng.random() < .5 else rng.randint(6, 24)
    # several unconnected parts: only what is reachable from the given blocks runs
    edges = [(a, b) for a, b in random_edges(rng, n, rng.choice(['dag', 'ring', 'any', 'tree'])) if n < 7 or a // 3 == b // 3]
    log = []
    blocks, _ = build(rng, n, edges, log)
    parts = rng.choice([0., 0., .5, 1.])
    for b in blocks:
        if rng.random() < parts:
            b.__class__ = OwnPart
    touched = {i for e in edges for i in e}
    for i, b in enumerate(blocks):
        if i not in touched and rng.random() < .5:     # nothing but an update
            b.inputs, b.outputs = [], []
    comp = components(n, edges)
    starts = rng.sample(range(n), rng.randint(1, 2) if rng.random() < .5 else rng.randint(1, n))
    active = {i for i in range(n) if comp[i] in {comp[s] for s in starts}}
    cycles = 3
    calls = []
    # a sentinel block ends the loop
    limit = cycles * len(active)

    class Stopper(list):
        def append(self, item):
            if len(self) >= limit:
                raise _Stop()
            super().append(item)

    stop = Stopper()
    for b in blocks:
        b.log = stop
    logging.disable(logging.CRITICAL)
    try:
        run_klang(*[blocks[s] for s in starts])
        mon.check(False, 'main-loop', 'main loop returned')
    except _Stop:
        pass
    finally:
        logging.disable(logging.NOTSET)
    orders = [tuple(stop[k:k + len(active)]) for k in range(0, limit, len(active))]
    for o in orders:
        check_order(mon, n, edges, starts, list(o), 'main loop cycle')
        mon.event('main loop cycles')
    mon.event('composites in the main loop', sum(isinstance(b, OwnPart) for b in blocks))
    mon.case('loop', sorted(edges), tuple(starts))


SCENARIOS = [
    Scenario(network_orders, 1500, 30000),
    Scenario(fresh_values, 500, 10000),
    Scenario(matrix_orders, 1200, 30000),
    Scenario(large_networks, 24, 400),
    Scenario(long_chains, 2, 24),
    Scenario(main_loop, 40, 200),
]
REQUIRED_EVENTS = {'acyclic networks': 100, 'networks with feedback': 100, 'main loop cycles': 10}
