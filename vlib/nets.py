"""Random block networks made of real klang connections, with an independent
shadow model of who feeds whom."""
from klang.block import Block
from klang.connections import (
    MessageInput, MessageOutput,
)


class Probe(Block):
    """A block that logs its updates and computes a value from its inputs."""

    def __init__(self, ident, nIn, nOut, nMsgIn=0, nMsgOut=0, log=None):
        super().__init__(nIn, nOut, name='P%s' % (ident,))
        self.ident = ident
        self.valIn = list(self.inputs)
        self.valOut = list(self.outputs)
        self.msgIn = [MessageInput(owner=self) for _ in range(nMsgIn)]
        self.msgOut = [MessageOutput(owner=self) for _ in range(nMsgOut)]
        self.inputs = self.inputs + self.msgIn
        self.outputs = self.outputs + self.msgOut
        self.log = log if log is not None else []
        self.cycle = 0
        self.got = []

    def update(self):
        self.cycle += 1
        self.log.append(self.ident)
        acc = ['b', self.ident, self.cycle]
        for i in self.valIn:
            acc.append(i.value)
        self.got = [list(i.receive()) for i in self.msgIn]
        value = hash(tuple(acc))
        for k, o in enumerate(self.valOut):
            o.set_value(hash((value, k)))
        for k, o in enumerate(self.msgOut):
            o.send((self.ident, k, self.cycle))


def random_edges(rng, n, style):
    """List of (src, dst) index pairs, duplicates and self loops possible."""
    edges = []
    perm = list(range(n))
    rng.shuffle(perm)
    if style == 'dag':
        p = rng.choice([.05, .15, .4, .9])
        for i in range(n):
            for j in range(i + 1, n):
                if rng.random() < p:
                    edges.append((perm[i], perm[j]))
    elif style == 'chain':
        edges = [(perm[i], perm[i + 1]) for i in range(n - 1)]
    elif style == 'tree':
        for i in range(1, n):
            a, b = perm[rng.randrange(i)], perm[i]
            edges.append((a, b) if rng.random() < .5 else (b, a))
    elif style == 'layers':
        k = rng.randint(2, 4)
        lay = [perm[i::k] for i in range(k)]
        for a, b in zip(lay, lay[1:]):
            for x in a:
                for y in b:
                    if rng.random() < .6:
                        edges.append((x, y))
    elif style == 'star':  # mixers and splitters with many channels
        into = rng.choice([0., .5, 1.])
        for i in range(1, n):
            edges.append((perm[i], perm[0]) if rng.random() < into else (perm[0], perm[i]))
    elif style == 'ring':
        edges = [(perm[i], perm[(i + 1) % n]) for i in range(n)]
        for _ in range(rng.randint(0, n)):
            edges.append((rng.randrange(n), rng.randrange(n)))
    else:  # any
        for _ in range(rng.randint(0, 3 * n)):
            edges.append((rng.randrange(n), rng.randrange(n)))
    if style in ('dag', 'tree', 'layers'):
        for _ in range(rng.randint(0, 3)):
            if edges:
                edges.append(rng.choice(edges))  # parallel connections
    rng.shuffle(edges)
    return edges


def build(rng, n, edges, log=None, messages=True):
    """Probe blocks wired along edges.  Inputs/outputs are created as needed;
    outputs may be shared between several edges.  Returns blocks and, per edge,
    its (kind, srcPort, dstPort)."""
    kinds = ['m' if messages and rng.random() < .3 else 'v' for _ in edges]
    nIn = [0] * n
    nMsgIn = [0] * n
    nOut = [rng.randint(1, 3) for _ in range(n)]
    ports = []
    gaps = rng.random() < .5  # Inputs which stay unconnected between the others
    for (a, b), kind in zip(edges, kinds):
        count = nIn if kind == 'v' else nMsgIn
        if gaps and rng.random() < .3:
            count[b] += 1
        ports.append((kind, rng.randrange(nOut[a]), count[b]))
        count[b] += 1
    blocks = [Probe(i, nIn[i], nOut[i], nMsgIn[i], nOut[i], log) for i in range(n)]
    for (a, b), (kind, po, pi) in zip(edges, ports):
        if kind == 'v':
            blocks[a].valOut[po].connect(blocks[b].valIn[pi])
        else:
            blocks[a].msgOut[po].connect(blocks[b].msgIn[pi])
    return blocks, ports


def components(n, edges):
    """Weakly connected component id per node."""
    comp = list(range(n))

    def find(x):
        while comp[x] != x:
            comp[x] = comp[comp[x]]
            x = comp[x]
        return x

    for a, b in edges:
        comp[find(a)] = find(b)
    return [find(i) for i in range(n)]


def sccs(n, edges):
    """Strongly connected component id per node (iterative Kosaraju)."""
    out = [[] for _ in range(n)]
    inc = [[] for _ in range(n)]
    for a, b in edges:
        out[a].append(b)
        inc[b].append(a)
    seen = [False] * n
    post = []
    for s in range(n):
        if seen[s]:
            continue
        seen[s] = True
        stack = [(s, iter(out[s]))]
        while stack:
            node, it = stack[-1]
            for c in it:
                if not seen[c]:
                    seen[c] = True
                    stack.append((c, iter(out[c])))
                    break
            else:
                post.append(node)
                stack.pop()
    ids = [-1] * n
    for k, s in enumerate(reversed(post)):
        if ids[s] >= 0:
            continue
        todo = [s]
        ids[s] = k
        while todo:
            x = todo.pop()
            for p in inc[x]:
                if ids[p] < 0:
                    ids[p] = k
                    todo.append(p)
    return ids
