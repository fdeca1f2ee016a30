"""C08: envelope generators."""
import copy
import math

import numpy as np

from klang.audio.envelope import Envelope as PyEnvelope
from klang.audio.envelopes import ADSR, AR, D, R, Envelope
from klang.config import BUFFER_SIZE, SAMPLING_RATE
from klang.messages import Note
from vlib.core import Scenario, raises

PROPERTY = 'C08'
RULE = ('random envelope parameters and random histories of gate / sample / parameter changes; every '
        'sample is checked by a state machine monitor (with both outcomes allowed within 1e-9 of a '
        'stage threshold) built on the closed exponential form; distinct = distinct (parameters, '
        'history); non-trivial = the envelope left its off state')
EPS = 1e-9
OFF, ATTACK, DECAY, SUSTAIN, RELEASE = 'off', 'attack', 'decay', 'sustain', 'release'


class Automaton:
    """Nondeterministic trace monitor: the set of states compatible with the
    samples seen so far."""

    def __init__(self, p):
        self.p = dict(p)
        self.p['overshoot'] = min(max(self.p['overshoot'], 1e-9), 1e9)
        self.states = {(OFF, 0., False)}

    def coef(self, name):
        rate = self.p[name] / self.p['dt']
        if rate <= 0:
            return 0.
        o = self.p['overshoot']
        return math.exp(-math.log((1 + o) / o) / rate)

    def gate(self, on):
        new = set()
        for stage, value, _ in self.states:
            if on:
                if self.p['retrigger'] or stage in (OFF, RELEASE):
                    stage = ATTACK
            elif stage in (ATTACK, DECAY, SUSTAIN):
                stage = RELEASE
            new.add((stage, value, on))
        self.states = new

    def successors(self, state):
        """All (emitted value, next state)."""
        stage, value, on = state
        o, s = self.p['overshoot'], self.p['sustain']
        tol = EPS * (1 + o)
        if stage == OFF:
            return [(0., (OFF, 0., on))]
        if stage == SUSTAIN:
            return [(s, (SUSTAIN, s, on))]
        out = []
        if stage == ATTACK:
            c = self.coef('attack')
            target, limit, after = 1 + o, 1., DECAY
            new = target + (value - target) * c
            reached, unsure = new >= limit, abs(new - limit) < tol
        elif stage == DECAY:
            c = self.coef('decay')
            target, limit = s - o, s
            after = RELEASE if self.p['loop'] else SUSTAIN
            new = target + (value - target) * c
            reached, unsure = new <= limit, abs(new - limit) < tol
        else:
            c = self.coef('release')
            target, limit = -o, 0.
            after = ATTACK if self.p['loop'] and on else OFF
            new = target + (value - target) * c
            reached, unsure = new <= limit, abs(new - limit) < tol
        if reached or unsure:
            out.append((limit, (after, limit, on)))
        if not reached or unsure:
            out.append((new, (stage, min(max(new, 0.), 1.), on)))
        return out

    def feed(self, sample, tol):
        new = set()
        for state in self.states:
            for emitted, nxt in self.successors(state):
                if abs(emitted - sample) <= tol:
                    # follow the observed value, to not accumulate rounding
                    stage, value, on = nxt
                    if stage in (ATTACK, DECAY, RELEASE) and value == emitted:
                        pass
                    new.add((stage, value, on))
        return new

    def expected(self):
        return sorted(e for s in self.states for e, _ in self.successors(s))


def parameters(rng):
    def time():
        r = rng.random()
        if r < .15:
            return 0.
        if r < .4:
            return rng.choice([1, 2, 5, 10, 32]) * .01  # multiples of dt
        if r < .41:
            return rng.choice([30., 120.])
        return rng.uniform(.001, .6)
    return dict(
        attack=time(), decay=time(), release=time(),
        sustain=rng.choice([0., 1., .5, rng.random()]),
        dt=rng.choice([.01, .01, .003, .05]),
        overshoot=rng.choice([1e-3, 1e-3, 1e-1, 1., 1e-6, 10., 0.]),
        retrigger=rng.random() < .3, loop=rng.random() < .3,
    )


def feed_all(mon, auto, samples, trace):
    o = auto.p['overshoot']
    tol = EPS * 100 * (1 + o)
    for k, v in enumerate(samples):
        v = float(v)
        mon.check(0. <= v <= 1., 'range', 'sample %r after %s', v, trace)
        stages = auto.states
        new = auto.feed(v, tol)
        if not new:
            mon.violate('shape', 'sample %d is %r, expected one of %s in %s; parameters %s; history %s',
                        k, v, auto.expected(), sorted(s[0] for s in auto.states), auto.p, trace)
        if len(new) > 40:
            # of each stage, the states closest to the observation
            groups = {}
            for state in sorted(new, key=lambda x: abs(x[1] - v)):
                groups.setdefault((state[0], state[2]), []).append(state)
            new = {state for group in groups.values() for state in group[:8]}
        auto.states = new
        for s in new:
            mon.event('samples in ' + s[0])
            break


def histories(rng, mon):
    p = parameters(rng)
    form = rng.randrange(3)
    if form == 0:
        env = Envelope(p['attack'], p['decay'], p['sustain'], p['release'], p['dt'], p['overshoot'],
                       p['retrigger'], p['loop'])
    else:
        env = Envelope(**p)
    twin = Envelope(**p)  # same gates, other chunking
    other = Envelope(.1, .1, .5, .1, .01)
    auto = Automaton(p)
    trace = []
    total = 0
    for _ in range(rng.randint(3, 25)):
        op = rng.random()
        if op < .3:
            on = rng.random() < .6
            for e in (env, twin):
                e.gate(on)
            other.gate(not on)
            auto.gate(on)
            trace.append('on' if on else 'off')
        elif op < .36:
            name = rng.choice(['attack', 'decay', 'release', 'sustain', 'overshoot'])
            value = rng.choice([0., 1., rng.random()]) if name == 'sustain' else \
                rng.choice([1e-3, .1, 2.]) if name == 'overshoot' else rng.choice([0., .05, .3])
            for e in (env, twin):
                setattr(e, name, value)
            mon.check(getattr(env, name) == value, 'attributes', '%s reads %r', name, getattr(env, name))
            auto.p[name] = value
            trace.append('%s=%s' % (name, value))
        elif op < .4:
            name = rng.choice(['retrigger', 'loop'])
            value = rng.random() < .5
            for e in (env, twin):
                setattr(e, name, value)
            auto.p[name] = value
            trace.append('%s=%s' % (name, value))
        elif op < .45:
            name, bad = rng.choice([('attack', -1e-9), ('decay', -1.), ('release', -.1), ('sustain', 1.01),
                                    ('sustain', -.01), ('overshoot', -1.), ('attack', 'x'), ('sustain', None),
                                    ('sustain', float('nan')), ('sustain', float('inf')), ('decay', float('-inf'))])
            before = getattr(env, name)
            err = raises(setattr, env, name, bad)
            mon.check(isinstance(err, ValueError), 'attributes', '%s=%r: %r', name, bad, err)
            mon.check(getattr(env, name) == before, 'attributes', 'refused %s=%r was taken over', name, bad)
        else:
            n = rng.choice([0, 1, 2, 7, 16, 40, 100, 100])
            samples = env.sample(n)
            mon.check(len(samples) == n, 'shape', '%d samples instead of %d', len(samples), n)
            feed_all(mon, auto, samples, trace)
            parts = []
            left = n
            while left:
                k = rng.randint(1, left)
                parts.append(twin.sample(k))
                left -= k
            if parts:
                mon.check(np.array_equal(np.concatenate(parts), samples), 'chunk-independence',
                          'other chunking differs: parameters %s history %s', p, trace)
            other.sample(3)
            total += n
            trace.append('s%d' % n)
        stages = {s[0] != OFF for s in auto.states}
        mon.check(bool(env.active) in stages, 'active-flag', 'active is %s in %s after %s',
                  env.active, sorted(s[0] for s in auto.states), trace)
    # bounded progress: without gate the envelope ends and stays silent
    env.gate(False)
    auto.gate(False)
    bound = int(auto.p['release'] / auto.p['dt']) + 3
    tail = env.sample(bound)
    feed_all(mon, auto, tail, trace + ['off'])
    mon.check(not env.active, 'ends', 'still active %d samples after release (%s)', bound, auto.p)
    mon.check((env.sample(20) == 0).all(), 'ends', 'not silent after the end')
    mon.event('samples monitored', total + bound)
    mon.case(sorted(p.items()), tuple(trace), nontrivial='on' in trace)
    mon.sample('%s: %s' % (p, ' '.join(trace)))


def durations(rng, mon):
    """Stage durations: full attack, decay and release take their time, +-1 sample."""
    dt = rng.choice([.01, .001])
    a, d, r = [rng.randint(0, 120) * dt for _ in range(3)]
    s = rng.choice([0., .3, .7, 1.])
    env = Envelope(a, d, s, r, dt, rng.choice([1e-3, .1, 1.]))
    env.gate(True)
    x = env.sample(400)
    k = int(np.argmax(x >= 1.))
    mon.check(x.max() == 1. and abs(k + 1 - max(1, a / dt)) <= 1.01, 'stage-time',
              'attack %s took %d samples', a / dt, k + 1)
    mon.check((np.diff(x[:k + 1]) > 0).all(), 'monotone', 'attack not increasing')
    y = x[k:]
    mon.check((np.diff(y) <= 0).all(), 'monotone', 'decay not decreasing')
    j = int(np.argmax(y <= s)) if (y <= s).any() else None
    mon.check(j is not None and (y[j:] == s).all(), 'sustain', 'sustain %s not held', s)
    mon.check(j <= max(1, d / dt) + 1.01, 'stage-time', 'decay of %s took %d samples', d / dt, j)
    if s == 0.:
        mon.check(abs(j - max(1, d / dt)) <= 1.01, 'stage-time', 'decay of %s took %d samples', d / dt, j)
    mon.check(bool(env.active), 'active-flag', 'inactive while sustaining')
    env.gate(False)
    z = env.sample(300)
    mon.check((np.diff(np.concatenate([[s], z])) <= 0).all() and z[-1] == 0, 'monotone', 'release')
    n = int(np.argmax(z == 0)) + 1
    mon.check(n <= max(1, r / dt) + 1.01, 'stage-time', 'release of %s took %d samples', r / dt, n)
    if s == 1.:
        mon.check(abs(n - max(1, r / dt)) <= 1.01, 'stage-time', 'release of %s took %d samples', r / dt, n)
    mon.event('complete cycles')
    mon.case('durations', a, d, s, r, dt)


def loops(rng, mon):
    """Looping envelopes cycle between 1, sustain and 0 until the gate closes."""
    dt = .01
    a, d, r = [rng.randint(1, 20) * dt for _ in range(3)]
    env = Envelope(a, d, rng.choice([.2, .8]), r, dt, .1, False, True)
    env.gate(True)
    period = (a + d + r) / dt + 4
    n = rng.randint(2, 5)
    x = env.sample(int(period * n) + 2)
    peaks = int(((x[1:] == 1) & (x[:-1] < 1)).sum())
    mon.check(peaks >= n - 1, 'loop', '%d peaks in %d periods', peaks, n)
    mon.check(bool(env.active), 'loop', 'stopped looping')
    env.gate(False)
    y = env.sample(int(r / dt) + 3)
    mon.check(y[-1] == 0 and not env.active and (np.diff(y) <= 0).all(), 'loop',
              'did not stop after the gate closed: %s', y)
    mon.event('looped envelopes')
    mon.case('loop', a, d, r, n)


def envelope_blocks(rng, mon):
    """The envelope blocks: gate by notes, one audio buffer per update."""
    kind = rng.choice([ADSR, AR, D, R])
    kw = dict(overshoot=rng.choice([1e-3, .1]), retrigger=rng.random() < .3, loop=rng.random() < .2)

    def t():
        return rng.choice([0., .001, .004, .01, .03])

    a, d, s, r = t(), t(), rng.choice([0., .4, 1.]), t()
    if kind is ADSR:
        env, p = ADSR(a, d, s, r, **kw), dict(attack=a, decay=d, sustain=s, release=r)
    elif kind is AR:
        env, p = AR(a, r, **kw), dict(attack=a, decay=0., sustain=1., release=r)
    elif kind is D:
        env, p = D(d, **kw), dict(attack=0., decay=d, sustain=0., release=d)
    else:
        env, p = R(r, **kw), dict(attack=0., decay=0., sustain=1., release=r)
    p.update(kw, dt=1. / SAMPLING_RATE)
    if rng.random() < .25:  # the default envelope behaves as its attributes say
        err = raises(kind)
        mon.check(err is None, 'block-parameters', 'default %s: %r', kind.__name__, err)
        env = kind()
        p.update((name, getattr(env, name)) for name in
                 ('attack', 'decay', 'sustain', 'release', 'retrigger', 'loop', 'overshoot'))
        mon.event('default envelopes')
    for name in ('attack', 'decay', 'sustain', 'release', 'retrigger', 'loop', 'overshoot'):
        mon.check(getattr(env, name) == p[name], 'block-parameters', '%s.%s is %r instead of %r',
                  kind.__name__, name, getattr(env, name), p[name])
    if rng.random() < .4:
        env.gate(True)
        env.update()
        clone = copy.deepcopy(env)
        mon.check(not clone.active, 'clone', 'copy starts active')
        for name in ('attack', 'decay', 'sustain', 'release', 'retrigger', 'loop', 'overshoot'):
            mon.check(getattr(clone, name) == p[name], 'clone', 'copy of %s has %s %r instead of %r',
                      kind.__name__, name, getattr(clone, name), p[name])
        clone.gate(True)
        clone.update()
        env = clone
        p2 = p
        env = copy.deepcopy(env)
        mon.event('cloned envelopes')
    auto = Automaton(p)
    trace = []
    for _ in range(rng.randint(3, 12)):
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            velocity = rng.choice([0., 0., .1, 1., 10 ** -rng.uniform(2, 9)])
            env.trigger.push(Note(pitch=rng.randint(0, 127), velocity=velocity))
            auto.gate(velocity > 0)
            trace.append('on' if velocity else 'off')
        env.update()
        out = env.output.value
        mon.check(np.shape(out) == (BUFFER_SIZE,), 'block-buffer', 'buffer shape %s', np.shape(out))
        feed_all(mon, auto, out, trace)
        mon.check(env.current_level == out[-1], 'current-level', 'current level')
        trace.append('u')
    mon.event('envelope block updates', 3)
    mon.case(kind.__name__, sorted(p.items()), tuple(trace), nontrivial='on' in trace)


def fallback(rng, mon):
    """The pure Python envelope keeps the same guarantees at buffer granularity."""
    def t():
        return rng.choice([0., .0001, .0008, .002, .005, .01, .02])

    a, d, s, r = t(), t(), rng.choice([0., .4, 1.]), t()
    o = rng.choice([1e-3, .1, 1., 3., 10.])
    env = PyEnvelope(a, d, s, r, overshoot=o, retrigger=rng.random() < .3, loop=False)
    trace = []
    level = 0.
    on = False
    maxstep = {}
    for _ in range(rng.randint(4, 14)):
        if rng.random() < .5:
            on = rng.random() < .6
            env.gate(on)
            trace.append('on' if on else 'off')
        x = env.sample()
        trace.append('s')
        mon.check(np.shape(x) == (BUFFER_SIZE,), 'fallback-buffer', 'shape %s', np.shape(x))
        mon.check(x.min() >= -1e-9 and x.max() <= 1 + 1e-9, 'fallback-range',
                  'range [%r, %r] for %s after %s', x.min(), x.max(), (a, d, s, r, o), trace)
        # continuity: no jump bigger than the steepest possible slope of a stage
        y = np.concatenate([[level], x])
        limit = 0.
        for dur in (a, d, r):
            n = dur * SAMPLING_RATE
            c = 1 - math.exp(-math.log((1 + o) / o) / n) if n > 0 else 1.
            limit = max(limit, c)
        jump = np.abs(np.diff(y)).max()
        # almost linear stages are cut up to one step before their end
        mon.check(jump <= (1.3 if o <= 1 else 2.1) * limit * (1 + o) + 1e-6, 'fallback-continuity',
                  'jump of %r (steepest slope %r) for %s after %s', jump, limit, (a, d, s, r, o), trace)
        level = float(x[-1])
    env.gate(True)
    for _ in range(int((a + d) * SAMPLING_RATE / BUFFER_SIZE) + 2):
        x = env.sample()
    mon.check((x == s).all() and env.active, 'fallback-sustain', 'sustain %s not reached: %s', s, x[-3:])
    env.gate(False)
    for _ in range(int(r * SAMPLING_RATE / BUFFER_SIZE) + 2):
        x = env.sample()
    mon.check((x == 0).all() and not env.active, 'fallback-ends', 'not ended')
    # timing of a full attack
    env = PyEnvelope(a, d, s, r, overshoot=o)
    env.gate(True)
    x = np.concatenate([env.sample() for _ in range(12)])
    peak = int(np.argmax(x))
    if a > .001 and s < 1:
        mon.check(abs(peak - a * SAMPLING_RATE) <= 3, 'fallback-time', 'attack of %s took %d samples',
                  a * SAMPLING_RATE, peak)
    # shape of the attack and of the release: exponential curves towards a target beyond the limit
    for dur, start, limit in ((a, 0., 1.), (r, s, 0.)):
        n = dur * SAMPLING_RATE
        if limit == 0.:
            while env.stage.name != 'SUSTAINING' and s > 0:
                env.sample()
            env.gate(False)
            x = np.concatenate([env.sample() for _ in range(int(n) // BUFFER_SIZE + 2)])
        if n < 4 or start == limit:
            continue
        c = math.exp(-math.log((1 + o) / o) / n)
        target = limit + (o if limit else -o)
        m = int(n * min(1., math.log(abs(start - target) / o) / math.log((1 + o) / o))) - 2
        if m < 2:
            continue
        k = np.arange(m)
        errors = [np.abs(x[:m] - (target + (start - target) * c ** (k + shift))).max() for shift in (0, 1)]
        mon.check(min(errors) < 1e-6 * (1 + o), 'fallback-shape', '%s from %r is off its curve by %r for %s',
                  'attack' if limit else 'release', start, min(errors), (a, d, s, r, o))
        mon.event('fallback curves')
    # loops run while the gate is open and end after it closed
    env = PyEnvelope(a, d, s, r, overshoot=o, loop=True)
    env.gate(True)
    buffers = int((a + d + r) * SAMPLING_RATE / BUFFER_SIZE) + 2
    # between two samples the peak can be missed by a step up or down
    slack = .01
    if a > 0:
        c = 1 - math.exp(-math.log((1 + o) / o) / (a * SAMPLING_RATE))
        slack += min(.5, 2 * c * o / (1 - c))
    following = d if s < 1 else r
    if following > 0:
        slack += min(.3, (1 - math.exp(-math.log((1 + o) / o) / (following * SAMPLING_RATE))) * (1 + o))
    for _ in range(3):
        x = np.concatenate([env.sample() for _ in range(buffers)])
        # a peak is seen when a stage long enough starts from it
        peaks = x.max() > 1 - slack or not (d > .0005 and s < 1 or r > .0005 and s == 1)
        mon.check(env.active and peaks and x.max() <= 1 + 1e-9 and x.min() >= -1e-9, 'fallback-loop',
                  'no cycle (peak %r) for %s', x.max(), (a, d, s, r, o))
    env.gate(False)
    for _ in range(2 * buffers):
        x = env.sample()
    mon.check((x == 0).all() and not env.active, 'fallback-loop',
              'did not end after the gate closed for %s', (a, d, s, r, o))
    mon.event('fallback loops')
    # a gate which closes lets go at once, wherever the envelope is and whatever it would do next
    env = PyEnvelope(a, d, s, r, overshoot=o, retrigger=rng.random() < .5, loop=rng.random() < .7)
    kind = 'retrigger %s, loop %s for %s' % (env.retrigger, env.loop, (a, d, s, r, o))
    for _ in range(rng.randint(3, 8)):
        env.gate(True)
        for _ in range(rng.randint(0, 6)):
            x = env.sample()
            if rng.random() < .2:
                env.gate(True)
        env.gate(False)
        rest = rng.randint(0, 3)
        ends = rng.random() < .5
        if ends:
            rest = int(r * SAMPLING_RATE / BUFFER_SIZE) + 2
        if rest:
            x = np.concatenate([env.sample() for _ in range(rest)])
            mon.check((np.diff(x) <= 1e-9).all(), 'fallback-release', 'rises after the gate closed: %s', kind)
        if ends:
            mon.check(x[-1] == 0 and not env.active, 'fallback-release', 'still active (level %r): %s', x[-1], kind)
        mon.event('fallback gates closed')
    # a gate which opens during the release attacks from the current level, looping or not
    for _ in range(4):
        a2, r2 = rng.uniform(.002, .02), rng.uniform(.01, .05)
        env = PyEnvelope(a2, d, rng.uniform(.3, 1.), r2, overshoot=o, retrigger=rng.random() < .3, loop=rng.random() < .6)
        env.gate(True)
        for _ in range(rng.randint(1, int((a2 + d) * SAMPLING_RATE / BUFFER_SIZE) + 2)):
            x = env.sample()
        if rng.random() < .8:
            env.gate(False)
        for _ in range(rng.randint(0, 3)):
            x = env.sample()
        level = float(x[-1])
        if env.stage.name != 'RELEASING' or not .02 < level < .9:
            continue
        env.gate(True)
        x = env.sample()
        mon.check((np.diff(x[:5]) > 0).all() and x[0] >= level - 1e-9, 'fallback-again',
                  'gate opened at %r during release: %s (attack %s, loop %s, overshoot %s)', level, x[:5], a2, env.loop, o)
        mon.event('fallback gates during release')
    mon.event('fallback histories')
    mon.case('py', a, d, s, r, o, tuple(trace))


SCENARIOS = [
    Scenario(histories, 500, 12000),
    Scenario(durations, 150, 2000),
    Scenario(loops, 60, 600),
    Scenario(envelope_blocks, 120, 3000),
    Scenario(fallback, 150, 3000),
]
REQUIRED_EVENTS = {'samples monitored': 20000, 'samples in attack': 1000, 'samples in decay': 1000,
                   'samples in sustain': 1000, 'samples in release': 1000, 'complete cycles': 50,
                   'cloned envelopes': 5}
