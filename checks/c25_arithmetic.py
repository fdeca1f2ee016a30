"""C25: the arithmetic everything else relies on: phases, ranges, mixes, mappings, primes."""
import fractions
import math

import numpy as np

import klang.primes as primes
from klang.math import (
    blend, clip, is_divisible, is_dyadic, is_power_of_two, lcm, linear_mapping, normalize_values, sign, wrap,
)
from klang.plotting import fraction_ticks, nice_plotting_shape
from vlib.core import Scenario, close, describe, raises

PROPERTY = 'C25'
RULE = ('random and boundary numbers, arrays, ranges and prime searches compared with the definitions (exact rational '
        'arithmetic, deterministic Miller-Rabin); distinct = distinct arguments; non-trivial = not the identity case')
SOURCES = [0, 1, -1, 2, 3, .5, -.5, 1e-300, 1e300]


def number(rng):
    kind = rng.random()
    if kind < .3:
        return rng.choice(SOURCES)
    if kind < .6:
        return rng.randrange(-1000, 1000)
    if kind < .9:
        return rng.uniform(-100, 100)
    return rng.gauss(0, 1) * 10 ** rng.randrange(-20, 20)


def array(rng, nrng):
    shape = rng.choice([(1,), (7,), (64,), (2, 16)])
    x = nrng.normal(size=shape) * 10. ** rng.randrange(-8, 8)
    if rng.random() < .2:
        x = np.round(x).astype(int) if rng.random() < .5 else x.astype(np.float32)
    if rng.random() < .2:
        x = x * 0
    return x


def phases(rng, mon):
    """wrap() maps to [-pi, pi] and changes the phase by whole turns only."""
    for _ in range(50):
        turns = rng.choice([0, 0, 1, -1, rng.randrange(-1000, 1000)])
        offset = rng.choice([0., math.pi, -math.pi, math.pi / 2, rng.uniform(-math.pi, math.pi), 1e-12, -1e-12])
        x = offset + turns * math.tau
        y = wrap(x)
        tol = 1e-12 * max(1, abs(x))
        mon.check(-math.pi - tol <= y <= math.pi + tol, 'wrap', 'wrap(%r) = %r', x, y)
        n = (x - y) / math.tau
        mon.check(abs(n - round(n)) * math.tau <= 2 * tol, 'wrap', 'wrap(%r) = %r: %r turns', x, y, n)
        mon.case('wrap', x, nontrivial=bool(turns))
    mon.check(wrap(0.) == 0. and wrap(-math.pi) == -math.pi and wrap(math.pi) == -math.pi, 'wrap', 'at half a turn: %r, %r',
              wrap(-math.pi), wrap(math.pi))
    nrng = np.random.RandomState(rng.randrange(2 ** 31))
    x = nrng.uniform(-100, 100, 32)
    before = x.copy()
    close(mon, wrap(x), [wrap(v) for v in x], 'wrap', 'elementwise')
    mon.check((x == before).all(), 'modified', 'wrap')
    mon.event('phases', 82)


def ranges(rng, mon):
    """clip, normalize_values, blend, sign."""
    nrng = np.random.RandomState(rng.randrange(2 ** 31))
    for _ in range(20):
        lower, upper = sorted([number(rng), number(rng)])
        value = rng.choice([number(rng), lower, upper, rng.uniform(lower, upper) if upper < 1e200 else lower])
        got = clip(value, lower, upper)
        expected = lower if value < lower else upper if value > upper else value
        mon.check(got == expected, 'clip', 'clip(%r, %r, %r) = %r', value, lower, upper, got)
        mon.check(clip(value, lower=lower, upper=upper) == got, 'clip', 'keywords')
        x = number(rng)
        if x:
            mon.check(sign(x) == (1 if x > 0 else -1), 'sign', 'sign(%r) = %r', x, sign(x))
        mon.case('clip', value, lower, upper, nontrivial=got != value)
    x = array(rng, nrng)
    before = x.copy()
    if not x.any():
        mon.check(isinstance(raises(normalize_values, x), ValueError), 'normalize', 'silence normalized')
    else:
        y = normalize_values(x)
        peak = max(abs(float(v)) for v in x.ravel())
        close(mon, y, x.astype(float) / peak, 'normalize', describe(x), rtol=1e-6 if x.dtype == np.float32 else 1e-12,
              atol=0)
        mon.check(np.abs(y).max() <= 1, 'normalize', 'peak %r', np.abs(y).max())
    mon.check((x == before).all() and x.dtype == before.dtype, 'modified', 'normalize_values')
    a, b = nrng.normal(size=x.shape), nrng.normal(size=x.shape)
    if rng.random() < .3:
        a, b = float(a.ravel()[0]), float(b.ravel()[0])
    amount = rng.choice([0, 1, 0., 1., .5, rng.random()])
    before = np.copy(a), np.copy(b)
    y = blend(a, b, amount)
    close(mon, y, np.add(np.multiply(a, 1 - amount), np.multiply(b, amount)), 'blend', 'blend at %r' % amount, rtol=1e-12,
          atol=1e-12)
    if amount in (0, 1):
        off = np.abs(np.subtract(y, b if amount else a)).max() if np.size(y) else 0.
        mon.check(off <= 1e-15 * (1 + np.abs(a).max() + np.abs(b).max()), 'blend', 'not pure at %r', amount)
    mon.check(np.array_equal(before[0], a) and np.array_equal(before[1], b), 'modified', 'blend')
    mon.event('ranges', 22)


def mapping(rng, mon):
    """linear_mapping() leads the ends of one range to the ends of the other."""
    for _ in range(10):
        x0, x1 = (rng.choice([rng.randrange(-100, 100), rng.uniform(-100, 100)]) for _ in range(2))
        y0, y1 = (rng.choice([rng.randrange(-100, 100), rng.uniform(-100, 100)]) for _ in range(2))
        if x0 == x1:
            mon.check(raises(linear_mapping, (x0, x1), (y0, y1)) is not None, 'mapping', 'empty range accepted')
            continue
        if abs(x0 - x1) < 1e-3:
            continue
        a, b = linear_mapping((x0, x1), rng.choice([(y0, y1), [y0, y1]]))
        f = [fractions.Fraction(v) for v in (x0, x1, y0, y1)]
        slope = (f[3] - f[2]) / (f[1] - f[0])
        scale = 1e-9 * (1 + abs(float(slope)) * 100)
        mon.check(abs(a - float(slope)) <= scale and abs(b - float(f[2] - slope * f[0])) <= scale, 'mapping',
                  '%s -> %s: %r x + %r', (x0, x1), (y0, y1), a, b)
        mon.case('mapping', x0, x1, y0, y1)
        mon.event('mappings')


def integers(rng, mon):
    """Powers of two, dyadic fractions, divisibility, common multiples."""
    for _ in range(40):
        n = rng.choice([rng.randrange(-20, 300), 2 ** rng.randrange(80), 2 ** rng.randrange(2, 80) + rng.choice([-1, 1]),
                        -2 ** rng.randrange(10)])
        expected = n > 0 and bin(n).count('1') == 1
        mon.check(bool(is_power_of_two(n)) == expected, 'power-of-two', str(n))
        if -2 ** 60 < n < 2 ** 60:
            mon.check(bool(is_power_of_two(np.int64(n))) == expected, 'power-of-two', 'numpy %d', n)
        mon.check(not is_power_of_two(n + .5), 'power-of-two', '%r', n + .5)
        q = fractions.Fraction(rng.randrange(-100, 100), rng.randrange(1, 200))
        mon.check(bool(is_dyadic(q)) == (bin(q.denominator).count('1') == 1), 'dyadic', str(q))
        a, b = rng.randrange(-200, 200), rng.choice([-1, 1]) * rng.randrange(1, 60)
        mon.check(bool(is_divisible(a, b)) == (a // b * b == a), 'divisible', '%d by %d', a, b)
        m = lcm(a, b)
        if a == 0:
            mon.check(m == 0, 'lcm', 'lcm(0, %d) = %r', b, m)
        else:
            expected = next(k for k in range(abs(b), abs(a * b) + 1, abs(b)) if k % a == 0)
            mon.check(m == expected and type(m) is int, 'lcm', 'lcm(%d, %d) = %r', a, b, m)
        a = rng.randrange(1, 10 ** 30)
        m = lcm(a, b)
        mon.check(m % a == 0 and m % b == 0 and m * math.gcd(a, b) == a * abs(b), 'lcm', 'lcm(%d, %d) = %r', a, b, m)
        mon.case('integers', n, a, b)
    mon.event('integers', 40)


# -- primes -------------------------------------------------------------------

def prime(n):
    """Deterministic Miller-Rabin (n < 3.3e24)."""
    if n < 2:
        return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


SMALL = [p for p in range(3000) if prime(p)]


def primality(rng, mon):
    for _ in range(100):
        kind = rng.random()
        if kind < .4:
            n = rng.randrange(-50, 5000)
        elif kind < .6:
            n = rng.choice(SMALL) ** 2 + rng.choice([0, 0, 0, 2])
        elif kind < .8:
            n = rng.choice(SMALL) * rng.choice(SMALL)
        else:
            n = rng.randrange(10 ** 9) | 1
        mon.check(bool(primes.is_prime(n)) == prime(n), 'is-prime', str(n))
        mon.case('prime', n)
    mon.event('numbers', 100)


def sieve(rng, mon):
    limit = rng.choice([rng.randrange(-3, 60), rng.randrange(3000), rng.choice(SMALL), rng.choice(SMALL) - 1,
                        min(2999, rng.choice(SMALL) ** 2)])
    got = list(primes.sieve_of_sundaram(limit))
    mon.check(got == [p for p in SMALL if p <= limit], 'sieve', 'up to %d: %s', limit, describe(got))
    mon.event('sieves')
    mon.case('sieve', limit)


def next_primes(rng, mon):
    """Next primes, within and beyond the cache, whatever was asked before."""
    top = primes.PRIMES[-1]
    for _ in range(6):
        kind = rng.random()
        start = (rng.randrange(-100, 3000) if kind < .4 else rng.randrange(top) if kind < .7 else
                 rng.choice(SMALL) + rng.choice([-1, 0, 1]) if kind < .9 else primes.PRIMES[-1] + rng.randrange(-300, 300))
        expected = start
        while not prime(expected):
            expected += 1
        mon.check(primes.find_next_prime(start) == expected, 'next-prime', 'from %d', start)
        n = rng.randrange(8)
        got = list(primes.find_next_primes(n, start))
        more, k = [], start
        while len(more) < n:
            if prime(k):
                more.append(k)
            k += 1
        mon.check(got == more, 'next-primes', '%d from %d: %s instead of %s', n, start, got, more)
        if n:
            mon.check(list(primes.find_next_primes(n)) == SMALL[:n], 'next-primes', 'first %d', n)
        mon.case('next', start, n)
        mon.event('beyond-cache', start > top)
    mon.event('searches', 6)
    cache = primes.PRIMES[-30:]
    gaps = range(cache[0], cache[-1] + 1)
    mon.check([k for k in gaps if prime(k)] == cache, 'cache', 'cache ends in %s', cache[-10:])


def whole_cache(rng, mon):
    """All the primes known from the beginning."""
    k = rng.randrange(len(primes.PRIMES) - 500)
    part = primes.PRIMES[k:k + 500]
    mon.check([n for n in range(part[0], part[-1] + 1) if prime(n)] == part, 'cache', 'primes %d to %d', k, k + 500)
    mon.check(primes.PRIMES[:100] == SMALL[:100], 'cache', 'first primes')
    mon.event('cached-primes', 500)
    mon.case('cache', k // 500)


def search(rng, mon):
    values = sorted(rng.randrange(-50, 50) for _ in range(rng.randrange(1, 30)))
    if rng.random() < .7:
        values = sorted(set(values))
    for v in range(-55, 55):
        better = [x for x in values if x >= v]
        if better:
            got = primes.binary_search_with_upper(values, v)
            mon.check(got == better[0], 'search', '%d in %s: %r', v, values, got)
        else:
            mon.check(isinstance(raises(primes.binary_search_with_upper, values, v), ValueError), 'search', '%d in %s', v, values)
    mon.event('binary-searches', 110)
    mon.case('search', values)


# -- plotting helpers ---------------------------------------------------------

def layout(rng, mon):
    """Subplot layouts offer enough places and are close to a square; tick
    labels are worth their ticks."""
    n = rng.choice([rng.randrange(1, 50), rng.randrange(1, 5000)])
    rows, cols = nice_plotting_shape(n)
    mon.check(rows * cols >= n and rows * (cols - 1) < n and 0 <= cols - rows <= 2, 'layout', '%d plots in %d x %d', n, rows, cols)
    base = rng.choice([math.tau, 1., 2.5])
    values = [fractions.Fraction(rng.randrange(-20, 20), rng.randrange(1, 11)) for _ in range(rng.randrange(1, 8))]
    labels = fraction_ticks([float(v) * base for v in values], base, 'T')
    mon.check(len(labels) == len(values), 'ticks', '%s: %s', values, labels)
    for v, label in zip(values, labels):
        text = label.strip('$').replace('\\', '')
        if text.startswith('frac{'):
            num, rest = text[5:].split('}{', 1)
            den, rest = rest.split('}', 1)
        else:
            num, den, rest = text, '1', ''
        symbols = (num + rest).count('T')
        num = num.replace('T', '') or '1'
        got = fractions.Fraction(int(num), int(den))
        mon.check(got == v and symbols == (v != 0), 'ticks', '%s labelled %s', v, label)
    mon.event('labels', len(labels))
    mon.case('layout', n, values)


SCENARIOS = [
    Scenario(phases, 100, 2000),
    Scenario(ranges, 200, 4000),
    Scenario(mapping, 100, 2000),
    Scenario(integers, 100, 2000),
    Scenario(primality, 60, 1500),
    Scenario(sieve, 60, 1000),
    Scenario(next_primes, 100, 1500),
    Scenario(whole_cache, 60, 400),
    Scenario(search, 40, 600),
    Scenario(layout, 150, 3000),
]
REQUIRED_EVENTS = {'phases': 5000, 'ranges': 2000, 'mappings': 500, 'integers': 2000, 'numbers': 3000, 'sieves': 30,
                   'searches': 300, 'beyond-cache': 10, 'cached-primes': 10000, 'binary-searches': 3000, 'labels': 300}
