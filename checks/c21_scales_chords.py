"""C21: scales, chords, intervals: their arithmetic, tables and look up by name."""
import os
import pkgutil
from fractions import Fraction

import numpy as np

from klang.music.chords import CHORDS, find_chord, invert_chord
from klang.music.intervals import INTERVALS, find_interval
from klang.music.scales import (
    ALL_POSSIBLE_SCALES, KNOWN_SCALES, code_2_scale, find_scale, pitches_2_scale, scale_2_code, scale_2_pitches,
)
from klang.util import find_item, levenshtein, parse_music_data_from_csv
from vlib.core import Scenario, close, describe, raises

PROPERTY = 'C21'
RULE = ('random pitch sets, chords, inversions, tables and names (exact, abbreviated, misspelled) against set and '
        'sequence arithmetic and the rows of the data files; distinct = distinct sets, (chord, inversion), tables and '
        'names; non-trivial = more than one pitch / entry')


def rows(name):
    """Independent reading of a data file."""
    text = pkgutil.get_data('klang.music', os.path.join('data', name + '.csv')).decode()
    return [line.split(',') for line in text.split('\n') if line.strip()]


TABLES = {name: rows(name) for name in ('chords', 'scales', 'intervals')}


def scales(rng, mon):
    """Pitches <-> intervals <-> code for pitch class sets with the root."""
    k = rng.randrange(12)
    classes = [0] + sorted(rng.sample(range(1, 12), k))
    given = [p + 12 * rng.choice([0, 0, 1, -1, 4]) for p in classes]
    rng.shuffle(given)
    given = rng.choice([list, tuple, np.array])(given)
    keep = list(given)
    scale = pitches_2_scale(given)
    steps = [b - a for a, b in zip(classes, classes[1:] + [12])]
    close(mon, scale, steps, 'pitches-to-scale', '%s' % (keep,))
    mon.check(list(given) == keep, 'argument', 'pitches modified')
    arg = rng.choice([list, tuple, np.array])(steps)
    close(mon, scale_2_pitches(arg), classes, 'scale-to-pitches', '%s' % steps)
    mon.check(list(arg) == steps, 'argument', 'scale modified')
    code = sum(1 << p for p in classes)
    mon.check(int(scale_2_code(arg)) == code, 'scale-to-code', '%s: %r instead of %d', steps, scale_2_code(arg), code)
    close(mon, code_2_scale(code), steps, 'code-to-scale', str(code))
    close(mon, ALL_POSSIBLE_SCALES[code], steps, 'all-scales', str(code))
    other = rng.randrange(len(ALL_POSSIBLE_SCALES))
    close(mon, ALL_POSSIBLE_SCALES[other], code_2_scale(other), 'all-scales', 'code %d' % other)
    mon.check(np.issubdtype(np.asarray(scale).dtype, np.integer), 'pitches-to-scale', 'type %s', np.asarray(scale).dtype)
    mon.case(code, nontrivial=k > 0)
    mon.event('scales')


def chords(rng, mon):
    """Inversions."""
    if rng.random() < .3:
        name = rng.choice(sorted(CHORDS))
        chord = find_chord(name)
    else:
        pool = rng.choice([range(12), range(-24, 48)])
        chord = rng.sample(pool, rng.randrange(1, 8))
        if rng.random() < .8:
            chord.sort()
        chord = rng.choice([list, tuple, np.array])(chord)
    n = rng.choice([0, 1, -1, 2, -2, 3, rng.randrange(-30, 30)])
    keep = [int(p) for p in chord]
    size = len(keep)
    got = invert_chord(chord, n)
    # endless ladder of octaves of the chord, read from the n-th rung
    ladder = [keep[i % size] + 12 * (i // size) for i in range(n, n + size)]
    close(mon, got, ladder, 'inversion', '%s inverted %d' % (keep, n))
    mon.check([int(p) for p in chord] == keep, 'argument', 'chord modified by inversion %d', n)
    close(mon, invert_chord(got, -n), keep, 'inversion-undone', '%s %d' % (keep, n))
    mon.check(sorted(int(p) % 12 for p in got) == sorted(p % 12 for p in keep), 'inversion-classes', '%s %d: %s', keep, n, got)
    m = rng.randrange(-5, 6)
    close(mon, invert_chord(got, m), invert_chord(keep, n + m), 'inversion-sum', '%s %d %d' % (keep, n, m))
    # quarter tones
    quarter = [p + .5 for p in keep]
    close(mon, invert_chord(rng.choice([list, tuple, np.array])(quarter), n), [p + .5 for p in ladder], 'inversion',
          '%s inverted %d' % (quarter, n))
    mon.case(tuple(keep), n, nontrivial=size > 1)
    mon.event('chords')


def tables(rng, mon):
    """Every name of the data files leads to its row."""
    table = rng.choice(sorted(TABLES))
    row = rng.choice(TABLES[table])
    name, values = row[0], row[1:]
    if table == 'chords':
        close(mon, find_chord(name), [int(v) for v in values], 'table-chords', name)
        mon.check(len(CHORDS) == len({r[0] for r in TABLES[table]}), 'table-size', '%d chords', len(CHORDS))
    elif table == 'scales':
        pitches = sorted({p % 12 for p in np.cumsum([int(v) for v in values]).tolist()})
        close(mon, sorted(scale_2_pitches(find_scale(name)).tolist()), pitches, 'table-scales', name)
        mon.check(sum(find_scale(name)) == 12, 'table-scales', '%s: %s', name, find_scale(name))
        mon.check(len(KNOWN_SCALES) == len({r[0] for r in TABLES[table]}), 'table-size', '%d scales', len(KNOWN_SCALES))
    else:
        allowed = {Fraction(r[1].strip()) for r in TABLES[table] if r[0] == name}
        mon.check(find_interval(name) in allowed, 'table-intervals', '%s: %r, not in %s', name, find_interval(name), allowed)
        mon.check(len(INTERVALS) == len({r[0] for r in TABLES[table]}), 'table-size', '%d intervals', len(INTERVALS))
    mon.case(table, name)
    mon.event('table rows')


def abbreviates(name, key):
    """Letters of name in the same order in key, same first letter."""
    rest = iter(key)
    return bool(key) and key[0] == name[0] and all(c in rest for c in name)


def lookup(rng, mon):
    """Names, abbreviations and misspelled names."""
    if rng.random() < .5:
        dct, find = rng.choice([(CHORDS, find_chord), (INTERVALS, find_interval), (KNOWN_SCALES, find_scale)])
        dct = {k: find(k) for k in rng.sample(sorted(dct), 25)} if rng.random() < .97 else dct
        find = None
    else:
        alphabet = rng.choice(['ab', 'abc ', 'abcdefgh '])
        longest = rng.choice([9, 9, 9, 80])
        dct = {''.join(rng.choice(alphabet) for _ in range(rng.randrange(1, longest))): object() for _ in range(rng.randrange(1, 8))}
        if rng.random() < .03:
            dct = {'%s%s' % (c, ''.join(rng.choice('abc ') for _ in range(rng.randrange(120, 160)))): object() for c in 'ab'}
    key = rng.choice(sorted(dct))
    name = rng.choice([
        lambda: key,
        lambda: key[0] + ''.join(c for c in key[1:] if rng.random() < .7),
        lambda: key[:rng.randrange(1, len(key) + 1)],
        lambda: ''.join(rng.choice('abcdm ') for _ in range(rng.randrange(1, 6))),
        lambda: key + rng.choice(['x', '!', 'Z']),
        lambda: key[:-1] + '#',
    ])()
    keep = list(dct)
    try:
        got, err = find_item(dct, name), None
    except ValueError as e:
        got, err = None, e
    text = '%r in %s' % (name, describe(sorted(dct)))
    short = [k for k in dct if abbreviates(name, k)]
    if name in dct:
        mon.check(err is None and got is dct[name], 'lookup-exact', '%s: %r', text, err or got)
        mon.event('exact names')
    elif len(short) == 1:
        mon.check(err is None and got is dct[short[0]], 'lookup-unique', '%s abbreviates %r only: %r', text, short[0], err or got)
        mon.event('unique abbreviations')
    elif len(short) > 1:
        mon.check(err is not None, 'lookup-ambiguous', '%s: %r silently chosen', text, got)
        mon.check(all(repr(k) in str(err) for k in short), 'lookup-suggestions', '%s: %s', text, err)
        mon.event('ambiguous names')
    else:
        mon.check(err is not None, 'lookup-unknown', '%s: %r silently chosen', text, got)
        mon.check(any(repr(k) in str(err) for k in dct), 'lookup-suggestions', '%s: %s', text, err)
        mon.event('unknown names')
    mon.check(list(dct) == keep, 'argument', 'table modified')
    mon.case(name, tuple(sorted(dct)), nontrivial=len(dct) > 1)


def edit(a, b):
    """Levenshtein distance, row by row."""
    row = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        new = [i]
        for j, y in enumerate(b, 1):
            new.append(min(row[j] + 1, new[-1] + 1, row[j - 1] + (x != y)))
        row = new
    return row[-1]


def distances(rng, mon):
    """Editing distances and number tables."""
    alphabet = rng.choice(['ab', 'abcd', 'äöü x'])
    a, b, c = (''.join(rng.choice(alphabet) for _ in range(rng.randrange(1, 12))) for _ in range(3))
    d = levenshtein(a, b)
    mon.check(d == edit(a, b), 'levenshtein', '%r %r: %s instead of %s', a, b, d, edit(a, b))
    mon.check(d == levenshtein(b, a), 'levenshtein-symmetry', '%r %r', a, b)
    mon.check((d == 0) == (a == b), 'levenshtein-zero', '%r %r: %s', a, b, d)
    mon.check(levenshtein(a, c) <= d + levenshtein(b, c), 'levenshtein-triangle', '%r %r %r', a, b, c)
    # CSV
    sep = rng.choice([',', ',', ';', '\t'])
    table = {'%s %d' % (rng.choice(['x', 'major', 'ä']), i): [
        rng.choice([rng.randrange(-99, 99), rng.uniform(-9, 9), 'abc', '3/2', '1 2', 'a1', '1e', '1e3x', '--1', '']) for _ in range(rng.randrange(1, 6))]
        for i in range(rng.randrange(1, 6))}
    text = '\n'.join(sep.join([k] + [str(v) for v in vs]) for k, vs in table.items()) + rng.choice(['', '\n'])
    got = parse_music_data_from_csv(text if rng.random() < .5 else text.encode(), **({} if sep == ',' else {'sep': sep}))
    mon.check(got == table and [[type(v) for v in vs] for vs in got.values()] == [[type(v) for v in vs] for vs in table.values()],
              'csv', '%r: %s', text, got)
    mon.case(a, b)
    mon.event('distances')


SCENARIOS = [
    Scenario(scales, 1500, 20000),
    Scenario(chords, 1500, 40000),
    Scenario(tables, 800, 8000),
    Scenario(lookup, 800, 20000),
    Scenario(distances, 500, 10000),
]
REQUIRED_EVENTS = {'scales': 300, 'chords': 300, 'table rows': 300, 'exact names': 30, 'unique abbreviations': 30,
                   'ambiguous names': 30, 'unknown names': 30, 'distances': 100}
