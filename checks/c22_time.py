"""C22: tempo, metre, note values and rhythm patterns follow music arithmetic."""
import copy
import math
import pickle
from fractions import Fraction

import klang.music.note_values as note_values
from klang.config import METRE, TEMPO
from klang.music.metre import (
    create_metre, default_beat_value, is_complex, is_compound, is_fractional, is_irrational, is_simple, number_of_beats,
)
from klang.music.note_values import Tuplet, dedot_note, dot_note
from klang.music.rhythm import euclidian_rhythm
from klang.music.tempo import (
    angular_velocity, bar_period, compute_duration, compute_rate, note_duration, tempo_2_frequency, tempo_2_period,
)
from vlib.core import Scenario, close

PROPERTY = 'C22'
RULE = ('random metres, tempi, note values, tuplets and all pulse / slot numbers against exact fractions; distinct = '
        'distinct arguments; non-trivial = all of them')
TAU = 2 * math.pi


def equal(a, b):
    """Same value; == of unnormalised fractions compares numerators and denominators."""
    return a.numerator * b.denominator == b.numerator * a.denominator


def euclid(rng, mon):
    """As even as possible: windows of equal length hold numbers of pulses which differ by one at most."""
    n = rng.choice([rng.randrange(1, 17), rng.randrange(1, 65), rng.randrange(1, 200)])
    k = rng.choice([0, n, 1, rng.randrange(n + 1), rng.randrange(n + 1), rng.randrange(n + 1)])
    k = min(k, n)
    pattern = euclidian_rhythm(k, n)
    text = 'E(%d, %d) = %s' % (k, n, pattern)
    mon.check(len(pattern) == n, 'euclid-length', text)
    mon.check(set(pattern) <= {0, 1} and sum(pattern) == k, 'euclid-pulses', text)
    twice = list(pattern) * 2
    for width in {1, 2, 3, n // 2, max(1, n // max(k, 1)), -(-n // max(k, 1)), rng.randrange(n + 1)}:
        counts = {sum(twice[i:i + width]) for i in range(n)}
        mon.check(max(counts) - min(counts) <= 1, 'euclid-even', '%s: windows of %d', text, width)
    mon.check(list(euclidian_rhythm(k, n)) == list(pattern), 'euclid-repeatable', text)
    mon.case('euclid', k, n)
    mon.event('patterns')


def pick_metre(rng):
    num = rng.choice([2, 3, 4, 6, 7, 9, 12, 5, rng.randrange(2, 40)])
    den = rng.choice([4, 4, 8, 2, 16, 1, 3, 32, 12, 64, 256, rng.randrange(1, 130)])
    return num, den, create_metre(num, den)


def metres(rng, mon):
    """Kinds of metres and their beats."""
    num, den, metre = pick_metre(rng)
    text = '%d/%d' % (num, den)
    mon.check((metre.numerator, metre.denominator) == (num, den), 'metre-kept', '%s became %s', text, metre)
    mon.check(equal(metre, Fraction(num, den)), 'metre-kept', '%s is %s', text, metre)
    mon.check(bool(is_irrational(metre)) == (den & (den - 1) != 0), 'metre-irrational', text)
    mon.check(bool(is_compound(metre)) == (num >= 6 and num % 3 == 0), 'metre-compound', text)
    mon.check(bool(is_complex(metre)) == (num % 2 != 0 and num % 3 != 0), 'metre-complex', text)
    mon.check(bool(is_simple(metre)) == (num in (2, 3, 4)), 'metre-simple', text)
    mon.check(not is_fractional(metre), 'metre-fractional', text)
    mon.check(is_simple(metre) + is_compound(metre) + is_complex(metre) <= 1, 'metre-kinds', text)
    unit = 3 if num >= 6 and num % 3 == 0 else 2 if num % 2 and num % 3 else 1
    beat = default_beat_value(metre)
    mon.check(equal(beat, Fraction(unit, den)), 'beat-value', '%s: %s instead of %d/%d', text, beat, unit, den)
    mon.check(equal(number_of_beats(metre), Fraction(num, unit)), 'beats', '%s: %s', text, number_of_beats(metre))
    other = Fraction(rng.randrange(1, 5), rng.choice([4, 8, 16]))
    mon.check(equal(number_of_beats(metre, other), Fraction(num, den) / other), 'beats', '%s by %s', text, other)
    mon.check(equal(number_of_beats(metre) * beat, metre), 'beats', text)
    mon.case('metre', num, den)
    mon.event('metres')


def tempi(rng, mon):
    """Durations and rates."""
    num, den, metre = pick_metre(rng)
    tempo = rng.choice([120, 60, 120., 90.5, rng.uniform(1, 1000), rng.randrange(1, 400)])
    unit = 3 if num >= 6 and num % 3 == 0 else 2 if num % 2 and num % 3 else 1
    beat = rng.choice([None, None, Fraction(1, 4), Fraction(3, 8), Fraction(rng.randrange(1, 5), rng.choice([1, 2, 4, 8]))])
    value = float(Fraction(unit, den) if beat is None else beat)
    text = '%d/%d at %s, beat %s' % (num, den, tempo, beat)
    close(mon, tempo_2_frequency(tempo), tempo / 60, 'tempo', text)
    close(mon, tempo_2_period(tempo), 60 / tempo, 'tempo', text)
    bar = num / den / value * 60 / tempo
    kw = {} if beat is None else {'beatValue': beat}
    close(mon, bar_period(tempo, metre, **kw), bar, 'bar', text)
    close(mon, angular_velocity(tempo, metre, **kw), TAU / bar, 'angular-velocity', text)
    note = rng.choice([Fraction(1, 4), Fraction(1, 1), Fraction(rng.randrange(1, 20), rng.choice([1, 2, 3, 4, 8, 64])),
                       Tuplet(3, 3 * [Fraction(1, 8)])])
    seconds = float(note) / value * 60 / tempo
    text += ' note %s' % float(note)
    close(mon, note_duration(note, tempo, metre, **kw), seconds, 'note-duration', text)
    close(mon, note_duration(note, tempo, metre=metre, beatValue=beat), seconds, 'note-duration', text)
    close(mon, compute_duration(note, tempo, metre, **kw), seconds, 'duration', text)
    close(mon, compute_rate(note, tempo, metre, **kw), 1 / seconds, 'rate', text)
    close(mon, note_duration(Fraction(num, den), tempo, metre, **kw), bar, 'bar-is-note', text)
    # default tempo and metre
    base = float(note) / float(default_beat_value(METRE)) * 60 / TEMPO
    close(mon, note_duration(note), base, 'default-tempo', text)
    close(mon, compute_duration(note), base, 'default-tempo', text)
    close(mon, compute_rate(note), 1 / base, 'default-tempo', text)
    close(mon, bar_period(TEMPO), float(METRE) / float(default_beat_value(METRE)) * 60 / TEMPO, 'default-tempo', text)
    # seconds and Hertz are passed on
    x = rng.choice([0., 1., .25, 4, rng.uniform(-5, 5), float('inf')])
    mon.check(compute_duration(x, tempo) == x and compute_rate(x, tempo) == x, 'seconds-passed', '%r: %r, %r', x,
              compute_duration(x, tempo), compute_rate(x, tempo))
    mon.case('tempo', num, den, tempo, str(beat), str(float(note)))
    mon.event('tempi')


WHOLE = {'LARGE': 8, 'LONG': 4, 'DOUBLE_WHOLE': 2, 'WHOLE': 1, 'HALF': Fraction(1, 2), 'QUARTER': Fraction(1, 4),
         'EIGHT': Fraction(1, 8), 'SIXTEENTH': Fraction(1, 16), 'THIRTY_SECOND': Fraction(1, 32),
         'SIXTY_FOURTH': Fraction(1, 64), 'HUNDRED_TWENTY': Fraction(1, 128),
         'TWO_HUNDRED_FIFTY_SIXTH': Fraction(1, 256)}
DOTS = {'': 0, 'DOTTED_': 1, 'DOUBLE_DOTTED_': 2, 'TRIPLE_DOTTED_': 3}


def values(rng, mon):
    """Dots and tuplets."""
    dots, name = rng.choice(sorted(DOTS)), rng.choice(sorted(WHOLE))
    n = DOTS[dots]
    exact = Fraction(WHOLE[name]) * sum(Fraction(1, 2 ** i) for i in range(n + 1))
    got = getattr(note_values, '%s%s_NOTE' % (dots, name))
    mon.check(got == exact, 'named-note', '%s%s_NOTE = %s', dots, name, got)
    note = Fraction(rng.randrange(1, 9), rng.choice([1, 2, 3, 4, 8, 16, 64]))
    n = rng.choice([0, 1, 2, 3, rng.randrange(10)])
    exact = note * sum(Fraction(1, 2 ** i) for i in range(n + 1))
    mon.check(dot_note(note, n) == exact, 'dots', '%s with %d dots: %s', note, n, dot_note(note, n))
    mon.check(dot_note(note) == note * 3 / 2 and dedot_note(note) == note * 2 / 3, 'dots', '%s with one dot', note)
    mon.check(dedot_note(exact, n) == note and dot_note(exact, -n) == note and dedot_note(note, -n) == exact, 'dots-undone',
              '%s with %d dots', note, n)
    mon.check(isinstance(dot_note(note, n), Fraction) and isinstance(dedot_note(note, n), Fraction), 'dots', 'types')
    # tuplets
    num = rng.randrange(2, 12)
    den = rng.choice([None, None, rng.randrange(1, 12)])
    notes = [Fraction(rng.randrange(1, 4), rng.choice([4, 8, 16])) for _ in range(rng.choice([num, rng.randrange(1, 8)]))]
    for _ in range(rng.choice([0, 0, 0, 1, 2, 5])):
        inner = rng.randrange(2, 14)
        nested = Tuplet(inner, rng.randrange(1, inner + 1) * [rng.choice([Fraction(1, 8), Fraction(3, 16), Fraction(1, 7), notes[0]])])
        notes[rng.randrange(len(notes))] = nested
    tup = Tuplet(num, notes) if den is None else Tuplet(num, notes, den)
    den = num - 1 if den is None else den
    exact = sum((Fraction(x.numerator, x.denominator) for x in notes), Fraction(0)) * den / num
    mon.check(tup == exact and float(tup) == float(exact), 'tuplet', '%d:%d of %s is %s', num, den, notes, tup)
    mon.check((tup.num, tup.den) == (num, den) and list(tup.notes) == notes, 'tuplet-parts', '%s', tup)
    for twin in (copy.copy(tup), copy.deepcopy(tup), pickle.loads(pickle.dumps(tup))):
        mon.check(twin == tup and type(twin) is Tuplet and (twin.num, twin.den) == (num, den) and list(twin.notes) == notes,
                  'tuplet-copy', '%s: %r', tup, twin)
    mon.check('%d:%d' % (num, den) in str(tup), 'tuplet-text', '%d:%d is shown as %s', num, den, tup)
    mon.check(tup + note == exact + note and max(tup, note) == max(exact, note), 'tuplet', 'arithmetic')
    mon.case(str(note), n, num, den, str(notes))
    mon.event('note values')


SCENARIOS = [
    Scenario(euclid, 1000, 20000),
    Scenario(metres, 1000, 10000),
    Scenario(tempi, 1500, 40000),
    Scenario(values, 1500, 40000),
]
REQUIRED_EVENTS = {'patterns': 300, 'metres': 300, 'tempi': 300, 'note values': 300}
