"""C27: chord and scale lists become the chords and scales they spell, and the tables hold such."""
import contextlib
import io
import logging
from fractions import Fraction

import numpy as np
import requests

import klang.scraping as scraping
from klang.music.chords import CHORDS, find_chord
from klang.music.intervals import INTERVALS, find_interval
from klang.music.scales import KNOWN_SCALES, find_scale
from klang.music.tunings import TEMPERAMENTS
from klang.util import parse_music_data_from_csv
from vlib.core import Scenario, describe, raises

logging.getLogger('charset_normalizer').disabled = True

PROPERTY = 'C27'
RULE = ('random pages in the format of the chord and scale lists (synonyms, alternatives, references, other tables, '
        'invalid rows), scraped, printed as CSV and loaded again; all rows of the tables in random order; distinct = '
        'distinct pages / rows; non-trivial = at least one chord or scale')

# What the names mean in music theory.
SPELLED = {
    'augmented chord': '0 4 8', 'augmented eleventh chord': '0 4 7 10 14 18', 'augmented major seventh chord': '0 4 8 11',
    'augmented seventh chord': '0 4 8 10', 'diminished chord': '0 3 6', 'diminished major seventh chord': '0 3 6 11',
    'diminished seventh chord': '0 3 6 9', 'dominant eleventh chord': '0 4 7 10 14 17', 'dominant minor ninth': '0 4 7 10 13',
    'dominant ninth': '0 4 7 10 14', 'dominant seventh chord': '0 4 7 10', 'dominant seventh flat five chord': '0 4 6 10',
    'dominant seventh sharp nine': '0 4 7 10 15', 'dominant thirteenth chord': '0 4 7 10 14 17 21',
    'half-diminished seventh chord': '0 3 6 10', 'major chord': '0 4 7', 'major eleventh chord': '0 4 7 11 14 17',
    'major ninth chord': '0 4 7 11 14', 'major seventh chord': '0 4 7 11', 'major sixth chord': '0 4 7 9',
    'major sixth ninth chord': '0 4 7 9 14', 'major thirteenth chord': '0 4 7 11 14 18 21', 'minor chord': '0 3 7',
    'minor eleventh chord': '0 3 7 10 14 17', 'minor major seventh chord': '0 3 7 11', 'minor ninth chord': '0 3 7 10 14',
    'minor seventh chord': '0 3 7 10', 'minor sixth chord': '0 3 7 9', 'minor sixth ninth chord': '0 3 7 9 14',
    'minor thirteenth chord': '0 3 7 10 14 17 21', 'mystic chord': '0 6 10 16 21 26', 'power chord': '0 7',
    'suspended chord': '0 5 7', 'seventh suspension four chord': '0 5 7 10', 'tristan chord': '0 3 6 10',
    'hendrix chord': '0 4 7 10 15', 'so what chord': '0 5 10 15 19', 'elektra chord': '0 7 9 13 16',
    'farben chord': '0 8 11 16 21', 'petrushka chord': '0 1 4 6 7 10',
}
STEPS = {
    'major scale': '2212221', 'ionian mode': '2212221', 'dorian mode': '2122212', 'phrygian mode': '1222122',
    'lydian mode': '2221221', 'mixolydian mode': '2212212', 'aeolian mode': '2122122', 'locrian mode': '1221222',
    'natural minor scale': '2122122', 'melodic minor scale': '2122221', 'harmonicminor': '2122131',
    'harmonic major scale': '2212131', 'chromatic scale': '111111111111', 'whole tone scale': '222222',
    'major pentatonic scale': '22323', 'minor pentatonic scale': '32232', 'blues scale': '321132',
    'octatonic scale': '21212121', 'octatonic scale 1': '12121212', 'double harmonic scale': '1312131',
    'phrygian dominant scale': '1312122', 'hirajoshi scale': '42141', 'augmented scale': '313131',
}


def chord_table(rng, mon):
    """One row: ascending by less than an octave, as spelled."""
    name = rng.choice(sorted(CHORDS))
    chord = [int(p) for p in find_chord(name)]
    mon.check(all(0 < b - a < 12 for a, b in zip(chord, chord[1:])) and 0 <= chord[0] < 12, 'chord-row', '%s: %s', name, chord)
    mon.check(len({p % 12 for p in chord}) >= 2, 'chord-row', '%s: %s', name, chord)
    mon.event('chords')
    mon.case('chord', name)
    name = rng.choice(sorted(SPELLED))
    chord = ' '.join(str(int(p)) for p in find_chord(name))
    mon.check(chord == SPELLED[name], 'chord-spelling', '%s: %s instead of %s', name, chord, SPELLED[name])
    mon.case('spelled', name)


def scale_table(rng, mon):
    name = rng.choice(sorted(KNOWN_SCALES))
    scale = [int(s) for s in find_scale(name)]
    mon.check(sum(scale) == 12 and min(scale) > 0, 'scale-row', '%s: %s', name, scale)
    mon.event('scales')
    mon.case('scale', name)
    name = rng.choice(sorted(STEPS))
    scale = ''.join(str(int(s)) for s in find_scale(name))
    mon.check(scale == STEPS[name], 'scale-spelling', '%s: %s instead of %s', name, scale, STEPS[name])
    mon.case('steps', name)


# cents of the tunings, as their sources give them
TUNINGS = {
    'Andreas Werkmeister Iii (1645-1706)': [0, 90, 192, 294, 390, 498, 588, 697, 792, 888, 996, 1092],
    'Andreas Werkmeister Iv (1645-1706)': [0, 82, 196, 294, 392, 498, 588, 694, 784, 890, 1004, 1086],
    'Bachstimmung (Bradley Lehman)': [0, 98, 196.1, 298, 392.1, 501.9, 596.1, 698, 798, 894.1, 998, 1094.1],
    'Equal': [0, 100, 200, 300, 400, 500, 600, 700, 800, 900, 1000, 1100],
    'Francesco Antonio Vallotti (1697-1780)': [0, 94.14, 196.09, 298.05, 392.19, 501.96, 592.19, 698.05, 796.09, 894.14, 1000, 1090.23],
    'Jean Philippe Rameau': [0, 85, 194, 290, 388, 500, 585, 697, 787, 891, 994, 1086],
    'Johann Georg Neidhardt (1685-1739)': [0, 94, 196, 296, 392, 498, 592, 698, 796, 894, 996, 1092],
    'Johann Philipp Kirnberger Iii (1721-1783)': [0, 90, 194, 294, 386, 498, 590, 697, 792, 890, 996, 1088],
    'Just': [0, 111.7, 203.9, 315.6, 386.3, 498, 590.2, 702, 813.7, 884.4, 1017.6, 1088.3],
    'Ron Koval - Variable 5.0 - 2002': [0, 94.35, 197, 298, 393, 500, 593.65, 698.35, 796.35, 895, 999.35, 1092.5],
    'Sinusstimmung 7C': [0, 90.44, 193.94, 297.44, 387.88, 500.94, 587.88, 697.44, 793.94, 890.44, 1000, 1086.94],
    'Thomas Young': [0, 94, 196, 298, 392, 500, 592, 698, 796, 894, 1000, 1092],
    'Wolfgang Wiese 5C - 2006': [0, 94.55, 195.1, 299.55, 391.3, 501.15, 592.3, 697.75, 797.2, 892.75, 1001, 1091.15],
    'Young': [0, 93.9, 195.8, 297.8, 391.7, 499.9, 591.9, 697.9, 795.8, 893.8, 999.8, 1091.8],
    'Zarlino 1571': [0, 76, 193, 310, 386, 503, 579, 697, 773, 890, 1007, 1083],
}


def tuning_table(rng, mon):
    """All tunings ascend within an octave; historic ones are close to the
    equal temperament."""
    name = rng.choice(sorted(TEMPERAMENTS))
    t = TEMPERAMENTS[name]
    cents = np.array([1200 * np.log2(t.pitch_2_frequency(60 + k) / t.pitch_2_frequency(60)) for k in range(13)])
    mon.check((np.diff(cents) >= (0 if name == 'Random' else 30)).all() or name == 'Random', 'tuning-row', '%s: %s', name, cents)
    mon.check(abs(cents[12] - 1200) < 1e-6, 'tuning-row', '%s: octave of %s cents', name, cents[12])
    if name != 'Random':
        mon.check(abs(cents - 100 * np.arange(13)).max() < 60, 'tuning-row', '%s: %s', name, cents)
    if name in TUNINGS:
        mon.check(abs(cents[:12] - TUNINGS[name]).max() < 2, 'tuning-row', '%s: %s instead of %s', name, cents, TUNINGS[name])
    mon.event('tunings')
    mon.case('tuning', name)


# ratios of the intervals everybody knows
RATIOS = {
    'unison': '1', 'perfect prime': '1', 'octave': '2', 'perfect fifth': '3/2', 'perfect fourth': '4/3', 'major sixth': '5/3',
    'major third': '5/4', 'minor third': '6/5', 'minor sixth': '8/5', 'harmonic seventh': '7/4', 'septimal minor third': '7/6',
    'septimal whole tone': '8/7', 'septimal major third': '9/7', 'major whole tone': '9/8', 'minor whole tone': '10/9',
    'major ninth': '9/4', 'just minor seventh': '9/5', 'classic major seventh': '15/8', 'minor diatonic semitone': '16/15',
    'classic chromatic semitone': '25/24', 'septimal diesis': '36/35', 'syntonic comma': '81/80', 'septimal comma': '64/63',
    'minor diesis': '128/125', 'major diesis': '648/625', 'septimal kleisma': '225/224', 'schisma': '32805/32768',
    'minor ninth': '32/15', 'undecimal semi-augmented fourth': '11/8', 'tridecimal neutral sixth': '13/8',
}
LIMITS = {'Pythagorean': 3, 'septimal': 7, 'undecimal': 11, 'tridecimal': 13, 'septendecimal': 17}
FIFTHS = {'prime': 0, 'octave': 0, 'fifth': 1, 'second': 2, 'ninth': 2, 'sixth': 3, 'third': 4, 'seventh': 5, 'fourth': -1}
QUALITY = {'perfect': (0, 0), 'major': (0, 0), 'minor': (-7, -7), 'augmented': (7, 7), 'double augmented': (14, 14),
           'diminished': (-7, -14), 'double diminished': (-14, -21)}


def limit(ratio):
    """Largest prime factor of a fraction."""
    best = 1
    for n in (ratio.numerator, ratio.denominator):
        d = 2
        while n > 1:
            while n % d == 0:
                n //= d
                best = max(best, d)
            d += 1
    return best


def interval_table(rng, mon):
    """Intervals are the ratios of their names."""
    names = sorted(INTERVALS)
    if rng.random() < .5:
        names = [n for n in names if n.split()[0] in LIMITS or n in RATIOS or n.startswith('octave - ')]
    name = rng.choice(names)
    ratio = find_interval(name)
    mon.check(isinstance(ratio, Fraction) and 1 <= ratio < 4, 'interval-row', '%s: %r', name, ratio)
    if name in RATIOS:
        mon.check(ratio == Fraction(RATIOS[name]), 'interval-ratio', '%s: %s instead of %s', name, ratio, RATIOS[name])
    family, _, rest = name.partition(' ')
    if family in LIMITS:
        mon.check(limit(ratio) == LIMITS[family], 'interval-limit', '%s: %s', name, ratio)
    if name.startswith('octave - ') and name[9:] in INTERVALS:
        mon.check(ratio * INTERVALS[name[9:]] == 2, 'interval-complement', '%s: %s and %s', name, ratio, INTERVALS[name[9:]])
    quality, _, number = rest.rpartition(' ')
    if family == 'Pythagorean' and quality in QUALITY and number in FIFTHS:
        want = Fraction(3) ** (FIFTHS[number] + QUALITY[quality][number not in ('prime', 'octave', 'fifth', 'fourth')])
        while want >= 2:
            want /= 2
        while want < 1:
            want *= 2
        mon.check(ratio in (want, 2 * want), 'interval-fifths', '%s: %s instead of %s', name, ratio, want)
    mon.event('intervals')
    mon.case('interval', name)


# -- pages --------------------------------------------------------------------

def word(rng):
    return ''.join(rng.choice('abcdefghilmnpqstuvwyz') for _ in range(rng.randrange(3, 9)))


def title(rng, name):
    """A name as it is written in the lists."""
    text = name.title() if rng.random() < .5 else name
    if rng.random() < .1:
        text = '"%s"' % text
    if rng.random() < .2:
        text += '[%d]' % rng.randrange(30)
    if rng.random() < .2:
        text += ' (see below)'
    return text


def page(rng, caption, header, rows, width):
    def table(caption, rows):
        html = '<table>'
        if caption is not None:
            html += '<caption>%s\n</caption>' % caption
        html += '<tbody><tr>%s</tr>' % ''.join('<th>%s</th>' % h for h in header)
        for row in rows:
            html += '<tr>%s</tr>' % ''.join('<td>%s\n</td>' % cell for cell in row)
        return html + '</tbody></table>'

    junk = [table(rng.choice([None, 'Other list']), [width * ['x']]) for _ in range(2)]
    tables = [junk[0], table(caption, rows), junk[1]]
    rng.shuffle(tables)
    return '<html><body><p>Text</p>%s</body></html>' % ''.join(tables)


class Response:

    def __init__(self, html):
        self.content = html.encode()
        self.text = html
        self.status_code = 200
        self.ok = True

    def raise_for_status(self):
        pass


def fetch(html, caption, extractor):
    real = requests.get
    requests.get = lambda url, *args, **kwargs: Response(html)
    try:
        return scraping.get_them('http://localhost/list', caption, extractor)
    finally:
        requests.get = real


def round_trip(mon, found, expected, what):
    """Printed as CSV and loaded again."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        scraping.print_dict_2_csv(found)
    loaded = parse_music_data_from_csv(out.getvalue())
    mon.check(loaded == expected, 'csv', '%s: %s', what, describe(out.getvalue()))
    mon.check(list(loaded) == sorted(loaded), 'csv', 'not sorted')


def random_chord(rng):
    """(pitch classes as written, pitches)"""
    pitches = [rng.choice([0, 0, 0, rng.randrange(12)])]
    for _ in range(rng.randrange(1, 9)):
        pitches.append(pitches[-1] + rng.randrange(1, 12))
    ten, eleven = rng.choice([('t', 'e'), ('A', 'B'), ('10', '11')])
    return ' '.join({10: ten, 11: eleven}.get(p % 12, str(p % 12)) for p in pitches), pitches


def chord_pages(rng, mon):
    rows, expected, third = [], {}, {}
    for _ in range(rng.randrange(8)):
        name = word(rng)
        written, pitches = random_chord(rng)
        kind = rng.random()
        if kind < .15:
            parts = written.split()      # not supported
            parts.insert(rng.randrange(len(parts) + 1), 'x')
            written = ' '.join(parts)
        elif kind < .3:
            other = word(rng)
            expected[name] = expected[other] = pitches
            rows.append([title(rng, name + ' / ' + other), '', '', '', written, 'Major'])
            continue
        elif kind < .45:
            more, otherPitches = random_chord(rng)
            expected[name], expected[name + ' 1'] = pitches, otherPitches
            sep = rng.choice([' / ', ' or '])
            written += sep + more
            if kind > .4:
                # the third one is there as well, under another name
                more, otherPitches = random_chord(rng)
                written += sep + more
                third[name] = otherPitches
        else:
            expected[name] = pitches
        rows.append([title(rng, name), '', '', '', written, 'Minor'])
    html = page(rng, 'List of musical chords', ['Name', 'a', 'b', 'c', 'Pitch classes', 'Quality'], rows, 6)
    found = fetch(html, 'List of musical chords', scraping.extract_chords)
    found = {k: [int(p) for p in v] for k, v in found.items()}
    what = describe([(r[0], r[4]) for r in rows], 300)
    for name, pitches in third.items():
        keys = [k for k in found if k.startswith(name + ' ') and k not in expected]
        mon.check(len(keys) == 1 and found[keys[0]] == pitches, 'chord-page', '%s: third alternative of %s: %s', what,
                  name, keys)
        expected[keys[0]] = pitches
        mon.event('third alternatives')
    mon.check(found == expected, 'chord-page', '%s: %s instead of %s', what, describe(found), describe(expected))
    round_trip(mon, found, expected, what)
    mon.check(isinstance(raises(fetch, html, 'Another list', scraping.extract_chords), ValueError), 'no-table', what)
    mon.event('page-chords', len(expected))
    mon.case('chords', what, nontrivial=bool(expected))


NATURAL = {0: '1', 2: '2', 4: '3', 5: '4', 7: '5', 9: '6', 11: '7'}


def degree(rng, pitch):
    options = [''.join(acc) + NATURAL[p] for acc, d in [('', 0), ('♯', 1), ('♭', -1), ('♭♭', -2), ('♯♯', 2), ('♮', 0)]
               for p in NATURAL if p + d == pitch]
    return rng.choice(options)


def scale_pages(rng, mon):
    rows, expected = [], {}

    def random_scale():
        pitches = sorted({0} | {rng.randrange(12) for _ in range(rng.randrange(1, 8))})
        return (' '.join('1' if p == 0 else degree(rng, p) for p in pitches),
                [b - a for a, b in zip(pitches, pitches[1:] + [12])])

    for _ in range(rng.randrange(8)):
        name = word(rng) + ' scale'
        written, steps = random_scale()
        kind = rng.random()
        shown = name
        if kind < .1:
            written = rng.choice(['—', '1 2 etc.', '1 (2) 3', '(1 2 3)', 'etc.', '1 ♭2 (♮3 ♯4) etc. 7'])
        elif kind < .15:
            shown = name + ' quarter tone scale'
        elif kind < .3:
            other = word(rng)
            expected[name] = expected[other] = steps
            shown = name + ' / ' + other
        elif kind < .45:
            more, otherSteps = random_scale()
            written += '\n' + more
            expected[name], expected[name + ' 1'] = steps, otherSteps
        else:
            expected[name] = steps
        rows.append([title(rng, shown), '', '', written, 'W-H', '7', '', '', ''])
    caption = 'List of musical scales and modes'
    html = page(rng, caption, list('abcdefghi'), rows, 9)
    found = fetch(html, caption, scraping.extract_scales)
    found = {k: [int(p) for p in v] for k, v in found.items()}
    what = describe([(r[0], r[3]) for r in rows], 300)
    mon.check(found == expected, 'scale-page', '%s: %s instead of %s', what, describe(found), describe(expected))
    round_trip(mon, found, expected, what)
    mon.event('page-scales', len(expected))
    mon.case('scales', what, nontrivial=bool(expected))


SCENARIOS = [
    Scenario(chord_table, 600, 2000),
    Scenario(scale_table, 500, 2000),
    Scenario(tuning_table, 150, 500),
    Scenario(interval_table, 2500, 8000),
    Scenario(chord_pages, 200, 4000),
    Scenario(scale_pages, 200, 4000),
]
REQUIRED_EVENTS = {'chords': 300, 'scales': 300, 'tunings': 100, 'intervals': 1000, 'page-chords': 300, 'page-scales': 300}
