"""C26: sheet music text and progress bars show what there is: every note, in order, in its bar."""
import contextlib
import io

from fractions import Fraction

import klang.music.note_formatting as nf
from klang.music.metre import (
    FOUR_FOUR_METRE, NINE_EIGHT_METRE, SIX_EIGHT_METRE, THREE_FOUR_METRE, TWO_FOUR_METRE, create_metre,
)
from klang.music.note_values import Tuplet
from klang.progress_bar import ProgressBar
from vlib.core import Scenario, describe, raises

PROPERTY = 'C26'
RULE = ('random rhythms (plain, dotted, syncopated, over bar lines), metres, groupings and nested tuplets formatted, and '
        'the text read back note by note; random text blocks stacked; progress bars driven with a virtual clock; '
        'distinct = distinct arguments; non-trivial = more than one note / line / step')

NOTES = [Fraction(1, 16), Fraction(3, 32), Fraction(1, 8), Fraction(3, 16), Fraction(1, 4), Fraction(3, 8), Fraction(1, 2), Fraction(3, 4),
         Fraction(1, 1)]
SHORT = NOTES[:5]
LONG = [Fraction(1, 16), Fraction(1, 8), Fraction(1, 1), Fraction(3, 2), Fraction(2, 1), Fraction(3, 1), Fraction(4, 1)]
METRES = [(FOUR_FOUR_METRE, 4 * [Fraction(1, 4)]), (THREE_FOUR_METRE, 3 * [Fraction(1, 4)]),
          (TWO_FOUR_METRE, 2 * [Fraction(1, 4)]), (SIX_EIGHT_METRE, 2 * [Fraction(3, 8)]),
          (NINE_EIGHT_METRE, 3 * [Fraction(3, 8)])]
GROUPS = [[Fraction(3, 8), Fraction(2, 8)], [Fraction(2, 8), Fraction(2, 8), Fraction(3, 8)], [Fraction(1, 2)],
          [Fraction(1, 4), Fraction(1, 8)], [Fraction(1, 2), Fraction(1, 2)], [Fraction(4, 1), Fraction(2, 1)],
          [Fraction(2, 8)] * 4 + [Fraction(3, 8)], [Fraction(2, 8), Fraction(3, 8)] * 4, [Fraction(1, 4)] * 5 + [Fraction(3, 16)],
          [Fraction(1, 8)] * 11]
HEADS = '●○'
BEAMS = {Fraction(1, 8): '┌┬┐', Fraction(3, 16): '┌┬┐', Fraction(1, 16): '╒╤╕', Fraction(3, 32): '╒╤╕'}


def rows_of(mon, text, height, what):
    rows = text.split('\n')
    mon.check(len(rows) == height and len(set(map(len, rows))) == 1, 'rectangle', '%s: rows of %s', what, [len(r) for r in rows])
    return rows


def rhythm(rng, mon):
    """Plain and dotted notes are read back from the text."""
    metre, grouping = rng.choice(METRES)
    kw = {'metre': metre}
    if rng.random() < .5:
        grouping = rng.choice(GROUPS)
        kw = {'grouping': grouping}
    elif metre is FOUR_FOUR_METRE and rng.random() < .5:
        kw = {}
    pool = rng.choice([NOTES, SHORT, NOTES[:3:2], LONG if rng.random() < .5 else NOTES])
    notes = [rng.choice(pool) for _ in range(rng.randrange(1, 25))]
    strech = rng.random() < .5
    if not strech:
        kw['strech'] = False
    signature = rng.random() < .5
    if not signature:
        kw['timeSignature'] = False
    what = '%s %s' % (' '.join(map(str, notes)), describe(kw))
    before = list(notes), list(grouping)
    text = nf.format_notes(notes, **kw)
    mon.check((list(notes), list(grouping)) == before, 'modified', what)
    rows = rows_of(mon, text, 3, what)
    top, middle, bottom = rows
    if signature:
        width = max(len(rows[1]) - len(rows[1].lstrip('-')), 1)
        check_signature(mon, [r[:width] for r in rows], grouping, what)
        mon.check(all(r[width] == ' ' for r in rows), 'time-signature', what)
        top, middle, bottom = (r[width:] for r in rows)
    # bottom row: heads and bar lines
    tokens = [(c, x) for x, c in enumerate(bottom) if c in HEADS + '│']
    mon.check(all(c in HEADS + '│. ' for c in bottom), 'heads', '%s: %r', what, bottom)
    bar = sum(grouping)
    expected, start = [], Fraction(0)
    starts = []
    nBars = 0
    for note in notes:
        while nBars < start // bar:
            expected.append('│')
            nBars += 1
        expected.append('○' if note > Fraction(1, 4) else '●')
        starts.append(start)
        start += note
    mon.check([c for c, _ in tokens] == expected, 'order', '%s: %s instead of %s', what, ''.join(c for c, _ in tokens),
              ''.join(expected))
    for c, x in tokens:
        if c == '│':
            mon.check(top[x] == middle[x] == '│', 'bar-line', what)
    bars = [x for c, x in tokens if c == '│']
    mon.event('bar-lines', len(bars))
    heads = [x for c, x in tokens if c != '│']
    boundaries = set()
    at = Fraction(0)
    while at <= start + bar:
        for g in grouping:
            at += g
            boundaries.add(at)
    gaps = {}
    beaming = False
    for k, (x, note, begin) in enumerate(zip(heads, notes, starts)):
        where = '%s: note %d' % (what, k)
        mon.check((bottom[x + 1] == '.') == (note.numerator == 3), 'dot', where)
        mon.check(middle[x + 1] == ('│' if note <= Fraction(1, 2) else ' '), 'stem', where)
        following = heads[k + 1] if k + 1 < len(heads) else len(top)
        between = top[x + 2:following]
        if note in BEAMS:
            joined = not any(begin < b <= begin + note for b in boundaries)
            kind = 2 if not joined else 1 if beaming else 0
            mon.check(top[x + 1] == BEAMS[note][kind], 'beam', '%s: %r instead of %r', where, top[x + 1], BEAMS[note][kind])
            dash = '─' if BEAMS[note][0] == '┌' else '═'
            if joined:
                mon.check(set(between.replace('│', '')) <= {dash} and dash in between, 'beam', '%s: gap %r', where, between)
            else:
                mon.check(not between.strip(' │'), 'beam', '%s: %r after the last note of a group', where, between)
            beaming = joined
            mon.event('beams')
        else:
            mon.check(top[x + 1] == ('│' if note <= Fraction(1, 2) else ' '), 'beam', where)
            mon.check(not between.strip(' │'), 'beam', '%s: beam %r after a long note', where, between)
            beaming = False
        if k + 1 < len(heads) and not any(x < b < following for b in bars):
            gaps.setdefault(note, set()).add(following - x)
    if strech:
        for note, widths in gaps.items():
            mon.check(len(widths) == 1, 'spacing', '%s: %s is followed by %s columns', what, note, widths)
        widths = [min(gaps[n]) for n in sorted(gaps)]
        mon.check(widths == sorted(widths), 'spacing', '%s: %s', what, gaps)
        raster = min(notes)
        for a, b in zip(sorted(gaps), sorted(gaps)[1:]):
            mon.check(b // raster == a // raster or min(gaps[b]) > min(gaps[a]), 'spacing', '%s: %s', what, gaps)
    mon.event('notes', len(notes))
    mon.case('rhythm', [str(n) for n in notes], [str(g) for g in grouping], strech, nontrivial=len(notes) > 1)


def check_signature(mon, rows, grouping, what):
    num, line, den = (r.strip() for r in rows)
    mon.check(set(line) == {'-'} and len(line) >= max(len(num), len(den)), 'time-signature', '%s: %r', what, rows)
    parts = [Fraction(int(n), int(den)) for n in num.split('+')]
    mon.check(sum(parts) == sum(grouping), 'time-signature', '%s: %s/%s', what, num, den)
    if len(parts) > 1:
        mon.check(parts == list(grouping), 'time-signature', '%s: %s/%s', what, num, den)


def time_signatures(rng, mon):
    """Metres and groupings."""
    if rng.random() < .5:
        num, den = rng.randrange(1, 17), rng.choice([1, 2, 4, 8, 16])
        metre = create_metre(num, den)
        text = nf.format_time_signature(metre)
        rows = rows_of(mon, text, 3, str(metre))
        check_signature(mon, rows, [Fraction(num, den)], '%d/%d' % (num, den))
        mon.check(rows[2].strip() == str(den), 'time-signature', '%d/%d shown as %s', num, den, rows)
        mon.case('metre', num, den)
    else:
        grouping = rng.choice(GROUPS + [g for _, g in METRES])
        rows = rows_of(mon, nf.format_time_signature(grouping), 3, str(grouping))
        check_signature(mon, rows, grouping, str(grouping))
        total = nf.sum_grouping(grouping)
        mon.check(Fraction(total.numerator, total.denominator) == sum(grouping)
                  and total.denominator == max(g.denominator for g in grouping), 'sum', '%s: %s', grouping, total)
        expanded = list(nf.expand(grouping))
        mon.check(len({e.denominator for e in expanded}) == 1
                  and [Fraction(e.numerator, e.denominator) for e in expanded] == grouping, 'expand', '%s: %s', grouping, expanded)
        mon.case('grouping', [str(g) for g in grouping])
    notes = [rng.choice(NOTES) for _ in range(rng.randrange(10))]
    mon.check(nf.cumsum(notes) == [sum(notes[:k], Fraction(0)) for k in range(len(notes))], 'cumsum', str(notes))
    mon.event('signatures')


def leaves(notes):
    for note in notes:
        if isinstance(note, Tuplet):
            yield from leaves(note.notes)
        else:
            yield note


def depth(notes):
    return max((1 + depth(n.notes) if isinstance(n, Tuplet) else 0 for n in notes), default=0)


def random_tuplet(rng, level=0):
    num = rng.choice([3, 3, 5, 6, 7, 2, rng.randrange(2, 24)])
    den = rng.choice([num - 1, num - 1, rng.randrange(1, 16)])
    unit = rng.choice([Fraction(1, 8), Fraction(1, 16), Fraction(1, 4)])
    notes = num * [unit]
    if level < 2 and rng.random() < .3 and unit >= Fraction(1, 8):
        notes[rng.randrange(num)] = random_tuplet(rng, level + 1)
    return Tuplet(num, notes) if den == num - 1 and rng.random() < .7 else Tuplet(num, notes, den)


def tuplets(rng, mon):
    """All the notes of (nested) tuplets appear, under a label per tuplet."""
    notes = [random_tuplet(rng) if rng.random() < .5 else rng.choice(NOTES) for _ in range(rng.randrange(1, 6))]
    what = ' '.join(str(n) if not isinstance(n, Tuplet) else '%d:(%s)' % (n.num, list(map(str, n.notes))) for n in notes)
    if any(n < Fraction(1, 16) for n in flat(notes)):
        mon.check(isinstance(raises(nf.format_notes, notes), ValueError), 'too-short', what)
        return
    text = nf.format_notes(notes, timeSignature=False)
    rows = rows_of(mon, text, 3 + depth(notes), what)
    got = [c for c in rows[-1] if c in HEADS]
    mon.check(got == ['○' if n > Fraction(1, 4) else '●' for n in leaves(notes)], 'order', '%s: %s', what, ''.join(got))
    labels = sorted(p for r in rows[:-2] for p in r.replace('┌', ' ').replace('┐', ' ').replace('─', ' ').split() if ':' in p)
    expected = sorted('%d:%d' % (n.num, n.den) for n in all_tuplets(notes))
    mon.check(labels == expected, 'labels', '%s: %s instead of %s', what, labels, expected)
    for t in notes:
        if isinstance(t, Tuplet) and not any(isinstance(n, Tuplet) for n in t.notes):
            long, short = nf.format_tuplet(t), nf.format_tuplet(t, explicit=False)
            ratio = '%d' % t.num if t.num == t.den + 1 else '%d:%d' % (t.num, t.den)
            for label, alone in (('%d:%d' % (t.num, t.den), long), (ratio, short)):
                rows_of(mon, alone, 4, what)
                top = alone.split('\n')[0]
                mon.check(top.strip('┌┐─ ') == label, 'labels', '%s alone: %s instead of %s', what, top, label)
            mon.check(long.split('\n')[1:] == short.split('\n')[1:], 'labels', '%s: notes depend on the label', what)
            mon.event('short labels')
    mon.event('tuplets', len(expected))
    mon.case('tuplets', what, nontrivial=bool(expected))


def all_tuplets(notes):
    for note in notes:
        if isinstance(note, Tuplet):
            yield note
            yield from all_tuplets(note.notes)


def flat(notes):
    for note in notes:
        yield note
        if isinstance(note, Tuplet):
            yield from flat(note.notes)


def blocks(rng, mon):
    """Rectangular texts stacked side by side, bottom aligned."""
    texts = []
    for _ in range(rng.randrange(0, 6)):
        w, h = rng.randrange(1, 6), rng.randrange(1, 5)
        texts.append('\n'.join(''.join(rng.choice('ab●│') for _ in range(w)) for _ in range(h)))
    sep = rng.choice(['', '', ' ', '|'])
    text = nf.hstack(*texts, sep=sep)
    height = max((len(t.split('\n')) for t in texts), default=0)
    expected = []
    for y in range(height):
        row = []
        for t in texts:
            lines = t.split('\n')
            k = y - (height - len(lines))
            row.append(lines[k] if k >= 0 else ' ' * len(lines[0]))
        expected.append(sep.join(row))
    mon.check(text == '\n'.join(expected), 'hstack', '%s: %r', texts, text)
    for t in texts:
        lines = t.split('\n')
        mon.check(tuple(nf.text_size(t)) == (len(lines[0]), len(lines)), 'text-size', repr(t))
        more = rng.randrange(3)
        mon.check(nf.heighten_text(t, len(lines) + more, '?') == '\n'.join(more * ['?' * len(lines[0])] + lines), 'heighten', repr(t))
    mon.event('blocks', len(texts))
    mon.case('blocks', texts, sep, nontrivial=len(texts) > 1)


def progress(rng, mon):
    """A progress bar hands out the range, never shrinks, and ends full."""
    length = rng.choice([0, 1, 2, 3, rng.randrange(100), rng.randrange(100), rng.randrange(100)])
    if rng.random() < .02:
        length = rng.randrange(1000, 12000)
    width = rng.choice([20, 1, rng.randrange(60), rng.randrange(60, 240)])
    prefix = rng.choice(['', 'Bouncing'])
    stream = io.StringIO()
    now = [rng.uniform(0, 1e4)]

    class Bar(ProgressBar):
        clock = staticmethod(lambda: now[0])

    Bar.stream = stream
    with contextlib.redirect_stdout(io.StringIO()):
        rate = rng.uniform(.001, 10)
        if rng.random() < .3:
            # a bar can be used again
            bar = Bar(length, width, prefix=prefix)
            for i in range(rng.randrange(length + 1)):
                bar.print(i)
                now[0] += rng.uniform(.001, 10)
            stream.seek(0)
            stream.truncate()
            steps = (bar.print(i) or i for i in range(length))
            mon.event('bars used again')
        else:
            steps = Bar.range(length, width, prefix=prefix)
        got = []
        for i in steps:
            got.append(i)
            now[0] += rate
    mon.check(got == list(range(length)), 'range', '%d steps: %s', length, describe(got))
    out = stream.getvalue()
    mon.check(out.endswith('\n') == (length > 0) and out.count('\n') == (length > 0), 'last-line', repr(out[-60:]))
    shown = [s.strip('\n') for s in out.split('\33[2K\r')[1:]]
    mon.check(len(shown) == length, 'renders', '%d of %d', len(shown), length)
    ticks = []
    for k, s in enumerate(shown):
        head, rest = s.split('[', 1)
        bar, rest = rest.split(']', 1)
        stars = len(bar) - len(bar.lstrip('*'))
        mon.check(head.strip() == prefix and len(bar) == width and not bar[stars:].strip(), 'bar', repr(s))
        ticks.append(stars)
        remaining = float(rest.split()[0])
        if k:
            mon.check(abs(remaining - rate * (length - 1 - k)) <= 1e-3 + 1e-6 * rate * length, 'remaining',
                      '%r at %d of %d, %r s per step', s, k, length, rate)
    mon.check(ticks == sorted(ticks) and all(0 <= t <= width for t in ticks), 'bar', str(ticks))
    if length > 1:
        mon.check(ticks[0] == 0 and ticks[-1] == width, 'bar', 'from %s to %s of %d', ticks[0], ticks[-1], width)
    for k, t in enumerate(ticks if length > 1 else ()):
        mon.check(abs(t - width * k / (length - 1)) < 1 + 1e-6, 'bar', '%d of %d stars at %d of %d', t, width, k, length)
    mon.event('steps', length)
    mon.case('progress', length, width, prefix, nontrivial=length > 1)


SCENARIOS = [
    Scenario(rhythm, 700, 20000),
    Scenario(time_signatures, 200, 3000),
    Scenario(tuplets, 300, 6000),
    Scenario(blocks, 200, 4000),
    Scenario(progress, 200, 4000),
]
REQUIRED_EVENTS = {'notes': 3000, 'beams': 1000, 'bar-lines': 500, 'signatures': 100, 'tuplets': 150, 'short labels': 50, 'blocks': 200,
                   'steps': 1000}
