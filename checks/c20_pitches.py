"""C20: pitches, frequencies, note names and note messages agree with each other."""
import json
import math
import os
import pkgutil
import re

import numpy as np

from klang.config import KAMMERTON
from klang.messages import Note
from klang.music.pitch import CIRCLE_OF_FIFTHS, note_name_2_pitch, pitch_2_note_name
from klang.music.tunings import (
    EQUAL_TEMPERAMENT, TEMPERAMENTS, Temperament, cent_2_ratio, find_temperament, ratio_2_cent,
)
from vlib.core import Scenario, close, describe, raises

PROPERTY = 'C20'
RULE = ('random note names, strings, tunings, pitches and notes against the definitions in exact arithmetic; '
        'distinct = distinct names, (tuning, pitches) or notes; non-trivial = all of them')
LETTERS = {'C': 0, 'D': 2, 'E': 4, 'F': 5, 'G': 7, 'A': 9, 'B': 11}
NAME_RE = re.compile(r'[A-Ga-g](#{0,2}|[bB]{0,2})-?[0-9]+')


def names(rng, mon):
    """Name <-> pitch."""
    letter, accidental = rng.choice('CDEFGAB'), rng.choice(['', '#', '##', 'b', 'bb'])
    octave = rng.choice([rng.randrange(-2, 10), rng.randrange(-2, 10), rng.randrange(-100, 100)])
    name = '%s%s%d' % (letter, accidental, octave)
    pitch = LETTERS[letter] + accidental.count('#') - accidental.count('b') + 12 * (octave + 1)
    for variant in {name, name.lower(), name.upper()}:
        got = note_name_2_pitch(variant)
        mon.check(got == pitch and isinstance(got, (int, np.integer)), 'name-to-pitch', '%r: %r instead of %r', variant, got, pitch)
    back = pitch_2_note_name(pitch)
    mon.check(note_name_2_pitch(back) == pitch, 'name-round-trip', '%r -> %r', pitch, back)
    m = re.fullmatch('([CDFGA])(#?)(-?[0-9]+)|([EB])(-?[0-9]+)', back)
    mon.check(m is not None, 'name-spelling', '%d is called %r', pitch, back)
    mon.check(int(m.group(3) or m.group(5)) == pitch // 12 - 1, 'name-octave', '%d is called %r', pitch, back)
    other = rng.randrange(-200, 300)
    mon.check((pitch_2_note_name(other) == back) == (other == pitch), 'name-unique', '%d, %d, %r', pitch, other, back)
    mon.check(pitch_2_note_name(np.int64(pitch)) == back, 'name-numpy', '%r', pitch)
    mon.case(name)
    # strings which are no names
    junk = rng.choice([
        lambda: name[:-1] if octave in range(10) else name[1:] or '#',
        lambda: name + rng.choice([' ', 'x', '\n', '.5', '#', 'b']),
        lambda: rng.choice([' ', 'x', 'H', '4', '#']) + name,
        lambda: letter + rng.choice(['###', 'bbb', '#b', 'b#', 'x', '♯', '##b', ' ']) + str(abs(octave)),
        lambda: ''.join(rng.choice('ABCH#b-01 ') for _ in range(rng.randrange(5))),
        lambda: letter + rng.choice(['-', '--1', '1-', '4-2', '٤', '+4', '']),
    ])()
    if not NAME_RE.fullmatch(junk):
        err = raises(note_name_2_pitch, junk)
        mon.check(isinstance(err, ValueError), 'name-refusal', '%r: %r', junk, err)
        mon.event('invalid names')
    mon.event('names')


def cents_of(rng):
    kind = rng.choice(['equal', 'sorted', 'any'])
    if kind == 'equal':
        return [100 * i for i in range(12)]
    cents = [rng.choice([rng.uniform(0, 1200), float(rng.randrange(1200))]) for _ in range(12)]
    return sorted(cents) if kind == 'sorted' else cents


def tunings(rng, mon):
    """Frequencies of a temperament."""
    cents = cents_of(rng)
    kammerton = rng.choice([440., KAMMERTON, 432, 415., rng.uniform(300, 500)])
    arg = rng.choice([list, tuple, np.array])(cents)
    temp = Temperament(arg, kammerton) if rng.random() < .5 else Temperament(arg, kammerton=kammerton, name='foo')

    def expected(pitch):
        octave, note = divmod(pitch, 12)
        return kammerton * 2. ** ((cents[note] - cents[9]) / 1200 + octave - 5)

    pitches = [rng.choice([rng.randrange(128), 69, 60, 0, 127, rng.randrange(-100, 300)]) for _ in range(rng.randrange(1, 20))]
    text = 'cents %s kammerton %r' % (cents, kammerton)
    for p in pitches[:5]:
        close(mon, temp.pitch_2_frequency(p), expected(p), 'frequency', '%s pitch %d' % (text, p))
        close(mon, temp.pitch_2_frequency(p + 12), 2 * expected(p), 'octave', text)
        close(mon, Temperament(cents, 2 * kammerton).pitch_2_frequency(p), 2 * expected(p), 'kammerton', text)
    close(mon, temp.pitch_2_frequency(69), kammerton, 'kammerton', text)
    close(mon, temp.pitch_2_frequency(np.array(pitches)), [expected(p) for p in pitches], 'frequency-array', text)
    close(mon, EQUAL_TEMPERAMENT.pitch_2_frequency(pitches[0]), KAMMERTON * 2. ** ((pitches[0] - 69) / 12), 'equal')
    shifted = Temperament(np.array(cents) + rng.uniform(-50, 50), kammerton)
    close(mon, shifted.pitch_2_frequency(np.array(pitches)), [expected(p) for p in pitches], 'cents-offset', text)
    x = rng.choice([rng.uniform(-5000, 5000), 0., 100, 1200])
    close(mon, ratio_2_cent(cent_2_ratio(x)), x, 'cent-round-trip', str(x), atol=1e-6)
    close(mon, cent_2_ratio(x), math.exp(x / 1200 * math.log(2)), 'cent', str(x), rtol=1e-9)
    y = rng.uniform(.01, 100)
    close(mon, cent_2_ratio(ratio_2_cent(np.array([y, 1, 2]))), [y, 1, 2], 'cent-round-trip', str(y))
    mon.check(str(temp), 'text')
    mon.case(tuple(cents), kammerton, tuple(pitches))
    mon.event('tunings')


def database():
    """Rows of the tuning table: name -> cents."""
    rows = pkgutil.get_data('klang.music', os.path.join('data', 'tunings.csv')).decode().splitlines()
    return {row.split(',')[0]: [float(x) for x in row.split(',')[1:]] for row in rows if row.strip()}


def temperaments(rng, mon):
    """Known temperaments, found by name."""
    name = rng.choice(sorted(TEMPERAMENTS))
    temp = find_temperament(name)
    mon.check(temp is TEMPERAMENTS[name], 'temperament-found', '%r', name)
    close(mon, temp.pitch_2_frequency(69), KAMMERTON, 'kammerton', name)
    p = rng.randrange(128)
    close(mon, temp.pitch_2_frequency(p + 12), 2 * temp.pitch_2_frequency(p), 'octave', name)
    if name != 'Random':
        f = [temp.pitch_2_frequency(q) for q in range(p, p + 13)]
        mon.check(all(a < b for a, b in zip(f, f[1:])), 'ascending', '%s: %s', name, f)
        # simple ratios (12/11 as a half tone) are the widest of all
        limit = 70 if name == 'Pythagorean' else 45
        mon.check(abs(ratio_2_cent(f[12] / KAMMERTON) - 100 * (p + 12 - 69)) < limit, 'near-equal', '%s: pitch %d: %s Hz', name, p + 12, f[12])
    rows = database()
    row = rng.choice(sorted(rows))
    temp = find_temperament(row.title().strip())
    octave, note = divmod(p, 12)
    close(mon, temp.pitch_2_frequency(p), KAMMERTON * 2 ** ((rows[row][note] - rows[row][9]) / 1200 + octave - 5),
          'database', '%s pitch %d' % (row, p))
    just = dict(zip(range(12), (1, 16/15, 9/8, 6/5, 5/4, 4/3, 45/32, 3/2, 8/5, 5/3, 9/5, 15/8)))
    close(mon, find_temperament('Just').pitch_2_frequency(p), KAMMERTON * just[note] / just[9] * 2. ** (octave - 5), 'just')
    mon.check(sorted(np.asarray(CIRCLE_OF_FIFTHS).tolist()) == list(range(12))
              and all((b - a) % 12 == 7 for a, b in zip(CIRCLE_OF_FIFTHS, CIRCLE_OF_FIFTHS[1:])), 'fifths', '%s', CIRCLE_OF_FIFTHS)
    mon.case(name, p, row)
    mon.event('temperaments')


def notes(rng, mon):
    """Note messages."""
    pitch = rng.choice([0, 127, 60, rng.randrange(128)])
    velocity = rng.choice([0., 1., 0, 1, rng.random(), 1e-12])
    temp = rng.choice([EQUAL_TEMPERAMENT, TEMPERAMENTS['Just'], Temperament(cents_of(rng), rng.uniform(400, 480))])
    freq = rng.choice([None, None, 0., 440., rng.uniform(0, 30000)])
    kw = {}
    if temp is not EQUAL_TEMPERAMENT or rng.random() < .3:
        kw['temperament'] = temp
    if freq is not None:
        kw['frequency'] = freq
    note = Note(pitch, velocity, **kw)
    expected = freq if freq is not None else kw.get('temperament', EQUAL_TEMPERAMENT).pitch_2_frequency(pitch)
    text = describe((pitch, velocity, kw))
    mon.check((note.pitch, note.velocity) == (pitch, velocity) and note.frequency == expected, 'note-fields', '%s: %r', text, note)
    mon.check(note.on == (velocity > 0) and note.off == (velocity == 0), 'note-on-off', '%s: %r %r', text, note.on, note.off)
    quiet = note.silence()
    mon.check(type(quiet) is Note and quiet.off and not quiet.on and quiet.pitch == pitch and quiet.frequency == note.frequency,
              'note-silence', '%s: %r', text, quiet)
    mon.check((note.pitch, note.velocity) == (pitch, velocity), 'note-immutable', '%s changed', text)
    mon.check(isinstance(raises(setattr, note, rng.choice(note._fields), 0), AttributeError), 'note-immutable', 'assignment allowed')
    mon.check(Note(pitch).velocity == 1., 'note-default', 'default velocity %r', Note(pitch).velocity)
    # serialisation
    data = note.to_dict()
    keep = dict(data)
    mon.check(data['type'] == 'Note' and data['pitch'] == pitch and data['velocity'] == velocity
              and data['frequency'] == note.frequency, 'note-dict', '%s: %s', text, data)
    copy = Note.from_dict(data)
    mon.check(copy == note and type(copy) is Note, 'note-dict', '%s: %r', text, copy)
    mon.check(data == keep, 'note-dict', 'dictionary modified: %s', data)
    string = note.to_json()
    copy = Note.from_json(string)
    mon.check(tuple(copy) == tuple(note) and type(copy) is Note, 'note-json', '%s: %r', text, copy)
    mon.check(json.loads(string) == {'type': 'Note', 'pitch': pitch, 'velocity': velocity, 'frequency': float(note.frequency)},
              'note-json', '%s: %s', text, string)
    wrong = dict(data, type=rng.choice(['note', 'Block', None, '']))
    mon.check(isinstance(raises(Note.from_dict, wrong), ValueError), 'note-type', 'accepted %s', wrong)
    # order: pitch first
    other = Note(rng.choice([pitch, rng.randrange(128)]), rng.random())
    mon.check((note < other) == ((pitch, velocity, note.frequency) < tuple(other)), 'note-order', '%r < %r', note, other)
    # invalid notes
    for args, kwargs in [((rng.choice([-1, 128, 1000, -.5, float('nan')]),), {}),
                         ((pitch, rng.choice([-.1, 1.1, -1e-9, 1 + 1e-9, float('nan'), float('inf')])), {}),
                         ((pitch, velocity), {'frequency': rng.choice([-1e-9, -440., -1])})]:
        err = raises(lambda: Note(*args, **kwargs))
        mon.check(isinstance(err, ValueError), 'note-refusal', '%s %s: %r', args, kwargs, err)
    mon.check(str(note), 'text')
    mon.case(pitch, velocity, freq, kw.get('temperament') is not None)
    mon.event('notes')


SCENARIOS = [
    Scenario(names, 3000, 100000),
    Scenario(tunings, 1000, 30000),
    Scenario(temperaments, 600, 10000),
    Scenario(notes, 2000, 60000),
]
REQUIRED_EVENTS = {'names': 1000, 'invalid names': 300, 'tunings': 200, 'temperaments': 200, 'notes': 500}
