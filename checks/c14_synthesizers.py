"""C14: synthesizers sound exactly the held notes."""
import copy
import math
import warnings

import numpy as np

from klang.audio.envelopes import ADSR, AR, D, R
from klang.audio.oscillators import Oscillator
from klang.audio.synthesizer import HiHat, Kick, MonophonicSynthesizer, PolyphonicSynthesizer
from klang.audio.voices import Voice
from klang.audio.waves import sawtooth, sine, triangle
from klang.block import Block
from klang.config import BUFFER_SIZE, SAMPLING_RATE
from klang.connections import MessageOutput
from klang.messages import Note
from vlib.core import Scenario, close

PROPERTY = 'C14'
RULE = ('random histories of note-ons and note-offs (chords, repeated pitches, several messages per buffer, more notes '
        'than voices) played by synthesizers whose voices output a unique power of two per note, so that the set of '
        'sounding notes is decoded exactly from the mixed signal; distinct = distinct histories; non-trivial = at '
        'least one note ended while another one was held')
INTERVAL = BUFFER_SIZE / SAMPLING_RATE


class Level(Block):
    """Oscillator stand-in: outputs its frequency as a constant signal."""

    def __init__(self, frequency=0.):
        super().__init__(nInputs=1, nOutputs=1)
        self.frequency, = self.inputs
        self.frequency.set_value(frequency)

    def update(self):
        self.output.set_value(np.full(BUFFER_SIZE, float(self.frequency.value)))

    def __deepcopy__(self, memo):
        return type(self)(self.frequency.value)


def make_envelope(rng):
    """Envelopes which settle within three buffers."""
    t = rng.choice([0., .2, 1.]) * INTERVAL
    return rng.choice([
        lambda: R(release=t), lambda: ADSR(0., 0., 1., 0.), lambda: AR(attack=t, release=t),
        lambda: ADSR(attack=t, decay=t / 2, sustain=1., release=t), lambda: R(release=t, retrigger=True),
    ])()


def settle(synth, n=4):
    for _ in range(n):
        synth.update()
    return np.array(synth.output.value, dtype=float)


def decode(mon, level, text):
    """Exponents of the powers of two in a settled signal."""
    total = int(round(level))
    mon.check(abs(level - total) < 1e-6 * max(1, total), 'decode', '%s: level %r is not a sum of notes', text, level)
    return {i for i in range(64) if total >> i & 1}


def deliver(rng, synth, source, notes):
    if rng.random() < .5:
        for n in notes:
            source.send(n)
    elif rng.random() < .5:
        for n in notes:
            synth.input.push(n)
    else:
        synth.play_note(*notes)


def polyphony(rng, mon):
    synth = PolyphonicSynthesizer(Voice(Level(), make_envelope(rng)))
    source = MessageOutput()
    source.connect(synth.input)
    limit = synth.MAX_VOICES
    pitches = rng.sample(range(0, 128), rng.randint(1, 30)) if rng.random() < .5 else rng.sample(range(1, 128), 4)
    held = []    # (exponent, pitch), oldest first
    log = []
    ended = False
    steal = rng.random() < .3
    synth.update()
    mon.check(not np.any(synth.output.value), 'initially-silent', 'sounds without notes')
    for _ in range(rng.randint(5, 25)):
        burst = []
        ons = 0
        room = limit - len(held)
        for _ in range(rng.choice([0, 1, 1, 2, 3, 6] + [12] * steal)):
            if rng.random() < (.4 if not steal else .15) and (held or rng.random() < .2):
                p = rng.choice(held)[1] if held and rng.random() < .85 else rng.choice(pitches)
                burst.append(Note(p, 0., frequency=rng.choice([None, 3.])))
                n = len(held)
                held = [h for h in held if h[1] != p]
                ended |= len(held) < n and bool(held)
                log.append('-%d' % p)
                # the voices of this pitch are only free after the next buffer
            elif ons < room or steal and len(held) < 45 and ons < limit:
                used = {e for e, _ in held}
                e = rng.choice([i for i in range(50) if i not in used])
                # exponents of notes released in this buffer must not be reused
                if any(n.on and n.frequency == 2. ** e for n in burst):
                    continue
                p = rng.choice(pitches)
                burst.append(Note(p, 1., frequency=2. ** e))
                held.append((e, p))
                ons += 1
                log.append('+%d' % p)
        log.append('|')
        deliver(rng, synth, source, burst)
        mon.event('messages', len(burst))
        synth.update()
        first = np.array(synth.output.value, dtype=float)
        mon.check(np.isfinite(first).all() and (first >= 0).all(), 'range', 'output %r', first.min())
        out = settle(synth)
        close(mon, out, np.full(BUFFER_SIZE, out[-1]), 'settled', '%s' % log)
        sounding = decode(mon, out[-1] * limit, log)
        wanted = {e for e, _ in held}
        if len(held) <= limit and not steal:
            mon.check(sounding == wanted, 'sounding', '%s: sounding %s, held %s', log, sorted(sounding), sorted(wanted))
        else:
            mon.check(sounding <= wanted, 'sounding', '%s: %s sounds but is not held', log, sounding - wanted)
            # which voice is stolen is left open, but the latest note is always played
            new = {int(math.log2(n.frequency)) for n in burst[-1:] if n.on}
            mon.check(new <= sounding, 'new-note', '%s: new note %s does not sound (%s)', log, new, sounding)
            # what was stolen stays silent
            held = [h for h in held if h[0] in sounding]
            mon.event('over the limit')
        mon.event('held notes', len(wanted))
    deliver(rng, synth, source, [Note(p, 0.) for p in {p for _, p in held}])
    mon.check(not np.any(settle(synth)), 'all-off', '%s: sounds after all note-offs', log)
    mon.check(not any(v.active for v in synth.voices), 'all-off', '%s: voices still active', log)
    mon.case('poly', tuple(log), nontrivial=ended)
    mon.sample('poly %s' % ' '.join(log))


def stealing(rng, mon):
    """Over the limit the voices are stolen in turn: the latest notes sound."""
    synth = PolyphonicSynthesizer(Voice(Level(), ADSR(0., 0., 1., 0.)))
    limit = synth.MAX_VOICES
    order = []
    pitches = rng.sample(range(128), 50)
    for e, pitch in enumerate(pitches[:rng.randint(limit + 1, 49)]):
        synth.input.push(Note(pitch, 1., frequency=2. ** e))
        order.append(e)
        if rng.random() < .6:
            synth.update()
        if len(order) >= limit and rng.random() < .3:
            sounding = decode(mon, settle(synth)[-1] * limit, order)
            missing = set(order[-limit // 2:]) - sounding
            mon.check(not missing, 'stealing', 'after %d notes the recent ones %s do not sound', len(order), missing)
            mon.check(len(sounding) == limit, 'stealing', '%d notes, %d sound', len(order), len(sounding))
            mon.event('over the limit')
    mon.case('stealing', len(order), tuple(order[:3]))


def choose(policy, held):
    if policy == 'newest':
        return held[-1]
    if policy == 'oldest':
        return held[0]
    key = max if policy == 'highest' else min
    p = key(n.pitch for n in held)
    return p


def monophony(rng, mon):
    policy = rng.choice(['newest', 'oldest', 'lowest', 'highest'])
    kwargs = {} if policy == 'newest' and rng.random() < .5 else {'policy': policy}
    synth = MonophonicSynthesizer(Voice(Level(), make_envelope(rng)), **kwargs)
    source = MessageOutput()
    source.connect(synth.input)
    held = []
    log = [policy]
    serial = 0
    ended = False
    pitches = rng.sample(range(128), rng.choice([2, 3, 5, 10, 16, 20]))
    phases = rng.random() < .4      # hands full of keys going down, then up
    press = .5
    synth.update()
    mon.check(not np.any(synth.output.value), 'initially-silent', 'sounds without notes')
    for _ in range(rng.randint(20, 60) if phases else rng.randint(5, 30)):
        burst = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 4])):
            if phases and (not held or len(held) == len(pitches)):
                press = .1 if held else .9
            if held and rng.random() > press or rng.random() < .05:
                p = rng.choice(held).pitch if held else rng.choice(pitches)
                if held and rng.random() < .1:
                    p = rng.choice(pitches)   # not necessarily held
                n = len(held)
                held = [h for h in held if h.pitch != p]
                ended |= bool(held) and len(held) < n
                burst.append(Note(p, 0., frequency=1.))
                log.append('-%d' % p)
            else:
                free = [p for p in pitches if all(h.pitch != p for h in held)]
                if not free:
                    continue
                note = Note(rng.choice(free), rng.choice([1., .5, .25]), frequency=4. * serial + 1)
                serial += 1
                held.append(note)
                burst.append(note)
                log.append('+%d' % note.pitch)
        log.append('|')
        deliver(rng, synth, source, burst)
        mon.event('messages', len(burst))
        out = settle(synth)
        if held:
            got = choose(policy, held)
            want = got if isinstance(got, Note) else [h for h in held if h.pitch == got][0]
            close(mon, out, np.full(BUFFER_SIZE, want.velocity * want.frequency), 'mono', '%s: held %s' % (log, held))
            mon.event('mono notes')
        else:
            mon.check(not np.any(out), 'mono-silent', '%s: sounds %r without held notes', log, out[-1])
    mon.case('mono', tuple(log), nontrivial=ended)
    mon.sample('mono %s' % ' '.join(log))


def mono_repeated(rng, mon):
    """Pitches pressed several times without their note-off in between."""
    policy = rng.choice(['newest', 'oldest', 'lowest', 'highest'])
    synth = MonophonicSynthesizer(Voice(Level(), ADSR(0., 0., 1., 0.)), policy)
    held = []
    log = [policy]
    pitches = rng.sample(range(128), 3)
    for _ in range(30):
        if held and rng.random() < .5:
            p = rng.choice(held)
            held.remove(p)
            synth.input.push(Note(p, 0.))
            log.append('-%d' % p)
        else:
            p = rng.choice(pitches)
            held.append(p)
            synth.input.push(Note(p, 1., frequency=p + 1.))
            log.append('+%d' % p)
        level = settle(synth)[-1]
        allowed = {p + 1. for p in held} or {0.}
        if held and policy in ('lowest', 'highest'):
            allowed = {(min if policy == 'lowest' else max)(held) + 1.}
        mon.check(level in allowed, 'repeated', '%s: level %s, held %s', log, level, held)
    mon.event('mono notes', 30)
    mon.case('repeated', tuple(log))


def voices(rng, mon):
    """The signal of a voice is oscillator x envelope x velocity; copies are independent."""
    wave = rng.choice([sine, sawtooth, triangle])
    params = [rng.choice([0., rng.uniform(.001, .05)]), rng.uniform(.001, .05), rng.random(),
              rng.choice([0., rng.uniform(.001, .05)])]

    def parts():
        return Oscillator(wave_func=wave), ADSR(*params)

    voice = Voice(*parts())
    copies = []
    osc, env = parts()
    velocity = 0.
    log = []
    on = False
    for k in range(rng.randint(5, 40)):
        notes = []
        for _ in range(rng.choice([0, 0, 0, 1, 2, 3, rng.randint(0, 6)])):
            if rng.random() < (.5 if on else .2):
                notes.append(Note(60, 0.))
            else:
                notes.append(Note(rng.randrange(128), rng.choice([rng.uniform(.01, 1), 10 ** -rng.uniform(2, 9)])))
            on = notes[-1].on
        for n in notes:
            voice.input.push(n)
            env.gate(n.on)
            if n.on:
                velocity = n.velocity
                osc.frequency.set_value(n.frequency)
            log.append(str(n.pitch) if n.on else '-')
        log.append('|')
        if notes:
            mon.check(voice.active, 'active', 'inactive with pending notes')
        if rng.random() < .1:
            copies.append(copy.deepcopy(voice))
        voice.update()
        osc.update()
        env.update()
        close(mon, voice.output.value, velocity * np.asarray(osc.output.value) * np.asarray(env.output.value), 'voice',
              '%s %s' % (params, log), atol=1e-12)
        mon.check(voice.active == bool(env.active), 'active', '%s: %s', log, voice.active)
        mon.event('voice buffers')
    for c in copies:
        c.update()
        mon.check(not np.any(c.output.value), 'copy', 'copy sounds without note')
        c.input.push(Note(64))
        c.update()
    voice.update()
    osc.update()
    env.update()
    close(mon, voice.output.value, velocity * np.asarray(osc.output.value) * np.asarray(env.output.value), 'copy',
          'copies disturb the original', atol=1e-12)
    mon.case('voice', tuple(log), tuple(params), wave.__name__)


def poly_mixing(rng, mon):
    """A polyphonic synthesizer is the mean of independent voices."""
    wave = rng.choice([sine, sawtooth])
    params = [rng.uniform(.001, .03), rng.uniform(.001, .03), rng.uniform(.1, 1), rng.uniform(.001, .03)]
    synth = PolyphonicSynthesizer(Voice(Oscillator(wave_func=wave), ADSR(*params)))
    template = Voice(Oscillator(wave_func=wave), ADSR(*params))
    playing = {}
    pitches = rng.sample(range(20, 100), rng.randint(1, 10))
    for k in range(rng.randint(3, 30)):
        p = rng.choice(pitches)
        if p not in playing:
            # fresh pitch on a fresh voice: the phase of its oscillator starts at zero
            playing[p] = copy.deepcopy(template)
            note = Note(p, rng.uniform(.1, 1))
            playing[p].input.push(note)
            synth.input.push(note)
        elif rng.random() < .5:
            playing[p].input.push(Note(p, 0.))
            synth.input.push(Note(p, 0.))
        synth.update()
        total = np.zeros(BUFFER_SIZE)
        for v in playing.values():
            v.update()
            total = total + v.output.value
        close(mon, synth.output.value, total / synth.MAX_VOICES, 'mix', '%d voices' % len(playing), atol=1e-9)
        mon.check(np.abs(synth.output.value).max() <= 1 + 1e-9, 'mix', 'output exceeds 1')
    mon.case('mix', tuple(params), len(playing))


def drums(rng, mon):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        kind = rng.choice(['hihat', 'kick', 'kick'])
        decay = rng.uniform(.01, .3)
        f, intensity, pitchDecay = rng.uniform(20, 120), rng.uniform(0, 4), rng.uniform(.05, .5)
        looped = rng.random() < .5
        signs = None
        if kind == 'hihat':
            block = HiHat(decay, loopedNoise=looped) if looped or rng.random() < .5 else HiHat(decay)
        else:
            block = Kick(f, decay, intensity, pitchDecay)
        since = None
        before = None
        rate = rng.choice([.04, .04, .15, .4])
        buffers = rng.randint(20, 120)
        if rng.random() < .08:  # long ones, several seconds
            decay, buffers = rng.uniform(1, 12), rng.randint(400, 1000)
            if kind == 'kick':
                block = Kick(f, decay, intensity, pitchDecay)
            else:
                block = HiHat(decay, loopedNoise=looped)
        shape = D(decay)
        for k in range(buffers):
            hit = k == 1 if buffers > 200 and rng.random() < .999 else rng.random() < rate
            notes = []
            if hit:
                if rng.random() < .3 and since is not None and kind == 'hihat':
                    notes.append(Note(60, 0.))
                notes.append(Note(rng.randint(1, 127), rng.choice([rng.uniform(.1, 1), 10 ** -rng.uniform(0, 12)])))
                if rng.random() < (.5 if kind == 'kick' else .15):
                    notes.append(Note(60, 0.))
            elif rng.random() < max(rate, .1) and since is not None:
                notes.append(Note(rng.randint(1, 127), 0.))
            for note in notes:
                block.input.push(note)
                shape.input.push(note)
            block.update()
            shape.update()
            out = np.array(block.output.value, dtype=float)
            if kind == 'hihat':
                # noise below the decay envelope, hit by the same notes
                env = np.array(shape.output.value, dtype=float)
                mon.check((np.abs(out) <= env + 1e-12).all(), 'hihat-envelope', 'louder than its envelope in buffer %d', k)
                heard = env > 1e-9
                if heard.sum() >= 200:
                    peak = (np.abs(out[heard]) / env[heard]).max()
                    mon.check(peak > .85, 'hihat-envelope', 'at most %.2f of its envelope in buffer %d (%s)', peak, k, notes)
                    mon.event('hi-hat buffers')
            mon.check(out.shape == (BUFFER_SIZE,) and np.isfinite(out).all(), 'drum-output', '%s %s', kind, out.shape)
            mon.check(np.abs(out).max() <= 1 + 1e-12, 'drum-range', '%s: %r', kind, np.abs(out).max())
            if hit:
                since = 0
                phases = [0., 0.]
            if since is None:
                mon.check(not out.any(), 'drum-silent', '%s sounds before any note', kind)
            elif kind == 'kick':
                t = (since * BUFFER_SIZE + np.arange(BUFFER_SIZE)) / SAMPLING_RATE
                bound = np.exp(-math.pi / decay * t)
                mon.check((np.abs(out) <= bound * (1 + 1e-9)).all(), 'kick-decay', 'louder than its decay')
                # sine of a frequency which falls from f (1 + intensity) to f, integrated or in steps of buffers
                omega = 2 * math.pi * f * (1 + intensity * np.exp(-math.pi / pitchDecay * t)) / SAMPLING_RATE
                models = [phases[0] + np.cumsum(omega), phases[1] + omega * np.arange(1, BUFFER_SIZE + 1)]
                phases = [m[-1] for m in models]
                err = min((np.abs(out - bound * np.sin(m)) / bound).max() for m in models)
                mon.check(err <= .01 + 4 * math.pi * f * (1 + intensity) / SAMPLING_RATE, 'kick-pitch', 'kick %.1f Hz, '
                          'intensity %.2f, pitch decay %.3f: %.3f besides the sine %d buffers after the note', f, intensity,
                          pitchDecay, err, since)
                mon.event('kick buffers')
                # continuous signal: bounded by the highest frequency and the decay
                slope = (2 * math.pi * f * (1 + intensity) * (1 + math.pi / pitchDecay * INTERVAL)
                         + math.pi / decay) / SAMPLING_RATE * 1.1
                seq = out if hit else np.r_[before, out]
                mon.check(np.abs(np.diff(seq)).max() <= slope, 'kick-continuous', 'jump of %r (at most %r) after %d '
                          'buffers', np.abs(np.diff(seq)).max(), slope, since)
                mon.check(not hit or abs(out[0]) < slope, 'kick-continuous', 'starts at %r', out[0])
                mon.check(not hit or np.abs(out).max() > .5 * np.abs(np.sin(
                    min(math.pi / 2, 2 * math.pi * f * INTERVAL))) * bound[-1], 'kick-sounds', 'no signal after a note')
            else:
                if hit and since == 0 and before is None and notes[-1].on:
                    mon.check(np.abs(out).max() > .05, 'hihat-sounds', 'no signal after a note')
                if since * INTERVAL > 3 * decay + INTERVAL:
                    mon.check(np.abs(out).max() < .05, 'hihat-decay', 'does not decay')
            if kind == 'hihat' and since is not None and np.count_nonzero(out) > BUFFER_SIZE // 2:
                # the same noise again and again, or new noise each time
                new = np.sign(out)
                if signs is not None:
                    both = (new != 0) & (signs != 0)
                    if both.sum() > 50:
                        same = (new == signs)[both].mean()
                        mon.check(same == 1 if looped else same < .9, 'hihat-noise', 'looped %s: %.2f of the signs '
                                  'repeat', looped, same)
                        mon.event('noise buffers compared')
                signs = new
            if since is not None:
                since += 1
                before = out[-1]
            mon.event('drum buffers')
        mon.case('drum', kind, decay, f, since, nontrivial=since is not None)


SCENARIOS = [
    Scenario(polyphony, 150, 3000, need=3000),
    Scenario(stealing, 25, 600, need=60),
    Scenario(monophony, 200, 4000, need=2000),
    Scenario(mono_repeated, 40, need=800),
    Scenario(voices, 80, need=1500),
    Scenario(poly_mixing, 30, need=200),
    Scenario(drums, 60, need=3000),
]
REQUIRED_EVENTS = {'messages': 3000, 'held notes': 3000, 'over the limit': 100, 'mono notes': 1500,
                   'voice buffers': 500, 'drum buffers': 2000}
