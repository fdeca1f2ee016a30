"""C10: sample and audio file playback."""
import io
import wave

import numpy as np
import samplerate

from klang.audio.effects import Gain
from klang.audio.klanggeber import Dac
from klang.audio.sampling import (
    CRUDE_RESAMPLER_MODES, SAMPLERATE_CONVERTER_TYPES, AudioFile, Sample, SampleVoice,
    extend_with_silence, sum_to_mono,
)
from klang.config import BUFFER_SIZE, SAMPLING_RATE
from vlib.core import Scenario, close, raises

PROPERTY = 'C10'
RULE = ('random recordings with unique samples per channel, random trims, loops, seeks, pauses, speeds and read '
        'sizes; delivered samples compared with a list model (directly or through a second resampler fed by the '
        'model); distinct = distinct (recording, settings, history); non-trivial = the end or the loop point '
        'was reached')
MODES = sorted(SAMPLERATE_CONVERTER_TYPES)
CRUDE = sorted(CRUDE_RESAMPLER_MODES)


def recording(rng, channels, length):
    """Every sample of every channel is unique."""
    if channels == 0:
        return np.arange(1, length + 1) / 4096.
    data = np.arange(1, length * channels + 1).reshape(channels, length).T / 4096.
    return np.ascontiguousarray(data) if rng.random() < .5 else data


class Model:
    """The order in which samples are played."""

    def __init__(self, data, start=0, stop=None, loop=False):
        self.data, self.start, self.stop, self.loop = data, start, stop or len(data), loop
        self.pos = start

    def take(self, n):
        idx = []
        for _ in range(n):
            if self.pos >= self.stop:
                if not self.loop:
                    break
                self.pos = self.start
            idx.append(self.pos)
            self.pos += 1
        if self.loop and self.pos >= self.stop:
            self.pos = self.start
        return self.data[np.array(idx, dtype=int)]

    def trim(self, start, stop):
        self.start, self.stop = start, stop
        self.pos = min(max(self.pos, start), stop)


def pick_trim(rng, length, least=1):
    if rng.random() < .4:
        return 0, None
    start = rng.randrange(0, length - least)
    return start, rng.randint(start + least, length)


def source_order(rng, mon):
    """Sample.callback(): in order, exactly once, seamless loops."""
    length = rng.choice([rng.randint(5, 40), rng.randint(5, 600), BUFFER_SIZE, 2 * BUFFER_SIZE])
    channels = rng.choice([0, 0, 1, 2, 3])
    data = recording(rng, channels, length)
    saved = data.copy()
    loop = rng.random() < .6
    start, stop = pick_trim(rng, length)
    sample = Sample(SAMPLING_RATE, data, start=start, stop=stop, loop=loop)
    model = Model(saved, start, stop, loop)
    log = ['len %d ch %d [%s, %s) loop %s' % (length, channels, start, stop, loop)]
    border = False
    for _ in range(rng.randint(3, 20)):
        r = rng.random()
        if r < .75:
            n = rng.choice([1, 2, 3, BUFFER_SIZE, rng.randint(1, 2 * length), model.stop - model.pos or 1])
            got = sample.callback(n) if n != BUFFER_SIZE else sample.callback()
            want = model.take(n)
            log.append('read %d' % n)
            close(mon, got, want, 'order', ', '.join(log))
            border = border or len(want) < n or model.pos <= n
            mon.event('samples delivered', len(want))
        elif r < .82:
            sample.rewind()
            model.pos = model.start
            log.append('rewind')
        elif r < .92:
            s, e = pick_trim(rng, length)
            if s == 0 and rng.random() < .4:
                if e:
                    sample.trim(stop=e)
                else:
                    sample.trim()
            elif not e and rng.random() < .5:
                sample.trim(s)
            else:
                sample.trim(s, e)
            model.trim(s, e or length)
            log.append('trim %s %s' % (s, e))
        else:
            sample.loop = model.loop = not model.loop
            log.append('loop %s' % model.loop)
        if not model.loop:
            mon.check(bool(sample.playing) == (model.pos < model.stop), 'playing', '%s: playing %s at %d of %d',
                      log, sample.playing, model.pos, model.stop)
        mon.check(sample.length == length, 'length', 'length %s', sample.length)
    mon.check(np.array_equal(saved, data), 'data-intact', 'the recording was changed')
    for bad in [(-1, None), (0, length + 1), (length, None), (3, 2), (0, 0), (length // 2, 0)]:
        before = sample.callback(0).shape, sample.start, sample.stop
        err = raises(sample.trim, *bad)
        mon.check(isinstance(err, (AssertionError, ValueError)), 'trim-refused', 'trim%s of %d: %r', bad, length, err)
        mon.check((sample.callback(0).shape, sample.start, sample.stop) == before, 'trim-refused', 'trim%s applied', bad)
    mon.case('source', tuple(log), nontrivial=border)
    mon.sample(', '.join(log))


def resampled(rng, mon):
    """Same samples as a resampler which is fed with the recording in order."""
    mode = rng.choice(MODES)
    channels = rng.choice([0, 2, 3])
    length = rng.randint(20, 1500)
    data = recording(rng, channels, length)
    loop = rng.random() < .4
    start, stop = pick_trim(rng, length, 4)
    while ((stop or length) - start) % BUFFER_SIZE < 4:
        # libsamplerate reads beyond a last piece of a single frame
        start, stop = pick_trim(rng, length, 4)
    rate = rng.choice([SAMPLING_RATE, SAMPLING_RATE, 22050, 48000, 8000])
    speed = rng.choice([1., 1., .5, 2., .75, rng.uniform(.3, 3), rng.choice([.05, 12., 24., 40.]) if 'sinc' not in mode else .6])
    sample = Sample(rate, data, start=start, stop=stop, loop=loop, playbackSpeed=speed, mode=mode)
    model = Model(data, start, stop, loop)
    ratio = SAMPLING_RATE / rate / speed
    ref = samplerate.CallbackResampler(lambda: model.take(BUFFER_SIZE), ratio, mode, max(channels, 1))
    log = ['%s len %d ch %d rate %d speed %.3f [%s, %s) loop %s' % (
        mode, length, channels, rate, speed, start, stop, loop)]
    ended = False
    for _ in range(rng.randint(3, 14)):
        r = rng.random()
        if r < .8:
            n = rng.choice([BUFFER_SIZE, BUFFER_SIZE, rng.randint(1, 700)])
            log.append('read %d' % n)
            got, want = sample.read(n), ref.read(n)
            close(mon, got, want, 'resampled', ', '.join(log), rtol=1e-4, atol=1e-4)
            ended = ended or len(want) < n
            mon.event('samples delivered', len(want))
        elif r < .9:
            sample.rewind()
            model.pos = model.start
            ref.reset()
            log.append('rewind')
        elif loop or 'sinc' not in mode:  # libsamplerate may abort at the end of its input otherwise
            speed = rng.choice([rng.uniform(.4, 2.5), rng.uniform(.4, 2.5), 20. if 'sinc' not in mode else 1.])
            sample.set_playback_speed(speed)
            ref.set_starting_ratio(SAMPLING_RATE / rate / speed)
            log.append('speed %.3f' % speed)
    mon.case('resampled', tuple(log), nontrivial=ended or loop)


def crude(rng, mon):
    """The low fidelity resamplers: exact at speed one, bounded jitter otherwise."""
    mode = rng.choice(CRUDE)
    channels = rng.choice([0, 1, 2, 3])
    length = rng.randint(300, 3000)
    data = recording(rng, channels, length)
    exact = rng.random() < .5
    loop = exact and rng.random() < .5
    start, stop = pick_trim(rng, length)
    speed = 1. if exact else rng.choice([.5, 2., rng.uniform(.2, 4.), rng.uniform(4, 40)])
    sample = Sample(SAMPLING_RATE, data, start=start, stop=stop, loop=loop, playbackSpeed=speed, mode=mode)
    model = Model(data, start, stop, loop)
    text = '%s len %d ch %d speed %.3f [%s, %s) loop %s' % (mode, length, channels, speed, start, stop, loop)
    parts = []
    for i in range(60):
        n = BUFFER_SIZE if not exact else rng.choice([BUFFER_SIZE, rng.randint(1, 500)])
        got = np.array(sample.read(n))
        if exact:
            close(mon, got, model.take(n), 'crude-exact', '%s read %d' % (text, i))
        mon.check(got.ndim == data.ndim and (data.ndim == 1 or got.shape[1] == data.shape[1]), 'crude-channels',
                  '%s: shape %s', text, got.shape)
        mon.check(len(got) <= n, 'crude-length', '%s: %d > %d', text, len(got), n)
        parts.append(got)
        mon.event('samples delivered', len(got))
        if len(got) < n:
            mon.check(not loop, 'crude-loop', '%s stopped', text)
            break
        if loop and i > 6:
            break
    if not exact:
        y = np.concatenate(parts)
        region = model.take(length)
        region = region.reshape(len(region), max(channels, 1))
        y = y.reshape(len(y), max(channels, 1))
        want = len(region) / speed
        mon.check(abs(len(y) - want) <= 2 + want / int(BUFFER_SIZE * speed) + 1 / speed, 'crude-length',
                  '%s: %d frames instead of %.1f', text, len(y), want)
        if len(y):
            step = np.diff(y, axis=0) * 4096
            mon.check(bool(np.all(step >= -1e-6)) and bool(np.all(step <= np.ceil(speed) * (1.1 if speed <= 4 else 2.) + 1.1)),
                      'crude-order', '%s: steps %s .. %s', text, step.min() if step.size else 0,
                      step.max() if step.size else 0)
            close(mon, y[0], region[0], 'crude-order', '%s: first sample' % text)
            mon.check(bool(np.all(np.abs(y[-1] - region[-1]) * 4096 <= 2 * speed + 2)), 'crude-order',
                      '%s: last sample %s of %s', text, y[-1], region[-1])
    mon.case('crude', text)


def wav(data, rate):
    """16 bit WAV file by the standard library."""
    ints = np.round(data * 32768).astype('<i2')
    f = io.BytesIO()
    with wave.open(f, 'wb') as w:
        w.setnchannels(1 if data.ndim == 1 else data.shape[1])
        w.setsampwidth(2)
        w.setframerate(rate)
        w.writeframes(ints.tobytes())
    f.seek(0)
    return f


def audio_files(rng, mon):
    """Block playback: pause, stop, rewind; everything is played, then silence."""
    channels = rng.choice([1, 2, 2, 3])
    length = rng.choice([rng.randint(10, 1500), BUFFER_SIZE, 3 * BUFFER_SIZE])
    extra = rng.choice([0, 0, 0, 0, 65536, 200000, 1000000])   # long files, of which the end is played
    length += extra
    rs = np.random.RandomState(rng.getrandbits(32))
    ints = rs.randint(-30000, 30000, (length, channels))
    data = ints / 32768.
    rate = rng.choice([SAMPLING_RATE, SAMPLING_RATE, 22050, 48000, 11025])
    mode = rng.choice(MODES + CRUDE)
    speed = rng.choice([1., 1., .5, .31, 2.])
    mono = rng.random() < .3
    loop = rng.random() < .3
    start, stop = pick_trim(rng, length - extra)
    if extra:
        start, stop = start + extra - rng.choice([0, 5, 600]), stop and stop + extra
        mon.event('long files')
    if mode in MODES and ((stop or length) - start) % BUFFER_SIZE in (1, 2, 3):
        start -= min(start, 4)      # as above: libsamplerate and a last piece of a single frame
        if ((stop or length) - start) % BUFFER_SIZE in (1, 2, 3):
            mode = rng.choice(CRUDE)
    block = AudioFile(wav(data, rate), mono=mono, start=start, stop=stop, loop=loop, playbackSpeed=speed, mode=mode)
    if mono and channels > 1:
        data, channels = data.mean(axis=1).reshape(-1, 1), 1
    # what the container delivers is the subject of the other scenarios
    twin = Sample(rate, data, start=start, stop=stop, loop=loop, playbackSpeed=speed, mode=mode)
    text = 'ch %d len %d rate %d %s speed %s mono %s loop %s [%s, %s)' % (
        channels, length, rate, mode, speed, mono, loop, start, stop)
    close(mon, block.duration, length / rate, 'duration', text)
    shape = (channels, BUFFER_SIZE)
    playing = False
    exhausted = False
    log = []
    for _ in range(rng.randint(5, 40)):
        r = rng.random()
        if .14 < r < (.35 if not playing else .16):
            block.play()
            playing = True
            log.append('play')
        elif r < .07:
            block.pause()
            playing = False
            log.append('pause')
        elif r < .10:
            block.stop()
            twin.rewind()
            playing, exhausted = False, False
            log.append('stop')
        elif r < .14:
            block.rewind()
            twin.rewind()
            exhausted = False
            log.append('rewind')
        block.update()
        y = np.asarray(block.output.value, dtype=float)
        log.append('.')
        where = '%s after %s' % (text, ' '.join(log))
        mon.check(y.shape == shape or (channels == 1 and y.shape == (BUFFER_SIZE,)), 'file-shape',
                  '%s: output shape %s instead of %s', where, y.shape, shape)
        y = y.reshape(shape)
        if playing and not exhausted:
            want = np.asarray(twin.read(BUFFER_SIZE), dtype=float)
            want = want.reshape(len(want), channels)
            full = np.zeros((BUFFER_SIZE, channels))
            full[:len(want)] = want
            close(mon, y.T, full, 'file-samples', where, rtol=1e-4, atol=1e-5)
            mon.event('file buffers')
            if len(want) < BUFFER_SIZE:
                exhausted = True
                playing = False
                mon.event('files played to the end')
        else:
            mon.check(not y.any(), 'file-silence', '%s: not silent', where)
        if exhausted:
            playing = False
        if not exhausted:
            mon.check(bool(block.playing) == playing, 'file-playing', '%s: playing %s', where, block.playing)
        else:
            # at the end: at most one more buffer until the flag drops
            block.update()
            mon.check(not np.any(block.output.value), 'file-silence', '%s: not silent', where)
            mon.check(not block.playing, 'file-playing', '%s: still playing', where)
    if not exhausted or not twin.loop:
        mon.check(abs(block.playingPosition - twin.currentIndex / rate) < 1e-9, 'file-position', '%s after %s: at %s instead of %s', text,
                  ' '.join(log), block.playingPosition * rate, twin.currentIndex)
    mon.check(isinstance(str(block), str), 'str')
    mon.case('file', text, tuple(log), nontrivial=exhausted or loop)


def through_effects(rng, mon):
    """Audio files of any channel count work in a network."""
    channels = rng.choice([1, 2, 3])
    length = rng.randint(300, 900)
    data = np.random.RandomState(rng.getrandbits(32)).randint(-30000, 30000, (length, channels)) / 32768.
    src = AudioFile(wav(data, SAMPLING_RATE), mode='very_crude')
    gain = Gain(.5)
    dac = Dac(nChannels=channels)
    src | gain | dac
    src.play()
    for i in range(3):
        for block in (src, gain):
            block.update()
        frames = dac.collect_samples()
        want = np.zeros((BUFFER_SIZE, channels))
        part = data[i * BUFFER_SIZE: (i + 1) * BUFFER_SIZE]
        want[:len(part)] = .5 * part
        close(mon, frames, want, 'network', '%d channels, buffer %d' % (channels, i), atol=1e-6)
    mon.case('network', channels, length)


def helpers(rng, mon):
    rs = np.random.RandomState(rng.getrandbits(32))
    n = rng.randint(1, BUFFER_SIZE)
    shape = rng.choice([(n,), (1, n), (2, n), (5, n)])
    x = rs.uniform(-1, 1, shape)
    y = extend_with_silence(x)
    mon.check(y.shape == shape[:-1] + (BUFFER_SIZE,), 'extend', '%s -> %s', shape, y.shape)
    close(mon, y[..., :n], x, 'extend')
    mon.check(not np.any(y[..., n:]), 'extend', 'not silent')
    data = rs.uniform(-1, 1, (n, rng.randint(1, 4)))
    close(mon, sum_to_mono(data), data.mean(axis=1).reshape(-1, 1), 'mono')
    err = raises(SampleVoice, SAMPLING_RATE, data)
    mon.check_known(err is None, 'sample-voice-constructor', 'SampleVoice(rate, data): %r', err)
    mon.case('helpers', shape, n)


SCENARIOS = [
    Scenario(source_order, 500, need=2000),
    Scenario(resampled, 150, need=300),
    Scenario(crude, 120, need=300),
    Scenario(audio_files, 200, need=1000),
    Scenario(through_effects, 20, need=40),
    Scenario(helpers, 30, need=60),
]
REQUIRED_EVENTS = {'samples delivered': 100000, 'files played to the end': 20, 'file buffers': 200}
