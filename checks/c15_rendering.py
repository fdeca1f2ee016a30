"""C15: the engine renders every buffer of the network once, into the right channel and file."""
import contextlib
import io
import logging
import math
import os
import sys
import time
import types
import wave

import numpy as np
import pyaudio

from klang.audio.klanggeber import Adc, ChannelMismatch, Dac
from klang.block import Block
from klang.clock import ClockMixin
from klang.config import BUFFER_SIZE, SAMPLING_RATE
import klang.klang as main
from klang.progress_bar import ProgressBar
from vlib.core import Scenario, close, raises

PROPERTY = 'C15'
RULE = ('random networks of sources (unique samples, mono to multi channel) rendered offline, through a stand-in for '
        'the sound card and in the non-audio loop, with random durations, fade-outs, channel numbers, interrupts and '
        'mismatches; distinct = distinct (network, duration, mode); non-trivial = at least two buffers rendered')
INTERVAL = BUFFER_SIZE / SAMPLING_RATE
SCRATCH = os.environ.get('VERIF_SCRATCH', '/tmp')


class Source(Block):
    """Unique samples: the value encodes buffer, channel and position."""

    def __init__(self, serial, nChannels, breakAt=None):
        super().__init__(nOutputs=1)
        self.serial = serial
        self.shape = (BUFFER_SIZE,) if nChannels == 0 else (nChannels, BUFFER_SIZE)
        self.breakAt = breakAt
        self.count = 0
        self.clocks = []
        self.output.set_value(np.zeros(self.shape))

    def expected(self, k):
        if (self.serial // 3 + k) % 4 == 0 and self.serial % 3:     # pauses
            return np.zeros(self.shape)
        rng = np.random.RandomState((self.serial * 7919 + k) % 2 ** 31)
        return rng.uniform(-1, 1, self.shape) * (1., 1., 2.5, .01)[self.serial % 4]

    def update(self):
        self.clocks.append(ClockMixin.clock())
        value = self.expected(self.count)
        if self.breakAt is not None and self.count >= self.breakAt:
            value = value.ravel()[0]      # scalars are no audio
        self.output.set_value(value)
        self.count += 1


class Errors(logging.Handler):

    def __init__(self):
        super().__init__()
        self.count = 0

    def emit(self, record):
        self.count += record.levelno >= logging.ERROR


def capture_errors():
    logger = logging.getLogger('KlangGeber')
    handler = Errors()
    logger.handlers = [handler]
    logger.propagate = False
    logging.getLogger('Klang').handlers = [logging.NullHandler()]
    logging.getLogger('Klang').propagate = False
    return handler


def network(rng, breakAt=None):
    nChannels = rng.choice([1, 1, 2, 2, 3, 5])
    dac = Dac(nChannels)
    sources = []
    layout = []          # (source index or None, channel)
    for i, input_ in enumerate(dac.inputs):
        if rng.random() < .25 and (sources or i + 1 < nChannels):
            layout.append((None, 0))
            continue
        width = rng.choice([0, 0, 1, 2, 3]) if rng.random() < .5 and breakAt is None else 0
        s = Source(rng.randrange(10 ** 6), width, breakAt if not sources else None)
        s.output.connect(input_)
        sources.append(s)
        for c in range(max(1, width)):
            layout.append((len(sources) - 1, c))
    return dac, sources, layout[:nChannels]


def expected_buffer(sources, layout, k):
    cols = []
    for i, c in layout:
        if i is None:
            cols.append(np.zeros(BUFFER_SIZE))
        else:
            cols.append(np.atleast_2d(sources[i].expected(k))[c])
    return np.stack(cols, axis=1)


def fade(duration, fadeout, n):
    t = np.arange(n) / SAMPLING_RATE
    if fadeout <= 0:
        return np.ones(n)
    return np.clip((duration - t) / fadeout, 0., 1.)


def count_range(x):
    """Allowed integers for floor(x) up to rounding."""
    return {math.floor(x - 1e-6), math.floor(x + 1e-6)}


def read_wave(mon, path, nChannels, text):
    mon.check(os.path.exists(path), 'file', '%s: no file written', text)
    with wave.open(path) as fh:
        mon.check((fh.getframerate(), fh.getnchannels(), fh.getsampwidth()) == (SAMPLING_RATE, nChannels, 2),
                  'file-format', '%s: %s', text, fh.getparams())
        data = np.frombuffer(fh.readframes(fh.getnframes()), dtype='<i2').reshape(-1, nChannels)
    os.unlink(path)
    return data


def check_file(mon, path, want, text):
    data = read_wave(mon, path, want.shape[1], text)
    mon.check(data.shape == want.shape, 'file-length', '%s: %s instead of %s', text, data.shape, want.shape)
    full = np.abs(want).max()
    diff = np.abs(data - want / (full or 1.) * 32767.)
    mon.check(diff.max() <= 1.01, 'file-content', '%s: differs by %.1f steps at %s', text, diff.max(),
              np.unravel_index(diff.argmax(), diff.shape))
    mon.event('files')


def fake_time(sleep, clock=None):
    """Stand-in for the time module."""
    fake = types.SimpleNamespace(**{k: v for k, v in vars(time).items() if not k.startswith('__')})
    fake.sleep = sleep
    if clock:
        fake.perf_counter = fake.monotonic = fake.time = clock
    return fake


@contextlib.contextmanager
def stand_ins(*pairs):
    """Replace objects by others wherever klang has imported them to."""
    done = []
    for name, module in list(sys.modules.items()):
        if name == 'klang' or name.startswith('klang.'):
            for key, value in list(vars(module).items()):
                for real, fake in pairs:
                    if value is real:
                        done.append((module, key, value))
                        setattr(module, key, fake)
    try:
        yield
    finally:
        for module, key, value in done:
            setattr(module, key, value)


def clock_work(sleep, clock=None):
    """Time passes as told in all of klang."""
    fake = fake_time(sleep, clock)
    names = ['sleep'] + (['perf_counter', 'monotonic', 'time'] if clock else [])
    return stand_ins((time, fake), *[(getattr(time, name), getattr(fake, name)) for name in names])


@contextlib.contextmanager
def audio_only(mon, card=None):
    """The loop for networks without audio must not run in here: it never ends.
    There is nothing to wait for, apart from the stream of the sound card."""
    def sleep(seconds):
        if card is None or 'start' not in card.calls:
            mon.violate('not-rendered', 'a network with audio runs in the loop for networks without audio')

    with contextlib.ExitStack() as stack:
        stack.enter_context(clock_work(sleep))
        if card is not None:
            real = pyaudio.PyAudio
            stack.enter_context(stand_ins((real, card)))
            stack.callback(setattr, pyaudio, 'PyAudio', real)
            pyaudio.PyAudio = card
        yield


def pick_duration(rng):
    n = rng.choice([1, 1, 2, 3, rng.randint(1, 60), rng.randint(1, 60), rng.randint(60, 400)])
    return n * INTERVAL if rng.random() < .5 else (n + rng.uniform(.001, .999)) * INTERVAL


def offline(rng, mon):
    capture_errors()
    ProgressBar.stream = io.StringIO()
    dac, sources, layout = network(rng)
    duration = pick_duration(rng)
    fadeout = rng.choice([0., 0., rng.uniform(.1, 3) * INTERVAL, rng.random() * duration, duration, 2 * duration])
    path = os.path.join(SCRATCH, 'c15-%d.wav' % rng.getrandbits(40)) if rng.random() < .9 else ''
    start = rng.choice([[dac], list(sources), [dac] + sources])
    text = 'duration %.4f buffers, fadeout %.4f, layout %s' % (duration / INTERVAL, fadeout / INTERVAL, layout)
    kwargs = {'fadeout': fadeout} if fadeout else {}
    with audio_only(mon):
        main.run_klang(*start, duration=duration, offline=True, filepath=path, **kwargs)
    n = sources[0].count if sources else None
    mon.check(n in count_range(duration / INTERVAL), 'length', '%s: %s buffers', text, n)
    for s in sources:
        mon.check(s.count == n, 'once', '%s: %d updates in %d buffers', text, s.count, n)
        close(mon, s.clocks, np.arange(n) * INTERVAL, 'clock', text, atol=1e-7)
    want = np.concatenate([expected_buffer(sources, layout, k) for k in range(n)])
    want = want * fade(duration, fadeout, len(want))[:, None]
    if path:
        check_file(mon, path, want, text)
    mon.event('buffers', n)
    mon.case('offline', text, nontrivial=n > 1)
    mon.sample('offline ' + text)


class Card:
    """Stand-in for PyAudio: drives the stream callback, keeps what it got."""

    def __init__(self, rng, channels, maxIn, maxOut, interruptAt=None, limit=500):
        self.rng, self.channels = rng, channels
        self.maxIn, self.maxOut = maxIn, maxOut
        self.interruptAt = interruptAt
        self.limit = limit
        self.data, self.calls, self.sent = [], [], []
        self.last = None
        self.opened = None

    def __call__(self):
        self.calls.append('init')
        return self

    def get_default_input_device_info(self):
        return {'maxInputChannels': self.maxIn}

    def get_default_output_device_info(self):
        return {'maxOutputChannels': self.maxOut}

    def open(self, *args, **kwargs):
        self.opened = dict(input=False, output=False, frames_per_buffer=1024, stream_callback=None)  # as PyAudio
        self.opened.update(zip(('rate', 'channels', 'format', 'input', 'output', 'input_device_index',
                                'output_device_index', 'frames_per_buffer'), args))
        self.opened.update(kwargs)
        self.calls.append('open')
        return self

    def start_stream(self):
        self.calls.append('start')

    def is_active(self):
        """Called by the main loop: the card plays some buffers meanwhile."""
        for _ in range(self.rng.randint(1, 7)):
            if self.last not in (None, pyaudio.paContinue):
                return False
            if self.interruptAt is not None and len(self.data) >= self.interruptAt:
                raise KeyboardInterrupt
            if len(self.data) >= self.limit:
                raise RuntimeError('engine does not stop')
            inData = None
            if self.channels:
                block = self.rng_samples(len(self.data))
                inData = block.tobytes()
            status = self.rng.choice([0, 0, 0, 2, 4])
            data, self.last = self.opened['stream_callback'](
                inData, BUFFER_SIZE, {'current_time': self.rng.random()}, status)
            self.data.append(np.array(np.frombuffer(np.ascontiguousarray(data).tobytes(), dtype=np.float32)))
        return True

    def rng_samples(self, k):
        state = np.random.RandomState(k + 11)
        gain = state.choice([0., 1., 1., 1e-4], self.channels)
        return (gain * state.uniform(-1, 1, (BUFFER_SIZE, self.channels))).astype(np.float32)

    def stop_stream(self):
        self.calls.append('stop')

    def close(self):
        self.calls.append('close')

    def terminate(self):
        self.calls.append('terminate')


class Recorder(Block):
    """Keeps what the audio input delivers."""

    def __init__(self, n):
        super().__init__(nInputs=n)
        self.seen = []

    def update(self):
        self.seen.append([np.array(i.value, dtype=float) for i in self.inputs])


def card(rng, mon):
    errors = capture_errors()
    breakAt = rng.randint(0, 20) if rng.random() < .2 else None
    dac, sources, layout = network(rng, breakAt)
    duration = pick_duration(rng)
    fadeout = rng.choice([0., 0., rng.random() * duration, 2 * duration])
    interrupt = rng.randint(1, 30) if rng.random() < .3 else None
    if rng.random() < .2:
        duration = math.inf
        fadeout = 0.
        interrupt = rng.randint(1, 60)
    nIn = rng.choice([0, 0, 1, 2, 3, 4])
    blocks = [dac]
    recorder = adc = None
    if nIn:
        adc = Adc(nIn)
        recorder = Recorder(nIn)
        for o, i in zip(adc.outputs, recorder.inputs):
            o.connect(i)
        mon.check(all(np.shape(o.value) == (BUFFER_SIZE,) and not np.any(o.value) for o in adc.outputs), 'input', 'audio input not silent at first')
        blocks.append(adc)
    path = os.path.join(SCRATCH, 'c15-%d.wav' % rng.getrandbits(40)) if rng.random() < .7 else ''
    pa = Card(rng, nIn, rng.choice([nIn, 8]), rng.choice([dac.nChannels, 8]), interrupt)
    text = 'duration %.4f buffers fadeout %.4f in %d layout %s interrupt %s break %s' % (
        duration / INTERVAL, fadeout / INTERVAL, nIn, layout, interrupt, breakAt)
    kwargs = {} if duration == math.inf and rng.random() < .5 else {'duration': duration}
    with audio_only(mon, pa):
        if not (path and breakAt == 0):
            main.run_klang(*blocks, fadeout=fadeout, filepath=path, **kwargs)
        else:
            path = ''
            main.run_klang(*blocks, fadeout=fadeout, **kwargs)
    mon.check(pa.calls == ['init', 'open', 'start', 'stop', 'close', 'terminate'], 'shutdown', '%s: %s', text, pa.calls)
    o = pa.opened
    mon.check((o['rate'], o['frames_per_buffer'], o['channels'], o['format']) == (
        SAMPLING_RATE, BUFFER_SIZE, dac.nChannels, pyaudio.paFloat32), 'stream', '%s: %s', text, o)
    n = len(pa.data)
    limit = {math.ceil(duration / INTERVAL - 1e-6), math.ceil(duration / INTERVAL + 1e-6)} if duration < math.inf else ()
    if duration in (INTERVAL, 2 * INTERVAL):
        limit = {round(duration / INTERVAL)}    # no rounding involved
    played = n
    if breakAt is not None and (interrupt is None or breakAt < interrupt) and (not limit or breakAt < max(limit)) \
            and n == breakAt + 1 and pa.last == pyaudio.paAbort:
        played = breakAt
        mon.check(not pa.data[-1].any() and pa.data[-1].size == BUFFER_SIZE * dac.nChannels, 'abort', '%s: noise', text)
        mon.check(errors.count == 1, 'abort', '%s: %d errors logged', text, errors.count)
        mon.event('aborts')
    else:
        mon.check(breakAt is None or n <= breakAt, 'abort', '%s: %d buffers played', text, n)
        mon.check(n == interrupt if interrupt is not None and n not in limit else n in limit, 'length', '%s: %d buffers',
                  text, n)
        mon.check(errors.count == 0, 'errors', '%s: errors logged', text)
    want = []
    for k in range(played):
        buf = expected_buffer(sources, layout, k)
        env = fade(duration, fadeout, (k + 1) * BUFFER_SIZE)[-BUFFER_SIZE:, None] if fadeout else 1.
        want.append(buf * env)
        close(mon, pa.data[k].reshape(BUFFER_SIZE, -1), want[-1], 'output', '%s buffer %d' % (text, k), rtol=1e-5,
              atol=1e-6)
    for s in sources:
        mon.check(s.count == n, 'once', '%s: %d updates in %d buffers', text, s.count, n)
        close(mon, s.clocks, np.arange(n) * INTERVAL, 'clock', text, atol=1e-7)
    if recorder:
        for k in range(n):
            close(mon, recorder.seen[k], pa.rng_samples(k).T, 'input', '%s buffer %d' % (text, k), atol=1e-7)
        mon.event('input buffers', n)
    if path:
        check_file(mon, path, np.concatenate(want), text)
    mon.event('buffers', n)
    mon.case('card', text, nontrivial=n > 1)
    mon.sample('card ' + text)


def refusals(rng, mon):
    """Wrong set-ups are refused before anything is played."""
    capture_errors()
    mon.check(isinstance(raises(main.run_klang), ValueError), 'no-blocks', 'running nothing accepted')
    nIn, nOut = rng.randint(0, 3), rng.randint(1, 4)
    dac = Dac(nOut)
    adc = Adc(nIn)
    source = Source(1, 0)
    source.output.connect(dac.input)
    maxIn, maxOut = rng.randint(0, 3), rng.randint(0, 4)
    pa = Card(rng, nIn, maxIn, maxOut)
    with audio_only(mon, pa):
        err = raises(main.run_klang, dac, *([adc] if nIn else []), duration=INTERVAL)
    if nIn > maxIn or nOut > maxOut:
        mon.check(isinstance(err, ValueError) and pa.opened is None, 'channels', '%d/%d inputs %d/%d outputs: %r', nIn,
                  maxIn, nOut, maxOut, err)
    else:
        mon.check(err is None, 'channels', '%d/%d inputs %d/%d outputs: %r', nIn, maxIn, nOut, maxOut, err)
    mon.case('refusal', nIn, nOut, maxIn, maxOut)


def collect(rng, mon):
    """Routing of all layouts to the channels of the audio output."""
    n = rng.randint(1, 6) if rng.random() < .9 else rng.randint(7, 40)
    dac = Dac(n)
    channels = []
    for input_ in dac.inputs:
        kind = rng.choice(['silent', 'mono', 'multi', 'scalar'] if n < 7 else ['silent', 'mono', 'mono', 'multi'])
        if kind == 'silent':
            channels.append(np.zeros(BUFFER_SIZE))
        elif kind == 'mono':
            x = np.random.uniform(-1, 1, BUFFER_SIZE)
            input_.set_value(x)
            channels.append(x)
        elif kind == 'multi':
            x = np.random.uniform(-1, 1, (rng.randint(1, 3), BUFFER_SIZE))
            input_.set_value(x)
            channels.extend(x)
        else:
            input_.set_value(rng.choice([0, 1., np.float64(.5)]))
    if len(channels) < n:
        err = raises(dac.collect_samples)
        mon.check(isinstance(err, ChannelMismatch), 'mismatch', '%d of %d channels: %r', len(channels), n, err)
    else:
        out = dac.collect_samples()
        mon.check(out.dtype == np.float32 and out.flags['C_CONTIGUOUS'], 'packed', '%s', out.dtype)
        close(mon, out, np.stack(channels[:n], axis=1), 'routing', '%d channels for %d' % (len(channels), n), atol=1e-6)
    dac.mute_inputs()
    close(mon, dac.collect_samples(), np.zeros((BUFFER_SIZE, n)), 'muted')
    mon.case('collect', n, len(channels))


class Stop(Exception):
    pass


class Ticker(Block):

    def __init__(self, limit, now):
        super().__init__(nOutputs=1)
        self.limit, self.now = limit, now
        self.times = []

    def update(self):
        self.times.append((ClockMixin.clock(), self.now[0]))
        if len(self.times) == self.limit:
            raise Stop


def no_audio(rng, mon):
    """The non-audio loop runs one cycle per buffer interval of real time."""
    capture_errors()
    now = [rng.uniform(0, 1000)]
    work = rng.choice([0., .3 * INTERVAL, 2.5 * INTERVAL])

    def perf_counter():
        now[0] += rng.uniform(1e-7, 1e-5)
        return now[0]

    def sleep(seconds):
        mon.check(seconds >= 0, 'sleep', 'negative sleep %r', seconds)
        now[0] += max(0, seconds) + rng.uniform(1e-7, 1e-4)

    limit = rng.randint(2, 40)
    ticker = Ticker(limit, now)

    class Worker(Block):
        def __init__(self):
            super().__init__(nInputs=1)

        def update(self):
            now[0] += rng.uniform(0, 2 * work)
            ends.append(now[0])

    ends = []
    worker = Worker()
    ticker.output.connect(worker.input)
    with clock_work(sleep, perf_counter):
        err = raises(main.run_klang, rng.choice([ticker, worker]))
    mon.check(isinstance(err, Stop), 'loop', '%r', err)
    for i, (clock, real_) in enumerate(ticker.times):
        mon.check(abs(clock / INTERVAL - round(clock / INTERVAL)) < 1e-6, 'cycle', 'clock %r off the grid', clock)
        mon.check(-1e-9 <= real_ - clock < INTERVAL, 'late', 'cycle %d of %r runs at %r', i, clock, real_)
        if i:
            gap = (clock - ticker.times[i - 1][0]) / INTERVAL
            mon.check(gap > .5, 'cycle', 'two cycles at %r', clock)
            idle = (clock - ends[i - 1]) / INTERVAL
            mon.check(idle < 1.05, 'cycle', 'idle for %r buffers', idle)
            if work < .5 * INTERVAL and work == 0:
                mon.check(gap < 1.5, 'cycle', 'cycle skipped: %r buffers', gap)
        mon.event('loop cycles')
    mon.case('loop', limit, work)


def progress(rng, mon):
    """The progress bar iterates like range and ends its line."""
    n = rng.choice([0, 1, 2, rng.randint(3, 300)])
    ProgressBar.stream = stream = io.StringIO()
    got = list(ProgressBar.range(n, prefix=rng.choice(['', 'x'])))
    mon.check(got == list(range(n)), 'progress', '%s', got)
    mon.check(stream.getvalue().endswith('\n') == (n > 0) and stream.getvalue().count('\n') == (n > 0), 'progress',
              'n=%d: line ends', n)
    mon.case('progress', n)


SCENARIOS = [
    Scenario(offline, 150, need=1000),
    Scenario(card, 200, need=4000),
    Scenario(refusals, 60, need=120),
    Scenario(collect, 150, need=300),
    Scenario(no_audio, 30, need=500),
    Scenario(progress, 40, need=80),
]
REQUIRED_EVENTS = {'buffers': 1800, 'files': 120, 'aborts': 5, 'input buffers': 300, 'loop cycles': 200}
