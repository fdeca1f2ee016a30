"""C19: audio survives WAV files and PCM conversions."""
import os
import shutil
import struct
import tempfile
import wave

import numpy as np

from klang.audio.wavfile import convert_samples_to_float, convert_samples_to_int, load_wave, write_wave
from klang.config import SAMPLING_RATE
from vlib.core import Scenario, close, raises

PROPERTY = 'C19'
RULE = ('random audio of all layouts and types is written and read by klang and by the independent wave module; '
        'conversions of random PCM samples are compared with exact integer arithmetic; distinct = distinct '
        '(shape, layout, type, content kind, rate); non-trivial = more than one distinct sample value')


class Folder:

    def __enter__(self):
        self.name = tempfile.mkdtemp(prefix='klangwav')
        return os.path.join(self.name, 'a.wav')

    def __exit__(self, *exc):
        shutil.rmtree(self.name, ignore_errors=True)


def raw_write(path, rate, frames, width=2):
    """Independent writer.  frames: list of tuples of ints."""
    with wave.open(path, 'wb') as f:
        f.setnchannels(len(frames[0]))
        f.setsampwidth(width)
        f.setframerate(rate)
        if width == 2:
            f.writeframes(b''.join(struct.pack('<h', s) for frame in frames for s in frame))
        else:
            f.writeframes(bytes(width * sum(map(len, frames))))


def raw_read(path):
    """Independent reader: (rate, width, list of frames)."""
    with wave.open(path, 'rb') as f:
        n, width = f.getnchannels(), f.getsampwidth()
        raw = f.readframes(f.getnframes())
        fmt = {2: 'h', 4: 'i'}[width]
        flat = struct.unpack('<%d%s' % (len(raw) // width, fmt), raw)
        return f.getframerate(), width, [flat[i:i + n] for i in range(0, len(flat), n)]


def pick_rate(rng):
    return rng.choice([SAMPLING_RATE, SAMPLING_RATE, 8000, 48000, 96000, 22050, rng.randrange(1000, 200000)])


def pick_audio(rng):
    """Audio (1-D or frames x channels) and a description."""
    nrng = np.random.RandomState(rng.randrange(2 ** 31))
    n = rng.choice([2, 3, 10, 256, 1000, rng.randrange(2, 3000)])
    channels = rng.choice([None, None, 1, 2, 2, 3, 5])
    if channels and n <= channels:
        n += channels
    shape = (n,) if channels is None else (n, channels)
    kind = rng.choice(['noise', 'noise', 'loud', 'quiet', 'tiny', 'impulse', 'constant', 'silent', 'extremes', 'one-sided',
                       'unequal channels'])
    x = nrng.uniform(-1, 1, shape)
    if kind == 'loud':
        x *= 10 ** rng.uniform(0, 5)
    elif kind == 'quiet':
        x *= 10 ** -rng.uniform(0, 5)
    elif kind == 'tiny':
        x *= 1e-30
    elif kind == 'impulse':
        x *= 0
        x[rng.randrange(n)] = rng.choice([1., -1., .3, -7.])
    elif kind == 'constant':
        x = np.full(shape, rng.choice([1., -1., .25, -.1]))
    elif kind == 'silent':
        x *= 0
    elif kind == 'extremes':
        x = nrng.choice([-1., 1., 0., -.5], shape)
    elif kind == 'one-sided':
        x = -np.abs(x)
    elif kind == 'unequal channels' and channels:
        x = x * nrng.uniform(0, .1, channels)
    dtype = rng.choice(['float64', 'float64', 'float32', 'int16', 'int32', 'list'])
    if dtype == 'float32':
        x = x.astype(np.float32)
    elif dtype in ('int16', 'int32'):
        peak = np.abs(x).max() or 1
        x = np.round(x / peak * rng.choice([32767, 1000, 5])).astype(dtype)
    layout = rng.choice(['as is', 'fortran', 'reversed', 'strided', 'transposed'])
    if layout == 'fortran':
        x = np.asfortranarray(x)
    elif layout == 'reversed':
        x = x[::-1]
    elif layout == 'strided':
        x = np.repeat(x, 2, axis=0)[::2]
    elif layout == 'transposed':
        x = np.ascontiguousarray(x.T).T
    x.setflags(write=False)
    return (x.tolist() if dtype == 'list' else x), (shape, kind, dtype, layout)


def writing(rng, mon):
    """Written files hold the normalised audio, whoever reads them."""
    audio, key = pick_audio(rng)
    rate = pick_rate(rng)
    ref = np.array(audio, dtype=float)
    if ref.ndim == 1:
        ref = ref[:, None]
    peak = np.abs(ref).max()
    norm = ref / peak if peak > 0 else ref
    width = rng.choice([2, 2, 2, 4])
    full = 2 ** (8 * width - 1) - 1
    with Folder() as path:
        if width == 4:
            write_wave(audio, path, rate, dtype=np.int32)
        elif rate == SAMPLING_RATE and rng.random() < .7:
            write_wave(audio, path)
        else:
            write_wave(audio, path, rate)
        gotRate, gotWidth, frames = raw_read(path)
        mon.check(gotRate == rate and gotWidth == width, 'wav-header', '%s: rate %s, width %s', key, gotRate, gotWidth)
        # less than one step away from the exact value
        # (some float32 rounding for 32 bit)
        tol = 1.001 + (full * 1e-6 if width == 4 or key[2] == 'float32' else 0)
        close(mon, frames, norm * full, 'wav-samples', 'written %s' % (key,), rtol=0, atol=tol)
        top = max(abs(s) for frame in frames for s in frame)
        mon.check(top >= full - tol if peak > 0 else top == 0, 'wav-scale', '%s: peak %s', key, top)
        mon.check(all((s > 0) <= (r > 0) and (s < 0) <= (r < 0)
                      for frame, row in zip(frames, norm.tolist()) for s, r in zip(frame, row)),
                  'wav-sign', '%s: signs differ', key)
        if width == 2:
            gotRate, y = load_wave(path)
            mon.check(gotRate == rate, 'wav-header', '%s: loaded rate %s', key, gotRate)
            close(mon, y, np.array(frames) / 32768, 'wav-loading', 'loaded %s' % (key,), rtol=0, atol=0)
            if peak > 0:
                write_wave(y, path, rate)   # generations do not drift
                _, _, again = raw_read(path)
                close(mon, again, frames, 'wav-generations', '%s' % (key,), rtol=0, atol=1)
    mon.case(key, rate, width, nontrivial=len(np.unique(ref)) > 1)
    mon.event('files written')


def loading(rng, mon):
    """Any 16 bit file is loaded exactly; other widths are refused."""
    rate = pick_rate(rng)
    channels = rng.choice([1, 1, 2, 2, 3, 8])
    n = rng.choice([1, 2, 3, 255, 256, 257, rng.randrange(1, 2000)])
    pool = rng.choice([[-32768, 32767, 0, 1, -1], list(range(-32768, 32768, 7)), [rng.randrange(-32768, 32768)]])
    frames = [tuple(rng.choice(pool) for _ in range(channels)) for _ in range(n)]
    with Folder() as path:
        raw_write(path, rate, frames)
        gotRate, y = load_wave(path)
        mon.check(gotRate == rate, 'wav-header', 'rate %s instead of %s', gotRate, rate)
        close(mon, y, [[s / 32768 for s in frame] for frame in frames], 'wav-loading',
              '%d frames %d channels' % (n, channels), rtol=0, atol=0)
        mon.check(np.issubdtype(y.dtype, np.floating), 'wav-loading', 'type %s', y.dtype)
        width = rng.choice([1, 3, 4])
        raw_write(path, rate, frames, width)
        err = raises(load_wave, path)
        mon.check(isinstance(err, ValueError), 'wav-width', '%d byte samples: %r', width, err)
    mon.case(rate, channels, n, len(pool), nontrivial=len(set(frames)) > 1)
    mon.event('files loaded')


def pcm(rng, mon):
    """Conversions keep level, sign and order and leave their arguments alone."""
    dtype = rng.choice([np.int8, np.int16, np.int16, np.int32])
    info = np.iinfo(dtype)
    nrng = np.random.RandomState(rng.randrange(2 ** 31))
    shape = rng.choice([(), (1,), (50,), (20, 2), (2, 20)])
    x = nrng.randint(info.min, info.max + 1, shape, dtype=dtype)
    x = np.asarray(x)
    if x.size and rng.random() < .5:
        x.flat[0] = rng.choice([info.min, info.max, 0, 1, -1])
    keep = x.copy()
    y = convert_samples_to_float(x)
    scale = -float(info.min)
    close(mon, y, keep.astype(float) / scale, 'pcm-to-float', '%s %s' % (dtype.__name__, shape), rtol=0, atol=0)
    mon.check((np.asarray(x) == keep).all(), 'pcm-argument', 'argument modified')
    z = np.asarray(convert_samples_to_int(y, dtype))
    mon.check(z.dtype == dtype and z.shape == x.shape, 'pcm-type', '%s %s instead of %s %s', z.dtype, z.shape, dtype, shape)
    mon.check((np.abs(z.astype(float) - keep.astype(float)) <= 2).all(), 'pcm-round-trip', '%s: %s became %s', dtype, keep, z)
    f = np.sort(nrng.uniform(-1, 1, 60))
    f[[0, -1]] = -1, 1
    if dtype is np.int16 and rng.random() < .5:
        i, default = convert_samples_to_int(f), True
    else:
        i, default = convert_samples_to_int(f, dtype), False
    mon.check(i.dtype == dtype, 'pcm-type', '%s (default %s): %s', dtype, default, i.dtype)
    close(mon, i, f * info.max, 'pcm-to-int', str(dtype), rtol=0, atol=1)
    mon.check((np.diff(i.astype(float)) >= 0).all(), 'pcm-order', 'not monotone')
    mon.check(i[0] == -info.max and i[-1] == info.max, 'pcm-full-scale', '%s: %s to %s', dtype, i[0], i[-1])
    mon.check((convert_samples_to_int(-f, dtype) == -i).all(), 'pcm-symmetry', 'positive and negative differ')
    close(mon, convert_samples_to_int(f.tolist(), dtype), i, 'pcm-lists', 'list of floats', rtol=0, atol=0)
    ints = rng.sample(range(-1000, 1000), rng.randint(1, 9))
    back = convert_samples_to_float(ints)
    mon.check(np.shape(back) == (len(ints),) and np.asarray(back).dtype.kind == 'f' and np.abs(back).max() < 1
              and (np.argsort(back) == np.argsort(ints)).all(), 'pcm-lists', 'list %s became %s', ints, back)
    mon.check(isinstance(raises(convert_samples_to_float, y), ValueError), 'pcm-refusal', 'float samples accepted')
    mon.check(isinstance(raises(convert_samples_to_int, x), ValueError), 'pcm-refusal', 'int samples accepted')
    mon.case(dtype.__name__, shape, x.tobytes(), nontrivial=x.size > 1)
    mon.event('conversions')


def long_files(rng, mon):
    """Minutes of audio: more frames than fit in 16, 20, 24 bits' worth of bytes."""
    n = rng.choice([65535, 65536, 65537, rng.randrange(70000, 400000), rng.randrange(1000000, 3000000)])
    channels = rng.choice([1, 2, 2, 4])
    rs = np.random.RandomState(rng.getrandbits(32))
    frames = rs.randint(-32768, 32768, (n, channels)).astype('<i2')
    frames[rng.randrange(n), rng.randrange(channels)] = 32767   # keeps the scale
    frames[frames == -32768] = -32767
    rate = pick_rate(rng)
    with Folder() as path:
        with wave.open(path, 'wb') as w:
            w.setnchannels(channels)
            w.setsampwidth(2)
            w.setframerate(rate)
            w.writeframes(frames.tobytes())
        gotRate, y = load_wave(path)
        mon.check(gotRate == rate and y.shape == (n, channels), 'wav-loading', '%d x %d frames at %d became %s at %s',
                  n, channels, rate, y.shape, gotRate)
        mon.check(np.array_equal(y, frames / 32768.), 'wav-loading', '%d x %d frames: other samples', n, channels)
        write_wave(y, path, rate)
        with wave.open(path, 'rb') as r:
            mon.check(r.getnframes() == n and r.getnchannels() == channels and r.getframerate() == rate, 'wav-header',
                      '%d x %d frames at %d: wrote %s', n, channels, rate, r.getparams())
            again = np.frombuffer(r.readframes(-1), dtype='<i2').reshape(n, channels)
        mon.check(np.abs(again.astype(int) - frames).max() <= 1, 'wav-samples', '%d x %d frames: other samples', n,
                  channels)
    mon.case(n, channels, rate)
    mon.event('long files')


SCENARIOS = [
    Scenario(writing, 800, 20000),
    Scenario(loading, 400, 8000),
    Scenario(pcm, 1500, 40000),
    Scenario(long_files, 10, 120),
]
REQUIRED_EVENTS = {'files written': 200, 'files loaded': 100, 'conversions': 300}
