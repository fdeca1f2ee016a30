"""C07: memory safety of the native code, under ASan + UBSan."""
import json
import os
import re
import subprocess

from vlib.core import Scenario

PROPERTY = 'C07'
WORKERS = 6
RULE = ('hostile random call sequences into both C extensions, rebuilt from the working tree with '
        'AddressSanitizer + UndefinedBehaviorSanitizer and driven from CPython in a subprocess per '
        'case; refcount, heap-growth and value monitors inside; non-trivial = native calls were made '
        'and some of them were rejected with a Python exception; distinct = distinct call mix')
ASSUMPTIONS = ['CPython 3.12 + numpy 2 hosts the sanitized build (the C code is the same; PyPy cannot '
               'be instrumented)', 'red-zone detection limits of ASan']
PY = '/opt/veriftools/pyvenv/bin/python3'
SCRATCH = os.environ['VERIF_SCRATCH']
EXT = os.path.join(SCRATCH, 'san')
WORKER = os.path.join(os.environ['VERIF_HOME'], 'vlib', 'san_worker.py')


def clean_env():
    keep = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    keep['PYTHONDONTWRITEBYTECODE'] = '1'
    return keep


def prepare(tier):
    env = clean_env()
    out = subprocess.check_output(
        [PY, '-c', 'import numpy, sysconfig; print(numpy.get_include()); print(sysconfig.get_paths()["include"])'],
        env=env, universal_newlines=True).split()
    os.makedirs(EXT, exist_ok=True)
    for mod in ('_envelope', '_filters'):
        subprocess.check_call(
            ['gcc', '-g', '-O1', '-w', '-fPIC', '-shared', '-fno-omit-frame-pointer',
             '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-strict-overflow',
             '-I' + out[0], '-I' + out[1], '/repo/klang/audio/%s.c' % mod, '-lm',
             '-o', os.path.join(EXT, mod + '.so')])


def preload():
    libs = []
    for lib in ('libasan.so', 'libubsan.so'):
        libs.append(subprocess.check_output(['gcc', '-print-file-name=' + lib],
                                            universal_newlines=True).strip())
    return ' '.join(libs)


def run(rng, mon, mode, nOps):
    seed = str(rng.getrandbits(48))
    progress = os.path.join(SCRATCH, 'progress-' + seed)
    env = clean_env()
    env['LD_PRELOAD'] = preload()
    env['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99'
    if mode == 'memory':
        env['ASAN_OPTIONS'] += ':max_allocation_size_mb=16'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=98'
    env['PYTHONMALLOC'] = 'malloc'
    proc = subprocess.run([PY, WORKER, EXT, seed, str(nOps), mode, progress], env=env,
                          stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True,
                          errors='replace', timeout=300)
    last = ''
    if os.path.exists(progress):
        with open(progress, errors='replace') as fh:
            lines = fh.read().splitlines()
        last = ' | '.join(lines[-3:])
        os.remove(progress)
    mon.evaluations += 1
    asan = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', proc.stderr)
    ubsan = re.search(r'([\w./-]+\.[ch]):\d+:\d+: runtime error: (.*)', proc.stderr)
    fail = re.search(r'^FAIL (.*)$', proc.stdout, re.M)
    if asan:
        mon.violate('asan-' + asan.group(1), 'after [%s]: %s', last, proc.stderr[-3000:])
    if ubsan:
        mon.violate('ubsan', '%s: %s after [%s]', os.path.basename(ubsan.group(1)), ubsan.group(2), last)
    if fail:
        mech, msg = json.loads(fail.group(1))
        mon.violate(mech, msg)
    if proc.returncode < 0:
        mon.violate('native-crash', 'signal %d after [%s]', -proc.returncode, last)
    done = re.search(r'^DONE (.*)$', proc.stdout, re.M)
    if not done or proc.returncode:
        if 'Traceback' not in proc.stderr:
            mon.violate('process-exit', 'interpreter exited with %d after [%s]: %s',
                        proc.returncode, last, proc.stderr[-500:])
        raise RuntimeError('sanitizer worker failed: %s %s' % (proc.returncode, proc.stderr[-2000:]))
    stats = json.loads(done.group(1))
    mon.evaluations += stats['refchecks'] + stats['leakchecks'] + stats['valuechecks']
    mon.event('native calls', stats['ops'])
    mon.event('heap growth checks', stats['leakchecks'])
    mon.event('reference count checks', stats['refchecks'])
    for k, v in stats['errors'].items():
        mon.event('raised ' + k, v)
    for k, v in stats['kinds'].items():
        mon.event('call ' + k, v)
    mon.case(seed, sorted(stats['kinds'].items()), nontrivial=stats['ops'] > 0)
    mon.sample('%s seed=%s ops=%d errors=%s' % (mode, seed, stats['ops'], stats['errors']))


def hostile_calls(rng, mon):
    run(rng, mon, 'ops', 400)


def leaks(rng, mon):
    run(rng, mon, 'leaks', 0)


def no_memory(rng, mon):
    """Failing allocations end in Python exceptions, without leaks."""
    run(rng, mon, 'memory', 0)


SCENARIOS = [
    Scenario(hostile_calls, 24, 400),
    Scenario(leaks, 2, 4),
    Scenario(no_memory, 2, 6),
]
REQUIRED_EVENTS = {'native calls': 5000, 'heap growth checks': 10, 'reference count checks': 500}
