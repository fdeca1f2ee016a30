"""Entry point: python -m vlib.main PROPERTY [...]"""
import argparse
import collections
import importlib
import json
import os
import pickle
import random
import signal
import sys
import time
import traceback

from vlib import boot
from vlib.core import Monitor, ViolationError

HOME = os.environ.get('VERIF_HOME', '/verif')
STEP_LIMIT = 3000000
CASE_ALARM = 45
CPU_LIMIT = 90  # user time of a single case, normally below two seconds


# What an oracle raises when klang hands out something of the wrong form
RESULT_ERRORS = (ValueError, KeyError, IndexError, TypeError, AssertionError, ArithmeticError,
                 StopIteration, AttributeError)


class CaseTimeout(BaseException):
    pass


class StepLimit(BaseException):
    pass


def load_known(prop):
    known = {}
    path = os.path.join(HOME, 'known_findings.jsonl')
    if os.path.exists(path):
        with open(path) as fh:
            for line in fh:
                line = line.strip()
                if not line or line.startswith('#') or line.startswith('fixed:'):
                    continue
                entry = json.loads(line)
                if entry['property'] == prop:
                    known[entry['mechanism']] = entry['what']
    return known


def case_seed(seed, scenario, index):
    return '%s/%s/%s' % (seed, scenario, index)


def raised_in_klang(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(boot.KLANG):
            return True
        tb = tb.tb_next
    return False


def run_case(module, scenario, seed, index, mon, step_limit=None):
    """Returns None or a (kind, mechanism, message, traceback) tuple."""
    rng = random.Random(case_seed(seed, scenario.name, index))
    boot.reset_globals(rng)
    steps = [0]

    def tracer(frame, event, arg):
        if not frame.f_code.co_filename.startswith(boot.KLANG):
            return None
        steps[0] += 1
        if steps[0] > step_limit:
            raise StepLimit()
        return tracer

    def on_alarm(signum, frame):
        raise CaseTimeout()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(CASE_ALARM if step_limit is None else 400)
    try:
        if step_limit is not None:
            sys.settrace(tracer)
        try:
            scenario.func(rng, mon)
        finally:
            sys.settrace(None)
            signal.alarm(0)
    except ViolationError as err:
        return ('violation', err.mechanism, err.message, traceback.format_exc())
    except StepLimit:
        return ('violation', 'no-bounded-progress',
                'more than %d steps inside klang for one small case' % step_limit,
                traceback.format_exc())
    except CaseTimeout:
        return ('timeout', 'timeout', 'case exceeded %d s' % CASE_ALARM, traceback.format_exc())
    except RecursionError as err:
        return ('violation', 'unexpected-RecursionError', str(err), traceback.format_exc()[-3000:])
    except Exception as err:
        text = traceback.format_exc()
        if raised_in_klang(err.__traceback__):
            return ('violation', 'unexpected-' + type(err).__name__, str(err), text)
        if isinstance(err, RESULT_ERRORS) and not (
                isinstance(err, AttributeError) and 'module ' in str(err)):
            # The oracle could not even take the result apart.  Harness trouble
            # of other kinds (system errors, missing names) gives no verdict.
            return ('violation', 'ill-formed-result-' + type(err).__name__, str(err), text)
        return ('harness', type(err).__name__, str(err), text)
    return None


def run_shard(module, jobs, seed, known, stop_after, progress=None):
    mon = Monitor(known)
    failures = []
    stats = collections.Counter()
    perScenario = collections.Counter()
    for scenario, index in jobs:
        if perScenario[scenario.name] >= 3:
            continue
        before = mon.evaluations
        if progress:
            # Native code which spins can not be interrupted from Python: the
            # kernel ends the worker (SIGVTALRM) and the parent knows the case.
            with open(progress, 'w') as fh:
                json.dump([scenario.name, index], fh)
            signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
        res = run_case(module, scenario, seed, index, mon)
        stats['case:' + scenario.name] += 1
        stats['eval:' + scenario.name] += mon.evaluations - before
        if res is not None and res[0] == 'violation' and mon.is_known(res[1]):
            mon.knownSeen.setdefault(res[1], res[2])
            continue
        if res is not None:
            failures.append((scenario.name, index) + res)
            perScenario[scenario.name] += 1
            if len(failures) >= stop_after:
                break
    return {
        'evaluations': mon.evaluations, 'events': mon.events, 'distinct': mon.distinct,
        'samples': mon.samples, 'known': mon.knownSeen, 'failures': failures, 'stats': stats,
    }


def run_parallel(module, jobs, seed, known, workers, stop_after):
    if workers <= 1:
        return [run_shard(module, jobs, seed, known, stop_after)]
    pids = []
    for w in range(workers):
        path = os.path.join(os.environ['VERIF_SCRATCH'], 'shard%d' % w)
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
                res = run_shard(module, jobs[w::workers], seed, known, stop_after, path + '.now')
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                with open(path, 'wb') as fh:
                    pickle.dump(res, fh)
                rc = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(rc)
        pids.append((pid, path))
    results = []
    for pid, path in pids:
        _, status = os.waitpid(pid, 0)
        if status == 0:
            with open(path, 'rb') as fh:
                results.append(pickle.load(fh))
        else:
            res = {'died': status}
            if os.path.exists(path + '.now'):
                with open(path + '.now') as fh:
                    res['case'] = json.load(fh)
            results.append(res)
    return results


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--scenario')
    ap.add_argument('--case', type=int)
    ap.add_argument('--scale', type=float, default=float(os.environ.get('VERIF_SCALE', '1')))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    args = ap.parse_args()
    t0 = time.time()
    module = None
    for name in sorted(os.listdir(os.path.join(HOME, 'checks'))):
        if name.lower().startswith(args.property.lower() + '_') and name.endswith('.py'):
            path = 'checks.' + name[:-3]
            break
    else:
        print('no check for', args.property, file=sys.stderr)
        return 2
    pure = False
    with open(os.path.join(HOME, 'checks', name)) as fh:
        pure = '\nPURE = True' in fh.read()
    boot.install(pure=pure)
    # the harness needs klang to import; when it does not, that is no verdict
    module = importlib.import_module(path)
    prop = module.PROPERTY
    known = load_known(prop)
    scenarios = {s.name: s for s in module.SCENARIOS}

    if args.replay:
        with open(args.replay) as fh:
            rep = json.load(fh)
        args.seed, args.scenario, args.case = rep['seed'], rep['scenario'], rep['index']
    if args.case is not None:
        mon = Monitor({})
        signal.setitimer(signal.ITIMER_VIRTUAL, 2 * CPU_LIMIT)
        limit = STEP_LIMIT if args.replay and rep.get('mechanism') == 'no-bounded-progress' else None
        res = run_case(module, scenarios[args.scenario], args.seed, args.case, mon, limit)
        print('events:', dict(mon.events))
        if res is None:
            print('held')
            return 0
        print(res[3])
        print(res[:3])
        return 1 if res[0] == 'violation' else 2

    jobs = []
    thorough = args.tier == 'thorough'
    for s in module.SCENARIOS:
        if args.scenario and s.name != args.scenario:
            continue
        n = s.thorough if thorough else s.quick
        jobs.extend((s, i) for i in range(max(1, int(n * args.scale))))
    # interleave the scenarios over the shards deterministically
    order = random.Random('order')
    order.shuffle(jobs)
    workers = getattr(module, 'WORKERS', 6)
    if thorough:
        workers = max(workers, 8) if workers > 1 else workers
    if hasattr(module, 'prepare'):
        module.prepare(args.tier)
    results = run_parallel(module, jobs, args.seed, known, workers, 12)

    events = collections.Counter()
    stats = collections.Counter()
    distinct = set()
    samples, failures = [], []
    knownSeen = collections.OrderedDict()
    evaluations = 0
    harness = []
    for res in results:
        if 'died' in res:
            if os.WIFSIGNALED(res['died']) and os.WTERMSIG(res['died']) == signal.SIGVTALRM and 'case' in res:
                failures.append((res['case'][0], res['case'][1], 'violation', 'no-progress',
                                 'spins for more than %d s of CPU time' % CPU_LIMIT, ''))
            elif getattr(module, 'CRASH_IS_VIOLATION', False) and os.WIFSIGNALED(res['died']):
                failures.append(('worker', -1, 'violation', 'native-crash',
                                 'worker killed by signal %d' % os.WTERMSIG(res['died']), ''))
            else:
                harness.append('worker died, status %r' % res['died'])
            continue
        events.update(res['events'])
        stats.update(res['stats'])
        distinct |= res['distinct']
        samples.extend(res['samples'])
        evaluations += res['evaluations']
        for k, v in res['known'].items():
            knownSeen.setdefault(k, v)
        failures.extend(res['failures'])

    violations = []
    for f in failures:
        sname, index, kind, mech, msg, tb = f
        if kind == 'timeout':
            # decide on logical steps, not on wall-clock time
            again = run_case(module, scenarios[sname], args.seed, index, Monitor({}), STEP_LIMIT)
            if again is not None and again[0] == 'violation':
                violations.append((sname, index) + again)
            elif again is None:
                stats['slow:' + sname] += 1  # it holds, the machine was busy
            else:
                harness.append('%s[%d]: timeout, not reproduced in logical steps' % (sname, index))
        elif kind == 'harness':
            harness.append('%s[%d]: %s: %s\n%s' % (sname, index, mech, msg, tb))
        else:
            violations.append(f)

    byMech = collections.OrderedDict()
    for v in sorted(violations, key=lambda v: (v[0], v[1])):
        byMech.setdefault((v[0], v[3]), []).append(v)

    evdir = os.path.join(HOME, 'evidence')
    repdir = os.path.join(evdir, 'replays')
    os.makedirs(repdir, exist_ok=True)
    evidence = {
        'property': prop, 'tier': 'thorough' if thorough else 'quick', 'seed': args.seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(distinct),
            'rule': module.RULE,
            'samples': samples[:12] or ['(none)'],
            'cases_run': sum(v for k, v in stats.items() if k.startswith('case:')),
            'cases_per_scenario': {k[5:]: v for k, v in sorted(stats.items()) if k.startswith('case:')},
            'oracle_evaluations_per_scenario':
                {k[5:]: v for k, v in sorted(stats.items()) if k.startswith('eval:')},
            'observed_events': dict(sorted(events.items())),
            'known_findings_seen': dict(knownSeen),
        },
        'assumptions': getattr(module, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    with open(os.path.join(evdir, prop + '.json'), 'w') as fh:
        json.dump(evidence, fh, indent=1, default=str)

    for mech in known:
        if mech in knownSeen:
            print('KNOWN-FINDING: property=%s %s [%s]' % (prop, known[mech], mech))
    if byMech:
        for (sname, mech), vs in byMech.items():
            v = vs[0]
            rp = os.path.join(repdir, '%s-%s-%d-%s.json' % (prop, v[0], v[1], mech[:40].replace('/', '_')))
            with open(rp, 'w') as fh:
                json.dump({'property': prop, 'seed': args.seed, 'scenario': v[0], 'index': v[1],
                           'mechanism': v[3], 'message': v[4], 'traceback': v[5],
                           'how': '/verif/run.sh %s --replay %s' % (prop, rp)}, fh, indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, rp))
            print('  scenario=%s mechanism=%s cases=%d: %s' % (v[0], mech, len(vs), v[4][:400]))
        return 1
    if harness:
        for h in harness[:5]:
            print('INCONCLUSIVE:', h, file=sys.stderr)
        return 2
    if not args.scenario:
        for s in module.SCENARIOS:
            if stats['eval:' + s.name] < s.need:
                print('INCONCLUSIVE: scenario %s evaluated its oracle %d times (< %d)'
                      % (s.name, stats['eval:' + s.name], s.need), file=sys.stderr)
                return 2
        for kind, n in getattr(module, 'REQUIRED_EVENTS', {}).items():
            if events[kind] < n:
                print('INCONCLUSIVE: event %s seen %d times (< %d)' % (kind, events[kind], n),
                      file=sys.stderr)
                return 2
    print('HELD property=%s tier=%s seed=%d cases=%d evaluations=%d distinct=%d wall=%.1fs'
          % (prop, args.tier, args.seed, evidence['coverage']['cases_run'], evaluations,
             len(distinct), time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
