"""Runner shared by all checks: builds the code under test, spreads the
workload over worker processes, collects what the monitors observed, writes
the evidence file and reports the verdict.

Verdicts: 0 held, 1 violated (a VIOLATION line), 3 inconclusive or broken."""
import contextlib
import errno
import hashlib
import importlib
import io
import json
import multiprocessing
import os
import random
import shutil
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.json')


class Violation(Exception):
    """The property is broken by what was observed. ``key`` names the
    mechanism when it may be one of the known findings."""

    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.msg = msg
        self.key = key


class StepBudget(BaseException):
    """The code under test executed more lines than any terminating run."""


class Obs(object):
    """What the monitors observed."""

    def __init__(self):
        self.counters = {}
        self.nontrivial = set()
        self.samples = []
        self.notes = []
        self._case = None

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def mark(self, key=None):
        """The current case is non-trivial."""
        text = json.dumps(self._case if key is None else key, sort_keys=True,
                          default=repr)
        self.nontrivial.add(hashlib.sha1(text.encode()).hexdigest()[:16])

    def known(self, msg, key):
        """A possible known finding, which does not end the case."""
        self.notes.append((key, msg))


def need(cond, msg, key=None):
    if not cond:
        raise Violation(msg, key)


class Outcome(object):
    def __init__(self, value=None, exc=None, tb=None):
        self.value, self.exc, self.tb = value, exc, tb


def attempt(fun, *args, **kwargs):
    """Call the code under test; an exception of it is an observation."""
    try:
        return Outcome(value=fun(*args, **kwargs))
    except Violation:
        raise
    except (Exception, SystemExit) as exc:
        return Outcome(exc=exc, tb=traceback.format_exc(limit=-4))


def must(fun, *args, **kwargs):
    """Call the code under test where the property promises a result."""
    out = attempt(fun, *args, **kwargs)
    if out.exc is not None:
        raise Violation('no result: %s: %s\n%s' % (
            type(out.exc).__name__, out.exc, out.tb))
    return out.value


class Check(object):
    ID = None
    LEVEL = 'exploration'
    RULE = ''
    QUICK = 200
    THOROUGH = 4000
    WORKERS = 8
    QUICK_SECONDS = 300
    THOROUGH_SECONDS = 720
    MIN = {}
    TIMED = False  # what is observed depends on the clock
    MAX_STEPS = 100000000
    ASSUMPTIONS = []
    ANCHORS = ()

    def setup(self, env):
        pass

    # How many cases of unusual size there are
    LARGE = 0

    def large(self, rng, i):
        """The i-th case of unusual size."""
        raise NotImplementedError

    def fixed(self, tier):
        return []

    def gen(self, rng, tier):
        raise NotImplementedError

    def run(self, case, obs):
        raise NotImplementedError

    def finish(self, obs, tier):
        pass


class Env(object):
    def __init__(self, tree, scratch):
        self.tree = tree
        self.scratch = scratch
        self._n = 0

    def path(self, name):
        return os.path.join(self.scratch, name)

    def fresh(self):
        """A new empty directory."""
        return tempfile.mkdtemp(dir=self.scratch)


class LineMonitor(object):
    """Counts the lines the code under test executes (sys.monitoring)."""

    def __init__(self, tree):
        self.tree = tree
        self.lines = {}
        self.steps = 0
        self.limit = None
        mon = sys.monitoring
        self.tool = mon.PROFILER_ID
        mon.use_tool_id(self.tool, 'mtv')
        mon.register_callback(self.tool, mon.events.LINE, self._line)
        mon.set_events(self.tool, mon.events.LINE)

    def _line(self, code, line):
        name = code.co_filename
        if not name.startswith(self.tree):
            return sys.monitoring.DISABLE
        seen = self.lines.get(name)
        if seen is None:
            seen = self.lines[name] = set()
        seen.add(line)
        self.steps += 1
        if self.limit is not None and self.steps > self.limit:
            self.limit = None
            raise StepBudget()


def run_case(check, case, obs, mon, env):
    obs._case = case
    mon.steps = 0
    mon.limit = check.MAX_STEPS
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            check.run(case, obs)
    except StepBudget:
        raise Violation('no result: more than %d lines executed' %
                        check.MAX_STEPS)
    finally:
        mon.limit = None
        obs.counters['max_lines_in_a_case'] = max(
            obs.counters.get('max_lines_in_a_case', 0), mon.steps)


def _own_trouble(exc):
    """The machine, not the code, is in trouble."""
    return isinstance(exc, MemoryError) or (
        isinstance(exc, OSError) and exc.errno in (
            errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.ENFILE,
            errno.EAGAIN, errno.EDQUOT))


def _worker(check, env, tier, seed, wid, nworkers, n, seconds, known, conn):
    import warnings
    warnings.simplefilter('ignore')
    scratch = os.path.join(env.scratch, 'w%d' % wid)
    os.makedirs(scratch)
    env = Env(env.tree, scratch)
    os.chdir(env.fresh())
    obs = Obs()
    res = {'done': 0, 'violation': None, 'error': None, 'known': {}}
    sys.path.insert(0, env.tree)
    sys.dont_write_bytecode = True
    import numpy
    numpy.seterr(all='ignore')
    mon = LineMonitor(env.tree)
    start = time.time()
    case = None
    try:
        check.env = env
        check.mon = mon
        try:
            check.setup(env)
        except Exception as exc:
            if _own_trouble(exc):
                raise
            raise Violation('the code cannot be used at all: %r\n%s' % (
                exc, traceback.format_exc()))
        fixed = check.fixed(tier)
        todo = [('f', i) for i in range(len(fixed))] + \
               [('l', i) for i in range(check.LARGE if n else 0)] + \
               [('g', i) for i in range(n)]
        for j, (kind, i) in enumerate(todo):
            if j % nworkers != wid:
                continue
            if time.time() - start > seconds:
                obs.count('cases_cut_by_time', 1)
                break
            if kind == 'f':
                case = fixed[i]
            else:
                rng = random.Random('%s:%d:%d' % (check.ID, seed, i))
                if kind == 'l':
                    rng = random.Random('%s:%d:l%d' % (check.ID, seed, i))
                    case = check.large(rng, i)
                    obs.count('large_cases')
                else:
                    case = check.gen(rng, tier)
                if case is None:
                    continue
            numpy.random.seed((seed * 1000003 + i) % (2 ** 32))
            try:
                try:
                    run_case(check, case, obs, mon, env)
                except Exception as exc:
                    if isinstance(exc, Violation) or _own_trouble(exc):
                        raise
                    raise Violation('what the code did cannot be judged: %r\n'
                                    '%s' % (exc, traceback.format_exc()))
            except Violation as vio:
                if vio.key in known:
                    res['known'].setdefault(vio.key, vio.msg)
                    obs.count('known_finding:%s' % vio.key)
                else:
                    res['violation'] = (vio.msg, case)
                    break
            for key, msg in obs.notes:
                if key in known:
                    res['known'].setdefault(key, msg)
                    obs.count('known_finding:%s' % key)
                else:
                    res['violation'] = (msg, case)
            obs.notes = []
            res['done'] += 1
            if len(obs.samples) < 2:
                obs.samples.append(case)
            if res['violation']:
                break
    except Violation as vio:
        res['violation'] = (vio.msg, case)
    except BaseException:
        res['error'] = traceback.format_exc() + '\ncase: %s' % (
            json.dumps(case, default=repr)[:2000])
    res['counters'] = obs.counters
    res['nontrivial'] = obs.nontrivial
    res['samples'] = obs.samples
    res['lines'] = dict((os.path.relpath(k, env.tree), v)
                        for k, v in mon.lines.items())
    conn.send(res)
    conn.close()


def _short(value, limit=1500):
    text = json.dumps(value, default=repr)
    return value if len(text) <= limit else text[:limit] + '...'


def main(argv):
    import argparse
    parser = argparse.ArgumentParser()
    parser.add_argument('id')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    parser.add_argument('--seed', type=int,
                        default=int(os.environ.get('VERIF_SEED', '1')))
    parser.add_argument('--replay')
    parser.add_argument('-n', type=int)
    args = parser.parse_args(argv)
    started = time.time()
    scratch = tempfile.mkdtemp(prefix='mtv-')
    try:
        return _main(args, scratch, started)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(args, scratch, started):
    from mtv.build import build
    sys.dont_write_bytecode = True
    check = importlib.import_module('mtv.checks.' + args.id.lower()).CHECK
    known = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for item in json.load(f)['findings']:
                if item['property'] == check.ID:
                    known[item['key']] = item['what']
    tree = build(scratch)
    env = Env(tree, scratch)
    if args.replay:
        with open(args.replay) as f:
            saved = json.load(f)
        if 'case' in saved:
            check.fixed = lambda tier: [saved['case']]
            args.n, check.WORKERS, check.MIN = 0, 1, {}
        else:
            args.seed, args.tier = saved['seed'], saved['tier']
            args.replay = None
    quick = args.tier != 'thorough'
    n = args.n if args.n is not None else (
        check.QUICK if quick else check.THOROUGH)
    seconds = check.QUICK_SECONDS if quick else check.THOROUGH_SECONDS
    nworkers = check.WORKERS
    procs = []
    for wid in range(nworkers):
        recv, send = multiprocessing.Pipe(False)
        proc = multiprocessing.Process(target=_worker, args=(
            check, env, args.tier, args.seed, wid, nworkers, n, seconds,
            known, send))
        proc.start()
        send.close()
        procs.append((proc, recv))
    results, errors = [], []
    deadline = time.time() + seconds + 60
    for proc, recv in procs:
        res = None
        if recv.poll(max(1, deadline - time.time())):
            try:
                res = recv.recv()
            except EOFError:
                pass
        if res is None:
            errors.append('a worker gave no answer')
            proc.kill()
        else:
            results.append(res)
            if res['error']:
                errors.append(res['error'])
        proc.join()
    obs = Obs()
    lines = {}
    violations, found = [], {}
    done = 0
    for res in results:
        done += res['done']
        for key, val in res['counters'].items():
            if key.startswith('max_'):
                obs.counters[key] = max(obs.counters.get(key, 0), val)
            else:
                obs.count(key, val)
        obs.nontrivial |= res['nontrivial']
        obs.samples.extend(res['samples'])
        found.update(res['known'])
        for name, seen in res['lines'].items():
            lines.setdefault(name, set()).update(seen)
        if res['violation']:
            violations.append(res['violation'])
    check.finish(obs, args.tier)
    short = [k for k, v in sorted(check.MIN.items())
             if obs.counters.get(k, 0) < v]
    if not args.replay and not violations and not errors and \
            len(obs.nontrivial) < 2:
        short.append('distinct non-trivial cases')
    coverage = {
        'evaluations': done,
        'distinct_nontrivial': len(obs.nontrivial),
        'rule': check.RULE,
        'samples': [_short(s) for s in obs.samples[:4]],
        'observed': obs.counters,
        'lines_reached': dict(
            (k, len(v)) for k, v in sorted(lines.items())
            if not check.ANCHORS or k in check.ANCHORS),
    }
    if not args.replay:
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, check.ID + '.json'), 'w') as f:
            json.dump({
                'property': check.ID,
                'tier': 'quick' if quick else 'thorough',
                'seed': args.seed,
                'level': check.LEVEL,
                'coverage': coverage,
                'assumptions': list(check.ASSUMPTIONS),
                'wall_s': round(time.time() - started, 2),
                'violations': len(violations),
            }, f, indent=1, default=repr)
            f.write('\n')
    print('%s %s seed=%d: %d evaluations, %d distinct non-trivial, %.1f s' % (
        check.ID, args.tier, args.seed, done, len(obs.nontrivial),
        time.time() - started))
    for key in sorted(obs.counters):
        print('  %s = %d' % (key, obs.counters[key]))
    for key in sorted(found):
        print('KNOWN-FINDING: property=%s %s' % (check.ID, known[key]))
    if violations:
        folder = os.path.join(EVIDENCE, 'replay')
        os.makedirs(folder, exist_ok=True)
        for k, (msg, case) in enumerate(violations[:3]):
            path = os.path.join(folder, '%s-%d.json' % (check.ID, k))
            if args.replay:
                path = args.replay
            else:
                with open(path, 'w') as f:
                    json.dump({'property': check.ID, 'seed': args.seed,
                               'message': msg, 'case': case}, f, indent=1)
            print(msg)
            print('VIOLATION property=%s replay=%s' % (check.ID, path))
        return 1
    if errors:
        for err in errors:
            print('ERROR ' + err)
        return 3
    if short and not obs.counters.get('cases_cut_by_time') and \
            args.n is None and not args.replay and not check.TIMED:
        # The same seed reaches all of it where the property holds
        folder = os.path.join(EVIDENCE, 'replay')
        os.makedirs(folder, exist_ok=True)
        path = os.path.join(folder, '%s-observed.json' % check.ID)
        with open(path, 'w') as f:
            json.dump({'property': check.ID, 'seed': args.seed,
                       'tier': args.tier, 'missing': short, 'observed': obs.counters}, f,
                      indent=1)
        print('too little observed of: ' + ', '.join(short))
        print('VIOLATION property=%s replay=%s' % (check.ID, path))
        return 1
    if short:
        print('INCONCLUSIVE: too little observed of: ' + ', '.join(short))
        return 3
    return 0
