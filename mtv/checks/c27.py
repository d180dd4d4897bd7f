"""A run that fails leaves the earlier result and its inputs alone."""
import os
import signal
import subprocess
import sys
import time

from mtv import flow, gen, ref
from mtv.core import Check, attempt, need

BAD = ['row', 'missing catalogue', 'missing model', 'broken xml',
       'invalid xml', 'crossing polygon', 'unknown pre', 'unknown post',
       'missing section', 'missing key', 'missing config', 'broken config',
       'result directory', 'missing processing section',
       'missing processing key', 'unreadable parameter', 'broken table']
# nothing can have been stored yet
EARLY = BAD[:5] + ['unknown pre', 'unknown post', 'missing config',
                   'broken config']
OLD = b'the earlier result\n' * 200


class Injected(Exception):
    pass


class C27(Check):
    ID = 'C27'
    RULE = ('command-line runs with a defect in one of the inputs or in the '
            'configuration, with an exception injected at a random executed '
            'line, with a random file refused by the operating system, and '
            'processes killed at a random time; non-trivial when a run was '
            'made to fail')
    QUICK = 3600
    THOROUGH = 27000
    TIMED = True
    MIN = {'bad_inputs': 200, 'crashes_before_the_end': 150,
           'files_refused': 50, 'kills': 8}
    ANCHORS = ('main.py', 'mtoolkit/console.py', 'mtoolkit/workflow.py',
               'mtoolkit/jobs.py', 'nrml/writer.py')
    ASSUMPTIONS = ['a crash while the result document itself is written may '
                   'leave a part of the new document']

    def setup(self, env):
        import numpy
        self.np = numpy
        self.refuse = None
        self.opened = []
        sys.addaudithook(self._audit)

    def _audit(self, event, args):
        if event != 'open' or self.refuse is None:
            return
        folder, number = self.refuse
        if isinstance(args[0], str) and os.path.abspath(
                args[0]).startswith(folder):
            self.opened.append(os.path.abspath(args[0]))
            if len(self.opened) == number:
                raise OSError(5, 'Input/output error', args[0])

    def fixed(self, tier):
        import random
        out = []
        for k in range(16 if tier != 'thorough' else 200):
            c = self.gen(random.Random('kill%d' % k), tier)
            c['fault'] = 'kill'
            out.append(c)
        return out

    def gen(self, rng, tier):
        c = flow.scenario(rng, sigma=False, n=rng.choice([5, 20, 60]))
        c['fault'] = rng.choice(['bad', 'bad', 'line', 'line', 'file'])
        c['bad'] = rng.choice(BAD)
        c['at'] = rng.random()
        c['late'] = rng.random() < 0.3
        c['present'] = rng.random() < 0.8
        c['seed'] = rng.randint(0, 10 ** 9)
        if c['bad'] in ('missing model', 'broken xml', 'invalid xml',
                        'crossing polygon'):
            c['config']['source_model'] = True
        if c['bad'] == 'crossing polygon':
            c['process'] = True
        if c['bad'] in ('missing section', 'missing key') and \
                c['fault'] == 'bad':
            c['pre'] = [rng.choice(['GardnerKnopoff', 'Afteran', 'Stepp'])]
        if c['bad'] in ('missing processing section',
                        'missing processing key', 'unreadable parameter') \
                and c['fault'] == 'bad':
            c['post'] = c['post'] or [rng.choice(['Recurrence',
                                                  'MaximumMagnitude'])]
            c['process'] = True
            # a source that has all the events
            c['sources'][-1]['points'] = [
                [-180., -90.], [180., -90.], [180., 90.], [-180., 90.]]
            c['config']['source_model'] = rng.random() < 0.8
        if c['bad'] == 'broken table' and c['fault'] == 'bad':
            c['pre'] = []
        return c

    def spoil(self, case, folder, cfg):
        """Make the run impossible."""
        import random
        rng = random.Random(case['seed'])
        bad = case['bad']

        def edit(path, fun):
            with open(path) as f:
                text = f.read()
            with open(path, 'w') as f:
                f.write(fun(text))
        if bad == 'row':
            rows = [dict(r) for r in case['rows']]
            row = rows[rng.randrange(len(rows))]
            field = rng.choice(ref.COMPULSORY)
            row[field] = rng.choice(['', 'x'])
            with open(cfg['eq_catalog_file'], 'w') as f:
                f.write(gen.csv_text(rows))
        elif bad == 'missing catalogue':
            os.remove(cfg['eq_catalog_file'])
        elif bad == 'missing model':
            os.remove(cfg['source_model_file'])
        elif bad == 'broken xml':
            edit(cfg['source_model_file'],
                 lambda t: t[:rng.randint(1, len(t) - 10)])
        elif bad == 'invalid xml':
            edit(cfg['source_model_file'], lambda t: t.replace(
                '<bValue>', '<bValues>').replace('</bValue>', '</bValues>'))
        elif bad == 'crossing polygon':
            sources = [dict(s) for s in case['sources']]
            sources[rng.randrange(len(sources))]['points'] = [
                [0., 0.], [2., 2.], [2., 0.], [0., 2.]]
            with open(cfg['source_model_file'], 'w') as f:
                f.write(gen.nrml(sources))
        elif bad == 'unknown pre':
            cfg['preprocessing_jobs'] = list(
                cfg['preprocessing_jobs'] or []) + ['Reasenberg']
        elif bad == 'unknown post':
            cfg['processing_jobs'] = list(
                cfg['processing_jobs'] or []) + ['Smooth']
        elif bad == 'missing section':
            del cfg[case['pre'][0]]
        elif bad == 'missing key':
            p = dict(cfg[case['pre'][0]])
            del p[rng.choice(sorted(p))]
            cfg[case['pre'][0]] = p
        elif bad == 'missing processing section':
            del cfg[case['post'][0]]
        elif bad == 'missing processing key':
            p = dict(cfg[case['post'][0]])
            del p[rng.choice(sorted(p))]
            cfg[case['post'][0]] = p
        elif bad == 'unreadable parameter':
            p = dict(cfg[case['post'][0]])
            p['magnitude_window' if case['post'][0] == 'Recurrence' else
              'iteration_tolerance'] = rng.choice(['x', {}])
            if case['post'][0] == 'MaximumMagnitude':
                p['maxim_mag_algorithm'] = 'Kijko_Npg'
            cfg[case['post'][0]] = p
        elif bad == 'broken table':
            path = os.path.join(folder, 'given.csv')
            cfg['completeness_table_file'] = path
            with open(path, 'w') as f:
                f.write(rng.choice(['1990.0,4.0\n1980.0\n',
                                    '1990.0\n1980.0,5.0,1.0\n',
                                    '1990,4,1\n1980,5,1\n1970,6,1,2\n']))
        elif bad == 'result directory':
            cfg['result_file'] = os.path.join(folder, 'none', 'result.xml')
        conf = flow.config_file(folder, case, cfg)
        if bad == 'missing config':
            os.remove(conf)
        elif bad == 'broken config':
            with open(conf, 'w') as f:
                f.write('{a: [\n')
        return conf

    def ready(self, case):
        folder = self.env.fresh()
        cfg = flow.write(folder, case)
        for key in ('result_file', 'pprocessing_result_file',
                    'completeness_table_file'):
            if case['present'] and cfg.get(key):
                with open(cfg[key], 'wb') as f:
                    f.write(OLD)
        return folder, cfg

    def outputs(self, cfg, folder):
        return set(os.path.relpath(cfg[k], folder) for k in (
            'result_file', 'pprocessing_result_file',
            'completeness_table_file') if cfg[k])

    def run(self, case, obs):
        getattr(self, 'run_' + case['fault'])(case, obs)

    def failed(self, res, what):
        need(res.exc is not None or res.code not in (None, 0),
             'the run ended well in spite of: %s' % what)

    def run_bad(self, case, obs):
        folder, cfg = self.ready(case)
        conf = self.spoil(case, folder, cfg)
        before = flow.snapshot(folder)
        res = flow.command_line(self.env.tree, ['-i', conf], folder)
        diff = set(flow.changed(before, flow.snapshot(folder)))
        self.failed(res, case['bad'])
        allowed = set() if case['bad'] in EARLY else self.outputs(
            cfg, folder) - set(['result.xml'])
        if not case['pre']:
            allowed = set()
        need(diff <= allowed, 'a run that failed (%s) changed %r' % (
            case['bad'], sorted(diff - allowed)))
        obs.count('bad_inputs')
        obs.count('bad:' + case['bad'])
        obs.mark([case['bad'], case['seed']])

    def whole(self, case):
        """A run without a fault: lines executed, lines up to the last one
        that computes, new content of the files."""
        folder, cfg = self.ready(case)
        conf = flow.config_file(folder, case, cfg)
        tree, mon = self.env.tree, self.mon
        last = [0]
        real = mon._line
        work = (os.path.join(tree, 'mtoolkit', 'scientific'),
                os.path.join(tree, 'mtoolkit', 'catalog_filter'),
                os.path.join(tree, 'mtoolkit', 'eqcatalog'),
                os.path.join(tree, 'nrml', 'reader'))

        def line(code, number):
            out = real(code, number)
            if code.co_filename.startswith(work):
                last[0] = mon.steps - start
            return out
        self.np.random.seed(1)
        self.hook(line)
        start = mon.steps
        try:
            res = flow.command_line(tree, ['-i', conf], folder)
        finally:
            self.hook(real)
        need(res.exc is None, 'no result: %r\n%s' % (res.exc, res.out[-1500:]))
        return mon.steps - start, last[0], flow.snapshot(folder)

    def hook(self, fun):
        ev = sys.monitoring.events.LINE
        sys.monitoring.register_callback(self.mon.tool, ev, fun)

    def judge(self, before, after, new, cfg, folder, early, what):
        outs = self.outputs(cfg, folder)
        diff = set(flow.changed(before, after))
        diff -= set(['debug.log'])
        if not early:
            # what a write through a temporary file may leave behind
            diff -= set(p for p in diff if p not in before and
                        p.startswith(tuple(outs | set(['tmp', '.']))))
        need(diff <= outs, '%s changed %r' % (what, sorted(diff - outs)))
        have = after.get('result.xml')
        if have == before.get('result.xml'):
            return
        if have == new['result.xml']:
            return
        need(have is not None, '%s removed the result' % what)
        need(not early, '%s, before the processing ended, changed the result '
             'file to %r...' % (what, have[:60]))
        need(new['result.xml'].startswith(have), '%s left a result that is '
             'no part of the right one' % what)

    def run_line(self, case, obs):
        total, work, new = self.whole(case)
        step = max(1, int(case['at'] * work)) if not case['late'] else \
            work + 1 + int(case['at'] * (total - work))
        folder, cfg = self.ready(case)
        conf = flow.config_file(folder, case, cfg)
        before = flow.snapshot(folder)
        mon, real = self.mon, self.mon._line
        hit = []

        def line(code, number):
            out = real(code, number)
            if out is None and mon.steps - start >= step and not hit:
                hit.append((os.path.basename(code.co_filename), number))
                raise Injected('injected')
            return out
        self.np.random.seed(1)
        self.hook(line)
        start = mon.steps
        try:
            res = flow.command_line(self.env.tree, ['-i', conf], folder)
        finally:
            self.hook(real)
        if not hit:
            return
        after = flow.snapshot(folder)
        early = step <= work
        self.judge(before, after, new, cfg, folder, early,
                   'a crash after %d of %d lines' % (step, total))
        obs.count('crashes_before_the_end' if early else 'crashes_at_the_end')
        obs.count('crash_in:' + hit[0][0])
        obs.mark()

    def run_file(self, case, obs):
        folder, cfg = self.ready(case)
        conf = flow.config_file(folder, case, cfg)
        before = flow.snapshot(folder)
        self.opened = []
        self.refuse = (folder + os.sep, 1 + int(case['at'] * 6))
        try:
            res = flow.command_line(self.env.tree, ['-i', conf], folder)
        finally:
            number = self.refuse[1]
            self.refuse = None
        after = flow.snapshot(folder)
        if len(self.opened) < number:
            need(res.exc is None, 'no result: %r\n%s' % (
                res.exc, res.out[-1500:]))
            return
        name = os.path.basename(self.opened[number - 1])
        self.failed(res, 'input/output error of %s' % name)
        outs = self.outputs(cfg, folder) - set(['result.xml'])
        diff = set(flow.changed(before, after))
        need(diff <= outs, 'a run that could not open %s changed %r' % (
            name, sorted(diff - outs)))
        obs.count('files_refused')
        obs.mark([name, case['seed']])

    def run_kill(self, case, obs):
        folder, cfg = self.ready(case)
        conf = flow.config_file(folder, case, cfg)
        tree = self.env.tree
        env = dict(os.environ, PYTHONPATH=tree, PYTHONDONTWRITEBYTECODE='1')
        args = [sys.executable, '-B', '-W', 'ignore', os.path.join(
            tree, 'main.py'), '-i', conf]
        before = flow.snapshot(folder)
        proc = subprocess.Popen(args, cwd=folder, env=env,
                                stdout=subprocess.DEVNULL,
                                stderr=subprocess.DEVNULL)
        time.sleep(case['at'] * 1.6)
        proc.send_signal(signal.SIGKILL)
        proc.wait()
        after = flow.snapshot(folder)
        self.ready_new = self.whole(case)[2]
        self.judge(before, after, self.ready_new, cfg, folder, False,
                   'a kill after %.2f s' % (case['at'] * 1.6))
        obs.count('kills')
        obs.count('killed_while_running', proc.returncode != 0)
        obs.mark()


CHECK = C27()
