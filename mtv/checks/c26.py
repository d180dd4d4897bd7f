"""A command-line run writes the prescribed results and nothing else."""
import os

from mtv import flow, gen
from mtv.core import Check, need


def close(a, b):
    return a == b or abs(a - b) <= 1e-9 * max(1e-3, abs(b))


class C26(Check):
    ID = 'C26'
    RULE = ('runs of the command line over random configurations (relative '
            'and absolute paths, configuration in another folder, other files '
            'next to the outputs, plain and detailed, outputs absent or '
            'present before), some as processes of their own; the result '
            'document, the stored files and every other file of the directory '
            'are compared with an independent composition of the steps; '
            'non-trivial when a source took new values')
    QUICK = 1600
    THOROUGH = 12000
    MIN = {'runs': 200, 'sources_updated': 100, 'detailed': 50,
           'processes': 8, 'stored': 30, 'overwritten': 50, 'default': 20,
           'with_other_files': 50, 'configured_elsewhere': 50, 'asked': 7,
           'odd_names': 20}
    ANCHORS = ('main.py', 'mtoolkit/console.py', 'mtoolkit/workflow.py',
               'mtoolkit/jobs.py', 'nrml/writer.py')
    ASSUMPTIONS = ['magnitudes are certain, so that the bootstrap is not '
                   'random']

    def setup(self, env):
        import numpy
        self.np = numpy

    def fixed(self, tier):
        import random
        out = []
        for k in range(16 if tier != 'thorough' else 64):
            c = self.gen(random.Random('proc%d' % k), tier)
            c['process_of_its_own'] = True
            out.append(c)
        return out + [{'only': args} for args in (
            [], ['-h'], ['--help'], ['-v'], ['--version'], ['-d', '-v'],
            ['-i', 'absent.yml', '-h'])]

    def ask(self, args, obs):
        """Asking for help runs nothing."""
        folder = self.env.fresh()
        with open(os.path.join(folder, 'config.yml'), 'w') as f:
            f.write('mine')
        before = flow.snapshot(folder)
        res = flow.command_line(self.env.tree, args, folder)
        need(res.exc is None and not res.code, 'arguments %r ended in %r %r'
             % (args, res.exc, res.code))
        need(flow.snapshot(folder) == before, 'files %r' % flow.changed(
            before, flow.snapshot(folder)))
        about = '0.1' if args and args[-1] in ('-v', '--version') else 'usage'
        need(about in res.out, 'arguments %r show %r' % (args, res.out))
        obs.count('asked')

    LARGE = 1

    def large(self, rng, i):
        case = None
        while case is None or not case['post'] or not case['process'] or \
                case.get('unknown'):
            case = self.gen(rng, 'quick')
        more = flow.scenario(rng, n=1200, nsrc=40, sigma=False)
        case['config']['source_model'] = True
        return dict(case, rows=more['rows'], sources=more['sources'])

    def gen(self, rng, tier):
        c = flow.scenario(rng, sigma=False)
        c['relative'] = rng.random() < 0.5
        c['detailed'] = rng.random() < 0.4
        c['present'] = rng.random() < 0.5
        c['cfg_name'] = rng.choice(['config.yml', 'my settings.yml', 'c'])
        c['long'] = rng.random() < 0.5
        c['table_only'] = rng.random() < 0.3
        c['subdirs'] = rng.random() < 0.5
        c['conf_dir'] = rng.choice(['', '', 'settings', 'out'])
        c['decoys'] = rng.random() < 0.5
        if rng.random() < 0.25:
            # files of any name
            c['names'] = rng.sample(gen.FILES + ['back\\slash', "it's.csv"], 5)
        return c

    def run(self, case, obs):
        if 'only' in case:
            return self.ask(case['only'], obs)
        np = self.np
        folder = self.env.fresh()
        base = '' if case['relative'] else folder + os.sep
        sub = 'in' + os.sep if case['subdirs'] else ''
        outdir = 'out' + os.sep if case['subdirs'] else ''
        for d in (sub, outdir):
            if d:
                os.makedirs(os.path.join(folder, d))
        plain = ('cat.csv', 'model.xml', 'result.xml', 'stored.csv',
                 'table.csv')
        cat, model, result, stored, table = case.get('names', plain)
        names = {'cat': base + sub + cat, 'model': base + sub + model,
                 'result': base + outdir + result,
                 'stored': base + outdir + stored,
                 'table': base + outdir + table}
        back = os.getcwd()
        os.chdir(folder)
        try:
            cfg = flow.write(folder, case, names)
        finally:
            os.chdir(back)
        at = os.path.join(folder, case['conf_dir'])
        os.makedirs(at, exist_ok=True)
        conf = flow.config_file(at, case, cfg)
        outputs = [outdir + result]
        if case['pre'] and case['store']:
            outputs += [outdir + stored, outdir + table]
        if case['present']:
            for n in outputs + ['other.txt', outdir + stored]:
                with open(os.path.join(folder, n), 'w') as f:
                    f.write('old\n' * 3000)
        if case['decoys']:
            # what others may keep next to the files of a run
            for n in outputs + [sub + cat, sub + model,
                                'debug.log']:
                stem = os.path.splitext(n)[0]
                for name in (n + '~', n + '.bak', n + '.tmp', n + '.old',
                             n + '.new', stem + '.tmp', stem + '.bak',
                             stem + '.log', stem + '.txt'):
                    name = os.path.join(folder, name)
                    if not name.endswith('debug.log') and not \
                            os.path.exists(name):
                        with open(name, 'w') as f:
                            f.write('mine')
            for name in ('temp', 'tmp.xml', 'tmp.csv') + (
                    () if case['detailed'] else ('debug.log',)):
                with open(os.path.join(folder, name), 'w') as f:
                    f.write('mine')
        before = flow.snapshot(folder)
        args = ['--input-file' if case['long'] else '-i',
                os.path.relpath(conf, folder) if case['relative'] else conf]
        if case['detailed']:
            args.insert(0 if case['long'] else 2, '-d')
        if case.get('process_of_its_own'):
            code, text = flow.process(self.env.tree, args, folder)
            need(code == 0, 'exit status %r\n%s' % (code, text[-1500:]))
            obs.count('processes')
        else:
            res = flow.command_line(self.env.tree, args, folder)
            need(res.exc is None and not res.code, 'the run ended in %r %r\n%s'
                 % (res.exc, res.code, res.out[-1500:]))
        after = flow.snapshot(folder)
        allowed = set(outputs + (['debug.log'] if case['detailed'] else []))
        diff = set(flow.changed(before, after))
        need(diff <= allowed, 'the run changed %r' % sorted(diff - allowed))
        need(set(after) == set(before) | allowed, 'files %r instead of %r' % (
            sorted(after), sorted(set(before) | allowed)))
        want = flow.expected(np, case)
        try:
            got = gen.read_nrml(os.path.join(folder, outputs[0]))
        except Exception as exc:
            need(False, 'result file not readable: %r' % exc)
        need(len(got) == len(want['sources']), '%d sources instead of %d' % (
            len(got), len(want['sources'])))
        updated = 0
        for src, have in zip(want['sources'], got):
            if not case['config']['source_model']:
                src = dict(flow.default_view(), **(src or {}))
                obs.count('default')
            for key in have:
                if key == 'name' and src[key] != have[key]:
                    need(src[key].strip() == have[key].strip(), 'name %r '
                         'instead of %r' % (have[key], src[key]))
                    continue
                ok = close(have[key], src[key]) if key in (
                    'a', 'b', 'mmin', 'mmax') else have[key] == src[key]
                need(ok, '%s of source %s is %r instead of %r' % (
                    key, have['area_source_id'], have[key], src[key]))
            updated += bool(src.get('done'))
        obs.count('sources_updated', updated)
        if len(outputs) == 3:
            import csv
            with open(os.path.join(folder, outputs[1])) as f:
                ids = [r['eventID'] for r in csv.DictReader(f)]
            need(ids == [str(e['eventID']) for e in want['stored']],
                 'stored events %r instead of %r' % (
                     ids, [e['eventID'] for e in want['stored']]))
            have = np.atleast_2d(np.genfromtxt(os.path.join(
                folder, outputs[2]), delimiter=','))
            need(have.shape == np.shape(want['table']) and np.all(
                np.abs(have - want['table']) <= 6e-6),
                'stored table %r instead of %r' % (have, want['table']))
            obs.count('stored')
        obs.count('runs')
        obs.count('detailed', case['detailed'])
        obs.count('overwritten', case['present'])
        obs.count('odd_names', 'names' in case)
        obs.count('with_other_files', case['decoys'])
        obs.count('configured_elsewhere', bool(case['conf_dir']))
        if updated:
            obs.mark()


CHECK = C26()
