"""The detailed report tells what happened."""
import os
import re

from mtv import flow, ref
from mtv.core import Check, need

TITLES = {'GardnerKnopoff': 'GARDNER_KNOPOFF', 'Afteran': 'AFTERAN',
          'Stepp': 'STEPP', 'Recurrence': 'RECURRENCE',
          'MaximumMagnitude': 'MAXIMUM_MAGNITUDE'}


def numbers(text, pattern):
    return [int(v) for v in re.findall(pattern + r':? *(\d+)', text)]


EARLIER = 'what an earlier run reported\n'
FACTS = {
    '* Eq catalog length': ('READ_EQ_CATALOG',),
    '* Eq number source models': ('READ_SOURCE_MODEL',
                                  'CREATE_DEFAULT_SOURCE_MODEL'),
    'events after declustering': ('GARDNER_KNOPOFF', 'AFTERAN'),
    'events removed during declustering': ('GARDNER_KNOPOFF', 'AFTERAN'),
    'clusters identified': ('GARDNER_KNOPOFF', 'AFTERAN'),
    '* Stored Eq entries': ('STORE_PREPROCESSED_CATALOG',),
    'removed after preprocessing': ('STORE_PREPROCESSED_CATALOG',),
    'Bvalue:': ('RECURRENCE',), 'Max magnitude:': ('MAXIMUM_MAGNITUDE',),
}


class C31(Check):
    ID = 'C31'
    RULE = ('plain and detailed runs of the command line; job titles, event, '
            'cluster, source and zone counts, b, a and maximum magnitudes in '
            'the report are compared with an independent composition of the '
            'steps; non-trivial when a detailed report of two or more jobs '
            'was compared')
    QUICK = 2400
    THOROUGH = 18000
    MIN = {'detailed': 100, 'facts_in_place': 500, 'after_earlier_run': 50, 'plain': 50, 'clusters': 100, 'zones': 100,
           'values': 50}
    ANCHORS = ('mtoolkit/console.py', 'mtoolkit/jobs.py',
               'mtoolkit/catalog_filter.py', 'main.py')

    def setup(self, env):
        import numpy
        self.np = numpy

    LARGE = 1

    def large(self, rng, i):
        case = None
        while case is None or not case['post'] or not case['process'] or \
                case.get('unknown'):
            case = self.gen(rng, 'quick')
        more = flow.scenario(rng, n=1200, nsrc=40, sigma=False)
        case['config']['source_model'] = True
        for k, s in enumerate(more['sources']):
            s['name'] = 'zone%02d' % k
        return dict(case, rows=more['rows'], sources=more['sources'])

    def gen(self, rng, tier):
        c = flow.scenario(rng, sigma=False)
        c['detailed'] = rng.random() < 0.7
        # lines of the debug.log of an earlier run
        c['earlier'] = rng.choice([0] * 7 + [1, 1, 8000])
        naming = rng.choice(['zone%d', 'zone%d', 'Z\u00fcrich %d',
                             '\u4e2d\u56fd%d', 'a (%d) zone', '%d: \u00e9t\u00e9'])
        for k, s in enumerate(c['sources']):
            s['name'] = naming % k
        if rng.random() < 0.1:
            # one dense cluster
            for k, row in enumerate(c['rows']):
                row.update(longitude='10.0', latitude='10.0', year='1990',
                           month='5', day='%d' % (1 + k % 5))
            c['pre'] = [rng.choice(['GardnerKnopoff', 'Afteran'])]
        return c

    def plan(self, case, want):
        """Facts a run has to report."""
        np = self.np
        from mtoolkit.scientific import declustering
        cfg = case['config']
        full = np.array(flow.matrix_of(
            [ref.clean_entry(r) for r in case['rows']]), dtype=float)
        work = full
        kept, removed, clusters = [], [], []
        for job in case['pre']:
            if job not in flow.DECLUSTER:
                continue
            p = cfg[job]
            if job == 'Afteran':
                vcl, work, flag = declustering.afteran_decluster(
                    full, p['time_dist_windows'], p['time_window'])
            else:
                vcl, work, flag = declustering.gardner_knopoff_decluster(
                    work, p['time_dist_windows'], p['foreshock_time_window'])
            kept.append(len(work))
            removed.append(int((flag != 0).sum()))
            clusters.append(len(set(vcl.tolist()) - set([0])))
        return kept, removed, clusters

    def places(self, case, text, obs):
        """Each fact stands below the title of the job it is about."""
        title = None
        for line in text.split('\n'):
            if re.match(r'^ *[A-Z]+(_[A-Z]+)* *$', line):
                title = line.strip()
            for fact, owners in FACTS.items():
                if fact in line:
                    need(title in owners, '%r is reported below %r' % (
                        line, title))
                    obs.count('facts_in_place')

    def run(self, case, obs):
        np = self.np
        folder = self.env.fresh()
        cfg = flow.write(folder, case)
        conf = flow.config_file(folder, case, cfg)
        log = os.path.join(folder, 'debug.log')
        earlier = EARLIER * case['earlier']
        if case['earlier']:
            with open(log, 'w') as f:
                f.write(earlier)
        res = flow.command_line(self.env.tree, ['-i', conf] + (
            ['-d'] if case['detailed'] else []), folder)
        need(res.exc is None and not res.code, 'no result: %r\n%s' % (
            res.exc, res.out[-1500:]))
        want = flow.expected(np, case)
        nsrc = len(want['sources'])
        jobs = list(case['pre'])
        if case['process']:
            jobs += list(case['post']) * nsrc
        titles = [t for t in re.findall(r'^ +([A-Z_]+) *$', res.out, re.M)
                  if t in TITLES.values()]
        need(titles == [TITLES[j] for j in jobs], 'the report names the jobs '
             '%r instead of %r' % (titles, [TITLES[j] for j in jobs]))
        if case['earlier']:
            with open(log) as f:
                text = f.read()
            need(text == earlier if not case['detailed'] else
                 text.startswith(earlier) and len(text) > len(earlier),
                 'debug.log of an earlier run became %r' % text[:200])
            obs.count('after_earlier_run')
        else:
            need(os.path.exists(log) == case['detailed'], 'debug.log %s' % (
                'missing' if case['detailed'] else 'written without -d'))
        if not case['detailed']:
            need('* Eq catalog length' not in res.out and
                 'Bvalue' not in res.out, 'details without -d')
            obs.count('plain')
            return
        with open(log) as f:
            text = f.read()
        if case['earlier']:
            text = text[len(earlier):]
        self.places(case, text, obs)
        self.places(case, res.out, obs)

        def check(pattern, expect):
            for where, t in (('report', res.out), ('debug.log', text)):
                got = numbers(t, pattern)
                need(got == expect, '%s says %s %r instead of %r' % (
                    where, pattern, got, expect))
        check('Eq catalog length', [len(case['rows'])])
        check('Eq number source models', [nsrc])
        kept, removed, clusters = self.plan(case, want)
        check('Number of events after declustering', kept)
        check('Number of events removed during declustering', removed)
        check('Number of clusters identified', clusters)
        obs.count('clusters', sum(clusters))
        obs.count('all_in_clusters', any(
            r + c == len(case['rows']) for r, c in zip(removed, clusters)))
        if case['pre'] and case['store']:
            n = len(want['stored'])
            check('Stored Eq entries', [n])
            check('Number of events removed after preprocessing jobs',
                  [len(case['rows']) - n])
        else:
            check('Stored Eq entries', [])
        if case['process'] and case['config']['source_model']:
            for src, zone in zip(want['sources'], want['zones']):
                check('Number of events inside the zone ' +
                      re.escape(src['name']),
                      [len(zone)])
                obs.count('zones')
        if case['process']:
            got = re.findall(r'Bvalue: (\S+), Sigma_b: \S+, Avalue: (\S+), '
                             r'Sigma_a', text)
            exp = [('%3.3f' % s['b'], '%3.3f' % s['a'])
                   for s in want['sources'] if s and 'Recurrence' in
                   case['post'] and (s.get('done', 0) == len(case['post']))]
            got2 = re.findall(r'Max magnitude: (\S+), Sigma', text)
            exp2 = ['%3.3f' % s['mmax'] for s in want['sources']
                    if s and 'MaximumMagnitude' in case['post'] and
                    s.get('done', 0) == len(case['post'])]
            # some sources only take part of the values
            whole = all((s or {}).get('done', 0) in (0, len(case['post']))
                        for s in want['sources'])
            if whole:
                need(len(got) == len(exp) and len(got2) == len(exp2),
                     'values %r and %r reported instead of %r and %r' % (
                         got, got2, exp, exp2))
                for a, b in zip([v for p in got for v in p] + got2,
                                [v for p in exp for v in p] + exp2):
                    need(abs(float(a) - float(b)) <= 0.0011,
                         'reported %s instead of %s' % (a, b))
                    obs.count('values')
        obs.count('detailed')
        if len(jobs) > 1:
            obs.mark()


CHECK = C31()
