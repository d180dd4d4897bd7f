"""Sources are processed independently and only their recurrence changes."""
import os

from mtv import flow, gen
from mtv.core import Check, must, need

OWN = {'Recurrence': ('a', 'b', 'mmin'), 'MaximumMagnitude': ('mmax',)}


class C21(Check):
    ID = 'C21'
    RULE = ('whole runs with 1-4 overlapping or distant sources and the real '
            'algorithms, compared with runs over each source alone and over '
            'the sources in another order; attributes compared with the input '
            'document; non-trivial when two sources took new values')
    QUICK = 1200
    THOROUGH = 11250
    MIN = {'sources_updated': 100, 'sources_kept': 30, 'off': 10,
           'alone_compared': 150, 'reordered': 50}
    ANCHORS = ('mtoolkit/workflow.py', 'mtoolkit/jobs.py',
               'mtoolkit/catalog_filter.py')
    ASSUMPTIONS = ['magnitudes are certain, so that the bootstrap is not '
                   'random']

    def setup(self, env):
        import numpy
        self.np = numpy

    def gen(self, rng, tier):
        c = flow.scenario(rng, nsrc=rng.choice([1, 2, 2, 3, 4]), sigma=False)
        c['config']['source_model'] = True
        c['store'] = False
        c['post'] = rng.choice([['Recurrence'], ['MaximumMagnitude'],
                                ['Recurrence', 'MaximumMagnitude'],
                                ['MaximumMagnitude', 'Recurrence']])
        c['config']['Recurrence']['reference_magnitude'] = rng.choice(
            [0.5, 2.25, 4.5])
        # a table that leaves some zones without an event in a period
        c['given'] = None
        if rng.random() < 0.4:
            c['pre'] = []
            c['given'] = [[1900., 3.], [rng.choice([1900., 1850.]),
                           rng.choice([5., 6., 7.])]]
        c['perm'] = rng.sample(range(len(c['sources'])), len(c['sources']))
        return c

    def go(self, case, sources):
        c = dict(case, sources=sources)
        folder = self.env.fresh()
        cfg = flow.write(folder, c)
        if case['given']:
            cfg['completeness_table_file'] = folder + '/given.csv'
            with open(folder + '/given.csv', 'w') as f:
                for row in case['given']:
                    f.write('%10.5f,%10.5f\n' % tuple(row))
        ctx = must(flow.run_workflow, cfg)
        need(len(ctx.sm_definitions) == len(sources), '%d sources instead of '
             '%d' % (len(ctx.sm_definitions), len(sources)))
        return [gen.source_view(s) for s in ctx.sm_definitions]

    def run(self, case, obs):
        views = self.go(case, case['sources'])
        mine = set()
        if case['process']:
            for job in case['post']:
                mine |= set(OWN[job])
        changed = 0
        for src, view in zip(case['sources'], views):
            for key in src:
                if key in mine:
                    continue
                need(view[key] == src[key], '%s of source %s is %r instead of '
                     '%r after %r' % (key, src['area_source_id'], view[key],
                                      src[key], case['post']))
            if any(view[k] != src[k] for k in mine):
                obs.count('sources_updated')
                changed += 1
                # a job updates all of its values or none
                if 'b' in mine and (view['a'] != src['a'] or
                                    view['b'] != src['b']):
                    need(view['mmin'] == case['config']['Recurrence'][
                        'reference_magnitude'], 'minimum magnitude %r is not '
                        'the reference magnitude' % view['mmin'])
            else:
                obs.count('sources_kept')
        if not case['process']:
            obs.count('off')
            return

        def same(a, b):
            return gen.diff(a, b)
        for src, view in zip(case['sources'], views):
            alone = self.go(case, [src])[0]
            bad = same(view, alone)
            need(bad is None, 'source %s differs when processed alone: %s' % (
                src['area_source_id'], bad))
            obs.count('alone_compared')
        if len(views) > 1:
            perm = case['perm']
            again = self.go(case, [case['sources'][k] for k in perm])
            for k, view in zip(perm, again):
                bad = same(views[k], view)
                need(bad is None, 'source %s differs in another order: %s' % (
                    view['area_source_id'], bad))
            obs.count('reordered')
        if changed > 1:
            obs.mark()


CHECK = C21()
