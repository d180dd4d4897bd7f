"""Continuing from stored preprocessing equals a single run."""
import os

from mtv import flow, gen
from mtv.core import Check, attempt, must, need


class C22(Check):
    ID = 'C22'
    RULE = ('runs that preprocess, store and process, each followed by a run '
            'without preprocessing over the stored catalogue and table, and '
            'by a second such run; the sources and the completeness tables of all of them are '
            'compared; '
            'non-trivial when a source took new values')
    QUICK = 1800
    THOROUGH = 13500
    MIN = {'sources_compared': 200, 'sources_updated': 60, 'with_stepp': 40, 'unlocked': 40,
           'declustered_only': 40}
    ANCHORS = ('mtoolkit/workflow.py', 'mtoolkit/jobs.py',
               'mtoolkit/eqcatalog.py')
    ASSUMPTIONS = ['magnitudes lie off the edges of the completeness bins',
                   'with a Stepp table only MLE recurrence is compared, and '
                   'with one that is not monotone only the table: the '
                   'bins of Weichert and the events Kijko takes start at the '
                   'smallest event of the catalogue they are given',
                   'a bootstrap is made certain by events without '
                   'uncertainty']

    def setup(self, env):
        import numpy
        self.np = numpy

    def gen(self, rng, tier):
        c = flow.scenario(rng, n=rng.choice([20, 60, 150]), sigma=False)
        c['pre'] = rng.choice([['GardnerKnopoff'], ['Afteran'], ['Stepp'],
                               ['GardnerKnopoff', 'Stepp'],
                               ['Stepp', 'Afteran'], ['Afteran', 'Stepp']])
        c['process'] = c['store'] = True
        if 'Stepp' in c['pre']:
            c['config']['Recurrence']['recurrence_algorithm'] = 'MLE'
            c['post'] = ['Recurrence']
            # off the edges of the bins, multiples of 0.05
            for row in c['rows']:
                row['Mw'] = repr(round(round(
                    float(row['Mw']), 1) + 0.07, 2))
            c['config']['Stepp']['increment_lock'] = rng.random() < 0.5
        elif not c['post']:
            c['post'] = ['Recurrence', 'MaximumMagnitude']
        if 'MaximumMagnitude' not in c['post'] or c['config'][
                'MaximumMagnitude']['maxim_mag_algorithm'] == 'Kijko_Npg':
            for row in c['rows']:
                row['sigmaMw'] = rng.choice(['', '0', '0.1', repr(
                    round(rng.uniform(0, 2), 3))])
        if rng.random() < 0.1:
            for row in c['rows']:
                row['year'] = str(int(row['year']) - 1990)
        return c

    def run(self, case, obs):
        folder = self.env.fresh()
        cfg = flow.write(folder, case)
        out = attempt(flow.run_workflow, cfg)
        need(out.exc is None, 'no result: %r\n%s' % (out.exc, out.tb))
        first = [gen.source_view(s) for s in out.value.sm_definitions]
        with open(cfg['pprocessing_result_file']) as f:
            stored = f.read()
        with open(cfg['completeness_table_file']) as f:
            table = f.read()
        again = dict(cfg, eq_catalog_file=cfg['pprocessing_result_file'],
                     preprocessing_jobs=None, pprocessing_result_file=None)
        for turn in (1, 2):
            ctx = must(flow.run_workflow, dict(again))
            tab = ctx.completeness_table
            need(self.np.shape(tab) == self.np.shape(
                out.value.completeness_table) and self.np.all(
                abs(tab - out.value.completeness_table) <= 6e-6),
                'the completeness table after continuing (%d) from %r is %r '
                'instead of %r' % (turn, case['pre'], tab.tolist(),
                                   out.value.completeness_table.tolist()))
            views = [gen.source_view(s) for s in ctx.sm_definitions]
            need(len(views) == len(first), '%d sources' % len(views))
            if 'Stepp' in case['pre'] and \
                    not case['config']['Stepp']['increment_lock']:
                # other rows than that of a period may exclude its events
                obs.count('unlocked')
                views = []
            for a, b in zip(first, views):
                for key in a:
                    ok = a[key] == b[key] or (
                        key in ('a', 'b', 'mmax') and
                        abs(a[key] - b[key]) <= 1e-9 * max(
                            1e-3, abs(a[key])))
                    need(ok, 'after continuing (%d) from %r, %s of source %s '
                         'is %r instead of %r' % (
                             turn, case['pre'], key, a['area_source_id'],
                             b[key], a[key]))
                obs.count('sources_compared')
            with open(cfg['pprocessing_result_file']) as f:
                need(f.read() == stored, 'the stored catalogue was changed')
            with open(cfg['completeness_table_file']) as f:
                need(f.read() == table, 'the stored table was changed')
        changed = sum(1 for s, v in zip(case['sources'], first)
                      if gen.diff(s, v)) \
            if case['config']['source_model'] else 1
        obs.count('sources_updated', changed)
        obs.count('with_stepp' if 'Stepp' in case['pre'] else
                  'declustered_only')
        if changed:
            obs.mark()


CHECK = C22()
