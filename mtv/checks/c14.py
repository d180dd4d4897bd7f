"""Stored results of preprocessing."""
import copy
import os
from decimal import ROUND_HALF_EVEN, Decimal

from mtv import gen, ref
from mtv.core import Check, must, need


class C14(Check):
    ID = 'C14'
    RULE = ('random events, selection vectors and completeness tables of 1-12 '
            'rows stored by the jobs over absent, longer or shorter files and '
            'read back by the jobs; non-trivial when some events are stored '
            'and some are not')
    QUICK = 12000
    THOROUGH = 90000
    MIN = {'events_stored': 500, 'events_left_out': 500, 'one_row_tables': 50,
           'table_values': 1000}
    ANCHORS = ('mtoolkit/jobs.py', 'mtoolkit/eqcatalog.py')

    def setup(self, env):
        import numpy
        from mtoolkit import jobs, workflow, eqcatalog
        self.np, self.jobs, self.workflow = numpy, jobs, workflow
        self.eqcatalog = eqcatalog

    LARGE = 2

    def large(self, rng, i):
        case = self.gen(rng, 'quick')
        n = (300, 3000)[i]
        return dict(case, rows=[gen.good_row(rng, k + 1) for k in range(n)],
                    table=[[2000. - k, round(3 + k * 0.01, 5)]
                           for k in range((300, 5)[i])],
                    drop=[rng.random() < 0.5 for _ in range(n)])

    def gen(self, rng, tier):
        n = rng.choice([0, 1, 2, 5, 12, 30])
        rows = [gen.good_row(rng, k + 1) for k in range(n)]
        for row in rows:
            row['eventID'] = str(rng.choice([rng.randint(1, 5),
                                             rng.randint(1, 10 ** 6)]))
        if n > 1 and rng.random() < 0.3:
            # the same event again, also right after itself
            rows[rng.randrange(n)] = dict(rows[0])
            rows[1] = dict(rows[0])
        table = []
        m, y = rng.uniform(2, 5), rng.randint(1950, 2010)
        for _ in range(rng.choice([1, 1, 2, 3, 12])):
            table.append([float(y), m])
            m = m + rng.choice([0.1, 0.2, 1 / 3., rng.random()])
            y -= rng.choice([0, 1, 5, 30, 0.5, rng.random()])
        if rng.random() < 0.1:
            table = [[float(rng.choice([-50, 0, 999])), rng.choice(
                [0., -1.25, 1e-7, 9.999999])] for _ in range(2)]
        if rng.random() < 0.2:
            rng.shuffle(table)
        return {'rows': rows, 'table': table,
                'drop': [rng.random() < rng.choice([0.1, 0.5, 0.9])
                         for _ in range(n)],
                'before': rng.choice(['none', 'long', 'short']),
                'bare': rng.random() < 0.3}

    def run(self, case, obs):
        np, jobs = self.np, self.jobs
        folder = self.env.fresh()
        entries = [ref.clean_entry(r) for r in case['rows']]
        keep = copy.deepcopy(entries)
        back = os.getcwd()
        os.chdir(folder)
        try:
            base = '' if case['bare'] else folder + os.sep
            cat, tab = base + 'stored.csv', base + 'table.csv'
            if case['before'] != 'none':
                for name in ('stored.csv', 'table.csv'):
                    with open(name, 'w') as f:
                        f.write('1.0,2.0\n' * (
                            500 if case['before'] == 'long' else 1))
            with open('other.csv', 'w') as f:
                f.write('other')
            ctx = self.workflow.Context()
            ctx.config = {'pprocessing_result_file': cat,
                          'completeness_table_file': tab}
            ctx.eq_catalog = entries
            ctx.catalog_matrix = np.zeros((len(entries), 7))
            ctx.working_catalog = np.zeros((1, 7))
            ctx.selected_eq_vector = np.array(
                [int(d) for d in case['drop']], dtype=int)
            table = np.array(case['table'])
            ctx.completeness_table = table
            must(jobs.store_preprocessed_catalog, ctx)
            must(jobs.store_completeness_table, ctx)
            need(sorted(os.listdir(folder)) == [
                'other.csv', 'stored.csv', 'table.csv'],
                'the folder contains %r' % sorted(os.listdir(folder)))
            need(open('other.csv').read() == 'other', 'other file written')
            need(table.tolist() == case['table'], 'the table was changed')
            need(entries == keep, 'the entries were changed')
            after = self.workflow.Context()
            after.config = {'eq_catalog_file': cat,
                            'completeness_table_file': tab}
            must(jobs.retrieve_completeness_table, after)
            must(jobs.read_eq_catalog, after)
        finally:
            os.chdir(back)
        want = [e for e, d in zip(keep, case['drop']) if not d]
        got = [dict(e) for e in after.eq_catalog]
        need(len(got) == len(want), '%d events stored instead of %d' % (
            len(got), len(want)))
        for k, (w, g) in enumerate(zip(want, got)):
            for field in ref.FIELDS:
                need(gen.same(w[field], g[field]), 'stored event %d: %s is %r '
                     'instead of %r' % (k, field, g[field], w[field]))
        shape = np.shape(after.completeness_table)
        need(shape == (len(case['table']), 2),
             'table of shape %r for %d rows' % (shape, len(case['table'])))
        for w, g in zip(case['table'], after.completeness_table.tolist()):
            for a, b in zip(w, g):
                r = Decimal(a).quantize(Decimal('0.00001'), ROUND_HALF_EVEN)
                need(float(r) == b, 'completeness value %r came back as %r '
                     % (a, b))
                obs.count('table_values')
        obs.count('events_stored', len(want))
        obs.count('events_left_out', len(keep) - len(want))
        obs.count('one_row_tables', len(case['table']) == 1)
        if want and len(want) < len(keep):
            obs.mark()


CHECK = C14()
