"""AFTERAN declustering."""
from mtv import decl, gen
from mtv.checks.c10 import METHODS
from mtv.core import Check, must, need


class C11(Check):
    ID = 'C11'
    RULE = ('random lumpy catalogues of 1-60 events, as for Gardner-Knopoff, '
            'for each window method and moving windows of 1-1000 days; '
            'compared with an executable model when all magnitudes differ, '
            'with the invariants otherwise; non-trivial when at least one '
            'cluster is found')
    QUICK = 20000
    THOROUGH = 150000
    MIN = {'clusters': 200, 'aftershocks': 200, 'foreshocks': 20,
           'compared_with_model': 100}
    ANCHORS = ('mtoolkit/scientific/declustering.py', 'mtoolkit/jobs.py')
    ASSUMPTIONS = ['window comparisons closer than 1e-9 relative are left '
                   'undecided, except exact zeros']

    def setup(self, env):
        import numpy
        from mtoolkit.scientific import declustering
        self.np, self.mod = numpy, declustering

    LARGE = 3

    def large(self, rng, i):
        case = self.gen(rng, 'quick')
        if i == 2:
            return {'crowd': 70000, 'seed': rng.randrange(10 ** 6), 'days': 60,
                    'method': rng.choice(METHODS), 'via': case['via']}
        return dict(case, rows=gen.many(rng, 1500) if i else gen.matrix(rng, 900))

    def gen(self, rng, tier):
        n = rng.choice([1, 2, 3, 5, 8, 15, 30, 60])
        method, kind = rng.choice(METHODS), rng.random()
        if kind < 0.012:
            rows = gen.many(rng, rng.choice([130, 130, 320, 600]))
        else:
            rows = gen.matrix(rng, n, tie=0.2)
            if kind < 0.07 and method != 'Gruenthal':
                # the Gruenthal relation has no value below zero
                rows = gen.micro(rows)
            elif kind < 0.4:
                rows = gen.vary(rng, rows)
        return {'rows': rows,
                'method': method,
                'days': rng.choice([1., 5.5, 30, 60, 60., 100., 365., 1000.,
                                    0, 0.4, 5000,
                                    round(rng.uniform(1, 400), 1)]),
                'via': rng.choice(['function', 'keywords', 'job'])}

    def call(self, case, matrix):
        if case['via'] == 'function':
            return must(self.mod.afteran_decluster, matrix, case['method'],
                        case['days'])
        if case['via'] == 'keywords':
            kw = {}
            if case['method'] != 'GardnerKnopoff':
                kw['window_opt'] = case['method']
            if case['days'] != 60:
                kw['time_window'] = case['days']
            return must(self.mod.afteran_decluster, matrix, **kw)
        from mtoolkit import jobs, workflow
        ctx = workflow.Context()
        ctx.config = {'Afteran': {'time_dist_windows': case['method'],
                                  'time_window': case['days']}}
        ctx.catalog_matrix = matrix
        ctx.working_catalog = matrix.copy()
        must(jobs.afteran, ctx)
        return ctx.vcl, ctx.working_catalog, ctx.flag_vector

    def run(self, case, obs):
        if case.get('crowd'):
            decl.crowd(self.np, self.call, case, obs)
            return
        matrix = self.np.array(case['rows'])
        result = self.call(case, matrix)
        need(self.np.array_equal(matrix, case['rows']),
             'the catalogue was changed')
        vcl, flag = decl.afteran(
            case['rows'], case['method'], case['days'], result, self.np, obs)
        if any(vcl):
            obs.mark()


CHECK = C11()
