"""Gardner-Knopoff declustering."""
from mtv import decl, gen
from mtv.core import Check, must, need

METHODS = ('GardnerKnopoff', 'Gruenthal', 'Uhrhammer')


class C10(Check):
    ID = 'C10'
    RULE = ('random lumpy catalogues of 1-60 events (main events with '
            'followers aimed at the space-time windows, overlapping '
            'sequences, same-day events, equal magnitudes, date line and '
            'poles) for each window method and foreshock share; non-trivial '
            'when at least one cluster is found')
    QUICK = 20000
    THOROUGH = 150000
    MIN = {'clusters': 200, 'aftershocks': 200, 'foreshocks': 20}
    ANCHORS = ('mtoolkit/scientific/declustering.py', 'mtoolkit/jobs.py')
    ASSUMPTIONS = ['window comparisons closer than 1e-9 relative are left '
                   'undecided, except exact zeros']

    def setup(self, env):
        import numpy
        from mtoolkit.scientific import declustering
        self.np, self.mod = numpy, declustering

    LARGE = 3

    def large(self, rng, i):
        case = self.gen(rng, 'quick')
        if i == 2:
            return {'crowd': 70000, 'seed': rng.randrange(10 ** 6), 'fs': 0,
                    'method': rng.choice(METHODS), 'via': case['via']}
        return dict(case, rows=gen.many(rng, 1500) if i else gen.matrix(rng, 900))

    def gen(self, rng, tier):
        n = rng.choice([1, 2, 3, 5, 8, 15, 30, 60])
        method, kind = rng.choice(METHODS), rng.random()
        if kind < 0.012:
            rows = gen.many(rng, rng.choice([130, 130, 320, 600]))
        else:
            rows = gen.matrix(rng, n)
            if kind < 0.07 and method != 'Gruenthal':
                # the Gruenthal relation has no value below zero
                rows = gen.micro(rows)
            elif kind < 0.4:
                rows = gen.vary(rng, rows)
        return {'rows': rows,
                'method': method,
                'fs': rng.choice([0, 0, 0.0, 0.25, 0.5, 1, 1.0, 2,
                                  round(rng.random(), 2)]),
                'via': rng.choice(['function', 'keywords', 'job'])}

    def call(self, case, matrix):
        method, fs = case['method'], case['fs']
        if case['via'] == 'function':
            return must(self.mod.gardner_knopoff_decluster, matrix, method, fs)
        if case['via'] == 'keywords':
            kw = {}
            if method != 'GardnerKnopoff':
                kw['window_opt'] = method
            if fs != 0:
                kw['fs_time_prop'] = fs
            return must(self.mod.gardner_knopoff_decluster, matrix, **kw)
        from mtoolkit import jobs, workflow
        ctx = workflow.Context()
        ctx.config = {'GardnerKnopoff': {'time_dist_windows': method,
                                         'foreshock_time_window': fs}}
        ctx.catalog_matrix = ctx.working_catalog = matrix
        must(jobs.gardner_knopoff, ctx)
        need(self.np.array_equal(ctx.catalog_matrix, matrix),
             'the job replaced the full catalogue')
        return ctx.vcl, ctx.working_catalog, ctx.flag_vector

    def run(self, case, obs):
        if case.get('crowd'):
            decl.crowd(self.np, self.call, case, obs)
            return
        matrix = self.np.array(case['rows'])
        result = self.call(case, matrix)
        need(self.np.array_equal(matrix, case['rows']),
             'the catalogue was changed')
        vcl, flag = decl.gardner_knopoff(
            case['rows'], case['method'], case['fs'], result, self.np, obs)
        if any(vcl):
            obs.mark()


CHECK = C10()
