"""The events kept after declustering and completeness."""
from mtv.core import Check, must, need


class C13(Check):
    ID = 'C13'
    RULE = ('random years, magnitudes, flags (-1, 0, 1) and completeness '
            'tables of 0-12 rows, with events exactly on the completeness '
            'years and magnitudes, given to the function and to the job; '
            'non-trivial when some events are kept and some are dropped for '
            'completeness')
    QUICK = 60000
    THOROUGH = 225000
    MIN = {'kept': 1000, 'flagged': 1000, 'incomplete': 1000, 'on_edge': 500}
    ANCHORS = ('mtoolkit/scientific/completeness.py', 'mtoolkit/jobs.py')

    def setup(self, env):
        import numpy
        from mtoolkit.scientific import completeness
        self.np, self.mod = numpy, completeness

    LARGE = 2

    def large(self, rng, i):
        case = None
        while case is None or len(case['rows']) < 3:
            case = self.gen(rng, 'quick')
        n = (3000, 70000)[i]
        rows = [[2000. - 3 * k, round(3 + 0.05 * k, 4)] for k in range(150)]
        return dict(case, rows=rows if i == 0 else case['rows'],
                    years=[float(rng.randint(1550, 2010)) for _ in range(n)],
                    mags=[round(rng.uniform(2.9, 11), 2) for _ in range(n)],
                    flags=[rng.choice([0, 0, 0, 1, -1]) for _ in range(n)])

    def gen(self, rng, tier):
        rows = []
        m = rng.choice([3., 4.0, 4.3])
        wide = rng.random()
        if wide < 0.06:
            m = rng.choice([-1.5, 0., 1.9])
        y = rng.choice([rng.randint(1970, 2005), rng.randint(1970, 2005),
                        rng.randint(-30, 5), rng.randint(1970, 2005) + 0.5])
        still = rng.random() < 0.05
        for _ in range(rng.choice([0, 1, 1, 2, 5, 12, 3,
                                   rng.choice([3, 4, 45])])):
            rows.append([float(y), round(m, 5)])
            if not still and rng.random() < 0.95:
                m += rng.choice([0.1, 0.2, 0.5, 1 / 3.])
            y -= rng.choice([0, 0, 1, 5, 20])
            if rng.random() < 0.1:
                y += 10
        if rng.random() < 0.1:
            rng.shuffle(rows)
        n = rng.choice([0, 1, 3, 10, 60])
        if rng.random() < 0.05:
            n = rng.choice([2, 128, 130, 257, 300, 600])
        years, mags, flags = [], [], []
        for _ in range(n):
            if rows and rng.random() < 0.5:
                r = rng.choice(rows)
                yy = float(int(r[0]) + rng.choice([0, 0, -1, 1]))
                mm = r[1] + rng.choice([0, 0, -0.1, 0.1, 1e-6, -1e-6])
            else:
                yy = float(rng.randint(1900, 2010)) if rng.random() < .8 \
                    else -float(rng.randint(0, 2010))
                mm = round(rng.uniform(3, 8) if wide > 0.12 else
                           rng.uniform(-2, 10), 2)
            years.append(yy)
            mags.append(mm)
            flags.append(rng.choice([0, 0, 0, 1, -1]))
        if mags and rng.random() < 0.03:
            mags = [mags[0]] * n
        if mags and rng.random() < 0.03:
            years = [years[0]] * n
        return {'rows': rows, 'years': years, 'mags': mags, 'flags': flags,
                'job': rng.random() < 0.5,
                'ftype': rng.choice(['int', 'float'])}

    def run(self, case, obs):
        np = self.np
        years = np.array(case['years'], dtype=float)
        mags = np.array(case['mags'], dtype=float)
        flags = np.array(case['flags'], dtype=case['ftype'])
        table = np.array(case['rows'], dtype=float).reshape((-1, 2))
        if case['job']:
            from mtoolkit import jobs, workflow
            ctx = workflow.Context()
            n = len(years)
            ctx.catalog_matrix = np.column_stack([
                years, np.full(n, 7.), np.full(n, 11.), np.full(n, 50.),
                np.full(n, -3.), mags, np.full(n, .25)])
            ctx.working_catalog = ctx.catalog_matrix[:n // 2]
            ctx.completeness_table = table
            ctx.flag_vector = flags
            must(jobs.create_selected_eq_vector, ctx)
            got = ctx.selected_eq_vector
        else:
            got = must(self.mod.selected_eq_flag_vector, years, mags,
                       table[:, 0], table[:, 1], flags)
        need(np.shape(got) == (len(years),), 'vector of shape %r for %d '
             'events' % (np.shape(got), len(years)))
        kept = dropped = 0
        for k in range(len(years)):
            under = any(years[k] < r[0] and mags[k] < r[1]
                        for r in case['rows'])
            want = 1 if under or case['flags'][k] else 0
            need(got[k] == want, 'event %r M%r flagged %r: %r instead of %d '
                 'with the table %r' % (years[k], mags[k], case['flags'][k],
                                        got[k], want, case['rows']))
            kept += not want
            dropped += under and not case['flags'][k]
            obs.count('flagged', case['flags'][k] != 0)
            obs.count('on_edge', any(years[k] == r[0] or mags[k] == r[1]
                                     for r in case['rows']))
        need(years.tolist() == case['years'] and mags.tolist() == case['mags']
             and flags.tolist() == case['flags'] and
             table.tolist() == case['rows'], 'an input was changed')
        obs.count('kept', kept)
        obs.count('incomplete', dropped)
        if kept and dropped:
            obs.mark()


CHECK = C13()
