"""The recurrence table counts every event once."""
from mtv import seis
from mtv.checks.c15 import order
from mtv.core import Check, must, need


class C17(Check):
    ID = 'C17'
    RULE = ('random catalogues of 1-500 events, on and off the magnitude '
            'grid, magnitude bins 0.05-1; counts and rates compared with an '
            'event by event count, or with conservation laws when a '
            'magnitude is within rounding of a bin edge; non-trivial when '
            'events fall in three or more bins')
    QUICK = 50000
    THOROUGH = 187500
    MIN = {'compared': 500, 'doubtful': 20, 'events': 10000}
    ANCHORS = ('mtoolkit/scientific/recurrence.py',)

    def setup(self, env):
        import numpy
        from mtoolkit.scientific import recurrence
        self.np, self.mod = numpy, recurrence

    LARGE = 2

    def large(self, rng, i):
        case = None
        while case is None or len(case['years']) < 80:
            case = self.gen(rng, 'quick')
        n = (5000, 120000)[i]
        pick = [rng.randrange((len(case['years']), 3)[i]) for _ in range(n)]
        return dict(case, years=[case['years'][k] for k in pick],
                    mags=[case['mags'][k] for k in pick])

    def gen(self, rng, tier):
        dm = rng.choice([0.05, 0.1, 0.2, 0.3, 0.25, 0.5, 1.0, 0.125,
                         round(rng.uniform(0.05, 1), 4)])
        n = rng.choice([1, 1, 2, 5, 20, 100, 500])
        if rng.random() < 0.03:
            n = rng.choice([3, 4, 128, 257, 700])
        base = rng.choice([0., 3.0, 4.45, 3.0, 4.45, -0.85, -1.4])
        style = rng.choice(['tenth', 'free', 'quarter'])
        years, mags = [], []
        span = rng.choice([0, 1, 10, 110])
        start, wide, rate = 1900, 5, 1.5
        odd = rng.random()
        if odd < 0.04:
            start, span = rng.choice([(-300, 280), (-30, 60), (300, 1700),
                                      (0, 80)])
        elif odd < 0.08:
            wide, rate = 10, 0.3
        for _ in range(n):
            m = base + min(rng.expovariate(rate), wide)
            m = round(m, {'tenth': 1, 'free': 3}.get(style, 6))
            if style == 'quarter':
                m = int(m * 4) / 4.
            mags.append(m)
            years.append(float(start + rng.randint(0, span)))
        if rng.random() < 0.1:
            years, mags = order(rng, years, mags)
        return {'years': years, 'mags': mags, 'dm': dm}

    def run(self, case, obs):
        np = self.np
        years, mags = np.array(case['years']), np.array(case['mags'])
        dm = case['dm']
        got = must(self.mod.recurrence_table, mags, dm, years)
        need(years.tolist() == case['years'] and mags.tolist() == case['mags'],
             'an input was changed')
        need(got.ndim == 2 and got.shape[1] == 5, 'shape %r' % (got.shape,))
        rows = got.tolist()
        n = len(mags)
        span = max(case['years']) - min(case['years']) + 1
        counts = [r[1] for r in rows]
        need(sum(counts) == n, '%r events counted out of %d' % (
            sum(counts), n))
        for k, r in enumerate(rows):
            need(r[2] == sum(counts[k:]), 'cumulative count %r of row %d '
                 'instead of %r' % (r[2], k, sum(counts[k:])))
            need(seis.close(r[3], r[1] / span, 1e-12) and
                 seis.close(r[4], r[2] / span, 1e-12),
                 'rates %r for counts %r in %r years' % (r[3:], r[1:3], span))
            if k:
                need(abs(r[0] - rows[k - 1][0] - dm) < 1e-9,
                     'centres %r and %r' % (rows[k - 1][0], r[0]))
            low, high = r[0] - dm / 2, r[0] + dm / 2
            sure = sum(1 for m in case['mags']
                       if low + 1e-9 < m < high - 1e-9)
            maybe = sum(1 for m in case['mags']
                        if abs(m - low) <= 1e-9 or abs(m - high) <= 1e-9)
            need(sure <= r[1] <= sure + maybe, 'bin %r-%r counts %r events, '
                 'there are %d to %d' % (low, high, r[1], sure, sure + maybe))
        want, doubtful = seis.recurrence_rows(np, case['mags'], dm,
                                              case['years'])
        obs.count('events', n)
        if doubtful:
            obs.count('doubtful')
        else:
            need(len(rows) == len(want), '%d rows instead of %d' % (
                len(rows), len(want)))
            for a, b in zip(rows, want):
                need(all(seis.close(x, y, 1e-9) for x, y in zip(a, b)),
                     'row %r instead of %r' % (a, b))
            obs.count('compared')
        if sum(1 for c in counts if c) > 2:
            obs.mark()


CHECK = C17()
