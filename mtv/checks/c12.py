"""Stepp completeness table."""
import math

from mtv.core import Check, must, need

NEAR = 1e-9


def model(np, years, mags, dm, dt, ttol, lock):
    """(table, undecided): the expected rows; None for rows which depend on a
    comparison too close to call."""
    mags = [float(m) for m in np.around(100.0 * np.array(mags)) / 100.0]
    low = math.floor(10. * min(mags)) / 10.
    high = math.ceil(10. * max(mags)) / 10.
    edges = [float(e) for e in np.arange(low, high + dm, dm)]
    end, span = max(years), max(years) - min(years)
    windows = []
    k = 1
    while k * dt < span + 2:
        windows.append(float(k * dt))
        k += 1
    rows, loc, sure = [], 0, True
    for b in range(len(edges) - 1):
        last = b == len(edges) - 2
        near = [m for m in mags for e in edges[b:b + 2]
                if m != e and abs(m - e) < NEAR]
        inside = [y for y, m in zip(years, mags)
                  if m >= edges[b] and (last or m < edges[b + 1])]
        sig = []
        for w in windows:
            n = sum(1 for y in inside if y >= end - w)
            sig.append(max(math.sqrt(n / w / w), 1e-14))
        resid = []
        for i in range(len(windows) - 1):
            step = math.log10(windows[i + 1]) - math.log10(windows[i])
            resid.append((math.log10(sig[i + 1]) - math.log10(sig[i])) / step
                         + 0.5)
        found, close = None, bool(near)
        for i in range(len(resid) - 1):
            test = abs(resid[i + 1] - resid[i])
            if test > ttol:
                found = i
            if abs(test - ttol) < 1e-7:
                close = True
        mine = found
        if found is None:
            mine = loc if b else 0
        if close:
            sure = False
        if b and lock and mine < loc:
            mine = loc
        loc = mine
        rows.append((end - windows[loc] if sure else None, edges[b]))
    return rows, windows


class C12(Check):
    ID = 'C12'
    RULE = ('random catalogues of 2-400 events over 3-120 (some 1700) years, with bursts, '
            'gaps and a rate that grows with time; magnitude windows 0.1-1, '
            'time windows of 1-10 years, sensitivities 0.01-1, lock on and '
            'off, also called through the job; compared with an executable '
            'model of the method; non-trivial when the table has at least two '
            'different years')
    QUICK = 9600
    THOROUGH = 72000
    MIN = {'rows_compared': 1000, 'locked': 100, 'unlocked': 100,
           'lock_acted': 20, 'kept_previous': 20}
    ANCHORS = ('mtoolkit/scientific/completeness.py', 'mtoolkit/jobs.py')
    ASSUMPTIONS = ['rows that depend on a magnitude within 1e-9 of a bin edge '
                   '(but not on it) or on a test value within 1e-7 of the '
                   'sensitivity are left undecided, with those after them',
                   'the time window is not longer than the catalogue']

    def setup(self, env):
        import numpy
        from mtoolkit.scientific import completeness
        self.np, self.mod = numpy, completeness

    LARGE = 1

    def large(self, rng, i):
        case = None
        while case is None or len(case['years']) < 100:
            case = self.gen(rng, 'quick')
        pick = list(range(len(case['years']))) + [
            rng.randrange(len(case['years'])) for _ in range(6000)]
        return dict(case, years=[case['years'][k] for k in pick],
                    mags=[case['mags'][k] for k in pick])

    def gen(self, rng, tier):
        n = rng.choice([2, 5, 20, 60, 150, 400])
        if rng.random() < 0.15:
            n = rng.choice([3, 4, 100, 256, 700])
        span = rng.choice([3, 10, 40, 120])
        if rng.random() < 0.08:
            span = rng.choice([1, 2, 4, 25])
        y0 = rng.choice([1850, 1900, 1950, -40])
        long_ago = rng.random() < 0.04
        if long_ago:
            n, span, y0 = min(n, 60), 1700, 300
        style = rng.choice(['grid', 'off', 'fine', 'steps'])
        dm = rng.choice([0.1, 0.2, 0.3, 0.5, 1.0, 0.25])
        if style == 'grid':
            dm = rng.choice([0.5, 1.0, 0.25])
        years, mags = [], []
        since = {}
        base = rng.choice([3.0, 3.5, 4.0, 3.0, 3.5, 4.0, -0.7, -1.5])
        top = rng.choice([8.9, 8.9, 8.9, 10.3, 9.6, base + 0.6])
        if top > 9:
            base += rng.choice([0., 3.])
        if style == 'fine' and rng.random() < 0.5:
            dm = rng.choice([0.05, 0.15, 1.5, 2.5, 0.7])
        for _ in range(n):
            if style == 'grid':
                m = base + 0.25 * int(rng.expovariate(0.6))
            elif style == 'off':
                m = base + 0.05 + round(rng.expovariate(1.5), 1)
            elif style == 'fine':
                m = base + round(rng.expovariate(1.5), 4)
            else:
                m = base + 0.55 + 0.5 * int(rng.expovariate(1.))
            m = min(m, top)
            start = since.setdefault(int(m * 2), rng.choice(
                [0, 0, rng.randint(0, span), int(span * 0.7)]))
            y = y0 + max(start, int(span * rng.random() ** rng.choice(
                [1, 0.5, 1, 0.3])))
            years.append(float(y))
            mags.append(round(m, 6))
        if rng.random() < 0.05:
            # many narrow bins, the largest event on the last edge
            dm = rng.choice([0.05, 0.02, 0.1])
            mags = [round(m, 1) for m in mags]
            if rng.random() < 0.4:
                # numbers without rounding
                dm = rng.choice([0.0625, 0.125])
                mags = [min(round(2 * m) / 2., 9.) for m in mags]
                mags[0] = min(mags) + rng.choice([4., 5.])
            elif rng.random() < 0.7:
                mags[0] = round(min(mags) + rng.choice([3.1, 3.5, 4.0]), 1)
        k = rng.randrange(n)
        years[k] = float(y0)
        years[(k + 1) % n] = float(y0 + span)
        if len(set(mags)) == 1 and abs(mags[0] * 10 % 1 - 0.5) > 0.3:
            mags[0] = round(mags[0] + 1.0, 6)
        order = rng.random()
        if order < 0.3:
            k = rng.choice([0, 1])
            rows = sorted(zip(years, mags), key=lambda r: r[k],
                          reverse=rng.random() < 0.3)
            years, mags = [r[0] for r in rows], [r[1] for r in rows]
        return {'years': years, 'mags': mags, 'dm': dm,
                'dt': rng.choice([20, 10, 50.]) if long_ago else rng.choice(
                    [1, 1, 2, 3, 5, 10, 1.0, 5.0] if rng.random() < 0.85
                    else [0.5, 2.5, 7.5, 25, 1.25]),
                'ttol': rng.choice([0.01, 0.1, 0.2, 0.5, 1.0,
                                    rng.choice([0., 0.2, 2., 8., 0.001]),
                                    round(rng.uniform(0.01, 1), 3)]),
                'lock': rng.random() < 0.6,
                'via': rng.choice(['function', 'keywords', 'job'])}

    def call(self, case):
        np = self.np
        years, mags = np.array(case['years']), np.array(case['mags'])
        if case['via'] == 'function':
            return must(self.mod.stepp_analysis, years, mags, case['dm'],
                        case['dt'], case['ttol'], case['lock'])
        if case['via'] == 'keywords':
            kw = {}
            for name, field, default in (
                    ('dm', 'dm', 0.1), ('dt', 'dt', 1), ('ttol', 'ttol', 0.2),
                    ('iloc', 'lock', True)):
                if case[field] != default:
                    kw[name] = case[field]
            return must(self.mod.stepp_analysis, years, mags, **kw)
        from mtoolkit import jobs, workflow
        ctx = workflow.Context()
        ctx.config = {'Stepp': {
            'magnitude_windows': case['dm'], 'time_window': case['dt'],
            'sensitivity': case['ttol'], 'increment_lock': case['lock']}}
        n = len(years)
        ctx.working_catalog = np.column_stack([
            years, np.full(n, 7.), np.full(n, 11.), np.full(n, 50.),
            np.full(n, -3.), mags, np.full(n, .25)])
        # the job analyses the working catalogue, not the full one
        ctx.catalog_matrix = np.vstack([
            ctx.working_catalog, [[1700., 1., 1., 0., 0., 9.5, 0.]]])
        keep = ctx.working_catalog.copy()
        must(jobs.stepp, ctx)
        need(np.array_equal(keep, ctx.working_catalog),
             'the job changed the working catalogue')
        return ctx.completeness_table

    def run(self, case, obs):
        np = self.np
        if case['dt'] > max(case['years']) - min(case['years']):
            return
        want, windows = model(np, case['years'], case['mags'], case['dm'],
                              case['dt'], case['ttol'], case['lock'])
        got = self.call(case)
        need(np.shape(got) == (len(want), 2), 'table of shape %r for %d bins'
             % (np.shape(got), len(want)))
        end = max(case['years'])
        seen = []
        for k, (year, mag) in enumerate(want):
            y, m = float(got[k, 0]), float(got[k, 1])
            need(abs(m - mag) < 1e-9, 'row %d is for magnitude %r, not %r' % (
                k, m, mag))
            need(any(abs(y - (end - w)) < 1e-9 for w in windows),
                 'year %r is not at the start of a time window' % y)
            if case['lock'] and k:
                need(y <= seen[-1], 'with the lock, row %d is complete from '
                     '%r, later than the smaller magnitude before it (%r)' % (
                         k, y, seen[-1]))
            seen.append(y)
            if year is None:
                obs.count('rows_undecided')
                continue
            need(abs(y - year) < 1e-9, 'magnitude %r is complete from %r '
                 'instead of %r' % (mag, y, year))
            obs.count('rows_compared')
        obs.count('locked' if case['lock'] else 'unlocked')
        free, _ = model(np, case['years'], case['mags'], case['dm'],
                        case['dt'], case['ttol'], not case['lock'])
        if case['lock'] and [r for r in free] != [r for r in want]:
            obs.count('lock_acted')
        obs.count('kept_previous', sum(
            1 for a, b in zip(seen, seen[1:]) if a == b))
        if len(set(seen)) > 1:
            obs.mark()


CHECK = C12()
