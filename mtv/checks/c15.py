"""Weichert recurrence."""
import math

from mtv import seis
from mtv.core import Check, attempt, must, need


def table(rng, dm, base, y0, y1):
    rows, m, y = [], base, y1 - rng.randint(2, 20)
    for _ in range(rng.choice([1, 1, 2, 4, 10, 1, 2, 4,
                               rng.choice([3, 15, 35])])):
        rows.append([float(max(y, y0 - 3)), round(m, 6)])
        m += dm * (rng.choice([1, 1, 2, 0.5]) if rng.random() < 0.97 else 0)
        y -= rng.choice([0, 3, 10, 30])
    return rows


def vary(rng, rows):
    """Tables that a monotone analysis would not give."""
    kind = rng.choice(['plain', 'plain', 'plain', 'shuffled', 'years',
                       'backward', rng.choice(['plain', 'half', 'level'])])
    if kind == 'half':
        rows = [[r[0] + rng.choice([0., 0.5]), r[1]] for r in rows]
    elif kind == 'level':
        rows = [[r[0], rows[0][1]] for r in rows]
    if kind == 'shuffled':
        rng.shuffle(rows)
    elif kind == 'years':
        years = [r[0] for r in rows]
        rows = [[rng.choice(years), r[1]] for r in rows]
    elif kind == 'backward':
        rows = rows[::-1]
    return rows


def scene(rng):
    """(smallest magnitude, first year, last year, number of events)"""
    base = rng.choice([3.0, 4.0, 4.5])
    y0 = rng.choice([1900, 1950, 1990])
    y1 = rng.choice([1995, 2008, 2010])
    n = rng.choice([1, 2, 5, 20, 80, 300])
    odd = rng.random()
    if odd < 0.05:
        base = rng.choice([-1.5, -0.5, 0., 1.0, 6.5])
    elif odd < 0.10:
        y0, y1 = rng.choice([(-300, -20), (-40, 60), (800, 1010),
                             (1500, 2010), (0, 90), (-800, 1000),
                             (700, 2005)])
    elif odd < 0.13:
        n = rng.choice([3, 4, 128, 256, 257, 600])
    elif odd < 0.16:
        y0 = y1 - rng.choice([0, 1, 2])
    return base, y0, y1, n


def order(rng, years, mags):
    """Events in some particular order."""
    k = rng.choice([0, 1])
    rows = sorted(zip(years, mags), key=lambda r: r[k],
                  reverse=rng.random() < 0.4)
    return [r[0] for r in rows], [r[1] for r in rows]


def events(rng, y0, y1, base, n, style, step=0.1):
    years, mags = [], []
    wide = 4. if rng.random() < 0.94 else 9.
    rates = [1.2, 2.3] if wide == 4. else [0.3, 0.6]
    for _ in range(n):
        years.append(float(rng.randint(y0, y1)))
        m = base + min(rng.expovariate(rng.choice(rates)), wide)
        if style == 'grid':
            m = base + step * int((m - base) / step)
        elif style == 'tenth':
            m = round(m, 1)
        else:
            m = round(m, 3)
        mags.append(round(m, 6))
    return years, mags


class C15(Check):
    ID = 'C15'
    RULE = ('random catalogues of 1-300 events and completeness tables of '
            '1-10 rows, some with years in any order or above the '
            'smallest events; magnitude bins 0.1-1, time bins 0.5-10 years, '
            'reference magnitudes 0 and others; compared with bin counts '
            'made event by event and with the root of the likelihood found '
            'by bisection; tables without a maximum of the likelihood '
            'included; non-trivial when b and the rate were compared')
    QUICK = 24000
    THOROUGH = 90000
    MIN = {'compared': 500, 'events_incomplete': 200, 'refused': 20,
           'reference_zero': 50, 'job': 100, 'prepared_compared': 500}
    MAX_STEPS = 2000000
    ANCHORS = ('mtoolkit/scientific/recurrence.py',)
    ASSUMPTIONS = ['results are compared to 2e-4 relative, the accuracy the '
                   'stopping rule of the method gives',
                   'cases with a value within 1e-9 of a bin edge but not on '
                   'it are checked for the likelihood only']

    def setup(self, env):
        import numpy
        from mtoolkit.scientific import recurrence
        self.np, self.mod = numpy, recurrence

    LARGE = 2

    def large(self, rng, i):
        case = None
        while case is None or len(case['years']) < 80 or min(case['mags']) < 2:
            case = self.gen(rng, 'quick')
        n = (5000, 45000)[i]
        pick = [rng.randrange(len(case['years'])) for _ in range(n)]
        return dict(case, years=[case['years'][k] for k in pick],
                    mags=[case['mags'][k] for k in pick])

    def fixed(self, tier):
        # the iteration leaves the range of numbers
        mags = [m for m, n in zip(
            [4., 4.5, 5., 5.5, 6., 6.5, 7., 7.5, 8.],
            [2, 4, 2, 1, 2, 2, 0, 0, 3]) for _ in range(n)]
        return [{'years': [2010. - k % 4 for k in range(len(mags))],
                 'mags': mags, 'dm': 0.5, 'dt': 1.0,
                 'table': [[2003., 4.], [2000., 4.5]], 'ref': ref,
                 'via': via} for ref in (0., 5.)
                for via in ('function', 'parts', 'job')]

    def gen(self, rng, tier):
        style = rng.choice(['grid', 'grid', 'tenth', 'free'])
        dm = rng.choice([0.5, 0.25, 1.0]) if style == 'grid' else rng.choice(
            [0.1, 0.2, 0.3, 0.5, 0.25])
        base, y0, y1, n = scene(rng)
        years, mags = events(rng, y0, y1, base, n, style,
                             0.5 if dm == 1.0 else dm)
        if rng.random() < 0.06:
            mags = [mags[0]] * len(mags)
        if rng.random() < 0.15:
            years, mags = order(rng, years, mags)
        rows = table(rng, dm, base + rng.choice(
            [0, 0, 0, 0.5, -0.5, -0.5, 1.0]), y0, y1)
        if rng.random() < 0.2:
            since = [r[0] for r in rows]
            rows = [[rng.choice(since), r[1]] for r in rows]
        if rng.random() < 0.1:
            rows = vary(rng, rows)
        if y1 - y0 > 1200:
            # complete for a very long time
            rows = [[float(y0 - 1 + rng.choice([0, 100])), r[1]]
                    for r in rows]
        return {'years': years, 'mags': mags, 'dm': dm,
                'dt': rng.choice([1.0, 1.0, 1, 0.5, 2.0, 5.0, 10.0]),
                'table': rows,
                'ref': rng.choice([0., 0, base, 5.0, 2.0, 1.1]),
                'via': rng.choice(['function', 'job', 'parts'])}

    def run(self, case, obs):
        np = self.np
        years, mags = np.array(case['years']), np.array(case['mags'])
        tab = np.array(case['table'])
        dm, dt, ref = case['dm'], case['dt'], case['ref']
        cent, per, cnt, doubtful = seis.weichert_bins(
            np, case['years'], case['mags'], case['table'], dm, dt)
        prep = attempt(self.mod.weichert_prep, years, mags, tab[:, 0],
                       tab[:, 1], dm, dt)
        need(prep.exc is None, 'no preparation: %r\n%s' % (prep.exc, prep.tb))
        pc, pp, pn = [[float(v) for v in x] for x in prep.value]
        need(len(pc) == len(pp) == len(pn), 'columns of different length')
        if not doubtful:
            need(len(pc) == len(cent) and all(
                abs(a - b) < 1e-9 for a, b in zip(pc, cent)),
                'bin centres %r instead of %r' % (pc, cent))
            need(pn == cnt, 'counts %r instead of %r' % (pn, cnt))
            need(all(abs(a - b) < 1e-9 for a, b in zip(pp, per)),
                 'periods %r instead of %r' % (pp, per))
            obs.count('events_incomplete', len(mags) - sum(cnt))
            obs.count('prepared_compared')
        else:
            obs.count('prepared_doubtful')
        if case['via'] == 'parts':
            out = attempt(self.mod.weichert, prep.value[1], prep.value[0],
                          prep.value[2], ref)
        elif case['via'] == 'function':
            out = attempt(self.mod.recurrence_analysis, years, mags, tab, dm,
                          'Weichert', ref, dt)
        else:
            out = self.job(case, obs)
        need(years.tolist() == case['years'] and
             mags.tolist() == case['mags'] and tab.tolist() == case['table'],
             'an input was changed')
        few = len(pc) < 2 or sum(pn) == 0
        if out.exc is not None:
            need(isinstance(out.exc, ValueError), 'failed with %r\n%s' % (
                out.exc, out.tb))
            obs.count('refused')
            if few:
                return
            sound = all(p > 0 for p in pp)
            need(not (sound and seis.weichert_ml(pp, pc, pn) is not None and
                      seis.newton_converges(pp, pc, pn)),
                 'refused though the likelihood has a maximum: %r' % out.exc)
            return
        need(not few, 'a result %r out of %r events in %d bins' % (
            out.value, sum(pn), len(pc)))
        got = [float(v) for v in out.value]
        if not all(math.isfinite(v) for v in got) or \
                not all(p > 0 for p in pp):
            need(not (all(p > 0 for p in pp) and
                      seis.weichert_ml(pp, pc, pn) is not None and
                      seis.newton_converges(pp, pc, pn)),
                 'the result %r though the likelihood has a maximum' % (got,))
            obs.count('not_finite_or_no_period')
            return
        beta = seis.weichert_ml(pp, pc, pn)
        need(beta is not None, 'a result %r though the likelihood has no '
             'maximum' % (got,))
        want = seis.weichert_rates(beta, pp, pc, pn, ref)
        for name, a, b in zip(('b', 'sigma b', 'a', 'sigma a'), got, want):
            need(seis.close(a, b, 2e-4) or abs(a - b) < 2e-5 and name == 'b',
                 '%s is %r instead of %r' % (name, a, b))
        obs.count('compared')
        obs.count('reference_zero', ref == 0)
        obs.mark()

    def job(self, case, obs):
        """The job, with the result read from the source."""
        from mtoolkit import jobs, workflow
        from mtoolkit.source_model import default_area_source
        np = self.np
        n = len(case['years'])
        ctx = workflow.Context()
        ctx.config = {'Recurrence': {
            'magnitude_window': case['dm'], 'time_window': case['dt'],
            'recurrence_algorithm': 'Weichert',
            'reference_magnitude': case['ref']}}
        ctx.current_filtered_eq = np.column_stack([
            case['years'], np.full(n, 7.), np.full(n, 11.), np.full(n, 50.),
            np.full(n, -3.), case['mags'], np.full(n, .25)])
        ctx.completeness_table = np.array(case['table'])
        ctx.cur_sm = default_area_source()
        before = ctx.cur_sm.rupture_rate_model.truncated_gutenberg_richter
        must(jobs.recurrence, ctx)
        t = ctx.cur_sm.rupture_rate_model.truncated_gutenberg_richter
        obs.count('job')
        out = attempt(lambda: None)
        if t == before:
            out.exc = ValueError('values kept')
            return out
        need(t.min_magnitude == case['ref'], 'minimum magnitude %r instead of '
             'the reference %r' % (t.min_magnitude, case['ref']))
        out.value = (t.b_value, ctx.cur_sm.recurrence_sigb, t.a_value,
                     ctx.cur_sm.recurrence_siga_m)
        return out


CHECK = C15()
