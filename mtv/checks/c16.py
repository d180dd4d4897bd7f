"""Maximum likelihood (Aki, Bender) recurrence over completeness periods."""
import math

from mtv import seis
from mtv.checks.c15 import events, order, scene, table, vary
from mtv.core import Check, attempt, must, need


class C16(Check):
    ID = 'C16'
    RULE = ('random catalogues of 1-300 events and completeness tables of '
            '1-10 rows in any order, some sharing a year; magnitude bins 0.1-1, reference '
            'magnitudes 0 and others; through the function and the job; '
            'compared with an executable model; non-trivial when two or more '
            'completeness periods were averaged')
    QUICK = 32000
    THOROUGH = 120000
    MIN = {'compared': 400, 'several_periods': 100, 'shared_years': 50, 'shared_apart': 20,
           'refused': 10}
    ANCHORS = ('mtoolkit/scientific/recurrence.py',)
    ASSUMPTIONS = ['cases with a magnitude within 1e-9 of a bin edge but not '
                   'on it, or a completeness magnitude as close to a bin '
                   'centre, are left undecided']

    def setup(self, env):
        import numpy
        from mtoolkit.scientific import recurrence
        self.np, self.mod = numpy, recurrence

    LARGE = 2

    def large(self, rng, i):
        case = None
        while case is None or len(case['years']) < 80 or min(case['mags']) < 2:
            case = self.gen(rng, 'quick')
        n = (5000, 45000)[i]
        pick = [rng.randrange(len(case['years'])) for _ in range(n)]
        return dict(case, years=[case['years'][k] for k in pick],
                    mags=[case['mags'][k] for k in pick])

    def gen(self, rng, tier):
        style = rng.choice(['grid', 'free', 'free', 'tenth'])
        dm = rng.choice([0.5, 0.25, 1.0]) if style == 'grid' else rng.choice(
            [0.1, 0.2, 0.3, 0.5, 0.25])
        base, y0, y1, n = scene(rng)
        years, mags = events(rng, y0, y1, base, n, style,
                             0.5 if dm == 1.0 else dm)
        if rng.random() < 0.15:
            years, mags = order(rng, years, mags)
        rows = vary(rng, table(rng, dm, base + rng.choice(
            [0, 0, -0.5, 0.5]), y0, y1))
        if style == 'free' and rng.random() < 0.5:
            off = rng.choice([0.033, 0.033, 0.03337, 0.03296])
            rows = [[r[0], round(r[1] + off, 6)] for r in rows]
        elif rng.random() < 0.3:
            # close to the middle of a bin, on either side
            off = [rng.choice([-.006, -.004, -.001, .001, .004, .006])
                   for _ in rows]
            rows = [[r[0], round(r[1] + dm / 2 + o, 6)]
                    for r, o in zip(rows, off)]
        return {'years': years, 'mags': mags, 'dm': dm, 'table': rows,
                'ref': rng.choice([0., 0, base, 5.0, 2.0, 1.1]),
                'via': rng.choice(['function', 'job', 'analysis'])}

    def run(self, case, obs):
        np = self.np
        years, mags = np.array(case['years']), np.array(case['mags'])
        tab = np.array(case['table'])
        dm, ref = case['dm'], case['ref']
        want, doubtful = seis.mle(np, case['years'], case['mags'],
                                  case['table'], dm, ref)
        if case['via'] == 'function':
            kw = {} if ref == 0 else {'ref_mag': ref}
            out = attempt(self.mod.b_maxlike_time, years, mags, tab[:, 0],
                          tab[:, 1], dm, **kw)
        elif case['via'] == 'analysis':
            out = attempt(self.mod.recurrence_analysis, years, mags, tab, dm,
                          'MLE', ref, 1.)
        else:
            out = self.job(case)
        need(years.tolist() == case['years'] and
             mags.tolist() == case['mags'] and tab.tolist() == case['table'],
             'an input was changed')
        if doubtful:
            obs.count('doubtful')
            return
        if want is None:
            need(out.exc is not None or not all(
                math.isfinite(float(v)) for v in out.value[:1]),
                'a result %r from a period without events' % (out.value,))
            obs.count('refused')
            return
        if case['via'] == 'job' and not (
                math.isfinite(want[0]) and math.isfinite(want[2])):
            need(out.exc is not None, 'the source took %r' % (out.value,))
            return
        need(out.exc is None, 'no result: %r\n%s' % (out.exc, out.tb))
        got = [float(v) for v in out.value]
        for name, a, b in zip(('b', 'sigma b', 'a', 'sigma a'), got, want):
            need(seis.close(a, b, 1e-7), '%s is %r instead of %r' % (
                name, a, b))
        obs.count('compared')
        n = len(set(r[0] for r in case['table']))
        obs.count('shared_years', n < len(case['table']))
        ys = [r[0] for r in case['table']]
        obs.count('shared_apart', any(
            y in ys[:k] and y != ys[k - 1] for k, y in enumerate(ys)))
        if n > 1:
            obs.count('several_periods')
            obs.mark()

    def job(self, case):
        from mtoolkit import jobs, workflow
        from mtoolkit.source_model import default_area_source
        np = self.np
        n = len(case['years'])
        ctx = workflow.Context()
        ctx.config = {'Recurrence': {
            'magnitude_window': case['dm'], 'time_window': 1.0,
            'recurrence_algorithm': 'MLE',
            'reference_magnitude': case['ref']}}
        ctx.current_filtered_eq = np.column_stack([
            case['years'], np.full(n, 7.), np.full(n, 11.), np.full(n, 50.),
            np.full(n, -3.), case['mags'], np.full(n, .25)])
        ctx.completeness_table = np.array(case['table'])
        ctx.cur_sm = default_area_source()
        before = ctx.cur_sm.rupture_rate_model.truncated_gutenberg_richter
        must(jobs.recurrence, ctx)
        t = ctx.cur_sm.rupture_rate_model.truncated_gutenberg_richter
        out = attempt(lambda: None)
        if t == before:
            out.exc = ValueError('values kept')
            return out
        need(t.min_magnitude == case['ref'], 'minimum magnitude %r instead of '
             'the reference %r' % (t.min_magnitude, case['ref']))
        out.value = (t.b_value, ctx.cur_sm.recurrence_sigb, t.a_value,
                     ctx.cur_sm.recurrence_siga_m)
        return out


CHECK = C16()
