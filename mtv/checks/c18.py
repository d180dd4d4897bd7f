"""Kijko non-parametric Gaussian maximum magnitude."""
import math

from mtv import seis
from mtv.core import Check, attempt, need, must

KNOWN = 'gaussian-below-minus-five'


class C18(Check):
    ID = 'C18'
    RULE = ('random samples of 3-150 magnitudes with uncertainties, 1-100 '
            'largest events, 5-60 integration points, tolerances 1e-6-0.1, '
            'caps 0-1000, an observed maximum given or not; compared with an '
            'executable model of the estimator, and its building blocks with '
            'theirs; non-trivial when the estimate was compared')
    QUICK = 4000
    THOROUGH = 30000
    WORKERS = 8
    MIN = {'compared': 100, 'capped': 10, 'largest_only': 50,
           'observed_given': 30, 'job': 50, 'cdf_values': 5000,
           'as_is': 20}
    MAX_STEPS = 20000000
    ANCHORS = ('mtoolkit/scientific/maximum_magnitude.py',)
    ASSUMPTIONS = ['where the known wrong tail of the cumulative normal '
                   'distribution matters, the estimate is compared with that '
                   'tail put right by a wrapper around the function',
                   'samples whose rounded smoothing factor is zero are left '
                   'out: the estimator is not defined for them',
                   'results are compared to 1e-6 relative']

    def setup(self, env):
        import numpy
        from mtoolkit.scientific import maximum_magnitude
        self.np, self.mod = numpy, maximum_magnitude

    def gen(self, rng, tier):
        n = rng.choice([3, 5, 12, 40, 100, 150])
        if rng.random() < 0.05:
            n = rng.choice([2, 4, 130, 260, 400])
        style = rng.choice(['exp', 'uniform', 'uniform', 'cluster', 'grid'])
        base = rng.choice([4.0, 5.5])
        wide, odd = 1., rng.random()
        if odd < 0.06:
            base = rng.choice([-1.0, 0.5, 7.5, -3.5])
        elif odd < 0.1:
            wide = rng.choice([3., 5.])
        mags = []
        for _ in range(n):
            if style == 'uniform':
                m = base + rng.uniform(0, 2) * wide
            elif style == 'cluster':
                m = base + rng.choice([rng.gauss(0.5, .1), rng.gauss(1.5, .3)]) * wide
            else:
                m = base + min(3., rng.expovariate(1.8))
            mags.append(round(m, 1 if style == 'grid' else 3))
        if odd > 0.96:
            mags.sort(reverse=odd > 0.98)
        elif odd > 0.92:
            mags = [round(m, 2 if odd > 0.94 else 0) for m in mags]
        k = mags.index(max(mags))
        sig = [rng.choice([0., 0.1, round(rng.uniform(0, .5), 2)])
               for _ in mags]
        if rng.random() < 0.3 and n > 3:
            j = rng.randrange(n)
            if j != k:
                mags[j] = mags[k]
        return {'mags': mags, 'sig': sig,
                'neq': rng.choice([1000, 100, 10, 3, n, n - 1, n + 1]),
                'samples': rng.choice([5, 21, 51, 60]) if n > 99 or
                rng.random() < 0.9 else rng.choice([2, 3, 128, 300]),
                'tol': rng.choice([1e-1, 1e-2, 1e-3, 1e-5, 1e-6, 1e-9, 0]),
                'cap': rng.choice([0, 1, 2, 3, 5, 1000, 1000, 1000]),
                'observed': [round(max(mags) + rng.choice(
                    [0, .1, .5]), 3), round(rng.uniform(0.01, .5), 2)]
                if rng.random() < 0.2 else None,
                'via': rng.choice(['function', 'analysis', 'job']),
                'years': [float(rng.randint(1950, 2000)) for _ in mags]}

    def blocks(self, case, obs):
        """The building blocks."""
        np, mod = self.np, self.mod
        mags = case['mags']
        h, doubt = seis.smoothing(mags)
        got = float(must(mod.h_smooth, np.array(mags)))
        need(doubt or abs(got - h) < 1e-9,
             'smoothing factor %r instead of %r' % (got, h))
        lo, hi, n = min(mags), max(mags) + .1, case['samples']
        pts = [float(v) for v in must(mod.exp_spaced_points, lo, hi, n)]
        want = seis.spaced(lo, hi, n)
        need(len(pts) == n and all(abs(a - b) < 1e-9
                                   for a, b in zip(pts, want)),
             'points %r instead of %r' % (pts, want))
        mean, sd = lo, 0.1 + case['tol']
        xs = [mean + sd * (k / 7. - 9) for k in range(127)]
        ys = [float(v) for v in must(mod.gauss_cdf_hastings, np.array(xs),
                                     mean, sd)]
        for x, y in zip(xs, ys):
            z = (x - mean) / sd
            if abs(abs(z) - 5) < 1e-6:
                continue
            obs.count('cdf_values')
            if abs(y - seis.cdf(z)) < 1e-9:
                continue
            need(z < -5 and y == 1, 'cumulative probability %r at %r standard '
                 'deviations' % (y, z))
            obs.known('cumulative probability %r at %r standard deviations' % (
                y, z), KNOWN)

    def estimate(self, case):
        """(outcome, observed maximum that was given)"""
        np = self.np
        mags, sig = np.array(case['mags']), np.array(case['sig'])
        via, observed = case['via'], case['observed']
        if via == 'function':
            out = attempt(self.mod.kijko_nonparametric_gauss, mags, sig,
                          case['neq'], case['samples'], case['tol'],
                          case['cap'], tuple(observed) if observed else False)
        elif via == 'analysis':
            observed = None
            out = attempt(self.mod.maximum_magnitude_analysis,
                          np.array(case['years']), mags, sig, 'Kijko_Npg',
                          case['tol'], case['cap'], case['neq'],
                          case['samples'], 100)
        else:
            observed = None
            out = self.job(case)
        need(mags.tolist() == case['mags'] and sig.tolist() == case['sig'],
             'an input was changed')
        return out, observed

    def corrected(self, case):
        """The estimate with the known wrong tail put right, and whether
        that took effect."""
        mod, np = self.mod, self.np
        real = mod.gauss_cdf_hastings
        calls = []

        def wrapper(xval, barx=0.0, sigx=1.0):
            calls.append(1)
            out = real(xval, barx, sigx)
            out[(xval - barx) / sigx < -5.] = 0.
            return out
        mod.gauss_cdf_hastings = wrapper
        try:
            return self.estimate(case) + (bool(calls),)
        finally:
            mod.gauss_cdf_hastings = real

    def run(self, case, obs):
        self.blocks(case, obs)
        use = sorted(case['mags'])[-int(case['neq']):]
        h, _ = seis.smoothing(use)
        if h == 0:
            obs.count('undefined')
            return
        observed = case['observed'] if case['via'] == 'function' else None
        good, doubtful = seis.kijko(case['mags'], case['sig'], case['neq'],
                                    case['samples'], case['tol'], case['cap'],
                                    observed)
        if doubtful or good is None:
            obs.count('doubtful')
            return
        # far enough that some term is more than five deviations below
        tail = (use[-1] - use[0]) / h > 4.999
        if tail:
            out, observed, effect = self.corrected(case)
            obs.count('corrected_tail', effect)
            if not effect:
                obs.count('correction_without_effect')
                return
        else:
            out, observed = self.estimate(case)
            obs.count('as_is')
        obs.count('job', case['via'] == 'job')
        obs.count('observed_given', bool(observed))
        need(out.exc is None, 'no estimate: %r\n%s' % (out.exc, out.tb))
        mmax, msig = [float(v) for v in out.value]
        need(any(seis.close(mmax, r[0], 1e-6) and
                 seis.close(msig, r[1], 1e-6) for r in good),
             'estimate %r, %r instead of %r' % (mmax, msig, good))
        top = observed[0] if observed else max(case['mags'])
        need(mmax >= top - 1e-12, 'estimate %r below the largest event %r' % (
            mmax, top))
        obs.count('compared')
        obs.count('capped', good[-1][2] > case['cap'])
        obs.count('largest_only', len(case['mags']) > case['neq'])
        obs.mark()
        if tail and case['cap'] <= 5:
            out, _ = self.estimate(case)
            if out.exc is None and not any(
                    seis.close(float(out.value[0]), r[0], 1e-6)
                    for r in good):
                obs.known('estimate %r instead of %r' % (
                    out.value, good), KNOWN)

    def job(self, case):
        from mtoolkit import jobs, workflow
        from mtoolkit.source_model import default_area_source
        np = self.np
        n = len(case['mags'])
        ctx = workflow.Context()
        ctx.config = {'MaximumMagnitude': {
            'maxim_mag_algorithm': 'Kijko_Npg',
            'iteration_tolerance': case['tol'],
            'maximum_iterations': case['cap'], 'neq': case['neq'],
            'number_samples': case['samples'], 'number_bootstraps': 7}}
        ctx.current_filtered_eq = np.column_stack([
            case['years'], np.full(n, 7.), np.full(n, 11.), np.full(n, 50.),
            np.full(n, -3.), case['mags'], case['sig']])
        ctx.cur_sm = default_area_source()
        before = ctx.cur_sm.rupture_rate_model
        ctx.cur_sm.max_mag_sigma = None
        must(jobs.maximum_magnitude, ctx)
        after = ctx.cur_sm.rupture_rate_model
        out = attempt(lambda: None)
        if ctx.cur_sm.max_mag_sigma is None:
            need(after == before, 'a source without estimate was changed')
            out.exc = ValueError('values kept')
            return out
        t = after.truncated_gutenberg_richter
        b = before.truncated_gutenberg_richter
        need(t._replace(max_magnitude=b.max_magnitude) == b and
             after[1:] == before[1:], 'other values of the source changed')
        out.value = (t.max_magnitude, ctx.cur_sm.max_mag_sigma)
        return out


CHECK = C18()
