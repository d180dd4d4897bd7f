"""Cumulative moment maximum magnitude."""
import math

from mtv import seis
from mtv.core import Check, attempt, must, need


class C19(Check):
    ID = 'C19'
    RULE = ('random catalogues of 1-200 events over 1-150 years, with silent '
            'years and unordered events; the estimate compared with an '
            'executable model; the uncertainty compared with the moments of '
            'the same bootstrap drawn by the monitor, and with zero when the '
            'magnitudes are certain; non-trivial when the estimate was '
            'compared on a catalogue with silent years')
    QUICK = 7200
    THOROUGH = 54000
    MIN = {'compared': 500, 'bootstraps_compared': 200, 'certain': 100,
           'job': 100}
    ANCHORS = ('mtoolkit/scientific/maximum_magnitude.py',)
    ASSUMPTIONS = ['the bootstrap draws one standard normal number per event '
                   'and sample, in order, from the seeded numpy generator',
                   'years are whole numbers']

    def setup(self, env):
        import numpy
        from mtoolkit.scientific import maximum_magnitude
        self.np, self.mod = numpy, maximum_magnitude

    LARGE = 2

    def large(self, rng, i):
        case = None
        while case is None or len(case['years']) > 20 or not any(case['sig']) or (
                case['years'] == [case['years'][0]] * len(case['years'])):
            case = self.gen(rng, 'quick')
        return dict(case, nboot=(1200, 4000)[i])

    def gen(self, rng, tier):
        n = rng.choice([1, 2, 5, 20, 80, 200])
        y0 = rng.choice([-20, 1900, 1980])
        span = rng.choice([0, 1, 5, 30, 150])
        base, wide = 4, 5
        odd = rng.random()
        if odd < 0.04:
            y0, span = rng.choice([(-900, 850), (300, 1700), (1400, 600)])
        elif odd < 0.08:
            base, wide = rng.choice([(-2, 9), (0, 3), (3, 7), (-1.5, 1)])
        elif odd < 0.11:
            n = rng.choice([3, 4, 128, 257, 400, 1100])
        years = [float(y0 + rng.randint(0, span)) for _ in range(n)]
        if rng.random() < 0.3:
            years.sort(reverse=rng.random() < 0.3)
        mags = [round(base + min(wide, rng.expovariate(1.5)),
                      rng.choice([2, 2, 2, 4, 1]) if odd < 0.5 else 2)
                for _ in range(n)]
        if rng.random() < 0.05:
            mags = rng.choice([[mags[0]] * n, sorted(mags),
                               [round(m) * 1. for m in mags]])
        kind = rng.choice(['zero', 'some', 'some', 'large'])
        sig = [0. if kind == 'zero' else
               round(rng.uniform(0, .1 if kind == 'some' else
                                 1.2 if odd > 0.97 else .5), 3)
               for _ in range(n)]
        return {'years': years, 'mags': mags, 'sig': sig,
                'nboot': rng.choice([2, 3, 10, 50]) if n > 99 or
                rng.random() < 0.95 else rng.choice([4, 130, 300]),
                'seed': rng.choice([None, 0, 1, rng.randint(0, 10 ** 6),
                                    2 ** 31, 2 ** 32 - 1]),
                'via': rng.choice(['function', 'analysis', 'job']),
                'state': rng.randint(0, 10 ** 6)}

    def run(self, case, obs):
        np = self.np
        years, mags = np.array(case['years']), np.array(case['mags'])
        sig = np.array(case['sig'])
        want, share = seis.cumulative_moment(case['years'], case['mags'])
        got = float(must(self.mod.cumulative_moment, years, mags))
        if share > 1e-6:
            need(seis.close(got, want, 1e-9), 'maximum magnitude %r instead '
                 'of %r' % (got, want))
            obs.count('compared')
            silent = max(years) - min(years) + 1 > len(set(case['years']))
            if silent:
                obs.mark()
        else:
            obs.count('rate_is_constant')
            need(len(set(case['years'])) > 1 or not math.isfinite(got),
                 'an estimate %r out of a single year' % got)
        nboot = case['nboot']
        seed = case['seed'] if case['via'] == 'function' else None
        np.random.seed(case['state'])
        if case['via'] == 'function':
            kw = {} if seed is None else {'seed': seed}
            drawn = np.random.RandomState(case['state'])
            out = attempt(self.mod.cum_mo_uncertainty, years, mags, sig,
                          nboot, **kw)
            if seed is not None:
                need(drawn.random_sample() == np.random.random_sample(),
                     'a seeded estimate drew from the shared generator')
                obs.count('seeded')
        elif case['via'] == 'analysis':
            out = attempt(self.mod.maximum_magnitude_analysis, years, mags,
                          sig, 'Cumulative_Moment', 1e-5, 5, 3, 21, nboot)
        else:
            obs.count('job')
            out = self.job(case)
            if out is None:
                need(share <= 1e-6, 'the source kept its values')
                return
        need(years.tolist() == case['years'] and
             mags.tolist() == case['mags'] and sig.tolist() == case['sig'],
             'an input was changed')
        need(out.exc is None, 'no estimate: %r\n%s' % (out.exc, out.tb))
        mmax, msig = [float(v) for v in out.value]
        gen = np.random.RandomState(case['state'] if seed is None else seed)
        draws = gen.normal(0, 1, nboot * len(mags)).reshape(nboot, len(mags))
        vals = [seis.cumulative_moment(
            case['years'], [m + s * float(d) for m, s, d in zip(
                case['mags'], case['sig'], row)]) for row in draws]
        if min(v[1] for v in vals) <= 1e-6:
            obs.count('rate_is_constant')
            return
        vals = [v[0] for v in vals]
        mean = math.fsum(vals) / nboot
        std = math.sqrt(math.fsum((v - mean) ** 2 for v in vals) /
                        (nboot - 1))
        need(seis.close(mmax, mean, 1e-9), 'mean %r instead of %r' % (
            mmax, mean))
        need(abs(msig - std) < 1e-8 + 1e-6 * std,
             'standard deviation %r instead of %r' % (msig, std))
        if not any(case['sig']):
            need(seis.close(mmax, want, 1e-9) and msig < 1e-7,
                 'certain magnitudes give %r +- %r instead of %r' % (
                     mmax, msig, want))
            obs.count('certain')
        obs.count('bootstraps_compared', nboot)

    def job(self, case):
        from mtoolkit import jobs, workflow
        from mtoolkit.source_model import default_area_source
        np = self.np
        n = len(case['mags'])
        ctx = workflow.Context()
        ctx.config = {'MaximumMagnitude': {
            'maxim_mag_algorithm': 'Cumulative_Moment',
            'iteration_tolerance': 1e-5, 'maximum_iterations': 5, 'neq': 3,
            'number_samples': 21, 'number_bootstraps': case['nboot']}}
        ctx.current_filtered_eq = np.column_stack([
            case['years'], np.full(n, 7.), np.full(n, 11.), np.full(n, 50.),
            np.full(n, -3.), case['mags'], case['sig']])
        ctx.cur_sm = default_area_source()
        ctx.cur_sm.max_mag_sigma = None
        must(jobs.maximum_magnitude, ctx)
        if ctx.cur_sm.max_mag_sigma is None:
            return None
        t = ctx.cur_sm.rupture_rate_model.truncated_gutenberg_richter
        return attempt(lambda: (t.max_magnitude, ctx.cur_sm.max_mag_sigma))


CHECK = C19()
