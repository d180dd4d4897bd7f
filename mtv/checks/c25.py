"""Magnitude frequency distribution of a fault."""
import math

from mtv import ref
from mtv.core import Check, attempt, must, need


REGIONS = {'Active Shallow Crust': (30., 1.25e-5),
           'Subduction Interface': (49., 1.25e-5),
           'Subction Intraslab': (49., 1.25e-5),
           'Stable Continental': (29., 1e-4), 'Volcanic': (29., 1.25e-5)}


class C25(Check):
    ID = 'C25'
    RULE = ('random faults, slip rates, aseismic shares, b values, magnitude '
            'ranges and bin widths in and on their limits, with the maximum '
            'magnitude given or from the scaling relation; compared with the '
            'Anderson-Luco formula bin by bin; non-trivial when the '
            'distribution was compared')
    QUICK = 80000
    THOROUGH = 300000
    MIN = {'compared': 500, 'refused': 100, 'scaled_maximum': 100,
           'bins': 5000}
    ANCHORS = ('mtoolkit/scientific/fault_calculator.py',)
    ASSUMPTIONS = ['the Wells-Coppersmith relation comes from a stand-in for '
                   'the nhlib library, which is not installed']

    def setup(self, env):
        from mtoolkit.scientific import fault_calculator
        from mtoolkit.geo import simple_fault, tectonic_region
        import nhlib.scalerel.wc1994 as wc
        self.mod, self.wc = fault_calculator, wc
        self.geo, self.tec = simple_fault, tectonic_region

    LARGE = 2

    def large(self, rng, i):
        case = None
        while case is None or not (case['slip'] > 0 and 0 <= case[
                'aseismic'] < 1 and case['mmax'] and
                case['mmax'] > case['mmin'] + 2):
            case = self.gen(rng, 'quick')
        return dict(case, width=(0.01, 0.0031)[i])

    def gen(self, rng, tier):
        lon, lat = rng.uniform(-170, 170), rng.uniform(-60, 60)
        trace = [[lon, lat]]
        for _ in range(rng.randint(1, 4)):
            trace.append([trace[-1][0] + rng.uniform(0, 1),
                          trace[-1][1] + rng.uniform(-.5, .5)])
        upper = rng.choice([0., rng.uniform(0, 10)])
        mmin = rng.choice([4.0, 5.0, 5.5, rng.uniform(3, 6)])
        given = rng.random() < 0.6
        return {
            'trace': trace, 'upper': upper,
            'lower': upper + rng.uniform(1, 20), 'dip': rng.uniform(10, 90),
            'slip': rng.choice([1., 10., rng.uniform(.01, 40), 0, 0., -1.,
                                1e-4, 1e-3, float('nan')])
            if rng.random() < 0.3 else rng.uniform(.01, 40),
            'aseismic': rng.choice([0., 0, 0.5, 0.999, 1.0, 1, -0.1, 1.5, float('nan')])
            if rng.random() < 0.3 else rng.random() * .99,
            'region': rng.choice(sorted(REGIONS)),
            'own': rng.choice([None, None, None, [
                [rng.uniform(1, 60), 30.], [rng.uniform(1e-6, 1e-3), 1e-5]]]),
            'b': rng.choice([1., 0.8, rng.uniform(.3, 1.4)]),
            'mmin': mmin,
            'width': rng.choice([0.1, 0.2, 0.25, 0.5, rng.uniform(.05, .5)]),
            'mmax': mmin + rng.choice([0., .05, 2., -.3, -.05,
                                      rng.uniform(0, 4), rng.uniform(3, 6)])
            if given else None,
            'rake': rng.choice([None, 0., 90., -90., 180.]) if not given
            else None,
            'scaling': rng.choice([None, [16.05, 1.5], [16., 1.6]]),
        }

    def run(self, case, obs):
        geo = must(self.geo.SimpleFaultGeo, [tuple(p) for p in case['trace']],
                   case['upper'], case['lower'], case['dip'])
        region = must(self.tec.TectonicRegionBuilder.create_tect_region_by_name,
                      case['region'], **dict(zip(('smod', 'dlr'), [
                          {'value': v, 'weight': [.25, .75]}
                          for v in case['own']])) if case['own'] else {})
        kw = {}
        if case['mmax'] is not None:
            kw['max_mag'] = case['mmax']
        elif case['rake'] is not None:
            kw['rake'] = case['rake']
        if case['scaling']:
            kw['moment_scaling'] = tuple(case['scaling'])
        out = attempt(self.mod.get_mfd, case['slip'], case['aseismic'],
                      region, geo, case['b'], case['mmin'], case['width'],
                      **kw)
        if not case['slip'] > 0 or not 0 <= case['aseismic'] < 1:
            need(isinstance(out.exc, (AssertionError, ValueError)),
                 'slip %r, aseismic share %r: %r' % (
                     case['slip'], case['aseismic'], out.exc))
            obs.count('refused')
            return
        need(out.exc is None, 'no result: %r\n%s' % (out.exc, out.tb))
        got = [float(v) for v in out.value]
        mmax = case['mmax']
        width = (case['lower'] - case['upper']) / math.sin(
            math.radians(case['dip']))
        if mmax is None:
            length = math.fsum(ref.great_circle(
                a[0], a[1], b[0], b[1], radius=6371.)
                for a, b in zip(case['trace'], case['trace'][1:]))
            mmax = float(self.wc.WC1994().get_median_mag(
                length * width, case['rake']))
            obs.count('scaled_maximum')
        c, d = case['scaling'] or (16.05, 1.5)
        first = [v[0] for v in case['own']] if case['own'] else \
            REGIONS[case['region']]
        beta = math.sqrt(first[1] * 10 ** c / (first[0] * 1e10 * width * 1e5))
        dbar, bbar = d * math.log(10), case['b'] * math.log(10)
        slip = case['slip'] * (1 - case['aseismic'])

        def above(m):
            return ((dbar - bbar) / bbar * slip / 10 / beta *
                    math.exp(bbar * (mmax - m)) * math.exp(-dbar / 2 * mmax))
        w = case['width']
        # values every w from mmin - w/2, below mmax + 1.5 w; the last one
        # closes no bin and the one before only closes
        count = (mmax + 1.5 * w - case['mmin'] + w / 2) / w
        sizes = set([int(math.ceil(count - 1e-6)), int(math.ceil(count + 1e-6))])
        need(len(got) in [max(0, s - 2) for s in sizes],
             '%d bins from %r to %r by %r' % (len(got), case['mmin'], mmax, w))
        for k, v in enumerate(got):
            low = case['mmin'] - w / 2 + k * w
            want = above(low) - above(low + w)
            need(abs(v - want) <= 1e-6 * abs(want), 'bin %d at %r has rate %r '
                 'instead of %r' % (k, low + w / 2, v, want))
        obs.count('bins', len(got))
        obs.count('compared')
        if got:
            obs.mark()


CHECK = C25()
