"""Dates and distances."""
import datetime
import math

from mtv import gen, ref
from mtv.core import Check, must, need


class C08(Check):
    ID = 'C08'
    RULE = ('random vectors of dates (every month, month ends, 29 February, '
            'BCE years) and of points (poles, date line, antipodes, '
            'coincident, metres apart), degrees and radians, vector-vector '
            'and vector-scalar, and random Gregorian instants; all '
            'non-trivial')
    QUICK = 30000
    THOROUGH = 112500
    MIN = {'dates': 1000, 'distances': 1000, 'antipodal': 20, 'julian': 300}
    ANCHORS = ('mtoolkit/scientific/catalogue_utilities.py',)
    ASSUMPTIONS = ['distances are compared within 1e-9 relative plus 1 mm, '
                   'and 1 m near antipodes, where the formula loses digits']

    def setup(self, env):
        import numpy
        from mtoolkit.scientific import catalogue_utilities
        self.np, self.mod = numpy, catalogue_utilities

    def gen(self, rng, tier):
        def date():
            m = rng.randint(1, 12)
            top = 29 if m == 2 else gen.DAYS[m - 1]
            return [rng.choice([rng.randint(1900, 2010),
                                rng.randint(-10000, 2020)]), m,
                    rng.choice([1, top, rng.randint(1, top)])]

        def point():
            k = rng.random()
            if k < 0.1:
                return [rng.choice([0., 180., -180., 77.]),
                        rng.choice([90., -90.])]
            if k < 0.2:
                return [rng.choice([180., -180., 179.999, -179.999]),
                        rng.uniform(-90, 90)]
            return [rng.uniform(-180, 180), rng.uniform(-90, 90)]
        size = rng.random()
        n = rng.choice([150, 400]) if size < 0.02 else rng.randint(1, 12)
        left = [point() for _ in range(n)]
        right = []
        for _ in range(rng.choice([120, 300]) if 0.02 < size < 0.04 else
                       rng.randint(1, 5)):
            k = rng.random()
            p = rng.choice(left)
            if k < 0.2:
                right.append([p[0] - 180. if p[0] > 0 else p[0] + 180., -p[1]])
            elif k < 0.3:
                right.append(list(p))
            elif k < 0.4:
                right.append([p[0], max(-90, p[1] - 1e-5)])
            else:
                right.append(point())
        month = rng.randint(1, 12)
        inst = [rng.choice([rng.randint(1, 3000), 100 * rng.randint(1, 30),
                            rng.randint(-4700, 0)]),
                month, rng.randint(1, gen.DAYS[month - 1]),
                rng.randint(0, 23), rng.randint(0, 59),
                rng.choice([rng.randint(0, 59), round(rng.uniform(0, 59.9),
                                                      rng.choice([1, 3]))])]
        return {'dates': [date() for _ in range(rng.randint(1, 30))],
                'left': left, 'right': right,
                'scalar': rng.random() < 0.4,
                'radians': rng.random() < 0.3,
                'radius': rng.choice([None, None, 6371.0, 1.0]),
                'instant': inst}

    def run(self, case, obs):
        np = self.np
        d = np.array(case['dates'], dtype=float)
        got = must(self.mod.decimal_year, d[:, 0], d[:, 1], d[:, 2])
        need(np.shape(got) == (len(d),), 'shape %r' % (np.shape(got),))
        for row, val in zip(case['dates'], got):
            want = ref.decimal_year(*row)
            need(abs(val - want) <= 1e-9, 'date %r: %r instead of %r' % (
                row, val, want))
            obs.count('dates')
        keys = [(r[0], ref.day_index(r[1], r[2])) for r in case['dates']]
        order = sorted(range(len(keys)), key=lambda i: keys[i])
        for i, j in zip(order, order[1:]):
            need(got[i] < got[j] if keys[i] < keys[j] else got[i] == got[j],
                 'dates %r and %r are out of order' % (
                     case['dates'][i], case['dates'][j]))
        # distances
        a, b = np.array(case['left']), np.array(case['right'])
        if case['scalar']:
            b = b[:1]
        args = (a[:, 0], a[:, 1], b[:, 0], b[:, 1])
        if case['scalar']:
            args = (a[:, 0], a[:, 1], b[0, 0], b[0, 1])
        kw = {}
        if case['radians']:
            args = tuple(np.radians(v) for v in args)
            kw['radians'] = True
        radius = 6371.227
        if case['radius'] is not None:
            kw['earth_rad'] = radius = case['radius']
        dist = must(self.mod.haversine, *args, **kw)
        need(np.shape(dist) == (len(a), len(b)), 'shape %r for %d x %d' % (
            np.shape(dist), len(a), len(b)))
        back = must(self.mod.haversine, b[:, 0] if not case['radians'] else
                    np.radians(b[:, 0]), b[:, 1] if not case['radians'] else
                    np.radians(b[:, 1]), args[0], args[1], **kw)
        if case['scalar']:
            # one location on either side
            one = must(self.mod.haversine, *[float(v[0]) for v in args[:2]] +
                       [float(v) for v in args[2:]], **kw)
            need(np.shape(one) == (1, 1) and abs(one[0, 0] - dist[0, 0]) <=
                 1e-9 * (dist[0, 0] + radius),
                 'distance of two single points %r instead of %r' % (
                     one, dist[0, 0]))
            obs.count('single_points')
        for i, p in enumerate(a):
            for j, q in enumerate(b):
                want = ref.great_circle(p[0], p[1], q[0], q[1], radius)
                half = math.pi * radius
                tol = 1e-9 * want + 1e-6 * radius / 6371.
                if want > 0.999 * half:
                    tol = 1e-3 * radius / 6371.
                    obs.count('antipodal')
                need(abs(dist[i, j] - want) <= tol,
                     'distance %r - %r: %r instead of %r' % (
                         list(p), list(q), dist[i, j], want))
                need(abs(dist[i, j] - back[j, i]) <= tol, 'not symmetric')
                obs.count('distances')
        # julian days
        y, mo, dd, h, mi, s = case['instant']
        # the calendar repeats every 400 years of 146097 days
        past = 0 if y > 0 else -y // 400 + 1
        day = datetime.date(y + 400 * past, mo, dd).toordinal()
        want = day - 146097 * past + 1721424.5 + (h + mi / 60. + s / 3600.) / 24.
        val = float(must(self.mod.greg2julian, *[float(v)
                                                 for v in case['instant']]))
        need(abs(val - want) < 2e-9, 'julian day of %r: %r instead of %r' % (
            case['instant'], val, want))
        obs.count('julian')
        obs.count('julian_before_year_one', y < 1)
        obs.mark()


CHECK = C08()
