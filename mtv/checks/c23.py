"""Simple fault geometry."""
import math

from mtv import ref
from mtv.core import Check, attempt, must, need

RADIUS = 6371.0


def bad(case):
    """The geometry breaks a rule."""
    if len(case['trace']) < 2:
        return True
    for lon, lat in case['trace']:
        if not (-180 <= lon <= 180 and -90 <= lat <= 90):
            return True
    return not (case['upper'] >= 0 and case['lower'] > 0 and
                case['lower'] > case['upper'] and 0 < case['dip'] <= 90)


class C23(Check):
    ID = 'C23'
    RULE = ('random traces of 0-20 points (any order, repeated, across the '
            'date line, antipodal, at the poles) with depths and dips in, on '
            'and beyond their limits; length compared with the angles between '
            'position vectors; non-trivial when the geometry is refused or '
            'has three or more points')
    QUICK = 100000
    THOROUGH = 375000
    MIN = {'refused': 500, 'measured': 500, 'limits_accepted': 100}
    ANCHORS = ('mtoolkit/geo/simple_fault.py',)

    def setup(self, env):
        from mtoolkit.geo import simple_fault
        self.mod = simple_fault

    def gen(self, rng, tier):
        n = rng.choice([2, 2, 3, 5, 20])
        style = rng.choice(['local', 'local', 'globe', 'edge'])
        lon, lat = rng.uniform(-179, 179), rng.uniform(-85, 85)
        trace = []
        for _ in range(n):
            if style == 'globe':
                p = (rng.uniform(-180, 180), rng.uniform(-90, 90))
            elif style == 'edge':
                p = (rng.choice([-180, 180, 0, 179.999, lon]),
                     rng.choice([-90, 90, 0, 89.9999, lat]))
            else:
                p = (lon + rng.uniform(-.5, .5), lat + rng.uniform(-.5, .5))
            trace.append([p[0], p[1]])
        if rng.random() < 0.15:
            trace.append(list(trace[-1]))
        if rng.random() < 0.1:
            a = trace[0]
            trace.insert(1, [a[0] - 180 if a[0] > 0 else a[0] + 180, -a[1]])
        upper = rng.choice([0, 0., rng.uniform(0, 20)])
        lower = upper + rng.choice([1e-6, 1, rng.uniform(0.1, 50)])
        dip = rng.choice([90, 90., 1e-3, 45, rng.uniform(0.1, 90)])
        k = rng.random()
        if k < 0.3:
            what = rng.randrange(10)
            nan = float('nan')
            eps = rng.choice([1e-9, 1e-3, 1, 500])
            i = rng.randrange(len(trace))
            if what == 0:
                trace = trace[:rng.choice([0, 1])]
            elif what == 1:
                trace[i][0] = rng.choice([-1, 1]) * (180 + eps)
            elif what == 2:
                trace[i][1] = rng.choice([-1, 1]) * (90 + eps)
            elif what == 3:
                upper = -eps
            elif what == 4:
                lower = upper
            elif what == 5:
                lower = upper - eps
            elif what == 6:
                dip = rng.choice([0, 0., -eps])
            elif what == 7:
                dip = 90 + eps
            elif what == 8:
                upper, lower = 0., 0.
            else:
                which = rng.randrange(5)
                if which < 2:
                    trace[i][which] = nan
                upper, lower, dip = [nan if k == which - 2 else v for k, v in
                                     enumerate((upper, lower, dip))]
        return {'trace': trace, 'upper': upper, 'lower': lower, 'dip': dip,
                'shape': rng.choice([0, 0, 0, 1, 2])}

    def run(self, case, obs):
        shape = case.get('shape', 0)
        trace = [tuple(p) for p in case['trace']]
        if shape == 1:
            trace = [list(p) for p in trace]
        elif shape == 2:
            trace = tuple(trace)
        out = attempt(self.mod.SimpleFaultGeo, trace, case['upper'],
                      case['lower'], case['dip'])
        if bad(case):
            need(isinstance(out.exc, ValueError),
                 'invalid geometry accepted, or %r' % (out.exc,))
            obs.count('refused')
            obs.mark()
            return
        need(out.exc is None, 'valid geometry refused: %r' % (out.exc,))
        geo = out.value
        want = math.fsum(ref.great_circle(*a, *b, radius=RADIUS)
                         for a, b in zip(trace, trace[1:]))
        got = float(must(geo.get_length))
        need(abs(got - want) <= 1e-3 + 1e-9 * want, 'length %r instead of %r'
             % (got, want))
        width = float(must(geo.get_width))
        wwant = (case['lower'] - case['upper']) / math.sin(
            math.radians(case['dip']))
        need(abs(width - wwant) <= 1e-9 * wwant, 'width %r instead of %r' % (
            width, wwant))
        area = float(must(geo.get_area))
        need(abs(area - got * width) <= 1e-9 * max(1, area),
             'area %r of %r x %r' % (area, got, width))
        back = must(self.mod.SimpleFaultGeo, trace[::-1], case['upper'],
                    case['lower'], case['dip'])
        need(abs(float(must(back.get_length)) - got) <= 1e-6 + 1e-9 * got,
             'length depends on the direction of the trace')
        need(float(must(geo.get_length)) == got, 'length changes')
        # another fault over points of this one
        part = trace[:max(2, len(trace) // 2)]
        other = must(self.mod.SimpleFaultGeo, part, case['upper'],
                     case['lower'], case['dip'])
        have = float(must(other.get_length))
        want = math.fsum(ref.great_circle(*a, *b, radius=RADIUS)
                         for a, b in zip(part, part[1:]))
        need(abs(have - want) <= 1e-3 + 1e-9 * want, 'length %r instead of %r'
             ' for a part of the trace' % (have, want))
        need(float(must(geo.get_length)) == got and
             float(must(geo.get_area)) == area, 'another fault changes it')
        need([tuple(p) for p in trace] == [tuple(p) for p in case['trace']],
             'trace changed')
        obs.count('measured')
        obs.count('limits_accepted', case['dip'] == 90 or case['upper'] == 0)
        if len(trace) > 2:
            obs.mark()


CHECK = C23()
