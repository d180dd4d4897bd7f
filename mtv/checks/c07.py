"""The geographic filter gives each source exactly the events inside it."""
from mtv import gen, ref
from mtv.core import Check, attempt, must, need


def points(rng, pts, n):
    """Points aimed at the polygon: corners, edges, near misses, around."""
    out = []
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    x0, x1, y0, y1 = min(xs), max(xs), min(ys), max(ys)
    w, h = x1 - x0, y1 - y0
    for _ in range(n):
        k = rng.random()
        i = rng.randrange(len(pts))
        a, b = pts[i], pts[(i + 1) % len(pts)]
        t = rng.choice([0.25, 0.5, 0.75, rng.random()])
        on = (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
        if k < 0.1:
            p = a
        elif k < 0.3:
            p = on
        elif k < 0.4:
            e = rng.choice([1e-12, 1e-9, 1e-6, 1e-3])
            p = (on[0] + rng.choice([-e, 0, e]), on[1] + rng.choice([-e, 0, e]))
        elif k < 0.5:
            p = (a[0], rng.uniform(y0 - h, y1 + h))
        elif k < 0.6:
            p = (rng.uniform(x0 - w, x1 + w), a[1])
        elif k < 0.65:
            p = on[1], on[0]
        else:
            p = (rng.uniform(x0 - w / 4, x1 + w / 4),
                 rng.uniform(y0 - h / 4, y1 + h / 4))
        out.append((float(p[0]), float(p[1])))
    return out


def bowtie(rng):
    cx, cy = rng.uniform(-100, 100), rng.uniform(-50, 50)
    s = rng.uniform(0.5, 5)
    pts = [(cx, cy), (cx + s, cy + s), (cx + s, cy), (cx, cy + s)]
    if rng.random() < 0.5:
        pts = [(cx, cy), (cx + s, cy), (cx + s, cy + s), (cx + s / 2, cy - s),
               (cx, cy + s)]
    k = rng.randrange(len(pts))
    pts = pts[k:] + pts[:k]
    if rng.random() < 0.5:
        pts.append(pts[0])
    return [(float(x), float(y)) for x, y in pts]


def world(rng):
    """A zone of more than half the earth."""
    w, e = rng.uniform(-180, -100), rng.uniform(100, 180)
    s, n = rng.uniform(-90, -10), rng.uniform(10, 90)
    return rng.choice([
        [(-180., -90.), (180., -90.), (180., 90.), (-180., 90.)],
        [(w, s), (e, s), (e, n), (w, n), (w, s)],
        [(w, s), (e, s), ((w + e) / 2, 0.), (e, n), (w, n)]])


def crossed(pts):
    ring = ref.exact(pts)
    n = len(ring)
    edges = list(zip(ring, ring[1:] + ring[:1]))
    return any(ref.proper_cross(*(edges[i] + edges[j]))
               for i in range(n) for j in range(i + 2, n)
               if not (i == 0 and j == n - 1))


class C07(Check):
    ID = 'C07'
    RULE = ('1-5 random polygons (boxes, triangles, stars, combs, L shapes, '
            'both orientations, open and closed rings; some self-crossing) '
            'and 0-80 events on corners, on edges, a hair off, in notches and '
            'around; membership decided exactly on rationals; non-trivial '
            'when events lie both inside and outside, or the polygon is '
            'self-crossing')
    QUICK = 12000
    THOROUGH = 90000
    MIN = {'inside': 300, 'outside': 300, 'on_boundary': 50,
           'invalid_refused': 20, 'unfiltered': 20, 'used_filter': 20}
    ANCHORS = ('mtoolkit/catalog_filter.py',)
    ASSUMPTIONS = ['an event within 1e-28 of the line of a slanted edge, '
                   'relative, or on it, whose products of coordinates take '
                   'more than the 106 bits GEOS computes with, is left '
                   'undecided']

    def setup(self, env):
        import numpy
        import mtoolkit.catalog_filter
        self.np = numpy
        self.mod = mtoolkit.catalog_filter

    LARGE = 2

    def large(self, rng, i):
        case = None
        while case is None or case['bad'] is not None or not case['rows']:
            case = self.gen(rng, 'quick')
        case.update(before=None, twin=None, filter=i == 0)
        rows = []
        for _ in range(6000):
            x, y = points(rng, rng.choice(
                [s['points'] for s in case['sources']]), 1)[0]
            rows.append([rng.randint(1900, 2010), rng.randint(1, 12),
                         rng.randint(1, 28), x, y,
                         round(rng.uniform(3, 8), 2), 0.1])
        return dict(case, rows=rows)

    def gen(self, rng, tier):
        sources = []
        aim = []
        for k in range(rng.choice([1, 1, 2, 3, 5])):
            pts = gen.polygon(rng)[1]
            if k and rng.random() < 0.5:
                dx = sources[0]['points'][0][0] - pts[0][0]
                dy = sources[0]['points'][0][1] - pts[0][1]
                moved = [(p[0] + dx, p[1] + dy) for p in pts]
                if ref.simple_ring(ref.exact(moved)):
                    pts = moved
            if rng.random() < 0.05:
                pts = world(rng)
            elif rng.random() < 0.05:
                # a zone of metres
                f = rng.choice([1e-3, 1e-5, 1e-6])
                x, y = pts[0]
                small = [(x + (p[0] - x) * f, y + (p[1] - y) * f)
                         for p in pts]
                if ref.simple_ring(ref.exact(small)):
                    pts = small
            sources.append(gen.source(rng, k, pts))
            aim.append(pts)
        bad = None
        if rng.random() < 0.08:
            bad = rng.randrange(len(sources))
            sources[bad]['points'] = [list(p) for p in bowtie(rng)]
            if not crossed(sources[bad]['points']):
                return None
        rows = []
        for _ in range(rng.choice([0, 1, 5, 20, 80])):
            x, y = points(rng, rng.choice(aim), 1)[0]
            rows.append([rng.randint(1900, 2010), rng.randint(1, 12),
                         rng.randint(1, 28), x, y,
                         round(rng.uniform(3, 8), 2), 0.1])
        if rows and rng.random() < 0.2:
            rows.append(list(rows[0]))
        # another model with sources of the same identifiers, by the same
        # filter
        twin = None
        if bad is None and rng.random() < 0.3:
            twin = [dict(s) for s in sources]
            rng.shuffle(twin)
            for s, t in zip(sources, twin):
                t.update(area_source_id=s['area_source_id'],
                         name=s['name'] if rng.random() < 0.7 else t['name'])
            if rng.random() < 0.5:
                dx = rng.uniform(-1, 1)
                for t in twin:
                    t['points'] = [[max(-180., min(180., x + dx)), y]
                                   for x, y in t['points']]
                    if not ref.simple_ring(ref.exact(
                            [tuple(p) for p in t['points']])):
                        twin = None
                        break
        # other zones and another catalogue of as many events, by the same
        # filter before
        before = None
        if rng.random() < 0.2:
            before = {'sources': [gen.source(rng, k, gen.polygon(rng)[1])
                                  for k in range(rng.randint(1, 3))],
                      'rows': [[r[0], r[1], r[2], rng.uniform(-180, 180),
                                rng.uniform(-90, 90), r[5], r[6]]
                               for r in rows],
                      'in_place': rng.random() < 0.5}
        return {'sources': sources, 'rows': rows, 'bad': bad, 'twin': twin,
                'before': before,
                'filter': rng.random() < 0.85}

    def run(self, case, obs):
        np = self.np
        flt = self.mod.CatalogFilter(self.mod.SourceModelCatalogFilter())
        earlier = None
        if case.get('before') and case['filter']:
            # the sources are gone, and their place in memory used again,
            # when those to be judged are made
            earlier = np.array(case['before']['rows'],
                               dtype=float).reshape((-1, 7))
            for s in case['before']['sources']:
                must(lambda: [None for _ in flt.filter_eqs(
                    [gen.source_object(s)], earlier)])
            obs.count('used_filter')
        objs = [gen.source_object(s) for s in case['sources']]
        catalogue = np.array(case['rows'], dtype=float).reshape((-1, 7))
        if earlier is not None and case['before']['in_place']:
            earlier[:] = catalogue
            catalogue = earlier
        keep = catalogue.copy()
        if not case['filter']:
            pairs = must(lambda: list(self.mod.CatalogFilter().filter_eqs(
                objs, catalogue)))
            need([id(p[0]) for p in pairs] == [id(o) for o in objs],
                 'sources lost or out of order')
            for src, got in pairs:
                need(np.array_equal(got, keep),
                     'without a filter some events were dropped')
            obs.count('unfiltered')
            return
        mixed = self.judge(case, case['sources'], flt, objs, catalogue, obs)
        if case.get('twin'):
            mixed = self.judge(case, case['twin'], flt,
                               [gen.source_object(s) for s in case['twin']],
                               catalogue, obs) or mixed
            obs.count('second_model')
        need(np.array_equal(catalogue, keep), 'the catalogue was changed')
        if mixed:
            obs.mark()

    def judge(self, case, sources, flt, objs, catalogue, obs):
        """Every source gets what is inside; True when some is."""
        pairs = []

        def go():
            for pair in flt.filter_eqs(objs, catalogue):
                pairs.append(pair)
        out = attempt(go)
        upto = len(objs) if case['bad'] is None else case['bad']
        if case['bad'] is not None:
            need(isinstance(out.exc, RuntimeError),
                 'a self-crossing polygon ended in %r' % (out.exc,))
            obs.count('invalid_refused')
            obs.mark(case['sources'][case['bad']]['points'])
        else:
            need(out.exc is None, 'no result: %r\n%s' % (out.exc, out.tb))
        need([id(p[0]) for p in pairs] == [id(o) for o in objs[:upto]],
             'sources lost, added or out of order: %d of %d' % (
                 len(pairs), upto))
        mixed = False
        for k, (src, got) in enumerate(pairs):
            ring = ref.exact([tuple(p) for p in sources[k]['points']])
            want, border, doubt = [], 0, []
            for row in case['rows']:
                if ref.too_close(ring, (row[3], row[4])):
                    doubt.append([float(v) for v in row])
                elif ref.strictly_inside(ring, (row[3], row[4])):
                    want.append([float(v) for v in row])
                elif any(ref._on_segment(a, b, ref.exact([(row[3], row[4])])[0])
                         for a, b in zip(ring, ring[1:] + ring[:1])):
                    border += 1
            obs.count('inside', len(want))
            obs.count('outside', len(case['rows']) - len(want))
            obs.count('on_boundary', border)
            mixed = mixed or 0 < len(want) < len(case['rows'])
            have = [[float(v) for v in row] for row in got]
            have = [row for row in have if row not in doubt]
            obs.count('undecided', len(doubt))
            need(have == want, 'source %d (%r): %d events instead of %d; '
                 'missing %r, surplus %r' % (
                     k, sources[k]['points'], len(have), len(want),
                     [r for r in want if r not in have][:3],
                     [r for r in have if r not in want][:3]))
        return mixed


CHECK = C07()
