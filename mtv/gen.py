"""Workload generators: catalogues, source models, polygons."""
import math
import random

from mtv import ref

FILES = [' out.xml', 'out.csv ', 'two  words', 'no_extension', 'r\u00e9sultat.x',
         '%d %s.txt', '~', '$HOME', '-o', '.hidden', 'UPPER.CSV', 'a;b', '#1']
WORDS = ['ISC', 'NEIC', 'GCMT', '', 'a b', 'Zürich', 'x,y', 'say "hi"', "o'k",
         'INGV ', ' lead', 'MOS-1', '日本', 'a;b', '#', '0', 'nan', 'None',
         '\tt', 'q"', '--', "'", 'a\\b', 'c:\\x,\\', '\\', '\\"', '%s', '{0}', '#c']


def num_text(rng, value):
    """One of the ways to write a float that reads back as ``value``."""
    text = repr(float(value))
    k = rng.random()
    if k < 0.6:
        return text
    if k < 0.7:
        return ' ' + text + ' '
    if k < 0.8:
        return '%.17e' % value
    if k < 0.85 and text[0] != '-':
        return '+' + text
    if k < 0.9 and 'e' not in text and text.endswith('.0'):
        return text[:-2]
    return text


def int_text(rng, value):
    k = rng.random()
    if k < 0.8:
        return str(value)
    if k < 0.9:
        return ' %d' % value
    if k < 0.95 and value >= 0:
        return '+%d' % value
    return ('%03d' % value) if value >= 0 else str(value)


DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def good_row(rng, eid, edgy=0.15):
    """Text fields of a row whose every field is admissible."""
    def edge():
        return rng.random() < edgy
    month = rng.choice([1, 12, 2]) if edge() else rng.randint(1, 12)
    top = 29 if month == 2 and edge() else DAYS[month - 1]
    day = rng.choice([1, top]) if edge() else rng.randint(1, DAYS[month - 1])
    year = (rng.choice([-10000, -1, 0, 1, 999, 2020])
            if edge() else rng.randint(1900, 2011))
    row = {
        'eventID': int_text(rng, eid),
        'Agency': rng.choice(WORDS),
        'Identifier': int_text(rng, 1 if edge() else rng.randint(1, 10 ** 7)),
        'year': int_text(rng, year),
        'month': int_text(rng, month),
        'day': int_text(rng, day),
        'hour': int_text(rng, rng.choice([0, 23]) if edge()
                         else rng.randint(0, 23)),
        'minute': int_text(rng, rng.choice([0, 59]) if edge()
                           else rng.randint(0, 59)),
        'longitude': num_text(rng, rng.choice([-180., 180., 0., -0.0, 180 - 1e-9])
                              if edge() else rng.uniform(-180, 180)),
        'latitude': num_text(rng, rng.choice([-90., 90., 0., 90 - 1e-9])
                             if edge() else rng.uniform(-90, 90)),
        'depth': num_text(rng, rng.choice([1e-9, 0.1, 700.]) if edge()
                          else round(rng.uniform(0.1, 100), 2)),
        'Mw': num_text(rng, rng.choice([0., -1.5, 9.5]) if edge()
                       else round(rng.uniform(3, 8), rng.choice([1, 2, 5]))),
    }

    def opt(field, lo, hi, neg=False):
        k = rng.random()
        if k < 0.25:
            row[field] = rng.choice(['', ' '])
        elif k < 0.35:
            row[field] = num_text(rng, rng.choice([lo, hi]))
        else:
            row[field] = num_text(rng, rng.uniform(lo, hi))
    opt('second', 0., 59.)
    opt('timeError', 0., 10.)
    for field in ('Ms', 'mb', 'ML'):
        opt(field, 0., 9.)
    for field in ('depthError', 'sigmaMw', 'sigmaMs', 'sigmamb', 'sigmaML'):
        opt(field, 0., 5.)
    if rng.random() < 0.4:
        for field in ref.ELLIPSE:
            row[field] = ''
    else:
        minor = rng.choice([0., rng.uniform(0, 50)])
        major = minor if edge() else minor + rng.uniform(0, 50)
        row['SemiMajor90'] = num_text(rng, major)
        row['SemiMinor90'] = num_text(rng, minor)
        row['ErrorStrike'] = num_text(
            rng, rng.choice([0., 360.]) if edge() else rng.uniform(0, 360))
    return row


def csv_field(text):
    if any(c in text for c in ',"\n\r'):
        return '"' + text.replace('"', '""') + '"'
    return text


def csv_text(rows, header=None, eol='\n', blank=()):
    """The file; ``blank`` has the row numbers with blank lines before."""
    lines = [header if header is not None else ','.join(ref.FIELDS)]
    for i, row in enumerate(rows):
        lines.extend([''] * list(blank).count(i))
        lines.append(','.join(csv_field(row[f]) for f in ref.FIELDS
                              if f in row))
    return eol.join(lines) + eol


def same(a, b):
    """Same value and same type (the sign of zero does not count)."""
    return type(a) is type(b) and a == b


# -- event matrices ---------------------------------------------------------

def matrix(rng, n, clusters=True, tie=0.4, grid=None, years=(1950, 2010),
           sigma=True):
    """Rows year, month, day, lon, lat, Mw, sigmaMw of a lumpy catalogue."""
    rows = []
    kind = rng.random()
    if kind < 0.12:
        base = (rng.choice([180., -180.]), rng.uniform(-10, 10))
    elif kind < 0.2:
        base = (rng.uniform(-180, 180), rng.choice([88., -88.]))
    else:
        base = (rng.uniform(-170, 170), rng.uniform(-60, 60))
    spread = rng.choice([0.3, 1., 5.])
    if grid is None:
        grid = rng.random() < tie

    def mag(lo, hi):
        if grid:
            return round(rng.uniform(lo, hi), 1)
        if rng.random() < 0.05:
            return 6.5
        return round(rng.uniform(lo, hi), 4)

    def place(lon, lat, s):
        lon = lon + rng.uniform(-s, s)
        lat = max(-90., min(90., lat + rng.uniform(-s, s)))
        if lon > 180:
            lon -= 360
        if lon < -180:
            lon += 360
        return round(lon, 4), round(lat, 4)

    def shift(date, days):
        """A date so many days later in a 365 day year."""
        y, m, d = date
        idx = ref.day_index(m, d) + days
        y += idx // 365
        idx %= 365
        k = 11
        while ref._BEFORE[k] > idx:
            k -= 1
        return (y, k + 1, idx - ref._BEFORE[k] + 1)

    y0, y1 = years
    span = rng.choice([1, 3, y1 - y0]) if clusters else y1 - y0
    while len(rows) < n:
        month = rng.randint(1, 12)
        date = (rng.randint(y0, y0 + span), month,
                rng.randint(1, DAYS[month - 1]))
        lon, lat = place(base[0], base[1], spread)
        m = mag(4.0, 7.6)
        rows.append(list(date) + [lon, lat, m])
        if clusters and rng.random() < 0.7:
            dist, time = ref.window('GardnerKnopoff', m)
            for _ in range(rng.randint(1, 6)):
                if len(rows) >= n:
                    break
                lim = max(1, int(time * 365))
                days = rng.choice([0, 0, 1, -1, rng.randint(-lim, lim),
                                   rng.randint(-lim, 2 * lim),
                                   rng.randint(0, lim)])
                alon, alat = place(lon, lat, rng.choice(
                    [0., 0.05, dist / 111. * rng.random(), dist / 80.]))
                am = mag(3.0, m + 0.3 if rng.random() < 0.2 else m)
                rows.append(list(shift(date, days)) + [alon, alat, am])
    rng.shuffle(rows)
    if rng.random() < 0.3:
        rows.sort(key=lambda r: r[:3])
    if not grid:
        seen = set()
        for row in rows:
            while row[5] in seen:
                row[5] = round(row[5] + 0.0001, 4)
            seen.add(row[5])
    for row in rows:
        row.append(rng.choice([0., 0.1, round(rng.uniform(0, 0.5), 3)])
                   if sigma else 0.)
    return [[float(v) for v in row] for row in rows]


def micro(rows):
    """The same with small magnitudes, down to below zero."""
    return [r[:5] + [round(r[5] - 5.5, 4)] + r[6:] for r in rows]


def vary(rng, rows):
    """The same rows moved to where catalogues rarely are."""
    rows = [list(r) for r in rows]
    kind = rng.choice(['great', 'wide', 'old', 'before', 'apart', 'dates',
                       'equator', 'line', 'six', 'equal', 'sorted', 'again',
                       'whole'])
    if kind == 'great':
        for r in rows:
            r[5] = round(r[5] + 2.2, 4)
    elif kind == 'wide':
        low = min(r[5] for r in rows)
        for r in rows:
            r[5] = round(1.5 + (r[5] - low) * 2.2, 4)
    elif kind in ('old', 'before'):
        back = rng.choice([1000, 1955, 1960]) if kind == 'old' else \
            rng.choice([2500, 11000])
        for r in rows:
            r[0] -= back
    elif kind == 'apart':
        step = rng.choice([5., 9., 30.])
        for r in rows:
            r[0] = 2009. - (2009. - r[0]) * step
    elif kind == 'dates':
        for r in rows:
            if rng.random() < 0.6:
                r[1], r[2] = rng.choice([(2., 29.), (4., 31.), (12., 31.),
                                         (1., 1.), (3., 1.), (5., 1.)])
    elif kind == 'equator':
        for r in rows:
            r[4] = rng.choice([0., 0., round(rng.uniform(-.2, .2), 3)])
    elif kind == 'line':
        for r in rows:
            r[3] = rng.choice([180., -180., 179.9, -179.95, -180.])
    elif kind == 'six':
        rows = [r[:6] for r in rows]
    elif kind == 'equal':
        for r in rows:
            r[5] = rows[0][5]
    elif kind == 'sorted':
        rows.sort(key=lambda r: r[5], reverse=rng.random() < 0.5)
    elif kind == 'again':
        for k in range(len(rows)):
            if rng.random() < 0.3:
                rows[k] = list(rng.choice(rows))
    elif kind == 'whole':
        for r in rows:
            r[5] = float(round(r[5]))
            r[3], r[4] = round(r[3], 1), round(r[4], 1)
    return rows


def many(rng, n):
    """A large catalogue of many small clusters all over the world."""
    rows, k = [], 0
    while len(rows) < n:
        k += 1
        month = rng.randint(1, 12)
        date = [rng.randint(1900, 2009), month, rng.randint(1, 27)]
        lon, lat = (round(rng.uniform(-179, 179), 3),
                    round(rng.uniform(-80, 80), 3))
        mag = round(4. + k * 0.002, 4)
        rows.append(date + [lon, lat, mag, 0.1])
        if rng.random() < 0.85:
            rows.append(date[:2] + [date[2] + rng.choice([0, 1]), lon, lat,
                                    round(mag - 1 + 0.001, 4), 0.])
    rng.shuffle(rows)
    return [[float(v) for v in row] for row in rows]


def crowd(seed, n):
    """(rows, cluster of each, flag of each): events of few days around a few
    main events in different places, and some on their own."""
    rng = random.Random(seed)
    places = [(lon, lat) for lon in range(-170, 171, 20)
              for lat in range(-60, 61, 20)]
    rng.shuffle(places)
    groups = []
    for k, (lon, lat) in enumerate(places[:50]):
        date = [rng.randint(1900, 2009), rng.randint(1, 12),
                rng.randint(1, 28)]
        groups.append((round(8.5 - 0.02 * k, 2), date, lon, lat, k >= 30))
    rows, cluster, flag = [], [], []
    for k, (mag, date, lon, lat, alone) in enumerate(groups):
        rows.append(date + [lon, lat, mag, 0.1])
        cluster.append(0 if alone else k + 1)
        flag.append(0)
    while len(rows) < n:
        k = rng.randrange(30)
        mag, date, lon, lat, _ = groups[k]
        rows.append(date + [lon + rng.choice([0, 0.01, 0.02]), lat,
                            rng.randint(300, 700) / 100., 0.1])
        cluster.append(k + 1)
        flag.append(1)
    order = list(range(n))
    rng.shuffle(order)
    return ([[float(v) for v in rows[k]] for k in order],
            [cluster[k] for k in order], [flag[k] for k in order])


# -- polygons and source models --------------------------------------------

def polygon(rng, kind=None):
    """(kind, list of (lon, lat)) of a simple polygon."""
    kind = kind or rng.choice(['box', 'star', 'comb', 'L', 'tri', 'diamond'])
    cx = round(rng.uniform(-150, 150), 1)
    cy = round(rng.uniform(-70, 70), 1)
    s = rng.choice([0.5, 2., 8.])

    def r(v):
        return round(v, 4)
    if kind == 'box':
        w, h = r(rng.uniform(0.3, 1) * s), r(rng.uniform(0.3, 1) * s)
        pts = [(cx, cy), (r(cx + w), cy), (r(cx + w), r(cy + h)),
               (cx, r(cy + h))]
    elif kind == 'tri':
        pts = [(cx, cy), (r(cx + s), cy), (r(cx + s * rng.random()), r(cy + s))]
    elif kind == 'diamond':
        pts = [(r(cx - s), cy), (cx, r(cy - s)), (r(cx + s), cy),
               (cx, r(cy + s))]
    elif kind == 'L':
        h = r(s / 2)
        pts = [(cx, cy), (r(cx + s), cy), (r(cx + s), r(cy + h)),
               (r(cx + h), r(cy + h)), (r(cx + h), r(cy + s)), (cx, r(cy + s))]
    elif kind == 'comb':
        teeth = rng.randint(2, 4)
        pts = [(cx, cy), (r(cx + 2 * teeth * s / 4), cy)]
        for t in range(2 * teeth, 0, -2):
            x = cx + t * s / 4
            pts += [(r(x), r(cy + s)), (r(x - s / 8), r(cy + s)),
                    (r(x - s / 8), r(cy + s / 4)),
                    (r(x - 2 * s / 4), r(cy + s / 4))]
        pts.pop()
        pts.append((cx, r(cy + s / 4)))
    else:
        n = rng.randint(4, 10)
        angles = sorted(rng.uniform(0, 2 * math.pi) for _ in range(n))
        pts = [(r(cx + s * rng.uniform(0.3, 1) * math.cos(a)),
                r(cy + s * rng.uniform(0.3, 1) * math.sin(a)))
               for a in angles]
    if rng.random() < 0.5:
        pts.reverse()
    k = rng.randrange(len(pts))
    pts = pts[k:] + pts[:k]
    if not ref.simple_ring(ref.exact(pts)):
        return polygon(rng, 'box')
    if rng.random() < 0.4:
        pts.append(pts[0])
    return kind, [(float(x), float(y)) for x, y in pts]


def ring(rng):
    """Any list of points: repeated, closed or not, few or many."""
    if rng.random() < 0.6:
        return polygon(rng)[1]
    n = rng.choice([3, 4, 5, 12, 40, 300])
    grid = rng.random() < 0.5
    pts = [(float(rng.randint(-2, 2)), float(rng.randint(-2, 2))) if grid else
           (rng.uniform(-180, 180), rng.uniform(-90, 90)) for _ in range(n)]
    for _ in range(rng.randint(0, 3)):
        k = rng.randrange(len(pts))
        pts.insert(rng.choice([k, rng.randint(0, len(pts))]), pts[k])
    return pts


REGIONS = ['Active Shallow Crust', 'Stable Shallow Crust',
           'Subduction Interface', 'Subduction IntraSlab', 'Volcanic']
NAMES = ['Quito', 'zone 1', 'A & B', 'x < y', 'Zürich', '中国', "d'Or", '"q"',
         'a  b', 'Z-7', '0', ']]>', 'é', ' lead', 'tail ', 'a\tb', 'two\nlines', 'a\\b', '%d', '{x}']


def source(rng, k, pts=None, defaults=False):
    """Attributes of an area source as plain data."""
    def f(lo, hi):
        return rng.choice([lo, hi, rng.uniform(lo, hi), rng.uniform(lo, hi),
                           round(rng.uniform(lo, hi), 1)])
    if pts is None:
        pts = polygon(rng)[1]
    nd = rng.choice([1, 2, 3, 4, 20])
    mags, depths = [f(4., 9.) for _ in range(nd)], \
        [f(0., 50000.) for _ in range(nd)]
    if rng.random() < 0.2:
        mags, depths = mags + mags[-1:], depths[:1] + depths
    return {
        'nrml_id': 'n1', 'source_model_id': 'sm1',
        'area_source_id': 'src%s%d' % (rng.choice(['', '_', '-', 'é']), k),
        'name': rng.choice(NAMES),
        'tectonic_region': rng.choice(REGIONS),
        'srs': rng.choice(['urn:ogc:def:crs:EPSG::4326', 'EPSG:4326']),
        'points': [list(p) for p in pts],
        'a': f(-2., 9.), 'b': f(0., 2.), 'mmin': f(0., 6.), 'mmax': f(6., 9.5),
        'tgr_type': rng.choice(['ML', 'Mw']),
        'strike': f(0., 360.), 'dip': f(0., 90.), 'rake': f(-180., 180.),
        'mag_type': rng.choice(['ML', 'Mw']),
        'mags': mags, 'depths': depths,
        'hypo': f(0., 60000.),
    }


def esc(text, attr=False):
    text = text.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
    return text.replace('"', '&quot;') if attr else text


def nrml(sources, rng=None, config=True):
    """The document that describes the sources."""
    def num(v):
        return repr(float(v)) if rng is None else num_text(rng, v)

    def many(vals):
        sep = ' ' if rng is None else rng.choice([' ', '  ', '\n   ', '\t'])
        return sep.join(repr(float(v)) for v in vals)
    out = ['<?xml version="1.0" encoding="utf-8"?>\n'
           '<nrml xmlns:gml="http://www.opengis.net/gml" '
           'xmlns="http://openquake.org/xmlns/nrml/0.3" gml:id="%s">\n'
           '<sourceModel gml:id="%s">%s' % (
               sources[0]['nrml_id'], sources[0]['source_model_id'],
               '<config/>' if config else '')]
    for s in sources:
        out.append('''
  <areaSource gml:id="%s">
    <gml:name>%s</gml:name>
    <tectonicRegion>%s</tectonicRegion>
    <areaBoundary><gml:Polygon><gml:exterior>
      <gml:LinearRing srsName="%s"><gml:posList>%s</gml:posList></gml:LinearRing>
    </gml:exterior></gml:Polygon></areaBoundary>
    <ruptureRateModel>
      <truncatedGutenbergRichter type="%s">
        <aValueCumulative>%s</aValueCumulative>
        <bValue>%s</bValue>
        <minMagnitude>%s</minMagnitude>
        <maxMagnitude>%s</maxMagnitude>
      </truncatedGutenbergRichter>
      <strike>%s</strike><dip>%s</dip><rake>%s</rake>
    </ruptureRateModel>
    <ruptureDepthDistribution>
      <magnitude type="%s">%s</magnitude>
      <depth>%s</depth>
    </ruptureDepthDistribution>
    <hypocentralDepth>%s</hypocentralDepth>
  </areaSource>''' % (
            esc(s['area_source_id'], True), esc(s['name']),
            s['tectonic_region'], s['srs'],
            many([c for p in s['points'] for c in p]), s['tgr_type'],
            num(s['a']), num(s['b']), num(s['mmin']), num(s['mmax']),
            num(s['strike']), num(s['dip']), num(s['rake']), s['mag_type'],
            many(s['mags']), many(s['depths']), num(s['hypo'])))
    out.append('\n</sourceModel></nrml>\n')
    return ''.join(out)


def source_view(obj):
    """An area source object of the code under test as plain data."""
    rrm, rdd = obj.rupture_rate_model, obj.rupture_depth_dist
    tgr = rrm.truncated_gutenberg_richter
    return {
        'nrml_id': obj.nrml_id, 'source_model_id': obj.source_model_id,
        'area_source_id': obj.area_source_id, 'name': obj.name,
        'tectonic_region': obj.tectonic_region,
        'srs': obj.area_boundary.srs_name,
        'points': [[p.lon, p.lat] for p in obj.area_boundary.pos_list],
        'a': tgr.a_value, 'b': tgr.b_value, 'mmin': tgr.min_magnitude,
        'mmax': tgr.max_magnitude, 'tgr_type': tgr.type_tgr,
        'strike': rrm.strike, 'dip': rrm.dip, 'rake': rrm.rake,
        'mag_type': rdd.magnitude.type_mag,
        'mags': list(rdd.magnitude.values), 'depths': list(rdd.depth),
        'hypo': obj.hypocentral_depth,
    }


def source_object(s):
    """Plain data as an area source object of the code under test."""
    from mtoolkit import source_model as sm
    obj = sm.AreaSource()
    for field in ('nrml_id', 'source_model_id', 'area_source_id', 'name',
                  'tectonic_region'):
        setattr(obj, field, s[field])
    obj.area_boundary = sm.AREA_BOUNDARY(
        s['srs'], [sm.POINT(*p) for p in s['points']])
    obj.rupture_rate_model = sm.RUPTURE_RATE_MODEL(
        sm.TRUNCATED_GUTEN_RICHTER(s['a'], s['b'], s['mmin'], s['mmax'],
                                   s['tgr_type']),
        s['strike'], s['dip'], s['rake'])
    obj.rupture_depth_dist = sm.RUPTURE_DEPTH_DISTRIB(
        sm.MAGNITUDE(s['mag_type'], list(s['mags'])), list(s['depths']))
    obj.hypocentral_depth = s['hypo']
    return obj


_NS = {'n': 'http://openquake.org/xmlns/nrml/0.3',
       'g': 'http://www.opengis.net/gml'}


def read_nrml(path):
    """Independent reading of a document: list of plain sources."""
    import xml.etree.ElementTree as ET
    gid = '{%s}id' % _NS['g']
    root = ET.parse(path).getroot()
    if root.tag != '{%s}nrml' % _NS['n']:
        raise ValueError('root element %s' % root.tag)
    out = []
    for model in root.findall('n:sourceModel', _NS):
        for e in model.findall('n:areaSource', _NS):
            def t(p):
                return e.find(p, _NS).text
            ring = e.find('.//g:LinearRing', _NS)
            co = [float(v) for v in ring.find('g:posList', _NS).text.split()]
            tgr = 'n:ruptureRateModel/n:truncatedGutenbergRichter'
            rdd = 'n:ruptureDepthDistribution/'
            out.append({
                'nrml_id': root.get(gid), 'source_model_id': model.get(gid),
                'area_source_id': e.get(gid), 'name': t('g:name'),
                'tectonic_region': t('n:tectonicRegion'),
                'srs': ring.get('srsName'),
                'points': [co[i:i + 2] for i in range(0, len(co), 2)],
                'a': float(t(tgr + '/n:aValueCumulative')),
                'b': float(t(tgr + '/n:bValue')),
                'mmin': float(t(tgr + '/n:minMagnitude')),
                'mmax': float(t(tgr + '/n:maxMagnitude')),
                'tgr_type': e.find(tgr, _NS).get('type'),
                'strike': float(t('n:ruptureRateModel/n:strike')),
                'dip': float(t('n:ruptureRateModel/n:dip')),
                'rake': float(t('n:ruptureRateModel/n:rake')),
                'mag_type': e.find(rdd + 'n:magnitude', _NS).get('type'),
                'mags': [float(v) for v in t(rdd + 'n:magnitude').split()],
                'depths': [float(v) for v in t(rdd + 'n:depth').split()],
                'hypo': float(t('n:hypocentralDepth')),
            })
    return out


def diff(want, got):
    """The first difference between two plain sources, None if equal."""
    for key in want:
        if got.get(key) != want[key]:
            return '%s is %r instead of %r' % (key, got.get(key), want[key])
    return None
