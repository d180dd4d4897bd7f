"""Executable reference models: what the documented behaviour prescribes,
written in plain Python, independently of the code under test."""
import math
from decimal import Decimal, InvalidOperation
from fractions import Fraction

FIELDS = ['eventID', 'Agency', 'Identifier', 'year', 'month', 'day', 'hour',
          'minute', 'second', 'timeError', 'longitude', 'latitude',
          'SemiMajor90', 'SemiMinor90', 'ErrorStrike', 'depth', 'depthError',
          'Mw', 'sigmaMw', 'Ms', 'sigmaMs', 'mb', 'sigmamb', 'ML', 'sigmaML']
INTS = ['eventID', 'Identifier', 'year', 'month', 'day', 'hour', 'minute']
COMPULSORY = INTS + ['longitude', 'latitude', 'depth', 'Mw']
FLOATS = [f for f in FIELDS if f not in INTS and f != 'Agency']
ELLIPSE = ['SemiMajor90', 'SemiMinor90', 'ErrorStrike']


def number(text):
    """The number written in a text field, None if there is none."""
    if text is None:
        return None
    try:
        value = Decimal(text.strip())
    except InvalidOperation:
        return None
    value = float(value) if value.is_finite() else float('inf')
    return value if abs(value) < float('inf') else None


def clean_entry(row):
    """The event a row with sound compulsory fields must become."""
    out = {}
    for field in FIELDS:
        text = row.get(field)
        if field == 'Agency':
            out[field] = text
        elif field in INTS:
            out[field] = int(text.strip())
        else:
            value = number(text)
            out[field] = '' if value is None else value
    for field in ('SemiMajor90', 'SemiMinor90', 'depthError', 'sigmaMs',
                  'sigmamb', 'sigmaML'):
        if out[field] != '' and out[field] < 0:
            out[field] = ''
    if out['second'] != '' and not 0 <= out['second'] <= 59:
        out['second'] = ''
    if out['sigmaMw'] == '' or out['sigmaMw'] < 0:
        out['sigmaMw'] = 0.0
    axes = [out[f] for f in ELLIPSE]
    if '' in axes or axes[1] > axes[0] or not 0 <= axes[2] <= 360:
        for field in ELLIPSE:
            out[field] = ''
    return out


# -- geometry ---------------------------------------------------------------

def _orient(a, b, c):
    v = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    return (v > 0) - (v < 0)


def _on_segment(a, b, p):
    return (_orient(a, b, p) == 0 and
            min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and
            min(a[1], b[1]) <= p[1] <= max(a[1], b[1]))


def exact(points):
    pts = [(Fraction(x), Fraction(y)) for x, y in points]
    if len(pts) > 1 and pts[0] == pts[-1]:
        pts.pop()
    return pts


def strictly_inside(ring, point):
    """Exact: the point is inside the polygon and not on its boundary."""
    p = (Fraction(point[0]), Fraction(point[1]))
    inside = False
    for a, b in zip(ring, ring[1:] + ring[:1]):
        if _on_segment(a, b, p):
            return False
        if (a[1] > p[1]) != (b[1] > p[1]):
            side = _orient(a, b, p)
            if (b[1] > a[1]) == (side > 0):
                inside = not inside
    return inside


def too_close(ring, point):
    """The point is on the line of a slanted edge, or less than the digits
    of GEOS from it, and the products that tell do not fit its 106 bits."""
    p = (Fraction(point[0]), Fraction(point[1]))
    for a, b in zip(ring, ring[1:] + ring[:1]):
        one = (b[0] - a[0]) * (p[1] - a[1])
        two = (b[1] - a[1]) * (p[0] - a[0])
        if (one or two) and abs(one - two) <= (abs(one) + abs(two)) / 10 ** 28:
            if max(one.numerator.bit_length(),
                   two.numerator.bit_length()) > 96:
                return True
    return False


def simple_ring(ring):
    """Exact: no two edges touch but at a shared vertex, area not zero."""
    n = len(ring)
    if n < 3 or len(set(ring)) != n:
        return False
    edges = list(zip(ring, ring[1:] + ring[:1]))
    for i in range(n):
        for j in range(i + 1, n):
            a, b = edges[i]
            c, d = edges[j]
            if j == i + 1 or (i == 0 and j == n - 1):
                shared, p, q = (b, a, d) if j == i + 1 else (a, b, c)
                if _orient(p, shared, q) == 0 and (
                        _on_segment(shared, p, q) or
                        _on_segment(shared, q, p)):
                    return False
                continue
            if crosses(a, b, c, d):
                return False
    return True


def crosses(a, b, c, d):
    if (_on_segment(a, b, c) or _on_segment(a, b, d) or
            _on_segment(c, d, a) or _on_segment(c, d, b)):
        return True
    return (_orient(a, b, c) != _orient(a, b, d) and
            _orient(c, d, a) != _orient(c, d, b))


def proper_cross(a, b, c, d):
    return (_orient(a, b, c) * _orient(a, b, d) < 0 and
            _orient(c, d, a) * _orient(c, d, b) < 0)


def great_circle(lon1, lat1, lon2, lat2, radius=6371.227):
    """Distance from the angle between two unit vectors."""
    def vec(lon, lat):
        lon, lat = math.radians(lon), math.radians(lat)
        return (math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon),
                math.sin(lat))
    a, b = vec(lon1, lat1), vec(lon2, lat2)
    cross = (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
             a[0] * b[1] - a[1] * b[0])
    dot = sum(x * y for x, y in zip(a, b))
    return radius * math.atan2(math.sqrt(sum(x * x for x in cross)), dot)


def haversine(lon1, lat1, lon2, lat2, radius=6371.227):
    p1, p2 = math.radians(lat1), math.radians(lat2)
    a = (math.sin((p2 - p1) / 2) ** 2 + math.cos(p1) * math.cos(p2) *
         math.sin(math.radians(lon2 - lon1) / 2) ** 2)
    a = min(1.0, a)
    return 2 * radius * math.atan2(math.sqrt(a), math.sqrt(1 - a))


# -- dates ------------------------------------------------------------------

_BEFORE = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]


def day_index(month, day):
    return _BEFORE[int(month) - 1] + day - 1


def decimal_year(year, month, day):
    return year + day_index(month, day) / 365.


# -- declustering -----------------------------------------------------------

def window(name, mag):
    """Published distance (km) and time (years) windows."""
    if name == 'GardnerKnopoff':
        space = 10 ** (0.1238 * mag + 0.983)
        days = (10 ** (0.032 * mag + 2.7389) if mag >= 6.5 else
                10 ** (0.5409 * mag - 0.547))
        return space, days / 365.
    if name == 'Gruenthal':
        space = math.exp(1.77 + math.sqrt(0.037 + 1.02 * mag))
        days = (10 ** (2.8 + 0.024 * mag) if mag >= 6.5 else
                math.exp(-3.95 + math.sqrt(0.62 + 17.32 * mag)))
        return space, days / 365.
    if name == 'Uhrhammer':
        return (math.exp(-1.024 + 0.804 * mag),
                math.exp(-2.87 + 1.235 * mag / 365.))
    raise ValueError(name)


YES, NO, MAYBE = 1, 0, -1


def leq(a, b, scale=None):
    """a <= b, MAYBE within rounding; exact zeros are never doubtful."""
    if a == 0 and b == 0:
        return YES
    tol = 1e-9 * max(abs(a), abs(b), scale or 0)
    if abs(a - b) <= tol:
        return MAYBE
    return YES if a < b else NO


def both(*vals):
    if NO in vals:
        return NO
    return MAYBE if MAYBE in vals else YES
