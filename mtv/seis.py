"""Executable models of the recurrence and maximum magnitude methods, in
plain Python. numpy only gives the bin edges (arange)."""
import math

NEAR = 1e-9


def near_edge(values, edges):
    """Some value is within rounding of an edge, but not on it."""
    return any(v != e and abs(v - e) < NEAR for v in values for e in edges)


def find_bin(value, edges):
    """Index of the half open bin (the last one is closed), or None."""
    n = len(edges) - 1
    for k in range(n):
        if edges[k] <= value < edges[k + 1] or (
                k == n - 1 and value == edges[n]):
            return k
    return None


# -- Weichert ---------------------------------------------------------------

def weichert_bins(np, years, mags, table, dm, dt):
    """(centres, periods, counts, doubtful)."""
    mags = [float(m) for m in np.around(np.array(mags), decimals=1)]
    times = [float(t) for t in np.arange(
        min(years), max(years) + 1.5 * dt, dt)]
    edges = [float(e) for e in np.arange(
        min(mags), max(mags) + 1.5 * dm, dm)]
    doubtful = near_edge(mags, edges) or near_edge(years, times) or \
        near_edge([r[0] for r in table], times) or \
        near_edge([r[1] for r in table], edges)
    n = len(edges) - 1
    counts = [0.] * n
    for y, m in zip(years, mags):
        ti, mi = find_bin(y, times), find_bin(m, edges)
        if ti is None or mi is None:
            doubtful = True
            continue
        if any(times[ti] < r[0] and edges[mi] < r[1] for r in table):
            continue
        counts[mi] += 1
    periods = []
    for k in range(n):
        rows = [r for r in table if r[1] - edges[k] < 1e-3]
        if any(abs(r[1] - edges[k] - 1e-3) < NEAR for r in table):
            doubtful = True
        since = rows[-1][0] if rows else table[-1][0]
        periods.append(max(years) - since + 1)
    centres = [(a + b) / 2. for a, b in zip(edges, edges[1:])]
    return centres, periods, counts, doubtful


def weichert_slope(beta, periods, centres, counts):
    """Derivative of the log likelihood over the number of events, and the
    second derivative."""
    top = max(-beta * m for m in centres)
    w = [t * math.exp(-beta * m - top) for t, m in zip(periods, centres)]
    s = math.fsum(w)
    mean = math.fsum(x * m for x, m in zip(w, centres)) / s
    var = math.fsum(x * (m - mean) ** 2 for x, m in zip(w, centres)) / s
    n = math.fsum(counts)
    obs = math.fsum(c * m for c, m in zip(counts, centres)) / n
    return mean - obs, var


def weichert_ml(periods, centres, counts):
    """The maximum likelihood beta, None when there is none in (-60, 60)."""
    lo, hi = -60., 60.
    if weichert_slope(lo, periods, centres, counts)[0] <= 0 or \
            weichert_slope(hi, periods, centres, counts)[0] >= 0:
        return None
    for _ in range(200):
        mid = (lo + hi) / 2
        if weichert_slope(mid, periods, centres, counts)[0] > 0:
            lo = mid
        else:
            hi = mid
    return (lo + hi) / 2


def weichert_rates(beta, periods, centres, counts, mrate):
    """(b, sigma b, rate, sigma rate) at the maximum likelihood beta."""
    n = math.fsum(counts)
    var = weichert_slope(beta, periods, centres, counts)[1]
    sig = 1 / math.sqrt(n * var)
    low = centres[0] - (centres[1] - centres[0]) / 2
    k = math.exp(beta * centres[0])
    total = n * math.fsum(math.exp(-beta * m) * k for m in centres) / \
        math.fsum(t * math.exp(-beta * m) * k
                  for t, m in zip(periods, centres))
    if mrate == 0:
        rate = total
        srate = total * math.exp(-beta * low) / math.sqrt(n)
    else:
        rate = total * math.exp(-beta * (mrate - low))
        srate = rate / math.sqrt(n)
    ln10 = math.log(10)
    return beta / ln10, sig / ln10, rate, srate


def newton_converges(periods, centres, counts, beta=1.5):
    """Newton's method from the default start settles within 40 steps and
    stays in a moderate range, also from right next to it: elsewhere the
    rounding decides."""

    def settles(beta):
        for _ in range(40):
            d, var = weichert_slope(beta, periods, centres, counts)
            if var < 1e-12:
                return False
            step = d / var
            beta += step
            if not -20 < beta < 20:
                return False
            if abs(step) < 1e-7:
                return True
        return False
    return all(settles(beta + off) for off in (0., 1e-7, -1e-7, 3e-6))


# -- Aki / Bender -----------------------------------------------------------

def recurrence_edges(np, mags, dm):
    """(edges, doubtful)"""
    doubtful = any(10. * m != round(10. * m) and
                   abs(10. * m - round(10. * m)) < 1e-7 for m in mags)
    hi = max(math.ceil(10.0 * m) / 10.0 for m in mags)
    lo = min(math.floor(10.0 * m) / 10.0 for m in mags)
    return [float(e) for e in np.arange(lo, hi + 2 * dm, dm)], doubtful


def recurrence_rows(np, mags, dm, years):
    """(rows, doubtful): centre, count, cumulative count, both per year."""
    edges, doubtful = recurrence_edges(np, mags, dm)
    doubtful = doubtful or near_edge(mags, edges)
    span = max(years) - min(years) + 1.
    counts = [0] * (len(edges) - 1)
    for m in mags:
        k = find_bin(m, edges)
        if k is None:
            doubtful = True
        else:
            counts[k] += 1
    rows = []
    for k in range(len(counts)):
        cum = sum(counts[k:])
        rows.append((edges[k] + dm / 2., counts[k], cum, counts[k] / span,
                     cum / span))
    return rows, doubtful


def aki_bender(centres, counts, dm, mc):
    """(b, sigma b), None when there are no events above mc."""
    data = [(m, c) for m, c in zip(centres, counts) if m >= mc]
    n = float(sum(c for _, c in data))
    if not n:
        return None
    low = min(m for m, _ in data)
    mean = sum(m * c for m, c in data) / n
    b = math.log10(math.e) / (mean - low + dm / 2.)
    if n == 1:
        return b, float('nan')
    var = sum(c * (m - mean) ** 2 for m, c in data) / (n * (n - 1))
    return b, 2.3 * b * b * math.sqrt(var)


def mle(np, years, mags, table, dm, ref):
    """((b, sigma b, a, sigma a) or None, doubtful)"""
    parts, doubtful = [], False
    groups = []
    for since in sorted(set(r[0] for r in table)):
        groups.append((since, min(r[1] for r in table if r[0] == since)))
    for since, mc in groups:
        sel = [(y, m) for y, m in zip(years, mags)
               if y >= since and m >= mc - 1e-5]
        doubtful = doubtful or any(
            abs(m - mc + 1e-5) < NEAR for m in mags)
        if not sel:
            return None, doubtful
        ys, ms = [s[0] for s in sel], [s[1] for s in sel]
        rows, doubt = recurrence_rows(np, ms, dm, ys)
        doubtful = doubtful or doubt or near_edge([mc], [r[0] for r in rows])
        res = aki_bender([r[0] for r in rows], [r[1] for r in rows], dm, mc)
        if res is None:
            return None, doubtful
        b, sb = res
        span = float(max(ys) - min(ys) + 1)
        lograte = math.log10(len(sel) / span)
        a = lograte + b * mc
        sa = abs(lograte + (b + sb) * ref - a)
        rate = 10 ** (a - b * ref)
        srate = 10 ** (a + sa - b * ref - math.log10(rate))
        parts.append((len(sel), b, sb, rate, srate))
    total = float(sum(p[0] for p in parts))
    return tuple(sum(p[0] / total * p[k] for p in parts)
                 for k in range(1, 5)), doubtful


def close(a, b, rel):
    if a != a or b != b:
        return a != a and b != b
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= rel * max(abs(a), abs(b), 1e-300) or \
        abs(a - b) < 1e-13


# -- maximum magnitude ------------------------------------------------------

def cdf(x, fault=False):
    """Hastings' rational approximation of the normal distribution; with
    ``fault`` the known wrong value far below the mean."""
    if x < -5:
        return 1. if fault else 0.
    if x > 5:
        return 1.
    a = abs(x)
    y = 1 - 0.5 * (1 + 0.196854 * a - 0.115194 * a ** 2 + 0.000344 * a ** 3 +
                   0.019527 * a ** 4) ** -4
    return 1 - y if x < 0 else y


def quantile(vals, p):
    """Cunnane plotting position, as scipy's mquantiles."""
    vals = sorted(vals)
    n = len(vals)
    m = 0.4 + p * (1 - 0.8)
    aleph = n * p + m
    k = int(math.floor(min(max(aleph, 1), n - 1)))
    gamma = min(max(aleph - k, 0), 1)
    if n == 1:
        return vals[0]
    return (1 - gamma) * vals[k - 1] + gamma * vals[k]


def smoothing(mags):
    """(h, doubtful): smoothing factor rounded to two decimals."""
    iqr = quantile(mags, 0.75) - quantile(mags, 0.25)
    raw = 100 * 0.9 * iqr / 1.34 * len(mags) ** -0.2
    doubtful = abs(raw - math.floor(raw) - 0.5) < 1e-6
    return round(raw) / 100., doubtful


def spaced(lo, hi, n):
    n = int(n)
    a, b = math.exp(lo), math.exp(hi)
    return [math.log(a + k * (b - a) / (n - 1.)) for k in range(n - 1)] + [hi]


def kijko_integral(points, mags, h, neq, fault=False):
    lo = [cdf((points[0] - m) / h, fault) for m in mags]
    span = math.fsum(cdf((points[-1] - m) / h, fault) - l
                     for m, l in zip(mags, lo))
    if span == 0:
        return float('nan')
    f = []
    for p in points:
        part = math.fsum(cdf((p - m) / h, fault) - l
                         for m, l in zip(mags, lo)) / span
        try:
            f.append(part ** neq)
        except (OverflowError, ZeroDivisionError):
            return float('nan')
        if isinstance(f[-1], complex):
            return float('nan')
    return math.fsum((a + b) / 2 * (q - p) for a, b, p, q in zip(
        f, f[1:], points, points[1:]))


def kijko(mags, sigmas, neq, samples, tol, cap, observed=None, fault=False):
    """(acceptable results, doubtful): the list of (mmax, sigma, iterations)
    the method may stop at."""
    if observed:
        top, sig = observed
    else:
        top = max(mags)
        sig = sigmas[mags.index(top)]
    use = sorted(mags)
    if len(use) > neq:
        use = use[-int(neq):]
    neq = float(len(use))
    h, doubtful = smoothing(use)
    if h == 0:
        return None, doubtful
    mmax, steps, ok = top, 0, []
    while True:
        if steps > 3000:
            return None, doubtful
        try:
            delta = kijko_integral(spaced(use[0], mmax, samples), use, h, neq,
                                   fault)
        except (ValueError, OverflowError):
            return None, doubtful
        if delta != delta:
            return None, doubtful
        new = top + delta
        move = abs(new - mmax)
        mmax = new
        steps += 1
        if abs(move - tol) < 1e-12:
            doubtful = True
        res = (mmax, math.sqrt(sig ** 2 + delta ** 2), steps)
        if move <= tol:
            return ok + [res], doubtful
        if steps >= cap:
            ok.append(res)
        if steps > cap:
            return ok, doubtful


def cumulative_moment(years, mags):
    lo, hi = int(min(years)), int(max(years))
    per = [0.] * (hi - lo + 1)
    for y, m in zip(years, mags):
        per[int(y) - lo] += 10 ** (9.05 + 1.5 * m)
    mean = math.fsum(per) / len(per)
    above, below, total = [], [], 0.
    for k, p in enumerate(per):
        total += p
        above.append(total - mean * (k + 1))
    diff = abs(max(above)) + abs(min(above))
    if diff <= 0:
        return float('-inf'), 0
    return 2. / 3. * (math.log10(diff) - 9.05), diff / total
