"""Monitors for the declustering results."""
from mtv import gen, ref
from mtv.core import need
from mtv.ref import MAYBE, NO, YES


def pair_tables(rows, method, fs, time_window=None):
    """space[i][j]: j within the distance window of i; dt[i][j] in years."""
    n = len(rows)
    dec = [ref.decimal_year(r[0], r[1], r[2]) for r in rows]
    win = [ref.window(method, r[5]) for r in rows]
    space = [[ref.leq(ref.haversine(rows[j][3], rows[j][4],
                                    rows[i][3], rows[i][4]), win[i][0])
              for j in range(n)] for i in range(n)]
    return dec, win, space


def shapes(rows, result, np):
    vcl, main, flag = result
    n = len(rows)
    need(np.shape(vcl) == (n,), 'cluster vector of shape %r for %d events' % (
        np.shape(vcl), n))
    need(np.shape(flag) == (n,), 'flag vector of shape %r for %d events' % (
        np.shape(flag), n))
    vcl = [int(v) for v in vcl]
    flag = [int(v) for v in flag]
    need(all(f in (-1, 0, 1) for f in flag), 'flags %r' % flag)
    want = [r for r, f in zip(rows, flag) if f == 0]
    have = [[float(v) for v in r] for r in main]
    need(have == want, 'the declustered catalogue is not the unflagged events '
         'in their order: %d rows for %d' % (len(have), len(want)))
    used = sorted(set(vcl) - set([0]))
    need(used == list(range(1, len(used) + 1)), 'cluster numbers %r' % used)
    members = dict((c, [i for i in range(n) if vcl[i] == c]) for c in used)
    for i in range(n):
        need(vcl[i] != 0 or flag[i] == 0, 'event %d is flagged %d but in no '
             'cluster' % (i, flag[i]))
    mains = {}
    for c in used:
        top = [i for i in members[c] if flag[i] == 0]
        need(len(members[c]) >= 2, 'cluster %d has one event' % c)
        need(len(top) == 1, 'cluster %d has %d main events' % (c, len(top)))
        mains[c] = top[0]
        big = max(rows[i][5] for i in members[c])
        need(rows[top[0]][5] == big, 'the main event of cluster %d has '
             'magnitude %r, another one %r' % (c, rows[top[0]][5], big))
    for c in used[1:]:
        need(rows[mains[c]][5] <= rows[mains[c - 1]][5], 'clusters %d and %d '
             'are not in decreasing order of main magnitude' % (c - 1, c))
    return vcl, flag, members, mains


def crowd(np, call, case, obs):
    """Tens of thousands of events whose clusters are known beforehand."""
    rows, cluster, flag = gen.crowd(case['seed'], case['crowd'])
    matrix = np.array(rows)
    have = call(case, matrix)
    need(np.array_equal(matrix, rows), 'the catalogue was changed')
    for name, one, two in (('cluster', have[0], cluster),
                           ('flag', have[2], flag)):
        need(np.shape(one) == (len(rows),), '%s vector of shape %r' % (
            name, np.shape(one)))
        bad = np.nonzero(np.asarray(one) != np.array(two))[0]
        need(len(bad) == 0, 'of %d events %d have another %s, first event '
             '%s: %r instead of %r' % (
                 len(rows), len(bad), name, bad[:1],
                 [one[k] for k in bad[:1]], [two[k] for k in bad[:1]]))
    need(np.array_equal(have[1], matrix[np.array(flag) == 0]),
         'the declustered catalogue is not the unflagged events')
    obs.count('events', len(rows))


def gardner_knopoff(rows, method, fs, result, np, obs):
    vcl, flag, members, mains = shapes(rows, result, np)
    n = len(rows)
    dec, win, space = pair_tables(rows, method, fs)

    def inside(i, j):
        """j in the space-time window of i."""
        dt = dec[j] - dec[i]
        if dt == 0:
            when = YES
        elif dt > 0:
            when = ref.leq(dt, win[i][1], 1.)
        else:
            when = ref.leq(-dt, fs * win[i][1], 1. if fs else 0)
        return ref.both(when, space[i][j])

    for c, i in mains.items():
        for j in members[c]:
            if j == i:
                continue
            need(inside(i, j) != NO, 'event %d is in the cluster of event %d '
                 'but outside its window: %r %r' % (j, i, rows[j], rows[i]))
            dt = dec[j] - dec[i]
            need(flag[j] == (-1 if dt < 0 else 1), 'event %d, %r years from '
                 'its main event, is flagged %d' % (j, dt, flag[j]))
        for j in range(n):
            if j == i or rows[j][5] > rows[i][5] or inside(i, j) != YES:
                continue
            if rows[j][5] < rows[i][5]:
                need(1 <= vcl[j] <= c, 'event %d is in the window of larger '
                     'main event %d but not in its cluster nor in that of a '
                     'larger one (cluster %d, %d)' % (j, i, vcl[j], c))
            else:
                need(vcl[j] <= c, 'equal event %d ended in a later cluster '
                     'than %d' % (j, i))
                if vcl[j] == 0:
                    need(inside(j, i) != YES, 'equal events %d and %d are in '
                         'each other\'s window but apart' % (i, j))
    for i in range(n):
        if vcl[i]:
            continue
        for j in range(n):
            if j != i and inside(i, j) == YES and rows[j][5] < rows[i][5]:
                need(vcl[j] != 0, 'event %d has smaller event %d in its '
                     'window, and both are in no cluster' % (i, j))
                need(rows[mains[vcl[j]]][5] >= rows[i][5], 'event %d is in '
                     'the window of %d but in the cluster of a smaller '
                     'event' % (j, i))
            elif j > i and vcl[j] == 0 and rows[j][5] == rows[i][5]:
                need(not (inside(i, j) == YES and inside(j, i) == YES),
                     'equal events %d and %d are in each other\'s window but '
                     'apart' % (i, j))
    obs.count('events', n)
    obs.count('clusters', len(members))
    obs.count('aftershocks', flag.count(1))
    obs.count('foreshocks', flag.count(-1))
    obs.count('mains_outside_clusters', vcl.count(0))
    return vcl, flag


def afteran_model(rows, method, days):
    """Reference for events of distinct magnitudes; None when a comparison
    is too close to call."""
    n = len(rows)
    dec, _, space = pair_tables(rows, method, 0)
    length = days / 365.
    order = sorted(range(n), key=lambda i: -rows[i][5])
    vcl, flag = [0] * n, [0] * n
    cluster = 0

    def within(gap):
        if gap < 0:
            return NO
        return ref.leq(gap, length, 1.)
    for pos, i in enumerate(order):
        if vcl[i]:
            continue
        cand = []
        for j in order[pos + 1:]:
            if vcl[j] == 0:
                if space[i][j] == MAYBE:
                    return None
                if space[i][j] == YES:
                    cand.append(j)
        after, fore = [], []
        last = dec[i]
        for j in cand:
            if -1e-9 < dec[j] - last < 1e-9 and dec[j] != last:
                return None
            ok = within(dec[j] - last)
            if ok == MAYBE:
                return None
            if ok:
                after.append(j)
                last = dec[j]
        last = dec[i]
        for j in cand:
            if j in after:
                continue
            ok = within(last - dec[j])
            if ok == MAYBE:
                return None
            if ok:
                fore.append(j)
                last = dec[j]
        if after or fore:
            cluster += 1
            vcl[i] = cluster
            for j in after:
                vcl[j], flag[j] = cluster, 1
            for j in fore:
                vcl[j], flag[j] = cluster, -1
    return vcl, flag


def afteran(rows, method, days, result, np, obs):
    vcl, flag, members, mains = shapes(rows, result, np)
    n = len(rows)
    dec, _, space = pair_tables(rows, method, 0)
    length = days / 365.
    for c, i in mains.items():
        for j in members[c]:
            if j == i:
                continue
            need(space[i][j] != NO, 'event %d is in the cluster of %d but '
                 'outside its distance window' % (j, i))
            dt = dec[j] - dec[i]
            need(dt == 0 or flag[j] == (1 if dt > 0 else -1), 'event %d, %r '
                 'years from its main event, is flagged %d' % (j, dt, flag[j]))
        for sign in (1, -1):
            when = sorted([sign * dec[i]] + [
                sign * dec[j] for j in members[c] if flag[j] == sign])
            for a, b in zip(when, when[1:]):
                need(ref.leq(b - a, length, 1.) != NO, 'cluster %d has a gap '
                     'of %r years, the window is %r' % (c, b - a, length))
    # an event next to a larger unclustered one within the window
    for i in range(n):
        if vcl[i]:
            continue
        for j in range(n):
            if rows[j][5] < rows[i][5] and vcl[j] == 0 and \
                    space[i][j] == YES:
                need(ref.leq(abs(dec[j] - dec[i]), length, 1.) != YES,
                     'event %d is within the window of larger event %d, and '
                     'both are in no cluster' % (j, i))
    obs.count('events', n)
    obs.count('clusters', len(members))
    obs.count('aftershocks', flag.count(1))
    obs.count('foreshocks', flag.count(-1))
    mags = [r[5] for r in rows]
    if len(set(mags)) == n:
        model = afteran_model(rows, method, days)
        if model is None:
            obs.count('too_close_to_call')
        else:
            need(model[1] == flag, 'flags %r instead of %r' % (
                flag, model[1]))
            need(model[0] == vcl, 'clusters %r instead of %r' % (
                vcl, model[0]))
            obs.count('compared_with_model')
    return vcl, flag
