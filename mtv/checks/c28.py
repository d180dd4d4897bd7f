"""Analyses are functions of the set of events they are given."""
import os
import pickle
import signal
import sys

from mtv import flow, gen
from mtv.core import Check, attempt, must, need


def same(np, a, b, tol):
    """Equal shapes and values."""
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(np, x, y, tol)
                                        for x, y in zip(a, b))
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if tol == 0:
        return np.array_equal(a, b, equal_nan=True)
    return bool(np.all((np.abs(a - b) <= tol * np.maximum(1, np.abs(a))) | (
        np.isnan(a) & np.isnan(b)) | (a == b)))


class C28(Check):
    ID = 'C28'
    RULE = ('every analysis on random catalogues given as read-only and as '
            'writable arrays, as strided and as reversed views, twice, after '
            'another analysis, with integers for years, and with the events '
            'in another order; the '
            'results are compared bit by bit, for another order up to '
            'rounding; non-trivial when a result was compared in another '
            'order')
    QUICK = 6000
    THOROUGH = 72000
    WHAT = ('Afteran', 'Cumulative', 'GardnerKnopoff', 'Kijko', 'MLE',
            'Select', 'Stepp', 'Table', 'Weichert')
    MIN = dict((k, 50) for k in WHAT)
    ANCHORS = ('mtoolkit/scientific/declustering.py',
               'mtoolkit/scientific/completeness.py',
               'mtoolkit/scientific/recurrence.py',
               'mtoolkit/scientific/maximum_magnitude.py')
    ASSUMPTIONS = ['the largest event is unique where the order of equal '
                   'magnitudes is a free choice']

    def setup(self, env):
        import numpy
        from mtoolkit.scientific import (completeness, declustering,
                                         maximum_magnitude, recurrence)
        self.np = numpy
        self.comp, self.decl = completeness, declustering
        self.mmax, self.rec = maximum_magnitude, recurrence

    def gen(self, rng, tier):
        rows = gen.matrix(rng, rng.choice([2, 5, 20, 60]), tie=0.,
                          years=(1960, 2009))
        for k, (y, m) in enumerate(((1960, 4.11), (2009, 4.37))):
            rows.append([float(y), 6., 15., -120. + k, -80., m, 0.1])
        out = []
        for r in rows:
            r = list(r)
            # magnitudes off every bin edge
            r[5] = round(r[5], 4) + 0.00003
            out.append(r)
        cfg = flow.job_parameters(rng, {})
        table = [[float(rng.randint(1960, 2005)), 3.5]]
        for _ in range(rng.choice([0, 1, 3])):
            table.append([max(1950., table[-1][0] - rng.randint(0, 20)),
                          round(table[-1][1] + 0.2, 2)])
        return {'rows': out, 'config': cfg, 'table': table,
                'perm': rng.sample(range(len(out)), len(out)),
                'seed': rng.randint(0, 10 ** 6),
                'what': rng.choice(self.WHAT),
                'view': rng.choice(['plain', 'strided', 'fortran'])}

    def call(self, case, m, table, whole=False):
        """The analysis over a matrix of events."""
        cfg, what = case['config'], case['what']
        y, w, s = m[:, 0], m[:, 5], m[:, 6]
        if whole:
            y = y.astype(int)
        if what == 'GardnerKnopoff':
            p = cfg[what]
            return self.decl.gardner_knopoff_decluster(
                m, p['time_dist_windows'], p['foreshock_time_window'])
        if what == 'Afteran':
            p = cfg[what]
            return self.decl.afteran_decluster(
                m, p['time_dist_windows'], p['time_window'])
        if what == 'Stepp':
            p = cfg[what]
            return self.comp.stepp_analysis(
                y, w, p['magnitude_windows'], p['time_window'],
                p['sensitivity'], p['increment_lock'])
        if what == 'Select':
            flag = (m[:, 6] > 0.2).astype(int)
            return self.comp.selected_eq_flag_vector(
                y, w, table[:, 0], table[:, 1], flag)
        p = cfg['Recurrence']
        if what in ('Weichert', 'MLE'):
            return self.rec.recurrence_analysis(
                y, w, table, p['magnitude_window'], what,
                p['reference_magnitude'], p['time_window'])
        if what == 'Table':
            return self.rec.recurrence_table(w, p['magnitude_window'], y)
        p = cfg['MaximumMagnitude']
        if what == 'Kijko':
            return self.mmax.kijko_nonparametric_gauss(
                w, s, p['neq'], p['number_samples'], p['iteration_tolerance'],
                p['maximum_iterations'], False)
        return self.mmax.cum_mo_uncertainty(y, w, s * 0, 3, case['seed'])

    def likes(self, case):
        """Other catalogues that agree with this one in size, extremes and
        sums."""
        import random
        rng = random.Random(case['seed'])
        rows = [list(r) for r in case['rows']]
        # the columns apart from each other
        for k in range(3):
            cols = [[r[c] for r in rows] for c in range(7)]
            for c in rng.sample(range(7), rng.choice([1, 2])):
                rng.shuffle(cols[c])
            yield [list(r) for r in zip(*cols)], case['table']
        # inner magnitudes moved, places moved against each other
        moved = [list(r) for r in rows]
        by = sorted(range(len(rows)), key=lambda k: rows[k][5])
        for c, d in ((5, 0.01), (3, 0.1), (0, 1.), (4, 0.1)):
            if len(by) > 4:
                i, j = rng.sample(by[1:-1], 2)
                moved[i][c] += d
                moved[j][c] -= d
        yield rows, [[r[0] - 1, r[1]] for r in case['table']]
        yield moved, case['table']
        # the extremes kept, the rest closer to the smallest
        low, high = rows[by[0]][5], rows[by[-1]][5]
        yield [r[:5] + [r[5] if r[5] in (low, high) else
                        low + (r[5] - low) * 0.4] + r[6:]
               for r in rows], case['table']

    def apart(self, case, likes):
        """The results a process without memory of this catalogue gives."""
        back, there = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(120)
                # the hooks stay behind
                sys.monitoring.set_events(self.mon.tool, 0)
                out = []
                # from the last to the first
                for like in likes[::-1]:
                    res = attempt(self.call, case,
                                  *[self.np.array(x) for x in like])
                    out.append(None if res.exc is not None else res.value)
                with os.fdopen(there, 'wb') as f:
                    pickle.dump(out[::-1], f)
            finally:
                os._exit(0)
        os.close(there)
        with os.fdopen(back, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        need(data, '%s did not end in a process of its own' % case['what'])
        return pickle.loads(data)

    def run(self, case, obs):
        np = self.np
        base = np.array(case['rows'])
        tab = np.array(case['table'])

        def arrays(rows, frozen):
            m = np.array(rows)
            if case['view'] == 'strided':
                big = np.zeros((2 * len(m), 9))
                big[::2, 1:8] = m
                m = big[::2, 1:8]
            elif case['view'] == 'fortran':
                m = np.asfortranarray(m)
            t = np.array(case['table'])
            if frozen:
                m.flags.writeable = t.flags.writeable = False
            return m, t
        likes = list(self.likes(case))
        first = self.apart(case, likes) if case['seed'] % 4 == 0 else []
        m, t = arrays(case['rows'], False)
        one = attempt(self.call, case, m, t)
        need(np.array_equal(m, base) and np.array_equal(t, tab),
             '%s changed what it was given' % case['what'])
        m, t = arrays(case['rows'], True)
        two = attempt(self.call, case, m, t)
        need(type(one.exc) is type(two.exc), '%s ended in %r and then in %r'
             % (case['what'], one.exc, two.exc))
        if one.exc is not None:
            need(isinstance(one.exc, ValueError) and case['what'] in (
                'Weichert', 'MLE'), 'no result: %r\n%s' % (one.exc, one.tb))
            obs.count('refused')
            return
        need(same(np, one.value, two.value, 0), '%s gave %r, then %r, for the '
             'same events' % (case['what'], one.value, two.value))
        # after catalogues like it: of the same numbers and sums
        for k, value in enumerate(first):
            near = attempt(self.call, case, *[np.array(x) for x in likes[k]])
            near = None if near.exc is not None else near.value
            need((near is None) == (value is None) and (
                near is None or same(np, near, value, 0)),
                '%s gave %r first, %r after a catalogue like it' % (
                    case['what'], value, near))
            obs.count('like_it', near is not None)
        # over arrays it has already seen, after another analysis
        other = dict(case, what='GardnerKnopoff' if case['what'] != 'Afteran'
                     else 'Kijko')
        attempt(self.call, other, m, t)
        three = must(self.call, case, m, t)
        need(same(np, one.value, three, 0), '%s gave %r, then %r, after '
             'another analysis' % (case['what'], one.value, three))
        if case['what'] not in flow.DECLUSTER:
            # years as integers
            five = must(self.call, case, m, t, True)
            need(same(np, one.value, five, 1e-12), '%s gave %r, then %r, for '
                 'years that are integers' % (case['what'], one.value, five))
            obs.count('integer_years')
        perm = case['perm']
        pm, pt = arrays([case['rows'][k] for k in perm], False)
        four = must(self.call, case, pm, pt)
        what = case['what']
        if what in ('GardnerKnopoff', 'Afteran'):
            vcl, main, flag = one.value
            vcl2, main2, flag2 = four
            need(same(np, np.asarray(flag)[perm], flag2, 0), '%s flags %r '
                 'for one order of the events, %r for another' % (
                     what, np.asarray(flag)[perm], flag2))
            # the same partition into clusters
            a, b = np.asarray(vcl)[perm], np.asarray(vcl2)
            pairs = set(zip(a.tolist(), b.tolist()))
            need(len(pairs) == len(set(p[0] for p in pairs)) ==
                 len(set(p[1] for p in pairs)) and all(
                     (p[0] == 0) == (p[1] == 0) for p in pairs),
                 '%s clusters depend on the order of the events' % what)
            obs.count('events_removed', int((np.asarray(flag) != 0).sum()))
        elif what == 'Select':
            need(same(np, np.asarray(one.value)[perm], four, 0),
                 'selection depends on the order of the events')
        else:
            need(same(np, one.value, four, 1e-6 if what in (
                'Kijko', 'Weichert') else 1e-9), '%s gave %r, and %r for the '
                 'events in another order' % (what, one.value, four))
        obs.count(what)
        if perm != sorted(perm):
            obs.mark()


CHECK = C28()
