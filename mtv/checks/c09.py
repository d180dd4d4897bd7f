"""The declustering windows are the published ones."""
from mtv import ref
from mtv.core import Check, must, need


class C09(Check):
    ID = 'C09'
    RULE = ('random magnitude vectors (-3 to 10, duplicates, the 6.5 break and '
            'its neighbours, one element, no magnitude of one branch) through '
            'each of the three window methods; all non-trivial')
    QUICK = 30000
    THOROUGH = 112500
    MIN = {'windows': 3000, 'at_break': 100}
    ANCHORS = ('mtoolkit/scientific/declustering.py',)

    def setup(self, env):
        import numpy
        from mtoolkit.scientific import declustering
        self.np, self.mod = numpy, declustering

    def gen(self, rng, tier):
        n = rng.choice([1, 1, 2, 5, 40])
        lo, hi = rng.choice([(0., 10.), (6., 7.), (2., 6.4), (6.6, 9.5)])
        mags = []
        for _ in range(n):
            k = rng.random()
            if k < 0.15:
                mags.append(6.5)
            elif k < 0.2:
                mags.append(rng.choice([6.499999999, 6.500000001]))
            else:
                mags.append(rng.choice([round(rng.uniform(lo, hi), 1),
                                        rng.uniform(lo, hi)]))
        if rng.random() < 0.15:
            mags[rng.randrange(n)] = round(rng.uniform(-3., 0.), 1)
        if rng.random() < 0.08:
            # whole numbers
            mags = [rng.randint(0, 9) for _ in range(n)]
        return {'mags': mags, 'perm': rng.sample(range(n), n)}

    def run(self, case, obs):
        np = self.np
        for name in ('GardnerKnopoff', 'Gruenthal', 'Uhrhammer'):
            if name == 'Gruenthal' and min(case['mags']) < 0:
                # the relation has no value there
                continue
            mags = np.array(case['mags'])
            space, time = must(self.mod.time_dist_windows[name].calc, mags)
            need(np.array_equal(mags, case['mags']), 'magnitudes changed')
            need(np.shape(space) == np.shape(time) == np.shape(mags),
                 'shapes %r %r' % (np.shape(space), np.shape(time)))
            for m, s, t in zip(case['mags'], space, time):
                ws, wt = ref.window(name, m)
                need(abs(s - ws) <= 1e-9 * ws and abs(t - wt) <= 1e-9 * wt,
                     '%s window of magnitude %r: %r km %r years instead of '
                     '%r km %r years' % (name, m, s, t, ws, wt))
                obs.count('windows')
                obs.count('below_zero', m < 0)
                obs.count('at_break', m == 6.5)
            if 'perm' in case:
                # the same magnitudes in another order
                again = must(self.mod.time_dist_windows[name].calc,
                             mags[case['perm']])
                need(np.array_equal(again[0], space[case['perm']]) and
                     np.array_equal(again[1], time[case['perm']]),
                     '%s windows depend on the order of the magnitudes' % name)
        obs.mark()


CHECK = C09()
