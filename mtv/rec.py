"""Recorded runs: the algorithms are replaced, through the table the context
offers, by stand-ins that record what they are given and return known
results."""
import inspect
import math

from mtv import flow, gen, ref
from mtv.core import attempt

NAMES = {'gardner_knopoff': 'GardnerKnopoff', 'afteran': 'Afteran',
         'stepp': 'Stepp', 'select_eq_vector': 'select',
         'recurrence': 'Recurrence', 'maximum_magnitude': 'MaximumMagnitude'}


def case(rng):
    c = flow.scenario(rng, n=rng.choice([1, 3, 10, 40]) if rng.random() < 0.97
                      else 1000)
    c['config'] = flow.job_parameters(rng, {
        'source_model': c['config']['source_model']}, True)
    pool = ['GardnerKnopoff', 'Stepp', 'Afteran']
    c['pre'] = [j for j in rng.sample(pool, rng.choice([0, 1, 2, 2]))]
    both = 'Afteran' in c['pre'] and 'GardnerKnopoff' in c['pre']
    if rng.random() < 0.15 and 'Stepp' in c['pre']:
        c['pre'].append('Stepp')
    c['post'] = rng.choice([
        [], ['Recurrence'], ['MaximumMagnitude'],
        ['Recurrence', 'MaximumMagnitude'],
        ['MaximumMagnitude', 'Recurrence'],
        ['Recurrence', 'MaximumMagnitude', 'Recurrence']])
    c['store'] = rng.random() < 0.5
    if both and c['pre'].index('Afteran') < c['pre'].index('GardnerKnopoff'):
        # its flags are about what the first one left, too few to store
        c['store'] = False
    p = c['config']
    if rng.random() < 0.1:
        p['Recurrence']['reference_magnitude'] = -1.0
    if rng.random() < 0.1:
        p['MaximumMagnitude']['number_bootstraps'] = 1
    for row in c['rows']:
        if rng.random() < 0.1:
            row['Mw'] = '%.9f' % rng.uniform(3, 7)
    if rng.random() < 0.1:
        # micro-earthquakes
        for row in c['rows']:
            row['Mw'] = repr(round(float(row['Mw']) - 7., 6))
    if rng.random() < 0.1:
        for row in c['rows']:
            row['year'] = str(int(row['year']) - 2005)
    # a table to retrieve when there is no preprocessing
    c['retrieve'] = not c['pre'] and rng.random() < 0.6
    c['given'] = [[float(rng.randint(1900, 2000)), round(4 + .1 * k, 5)]
                  for k in range(rng.randint(1, 4))]
    if rng.random() < 0.3:
        rng.shuffle(c['given'])
    c['table_only'] = rng.random() < 0.5
    c['seed'] = rng.randint(0, 10 ** 9)
    c['twice'] = rng.random() < 0.15
    return c


def usable(name, result):
    """Whether the values a source would take are numbers."""
    return all(math.isfinite(float(v)) for v in (
        (result[0], result[2]) if name == 'Recurrence' else result[:1]))


class Recorder(object):
    def __init__(self, np, seed):
        import random
        self.np = np
        self.rng = random.Random(seed)
        self.calls = []
        self.results = []

    def install(self, ctx):
        # a table of this context alone
        table = dict(ctx.map_sc)
        for key in NAMES:
            if key in table:
                table[key] = self.stand_in(key, table[key])
        try:
            ctx.map_sc = table
        except AttributeError:
            ctx.map_sc.update(table)
        self.ctx = ctx

    def stand_in(self, key, real):
        sig = inspect.signature(real)
        name = NAMES[key]

        def call(*args, **kwargs):
            bound = sig.bind(*args, **kwargs)
            bound.apply_defaults()
            given = dict((k, self.copy(v))
                         for k, v in bound.arguments.items())
            result = self.result(name, list(bound.arguments.values()))
            self.calls.append((name, list(given.values()),
                               getattr(self.ctx, 'cur_sm', None)))
            self.results.append(result)
            if name == 'Recurrence' and self.rng.random() < 0.2 and \
                    not usable(name, result):
                raise ValueError('no recurrence')
            return result
        return call

    def copy(self, value):
        return value.copy() if hasattr(value, 'copy') and hasattr(
            value, 'shape') else value

    def result(self, name, args):
        np, rng = self.np, self.rng
        if name in flow.DECLUSTER:
            n = len(args[0])
            flag = np.array([rng.choice([0, 0, 0, 1, -1]) for _ in range(n)],
                            dtype=int)
            if n:
                flag[rng.randrange(n)] = 0
            return np.abs(flag), args[0][flag == 0], flag
        if name == 'Stepp':
            return np.array([[float(rng.randint(1900, 2000)),
                              3 + k * .25] for k in range(rng.randint(1, 5))])
        if name == 'select':
            return np.array([rng.choice([0, 1]) for _ in args[0]], dtype=int)
        base = rng.choice([
            round(rng.uniform(0.1, 9), 6), round(rng.uniform(0.1, 9), 6),
            round(rng.uniform(-9, 0), 6), rng.choice([
                0.0, -1.0, 1e6, 1e-9, 60.0, -25.0, 1.0])])
        if name in ('Recurrence', 'MaximumMagnitude') and \
                rng.random() < 0.15:
            # too few events for a number
            bad = np.float64(rng.choice(['nan', 'nan', 'inf', '-inf']))
            one, two = rng.choice([(bad, bad), (bad, np.float64(base)),
                                   (np.float64(base), bad)])
            return (one, bad, two, bad) if name == 'Recurrence' else (
                bad, np.float64(base) if rng.random() < 0.5 else bad)
        if name == 'Recurrence':
            return (np.float64(base), np.float64(base / 7),
                    np.float64(base + 1), np.float64(base / 5))
        return np.float64(base), np.float64(base / 3)


def run(np, case, folder):
    """(outcome, recorder, configuration) of a recorded run."""
    cfg = flow.write(folder, case)
    if case['retrieve']:
        cfg['completeness_table_file'] = folder + '/given.csv'
        with open(folder + '/given.csv', 'w') as f:
            for r in case['given']:
                f.write('%10.5f,%10.5f\n' % tuple(r))
    rec = Recorder(np, case['seed'])
    before = Recorder(np, case['seed'] + 1).install if case.get('twice') \
        else None
    out = attempt(flow.run_workflow, cfg, rec.install, before)
    return out, rec, cfg


def plan(np, case, rec):
    """The calls a run has to make, in order: (name, arguments, index of the
    source). Follows the results the stand-ins returned."""
    cfg = case['config']
    entries = [ref.clean_entry(r) for r in case['rows']]
    full = np.array(flow.matrix_of(entries), dtype=float)
    work, flags = full, np.zeros(len(full))
    table = np.array([[full[:, 0].min(), full[:, 5].min()]])
    if case['retrieve']:
        table = np.array(case['given'])
    results = iter(rec.results)
    calls, selected, left = [], None, 0

    def take():
        return next(results, None)
    for job in case['pre']:
        p = cfg[job]
        if job in flow.DECLUSTER:
            # Afteran starts from the whole catalogue
            given = full if job == 'Afteran' else work
            calls.append((job, [given, p['time_dist_windows'], p[
                'foreshock_time_window' if job == 'GardnerKnopoff' else
                'time_window']], None))
            r = take()
            if r is None:
                return calls, None, None
            work, flags = r[1], r[2]
        else:
            calls.append((job, [work[:, 0], work[:, 5],
                                p['magnitude_windows'], p['time_window'],
                                p['sensitivity'], p['increment_lock']], None))
            r = take()
            if r is None:
                return calls, None, None
            table = r
    if case['pre'] and case['store']:
        calls.append(('select', [full[:, 0], full[:, 5], table[:, 0],
                                 table[:, 1], flags], None))
        selected = take()
    if case['config']['source_model']:
        sources = [dict(s) for s in case['sources']]
        zones = []
        for s in sources:
            ring = ref.exact([tuple(p) for p in s['points']])
            zones.append(np.array([r for r in work if ref.strictly_inside(
                ring, (r[3], r[4]))]))
    else:
        sources, zones = [flow.default_view()], [work]
    if case['process']:
        for k, (src, eqs) in enumerate(zip(sources, zones)):
            for job in case['post']:
                if not len(eqs):
                    left += 1
                    continue
                p = cfg[job]
                if job == 'Recurrence':
                    calls.append((job, [
                        eqs[:, 0], eqs[:, 5], table, p['magnitude_window'],
                        p['recurrence_algorithm'], p['reference_magnitude'],
                        p['time_window']], k))
                    r = take()
                    if r is not None and not usable(job, r):
                        left += 1
                    elif r is not None:
                        src.update(b=float(r[0]), a=float(r[2]),
                                   mmin=p['reference_magnitude'])
                else:
                    calls.append((job, [
                        eqs[:, 0], eqs[:, 5], eqs[:, 6],
                        p['maxim_mag_algorithm'], p['iteration_tolerance'],
                        p['maximum_iterations'], p['neq'],
                        p['number_samples'], p['number_bootstraps']], k))
                    r = take()
                    if r is not None and not usable(job, r):
                        left += 1
                    elif r is not None:
                        src.update(mmax=float(r[0]))
    return calls, selected, {'sources': sources, 'table': table,
                             'work': work, 'entries': entries,
                             'flags': flags, 'left': left}
