"""Every algorithm gets its configured parameters and its own data."""
from mtv import flow, gen, rec
from mtv.core import Check, need

WORDS = {
    'GardnerKnopoff': ['catalogue', 'time_dist_windows',
                       'foreshock_time_window'],
    'Afteran': ['catalogue', 'time_dist_windows', 'time_window'],
    'Stepp': ['years', 'magnitudes', 'magnitude_windows', 'time_window',
              'sensitivity', 'increment_lock'],
    'select': ['years', 'magnitudes', 'table years', 'table magnitudes',
               'flags'],
    'Recurrence': ['years', 'magnitudes', 'table', 'magnitude_window',
                   'recurrence_algorithm', 'reference_magnitude',
                   'time_window'],
    'MaximumMagnitude': ['years', 'magnitudes', 'uncertainties',
                         'maxim_mag_algorithm', 'iteration_tolerance',
                         'maximum_iterations', 'neq', 'number_samples',
                         'number_bootstraps'],
}


class C30(Check):
    ID = 'C30'
    RULE = ('whole runs with recording stand-ins for the algorithms; every '
            'argument of every call is compared with the configured value or '
            'with the events and table the earlier steps left, and every '
            'returned value is followed into the sources; non-trivial when '
            'two or more calls were compared')
    QUICK = 4800
    THOROUGH = 36000
    MIN = {'calls': 500, 'arguments': 3000, 'Stepp': 50, 'Recurrence': 100,
           'MaximumMagnitude': 100, 'GardnerKnopoff': 50, 'Afteran': 50,
           'select': 30}
    ANCHORS = ('mtoolkit/workflow.py', 'mtoolkit/jobs.py')

    def setup(self, env):
        import numpy
        self.np = numpy

    LARGE = 1

    def large(self, rng, i):
        case = None
        while case is None or not case['post'] or not case['process'] or \
                case.get('unknown'):
            case = self.gen(rng, 'quick')
        more = flow.scenario(rng, n=1200, nsrc=40, sigma=False)
        case['config']['source_model'] = True
        return dict(case, rows=more['rows'], sources=more['sources'])

    def gen(self, rng, tier):
        return rec.case(rng)

    def run(self, case, obs):
        np = self.np
        out, recd, cfg = rec.run(np, case, self.env.fresh())
        need(out.exc is None, 'no result: %r\n%s' % (out.exc, out.tb))
        calls, selected, end = rec.plan(np, case, recd)
        need(len(calls) == len(recd.calls), '%d calls instead of %d' % (
            len(recd.calls), len(calls)))
        for have, want in zip(recd.calls, calls):
            name = want[0]
            need(have[0] == name, '%s ran instead of %s' % (have[0], name))
            for word, a, b in zip(WORDS[name], have[1], want[1]):
                if hasattr(b, 'shape'):
                    same = np.shape(a) == np.shape(b) and np.array_equal(a, b)
                else:
                    same = gen.same(a, b)
                need(same, '%s got %s %r instead of %r' % (name, word, a, b))
                obs.count('arguments')
            obs.count(name)
        # what is left for those who look at the context afterwards
        for name in ('completeness_table', 'working_catalog', 'flag_vector'):
            have, want = getattr(out.value, name), np.asarray(end[
                {'completeness_table': 'table', 'working_catalog': 'work',
                 'flag_vector': 'flags'}[name]], dtype=float)
            need(np.shape(have) == np.shape(want) and np.array_equal(
                have, want), '%s is %r instead of %r' % (name, have, want))
        for src, want in zip(out.value.sm_definitions, end['sources']):
            view = gen.source_view(src)
            for key in ('a', 'b', 'mmin', 'mmax'):
                need(float(view[key]) == float(want[key]), 'source %s has %s '
                     '%r instead of %r' % (view['area_source_id'], key,
                                           view[key], want[key]))
        if selected is not None:
            with open(cfg['pprocessing_result_file']) as f:
                import csv
                ids = [r['eventID'] for r in csv.DictReader(f)]
            need(ids == [str(e['eventID']) for e, s in zip(
                end['entries'], selected) if s == 0],
                'stored events %r for selection %r' % (ids, selected))
        obs.count('calls', len(calls))
        if len(calls) > 1:
            obs.mark()


CHECK = C30()
