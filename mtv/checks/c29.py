"""Zones with too few events keep their values, with a warning."""
import logging
import math

from mtv import flow, gen, rec, ref
from mtv.core import Check, attempt, need

MINE = {'Recurrence': ('a', 'b'), 'MaximumMagnitude': ('mmax',)}


class Log(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self, logging.WARNING)
        self.seen, self.records = [], []

    def emit(self, record):
        if all(record is not r for r in self.records):
            self.records.append(record)
            self.seen.append(record.getMessage())


class C29(Check):
    ID = 'C29'
    RULE = ('whole runs with zones without events, with one to three events, '
            'with events of one magnitude or of one year, next to zones with '
            'many, in any order, and runs with stand-ins for the algorithms '
            'that return values that are no numbers; non-trivial when a zone '
            'kept its values next to one that was updated')
    QUICK = 2400
    THOROUGH = 18000
    MIN = {'empty_zones': 100, 'small_zones': 100, 'kept': 200,
           'updated': 100, 'warnings': 200,
           'unusable_results': 50}
    ANCHORS = ('mtoolkit/jobs.py', 'mtoolkit/workflow.py')

    def setup(self, env):
        import numpy
        self.np = numpy

    def gen(self, rng, tier):
        if rng.random() < 0.2:
            c = None
            while c is None or not (c['process'] and c['post']):
                c = rec.case(rng)
            return dict(c, stand_ins=True)
        c = flow.scenario(rng, n=rng.choice([20, 60, 120]), nsrc=1,
                          sigma=False)
        c['config']['source_model'] = True
        c['process'] = True
        c['store'] = False
        c['pre'] = rng.choice([[], [], ['GardnerKnopoff'], ['Stepp']])
        c['post'] = rng.choice([['Recurrence'], ['MaximumMagnitude'],
                                ['Recurrence', 'MaximumMagnitude'],
                                ['MaximumMagnitude', 'Recurrence']])
        # distant boxes, each with its own few events
        rows = c['rows']
        for k in range(rng.randint(1, 3)):
            lon, lat = -170. + 12 * k, -75.
            src = gen.source(rng, k + 1, [
                (lon, lat), (lon + 4, lat), (lon + 4, lat + 4),
                (lon, lat + 4)])
            src['area_source_id'] = 'small%d' % k
            src['name'] = 'small'
            kind = rng.choice(['none', 'one', 'few', 'same magnitude',
                               'same year'])
            n = {'none': 0, 'one': 1}.get(kind, rng.randint(2, 6))
            mag, year = round(rng.uniform(4, 6), 2), rng.randint(1961, 2008)
            for _ in range(n):
                row = dict(rows[0])
                row.update({
                    'eventID': str(5000 + rng.randint(1, 4000)),
                    'longitude': repr(round(lon + rng.uniform(.1, 3.9), 3)),
                    'latitude': repr(round(lat + rng.uniform(.1, 3.9), 3)),
                    'year': str(year if kind == 'same year' else
                                rng.randint(1961, 2008)),
                    'month': str(rng.randint(1, 12)),
                    'day': str(rng.randint(1, 28)),
                    'Mw': repr(mag if kind == 'same magnitude' else round(
                        rng.uniform(4, 6), 2)), 'sigmaMw': '0'})
                rows.insert(rng.randint(0, len(rows)), row)
            c['sources'].insert(rng.randint(0, len(c['sources'])), src)
        if rng.random() < 0.2:
            # the only one
            c['sources'] = [rng.choice(c['sources'])]
        return c

    def stand_ins(self, case, obs):
        """Runs whose algorithms return results that are no numbers."""
        log = Log()
        logger = logging.getLogger('mt_logger')
        logger.addHandler(log)
        try:
            out, recd, cfg = rec.run(self.np, dict(case, twice=False),
                                     self.env.fresh())
        finally:
            logger.removeHandler(log)
        need(out.exc is None, 'no result: %r\n%s' % (out.exc, out.tb))
        calls, _, end = rec.plan(self.np, case, recd)
        need(end is not None and len(calls) == len(recd.calls),
             '%d calls instead of %d' % (len(recd.calls), len(calls)))
        for src, want in zip(out.value.sm_definitions, end['sources']):
            view = gen.source_view(src)
            for key in ('a', 'b', 'mmin', 'mmax'):
                need(float(view[key]) == float(want[key]), '%s of source %s '
                     'is %r instead of %r' % (
                         key, view['area_source_id'], view[key], want[key]))
        need(len(log.seen) >= end['left'], '%d warnings for %d values that '
             'were not computed: %r' % (len(log.seen), end['left'], log.seen))
        need(end['left'] or not log.seen,
             'warnings without reason: %r' % log.seen)
        obs.count('unusable_results', end['left'])
        if end['left']:
            obs.mark()

    def run(self, case, obs):
        if case.get('stand_ins'):
            self.stand_ins(case, obs)
            return
        np = self.np
        cfg = flow.write(self.env.fresh(), case)
        log = Log()
        logger = logging.getLogger('mt_logger')
        root = logging.getLogger()
        logger.addHandler(log)
        root.addHandler(log)
        try:
            out = attempt(flow.run_workflow, cfg)
        finally:
            logger.removeHandler(log)
            root.removeHandler(log)
        need(out.exc is None, 'no result: %r\n%s' % (out.exc, out.tb))
        want = flow.expected(np, case)
        views = [gen.source_view(s) for s in out.value.sm_definitions]
        need(len(views) == len(case['sources']), '%d sources' % len(views))
        skipped = kept = updated = 0
        for src, view, exp, zone in zip(case['sources'], views,
                                        want['sources'], want['zones']):
            for key in ('a', 'b', 'mmin', 'mmax'):
                need(math.isfinite(view[key]), 'source %s has %s %r' % (
                    src['area_source_id'], key, view[key]))
                need(view[key] == exp[key] or abs(view[key] - exp[key]) <=
                     1e-9 * abs(exp[key]), '%s of source %s is %r instead of '
                     '%r' % (key, src['area_source_id'], view[key], exp[key]))
            missed = len(case['post']) - exp.get('done', 0)
            skipped += missed
            kept += missed == len(case['post'])
            updated += missed == 0
            if len(zone) == 0:
                bad = gen.diff(src, view)
                need(bad is None, 'source without events changed: %s' % bad)
                obs.count('empty_zones')
            elif len(zone) < 7:
                obs.count('small_zones')
        seen = len(log.seen)
        need(seen >= skipped, '%d warnings for %d values that were not '
             'computed: %r' % (seen, skipped, log.seen))
        # Stepp has a warning of its own, about its tolerance
        need(skipped or not log.seen or 'Stepp' in case['pre'],
             'warnings without reason: %r' % log.seen)
        obs.count('warnings', len(log.seen))
        obs.count('kept', kept)
        obs.count('updated', updated)
        if kept and updated:
            obs.mark()


CHECK = C29()
