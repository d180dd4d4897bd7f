"""The configured jobs run, in the configured order, and no other."""
import os

from mtv import flow, gen, rec
from mtv.core import Check, attempt, need


class C20(Check):
    ID = 'C20'
    RULE = ('whole runs over random catalogues, source models and job lists '
            '(none, one, several, repeated, any order, unknown names, with '
            'and without processing, storing and source model) with recording '
            'stand-ins for the algorithms; non-trivial when two or more jobs '
            'ran or an unknown job was refused')
    QUICK = 4800
    THOROUGH = 36000
    MIN = {'jobs_run': 500, 'unknown_refused': 30, 'processing_off': 30,
           'no_source_model': 30, 'stored': 30, 'retrieved': 30}
    ANCHORS = ('mtoolkit/workflow.py', 'mtoolkit/jobs.py')

    def setup(self, env):
        import numpy
        self.np = numpy

    LARGE = 1

    def large(self, rng, i):
        case = None
        while case is None or not case['post'] or not case['process'] or \
                case.get('unknown'):
            case = self.gen(rng, 'quick')
        more = flow.scenario(rng, n=1200, nsrc=40, sigma=False)
        case['config']['source_model'] = True
        return dict(case, rows=more['rows'], sources=more['sources'])

    def gen(self, rng, tier):
        c = rec.case(rng)
        c['unknown'] = None
        if rng.random() < 0.15:
            which = rng.choice(['pre', 'post'])
            k = rng.randint(0, len(c[which]))
            c[which].insert(k, rng.choice([
                'Reasenberg', 'stepp', 'gardnerknopoff', '', 'Recurrence ',
                'Kijko_Npg', 'run']))
            c['unknown'] = which
        return c

    def run(self, case, obs):
        np = self.np
        folder = self.env.fresh()
        if case['unknown']:
            cfg = flow.write(folder, case)
            before = sorted(os.listdir(folder))
            recd = rec.Recorder(np, case['seed'])
            out = attempt(flow.run_workflow, cfg, recd.install)
            need(isinstance(out.exc, RuntimeError),
                 'job lists %r and %r ended in %r' % (
                     case['pre'], case['post'], out.exc))
            need(not recd.calls, 'algorithms ran: %r' % recd.calls)
            need(sorted(os.listdir(folder)) == before, 'files were written')
            obs.count('unknown_refused')
            obs.mark([case['pre'], case['post']])
            return
        out, recd, cfg = rec.run(np, case, folder)
        need(out.exc is None, 'no result: %r\n%s' % (out.exc, out.tb))
        ctx = out.value
        calls, selected, end = rec.plan(np, case, recd)
        need([c[0] for c in recd.calls] == [c[0] for c in calls],
             'ran %r instead of %r' % ([c[0] for c in recd.calls],
                                       [c[0] for c in calls]))
        for have, want in zip(recd.calls, calls):
            if want[2] is not None:
                need(have[2] is ctx.sm_definitions[want[2]],
                     '%s ran for another source than number %d' % (
                         want[0], want[2]))
        files = set(os.listdir(folder)) - set(['cat.csv', 'model.xml'])
        wanted = set()
        if case['retrieve']:
            wanted.add('given.csv')
        if case['store'] and case['pre']:
            wanted |= set(['stored.csv', 'table.csv'])
        need(files == wanted, 'files %r instead of %r' % (
            sorted(files), sorted(wanted)))
        need(len(ctx.eq_catalog) == len(case['rows']),
             'catalogue of %d events' % len(ctx.eq_catalog))
        if case['config']['source_model']:
            need([s.area_source_id for s in ctx.sm_definitions] ==
                 [s['area_source_id'] for s in case['sources']],
                 'sources %r' % [s.area_source_id for s in ctx.sm_definitions])
        else:
            need([s.area_source_id for s in ctx.sm_definitions] == ['MTK'],
                 'not the default source')
            obs.count('no_source_model')
        need(np.array_equal(ctx.completeness_table, end['table']),
             'completeness table %r instead of %r' % (
                 ctx.completeness_table, end['table']))
        need(np.array_equal(ctx.working_catalog, end['work']),
             'the working catalogue is not what the last job left')
        self.equality(case, cfg, obs)
        obs.count('jobs_run', len(calls))
        obs.count('processing_off', not case['process'])
        obs.count('stored', len(wanted) == 2)
        obs.count('retrieved', case['retrieve'])
        if len(calls) > 1:
            obs.mark()

    def equality(self, case, cfg, obs):
        """Job queues compare by their jobs."""
        from mtoolkit import workflow
        for make, key in (
                (workflow.PreprocessingBuilder, 'preprocessing_jobs'),
                (workflow.ProcessingBuilder, 'processing_jobs')):
            one, two = make().build(cfg), make().build(dict(cfg))
            need(one == two and not one != two,
                 'queues of one configuration are not equal')
            jobs = list(cfg[key] or ())
            for other in (jobs[:-1], jobs[::-1], jobs + jobs[:1],
                          jobs[1:] + jobs[:1]):
                if not other:
                    continue
                third = make().build(dict(cfg, **{key: other}))
                same = other == jobs
                need((one == third) is same and (one != third) is not same,
                     'queues of %r and of %r are taken to be %s' % (
                         jobs, other, 'unequal' if same else 'equal'))
                obs.count('queues_compared')


CHECK = C20()
