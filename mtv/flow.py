"""Whole runs: random configurations with their input files."""
import contextlib
import io
import json
import logging
import os
import sys

from mtv import gen, ref

DECLUSTER = ('GardnerKnopoff', 'Afteran')
METHODS = ('GardnerKnopoff', 'Gruenthal', 'Uhrhammer')


def catalogue(rng, n, polygons, tie=0.3, decimals=2, sigma=True, span=None):
    """Raw rows with events in and around the polygons."""
    rows = gen.matrix(rng, n, tie=tie, years=span or (1960, 2009))
    out = []
    for k, r in enumerate(rows):
        row = gen.good_row(rng, k + 1, 0.02)
        lon, lat = r[3], r[4]
        if polygons and rng.random() < 0.75:
            pts = rng.choice(polygons)
            xs, ys = [p[0] for p in pts], [p[1] for p in pts]
            lon = round(rng.uniform(min(xs), max(xs)), 4)
            lat = round(rng.uniform(min(ys), max(ys)), 4)
        row.update({
            'year': str(int(r[0])), 'month': str(int(r[1])),
            'day': str(int(r[2])), 'longitude': repr(lon),
            'latitude': repr(lat), 'Mw': repr(round(r[5], decimals)),
            'sigmaMw': repr(r[6]) if sigma else rng.choice(['', '0', '0.0'])})
        out.append(row)
    # events that agree in what the analyses use
    for k in range(rng.choice([0, 0, 1, 3])):
        row = dict(rng.choice(out))
        if rng.random() < 0.7:
            row['eventID'] = str(8001 + k)
            row['Agency'] = 'again'
        out.insert(rng.randint(0, len(out)), row)
    # two lone events, so that the catalogue spans all the years
    for k, (year, mag) in enumerate(((1960, 4.1), (2009, 4.3))):
        row = dict(out[0], eventID=str(9001 + k), year=str(year), month='6',
                   day='15', latitude=repr(-89. + k), Mw=repr(mag))
        out.insert(rng.randint(0, len(out)), row)
    return out


def matrix_of(entries):
    return [[e[f] for f in ('year', 'month', 'day', 'longitude', 'latitude',
                            'Mw', 'sigmaMw')] for e in entries]


def job_parameters(rng, config, rich=False):
    """Parameters of all the jobs."""
    def some(usual, *rare):
        return rng.choice(rare if rich and rng.random() < 0.2 else usual)
    config['GardnerKnopoff'] = {
        'time_dist_windows': rng.choice(METHODS),
        'foreshock_time_window': some([0, 0.25, 0.5, 1], 1.75, 0.123)}
    config['Afteran'] = {'time_dist_windows': rng.choice(METHODS),
                         'time_window': some([10., 60.0, 200], 33.3, 1000, 0)}
    config['Stepp'] = {
        'time_window': some([1, 2, 5], 1.5, 7.25, 40),
        'magnitude_windows': some([0.1, 0.2, 0.5, 0.25], 0.05, 1.5, 0.333),
        'sensitivity': some([0.1, 0.2, 0.5], 1.5, 0.005, 0),
        'increment_lock': True if not rich else rng.random() < 0.6}
    config['Recurrence'] = {
        'magnitude_window': some([0.1, 0.2, 0.5], 0.25, 0.05, 1.5, 0.333),
        'recurrence_algorithm': rng.choice(['Weichert', 'MLE']),
        'reference_magnitude': some([0.0, 2.0, 4.5, 1.1], 3, -2.5, 9.75),
        'time_window': some([0.5, 1.0, 2.0], 0.25, 7.5, 1)}
    config['MaximumMagnitude'] = {
        'maxim_mag_algorithm': rng.choice(['Kijko_Npg', 'Cumulative_Moment']),
        'iteration_tolerance': some([1e-3, 1e-2], 1e-9, 0.5, 1),
        'maximum_iterations': some([3, 20], 1, 5000),
        'neq': some([10, 100], 1, 7, 100000),
        'number_samples': some([11, 51], 2, 1001),
        'number_bootstraps': some([5, 20], 1, 3000)}
    return config


def scenario(rng, n=None, nsrc=None, decimals=2, sigma=True):
    """A whole run as plain data."""
    n = n or rng.choice([5, 20, 60, 150])
    nsrc = nsrc or rng.choice([1, 2, 3])
    sources, polygons = [], []
    centre = None
    for k in range(nsrc):
        pts = gen.polygon(rng, rng.choice(['box', 'L', 'star', 'tri']))[1]
        if centre and rng.random() < 0.7:
            # a neighbour, often overlapping
            dx, dy = centre[0] - pts[0][0], centre[1] - pts[0][1]
            moved = [(round(p[0] + dx, 4), round(p[1] + dy, 4)) for p in pts]
            if ref.simple_ring(ref.exact(moved)) and all(
                    -180 <= p[0] <= 180 and -90 <= p[1] <= 90 for p in moved):
                pts = moved
        centre = centre or pts[0]
        src = gen.source(rng, k, pts)
        src['area_source_id'] = 'src%d' % k
        src['name'] = src['name'].strip() or 'zone'
        if sources and rng.random() < 0.15:
            src['name'] = sources[0]['name']
        sources.append(src)
        polygons.append(pts)
    config = job_parameters(rng, {})
    config['source_model'] = rng.random() < 0.85
    pre = rng.choice([[], ['GardnerKnopoff'], ['Afteran'], ['Stepp'],
                      ['GardnerKnopoff', 'Stepp'], ['Stepp', 'Afteran'],
                      ['Afteran', 'Stepp'], ['Stepp', 'GardnerKnopoff']])
    post = rng.choice([[], ['Recurrence'], ['Recurrence', 'MaximumMagnitude'],
                       ['MaximumMagnitude'],
                       ['MaximumMagnitude', 'Recurrence']])
    return {'rows': catalogue(rng, n, polygons, decimals=decimals,
                              sigma=sigma),
            'sources': sources, 'config': config, 'pre': pre, 'post': post,
            'process': rng.random() < 0.85, 'store': rng.random() < 0.6,
            'blank': rng.random() < 0.1}


def yaml_text(config):
    return ''.join('%s: %s\n' % (k, json.dumps(v))
                   for k, v in config.items())


def write(folder, case, names=None):
    """The files of a run; returns its configuration."""
    names = names or {}
    cfg = dict((k, v) for k, v in case['config'].items()
               if k != 'source_model')

    def at(key, default):
        return names.get(key, os.path.join(folder, default))
    cat, model = at('cat', 'cat.csv'), at('model', 'model.xml')
    with open(cat, 'w') as f:
        f.write(gen.csv_text(case['rows']))
    with open(model, 'w') as f:
        f.write(gen.nrml(case['sources']))
    cfg['eq_catalog_file'] = cat
    # not configured
    none = '' if case.get('blank') else None
    cfg['source_model_file'] = model if case['config'].get(
        'source_model', True) else none
    cfg['result_file'] = at('result', 'result.xml')
    cfg['apply_processing_jobs'] = case['process']
    cfg['preprocessing_jobs'] = case['pre'] or ([] if case.get('blank') else None)
    cfg['processing_jobs'] = case['post'] or ([] if case.get('blank') else None)
    cfg['pprocessing_result_file'] = at('stored', 'stored.csv') \
        if case['store'] else none
    cfg['completeness_table_file'] = at('table', 'table.csv') \
        if case['pre'] and (case['store'] or case.get('table_only')) else none
    return cfg


def context(config):
    from mtoolkit import workflow
    ctx = workflow.Context()
    ctx.config = config
    return ctx


def run_workflow(config, prepare=None, before=None):
    """A run through the classes the command line uses; the context. The
    same objects have made another run before, if its preparation is given."""
    from mtoolkit import workflow, catalog_filter as cf
    pre = workflow.PreprocessingBuilder().build(config)
    post = workflow.ProcessingBuilder().build(config)
    flt = cf.CatalogFilter(cf.SourceModelCatalogFilter()) \
        if config['source_model_file'] else cf.CatalogFilter()
    flow = workflow.Workflow(pre, post)
    if before:
        first = context(config)
        before(first)
        flow.start(first, flt)
    ctx = context(config)
    if prepare:
        prepare(ctx)
    flow.start(ctx, flt)
    return ctx


def clean_logger():
    log = logging.getLogger('mt_logger')
    for handler in list(log.handlers):
        log.removeHandler(handler)
        handler.close()


class Run(object):
    def __init__(self):
        self.exc = None
        self.out = ''
        self.code = None


def command_line(tree, args, cwd):
    """main.py in this process, as if started from the shell."""
    import runpy
    import traceback
    res = Run()
    back, argv = os.getcwd(), sys.argv
    out = io.StringIO()
    os.chdir(cwd)
    sys.argv = ['main.py'] + list(args)
    clean_logger()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            runpy.run_path(os.path.join(tree, 'main.py'),
                           run_name='__main__')
    except SystemExit as exc:
        res.code = exc.code
    except Exception as exc:
        res.exc = exc
        res.out = traceback.format_exc(limit=-6)
    finally:
        sys.argv = argv
        os.chdir(back)
        clean_logger()
    res.out += out.getvalue()
    return res


# -- expected values ---------------------------------------------------------

def gr_of(source):
    return dict((k, source[k]) for k in ('a', 'b', 'mmin', 'mmax'))


def expected(np, case, matrix=None, table=None):
    """Expected outcome of a run, built from the algorithms themselves:
    which events they must be given, in which order, and what becomes of
    their results. None instead of a value when it is not determined."""
    from mtoolkit.scientific import (completeness, declustering, recurrence,
                                     maximum_magnitude)
    cfg = case['config']
    entries = [ref.clean_entry(r) for r in case['rows']]
    full = np.array(matrix if matrix is not None else matrix_of(entries),
                    dtype=float)
    work = full.copy()
    flags = np.zeros(len(full))
    if table is None:
        table = np.array([[min(full[:, 0]), min(full[:, 5])]])
    for job in case['pre']:
        if job == 'GardnerKnopoff':
            p = cfg[job]
            _, work, flags = declustering.gardner_knopoff_decluster(
                work, p['time_dist_windows'], p['foreshock_time_window'])
        elif job == 'Afteran':
            p = cfg[job]
            _, work, flags = declustering.afteran_decluster(
                full, p['time_dist_windows'], p['time_window'])
        else:
            p = cfg['Stepp']
            table = completeness.stepp_analysis(
                work[:, 0], work[:, 5], p['magnitude_windows'],
                p['time_window'], p['sensitivity'], p['increment_lock'])
    keep = [k for k in range(len(full)) if not flags[k] and not any(
        full[k, 0] < r[0] and full[k, 5] < r[1] for r in table)]
    res = {'table': table, 'flags': flags, 'work': work,
           'stored': [entries[k] for k in keep], 'sources': []}
    if case['config'].get('source_model', True):
        sources = [dict(s) for s in case['sources']]
    else:
        sources = None
    if sources is None:
        zones = [(None, work)]
        res['sources'] = [None]
    else:
        zones = []
        for s in sources:
            ring = ref.exact([tuple(p) for p in s['points']])
            zones.append((s, np.array([
                r for r in work if ref.strictly_inside(ring, (r[3], r[4]))])))
        res['sources'] = sources
    res['zones'] = [z for _, z in zones]
    if not case['process']:
        return res
    for k, (src, eqs) in enumerate(zones):
        src = dict(src) if src else {}
        for job in case['post']:
            if not len(eqs):
                continue
            if job == 'Recurrence':
                p = cfg['Recurrence']
                try:
                    b, sb, a, sa = recurrence.recurrence_analysis(
                        eqs[:, 0], eqs[:, 5], table, p['magnitude_window'],
                        p['recurrence_algorithm'], p['reference_magnitude'],
                        p['time_window'])
                except ValueError:
                    continue
                if np.isfinite(b) and np.isfinite(a):
                    src.update(a=float(a), b=float(b),
                               mmin=float(p['reference_magnitude']))
                    src['done'] = src.get('done', 0) + 1
            else:
                p = cfg['MaximumMagnitude']
                m, s = maximum_magnitude.maximum_magnitude_analysis(
                    eqs[:, 0], eqs[:, 5], eqs[:, 6],
                    p['maxim_mag_algorithm'], p['iteration_tolerance'],
                    p['maximum_iterations'], p['neq'], p['number_samples'],
                    p['number_bootstraps'])
                if np.isfinite(m):
                    src['mmax'] = float(m)
                    src['done'] = src.get('done', 0) + 1
        res['sources'][k] = src
    return res


def config_file(folder, case, cfg, detail=()):
    """Write the configuration; its path."""
    path = os.path.join(folder, case.get('cfg_name', 'config.yml'))
    with open(path, 'w') as f:
        f.write(yaml_text(cfg))
    return path


def snapshot(folder):
    """Every file below a folder with its bytes."""
    out = {}
    for path, _, files in os.walk(folder):
        for name in files:
            full = os.path.join(path, name)
            with open(full, 'rb') as f:
                out[os.path.relpath(full, folder)] = f.read()
    return out


def changed(before, after):
    """Names of the files that differ between two snapshots."""
    return sorted(n for n in set(before) | set(after)
                  if before.get(n) != after.get(n))


def default_view():
    """The source of runs without a source model, before processing."""
    return {
        'nrml_id': 'MTK', 'source_model_id': 'MTK', 'area_source_id': 'MTK',
        'name': 'MTK', 'tectonic_region': 'MTK', 'srs': 'MTK',
        'points': [[0., 0.]], 'a': 0., 'b': 0., 'mmin': 0., 'mmax': 0.,
        'tgr_type': 'MTK', 'strike': 0., 'dip': 90., 'rake': 0.,
        'mag_type': 'MTK', 'mags': [6.5], 'depths': [5000.], 'hypo': 5000.}


def process(tree, args, cwd, timeout=120):
    """main.py as a process of its own; (exit status, output)."""
    import subprocess
    env = dict(os.environ, PYTHONPATH=tree, PYTHONDONTWRITEBYTECODE='1')
    done = subprocess.run(
        [sys.executable, '-B', '-W', 'ignore', os.path.join(tree, 'main.py')]
        + list(args), cwd=cwd, env=env, stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT, timeout=timeout)
    return done.returncode, done.stdout.decode('utf-8', 'replace')
