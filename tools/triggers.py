"""Which kinds of input do the workloads reach? (a development tool)

  triggers.py CHECK [--tier thorough] [--pairs]

Runs a check on a copy of /repo whose functions note the properties of their
arguments (TRIGGERS below) when they are called, and prints the properties,
and with --pairs the pairs of them, that no call had."""
import itertools
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = '/tmp/trig'

HELP = '''
import os as _os
import functools as _ft
import inspect as _in
import itertools as _it
import numpy as _np
_SEEN = {}


def _note(name, hits, every):
    hits = sorted(hits)
    out = []
    for c in [(h,) for h in hits] + list(_it.combinations(hits, 2)):
        key = (name, c)
        _SEEN[key] = _SEEN.get(key, 0) + 1
        if _SEEN[key] in (1, 3, 30):
            out.append('%s %s %d' % (name, '&'.join(c), _SEEN[key]))
    if out:
        fd = _os.open(%(log)r, _os.O_WRONLY | _os.O_APPEND | _os.O_CREAT)
        _os.write(fd, ('\\n'.join(out) + '\\n').encode())
        _os.close(fd)


def _watch(func, name, table):
    table = [(k, compile(c, k, 'eval')) for k, c in table]
    sig = _in.signature(func)

    @_ft.wraps(func)
    def call(*args, **kw):
        try:
            bound = sig.bind(*args, **kw)
            bound.apply_defaults()
            space = dict(bound.arguments)
            space['np'] = _np
            space.update(_HELPERS)
            hits = []
            for key, code in table:
                try:
                    if space['_ok'](code, space) and eval(code, space):
                        hits.append(key)
                except Exception as exc:
                    hits.append('BROKEN:' + key + repr(exc)[:60])
            _note(name, hits, table)
        except Exception as exc:
            _note(name, ['BROKEN:%%r' %% exc], table)
        return func(*args, **kw)
    return call


_HELPERS = {
    'n': lambda a: len(a),
    '_ok': lambda code, sp: not any(
        _np.size(sp[v]) == 0 for v in code.co_names if isinstance(
            sp.get(v), _np.ndarray)),
    'dup': lambda a: len(set(_np.ravel(a).tolist())) < _np.size(a),
    'same': lambda a: len(set(_np.ravel(a).tolist())) == 1,
    'up': lambda a: bool(_np.all(_np.diff(a) >= 0)),
    'strict': lambda a: bool(_np.all(_np.diff(a) > 0)),
    'down': lambda a: bool(_np.all(_np.diff(a) <= 0)),
    'dec': lambda a, d: bool(_np.any(_np.abs(_np.round(a, d) - a) > 1e-12)),
    'frac': lambda a: bool(_np.any(_np.mod(a, 1) != 0)),
}
'''


def arrays(name, var, extra=()):
    return [(name + k, v.replace('$', var)) for k, v in (
        ('=same', 'n($) > 1 and same($)'), ('-dup', 'dup($)'),
        ('-distinct', 'n($) > 2 and not dup($)'),
        ('-up', 'n($) > 2 and strict($)'),
        ('-down', 'n($) > 2 and down($) and not same($)'),
        ('-mixed', 'n($) > 2 and not up($) and not down($)'),
    ) + tuple(extra)]


def size(var, steps=(1, 2, 3)):
    return [('n=%d' % k, 'n(%s) == %d' % (var, k)) for k in steps] + [
        ('n>%d' % k, 'n(%s) > %d' % (var, k)) for k in (
            20, 100, 127, 255, 300, 500, 1000)]


MAG = (('>8', 'np.max($) > 8'), ('>9', 'np.max($) > 9'),
       ('<0', 'np.min($) < 0'), ('<2', 'np.min($) < 2'),
       ('all<0', 'np.max($) < 0'), ('dec3', 'dec($, 2)'),
       ('dec2', 'dec($, 1) and not dec($, 2)'), ('dec1', 'not dec($, 1)'),
       ('range>4', 'np.max($) - np.min($) > 4'),
       ('range>8', 'np.max($) - np.min($) > 8'),
       ('range<.3', 'np.max($) - np.min($) < .3'),
       ('zero', 'np.any($ == 0)'), ('6.5', 'np.any($ == 6.5)'),
       ('maxfirst', 'np.argmax($) == 0'),
       ('maxlast', 'n($) > 1 and np.argmax($) == n($) - 1'),
       ('maxtwice', 'np.sum($ == np.max($)) > 1'),
       ('mintwice', 'np.sum($ == np.min($)) > 1'),
       ('int', 'np.all(np.mod($, 1) == 0)'),
       ('maxround', 'np.max($) * 10 % 1 == 0'),
       ('minround', 'np.min($) * 10 % 1 == 0'))
YEAR = (('<0', 'np.min($) < 0'), ('all<0', 'np.max($) < 0'),
        ('<1000', 'np.min($) < 1000'), ('>2000', 'np.max($) > 2000'),
        ('span0', 'n($) > 1 and np.ptp($) == 0'),
        ('span1', 'np.ptp($) == 1'), ('span2', 'np.ptp($) == 2'),
        ('span>100', 'np.ptp($) > 100'), ('span>200', 'np.ptp($) > 200'),
        ('span>500', 'np.ptp($) > 500'), ('span>1000', 'np.ptp($) > 1000'),
        ('zero', 'np.any($ == 0)'), ('maxonce', 'np.sum($ == np.max($)) == 1'),
        ('minonce', 'np.sum($ == np.min($)) == 1'),
        ('gap>50', 'n($) > 1 and np.max(np.diff(np.sort($))) > 50'))
TABLE = [('rows=%d' % k, 'n(ctime) == %d' % k) for k in (1, 2, 3)] + [
    ('rows>5', 'n(ctime) > 5'), ('rows>10', 'n(ctime) > 10'),
    ('rows>30', 'n(ctime) > 30'),
    ('cy-up', 'n(ctime) > 1 and up(ctime) and not same(ctime)'),
    ('cy-down', 'n(ctime) > 1 and down(ctime) and not same(ctime)'),
    ('cy-mixed', 'n(ctime) > 2 and not up(ctime) and not down(ctime)'),
    ('cy-same', 'n(ctime) > 1 and same(ctime)'), ('cy-dup', 'dup(ctime)'),
    ('cy-dup-apart', 'any(ctime[i] == ctime[j] and '
     'ctime[i + 1] != ctime[i] for i in range(n(ctime)) '
     'for j in range(i + 2, n(ctime)))'),
    ('cy-frac', 'frac(ctime)'), ('cy<0', 'np.min(ctime) < 0'),
    ('cm-down', 'n(cmag) > 1 and down(cmag) and not same(cmag)'),
    ('cm-mixed', 'n(cmag) > 2 and not up(cmag) and not down(cmag)'),
    ('cm-same', 'n(cmag) > 1 and same(cmag)'), ('cm-dup', 'dup(cmag)'),
    ('cm-dec2', 'dec(cmag, 1)'), ('cm<0', 'np.min(cmag) < 0')]
PAIR = [('cy-all-before', 'np.max(ctime) < np.min(year)'),
        ('cy-some-after', 'np.max(ctime) > np.max(year)'),
        ('cy-all-after', 'np.min(ctime) > np.max(year)'),
        ('cy-at-first', 'np.any(ctime == np.min(year))'),
        ('cy-at-last', 'np.any(ctime == np.max(year))'),
        ('cm-all-below', 'np.max(cmag) < np.min(mag)'),
        ('cm-some-above', 'np.max(cmag) > np.max(mag)'),
        ('cm-all-above', 'np.min(cmag) > np.max(mag)'),
        ('cm-at-event', 'bool(set(cmag.tolist()) & set(mag.tolist()))'),
        ('cy-at-event', 'bool(set(ctime.tolist()) & set(year.tolist()))')]


def ren(table, **names):
    import re
    out = []
    for key, code in table:
        for old, new in names.items():
            code = re.sub(r'\b%s\b' % old, new, code)
        out.append((key, code))
    return out


CAT = size('M') + arrays('m', 'M[:, 5]', MAG) + arrays(
    'y', 'M[:, 0]', YEAR) + [
    ('lon<0', 'np.min(M[:, 3]) < 0'), ('lon>0', 'np.max(M[:, 3]) > 0'),
    ('lon180', 'np.any(np.abs(M[:, 3]) == 180)'),
    ('lonwide', 'np.ptp(M[:, 3]) > 350'),
    ('lat<0', 'np.min(M[:, 4]) < 0'), ('lat>80', 'np.max(M[:, 4]) > 80'),
    ('lat<-80', 'np.min(M[:, 4]) < -80'),
    ('lat90', 'np.any(np.abs(M[:, 4]) == 90)'),
    ('equator', 'np.any(M[:, 4] == 0)'),
    ('oneplace', 'n(M) > 1 and same(M[:, 3]) and same(M[:, 4])'),
    ('onedate', 'n(M) > 1 and same(M[:, 0]) and same(M[:, 1]) and '
     'same(M[:, 2])'),
    ('dupdate', 'n(set(tuple(r[:3]) for r in M)) < n(M)'),
    ('dupplace', 'n(set(tuple(r[3:5]) for r in M)) < n(M)'),
    ('duprow', 'n(set(tuple(r[:6]) for r in M)) < n(M)'),
    ('feb29', 'np.any((M[:, 1] == 2) & (M[:, 2] == 29))'),
    ('feb31', 'np.any((M[:, 1] == 4) & (M[:, 2] == 31))'),
    ('dec31', 'np.any((M[:, 1] == 12) & (M[:, 2] == 31))'),
    ('jan1', 'np.any((M[:, 1] == 1) & (M[:, 2] == 1))'),
    ('cols6', 'M.shape[1] == 6'), ('cols7', 'M.shape[1] == 7'),
    ('opt-gk', 'window_opt[:2] == "Ga"'), ('opt-gr', 'window_opt[:2] == "Gr"'),
    ('opt-uhr', 'window_opt[:2] == "Uh"')]

SD = 'mtoolkit/scientific/'
TRIGGERS = {
    'C10': (SD + 'declustering.py', 'gardner_knopoff_decluster', ren(
        CAT, M='catalog_matrix') + [
        ('fs0', 'fs_time_prop == 0'), ('fs<1', '0 < fs_time_prop < 1'),
        ('fs1', 'fs_time_prop == 1'), ('fs>1', 'fs_time_prop > 1')]),
    'C11': (SD + 'declustering.py', 'afteran_decluster', ren(
        CAT, M='catalogue_matrix') + [
        ('tw0', 'time_window == 0'), ('tw<1', '0 < time_window < 1'),
        ('tw<10', '1 <= time_window < 10'), ('tw60', 'time_window == 60'),
        ('tw>365', 'time_window > 365'), ('twfrac', 'time_window % 1 != 0'),
        ('tw>3000', 'time_window > 3000')]),
    'C12': (SD + 'completeness.py', 'stepp_analysis', size('mw') + arrays(
        'm', 'mw', MAG) + arrays('y', 'year', YEAR) + [
        ('dm.1', 'dm == .1'), ('dm.05', 'dm < .1'), ('dm.2', 'dm == .2'),
        ('dm.25', 'dm == .25'), ('dm.5', 'dm == .5'), ('dm1', 'dm == 1'),
        ('dm>1', 'dm > 1'), ('dm-odd', 'dm in (.3, .15, .7)'),
        ('dt1', 'dt == 1'), ('dt<1', 'dt < 1'), ('dt2', 'dt == 2'),
        ('dt5', 'dt == 5'), ('dt10', 'dt == 10'), ('dtfrac', 'dt % 1'),
        ('dt>span', 'dt > np.ptp(year)'), ('lock', 'iloc'),
        ('unlocked', 'not iloc'), ('t0', 'ttol == 0'), ('t<.1', 'ttol < .1'),
        ('t.2', 'ttol == .2'), ('t>.5', 'ttol > .5'), ('t>5', 'ttol > 5'),
        ('onebin', 'np.ceil(10 * np.max(mw)) / 10 <= '
         'np.floor(10 * np.min(mw)) / 10 + dm')]),
    'C13': (SD + 'completeness.py', 'selected_eq_flag_vector', ren(
        size('year') + arrays('m', 'mag', MAG) + arrays('y', 'year', YEAR) +
        TABLE + PAIR, mag='mw', ctime='cyear', cmag='cmw') + [
        ('f0', 'not np.any(flag_vector)'), ('fall', 'np.all(flag_vector)'),
        ('f-1', 'np.any(flag_vector == -1)'),
        ('f1', 'np.any(flag_vector == 1)'),
        ('f>1', 'np.max(flag_vector) > 1'),
        ('fboth', 'np.any(flag_vector == -1) and np.any(flag_vector == 1)'),
        ('ffloat', 'flag_vector.dtype.kind == "f"'),
        ('fint', 'flag_vector.dtype.kind == "i"')]),
    'C15': (SD + 'recurrence.py', 'weichert_prep', ren(
        size('year') + arrays('m', 'mag', MAG) + arrays('y', 'year', YEAR) +
        TABLE + PAIR, mag='fmag') + [
        ('dm.1', 'd_m == .1'), ('dm<.1', 'd_m < .1'), ('dm.2', 'd_m == .2'),
        ('dm.25', 'd_m == .25'), ('dm.5', 'd_m == .5'), ('dm>=1', 'd_m >= 1'),
        ('dt1', 'd_t == 1'), ('dt<1', 'd_t < 1'), ('dt>1', 'd_t > 1'),
        ('dt>span', 'd_t > np.ptp(year)')]),
    'C16': (SD + 'recurrence.py', 'b_maxlike_time', size('year') + arrays(
        'm', 'mag', MAG) + arrays('y', 'year', YEAR) + TABLE + PAIR + [
        ('dm.1', 'dmag == .1'), ('dm<.1', 'dmag < .1'), ('dm.2', 'dmag == .2'),
        ('dm.25', 'dmag == .25'), ('dm.5', 'dmag == .5'),
        ('dm>=1', 'dmag >= 1'), ('ref0', 'ref_mag == 0'),
        ('ref<0', 'ref_mag < 0'), ('ref>max', 'ref_mag > np.max(mag)'),
        ('refin', 'np.min(mag) <= ref_mag <= np.max(mag)')]),
    'C17': (SD + 'recurrence.py', 'recurrence_table', size('mag') + arrays(
        'm', 'mag', MAG) + arrays('y', 'year', YEAR) + [
        ('dm.1', 'dmag == .1'), ('dm<.1', 'dmag < .1'), ('dm.2', 'dmag == .2'),
        ('dm.25', 'dmag == .25'), ('dm.5', 'dmag == .5'),
        ('dm>=1', 'dmag >= 1')]),
    'C18': (SD + 'maximum_magnitude.py', 'kijko_nonparametric_gauss', size(
        'mag') + arrays('m', 'mag', MAG) + [
        ('neq=n', 'neq == n(mag)'), ('neq>n', 'neq > n(mag)'),
        ('neq<n', 'neq < n(mag)'), ('neq=1', 'neq == 1'), ('neq=2', 'neq == 2'),
        ('neq>100', 'min(neq, n(mag)) > 100'), ('neqfloat', 'neq % 1'),
        ('obs', 'max_observed'), ('obs<max',
         'max_observed and max_observed[0] < np.max(mag)'),
        ('obs>max', 'max_observed and max_observed[0] > np.max(mag)'),
        ('sig0', 'not np.any(mag_sig)'), ('sig>', 'np.all(mag_sig > 0)'),
        ('sigsome', 'np.any(mag_sig) and not np.all(mag_sig)'),
        ('ns<10', 'number_samples < 10'), ('ns2', 'number_samples == 2'),
        ('ns3', 'number_samples == 3'), ('nseven', 'number_samples % 2 == 0'),
        ('ns>100', 'number_samples > 100'), ('ns>500', 'number_samples > 500'),
        ('tol<1e-4', 'iteration_tolerance < 1e-4'),
        ('tol>.1', 'iteration_tolerance >= .1'),
        ('tol=0', 'iteration_tolerance == 0'),
        ('it0', 'maximum_iterations == 0'), ('it1', 'maximum_iterations == 1'),
        ('it<5', 'maximum_iterations < 5'),
        ('it>100', 'maximum_iterations > 100')]),
    'C19': (SD + 'maximum_magnitude.py', 'cum_mo_uncertainty', size(
        'mag') + arrays('m', 'mag', MAG) + arrays('y', 'year', YEAR) + [
        ('nb1', 'number_bootstraps == 1'), ('nb2', 'number_bootstraps == 2'),
        ('nb>20', 'number_bootstraps > 20'),
        ('nb>200', 'number_bootstraps > 200'),
        ('sig0', 'not np.any(sigma_m)'), ('sig>', 'np.all(sigma_m > 0)'),
        ('sigsome', 'np.any(sigma_m) and not np.all(sigma_m)'),
        ('sig>.5', 'np.max(sigma_m) > .5'), ('sig>1', 'np.max(sigma_m) > 1'),
        ('seed', 'seed is not None'), ('seed0', 'seed == 0'),
        ('noseed', 'seed is None'), ('yfrac', 'frac(year)')]),
}


def main():
    check = sys.argv[1]
    pairs = '--pairs' in sys.argv
    tier = ['--tier', 'thorough'] if 'thorough' in sys.argv else []
    where = os.path.join(WORK, check)
    shutil.rmtree(where, ignore_errors=True)
    os.makedirs(where)
    repo = where + '/repo'
    shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('.git'))
    log = where + '/log'
    fn, func, table = TRIGGERS[check]
    with open(os.path.join(repo, fn), 'a') as f:
        f.write('\n' + HELP.replace('%(log)r', repr(log)).replace('%%', '%'))
        f.write('\n\n%s = _watch(%s, %r, %r)\n' % (func, func, func, table))
    run = subprocess.run([HERE + '/bin/check', check] + tier, text=True,
                         env=dict(os.environ, MTV_REPO=repo),
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    print(run.returncode, run.stdout.split('\n')[0][:200])
    seen = {}
    with open(log) as f:
        for line in f:
            name, key, count = line.rstrip('\n').rsplit(' ', 2) \
                if 'BROKEN' not in line else ('', line.strip(), 1)
            seen[key] = seen.get(key, 0) + int(count)
    print('broken', sorted(k for k in seen if 'BROKEN' in k)[:5])
    keys = [k for k, _ in table]
    assert len(set(keys)) == len(keys), [k for k in keys if keys.count(k) > 1]
    print('never', [k for k in keys if k not in seen])
    print('rare', [(k, seen[k]) for k in keys if seen.get(k, 99) < 30])
    if pairs:
        keys = sorted(k for k in keys if k in seen)
        miss = [c for c in itertools.combinations(keys, 2)
                if '&'.join(c) not in seen]
        print(len(miss), 'pairs of', len(keys) * (len(keys) - 1) // 2)
        for k in keys:
            print('  %-14s' % k, ' '.join(
                sorted((set(sum(([a, b] for a, b in miss if k in (a, b)),
                                [])) - {k}))))
    shutil.rmtree(where, ignore_errors=True)


if __name__ == '__main__':
    main()
