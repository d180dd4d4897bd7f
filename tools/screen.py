"""Screen ideas for planted bugs (a development tool, not a check).

  screen.py IDEAS.py [NAME...]

IDEAS.py calls bug(name, property, (file, old, new), ...) for each. Every one
is applied to its own copy of /repo and given to the stable tests and to the
check of its property (all the checks of MORE, if given in the environment)."""
import json
import multiprocessing
import os
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = '/tmp/screen%d' % os.getpid()
PY = '/opt/venv/bin/python'
sys.path.insert(0, HERE)


def stable(tree, where):
    out = os.path.join(where, 'junit.xml')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               TZ='UTC', OPENBLAS_NUM_THREADS='1')
    subprocess.run(
        [PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
         '--rootdir=' + tree, '--continue-on-collection-errors',
         '--doctest-modules',
         '--ignore=mtoolkit/scientific/fault_calculator.py',
         '--ignore=tests/fault_calculator', '-o', 'junit_family=xunit2',
         '--junitxml=' + out, 'mtoolkit', 'tests'], cwd=tree, env=env,
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    good = set()
    for case in ET.parse(out).getroot().iter('testcase'):
        if not [c for c in case if c.tag in ('failure', 'error', 'skipped')]:
            good.add(case.get('classname') + '::' + case.get('name'))
    with open('/opt/vp/BASELINE.json') as f:
        return [t for t in json.load(f)['stable'] if t not in good]


def one(job):
    name, prop, edits = job
    where = os.path.join(WORK, name)
    shutil.rmtree(where, ignore_errors=True)
    repo, tree = where + '/repo', where + '/tree'
    shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('.git'))
    shutil.copytree(WORK + '/base', tree)
    from mtv import build
    try:
        for fn in set(e[0] for e in edits):
            with open(os.path.join(repo, fn)) as f:
                text = f.read()
            for g, old, new in edits:
                if g == fn:
                    if text.count(old) != 1:
                        return name, prop, 'BAD EDIT %d of %r' % (
                            text.count(old), old[:60])
                    text = text.replace(old, new)
            with open(os.path.join(repo, fn), 'w') as f:
                f.write(text)
            build._translate((os.path.join(repo, fn),
                              os.path.join(tree, fn)))
        fails = stable(tree, where)
        if fails:
            return name, prop, 'TESTS FAIL %s' % fails[:2]
        text = []
        for check in [prop] + os.environ.get('MORE', '').split():
            run = subprocess.run(
                [HERE + '/bin/check', check], cwd=HERE, text=True,
                env=dict(os.environ, MTV_REPO=repo), stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT, timeout=900)
            text.append('%s:%d' % (check, run.returncode))
            if run.returncode and check == prop:
                said = [l for l in run.stdout.split('\n')
                        if 'VIOLATION' not in l and l.strip()]
                text.append(' | '.join(said)[:160])
        return name, prop, ' '.join(text)
    except Exception as exc:
        return name, prop, 'ERROR %r' % exc
    finally:
        shutil.rmtree(where, ignore_errors=True)


def main():
    ideas = []

    def bug(name, prop, *edits):
        ideas.append((name, prop, edits))
    with open(sys.argv[1]) as f:
        exec(f.read(), {'bug': bug})
    if sys.argv[2:]:
        ideas = [i for i in ideas if i[0] in sys.argv[2:]]
    shutil.rmtree(WORK, ignore_errors=True)
    os.makedirs(WORK)
    shutil.copytree('/opt/py3tree', WORK + '/base',
                    ignore=shutil.ignore_patterns('__pycache__'))
    with multiprocessing.Pool(int(os.environ.get('JOBS', '4'))) as pool:
        for name, prop, text in pool.imap(one, ideas):
            mark = ('missed' if ' ' not in text and text.startswith(
                prop + ':0') else '')
            print('%-7s %-26s %s %s' % (mark, name, prop, text))
            sys.stdout.flush()
    shutil.rmtree(WORK, ignore_errors=True)


if __name__ == '__main__':
    main()
