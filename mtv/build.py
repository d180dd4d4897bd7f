"""Translate the current tree of /repo (Python 2) into a scratch directory.

Same translation as the project's own build: lib2to3 with its stock fixers.
Nothing outside the scratch directory is written."""
import logging
import os
import shutil
import sys
import warnings

from multiprocessing import Pool

REPO = os.environ.get('MTV_REPO', '/repo')
STUBS = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'stubs')
_TOOLS = None


def _tools():
    global _TOOLS
    if _TOOLS is None:
        warnings.simplefilter('ignore')
        logging.getLogger('RefactoringTool').setLevel(logging.CRITICAL)
        from lib2to3 import refactor
        fixers = refactor.get_fixers_from_package('lib2to3.fixes')
        _TOOLS = (
            refactor.RefactoringTool(fixers),
            refactor.RefactoringTool(
                [f for f in fixers if not f.endswith('.fix_print')],
                {'print_function': True}))
    return _TOOLS


def _translate(pair):
    src, dst = pair
    with open(src, 'rb') as f:
        text = f.read().decode('utf-8')
    if not text.endswith('\n'):
        text += '\n'
    first, second = _tools()
    try:
        out = str(first.refactor_string(text, src))
    except Exception:
        out = str(second.refactor_string(text, src))
    compile(out, dst, 'exec')
    with open(dst, 'wb') as f:
        f.write(out.encode('utf-8'))


def build(scratch):
    """Return the directory to put on sys.path."""
    tree = os.path.join(scratch, 'src')
    os.makedirs(tree)
    work = []
    for top in ('mtoolkit', 'nrml'):
        for path, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs[:] = sorted(d for d in dirs if d != '__pycache__')
            out = os.path.join(tree, os.path.relpath(path, REPO))
            os.makedirs(out, exist_ok=True)
            for name in sorted(files):
                src, dst = os.path.join(path, name), os.path.join(out, name)
                if name.endswith('.py'):
                    work.append((src, dst))
                elif not name.endswith('.pyc'):
                    shutil.copyfile(src, dst)
    for name in sorted(os.listdir(REPO)):
        if name.endswith('.py') and name not in ('setup.py', 'conftest.py'):
            work.append((os.path.join(REPO, name), os.path.join(tree, name)))
    work.sort(key=lambda p: -os.path.getsize(p[0]))
    with Pool(min(8, os.cpu_count() or 2)) as pool:
        pool.map(_translate, work, chunksize=1)
    shutil.copytree(os.path.join(STUBS, 'nhlib'), os.path.join(tree, 'nhlib'))
    return tree
