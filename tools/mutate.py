"""Mutation run (a development tool, not a check): which small changes that
pass the stable tests do the checks miss?

  mutate.py tests OUT.json [FILE...]   mutants the stable tests miss
  mutate.py checks IN.json OUT.json    of these, what the checks report"""
import ast
import copy
import json
import multiprocessing
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get('MUT_BASE', '/opt/py3tree')
WORK = '/tmp/mut'
PY = '/opt/venv/bin/python'
S = 'mtoolkit/scientific/'
FILES = {
    'main.py': 'C26 C27 C31',
    'mtoolkit/catalog_filter.py': 'C07 C26 C31',
    'mtoolkit/console.py': 'C26 C31 C27',
    'mtoolkit/eqcatalog.py': 'C01 C02 C03 C04 C14',
    'mtoolkit/jobs.py': 'C30 C20 C14 C29 C31 C26 C22 C21',
    'mtoolkit/source_model.py': 'C05 C06 C26 C20 C21',
    'mtoolkit/workflow.py': 'C20 C30 C26 C27 C22 C21',
    'mtoolkit/geo/simple_fault.py': 'C23 C25',
    'mtoolkit/geo/tectonic_region.py': 'C24 C25',
    S + 'catalogue_utilities.py': 'C08 C10 C11',
    S + 'completeness.py': 'C12 C13 C28',
    S + 'declustering.py': 'C09 C10 C11 C28',
    S + 'fault_calculator.py': 'C25',
    S + 'maximum_magnitude.py': 'C18 C19 C28',
    S + 'recurrence.py': 'C15 C16 C17 C28',
    'nrml/nrml_xml.py': 'C05 C06', 'nrml/reader.py': 'C05 C06 C27',
    'nrml/writer.py': 'C06 C26',
}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE],
       ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot],
       ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div],
       ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.Mod: [ast.Add]}
NAMES = {'logical_and': 'logical_or', 'logical_or': 'logical_and',
         'min': 'max', 'max': 'min', 'floor': 'ceil', 'ceil': 'floor',
         'cumsum': 'sum', 'nonzero': 'where', 'zeros': 'ones',
         'ones': 'zeros', 'sin': 'cos', 'cos': 'sin', 'argmax': 'argmin',
         'any': 'all', 'all': 'any', 'std': 'var', 'mean': 'median',
         'around': 'array', 'flipud': 'array', 'sort': 'array',
         'argsort': 'arange_like', 'append': 'extend'}


def variants(node):
    """Mutated copies of a node."""
    out = []

    def put(**kw):
        new = copy.copy(node)
        for k, v in kw.items():
            setattr(new, k, v)
        out.append(new)
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        for op in CMP.get(type(node.ops[0]), []):
            put(ops=[op()])
    elif isinstance(node, ast.Compare):
        for k, o in enumerate(node.ops):
            for op in CMP.get(type(o), [])[:1]:
                ops = list(node.ops)
                ops[k] = op()
                put(ops=ops)
    elif isinstance(node, ast.BinOp):
        if not (isinstance(node.op, ast.Mod) and isinstance(
                node.left, ast.Constant)):
            for op in BIN.get(type(node.op), []):
                put(op=op())
    elif isinstance(node, ast.BoolOp):
        put(op=ast.Or() if isinstance(node.op, ast.And) else ast.And())
        for k in range(len(node.values)):
            if len(node.values) > 2:
                put(values=node.values[:k] + node.values[k + 1:])
            else:
                out.append(node.values[1 - k])
    elif isinstance(node, ast.UnaryOp):
        out.append(node.operand)
    elif isinstance(node, ast.Constant):
        v = node.value
        if isinstance(v, bool):
            put(value=not v)
        elif isinstance(v, int):
            put(value=v + 1)
            if v:
                put(value=v - 1)
        elif isinstance(v, float):
            put(value=v * 1.01 if v else 0.01)
            put(value=v + 1)
    elif isinstance(node, ast.Attribute) and node.attr in NAMES:
        put(attr=NAMES[node.attr])
    elif isinstance(node, ast.Call):
        if len(node.args) > 1:
            for k in range(len(node.args) - 1):
                a = list(node.args)
                a[k], a[k + 1] = a[k + 1], a[k]
                put(args=a)
        if node.keywords:
            for k in range(len(node.keywords)):
                put(keywords=node.keywords[:k] + node.keywords[k + 1:])
    elif isinstance(node, (ast.If, ast.While)):
        put(test=ast.UnaryOp(ast.Not(), node.test))
        if isinstance(node, ast.If):
            put(test=ast.Constant(False))
            put(test=ast.Constant(True))
    elif isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise,
                           ast.Continue)):
        if not (isinstance(node, ast.Expr) and isinstance(
                node.value, ast.Constant)):
            out.append(ast.Pass())
    elif isinstance(node, ast.Slice):
        for side in ('lower', 'upper'):
            e = getattr(node, side)
            if e is not None:
                put(**{side: ast.BinOp(e, ast.Add(), ast.Constant(1))})
    return out


def logging_call(node):
    text = ast.unparse(node)
    return isinstance(node, ast.Expr) and text.startswith('LOGGER')


def mutants(path):
    """(description, text) of every mutant of a file."""
    with open(os.path.join(BASE, path)) as f:
        tree = ast.parse(f.read())
    out = []

    def visit(parent, quiet):
        for field, value in ast.iter_fields(parent):
            items = value if isinstance(value, list) else [value]
            for k, node in enumerate(items):
                if not isinstance(node, ast.AST):
                    continue
                if isinstance(node, (ast.Import, ast.ImportFrom,
                                     ast.expr_context)):
                    continue
                for new in variants(node):
                    if isinstance(value, list):
                        value[k] = new
                    else:
                        setattr(parent, field, new)
                    try:
                        text = ast.unparse(ast.fix_missing_locations(tree))
                        out.append(('%s:%d: %s -> %s' % (
                            path, getattr(node, 'lineno', 0),
                            ast.unparse(node)[:90].replace('\n', ' '),
                            ast.unparse(ast.fix_missing_locations(new))[:90]
                            .replace('\n', ' ')), text))
                    except Exception:
                        pass
                    if isinstance(value, list):
                        value[k] = node
                    else:
                        setattr(parent, field, node)
                visit(node, quiet)
    visit(tree, False)
    return out


def worker_tree():
    name = os.path.join(WORK, multiprocessing.current_process().name)
    if not os.path.exists(name):
        shutil.copytree(BASE, name, ignore=shutil.ignore_patterns(
            '__pycache__'))
    return name


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           TZ='UTC', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')


def run_tests(job):
    path, desc, text = job
    tree = worker_tree()
    full = os.path.join(tree, path)
    with open(os.path.join(BASE, path)) as f:
        old = f.read()
    with open(full, 'w') as f:
        f.write(text)
    try:
        report = tree + '.xml'
        if os.path.exists(report):
            os.remove(report)
        try:
            subprocess.run(
                [PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                 '--rootdir=' + tree, '--timeout=60', '--doctest-modules',
                 '--continue-on-collection-errors',
                 '--ignore=mtoolkit/scientific/fault_calculator.py',
                 '--ignore=tests/fault_calculator', '-o',
                 'junit_family=xunit2', '--junitxml=' + report, 'mtoolkit',
                 'tests'], cwd=tree, env=ENV, stdout=subprocess.DEVNULL,
                stderr=subprocess.DEVNULL, timeout=120)
        except subprocess.TimeoutExpired:
            return None
        import xml.etree.ElementTree as ET
        passed = set()
        try:
            root = ET.parse(report).getroot()
        except Exception:
            return None
        for case in root.iter('testcase'):
            if not len([c for c in case if c.tag in (
                    'failure', 'error', 'skipped')]):
                passed.add('%s::%s' % (case.get('classname'),
                                       case.get('name')))
        with open('/opt/vp/BASELINE.json') as f:
            stable = json.load(f)['stable']
        return job if all(s in passed for s in stable) else None
    finally:
        with open(full, 'w') as f:
            f.write(old)


CODE = '''
import sys, os, shutil
sys.path.insert(0, %r)
import mtv.build, mtv.core
def build(scratch):
    tree = os.path.join(scratch, 'src')
    shutil.copytree(sys.argv[1], tree, ignore=shutil.ignore_patterns(
        '__pycache__', 'tests', 'docs'))
    shutil.copytree(os.path.join(mtv.build.STUBS, 'nhlib'),
                    os.path.join(tree, 'nhlib'))
    return tree
mtv.build.build = build
mtv.core.EVIDENCE = sys.argv[2]
mtv.core.Check.WORKERS = 1
import importlib
check = importlib.import_module('mtv.checks.' + sys.argv[3].lower()).CHECK
check.MIN = {}
sys.exit(mtv.core.main(sys.argv[3:] + ['-n', str(check.QUICK // 4)]))
''' % HERE


def run_checks(job):
    path, desc, text = job
    tree = worker_tree()
    full = os.path.join(tree, path)
    with open(os.path.join(BASE, path)) as f:
        old = f.read()
    with open(full, 'w') as f:
        f.write(text)
    try:
        odd = []
        for check in FILES[path].split():
            try:
                done = subprocess.run(
                    [PY, '-B', '-c', CODE, tree, tree + '.ev', check],
                    env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                    timeout=200, cwd=WORK)
            except subprocess.TimeoutExpired:
                odd.append(check + ' timeout')
                continue
            if done.returncode == 1:
                return desc, check, text
            if done.returncode != 0:
                odd.append('%s: %s' % (check, done.stdout.decode(
                    'utf-8', 'replace')[-300:]))
        return desc, ('odd', odd) if odd else None, text
    finally:
        with open(full, 'w') as f:
            f.write(old)


def main():
    os.makedirs(WORK, exist_ok=True)
    mode = sys.argv[1]
    if mode == 'tests':
        jobs = []
        for path in sys.argv[3:] or sorted(FILES):
            jobs += [(path, d, t) for d, t in mutants(path)
                     if 'LOGGER' not in d]
        print(len(jobs), 'mutants', flush=True)
        with multiprocessing.Pool(int(os.environ.get("JOBS", "8"))) as pool:
            left = []
            for k, r in enumerate(pool.imap_unordered(run_tests, jobs)):
                if r:
                    left.append(r)
                if k % 100 == 0:
                    print(k, len(left), flush=True)
                    with open(sys.argv[2], 'w') as f:
                        json.dump(left, f)
        with open(sys.argv[2], 'w') as f:
            json.dump(left, f)
        print('left', len(left))
    else:
        with open(sys.argv[2]) as f:
            jobs = json.load(f)
        missed = []
        with multiprocessing.Pool(int(os.environ.get("JOBS", "8"))) as pool:
            for k, (desc, hit, text) in enumerate(pool.imap_unordered(
                    run_checks, jobs)):
                if not isinstance(hit, str):
                    missed.append((desc, hit, text))
                    print('MISSED', desc, hit or '', flush=True)
                if k % 50 == 0:
                    print(k, 'done', flush=True)
        with open(sys.argv[3], 'w') as f:
            json.dump(missed, f)
        print('missed', len(missed), 'of', len(jobs))


if __name__ == '__main__':
    main()
