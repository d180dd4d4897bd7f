"""Reading a catalogue is faithful."""
import io
import os

from mtv import gen, ref
from mtv.core import Check, attempt, must, need


def bad_header(rng):
    names = list(ref.FIELDS)
    kind = rng.choice(['drop', 'swap', 'case', 'extra', 'rename', 'empty',
                       'data', 'dup', 'semicolon', 'shortlast'])
    i = rng.randrange(len(names))
    if kind == 'drop':
        del names[i]
    elif kind == 'swap':
        j = (i + rng.randint(1, len(names) - 1)) % len(names)
        names[i], names[j] = names[j], names[i]
    elif kind == 'case':
        names[i] = names[i].swapcase()
    elif kind == 'extra':
        names.insert(rng.randint(0, len(names)), rng.choice(['', 'extra']))
    elif kind == 'rename':
        names[i] = names[i] + rng.choice(['_', 's', '90'])
    elif kind == 'dup':
        names[i] = names[i - 1]
    elif kind == 'shortlast':
        names = names[:-rng.randint(1, 24)]
    elif kind == 'semicolon':
        return kind, ';'.join(names)
    elif kind == 'empty':
        return kind, ''
    elif kind == 'data':
        return kind, None
    return kind, ','.join(names)


class C01(Check):
    ID = 'C01'
    RULE = ('seeded random catalogues of 0-60 rows (some of 500-1500), any way '
            'of writing the numbers, agency codes with separators, quotes and '
            'non-ASCII text, plus wrong first lines; a case is non-trivial '
            'when it has a row or a wrong header')
    QUICK = 9600
    THOROUGH = 72000
    MIN = {'rows_compared': 500, 'bad_headers_refused': 20}
    ANCHORS = ('mtoolkit/eqcatalog.py', 'mtoolkit/jobs.py')

    def setup(self, env):
        import mtoolkit.eqcatalog
        self.mod = mtoolkit.eqcatalog

    LARGE = 4

    def large(self, rng, i):
        n = (2500, 5000, 9000, 20000)[i]
        return {'kind': 'good', 'header': ','.join(ref.FIELDS),
                'rows': [gen.good_row(rng, k + 1) for k in range(n)],
                'style': ('list', 'iter', 'job', 'list')[i],
                'eol': '\n', 'blank': [], 'final_eol': True}

    def gen(self, rng, tier):
        if rng.random() < 0.2:
            kind, header = bad_header(rng)
            return {'kind': 'bad:' + kind, 'header': header,
                    'rows': [gen.good_row(rng, 1)]}
        k = rng.random()
        n = (rng.randint(500, 1500) if k < 0.01 else
             rng.choice([0, 1, 2]) if k < 0.2 else rng.randint(3, 60))
        start = rng.choice([1, 1, rng.randint(1, 10 ** 6)])
        ids = list(range(start, start + n))
        if rng.random() < 0.3:
            rng.shuffle(ids)
        if rng.random() < 0.1 and n:
            ids = [start] * n
        rows = [gen.good_row(rng, i) for i in ids]
        if n and rng.random() < 0.3:
            # rows said twice
            for _ in range(rng.randint(1, 3)):
                k = rng.randrange(n)
                rows[rng.choice([k, (k + 1) % n, rng.randrange(n)])] = \
                    dict(rows[k])
        if rng.random() < 0.15:
            # numbers no decimal of double precision can hold, long texts
            for row in rows:
                for field in ('eventID', 'Identifier'):
                    if rng.random() < 0.5:
                        row[field] = str(rng.choice(
                            [2 ** 53 + 1, 2 ** 63 + 1,
                             rng.randint(10 ** 15, 10 ** 25)]))
                if rng.random() < 0.3:
                    row['Agency'] = rng.choice(
                        ['two\nlines', ' a \n\n b ', '\n', 'x' * 3000,
                         'a,\n"b"', 'tab\t\nend'])
        header = ','.join(ref.FIELDS)
        if rng.random() < 0.3:
            header = ','.join(rng.choice([' %s', '%s ', '%s', '\t%s']) % f
                              for f in ref.FIELDS)
        return {'kind': 'good', 'header': header,
                'rows': rows,
                'style': rng.choice(['list', 'iter', 'job', 'stringio']),
                'eol': rng.choice(['\n', '\n', '\r\n']),
                'blank': [rng.randint(0, n - 1) for _ in range(3)]
                if n and rng.random() < 0.15 else [],
                'final_eol': rng.random() < 0.8}

    def run(self, case, obs):
        rows = case['rows']
        eol = case.get('eol', '\n')
        text = gen.csv_text(rows, case['header'], eol, case.get('blank', []))
        if case['header'] is None:
            text = text.split('\n', 1)[1]
        if not case.get('final_eol', True) and rows:
            text = text[:-len(eol)]
        path = os.path.join(self.env.fresh(), 'cat.csv')
        with open(path, 'w', newline='') as f:
            f.write(text)
        Reader = self.mod.EqEntryReader
        if case['kind'] != 'good':
            events = []
            with open(path) as f:
                def go():
                    for entry in Reader(f).read():
                        events.append(entry)
                out = attempt(go)
            need(isinstance(out.exc, self.mod.MalformedCatalogError),
                 'first line %r was not refused as malformed: %r' % (
                     case['header'], out.exc))
            need(not events, 'an event came from a malformed catalogue')
            obs.count('bad_headers_refused')
            obs.mark()
            return
        style = case['style']
        if style == 'job':
            from mtoolkit import jobs, workflow
            ctx = workflow.Context()
            ctx.config = {'eq_catalog_file': path}
            must(jobs.read_eq_catalog, ctx)
            got = ctx.eq_catalog
        elif style == 'stringio':
            got = must(lambda: Reader(io.StringIO(text)).read_eq_catalog())
        else:
            with open(path) as f:
                if style == 'list':
                    got = must(lambda: Reader(f).read_eq_catalog())
                else:
                    got = must(lambda: [e for e in Reader(f).read()])
        need(len(got) == len(rows), '%d events from %d rows' % (
            len(got), len(rows)))
        for i, (row, entry) in enumerate(zip(rows, got)):
            want = ref.clean_entry(row)
            need(set(entry) == set(want), 'row %d: fields %r' % (
                i + 2, sorted(entry, key=str)))
            for field in ref.FIELDS:
                need(gen.same(entry[field], want[field]),
                     'row %d: %s is %r instead of %r (text %r)' % (
                         i + 2, field, entry[field], want[field], row[field]))
            obs.count('rows_compared')
        need(len(set(map(id, got))) == len(got),
             'two rows share the same event object')
        if rows:
            obs.mark()


CHECK = C01()
