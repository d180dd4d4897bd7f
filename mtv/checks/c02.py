"""An event with an inadmissible compulsory field never enters a catalogue."""
import os
import re

from datetime import datetime

from mtv import gen, ref
from mtv.core import Check, attempt, must, need

JUNK = ['', ' ', 'abc', '-', '#12', '# x', '//', "'1'", '%d', '$1', '1,5', '1..2', '--1', '1e', 'x1', '1 2']
ENDLESS = ['nan', 'NaN', '-nan', 'inf', '-inf', 'Infinity', '1e999', '-1e400']
INT_JUNK = JUNK + ['1.5', '3.0', '1e1', 'nan', '12.', 'inf']


def bad_value(rng, field, row):
    """A text no reading of which is admissible."""
    if rng.random() < 0.3:
        if field in ref.INTS:
            return rng.choice(INT_JUNK)
        return rng.choice(JUNK if rng.random() < 0.7 else ENDLESS)
    now = datetime.now().year
    big = rng.choice([1, 2, 10, 1000])
    if field in ('eventID', 'Identifier'):
        return str(rng.choice([0, -1, -big]))
    if field == 'year':
        return str(rng.choice([-10001, -10000 - big, now + 1 + big, 99999]))
    if field == 'month':
        return str(rng.choice([0, 13, -1, 12 + big]))
    if field == 'day':
        return str(rng.choice([0, -1, 32, 31 + big, -big]))
    if field == 'hour':
        return str(rng.choice([-1, 24, 23 + big]))
    if field == 'minute':
        return str(rng.choice([-1, 60, 59 + big]))
    if field == 'longitude':
        return repr(rng.choice([-1, 1]) * rng.choice(
            [180.0000001, 181., 360., 180. + big]))
    if field == 'latitude':
        return repr(rng.choice([-1, 1]) * rng.choice(
            [90.0000001, 91., 180., 90. + big]))
    if field == 'depth':
        return rng.choice(['0', '0.0', '-0.0', '-1e-9', '-1', '-%d' % big])
    return rng.choice(JUNK)


def edge_value(rng, field):
    now = datetime.now().year
    return {
        'eventID': ['1', '2147483648'], 'Identifier': ['1', '99999999999'],
        'year': ['-10000', str(now), '0', '-1'], 'month': ['1', '12'],
        'day': ['1', '28', '29', '30', '31'], 'hour': ['0', '23'], 'minute': ['0', '59'],
        'longitude': ['180', '-180', '180.0', '-180.0', '0'],
        'latitude': ['90', '-90', '90.0', '-90.0', '0'],
        'depth': ['1e-300', '0.0001', '6371'], 'Mw': ['0', '-1.2', '9.9'],
    }[field]


class C02(Check):
    ID = 'C02'
    RULE = ('a random sound catalogue in which one row gets one compulsory '
            'field absent, unreadable, or outside its range (near and far), '
            'or at the edge of its range; every field and kind is drawn; all '
            'such cases are non-trivial')
    QUICK = 28800
    THOROUGH = 270000
    MIN = {'refused': 100, 'edges_accepted': 50, 'after_blank_lines': 100}
    ANCHORS = ('mtoolkit/eqcatalog.py',)

    def setup(self, env):
        import mtoolkit.eqcatalog
        self.mod = mtoolkit.eqcatalog

    def gen(self, rng, tier):
        n = (rng.choice([600, 1100, 1500]) if rng.random() < 0.02 else
             rng.choice([1, 2, 3, 8, 20]))
        rows = [gen.good_row(rng, i + 1) for i in range(n)]
        k = rng.randrange(n)
        field = rng.choice(ref.COMPULSORY)
        row = rows[k]
        kind = rng.choice(['bad'] * 5 + ['edge', 'edge', 'feb', 'feb29',
                                         'short', 'bare'])
        if kind == 'bad':
            row[field] = bad_value(rng, field, row)
        elif kind == 'edge':
            row[field] = rng.choice(edge_value(rng, field))
            if field == 'month' and int(row['day']) > 28:
                row['day'] = '28'
            if field == 'day' and int(row['day']) > 28:
                row['month'] = str(rng.choice([1, 3, 5, 7, 8, 10, 12] + (
                    [4, 6, 9, 11] if int(row['day']) < 31 else [])))
        elif kind == 'feb':
            row['month'], field = '2', 'day'
            row['day'] = rng.choice(['30', '31', '0', '-1', '-3'])
        elif kind == 'feb29':
            row['month'], row['day'], field = '2', '29', 'day'
        elif kind == 'bare':
            # a row of empty fields
            rows[k] = dict((f, rng.choice(['', '', ' ']) if rng.random() < .1
                            else '') for f in ref.FIELDS)
            field = list(ref.COMPULSORY)
        elif kind == 'short':
            last = ref.FIELDS.index(field)
            row = dict((f, row[f]) for f in ref.FIELDS[:last])
            rows[k] = row
            field = [f for f in ref.FIELDS[last:] if f in ref.COMPULSORY]
            if len(row) == 0:
                return None
        more = 0
        if rng.random() < 0.1:
            # rows before it that take several lines
            for r in rows[:k][:5]:
                r['Agency'] = rng.choice(['a\nb', '\n\n', '"\n"'])
                more += r['Agency'].count('\n')
        blank = [] if rng.random() < 0.7 else [
            rng.randint(0, k) for _ in range(rng.randint(1, 3))]
        return {'kind': kind, 'field': field, 'row': k, 'rows': rows,
                'blank': blank, 'more': more, 'eol': rng.choice(['\n', '\n', '\r\n']),
                'api': rng.choice(['iter', 'list', 'job'])}

    def run(self, case, obs):
        text = gen.csv_text(case['rows'], eol=case['eol'],
                            blank=case['blank'])
        path = os.path.join(self.env.fresh(), 'cat.csv')
        with open(path, 'w', newline='') as f:
            f.write(text)
        events = []
        ctx = None

        def go():
            nonlocal ctx
            if case['api'] == 'job':
                from mtoolkit import jobs, workflow
                ctx = workflow.Context()
                ctx.config = {'eq_catalog_file': path}
                jobs.read_eq_catalog(ctx)
                events.extend(ctx.eq_catalog)
                return
            with open(path) as f:
                reader = self.mod.EqEntryReader(f)
                if case['api'] == 'list':
                    events.extend(reader.read_eq_catalog())
                else:
                    for entry in reader.read():
                        events.append(entry)
        if case['kind'] in ('edge', 'feb29'):
            must(go)
            need(len(events) == len(case['rows']), 'events lost')
            got = events[case['row']]
            want = ref.clean_entry(case['rows'][case['row']])
            need(got[case['field']] == want[case['field']],
                 'admissible %s %r became %r' % (
                     case['field'], want[case['field']], got[case['field']]))
            obs.count('edges_accepted')
            obs.count('edge:' + case['field'])
            obs.mark([case['field'], case['rows'][case['row']][case['field']],
                      case['row']])
            return
        out = attempt(go)
        row = case['rows'][case['row']]
        fields = case['field'] if isinstance(case['field'], list) \
            else [case['field']]
        what = '%s=%r' % (fields[0], row.get(fields[0]))
        need(len(events) <= case['row'],
             'the event with %s entered the catalogue' % what)
        need(out.exc is not None, 'no error with %s' % what)
        need(isinstance(out.exc, self.mod.EqEntryValidationError),
             '%s ended in %s: %s' % (what, type(out.exc).__name__, out.exc))
        message = ' '.join(str(a) for a in out.exc.args)
        if case['kind'] == 'feb':
            fields = ['day', 'month']
        need(any(f in message for f in fields),
             'the error does not name the field of %s: %s' % (what, message))
        tail = message.rsplit('line', 1)[-1]
        # blank lines count
        line = case['row'] + 2 + len(case['blank']) + case.get('more', 0)
        need(re.search(r'\b%d\b' % line, tail),
             'the error does not name line %d: %s' % (line, message))
        obs.count('after_blank_lines', bool(case['blank']))
        if case['api'] == 'iter':
            need(len(events) == case['row'],
                 '%d events before the bad row %d' % (
                     len(events), case['row']))
        need(ctx is None or not ctx.eq_catalog,
             'a catalogue was kept in spite of the error')
        obs.count('refused')
        obs.count('refused:' + fields[0])
        obs.mark([fields, row.get(fields[0]), case['row'], case['kind']])


CHECK = C02()
