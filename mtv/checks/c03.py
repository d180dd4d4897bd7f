"""An inadmissible optional field is blanked alone and never stops reading."""
import os

from mtv import gen, ref
from mtv.core import Check, must, need

OPTIONAL = [f for f in ref.FIELDS if f not in ref.COMPULSORY and f != 'Agency']
JUNK = ['nan', 'NaN', '-inf', 'inf', '1e999', '', ' ', '  ', '', 'abc', '-', 'n/a', '1..2', '1e', '*', 'None']


def value(rng, field):
    k = rng.random()
    if k < 0.25:
        return rng.choice(JUNK)
    if field == 'second':
        return rng.choice(['0', '59', '59.0', '0.0', '-0.5', '-1', '60',
                           '61.5', '1e3', '-1e-9', '30.25', '58.99', '12'])
    if field == 'ErrorStrike':
        return rng.choice(['0', '360', '360.0', '-0.1', '361', '360.0001',
                           '-90', '720', '12.5', '180', '359.9'])
    if field in ('SemiMajor90', 'SemiMinor90'):
        return rng.choice(['0', '0.0', '-1', '-0.01', '5', '5.0', '10',
                           '4.999', '5.001', '100', repr(rng.uniform(0, 9))])
    return rng.choice(['0', '-0.1', '-1', '-1e-9', '-5', '0.1', '5',
                       '123.4', '-99', repr(rng.uniform(-3, 9))])


class C03(Check):
    ID = 'C03'
    RULE = ('random sound rows whose optional fields are each drawn blank, '
            'unreadable, negative, at an edge, outside their range or sound, '
            'some rows cut short; non-trivial when at least one field had to '
            'be blanked or replaced')
    QUICK = 24000
    THOROUGH = 180000
    MIN = {'fields_blanked': 300, 'fields_kept': 300, 'ellipses_kept': 20,
           'ellipses_dropped': 20}
    ANCHORS = ('mtoolkit/eqcatalog.py',)

    def setup(self, env):
        import mtoolkit.eqcatalog
        self.mod = mtoolkit.eqcatalog

    def gen(self, rng, tier):
        rows = []
        for i in range(rng.randint(1, 12)):
            row = gen.good_row(rng, i + 1)
            some = rng.sample(OPTIONAL, rng.choice([1, 2, 3, len(OPTIONAL)]))
            if rng.random() < 0.4:
                some = list(set(some) | set(ref.ELLIPSE))
            for field in sorted(some):
                row[field] = value(rng, field)
            if rng.random() < 0.1:
                cut = rng.randint(ref.FIELDS.index('Mw') + 1, 24)
                row = dict((f, row[f]) for f in ref.FIELDS[:cut])
            rows.append(row)
        return {'rows': rows}

    def run(self, case, obs):
        rows = case['rows']
        path = os.path.join(self.env.fresh(), 'cat.csv')
        with open(path, 'w', newline='') as f:
            f.write(gen.csv_text(rows))
        with open(path) as f:
            got = must(lambda: self.mod.EqEntryReader(f).read_eq_catalog())
        need(len(got) == len(rows), 'events lost')
        special = 0
        for i, (row, entry) in enumerate(zip(rows, got)):
            want = ref.clean_entry(row)
            for field in ref.FIELDS:
                need(gen.same(entry[field], want[field]),
                     'row %d: %s is %r instead of %r (text %r; ellipse %r)' % (
                         i + 2, field, entry[field], want[field],
                         row.get(field), [row.get(f) for f in ref.ELLIPSE]))
                if field in OPTIONAL:
                    if want[field] == '':
                        obs.count('fields_blanked')
                        special += bool((row.get(field) or '').strip())
                    else:
                        obs.count('fields_kept')
            obs.count('ellipses_dropped' if want['ErrorStrike'] == ''
                      else 'ellipses_kept')
        if special:
            obs.mark()


CHECK = C03()
