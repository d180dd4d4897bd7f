"""Writing a catalogue and reading it back loses nothing."""
import copy
import csv
import os

from mtv import gen, ref
from mtv.core import Check, attempt, must, need


class C04(Check):
    ID = 'C04'
    RULE = ('random events (numbers with up to 17 digits, agencies with '
            'separators, quotes, line ends and non-ASCII text) written over an '
            'absent, longer or shorter file, into absolute and bare file '
            'names, and into a missing folder; non-trivial when at least one '
            'event was written or a folder was missing')
    QUICK = 12800
    THOROUGH = 120000
    MIN = {'events_round_tripped': 500, 'missing_folder': 10,
           'overwritten': 100, 'same_writer': 20}
    ANCHORS = ('mtoolkit/eqcatalog.py',)

    def setup(self, env):
        import mtoolkit.eqcatalog
        self.mod = mtoolkit.eqcatalog

    LARGE = 2

    def large(self, rng, i):
        case = None
        while case is None or case['where'] == 'missing':
            case = self.gen(rng, 'quick')
        return dict(case, rows=[gen.good_row(rng, k + 1)
                                for k in range((4000, 12000)[i])])

    def gen(self, rng, tier):
        n = rng.choice([0, 1, 2, 5, rng.randint(0, 40),
                        rng.choice([3, 3, 3, 3, 1000])])
        rows = []
        for i in range(n):
            row = gen.good_row(rng, rng.randint(1, 999))
            if rng.random() < 0.1:
                row['Agency'] = rng.choice(['a\nb', '\n', 'x\n\ny', '"\n"'])
            rows.append(row if rng.random() < 0.9 or not rows
                        else dict(rng.choice(rows[-1:] + rows)))
        # what the same writer wrote there before
        first = None
        if rng.random() < 0.2:
            first = [gen.good_row(rng, rng.randint(1, 999))
                     for _ in range(rng.choice([0, 1, 3, 60]))]
        return {'rows': rows, 'first': first, 'order': rng.randint(0, 9),
                'before': rng.choice(['none', 'long', 'short', 'same']),
                'file': rng.choice(['out.csv'] * 3 + gen.FILES),
                'where': rng.choice(['abs', 'abs', 'bare', 'rel', 'missing'])}

    def run(self, case, obs):
        entries = [ref.clean_entry(r) for r in case['rows']]
        if case['order'] % 2:
            entries = [dict(sorted(e.items())) for e in entries]
        keep = copy.deepcopy(entries)
        folder = self.env.fresh()
        Writer = self.mod.EqEntryWriter
        if case['where'] == 'missing':
            target = os.path.join(folder, 'no', 'such', 'out.csv')
            out = attempt(lambda: Writer(target).write_rows(entries))
            need(isinstance(out.exc, (IOError, OSError)),
                 'writing into a missing folder: %r' % (out.exc,))
            need(os.listdir(folder) == [], 'something was created')
            obs.count('missing_folder')
            obs.mark(['missing', len(entries)])
            return
        base = case.get('file', 'out.csv')
        name = {'abs': os.path.join(folder, base), 'bare': base,
                'rel': os.path.join('.', 'sub', base)}[case['where']]
        os.mkdir(os.path.join(folder, 'sub'))
        back = os.getcwd()
        os.chdir(folder)
        try:
            if case['before'] != 'none':
                with open(name, 'w') as f:
                    f.write('old,' * {'long': 20000, 'short': 1,
                                      'same': 50}[case['before']])
                obs.count('overwritten')
            writer = must(Writer, name)
            if case.get('first') is not None:
                earlier = [ref.clean_entry(r) for r in case['first']]
                must(writer.write_rows, earlier)
                obs.count('same_writer')
            must(writer.write_rows, entries)
            with open(name, newline='') as f:
                table = list(csv.reader(f))
            with open(name) as f:
                again = must(
                    lambda: self.mod.EqEntryReader(f).read_eq_catalog())
            files = sorted(os.path.join(d, x) for d, _, fs in os.walk('.')
                           for x in fs)
        finally:
            os.chdir(back)
        need(files == [('./sub/' if case['where'] == 'rel' else './') +
                       base], 'files written: %r' % files)
        need(entries == keep, 'the events were changed by writing them')
        need(table[:1] == [ref.FIELDS], 'first line %r' % table[:1])
        need(len(table) == len(entries) + 1, '%d lines for %d events' % (
            len(table) - 1, len(entries)))
        need(len(again) == len(entries), 'read back %d events of %d' % (
            len(again), len(entries)))
        for i, (want, line, entry) in enumerate(zip(keep, table[1:], again)):
            for j, field in enumerate(ref.FIELDS):
                text = line[j]
                if field == 'Agency' or want[field] == '':
                    ok = text == want[field]
                else:
                    ok = ref.number(text) == want[field]
                need(ok, 'event %d: %s written as %r instead of %r' % (
                    i, field, text, want[field]))
                need(gen.same(entry[field], want[field]),
                     'event %d: %s read back as %r instead of %r' % (
                         i, field, entry[field], want[field]))
            obs.count('events_round_tripped')
        if entries:
            obs.mark()


CHECK = C04()
