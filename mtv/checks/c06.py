"""A written source model is valid and says exactly what was to be written."""
import os

from mtv import gen
from mtv.core import Check, attempt, must, need


class C06(Check):
    ID = 'C06'
    RULE = ('random sequences of 1-8 area sources (boundary values, 17-digit '
            'numbers, numpy numbers as produced by the processing jobs, markup '
            'and non-ASCII text) written over absent, longer or shorter files; '
            'read back by the package and by an independent parser, and '
            'validated; every case is non-trivial')
    QUICK = 8000
    THOROUGH = 60000
    MIN = {'sources_round_tripped': 300, 'missing_folder': 10,
           'same_writer': 20, 'unequal': 100}
    ANCHORS = ('nrml/writer.py', 'nrml/reader.py', 'nrml/nrml_xml.py',
               'mtoolkit/source_model.py')

    def setup(self, env):
        import nrml.reader
        import nrml.writer
        from lxml import etree
        self.reader, self.writer = nrml.reader, nrml.writer
        self.xsd = os.path.join(env.tree, 'nrml', 'schema', 'nrml.xsd')
        self.schema = etree.XMLSchema(etree.parse(self.xsd))
        self.etree = etree

    LARGE = 2

    def large(self, rng, i):
        case = None
        while case is None or case['where'] == 'missing':
            case = self.gen(rng, 'quick')
        if i == 0:
            case['sources'] = [gen.source(rng, k, gen.ring(rng))
                               for k in range(400)]
        else:
            case['sources'] = [gen.source(rng, k, gen.ring(rng))
                               for k in range(2)]
            case['sources'][1]['points'] = [
                [rng.uniform(-180, 180), rng.uniform(-90, 90)]
                for _ in range(6000)]
        return case

    def gen(self, rng, tier):
        n = rng.choice([1, 1, 2, 3, 8, 30])
        sources = [gen.source(rng, k, gen.ring(rng)) for k in range(n)]
        if rng.random() < 0.5:
            rng.shuffle(sources)
        if rng.random() < 0.2:
            sources[-1] = dict(
                sources[0], area_source_id=sources[-1]['area_source_id'])
        if rng.random() < 0.2:
            for s in sources:
                s['area_source_id'] = 'same'
        for s in sources:
            if rng.random() < 0.2:
                s['a'] = rng.choice([1e-300, 1e300, 5e-05, 123456789.123])
        # what the same writer wrote there before
        first = None
        if rng.random() < 0.2:
            first = [gen.source(rng, k, gen.ring(rng))
                     for k in range(rng.choice([1, 2, 5]))]
        return {'sources': sources, 'first': first,
                'alter': rng.choice(sorted(sources[0])),
                'by': rng.choice([' ', 'x', '1', '.']),
                'numpy': rng.random() < 0.5,
                'before': rng.choice(['none', 'long', 'short']),
                'file': rng.choice(['out.xml'] * 3 + gen.FILES),
                'where': rng.choice(['abs', 'abs', 'bare', 'missing'])}

    def equality(self, case, read, objs, obs):
        """Sources are equal exactly when all that is in them is."""
        for plain, have, obj in list(zip(case['sources'], read, objs))[:8]:
            need(have == obj and not have != obj, 'source %r is not equal to '
                 'the one written' % plain['area_source_id'])
            key = case['alter'] if case['alter'] in plain else 'hypo'
            v = plain[key]
            if isinstance(v, str):
                v += case['by']
            elif key == 'points':
                v = v[:-1] + [[v[-1][0], v[-1][1] + 0.5]]
            elif isinstance(v, list):
                v = v[:-1] + [v[-1] + 0.5]
            else:
                # huge numbers stay as they are when a half is added
                v = v + 0.5 if v + 0.5 != v else v / 2
            other = gen.source_object(dict(plain, **{key: v}))
            need(other != have and not other == have,
                 'sources with %s %r and %r are equal' % (key, plain[key], v))
            obs.count('unequal')

    def run(self, case, obs):
        import numpy as np
        plain = case['sources']
        objs = []
        for s in plain:
            if case['numpy']:
                s = dict(s)
                for key in ('a', 'b', 'mmax'):
                    s[key] = np.float64(s[key])
                s['mmin'] = s['mmin']
            objs.append(gen.source_object(s))
        folder = self.env.fresh()
        if case['where'] == 'missing':
            target = os.path.join(folder, 'no', 'out.xml')
            out = attempt(
                lambda: self.writer.AreaSourceWriter(target).serialize(objs))
            need(isinstance(out.exc, (IOError, OSError)),
                 'writing into a missing folder: %r' % (out.exc,))
            need(os.listdir(folder) == [], 'something was created')
            obs.count('missing_folder')
            return
        base = case.get('file', 'out.xml')
        path = os.path.join(folder, base)
        if case['before'] != 'none':
            with open(path, 'w') as f:
                f.write('<old/>' * (5000 if case['before'] == 'long' else 1))
        name = path
        back = os.getcwd()
        os.chdir(folder)
        try:
            if case['where'] == 'bare':
                name = base
            writer = must(self.writer.AreaSourceWriter, name)
            if case.get('first'):
                must(writer.serialize,
                     [gen.source_object(s) for s in case['first']])
                obs.count('same_writer')
            must(writer.serialize, objs)
        finally:
            os.chdir(back)
        need(os.listdir(folder) == [base], 'files %r' %
             os.listdir(folder))
        try:
            doc = self.etree.parse(path)
        except self.etree.XMLSyntaxError as exc:
            need(False, 'the document is not XML: %s' % exc)
        ids = [s['area_source_id'] for s in plain]
        if len(set(ids)) == len(ids):
            need(self.schema.validate(doc),
                 'the document is not valid: %s' % self.schema.error_log)
            obs.count('validated')
            read = must(
                lambda: list(self.reader.NRMLReader(path, self.xsd).read()))
            again = [gen.source_view(s) for s in read]
            self.equality(case, read, objs, obs)
        else:
            again = None
        other = gen.read_nrml(path)
        for label, seq in (('independent reading', other), ('reader', again)):
            if seq is None:
                continue
            need(len(seq) == len(plain), '%s: %d sources of %d' % (
                label, len(seq), len(plain)))
            for i, (want, view) in enumerate(zip(plain, seq)):
                d = gen.diff(want, view)
                need(d is None, '%s, source %d: %s' % (label, i, d))
        for want, obj in zip(plain, objs):
            need(gen.diff(want, gen.source_view(obj)) is None,
                 'writing changed the source')
        obs.count('sources_round_tripped', len(plain))
        obs.mark()


CHECK = C06()
