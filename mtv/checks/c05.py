"""Reading a source model is exact, and only schema-valid ones are read."""
import os
import re

from mtv import gen
from mtv.core import Check, attempt, must, need

OTHER = '''
  <simpleFaultSource gml:id="flt%d"><gml:name>f</gml:name>
    <tectonicRegion>Volcanic</tectonicRegion><rake>10.0</rake>
    <evenlyDiscretizedIncrementalMFD minVal="6.5" binSize="0.1" type="ML">0.1 0.2</evenlyDiscretizedIncrementalMFD>
    <simpleFaultGeometry gml:id="geo%d"><faultTrace><gml:LineString srsName="urn:ogc:def:crs:EPSG::4326"><gml:posList>-121.8 37.7 0.0 -121.9 37.8 0.0</gml:posList></gml:LineString></faultTrace>
    <dip>90.0</dip><upperSeismogenicDepth>0.0</upperSeismogenicDepth><lowerSeismogenicDepth>9.0</lowerSeismogenicDepth></simpleFaultGeometry>
  </simpleFaultSource>'''


def spoil(rng, text, n):
    """Break the document in one place; (kind, text)."""
    kind = rng.choice(['drop', 'rename', 'text', 'range', 'type', 'region',
                       'cut', 'dupid', 'order', 'extra', 'attr', 'unclosed'])
    tags = ['aValueCumulative', 'bValue', 'minMagnitude', 'maxMagnitude',
            'strike', 'dip', 'rake', 'hypocentralDepth', 'tectonicRegion',
            'depth']
    tag = rng.choice(tags)
    found = list(re.finditer(r'<%s[^>]*>([^<]*)</%s>' % (tag, tag), text))
    m = rng.choice(found)
    if kind == 'drop':
        new = ''
    elif kind == 'rename':
        new = '<x%s>%s</x%s>' % (tag, m.group(1), tag)
    elif kind == 'text':
        new = '<%s>%s</%s>' % (tag, rng.choice(['abc', '', '1,5', '--']), tag)
        if tag == 'depth' and '><' in new:
            new = '<depth>x</depth>'
    elif kind == 'range':
        tag, bad = rng.choice([('strike', '360.5'), ('strike', '-1.0'),
                               ('dip', '90.5'), ('dip', '-0.1'),
                               ('rake', '181.0'), ('rake', '-180.5'),
                               ('bValue', '-0.5'),
                               ('hypocentralDepth', '-1.0'),
                               ('depth', '5000.0 -1.0')])
        m = rng.choice(list(re.finditer(
            r'<%s[^>]*>([^<]*)</%s>' % (tag, tag), text)))
        new = '<%s>%s</%s>' % (tag, bad, tag)
    elif kind == 'type':
        m = rng.choice(list(re.finditer(
            r'<truncatedGutenbergRichter type="\w+">|<magnitude type="\w+">',
            text)))
        new = re.sub('"\\w+"', '"Ms"', m.group(0))
    elif kind == 'region':
        m = rng.choice(list(re.finditer(
            r'<tectonicRegion>[^<]*</tectonicRegion>', text)))
        new = '<tectonicRegion>Atlantis</tectonicRegion>'
    elif kind == 'cut':
        k = rng.randint(len(text) // 2, len(text) - 20)
        return kind, text[:k]
    elif kind == 'order':
        m = rng.choice(list(re.finditer(
            r'(<strike>[^<]*</strike>)(<dip>[^<]*</dip>)', text)))
        new = m.group(2) + m.group(1)
    elif kind == 'extra':
        new = m.group(0) + '<surplus/>'
    elif kind == 'attr':
        m = rng.choice(list(re.finditer(r'<areaBoundary>', text)))
        new = '<areaBoundary colour="red">'
    elif kind == 'unclosed':
        m = rng.choice(list(re.finditer(r'</areaBoundary>', text)))
        new = ''
    else:
        ids = list(re.finditer(r'<areaSource gml:id="([^"]*)">', text))
        if len(ids) < 2:
            return 'region', re.sub(r'<tectonicRegion>[^<]*<',
                                    '<tectonicRegion>Moon<', text, count=1)
        m = ids[-1]
        new = '<areaSource gml:id="9 bad id">'
    return kind, text[:m.start()] + new + text[m.end():]


NOISE = ['<!-- %s -->', '<!---->', '<?note %s?>', '<!-- <gml:name>x</gml:name> -->',
         '<!-- 1.0 2.0 -->', '<?x?>']


def dress(rng, text):
    """The same document said otherwise: comments and processing instructions
    in and between texts, character data sections, characters by number,
    prefixes, and elements the area sources have no place for."""
    def noise():
        return rng.choice(NOISE).replace('%s', rng.choice(['a', '4.5', 'x y']))
    kinds = rng.sample(['between', 'within', 'cdata', 'number', 'prefix',
                        'described'], rng.randint(1, 3))
    if 'described' in kinds:
        text = re.sub(r'(<areaSource [^>]*>)', lambda m: m.group(1) + rng.choice(
            ['', '<gml:description>a</gml:description>',
             '<gml:metaDataProperty about="http://x/"/>']), text)
    if 'number' in kinds:
        text = re.sub(r'(>[^<>]*?)([A-Za-z0-9])(?=[^<>&;]*<)', lambda m: m.group(
            1) + (m.group(2) if rng.random() < 0.7 else '&#%d;' % ord(
                m.group(2))), text)
    if 'cdata' in kinds:
        text = re.sub(r'>([A-Za-z0-9 .]+)<', lambda m: m.group(
            0) if rng.random() < 0.5 else '><![CDATA[%s]]><' % m.group(1), text)
    if 'within' in kinds:
        def put(m):
            body = m.group(1)
            if rng.random() < 0.6 or '&' in body or not body.strip():
                return m.group(0)
            # in a list of numbers only between two of them
            spots = [0, len(body)] + [k for k, c in enumerate(body)
                                      if c.isspace()]
            if rng.random() < 0.3:
                spots.append(rng.randint(0, len(body)))
            k = rng.choice(spots)
            return '>' + body[:k] + noise() + body[k:] + '<'
        text = re.sub(r'>([^<>]+)<', put, text)
    if 'between' in kinds:
        head, body = text.split('<nrml', 1)
        body = re.sub(r'(/[^<>]*>)', lambda m: m.group(1) + (
            noise() if rng.random() < 0.1 else ''), body)
        text = head + noise() + '<nrml' + body
    if 'prefix' in kinds:
        # nothing but the tags
        pre = rng.choice(['n', 'nrml', 'oq'])
        text = text.replace('xmlns="', 'xmlns:%s="' % pre)
        text = re.sub(r'<(/?)(?!gml:|[!?])(?=[a-zA-Z]+[ />])',
                      lambda m: '<%s%s:' % (m.group(1), pre), text)
    return text


class C05(Check):
    ID = 'C05'
    RULE = ('random schema-valid documents of 1-8 area sources (names with '
            'markup and non-ASCII text, every way of writing numbers, other '
            'source types in between), and documents broken in one random '
            'place or missing; every case is non-trivial')
    QUICK = 8000
    THOROUGH = 60000
    MIN = {'sources_compared': 300, 'with_comments': 50, 'invalid_refused': 60,
           'invalid:missing': 5}
    ANCHORS = ('nrml/reader.py', 'nrml/nrml_xml.py', 'mtoolkit/jobs.py')

    def setup(self, env):
        import nrml.reader
        from lxml import etree
        self.mod = nrml.reader
        self.xsd = os.path.join(env.tree, 'nrml', 'schema', 'nrml.xsd')
        self.schema = etree.XMLSchema(etree.parse(self.xsd))
        self.etree = etree

    LARGE = 2

    def large(self, rng, i):
        sources = [gen.source(rng, k, gen.ring(rng))
                   for k in range((400, 2)[i])]
        if i:
            sources[1]['points'] = [
                [rng.uniform(-180, 180), rng.uniform(-90, 90)]
                for _ in range(6000)]
        for s in sources:
            s['nrml_id'], s['source_model_id'] = 'n1', 'sm1'
        return {'kind': 'valid', 'sources': sources, 'others': 0,
                'text': gen.nrml(sources, rng), 'encoding': 'utf-8',
                'api': 'reader'}

    def gen(self, rng, tier):
        sources = []
        for k in range(rng.choice([1, 1, 2, 3, 8, 30])):
            s = gen.source(rng, k, gen.ring(rng))
            s['nrml_id'], s['source_model_id'] = 'n%d' % (
                1), 'sm.%d' % 2
            sources.append(s)
        nid = rng.choice(['n1', 'nrml-x', 'é1'])
        mid = rng.choice(['sm1', 'model_7'])
        if rng.random() < 0.2:
            sources[-1] = dict(sources[0],
                               area_source_id=sources[-1]['area_source_id'])
        for s in sources:
            s['nrml_id'], s['source_model_id'] = nid, mid
        text = gen.nrml(sources, rng, config=rng.random() < 0.8)
        others = 0
        if rng.random() < 0.3:
            parts = text.split('  <areaSource ')
            text = parts[0]
            for part in parts[1:]:
                if rng.random() < 0.5:
                    text += OTHER.replace('%d', str(others)) + '\n'
                    others += 1
                text += '  <areaSource ' + part
        kind = 'valid'
        encoding, plain = 'utf-8', text
        if rng.random() < 0.35:
            text = dress(rng, plain)
            if not self.sound(text):
                text = plain
        if rng.random() < 0.1:
            encoding = rng.choice(['utf-16', 'utf-8-sig', 'iso-8859-1'])
            try:
                text.encode(encoding)
                text = text.replace('encoding="utf-8"', 'encoding="%s"' %
                                    encoding.replace('-sig', ''))
            except UnicodeEncodeError:
                encoding = 'utf-8'
        if rng.random() < 0.35:
            try:
                kind, text = spoil(rng, text, len(sources))
            except IndexError:
                # the pattern to spoil is broken up by the dressing
                kind, text = spoil(rng, plain, len(sources))
                encoding = 'utf-8'
        if rng.random() < 0.02:
            kind = 'missing'
        return {'kind': kind, 'sources': sources, 'text': text,
                'others': others, 'encoding': encoding,
                'api': rng.choice(['reader', 'job', 'twice'])}

    def sound(self, text):
        """Dressing is by patterns: keep what the schema still accepts."""
        try:
            return self.schema.validate(self.etree.fromstring(
                text.encode('utf-8')).getroottree())
        except self.etree.XMLSyntaxError:
            return False

    def run(self, case, obs):
        path = os.path.join(self.env.fresh(), 'model.xml')
        if case['kind'] != 'missing':
            with open(path, 'w', encoding=case.get('encoding', 'utf-8')) as f:
                f.write(case['text'])
        try:
            ok = self.schema.validate(self.etree.parse(path))
        except (self.etree.XMLSyntaxError, OSError):
            ok = False
        if ok != (case['kind'] == 'valid'):
            raise RuntimeError('generator: %s document, valid=%s: %s' % (
                case['kind'], ok, self.schema.error_log))
        got = []
        ctx = None

        def go():
            nonlocal ctx
            if case['api'] == 'job':
                from mtoolkit import jobs, workflow
                ctx = workflow.Context()
                ctx.config = {'source_model_file': path}
                jobs.read_source_model(ctx)
                got.extend(ctx.sm_definitions)
            elif case['api'] == 'twice':
                # two readings at once by one reader
                reader = self.mod.NRMLReader(path, self.xsd)
                one, two = reader.read(), reader.read()
                for src in one:
                    got.append(src)
                    twin = next(two)
                    need(twin is not src, 'two readings share a source')
                    d = gen.diff(gen.source_view(src), gen.source_view(twin))
                    need(d is None, 'two readings differ: %s' % d)
            else:
                for src in self.mod.NRMLReader(path, self.xsd).read():
                    got.append(src)
        if not ok:
            out = attempt(go)
            need(out.exc is not None, 'an invalid document (%s) was read '
                 'to its end' % case['kind'])
            obs.count('invalid_refused')
            obs.count('invalid:' + case['kind'])
            obs.mark(case['text'])
            return
        must(go)
        views = [gen.source_view(s) for s in got]
        need(len(views) == len(case['sources']), '%d sources read of %d' % (
            len(views), len(case['sources'])))
        for i, (want, view) in enumerate(zip(case['sources'], views)):
            d = gen.diff(want, view)
            need(d is None, 'source %d: %s' % (i, d))
            obs.count('sources_compared')
        obs.count('with_comments', '<!--' in case['text'])
        obs.mark(case['text'])


CHECK = C05()
