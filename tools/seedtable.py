"""Rewrite the table of planted bugs in DESIGN.md (a development tool)."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- planted bugs -->\n'


def main():
    rows = ['| planted bug | caught by | needs |', '|---|---|---|']
    for path in sorted(glob.glob(os.path.join(HERE, 'seeded', '*',
                                              'meta.json'))):
        with open(path) as f:
            meta = json.load(f)
        rows.append('| %s | %s | %s |' % (
            os.path.basename(os.path.dirname(path)), meta['property'],
            meta['needs'].replace('|', '/')))
    name = os.path.join(HERE, 'DESIGN.md')
    with open(name) as f:
        parts = f.read().split(MARK)
    parts[1] = '\n'.join(rows) + '\n'
    with open(name, 'w') as f:
        f.write(MARK.join(parts))


main()
