"""Try a planted bug (a development tool, not a check).

  seed.py DEFS.py [NAME...]

DEFS.py has SEEDS: name -> dict(property, edits=[(file, old, new)], needs,
breaks, demo). Each is applied to /repo, built, tested, demonstrated and given
to the check of its property; what is confirmed goes to seeded/NAME."""
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s/opt/py3tree
exec /opt/venv/bin/python -W ignore "$D/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def restore():
    sh('git -C /repo checkout -- . && bash /opt/vp/build.sh')


def stable_fail():
    sh('bash /opt/vp/test.sh /tmp/seed_out.json')
    got = set(json.load(open('/tmp/seed_out.json'))['passed'])
    return [t for t in json.load(open('/opt/vp/BASELINE.json'))['stable']
            if t not in got]


def original(patch):
    """Removed lines that are in the base commit."""
    base = sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.split()[0]
    num, name = 0, None
    import re
    for line in patch.split('\n'):
        if line.startswith('--- a/'):
            name = line[6:]
            text = sh('git -C /repo show %s:%s' % (base, name)).stdout
            have = set(text.split('\n'))
        elif line.startswith('-') and name and line[1:].strip():
            if line[1:] in have:
                num += 1
    return num


def main():
    space = {}
    exec(open(sys.argv[1]).read(), space)
    seeds = space['SEEDS']
    names = sys.argv[2:] or list(seeds)
    for name in names:
        s = seeds[name]
        out = os.path.join(VERIF, 'seeded', name)
        os.makedirs(out, exist_ok=True)
        with open(out + '/demo.py', 'w') as f:
            f.write(s['demo'].lstrip('\n'))
        extra = ''
        if s.get('nhlib'):
            os.makedirs(out + '/nhlib/scalerel', exist_ok=True)
            for sub in ('nhlib/__init__.py', 'nhlib/scalerel/__init__.py'):
                open(os.path.join(out, sub), 'w').close()
            with open(out + '/nhlib/scalerel/wc1994.py', 'w') as f:
                f.write(space['NHLIB'])
            extra = '$D:'
        if s.get('common'):
            with open(out + '/common.py', 'w') as f:
                f.write(space['COMMON'])
        with open(out + '/demo.sh', 'w') as f:
            f.write(SH % extra)
        os.chmod(out + '/demo.sh', 0o755)
        with open(out + '/meta.json', 'w') as f:
            json.dump({'property': s['property'], 'needs': s['needs'],
                       'what_it_breaks': s['breaks']}, f, indent=1)
            f.write('\n')
        restore()
        clean = sh('bash %s/demo.sh' % out, cwd=REPO, timeout=300)
        bad = None
        for fn, old, new in s['edits']:
            p = os.path.join(REPO, fn)
            text = open(p).read()
            if text.count(old) != 1:
                bad = '%s: %d matches of %r' % (fn, text.count(old), old[:50])
                break
            with open(p, 'w') as f:
                f.write(text.replace(old, new))
        if bad:
            print(name, 'BAD EDIT', bad)
            restore()
            continue
        patch = sh('git -C /repo diff').stdout
        with open(out + '/patch.diff', 'w') as f:
            f.write(patch)
        build = sh('bash /opt/vp/build.sh')
        fails = stable_fail()
        demo = sh('bash %s/demo.sh' % out, cwd=REPO, timeout=300)
        check = sh('%s/bin/check %s' % (VERIF, s['property']), cwd=VERIF)
        vio = [l for l in check.stdout.split('\n') if 'VIOLATION' in l]
        ok = (clean.returncode == 0 and build.returncode == 0 and not fails
              and demo.returncode != 0 and original(patch))
        print('%-28s %s %s clean=%d build=%d fails=%d demo=%d orig=%d '
              'check=%d' % (name, s['property'], 'OK ' if ok else 'REJECT',
                            clean.returncode, build.returncode, len(fails),
                            demo.returncode, original(patch),
                            check.returncode),
              'CAUGHT' if check.returncode == 1 and vio else 'MISSED')
        if not ok:
            print('   ', fails[:3], clean.stdout[-400:] if clean.returncode
                  else '', '' if demo.returncode else demo.stdout[-300:],
                  build.stdout[-300:] if build.returncode else '')
        if check.returncode not in (0, 1):
            print(check.stdout[-600:])
        sys.stdout.flush()
        restore()


main()
