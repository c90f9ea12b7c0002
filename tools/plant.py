#!/usr/bin/env python3
"""Plants a bug: plant.py FILE...

Each file is a Python file which defines ID, PROPERTY, NEEDS, BREAKS, FILE,
EDITS [(old, new), ...] and DEMO.  Confirms in a scratch copy that the change
touches lines of the original sources only, that the tests pass and that the
demo fails with it and passes without it, and writes /verif/seeded/ID.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

PY = '/opt/venv/bin/python'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def inside(repo, cmd):
    """With the scratch copy in place of /repo, in a mount namespace of its own"""
    return sh(['unshare', '-m', 'bash', '-c', 'mount --bind {} /repo && cd /repo && '
               'export PYTHONDONTWRITEBYTECODE=1 && {}'.format(repo, cmd)])


def plant(path):
    ns = {}
    exec(open(path).read(), ns)
    scratch = tempfile.mkdtemp(prefix='plant')
    try:
        repo = os.path.join(scratch, 'repo')
        sh(['cp', '-a', '/repo', repo])
        edits = ns['EDITS']
        if edits and isinstance(edits[0][0], str) and len(edits[0]) == 2:
            edits = [(ns['FILE'],) + e for e in edits]
        base = sh(['git', '-C', repo, 'rev-list', '--max-parents=0', 'HEAD']).stdout.split()[-1]
        for f, old, new in edits:
            p = os.path.join(repo, 'src/node', f)
            s = open(p).read()
            if s.count(old) != 1:
                return '{} occurrences of {!r}'.format(s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh(['git', '-C', repo, 'diff']).stdout
        # are the changed lines original?
        for f in set(e[0] for e in edits):
            d = sh(['git', '-C', repo, 'diff', '-U0', '--', 'src/node/' + f]).stdout
            for a, n in re.findall(r'^@@ -(\d+)(?:,(\d+))? ', d, re.M):
                n = int(n or 1)
                if not n:
                    print('   note: pure addition at', f, a)
                    continue
                b = sh(['git', '-C', repo, 'blame', '-l', '-s', '-L',
                        '{},+{}'.format(a, n), 'HEAD', '--', 'src/node/' + f]).stdout
                for line in b.splitlines():
                    if not line.lstrip('^').startswith(base[:30]):
                        return 'not original: ' + line[41:]
        t = inside(repo, PY + ' -W ignore -m pytest -q -x -p no:cacheprovider src/node/tests '
                   '--deselect src/node/tests/test_testing.py::TestFullmapping::test___setitem__')
        if t.returncode:
            return 'tests fail\n' + t.stdout[-1500:]
        dst = os.path.join(scratch, 'demo')
        os.mkdir(dst)
        open(dst + '/demo.py', 'w').write(ns['DEMO'].lstrip())
        open(dst + '/demo.sh', 'w').write(
            '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nPYTHONPATH="$PWD/src" '
            'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(dst + '/demo.sh', 0o755)
        bad = inside(repo, dst + '/demo.sh')
        good = sh([dst + '/demo.sh'], cwd='/repo')
        if good.returncode:
            return 'demo fails on the clean tree\n' + good.stdout[-1500:]
        if not bad.returncode:
            return 'demo passes with the bug'
        out = os.path.join(HERE, 'seeded', ns['ID'])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + '/patch.diff', 'w').write(diff)
        for f in ('demo.py', 'demo.sh'):
            shutil.copy(dst + '/' + f, out)
        json.dump(dict(property=ns['PROPERTY'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']),
                  open(out + '/meta.json', 'w'), indent=1)
        return None
    finally:
        shutil.rmtree(scratch)


for p in sys.argv[1:]:
    r = plant(p)
    print('{}: {}'.format(os.path.basename(p), r or 'planted'), flush=True)
