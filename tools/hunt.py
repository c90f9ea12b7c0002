#!/usr/bin/env python3
"""Runs checks against planted bugs: hunt.py [-p PROPERTY] [-j JOBS] [ID ...]

Works on copies of /repo and /verif, which take the place of the real ones in
a mount namespace of their own.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(HERE, 'seeded')
ap = argparse.ArgumentParser()
ap.add_argument('-p', default=None, help='other property')
ap.add_argument('-j', type=int, default=1)
ap.add_argument('-s', default='1', help='seed')
ap.add_argument('-d', action='store_true', help='ids are paths of patches, with -p')
ap.add_argument('ids', nargs='*')
a = ap.parse_args()


def hunt(i):
    prop = a.p or json.load(open(os.path.join(S, i, 'meta.json')))['property']
    patch = os.path.abspath(i) if a.d else os.path.join(S, i, 'patch.diff')
    scratch = tempfile.mkdtemp(prefix='hunt')
    try:
        t = time.time()
        subprocess.check_call(['cp', '-a', '/repo', scratch + '/repo'])
        os.mkdir(scratch + '/verif')
        subprocess.check_call('cp -a *.py *.json* harness spec tools {}'.format(scratch + '/verif'),
                              shell=True, cwd=HERE)
        if subprocess.call(['git', '-C', scratch + '/repo', 'apply', patch]):
            return print(i, prop, 'DOES NOT APPLY', flush=True)
        r = subprocess.run(
            ['unshare', '-m', 'bash', '-c',
             'mount --bind {0}/repo /repo && mount --bind {0}/verif /verif && cd /verif && '
             'VERIF_SEED={1} exec python3 check.py {2} --quick'.format(scratch, a.s, prop)],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [x for x in r.stdout.split('\n') if x.startswith('VIOLATION property=' + prop)]
        print(i, prop, 'caught' if r.returncode == 1 and v else 'MISSED rc %s' % r.returncode,
              '%.0fs' % (time.time() - t), len(v),
              v[0].split('.json ')[-1][:150] if v else r.stdout[-300:], flush=True)
    finally:
        shutil.rmtree(scratch)


with ThreadPoolExecutor(a.j) as ex:
    list(ex.map(hunt, a.ids or sorted(os.listdir(S))))
