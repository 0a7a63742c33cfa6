#!/usr/bin/env python3
"""Tries planted changes: seed.py [--nocheck] [--all-checks] [ID ...]

For each /verif/seeded/<ID>: applies the patch to a copy of /repo, builds it and runs its tests with the copy mounted
over /repo in a mount namespace of its own, runs the demonstration on both trees, and then the property's check on the copy."""
import os, sys, json, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open('/opt/vp/BASELINE.json'))['stable']

def ns(copy, cmd, timeout=400):
    return subprocess.run(['unshare', '-m', 'bash', '-c', 'mount --bind %s /repo && cd /repo && %s' % (copy, cmd)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)

def one(i, check=True, allc=False):
    d = os.path.join(V, 'seeded', i)
    meta = json.load(open(d + '/meta.json'))
    w = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    out = []
    try:
        clean, bad, demo = w + '/clean', w + '/bad', w + '/demo'
        subprocess.run(['cp', '-a', '/repo', clean], check=True)
        subprocess.run(['cp', '-a', '/repo', bad], check=True)
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        r = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=bad, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: return i, 'DOES NOT APPLY ' + r.stdout
        r = ns(bad, 'bash /opt/vp/test.sh %s/out.json' % w)
        p = set(json.load(open(w + '/out.json'))['passed'])
        miss = [t for t in BASE if t not in p]
        if miss: out.append('TESTS FAIL %s' % miss[:4])
        a = ns(clean, 'bash /opt/vp/build.sh >/dev/null 2>&1 && bash %s/demo.sh' % demo, 300)
        b = ns(bad, 'bash %s/demo.sh' % demo, 300)
        if a.returncode: out.append('DEMO FAILS ON CLEAN: ' + a.stdout[-600:])
        if not b.returncode: out.append('DEMO PASSES ON BAD: ' + b.stdout[-600:])
        if check:
            subprocess.run('find lib src -name "*.o" -delete', cwd=bad, shell=True)
            for c in ([meta['property']] if not allc else sorted(json.loads(l)['id'] for l in open(V + '/properties.jsonl'))):
                v2 = w + '/v'
                shutil.rmtree(v2, ignore_errors=True)
                subprocess.run('mkdir -p %s && cp -a %s/check.py %s/lib %s/harness %s/spec %s/known-findings.txt %s' % ((v2,) + (V,) * 5 + (v2,)), shell=True, check=True)
                r = subprocess.run(['./check.py', c], cwd=v2, env=dict(os.environ, VERIF_REPO=bad, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode == 1: out.append('caught by ' + c)
                elif c == meta['property']: out.append('MISSED by %s (%d) %s' % (c, r.returncode, r.stdout[-500:] if r.returncode else ''))
                elif r.returncode: out.append('%s exits %d' % (c, r.returncode))
        return i, '; '.join(out)
    finally:
        shutil.rmtree(w, ignore_errors=True)

if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if not x.startswith('-')] or sorted(os.listdir(V + '/seeded'))
    with ThreadPoolExecutor(2) as ex:
        for i, o in ex.map(lambda i: one(i, '--nocheck' not in sys.argv, '--all-checks' in sys.argv), a):
            print(i, '--', o, flush=True)
