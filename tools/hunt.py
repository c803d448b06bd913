#!/usr/bin/env python3
"""Runs the check of its property (or those given) against each planted bug, in scratch copies under /tmp.

usage: hunt.py [-j N] [-c P01,P02|all] [-t tier] [ID...]      prints which checks catch which bugs. No check uses this file.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def hunt(bug, checks, tier, src='/repo'):
    d = tempfile.mkdtemp(prefix='hunt-', dir='/tmp')
    try:
        subprocess.check_call(['git', 'clone', '-q', src, d + '/repo'])
        if bug != 'none':
            p = bug if bug.endswith('.diff') else VERIF + '/seeded/' + bug + '/patch.diff'
            subprocess.check_call(['git', 'apply', p], cwd=d + '/repo')
        os.mkdir(d + '/verif')
        for f in ('check.sh', 'known_findings.txt', 'harness', 'tools', 'properties.jsonl'):
            s = VERIF + '/' + f
            (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, d + '/verif/' + f)
        m = open(d + '/verif/harness/go.mod').read()
        open(d + '/verif/harness/go.mod', 'w').write(m.replace('=> /repo', '=> ' + d + '/repo'))
        res = []
        for c in checks:
            t = time.time()
            r = subprocess.run([d + '/verif/check.sh', c, tier], cwd=d + '/verif', stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out = r.stdout.decode(errors='replace')
            v = [l for l in out.split('\n') if l.startswith('VIOLATION property=' + c)]
            res.append((c, r.returncode, bool(v), time.time() - t, out))
        return bug, res
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == '__main__':
    a = sys.argv[1:]
    j, checks, tier = 3, None, 'quick'
    while a and a[0] in ('-j', '-c', '-t'):
        if a[0] == '-j': j = int(a[1])
        elif a[0] == '-c': checks = a[1]
        else: tier = a[1]
        a = a[2:]
    if checks == 'all': checks = ','.join('P%02d' % i for i in range(1, 26))
    ids = a or sorted(os.listdir(VERIF + '/seeded'))
    def one(i):
        cs = checks.split(',') if checks else [json.load(open(VERIF + '/seeded/' + i + '/meta.json'))['property']]
        return hunt(i, cs, tier)
    missed = []
    with ThreadPoolExecutor(j) as ex:
        for i, res in ex.map(one, ids):
            for c, rc, v, s, out in res:
                word = 'CAUGHT' if rc == 1 and v else 'quiet' if rc == 0 else 'ODD rc=%d' % rc
                print('%-30s %s %-8s %4.0fs %s' % (i, c, word, s, '' if word == 'quiet' else
                      next((l for l in out.split('\n') if 'detail' in l or 'VIOLATION' in l), out[-300:])[:170]), flush=True)
                if word != 'CAUGHT' and not checks: missed.append(i)
    if not checks: print('missed:', ' '.join(missed) or 'none')
