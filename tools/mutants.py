#!/usr/bin/env python3
"""Mass mutation of /repo in scratch copies: which small changes pass the existing tests and are seen by no check.

usage: mutants.py MUTS.jsonl OUT.jsonl [-j N] [-shards N] [-only REGEX]     MUTS from tools/mutate. No check uses this file.
"""
import json, os, re, shutil, subprocess, sys, tempfile, queue, threading, resource, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off', GOFLAGS='-mod=mod -buildvcs=false', GOMAXPROCS='2',
           PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'])
ORDER = {
 'unmarshal.go': 'P01 P02 P03 P17 P20', 'conv.go': 'P05 P11 P24 P15', 'get.go': 'P11 P12 P09', 'import_export.go': 'P15 P16 P24', 'insert_append_delete.go': 'P09 P10 P24',
 'iteration.go': 'P13 P25', 'jsonvalue.go': 'P11 P01 P24', 'jsonvalue_internal.go': 'P01 P25 P12', 'marshal.go': 'P04 P07 P08 P06', 'new.go': 'P24 P07', 'option.go': 'P05 P19 P04 P06 P07',
 'set.go': 'P09 P24 P10', 'sort.go': 'P06 P21', 'compare.go': 'P14', 'beta/contain.go': 'P22', 'marshaler_unmarshaler.go': 'P23',
}
ALL = ['P%02d' % i for i in range(1, 26)]
MUTS, OUT = sys.argv[1:3]
J, SHARDS, ONLY = 8, 40, None
a = sys.argv[3:]
while a:
    if a[0] == '-j': J = int(a[1])
    elif a[0] == '-shards': SHARDS = int(a[1])
    else: ONLY = re.compile(a[1])
    a = a[2:]

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    os.setsid()

def run(cmd, cwd, timeout, env=ENV):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=limits)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors='replace')
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        p.communicate()
        return 'timeout', ''

todo, lock = queue.Queue(), threading.Lock()
done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        m = json.loads(l); done.add((m['file'], m['off'], m['end'], m['new']))
for l in open(MUTS):
    m = json.loads(l)
    if (m['file'], m['off'], m['end'], m['new']) in done: continue
    if ONLY and not ONLY.search('%s:%d' % (m['file'], m['line'])): continue
    todo.put(m)
out = open(OUT, 'a')

def worker(n):
    d = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', d + '/repo'])
        shutil.copytree(VERIF + '/harness', d + '/harness')
        g = open(d + '/harness/go.mod').read()
        open(d + '/harness/go.mod', 'w').write(g.replace('=> /repo', '=> ' + d + '/repo'))
        while True:
            try: m = todo.get_nowait()
            except queue.Empty: return
            p = d + '/repo/' + m['file']
            src = open(p, 'rb').read()
            open(p, 'wb').write(src[:m['off']] + m['new'].encode() + src[m['end']:])
            try: m['res'] = one(d, m, n)
            finally: open(p, 'wb').write(src)
            with lock:
                out.write(json.dumps(m) + '\n'); out.flush()
    finally:
        shutil.rmtree(d, ignore_errors=True)

def one(d, m, n):
    rc, o = run(['go', 'build', './...'], d + '/repo', 120)
    if rc != 0: return 'nobuild'
    rc, o = run(['go', 'test', '-vet=off', '-count=1', '-failfast', '-timeout', '60s', './...'], d + '/repo', 120)
    if rc != 0: return 'tests'
    rc, o = run(['go', 'build', '-o', d + '/vh', '.'], d + '/harness', 300)
    if rc != 0: return 'harness does not build: ' + o[-300:]
    first = ORDER.get(m['file'], '').split()
    for c in first + [x for x in ALL if x not in first]:
        f = d + '/out'
        for s in ('', '.set', '.journal'):
            if os.path.exists(f + s): os.remove(f + s)
        rc, o = run([d + '/vh', 'worker', '-prop', c, '-tier', 'quick', '-shard', '3', '-shards', str(SHARDS), '-out', f, '-known', VERIF + '/known_findings.txt'], d, 300)
        if rc != 0: return 'caught %s rc=%s' % (c, rc)
        r = json.load(open(f))
        if r.get('violations') or not r.get('done'): return 'caught ' + c
    return 'SURVIVED'

ts = [threading.Thread(target=worker, args=(i,)) for i in range(J)]
for t in ts: t.start()
for t in ts: t.join()
