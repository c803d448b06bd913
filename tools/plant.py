#!/usr/bin/env python3
"""Plants the bugs described in a spec file and keeps the valid ones in /verif/seeded.

usage: plant.py SPEC.py [ID...]

SPEC.py defines BUGS, a list of dicts: id, prop, edits [(file, old, new)], needs, breaks, imports, demo (body of
main), and optionally race. A bug is valid when it builds, passes the stable tests, and its demonstration passes on
/repo and fails with it. Everything happens in scratch copies under /tmp. No check uses this file.
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off',
           PATH='/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
DEMO = '''#!/bin/bash
# exit 0: the property holds here; run with cwd at the root of the repository
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\":{\\"$PWD/zzdemo/main.go\\":\\"$here/main.go\\"}}" > "$t/o.json"
go build %s-overlay "$t/o.json" -o "$t/demo" ./zzdemo || exit 2
cd "$t" && %stimeout 120 ./demo
'''

def sh(cmd, cwd, timeout=300):
    r = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode(errors='replace')

def plant(b):
    d = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    try:
        wt = d + '/repo'
        subprocess.check_call(['git', 'clone', '-q', '/repo', wt])
        art = d + '/art'
        os.mkdir(art)
        imps = ''.join('\t%s\n' % (i if '"' in i else '"%s"' % i) for i in sorted(set(['fmt', 'os'] + b.get('imports', []))))
        body = b['demo']
        top = ''
        if '//MAIN' in body:
            top, body = body.split('//MAIN')
        open(art + '/main.go', 'w').write('''package main

import (
%s
	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func fail(f string, a ...interface{}) {
	fmt.Printf("FAIL: "+f+"\\n", a...)
	os.Exit(1)
}

var _ = jsonvalue.NewNull
%s
func main() {%s
	fmt.Println("ok")
}
''' % (imps, top, body))
        race = b.get('race')
        open(art + '/demo.sh', 'w').write(DEMO % (('-race ', 'GORACE=halt_on_error=1 ') if race else ('', '')))
        os.chmod(art + '/demo.sh', 0o755)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(art + '/meta.json', 'w'), indent=1)
        rc, out = sh(['gofmt', '-l', '-e', art + '/main.go'], wt)
        if rc: return b['id'], 'demo gofmt: ' + out
        sh(['gofmt', '-w', art + '/main.go'], wt)
        rc, out = sh(['bash', art + '/demo.sh'], wt)
        if rc: return b['id'], 'demo fails on the unchanged tree: ' + out[-600:]
        for f, old, new in b['edits']:
            s = open(wt + '/' + f).read()
            if s.count(old) != 1: return b['id'], 'edit matches %d times: %r' % (s.count(old), old)
            open(wt + '/' + f, 'w').write(s.replace(old, new))
        files = [f for f, _, _ in b['edits']]
        sh(['gofmt', '-w'] + files, wt)
        rc, out = sh(['go', 'build', './...'], wt)
        if rc: return b['id'], 'build: ' + out[-600:]
        rc, out = sh(['bash', art + '/demo.sh'], wt)
        if rc == 0: return b['id'], 'demo passes with the patch: ' + out[-300:]
        if rc == 2 and 'panic' not in out and 'goroutine' not in out: return b['id'], 'demo does not build: ' + out[-600:]
        t = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd ' + wt)
        open(d + '/test.sh', 'w').write(t)
        rc, out2 = sh(['bash', d + '/test.sh', d + '/out.json'], wt)
        base = json.load(open('/opt/vp/BASELINE.json'))
        got = json.load(open(d + '/out.json'))
        miss = [x for x in base['stable'] if x not in set(got['passed'])]
        if miss: return b['id'], 'existing tests catch it: %d, e.g. %s' % (len(miss), miss[0])
        diff = subprocess.check_output(['git', 'diff'], cwd=wt).decode()
        open(art + '/patch.diff', 'w').write(diff)
        dst = VERIF + '/seeded/' + b['id']
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(art, dst)
        return b['id'], 'KEPT: ' + out.strip().split('\n')[0][:150]
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    bugs = [b for b in ns['BUGS'] if len(sys.argv) < 3 or b['id'] in sys.argv[2:]]
    os.makedirs(VERIF + '/seeded', exist_ok=True)
    with ThreadPoolExecutor(6) as ex:
        for i, r in ex.map(plant, bugs):
            print('%-28s %s' % (i, r), flush=True)
