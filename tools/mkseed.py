#!/usr/bin/env python3
"""mkseed.py SPEC.py: make /verif/seeded/<id> out of a spec and confirm it.

A spec sets ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], PKG (import
path below the module) and TEST (a Go test file with TestDemo).  It is kept
only if the tree with the change builds, passes the stable tests, and the demo
passes without and fails with it."""
import os, sys, subprocess, json, shutil, tempfile, textwrap

DEMO = '''#!/bin/bash
# run with cwd /repo; exit 0 when the property holds
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export HOME=/root GOENV=off GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
mkdir "$T/tmp"
printf '{"Replace":{"%s/@PKG@/zz_demo_verif_test.go":"%s/demo_test.go.txt"}}' "$PWD" "$D" > "$T/overlay.json"
TMPDIR="$T/tmp" timeout 250 go test -overlay "$T/overlay.json" -vet=off -count=1 -run '^TestDemo$' ./@PKG@
'''

def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    out = os.path.join('/verif/seeded', ns['ID'])
    tmp = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    w = os.path.join(tmp, 'repo')
    shutil.copytree('/repo', w, symlinks=True)
    env = dict(os.environ, GOENV='off', GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off', GOFLAGS='-mod=readonly')
    try:
        for f, old, new in ns['EDITS']:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                sys.exit('%s: %d matches in %s:\n%s' % (ns['ID'], s.count(old), f, old))
            open(p, 'w').write(s.replace(old, new))
        r = run(['gofmt', '-l'] + sorted({f for f, _, _ in ns['EDITS']}), w)
        if r.stdout.strip():
            print('gofmt:', r.stdout)
        diff = subprocess.run(['git', 'diff'], cwd=w, stdout=subprocess.PIPE, text=True).stdout
        # lines that are removed must be those of the original repository
        base = subprocess.run(['git', 'rev-list', '--max-parents=0', 'HEAD'], cwd=w, stdout=subprocess.PIPE, text=True).stdout.split()[0]
        for f in sorted({f for f, _, _ in ns['EDITS']}):
            orig = subprocess.run(['git', 'show', base + ':' + f], cwd=w, stdout=subprocess.PIPE, text=True).stdout.split('\n')
            cur = None
            for l in diff.split('\n'):
                if l.startswith('+++ b/'):
                    cur = l[6:]
                elif cur == f and l.startswith('-') and not l.startswith('---') and l[1:] not in orig:
                    print('WARNING not an original line:', l)
        d = tempfile.mkdtemp(dir=tmp)
        open(d + '/demo.sh', 'w').write(DEMO.replace('@PKG@', ns['PKG']))
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo_test.go.txt', 'w').write(ns['TEST'].lstrip('\n'))
        r = run(['go', 'build', './...'], w, env=env)
        if r.returncode:
            sys.exit(r.stdout)
        r = run(['bash', d + '/demo.sh'], '/repo')
        print('demo on the unchanged tree:', r.returncode)
        if r.returncode:
            sys.exit(r.stdout)
        r = run(['bash', d + '/demo.sh'], w)
        print('demo with the change:', r.returncode)
        print(textwrap.indent(r.stdout[-1500:], '   '))
        if not r.returncode or 'build failed' in r.stdout:
            sys.exit('demo does not fail')
        r = run(['go', 'test', '-vet=off', '-count=1', './...'], w, env=env)
        bad = [l for l in r.stdout.split('\n') if l.startswith(('FAIL', '--- FAIL', 'panic'))]
        print('tests:', r.returncode, bad)
        if r.returncode and 'FLAKY' not in ns:
            print(r.stdout[-1500:])
            sys.exit('tests fail')
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        json.dump(dict(property=ns['PROPERTY'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']),
                  open(out + '/meta.json', 'w'), indent=1)
        shutil.copy(d + '/demo.sh', out + '/demo.sh')
        shutil.copy(d + '/demo_test.go.txt', out + '/demo_test.go.txt')
        print('kept', out)
        if os.path.exists('/tmp/zk'):
            r = run(['/tmp/zk', '-property', ns.get('CHECK', ns['PROPERTY']), '-verif', '/tmp/zkv', '-repo', w], w)
            print('check:', r.returncode, [l for l in r.stdout.split('\n') if 'VIOL' in l or l.startswith('  ')][:6])
    finally:
        shutil.rmtree(tmp)

main()
