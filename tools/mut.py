#!/usr/bin/env python3
"""Self-test of the checker on scratch copies of /repo.

mutants.py lists edits: B(name, prop, edits) breaks prop and must be reported,
Q(name, edits) keeps the behaviour and every check must stay quiet on it.
usage: mut.py [-k SUBSTRING] [-all] [-noquiet|-nobug]"""
import sys, os, subprocess, shutil, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
ZK = os.environ.get('ZK', '/tmp/zk')
ENV = dict(os.environ, GOENV='off', GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off', GOFLAGS='-mod=readonly')
MUTS = []

def B(name, prop, *edits):
    MUTS.append((name, prop, edits))

def Q(name, *edits, only=None):
    MUTS.append((name, None, edits))

def sh(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def one(m, props):
    name, prop, edits = m
    tmp = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    try:
        w = tmp + '/repo'
        shutil.copytree('/repo', w, symlinks=True, ignore=shutil.ignore_patterns('.git'))
        for f, old, new in edits:
            s = open(w + '/' + f).read()
            if s.count(old) != 1:
                return name, 'SPEC', '%d matches of %r in %s' % (s.count(old), old[:60], f)
            open(w + '/' + f, 'w').write(s.replace(old, new))
        r = sh(['go', 'build', './...'], w)
        if r.returncode:
            return name, 'NOBUILD', r.stdout[-600:]
        os.mkdir(tmp + '/v')
        os.symlink('/verif/known_findings', tmp + '/v/known_findings')
        r = sh([ZK, '-property', (props + ',' + prop if props and prop and props != 'all' and prop not in props.split(',') else props) or prop or 'all', '-verif', tmp + '/v', '-repo', w], w)
        hit = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        got = sorted({l.split()[1].split('=')[1] for l in hit})
        if prop:
            ok = prop in got
        else:
            ok = not got and r.returncode == 0
        return name, 'ok' if ok else ('MISSED' if prop else 'FALSE ALARM'), '%s\n%s' % (got, r.stdout[-1500:] if not ok else '')
    finally:
        shutil.rmtree(tmp)

def main():
    a = sys.argv[1:]
    k = a[a.index('-k') + 1] if '-k' in a else ''
    exec(open(HERE + '/mutants.py').read(), dict(B=B, Q=Q))
    ms = [m for m in MUTS if (any(q in m[0] for q in k.split("|")) or m[1] in k.split("|")) and not ('-noquiet' in a and not m[1]) and not ('-nobug' in a and m[1])]
    props = 'all' if '-all' in a else (a[a.index('-p') + 1] if '-p' in a else None)
    bad = 0
    with cf.ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
        for name, st, msg in ex.map(lambda m: one(m, props), ms):
            if st != 'ok':
                bad += 1
                print('%-12s %s %s' % (st, name, msg))
            elif '-v' in a:
                print('ok', name, msg.split('\n')[0])
    print('%d mutants, %d not as expected' % (len(ms), bad))
    sys.exit(bad > 0)

main()
