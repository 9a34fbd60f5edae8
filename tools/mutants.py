#!/usr/bin/env python3
"""Development aid: apply small edits to a scratch copy of /repo and run checks.

usage: mutants.py [-j N] [-p PROPS] [-t TIMEOUT] FILE [NAME...]
FILE is a Python file that defines MUTANTS: a list of
(name, expected, [(path, old, new), ...]); expected is a comma separated list
of properties whose check must report a violation ('' = all must stay quiet).
No registered check uses this script.
"""
import sys, os, subprocess, shutil, tempfile, argparse, concurrent.futures as cf
ap = argparse.ArgumentParser()
ap.add_argument('-j', type=int, default=2)
ap.add_argument('-p', default='')
ap.add_argument('-t', type=int, default=300)
ap.add_argument('-b', default='/tmp/pl')
ap.add_argument('-v', action='store_true')
ap.add_argument('file'); ap.add_argument('names', nargs='*')
a = ap.parse_args()
ns = {}
exec(open(a.file).read(), ns)
env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOSUMDB='off')

def one(m):
    name, exp, edits = m
    d = tempfile.mkdtemp(prefix='mut_')
    out = []
    bad = False
    try:
        r = d + '/repo'
        subprocess.run(['cp', '-a', '/repo', r], check=True)
        for path, old, new in edits:
            p = os.path.join(r, path)
            s = open(p).read() if os.path.exists(p) else ''
            if old == '' and not s:
                s = new
            elif s.count(old) < 1:
                return name, True, ['EDIT FAILS %s: %r' % (path, old[:60])]
            else:
                s = s.replace(old, new, 1)
            open(p, 'w').write(s)
        b = subprocess.run(['go', 'vet', './...'], cwd=r, env=dict(os.environ, GOFLAGS=''), capture_output=True, text=True)
        b2 = subprocess.run(['go', 'build', './...'], cwd=r, env=dict(os.environ, GOFLAGS=''), capture_output=True, text=True)
        if b2.returncode:
            return name, True, ['DOES NOT BUILD ' + b2.stderr[:500]]
        props = a.p.split(',') if a.p else exp.split(',')
        for p in props:
            if not p: continue
            o = d + '/o' + p
            try:
                q = subprocess.run('ulimit -v 20000000; exec %s -prop %s -repo %s -out %s' % (a.b, p, r, o), shell=True, cwd=r, env=env, capture_output=True, text=True, timeout=a.t)
                rc = q.returncode; tx = q.stdout + q.stderr
            except subprocess.TimeoutExpired as e:
                rc = 'timeout'; tx = ''
            want = 1 if p in exp.split(',') else 0
            line = '%s rc=%s want=%s' % (p, rc, want)
            if rc != want:
                bad = True
                line = '!! ' + line
            f = o + '/evidence/%s.violation.json' % p
            if rc == 1 and os.path.exists(f):
                import json
                v = json.load(open(f))
                ks = sorted({x['key'] + ' :: ' + x['what'][:160] for x in v})
                line += ' | ' + ' || '.join(ks[:2 if want else 5])
            elif rc != 0:
                line += ' | ' + tx[-600:]
            else:
                und = [l for l in tx.splitlines() if l.startswith('undecided')]
                line += ' und=%d' % len(und)
                if rc != want or want == 0: line += ' ' + ' / '.join(u[:150] for u in und[:3])
            out.append(line)
        return name, bad, out
    finally:
        shutil.rmtree(d)

ms = [m for m in ns['MUTANTS'] if not a.names or m[0] in a.names]
nb = 0
with cf.ThreadPoolExecutor(a.j) as ex:
    for name, bad, out in ex.map(one, ms):
        nb += bad
        print(('MISS ' if bad else 'ok   ') + name)
        for o in out:
            if a.v or bad: print('      ' + o)
        sys.stdout.flush()
print('%d of %d not as expected' % (nb, len(ms)))
