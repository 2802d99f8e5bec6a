#!/usr/bin/env python3
"""Edits that keep the behaviour: every check has to stay quiet on each.
usage: refactors.py [-g] [name...]   (-g: all named edits at once)"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = []
for f in sorted(os.listdir(V + '/tools/refactors')):
    if f.endswith('.py'):
        ns = {}
        exec(open(V + '/tools/refactors/' + f).read(), ns)
        R += ns['REFACTORS']
GO = os.environ.get('VERIF_GO', '/opt/veriftools/go1.23.12/bin/go')
def apply(d, edits):
    for f, o, n in edits:
        s = open(d + '/' + f).read() if os.path.exists(d + '/' + f) else ''
        if o is None: s += n
        else:
            if s.count(o) < 1: sys.exit('not found in %s: %s' % (f, o))
            s = s.replace(o, n, 1)
        open(d + '/' + f, 'w').write(s)
def run(name, edits, ids):
    d = '/tmp/refactor/' + name
    shutil.rmtree(d, True); os.makedirs('/tmp/refactor', exist_ok=True)
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    apply(d, edits)
    env = dict(os.environ, GOFLAGS='-mod=mod')
    for cmd in ([GO, 'build', './...'], [GO, 'test', '-count=1', './...']):
        p = subprocess.run(cmd, cwd=d, env=env, capture_output=True, text=True, errors='replace')
        if p.returncode: print(name, 'BROKEN', cmd, p.stdout[-1500:], p.stderr[-1500:]); return
    v = '/tmp/refactor/v'
    os.makedirs(v, exist_ok=True)
    shutil.copy(V + '/known_findings.txt', v)
    def chk(i):
        p = subprocess.run(['/tmp/texlint', 'check', i, v, d], capture_output=True, text=True, errors='replace')
        return i, p.returncode, p.stdout
    with ThreadPoolExecutor(7) as ex: res = list(ex.map(chk, ids))
    bad = [(i, o) for i, rc, o in res if rc]
    print(name, 'QUIET' if not bad else 'ALARM ' + ' '.join(i for i, _ in bad), flush=True)
    for i, o in bad:
        open('/tmp/refactor/%s.%s.txt' % (name, i), 'w').write(o)
    shutil.rmtree(d, True)
if __name__ == '__main__':
    a = sys.argv[1:]
    group = '-g' in a
    ids = [x for x in a if len(x) == 3 and x[0] == 'C'] or list(json.load(open(V + '/tools/claimed.json')))
    names = [x for x in a if x != '-g' and x not in ids]
    sel = [r for r in R if not names or any(r[0].startswith(n) for n in names)]
    if group: run('group', [e for r in sel for e in r[1]], ids)
    else:
        for n, e in sel: run(n, e, ids)
