#!/usr/bin/env python3
"""mut.py FILE [NAME...]: applies each edit of a mutants file to a scratch copy
of /repo and reports which checks notice it. A mutants file has blocks:

== name | checks | break or keep
file
<<<<
old
====
new
>>>>
(more edits)
"""
import os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', VERIF_SEED='1')


def parse(path):
    out = []
    for block in re.split(r'^== ', open(path).read(), flags=re.M)[1:]:
        head, body = block.split('\n', 1)
        name, checks, kind = [s.strip() for s in head.split('|')]
        edits = re.findall(r'^(\S+)\n<<<<\n(.*?)\n====\n(.*?)\n?>>>>$', body, flags=re.M | re.S)
        out.append((name, checks.split(), kind, edits))
    return out


def run(m):
    name, checks, kind, edits = m
    d = f'/tmp/mut/{name}'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git'))
    for f, old, new in edits:
        p = os.path.join(d, f)
        s = open(p).read()
        if s.count(old) != 1:
            return f'{name}: BAD EDIT of {f}: {s.count(old)} matches'
        open(p, 'w').write(s.replace(old, new))
    b = subprocess.run(['go', 'build', './...'], cwd=d, env=env, capture_output=True, text=True)
    if b.returncode:
        return f'{name}: DOES NOT BUILD\n{b.stderr}'
    b = subprocess.run(['go', 'vet', '-copylocks=false', '.'], cwd=d, env=env, capture_output=True, text=True)
    v = f'/tmp/mut/v-{name}'
    os.makedirs(v, exist_ok=True)
    res = []
    for c in checks:
        r = subprocess.run(['/verif/bin/analyzer', c], env=dict(env, BENTO_REPO=d, VERIF_DIR=v), capture_output=True, text=True)
        ok = (r.returncode == 1) == (kind == 'break')
        head = [l for l in r.stdout.split('\n') if l][:3]
        res.append(('ok   ' if ok else 'WRONG') + f' {c} exit {r.returncode}' + ('' if r.returncode == 0 and ok else ': ' + ' / '.join(head)[:400]))
    t = subprocess.run(['go', 'test', './...'], cwd=d, env=env, capture_output=True, text=True) if os.environ.get('TESTS') else None
    if not os.environ.get('KEEP'):
        shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(v, ignore_errors=True)
    s = f'{name} ({kind}): ' + '; '.join(res)
    if t is not None:
        s += ' TESTS ' + ('pass' if t.returncode == 0 else 'FAIL')
    return s


ms = parse(sys.argv[1])
if len(sys.argv) > 2:
    ms = [m for m in ms if m[0] in sys.argv[2:]]
os.makedirs('/tmp/mut', exist_ok=True)
with ThreadPoolExecutor(4) as ex:
    for r in ex.map(run, ms):
        print(r, flush=True)
if not os.environ.get('KEEP'):
    shutil.rmtree('/tmp/mut', ignore_errors=True)

