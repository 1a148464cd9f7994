#!/usr/bin/env python3
"""plant.py FILE [ID...]: makes /verif/seeded/<id> from the blocks of FILE and confirms each:

== id | property | package directory
needs: ...
breaks: ...
file
<<<<
old
====
new
>>>>
demo
<<<<
Go test file (package clause included)
>>>>

Every planted change must build, pass the tests, and the demonstration must
pass on the unchanged tree and fail with the change. Then the property's check
is run against the change.
"""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', VERIF_SEED='1')
DEMO = '''#!/bin/bash
# Runs demo_test.go, which lies beside this file, as a test of the package.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/PKG/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$here" >"$tmp/overlay.json"
timeout 200 go test -count=1 -overlay "$tmp/overlay.json" -run '^TestDemo' ./PKG
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, **kw)


def plant(b):
    head, body = b.split('\n', 1)
    i, prop, pkg = [s.strip() for s in head.split('|')]
    needs = re.search(r'^needs: (.*)$', body, re.M).group(1)
    breaks = re.search(r'^breaks: (.*)$', body, re.M).group(1)
    demo = re.search(r'^demo\n<<<<\n(.*?)\n>>>>$', body, re.M | re.S).group(1)
    body = body[:body.index('\ndemo\n<<<<')] + '\n'
    edits = re.findall(r'^(\S+)\n<<<<\n(.*?)\n====\n(.*?)\n?>>>>$', body, flags=re.M | re.S)
    d = f'/tmp/plant/{i}'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d)
    out = f'/tmp/plant/{i}.out'
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    open(out + '/demo.sh', 'w').write(DEMO.replace('PKG', pkg))
    os.chmod(out + '/demo.sh', 0o755)
    open(out + '/demo_test.go', 'w').write(demo + '\n')
    try:
        r = sh(['bash', out + '/demo.sh'], d)
        if r.returncode:
            return f'{i}: DEMO FAILS on the unchanged tree\n{r.stdout[-3000:]}{r.stderr[-2000:]}'
        for f, old, new in edits:
            s = open(f'{d}/{f}').read()
            if s.count(old) != 1:
                return f'{i}: BAD EDIT of {f}: {s.count(old)} matches'
            open(f'{d}/{f}', 'w').write(s.replace(old, new))
        r = sh(['go', 'build', './...'], d)
        if r.returncode:
            return f'{i}: DOES NOT BUILD\n{r.stderr}'
        r = sh(['go', 'test', './...'], d)
        if r.returncode:
            return f'{i}: TESTS FAIL\n{r.stdout[-1500:]}'
        r = sh(['bash', out + '/demo.sh'], d)
        if r.returncode == 0:
            return f'{i}: DEMO PASSES with the change'
        why = [l.strip() for l in r.stdout.split('\n') if 'demo_test.go' in l or 'panic' in l or 'DATA RACE' in l][:2]
        if not why:
            return f'{i}: DEMO FAILS oddly with the change\n{r.stdout[-1500:]}{r.stderr[-1500:]}'
        diff = sh(['git', 'diff'], d).stdout
        open(out + '/patch.diff', 'w').write(diff)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(out + '/meta.json', 'w'), indent=1)
        shutil.rmtree(f'{root}/seeded/{i}', ignore_errors=True)
        os.makedirs(f'{root}/seeded', exist_ok=True)
        shutil.copytree(out, f'{root}/seeded/{i}')
        s = f'{i}: planted ({"; ".join(why)[:200]})'
        v = f'/tmp/plant/{i}.v'
        os.makedirs(v, exist_ok=True)
        r = subprocess.run([root + '/bin/analyzer', prop], env=dict(env, BENTO_REPO=d, VERIF_DIR=v), capture_output=True, text=True)
        s += f'\n    {prop} ' + ('CAUGHT ' if r.returncode == 1 else f'MISSED (exit {r.returncode}) ') + ' / '.join([l for l in r.stdout.split('\n') if l][:2])[:400]
        shutil.rmtree(v, ignore_errors=True)
        return s
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)


blocks = re.split(r'^== ', open(sys.argv[1]).read(), flags=re.M)[1:]
want = sys.argv[2:]
blocks = [b for b in blocks if not want or b.split('|')[0].strip() in want]
with ThreadPoolExecutor(4) as ex:
    for r in ex.map(plant, blocks):
        print(r, flush=True)
