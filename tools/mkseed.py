#!/usr/bin/env python3
"""mkseed.py [ID...]: writes /verif/seeded/<ID>/ from tools/seeds/<ID>.txt.

A seed file has sections starting with '@@ name':
 @@ meta       property/needs/breaks lines
 @@ edit FILE  old text, a line '=====', new text (may repeat)
 @@ demo PKG   an in-package Go test with TestDemo
"""
import os, sys, subprocess, tempfile, json, re, shutil
base = '/verif/tools/seeds'
ids = sys.argv[1:] or sorted(f[:-4] for f in os.listdir(base) if f.endswith('.txt'))
DEMO = '''#!/bin/bash
# Runs demo_test.go inside %(pkg)s of the repository in the current directory.
D="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$D" > "$T/overlay.json"
go test -count=1 -vet=off -timeout 120s%(flags)s -overlay "$T/overlay.json" -run '^TestDemo$' ./%(pkg)s
'''
for i in ids:
    secs = re.split(r'^@@ ', open(f'{base}/{i}.txt').read(), flags=re.M)[1:]
    meta, edits, demo = {}, [], None
    for s in secs:
        head, body = s.split('\n', 1)
        h = head.split()
        if h[0] == 'meta':
            for l in body.strip().split('\n'):
                k, v = l.split(':', 1); meta[k.strip()] = v.strip()
        elif h[0] == 'edit':
            old, new = body.split('\n=====\n')
            edits.append((h[1], old.strip('\n'), new.strip('\n')))
        elif h[0] == 'demo':
            demo = (h[1], body, ' ' + ' '.join(h[2:]) if len(h) > 2 else '')
    W = tempfile.mkdtemp(prefix='mkseed.', dir='/tmp')
    subprocess.check_call(['cp', '-a', '/repo', W + '/repo'])
    for f, old, new in edits:
        p = f'{W}/repo/{f}'; t = open(p).read()
        assert t.count(old) == 1, (i, f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    subprocess.check_call('gofmt -l $(git diff --name-only)', shell=True, cwd=W + '/repo')
    d = subprocess.check_output(['git', 'diff'], cwd=W + '/repo', text=True)
    out = f'/verif/seeded/{i}'; os.makedirs(out, exist_ok=True)
    open(out + '/patch.diff', 'w').write(d)
    open(out + '/demo_test.go', 'w').write(demo[1])
    open(out + '/demo.sh', 'w').write(DEMO % dict(pkg=demo[0], flags=demo[2]))
    os.chmod(out + '/demo.sh', 0o755)
    json.dump({'property': meta['property'], 'needs': meta['needs'], 'what_it_breaks': meta['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    shutil.rmtree(W)
