#!/usr/bin/env python3
"""try.py [-j N] [-p PROP] FILE [NAME...]: runs checks on edits of a scratch copy of /repo.

A file has blocks
 ## NAME bug|keep PROP...
 @@ sed FILE       (repeated, before the edits: sed commands, one a line)
 @@ edit FILE      (repeated)
 old text
 =====
 new text
'keep' edits change no behaviour: the checks must exit 0. 'bug' edits must make
each named check exit 1. Prints one line per (edit, property).
"""
import os, sys, re, subprocess, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor
a = sys.argv[1:]
j, only = 2, None
while a and a[0].startswith('-'):
    if a[0] == '-j': j = int(a[1])
    if a[0] == '-p': only = a[1].split(',')
    a = a[2:]
f, names = a[0], a[1:]
env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')
def one(b):
    head, body = b.split('\n', 1)
    h = head.split(); name, kind, props = h[0], h[1], h[2:]
    if names and name not in names: return
    if only: props = [p for p in props if p in only]
    if not props: return
    W = tempfile.mkdtemp(prefix='try.', dir='/tmp')
    try:
        R = W + '/repo'; V = W + '/verif'
        subprocess.check_call(['cp', '-a', '/repo', R]); os.makedirs(V)
        for x in ('bin', 'contracts', 'harness', 'tools', 'known-findings.txt', 'properties.jsonl'):
            os.symlink('/verif/' + x, V + '/' + x)
        for e in re.split(r'^@@ sed ', body.split('@@ edit ')[0], flags=re.M)[1:]:
            file, t = e.split('\n', 1)
            for c in t.strip('\n').split('\n'): subprocess.check_call(['sed', '-i', c, R + '/' + file.strip()])
        for e in re.split(r'^@@ edit ', body, flags=re.M)[1:]:
            file, t = e.split('\n', 1)
            old, new = t.split('\n=====\n') if '\n=====\n' in t else t.split('=====\n')
            old = old.strip('\n'); new = new.strip('\n')
            s = open(R + '/' + file.strip()).read()
            if s.count(old) != 1: print(name, 'EDIT: text found', s.count(old), 'times:', old[:80]); return
            open(R + '/' + file.strip(), 'w').write(s.replace(old, new))
        p = subprocess.run('go vet ./internal/... ./pkg/... 2>&1; bash -c "go build ./... " && go test -count=1 ./... 2>&1 | grep -E "^(---|FAIL|panic)" ; true', shell=True, cwd=R, env=env, capture_output=True, text=True)
        o = (p.stdout + p.stderr).strip()
        if o: print(name, 'BUILD/TEST:', o[:600])
        for pr in props:
            t = time.time()
            try:
                c = subprocess.run([V + '/bin/govc', 'check', pr], env=dict(env, VERIF_REPO=R, VERIF_DIR=V, VERIF_SEED='1', VERIF_TIER='quick'), capture_output=True, text=True, timeout=900)
                rc, out = c.returncode, c.stdout + c.stderr
            except subprocess.TimeoutExpired: rc, out = 'TIMEOUT', ''
            v = [l for l in out.split('\n') if l.startswith('VIOLATION')]
            ok = (rc == 0 and not v) if kind == 'keep' else rc == 1
            fi = '' if not v else (' obligation only' if 'no-failing' in v[0] else ' failing input')
            print(f"{'ok  ' if ok else 'BAD '} {name} {kind} {pr} rc={rc}{fi} {time.time()-t:.0f}s", flush=True)
            if not ok or os.environ.get('V'):
                print('\n'.join(l[:300] for l in out.split('\n')[:25]), flush=True)
    finally: shutil.rmtree(W)
bs = re.split(r'^## ', open(f).read(), flags=re.M)[1:]
with ThreadPoolExecutor(j) as ex: list(ex.map(one, bs))
