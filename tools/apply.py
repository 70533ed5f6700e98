#!/usr/bin/env python3
"""apply.py FILE NAME DIR: applies one edit of a try.py file to a copy of /repo made at DIR."""
import re, subprocess, sys, shutil, os
f, name, R = sys.argv[1:4]
if os.path.exists(R): shutil.rmtree(R)
subprocess.check_call(['cp', '-a', '/repo', R])
for b in re.split(r'^## ', open(f).read(), flags=re.M)[1:]:
    head, body = b.split('\n', 1)
    if head.split()[0] != name: continue
    for e in re.split(r'^@@ sed ', body.split('@@ edit ')[0], flags=re.M)[1:]:
        file, t = e.split('\n', 1)
        for c in t.strip('\n').split('\n'): subprocess.check_call(['sed', '-i', c, R + '/' + file.strip()])
    for e in re.split(r'^@@ edit ', body, flags=re.M)[1:]:
        file, t = e.split('\n', 1)
        old, new = t.split('\n=====\n') if '\n=====\n' in t else t.split('=====\n')
        p = R + '/' + file.strip(); s = open(p).read()
        assert s.count(old.strip('\n')) == 1, old
        open(p, 'w').write(s.replace(old.strip('\n'), new.strip('\n')))
