#!/usr/bin/env python3
"""Try a check on a changed copy: mutate.py PID[,PID] FILE OLD NEW [OLD NEW ..]  (FILE relative to src/fedservice)"""
import os, shutil, subprocess, sys, tempfile
pids, file, reps = sys.argv[1], sys.argv[2], sys.argv[3:]
d = tempfile.mkdtemp(prefix='mut')
try:
    shutil.copytree('/repo/src', d + '/src')
    p = f'{d}/src/fedservice/{file}'
    s = open(p).read()
    for o, n in zip(reps[::2], reps[1::2]):
        o, n = o.encode().decode('unicode_escape'), n.encode().decode('unicode_escape')
        if o not in s:
            print('NOT FOUND', o); sys.exit(3)
        s = s.replace(o, n, 1)
    open(p, 'w').write(s)
    compile(s, p, 'exec')
    for pid in pids.split(','):
        r = subprocess.run([sys.executable, os.path.dirname(os.path.abspath(__file__)) + '/../check.py', '--property', pid, '--repo', d, '--verbose'],
                           capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if not l.startswith('VIOLATION')]
        print(pid, 'rc', r.returncode, '|', '\n   '.join(x[:230] for x in v[:4] + v[-1:]), r.stderr[-300:])
finally:
    shutil.rmtree(d)
