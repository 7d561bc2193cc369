#!/usr/bin/env python3
"""Make /verif/seeded/<id>/ from the specifications in tools/seeds/*.py:  seed.py [--check] [ID..]

A specification file defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new), ..], demo=source), ..].
Every planted bug is confirmed in a scratch copy of /repo: the demonstration passes without it and fails with it, the
stable tests pass with it, and the lines it changes are lines of the original repository.
"""
import importlib.util
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = pathlib.Path(__file__).resolve().parent
OUT = HERE.parent / 'seeded'
BASE = '8008276'
SRC = 'src/fedservice/'


def specs():
    for f in sorted((HERE / 'seeds').glob('*.py')):
        sp = importlib.util.spec_from_file_location(f.stem, f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        yield from m.SEEDS


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=300, **kw)


def make(s):
    d = pathlib.Path(tempfile.mkdtemp(prefix='seed'))
    try:
        r = d / 'repo'
        run(['git', 'clone', '-q', '/repo', str(r)], '/')
        demo = d / 'demo'
        shutil.copytree(HERE / 'demo', demo, ignore=shutil.ignore_patterns('__pycache__'))
        (demo / 'demo.py').write_text('from fed import *  # noqa\n' + s['demo'].strip() + '\n')
        (demo / 'demo.sh').write_text('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\n'
                                      'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        a = run(['bash', str(demo / 'demo.sh')], r)
        if a.returncode != 0:
            return s['id'], 'demo fails on the unchanged tree: ' + (a.stderr or a.stdout)[-600:]
        for f, old, new in s['edits']:
            p = r / (SRC + f)
            t = p.read_text()
            if t.count(old) < 1:
                return s['id'], f'no match in {f}: {old[:60]}'
            p.write_text(t.replace(old, new, 1))
            compile(p.read_text(), str(p), 'exec')
        diff = run(['git', 'diff'], r).stdout
        for f, _, _ in s['edits']:
            base = run(['git', 'show', f'{BASE}:{SRC}{f}'], r).stdout.splitlines()
            fd = run(['git', 'diff', '-U0', '--', SRC + f], r).stdout.splitlines()
            gone = [l[1:] for l in fd if l.startswith('-') and not l.startswith('---') and l[1:].strip()]
            own = [l for l in gone if l not in base]
            if own:
                return s['id'], f'changes lines that are not original: {own[:2]}'
            if not gone:
                print(s['id'], 'only adds lines in', f)
        b = run(['bash', str(demo / 'demo.sh')], r)
        if b.returncode == 0:
            return s['id'], 'the demonstration does not see it'
        # the stable tests
        tests = pathlib.Path('/opt/vp/test.sh').read_text().replace('/repo', str(r))
        (d / 'test.sh').write_text(tests)
        run(['bash', str(d / 'test.sh'), str(d / 'out.json')], r)
        res = json.loads((d / 'out.json').read_text())
        stable = json.loads(pathlib.Path('/opt/vp/BASELINE.json').read_text())['stable']
        passed = res.get('passed', res)
        bad = [t for t in stable if t not in passed]
        if bad:
            return s['id'], f'tests fail: {bad[:3]}'
        o = OUT / s['id']
        if o.exists():
            shutil.rmtree(o)
        shutil.copytree(demo, o, ignore=shutil.ignore_patterns('__pycache__'))
        (o / 'patch.diff').write_text(diff)
        (o / 'meta.json').write_text(json.dumps({'property': s['property'], 'needs': s['needs'],
                                                 'what_it_breaks': s['breaks']}, indent=1) + '\n')
        res = []
        for pid in [s['property']]:
            c = run([sys.executable, str(HERE.parent / 'check.py'), '--property', pid, '--repo', str(r)], '/')
            res.append(f'{pid}:{"CAUGHT" if c.returncode == 1 else "missed " + c.stdout[-80:].strip()}')
        return s['id'], 'ok ' + ' '.join(res) + ' | demo: ' + (b.stderr or b.stdout).strip().splitlines()[-1][:100]
    finally:
        shutil.rmtree(d)


want = [x for x in sys.argv[1:] if not x.startswith('-')]
todo = [s for s in specs() if not want or any(s['id'].startswith(w) for w in want)]
with ThreadPoolExecutor(6) as ex:
    for i, r in ex.map(make, todo):
        print(i, r)
