"""Try a list of small edits: python3 tools/muts.py LIST.py   (LIST defines F = file, M = [(pids, old, new), ...])."""
import importlib.util
import pathlib
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

spec = importlib.util.spec_from_file_location('m', sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)


def one(i):
    e = m.M[i]
    pids, old, new = e[:3]
    f = e[3] if len(e) > 3 else m.F
    d = tempfile.mkdtemp()
    try:
        shutil.copytree('/repo/src', d + '/src')
        p = pathlib.Path(d, 'src/fedservice', f)
        s = p.read_text()
        if old not in s:
            return i, 'NO MATCH ' + old[:60]
        p.write_text(s.replace(old, new, 1))
        res = []
        for pid in (pids.split(',') if isinstance(pids, str) else pids):
            r = subprocess.run([sys.executable, '/verif/check.py', '--property', pid, '--repo', d], capture_output=True,
                               text=True, timeout=900)
            v = [l for l in r.stdout.splitlines() if l.startswith(('VIOLATION', 'UNDECIDED', '  '))][:1]
            res.append(f'{pid}:{r.returncode} ' + (v[0][:110] if v else r.stdout[-80:].strip().replace('\n', ' | ')))
        return i, ' ;; '.join(res)
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(8) as ex:
    for i, r in ex.map(one, range(len(m.M))):
        e = m.M[i]
        print(f'[{i}] {e[2].strip()[:50]!r} -> {r}')
