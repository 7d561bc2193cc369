#!/usr/bin/env python3
"""Mutate the package systematically and see which checks notice.

automut.py OUT.jsonl [--files a.py,b.py] [--tests] [--jobs 8]

Each mutant is one small edit of one function.  The checks that looked at this function on the unchanged tree are run on it.
With --tests the stable tests are run on those that no check reported, to leave out what they find.
"""
import argparse, ast, importlib, json, multiprocessing, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
SRC = '/repo/src/fedservice'


def functions(tree, path=()):
    for n in ast.iter_child_nodes(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield '.'.join(path + (n.name,)), n
            yield from functions(n, path + (n.name,))
        elif isinstance(n, ast.ClassDef):
            yield from functions(n, path + (n.name,))


def un(n):
    return ast.unparse(n)


def logging(n):
    return isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or isinstance(n.value, ast.Call) and un(n.value.func).split('.')[0] in (
        'logger', '_logger', 'LOGGER', 'print'))


def inside_logging(fn):
    out = set()
    for n in ast.walk(fn):
        if logging(n) or isinstance(n, ast.Raise):
            out |= {id(x) for x in ast.walk(n)} - {id(n)}
    return out


def edits(fn):
    """(node to replace, new text, what)"""
    skip = inside_logging(fn)
    deco = {id(x) for d in fn.decorator_list for x in ast.walk(d)} | {id(x) for x in ast.walk(fn.args)}
    if fn.returns:
        deco |= {id(x) for x in ast.walk(fn.returns)}
    nested = {id(x) for n in ast.walk(fn) if n is not fn and isinstance(n, (ast.FunctionDef, ast.ClassDef)) for x in ast.walk(n)}
    for n in ast.walk(fn):
        if id(n) in skip or id(n) in deco or id(n) in nested or n is fn:
            continue
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            yield n.test, f'(not ({un(n.test)}))', 'negate'
            yield n.test, 'True', 'true'
            yield n.test, 'False', 'false'
        if isinstance(n, ast.BoolOp):
            for i, v in enumerate(n.values):
                rest = [un(w) for j, w in enumerate(n.values) if j != i]
                yield n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(rest) + ')', f'drop {un(v)[:40]}'
            yield n, '(' + (' or ' if isinstance(n.op, ast.And) else ' and ').join(f'({un(w)})' for w in n.values) + ')', 'and/or'
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            sw = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='],
                  ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
            for o in sw[type(n.ops[0])]:
                yield n, f'({un(n.left)} {o} {un(n.comparators[0])})', o
        if isinstance(n, ast.Raise):
            yield n, 'pass', 'no raise'
        if isinstance(n, (ast.Continue,)):
            yield n, 'break', 'break'
            yield n, 'pass', 'no continue'
        if isinstance(n, (ast.Break,)):
            yield n, 'continue', 'continue'
            yield n, 'pass', 'no break'
        if isinstance(n, ast.Return) and n.value is not None:
            if not (isinstance(n.value, ast.Constant) and n.value.value is None):
                yield n, 'return None', 'return None'
            if isinstance(n.value, ast.Constant) and isinstance(n.value.value, bool):
                yield n, f'return {not n.value.value}', 'other answer'
            yield n, 'pass', 'no return'
        if isinstance(n, ast.Return) and n.value is None:
            yield n, 'pass', 'no return'
        if isinstance(n, ast.Expr) and not logging(n):
            yield n, 'pass', 'no call'
        if isinstance(n, ast.Delete):
            yield n, 'pass', 'no del'
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            yield n, 'pass', 'no assignment'
        if isinstance(n, ast.AugAssign):
            yield n, f'{un(n.target)} = {un(n.value)}', 'no aug'
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            yield n, f'{un(n.targets[0])} = None', 'None'
        if isinstance(n, ast.For):
            if not isinstance(n.iter, ast.Call) or un(n.iter.func) not in ('range',):
                yield n.iter, f'list({un(n.iter)})[1:]', 'not the first'
                yield n.iter, f'list({un(n.iter)})[:1]', 'only the first'
        if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            yield n, f'{n.value + 1}' if n.value >= 0 else f'({n.value + 1})', '+1'
            yield n, f'({n.value - 1})', '-1'
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield n, f'{not n.value}', 'not'
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value:
            yield n, repr(n.value + '_'), 'other text'
        if isinstance(n, ast.Call):
            if len(n.args) >= 2:
                a = [un(x) for x in n.args]
                a[0], a[1] = a[1], a[0]
                yield n, f'{un(n.func)}({", ".join(a + [un(k) for k in n.keywords])})', 'swapped'
            for k in n.keywords:
                if k.arg:
                    yield n, f'{un(n.func)}({", ".join([un(x) for x in n.args] + [un(q) for q in n.keywords if q is not k])})', f'without {k.arg}'
            if n.args and isinstance(n.func, ast.Name) and n.func.id in ('sorted', 'set', 'reversed', 'list', 'copy', 'deepcopy', 'bool'):
                yield n, un(n.args[0]), f'no {n.func.id}'
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'get' and len(n.args) == 1:
                yield n, f'{un(n.func.value)}[{un(n.args[0])}]', 'item'
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'get' and len(n.args) == 2:
                yield n, f'{un(n.func.value)}.get({un(n.args[0])})', 'no default'
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('union', 'intersection', 'difference', 'issubset', 'issuperset'):
                yield n, un(n.func.value), f'no {n.func.attr}'
        if isinstance(n, ast.ExceptHandler) and not all(isinstance(b, ast.Pass) for b in n.body):
            if len(n.body) == 1 and isinstance(n.body[0], ast.Raise):
                continue
            yield n.body, 'raise', 'not caught'
        if isinstance(n, ast.ListComp) and n.generators[0].ifs:
            m = ast.parse(un(n), mode='eval').body
            m.generators[0].ifs = []
            yield n, un(m), 'no filter'
        if isinstance(n, ast.DictComp) and n.generators[0].ifs:
            m = ast.parse(un(n), mode='eval').body
            m.generators[0].ifs = []
            yield n, un(m), 'no filter'
        if isinstance(n, ast.BinOp):
            yield n, un(n.left), 'left'
            yield n, un(n.right), 'right'
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and isinstance(n.ctx, ast.Load):
            yield n, un(n.value), 'no slice'


def splice(src, lines, node, text):
    if isinstance(node, list):
        a, b = node[0], node[-1]
    else:
        a = b = node
    off = [0]
    for line in lines:
        off.append(off[-1] + len(line.encode()))
    raw = src.encode()
    s, e = off[a.lineno - 1] + a.col_offset, off[b.end_lineno - 1] + b.end_col_offset
    return (raw[:s] + text.encode() + raw[e:]).decode()


def mutants(files):
    for f in files:
        src = open(f'{SRC}/{f}').read()
        lines = src.splitlines(keepends=True)
        tree = ast.parse(src)
        seen = {src}
        for name, fn in functions(tree):
            if name.rpartition('.')[2] in ('__repr__', '__str__'):
                continue
            for node, text, what in edits(fn):
                new = splice(src, lines, node, text)
                try:
                    ast.parse(new)
                except SyntaxError:
                    continue
                if new in seen:
                    continue
                seen.add(new)
                a = node[0] if isinstance(node, list) else node
                yield f, name, a.lineno, what, src.splitlines()[a.lineno - 1].strip(), new


def checks_on(repo_dir, pids):
    """{pid: (violations, undecided)} with what is known left out"""
    from check import known_findings
    from sa.loader import AnchorMissing, Repo
    from sa.rules.base import Ctx, UNKNOWN, VIOLATED
    from sa.rules.registry import RULES
    out, fns = {}, {}
    repo, runs = Repo(repo_dir), {}
    for pid in pids:
        ctx = Ctx(repo, pid)
        ctx.runs = runs
        ctx.tier = 'quick'
        for fn in RULES[pid]:
            mod, _, name = fn.partition('.')
            f = getattr(importlib.import_module('sa.rules.' + mod), name)
            try:
                f(ctx)
            except AnchorMissing as e:
                ctx.ob(name, str(e), None, 'gone')
            except Exception as e:
                ctx.ob(name, name, None, f'failed {e}')
        known = {(r, c) for r, c, t in known_findings(pid)}
        v = sorted({f"{o['rule']}: {o['why']}"[:120] for o in ctx.obs if o['status'] == VIOLATED and (o['rule'], o['construct']) not in known})
        u = sorted({f"{o['rule']}: {o['why']}"[:120] for o in ctx.obs if o['status'] == UNKNOWN})
        out[pid] = (v, u)
        s = set(getattr(ctx, 'functions', ()))
        for R in ctx.runs.values():
            s |= set(R.A.functions_seen)
        fns[pid] = s
    return out, fns


def job(m):
    f, name, line, what, text, new, pids = m
    d = tempfile.mkdtemp(prefix='am')
    try:
        shutil.copytree('/repo/src', d + '/src')
        open(f'{d}/src/fedservice/{f}', 'w').write(new)
        try:
            out, _ = checks_on(d, pids)
        except Exception as e:
            return dict(f=f, fn=name, line=line, what=what, text=text, error=str(e))
        hit = {p: v[:2] for p, (v, u) in out.items() if v}
        und = {p: u[:2] for p, (v, u) in out.items() if u}
        r = dict(f=f, fn=name, line=line, what=what, text=text, caught=hit, undecided=und, ran=len(pids))
        r['wide'] = None
        if not hit and WIDE:
            shutil.copy('/tmp/ut/conftest.py', d)
            shutil.copytree('/tmp/ut/tests', d + '/tests')
            env = dict(os.environ, PYTHONPATH=f'{d}/src:/tmp/shim', PYTHONDONTWRITEBYTECODE='1')
            bad = [x.split(' ', 1)[1].strip() for x in open('/tmp/fail.base')]
            try:
                p = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '--tb=no', '-p', 'no:cacheprovider', '--timeout=60'] +
                                   [y for x in bad for y in ('--deselect', x)] + ['.'], capture_output=True, text=True, cwd=d + '/tests', env=env,
                                   timeout=300)
                r['wide'] = p.stdout.strip().splitlines()[-1][:80] if p.returncode else 'pass'
            except subprocess.TimeoutExpired:
                r['wide'] = 'timeout'
        return r
    finally:
        shutil.rmtree(d)


WIDE = os.environ.get('WIDE')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--files', default='')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--limit', type=int, default=0)
    a = ap.parse_args()
    files = a.files.split(',') if a.files else sorted(
        os.path.relpath(os.path.join(d, x), SRC) for d, _, xs in os.walk(SRC) for x in xs if x.endswith('.py'))
    from sa.rules.registry import RULES
    with multiprocessing.Pool(a.jobs) as pool:
        base = pool.starmap(checks_on, [('/repo', [p]) for p in RULES])
    seen = {}
    for (out, fns) in base:
        for p, s in fns.items():
            seen[p] = s
    ms = []
    for f, name, line, what, text, new in mutants(files):
        mod = 'fedservice.' + f[:-3].replace('/', '.')
        mod = mod[:-9] if mod.endswith('.__init__') else mod
        q = f'{mod}.{name}'
        pids = [p for p in RULES if q in seen[p] or any(x.startswith(q + '.') or q.startswith(x + '.') for x in seen[p])]
        pids += [p for p in ('C31', 'C13', 'C33') if p not in pids]
        ms.append((f, name, line, what, text, new, pids))
    if a.limit:
        ms = ms[::max(1, len(ms) // a.limit)]
    print(len(ms), 'mutants', sum(len(m[6]) for m in ms) / max(1, len(ms)), 'checks each', flush=True)
    t0, n, miss = time.time(), 0, 0
    with multiprocessing.Pool(a.jobs, maxtasksperchild=20) as pool, open(a.out, 'w') as o:
        for r in pool.imap_unordered(job, ms):
            n += 1
            miss += not r.get('caught')
            o.write(json.dumps(r) + '\n')
            o.flush()
            if n % 50 == 0:
                print(n, miss, f'{time.time() - t0:.0f} s', flush=True)


if __name__ == '__main__':
    main()
