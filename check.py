#!/usr/bin/env python3
"""Decide one property of rohe/fedservice from its source.

check.py --property C01 [--tier quick|thorough]

Exit 0: no violation found; 1: a VIOLATION line was printed; 2: the check could not be carried out.
"""
import argparse
import hashlib
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sa.loader import AnchorMissing, Repo  # noqa: E402
from sa.rules.base import Ctx, PROVED, UNKNOWN, VIOLATED  # noqa: E402
from sa.rules.registry import RULES  # noqa: E402


def known_findings(pid):
    """[(rule, construct-substring, text)]"""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip('\n')
            if line.startswith('known: '):
                head, _, text = line[7:].partition(' | ')
                d = dict(x.split('=', 1) for x in head.split(' ', 2))
                if d.get('property') == pid:
                    out.append((d['rule'], d['construct'], text))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default=os.environ.get('FS_REPO', '/repo'))
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    pid = a.property
    t0 = time.time()
    repo = Repo(a.repo)
    ctx = Ctx(repo, pid)
    ctx.tier = a.tier
    missing, crashed = [], []
    for fn in RULES[pid]:
        mod, _, name = fn.partition('.')
        f = getattr(importlib.import_module('sa.rules.' + mod), name)
        try:
            f(ctx)
        except AnchorMissing as e:
            missing.append(str(e))
            ctx.ob(name, str(e), None, 'the function is not there (any more)')
        except Exception as e:  # code the analysis does not understand is undecided, not wrong
            if a.verbose:
                traceback.print_exc()
            crashed.append(f'{name}: {type(e).__name__}: {e}')
            ctx.ob(name, name, None, f'the analysis failed: {type(e).__name__}: {e}')
    known = known_findings(pid)
    findings, matched = {}, {}
    for o in ctx.obs:
        if o['status'] == VIOLATED:
            for r, c, text in known:
                if o['rule'] == r and o['construct'] == c:
                    matched.setdefault((r, c), text)
                    o['status'] = 'known-finding'
                    break
            else:
                findings.setdefault((o['rule'], o['construct'], o['why']), o)
    n = {s: sum(1 for o in ctx.obs if o['status'] == s) for s in (PROVED, VIOLATED, UNKNOWN, 'known-finding')}
    rules = {}
    for o in ctx.obs:
        rules.setdefault(o['rule'], {}).setdefault(o['status'], 0)
        rules[o['rule']][o['status']] += 1
    fns, exits, steps = set(), 0, 0
    for R in ctx.runs.values():
        fns |= set(R.A.functions_seen)
        exits += len(R.exits)
        steps += R.A.steps
    fns |= set(getattr(ctx, "functions", ()))
    exits += getattr(ctx, "abs_exits", 0)
    ev = {
        'property': pid, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
        'wall_s': round(time.time() - t0, 2),
        'coverage': {
            'explanation': 'Static analysis of the current source: every path of the listed functions (calls inlined, '
                           'loops summarised) is described by the conditions on it and by where values come from; '
                           'each obligation is one path, loop alternative, call site or table entry at which the rule '
                           'was decided.',
            'repo': a.repo, 'rules': rules, 'obligations': len(ctx.obs), 'discharged': n[PROVED],
            'violated': n[VIOLATED], 'known_findings': n['known-finding'], 'undecided': n[UNKNOWN],
            'undecided_list': [{k: o[k] for k in ('rule', 'construct', 'why', 'where')}
                               for o in ctx.obs if o['status'] == UNKNOWN][:40],
            'functions_analysed': sorted(fns), 'paths': exits, 'statements_interpreted': steps,
            'entry_points': sorted({R.qual for R in ctx.runs.values()} | set(getattr(ctx, 'entries', ()))),
            'limits_hit': ctx.limits, 'missing_anchors': missing, 'analysis_failures': crashed,
            'samples': [{k: o[k] for k in ('rule', 'construct', 'status', 'why', 'where')} for o in ctx.obs[:6]],
        },
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w'), indent=1, default=str)
    for (r, c), text in matched.items():
        print(f'KNOWN-FINDING: property={pid} {text}')
    if findings:
        rd = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        for (r, c, why), o in findings.items():
            h = hashlib.sha1(f'{r}|{c}|{why}'.encode()).hexdigest()[:8]
            path = os.path.join(rd, f'{pid}-{h}.json')
            json.dump(o, open(path, 'w'), indent=1, default=str)
            print(f'{r}: {c}: {why} ({o["where"]})')
            print(f'VIOLATION property={pid} replay={os.path.relpath(path, HERE)}')
    print(f'{pid}: {len(ctx.obs)} obligations, {n[PROVED]} discharged, {n[VIOLATED]} violated, {n[UNKNOWN]} undecided, '
          f'{ev["wall_s"]} s')
    if a.verbose:
        for o in ctx.obs:
            if o['status'] == UNKNOWN:
                print('  undecided:', o['rule'], o['construct'], o['why'], o['where'])
    return 1 if findings else 0


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
