#!/usr/bin/env python3
"""Write MANIFEST.json from the rule registry and the notes below."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.rules.registry import RULES  # noqa: E402

TRUST = ('Static: decided on the source at every run, nothing is executed. Trusted: the models of Python built-ins, '
         'cryptojwt and idpyoidc in sa/engine.py (a signature checked with the right keys is genuine, '
         'HTTP libraries return what the server sent). What the analysis can not decide is counted as undecided in '
         'the evidence and not reported; on the current tree every obligation is discharged or a known finding.')
TECH = {
    'path': 'path-sensitive dataflow over the inlined call graph: guard facts and value provenance on every accepting '
            'path and loop iteration',
}
T = {  # per property technique
    'C13': 'AST and path analysis of the recursion: visited sets, decreasing measures, who calls whom',
    'C31': 'effect analysis: which objects reachable from module level tables are written to or handed on',
    'C34': 'path-sensitive dataflow: which facts dominate every accepting exit and every write to the state store',
    'C37': 'custom lint of the export tables against the attributes used, and dataflow from store to dump and from dump to store',
    'C42': 'path-sensitive dataflow: a decreasing measure at the recursive call, provenance of every element of what is returned, and the reasons of what is not',
    'C43': 'path-sensitive dataflow: the symbolic request of every combination of arguments, with the provenance of its location, of each of its parameters and of what is left out',
    'C44': 'path-sensitive dataflow from the HTTP status to what is returned as the response, and provenance of tokens, user info and session keys on every way out',
    'C41': 'path-sensitive dataflow: every way out without a superior must carry one of the specified reasons, with the cache as it is after the last fetch',
    'C40': 'path-sensitive dataflow: the content of the client database on every way out, and the facts under which each URI and value is registered',
    'C39': 'path-sensitive effect analysis of the client database: every registration, removal and marking against the facts of its path',
    'C38': 'path-sensitive dataflow, dual of C01-C07 and C10: every refusing exit must carry one of the specified reasons',
    'C36': 'effect analysis: provenance of every value written to the trust anchor and key tables',
}
NA = {
}


def main():
    props = [json.loads(line) for line in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        pid = p['id']
        if pid in RULES:
            checks.append({
                'property': pid, 'quick_cmd': f'python3 check.py --property {pid}',
                'thorough_cmd': f'python3 check.py --property {pid} --tier thorough',
                'technique': T.get(pid, TECH['path']), 'level': 'other', 'level_note': TRUST})
        else:
            na.append({'property': pid, 'reason': NA.get(pid, 'no static rule has been built for it (yet)')})
    json.dump({'version': 1, 'setup_cmd': 'python3 -m compileall -q sa check.py', 'checks': checks,
               'not_applicable': na}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


main()
