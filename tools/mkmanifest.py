#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes here."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': 'runtime monitoring of totality: panic, process-death, CPU-time and memory monitors over hostile, mutated and very large inputs in crash-isolated workers',
 'C02': 'runtime monitoring: contract monitor on every observed call, plus a specification oracle that says which inputs contain a bad statement',
 'C03': 'Go race detector on concurrent first calls, plus monitors comparing concurrent, sequential, historical, scribbled-over and fresh-process results',
 'C12': 'runtime monitoring with a metamorphic oracle (same tokens, other layout) and a reference lexer and grammar as second oracle',
 'C13': 'runtime monitoring with a metamorphic oracle (quoted contents replaced by placeholders) and a reference specification',
 'C14': 'runtime monitoring with a metamorphic oracle (keywords in the other case) and a reference specification',
 'C18': 'runtime monitoring with a metamorphic oracle (parts against their concatenation) and a reference specification',
 'C19': 'runtime monitoring with a cross-checking oracle over all seven entry points',
 'C20': 'runtime monitoring with a metamorphic oracle (unrepresented clauses removed) and a reference specification',
 'C24': 'runtime monitoring of resource use: exact allocation counts and CPU time of the same text at growing sizes',
 'C21': 'runtime monitoring: JSON and value-type monitors on every returned result',
}
D = 'runtime monitoring: online checker comparing every observed call with an executable reference specification of the dialect (lexer, grammar, meaning) under generated, systematic and mutated workloads'
checks = []
for l in open(os.path.join(here, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    checks.append({
        'property': i,
        'quick_cmd': './run.sh %s' % i,
        'thorough_cmd': 'VERIF_TIER=thorough ./run.sh %s' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': T.get(i, D),
        'level': 'exploration',
        'level_note': 'Holds on every execution observed in the run: systematic lists (words x name positions, types x digits, constraint pairs, single-token changes, gaps) plus random cases drawn from VERIF_SEED. Trusts the reference specification in harness/spec; what it leaves unspecified is listed in DESIGN.md.' if i != 'C03' else
          'Holds on every execution observed in the run: concurrent calls under the race detector in several processes, long histories, scribbled results, fresh processes. Interleavings are sampled, not enumerated.',
    })
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': [],
     'notes': 'No hooks in /repo: all observations are made at the public API. Each check builds the harness from /repo\'s working tree. Replay files: out/replay (./run.sh replay FILE). Repaired defects: known_findings.txt.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
