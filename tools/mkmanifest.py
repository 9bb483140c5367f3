"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
RUNS = 'stateless model checking of the real code: exhaustive enumeration of bounded runs under a controlled environment (objective, random source, stopping point)'
HIST = 'explicit-state model checking: all operation sequences up to a depth on the real object, compared step by step with a reference model'
T = {
 'C01': HIST, 'C02': HIST,
 'C03': RUNS + ', paired runs f / -f', 'C04': RUNS, 'C05': RUNS, 'C06': RUNS, 'C07': RUNS,
 'C08': 'stateless model checking: every run repeated under enumerated preceding histories and environments, traces compared',
 'C09': 'stateless exploration of the real threads under a controlled scheduler: all schedules up to a preemption bound',
 'C10': 'stateless model checking: all histories of earlier runs up to length two on the real object, trace compared with a fresh object',
 'C11': RUNS, 'C12': RUNS, 'C13': RUNS + ', notifications checked against a protocol automaton',
 'C14': 'fault enumeration on the real code: every evaluation and notification of a run as the failing point',
 'C15': 'explicit-state enumeration of a finite input domain (bounds x values x draw outcomes) on the real functions against a reference model',
 'C16': 'explicit-state enumeration of instances, points, calling ways and call sequences on the real problems',
 'C17': 'explicit-state enumeration of lattice points on the real problems against an independent reference model',
 'C18': 'explicit-state enumeration of request histories and option sequences against a reference model',
 'C19': 'explicit-state exploration of all configure/read/run sequences up to a depth, traces compared',
 'C20': 'explicit-state enumeration of grids, forms, formats and run histories against a reference model',
 'C21': HIST, 'C22': RUNS,
 'C23': 'exhaustive enumeration of all outcomes of the random draws of the real operators (choice-point search) against their definitions',
 'C24': 'stateless model checking: every subset of observers on the same run, traces compared', 'C25': RUNS,
 'C27': 'explicit-state enumeration of the assignments of random answers: executable models of the published equations run in lockstep with the real code, every evaluated solution compared',
 'C26': RUNS + ', reported state compared with the evaluation history and with the configured rules',
}
N = 'Complete within the bounds of DESIGN.md and the evidence file; objective functions, configurations, seeds and random deviations are those enumerated there. Trusts numpy, the interpreter and the reference models under mc/.'
ENV = ''
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -c "import numpy, sys; sys.path.insert(0, \'/repo/src\'); import niapy"',
     'hooks': {'guard': 'NIAPY_MC', 'enable': 'none needed: the checks use public seams only (user-written Problem, Callback, Task subclass, the rng attribute); no hook was added to /repo', 'source_commits': []},
     'checks': [{'property': c, 'quick_cmd': 'python3 check.py %s --tier quick' % c, 'thorough_cmd': 'python3 check.py %s --tier thorough' % c,
                 'evidence_file': 'evidence/%s.json' % c, 'technique': T[c], 'level': 'model_checking', 'level_note': N} for c in props],
     'not_applicable': [],
     'notes': 'All checks load niapy from /repo/src source text (no caches). known_findings.json lists the recorded finding and the repaired defects.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
