"""writes MANIFEST.json from properties.jsonl"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(V + '/properties.jsonl')]
NOTE = ("Symbolic execution of the compiler's MIR of /repo's current tree (contract, its dependencies and std), one message from an arbitrary valid "
        "stored state; z3 decides every condition on every path within the bounds (list lengths and matching rows <= 2, thorough <= 3). Trusted: "
        "the engine and its models of storage, queries, hashing and coins (DESIGN.md), sampled paths are replayed on the native contract each run; "
        "counterexamples are reported only when the native contract reproduces them.")
m = {'version': 1, 'setup_cmd': 'python3-vt tools/check.py --build', 'checks': [], 'not_applicable': []}
for p in P:
    m['checks'].append({'property': p['id'], 'quick_cmd': f"python3-vt tools/check.py {p['id']} quick", 'thorough_cmd': f"python3-vt tools/check.py {p['id']} thorough",
                        'technique': 'symbolic execution of rustc MIR with SMT (z3), native replay of models', 'level': 'model_checking', 'level_note': NOTE})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
