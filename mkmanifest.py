"""Writes MANIFEST.json from the property modules present (run by hand after adding a check)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import core
NA = {
 'C20': 'pure functions of their arguments: no scheduling, time, I/O, randomness or history for a simulator to control; the ray/surface model inside C04/C05 meets them only as components',
 'C21': 'pure design-time computation (root finding on a torus): deterministic in its inputs, nothing for a simulated schedule or fault to act on',
 'C22': 'closed-form physics of a single interaction: input/output equations without concurrency, time, I/O or history; only numerical comparison with formulas could decide it',
}
LEVEL = 'exploration'
notes = json.load(open('level_notes.json'))
props = [json.loads(l) for l in open('properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(f'sim/props/{i.lower()}.py') and i not in NA:
        m = core.load(i)
        checks.append({'property': i, 'quick_cmd': f'bash run.sh {i} --tier quick', 'thorough_cmd': f'bash run.sh {i} --tier thorough',
                       'technique': m.TECHNIQUE, 'level': getattr(m, 'LEVEL', LEVEL), 'level_note': notes.get(i) or notes['default']})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
           'hooks': {'guard': 'none', 'enable': 'no hooks were added to /repo: the simulator replaces the process-level seams (random generator state, clock, environment, open/os calls, user callbacks) from outside', 'source_commits': []},
           'notes': 'Every check runs /repo/marxs from the working tree (pure Python, no build needed). run.sh CXX [--replay FILE] replays a violation file.'},
          open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
