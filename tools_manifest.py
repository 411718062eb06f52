"""Writes MANIFEST.json from properties.jsonl and what is claimed (run by hand)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
T = 'deterministic simulation: '
CLAIMED = {
    'K01': (T + 'seeded instruction-level schedules of the parallel kernels', 'x'),
    'K02': (T + 'seeded instruction-level schedules of the parallel kernels', 'x'),
    'K03': (T + 'seeded instruction-level schedules of the parallel kernels', 'x'),
    'K04': (T + 'seeded instruction-level schedules of the parallel kernels', 'x'),
    'K05': (T + 'seeded instruction-level schedules of the parallel kernels', 'x'),
    'K06': (T + 'seeded orders and preemptions of the threads of a simulated GPU', 'x'),
    'K07': (T + 'two ways of one analysis, one under seeded schedules of threads', 'x'),
    'S07': (T + 'seeded call histories against pristine processes', 'x'),
    'S08': (T + 'seeded call histories with aliasing checks', 'x'),
    'S09': (T + 'exceptions injected at seeded points of a call', 'x'),
    'S10': (T + 'simulated disk and processes with crashes and I/O faults', 'x'),
    'S11': (T + 'seeded FFT histories over a simulated planner', 'x'),
    'S12': (T + 'seeded interleavings of concurrent callers', 'x'),
    'S13': (T + 'configuration changes and disk faults at seeded points', 'x'),
}
NOTE = {
    'K': 'Seeded search over divisions of work, chunk orders and preemptions at '
         'single machine instructions of the compiled kernels, compared with the '
         'serial result. Exploration, not exhaustive; weak-memory effects not explored.',
    'S': 'Seeded search over histories, schedules and fault points; not exhaustive.',
}
PURE = ('pure function of its arguments: no thread, clock, I/O, randomness or '
        'history for a simulator to control (its schedule- and history-dependence '
        'is decided by K01-K07, S07 and S11-S13); deciding it needs input-space '
        'testing or numerical analysis, another technique')
os.chdir(HERE)
checks, na = [], []
for line in open('properties.jsonl'):
    d = json.loads(line)
    i = d['id']
    if i in CLAIMED and os.path.exists(f'props/{i.lower()}.py'):
        checks.append(dict(
            property=i,
            quick_cmd=f'/opt/venv/bin/python check.py --property {i} --tier quick',
            thorough_cmd=f'/opt/venv/bin/python check.py --property {i} --tier thorough',
            technique=CLAIMED[i][0], level='exploration', level_note=NOTE[i[0]]))
    else:
        na.append(dict(property=i, reason=PURE if i[0] == 'N' else 'not built yet'))
m = dict(version=1, setup_cmd='/opt/venv/bin/python check.py --setup',
         checks=checks, not_applicable=na)
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
print(len(checks), len(na))
