"""Regenerates MANIFEST.json from properties.jsonl and the checks present."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'C01': 'online monitor: every matvec/matmat of generated operators vs dense definition',
    'C02': 'online monitor: operator algebra vs dense definition',
    'C03': 'online monitor: reported eigenvalue bounds vs dense spectrum',
    'C04': 'online monitor: interpolation weights vs independent cubic-convolution oracle',
    'C05': 'online monitor: structured multi-output interpolation vs dense oracle',
    'C06': 'online monitor: grid placement vs documented rule',
    'C07': 'online monitor: kernel values vs closed forms',
    'C08': 'online monitor: kernel gradients vs closed forms, parameter linkage',
    'C25': 'fault and delay injection into worker pools with recorded event logs (task, pid, order), differential monitor',
    'C26': 'online trace checker: callback trace vs reference recursion and stopping automaton',
    'C27': 'trace monitor: each evaluation hooked and joined with the recorded metrics',
    'C24': 'history monitor: random interleaved operation sequences vs state-free oracle',
    'C29': 'write monitor: byte snapshots and read-only arrays around every entry point',
    'C28': 'fault injection of malformed arguments, exception monitor',
}
DEFAULT = 'runtime monitor with an independent dense oracle on generated and hostile workloads'
NOTE = ('Holds on the executions observed (counts in the evidence file); trusts numpy/scipy dense linear algebra and the '
        'restated formulas in vmon/oracle.py.')
props = [json.loads(x) for x in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/checks/%s.py' % (V, i.lower())):
        checks.append({'property': i, 'quick_cmd': './check ' + i,
                       'thorough_cmd': 'VERIF_TIER=thorough ./check ' + i,
                       'technique': TECH.get(i, DEFAULT), 'level': 'exploration', 'level_note': NOTE})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': './check --selftest', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: monitors attach from outside (public API, log handlers, wrapped scipy calls).'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
