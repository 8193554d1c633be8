"""Writes MANIFEST.json from registry.py (run by hand after changes)."""
import json
import os

import registry

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(VERIF,
                                                      'properties.jsonl'))]
checks = []
for pid in ids:
    if pid not in registry.CHECKS:
        continue
    c = registry.CHECKS[pid]
    cmd = '/opt/venv/bin/python -W ignore -B harness/run.py %s --tier %%s' % pid
    checks.append(dict(
        property=pid, quick_cmd=cmd % 'quick', thorough_cmd=cmd % 'thorough',
        technique=c.get('technique', 'runtime monitoring: ' + c['rule']),
        level=c['level'],
        level_note=c.get('note', 'Held on the executions reported in the '
                         'evidence file; trusts the reference model in the '
                         'harness and CPython. Says nothing about inputs the '
                         'workload did not produce.')))
m = dict(version=1,
         setup_cmd='/opt/venv/bin/python harness/build.py /verif/build',
         checks=checks,
         not_applicable=[dict(property=p, reason=r) for p, r in
                         sorted(registry.NOT_APPLICABLE.items())] +
                        [dict(property=p, reason='its check is not built yet')
                         for p in ids if p not in registry.CHECKS and
                         p not in registry.NOT_APPLICABLE])
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
for pid in ids:
    if pid not in registry.CHECKS and pid not in registry.NOT_APPLICABLE:
        print('not built yet:', pid)
