#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from properties.jsonl and mc/props."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'default': 'bounded exhaustive state-space exploration of the real code '
               '(stateless model checking) against an explicit reference '
               'transition system',
    'C04': 'explicit-state exploration of every sequence of observed function '
           'values up to a depth, each step executed on the real code',
    'C31': 'exhaustive exploration of all interleavings of two call '
           'sequences on the real code',
    'C34': 'stateless model checking of the real code in two real threads '
           'under a controlled scheduler, all schedules up to a preemption '
           'bound',
}
for c in ('C29', 'C30', 'C32', 'C33'):
    TECH[c] = ('exhaustive exploration of all call sequences up to a depth on '
               'the real code (stateless model checking) with a monitor on '
               'every state')
checks, na = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)['id']
    if os.path.exists(os.path.join(ROOT, 'mc/props', p.lower() + '.py')):
        checks.append(dict(
            property=p, quick_cmd='./check.sh %s quick' % p,
            thorough_cmd='./check.sh %s thorough' % p,
            technique=TECH.get(p, TECH['default']), level='model_checking',
            level_note='Every behaviour inside the stated bounds is executed '
                       'on the code imported from /repo/src and compared with '
                       'an independent reference model; nothing beyond the '
                       'bounds (see DESIGN.md) is claimed.',
            evidence_file='evidence/%s.json' % p))
    else:
        na.append(dict(property=p, reason='check not built yet'))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
