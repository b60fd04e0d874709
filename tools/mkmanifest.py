#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registry in harness/props.py."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
src = open(os.path.join(here, 'harness', 'props.py')).read()
reg = set(re.findall(r"^prop\('(C\d+)'", src, re.M))
TECH = 'explicit TLA+ specification model-checked with TLC; conformance: its transitions are replayed on the real code'
SPECIAL = {
 'C11': 'TLA+ semantics of type expressions (TypeExpr.tla, TLC), verdicts replayed on the real code',
 'C12': 'TLA+ semantics of TypedDict (TypeExpr.tla, TLC), verdicts replayed on the real code',
 'C13': 'TLA+ semantics of standalone type validation (TypeWorld.tla, TLC), replayed on the real code',
 'C14': 'TLA+ state machine of warnings (TypeWorld.tla, TLC), histories replayed on the real code',
 'C18': 'TLA+ semantics of the validators (Builtin.tla), TLC enumerates configurations and values, replayed on the real code',
 'C19': 'TLA+ matching semantics (Regex.tla), TLC enumerates patterns, flags and strings, replayed on the real code',
 'C29': 'observed errors of the real code validated by TLC against ErrFmt.tla',
}
NOTE = ('The specification is checked by TLC in every state it reaches; the binding to the code is by bounded, seeded conformance '
        'runs, so a violation outside of the explored inputs is not excluded. Trusted: TLC, CPython, the harness that executes and records.')
m = dict(version=1, setup_cmd='/opt/venv/bin/python -B tools/selftest.py',
  checks=[dict(property=i, quick_cmd=f'/opt/venv/bin/python -B check.py {i}', thorough_cmd=f'/opt/venv/bin/python -B check.py {i} --thorough',
               technique=SPECIAL.get(i, TECH), level='model_checking', level_note=NOTE) for i in ids if i in reg],
  not_applicable=[dict(property=i, reason='the check is not built yet') for i in ids if i not in reg],
  notes='Language: TLA+ with TLC. No hooks in /repo are needed: everything is observed through the public API.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not claimed')
