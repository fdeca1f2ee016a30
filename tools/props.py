"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mechanism, observe, technique, note, state=()):
    P.append(dict(
        entry={
            'id': id, 'title': title, 'statement': statement,
            'quantifier': {'over': over, 'text': quant},
            'why_tests_cant': why,
            'anchors': {
                'files': files,
                'state': [dict(name=n, meaning=m, where=w) for n, m, w in state],
                'mechanism': [dict(name=n, where=w) for n, w in mechanism],
                'observe_at': observe,
                'hook_needed': None,
            },
        },
        technique=technique, note=note))


exec(open(os.path.join(HERE, 'tools', 'proplist.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
    for p in P:
        assert len(p['entry']['title']) <= 80, p['entry']['title']
        fh.write(json.dumps(p['entry'], ensure_ascii=False) + '\n')

checks, missing = [], []
files = os.listdir(os.path.join(HERE, 'checks'))
for p in P:
    pid = p['entry']['id']
    if any(f.lower().startswith(pid.lower() + '_') for f in files):
        checks.append({
            'property': pid,
            'quick_cmd': './run.sh %s --tier quick' % pid,
            'thorough_cmd': './run.sh %s --tier thorough' % pid,
            'technique': p['technique'],
            'level': 'exploration',
            'level_note': p['note'],
        })
    else:
        missing.append({'property': pid, 'reason': 'no check built yet'})
manifest = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': checks,
    'not_applicable': missing,
    'notes': 'Every check runs real klang code from /repo (Python sources imported in place, C extensions '
             'compiled from the working tree into a scratch folder) under seeded workloads; no hooks in /repo '
             'are needed. known_findings.jsonl lists repaired and unrepaired genuine defects.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
    json.dump(manifest, fh, indent=1)
print(len(checks), 'checks,', len(missing), 'missing')
