import json
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
import sys
sys.path.insert(0, '/verif')
NOTES = {}
exec(open('/verif/manifest_notes.py').read())
checks = [{'property': i, 'quick_cmd': 'python3-vt check.py %s --tier quick' % i, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
           'technique': NOTES[i][0], 'level': NOTES[i][1], 'level_note': NOTES[i][2]} for i in ids if i in NOTES]
na = [{'property': i, 'reason': NA.get(i, 'no check built yet')} for i in ids if i not in NOTES]
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3; print(z3.get_version_string())"', 'checks': checks, 'not_applicable': na,
           'notes': 'contract-based deductive verification; see DESIGN.md'}, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), len(na))
