""" Writes properties.jsonl and MANIFEST.json from the entries; run after editing them. """
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import entries1
ENTRIES = list(entries1.ENTRIES)
try:
    import entries2
    ENTRIES += entries2.ENTRIES
except ImportError:
    pass
ENTRIES.sort(key=lambda e: e[0])
NOTES = 'Exhaustive within the bounds stated in DESIGN.md and in the evidence file; every explored execution runs the real code (stateless exploration, randomness decided by the explorer) and is compared with an independent reference. '
NA = []

props, checks = [], []
for (id_, title, statement, over, text, why, files, mech, obs) in ENTRIES:
    assert len(title) <= 80, title
    assert statement.count('. ') <= 2, id_
    for f in files:
        assert os.path.exists('/repo/' + f), f
    props.append({'id': id_, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
                  'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': obs, 'hook_needed': None}})
    path = os.path.join(VERIF, 'checks', id_.lower() + '.py')
    assert os.path.exists(path), path
    ns = {}
    src = open(path).read()
    i = src.index('ASSUMPTIONS')
    assume = eval(src[src.index('=', i) + 1:src.index(']', i) + 1])
    checks.append({'property': id_, 'quick_cmd': '/opt/venv/bin/python run_check.py {} quick'.format(id_),
                   'thorough_cmd': '/opt/venv/bin/python run_check.py {} thorough'.format(id_),
                   'technique': 'stateless model checking: exhaustive enumeration of bounded executions of the real code against a reference model',
                   'level': 'model_checking', 'level_note': NOTES + 'Assumes: ' + '; '.join(assume) + '.'})

with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
manifest = {'version': 1, 'setup_cmd': '/opt/venv/bin/python run_check.py setup', 'checks': checks, 'not_applicable': NA,
            'notes': 'No hooks: randomness is controlled by replacing functions of numpy.random in the check process. See DESIGN.md.'}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
import jsonschema
jsonschema.validate(manifest, json.load(open('/root/.vp/MANIFEST.schema.json')))
for p in props:
    jsonschema.validate(p, json.load(open('/root/.vp/PROPERTIES.schema.json')))
print(len(props), 'properties')
