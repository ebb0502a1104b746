"""Writes properties.jsonl and MANIFEST.json from the property table below (run by hand after editing the table)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = 'subprojects/ufjfmltk-core/include/ufjfmltk/core/'
CL = 'subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/'
PROPS = []


def P(id, title, statement, text, tests, files, mech, note, observe=(), over=('inputs',), state=(), na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, tests=tests, files=files, mech=mech, note=note, observe=list(observe), state=list(state), na=na))


exec(open(os.path.join(V, 'tools', 'props.py')).read())

BASE = ('Unbounded deductive proof over the clang AST of the instantiated templates, regenerated from /repo on every run; trusts the STL models, '
        'treats double as the reals and integers as mathematical (exact unsigned wrap-around), and does not prove termination. A seeded run of the executable contracts on the real code replays and supplements it (bounded, not counted as proved). ')

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                            'why_tests_cant': p['tests'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                                        'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']], 'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3-vt -m compileall -q cppvc specs && python3-vt -c "import z3" && g++ --version >/dev/null && clang++ --version >/dev/null',
     'checks': [], 'not_applicable': []}
for p in PROPS:
    if p['na']:
        m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
        continue
    m['checks'].append({'property': p['id'], 'quick_cmd': 'bash check.sh %s' % p['id'], 'thorough_cmd': 'bash check.sh %s --tier thorough' % p['id'],
                        'technique': 'contract-based deductive verification (own VC generator over the clang AST of the real code, inferred loop invariants, z3 + cvc5)',
                        'level': 'proof', 'level_note': BASE + p['note']})
m['notes'] = 'No hooks: the verified text is /repo\'s own source, extracted mechanically; commits in /repo are repairs (fix:) only. Known findings and repairs: known_findings.json.'
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
for l in open(os.path.join(V, 'properties.jsonl')):
    jsonschema.validate(json.loads(l), json.load(open('/root/.vp/PROPERTIES.schema.json')))
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')
