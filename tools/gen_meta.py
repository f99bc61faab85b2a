"""writes properties.jsonl and MANIFEST.json from the table below"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = 'babylondigger/datamodel.py'
IO = 'babylondigger/evaluation/conllu_io.py'
EV = 'babylondigger/evaluation/conll17_ud_eval.py'
DS = 'babylondigger/evaluation/dataset.py'
EVL = 'babylondigger/evaluation/evaluation.py'
GR = 'babylondigger/evaluation/grid_eval.py'
LE = 'babylondigger/lemmas/transformation_rules.py'
FB = 'babylondigger/features/builder.py'
FE = 'babylondigger/features/extractors.py'
FP = 'babylondigger/features/provider.py'
TG = 'babylondigger/tagger.py'
PA = 'babylondigger/parser.py'
PR = 'babylondigger/processor.py'
UD = 'babylondigger/wrappers/udpipe1_2.py'
TD = 'babylondigger/wrappers/tdozat.py'
NT = 'babylondigger/neural/tagger/neural_tagger.py'
NM = 'babylondigger/neural/model.py'
NN = 'babylondigger/neural/network.py'
NI = 'babylondigger/neural/initializers.py'
NU = 'babylondigger/neural/utils.py'
TB = 'babylondigger/neural/tagger/task_builders.py'
SB = 'babylondigger/neural/tagger/shared_builders.py'

P = []


def prop(id, title, statement, over, over_text, why, files, mechanism, observe, note):
    assert len(title) <= 80, (id, len(title))
    assert statement.count('. ') <= 2, (id, statement.count('. '))
    P.append(dict(id=id, title=title, statement=statement, over=over, over_text=over_text, why=why, files=files,
                  mechanism=mechanism, observe=observe, note=note))


exec(open(os.path.join(ROOT, 'tools', 'props.py')).read())

ids = [p['id'] for p in P]
assert len(set(ids)) == len(ids)

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['over_text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                        'observe_at': p['observe'], 'hook_needed': None}}, ensure_ascii=False) + '\n')

checks = []
missing = []
for p in P:
    if os.path.exists(os.path.join(ROOT, 'checks', p['id'].lower() + '.py')):
        cmd = '/opt/venv/bin/python -B mc/run.py ' + p['id']
        checks.append({
            'property': p['id'], 'quick_cmd': cmd + ' --tier quick', 'thorough_cmd': cmd + ' --tier thorough',
            'evidence_file': 'evidence/{}.json'.format(p['id']),
            'technique': 'stateless explicit-state model checking of the real code: exhaustive bounded choice-tree '
                         'exploration compared with a reference model',
            'level': 'model_checking', 'level_note': p['note']})
    else:
        missing.append({'property': p['id'], 'reason': 'check not built yet'})
manifest = {
    'version': 1,
    'setup_cmd': "/opt/venv/bin/python -B -c \"import sys; sys.path.insert(0, '.'); import mc.explore\"",
    'checks': checks,
    'not_applicable': missing,
    'notes': 'No hooks in /repo: the checks import the working tree of /repo directly. Repairs are the "fix:" commits '
             'in /repo, listed in known_findings.json.',
}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(checks), 'checks', [m['property'] for m in missing])
