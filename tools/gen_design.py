"""writes DESIGN.md from its hand-written parts, the table of properties, the bounds in the checks and the last evidence"""
import ast
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tools = os.path.join(ROOT, 'tools')
exec(open(os.path.join(tools, 'design_props.py')).read())
head = open(os.path.join(tools, 'design_head.md')).read()
tail = open(os.path.join(tools, 'design_tail.md')).read()
costs = os.path.join(tools, 'costs.json')
cost = json.load(open(costs)) if os.path.exists(costs) else {}
for path in glob.glob(os.path.join(ROOT, 'evidence', 'C*.json')):
    e = json.load(open(path))
    if e['tier'] == 'quick' and not e['violations'] and e['coverage'].get('exhaustive'):
        cost[e['property']] = {'executions': e['coverage']['traces_validated_against_impl'], 'states': e['coverage']['states'],
                               'transitions': e['coverage']['transitions'], 'seconds': round(e['wall_s'])}
json.dump(cost, open(costs, 'w'), indent=0, sort_keys=True)

lines = ['## Properties, one by one', '',
         'Costs are those of a quick run on 8 cores; thorough runs use the larger bounds.', '']
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    tree = ast.parse(open(os.path.join(ROOT, 'checks', p['id'].lower() + '.py')).read())
    values = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('BOUNDS', 'ASSUMPTIONS'):
            values[getattr(n.targets[0], 'id', '')] = eval(compile(ast.Expression(n.value), 'x', 'eval'))
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'SCENARIOS':
            values['SCENARIOS'] = [k.value for k in n.value.keys]
    c = cost.get(p['id'])
    lines += ['### {} {}'.format(p['id'], p['title']), '', p['statement'], '',
              '* Enumerated ({}): {}.  Scenarios: {}.'.format(', '.join(p['quantifier']['over']), p['quantifier']['text'],
                                                           ', '.join(values['SCENARIOS'])),
              '* Oracle: ' + ORACLE[p['id']],
              '* Bounds, quick: ' + values['BOUNDS']['quick'] + '.  Thorough: ' + values['BOUNDS']['thorough'] + '.',
              '* Beyond the tests: ' + p['why_tests_cant']]
    if values.get('ASSUMPTIONS'):
        lines.append('* Assumes: ' + '; '.join(values['ASSUMPTIONS']) + '.')
    if c:
        lines.append('* Cost: {executions} executions, {states} states, {transitions} transitions, {seconds} s.'.format(**c))
    lines.append('')
known = json.load(open(os.path.join(ROOT, 'known_findings.json')))['findings']
fixes = '\n'.join('* {} `{}` {}'.format(k['property'], k['commit'], re.sub(r'^fixed: property=\S+ \S+ ', '', k['what']))
                  for k in known if k['status'] == 'fixed')
seeds = ['| seed | property | what it breaks | caught by |', '|---|---|---|---|']
caught = {}
path = os.path.join(tools, 'caught.json')
if os.path.exists(path):
    caught = json.load(open(path))
for folder in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*'))):
    name = os.path.basename(folder)
    meta = json.load(open(os.path.join(folder, 'meta.json')))
    seeds.append('| {} | {} | {} | {} |'.format(name, meta['property'], meta['what_it_breaks'].replace('|', '/').replace('\n', ' '),
                                                ', '.join(caught.get(name, ['not run']))))
with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
    f.write(head + '\n' + '\n'.join(lines) + '\n' + tail.replace('FIXES', fixes).replace('SEEDS', '\n'.join(seeds)))
