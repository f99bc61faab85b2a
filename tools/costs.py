"""refreshes costs.json from the evidence of the last quick runs (development aid)"""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(ROOT, 'tools', 'costs.json')
costs = json.load(open(path))
for name in glob.glob(os.path.join(ROOT, 'evidence', 'C*.json')):
    e = json.load(open(name))
    c = e['coverage']
    if e['tier'] == 'quick' and c['exhaustive']:
        costs[e['property']] = {'executions': c['traces_validated_against_impl'], 'states': c['states'], 'transitions': c['transitions'], 'seconds': round(e['wall_s'])}
json.dump(costs, open(path, 'w'), indent=1, sort_keys=True)
