"""keeps the 'fixed' entries of known_findings.json in step with the fix: commits of /repo (development aid, not run by checks)"""
import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPERTY = {
    'comparing token extras': 'C06', 'ordering of tags': 'C06', 'str() of a document': 'C04', 'the head of a token without': 'C03',
    'do not turn heads': 'C02', 'reject sentences that refer': 'C01', 'reject a document whose first': 'C01',
    'empty nodes inside a multi-word range': 'C07', 'read MISC values': 'C07', 'a multi-word token at the end': 'C10',
    'writing tagged tokens': 'C10', 'write features in the order': 'C10', 'the evaluator checks ID': 'C12',
    'the evaluator accepts empty nodes': 'C12', 'the evaluator loads long': 'C12',
}
PROPERTY.update(json.load(open(os.path.join(ROOT, 'tools', 'fix_properties.json'))))
path = os.path.join(ROOT, 'known_findings.json')
entries = [e for e in json.load(open(path))['findings'] if e['status'] == 'known']
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
fixed = []
for line in log:
    commit, subject = line.split(' ', 1)
    if subject.startswith('fix: '):
        names = [p for k, p in PROPERTY.items() if subject[5:].startswith(k)]
        assert len(names) == 1, subject
        fixed.append({'property': names[0], 'key': 'fixed-' + commit, 'status': 'fixed', 'commit': commit,
                      'what': 'fixed: property={} {} {}'.format(names[0], commit, subject[5:])})
with open(path, 'w') as f:
    json.dump({'findings': entries + fixed}, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(entries), 'known', len(fixed), 'fixed')
