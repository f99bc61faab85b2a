"""development aid: which planted bugs do the checks catch?  catch.py [ID...]

runs the check of the bug's property (or with --all every check) on a scratch copy with the patch applied (VERIF_REPO)"""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
every = '--all' in args
tier = 'thorough' if '--thorough' in args else 'quick'
names = [a for a in args if not a.startswith('--')] or sorted(os.path.basename(d) for d in glob.glob(os.path.join(ROOT, 'seeded', '*')))
checks = [c['property'] for c in json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks']]
for name in names:
    folder = os.path.join(ROOT, 'seeded', name)
    prop = json.load(open(os.path.join(folder, 'meta.json')))['property']
    work = tempfile.mkdtemp(prefix='catch-')
    try:
        copy = os.path.join(work, 'repo')
        subprocess.check_call(['git', 'clone', '-q', '/repo', copy])
        r = subprocess.run(['git', 'apply', os.path.join(folder, 'patch.diff')], cwd=copy, capture_output=True, text=True)
        if r.returncode:
            print(name, prop, 'PATCH DOES NOT APPLY', r.stderr)
            continue
        result = []
        for c in checks if every else [prop]:
            out = subprocess.run(['/opt/venv/bin/python', '-B', 'mc/run.py', c, '--tier', tier], cwd=ROOT, capture_output=True, text=True,
                                 env=dict(os.environ, VERIF_REPO=copy, VERIF_EVIDENCE=os.path.join(work, 'evidence')))
            if out.returncode == 1 and 'VIOLATION property=' + c in out.stdout:
                result.append(c)
            elif out.returncode:
                result.append(c + '?!')
        path = os.path.join(ROOT, 'tools', 'caught.json')
        table = json.load(open(path)) if os.path.exists(path) else {}
        old = [c for c in table.get(name, []) if c not in (checks if every else [prop]) and c != 'none']
        table[name] = result + old or ['none']
        with open(path, 'w') as f:
            json.dump(table, f, indent=0, sort_keys=True)
            f.write('\n')
        print(name, prop, 'CAUGHT' if prop in result else 'MISSED', result, flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)
