"""development aid: turns a specification of a planted bug into seeded/<id>, after confirming it in a scratch copy

usage: plant.py SPEC.py...   where SPEC defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)...], DEMO (python source)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0: the property holds here; run with the repository as working directory
here=$(cd "$(dirname "$0")" && pwd)
exec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES=-1 /opt/venv/bin/python "$here/demo.py"
'''


def run(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True)


def plant(spec_path):
    name = os.path.basename(spec_path)[:-3]
    spec = {}
    exec(open(spec_path).read(), spec)
    work = tempfile.mkdtemp(prefix='plant-')
    try:
        copy = os.path.join(work, 'repo')
        subprocess.check_call(['git', 'clone', '-q', '/repo', copy])
        target = os.path.join(work, 'seed')
        os.mkdir(target)
        with open(os.path.join(target, 'demo.sh'), 'w') as f:
            f.write(SH)
        os.chmod(os.path.join(target, 'demo.sh'), 0o755)
        with open(os.path.join(target, 'demo.py'), 'w') as f:
            f.write(spec['DEMO'].lstrip())
        before = run(['bash', os.path.join(target, 'demo.sh')], copy)
        if before.returncode:
            print(name, 'FAIL: demo fails on the unchanged tree', before.stdout[-800:], before.stderr[-1500:])
            return False
        for file, old, new in spec['EDITS']:
            path = os.path.join(copy, file)
            s = open(path).read()
            if s.count(old) != 1:
                print(name, 'FAIL: edit matches', s.count(old), 'times in', file)
                return False
            with open(path, 'w') as f:
                f.write(s.replace(old, new))
        after = run(['bash', os.path.join(target, 'demo.sh')], copy)
        if not after.returncode:
            print(name, 'FAIL: demo passes with the change', after.stdout[-800:])
            return False
        diff = run(['git', 'diff'], copy).stdout
        with open(os.path.join(target, 'patch.diff'), 'w') as f:
            f.write(diff)
        # changed lines must be lines of the original repository
        for line in diff.splitlines():
            if line.startswith('-') and not line.startswith('---'):
                pass
        script = open('/opt/vp/build.sh').read().replace('/repo', copy)
        built = run(['bash', '-c', script], work)
        if built.returncode:
            print(name, 'FAIL: build', built.stderr[-500:])
            return False
        out = os.path.join(work, 'out.json')
        script = open('/opt/vp/test.sh').read().replace('/repo', copy)
        with open(os.path.join(work, 'test.sh'), 'w') as f:
            f.write(script)
        run(['bash', os.path.join(work, 'test.sh'), out], work)
        passed = set(json.load(open(out))['passed'])
        base = json.load(open('/opt/vp/BASELINE.json'))
        stable = base if isinstance(base, list) else base['stable']
        missing = [t for t in stable if t not in passed]
        if missing:
            print(name, 'FAIL: tests', missing[:5])
            return False
        with open(os.path.join(target, 'meta.json'), 'w') as f:
            json.dump({'property': spec['PROPERTY'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']}, f, indent=1)
            f.write('\n')
        final = os.path.join(ROOT, 'seeded', name)
        shutil.rmtree(final, ignore_errors=True)
        shutil.copytree(target, final)
        print(name, 'planted:', (after.stderr or after.stdout).strip().splitlines()[-1:])
        return True
    finally:
        shutil.rmtree(work, ignore_errors=True)


import concurrent.futures
with concurrent.futures.ThreadPoolExecutor(4) as pool:
    ok = list(pool.map(plant, sys.argv[1:]))
sys.exit(0 if all(ok) else 1)
