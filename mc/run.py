"""driver: python mc/run.py C01 [--tier quick|thorough] [--replay FILE] [--scenario NAME] [--jobs N] [--stats]"""
import argparse
import concurrent.futures
import ctypes
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, ROOT)
sys.path.insert(0, REPO)
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
os.environ.setdefault('TF_ENABLE_ONEDNN_OPTS', '0')
os.environ.setdefault('CUDA_VISIBLE_DEVICES', '-1')
# the explored programs are deterministic: so is the iteration order of str sets
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)

from mc import explore as ex  # noqa

_check = None
_thorough = False
_known = ()


def _make_ctx(path, limit):
    return ex.Ctx(path, limit, _thorough, _known)


def _silence():
    # workers end with the driver, however it ends
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except (OSError, AttributeError):
        pass
    devnull = open(os.devnull, 'w')
    os.dup2(devnull.fileno(), 1)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(devnull.fileno(), 2)


def _work(task):
    scenario, prefix = task
    program = _check.SCENARIOS[scenario]
    r = ex.explore(program, prefix, _make_ctx, getattr(_check, 'TIMEOUT', 60))
    return (scenario, r.executions, r.pruned, r.transitions, sorted(r.states), r.samples, r.findings, r.violation,
            r.max_depth)


def _prefix_work(task):
    scenario, prefix, depth = task
    return ex.prefixes(_check.SCENARIOS[scenario], depth, _make_ctx, getattr(_check, 'TIMEOUT', 60), prefix)


def _split(pool, scenario, want):
    """prefixes of the choice tree that partition it, expanded level by level"""
    frontier, leaves = [[]], []
    for depth in range(1, 9):
        found = []
        for future in [pool.submit(_prefix_work, (scenario, prefix, depth)) for prefix in frontier]:
            found.extend(future.result())
        leaves += [p for p in found if len(p) < depth]
        frontier = [p for p in found if len(p) >= depth]
        if not frontier or len(frontier) + len(leaves) >= want:
            break
    return leaves + frontier


def load_known(prop):
    path = os.path.join(ROOT, 'known_findings.json')
    entries = {}
    if os.path.exists(path):
        with open(path) as f:
            for entry in json.load(f)['findings']:
                if entry['property'] == prop and entry['status'] == 'known':
                    entries[entry['key']] = entry['what']
    return entries


def main():
    global _check, _thorough, _known
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    parser.add_argument('--replay')
    parser.add_argument('--scenario', action='append')
    parser.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    parser.add_argument('--stats', action='store_true')
    args = parser.parse_args()
    tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'
    prop = args.property
    start = time.time()
    _thorough = tier == 'thorough'
    known = load_known(prop)
    _known = frozenset(known)

    evidence_dir = os.environ.get('VERIF_EVIDENCE') or os.path.join(ROOT, 'evidence')
    replay_dir = os.path.join(evidence_dir, 'replays')
    os.makedirs(replay_dir, exist_ok=True)

    replay = None
    if args.replay:
        with open(args.replay) as f:
            replay = json.load(f)
        _thorough = replay.get('tier') == 'thorough'

    violation = None
    stats = {}
    states_total = set()
    samples = []
    findings = {}
    # the checks only write in scratch directories they create themselves
    try:
        _check = importlib.import_module('checks.' + prop.lower())
        _check.load(_thorough)
    except BaseException as e:
        violation = {'scenario': '<import>', 'choices': [], 'labels': [],
                     'message': 'the code under test cannot be loaded: {}\n{}'.format(e, traceback.format_exc())}

    if replay is not None:
        if violation is None and replay['scenario'] in _check.SCENARIOS:
            ctx = _make_ctx(replay['choices'], None)
            message = ex.execute(_check.SCENARIOS[replay['scenario']], ctx, getattr(_check, 'TIMEOUT', 60))
            for label in ctx.labels:
                print('  ', label)
        else:
            message = violation['message'] if violation else 'unknown scenario'
        print(message if message else 'not reproduced')
        return 1 if message else 0

    if violation is None:
        names = [n for n in _check.SCENARIOS if not args.scenario or n in args.scenario]
        context = multiprocessing.get_context('fork')
        sys.stdout.flush()
        current = None
        try:
            with concurrent.futures.ProcessPoolExecutor(args.jobs, mp_context=context, initializer=_silence) as pool:
                try:
                    futures = []
                    for name in names:
                        current = name
                        for prefix in _split(pool, name, getattr(_check, 'SPLIT', {}).get(name, args.jobs * 12)):
                            futures.append((name, prefix, pool.submit(_work, (name, prefix))))
                    for name, prefix, future in futures:
                        current = name
                        (_, executions, pruned, transitions, states, smp, fnd, viol, depth) = future.result()
                        s = stats.setdefault(name, {'executions': 0, 'pruned': 0, 'transitions': 0, 'states': set(),
                                                    'max_depth': 0, 'samples': 0})
                        s['executions'] += executions
                        s['pruned'] += pruned
                        s['transitions'] += transitions
                        s['states'].update(states)
                        s['max_depth'] = max(s['max_depth'], depth)
                        if smp and s['samples'] < 2:
                            s['samples'] += 1
                            samples.append(dict(smp[0], scenario=name))
                        for key, (count, text) in fnd.items():
                            findings.setdefault(key, [0, text])[0] += count
                        if viol is not None:
                            violation = {'scenario': name, 'choices': viol[0], 'labels': viol[1], 'message': viol[2]}
                            break
                finally:
                    if violation is not None:
                        processes = list((pool._processes or {}).values())
                        pool.shutdown(wait=False, cancel_futures=True)
                        for p in processes:
                            p.kill()
        except concurrent.futures.process.BrokenProcessPool:
            if violation is None:
                violation = {'scenario': current, 'choices': [], 'labels': [],
                             'message': 'the interpreter died while running the code under test'}

    executions = sum(s['executions'] for s in stats.values())
    transitions = sum(s['transitions'] for s in stats.values())
    for name, s in stats.items():
        states_total.update(ex.digest((name, x)) for x in s['states'])
    coverage = {
        'states': len(states_total),
        'transitions': transitions,
        'traces_validated_against_impl': executions,
        'exhaustive': violation is None and not args.scenario,
        'samples': samples[:12] or ['no execution completed'],
        'scenarios': {name: {'executions': s['executions'], 'states': len(s['states']),
                             'transitions': s['transitions'], 'max_decisions': s['max_depth']}
                      for name, s in stats.items()},
        'bounds': getattr(_check, 'BOUNDS', {}).get(tier, '') if _check else '',
        'rule': 'states: distinct canonical observations of the implementation; transitions: new decisions of the '
                'choice tree plus implementation operations; traces: complete executions of the real code, each '
                'compared with the reference model',
        'known_findings_observed': {key: count for key, (count, _) in findings.items()},
    }
    evidence = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED') or 0), 'level': 'model_checking',
        'coverage': coverage,
        'assumptions': getattr(_check, 'ASSUMPTIONS', []) if _check else [],
        'wall_s': round(time.time() - start, 3),
        'violations': 0 if violation is None else 1,
    }
    with open(os.path.join(evidence_dir, prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)
        f.write('\n')

    for key, (count, text) in sorted(findings.items()):
        print('KNOWN-FINDING: property={} {} ({} executions)'.format(prop, known[key], count))
    if args.stats or True:
        for name, s in coverage['scenarios'].items():
            print('  {:34} executions={:<9} states={:<8} transitions={}'.format(
                name, s['executions'], s['states'], s['transitions']))
    if violation is None:
        print('OK property={} executions={} states={} transitions={} wall={:.1f}s'.format(
            prop, executions, len(states_total), transitions, time.time() - start))
        return 0
    path = os.path.join(replay_dir, '{}-{}.json'.format(prop, tier))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'tier': tier, **violation}, f, indent=1)
        f.write('\n')
    print(violation['message'][:3000])
    print('scenario {} choices {}'.format(violation['scenario'], violation['choices']))
    for label in violation['labels'][:60]:
        print('   {} = {}'.format(*label))
    print('VIOLATION property={} replay={}'.format(prop, path))
    return 1


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
