"""C32 Grid search tries every combination exactly once on top of the base parameters"""
import contextlib
import copy
import io as stdio
import itertools
import json
import os
import sys

from mc import evals, fake, gen
from mc.evals import Score

BOUNDS = {
    'quick': 'all grids of <=3 keys with <=2 alternatives (all orders of parameters) and of 1 key with <=3 alternatives, over 6 parameters of a nested base '
             'with 3 values each (incl. equal ones, null, false, 0, lists and structures), alternatives with several parameters; all 3 positions of '
             'a best set; trainers that change their parameters; all placements of an unknown parameter, a second parameter under one key, one '
             'parameter under two keys; occupied and missing model directories; 3 x 4 x 5 combinations',
    'thorough': '<=3 keys with <=3 alternatives, 4 keys',
}

BASE = {'epochs': 3, 'nn': {'optimizer': {'type': 'GD', 'lr': 0.5}, 'layers': [1, {'size': 2}], 'flag': True}, 'other': None, 'untouched': {'deep': [{'x': [1]}]}}
PATHS = (('epochs',), ('nn', 'optimizer', 'type'), ('nn', 'optimizer', 'lr'), ('nn', 'layers'), ('nn', 'flag'), ('other',))
VALUES = {('epochs',): (5, 3, 0), ('nn', 'optimizer', 'type'): ('RMS', 'GD', None), ('nn', 'optimizer', 'lr'): (0.25, 1, 0.0),
          ('nn', 'layers'): ([3, [4]], [], [{'size': 5}]), ('nn', 'flag'): (False, None, [False]), ('other',): ('x', False, [{'a': 1}])}


def load(thorough):
    global dm, evl, tg, grid_eval
    evl, tg = fake.evaluation()
    import babylondigger.datamodel as dm
    import babylondigger.evaluation.grid_eval as grid_eval


def nested(path, value):
    for key in reversed(path):
        value = {key: value}
    return value


def merged(a, b):
    result = dict(a)
    for k, v in b.items():
        result[k] = merged(a[k], v) if k in a and isinstance(a[k], dict) and isinstance(v, dict) else v
    return result


def product(base, grid):
    result = []
    for choice in itertools.product(*grid.values()):
        params = copy.deepcopy(base)
        for alternative in choice:
            params = merged(params, copy.deepcopy(alternative))
        result.append(params)
    return result


def key(params):
    return json.dumps(params, sort_keys=True)


def spoil(value):
    """changes everything that can be changed"""
    if isinstance(value, dict):
        for v in list(value.values()):
            spoil(v)
        value['spoiled'] = True
    elif isinstance(value, list):
        for v in value:
            spoil(v)
        value.append('spoiled')


class Run(object):
    def __init__(self, ctx, root, base, grid, best=0, seeds=1, spoiling=True, method='stub'):
        self.ctx, self.seen = ctx, []
        self.expected = product(base, grid)
        wanted = key(self.expected[best % len(self.expected)]) if self.expected else None
        self.world = evals.World(ctx, evl, tg, dm, root, lambda call, index: self.plan(call, wanted, spoiling))
        settings = self.world.settings(random_seed=seeds)
        self.files = evals.main_arguments(root, settings, base, grid)
        self.method = method

    def plan(self, call, wanted, spoiling):
        params = copy.deepcopy(call.params)
        self.seen.append(params)
        value = 0.5 if key(params) == wanted else 0.25
        if spoiling:
            spoil(call.params)
        return [{'scores': {'Lemmas': Score(value, value, value, value)}, 'right': 1}]

    def __call__(self):
        out = stdio.StringIO()
        argv = sys.argv
        sys.argv = ['grid_eval', '--settings', self.files['settings'], '--hyperparams', self.files['hypers'], '--grid', self.files['grid'], '--method', self.method]
        try:
            with fake.training(tg, self.world.trainer), contextlib.redirect_stdout(out), contextlib.redirect_stderr(stdio.StringIO()):
                grid_eval.main()
        finally:
            sys.argv = argv
        return evals.Report(self.ctx, out.getvalue())


def accepted(ctx, base, grid, best=0, spoiling=True):
    with gen.scratch() as root:
        run = Run(ctx, root, base, grid, best, spoiling=spoiling)
        files = {k: v for k, v in evals.snapshot(root).items()}
        report = ctx.accepts('grid {}'.format(grid), run)
        ctx.equal(sorted(map(key, run.seen)), sorted(map(key, run.expected)), 'tried parameters')
        if not spoiling:
            wanted = key(run.expected[best % len(run.expected)])
            ctx.equal(key(report.params), wanted, 'reported parameters')
        ctx.equal(evals.snapshot(root), files, 'files after the search')
    ctx.state(base, grid, best)


def rejected(ctx, base, grid, why, world=None):
    with gen.scratch() as root:
        run = Run(ctx, root, base, {}, 0)
        run.files.update(evals.main_arguments(root, run.world.settings(), base, grid))
        files = evals.snapshot(root)
        ctx.rejects('grid {} with {}'.format(grid, why), run, exc=ValueError)
        ctx.equal(run.seen, [], 'parameters tried in spite of ' + why)
        ctx.equal(evals.snapshot(root), files, 'files after the refusal')
    ctx.state('rejected', grid, why)


def combinations(ctx):
    keys = ctx.pick(range(5 if ctx.thorough else 4), 'grid keys')
    left = list(PATHS)
    grid = {}
    for k in range(keys):
        path = ctx.pick(left, 'parameter')
        left = left[left.index(path) + 1:] + left[:left.index(path)] if keys < 3 else left[left.index(path) + 1:]
        count = ctx.pick((1, 2, 3) if keys == 1 or ctx.thorough and keys < 4 else (1, 2), 'alternatives')
        values = VALUES[path][:count] if keys > 1 else [ctx.pick(VALUES[path], 'value') for _ in range(count)]
        grid['p%d' % (9 - k)] = [nested(path, v) for v in values]
    accepted(ctx, BASE, grid, ctx.pick((0, 1, -1), 'best'), ctx.flag('trainers change their parameters'))


def several(ctx):
    """alternatives that set several parameters"""
    paths = [ctx.pick(PATHS, 'parameter')]
    paths.append(ctx.pick([p for p in PATHS if p[0] != paths[0][0]], 'second parameter'))
    grid = {'a': []}
    for k in range(ctx.pick((1, 2), 'alternatives')):
        alternative = nested(paths[0], VALUES[paths[0]][k])
        if ctx.flag('second one'):
            alternative = merged(alternative, nested(paths[1], VALUES[paths[1]][k]))
        grid['a'].append(alternative)
    rest = [p for p in PATHS if p not in paths]
    path = ctx.pick(rest, 'other key')
    grid['b'] = [nested(path, v) for v in VALUES[path][:2]]
    accepted(ctx, BASE, grid, 0, ctx.flag('trainers change their parameters'))


UNKNOWN = (('epoch',), ('nn', 'epochs'), ('nn', 'optimizer', 'momentum'), ('optimizer', 'type'), ('Other',), ('nn', 'optimizer', 'type', 'x') , ('',))


def invalid(ctx):
    why = ctx.pick(('unknown parameter', 'two parameters under one key', 'one parameter under two keys', 'no alternatives'), 'defect')
    keys = ctx.pick((1, 2, 3), 'grid keys')
    at = ctx.pick(range(keys), 'defective key')
    base = BASE
    grid = {}
    for k in range(keys):
        path = PATHS[k]
        grid['k%d' % k] = [nested(path, v) for v in VALUES[path][:2]]
    name = 'k%d' % at
    if why == 'unknown parameter':
        path = ctx.pick(UNKNOWN[:5] + UNKNOWN[6:], 'parameter')
        alternatives = [nested(path, 1), nested(path, 2)][:ctx.pick((1, 2), 'alternatives')]
        grid[name] = alternatives
    elif why == 'two parameters under one key':
        others = [p for p in PATHS if p != PATHS[at]]
        path = ctx.pick(others, 'parameter')
        where = ctx.pick((0, 1, 2), 'position')
        grid[name].insert(where, nested(path, VALUES[path][0]))
    elif why == 'one parameter under two keys':
        path = PATHS[at]
        grid[ctx.pick(('a', 'z'), 'name')] = [nested(path, v) for v in VALUES[path][:ctx.pick((1, 2), 'alternatives')]]
        if ctx.flag('first'):
            grid = dict(reversed(list(grid.items())))
    else:
        grid[name] = []
    rejected(ctx, base, grid, why)


def directories(ctx):
    occupied = ctx.pick(('missing', 'empty', 'occupied'), 'model directory')
    seeds = ctx.pick((5, [5], [5, 6]), 'seeds')
    grid = {'a': [{'epochs': 1}, {'epochs': 2}]}
    with gen.scratch() as root:
        run = Run(ctx, root, BASE, grid, 1, seeds, spoiling=False)
        if occupied != 'missing':
            os.makedirs(os.path.join(root, 'models'))
        if occupied == 'occupied':
            with open(os.path.join(root, 'models', 'x'), 'w') as f:
                f.write('mine')
        files = evals.snapshot(root)
        if occupied == 'occupied':
            ctx.rejects('grid search in an occupied directory', run, exc=ValueError)
            ctx.equal(run.seen, [], 'tried parameters')
            ctx.equal(evals.snapshot(root), files, 'files')
        else:
            report = ctx.accepts('grid search', run)
            n = len(seeds) if isinstance(seeds, list) else 1
            ctx.equal(sorted(map(key, run.seen)), sorted(map(key, run.expected * n)), 'tried parameters')
            ctx.equal(report.params, dict(BASE, epochs=2), 'reported parameters')
            files.pop('models', None)
            ctx.equal(evals.snapshot(root), files, 'files after the search')
    ctx.state(occupied, seeds)


def scale(ctx):
    sizes = ctx.pick(((3, 4, 5), (1, 1, 40), (2,) * 6), 'sizes')
    base = copy.deepcopy(BASE)
    for k in range(len(sizes)):
        base['nn']['s%d' % k] = None
    grid = {str(k): [{'nn': {'s%d' % k: [k, i]}} for i in range(n)] for k, n in enumerate(sizes)}
    accepted(ctx, base, grid, ctx.pick((0, 7, -1), 'best'), ctx.flag('trainers change their parameters'))


SCENARIOS = {'combinations': combinations, 'several parameters': several, 'invalid grids': invalid, 'directories': directories, 'scale': scale}
