"""C30 Model selection keeps the first best model and only ever deletes the others"""
import itertools
import os

from mc import evals, fake, gen
from mc.evals import Score

BOUNDS = {
    'quick': 'all runs of <=5 models in total, cut into parameter sets in every way, with all score sequences over 3 values, with and without deletion; '
             'all sequences of 3 models over all rankings of 4 score kinds for every comparison metric and 3 choices of fields; failing training or '
             'testing at every model; all kinds of model directories (missing, empty, nested, relative, non-empty with a file, hidden file, directory '
             'or link); dev scores measured by the tester with results files; 24 models',
    'thorough': '<=6 models over 4 values, 4 models over all rankings',
}


def load(thorough):
    global dm, evl, tg
    evl, tg = fake.evaluation()
    import babylondigger.datamodel as dm


def first_best(values):
    return max(range(len(values)), key=lambda i: (values[i], -i))


class Monitor(object):
    """checks after every step which models are still there; ranks: {model number: value that decides}"""

    def __init__(self, ctx, ranks, delete, protected):
        self.ctx, self.ranks, self.delete, self.protected = ctx, ranks, delete, protected

    def outside(self, world):
        content = evals.snapshot(world.root)
        return {k: v for k, v in content.items() if k != 'models' and not k.startswith('models' + os.sep) and not k.startswith('results')}

    def start(self, world):
        self.before = self.outside(world)

    def best_of(self, numbers):
        return min(numbers, key=lambda n: (-self.ranks[n], n))

    def needed(self, world, seen):
        """models that must not be removed when the scores of `seen` are known: the best model, and that of the running training"""
        if not seen:
            return set()
        current = len(world.calls) - 1
        running = [n for n in seen if n[0] == current]
        result = {self.best_of(running)} if running else set()
        done = [n for n in seen if n[0] < current]
        if done:
            result.add(self.best_of(done))
        return result

    def __call__(self, world, kind, number):
        if kind == 'dev':
            return
        alive = world.alive()
        seen = [n for n, _ in world.models]
        scored = seen[:-1] if kind == 'saved' else seen
        self.ctx.equal(self.outside(world), self.before, 'files outside the model directory')
        if not self.delete:
            self.ctx.equal(alive, set(seen), 'models present without deletion')
            return
        needed = {self.best_of(seen)} if kind == 'test' else self.needed(world, scored) | {seen[-1]} if kind == 'saved' else self.needed(world, seen)
        missing = needed - alive
        self.ctx.check(not missing, '{} {}: best models {} were removed, left {}', kind, number, missing, alive)
        if kind == 'resumed':
            # within a training only the best model stays
            mine = {n for n in alive if n[0] == number[0]}
            self.ctx.equal(mine, {self.best_of([n for n in seen if n[0] == number[0]])}, 'models of the running training')
        if kind == 'test':
            self.ctx.equal(alive, {self.best_of(seen)}, 'models left when testing')
            self.ctx.equal(number, self.best_of(seen), 'tested model')


def flat(value):
    return {'Lemmas': Score(value, value, value, value), 'UPOS': Score(0.5, 0.5, 0.5, 0.5)}


def total_right(number):
    """a number of right test lemmas that names the model"""
    return 1 + number[0] * 3 + number[1]


def selection(ctx):
    most = 6 if ctx.thorough else 5
    values = (0, 0.25, 0.5, 1.0) if ctx.thorough else (0, 0.25, 0.5)
    count = ctx.pick(range(1, most + 1), 'models')
    cuts = [True] + [ctx.flag('next parameter set') for _ in range(count - 1)]
    scores = [ctx.pick(values, 'score') for _ in range(count)]
    delete = ctx.flag('delete')
    sets = []
    for new, s in zip(cuts, scores):
        if new:
            sets.append([])
        sets[-1].append(s)
    ranks = {(i, e): s for i, ss in enumerate(sets) for e, s in enumerate(ss)}
    numbers = sorted(ranks)
    ids = {n: i + 1 for i, n in enumerate(numbers)}
    hypers = [{'epochs': len(ss), 'name': 'set%d' % i, 'nested': {'x': [i, None, True]}} for i, ss in enumerate(sets)]
    if len(hypers) == 1 and delete:
        hypers = hypers[0]

    def plan(call, index):
        return [{'scores': flat(s), 'right': ids[(index, e)]} for e, s in enumerate(sets[index])]
    with gen.scratch() as root:
        monitor = Monitor(ctx, ranks, delete, None)
        world = evals.World(ctx, evl, tg, dm, root, plan, monitor)
        monitor.start(world)
        report = ctx.accepts('run', world.run, world.settings(random_seed=7), hypers, delete)
        best = monitor.best_of(numbers)
        finish(ctx, world, report, hypers, delete, best, monitor)
        ctx.equal(report.dev, {'Lemmas': evals.percent(flat(ranks[best])['Lemmas'])}, 'reported dev scores')
        ctx.equal(report.test, {'Lemmas': evals.lemmas(ids[best], 16)}, 'reported test scores')
        ctx.equal([e for e in world.events if e[0] == 'test'], [('test', best)], 'test events')
    ctx.state(sets, delete)


def finish(ctx, world, report, hypers, delete, best, monitor):
    hypers = hypers if isinstance(hypers, list) else [hypers]
    ctx.equal([c.params for c in world.calls], hypers, 'parameters of the trainings')
    ctx.equal(report.params, hypers[best[0]], 'reported parameters')
    ctx.equal(monitor.outside(world), monitor.before, 'files outside the model directory')
    ctx.check(all(v == world.train_views[0] and len(v) == 2 for v in world.train_views), 'training data {}', world.train_views)
    paths = [os.path.abspath(p) for _, p in world.models]
    ctx.equal(len(set(paths)), len(paths), 'different model directories')
    base = os.path.abspath(world.model_dir)
    ctx.check(all(p.startswith(base + os.sep) for p in paths), 'model directories {} outside of {}', paths, base)
    if delete:
        ctx.check(not os.path.exists(world.model_dir), 'models left after deletion: {}', evals.snapshot(world.model_dir))
    else:
        ctx.equal(world.alive(), {n for n, _ in world.models}, 'models left without deletion')


RANKS = list(itertools.permutations((0.1, 0.2, 0.3)))


def metrics(ctx):
    """only the configured fields and metric decide"""
    n = 4 if ctx.thorough else 3
    metric = ctx.pick(evals.NAMES, 'metric')
    fields = ctx.pick((['Lemmas'], ['UPOS', 'Lemmas'], ['UPOS', 'Lemmas', 'LAS']), 'fields')
    patterns = [ctx.pick(RANKS[:4] if n > 3 else RANKS, 'ranking') for _ in range(2)]
    tables = []
    for i in range(n):
        table = {}
        for f, name in enumerate(('UPOS', 'Lemmas', 'LAS')):
            good = patterns[f % 2][(i + (f == 2)) % 3]
            # every other metric ranks the models the other way round
            table[name] = Score(**{m: good if m == metric else 0.9 - good for m in evals.NAMES})
        table['Words'] = Score(1 - i / 8, 1 - i / 8, 1 - i / 8, None)
        tables.append(table)
    values = [sum(getattr(t[f], metric) for f in fields) for t in tables]
    apart = ctx.flag('one parameter set each')
    numbers = [(i, 0) if apart else (0, i) for i in range(n)]
    ranks = dict(zip(numbers, values))

    def plan(call, index):
        return [{'scores': tables[index], 'right': index + 1}] if apart else [{'scores': t, 'right': i + 1} for i, t in enumerate(tables)]
    with gen.scratch() as root:
        monitor = Monitor(ctx, ranks, True, None)
        world = evals.World(ctx, evl, tg, dm, root, plan, monitor)
        monitor.start(world)
        hypers = [{'i': i} for i in range(n if apart else 1)]
        printed = ctx.pick((['Words', 'LAS'], ['Lemmas']), 'printed')
        report = ctx.accepts('run', world.run, world.settings(cmp_metric={'fields': fields, 'metric': metric}, metric_printer={'fields': printed}), hypers, True)
        best = first_best(values)
        finish(ctx, world, report, hypers, True, numbers[best], monitor)
        ctx.equal(report.dev, {f: evals.percent(tables[best][f]) for f in printed}, 'reported dev scores')
        ctx.equal(set(report.test), set(printed), 'reported test metrics')
        if 'Lemmas' in printed:
            ctx.equal(report.test['Lemmas'], evals.lemmas(best + 1, 16), 'reported test scores')
    ctx.state(metric, fields, patterns, apart)


def faults(ctx):
    """a training or a test that fails: the error is not swallowed, the best model is still there"""
    sets = ctx.pick(([2], [1, 1], [2, 2], [3], [1, 2, 1]), 'models')
    scores = {(i, e): ctx.pick((0.25, 0.5), 'score') for i, k in enumerate(sets) for e in range(k)}
    numbers = sorted(scores)
    at = ctx.pick(numbers + ['test'], 'failure')
    delete = ctx.flag('delete')

    def plan(call, index):
        return [{'fail': True} if (index, e) == at else {'scores': flat(scores[(index, e)]), 'right': 1} for e in range(sets[index])]
    with gen.scratch() as root:
        inner = Monitor(ctx, scores, delete, None)

        def monitor(world, kind, number):
            inner(world, kind, number)
            if kind == 'test' and at == 'test':
                raise ZeroDivisionError('test failed')
        world = evals.World(ctx, evl, tg, dm, root, plan, monitor)
        inner.start(world)
        ctx.rejects('run with a failure at {}'.format(at), world.run, world.settings(), [{'i': i} for i in range(len(sets))], delete, exc=ZeroDivisionError)
        seen = [n for n, _ in world.models]
        alive = world.alive()
        ctx.equal(inner.outside(world), inner.before, 'files outside the model directory')
        if delete:
            needed = {inner.best_of(seen)} if at == 'test' else inner.needed(world, seen)
            ctx.check(needed <= alive, 'best models {} missing, left {}', needed, alive)
        else:
            ctx.equal(alive, set(seen), 'models present without deletion')
        # a training that starts over is not stopped or fed by leftovers outside of the model directory
        ctx.equal(seen, numbers[:len(seen)], 'trained models')
    ctx.state(sets, sorted(scores.items()), at, delete)


def directories(ctx):
    kind = ctx.pick(('missing', 'empty', 'nested', 'trailing slash', 'relative', 'file', 'hidden file', 'directory', 'link'), 'model directory')
    delete = ctx.flag('delete')
    tested = ctx.flag('test set')
    with gen.scratch() as root:
        world = evals.World(ctx, evl, tg, dm, root, lambda call, index: [{'scores': flat(0.5), 'right': 1}, {'scores': flat(0.25), 'right': 2}])
        os.makedirs(os.path.join(root, 'elsewhere', 'deep'))
        with open(os.path.join(root, 'elsewhere', 'precious'), 'w') as f:
            f.write('keep')
        with open(os.path.join(root, 'models-not'), 'w') as f:
            f.write('keep')
        if kind == 'nested':
            world.model_dir = os.path.join(root, 'models', 'in', 'here')
        elif kind == 'trailing slash':
            world.model_dir += os.sep
        elif kind not in ('missing', 'relative'):
            os.makedirs(world.model_dir)
        if kind in ('file', 'hidden file'):
            with open(os.path.join(world.model_dir, 'x' if kind == 'file' else '.x'), 'w') as f:
                f.write('mine')
        elif kind == 'directory':
            os.makedirs(os.path.join(world.model_dir, 'params-0', '1', 'epoch-7'))
        elif kind == 'link':
            os.symlink(os.path.join(root, 'elsewhere'), os.path.join(world.model_dir, 'params-1'))
        before = evals.snapshot(root)
        settings = world.settings()
        if not tested:
            del settings['test_set']
        occupied = kind in ('file', 'hidden file', 'directory', 'link')
        cwd = os.getcwd()
        try:
            if kind == 'relative':
                os.chdir(root)
                settings['model_dir'] = world.model_dir = 'models'
            if delete and occupied:
                ctx.rejects('deletion afterwards in a directory with a ' + kind, world.run, settings, {}, delete, exc=ValueError)
                ctx.equal(evals.snapshot(root), before, 'files after the refusal')
                ctx.equal(world.calls, [], 'trainings')
            else:
                report = ctx.accepts('run', world.run, settings, {}, delete)
                ctx.equal(report.test, {'Lemmas': evals.lemmas(1, 16)} if tested else None, 'test scores')
                after = evals.snapshot(root)
                ctx.equal({k: after.get(k) for k in before if k != 'models' or not delete}, {k: v for k, v in before.items() if k != 'models' or not delete}, 'files that were there before')
                if delete:
                    ctx.check(not os.path.exists(world.model_dir), 'models left after deletion')
                else:
                    ctx.equal(len(world.alive()), 2, 'models')
        finally:
            os.chdir(cwd)
    ctx.state(kind, delete, tested)


def measured(ctx):
    """dev scores come from the tester"""
    rights = [[ctx.pick((0, 3, 8), 'right dev lemmas') for _ in range(ctx.pick((1, 2), 'epochs'))] for _ in range(ctx.pick((1, 2), 'parameter sets'))]
    delete = ctx.flag('delete')
    where = ctx.pick((None, 'results', 'models'), 'results')
    ranks = {(i, e): r for i, rs in enumerate(rights) for e, r in enumerate(rs)}

    def plan(call, index):
        return [{'right': total_right((index, e)), 'dev_right': r} for e, r in enumerate(rights[index])]
    with gen.scratch() as root:
        monitor = Monitor(ctx, ranks, delete, None)
        world = evals.World(ctx, evl, tg, dm, root, plan, monitor)
        monitor.start(world)
        settings = world.settings()
        for name in ('dev_set', 'test_set'):
            if where:
                settings[name]['results_path'] = os.path.join(root, where)
        hypers = [{'i': i} for i in range(len(rights))]
        report = ctx.accepts('run', world.run, settings, hypers, delete)
        best = monitor.best_of(sorted(ranks))
        finish(ctx, world, report, hypers, delete, best, monitor)
        ctx.equal(report.dev, {'Lemmas': evals.lemmas(ranks[best], 8)}, 'reported dev scores')
        ctx.equal(report.test, {'Lemmas': evals.lemmas(total_right(best), 16)}, 'reported test scores')
        ctx.equal([e for e in world.events if e[0] in ('dev', 'test')], [('dev', n) for n in sorted(ranks)] + [('test', best)], 'evaluations')
        if where == 'results' or where and not delete:
            files = {k: v.decode() for k, v in evals.snapshot(os.path.join(root, where)).items() if v is not None and not v.startswith(b'(')}
            counts = sorted((sum('\td%d\t' % i in text for i in range(9)) or -sum('\tt%d\t' % i in text for i in range(17)), text.count('\tl'))
                            for text in files.values())
            ctx.equal(counts, sorted([(8, r) for r in ranks.values()] + [(-16, total_right(best))]), 'results files')
    ctx.state(rights, delete, where)


def scale(ctx):
    shape = ctx.pick(((1, 24), (3, 8), (14, 1)), 'size')
    at = ctx.pick(('first', 'middle', 'last', 'all equal', 'rising', 'falling', 'barely rising', 'second, eleventh', 'second, last'), 'best')
    delete = ctx.flag('delete')
    count = shape[0] * shape[1]
    values = {'first': [0.5] + [0.25] * (count - 1), 'last': [0.25] * (count - 1) + [0.5], 'all equal': [0.0] * count,
              'middle': [0.5 if i == count // 2 else 0.25 for i in range(count)], 'rising': [i / 1024 for i in range(count)], 'falling': [1 - i / 1024 for i in range(count)],
              'barely rising': [0.5 + i * 1e-8 for i in range(count)], 'second, eleventh': [{1: 0.3, 10: 0.5}.get(i, 0.25) for i in range(count)],
              'second, last': [{1: 0.3, count - 1: 0.5}.get(i, 0.25) for i in range(count)]}[at]
    ranks = {(i, e): values[i * shape[1] + e] for i in range(shape[0]) for e in range(shape[1])}

    def plan(call, index):
        return [{'scores': flat(ranks[(index, e)]), 'right': 3} for e in range(shape[1])]
    with gen.scratch() as root:
        monitor = Monitor(ctx, ranks, delete, None)
        world = evals.World(ctx, evl, tg, dm, root, plan, monitor)
        monitor.start(world)
        hypers = [{'i': i} for i in range(shape[0])]
        report = ctx.accepts('run', world.run, world.settings(), hypers, delete)
        finish(ctx, world, report, hypers, delete, monitor.best_of(sorted(ranks)), monitor)
    ctx.state(shape, at, delete)


SCENARIOS = {'selection': selection, 'metrics': metrics, 'faults': faults, 'directories': directories, 'measured': measured, 'scale': scale}
