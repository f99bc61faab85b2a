"""C31 Scores over several seeds are the exact averages per metric"""
import itertools

from mc import evals, fake, gen
from mc.evals import Score

BOUNDS = {
    'quick': '<=3 seeds x <=2 parameter sets with all averages over 3 score values per run and 8 choices of printed and comparison metrics (shared, '
             'disjoint, without aligned accuracy); all sequences of 2 epochs x 2 seeds x 2 parameter sets over 2 dev values, with and without deletion; '
             'a single seed and the list of it side by side; measured scores of the real tester for every metric; all scores of 2 or 3 compared fields for two candidates; 12 seeds',
    'thorough': '3 seeds x 2 parameter sets over 4 values, 3 epochs x 2 seeds x 2 parameter sets',
}
ALL = ('Tokens', 'Sentences', 'Words', 'UPOS', 'XPOS', 'Feats', 'AllTags', 'Lemmas', 'UAS', 'LAS', 'CLAS')
BARE = ('Tokens', 'Sentences', 'Words')


def load(thorough):
    global dm, evl, tg
    evl, tg = fake.evaluation()
    import babylondigger.datamodel as dm


def mean(values):
    values = list(values)
    if values[0] is None:
        return None
    return sum(values) / len(values)


def average(scores):
    return tuple(mean(s[i] for s in scores) for i in range(4))


def near(a, b):
    """printed percentages"""
    return len(a) == len(b) and all((x is None) == (y is None) and (x is None or abs(x - y) <= 0.00501) for x, y in zip(a, b))


def compare(ctx, got, want, what):
    ctx.equal(sorted(got), sorted(want), what + ': metrics')
    for name in want:
        expected = tuple(None if x is None else 100 * x for x in want[name])
        ctx.check(near(got[name], expected), '{}: {}: got {}, expected {}', what, name, got[name], expected)


def table(value, number):
    """scores of all metrics, different for every kind, decided by value"""
    result = {}
    for k, name in enumerate(ALL):
        base = value + (k + 1) / 128
        result[name] = Score(base, base / 2 + number / 64, base / 4, None if name in BARE else base / 8 + number / 32)
    return result


CHOICES = (
    (['Lemmas'], ['Lemmas'], 'f1'), (['Lemmas', 'UPOS'], ['UPOS'], 'aligned_accuracy'), (['Lemmas'], ['UPOS'], 'precision'),
    (['Tokens'], ['Lemmas', 'UAS'], 'recall'), (['Words', 'LAS'], ['LAS', 'Words'], 'f1'), (list(ALL), ['LAS'], 'aligned_accuracy'),
    (['Sentences', 'Lemmas'], ['Sentences'], 'recall'), ([], ['CLAS'], 'f1'))


def observe(ctx, seeds, sets, scores, printed, fields, metric, delete=False):
    """scores: {(set, seed): [dev table per epoch]}; returns the report"""
    rights = {}
    for i, key in enumerate(sorted(scores)):
        for e in range(len(scores[key])):
            rights[key + (e,)] = (3 * i + 2 * e) % 17
    keys = []

    def value(scores_):
        return sum(getattr(scores_[f], metric) for f in fields)

    def plan(call, index):
        key = (call.params['i'], call.seed)
        ctx.check(key in scores and key not in keys, 'parameters {} were trained with seed {}', call.params, call.seed)
        keys.append(key)
        return [{'scores': t, 'right': rights[key + (e,)]} for e, t in enumerate(scores[key])]
    best = {}
    for key, tables in scores.items():
        values = [value(t) for t in tables]
        best[key] = max(range(len(values)), key=lambda e: (values[e], -e))
    listed = seeds if isinstance(seeds, list) else [seeds]
    means = []
    for i in range(sets):
        tables = [scores[(i, s)][best[(i, s)]] for s in listed]
        means.append({name: Score(*average([t[name] for t in tables])) for name in ALL})
    sums = [value(m) for m in means]
    chosen = max(range(sets), key=lambda i: (sums[i], -i))

    needed = []

    def on_event(world, kind, number):
        if kind != 'test' or needed:
            return
        alive = {keys[n[0]] + (n[1],) for n in world.alive()}
        want = {(chosen, s, best[(chosen, s)]) for s in listed} if delete else {key + (e,) for key in scores for e in range(len(scores[key]))}
        ctx.equal(alive, want, 'models left when testing')
        needed.append(True)
    with gen.scratch() as root:
        world = evals.World(ctx, evl, tg, dm, root, plan, on_event)
        report = ctx.accepts('run', world.run, world.settings(random_seed=seeds, cmp_metric={'fields': fields, 'metric': metric}, metric_printer={'fields': printed}),
                             [{'i': i} for i in range(sets)], delete)
        ctx.equal(sorted(keys), sorted(scores), 'trained parameters and seeds')
        ctx.equal(report.params, {'i': chosen}, 'reported parameters')
        compare(ctx, report.dev, {name: means[chosen][name] for name in printed}, 'dev scores')
        tested = [keys[n[0]] + (n[1],) for kind, n in world.events if kind == 'test']
        ctx.equal(sorted(tested), sorted((chosen, s, best[(chosen, s)]) for s in listed), 'tested models')
        ctx.equal(sorted(report.test), sorted(printed), 'test metrics')
        if 'Lemmas' in printed:
            x = mean(rights[t] / 16 if rights[t] < 16 else 1 for t in tested)
            compare(ctx, {'Lemmas': report.test['Lemmas']}, {'Lemmas': (x,) * 4}, 'test scores')
        for name in BARE:
            if name in printed:
                compare(ctx, {name: report.test[name]}, {name: (1, 1, 1, None)}, 'test scores')
        if not delete:
            ctx.equal(len(world.alive()), sum(len(t) for t in scores.values()), 'models')
    return report, chosen


def averages(ctx):
    values = (0, 0.25, 0.5, 0.125) if ctx.thorough else (0, 0.25, 0.5)
    seeds = ctx.pick(([1], [0, 7], [5, 3, 4]), 'seeds')
    sets = ctx.pick((1, 2), 'parameter sets')
    printed, fields, metric = ctx.pick(CHOICES, 'metrics')
    runs = [(i, s) for i in range(sets) for s in seeds]
    if len(runs) == 6 and not ctx.thorough:
        values = values[1:]
    scores = {key: [table(ctx.pick(values, 'score'), n)] for n, key in enumerate(runs)}
    _, chosen = observe(ctx, seeds, sets, scores, printed, fields, metric)
    ctx.state(seeds, sets, printed, fields, metric, [v[0]['Lemmas'] for v in scores.values()])


def epochs(ctx):
    seeds = [11, 2]
    sets = 2
    count = 3 if ctx.thorough else 2
    delete = ctx.flag('delete')
    scores = {}
    for n, key in enumerate((i, s) for i in range(sets) for s in seeds):
        scores[key] = [table(ctx.pick((0.25, 0.5), 'score'), n * 3 + e) for e in range(count)]
    printed, fields, metric = ctx.pick((CHOICES[0], CHOICES[2]), 'metrics')
    observe(ctx, seeds, sets, scores, printed, fields, metric, delete)
    ctx.state(delete, sorted((k, [t['Lemmas'] for t in v]) for k, v in scores.items()), printed)


def single(ctx):
    """a seed and the list of it"""
    seed = ctx.pick((0, 1, 123456789), 'seed')
    sets = ctx.pick((1, 2), 'parameter sets')
    count = ctx.pick((1, 2), 'epochs')
    delete = ctx.flag('delete')
    printed, fields, metric = ctx.pick(CHOICES, 'metrics')
    scores = {(i, seed): [table(ctx.pick((0.25, 0.5), 'score'), i + e) for e in range(count)] for i in range(sets)}
    one, chosen_one = observe(ctx, seed, sets, scores, printed, fields, metric, delete)
    many, chosen_many = observe(ctx, [seed], sets, scores, printed, fields, metric, delete)
    ctx.equal((one.params, one.dev, one.test), (many.params, many.dev, many.test), 'results with a seed and with the list of it')
    ctx.state(seed, sets, delete, printed, one.dev, one.test)


def measured(ctx):
    """scores of the real tester"""
    seeds = ctx.pick(([3, 4], [9, 8, 7]), 'seeds')
    rights = {s: ctx.pick((0, 4, 8), 'right dev lemmas') for s in seeds}
    tested = {s: ctx.pick((0, 16), 'right test lemmas') for s in seeds}
    printed = ctx.pick((list(ALL), ['Lemmas']), 'printed')
    with gen.scratch() as root:
        def plan(call, index):
            return [{'right': tested[call.seed], 'dev_right': rights[call.seed]}]
        world = evals.World(ctx, evl, tg, dm, root, plan)
        report = ctx.accepts('run', world.run, world.settings(random_seed=seeds, metric_printer={'fields': printed}), {}, ctx.flag('delete'))
        ctx.equal([c.seed for c in world.calls], seeds, 'seeds')
        for scores, right, total in ((report.dev, rights, 8), (report.test, tested, 16)):
            ctx.equal(sorted(scores), sorted(printed), 'metrics')
            for name in printed:
                x = mean(r / total for r in right.values()) if name == 'Lemmas' else 1
                aligned = None if name in BARE else x
                if name in ('UPOS', 'UAS', 'LAS', 'CLAS', 'Lemmas') + BARE:
                    compare(ctx, {name: scores[name]}, {name: (x, x, x, aligned)}, 'scores')
    ctx.state(seeds, rights, tested, len(printed))


def several(ctx):
    """every assignment of scores to the compared fields: equal ones count each"""
    count = ctx.pick((2, 3), 'fields')
    fields = ['UPOS', 'LAS', 'Lemmas'][:count]
    metric = ctx.pick(('f1', 'aligned_accuracy', 'recall') if count == 2 else ('f1',), 'metric')
    across = ctx.pick(('epochs', 'parameters'), 'candidates')
    candidates = []
    for k in range(2):
        t = table(0, k)
        for f in fields:
            x = ctx.pick((0, 0.25, 0.5), 'score')
            t[f] = t[f]._replace(**{metric: x})
        candidates.append(t)
    scores = {(0, 1): candidates} if across == 'epochs' else {(0, 1): candidates[:1], (1, 1): candidates[1:]}
    observe(ctx, ctx.pick((1, [1]), 'seeds'), len(scores), scores, fields, fields, metric, ctx.flag('delete') if count == 2 else False)
    ctx.state(across, metric, [[t[f] for f in fields] for t in candidates])


def scale(ctx):
    n = ctx.pick((1, 5, 12), 'seeds')
    shape = ctx.pick(('rising', 'alternating', 'equal'), 'scores')
    seeds = [(7 * k + 3) % 31 for k in range(n)]
    value = {'rising': lambda k: k / 64, 'alternating': lambda k: k % 2 / 2, 'equal': lambda k: 0.5}[shape]
    scores = {(i, s): [table(value(k + i + e), k) for e in range(2)] for i in range(2) for k, s in enumerate(seeds)}
    observe(ctx, seeds, 2, scores, list(ALL), ['LAS', 'Lemmas'], 'f1', ctx.flag('delete'))
    ctx.state(n, shape)


SCENARIOS = {'averages': averages, 'epochs': epochs, 'single': single, 'measured': measured, 'several fields': several, 'scale': scale}
