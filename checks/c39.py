"""C39 The scripts run exactly the experiment their files and options describe"""
import contextlib
import io as stdio
import itertools
import json
import os
import runpy
import sys
import unittest.mock

from mc import conll, evals, fake, gen
from mc.conll import W

TIMEOUT = 60
BOUNDS = {
    'quick': 'evaluation.main on all combinations of 10 training orders, results paths of dev and test (same or other directory), with and without test set, 3 seed lists, 1-2 '
             'parameter sets, 3 metrics; command lines of both scripts in all orders and spellings of the options, every option left out, every file missing or malformed, 4 '
             'methods; pretrained models: <=3 directories with all dev scores of 3 values, 2 seeds, 2 parameter sets; 12 directories',
    'thorough': 'pretrained models: <=4 directories, 2 seeds with different scores',
}
ASSUMPTIONS = ['trainers and neural models are enumerated stand-ins; scripts run in the process of the check']


class Extractor(object):
    def get_features(self, obj, **kwargs):
        return {'sentence': list(obj)}


class Interpreter(object):
    """the prediction is the number of right lemmas"""

    def interpret(self, obj, value):
        result = []
        for sentence in obj:
            row = []
            for i, token in enumerate(sentence):
                row.append(token.with_morphology(token, dm.Pos('N'), 'l%d' % i if i < value['right'] else 'wrong'))
            result.append(row)
        return result


def load(thorough):
    global evl, tg, dm, ge, nt, Model, ds
    evl, tg = fake.evaluation()
    Model = fake.Model
    import babylondigger.datamodel as dm
    import babylondigger.evaluation.grid_eval as ge
    import babylondigger.evaluation.dataset as ds
    import babylondigger.neural.tagger.neural_tagger as nt



# ----------------------------------------------------------------- settings
LONG = conll.render([conll.chain([W('w%d' % i, lemma='l0', upos='N'), W('x', lemma='l1', upos='N')][:1 + i % 2]) for i in range(9)])
ORDERS = (None, {'seed': 1, 'max_batch_size': 4}, {'seed': 2, 'max_batch_size': 100}, {'seed': 3, 'max_batch_size': 1}, {'seed': 4, 'max_batch_size': 2}, {'seed': 0, 'max_batch_size': 5},
          {}, {'seed': 8}, {'max_batch_size': 3}, {'seed': None, 'max_batch_size': 4})


def experiments(ctx):
    order = ctx.pick(ORDERS, 'shuffler')
    places = [ctx.pick((None, 'out', 'out/deep'), 'results of the dev set'), ctx.pick((None, 'out', 'elsewhere'), 'results of the test set')]
    tested = ctx.flag('test set')
    seeds = ctx.pick((5, [5], [6, 5]), 'seeds')
    sets = ctx.pick((1, 2, '1'), 'parameter sets')
    metric = ctx.pick(('f1', 'precision', 'aligned_accuracy'), 'metric') if order is None else 'f1'
    n = int(sets)
    rights = {(i, e): (3, 8, 8, 2)[(2 * i + e) % 4] for i in range(2) for e in range(2)}
    many = seeds if isinstance(seeds, list) else [seeds]

    def plan(call, index):
        i = index // len(many)
        return [{'right': 2 + 3 * i + 7 * e, 'dev_right': rights[i, e]} for e in range(2)]
    with gen.scratch() as root:
        views = []
        for attempt in range(2):
            with unittest.mock.patch('time.time', lambda: 1e9 * (1 + attempt)):
                here = os.path.join(root, str(attempt))
                os.makedirs(here)
                world = evals.World(ctx, evl, tg, dm, here, plan)
                with open(os.path.join(here, 'train'), 'w') as f:
                    f.write(LONG)
                settings = world.settings(random_seed=seeds, cmp_metric={'fields': ['Lemmas'], 'metric': metric}, metric_printer={'fields': ['Lemmas', 'Words']})
                if order is not None:
                    settings['train_set']['shuffler'] = dict(order)
                for name, place in zip(('dev_set', 'test_set'), places):
                    if place:
                        settings[name]['results_path'] = os.path.join(here, place)
                if not tested:
                    del settings['test_set']
                hypers = [{'epochs': 2, 'i': i, 'nn_config': {'deep': [i]}} for i in range(n)]
                before = json.dumps(settings)
                report = ctx.accepts('run', world.run, settings, hypers[0] if sets == '1' else hypers, False)
                ctx.equal(json.dumps(settings), before, 'settings after the run')
            views.append(world.train_views)
            ctx.equal([(dict(c.params), c.seed) for c in world.calls], [(h, s) for h in hypers for s in many], 'trainings')
            ctx.equal(len({c.model_dir for c in world.calls}), len(world.calls), 'model directories')
            # epochs of parameter sets: 3, 8 and 8, 2
            best, epoch = (0, 1)
            ctx.equal(report.params, hypers[best], 'reported parameters')
            words = (100.0,) * 3 + (None,)
            ctx.equal(report.dev, {'Lemmas': evals.lemmas(8, 8), 'Words': words}, 'reported dev scores')
            right = 2 + 7 * epoch
            ctx.equal(report.test, {'Lemmas': evals.lemmas(right, 16), 'Words': words} if tested else None, 'reported test scores')
            ctx.equal([e for e in world.events if e[0] == 'test'], [('test', (k, epoch)) for k in range(len(many))] if tested else [], 'tested models')
            # results files
            found = {}
            for path, content in evals.snapshot(here).items():
                top = path.split(os.sep)[0]
                if content is None or top in ('train', 'dev', 'test', 'models'):
                    continue
                text = content.decode()
                kind = 'dev' if '\td0\t' in text else 'test'
                found.setdefault(kind, []).append(text.count('\tl'))
                place = places[kind == 'test']
                ctx.check(place and path.startswith(place + os.sep), 'results of {} in {} instead of {}', kind, path, place)
            want = {}
            if places[0]:
                want['dev'] = sorted(rights[i, e] for i in range(n) for _ in many for e in range(2))
            if places[1] and tested:
                want['test'] = [right] * len(many)
            ctx.equal({k: sorted(v) for k, v in found.items()}, want, 'annotations in results files')
        file_order = ['w%d' % i if i % 2 == 0 else 'w%d x' % i for i in range(9)]
        if order is None or order.get('seed') is not None:
            ctx.equal(views[0], views[1], 'orders of the training data in two runs')
        for view in views[0] + views[1]:
            view = [v.strip() for v in view]
            ctx.equal(sorted(view), sorted(file_order), 'training data')
            size = 1 if order is None else order.get('max_batch_size', 50)
            ctx.check(all(abs(view.index(x) - i) < size for i, x in enumerate(file_order)), 'order {} with shuffler {}', view, order)
        if order is not None and size > 2:
            ctx.check(len(set(map(tuple, views[0] + views[1]))) > 1, 'epochs in the same order')
    ctx.state(order, places, tested, seeds, sets, metric, tuple(map(tuple, views[0][:2])))


# ------------------------------------------------------------ command lines
class Result(object):
    def __init__(self, error, out):
        self.error, self.out = error, out


def script(module, arguments):
    """runs a script with arguments"""
    out = stdio.StringIO()
    argv = sys.argv
    sys.argv = [module.replace('.', '/') + '.py'] + arguments
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(stdio.StringIO()):
            runpy.run_module(module, run_name='__main__')
        error = None
    except SystemExit as e:
        error = e if e.code else None
    except Exception as e:
        error = e
    finally:
        sys.argv = argv
    return Result(error, out.getvalue())


TRAINING = conll.render([conll.chain([W('a', lemma='a', upos='N'), W('b', lemma='c', upos='V')]), conll.chain([W('d', lemma='d', upos='N')])])
MODULES = {'evaluation': 'babylondigger.evaluation.evaluation', 'grid': 'babylondigger.evaluation.grid_eval'}


def prepare(root):
    """an experiment of the real stub trainer: everything is N, lemmas are forms"""
    paths = {}
    for name in ('train', 'dev', 'test'):
        paths[name] = os.path.join(root, name)
        with open(paths[name], 'w') as f:
            f.write(TRAINING if name == 'train' else TRAINING.replace('\td\td\t', '\te\tf\t') if name == 'dev' else TRAINING + TRAINING)
    settings = {'train_set': {'path': paths['train']}, 'dev_set': {'path': paths['dev'], 'results_path': os.path.join(root, 'out')}, 'test_set': {'path': paths['test']},
                'cmp_metric': {'fields': ['UPOS', 'Lemmas'], 'metric': 'f1'}, 'metric_printer': {'fields': ['UPOS', 'Lemmas']}, 'random_seed': [1, 2],
                'model_dir': os.path.join(root, 'models')}
    return evals.main_arguments(root, settings, {'epochs': 1}, {'a': [{'epochs': 1}, {'epochs': 2}]})


def spelled(options, order, spelling):
    result = []
    for name in order:
        value = options[name]
        if value is True:
            result.append('--' + name)
        elif spelling == 'equals':
            result.append('--{}={}'.format(name, value))
        else:
            result += ['--' + name, value]
    return result


def command_lines(ctx):
    which = ctx.pick(('evaluation', 'grid'), 'script')
    with gen.scratch() as root:
        files = prepare(root)
        options = {'settings': files['settings'], 'method': 'stub', 'hyperparams': files['hypers']}
        if which == 'grid':
            options['grid'] = files['grid']
        elif ctx.flag('delete afterwards'):
            options['delete_after'] = True
        order = ctx.pick(list(itertools.permutations(options)) if len(options) == 3 or ctx.thorough else
                         [p for k, p in enumerate(itertools.permutations(options)) if k % 3 == 0], 'order')
        spelling = ctx.pick(('separate', 'equals'), 'spelling')
        before = evals.snapshot(root)
        result = script(MODULES[which], spelled(options, order, spelling))
        ctx.check(result.error is None, '{} failed: {!r}', spelled(options, order, spelling), result.error)
        report = evals.Report(ctx, result.out)
        ctx.equal(report.params, {'epochs': 1}, 'reported parameters')
        percent = lambda right, total: evals.percent((right / total,) * 4)
        ctx.equal(report.dev, {'UPOS': percent(2, 3), 'Lemmas': percent(1, 3)}, 'reported dev scores')
        ctx.equal(report.test, {'UPOS': percent(4, 6), 'Lemmas': percent(4, 6)}, 'reported test scores')
        after = evals.snapshot(root)
        ctx.equal({k: after.get(k) for k in before}, before, 'files of the experiment')
        ctx.equal(len([k for k, v in after.items() if v is not None and k.startswith('out' + os.sep)]), 2 if which == 'evaluation' else 4, 'files of dev results')
        if which == 'grid' or 'delete_after' in options:
            ctx.check(not os.path.exists(os.path.join(root, 'models')), 'models are left')
    ctx.state(which, order, spelling)


def wrong_command_lines(ctx):
    which = ctx.pick(('evaluation', 'grid'), 'script')
    names = ['settings', 'method', 'hyperparams'] + (['grid'] if which == 'grid' else [])
    name = ctx.pick(names, 'option')
    fault = ctx.pick(('left out', 'no value', 'missing file', 'malformed', 'empty', 'directory') if name != 'method' else ('left out', 'no value', 'unknown', 'stubs', ''), 'fault')
    with gen.scratch() as root:
        files = prepare(root)
        options = {'settings': files['settings'], 'method': 'stub', 'hyperparams': files['hypers']}
        if which == 'grid':
            options['grid'] = files['grid']
        order = [n for n in options if n != name] + [name]
        path = options[name]
        if fault == 'left out':
            order.pop()
        elif fault == 'missing file':
            os.remove(path)
        elif fault in ('malformed', 'empty'):
            with open(path, 'r+') as f:
                text = f.read()
                f.seek(0)
                f.truncate()
                f.write(text[:-1] if fault == 'malformed' else '')
        elif fault == 'directory':
            os.remove(path)
            os.makedirs(path)
        elif name == 'method':
            options[name] = fault
        arguments = spelled(options, order, 'separate')
        if fault == 'no value':
            arguments.pop()
        before = evals.snapshot(root)
        result = script(MODULES[which], arguments)
        ctx.check(result.error is not None, '{} {} is accepted', name, fault)
        ctx.check('scores' not in result.out, '{} {}: something was evaluated:\n{}', name, fault, result.out)
        ctx.equal(evals.snapshot(root), before, 'files')
    ctx.state(which, name, fault, type(result.error).__name__)


# -------------------------------------------------------------- pretrained
def right_on(right, text):
    """what a model of `right` does on the dev (d) and test (t) data"""
    return right if text.startswith('d') else 2 * right


def store(path, right):
    Model.reset()
    os.makedirs(os.path.dirname(path), exist_ok=True)
    nt.NeuralTagger(Extractor(), Model(None, right), Interpreter()).save(path)


def pretrained(ctx):
    """every saved model is evaluated, the best one is tested, nothing is changed"""
    seeds = ctx.pick((5, [5, 50]), 'seeds')
    sets = ctx.pick((1, 2), 'parameter sets') if not isinstance(seeds, list) else 1
    many = seeds if isinstance(seeds, list) else [seeds]
    rights = {}
    for i in range(sets):
        count = ctx.pick((1, 2, 3, 4) if ctx.thorough else (1, 2, 3), 'models')
        values = [ctx.pick((0, 3, 8), 'right dev lemmas') for _ in range(count)]
        for k, s in enumerate(many):
            rights[i, s] = values[k:] + values[:k]
    observe(ctx, seeds, many, sets, rights, ctx.pick(('epoch-{}', 'epoch-1{}', 'm{}x'), 'names'), ctx.flag('results'))


def observe(ctx, seeds, many, sets, rights, names, results):
    with gen.scratch() as root:
        world = evals.World(ctx, evl, tg, dm, root, None)
        for (i, s), values in rights.items():
            for k, right in enumerate(values):
                store(os.path.join(world.model_dir, 'params-{}'.format(i), str(s), names.format(k)), right)
        # saved models of other experiments
        for other in ('params-0/500', 'params-0/05', 'params-10/5', 'params-%d/5' % sets, 'params/5'):
            store(os.path.join(world.model_dir, other, names.format(0)), 9)
        before = evals.snapshot(root)
        log = []

        def answer(model, features):
            # one sentence per document
            text = features['sentence'][0].tokens
            first = next(iter(text)).text
            log.append((model.weights, first[0]))
            return {'right': right_on(model.weights, first)}
        Model.reset(answer)
        settings = world.settings(random_seed=seeds)
        if results:
            settings['dev_set']['results_path'] = os.path.join(root, 'out')
        hypers = [{'i': i} for i in range(sets)]
        out = stdio.StringIO()
        with contextlib.redirect_stdout(out):
            ctx.accepts('evaluation of saved models', evl.main, evl._Arguments(settings, 'neural_pretrained', hypers, False))
        report = evals.Report(ctx, out.getvalue())
        ctx.equal(sorted(r for r, kind in log if kind == 'd'), sorted(itertools.chain(*rights.values())), 'models evaluated on the dev set')
        best = {i: [max(rights[i, s]) for s in many] for i in range(sets)}
        chosen = max(range(sets), key=lambda i: (sum(best[i]), -i))
        ctx.equal(report.params, hypers[chosen], 'chosen parameters')
        near(ctx, report.dev, [evals.lemmas(r, 8) for r in best[chosen]], 'dev scores')
        near(ctx, report.test, [evals.lemmas(2 * r, 16) for r in best[chosen]], 'test scores')
        ctx.equal([r for r, kind in log if kind == 't'], best[chosen], 'models evaluated on the test set')
        ctx.equal(len(Model.opened), sum(m.closed for m in Model.opened), 'closed models')
        after = evals.snapshot(root)
        ctx.equal({k: after.get(k) for k in before}, before, 'saved models')
        new = [v for k, v in after.items() if k not in before and v is not None]
        ctx.equal(sorted(v.decode().count('\tl') for v in new), sorted(itertools.chain(*rights.values())) if results else [], 'results files')
        files = evals.snapshot(root)
        ctx.rejects('deletion of saved models', evl.main, evl._Arguments(settings, 'neural_pretrained', hypers, True), exc=ValueError)
        ctx.equal(evals.snapshot(root), files, 'files after the refusal')
    ctx.state(seeds, sorted(rights.items()), names, results)


def near(ctx, got, cells, what):
    """a table of the means of cells, up to rounding"""
    ctx.equal(sorted(got), ['Lemmas'], what)
    want = [sum(c) / len(c) for c in zip(*cells)]
    ctx.check(all(abs(a - b) < .011 for a, b in zip(got['Lemmas'], want)), '{}: {} instead of {}', what, got, want)


def scale(ctx):
    count = ctx.pick((1, 12, 25), 'models')
    at = ctx.pick((0, count // 2, count - 1), 'best') if count > 1 else 0
    values = [k % 7 for k in range(count)]
    values[at] = 8
    observe(ctx, [5, 50], [5, 50], 1, {(0, 5): values, (0, 50): values[::-1]}, 'epoch-{}', True)


SCENARIOS = {'experiments': experiments, 'command lines': command_lines, 'wrong command lines': wrong_command_lines, 'pretrained': pretrained, 'scale': scale}
