"""C33 Each training epoch sees every sentence once, in order, in full minibatches"""
import contextlib
import copy
import io as stdio
import itertools
import os
from collections import namedtuple

from mc import docs, fake, gen
from mc.docs import Item, Word

BOUNDS = {
    'quick': 'all distributions of <=5 sentences over <=3 documents (empty ones included) x batch sizes 1..6 x 2 epochs, data that change their order '
             'between epochs; all dev score sequences of 6 epochs over 3 values, and of 4 epochs x decays x decrease factors; failing data source, '
             'training step, saving and scoring at every position of 2 epochs, and abandoning after every epoch; 3 sparsity and dropout settings; 60 '
             'sentences of up to 20 words and 25 epochs',
    'thorough': '<=7 sentences over <=4 documents, batch sizes 1..8, 3 epochs; score sequences of 8 epochs',
}
ASSUMPTIONS = ['the TensorFlow model and the network builders are recording stand-ins']
Score = namedtuple('Score', ['precision', 'recall', 'f1', 'aligned_accuracy'])


def load(thorough):
    global dm, nt, Model, provider, fp, np
    nt, Model, provider = fake.neural()
    import numpy as np
    import babylondigger.datamodel as dm
    import babylondigger.features.provider as fp


def providers():
    return [fp.SentenceLengthExtractorProvider('length'), fp.SubwordsExtractorProvider('chars', {'min_frequency': 1, 'segmenter': 'char'}),
            fp.TrainableWordEmbeddingExtractorProvider('word', {'min_frequency': 1, 'lowercase': False}),
            fp.PosDictExtractorProvider('pos', 'pos_joint'), fp.LemmaDictExtractorProvider('lemma')]


class Builder(object):
    def __init__(self, world):
        self.world = world

    def feature_providers(self):
        return providers()

    def build(self, shapes):
        self.world.shapes.append({k: list(v) for k, v in shapes.items()})
        return 'network', 'graph'


class Data(object):
    """training documents; each iteration starts one document later; iteration `at` fails after `after` documents"""

    def __init__(self, documents, rotate=False):
        self.documents, self.rotate, self.passes, self.fail = documents, rotate, [], None

    def __iter__(self):
        k = len(self.passes)
        order = self.documents
        if self.rotate and order:
            order = order[k % len(order):] + order[:k % len(order)]
        self.passes.append(order)
        for i, d in enumerate(order):
            if self.fail == (k, i):
                raise ZeroDivisionError('data source failed')
            yield d
        if self.fail == (k, len(order)):
            raise ZeroDivisionError('data source failed')


def sentence(i, length=None):
    words = []
    for j in range(length or i % 3 + 1):
        words.append(Item('w%dx%d' % (i, j), plain=Word('', 'lem%d' % (i % 2), ('U%d' % ((i + j) % 3), 'x', {'K': str(j % 2)}))))
    return words


def freeze(value):
    if isinstance(value, dict):
        return {k: freeze(v) for k, v in value.items()}
    if isinstance(value, np.ndarray):
        return value.tolist()
    if isinstance(value, (list, tuple)):
        return [freeze(v) for v in value]
    return value


class World(object):
    def __init__(self, ctx, root, data, epochs, batch_size, accuracies=None, lr=0.5, decay=0.25, factor=2.0, dropout=0.3, sparse=None, seed=5):
        self.ctx, self.root, self.data = ctx, root, data
        self.epochs, self.batch_size, self.accuracies = epochs, batch_size, accuracies
        self.lr, self.decay, self.factor, self.dropout, self.sparse, self.seed = lr, decay, factor, dropout, sparse, seed
        self.shapes, self.builders, self.scored, self.returned = [], [], [], []
        self.fail_test = None
        self.fail_train = None
        self.fail_save = None
        Model.reset(None, self.train_step)
        self.frozen = []
        provider.builder = self.builder
        config = {'sparse_input_prob': sparse} if sparse is not None else {}
        self.nn_config = {'shared_part': {'type': 's', 'config': config}, 'b': {'task': 'b'}, 'a': {'task': 'a'},
                          'general': {'optimizer': {'initial_lr': lr, 'lr_decay': decay, 'lr_decrease_factor': factor}}}

    def builder(self, *args, **kwargs):
        self.builders.append(copy.deepcopy((args, kwargs)))
        return Builder(self)

    def train_step(self, model, features, labels):
        self.frozen.append(freeze((features, labels)))
        if self.fail_train == len(self.frozen) - 1:
            raise ZeroDivisionError('training step failed')
        Model.fail_save = self.fail_save == len(self.data.passes)
        return 0.25

    def dev(self, tagger):
        k = len(self.scored)
        Model.log.append(('dev', k))
        self.scored.append(tagger)
        if self.fail_test == k:
            raise ZeroDivisionError('scoring failed')
        a = self.accuracies[k] if self.accuracies else 0.5
        return {'A': Score(0, 0, 0, a / 2), 'Words': Score(1, 1, 1, None), 'B': Score(1, 1, 1, a / 2)}

    def generator(self, dev=True):
        kwargs = {'model_name_format': self.name} if hasattr(self, 'name') else {}
        return nt.NeuralTaggerTrainer().train(self.data, dev_tester=self.dev if dev else None, seed=self.seed, nn_config=self.nn_config,
                                              tasks=['b', 'a'], epochs=self.epochs, dropout=self.dropout, batch_size=self.batch_size,
                                              model_dir=os.path.join(self.root, 'models'), **kwargs)

    def run(self, dev=True, stop=None):
        out = stdio.StringIO()
        with contextlib.redirect_stdout(out):
            g = self.generator(dev)
            try:
                for pair in (g if stop is None else itertools.islice(g, stop)):
                    self.returned.append(pair)
            finally:
                if stop is not None:
                    g.close()
        return self.returned

    def rates(self):
        """expected learning rates"""
        result, lr, seen = [], self.lr, [0, 0, 0, 0, 0]
        for e in range(self.epochs):
            lr = lr / (1 + self.decay * e)
            result.append(lr)
            if self.accuracies:
                a = self.accuracies[e]
                if a <= seen[-1] and a <= sum(seen[-5:]) / 5:
                    lr = lr / self.factor
                seen.append(a)
        return result

    def check(self, epochs=None, dev=True, partial=None):
        """everything the stand-ins saw in `epochs` complete epochs (and `partial` batches of a further one)"""
        ctx = self.ctx
        epochs = self.epochs if epochs is None else epochs
        features, labels, _, initializer = fp.FeatureExtractorBuilderProvider(providers()).build(Data(self.data.documents, self.data.rotate))
        ctx.equal(len(self.builders), 1, 'network builders')
        args, kwargs = self.builders[0]
        ctx.equal((args, kwargs), ((self.nn_config['shared_part'], [{'task': 'b'}, {'task': 'a'}], self.nn_config['general'], self.seed), {}), 'network configuration')
        ctx.equal(self.shapes, [{k: list(v) for k, v in initializer.shapes().items()}], 'shapes given to the network')
        log = [e for e in Model.log if e[0] in ('open', 'initialize', 'train', 'save', 'dev')]
        kinds = [e[0] for e in log]
        ctx.equal(kinds[:2], ['open', 'initialize'], 'start of the training')
        ctx.equal(sorted(log[1][2]), sorted(initializer.initial_values()), 'initial values')
        rates = self.rates()
        queue = list(zip(kinds[2:], log[2:]))
        steps = iter(self.frozen)
        passes = self.data.passes[-(epochs + (partial is not None)):] if epochs + (partial is not None) else []
        done = 0
        for e, order in enumerate(passes):
            sentences = [s for d in order for s in d.sentences]
            batches = [sentences[i:i + self.batch_size] for i in range(0, len(sentences), self.batch_size)]
            if e == epochs:
                batches = batches[:partial]
            for k, batch in enumerate(batches):
                ctx.check(queue and queue[0][0] == 'train', 'epoch {}, batch {}: {} instead of training', e, k, queue[:1])
                queue.pop(0)
                got_features, got_labels = next(steps)
                got_labels = dict(got_labels)
                rate, dropout = got_labels.pop('learning_rate', None), got_labels.pop('dropout_probability', None)
                what = 'epoch {}, batch {}: '.format(e, k)
                ctx.equal(got_features, freeze(features.get_features(batch, sparse_rate=self.sparse or 0)), what + 'features')
                ctx.equal(got_labels, freeze(labels.get_features(batch)), what + 'labels')
                ctx.equal(dropout, self.dropout, what + 'dropout')
                ctx.check(rate is not None and abs(rate - rates[e]) <= 1e-9 * abs(rates[e]), '{}learning rate {}, expected {} after scores {}', what, rate, rates[e], self.accuracies)
                done += 1
            if e < epochs:
                path = os.path.join(self.root, 'models', getattr(self, 'name', 'epoch-{}').format(e))
                ctx.check(queue and queue[0][0] == 'save', 'epoch {} is not followed by saving but by {}', e, queue[:1])
                ctx.equal(os.path.abspath(queue.pop(0)[1][2]), path, 'saved model')
                if dev:
                    ctx.check(queue and queue[0][1] == ('dev', e), 'epoch {} is not followed by scoring but by {}', e, queue[:1])
                    queue.pop(0)
        ctx.equal(queue, [], 'steps after the last epoch')
        return done

    def check_closed(self):
        for m in Model.opened:
            self.ctx.check(m.closed, 'model {} was left open', m.number())


def check_taggers(ctx, world, batches):
    """the tagger of every epoch has its weights"""
    probe = dm.Document('w0x0', [dm.Token(0, 4)], [dm.Sentence(0, 1)])
    for e, (scores, tagger) in enumerate(world.returned):
        weights = []

        def answer(model, features):
            weights.append(model.weights)
            return {'pos': np.array([[[0]]]), 'lemma': np.array([[[0]]])}
        Model.answer = answer
        result = ctx.accepts('tagging after epoch {}'.format(e), lambda: list(tagger.tag(iter([probe]))))
        ctx.equal(result[0].text, 'w0x0', 'text')
        ctx.equal(weights, [(e + 1) * batches], 'training steps of the tagger of epoch {}'.format(e))
        ctx.check(world.scored[e] is tagger, 'the scored tagger of epoch {} is not the returned one', e)
    world.check_closed()


def build(sizes):
    documents, i = [], 0
    for n in sizes:
        documents.append(docs.build(dm, [sentence(i + k) for k in range(n)]))
        i += n
    return documents


def batches(ctx):
    most = 7 if ctx.thorough else 5
    sizes = ctx.pick_seq(range(most + 1), 1, 4 if ctx.thorough else 3, 'sentences of a document')
    if not 0 < sum(sizes) <= most:
        ctx.prune()
    batch_size = ctx.pick(range(1, most + 2), 'batch size')
    rotate = ctx.flag('new order in every epoch')
    dev = ctx.pick((True, True, False)[:2] if rotate else (True, False), 'scored')
    with gen.scratch() as root:
        world = World(ctx, root, Data(build(sizes), rotate), 3 if ctx.thorough else 2, batch_size)
        ctx.accepts('training', world.run, dev)
        world.check(dev=dev)
        ctx.equal(len(world.returned), world.epochs if dev else 0, 'results')
        if dev:
            check_taggers(ctx, world, -(-sum(sizes) // batch_size))
        world.check_closed()
    ctx.state(sizes, batch_size, rotate, dev)


def schedule(ctx):
    count = ctx.pick((8, 4) if ctx.thorough else (6, 4), 'epochs')
    accuracies = [ctx.pick((0.25, 0.5, 0.0), 'summed accuracy') for _ in range(count)]
    decay, factor = (0.0, 2.0), (0.25, 1.0)
    if count == 4:
        decay, factor = ctx.pick((0.0, 0.5), 'decay'), ctx.pick((2.0, 1.0, 0.5), 'decrease factor')
    else:
        decay, factor = 0.0, 2.0
    with gen.scratch() as root:
        world = World(ctx, root, Data(build([1])), count, 2, accuracies, lr=0.5, decay=decay, factor=factor)
        ctx.accepts('training', world.run)
        world.check()
        ctx.equal([s['A'].aligned_accuracy * 2 for s, _ in world.returned], accuracies, 'returned scores')
    ctx.state(accuracies, decay, factor)


def settings(ctx):
    with gen.scratch() as root:
        world = World(ctx, root, Data(build([2, 1])), ctx.pick((1, 3), 'epochs'), 2, dropout=ctx.pick((0.0, 0.5, 1), 'dropout'), sparse=ctx.pick((None, 0, 1), 'sparsity'),
                      lr=ctx.pick((0.001, 1), 'learning rate'), seed=ctx.pick((0, 7), 'seed'))
        if ctx.flag('other names'):
            world.name = 'model {} !'
        ctx.accepts('training', world.run)
        world.check()
        check_taggers(ctx, world, 2)
    ctx.state(world.dropout, world.sparse, world.lr, world.seed)


def faults(ctx):
    sizes = ctx.pick(([2, 1], [3], [1, 0, 2]), 'documents')
    total, batch_size, epochs = sum(sizes), ctx.pick((1, 2), 'batch size'), 2
    per = -(-total // batch_size)
    with gen.scratch() as root:
        world = World(ctx, root, Data(build(sizes)), epochs, batch_size)
        kind = ctx.pick(('abandoned', 'step', 'save', 'scoring', 'data'), 'fault')
        if kind == 'abandoned':
            stop = ctx.pick(range(epochs + 1), 'results taken')
            ctx.accepts('training', world.run, True, stop)
            if stop:
                # the generator may only go on when asked for the next result
                world.check(stop)
            ctx.equal(len(world.returned), stop, 'results')
        else:
            passes = 0
            if kind == 'step':
                at = world.fail_train = ctx.pick(range(epochs * per), 'failing step')
                complete, partial = at // per, at % per + 1
            elif kind == 'scoring':
                at = world.fail_test = ctx.pick(range(epochs), 'failing scoring')
                complete, partial = at + 1, None
            elif kind == 'save':
                probe = World(ctx, root, Data(build(sizes)), 1, 100)
                with gen.scratch() as other:
                    probe.root = other
                    probe.run()
                passes = len(probe.data.passes) - 1
                world = World(ctx, root, Data(build(sizes)), epochs, batch_size)
                at = ctx.pick(range(epochs), 'failing save')
                world.fail_save = passes + at + 1
                complete, partial = at, per
            else:
                world.data.fail = ctx.pick([(k, i) for k in range(6) for i in range(len(sizes) + 1)], 'failing document')
                complete = None
            try:
                world.run()
                if kind != 'data':
                    ctx.fail('the failure was swallowed')
                if len(world.data.passes) > world.data.fail[0]:
                    ctx.fail('the failure of the data source was swallowed')
            except (ZeroDivisionError, OSError):
                pass
            if complete is not None:
                ctx.equal(len(world.returned), complete - (kind == 'scoring'), 'results before the failure')
                world.check(complete, partial=partial)
        world.check_closed()
        Model.fail_save = False
        world.fail_train = None
        # what was returned before stays usable
        check_taggers(ctx, world, per)
    ctx.state(sizes, batch_size, kind, [e[0] for e in Model.log])


def scale(ctx):
    count, batch_size, epochs = ctx.pick(((60, 7, 2), (60, 60, 2), (60, 59, 2), (2, 1, 25), (100, 32, 1)), 'size')
    documents = [docs.build(dm, [sentence(i, 1 + i * 7 % 20) for i in range(k, min(k + 9, count))]) for k in range(0, count, 9)]
    with gen.scratch() as root:
        accuracies = [(e * 5 % 7) / 8 for e in range(epochs)]
        world = World(ctx, root, Data(documents, True), epochs, batch_size, accuracies, decay=0.01)
        ctx.accepts('training', world.run)
        world.check()
        check_taggers(ctx, world, -(-count // batch_size))
    ctx.state(count, batch_size, epochs)


SCENARIOS = {'batches': batches, 'schedule': schedule, 'settings': settings, 'faults': faults, 'scale': scale}
