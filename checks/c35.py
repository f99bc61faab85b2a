"""C35 A saved neural model predicts and trains exactly as before"""
import itertools
import os
import shutil

import numpy as np

from mc import gen, nets, tf1

TIMEOUT = 120
BOUNDS = {
    'quick': 'all sequences of 3 operations (after initialization and one training step) out of train on 2 batches, save, load by path or loader, move the '
             'directory, initialize again and close, on up to 3 models, 2 optimizers; 1, 2, 6 or 9 saves of one model (or of models loaded one from another) in places of 3 kinds; all histories of 4 operations (save, train, open, load, copy the folder) on taggers saved in two folders, all tagging after each; all orders and subsets of rows of a 4-row matrix; 14 networks of the builders with '
             '0..2 training steps before and after saving and 3 optimizers; every file of a saved model missing, empty, from another save (all 2^n mixtures) or '
             'cut at every 8th of its length and at each of its last bytes, the mapping at every length',
    'thorough': 'sequences of 4 operations, also of taggers; files cut at every 64th',
}
ASSUMPTIONS = ['TensorFlow executes deterministically with one thread; float32 results are compared with a tolerance of 1e-5',
               'crashes while saving are explored as mixtures and prefixes of the written files']
ROWS, SIZE = 4, 2
WIDE = [{'size': 3, 'count': 24, 'dilation': 1}, {'size': 2, 'count': 24, 'dilation': 2}]       # some units are alive for every input


def load(thorough):
    global tf, nm, nn, nu, nt
    nets.load()
    tf, nm = nets.tf, nets.nm
    import babylondigger.neural.network as nn
    import babylondigger.neural.utils as nu
    import babylondigger.neural.tagger.neural_tagger as nt


# ------------------------------------------------------------------ reference
class Weights(object):
    """the network of `tiny` in numpy, with its optimizer"""

    def __init__(self, optimizer):
        self.optimizer = optimizer
        self.matrix = np.array([[.1 * (i + 1), -.2 * (j + 1)] for i in range(ROWS) for j in range(1)], np.float64)
        self.vector = np.array([1., .5])
        self.slots = [np.zeros_like(self.matrix), np.zeros_like(self.matrix), np.zeros(SIZE), np.zeros(SIZE)]
        self.steps = 0

    def copy(self):
        other = Weights(self.optimizer)
        other.matrix, other.vector, other.steps = self.matrix.copy(), self.vector.copy(), self.steps
        other.slots = [s.copy() for s in self.slots]
        return other

    def predict(self, ids):
        return self.matrix[ids] @ self.vector

    def train(self, ids, gold, rate):
        error = self.predict(ids) - gold
        loss = float((error ** 2).sum())
        dm, dv = np.zeros_like(self.matrix), np.zeros(SIZE)
        for i, e in zip(ids, error):
            dm[i] += 2 * e * self.vector
            dv += 2 * e * self.matrix[i]
        if self.optimizer == 'GD':
            self.matrix -= rate * dm
            self.vector -= rate * dv
        else:
            self.steps += 1
            alpha = rate * np.sqrt(1 - .999 ** self.steps) / (1 - .9 ** self.steps)
            for value, gradient, k in ((self.matrix, dm, 0), (self.vector, dv, 2)):
                self.slots[k] = .9 * self.slots[k] + .1 * gradient
                self.slots[k + 1] = .999 * self.slots[k + 1] + .001 * gradient ** 2
                value -= alpha * self.slots[k] / (np.sqrt(self.slots[k + 1]) + 1e-8)
        return loss


def tiny(optimizer):
    """a network with a matrix that is initialized by rows"""
    graph = tf.Graph()
    with graph.as_default():
        start = Weights(optimizer)
        matrix = tf.get_variable('m', initializer=start.matrix.astype(np.float32))
        vector = tf.get_variable('v', initializer=start.vector.astype(np.float32))
        ids, gold = tf.placeholder(tf.int32, [None]), tf.placeholder(tf.float32, [None])
        rate = tf.placeholder(tf.float32, [])
        output = tf.linalg.matvec(tf.nn.embedding_lookup(matrix, ids), vector)
        loss = tf.reduce_sum(tf.square(output - gold))
        step = {'GD': tf.train.GradientDescentOptimizer, 'Adam': tf.train.AdamOptimizer}[optimizer](rate).minimize(loss)
        return nn.NeuralNetwork({'ids': ids}, {'score': output, 'copy': tf.identity(ids)}, {'gold': gold, 'rate': rate}, step, loss,
                                [nu.global_variables_initializer(), nu.matrix_initializer('rows', matrix)]), graph


BATCHES = {'a': ([0, 2], [1., -1.], .1), 'b': ([3, 3], [.5, 0.], .05)}
ALL = list(range(ROWS))
VECTORS = [(0, [0., 0.]), (2, [3., -1.])]
networks = {}


def network(optimizer):
    """every save adds operations to the graph: it is not used for too long"""
    uses = networks.setdefault(optimizer, [None, 0])
    if uses[1] % 8 == 0:
        uses[0] = tiny(optimizer)
    uses[1] += 1
    return uses[0]


def near(a, b):
    return np.allclose(a, b, rtol=1e-5, atol=1e-5)


class World(object):
    def __init__(self, ctx, optimizer, folder):
        self.ctx, self.optimizer, self.folder = ctx, optimizer, folder
        self.models = []            # (model, weights or None if closed, session)
        self.saved = None           # (weights, path, loader or None)
        self.moves = 0
        self.first = len(tf1.sessions)
        net, graph = network(optimizer)
        self.add(ctx.accepts('opening', nm.Model.new, net, graph), Weights(optimizer))
        ctx.cleanups.append(self.close)

    def add(self, model, weights):
        self.models.append([model, weights, tf1.sessions[-1]])

    def close(self):
        for s in tf1.sessions[self.first:]:
            if not s.closings:
                s.close()
        del tf1.sessions[self.first:]

    def initialize(self, k, rows=VECTORS):
        w = Weights(self.optimizer)
        for i, v in rows:
            w.matrix[i] = v
        self.ctx.accepts('initializing', self.models[k][0].initialize, rows=rows, unused=[(1, [5.])])
        self.models[k][1] = w

    def train(self, k, batch):
        ids, gold, rate = BATCHES[batch]
        loss = self.ctx.accepts('training', self.models[k][0].train, {'ids': ids}, {'gold': gold, 'rate': rate})
        want = self.models[k][1].train(ids, gold, rate)
        self.ctx.check(near(loss, want), 'loss {} instead of {} of model {}', loss, want, k)

    def verify(self):
        for k, (model, weights, session) in enumerate(self.models):
            if weights is None:
                self.ctx.check(session.closings > 0, 'model {} is closed, its session is not', k)
                self.ctx.rejects('predicting with a closed model', model.predict, {'ids': ALL})
                continue
            self.ctx.check(not session.closings, 'the session of model {} is closed', k)
            got = self.ctx.accepts('predicting', model.predict, {'ids': ALL})
            self.ctx.equal(sorted(got), ['copy', 'score'], 'names of predictions')
            self.ctx.check(near(got['score'], weights.predict(ALL)) and list(got['copy']) == ALL, 'model {} predicts {} instead of {}', k, got, weights.predict(ALL))

    def operations(self):
        result = []
        live = [k for k, m in enumerate(self.models) if m[1] is not None]
        for k in live:
            result += [('train', k, 'a'), ('train', k, 'b'), ('save', k), ('close', k), ('initialize', k)]
        if self.saved is not None:
            if len(self.models) < 3:
                result.append(('load', None))
                if self.saved[2] is not None:
                    result.append(('loader', None))
            result.append(('move', None))
        return result

    def run(self, operation):
        kind, k = operation[:2]
        if kind == 'train':
            self.train(k, operation[2])
        elif kind == 'initialize':
            self.initialize(k)
        elif kind == 'close':
            self.models[k][0].close()
            self.models[k][1] = None
        elif kind == 'save':
            path = self.saved[1] if self.saved else os.path.join(self.folder, 'model')
            os.makedirs(path, exist_ok=True)
            loader = self.ctx.accepts('saving', self.models[k][0].save, path)
            self.saved = (self.models[k][1].copy(), path, loader)
        elif kind == 'move':
            self.moves += 1
            path = os.path.join(self.folder, 'moved', str(self.moves))
            os.makedirs(os.path.dirname(path), exist_ok=True)
            shutil.move(self.saved[1], path)
            self.saved = (self.saved[0], path, None)
        else:
            weights, path, loader = self.saved
            model = self.ctx.accepts('loading', loader) if kind == 'loader' else self.ctx.accepts('loading', nm.Model.load, path)
            self.add(model, weights.copy())


def histories(ctx):
    optimizer = ctx.pick(('GD', 'Adam'), 'optimizer')
    with gen.scratch() as folder:
        world = World(ctx, optimizer, folder)
        world.initialize(0)
        world.train(0, 'a')
        for _ in range(4 if ctx.thorough else 3):
            operation = ctx.pick(world.operations() or [None], 'operation')
            if operation is None:
                break
            world.run(operation)
            world.verify()
        ctx.state(optimizer, [None if m[1] is None else m[1].matrix.round(3).tolist() for m in world.models])


def chains(ctx):
    """save, load, train and save again"""
    optimizer = ctx.pick(('GD', 'Adam'), 'optimizer')
    with gen.scratch() as folder:
        world = World(ctx, optimizer, folder)
        world.initialize(0)
        for k in range(3 if ctx.thorough else 2):
            for _ in range(ctx.pick(3, 'steps')):
                world.train(k, ctx.pick('ab', 'batch') if k == 0 else 'b')
            world.run(('save', k))
            if ctx.flag('close'):
                world.run(('close', k))
            if ctx.flag('move'):
                world.run(('move', None))
            world.run(('load', None))
            world.verify()
        with world.models[-1][0] as entered:
            ctx.check(entered is world.models[-1][0], 'entering')
            world.verify()
        world.models[-1][1] = None
        world.verify()
        ctx.state(optimizer, world.saved[0].matrix.round(3).tolist())


def rows(ctx):
    """initial vectors are put exactly in the rows of their ids, before and after loading"""
    chosen = ctx.pick_perm(ctx.pick([c for n in range(1, ROWS + 1) for c in itertools.combinations(ALL, n)], 'rows'), 'order')
    vectors = [(i, [10. + i, -1. - i]) for i in chosen]
    container = ctx.pick((list, tuple, iter), 'container')
    loaded = ctx.flag('loaded')
    with gen.scratch() as folder:
        world = World(ctx, 'GD', folder)
        if loaded:
            world.initialize(0)
            world.run(('save', 0))
            world.run(('load', None))
        k = len(world.models) - 1
        w = Weights('GD')
        for i, v in vectors:
            w.matrix[i] = v
        ctx.accepts('initializing', world.models[k][0].initialize, rows=container(vectors))
        world.models[k][1] = w
        world.verify()
        world.train(k, 'a')
        world.train(k, 'b')
        world.verify()
        ctx.state(chosen, loaded)


def many(ctx):
    """one model saved into many places with training between: every place keeps what was saved there, however many come later"""
    optimizer = ctx.pick(('GD', 'Adam'), 'optimizer')
    number = ctx.pick((1, 2, 6, 9) if not ctx.thorough else tuple(range(1, 16)) + (21, 30), 'saves')
    batches = ctx.pick(('a', 'ab', 'aab'), 'batches')
    reloading = ctx.flag('saved by a model loaded from the previous save')
    places = ctx.pick(('numbered', 'nested', 'prefixes'), 'places')
    with gen.scratch() as folder:
        world = World(ctx, optimizer, folder)
        world.initialize(0)
        saves, files = [], []
        for i in range(number):
            path = os.path.join(folder, {'numbered': str(i), 'nested': os.path.join(*['in'] * (i + 1)), 'prefixes': 'x' * (i + 1)}[places])
            os.makedirs(path)
            world.train(len(world.models) - 1, batches[i % len(batches)])
            loader = ctx.accepts('saving', world.models[-1][0].save, path)
            saves.append((path, loader, world.models[-1][1].copy()))
            files.append(read(path))
            if reloading and i + 1 < number:
                world.models[-1][0].close()
                world.models[-1][1] = None
                world.add(ctx.accepts('loading', nm.Model.load, path), saves[-1][2].copy())
        for (path, loader, weights), content in zip(saves, files):
            ctx.equal(sorted(read(path)), sorted(content), 'files of a save after {} saves'.format(number))
            ctx.check(read(path) == content, 'the files of a save change with later saves')
        for i, (path, loader, weights) in list(enumerate(saves))[::-1]:
            with ctx.accepts('loading save {} of {}'.format(i, number), nm.Model.load, path) if i % 2 else ctx.accepts('loading save {} of {}'.format(i, number), loader) as model:
                got = model.predict({'ids': ALL})['score']
                ctx.check(near(got, weights.predict(ALL)), 'save {} of {} predicts {} instead of {}', i, number, got, weights.predict(ALL))
        ctx.state(optimizer, number, batches, reloading, places)


# ------------------------------------------------------------ saved taggers
class Features(object):
    def get_features(self, sentences):
        return {'ids': ALL}


class Interpreter(object):
    def __init__(self, name):
        self.name = name

    def interpret(self, sentences, prediction):
        scores = ' '.join('{:.6f}'.format(float(x)) for x in prediction['score'])
        return [[t.with_morphology(t, pos=None, lemma='{} {}'.format(self.name, scores)) for t in s] for s in sentences]


def taggers(ctx):
    """a saved tagger predicts as the model last saved in its folder did then, whatever was loaded from there before, and leaves no session open"""
    from babylondigger.datamodel import Document, Token
    document = Document('a b', [Token(0, 1), Token(2, 3)])
    with gen.scratch() as folder:
        world = World(ctx, 'GD', folder)
        world.initialize(0)
        paths = [os.path.join(folder, 'x'), os.path.join(folder, 'y', 'z')]
        saved, lazy, old = {}, [], []

        def read_all():
            for path, tagger in lazy:
                first = len(tf1.sessions)
                got = [t.lemma for d in ctx.accepts('tagging', lambda: list(tagger.tag(iter([document, document])))) for t in d.tokens]
                ctx.check(all(s.closings for s in tf1.sessions[first:]), 'a tagger left its session open')
                name, weights = saved[path]
                ctx.check(len(got) == 4 and len(set(got)) == 1 and got[0].split()[0] == name and near([float(x) for x in got[0].split()[1:]], weights.predict(ALL)),
                          'tagger {}: {}, saved there was {} with {}', os.path.basename(path), got, name, weights.predict(ALL))
            for tagger, name, weights in old:
                got = [t.lemma for d in ctx.accepts('tagging', lambda: list(tagger.tag(iter([document])))) for t in d.tokens]
                ctx.check(got[0].split()[0] == name and near([float(x) for x in got[0].split()[1:]], weights.predict(ALL)), 'loaded tagger: {}', got)

        steps = 5 if ctx.thorough else 4
        for step in range(steps):
            operations = [('save', p) for p in paths] + [('train', 'a'), ('train', 'b')]
            operations += [(o, p) for p in saved for o in ('open', 'load')]
            if len(saved) == 2:
                operations.append(('copy', None))
            kind, what = ctx.pick(operations, 'operation') if step else ('save', paths[0])
            if kind == 'train':
                world.train(0, what)
            elif kind == 'save':
                name = 'save{}'.format(step)
                lazy.append((what, ctx.accepts('saving', nt.NeuralTagger(Features(), world.models[0][0], Interpreter(name)).save, what)))
                saved[what] = (name, world.models[0][1].copy())
            elif kind == 'open':
                lazy.append((what, nt.LazyNeuralTagger(what)))
            elif kind == 'load':
                tagger = ctx.accepts('loading', nt.NeuralTagger.load, what)
                old.append((tagger,) + saved[what])
            else:
                shutil.rmtree(paths[0])
                shutil.copytree(paths[1], paths[0])
                saved[paths[0]] = saved[paths[1]]
            read_all()
        for tagger, _, _ in old:
            tagger.close()
        read_last = [s for s in tf1.sessions[world.first + 1:] if not s.closings]
        ctx.check(not read_last, 'sessions of closed taggers are open')
        del old[:]
        world.train(0, 'a')
        read_all()
        ctx.state([k for k, _ in lazy], sorted((os.path.basename(p), n, w.matrix.round(3).tolist()) for p, (n, w) in saved.items()))


# ------------------------------------------------------------- damaged saves
contents = []


def saved_pair(ctx):
    """files of two saves of the same model, and its weights then"""
    if not contents:
        with gen.scratch() as folder:
            world = World(ctx, 'Adam', folder)
            world.initialize(0)
            for _ in range(2):
                world.train(0, 'a')
                path = os.path.join(folder, 'model')
                os.makedirs(path)
                ctx.accepts('saving', world.models[0][0].save, path)
                contents.append((read(path), world.models[0][1].copy()))
                shutil.rmtree(path)
            world.close()
    return contents


def read(folder):
    result = {}
    for name in sorted(os.listdir(folder)):
        if os.path.isfile(os.path.join(folder, name)):
            with open(os.path.join(folder, name), 'rb') as f:
                result[name] = f.read()
    return result


def write(folder, files):
    for name in os.listdir(folder):
        os.remove(os.path.join(folder, name))
    for name, content in files.items():
        if content is not None:
            with open(os.path.join(folder, name), 'wb') as f:
                f.write(content)


def attempt(ctx, path, allowed, what):
    """loading fails, with its session closed, or gives one of the allowed models"""
    first = len(tf1.sessions)
    try:
        model = nm.Model.load(path)
    except Exception:
        ctx.check(all(s.closings for s in tf1.sessions[first:]), 'loading failed ({}), its session was left open', what)
        return False
    got = model.predict({'ids': ALL})['score']
    same = [w for w in allowed if near(got, w.predict(ALL))]
    ctx.check(same, 'loaded from {}: predicts {}, saved were {}', what, got, [w.predict(ALL) for w in allowed])
    w = same[0].copy()
    loss = model.train({'ids': [1]}, {'gold': [2.], 'rate': .1})
    ctx.check(near(loss, w.train([1], [2.], .1)), 'loss of a model loaded from {}', what)
    model.close()
    return True


def mixtures(ctx):
    (old, w_old), (new, w_new) = saved_pair(ctx)
    chosen = {n: ctx.pick([v for v in ('old', 'new', None) if v != 'old' or n in old], n) for n in sorted(set(old) | set(new))}
    with gen.scratch() as folder:
        write(folder, {n: {'old': old.get(n), 'new': new.get(n), None: None}[v] for n, v in chosen.items()})
        kinds = set(chosen.values())
        if kinds in ({'old'}, {'new'}):
            ctx.accepts('loading', nm.Model.load, folder).close()
        loaded = attempt(ctx, folder, [w_old, w_new], chosen)
        if not loaded:
            write(folder, new)
            ctx.check(attempt(ctx, folder, [w_new], 'repaired'), 'a model cannot be saved over a damaged one')
        ctx.state(chosen, loaded)


def cuts(ctx):
    _, (new, w_new) = saved_pair(ctx)
    name = ctx.pick(sorted(new), 'file')
    content = new[name]
    size = len(content)
    parts = 64 if ctx.thorough else 8
    if name == 'mapping':
        lengths = list(range(0, size, 1 if ctx.thorough else 4))
    else:
        lengths = sorted({size * k // parts for k in range(parts)} | {max(size - k, 0) for k in (1, 2, 3, 4, 8, 48, 49)})
    length = ctx.pick(lengths, 'length')
    with gen.scratch() as folder:
        write(folder, dict(new, **{name: content[:length]}))
        loaded = attempt(ctx, folder, [w_new], '{} cut at {} of {}'.format(name, length, size))
        ctx.state(name, length, loaded)


# ------------------------------------------------------------- real networks
REAL = [('words', ('pos',)), ('words', ('lemma',)), ('words', ('suffix weight',)), ('words', ('binary',)), ('words', ('combo',)), ('bilstm', ('pos weights', 'suffix')),
        ('bilstm cnn', ('pos',)), ('dilated sum', ('pos', 'binary')), ('bilstm2 concat', ('combo', 'pos')), ('bilstm sum', ('lemma', 'suffix'))]
references = {}


def batch(net, which):
    parts = net.parts
    zero = (0,) * len(parts)
    one = tuple(1 % p[3] for p in parts)
    sentences = {'a': [[(1, 7, zero), (3, 7, one)], [(2, 7, one)]], 'b': [[(4, 3, one)], [(5, 6, one)]]}[which]
    features, labels = net.arrays(sentences, (0, 0, zero))
    labels['learning_rate'] = .1
    return features, labels


def equal(ctx, got, want, what):
    ctx.equal(sorted(got), sorted(want), 'names of predictions')
    for name in want:
        ctx.check(got[name].shape == want[name].shape and (got[name] == want[name]).all(), '{}: {} {} instead of {}', what, name, got[name], want[name])


def real(ctx):
    shared, tasks = ctx.pick(REAL, 'network')
    optimizer = ctx.pick(('GD', 'Adam', 'RMSProp'), 'optimizer') if tasks == ('pos',) else 'Adam'
    net = ctx.accepts('building', nets.Net.get, shared, tasks, optimizer)
    before, after = ctx.pick(((0, 1), (1, 2), (2, 1)), 'steps')
    net.set('initial')
    net.current = None
    model = net.model
    first = len(tf1.sessions)
    try:
        for _ in range(before):
            model.train(*batch(net, 'a'))
        weights = net.values()
        predictions = [model.predict(batch(net, b)[0]) for b in 'ab']
        with gen.scratch() as folder:
            loader = ctx.accepts('saving', model.save, folder)
            now = net.values()
            ctx.check(all((weights[n] == now[n]).all() for n in weights) and len(now) == len(weights), 'saving changed the weights')
            for b, p in zip('ab', predictions):
                equal(ctx, model.predict(batch(net, b)[0]), p, 'predictions after saving')
            losses = [model.train(*batch(net, 'b')) for _ in range(after)]
            final = [model.predict(batch(net, b)[0]) for b in 'ab']
            copy = ctx.accepts('loading', loader)
            session = tf1.sessions[-1]
        loaded = dict(zip([v.name for v in session.graph.get_collection('variables')], session.run(session.graph.get_collection('variables'))))
        ctx.check(sorted(loaded) == sorted(weights) and all((weights[n] == loaded[n]).all() for n in weights), 'loaded weights differ from the saved ones')
        for b, p in zip('ab', predictions):
            equal(ctx, copy.predict(batch(net, b)[0]), p, 'predictions of the loaded model')
        again = [copy.train(*batch(net, 'b')) for _ in range(after)]
        ctx.check(np.allclose(losses, again, rtol=1e-5), 'losses {} of the loaded model, {} of the original', again, losses)
        for b, p in zip('ab', final):
            equal(ctx, copy.predict(batch(net, b)[0]), p, 'predictions of the loaded model after training')
        ctx.check(losses[0] != 0 and (before == 0 or after < 2 or losses[1] < losses[0] or optimizer != 'GD'), 'losses {}', losses)
        ctx.accepts('initializing', copy.initialize)
        copy.close()
        ctx.state(shared, tasks, optimizer, before, after, [round(float(x), 3) for x in losses])
    finally:
        for s in tf1.sessions[first:]:
            if not s.closings:
                s.close()
        del tf1.sessions[first:]


# -------------------------------------------------------- pretrained vectors
def pretrained(ctx):
    """vectors given to the networks of the builders: rows, trainability and their survival of saving"""
    kind = ctx.pick(('words', 'dense words', 'characters', 'combo'), 'feature')
    trainable = ctx.flag('trainable')
    rows_, size = 5, 4
    task = {'builder': 'pos_dense', 'config': {'shared_name': 'word_features', 'dense_size': 16, 'splitting': 'pos_joint'}}
    subwords = {'embedding_path': '/nowhere', 'segmenter': 'char', 'trainable': trainable, 'min_frequency': 1}
    shapes = {'pos_labels': {'POS': 3}}
    features, labels = {'sentences_lengths': [2]}, {'learning_rate': .5, 'pos_labels': [[[1], [2]]]}
    if kind in ('words', 'dense words'):
        config = {'word_embedding': {'path': '/nowhere', 'trainable': trainable, 'lowercase': False}}
        if kind == 'dense words':
            config['word_embedding']['we_dense_size'] = 16
        name, features['words'] = 'word_embeddings', [[2, 3]]
    elif kind == 'characters':
        aggregator = ctx.pick(('rnn', 'cnn', 'average', 'self-attention'), 'aggregator')
        config = {'word_characters': dict(subwords, aggregator=aggregator, highway_layer=ctx.flag('highway'))}
        config['word_characters']['aggregator_config'] = {'rnn': {'lstm_cell_size': 2, 'bilstm_layer_count': 1},
                                                          'cnn': {'cnn_kernels': WIDE}}.get(aggregator, {})
        name, features['characters'] = 'characters', [[[2, 3, 0], [3, 4, 2]]]
    else:
        if not trainable:
            ctx.prune()     # the vectors of characters of lemmas are always trained
        config = nets.WORDS
        shapes['trained_words'] = [3, None]
        features['trained_words'] = [[1, 2]]
        task = {'builder': 'lemma_combo', 'config': {'shared_name': 'word_features', 'cnn_bilstm_dense_size': 2, 'cnn_kernels': WIDE, 'loss_weights': {'LEMMA': 1}},
                'features_config': {'input_subwords': dict(subwords, embed_size=size), 'output_subwords': {'max_word_length': 2, 'segmenter': 'char', 'min_frequency': 1}}}
        shapes = dict(shapes, output_subwords=[4, 2])
        name, features['input_subwords'] = 'input_subwords', [[[2, 3, 0], [3, 4, 2]]]
        labels = {'learning_rate': .5, 'output_subwords': [[[1, 2], [3, 1]]]}
    shapes[name] = [rows_, size]
    builder = nets.provider.get_nn_builder({'builder': 'WE_charCNN', 'config': {}, 'features_config': config}, [task], {'optimizer': {'type': 'GD'}}, 1)
    first = len(tf1.sessions)
    try:
        model = nm.Model.new(*ctx.accepts('building', builder.build, shapes))
        session = tf1.sessions[-1]

        def matrices(session):
            variables = [v for v in session.graph.get_collection('variables') if v.shape.as_list() == [rows_, size]]
            return dict(zip([v.name for v in variables], session.run(variables)))

        given = ctx.pick(((0, 2, 3, 4), (4, 3, 2, 0), (0, 3), (0,)), 'rows')
        vectors = [(i, [i + .25, -.5 * i, 2. + i, .5] if i else [0.] * size) for i in given]
        ctx.accepts('initializing', model.initialize, **{name: vectors})
        found = [n for n, m in matrices(session).items() if all((m[i] == np.array(v, np.float32)).all() for i, v in vectors)]
        ctx.equal(len(found), 1, 'matrices with the given vectors')
        matrix = matrices(session)[found[0]]
        bound = (3 / size) ** .5
        ctx.check(all((abs(matrix[i]) <= bound).all() and matrix[i].any() for i in range(rows_) if i not in given), 'rows without given vectors: {}', matrix)
        for _ in range(2):
            model.train(features, labels)
        trained = matrices(session)[found[0]]
        ctx.check((trained[1] == matrix[1]).all(), 'the row of an id that was not used was trained')
        ctx.equal(bool((trained != matrix).any()), trainable, 'trained vectors')
        before = model.predict(features)
        with gen.scratch() as folder:
            copy = ctx.accepts('loading', ctx.accepts('saving', model.save, folder))
        equal(ctx, copy.predict(features), before, 'predictions of the loaded model')
        loaded = matrices(tf1.sessions[-1])
        ctx.check((loaded[found[0]] == trained).all(), 'vectors of the loaded model')
        ctx.accepts('initializing', copy.initialize, **{name: vectors})
        again = matrices(tf1.sessions[-1])[found[0]]
        ctx.check(all((again[i] == np.array(v, np.float32)).all() for i, v in vectors), 'vectors given to the loaded model')
        ctx.state(kind, trainable, given, matrix.round(3).tolist())
    finally:
        for s in tf1.sessions[first:]:
            if not s.closings:
                s.close()
        del tf1.sessions[first:]


SCENARIOS = {'histories': histories, 'taggers': taggers, 'chains': chains, 'many': many, 'rows': rows, 'mixtures': mixtures, 'cuts': cuts, 'real networks': real, 'pretrained': pretrained}
SPLIT = {'real networks': 1}       # by network, so that every process builds few of them
