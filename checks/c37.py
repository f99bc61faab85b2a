"""C37 Neural layers compute what the configuration describes"""
import itertools

import numpy as np

from mc import layers, nets, tf1

TIMEOUT = 120
BOUNDS = {
    'quick': 'subword features: 4 aggregators (recurrent ones with 1 and 2 layers, convolutions with 1-3 layers) x highway x trained/given embeddings, all pairs of words of '
             '<=3 subwords over 3 ids; 8 combinations of features; 18 sentence-level parts (layers, skip connections, convolutions) on all sentences of <=4 words over 3 '
             'ids next to 3 other sentences; 13 configurations of the 5 task builders x all words, masks and labels of 2 tokens; one training step of 10 networks with 3 '
             'optimizers against numeric gradients, below and above the clipping norm; sentences and words of up to 60',
    'thorough': 'words of <=4 subwords, two more sets of weights',
}
ASSUMPTIONS = ['float32 arithmetic on the CPU: compared with a tolerance of 2e-4',
               'TensorFlow 1 functions removed from the installed TensorFlow 2 (dense, dropout, LSTMCell) are replaced by mc/tf1.py']
TOLERANCE = 2e-4


def load(thorough):
    global tf, nm, nn, sb, tb, PROBE, CLASSES, TASKS
    nets.load()
    tf, nm = nets.tf, nets.nm
    import babylondigger.neural.network as nn
    import babylondigger.neural.tagger.shared_builders as sb
    import babylondigger.neural.tagger.task_builders as tb

    class Probe(nn.AbstractTaskNetworkBuilder):
        """a task whose outputs are the outputs of the shared part"""

        def gold(self, shapes):
            return {}

        def build(self, shapes, inputs, shared, gold, dropout):
            tensors = {k: v for k, v in shared.items()}
            # every variable gets a gradient
            return {k: tf.identity(v) for k, v in tensors.items()}, tf.add_n([tf.reduce_sum(v) for k, v in tensors.items()])
    PROBE = Probe
    CLASSES = {'WE_charCNN': sb.WECharCNNSharedNetworkBuilder, 'BiLSTM': sb.CharCNNBiLSTMSharedNetworkBuilder,
               'BiLSTM_CNN': sb.CharCNNBiLSTMCNNSharedNetworkBuilder, 'Dilated_CNN': sb.DilatedCNNSharedNetworkBuilder}
    TASKS = {'pos_dense': tb.PosDenseTaskNetworkBuilder, 'lemma_dense': tb.LemmaDenseTaskNetworkBuilder, 'lemma_suffix': tb.LemmaSuffixTaskNetworkBuilder,
             'lemma_binary': tb.LemmaSuffixBinaryTaskNetworkBuilder, 'lemma_combo': tb.LemmaCOMBOTaskNetworkBuilder}


# ------------------------------------------------------------ configurations
def conv(*triples):
    return [{'size': s, 'count': c, 'dilation': d} for s, c, d in triples]


def trained(size):
    return {'size': size, 'trainable': True, 'min_frequency': 1, 'lowercase': False}


def given(size=None, trainable=False):
    result = {'path': '/nowhere', 'trainable': trainable, 'lowercase': False}
    if size is not None:
        result['we_dense_size'] = size
    return result


def sub(aggregator, highway=False, pretrained=False, **extra):
    result = {'segmenter': 'char', 'embed_size': 3, 'min_frequency': 1, 'trainable': True, 'aggregator': aggregator, 'highway_layer': highway}
    if extra:
        result['aggregator_config'] = extra
    if pretrained:
        result['embedding_path'] = '/nowhere'
    return result


RNN1, RNN2 = dict(lstm_cell_size=2, bilstm_layer_count=1), dict(lstm_cell_size=2, bilstm_layer_count=2)
CNN1, CNN2 = dict(cnn_kernels=conv((2, 4, 1))), dict(cnn_kernels=conv((3, 4, 1), (2, 5, 2)))
CNN3 = dict(cnn_kernels=conv((1, 4, 1), (3, 2, 2), (4, 5, 1)))
SUBWORD = [sub('average'), sub('average', True), sub('average', True, True), sub('self-attention'), sub('self-attention', True), sub('self-attention', False, True),
           sub('rnn', **RNN1), sub('rnn', True, **RNN1), sub('rnn', **RNN2), sub('rnn', True, True, **RNN2), sub('cnn', **CNN1), sub('cnn', True, **CNN1),
           sub('cnn', **CNN2), sub('cnn', **CNN3), sub('cnn', True, True, **CNN2)]
COMBINED = [
    {'word_trained_embedding': trained(3)}, {'word_embedding': given(trainable=True)}, {'word_embedding': given(4)},
    {'word_embedding': given(2), 'word_trained_embedding': trained(3)},
    {'word_trained_embedding': trained(2), 'word_characters': sub('average')},
    {'word_characters': sub('cnn', True, **CNN1), 'bpe_subwords': dict(sub('rnn', **RNN1), embed_size=2)},
    {'bpe_subwords': sub('average'), 'morfessor_subwords': dict(sub('average', True), embed_size=2)},
    {'word_embedding': given(), 'word_trained_embedding': trained(5), 'word_characters': sub('average'), 'bpe_subwords': dict(sub('cnn', **CNN1), embed_size=4),
     'morfessor_subwords': dict(sub('self-attention'), embed_size=2)},
]
WORDS = {'word_trained_embedding': trained(4)}
SENTENCE = [('BiLSTM', {'lstm_cell_size': 3}), ('BiLSTM', {'lstm_cell_size': 2, 'bilstm_layer_count': 2}), ('BiLSTM', {'lstm_cell_size': 2, 'bilstm_layer_count': 3}),
            ('BiLSTM', {'lstm_cell_size': 1, 'bilstm_layer_count': 4}),
            ('BiLSTM', {'lstm_cell_size': 3, 'skip_connection': 'concat'}), ('BiLSTM', {'lstm_cell_size': 2, 'skip_connection': 'sum'}),
            ('BiLSTM', {'lstm_cell_size': 2, 'bilstm_layer_count': 2, 'skip_connection': 'sum'}),
            ('BiLSTM', {'lstm_cell_size': 2, 'bilstm_layer_count': 2, 'skip_connection': 'concat'}),
            ('Dilated_CNN', {'cnn_kernels': conv((3, 4, 1))}), ('Dilated_CNN', {'cnn_kernels': conv((3, 5, 1), (3, 3, 2))}),
            ('Dilated_CNN', {'cnn_kernels': conv((2, 5, 1), (2, 4, 2)), 'skip_connection': 'sum'}),
            ('Dilated_CNN', {'cnn_kernels': conv((3, 2, 1), (3, 3, 2), (3, 5, 4)), 'skip_connection': 'concat'}), ('Dilated_CNN', {'cnn_kernels': conv((4, 3, 1))}),
            ('BiLSTM_CNN', {'lstm_cell_size': 3, 'cnn_kernels': conv((3, 4, 1))}), ('BiLSTM_CNN', {'lstm_cell_size': 2, 'cnn_kernels': conv((3, 2, 1), (2, 5, 2))}),
            ('BiLSTM_CNN', {'lstm_cell_size': 2, 'skip_connection': 'concat', 'cnn_kernels': conv((2, 3, 1))}),
            ('BiLSTM_CNN', {'lstm_cell_size': 2, 'skip_connection': 'sum', 'cnn_kernels': conv((2, 3, 1))}), ('WE_charCNN', {})]
RULES, LIMIT, CHARACTERS, OUTPUTS = 3, 3, 5, 4
SUFFIX = {'lemma_suffix_transformation': {}}


def combo(highway, count):
    return {'input_subwords': {'embed_size': count, 'segmenter': 'char', 'min_frequency': 1, 'highway_layer': highway},
            'output_subwords': {'max_word_length': LIMIT, 'segmenter': 'char', 'min_frequency': 1}}


TASK = [('pos_dense', {'dense_size': 5, 'splitting': 'pos_UX'}, {}), ('pos_dense', {'dense_size': 2, 'splitting': 'pos_UX', 'loss_weights': {'default': 3, 'XPOS': .5}}, {}),
        ('pos_dense', {'dense_size': 5, 'splitting': 'pos_UX', 'loss_weights': {'UPOS': 0, 'XPOS': 2, 'other': 7}}, {}), ('lemma_dense', {'dense_size': 5}, {}),
        ('lemma_dense', {'dense_size': 1, 'loss_weights': {'default': .25}}, {}), ('lemma_suffix', {'dense_size': 5}, SUFFIX),
        ('lemma_suffix', {'dense_size': 4, 'loss_weights': {'LEMMA': 2}}, SUFFIX), ('lemma_binary', {'dense_size': 5}, SUFFIX), ('lemma_binary', {'dense_size': 1}, SUFFIX),
        ('lemma_combo', {'cnn_bilstm_dense_size': 2, 'cnn_kernels': conv((3, 4, 1), (2, 4, 2)), 'loss_weights': {'LEMMA': 1.5}}, combo(True, 4)),
        ('lemma_combo', {'cnn_bilstm_dense_size': 3, 'cnn_kernels': conv((2, 6, 1)), 'loss_weights': {'LEMMA': 1}}, combo(False, 4)),
        ('lemma_combo', {'cnn_bilstm_dense_size': 1, 'cnn_kernels': conv((3, 3, 1), (3, 2, 2), (3, 5, 4)), 'loss_weights': {'LEMMA': 0}}, combo(False, 2)),
        ('lemma_combo', {'cnn_bilstm_dense_size': 1, 'cnn_kernels': conv((1, 2, 1)), 'loss_weights': {'LEMMA': .5}}, combo(True, 2))]
PARTS = {'pos_dense': ('pos_labels', [('UPOS', 3), ('XPOS', 2)]), 'lemma_dense': ('lemma_labels', [('LEMMA', 4)]),
         'lemma_suffix': ('lemma_rule_labels', [('LEMMA', RULES)]), 'lemma_binary': ('lemma_rule_labels', [('LEMMA', RULES)]), 'lemma_combo': ('output_subwords', None)}


# ------------------------------------------------------------------- network
class Built(object):
    cache = {}

    def __init__(self, builder, config, features_config, task=None, optimizer='GD', rows=5):
        self.args = (builder, config, features_config)
        self.task = task
        self.shapes = {'trained_words': [rows, None], 'word_embeddings': [rows, 3]}
        for key, name in layers.SUBWORDS:
            if key in features_config:
                self.shapes[name] = [rows, features_config[key]['embed_size']] if 'embedding_path' in features_config[key] else [rows, None, None]
        if task:
            kind, task_config, task_features = task
            last = {'WE_charCNN': 'word_features', 'BiLSTM': 'bilstm', 'BiLSTM_CNN': 'bilstm_cnn', 'Dilated_CNN': 'dilated_cnn'}[builder]
            if 'skip_connection' in config and builder != 'BiLSTM_CNN':
                last += '_and_word_features'
            self.last = last
            self.label, parts = PARTS[kind]
            if kind == 'lemma_combo':
                self.shapes['output_subwords'] = [OUTPUTS, LIMIT]
                self.shapes['input_subwords'] = [CHARACTERS, None, None]
            else:
                self.shapes[self.label] = dict(parts)
                self.shapes['applicable_rules'] = [RULES]
            builders = [TASKS[kind](dict(task_config, shared_name=last), task_features)]
        else:
            builders = [PROBE()]
        network, graph = nn.MultitaskNetworkBuilder(CLASSES[builder](config, features_config), builders, {'optimizer': {'type': optimizer}}, 1).build(self.shapes)
        self.model = nm.Model.new(network, graph)
        self.session = tf1.sessions[-1]
        self.variables = {v.name: v for v in graph.get_collection('variables')}
        self.values = {}
        self.pattern = None
        self.viable = None
        self.memory = {}

    @classmethod
    def get(cls, ctx, key, *args):
        if key not in cls.cache:
            if len(cls.cache) > 40:
                cls.cache.popitem()[1].model.close()
            cls.cache[key] = ctx.accepts('building {}'.format(args), Built, *args)
        return cls.cache[key]

    def set(self, pattern, names=None):
        """weights of a pattern; only names: other variables keep their own initial value"""
        if self.pattern == pattern:
            return
        self.values, feed, operations = {}, {}, []
        for k, name in enumerate(sorted(names or self.variables)):
            v = self.variables[name]
            operations.append(v.initializer)
            random = np.random.RandomState(1000 * pattern + k)
            scale = (.6, 1.5, 3.)[pattern]
            value = random.uniform(-scale, scale, v.shape.as_list()).astype(np.float32)
            self.values[name] = value.astype(np.float64)
            feed[v.initializer.inputs[1]] = value
        self.session.run([v.initializer for n, v in self.variables.items() if n not in self.values])
        self.session.run(operations, feed)
        self.pattern = pattern
        self.memory = {}

    def explain(self, ctx, reference, same, what):
        """same(reference(weights)) for one of the assignments of variables that explained everything before"""
        if self.viable is None:
            collector = layers.Roles()
            reference(collector)
            shapes = {n: v.shape for n, v in self.values.items()}
            self.viable = layers.assignments(collector.roles, shapes)
            ctx.check(self.viable is not None, '{}: variables {} instead of {}', what, sorted((m[1] for m in layers.modules(shapes)), key=repr), collector.roles)
        results = [(a, reference(layers.Weights(self.values, a))) for a in self.viable]
        left = [(a, r) for a, r in results if same(r)]
        if not left:
            ctx.fail('{}: differs from the reference {}'.format(what, results[0][1]))
        self.viable = [a for a, _ in left]
        return left[0][1]


def near(a, b):
    a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
    return a.shape == b.shape and bool(np.all(abs(a - b) <= TOLERANCE * np.maximum(1, np.maximum(abs(a), abs(b)))))


def shared_outputs(ctx, net, features):
    """outputs of the network are those of the reference at every real position"""
    builder, config, features_config = net.args
    got = ctx.accepts('computing', net.model.predict, features)
    lengths = features['sentences_lengths']

    def same(want):
        return all(k in got and all(near(got[k][i][:n], x) for i, (n, x) in enumerate(zip(lengths, v))) for k, v in want.items())
    want = net.explain(ctx, lambda w: layers.shared(w, builder, config, features_config, net.shapes, features), same,
                       '{} {} {} on {}: {}'.format(builder, config, features_config, features, got))
    mask = [[1.] * n + [0.] * (max(lengths) - n) for n in lengths]
    ctx.check(near(got['sentence_mask'], mask), 'mask {} of {}', got['sentence_mask'], lengths)
    ctx.check(near(got['sentence_norm'], sum(lengths)), 'norm {} of {}', got['sentence_norm'], lengths)
    return want


def arrays(features_config, sentences):
    """features of sentences of (word id, subword ids)"""
    longest = max(map(len, sentences))
    most = max(len(s) for sentence in sentences for _, s in sentence)
    ids = [[w for w, _ in s] + [0] * (longest - len(s)) for s in sentences]
    subs = [[list(x) + [0] * (most - len(x)) for _, x in s] + [[0] * most] * (longest - len(s)) for s in sentences]
    result = {'sentences_lengths': [len(s) for s in sentences]}
    if 'word_embedding' in features_config:
        result['words'] = [[(x + 1) % 5 for x in s] for s in ids]
    if 'word_trained_embedding' in features_config:
        result['trained_words'] = ids
    for k, (key, name) in enumerate(layers.SUBWORDS):
        if key in features_config:
            result[name] = [[[x and (x + k) % 4 + 1 for x in w] for w in s] for s in subs] if k else subs
    return result


def sequences(alphabet, most, least=1):
    return [s for n in range(least, most + 1) for s in itertools.product(alphabet, repeat=n)]


def subword_features(ctx):
    k = ctx.pick(len(SUBWORD), 'feature')
    config = {'word_characters': SUBWORD[k]}
    net = Built.get(ctx, ('subword', k), 'WE_charCNN', {}, config)
    net.set(ctx.pick((0, 1, 2) if ctx.thorough else (0,), 'weights'))
    words = sequences((1, 2, 4), 4 if ctx.thorough else 3)
    first = ctx.pick(words, 'word')
    second = ctx.pick(words if not ctx.thorough else [w for w in words if len(w) != len(first)], 'word')
    want = shared_outputs(ctx, net, arrays(config, [[(1, first), (1, second)]]))
    if SUBWORD[k]['aggregator'] == 'average':
        # the features of a word do not depend on other words
        alone = net.model.predict(arrays(config, [[(1, first)]]))['word_features'][0][0]
        ctx.check(near(alone, want['word_features'][0][0]), 'average of {} next to {} and alone', first, second)
    ctx.state(k, want['word_features'][0].round(3).tolist())


OTHERS = ([], [(2, (3,))], [(3, (1, 2, 4)), (1, (4, 4)), (2, (2,))])


def combined(ctx):
    k = ctx.pick(len(COMBINED), 'features')
    net = Built.get(ctx, ('combined', k), 'WE_charCNN', {}, COMBINED[k])
    net.set(ctx.pick((0, 1, 2) if ctx.thorough else (0, 1), 'weights'))
    sentence = [(ctx.pick((1, 2, 4), 'word'), ctx.pick(((3,), (2, 1), (1, 4, 4)), 'subwords')) for _ in range(ctx.pick((1, 2), 'words'))]
    other = ctx.pick(OTHERS, 'other sentence')
    batch = [sentence] + ([other] if other else [])
    if ctx.flag('reversed') and other:
        batch.reverse()
    want = shared_outputs(ctx, net, arrays(COMBINED[k], batch))
    ctx.state(k, [x.round(3).tolist() for x in want['word_features']])


def sentence_parts(ctx):
    k = ctx.pick(len(SENTENCE), 'part')
    builder, config = SENTENCE[k]
    net = Built.get(ctx, ('sentence', k), builder, config, WORDS)
    net.set(ctx.pick((0, 1, 2) if ctx.thorough else (0, 1), 'weights'))
    sentence = [(w, (1,)) for w in ctx.pick(sequences((1, 2, 4), 4), 'words')]
    other = ctx.pick(OTHERS, 'other sentence')
    want = shared_outputs(ctx, net, arrays(WORDS, [sentence] + ([other] if other else [])))
    ctx.state(k, [(n, x[0].round(3).tolist()) for n, x in want.items()])


def long_ones(ctx):
    kind = ctx.pick(('subwords', 'sentence'), 'kind')
    n = ctx.pick((5, 8, 16, 17, 33, 60), 'length')
    at = ctx.pick((0, 1, n // 2, n - 1), 'position')
    if kind == 'subwords':
        k = ctx.pick(len(SUBWORD), 'feature')
        config = {'word_characters': SUBWORD[k]}
        net = Built.get(ctx, ('subword', k), 'WE_charCNN', {}, config)
        word = [1 + i * i % 3 for i in range(n)]
        word[at] = 4
        sentences = [[(1, word), (1, word[:n // 2])], [(1, (2,))]]
    else:
        k = ctx.pick(len(SENTENCE), 'part')
        builder, config = SENTENCE[k]
        net = Built.get(ctx, ('sentence', k), builder, config, WORDS)
        config = WORDS
        words = [(1 + i * i % 3, (1,)) for i in range(n)]
        words[at] = (4, (1,))
        sentences = [words, words[:n // 3 + 1]] + [words[i:i + 1] for i in range(n // 8)]
    net.set(0)
    want = shared_outputs(ctx, net, arrays(config, sentences))
    ctx.state(kind, k, n, at, sorted(want))


# --------------------------------------------------------------------- tasks
def task_arrays(net, sentences):
    """sentences of (word id, mask of rules, subword ids, gold labels)"""
    kind = net.task[0]
    longest = max(map(len, sentences))
    features = arrays(net.args[2], [[(p[0], (1,)) for p in s] for s in sentences])
    padding = (0, 0, (), (0,) * (LIMIT if kind == 'lemma_combo' else len(PARTS[kind][1])))
    rows = [list(s) + [padding] * (longest - len(s)) for s in sentences]
    if kind in ('lemma_suffix', 'lemma_binary'):
        features['applicable_rules'] = [[[bool(p[1] >> r & 1) for r in range(RULES)] for p in s] for s in rows]
    if kind == 'lemma_combo':
        most = max(len(p[2]) for s in rows for p in s)
        features['input_subwords'] = [[list(p[2]) + [0] * (most - len(p[2])) for p in s] for s in rows]
    return features, {net.label: [[p[3] for p in s] for s in rows], 'learning_rate': 0.}


def task_reference(net, sentences):
    """w -> (loss, labels of the real tokens, logits) of a batch"""
    kind, config, features_config = net.task
    features, labels = task_arrays(net, sentences)
    lengths = features['sentences_lengths']
    tokens = [(i, j) for i, n in enumerate(lengths) for j in range(n)]
    gold = [labels[net.label][i][j] for i, j in tokens]
    masks = np.array([features['applicable_rules'][i][j] for i, j in tokens]) if 'applicable_rules' in features else None

    def reference(w):
        x = layers.shared(w, net.args[0], net.args[1], net.args[2], net.shapes, features)[net.last]
        x = np.concatenate([s[:n] for s, n in zip(x, lengths)])
        if kind == 'lemma_combo':
            return layers.transducer_task(w, 'task', config, features_config, net.shapes, x, [features['input_subwords'][i][j] for i, j in tokens], gold)
        if kind == 'lemma_binary':
            return layers.binary_task(w, 'task', config, RULES, x, masks, gold)
        return layers.dense_task(w, 'task', config, PARTS[kind][1], x, masks, gold)
    return reference, features, labels, tokens


def positions(kind, thorough):
    """(masks, subwords, gold labels) of a token"""
    if kind == 'lemma_combo':
        return [(0, s, g) for s in ((3,), (1, 2), (4, 3, 1), (2, 2, 1, 3, 3)) for g in ((1, 0, 0), (2, 3, 1), (0, 0, 3))]
    sizes = [n for _, n in PARTS[kind][1]]
    golds = list(itertools.product(*map(range, sizes)))
    if kind in ('lemma_suffix', 'lemma_binary'):
        return [(m, (), g) for m in range(1, 2 ** RULES) for g in golds if m >> g[0] & 1]
    return [(0, (), g) for g in golds]


def tasks(ctx):
    k = ctx.pick(len(TASK), 'task')
    net = Built.get(ctx, ('task', k), 'WE_charCNN', {}, WORDS, TASK[k])
    net.set(ctx.pick((0, 1, 2) if ctx.thorough else (0, 1), 'weights'))
    options = positions(TASK[k][0], ctx.thorough)
    first = (ctx.pick((1, 4), 'word'),) + ctx.pick(options, 'token')
    second = (2,) + ctx.pick(options, 'token')
    shape = ctx.pick(('one sentence', 'two sentences', 'three tokens'), 'shape')
    sentences = {'one sentence': [[first, second]], 'two sentences': [[second], [first]], 'three tokens': [[first], [second, (3,) + options[-1]]]}[shape]
    verify_task(ctx, net, sentences)


def verify_task(ctx, net, sentences):
    reference, features, labels, tokens = task_reference(net, sentences)
    loss = float(ctx.accepts('training', net.model.train, features, labels))
    got = ctx.accepts('predicting', net.model.predict, features)
    ctx.equal(list(got), [net.label], 'names of predictions')
    predicted = np.array([got[net.label][i][j] for i, j in tokens])

    def same(result):
        want, labels_, scores = result
        if not near(loss, want) or predicted.shape != np.shape(labels_):
            return False
        for k, s in enumerate(scores):
            chosen = predicted[:, k] if s.ndim == 2 else predicted
            best = np.take_along_axis(s, chosen[..., None], -1)[..., 0]
            if (best < s.max(axis=-1) - TOLERANCE).any():
                return False
        return True
    result = net.explain(ctx, reference, same, 'task {} on {}: loss {}, predictions {}'.format(net.task, sentences, loss, predicted.tolist()))
    ctx.state(net.task[0], round(result[0], 4), predicted.tolist())
    return reference


# --------------------------------------------------------------------- steps
STEPS = [('WE_charCNN', {}, {'word_trained_embedding': trained(2)}, 0), ('WE_charCNN', {}, {'word_trained_embedding': trained(2)}, 1),
         ('WE_charCNN', {}, {'word_trained_embedding': trained(2)}, 6), ('WE_charCNN', {}, {'word_trained_embedding': trained(2)}, 7),
         ('WE_charCNN', {}, {'word_trained_embedding': trained(2)}, 9), ('WE_charCNN', {}, {'word_trained_embedding': trained(2)}, 12),
         ('BiLSTM', {'lstm_cell_size': 1, 'skip_connection': 'sum'}, {'word_trained_embedding': trained(2)}, 3),
         ('BiLSTM', {'lstm_cell_size': 1, 'bilstm_layer_count': 2}, {'word_trained_embedding': trained(1)}, 3),
         ('Dilated_CNN', {'cnn_kernels': conv((2, 2, 2)), 'skip_connection': 'concat'}, {'word_embedding': given(2)}, 3),
         ('BiLSTM_CNN', {'lstm_cell_size': 1, 'cnn_kernels': conv((2, 2, 1))}, {'word_trained_embedding': trained(1), 'word_embedding': given()}, 5)]


def step_problem(base, reference, roles, kind, optimizer, rate, after):
    """what is wrong with variables after a step -- roles: roles of the variables in the reference"""
    fixed = {roles['word_embeddings'][0]} if 'word_embeddings' in roles else set()
    weights = layers.Weights(base.values, roles)
    gradient, doubtful = {}, set()
    for name, value in base.values.items():
        gradient[name] = g = np.zeros_like(value)
        if name in fixed:
            continue
        for index in np.ndindex(*value.shape):
            slopes = []
            for h in (1e-5, -1e-5):
                old = value[index]
                here = reference(weights)[0]
                value[index] = old + h
                slopes.append((reference(weights)[0] - here) / h)
                value[index] = old
            if abs(slopes[0] - slopes[1]) > 1e-2 * max(1, abs(slopes[0])):
                doubtful.add((name, index))
            g[index] = sum(slopes) / 2
    norm = sum((g ** 2).sum() for g in gradient.values()) ** .5
    clip = min(1, 5 / norm) if norm else 1
    if kind == 'lemma_combo' and norm > 3:
        # the norm TensorFlow clips at counts every use of a row of a matrix on its own
        if optimizer == 'RMSProp':
            return None, norm
        largest = max((abs(g[i]), n, i) for n, g in gradient.items() for i in np.ndindex(*g.shape) if (n, i) not in doubtful)
        if optimizer == 'GD':
            clip = (base.values[largest[1]][largest[2]] - after[largest[1]][largest[2]]) / rate / gradient[largest[1]][largest[2]]
            if not 2 / norm < clip < min(12 / norm, 1.001):
                return 'a gradient of norm {} is multiplied by {}'.format(norm, clip), norm
    for name, g in gradient.items():
        g = g * clip
        if name in fixed:
            want = np.zeros_like(g)
        elif optimizer == 'GD':
            want = -rate * g
        elif optimizer == 'Adam':
            want = -rate * g / (abs(g) + 1e-8)
        else:
            want = -rate * g / np.sqrt(.9 + .1 * g ** 2)
        change = after[name].astype(np.float64) - base.values[name]
        for index in np.ndindex(*g.shape):
            if (name, index) in doubtful or optimizer == 'Adam' and abs(g[index]) < 1e-3:
                continue
            if abs(change[index] - want[index]) > 2e-3 * rate * max(1, abs(g[index])):
                return 'a step with {} and rate {} changes {}{} by {} instead of {} (norm of the gradient {})'.format(
                    optimizer, rate, name, index, change[index], want[index], norm), norm
    return None, norm


def steps(ctx):
    """one step of each optimizer follows the gradient of the reference"""
    k = ctx.pick(len(STEPS), 'network')
    builder, config, features_config, number = STEPS[k]
    optimizer = ctx.pick(('GD', 'Adam', 'RMSProp'), 'optimizer')
    pattern = ctx.pick((0, 1, 2), 'weights')
    rate = ctx.pick((.1, 1.), 'learning rate') if optimizer == 'GD' else .01
    base = Built.get(ctx, ('step', k, 'GD'), builder, config, features_config, TASK[number], 'GD')
    net = Built.get(ctx, ('step', k, optimizer), builder, config, features_config, TASK[number], optimizer)
    own = set(base.variables)
    ctx.check(own <= set(net.variables), 'variables {} with {}', sorted(net.variables), optimizer)
    options = positions(TASK[number][0], False)
    sentences = [[(1,) + options[0], (2,) + options[-1]], [(4,) + options[len(options) // 2]]]
    base.pattern = None
    base.set(pattern)
    reference = verify_task(ctx, base, sentences)
    net.pattern = None
    net.set(pattern, own)
    _, features, labels, _ = task_reference(net, sentences)
    net.model.train(features, dict(labels, learning_rate=rate))
    after = dict(zip(sorted(own), net.session.run([net.variables[n] for n in sorted(own)])))
    problems = []
    for roles in base.viable:
        problem, norm = step_problem(base, reference, roles, TASK[number][0], optimizer, rate, after)
        if problem is None:
            break
        problems.append(problem)
    else:
        ctx.fail('{} {}: {}'.format(STEPS[k], TASK[number], problems[0]))
    ctx.state(k, optimizer, pattern, rate, round(norm, 2))


SCENARIOS = {'subword features': subword_features, 'features': combined, 'sentence parts': sentence_parts, 'tasks': tasks, 'steps': steps, 'scale': long_ones}
SPLIT = {'subword features': 1, 'features': 1, 'sentence parts': 1, 'tasks': 1, 'steps': 1, 'scale': 3}
