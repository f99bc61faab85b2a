"""small networks of the builders of the code under test, driven through the public model and recorded sessions"""
import numpy as np

from mc import tf1

KERNELS = [{'size': 3, 'count': 4, 'dilation': 1}, {'size': 2, 'count': 4, 'dilation': 2}]
WORDS = {'word_trained_embedding': {'size': 4, 'trainable': True, 'min_frequency': 1, 'lowercase': False}}
# name of a shared part: (description, name of its output, positions are independent, sentences are independent of padding)
SHARED = {
    'words': ({'builder': 'WE_charCNN', 'config': {}, 'features_config': WORDS}, 'word_features', True, True),
    'bilstm': ({'builder': 'BiLSTM', 'config': {'lstm_cell_size': 3}, 'features_config': WORDS}, 'bilstm', False, True),
    'bilstm2 concat': ({'builder': 'BiLSTM', 'config': {'lstm_cell_size': 3, 'bilstm_layer_count': 2, 'skip_connection': 'concat'}, 'features_config': WORDS},
                       'bilstm_and_word_features', False, True),
    'bilstm sum': ({'builder': 'BiLSTM', 'config': {'lstm_cell_size': 2, 'skip_connection': 'sum'}, 'features_config': WORDS},
                   'bilstm_and_word_features', False, True),
    'bilstm cnn': ({'builder': 'BiLSTM_CNN', 'config': {'lstm_cell_size': 3, 'skip_connection': 'concat', 'cnn_kernels': KERNELS}, 'features_config': WORDS},
                   'bilstm_cnn', False, True),
    'dilated': ({'builder': 'Dilated_CNN', 'config': {'cnn_kernels': KERNELS}, 'features_config': WORDS}, 'dilated_cnn', False, False),
    'dilated sum': ({'builder': 'Dilated_CNN', 'config': {'cnn_kernels': KERNELS, 'skip_connection': 'sum'}, 'features_config': WORDS},
                    'dilated_cnn_and_word_features', False, False),
}
RULES = 3
MAX_WORD = 3
SUFFIX = {'lemma_suffix_transformation': {}}
COMBO = {'input_subwords': {'embed_size': 4, 'segmenter': 'char', 'min_frequency': 1, 'highway_layer': True},
         'output_subwords': {'max_word_length': MAX_WORD, 'segmenter': 'char', 'min_frequency': 1}}
# name of a task: (builder, config without the shared name, features, name of the labels, [(part, number of labels, weight)])
TASKS = {
    'pos': ('pos_dense', {'dense_size': 5, 'splitting': 'pos_UX'}, None, 'pos_labels', [('UPOS', 3, 1), ('XPOS', 2, 1)]),
    'pos weights': ('pos_dense', {'dense_size': 5, 'splitting': 'pos_UX', 'loss_weights': {'default': 3, 'XPOS': .5}}, None, 'pos_labels',
                    [('UPOS', 3, 3), ('XPOS', 2, .5)]),
    'pos zero weight': ('pos_dense', {'dense_size': 5, 'splitting': 'pos_UX', 'loss_weights': {'UPOS': 0, 'XPOS': 2}}, None, 'pos_labels',
                        [('UPOS', 3, 0), ('XPOS', 2, 2)]),
    'pos zero and default': ('pos_dense', {'dense_size': 5, 'splitting': 'pos_UX', 'loss_weights': {'UPOS': 0, 'default': 2}}, None, 'pos_labels',
                             [('UPOS', 3, 0), ('XPOS', 2, 2)]),
    'lemma': ('lemma_dense', {'dense_size': 5}, None, 'lemma_labels', [('LEMMA', 4, 1)]),
    'suffix': ('lemma_suffix', {'dense_size': 5}, SUFFIX, 'lemma_rule_labels', [('LEMMA', RULES, 1)]),
    'suffix weight': ('lemma_suffix', {'dense_size': 5, 'loss_weights': {'LEMMA': 2}}, SUFFIX, 'lemma_rule_labels', [('LEMMA', RULES, 2)]),
    'binary': ('lemma_binary', {'dense_size': 5}, SUFFIX, 'lemma_rule_labels', [('LEMMA', RULES, 1)]),
    'combo': ('lemma_combo', {'cnn_bilstm_dense_size': 2, 'cnn_kernels': KERNELS, 'loss_weights': {'LEMMA': 1.5}}, COMBO, 'output_subwords',
              [('char', 5, 1.5 / MAX_WORD)] * MAX_WORD),
}
VOCABULARY = 6
CHARACTERS = 7


def load():
    global tf, nm, provider
    tf = tf1.load()
    import babylondigger.neural.model as nm
    import babylondigger.neural.tagger.network_provider as provider


def builder(shared, tasks, optimizer='GD', seed=1):
    description, output, _, _ = SHARED[shared]
    tasks = [dict({'builder': b, 'config': dict(config, shared_name=output)}, **({'features_config': features} if features else {}))
             for b, config, features, _, _ in (TASKS[t] for t in tasks)]
    return provider.get_nn_builder(description, tasks, {'optimizer': {'type': optimizer}}, seed)


def shapes(tasks):
    result = {'trained_words': [VOCABULARY, None]}
    for t in tasks:
        b, _, _, labels, parts = TASKS[t]
        if b == 'lemma_combo':
            result['output_subwords'] = [parts[0][1], MAX_WORD]
            result['input_subwords'] = [CHARACTERS, None, None]
        else:
            result[labels] = {name: size for name, size, _ in parts}
            if b in ('lemma_suffix', 'lemma_binary'):
                result['applicable_rules'] = [RULES]
    return result


class Net(object):
    """a model of the code under test with its session"""
    cache = {}

    def __init__(self, shared, tasks, optimizer='GD'):
        self.shared, self.tasks = shared, tasks
        self.independent, self.padding_free = SHARED[shared][2:]
        self.parts = [(TASKS[t][3], TASKS[t][0], i) + p[1:] for t in tasks for i, p in enumerate(TASKS[t][4])]
        network, graph = builder(shared, tasks, optimizer).build(shapes(tasks))
        self.model = nm.Model.new(network, graph)
        self.session = tf1.sessions[-1]
        self.model.initialize()
        self.initial = self.values()
        self.current = 'initial'
        self.memory = {}

    @classmethod
    def get(cls, shared, tasks, optimizer='GD'):
        key = (shared, tuple(tasks), optimizer)
        if key not in cls.cache:
            cls.cache[key] = Net(*key)
        return cls.cache[key]

    @property
    def masked(self):
        return any(b in ('lemma_suffix', 'lemma_binary') for _, b, _, _, _ in self.parts)

    def variables(self):
        return self.session.graph.get_collection('variables')

    def values(self):
        return dict(zip([v.name for v in self.variables()], self.session.run(self.variables())))

    def set(self, name, function=None):
        """values of all variables: function(initial value, number of the variable)"""
        if name != self.current:
            feed, variables = {}, self.variables()
            for i, v in enumerate(variables):
                value = self.initial[v.name] if function is None else function(self.initial[v.name], i)
                feed[v.initializer.inputs[1]] = np.asarray(value, np.float32).reshape(self.initial[v.name].shape)
            self.session.run([v.initializer for v in variables], feed)
            self.current = name

    def arrays(self, batch, padding):
        """batch: sentences of positions (word, mask, gold); every sentence is padded with `padding`"""
        length = max(map(len, batch))
        rows = [list(s) + [padding] * (length - len(s)) for s in batch]
        features = {'sentences_lengths': [len(s) for s in batch], 'trained_words': [[p[0] for p in r] for r in rows]}
        labels = {'learning_rate': 0., 'dropout_probability': 1.}
        golds = {}
        for i, (name, b, _, _, _) in enumerate(self.parts):
            if b in ('lemma_suffix', 'lemma_binary'):
                features['applicable_rules'] = np.array([[[bool(p[1] >> k & 1) for k in range(RULES)] for p in r] for r in rows])
            if b == 'lemma_combo':
                features['input_subwords'] = [[[(p[0] + k) % CHARACTERS for k in range(MAX_WORD + 1)] for p in r] for r in rows]
            golds.setdefault(name, []).append(i)
        for name, indices in golds.items():
            labels[name] = np.array([[[p[2][i] for i in indices] for p in r] for r in rows], np.int32)
        return features, labels

    def loss(self, batch, padding=None):
        features, labels = self.arrays(batch, padding)
        return float(self.model.train(features, labels))

    def alone(self, sentence):
        """loss and predictions of a batch of one sentence, kept for the next question about it"""
        key = (self.current, tuple(sentence))
        if key not in self.memory:
            self.memory[key] = (self.loss([sentence]), self.vectors([sentence])[0])
        return self.memory[key]

    def predict(self, batch, padding=None):
        """labels of every position, as one vector of all parts"""
        features, _ = self.arrays(batch, padding)
        outputs = self.model.predict(features)
        return outputs

    def vectors(self, batch, padding=None):
        outputs = self.predict(batch, padding)
        names = list(dict.fromkeys(p[0] for p in self.parts))
        return [[tuple(int(x) for n in names for x in outputs[n][i][j]) for j in range(len(s))] for i, s in enumerate(batch)]
