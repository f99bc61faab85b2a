"""numpy reference of the layers a configuration describes, with the weights of a real network

The reference asks for its weights by role; which variable of the network plays which role is found by their shapes: of all assignments
of variables to roles of the same shape, those that explain the first outputs are kept, and one of them must explain all later ones."""
import itertools

import numpy as np

LOWEST = float(np.finfo(np.float32).min)


def sigmoid(x):
    return 1 / (1 + np.exp(-x))


def relu(x):
    return np.maximum(x, 0)


def softmax(x):
    e = np.exp(x - x.max(axis=-1, keepdims=True))
    return e / e.sum(axis=-1, keepdims=True)


class Roles(object):
    """collects the roles a reference asks for"""

    def __init__(self):
        self.roles = {}

    def get(self, role, shape, bias=False):
        shape = tuple(int(x) for x in shape)
        assert self.roles.setdefault(role, (shape, bias)) == (shape, bias)
        return (np.zeros(shape), np.zeros(shape[-1])) if bias else np.zeros(shape)


class Weights(object):
    def __init__(self, values, assignment):
        self.values, self.assignment = values, assignment

    def get(self, role, shape, bias=False):
        names = self.assignment[role]
        if bias:
            return self.values[names[0]], self.values[names[1]]
        return self.values[names[0]]


def modules(shapes):
    """variables {name: shape} as modules: (kernel, bias) of one layer, or a single variable"""
    result = []
    for name, shape in shapes.items():
        if len(shape) == 1:
            continue
        prefix = name.rsplit('/', 1)[0] if '/' in name else None
        biases = [n for n, s in shapes.items() if len(s) == 1 and prefix is not None and n.rsplit('/', 1)[0] == prefix]
        result.append(((name,) + tuple(biases), (tuple(shape), bool(biases))))
    return result


def assignments(roles, shapes):
    """all ways to give every role variables of its shape"""
    found = modules(shapes)
    if sorted(k for _, k in found) != sorted(roles.values()):
        return None
    groups = []
    for kind in sorted(set(roles.values())):
        names = [r for r, k in roles.items() if k == kind]
        parts = [n for n, k in found if k == kind]
        groups.append([dict(zip(names, p)) for p in itertools.permutations(parts)])
    result = []
    for choice in itertools.product(*groups):
        merged = {}
        for c in choice:
            merged.update(c)
        result.append(merged)
    return result


# ------------------------------------------------------------------- layers
def dense(w, role, x, units, activation=None):
    kernel, bias = w.get(role, (x.shape[-1], units), True)
    result = x @ kernel + bias
    return activation(result) if activation else result


def lstm(w, role, x, units):
    """x: positions x inputs"""
    kernel, bias = w.get(role, (x.shape[-1] + units, 4 * units), True)
    c, h = np.zeros(units), np.zeros(units)
    result = []
    for v in x:
        i, j, f, o = np.split(np.concatenate([v, h]) @ kernel + bias, 4)
        c = sigmoid(f + 1) * c + sigmoid(i) * np.tanh(j)
        h = sigmoid(o) * np.tanh(c)
        result.append(h)
    return np.array(result).reshape(len(x), units)


def bilstm(w, role, x, units, layers):
    """both directions concatenated; from the second layer on the input is added to the output"""
    for k in range(layers):
        out = np.concatenate([lstm(w, (role, k, 'fw'), x, units), lstm(w, (role, k, 'bw'), x[::-1], units)[::-1]], axis=-1)
        x = out if k == 0 else x + out
    return x


def convolution(w, role, x, size, count, dilation):
    """x: positions x channels; same length, zeros outside"""
    kernel = w.get(role, (1, size, x.shape[-1], count))[0]
    before = (size - 1) * dilation // 2
    result = np.zeros((len(x), count))
    for p in range(len(x)):
        for k in range(size):
            q = p - before + k * dilation
            if 0 <= q < len(x):
                result[p] += x[q] @ kernel[k]
    return result


def convolutions(w, role, x, kernels):
    for i, k in enumerate(kernels):
        x = relu(convolution(w, (role, i), x, k['size'], k['count'], k['dilation']))
    return x


def highway(w, role, x, y):
    gate = dense(w, (role, 'gate'), x, x.shape[-1], sigmoid)
    return gate * y + (1 - gate) * x


# ----------------------------------------------------------------- features
def subwords(w, name, ids, config, rows, size):
    """ids: the subwords of one word, padded"""
    matrix = w.get((name, 'matrix'), (rows, size))
    e = matrix[list(ids)]
    kind, extra = config['aggregator'], config.get('aggregator_config', {})
    if kind == 'average':
        real = [i for i in ids if i != 0]
        x = matrix[real].mean(axis=0) if real else np.zeros(size)
    elif kind == 'cnn':
        x = convolutions(w, (name, 'cnn'), e, extra['cnn_kernels']).max(axis=0)
    elif kind == 'rnn':
        h = bilstm(w, (name, 'rnn'), e, extra['lstm_cell_size'], extra['bilstm_layer_count'])
        x = dense(w, (name, 'rnn dense'), h, h.shape[-1], relu).max(axis=0)
    else:
        attention = softmax(e @ (e.sum(axis=0) * size ** .5))
        x = attention @ e
    if config.get('highway_layer', False):
        x = highway(w, (name, 'highway'), x, dense(w, (name, 'highway dense'), x, x.shape[-1], relu))
    return x


SUBWORDS = (('word_characters', 'characters'), ('bpe_subwords', 'bpe_subwords'), ('morfessor_subwords', 'morfessor_subwords'))


def word_features(w, config, shapes, features, i, j):
    parts = []
    if 'word_embedding' in config:
        x = w.get('word_embeddings', shapes['word_embeddings'])[features['words'][i][j]]
        if 'we_dense_size' in config['word_embedding']:
            x = dense(w, 'we dense', x, config['word_embedding']['we_dense_size'], relu)
        parts.append(x)
    if 'word_trained_embedding' in config:
        parts.append(w.get('trained', (shapes['trained_words'][0], config['word_trained_embedding']['size']))[features['trained_words'][i][j]])
    for key, name in SUBWORDS:
        if key in config:
            c = config[key]
            rows, size = shapes[name] if 'embedding_path' in c else (shapes[name][0], c['embed_size'])
            parts.append(subwords(w, name, features[name][i][j], c, rows, size))
    return np.concatenate(parts)


def shared(w, builder, config, features_config, shapes, features):
    """outputs of the shared part: name -> sentence -> real positions x units"""
    lengths = features['sentences_lengths']
    padded = [np.array([word_features(w, features_config, shapes, features, i, j) for j in range(max(lengths))]) for i in range(len(lengths))]
    result = {'word_features': padded}
    skip = config.get('skip_connection')
    if builder in ('BiLSTM', 'BiLSTM_CNN'):
        last = [bilstm(w, 'sentence', x[:n], config['lstm_cell_size'], config.get('bilstm_layer_count', 1)) for x, n in zip(padded, lengths)]
        name, joined = 'bilstm', 'bilstm_and_word_features'
    elif builder == 'Dilated_CNN':
        last = [convolutions(w, 'sentence', x, config['cnn_kernels']) for x in padded]
        name, joined = 'dilated_cnn', 'dilated_cnn_and_word_features'
    else:
        last = None
    if last is not None:
        result[name] = last
        if skip is not None:
            last = [a + x[:len(a)] if skip == 'sum' else np.concatenate([a, x[:len(a)]], axis=-1) for a, x in zip(last, padded)]
            result[joined] = last
        if builder == 'BiLSTM_CNN':
            result['bilstm_cnn'] = [np.array([convolutions(w, 'cnn', v[:, None], config['cnn_kernels']).max(axis=0) for v in x]) for x in last]
    return {k: [x[:n] for x, n in zip(v, lengths)] for k, v in result.items()}


# -------------------------------------------------------------------- tasks
def entropy(logits, gold):
    top = logits.max(axis=-1)
    return top + np.log(np.exp(logits - top[..., None]).sum(axis=-1)) - np.take_along_axis(logits, np.asarray(gold)[..., None], -1)[..., 0]


def dense_task(w, name, config, parts, x, masks, gold):
    """parts: [(name, labels)]; x: tokens x units; gold: tokens x parts"""
    weights = config.get('loss_weights')
    loss, predicted, scores = 0., [], []
    for k, (part, size) in enumerate(parts):
        hidden = dense(w, (name, k, 'dense'), x, config['dense_size'], relu)
        logits = dense(w, (name, k, 'logits'), hidden, size)
        if masks is not None:
            logits = np.where(masks, logits, LOWEST)
        weight = 1 if weights is None else weights[part] if part in weights else weights['default']
        loss += weight * entropy(logits, [g[k] for g in gold]).sum() / len(x)
        scores.append(logits)
        predicted.append(logits.argmax(axis=-1))
    return loss, np.array(predicted).T, scores


def binary_task(w, name, config, rules, x, masks, gold):
    hidden = dense(w, (name, 'dense'), x, config['dense_size'])
    logits = np.concatenate([dense(w, (name, 'rule'), np.concatenate([hidden, np.tile(np.eye(rules)[r], (len(x), 1))], axis=-1), 1) for r in range(rules)], axis=-1)
    logits = np.where(masks, logits, LOWEST)
    z = np.eye(rules)[[g[0] for g in gold]]
    loss = (np.maximum(logits, 0) - logits * z + np.log1p(np.exp(-abs(logits)))).sum() / len(x)
    return loss, logits.argmax(axis=-1)[:, None], [logits]


def transducer_task(w, name, config, features_config, shapes, x, subwords_, gold):
    source, target = features_config['input_subwords'], features_config['output_subwords']
    limit = target['max_word_length']
    rows, size = shapes['input_subwords'][0], source['embed_size']
    matrix = w.get((name, 'matrix'), (rows, size))
    hidden = dense(w, (name, 'dense'), x, config['cnn_bilstm_dense_size'], np.tanh)
    logits = []
    for ids, h in zip(subwords_, hidden):
        e = np.zeros((limit, size))
        ids = list(ids)[:limit]
        e[:len(ids)] = matrix[ids]
        out = convolutions(w, (name, 'cnn'), np.concatenate([np.tile(h, (limit, 1)), e], axis=-1), config['cnn_kernels'])
        if source.get('highway_layer', False):
            out = highway(w, (name, 'highway'), e, out)
        logits.append(out @ w.get((name, 'output'), (1, 1, out.shape[-1], shapes['output_subwords'][0]))[0, 0])
    logits = np.array(logits)
    loss = config['loss_weights']['LEMMA'] * entropy(logits, gold).sum() / (len(x) * limit)
    return loss, logits.argmax(axis=-1), [logits]
