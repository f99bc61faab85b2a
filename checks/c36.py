"""C36 Padding never affects the loss and masked lemma rules are never predicted"""
import itertools
import math

import numpy as np

from mc import nets
from mc.nets import Net, RULES, TASKS

TIMEOUT = 120
BOUNDS = {
    'quick': 'all 5 task builders (8 configurations of loss weights, two of them combined) on all 4 shared builders (7 configurations); batches of <=3 sentences of <=3 '
             'tokens with every length vector; every word, mask and gold label of a 3-symbol alphabet at every real and padded position of batches of <=4 '
             'positions; all labels x all 7 masks of 3 rules for single tokens; 4 weight patterns x 7 scales up to 1e6 for the masked tasks',
    'thorough': 'batches of <=5 positions, 4 symbols per position, 3x larger sets of configurations',
}
ASSUMPTIONS = ['float32 arithmetic on the CPU: losses are compared with a relative tolerance of 2e-4',
               'TensorFlow 1 functions removed from the installed TensorFlow 2 (dense, dropout, LSTMCell) are replaced by mc/tf1.py']


def load(thorough):
    nets.load()


def close(a, b):
    return abs(a - b) <= 2e-4 * max(1, abs(a), abs(b))


def symbols(net, thorough):
    """positions (word, applicable rules, gold label of every part); the gold rule is applicable"""
    sizes = [p[3] for p in net.parts]
    result = []
    for k, (word, mask) in enumerate(((2, 0b011), (5, 0b110), (1, 0b101), (3, 0b111))):
        gold = []
        for j, (_, b, _, n, _) in enumerate(net.parts):
            g = (k * 2 + j) % n
            if b in ('lemma_suffix', 'lemma_binary'):
                g = [r for r in range(RULES) if mask >> r & 1][k % bin(mask).count('1')]
            gold.append(g)
        result.append((word, mask, tuple(gold)))
    assert all(g < n for _, _, gold in result for g, n in zip(gold, sizes))
    return result[:4 if thorough else 3]


def pads(net):
    """contents of padded positions: anything, also masks that do not allow the gold rule"""
    result = []
    for word, mask, shift in ((0, 0, 0), (0, 0, 1), (4, 0b111, 2), (5, 0b010, 0), (0, 0b100, 1)):
        result.append((word, mask, tuple(shift % n for _, _, _, n, _ in net.parts)))
    return result


PAIRS = [(s, (t,)) for s in ('words', 'bilstm', 'dilated') for t in TASKS] + \
        [(s, ('pos weights', 'suffix')) for s in nets.SHARED] + [('words', ('combo', 'pos')), ('bilstm', ('binary', 'lemma')), ('bilstm cnn', ('combo',))]


def configuration(ctx, masked=False):
    pairs = [p for p in PAIRS if not masked or any(TASKS[t][0] in ('lemma_suffix', 'lemma_binary') for t in p[1])]
    shared, tasks = ctx.pick(pairs, 'network')
    net = ctx.accepts('building', Net.get, shared, tasks)
    net.set('initial')
    return net


def lengths_of(total, most):
    result = []
    for n in range(1, total + 1):
        for ls in itertools.product(range(1, most + 1), repeat=n):
            if sum(ls) <= total and n * max(ls) <= total + 1:
                result.append(ls)
    return result


def batches(ctx):
    net = configuration(ctx)
    lengths = ctx.pick(lengths_of(4 if ctx.thorough else 3, 3), 'lengths')
    alphabet = symbols(net, ctx.thorough)
    batch = [[ctx.pick(alphabet, 'position') for _ in range(n)] for n in lengths]
    neutral = (0, 0, (0,) * len(net.parts))
    base = ctx.accepts('training', net.loss, batch, neutral)
    ctx.check(math.isfinite(base) and base >= 0, 'loss {}', base)
    n = sum(lengths)
    predicted = ctx.accepts('predicting', net.vectors, batch, neutral)
    if net.padding_free or len(set(lengths)) == 1:
        single = sum(net.alone(s)[0] * len(s) for s in batch)
        ctx.check(close(base * n, single), 'loss {} of {} tokens, sentences alone sum up to {}', base, n, single)
        ctx.equal(predicted, [net.alone(s)[1] for s in batch], 'predictions in a batch and alone')
    if net.independent:
        single = sum(net.alone([p])[0] for s in batch for p in s)
        ctx.check(close(base * n, single), 'loss {} of {} tokens, tokens alone sum up to {}', base, n, single)
    if max(lengths) > min(lengths):
        padding = ctx.pick(pads(net), 'padding')
        if not net.padding_free:
            padding = (0,) + padding[1:]
        other = net.loss(batch, padding)
        ctx.check(close(base, other), 'loss {} and {} with padding {} and {}', base, other, neutral, padding)
        ctx.equal(net.vectors(batch, padding), predicted, 'predictions with other padding')
    # the order of the sentences does not matter
    if len(batch) > 1:
        ctx.check(close(base, net.loss(batch[::-1], neutral)), 'loss of the reversed batch')
        ctx.equal(net.vectors(batch[::-1], neutral)[::-1], predicted, 'predictions of the reversed batch')
    ctx.state(net.shared, net.tasks, lengths, round(base, 3))


def distributions(ctx):
    """the loss of a token is the weighted sum of the cross entropies of its parts, and predictions are the most likely labels"""
    net = configuration(ctx)
    pattern(net, ctx.pick(PATTERNS, 'weights'), ctx.pick((1, 0), 'scale'))
    word = ctx.pick((0, 2, 5), 'word')
    mask = ctx.pick(range(1, 2 ** RULES), 'applicable rules') if net.masked else 0
    applicable = [r for r in range(RULES) if mask >> r & 1]
    options = [applicable if b in ('lemma_suffix', 'lemma_binary') else list(range(n)) for _, b, _, n, _ in net.parts]
    first = tuple(o[0] for o in options)
    golds = list(itertools.product(*options)) if len(options) < 3 else \
        sorted({first[:i] + (v,) + first[i + 1:] for i, o in enumerate(options) for v in o} | {tuple(o[-1] for o in options)})
    loss = {g: ctx.accepts('training', net.loss, [[(word, mask, g)]]) for g in golds}
    predicted = net.vectors([[(word, mask, first)]])[0][0]
    total = 0
    relative = []
    for i, (name, b, _, n, w) in enumerate(net.parts):
        d = {v: loss[first[:i] + (v,) + first[i + 1:]] - loss[first] for v in options[i]}
        relative.append(d)
        if w:
            if b == 'lemma_binary':
                x = log_odds(net, word, first, i)
                if x is None:
                    ctx.prune()
                total += w * (sum(softplus(x[r]) for r in applicable) - x[first[i]])
                for v in d:
                    ctx.check(close(d[v], w * (x[first[i]] - x[v])), 'loss difference {} of label {}, log odds {}', d[v], v, x)
            else:
                top = max(-d[v] / w for v in d)
                total += w * (top + math.log(sum(math.exp(-d[v] / w - top) for v in d)))
            best = min(d.values())
            ctx.check(d.get(predicted[i], 9e9) <= best + 1e-4 * (1 + abs(best)), 'predicted {} of {!r}, losses {}', predicted[i], name, d)
        else:
            ctx.check(all(abs(v) < 1e-4 for v in d.values()), 'losses {} of a part of weight 0', d)
    ctx.check(close(loss[first], total), 'loss {} instead of {} (losses relative to it: {})', loss[first], total, relative)
    for g in golds:
        expected = loss[first] + sum(d[v] for d, v in zip(relative, g))
        ctx.check(close(loss[g], expected), 'loss {} of {}, parts sum up to {}', loss[g], g, expected)
    ctx.state(net.shared, net.tasks, word, mask, round(loss[first], 3), predicted)


def softplus(x):
    return max(x, 0) + math.log1p(math.exp(-abs(x)))


def log_odds(net, word, first, i):
    """of every rule: differences from gold labels, the level from the loss that one more applicable rule adds"""
    def loss(mask, gold):
        return net.loss([[(word, mask, first[:i] + (gold,) + first[i + 1:])]])
    everything = 2 ** RULES - 1
    relative = [loss(everything, 0) - loss(everything, r) for r in range(RULES)]
    best = max(range(RULES), key=lambda r: relative[r])
    other = (best + 1) % RULES
    added = loss(1 << other | 1 << best, other) - loss(1 << other, other)
    if added < 1e-3:
        return None
    level = added + math.log(-math.expm1(-added))
    return [level + relative[r] - relative[best] for r in range(RULES)]


def pattern(net, kind, scale):
    def value(initial, i):
        size = initial.size
        if kind == 'initial':
            x = initial.reshape(-1)
        elif kind == 'alternating':
            x = np.array([(-1) ** (k + i) * (1 + (k * 7 + i) % 5) / 5 for k in range(size)])
        elif kind == 'ramp':
            x = np.array([((k * 3 + i * 5) % 11 - 5) / 5 for k in range(size)])
        else:
            x = -np.array([(1 + (k + 2 * i) % 3) / 3 for k in range(size)])
        return x * scale
    net.set((kind, scale), value)


PATTERNS = ('initial', 'alternating', 'ramp', 'negative')


def masks(ctx):
    """the predicted rule is applicable whatever the weights"""
    net = configuration(ctx, masked=True)
    kind = ctx.pick(PATTERNS, 'weights')
    scale = ctx.pick((0, 1, -1, 30, -30, 1e3, 1e6), 'scale')
    pattern(net, kind, scale)
    word = ctx.pick(range(nets.VOCABULARY), 'word')
    index = [b in ('lemma_suffix', 'lemma_binary') for _, b, _, _, _ in net.parts].index(True)
    gold = (0,) * len(net.parts)
    masks = list(range(2 ** RULES))
    shape = ctx.pick(((8,), (4, 4), (3, 3, 2)), 'lengths')
    batch, k = [], 0
    for n in shape:
        batch.append([(word, masks[k + j], gold) for j in range(n)])
        k += n
    padding = (0, 0, gold)
    for s, labels in zip(batch, ctx.accepts('predicting', net.vectors, batch, padding)):
        for (_, mask, _), vector in zip(s, labels):
            ctx.check(0 <= vector[index] < RULES, 'rule {}', vector[index])
            ctx.check(not mask or mask >> vector[index] & 1, 'rule {} is predicted, applicable: {:03b} (scale {}, word {})', vector[index], mask, scale, word)
    ctx.state(net.shared, net.tasks, kind, scale, word, labels)


def outputs(ctx):
    """one vector per position, ids in range, no effect of dropout, gold labels or repetition on predictions"""
    net = configuration(ctx)
    lengths = ctx.pick([ls for n in (1, 2, 3) for ls in itertools.product((1, 2, 3), repeat=n)] + [(40, 1), (1,) * 30], 'lengths')
    alphabet = symbols(net, True)
    batch = [[alphabet[(i + 2 * j) % 4] for j in range(n)] for i, n in enumerate(lengths)]
    padding = (0, 0, (0,) * len(net.parts))
    features, labels = net.arrays(batch, padding)
    first = ctx.accepts('predicting', net.model.predict, features)
    ctx.equal(sorted(first), sorted({p[0] for p in net.parts}), 'names of predictions')
    for name, value in first.items():
        sizes = [p[3] for p in net.parts if p[0] == name]
        ctx.equal(value.shape, (len(lengths), max(lengths), len(sizes)), 'shape of ' + name)
        for i, n in enumerate(sizes):
            ctx.check(((value[:, :, i] >= 0) & (value[:, :, i] < n)).all(), 'labels {} outside {}', value[:, :, i], n)
    before = net.values()
    for dropout in (.5, 1.):
        labels['dropout_probability'] = dropout
        ctx.check(math.isfinite(net.model.train(features, labels)), 'loss with dropout')
        again = net.model.predict(features)
        ctx.check(all((again[n] == first[n]).all() for n in first), 'predictions changed after training with learning rate 0')
    after = net.values()
    ctx.check(all((before[n] == after[n]).all() for n in before), 'weights changed by training with learning rate 0')
    ctx.state(net.shared, net.tasks, lengths)


SCENARIOS = {'batches': batches, 'distributions': distributions, 'masks': masks, 'outputs': outputs}
SPLIT = dict.fromkeys(SCENARIOS, 1)       # by network, so that every process builds few of them
