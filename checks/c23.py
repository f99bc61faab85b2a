"""C23 Input sparsification only replaces ids by the unknown id, at its rate"""
import copy
import random

from mc import fake

BOUNDS = {
    'quick': 'scalar and sequence features of <=6 ids x all answer sequences of the random generator over {0, just below the rate, the rate, just above, 0.999} '
             '(<=6 draws) x rates 0, 0.3, 1 and 0.5; every nesting of <=3 levels; every subset of the real providers with constant answers; '
             'repeated extraction; 400 ids',
    'thorough': '<=8 draws',
}


def load(thorough):
    global fb, fp, dm, source
    fake.bpe()
    source = Source()
    random.random = source      # before the import: however the generator is imported, it is this one
    import babylondigger.features.builder as fb
    import babylondigger.features.provider as fp
    import babylondigger.datamodel as dm


class Source(object):
    """the random generator: every draw is an enumerated choice"""

    def __init__(self):
        self.original = random.random
        self.answer = self.original
        self.draws = []

    def __call__(self):
        x = self.answer()
        self.draws.append(x)
        return x


def install(ctx, answer):
    source.answer = answer
    source.draws = []
    ctx.cleanups.append(lambda: setattr(source, 'answer', source.original))


class Leaf(object):
    def __init__(self, features):
        self.features = features

    def build(self, dataset):
        return self, fb.DoNothingInterpreter(), fb.EmptyFeatureInitializer()

    def get_features(self, obj, **kwargs):
        return self.features(obj)


def near(rate):
    return [x for x in sorted({0.0, rate - 1e-9, rate, rate + 1e-9, 0.999}) if 0 <= x < 1]


def expected(value, draws, rate):
    if isinstance(value, list):
        return [expected(v, draws, rate) for v in value]
    return 1 if next(draws) < rate else value


def leaves(value):
    return [x for v in value for x in leaves(v)] if isinstance(value, list) else [value]


def shape(value):
    return [shape(v) for v in value] if isinstance(value, list) else None


def compare(ctx, what, got, value, draws, rate):
    """each id has its own draw; which draw belongs to which id is not prescribed beyond the order of traversal"""
    ctx.equal(shape(got), shape(value), 'shape of ' + what)
    if rate <= 0:
        ctx.equal(got, value, '{} at rate {}'.format(what, rate))
        return
    if rate >= 1:
        ctx.check(all(x == 1 for x in leaves(got)), '{} at rate {}: {}', what, rate, got)
        return
    ctx.equal(len(draws), len(leaves(value)), 'draws for ' + what)
    ctx.equal(got, expected(value, iter(draws), rate), '{} at rate {} with draws {}'.format(what, rate, draws))


def one_feature(ctx):
    value = ctx.pick((5, [], [7], [7, 8, 9], [2, 4, 5, 6, 3], [[7, 8], [9]], [[], [7, 8], [[9], 5]], [1, 0, 6, 1, 5, 9] if not ctx.thorough else
                     [1, 0, 6, 1, 5, 9, 2, 3]), 'feature')
    rate = ctx.pick((0, 0.3, 0.5, 1, 1.0, 0.0), 'rate')
    answers = near(rate) if rate not in (0.5,) else [0.49, 0.51]
    n = len(leaves(value))
    if n > 3:
        answers = answers[:1] + answers[-2:] if len(answers) > 2 else answers
    install(ctx, lambda: ctx.pick(answers, 'draw'))
    before = copy.deepcopy(value)
    extractor, _, _ = fb.SparseFeatureExtractorBuilder(Leaf(lambda o: {'f': value})).build([])
    got = ctx.accepts('sparsifying', extractor.get_features, 'word', sparse_rate=rate)
    draws = list(source.draws)
    ctx.equal(list(got), ['f'], 'features')
    compare(ctx, repr(before), got['f'], before, draws, rate)
    ctx.equal(value, before, 'value held by the extractor')
    ctx.state(before, rate, got['f'])


def default_rate(ctx):
    """without a rate nothing changes"""
    install(ctx, lambda: ctx.pick((0.0, 0.5, 0.999), 'draw'))
    extractor, _, _ = fb.SparseFeatureExtractorBuilder(Leaf(lambda o: {'f': [4, 5], 'g': 7})).build([])
    ctx.equal(extractor.get_features('word'), {'f': [4, 5], 'g': 7}, 'features without rate')
    ctx.state(source.draws)


def document(words, lemma=True):
    tokens, text = [], ''
    for w in words:
        tokens.append(dm.Token(len(text), len(text) + len(w), lemma=w.rstrip('s').lower(), pos=dm.Pos('X', None, {})))
        text += w + ' '
    return dm.Document(text, tokens)


def providers():
    return {'length': fp.SentenceLengthExtractorProvider('length'),
            'word': fp.TrainableWordEmbeddingExtractorProvider('word', {'min_frequency': 1, 'lowercase': False}),
            'chars': fp.SubwordsExtractorProvider('chars', {'min_frequency': 1, 'segmenter': 'char'}),
            'mask': fp.LemmaTransformationExtractorProvider('mask', 'rule', {'rules_threshold': 0}),
            'pos': fp.PosDictExtractorProvider('pos', 'pos_UXF')}


SPARSE = ('word', 'chars')


def real(ctx):
    """real providers: inputs are sparsified, everything else is not, vocabularies survive"""
    names = [n for n in ('length', 'word', 'chars', 'mask', 'pos') if ctx.flag(n)]
    if not names:
        ctx.prune()
    rate = ctx.pick((0, 0.4, 1), 'rate')
    answer = ctx.pick((0.0, 0.39, 0.4, 0.9), 'draw')
    docs = [document(['cats', 'sat']), document(['dog'])]
    batch = [d.get_sentence(0) for d in docs]
    install(ctx, lambda: answer)
    features, labels, _, initializer = fp.FeatureExtractorBuilderProvider([providers()[n] for n in names]).build(docs)
    plain = features.get_features(batch, sparse_rate=0)
    shapes = copy.deepcopy(initializer.shapes())
    label_values = copy.deepcopy(labels.get_features(batch))
    got = ctx.accepts('extracting', features.get_features, batch, sparse_rate=rate)
    ctx.equal(sorted(got), sorted(plain), 'features')
    replaced = answer < rate
    for name, value in plain.items():
        if name in SPARSE:
            # padding is added after sparsification
            def want(v, size):
                return [want(x, size) for x in v] if isinstance(v, list) else (1 if replaced and v != 0 else v)
            ctx.equal(got[name], want(value, 0), '{} at rate {} with draws {}'.format(name, rate, answer))
        else:
            ctx.equal(got[name], value, '{} is not sparsified'.format(name))
    ctx.equal(features.get_features(batch, sparse_rate=0), plain, 'features afterwards')
    ctx.equal(features.get_features(batch), plain, 'features without rate')
    ctx.equal(labels.get_features(batch), label_values, 'labels afterwards')
    ctx.equal(initializer.shapes(), shapes, 'shapes afterwards')
    ctx.state(names, rate, answer, sorted(got.items()))


def mixed(ctx):
    """every draw pattern on the words and characters of one sentence"""
    docs = [document(['ab', 'c'])]
    install(ctx, lambda: 0.9)
    which = ctx.pick(('word', 'chars'), 'feature')
    features, _, _, _ = fp.FeatureExtractorBuilderProvider([providers()[which], providers()['length']]).build(docs)
    batch = [docs[0].get_sentence(0)] * ctx.pick((1, 2), 'sentences') if which == 'word' else [docs[0].get_sentence(0)]
    plain = features.get_features(batch, sparse_rate=0)
    source.draws = []
    source.answer = lambda: ctx.pick((0.1, 0.9), 'draw')
    got = features.get_features(batch, sparse_rate=0.5)
    draws = iter(list(source.draws))

    def want(v):
        return [want(x) for x in v] if isinstance(v, list) else 0 if v == 0 else (1 if next(draws) < 0.5 else v)
    if which == 'chars':
        # the padding of the second word holds no ids
        ctx.equal(len(source.draws), sum(1 for x in leaves(plain['chars']) if x), 'draws')
    ctx.equal(got[which], want(plain[which]), '{} with draws {}'.format(which, source.draws))
    ctx.equal(got['length'], plain['length'], 'lengths')
    ctx.state(which, got[which])


def repeated(ctx):
    """sequences of extractions at different rates from one extractor"""
    docs = [document(['ab', 'cs'])]
    install(ctx, lambda: 0.5)
    features, labels, _, _ = fp.FeatureExtractorBuilderProvider([providers()[n] for n in ('word', 'chars', 'mask')]).build(docs)
    batch = [docs[0].get_sentence(0)]
    plain = features.get_features(batch, sparse_rate=0)
    trace = []
    for _ in range(4):
        rate = ctx.pick((0, 0.4, 0.6, 1), 'rate')
        got = features.get_features(batch, sparse_rate=rate)
        trace.append(rate)
        for name in SPARSE:
            def want(v):
                return [want(x) for x in v] if isinstance(v, list) else 1 if v and rate > 0.5 else v
            ctx.equal(got[name], want(plain[name]), '{} after rates {}'.format(name, trace))
        ctx.equal(got['mask'], plain['mask'], 'mask after rates {}'.format(trace))
    ctx.state(trace)


def scale(ctx):
    n = ctx.pick((40, 400), 'ids')
    rate = ctx.pick((0, 0.01, 0.25, 0.99, 1), 'rate')
    phase = ctx.pick(range(7), 'phase of the draws')
    counter = [phase]

    def answer():
        counter[0] += 1
        return (counter[0] * 0.61803398875) % 1.0
    install(ctx, answer)
    value = [[10 + i * 7 % 50 for i in range(k, k + 5)] for k in range(0, n, 5)]
    extractor, _, _ = fb.SparseFeatureExtractorBuilder(Leaf(lambda o: {'f': value})).build([])
    got = extractor.get_features('word', sparse_rate=rate)
    compare(ctx, '{} ids'.format(n), got['f'], value, list(source.draws), rate)
    ctx.state(n, rate, phase)


SCENARIOS = {'one feature': one_feature, 'default rate': default_rate, 'real providers': real, 'draw patterns': mixed, 'repeated': repeated, 'scale': scale}
