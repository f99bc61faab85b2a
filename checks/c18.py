"""C18 Padding makes feature batches rectangular without changing any value"""
from mc import fake

BOUNDS = {
    'quick': 'all ragged sequences of depth 1 (<=4 elements), 2 (<=3 x <=3), 3 (<=3 x <=2 x <=2) and 4 (<=2 each, thinned); all pairs of such features; all '
             'sequences mixing scalars and sequences at any level of depth <=3; real sentence, word and character features of all batches of <=3 sentences; '
             'lengths up to 120',
    'thorough': 'depth 3 with <=3 x <=3 x <=2, depth 4 with <=2 everywhere',
}


def load(thorough):
    global fb, fp, dm
    fake.bpe()
    import babylondigger.features.builder as fb
    import babylondigger.features.provider as fp
    import babylondigger.datamodel as dm


class Leaf(object):
    """batch-level builder returning given features"""

    def __init__(self, features):
        self.features = features

    def build(self, dataset):
        return self, fb.DoNothingInterpreter(), fb.EmptyFeatureInitializer()

    def get_features(self, obj, **kwargs):
        import copy
        return copy.deepcopy(self.features)


def ragged(ctx, limits, counter):
    n = ctx.pick(range(limits[0] + 1), 'length')
    if len(limits) == 1:
        result = []
        for _ in range(n):
            counter[0] += 1
            result.append(counter[0])
        return result
    return [ragged(ctx, limits[1:], counter) for _ in range(n)]


def dims(value, depth):
    """longest sequence at every level"""
    result = []
    level = [value]
    for _ in range(depth):
        result.append(max([len(v) for v in level] or [0]))
        level = [x for v in level for x in v]
    return result


def want(value, sizes):
    if not sizes:
        return value
    if value is None:
        value = []
    padded = list(value) + [None] * (sizes[0] - len(value))
    if len(sizes) == 1:
        return [0 if v is None else v for v in padded]
    return [want(v, sizes[1:]) for v in padded]


def actual_depth(value):
    """number of nesting levels that hold any list"""
    depth = 0
    level = [value]
    while level and all(isinstance(v, list) for v in level):
        depth += 1
        level = [x for v in level for x in v]
    return depth


def pad(ctx, features):
    extractor, _, _ = fb.PaddingFeatureExtractorBuilder(Leaf(features)).build([])
    return ctx.accepts('padding {!r}'.format(features), extractor.get_features, None)


def check(ctx, features):
    got = pad(ctx, features)
    ctx.equal(set(got), set(features), 'features')
    for name, value in features.items():
        sizes = dims(value, actual_depth(value))
        sizes[0] = len(value)
        expected = want(value, sizes)
        ctx.equal(got[name], expected, 'padding of {!r}'.format(value))
    ctx.state(sorted(got.items()))


def shapes(ctx):
    limits = ctx.pick([(4,), (3, 3), (3, 3, 2) if ctx.thorough else (3, 2, 2), (2, 2, 2, 2) if ctx.thorough else (2, 2, 2, 1)], 'limits')
    check(ctx, {'f': ragged(ctx, limits, [100])})


def independent(ctx):
    """several features of one batch"""
    first = ragged(ctx, (2, 2), [100])
    second = ragged(ctx, (2, 2), [200])
    third = ctx.pick(([], [7], [[[8]], []]), 'third')
    check(ctx, {'a': first, 'b': second, 'c': third})


def mixed(ctx):
    """scalars and sequences at one level"""
    def node(depth):
        kinds = ('scalar', 'list') if depth else ('scalar',)
        if ctx.pick(kinds, 'kind') == 'scalar':
            return 5
        return [node(depth - 1) for _ in range(ctx.pick(range(3), 'length'))]
    value = [node(2) for _ in range(ctx.pick((1, 2, 3), 'length'))]

    def homogeneous():
        level = value
        while True:
            lists = [isinstance(v, list) for v in level]
            if not any(lists):
                return True
            if not all(lists):
                return False
            level = [x for v in level for x in v]
    ctx.state(value)
    if homogeneous():
        check(ctx, {'f': value})
        return
    extractor, _, _ = fb.PaddingFeatureExtractorBuilder(Leaf({'f': value})).build([])
    ctx.rejects('padding {!r}'.format(value), extractor.get_features, None)


def scale(ctx):
    n = ctx.pick((1, 2, 33, 64, 100), 'sentences')
    longest = ctx.pick((1, 10, 50, 120), 'longest')
    at = ctx.pick(sorted({0, n // 2, n - 1}), 'position of the longest')
    words = [longest if i == at else min(longest, i % 5) for i in range(n)]
    feature = [[i * 1000 + j + 1 for j in range(k)] for i, k in enumerate(words)]
    deep = [[[i + j + 1] * ((i + j) % 4) for j in range(k)] for i, k in enumerate(words)]
    check(ctx, {'w': feature, 'c': deep, 'l': words})


def real(ctx):
    """sentence length, word and character features of real batches"""
    sentences = []
    for _ in range(ctx.pick((1, 2, 3), 'sentences')):
        sentences.append(ctx.pick((('a',), ('ab', 'c'), ('abcd', 'b', 'ab')), 'sentence'))
    batch = []
    for s in sentences:
        tokens, text = [], ''
        for w in s:
            tokens.append(dm.Token(len(text), len(text) + len(w)))
            text += w + ' '
        batch.append(dm.Document(text, tokens).get_sentence(0))
    train = [dm.Document('abcd', [dm.Token(0, 4)]), dm.Document('ab', [dm.Token(0, 2)])]
    provider = fp.FeatureExtractorBuilderProvider([
        fp.SentenceLengthExtractorProvider('length'),
        fp.SubwordsExtractorProvider('chars', {'min_frequency': 1, 'segmenter': 'char'}),
        fp.TrainableWordEmbeddingExtractorProvider('word', {'min_frequency': 1, 'lowercase': False})])
    extractor = provider.build(train)[0]
    got = ctx.accepts('features', extractor.get_features, batch)
    longest = max(len(s) for s in sentences)
    chars = max(len(w) for s in sentences for w in s) + 2
    code = {'a': 4, 'b': 5, 'c': 6, 'd': 7}
    ctx.equal(got['length'], [len(s) for s in sentences], 'sentence lengths')
    ctx.equal(got['chars'], [[[2] + [code[c] for c in w] + [3] + [0] * (chars - len(w) - 2) for w in s] + [[0] * chars] * (longest - len(s))
                             for s in sentences], 'characters')
    ctx.equal([[len(w) for w in [got['word']]], [len(w) for w in got['word']]], [[len(sentences)], [longest] * len(sentences)], 'shape of word ids')
    for s, row in zip(sentences, got['word']):
        ctx.check(all(x > 0 for x in row[:len(s)]) and all(x == 0 for x in row[len(s):]), 'word ids {} of {}', row, s)
    ctx.state(sentences)


SCENARIOS = {'shapes': shapes, 'independent features': independent, 'mixed levels': mixed, 'scale': scale, 'real features': real}
