"""C19 Merging feature extractors equals running them separately"""
import copy

from mc import fake

BOUNDS = {
    'quick': 'all lists of <=3 builders over 9 kinds (word level scalar / sequence / sparsified, sentence level, batch level, unpadded nestings, empty, nested '
             'composite) x 4 batches, all name clashes between two builders; all lists of <=4 label builders of two classes and their predictions, lists of composites of them; '
             'all sublists of the real providers in all orders (<=3); 12 builders at once',
    'thorough': 'lists of <=4 builders, real providers in all orders (<=4)',
}

KINDS = ('word', 'words', 'sparse', 'sentence', 'batch', 'empty', 'unpadded', 'composite', 'other')


def load(thorough):
    global fb, fp, dm
    fake.bpe()
    import babylondigger.features.builder as fb
    import babylondigger.features.provider as fp
    import babylondigger.datamodel as dm

    class Leaf(fb.FeatureExtractorBuilder):
        """word, sentence or batch level builder whose values are a function of the object"""

        def __init__(self, name, code, shape=True, interpret=False):
            self.name, self.code, self.shape, self.interpreting = name, code, shape, interpret
            self.seen = []

        def build(self, dataset):
            self.seen.append(dataset)
            interpreter = Interp(self.name) if self.interpreting else fb.DoNothingInterpreter()
            return Extr(self.name, self.code), interpreter, Init(self.name, self.code) if self.shape else fb.EmptyFeatureInitializer()

    class Other(Leaf):
        """the same under another type"""

    class Extr(fb.FeatureExtractorInterface):
        def __init__(self, name, code):
            self.name, self.code = name, code

        def get_features(self, obj, **kwargs):
            return {self.name: self.code(obj)}

    class Interp(fb.InterpreterInterface):
        def __init__(self, name):
            self.name = name

        def interpret(self, obj, value):
            return obj + ((self.name, value[self.name]),)

    class Init(fb.FeatureInitializerInterface):
        def __init__(self, name, code):
            self.name, self.code = name, code

        def shapes(self):
            return {self.name: [len(self.name), 7]}

        def initial_values(self):
            return {self.name: ['initial', self.name]}

    global LEAF, OTHER
    LEAF, OTHER = Leaf, Other


def make(ctx, kind, name):
    """(builder, features it yields per batch)"""
    n = sum(map(ord, name))
    if kind == 'word':
        return fb.wrap_word_level(LEAF(name, lambda w: len(w) + n))
    if kind == 'words':
        return fb.wrap_word_level(LEAF(name, lambda w: [n + ord(c) for c in w]))
    if kind == 'other':
        return fb.wrap_word_level(OTHER(name, lambda w: len(w) * 2 + n))
    if kind == 'sparse':
        return fb.wrap_word_level(LEAF(name, lambda w: len(w) * 3 + n), True)
    if kind == 'sentence':
        return fb.wrap_sentence_level(LEAF(name, lambda s: len(s) + n))
    if kind == 'batch':
        return LEAF(name, lambda b: [n, len(b)])
    if kind == 'unpadded':
        return fb.IterableFeatureExtractorBuilder(fb.IterableFeatureExtractorBuilder(LEAF(name, lambda w: len(w) * 5 + n)))
    if kind == 'composite':
        return fb.CompositeFeatureExtractorBuilder([make(ctx, 'word', name), make(ctx, 'sentence', name + '+')])
    return fb.EmptyFeatureExtractorBuilder()


def pad(rows):
    longest = max([len(r) for r in rows] or [0])
    return [list(r) + [0] * (longest - len(r)) for r in rows]


def expected(kind, name, batch):
    n = sum(map(ord, name))
    if kind == 'empty':
        return {}
    if kind == 'batch':
        return {name: [n, len(batch)]}
    if not batch:
        return {}
    if kind == 'sentence':
        return {name: [len(s) + n for s in batch]}
    if kind == 'words':
        longest = max(len(w) for s in batch for w in s)
        words = max(len(s) for s in batch)
        return {name: [[[n + ord(c) for c in w] + [0] * (longest - len(w)) for w in s] + [[0] * longest] * (words - len(s)) for s in batch]}
    if kind == 'composite':
        result = expected('word', name, batch)
        result.update(expected('sentence', name + '+', batch))
        return result
    rate, add = {'word': (1, n), 'other': (2, n), 'sparse': (3, n), 'unpadded': (5, n)}[kind]
    rows = [[len(w) * rate + add for w in s] for s in batch]
    return {name: rows if kind == 'unpadded' else pad(rows)}


def names_of(kind, name):
    return [] if kind == 'empty' else [name, name + '+'] if kind == 'composite' else [name]


BATCHES = ((('ab', 'c'), ('d',)), (('abc',),), (('a', 'bb', 'ccc'), ('dd', 'e'), ('f', 'g', 'h')), ())


def union(ctx):
    n = ctx.pick((1, 2, 3, 4) if ctx.thorough else (1, 2, 3), 'builders')
    kinds = [ctx.pick(KINDS, 'kind') for _ in range(n)]
    batch = [list(s) for s in ctx.pick(BATCHES if n < 3 else BATCHES[:1], 'batch')]
    names = ['f{}'.format(i) for i in range(n)]
    source = [make(ctx, k, name) for k, name in zip(kinds, names)]
    given = iter(source) if ctx.flag('as an iterator') else source
    merged = ctx.accepts('merging {}'.format(kinds), fb.merge, given)
    dataset = ['data set']
    extractor, interpreter, initializer = ctx.accepts('building {}'.format(kinds), merged.build, dataset)
    want, shapes, initial = {}, {}, {}
    for k, name in zip(kinds, names):
        want.update(expected(k, name, batch))
        for x in names_of(k, name):
            shapes[x] = [len(x), 7]
            initial[x] = ['initial', x]
    before = copy.deepcopy(batch)
    for rate in ({}, {'sparse_rate': 0}):
        got = ctx.accepts('extracting {}'.format(kinds), extractor.get_features, batch, **rate)
        ctx.equal(got, want, 'features of {}'.format(kinds))
    dropped = ctx.accepts('extracting {}'.format(kinds), extractor.get_features, batch, sparse_rate=1)
    for k, name in zip(kinds, names):
        if k == 'sparse' and batch:
            ctx.check(all(v in (0, 1) for row in dropped[name] for v in row), 'sparsified feature of {} at rate 1: {}', kinds, dropped[name])
    ctx.equal({k: v for k, v in dropped.items() if dict(zip(names, kinds)).get(k) != 'sparse'},
              {k: v for k, v in want.items() if dict(zip(names, kinds)).get(k) != 'sparse'}, 'features of {} at rate 1'.format(kinds))
    ctx.equal(batch, before, 'batch after extraction')
    ctx.equal(initializer.shapes(), shapes, 'shapes of {}'.format(kinds))
    ctx.equal(initializer.initial_values(), initial, 'initial values of {}'.format(kinds))
    ctx.state(kinds, sorted(got.items()))
    # the individual extractors are what was merged
    for k, name, builder in zip(kinds, names, source):
        single, _, init = builder.build(dataset)
        ctx.equal(single.get_features(batch), expected(k, name, batch), 'features of {} alone'.format(k))
        ctx.equal(sorted(init.shapes()), sorted(names_of(k, name)), 'shapes of {} alone'.format(k))


def clash(ctx):
    """two builders producing one feature name, with others around"""
    names = ['f', 'f', 'g', 'h']
    kinds = [ctx.pick(KINDS, 'first'), ctx.pick(KINDS, 'second')] + [ctx.pick(('word', 'sentence', 'empty'), 'bystander') for _ in range(ctx.pick((0, 1), 'bystanders'))]
    order = ctx.pick_perm(range(len(kinds)), 'order')
    source = [make(ctx, kinds[i], names[i]) for i in order]
    batch = [list(s) for s in BATCHES[0]]
    produced = [x for k, name in zip(kinds, names) for x in names_of(k, name)]

    def extract():
        extractor, _, _ = fb.merge(source).build(['data set'])
        return extractor.get_features(batch)
    ctx.state(kinds, order)
    if len(set(produced)) < len(produced):
        ctx.rejects('features {} of {}'.format(produced, kinds), extract)
    else:
        ctx.equal(sorted(ctx.accepts('features of {}'.format(kinds), extract)), sorted(produced), 'feature names')


def built(ctx):
    """every leaf is built once per build, with the data set that was given"""
    leaves = []

    def leaf(name, level):
        result = LEAF(name, lambda o: len(o), interpret=False)
        leaves.append(result)
        return (fb.wrap_word_level(result) if level == 'word' else fb.wrap_word_level(result, True) if level == 'sparse' else
                fb.wrap_sentence_level(result) if level == 'sentence' else result)
    n = ctx.pick((1, 2, 3), 'builders')
    levels = [ctx.pick(('word', 'sparse', 'sentence', 'batch'), 'level') for _ in range(n)]
    merged = fb.merge([leaf('f{}'.format(i), level) for i, level in enumerate(levels)] + [fb.EmptyFeatureExtractorBuilder()])
    first, second = ['first'], ['second']
    merged.build(first)
    merged.build(second)
    for x in leaves:
        ctx.check(len(x.seen) == 2 and x.seen[0] is first and x.seen[1] is second, 'data sets given to {}: {}', x.name, x.seen)
    ctx.state(levels)


def interpretation(ctx):
    n = ctx.pick((1, 2, 3, 4), 'builders')
    types = [ctx.pick(('leaf', 'leaf without labels', 'other', 'empty', 'nested'), 'type') for _ in range(n)]
    source, interpreting, mute = [], [], []
    for i, t in enumerate(types):
        name = 'l{}'.format(i)
        if t == 'empty':
            source.append(fb.EmptyFeatureExtractorBuilder())
            continue
        cls = OTHER if t == 'other' else LEAF
        leaf = cls(name, lambda w: 0, interpret=t != 'leaf without labels')
        (mute if t == 'leaf without labels' else interpreting).append((t, name))
        wrapped = fb.wrap_word_level(leaf)
        if t == 'nested':
            second = LEAF(name + '+', lambda w: 0, interpret=True)
            interpreting.append((t, name + '+'))
            wrapped = fb.CompositeFeatureExtractorBuilder([wrapped, fb.wrap_word_level(second)])
        source.append(wrapped)
    merged = fb.merge(source)
    _, interpreter, _ = merged.build([])
    shape = ctx.pick(((1,), (2, 1), (3, 2, 3), (40, 1, 13), (1,) * 35) if n < 4 else ((1,), (2, 1), (3, 2, 3)), 'sentence lengths')
    batch = [[('w{}.{}'.format(i, j),) for j in range(k)] for i, k in enumerate(shape)]
    keys = [name for _, name in interpreting + mute]
    if not keys:
        ctx.equal(interpreter.interpret(batch, {}), batch, 'interpretation by nothing')
        return
    order = ctx.pick((keys, keys[::-1]), 'order of the labels in the prediction')
    # predictions are padded to the longest sentence
    value = {k: [['{}@{}.{}'.format(k, i, j) for j in range(max(shape))] for i in range(len(shape))] for k in order}
    got = ctx.accepts('interpreting {}'.format(types), interpreter.interpret, batch, value)
    got = [list(s) for s in got]
    ctx.state(types, shape, got)
    ctx.equal([len(s) for s in got], list(shape), 'words after interpretation by {}'.format(types))
    for i, s in enumerate(got):
        for j, w in enumerate(s):
            want = [(k, '{}@{}.{}'.format(k, i, j)) for _, k in interpreting]
            ctx.equal(w[0], 'w{}.{}'.format(i, j), 'interpreted word')
            ctx.equal(sorted(w[1:]), sorted(want), 'labels applied to word {}.{} by {}'.format(i, j, types))
            for group in (('leaf',), ('other',)):
                if 'nested' in types:
                    continue
                wanted = [k for t, k in interpreting if t in group]
                ctx.equal([k for k, _ in w[1:] if k in wanted], wanted, 'order of application by {}'.format(types))


def composites(ctx):
    """lists of composites: interpreters of one kind are applied in the given order"""
    shape = ctx.pick(((1, 1), (2, 1), (1, 2), (2, 2), (1, 1, 1), (2, 1, 2), (3, 3)), 'composites')
    source, given = [], []
    for i, k in enumerate(shape):
        inner = []
        for j in range(k):
            name = 'l{}.{}'.format(i, j)
            kind = ctx.pick(('leaf', 'other'), 'kind')
            given.append((kind, name))
            inner.append(fb.wrap_word_level((OTHER if kind == 'other' else LEAF)(name, lambda w: len(w), interpret=True)))
        source.append(fb.CompositeFeatureExtractorBuilder(inner))
    extractor, interpreter, initializer = ctx.accepts('building', ctx.accepts('merging', fb.merge, source).build, [])
    names = [name for _, name in given]
    ctx.equal(sorted(initializer.shapes()), names, 'shapes')
    ctx.equal(extractor.get_features([['a', 'bcd'], ['ef']]), {name: [[1, 3], [2, 0]] for name in names}, 'features')
    value = {name: [[name + '@0', name + '@1']] for name in names}
    got = [list(s) for s in ctx.accepts('interpreting', interpreter.interpret, [[('x',), ('y',)]], value)]
    for j, w in enumerate(got[0]):
        ctx.equal(sorted(w[1:]), sorted((name, '{}@{}'.format(name, j)) for name in names), 'labels applied')
        for kind in ('leaf', 'other'):
            mine = [name for k, name in given if k == kind]
            ctx.equal([name for name, _ in w[1:] if name in mine], mine, 'order of application of composites {} of {}'.format(shape, given))
    ctx.state(shape, given)


def real(ctx):
    """the providers of the tagger"""
    pool = ['length', 'word', 'chars', 'suffix', 'pos', 'lemma']
    n = ctx.pick((1, 2, 3, 4) if ctx.thorough else (1, 2, 3), 'providers')
    chosen = []
    for _ in range(n):
        x = ctx.pick([p for p in pool if p not in chosen], 'provider')
        chosen.append(x)

    def provider(x):
        return {'length': lambda: fp.SentenceLengthExtractorProvider('length'),
                'word': lambda: fp.TrainableWordEmbeddingExtractorProvider('word', {'min_frequency': 1, 'lowercase': True}),
                'chars': lambda: fp.SubwordsExtractorProvider('chars', {'min_frequency': 1, 'segmenter': 'char'}),
                'suffix': lambda: fp.LemmaTransformationExtractorProvider('applicable', 'rule', {'rules_threshold': 0}),
                'pos': lambda: fp.PosDictExtractorProvider('pos', 'pos_gran'),
                'lemma': lambda: fp.LemmaDictExtractorProvider('lemma')}[x]()
    P = dm.Pos
    docs = []
    for words in (('cats', 'run'), ('ran',), ('dogs', 'ran', 'cats')):
        tokens, text = [], ''
        for w in words:
            lemma, pos = {'cats': ('cat', P('NOUN', None, {'Number': 'Plur'})), 'run': ('run', P('VERB', 'V', {})), 'ran': ('run', P('VERB', None, {'Tense': 'Past'})),
                          'dogs': ('dog', P('NOUN', 'N', {'Number': 'Plur', 'Case': 'Nom'}))}[w]
            tokens.append(dm.Token(len(text), len(text) + len(w), pos=pos, lemma=lemma))
            text += w + ' '
        docs.append(dm.Document(text, tokens))
    data = tuple(docs)
    batch = [d.get_sentence(0) for d in docs]
    merged = fp.FeatureExtractorBuilderProvider([provider(x) for x in chosen])
    features, labels, interpreter, initializer = ctx.accepts('building {}'.format(chosen), merged.build, data)
    want_features, want_labels, want_shapes = {}, {}, {}
    for x in chosen:
        single = provider(x)
        for part, collect in ((single.feature_extractor_builder(), want_features), (single.labels_extractor_builder(), want_labels)):
            e, _, i = part.build(data)
            collect.update(e.get_features(batch))
            want_shapes.update(i.shapes())
    ctx.equal(features.get_features(batch), want_features, 'features of {}'.format(chosen))
    got = labels.get_features(batch)
    ctx.equal(got, want_labels, 'labels of {}'.format(chosen))
    ctx.equal(initializer.shapes(), want_shapes, 'shapes of {}'.format(chosen))
    ctx.state(chosen, sorted(got.items()))
    if not got:
        return
    blank = [dm.Document(d.text, [dm.Token(t.start, t.end) for t in d.tokens]) for d in docs]
    for d, g in zip(blank, docs):
        sentence = d.get_sentence(0)
        encoded = {k: v[docs.index(g)] for k, v in got.items()}
        back = interpreter.interpret([list(sentence)], {k: [v] for k, v in encoded.items()})
        back = [list(s) for s in back][0]
        ctx.equal([t.pos for t in back], [t.pos if 'pos' in chosen else None for t in g.tokens], 'tags from {}'.format(chosen))
        ctx.equal([t.lemma for t in back], [t.lemma if set(chosen) & {'lemma', 'suffix'} else None for t in g.tokens], 'lemmas from {}'.format(chosen))
        ctx.equal([(t.start, t.end) for t in back], [(t.start, t.end) for t in g.tokens], 'spans from {}'.format(chosen))


def scale(ctx):
    n = ctx.pick((5, 12), 'builders')
    rotate = ctx.pick(range(n), 'rotation')
    kinds = [KINDS[i % len(KINDS)] for i in range(n)]
    kinds = kinds[rotate:] + kinds[:rotate]
    batch = [['w' * (1 + (i + j) % 7) for j in range(1 + i % 30)] for i in range(ctx.pick((1, 33, 100), 'sentences'))]
    extractor, _, _ = fb.merge([make(ctx, k, 'n{}'.format(i)) for i, k in enumerate(kinds)]).build([])
    want = {}
    for i, k in enumerate(kinds):
        want.update(expected(k, 'n{}'.format(i), batch))
    got = ctx.accepts('extracting', extractor.get_features, batch)
    for name in want:
        ctx.check(got.get(name) == want[name], 'feature {} of {} builders', name, n)
    ctx.equal(sorted(got), sorted(want), 'feature names')
    ctx.state(kinds, len(batch))


SCENARIOS = {'union': union, 'name clash': clash, 'builds': built, 'interpretation': interpretation, 'composites': composites, 'real providers': real, 'scale': scale}
