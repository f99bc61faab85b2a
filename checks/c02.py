"""C02 Syntax validation accepts exactly single-rooted in-sentence trees"""
from mc.gen import is_tree, splits

BOUNDS = {
    'quick': 'all head functions of one sentence of <=5 words and of all splittings of <=4 words into sentences, in 4 '
             'representations; every single-head mutation of 7 tree shapes of up to 12 words and selected ones up to 250 and of 3000',
    'thorough': 'one sentence <=6 words, splittings of <=5 words, shapes of up to 5000 words',
}


def load(thorough):
    global dm
    import babylondigger.datamodel as dm


FORMS = ('sentence', 'document', 'both', 'mixed')


def make(ctx, ranges, heads, form, validate=True):
    """heads are document indices (-1 root, None absent), possibly outside of the sentence or of the document"""
    tokens = []
    for a, b in ranges:
        for i in range(a, b):
            h = heads[i]
            sent = None if h is None else (-1 if h == -1 else h - a)
            use = form if form != 'mixed' else ('sentence', 'document')[i % 2]
            kwargs = {}
            if use in ('sentence', 'both'):
                kwargs['head_sentence_index'] = sent
            if use in ('document', 'both'):
                kwargs['head_document_index'] = h
            tokens.append(dm.Token(2 * i, 2 * i + 1, deprel='dep', **kwargs))
    return dm.Document('a ' * len(heads), tokens, [dm.Sentence(a, b) for a, b in ranges], validate)


def expected(ranges, heads):
    for a, b in ranges:
        part = heads[a:b]
        if all(h is None for h in part):
            continue
        if not is_tree([h if h is None or h == -1 else (h - a if a <= h < b else 10 ** 6) for h in part]):
            return False
    return True


def decide(ctx, ranges, heads, form):
    what = 'sentences {} heads {} given by {}'.format(ranges, heads if len(heads) < 20 else '...', form)
    ctx.state(ranges if len(ranges) < 9 else len(ranges), heads if len(heads) < 20 else hash(tuple(heads)))
    ambiguous = form != 'document' and any(
        heads[i] is not None and heads[i] != -1 and heads[i] - a < 0 for a, b in ranges for i in range(a, b))
    if ambiguous:
        ctx.prune()      # a head before its sentence cannot be written relative to the sentence
    if expected(ranges, heads):
        doc = ctx.accepts(what, make, ctx, ranges, heads, form)
        ctx.equal([t.head_index for t in doc.tokens], list(heads), 'heads of the accepted document')
    else:
        ctx.rejects(what, make, ctx, ranges, heads, form)


def single(ctx):
    n = ctx.pick(range(1, 7 if ctx.thorough else 6), 'words')
    values = [-1] + list(range(n)) + [n, None]
    heads = [ctx.pick(values, 'head') for _ in range(n)]
    decide(ctx, ((0, n),), heads, ctx.pick(FORMS if n < 5 else FORMS[:2], 'form'))


def several(ctx):
    n = ctx.pick(range(2, 6 if ctx.thorough else 5), 'words')
    ranges = ctx.pick(splits(n)[1:], 'sentences')
    values = [-1] + list(range(n)) + [n, None]
    heads = [ctx.pick(values, 'head') for _ in range(n)]
    decide(ctx, ranges, heads, ctx.pick(FORMS, 'form'))


def pairs(ctx):
    """two sentences with every combination of trees, one of them optionally corrupted"""
    first = ctx.pick((1, 2, 3), 'length of the first sentence')
    second = ctx.pick((1, 2, 3), 'length of the second sentence')
    from mc.gen import trees
    a = ctx.pick(trees(first) + [(None,) * first], 'first')
    b = ctx.pick(trees(second) + [(None,) * second], 'second')
    heads = list(a) + [h if h is None or h == -1 else h + first for h in b]
    n = first + second
    where = ctx.pick(range(-1, n), 'corrupted word')
    if where >= 0:
        heads[where] = ctx.pick([-1, None] + list(range(n + 1)), 'new head')
    decide(ctx, ((0, first), (first, n)), heads, ctx.pick(('document', 'mixed'), 'form'))


def negative(ctx):
    """indices below -1 never denote a word"""
    n = ctx.pick((1, 2, 3), 'words')
    start = ctx.pick((0, 1, 2), 'words before')
    i = ctx.pick(n, 'word')
    value = ctx.pick((-2, -3, -4), 'head')
    form = ctx.pick(('sentence', 'document'), 'form')
    tokens = [dm.Token(2 * j, 2 * j + 1, head_sentence_index=j - 1) for j in range(start)]
    for j in range(n):
        k = start + j
        if i == j:
            tokens.append(dm.Token(2 * k, 2 * k + 1, **{'head_%s_index' % form: value}))
        else:
            tokens.append(dm.Token(2 * k, 2 * k + 1, head_sentence_index=-1 if j == (0 if i else 1) else (0 if i else 1)))
    sentences = ([dm.Sentence(0, start)] if start else []) + [dm.Sentence(start, start + n)]
    ctx.state(n, start, i, value, form)
    ctx.rejects('head {} relative to the {}'.format(value, form), dm.Document, 'a ' * (n + start), tokens, sentences, True)


def shape(name, n):
    if name == 'right chain':
        return [i - 1 for i in range(n)]
    if name == 'left chain':
        return [i + 1 for i in range(n - 1)] + [-1]
    if name == 'star first':
        return [-1] + [0] * (n - 1)
    if name == 'star last':
        return [n - 1] * (n - 1) + [-1]
    if name == 'binary':
        return [-1] + [(i - 1) // 2 for i in range(1, n)]
    if name == 'middle':
        m = n // 2
        return [i + 1 if i < m else (-1 if i == m else i - 1) for i in range(n)]
    if name == 'zigzag':       # 0 -> n-1 -> 1 -> n-2 ...
        order = []
        a, b = 0, n - 1
        while a <= b:
            order.append(a)
            if a != b:
                order.append(b)
            a, b = a + 1, b - 1
        heads = [None] * n
        for k, i in enumerate(order):
            heads[i] = order[k + 1] if k + 1 < len(order) else -1
        return heads
    raise AssertionError(name)


SHAPES = ('right chain', 'left chain', 'star first', 'star last', 'binary', 'middle', 'zigzag')


def large(ctx):
    n = ctx.pick((6, 9, 12, 40, 130, 250, 1500, 5000) if ctx.thorough else (6, 9, 12, 40, 130, 250, 3000), 'words')
    heads = shape(ctx.pick(SHAPES, 'shape'), n)
    offset = ctx.pick((0, 5), 'words in the sentence before')
    probes = range(n) if n <= 12 else sorted({0, 1, 2, n // 2, n // 2 + 1, n - 3, n - 2, n - 1}) if n < 2000 else [0, n // 2, n - 1]
    i = ctx.pick([None] + list(probes), 'mutated word')
    if i is not None:
        heads[i] = ctx.pick([-1, None, n] + list(probes), 'new head')
    heads = [h if h is None or h == -1 else h + offset for h in heads]
    ranges = ((0, n),)
    if offset:
        heads = [offset - 1] * (offset - 1) + [-1] + heads
        ranges = ((0, offset), (offset, offset + n))
    decide(ctx, ranges, heads, ctx.pick(('sentence', 'document'), 'form'))


SCENARIOS = {'one sentence': single, 'several sentences': several, 'two trees': pairs, 'negative heads': negative,
             'large sentences': large}
