"""C25 Taggers and parsers never alter text, segmentation, order or foreign annotation"""
from collections import Counter

from mc import docs, gen
from mc.docs import Item, Word

BOUNDS = {
    'quick': 'all documents of <=3 surface tokens (4 kinds incl. multi-word, every sentence split, with and without syntax and extras), 5 tags / 3 relations; '
             'streams of <=3 documents (with empty ones) consumed in every interleaving of pulls; chains of <=3 taggers and parsers; training on all '
             'sequences of <=4 tags out of 4 cut into documents, with and without scoring; 200 tokens in 20 sentences',
    'thorough': 'documents of <=4 surface tokens, training sequences of <=5 tags',
}


def load(thorough):
    global dm, tg, pa
    import babylondigger.datamodel as dm
    import babylondigger.tagger as tg
    import babylondigger.parser as pa


def check_tagged(ctx, before, after, pos):
    """before/after: doc_view"""
    ctx.equal(after[:2], before[:2], 'text and sentences')
    ctx.equal(len(after[2]), len(before[2]), 'tokens')
    for b, a in zip(before[2], after[2]):
        want = b[:5] + (b[4], gen.pos_view(pos)) + b[7:]
        ctx.equal(a, want, 'tagged token')


def check_parsed(ctx, before, after, deprel):
    ctx.equal(after[:2], before[:2], 'text and sentences')
    ctx.equal(len(after[2]), len(before[2]), 'tokens')
    first = {start for start, _ in before[1]}
    for i, (b, a) in enumerate(zip(before[2], after[2])):
        head = -1 if i in first else i - 1
        ctx.equal(a, b[:7] + (head, deprel) + b[9:], 'parsed token {}'.format(i))


def document(ctx, most, number=0):
    sentences = docs.pick_sentences(ctx, most)
    result = docs.build(dm, sentences, ctx.pick(('', '  '), 'lead') if len(sentences) == 1 else '')
    return docs.with_extras(dm, result, number) if ctx.flag('extras') else result


def single(ctx):
    doc = document(ctx, 4 if ctx.thorough else 3)
    before = gen.doc_view(doc)
    for tag in ((None, None, {}), ('NOUN', 'x', {'A': 'b'})) if doc.tokens_count > 2 else ((None, None, {}), ('NOUN', 'x', {'A': 'b'}), (None, 'x', {}), None, ('X', None, {})):
        pos = tag and dm.Pos(*tag)
        for method in ('tag', 'process'):
            result = ctx.accepts('tagging', lambda: list(getattr(tg.StubTagger(pos), method)(iter([doc]))))
            ctx.equal(len(result), 1, 'documents')
            check_tagged(ctx, before, gen.doc_view(result[0]), pos)
            ctx.equal(gen.doc_view(doc), before, 'input document')
    for deprel in (None, 'dep', ''):
        for method in ('parse', 'process'):
            parser = pa.StubParser() if deprel is None else pa.StubParser(deprel)
            result = ctx.accepts('parsing', lambda: list(getattr(parser, method)(iter([doc]))))
            ctx.equal(len(result), 1, 'documents')
            check_parsed(ctx, before, gen.doc_view(result[0]), deprel)
            ctx.equal(gen.doc_view(doc), before, 'input document')
            for sentence in result[0].sentences:
                heads = [t.head_index for t in sentence]
                ctx.check(gen.is_tree([h if h is not None else None for h in heads]), 'heads {} of a sentence', heads)
    ctx.state(before)


def stream(ctx):
    """lazy, in order, one result per document"""
    count = ctx.pick((0, 1, 2, 3), 'documents')
    kinds = [ctx.pick(('empty', 'one', 'two sentences'), 'document') for _ in range(count)]
    which = ctx.pick(('tagger', 'parser', 'tagger then parser', 'parser then tagger', 'tagger, parser, tagger'), 'processors')
    sources = []
    for i, k in enumerate(kinds):
        sentences = {'empty': [], 'one': [[Item('w%d' % i)]], 'two sentences': [[Item('a%d' % i), Item('m', [Word('x'), Word('y')])], [Item('b')]]}[k]
        sources.append(docs.build(dm, sentences))
    pulled = []

    def feed():
        for i, d in enumerate(sources):
            pulled.append(i)
            yield d
    pos = dm.Pos('P', 'q', {})
    stream_ = feed()
    for name in which.replace(' then ', ', ').split(', '):
        stream_ = tg.StubTagger(pos).process(stream_) if name == 'tagger' else pa.StubParser('r').process(stream_)
    ctx.equal(pulled, [], 'documents pulled before the first result is asked for')
    results = []
    stop = ctx.pick(range(count + 1), 'results taken')
    iterator = iter(stream_)
    for i in range(stop):
        results.append(ctx.accepts('next result', next, iterator))
        ctx.equal(pulled, list(range(i + 1)), 'documents pulled for {} results'.format(i + 1))
    if stop == count:
        ctx.equal(list(iterator), [], 'further results')
    for source, result in zip(sources, results):
        b, a = gen.doc_view(source), gen.doc_view(result)
        ctx.equal(a[:2], b[:2], 'text and sentences')
        for i, t in enumerate(result.tokens):
            if 'tagger' in which:
                ctx.check(t.pos == pos and t.lemma == t.text, 'tag {} and lemma {} of {}', t.pos, t.lemma, t.text)
            if 'parser' in which:
                ctx.equal(t.deprel, 'r', 'relation')
                ctx.check(t.has_head, 'head of {}', t)
    ctx.state(kinds, which, stop)


TAGS = (('N', None, {}), ('V', 'x', {}), ('N', None, {'A': 'b'}), None)


def training(ctx):
    tags = ctx.pick_seq(range(4), 1, 5 if ctx.thorough else 4, 'tag')
    cut = ctx.pick(range(len(tags)), 'documents cut at')
    parts = [tags[:cut], tags[cut:]] if cut else [tags]
    if ctx.flag('empty document'):
        parts.insert(0, [])
    data = [dm.Document('w ' * len(p), [dm.Token(2 * i, 2 * i + 1, pos=TAGS[k] and dm.Pos(*TAGS[k]), lemma='l') for i, k in enumerate(p)]) for p in parts]
    scored = ctx.flag('scored')
    trainer = tg.StubTaggerTrainer()
    seen = []

    def tester(tagger):
        seen.append(tagger)
        return {'score': len(seen)}
    if scored:
        result = ctx.accepts('training', lambda: list(trainer.train(data, dev_tester=tester, seed=1, model_dir='x', model_name_format='y', other=2)))
        ctx.equal([s for s, _ in result], [{'score': 1}], 'scores')
        ctx.check(len(seen) == 1 and seen[0] is result[0][1], 'scored taggers {}, returned {}', seen, result)
        taggers = [t for _, t in result]
    else:
        taggers = list(ctx.accepts('training', trainer.train, data))
    ctx.equal(len(taggers), 1, 'taggers')
    counts = Counter(tags)
    best = [k for k in counts if counts[k] == max(counts.values())]
    probe = dm.Document('Some text', [dm.Token(0, 4), dm.Token(5, 9)])
    result = list(taggers[0].tag(iter([probe])))[0]
    got = [gen.pos_view(t.pos) for t in result.tokens]
    ctx.check(got[0] == got[1] and got[0] in [gen.pos_view(TAGS[k] and dm.Pos(*TAGS[k])) for k in best], 'tags {} after training on {}', got, tags)
    ctx.equal([t.lemma for t in result.tokens], ['Some', 'text'], 'lemmas')
    ctx.state(tags, got)


def scale(ctx):
    n = ctx.pick((1, 20), 'sentences')
    length = ctx.pick((1, 10), 'tokens')
    count = ctx.pick((1, 40), 'documents')
    sentences = [[Item('w%d' % j, plain=Word('', 'l%d' % j, ('U', 'x', {'k': str(j)}))) if j % 3 else Item('mw', [Word('x'), Word('y')]) for j in range(length)] for i in range(n)]
    source = [docs.with_extras(dm, docs.build(dm, sentences), i) for i in range(count)]
    views = [gen.doc_view(d) for d in source]
    pos = dm.Pos('U')
    for view, d in zip(views, tg.StubTagger(pos).tag(iter(source))):
        check_tagged(ctx, view, gen.doc_view(d), pos)
    out = list(pa.StubParser('r').parse(iter(source)))
    ctx.equal(len(out), count, 'documents')
    for view, d in zip(views, out):
        check_parsed(ctx, view, gen.doc_view(d), 'r')
    ctx.equal([gen.doc_view(d) for d in source], views, 'input documents')
    ctx.state(n, length, count)


SCENARIOS = {'documents': single, 'streams': stream, 'training': training, 'scale': scale}
