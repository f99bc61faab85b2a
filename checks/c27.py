"""C27 The neural tagger applies each prediction to the token it was made for"""
import gc
import os
import shutil
import tempfile

from mc import docs, fake, gen
from mc.docs import Item, Word

BOUNDS = {
    'quick': 'all documents of <=3 surface tokens (bare, annotated, multi-word; every sentence split; syntax; extras) x prediction patterns, all predictions of '
             '<=4 labels for <=3 words; streams of <=3 documents through direct, saved-and-loaded and lazy taggers; every fault position (document source, '
             'model, loading) and abandonment point of lazy taggers, closed explicitly or dropped; several saved taggers interleaved; 60 sentences of 30 words',
    'thorough': 'documents of <=4 surface tokens',
}
ASSUMPTIONS = ['the TensorFlow model is a stand-in that answers with enumerated predictions']


def load(thorough):
    global dm, nt, Model, fp, np
    nt, Model, _ = fake.neural()
    import numpy as np
    import babylondigger.datamodel as dm
    import babylondigger.features.provider as fp


TAGS = (('N', None, {}), ('V', 'x', {'A': 'b'}), ('A', 'y', {}))


def parts(thing='pos_joint'):
    """feature extractor, interpreter and the decoded tags and lemmas of every id"""
    words = (('cats', 'cat', 0), ('cats', 'cat', 0), ('ran', 'run', 1), ('b', 'b', 2))
    tokens, text = [], ''
    for w, l, k in words:
        tokens.append(dm.Token(len(text), len(text) + len(w), pos=dm.Pos(*TAGS[k]), lemma=l))
        text += w + ' '
    data = (dm.Document(text, tokens),)
    provider = fp.FeatureExtractorBuilderProvider([
        fp.SentenceLengthExtractorProvider('length'), fp.SubwordsExtractorProvider('chars', {'min_frequency': 1, 'segmenter': 'char'}),
        fp.TrainableWordEmbeddingExtractorProvider('word', {'min_frequency': 1, 'lowercase': False}),
        fp.PosDictExtractorProvider('pos', 'pos_joint'), fp.LemmaDictExtractorProvider('lemma')])
    features, labels, interpreter, _ = provider.build(data)
    encoded = labels.get_features([data[0].get_sentence(0)])
    pos = {row[0]: gen.pos_view(t.pos) for row, t in zip(encoded['pos'][0], data[0].tokens)}
    lemma = {row[0]: t.lemma for row, t in zip(encoded['lemma'][0], data[0].tokens)}
    return features, interpreter, pos, lemma


def words_of(document):
    return [[t.text for t in s] for s in document.sentences]


def plan(document, number=0):
    """default predictions: (tag id, lemma id) per sentence and word"""
    return [[((i + j + number) % 3, (2 * i + j + number) % 3) for j in range(len(s))] for i, s in enumerate(words_of(document))]


def answers(prediction, as_array):
    rows = {'pos': [[[p] for p, _ in prediction]], 'lemma': [[[l] for _, l in prediction]]}
    return {k: np.array(v) for k, v in rows.items()} if as_array else rows


def check_result(ctx, source, result, predictions, pos, lemma):
    before, after = gen.doc_view(source), gen.doc_view(result)
    ctx.equal(after[:2], before[:2], 'text and sentences')
    flat = [p for s in predictions for p in s]
    ctx.equal(len(after[2]), len(before[2]), 'tokens')
    for b, a, (p, l) in zip(before[2], after[2], flat):
        ctx.equal(a, b[:5] + (lemma[l], pos[p]) + b[7:], 'tagged token')


def check_calls(ctx, features, documents, calls):
    """one request per sentence, with the features of that sentence"""
    sentences = [s for d in documents for s in d.sentences]
    ctx.equal(len(calls), len(sentences), 'requests to the model')
    for s, (_, _, got) in zip(sentences, calls):
        ctx.equal(got, features.get_features([s]), 'features of {}'.format([t.text for t in s]))
        ctx.equal(got['length'], [s.tokens_count], 'sentence length')


def documents(ctx):
    sentences = docs.pick_sentences(ctx, 4 if ctx.thorough else 3, kinds=('bare', 'full', 'multi'))
    doc = docs.build(dm, sentences)
    if ctx.flag('extras'):
        doc = docs.with_extras(dm, doc)
    shift = ctx.pick((0, 1), 'predictions')
    predictions = plan(doc, shift)
    features, interpreter, pos, lemma = parts()
    queue = list(predictions)
    as_array = ctx.flag('arrays') if len(sentences) == 1 else True
    Model.reset(lambda model, f: answers(queue.pop(0), as_array))
    before = gen.doc_view(doc)
    tagger = nt.NeuralTagger(features, Model(), interpreter)
    results = ctx.accepts('tagging', lambda: list(getattr(tagger, ctx.pick(('tag', 'process'), 'method'))(iter([doc]))))
    ctx.equal(len(results), 1, 'documents')
    check_result(ctx, doc, results[0], predictions, pos, lemma)
    check_calls(ctx, features, [doc], [c for c in Model.log if c[0] == 'predict'])
    ctx.equal(gen.doc_view(doc), before, 'input document')
    ctx.state(gen.doc_view(results[0]))


def predictions(ctx):
    """every prediction for up to three words in every split"""
    n = ctx.pick((1, 2, 3), 'words')
    split = ctx.pick(gen.splits(n), 'sentences')
    given = [(ctx.pick((0, 1, 2), 'tag id'), ctx.pick((0, 1, 2), 'lemma id')) for _ in range(n)]
    sentences = [[Item('w%d' % i) for i in range(a, b)] for a, b in split]
    doc = docs.build(dm, sentences)
    plan_ = [given[a:b] for a, b in split]
    features, interpreter, pos, lemma = parts()
    queue = list(plan_)
    Model.reset(lambda model, f: answers(queue.pop(0), True))
    results = list(nt.NeuralTagger(features, Model(), interpreter).tag(iter([doc])))
    check_result(ctx, doc, results[0], plan_, pos, lemma)
    ctx.state(split, given)


def source_documents(kinds):
    result = []
    for i, k in enumerate(kinds):
        result.append(docs.build(dm, {
            'empty': [], 'one': [[Item('a%d' % i)]],
            'two': [[Item('b%d' % i), Item('mw', [Word('x'), Word('y%d' % i)])], [Item('c')]]}[k]))
    return result


def by_content(model, features):
    """a model whose answer depends on weights and input only"""
    k = model.weights
    chars = features['chars'][0]
    rows = [((sum(c) + k) % 3, (2 * sum(c) + k + j) % 3) for j, c in enumerate(chars)]
    return answers(rows, True)


def scratch(ctx):
    folder = tempfile.mkdtemp(prefix='verif-mc-')
    ctx.cleanups.append(lambda: shutil.rmtree(folder, ignore_errors=True))
    return folder


def saving(ctx):
    """saved and loaded taggers, eager and lazy, tag every stream like the original"""
    folder = scratch(ctx)
    kinds = [ctx.pick(('empty', 'one', 'two'), 'document') for _ in range(ctx.pick((0, 1, 2, 3), 'documents'))]
    sources = source_documents(kinds)
    features, interpreter, pos, lemma = parts()
    Model.reset(by_content)
    model = Model(None, ctx.pick((0, 1), 'weights'))
    tagger = nt.NeuralTagger(features, model, interpreter)
    path = os.path.join(folder, ctx.pick(('model', os.path.join('deep', 'er', 'model')), 'path'))
    if ctx.flag('directory exists'):
        os.makedirs(path)
    saved = ctx.accepts('saving', tagger.save, path)
    want = [gen.doc_view(d) for d in tagger.tag(iter(sources))]
    model.weights += 5      # later training does not reach the saved tagger
    calls = [c for c in Model.log if c[0] == 'predict']
    check_calls(ctx, features, sources, calls)
    trace = []
    for _ in range(2):
        how = ctx.pick(('returned', 'eager', 'lazy'), 'use')
        trace.append(how)
        if how == 'eager':
            with ctx.accepts('loading', nt.NeuralTagger.load, path) as loaded:
                got = [gen.doc_view(d) for d in loaded.tag(iter(sources))]
        else:
            lazy = saved if how == 'returned' else nt.LazyNeuralTagger(path)
            got = [gen.doc_view(d) for d in lazy.tag(iter(sources))]
        ctx.equal(got, want, 'documents tagged by the {} tagger'.format(how))
        ctx.check(all(m.closed for m in Model.opened[1:]), 'models left open after {}', trace)
    ctx.equal(model.closed, 0, 'closes of the original model')
    ctx.state(kinds, trace)


class Broken(Exception):
    pass


def lifecycle(ctx):
    """lazy taggers release their model whatever happens"""
    folder = scratch(ctx)
    features, interpreter, pos, lemma = parts()
    Model.reset(by_content)
    path = os.path.join(folder, 'm')
    nt.NeuralTagger(features, Model(None, 0), interpreter).save(path)
    Model.reset()
    count = ctx.pick((0, 1, 2, 3), 'documents')
    sources = source_documents(['two' if i % 2 else 'one' for i in range(count)])
    ending = ctx.pick(('exhausted', 'source fails', 'model fails', 'abandoned', 'dropped', 'load fails', 'thrown into'), 'ending')
    at = ctx.pick(range(count + 1), 'at document')
    requests = [0]

    def answer(model, f):
        requests[0] += 1
        if ending == 'model fails' and requests[0] == at + 1:
            raise Broken()
        return by_content(model, f)
    Model.answer = answer
    Model.fail_load = ending == 'load fails'
    used = ctx.flag('process')

    def feed():
        for i, d in enumerate(sources):
            if ending == 'source fails' and i == at:
                raise Broken()
            yield d
        if ending == 'source fails' and at == count:
            raise Broken()
    lazy = nt.LazyNeuralTagger(path)
    stream = lazy.process(feed()) if used else lazy.tag(feed())
    results = []
    total = sum(d.sentences_count for d in sources)
    if ending == 'exhausted':
        results = list(stream)
        ctx.equal(len(results), count, 'documents')
    elif ending == 'load fails':
        ctx.rejects('loading', lambda: list(stream), exc=OSError)
    elif ending == 'source fails' or ending == 'model fails' and at < total:
        def consume():
            for d in stream:
                results.append(d)
        ctx.rejects('a failing stream', consume, exc=Broken)
        if ending == 'source fails':
            ctx.equal(len(results), at, 'documents before the failure')
    elif ending == 'model fails':
        ctx.equal(len(list(stream)), count, 'documents')
    else:
        stream = iter(stream)
        for _ in range(at):
            results.append(next(stream))
        if ending == 'thrown into':
            ctx.rejects('an error thrown into the stream', stream.throw, Broken(), exc=Broken)
        elif ending == 'abandoned':
            stream.close()
        else:
            del stream
            gc.collect()
    ctx.check(all(m.closed >= 1 for m in Model.opened), '{} at {}: models opened {}, closed {}', ending, at, len(Model.opened), [m.closed for m in Model.opened])
    for d, r in zip(sources, results):
        ctx.equal(gen.doc_view(r)[:2], gen.doc_view(d)[:2], 'text and sentences')
    # and can be used again
    Model.fail_load = False
    Model.answer = by_content
    again = ctx.accepts('tagging again', lambda: list(lazy.tag(iter(sources))))
    ctx.equal(len(again), count, 'documents')
    ctx.check(all(m.closed >= 1 for m in Model.opened), 'models left open after using the tagger again')
    ctx.state(ending, at, count, len(Model.log))


def interleaved(ctx):
    """two saved taggers used alternately do not mix"""
    folder = scratch(ctx)
    features, interpreter, pos, lemma = parts()
    Model.reset(by_content)
    paths = [os.path.join(folder, 'epoch-%d' % i) for i in range(2)]
    shared = Model(None, 0)
    taggers, want = [], []
    sources = source_documents(['one', 'two', 'one'])
    for i, p in enumerate(paths):
        shared.weights = i
        tagger = nt.NeuralTagger(features, shared, interpreter)
        taggers.append(tagger.save(p))
        want.append([gen.doc_view(d) for d in tagger.tag(iter(sources))])
    shared.weights = 7
    streams = [iter(t.tag(iter(sources))) for t in taggers]
    got = [[], []]
    order = []
    while len(got[0]) + len(got[1]) < 6:
        k = ctx.pick([i for i in range(2) if len(got[i]) < 3], 'next stream')
        order.append(k)
        got[k].append(gen.doc_view(next(streams[k])))
    ctx.equal(got, want, 'documents of interleaved taggers')
    for s in streams:
        ctx.equal(list(s), [], 'rest')
    ctx.check(all(m.closed for m in Model.opened[1:]), 'models left open')
    ctx.state(order)


def scale(ctx):
    n = ctx.pick((1, 60), 'sentences')
    length = ctx.pick((1, 30), 'words')
    count = ctx.pick((1, 4), 'documents')
    sentences = [[Item('ran%d' % j) if (i + j) % 5 else Item('mw', [Word('cats'), Word('b')]) for j in range(length)] for i in range(n)]
    sources = [docs.with_extras(dm, docs.build(dm, sentences), k) for k in range(count)]
    features, interpreter, pos, lemma = parts()
    plans = [plan(d, k) for k, d in enumerate(sources)]
    queue = [p for q in plans for p in q]
    Model.reset(lambda model, f: answers(queue.pop(0), True))
    results = list(nt.NeuralTagger(features, Model(), interpreter).tag(iter(sources)))
    ctx.equal(len(results), count, 'documents')
    for s, r, p in zip(sources, results, plans):
        check_result(ctx, s, r, p, pos, lemma)
    ctx.state(n, length, count)


SCENARIOS = {'documents': documents, 'predictions': predictions, 'saving': saving, 'lifecycle': lifecycle, 'interleaved': interleaved, 'scale': scale}
