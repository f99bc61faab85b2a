"""C20 Vocabulary features number exactly the frequent items and never collide"""
import os
import shutil
import tempfile
from collections import Counter

from mc import fake

BOUNDS = {
    'quick': 'words: all corpora of <=4 tokens over 5 forms (upper/lower case, shared characters, multi-word replacement) x all cuts into documents x '
             'thresholds 0..3 x lower-casing, all forms and unseen ones looked up, all orders of the documents; characters: the same with 5 forms; '
             'byte pairs: all segmentations of 3 forms with the three kinds of word mark; morfessor: all segmentations by models trained on 3 lexicons; '
             '14 spellings whose lower and folded case differ; vocabularies of up to 600 words and 300 characters',
    'thorough': 'corpora of <=5 tokens',
}

FORMS = ('a', 'A', 'ab', 'Ab', 'ba')


def load(thorough):
    global fp, dm, bpe, mf, models
    bpe = fake.bpe()
    import babylondigger.features.provider as fp
    import babylondigger.datamodel as dm
    import morfessor as mf
    models = {}


def document(words, replaced=False):
    tokens, text = [], ''
    for w in words:
        tokens.append(dm.Token(len(text), len(text) + len(w)))
        text += w + ' '
    return dm.Document(text, tokens)


def mwt(words):
    """the words as one multi-word token over a text that shows none of them"""
    return dm.Document('zz', [dm.Token(0, 2, sub_index=i, text_replacement=w) for i, w in enumerate(words)])


def corpus(ctx, forms, most):
    words = ctx.pick_seq(forms, 1, most, 'word')
    cut = ctx.pick(range(len(words)), 'documents cut at')
    parts = [words[:cut], words[cut:]] if cut else [words]
    docs = []
    for p in parts:
        docs.append(mwt(p) if len(p) > 1 and ctx.pick((False, True) if len(words) < 4 else (False,), 'multi-word') else document(p))
    return words, docs


def lookup(ctx, extractor, name, words):
    got = ctx.accepts('features', extractor.get_features, [document(words).get_sentence(0)], sparse_rate=0)
    ctx.equal(list(got), [name], 'feature names')
    ctx.equal(len(got[name]), 1, 'sentences')
    return got[name][0]


def check_ids(ctx, what, ids, vocabulary, size, first):
    known = {k: v for k, v in ids.items() if k in vocabulary}
    for k, v in ids.items():
        if k not in vocabulary:
            ctx.equal(v, 1, '{}: id of {!r}'.format(what, k))
    ctx.equal(sorted(known.values()), list(range(first, first + len(vocabulary))), '{}: ids of {}'.format(what, sorted(vocabulary)))
    ctx.equal(size, [len(vocabulary) + first], '{}: announced size'.format(what))


def words(ctx):
    used, docs = corpus(ctx, FORMS, 5 if ctx.thorough else 4)
    threshold = ctx.pick((0, 1, 2, 3), 'threshold')
    lower = ctx.flag('lower-case')
    norm = (lambda w: w.lower()) if lower else (lambda w: w)
    counts = Counter(map(norm, used))
    vocabulary = {w for w, n in counts.items() if n >= threshold}
    tables = []
    for order in (docs, docs[::-1]):
        provider = fp.TrainableWordEmbeddingExtractorProvider('w', {'min_frequency': threshold, 'lowercase': lower})
        extractor, interpreter, initializer = ctx.accepts('building', provider.feature_extractor_builder().build, order)
        query = list(FORMS) + ['zz', 'b', 'AB', 'aba']
        ids = {}
        for w, i in zip(query, lookup(ctx, extractor, 'w', query)):
            ctx.equal(ids.setdefault(norm(w), i), i, 'ids of forms with one spelling {!r}'.format(norm(w)))
        check_ids(ctx, 'words {} threshold {} lower {}'.format(used, threshold, lower), ids, vocabulary, initializer.shapes()['w'], 2)
        ctx.equal(dict(initializer.initial_values()), {}, 'initial values')
        tables.append(ids)
    ctx.equal(tables[1], tables[0], 'ids with documents reversed')
    ctx.state(sorted(tables[0].items()), lower)


SPELLINGS = ('Stra\u00dfe', 'STRASSE', 'stra\u00dfe', '\u0130', 'i\u0307', '\u017f', 's', 'S', '\u03a3\u0391\u03a3', '\u03c3\u03b1\u03c3', '\u03c3\u03b1\u03c2', '\ufb01', 'fi', '\u01c5')


def spellings(ctx):
    """words whose lower case, upper case and folded case differ"""
    used = ctx.pick_seq(SPELLINGS, 1, 2, 'word')
    lower = ctx.flag('lower-case')
    threshold = ctx.pick((1, 2), 'threshold')
    norm = (lambda w: w.lower()) if lower else (lambda w: w)
    counts = Counter(map(norm, used))
    vocabulary = {w for w, n in counts.items() if n >= threshold}
    provider = fp.TrainableWordEmbeddingExtractorProvider('w', {'min_frequency': threshold, 'lowercase': lower})
    extractor, _, initializer = ctx.accepts('building', provider.feature_extractor_builder().build, [document(used)])
    ids = {}
    for w, i in zip(SPELLINGS, lookup(ctx, extractor, 'w', SPELLINGS)):
        ctx.equal(ids.setdefault(norm(w), i), i, 'ids of forms with one spelling {!r}'.format(norm(w)))
    check_ids(ctx, 'words {} threshold {} lower {}'.format(used, threshold, lower), ids, vocabulary, initializer.shapes()['w'], 2)
    ctx.state(sorted(ids.items()), lower)


def characters(ctx):
    used, docs = corpus(ctx, ('a', 'b', 'aB', 'aab', 'Ca'), 4 if ctx.thorough else 3)
    threshold = ctx.pick((0, 1, 2, 3, 4), 'threshold')
    counts = Counter(c for w in used for c in w)
    vocabulary = {w for w, n in counts.items() if n >= threshold}
    tables = []
    for order in (docs, docs[::-1]):
        provider = fp.SubwordsExtractorProvider('c', {'min_frequency': threshold, 'segmenter': 'char'})
        extractor, _, initializer = ctx.accepts('building', provider.feature_extractor_builder().build, order)
        query = sorted(set('abBCAcz'))
        ids = {}
        for c, row in zip(query, lookup(ctx, extractor, 'c', query)):
            ctx.check(len(row) == 3 and row[0] == 2 and row[2] == 3, 'feature {} of {!r}', row, c)
            ids[c] = row[1]
        check_ids(ctx, 'characters of {} threshold {}'.format(used, threshold), ids, vocabulary, initializer.shapes()['c'], 4)
        for w in ('aab', 'Cab', 'zaz', 'bBa'):
            ctx.equal(lookup(ctx, extractor, 'c', [w])[0], [2] + [ids[c] for c in w] + [3], 'feature of {!r}'.format(w))
        tables.append(ids)
    ctx.equal(tables[1], tables[0], 'ids with documents reversed')
    ctx.state(sorted(tables[0].items()))


def pieces_of(w):
    from mc import gen
    return [[w[a:b] for a, b in split] for split in gen.splits(len(w))]


def byte_pairs(ctx):
    table, plain = {}, {}
    for w in ('ab', 'aba', 'b'):
        pieces = ctx.pick(pieces_of(w), 'pieces')
        mark = ctx.pick(('joined', 'alone', 'none'), 'word mark')
        plain[w] = pieces
        table[w] = (['\u2581' + pieces[0]] + pieces[1:] if mark == 'joined' else ['\u2581'] + pieces if mark == 'alone' else list(pieces))
    bpe.table = table
    bpe.created = []
    threshold = ctx.pick((1, 2), 'threshold')
    used = ['ab', 'aba']
    provider = fp.SubwordsExtractorProvider('c', {'min_frequency': threshold, 'segmenter': 'bpe', 'segmenter_config': {'language': 'xx', 'vocab_size': 77}})
    extractor, _, initializer = ctx.accepts('building', provider.feature_extractor_builder().build, [document(used)])
    ctx.equal(bpe.created, [((), {'lang': 'xx', 'vs': 77})], 'segmenter created with')
    counts = Counter(p for w in used for p in plain[w])
    vocabulary = {p for p, n in counts.items() if n >= threshold}
    rows = dict(zip(table, lookup(ctx, extractor, 'c', list(table))))
    ids = {}
    longest = max(len(p) for p in plain.values()) + 2
    for w, row in rows.items():
        ctx.equal(len(row), longest, 'padded length for {!r}'.format(w))
        n = len(plain[w])
        ctx.check(row[0] == 2 and row[n + 1] == 3 and not any(row[n + 2:]), 'feature {} of {!r} = {}', row, w, table[w])
        for p, i in zip(plain[w], row[1:]):
            ctx.equal(ids.setdefault(p, i), i, 'ids of the piece {!r}'.format(p))
    check_ids(ctx, 'pieces {}'.format(table), ids, vocabulary, initializer.shapes()['c'], 4)
    ctx.state(sorted(ids.items()), sorted(rows.items()))


LEXICONS = ((('unlock', 10), ('lock', 10), ('un', 10)), (('cats', 5), ('cat', 9), ('dogs', 5), ('dog', 9), ('s', 3)), (('aaa', 3), ('a', 9), ('bab', 4)))


def model(number):
    if number not in models:
        folder = tempfile.mkdtemp(prefix='verif-mc-')
        path = os.path.join(folder, 'model')
        try:
            m = mf.BaselineModel()
            m.load_data([(n, tuple(w)) for w, n in LEXICONS[number]])
            m.train_batch()
            mf.MorfessorIO().write_binary_model_file(path, m)
            models[number] = open(path, 'rb').read()
        finally:
            shutil.rmtree(folder, ignore_errors=True)
    return models[number]


def morphs(ctx):
    number = ctx.pick(range(len(LEXICONS)), 'lexicon')
    content = model(number)
    folder = tempfile.mkdtemp(prefix='verif-mc-')
    ctx.cleanups.append(lambda: shutil.rmtree(folder, ignore_errors=True))
    path = os.path.join(folder, 'model')
    with open(path, 'wb') as f:
        f.write(content)
    reference = mf.MorfessorIO().read_any_model(path)
    used = [ctx.pick(('unlock', 'cats', 'aaa'), 'word'), ctx.pick(('locks', 'dogs', 'baba'), 'word')]
    config = {'min_frequency': ctx.pick((1, 2), 'threshold'), 'segmenter': 'morfessor', 'segmenter_config': {'path': path}}
    extractor, _, initializer = ctx.accepts('building', fp.SubwordsExtractorProvider('c', config).feature_extractor_builder().build, [document(used)])
    query = ['unlock', 'cats', 'aaa', 'locks', 'dogs', 'baba', 'q']
    plain = {w: reference.viterbi_segment(w)[0] for w in query}
    ctx.check(all(''.join(p) == w for w, p in plain.items()), 'morfessor changed a word')
    counts = Counter(p for w in used for p in plain[w])
    vocabulary = {p for p, n in counts.items() if n >= config['min_frequency']}
    ids = {}
    for w in query:
        row = lookup(ctx, extractor, 'c', [w])[0]
        ctx.check(len(row) == len(plain[w]) + 2 and row[0] == 2 and row[-1] == 3, 'feature {} of {} = {}', row, w, plain[w])
        for p, i in zip(plain[w], row[1:]):
            ctx.equal(ids.setdefault(p, i), i, 'ids of the piece {!r}'.format(p))
    check_ids(ctx, 'morphs', ids, vocabulary, initializer.shapes()['c'], 4)
    ctx.state(sorted(ids.items()))


def scale(ctx):
    n = ctx.pick((1, 50, 257, 600), 'words')
    threshold = ctx.pick((1, 2, 3, 10), 'threshold')
    kind = ctx.pick(('words', 'characters'), 'kind')
    order = ctx.pick(('frequent first', 'rare first', 'mixed'), 'order')
    if kind == 'words':
        items = ['w{}'.format(i) for i in range(n)]
    else:
        items = [chr(0x4e00 + i) for i in range(min(n, 300))]
    counts = {x: 1 + i % 11 for i, x in enumerate(items)}
    used = [x for x in items for _ in range(counts[x])]
    used.sort(key=lambda x: counts[x] if order == 'rare first' else -counts[x] if order == 'frequent first' else items.index(x) * 7919 % 1009)
    vocabulary = {x for x in items if counts[x] >= threshold}
    if kind == 'words':
        provider = fp.TrainableWordEmbeddingExtractorProvider('f', {'min_frequency': threshold, 'lowercase': False})
        extractor, _, initializer = provider.feature_extractor_builder().build([document(used)])
        ids = dict(zip(items + ['unseen'], lookup(ctx, extractor, 'f', items + ['unseen'])))
        check_ids(ctx, '{} words'.format(n), ids, vocabulary, initializer.shapes()['f'], 2)
    else:
        provider = fp.SubwordsExtractorProvider('f', {'min_frequency': threshold, 'segmenter': 'char'})
        extractor, _, initializer = provider.feature_extractor_builder().build([document([''.join(used[i:i + 20]) for i in range(0, len(used), 20)])])
        row = lookup(ctx, extractor, 'f', [''.join(items) + 'x'])[0]
        ctx.check(row[0] == 2 and row[-1] == 3, 'start and end')
        ids = dict(zip(items + ['x'], row[1:-1]))
        check_ids(ctx, '{} characters'.format(n), ids, vocabulary, initializer.shapes()['f'], 4)
    ctx.state(n, threshold, kind, order)


SCENARIOS = {'words': words, 'spellings': spellings, 'characters': characters, 'byte pairs': byte_pairs, 'morphs': morphs, 'scale': scale}
