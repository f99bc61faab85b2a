"""C24 Pretrained vectors are attached to the word whose id they belong to"""
import os
import shutil
import tempfile

from mc import fake

BOUNDS = {
    'quick': 'all files of <=3 words out of 7 in every order, vectors of 1..3 numbers in 4 notations, with and without header, \\n and \\r\\n line ends, '
             'with and without final line end; word (lower-casing on/off) and subword (characters, byte pairs) features; all positions of a vector of '
             'another size; repeated reads of the initial values; 1000 words x 50; all histories of 3 builds over rewritten files',
    'thorough': 'files of <=4 words',
}

WORDS = ('a', 'A', 'ab', '\u00e9', '\U0001f600', '1', '</s>')
QUERY = ('a', 'A', 'ab', 'AB', '\u00e9', '\u00c9', '\U0001f600', '1', '</s>', 'zz', 'b')


def load(thorough):
    global fp, dm, bpe
    bpe = fake.bpe()
    import babylondigger.features.provider as fp
    import babylondigger.datamodel as dm


def document(words):
    tokens, text = [], ''
    for w in words:
        tokens.append(dm.Token(len(text), len(text) + len(w)))
        text += w + ' '
    return dm.Document(text, tokens)


def number(i, j, notation):
    return {'plain': '{}.{}'.format(i, j + 1), 'negative': '-0.{}{}'.format(i + 1, j), 'exponent': '{}e-{:02}'.format(i + 1, j), 'integer': str(10 * i + j)}[notation]


def write(ctx, lines, end, last):
    folder = tempfile.mkdtemp(prefix='verif-mc-')
    ctx.cleanups.append(lambda: shutil.rmtree(folder, ignore_errors=True))
    path = os.path.join(folder, 'vectors')
    with open(path, 'wb') as f:
        f.write((end.join(lines) + (end if last else '')).encode('utf8'))
    return path


def provider(kind, path, lower):
    if kind == 'word':
        return fp.WordEmbeddingExtractorProvider('f', 'init', {'path': path, 'lowercase': lower})
    config = {'embedding_path': path, 'segmenter': kind}
    if kind == 'bpe':
        config['segmenter_config'] = {'language': 'x', 'vocab_size': 9}
    return fp.SubwordEmbeddingExtractorProvider('f', 'init', config)


def check(ctx, kind, path, lower, words, vectors, size):
    """words/vectors: content of the file"""
    return checked(ctx, kind, provider(kind, path, lower), lower, words, vectors, size)


def checked(ctx, kind, builder, lower, words, vectors, size):
    first = 2 if kind == 'word' else 4
    table = {}
    if kind == 'bpe':
        bpe.table = table = {w: ['\u2581' + w] for w in QUERY}
    extractor, _, initializer = ctx.accepts('reading', builder.feature_extractor_builder().build, [document(['ignored'])])
    shape = initializer.shapes()
    ctx.equal(sorted(shape), ['init'], 'initialized names')
    ctx.check(len(shape['init']) == 2 and shape['init'][0] == len(words) + first and shape['init'][1] == size, 'shape {} for {} words of {}', shape, len(words), size)
    for _ in range(2):       # may be consumed more than once
        values = list(initializer.initial_values()['init'])
        ids = [i for i, _ in values]
        ctx.equal(len(set(ids)), len(ids), 'initialized ids are distinct: {}'.format(ids))
        ctx.check(all(0 <= i < shape['init'][0] for i in ids), 'ids {} outside {}', ids, shape)
        ctx.check(all(len(v) == size for _, v in values), 'sizes of initial vectors')
        initial = {i: [float(x) for x in v] for i, v in values}
        ctx.equal(initial.get(0), [0.0] * size, 'vector of the padding')
        ctx.equal(len(initial), len(words) + 1, 'number of initial vectors')
    query = list(QUERY) + [w for w in words if w not in QUERY]
    if kind == 'bpe':
        bpe.table = table = {w: ['\u2581' + w] for w in query}
    rows = ctx.accepts('looking up', extractor.get_features, [document(query).get_sentence(0)], sparse_rate=0)['f'][0]
    vector = dict(zip(words, vectors))
    seen = {}
    for w, row in zip(query, rows):
        if kind == 'word':
            pieces, ids = [w.lower() if lower else w], [row]
        else:
            pieces = list(w) if kind == 'char' else [w]
            ctx.check(row[0] == 2 and row[len(pieces) + 1] == 3 and not any(row[len(pieces) + 2:]), 'feature {} of {!r}', row, w)
            ids = row[1:len(pieces) + 1]
        for p, i in zip(pieces, ids):
            if p not in vector:
                ctx.equal(i, 1, 'id of the unknown {!r}'.format(p))
                continue
            ctx.check(first <= i < shape['init'][0], 'id {} of {!r}', i, p)
            ctx.equal(seen.setdefault(i, p), p, 'words with the id {}'.format(i))
            ctx.equal(initial.get(i), vector[p], 'initial vector of {!r} (id {})'.format(p, i))
    return sorted(seen.items())


def files(ctx):
    n = ctx.pick((1, 2, 3, 4) if ctx.thorough else (1, 2, 3), 'words')
    words = []
    for _ in range(n):
        words.append(ctx.pick([w for w in WORDS if w not in words], 'word'))
    header = ctx.flag('header')
    size = ctx.pick((1, 2, 3) if header else (2, 3), 'size') if n < 3 else 2
    notation = ctx.pick(('plain', 'negative', 'exponent', 'integer'), 'notation') if n == 1 else 'plain'
    kind = ctx.pick(('word', 'char', 'bpe'), 'feature')
    lower = ctx.flag('lower-case') if kind == 'word' else False
    end = ctx.pick(('\n', '\r\n'), 'line end') if n == 2 else '\n'
    last = ctx.flag('final line end') if n == 2 else True
    text = [[number(i, j, notation) for j in range(size)] for i in range(n)]
    lines = ['{} {}'.format(n, size)] if header else []
    lines += [' '.join([w] + v) for w, v in zip(words, text)]
    path = write(ctx, lines, end, last)
    ids = check(ctx, kind, path, lower, words, [[float(x) for x in v] for v in text], size)
    ctx.state(kind, lower, header, words, ids)


def inconsistent(ctx):
    n = ctx.pick((2, 3, 4), 'words')
    header = ctx.flag('header')
    size = ctx.pick((2, 3, 5), 'size')
    bad = ctx.pick(range(n), 'line')
    other = ctx.pick([s for s in (0, 1, size - 1, size + 1, 2 * size) if s != size], 'other size')
    if bad == 0 and not header and other == 1:
        ctx.prune()      # the first line looks like a header: anything may follow
    kind = ctx.pick(('word', 'char'), 'feature')
    lines = ['{} {}'.format(n, size)] if header else []
    for i in range(n):
        lines.append(' '.join(['w{}'.format(i)] + ['0.5'] * (other if i == bad else size)))
    path = write(ctx, lines, '\n', True)
    ctx.rejects('vectors of sizes {}'.format(lines), provider(kind, path, False).feature_extractor_builder().build, [])
    ctx.state(n, header, size, bad, other, kind)


def scale(ctx):
    n = ctx.pick((50, 1000), 'words')
    size = ctx.pick((2, 50), 'size')
    header = ctx.flag('header')
    kind = ctx.pick(('word', 'bpe'), 'feature')
    order = ctx.pick(('ascending', 'descending'), 'order')
    words = ['w{:04}'.format(i) for i in range(n)]
    if order == 'descending':
        words.reverse()
    vectors = [[float(i), float(j)] + [0.25] * (size - 2) for j, i in enumerate(range(n))]
    lines = ['{} {}'.format(n, size)] if header else []
    lines += [' '.join([w] + [str(x) for x in v]) for w, v in zip(words, vectors)]
    check(ctx, kind, write(ctx, lines, '\n', True), False, words, vectors, size)
    ctx.state(n, size, header, kind, order)



def rewritten(ctx):
    """the vectors are those of the file at the time of building"""
    kind = ctx.pick(('word', 'char', 'bpe'), 'feature')
    same = ctx.flag('one provider')
    path = write(ctx, ['a 0.5 0.5'], '\n', True)
    shared = provider(kind, path, False)
    for step in range(3):
        words = ctx.pick((['a', 'b'], ['b', 'a'], ['b'], ['1', 'zz']), 'words')
        k = ctx.pick((1, 2), 'vectors')
        vectors = [[float(k), float(i)] for i in range(len(words))]
        with open(path, 'w') as f:
            f.write(''.join('{} {} {}\n'.format(w, *v) for w, v in zip(words, vectors)))
        os.utime(path, (10 ** 9, 10 ** 9))
        p = shared if same else provider(kind, path, False)
        ids = checked(ctx, kind, p, False, words, vectors, 2)
        ctx.state(kind, same, ids)


SCENARIOS = {'files': files, 'inconsistent sizes': inconsistent, 'scale': scale, 'rewritten files': rewritten}
