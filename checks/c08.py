"""C08 Reading in batches loses, repeats and mixes no sentence"""
import gc
import os

from mc import conll
from mc.conll import W, M, C
from mc.gen import doc_view, scratch

BOUNDS = {
    'quick': '0-7 sentences of 4 shapes with every limit 1-9, strings and files; 40-160 sentences around the default limit and '
             'around limits 1, 2, 7, 10, 49-51, 100; all schedules of <=6 steps (start, advance, close, drop) of <=3 iterators over one '
             'reader / data set; iterations abandoned after every number of documents or failing at every sentence; 3 readings of a file that is rewritten',
    'thorough': 'schedules of <=8 steps',
}


def load(thorough):
    global io, ds
    import babylondigger.evaluation.conllu_io as io
    import babylondigger.evaluation.dataset as ds


def sentence(i, shape):
    if shape == 0:
        s = [W('w%d' % i, lemma='l%d' % i)]
    elif shape == 1:
        s = [C('# sent_id = %d' % i), W('w%d' % i, misc='SpaceAfter=No'), W('v%d' % i)]
    elif shape == 2:
        s = [W('p%d' % i), M('m%d' % i, [W('x%d' % i), W('y%d' % i)], 'SpaceAfter=No')]
    else:
        s = [M('m%d' % i, [W('x%d' % i), W('y%d' % i), W('z%d' % i)]), W('.', misc='SpaceAfter=No'), C('# late comment')]
    return conll.chain(s)


def chunks(sentences, limit):
    return [conll.expected(sentences[i:i + limit]) for i in range(0, len(sentences), limit)]


def compare(ctx, documents, want):
    got = [doc_view(d, False) for d in documents]
    if got != want:
        ctx.equal([len(g[1]) for g in got], [len(w[1]) for w in want], 'sentences per document')
        for i, (g, w) in enumerate(zip(got, want)):
            ctx.equal(g, w, 'document {}'.format(i))


def open_files(directory):
    result = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            target = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            continue
        if target.startswith(directory):
            result.append(target)
    return result


def store(directory, text):
    path = os.path.join(directory, 'x.conllu')
    with open(path, 'w', encoding='utf-8', newline='') as f:
        f.write(text)
    return path


def limits(ctx):
    n = ctx.pick(range(8), 'sentences')
    shapes = [ctx.pick((0, 1, 2, 3) if n <= 4 else (0, 3), 'shape') for _ in range(n)]
    limit = ctx.pick(range(1, 10), 'limit')
    sentences = [sentence(i, s) for i, s in enumerate(shapes)]
    text = conll.render(sentences)
    reader = io.CoNLLUReader(limit)
    if n <= 4 and ctx.flag('file'):
        with scratch() as directory:
            path = store(directory, text)
            documents = ctx.accepts('reading', lambda: list(reader.read_from_file(path)))
            again = ctx.accepts('reading again', lambda: list(reader.read_from_file(path)))
            ctx.equal(open_files(directory), [], 'open files after complete iterations')
    else:
        documents = ctx.accepts('reading', lambda: list(reader.read_from_str(text)))
        again = ctx.accepts('reading again', lambda: list(reader.read_from_str(text)))
    ctx.state(shapes, limit)
    compare(ctx, documents, chunks(sentences, limit))
    compare(ctx, again, chunks(sentences, limit))


def large(ctx):
    limit = ctx.pick((None, 1, 2, 7, 10, 49, 50, 51, 100), 'limit')
    base = limit or 50
    n = ctx.pick(sorted({40, base - 1, base, base + 1, 2 * base - 1, 2 * base, 2 * base + 1, 3 * base, 160} - {0}), 'sentences')
    sentences = [sentence(i, (i * 7 + i // 4) % 4) for i in range(n)]
    text = conll.render(sentences)
    reader = io.CoNLLUReader(limit) if limit else io.CoNLLUReader()
    ctx.state(limit, n)
    compare(ctx, ctx.accepts('reading', lambda: list(reader.read_from_str(text))), chunks(sentences, base))


def data_sets(ctx):
    """a data set yields one sentence per document, every time"""
    n = ctx.pick(range(5), 'sentences')
    limit = ctx.pick((None, 1, 2, 3), 'limit')
    sentences = [sentence(i, (i + n) % 4) for i in range(n)]
    with scratch() as directory:
        path = store(directory, conll.render(sentences))
        dataset = ds.CoNLLUDataSet(path, io.CoNLLUReader(limit)) if limit else ds.CoNLLUDataSet(path)
        for i in range(ctx.pick((1, 2, 3), 'passes')):
            ctx.op()
            compare(ctx, list(dataset), chunks(sentences, limit or 1))
        pairs = [(doc_view(a, False), doc_view(b, False)) for a in dataset for b in dataset]
        want = chunks(sentences, limit or 1)
        ctx.equal(pairs, [(a, b) for a in want for b in want], 'nested iteration')
        ctx.equal(open_files(directory), [], 'open files')
    ctx.state(n, limit)


def schedules(ctx):
    """all interleavings of iterations over the same reader or data set"""
    source = ctx.pick(('data set', 'two data sets', 'reader file', 'reader string'), 'source')
    limit = ctx.pick((1, 2), 'limit')
    sentences = [sentence(i, i) for i in range(3)]
    text = conll.render(sentences)
    want = chunks(sentences, limit)
    with scratch() as directory:
        path = store(directory, text)
        reader = io.CoNLLUReader(limit)
        start = {'data set': lambda d=ds.CoNLLUDataSet(path, reader): iter(d),
                 'two data sets': lambda: iter(ds.CoNLLUDataSet(path, reader)),
                 'reader file': lambda: iter(reader.read_from_file(path)),
                 'reader string': lambda: iter(reader.read_from_str(text))}[source]
        live = []          # [iterator, position]
        trace = []
        for step in range(8 if ctx.thorough else 6):
            options = ['stop']
            if len(live) < 3:
                options.append('start')
            for k in range(len(live)):
                options.append(('next', k))
                if live[k][1] <= len(want):
                    options.append(('drop', k))
            action = ctx.pick(options, 'step')
            ctx.op()
            trace.append(action)
            if action == 'stop':
                break
            if action == 'start':
                live.append([start(), 0])
                continue
            what, k = action
            if what == 'drop':
                iterator, position = live.pop(k)
                if hasattr(iterator, 'close'):
                    iterator.close()
                del iterator
            else:
                iterator, position = live[k]
                document = next(iterator, None)
                ctx.equal(None if document is None else doc_view(document, False),
                          want[position] if position < len(want) else None, 'document {} of iterator {}'.format(position, k))
                live[k][1] = min(position + 1, len(want) + 1)
                iterator = None
                if position >= len(want):
                    live.pop(k)
        for k, (iterator, position) in enumerate(live):
            rest = [doc_view(d, False) for d in iterator]
            ctx.equal(rest, want[position:], 'rest of iterator {}'.format(k))
            iterator = None
        live.clear()
        gc.collect()
        ctx.equal(open_files(directory), [], 'open files at the end')
    ctx.state(source, limit, trace)


def closing(ctx):
    """files are closed when an iteration ends, fails at any sentence or is abandoned after any number of documents"""
    n = ctx.pick((1, 2, 3, 4), 'sentences')
    limit = ctx.pick((1, 2, 3), 'limit')
    sentences = [sentence(i, i % 4) for i in range(n)]
    good = conll.render(sentences)
    fault = ctx.pick(('none', 'columns', 'head', 'range', 'bytes', 'missing'), 'fault')
    bad = ctx.pick(n, 'bad sentence') if fault not in ('none', 'missing') else None
    texts = [conll.render([s]) for s in sentences]
    blobs = [t.encode('utf-8') for t in texts]
    if fault == 'columns':
        blobs[bad] = b'1\tx\n\n'
    elif fault == 'head':
        blobs[bad] = conll.render([[W('a', head=2), W('b', head=1)]]).encode()
    elif fault == 'range':
        blobs[bad] = b'1-3' + b'\t_' * 9 + b'\n' + conll.render([[W('a', head=0)]]).encode()
    elif fault == 'bytes':
        blobs[bad] = b'1\t\xff\xfe\n\n'
    via = ctx.pick(('data set', 'reader'), 'via')
    with scratch() as directory:
        path = os.path.join(directory, 'x.conllu')
        if fault != 'missing':
            with open(path, 'wb') as f:
                f.write(b''.join(blobs))

        def begin():
            reader = io.CoNLLUReader(limit)
            return iter(ds.CoNLLUDataSet(path, reader)) if via == 'data set' else iter(reader.read_from_file(path))

        if fault == 'missing':
            ctx.rejects('reading a missing file', lambda: list(begin()))
            ctx.equal(open_files(directory), [], 'open files')
            return
        want = chunks(sentences, limit)
        readable = len(want) if bad is None else bad // limit
        stop = ctx.pick(range(readable + 2), 'documents taken')
        seen = []
        failed = False
        iterator = begin()
        try:
            for _ in range(stop):
                document = next(iterator, None)
                if document is None:
                    break
                seen.append(doc_view(document, False))
        except Exception:
            failed = True
        document = None
        if fault == 'bytes':                 # the decoder reads ahead: any error position up to the bad bytes will do
            ctx.check(seen == want[:len(seen)] and len(seen) <= readable, 'documents before the fault: {!r}', seen)
        else:
            ctx.equal(seen, want[:min(stop, readable)], 'documents before the fault')
            if fault != 'none':
                ctx.equal(failed, stop > readable, 'failure')
        if fault == 'none' and stop > readable or failed:
            # ended or failed: closed at once, even while the iterator is still referenced
            ctx.equal(open_files(directory), [], 'open files after the iteration ended or failed')
        if stop > 0 and hasattr(iterator, 'close') and ctx.flag('explicit close'):
            iterator.close()
            ctx.equal(open_files(directory), [], 'open files after closing')
        del iterator
        gc.collect()
        ctx.equal(open_files(directory), [], 'open files after abandoning the iteration')
    ctx.state(n, limit, fault, bad, stop)


def bad_limits(ctx):
    limit = ctx.pick((0, -1, -50), 'limit')
    ctx.state(limit)
    ctx.rejects('limit {}'.format(limit), lambda: list(io.CoNLLUReader(limit).read_from_str('')))



def rewritten(ctx):
    """an iteration gives the sentences of the file at its start, in documents of the limit"""
    kinds = ctx.pick(('one reader', 'new readers', 'one data set', 'new data sets'), 'source')
    with scratch() as directory:
        path = os.path.join(directory, 'x.conllu')
        reader, data = io.CoNLLUReader(2), None
        for step in range(4 if ctx.thorough else 3):
            sentences = [sentence(i, ctx.pick((0, 2), 'shape')) for i in range(ctx.pick((0, 1, 3), 'sentences'))]
            with open(path, 'wb') as f:
                f.write(conll.render(sentences).encode('utf-8'))
            os.utime(path, (10 ** 9, 10 ** 9))
            if 'reader' in kinds:
                source = (reader if kinds == 'one reader' else io.CoNLLUReader(2)).read_from_file(path)
                limit = 2
            else:
                data = data if data is not None and kinds == 'one data set' else ds.CoNLLUDataSet(path)
                source, limit = data, 1
            compare(ctx, ctx.accepts('reading', list, source), chunks(sentences, limit))
        ctx.state(kinds, len(sentences))


SCENARIOS = {'limits': limits, 'large': large, 'data sets': data_sets, 'schedules': schedules, 'closing': closing, 'bad limits': bad_limits, 'rewritten files': rewritten}
