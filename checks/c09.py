"""C09 Truncated or malformed CoNLL-U never yields a wrong or partial sentence"""
import itertools
import os

from mc import conll
from mc.conll import W, M, E, C
from mc.gen import doc_view, is_tree, scratch

BOUNDS = {
    'quick': 'every byte of every text of <=3 sentences from 6 shapes (and two long texts), three limits, files and strings, LF and CRLF; '
             'every head assignment (incl. missing, negative, too large) of sentences of <=3 words in a file of <=3 sentences, and of 4 words alone; '
             'every unfinished multi-word range and 10 malformed ones; every line cut to every number of columns',
    'thorough': 'all heads of 5 words; texts of 4 sentences',
}
TIMEOUT = 120


def load(thorough):
    global io
    import babylondigger.evaluation.conllu_io as io


def shape(i, kind):
    s = {0: lambda: [W('a%d' % i)],
         1: lambda: [W('ab', misc='SpaceAfter=No'), W('c')],
         2: lambda: [C('# c'), W('x'), M('\u00e9', [W('y'), W('z')])],
         3: lambda: [M('pq', [W('p'), E('n'), W('q')], 'SpaceAfter=No'), W('.')],
         4: lambda: [W('_', lemma='\u00fc', upos='U', feats='A=b'), E('n')],
         5: lambda: [M('m', [W('m')]), C('# 1\t2')]}[kind]()
    return conll.chain(s)


def run(ctx, blob, limit, as_file, columns=None):
    """documents yielded before the end or the first error"""
    reader = io.CoNLLUReader(limit) if columns is None else io.CoNLLUReader(limit, columns)
    documents = []
    error = None
    ctx.op()
    if as_file:
        with scratch() as directory:
            path = os.path.join(directory, 'x.conllu')
            with open(path, 'wb') as f:
                f.write(blob)
            try:
                for document in reader.read_from_file(path):
                    documents.append(doc_view(document, False))
            except Exception as e:
                error = e
    else:
        try:
            for document in reader.read_from_str(blob.decode('utf-8')):
                documents.append(doc_view(document, False))
        except Exception as e:
            error = e
    return documents, error


def judge(ctx, documents, error, sentences, limit, complete):
    """complete: number of intact leading sentences; afterwards the text is damaged"""
    for i, got in enumerate(documents):
        part = sentences[i * limit:(i + 1) * limit]
        want = conll.expected(part)
        if got == want:
            continue
        # a shorter document is right only if it ends the readable input and holds intact sentences only
        count = len(got[1])
        if i == len(documents) - 1 and error is None and 0 < count < len(part) and \
                got == conll.expected(part[:count]):
            continue
        ctx.fail('document {} differs from the intact text: got {!r}, expected {!r} (error: {!r})'.format(i, got, want, error))
    seen = sum(len(d[1]) for d in documents)
    ctx.check(seen <= complete, 'got {} sentences although only {} are complete', seen, complete)


def cut(ctx):
    n = ctx.pick((1, 2, 3) if not ctx.thorough else (1, 2, 3, 4), 'sentences')
    kinds = [ctx.pick(range(6) if n < 3 else (0, 2, 3), 'shape') for _ in range(n)]
    newline = ctx.pick(('\n', '\r\n'), 'line end') if n == 1 else '\n'
    limit = ctx.pick((1, 2, 50), 'limit')
    as_file = ctx.flag('file') if n < 3 else False
    sentences = [shape(i, k) for i, k in enumerate(kinds)]
    blob = conll.render(sentences, newline).encode('utf-8')
    ends = list(itertools.accumulate(len(conll.render([s], newline).encode('utf-8')) for s in sentences))
    position = ctx.pick(range(len(blob) + 1), 'bytes kept')
    piece = blob[:position]
    if not as_file:
        try:
            piece.decode('utf-8')
        except UnicodeDecodeError:
            ctx.prune()
    # a \r\n text cut between \r and \n of the empty line is complete
    complete = sum(1 for e in ends if e <= position or newline == '\r\n' and e - 1 <= position)
    documents, error = run(ctx, piece, limit, as_file)
    ctx.state(kinds, limit, position, len(documents), error is None)
    judge(ctx, documents, error, sentences, limit, complete)
    at_end = position == 0 or any(position in (e, e - 1 if newline == '\r\n' else e) for e in ends)
    if at_end:
        ctx.check(error is None, 'text ending after a complete sentence: {!r}', error)
        ctx.equal(sum(len(d[1]) for d in documents), complete, 'sentences')


def cut_long(ctx):
    """a long sentence, and many sentences, cut anywhere"""
    which = ctx.pick(('long sentence', 'many sentences'), 'text')
    if which == 'long sentence':
        ws = [W('w') for i in range(40)]
        sentences = [shape(0, 1), conll.chain(ws[:9] + [M('mw', ws[9:12])] + ws[12:])]
        limit = 2
    else:
        sentences = [shape(i, i % 3) for i in range(53)]
        limit = ctx.pick((50, 7), 'limit')
    blob = conll.render(sentences).encode('utf-8')
    ends = list(itertools.accumulate(len(conll.render([s]).encode('utf-8')) for s in sentences))
    position = ctx.pick(range(len(blob) + 1), 'bytes kept')
    piece = blob[:position]
    try:
        piece.decode('utf-8')
    except UnicodeDecodeError:
        ctx.prune()
    complete = sum(1 for e in ends if e <= position)
    documents, error = run(ctx, piece, limit, False)
    ctx.state(which, limit, position)
    judge(ctx, documents, error, sentences, limit, complete)
    if position in ends:
        ctx.check(error is None, 'text ending after a complete sentence: {!r}', error)
        ctx.equal(sum(len(d[1]) for d in documents), complete, 'sentences')


def heads(ctx):
    """every head assignment of one sentence among intact ones"""
    n = ctx.pick((1, 2, 3, 4, 5) if ctx.thorough else (1, 2, 3, 4), 'words')
    alone = n > 3
    before = 0 if alone else ctx.pick((0, 1, 2), 'intact sentences before')
    after = 0 if alone else ctx.pick((0, 1), 'intact sentences after')
    limit = ctx.pick((1, 50), 'limit') if not alone else 50
    multi = ctx.flag('multi-word token') if not alone else False
    values = ['_'] + list(range(0, n + 2)) + (['-1'] if n < 4 else [])
    assigned = [ctx.pick(values, 'head') for _ in range(n)]
    ws = [W('w%d' % i, head=h, deprel='_' if h == '_' else 'dep') for i, h in enumerate(assigned)]
    damaged = [M('mw', ws)] if multi else ws
    sentences = [conll.chain([W('b'), W('b')]) for i in range(before)] + [damaged] + [conll.chain([W('z'), W('z')]) for i in range(after)]
    blob = conll.render(sentences).encode('utf-8')
    missing = [h == '_' for h in assigned]
    valid = all(missing) or not any(missing) and '-1' not in assigned and is_tree([h - 1 for h in assigned])
    documents, error = run(ctx, blob, limit, False)
    ctx.state(assigned, before, after, limit, multi)
    if valid:
        ctx.check(error is None, 'well-formed heads {} refused: {!r}', assigned, error)
        judge(ctx, documents, error, sentences, limit, len(sentences))
        ctx.equal(sum(len(d[1]) for d in documents), len(sentences), 'sentences')
    else:
        ctx.check(error is not None, 'heads {} do not form a tree but were read: {!r}', assigned, documents)
        judge(ctx, documents, error, sentences, limit, before // limit * limit)


def long_heads(ctx):
    """one wrong head in a long sentence"""
    n = ctx.pick((10, 11, 30, 101), 'words')
    ws = [W('w%d' % i, head=i, deprel='dep') for i in range(n)]
    at = ctx.pick(n, 'word')
    value = ctx.pick(('0', 'self', 'next', 'outside', '_', 'text', 'last'), 'head')
    sentence = ws
    ws[at].head = {'0': 0, 'self': at + 1, 'next': at + 2, 'outside': n + 1, '_': '_', 'text': 'x', 'last': n}[value]
    hs = [w.head for w in ws]
    valid = all(isinstance(h, int) for h in hs) and is_tree([h - 1 for h in hs])
    sentences = [conll.chain([W('b')]), sentence]
    documents, error = run(ctx, conll.render(sentences).encode(), 50, False)
    ctx.state(n, at, value)
    ctx.equal(error is None, valid, 'acceptance of heads {}'.format(hs))
    if valid:
        judge(ctx, documents, error, sentences, 50, 2)


def ranges(ctx):
    """multi-word ranges that are not followed by their words"""
    before = ctx.pick((0, 1), 'words before')
    announced = ctx.pick((1, 2, 3, 4), 'announced words')
    present = ctx.pick(range(0, announced), 'words present')
    more = ctx.pick((0, 1, 2), 'sentences after')
    limit = ctx.pick((1, 2, 50), 'limit')
    end = ctx.pick(('blank line', 'end of file'), 'end')
    intact = ctx.pick((0, 1, 2), 'intact sentences before')
    first = [conll.chain([W('i%d' % i)]) for i in range(intact)]
    lines = [l for l in conll.lines(conll.chain([W('b')] * before))]
    lines.append('\t'.join(['%d-%d' % (before + 1, before + announced), 'surface'] + ['_'] * 8))
    for k in range(present):
        lines.append('\t'.join(W('w', head=before + k, deprel='d').columns(before + k + 1)))
    text = conll.render(first) + '\n'.join(lines) + '\n'
    if end == 'blank line':
        text += '\n' + conll.render([conll.chain([W('n%d' % i), W('n')]) for i in range(more)])
    elif more:
        ctx.prune()
    documents, error = run(ctx, text.encode(), limit, False)
    ctx.state(before, announced, present, more, limit, end, intact)
    ctx.check(error is not None, 'unfinished multi-word range was read: {!r}', documents)
    judge(ctx, documents, error, first, limit, intact // limit * limit)


def odd_ranges(ctx):
    """ranges that end before they start, or whose bounds are no numbers"""
    before = ctx.pick((0, 1), 'words before')
    spell = ctx.pick(('{2}-{1}', '{1}-{0}', '{3}-{1}', '1-0', '{1}-', '-{1}', '-', '{1}-x', '{1}-{2}-{3}', '{1}--{2}'), 'range')
    present = ctx.pick(range(0, 4), 'words present')
    intact = ctx.pick((0, 1, 2), 'intact sentences before')
    more = ctx.pick((0, 1, 2), 'sentences after')
    limit = ctx.pick((1, 2, 50), 'limit')
    first = [conll.chain([W('i%d' % i)]) for i in range(intact)]
    lines = [l for l in conll.lines(conll.chain([W('b')] * before))]
    lines.append('\t'.join([spell.format(*(before + k for k in range(4))), 'surface'] + ['_'] * 8))
    for k in range(present):
        lines.append('\t'.join(W('w', head=before + k, deprel='d' if before + k else 'root').columns(before + k + 1)))
    text = conll.render(first) + '\n'.join(lines) + '\n\n' + conll.render([conll.chain([W('n%d' % i), W('n')]) for i in range(more)])
    documents, error = run(ctx, text.encode(), limit, False)
    ctx.state(before, spell, present, more, limit, intact)
    ctx.check(error is not None, 'range {} was read: {!r}', lines[before], documents)
    judge(ctx, documents, error, first, limit, intact // limit * limit)


def columns_cut(ctx):
    """a word line with too few columns"""
    intact = ctx.pick((0, 1, 2), 'intact sentences before')
    limit = ctx.pick((1, 2, 50), 'limit')
    keep = ctx.pick(range(1, 10), 'columns')
    multi = ctx.pick(('word', 'range', 'word of range'), 'line')
    first = [conll.chain([W('i%d' % i)]) for i in range(intact)]
    lines = conll.lines(conll.chain([W('b')] if multi == 'word' else [M('m', [W('a'), W('b')])]))
    index = {'word': 0, 'range': 0, 'word of range': 1}[multi]
    lines[index] = '\t'.join(lines[index].split('\t')[:keep])
    text = conll.render(first) + '\n'.join(lines) + '\n\n' + conll.render([conll.chain([W('z')])])
    documents, error = run(ctx, text.encode(), limit, False)
    ctx.state(intact, limit, keep, multi)
    if error is None and keep == 9:
        # only MISC is missing: reading it as if it were empty is the one other faithful answer
        want = first + [conll.chain([W('b')] if multi == 'word' else [M('m', [W('a'), W('b')])])] + [conll.chain([W('z')])]
        judge(ctx, documents, error, want, limit, len(want))
        return
    ctx.check(error is not None, 'incomplete line was read: {!r}', documents)
    judge(ctx, documents, error, first, limit, intact // limit * limit)


SCENARIOS = {'cut': cut, 'cut long texts': cut_long, 'heads': heads, 'long heads': long_heads, 'ranges': ranges, 'odd ranges': odd_ranges, 'columns': columns_cut}
