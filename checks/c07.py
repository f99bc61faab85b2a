"""C07 Reading CoNLL-U reproduces exactly what the file says"""
import os

from mc import conll
from mc.conll import W, M, E, C
from mc.gen import doc_view, trees, scratch

BOUNDS = {
    'quick': 'sentences of <=3 surface tokens (words and multi-word tokens of 1-3 words) with empty nodes and comments at '
             'every position, all splits into two sentences; all 64 column selections; 14 MISC values for two tokens; all '
             'trees of <=4 words after a first sentence; files and strings with LF and CRLF; sentences of up to 120 words '
             'with a multi-word token or empty node at every position; 1-130 sentences; all histories of 3 rewritings of two files',
    'thorough': 'sentences of <=4 surface tokens; trees of <=5 words',
}


def load(thorough):
    global io
    import babylondigger.evaluation.conllu_io as io


def read(ctx, text, **kw):
    return ctx.accepts('reading a well-formed text', lambda: list(io.CoNLLUReader(**kw).read_from_str(text)))


def compare(ctx, documents, sentences, columns=conll.ALL):
    if not sentences:
        ctx.equal(len(documents), 0, 'number of documents')
        return
    ctx.equal(len(documents), 1, 'number of documents')
    want = conll.expected(sentences, columns)
    got = doc_view(documents[0], False)
    if got != want:
        for name, g, w in zip(('text', 'sentences', 'tokens'), got, want):
            if g != w:
                if name == 'tokens' and len(g) == len(w):
                    i = [a == b for a, b in zip(g, w)].index(False)
                    ctx.fail('token {}: got {!r}, expected {!r}'.format(i, g[i], w[i]))
                ctx.fail('{}: got {!r}, expected {!r}'.format(name, g, w))


FORMS = ('ab', 'C', 'd\u00e9', 'x y', '_')


def structure(ctx):
    """words, multi-word tokens, empty nodes and comments at every position"""
    count = ctx.pick((1, 2, 3, 4) if ctx.thorough else (1, 2, 3), 'surface tokens')
    extra = 2                  # at most two empty nodes or comments
    sentences, current = [], []
    n = 0

    def gap(target):
        nonlocal extra
        if extra:
            what = ctx.pick(('', 'empty', 'comment'), 'extra node')
            if what:
                extra -= 1
                target.append(E('nul', 'SpaceAfter=No') if what == 'empty' else C('# comment = 1\tx'))

    gap(current)
    for i in range(count):
        kind = ctx.pick((0, 1, 2, 3) if count < 4 else (0, 1, 2), 'words')
        misc = ctx.pick(('_', 'SpaceAfter=No'), 'misc')
        if kind == 0:
            current.append(W(FORMS[i], lemma='l%d' % n, upos='U%d' % n, misc=misc))
            n += 1
        else:
            node = M(FORMS[i] + 'M', [], misc)
            for k in range(kind):
                node.words.append(W('w%d' % n, lemma='l%d' % n, upos='U%d' % n, misc=('_', 'SpaceAfter=No')[k % 2]))
                n += 1
                if k + 1 < kind:
                    gap(node.words)
            current.append(node)
        gap(current)
        if i + 1 < count and len(sentences) == 0 and ctx.flag('end of sentence'):
            sentences.append(current)
            current = []
    sentences.append(current)
    for s in sentences:
        conll.chain(s)
    text = conll.render(sentences)
    documents = read(ctx, text)
    ctx.state(text)
    compare(ctx, documents, sentences)


VALUES = {
    'lemma': ('_', 'lem', 'a b', '__'), 'upos': ('_', 'NOUN'), 'xpos': ('_', 'NN_x'),
    'feats': ('_', 'A=b', 'B=c|A=d', 'Abbr=Yes|Case=Acc,Dat|Number[psor]=Sing', 'case=x|Case=y'),
    'deprel': ('_', 'root', 'nsubj:pass'),
}


def columns(ctx):
    """every column selection, every present/absent combination"""
    selected = ctx.pick_subset(conll.ALL, 'column')
    as_type = ctx.pick((tuple, set, iter), 'collection')
    absent = ctx.pick_subset(('lemma', 'upos', 'xpos', 'feats', 'deprel'), 'absent')
    values = {k: '_' if k in absent else VALUES[k][-1] for k in VALUES}
    inside = ctx.flag('inside multi-word token')
    first = W('form', head=0, **values)
    second = W('word', head=1, lemma='l', upos='U', xpos='X', feats='F=g', deprel='d')
    sentence = [M('surface', [first, second])] if inside else [first, second]
    text = conll.render([sentence])
    documents = read(ctx, text, columns=as_type(list(selected)))
    ctx.state(selected, absent, inside)
    compare(ctx, documents, [sentence], selected)


def values(ctx):
    first = W('a', head=0, lemma=ctx.pick(VALUES['lemma']), upos=ctx.pick(VALUES['upos']), xpos=ctx.pick(VALUES['xpos']),
              feats=ctx.pick(VALUES['feats']), deprel=ctx.pick(VALUES['deprel']), deps=ctx.pick(('_', '0:root|2:x')))
    first.form = ctx.pick(('a', '_', '__', '#', '1', '1-2', '1.1', '=', '|', '\u00a0', '"', "'", '\\', '{}', '%s', '\U0001f600', 'e\u0301', '\u2028', '\x0c', ' ',
                           'a  b'))
    text = conll.render([[first]])
    documents = read(ctx, text)
    ctx.state(text)
    compare(ctx, documents, [[first]])


def without_syntax(ctx):
    """absent heads stay absent, per sentence"""
    sentences = []
    for i in range(ctx.pick((1, 2, 3), 'sentences')):
        kind = ctx.pick(('word', 'two words', 'multi-word'), 'kind')
        s = {'word': lambda: [W('a', lemma='b')], 'two words': lambda: [W('a'), W('b')],
             'multi-word': lambda: [M('ab', [W('a'), W('b')])]}[kind]()
        if ctx.flag('syntax'):
            conll.chain(s)
        else:
            for w in conll.words(s):
                w.deprel = ctx.pick(('_', 'dep'), 'relation')
        sentences.append(s)
    documents = read(ctx, conll.render(sentences))
    ctx.state(conll.render(sentences))
    compare(ctx, documents, sentences)


MISCS = ('_', 'SpaceAfter=No', 'SpaceAfter=No|X=y', 'X=y|SpaceAfter=No', 'X=y', 'Flag', 'Flag|SpaceAfter=No', 'SpaceAfter=No|Flag',
         'SpacesAfter=\\n', 'NoSpaceAfter=No', 'Gloss=a=b', 'Gloss=a=b|SpaceAfter=No', 'X=SpaceAfter', 'SpaceAfter=Yes')


def misc(ctx):
    sentence = []
    for i in range(2):
        value = ctx.pick(MISCS, 'misc')
        inside = ctx.pick(('word', 'multi-word', 'word of multi-word'), 'kind')
        if inside == 'word':
            sentence.append(W('ab', misc=value))
        elif inside == 'multi-word':
            sentence.append(M('cd', [W('c'), W('d')], value))
        else:
            sentence.append(M('ef', [W('e', misc=value), W('f', misc=value)]))
    sentence.append(W('z'))
    conll.chain(sentence)
    text = conll.render([sentence])
    documents = read(ctx, text)
    ctx.state(text)
    compare(ctx, documents, [sentence])


def syntax(ctx):
    """every tree, after a sentence of 0-2 words"""
    before = ctx.pick((0, 1, 2), 'words before')
    n = ctx.pick((1, 2, 3, 4, 5) if ctx.thorough else (1, 2, 3, 4), 'words')
    heads = ctx.pick(trees(n), 'heads')
    group = ctx.pick(range(n), 'words in a multi-word token')   # 0: none
    sentence = [W('w%d' % i) for i in range(n)]
    if group:
        sentence = sentence[:n - group - 1] + [M('mw', sentence[n - group - 1:n])] + sentence[n:]
    conll.set_heads(sentence, heads)
    sentences = [sentence]
    if before:
        sentences.insert(0, conll.chain([W('b%d' % i) for i in range(before)]))
    documents = read(ctx, conll.render(sentences))
    ctx.state(before, heads, group)
    compare(ctx, documents, sentences)


def sources(ctx):
    """file or string, line ends, comments everywhere"""
    newline = ctx.pick(('\n', '\r\n'), 'line end')
    form = ctx.pick(('a', '_', '\u00e9', '\U0001f600', '\u2028b', 'a b'), 'form')
    misc_value = ctx.pick(('_', 'SpaceAfter=No', 'X=y'), 'misc')
    deprel = ctx.pick(('root', '_'), 'deprel')
    sentences = []
    for i in range(ctx.pick((0, 1, 2), 'sentences')):
        s = [C('# sent_id = %d' % i)] if ctx.flag('comment') else []
        s += conll.chain([W(form, lemma=form, misc=misc_value), M('xy', [W('x'), W('y')])])
        for w in conll.words(s):
            w.deprel = deprel
        if ctx.flag('comment at the end'):
            s.append(C('#'))
        sentences.append(s)
    text = conll.render(sentences, newline)
    if sentences and ctx.flag('comment at the end of the file'):
        text += '# end' + newline
    elif not sentences and ctx.flag('only a comment'):
        text += '# newdoc' + newline
    reader = io.CoNLLUReader()
    if ctx.flag('file'):
        with scratch() as directory:
            path = os.path.join(directory, 'x.conllu')
            with open(path, 'wb') as f:
                f.write(text.encode('utf-8'))
            documents = ctx.accepts('reading a file', lambda: list(reader.read_from_file(path)))
    else:
        documents = ctx.accepts('reading a string', lambda: list(reader.read_from_str(text)))
    ctx.state(text)
    compare(ctx, documents, sentences)


LENGTHS = (9, 10, 11, 12, 99, 100, 101, 120)


def long_sentences(ctx):
    """two- and three-digit ids, with a multi-word token or empty nodes at every position"""
    n = ctx.pick(LENGTHS, 'words')
    at = ctx.pick(range(0, n), 'position')
    what = ctx.pick(('multi-word 2', 'multi-word 3', 'multi-word 11', 'empty nodes', 'no space'), 'what')
    second = ctx.flag('second sentence')
    ws = [W('w%d' % i, lemma='l%d' % i, upos='U') for i in range(n)]
    if what.startswith('multi-word'):
        size = int(what.split()[1])
        if at + size > n:
            ctx.prune()
        sentence = ws[:at] + [M('mw', ws[at:at + size])] + ws[at + size:]
    elif what == 'empty nodes':
        sentence = ws[:at] + [E('nul') for _ in range(11)] + ws[at:]
    else:
        ws[at].misc = 'SpaceAfter=No'
        sentence = ws
    for i, w in enumerate(conll.words(sentence)):      # all point to the last word: three-digit heads
        w.head = n if i + 1 < n else 0
        w.deprel = 'dep'
    sentences = [sentence]
    if second:
        sentences.insert(0, conll.chain([W('a'), W('b')]))
    documents = read(ctx, conll.render(sentences))
    ctx.state(n, at, what, second)
    compare(ctx, documents, sentences)


def many_sentences(ctx):
    n = ctx.pick((1, 2, 9, 10, 11, 49, 50, 51, 99, 100, 101, 130), 'sentences')
    special = ctx.pick(sorted({0, 1, n // 2, n - 1} & set(range(n))), 'multi-word sentence')
    sentences = [conll.chain([W('w%d' % i), W('v', misc='SpaceAfter=No')]) if i != special else
                 conll.chain([M('xy', [W('x'), W('y')])]) for i in range(n)]
    documents = read(ctx, conll.render(sentences), doc_sentences_limit=1000)
    ctx.state(n, special)
    compare(ctx, documents, sentences)



def rewritten(ctx):
    """files are read as they are at the time of reading"""
    texts = []
    for form in ('ab', 'cd', 'longer'):
        s = conll.chain([W(form, lemma=form[::-1]), M('xy', [W('x'), W('y', lemma=form)])])
        texts.append(([s], conll.render([s])))
    same = ctx.pick(('one reader', 'new readers'), 'reader')
    stamp = ctx.flag('equal modification times')
    reader = io.CoNLLUReader()
    with scratch() as directory:
        paths = [os.path.join(directory, name) for name in ('x', 'y')]
        now = {}
        for step in range(4 if ctx.thorough else 3):
            target = ctx.pick((0, 1), 'file')
            content = ctx.pick((0, 1, 2), 'content')
            how = ctx.pick(('overwrite', 'replace'), 'way')
            path = paths[target]
            with open(path if how == 'overwrite' else path + '.new', 'wb') as f:
                f.write(texts[content][1].encode('utf-8'))
            if stamp:
                os.utime(f.name, (10 ** 9, 10 ** 9))
            if how == 'replace':
                os.replace(path + '.new', path)
            now[target] = content
            for k in sorted(now):
                r = reader if same == 'one reader' else io.CoNLLUReader()
                documents = ctx.accepts('reading a file', lambda: list(r.read_from_file(paths[k])))
                compare(ctx, documents, texts[now[k]][0])
        ctx.state(same, stamp, sorted(now.items()))


SCENARIOS = {'structure': structure, 'columns': columns, 'values': values, 'without syntax': without_syntax, 'misc': misc,
             'syntax': syntax, 'sources': sources, 'long sentences': long_sentences, 'many sentences': many_sentences,
             'rewritten files': rewritten}
