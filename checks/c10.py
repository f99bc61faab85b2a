"""C10 Writing a document and reading it back preserves it"""
import os

from mc import conll, docs
from mc.docs import Word, Item
from mc.gen import trees, scratch

BOUNDS = {
    'quick': 'documents of <=3 surface tokens (plain or multi-word of 1-3 words, 3 separators, every sentence split); all 64 column '
             'selections x presence of every annotation; special values; all trees of <=4 words in a first or second sentence; <=3 '
             'documents per call; files and strings; treebanks read and written back; sentences of 9-120 words with a multi-word '
             'token at every position, up to 120 sentences',
    'thorough': '<=4 surface tokens; trees of 5 words',
}


def load(thorough):
    global io, dm
    import babylondigger.evaluation.conllu_io as io
    import babylondigger.datamodel as dm


def check(ctx, documents, all_sentences, columns=None, read_columns=None):
    """documents: real documents, all_sentences: abstract sentences of each"""
    chosen = conll.ALL if columns is None else columns
    writer = io.CoNLLUWriter() if columns is None else io.CoNLLUWriter(columns)
    text = ctx.accepts('writing', writer.write_to_str, *documents)
    flat = [s for sentences in all_sentences for s in sentences]
    position = 0
    lines = docs.parse_lines(ctx, text)
    # the output is the concatenation of the outputs of each document
    for document, sentences in zip(documents, all_sentences):
        part = ctx.accepts('writing one document', writer.write_to_str, document)
        docs.compare_output(ctx, part, sentences, chosen)
        ctx.check(text.startswith(part, position), 'output of several documents is not the concatenation: {!r}, {!r}', text, part)
        position += len(part)
    ctx.equal(position, len(text), 'length of the output')
    heads_written = conll.HEAD in chosen or conll.DEPREL in chosen
    without = {i for i, s in enumerate(flat) if not heads_written or any(w.head is None for w in docs.sentence_words(s))}
    for selection in ((conll.ALL, chosen) if read_columns is None else (read_columns,)):
        back = ctx.accepts('reading the output', lambda: list(io.CoNLLUReader(10 ** 6, selection).read_from_str(text)))
        if not flat:
            ctx.equal(len(back), 0, 'documents read back')
            continue
        ctx.equal(len(back), 1, 'documents read back')
        visible = set(chosen) & set(selection) | ({conll.HEAD} if heads_written and {conll.HEAD, conll.DEPREL} & set(selection) else set())
        want = []
        for sentences in all_sentences:
            want += docs.abstract_rows(sentences, visible)
        got = docs.semantic_rows(back[0], selection)
        want = docs.mask_last_space(docs.mask_heads(want, without))
        got = docs.mask_last_space(docs.mask_heads(got, without))
        for i, (g, w) in enumerate(zip(got, want)):
            ctx.equal(g, w, 'sentence {} read back from {!r}'.format(i, text[:1500]))
        ctx.equal(len(got), len(want), 'sentences read back')
    return text


def structure(ctx):
    count = ctx.pick((0, 1, 2, 3, 4) if ctx.thorough else (0, 1, 2, 3), 'surface tokens')
    sentences, current = [], []
    n = 0
    for i in range(count):
        kind = ctx.pick((0, 1, 2, 3), 'words')
        after = ctx.pick(('', ' ', '\n', '-'), 'separator')
        words = [Word('w%d' % (n + k), 'l%d' % (n + k), ('U', None, {'A': str(n + k)})) for k in range(max(kind, 1))]
        n += len(words)
        current.append(Item('tok'[:i + 1], words if kind else None, after, words[0]))
        if i + 1 == count or ctx.flag('end of sentence'):
            sentences.append(current)
            current = []
    if ctx.flag('syntax'):
        for s in sentences:
            docs.chain(s)
    document = docs.build(dm, sentences, ctx.pick(('', ' '), 'leading text') if count < 3 else '', True)
    ctx.state(check(ctx, [document], [sentences]))


FULL = ('U', 'X', {'F': 'g', 'Num': '1'})


def columns(ctx):
    selected = ctx.pick_subset(conll.ALL, 'column')
    pos = ctx.pick((None, FULL, ('U', None, {}), (None, 'X', {'F': 'g'}), (None, None, {})), 'tag')
    lemma = ctx.pick((None, 'lem'), 'lemma')
    syntax = ctx.pick(('none', 'all', 'first sentence', 'no relation'), 'syntax')
    multi = ctx.flag('multi-word')
    first = [Item('ab', [Word('a', lemma, pos), Word('b', lemma, FULL)])] if multi else [Item('ab', plain=Word('', lemma, pos)), Item('c')]
    second = [Item('d'), Item('e', plain=Word('', lemma, pos))]
    sentences = [first, second]
    for s in sentences[:{'none': 0, 'first sentence': 1}.get(syntax, 2)]:
        docs.chain(s)
        if syntax == 'no relation':
            for w in docs.sentence_words(s):
                w.deprel = None
    document = docs.build(dm, sentences)
    columns = ctx.pick((tuple, iter), 'collection')(selected)
    if not isinstance(columns, tuple):
        ctx.accepts('writer from an iterator', io.CoNLLUWriter, columns)
        columns = set(selected)
    ctx.state(selected, pos, lemma, syntax, check(ctx, [document], [sentences], columns))


FEATS = ({}, {'A': 'b'}, {'NumType': 'Card', 'Number': 'Sing'}, {'b': '1', 'A': '2', 'C': '3'}, {'Number[psor]': 'x', 'Number': 'y'},
         {'Case2': 'a', 'Case': 'b'}, {'X': 'a,b'}, {'Case': 'x', 'case': 'y'})
FORMS = ('a', '_', '__', '#', '#x', '1-2', '1.1', '-', '=', '|', '\u00a0x', '"', '\\', '{}', '{0}', '%s', '\U0001f600', 'e\u0301', 'a b', 'x  y', '0', '\u2028', '\x85')


def values(ctx):
    form = ctx.pick(FORMS, 'form')
    surface = ctx.pick((None,) + FORMS, 'surface')
    feats = ctx.pick(FEATS, 'features')
    other = ctx.pick(('x', '\u00e9 y', '{}'), 'lemma, tags, relation')
    word = Word(form, other, (other, other, feats), -1, other)
    sentence = [Item(form, plain=word)] if surface is None else [Item(surface, [word, Word('y', None, None, 0, None)])]
    document = docs.build(dm, [sentence])
    ctx.state(check(ctx, [document], [[sentence]]))


def syntax(ctx):
    n = ctx.pick((1, 2, 3, 4, 5) if ctx.thorough else (1, 2, 3, 4), 'words')
    heads = ctx.pick(trees(n), 'heads')
    before = ctx.pick((0, 1, 3), 'words before')
    group = ctx.pick(range(n), 'words of a multi-word token at the end')
    relative = ctx.flag('sentence-relative heads')
    sentence = [Item('w%d' % i, plain=Word('')) for i in range(n - (group + 1 if group else 0))]
    if group:
        sentence.append(Item('mw', [Word('v%d' % i) for i in range(group + 1)]))
    docs.set_heads(sentence, heads)
    sentences = [docs.chain([Item('b%d' % i) for i in range(before)])] if before else []
    sentences.append(sentence)
    document = docs.build(dm, sentences, sentence_heads=relative)
    ctx.state(heads, before, group, relative)
    check(ctx, [document], [sentences])


def several(ctx):
    """several documents in one call; file and string"""
    kinds = ctx.pick_seq(range(5), 0, 3, 'document')
    columns = ctx.pick((None, (), (conll.LEMMA,), (conll.FEATS, conll.DEPREL)), 'columns')
    all_sentences = []
    for i, k in enumerate(kinds):
        all_sentences.append({
            0: lambda: [],
            1: lambda: [[Item('a%d' % i, after='')]],
            2: lambda: [docs.chain([Item('a'), Item('mw', [Word('x', 'l', FULL), Word('y')], '')])],
            3: lambda: [docs.chain([Item('mw', [Word('x'), Word('y', 'l', FULL)], '')]), [Item('b', after='-')]],
            4: lambda: [[Item('mw', [Word('\u00e9'), Word('y')])], docs.chain([Item('m2', [Word('z'), Word('t')]), Item('.')])]}[k]())
    documents = [docs.build(dm, s) for s in all_sentences]
    writer = io.CoNLLUWriter() if columns is None else io.CoNLLUWriter(columns)
    text = writer.write_to_str(*documents)
    with scratch() as directory:
        path = os.path.join(directory, 'out.conllu')
        existing = ctx.flag('existing file')
        if existing:
            with open(path, 'w') as f:
                f.write('old content\n' * 50)
        ctx.accepts('writing to a file', writer.write_to_file, path, *documents)
        with open(path, 'rb') as f:
            ctx.equal(f.read(), text.encode('utf-8'), 'content of the file')
    ctx.equal(writer.write_to_str(*documents), text, 'second writing')
    ctx.state(kinds, columns)
    # documents have spaces at their ends only when their own text has
    flat = []
    for sentences in all_sentences:
        flat.append(sentences)
    check(ctx, documents, flat, columns)


def treebank(ctx):
    """reading a well-formed treebank and writing it back reproduces its columns"""
    W, M, E, C = conll.W, conll.M, conll.E, conll.C
    sentences = []
    for i in range(ctx.pick((1, 2), 'sentences')):
        s = []
        for k in range(ctx.pick((1, 2) if i == 0 or ctx.thorough else (1,), 'surface tokens')):
            kind = ctx.pick((0, 1, 2, 3), 'words')
            feats = ctx.pick(('_', 'Number=Sing|NumType=Card', 'Case=Nom|Case2=x|Number=y|Number[psor]=z')[0 if i == 0 or ctx.thorough else 2:], 'features')
            misc = ctx.pick(('_', 'SpaceAfter=No'), 'misc')
            words = [W('w%d' % j, lemma='l', upos='N', xpos=('_', 'X')[j % 2], feats=feats) for j in range(max(1, kind))]
            if kind > 1:
                words.insert(1, E('n'))
            if kind == 0:
                words[0].misc = misc
            s += [M('mw', words, misc)] if kind else [C('# text = x'), words[0]]
        sentences.append(conll.chain(s) if ctx.flag('chain') else
                         conll.set_heads(s, [len(list(conll.words(s))) - 1] * (len(list(conll.words(s))) - 1) + [-1]))
    text = conll.render(sentences)
    documents = ctx.accepts('reading', lambda: list(io.CoNLLUReader(50).read_from_str(text)))
    again = ctx.accepts('writing', io.CoNLLUWriter().write_to_str, *documents)
    gold = [l.split('\t') for l in text.split('\n') if not l.startswith('#')]
    gold = [l for l in gold if '.' not in l[0]]
    mine = [l.split('\t') for l in again.split('\n')]
    ctx.equal([l[:8] for l in mine], [l[:8] for l in gold], 'ID to DEPREL columns')
    spaces = [l[-1] for l in mine]
    ctx.equal(spaces[:-3], [l[-1] for l in gold][:-3], 'MISC columns') if not any('-' in l[0] for l in gold) else None
    ctx.state(text)


def long_sentences(ctx):
    n = ctx.pick((9, 10, 11, 99, 100, 101, 120), 'words')
    at = ctx.pick(n, 'position')
    size = ctx.pick((0, 2, 3, 11), 'multi-word size')
    if at + size > n or size == 0 and at % 10:
        ctx.prune()
    words = [Word('w%d' % i, 'l%d' % i, ('U', None, {})) for i in range(n)]
    sentence = [Item(w.form, plain=w) for w in words]
    if size:
        sentence[at:at + size] = [Item('mw', words[at:at + size], '')]
    for i, w in enumerate(words):
        w.head, w.deprel = (n - 1, 'dep') if i + 1 < n else (-1, 'root')
    sentences = [sentence, docs.chain([Item('a'), Item('b')])]
    document = docs.build(dm, sentences)
    ctx.state(n, at, size)
    check(ctx, [document], [sentences])


def many_sentences(ctx):
    n = ctx.pick((2, 9, 10, 11, 50, 51, 120), 'sentences')
    step = ctx.pick((1, 2, 3, 7), 'every ... sentence ends in a multi-word token')
    sentences = [docs.chain([Item('w%d' % i)] + ([Item('mw', [Word('x%d' % i), Word('y')], '')] if i % step == 0 else [])) for i in range(n)]
    document = docs.build(dm, sentences)
    ctx.state(n, step)
    text = check(ctx, [document], [sentences])
    with scratch() as directory:
        path = os.path.join(directory, 'out.conllu')
        for _ in range(2):
            ctx.accepts('writing to a file', io.CoNLLUWriter().write_to_file, path, document)
            with open(path, 'rb') as f:
                ctx.check(f.read() == text.encode('utf-8'), 'content of the file with {} sentences', n)


SCENARIOS = {'structure': structure, 'columns': columns, 'values': values, 'syntax': syntax, 'several documents': several,
             'treebank': treebank, 'long sentences': long_sentences, 'many sentences': many_sentences}
