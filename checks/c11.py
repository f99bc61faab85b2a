"""C11 Everything the writer emits loads in the evaluator and scores 100% on itself"""
import io as stdio

from mc import conll, docs, udref
from mc.docs import Word, Item
from mc.gen import trees

BOUNDS = {
    'quick': 'documents of <=3 surface tokens (plain or multi-word of 1-3 words), 3 separators, every sentence split, with and without '
             'syntax; all 64 column selections; special forms; all trees of <=4 words; sentences of up to 120 words, up to 60 sentences; '
             'every selection of cleared annotation layers',
    'thorough': '<=4 surface tokens, trees of 5 words',
}


def load(thorough):
    global cio, dm, ev
    import babylondigger.evaluation.conllu_io as cio
    import babylondigger.datamodel as dm
    import babylondigger.evaluation.conll17_ud_eval as ev


def characters(sentences):
    """characters, token spans, sentence spans and words the evaluator must see"""
    text, tokens, words, spans = '', [], [], []
    for sentence in sentences:
        begin = len(text)
        for item in sentence:
            surface = item.surface.replace(' ', '')
            span = (len(text), len(text) + len(surface))
            text += surface
            tokens.append(span)
            for w in item.words:
                words.append((span, w.form if item.multi else surface, item.multi))
        spans.append((begin, len(text)))
    return text, tokens, spans, words


def loaded(ctx, text):
    return ctx.accepts('loading {!r} in the evaluator'.format(text[:1500]), lambda: ev.load_conllu(stdio.StringIO(text)))


def check_loaded(ctx, ud, sentences):
    text, tokens, spans, words = characters(sentences)
    ctx.equal(''.join(ud.characters), text, 'characters')
    ctx.equal([(t.start, t.end) for t in ud.tokens], tokens, 'tokens')
    ctx.equal([(t.start, t.end) for t in ud.sentences], spans, 'sentences')
    ctx.equal([((w.span.start, w.span.end), w.columns[1], w.is_multiword) for w in ud.words], words, 'words')


def perfect(ctx, gold, system, names, sentences, relations):
    scores = ctx.accepts('evaluation', ev.evaluate, gold, system)
    nonempty = bool(sentences)
    for name in names:
        if name == 'CLAS' and not any(r.split(':')[0] not in udref.FUNCTION for r in relations):
            continue            # nothing to score
        want = (1.0, 1.0, 1.0) if nonempty else (0.0, 0.0, 0.0)
        s = scores[name]
        ctx.equal((s.precision, s.recall, s.f1), want, 'score {} of a document against itself'.format(name))
        if s.aligned_accuracy is not None and nonempty:
            ctx.equal(s.aligned_accuracy, 1.0, 'aligned accuracy {}'.format(name))
    return scores


def relations_of(sentences, columns):
    if columns is not None and conll.DEPREL not in columns:
        return ['_'] * (1 if sentences else 0)
    return [w.deprel if w.head is not None and w.deprel is not None else '_' for s in sentences for w in docs.sentence_words(s)]


def check(ctx, sentences, columns=None, lead=''):
    document = docs.build(dm, sentences, lead)
    writer = cio.CoNLLUWriter() if columns is None else cio.CoNLLUWriter(columns)
    text = ctx.accepts('writing', writer.write_to_str, document)
    gold, system = loaded(ctx, text), loaded(ctx, text)
    check_loaded(ctx, gold, sentences)
    perfect(ctx, gold, system, udref.METRICS, sentences, relations_of(sentences, columns))
    return document, text


def clear(ctx, document, layers):
    """derived document without the given layers, written and compared with the original"""
    tokens = []
    for t in document.tokens:
        if 'morphology' in layers:
            t = dm.Token.with_morphology(t)
        if 'syntax' in layers:
            t = dm.Token.with_syntax(t)
        tokens.append(t)
    return dm.Document.from_document(document, tokens)


def structure(ctx):
    count = ctx.pick((0, 1, 2, 3, 4) if ctx.thorough else (0, 1, 2, 3), 'surface tokens')
    sentences, current = [], []
    n = 0
    for i in range(count):
        kind = ctx.pick((0, 1, 2, 3), 'words')
        after = ctx.pick(('', ' ', '-'), 'separator')
        words = [Word('w%d' % (n + k), 'l%d' % (n + k), ('U', None, {'A': str(n + k)})) for k in range(max(kind, 1))]
        n += len(words)
        current.append(Item('tok'[:i + 1], words if kind else None, after, words[0]))
        if i + 1 == count or ctx.flag('end of sentence'):
            sentences.append(current)
            current = []
    if ctx.flag('syntax'):
        for s in sentences:
            docs.chain(s)
    document, text = check(ctx, sentences)
    ctx.state(text)
    layers = ctx.pick(((), ('morphology',), ('syntax',), ('morphology', 'syntax')), 'cleared') if count < 3 else ('morphology', 'syntax')
    cleared = clear(ctx, document, layers)
    other = loaded(ctx, cio.CoNLLUWriter().write_to_str(cleared))
    check_loaded(ctx, other, sentences)
    perfect(ctx, loaded(ctx, text), other, ('Tokens', 'Sentences', 'Words'), sentences, [])
    perfect(ctx, other, loaded(ctx, text), ('Tokens', 'Sentences', 'Words'), sentences, [])


def columns(ctx):
    selected = ctx.pick_subset(conll.ALL, 'column')
    pos = ctx.pick((None, ('U', 'X', {'F': 'g'}), (None, None, {})), 'tag')
    lemma = ctx.pick((None, 'lem'), 'lemma')
    syntax = ctx.pick(('none', 'all', 'first sentence', 'no relation', 'function words'), 'syntax')
    multi = ctx.flag('multi-word')
    first = [Item('ab', [Word('a', lemma, pos), Word('b', lemma, pos)])] if multi else [Item('ab', plain=Word('', lemma, pos)), Item('c')]
    second = [Item('d'), Item('mw', [Word('e', lemma, pos), Word('f')], '')]
    sentences = [first, second]
    for s in sentences[:{'none': 0, 'first sentence': 1}.get(syntax, 2)]:
        n = len(docs.sentence_words(s))
        docs.set_heads(s, [n - 1] * (n - 1) + [-1])
        for i, w in enumerate(docs.sentence_words(s)):
            w.deprel = {'no relation': None, 'function words': ('punct', 'aux:pass')[i % 2]}.get(syntax, w.deprel)
    document, text = check(ctx, sentences, tuple(selected))
    ctx.state(text)
    full = cio.CoNLLUWriter().write_to_str(document)
    perfect(ctx, loaded(ctx, full), loaded(ctx, text), ('Tokens', 'Sentences', 'Words'), sentences, [])


FORMS = ('a', '_', '#', '#x', '1-2', '1.1', '-', '=', '|', '\u00a0x', '"', '{}', '\U0001f600', 'a b', 'x  y', '\u2028', '\x85', '\u0130', '\u00df')


def values(ctx):
    form = ctx.pick(FORMS, 'form')
    surface = ctx.pick((None,) + FORMS, 'surface')
    deprel = ctx.pick(('root', 'a:b', 'a:', '{}'), 'relation')
    word = Word(form, form, (form, form, {'A': form}), -1, deprel)
    sentence = [Item(form, plain=word)] if surface is None else [Item(surface, [word, Word('y', None, None, 0, deprel)])]
    ctx.state(check(ctx, [sentence])[1])


def syntax(ctx):
    n = ctx.pick((1, 2, 3, 4, 5) if ctx.thorough else (1, 2, 3, 4), 'words')
    heads = ctx.pick(trees(n), 'heads')
    before = ctx.pick((0, 1, 3), 'words before')
    group = ctx.pick(range(n), 'words of a multi-word token at the end')
    sentence = [Item('w%d' % i, plain=Word('')) for i in range(n - (group + 1 if group else 0))]
    if group:
        sentence.append(Item('mw', [Word('v%d' % i) for i in range(group + 1)]))
    docs.set_heads(sentence, heads)
    sentences = [docs.chain([Item('b%d' % i) for i in range(before)])] if before else []
    sentences.append(sentence)
    document, text = check(ctx, sentences)
    ud = loaded(ctx, text)
    words = ud.words[before:]
    got = [words.index(w.parent) if w.parent is not None else -1 for w in words]
    ctx.equal(got, list(heads), 'heads in the evaluator')
    ctx.state(heads, before, group)


def scale(ctx):
    what = ctx.pick(('long sentence', 'many sentences'), 'what')
    if what == 'long sentence':
        n = ctx.pick((9, 10, 11, 99, 100, 101, 120), 'words')
        at = ctx.pick(range(0, n - 2), 'position')
        words = [Word('w%d' % i, 'l', ('U', None, {})) for i in range(n)]
        sentence = [Item(w.form, plain=w) for w in words]
        sentence[at:at + 2] = [Item('mw', words[at:at + 2], '')]
        if at % 2:
            for i, w in enumerate(words):
                w.head, w.deprel = (i + 1, 'dep') if i + 1 < n else (-1, 'root')
        sentences = [sentence, [Item('z')]]
    else:
        n = ctx.pick((2, 10, 11, 50, 51, 60), 'sentences')
        at = ctx.pick((1, 2, 3), 'step')
        sentences = [[Item('w%d' % i)] + ([Item('mw', [Word('x'), Word('y')])] if i % at == 0 else []) for i in range(n)]
        if ctx.flag('syntax'):
            for s in sentences:
                docs.chain(s)
    ctx.state(what, n, at)
    check(ctx, sentences)


SCENARIOS = {'structure': structure, 'columns': columns, 'values': values, 'syntax': syntax, 'scale': scale}
