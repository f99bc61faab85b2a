"""C03 Sentence-relative and document-relative heads are interchangeable"""
from mc.gen import splits

BOUNDS = {
    'quick': 'all head functions (in-sentence, root, absent) of <=4 words in all sentence splittings, 5 ways of giving '
             'them; all disagreeing double specifications of <=4 words; single tokens outside of documents; documents of 60 words',
    'thorough': '<=5 words',
}


def load(thorough):
    global dm
    import babylondigger.datamodel as dm


def kwargs_for(form, i, h, start):
    sent = None if h is None else (-1 if h == -1 else h - start)
    if form == 'alternate':
        form = ('sentence', 'document', 'both')[i % 3]
    result = {}
    if form in ('sentence', 'both'):
        result['head_sentence_index'] = sent
    if form in ('document', 'both'):
        result['head_document_index'] = h
    return result


FORMS = ('sentence', 'document', 'both', 'alternate', 'derived')


def build(ranges, heads, form, mwt):
    n = len(heads)
    tokens = []
    for a, b in ranges:
        for i in range(a, b):
            kw = kwargs_for('document' if form == 'derived' else form, i, heads[i], a)
            if mwt and i in (0, 1):
                tokens.append(dm.Token(0, 1, None, 'l%d' % i, 'dep%d' % i, i, 'w%d' % i, **kw))
            else:
                tokens.append(dm.Token(2 * i, 2 * i + 1, None, 'l%d' % i, 'dep%d' % i, **kw))
    sentences = [dm.Sentence(a, b) for a, b in ranges]
    doc = dm.Document('a ' * n, tokens, sentences)
    if form == 'derived':      # heads survive re-derivation through document and sentence views
        doc = dm.Document.from_document(doc, list(doc.tokens))
        doc = dm.Document.from_document(doc, [t for s in doc.sentences for t in s.tokens])
    return doc


def verify(ctx, doc, ranges, heads):
    def inspect(token, h, i, index_base, view):
        where = 'word {} in the {} view'.format(i, view)
        ctx.op(4)
        if h is None:
            ctx.check(token.has_head is False or token.has_head == False, '{} has no head but has_head is {!r}'.format(where, token.has_head))
            ctx.check(not token.is_root, where + ' has no head but claims to be a root')
            ctx.equal(token.head_index, None, where + ': head_index')
            ctx.equal(token.head, None, where + ': head')
        elif h == -1:
            ctx.check(token.has_head and token.is_root, where + ' should be a root')
            ctx.equal(token.head_index, -1, where + ': head_index')
            ctx.equal(token.head, None, where + ': head of the root')
        else:
            ctx.check(token.has_head and not token.is_root, where + ' should have a head and not be a root')
            ctx.equal(token.head_index, h - index_base, where + ': head_index')
            head = token.head
            ctx.equal((head.lemma, head.start, head.sub_index), ('l%d' % h, doc[h].start, doc[h].sub_index), where + ': head word')
            ctx.equal(head.head_index, None if heads[h] is None else (-1 if heads[h] == -1 else heads[h] - index_base), where + ': head of head')
        ctx.equal(token.deprel, 'dep%d' % i, where + ': deprel')

    for i, token in enumerate(doc.tokens):
        inspect(token, heads[i], i, 0, 'document')
    for (a, b), sentence in zip(ranges, doc.sentences):
        for i, token in zip(range(a, b), sentence.tokens):
            inspect(token, heads[i], i, a, 'sentence')


def equivalent(ctx):
    n = ctx.pick(range(1, 6 if ctx.thorough else 5), 'words')
    ranges = ctx.pick(splits(n), 'sentences')
    heads = []
    for a, b in ranges:
        for i in range(a, b):
            heads.append(ctx.pick([None, -1] + list(range(a, b)), 'head'))
    mwt = n >= 2 and ctx.flag('first two words are a multi-word token') if n < 4 else False
    docs = []
    for form in FORMS:
        doc = ctx.accepts('heads {} of {} given by {}'.format(heads, ranges, form), build, ranges, heads, form, mwt)
        verify(ctx, doc, ranges, heads)
        docs.append(doc)
    for doc in docs[1:]:
        ctx.check(doc == docs[0] and docs[0] == doc, 'the same heads in another representation give an unequal document')
    ctx.state(ranges, heads, mwt)


def disagree(ctx):
    n = ctx.pick((1, 2, 3, 4), 'words')
    ranges = ctx.pick(splits(n), 'sentences')
    i = ctx.pick(n, 'word')
    a = [r for r in ranges if r[0] <= i < r[1]][0][0]
    b = [r for r in ranges if r[0] <= i < r[1]][0][1]
    doc_head = ctx.pick([-1] + list(range(a, b)), 'document head')
    sent_head = ctx.pick([-1] + list(range(0, b - a)), 'sentence head')
    agree = (doc_head == -1 and sent_head == -1) or (doc_head >= 0 and sent_head >= 0 and doc_head == sent_head + a)
    ctx.state(ranges, i, doc_head, sent_head)

    def make():
        tokens = [dm.Token(2 * j, 2 * j + 1, None, 'l%d' % j, 'dep%d' % j,
                           **({'head_document_index': doc_head, 'head_sentence_index': sent_head} if i == j else {}))
                  for j in range(n)]
        return dm.Document('a ' * n, tokens, [dm.Sentence(x, y) for x, y in ranges])

    if agree:
        doc = ctx.accepts('agreeing heads {} and {} of sentence {}'.format(doc_head, sent_head, (a, b)), make)
        verify(ctx, doc, ranges, [None if j != i else doc_head for j in range(n)])
    else:
        ctx.rejects('disagreeing heads {} (document) and {} (sentence) of sentence {}'.format(doc_head, sent_head, (a, b)), make)


def outside(ctx):
    """a head outside of the sentence: rejected, or at least not a root"""
    n = ctx.pick((2, 3, 4), 'words')
    ranges = ctx.pick(splits(n), 'sentences')
    i = ctx.pick(n, 'word')
    a, b = [r for r in ranges if r[0] <= i < r[1]][0]
    form = ctx.pick(('document', 'sentence'), 'form')
    if form == 'document':
        value = ctx.pick([h for h in range(-4, n + 2) if h != -1 and not a <= h < b], 'head')
    else:
        value = ctx.pick([h for h in range(-4, n + 2) if h != -1 and not 0 <= h < b - a], 'head')
    ctx.state(ranges, i, form, value)

    def make(validate):
        tokens = [dm.Token(2 * j, 2 * j + 1, **({'head_%s_index' % form: value} if i == j else
                                                ({'head_sentence_index': -1} if a <= j < b and j == (a if i != a else a + 1) else
                                                 ({'head_sentence_index': 0 if i != a else 1} if a <= j < b else {}))))
                  for j in range(n)]
        return dm.Document('a ' * n, tokens, [dm.Sentence(x, y) for x, y in ranges], validate)

    ctx.rejects('head {} relative to the {} with sentence {}'.format(value, form, (a, b)), make, True)
    try:
        doc = make(False)
    except Exception:
        return
    for token in (doc[i], doc.get_sentence([k for k, r in enumerate(ranges) if r == (a, b)][0])[i - a]):
        ctx.check(not token.is_root and token.has_head, 'a head outside of the sentence became a root')
    ctx.check(doc.get_sentence([k for k, r in enumerate(ranges) if r == (a, b)][0])[i - a].head_index != -1,
              'a head outside of the sentence is reported as root index by the sentence view')
    ctx.check(doc[i].head_index != -1, 'a head outside of the sentence is reported as root index by the document view')


def single(ctx):
    """tokens outside of any document: what they say about their head does not depend on the representation"""
    head = ctx.pick((None, -1, 0, 1, 7), 'head')
    form = ctx.pick(('sentence', 'document', 'both'), 'form')
    wrap = ctx.pick(('plain', 'of a document text', 'with new syntax', 'with new morphology', 'with extras'), 'token')
    multi = ctx.flag('multi-word')
    kw = kwargs_for(form, 0, head, 0)
    extra = dict(sub_index=1, text_replacement='x') if multi else {}
    token = dm.Token(3, 5, deprel='d', **dict(extra, **({} if wrap == 'with new syntax' else kw)))
    if wrap == 'with new syntax':
        token = dm.Token.with_syntax(token, 'd', **kw)
    elif wrap == 'with new morphology':
        token = dm.Token.with_morphology(token, None, 'l')
    elif wrap == 'with extras':
        token = dm.Token.update_extras(token, {'a': 1})
    elif wrap == 'of a document text':
        token = dm.DocumentToken('abcdefg', token)
    ctx.op(2)
    ctx.equal(bool(token.has_head), head is not None, 'has_head of a {} token with head {} given by {}'.format(wrap, head, form))
    ctx.equal(bool(token.is_root), head == -1, 'is_root of a {} token with head {} given by {}'.format(wrap, head, form))
    ctx.state(head, form, wrap, multi)


def large(ctx):
    n = ctx.pick((12, 60, 130), 'words')
    step = ctx.pick((1, 5, 11, 64, n), 'sentence length')
    shift = ctx.pick((1, 3, 7), 'head pattern')
    ranges = [(a, min(n, a + step)) for a in range(0, n, step)]
    heads = []
    for a, b in ranges:
        for i in range(a, b):
            heads.append(-1 if i == a else (None if shift == 7 and i % 5 == 0 else a + (i - a) * shift % (b - a)))
    docs = []
    for form in FORMS:
        doc = ctx.accepts('large document', build, ranges, heads, form, False)
        verify(ctx, doc, ranges, heads)
        docs.append(doc)
    for doc in docs[1:]:
        ctx.check(doc == docs[0], 'the same heads in another representation give an unequal document')
    ctx.state(n, step, shift)


SCENARIOS = {'representations': equivalent, 'double specification': disagree, 'outside the sentence': outside, 'single tokens': single,
             'large documents': large}
