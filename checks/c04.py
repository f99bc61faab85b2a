"""C04 Navigation, text and spacing agree between document and sentence views"""
from mc.gen import splits, subsequence

BOUNDS = {
    'quick': 'all documents of <=3 pieces (4 gaps x 5 token kinds incl. multi-word tokens of 1-3 words), 3 trailing gaps, '
             'all sentence splittings; periodic documents of up to 150 tokens',
    'thorough': '<=4 pieces with 5 gaps, documents of up to 600 tokens',
}


def load(thorough):
    global dm
    import babylondigger.datamodel as dm


GAPS = ('', ' ', '\u00a0', 'x', '\t ', '\u3000')
KINDS = (('a', 0), ('b c', 0), ('ab', 1), ('cd', 2), ('\U0001d54f', 3))


def assemble(pieces, trailing):
    """pieces: [(gap, surface, words)] -> text, expected words [(start, end, sub, form or None, gap after)]"""
    text = ''
    words = []
    for gap, surface, count in pieces:
        text += gap
        start = len(text)
        text += surface
        for k in range(max(1, count)):
            words.append((start, len(text), k, ('w%d-%d' % (start, k)) if count else None))
    return text + trailing, words


def verify(ctx, text, words, ranges, annotate):
    tokens = []
    for i, (start, end, k, form) in enumerate(words):
        pos = dm.Pos('U', 'X', {'A': 'b'}) if annotate and i % 2 else None
        tokens.append(dm.Token(start, end, pos, 'm%d' % i if annotate else None, sub_index=k, text_replacement=form))
    doc = ctx.accepts('document', dm.Document, text, tokens, [dm.Sentence(a, b) for a, b in ranges] if words else None)
    n = len(words)

    def key(token):
        return (token.start, token.end, token.sub_index)

    def inspect_words(container, expected, what):
        m = len(expected)
        ctx.op(m)
        ctx.equal(container.tokens_count, m, what + ': tokens_count')
        by_iter = list(container.tokens)
        ctx.equal([key(t) for t in by_iter], [w[:3] for w in expected], what + ': tokens')
        ctx.equal([key(t) for t in container], [w[:3] for w in expected], what + ': iteration')
        for i, (start, end, k, form) in enumerate(expected):
            for token in (container[i], container.get_token(i), by_iter[i]):
                ctx.equal(key(token), (start, end, k), what + ': token by index')
                ctx.equal(token.text, form if form is not None else text[start:end], what + ': token text')
                ctx.equal(token.doc_text, text[start:end], what + ': surface text')
                ctx.equal(token.is_multiword, form is not None, what + ': is_multiword')
                follows = end == len(text) or text[end].isspace()
                ctx.equal(bool(token.space_after), follows, what + ': space_after of {}'.format((start, end)))
                ctx.equal((token.is_first, token.is_last), (i == 0, i == m - 1), what + ': first/last flags')
                nxt, prev = token.next, token.previous
                ctx.equal(None if nxt is None else key(nxt), None if i == m - 1 else expected[i + 1][:3], what + ': next')
                ctx.equal(None if prev is None else key(prev), None if i == 0 else expected[i - 1][:3], what + ': previous')
        for bad in (m, m + 1, m + 7, -m - 1):
            ctx.rejects(what + ': index {} of {}'.format(bad, m), lambda: container[bad], exc=IndexError)
        if m:
            walked, token = [], container[0]
            while token is not None and len(walked) <= m:
                walked.append(key(token))
                token = token.next
            ctx.equal(walked, [w[:3] for w in expected], what + ': walking forward')
            walked, token = [], container[m - 1]
            while token is not None and len(walked) <= m:
                walked.append(key(token))
                token = token.previous
            ctx.equal(walked, [w[:3] for w in reversed(expected)], what + ': walking back')

    ctx.equal(doc.text, text, 'document text')
    inspect_words(doc, words, 'document')
    ctx.equal(doc.sentences_count, len(ranges), 'sentences_count')
    sentences = list(doc.sentences)
    ctx.equal(len(sentences), len(ranges), 'number of sentences')
    for i, (a, b) in enumerate(ranges):
        for sentence in (sentences[i], doc.get_sentence(i)):
            inspect_words(sentence, words[a:b], 'sentence {}'.format(i))
            ctx.equal(sentence.text, text[words[a][0]:words[b - 1][1]], 'sentence text')
            ctx.equal((sentence.is_first, sentence.is_last), (i == 0, i == len(ranges) - 1), 'sentence flags')
            ctx.equal(None if sentence.next is None else sentence.next.text,
                      None if i == len(ranges) - 1 else text[words[ranges[i + 1][0]][0]:words[ranges[i + 1][1] - 1][1]], 'next sentence')
            ctx.equal(None if sentence.previous is None else sentence.previous.text,
                      None if i == 0 else text[words[ranges[i - 1][0]][0]:words[ranges[i - 1][1] - 1][1]], 'previous sentence')
    for bad in (len(ranges), len(ranges) + 3):
        ctx.rejects('sentence index {} of {}'.format(bad, len(ranges)), doc.get_sentence, bad, exc=IndexError)
    printed = ctx.accepts('str(document)', str, doc)
    ctx.check(subsequence(text, printed), 'str(document) does not show the whole text: {!r} for {!r}', printed, text)
    if annotate:
        for i in range(n):
            ctx.check("m%d" % i in printed, 'str(document) does not show lemma m{}', i)
    if annotate and n and not any(w[3] for w in words):
        pass
    ctx.accepts('repr(document)', repr, doc)
    ctx.state(text, words, ranges)


def small(ctx):
    count = ctx.pick(range(0, 5 if ctx.thorough else 4), 'pieces')
    gaps = GAPS[:4] if not ctx.thorough or count == 4 else GAPS
    kinds = KINDS if count < 4 else KINDS[:4]
    if count == 3 and not ctx.thorough:
        gaps, kinds = GAPS[:3], KINDS[:4]
    pieces = []
    for _ in range(count):
        gap = ctx.pick(gaps, 'gap')
        surface, words = ctx.pick(kinds, 'token')
        pieces.append((gap, surface, words))
    trailing = ctx.pick(('', ' ', 'x', '\n'), 'trailing text')
    text, words = assemble(pieces, trailing)
    options = splits(len(words))
    if len(options) > 8:        # every splitting into at most two sentences, plus the finest one
        options = [o for o in options if len(o) <= 2] + [options[-1]]
    ranges = ctx.pick(options, 'sentences')
    verify(ctx, text, words, list(ranges), ctx.flag('annotated') if count < 3 else True)


def spacing(ctx):
    """every code point class after a token"""
    after = ctx.pick([chr(c) for c in list(range(0x20)) + [0x20, 0x7f, 0x85, 0xa0, 0xad, 0x1680, 0x180e] +
                      list(range(0x2000, 0x2010)) + [0x2028, 0x2029, 0x202f, 0x205f, 0x2060, 0x3000, 0xfeff, 0x10000, ord('_'), ord('.'), ord('a')]], 'character')
    tail = ctx.pick(('', 'b', ' '), 'tail')
    multi = ctx.pick((0, 1, 2), 'words')
    text, words = assemble([('', 'tok', multi)], after + tail)
    verify(ctx, text, words, [(0, len(words))], False)


def large(ctx):
    n = ctx.pick((10, 33, 70, 150, 600) if ctx.thorough else (10, 33, 70, 150), 'pieces')
    a, b = ctx.pick((1, 2, 3), 'gap period'), ctx.pick((1, 3, 5), 'kind period')
    text, words = assemble([(GAPS[i // a % 4], *KINDS[i // b % 5]) for i in range(n)], ctx.pick(('', ' '), 'trailing'))
    step = ctx.pick((1, 7, 50, 1000), 'sentence length')
    m = len(words)
    verify(ctx, text, words, [(x, min(m, x + step)) for x in range(0, m, step)], True)


SCENARIOS = {'small documents': small, 'spacing': spacing, 'large documents': large}
