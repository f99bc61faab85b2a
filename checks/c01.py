"""C01 Documents accept exactly the well-formed segmentations of a text"""
from mc.gen import tok_view

ASSUMPTIONS = ['token ends beyond the text are not part of the property']
BOUNDS = {
    'quick': 'ordered lists of <=3 tokens over a 4-character text (50 candidate tokens), <=4 over 2 characters; '
             'ordered lists of <=4 ranges over <=4 tokens; single mutations of documents of up to 120 tokens',
    'thorough': 'ordered lists of <=4 tokens over 3 characters, <=5 over 2; <=4 ranges over <=5 tokens; documents of up to 400 tokens',
}


def load(thorough):
    global dm
    import babylondigger.datamodel as dm


KINDS = (None, 0, 1, 2, -1)   # None: plain token; k: word k of a multi-word token


def make(span, kind, label):
    start, end = span
    pos = dm.Pos('P%d' % (label % 3), 'x' if label % 2 else None, {'F': str(label)})
    if kind is None:
        return dm.Token(start, end, pos, 'l%d' % label, deprel='d%d' % label)
    return dm.Token(start, end, pos, 'l%d' % label, deprel='d%d' % label, sub_index=kind, text_replacement='w%d' % label)


def well_formed(tokens):
    """tokens: [(span, kind)]"""
    groups = {}
    for span, kind in tokens:
        groups.setdefault(span, []).append(kind)
    spans = list(groups)
    for i, a in enumerate(spans):
        for b in spans[i + 1:]:
            if a[0] < b[1] and b[0] < a[1]:
                return False
    for kinds in groups.values():
        if kinds == [None]:
            continue
        if None in kinds or sorted(kinds) != list(range(len(kinds))):
            return False
    return True


def verify(ctx, doc, text, supplied, ranges):
    expected = sorted(supplied, key=lambda t: (t.start, t.end, t.sub_index))
    ctx.equal(doc.text, text, 'document text')
    ctx.equal(doc.tokens_count, len(expected), 'token count')
    got = [tok_view(t) for t in doc.tokens]
    ctx.equal(got, [tok_view(t) for t in expected], 'tokens of the document')
    ctx.equal([tok_view(doc[i]) for i in range(len(expected))], got, 'tokens by index')
    ctx.equal([(s.start, s.end) for s in doc.sentences_boundaries], list(ranges), 'sentence boundaries')
    ctx.equal(doc.sentences_count, len(ranges), 'sentence count')
    ctx.equal([[tok_view(t) for t in s.tokens] for s in doc.sentences], [got[a:b] for a, b in ranges], 'tokens of the sentences')
    ctx.state(got, ranges)


def _tokens_scenario(length, max_tokens, max_tokens_thorough):
    text = 'abcdefgh'[:length]
    spans = [(s, e) for s in range(length) for e in range(s + 1, length + 1)]
    candidates = [(span, kind) for span in spans for kind in KINDS]

    def program(ctx):
        n = ctx.pick(range((max_tokens_thorough if ctx.thorough else max_tokens) + 1), 'tokens')
        chosen = [ctx.pick(candidates, 'token') for _ in range(n)]
        tokens = []
        for i, (span, kind) in enumerate(chosen):
            tokens.append(make(span, kind, i))
        if well_formed(chosen):
            doc = ctx.accepts('document over tokens {}'.format(chosen), dm.Document, text, list(tokens))
            verify(ctx, doc, text, tokens, [(0, n)] if n else [])
        else:
            ctx.state('rejected', chosen)
            ctx.rejects('document over tokens {}'.format(chosen), dm.Document, text, list(tokens))
    return program


def ranges_ok(ranges, n):
    ranges = sorted(ranges)
    position = 0
    for a, b in ranges:
        if a != position:
            return False
        position = b
    return position == n


def sentences_scenario(ctx):
    n = ctx.pick(range(0, 6 if ctx.thorough else 5), 'tokens')
    multi = ctx.pick((0, 1, 2), 'position of a multi-word token') if n > 2 else 0
    ranges_all = [(a, b) for a in range(n + 2) for b in range(a + 1, n + 2)]
    count = ctx.pick(range(0, 5), 'ranges')
    ranges = [ctx.pick(ranges_all, 'range') for _ in range(count)]
    container = ctx.pick(('list', 'tuple', 'iterator'), 'container') if count < 3 else 'list'
    tokens = []
    for i in range(n):
        if multi and i in (multi - 1, multi):
            tokens.append(make((multi * 2, multi * 2 + 1), i - multi + 1, i))
        else:
            tokens.append(make((i * 2, i * 2 + 1), None, i))
    text = 'a ' * n
    sentences = [dm.Sentence(a, b) for a, b in ranges]
    supplied = {'list': list, 'tuple': tuple, 'iterator': iter}[container](sentences)
    if ranges_ok(ranges, n):
        doc = ctx.accepts('{} tokens with sentences {}'.format(n, ranges), dm.Document, text, tokens[::-1], supplied)
        verify(ctx, doc, text, tokens, sorted(ranges))
    else:
        ctx.state('rejected', n, ranges)
        ctx.rejects('{} tokens with sentences {}'.format(n, ranges), dm.Document, text, tokens, supplied)


def large_scenario(ctx):
    """documents of realistic size: all rotations and reversals, and every single-token defect"""
    n = ctx.pick((5, 11, 40, 120, 400) if ctx.thorough else (5, 11, 40, 120), 'tokens')
    every = ctx.pick((0, 2, 5), 'multi-word period')
    words = ctx.pick((2, 3, 12), 'words per multi-word token') if every else 0
    chosen = []
    position = 0
    i = 0
    while len(chosen) < n:
        span = (position, position + 1 + i % 3)
        if every and i % every == every - 1:
            chosen.extend((span, k) for k in range(words))
        else:
            chosen.append((span, None))
        position = span[1] + i % 2
        i += 1
    n = len(chosen)
    text = 'x' * position
    mutation = ctx.pick(('none', 'rotate', 'reverse', 'drop', 'duplicate', 'stretch', 'renumber', 'plain'), 'mutation')
    where = ctx.pick(n if n <= 41 else sorted({0, 1, 2, 7, 8, 9, 10, 31, 32, 33, n // 2, n - 3, n - 2, n - 1}), 'position') \
        if mutation not in ('none', 'reverse') else 0
    if mutation == 'rotate':
        chosen = chosen[where:] + chosen[:where]
    elif mutation == 'reverse':
        chosen = chosen[::-1]
    elif mutation == 'drop':
        chosen = chosen[:where] + chosen[where + 1:]
    elif mutation == 'duplicate':
        chosen = chosen + [chosen[where]]
    elif mutation == 'stretch':
        (s, e), k = chosen[where]
        chosen = chosen[:where] + [((s, e + 1), k)] + chosen[where + 1:]
    elif mutation == 'renumber':
        span, k = chosen[where]
        chosen = chosen[:where] + [(span, 1 if k is None else k + 1)] + chosen[where + 1:]
    elif mutation == 'plain':
        span, k = chosen[where]
        chosen = chosen[:where] + [(span, None)] + chosen[where + 1:]
    n = len(chosen)
    step = ctx.pick((1, 3, n), 'sentence length')
    ranges = [(a, min(a + step, n)) for a in range(0, n, step)]
    tokens = [make(span, kind, i) for i, (span, kind) in enumerate(chosen)]
    sentences = [dm.Sentence(a, b) for a, b in reversed(ranges)]
    if well_formed(chosen):
        doc = ctx.accepts('large document ({}, {})'.format(mutation, where), dm.Document, text, tokens, sentences)
        verify(ctx, doc, text, tokens, ranges)
    else:
        ctx.state('rejected', mutation, where, n)
        ctx.rejects('large document ({}, {})'.format(mutation, where), dm.Document, text, tokens, sentences)


def constructors_scenario(ctx):
    start = ctx.pick(range(-3, 5), 'start')
    end = ctx.pick(range(-3, 5), 'end')
    ok = 0 <= start < end
    what = ctx.pick(('token', 'multi', 'sentence'), 'what')
    call = {'token': lambda: dm.Token(start, end), 'multi': lambda: dm.Token(start, end, sub_index=1, text_replacement='w'),
            'sentence': lambda: dm.Sentence(start, end)}[what]
    if ok:
        value = ctx.accepts('{}({}, {})'.format(what, start, end), call)
        ctx.equal((value.start, value.end), (start, end), 'bounds')
        if what == 'sentence':
            ctx.equal(value.len, end - start, 'sentence length')
    else:
        ctx.rejects('{}({}, {})'.format(what, start, end), call)
    ctx.state(what, start, end, ok)


SCENARIOS = {
    'constructors': constructors_scenario,
    'tokens over 3-4 characters': lambda ctx: _T4(ctx),
    'tokens over 2 characters': lambda ctx: _T2(ctx),
    'sentences': sentences_scenario,
    'large documents': large_scenario,
}
_T2 = _tokens_scenario(2, 4, 5)
_T4a = _tokens_scenario(4, 3, 3)
_T3b = _tokens_scenario(3, 3, 4)


def _T4(ctx):
    (_T4a if ctx.pick((0, 1)) == 0 else _T3b)(ctx)
