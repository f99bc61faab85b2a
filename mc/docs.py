"""abstract documents for the checks that start from the data model: construction and what writing / reading must preserve"""
from mc import conll
from mc.gen import pos_view


class Word(object):
    def __init__(self, form, lemma=None, pos=None, head=None, deprel=None):
        """pos: None or (upos, xpos, {feature: value}); head: None, -1 or index in the sentence"""
        self.form, self.lemma, self.pos, self.head, self.deprel = form, lemma, pos, head, deprel


class Item(object):
    """surface token: plain (words is None, `plain` holds the annotation) or multi-word"""

    def __init__(self, surface, words=None, after=' ', plain=None):
        self.surface, self.after = surface, after
        self.multi = words is not None
        self.words = words if words is not None else [plain or Word(surface)]
        if not self.multi:
            self.words[0].form = surface


def sentence_words(sentence):
    return [w for item in sentence for w in item.words]


def build(dm, sentences, lead='', sentence_heads=True):
    """real document of the abstract sentences (lists of Item)"""
    text = lead
    tokens, ranges = [], []
    for sentence in sentences:
        first = len(tokens)
        for item in sentence:
            start = len(text)
            text += item.surface
            for k, w in enumerate(item.words):
                pos = dm.Pos(*w.pos) if w.pos is not None else None
                if sentence_heads or w.head in (None, -1):
                    heads = {'head_sentence_index': w.head}
                else:
                    heads = {'head_document_index': first + w.head}
                tokens.append(dm.Token(start, start + len(item.surface), pos, w.lemma, w.deprel, k,
                                       w.form if item.multi else None, **heads))
            text += item.after
        ranges.append(dm.Sentence(first, len(tokens)))
    return dm.Document(text, tokens, ranges)


def chain(sentence, deprel='dep'):
    for i, w in enumerate(sentence_words(sentence)):
        w.head = i - 1
        w.deprel = 'root' if i == 0 else deprel
    return sentence


def set_heads(sentence, heads):
    for i, w in enumerate(sentence_words(sentence)):
        w.head = heads[i]
        w.deprel = 'root' if heads[i] == -1 else 'nsubj'
    return sentence


def shield(value):
    return '_' if value is None else value


def feats_string(feats):
    if not feats:
        return '_'
    return '|'.join('%s=%s' % i for i in sorted(feats.items(), key=lambda i: (i[0].lower(), i[0])))


def followed_by_space(item, last):
    return last and item.after == '' or item.after[:1].isspace()


def expected_lines(sentences, columns=conll.ALL):
    """columns ID..DEPREL and MISC that the writer must emit; HEAD '*' marks a placeholder (any integer)"""
    columns = set(columns)
    if conll.DEPREL in columns:
        columns.add(conll.HEAD)
    result = []
    total = sum(len(s) for s in sentences)
    seen = 0
    for sentence in sentences:
        index = 0
        for item in sentence:
            seen += 1
            misc = '_' if followed_by_space(item, seen == total) else 'SpaceAfter=No'
            if item.multi:
                result.append(['%d-%d' % (index + 1, index + len(item.words)), item.surface] + ['_'] * 7 + [misc])
            for w in item.words:
                index += 1
                pos = w.pos or (None, None, {})
                line = [str(index), w.form,
                        shield(w.lemma) if conll.LEMMA in columns else '_',
                        shield(pos[0]) if conll.UPOS in columns else '_',
                        shield(pos[1]) if conll.XPOS in columns else '_',
                        feats_string(pos[2]) if conll.FEATS in columns else '_']
                if conll.HEAD in columns and w.head is not None:
                    line += [str(w.head + 1), shield(w.deprel) if conll.DEPREL in columns else '_']
                else:
                    line += ['*', '_']
                result.append(line + ['_', '_' if item.multi else misc])
        result.append(None)
    return result


def parse_lines(ctx, text):
    """independent split of the writer's output"""
    if text == '':
        return []
    ctx.check(text.endswith('\n'), 'the output does not end in a line end: {!r}', text)
    return [line.split('\t') if line else None for line in text[:-1].split('\n')]


def compare_output(ctx, text, sentences, columns=conll.ALL):
    want = expected_lines(sentences, columns)
    got = parse_lines(ctx, text)
    for i, (g, w) in enumerate(zip(got, want)):
        if g is None or w is None:
            ctx.check(g == w, 'line {}: got {!r}, expected {!r}', i, g, w)
            continue
        if w[6] == '*' and len(g) == 10:
            ctx.check(g[6].isdigit(), 'line {}: placeholder head {!r}', i, g[6])
            g = g[:6] + ['*'] + g[7:]
        if g != w:
            ctx.fail('line {}: got {!r}, expected {!r}'.format(i, g, w))
    ctx.equal(len(got), len(want), 'number of lines of {!r}'.format(text[:2000]))


def semantic_rows(document, columns=conll.ALL):
    """per sentence: words with everything a round trip preserves (without absolute offsets)"""
    columns = set(columns)
    if conll.DEPREL in columns:
        columns.add(conll.HEAD)
    result = []
    for sentence in document.sentences:
        rows = []
        for token in sentence:
            pos = token.pos
            upos, xpos, feats = (None, None, ()) if pos is None else pos_view(pos)
            head = token.head_index if conll.HEAD in columns else None
            rows.append((token.text, token.doc_text, token.is_multiword, token.sub_index, token.space_after,
                         token.lemma if conll.LEMMA in columns else None, upos if conll.UPOS in columns else None,
                         xpos if conll.XPOS in columns else None, feats if conll.FEATS in columns else (),
                         head, token.deprel if conll.DEPREL in columns else None))
        result.append(rows)
    return result


def abstract_rows(sentences, columns=conll.ALL):
    columns = set(columns)
    if conll.DEPREL in columns:
        columns.add(conll.HEAD)
    result = []
    total = sum(len(s) for s in sentences)
    seen = 0
    for sentence in sentences:
        rows = []
        for item in sentence:
            seen += 1
            space = followed_by_space(item, seen == total)
            for k, w in enumerate(item.words):
                pos = w.pos or (None, None, {})
                rows.append((w.form, item.surface, item.multi, k, space,
                             w.lemma if conll.LEMMA in columns else None, pos[0] if conll.UPOS in columns else None,
                             pos[1] if conll.XPOS in columns else None,
                             tuple(sorted((pos[2] or {}).items())) if conll.FEATS in columns else (),
                             w.head if conll.HEAD in columns else None,
                             w.deprel if conll.DEPREL in columns and w.head is not None else None))
        result.append(rows)
    return result


def mask_last_space(rows):
    """the end of a text counts as space, so spacing after the very last surface token cannot be observed"""
    if not rows:
        return rows
    last = rows[-1][-1]
    tail = []
    for row in rows[-1]:
        if row[1] == last[1]:
            row = row[:4] + (None,) + row[5:]
        tail.append(row)
    return rows[:-1] + [tail]


def mask_heads(rows, sentences_without):
    """forget (placeholder) heads of the given sentences"""
    return [[r[:9] + (None, r[10]) for r in s] if i in sentences_without else s for i, s in enumerate(rows)]


KINDS = ('bare', 'full', 'multi', 'part')


def pick_sentences(ctx, most, least=1, kinds=KINDS, syntax=True, separators=(' ', '')):
    """enumerated abstract sentences: `least`..`most` surface tokens, every cut into sentences"""
    count = ctx.pick(range(least, most + 1), 'surface tokens')
    sentences, current, n = [], [], 0
    for i in range(count):
        kind = ctx.pick(kinds, 'token')
        after = ctx.pick(separators, 'separator') if count < 3 else separators[i % len(separators)]
        n += 1
        if kind == 'bare':
            current.append(Item('b%d' % n, after=after))
        elif kind == 'full':
            current.append(Item('Full%d' % n, after=after, plain=Word('', 'lem%d' % n, ('UP%d' % n, 'xp', {'Num': 'Sing', 'Case': 'N%d' % n}))))
        elif kind == 'part':
            current.append(Item('p%d' % n, after=after, plain=Word('', None, (None, 'xp%d' % n, {}))))
        else:
            current.append(Item('mw%d' % n, [Word('first%d' % n, 'lf', ('UP', None, {})), Word('second%d' % n, None, None)], after))
        if i + 1 == count or ctx.flag('end of sentence'):
            sentences.append(current)
            current = []
    if syntax:
        for s in sentences:
            if ctx.flag('syntax'):
                chain(s)
    return sentences


def with_extras(dm, document, mark='x'):
    """the same document with distinct extras on every token"""
    tokens = [dm.Token.with_extras(t, dm.TokenExtras({'mark': [mark, i]})) for i, t in enumerate(document.tokens)]
    return dm.Document.from_document(document, tokens)
