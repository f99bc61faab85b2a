"""C05 Derivations change only what was asked; existing values are immutable"""
import copy

from mc.gen import pos_view, doc_view, splits

BOUNDS = {
    'quick': 'all sequences of <=3 derivations/outside mutations (15 operations) on 6 kinds of tokens, plus <=4 over a '
             'reduced set of operations; all derived documents of <=3 pieces with per-token annotation choices and permutations; all one-token misalignments',
    'thorough': 'sequences of <=4 operations (15 operations)',
}


def load(thorough):
    global dm
    import babylondigger.datamodel as dm
    global PRIVATE
    # bare tokens do not publish head indices; look at them only where the (internal) accessors exist
    PRIVATE = hasattr(dm.Token, '_head_document_index') and hasattr(dm.Token, '_head_sentence_index')


def head(has, root, doc, sent):
    return {'head': (has, root), 'head index': (doc, sent) if PRIVATE else None}


FIELDS = ('start', 'end', 'sub_index', 'text_replacement', 'lemma', 'deprel')


def observe(token):
    return {'start': token.start, 'end': token.end, 'sub_index': token.sub_index, 'form': token.text_replacement,
            'multi': token.is_multiword, 'lemma': token.lemma, 'pos': pos_view(token.pos), 'deprel': token.deprel,
            'head': (token.has_head, token.is_root),
            'head index': (token._head_document_index, token._head_sentence_index) if PRIVATE else None,
            'extras': token.extras.as_dict()}


def read(extras, expected):
    """all ways to read the extras agree"""
    return sorted(extras) == sorted(extras.keys()) == sorted(expected) and all((key in extras) == (key in expected) for key in ('v', 'q', 'new', 'absent', 'MUTATED')) \
        and all(key in extras and extras[key] == expected[key] for key in expected)


class World(object):
    """all values created so far with what they must look like, and everything mutable that crossed the boundary"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.tokens = []         # (token, expected, document text or None)
        self.mutable = []        # dicts and lists that were passed in or handed out

    def add(self, token, expected, text=None):
        self.tokens.append((token, copy.deepcopy(expected), text))

    def verify(self):
        for i, (token, expected, text) in enumerate(self.tokens):
            got = observe(token)
            if got != expected:
                diff = {k: (got[k], expected[k]) for k in got if got[k] != expected[k]}
                self.ctx.fail('token #{} (got, expected): {}'.format(i, diff))
            if expected['pos'] is not None:
                self.ctx.equal([token.pos.feature(k) for k in ('A', 'C', 'MUTATED')], [dict(expected['pos'][2]).get(k) for k in ('A', 'C', 'MUTATED')],
                               'single features of token #{}'.format(i))
            self.ctx.check(read(token.extras, expected['extras']), 'the extras of token #{} read one by one differ from {}', i, expected['extras'])
            if text is not None:
                want = expected['form'] if expected['form'] is not None else text[expected['start']:expected['end']]
                self.ctx.equal(token.text, want, 'text of token #{}'.format(i))
                end = expected['end']
                self.ctx.equal(token.space_after, end == len(text) or text[end].isspace(), 'space_after of token #{}'.format(i))

    def mutate(self):
        for value in self.mutable:
            spoil(value)


def spoil(value):
    """changes a dict or list at every level"""
    for inner in list(value.values()) if isinstance(value, dict) else list(value):
        if isinstance(inner, (dict, list)):
            spoil(inner)
    if isinstance(value, dict):
        value['MUTATED'] = 'x'
        value.pop('A', None)
    else:
        value.append('MUTATED')


def initial(ctx, world, kind):
    feats = {'A': 'b', 'C': 'd'}
    extras = {'v': [1, 2], 'n': {'k': [3]}, 'A': 's'}
    pos = dm.Pos('U', 'X', feats)
    ex = dm.TokenExtras(extras)
    world.mutable += [feats, extras]
    common = dict(pos=pos, lemma='l', deprel='d')
    expected = {'start': 0, 'end': 2, 'sub_index': 0, 'form': None, 'multi': False, 'lemma': 'l',
                'pos': ('U', 'X', (('A', 'b'), ('C', 'd'))), 'deprel': 'd', **head(True, False, None, 1),
                'extras': {'v': [1, 2], 'n': {'k': [3]}, 'A': 's'}}
    if kind == 'bare':
        token = dm.Token(0, 2, head_sentence_index=1, extras=ex, **common)
    elif kind == 'bare word':
        token = dm.Token(0, 2, sub_index=1, text_replacement='w', head_sentence_index=1, extras=ex, **common)
        expected.update(sub_index=1, form='w', multi=True)
    elif kind == 'empty':
        token = dm.Token(0, 2)
        expected.update(pos=None, lemma=None, deprel=None, extras={}, **head(False, False, None, None))
    else:
        tokens = [dm.Token(0, 2, sub_index=0, text_replacement='w', head_sentence_index=1, extras=ex, **common),
                  dm.Token(0, 2, sub_index=1, text_replacement='', head_sentence_index=-1),
                  dm.Token(3, 4, pos=pos, head_document_index=2)] if kind == 'navigable word' else \
                 [dm.Token(0, 2, head_sentence_index=1, extras=ex, **common), dm.Token(3, 4, head_sentence_index=-1)]
        doc = dm.Document('ab c', tokens)
        expected.update(head(True, False, 1, 1))
        if kind == 'navigable word':
            expected.update(form='w', multi=True)
        if kind == 'sentence word':
            token = doc.get_sentence(0)[0]
        else:
            token = doc[0]
        world.add(token, expected, 'ab c')
        return token, expected, 'ab c'
    world.add(token, expected)
    return token, expected, None


KINDS = ('bare', 'bare word', 'empty', 'navigable', 'navigable word', 'sentence word')


def op_morphology(pos_spec, lemma):
    def apply(world, token, expected, cls):
        feats = dict(pos_spec[2]) if pos_spec else None
        pos = dm.Pos(pos_spec[0], pos_spec[1], feats) if pos_spec else None
        if feats is not None:
            world.mutable.append(feats)
        return cls.with_morphology(token, pos, lemma), dict(expected, pos=pos_spec, lemma=lemma)
    return apply


def op_morphology_default(world, token, expected, cls):
    return cls.with_morphology(token), dict(expected, pos=None, lemma=None)


def op_syntax(deprel, doc, sent):
    def apply(world, token, expected, cls):
        return cls.with_syntax(token, deprel, head_document_index=doc, head_sentence_index=sent), \
            dict(expected, deprel=deprel, **head(doc is not None or sent is not None, doc == -1 or sent == -1, doc, sent))
    return apply


def op_syntax_default(world, token, expected, cls):
    return cls.with_syntax(token), dict(expected, deprel=None, **head(False, False, None, None))


def op_with_extras(values):
    def apply(world, token, expected, cls):
        if values is None:
            return cls.with_extras(token), dict(expected, extras={})
        supplied = copy.deepcopy(values)
        world.mutable.append(supplied)
        return cls.with_extras(token, dm.TokenExtras(supplied)), dict(expected, extras=copy.deepcopy(values))
    return apply


def op_update_extras(values):
    def apply(world, token, expected, cls):
        supplied = copy.deepcopy(values)
        if supplied is not None:
            world.mutable.append(supplied)
        extras = copy.deepcopy(expected['extras'])
        extras.update(copy.deepcopy(values) or {})
        return cls.update_extras(token, supplied), dict(expected, extras=extras)
    return apply


def op_hand_out(world, token, expected, cls):
    """take everything mutable the token gives away"""
    if token.pos is not None:
        world.mutable.append(token.pos.feats)
    handed = token.extras.as_dict()
    world.mutable.append(handed)
    for key in token.extras:
        value = token.extras[key]
        if isinstance(value, (list, dict)):
            world.mutable.append(value)
    return None


def op_mutate(world, token, expected, cls):
    world.mutate()
    return None


OPS = [
    ('morphology', op_morphology(('V', None, (('F', 'g'),)), 'k')),
    ('morphology same lemma', op_morphology(('U', 'X', ()), 'l')),
    ('morphology cleared', op_morphology_default),
    ('syntax by sentence', op_syntax('e', None, 0)),
    ('syntax root by document', op_syntax('root', -1, None)),
    ('syntax both', op_syntax('f', 1, 1)),
    ('syntax cleared', op_syntax_default),
    ('hand out', op_hand_out),
    ('mutate', op_mutate),
    ('extras', op_with_extras({'q': [5]})),
    ('extras cleared', op_with_extras(None)),
    ('update extras', op_update_extras({'v': [9], 'new': {'z': [1]}})),
    ('update extras nothing', op_update_extras({})),
    ('update extras None', op_update_extras(None)),
    ('morphology only pos', op_morphology(('W', 'Y', ()), None)),
]


def _run(ctx, ops, length):
    world = World(ctx)
    kind = ctx.pick(KINDS, 'token')
    token, expected, text = initial(ctx, world, kind)
    world.verify()
    via = ctx.pick(('class', 'instance'), 'call') if text is not None else 'class'
    for _ in range(length):
        name, op = ctx.pick(ops, 'operation')
        ctx.op()
        cls = dm.Token if via == 'class' else token
        result = op(world, token, expected, cls)
        if result is not None:
            token, expected = result
            text_now = text if via == 'instance' else None
            world.add(token, expected, text_now)
        world.verify()
        ctx.state(kind, via, sorted(observe(token).items(), key=lambda i: i[0]), len(world.mutable))


def sequences(ctx):
    _run(ctx, OPS, ctx.pick((1, 2, 3, 4) if ctx.thorough else (1, 2, 3), 'length'))


def long_sequences(ctx):
    reduced = [OPS[i] for i in (0, 5, 7, 8, 11)]
    _run(ctx, reduced, 5 if ctx.thorough else 4)


# ------------------------------------------------------------------ documents


def base_document(shape, ranges):
    """shape: number of words of each surface token (0: plain)"""
    tokens, text, index = [], '', 0
    for i, words in enumerate(shape):
        start = len(text)
        text += 'tok%d' % i
        for k in range(max(1, words)):
            tokens.append(dm.Token(start, len(text), dm.Pos('U%d' % index), 'l%d' % index, 'd%d' % index, k,
                                   'w%d' % index if words else None, extras=dm.TokenExtras({'i': [index]})))
            index += 1
        text += ' '
    return dm.Document(text, tokens, [dm.Sentence(a, b) for a, b in ranges])


def derived_documents(ctx):
    count = ctx.pick((1, 2, 3), 'surface tokens')
    shape = [ctx.pick((0, 2), 'words') for _ in range(count)]
    n = sum(max(1, w) for w in shape)
    ranges = ctx.pick([r for r in splits(n) if len(r) <= 2], 'sentences')
    doc = base_document(shape, ranges)
    before = doc_view(doc)
    choices = [ctx.pick(('keep', 'tag', 'clear') if n < 5 else ('keep', 'tag'), 'change') for _ in range(n)]
    source = ctx.pick(('document', 'sentences'), 'source')
    tokens = list(doc.tokens) if source == 'document' else [t for s in doc.sentences for t in s.tokens]
    expected = []
    new = []
    for i, (token, choice) in enumerate(zip(tokens, choices)):
        row = list(before[2][i])
        if choice == 'tag':
            token = dm.Token.update_extras(dm.Token.with_syntax(dm.Token.with_morphology(token, dm.Pos('N', None, {'a': 'b'}), 'n%d' % i), 'x', head_sentence_index=-1), {'z': i})
            row[5:10] = ['n%d' % i, ('N', None, (('a', 'b'),)), -1, 'x', (('i', repr([i])), ('z', repr(i)))]
        elif choice == 'clear':
            token = dm.Token.with_syntax(dm.Token.with_morphology(token))
            row[5:9] = [None, None, None, None]
        new.append(token)
        expected.append(tuple(row))
    order = ctx.pick(('same', 'reversed', 'rotated'), 'order')
    supplied = {'same': new, 'reversed': new[::-1], 'rotated': new[1:] + new[:1]}[order]
    derive = ctx.pick((dm.Document.from_document, doc.from_document), 'call')
    result = ctx.accepts('derived document', derive, doc, supplied)
    ctx.equal(doc_view(doc), before, 'original document after derivation')
    ctx.equal(doc_view(result), (before[0], before[1], tuple(expected)), 'derived document')
    supplied.clear()
    new.clear()
    ctx.equal(doc_view(result), (before[0], before[1], tuple(expected)), 'derived document after the list changed')
    again = ctx.accepts('second derivation', dm.Document.from_document, result, list(doc.tokens))
    ctx.equal(doc_view(again), before, 'derivation back to the original annotation')
    ctx.equal(doc_view(result), (before[0], before[1], tuple(expected)), 'derived document after second derivation')
    ctx.state(shape, ranges, choices, order)


def misaligned(ctx):
    count = ctx.pick((1, 2, 3), 'surface tokens')
    shape = [ctx.pick((0, 2, 3), 'words') for _ in range(count)]
    n = sum(max(1, w) for w in shape)
    ranges = ctx.pick([r for r in splits(n) if len(r) <= 2], 'sentences')
    doc = base_document(shape, ranges)
    before = doc_view(doc)
    tokens = list(doc.tokens)
    how = ctx.pick(('drop', 'drop all', 'append', 'shift start', 'shift end', 'duplicate', 'swap spans'), 'defect')
    i = ctx.pick(n, 'token') if how != 'drop all' else 0
    t = tokens[i]
    if how == 'drop':
        del tokens[i]
    elif how == 'drop all':
        tokens = []
    elif how == 'append':
        tokens.append(dm.Token(len(doc.text) + i, len(doc.text) + i + 1))
    elif how == 'shift start':
        tokens[i] = dm.Token(t.start + 1, t.end, sub_index=t.sub_index, text_replacement=t.text_replacement)
    elif how == 'shift end':
        tokens[i] = dm.Token(t.start, t.end + 1, sub_index=t.sub_index, text_replacement=t.text_replacement)
    elif how == 'duplicate':
        tokens.append(t)
    elif how == 'swap spans':      # same number of tokens, one of them moved behind the text
        tokens[i] = dm.Token(len(doc.text) + 5, len(doc.text) + 6)
    ctx.state(shape, ranges, how, i)
    ctx.rejects('derived document with defect {} at {}'.format(how, i), dm.Document.from_document, doc, tokens)
    ctx.equal(doc_view(doc), before, 'original document after a refused derivation')


def containers(ctx):
    """lists handed to a document stay the caller's"""
    n = ctx.pick((1, 2, 3), 'tokens')
    tokens = [dm.Token(2 * i, 2 * i + 1, lemma='l%d' % i) for i in range(n)]
    sentences = [dm.Sentence(i, i + 1) for i in range(n)]
    order = ctx.pick_perm(range(n), 'order')
    supplied = [tokens[i] for i in order]
    ranges = [sentences[i] for i in order]
    keep = list(supplied), list(ranges)
    doc = ctx.accepts('document', dm.Document, 'a ' * n, supplied, ranges)
    ctx.check(all(a is b for a, b in zip(supplied, keep[0])) and all(a is b for a, b in zip(ranges, keep[1])),
              'building a document reordered the lists of the caller')
    before = doc_view(doc)
    how = ctx.pick(('clear', 'reverse', 'append'), 'mutation')
    for values, extra in ((supplied, dm.Token(50, 51)), (ranges, dm.Sentence(9, 10))):
        {'clear': values.clear, 'reverse': values.reverse, 'append': lambda: values.append(extra)}[how]()
    ctx.equal(doc_view(doc), before, 'document after its source lists changed')
    ctx.state(n, order, how)


SCENARIOS = {'operation sequences': sequences, 'long sequences': long_sequences, 'derived documents': derived_documents,
             'misaligned tokens': misaligned, 'containers': containers}
