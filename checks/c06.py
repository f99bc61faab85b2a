"""C06 Equality, hashing and ordering of tags, rules and documents are coherent"""
import itertools

BOUNDS = {
    'quick': 'all triples of 60 tags and of 50 rules; all pairs of 40 documents (and of their sentences and tokens) differing in one or two '
             'attributes; tokens outside of documents differing in <=3 attributes; ranges, extras; '
             'all values against 8 foreign objects',
    'thorough': 'all triples of 120 tags and of 98 rules; tokens differing in <=4 attributes',
}


def load(thorough):
    global dm, rules
    import babylondigger.datamodel as dm
    import babylondigger.lemmas.transformation_rules as rules


FEATS = (None, {}, {'a': '1'}, {'a': '2'}, {'a': '1', 'b': '2'}, {'b': '2', 'a': '1'}, {'b': '2'}, {'B': '1'})


def tag_specs(thorough):
    u = (None, '', 'A', 'B') if thorough else (None, 'A', 'B')
    x = (None, '', 'x', 'y') if thorough else (None, 'x', '')
    f = FEATS if thorough else FEATS[:6] + FEATS[7:]
    return [(a, b, c) for a in u for b in x for c in f]


def norm(spec):
    return (spec[0], spec[1], tuple(sorted((spec[2] or {}).items())))


def rule_specs(thorough):
    s = ('', 'a', 'b', 'ab', 'ba', 'A', 'é') if thorough else ('', 'a', 'b', 'ab', 'é')
    return [(a, b, e) for a in s for b in s for e in (False, True)]


def coherent(ctx, make, specs, normalise, what):
    a, b = ctx.pick(specs, 'first'), ctx.pick(specs, 'second')
    va, vb = make(a), make(b)
    same = normalise(a) == normalise(b)
    ctx.op(8)
    ctx.equal(va == vb, same, '{} == {}'.format(a, b))
    ctx.equal(va != vb, not same, '{} != {}'.format(a, b))
    ctx.check(va == va and not va != va, 'reflexivity')
    if same:
        ctx.equal(hash(va), hash(vb), 'hash of equal {} {}'.format(a, b))
        ctx.equal({va: 1}.get(vb), 1, 'dict lookup of an equal {}'.format(what))
    lt, gt = va < vb, va > vb
    ctx.check(lt is not NotImplemented and isinstance(lt, bool), 'order is not defined')
    ctx.equal([lt, gt, same].count(True), 1, 'exactly one of <, >, == for {} {}'.format(a, b))
    ctx.equal((va <= vb, va >= vb), (lt or same, gt or same), '<= and >= of {} {}'.format(a, b))
    ctx.equal((vb > va, vb < va), (lt, gt), 'antisymmetry of {} {}'.format(a, b))
    for c in specs:
        vc = make(c)
        ctx.op()
        if lt and vb < vc:
            ctx.check(va < vc, 'order is not transitive: {} < {} < {}', a, b, c)
        if va == vb and vb == vc:
            ctx.check(va == vc, 'equality is not transitive')
    ctx.state(what, normalise(a), normalise(b), lt)


def tags(ctx):
    coherent(ctx, lambda s: dm.Pos(*s), tag_specs(ctx.thorough), norm, 'tag')


def lemma_rules(ctx):
    coherent(ctx, lambda s: rules.LemmaSuffixTransformation(*s), rule_specs(ctx.thorough), lambda s: s, 'rule')


def sorting(ctx):
    """sorting is independent of the original order and puts equal tags together"""
    specs = tag_specs(False)
    start = ctx.pick(len(specs), 'start')
    step = ctx.pick((1, 2, 5, 11), 'step')
    chosen = [specs[(start + i * step) % len(specs)] for i in range(8)]
    reference = sorted(dm.Pos(*s) for s in chosen)
    for order in (chosen[::-1], chosen[3:] + chosen[:3], chosen[::2] + chosen[1::2]):
        ctx.op()
        ctx.equal([(p.upos, p.xpos, p.feats) for p in sorted(dm.Pos(*s) for s in order)],
                  [(p.upos, p.xpos, p.feats) for p in reference], 'sorted tags')
    ctx.equal(len(set(dm.Pos(*s) for s in chosen)), len(set(norm(s) for s in chosen)), 'number of distinct tags')
    ctx.state(start, step)


BASE = dict(text='ab cd ef', spans=((0, 2, 0, None), (3, 5, 0, 'x'), (3, 5, 1, 'y'), (6, 8, 0, None)), sentences=((0, 3), (3, 4)),
            lemma=('a', None, 'b', 'c'), pos=(('A', None, None), None, ('B', 'x', {'f': '1'}), None), head=(-1, 0, 0, -1),
            deprel=('r', 'd', None, 'r'), extras=({}, {'k': [1]}, {}, {}))
CHANGES = [
    ('none', {}),
    ('text', dict(text='ab cd eg')), ('text longer', dict(text='ab cd ef ')),
    ('end', dict(spans=((0, 1, 0, None),) + BASE['spans'][1:])), ('start', dict(spans=((1, 2, 0, None),) + BASE['spans'][1:])),
    ('form', dict(spans=BASE['spans'][:1] + ((3, 5, 0, 'z'),) + BASE['spans'][2:])),
    ('multi', dict(spans=BASE['spans'][:3] + ((6, 8, 0, 'ef'),))),
    ('last end', dict(spans=BASE['spans'][:3] + ((6, 7, 0, None),))),
    ('sentences', dict(sentences=((0, 4),), head=(-1, 0, 0, -1))), ('sentences2', dict(sentences=((0, 1), (1, 4)), head=(-1, -1, 1, -1))),
    ('three sentences', dict(sentences=((0, 1), (1, 3), (3, 4)), head=(-1, -1, 1, -1))),
]
for _i in range(4):
    for _name, _values in (('lemma', ('q', None)), ('deprel', ('q', None)), ('pos', (('A', 'z', None), None, ('B', 'x', {'f': '2'}), ('B', None, {'f': '1'}))),
                           ('head', (None, 1, 2, 3)), ('extras', ({'k': [2]}, {'j': 1}))):
        for _v in _values:
            if _v == BASE[_name][_i]:
                continue
            if _name == 'head' and _v is not None and not (_i < 3) == (_v < 3):
                continue
            row = list(BASE[_name])
            row[_i] = _v
            CHANGES.append(('{}[{}]={!r}'.format(_name, _i, _v), {_name: tuple(row)}))


def build(spec, form):
    tokens = []
    for i, (s, e, k, f) in enumerate(spec['spans']):
        h = spec['head'][i]
        a = [r for r in spec['sentences'] if r[0] <= i < r[1]][0][0]
        kw = {}
        if h is not None:
            kw = {'head_document_index': h} if form else {'head_sentence_index': h if h == -1 else h - a}
        p = spec['pos'][i]
        tokens.append(dm.Token(s, e, dm.Pos(*p) if p else None, spec['lemma'][i], spec['deprel'][i], k, f,
                               extras=dm.TokenExtras(spec['extras'][i]), **kw))
    return dm.Document(spec['text'], tokens, [dm.Sentence(a, b) for a, b in spec['sentences']])


def documents(ctx):
    a, b = ctx.pick(CHANGES, 'first'), ctx.pick(CHANGES, 'second')
    sa, sb = dict(BASE, **a[1]), dict(BASE, **b[1])
    da, db = build(sa, ctx.flag('form')), build(sb, False)
    same = all((sa[k] == sb[k]) for k in sa)
    ctx.op(4)
    ctx.equal(da == db, same, 'documents {} and {} equal'.format(a[0], b[0]))
    ctx.equal(db == da, same, 'documents {} and {} equal'.format(b[0], a[0]))
    ctx.equal(da != db, not same, 'documents {} and {} unequal'.format(a[0], b[0]))
    ctx.equal(da == build(sa, True), True, 'document equal to its rebuilt self')
    ctx.state(a[0], b[0])


TOKEN = {'start': 1, 'end': 3, 'pos': ('A', None, None), 'lemma': 'l', 'deprel': 'd', 'sub_index': 0, 'text_replacement': 'x', 'head_document_index': None,
         'head_sentence_index': None, 'extras': {}}
OTHER = {'start': (0, 2), 'end': (2, 4), 'pos': (None, ('A', 'x', None), ('A', None, {'f': '1'})), 'lemma': (None, ''), 'deprel': (None, ''), 'sub_index': (1, 2),
         'text_replacement': ('y', 'X', '', None), 'head_document_index': (-1, 0, 1), 'head_sentence_index': (-1, 0, 1), 'extras': ({'k': 1}, {'k': [1]}, {'k': [2]}, {'k': None})}


def make_token(spec):
    return dm.Token(**dict(spec, pos=dm.Pos(*spec['pos']) if spec['pos'] else None, extras=dm.TokenExtras(spec['extras'])))


def compared(spec):
    """a head in the document implies the one in the sentence"""
    return spec if spec['head_document_index'] is None else dict(spec, head_sentence_index=None)


def tokens(ctx):
    """tokens that are not part of a document"""
    specs = []
    for side in ('first', 'second'):
        spec = dict(TOKEN)
        name = ctx.pick([None] + list(OTHER), 'attribute of the ' + side)
        if name is not None:
            spec[name] = ctx.pick(OTHER[name], 'value')
            if side == 'first' or ctx.thorough:
                more = ctx.pick([None] + [n for n in OTHER if n > name], 'other attribute')
                if more is not None:
                    spec[more] = ctx.pick(OTHER[more], 'other value')
        specs.append(spec)
    for spec in specs:
        if spec['start'] >= spec['end'] or spec['sub_index'] and spec['text_replacement'] is None:
            ctx.prune()
    same = compared(specs[0]) == compared(specs[1])
    a, b = map(make_token, specs)
    ctx.op(6)
    ctx.equal((a == b, b == a, a != b, b != a), (same, same, not same, not same), 'comparison of {} and {}'.format(*specs))
    ctx.equal(a == make_token(specs[0]), True, 'a token made twice')
    text = 'abcdef'
    ctx.equal(dm.DocumentToken(text, a) == dm.DocumentToken(text, b), same, 'document tokens {} and {}'.format(*specs))
    ctx.equal(dm.DocumentToken(text, a) == b, same, 'document token and token {} and {}'.format(*specs))
    ctx.equal(b == dm.DocumentToken(text, a), same, 'token and document token {} and {}'.format(*specs))
    ctx.state(specs)


def parts(ctx):
    """sentence ranges, extras, and sentences and tokens of documents"""
    a, b = [(ctx.pick(4, 'start'), ctx.pick(4, 'length') + 1) for _ in range(2)]
    ctx.equal(dm.Sentence(a[0], sum(a)) == dm.Sentence(b[0], sum(b)), a == b, 'sentence ranges {} and {}'.format(a, b))
    ctx.equal(dm.Sentence(a[0], sum(a)) != dm.Sentence(b[0], sum(b)), a != b, 'sentence ranges {} and {}'.format(a, b))
    ctx.state(a, b)


def sentences(ctx):
    """a sentence equals exactly those with the same text and tokens"""
    a, b = ctx.pick(CHANGES, 'first'), ctx.pick(CHANGES, 'second')
    sa, sb = dict(BASE, **a[1]), dict(BASE, **b[1])
    da, db = build(sa, True), build(sb, ctx.flag('form'))

    def view(spec, r):
        rows = range(*r)
        return spec['text'], [[spec[k][i] for k in ('spans', 'lemma', 'pos', 'deprel', 'extras', 'head')] for i in rows]
    for i, r in enumerate(sa['sentences']):
        for j, q in enumerate(sb['sentences']):
            ctx.op(2)
            same = view(sa, r) == view(sb, q)
            ctx.equal(da.get_sentence(i) == db.get_sentence(j), same, 'sentences {} of {} and {} of {}'.format(i, a[0], j, b[0]))
            ctx.equal(da.get_sentence(i) != db.get_sentence(j), not same, 'sentences {} of {} and {} of {}'.format(i, a[0], j, b[0]))
    for i in range(4):
        for j in range(4):
            ctx.op()
            same = all(sa[k][i] == sb[k][j] for k in ('spans', 'lemma', 'pos', 'deprel', 'extras', 'head'))
            ctx.equal(da[i] == db[j], same, 'tokens {} of {} and {} of {}'.format(i, a[0], j, b[0]))
    ctx.state(a[0], b[0])


EXTRAS = [{}, {'a': 1}, {'a': 2}, {'a': [1]}, {'a': [1, 2]}, {'a': None}, {'a': 1, 'b': 2}, {'b': 2, 'a': 1}, {'b': 1}, {'a': {'b': 1}}, {'a': {'b': 2}}]


def extras(ctx):
    a, b = ctx.pick(EXTRAS, 'first'), ctx.pick(EXTRAS, 'second')
    va, vb = dm.TokenExtras(a), dm.TokenExtras({}).update(b)
    ctx.op(2)
    ctx.equal((va == vb, va != vb), (a == b, a != b), 'extras {} and {}'.format(a, b))
    ctx.state(sorted(map(repr, a.items())), sorted(map(repr, b.items())))


FOREIGN = (None, 0, 'A', (), {}, object(), 1.5, ['x'])


def foreign(ctx):
    values = [dm.Pos('A'), rules.LemmaSuffixTransformation('a', 'b'), build(BASE, True), build(BASE, True)[0], dm.Token(0, 1),
              dm.TokenExtras({'a': 1}), dm.Sentence(0, 1), build(BASE, True).get_sentence(0), dm.Document('', [])]
    i = ctx.pick(len(values), 'value')
    j = ctx.pick(len(FOREIGN) + len(values), 'foreign object')
    a = values[i]
    b = FOREIGN[j] if j < len(FOREIGN) else values[j - len(FOREIGN)]
    if j >= len(FOREIGN) and (i == j - len(FOREIGN) or {i, j - len(FOREIGN)} in ({2, 8}, {3, 4})):
        ctx.prune()
    ctx.op(3)
    ctx.equal(a == b, False, 'comparison of {} with {!r}'.format(type(a).__name__, type(b).__name__))
    ctx.equal(b == a, False, 'comparison of {} with {!r}'.format(type(b).__name__, type(a).__name__))
    ctx.equal(a != b, True, 'inequality of {} with {!r}'.format(type(a).__name__, type(b).__name__))
    ctx.state(i, j)


SCENARIOS = {'tags': tags, 'lemma rules': lemma_rules, 'sorting': sorting, 'documents': documents, 'sentences': sentences, 'tokens': tokens, 'ranges': parts, 'extras': extras, 'foreign objects': foreign}
