"""C21 POS labels decode to the tag they encode, for every splitting"""
from collections import Counter
import itertools

from mc import fake, gen

BOUNDS = {
    'quick': 'training sets of <=2 tags over all 45 tags (UPOS of 3 incl. missing x XPOS of 3 incl. missing x 5 feature sets) and of 3 tags over 9 of them, '
             'cut into documents everywhere, x 4 splittings; every tag of the pool encoded, every combination of ids decoded (up to 400); '
             'all orders of the documents; 250 tags over 20 features; pairs of tags with empty names and values',
    'thorough': '3 tags over 14 of them, 4 tags over 6',
}

SPLITTINGS = ('pos_joint', 'pos_XF', 'pos_UXF', 'pos_gran')


def load(thorough):
    global fp, dm, POOL, SMALL
    fake.bpe()
    import babylondigger.features.provider as fp
    import babylondigger.datamodel as dm
    feats = ({}, {'Case': 'Nom'}, {'Case': 'Gen'}, {'Gender': 'Fem'}, {'Case': 'Nom', 'Gender': 'Fem'})
    POOL = [(u, x, f) for u in ('NOUN', 'VERB', None) for x in (None, 'x', 'Y') for f in feats]
    SMALL = [('NOUN', None, {}), ('NOUN', 'x', {}), ('VERB', 'x', {'Case': 'Nom'}), ('VERB', None, {'Gender': 'Fem'}), (None, 'Y', {'Case': 'Gen'}),
             ('NOUN', None, {'Case': 'Nom', 'Gender': 'Fem'}), ('NOUN', 'Y', {'Case': 'Gen', 'Gender': 'Fem'}), (None, None, {}), ('VERB', 'x', {}),
             ('ADJ', 'x', {'Z': '1'}), ('NOUN', 'x', {'Case': 'Gen'}), ('ADJ', None, {'Case': 'Nom', 'Z': '2'}), ('X', 'x', {'Gender': 'Masc'}), ('VERB', 'Y', {}), ('VERB', 'x', {'Case': ''}), ('', '', {'Gender': '', 'Case': 'Nom'})]


def pos(t):
    return dm.Pos(t[0], t[1], dict(t[2]))


def parts(t, splitting, keys):
    """reference splitting, only used to tell whether the most frequent part is unique"""
    u, x, f = t[0], t[1], tuple(sorted(t[2].items()))
    return {'pos_joint': [(u, x, f)], 'pos_XF': [u, (x, f)], 'pos_UXF': [u, x, f], 'pos_gran': [u, x] + [t[2].get(k) for k in keys]}[splitting]


def document(tags):
    text = 'w ' * len(tags)
    return dm.Document(text, [dm.Token(2 * i, 2 * i + 1, pos=pos(t), lemma='l{}'.format(i)) for i, t in enumerate(tags)])


def unique_best(tags, splitting):
    keys = sorted({k for t in tags for k in t[2]})
    for column in zip(*[parts(t, splitting, keys) for t in tags]):
        top = Counter(column).most_common(2)
        if len(top) > 1 and top[0][1] == top[1][1]:
            return False
    return True


def build(ctx, docs, splitting):
    b = fp.PosDictExtractorProvider('p', splitting).labels_extractor_builder()
    extractor, interpreter, initializer = ctx.accepts('building {}'.format(splitting), b.build, docs)
    shapes = initializer.shapes()
    ctx.equal(list(shapes), ['p'], 'label names')
    return extractor, interpreter, list(shapes['p'].values())


def encode(ctx, extractor, tags):
    got = ctx.accepts('encoding {}'.format(tags), extractor.get_features, [document(tags).get_sentence(0)])
    return got['p'][0]


def decode(ctx, interpreter, rows):
    text = 'w ' * len(rows)
    doc = dm.Document(text, [dm.Token(2 * i, 2 * i + 1, lemma='q') for i in range(len(rows))])
    got = ctx.accepts('decoding {}'.format(rows), interpreter.interpret, [list(doc.get_sentence(0))], {'p': [rows]})
    return [list(s) for s in got][0]


def codec(ctx, tags, docs, splitting, probes, limit=400):
    extractor, interpreter, sizes = build(ctx, docs, splitting)
    rows = encode(ctx, extractor, tags)
    ctx.equal([len(r) for r in rows], [len(sizes)] * len(rows), 'label parts')
    for t, token in zip(tags, decode(ctx, interpreter, rows)):
        ctx.check(token.pos == pos(t) and gen.pos_view(token.pos) == gen.pos_view(pos(t)), '{}: {} came back as {}', splitting, pos(t), token.pos)
        ctx.equal(token.lemma, 'q', 'lemma after interpretation of the tag')
    for row in rows + (encode(ctx, extractor, probes) if probes else []):
        ctx.check(len(row) == len(sizes) and all(isinstance(i, int) and 0 <= i < n for i, n in zip(row, sizes)), '{}: ids {} outside {}', splitting, row, sizes)
    combos = [list(c) for c in itertools.islice(itertools.product(*map(range, sizes)), limit)]
    for row, token in zip(combos, decode(ctx, interpreter, combos)):
        ctx.check(isinstance(token.pos, dm.Pos), '{}: {} decoded to {!r}', splitting, row, token.pos)
    # distinct tags never share labels
    table = {}
    for t, row in zip(tags, rows):
        ctx.equal(table.setdefault(tuple(row), gen.pos_view(pos(t))), gen.pos_view(pos(t)), 'tags with labels {}'.format(row))
    return rows, sizes


def roundtrip(ctx):
    n = ctx.pick((1, 2, 3, 4) if ctx.thorough else (1, 2, 3), 'tags')
    pool = POOL if n < 3 else SMALL[:14 if ctx.thorough else 9] if n == 3 else SMALL[:6]
    tags = [ctx.pick(pool, 'tag') for _ in range(n)]
    splitting = ctx.pick(SPLITTINGS, 'splitting')
    cut = ctx.pick(range(n), 'documents cut at')
    docs = [document(tags[:cut]), document(tags[cut:])] if cut else [document(tags)]
    rows, sizes = codec(ctx, tags, docs, splitting, SMALL if n < 3 else SMALL[::3], 60)
    ctx.state(splitting, tags, rows, sizes)
    if cut and unique_best(tags, splitting):
        extractor, _, other = build(ctx, docs[::-1], splitting)
        ctx.equal(encode(ctx, extractor, tags), rows, '{}: ids of {} with documents reversed'.format(splitting, tags))
        ctx.equal(other, sizes, 'sizes')


def blanks(ctx):
    """empty names and values are not missing ones"""
    splitting = ctx.pick(SPLITTINGS, 'splitting')
    pool = [(u, x, f) for u in ('', None, 'NOUN') for x in ('', None, 'x') for f in ({}, {'Case': ''}, {'Case': 'Nom'}, {'Case': '', 'Gender': 'Fem'}, {'': 'v'})]
    tags = [ctx.pick(pool, 'tag') for _ in range(2)]
    rows, sizes = codec(ctx, tags, [document(tags)], splitting, pool[::4], 30)
    ctx.state(splitting, tags, rows, sizes)


def orders(ctx):
    """every order of four one-tag documents, the most frequent one repeated"""
    splitting = ctx.pick(SPLITTINGS, 'splitting')
    first = ctx.pick(range(len(SMALL)), 'most frequent tag')
    offset = ctx.pick((1, 2, 4), 'others')
    tags = [SMALL[first]] * 4 + [SMALL[(first + offset * k) % len(SMALL)] for k in (1, 2, 3)]
    if not unique_best(tags, splitting):
        ctx.prune()
    order = ctx.pick_perm(range(4), 'order')
    groups = [[tags[0]] * 4] + [[t] for t in tags[4:]]
    reference, _, sizes = build(ctx, [document(g) for g in groups], splitting)
    extractor, _, other = build(ctx, [document(groups[i]) for i in order], splitting)
    rows = encode(ctx, extractor, tags)
    ctx.equal(rows, encode(ctx, reference, tags), '{}: ids with another order of documents'.format(splitting))
    ctx.equal(other, sizes, 'sizes')
    ctx.state(splitting, rows)


def untouched(ctx):
    """interpretation keeps everything but the tag, for tokens with any other annotation"""
    splitting = ctx.pick(SPLITTINGS, 'splitting')
    tags = [SMALL[1], SMALL[2], SMALL[5]]
    _, interpreter, sizes = build(ctx, [document(tags)], splitting)
    lemma = ctx.pick((None, 'lem'), 'lemma')
    old = ctx.pick((None, ('ADJ', 'o', {'Old': 'Yes'})), 'old tag')
    head = ctx.pick((None, -1, 1), 'head')
    replaced = ctx.flag('multi-word')
    extras = ctx.flag('extras')
    tokens = []
    for i in range(2):
        kwargs = dict(pos=old and pos(old), lemma=lemma)
        if extras:
            kwargs['extras'] = dm.TokenExtras({'score': [0.5, i]})
        span = (0, 3, i, 'r{}'.format(i)) if replaced else (4 * i, 4 * i + 3)
        token = dm.Token(*span[:2], **dict(kwargs, **({'sub_index': span[2], 'text_replacement': span[3]} if replaced else {})))
        if head is not None:
            token = token.with_syntax(token, 'rel', head_document_index=(head if i == 0 else 0 if head == -1 else -1))
        tokens.append(token)
    doc = dm.Document('abc def', tokens)
    before = gen.doc_view(doc)
    row = [n - 1 for n in sizes]
    got = [list(s) for s in ctx.accepts('interpreting', interpreter.interpret, [list(doc.get_sentence(0))], {'p': [[row, row]]})][0]
    ctx.equal(len(got), 2, 'tokens')
    result = ctx.accepts('document of the interpreted tokens', dm.Document.from_document, doc, got)
    for a, b in zip(result.tokens, doc.tokens):
        ctx.equal((a.start, a.end, a.sub_index, a.text_replacement, a.text, a.lemma, a.deprel, a.head_index, gen.extras_view(a)),
                  (b.start, b.end, b.sub_index, b.text_replacement, b.text, b.lemma, b.deprel, b.head_index, gen.extras_view(b)), 'token after interpretation')
        ctx.check(a.pos is not None and a.pos.upos != 'ADJ', 'tag {!r}', a.pos)
    ctx.equal(gen.doc_view(doc), before, 'document after interpretation')
    ctx.state(splitting, lemma, old, head, replaced, extras)


def scale(ctx):
    splitting = ctx.pick(SPLITTINGS, 'splitting')
    n = ctx.pick((30, 250), 'tags')
    features = ctx.pick((1, 8, 20), 'features')
    tags = []
    for i in range(n):
        f = {'F{:02}'.format(k): 'v{}'.format((i * (k + 3)) % 7) for k in range(features) if (i >> (k % 5)) & 1}
        tags.append((['NOUN', 'VERB', 'ADJ', 'X', None][i % 5], [None, 'a', 'b', 'c', 'd', 'e', 'f'][i % 7], f))
    docs = [document(tags[i:i + 40]) for i in range(0, n, 40)]
    rows, sizes = codec(ctx, tags, docs, splitting, tags, 50)
    ctx.state(splitting, n, features, sizes)
    # a feature seen on a single tag, and values never seen together
    probes = [('NOUN', 'zz', {'F00': 'unseen'}), ('new', None, {'Unknown': 'Yes'}), (None, 'a', {'F00': 'v0', 'F01': 'v6'})]
    extractor, _, _ = build(ctx, docs, splitting)
    for row in encode(ctx, extractor, probes):
        ctx.check(len(row) == len(sizes) and all(0 <= i < k for i, k in zip(row, sizes)), 'ids {} of unseen tags outside {}', row, sizes)


SCENARIOS = {'roundtrip': roundtrip, 'document orders': orders, 'blanks': blanks, 'other annotation': untouched, 'scale': scale}
