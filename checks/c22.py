"""C22 Lemma labels decode to their lemma and the gold rule is never masked out"""
import itertools
from collections import Counter

from mc import fake, gen

BOUNDS = {
    'quick': 'dictionary codec: all training sets of <=4 lemmas out of 5; rule codec: all training sets of <=3 pairs out of 14 word/lemma pairs (case, identity, '
             'whole-word exceptions, empty stems, characters that change length) and of 4 out of 6, thresholds 0..2, both orders of building, data sets that are '
             'lists, tuples, hashable objects or iterate differently each time; every label id predicted for every word; several data sets through one provider; '
             'character codec: all lemmas of <=3 characters, thresholds 1..3, lengths 2..7, all predictions of <=3 ids; 200 rules',
    'thorough': 'training sets of <=4 pairs out of 14',
}

PAIRS = (('cats', 'cat'), ('Dogs', 'dog'), ('is', 'be'), ('IS', 'Be'), ('cat', 'cat'), ('its', 'it'), ('s', ''), ('was', 'be'), ('this', 'thi'), ('Stra\u00dfe', 'stra\u00dfe'), ('be', 'beis'),
         ('Ma\u00dfe', 'Mas'), ('\u017fie', '\u017f'), ('\u0130x', '\u0130'))
PROBES = ('cats', 'is', 'this', 'bis', 's', 'be', 'xs', 'zz', 'Was', 'wasis')


def load(thorough):
    global fp, dm, bpe
    bpe = fake.bpe()
    import babylondigger.features.provider as fp
    import babylondigger.datamodel as dm


def document(pairs, tag=None):
    tokens, text = [], ''
    for w, lemma in pairs:
        tokens.append(dm.Token(len(text), len(text) + len(w), pos=tag, lemma=lemma))
        text += w + ' '
    return dm.Document(text, tokens)


def rule(word, lemma):
    """reference rule: (rest of the word, rest of the lemma, whole word)"""
    word, lemma = word.lower(), lemma.lower()
    n = 0
    while n < len(word) and n < len(lemma) and word[n] == lemma[n]:
        n += 1
    return word[n:], lemma[n:], n == 0


def applicable(r, word):
    word = word.lower()
    return word == r[0] if r[2] else word.endswith(r[0]) and len(r[0]) < len(word)


def labels(ctx, extractor, name, pairs):
    got = ctx.accepts('labels', extractor.get_features, [document(pairs).get_sentence(0)])
    return got[name][0]


def decode(ctx, interpreter, name, words, rows):
    tag = dm.Pos('NOUN', 'x', {'A': 'b'})
    doc = document([(w, 'old') for w in words], tag)
    got = ctx.accepts('decoding', interpreter.interpret, [list(doc.get_sentence(0))], {name: [rows]})
    got = [list(s) for s in got][0]
    ctx.equal([t.text for t in got], list(words), 'words after interpretation')
    ctx.check(all(t.pos == tag for t in got), 'tags after interpretation of the lemma: {}', [t.pos for t in got])
    return [t.lemma for t in got]


def dictionary(ctx):
    lemmas = ctx.pick_seq(('a', 'b', 'B', 'ab', ''), 1, 4, 'lemma')
    pairs = [('w{}'.format(i), l) for i, l in enumerate(lemmas)]
    cut = ctx.pick((0, 1) if len(pairs) > 1 else (0,), 'documents cut at')
    docs = [document(pairs[:cut]), document(pairs[cut:])] if cut else [document(pairs)]
    extractor, interpreter, initializer = ctx.accepts('building', fp.LemmaDictExtractorProvider('l').labels_extractor_builder().build, docs)
    rows = labels(ctx, extractor, 'l', pairs)
    size = list(initializer.shapes()['l'].values())
    ctx.equal(size, [len(set(lemmas))], 'announced size')
    ctx.check(all(len(r) == 1 and 0 <= r[0] < size[0] for r in rows), 'labels {} outside {}', rows, size)
    ctx.equal(decode(ctx, interpreter, 'l', [w for w, _ in pairs], rows), lemmas, 'lemmas')
    ctx.state(lemmas, rows)


class Hashable(object):
    def __init__(self, docs):
        self.docs = docs

    def __iter__(self):
        return iter(self.docs)


class Flipping(object):
    """iterates in another order each time"""

    def __init__(self, docs):
        self.docs, self.count = docs, 0

    def __iter__(self):
        self.count += 1
        return iter(self.docs if self.count % 2 else self.docs[::-1])


def inventory(pairs, threshold):
    """(rules that must be in it, rules one of which must be)"""
    counts = Counter(rule(w, l) for w, l in pairs)
    top = max(counts.values())
    frequent = {r for r, n in counts.items() if n > threshold}
    best = {r for r, n in counts.items() if n == top}
    return frequent, best


def check_rules(ctx, pairs, docs, threshold, feature_first, what, provider=None):
    provider = provider or fp.LemmaTransformationExtractorProvider('mask', 'rule', {'rules_threshold': threshold})
    feature_builder, label_builder = provider.feature_extractor_builder(), provider.labels_extractor_builder()
    if feature_first:
        masker, _, mask_init = ctx.accepts('building the mask for ' + what, feature_builder.build, docs)
        labeler, interpreter, label_init = ctx.accepts('building the labels for ' + what, label_builder.build, docs)
    else:
        labeler, interpreter, label_init = ctx.accepts('building the labels for ' + what, label_builder.build, docs)
        masker, _, mask_init = ctx.accepts('building the mask for ' + what, feature_builder.build, docs)
    size = list(label_init.shapes()['rule'].values())[0]
    ctx.equal(mask_init.shapes()['mask'], [size], 'announced mask size')
    frequent, best = inventory(pairs, threshold)
    rows = labels(ctx, labeler, 'rule', pairs)
    ctx.check(all(len(r) == 1 and 0 <= r[0] < size for r in rows), 'labels {} outside {}', rows, size)
    ctx.equal(size, len(frequent) or 1, 'size of the inventory of {} with threshold {}'.format(pairs, threshold))
    decoded = decode(ctx, interpreter, 'rule', [w for w, _ in pairs], rows)
    ids = {}
    if frequent:
        for (w, l), row in zip(pairs, rows):
            if rule(w, l) in frequent:
                ctx.equal(ids.setdefault(rule(w, l), row[0]), row[0], 'labels of the rule {}'.format(rule(w, l)))
        ctx.equal(sorted(ids.values()), list(range(size)), 'numbering of {}'.format(sorted(ids)))
    else:
        # the only rule is the most frequent one; several may be: whichever was taken shows by decoding
        taken = [r for r in best if all(not applicable(r, w) or applicable_as(r, w, d) for (w, _), d in zip(pairs, decoded))]
        ctx.check(taken, 'the inventory of {} with threshold {} is none of its most frequent rules', pairs, threshold)
        if len(taken) == 1:
            ids[taken[0]] = 0
    for (w, l), row, got in zip(pairs, rows, decoded):
        if rule(w, l) in ids:
            ctx.equal(got, l.lower(), 'lemma of {!r} through its rule'.format(w))
    words = [w for w, _ in pairs] + list(PROBES)
    masks = ctx.accepts('masks', masker.get_features, [document([(w, None) for w in words]).get_sentence(0)])['mask'][0]
    for w, mask in zip(words, masks):
        ctx.check(len(mask) == size, 'mask {} of {!r} for {} rules', mask, w, size)
        for r, i in ids.items():
            ctx.equal(bool(mask[i]), applicable(r, w), '{}: mask of {!r} at the rule {}'.format(what, w, r))
    for (w, l), mask in zip(pairs, masks):
        if rule(w, l) in ids:
            ctx.check(mask[ids[rule(w, l)]], 'the gold rule of {!r} is masked out', w)
    # every prediction
    for r, i in ids.items():
        for w, got in zip(words, decode(ctx, interpreter, 'rule', words, [[i]] * len(words))):
            low = w.lower()
            if applicable(r, w):
                ctx.equal(got, low[:len(low) - len(r[0])] + r[1], 'lemma of {!r} by the rule {}'.format(w, r))
            elif not low.endswith(r[0]):
                ctx.equal(got, low, 'lemma of {!r} by the inapplicable rule {}'.format(w, r))
    return ids, [list(map(bool, m)) for m in masks]


def applicable_as(r, word, lemma):
    low = word.lower()
    return lemma == low[:len(low) - len(r[0])] + r[1]


def rules(ctx):
    n = ctx.pick((1, 2, 3, 4), 'pairs')
    pool = PAIRS if n < 4 or ctx.thorough else PAIRS[:6]
    pairs = [ctx.pick(pool, 'pair') for _ in range(n)]
    threshold = ctx.pick((0, 1, 2) if n < 4 else (0, 1), 'threshold')
    ids, masks = check_rules(ctx, pairs, [document(pairs)], threshold, ctx.flag('feature first') if n < 3 else False, 'a list')
    ctx.state(sorted(ids.items()), masks)


def histories(ctx):
    """kinds of data sets, repeated builds, several data sets in one provider"""
    kind = ctx.pick(('list', 'tuple', 'hashable', 'flipping'), 'kind of data set')
    make = {'list': list, 'tuple': tuple, 'hashable': Hashable, 'flipping': Flipping}[kind]
    threshold = ctx.pick((0, 1), 'threshold')
    provider = fp.LemmaTransformationExtractorProvider('mask', 'rule', {'rules_threshold': threshold})
    sets = []
    trace = []
    for _ in range(3):
        k = ctx.pick(range(len(sets) + 1) if len(sets) < 2 else range(2), 'data set')
        if k == len(sets):
            a, b = ctx.pick(((0, 2), (1, 4), (2, 7)), 'documents')
            pairs = [PAIRS[a], PAIRS[b]]
            if ctx.flag('repeated'):
                pairs = pairs + [PAIRS[b]]
            sets.append((pairs, make([document([p]) for p in pairs])))
        pairs, docs = sets[k]
        ids, masks = check_rules(ctx, pairs, docs, threshold, ctx.flag('feature first'), 'a {}'.format(kind), provider)
        trace.append((k, sorted(ids.items())))
    ctx.state(kind, threshold, trace)


def discarded(ctx):
    """data sets that are thrown away after use do not influence later ones"""
    provider = fp.LemmaTransformationExtractorProvider('mask', 'rule', {'rules_threshold': 0})
    order = ctx.pick_perm(range(4), 'order')
    kind = ctx.pick((list, tuple, Hashable), 'kind')
    for k in order:
        pairs = [PAIRS[k], PAIRS[k + 4]]
        check_rules(ctx, pairs, kind([document(pairs)]), 0, ctx.flag('feature first'), 'a temporary data set', provider)
    ctx.state(order)


def characters(ctx):
    lemmas = [''.join(p) for n in range(1, 4) for p in itertools.product('aB', repeat=n)]
    first = ctx.pick(lemmas, 'first lemma')
    second = ctx.pick(('b', 'abc', 'aaaa', 'ca'), 'second lemma')
    threshold = ctx.pick((1, 2, 3), 'threshold')
    limit = ctx.pick((2, 3, 4, 5, 6, 7), 'maximal length')
    segmenter = ctx.pick(('char', 'bpe'), 'segmenter')
    config = {'min_frequency': threshold, 'max_word_length': limit, 'segmenter': segmenter}
    if segmenter == 'bpe':
        config['segmenter_config'] = {'language': 'x', 'vocab_size': 5}
        bpe.table = {l: ['\u2581' + l[:2]] + list(l[2:]) for l in (first, second)}
        split = {l: [l[:2]] + list(l[2:]) for l in (first, second)}
    else:
        split = {l: list(l) for l in (first, second)}
    pairs = [('w', first), ('v', second)]
    extractor, interpreter, initializer = ctx.accepts('building', fp.LemmaCharExtractorProvider('l', config).labels_extractor_builder().build, [document(pairs)])
    counts = Counter(c for _, l in pairs for c in split[l])
    known = {c for c, n in counts.items() if n >= threshold}
    size = initializer.shapes()['l']
    ctx.equal(size, [len(known) + 4], 'announced size')
    rows = labels(ctx, extractor, 'l', pairs)
    decoded = decode(ctx, interpreter, 'l', ['w', 'v'], rows)
    for (_, l), row, got in zip(pairs, rows, decoded):
        ctx.equal(len(row), limit, 'length of the labels')
        ctx.check(all(0 <= i < size[0] for i in row), 'labels {} outside {}', row, size)
        if all(c in known for c in split[l]) and len(split[l]) + 1 <= limit:
            ctx.equal(got, l, 'lemma through its characters (threshold {}, length {})'.format(threshold, limit))
    if threshold == 1 and limit == 5:
        # whatever is predicted: characters are read up to the end mark, other ids add nothing
        table = {}
        for (_, l), row in zip(pairs, rows):
            if len(split[l]) + 2 <= limit:
                table.update(zip(row[1:], split[l]))
                end = row[len(split[l]) + 1]
        ids = [(i,) for i in range(size[0])]
        ids += [p for n in (2, 3) for p in itertools.product(range(size[0]), repeat=n)]
        ids = ids if len(ids) < 1500 else ids[:1500]
        wanted = []
        for p in ids:
            p = p[:p.index(end)] if end in p else p
            wanted.append(''.join(table.get(i, '') for i in p) if len(table) == size[0] - 4 else None)
        for p, got, want in zip(ids, decode(ctx, interpreter, 'l', ['w'] * len(ids), [list(p) for p in ids]), wanted):
            if want is not None:
                ctx.equal(got, want, 'lemma of the predicted ids {} (end {}, characters {})'.format(p, end, table))
    ctx.state(first, second, threshold, limit, rows)


def scale(ctx):
    n = ctx.pick((20, 200), 'rules')
    threshold = ctx.pick((0, 1, 2), 'threshold')
    pairs = []
    for i in range(n):
        word = 'stem' + 'abcdefghij'[i % 10] * (1 + i % 3) + 'klmnopqrst'[i // 10 % 10]
        lemma = 'stem' + 'uvwxyz'[i % 6] if i % 4 else 'zz{}'.format(i)
        pairs += [(word, lemma)] * (1 + i % 3)
    pairs.append(('most', 'mos'))
    pairs += [('most', 'mos')] * 5
    ids, masks = check_rules(ctx, pairs, [document(pairs[i:i + 30]) for i in range(0, len(pairs), 30)], threshold, ctx.flag('feature first'), 'a large data set')
    ctx.state(len(ids), threshold)


SCENARIOS = {'dictionary': dictionary, 'rules': rules, 'histories': histories, 'discarded data sets': discarded, 'characters': characters, 'scale': scale}
