"""reference model of the CoNLL-2017 evaluation, written from its documentation (no code shared with the implementation)"""
from mc import conll

METRICS = ('Tokens', 'Sentences', 'Words', 'UPOS', 'XPOS', 'Feats', 'AllTags', 'Lemmas', 'UAS', 'LAS', 'CLAS')
FUNCTION = {'aux', 'case', 'cc', 'clf', 'cop', 'det', 'mark', 'punct'}


class RWord(object):
    def __init__(self, start, end, columns, multi):
        self.start, self.end, self.columns, self.multi = start, end, columns, multi
        self.parent = None


class Rep(object):
    def __init__(self):
        self.characters, self.tokens, self.words, self.sentences = '', [], [], []


class Invalid(Exception):
    pass


def load(text):
    """representation of a CoNLL-U text, or Invalid"""
    rep = Rep()
    if text and not text.endswith('\n'):
        text += '\n'
        torn = True
    lines = text.split('\n')[:-1]
    lines = [l.rstrip('\r') for l in lines]
    i = 0
    while i < len(lines):
        if lines[i].startswith('#'):
            i += 1
            continue
        block = []
        while i < len(lines) and lines[i] != '':
            block.append(lines[i])
            i += 1
        if i == len(lines):
            raise Invalid('no empty line at the end')
        i += 1
        _sentence(rep, block)
    return rep


def _sentence(rep, block):
    begin = len(rep.characters)
    first = len(rep.words)
    rows = []
    for line in block:
        columns = line.split('\t')
        if len(columns) != 10:
            raise Invalid('columns')
        if '.' not in columns[0]:
            rows.append(columns)
    pending = 0
    span = None
    for columns in rows:
        if pending == 0 or '-' in columns[0]:
            if pending:
                raise Invalid('range inside a range')
            form = columns[1].replace(' ', '')
            if not form:
                raise Invalid('empty form')
            span = (len(rep.characters), len(rep.characters) + len(form))
            rep.characters += form
            rep.tokens.append(span)
        if '-' in columns[0]:
            parts = columns[0].split('-')
            if len(parts) != 2 or not all(p.isdigit() for p in parts):
                raise Invalid('range')
            pending = int(parts[1]) - int(parts[0]) + 1
            if pending < 1 or int(parts[0]) != len(rep.words) - first + 1:
                raise LookupError('unspecified: range that does not name the words that follow')
            continue
        if columns[0] != str(len(rep.words) - first + 1):
            raise Invalid('word id')
        if not columns[6].isdigit():
            raise Invalid('head')
        columns = list(columns)
        columns[7] = columns[7].split(':')[0]
        if not pending:
            columns[1] = columns[1].replace(' ', '')
        rep.words.append(RWord(span[0], span[1], columns, pending > 0))
        if pending:
            pending -= 1
    if pending:
        raise Invalid('unfinished range')
    words = rep.words[first:]
    heads = [int(w.columns[6]) for w in words]
    if any(h > len(words) for h in heads) or heads.count(0) != 1:
        raise Invalid('heads')
    for k in range(len(words)):
        j, steps = k, 0
        while heads[j]:
            j = heads[j] - 1
            steps += 1
            if steps > len(words):
                raise Invalid('cycle')
    for w, h in zip(words, heads):
        w.parent = words[h - 1] if h else None
    rep.sentences.append((begin, len(rep.characters)))


def multiword_spans(gold, system):
    """minimal spans: unions of overlapping multi-word tokens of both sides"""
    ranges = sorted({(w.start, w.end) for w in gold.words + system.words if w.multi})
    spans = []
    for start, end in ranges:
        if spans and start < spans[-1][1]:
            spans[-1][1] = max(spans[-1][1], end)
        else:
            spans.append([start, end])
    return [tuple(s) for s in spans]


def lcs(a, b):
    table = [[0] * (len(b) + 1) for _ in range(len(a) + 1)]
    for i in range(len(a) - 1, -1, -1):
        for j in range(len(b) - 1, -1, -1):
            table[i][j] = table[i + 1][j + 1] + 1 if a[i] == b[j] else max(table[i + 1][j], table[i][j + 1])
    return table[0][0]


def lcs_pairs(a, b):
    """the pairs of a longest common subsequence, or None if it is not unique as a set of pairs"""
    best = lcs(a, b)
    found = []

    def extend(i, j, pairs):
        if len(found) > 1:
            return
        if len(pairs) == best:
            found.append(tuple(pairs))
            return
        for x in range(i, len(a)):
            for y in range(j, len(b)):
                if a[x] == b[y] and len(pairs) + 1 + lcs(a[x + 1:], b[y + 1:]) == best:
                    extend(x + 1, y + 1, pairs + [(x, y)])

    extend(0, 0, [])
    return best, (found[0] if len(set(found)) == 1 else None)


def align(gold, system, pairs=True):
    """(number of aligned words, aligned pairs or None when the documentation leaves the choice open)"""
    spans = multiword_spans(gold, system)

    def place(w):
        for k, (start, end) in enumerate(spans):
            if start <= w.start and w.end <= end:
                return k
            if w.start < end and start < w.end:
                return 'partial'
        return None

    count = 0
    result = []
    by_range = {(w.start, w.end): w for w in system.words if place(w) is None}
    for w in gold.words:
        if place(w) is None and (w.start, w.end) in by_range:
            count += 1
            result.append((w, by_range[(w.start, w.end)]))
    for k in range(len(spans)):
        g = [w for w in gold.words if place(w) == k]
        s = [w for w in system.words if place(w) == k]
        fg, fs = [w.columns[1].lower() for w in g], [w.columns[1].lower() for w in s]
        if pairs:
            n, found = lcs_pairs(fg, fs)
            count += n
            if found is None:
                result = None
                pairs = False
            elif result is not None:
                result += [(g[x], s[y]) for x, y in found]
        else:
            count += lcs(fg, fs)
    return count, (result if pairs else None)


def score(gold, system, correct, aligned=None):
    return (correct / system if system else 0.0, correct / gold if gold else 0.0,
            2 * correct / (gold + system) if gold + system else 0.0,
            None if aligned is None else correct / aligned if aligned else 0)


def view(s):
    """of an implementation Score"""
    a = s.aligned_accuracy
    return (s.precision, s.recall, s.f1, None if a is None else a or 0)


def close(a, b):
    return len(a) == len(b) and all(x is None and y is None or x is not None and y is not None and abs(x - y) < 1e-9
                                    for x, y in zip(a, b))


def evaluate(gold, system, weights=None, attributes=True):
    """expected scores; attribute metrics are missing when the alignment is not determined by the documentation"""
    result = {}
    result['Tokens'] = score(len(gold.tokens), len(system.tokens), len(set(gold.tokens) & set(system.tokens)))
    result['Sentences'] = score(len(gold.sentences), len(system.sentences), len(set(gold.sentences) & set(system.sentences)))
    count, pairs = align(gold, system, attributes)
    result['Words'] = score(len(gold.words), len(system.words), count)
    if not attributes or pairs is None:
        return result
    to_gold = {id(s): g for g, s in pairs}

    def same_head(g, s):
        if g.parent is None or s.parent is None:
            return g.parent is None and s.parent is None
        return to_gold.get(id(s.parent)) is g.parent

    def column(*indices):
        return lambda g, s: all(g.columns[i] == s.columns[i] for i in indices)

    def las(g, s):
        return same_head(g, s) and g.columns[7] == s.columns[7]

    def weighted(key, weight):
        return score(sum(weight(w) for w in gold.words), sum(weight(w) for w in system.words),
                     sum(weight(g) for g, s in pairs if key(g, s)), sum(weight(g) for g, s in pairs))

    one = lambda w: 1
    for name, key in (('UPOS', column(3)), ('XPOS', column(4)), ('Feats', column(5)), ('AllTags', column(3, 4, 5)),
                      ('Lemmas', column(2)), ('UAS', same_head), ('LAS', las)):
        result[name] = weighted(key, one)
    result['CLAS'] = weighted(las, lambda w: 0 if w.columns[7] in FUNCTION else 1)
    if weights is not None:
        result['WeightedLAS'] = weighted(las, lambda w: weights.get(w.columns[7], 1.0))
    return result


def official_count(gold, system):
    """number of aligned words according to the published CoNLL 2017 scorer.

    It departs from its own documentation in one respect (known finding C13/stray-words): single-word tokens next to a
    multi-word span that are not completely inside it can take part in the alignment of that span."""
    G, S = gold.words, system.words
    g = s = count = 0

    def beyond(words, i, end):
        return i >= len(words) or (words[i].start >= end if words[i].multi else words[i].end > end)

    while g < len(G) and s < len(S):
        if G[g].multi or S[s].multi:
            if G[g].multi:
                end = G[g].end
                s += not S[s].multi and S[s].start < G[g].start
            else:
                end = S[s].end
                g += not G[g].multi and G[g].start < S[s].start
            g0, s0 = g, s
            while not beyond(G, g, end) or not beyond(S, s, end):
                if g < len(G) and (s >= len(S) or G[g].start <= S[s].start):
                    end = max(end, G[g].end) if G[g].multi else end
                    g += 1
                else:
                    end = max(end, S[s].end) if S[s].multi else end
                    s += 1
            count += greedy_lcs([w.columns[1].lower() for w in G[g0:g]], [w.columns[1].lower() for w in S[s0:s]])
        elif (G[g].start, G[g].end) == (S[s].start, S[s].end):
            count += 1
            g += 1
            s += 1
        elif G[g].start <= S[s].start:
            g += 1
        else:
            s += 1
    return count


def greedy_lcs(a, b):
    return lcs(a, b)
