"""C13 Token, sentence and word scores follow the documented alignment"""
import io as stdio
import itertools

from mc import conll, udref
from mc.conll import W, M

BOUNDS = {
    'quick': 'all pairs of segmentations of 4 characters with 5 expansions per token (plain, split, one word, foreign words, upper case); all pairs of '
             'segmentations of 5 characters with 2 expansions; all pairs of segmentations and sentence splits of 6 characters; '
             'all pairs of multi-word expansions (<=3 words over 3 forms) of one token; all pairs of different character '
             'sequences of <=3 characters; texts of up to 130 tokens with a deviation at every position',
    'thorough': '5 characters with 4 expansions per token, 7 characters for sentences',
}
CACHE = {}


def load(thorough):
    global ev
    import babylondigger.evaluation.conll17_ud_eval as ev


def both(text):
    """(implementation representation, reference representation), loaded once per process"""
    if text not in CACHE:
        CACHE[text] = ev.load_conllu(stdio.StringIO(text)), udref.load(text)
    return CACHE[text]


def render(sentences):
    """sentences: lists of (surface, None or list of word forms)"""
    return conll.render([conll.chain([W(s) if ws is None else M(s, [W(w) for w in ws]) for s, ws in sentence]) for sentence in sentences])


def compare(ctx, gold_text, system_text, names=('Tokens', 'Sentences', 'Words')):
    gold, rgold = both(gold_text)
    system, rsystem = both(system_text)
    scores = ctx.accepts('evaluation', ev.evaluate, gold, system)
    back = ctx.accepts('evaluation', ev.evaluate, system, gold)
    want = udref.evaluate(rgold, rsystem, attributes=False)
    stray = False
    for name in names:
        got = udref.view(scores[name])
        if not udref.close(got, want[name]):
            if name == 'Words':
                for g, s, result in ((rgold, rsystem, got),):
                    official = udref.score(len(g.words), len(s.words), udref.official_count(g, s))
                    if udref.close(result, official):
                        stray = True
                        ctx.finding('stray-words', 'Words {} instead of {} for\n{}\n{}'.format(got, want[name], gold_text, system_text))
            if not stray:
                ctx.fail('{}: got {!r}, expected {!r} for gold\n{}\nsystem\n{}'.format(name, got, want[name], gold_text, system_text))
        ctx.check(all(0 <= v <= 1 for v in got if v is not None), '{} outside [0, 1]: {}', name, got)
        reverse = udref.view(back[name])
        expected = (want[name][1], want[name][0], want[name][2], None)
        if not udref.close(reverse, expected):
            if name == 'Words' and udref.close(reverse, udref.score(len(rsystem.words), len(rgold.words), udref.official_count(rsystem, rgold))):
                ctx.finding('stray-words', 'Words {} instead of {} for\n{}\n{}'.format(reverse, expected, system_text, gold_text))
            else:
                ctx.fail('{} with gold and system swapped: got {!r}, expected {!r} for\n{}\n{}'.format(
                    name, reverse, expected, system_text, gold_text))
    if gold_text == system_text:
        for name in names:
            ctx.equal(udref.view(scores[name])[:3], (1.0, 1.0, 1.0), '{} of identical inputs'.format(name))
    ctx.state(want)


def segmentations(text):
    for mask in range(2 ** (len(text) - 1)):
        parts, current = [], text[0]
        for i, c in enumerate(text[1:]):
            if mask >> i & 1:
                parts.append(current)
                current = c
            else:
                current += c
        yield parts + [current]


def expansions(token, count):
    options = [None, list(token), [token], ['x', token[-1]], list(token.upper())[::-1]]
    return options[:count]


def side(ctx, text, count, label):
    sides = _sides(text, count)
    return ctx.pick(sides, label)


SIDES = {}


def _sides(text, count):
    key = text, count
    if key not in SIDES:
        result = []
        for parts in segmentations(text):
            for choice in itertools.product(*[expansions(p, count) for p in parts]):
                result.append(render([list(zip(parts, choice))]))
        SIDES[key] = sorted(set(result), key=lambda t: (len(t), t))
    return SIDES[key]


def words(ctx):
    text = ctx.pick(('abcd', 'aabb', 'abab'), 'text')
    count = 5 if text == 'abab' else 3
    compare(ctx, side(ctx, text, count, 'gold'), side(ctx, text, count, 'system'))


def longer_words(ctx):
    count = 4 if ctx.thorough else 2
    compare(ctx, side(ctx, 'abcab', count, 'gold'), side(ctx, 'abcab', count, 'system'))


def sentences(ctx):
    text = 'abcdefg'[:7 if ctx.thorough else 6]
    key = 'sentences', text
    if key not in SIDES:
        result = []
        for parts in segmentations(text):
            for mask in range(2 ** (len(parts) - 1)):
                groups, current = [], []
                for i, p in enumerate(parts):
                    current.append((p, None))
                    if mask >> i & 1 or i + 1 == len(parts):
                        groups.append(current)
                        current = []
                result.append(render(groups))
        SIDES[key] = result
    compare(ctx, ctx.pick(SIDES[key], 'gold'), ctx.pick(SIDES[key], 'system'))


def expansion(ctx):
    """all pairs of expansions of one token between two plain ones"""
    def pick(label):
        ws = ctx.pick_seq(('a', 'B', 'c'), 0, 3, label)
        return [('x', None), ('ab', ws or None), ('y', None)]
    compare(ctx, render([pick('gold')]), render([pick('system')]))


def multi_sentences(ctx):
    """multi-word tokens at sentence ends"""
    def pick(label):
        first = ctx.pick((None, ['a', 'b'], ['A'], ['b', 'a']), label)
        second = ctx.pick((None, ['c', 'd'], ['cd']), label)
        tokens = [('ab', first), ('cd', second), ('e', None)]
        if ctx.flag(label):
            tokens[:1] = [('a', None), ('b', None)]
        where = ctx.pick(range(len(tokens)), label)
        return render([tokens[:where], tokens[where:]] if where else [tokens])
    compare(ctx, pick('gold'), pick('system'))


def different(ctx):
    """different characters never get a score"""
    gold = ''.join(ctx.pick_seq('ab', 1, 3, 'gold'))
    system = ''.join(ctx.pick_seq('abA', 1, 3, 'system'))
    gparts = ctx.pick(list(segmentations(gold)), 'gold tokens')
    sparts = ctx.pick(list(segmentations(system)), 'system tokens')
    spaces = ctx.flag('space in form')
    if spaces:
        sparts = [' '.join(p) if len(p) > 1 else p for p in sparts]
    g, _ = both(render([[(p, None) for p in gparts]]))
    s, _ = both(render([[(p, None) for p in sparts]]))
    ctx.state(gparts, sparts)
    if gold != system:
        ctx.rejects('evaluating {} against {}'.format(gparts, sparts), ev.evaluate, g, s, exc=ev.UDError)
        ctx.rejects('evaluating {} against {}'.format(sparts, gparts), ev.evaluate, s, g, exc=ev.UDError)
    else:
        compare(ctx, render([[(p, None) for p in gparts]]), render([[(p, None) for p in sparts]]))


def empty(ctx):
    a, b = ctx.pick(('', '# c\n'), 'gold'), ctx.pick(('', render([[('a', None)]])), 'system')
    g, s = ev.load_conllu(stdio.StringIO(a)), ev.load_conllu(stdio.StringIO(b))
    ctx.state(a, b)
    if b:
        ctx.rejects('evaluating an empty file', ev.evaluate, g, s, exc=ev.UDError)
    else:
        scores = ctx.accepts('evaluating empty files', ev.evaluate, g, s)
        for name in ('Tokens', 'Sentences', 'Words'):
            ctx.equal(udref.view(scores[name])[:3], (0.0, 0.0, 0.0), name)


def long_texts(ctx):
    n = ctx.pick((10, 30, 130), 'tokens')
    at = ctx.pick(range(0, n - 3), 'position')
    how = ctx.pick(('merge', 'split', 'multi-word in gold', 'multi-word in system', 'overlapping', 'sentence', 'case'), 'difference')
    base = [('t%d' % (i % 7), None) for i in range(n)]
    gold, system = list(base), list(base)
    joined = base[at][0] + base[at + 1][0]
    sentence_at = None
    if how == 'merge':
        system[at:at + 2] = [(joined, None)]
    elif how == 'split':
        system[at:at + 1] = [('t', None), (base[at][0][1:], None)]
    elif how == 'multi-word in gold':
        gold[at:at + 2] = [(joined, [base[at][0], base[at + 1][0].upper(), 'z'])]
    elif how == 'multi-word in system':
        system[at:at + 2] = [(joined, ['z', base[at + 1][0]])]
    elif how == 'overlapping':
        gold[at:at + 2] = [(joined, ['a', 'b'])]
        later = base[at + 1][0] + base[at + 2][0]
        system[at + 1:at + 3] = [(later, ['b', base[at + 2][0]])]
    elif how == 'case':
        gold[at:at + 2] = [(joined, ['Ab', 'cD'])]
        system[at:at + 2] = [(joined, ['aB', 'cd'])]
    cut_at = n // 2
    g = render([gold[:cut_at], gold[cut_at:]])
    s = render([system[:cut_at], system[cut_at:]] if how != 'sentence' else [system[:at + 1], system[at + 1:]])
    compare(ctx, g, s)
    CACHE.clear()


SCENARIOS = {'words': words, 'longer words': longer_words, 'sentences': sentences, 'expansion': expansion, 'multi-word and sentences': multi_sentences,
             'different': different, 'empty': empty, 'long texts': long_texts}
