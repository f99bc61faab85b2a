"""C16 A lemma rule extracted from a word and its lemma restores that lemma"""

BOUNDS = {
    'quick': 'all pairs of words and lemmas over {a, b} of <=5 characters and over {a, A, \\u0301, U+1F600} of <=3; every rule applied to every word over {a, b} of <=5; pairs '
             'of strings of 10-300 characters differing at any position',
    'thorough': '<=6 characters over two letters',
}


def load(thorough):
    global T
    from babylondigger.lemmas.transformation_rules import LemmaSuffixTransformation as T


def common(word, lemma):
    n = 0
    while n < len(word) and n < len(lemma) and word[n] == lemma[n]:
        n += 1
    return n


def extract(ctx, word, lemma):
    rule = ctx.accepts('rule of {!r} -> {!r}'.format(word, lemma), T.get_rule, word, lemma)
    n = common(word, lemma)
    ctx.equal(rule.word_suffix, word[n:], 'word suffix of {!r} -> {!r}'.format(word, lemma))
    ctx.equal(rule.lemma_suffix, lemma[n:], 'lemma suffix of {!r} -> {!r}'.format(word, lemma))
    ctx.equal(bool(rule.is_regular), n > 0, 'is_regular of {!r} -> {!r}'.format(word, lemma))
    ctx.equal(rule.is_applicable(word), True, 'applicability to {!r}'.format(word))
    ctx.equal(rule.transform(word), lemma, 'lemma of {!r}'.format(word))
    return rule


def pairs(ctx):
    size = 6 if ctx.thorough else 5
    word = ''.join(ctx.pick_seq('ab', 0, size, 'word'))
    lemma = ''.join(ctx.pick_seq('ab', 0, size, 'lemma'))
    rule = extract(ctx, word, lemma)
    ctx.state(rule.word_suffix, rule.lemma_suffix, rule.is_regular)
    ctx.check(rule == T.get_rule(word, lemma), 'the same pair gives different rules')


def unicode_pairs(ctx):
    alphabet = ('a', 'A', '\u0301', '\U0001f600')
    word = ''.join(ctx.pick_seq(alphabet, 0, 3, 'word'))
    lemma = ''.join(ctx.pick_seq(alphabet, 0, 3, 'lemma'))
    rule = extract(ctx, word, lemma)
    ctx.state(word, lemma)


def application(ctx):
    """a rule applies exactly to the words with its suffix"""
    suffix = ''.join(ctx.pick_seq('ab', 0, 3, 'suffix'))
    replacement = ctx.pick(('', 'a', 'ba', '\u00e9'), 'replacement')
    exception = ctx.flag('exception')
    word = ''.join(ctx.pick_seq('ab', 0, 5, 'word'))
    rule = T(suffix, replacement, exception)
    ends = len(word) >= len(suffix) and word[len(word) - len(suffix):] == suffix
    ctx.equal(rule.is_applicable(word), ends, 'applicability of {} to {!r}'.format(rule, word))
    ctx.state(suffix, replacement, exception, word)
    if ends:
        got = ctx.accepts('transform', rule.transform, word)
        ctx.equal(got, word[:len(word) - len(suffix)] + replacement, 'result of {} on {!r}'.format(rule, word))
    else:
        ctx.rejects('{} on {!r}'.format(rule, word), rule.transform, word)
    ctx.equal((rule.word_suffix, rule.lemma_suffix, rule.is_regular), (suffix, replacement, not exception), 'rule after use')


def long_words(ctx):
    n = ctx.pick((10, 50, 255, 256, 257, 300), 'length')
    at = ctx.pick(sorted({0, 1, 2, 5, 9, n // 2, n - 2, n - 1, n} & set(range(n + 1))), 'first difference')
    tail_word = ctx.pick((0, 1, 5), 'characters after it')
    tail_lemma = ctx.pick((0, 1, 5), 'characters after it')
    stem = ('abcdefghij' * 31)[:at]
    rule = extract(ctx, stem + 'X' * tail_word, stem + 'Y' * tail_lemma)
    other = 'zz' + 'X' * tail_word
    ctx.equal(rule.transform(other), 'zz' + 'Y' * tail_lemma, 'rule on another word')
    ctx.state(n, at, tail_word, tail_lemma)


SCENARIOS = {'pairs': pairs, 'unicode': unicode_pairs, 'application': application, 'long words': long_words}
