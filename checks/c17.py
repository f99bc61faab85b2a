"""C17 The rule index offers exactly the applicable rules for a word"""
import itertools

BOUNDS = {
    'quick': 'all sets of <=3 rules out of 24 (suffixes over {a, b} of <=2 characters, two replacements, regular and exception), all insertion '
             'orders, all words of <=4 characters; all sequences of 3 queries on an index of 5 rules; rules extracted from all pairs of up to 3 '
             'training words; words and suffixes of up to 60 characters; duplicate and large identifiers',
    'thorough': 'sets of <=4 rules',
}


def load(thorough):
    global T, Trie, UNIVERSE, WORDS
    from babylondigger.lemmas.transformation_rules import LemmaSuffixTransformation as T, LemmaTransformationTrie as Trie
    suffixes = [''.join(s) for n in range(3) for s in itertools.product('ab', repeat=n)]
    UNIVERSE = [(s, r, e) for s in suffixes for e in (False, True) for r in (('x', 'y') if len(s) < 2 else ('x',))]
    WORDS = [''.join(s) for n in range(5) for s in itertools.product('ab', repeat=n)]


def want(rules, word):
    """rules: list of ((suffix, replacement, exception), id)"""
    result = []
    for (suffix, replacement, exception), i in rules:
        if exception and suffix == word or not exception and word.endswith(suffix) and len(suffix) < len(word):
            result.append((suffix, replacement, exception, i))
    return sorted(result)


def view(found):
    return sorted((r.word_suffix, r.lemma_suffix, not r.is_regular, i) for r, i in found)


def query(ctx, trie, rules, word):
    ctx.op()
    got = view(trie.get_applicable_rules(word))
    if got != want(rules, word):
        ctx.fail('rules for {!r}: got {!r}, expected {!r} (rules {!r})'.format(word, got, want(rules, word), rules))
    return got


def build(ctx, rules):
    return ctx.accepts('building the index', Trie.build, iter([(T(*r), i) for r, i in rules]))


def rule_sets(ctx):
    count = ctx.pick((0, 1, 2, 3, 4) if ctx.thorough else (0, 1, 2, 3), 'rules')
    chosen = []
    available = list(range(len(UNIVERSE)))
    for _ in range(count):              # ordered selections: every set in every insertion order
        k = ctx.pick(available, 'rule')
        available = [x for x in available if x != k]
        chosen.append(k)
    rules = [(UNIVERSE[k], 10 + k) for k in chosen]
    trie = build(ctx, rules)
    answers = [query(ctx, trie, rules, w) for w in WORDS]
    ctx.state(answers)


def queries(ctx):
    """answers do not depend on earlier queries, nor on what callers do with them"""
    rules = [((s, 'x', e), i) for i, (s, e) in enumerate((('', False), ('a', False), ('ba', False), ('ba', True), ('', True)))]
    trie = build(ctx, rules)
    trace = []
    for _ in range(3):
        word = ctx.pick(('', 'a', 'ba', 'aba', 'b', 'cba', 'ab'), 'word')
        found = trie.get_applicable_rules(word)
        ctx.equal(view(found), want(rules, word), 'rules for {!r} after {}'.format(word, trace))
        if ctx.flag('caller changes the list') and isinstance(found, list):
            found.clear()
            found.append('garbage')
        trace.append(word)
    ctx.state(trace)


def extracted(ctx):
    """rules of a training set: the rule of every training word is offered for it"""
    lexicon = (('aab', 'aa'), ('ab', 'b'), ('b', 'b'), ('b', 'ab'), ('bab', 'bax'), ('ab', 'xab'), ('', ''), ('', 'a'), ('aab', 'q'))
    pairs = ctx.pick_subset(lexicon, 'training pair')
    rules = []
    for word, lemma in pairs:
        rule = T.get_rule(word, lemma)
        key = (rule.word_suffix, rule.lemma_suffix, not rule.is_regular)
        if key not in [r for r, _ in rules]:
            rules.append((key, len(rules)))
    order = ctx.pick(('same', 'reversed', 'sorted'), 'order')
    rules = {'same': rules, 'reversed': rules[::-1], 'sorted': sorted(rules)}[order]
    trie = build(ctx, rules)
    for word in ('aab', 'ab', 'b', 'bab', '', 'bbb', 'abab', 'x'):
        query(ctx, trie, rules, word)
    for word, lemma in pairs:
        found = [r.transform(word) for r, _ in trie.get_applicable_rules(word)]
        ctx.check(lemma in found, 'the rule of {!r} -> {!r} is not offered', word, lemma)
    ctx.state(pairs, order)


def long_suffixes(ctx):
    n = ctx.pick((1, 2, 9, 10, 11, 30, 60), 'suffix length')
    stem = ctx.pick((0, 1, 2, 10), 'characters before')
    text = ('abcde\u00e9\U0001f600' * 10)[:n]
    rules = [((text[k:], 'x%d' % k, e), 1000 + 2 * k + e) for k in range(n + 1) for e in (False, True)]
    if ctx.flag('reversed'):
        rules.reverse()
    trie = build(ctx, rules)
    query(ctx, trie, rules, 'q' * stem + text)
    query(ctx, trie, rules, text[1:])
    query(ctx, trie, rules, text + 'z')
    query(ctx, trie, rules, text[:-1])
    ctx.state(n, stem)


def identifiers(ctx):
    """identifiers are kept as they are, also equal, negative or large ones"""
    ids = [ctx.pick((0, 1, 1, -1, 10 ** 6), 'id') for _ in range(3)]
    specs = [(('a', 'x', False), ids[0]), (('a', 'y', False), ids[1]), (('ba', 'x', True), ids[2])]
    trie = build(ctx, specs)
    for word in ('ba', 'a', 'ca', ''):
        query(ctx, trie, specs, word)
    ctx.state(ids)


SCENARIOS = {'rule sets': rule_sets, 'queries': queries, 'extracted rules': extracted, 'long suffixes': long_suffixes, 'identifiers': identifiers}
