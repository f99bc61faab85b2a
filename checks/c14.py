"""C14 Attribute scores count exactly the aligned words whose attribute agrees"""
import io as stdio
import os

from mc import conll, udref
from mc.conll import W, M
from mc.gen import trees, scratch

BOUNDS = {
    'quick': 'all pairs of annotations of 2 words with 2 values per morphological column; all pairs of trees of <=3 words with '
             'all relations over 4 labels (2 words) or 3 labels and of 4 words with fixed relations; partly aligned words (5 segmentation pairs, with '
             'multi-word tokens) with all pairs of trees; every function relation with and without subtype; all weights files of <=3 lines over 12 '
             'lines; sentences of 100 words with one deviation at every position',
    'thorough': '3 words with all relations over 4 labels; 3 words morphology',
}
CACHE = {}


def load(thorough):
    global ev
    import babylondigger.evaluation.conll17_ud_eval as ev


def both(text):
    if len(CACHE) > 20000:
        CACHE.clear()
    if text not in CACHE:
        CACHE[text] = ev.load_conllu(stdio.StringIO(text)), udref.load(text)
    return CACHE[text]


def compare(ctx, gold_text, system_text, weights=None):
    gold, rgold = both(gold_text)
    system, rsystem = both(system_text)
    scores = ctx.accepts('evaluation', ev.evaluate, gold, system, weights) if weights is not None else \
        ctx.accepts('evaluation', ev.evaluate, gold, system)
    want = udref.evaluate(rgold, rsystem, weights)
    ctx.check('LAS' in want, 'harness: alignment not determined')
    ctx.equal(set(scores), set(want), 'metrics')
    for name in want:
        got = udref.view(scores[name])
        if not udref.close(got, want[name]):
            ctx.fail('{}: got {!r}, expected {!r} for gold\n{}\nsystem\n{}\nweights {!r}'.format(
                name, got, want[name], gold_text, system_text, weights))
    ctx.state(sorted(want.items()))


def morphology(ctx):
    n = 3 if ctx.thorough else 2
    sides = []
    for side in ('gold', 'system'):
        ws = []
        for i in range(n):
            w = W('w%d' % i, lemma=ctx.pick(('a', 'A') if side == 'system' else ('a', '_'), side), upos=ctx.pick(('N', 'V'), side))
            if i == 0 or ctx.thorough:
                w.xpos = ctx.pick(('_', 'X'), side)
                w.feats = ctx.pick(('A=b', 'B=c|A=b'), side)
            ws.append(w)
        sides.append(conll.render([conll.chain(ws)]))
    compare(ctx, *sides)


LABELS = ('nsubj', 'punct', 'aux:pass', 'nsubj:pass')


def syntax(ctx):
    n = ctx.pick((1, 2, 3), 'words')
    labels = LABELS if n < 3 or ctx.thorough else LABELS[:2]
    sides = []
    for side in ('gold', 'system'):
        ws = conll.set_heads([W('w%d' % i) for i in range(n)], ctx.pick(trees(n), side))
        for w in ws:
            w.deprel = ctx.pick(labels, side)
        sides.append(conll.render([ws]))
    compare(ctx, *sides)


def trees4(ctx):
    sides = []
    for side in ('gold', 'system'):
        ws = conll.set_heads([W('w%d' % i) for i in range(4)], ctx.pick(trees(4), side))
        sides.append(conll.render([conll.chain([W('b')]), ws]))
    compare(ctx, *sides, weights=ctx.pick((None, {'nsubj': 0.5, 'root': 2.0}), 'weights'))


SEGMENTATIONS = [
    # gold, system (surface, words); the alignment is unique
    ([('ab', None), ('c', None)], [('a', None), ('b', None), ('c', None)]),
    ([('ab', ['a', 'b']), ('c', None)], [('a', None), ('b', None), ('c', None)]),
    ([('ab', ['a', 'b']), ('c', None)], [('ab', ['a', 'x', 'b']), ('c', None)]),
    ([('ab', ['x', 'y']), ('c', None)], [('ab', ['z', 'y']), ('c', None)]),
    ([('a', None), ('bc', ['b', 'c'])], [('ab', ['A', 'q']), ('c', None)]),
]


def partly_aligned(ctx):
    pair = ctx.pick(SEGMENTATIONS, 'segmentation')
    if ctx.flag('swapped'):
        pair = pair[::-1]
    sides = []
    for side, tokens in zip(('gold', 'system'), pair):
        s = [W(t) if ws is None else M(t, [W(w) for w in ws]) for t, ws in tokens]
        n = len(list(conll.words(s)))
        conll.set_heads(s, ctx.pick(trees(n), side))
        label = ctx.pick(('same', 'first', 'last'), side)
        for i, w in enumerate(conll.words(s)):
            w.upos = 'N' if i % 2 or side == 'gold' else 'V'
            w.deprel = 'det:x' if label == 'first' and i == 0 else 'det' if label == 'last' and i == n - 1 else 'obj' if i % 2 else 'obj:' + side
        sides.append(conll.render([s]))
    compare(ctx, *sides, weights={'det': 0.25})


def across_sentences(ctx):
    """heads are compared as words: the same relative head in another sentence is another word"""
    sides = []
    for side in ('gold', 'system'):
        ws = [W('w%d' % i) for i in range(4)]
        cut = ctx.pick((1, 2, 3, 4), side)
        groups = [g for g in (ws[:cut], ws[cut:]) if g]
        for g in groups:
            conll.set_heads(g, ctx.pick([t for t in trees(len(g)) if len(g) < 4 or t[0] == -1], side))
        sides.append(conll.render(groups))
    compare(ctx, *sides)


FUNCTION = ('aux', 'case', 'cc', 'clf', 'cop', 'det', 'mark', 'punct')
OTHERS = ('root', 'nsubj', 'auxiliary', 'Punct', 'compound', 'conj', 'dep', 'ccomp', '_')


def function_words(ctx):
    first = ctx.pick(FUNCTION + OTHERS, 'gold relation')
    second = ctx.pick(FUNCTION + OTHERS, 'system relation')
    sub = ctx.pick(('', ':x', ':x:y'), 'subtype')
    gold = conll.chain([W('a'), W('b')])
    gold[1].deprel = first + (sub if first != '_' else '')
    system = conll.chain([W('a'), W('b')])
    system[1].deprel = second
    compare(ctx, conll.render([gold]), conll.render([system]), {first: 0.5, 'x': 7.0, second + ':x': 3.0})


LINES = ('det 0.1', 'det\t0.3', 'obj 1e1', 'root 0', '# det 5', '', '   ', 'det 0.1 x', 'det', 'det x', 'obj 2\r', 'nsubj:pass 4')


def weights_file(ctx):
    lines = ctx.pick_seq(LINES, 0, 3, 'line')
    newline_at_end = ctx.flag('newline at the end') if lines else True
    text = '\n'.join(lines) + ('\n' if lines and newline_at_end else '')
    want = {}
    valid = True
    for line in lines:
        if line.startswith('#') or not line.strip():
            continue
        fields = line.split()
        if len(fields) != 2 or fields[1] == 'x':
            valid = False
            break
        want[fields[0]] = float(fields[1])
    ctx.state(lines)
    if not valid:
        ctx.rejects('weights {!r}'.format(text), ev.load_deprel_weights, stdio.StringIO(text))
        return
    got = ctx.accepts('weights {!r}'.format(text), ev.load_deprel_weights, stdio.StringIO(text))
    ctx.equal(got, want, 'weights of {!r}'.format(text))
    gold = conll.set_heads([W('a'), W('b'), W('c')], [-1, 0, 1])
    gold[1].deprel, gold[2].deprel = 'det', 'obj:x'
    system = conll.set_heads([W('a'), W('b'), W('c')], [-1, 0, 0])
    system[1].deprel, system[2].deprel = 'det:y', 'obj'
    compare(ctx, conll.render([gold]), conll.render([system]), got)


def no_weights(ctx):
    ctx.equal(ev.load_deprel_weights(None), None, 'weights of no file')
    ctx.state()


def wrapper(ctx):
    """evaluate_wrapper: files and weights of the command line"""
    gold = conll.set_heads([W('a', upos='N'), W('b'), W('c')], ctx.pick(trees(3), 'gold'))
    system = conll.set_heads([W('a', upos='V'), W('b'), W('c')], ctx.pick(trees(3)[:4], 'system'))
    weights = ctx.pick((None, 'nsubj 0.5\n', 'root 0\n#\n'), 'weights')
    with scratch() as directory:
        paths = []
        for name, s in (('gold', gold), ('system', system)):
            paths.append(os.path.join(directory, name))
            with open(paths[-1], 'w') as f:
                f.write(conll.render([s]))

        class Args(object):
            gold_file, system_file, verbose = paths[0], paths[1], 1
        Args.weights = None if weights is None else stdio.StringIO(weights)
        scores = ctx.accepts('evaluation of files', ev.evaluate_wrapper, Args)
    table = None if weights is None else {'nsubj': 0.5} if weights.startswith('nsubj') else {'root': 0.0}
    want = udref.evaluate(udref.load(conll.render([gold])), udref.load(conll.render([system])), table)
    ctx.equal(set(scores), set(want), 'metrics')
    for name in want:
        ctx.check(udref.close(udref.view(scores[name]), want[name]), '{}: got {!r}, expected {!r}', name, udref.view(scores[name]), want[name])
    ctx.state(sorted(want.items()))


def long_sentences(ctx):
    n = ctx.pick((11, 100), 'words')
    at = ctx.pick(range(1, n), 'word')
    how = ctx.pick(('head', 'relation', 'tag', 'lemma', 'function word', 'merged'), 'deviation')
    gold = conll.chain([W('w%d' % i, lemma='l', upos='N', xpos='X', feats='A=b') for i in range(n)])
    system = conll.chain([W('w%d' % i, lemma='l', upos='N', xpos='X', feats='A=b') for i in range(n)])
    if how == 'head':
        system[at].head = 1 if at > 1 else 0
        if at == 1:
            system[0].head = 2
    elif how == 'relation':
        system[at].deprel = 'other'
    elif how == 'tag':
        system[at].upos = system[at].xpos = 'Z'
    elif how == 'lemma':
        system[at].lemma = 'L'
    elif how == 'function word':
        gold[at].deprel = 'case:x'
    else:
        merged = system[at - 1]
        merged.form += system[at].form
        del system[at]
        conll.chain(system)
    compare(ctx, conll.render([gold]), conll.render([system]), {'dep': 3.0})


SCENARIOS = {'morphology': morphology, 'syntax': syntax, 'trees of 4 words': trees4, 'partly aligned': partly_aligned,
             'across sentences': across_sentences, 'function words': function_words, 'weights file': weights_file, 'no weights': no_weights,
             'wrapper': wrapper, 'long sentences': long_sentences}
