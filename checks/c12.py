"""C12 The evaluator loads valid CoNLL-U and rejects everything else with its own error"""
import io as stdio
import os

from mc import conll, udref
from mc.conll import W, M, E, C
from mc.gen import scratch

BOUNDS = {
    'quick': 'all head assignments of <=3 words (with negative, missing, too large, textual ones; plain and inside multi-word tokens) in 1-2 '
             'sentences and all of 4 words; every replacement of every column of every line of 7 base files by 22 values, every line dropped, '
             'duplicated, swapped, split or joined; every truncation; all structures of <=3 surface tokens with empty nodes; long sentences (1500 words)',
    'thorough': 'all head assignments of 5 words; pairs of replacements',
}
TIMEOUT = 120


def load(thorough):
    global ev
    import babylondigger.evaluation.conll17_ud_eval as ev


def judge(ctx, text, as_file=False):
    """compare loading with the reference"""
    try:
        want = udref.load(text)
    except udref.Invalid as e:
        want = e
    except LookupError:
        ctx.prune()
    ctx.op()
    try:
        if as_file:
            with scratch() as directory:
                path = os.path.join(directory, 'x')
                with open(path, 'w', encoding='utf-8', newline='') as f:
                    f.write(text)
                got = ev.load_conllu_file(path)
        else:
            got = ev.load_conllu(stdio.StringIO(text))
    except ev.UDError as e:
        got = e
    except Exception as e:
        ctx.fail('loading {!r} raised {!r} instead of UDError'.format(text[:1500], e))
    if isinstance(want, udref.Invalid):
        ctx.check(isinstance(got, ev.UDError), 'invalid text ({}) was loaded: {!r}', want, text[:1500])
        ctx.state(str(want), type(got).__name__, text[:60])
        return False
    if isinstance(got, ev.UDError):
        ctx.fail('valid text {!r} was refused: {}'.format(text[:1500], got))
    ctx.equal(''.join(got.characters), want.characters, 'characters')
    ctx.equal([(t.start, t.end) for t in got.tokens], want.tokens, 'tokens')
    ctx.equal([(t.start, t.end) for t in got.sentences], want.sentences, 'sentences')
    ctx.equal(len(got.words), len(want.words), 'number of words')
    number = {id(w): i for i, w in enumerate(got.words)}
    wanted = {id(w): i for i, w in enumerate(want.words)}
    for i, (g, w) in enumerate(zip(got.words, want.words)):
        ctx.equal((g.span.start, g.span.end), (w.start, w.end), 'span of word {}'.format(i))
        ctx.equal(bool(g.is_multiword), w.multi, 'is_multiword of word {}'.format(i))
        for c in range(2, 10):
            ctx.equal(g.columns[c], w.columns[c], 'column {} of word {}'.format(c, i))
        ctx.equal(g.columns[1], w.columns[1], 'form of word {}'.format(i))
        ctx.equal(number.get(id(g.parent)) if g.parent is not None else None,
                  wanted.get(id(w.parent)) if w.parent is not None else None, 'parent of word {}'.format(i))
    ctx.state(want.characters, want.tokens, want.sentences, [w.columns[6:8] for w in want.words])
    return True


def heads(ctx):
    n = ctx.pick((1, 2, 3, 4, 5) if ctx.thorough else (1, 2, 3, 4), 'words')
    wide = n < 4
    values = list(range(0, n + 2)) + (['-1', '_', 'x', ''] if wide else [])
    assigned = [ctx.pick(values, 'head') for _ in range(n)]
    shape = ctx.pick(('plain', 'multi-word', 'plain and multi-word'), 'shape') if wide else 'plain'
    before = ctx.pick((0, 1), 'sentence before') if wide else 0
    after = ctx.pick((0, 1), 'sentence after') if wide else 0
    ws = [W('w%d' % i, head=h, deprel='dep:x') for i, h in enumerate(assigned)]
    if shape == 'multi-word':
        ws = [M('mw', ws)]
    elif shape == 'plain and multi-word':
        if n < 2:
            ctx.prune()
        ws = ws[:1] + [M('mw', ws[1:])]
    sentences = [conll.chain([W('a'), W('b')])] * before + [ws] + [conll.chain([W('c')])] * after
    judge(ctx, conll.render(sentences))


def bases():
    return [
        [conll.chain([W('a', lemma='l', upos='U', xpos='X', feats='A=b')])],
        [conll.chain([W('ab', deprel='x'), W('c', misc='SpaceAfter=No')]), conll.chain([C('# c'), W('d e')])],
        [conll.chain([M('ab', [W('a'), W('b')]), W('.')])],
        [conll.chain([C('# x'), W('q'), M('pq', [W('p'), E('n'), W('q')])]), conll.chain([W('z'), E('n')])],
        [conll.chain([E('n'), M('m', [W('m')]), W('.')]), conll.chain([M('xyz', [W('x'), W('y'), W('z')])])],
        [conll.set_heads([W('a'), W('b'), W('c')], [2, 0, -1])],
        [conll.set_heads([W('a'), M('bc', [W('b'), W('c')])], [1, 2, -1])],
    ]


VALUES = ('', '_', ' ', '  ', '0', '1', '2', '3', '4', '-1', 'x', '1-2', '2-3', '1.1', '-', '1-', 'a b', 'nsubj:pass', ':', '#', '1.5', '1 ')


def replaced(ctx):
    base = ctx.pick(range(7), 'base')
    lines = conll.render(bases()[base]).split('\n')[:-1]
    for _ in range(2 if ctx.thorough else 1):
        i = ctx.pick([k for k, l in enumerate(lines) if l and not l.startswith('#')], 'line')
        columns = lines[i].split('\t')
        c = ctx.pick(range(10), 'column')
        columns[c] = ctx.pick(VALUES if not ctx.thorough else VALUES[:14], 'value')
        lines[i] = '\t'.join(columns)
        if columns[c] == '1 ' and c in (0, 6):
            ctx.prune()          # numbers with blanks around are not specified
    judge(ctx, '\n'.join(lines) + '\n')


def edited(ctx):
    base = ctx.pick(range(7), 'base')
    lines = conll.render(bases()[base]).split('\n')[:-1]
    how = ctx.pick(('drop', 'duplicate', 'swap', 'join', 'extra column', 'missing column', 'no tabs', 'blank before', 'comment before',
                    'hash'), 'edit')
    i = ctx.pick(len(lines), 'line')
    if how == 'drop':
        del lines[i]
    elif how == 'duplicate':
        lines.insert(i, lines[i])
    elif how == 'swap':
        if i + 1 == len(lines):
            ctx.prune()
        lines[i], lines[i + 1] = lines[i + 1], lines[i]
    elif how == 'join':
        if i + 1 == len(lines):
            ctx.prune()
        lines[i:i + 2] = [lines[i] + lines[i + 1]]
    elif how == 'extra column':
        lines[i] += '\t_'
    elif how == 'missing column':
        lines[i] = '\t'.join(lines[i].split('\t')[:-1])
    elif how == 'no tabs':
        lines[i] = lines[i].replace('\t', ' ')
    elif how == 'blank before':
        lines.insert(i, '')
    elif how == 'comment before':
        lines.insert(i, '# comment')
    elif how == 'hash':
        lines.insert(i, '#')
    text = '\n'.join(lines) + ('\n' if lines else '')
    newline = ctx.pick(('\n', '\r\n'), 'line end')
    judge(ctx, text.replace('\n', newline), ctx.flag('file'))


def truncated(ctx):
    base = ctx.pick(range(7), 'base')
    text = conll.render(bases()[base], ctx.pick(('\n', '\r\n'), 'line end'))
    judge(ctx, text[:ctx.pick(len(text) + 1, 'characters kept')])


def structure(ctx):
    count = ctx.pick((0, 1, 2, 3), 'surface tokens')
    sentences, current = [], []
    forms = ('ab', 'a b', '\u00e9', '_')
    n = 0
    for i in range(count):
        if not current and ctx.flag('comment'):
            current.append(C('# 1\t2'))
        kind = ctx.pick((0, 1, 2, 3), 'words')
        ws = [W('w%d' % (n + k) if kind else forms[i], lemma='l%d' % (n + k), deprel='d:s') for k in range(max(1, kind))]
        n += len(ws)
        if kind > 1 and ctx.flag('empty node inside'):
            ws.insert(1, E('n'))
        current += [M(forms[i] + 'M', ws)] if kind else ws
        if ctx.flag('empty node'):
            current.append(E('n'))
        if i + 1 == count or ctx.flag('end of sentence'):
            sentences.append(current)
            current = []
    style = ctx.pick(('chain', 'last'), 'heads')
    for s in sentences:
        k = len(list(conll.words(s)))
        conll.set_heads(s, [-1] + list(range(k - 1)) if style == 'chain' else [k - 1] * (k - 1) + [-1])
        for w in conll.words(s):
            w.deprel += ':sub:type'
    ctx.check(judge(ctx, conll.render(sentences)), 'reference refused a valid text')


def long_sentences(ctx):
    n = ctx.pick((9, 10, 11, 12, 99, 100, 101, 300, 1500), 'words')
    style = ctx.pick(('to the left', 'to the right', 'all to the last', 'cycle at the end', 'two roots', 'outside', 'zigzag'), 'heads')
    at = ctx.pick((0, n // 2, n - 2), 'multi-word position')
    hs = {'to the left': [-1] + list(range(n - 1)), 'to the right': list(range(1, n)) + [-1], 'all to the last': [n - 1] * (n - 1) + [-1],
          'cycle at the end': [-1] + list(range(0, n - 2)) + [n - 1], 'two roots': [-1] + list(range(n - 2)) + [-1],
          'outside': [-1] + list(range(n - 2)) + [n],
          'zigzag': [n - 1 - i if i < n // 2 else (n - i if n - i < n // 2 else -1) for i in range(n)]}[style]
    ws = [W('w%d' % i) for i in range(n)]
    sentence = ws[:at] + [M('mw', ws[at:at + 2])] + ws[at + 2:]
    conll.set_heads(sentence, hs)
    judge(ctx, conll.render([conll.chain([W('a')]), sentence, conll.chain([W('z')])]))


SCENARIOS = {'heads': heads, 'replaced column': replaced, 'edited lines': edited, 'truncated': truncated, 'structure': structure,
             'long sentences': long_sentences}
