"""C29 Evaluation scores exactly the tagger's output and never leaks gold annotation"""
import contextlib
import io as stdio
import itertools
import os

from mc import conll, docs, fake, gen, udref
from mc.conll import M, W

BOUNDS = {
    'quick': 'gold treebanks of <=3 surface tokens in every sentence split (4 kinds incl. multi-word tokens, SpaceAfter=No, comments, empty nodes), '
             'taggers: perfect, bare, every single deviation (lemma, UPOS, XPOS, FEATS, head, relation, of each word), all annotations over 2 values of '
             '2 words, other segmentations, missing and surplus documents; each with 4 testers (file or data set, results in memory or in new, nested '
             'or existing files), lazy, eager and reordering consumption, 2 evaluations in a row; histories of <=3 evaluations over 4 taggers and of 3 evaluations of rewritten gold files; every presence '
             'of each gold annotation of <=2 words; 60 '
             'sentences of 12 words',
    'thorough': 'treebanks of <=4 surface tokens, all annotations over 2 values of 3 words, histories of <=4 evaluations',
}
ASSUMPTIONS = ['the CoNLL-2017 scores themselves are decided by C11-C15; the reference scorer of these checks is used here too']


def load(thorough):
    global dm, evl, tg, ev, io
    evl, tg = fake.evaluation()
    import babylondigger.datamodel as dm
    import babylondigger.evaluation.conll17_ud_eval as ev
    import babylondigger.evaluation.conllu_io as io


class Tagger(object):
    """answers by `tag_one(document, index)` -> document; keeps views of its inputs"""

    def __init__(self, answer, mode='lazy'):
        self.answer, self.mode, self.inputs, self.outputs = answer, mode, [], []

    def _one(self, document, i):
        self.inputs.append(gen.doc_view(document))
        result = self.answer(document, i)
        self.outputs.append(result)
        return result

    def tag(self, documents):
        if self.mode == 'lazy':
            return (self._one(d, i) for i, d in enumerate(documents))
        if self.mode == 'eager':
            return iter([self._one(d, i) for i, d in enumerate(documents)])
        return self._ahead(documents)

    process = tag

    def _ahead(self, documents):
        """reads two documents ahead"""
        buffer = []
        for i, d in enumerate(documents):
            buffer.append((d, i))
            if len(buffer) > 2:
                yield self._one(*buffer.pop(0))
        for d, i in buffer:
            yield self._one(d, i)

    def __str__(self):
        return 'Tagger'


def treebank(ctx, most, extra=False):
    """abstract treebank"""
    count = ctx.pick(range(1, most + 1), 'tokens')
    sentences, current, n = [], [], 0
    for i in range(count):
        kind = ctx.pick(('plain', 'bare', 'multi', 'tight') if count < 3 else ('plain', 'multi'), 'token')
        n += 1
        if kind == 'bare':
            current.append(W('b%d' % n))
        elif kind == 'plain':
            current.append(W('Full%d' % n, lemma='full%d' % n, upos='NOUN', xpos='NN', feats='Case=Nom|Number=Sing'))
        elif kind == 'tight':
            current.append(W('t%d' % n, lemma='t', upos='PUNCT', misc='SpaceAfter=No'))
        else:
            current.append(M('mw%d' % n, [W('m%d' % n, lemma='M', upos='ADP'), W('w', lemma='v', xpos='XX', feats='A=b')], 'SpaceAfter=No' if n == 2 else '_'))
        if i + 1 == count or ctx.flag('end of sentence'):
            sentences.append(conll.chain(current))
            current = []
    if extra:
        sentences[0].insert(0, conll.C('# sent_id = 1'))
        sentences[-1].append(conll.E('gap'))
    return sentences


def annotated(document, rows):
    """document with the annotation of (lemma, (upos, xpos, feats), head in sentence, deprel) rows"""
    tokens = []
    for token, (lemma, pos, head, deprel) in zip(document.tokens, rows):
        token = dm.Token.with_morphology(token, pos and dm.Pos(*pos), lemma)
        token = dm.Token.with_syntax(token) if head is None else dm.Token.with_syntax(token, deprel, head_sentence_index=head)
        tokens.append(token)
    return dm.Document.from_document(document, tokens)


def gold_rows(sentence):
    result = []
    for w in conll.words(sentence):
        pos = (conll.value(w.upos), conll.value(w.xpos), dict(conll.feats_view(w.feats)))
        result.append([conll.value(w.lemma), pos, int(w.head) - 1, conll.value(w.deprel)])
    return result


def expected_text(sentences, rows):
    """CoNLL-U text of an abstract treebank with other annotation; headless sentences become None"""
    result = []
    for sentence, row in zip(sentences, rows):
        nodes = iter(row)

        def word(w):
            lemma, pos, head, deprel = next(nodes)
            pos = pos or (None, None, {})
            return W(w.form, (head if head is not None else -1) + 1, docs.shield(lemma), docs.shield(pos[0]), docs.shield(pos[1]),
                     docs.feats_string(pos[2]), docs.shield(deprel) if head is not None else '_', '_', w.misc)
        new = []
        for node in sentence:
            if isinstance(node, W):
                new.append(word(node))
            elif isinstance(node, M):
                new.append(M(node.form, [word(w) for w in node.words], node.misc))
        if row and row[0][2] is None:
            conll.chain(new)
            for w in conll.words(new):
                w.deprel = '_'
        result.append(new)
    return conll.render(result)


def bare_view(sentences):
    """what taggers must be given: one document per sentence without annotation"""
    result = []
    for s in sentences:
        text, ranges, rows = conll.expected([s], ())
        result.append((text, ranges, tuple(r[:5] + (None, None, None, None) for r in rows)))
    return result


def views(scores):
    return {k: udref.view(v) for k, v in scores.items()}


SYNTAX = ('UAS', 'LAS', 'CLAS')


def compare(ctx, got, gold_text, system_text, headless, what):
    got = views(got)
    want = udref.evaluate(udref.load(gold_text), udref.load(system_text))
    ctx.check('LAS' in want, 'harness: alignment not determined')
    ctx.equal(set(got), set(want), what + ': metrics')
    for name in want:
        if not (headless and name in SYNTAX) and not udref.close(got[name], want[name]):
            ctx.fail('{}: {}: got {!r}, expected {!r} for gold\n{}\nsystem\n{}'.format(what, name, got[name], want[name], gold_text, system_text))
    return got


def run(tester, tagger, name):
    with contextlib.redirect_stdout(stdio.StringIO()):
        return tester.test(tagger, name)


def evaluate(ctx, sentences, rows, headless=False, modes=('lazy',), deep=False):
    """every tester gives the expected scores of a tagger that annotates the sentences with rows"""
    gold_text = conll.render(sentences)
    system_text = expected_text(sentences, rows)
    inputs = bare_view(sentences)
    with gen.scratch() as root:
        path = os.path.join(root, 'gold.conllu')
        with open(path, 'w', encoding='utf8', newline='') as f:
            f.write(gold_text)
        memory = list(io.CoNLLUReader(1).read_from_str(gold_text))
        gold_views = [gen.doc_view(d) for d in memory]
        testers = [('file', None, evl.FileTaggerTester(path)),
                   ('results', 'results', evl.FileTaggerTester(path, os.path.join(root, 'results'))),
                   ('data set', None, evl.DataSetTaggerTester(memory))]
        if deep:
            os.makedirs(os.path.join(root, 'old', 'a', 'b'))
            with open(os.path.join(root, 'old', 'a', 'b', 'out.conll'), 'w') as f:
                f.write('1\told\n' * 1000)
            testers.append(('existing file', 'old', evl.FileTaggerTester(path, os.path.join(root, 'old'))))
        seen = []
        for what, results, tester in testers:
            for mode in modes:
                tagger = Tagger(lambda d, i: annotated(d, rows[i]), mode)
                name = os.path.join('a', 'b', 'out.conll') if what != 'file' else 'x'
                scores = ctx.accepts('evaluation with ' + what, run, tester, tagger, name)
                got = compare(ctx, scores, gold_text, system_text, headless, what)
                seen.append(got)
                ctx.equal(got, seen[0], 'scores with {} and the first ones'.format(what))
                ctx.equal([(v[0], v[1], tuple(r[:9] for r in v[2])) for v in tagger.inputs], inputs, 'documents given to the tagger')
                if results:
                    file = os.path.join(root, results, name)
                    ctx.check(os.path.isfile(file), 'no results file {}', name)
                    with open(file, encoding='utf8', newline='') as f:
                        content = f.read()
                    back = list(io.CoNLLUReader(1).read_from_str(content))
                    ctx.equal(len(back), len(tagger.outputs), 'documents in the results file')
                    if not headless:
                        want = [docs.semantic_rows(d) for d in tagger.outputs]
                        have = [docs.semantic_rows(d) for d in back]
                        ctx.equal([docs.mask_last_space(r) for r in have], [docs.mask_last_space(r) for r in want], 'results file')
        listing = sorted(os.path.relpath(os.path.join(d, f), root) for d, _, fs in os.walk(root) for f in fs)
        ctx.equal(listing, sorted(['gold.conllu', 'results/a/b/out.conll'] + (['old/a/b/out.conll'] if deep else [])), 'files')
        with open(path, encoding='utf8', newline='') as f:
            ctx.equal(f.read(), gold_text, 'gold file')
        ctx.equal([gen.doc_view(d) for d in memory], gold_views, 'gold documents')
    ctx.state(system_text, sorted(seen[0].items()))
    return seen[0]


def treebanks(ctx):
    sentences = treebank(ctx, 4 if ctx.thorough else 3, extra=ctx.flag('comment and empty node'))
    kind = ctx.pick(('perfect', 'bare', 'wrong'), 'tagger')
    rows = [gold_rows(s) for s in sentences]
    if kind == 'bare':
        rows = [[[None, None, None, None] for _ in s] for s in rows]
    elif kind == 'wrong':
        rows = [[['?', ('?', '?', {'?': '?'}), i - 1 if i < 2 else 0, 'root' if i == 0 else 'bad'] for i, _ in enumerate(s)] for s in rows]
    scores = evaluate(ctx, sentences, rows, kind == 'bare', modes=('lazy', 'eager', 'ahead'), deep=True)
    if kind == 'perfect':
        for name, s in scores.items():
            if not (name == 'CLAS' and s[:3] == (0, 0, 0)):
                ctx.check(all(x is None or x == 1 for x in s), '{} of a perfect tagger: {}', name, s)
    if kind == 'bare':
        # nothing of the gold syntax can be in the output
        ctx.check(scores['LAS'][0] == 0, 'LAS {} of a tagger that does not parse', scores['LAS'])


FORMS = ([[W('Один', lemma='один', upos='NUM', feats='A=b|B=c'), W('b', lemma='b', upos='X', xpos='y')], [W('c', lemma='c')]],
         [[M('du', [W('de', lemma='de', upos='ADP'), W('le', lemma='le', upos='DET', feats='D=d')]), W('.', upos='PUNCT', misc='SpaceAfter=No')], [W('x', xpos='x')]])


def fresh(k):
    import copy
    return [conll.chain(s) for s in copy.deepcopy(FORMS[k])]


def deviations(ctx):
    """perfect but for one attribute of one word"""
    sentences = fresh(ctx.pick(range(len(FORMS)), 'treebank'))
    rows = [gold_rows(s) for s in sentences]
    s = ctx.pick(range(len(rows)), 'sentence')
    w = ctx.pick(range(len(rows[s])), 'word')
    what = ctx.pick(('lemma', 'no lemma', 'upos', 'no upos', 'xpos', 'feats', 'no feats', 'no pos', 'head', 'deprel', 'subtype', 'no deprel'), 'attribute')
    row = rows[s][w]
    upos, xpos, feats = row[1]
    if what == 'head':
        if len(rows[s]) == 1:
            ctx.prune()
        # re-root the sentence at its last word
        for i, r in enumerate(rows[s]):
            r[2] = -1 if i + 1 == len(rows[s]) else len(rows[s]) - 1
    else:
        new = {'lemma': ('other', row[1], row[2], row[3]), 'no lemma': (None, row[1], row[2], row[3]), 'upos': (row[0], ('Z', xpos, feats), row[2], row[3]),
               'no upos': (row[0], (None, xpos, feats), row[2], row[3]), 'xpos': (row[0], (upos, 'z', feats), row[2], row[3]),
               'feats': (row[0], (upos, xpos, dict(feats, C='d')), row[2], row[3]), 'no feats': (row[0], (upos, xpos, {}), row[2], row[3]),
               'no pos': (row[0], None, row[2], row[3]), 'deprel': (row[0], row[1], row[2], 'punct'), 'subtype': (row[0], row[1], row[2], row[3] + ':sub'),
               'no deprel': (row[0], row[1], row[2], None)}
        rows[s][w] = list(new[what])
    evaluate(ctx, sentences, rows)


def annotations(ctx):
    """all annotations over two values"""
    n = 3 if ctx.thorough else 2
    sentence = conll.chain([W('w%d' % i, lemma='a', upos='A', xpos='A', feats='A=a') for i in range(n)])
    rows = []
    for i in range(n):
        pos = (ctx.pick(('A', 'B'), 'upos'), ctx.pick(('A', None), 'xpos'), {'A': ctx.pick(('a', 'b'), 'feats')})
        rows.append([ctx.pick(('a', 'b'), 'lemma'), pos, None, ctx.pick(('root', 'x') if i == 0 else ('dep', 'x'), 'relation')])
    heads = ctx.pick([h for h in gen.trees(n)], 'tree')
    for r, h in zip(rows, heads):
        r[2] = h
    evaluate(ctx, [sentence], [rows])


def segmentation(ctx):
    """taggers that return other documents for the same text"""
    sentences = [conll.chain([W('ab', lemma='ab', upos='N'), W('cd', lemma='cd', upos='N')]), conll.chain([W('ef', lemma='ef', upos='N')])]
    gold_text = conll.render(sentences)
    kind = ctx.pick(('split', 'joined', 'multi', 'missing', 'surplus', 'other text', 'swapped', 'all in one', 'empty surplus'), 'output')
    system = {'split': [conll.chain([W('a'), W('b', misc='_'), W('cd', lemma='cd', upos='N')]), sentences[1]],
              'joined': [conll.chain([W('abcd', lemma='ab', upos='N')]), sentences[1]],
              'multi': [conll.chain([M('ab', [W('a', upos='N'), W('b')]), W('cd', lemma='cd', upos='N')]), sentences[1]],
              'missing': [sentences[0]], 'surplus': sentences + [conll.chain([W('x')])],
              'other text': [sentences[0], conll.chain([W('ff')])], 'swapped': [sentences[1], sentences[0]],
              'all in one': [conll.chain([W('ab', lemma='ab', upos='N'), W('cd', lemma='cd', upos='N'), W('ef', lemma='ef', upos='N')])],
              'empty surplus': sentences}[kind]
    system_text = conll.render(system)
    documents = list(io.CoNLLUReader(1).read_from_str(system_text))
    if kind == 'empty surplus':
        documents.append(dm.Document('', [], []))

    class Fixed(object):
        def tag(self, given):
            list(given)
            return iter(documents)
        process = tag
    with gen.scratch() as root:
        path = os.path.join(root, 'gold')
        with open(path, 'w', encoding='utf8') as f:
            f.write(gold_text)
        for what, tester in (('file', evl.FileTaggerTester(path)), ('results', evl.FileTaggerTester(path, root)),
                             ('data set', evl.DataSetTaggerTester(list(io.CoNLLUReader(1).read_from_str(gold_text))))):
            if kind in ('missing', 'surplus', 'other text', 'swapped'):
                ctx.rejects('output {} evaluated with {}'.format(kind, what), run, tester, Fixed(), 'out')
            else:
                got = ctx.accepts('evaluation', run, tester, Fixed(), 'out')
                compare(ctx, got, gold_text, system_text, False, what)
    ctx.state(kind)


def partial(ctx):
    """gold data with every combination of present and absent annotation: the tagger sees none of it"""
    n = ctx.pick((1, 2), 'words')
    multi = n == 2 and ctx.flag('multi-word token')
    tree = ctx.flag('heads')
    rows = []
    for i in range(n):
        lemma = ctx.pick(('l', None), 'lemma')
        pos = ctx.pick((('N', 'x', {'A': 'b'}), (None, None, {}), (None, None, {'A': 'b'}), ('N', None, {}), None), 'tag')
        rows.append([lemma, pos, i - 1 if tree else None, ('root', 'dep')[i] if tree else None])
    if multi:
        tokens = [dm.Token(0, 1, text_replacement='x', sub_index=0), dm.Token(0, 1, text_replacement='y', sub_index=1)]
    else:
        tokens = [dm.Token(2 * i, 2 * i + 1) for i in range(n)]
    blank = dm.Document('a b'[:1 if multi else 2 * n - 1], tokens)
    gold = annotated(blank, rows)
    want = gen.doc_view(gold)
    for what in ('perfect', 'none'):
        seen = []

        def tag(documents):
            for d in documents:
                seen.extend((t.lemma, t.pos, t.has_head, t.head_index, t.deprel) for t in d.tokens)
                yield annotated(d, rows) if what == 'perfect' else d
        tagger = Tagger(None)
        tagger.tag = tag
        scores = ctx.accepts('evaluation', run, evl.DataSetTaggerTester([gold]), tagger, 'x')
        ctx.equal(seen, [(None, None, False, None, None)] * n, 'annotation given to the tagger')
        have = lambda k: sum(1 for r in rows if r[1] and r[1][k])
        right = {'Lemmas': sum(1 for r in rows if r[0]), 'UPOS': have(0), 'XPOS': have(1), 'Feats': have(2), 'AllTags': sum(1 for r in rows if r[1] and any(r[1]))}
        for name, count in right.items():
            share = 1. if what == 'perfect' else 1 - count / n
            ctx.check(udref.close(udref.view(scores[name]), (share,) * 4), '{} of a {} tagger: {}', name, what, udref.view(scores[name]))
        ctx.equal(gen.doc_view(gold), want, 'gold document')
    ctx.state(n, multi, rows)


KINDS = ('perfect', 'bare', 'half', 'wrong', 'same size')


def histories(ctx):
    """testers are reusable: the scores of an evaluation do not depend on what was evaluated before"""
    sentences = fresh(ctx.pick(range(len(FORMS)), 'treebank'))
    gold = [gold_rows(s) for s in sentences]
    gold_text = conll.render(sentences)
    where = ctx.pick(('file', 'results', 'same file', 'data set', 'generator set'), 'tester')
    count = ctx.pick(range(2, 5 if ctx.thorough else 4), 'evaluations')
    with gen.scratch() as root:
        path = os.path.join(root, 'gold')
        with open(path, 'w', encoding='utf8') as f:
            f.write(gold_text)

        class Set(object):
            def __iter__(self):
                return io.CoNLLUReader(1).read_from_str(gold_text)
        tester = {'file': lambda: evl.FileTaggerTester(path), 'results': lambda: evl.FileTaggerTester(path, root),
                  'same file': lambda: evl.FileTaggerTester(path, root),
                  'data set': lambda: evl.DataSetTaggerTester(list(io.CoNLLUReader(1).read_from_str(gold_text))),
                  'generator set': lambda: evl.DataSetTaggerTester(Set())}[where]()
        for k in range(count):
            kind = ctx.pick(KINDS, 'tagger')
            rows = [[list(r) for r in s] for s in gold]
            if kind == 'bare':
                rows = [[[None, None, None, None] for _ in s] for s in rows]
            elif kind == 'half':
                rows = [[r if i % 2 else ['?', None, r[2], r[3]] for i, r in enumerate(s)] for s in rows]
            elif kind == 'wrong':
                rows = [[['?', ('?', '?', {'?': '?'}), r[2], 'bad'] for r in s] for s in rows]
            elif kind == 'same size':
                rows = [[[r[0] and r[0][::-1], r[1], r[2], r[3]] for r in s] for s in rows]
            tagger = Tagger(lambda d, i: annotated(d, rows[i]))
            got = ctx.accepts('evaluation', run, tester, tagger, 'out' if where == 'same file' else 'dir%d/out' % k)
            compare(ctx, got, gold_text, expected_text(sentences, rows), kind == 'bare', '{}, evaluation {}'.format(where, k))
            ctx.equal([(v[0], v[1], tuple(r[:9] for r in v[2])) for v in tagger.inputs], bare_view(sentences), 'documents given to the tagger')
        if where == 'results':
            ctx.equal(sorted(os.listdir(root)), ['dir%d' % k for k in range(count)] + ['gold'], 'results directories')
    ctx.state(where, count)


def rewritten(ctx):
    """the gold data are those of the file at the time of the evaluation"""
    banks = [fresh(0), fresh(1), fresh(0)[:1]]
    same = ctx.flag('one tester')
    results = ctx.pick((None, 'new', 'same'), 'results')
    with gen.scratch() as root:
        path = os.path.join(root, 'gold')
        tester = None
        for k in range(3):
            sentences = banks[ctx.pick(range(len(banks)), 'treebank')]
            with open(path, 'w', encoding='utf8', newline='') as f:
                f.write(conll.render(sentences))
            os.utime(path, (10 ** 9, 10 ** 9))
            rows = [gold_rows(s) for s in sentences]
            kind = ctx.pick(('perfect', 'wrong'), 'tagger')
            if kind == 'wrong':
                rows = [[['?', r[1], r[2], 'bad'] for r in s] for s in rows]
            tester = tester if tester and same else evl.FileTaggerTester(path, results and os.path.join(root, results))
            tagger = Tagger(lambda d, i: annotated(d, rows[i]))
            got = ctx.accepts('evaluation', run, tester, tagger, 'out' if results == 'same' else 'out%d' % k)
            compare(ctx, got, conll.render(sentences), expected_text(sentences, rows), False, 'evaluation {}'.format(k))
            ctx.equal([(v[0], v[1], tuple(r[:9] for r in v[2])) for v in tagger.inputs], bare_view(sentences), 'documents given to the tagger')
    ctx.state(same, results)


def scale(ctx):
    n, length = ctx.pick(((1, 150), (60, 12), (200, 1)), 'size')
    wrong = ctx.pick((0, 1, n * length - 1, n * length // 2), 'wrong word')
    sentences = [conll.chain([M('mw', [W('mm', lemma='m', upos='A'), W('ww', lemma='w', upos='B')]) if j % 5 == 4 and i % 10 == 0 else
                              W('Слово%d' % j, lemma='слово%d' % i, upos='N', xpos=str(i), feats='A=%d' % j, misc='SpaceAfter=No' if j % 7 == 0 else '_')
                              for j in range(length)]) for i in range(n)]
    rows = [gold_rows(s) for s in sentences]
    flat = list(itertools.chain(*rows))
    flat[min(wrong, len(flat) - 1)][0] = '?'
    evaluate(ctx, sentences, rows)


SCENARIOS = {'treebanks': treebanks, 'deviations': deviations, 'annotations': annotations, 'partial gold': partial, 'segmentation': segmentation, 'histories': histories, 'rewritten gold': rewritten,
             'scale': scale}
