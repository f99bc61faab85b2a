"""C26 UDPipe conversion transfers every annotation to and from the right word"""
import itertools

from mc import docs, gen
from mc.docs import Item, Word

BOUNDS = {
    'quick': 'inputs: all documents of <=3 surface tokens (4 kinds incl. multi-word, every sentence split, extras) and all annotations of one token '
             '(3 lemmas x 4 UPOS/XPOS x 6 feature sets); answers: every combination of 2 lemmas x 2 UPOS x 2 XPOS x 4 feature strings x relation per word, '
             'all head vectors of <=3 words over {missing, root, words}; three processors x options; streams of <=3 documents; all pairs of 7 sentences of the same text; failing models; 60-word sentences',
    'thorough': 'documents of <=4 surface tokens, head vectors of 4 words',
}


def load(thorough):
    global dm, up, ud
    import babylondigger.datamodel as dm
    import ufal.udpipe as ud
    import babylondigger.wrappers.udpipe1_2 as up


class Model(object):
    """stand-in for ufal.udpipe.Model: records what it is given and writes enumerated answers"""

    def __init__(self, tag=None, parse=None):
        self.calls = []
        self._tag, self._parse = tag, parse

    def _record(self, name, sentence, options):
        words = [sentence.words[i] for i in range(1, len(sentence.words))]     # (iteration would copy the words)
        self.calls.append((name, options, [(w.form, w.lemma, w.upostag, w.xpostag, w.feats) for w in words]))
        return words

    def tag(self, sentence, options):
        words = self._record('tag', sentence, options)
        if self._tag:
            self._tag(words)

    def parse(self, sentence, options):
        words = self._record('parse', sentence, options)
        if self._parse:
            self._parse(words)


def feats_string(feats):
    return '|'.join('%s=%s' % i for i in sorted(feats.items(), key=lambda i: (i[0].lower(), i[0])))


def given(token):
    pos = token.pos
    return (token.text, token.lemma or '', (pos.upos or '') if pos else '', (pos.xpos or '') if pos else '', feats_string(pos.feats) if pos else '')


PROCESSORS = {'UDPipeTagger': ('tag',), 'UDPipeParser': ('parse',), 'UDPipeTaggerParser': ('tag', 'parse')}


def run(ctx, processor, model, options, documents):
    cls = getattr(up, processor)
    p = ctx.accepts('creating', cls, model, options) if options is not None else ctx.accepts('creating', cls, model)
    return p, ctx.accepts('processing', lambda: list(p.process(iter(documents))))


def preserved(ctx, before, after):
    ctx.equal(after[:2], before[:2], 'text and sentences')
    ctx.equal([(t[:5], t[9]) for t in after[2]], [(t[:5], t[9]) for t in before[2]], 'spans, forms and extras')


def documents(ctx):
    """what the model is given, and that an idle model changes nothing it was told"""
    processor = ctx.pick(tuple(PROCESSORS), 'processor')
    options = ctx.pick((None, '', 'opt=1'), 'options')
    sentences = docs.pick_sentences(ctx, 4 if ctx.thorough else 3, syntax=False)
    doc = docs.build(dm, sentences, ctx.pick(('', ' '), 'lead') if len(sentences) == 1 else '')
    if ctx.flag('extras'):
        doc = docs.with_extras(dm, doc)
    before = gen.doc_view(doc)
    model = Model()
    _, results = run(ctx, processor, model, options, [doc])
    want = []
    for s in doc.sentences:
        row = [given(t) for t in s]
        for name in PROCESSORS[processor]:
            want.append((name, options or '', row))
    ctx.equal(model.calls, want, 'calls of the model')
    ctx.equal(len(results), 1, 'documents')
    after = gen.doc_view(results[0])
    preserved(ctx, before, after)
    for t, o in zip(results[0].tokens, doc.tokens):
        ctx.equal(t.lemma, o.lemma or None, 'lemma')
        ctx.equal(gen.pos_view(t.pos), gen.pos_view(o.pos) if o.pos and (o.pos.upos or o.pos.xpos or o.pos.feats) else None, 'tag')
        ctx.check(not t.has_head and t.deprel is None, 'syntax of {}', t)
    ctx.equal(gen.doc_view(doc), before, 'input document')
    ctx.state(processor, options, after)


def annotations(ctx):
    """every annotation of one token next to a plain one"""
    lemma = ctx.pick((None, 'lem', '\u00e9 x'), 'lemma')
    tag = ctx.pick((None, 'pos'), 'tag')
    pos = None
    if tag:
        pos = dm.Pos(ctx.pick((None, 'NOUN'), 'upos'), ctx.pick((None, 'nn'), 'xpos'),
                     ctx.pick(({}, {'A': 'b'}, {'Number': 'Sing', 'NumType': 'Card'}, {'b': '1', 'A': '2', 'C': '3'}, {'Number': 'x', 'Number[psor]': 'y'},
                               {'Case2': 'a', 'Case': 'b,c'}), 'features'))
    where = ctx.pick((0, 1, 2), 'position')
    multi = ctx.flag('multi-word')
    tokens = []
    for i in range(3):
        ann = dict(pos=pos, lemma=lemma) if i == where else {}
        if multi and i < 2:
            tokens.append(dm.Token(0, 2, sub_index=i, text_replacement='r%d' % i, **ann))
        else:
            tokens.append(dm.Token(3 * i, 3 * i + 2, **ann))
    doc = dm.Document('aa bb cc', tokens, [dm.Sentence(0, 2), dm.Sentence(2, 3)])
    model = Model()
    _, results = run(ctx, 'UDPipeParser', model, '', [doc])
    ctx.equal([c[2] for c in model.calls], [[given(t) for t in s] for s in doc.sentences], 'words given to the model')
    ctx.state(model.calls)
    t = list(results[0].tokens)[where]
    ctx.equal(t.lemma, lemma, 'lemma')
    if pos and (pos.upos or pos.xpos or pos.feats):
        ctx.equal(gen.pos_view(t.pos), gen.pos_view(pos), 'tag')


def base(shape):
    sentences, n = [], 0
    for k in shape:
        s = []
        for _ in range(k):
            s.append(Item('w%d' % n))
            n += 1
        sentences.append(s)
    return docs.build(dm, sentences)


FEATS = (('', ()), ('A=b', (('A', 'b'),)), ('A=b|Number[psor]=c,d', (('A', 'b'), ('Number[psor]', 'c,d'))), ('z=1|B=2', (('B', '2'), ('z', '1'))))


def answers(ctx):
    """every answer for each of two words"""
    processor = ctx.pick(('UDPipeTagger', 'UDPipeTaggerParser'), 'processor')
    shape = ctx.pick(((2,), (1, 1)), 'sentences')
    chosen = []
    for i in range(2):
        # the second word varies fully with a fixed first one and the other way round
        chosen.append((ctx.pick(('', 'lem%d' % i), 'lemma'), ctx.pick(('', 'U%d' % i), 'upos'), ctx.pick(('', 'x%d' % i), 'xpos'),
                       ctx.pick(FEATS if i == 0 else FEATS[::2], 'features'), ctx.pick(('', 'dep:x'), 'relation') if i == 0 else 'r'))
    index = [0]

    def answer(words):
        for w in words:
            lemma, u, x, f, d = chosen[index[0]]
            index[0] += 1
            w.lemma, w.upostag, w.xpostag, w.feats, w.deprel, w.head = lemma, u, x, f[0], d, 0
    old = ctx.flag('annotated input')
    doc = base(shape)
    if old:
        doc = dm.Document.from_document(doc, [dm.Token.with_morphology(t, dm.Pos('OLD', 'old', {'O': 'o'}), 'oldlemma') for t in doc.tokens])
    _, results = run(ctx, processor, Model(tag=answer), '', [doc])
    tokens = list(results[0].tokens)
    for t, (lemma, u, x, f, d) in zip(tokens, chosen):
        ctx.equal(t.lemma, lemma or None, 'lemma')
        pos = (u or None, x or None, f[1]) if u or x or f[1] else None
        ctx.equal(gen.pos_view(t.pos), pos, 'tag from {!r}'.format((u, x, f[0])))
        ctx.equal(t.deprel, d or None, 'relation')
        ctx.equal(t.head_index, -1, 'head')
    ctx.equal(len(tokens), 2, 'tokens')
    ctx.state(gen.doc_view(results[0]))


def heads(ctx):
    """every head vector, in a first or a later sentence"""
    n = ctx.pick((1, 2, 3, 4) if ctx.thorough else (1, 2, 3), 'words')
    vector = [ctx.pick(range(-1, n + 1), 'head') for _ in range(n)]
    before = ctx.pick((0, 2), 'words before')
    processor = ctx.pick(('UDPipeParser', 'UDPipeTaggerParser'), 'processor')
    tree = all(v >= 0 for v in vector) and gen.is_tree([v - 1 for v in vector])
    done = []

    def answer(words):
        if before and not done:
            done.append(1)
            words[0].head, words[0].deprel, words[1].head, words[1].deprel = 2, 'a', 0, 'root'
            return
        for i, (w, v) in enumerate(zip(words, vector)):
            w.head = v
            w.deprel = 'r%d' % i
    doc = base((before, n) if before else (n,))
    old = doc
    if ctx.flag('old syntax'):
        old = dm.Document.from_document(doc, [dm.Token.with_syntax(t, 'old', head_sentence_index=i - 1) for s in doc.sentences for i, t in enumerate(s)])
    _, results = run(ctx, processor, Model(parse=answer), '', [old])
    tokens = list(results[0].tokens)
    if before:
        ctx.equal([(t.head_index, t.deprel) for t in tokens[:2]], [(1, 'a'), (-1, 'root')], 'first sentence')
    for i, (t, v) in enumerate(zip(tokens[before:], vector)):
        ctx.equal(t.head_index, None if v == -1 else -1 if v == 0 else before + v - 1, 'head of word {} from {}'.format(i, vector))
        if v != -1:
            ctx.equal(t.deprel, 'r%d' % i, 'relation')
    ctx.state(vector, before, tree)


def streams(ctx):
    """lazy, in order; processor entry points; sequences of calls"""
    processor = ctx.pick(tuple(PROCESSORS), 'processor')
    kinds = [ctx.pick(((), (1,), (2, 1)), 'document') for _ in range(ctx.pick((0, 1, 2, 3), 'documents'))]
    counter = [0]

    def answer(words):
        for w in words:
            counter[0] += 1
            w.lemma = 'l%d' % counter[0]
    model = Model(answer, answer)
    cls = getattr(up, processor)
    p = cls(model, 'o')
    method = ctx.pick(['process'] + [m for m in ('tag', 'parse') if m in PROCESSORS[processor] and hasattr(p, m)], 'method')
    sources = [base(k) for k in kinds]
    results = []
    for i, result in enumerate(getattr(p, method)(iter(sources))):
        results.append(result)
    ctx.equal(len(results), len(sources), 'documents')
    expected = 0
    for s, r in zip(sources, results):
        preserved(ctx, gen.doc_view(s), gen.doc_view(r))
        for sentence in r.sentences:
            n = sentence.tokens_count
            expected += n * (len(PROCESSORS[processor]) - 1)     # the second function answers last
            for t in sentence:
                expected += 1
                ctx.equal(t.lemma, 'l%d' % expected, 'lemma')
    ctx.equal([c[0] for c in model.calls], [name for r in results for _ in r.sentences for name in PROCESSORS[processor]], 'functions called')
    ctx.check(all(c[1] == 'o' for c in model.calls), 'options {}', model.calls)
    ctx.state(processor, kinds, method)


ALIKE = (((0, 2, None),), ((0, 2, 'x'),), ((0, 2, 'y'),), ((0, 1, None), (1, 2, None)), ((0, 1, 'x'), (1, 2, None)), ((0, 2, None, 'a'), (0, 2, None, 'a')), ((0, 2, None, 'a'), (0, 2, 'x', 'b')))


def alike(ctx):
    """sentences of the same text that differ in words or annotation, in one document or several"""
    processor = ctx.pick(tuple(PROCESSORS), 'processor')
    kinds = [ctx.pick(ALIKE, 'sentence') for _ in range(3 if ctx.thorough else 2)]
    together = ctx.flag('one document')
    sources, start = [], 0
    for group in [kinds] if together else [[k] for k in kinds]:
        tokens, ranges = [], []
        for i, kind in enumerate(group):
            for j, (a, b, lemma, *form) in enumerate(kind):
                tokens.append(dm.Token(3 * i + a, 3 * i + b, sub_index=j if form else 0, text_replacement=form[0] if form else None, lemma=lemma))
            ranges.append(dm.Sentence(len(tokens) - len(kind), len(tokens)))
        sources.append(dm.Document(' '.join(['aa'] * len(group)), tokens, ranges))
    counter = [0]

    def answer(words):
        for w in words:
            counter[0] += 1
            w.xpostag, w.head, w.deprel = 'x%d' % counter[0], 0, 'r%d' % counter[0]
    model = Model(answer, answer)
    _, results = run(ctx, processor, model, '', sources)
    want, number = [], 0
    for s, r in zip(sources, results):
        preserved(ctx, gen.doc_view(s), gen.doc_view(r))
        for a, b in zip(s.sentences, r.sentences):
            rows = [given(t) for t in a]
            for k, name in enumerate(PROCESSORS[processor]):
                want.append((name, rows if k == 0 else [x[:3] + ('x%d' % (number + i + 1), '') for i, x in enumerate(rows)]))
                number += len(rows) if k else 0
            for i, (t, o) in enumerate(zip(b, a)):
                ctx.equal((t.lemma, t.pos.xpos, t.deprel), (o.lemma, 'x%d' % (number + i + 1), 'r%d' % (number + i + 1)), 'word {} of {}'.format(i, kinds))
            number += len(rows)
    ctx.equal([(c[0], c[2]) for c in model.calls], want, 'words given to the model')
    ctx.state(processor, kinds, together)


def failures(ctx):
    """an error of the model reaches the caller and leaves the processor usable"""
    processor = ctx.pick(tuple(PROCESSORS), 'processor')
    at = ctx.pick(range(4), 'failing call')
    calls = [0]

    def answer(words):
        calls[0] += 1
        if calls[0] == at + 1:
            raise RuntimeError('model')
        for w in words:
            w.lemma = 'ok'
    model = Model(answer, answer)
    p = getattr(up, processor)(model)
    doc = base((1, 1))
    failing = at < 2 * len(PROCESSORS[processor])
    if failing:
        ctx.rejects('a failing model', lambda: list(p.process(iter([doc]))), exc=RuntimeError)
    else:
        ctx.accepts('processing', lambda: list(p.process(iter([doc]))))
        calls[0] = 100
    again = ctx.accepts('processing afterwards', lambda: list(p.process(iter([doc]))))
    ctx.equal([t.lemma for t in again[0].tokens], ['ok', 'ok'], 'lemmas afterwards')
    ctx.state(processor, at)


def scale(ctx):
    n = ctx.pick((9, 10, 11, 60), 'words')
    sentences = ctx.pick((1, 12), 'sentences')
    processor = ctx.pick(tuple(PROCESSORS), 'processor')

    def tag(words):
        for i, w in enumerate(words):
            w.lemma, w.upostag, w.feats = 'l%d' % i, 'U%d' % i, 'A=%d|B=%d' % (i, i + 1)

    def parse(words):
        for i, w in enumerate(words):
            w.head, w.deprel = (0 if i == len(words) // 2 else len(words) // 2 + 1), 'd%d' % i
    doc = base((n,) * sentences)
    _, results = run(ctx, processor, Model(tag, parse), '', [doc])
    for k, s in enumerate(results[0].sentences):
        for i, t in enumerate(s):
            if 'tag' in PROCESSORS[processor]:
                ctx.equal((t.lemma, gen.pos_view(t.pos)), ('l%d' % i, ('U%d' % i, None, (('A', str(i)), ('B', str(i + 1))))), 'morphology')
            if 'parse' in PROCESSORS[processor]:
                ctx.equal((t.head_index, t.deprel), (-1 if i == n // 2 else n // 2, 'd%d' % i), 'syntax of word {}'.format(i))
    preserved(ctx, gen.doc_view(doc), gen.doc_view(results[0]))
    ctx.state(n, sentences, processor)


SCENARIOS = {'documents': documents, 'annotations': annotations, 'answers': answers, 'heads': heads, 'streams': streams, 'alike': alike, 'failures': failures, 'scale': scale}
