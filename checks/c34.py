"""C34 The external parser wrapper returns predictions on the tokens they belong to"""
import itertools

from mc import docs, gen, tdozat
from mc.docs import Item, Word

BOUNDS = {
    'quick': 'all document lists of <=4 sentences in <=3 documents (empty documents included) x every order and grouping of the sentences into batches; all '
             'predictions over 3 tags, 3 heads, lemmas and relations for 2 words; parser and tagger with every combination of extra vectors; histories of '
             '<=4 steps over calls, failing batches, failing document sources, entering, leaving, failing to enter and use outside of the context; wrong '
             'network classes and unknown extra fields; 40 sentences of up to 30 words in 4 batch orders',
    'thorough': '<=5 sentences, histories of <=5 steps',
}
ASSUMPTIONS = ['the external parser package and TensorFlow are stand-ins written from the way the wrapper uses them; its data set is assumed to ignore '
               'sentences without tokens (it is not available here)']


def load(thorough):
    global wrapper, control, tf, dm, np
    wrapper, control, tf = tdozat.load()
    import numpy as np
    import babylondigger.datamodel as dm


def groupings(items):
    """all ways to cut a sequence into consecutive non-empty groups"""
    items = list(items)
    for split in gen.splits(len(items)):
        yield [items[a:b] for a, b in split]


def vector(name, i, j):
    return [hash_of(name), i, j]


def hash_of(name):
    return sum(ord(c) * (k + 1) for k, c in enumerate(name)) % 1000


def default_prediction(i, j, length, field):
    """string that the network predicts for word j (0-based) of sentence i"""
    return {'lemma': 'l%d.%d' % (i, j), 'upos': 'U%d.%d' % (i, j), 'xpos': 'x%d' % j if i % 2 else '_', 'ufeats': 'A=%d|B=%d' % (i, j) if j % 2 == 0 else '_',
            'dephead': str((j + 2 if j + 1 < length else 0) if i % 2 else j), 'deprel': 'r%d.%d' % (i, j), 'semrel': '_', 'misc': '_', 'form': 'FORM'}[field]


def answer(predict):
    def run(batch, probabilities, extras):
        width = max(len(lines) for _, lines in batch) + 1
        result = {}
        for field in control.outputs:
            result[field] = np.array([['ROOT'] + [predict(i, j, len(lines), field) for j in range(len(lines))] + ['PAD'] * (width - len(lines) - 1)
                                      for i, lines in batch], dtype=object)
        vectors = {}
        for name, tensor in extras.items():
            vectors[name] = np.array([[vector(tensor, i, j - 1) for j in range(width)] for i, lines in batch])
        return result, vectors
    return run


def expected_lines(sentence):
    """rows of a sentence as the data set must see them"""
    return [line[:6] + (['_', '_'] if line[6] == '*' else line[6:8]) + line[8:9] for line in docs.expected_lines([sentence]) if line and '-' not in line[0]]


def fed_view(rows):
    return [[l[:9] for l in s] for s in rows]


def expected_token(view, number, j, length, predict, inputs, outputs, row, extras):
    """doc_view row after processing; view: before; row: input columns"""
    def column(field):
        if field in outputs:
            return predict(number, j, length, field)
        if field in inputs:
            return row[tdozat.FIELDS.index(field)]
        return '_'

    def value(field):
        v = column(field)
        return None if v == '_' else v
    feats = column('ufeats')
    pos = (value('upos'), value('xpos'), tuple(sorted(tuple(f.split('=')) for f in feats.split('|'))) if feats != '_' else ())
    head = value('dephead')
    merged = dict(view[9])
    merged.update((name, repr(np.array(vector(tensor, number, j)))) for name, tensor in extras.items())
    return view[:5] + (value('lemma'), pos, head, value('deprel'), tuple(sorted(merged.items())))


def check(ctx, sources, abstract, results, predict, extras, inputs, outputs):
    results = list(results)
    ctx.equal(len(results), len(sources), 'documents')
    number = 0
    for source, sentences, result in zip(sources, abstract, results):
        before, after = gen.doc_view(source), gen.doc_view(result)
        ctx.equal(after[:2], before[:2], 'text and sentences')
        ctx.equal(len(after[2]), len(before[2]), 'tokens')
        k = 0
        for sentence in sentences:
            rows = expected_lines(sentence)
            first = k
            for j, row in enumerate(rows):
                want = expected_token(before[2][k], number, j, len(rows), predict, inputs, outputs, row, extras)
                head = want[7]
                if head is not None:
                    head = -1 if int(head) == 0 else first + int(head) - 1
                deprel = want[8] if head is not None else None
                ctx.equal(after[2][k], want[:7] + (head, deprel) + want[9:], 'token {} of sentence {}'.format(j, number))
                k += 1
            number += 1


def make(ctx, kind, extras=(), **options):
    """wrapper and the names of its extra vectors"""
    if kind == 'parser':
        control.reset(network='ParserNetwork', outputs=('dephead', 'deprel'), **options)
        arguments = {'parser_recur_layer': True} if 'parser_recur_layer' in extras else {}
        tensors = {'parser_recur_layer': 'T:parser'} if arguments else {}
    else:
        control.reset(network='TaggerNetwork', inputs=('form',), outputs=('lemma', 'upos', 'xpos', 'ufeats'), **options)
        arguments = {name: True for name in extras if name != 'deep' and name != 'parser_recur_layer'}
        tensors = {name: {'tagger_recur_layer': 'T:tagger', 'upos_hidden': 'T:upos', 'xpos_hidden': 'T:xpos'}[name] for name in arguments}
    if 'deep' in extras:
        arguments['extra_fields'] = {'deep': ('deptree', 'other', 'deep')}
        tensors['deep'] = 'T:deep'
    control.batches = lambda n: [list(range(n))] if n else []
    control.run = answer(default_prediction)
    cls = wrapper.TDozatParser if kind == 'parser' else wrapper.TDozatTagger
    return ctx.accepts('creating the wrapper', cls, 'path', **arguments), tensors


def sentence(i, length=None, syntax=False):
    n = length or i % 2 + 1
    items = []
    for j in range(n):
        if i % 3 == 2 and j == 0:
            items.append(Item('mw%d' % i, [Word('a%d' % i, 'la', ('UP', None, {})), Word('b%d' % i)]))
        elif (i + j) % 2:
            items.append(Item('w%d.%d' % (i, j), plain=Word('', 'old', ('OLD', 'old', {'Old': 'x'})), after='' if j else ' '))
        else:
            items.append(Item('w%d.%d' % (i, j)))
    return docs.chain(items) if syntax else items


def documents(sizes, syntax=False, extras=True):
    abstract, number = [], 0
    for n in sizes:
        abstract.append([sentence(number + k, syntax=syntax and k % 2 == 0) for k in range(n)])
        number += n
    sources = [docs.build(dm, s) for s in abstract]
    if extras:
        sources = [docs.with_extras(dm, d, 'm%d' % k) for k, d in enumerate(sources)]
    return abstract, sources


def process(ctx, processor, kind, sources, method='process'):
    return ctx.accepts('processing', lambda: list(getattr(processor, method)(iter(sources))))


def orders(ctx):
    most = 5 if ctx.thorough else 4
    sizes = ctx.pick_seq(range(most + 1), 0, 3, 'sentences of a document')
    if sum(sizes) > most:
        ctx.prune()
    kind = ctx.pick(('parser', 'tagger'), 'wrapper')
    abstract, sources = documents(sizes, syntax=ctx.flag('syntax') if sum(sizes) < 4 else True)
    order = ctx.pick_perm(range(sum(sizes)), 'order')
    batches = ctx.pick(list(groupings(order)), 'batches') if order else []
    extras = ('parser_recur_layer', 'tagger_recur_layer') if len(order) % 2 else ()
    processor, tensors = make(ctx, kind, extras)
    control.batches = lambda n: batches
    views = [gen.doc_view(d) for d in sources]
    with processor:
        results = process(ctx, processor, kind, sources)
    check(ctx, sources, abstract, results, default_prediction, tensors, control.inputs, control.outputs)
    ctx.equal([gen.doc_view(d) for d in sources], views, 'input documents')
    ctx.equal(fed_view(control.fed[0]), [expected_lines(s) for d in abstract for s in d], 'sentences given to the parser')
    ctx.state(sizes, kind, batches)


def predictions(ctx):
    kind = ctx.pick(('parser', 'tagger'), 'wrapper')
    words = [[Item('a')], [Item('b'), Item('m', [Word('c'), Word('d')])]]
    abstract = [words]
    source = docs.build(dm, words)
    table = {}
    target = ctx.pick(((0, 0), (1, 0), (1, 1), (1, 2)), 'word')
    if kind == 'parser':
        table['dephead'] = ctx.pick(('0', '1', '2', '3', '_')[:2 if target[0] == 0 else 4], 'head')
        table['deprel'] = ctx.pick(('root', 'nsubj:pass', '_'), 'relation')
    else:
        table['upos'] = ctx.pick(('NOUN', '_', 'X'), 'upos')
        table['xpos'] = ctx.pick(('NN', '_'), 'xpos')
        table['ufeats'] = ctx.pick(('_', 'A=b', 'B=c|A=b,c'), 'feats')
        table['lemma'] = ctx.pick(('l', '_', 'Имя'), 'lemma')

    def predict(i, j, length, field):
        return table[field] if (i, j) == target and field in table else default_prediction(i, j, length, field)
    processor, tensors = make(ctx, kind)
    control.run = answer(predict)
    with processor:
        results = process(ctx, processor, kind, [source], 'parse' if kind == 'parser' else 'tag')
    check(ctx, [source], abstract, results, predict, tensors, control.inputs, control.outputs)
    ctx.state(kind, target, sorted(table.items()))


def extras(ctx):
    kind = ctx.pick(('parser', 'tagger'), 'wrapper')
    names = ctx.pick_subset(('parser_recur_layer', 'deep') if kind == 'parser' else ('tagger_recur_layer', 'upos_hidden', 'xpos_hidden', 'deep'), 'extra vector')
    abstract, sources = documents(ctx.pick(([2], [1, 2], [3]), 'sizes'), extras=ctx.flag('extras'))
    processor, tensors = make(ctx, kind, names)
    total = sum(len(d) for d in abstract)
    control.batches = lambda n: [[i] for i in reversed(range(n))] if ctx.thorough else [list(reversed(range(n)))]
    if ctx.flag('overwritten'):
        # vectors from before are replaced, everything else is kept
        sources = [dm.Document.from_document(d, [dm.Token.update_extras(t, {'deep': 'old', 'kept': 1}) for t in d.tokens]) for d in sources]
    with processor:
        results = process(ctx, processor, kind, sources)
    check(ctx, sources, abstract, results, default_prediction, tensors, control.inputs, control.outputs)
    ctx.state(kind, names, total)


def numbered(base):
    def predict(i, j, length, field):
        value = default_prediction(i, j, length, field)
        return value if field in ('dephead', 'ufeats') or value == '_' else 'c%d.%s' % (base, value)
    return predict


def histories(ctx):
    kind = ctx.pick(('parser', 'tagger'), 'wrapper')
    processor, tensors = make(ctx, kind, ('parser_recur_layer', 'tagger_recur_layer'))
    inside = False
    log = []
    for step in range(ctx.pick(range(1, 6 if ctx.thorough else 5), 'steps')):
        what = ctx.pick(('call', 'failing call', 'failing source', 'leave', 'leave by error') if inside else ('enter', 'call', 'failing enter'), 'step')
        log.append(what)
        if what == 'enter':
            ctx.accepts('entering', processor.__enter__)
            inside = True
        elif what == 'failing enter':
            control.fail_restore = True
            ctx.rejects('entering', processor.__enter__, exc=ZeroDivisionError)
            control.fail_restore = False
            ctx.check(all(s.closed for s in control.sessions), 'a session was left open when entering failed')
        elif what.startswith('leave'):
            details = (None, None, None) if what == 'leave' else (ValueError, ValueError('x'), None)
            ctx.check(not ctx.accepts('leaving', processor.__exit__, *details), 'leaving suppresses errors')
            inside = False
            ctx.check(all(s.closed for s in control.sessions), 'a session was left open')
        elif not inside:
            _, sources = documents([1])
            ctx.rejects('use outside of the context', lambda: list(processor.process(iter(sources))), exc=RuntimeError)
        else:
            abstract, sources = documents(([2], [1, 1], [3], [2, 1])[step % 4])
            predict = numbered(step)
            control.run = answer(predict)
            if what == 'call':
                control.batches = lambda n: [[i] for i in reversed(range(n))]
                results = process(ctx, processor, kind, sources)
                check(ctx, sources, abstract, results, predict, tensors, control.inputs, control.outputs)
            elif what == 'failing call':
                control.batches = lambda n: [[i] for i in range(n)]
                control.fail_batch = 1
                ctx.rejects('call with a failing batch', lambda: list(processor.process(iter(sources))), exc=ZeroDivisionError)
                control.fail_batch = None
            else:
                def feed():
                    yield sources[0]
                    raise ZeroDivisionError('source failed')
                ctx.rejects('call with a failing source', lambda: list(processor.process(feed())), exc=ZeroDivisionError)
    if inside:
        processor.__exit__(None, None, None)
    ctx.check(all(s.closed for s in control.sessions), 'a session was left open')
    ctx.state(kind, log)


def configurations(ctx):
    kind = ctx.pick(('parser', 'tagger'), 'wrapper')
    network = ctx.pick(('ParserNetwork', 'TaggerNetwork', 'GraphParserNetwork'), 'network class')
    field = ctx.pick((None, ('deptree', 'other', 'deep'), ('deptree', 'nothing'), ('nothing',), ('deptree', 'other', 'deep', 'deeper')), 'extra field')
    control.reset(network=network)
    control.batches = lambda n: [list(range(n))]
    control.run = answer(default_prediction)
    cls = wrapper.TDozatParser if kind == 'parser' else wrapper.TDozatTagger
    arguments = {'extra_fields': {'f': field}} if field else {}
    good = network == ('ParserNetwork' if kind == 'parser' else 'TaggerNetwork') and (field is None or field == ('deptree', 'other', 'deep'))
    if good:
        processor = ctx.accepts('creating the wrapper', cls, 'path', **arguments)
        _, sources = documents([1])
        with processor:
            process(ctx, processor, kind, sources)
    else:
        ctx.rejects('{} for {} with {}'.format(network, kind, field), cls, 'path', exc=ValueError, **arguments)
    ctx.state(kind, network, field)


def scale(ctx):
    kind = ctx.pick(('parser', 'tagger'), 'wrapper')
    sizes = ctx.pick(([40], [1] * 40, [0, 20, 0, 20]), 'documents')
    abstract, number = [], 0
    for n in sizes:
        abstract.append([sentence(number + k, 1 + (number + k) * 7 % 30, syntax=True) for k in range(n)])
        number += n
    sources = [docs.build(dm, s) for s in abstract]
    lengths = [len(docs.sentence_words(s)) for d in abstract for s in d]
    by_length = sorted(range(40), key=lambda i: lengths[i])
    order = ctx.pick((list(range(40)), by_length, by_length[::-1], [i * 7 % 40 for i in range(40)]), 'order')
    width = ctx.pick((1, 7, 40), 'batch size')
    processor, tensors = make(ctx, kind, ('parser_recur_layer', 'upos_hidden'))
    control.batches = lambda n: [order[i:i + width] for i in range(0, n, width)]
    with processor:
        results = process(ctx, processor, kind, sources)
    check(ctx, sources, abstract, results, default_prediction, tensors, control.inputs, control.outputs)
    ctx.state(kind, sizes, order, width)


SCENARIOS = {'orders': orders, 'predictions': predictions, 'extras': extras, 'histories': histories, 'configurations': configurations, 'scale': scale}
