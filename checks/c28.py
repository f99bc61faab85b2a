"""C28 A processor pipeline composes in order and always releases what it acquired"""
import contextlib

from mc import docs, gen
from mc.docs import Item

BOUNDS = {
    'quick': 'all lists of <=3 processors (lazy, eager, dropping, duplicating, failing) x streams of <=2 documents; all nestings of <=4 processors; every subset of '
             'failing enters, body and exits (with suppression) for <=3 processors, flat and nested; all histories of 3 uses with faults; lists, tuples and iterators; one processor several times; 40 processors',
    'thorough': 'lists of <=4 processors, faults with 4 processors',
}


def load(thorough):
    global dm, pr, tg, pa
    import babylondigger.datamodel as dm
    import babylondigger.processor as pr
    import babylondigger.tagger as tg
    import babylondigger.parser as pa

    class Step(pr.DocumentProcessorInteface):
        """processor with enumerated behaviour and a log"""

        def __init__(self, name, kind='lazy', log=None, faults=()):
            self.name, self.kind, self.log, self.faults = name, kind, log if log is not None else [], set(faults)
            self.depth = 0

        def process(self, documents):
            if self.kind == 'eager':
                documents = list(documents)
            return self.run(documents)

        def run(self, documents):
            for i, d in enumerate(documents):
                if self.kind == 'failing' and i == 1:
                    raise Fault(self.name)
                if self.kind == 'dropping' and i % 2 == 0:
                    continue
                yield self.mark(d)
                if self.kind == 'duplicating':
                    yield self.mark(d)

        def mark(self, d):
            return dm.Document(d.text + self.name, [])

        def __enter__(self):
            self.log.append(('enter', self.name))
            if 'enter' in self.faults:
                raise Fault('enter ' + self.name)
            self.depth += 1
            return self

        def __exit__(self, *exc):
            self.log.append(('exit', self.name, exc[0]))
            self.depth -= 1
            if 'exit' in self.faults:
                raise Fault('exit ' + self.name)
            return 'suppress' in self.faults

    global STEP
    STEP = Step


class Fault(Exception):
    pass


def composition(ctx):
    n = ctx.pick((0, 1, 2, 3, 4) if ctx.thorough else (0, 1, 2, 3), 'processors')
    kinds = [ctx.pick(('lazy', 'eager', 'dropping', 'duplicating', 'failing'), 'kind') for _ in range(n)]
    count = ctx.pick((0, 1, 2), 'documents')
    collection = ctx.pick((list, tuple, iter), 'collection')
    entered = ctx.flag('entered')
    source = [dm.Document('d%d' % i, []) for i in range(count)]

    def collect(stream):
        got = []
        try:
            for d in stream:
                got.append(d.text)
        except Fault as e:
            return got, str(e)
        return got, None

    def compose():
        stream = iter(source)
        for i, k in enumerate(kinds):
            stream = STEP('abcd'[i], k).process(stream)
        return stream
    want = collect(run_eagerly(compose))
    pipeline = ctx.accepts('creating', pr.DocumentComplexProcessor, collection([STEP('abcd'[i], k) for i, k in enumerate(kinds)]))
    with pipeline if entered else contextlib.nullcontext():
        got = collect(run_eagerly(lambda: pipeline.process(iter(source))))
    ctx.equal(got, want, 'documents through {}'.format(kinds))
    ctx.state(kinds, got)


def run_eagerly(make):
    """the stream, with errors raised while it is created delivered on iteration"""
    try:
        return make()
    except Fault as e:
        def failing(error=e):
            raise error
            yield
        return failing()


def tree(ctx, n, names):
    """all nestings of n processors"""
    if n == 1:
        return STEP(names[0])
    parts = ctx.pick([s for s in gen.splits(n)], 'grouping')
    if len(parts) == 1:
        parts = tuple((i, i + 1) for i in range(n)) if n < 2 else ((0, n - 1), (n - 1, n))
    return pr.DocumentComplexProcessor([tree(ctx, b - a, names[a:b]) for a, b in parts])


def nesting(ctx):
    n = ctx.pick((1, 2, 3, 4), 'processors')
    nested = tree(ctx, n, 'abcd')
    flat = pr.DocumentComplexProcessor([STEP(c) for c in 'abcd'[:n]])
    source = [dm.Document('x', []), dm.Document('y', [])]
    want = [d.text for d in flat.process(iter(source))]
    ctx.equal(want, [x + 'abcd'[:n] for x in 'xy'], 'flat pipeline')
    for _ in range(2):
        with nested:
            ctx.equal([d.text for d in nested.process(iter(source))], want, 'nested pipeline')
    ctx.state(n, want)


def use(ctx, pipeline, log, steps, body_fails, plain):
    """one with statement; checks that everything entered was left"""
    log.clear()
    error = None
    ran = False
    try:
        with pipeline as entered:
            ran = True
            ctx.check(entered is pipeline, 'entering gives {!r}', entered)
            result = [d.text for d in entered.process(iter([dm.Document('x', [])]))]
            ctx.equal(result, ['x' + ''.join(s.name for s in steps)], 'documents')
            if body_fails:
                raise Fault('body')
    except Fault as e:
        error = str(e)
    enters = [e[1] for e in log if e[0] == 'enter']
    exits = [e[1] for e in log if e[0] == 'exit']
    names = [s.name for s in steps]
    broken = [s.name for s in steps if 'enter' in s.faults]
    if broken:
        upto = names.index(broken[0])
        ctx.equal(enters, names[:upto + 1], 'entered')
        ctx.check(not ran, 'body ran although {} could not be entered', broken)
        entered_names = names[:upto]
    else:
        ctx.equal(enters, names, 'entered')
        ctx.check(ran, 'body did not run')
        entered_names = names
    ctx.equal(sorted(exits), sorted(entered_names), 'exited (entered {}, faults {})'.format(enters, [(s.name, sorted(s.faults)) for s in steps]))
    for s in steps:
        ctx.equal(s.depth, 0, 'open enters of {}'.format(s.name))
    failing_exits = [s.name for s in steps if 'exit' in s.faults and s.name in entered_names]
    if broken or body_fails or failing_exits:
        ctx.check(error is not None, 'the error did not reach the caller (faults {}, body {})', [(s.name, sorted(s.faults)) for s in steps], body_fails)
        possible = ['enter ' + b for b in broken[:1]] + (['body'] if body_fails and ran else []) + ['exit ' + x for x in failing_exits]
        ctx.check(error in possible, 'error {!r}, expected one of {}', error, possible)
        if not failing_exits:
            ctx.equal(error, possible[0], 'error')
    else:
        ctx.equal(error, None, 'error')
    return enters, exits, error


def faults(ctx):
    n = ctx.pick((1, 2, 3, 4) if ctx.thorough else (1, 2, 3), 'processors')
    log = []
    steps = []
    for i in range(n):
        kind = ctx.pick(((), ('enter',), ('exit',), ('suppress',)), 'faults')
        steps.append(STEP('abcd'[i], log=log, faults=kind))
    body = ctx.flag('body fails')
    shape = ctx.pick(('flat', 'nested first', 'nested last', 'single'), 'shape')
    if shape == 'flat':
        pipeline = pr.DocumentComplexProcessor(steps)
    elif shape == 'nested first':
        pipeline = pr.DocumentComplexProcessor([pr.DocumentComplexProcessor(steps[:-1])] + steps[-1:])
    elif shape == 'nested last':
        pipeline = pr.DocumentComplexProcessor(steps[:1] + [pr.DocumentComplexProcessor(steps[1:])])
    else:
        pipeline = pr.DocumentComplexProcessor([pr.DocumentComplexProcessor(steps)])
    ctx.state([sorted(s.faults) for s in steps], body, shape, use(ctx, pipeline, log, steps, body, True))


def histories(ctx):
    """repeated uses of one pipeline with changing faults"""
    log = []
    steps = [STEP(c, log=log) for c in 'ab']
    collection = ctx.pick((list, tuple, iter), 'collection')
    pipeline = pr.DocumentComplexProcessor(collection(steps))
    trace = []
    for _ in range(3):
        fault = ctx.pick((None, ('enter', 0), ('enter', 1), ('exit', 0), ('exit', 1), 'body'), 'fault')
        for s in steps:
            s.faults.clear()
        if isinstance(fault, tuple):
            steps[fault[1]].faults.add(fault[0])
        trace.append(use(ctx, pipeline, log, steps, fault == 'body', False))
    ctx.state(trace)


def real(ctx):
    """baseline tagger and parser in a pipeline"""
    names = ctx.pick_seq(('tagger', 'parser', 'other tagger'), 1, 3, 'processor')
    make = {'tagger': lambda: tg.StubTagger(dm.Pos('A')), 'parser': lambda: pa.StubParser('r'), 'other tagger': lambda: tg.StubTagger(dm.Pos('B', 'x', {}))}
    source = [docs.build(dm, [[Item('a'), Item('b')], [Item('c')]]), docs.build(dm, []), docs.build(dm, [[Item('d')]])]
    stream = iter(source)
    for n in names:
        stream = make[n]().process(stream)
    want = [gen.doc_view(d) for d in stream]
    with pr.DocumentComplexProcessor([make[n]() for n in names]) as pipeline:
        for _ in range(2):
            ctx.equal([gen.doc_view(d) for d in pipeline.process(iter(source))], want, 'documents through {}'.format(names))
    ctx.state(names, want)


def repeated(ctx):
    """one processor object at several places of a pipeline (a plain processor: nothing to acquire)"""
    class Plain(pr.DocumentProcessorInteface):
        def __init__(self, name):
            self.name = name

        def process(self, documents):
            for d in documents:
                yield dm.Document(d.text + self.name, [])

        def __eq__(self, other):
            return isinstance(other, Plain)

        def __hash__(self):
            return 1
    pool = [Plain('a'), Plain('b')]
    chosen = ctx.pick_seq((0, 1), 1, 4, 'processor')
    collection = ctx.pick((list, tuple, iter), 'collection')
    pipeline = pr.DocumentComplexProcessor(collection([pool[k] for k in chosen]))
    source = [dm.Document('x', []), dm.Document('y', [])]
    for _ in range(2):
        ctx.equal([d.text for d in pipeline.process(iter(source))], [x + ''.join('ab'[k] for k in chosen) for x in 'xy'], 'documents')
    ctx.state(chosen)


def scale(ctx):
    n = ctx.pick((10, 40), 'processors')
    bad = ctx.pick(sorted({0, 1, n // 2, n - 1}), 'failing processor')
    what = ctx.pick(('none', 'enter', 'exit', 'body'), 'fault')
    log = []
    steps = [STEP('p%d,' % i, log=log) for i in range(n)]
    if what in ('enter', 'exit'):
        steps[bad].faults.add(what)
    use(ctx, pr.DocumentComplexProcessor(steps), log, steps, what == 'body', False)
    ctx.state(n, bad, what)


SCENARIOS = {'composition': composition, 'nesting': nesting, 'faults': faults, 'histories': histories, 'real processors': real, 'repeated processors': repeated, 'scale': scale}
