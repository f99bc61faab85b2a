"""C15 A shuffled data set is a reproducible windowed permutation of its source"""
import os
import random
import time

from mc import conll
from mc.conll import W
from mc.gen import scratch

BOUNDS = {
    'quick': 'every answer of the generator for data sets of <=5 elements with batch sizes 1-5 (one pass), two passes for <=3 elements; all schedules of <=5 '
             'steps of <=3 passes over one data set; 12 seeds x sizes 0-130 x batch sizes 1-60 (default included) for reproducibility and displacement',
    'thorough': 'data sets of <=6 elements; schedules of <=7 steps; 60 seeds',
}


def load(thorough):
    global ds, io
    import babylondigger.evaluation.dataset as ds
    import babylondigger.evaluation.conllu_io as io


class Controlled(object):
    """answers of every random.Random are decisions of the explorer (large ranges are seeds: irrelevant then)"""

    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        self.saved = random.Random._randbelow
        ctx = self.ctx

        def below(generator, n):
            return ctx.pick(n, 'random answer below {}'.format(n)) if n < 1000 else 0
        random.Random._randbelow = below

    def __exit__(self, *args):
        random.Random._randbelow = self.saved


class Clock(object):
    """a wall clock that never shows the same second twice"""

    def __enter__(self):
        self.saved = time.time
        self.now = 1000.0
        def tick():
            self.now += 7
            return self.now
        time.time = tick

    def __exit__(self, *args):
        time.time = self.saved


class Item(object):
    """elements compare by identity"""

    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return 'e%d' % self.i


class Source(object):
    """a data set that can be iterated any number of times"""

    def __init__(self, items):
        self.items = items
        self.passes = 0

    def __iter__(self):
        self.passes += 1
        return iter(list(self.items))


def check_pass(ctx, got, items, size, what='pass'):
    ctx.check(sorted(map(id, got)) == sorted(map(id, items)), '{} yields {} instead of a permutation of {}', what, got, items)
    for position, element in enumerate(got):
        distance = abs(position - element.i)
        ctx.check(distance < max(size, 1), '{}: {} moved by {} positions (batch size {}): {}', what, element, distance, size, got)


def all_answers(ctx):
    size = ctx.pick((1, 2, 3, 4, 5), 'batch size')
    n = ctx.pick(range(7 if ctx.thorough else 6), 'elements')
    items = [Item(i) for i in range(n)]
    source = ctx.pick((list, Source), 'source')(items)
    dataset = ds.ShuffledDataset(source, 3, size)
    passes = 2 if n <= 3 else 1
    with Controlled(ctx):
        for k in range(passes):
            ctx.op()
            got = list(dataset)
            check_pass(ctx, got, items, size)
            ctx.state(n, size, [e.i for e in got])
    if isinstance(source, list):
        ctx.check(len(source) == n and all(a is b for a, b in zip(source, items)), 'the source was changed: {}', source)


def schedules(ctx):
    """passes started, advanced and abandoned in every order"""
    size = ctx.pick((1, 2, 3), 'batch size')
    n = ctx.pick((1, 2, 3), 'elements')
    items = [Item(i) for i in range(n)]
    # the same schedule on two data sets built with the same seed gives the same elements
    first, second = (ds.ShuffledDataset(Source(items), 11, size) for _ in range(2))
    live = []
    for step in range(7 if ctx.thorough else 5):
        options = ['stop'] + (['start'] if len(live) < 3 else []) + [(a, k) for k in range(len(live)) for a in ('next', 'drop')]
        action = ctx.pick(options, 'step')
        ctx.op()
        if action == 'stop':
            break
        if action == 'start':
            live.append((iter(first), iter(second), []))
            continue
        what, k = action
        if what == 'drop':
            live.pop(k)
            continue
        a, b, seen = live[k]
        x, y = next(a, None), next(b, None)
        ctx.check(x is y, 'data sets with the same seed differ: {} and {}', x, y)
        ctx.equal(x is None, len(seen) == n, 'end of the pass after {}'.format(seen))
        if x is not None:
            seen.append(x)
    for a, b, seen in live:
        rest = list(a)
        ctx.check(len(rest) == len(list(b)), 'different lengths')
        check_pass(ctx, seen + rest, items, size, 'interleaved pass')
    nested = [(a.i, b.i) for a in first for b in first]
    ctx.equal(sorted(nested), [(i, j) for i in range(n) for j in range(n)], 'nested passes')
    ctx.state(size, n, [[e.i for e in seen] for _, _, seen in live])


SEEDS = (0, 1, 2, 7, 42, 123, 999, 1000, 10 ** 6, -1, 2 ** 31, 2 ** 64 + 1)
SIZES = (0, 1, 2, 3, 10, 25, 26, 49, 50, 51, 75, 100, 101, 130)
BATCHES = (None, 1, 2, 3, 4, 5, 7, 10, 25, 49, 50, 51, 60)


def seeds(ctx):
    seed = ctx.pick(SEEDS if not ctx.thorough else SEEDS + tuple(range(3, 50)), 'seed')
    n = ctx.pick(SIZES, 'elements')
    size = ctx.pick(BATCHES, 'batch size')
    items = [Item(i) for i in range(n)]
    args = (seed,) if size is None else (seed, size)
    with Clock():
        first = ds.ShuffledDataset(items, *args)
        second = ds.ShuffledDataset(Source(items), *args)
        for k in range(3):
            ctx.op(2)
            a = list(first)
            random.random()            # the global generator does not matter
            b = list(second)
            check_pass(ctx, a, items, size or 50)
            ctx.check(len(a) == len(b) and all(x is y for x, y in zip(a, b)), 'pass {} with seed {} differs', k, seed)
    ctx.state(seed, n, size, [e.i for e in a])


def without_seed(ctx):
    n = ctx.pick((0, 1, 5, 60), 'elements')
    size = ctx.pick(BATCHES, 'batch size')
    items = [Item(i) for i in range(n)]
    dataset = ds.ShuffledDataset(items) if size is None else ds.ShuffledDataset(items, max_batch_size=size)
    for _ in range(2):
        check_pass(ctx, list(dataset), items, size or 50)
    ctx.state(n, size)


def files(ctx):
    """a shuffled CoNLL-U data set"""
    n = ctx.pick((0, 1, 3, 4), 'sentences')
    size = ctx.pick((1, 2, 3), 'batch size')
    with scratch() as directory:
        path = os.path.join(directory, 'x.conllu')
        with open(path, 'w') as f:
            f.write(conll.render([conll.chain([W('w%d' % i)]) for i in range(n)]))
        dataset = ds.ShuffledDataset(ds.CoNLLUDataSet(path), ctx.pick((0, 5), 'seed'), size)
        for _ in range(3):
            texts = [d.text.strip() for d in dataset]
            ctx.equal(sorted(texts), ['w%d' % i for i in range(n)], 'sentences of a pass')
    ctx.state(n, size)


SCENARIOS = {'all answers': all_answers, 'schedules': schedules, 'seeds': seeds, 'without seed': without_seed, 'files': files}
