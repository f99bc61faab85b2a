"""runs of the evaluation with enumerated trainers in a scratch directory"""
import contextlib
import io as stdio
import json
import os
import re
from collections import namedtuple

from mc import conll, fake
from mc.conll import W

Score = namedtuple('Score', ['precision', 'recall', 'f1', 'aligned_accuracy'])
NAMES = ('precision', 'recall', 'f1', 'aligned_accuracy')


def sentence(n, mark):
    return conll.chain([W('%s%d' % (mark, i), lemma='l%d' % i, upos='N') for i in range(n)])


TRAIN = conll.render([sentence(2, 'a'), sentence(1, 'b')])
DEV = conll.render([sentence(8, 'd')])
TEST = conll.render([sentence(16, 't')])


def snapshot(root):
    """{relative path: content or None for directories}"""
    result = {}
    for d, dirs, files in os.walk(root):
        for name in dirs:
            result[os.path.relpath(os.path.join(d, name), root)] = None
        for name in files:
            with open(os.path.join(d, name), 'rb') as f:
                result[os.path.relpath(os.path.join(d, name), root)] = f.read()
    return result


class Tagger(object):
    """gets the first `right` lemmas of every document right (and everything else)"""

    def __init__(self, world, number, right, dev_right=None):
        self.world, self.number, self.right, self.dev_right = world, number, right, dev_right

    def tag(self, documents):
        dm = self.world.dm
        for document in documents:
            dev = document.text.startswith('d')
            right = self.dev_right if dev else self.right
            self.world.event('dev' if dev else 'test', self.number)
            tokens = []
            for i, t in enumerate(document.tokens):
                t = dm.Token.with_morphology(t, dm.Pos('N'), 'l%d' % i if i < right else 'wrong')
                tokens.append(dm.Token.with_syntax(t, 'root' if i == 0 else 'dep', head_sentence_index=i - 1))
            yield dm.Document.from_document(document, tokens)

    process = tag

    def __str__(self):
        return 'tagger %s' % (self.number,)


Call = namedtuple('Call', ['params', 'seed', 'model_dir', 'format'])


class World(object):
    """one run: `plan(call, index)` -> list of models of that training, each a dict with
    scores (or None: ask the dev tester), right (test), dev_right; optional fail=True raises instead"""

    def __init__(self, ctx, evl, tg, dm, root, plan, on_event=None):
        self.ctx, self.evl, self.tg, self.dm, self.root, self.plan = ctx, evl, tg, dm, root, plan
        self.on_event = on_event
        self.calls, self.models, self.events = [], [], []
        self.train_views, self.dev_scores = [], []
        for name, text in (('train', TRAIN), ('dev', DEV), ('test', TEST)):
            with open(os.path.join(root, name), 'w', encoding='utf8') as f:
                f.write(text)
        self.model_dir = os.path.join(root, 'models')

    def event(self, kind, number):
        self.events.append((kind, number))
        if self.on_event:
            self.on_event(self, kind, number)

    def settings(self, **other):
        result = {'train_set': {'path': os.path.join(self.root, 'train')}, 'dev_set': {'path': os.path.join(self.root, 'dev')},
                  'test_set': {'path': os.path.join(self.root, 'test')}, 'cmp_metric': {'fields': ['Lemmas'], 'metric': 'f1'},
                  'metric_printer': {'fields': ['Lemmas']}, 'random_seed': 1, 'model_dir': self.model_dir}
        result.update(other)
        return {k: v for k, v in result.items() if v is not None}

    def trainer(self, documents, dev_tester=None, model_name_format='epoch-{}', **kwargs):
        seed, model_dir = kwargs.pop('seed'), kwargs.pop('model_dir')
        call = Call(kwargs, seed, model_dir, model_name_format)
        index = len(self.calls)
        self.calls.append(call)
        for epoch, model in enumerate(self.plan(call, index)):
            self.train_views.append([d.text for d in documents])
            if model.get('fail'):
                raise ZeroDivisionError('training failed')
            path = os.path.join(model_dir, model_name_format.format(epoch))
            os.makedirs(os.path.join(path, 'sub'))
            number = (index, epoch)
            for name in ('weights', 'sub/more'):
                with open(os.path.join(path, name), 'w') as f:
                    f.write(repr(number))
            tagger = Tagger(self, number, model['right'], model.get('dev_right'))
            self.models.append((number, path))
            self.event('saved', number)
            scores = dev_tester(tagger) if model.get('scores') is None else model['scores']
            self.dev_scores.append(scores)
            yield scores, tagger
            self.event('resumed', number)

    def alive(self):
        """numbers of the models whose directories are complete; partly removed ones are a violation"""
        result = set()
        for number, path in self.models:
            content = snapshot(path) if os.path.isdir(path) else {}
            text = repr(number).encode()
            whole = {'weights': text, 'sub': None, os.path.join('sub', 'more'): text}
            if content == whole:
                result.add(number)
            elif content:
                self.ctx.fail('directory of model {} holds {}'.format(number, content))
        return result

    def run(self, settings, hyperparams, delete_after, method='stub'):
        out = stdio.StringIO()
        with fake.training(self.tg, self.trainer), contextlib.redirect_stdout(out):
            self.evl.main(self.evl._Arguments(settings, method, hyperparams, delete_after))
        return Report(self.ctx, out.getvalue())


class Report(object):
    """what a run printed at its end"""

    def __init__(self, ctx, text):
        self.text = text
        final = text.rsplit('Quality evaluation final results:', 1)
        ctx.check(len(final) == 2, 'no final results were reported:\n{}', text)
        match = re.search(r'^Hyperparams: (.*)$', final[1], re.M)
        ctx.check(match, 'no final parameters were reported:\n{}', text)
        self.params = eval(match.group(1), {})
        parts = re.split(r'^(Dev|Test) scores:$', final[1], flags=re.M)
        self.dev = self.test = None
        for kind, table in zip(parts[1::2], parts[2::2]):
            rows = {}
            for line in table.splitlines():
                cells = [c.strip() for c in line.split('|')]
                if len(cells) == 5 and re.match(r'[0-9.]+$', cells[1]):
                    ctx.check(cells[0] not in rows, 'metric {} was reported twice', cells[0])
                    rows[cells[0]] = tuple(float(c) if c else None for c in cells[1:])
            setattr(self, kind.lower(), rows)


def percent(score):
    """a score as it is printed"""
    return tuple(None if x is None else float('%.2f' % (100 * x)) for x in score)


def lemmas(right, total):
    x = right / total
    return percent((x, x, x, x))


def main_arguments(root, settings, hyperparams, grid=None):
    """files for the command lines"""
    result = {}
    for name, value in (('settings', settings), ('hypers', hyperparams), ('grid', grid)):
        if value is not None:
            result[name] = os.path.join(root, name + '.json')
            with open(result[name], 'w') as f:
                json.dump(value, f)
    return result
