"""stand-ins for optional third-party packages, so that modules of the code under test can be imported cheaply"""
import contextlib
import importlib
import os
import pickle
import sys
import types


def module(name, **attributes):
    m = types.ModuleType(name)
    for k, v in attributes.items():
        setattr(m, k, v)
    sys.modules[name] = m
    if '.' in name:
        parent, child = name.rsplit('.', 1)
        setattr(importlib.import_module(parent), child, m)
    return m


class BPEmb(object):
    """enumerated byte-pair encoder: `table` maps a text to its pieces"""
    table = {}
    created = []

    def __init__(self, *args, **kwargs):
        BPEmb.created.append((args, kwargs))

    def encode(self, text):
        return list(BPEmb.table[text])


def bpe():
    module('bpemb', BPEmb=BPEmb)
    return BPEmb


class Model(object):
    """stand-in for babylondigger.neural.model.Model: answers by `Model.answer(model, features)`, keeps a log of everything"""
    log = []
    answer = None
    train_answer = None
    opened = []

    def __init__(self, network=None, weights=0):
        self.network, self.weights = network, weights
        self.closed = 0
        Model.opened.append(self)
        Model.log.append(('open', len(Model.opened) - 1))

    @classmethod
    def reset(cls, answer=None, train_answer=None):
        cls.log, cls.opened = [], []
        cls.answer, cls.train_answer = answer, train_answer
        cls.fail_load = cls.fail_save = False

    def number(self):
        return Model.opened.index(self)

    def initialize(self, **kwargs):
        Model.log.append(('initialize', self.number(), kwargs))

    def train(self, features, labels):
        if self.closed:
            raise RuntimeError('model is closed')
        Model.log.append(('train', self.number(), features, labels))
        self.weights += 1
        return Model.train_answer(self, features, labels) if Model.train_answer else 0.5

    def predict(self, features):
        if self.closed:
            raise RuntimeError('model is closed')
        Model.log.append(('predict', self.number(), features))
        return Model.answer(self, features)

    def close(self):
        self.closed += 1
        Model.log.append(('close', self.number()))

    def save(self, path):
        if Model.fail_save:
            raise OSError('disk full')
        Model.log.append(('save', self.number(), path))
        with open(os.path.join(path, 'weights'), 'wb') as f:
            pickle.dump(self.weights, f)
        return lambda: Model.load(path)

    @classmethod
    def load(cls, path):
        if Model.fail_load:
            raise OSError('cannot load')
        with open(os.path.join(path, 'weights'), 'rb') as f:
            return Model(None, pickle.load(f))

    @classmethod
    def new(cls, network, graph):
        return Model(network)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()


def neural():
    """imports the tagger with the stand-in model and an empty network provider"""
    bpe()
    module('babylondigger.neural.model', Model=Model)
    provider = module('babylondigger.neural.tagger.network_provider', get_nn_builder=lambda *args, **kwargs: provider.builder(*args, **kwargs))
    import babylondigger.neural.tagger.neural_tagger as neural_tagger
    return neural_tagger, Model, provider


def evaluation():
    """imports the evaluation with stand-in neural networks; trainers of method 'stub' run `Trainer.program`"""
    neural()
    import babylondigger.evaluation.evaluation as evl
    import babylondigger.tagger as tg
    return evl, tg


@contextlib.contextmanager
def training(tg, program):
    """within it, the trainer of method 'stub' is `program(documents, **kwargs)`"""
    original = tg.StubTaggerTrainer.train
    tg.StubTaggerTrainer.train = lambda self, *args, **kwargs: program(*args, **kwargs)
    try:
        yield
    finally:
        tg.StubTaggerTrainer.train = original
