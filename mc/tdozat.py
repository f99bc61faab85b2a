"""stand-ins for TensorFlow and the external parser package behind the wrapper, driven by enumerated decisions"""
import contextlib
import os

import numpy as np

from mc import fake

FIELDS = ('id', 'form', 'lemma', 'upos', 'xpos', 'ufeats', 'dephead', 'deprel', 'semrel', 'misc')


class Control(object):
    """what the stand-ins do and what they saw"""

    def reset(self, batches=None, predict=None, network='ParserNetwork', inputs=('form', 'lemma', 'upos', 'xpos', 'ufeats'), outputs=('dephead', 'deprel')):
        self.batches, self.predict, self.network, self.inputs, self.outputs = batches, predict, network, inputs, outputs
        self.fail_batch = self.fail_restore = None
        self.fail_data = False
        self.folder = 'path'        # where the model is
        self.sessions, self.fed, self.resets, self.log = [], [], 0, []
        self.graph_outputs = {'deptree': {'recur_layer': 'T:parser', 'other': {'deep': 'T:deep'}},
                              'upos': {'recur_layer': 'T:tagger', 'hidden_layer': 'T:upos'}, 'xpos': {'hidden_layer': 'T:xpos'}}


control = Control()
control.reset()


class Graph(object):
    """variables exist in the graph where the network was built: v and u are saved, w is not"""
    current = []

    def __init__(self):
        self.variables = []

    @contextlib.contextmanager
    def as_default(self):
        Graph.current.append(self)
        try:
            yield self
        finally:
            Graph.current.pop()

    @staticmethod
    def get():
        return Graph.current[-1] if Graph.current else Graph()


VARIABLES, TEMPORARY = ['v', 'w', 'u', 't'], ['w', 't']


class Session(object):
    def __init__(self, graph=None, config=None):
        self.closed, self.graph = False, graph
        self.values = {}
        control.sessions.append(self)

    def run(self, fetches, feed_dict=None):
        if self.closed:
            raise RuntimeError('closed session')
        if feed_dict is None:
            if isinstance(fetches, tuple) and fetches[0] == 'initializer':
                self.values.update((v, 'initial') for v in fetches[1])
            return None
        want = {v: 'initial' if v in TEMPORARY else os.path.join(control.folder, control.network, 'checkpoint') for v in VARIABLES}
        if self.values != want or self.graph is None or self.graph.variables != VARIABLES:
            raise RuntimeError('the network is not the saved one: {}'.format(self.values))
        probabilities, extras = fetches
        batch = feed_dict['sentences']
        if control.fail_batch == feed_dict['batch']:
            raise ZeroDivisionError('running the network failed')
        return control.run(batch, probabilities, extras)

    def close(self):
        self.closed = True


class Saver(object):
    def __init__(self, variables=None, max_to_keep=None):
        self.variables = list(Graph.get().variables if variables is None else variables)
        if not self.variables:
            raise ValueError('no variables to save')

    def restore(self, session, checkpoint):
        if control.fail_restore:
            raise ZeroDivisionError('cannot restore')
        if any(v in TEMPORARY for v in self.variables):
            raise RuntimeError('not found in checkpoint')
        session.values.update((v, checkpoint) for v in self.variables)


class Options(object):
    def __init__(self):
        self.gpu_options = fake.types.SimpleNamespace()


class Config(object):
    def __init__(self, defaults_file='', config_file='', **kwargs):
        self.folder = kwargs.get('DEFAULT', {}).get('save_metadir')
        self.found = os.path.normpath(config_file) in [os.path.join(control.folder, n) for n in ('ParserNetwork.cfg', 'TaggerNetwork.cfg')]

    def get(self, section, name):
        if not self.found:
            raise RuntimeError('No option {!r} in section {!r}'.format(name, section))
        return control.network


class Vocab(object):
    def __init__(self, field):
        self.field, self.factorized = field, 'factorized ' + field

    def reset(self):
        control.resets += 1

    def __getitem__(self, predictions):
        return predictions


class Network(object):
    def __init__(self, config=None):
        self.classname = type(self).__name__
        self.save_dir = os.path.join(config.folder, self.classname)
        self.vocabs = [Vocab(f) for f in control.inputs + control.outputs]
        self.output_vocabs = [Vocab(f) for f in control.outputs]

    def build_graph(self, reuse=True):
        Graph.get().variables.extend(VARIABLES)
        return control.graph_outputs, 'tokens'


class ParserNetwork(Network):
    pass


class TaggerNetwork(Network):
    pass


class GraphOutputs(object):
    probabilities = 'probabilities'

    def __init__(self, outputs, tokens, load=False, factored_deptree=None, factored_semgraph=None, config=None):
        self.predictions = {'indices': []}
        self.factored = {'deprel': factored_deptree, 'semrel': factored_semgraph}

    def probs_to_preds(self, probabilities, lengths):
        for field, factored in self.factored.items():
            if factored != ('factorized ' + field if field in control.outputs else None):
                raise RuntimeError('{} factorized {}'.format(field, factored))
        return probabilities

    def cache_predictions(self, tokens, indices):
        self.predictions['indices'].extend(indices)
        for field in tokens:
            self.predictions.setdefault(field, []).extend(tokens[field])


class CoNLLUDataset(object):
    """sentences of all documents; sentences without tokens are ignored"""

    def __init__(self, files, vocabs, config=None):
        self.sentences = []
        self.inputs = [v.field for v in vocabs]
        for file in files:
            for lines in self.itersents(file):
                if lines:
                    self.sentences.append([list(l) for l in lines])
        control.fed.append(self.sentences)
        self.order = control.batches(len(self.sentences))
        self.number = -1

    @staticmethod
    def itersents(file):
        raise NotImplementedError()

    def batch_iterator(self, shuffle=True):
        for batch in self.order:
            yield np.array(batch, dtype=int)

    def rows(self, indices):
        return [self.sentences[i] for i in indices]

    def get_tokens(self, indices):
        rows = self.rows(indices)
        width = max(len(r) for r in rows) + 1
        tokens = {}
        for field in ('id',) + control.inputs:
            column = FIELDS.index(field)
            table = [['<root>'] + [line[column] for line in r] + [''] * (width - len(r) - 1) for r in rows]
            if field == 'id':
                for t in table:
                    t[0] = '0'
            tokens[field] = np.array(table, dtype=object)
        return tokens, np.array([len(r) for r in rows])

    def set_placeholders(self, indices):
        self.number += 1
        return {'sentences': [(int(i), self.sentences[i]) for i in indices], 'batch': self.number}


def load():
    tf = fake.module('tensorflow', Graph=Graph, Session=Session, ConfigProto=Options, variable_scope=lambda *a, **k: contextlib.nullcontext(),
                     global_variables=lambda: list(Graph.get().variables),
                     get_collection=lambda name: {'non_save_variables': [v for v in Graph.get().variables if v in TEMPORARY]}.get(name, []),
                     variables_initializer=lambda variables: ('initializer', list(variables)),
                     train=fake.types.SimpleNamespace(Saver=Saver, latest_checkpoint=lambda path: os.path.join(path, 'checkpoint')))
    fake.module('tdozat_parser')
    fake.module('tdozat_parser.parser', ParserNetwork=ParserNetwork, TaggerNetwork=TaggerNetwork, GraphParserNetwork=type('GraphParserNetwork', (Network,), {}))
    fake.module('tdozat_parser.parser.config', Config=Config)
    fake.module('tdozat_parser.parser.structs')
    fake.module('tdozat_parser.parser.structs.conllu_dataset', CoNLLUDataset=CoNLLUDataset)
    fake.module('tdozat_parser.parser.graph_outputs', GraphOutputs=GraphOutputs)
    import babylondigger.wrappers.tdozat as tdozat
    return tdozat, control, tf
