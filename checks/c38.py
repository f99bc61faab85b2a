"""C38 Every documented configuration trains, learns, saves and repeats itself"""
import hashlib
import io
import os
import subprocess
import sys

import numpy as np

from mc import fake, gen, tf1

TIMEOUT = 300
BOUNDS = {
    'quick': '11 sentence-level parts x 12 sets of features x 10 sets of tasks, 3 optimizers: every pair of (part, features), (part, tasks) and (features, tasks) trained 2 epochs '
             'on a treebank of 5 sentences; 6 documents of known, unknown, long and odd words tagged by the tagger saved in each epoch, lazily and eagerly, one by one and '
             'together; 20 configurations trained until they reproduce the treebank, with at most 6 seeds; trainings of up to 9 epochs, all of which are loaded afterwards; repeated trainings in one process with 4 seeds, after other trainings, and in processes with 2 '
             'hash seeds for 5 configurations; the sample hyperparameters of the repository with smaller layers, whole and without each of 13 optional parameters',
    'thorough': 'the whole product of parts, features and tasks; learning for 3 seeds',
}
ASSUMPTIONS = ['TensorFlow 1 functions removed from the installed TensorFlow 2 (dense, dropout, LSTMCell) are replaced by mc/tf1.py; one thread per session',
               'the byte-pair encoder is a stand-in that cuts words into pieces of two characters; Morfessor is the installed one']

TREEBANK = """\
1	The	the	DET	DT	Definite=Def|PronType=Art	2	det	_	_
2	cats	cat	NOUN	NNS	Number=Plur	3	nsubj	_	_
3	sat	sit	VERB	VBD	Tense=Past	0	root	_	SpaceAfter=No
4	.	.	PUNCT	.	_	3	punct	_	_

1	dogs	dog	NOUN	NNS	Number=Plur	2	nsubj	_	_
2	ran	run	VERB	VBD	Tense=Past	0	root	_	_

1-2	vámonos	_	_	_	_	_	_	_	_
1	vamos	ir	VERB	_	Mood=Imp|Number=Plur|Person=1	0	root	_	_
2	nos	nosotros	PRON	_	Case=Acc|Number=Plur	1	obj	_	_
3	cats	cat	NOUN	NNS	Number=Plur	1	obj	_	_

1	ran	run	VERB	VBD	Tense=Past	0	root	_	_

1	dogs	dog	NOUN	NNS	Number=Plur	0	root	_	_
2	sat	sit	VERB	VBD	Tense=Past	1	dep	_	_
3	The	the	DET	DT	Definite=Def|PronType=Art	1	dep	_	_
4	dogs	dog	NOUN	NNS	Number=Plur	1	dep	_	_
5	ran	run	VERB	VBD	Tense=Past	1	dep	_	_
6	.	.	PUNCT	.	_	1	punct	_	_

"""
OTHERS = [
    [['cats']], [['unseen', 'Cats', 'the', '\U0001F600']], [['a' * 40, 'ran', '.'], ['q'], ['.', '.', '.', '.', '.', '.', '.', '.', '.']],
    [['\u0661\u0662', 'dogs', 's'], ['cat-s', '\u00e9\u0301']],
]
WORDS = ['The', 'the', 'cats', 'sat', '.', 'dogs', 'ran', 'vamos', 'nos', 'unseen']
CNN = {'cnn_kernels': [{'size': 3, 'count': 6, 'dilation': 1}, {'size': 2, 'count': 6, 'dilation': 2}]}
RNN = {'lstm_cell_size': 4, 'bilstm_layer_count': 2}
WE = {'path': 'words.vec', 'trainable': False, 'lowercase': True, 'we_dense_size': 8}
TE = {'trainable': True, 'size': 8, 'min_frequency': 1, 'lowercase': False}


def chars(aggregator='average', config=None, **other):
    result = {'segmenter': 'char', 'embed_size': 8, 'min_frequency': 1, 'trainable': True, 'aggregator': aggregator, 'highway_layer': False}
    if config:
        result['aggregator_config'] = config
    result.update(other)
    return result


def bpe(**other):
    return dict(chars(), segmenter='bpe', segmenter_config={'language': 'hy', 'vocab_size': 50000}, **other)


def morfessor(**other):
    return dict(chars(), segmenter='morfessor', segmenter_config={'path': 'morfessor.bin'}, **other)


FEATURES = {
    'trained words': {'word_trained_embedding': TE},
    'frequent words': {'word_trained_embedding': dict(TE, min_frequency=2, lowercase=True)},
    'given words': {'word_embedding': WE},
    'given words to train': {'word_embedding': dict({k: v for k, v in WE.items() if k != 'we_dense_size'}, trainable=True, lowercase=False)},
    'characters cnn': {'word_characters': chars('cnn', CNN, highway_layer=True)},
    'characters rnn': {'word_characters': chars('rnn', RNN)},
    'characters average': {'word_characters': chars()},
    'characters attention': {'word_characters': chars('self-attention', highway_layer=True)},
    'bpe': {'bpe_subwords': bpe(embedding_path='bpe.vec', highway_layer=True)},
    'bpe cnn': {'bpe_subwords': dict(bpe(), aggregator='cnn', aggregator_config=CNN)},
    'morfessor': {'morfessor_subwords': dict(morfessor(embedding_path='morphs.vec'), aggregator='rnn', aggregator_config=RNN)},
    'everything': {'word_embedding': WE, 'word_trained_embedding': TE, 'word_characters': chars('cnn', CNN), 'bpe_subwords': bpe(embedding_path='bpe.vec'),
                   'morfessor_subwords': morfessor()},
}
LSTM = {'lstm_cell_size': 8}
SHARED = {
    'words': ('WE_charCNN', {}, 'word_features'),
    'words sparse': ('WE_charCNN', {'sparse_input_prob': .3}, 'word_features'),
    'bilstm': ('BiLSTM', LSTM, 'bilstm'),
    'bilstm 2': ('BiLSTM', dict(LSTM, bilstm_layer_count=2, sparse_input_prob=0), 'bilstm'),
    'bilstm concat': ('BiLSTM', dict(LSTM, skip_connection='concat'), 'bilstm_and_word_features'),
    'bilstm sum': ('BiLSTM', dict(LSTM, skip_connection='sum', bilstm_layer_count=1), 'bilstm_and_word_features'),
    'bilstm cnn': ('BiLSTM_CNN', dict(LSTM, **CNN), 'bilstm_cnn'),
    'bilstm cnn concat': ('BiLSTM_CNN', dict(LSTM, skip_connection='concat', **CNN), 'bilstm_cnn'),
    'dilated': ('Dilated_CNN', CNN, 'dilated_cnn'),
    'dilated concat': ('Dilated_CNN', dict(CNN, skip_connection='concat'), 'dilated_cnn_and_word_features'),
    'dilated sum': ('Dilated_CNN', dict(CNN, skip_connection='sum'), 'dilated_cnn_and_word_features'),
}
SUFFIX = {'lemma_suffix_transformation': {'rules_threshold': 1}}


def combo(size=8, kernels=None, **other):
    return {'builder': 'lemma_combo',
            'config': {'cnn_bilstm_dense_size': 8, 'cnn_kernels': kernels or [{'size': 3, 'count': 16, 'dilation': 1}, {'size': 3, 'count': size, 'dilation': 2}],
                       'loss_weights': {'LEMMA': 1.0}},
            'features_config': {'input_subwords': dict({'min_frequency': 1, 'embed_size': size, 'trainable': True, 'segmenter': 'char'}, **other),
                                'output_subwords': {'min_frequency': 1, 'max_word_length': 9, 'segmenter': 'char'}}}


def pos(splitting, **config):
    return {'builder': 'pos_dense', 'config': dict({'splitting': splitting, 'dense_size': 24}, **config)}


DENSE = {'builder': 'lemma_dense', 'config': {'dense_size': 24}}
SUFFIXES = {'builder': 'lemma_suffix', 'config': {'dense_size': 24}, 'features_config': SUFFIX}
BINARY = {'builder': 'lemma_binary', 'config': {'dense_size': 24}, 'features_config': SUFFIX}
WEIGHTS = {'default': .2, 'UPOS': .5, 'XPOS': .5, 'FEATS': .2}
TASKS = {
    'joint': {'pos': pos('pos_joint')}, 'xf': {'pos': pos('pos_XF')}, 'uxf': {'pos': pos('pos_UXF', loss_weights=WEIGHTS)}, 'gran': {'pos': pos('pos_gran')},
    'dense': {'lemma': DENSE}, 'suffix': {'lemma': SUFFIXES}, 'binary': {'lemma': BINARY},
    'combo': {'lemma': combo()}, 'uxf combo': {'pos': pos('pos_UXF'), 'lemma': combo(embedding_path='chars.vec', highway_layer=True)},
    'gran suffix': {'pos': pos('pos_gran', loss_weights=dict(WEIGHTS, default=1)), 'lemma': SUFFIXES},
}
SIZES = {'given words to train': 4}


def load(thorough):
    global tf, dm, nt, nm, evl, READER, DOCUMENTS, TRAIN, MORFESSOR
    tf = tf1.load()
    import babylondigger.datamodel as dm
    import babylondigger.neural.model as nm
    import babylondigger.neural.tagger.neural_tagger as nt
    import babylondigger.evaluation.evaluation as evl
    from babylondigger.evaluation.conllu_io import CoNLLUReader

    class Pieces(dict):
        def __missing__(self, text):
            text = '\u2581' + text
            return [text[:3]] + [text[i:i + 2] for i in range(3, len(text), 2)]
    fake.BPEmb.table = Pieces()
    TRAIN = list(CoNLLUReader(2).read_from_str(TREEBANK))
    assert len(TRAIN) == 3
    DOCUMENTS = []
    for sentences in OTHERS:
        tokens, ranges, text = [], [], ''
        for s in sentences:
            first = len(tokens)
            for w in s:
                tokens.append(dm.Token(len(text), len(text) + len(w), dm.Pos('X', None, {'Old': 'Yes'}), 'old'))
                text += w + ' '
            ranges.append(dm.Sentence(first, len(tokens)))
        DOCUMENTS.append(dm.Document(text, tokens, ranges))
    DOCUMENTS.append(TRAIN[1])


# ------------------------------------------------------------------- files
def vectors(path, keys, size, header):
    random = np.random.RandomState(len(keys))
    with open(path, 'w', encoding='utf8') as f:
        if header:
            f.write('{} {}\n'.format(len(keys), size))
        for k in keys:
            f.write(' '.join([k] + ['%.4f' % x for x in random.uniform(-1, 1, size)]) + '\n')


def files(root):
    import logging
    import morfessor as mf
    logging.disable(logging.CRITICAL)
    letters = sorted(set(''.join(WORDS)))
    vectors(os.path.join(root, 'words.vec'), WORDS, 4, True)
    vectors(os.path.join(root, 'chars.vec'), letters, 8, False)
    vectors(os.path.join(root, 'bpe.vec'), sorted({p.replace('\u2581', '') for w in WORDS for p in fake.BPEmb.table[w]}), 8, True)
    vectors(os.path.join(root, 'morphs.vec'), ['cat', 's', 'dog', 'ran', 'sat', 'The', '.', 'vamos', 'nos'], 8, False)
    with open(os.path.join(root, 'corpus'), 'w', encoding='utf8') as f:
        f.write('\n'.join(WORDS * 2) + '\ncat\ndog\n')
    model = mf.BaselineModel()
    mio = mf.MorfessorIO()
    model.load_data(list(mio.read_corpus_list_file(os.path.join(root, 'corpus')) if False else [(1, tuple(w)) for w in WORDS + ['cat', 'dog']]))
    model.train_batch()
    mio.write_binary_model_file(os.path.join(root, 'morfessor.bin'), model)


def placed(config, root):
    """the configuration with its files in root"""
    if isinstance(config, dict):
        return {k: os.path.join(root, v) if k in ('path', 'embedding_path') else placed(v, root) for k, v in config.items()}
    return [placed(x, root) for x in config] if isinstance(config, list) else config


def hyperparameters(shared, features, tasks, root, optimizer=None, **other):
    builder, config, name = SHARED[shared]
    config = dict(config)
    if config.get('skip_connection') == 'sum':
        # the sizes of both sides of a sum are the same
        size = SUM_SIZES[features]
        if 'lstm_cell_size' in config:
            config['lstm_cell_size'] = size // 2
        else:
            config['cnn_kernels'] = config['cnn_kernels'][:1] + [dict(config['cnn_kernels'][1], count=size)]
    nn_config = {'general': {'optimizer': dict({'type': 'Adam', 'initial_lr': .01, 'lr_decay': 0.0, 'lr_decrease_factor': 2}, **(optimizer or {}))},
                 'shared_part': {'builder': builder, 'config': config, 'features_config': placed(FEATURES[features], root)}}
    for task, description in TASKS[tasks].items():
        nn_config[task] = placed(dict(description, config=dict(description['config'], shared_name=name)), root)
    return dict({'epochs': 2, 'dropout': .5, 'batch_size': 2, 'tasks': list(TASKS[tasks]), 'nn_config': nn_config}, **other)


SUM_SIZES = {'trained words': 8, 'frequent words': 8, 'given words': 8, 'given words to train': 4, 'characters cnn': 6, 'characters rnn': 8, 'characters average': 8,
             'characters attention': 8, 'bpe': 8, 'bpe cnn': 6, 'morfessor': 8, 'everything': 8 + 8 + 6 + 8 + 8}


class Score(object):
    def __init__(self, value):
        self.precision = self.recall = self.f1 = self.aligned_accuracy = value


def train(ctx, parameters, root, seed=7, documents=None, tester=None, accuracy=.5):
    """[(tagger, path, what the dev tester made of it, variables)] of the epochs"""
    epochs = []

    def dev(tagger):
        session = tf1.sessions[-1] if tester is None else open_session()
        epochs.append([tagger, tester(tagger) if tester else None, values(session)])
        return {'UPOS': Score(accuracy)}

    def open_session():
        return [s for s in tf1.sessions if not s.closings][-1]
    out, sys.stdout = sys.stdout, io.StringIO()
    try:
        for scores, tagger in nt.NeuralTaggerTrainer().train(documents or TRAIN, dev_tester=dev, seed=seed, model_dir=os.path.join(root, 'models'), **parameters):
            ctx.check(tagger is epochs[-1][0], 'the tagger of an epoch is not the tested one')
    finally:
        sys.stdout = out
    ctx.equal(len(epochs), parameters['epochs'], 'number of epochs')
    ctx.check(all(s.closings for s in tf1.sessions), 'a session is left open')
    del tf1.sessions[:]
    return epochs


def values(session):
    with session.graph.as_default():
        variables = sorted(session.graph.get_collection('variables'), key=lambda v: v.name)
        return dict(zip([v.name for v in variables], session.run(variables)))


def view(documents):
    result = []
    for d in documents:
        result.append((d.text, gen.doc_view(d)))
    return result


def tag(ctx, tagger, documents):
    return ctx.accepts('tagging', lambda: list(tagger.tag(iter(documents))))


# ----------------------------------------------------------- configurations
def pairs(thorough):
    s, f, t = list(SHARED), list(FEATURES), list(TASKS)
    if thorough:
        return [(a, b, c) for a in s for b in f for c in t]
    result, seen = [], set()
    for i, a in enumerate(s):
        for j, b in enumerate(f):
            # a Latin arrangement covers (part, features) once; the tasks run through all values for parts and for features
            result.append((a, b, t[(i + j) % len(t)]))
    seen = {(a, c) for a, b, c in result} | {(b, c) for a, b, c in result}
    for a in s:
        for b in f:
            for c in t:
                if (a, c) not in seen and (b, c) not in seen:
                    result.append((a, b, c))
                    seen |= {(a, c), (b, c)}
    for a in s:
        for k, c in enumerate(t):
            if (a, c) not in seen:
                result.append((a, f[k % len(f)], c))
    for b in f:
        for k, c in enumerate(t):
            if (b, c) not in seen:
                result.append((s[k % len(s)], b, c))
    return result


def known(task):
    """values a task can produce: token -> allowed"""
    tokens = [t for d in TRAIN for t in d.tokens]
    if task == 'dense':
        return {t.lemma for t in tokens}
    if task == 'joint':
        return {t.pos for t in tokens}
    return None


def verify_document(ctx, before, after, tasks):
    ctx.equal(after.text, before.text, 'text')
    ctx.equal([len(list(s.tokens)) for s in after.sentences], [len(list(s.tokens)) for s in before.sentences], 'lengths of sentences')
    ctx.equal(len(list(after.tokens)), len(list(before.tokens)), 'tokens')
    train = [t for d in TRAIN for t in d.tokens]
    for a, b in zip(after.tokens, before.tokens):
        ctx.equal((a.start, a.end, a.text), (b.start, b.end, b.text), 'token')
        if 'pos' not in TASKS[tasks]:
            ctx.equal(a.pos, b.pos, 'tag that is not predicted')
        elif TASKS[tasks]['pos']['config']['splitting'] == 'pos_joint':
            ctx.check(a.pos in [t.pos for t in train], 'tag {} is not in the training data', a.pos)
        else:
            ctx.check(a.pos.upos in {t.pos.upos for t in train} and a.pos.xpos in {t.pos.xpos for t in train}, 'tag {} of unknown parts', a.pos)
            feats = dict(a.pos.feats)
            seen = {i for t in train for i in t.pos.feats.items()}
            ctx.check(set(feats.items()) <= seen, 'unknown features {}', a.pos)
        if 'lemma' not in TASKS[tasks]:
            ctx.equal(a.lemma, b.lemma, 'lemma that is not predicted')
        else:
            builder = TASKS[tasks]['lemma']['builder']
            if builder == 'lemma_dense':
                ctx.check(a.lemma in {t.lemma for t in train}, 'lemma {!r} is not in the training data', a.lemma)
            elif builder == 'lemma_combo':
                ctx.check(isinstance(a.lemma, str) and len(a.lemma) <= 9 and set(a.lemma) <= set(''.join(t.lemma for t in train) + a.text),
                          'lemma {!r} of {!r} by transducer', a.lemma, a.text)
            else:
                ctx.check(isinstance(a.lemma, str), 'lemma {!r} of {!r}', a.lemma, a.text)


def configurations(ctx):
    shared, features, tasks = ctx.pick(pairs(ctx.thorough), 'configuration')
    k = pairs(ctx.thorough).index((shared, features, tasks))
    with gen.scratch() as root:
        files(root)
        optimizer = [{'type': 'Adam'}, {'type': 'RMSProp', 'initial_lr': .003}, {'type': 'GD', 'initial_lr': .1, 'lr_decay': .5}][k % 3]
        parameters = hyperparameters(shared, features, tasks, root, optimizer, batch_size=(1, 2, 3, 8)[k % 4])
        epochs = ctx.accepts('training {} {} {}'.format(shared, features, tasks), train, ctx, parameters, root,
                             tester=lambda tagger: (tag(ctx, tagger, DOCUMENTS), list(tf1.sessions)))
        previous = None
        for number, (tagger, (at_dev, _), variables) in enumerate(epochs):
            for before, after in zip(DOCUMENTS, at_dev):
                verify_document(ctx, before, after, tasks)
            ctx.check(all(np.isfinite(v).all() for v in variables.values()), 'weights that are no numbers')
            if previous is not None:
                changed = [n for n, v in variables.items() if not np.array_equal(v, previous[n])]
                ctx.check(changed, 'an epoch changed nothing')
                if features == 'given words':
                    ctx.check(not any(n.startswith('word_embeddings') for n in changed), 'untrainable vectors changed')
            previous = variables
            want = view(at_dev)
            path = os.path.join(root, 'models', 'epoch-{}'.format(number))
            if (number + k) % 2:
                ctx.equal(view(tag(ctx, tagger, DOCUMENTS)), want, 'epoch {} tagged after training'.format(number))
            else:
                with nt.NeuralTagger.load(path) as eager:
                    reverse = [tag(ctx, eager, [d])[0] for d in reversed(DOCUMENTS)]
                    ctx.equal(view(reverse[::-1]), want, 'epoch {} one document at a time'.format(number))
                    again = os.path.join(root, 'again')
                    eager.save(again)
                ctx.equal(view(tag(ctx, nt.LazyNeuralTagger(again), DOCUMENTS)), want, 'epoch {} saved again'.format(number))
        ctx.check(all(s.closings for s in tf1.sessions), 'a session is left open')
        del tf1.sessions[:]
        ctx.state(shared, features, tasks, hashlib.md5(repr(want).encode()).hexdigest())


# ----------------------------------------------------------------- learning
LEARN = [('words', 'trained words', 'joint'), ('words', 'trained words', 'xf'), ('words', 'trained words', 'uxf'), ('words', 'trained words', 'gran'),
         ('words', 'trained words', 'dense'), ('words', 'trained words', 'suffix'), ('words', 'trained words', 'combo'), ('words', 'trained words', 'uxf combo'),
         ('words', 'trained words', 'gran suffix'), ('words', 'characters cnn', 'gran'), ('words', 'characters rnn', 'uxf'), ('words', 'bpe cnn', 'suffix'),
         ('words', 'morfessor', 'xf'), ('words', 'everything', 'gran suffix'), ('bilstm', 'trained words', 'joint'), ('bilstm concat', 'trained words', 'uxf combo'),
         ('bilstm 2', 'characters cnn', 'dense'), ('dilated concat', 'trained words', 'uxf'), ('dilated sum', 'everything', 'gran'),
         ('bilstm sum', 'given words to train', 'xf')]


def learning(ctx):
    """after enough steps on an unambiguous treebank its annotation is reproduced, for most seeds"""
    shared, features, tasks = ctx.pick(LEARN, 'configuration')
    last = ctx.pick((7, 17, 27) if ctx.thorough else (7,), 'seed')
    gold, got = gold_of(tasks), None
    for seed in range(last, last + 6):
        with gen.scratch() as root:
            files(root)
            parameters = hyperparameters(shared, features, tasks, root, {'initial_lr': .015}, dropout=1.0, epochs=3, batch_size=2)
            epochs = ctx.accepts('training', train, ctx, parameters, root, seed, TRAIN * 50, lambda tagger: view(tag(ctx, tagger, [evl_clear(d) for d in TRAIN])))
        if any(e[1] == gold for e in epochs):
            ctx.state(shared, features, tasks, seed)
            return
        got = epochs[-1][1]
    ctx.fail('{} {} {}: the treebank is not learned: {}'.format(shared, features, tasks, [x for x in zip(got, gold) if x[0] != x[1]]))


def evl_clear(d):
    return dm.Document.from_document(d, [dm.Token.with_syntax(dm.Token.with_morphology(t)) for t in d.tokens])


def gold_of(tasks):
    result = []
    for d in TRAIN:
        tokens = []
        for t in d.tokens:
            t = dm.Token.with_syntax(t)
            tokens.append(dm.Token.with_morphology(t, pos=t.pos if 'pos' in TASKS[tasks] else None, lemma=t.lemma if 'lemma' in TASKS[tasks] else None))
        result.append(dm.Document.from_document(d, tokens))
    return view(result)


# ---------------------------------------------------------------- many epochs
def epochs(ctx):
    """the tagger of every epoch remains available after many others"""
    shared, features, tasks = ctx.pick((('words', 'trained words', 'joint'), ('words', 'characters average', 'suffix')), 'configuration')
    number = ctx.pick((1, 4, 9) if not ctx.thorough else (1, 2, 3, 5, 6, 9, 13, 24), 'epochs')
    with gen.scratch() as root:
        files(root)
        parameters = hyperparameters(shared, features, tasks, root, {'initial_lr': .015}, epochs=number)
        results = ctx.accepts('training', train, ctx, parameters, root, tester=lambda tagger: view(tag(ctx, tagger, DOCUMENTS)))
        for order in (range(number), range(number)[::-1]):
            for k in order:
                tagger, at_dev, _ = results[k]
                ctx.equal(view(tag(ctx, tagger, DOCUMENTS)), at_dev, 'epoch {} of {} tagged after training'.format(k, number))
                with ctx.accepts('loading', nt.NeuralTagger.load, os.path.join(root, 'models', 'epoch-{}'.format(k))) as eager:
                    ctx.equal(view(tag(ctx, eager, DOCUMENTS)), at_dev, 'epoch {} of {} loaded'.format(k, number))
        del tf1.sessions[:]
        ctx.state(shared, number, hashlib.md5(repr([r[1] for r in results]).encode()).hexdigest())


# ------------------------------------------------------------------ samples
OPTIONAL = [None, ('general', 'optimizer', 'lr_decrease_factor'), ('shared_part', 'config', 'sparse_input_prob'), ('shared_part', 'config', 'bilstm_layer_count'),
            ('shared_part', 'features_config', 'word_embedding', 'we_dense_size'), ('shared_part', 'features_config', 'word_characters', 'highway_layer'),
            ('shared_part', 'features_config', 'bpe_subwords', 'embedding_path'), ('pos', 'config', 'loss_weights'), ('lemma', 'config', 'loss_weights'), ('lemma', 'features_config', 'input_subwords', 'highway_layer'),
            ('lemma', 'features_config', 'input_subwords', 'embedding_path'), ('shared_part', 'features_config', 'word_embedding'),
            ('shared_part', 'features_config', 'morfessor_subwords'), ('shared_part', 'features_config', 'word_trained_embedding')]


def smaller(x):
    """sizes of the sample divided by 16, words with any frequency"""
    if isinstance(x, dict):
        return {k: v // 16 + 2 if k in ('size', 'count', 'dense_size', 'embed_size', 'lstm_cell_size', 'we_dense_size') and v > 31 else 1 if k == 'min_frequency' else smaller(v)
                for k, v in x.items()}
    return [smaller(v) for v in x] if isinstance(x, list) else x


def sample(root):
    import json
    import babylondigger
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(babylondigger.__file__))), 'resources', 'hyperparams.json')) as f:
        parameters = smaller(json.load(f))
    features = parameters['nn_config']['shared_part']['features_config']
    features['word_embedding']['path'] = os.path.join(root, 'words.vec')
    features['bpe_subwords']['embedding_path'] = os.path.join(root, 'bpe.vec')
    features['morfessor_subwords']['embedding_path'] = os.path.join(root, 'morphs.vec')
    features['morfessor_subwords']['segmenter_config']['path'] = os.path.join(root, 'morfessor.bin')
    subwords = parameters['nn_config']['lemma']['features_config']['input_subwords']
    vectors(os.path.join(root, 'letters.vec'), sorted(set(''.join(WORDS))), subwords['embed_size'], True)
    subwords['embedding_path'] = os.path.join(root, 'letters.vec')
    return parameters


def samples(ctx):
    """the sample of the repository, whole and without each optional parameter"""
    without = ctx.pick(OPTIONAL, 'without')
    with gen.scratch() as root:
        files(root)
        parameters = sample(root)
        parameters['epochs'] = 3
        if without:
            inner = parameters['nn_config']
            for key in without[:-1]:
                inner = inner[key]
            del inner[without[-1]]
            if without[-1] == 'embedding_path':
                inner.setdefault('embed_size', 5)
        results = digest(ctx.accepts('training the sample without {}'.format(without), train, ctx, parameters, root, tester=lambda t: view(tag(ctx, t, DOCUMENTS)), accuracy=0))
        if without and without[-1] == 'lr_decrease_factor':
            inner['lr_decrease_factor'] = 2
            ctx.check(digest(train(ctx, parameters, root, tester=lambda t: view(tag(ctx, t, DOCUMENTS)), accuracy=0)) == results, 'the learning rate does not decrease by 2 when no factor is given')
            inner['lr_decrease_factor'] = 3
            ctx.check(digest(train(ctx, parameters, root, tester=lambda t: view(tag(ctx, t, DOCUMENTS)), accuracy=0)) != results, 'the learning rate decreases by 2 when the factor is 3')
        ctx.state(without, results[0][-1])


# ---------------------------------------------------------------- repeating
REPEAT = [('words', 'trained words', 'gran suffix'), ('bilstm concat', 'everything', 'uxf combo'), ('dilated', 'characters cnn', 'binary'),
          ('bilstm cnn', 'morfessor', 'dense'), ('bilstm 2', 'characters attention', 'xf')]


def digest(epochs):
    result = []
    for tagger, tagged, variables in epochs:
        result.append(sorted((n, v.shape, hashlib.md5(np.ascontiguousarray(v).tobytes()).hexdigest()) for n, v in variables.items()) + [tagged])
    return result


def one(ctx, number, seed, keep=1.0):
    shared, features, tasks = REPEAT[number]
    with gen.scratch() as root:
        files(root)
        return digest(train(ctx, hyperparameters(shared, features, tasks, root, dropout=keep), root, seed, tester=lambda t: hashlib.md5(repr(view(tag(ctx, t, DOCUMENTS))).encode()).hexdigest()))


def repeating(ctx):
    number = ctx.pick(len(REPEAT), 'configuration')
    keep = ctx.pick((1.0, .5), 'dropout') if ctx.thorough else (1.0, .5)[number % 2]
    between = ctx.pick(('nothing', 'the same', 'another', 'another seed'), 'between')
    seed = ctx.pick((7, 0, 1, 2 ** 31 - 1), 'seed') if between == 'nothing' else 7
    first = ctx.accepts('training', one, ctx, number, seed, keep)
    if between == 'the same':
        one(ctx, number, 7)
    elif between == 'another':
        one(ctx, (number + 1) % len(REPEAT), 7)
    elif between == 'another seed':
        other = one(ctx, number, 8, keep)
        ctx.check(other != first, 'seeds 7 and 8 give the same weights')
    ctx.equal(one(ctx, number, seed, keep), first, 'the same training again')
    ctx.state(number, keep, between, seed)


class Quiet(object):
    """a context outside of exploration"""
    thorough = False

    def accepts(self, what, f, *args, **kwargs):
        return f(*args, **kwargs)

    def check(self, condition, message, *args):
        assert condition, message.format(*args)

    def equal(self, a, b, what):
        assert a == b, what


def processes(ctx):
    """training does not depend on the hash seed of the process"""
    number = ctx.pick(len(REPEAT), 'configuration')
    seed = ctx.pick(('1', '4242') if not ctx.thorough else ('0', '1', '2', '3', '4242', '99'), 'hash seed')
    here = ctx.accepts('training', one, ctx, number, 7)
    code = ('import sys; sys.path[:0] = {!r}; from checks import c38; c38.load(False); from tensorflow import nn; '
            'print("DIGEST", repr(c38.one(c38.Quiet(), {}, 7)))').format([p for p in sys.path if p], number)
    process = subprocess.run([sys.executable, '-B', '-c', code], env=dict(os.environ, PYTHONHASHSEED=seed), stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True)
    lines = [x for x in process.stdout.splitlines() if x.startswith('DIGEST ')]
    ctx.check(lines, 'training in another process failed: {}', process.stderr[-500:])
    ctx.check(lines[0][7:] == repr(here), 'training {} with hash seed {}: {} instead of {}', REPEAT[number], seed, lines[0][7:1000], repr(here)[:1000])
    ctx.state(number, seed)


SCENARIOS = {'configurations': configurations, 'samples': samples, 'learning': learning, 'epochs': epochs, 'repeating': repeating, 'processes': processes}
SPLIT = {'configurations': 1, 'samples': 1, 'learning': 1, 'repeating': 3, 'processes': 2}
