"""C41 Configurations that cannot be honoured are refused before anything is trained or saved"""
import contextlib
import copy
import io
import os

from checks import c38
from mc import gen, tf1

TIMEOUT = 300
BOUNDS = {
    'quick': 'every single change of one parameter of 6 configurations that together use every builder, feature and task: removed (unless it is optional), unknown or misspelled names (6 each), '
             'sizes and numbers of layers that are negative or no numbers, results of other shared parts, missing files, sums of different sizes, missing, unknown and repeated tasks; the allowed changes '
             'of the largest configuration are trained 2 epochs; 4 embedding files with or without header damaged in 4 lines in 5 ways; 27 misspelled training methods',
    'thorough': '9 configurations, every allowed change trained; every line of the embedding files damaged',
}
ASSUMPTIONS = ['TensorFlow 1 functions removed from the installed TensorFlow 2 (dense, dropout, LSTMCell) are replaced by mc/tf1.py; one thread per session',
               'parameters that a configuration does not use are not decided, nor are sizes of 0']
GONE = '<removed>'
# (shared part, features, tasks): together they use every parameter
BASES = [('bilstm concat', 'everything', 'uxf combo'), ('dilated sum', 'given words', 'gran suffix'), ('bilstm cnn concat', 'characters rnn', 'binary'),
         ('dilated', 'morfessor', 'joint'), ('words', 'bpe', 'dense'), ('bilstm sum', 'trained words', 'suffix'),
         ('bilstm 2', 'characters attention', 'xf'), ('dilated concat', 'bpe cnn', 'combo'), ('words sparse', 'given words to train', 'uxf')]


def load(thorough):
    global nt
    c38.load(thorough)
    nt = c38.nt


def parameters_of(base, root):
    parameters = c38.hyperparameters(*base, root)
    parameters['seed'] = 7
    return parameters


def leaves(config, path=()):
    """all places of a configuration"""
    items = config.items() if isinstance(config, dict) else enumerate(config)
    for k, v in items:
        yield path + (k,), v
        if isinstance(v, (dict, list)):
            yield from leaves(v, path + (k,))


def without(parameters, path):
    """the value at the place, or None"""
    for k in path:
        if not isinstance(parameters, (dict, list)) or isinstance(parameters, dict) and k not in parameters:
            return None
        parameters = parameters[k]
    return parameters


SIZES = ('size', 'count', 'dense_size', 'embed_size', 'lstm_cell_size', 'we_dense_size', 'cnn_bilstm_dense_size', 'max_word_length')
NAMES = ('word_features', 'bilstm', 'bilstm_and_word_features', 'bilstm_cnn', 'dilated_cnn', 'dilated_cnn_and_word_features')


def provided(shared):
    """names of the results of a shared part"""
    builder, skip = shared['builder'], shared['config'].get('skip_connection')
    result = {'word_features'}
    if builder.startswith('BiLSTM'):
        result |= {'bilstm'} | ({'bilstm_and_word_features'} if skip else set()) | ({'bilstm_cnn'} if builder == 'BiLSTM_CNN' else set())
    if builder == 'Dilated_CNN':
        result |= {'dilated_cnn'} | ({'dilated_cnn_and_word_features'} if skip else set())
    return result


def changes(parameters, path, value):
    """(other value, whether the configuration must be accepted)"""
    key, inside = path[-1], without(parameters, path[:-1])
    shared = parameters['nn_config']['shared_part']
    used = {parameters['nn_config'][t]['config']['shared_name'] for t in parameters['tasks']}
    vectors = isinstance(inside, dict) and 'embedding_path' in inside
    ignored = vectors and key in ('embed_size', 'min_frequency') and path[1] == 'shared_part'
    if isinstance(key, str):
        if key in ('lr_decrease_factor', 'loss_weights', 'highway_layer', 'UPOS', 'XPOS', 'FEATS') or key == 'sparse_input_prob':
            yield GONE, True
        elif key == 'we_dense_size':
            yield GONE, shared['config'].get('skip_connection') != 'sum'
        elif path[-2:-1] == ('features_config',) and path[1] == 'shared_part':
            yield GONE, len(inside) > 1 and shared['config'].get('skip_connection') != 'sum'
        elif key == 'skip_connection':
            yield GONE, not any(n.endswith('_and_word_features') for n in used)
            yield None, not any(n.endswith('_and_word_features') for n in used)
        elif key == 'bilstm_layer_count' and path[-2] == 'config':
            yield GONE, True
        elif key == 'embedding_path':
            if 'embed_size' in inside:
                yield GONE, True
        elif key == 'trainable' and path[1] == 'lemma' or key == 'trainable' and not vectors and path[-2] in ('word_characters', 'bpe_subwords', 'morfessor_subwords') or ignored:
            pass        # not used: not decided
        elif key == 'min_frequency' and vectors:
            pass
        else:
            yield GONE, False
    if key in ('builder', 'segmenter', 'aggregator', 'splitting', 'skip_connection', 'type'):
        for other in ('unknown', '', value.upper() if value != value.upper() else value.lower(), value + ' ', value[:-1]) + ((None,) if key != 'skip_connection' else ()):
            yield other, False
    if key == 'shared_name':
        for other in ('unknown', '', None) + NAMES:
            if other != value:
                yield other, other in provided(shared)
    if key in ('path', 'embedding_path'):
        yield value + '.gone', False
        yield os.path.dirname(value), False
    if key in SIZES and not ignored:
        for other in (-1, 'many', None):
            yield other, False
    if key == 'bilstm_layer_count' and path[-2] == 'config':
        for other in (0, -1, 'many', None):
            yield other, False
    if shared['config'].get('skip_connection') == 'sum' and path[1:-1] == ('shared_part', 'config') and key == 'lstm_cell_size':
        yield value + 1, False
    if shared['config'].get('skip_connection') == 'sum' and path[1:] == ('shared_part', 'config', 'cnn_kernels', 1, 'count'):
        yield value + 1, False
    if shared['config'].get('skip_connection') == 'sum' and path[-2:-1] in (('word_trained_embedding',), ('word_embedding',)) and key in ('size', 'we_dense_size'):
        for other in (1, value - 1, value + 1, value * 2):      # 1 would broadcast
            yield other, False
    if shared['config'].get('skip_connection') == 'sum' and path[1:] == ('shared_part', 'config', 'cnn_kernels', 1, 'count'):
        yield 1, False
    if key == 'cnn_kernels':
        yield [], False
        yield None, False
    if key == 'tasks':
        for other in ([], ['unknown'], value + ['unknown'], ['unknown'] + value, value + value[:1], None):
            yield other, False


def faults(number):
    """(place, other value, accepted): every change of one place of a configuration"""
    parameters = parameters_of(BASES[number], '/nowhere')
    result = []
    for path, value in leaves(parameters):
        result += [(path, v, accepted) for v, accepted in changes(parameters, path, value)]
    return result


def put(config, path, value):
    for k in path[:-1]:
        config = config[k]
    if value is GONE:
        del config[path[-1]]
    else:
        config[path[-1]] = value


def attempt(ctx, parameters, root, accepted, what, documents=None):
    folder = os.path.join(root, 'models')
    epochs, error = 0, None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            for _ in nt.NeuralTaggerTrainer().train(documents or c38.TRAIN, dev_tester=lambda tagger: {'UPOS': c38.Score(.5)}, model_dir=folder, **parameters):
                epochs += 1
    except Exception as e:
        error = e
    open_sessions = [s for s in tf1.sessions if not s.closings]
    for s in open_sessions:
        s.close()
    del tf1.sessions[:]
    ctx.check(not open_sessions, '{}: a session is left open ({!r})', what, error)
    if accepted:
        ctx.check(error is None, '{}: {!r}', what, error)
        ctx.equal(epochs, parameters['epochs'], '{}: epochs'.format(what))
    else:
        ctx.check(error is not None, '{} is accepted: {} epochs were trained', what, epochs)
        ctx.equal(epochs, 0, '{}: epochs trained before {!r}'.format(what, error))
        saved = [os.path.join(r, f) for r, _, names in os.walk(folder) for f in names]
        ctx.equal(saved, [], '{}: files saved before {!r}'.format(what, error))


def parameters(ctx):
    """every change of one parameter of a configuration that uses it"""
    number = ctx.pick(len(BASES) if ctx.thorough else 6, 'configuration')
    path, value, accepted = ctx.pick(faults(number), 'change')
    if accepted and not ctx.thorough and number != 0:
        ctx.prune()         # the check of configurations trains them
    with gen.scratch() as root:
        c38.files(root)
        changed = copy.deepcopy(parameters_of(BASES[number], root))
        if path[-1] in ('path', 'embedding_path') and value is not GONE:
            value = value.replace('/nowhere', root)
        put(changed, path, value)
        attempt(ctx, changed, root, accepted, '{} with {} = {!r}'.format(' / '.join(BASES[number]), '.'.join(map(str, path)), value))
        ctx.state(number, path, str(value).replace(root, ''))


# ----------------------------------------------------------------- vectors
FILES = {'words.vec': (1, 'shared_part'), 'bpe.vec': (0, 'shared_part'), 'morphs.vec': (3, 'shared_part'), 'chars.vec': (0, 'lemma')}
DAMAGE = {'fewer numbers': lambda l: l.rsplit(' ', 1)[0], 'more numbers': lambda l: l + ' 0.5', 'no numbers': lambda l: l.split(' ')[0],
          'no number': lambda l: l.rsplit(' ', 1)[0] + ' x', 'two in one': lambda l: l + ' ' + l}


def vectors(ctx):
    """vectors of different sizes in a file"""
    name = ctx.pick(sorted(FILES), 'file')
    with gen.scratch() as root:
        c38.files(root)
        path = os.path.join(root, name)
        with open(path, encoding='utf8') as f:
            lines = f.read().splitlines()
        header = len(lines[0].split()) == 2
        lines = lines[1:] if header else lines
        header = ctx.flag('header')
        line = ctx.pick([0, 1, len(lines) // 2, len(lines) - 1] if not ctx.thorough else len(lines), 'line')
        kind = ctx.pick([d for d in DAMAGE if header or line or d in ('fewer numbers', 'more numbers', 'no number')], 'damage')
        damaged = list(lines)
        damaged[line] = DAMAGE[kind](damaged[line])
        with open(path, 'w', encoding='utf8') as f:
            if header:
                f.write('{} {}\n'.format(len(lines), len(lines[0].split()) - 1))
            f.write('\n'.join(damaged) + '\n')
        attempt(ctx, parameters_of(BASES[FILES[name][0]], root), root, False, '{} with {} in line {}'.format(name, kind, line + header))
        ctx.state(name, header, line, kind)


# ----------------------------------------------------------------- methods
def methods(ctx):
    """training methods are found by their exact names"""
    import babylondigger.evaluation.trainers as trainers
    names = ctx.accepts('names of methods', trainers.trainer_names)
    ctx.equal(sorted(names), ['neural', 'neural_pretrained', 'stub'], 'methods')
    name = ctx.pick(sorted(names), 'method')
    trainer = ctx.accepts('trainer', trainers.get_trainer, name)
    ctx.equal(type(trainer).__name__, {'neural': 'NeuralTaggerTrainer', 'neural_pretrained': 'PretrainedTaggerTrainer', 'stub': 'StubTaggerTrainer'}[name], 'trainer')
    other = ctx.pick(sorted({name.upper(), name + ' ', name[:-1], name + 's', '', None, 'unknown', name.replace('_', '-'), name.title()} - set(names), key=str), 'other name')
    ctx.rejects('method {!r}'.format(other), trainers.get_trainer, other)
    ctx.state(name, other)


SCENARIOS = {'parameters': parameters, 'vectors': vectors, 'methods': methods}
SPLIT = {'parameters': 200}
