"""C40 The scorer script prints exactly the scores of the two files it is given"""
import contextlib
import io as stdio
import os
import re
import runpy
import subprocess
import sys
import warnings

from mc import conll, evals, udref
from mc.conll import C, E, M, W
from mc.gen import scratch

TIMEOUT = 60
MODULE = 'babylondigger.evaluation.conll17_ud_eval'
SEGMENTATION = ('Tokens', 'Sentences', 'Words')
METRICS = SEGMENTATION + ('UPOS', 'XPOS', 'Feats', 'AllTags', 'Lemmas', 'UAS', 'LAS', 'CLAS')
BOUNDS = {
    'quick': 'all pairs of 15 treebanks of one text (segmentations, multi-word tokens, empty nodes, annotations) x 13 command lines (verbosity, weights, spelling and order of '
             'options) x 4 weights files; all scores k/n of <=40 words; every fault of a file or option: 29 malformed or missing files and command lines, in the process and in a process of its '
             'own; treebanks of 200 words',
    'thorough': 'all scores k/n of <=120 words',
}
ASSUMPTIONS = ['the printed number is the score rounded to two decimals, in either direction when it is in the middle']


def load(thorough):
    global ev, TEXTS, SCORES
    import babylondigger.evaluation.conll17_ud_eval as ev
    TEXTS = [conll.render(t) for t in treebanks()]
    SCORES = {}


def n(form, head, **kw):
    return W(form, head, **dict(dict(lemma=form, upos='N', xpos='X', feats='A=1', deprel='root' if head == 0 else 'dep'), **kw))


def treebanks():
    """of the text abécd"""
    return [
        [[n('a', 0), n('bé', 1), n('c', 1), n('d', 3)]],
        [[n('a', 0), n('bé', 1)], [n('c', 0), n('d', 1)]],
        [[n('a', 0)], [n('bé', 0), n('c', 1), n('d', 1)]],
        [[n('abé', 0), n('c', 1), n('d', 1)]],
        [[n('abécd', 0)]],
        [[n('a', 2), n('b', 0), n('é', 2), n('c', 3), n('d', 3)]],
        [[M('abé', [n('a', 0), n('bé', 1)]), n('c', 1), n('d', 3)]],
        [[M('abé', [n('a', 0), n('x', 1), n('BÉ', 1)]), n('c', 1), n('d', 3)]],
        [[C('# text = a'), n('a', 0), E(), n('bé', 1), n('c', 1), E(), n('d', 3)]],
        [[n('a', 0, upos='V'), n('bé', 1, xpos='Y'), n('c', 1, feats='A=2'), n('d', 3, lemma='q')]],
        [[n('a', 0, upos='_', xpos='_', feats='_', lemma='_'), n('bé', 1), n('c', 1), n('d', 3)]],
        [[n('a', 2), n('bé', 3), n('c', 4), n('d', 0)]],
        [[n('a', 0), n('bé', 1, deprel='case'), n('c', 1, deprel='punct'), n('d', 3, deprel='nsubj:pass')]],
        [[n('a', 0), n('bé', 1, deprel='det:x'), n('c', 1, deprel='nsubj'), n('d', 3, deprel='nsubj')]],
        [[n('a', 0, misc='SpaceAfter=No'), n('bé', 1, deps='1:dep'), n('c', 1), n('d', 1)]],
    ]


WEIGHTS = {'empty': ('', {}), 'some': ('# x\n\nnsubj 0.5\r\n  dep\t2 \n', {'nsubj': .5, 'dep': 2.}), 'subtypes': ('det:x 3\nnsubj:pass 0.25\nnsubj 0.5\nnsubj:x 4\ncase:y 7\n', {'nsubj': .5}),
           'zero': ('root 0\ncase 1e1\ndep 0', {'root': 0., 'case': 10., 'dep': 0.})}
LINES = [
    ('{gold} {system}', 0), ('-v {gold} {system}', 1), ('{gold} {system} --verbose', 1), ('{gold} -vv {system}', 1), ('-v {gold} -v {system} -v', 1),
    ('{gold} {system} -w {weights}', 2), ('--weights={weights} {gold} {system}', 2), ('-w {weights} -v {gold} {system}', 2), ('{gold} --weights {weights} {system} --verbose', 2),
    ('-w{weights} -- {gold} {system}', 2), ('-vw {weights} {gold} {system}', 2), ('--verb {gold} {system}', 1), ('{gold} {system} --we {weights}', 2),
]


class Result(object):
    def __init__(self, error, out):
        self.error, self.out = error, out


def script(arguments):
    """runs the script in this process"""
    out = stdio.StringIO()
    argv, sys.argv = sys.argv, ['conll17_ud_eval.py'] + arguments
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(stdio.StringIO()), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                ev.main()
                error = None
            except SystemExit as e:
                error = e if e.code else None
            except Exception as e:
                error = e
    finally:
        sys.argv = argv
    return Result(error, out.getvalue())


def expected(gold, system, weights):
    key = (gold, system, None if weights is None else tuple(sorted(weights.items())))
    if key not in SCORES:
        SCORES[key] = udref.evaluate(udref.load(gold), udref.load(system), weights)
    return SCORES[key]


def near(printed, score):
    return re.match(r'^\d+\.\d\d$', printed) and abs(float(printed) - 100 * score) <= .005 + 1e-9


def verify(ctx, out, mode, want, what):
    lines = out.split('\n')
    ctx.equal(lines.pop(), '', 'end of the output')
    if mode == 0:
        ctx.equal(len(lines), 1, 'lines of {!r}'.format(out))
        match = re.match(r'^LAS F1 Score: (.*)$', lines[0])
        ctx.check(match and near(match.group(1), want['LAS'][2]), '{}: {!r} instead of the F1 of {}', what, lines[0], want['LAS'])
        return
    names = METRICS + (('WeightedLAS',) if mode == 2 else ())
    head = [c.strip() for c in lines[0].split('|')]
    ctx.equal(head, ['Metrics', 'Precision', 'Recall', 'F1 Score', 'AligndAcc'], 'head of the table')
    ctx.check(set(lines[1]) == {'-', '+'}, 'second line {!r}', lines[1])
    rows = [[c.strip() for c in x.split('|')] for x in lines[2:]]
    ctx.equal(tuple(r[0] for r in rows), names, 'metrics of the table')
    for row in rows:
        score = want[row[0]]
        ctx.op()
        ctx.check(len(row) == 5 and all(near(p, s) for p, s in zip(row[1:4], score)) and (near(row[4], score[3]) if score[3] is not None else row[4] == ''),
                  '{}: row {} instead of {}', what, row, score)


def put(root, **texts):
    paths = {}
    for name, text in texts.items():
        paths[name] = os.path.join(root, name)
        with open(paths[name], 'w', encoding='utf8', newline='') as f:
            f.write(text)
    return paths


def reports(ctx):
    g, s = ctx.pick(len(TEXTS), 'gold'), ctx.pick(len(TEXTS), 'system')
    line, mode = ctx.pick(LINES, 'command line')
    text, table = WEIGHTS[ctx.pick(list(WEIGHTS), 'weights')] if mode == 2 else ('', None)
    with scratch() as root:
        paths = put(root, gold=TEXTS[g], system=TEXTS[s], weights=text)
        before = evals.snapshot(root)
        result = script(line.format(**paths).split(' '))
        ctx.check(result.error is None, '{} failed: {!r}', line, result.error)
        ctx.equal(evals.snapshot(root), before, 'files')
    want = expected(TEXTS[g], TEXTS[s], table)
    ctx.check('UPOS' in want, 'the alignment of {} and {} is not determined', g, s)
    verify(ctx, result.out, mode, want, (g, s, line))
    ctx.state(result.out)


def fractions(ctx):
    """every fraction of right words"""
    total = ctx.pick(120 if ctx.thorough else 40, 'words') + 1
    right = ctx.pick(total + 1, 'right')
    attribute = ctx.pick(('upos', 'deprel'), 'attribute')
    gold = conll.chain([W('w', lemma='l', upos='N', deprel='dep') for i in range(total)])
    system = conll.chain([W('w', lemma='l', upos='N', deprel='dep') for i in range(total)])
    for w in system[right:]:
        setattr(w, attribute, 'other')
    texts = conll.render([gold]), conll.render([system])
    with scratch() as root:
        paths = put(root, gold=texts[0], system=texts[1])
        for mode, options in enumerate(([], ['-v'])):
            result = script(options + [paths['gold'], paths['system']])
            ctx.check(result.error is None, '{} of {}: {!r}', right, total, result.error)
            score = (right / total,) * 4
            one = (1.,) * 4
            want = {m: one[:3] + (None,) if m in SEGMENTATION else one for m in METRICS}
            for m in ('UPOS', 'AllTags') if attribute == 'upos' else ('LAS', 'CLAS'):
                want[m] = score
            verify(ctx, result.out, mode, want, (right, total, attribute))
    ctx.state(total, right, attribute)


# -------------------------------------------------------------------- faults
GOOD = '1\ta\ta\tN\t_\t_\t0\troot\t_\t_\n\n'
FILES = {
    'missing': None, 'directory': 0, 'other text': GOOD.replace('\ta\ta', '\tb\ta'), 'longer text': GOOD + GOOD, 'empty': '', 'no empty line': GOOD[:-1],
    'columns': GOOD.replace('\t_\n', '\n'), 'number': '2' + GOOD[1:], 'cycle': GOOD.replace('\t0\troot', '\t1\tdep'), 'outside': GOOD.replace('\t0\troot', '\t2\tdep'),
    'no root': GOOD.replace('\t0\t', '\t-1\t'), 'two roots': GOOD[:-1] + '2' + GOOD[1:], 'no head': GOOD.replace('\t0\t', '\t_\t'), 'range': '1-2\ta' + '\t_' * 8 + '\n' + GOOD,
    'no form': GOOD.replace('\ta\ta', '\t\ta'), 'binary': b'\xff\xfe\x00',
}
TABLES = {'missing': None, 'one column': 'dep\n', 'three columns': 'a b 1\n', 'no number': 'dep x\n', 'remark': 'dep 1 # x\n', 'late': 'dep 1\n# x\n\nroot\n', 'comma': 'dep 0,5\n'}
COMMANDS = {'nothing': [], 'one file': ['{gold}'], 'three files': ['{gold}', '{system}', '{system}'], 'unknown option': ['--las', '{gold}', '{system}'],
            'no weights': ['{gold}', '{system}', '-w'], 'verbose with value': ['{gold}', '{system}', '--verbose=1']}


def faults(ctx):
    kind = ctx.pick(('gold', 'system', 'weights', 'command'), 'fault in')
    fault = ctx.pick(list({'weights': TABLES, 'command': COMMANDS}.get(kind, FILES)), 'fault')
    verbose = ctx.flag('verbose')
    own = not verbose and ctx.flag('process of its own')
    with scratch() as root:
        paths = put(root, gold=GOOD, system=GOOD, weights='dep 1\n')
        arguments = ['{gold}', '{system}'] + (['-w', '{weights}'] if kind == 'weights' else []) + (['-v'] if verbose else [])
        if kind == 'command':
            arguments = COMMANDS[fault] + (['-v'] if verbose and fault != 'no weights' else [])
        else:
            content = (TABLES if kind == 'weights' else FILES)[fault]
            os.remove(paths[kind])
            if content == 0:
                os.makedirs(paths[kind])
            elif content is not None:
                with open(paths[kind], 'wb') as f:
                    f.write(content if isinstance(content, bytes) else content.encode())
        before = evals.snapshot(root)
        arguments = [a.format(**paths) for a in arguments]
        if own:
            process = run(arguments)
            ctx.check(process.returncode != 0, '{} {}: exit status 0', kind, fault)
            out = process.stdout
        else:
            result = script(arguments)
            ctx.check(result.error is not None, '{} {} is accepted:\n{}', kind, fault, result.out)
            out = result.out
        ctx.equal(out, '', 'output for {} {}'.format(kind, fault))
        ctx.equal(evals.snapshot(root), before, 'files')
    ctx.state(kind, fault, verbose, own)


def run(arguments, how='module', **environment):
    source = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(ev.__file__))))
    command = ['-m', MODULE] if how == 'module' else [os.path.abspath(ev.__file__)]
    return subprocess.run([sys.executable, '-B'] + command + arguments, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True,
                          env=dict(os.environ, PYTHONPATH=source, **environment))


def processes(ctx):
    """as a script and as a module, for every kind of report, whatever the encoding of the terminal"""
    how = ctx.pick(('module', 'script'), 'how')
    line, mode = ctx.pick([LINES[0], LINES[1], LINES[5]], 'command line')
    locale = ctx.pick(('C', 'C.UTF-8'), 'locale')
    g, s = ctx.pick(((0, 6), (7, 9)), 'files')
    with scratch() as root:
        paths = put(root, gold=TEXTS[g], system=TEXTS[s], weights=WEIGHTS['some'][0])
        process = run(line.format(**paths).split(' '), how, LC_ALL=locale, PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')
        ctx.equal(process.returncode, 0, 'exit status ({})'.format(process.stderr[-300:]))
    verify(ctx, process.stdout, mode, expected(TEXTS[g], TEXTS[s], WEIGHTS['some'][1] if mode == 2 else None), (how, line, g, s))
    ctx.state(how, line, locale, g, s)


def scale(ctx):
    count = ctx.pick((20, 200), 'sentences')
    at = ctx.pick((0, count // 2, count - 1), 'deviation')
    gold = [[n('a', 0), n('b', 1), M('cd', [n('c', 1), n('d', 3)])] for _ in range(count)]
    system = [[n('a', 0), n('b', 1), M('cd', [n('c', 1), n('d', 3)])] for _ in range(count)]
    system[at] = ctx.pick(([n('a', 2), n('b', 0), n('cd', 2)], [n('a', 0, upos='V'), n('b', 1), n('c', 1), n('d', 1)], [n('ab', 0), n('c', 1), n('d', 1)]), 'sentence')
    texts = conll.render(gold), conll.render(system)
    with scratch() as root:
        paths = put(root, gold=texts[0], system=texts[1], weights=WEIGHTS['some'][0])
        for line, mode in (LINES[0], LINES[1], LINES[5]):
            result = script(line.format(**paths).split(' '))
            ctx.check(result.error is None, '{} failed: {!r}', line, result.error)
            verify(ctx, result.out, mode, expected(texts[0], texts[1], WEIGHTS['some'][1] if mode == 2 else None), (count, at))
    ctx.state(count, at, result.out)


SCENARIOS = {'reports': reports, 'fractions': fractions, 'faults': faults, 'processes': processes, 'scale': scale}
