"""abstract CoNLL-U treebanks: rendering to text and the tokens a reader must produce (independent of the code under test)

A sentence is a list of nodes:
  word          W(form, ...)
  multi-word    M(surface, [W, ...], misc)
  empty node    E(form)
  comment       C(text)
"""
COLUMNS = ('ID', 'FORM', 'LEMMA', 'UPOS', 'XPOS', 'FEATS', 'HEAD', 'DEPREL', 'DEPS', 'MISC')
ID, FORM, LEMMA, UPOS, XPOS, FEATS, HEAD, DEPREL, DEPS, MISC = range(10)
ALL = (LEMMA, UPOS, XPOS, FEATS, HEAD, DEPREL)


class W(object):
    def __init__(self, form, head='_', lemma='_', upos='_', xpos='_', feats='_', deprel='_', deps='_', misc='_'):
        self.form, self.lemma, self.upos, self.xpos, self.feats = form, lemma, upos, xpos, feats
        self.head, self.deprel, self.deps, self.misc = head, deprel, deps, misc

    def columns(self, index):
        return [str(index), self.form, self.lemma, self.upos, self.xpos, self.feats, str(self.head), self.deprel,
                self.deps, self.misc]


class M(object):
    def __init__(self, form, words, misc='_'):
        self.form, self.words, self.misc = form, words, misc


class E(object):
    def __init__(self, form='e', misc='_', inside=None):
        self.form, self.misc = form, misc


class C(object):
    def __init__(self, text):
        self.text = text


def words(sentence):
    """word nodes of a sentence in order"""
    for node in sentence:
        if isinstance(node, W):
            yield node
        elif isinstance(node, M):
            for w in node.words:
                if isinstance(w, W):
                    yield w


def lines(sentence):
    result = []
    index = 0
    sub = 0

    def emit(node):
        nonlocal index, sub
        if isinstance(node, C):
            result.append(node.text)
        elif isinstance(node, E):
            sub += 1
            result.append('\t'.join(['%d.%d' % (index, sub), node.form, 'elemma', 'EUPOS', 'EXPOS', 'E=f', '_', '_', '0:root', node.misc]))
        else:
            index += 1
            sub = 0
            result.append('\t'.join(node.columns(index)))

    for node in sentence:
        if isinstance(node, M):
            count = sum(isinstance(w, W) for w in node.words)
            result.append('\t'.join(['%d-%d' % (index + 1, index + count), node.form] + ['_'] * 7 + [node.misc]))
            for w in node.words:
                emit(w)
        else:
            emit(node)
    return result


def render(sentences, newline='\n'):
    return ''.join(line + newline for s in sentences for line in lines(s) + [''])


def value(text):
    return None if text == '_' else text


def feats_view(text):
    if text == '_':
        return ()
    return tuple(sorted(tuple(f.split('=')) for f in text.split('|')))


def space_after(misc):
    return 'SpaceAfter=No' not in misc.split('|')


def expected(sentences, columns=ALL):
    """(text, sentence ranges, token rows) as mc.gen.doc_view(document, False) of the document holding these sentences"""
    columns = set(columns)
    if DEPREL in columns:
        columns.add(HEAD)
    text = ''
    rows, ranges = [], []

    def row(w, start, end, sub, replacement, form, first):
        pos = None
        if columns & {UPOS, XPOS, FEATS}:
            pos = (value(w.upos) if UPOS in columns else None, value(w.xpos) if XPOS in columns else None,
                   feats_view(w.feats) if FEATS in columns else ())
        head = value(str(w.head)) if HEAD in columns else None
        if head is not None:
            head = -1 if int(head) == 0 else first + int(head) - 1
        return (start, end, sub, replacement, form, value(w.lemma) if LEMMA in columns else None, pos, head,
                value(w.deprel) if DEPREL in columns else None)

    for sentence in sentences:
        first = len(rows)
        for node in sentence:
            if isinstance(node, (C, E)):
                continue
            start = len(text)
            text += node.form
            end = len(text)
            if space_after(node.misc):
                text += ' '
            if isinstance(node, W):
                rows.append(row(node, start, end, 0, None, node.form, first))
            else:
                sub = 0
                for w in node.words:
                    if isinstance(w, W):
                        rows.append(row(w, start, end, sub, w.form, w.form, first))
                        sub += 1
        ranges.append((first, len(rows)))
    return text, tuple(ranges), tuple(rows)


def chain(sentence, root=1):
    """give every word a head: a chain with the first word as root"""
    for i, w in enumerate(words(sentence)):
        w.head = i
        w.deprel = 'root' if i == 0 else 'dep'
    return sentence


def set_heads(sentence, heads):
    """heads: -1 for the root, else word index"""
    for w, h in zip(words(sentence), heads):
        w.head = h + 1
        w.deprel = 'root' if h == -1 else 'nsubj'
    return sentence
