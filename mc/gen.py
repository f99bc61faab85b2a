"""helpers shared by the checks: canonical views of documents and document enumerators (no repo import at module level)"""
import contextlib
import os
import shutil
import sys
import tempfile


def pos_view(pos):
    if pos is None:
        return None
    return (pos.upos, pos.xpos, tuple(sorted(pos.feats.items())))


def tok_view(token):
    """attributes of a bare token that are independent of the container"""
    return (token.start, token.end, token.sub_index, token.text_replacement, token.lemma, pos_view(token.pos),
            token.deprel)


def extras_view(token):
    return tuple(sorted((k, repr(v)) for k, v in token.extras.as_dict().items()))


def doc_tokens_view(doc, with_extras=True):
    result = []
    for t in doc.tokens:
        v = (t.start, t.end, t.sub_index, t.text_replacement, t.text, t.lemma, pos_view(t.pos), t.head_index, t.deprel)
        if with_extras:
            v += (extras_view(t),)
        result.append(v)
    return tuple(result)


def doc_view(doc, with_extras=True):
    return (doc.text, tuple((s.start, s.end) for s in doc.sentences_boundaries), doc_tokens_view(doc, with_extras))


def splits(n):
    """all partitions of range(n) into consecutive non-empty ranges"""
    if n == 0:
        return [()]
    result = []
    for mask in range(2 ** (n - 1)):
        bounds = [0] + [i + 1 for i in range(n - 1) if mask >> i & 1] + [n]
        result.append(tuple(zip(bounds, bounds[1:])))
    return sorted(result, key=len)


def is_tree(heads):
    """heads: per word None (no head), -1 (root) or index; True iff single rooted tree inside range(len(heads))"""
    n = len(heads)
    if any(h is None for h in heads):
        return False
    if sum(1 for h in heads if h == -1) != 1:
        return False
    for h in heads:
        if h != -1 and not 0 <= h < n:
            return False
    for i in range(n):
        seen = 0
        j = i
        while heads[j] != -1:
            j = heads[j]
            seen += 1
            if seen > n:
                return False
    return True


def trees(n):
    """all single rooted trees over n words, as head tuples"""
    import itertools
    return [h for h in itertools.product(range(-1, n), repeat=n) if is_tree(h)]


@contextlib.contextmanager
def scratch():
    memory = '/dev/shm'
    path = tempfile.mkdtemp(prefix='verif-mc-', dir=memory if os.path.isdir(memory) and os.access(memory, os.W_OK) else None)
    try:
        yield path
    finally:
        shutil.rmtree(path, ignore_errors=True)


def subsequence(needle, haystack):
    it = iter(haystack)
    return all(c in it for c in needle)
