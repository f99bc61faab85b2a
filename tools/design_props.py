# oracle of every property, for DESIGN.md
ORACLE = {
'C01': 'mc/docs.py decides acceptance of a token/sentence list from the definition (pairwise overlap, sub-index numbering per span, exact cover by ranges); accepted documents are compared field by field with the sorted input.',
'C02': 'an independent tree test (one root, every head inside, reachability by following heads) on every head function; each function is given sentence-relative and document-relative.',
'C03': 'the reference computes both views of a head from the sentence offset; every way of giving a head must produce equal documents, disagreeing double specifications must be rejected.',
'C04': 'a document is generated together with the expected tokens, texts, gaps and sentence cuts, and every navigation step in both views is compared with that list.',
'C05': 'a shadow record of every token is kept; after each operation of the sequence (derivation, or mutation of a dict/list passed in or handed out) all tokens ever created are compared with their shadows.',
'C06': 'component tuples are the reference for equality; order axioms are tested on all pairs/triples; sorting every permutation must give one result.',
'C07': 'texts are generated from an abstract treebank (mc/conll.py), which is also the expected answer.',
'C08': 'the expected sequence is the list of generated sentences; the explorer schedules start/advance/close/drop steps of several iterators; open files are observed through /proc/self/fd.',
'C09': 'the intact text is the reference: whatever is yielded before the error must be identical to complete leading sentences; malformed texts are classified by the grammar in mc/conll.py.',
'C10': 'the documents themselves (projected to the selected columns) are compared with what reading back gives; bytes of the file and the string writer are compared.',
'C11': 'spans, words and sentence counts are computed from the document; self-evaluation must give exactly 1.',
'C12': 'mc/udref.py: an independent loader written from the CoNLL-U definition (accept/reject plus the loaded structure).',
'C13': 'mc/udref.py aligns words by brute force from the documented rules; ratios are exact fractions.',
'C14': 'mc/udref.py counts agreeing aligned words attribute by attribute with exact fractions.',
'C15': 'the random generator asks the explorer, so every permutation outcome is visited; permutation, displacement bound, independence of interleaved passes and reproducibility are checked on each.',
'C16': 'string equality of the restored lemma and the definition of the common prefix.',
'C17': 'a linear scan with str.endswith / equality over all rules.',
'C18': 'the reference pads by recursion on the nesting depth of the whole batch.',
'C19': 'each extractor is run alone; the merged result must be the union, the interpretation of merged labels the composition.',
'C20': 'collections.Counter with the documented threshold; ids are only required to be distinct, dense and stable.',
'C21': 'decode(encode(tag)) must be the tag; every combination of ids decodes to a tag of known parts.',
'C22': 'rules are extracted by string comparison in the check; the mask must be the set of applicable rules of the inventory; encode/interpret must restore the lemma.',
'C23': 'the draws are recorded in order; each id must be replaced exactly when its own draw is below the rate.',
'C24': 'files are generated from a dictionary word → vector, which is looked up again through ids and initial values.',
'C25': 'the expected document is computed from the input and the training tags (most frequent one).',
'C26': 'the stand-in model records the sentences it is given and answers with enumerated annotations; both directions are compared word by word.',
'C27': 'the stand-in model answers each sentence with enumerated label vectors and records the features; saving/loading compares the documents produced by both taggers.',
'C28': 'function composition of the single processors; a stack automaton accepts exactly the legal enter/exit traces.',
'C29': 'mc/udref.py scores the gold text against the text of what the tagger returned; the tagger stand-in records what it was given.',
'C30': 'the reference keeps the first maximum over the enumerated score sequence; the scratch directory is listed after every step.',
'C31': 'exact fractions of the means of the best scores per seed.',
'C32': 'itertools.product over the grid, applied to a deep copy of the base parameters; sharing is detected by mutating trainers.',
'C33': 'the recording model lists all minibatches; the learning rate schedule is recomputed from the statement.',
'C34': 'the stand-in parser predicts values that encode sentence and position, so any misplacement is visible.',
'C35': 'all weights and predictions before and after each operation, on real TensorFlow; every file of a saved model is removed, emptied, cut or exchanged.',
'C36': 'losses and predictions recomputed by relations that must hold between runs (same network, changed padding / masks / labels) and by the arg-min over the announced distribution, on real TensorFlow.',
'C37': 'mc/layers.py, an independent numpy implementation of the described layers and losses, with all assignments of equal-shaped variables to their roles; gradients by two-sided differences of that reference.',
'C38': 'relations between runs: tagged by the same tagger in other ways, trained again in other circumstances; labels must come from the treebank; the treebank itself is what a trained tagger must return.',
'C39': 'the scripts themselves are run; expected trainings, orders, reports, files and closed models follow from the enumerated settings and scores by the statement; directories are compared byte by byte.',
'C40': 'mc/udref.py scores the two files; every number of the printed report is compared with it, every fault must end in an error without a report.',
'C41': 'A table of which parameters are required, optional, or take which names (from the documentation of the configuration) decides for every changed place whether training must be refused or must run.',
}
