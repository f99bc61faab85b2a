_TR = 'Exhaustive within the stated bounds on the real code; trusts the Python reference model in the check and the small-scope hypothesis beyond the bounds.'

prop('C01', 'Documents accept exactly the well-formed segmentations of a text',
     'A document can be built from tokens and sentence ranges exactly when no two tokens overlap, the words that share one span (a multi-word token) are numbered 0, 1, 2, … without gap or repetition, and the sentence ranges cover all tokens without overlap or gap; every other combination raises an error. '
     'The order in which tokens and sentences are supplied does not matter: tokens and sentences come out in text order and nothing is lost, duplicated or altered. '
     'Omitted sentence ranges mean one sentence over all tokens, and empty or negative token spans or sentence ranges cannot be constructed.',
     ['inputs'], 'all token lists and sentence lists, in every order',
     'The unit tests build fewer than ten fixed documents; acceptance must be decided right for every list of spans, sub-indices and ranges in every order.',
     [D], [('Document/_WordList constructor checks', D), ('_skipped_token, Token.intersects', D)],
     ['Document(...)', 'Document.tokens', 'Document.sentences_boundaries'], _TR)

prop('C02', 'Syntax validation accepts exactly single-rooted in-sentence trees',
     'A document built with syntax validation is accepted exactly when every sentence either has no heads at all or gives every token exactly one head such that exactly one token is the root, every other head is a token of the same sentence, and following heads from any token reaches the root. '
     'Cycles, several roots, no root, heads outside the sentence and partly annotated sentences always raise an error, wherever they occur in the document. '
     'The verdict does not depend on whether heads were given relative to the sentence or to the document.',
     ['inputs'], 'all head assignments of all sentences of a document',
     'Tests check one example per error; validity must be decided for every head function, whose number grows as n^n.',
     [D], [('Document validate_syntax', D), ('Token.fill_heads', D)], ['Document(..., validate_syntax=True)'], _TR)

prop('C03', 'Sentence-relative and document-relative heads are interchangeable',
     'Giving a head relative to its sentence or to the whole document yields the same document: in both the document view and the sentence view a token reports its head as the index used by that view, navigating to the head reaches the same word, a root reports no head token, and a token without head reports none. '
     'A head given in both forms that disagree is rejected. '
     'A head that points outside the sentence is never silently turned into a root.',
     ['inputs'], 'all documents, all heads, both representations',
     'Tests compare two fixed documents; the translation must be right for every sentence offset and every head.',
     [D], [('Token.fill_heads', D), ('NavigableToken.head / head_index', D)],
     ['NavigableToken.head', 'NavigableToken.head_index', 'is_root', 'has_head'], _TR)

prop('C04', 'Navigation, text and spacing agree between document and sentence views',
     'For every document, iterating, indexing and stepping through next/previous visit the same tokens and sentences in text order in the document view and in each sentence view, with first/last flags and counts that match. '
     'Every token shows exactly the text of its span (or its replacement form inside a multi-word token), the sentence text runs from the start of its first token to the end of its last, and a token reports a following space exactly when whitespace follows it or it ends the text. '
     'Out-of-range indices raise an index error and printing any document, even an empty one, works and shows all of its text.',
     ['inputs'], 'all documents and all navigation paths',
     'Tests navigate two documents; views must agree for all segmentations.',
     [D], [('_NavigableItem', D), ('DocumentToken.text/doc_text/space_after', D), ('Document.__str__', D)],
     ['Document.tokens', 'Document.sentences', 'next/previous', 'text', 'space_after', 'str(document)'], _TR)

prop('C05', 'Derivations change only what was asked; existing values are immutable',
     'Deriving a token with new morphology, new syntax, new extras or updated extras changes exactly those attributes and keeps every other one, for plain, document-bound and navigable tokens alike; deriving a document from new tokens keeps text and sentences and takes over exactly the new annotations. '
     'No derivation, and no later change of a dict or list that was passed in or handed out, changes any existing token, tag, extras or document. '
     'A derived document whose tokens do not line up one to one with the spans of the original is rejected.',
     ['histories', 'inputs'], 'all sequences of derivations and of outside mutations',
     'Tests apply a single derivation; the guarantee ranges over sequences of derivations with aliasing in between.',
     [D], [('Token.with_* / update_extras', D), ('Document.from_document', D), ('Pos / TokenExtras copies', D)],
     ['Token.with_morphology', 'Token.with_syntax', 'Token.update_extras', 'Document.from_document'], _TR)

prop('C06', 'Equality, hashing and ordering of tags, rules and documents are coherent',
     'Tags and lemma rules are equal exactly when all their components are equal, equal ones hash alike, and the order on them is total, transitive and consistent with equality, including tags whose XPOS or UPOS is missing. '
     'Two documents are equal exactly when text, sentence boundaries and every token attribute (span, form, lemma, tag, head, relation, extras) are equal, and likewise single tokens, sentences, sentence ranges and extras. '
     'Comparing any of them with an object of another type gives "not equal" instead of an exception.',
     ['inputs'], 'all pairs and triples of values',
     'Label vocabularies are built by sorting and hashing these values; tests compare a couple of instances.',
     [D, LE], [('Pos.__eq__/__lt__/__hash__', D), ('LemmaSuffixTransformation ordering', LE), ('Token/Document.__eq__', D)],
     ['==', '<', 'hash()'], _TR)

prop('C07', 'Reading CoNLL-U reproduces exactly what the file says',
     'Every word line of a CoNLL-U text becomes exactly one token with the form, lemma, UPOS, XPOS, features, head and relation of its columns ("_" meaning absent, except as form), restricted to the requested columns; comments and empty nodes ("4.1"), also inside multi-word ranges, leave no trace. '
     'The document text is the concatenation of surface forms with one space wherever SpaceAfter=No is absent (whatever else MISC holds), multi-word token ranges give their words the span of the surface form, and sentences are those of the file. '
     'Reading from a file and from a string, with \\n or \\r\\n line ends, gives the same documents.',
     ['inputs', 'configurations'], 'all CoNLL-U texts and column selections',
     'Tests read three fixed texts; fidelity must hold for all combinations of MWTs, empty nodes, comments, MISC values and columns.',
     [IO], [('_ReaderState/_MultiWordReaderState', IO), ('_line_parser', IO)],
     ['CoNLLUReader.read_from_str', 'CoNLLUReader.read_from_file'], _TR)

prop('C08', 'Reading in batches loses, repeats and mixes no sentence',
     'For every sentence limit, the reader yields the sentences of the input in order, split into documents of exactly that many sentences with only the last one smaller, and concatenating them gives the same sentences as reading with any other limit. '
     'Iterations over the same reader or data set, nested, interleaved, abandoned or repeated in any way, are independent: each sees the complete sequence. '
     'Files are closed when an iteration ends, fails or is abandoned.',
     ['histories', 'configurations'], 'all limits and all interleavings of iterations',
     'Tests iterate once with one or two limits; interleaved and abandoned iterations are never exercised.',
     [IO, DS], [('CoNLLUReader._read', IO), ('CoNLLUDataSet.__iter__', DS)],
     ['CoNLLUReader', 'CoNLLUDataSet'], _TR)

prop('C09', 'Truncated or malformed CoNLL-U never yields a wrong or partial sentence',
     'For every CoNLL-U text cut after any byte, and for every text whose dependency columns do not form a tree per sentence or whose multi-word range is unfinished, the reader either raises an error or yields only sentences that are complete and identical to those of the intact text. '
     'Documents yielded before the error are complete, identical prefixes of what the intact text gives. '
     'No cut makes the reader hang or loop.',
     ['crash_points', 'inputs'], 'every truncation point of every text, every head assignment',
     'Torn input is not tested at all; every byte position is a different crash point.',
     [IO, D], [('end_of_sentence bookkeeping', IO), ('validate_syntax=True in the reader', IO)],
     ['CoNLLUReader.read_from_str'], _TR)

prop('C10', 'Writing a document and reading it back preserves it',
     'Any document the data model accepts whose forms are free of tabs and line breaks whose multi-word tokens lie inside one sentence and whose heads form a tree per sentence or are absent is written as CoNLL-U that reads back as the same tokens, multi-word tokens, sentences, spacing, lemmas, tags, heads and relations, restricted to the selected columns; a document without syntax is written with placeholder heads only. '
     'Sentences ending in a multi-word token, features in any selection of columns and several documents in one call are all written exactly once, so that output for several documents is the concatenation of the outputs of each. '
     'Writing to a file and to a string give the same bytes, and reading a well-formed treebank and writing it back reproduces its ID to DEPREL columns unchanged.',
     ['inputs', 'configurations'], 'all documents, all column selections',
     'Tests round-trip three fixed documents with all columns.',
     [IO], [('_RegularTokenWriterState/_MultiwordTokenWriterState', IO), ('to_conll', IO)],
     ['CoNLLUWriter.write_to_str', 'CoNLLUWriter.write_to_file', 'CoNLLUReader'], _TR)

prop('C11', 'Everything the writer emits loads in the evaluator and scores 100% on itself',
     'For every document and every column selection, the written CoNLL-U is loaded by the CoNLL-2017 evaluator without error, with exactly the tokens, words and sentences of the document. '
     'Evaluating a written document against itself gives precision, recall and F1 of exactly 1 on every metric for which it contains anything to score. '
     'Clearing the annotation of a document leaves token, sentence and word scores against the original at exactly 1.',
     ['inputs', 'configurations'], 'all documents and column selections',
     'The evaluation pipeline depends on this for every prediction; tests never feed writer output to the evaluator.',
     [IO, EV, EVL], [('fake heads in to_conll', IO), ('load_conllu', EV)],
     ['CoNLLUWriter.write_to_str', 'load_conllu', 'evaluate'], _TR)

prop('C12', 'The evaluator loads valid CoNLL-U and rejects everything else with its own error',
     'Loading succeeds exactly when lines have ten columns, word ids count 1, 2, 3, … per sentence, surface forms are non-empty, heads are non-negative integers inside the sentence forming a tree with a single root, multi-word ranges are numeric and name the words that follow and the file ends with an empty line; anything else raises the evaluator\'s UDError and no other exception. '
     'A loaded file has the concatenated forms (spaces removed) as characters, spans for every token and sentence, one word per word line with multi-word words carrying the span of their surface token, the parent each HEAD names, and relation subtypes stripped.',
     ['inputs'], 'all files over the CoNLL-U grammar and its one-column corruptions',
     'Tests load well-formed words only; the error paths are untested.',
     [EV], [('load_conllu', EV)], ['load_conllu'], _TR)

prop('C13', 'Token, sentence and word scores follow the documented alignment',
     'For every gold and system segmentation of the same characters, Tokens and Sentences count identical spans, and Words counts words aligned as documented: outside multi-word spans by identical range, inside minimal multi-word spans by longest common subsequence of case-folded forms. '
     'Precision, recall and F1 are the exact ratios, lie in [0, 1], swap precision with recall when gold and system swap, and are 1 for identical inputs. '
     'Different underlying characters always raise the evaluator\'s error.',
     ['inputs'], 'all pairs of segmentations, with and without multi-word tokens',
     'The embedded tests try twelve pairs; the alignment loop has to be right for every pair of segmentations.',
     [EV], [('align_words, find_multiword_span, compute_lcs, spans_score', EV)], ['evaluate'], _TR)

prop('C14', 'Attribute scores count exactly the aligned words whose attribute agrees',
     'On every pair of files, UPOS, XPOS, Feats, AllTags, Lemmas, UAS and LAS count the aligned words whose respective columns agree (for UAS and LAS: whose heads are aligned to each other or both root, for LAS also equal universal relation without subtype), CLAS ignores function-word and punctuation relations, and WeightedLAS weights words by the given relation weights, 1 by default. '
     'Aligned accuracy divides by the aligned weight only and precision and recall by the respective totals. '
     'A weights file assigns exactly the listed weights, skips comments and blank lines and rejects malformed lines.',
     ['inputs'], 'all pairs of annotations of aligned and partly aligned words',
     'No test looks at an attribute metric.',
     [EV], [('alignment_score, fill_parents, weighted_las, load_deprel_weights', EV)],
     ['evaluate', 'load_deprel_weights'], _TR)

prop('C15', 'A shuffled data set is a reproducible windowed permutation of its source',
     'Each pass over a shuffled data set yields every element of the underlying data set exactly once, and no element moves by the maximal batch size or more from its original position. '
     'Two data sets built with the same seed yield the same sequence of passes, while interleaved, nested or abandoned passes still each yield a complete permutation and never change the source. '
     'This holds for every answer of the random generator, every data set size and every batch size from one up.',
     ['schedules', 'histories', 'configurations'], 'all random choices, sizes, batch sizes and interleavings of passes',
     'Tests run two seeds; the guarantee must hold for every outcome of the generator and every interleaving of iterators.',
     [DS], [('ShuffledDataset.__iter__', DS)], ['iter(ShuffledDataset)'], _TR)

prop('C16', 'A lemma rule extracted from a word and its lemma restores that lemma',
     'For all strings word and lemma, the extracted rule is applicable to the word and turns it into exactly the lemma; its word suffix and lemma suffix start where the two strings first differ, and it is marked as a whole-word exception exactly when they share no prefix. '
     'A rule applies exactly to the words that end in its word suffix, replaces only that suffix, and refuses other words.',
     ['inputs'], 'all pairs of strings',
     'Tests try a handful of words; prefix, empty-string and non-BMP cases are missing.',
     [LE], [('LemmaSuffixTransformation.get_rule/transform', LE)], ['get_rule', 'is_applicable', 'transform'], _TR)

prop('C17', 'The rule index offers exactly the applicable rules for a word',
     'For every set of rules and every word, the index returns each regular rule whose word suffix is a proper suffix of the word, each whole-word exception whose word equals the word, each exactly once with the identifier it was added with, and nothing else. '
     'The answer does not depend on the order in which rules were added nor on earlier queries.',
     ['inputs', 'histories'], 'all rule sets, insertion orders, words and query sequences',
     'Tests query two fixed rule sets.',
     [LE], [('LemmaTransformationTrie.build/get_applicable_rules', LE)], ['LemmaTransformationTrie'], _TR)

prop('C18', 'Padding makes feature batches rectangular without changing any value',
     'After padding, every feature of a batch is rectangular at every nesting level with each dimension equal to the longest sequence at that level, original values keep their positions, and every added cell is the padding id. '
     'A feature mixing scalars and sequences at one level is rejected. '
     'Features are padded independently of each other.',
     ['inputs'], 'all ragged nested sequences',
     'The features package has no tests.',
     [FB], [('_pad_sequence', FB), ('PaddingFeatureExtractor', FB)], ['PaddingFeatureExtractorBuilder.build(...).get_features'], _TR)

prop('C19', 'Merging feature extractors equals running them separately',
     'For every list of feature builders and every nesting of batch, sentence and word level wrappers, the merged extractor yields for any batch exactly the union of what the individual extractors yield, with merged shapes and initial values likewise; empty builders add nothing. '
     'Two builders producing the same feature name are rejected when features are extracted. '
     'Interpreting predictions through a merged interpreter applies each individual interpreter once, in the given order among builders of one kind, to the right element, leaving what no interpreter handles unchanged.',
     ['configurations', 'inputs'], 'all combinations and nestings of builders',
     'The features package has no tests.',
     [FB, FP], [('merge, CompositeFeatureExtractorBuilder', FB), ('FeatureExtractorBuilderProvider', FP)],
     ['merge(builders).build(dataset)'], _TR)

prop('C20', 'Vocabulary features number exactly the frequent items and never collide',
     'A vocabulary built from a data set assigns distinct consecutive ids, above the reserved padding, unknown (and, for subwords, start and end) ids, to exactly the words or subwords occurring at least the configured number of times, after lower-casing if configured; everything else maps to the unknown id and the announced size covers every id. '
     'Subword features are the ids of the segments of the word between one start and one end id, and segmentation neither loses nor invents characters. '
     'Ids do not depend on the order of the documents.',
     ['inputs', 'configurations'], 'all corpora, thresholds, lower-casing settings and segmenters',
     'The features package has no tests.',
     [FE], [('TrainableEmbeddingsExtractorBuilder', FE), ('TokenCharactersFeatureExtractorBuilder', FE), ('Token*Segmenter', FE)],
     ['provider.feature_extractor_builder().build(dataset)'], _TR)

prop('C21', 'POS labels decode to the tag they encode, for every splitting',
     'For every training set and each of the four tag splittings, encoding the tag of any training token to label ids and interpreting those ids gives back an equal tag, including missing XPOS, missing features and features present on only some tags. '
     'All ids lie within the announced sizes, unseen parts encode to a valid id, and every combination of valid ids decodes without error. '
     'Interpretation changes nothing but the tag, and ids do not depend on the order of the training documents as long as the most frequent part is unique.',
     ['inputs', 'configurations'], 'all tag inventories and splittings',
     'The features package has no tests.',
     [FE], [('PosDictFeatureExtractorBuilder, splitters', FE), ('_id2obj/_obj2id', FE)],
     ['PosDictExtractorProvider'], _TR)

prop('C22', 'Lemma labels decode to their lemma and the gold rule is never masked out',
     'For every training set, encoding the lemma of a training token and interpreting the label for the same token returns its lemma with the dictionary codec, its lower-cased lemma with the suffix-rule codec when its rule is in the inventory (the rules seen more often than the threshold, or just the most frequent one if there are none), and its lemma with the character codec when all characters are known and it fits the maximal length (characters being read up to the end mark). '
     'Whenever the gold rule of a token is in the inventory, the applicability mask of that token is true at exactly the ids of the rules applicable to it, the gold rule included, and the mask and the labels use the same numbering even if the data set iterates in a different order each time. '
     'Inapplicable predictions leave the word form (lower-cased) as lemma.',
     ['inputs', 'configurations', 'histories'], 'all training sets, thresholds, predictions and orders of build calls',
     'The features package has no tests.',
     [FE, FP, LE], [('CachedSuffixRulesBuilder', FE), ('LemmaCharExtractor/Interpreter', FE), ('SuffixTransformationInterpreter', FE)],
     ['LemmaDictExtractorProvider', 'LemmaTransformationExtractorProvider', 'LemmaCharExtractorProvider'], _TR)

prop('C23', 'Input sparsification only replaces ids by the unknown id, at its rate',
     'With sparsity rate 0 every feature is unchanged whatever the random generator returns, and with rate 1 every id becomes the unknown id. '
     'For any rate, each id is replaced exactly when its own random draw falls below the rate, the shape of the feature never changes, and the cached vocabulary and labels are untouched. '
     'Features that are not sparsified ignore the rate.',
     ['schedules', 'inputs'], 'all answers of the random generator, all feature shapes',
     'The features package has no tests; random outcomes cannot be enumerated by a seeded test.',
     [FB], [('_sparse_rate_sequence, SparseFeatureExtractor', FB)], ['get_features(batch, sparse_rate=...)'], _TR)

prop('C24', 'Pretrained vectors are attached to the word whose id they belong to',
     'For every word2vec-style file of distinct words without white space, with header line or (vectors of two or more numbers) without, each word of the file gets its own id, looking the word up (lower-cased if configured) in a text gives that id, and the initial value delivered for that id is the vector from the file; padding gets zeros and unknown words the unknown id. '
     'The announced shape covers all ids and the vector size. '
     'Files with inconsistent vector sizes are rejected.',
     ['inputs', 'configurations'], 'all embedding files and texts',
     'The features package has no tests.',
     [FE, NI], [('_read_embeddings, EmbeddingInitializer', FE)], ['WordEmbeddingExtractorProvider', 'SubwordEmbeddingExtractorProvider'], _TR)

prop('C25', 'Taggers and parsers never alter text, segmentation, order or foreign annotation',
     'The baseline tagger and parser yield one document per input document, lazily and in order, with identical text, token spans, multi-word forms, sentences and extras: the tagger sets tag and lemma and keeps syntax, the parser sets a single-rooted chain per sentence and keeps morphology. '
     'The baseline tagger trained on any data, by itself or scored by the evaluation, assigns the most frequent tag and the surface form as lemma. '
     'Input documents are left unchanged.',
     ['inputs', 'histories'], 'all documents and streams',
     'No test runs a tagger or parser.',
     [TG, PA, D], [('StubTagger, StubTaggerTrainer', TG), ('StubParser', PA), ('Document.from_document', D)],
     ['tag', 'parse', 'process'], _TR)

prop('C26', 'UDPipe conversion transfers every annotation to and from the right word',
     'Processing a document with a UDPipe model hands the model each sentence with exactly the forms, lemmas, tags and features (in UD order) of its tokens, and puts whatever the model answers (including root and missing heads, empty columns and any well-formed feature string) onto the corresponding tokens. '
     'Text, spans, multi-word forms, sentence boundaries, extras and document order are preserved, the tag-only, parse-only and combined processors call exactly the matching model functions with the given options, in order, and input documents are unchanged.',
     ['inputs', 'configurations'], 'all documents and all model answers',
     'The wrapper has no tests and no model is available.',
     [UD], [('convert_to_ud, convert_from_ud', UD)], ['UDPipeTagger', 'UDPipeParser', 'UDPipeTaggerParser'], _TR + ' The UDPipe model is an enumerated stand-in; ufal.udpipe Sentence/Word objects are real.')

prop('C27', 'The neural tagger applies each prediction to the token it was made for',
     'For every document stream and every model output, the neural tagger asks the model once per sentence with features of exactly that sentence and annotates each token with the interpretation of the prediction at its own position, keeping text, spans, sentences, syntax and extras and the order of documents. '
     'A tagger saved to a directory and loaded again (eagerly or lazily) tags every document identically, and lazily loaded taggers close their model when iteration ends, fails or is abandoned.',
     ['inputs', 'histories', 'fault_sequences'], 'all streams, model outputs and iteration faults',
     'No test covers the neural tagger (TensorFlow 1 is not even importable here).',
     [NT, FB], [('NeuralTagger.tag/save/load, LazyNeuralTagger', NT), ('IterableInterpreter', FB)],
     ['NeuralTagger.tag', 'NeuralTagger.save/load'], _TR + ' The TensorFlow model is replaced by an enumerated stand-in.')

prop('C28', 'A processor pipeline composes in order and always releases what it acquired',
     'Processing through a composed pipeline equals applying its processors one after the other, for every list of processors and documents, with nested pipelines behaving like their flattening. '
     'Entering a pipeline enters every processor once in order; whatever enters, processing or exits raise, every processor that was entered is exited exactly once and the error reaches the caller. '
     'A pipeline can be entered and used repeatedly.',
     ['fault_sequences', 'histories'], 'all processor lists and all combinations of failing enters, bodies and exits',
     'No test covers pipelines.',
     [PR], [('DocumentComplexProcessor', PR)], ['DocumentComplexProcessor'], _TR)

prop('C29', 'Evaluation scores exactly the tagger\'s output and never leaks gold annotation',
     'During evaluation the tagger receives the gold text, tokens, multi-word forms and sentences with every tag, lemma, head and relation removed, and the reported scores equal those of the CoNLL-2017 evaluator applied to the gold file and what the tagger returned. '
     'Scores are the same whether results are kept in memory or written to a results file, whose content reads back as the returned documents, and whether gold comes from a file or a data set. '
     'A perfect tagger scores 1, repeated evaluation gives the same result, and gold data are never modified.',
     ['inputs', 'configurations', 'histories'], 'all gold treebanks and tagger outputs',
     'The module cannot even be imported by the current tests (TensorFlow), so none of them runs.',
     [EVL, IO, EV], [('TaggerTester and subclasses', EVL)], ['FileTaggerTester.test', 'DataSetTaggerTester.test'], _TR)

prop('C30', 'Model selection keeps the first best model and only ever deletes the others',
     'Whatever scores epochs and parameter sets obtain, the search returns the earliest one with the highest sum of the configured metrics, with its parameters, and reports test scores of exactly that model. '
     'With deletion enabled, only directories of models that are no longer best are removed, the current best model is never removed before testing, and nothing outside the model directory is touched; without it nothing is removed. '
     'A run asked to delete afterwards refuses to start in a non-empty model directory.',
     ['histories', 'configurations'], 'all score sequences, numbers of epochs, seeds and parameter sets',
     'The evaluation tests cannot be imported here and cover a single sequence.',
     [EVL], [('SingleSeedEvaluator, ParametersEstimator, score_comparator, main', EVL)],
     ['evaluation.main', 'files in model_dir'], _TR + ' Trainers are enumerated stand-ins; deletion happens in scratch directories only.')

prop('C31', 'Scores over several seeds are the exact averages per metric',
     'With a list of seeds, every parameter set is trained once per seed with that seed, and the reported dev and test scores are, for each metric, the arithmetic means over the seeds of precision, recall, F1 and aligned accuracy of the best model of each seed, for every choice of printed and comparison metrics, including metrics without aligned accuracy. '
     'Selection between parameter sets uses the averaged comparison metrics. '
     'A single seed gives the same result as a list containing just that seed.',
     ['configurations', 'inputs'], 'all score tables, seed lists and metric selections',
     'The evaluation tests cannot be imported here.',
     [EVL], [('AverageEvaluator, get_metrics_averager, __build_estimator', EVL)], ['evaluation.main'], _TR + ' Trainers are enumerated stand-ins.')

prop('C32', 'Grid search tries every combination exactly once on top of the base parameters',
     'For every valid grid, the evaluated parameter sets are the base parameters with one alternative of every grid key applied, one set for each element of the Cartesian product, all parameters not mentioned keep their base value, and base, grid and the sets do not share mutable state. '
     'A grid naming a parameter that does not exist in the base, mixing parameters under one key or using one parameter under two keys is rejected before any training. '
     'Models of a grid search are always deleted afterwards.',
     ['configurations'], 'all grids and base parameters',
     'The grid tests cannot be imported here.',
     [GR], [('__merge_dicts, __build_list_of_new_hyperparams, __check_is_grid_valid', GR)], ['grid_eval.main'], _TR)

prop('C33', 'Each training epoch sees every sentence once, in order, in full minibatches',
     'In every epoch the model is trained on each sentence of the training data exactly once, in order, in minibatches of exactly the configured size with only the last one smaller, with features and labels of the same sentences and the configured dropout. '
     'The learning rate starts at the configured value, decays by the configured schedule and is divided by the decrease factor exactly after epochs whose summed dev accuracy neither beats the previous epoch nor the mean of the last five. '
     'After each epoch the tagger is saved under its own epoch directory before it is scored, and the model is closed however training ends.',
     ['histories', 'configurations', 'fault_sequences'], 'all data sizes, batch sizes, epochs and dev score sequences',
     'No test covers training.',
     [NT], [('NeuralTaggerTrainer.train, _train_epoch, _get_minibatches, _get_lr', NT)],
     ['NeuralTaggerTrainer.train'], _TR + ' The TensorFlow model is replaced by a recording stand-in.')

prop('C34', 'The external parser wrapper returns predictions on the tokens they belong to',
     'For every document list and every order and grouping in which the wrapped parser processes sentences, each token receives the tag, lemma, head, relation and extra vectors predicted for its own sentence and position, and documents keep their text, spans, sentences and order. '
     'State of one call never leaks into the next, the network is the one saved in the given folder, the parser is fed the forms and annotations of each sentence, and using the wrapper outside its context is refused with a runtime error.',
     ['schedules', 'inputs', 'histories'], 'all documents, batch orders and predictions',
     'The wrapped parser is not installed, so nothing is tested.',
     [TD, IO], [('TDozatDocumentProcessor.__parse_documents', TD), ('_DocumentDataset.itersents', TD)],
     ['TDozatParser.process', 'TDozatTagger.process'], _TR + ' The external parser package and TensorFlow are enumerated stand-ins.')

prop('C35', 'A saved neural model predicts and trains exactly as before',
     'Saving a trained model to a directory and loading it gives a model with identical predictions for every input and identical named inputs, outputs, loss and initializers, that can continue training from the same weights; a tagger saved with it likewise tags as the model last saved in its folder; saving does not change the model, and later training of the original does not change the saved one. '
     'Pretrained vectors given at initialization appear in exactly the rows of their ids, and a failed load closes its session.',
     ['histories', 'fault_sequences'], 'all sequences of initialize, train, predict, save and load',
     'No test covers the model.',
     [NM, NN, NI, NU, NT], [('Model.save/load', NM), ('NeuralNetworkMapping', NN), ('MatrixInitializer', NI), ('NeuralTagger.save/load', NT)],
     ['Model'], _TR + ' Runs on the TensorFlow 1 compatibility API of the installed TensorFlow 2, with small graphs.')

prop('C36', 'Padding never affects the loss and masked lemma rules are never predicted',
     'In every batch and for every combination of shared and task builders, the loss is independent of gold labels, rule masks and network outputs at positions beyond a sentence\'s length (and of the words there, unless a convolution over words is configured), and is the sum of the losses of the label parts, each with its configured weight, normalised by the number of real tokens. '
     'Lemma-rule tasks predict, for every token and whatever the network weights, a rule marked applicable whenever there is one. '
     'Predictions have one label vector per token position with every id inside the announced range, the one with the least loss, and do not depend on dropout.',
     ['inputs', 'configurations'], 'all sentence-length vectors, masks, labels and weights',
     'No test covers the network builders.',
     [TB, SB, NN], [('DenseTaskNetworkBuilder._loss/_output', TB), ('LemmaSuffixTaskNetworkBuilder._logits', TB), ('sentence_mask', SB)],
     ['get_nn_builder(...).build'], _TR + ' Runs on the TensorFlow 1 compatibility API with a small replacement for the removed tf.layers functions.')

prop('C37', 'Neural layers compute what the configuration describes',
     'For every configuration, weights and input, the shared part gives each real token the concatenation of its configured features: embedding rows through an optional dense layer, and of its subwords the convolution maximum, recurrent maximum, self-attention or average over the word\'s own subwords, through a highway gate if configured, followed by the configured BiLSTM layers (over real tokens, residual from the second on), dilated convolutions and skip connections. '
     'Losses and predictions are those of the configured dense, masked or transducer layers with the configured weights. '
     'A training step follows the gradient of the loss, clipped to norm 5, with the configured optimizer and learning rate, and leaves untrainable embeddings alone.',
     ['inputs', 'configurations'], 'all configurations, weights, sentences and words',
     'No test covers the network builders.',
     [SB, TB, NU, NN], [('subword_average, subword_rnn, highway, bilstm_layer, apply_conv_layer', NU), ('SharedNetworkBuilders', SB), ('MultitaskNetworkBuilder.build', NN)],
     ['get_nn_builder(...).build'], _TR + ' Runs on the TensorFlow 1 compatibility API with a small replacement for the removed tf.layers functions.')

prop('C38', 'Every documented configuration trains, learns, saves and repeats itself',
     'Every combination of documented sentence-level architectures, features, aggregators, task builders, splittings and optimizers, with or without its optional parameters, trains; the tagger of each epoch annotates any document with labels of the training data for exactly the configured tasks, keeping text, sentences, spans and other annotation, and gives the same result during training, after it, loaded lazily or eagerly, saved again, and for documents one by one or together. '
     'With enough steps an unambiguous treebank is reproduced. '
     'The same seed gives the same weights and predictions whatever was trained before and in any process, other seeds give others, and no session stays open.',
     ['configurations', 'histories'], 'all configurations, seeds, treebanks and documents',
     'No test trains a model.',
     [NT, NM, NN, SB, TB], [('NeuralTaggerTrainer.train', NT), ('NeuralTagger.save/load, LazyNeuralTagger', NT), ('MultitaskNetworkBuilder', NN)],
     ['NeuralTaggerTrainer.train', 'NeuralTagger.tag'], _TR + ' Runs on the TensorFlow 1 compatibility API with a small replacement for the removed tf.layers functions.')

prop('C39', 'The scripts run exactly the experiment their files and options describe',
     'The evaluation and grid scripts train once per parameter set and seed on the given training data (in file order, or if a shuffler is configured in a reproducible order per epoch inside its batch window), compare on the dev set by the configured metric, report scores of dev and test set for the configured fields, and write annotations only to the configured results directories, whatever the order and spelling of the options. '
     'Missing or malformed options and files and unknown methods end in an error before anything is trained or written. '
     'Evaluation of pretrained models evaluates every saved model exactly once, reports dev and test scores of the best of each seed, closes all models, changes no file and refuses to delete.',
     ['configurations', 'inputs'], 'all settings, command lines and directories of saved models',
     'No test runs the scripts; the number of combinations of settings is large and wrong data sets or models give plausible scores.',
     [EVL, GR, DS, NT, 'babylondigger/evaluation/trainers.py'], [('main, ParametersEstimator, DataSetTaggerTester', EVL), ('main', GR), ('PretrainedTaggerTrainer', NT)],
     ['evaluation.main', 'grid_eval.main', 'python -m babylondigger.evaluation.evaluation'], _TR + ' Trainers and neural models are enumerated stand-ins.')

prop('C40', 'The scorer script prints exactly the scores of the two files it is given',
     'For every two CoNLL-U files of the same text, the script prints exactly the LAS F1, or with the verbose option or weights a row per metric with precision, recall, F1 and aligned accuracy (weighted LAS only with weights), rounded to two decimals, whatever the order and spelling of its options and the locale. '
     'Missing or malformed files, weights and command lines, and files of different text, end in an error and a nonzero exit status without any report. '
     'No file is changed.',
     ['inputs', 'configurations'], 'all pairs of files and command lines',
     'The tests call the scoring functions on a few words and never run the script.',
     [EV], [('main', EV), ('evaluate_wrapper, load_conllu_file', EV), ('load_deprel_weights', EV)],
     ['conll17_ud_eval.main', 'python -m babylondigger.evaluation.conll17_ud_eval'], _TR)

prop('C41', 'Configurations that cannot be honoured are refused before training',
     'A training configuration that lacks a required parameter, names an unknown or misspelled builder, task, segmenter, splitting, aggregator, optimizer, skip connection, shared result or training method, repeats a task or has none, has a size that is negative or no number, no BiLSTM or convolution layer, a sum of parts of different sizes, or an embedding file that is missing or of inconsistent vectors, always ends in an error. '
     'Then no epoch has been trained, nothing has been saved and no session is left open. '
     'Leaving out an optional parameter, or choosing another result that the shared part provides, is accepted.',
     ['configurations'], 'all changes of one parameter of all configurations',
     'No test trains or even builds a network, so no refusal is tested.',
     [SB, TB, NN, NT, FE, NU], [('get_nn_builder', 'babylondigger/neural/tagger/network_provider.py'), ('SharedNetworkBuilders.build', SB), ('segmenters, splitters, _read_embeddings', FE), ('MultitaskNetworkBuilder.build', NN)],
     ['NeuralTaggerTrainer.train', 'get_trainer'], _TR)
