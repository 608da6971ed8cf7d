"""Generates properties.jsonl (kept in git next to it)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})
D = "babylondigger/datamodel.py"
IO = "babylondigger/evaluation/conllu_io.py"
LR = "babylondigger/lemmas/transformation_rules.py"
FB = "babylondigger/features/builder.py"
FE = "babylondigger/features/extractors.py"
FP = "babylondigger/features/provider.py"
UD = "babylondigger/evaluation/conll17_ud_eval.py"
EV = "babylondigger/evaluation/evaluation.py"
GR = "babylondigger/evaluation/grid_eval.py"
DS = "babylondigger/evaluation/dataset.py"
NT = "babylondigger/neural/tagger/neural_tagger.py"
UW = "babylondigger/wrappers/udpipe1_2.py"

prop("C01", "Document construction: well-formed result or refusal",
     "For every text, token list (in any order) and sentence list, building a document (directly or from an existing document) either succeeds, and then the document holds exactly the given tokens in textual order, no two tokens intersect, the sub-tokens of a multiword token are numbered 0,1,2,... without gaps and the sentences partition the tokens in order, or it is refused with a ValueError. It is refused only when some pair of tokens intersects, a multiword sub-token is skipped, the sentences do not partition the tokens, a token's two head views disagree, requested syntax validation fails, or (from an existing document) the new tokens do not coincide with the old ones. A document with tokens and no sentence list has exactly one sentence covering all of them.",
     ["inputs"], "all texts, token multisets in every order, sentence lists",
     "tests build about a dozen hand-written documents; the guarantee is over every combination of spans, sub-indices, orders and sentence boundaries",
     [D], [("Document.__init__ / _WordList.__init__ / Document.from_document", D), ("_check_for_sequence, _skipped_token, Token.intersects", D)],
     ["Document(...)", "Document.from_document", "Document.tokens", "Document.sentences_boundaries"])
prop("C02", "Head views agree and are filled consistently",
     "In every document that was built, each token either has no head at all, or is the root and has head -1 both in the document view and in the sentence view, or has a head whose document index equals its sentence index plus the index of the first token of its sentence. A head given in only one view is completed to the other view, two given views that disagree are refused with ValueError, and a head position is never changed, dropped or turned into the root.",
     ["inputs"], "all tokens, head specifications (document, sentence, both, none) and sentence positions",
     "tests check a few fixed head layouts in two-sentence documents",
     [D], [("Token.fill_heads, Token.is_root, Token.has_head", D), ("_WordList fill of heads per sentence", D)],
     ["Document tokens' head_index in document and in sentence views"])
prop("C03", "Syntax validation accepts exactly single-rooted trees",
     "With syntax validation requested, a document is accepted if and only if each sentence is either completely without heads or every token has a head inside the sentence (or is the root), exactly one token is the root, and following heads from any token reaches that root. Every other head assignment is refused with ValueError.",
     ["inputs"], "all sentence lengths and all head assignments, including cycles, forests, partial annotation and heads outside the sentence",
     "tests try about ten fixed small trees; the space of head functions grows as (n+2)^n",
     [D], [("Document syntax validation", D)], ["Document(..., validate_syntax=True)", "CoNLLUReader"])
prop("C04", "Annotated values are immutable; derivations change only what they name",
     "Deriving a token with new morphology, new syntax, new extras or updated extras returns a token equal to the original in every other attribute (including document text for document tokens) and with exactly the given values for the named attributes, and leaves the original unchanged. Mutating a dictionary or list that was passed to or obtained from a part of speech, token extras or a document never changes the observable value of that object.",
     ["inputs", "histories"], "all tokens, all derivation chains, all later mutations of argument and result containers",
     "tests check single derivations on sample tokens and never mutate the containers afterwards",
     [D], [("Token.with_morphology / with_syntax / with_extras / update_extras and the DocumentToken overrides", D), ("Pos, TokenExtras defensive copies", D)],
     ["token attributes", "Pos.feats", "TokenExtras.as_dict"])
prop("C05", "Navigation, token text and spacing are views of the document",
     "For every document: iterating tokens and sentences enumerates them in order and agrees with indexed access; next/previous/is_first/is_last of a token or sentence are its actual neighbours in that container; a token's head is the token at its head position in that container (none for the root), for heads inside the container; a token's text is its replacement if multiword and otherwise the covered slice of the document text, and space_after holds exactly at the end of the text or before whitespace; a sentence's text is the document text from its first to its last token.",
     ["inputs"], "all documents, all token and sentence positions",
     "tests walk two sample documents",
     [D], [("_NavigableItem, NavigableToken, NavigableSentence, DocumentToken", D)],
     ["NavigableToken.next/previous/head/text/space_after", "NavigableSentence.text"])
prop("C06", "CoNLL-U reading reproduces the file content",
     "Reading any CoNLL-U text with valid trees yields documents whose tokens, in order, are the words of the file with their form, lemma, UPOS, XPOS, features, head and relation ('_' read as absent, comments and empty nodes skipped, multiword ranges giving sub-tokens of one span), whose text is the concatenation of the surface forms with one space wherever SpaceAfter=No is absent, and whose sentences are those of the file. Documents are cut after exactly the configured number of sentences (the last may be shorter), nothing is lost or duplicated across cuts, and columns that were not selected are left unset.",
     ["inputs", "configurations"], "all CoNLL-U files with valid syntax, all sentence limits and column selections",
     "tests read a few sample files with default settings",
     [IO], [("CoNLLUReader, reader states, _line_parser, _parse_to_dict", IO)], ["CoNLLUReader.read_from_str / read_from_file"])
prop("C07", "CoNLL-U write then read is lossless",
     "For every document with syntax (any mix of single and multiword tokens, several sentences, several documents) whose words are separated by at most one space, writing it and reading the output back with the same columns yields the same words, spans, sub-token structure, sentence boundaries, lemmas, tags, features, heads and relations and the same text up to trailing white space. Every word is written exactly once, ids restart at 1 in every sentence, each multiword range line covers exactly its words, and the output is always accepted by the scoring script's loader.",
     ["inputs", "configurations"], "all documents and column selections",
     "tests round-trip a handful of sample documents",
     [IO], [("CoNLLUWriter, writer states, to_conll, _format_line", IO), ("CoNLLUReader", IO)], ["CoNLLUWriter.write_to_str / write_to_file"])
prop("C08", "Equality, ordering and hashing are coherent and exact",
     "Parts of speech, lemma rules, token extras, sentences and documents compare equal exactly when all of their content (tags, features, suffixes, spans, text, lemma, heads, relation, sub-index, replacement, extras, sentence boundaries) is equal; equal values have equal hashes; and the orderings of parts of speech and lemma rules are strict total orders consistent with equality, also when a tag is absent. Comparison with an object of another kind is never an error and never equal.",
     ["inputs"], "all pairs and triples of values",
     "tests compare a few sample pairs",
     [D, LR], [("__eq__/__lt__/__hash__ of Pos, Token, TokenExtras, Sentence, Document, LemmaSuffixTransformation", D + ", " + LR)],
     ["==, <, hash, sorted"])
prop("C09", "Lemma rules reproduce the lemma they were learned from",
     "For every word and lemma, the rule derived from the pair is applicable to the word and transforms it exactly into the lemma; a rule is applicable exactly to words ending with its word suffix, replaces exactly that suffix and keeps everything before it, and refuses other words with ValueError. The derived rule is the most general one: it is a whole-word exception exactly when word and lemma share no common prefix, and otherwise keeps the longest common prefix.",
     ["inputs"], "all pairs of strings",
     "tests try a few dozen word/lemma pairs",
     [LR], [("LemmaSuffixTransformation.get_rule / is_applicable / transform", LR)], ["get_rule", "transform"])
prop("C10", "The rule trie offers exactly the applicable rules",
     "For every collection of rules put in the trie and every word, the rules returned are exactly the regular rules whose word suffix is a proper suffix of the word, plus the exception rules whose word suffix is the whole word, each with its own index and as often as it was put in. In particular every returned rule is applicable to the word, and the rule learned from a training word is always offered for that word.",
     ["inputs", "histories"], "all rule collections (any insertion order) and all words",
     "tests query a small fixed rule set",
     [LR, FE], [("LemmaTransformationTrie.build / get_applicable_rules", LR), ("ApplicableSuffixTransformations", FE)],
     ["get_applicable_rules", "applicability feature vector"])
prop("C11", "Label encoding and decoding are inverse",
     "For every training set, decoding the encoded label of a token gives back the token's own part of speech (for every splitting strategy), lemma (dictionary), lower-cased lemma (suffix rule) or lemma (character sequence that fits), whenever that label occurs in the training set often enough to be in the vocabulary. Vocabularies are bijections between 0..n-1 and the distinct labels (most frequent label first), every encoded id is a valid index of the declared size, and encoding and decoding never fail or touch other attributes of the token.",
     ["inputs", "configurations"], "all training sets, splitting strategies, thresholds and tokens",
     "tests encode and decode the labels of one sample corpus",
     [FE], [("splitters, PosDict*, LemmaDict*, SuffixTransformation*, LemmaChar*, _id2obj, _obj2id, _count_parts", FE)],
     ["label extractors and interpreters"])
prop("C12", "Feature ids stay within their declared vocabulary",
     "For every training set and every token, each id produced by the word, trainable-word, character and lemma-character extractors is below the size declared by the matching initializer; in-vocabulary units get their own unique id outside the reserved range, and everything else gets the out-of-vocabulary id. Vocabularies contain exactly the units that reach the frequency threshold; subword features are framed by the start and end ids with one id per segment, and lemma-character features have exactly the configured length.",
     ["inputs", "configurations"], "all datasets, thresholds, lower-casing settings, lengths and tokens",
     "tests check a sample corpus for some extractors only",
     [FE], [("WordEmbedding*, TrainableEmbeddings*, TokenCharacters*, Subword*, LemmaChar*", FE)], ["get_features, shapes, initial_values"])
prop("C13", "Padding is rectangular and value-preserving; sparsening only masks",
     "Padding any batch of feature values produces a rectangular nested list at every level, keeps every original value at its position, only adds padding values after them, adds no more than needed for the longest element, and refuses values mixing lists and scalars with ValueError. Sparsening replaces some ids by the out-of-vocabulary id and changes nothing else: the shape is kept, rate 0 changes nothing and rate 1 masks everything.",
     ["inputs"], "all nested lists of ids of any depth, all rates and random draws",
     "tests pad a few sample lists",
     [FB], [("_pad_sequence, PaddingFeatureExtractor, _sparse_rate_sequence, SparseFeatureExtractor", FB)], ["PaddingFeatureExtractor.get_features", "SparseFeatureExtractor.get_features"])
prop("C14", "Composing feature extractors neither loses nor mixes features",
     "A composition of extractors, initializers and interpreters yields exactly the union of the features of its parts, each with the value the part alone produces, and refuses two parts producing the same feature name with ValueError. Merging builders, in any nesting of the wrappers and with empty builders mixed in, builds extractors equivalent to composing all of them; per-element extraction keeps element order, and per-element interpretation hands each element exactly its own values.",
     ["inputs", "configurations"], "all collections and nestings of builders, all objects",
     "tests merge a few sample builders",
     [FB, FP], [("merge, Composite*, Iterable*, _merge_dicts, _composite_interpreter", FB), ("FeatureExtractorBuilderProvider", FP)], ["merge(...).build(...)"])
prop("C15", "Shuffling a dataset is a permutation determined by the seed",
     "Each pass over a shuffled dataset yields every element of the underlying dataset exactly once, for every dataset size and batch size, and no element moves further than the largest batch allows. Two shuffled datasets with the same seed, data and batch size yield the same sequence of orders, pass by pass.",
     ["inputs", "configurations", "histories"], "all datasets, seeds, batch sizes and numbers of passes",
     "tests shuffle one small list with one seed",
     [DS], [("ShuffledDataset.__iter__", DS)], ["iteration over ShuffledDataset"])
prop("C16", "Annotators keep text, tokens and sentences",
     "Every tagger, parser and pipeline of the library (the stub, neural and UDPipe annotators) applied to a stream of documents yields one document per input, in order, with the same text, token spans, sub-token structure, replacements, extras and sentence boundaries; a tagger leaves heads (inside the sentence) and relations alone and a parser leaves lemmas and tags alone; each annotation ends up on the token it was predicted for. A pipeline applies its stages in the order given.",
     ["inputs"], "all documents, all annotator outputs, all pipelines",
     "tests run the stub annotators on one document",
     ["babylondigger/tagger.py", "babylondigger/parser.py", "babylondigger/processor.py", UW, NT],
     [("StubTagger, StubParser, DocumentComplexProcessor", "babylondigger/tagger.py, parser.py, processor.py"), ("convert_to_ud / convert_from_ud", UW), ("NeuralTagger.tag", NT)],
     ["tag / parse / process"])
prop("C17", "Evaluation scores are exact",
     "For every pair of treebanks over the same characters, each reported precision, recall, F1 and aligned accuracy is the ratio defined by the counts of gold units, system units and correct units (0 when the denominator is 0) and lies between 0 and 1; a non-empty treebank evaluated against itself scores 1 in every metric that has something to count. The word alignment is one-to-one and order-preserving, aligns words only when their spans (or, inside multiword spans, their lower-cased forms) match, aligns every word outside multiword spans whose span matches, and is a longest common subsequence inside each multiword span; treebanks over different characters are refused.",
     ["inputs"], "all pairs of treebanks with any tokenization, multiword tokens and annotation",
     "the script's own unit tests cover about a dozen tiny token sequences",
     [UD], [("evaluate: spans_score, alignment_score, find_multiword_span, compute_lcs, align_words", UD)], ["evaluate(gold, system)"])
prop("C18", "The scoring loader accepts exactly valid treebanks",
     "A CoNLL-U text is loaded if and only if every line of a sentence has ten columns, every token has a non-empty form, the ids of words outside multiword tokens count the words of the sentence, every sentence has non-negative heads inside the sentence that form a tree with exactly one root, and the text ends with an empty line; every other text is refused with the loader's own error. What is loaded has the words of the text in order, each with the span of its characters, its sentence span and its head word.",
     ["inputs"], "all texts made of tab-separated lines",
     "the script's unit tests cover a few malformed files",
     [UD], [("load_conllu", UD)], ["load_conllu(file)"])
prop("C19", "Model selection keeps the best model and disposes of exactly the rest",
     "Whatever sequence of scores training and parameter search produce, the model, scores and parameters returned are those of the first candidate that no later candidate beats and that beat the best candidate before it; when the search ends, exactly the paths of all other candidates have been disposed of, each once, and the best path never. Averaged scores are the arithmetic means over the seeds, and comparison is by the sum of the chosen metric over the chosen fields.",
     ["histories", "inputs"], "all sequences of candidates and scores, all better-than functions",
     "this code is not reached by any passing test",
     [EV], [("SingleSeedEvaluator, AverageEvaluator, ParametersEstimator, score_comparator, get_metrics_averager", EV)], ["evaluate / params_search results and disposal callbacks"])
prop("C20", "Testing never shows gold annotation to the tagger",
     "When a tagger is tested, every document it is given has the gold document's text, token spans, multiword structure and sentences but no part of speech, no lemma, no head and no relation on any token, and the scores returned are those of the tagger's own output against the gold data. This holds for every gold dataset, from memory or from a file, with or without saving results.",
     ["inputs", "configurations"], "all gold datasets and taggers",
     "this code is not reached by any passing test",
     [EV], [("TaggerTester.test and its subclasses", EV)], ["documents passed to tagger.tag"])
prop("C21", "Grid expansion enumerates the full product on independent copies",
     "For every base configuration and every valid grid, the expanded list has one configuration per combination of grid values, in product order, each equal to the base with exactly that combination's values replaced; the base configuration is never modified and the configurations share no mutable state. A grid that names a parameter absent from the base, mixes different parameters in one grid entry, or overlaps between entries is refused with ValueError.",
     ["inputs", "configurations"], "all nested configurations and grids",
     "this code is not reached by any passing test",
     [GR], [("__merge_dicts, __build_list_of_new_hyperparams, __check_is_grid_valid, main", GR)], ["list of configurations handed to the evaluation"])
prop("C22", "Training minibatches cover every sentence once, in order",
     "For every dataset and batch size, the minibatches of an epoch contain all sentences of all documents exactly once and in order, every batch has exactly the configured number of sentences except possibly the last, which is non-empty, and features and labels of a batch are extracted from the same sentences, with sparsening applied to features only. The epoch loss is the mean of the batch losses, with every batch trained at the given dropout and at the learning rate of its epoch.",
     ["inputs", "configurations"], "all datasets and batch sizes",
     "this code is not reached by any passing test",
     [NT], [("_get_minibatches, _train_epoch, _get_lr", NT)], ["calls to the model and the extractors"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
