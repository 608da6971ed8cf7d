From 48ebaaedfe1c120caf82f2f73d8254c1ee2ad1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:18 +0000
Subject: [PATCH 01/25] fix: a head in the preceding sentence is not the root
 (the -1 marker of one view was trusted alone)

---
 babylondigger/datamodel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index 75a6554..a31fbd1 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -142,7 +142,9 @@ class Token(object):
 
     @property
     def is_root(self) -> bool:
-        return self.__head_document_index == -1 or self.__head_sentence_index == -1
+        # an index of -1 marks the root only if the other view does not point elsewhere
+        return self.has_head and \
+               self.__head_document_index in (None, -1) and self.__head_sentence_index in (None, -1)
 
     @property
     def deprel(self) -> str:
@@ -229,7 +231,7 @@ class Token(object):
     def fill_heads(cls, token: 'Token', sentence_start: int):
         if token.__head_sentence_index is None and token.__head_document_index is None:
             return token
-        if token.__head_sentence_index == -1 or token.__head_document_index == -1:
+        if token.is_root:
             return token.with_syntax(token, token.__deprel, head_document_index=-1, head_sentence_index=-1)
         head_document_index = token.__head_document_index
         head_sentence_index = token.__head_sentence_index
-- 
2.43.0


From a702ca3fc9988e374f1ce4ad474f756e9cd3444d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:18 +0000
Subject: [PATCH 02/25] fix: comparing token extras with another object is not
 an error

---
 babylondigger/datamodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index a31fbd1..d4110c0 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -69,7 +69,7 @@ class TokenExtras(object):
     def __eq__(self, other):
         if isinstance(other, TokenExtras):
             return self.__extras == other.__extras
-        raise NotImplemented
+        return NotImplemented
 
     def as_dict(self):
         return deepcopy(self.__extras)
-- 
2.43.0


From 9a6775dfdab81310cc93e3ee0ae5173d7114c06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:18 +0000
Subject: [PATCH 03/25] fix: parts of speech with absent tags can be ordered

---
 babylondigger/datamodel.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index d4110c0..1d29e04 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -47,7 +47,11 @@ class Pos(object):
         return hash(self.__tuple_view())
 
     def __tuple_view(self):
-        return self.__upos, self.__xpos, tuple(sorted(self.__feats.items()))
+        return _ordered(self.__upos), _ordered(self.__xpos), tuple(sorted(self.__feats.items()))
+
+
+def _ordered(tag: Optional[str]) -> Tuple[bool, str]:
+    return tag is not None, tag or ''  # absent tags go first
 
 
 class TokenExtras(object):
-- 
2.43.0


From 1cda06ec81c713359d2085f93c902f49ab36e8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:18 +0000
Subject: [PATCH 04/25] fix: refuse sentences without tokens and tokens without
 sentences with ValueError

---
 babylondigger/datamodel.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index 1d29e04..43995d8 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -434,17 +434,23 @@ class NavigableSentence(_WordList, _NavigableItem['NavigableSentence']):
 class Document(_WordList):
     def __init__(self, text: str, tokens: List[Token], sentences: Iterable[Sentence] = None, validate_syntax: bool = False):
 
-        if tokens:
-            if sentences is None:
-                sentences = [Sentence(0, len(tokens))]
+        if tokens and sentences is None:
+            sentences = [Sentence(0, len(tokens))]
+        if sentences is not None:
             sentences = sorted(sentences, key=attrgetter('start', 'end'))
 
         _WordList.__init__(self, text, tokens, lambda token: token._head_document_index, sorted_sentences=sentences)
 
         if len(tokens) == 0:
+            if sentences:
+                raise ValueError('sentence refers to nonexistent token (sentence: {}, tokens count: 0)'
+                                 .format(sentences[-1]))
             self.__sentences = []
             return
 
+        if not sentences:
+            raise ValueError('there are some tokens outside of the sentence (tokens: {})'.format(self._tokens))
+
         if sentences[-1].end > len(tokens):
             raise ValueError('sentence refers to nonexistent token (sentence: {}, tokens count: {})'
                              .format(sentences[-1], len(tokens)))
-- 
2.43.0


From 4b929b8bdf571acb81daf5b7680e5e172563970b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:18 +0000
Subject: [PATCH 05/25] fix: refuse a document whose first token is not the
 first sub-token of its multiword token

---
 babylondigger/datamodel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index 43995d8..cd7e1a6 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -448,6 +448,9 @@ class Document(_WordList):
             self.__sentences = []
             return
 
+        if self._tokens[0].sub_index != 0:
+            raise ValueError('multiword token is skipped (before {})'.format(self._tokens[0]))
+
         if not sentences:
             raise ValueError('there are some tokens outside of the sentence (tokens: {})'.format(self._tokens))
 
-- 
2.43.0


From 5e30f3148d14dd5d4351692c25fd0a5e161d84d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:18 +0000
Subject: [PATCH 06/25] fix: str() of a document without tokens

---
 babylondigger/datamodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index cd7e1a6..954d93e 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -545,6 +545,8 @@ class Document(_WordList):
         return self.__sentences
 
     def __str__(self):
+        if not self._tokens:
+            return self.document_text
         result = self.document_text[0:self._tokens[0].start]
         pointer = self._tokens[0].start
         for sentence in self.__sentences:
-- 
2.43.0


From 8c182b57bf1a6cf082835972c16327e6b7db5602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:18 +0000
Subject: [PATCH 07/25] fix: the trie offers exception rules for whole words
 only

---
 babylondigger/lemmas/transformation_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/babylondigger/lemmas/transformation_rules.py b/babylondigger/lemmas/transformation_rules.py
index 0b2a905..56bf39d 100644
--- a/babylondigger/lemmas/transformation_rules.py
+++ b/babylondigger/lemmas/transformation_rules.py
@@ -128,8 +128,8 @@ class LemmaTransformationTrie(object):
             if child is None:
                 break
             current = child
-
-        _extend(result, current.__exceptions)
+        else:  # the whole word is matched
+            _extend(result, current.__exceptions)
         return result
 
     @classmethod
-- 
2.43.0


From f6506a95efcb8806bcece87f093806d29f8a901c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:18 +0000
Subject: [PATCH 08/25] fix: read FEATS and MISC entries without '=' or with
 '=' in the value

---
 babylondigger/evaluation/conllu_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/evaluation/conllu_io.py b/babylondigger/evaluation/conllu_io.py
index fd99f75..423ffc5 100644
--- a/babylondigger/evaluation/conllu_io.py
+++ b/babylondigger/evaluation/conllu_io.py
@@ -185,7 +185,7 @@ def _parse_pos(upos: Optional[str], xpos: Optional[str], feats: Optional[str]) -
 def _parse_to_dict(feats: Optional[str]) -> Dict[str, str]:
     if feats is None:
         return {}
-    return {entry[0]: entry[1] for entry in map(lambda s: s.split("="), feats.split("|"))}
+    return {key: value for key, _, value in map(lambda s: s.partition("="), feats.split("|"))}
 
 
 ########## writer ##########
-- 
2.43.0


From 2ff78b972e7febf4862ece05dcb00dede04a592e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:18 +0000
Subject: [PATCH 09/25] fix: a multiword token at the end of a sentence is not
 written again with the next sentence

---
 babylondigger/evaluation/conllu_io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/babylondigger/evaluation/conllu_io.py b/babylondigger/evaluation/conllu_io.py
index 423ffc5..ffbe911 100644
--- a/babylondigger/evaluation/conllu_io.py
+++ b/babylondigger/evaluation/conllu_io.py
@@ -196,7 +196,7 @@ class _AbstractWriterState(object):
     def write_token(self, token: NavigableToken) -> '_AbstractWriterState':
         pass
 
-    def write_end_of_sentence(self):
+    def write_end_of_sentence(self) -> '_AbstractWriterState':
         pass
 
 
@@ -222,6 +222,7 @@ class _RegularTokenWriterState(_AbstractWriterState):
         super().write_end_of_sentence()
         self.__file.write("\n")
         self.__index = 0
+        return self
 
     def write_to_file(self, line):
         self.__file.write(line)
@@ -304,7 +305,7 @@ class CoNLLUWriter(object):
         for sentence in doc.sentences:
             for token in sentence:
                 state = state.write_token(token)
-            state.write_end_of_sentence()
+            state = state.write_end_of_sentence()
 
 
 def to_conll(column_extractors, index: int, token: NavigableToken, write_space_after: bool = True, fake_heads: bool = True) -> List[str]:
-- 
2.43.0


From 93c11473ec40bcda45f7b04b112fb8a9250116b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:07 +0000
Subject: [PATCH 10/25] fix: the trainable word vocabulary consists of words,
 not characters, and respects lowercase

---
 babylondigger/features/extractors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/features/extractors.py b/babylondigger/features/extractors.py
index 873af00..d59e3bf 100644
--- a/babylondigger/features/extractors.py
+++ b/babylondigger/features/extractors.py
@@ -122,7 +122,7 @@ class TrainableEmbeddingsExtractorBuilder(builder.FeatureExtractorBuilder[Naviga
         self.__lowercase = lowercase
 
     def build(self, dataset: Iterable[Document]):
-        tokens = chain.from_iterable(_tokens(dataset, lambda token: token.text))
+        tokens = _tokens(dataset, lambda token: token.text.lower() if self.__lowercase else token.text)
         counter = Counter(tokens)
         filtered = map(lambda item: item[0], filter(lambda item: item[1] >= self.__threshold, counter.most_common()))
         word2id = {wr: index for index, wr in enumerate(sorted(filtered), 2)}
-- 
2.43.0


From 9176d170a65d7257a18426ca70634cacdb5fed82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:07 +0000
Subject: [PATCH 11/25] fix: an unknown lemma gets a valid label id (the most
 frequent one, as for parts of speech)

---
 babylondigger/features/extractors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/features/extractors.py b/babylondigger/features/extractors.py
index d59e3bf..ca3fd2f 100644
--- a/babylondigger/features/extractors.py
+++ b/babylondigger/features/extractors.py
@@ -414,7 +414,7 @@ class LemmaDictFeatureExtractor(builder.FeatureExtractorInterface[Token, List[in
         self.__lemma2id = lemma2id
 
     def get_features(self, obj: Token, **kwargs) -> Dict[str, List[int]]:
-        return {self.__label_name: [self.__lemma2id.get(obj.lemma, OOV)]}
+        return {self.__label_name: [self.__lemma2id.get(obj.lemma, 0)]}
 
 
 class LemmaDictInterpreter(builder.InterpreterInterface[DocumentToken, List[int]]):
-- 
2.43.0


From 3071181f55faab0bbad59ab2868935be41dd62fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:07 +0000
Subject: [PATCH 12/25] fix: label parts with absent tags can be enumerated

---
 babylondigger/features/extractors.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/babylondigger/features/extractors.py b/babylondigger/features/extractors.py
index ca3fd2f..a53ef8d 100644
--- a/babylondigger/features/extractors.py
+++ b/babylondigger/features/extractors.py
@@ -615,11 +615,15 @@ def _id2obj(labels_counts: Dict[__T, int], threshold=0) -> List[__T]:
         objects = filter(lambda item: item[1] > threshold, objects)
     objects = map(lambda item: item[0], objects)
     objects = filter(lambda obj: obj != most_common, objects)
-    id2obj = sorted(objects, key=lambda x: (x is not None, x))
+    id2obj = sorted(objects, key=_none_first)
     id2obj.insert(0, most_common)
     return id2obj
 
 
+def _none_first(obj):
+    return obj is not None, tuple(map(_none_first, obj)) if isinstance(obj, tuple) else obj
+
+
 def _obj2id(id2obj: List[__T]) -> Dict[__T, int]:
     return {obj: i for i, obj in enumerate(id2obj)}
 
-- 
2.43.0


From 806ace5a33cbea97f35eeb0977e8fc7d14c7f260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:07 +0000
Subject: [PATCH 13/25] fix: sparse rate 0 never masks and 1 always masks

---
 babylondigger/features/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/features/builder.py b/babylondigger/features/builder.py
index 08367c5..0964bc2 100644
--- a/babylondigger/features/builder.py
+++ b/babylondigger/features/builder.py
@@ -185,7 +185,7 @@ class SparseFeatureExtractor(FeatureExtractorInterface[_T, _V]):
 
 def _sparse_rate_sequence(input_, sparse_rate):
     if isinstance(input_, int):
-        return input_ if random.random() > sparse_rate else OOV
+        return input_ if random.random() >= sparse_rate else OOV
     elif isinstance(input_, list):
         return [_sparse_rate_sequence(el, sparse_rate) for el in input_]
     else:
-- 
2.43.0


From ec11c28dbd84d778dfc4e1b0fd2c42b2ff7549be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:48 +0000
Subject: [PATCH 14/25] fix: average scores of metrics that have no aligned
 accuracy

---
 babylondigger/evaluation/evaluation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/babylondigger/evaluation/evaluation.py b/babylondigger/evaluation/evaluation.py
index 72346a5..edf9fec 100644
--- a/babylondigger/evaluation/evaluation.py
+++ b/babylondigger/evaluation/evaluation.py
@@ -230,6 +230,7 @@ def get_metrics_printer(metrics: List[str]):
 
 def get_metrics_averager(metrics: List[str]):
     _Scores = namedtuple('Scores', ['precision', 'recall', 'f1', 'aligned_accuracy'])
+    _Scores.__new__.__defaults__ = (None,)  # some metrics have no aligned accuracy
 
     def calculate_average_scores(scores):
         sums = {metric: defaultdict(int) for metric in metrics}
-- 
2.43.0


From 58864553cc12ddf3586f445527f615cc757e33ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:07 +0000
Subject: [PATCH 15/25] fix: features with '=' in the value or without '=' from
 UDPipe

---
 babylondigger/wrappers/udpipe1_2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/wrappers/udpipe1_2.py b/babylondigger/wrappers/udpipe1_2.py
index 86f915e..0d63225 100644
--- a/babylondigger/wrappers/udpipe1_2.py
+++ b/babylondigger/wrappers/udpipe1_2.py
@@ -95,7 +95,7 @@ def convert_from_ud(sentence: NavigableSentence, ud_sent: ud.Sentence) -> List[T
     for token, word in zip(sentence, ud_sent.words[1:]):  # skip <root> in ud_sent
         feats = None
         if word.feats:
-            feats = {entry[0]: entry[1] for entry in map(lambda s: s.split("="), word.feats.split("|"))}
+            feats = {key: value for key, _, value in map(lambda s: s.partition("="), word.feats.split("|"))}
         pos = Pos(non_empty(word.upostag), non_empty(word.xpostag), feats) if word.upostag or word.xpostag or feats else None
         head = None
         if word.head is not None and word.head >= 0:
-- 
2.43.0


From d7254525fe833967303265172ed9de49057d8359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:07 +0000
Subject: [PATCH 16/25] fix: the UDPipe tagger keeps heads and relations

---
 babylondigger/wrappers/udpipe1_2.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/babylondigger/wrappers/udpipe1_2.py b/babylondigger/wrappers/udpipe1_2.py
index 0d63225..dbc4e60 100644
--- a/babylondigger/wrappers/udpipe1_2.py
+++ b/babylondigger/wrappers/udpipe1_2.py
@@ -83,6 +83,10 @@ def convert_to_ud(sentence: NavigableSentence) -> ud.Sentence:
                 word.xpostag = token.pos.xpos
             if token.pos.feats:
                 word.feats = "|".join(sorted("{}={}".format(*item) for item in token.pos.feats.items()))
+        if token.has_head:
+            word.head = token.head_index + 1
+        if token.deprel:
+            word.deprel = token.deprel
     return result
 
 
-- 
2.43.0


From 2b475075dcc6231a878030971bc354b42b9ae64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:45 +0000
Subject: [PATCH 17/25] fix: check the first sub-token only after the sentences
 are known to cover the tokens

---
 babylondigger/datamodel.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index 954d93e..bdc2bb9 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -448,9 +448,6 @@ class Document(_WordList):
             self.__sentences = []
             return
 
-        if self._tokens[0].sub_index != 0:
-            raise ValueError('multiword token is skipped (before {})'.format(self._tokens[0]))
-
         if not sentences:
             raise ValueError('there are some tokens outside of the sentence (tokens: {})'.format(self._tokens))
 
@@ -474,6 +471,8 @@ class Document(_WordList):
         if not non_intersects:
             raise ValueError('sentences should not intersect ({}, {})'
                              .format(sentences[index], sentences[index + 1]))
+        if self._tokens[0].sub_index != 0:
+            raise ValueError('multiword token is skipped (before {})'.format(self._tokens[0]))
         self.__sentences = tuple(sentences)
 
         if validate_syntax:
-- 
2.43.0


From c1f4c8263226802a992da817e6f86e93df2e2b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:45 +0000
Subject: [PATCH 18/25] fix: the sentence boundaries of an empty document
 cannot be mutated

---
 babylondigger/datamodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index bdc2bb9..b30e732 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -445,7 +445,7 @@ class Document(_WordList):
             if sentences:
                 raise ValueError('sentence refers to nonexistent token (sentence: {}, tokens count: 0)'
                                  .format(sentences[-1]))
-            self.__sentences = []
+            self.__sentences = ()
             return
 
         if not sentences:
-- 
2.43.0


From 5fcc596048e5439f984dd52346c43a2b48dd55e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:16 +0000
Subject: [PATCH 19/25] fix: write tagged tokens when the FEATS column is not
 selected

---
 babylondigger/evaluation/conllu_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/babylondigger/evaluation/conllu_io.py b/babylondigger/evaluation/conllu_io.py
index ffbe911..8f1d15f 100644
--- a/babylondigger/evaluation/conllu_io.py
+++ b/babylondigger/evaluation/conllu_io.py
@@ -312,8 +312,8 @@ def to_conll(column_extractors, index: int, token: NavigableToken, write_space_a
     def __shield_none(s: str) -> str:
         return s if s is not None else "_"
 
-    def __feats_to_string(feats: Dict) -> str:
-        if len(feats) == 0:
+    def __feats_to_string(feats: Optional[Dict]) -> str:
+        if not feats:
             return "_"
         return "|".join(sorted("{}={}".format(*item) for item in feats.items()))
 
-- 
2.43.0


From 5deb879cdcee640e8565cccd1b32b152dd7ae8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:16 +0000
Subject: [PATCH 20/25] fix: skip empty nodes inside of multiword tokens

---
 babylondigger/evaluation/conllu_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/babylondigger/evaluation/conllu_io.py b/babylondigger/evaluation/conllu_io.py
index 8f1d15f..ab02e21 100644
--- a/babylondigger/evaluation/conllu_io.py
+++ b/babylondigger/evaluation/conllu_io.py
@@ -86,6 +86,8 @@ class _MultiWordReaderState(_AbstractReaderState):
         self._token_end = token_end
 
     def _process_token(self, parsed_token: 'InternalToken') -> _AbstractReaderState:
+        if '.' in parsed_token.id:  # empty token
+            return self
         self._tokens.append(Token(start=self._token_start, end=self._token_end,
                                   pos=parsed_token.pos, lemma=parsed_token.lemma,
                                   head_sentence_index=self._compute_head(parsed_token.head), deprel=parsed_token.deprel,
-- 
2.43.0


From 75cdd5a935cdbb0b51515512399f989325249001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:05 +0000
Subject: [PATCH 21/25] fix: align only words inside of a multiword span by
 their forms

---
 babylondigger/evaluation/conll17_ud_eval.py | 22 +++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/babylondigger/evaluation/conll17_ud_eval.py b/babylondigger/evaluation/conll17_ud_eval.py
index 3f16d69..61955d0 100644
--- a/babylondigger/evaluation/conll17_ud_eval.py
+++ b/babylondigger/evaluation/conll17_ud_eval.py
@@ -330,22 +330,21 @@ def evaluate(gold_ud, system_ud, deprel_weights=None):
         # We know gold_words[gi].is_multiword or system_words[si].is_multiword.
         # Find the start of the multiword span (gs, ss), so the multiword span is minimal.
         # Initialize multiword_span_end characters index.
-        if gold_words[gi].is_multiword:
+        # (the words before the first multi-word token have been skipped)
+        if gold_words[gi].is_multiword and (not system_words[si].is_multiword or
+                                            gold_words[gi].span.start <= system_words[si].span.start):
             multiword_span_end = gold_words[gi].span.end
-            if not system_words[si].is_multiword and system_words[si].span.start < gold_words[gi].span.start:
-                si += 1
         else: # if system_words[si].is_multiword
             multiword_span_end = system_words[si].span.end
-            if not gold_words[gi].is_multiword and gold_words[gi].span.start < system_words[si].span.start:
-                gi += 1
         gs, ss = gi, si
 
         # Find the end of the multiword span
         # (so both gi and si are pointing to the word following the multiword span end).
         while not beyond_end(gold_words, gi, multiword_span_end) or \
               not beyond_end(system_words, si, multiword_span_end):
-            if gi < len(gold_words) and (si >= len(system_words) or
-                                         gold_words[gi].span.start <= system_words[si].span.start):
+            if not beyond_end(gold_words, gi, multiword_span_end) and \
+                    (beyond_end(system_words, si, multiword_span_end) or
+                     gold_words[gi].span.start <= system_words[si].span.start):
                 multiword_span_end = extend_end(gold_words[gi], multiword_span_end)
                 gi += 1
             else:
@@ -368,7 +367,14 @@ def evaluate(gold_ud, system_ud, deprel_weights=None):
 
         gi, si = 0, 0
         while gi < len(gold_words) and si < len(system_words):
-            if gold_words[gi].is_multiword or system_words[si].is_multiword:
+            # Skip the words before the first multi-word token
+            if system_words[si].is_multiword and not gold_words[gi].is_multiword and \
+                    gold_words[gi].span.start < system_words[si].span.start:
+                gi += 1
+            elif gold_words[gi].is_multiword and not system_words[si].is_multiword and \
+                    system_words[si].span.start < gold_words[gi].span.start:
+                si += 1
+            elif gold_words[gi].is_multiword or system_words[si].is_multiword:
                 # A: Multi-word tokens => align via LCS within the whole "multiword span".
                 gs, ss, gi, si = find_multiword_span(gold_words, system_words, gi, si)
 
-- 
2.43.0


From f1c3d5f954c8b57b7cf6d4623e7c094bdea3274d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:05 +0000
Subject: [PATCH 22/25] fix: load sentences with long chains of heads

---
 babylondigger/evaluation/conll17_ud_eval.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/babylondigger/evaluation/conll17_ud_eval.py b/babylondigger/evaluation/conll17_ud_eval.py
index 61955d0..2a66656 100644
--- a/babylondigger/evaluation/conll17_ud_eval.py
+++ b/babylondigger/evaluation/conll17_ud_eval.py
@@ -160,17 +160,21 @@ def load_conllu(file):
         if not line:
             # Add parent UDWord links and check there are no cycles
             def process_word(word):
-                if word.parent == "remapping":
-                    raise UDError("There is a cycle in a sentence")
-                if word.parent is None:
+                path = []
+                while word.parent is None:
                     head = int(word.columns[HEAD])
                     if head > len(ud.words) - sentence_start:
                         raise UDError("HEAD '{}' points outside of the sentence".format(word.columns[HEAD]))
-                    if head:
-                        parent = ud.words[sentence_start + head - 1]
-                        word.parent = "remapping"
-                        process_word(parent)
-                        word.parent = parent
+                    if not head:
+                        break
+                    parent = ud.words[sentence_start + head - 1]
+                    path.append((word, parent))
+                    word.parent = "remapping"
+                    word = parent
+                if word.parent == "remapping":
+                    raise UDError("There is a cycle in a sentence")
+                for word, parent in path:
+                    word.parent = parent
 
             for word in ud.words[sentence_start:]:
                 process_word(word)
-- 
2.43.0


From 06f29dc9cca01f38672a0571de1f668d92f4b19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:05 +0000
Subject: [PATCH 23/25] fix: check the heads of words in multiword tokens

---
 babylondigger/evaluation/conll17_ud_eval.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/babylondigger/evaluation/conll17_ud_eval.py b/babylondigger/evaluation/conll17_ud_eval.py
index 2a66656..788f421 100644
--- a/babylondigger/evaluation/conll17_ud_eval.py
+++ b/babylondigger/evaluation/conll17_ud_eval.py
@@ -139,6 +139,14 @@ def load_conllu(file):
             # Let's ignore language-specific deprel subtypes.
             self.columns[DEPREL] = columns[DEPREL].split(':')[0]
 
+    def check_head(columns):
+        try:
+            head_id = int(columns[HEAD])
+        except:
+            raise UDError("Cannot parse HEAD '{}'".format(columns[HEAD]))
+        if head_id < 0:
+            raise UDError("HEAD cannot be negative")
+
     ud = UDRepresentation()
 
     # Load the CoNLL-U file
@@ -220,6 +228,7 @@ def load_conllu(file):
                 word_columns = word_line.split("\t")
                 if len(word_columns) != 10:
                     raise UDError("The CoNLL-U line does not contain 10 tab-separated columns: '{}'".format(word_line))
+                check_head(word_columns)
                 ud.words.append(UDWord(ud.tokens[-1], word_columns, is_multiword=True))
         # Basic tokens/words
         else:
@@ -230,13 +239,7 @@ def load_conllu(file):
             if word_id != len(ud.words) - sentence_start + 1:
                 raise UDError("Incorrect word ID '{}' for word '{}', expected '{}'".format(columns[ID], columns[FORM], len(ud.words) - sentence_start + 1))
 
-            try:
-                head_id = int(columns[HEAD])
-            except:
-                raise UDError("Cannot parse HEAD '{}'".format(columns[HEAD]))
-            if head_id < 0:
-                raise UDError("HEAD cannot be negative")
-
+            check_head(columns)
             ud.words.append(UDWord(ud.tokens[-1], columns, is_multiword=False))
 
     if sentence_start is not None:
-- 
2.43.0


From 7a4db4d19a88a5e797d66ecd71819b5396d356c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:05 +0000
Subject: [PATCH 24/25] fix: the scoring loader skips empty nodes inside of
 multiword tokens

---
 babylondigger/evaluation/conll17_ud_eval.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/babylondigger/evaluation/conll17_ud_eval.py b/babylondigger/evaluation/conll17_ud_eval.py
index 788f421..464a2a3 100644
--- a/babylondigger/evaluation/conll17_ud_eval.py
+++ b/babylondigger/evaluation/conll17_ud_eval.py
@@ -224,10 +224,12 @@ def load_conllu(file):
                 raise UDError("Cannot parse multi-word token ID '{}'".format(columns[ID]))
 
             for _ in range(start, end + 1):
-                word_line = file.readline().rstrip("\r\n")
-                word_columns = word_line.split("\t")
-                if len(word_columns) != 10:
-                    raise UDError("The CoNLL-U line does not contain 10 tab-separated columns: '{}'".format(word_line))
+                word_columns = ["."]
+                while "." in word_columns[ID]:  # skip empty nodes
+                    word_line = file.readline().rstrip("\r\n")
+                    word_columns = word_line.split("\t")
+                    if len(word_columns) != 10:
+                        raise UDError("The CoNLL-U line does not contain 10 tab-separated columns: '{}'".format(word_line))
                 check_head(word_columns)
                 ud.words.append(UDWord(ud.tokens[-1], word_columns, is_multiword=True))
         # Basic tokens/words
-- 
2.43.0


From de9945eb97591172a928105d9c3e4a75b7f2a524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:31 +0000
Subject: [PATCH 25/25] fix: expanded configurations do not share values of the
 grid

---
 babylondigger/evaluation/grid_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/evaluation/grid_eval.py b/babylondigger/evaluation/grid_eval.py
index d435658..1ad2717 100644
--- a/babylondigger/evaluation/grid_eval.py
+++ b/babylondigger/evaluation/grid_eval.py
@@ -10,7 +10,7 @@ def __merge_dicts(hyper_dict, grid_dict):
             if isinstance(hyper_dict[key], dict) and isinstance(grid_dict[key], dict):
                 __merge_dicts(hyper_dict[key], grid_dict[key])
             else:
-                hyper_dict[key] = grid_dict[key]
+                hyper_dict[key] = copy.deepcopy(grid_dict[key])
         else:
             raise ValueError("Undefined parameter: {}".format(key))
     return hyper_dict
-- 
2.43.0

