From 57ef2846dc275fb8f4b28bc1eaa3af483bf83589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:06 +0000
Subject: [PATCH 01/36] fix: reject a document whose first multi-word token
 lacks its first word

Only pairs of adjacent tokens were checked, so a missing word 0 went
unnoticed at the very beginning of a document.
---
 babylondigger/datamodel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index 75a6554..f5d3d30 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -439,6 +439,9 @@ class Document(_WordList):
             self.__sentences = []
             return
 
+        if self._tokens[0].sub_index != 0:
+            raise ValueError('multiword token is skipped ({})'.format(self._tokens[0]))
+
         if sentences[-1].end > len(tokens):
             raise ValueError('sentence refers to nonexistent token (sentence: {}, tokens count: {})'
                              .format(sentences[-1], len(tokens)))
-- 
2.43.0


From ed085d2d39252ef8818a75213abb89299d8f4bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:06 +0000
Subject: [PATCH 02/36] fix: reject sentences that refer to tokens of a
 document without tokens

Document.from_document(document, []) silently dropped all tokens and
sentences.
---
 babylondigger/datamodel.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index f5d3d30..ebc31da 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -428,14 +428,16 @@ class NavigableSentence(_WordList, _NavigableItem['NavigableSentence']):
 class Document(_WordList):
     def __init__(self, text: str, tokens: List[Token], sentences: Iterable[Sentence] = None, validate_syntax: bool = False):
 
-        if tokens:
-            if sentences is None:
-                sentences = [Sentence(0, len(tokens))]
-            sentences = sorted(sentences, key=attrgetter('start', 'end'))
+        if sentences is None:
+            sentences = [Sentence(0, len(tokens))] if tokens else []
+        sentences = sorted(sentences, key=attrgetter('start', 'end'))
 
         _WordList.__init__(self, text, tokens, lambda token: token._head_document_index, sorted_sentences=sentences)
 
         if len(tokens) == 0:
+            if sentences:
+                raise ValueError('sentence refers to nonexistent token (sentence: {}, tokens count: 0)'
+                                 .format(sentences[-1]))
             self.__sentences = []
             return
 
-- 
2.43.0


From fc073e7c54db75ef91dcd3520ba311e8b01c549c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:58 +0000
Subject: [PATCH 03/36] fix: do not turn heads before the sentence or
 disagreeing heads into roots

The sentence index of a head in front of its sentence may be -1, which was
taken for a root, so that e.g. the last word of the previous sentence as head
passed validation. A root in only one of two given representations was
accepted as well.
---
 babylondigger/datamodel.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index ebc31da..0b9e2bd 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -229,15 +229,15 @@ class Token(object):
     def fill_heads(cls, token: 'Token', sentence_start: int):
         if token.__head_sentence_index is None and token.__head_document_index is None:
             return token
-        if token.__head_sentence_index == -1 or token.__head_document_index == -1:
-            return token.with_syntax(token, token.__deprel, head_document_index=-1, head_sentence_index=-1)
         head_document_index = token.__head_document_index
         head_sentence_index = token.__head_sentence_index
-        if token.__head_document_index is None:
-            head_document_index = token.__head_sentence_index + sentence_start
-        elif token.__head_sentence_index is None:
-            head_sentence_index = token.__head_document_index - sentence_start
-        elif head_document_index != head_sentence_index + sentence_start:
+        if head_document_index is None:
+            head_document_index = -1 if head_sentence_index == -1 else head_sentence_index + sentence_start
+        elif head_sentence_index is None:
+            head_sentence_index = -1 if head_document_index == -1 else head_document_index - sentence_start
+        is_root = head_document_index == -1 and head_sentence_index == -1
+        if not is_root and (head_document_index < 0 or head_sentence_index < 0 or
+                            head_document_index != head_sentence_index + sentence_start):
             raise ValueError('Broken token {}. Mismatch syntactic head (document view: {}, sentence view: {}, sentence start: {})'
                              .format(token, head_document_index, head_sentence_index, sentence_start))
         return token.with_syntax(token, token.__deprel, head_document_index=head_document_index, head_sentence_index=head_sentence_index)
-- 
2.43.0


From 6d7ac4519a9e23fc141be568b6d62082330534f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:58 +0000
Subject: [PATCH 04/36] fix: the head of a token without syntax is None instead
 of a TypeError

---
 babylondigger/datamodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index 0b9e2bd..aa995ef 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -406,7 +406,7 @@ class NavigableToken(DocumentToken, _NavigableItem['NavigableToken']):
 
     @property
     def head(self) -> Optional['NavigableToken']:
-        if self.is_root:
+        if self.is_root or not self.has_head:
             return None
         return self.__token_getter(self.head_index)
 
-- 
2.43.0


From 39a706facd71220b658dc153cb75a56fc1a748cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:29 +0000
Subject: [PATCH 05/36] fix: str() of a document without tokens

---
 babylondigger/datamodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index aa995ef..8ae3815 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -535,6 +535,8 @@ class Document(_WordList):
         return self.__sentences
 
     def __str__(self):
+        if not self._tokens:
+            return self.document_text
         result = self.document_text[0:self._tokens[0].start]
         pointer = self._tokens[0].start
         for sentence in self.__sentences:
-- 
2.43.0


From dd3fd6f4b246b9a38fa5a2c7fde82b6497e5a0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:29 +0000
Subject: [PATCH 06/36] fix: ordering of tags with missing UPOS or XPOS

Comparing a tag without XPOS with one that has it raised a TypeError, which
broke building the joint POS label vocabulary for such treebanks.
---
 babylondigger/datamodel.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index 8ae3815..839ddd4 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -41,7 +41,7 @@ class Pos(object):
     def __lt__(self, other):
         if not isinstance(other, Pos):
             return NotImplemented
-        return self.__tuple_view() < other.__tuple_view()
+        return self.__sort_key() < other.__sort_key()
 
     def __hash__(self):
         return hash(self.__tuple_view())
@@ -49,6 +49,11 @@ class Pos(object):
     def __tuple_view(self):
         return self.__upos, self.__xpos, tuple(sorted(self.__feats.items()))
 
+    def __sort_key(self):
+        # upos and xpos may be missing (missing values precede all others)
+        upos, xpos, feats = self.__tuple_view()
+        return upos is not None, upos or '', xpos is not None, xpos or '', feats
+
 
 class TokenExtras(object):
     def __init__(self, extras: dict):
-- 
2.43.0


From af758de90fbffeb1b0b376e8584c6462761aea8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:29 +0000
Subject: [PATCH 07/36] fix: comparing token extras with another type raised
 TypeError

---
 babylondigger/datamodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index 839ddd4..37b82e7 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -74,7 +74,7 @@ class TokenExtras(object):
     def __eq__(self, other):
         if isinstance(other, TokenExtras):
             return self.__extras == other.__extras
-        raise NotImplemented
+        return NotImplemented
 
     def as_dict(self):
         return deepcopy(self.__extras)
-- 
2.43.0


From fcfc7613c0cb17f421d9b2e09d27ddd4811e75a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:42 +0000
Subject: [PATCH 08/36] fix: empty nodes inside a multi-word range are not
 words of it

---
 babylondigger/evaluation/conllu_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/babylondigger/evaluation/conllu_io.py b/babylondigger/evaluation/conllu_io.py
index fd99f75..62af634 100644
--- a/babylondigger/evaluation/conllu_io.py
+++ b/babylondigger/evaluation/conllu_io.py
@@ -86,6 +86,8 @@ class _MultiWordReaderState(_AbstractReaderState):
         self._token_end = token_end
 
     def _process_token(self, parsed_token: 'InternalToken') -> _AbstractReaderState:
+        if '.' in parsed_token.id:  # empty token
+            return self
         self._tokens.append(Token(start=self._token_start, end=self._token_end,
                                   pos=parsed_token.pos, lemma=parsed_token.lemma,
                                   head_sentence_index=self._compute_head(parsed_token.head), deprel=parsed_token.deprel,
-- 
2.43.0


From 3050a54ff3b89240c293bd9a97e0f24fd5a5a05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:58 +0000
Subject: [PATCH 09/36] fix: read MISC values whose items are not key=value
 pairs

---
 babylondigger/evaluation/conllu_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/evaluation/conllu_io.py b/babylondigger/evaluation/conllu_io.py
index 62af634..ab65322 100644
--- a/babylondigger/evaluation/conllu_io.py
+++ b/babylondigger/evaluation/conllu_io.py
@@ -173,7 +173,7 @@ def _line_parser(columns: Set[int]):
             lemma=lemma_extractor(token_repr),
             head=head_extractor(token_repr),
             deprel=deprel_extractor(token_repr),
-            space_after=_parse_to_dict(token_repr[MISC]).get("SpaceAfter") is None)
+            space_after="SpaceAfter=No" not in (token_repr[MISC] or "_").split("|"))
     return _parse_line
 
 
-- 
2.43.0


From 2c7b4c1a0b1c85559b2131a1dc41fd47df6749e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:15 +0000
Subject: [PATCH 10/36] fix: a multi-word token at the end of a sentence was
 written again in the next one

---
 babylondigger/evaluation/conllu_io.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/babylondigger/evaluation/conllu_io.py b/babylondigger/evaluation/conllu_io.py
index ab65322..61721f5 100644
--- a/babylondigger/evaluation/conllu_io.py
+++ b/babylondigger/evaluation/conllu_io.py
@@ -198,7 +198,7 @@ class _AbstractWriterState(object):
     def write_token(self, token: NavigableToken) -> '_AbstractWriterState':
         pass
 
-    def write_end_of_sentence(self):
+    def write_end_of_sentence(self) -> '_AbstractWriterState':
         pass
 
 
@@ -220,10 +220,11 @@ class _RegularTokenWriterState(_AbstractWriterState):
         self.write_to_file(self._to_conll_str(self.__index, token, write_space_after))
         self.__index += 1
 
-    def write_end_of_sentence(self):
+    def write_end_of_sentence(self) -> _AbstractWriterState:
         super().write_end_of_sentence()
         self.__file.write("\n")
         self.__index = 0
+        return self
 
     def write_to_file(self, line):
         self.__file.write(line)
@@ -249,7 +250,7 @@ class _MultiwordTokenWriterState(_AbstractWriterState):
         self._write_multiword_token()
         return self.__parent_state.write_token(token)
 
-    def write_end_of_sentence(self):
+    def write_end_of_sentence(self) -> _AbstractWriterState:
         self._write_multiword_token()
         return self.__parent_state.write_end_of_sentence()
 
@@ -306,7 +307,7 @@ class CoNLLUWriter(object):
         for sentence in doc.sentences:
             for token in sentence:
                 state = state.write_token(token)
-            state.write_end_of_sentence()
+            state = state.write_end_of_sentence()
 
 
 def to_conll(column_extractors, index: int, token: NavigableToken, write_space_after: bool = True, fake_heads: bool = True) -> List[str]:
-- 
2.43.0


From f4d5e55d543c4d729265311ee91c6c81669538ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:29 +0000
Subject: [PATCH 11/36] fix: writing tagged tokens without the FEATS column

---
 babylondigger/evaluation/conllu_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/evaluation/conllu_io.py b/babylondigger/evaluation/conllu_io.py
index 61721f5..4316b02 100644
--- a/babylondigger/evaluation/conllu_io.py
+++ b/babylondigger/evaluation/conllu_io.py
@@ -315,7 +315,7 @@ def to_conll(column_extractors, index: int, token: NavigableToken, write_space_a
         return s if s is not None else "_"
 
     def __feats_to_string(feats: Dict) -> str:
-        if len(feats) == 0:
+        if feats is None or len(feats) == 0:
             return "_"
         return "|".join(sorted("{}={}".format(*item) for item in feats.items()))
 
-- 
2.43.0


From bdb787e3efeb446987bc7667d994f69ca2b4001b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:37 +0000
Subject: [PATCH 12/36] fix: write features in the order of the UD format

---
 babylondigger/evaluation/conllu_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/babylondigger/evaluation/conllu_io.py b/babylondigger/evaluation/conllu_io.py
index 4316b02..5973336 100644
--- a/babylondigger/evaluation/conllu_io.py
+++ b/babylondigger/evaluation/conllu_io.py
@@ -317,7 +317,8 @@ def to_conll(column_extractors, index: int, token: NavigableToken, write_space_a
     def __feats_to_string(feats: Dict) -> str:
         if feats is None or len(feats) == 0:
             return "_"
-        return "|".join(sorted("{}={}".format(*item) for item in feats.items()))
+        # UD order: by feature name, ignoring case
+        return "|".join("{}={}".format(*item) for item in sorted(feats.items(), key=lambda i: (i[0].lower(), i[0])))
 
     def __normalize_index(index: int):
         if index == -1:
-- 
2.43.0


From a41e71933464936f2f9036970054b6dd65a20e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:30 +0000
Subject: [PATCH 13/36] fix: the evaluator checks ID and HEAD of words inside
 multi-word tokens

---
 babylondigger/evaluation/conll17_ud_eval.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/babylondigger/evaluation/conll17_ud_eval.py b/babylondigger/evaluation/conll17_ud_eval.py
index 3f16d69..cb09d95 100644
--- a/babylondigger/evaluation/conll17_ud_eval.py
+++ b/babylondigger/evaluation/conll17_ud_eval.py
@@ -216,6 +216,10 @@ def load_conllu(file):
                 word_columns = word_line.split("\t")
                 if len(word_columns) != 10:
                     raise UDError("The CoNLL-U line does not contain 10 tab-separated columns: '{}'".format(word_line))
+                if word_columns[ID] != str(len(ud.words) - sentence_start + 1):
+                    raise UDError("Incorrect word ID '{}' for word '{}', expected '{}'".format(word_columns[ID], word_columns[FORM], len(ud.words) - sentence_start + 1))
+                if not word_columns[HEAD].isdecimal():
+                    raise UDError("Cannot parse HEAD '{}'".format(word_columns[HEAD]))
                 ud.words.append(UDWord(ud.tokens[-1], word_columns, is_multiword=True))
         # Basic tokens/words
         else:
-- 
2.43.0


From fc2e20695b2c97f5f4745a530a968918bcb9b4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:55 +0000
Subject: [PATCH 14/36] fix: the evaluator accepts empty nodes inside
 multi-word tokens

---
 babylondigger/evaluation/conll17_ud_eval.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/babylondigger/evaluation/conll17_ud_eval.py b/babylondigger/evaluation/conll17_ud_eval.py
index cb09d95..a011819 100644
--- a/babylondigger/evaluation/conll17_ud_eval.py
+++ b/babylondigger/evaluation/conll17_ud_eval.py
@@ -211,16 +211,21 @@ def load_conllu(file):
             except:
                 raise UDError("Cannot parse multi-word token ID '{}'".format(columns[ID]))
 
-            for _ in range(start, end + 1):
+            words_left = end - start + 1
+            while words_left > 0:
                 word_line = file.readline().rstrip("\r\n")
                 word_columns = word_line.split("\t")
                 if len(word_columns) != 10:
                     raise UDError("The CoNLL-U line does not contain 10 tab-separated columns: '{}'".format(word_line))
+                # Skip empty nodes
+                if "." in word_columns[ID]:
+                    continue
                 if word_columns[ID] != str(len(ud.words) - sentence_start + 1):
                     raise UDError("Incorrect word ID '{}' for word '{}', expected '{}'".format(word_columns[ID], word_columns[FORM], len(ud.words) - sentence_start + 1))
                 if not word_columns[HEAD].isdecimal():
                     raise UDError("Cannot parse HEAD '{}'".format(word_columns[HEAD]))
                 ud.words.append(UDWord(ud.tokens[-1], word_columns, is_multiword=True))
+                words_left -= 1
         # Basic tokens/words
         else:
             try:
-- 
2.43.0


From 2e75aafe6e5fc153fb9000cc02e88b576fba5768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:55 +0000
Subject: [PATCH 15/36] fix: the evaluator loads long sentences without
 exceeding the recursion limit

---
 babylondigger/evaluation/conll17_ud_eval.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/babylondigger/evaluation/conll17_ud_eval.py b/babylondigger/evaluation/conll17_ud_eval.py
index a011819..c38dbcc 100644
--- a/babylondigger/evaluation/conll17_ud_eval.py
+++ b/babylondigger/evaluation/conll17_ud_eval.py
@@ -160,17 +160,21 @@ def load_conllu(file):
         if not line:
             # Add parent UDWord links and check there are no cycles
             def process_word(word):
-                if word.parent == "remapping":
-                    raise UDError("There is a cycle in a sentence")
-                if word.parent is None:
+                remapped = []
+                while word.parent is None:
                     head = int(word.columns[HEAD])
                     if head > len(ud.words) - sentence_start:
                         raise UDError("HEAD '{}' points outside of the sentence".format(word.columns[HEAD]))
-                    if head:
-                        parent = ud.words[sentence_start + head - 1]
-                        word.parent = "remapping"
-                        process_word(parent)
-                        word.parent = parent
+                    if not head:
+                        break
+                    parent = ud.words[sentence_start + head - 1]
+                    word.parent = "remapping"
+                    remapped.append((word, parent))
+                    word = parent
+                if word.parent == "remapping":
+                    raise UDError("There is a cycle in a sentence")
+                for word, parent in remapped:
+                    word.parent = parent
 
             for word in ud.words[sentence_start:]:
                 process_word(word)
-- 
2.43.0


From e6edbdfb9f79a80863caa45d90f50934ac0ad199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:57 +0000
Subject: [PATCH 16/36] fix: whole-word lemma exceptions were offered for
 longer words

---
 babylondigger/lemmas/transformation_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/babylondigger/lemmas/transformation_rules.py b/babylondigger/lemmas/transformation_rules.py
index 0b2a905..1bf8296 100644
--- a/babylondigger/lemmas/transformation_rules.py
+++ b/babylondigger/lemmas/transformation_rules.py
@@ -128,8 +128,8 @@ class LemmaTransformationTrie(object):
             if child is None:
                 break
             current = child
-
-        _extend(result, current.__exceptions)
+        else:  # exceptions apply to the whole word only
+            _extend(result, current.__exceptions)
         return result
 
     @classmethod
-- 
2.43.0


From 3d6efa315c45dfee7f7b01545553e113115efedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:43 +0000
Subject: [PATCH 17/36] fix: suffix rules could not be built from unhashable
 data sets such as lists

---
 babylondigger/features/extractors.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/babylondigger/features/extractors.py b/babylondigger/features/extractors.py
index 873af00..8cca9a9 100644
--- a/babylondigger/features/extractors.py
+++ b/babylondigger/features/extractors.py
@@ -439,12 +439,13 @@ class CachedSuffixRulesBuilder(object):
         self.__cache = {}
 
     def build_rules(self, dataset: Iterable[Document]):
-        if dataset not in self.__cache:
+        key = id(dataset)  # data set itself may be unhashable; it is cached too, so that its id is not reused
+        if key not in self.__cache:
             suffix_count = _count_labels(dataset, _suffix_transformation)
             id2suffix = _id2obj(suffix_count, self.__threshold)
             suffix2id = _obj2id(id2suffix)
-            self.__cache[dataset] = (suffix2id, id2suffix)
-        return self.__cache[dataset]
+            self.__cache[key] = (dataset, (suffix2id, id2suffix))
+        return self.__cache[key][1]
 
 
 class LemmaSuffixTransformationFeatureExtractorBuilder(builder.FeatureExtractorBuilder[NavigableToken, int]):
-- 
2.43.0


From 628e678a8bb9d36b3b857e1a456870ca67b97580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:43 +0000
Subject: [PATCH 18/36] fix: trainable word embeddings numbered characters
 instead of (lower-cased) words

---
 babylondigger/features/extractors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/features/extractors.py b/babylondigger/features/extractors.py
index 8cca9a9..16e60de 100644
--- a/babylondigger/features/extractors.py
+++ b/babylondigger/features/extractors.py
@@ -122,7 +122,7 @@ class TrainableEmbeddingsExtractorBuilder(builder.FeatureExtractorBuilder[Naviga
         self.__lowercase = lowercase
 
     def build(self, dataset: Iterable[Document]):
-        tokens = chain.from_iterable(_tokens(dataset, lambda token: token.text))
+        tokens = _tokens(dataset, lambda token: token.text.lower() if self.__lowercase else token.text)
         counter = Counter(tokens)
         filtered = map(lambda item: item[0], filter(lambda item: item[1] >= self.__threshold, counter.most_common()))
         word2id = {wr: index for index, wr in enumerate(sorted(filtered), 2)}
-- 
2.43.0


From 73a783b9ac731fe8e6c85c46e471e9b4c08ce76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:43 +0000
Subject: [PATCH 19/36] fix: tag labels with a missing XPOS could not be
 numbered by the pos_XF splitter

---
 babylondigger/features/extractors.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/babylondigger/features/extractors.py b/babylondigger/features/extractors.py
index 16e60de..0f547d8 100644
--- a/babylondigger/features/extractors.py
+++ b/babylondigger/features/extractors.py
@@ -616,11 +616,16 @@ def _id2obj(labels_counts: Dict[__T, int], threshold=0) -> List[__T]:
         objects = filter(lambda item: item[1] > threshold, objects)
     objects = map(lambda item: item[0], objects)
     objects = filter(lambda obj: obj != most_common, objects)
-    id2obj = sorted(objects, key=lambda x: (x is not None, x))
+    id2obj = sorted(objects, key=_sort_key)
     id2obj.insert(0, most_common)
     return id2obj
 
 
+def _sort_key(obj):
+    # None goes first, also inside of tuples
+    return obj is not None, tuple(map(_sort_key, obj)) if isinstance(obj, tuple) else obj
+
+
 def _obj2id(id2obj: List[__T]) -> Dict[__T, int]:
     return {obj: i for i, obj in enumerate(id2obj)}
 
-- 
2.43.0


From fbd60c864a5c24f051220e87ebc512fdb16a8d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:43 +0000
Subject: [PATCH 20/36] fix: sparsity rate 0 could replace an id when the
 random draw is 0

---
 babylondigger/features/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/features/builder.py b/babylondigger/features/builder.py
index 08367c5..0964bc2 100644
--- a/babylondigger/features/builder.py
+++ b/babylondigger/features/builder.py
@@ -185,7 +185,7 @@ class SparseFeatureExtractor(FeatureExtractorInterface[_T, _V]):
 
 def _sparse_rate_sequence(input_, sparse_rate):
     if isinstance(input_, int):
-        return input_ if random.random() > sparse_rate else OOV
+        return input_ if random.random() >= sparse_rate else OOV
     elif isinstance(input_, list):
         return [_sparse_rate_sequence(el, sparse_rate) for el in input_]
     else:
-- 
2.43.0


From 667cc66d38f298ccc15527895425450e0741f5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:44 +0000
Subject: [PATCH 21/36] fix: the stub tagger could not be trained by the
 evaluation, which expects scored taggers

---
 babylondigger/tagger.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/babylondigger/tagger.py b/babylondigger/tagger.py
index 07f3465..d5105fa 100644
--- a/babylondigger/tagger.py
+++ b/babylondigger/tagger.py
@@ -37,9 +37,12 @@ class StubTagger(TaggerInterface):
 
 class StubTaggerTrainer(TaggerTrainerInterface):
 
-    def train(self, documents: Iterable[Document], **kwargs):
+    def train(self, documents: Iterable[Document], dev_tester=None, **kwargs):
         pos = self.get_most_frequent_pos(documents)
-        return [StubTagger(pos)]
+        tagger = StubTagger(pos)
+        if dev_tester is not None:
+            return [(dev_tester(tagger), tagger)]
+        return [tagger]
 
     def get_most_frequent_pos(self, documents: Iterable[Document]) -> Pos:
         tokens = map(lambda document: document.tokens, documents)
-- 
2.43.0


From 9c54237156c99831f8e3b89737462d2089b46859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:04 +0000
Subject: [PATCH 22/36] fix: hand features to UDPipe in the order of the UD
 format

---
 babylondigger/wrappers/udpipe1_2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/babylondigger/wrappers/udpipe1_2.py b/babylondigger/wrappers/udpipe1_2.py
index 86f915e..241498c 100644
--- a/babylondigger/wrappers/udpipe1_2.py
+++ b/babylondigger/wrappers/udpipe1_2.py
@@ -82,7 +82,9 @@ def convert_to_ud(sentence: NavigableSentence) -> ud.Sentence:
             if token.pos.xpos:
                 word.xpostag = token.pos.xpos
             if token.pos.feats:
-                word.feats = "|".join(sorted("{}={}".format(*item) for item in token.pos.feats.items()))
+                # UD order: by feature name, ignoring case
+                word.feats = "|".join("{}={}".format(*item) for item in
+                                      sorted(token.pos.feats.items(), key=lambda i: (i[0].lower(), i[0])))
     return result
 
 
-- 
2.43.0


From 3c87fb814b1c6cd4bdb42dfe00fa6337435eeecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:23 +0000
Subject: [PATCH 23/36] fix: a pipeline left processors entered when entering
 or exiting another one failed

---
 babylondigger/processor.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/babylondigger/processor.py b/babylondigger/processor.py
index 71e34dd..95e7c0a 100644
--- a/babylondigger/processor.py
+++ b/babylondigger/processor.py
@@ -1,3 +1,4 @@
+from contextlib import ExitStack
 from typing import Iterator, Iterable
 
 from babylondigger.datamodel import Document
@@ -16,7 +17,7 @@ class DocumentProcessorInteface(object):
 
 class DocumentComplexProcessor(DocumentProcessorInteface):
     def __init__(self, processors: Iterable[DocumentProcessorInteface]):
-        self.__processors = processors
+        self.__processors = list(processors)
 
     def process(self, documents: Iterator[Document]) -> Iterator[Document]:
         result = documents
@@ -25,10 +26,21 @@ class DocumentComplexProcessor(DocumentProcessorInteface):
         return result
 
     def __enter__(self):
-        for processor in self.__processors:
-            processor.__enter__()
+        with ExitStack() as stack:
+            for processor in self.__processors:
+                processor.__enter__()
+                stack.push(self.__exit_function(processor))
+            stack.pop_all()  # everything is entered: now it's up to __exit__
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        for processor in self.__processors:
-            processor.__exit__(exc_type, exc_val, exc_tb)
+        stack = ExitStack()
+        for processor in reversed(self.__processors):
+            stack.push(self.__exit_function(processor))
+        stack.__exit__(exc_type, exc_val, exc_tb)  # exits every processor even if some of exits fail
+
+    @staticmethod
+    def __exit_function(processor: DocumentProcessorInteface):
+        def exit_processor(*exc_details):
+            processor.__exit__(*exc_details)  # result is ignored: errors are never suppressed
+        return exit_processor
-- 
2.43.0


From d788c45ca62574c57998709120cd537b556e177b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:08 +0000
Subject: [PATCH 24/36] fix: averaging metrics without aligned accuracy over
 seeds raised TypeError

---
 babylondigger/evaluation/evaluation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/evaluation/evaluation.py b/babylondigger/evaluation/evaluation.py
index 72346a5..57a09a2 100644
--- a/babylondigger/evaluation/evaluation.py
+++ b/babylondigger/evaluation/evaluation.py
@@ -229,7 +229,7 @@ def get_metrics_printer(metrics: List[str]):
 
 
 def get_metrics_averager(metrics: List[str]):
-    _Scores = namedtuple('Scores', ['precision', 'recall', 'f1', 'aligned_accuracy'])
+    _Scores = namedtuple('Scores', ['precision', 'recall', 'f1', 'aligned_accuracy'], defaults=[None])
 
     def calculate_average_scores(scores):
         sums = {metric: defaultdict(int) for metric in metrics}
-- 
2.43.0


From 0fd027920f8e4a0464adb427e2adf82cf55caf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:40 +0000
Subject: [PATCH 25/36] fix: comparison metrics that are not printed were
 missing from scores averaged over seeds

---
 babylondigger/evaluation/evaluation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/evaluation/evaluation.py b/babylondigger/evaluation/evaluation.py
index 57a09a2..a74c339 100644
--- a/babylondigger/evaluation/evaluation.py
+++ b/babylondigger/evaluation/evaluation.py
@@ -259,7 +259,7 @@ def main(args):
 
     trainer = get_trainer(args.method)
 
-    metrics_averager = get_metrics_averager(args.settings["metric_printer"]["fields"])
+    metrics_averager = get_metrics_averager({*args.settings["metric_printer"]["fields"], *args.settings["cmp_metric"]["fields"]})
     estimator = __build_estimator(args, metrics_printer, metrics_averager)
     hyperparams = args.hyperparams
     if not isinstance(hyperparams, list):
-- 
2.43.0


From a73ce179c3c16f07a1b809eb79fb46b0f94a03be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:49 +0000
Subject: [PATCH 26/36] fix: parameter sets of a grid search shared lists of
 the grid

---
 babylondigger/evaluation/grid_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/evaluation/grid_eval.py b/babylondigger/evaluation/grid_eval.py
index d435658..eabc4ae 100644
--- a/babylondigger/evaluation/grid_eval.py
+++ b/babylondigger/evaluation/grid_eval.py
@@ -30,7 +30,7 @@ def __build_list_of_new_hyperparams(grid_params, params):
     for grid_element in grid_params:
         hypers = copy.deepcopy(params)
         for grid_dict in grid_element.values():
-            hypers = __merge_dicts(hypers, grid_dict)
+            hypers = __merge_dicts(hypers, copy.deepcopy(grid_dict))
         params_list.append(hypers)
     return params_list
 
-- 
2.43.0


From b128bcfe131deec5f0448179ebf1dd55ce24d903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:27 +0000
Subject: [PATCH 27/36] fix: use of the external parser outside of its context
 raised AttributeError instead of RuntimeError

---
 babylondigger/wrappers/tdozat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/wrappers/tdozat.py b/babylondigger/wrappers/tdozat.py
index 9de721e..b50fdfb 100644
--- a/babylondigger/wrappers/tdozat.py
+++ b/babylondigger/wrappers/tdozat.py
@@ -58,7 +58,7 @@ class TDozatDocumentProcessor(DocumentProcessorInteface):
 
     def process(self, documents: Iterator[Document]) -> Iterator[Document]:
         if self._sess is None:
-            raise RuntimeError(f'Use {self.__name__} as context manager')
+            raise RuntimeError(f'Use {type(self).__name__} as context manager')
         documents_list = list(documents)
         return iter(self.__parse_documents(documents_list))
 
-- 
2.43.0


From 25d8efd4c9319cf4ae259022a96d4e57a9db8cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:39 +0000
Subject: [PATCH 28/36] fix: the external parser could be used uninitialized,
 with its session left open, after entering failed

---
 babylondigger/wrappers/tdozat.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/babylondigger/wrappers/tdozat.py b/babylondigger/wrappers/tdozat.py
index b50fdfb..741de8a 100644
--- a/babylondigger/wrappers/tdozat.py
+++ b/babylondigger/wrappers/tdozat.py
@@ -77,9 +77,14 @@ class TDozatDocumentProcessor(DocumentProcessorInteface):
         config.gpu_options.allow_growth = True
         config.allow_soft_placement = True
 
-        self._sess = tf.Session(graph=self.__g, config=config)
-        self._sess.run(tf.variables_initializer(list(non_save_variables)))
-        saver.restore(self._sess, tf.train.latest_checkpoint(self.__network.save_dir))
+        sess = tf.Session(graph=self.__g, config=config)
+        try:
+            sess.run(tf.variables_initializer(list(non_save_variables)))
+            saver.restore(sess, tf.train.latest_checkpoint(self.__network.save_dir))
+        except BaseException:
+            sess.close()
+            raise
+        self._sess = sess
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-- 
2.43.0


From c6fa607c1c19abcb32ba0bc803dd9bc4654679b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:46 +0000
Subject: [PATCH 29/36] fix: predictions of a failed call were used by the next
 call of the external parser

---
 babylondigger/wrappers/tdozat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/babylondigger/wrappers/tdozat.py b/babylondigger/wrappers/tdozat.py
index 741de8a..817dafa 100644
--- a/babylondigger/wrappers/tdozat.py
+++ b/babylondigger/wrappers/tdozat.py
@@ -94,6 +94,7 @@ class TDozatDocumentProcessor(DocumentProcessorInteface):
     def __parse_documents(self, documents: Iterable[Document]):
         for vocab in self.__network.vocabs:
             vocab.reset()
+        self.parse_outputs.predictions = {'indices': []}  # a failed call may have left some
 
         dataset = _DocumentDataset(documents, self.__network.vocabs, config=self.__config)
         # following code is copy-pasted from tdozat_parser.parser.base_network.BaseNetwork#parse_file
-- 
2.43.0


From 1a4ec0c4454e4f2a9f7fbfc032bdf466924f673c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:52 +0000
Subject: [PATCH 30/36] fix: sum the losses of a task without loss_weights

tf.stack got the dict of losses, which fails with a KeyError, so every dense task needed loss_weights.
---
 babylondigger/neural/tagger/task_builders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/neural/tagger/task_builders.py b/babylondigger/neural/tagger/task_builders.py
index 45a2533..1a3c9c7 100644
--- a/babylondigger/neural/tagger/task_builders.py
+++ b/babylondigger/neural/tagger/task_builders.py
@@ -52,7 +52,7 @@ class DenseTaskNetworkBuilder(AbstractTaskNetworkBuilder):
 
     def _sum_losses(self, losses):
         if self.__loss_weights is None:
-            return tf.reduce_sum(tf.stack(losses), name='loss')
+            return tf.reduce_sum(tf.stack(list(losses.values())), name='loss')
 
         weighted_losses = []
         for loss in losses:
-- 
2.43.0


From 18915fe35c107752aa9922f96cb0ebd16d759a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:34 +0000
Subject: [PATCH 31/36] fix: task builders without initializers, such as
 lemma_binary, could not be built

AbstractTaskNetworkBuilder.initializers returned None, which MultitaskNetworkBuilder cannot iterate over.
---
 babylondigger/neural/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/neural/network.py b/babylondigger/neural/network.py
index 96fe062..eb4462e 100644
--- a/babylondigger/neural/network.py
+++ b/babylondigger/neural/network.py
@@ -96,7 +96,7 @@ class AbstractTaskNetworkBuilder(object):
         pass
 
     def initializers(self) -> List['NeuralNetworkInitializer']:
-        pass
+        return []
 
 
 class AbstractSharedNetworkBuilder(object):
-- 
2.43.0


From 625034b71e23dbf4b4cfa6ef1a7c2fd70d1f1296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:01 +0000
Subject: [PATCH 32/36] fix: lemma_combo could not be built on BiLSTM_CNN with
 the same convolutions

Both named the variables of their convolutions cnn_kernel_*.
---
 babylondigger/neural/tagger/task_builders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/neural/tagger/task_builders.py b/babylondigger/neural/tagger/task_builders.py
index 1a3c9c7..9ac2679 100644
--- a/babylondigger/neural/tagger/task_builders.py
+++ b/babylondigger/neural/tagger/task_builders.py
@@ -176,7 +176,7 @@ class LemmaCOMBOTaskNetworkBuilder(AbstractTaskNetworkBuilder):
         # apply dilated convolutions to concatenated char embeddings and shared's output
         cnn_input = tf.reshape(tf.concat([broadcast, ce], axis=-1),
                                [-1, 1, self.__max_word_length, self.__cnn_char_embed_size + self.__cnn_bilstm_dense_size])
-        cnn_output = utils.apply_conv_layer(cnn_input, self.__cnn_kernels, 'cnn_kernel')
+        cnn_output = utils.apply_conv_layer(cnn_input, self.__cnn_kernels, 'lemma_cnn_kernel')
 
         if self.__input_subwords_config.get("highway_layer", False):
             # apply highway layer
-- 
2.43.0


From 393c7a66e8cc1754f86a805709541f252734146d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:58 +0000
Subject: [PATCH 33/36] fix: average subword embeddings over the subwords of
 the word, not over the padded length

---
 babylondigger/neural/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/babylondigger/neural/utils.py b/babylondigger/neural/utils.py
index 8629a0d..8a1571f 100644
--- a/babylondigger/neural/utils.py
+++ b/babylondigger/neural/utils.py
@@ -64,7 +64,8 @@ def subword_average(ids, input_: tf.Tensor, config, feature_name):
     broadcast_mask = tf.broadcast_to(mask, [mask_shape[0], mask_shape[1], mask_shape[2], input_shape[-1]])
     nonzero_input_ = tf.ragged.boolean_mask(input_, broadcast_mask).to_tensor()
     nonzero_input_reshaped = tf.reshape(nonzero_input_, [input_shape[0], input_shape[1], input_shape[2], input_.get_shape().as_list()[-1]])
-    return tf.reduce_mean(nonzero_input_reshaped, axis=-2)
+    subword_count = tf.reduce_sum(tf.cast(mask, input_.dtype), axis=-2)
+    return tf.reduce_sum(nonzero_input_reshaped, axis=-2) / tf.maximum(subword_count, 1)
 
 
 def subword_self_attention(ids, input_: tf.Tensor, config, feature_name):
-- 
2.43.0


From a74f5285942370d18fc11bd63a17bb1e603d5920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:00 +0000
Subject: [PATCH 34/36] fix: lr_decrease_factor is optional with the documented
 default of 2

---
 babylondigger/neural/tagger/neural_tagger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/neural/tagger/neural_tagger.py b/babylondigger/neural/tagger/neural_tagger.py
index 2dfb8af..5eb4fc5 100644
--- a/babylondigger/neural/tagger/neural_tagger.py
+++ b/babylondigger/neural/tagger/neural_tagger.py
@@ -126,7 +126,7 @@ class NeuralTaggerTrainer(TaggerTrainerInterface):
                     scores = dev_tester(tagger)
                     acc = sum(score.aligned_accuracy for score in scores.values() if score.aligned_accuracy is not None)
                     if acc <= _previous_accs[-1] and acc <= sum(_previous_accs) / len(_previous_accs):
-                        lr /= optimizer['lr_decrease_factor']
+                        lr /= optimizer.get('lr_decrease_factor', 2)
 
                     _previous_accs.append(acc)
                     _previous_accs.pop(0)
-- 
2.43.0


From 5a17a4304d2c56972fcc1c8f97701e229ea439ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:35 +0000
Subject: [PATCH 35/36] fix: loss weights of lemma_combo are optional and may
 have a default as for other tasks

---
 babylondigger/neural/tagger/task_builders.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/babylondigger/neural/tagger/task_builders.py b/babylondigger/neural/tagger/task_builders.py
index 9ac2679..d2b656b 100644
--- a/babylondigger/neural/tagger/task_builders.py
+++ b/babylondigger/neural/tagger/task_builders.py
@@ -123,7 +123,8 @@ class LemmaCOMBOTaskNetworkBuilder(AbstractTaskNetworkBuilder):
         self.__max_word_length = features_config["output_subwords"]["max_word_length"]
         self.__output_subwords_config = features_config["output_subwords"]
         self.__input_subwords_config = features_config["input_subwords"]
-        self.__loss_weight = config.get("loss_weights")["LEMMA"]
+        loss_weights = config.get("loss_weights", {"default": 1})
+        self.__loss_weight = loss_weights["LEMMA"] if "LEMMA" in loss_weights else loss_weights["default"]
         self.__initializers = []
 
     def gold(self, shapes):
-- 
2.43.0


From 52dc2d9a50a51fbaf5e5f47a28ca86325c019f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:20 +0000
Subject: [PATCH 36/36] fix: tokens with different sentence-relative heads
 compared equal

---
 babylondigger/datamodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index 37b82e7..410b46b 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -184,7 +184,8 @@ class Token(object):
             return self.__start == other.__start and self.__end == other.__end and \
                    self.pos == other.pos and self.lemma == other.lemma and \
                    self._head_document_index == other._head_document_index and \
-                   self._head_sentence_index == self._head_sentence_index and self.deprel == other.deprel and \
+                   (self._head_document_index is not None or self._head_sentence_index == other._head_sentence_index) and \
+                   self.deprel == other.deprel and \
                    self.sub_index == other.sub_index and self.text_replacement == other.text_replacement and \
                    self.extras == other.extras
         return NotImplemented
-- 
2.43.0

