From 362cc2bb716caff0bed898c15b66379acb477370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 01/73] fix: apply custom substitution costs when the first
 string is shorter

---
 soynlp/hangle/_distance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/hangle/_distance.py b/soynlp/hangle/_distance.py
index b0d354a..2b095c5 100644
--- a/soynlp/hangle/_distance.py
+++ b/soynlp/hangle/_distance.py
@@ -7,7 +7,7 @@ from ._hangle import decompose
 def levenshtein(s1, s2, cost={}):
     # based on Wikipedia/Levenshtein_distance#Python
     if len(s1) < len(s2):
-        return levenshtein(s2, s1)
+        return levenshtein(s2, s1, {(c2, c1): c for (c1, c2), c in cost.items()})
 
     if len(s2) == 0:
         return len(s1)
-- 
2.43.0


From 127fb0bb2e025dcbb704bbc2855f1fc591dcbedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 02/73] fix: emoticon_normalize keeps syllables its split rules
 do not apply to

---
 soynlp/normalizer/_normalizer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/soynlp/normalizer/_normalizer.py b/soynlp/normalizer/_normalizer.py
index 770cee5..81b2d93 100644
--- a/soynlp/normalizer/_normalizer.py
+++ b/soynlp/normalizer/_normalizer.py
@@ -77,11 +77,15 @@ def emoticon_normalize(sent, num_repeats=2):
             if (jong == sent[i+1]):
                 sent_.append(compose(cho, jung, ' '))
                 sent_.append(jong)
+            else:
+                sent_.append(c)
         elif (i > 0) and (idx == 2 and idxs[i-1] == 0):
             cho, jung, jong = decompose(c)
-            if (cho == sent[i-1]):
+            if (cho == sent[i-1]) and (jong == ' '):
                 sent_.append(cho)
                 sent_.append(jung)
+            else:
+                sent_.append(c)
         else:
             sent_.append(c)
     return repeat_normalize(''.join(sent_), num_repeats)
-- 
2.43.0


From d30b18a7f8f91346b08f81b443627603a12990fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 03/73] fix: repeat normalization never lengthens a run shorter
 than the limit

---
 soynlp/normalizer/_normalizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/normalizer/_normalizer.py b/soynlp/normalizer/_normalizer.py
index 81b2d93..e3070f6 100644
--- a/soynlp/normalizer/_normalizer.py
+++ b/soynlp/normalizer/_normalizer.py
@@ -32,7 +32,7 @@ def normalize(doc, alphabet=False, number=False,
     if not symbol:
         doc = symbol_pattern.sub(' ', doc)
     if remove_repeat > 0:
-        doc = repeatchars_pattern.sub('\\1' * remove_repeat, doc)
+        doc = repeatchars_pattern.sub(lambda m: m.group()[:remove_repeat], doc)
 
     return doublespace_pattern.sub(' ', doc).strip()
 
@@ -41,7 +41,7 @@ def remove_doublespace(sent):
 
 def repeat_normalize(sent, num_repeats=2):
     if num_repeats > 0:
-        sent = repeatchars_pattern.sub('\\1' * num_repeats, sent)
+        sent = repeatchars_pattern.sub(lambda m: m.group()[:num_repeats], sent)
     sent = doublespace_pattern.sub(' ', sent)
     return sent.strip()
 
-- 
2.43.0


From 4742070bd4a738476f583f258b53e4f809030f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 04/73] fix: tokenizer normalize never lengthens a repeat
 shorter than the limit

---
 soynlp/tokenizer/_normalizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soynlp/tokenizer/_normalizer.py b/soynlp/tokenizer/_normalizer.py
index ca7c0e4..71857ef 100644
--- a/soynlp/tokenizer/_normalizer.py
+++ b/soynlp/tokenizer/_normalizer.py
@@ -22,7 +22,8 @@ def _normalize_korean_token(token, num_repeat=2):
 def _remove_repeat(token, num_repeat=2):
     if num_repeat > 0:
         for pattern in repeatchars_patterns:
-            token = pattern.sub('\\1' * num_repeat, token)
+            token = pattern.sub(
+                lambda m: m.group()[:len(m.group(1)) * num_repeat], token)
     return token
 
 def _normalize_emoji(token):
-- 
2.43.0


From 6384600368a72b2132d284e90d80840fa6b6d12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 05/73] fix: RegexTokenizer no longer splits English words
 after their last s

---
 soynlp/tokenizer/_tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/tokenizer/_tokenizer.py b/soynlp/tokenizer/_tokenizer.py
index e194591..809a2f4 100644
--- a/soynlp/tokenizer/_tokenizer.py
+++ b/soynlp/tokenizer/_tokenizer.py
@@ -16,7 +16,7 @@ class RegexTokenizer:
             ('korean', re.compile(u'[가-힣]+', re.UNICODE)),
             ('jaum', re.compile(u'[ㄱ-ㅎ]+', re.UNICODE)),
             ('moum', re.compile(u'[ㅏ-ㅣ]+', re.UNICODE)),
-            ('english & latin', re.compile(u"[a-zA-ZÀ-ÿ]+[[`']?s]*|[a-zA-ZÀ-ÿ]+", re.UNICODE))
+            ('english & latin', re.compile(u"[a-zA-ZÀ-ÿ]+(?:[`']s(?![a-zA-ZÀ-ÿ]))*", re.UNICODE))
         ]
         
         self.doublewhite_pattern = re.compile('\s+')
-- 
2.43.0


From b2e584780d7e337e469dc8efdb795628bce2c9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 06/73] fix: MaxScoreTokenizer reports the table score of short
 and in-between tokens

---
 soynlp/tokenizer/_tokenizer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/soynlp/tokenizer/_tokenizer.py b/soynlp/tokenizer/_tokenizer.py
index 809a2f4..ad1ba27 100644
--- a/soynlp/tokenizer/_tokenizer.py
+++ b/soynlp/tokenizer/_tokenizer.py
@@ -139,7 +139,8 @@ class MaxScoreTokenizer:
         
         length = len(token)
         if length <= 2:
-            return [(token, 0, length, self._ds, length)]
+            score = self._scores.get(token, self._ds)
+            return [(token, 0, length, score, length)]
 
         if range_l == 0:
             range_l = min(self._max_length, length)
@@ -208,7 +209,8 @@ class MaxScoreTokenizer:
             b = base[2]
             e = result[i+1][1]
             subtoken = token[b:e]
-            adds.append((subtoken, b, e, self._ds, e - b))
+            score = self._scores.get(subtoken, self._ds)
+            adds.append((subtoken, b, e, score, e - b))
         
         return adds
 
-- 
2.43.0


From beeee78e7817302cc757bcd4cceda5769107e3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 07/73] fix: MaxLRScoreTokenizer does not emit the last right
 part twice

---
 soynlp/tokenizer/_tokenizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/tokenizer/_tokenizer.py b/soynlp/tokenizer/_tokenizer.py
index ad1ba27..0e5c5e8 100644
--- a/soynlp/tokenizer/_tokenizer.py
+++ b/soynlp/tokenizer/_tokenizer.py
@@ -418,7 +418,7 @@ class MaxLRScoreTokenizer:
         adds = []
         if words and words[0][2] > 0:
             adds += self._add_first_subword(t, words)
-        if words and words[-1][3] < n:
+        if words and words[-1][4] < n:
             adds += self._add_last_subword(t, words, n)
         adds += self._add_inter_subwords(t, words)
         post = [w for w in words] + adds
@@ -436,7 +436,7 @@ class MaxLRScoreTokenizer:
         return adds
 
     def _add_last_subword(self, t, words, n):
-        b = words[-1][3]
+        b = words[-1][4]
         subword = t[b:]
         return self._base_tokenizing_subword(subword, b)
 
-- 
2.43.0


From 7f42bcf52f319f2b858b69fefddb24e33d160ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 08/73] fix: MaxLRScoreTokenizer handles right words and
 offsets inside unknown material

---
 soynlp/tokenizer/_tokenizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soynlp/tokenizer/_tokenizer.py b/soynlp/tokenizer/_tokenizer.py
index 0e5c5e8..f730a00 100644
--- a/soynlp/tokenizer/_tokenizer.py
+++ b/soynlp/tokenizer/_tokenizer.py
@@ -453,7 +453,8 @@ class MaxLRScoreTokenizer:
             n = len(w)
             # TODO: 여기를 바꿔야해
             if w in self.Dr:
-                words_.append(['', w, b+b_, b+b_, b+n, 0, n, n, 0, self.base_tokenizer.scores[w]])
+                words_.append(['', w, b+b_, b+b_, b+b_+n, 0, n, n, 0, self.Dr[w]])
             else:
-                words_.append([w, '', b+b_, b+n, b+n, n, 0, n, 0, 0])
+                words_.append([w, '', b+b_, b+b_+n, b+b_+n, n, 0, n, 0, 0])
+            b_ += n
         return words_
\ No newline at end of file
-- 
2.43.0


From fe837f8eafe2b2cf657edcf0271636971854a2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 09/73] fix: NounMatchTokenizer compounds carry their own score
 and no empty span

---
 soynlp/tokenizer/_noun_tokenizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soynlp/tokenizer/_noun_tokenizer.py b/soynlp/tokenizer/_noun_tokenizer.py
index 25d42c3..1c00edb 100644
--- a/soynlp/tokenizer/_noun_tokenizer.py
+++ b/soynlp/tokenizer/_noun_tokenizer.py
@@ -79,8 +79,9 @@ class NounMatchTokenizer:
                 if e == b_:
                     e, score = e_, max(score, score_)
                 else:
-                    words_.append((eojeol[b:e], b, e, score, e-b))
-                    b, e = b_, e_
+                    if e > b:
+                        words_.append((eojeol[b:e], b, e, score, e-b))
+                    b, e, score = b_, e_, score_
             if e > b:
                 words_.append((eojeol[b:e], b, e, score, e-b))
             return words_
-- 
2.43.0


From a5e2df77238236442ece3ba4fbc67457d7e0309b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 10/73] fix: length of a DoublespaceLineCorpus over an empty
 file is 0

---
 soynlp/utils/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index e02775f..1894561 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -131,6 +131,7 @@ class DoublespaceLineCorpus:
             return 0, 0
 
         # check length
+        doc_idx = -1
         for doc_idx, doc in enumerate(f):
             if (num_doc > 0) and (doc_idx >= num_doc):
                 return doc_idx, num_sent_
-- 
2.43.0


From 29265b74836838ff2ebeec449f746fe61af794eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 11/73] fix: sentence iteration stays inside the document limit
 when it holds no sentence

---
 soynlp/utils/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index 1894561..125da46 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -173,6 +173,8 @@ class DoublespaceLineCorpus:
                 continue
 
             # yield sents
+            if (self.num_doc > 0) and (doc_idx >= self.num_doc):
+                break
             for sent in doc.split('  '):
                 if (self.num_sent > 0) and (num_sent >= self.num_sent):
                     stop = True
-- 
2.43.0


From 83cdc3d1cf7288184558dee988424afc19e0c44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 12/73] fix: removing covered eojeols from an empty
 EojeolCounter does not divide by zero

---
 soynlp/utils/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index 125da46..a3f4c71 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -275,7 +275,8 @@ class EojeolCounter:
 
     def remove_covered_eojeols(self, eojeols):
         self._counter = {k:v for k,v in self._counter.items() if not (k in eojeols)}
-        self.coverage = 1 - self.num_of_uncovered_eojeols / self._count_sum
+        if self._count_sum > 0:
+            self.coverage = 1 - self.num_of_uncovered_eojeols / self._count_sum
 
     def get_eojeol_count(self, eojeol):
         return self._counter.get(eojeol, 0)
-- 
2.43.0


From 5b74dff7790f5820c1e08950473d55e7699deda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 13/73] fix: LRGraph.add_lr_pair accepts pairs that are not in
 the graph yet

---
 soynlp/utils/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index a3f4c71..4e12fec 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -387,9 +387,11 @@ class LRGraph:
         )
 
     def add_lr_pair(self, l, r, count=1):
-        self._lr[l][r] += count
+        rdict = self._lr.setdefault(l, {})
+        rdict[r] = rdict.get(r, 0) + count
         if r:
-            self._rl[r][l] += count
+            ldict = self._rl.setdefault(r, {})
+            ldict[l] = ldict.get(l, 0) + count
 
     def add_eojeol(self, eojeol, count=1):
         for i in range(1, len(eojeol) + 1):
-- 
2.43.0


From 02f973ce83e0aad84cf8abda1c74b0de3198a29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 14/73] fix: LRGraph built from sentences counts each
 occurrence once

---
 soynlp/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index 4e12fec..07d1ab1 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -351,7 +351,7 @@ class LRGraph:
                     l, r = word[:e], word[e:]
                     if len(r) > self.r_max_length:
                         continue
-                    lrgraph[l][r] += e
+                    lrgraph[l][r] += 1
         lrgraph = {l:dict(rdict) for l,rdict in lrgraph.items()}
         return lrgraph
 
-- 
2.43.0


From 270d107a55bc1cbc4dc10f7745b831f1cf8facd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 15/73] fix: LRGraph.load accepts the file an empty graph saves

---
 soynlp/utils/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index 07d1ab1..bf8df8a 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -362,6 +362,8 @@ class LRGraph:
             except:
                 raise ValueError('lrgraph type should be dict of dict, not {}'.format(
                     type(lrgraph)))
+        if not lrgraph:
+            return {}, {}
         nested_dict_type = type(list(lrgraph.values())[0])
         if nested_dict_type == defaultdict:
             lrgraph = {l:dict(rdict) for l,rdict in lrgraph.items()}
-- 
2.43.0


From dd24910a4e35851cf0435ffb74e86fa8d9c467ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:28 +0000
Subject: [PATCH 16/73] fix: LRGraph does not share its dictionaries with the
 caller

---
 soynlp/utils/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index bf8df8a..199e16f 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -365,11 +365,10 @@ class LRGraph:
         if not lrgraph:
             return {}, {}
         nested_dict_type = type(list(lrgraph.values())[0])
-        if nested_dict_type == defaultdict:
-            lrgraph = {l:dict(rdict) for l,rdict in lrgraph.items()}
-        elif not (nested_dict_type == dict):
+        if not (nested_dict_type == defaultdict or nested_dict_type == dict):
             raise ValueError('nested value type should be dict, not {}'.format(
                 nested_dict_type))
+        lrgraph = {l:dict(rdict) for l,rdict in lrgraph.items()}
         rlgraph = defaultdict(lambda: defaultdict(int))
         for l, rdict in lrgraph.items():
             for r, c in rdict.items():
-- 
2.43.0


From 497b764ed6acded55281f18118b8a67de879dd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 17/73] fix: EojeolCounter.to_lrgraph honours
 ignore_one_syllable

---
 soynlp/utils/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index 199e16f..9beda6c 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -285,7 +285,8 @@ class EojeolCounter:
         return self._counter.items()
 
     def to_lrgraph(self, l_max_length=10, r_max_length=9, ignore_one_syllable=False):
-        return self._to_lrgraph(self._counter, l_max_length, r_max_length)
+        return self._to_lrgraph(self._counter, l_max_length, r_max_length,
+            ignore_one_syllable)
 
     def _to_lrgraph(self, counter, l_max_length=10, r_max_length=9, ignore_one_syllable=False):
         _lrgraph = defaultdict(lambda: defaultdict(int))
-- 
2.43.0


From 84628e3b0bd4569c174327d0ee099a7997b084f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 18/73] fix: all_branching_entropy covers words of the maximum
 length

---
 soynlp/word/_word.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/soynlp/word/_word.py b/soynlp/word/_word.py
index e53682b..f52f1c5 100644
--- a/soynlp/word/_word.py
+++ b/soynlp/word/_word.py
@@ -190,7 +190,7 @@ class WordExtractor:
         def get_entropy_table(parse, sorted_by_length, sorted_by_length_a, max_length, counter, counter_a):
             num_sum = sum((len(words) for length, words in sorted_by_length.items()))
             be = {}
-            for word_len in range(2, max_length):
+            for word_len in range(2, max_length + 1):
                 words = sorted_by_length.get(word_len, [])
                 extensions = defaultdict(lambda: [])
                 for word in words:
@@ -209,8 +209,9 @@ class WordExtractor:
                 be[word] = (0, v)
             return be
 
-        be_l = get_entropy_table(parse_right, sort_by_length(self.R), sort_by_length(self._aR), self.max_right_length+1, self.R, self._aR)
-        be_r = get_entropy_table(parse_left, sort_by_length(self.L), sort_by_length(self._aL), self.max_left_length+1, self.L, self._aL)
+        max_length = max(self.max_left_length, self.max_right_length) + 1
+        be_l = get_entropy_table(parse_right, sort_by_length(self.R), sort_by_length(self._aR), max_length, self.R, self._aR)
+        be_r = get_entropy_table(parse_left, sort_by_length(self.L), sort_by_length(self._aL), max_length, self.L, self._aL)
         be = merge(be_l, be_r)
         if self.verbose > 0:
             print_head = 'branching entropies' if get_score == _entropy else 'accessor variety'
-- 
2.43.0


From 9c6d7d68044a69c796413581e15fe2744329bef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:25 +0000
Subject: [PATCH 19/73] fix: BaseVectorizer counts every occurrence in term
 frequencies

---
 soynlp/vectorizer/_vectorizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/vectorizer/_vectorizer.py b/soynlp/vectorizer/_vectorizer.py
index 4e04d54..daa4631 100644
--- a/soynlp/vectorizer/_vectorizer.py
+++ b/soynlp/vectorizer/_vectorizer.py
@@ -43,7 +43,7 @@ class BaseVectorizer:
             counter = Counter((token for token in self.tokenizer(doc)))
             for term, freq in counter.items():
                 df[term] = df.get(term, 0) + 1
-                tf[term] = tf.get(term, 0) + 1
+                tf[term] = tf.get(term, 0) + freq
 
         if self.verbose:
             print('\rscanning was done{}'.format(' '*40), flush=True)
-- 
2.43.0


From 71dbc1f995d7e93204d33b205e377edb93f46e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 20/73] fix: BaseVectorizer leaves stopwords out of the
 vocabulary

---
 soynlp/vectorizer/_vectorizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/vectorizer/_vectorizer.py b/soynlp/vectorizer/_vectorizer.py
index daa4631..59eb7eb 100644
--- a/soynlp/vectorizer/_vectorizer.py
+++ b/soynlp/vectorizer/_vectorizer.py
@@ -56,7 +56,7 @@ class BaseVectorizer:
         tf = {term:tf_t for term, tf_t in tf.items() if self.min_tf <= tf_t <= self.max_tf}
 
         # build vocabulary_
-        vocabs = {term:tf_t for term, tf_t in tf.items() if term in df}
+        vocabs = {term:tf_t for term, tf_t in tf.items() if term in df and not (term in self.stopwords)}
         self.vocabulary_ = {term:idx for idx, (term, _) in enumerate(
             sorted(vocabs.items(), key=lambda x:-x[1]))}
         self.idx2vocab = [term for term, _ in sorted(
-- 
2.43.0


From a05ebb396c8fc72b658293ca67b9807556ac02eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 21/73] fix: BaseVectorizer accepts an empty collection of
 documents

---
 soynlp/vectorizer/_vectorizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/soynlp/vectorizer/_vectorizer.py b/soynlp/vectorizer/_vectorizer.py
index 59eb7eb..40d9319 100644
--- a/soynlp/vectorizer/_vectorizer.py
+++ b/soynlp/vectorizer/_vectorizer.py
@@ -35,6 +35,7 @@ class BaseVectorizer:
         # counting
         df = {}
         tf = {}
+        i_doc = -1
 
         for i_doc, doc in enumerate(docs):
             if self.verbose and i_doc % self._check_points == 0:
@@ -72,6 +73,7 @@ class BaseVectorizer:
         rows = []
         cols = []
         data = []
+        i_doc = -1
         for i_doc, doc in enumerate(docs):
             if self.verbose and i_doc % self._check_points == 0:
                 print('\rtransformed {} docs'.format(i_doc), flush=True, end='')
@@ -95,6 +97,7 @@ class BaseVectorizer:
         file_path = os.path.abspath(file_path)
         # check n_elements
         n_elements = 0
+        i = -1
         for i, doc in enumerate(docs):
             if self.verbose and i % self._check_points == 0:
                 print('\rscanning number of elements from {} docs'.format(
-- 
2.43.0


From 878da2053d0c0278279ae2d4f56a3492e0d77f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 22/73] fix: word-context matrix is square over the whole
 vocabulary

---
 soynlp/vectorizer/_word_context.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/soynlp/vectorizer/_word_context.py b/soynlp/vectorizer/_word_context.py
index f959516..2ddb813 100644
--- a/soynlp/vectorizer/_word_context.py
+++ b/soynlp/vectorizer/_word_context.py
@@ -29,6 +29,7 @@ def _scanning_vocabulary(sents, min_tf, tokenizer, verbose):
 
     # counting word frequency, first
     word_counter = defaultdict(int)
+    i_sent = 0
 
     for i_sent, sent in enumerate(sents):
 
@@ -67,6 +68,7 @@ def _word_context(sents, windows, tokenizer, dynamic_weight, verbose, vocab2idx)
     else:
         weight = [1] * windows
 
+    i_sent = 0
     for i_sent, sent in enumerate(sents):
 
         if verbose and i_sent % 1000 == 0:
@@ -113,7 +115,8 @@ def _encode_as_matrix(word2contexts, vocab2idx, verbose):
             rows.append(word_idx)
             cols.append(context_idx)
             data.append(cooccurrence)
-    x = csr_matrix((data, (rows, cols)))
+    n_vocabs = len(vocab2idx)
+    x = csr_matrix((data, (rows, cols)), shape=(n_vocabs, n_vocabs))
 
     if verbose:
         print('  - (word, context) matrix was constructed. shape = {}{}'.format(
-- 
2.43.0


From a2320f6c29385597334108159de5f62c3f3bd78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 23/73] fix: pmi keeps values at their own cells when zeros are
 stored

---
 soynlp/word/_pmi.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/soynlp/word/_pmi.py b/soynlp/word/_pmi.py
index 5529404..fd45895 100644
--- a/soynlp/word/_pmi.py
+++ b/soynlp/word/_pmi.py
@@ -14,11 +14,14 @@ def _as_diag(px, alpha):
 def _logarithm_and_ppmi(exp_pmi, min_exp_pmi):
     n, m = exp_pmi.shape
 
-    # because exp_pmi is sparse matrix and type of exp_pmi.data is numpy.ndarray
-    rows, cols = exp_pmi.nonzero()
+    # coordinates and values of every stored element, in the same order
+    exp_pmi = exp_pmi.tocoo()
+    rows = exp_pmi.row
+    cols = exp_pmi.col
     data = exp_pmi.data
 
-    indices = np.where(data >= min_exp_pmi)[0]
+    # zero co-occurrence has no pmi
+    indices = np.where((data > 0) & (data >= min_exp_pmi))[0]
     rows = rows[indices]
     cols = cols[indices]
     data = data[indices]
-- 
2.43.0


From 9af847448803436ff571715f26e2aaae146a469b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:46 +0000
Subject: [PATCH 24/73] fix: Bigram unigram frequencies count occurrences

---
 soynlp/word/_phrase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/word/_phrase.py b/soynlp/word/_phrase.py
index 316821a..edcb6b1 100644
--- a/soynlp/word/_phrase.py
+++ b/soynlp/word/_phrase.py
@@ -64,7 +64,7 @@ class Bigram:
         self._unigram = {}
         for bigram, freq in self._counter.items():
             for unigram in bigram:
-                self._unigram[unigram] = self._unigram.get(unigram, 0) + 1
+                self._unigram[unigram] = self._unigram.get(unigram, 0) + freq
 
         if self.verbose:
             print('\r[Bigram Extractor] scanning {} unigrams, {} bigrams from {} sents'.format(
-- 
2.43.0


From 68af1fd6c5adee82407bd7a4ee0de5f2d5979d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 25/73] fix: Bigram.extract honours topk

---
 soynlp/word/_phrase.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/soynlp/word/_phrase.py b/soynlp/word/_phrase.py
index edcb6b1..890e69b 100644
--- a/soynlp/word/_phrase.py
+++ b/soynlp/word/_phrase.py
@@ -94,14 +94,12 @@ class Bigram:
 
         bigrams = {word:NgramScore(freq, pmis[word]) for word, freq
                    in self._counter.items() if word in pmis}
-        return bigrams
+        return self._select_topk(bigrams, topk)
 
     def _extract_by_frequency(self, topk=-1, threshold=10):
         bigrams = filter(lambda x:x[1] >= threshold, self._counter.items())
-        if topk > 0:
-            bigrams = sorted(bigrams, key=lambda x:-x[1])
         bigrams = {word:NgramScore(freq, freq) for word, freq in bigrams}
-        return bigrams
+        return self._select_topk(bigrams, topk)
 
     def _extract_by_mikolov(self, topk=-1, threshold=0):
 
@@ -118,4 +116,9 @@ class Bigram:
 
         bigrams = {word:NgramScore(freq, scores[word]) for word, freq
                    in self._counter.items() if word in scores}
-        return bigrams
\ No newline at end of file
+        return self._select_topk(bigrams, topk)
+
+    def _select_topk(self, bigrams, topk):
+        if topk <= 0:
+            return bigrams
+        return dict(sorted(bigrams.items(), key=lambda x:-x[1].score)[:topk])
-- 
2.43.0


From 5517b77cdfbdadd592a3eec81db25f2ae5f8d154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 26/73] fix: Bigram training accepts an empty corpus

---
 soynlp/word/_phrase.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/soynlp/word/_phrase.py b/soynlp/word/_phrase.py
index 890e69b..4a2779b 100644
--- a/soynlp/word/_phrase.py
+++ b/soynlp/word/_phrase.py
@@ -39,6 +39,7 @@ class Bigram:
             return bigrams
 
         self._counter = {}
+        i_sent = 0
 
         for i_sent, sent in enumerate(sentences):
 
-- 
2.43.0


From c113ca3a928324c068057c800df7685dfd614a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 27/73] fix: most_similar never returns more than topk items

---
 soynlp/utils/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index 9beda6c..0341840 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -72,10 +72,10 @@ def most_similar(query, vector, item_to_idx, idx_to_item, topk=10):
         return []
     qvec = vector[q].reshape(1,-1)
     dist = pairwise_distances(qvec, vector, metric='cosine')[0]
-    sim_idxs = dist.argsort()
+    sim_idxs = [idx for idx in dist.argsort() if idx != q]
     if topk > 0:
-        sim_idxs = sim_idxs[:topk+1]
-    similars = [(idx_to_item[idx], 1 - dist[idx]) for idx in sim_idxs if idx != q]
+        sim_idxs = sim_idxs[:topk]
+    similars = [(idx_to_item[idx], 1 - dist[idx]) for idx in sim_idxs]
     return similars
 
 def check_corpus(corpus):
-- 
2.43.0


From dabc95dac37a7f7f12909f2008e69a755d66182d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:14 +0000
Subject: [PATCH 28/73] fix: tagger Dictionary does not replace or edit the
 caller's collections

---
 soynlp/postagger/_dictionary.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soynlp/postagger/_dictionary.py b/soynlp/postagger/_dictionary.py
index 19e81e5..94b4916 100644
--- a/soynlp/postagger/_dictionary.py
+++ b/soynlp/postagger/_dictionary.py
@@ -10,12 +10,12 @@ import os
 class Dictionary:
     def __init__(self, pos_dict):
         if isinstance(pos_dict, dict):
+            self.pos_dict = {}
             for key in pos_dict:
                 if sys.version_info.major == 2:
-                    pos_dict[key] = set(map(unicode, pos_dict[key]))
+                    self.pos_dict[key] = set(map(unicode, pos_dict[key]))
                 else:
-                    pos_dict[key] = set(pos_dict[key])
-            self.pos_dict = pos_dict
+                    self.pos_dict[key] = set(pos_dict[key])
             self.max_length = self._check_max_length(self.pos_dict)
         elif isinstance(pos_dict, str):
             if os.path.exists(pos_dict):
-- 
2.43.0


From 3bcb8ac0364764817f745573b59e9c83bb6fb2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:25 +0000
Subject: [PATCH 29/73] fix: tagger Dictionary edits accept any collection of
 words

---
 soynlp/postagger/_dictionary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/postagger/_dictionary.py b/soynlp/postagger/_dictionary.py
index 94b4916..c3f7e81 100644
--- a/soynlp/postagger/_dictionary.py
+++ b/soynlp/postagger/_dictionary.py
@@ -68,8 +68,8 @@ class Dictionary:
 
     def _type_check(self, words):
         if isinstance(words, str):
-            words = set(words.split())
-        return words
+            words = words.split()
+        return set(words)
 
     def load(self, filename):
         if sys.version_info.major == 2:
-- 
2.43.0


From 749c7ac801a0556db9f6092f13cead90210d52cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:33 +0000
Subject: [PATCH 30/73] fix: tagger Dictionary accepts empty word collections

---
 soynlp/postagger/_dictionary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/postagger/_dictionary.py b/soynlp/postagger/_dictionary.py
index c3f7e81..e59422b 100644
--- a/soynlp/postagger/_dictionary.py
+++ b/soynlp/postagger/_dictionary.py
@@ -24,7 +24,7 @@ class Dictionary:
                 raise ValueError('dictionary file does not exist')
 
     def _check_max_length(self, pos_dict):
-        return max((len(word) for words in pos_dict.values() for word in words))
+        return max([0] + [len(word) for words in pos_dict.values() for word in words])
 
     def get_pos(self, word):
         tags = []
@@ -43,7 +43,7 @@ class Dictionary:
             message = 'Check your tag or use add_words(tag, words, force=True)'.format(tag)
             raise ValueError(message)
 
-        max_length = max((len(word) for word in words))
+        max_length = max([0] + [len(word) for word in words])
         if self.max_length < max_length:
             self.max_length = max_length
 
-- 
2.43.0


From a1b2c5b42dd3cfbe016e85c09dba8e06d9fab943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 31/73] fix: LREvaluator returns the selected words in text
 order

---
 soynlp/postagger/_evaluator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/postagger/_evaluator.py b/soynlp/postagger/_evaluator.py
index d84a9f6..df3ef29 100644
--- a/soynlp/postagger/_evaluator.py
+++ b/soynlp/postagger/_evaluator.py
@@ -76,7 +76,7 @@ class LREvaluator(BaseEvaluator):
     def select_best(self, candidates):
         scored_candidates = [(c, self.evaluate(c)) for c in candidates]
         best = self._remove_overlapped(scored_candidates)
-        return sorted(best, key=lambda x:x[2])
+        return sorted(best, key=lambda x:x.b)
     
     def evaluate(self, candidate):
         is_noun_phrase = candidate.l_tag == 'Noun'
@@ -120,4 +120,4 @@ class LREvaluator(BaseEvaluator):
             for idx in reversed(removals):
                 del sorted_[idx]
                 
-        return sorted(best, key=lambda x:x[2])
\ No newline at end of file
+        return sorted(best, key=lambda x:x.b)
\ No newline at end of file
-- 
2.43.0


From 25c7460bce0607c5df846771ce6a30ab6e91e3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 32/73] fix: unknown-word completion keeps words without any
 known part

---
 soynlp/postagger/_tagger.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soynlp/postagger/_tagger.py b/soynlp/postagger/_tagger.py
index 17dde72..8f5e839 100644
--- a/soynlp/postagger/_tagger.py
+++ b/soynlp/postagger/_tagger.py
@@ -58,6 +58,8 @@ class BasePostprocessor:
 class UnknowLRPostprocessor(BasePostprocessor):
     def postprocess(self, token, words):
         n = len(token)
+        if not words:
+            return [LR(token, None, '', None, 0, n, n)]
         adds = []
         if words and words[0].b > 0:
             adds.append(self._add_first_subword(token, words))
-- 
2.43.0


From cfd6227c52425f187fc4bd2c9d1335c96b3c21ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:21 +0000
Subject: [PATCH 33/73] fix: compound nouns report (frequency, score) in the
 right order

---
 soynlp/noun/_noun_ver2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_ver2.py b/soynlp/noun/_noun_ver2.py
index 92a228c..1d0edb0 100644
--- a/soynlp/noun/_noun_ver2.py
+++ b/soynlp/noun/_noun_ver2.py
@@ -516,7 +516,7 @@ class LRNounExtractor_v2:
             print('\r[Noun Extractor] checked compounds. discovered {} compounds'.format(
                 len(compounds_scores)))
 
-        compounds = {noun:(score, compounds_counts.get(noun,0))
+        compounds = {noun:(compounds_counts.get(noun,0), score)
              for noun, score in compounds_scores.items()}
 
         self._compounds_components = compounds_components
-- 
2.43.0


From db6b5bcd989998dbf1d42b4c73d4246205cf61e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:31 +0000
Subject: [PATCH 34/73] fix: LRNounExtractor_v2 accepts its postprocessing
 argument

---
 soynlp/noun/_noun_ver2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_ver2.py b/soynlp/noun/_noun_ver2.py
index 1d0edb0..83ad671 100644
--- a/soynlp/noun/_noun_ver2.py
+++ b/soynlp/noun/_noun_ver2.py
@@ -45,7 +45,7 @@ class LRNounExtractor_v2:
                 'ignore_features',
                 'ignore_NJ'
             ]
-        elif isinstance(postprocessing) == str:
+        elif isinstance(postprocessing, str):
             postprocessing = [postprocessing]
 
         self.postprocessing = postprocessing
-- 
2.43.0


From e4e885a1bebd3dd09d390107586af1e019334c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 35/73] fix: LRNounExtractor_v2 extracts nothing from a corpus
 without words

---
 soynlp/noun/_noun_ver2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_ver2.py b/soynlp/noun/_noun_ver2.py
index 83ad671..3eb947f 100644
--- a/soynlp/noun/_noun_ver2.py
+++ b/soynlp/noun/_noun_ver2.py
@@ -630,5 +630,5 @@ class LRNounExtractor_v2:
             print('\r[Noun Extractor] flushing was done. mem={} Gb{}'.format(
                 '%.3f' % get_process_memory(), ' '*20), flush=True)
             coverage = '%.2f' % (100 * self._num_of_covered_eojeols
-                / self._num_of_eojeols)
+                / max(1, self._num_of_eojeols))
             print('[Noun Extractor] {} % eojeols are covered'.format(coverage), flush=True)
\ No newline at end of file
-- 
2.43.0


From 56029671bb9ff9e025659f2939167a881412ddec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:44 +0000
Subject: [PATCH 36/73] fix: LRNounExtractor.extract honours min_noun_frequency

---
 soynlp/noun/_noun_ver1.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soynlp/noun/_noun_ver1.py b/soynlp/noun/_noun_ver1.py
index c21d4e7..f072d28 100644
--- a/soynlp/noun/_noun_ver1.py
+++ b/soynlp/noun/_noun_ver1.py
@@ -161,6 +161,8 @@ class LRNounExtractor:
 
         # summary information as NounScore
         nouns_ = self._to_NounScore(nouns)
+        nouns_ = {noun:score for noun, score in nouns_.items()
+            if score.frequency >= min_noun_frequency}
 
         if self.verbose:
             print('[Noun Extractor] {} nouns are extracted'.format(len(nouns_)))
-- 
2.43.0


From 0093287023b4da0642b96982f87d875706b4fb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 37/73] fix: NewsNounExtractor extractions do not leak into
 each other

---
 soynlp/noun/_noun_news.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_news.py b/soynlp/noun/_noun_news.py
index f58e5df..c6e781f 100644
--- a/soynlp/noun/_noun_news.py
+++ b/soynlp/noun/_noun_news.py
@@ -14,7 +14,8 @@ class NewsNounExtractor:
         self.max_right_length = max_right_length
         self.verbose = verbose
         self.r_scores = {}
-        self.noun_dictionary = noun_dictionary if base_noun_dictionary else {}
+        self.base_noun_dictionary = base_noun_dictionary if base_noun_dictionary else {}
+        self.noun_dictionary = {noun:0 for noun in self.base_noun_dictionary}
 
         import os
         directory = '/'.join(os.path.abspath(__file__).replace('\\', '/').split('/')[:-2])
@@ -118,6 +119,9 @@ class NewsNounExtractor:
     def extract(self, min_noun_score=0.4, min_frequency=3,
             noun_candidates=None, min_feature_proportion=0.6):
 
+        # forget the nouns of previous extractions
+        self.noun_dictionary = {noun:0 for noun in self.base_noun_dictionary}
+
         self._pre_eojeol_analysis(min_frequency)
 
         if not noun_candidates:
-- 
2.43.0


From 18bca92041bfa7a8e6232b9b6abab363073e2132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:18 +0000
Subject: [PATCH 38/73] fix: check_dirs creates the missing directory of a log
 file

---
 soynlp/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index 0341840..38add1e 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -24,7 +24,7 @@ def get_process_memory():
 
 def check_dirs(filepath):
     dirname = os.path.dirname(filepath)
-    if dirname and dirname == '.' and not os.path.exists(dirname):
+    if dirname and dirname != '.' and not os.path.exists(dirname):
         os.makedirs(dirname)
         print('created {}'.format(dirname))
 
-- 
2.43.0


From c556bd033a77ca4f1eee84dbb91054c3f821d37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:52 +0000
Subject: [PATCH 39/73] =?UTF-8?q?fix:=20=ED=91=B8=20+=20=EC=97=88=EB=8B=A4?=
 =?UTF-8?q?=20keeps=20the=20final=20consonant=20of=20its=20ending?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 soynlp/lemmatizer/_conjugation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/lemmatizer/_conjugation.py b/soynlp/lemmatizer/_conjugation.py
index e021f53..5be4ab7 100644
--- a/soynlp/lemmatizer/_conjugation.py
+++ b/soynlp/lemmatizer/_conjugation.py
@@ -161,7 +161,7 @@ def conjugate(stem, ending, enforce_moum_harmoney=False, debug=False):
     # 우 불규칙 활용: 푸 + 어 -> 퍼 / 주 + 어 -> 줘
     if l_last[1] == 'ㅜ' and l_last[2] == ' ' and r_first[0] == 'ㅇ' and r_first[1] == 'ㅓ':
         if l_last_ == '푸':
-            l = stem[:-1] + '퍼'
+            l = stem[:-1] + compose('ㅍ', 'ㅓ', r_first[2])
         else:
             l = stem[:-1] + compose(l_last[0], 'ㅝ', r_first[2])
         r = ending[1:]
-- 
2.43.0


From b3d59e69de738116c925926933cce4d52c517e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:00 +0000
Subject: [PATCH 40/73] =?UTF-8?q?fix:=20=E3=85=8E=20contraction=20only=20j?=
 =?UTF-8?q?oins=20endings=20that=20begin=20with=20a=20vowel?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 soynlp/lemmatizer/_conjugation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/lemmatizer/_conjugation.py b/soynlp/lemmatizer/_conjugation.py
index 5be4ab7..4a3fe73 100644
--- a/soynlp/lemmatizer/_conjugation.py
+++ b/soynlp/lemmatizer/_conjugation.py
@@ -259,7 +259,7 @@ def conjugate(stem, ending, enforce_moum_harmoney=False, debug=False):
     # ㅎ (축약) 불규칙 할용
     # 파랗 + 았다 -> 파랬다 / 시퍼렇 + 었다 -> 시퍼렜다
     if ( (l_last[2] == 'ㅎ' and l_last_ != '좋') and
-         (r_first[0] == 'ㅇ' and r_first[1] == 'ㅏ' or r_first[1] == 'ㅓ') ):
+         (r_first[0] == 'ㅇ' and (r_first[1] == 'ㅏ' or r_first[1] == 'ㅓ')) ):
         l = stem[:-1] + compose(l_last[0], 'ㅐ' if r_first[1] == 'ㅏ' else 'ㅔ', r_first[2])
         r = ending[1:]
         surface = l + r
-- 
2.43.0


From bd7deeaae3c46ba2256ae0fddb72b1fb1f426c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:22 +0000
Subject: [PATCH 41/73] fix: vowel harmony is enforced only on endings that
 begin with a vowel

---
 soynlp/lemmatizer/_conjugation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soynlp/lemmatizer/_conjugation.py b/soynlp/lemmatizer/_conjugation.py
index 4a3fe73..7f66b9c 100644
--- a/soynlp/lemmatizer/_conjugation.py
+++ b/soynlp/lemmatizer/_conjugation.py
@@ -63,7 +63,8 @@ def conjugate(stem, ending, enforce_moum_harmoney=False, debug=False):
              (r_first[0] == 'ㅇ' and r_first[1] in positive_moum) ):
             r_first[1] = pos_to_neg[r_first[1]]
             ending = compose(*r_first) + ending[1:]
-        if (l_last[1] in neuter_moum) and (r_first[1] in positive_moum):
+        if ( (l_last[1] in neuter_moum) and
+             (r_first[0] == 'ㅇ' and r_first[1] in positive_moum) ):
             r_first[1] = pos_to_neg[r_first[1]]
             ending = compose(*r_first) + ending[1:]
 
-- 
2.43.0


From bfe4ef9b269ba878c7e609c09bbedb9caeed2552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 42/73] =?UTF-8?q?fix:=20conjugate=5Fchat=20accepts=20endin?=
 =?UTF-8?q?gs=20that=20begin=20with=20=E3=84=B8,=20=E3=85=83=20or=20?=
 =?UTF-8?q?=E3=85=89?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 soynlp/lemmatizer/_conjugation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soynlp/lemmatizer/_conjugation.py b/soynlp/lemmatizer/_conjugation.py
index 7f66b9c..f40fdb4 100644
--- a/soynlp/lemmatizer/_conjugation.py
+++ b/soynlp/lemmatizer/_conjugation.py
@@ -1,6 +1,7 @@
 # -*- encoding:utf8 -*-
 
 from soynlp.hangle import compose, decompose
+from soynlp.hangle._hangle import jongsung_list
 
 positive_moum = set('ㅏㅑㅗㅛ') # 4 개의 양성모음만 기록
 negative_moum = set('ㅓㅕㅜㅠ') # 4 개의 음성모음만 기록
@@ -31,7 +32,8 @@ def conjugate_chat(stem, ending, enforce_moum_harmoney=False, debug=False):
 
     # 어미의 첫글자가 종성일 경우 (-ㄴ, -ㄹ, -ㅂ, -ㅆ)
     # 이 + ㅂ니다 -> 입니다
-    if r_first[1] == ' ' and r_first[0] != ' ':
+    # ㄸ, ㅃ, ㅉ 은 종성으로 쓰일 수 없음
+    if r_first[1] == ' ' and r_first[0] in jongsung_list[1:]:
         l = stem[:-1] + compose(l_last[0], l_last[1], r_first[0])
         r = ending[1:]
         surface = l + r
-- 
2.43.0


From f8d88c40757765bd45ad79232e73801aefd9a0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 43/73] =?UTF-8?q?fix:=20conjugating=20a=20=E3=85=A1=20stem?=
 =?UTF-8?q?=20with=20a=20lone=20=E3=85=87=20does=20not=20raise?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 soynlp/lemmatizer/_conjugation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soynlp/lemmatizer/_conjugation.py b/soynlp/lemmatizer/_conjugation.py
index f40fdb4..af64763 100644
--- a/soynlp/lemmatizer/_conjugation.py
+++ b/soynlp/lemmatizer/_conjugation.py
@@ -183,7 +183,8 @@ def conjugate(stem, ending, enforce_moum_harmoney=False, debug=False):
             print('오 활용: {}'.format(surface))
 
     # ㅡ 탈락 불규칙 활용: 끄 + 어 -> 꺼 / 트 + 었다 -> 텄다
-    if ((l_last[1] == 'ㅡ') and (l_last[2] == ' ') and (r_first[0] == 'ㅇ')):
+    if ((l_last[1] == 'ㅡ') and (l_last[2] == ' ') and
+        (r_first[0] == 'ㅇ') and (r_first[1] != ' ')):
         if l_last[0] == 'ㅇ' and len(stem) > 1:
             surface = stem[:-1] + ending
         elif l_last[0] != 'ㄹ':
-- 
2.43.0


From 47a098f42c8d30c2843416ec62ac4fb3e2240a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 44/73] fix: Lemmatizer.candidates calls the function that
 exists

---
 soynlp/lemmatizer/_lemmatizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/lemmatizer/_lemmatizer.py b/soynlp/lemmatizer/_lemmatizer.py
index 8397c2e..3379f41 100644
--- a/soynlp/lemmatizer/_lemmatizer.py
+++ b/soynlp/lemmatizer/_lemmatizer.py
@@ -33,7 +33,7 @@ class Lemmatizer:
         for i in range(1, len(word) + 1):
             l = word[:i]
             r = word[i:]
-            candidates.update(self.lemma_candidate(l, r, self._predefined))
+            candidates.update(lemma_candidate(l, r, self._predefined))
         return candidates
 
 def debug_message(message, l, r):
-- 
2.43.0


From c497337c7e1f56bce0e39611200c738e35ccd0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:39 +0000
Subject: [PATCH 45/73] fix: PredicatorExtractor trained on sentences honours
 min_eojeol_frequency

---
 soynlp/predicator/_predicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index bb711ee..bf696d6 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -213,7 +213,7 @@ class PredicatorExtractor:
             preprocess = preprocess
         )
 
-        self._train_with_eojeol_counter(eojeol_counter)
+        self._train_with_eojeol_counter(eojeol_counter, min_eojeol_frequency)
 
     def _train_with_eojeol_counter(self, eojeol_counter, min_eojeol_frequency=2):
         eojeol_counter._counter = {
-- 
2.43.0


From 4b105848498c94c42c2c51bd245e9bca17f42d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:46 +0000
Subject: [PATCH 46/73] fix: PredicatorExtractor leaves the counter supplied by
 the caller as it was

---
 soynlp/predicator/_predicator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index bf696d6..c353dd6 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -216,8 +216,11 @@ class PredicatorExtractor:
         self._train_with_eojeol_counter(eojeol_counter, min_eojeol_frequency)
 
     def _train_with_eojeol_counter(self, eojeol_counter, min_eojeol_frequency=2):
+        # do not modify the counter which is provided by user
+        counter = eojeol_counter
+        eojeol_counter = EojeolCounter()
         eojeol_counter._counter = {
-            eojeol:count for eojeol, count in eojeol_counter._counter.items()
+            eojeol:count for eojeol, count in counter._counter.items()
             if count >= min_eojeol_frequency}
 
         eojeol_counter._set_count_sum()
-- 
2.43.0


From 211434d8edeebf44e9d5b94bb5f4da5e5bf3ac40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:53 +0000
Subject: [PATCH 47/73] fix: min_predicator_frequency is an inclusive minimum

---
 soynlp/predicator/_predicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index c353dd6..318e5d7 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -332,7 +332,7 @@ class PredicatorExtractor:
         if (eojeol_counter is None) or (not eojeol_counter):
             eojeol_counter = {
                 eojeol:count for eojeol, count in self.eojeol_counter.items()
-                if (count > min_frequency) and all_character_are_complete_korean(eojeol)
+                if (count >= min_frequency) and all_character_are_complete_korean(eojeol)
             }
 
         lemmas = self._as_lemma_candidates(eojeol_counter)
-- 
2.43.0


From c3c49897d7a4d08da3c98966ad89900cafbf2c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:00 +0000
Subject: [PATCH 48/73] fix: PredicatorExtractor leaves the endings supplied by
 the caller as they were

---
 soynlp/predicator/_predicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index 318e5d7..1811f35 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -53,7 +53,7 @@ class PredicatorExtractor:
         self._verb_stems = verbs
         self._stems = {stem for stem in adjectives}
         self._stems = self._stems.union(verbs)
-        self._eomis = eomis
+        self._eomis = {eomi for eomi in eomis}
         self.verbose = verbose
         self.extract_eomi = extract_eomi
         self.extract_stem = extract_stem
-- 
2.43.0


From c0bd591f779fb10c9d87a56249b002ae99bedec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 49/73] fix: PredicatorExtractor reports nothing from a corpus
 without words

---
 soynlp/predicator/_predicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index 1811f35..7103b63 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -392,7 +392,7 @@ class PredicatorExtractor:
 
         lemmas = self._remove_wrong_eomis(lemmas, eomi_to_word_count)
         if self.verbose:
-            perc = '%.3f' % (100 * self._count_of_covered_eojeols / self._count_of_eojeols)
+            perc = '%.3f' % (100 * self._count_of_covered_eojeols / max(1, self._count_of_eojeols))
             message = 'lemma candidating was done'
             self._print(message, replace=True, newline=True)
 
-- 
2.43.0


From 94f3baf05993f46112ce2ec435a61f3ad080b2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 50/73] fix: NewsPOSExtractor counts a noun once per word
 occurrence

---
 soynlp/pos/_news_pos.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/soynlp/pos/_news_pos.py b/soynlp/pos/_news_pos.py
index b6b95ee..c9a0069 100644
--- a/soynlp/pos/_news_pos.py
+++ b/soynlp/pos/_news_pos.py
@@ -269,7 +269,9 @@ class NewsPOSExtractor:
         def match_process(eojeols, nouns, rset, rcounter, removals):
             noun_r = [(self._separate_lr(word, nouns, rset), count) for word, count in eojeols.items()]
             noun_r = [(word, count) for word, count in noun_r if word is not None]
-            nouns = self._cumulate_counter(nouns, [(word[0], count) for word, count in noun_r])
+            # a noun occurs once in an eojeol even if the eojeol matches several patterns
+            nouns = self._cumulate_counter(nouns, [(word[0], count) for word, count in noun_r
+                if not (''.join(word) in removals)])
             rcounter = self._cumulate_counter(rcounter, [(word[1], count) for word, count in noun_r])
             removals.update({''.join(word) for word, _ in noun_r})
             return nouns, rcounter, removals
@@ -350,7 +352,8 @@ class NewsPOSExtractor:
             for word, count in eojeols.items():
                 l, r = word[:1], word[1:]
                 if r in rcounter:
-                    nouns[l] = nouns.get(l, 0) + count
+                    if not (word in removals):
+                        nouns[l] = nouns.get(l, 0) + count
                     rcounter[r] = rcounter.get(r, 0) + count
                     removals.add(word)
             return removals
-- 
2.43.0


From 3272f5676627904a04e20486f2ab2c83d272ecf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:06 +0000
Subject: [PATCH 51/73] fix: ChatPOSExtractor reports the stems of the
 predicate compounds it finds

---
 soynlp/pos/_chat_pos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/pos/_chat_pos.py b/soynlp/pos/_chat_pos.py
index fdeda3d..44de49d 100644
--- a/soynlp/pos/_chat_pos.py
+++ b/soynlp/pos/_chat_pos.py
@@ -137,7 +137,7 @@ class ChatPOSExtractor(NewsPOSExtractor):
         wrong_stems = find_wrong_stem(predicator_compounds)
         predicator_compounds = delete_predicators_having_wrong_stem(
             predicator_compounds, wrong_stems)
-        stems = {stem for stem in wrong_stems if not (stem in wrong_stems)}
+        stems = {stem for stem in stems if not (stem in wrong_stems)}
         counter = {word:count for word, count in counter.items() if word in predicator_compounds}
         return predicator_compounds, stems, counter
 
-- 
2.43.0


From 8fc0c3d2e48b4092af53a3a59592dd8759e9d6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:58 +0000
Subject: [PATCH 52/73] fix: fix: MaxLRScoreTokenizer compares an R part with
 the L score of the words it runs into

---
 soynlp/tokenizer/_tokenizer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/soynlp/tokenizer/_tokenizer.py b/soynlp/tokenizer/_tokenizer.py
index f730a00..b33ab84 100644
--- a/soynlp/tokenizer/_tokenizer.py
+++ b/soynlp/tokenizer/_tokenizer.py
@@ -390,8 +390,10 @@ class MaxLRScoreTokenizer:
                     if overlappped:
                         break
                     for word in begin_to_words.get(b, []):
-                        score_diff = word[-2] + self.Pl.get(word[0], 0) - score_r
-                        if (self.ensurable_score_l <= word[-2]) or (score_diff > self.ensurable_score_lr_diff):
+                        # total score is already appended to some words
+                        next_score_l = word[8]
+                        score_diff = next_score_l + self.Pl.get(word[0], 0) - score_r
+                        if (self.ensurable_score_l <= next_score_l) or (score_diff > self.ensurable_score_lr_diff):
                             overlappped = True
                             break
                 if overlappped:
-- 
2.43.0


From e359cb0029ef76c0df54f3400c9df30634128fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:55 +0000
Subject: [PATCH 53/73] fix: LREvaluator gives the verb weight to verbs

---
 soynlp/postagger/_evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/postagger/_evaluator.py b/soynlp/postagger/_evaluator.py
index df3ef29..19ed48b 100644
--- a/soynlp/postagger/_evaluator.py
+++ b/soynlp/postagger/_evaluator.py
@@ -82,7 +82,7 @@ class LREvaluator(BaseEvaluator):
         is_noun_phrase = candidate.l_tag == 'Noun'
         lr_are_known = candidate.l_tag is not None and candidate.r_tag is not None
         # tag preference
-        is_verb = candidate.l_tag == 'Adverb'
+        is_verb = candidate.l_tag == 'Verb'
         is_adjective = candidate.l_tag == 'Adjective'
         # length
         l_len = candidate.m - candidate.b
-- 
2.43.0


From 5989981a5d6440e056c6ecb73a0d771084790e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:59 +0000
Subject: [PATCH 54/73] fix: extract_domain_pos_features tells the frequency of
 a noun from its score

---
 soynlp/noun/_josa.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soynlp/noun/_josa.py b/soynlp/noun/_josa.py
index 62ac3cb..29b7fa6 100644
--- a/soynlp/noun/_josa.py
+++ b/soynlp/noun/_josa.py
@@ -8,8 +8,8 @@ def extract_domain_pos_features(prediction_scores, lrgraph,
     min_noun_entropy=1.5):
 
     nouns = {noun for noun, score in prediction_scores.items()
-             if ((score[0] >= min_noun_score) 
-                 and (score[1] >= min_noun_frequency))}
+             if ((score[1] >= min_noun_score)
+                 and (score[0] >= min_noun_frequency))}
 
     if ignore_features is None:
         ignore_features = {}
@@ -17,7 +17,7 @@ def extract_domain_pos_features(prediction_scores, lrgraph,
     pos_candidates = {}
     for noun in nouns:
         for r, count in lrgraph.get_r(noun, -1):
-            if (r in known_pos_features) or (r in ignore_features):
+            if (not r) or (r in known_pos_features) or (r in ignore_features):
                 continue
             pos_candidates[r] = pos_candidates.get(r, 0) + count
 
-- 
2.43.0


From ffeafb0de4fa96f3d7025b736b9ea9099d89a643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:32 +0000
Subject: [PATCH 55/73] fix: a word keeps the analyses whose endings are not
 removed

---
 soynlp/predicator/_predicator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index 7103b63..3d5234b 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -455,12 +455,12 @@ class PredicatorExtractor:
                 if not (word in lemmas):
                     continue
                 predicator = lemmas[word]
-                if len(predicator.lemma) == 1:
+                lemma_remained = {lemma for lemma in predicator.lemma if lemma[1] != eomi}
+                if not lemma_remained:
                     lemmas.pop(word)
                 else:
                     lemmas[word] = Predicator(
-                        predicator.frequency,
-                        {lemma for lemma in predicator.lemma if lemma[1] != eomi})
+                        predicator.frequency, lemma_remained)
 
         return lemmas
 
-- 
2.43.0


From 7252eaba34c9ee0f6c9f11e722f978c8df685c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:57 +0000
Subject: [PATCH 56/73] fix: StemExtractor finds the stems its known endings
 attach to

---
 soynlp/predicator/_stem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/predicator/_stem.py b/soynlp/predicator/_stem.py
index cb32cf6..6caa0f1 100644
--- a/soynlp/predicator/_stem.py
+++ b/soynlp/predicator/_stem.py
@@ -254,7 +254,7 @@ class StemExtractor:
             for r, count in self.lrgraph.get_r(l, -1):
                 try:
                     for stem, eomi in lemma_candidate(l, r):
-                        if eomi in self.eomis:
+                        if not (eomi in self.eomis):
                             continue
                         stems[stem] = merge_score(
                             freq0, score0, *stems.get(stem, (0, 0)))
-- 
2.43.0


From 32612f0e44440d394ad228085ae00d1e2b8a7c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:11 +0000
Subject: [PATCH 57/73] fix: StemExtractor reports how often a stem occurs and
 its score

---
 soynlp/predicator/_stem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/predicator/_stem.py b/soynlp/predicator/_stem.py
index 6caa0f1..b81d2ab 100644
--- a/soynlp/predicator/_stem.py
+++ b/soynlp/predicator/_stem.py
@@ -250,14 +250,14 @@ class StemExtractor:
             return (freq0 + freq1, (score0 * freq0 + score1 * freq1) / (freq0 + freq1))
 
         stems = {}
-        for l, (freq0, score0) in surfaces.items():
+        for l, (score0, _) in surfaces.items():
             for r, count in self.lrgraph.get_r(l, -1):
                 try:
                     for stem, eomi in lemma_candidate(l, r):
                         if not (eomi in self.eomis):
                             continue
                         stems[stem] = merge_score(
-                            freq0, score0, *stems.get(stem, (0, 0)))
+                            count, score0, *stems.get(stem, (0, 0)))
                 except:
                     continue
 
-- 
2.43.0


From 8b0dc227d98974bd83cf9195929b03ffa75aa1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:48 +0000
Subject: [PATCH 58/73] fix: cosine distance of long texts

---
 soynlp/hangle/_distance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/hangle/_distance.py b/soynlp/hangle/_distance.py
index 2b095c5..66ac0e0 100644
--- a/soynlp/hangle/_distance.py
+++ b/soynlp/hangle/_distance.py
@@ -65,7 +65,7 @@ def cosine_distance(s1, s2, unitfy=lambda x:Counter(x)):
     prod = 0
     for c1, f in d1.items():
         prod += (f * d2.get(c1, 0))
-    return 1 - ( prod / np.sqrt( (sum([f**2 for f in d1.values()]) * sum([f**2 for f in d2.values()])) ) )
+    return 1 - ( prod / np.sqrt( float(sum([f**2 for f in d1.values()]) * sum([f**2 for f in d2.values()])) ) )
 
 def jaccard_distance(s1, s2, unitfy=lambda x:set(x)):
     if (not s1) or (not s2):
-- 
2.43.0


From d8a83975477f40a086b8d3884026e01364aebc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:56 +0000
Subject: [PATCH 59/73] fix: segment words of more than 100 known tokens to the
 end

---
 soynlp/tokenizer/_tokenizer.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/soynlp/tokenizer/_tokenizer.py b/soynlp/tokenizer/_tokenizer.py
index b33ab84..9cd1e0e 100644
--- a/soynlp/tokenizer/_tokenizer.py
+++ b/soynlp/tokenizer/_tokenizer.py
@@ -178,8 +178,7 @@ class MaxScoreTokenizer:
 
     def _find(self, scores):
         result = []
-        num_iter = 0
-        
+
         while scores:
             word, b, e, score, r = scores.pop(0)
             result.append((word, b, e, score, r))
@@ -195,9 +194,6 @@ class MaxScoreTokenizer:
             for i in reversed(removals):
                 del scores[i]
 
-            num_iter += 1
-            if num_iter > 100: break
-
         return sorted(result, key=lambda x:x[1])
     
     def _add_inter_subtokens(self, token, result):
-- 
2.43.0


From 640f030417b107aa528aae0fb417a2571655d620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:09 +0000
Subject: [PATCH 60/73] fix: pmi_memory_friendly works on matrices with more
 than one column

---
 soynlp/word/_pmi.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/soynlp/word/_pmi.py b/soynlp/word/_pmi.py
index fd45895..601b809 100644
--- a/soynlp/word/_pmi.py
+++ b/soynlp/word/_pmi.py
@@ -124,12 +124,12 @@ def pmi_memory_friendly(X, py=None, min_pmi=0, alpha=0.0, beta=1.0, verbose=Fals
     assert 0 < beta <= 1
 
     # convert x to probability matrix & marginal probability 
-    px = (X.sum(axis=1) / X.sum()).reshape(-1)
+    px = np.asarray((X.sum(axis=1) / X.sum()).reshape(-1))
     if py is None:
-        py = (X.sum(axis=0) / X.sum()).reshape(-1)
+        py = np.asarray((X.sum(axis=0) / X.sum()).reshape(-1))
     pxy = X / X.sum()
 
-    assert py.shape[0] == pxy.shape[1]
+    assert py.shape[1] == pxy.shape[1]
 
     if beta < 1:
         py = py ** beta
@@ -149,14 +149,15 @@ def pmi_memory_friendly(X, py=None, min_pmi=0, alpha=0.0, beta=1.0, verbose=Fals
     # PPMI using threshold
     min_exp_pmi = 1 if min_pmi == 0 else np.exp(min_pmi)
 
-    # because exp_pmi is sparse matrix and type of exp_pmi.data is numpy.ndarray
-    indices = np.where(exp_pmi.data > min_exp_pmi)[0]
+    # prepare data (rows, cols, data) of every stored element, in the same order
+    exp_pmi = exp_pmi.tocoo()
+    rows, cols = exp_pmi.row, exp_pmi.col
+    data = exp_pmi.data
 
-    pmi_dok = dok_matrix(exp_pmi.shape)
+    # zero co-occurrence has no pmi
+    indices = np.where((data > 0) & (data >= min_exp_pmi))[0]
 
-    # prepare data (rows, cols, data)
-    rows, cols = exp_pmi.nonzero()
-    data = exp_pmi.data
+    pmi_dok = dok_matrix(exp_pmi.shape)
 
     # enumerate function for printing status
     for _n_idx, idx in enumerate(indices):
-- 
2.43.0


From 7d891e36f759a965ad47ae68ff2beb9254733cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:55 +0000
Subject: [PATCH 61/73] fix: from soynlp.utils import * works

---
 soynlp/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/utils/__init__.py b/soynlp/utils/__init__.py
index 6a98c89..8645764 100644
--- a/soynlp/utils/__init__.py
+++ b/soynlp/utils/__init__.py
@@ -11,7 +11,7 @@ from .math import svd
 
 __all__ = [
     # utils
-    'get_available_memory', 'get_process_memory', 'check_dirs'
+    'get_available_memory', 'get_process_memory', 'check_dirs',
     'sort_by_alphabet', 'most_similar', 'DoublespaceLineCorpus',
     'EojeolCounter', 'LRGraph',
     # math
-- 
2.43.0


From 645ba3141945282a0b7236e36745e5eff5f50e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:27 +0000
Subject: [PATCH 62/73] fix: POSExtractor of postagger works with the current
 noun and predicator extractors

---
 soynlp/postagger/_pos_extractor.py | 36 ++++++++++++++++++------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/soynlp/postagger/_pos_extractor.py b/soynlp/postagger/_pos_extractor.py
index 07b3869..1d16898 100644
--- a/soynlp/postagger/_pos_extractor.py
+++ b/soynlp/postagger/_pos_extractor.py
@@ -1,4 +1,5 @@
 from soynlp.noun import LRNounExtractor_v2
+from soynlp.predicator import Predicator
 from soynlp.predicator import PredicatorExtractor
 from soynlp.utils import LRGraph
 
@@ -39,23 +40,22 @@ class POSExtractor:
     def _extract_nouns(self, sentences):
 
         noun_extractor = LRNounExtractor_v2(
-            l_max_length = self.l_max_length,
-            r_max_length = self.r_max_length,
-            min_eojeol_count = 2,
+            max_left_length = self.l_max_length,
+            max_right_length = self.r_max_length,
             min_num_of_features = 2,
-            max_count_when_noun_is_eojeol = 15,
+            max_frequency_when_noun_is_eojeol = 15,
             extract_compound = False,
             logpath = self.logpath,
             extract_pos_feature = True,
             verbose = self.verbose
         )
 
-        noun_extractor.train(sentences)
+        noun_extractor.train(sentences, min_eojeol_frequency = 2)
 
         nouns = noun_extractor.extract(
             reset_lrgraph = False,
-            min_count = 10,
-            minimum_noun_score = 0.4,
+            min_noun_frequency = 10,
+            min_noun_score = 0.4,
         )
 
         self._lrgraph = LRGraph(
@@ -69,7 +69,7 @@ class POSExtractor:
 
         if self.verbose:
             message = 'noun extraction was done. {} % eojeols are covered'.format(
-                '%.2f' % (100 * self._num_of_covered_eojeols / self._num_of_eojeols))
+                '%.2f' % (100 * self._num_of_covered_eojeols / max(1, self._num_of_eojeols)))
             self._print(message, replace=True, newline=True)
 
         return nouns
@@ -83,10 +83,8 @@ class POSExtractor:
             verbose = self.verbose
         )
 
-        predicator_extractor.train(sentences_or_lrgraph, min_eojeol_count=2)
-
-        predicators = predicator_extractor.extract(
-            candidates=None, min_count=10, reset_lrgraph=True,
+        predicator_extractor.train(
+            sentences_or_lrgraph, min_eojeol_frequency=2,
             # Eomi extractor
             min_num_of_features=5, min_eomi_score=0.3, min_eomi_frequency=1,
             # Stem extractor
@@ -94,13 +92,23 @@ class POSExtractor:
             min_entropy_of_R=1.5, min_stem_score=0.7, min_stem_frequency=100
         )
 
-        self._num_of_covered_eojeols += predicator_extractor._num_of_covered_eojeols
+        adjectives, verbs = predicator_extractor.extract(
+            candidates=None, min_predicator_frequency=10)
+
+        predicators = dict(adjectives)
+        for word, verb in verbs.items():
+            lemma = verb.lemma
+            if word in predicators:
+                lemma = predicators[word].lemma | lemma
+            predicators[word] = Predicator(verb.frequency, lemma)
+
+        self._num_of_covered_eojeols += predicator_extractor._count_of_covered_eojeols
 
         self.predicator_extractor = predicator_extractor
 
         if self.verbose:
             message = 'predicator extraction was done. {} % eojeols are covered (cum)'.format(
-                '%.2f' % (100 * self._num_of_covered_eojeols / self._num_of_eojeols))
+                '%.2f' % (100 * self._num_of_covered_eojeols / max(1, self._num_of_eojeols)))
             self._print(message, replace=True, newline=True)
 
         return predicators
\ No newline at end of file
-- 
2.43.0


From d19f8dbfff41d5266afd14df5c6dd01ec4cdb311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:12 +0000
Subject: [PATCH 63/73] fix: train_hits of EojeolPatternTrainer is callable and
 adds equal contributions

---
 soynlp/tokenizer/_tokenizer_builder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soynlp/tokenizer/_tokenizer_builder.py b/soynlp/tokenizer/_tokenizer_builder.py
index 016f0b6..7afc33f 100644
--- a/soynlp/tokenizer/_tokenizer_builder.py
+++ b/soynlp/tokenizer/_tokenizer_builder.py
@@ -158,7 +158,7 @@ class EojeolPatternTrainer:
             self.lrgraph = lrgraph
             self.rlgraph = rlgraph
             
-    def train_hits(lrgraph=None, rlgraph=None, sum_of_rank=10000, decaying_factor=0.9, max_iter=10, tolerance=0.0001):
+    def train_hits(self, lrgraph=None, rlgraph=None, sum_of_rank=10000, decaying_factor=0.9, max_iter=10, tolerance=0.0001):
         def normalize(g, sum_of_rank, df):
             factor = df * sum_of_rank / sum(g.values())
             restart = (1 - df) * sum_of_rank / len(g)
@@ -176,14 +176,14 @@ class EojeolPatternTrainer:
         for n_iter in range(max_iter):
             next_rank_l = {}
             for l, rdict in lrgraph.items():
-                sum_rrank = sum({freq*rank_r[r] for r, freq in rdict.items() if r != ''})
+                sum_rrank = sum(freq*rank_r[r] for r, freq in rdict.items() if r != '')
                 next_rank_l[l] = sum_rrank
             next_rank_l = normalize(next_rank_l, sum_of_rank, decaying_factor)
 
             next_rank_r = {}
             for r, ldict in rlgraph.items():
                 if r == '': continue
-                sum_lrank = sum({freq*rank_l[l] for l, freq in ldict.items()})
+                sum_lrank = sum(freq*rank_l[l] for l, freq in ldict.items())
                 next_rank_r[r] = sum_lrank
             next_rank_r = normalize(next_rank_r, sum_of_rank, decaying_factor)
 
-- 
2.43.0


From 423ee64b4162b0a7571a50d1100ad4f34ff3a20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:20 +0000
Subject: [PATCH 64/73] fix: verbose training of EojeolPatternTrainer on fewer
 than 40 sentences

---
 soynlp/tokenizer/_tokenizer_builder.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/soynlp/tokenizer/_tokenizer_builder.py b/soynlp/tokenizer/_tokenizer_builder.py
index 7afc33f..990c4c4 100644
--- a/soynlp/tokenizer/_tokenizer_builder.py
+++ b/soynlp/tokenizer/_tokenizer_builder.py
@@ -33,12 +33,12 @@ class EojeolPatternTrainer:
         After then, it builds lr-graph with sub-tokens appeared at least min count
         """
         
-        _ckpt = int(len(sents) / 40)
+        _ckpt = max(1, int(len(sents) / 40))
         
         wordset_l = defaultdict(lambda: 0)
         wordset_r = defaultdict(lambda: 0)
         
-        for i, sent in enumerate(sents):
+        for i_sent, sent in enumerate(sents):
             for token in sent.split(' '):
                 if not token:
                     continue
@@ -47,8 +47,8 @@ class EojeolPatternTrainer:
                     wordset_l[token[:i]] += 1
                 for i in range(1, min(self.max_right_length, token_len)):
                     wordset_r[token[-i:]] += 1
-            if self.verbose and (i % _ckpt == 0):
-                args = ('#' * int(i/_ckpt), '-' * (40 - int(i/_ckpt)), 100.0 * i / len(sent), '%', get_process_memory())
+            if self.verbose and (i_sent % _ckpt == 0):
+                args = ('#' * int(i_sent/_ckpt), '-' * (40 - int(i_sent/_ckpt)), 100.0 * i_sent / len(sents), '%', get_process_memory())
                 sys.stdout.write('\rscanning: %s%s (%.3f %s) %.3f Gb' % args)
             
         wordset_l = {w for w,f in wordset_l.items() if f >= self.min_frequency}
@@ -63,11 +63,11 @@ class EojeolPatternTrainer:
         self.wordset_l = wordset_l
         self.wordset_r = wordset_r
         self.wordset_r.add('')
-        _ckpt = int(len(sents) / 40)
+        _ckpt = max(1, int(len(sents) / 40))
         lrgraph = defaultdict(lambda: defaultdict(lambda: 0))
         rlgraph = defaultdict(lambda: defaultdict(lambda: 0))
         
-        for i, sent in enumerate(sents):
+        for i_sent, sent in enumerate(sents):
             for token in sent.split():
                 if not token:
                     continue
@@ -80,8 +80,8 @@ class EojeolPatternTrainer:
                     lrgraph[l][r] += 1
                     rlgraph[r][l] += 1
 
-            if self.verbose and (i % _ckpt == 0):
-                args = ('#' * int(i/_ckpt), '-' * (40 - int(i/_ckpt)), 100.0 * i / len(sents), '%', get_process_memory())
+            if self.verbose and (i_sent % _ckpt == 0):
+                args = ('#' * int(i_sent/_ckpt), '-' * (40 - int(i_sent/_ckpt)), 100.0 * i_sent / len(sents), '%', get_process_memory())
                 sys.stdout.write('\rbuilding lr-graph: %s%s (%.3f %s), memory = %.3f Gb' % args)
         if self.verbose:                       
             sys.stdout.write('\rbuilding lr-graph completed. memory = %.3f Gb' % get_process_memory())
-- 
2.43.0


From 383d061c24bc5394efda99bc570c8728021204ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:31 +0000
Subject: [PATCH 65/73] fix: EojeolPatternTrainer splits words at any
 whitespace when it scans the vocabulary

---
 soynlp/tokenizer/_tokenizer_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/tokenizer/_tokenizer_builder.py b/soynlp/tokenizer/_tokenizer_builder.py
index 990c4c4..08ae17a 100644
--- a/soynlp/tokenizer/_tokenizer_builder.py
+++ b/soynlp/tokenizer/_tokenizer_builder.py
@@ -39,7 +39,7 @@ class EojeolPatternTrainer:
         wordset_r = defaultdict(lambda: 0)
         
         for i_sent, sent in enumerate(sents):
-            for token in sent.split(' '):
+            for token in sent.split():
                 if not token:
                     continue
                 token_len = len(token)
-- 
2.43.0


From 426447ccc078bfad2d1a75fdf375d41954a3548b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:40 +0000
Subject: [PATCH 66/73] fix: EojeolPatternTrainer does not modify the caller's
 word sets

---
 soynlp/tokenizer/_tokenizer_builder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soynlp/tokenizer/_tokenizer_builder.py b/soynlp/tokenizer/_tokenizer_builder.py
index 08ae17a..7522cf9 100644
--- a/soynlp/tokenizer/_tokenizer_builder.py
+++ b/soynlp/tokenizer/_tokenizer_builder.py
@@ -60,8 +60,9 @@ class EojeolPatternTrainer:
         return wordset_l, wordset_r
     
     def _build_graph(self, sents, wordset_l, wordset_r):
-        self.wordset_l = wordset_l
-        self.wordset_r = wordset_r
+        # do not modify the sets which are provided by user
+        self.wordset_l = wordset_l = set(wordset_l)
+        self.wordset_r = wordset_r = set(wordset_r)
         self.wordset_r.add('')
         _ckpt = max(1, int(len(sents) / 40))
         lrgraph = defaultdict(lambda: defaultdict(lambda: 0))
-- 
2.43.0


From 386da897138a8c0fb47ba3a7aab8914c9dccb4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:49 +0000
Subject: [PATCH 67/73] fix: loading EojeolPatternTrainer restores verbose

---
 soynlp/tokenizer/_tokenizer_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/tokenizer/_tokenizer_builder.py b/soynlp/tokenizer/_tokenizer_builder.py
index 7522cf9..d8230c1 100644
--- a/soynlp/tokenizer/_tokenizer_builder.py
+++ b/soynlp/tokenizer/_tokenizer_builder.py
@@ -116,7 +116,7 @@ class EojeolPatternTrainer:
                 self.max_left_length = args[0]
                 self.max_right_length = args[1]
                 self.min_frequency = args[2]
-                self.verbose == True if args[3] == 1 else False
+                self.verbose = args[3] == 1
             except Exception as e:
                 raise ValueError('first line should be parameter info, %s' % str(e))
                 
-- 
2.43.0


From cb5bf1a3a574a9542d6b3b635906549aa0f44144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:41 +0000
Subject: [PATCH 68/73] fix: tags of equal score are chosen in dictionary order

---
 soynlp/postagger/_template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/postagger/_template.py b/soynlp/postagger/_template.py
index 18d0add..7eb9e2e 100644
--- a/soynlp/postagger/_template.py
+++ b/soynlp/postagger/_template.py
@@ -84,7 +84,7 @@ class LRTemplateMatcher(BaseTemplateMatcher):
     
     def _pos_L(self, word):
         poses = self.dictionary.get_pos(word)
-        poses = {pos for pos in poses if pos in self.ltags}
+        poses = [pos for pos in poses if pos in self.ltags]
         return poses
 
     def _initialize_L(self, t):
-- 
2.43.0


From 9c986ac4e4b67b3cd8b6264f552f923044453006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:49 +0000
Subject: [PATCH 69/73] fix: word-context rows of equally frequent words keep
 corpus order

---
 soynlp/vectorizer/_word_context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/vectorizer/_word_context.py b/soynlp/vectorizer/_word_context.py
index 2ddb813..f839c8e 100644
--- a/soynlp/vectorizer/_word_context.py
+++ b/soynlp/vectorizer/_word_context.py
@@ -44,7 +44,7 @@ def _scanning_vocabulary(sents, min_tf, tokenizer, verbose):
         _print_status('  - counting word frequency', i_sent, new_line=True)
 
     # filtering with min_tf    
-    vocab2idx = {word for word, count in word_counter.items() if count >= min_tf}
+    vocab2idx = [word for word, count in word_counter.items() if count >= min_tf]
     vocab2idx = {word:idx for idx, word in enumerate(
         sorted(vocab2idx, key=lambda w:-word_counter[w]))}
     idx2vocab = [word for word, _ in sorted(vocab2idx.items(), key=lambda w:w[1])]
-- 
2.43.0


From 424c62a836ce7a1587a045d432201b97c5bde93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:55 +0000
Subject: [PATCH 70/73] fix: log of noun scores labels its columns in the order
 they are written

---
 soynlp/noun/_noun_ver2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_ver2.py b/soynlp/noun/_noun_ver2.py
index 3eb947f..8ee9007 100644
--- a/soynlp/noun/_noun_ver2.py
+++ b/soynlp/noun/_noun_ver2.py
@@ -259,7 +259,7 @@ class LRNounExtractor_v2:
 
         if self.logpath:
             with open(self.logpath+'_prediction_score.log', 'w', encoding='utf-8') as f:
-                f.write('noun score frequency\n')
+                f.write('noun frequency score\n')
 
                 for word, score in sorted(prediction_scores.items(), key=lambda x:-x[1][1]):
                     f.write('{} {} {}\n'.format(word, score[0], score[1]))
-- 
2.43.0


From 9247256e1aa44ca663abd38efc77e9d91fb16af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:06 +0000
Subject: [PATCH 71/73] fix: EomiExtractor creates the directory of its log
 files

---
 soynlp/predicator/_eomi.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/soynlp/predicator/_eomi.py b/soynlp/predicator/_eomi.py
index 76218df..61eeed1 100644
--- a/soynlp/predicator/_eomi.py
+++ b/soynlp/predicator/_eomi.py
@@ -3,6 +3,7 @@ from collections import namedtuple
 from soynlp.hangle import decompose
 from soynlp.lemmatizer import lemma_candidate
 from soynlp.lemmatizer import _conjugate_stem
+from soynlp.utils import check_dirs
 
 EomiScore = namedtuple('EomiScore', 'frequency score')
 
@@ -17,6 +18,8 @@ class EomiExtractor:
         self.min_num_of_features = min_num_of_features
         self.verbose = verbose
         self.logpath = logpath
+        if logpath:
+            check_dirs(logpath)
         self._eomis = None
 
     @property
-- 
2.43.0


From b7b1fceadc2d4ba7028171e4a35cbd3b45abc4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:17 +0000
Subject: [PATCH 72/73] fix: SimpleTagger debugs candidates of
 EojeolTemplateMatcher

---
 soynlp/postagger/_tagger.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soynlp/postagger/_tagger.py b/soynlp/postagger/_tagger.py
index 8f5e839..e10abab 100644
--- a/soynlp/postagger/_tagger.py
+++ b/soynlp/postagger/_tagger.py
@@ -39,7 +39,9 @@ class SimpleTagger(BaseTagger):
             
             if debug:
                 scored_candidates = [(c, self.evaluator.evaluate(c)) for c in candidates]
-                scored_candidates = sorted(scored_candidates, key=lambda x:(x[0].b, x[1]))
+                # candidate is a word of LRTemplateMatcher or words of EojeolTemplateMatcher
+                scored_candidates = sorted(scored_candidates, key=lambda x:(
+                    x[0][0].b if isinstance(x[0], list) else x[0].b, x[1]))
                 debug_.append(scored_candidates)
         
         # Flatten in a sentence
-- 
2.43.0


From d910b0e4479ee88fe22a9840d7c60bc0d7e5a70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:28:31 +0000
Subject: [PATCH 73/73] fix: lemma_candidate debugs predefined analyses

---
 soynlp/lemmatizer/_lemmatizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/lemmatizer/_lemmatizer.py b/soynlp/lemmatizer/_lemmatizer.py
index 3379f41..b055b3c 100644
--- a/soynlp/lemmatizer/_lemmatizer.py
+++ b/soynlp/lemmatizer/_lemmatizer.py
@@ -226,7 +226,7 @@ def lemma_candidate(l, r, predefined=None, debug=False):
         for stem in predefined[(l, r)]:
             candidates.add(stem)
             if debug:
-                debug_message('Predefined', l_stem, r_canon)
+                debug_message('Predefined', stem[0], stem[1])
 
     # check whether lemma is conjugatable
     candidates_ = set()
-- 
2.43.0

