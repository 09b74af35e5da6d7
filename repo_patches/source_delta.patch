From 360c38c7f3e2a8fe881bb28ddf616c2398feca76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:20 +0000
Subject: [PATCH 01/26] fix: pairwise_leader crashed when a cluster outgrew
 max_size

---
 fog/clustering/pairwise.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fog/clustering/pairwise.py b/fog/clustering/pairwise.py
index 54f1ccc..845cd35 100644
--- a/fog/clustering/pairwise.py
+++ b/fog/clustering/pairwise.py
@@ -90,6 +90,7 @@ def pairwise_leader(data, similarity=None, distance=None, radius=None,
         A = data[i]
 
         cluster = None
+        members = []
 
         for j in range(i + 1, n):
             if j in visited:
@@ -105,10 +106,11 @@ def pairwise_leader(data, similarity=None, distance=None, radius=None,
                     cluster.append(B)
 
                 if len(cluster) > max_size:
-                    for c in range(1, len(cluster)):
-                        visited.delete(c)
+                    visited.difference_update(members)
+                    cluster = None
                     break
 
+                members.append(j)
                 visited.add(j)
 
         if cluster is not None and len(cluster) >= min_size:
-- 
2.43.0


From 82cbf1dccc209deedbc021e98c529ba6b3fba359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:20 +0000
Subject: [PATCH 02/26] fix: key_collision ignored the size limits when merging
 buckets

---
 fog/clustering/key_collision.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fog/clustering/key_collision.py b/fog/clustering/key_collision.py
index 7420cda..3a2b050 100644
--- a/fog/clustering/key_collision.py
+++ b/fog/clustering/key_collision.py
@@ -76,7 +76,12 @@ def key_collision(data, key=None, keys=None, min_size=2, max_size=float('inf'),
 
     # Merging clusters
     if merge and key is None:
-        yield from clusters_from_buckets(buckets.values(), fuzzy=True)
+        yield from clusters_from_buckets(
+            buckets.values(),
+            min_size=min_size,
+            max_size=max_size,
+            fuzzy=True
+        )
 
     # Buckets as clusters
     else:
-- 
2.43.0


From f89f83703b625b46ff02e387100a2c5ca5678dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:20 +0000
Subject: [PATCH 03/26] fix: passjoin counted repeated pairs as several
 neighbors in fuzzy_clusters mode

---
 fog/clustering/passjoin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fog/clustering/passjoin.py b/fog/clustering/passjoin.py
index 76804ef..3d8ad53 100644
--- a/fog/clustering/passjoin.py
+++ b/fog/clustering/passjoin.py
@@ -279,5 +279,6 @@ def passjoin(data, k, distance, sort=True, min_size=2, max_size=float('inf'),
         clustering(),
         min_size=min_size,
         max_size=max_size,
-        mode=mode
+        mode=mode,
+        fuzzy=True
     )
-- 
2.43.0


From 3ea9fa2b560e6e349a97f198e70a752130b71193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:20 +0000
Subject: [PATCH 04/26] fix: multipass sorted neighborhoods exhausted one-shot
 data after the first key

---
 fog/clustering/sorted_neighborhood.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fog/clustering/sorted_neighborhood.py b/fog/clustering/sorted_neighborhood.py
index 9eae5e3..0c37faa 100644
--- a/fog/clustering/sorted_neighborhood.py
+++ b/fog/clustering/sorted_neighborhood.py
@@ -81,6 +81,10 @@ def sorted_neighborhood(data, key=None, keys=None, similarity=None, distance=Non
     # Formatting similarity
     similarity = make_similarity_function(similarity=similarity, distance=distance, radius=radius)
 
+    # We need to be able to sort the data more than once
+    if type(data) is not list:
+        data = list(data)
+
     # Iterating over sorted data
     def clustering():
         multipass_keys = keys if keys is not None else [key]
@@ -197,6 +201,10 @@ def adaptive_sorted_neighborhood(data, key=None, keys=None, similarity=None,
     # Formatting similarity
     similarity = make_similarity_function(similarity=similarity, distance=distance, radius=radius)
 
+    # We need to be able to sort the data more than once
+    if type(data) is not list:
+        data = list(data)
+
     # Iterating over sorted data
     def clustering():
         multipass_keys = keys if keys is not None else [key]
-- 
2.43.0


From 80bca816bb30a39881295ac21e36ce7c649c9f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:20 +0000
Subject: [PATCH 05/26] fix: hashjoin exhausted one-shot iterables after the
 first left item

---
 fog/join/hashjoin.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fog/join/hashjoin.py b/fog/join/hashjoin.py
index 43be394..b9eb092 100644
--- a/fog/join/hashjoin.py
+++ b/fog/join/hashjoin.py
@@ -45,6 +45,10 @@ def hashjoin(left, right, key=None, keys=None):
             similar pairs.
             """)
 
+    # B is read once per item of A
+    if iter(B) is B:
+        B = list(B)
+
     # Single key
     if key is not None:
         for a in A:
-- 
2.43.0


From 15cf72f5a81f61a312ba006d8f6650785a843dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:20 +0000
Subject: [PATCH 06/26] fix: hashjoin exhausted one-shot keys after the first
 comparison

---
 fog/join/hashjoin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fog/join/hashjoin.py b/fog/join/hashjoin.py
index b9eb092..cd3cc54 100644
--- a/fog/join/hashjoin.py
+++ b/fog/join/hashjoin.py
@@ -67,12 +67,12 @@ def hashjoin(left, right, key=None, keys=None):
     # Multiple keys
     if keys is not None:
         for a in A:
-            key_a = keys(a)
+            key_a = set(keys(a))
 
             for b in B:
                 key_b = keys(b)
 
-                if len(list(set(key_a) & set(key_b))) > 0:
+                if len(list(key_a & set(key_b))) > 0:
 
                     if invert:
                         yield (b, a)
-- 
2.43.0


From feb96706beaa8e3ae5ee5ffda362be77ad3a2ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:20 +0000
Subject: [PATCH 07/26] fix: adaptive_sorted_neighborhood read past the end of
 the sorted records

---
 fog/clustering/sorted_neighborhood.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fog/clustering/sorted_neighborhood.py b/fog/clustering/sorted_neighborhood.py
index 0c37faa..3c8dd35 100644
--- a/fog/clustering/sorted_neighborhood.py
+++ b/fog/clustering/sorted_neighborhood.py
@@ -123,11 +123,13 @@ def full_AA_SNM(sorted_records, similarity, window):
         f = first
 
         # Enlargement
-        while similarity(sorted_records[first], sorted_records[last]):
+        while first < last < n and similarity(sorted_records[first], sorted_records[last]):
             w = last - f + 1
             first = last
             last = first + w - 1
 
+        last = min(last, n - 1)
+
         # Retrenchment
         w = last - f + 1
 
-- 
2.43.0


From 5b9511b5d4d9d80dda1fa8b93363d5edc1d09406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:20 +0000
Subject: [PATCH 08/26] fix: nn_descent failed or never ended on less than two
 items

---
 fog/clustering/nn_descent.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fog/clustering/nn_descent.py b/fog/clustering/nn_descent.py
index ed1b47e..547cb03 100644
--- a/fog/clustering/nn_descent.py
+++ b/fog/clustering/nn_descent.py
@@ -109,6 +109,10 @@ def nn_descent(data, radius, similarity=None, distance=None, k=None,
     B = []
     N = len(V)
 
+    # There is nothing to compare
+    if N < 2:
+        return
+
     # Chosing k
     if k is None:
         k = int(math.log2(N))
@@ -274,6 +278,10 @@ def nn_descent_full(data, radius, similarity=None, distance=None, k=None,
     B = []
     N = len(V)
 
+    # There is nothing to compare
+    if N < 2:
+        return
+
     # Chosing k
     if k is None:
         k = int(math.log2(N))
-- 
2.43.0


From bcc8fc91895af7b1177262ca9f10ce034d30bfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:20 +0000
Subject: [PATCH 09/26] fix: laesa failed on an empty dataset

---
 fog/clustering/laesa.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fog/clustering/laesa.py b/fog/clustering/laesa.py
index ad9be68..f85848e 100644
--- a/fog/clustering/laesa.py
+++ b/fog/clustering/laesa.py
@@ -105,6 +105,9 @@ def laesa(data, distance, radius, pivots=None, min_size=2,
     if type(data) is not list:
         data = list(data)
 
+    if len(data) == 0:
+        return
+
     # Finding the number of pivots
     if pivots is None:
         pivots = math.ceil(math.log2(len(data)))
-- 
2.43.0


From e350c3760c79c08e27e2ae3719f3380f50e2b743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:20 +0000
Subject: [PATCH 10/26] fix: laesa printed its number of distance computations

---
 fog/clustering/laesa.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/fog/clustering/laesa.py b/fog/clustering/laesa.py
index f85848e..9e180af 100644
--- a/fog/clustering/laesa.py
+++ b/fog/clustering/laesa.py
@@ -117,7 +117,6 @@ def laesa(data, distance, radius, pivots=None, min_size=2,
     n = len(data)
 
     def clustering():
-        DD = 0
         for i, x in enumerate(data):
 
             # Distance to the nearest pivot
@@ -142,13 +141,10 @@ def laesa(data, distance, radius, pivots=None, min_size=2,
 
                 if compute:
                     d = distance(x, data[k])
-                    DD += 1
 
                     if d <= radius:
                         yield (x, data[k])
 
-        print('DISTANCES: %i' % DD)
-
     yield from clusters_from_pairs(
         clustering(),
         min_size=min_size,
-- 
2.43.0


From e651036cb7220a5a2cf3ba5e279485b712373fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:20 +0000
Subject: [PATCH 11/26] fix: vp_tree failed on less than two items

---
 fog/clustering/vp_tree.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fog/clustering/vp_tree.py b/fog/clustering/vp_tree.py
index 299ab31..5cf77f0 100644
--- a/fog/clustering/vp_tree.py
+++ b/fog/clustering/vp_tree.py
@@ -44,6 +44,11 @@ def vp_tree(data, distance, radius, min_size=2, max_size=float('inf')):
     if type(data) is not list:
         data = list(data)
 
+    if len(data) < 2:
+        if len(data) == 1 and min_size <= 1 <= max_size:
+            yield data[:]
+        return
+
     tree = VPTree(data, distance, selection='spread')
 
     visited = set()
-- 
2.43.0


From 49db35a6ddfe974355186b6a5008c0db67516d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:20 +0000
Subject: [PATCH 12/26] fix: Damerau-Levenshtein 2d blocks of the empty string

---
 fog/key/levenshtein.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/key/levenshtein.py b/fog/key/levenshtein.py
index 15a318f..cddd506 100644
--- a/fog/key/levenshtein.py
+++ b/fog/key/levenshtein.py
@@ -213,7 +213,7 @@ def levenshtein_2d_blocks(string, transpositions=False,
             flag3 + string[h * 2:]
         )
 
-        if transpositions:
+        if transpositions and n > 0:
             h1 = h - 1
 
             return basic + (
-- 
2.43.0


From f5587f473d0511af87aeba91020130f39396a7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:21 +0000
Subject: [PATCH 13/26] fix: rusalka failed on names emptied by its rules

---
 fog/phonetics/rusalka.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fog/phonetics/rusalka.py b/fog/phonetics/rusalka.py
index 10246c4..b71d56b 100644
--- a/fog/phonetics/rusalka.py
+++ b/fog/phonetics/rusalka.py
@@ -104,6 +104,9 @@ def rusalka(name):
     name = re.sub(DUPLICATED, r'\1', name)
     name = name.lower()
 
+    if not name:
+        return name
+
     first_letter = name[0]
     rest = name[1:]
 
-- 
2.43.0


From 2431f12584c565dc2c8d0e44eef10214f8875a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:21 +0000
Subject: [PATCH 14/26] fix: ppjoin default token ordering failed without a
 tokenizer

---
 fog/clustering/ppjoin.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fog/clustering/ppjoin.py b/fog/clustering/ppjoin.py
index f995e00..2fadd10 100644
--- a/fog/clustering/ppjoin.py
+++ b/fog/clustering/ppjoin.py
@@ -221,12 +221,12 @@ def preprocess(records, tokenizer=None, token_ordering=None):
         if tokenizer is not None:
             record = tokenizer(record)
 
-            if not isinstance(record, list):
-                record = list(record)
+        if not isinstance(record, list):
+            record = list(record)
 
-            if token_ordering == 'freq':
-                for token in record:
-                    freqs[token] += 1
+        if token_ordering == 'freq':
+            for token in record:
+                freqs[token] += 1
 
         record = sorted_uniq(record)
 
-- 
2.43.0


From 5f96eb7b5120e032399779f518b887f525c8d93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:21 +0000
Subject: [PATCH 15/26] fix: ppjoin failed on records without tokens

---
 fog/clustering/ppjoin.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fog/clustering/ppjoin.py b/fog/clustering/ppjoin.py
index 2fadd10..d79f56b 100644
--- a/fog/clustering/ppjoin.py
+++ b/fog/clustering/ppjoin.py
@@ -309,6 +309,10 @@ def ppjoin(records, threshold, metric='jaccard', tokenizer=None, all_pairs=False
         record = tokenized_records[k]
         record_length = len(record)
 
+        # An empty record has no token in common with any other
+        if record_length == 0:
+            continue
+
         min_length = helper.min_possible_length(record_length)
         probe_length = helper.probe_length(record_length)
         index_length = helper.index_length(record_length)
-- 
2.43.0


From 145de907123d256337a93b3c512c38eb41b8a589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:21 +0000
Subject: [PATCH 16/26] fix: numpy MinHash reseeded the global numpy generator

---
 fog/lsh/minhash.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fog/lsh/minhash.py b/fog/lsh/minhash.py
index a1bb2c6..2cd97b5 100644
--- a/fog/lsh/minhash.py
+++ b/fog/lsh/minhash.py
@@ -66,10 +66,10 @@ class MinHash(object):
         if use_numpy:
             assert np is not None, 'numpy is not installed'
 
-            np.random.seed(seed)
+            rng = np.random.RandomState(seed)
 
-            self.A = np.random.randint(1, MAX_UINT32, size=h, dtype='uint32')
-            self.B = np.random.randint(0, MAX_UINT32, size=h, dtype='uint32')
+            self.A = rng.randint(1, MAX_UINT32, size=h, dtype='uint32')
+            self.B = rng.randint(0, MAX_UINT32, size=h, dtype='uint32')
 
             self.numpy = True
         else:
-- 
2.43.0


From ffa12dcbcf3a1b4fbbc4d66a50c718d1bd3db92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:21 +0000
Subject: [PATCH 17/26] fix: quickjoin over vantage point trees dropped pairs
 according to object addresses

---
 fog/clustering/quickjoin.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fog/clustering/quickjoin.py b/fog/clustering/quickjoin.py
index 13a0fd4..8252fc4 100644
--- a/fog/clustering/quickjoin.py
+++ b/fog/clustering/quickjoin.py
@@ -119,8 +119,7 @@ def quickjoin_self_vptree(S, distance, radius):
             if A == B:
                 continue
 
-            if id(A) < id(B):
-                yield (A, B)
+            yield (A, B)
 
 
 def quickjoin_join_pivots(S1, S2, distance, radius):
-- 
2.43.0


From f794668996bdf0fdbab0b2ea4f63bd6801da8b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:21 +0000
Subject: [PATCH 18/26] fix: split accumulated values in the target column and
 left empty ones unpadded

---
 fog/cli/split.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fog/cli/split.py b/fog/cli/split.py
index c8b7ce3..3907cef 100644
--- a/fog/cli/split.py
+++ b/fog/cli/split.py
@@ -26,14 +26,16 @@ def split_action(namespace):
         values = line[position]
 
         if len(values) == 0:
+            if namespace.target_column is not None:
+                line = line + ['']
+
             writer.writerow(line)
             continue
 
         for value in values.split(namespace.separator):
 
-            if namespace.target_column:
-                line.append(value)
+            if namespace.target_column is not None:
+                writer.writerow(line + [value])
             else:
                 line[position] = value
-
-            writer.writerow(line)
+                writer.writerow(line)
-- 
2.43.0


From 8416dfe147ca069ddac7da790ca9bc19f468f264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:21 +0000
Subject: [PATCH 19/26] fix: HTML report did not escape values nor close its
 document

---
 fog/cli/reporting/html.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fog/cli/reporting/html.py b/fog/cli/reporting/html.py
index 3c39c45..d2a15ab 100644
--- a/fog/cli/reporting/html.py
+++ b/fog/cli/reporting/html.py
@@ -5,6 +5,7 @@
 # Function used to render a clustering result into a HTML file.
 #
 import datetime
+from html import escape
 
 
 def print_html_report(file, meta, values, clusters):
@@ -92,7 +93,7 @@ def print_html_report(file, meta, values, clusters):
 
         for v in sorted_values:
             p('        <li>')
-            p('          %s' % v)
+            p('          %s' % escape(v))
             p('        </li>')
 
         p('      </ul>')
@@ -100,4 +101,4 @@ def print_html_report(file, meta, values, clusters):
 
     p('    </div>')
     p('  </body>')
-    p('<html>')
+    p('</html>')
-- 
2.43.0


From 0d0170f1a437213f86e8bf624577af9c1a78c8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:21 +0000
Subject: [PATCH 20/26] fix: TOML report did not escape backslashes nor control
 characters

---
 fog/cli/reporting/toml.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fog/cli/reporting/toml.py b/fog/cli/reporting/toml.py
index 98b6dd1..b4be6dd 100644
--- a/fog/cli/reporting/toml.py
+++ b/fog/cli/reporting/toml.py
@@ -6,8 +6,15 @@
 #
 
 
+import re
+
+CONTROL_CHARACTERS = re.compile(r'[\x00-\x1f\x7f]')
+
+
 def escape_string(string):
-    return string.replace('"', '\\"').replace('\n', '\\n')
+    string = string.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n')
+
+    return re.sub(CONTROL_CHARACTERS, lambda m: '\\u%04x' % ord(m.group()), string)
 
 
 def print_toml_report(file, meta, values, clusters):
-- 
2.43.0


From f07460493e02decebb3eba0be50f0178512571e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:41 +0000
Subject: [PATCH 21/26] fix: quickjoin over vantage point trees failed on an
 empty dataset

---
 fog/clustering/quickjoin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/clustering/quickjoin.py b/fog/clustering/quickjoin.py
index 8252fc4..274417f 100644
--- a/fog/clustering/quickjoin.py
+++ b/fog/clustering/quickjoin.py
@@ -109,7 +109,7 @@ def quickjoin_vptree(S1, S2, distance, radius):
 
 def quickjoin_self_vptree(S, distance, radius):
 
-    if len(S) == 1:
+    if len(S) < 2:
         return
 
     tree = VPTree(S, distance)
-- 
2.43.0


From 0cd2e0901d72dbefb9efff9ed7640232ec96a042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:41 +0000
Subject: [PATCH 22/26] fix: limited_levenshtein_distance leaked its buffers on
 early return

---
 cfog/metrics/levenshtein.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cfog/metrics/levenshtein.pyx b/cfog/metrics/levenshtein.pyx
index ac22ac7..5c26393 100644
--- a/cfog/metrics/levenshtein.pyx
+++ b/cfog/metrics/levenshtein.pyx
@@ -254,6 +254,9 @@ def limited_levenshtein_distance(unsigned int max_distance, str A, str B):
             j += 1
 
         if have_max and vector[i + diff] > max_distance:
+            free(codes)
+            free(vector)
+
             return upper_bound
 
         i += 1
-- 
2.43.0


From 4e5ce6168f1ecddad9eab5ddf978f726a7a4caa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:41 +0000
Subject: [PATCH 23/26] fix: levenshtein_distance looked for a lone character
 in the trimmed parts of the other string

---
 cfog/metrics/levenshtein.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfog/metrics/levenshtein.pyx b/cfog/metrics/levenshtein.pyx
index 5c26393..a9384eb 100644
--- a/cfog/metrics/levenshtein.pyx
+++ b/cfog/metrics/levenshtein.pyx
@@ -69,7 +69,7 @@ def levenshtein_distance(str A, str B):
         return LB
 
     if LA == 1:
-        if A[start] in B:
+        if A[start] in B[start:start + LB]:
             return LB - 1
 
         return LB
-- 
2.43.0


From 4e41a588e2c6ca175424b6fd2230ce5739bc2a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:41 +0000
Subject: [PATCH 24/26] fix: compiled distances truncated characters beyond the
 basic plane

---
 cfog/metrics/levenshtein.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cfog/metrics/levenshtein.pyx b/cfog/metrics/levenshtein.pyx
index a9384eb..e2f2fe9 100644
--- a/cfog/metrics/levenshtein.pyx
+++ b/cfog/metrics/levenshtein.pyx
@@ -74,7 +74,7 @@ def levenshtein_distance(str A, str B):
 
         return LB
 
-    cdef unsigned short *codes = <unsigned short *> malloc(LB * sizeof(unsigned short))
+    cdef Py_UCS4 *codes = <Py_UCS4 *> malloc(LB * sizeof(Py_UCS4))
     cdef unsigned int *vector = <unsigned int *> malloc(LB * sizeof(unsigned int))
 
     cdef unsigned int i = 0
@@ -87,7 +87,7 @@ def levenshtein_distance(str A, str B):
     cdef unsigned int current = 0
     cdef unsigned int left = 0
     cdef unsigned int above = 0
-    cdef unsigned short charA = 0
+    cdef Py_UCS4 charA = 0
     cdef unsigned int j = 0
 
     i = 0
@@ -192,7 +192,7 @@ def limited_levenshtein_distance(unsigned int max_distance, str A, str B):
     elif diff > max_distance:
         return upper_bound
 
-    cdef unsigned short *codes = <unsigned short *> malloc(LB * sizeof(unsigned short))
+    cdef Py_UCS4 *codes = <Py_UCS4 *> malloc(LB * sizeof(Py_UCS4))
     cdef unsigned int *vector = <unsigned int *> malloc(LB * sizeof(unsigned int))
 
     cdef unsigned int i = 0
@@ -216,7 +216,7 @@ def limited_levenshtein_distance(unsigned int max_distance, str A, str B):
     cdef unsigned int current = 0
     cdef unsigned int left
     cdef unsigned int above
-    cdef unsigned int charA
+    cdef Py_UCS4 charA
     cdef unsigned int j
 
     i = 0
-- 
2.43.0


From 741ba59c65347505277bb5eb288909788317cc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:34 +0000
Subject: [PATCH 25/26] fix: key_collision put an item several times in the
 bucket of a repeated key

---
 fog/clustering/key_collision.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fog/clustering/key_collision.py b/fog/clustering/key_collision.py
index 3a2b050..995c30e 100644
--- a/fog/clustering/key_collision.py
+++ b/fog/clustering/key_collision.py
@@ -70,7 +70,8 @@ def key_collision(data, key=None, keys=None, min_size=2, max_size=float('inf'),
             if not ks:
                 continue
 
-            for k in ks:
+            # NOTE: an item may only appear once in a bucket
+            for k in dict.fromkeys(ks):
                 if k:
                     buckets[k].append(item)
 
-- 
2.43.0


From eb6d1645db24f02108c49efc0c7276f5a34ad8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:07 +0000
Subject: [PATCH 26/26] fix: topology-based projection no longer fails on nodes
 with null weights only

---
 fog/graph/projection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fog/graph/projection.py b/fog/graph/projection.py
index 19c57f9..d9de9ef 100644
--- a/fog/graph/projection.py
+++ b/fog/graph/projection.py
@@ -162,6 +162,10 @@ def monopartite_projection(bipartite, project, part='bipartite', weight='weight'
                     if monopartite.has_edge(n1, n2):
                         continue
 
+                    # A node whose edges all have a null weight has no vector
+                    if n2 not in vectors:
+                        continue
+
                     norm2, vector2 = vectors[n2]
 
                     # NOTE: at this point, both norms should be > 0
-- 
2.43.0

