From 38e55c15d34a4a48dd531bdcd06548fd38a6a699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:59 +0000
Subject: [PATCH 01/56] fix: skip_bigram_slices recursed once per token and
 failed on long sequences

---
 lib/daeso/string/sgram.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/daeso/string/sgram.py b/lib/daeso/string/sgram.py
index 02de036..86c3e7a 100644
--- a/lib/daeso/string/sgram.py
+++ b/lib/daeso/string/sgram.py
@@ -36,12 +36,9 @@ def skip_bigram_slices(tokens, distance_limit=sys.maxint):
     """
     # distance_limit corresponds to d_skip in Lin04
     # distance_limit=0 gives ordinary bigrams
-    if tokens:
-        return ( [(tokens[0], next_token) 
-                  for next_token in tokens[1:2 + distance_limit]] +
-                 skip_bigram_slices(tokens[1:], distance_limit) )
-    else:
-        return []
+    return [(tokens[i], next_token)
+            for i in range(len(tokens))
+            for next_token in tokens[i + 1:i + 2 + distance_limit]]
 
 
 def padded_skip_bigram_slices(tokens, distance_limit=sys.maxint,
-- 
2.43.0


From 9b4f38c634fbde82a3376cefa0bddbecf51478af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:59 +0000
Subject: [PATCH 02/56] fix: ROUGE-L and ROUGE-S raised ZeroDivisionError when
 a side has no tokens or no skip bigrams

---
 lib/daeso/string/rouge.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/daeso/string/rouge.py b/lib/daeso/string/rouge.py
index 287b656..cf04614 100644
--- a/lib/daeso/string/rouge.py
+++ b/lib/daeso/string/rouge.py
@@ -95,10 +95,11 @@ def rouge_l(candidate_tokens, reference_tokens, beta=1):
     beta determines the relative importance of recall in the F-measure
     """
     lcs = len(longest_common_subsequence(candidate_tokens, reference_tokens))
-    recall = lcs / float(len(reference_tokens))
-    precision = lcs / float(len(candidate_tokens))
 
     try:
+        recall = lcs / float(len(reference_tokens))
+        precision = lcs / float(len(candidate_tokens))
+
         return ( ((1 + beta ** 2) * precision * recall )  /
                  (beta ** 2 * precision + recall) )
     except ZeroDivisionError:
@@ -135,10 +136,10 @@ def rouge_skip_bigram(skip_bigrams1, skip_bigrams2, beta=1):
     # In the current implementation, X and Y are effectively considered sets (i.e. no duplicates). 
     matches_count = float(len(matches))
     
-    recall = matches_count / len(skip_bigrams1)
-    precision = matches_count / len(skip_bigrams2)
-    
     try:
+        recall = matches_count / len(skip_bigrams1)
+        precision = matches_count / len(skip_bigrams2)
+    
         return ( ((1 + beta ** 2) * precision * recall )  /
                  (beta ** 2 * precision + recall) )
     except ZeroDivisionError:
-- 
2.43.0


From 6e57ebfc700d2eb8f286e04bae08b264d64712b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:59 +0000
Subject: [PATCH 03/56] fix: padding a unicode string raised TypeError

---
 lib/daeso/string/ngram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/string/ngram.py b/lib/daeso/string/ngram.py
index 9bc5970..654d715 100644
--- a/lib/daeso/string/ngram.py
+++ b/lib/daeso/string/ngram.py
@@ -82,7 +82,7 @@ def pad(tokens, pad_size, pad_string="_"):
     """
     if type(tokens) == type(tuple()):
         return pad_size * (pad_string,) + tokens + pad_size * (pad_string,)
-    elif type(tokens) == type(""):
+    elif isinstance(tokens, basestring):
         return pad_size * pad_string + tokens + pad_size * pad_string
     else:
         return pad_size * [pad_string] + tokens + pad_size * [pad_string]
-- 
2.43.0


From 22e894cf03da579eee88805d028fc7f43aa2f4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:15 +0000
Subject: [PATCH 04/56] fix: != on corpora raised TypeError

---
 lib/daeso/pgc/corpus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index b7a9896..1136663 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -350,7 +350,7 @@ class ParallelGraphCorpus(list):
         """
         corpus.__ne__(other) <==> corpsu != other
         """
-        return not self.__eq__(self, other)
+        return not self.__eq__(other)
     
       
     def __repr__(self):
-- 
2.43.0


From e9fbc246a070c0a8071b2e171a0430d2bb9e7502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:15 +0000
Subject: [PATCH 05/56] fix: n * corpus raised TypeError

---
 lib/daeso/pgc/corpus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 1136663..4707876 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -374,7 +374,7 @@ class ParallelGraphCorpus(list):
         """
         corpus.__rmul__(n) <==> n * corpus
         """
-        return self.__mul__()
+        return self.__mul__(n)
          
     
     def __setitem__(self, index, value):
-- 
2.43.0


From 4db8bb986309725a82149031289f02531e0021a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:15 +0000
Subject: [PATCH 06/56] fix: corpus.insert took no index and raised NameError

---
 lib/daeso/pgc/corpus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 4707876..724c5ba 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -498,7 +498,7 @@ class ParallelGraphCorpus(list):
         return list.index(self, graph_pair)
     
           
-    def insert(self, graph_pair):
+    def insert(self, index, graph_pair):
         """
         corpus.insert(index, graph_pair) -- insert graph_pair before index
         
@@ -509,7 +509,7 @@ class ParallelGraphCorpus(list):
         if not isinstance(graph_pair, GraphPair):
             raise TypeError("only GraphPair instances are allowed")
         
-        list.insert(self, i, graph_pair)
+        list.insert(self, index, graph_pair)
     
     
     def read(self, inf, graph_loading=LOAD_SPARSE, relax_gb_paths=False):
-- 
2.43.0


From 2d883df41a4d8da194a92e3d3fa87245cfb27763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:15 +0000
Subject: [PATCH 07/56] fix: corpus.pop raised TypeError by default and did not
 return the graph pair

---
 lib/daeso/pgc/corpus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 724c5ba..69e3f7a 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -542,7 +542,7 @@ class ParallelGraphCorpus(list):
                      relax_gb_paths=relax_gb_paths)
 
           
-    def pop(self, index=None):
+    def pop(self, index=-1):
         """
         corpus.pop([index]) -> GraphPair -- 
         remove and return graph pair at index (default last)
@@ -550,7 +550,7 @@ class ParallelGraphCorpus(list):
         Raises IndexError if corpus is empty or index is out of range.
         """
         # redundant graphbanks are automatically garbage collected
-        list.pop(self, index)
+        return list.pop(self, index)
     
     
     def purge(self, graph_pair=None):
-- 
2.43.0


From 6e06b6be90919d05dd0f67f70fd1cb93e8d57ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:15 +0000
Subject: [PATCH 08/56] fix: setting the relations of a corpus sorted the
 caller's list in place

---
 lib/daeso/pgc/corpus.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 69e3f7a..6d203e7 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -429,8 +429,7 @@ class ParallelGraphCorpus(list):
 
         
     def set_relations(self, relations=None):
-        self._relations = relations or []
-        self._relations.sort()
+        self._relations = sorted(relations or [])
 
     
     def append(self, graph_pair):
-- 
2.43.0


From e0568277339c1144a4b416a3258ae5b931c674e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:15 +0000
Subject: [PATCH 09/56] fix: purging one graph pair without alignments purged
 the whole corpus

---
 lib/daeso/pgc/corpus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 6d203e7..c4466d1 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -567,7 +567,7 @@ class ParallelGraphCorpus(list):
         # (difference between source and target banks is irelevant)
         old2new = {}
         
-        if graph_pair:
+        if graph_pair is not None:
             to_purge = [graph_pair]
         else:
             to_purge = self
-- 
2.43.0


From ebbe8f8222e68fd08808b11a65c67e20f2989782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:15 +0000
Subject: [PATCH 10/56] fix: comparing a corpus without meta-data to one with
 meta-data raised AttributeError

---
 lib/daeso/pgc/corpus.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index c4466d1..a94d59f 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -678,6 +678,8 @@ class ParallelGraphCorpus(list):
         if self._meta_data is other._meta_data:
             # both None or same object 
             return True
+        elif self._meta_data is None or other._meta_data is None:
+            return False
         else: 
             return equals(self._meta_data, other._meta_data)
 
-- 
2.43.0


From 873fe2ab15e976225a1ec62f8bd5df7987ad8cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:35 +0000
Subject: [PATCH 11/56] fix: != on pairs compared identity instead of negating
 ==

---
 lib/daeso/pair.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/daeso/pair.py b/lib/daeso/pair.py
index 3003ce0..e0909c0 100644
--- a/lib/daeso/pair.py
+++ b/lib/daeso/pair.py
@@ -44,6 +44,10 @@ class Pair(object):
                      self.target == other.target )
         
         
+    def __ne__(self, other):
+        return not self == other
+        
+        
     def __repr__(self):
         return 'Pair(source={pair.source!r}, target={pair.target!r})'.format(
             pair=self) 
-- 
2.43.0


From 5fed3876b0f506ce4418472faa8d8d39fb21b207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:35 +0000
Subject: [PATCH 12/56] fix: comparing elements with non-ASCII text raised
 UnicodeEncodeError

---
 lib/daeso/utils/etree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/utils/etree.py b/lib/daeso/utils/etree.py
index 4248e84..4f98dfd 100644
--- a/lib/daeso/utils/etree.py
+++ b/lib/daeso/utils/etree.py
@@ -50,8 +50,8 @@ def equals(elem1, elem2):
     """
     # as far as I can see, _ElementInterface lacks a __eq__ method
     return ( elem1.tag == elem2.tag and
-             str(elem1.text).strip() == str(elem2.text).strip() and
-             str(elem1.tail).strip() == str(elem2.tail).strip() and
+             (elem1.text or "").strip() == (elem2.text or "").strip() and
+             (elem1.tail or "").strip() == (elem2.tail or "").strip() and
              elem1.attrib == elem2.attrib and
              len(elem1) == len(elem2) and
              all([ equals(child1, child2)
-- 
2.43.0


From 46d10630d7b57e09faff79237f156b00a92d6bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:35 +0000
Subject: [PATCH 13/56] fix: writing an element tree ignored the encoding asked
 for

---
 lib/daeso/utils/etree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/utils/etree.py b/lib/daeso/utils/etree.py
index 4f98dfd..f9ad326 100644
--- a/lib/daeso/utils/etree.py
+++ b/lib/daeso/utils/etree.py
@@ -38,8 +38,8 @@ def write(etree, file=sys.stdout, encoding="utf-8", pprint=False):
     if pprint:
         indent(etree.getroot())
         
-    file.write('<?xml version="1.0" encoding="utf-8"?>\n')
-    etree.write(file, "utf-8")
+    file.write('<?xml version="1.0" encoding="%s"?>\n' % encoding)
+    etree.write(file, encoding, xml_declaration=False)
     
  
 def equals(elem1, elem2):
-- 
2.43.0


From c1c4d1da3f8379737d39d0a7903631c5a31f9259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 14/56] fix: meta-data elements without children were replaced
 by an empty one

---
 lib/daeso/pgc/graphpair.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/graphpair.py b/lib/daeso/pgc/graphpair.py
index db5ccab..f82cb31 100644
--- a/lib/daeso/pgc/graphpair.py
+++ b/lib/daeso/pgc/graphpair.py
@@ -75,7 +75,9 @@ class GraphPairBase(object):
         # references to them. Therefore graphs are automatically destroyed if
         # they are no longer part of any graph pair.
         self._graphs = graphs
-        self._meta_data = meta_data or et.Element("graph_meta_data")
+        if meta_data is None:
+            meta_data = et.Element("graph_meta_data")
+        self._meta_data = meta_data
         
         
     def __eq__(self, other):
-- 
2.43.0


From bac3d6b9f6143cde242197875e215dde6e2bdd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 15/56] fix: != on graph pairs compared identity instead of
 negating ==

---
 lib/daeso/pgc/graphpair.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/daeso/pgc/graphpair.py b/lib/daeso/pgc/graphpair.py
index f82cb31..ccaf402 100644
--- a/lib/daeso/pgc/graphpair.py
+++ b/lib/daeso/pgc/graphpair.py
@@ -108,6 +108,10 @@ class GraphPairBase(object):
                          self._meta_data_equal(other) )
         
         
+    def __ne__(self, other):
+        return not self == other
+        
+        
     def __deepcopy__(self, memo_dict):
         """
         Implements the copy protocol for copy.deepcopy(graph_pair), which only
-- 
2.43.0


From 663d36d09c1e6a6be016f7a026e8b22e1e097f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 16/56] fix: roots_aligned looked at the source root on both
 sides

---
 lib/daeso/pgc/graphpair.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/graphpair.py b/lib/daeso/pgc/graphpair.py
index ccaf402..11f498d 100644
--- a/lib/daeso/pgc/graphpair.py
+++ b/lib/daeso/pgc/graphpair.py
@@ -327,7 +327,7 @@ class GraphMapping(GraphPairBase, DiGraph):
         """
         return self.has_edge(
             self._graphs.source.root ,
-            self._graphs.source.root)
+            self._graphs.target.root)
     
     
     def dump_alignments(self):
-- 
2.43.0


From 1b25ab58ba5db4f08fd6ffdd76b24de73669ee4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 17/56] fix: str() of a graph pair raised TypeError

---
 lib/daeso/pgc/graphpair.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/graphpair.py b/lib/daeso/pgc/graphpair.py
index 11f498d..0ba43fc 100644
--- a/lib/daeso/pgc/graphpair.py
+++ b/lib/daeso/pgc/graphpair.py
@@ -275,7 +275,7 @@ class GraphMapping(GraphPairBase, DiGraph):
             self.__class__.__name__,
             self._banks,
             self._graphs,
-            list.__str__(self),
+            self.alignments(),
             self._meta_data)
 
     
-- 
2.43.0


From 83d3b095f5dd15b1602aa23761a4cfe60ff1a599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:25 +0000
Subject: [PATCH 18/56] fix: ODiGraph raised NameError instead of converting
 data or reporting a bad attr_dict

---
 lib/daeso/graph/ograph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/graph/ograph.py b/lib/daeso/graph/ograph.py
index 8a60bd9..ef896b1 100644
--- a/lib/daeso/graph/ograph.py
+++ b/lib/daeso/graph/ograph.py
@@ -52,6 +52,7 @@ __authors__ = "Erwin Marsi <e.marsi@gmail.com>"
 
 from distutils.version import LooseVersion
 import networkx
+from networkx import NetworkXError, convert
 
 if LooseVersion(networkx.__version__) < LooseVersion('1.0'):
     raise ImportError("networkx version 1.0 or later required" +
@@ -118,7 +119,7 @@ class ODiGraph(networkx.DiGraph):
 
         # attempt to load graph with data
         if data is not None:
-            convert.from_whatever(data,create_using=self)
+            convert.to_networkx_graph(data,create_using=self)
         # load graph attributes (must be after convert)
         self.graph.update(attr)
 
-- 
2.43.0


From 05a793bd5c6ee1f9088789005982053821ac6df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:25 +0000
Subject: [PATCH 19/56] fix: nodes added together shared one attribute
 dictionary

---
 lib/daeso/graph/ograph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/graph/ograph.py b/lib/daeso/graph/ograph.py
index ef896b1..e1874dd 100644
--- a/lib/daeso/graph/ograph.py
+++ b/lib/daeso/graph/ograph.py
@@ -219,7 +219,7 @@ class ODiGraph(networkx.DiGraph):
             if n not in self.succ:
                 self.succ[n] = OrderedDict()
                 self.pred[n] = OrderedDict()
-                self.node[n] = attr
+                self.node[n] = attr.copy()
             else: # update attr even if node already exists            
                 self.node[n].update(attr)
 
-- 
2.43.0


From 75a2d649bc871f7d57cbe4db3de1f5be0aa599e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:25 +0000
Subject: [PATCH 20/56] fix: DaesoGraph.non_terminals raised AttributeError

---
 lib/daeso/graph/daesograph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/graph/daesograph.py b/lib/daeso/graph/daesograph.py
index b1d9ea5..1867316 100644
--- a/lib/daeso/graph/daesograph.py
+++ b/lib/daeso/graph/daesograph.py
@@ -99,7 +99,7 @@ class DaesoGraph(ODiGraph):
     
     def non_terminals_iter(self):
         return ( node for node in self
-                 if self.is_non_terminal(node) )
+                 if self.node_is_non_terminal(node) )
     
     
     def non_terminals(self):
-- 
2.43.0


From 3e273c684ad0695c6c16b34aab88892c9c98d223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:25 +0000
Subject: [PATCH 21/56] fix: DaesoGraph.add_edge raised NameError on a bad
 attr_dict

---
 lib/daeso/graph/daesograph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/daeso/graph/daesograph.py b/lib/daeso/graph/daesograph.py
index 1867316..3bc6c6d 100644
--- a/lib/daeso/graph/daesograph.py
+++ b/lib/daeso/graph/daesograph.py
@@ -26,6 +26,8 @@ __authors__ = "Erwin Marsi <e.marsi@gmail.com>"
 
 import string
 
+from networkx import NetworkXError
+
 from daeso.graph.ograph import ODiGraph
 
 # TODO:
-- 
2.43.0


From 9b5cf4e3e00eedb6090c18223f56e99e2eb1880f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:37 +0000
Subject: [PATCH 22/56] fix: an unknown graphbank format raised AttributeError
 or UnboundLocalError

---
 lib/daeso/gb/graphbank.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/gb/graphbank.py b/lib/daeso/gb/graphbank.py
index 90dbf96..cad1645 100644
--- a/lib/daeso/gb/graphbank.py
+++ b/lib/daeso/gb/graphbank.py
@@ -162,9 +162,9 @@ class GraphBank(object):
         try:
             parser_module_name, parser_class_name = getattr(daeso.gb.register, 
                                                             format.lower())
-        except KeyError:
+        except AttributeError:
             # TODO: use own error class
-            AssertionError("no parser available for graphbank in '%s' format" % format)
+            raise AssertionError("no parser available for graphbank in '%s' format" % format)
             
         try:
             parser_module = __import__(parser_module_name, 
-- 
2.43.0


From b3dcf91c5876fa0feb2db26d60cba06b29348816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:37 +0000
Subject: [PATCH 23/56] fix: sparse parsing of a graphbank string raised
 TypeError

---
 lib/daeso/gb/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/gb/parser.py b/lib/daeso/gb/parser.py
index 657f920..865e2e7 100644
--- a/lib/daeso/gb/parser.py
+++ b/lib/daeso/gb/parser.py
@@ -61,7 +61,7 @@ class XmlGraphbankParser(object):
         self._parser.Parse(data, 0)
         
         if self._sparse:
-            self._check_for_unresolved_graphs()
+            self._check_for_unresolved_graphs(data)
             
         return self._id2graph
 
@@ -95,7 +95,7 @@ class XmlGraphbankParser(object):
         if unresolved:
             msg = ( "graphs with the following id's were not found"
                     ' in graphbank file "{0}": {1}'.format(
-                        inf.name, 
+                        getattr(inf, "name", "<string>"), 
                         ", ".join(unresolved) ))
             raise DaesoError(msg)
         
-- 
2.43.0


From 7a2728669b9a5bc78f4c033cef852739d0bcf09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:37 +0000
Subject: [PATCH 24/56] fix: comparing words only in pgc_diff raised
 AttributeError

---
 lib/daeso/pgc/diff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index cf2d5b5..06053ae 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -77,7 +77,7 @@ def pgc_diff(corpus1, corpus2,
         
         for nodes, rel1 in graph_pair1.alignments_iter(relations=relations):
             if ( words_only and
-                 graphs.source.node_node_is_non_terminal(nodes.source) and
+                 graphs.source.node_is_non_terminal(nodes.source) and
                  graphs.target.node_is_non_terminal(nodes.target) ):
                 continue
             
-- 
2.43.0


From a9f4e0e546961f60916802c75eda97ea435ed9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:37 +0000
Subject: [PATCH 25/56] fix: ielemtree run as a script passed an unknown
 argument

---
 lib/daeso/ptc/ielemtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/ptc/ielemtree.py b/lib/daeso/ptc/ielemtree.py
index 47fee79..b2a9d15 100644
--- a/lib/daeso/ptc/ielemtree.py
+++ b/lib/daeso/ptc/ielemtree.py
@@ -135,7 +135,7 @@ class IndexElemTree(ElementTree):
 
 if __name__ == '__main__':    
     from sys import argv, stdout
-    tree = IndexElemTree(file=argv[1])
+    tree = IndexElemTree(argv[1])
     tree.update()
     # TODO: cannot write tree because _alignment attribute has non-string value
     # tree.write(stdout)
-- 
2.43.0


From d1aca4d54e6232d4a5870ed7cb4d1f5ca19c255c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:00 +0000
Subject: [PATCH 26/56] fix: the root attribute of GraphML graphs was not set
 as their root

---
 lib/daeso/gb/graphml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/gb/graphml.py b/lib/daeso/gb/graphml.py
index 792d3c5..0cb3730 100644
--- a/lib/daeso/gb/graphml.py
+++ b/lib/daeso/gb/graphml.py
@@ -161,7 +161,7 @@ class GraphmlParser(XmlGraphbankParser):
             
             # set the root node, defined as a graph attribute like 
             # <data key="root">n0</data>
-            self._graph.root = self._graph.graph.get("graph")
+            self._graph.root = self._graph.graph.get("root")
             
             self._graph = None
             self._comp_attrs = None
-- 
2.43.0


From cd50994d9939c90215c35669ca8fb8aa5b577ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:00 +0000
Subject: [PATCH 27/56] fix: GraphML data following a node or edge raised
 TypeError

---
 lib/daeso/gb/graphml.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/gb/graphml.py b/lib/daeso/gb/graphml.py
index 0cb3730..77399d1 100644
--- a/lib/daeso/gb/graphml.py
+++ b/lib/daeso/gb/graphml.py
@@ -144,8 +144,10 @@ class GraphmlParser(XmlGraphbankParser):
         if tag == "graph":
             self._end_graph()
         elif self._graph_wanted():
-            if tag in "node":
+            if tag == "node":
                 self._end_node()
+            elif tag == "edge":
+                self._end_edge()
             elif tag == "data":
                 self._end_data()
             elif tag == "default":
@@ -175,11 +177,13 @@ class GraphmlParser(XmlGraphbankParser):
             raise DaesoError("node must have a 'tokens' attribute")
         
         self._node = None
-        self._comp_attrs = None
+        # back to the enclosing graph
+        self._comp_attrs = self._graph.graph
         
         
-    def end_edge(self):
-        self._comp_attrs = None
+    def _end_edge(self):
+        # back to the enclosing graph
+        self._comp_attrs = self._graph.graph
     
      
     def _end_data(self):
-- 
2.43.0


From 7596b04e88e5ae8226bfe6a7bdd446b894898f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:00 +0000
Subject: [PATCH 28/56] fix: GraphML default values were never recorded

---
 lib/daeso/gb/graphml.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/gb/graphml.py b/lib/daeso/gb/graphml.py
index 77399d1..ed5eb18 100644
--- a/lib/daeso/gb/graphml.py
+++ b/lib/daeso/gb/graphml.py
@@ -119,8 +119,8 @@ class GraphmlParser(XmlGraphbankParser):
         # temporarily assign None to required arg label
         self._graph.add_node(n, label=None)
         self._comp_attrs = self._graph.node[n]
-        self._set_defaults()
         self._node = n 
+        self._set_defaults()
         
             
     def _start_edge(self, attrs):
@@ -143,6 +143,8 @@ class GraphmlParser(XmlGraphbankParser):
     def _end_element(self, tag):
         if tag == "graph":
             self._end_graph()
+        elif tag == "default":
+            self._end_default()
         elif self._graph_wanted():
             if tag == "node":
                 self._end_node()
@@ -150,8 +152,6 @@ class GraphmlParser(XmlGraphbankParser):
                 self._end_edge()
             elif tag == "data":
                 self._end_data()
-            elif tag == "default":
-                self._end_default()
                 
         self._context.pop()
         
@@ -210,7 +210,7 @@ class GraphmlParser(XmlGraphbankParser):
         
  
     def _char_data(self, data):
-        if self._graph_wanted():
+        if self._graph_wanted() or self._context[-1] == "default":
             self._char_data_buf += data   
             
             
-- 
2.43.0


From aa742865665c49a225b1584db453d544cb4b28e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:00 +0000
Subject: [PATCH 29/56] fix: graphbank parsers crashed without a graph table or
 ignored an empty one

---
 lib/daeso/gb/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/gb/parser.py b/lib/daeso/gb/parser.py
index 865e2e7..8aa731b 100644
--- a/lib/daeso/gb/parser.py
+++ b/lib/daeso/gb/parser.py
@@ -55,7 +55,7 @@ class XmlGraphbankParser(object):
         
     def parse_string(self, data, id2graph=None, sparse=False):
         # supports incremental parsing
-        self._id2graph = id2graph or {}
+        self._id2graph = id2graph if id2graph is not None else {}
         self._sparse = sparse
 
         self._parser.Parse(data, 0)
@@ -75,7 +75,7 @@ class XmlGraphbankParser(object):
         if not hasattr(inf, "read"):
             inf = open(inf)
             
-        self._id2graph = id2graph
+        self._id2graph = id2graph if id2graph is not None else {}
         self._sparse = sparse
         
         self._parser.ParseFile(inf)
-- 
2.43.0


From 05e221f38eb259d0d3034ddb11caf25f9eb4f818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:00 +0000
Subject: [PATCH 30/56] fix: reporting a wrong client of a graph stub raised a
 format error

---
 lib/daeso/gb/graphstub.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/gb/graphstub.py b/lib/daeso/gb/graphstub.py
index f3a1da5..6acb177 100644
--- a/lib/daeso/gb/graphstub.py
+++ b/lib/daeso/gb/graphstub.py
@@ -92,7 +92,7 @@ class GraphStub(object):
             elif graph_pair._graphs.target is self:
                 graph_pair._graphs.target = graph
             else:
-                raise ValueError( "{0} is no client of {}".format(
+                raise ValueError( "{0} is no client of {1}".format(
                     graph_pair, self))
         
         # If any of the graph pairs is deleted while for some reason the graph
-- 
2.43.0


From 6ae6cdda30d5983362faf7f506fdc7035b991a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:18 +0000
Subject: [PATCH 31/56] fix: pickled agreement results were left in an unclosed
 file

---
 lib/daeso/pgc/agreement.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/daeso/pgc/agreement.py b/lib/daeso/pgc/agreement.py
index b3e34b7..5f09f54 100644
--- a/lib/daeso/pgc/agreement.py
+++ b/lib/daeso/pgc/agreement.py
@@ -53,7 +53,8 @@ def run_eval(corpus_fns, annotators, pickle_fn=None, words_only=False):
     write_tables(tables)
     
     if pickle_fn:
-        pickle.dump((align_eval, tables), open(pickle_fn, "wb"))
+        with open(pickle_fn, "wb") as pickle_file:
+            pickle.dump((align_eval, tables), pickle_file)
         
     return align_eval, tables
 
@@ -94,7 +95,8 @@ def tableize(align_eval, pickle_fn=None):
             am.calculate_statistics()
             
     if pickle_fn:
-        pickle.dump(tables, open(pickle_fn, "wb"))
+        with open(pickle_fn, "wb") as pickle_file:
+            pickle.dump(tables, pickle_file)
         
     return tables
            
@@ -124,7 +126,8 @@ def cross_evaluate(corpus_fns, annotators=None, pickle_fn=None,
     align_eval.run_eval()
         
     if pickle_fn:
-        pickle.dump(align_eval, open(pickle_fn, "wb"))
+        with open(pickle_fn, "wb") as pickle_file:
+            pickle.dump(align_eval, pickle_file)
         
     return align_eval
 
-- 
2.43.0


From 02c3a1e42e736a71ee32873f5205578b0bf00e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:18 +0000
Subject: [PATCH 32/56] fix: AlignEval.write left the file it opened unclosed

---
 lib/daeso/pgc/evaluate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/evaluate.py b/lib/daeso/pgc/evaluate.py
index 7b3c519..e156479 100644
--- a/lib/daeso/pgc/evaluate.py
+++ b/lib/daeso/pgc/evaluate.py
@@ -305,7 +305,9 @@ class AlignEval(dict):
         write full evaluation 
 	"""
         if isinstance(out, basestring):
-            out = open(out, "w")
+            with open(out, "w") as out_file:
+                self.write(out_file)
+            return
             
         self.write_alignment_only(out)
         self.write_alignment_per_relation(out)
-- 
2.43.0


From 1b81f028e71130d1266d75d32d181a76d3da011b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:18 +0000
Subject: [PATCH 33/56] fix: HitaextDoc.write left the file it opened unclosed

---
 lib/daeso/ptc/document.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/ptc/document.py b/lib/daeso/ptc/document.py
index 3296cdb..6c50632 100644
--- a/lib/daeso/ptc/document.py
+++ b/lib/daeso/ptc/document.py
@@ -175,7 +175,9 @@ class HitaextDoc(ElementTree):
         # ElementTree.write does not write the XML header
         # if the encoding is utf-8
         if not hasattr(file, "write"):
-            file = open(file, "w")
+            with open(file, "w") as out_file:
+                self.write(out_file, encoding)
+            return
         print >>file, '<?xml version="1.0" encoding="utf-8"?>'
         ElementTree.write(self, file, "utf-8")
     
-- 
2.43.0


From b6224e4d423f5110f7d997cde5430ae69328acdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:18 +0000
Subject: [PATCH 34/56] fix: a statistics table was written to an unclosed file

---
 lib/daeso/stats/corpus.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/stats/corpus.py b/lib/daeso/stats/corpus.py
index 141cde1..ae186b0 100644
--- a/lib/daeso/stats/corpus.py
+++ b/lib/daeso/stats/corpus.py
@@ -170,4 +170,5 @@ def write_table(table, fn, verbose=True):
     """
     if not table.is_empty():
         if verbose: print "Writing table", fn
-        table.write(out=file(fn, "w"))
\ No newline at end of file
+        with open(fn, "w") as out:
+            table.write(out=out)
\ No newline at end of file
-- 
2.43.0


From 97d2a27125d41cdee8e63fc9455526f5c6efd832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:18 +0000
Subject: [PATCH 35/56] fix: the working directory was not restored when
 statistics failed

---
 lib/daeso/stats/corpus.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/lib/daeso/stats/corpus.py b/lib/daeso/stats/corpus.py
index ae186b0..9b05541 100644
--- a/lib/daeso/stats/corpus.py
+++ b/lib/daeso/stats/corpus.py
@@ -134,18 +134,19 @@ def stats(pgc_dir, pgc_files_pattern, with_unaligned_roots=False):
     # must change to dir of pgc files,
     # because paths to gb files are interpreted relative to location of pgc file 
     try:
-        chdir(pgc_dir)
-    except OSError:
-        # dir does not exist
-        # assume there are no files, which results in a empty table
-        pgc_files = []
-    else:
-        pgc_files = glob(pgc_files_pattern)
-        
-    pgc_table, gb_table = pgc_stats(pgc_files, 
-                                    with_unaligned_roots=with_unaligned_roots)
-
-    chdir(cwd)
+        try:
+            chdir(pgc_dir)
+        except OSError:
+            # dir does not exist
+            # assume there are no files, which results in a empty table
+            pgc_files = []
+        else:
+            pgc_files = glob(pgc_files_pattern)
+            
+        pgc_table, gb_table = pgc_stats(
+            pgc_files, with_unaligned_roots=with_unaligned_roots)
+    finally:
+        chdir(cwd)
     
     return  pgc_table, gb_table
     
-- 
2.43.0


From a9cbab24996123fb86028f91f9dbefcdd3094178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:18 +0000
Subject: [PATCH 36/56] fix: reading a statistics table left the file it opened
 unclosed

---
 lib/daeso/stats/table.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/stats/table.py b/lib/daeso/stats/table.py
index 7923f93..7abc618 100644
--- a/lib/daeso/stats/table.py
+++ b/lib/daeso/stats/table.py
@@ -155,7 +155,9 @@ class StatsTable(OrderedDict):
         # doesn't read the summary
                 
         if not hasattr(file, "read"):
-            file = open(file, "r")
+            with open(file, "r") as in_file:
+                self.read(in_file)
+            return
         
         sep_count = 0
         rows = []
-- 
2.43.0


From 958c6972de168ffa9d923061b71a5672ce22f6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:18 +0000
Subject: [PATCH 37/56] fix: writing an element tree left the file it opened
 unclosed

---
 lib/daeso/utils/etree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/utils/etree.py b/lib/daeso/utils/etree.py
index f9ad326..445da8a 100644
--- a/lib/daeso/utils/etree.py
+++ b/lib/daeso/utils/etree.py
@@ -33,7 +33,9 @@ def write(etree, file=sys.stdout, encoding="utf-8", pprint=False):
     even when encoding is the default utf-8
     """
     if not hasattr(file, "write"):
-        file = open(file, "wb")
+        with open(file, "wb") as out_file:
+            write(etree, out_file, encoding, pprint)
+        return
         
     if pprint:
         indent(etree.getroot())
-- 
2.43.0


From 2140ef3febdf5b5a58fb9335119c40824c89b62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:18 +0000
Subject: [PATCH 38/56] fix: graphbank parsers left the file they opened
 unclosed

---
 lib/daeso/gb/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/gb/parser.py b/lib/daeso/gb/parser.py
index 8aa731b..5793ff6 100644
--- a/lib/daeso/gb/parser.py
+++ b/lib/daeso/gb/parser.py
@@ -73,7 +73,8 @@ class XmlGraphbankParser(object):
         
     def parse_file(self, inf, id2graph=None, sparse=False):
         if not hasattr(inf, "read"):
-            inf = open(inf)
+            with open(inf) as in_file:
+                return self.parse_file(in_file, id2graph, sparse)
             
         self._id2graph = id2graph if id2graph is not None else {}
         self._sparse = sparse
-- 
2.43.0


From edf4f70fe3b021bcc014fdd8afe2fa1e39264786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:52 +0000
Subject: [PATCH 39/56] fix: makedirs swallowed every failure of the operating
 system

---
 lib/daeso/utils/opsys.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/utils/opsys.py b/lib/daeso/utils/opsys.py
index 0e70905..5938e58 100644
--- a/lib/daeso/utils/opsys.py
+++ b/lib/daeso/utils/opsys.py
@@ -35,10 +35,10 @@ def makedirs(path, mode=0777):
     """
     try:
         os.makedirs(path, mode)
-    except OSError, inst:
-        if inst.errno == 17:
-            # dir already exists
-            pass
+    except OSError:
+        # tolerate only that the dir already exists
+        if not os.path.isdir(path):
+            raise
         
         
 def glob(pattern):
-- 
2.43.0


From 9887cad9e6eb735fdc7d6972702913e9e6cd657b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:52 +0000
Subject: [PATCH 40/56] fix: importing daeso.string.number printed numbers

---
 lib/daeso/string/number.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/daeso/string/number.py b/lib/daeso/string/number.py
index 269dabd..7870710 100644
--- a/lib/daeso/string/number.py
+++ b/lib/daeso/string/number.py
@@ -156,9 +156,10 @@ def _digit_triple_to_words(digits):
 
     
              
-print spell_out_number(4401)
-print spell_out_number(6028)
-print spell_out_number(271850)
+if __name__ == "__main__":
+    print spell_out_number(4401)
+    print spell_out_number(6028)
+    print spell_out_number(271850)
 
     
     
-- 
2.43.0


From 57a7364d3cf332ea4cc7bcbbffc18e79e2ad31a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:33 +0000
Subject: [PATCH 41/56] fix: the no-cross filter of the text aligner sorted its
 argument in place

---
 lib/daeso/ptc/textalign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/ptc/textalign.py b/lib/daeso/ptc/textalign.py
index a53e686..a7d3bf4 100644
--- a/lib/daeso/ptc/textalign.py
+++ b/lib/daeso/ptc/textalign.py
@@ -435,7 +435,7 @@ def threshold_filter_factory(threshold):
 def no_cross_filter_factory(threshold):
     def func(scores):
         # sort scores in descending order
-        scores.sort(reverse=True)
+        scores = sorted(scores, reverse=True)
         align_indices = []
         filtered_scores = []
         
-- 
2.43.0


From b1931043cb80cdc38dbdf04698e673c4c7b5d30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:33 +0000
Subject: [PATCH 42/56] fix: meta-data without child elements was not written

---
 lib/daeso/pgc/corpus.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index a94d59f..89f891e 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -1117,7 +1117,7 @@ class PGCGenerator(object):
     def _gen_pg_corpus(self, pg_corpus, out_dir, abs_path):
         root_elem = et.Element("parallel_graph_corpus")
         
-        if pg_corpus._meta_data:
+        if pg_corpus._meta_data is not None:
             root_elem.append(pg_corpus._meta_data)
         
         graphbanks_elem = et.SubElement(root_elem, "graphbanks")
@@ -1158,8 +1158,11 @@ class PGCGenerator(object):
                 from_graph_id=graph_pair._graphs.source.id,
                 to_graph_id=graph_pair._graphs.target.id)
             
-            if graph_pair._meta_data:
-                graph_pair_elem.append(graph_pair._meta_data)
+            meta_data = graph_pair._meta_data
+            
+            # graph pairs without meta-data have an empty element
+            if len(meta_data) or meta_data.attrib or meta_data.text:
+                graph_pair_elem.append(meta_data)
             
             self._gen_node_pairs(graph_pair_elem, graph_pair)
                 
-- 
2.43.0


From cc50452809243ce6a2604111e8486abb6bd49ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:33 +0000
Subject: [PATCH 43/56] fix: combining corpora with equal meta-data warned that
 it is discarded

---
 lib/daeso/pgc/corpus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 89f891e..34f0a55 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -696,7 +696,7 @@ class ParallelGraphCorpus(list):
         if self._relations != other._relations:
             raise ValueError("alignment relations of corpora must be identical")
         
-        if self._meta_data != other._meta_data:
+        if not self._meta_data_equal(other):
             warnings.warn("meta data of other corpus is discarded!",
                           DaesoWarning)
         
-- 
2.43.0


From 7ee97f319452277e194481674f71bd4d0a4002c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:17 +0000
Subject: [PATCH 44/56] fix: pgc_stats rejected every token difference
 threshold

---
 bin/pgc_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/pgc_stats.py b/bin/pgc_stats.py
index 9f58b45..02c200c 100755
--- a/bin/pgc_stats.py
+++ b/bin/pgc_stats.py
@@ -91,7 +91,7 @@ parser.add_argument(
 
 parser.add_argument(
     "-t", "--token_diff_threshold", 
-    type="int", 
+    type=int, 
     metavar="THRESHOLD",
     default=0, dest="threshold", 
     help="exclude graph pairs with a token difference below the threshold")
-- 
2.43.0


From 3d4ff1c04a248d0dad2c32e055f0c6163e23ac93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:17 +0000
Subject: [PATCH 45/56] fix: ptc_n_to_id opened the list of its arguments as
 one file

---
 bin/ptc_n_to_id.py | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/bin/ptc_n_to_id.py b/bin/ptc_n_to_id.py
index ef44119..8a24d36 100644
--- a/bin/ptc_n_to_id.py
+++ b/bin/ptc_n_to_id.py
@@ -53,25 +53,25 @@ parser.add_argument(
 
 args = parser.parse_args()
 
-if args.verbose:
-    print >>stderr, "Reading corpus from", args.corpus
+for fn in args.corpus:
+    if args.verbose:
+        print >>stderr, "Reading corpus from", fn
+        
+    corpus = HitaextDoc(file=fn)
     
-corpus = HitaextDoc(file=args.corpus)
-
-from_tree = corpus.get_doc_tree("from")
-to_tree = corpus.get_doc_tree("to")
-
-from_tree.update()
-to_tree.update()
-
-corpus.inject_alignments(from_tree, to_tree)
-
-corpus.alignment.set("method", "id")
-
-corpus.extract_alignments(from_tree, to_tree)
-
-if args.verbose:
-    print >>stderr, "Writing corpus to", args.corpus
+    from_tree = corpus.get_doc_tree("from")
+    to_tree = corpus.get_doc_tree("to")
     
-corpus.write(args.corpus)
-
+    from_tree.update()
+    to_tree.update()
+    
+    corpus.inject_alignments(from_tree, to_tree)
+    
+    corpus.alignment.set("method", "id")
+    
+    corpus.extract_alignments(from_tree, to_tree)
+    
+    if args.verbose:
+        print >>stderr, "Writing corpus to", fn
+        
+    corpus.write(fn)
-- 
2.43.0


From e8a252c77470c7d384540ec994bc4235fec44117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:17 +0000
Subject: [PATCH 46/56] fix: pgc_split made too few parts when the parts divide
 the corpus

---
 bin/pgc_split.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bin/pgc_split.py b/bin/pgc_split.py
index fc5eaa9..ba1d4a3 100755
--- a/bin/pgc_split.py
+++ b/bin/pgc_split.py
@@ -78,7 +78,8 @@ corpus = ParallelGraphCorpus(inf=args.filename)
 root, ext = os.path.splitext(args.filename)
 
 if not args.size:
-    args.size = int(round(len(corpus) / args.parts + 0.5))
+    # round up, so that there are never more parts than asked for
+    args.size = -(-len(corpus) // args.parts) or 1
 
 for i in range(0, len(corpus), args.size): 
     j = min(i + args.size, len(corpus))
-- 
2.43.0


From c556fe2b2082a0b3bec81c5d469e9af8c6bc0cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:41 +0000
Subject: [PATCH 47/56] fix: graphs left out of the statistics were counted as
 failed parses

---
 lib/daeso/gb/gbstats.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/daeso/gb/gbstats.py b/lib/daeso/gb/gbstats.py
index 10b0109..f5bbd8d 100644
--- a/lib/daeso/gb/gbstats.py
+++ b/lib/daeso/gb/gbstats.py
@@ -135,15 +135,11 @@ def graph_stats(gb,
 
     for graph in gb:                                   
         if graph.is_failed_parse():
-            if with_failed_parses:
-                gb_table["CGFP"][i] += 1
-            else:
+            if not with_failed_parses:
                 continue
         
         if not root_aligned(graph):
-            if with_unaligned_roots:
-                gb_table["CGUR"][i] +=1
-            else:
+            if not with_unaligned_roots:
                 continue
             
         if threshold:
@@ -163,6 +159,13 @@ def graph_stats(gb,
             else:
                 gb_table["CGMA"][i] += 1
         
+        # postponed, because the graph might have been discarded
+        if graph.is_failed_parse():
+            gb_table["CGFP"][i] += 1
+            
+        if not root_aligned(graph):
+            gb_table["CGUR"][i] +=1
+        
         gb_table["CG"][i] += 1
         gb_table["CT"][i] += count_tokens(graph, with_punc)
         
-- 
2.43.0


From ad05cab4200c8a8a57e5fbbd47588605b6bdc26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:05 +0000
Subject: [PATCH 48/56] fix: columns of statistics ignored their width and
 precision

---
 lib/daeso/stats/table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/stats/table.py b/lib/daeso/stats/table.py
index 7abc618..4efbea8 100644
--- a/lib/daeso/stats/table.py
+++ b/lib/daeso/stats/table.py
@@ -39,8 +39,8 @@ class Column(list):
         self.type = type
         self.descr = descr
         self.overall = overall
-        self.width = 8
-        self.prec = 2
+        self.width = width
+        self.prec = prec
         
         if size:
             self.grow(size)
-- 
2.43.0


From 1713eacc7270a397805da41b0daf8f601324e631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:23 +0000
Subject: [PATCH 49/56] fix: comparing words only listed phrases of the second
 corpus instead of words

---
 lib/daeso/pgc/diff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index 06053ae..461b82e 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -92,8 +92,8 @@ def pgc_diff(corpus1, corpus2,
             
         for nodes, rel2 in graph_pair2.alignments_iter(relations=relations):
             if ( words_only and
-                 ( graphs.source.node_is_terminal(nodes.source) or
-                   graphs.target.node_is_terminal(nodes.target) )):
+                 graphs.source.node_is_non_terminal(nodes.source) and
+                 graphs.target.node_is_non_terminal(nodes.target) ):
                 continue
             
             if not graph_pair1.get_align(nodes):
-- 
2.43.0


From 9d24cf8bd291f7eba8470855278dbf250325f5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:23 +0000
Subject: [PATCH 50/56] fix: the headings of the corpora and graph pairs were
 left out of a comparison

---
 lib/daeso/pgc/diff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index 461b82e..a8e32e8 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -59,7 +59,7 @@ def pgc_diff(corpus1, corpus2,
     pair_count = 0
     
     header("%s corpus: %s\n%s corpus: %s" % (annot1, corpus_name1, annot2,
-                                             corpus_name2), width=120, char="#")
+                                             corpus_name2), out, width=120, char="#")
     
     for graph_pair1, graph_pair2 in zip(corpus1, corpus2):
         # assume that the corpora have the same graph pairs in the same order,
@@ -103,7 +103,7 @@ def pgc_diff(corpus1, corpus2,
         #if not ( ident and rel_diff and uniq1 and uniq2 and show_comments ):
         #    continue
             
-        header("Graph pair %d" % pair_count, width=120, char="=")
+        header("Graph pair %d" % pair_count, out, width=120, char="=")
         
         print >>out, graphs.source.get_graph_token_string().encode("utf-8"), "\n"
         print >>out, graphs.target.get_graph_token_string().encode("utf-8"), "\n"
-- 
2.43.0


From cd85a1197a3fcaf274e2b12654fad5e63a017061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:23 +0000
Subject: [PATCH 51/56] fix: searching a document file tried the name of the
 Hitaext document itself

---
 lib/daeso/ptc/document.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/ptc/document.py b/lib/daeso/ptc/document.py
index 6c50632..101da2b 100644
--- a/lib/daeso/ptc/document.py
+++ b/lib/daeso/ptc/document.py
@@ -95,7 +95,7 @@ class HitaextDoc(ElementTree):
                 # relative path
                 join(dirname(self.filename), fn),
                 # ignore path, just search in same dir as hitaext document
-                join(dirname(self.filename), basename(self.filename)) 
+                join(dirname(self.filename), basename(fn)) 
             ):
                 if exists(p):
                     return p
-- 
2.43.0


From fff3edca1f490583633dc18aabe01c14dcf94878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:23 +0000
Subject: [PATCH 52/56] fix: ignored elements without children were not marked
 as ignored

---
 lib/daeso/ptc/ielemtree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/ptc/ielemtree.py b/lib/daeso/ptc/ielemtree.py
index b2a9d15..814eea5 100644
--- a/lib/daeso/ptc/ielemtree.py
+++ b/lib/daeso/ptc/ielemtree.py
@@ -98,8 +98,9 @@ class IndexElemTree(ElementTree):
         elem.set("_alignments", [])
         
         if ignore or elem.tag in self.ignoreTags: 
+            elem.set("_ignore", "true")
+            
             for child in elem.getchildren():
-                elem.set("_ignore", "true")
                 self.index_elem(child, ignore=True)
                 
             text = ""
-- 
2.43.0


From e95b6b63cb4370fc4b0ddfc9fdbb2c47c552138a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:23 +0000
Subject: [PATCH 53/56] fix: the punctuation filter of the text aligner looked
 at the whole text

---
 lib/daeso/ptc/textalign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/ptc/textalign.py b/lib/daeso/ptc/textalign.py
index a7d3bf4..aedfd47 100644
--- a/lib/daeso/ptc/textalign.py
+++ b/lib/daeso/ptc/textalign.py
@@ -322,7 +322,7 @@ def preproc_word_n_gram_factory(n):
         # but does not return the tokens lower cased!!!
         text = [ token.lower()
                  for token in text.split()
-                 if text not in string.punctuation ]
+                 if token not in string.punctuation ]
         return n_gram_strings(text, n)
     
     func.__name__ = "preproc_word_%d_gram" % n
-- 
2.43.0


From 012554430ccbcc56414aec6b433e638af6d311d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:13 +0000
Subject: [PATCH 54/56] fix: the border scores of needleman_wunsch did not add
 up the costs of the gaps on the path

---
 lib/daeso/string/needleman_wunsch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/string/needleman_wunsch.py b/lib/daeso/string/needleman_wunsch.py
index 2cac879..081022c 100644
--- a/lib/daeso/string/needleman_wunsch.py
+++ b/lib/daeso/string/needleman_wunsch.py
@@ -78,10 +78,10 @@ def needleman_wunsch(seq1, seq2, sim_score, gap_cost):
     scores = {(0,0): (0, "T")}
     
     for i in range(1, len(seq1) + 1):
-        scores[i, 0] = (gap_cost(seq1[i-1]) * i, "U")
+        scores[i, 0] = (scores[i-1, 0][0] + gap_cost(seq1[i-1]), "U")
     
     for j in range(1, len(seq2) + 1):
-        scores[0, j] = (gap_cost(seq2[j-1]) * j, "L")
+        scores[0, j] = (scores[0, j-1][0] + gap_cost(seq2[j-1]), "L")
     
     for i in range(1, len(seq1) + 1):
         for j in range(1, len(seq2) + 1):
-- 
2.43.0


From 1765924fc1b82ed286258ca584fc25d0269fe7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:52 +0000
Subject: [PATCH 55/56] fix: zero groups of digits were spelled out as
 modifiers or nul

---
 lib/daeso/string/number.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/string/number.py b/lib/daeso/string/number.py
index 7870710..3c0dedf 100644
--- a/lib/daeso/string/number.py
+++ b/lib/daeso/string/number.py
@@ -50,8 +50,10 @@ def spell_out_number(n, prefer_hundreds=True):
     while s:
         triple = s[-3:].rjust(3, "0")
         
-        if i == 0 and triple == "000":
-            words = "nul"
+        if triple == "000":
+            # zeros remain unexpressed, except in "nul"
+            if not n:
+                words = "nul"
         elif i == 1 and triple == "001":
             # 1000 ==> *eenduizend
             words = ( _triple_modifiers[i] + 
-- 
2.43.0


From 701cfac94141bec1cb3bdabf8cfb4164e7531183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:52 +0000
Subject: [PATCH 56/56] fix: preproc_char_n_gram made n-grams of words instead
 of characters

---
 lib/daeso/ptc/textalign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/ptc/textalign.py b/lib/daeso/ptc/textalign.py
index aedfd47..a25946a 100644
--- a/lib/daeso/ptc/textalign.py
+++ b/lib/daeso/ptc/textalign.py
@@ -349,7 +349,7 @@ def preproc_char_n_gram_factory(n):
         text = remove_stopwords(text.lower().split(), 
                                 ignore_case=True, 
                                 remove_punc=True)
-        return n_gram_strings(list(text), n)
+        return n_gram_strings(list(" ".join(text)), n)
     
     func.__name__ = "preproc_char_%d_gram" % n
     return func
-- 
2.43.0

