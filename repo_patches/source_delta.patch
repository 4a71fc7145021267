From 1850b83fc03330701b92d794c20c21dd41050038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:24 +0000
Subject: [PATCH 01/71] fix: allow distributions written without arguments,
 e.g. x ~ norm()

---
 src/sims_pars/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/util.py b/src/sims_pars/util.py
index 4d08de6..a83e4db 100644
--- a/src/sims_pars/util.py
+++ b/src/sims_pars/util.py
@@ -189,7 +189,7 @@ class ParsedFunction:
 
     @property
     def Parents(self):
-        return set.union(*[arg['value'].Var for arg in self.Arguments])
+        return set().union(*[arg['value'].Var for arg in self.Arguments])
 
     def to_json(self, loc=None):
         return {
-- 
2.43.0


From 496a330d102dbbaeba19322d5e0b7c455fbddf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:26 +0000
Subject: [PATCH 02/71] fix: a value other than the constant is impossible
 under k(), not infinitely likely

---
 src/sims_pars/prob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/prob.py b/src/sims_pars/prob.py
index a87605c..44591a2 100644
--- a/src/sims_pars/prob.py
+++ b/src/sims_pars/prob.py
@@ -163,7 +163,7 @@ class Const(AbsDistribution):
         return self.K
 
     def logpdf(self, v):
-        return 0 if v == self.K else float('inf')
+        return 0 if v == self.K else - float('inf')
 
     def mean(self):
         return self.K
-- 
2.43.0


From d840c1a82291e9b5becb3ad75d181e6da54220a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:29 +0000
Subject: [PATCH 03/71] fix: normalise the weights of cat() in its log
 probability, as in its sampler

---
 src/sims_pars/prob.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/prob.py b/src/sims_pars/prob.py
index 44591a2..31f0026 100644
--- a/src/sims_pars/prob.py
+++ b/src/sims_pars/prob.py
@@ -201,10 +201,11 @@ class CategoricalRV(AbsDistribution):
         return 'Category'
 
     def logpdf(self, v):
+        kp = dict(zip(self.cat, self.p))
         try:
-            return np.array([x*np.log(self.kv[k]) for k, x in v.items()]).sum()
+            return np.array([x*np.log(kp[k]) for k, x in v.items()]).sum()
         except AttributeError:
-            return np.log(self.kv[v])
+            return np.log(kp[v])
 
     def sample(self, n=1, **kwargs):
         sam = rd.choice(self.cat, n, p=self.p)
-- 
2.43.0


From 69e8d9cf4ea18283feba3138556fc9336814fd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:32 +0000
Subject: [PATCH 04/71] fix: repr of a distribution without source has to be a
 string

---
 src/sims_pars/prob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/prob.py b/src/sims_pars/prob.py
index 31f0026..3b61714 100644
--- a/src/sims_pars/prob.py
+++ b/src/sims_pars/prob.py
@@ -70,7 +70,7 @@ class AbsDistribution(metaclass=ABCMeta):
         if self.source:
             return repr(self.source)
         else:
-            return id(self)
+            return str(id(self))
 
     __str__ = __repr__
 
-- 
2.43.0


From ec16167911ec495a5b39c4e14315db7556c72f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:12 +0000
Subject: [PATCH 05/71] fix: keep text arguments quoted when completing a
 definition

---
 src/sims_pars/factory/craftstation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/factory/craftstation.py b/src/sims_pars/factory/craftstation.py
index ed63a0f..46c33f5 100644
--- a/src/sims_pars/factory/craftstation.py
+++ b/src/sims_pars/factory/craftstation.py
@@ -30,7 +30,7 @@ class Atelier:
         tp = inputs.func.id
         req = self.Creators[tp].schema()['properties']
 
-        args = [arg.value if isinstance(arg, ast.Constant) else ast.unparse(arg) for arg in inputs.args]
+        args = [ast.unparse(arg) for arg in inputs.args]
 
         named = [arg.arg for arg in inputs.keywords]
         unnamed = {k: v for k, v in req.items() if k not in named}
@@ -47,7 +47,7 @@ class Atelier:
             try:
                 v = args[i]
             except IndexError:
-                v = v['default']
+                v = repr(v['default'])
             temp.append(f'{k}={v}')
 
         unnamed = f'({", ".join(temp)}'
-- 
2.43.0


From ba199e4f6a6f59cd0f40ce61c2fdb707167586bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:15 +0000
Subject: [PATCH 06/71] fix: creating an object must not register __builtins__
 as a product

---
 src/sims_pars/factory/craftstation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/factory/craftstation.py b/src/sims_pars/factory/craftstation.py
index 46c33f5..bd10b5d 100644
--- a/src/sims_pars/factory/craftstation.py
+++ b/src/sims_pars/factory/craftstation.py
@@ -58,7 +58,7 @@ class Atelier:
     def get_blueprint(self, seq, loc=None, to_complete=True):
         if to_complete:
             seq = self.complete_def(seq)
-        return eval(seq, self.Creators, loc)
+        return eval(seq, dict(self.Creators), loc)
 
     def create(self, seq, loc=None, append_src=False, to_complete=True):
         bp = self.get_blueprint(seq, loc=loc, to_complete=to_complete)
-- 
2.43.0


From 5b055cf871373c4c068799c66ca1400f687e806e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:17 +0000
Subject: [PATCH 07/71] fix: variables sharing names with distributions must
 not shadow them

---
 src/sims_pars/bayesnet/loci.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/bayesnet/loci.py b/src/sims_pars/bayesnet/loci.py
index 8e92d90..d6e61c0 100644
--- a/src/sims_pars/bayesnet/loci.py
+++ b/src/sims_pars/bayesnet/loci.py
@@ -126,10 +126,18 @@ class DistributionLoci(Loci):
         return self.Func
 
     def get_distribution(self, pas=None):
+        # only the parents, as other variables may share their names with distributions
+        loc = dict()
+        for pa in self.Parents:
+            try:
+                loc[pa] = pas[pa]
+            except (KeyError, TypeError):
+                pass
+
         try:
-            return parse_distribution(self.Func, loc=pas)
+            return parse_distribution(self.Func, loc=loc)
         except KeyError:
-            return find_data_sampler(self.Func.Function, loc=pas)
+            return find_data_sampler(self.Func.Function, loc=loc)
 
     def render(self, pas=None):
         return self.get_distribution(pas).sample()
-- 
2.43.0


From b70025908484524d563bafdd458337827310c8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:20 +0000
Subject: [PATCH 08/71] fix: make registered data functions usable as random
 variables

---
 src/sims_pars/bayesnet/loci.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/bayesnet/loci.py b/src/sims_pars/bayesnet/loci.py
index d6e61c0..849e5f7 100644
--- a/src/sims_pars/bayesnet/loci.py
+++ b/src/sims_pars/bayesnet/loci.py
@@ -113,8 +113,13 @@ class ExoValueLoci(Loci):
 class DistributionLoci(Loci):
     def __init__(self, name, val, pas=None):
         Loci.__init__(self, name)
-        self.Func = complete_function(val)
         self.Parsed = parse_function(val)
+        try:
+            self.Func = complete_function(val)
+        except KeyError:
+            if self.Parsed.Function not in DATA_FUNC:
+                raise
+            self.Func = val
         self.__parents = pas if pas else self.Parsed.Parents
 
     @property
@@ -137,7 +142,7 @@ class DistributionLoci(Loci):
         try:
             return parse_distribution(self.Func, loc=loc)
         except KeyError:
-            return find_data_sampler(self.Func.Function, loc=loc)
+            return find_data_sampler(self.Parsed.Function, loc=loc)
 
     def render(self, pas=None):
         return self.get_distribution(pas).sample()
-- 
2.43.0


From 261629359feb23b5973831b0161c803ee5249486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:51 +0000
Subject: [PATCH 09/71] fix: keep the requirements that reach the target around
 a given node

---
 src/sims_pars/bayesnet/dag.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/bayesnet/dag.py b/src/sims_pars/bayesnet/dag.py
index a671f0a..9c244db 100644
--- a/src/sims_pars/bayesnet/dag.py
+++ b/src/sims_pars/bayesnet/dag.py
@@ -161,11 +161,13 @@ def minimal_dag(g, nodes):
 def minimal_requirements(g, target, cond):
     anc = set(g.ancestors(target))
 
+    # a given node screens off what is behind it, but only along the paths through it
+    mi = nx.DiGraph(g)
     for s in cond:
         if s in anc:
-            anc.difference_update(g.ancestors(s))
+            mi.remove_edges_from(list(mi.in_edges(s)))
 
-    return g.sort(anc)
+    return g.sort(nx.ancestors(mi, target))
 
 
 def get_sufficient_nodes(g, included, given=None):
-- 
2.43.0


From c858f2829eb1779d66ee27f4167b2aa1a437083d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:54 +0000
Subject: [PATCH 10/71] fix: no nodes have no upstream, downstream, offsprings
 or requirements

---
 src/sims_pars/bayesnet/dag.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims_pars/bayesnet/dag.py b/src/sims_pars/bayesnet/dag.py
index 9c244db..ffc523c 100644
--- a/src/sims_pars/bayesnet/dag.py
+++ b/src/sims_pars/bayesnet/dag.py
@@ -51,7 +51,7 @@ class DAG(nx.DiGraph):
         :param nodes: targeted nodes
         :return: a set of offspring nodes
         """
-        return set.union(*[self.ancestors(d) for d in nodes])
+        return set().union(*[self.ancestors(d) for d in nodes])
 
     def downstream(self, nodes):
         """
@@ -59,7 +59,7 @@ class DAG(nx.DiGraph):
         :param nodes: targeted nodes
         :return: a set of offspring nodes
         """
-        return set.union(*[self.descendants(d) for d in nodes])
+        return set().union(*[self.descendants(d) for d in nodes])
 
     def roots(self):
         """
@@ -186,7 +186,7 @@ def get_sufficient_nodes(g, included, given=None):
         for pa in pas:
             mi.remove_edge(pa, nod)
     # find the nodes supporting the included nodes
-    return set.union(*[nx.ancestors(mi, nod) for nod in included]).union(included)
+    return set().union(*[nx.ancestors(mi, nod) for nod in included]).union(included)
 
 
 def get_minimal_nodes(g, included, given=None):
@@ -209,7 +209,7 @@ def get_offsprings(g, nodes):
     :param nodes: targeted nodes
     :return: a set of offspring nodes
     """
-    return set.union(*[g.descendants(d) for d in nodes])
+    return set().union(*[g.descendants(d) for d in nodes])
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 278cd9924967e61054bbb07409e7d4b2a5756f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:55 +0000
Subject: [PATCH 11/71] fix: remove_upstream / remove_downstream remove the
 whole and the right side

---
 src/sims_pars/bayesnet/dag.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/sims_pars/bayesnet/dag.py b/src/sims_pars/bayesnet/dag.py
index ffc523c..60d1100 100644
--- a/src/sims_pars/bayesnet/dag.py
+++ b/src/sims_pars/bayesnet/dag.py
@@ -116,24 +116,13 @@ class DAG(nx.DiGraph):
         if not isinstance(nodes, list):
             nodes = [nodes]
         nodes = set(nodes)
-        od = self.order()
-        for s in od:
-            if s in nodes:
-                continue
-            if nodes.intersection(self.ancestors(s)):
-                self.remove_node(s)
+        self.remove_nodes_from(self.upstream(nodes) - nodes)
 
     def remove_downstream(self, nodes):
         if not isinstance(nodes, list):
             nodes = [nodes]
         nodes = set(nodes)
-        od = self.order()
-        od.reverse()
-        for s in od:
-            if s in nodes:
-                continue
-            if nodes.intersection(self.descendants(s)):
-                self.remove_node(s)
+        self.remove_nodes_from(self.downstream(nodes) - nodes)
 
     def __str__(self):
         return 'DAG({})'.format(', '.join(self.order()))
-- 
2.43.0


From c8a24c3905a170b3013440777c685becd4b3d971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:28 +0000
Subject: [PATCH 12/71] fix: restore Bayesian networks from their json form

---
 src/sims_pars/bayesnet/bn.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/sims_pars/bayesnet/bn.py b/src/sims_pars/bayesnet/bn.py
index 124f6dd..543a7c8 100644
--- a/src/sims_pars/bayesnet/bn.py
+++ b/src/sims_pars/bayesnet/bn.py
@@ -320,11 +320,5 @@ def bayes_net_from_json(js):
 
     for node in js['Nodes']:
         bn.append_from_js(node)
-    nx.freeze(bn)
-    bn.json = js
-    bn.__order = js['Order']
-    bn.__roots = js['Roots']
-    bn.__rv_roots = js['RVRoots']
-    bn.__leaves = js['Leaves']
-    bn.__exo = js['Exo']
+    bn.complete()
     return bn
-- 
2.43.0


From 764c55b0c8c01a87a28f7871d4e22c18f6ea0959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:31 +0000
Subject: [PATCH 13/71] fix: keep the descriptions of variables in json, copies
 and merges

---
 src/sims_pars/bayesnet/bn.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/sims_pars/bayesnet/bn.py b/src/sims_pars/bayesnet/bn.py
index 543a7c8..cf8daf6 100644
--- a/src/sims_pars/bayesnet/bn.py
+++ b/src/sims_pars/bayesnet/bn.py
@@ -27,8 +27,16 @@ def find_exo(bn):
     return [k for k, v in bn.DAG.nodes.data() if isinstance(v['loci'], ExoValueLoci)]
 
 
+def node_to_js(bn, node):
+    dat = bn.DAG.nodes[node]
+    js = dat['loci'].to_json()
+    if 'Des' in dat:
+        js['Des'] = dat['Des']
+    return js
+
+
 def form_js(bn):
-    nodes = [bn.DAG.nodes[node]['loci'].to_json() for node in bn.DAG.nodes()]
+    nodes = [node_to_js(bn, node) for node in bn.DAG.nodes()]
     return {
         'Name': bn.Name,
         'Nodes': nodes,
@@ -241,7 +249,7 @@ class BayesianNetwork:
                 continue
             if node in bn:
                 bn.DAG.remove_node(node)
-            bn.append_from_js(sub_bn[node].to_json())
+            bn.append_from_js(node_to_js(sub_bn, node))
 
         bn.__check_edges()
         bn.UserDefinedFunctions.update(self.UserDefinedFunctions)
@@ -276,7 +284,7 @@ class BayesianNetwork:
 
         else:
             for node in self.DAG.nodes():
-                bn.append_from_js(self[node].to_json())
+                bn.append_from_js(node_to_js(self, node))
         bn.UserDefinedFunctions.update(self.UserDefinedFunctions)
         return bn
 
-- 
2.43.0


From e28d879cbb5ec2fc8e6e5c9226d06f2d597ff515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:50 +0000
Subject: [PATCH 14/71] fix: clone a Bayesian network with its user defined
 functions

---
 src/sims_pars/bayesnet/bn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sims_pars/bayesnet/bn.py b/src/sims_pars/bayesnet/bn.py
index cf8daf6..38733d8 100644
--- a/src/sims_pars/bayesnet/bn.py
+++ b/src/sims_pars/bayesnet/bn.py
@@ -225,7 +225,9 @@ class BayesianNetwork:
         return [node for node in self.Order if node in nodes]
 
     def clone(self):
-        return bayes_net_from_json(self.to_json())
+        bn = bayes_net_from_json(self.to_json())
+        bn.UserDefinedFunctions.update(self.UserDefinedFunctions)
+        return bn
 
     def to_json(self):
         return self.json if self.is_frozen() else form_js(self)
-- 
2.43.0


From ebb4f791c58c6e7cbe15d24166690ad9860e6382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:52 +0000
Subject: [PATCH 15/71] fix: read scripts indented with tabs or having comment
 lines

---
 src/sims_pars/bayesnet/bn.py   | 2 +-
 src/sims_pars/bayesnet/loci.py | 8 ++------
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/sims_pars/bayesnet/bn.py b/src/sims_pars/bayesnet/bn.py
index 38733d8..c39080f 100644
--- a/src/sims_pars/bayesnet/bn.py
+++ b/src/sims_pars/bayesnet/bn.py
@@ -302,7 +302,7 @@ def bayes_net_from_script(script):
     :return: BayesianNetwork
     """
     lines = script.split('\n')
-    lines = [line.replace(' ', '') for line in lines]
+    lines = [re.sub(r'\s', '', line) for line in lines]
     for line in lines:
         mat = re.match(r'pcore(\w+){', line, re.I)
         if mat:
diff --git a/src/sims_pars/bayesnet/loci.py b/src/sims_pars/bayesnet/loci.py
index 849e5f7..d1e6fe2 100644
--- a/src/sims_pars/bayesnet/loci.py
+++ b/src/sims_pars/bayesnet/loci.py
@@ -258,12 +258,8 @@ def loci_from_json(js):
 
 
 def parse_loci(df):
-    df = df.replace(' ', '')
-
-    if '#' in df:
-        df, des = re.match(r'\A(\S+)#(\S+)', df).groups()
-    else:
-        des = ''
+    df = re.sub(r'\s', '', df)
+    df, _, des = df.partition('#')
 
     if '~' in df:
         name, loci = re.match(r'\A(\w+)~(\S+)', df).groups()
-- 
2.43.0


From 4ece31065f085a23972e3fcf9e4f5a1bc644182c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:00 +0000
Subject: [PATCH 16/71] fix: remove_in_edges removes the incoming edges, so
 that variables can be redefined

---
 src/sims_pars/bayesnet/dag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/bayesnet/dag.py b/src/sims_pars/bayesnet/dag.py
index 60d1100..4f3a29a 100644
--- a/src/sims_pars/bayesnet/dag.py
+++ b/src/sims_pars/bayesnet/dag.py
@@ -110,7 +110,7 @@ class DAG(nx.DiGraph):
         :param node: targeted node
         """
         for par in self.parents(node):
-            self.remove_edge(node, par)
+            self.remove_edge(par, node)
 
     def remove_upstream(self, nodes):
         if not isinstance(nodes, list):
-- 
2.43.0


From edb622ff186465ba8491046332e2e3e7e571f4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:03 +0000
Subject: [PATCH 17/71] fix: merging must keep overridden variables connected
 to their children

---
 src/sims_pars/bayesnet/bn.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/sims_pars/bayesnet/bn.py b/src/sims_pars/bayesnet/bn.py
index c39080f..0794ba0 100644
--- a/src/sims_pars/bayesnet/bn.py
+++ b/src/sims_pars/bayesnet/bn.py
@@ -246,11 +246,13 @@ class BayesianNetwork:
 
         bn = self.copy(name)
         bn.defrost()
-        for node in sub_bn.Order:
-            if sub_bn.is_exogenous(node):
-                continue
+        overriding = [node for node in sub_bn.Order if not sub_bn.is_exogenous(node)]
+        for node in overriding:
             if node in bn:
-                bn.DAG.remove_node(node)
+                # the old definition goes, but the children still need the node
+                bn.DAG.remove_in_edges(node)
+                bn.DAG.nodes[node].pop('Des', None)
+        for node in overriding:
             bn.append_from_js(node_to_js(sub_bn, node))
 
         bn.__check_edges()
-- 
2.43.0


From 14bd8a02c3ac2abfd41f3a4fa8dfe62ae8bbee7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:05 +0000
Subject: [PATCH 18/71] fix: extend with the definitions of the variables
 rather than their names

---
 src/sims_pars/bayesnet/bn.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/bayesnet/bn.py b/src/sims_pars/bayesnet/bn.py
index 0794ba0..eabca8a 100644
--- a/src/sims_pars/bayesnet/bn.py
+++ b/src/sims_pars/bayesnet/bn.py
@@ -269,8 +269,9 @@ class BayesianNetwork:
             ext = list(new_bn.Order)
 
         for node in self.Order:
-            if override or node not in ext:
-                new_bn.append_from_definition(node)
+            if node in ext and (not override or self.is_exogenous(node)):
+                continue
+            new_bn.append_from_js(node_to_js(self, node))
 
         new_bn.complete()
         return new_bn
-- 
2.43.0


From 4c06d5e1b568b05a42e4138ba3979dac968d55e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:07 +0000
Subject: [PATCH 19/71] fix: a rejected cyclic definition leaves the network as
 it was

---
 src/sims_pars/bayesnet/bn.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/sims_pars/bayesnet/bn.py b/src/sims_pars/bayesnet/bn.py
index eabca8a..133646b 100644
--- a/src/sims_pars/bayesnet/bn.py
+++ b/src/sims_pars/bayesnet/bn.py
@@ -80,23 +80,19 @@ class BayesianNetwork:
         #     if not isinstance(self.DAG.nodes[name]['loci'], ExoValueLoci):
         #         raise KeyError('Duplicated variable name')
 
+        # Check acyclic or not
+        causes = self.DAG.descendants(name) if name in self.DAG else set()
+        if any(pa == name or pa in causes for pa in loci.Parents):
+            raise AttributeError('The node causes cyclic paths')
+
         self.DAG.add_node(name, loci=loci, **kwargs)
         self.DAG.remove_in_edges(name)
 
-        new_pa = list()
         for pa in loci.Parents:
             if pa not in self.DAG:
                 self.append_loci(ExoValueLoci(pa))
-                new_pa.append(pa)
             self.DAG.add_edge(pa, name)
 
-        # Check acyclic or not
-        if not self.DAG.check_acyclic():
-            self.DAG.remove_node(name)
-            for pa in new_pa:
-                self.DAG.remove_node(pa)
-            raise AttributeError('The node causes cyclic paths')
-
     def append_from_js(self, js):
         loci = loci_from_json(js)
         if 'Des' in js:
-- 
2.43.0


From fc65be2d6e1b00d3b09d9428cbcdf2fe2c6a024f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:18 +0000
Subject: [PATCH 20/71] fix: an impulse on none of the loci changes nothing

---
 src/sims_pars/bayesnet/chromosome.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/bayesnet/chromosome.py b/src/sims_pars/bayesnet/chromosome.py
index fa9450a..9d67bc4 100644
--- a/src/sims_pars/bayesnet/chromosome.py
+++ b/src/sims_pars/bayesnet/chromosome.py
@@ -44,7 +44,7 @@ class Chromosome:
         if bn:
             g = bn.DAG
             imp = {k: v for k, v in new_locus.items() if k in self}
-            shocked = set.union(*[set(nx.descendants(g, k)) for k in imp.keys()])
+            shocked = set().union(*[set(nx.descendants(g, k)) for k in imp.keys() if k in g])
             non_imp = [k for k, v in imp.items() if v is None]
             imp = {k: v for k, v in imp.items() if v is not None}
             shocked.difference_update(imp.keys())
-- 
2.43.0


From b1019a9f555e569f40404b2c236ba45cf26f7f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:20 +0000
Subject: [PATCH 21/71] fix: chromosomes and parameter cores can be copied and
 pickled

---
 src/sims_pars/bayesnet/chromosome.py | 3 ---
 src/sims_pars/simulation/parcore.py  | 6 ------
 2 files changed, 9 deletions(-)

diff --git a/src/sims_pars/bayesnet/chromosome.py b/src/sims_pars/bayesnet/chromosome.py
index 9d67bc4..f2a57be 100644
--- a/src/sims_pars/bayesnet/chromosome.py
+++ b/src/sims_pars/bayesnet/chromosome.py
@@ -81,9 +81,6 @@ class Chromosome:
         loc = [('{}: {:g}' if isinstance(v, float) else '{}: {}').format(k, v) for k, v in self.Locus.items()]
         return ", ".join(loc)
 
-    def __dict__(self):
-        return dict(self.Locus)
-
     def to_json(self):
         return {
             'Locus': self.Locus,
diff --git a/src/sims_pars/simulation/parcore.py b/src/sims_pars/simulation/parcore.py
index 400a411..f261f60 100644
--- a/src/sims_pars/simulation/parcore.py
+++ b/src/sims_pars/simulation/parcore.py
@@ -201,9 +201,6 @@ class ParameterCore(Chromosome):
         if shocked_locus:
             self.reset_probability()
 
-    def __dict__(self):
-        return dict(self.Locus)
-
     def reset_sc(self, sc):
         self.SG = sc[self.SG.Name]
         for v in self.Children.values():
@@ -408,9 +405,6 @@ class PseudoParameterCore(ParameterCore):
             else:
                 self.Locus[k] = s.render(self.Locus, **exo)
 
-    def __dict__(self):
-        return dict()
-
     def reset_sc(self, sc):
         pass
 
-- 
2.43.0


From 13f605b8cda978cdf5a402b741c99ef6ff6d4880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:22 +0000
Subject: [PATCH 22/71] fix: clone parameter cores and report log priors with
 the attribute they have

---
 src/sims_pars/simulation/parcore.py   | 11 +++--------
 src/sims_pars/simulation/simugroup.py |  2 +-
 2 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/sims_pars/simulation/parcore.py b/src/sims_pars/simulation/parcore.py
index f261f60..8c8de61 100644
--- a/src/sims_pars/simulation/parcore.py
+++ b/src/sims_pars/simulation/parcore.py
@@ -198,9 +198,6 @@ class ParameterCore(Chromosome):
         for v in self.Children.values():
             v.__set_response(imp, shocked)
 
-        if shocked_locus:
-            self.reset_probability()
-
     def reset_sc(self, sc):
         self.SG = sc[self.SG.Name]
         for v in self.Children.values():
@@ -212,7 +209,7 @@ class ParameterCore(Chromosome):
         Log prior with that of offsprings
         :return: log prior probability
         """
-        return self.LogPrior + sum(v.DeepLogPrior for v in self.Children.values())
+        return self.LogProb + sum(v.DeepLogPrior for v in self.Children.values())
 
     def __iter__(self):
         if self.Parent:
@@ -248,8 +245,7 @@ class ParameterCore(Chromosome):
         else:
             sg = self.SG
         pc_new = sg.generate(self.Nickname, exo=dict(self))
-        pc_new.LogLikelihood = self.LogLikelihood
-        pc_new.LogPrior = self.LogPrior
+        pc_new.LogProb = self.LogProb
 
         if include_children:
             self.__children_copy(pc_new)
@@ -260,8 +256,7 @@ class ParameterCore(Chromosome):
         for k, chd in self.Children.items():
             gp = chd.Group
             chd_new = pc_new.breed(k, gp, exo=chd.Locus)
-            chd_new.LogPrior = chd.LogPrior
-            chd_new.LogLikelihood = chd.LogLikelihood
+            chd_new.LogProb = chd.LogProb
             chd.__children_copy(chd_new)
 
 
diff --git a/src/sims_pars/simulation/simugroup.py b/src/sims_pars/simulation/simugroup.py
index d843ba8..c8a0f8c 100644
--- a/src/sims_pars/simulation/simugroup.py
+++ b/src/sims_pars/simulation/simugroup.py
@@ -91,7 +91,7 @@ class SimulationGroup:
                 loci.fill(pc)
             prior += loci.evaluate(pc)
 
-        pc.LogPrior = prior
+        pc.LogProb = prior
 
         for act in actors:
             pc.Actors[act].update(pc)
-- 
2.43.0


From 47f81f8c6e676a9d092c4584bee5423ac4dc0a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:24 +0000
Subject: [PATCH 23/71] fix: duplicating a parameter core breeds from its
 parent

---
 src/sims_pars/simulation/parcore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/simulation/parcore.py b/src/sims_pars/simulation/parcore.py
index 8c8de61..2e820ca 100644
--- a/src/sims_pars/simulation/parcore.py
+++ b/src/sims_pars/simulation/parcore.py
@@ -61,7 +61,7 @@ class ParameterCore(Chromosome):
     def duplicate(self, nickname):
         if not self.Parent:
             raise AttributeError('Root node can not be duplicated')
-        return self.Parent.bread(nickname, self.Group, exo=self.Locus)
+        return self.Parent.breed(nickname, self.Group, exo=self.Locus)
 
     def detach_from_parent(self, collect_pars=False):
         """
-- 
2.43.0


From 2d8a0085372de387c059984d92b646f80dbbb3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:26 +0000
Subject: [PATCH 24/71] fix: a detached parameter core collects what it read
 from its parent

---
 src/sims_pars/simulation/parcore.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sims_pars/simulation/parcore.py b/src/sims_pars/simulation/parcore.py
index 2e820ca..99d75af 100644
--- a/src/sims_pars/simulation/parcore.py
+++ b/src/sims_pars/simulation/parcore.py
@@ -72,9 +72,10 @@ class ParameterCore(Chromosome):
             return
         self.Parent.remove_children(self.Nickname)
         if collect_pars:
-            for k, v in self.Parent:
-                self[k] = v
-            self.SG.set_local_actors(self)
+            for k, v in dict(iter(self.Parent)).items():
+                if k not in self.Locus:
+                    self[k] = v
+            self.SG.put_local_actors(self)
 
         self.Parent = None
 
-- 
2.43.0


From 3e2af4acbc69d4bd7f1f46116fcf6d17bf4a9ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:27 +0000
Subject: [PATCH 25/71] fix: get_child_samplers and reset_sc call what exists

---
 src/sims_pars/simulation/parcore.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sims_pars/simulation/parcore.py b/src/sims_pars/simulation/parcore.py
index 99d75af..aacfe23 100644
--- a/src/sims_pars/simulation/parcore.py
+++ b/src/sims_pars/simulation/parcore.py
@@ -135,8 +135,9 @@ class ParameterCore(Chromosome):
 
         try:
             ca = self.ChildrenActors[group]
-        except KeyError:
-            ca = self.SG.SC[group].get_shared_actors(self)
+        except (KeyError, TypeError):
+            self.SG.SC[group].put_shared_actors_on_parent(self)
+            ca = self.ChildrenActors[group]
         return ca
 
     def find_descendant(self, address):
@@ -202,7 +203,7 @@ class ParameterCore(Chromosome):
     def reset_sc(self, sc):
         self.SG = sc[self.SG.Name]
         for v in self.Children.values():
-            v.reset_sc(self, sc)
+            v.reset_sc(sc)
 
     @property
     def DeepLogPrior(self):
-- 
2.43.0


From 8aa8ed377470aa2aa123fa3f87b484653a620ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:29 +0000
Subject: [PATCH 26/71] fix: fill the exogenous variables of a group with
 values

---
 src/sims_pars/simulation/simugroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/simulation/simugroup.py b/src/sims_pars/simulation/simugroup.py
index c8a0f8c..1798a32 100644
--- a/src/sims_pars/simulation/simugroup.py
+++ b/src/sims_pars/simulation/simugroup.py
@@ -36,7 +36,7 @@ class SimulationGroup:
                 try:
                     vs[d] = parent[d]
                 except (TypeError, KeyError):
-                    vs[d] = self.BN[d].fill(vs)
+                    self.BN[d].fill(vs)
 
         prior = 0
         for d in self.Fixed:
-- 
2.43.0


From 4006b11868b96b7ebcd561293aacf2432c8d92c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:06 +0000
Subject: [PATCH 27/71] fix: locate the undefined variables depending on other
 undefined variables

---
 src/sims_pars/simulation/nodeset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sims_pars/simulation/nodeset.py b/src/sims_pars/simulation/nodeset.py
index fcfc6dc..c1ce773 100644
--- a/src/sims_pars/simulation/nodeset.py
+++ b/src/sims_pars/simulation/nodeset.py
@@ -253,8 +253,11 @@ class NodeSet:
                     self.FloatingNodes.add(node)
                 else:
                     self.FixedNodes.add(node)
+                    gfi.add(node)
+                gfl.add(node)
             elif ps <= gfl:
                 self.FloatingNodes.add(node)
+                gfl.add(node)
             else:
                 to_pass_down.add(node)
         for ch in self.__children.values():
-- 
2.43.0


From 2795ca20bc6d4cc6264cae3d9c0f90e8423fe3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:04 +0000
Subject: [PATCH 28/71] fix: fixed variables stay fixed and computable in the
 groups below

---
 src/sims_pars/simulation/nodeset.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/sims_pars/simulation/nodeset.py b/src/sims_pars/simulation/nodeset.py
index c1ce773..55d5d5b 100644
--- a/src/sims_pars/simulation/nodeset.py
+++ b/src/sims_pars/simulation/nodeset.py
@@ -99,6 +99,7 @@ class NodeSet:
         self._raise_up_floating()
         self._resolve_relations(bn)
         self._locate_undefined(bn)
+        self._settle_fixed_nodes(bn, set())
         self._define_sampler_blueprints(bn)
         self._sort_fixed_nodes(bn)
         self.__frozen = True
@@ -268,6 +269,32 @@ class NodeSet:
         undefined = [node for node in bn.Order if node not in used]
         self._pass_down_undefined(bn, set(), set(), undefined)
 
+    def _settle_fixed_nodes(self, bn, was_fixed):
+        """
+        Make the fixed nodes consistent with those of the groups above:
+        fixed once, computable from fixed nodes only, and not floating any more
+        :param bn: source bayesian network
+        :param was_fixed: nodes fixed by the groups above
+        :return: floating nodes of the group and those below
+        """
+        self.__was_fixed = set(was_fixed)
+        # a fixed node needs every ancestor which has not been fixed yet
+        fixed = dag.get_sufficient_nodes(bn.DAG, self.FixedNodes, was_fixed)
+        self.FixedNodes = fixed - was_fixed
+
+        all_fixed = set.union(self.FixedNodes, was_fixed)
+        self.FloatingNodes.difference_update(all_fixed)
+        self.ListeningNodes.difference_update(self.FixedNodes)
+        if self.__parent:
+            self.ExoNodes = set().union(*[bn[d].Parents for d in self.FixedNodes]) - self.FixedNodes
+
+        self.__will_be_floating = set()
+        for ch in self.__children.values():
+            self.__will_be_floating.update(ch._settle_fixed_nodes(bn, all_fixed))
+        self.__will_be_floating.difference_update(all_fixed)
+
+        return set.union(self.__will_be_floating, self.FloatingNodes)
+
     def _define_sampler_blueprints(self, bn):
         g = bn.DAG
         self.LocalSamplers = dict()
-- 
2.43.0


From e7a4e890fe7c5daf6797efc8a9c63d94b32c71e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:13 +0000
Subject: [PATCH 29/71] fix: stepping a monitor to time zero is not stepping to
 the next time

---
 src/sims_pars/monitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/monitor.py b/src/sims_pars/monitor.py
index 3d8a9a5..c8d05be 100644
--- a/src/sims_pars/monitor.py
+++ b/src/sims_pars/monitor.py
@@ -47,7 +47,7 @@ class Monitor:
         self.Last = dict()
 
     def step(self, time=None):
-        time = time if time else self.Time + 1
+        time = time if time is not None else self.Time + 1
         if time < self.Time:
             raise KeyError('Backward time specified')
         elif time == self.Time:
-- 
2.43.0


From 515a15810c76c7cec589ffd901338697bd3ea358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:15 +0000
Subject: [PATCH 30/71] fix: distances to negative targets are not negative

---
 src/sims_pars/fit/targets/single.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/fit/targets/single.py b/src/sims_pars/fit/targets/single.py
index 5d04d05..17acff7 100644
--- a/src/sims_pars/fit/targets/single.py
+++ b/src/sims_pars/fit/targets/single.py
@@ -14,7 +14,7 @@ class DataPointError(AbsSingleData):
     def __init__(self, name, v, error=0.1):
         AbsSingleData.__init__(self, name, v)
         self.Error = error
-        self.Std = error * v / 2 / 1.96
+        self.Std = error * abs(v) / 2 / 1.96
 
     def get_var_obs(self):
         return self.Std ** 2
-- 
2.43.0


From 258a4b653d8e89778e56a40c89008914419aebac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:17 +0000
Subject: [PATCH 31/71] fix: collect particles in rejection ABC without
 parallel workers

---
 src/sims_pars/fit/abcom/alg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/fit/abcom/alg.py b/src/sims_pars/fit/abcom/alg.py
index e08de05..0a2fe95 100644
--- a/src/sims_pars/fit/abcom/alg.py
+++ b/src/sims_pars/fit/abcom/alg.py
@@ -106,7 +106,7 @@ class ApproxBayesCom(Fitter):
             n_eval = 0
             for _ in tqdm.tqdm(range(n_collect), 'Collect posterior'):
                 _, sim, ne = sample_ess(self.Model, eps)
-                post.append(sim)
+                post.append(Particle.from_json(sim))
                 n_eval += ne
 
         for pt in post.Particles:
-- 
2.43.0


From 24c3659644f4b1c828b3839e88573a065ba8b87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:20 +0000
Subject: [PATCH 32/71] fix: label the results of rejection ABC as they are

---
 src/sims_pars/fit/abcom/alg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/fit/abcom/alg.py b/src/sims_pars/fit/abcom/alg.py
index 0a2fe95..e232c8a 100644
--- a/src/sims_pars/fit/abcom/alg.py
+++ b/src/sims_pars/fit/abcom/alg.py
@@ -93,7 +93,7 @@ class ApproxBayesCom(Fitter):
         state = self.State
         eps = state.Eps
 
-        post = ParameterSet('HME')
+        post = ParameterSet('ABC')
         post.keep('Eps', eps)
 
         if self.Settings['parallel']:
-- 
2.43.0


From bfcef565534bd24160ec0dd757dad31e28d286e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:22 +0000
Subject: [PATCH 33/71] fix: survive impossible or failing proposals in ABC-SMC

---
 src/sims_pars/fit/abc_smc/alg.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/sims_pars/fit/abc_smc/alg.py b/src/sims_pars/fit/abc_smc/alg.py
index 17a097a..0807051 100644
--- a/src/sims_pars/fit/abc_smc/alg.py
+++ b/src/sims_pars/fit/abc_smc/alg.py
@@ -3,6 +3,7 @@ from sims_pars.fit.results import ParameterSet
 import numpy as np
 import numpy.random as rd
 from joblib import Parallel, delayed
+from pydantic import ValidationError
 from tqdm import tqdm
 
 __author__ = 'Chu-Chang Ku'
@@ -69,10 +70,16 @@ def mutate(p0, steps):
 def sample_mutation(model, pt0, steps, unpack=False):
     di = np.Inf
     n_eval = 0
-    p0 = pt0.Pars if isinstance(pt0, Particle) else pt0['Pars']['Locus']
+    if not isinstance(pt0, Particle):
+        pt0 = Particle.from_json(pt0)
+    p0 = pt0.Pars
     while np.isinf(di):
         p1 = mutate(p0, steps)
-        p1 = model.serve(p1)
+        try:
+            p1 = model.serve(p1)
+        except ValidationError:
+            # impossible values for the descendants
+            continue
         if np.isinf(p1.LogProb):
             continue
 
@@ -83,7 +90,7 @@ def sample_mutation(model, pt0, steps, unpack=False):
 
         if n_eval > 20:
             sim = pt0
-            di = pt0['distance']
+            di = model.calc_distance(pt0)
             break
 
     sim = sim.to_json() if unpack else sim
-- 
2.43.0


From d595db57129319d1e811621da5fc004d1f17d230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:24 +0000
Subject: [PATCH 34/71] fix: accepted proposals belong to the posterior of
 ABC-SMC

---
 src/sims_pars/fit/abc_smc/alg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/fit/abc_smc/alg.py b/src/sims_pars/fit/abc_smc/alg.py
index 0807051..2a12c01 100644
--- a/src/sims_pars/fit/abc_smc/alg.py
+++ b/src/sims_pars/fit/abc_smc/alg.py
@@ -329,7 +329,7 @@ class ApproxBayesComSMC(Fitter):
         for pt1, ptp in zip(theta1, theta_p):
             d_p = ptp['distance']
             if d_p < eps:
-                post.append(pt1)
+                post.append(ptp)
             else:
                 post.append(pt1)
 
-- 
2.43.0


From ebeca2c7eeb2ed899a87120c778437db04112f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:26 +0000
Subject: [PATCH 35/71] fix: the domain of a model covers its free parameters
 only

---
 src/sims_pars/fit/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/fit/base.py b/src/sims_pars/fit/base.py
index 03d4d1d..a20c145 100644
--- a/src/sims_pars/fit/base.py
+++ b/src/sims_pars/fit/base.py
@@ -88,7 +88,7 @@ class DataModel(metaclass=ABCMeta):
     def Domain(self):
         p = self.sample_prior()
         res = []
-        for node in self.BayesianNetwork.RVRoots:
+        for node in self.FreeParameters:
             d = self.BayesianNetwork[node].get_distribution(p)
             res.append(Domain(name=node, tp=d.Type, upper=d.Upper, lower=d.Lower, loc=d.mean(), scale=d.std()))
         return res
-- 
2.43.0


From 0be557166aa50c13e2e7059fd66223a74682a836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:30 +0000
Subject: [PATCH 36/71] fix: ABC-SMC with tied distances keeps the particles at
 the threshold

---
 src/sims_pars/fit/abc_smc/alg.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/sims_pars/fit/abc_smc/alg.py b/src/sims_pars/fit/abc_smc/alg.py
index 2a12c01..4f8d0b1 100644
--- a/src/sims_pars/fit/abc_smc/alg.py
+++ b/src/sims_pars/fit/abc_smc/alg.py
@@ -211,9 +211,7 @@ class ApproxBayesComSMC(Fitter):
 
         wts = wts0.copy()
         for a in range(len(wts)):
-            d = ds[a]
-            if d < eps0:
-                wts[a] = wts[a] if d < eps1 else 0
+            wts[a] = wts[a] if ds[a] <= eps1 else 0
         wts /= wts.sum()
         return wts
 
@@ -251,7 +249,7 @@ class ApproxBayesComSMC(Fitter):
         acc = np.zeros(n_iter)
         for i, p in enumerate(theta_p):
             d_p = p['distance']
-            if d_p < eps1:
+            if d_p <= eps1:
                 acc[i] = 1
 
         # Update accepted proposals
@@ -328,7 +326,7 @@ class ApproxBayesComSMC(Fitter):
 
         for pt1, ptp in zip(theta1, theta_p):
             d_p = ptp['distance']
-            if d_p < eps:
+            if d_p <= eps:
                 post.append(ptp)
             else:
                 post.append(pt1)
-- 
2.43.0


From 94355428766998cb49a672af0ba1cf5c6b92fbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:31 +0000
Subject: [PATCH 37/71] fix: import the data package from where it is

---
 src/sims_pars/data/__init__.py     | 10 +++++-----
 src/sims_pars/data/reg/__init__.py |  8 ++++----
 src/sims_pars/data/reg/glm.py      |  4 ++--
 src/sims_pars/data/reg/hazard.py   |  2 +-
 src/sims_pars/data/reg/linear.py   |  2 +-
 src/sims_pars/data/reg/survival.py |  4 ++--
 src/sims_pars/data/static.py       |  4 ++--
 src/sims_pars/data/timeseries.py   |  4 ++--
 8 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/sims_pars/data/__init__.py b/src/sims_pars/data/__init__.py
index 72ba13f..41ab4af 100644
--- a/src/sims_pars/data/__init__.py
+++ b/src/sims_pars/data/__init__.py
@@ -1,7 +1,7 @@
-from epidag.data.frame import *
-from epidag.data.static import *
-from epidag.data.timeseries import *
-from epidag.data.datafunction import *
-from epidag.data.reg import *
+from sims_pars.data.frame import *
+from sims_pars.data.static import *
+from sims_pars.data.timeseries import *
+from sims_pars.data.datafunction import *
+from sims_pars.data.reg import *
 
 __author__ = 'TimeWz667'
diff --git a/src/sims_pars/data/reg/__init__.py b/src/sims_pars/data/reg/__init__.py
index ff9a9a1..c53d8e2 100644
--- a/src/sims_pars/data/reg/__init__.py
+++ b/src/sims_pars/data/reg/__init__.py
@@ -1,4 +1,4 @@
-from epidag.data.reg.linear import *
-from epidag.data.reg.glm import *
-from epidag.data.reg.hazard import *
-from epidag.data.reg.survival import *
+from sims_pars.data.reg.linear import *
+from sims_pars.data.reg.glm import *
+from sims_pars.data.reg.hazard import *
+from sims_pars.data.reg.survival import *
diff --git a/src/sims_pars/data/reg/glm.py b/src/sims_pars/data/reg/glm.py
index fcce1e8..522660a 100644
--- a/src/sims_pars/data/reg/glm.py
+++ b/src/sims_pars/data/reg/glm.py
@@ -1,7 +1,7 @@
 import numpy as np
 from scipy.special import expit
-from epidag.distribution import parse_distribution
-from epidag.data.reg.linear import LinearCombination, Regression
+from sims_pars.prob import parse_distribution
+from sims_pars.data.reg.linear import LinearCombination, Regression
 
 
 __author__ = ['TimeWz667']
diff --git a/src/sims_pars/data/reg/hazard.py b/src/sims_pars/data/reg/hazard.py
index 459cb73..28f66c2 100644
--- a/src/sims_pars/data/reg/hazard.py
+++ b/src/sims_pars/data/reg/hazard.py
@@ -3,7 +3,7 @@ import numpy.random as rd
 from scipy.special import gamma
 from scipy.interpolate import interp1d
 from abc import ABCMeta, abstractmethod
-from epidag.distribution import AbsDistribution
+from sims_pars.prob import AbsDistribution
 
 
 __all__ = ['Hazard', 'ExponentialHazard', 'WeibullHazard', 'EmpiricalHazard',
diff --git a/src/sims_pars/data/reg/linear.py b/src/sims_pars/data/reg/linear.py
index e84a4e6..9df8909 100644
--- a/src/sims_pars/data/reg/linear.py
+++ b/src/sims_pars/data/reg/linear.py
@@ -1,5 +1,5 @@
 from abc import ABCMeta, abstractmethod
-from epidag.distribution import parse_distribution
+from sims_pars.prob import parse_distribution
 
 __author__ = 'TimeWz667'
 __all__ = ['LinearCombination', 'Regression', 'LinearRegression']
diff --git a/src/sims_pars/data/reg/survival.py b/src/sims_pars/data/reg/survival.py
index aab424f..d601f6f 100644
--- a/src/sims_pars/data/reg/survival.py
+++ b/src/sims_pars/data/reg/survival.py
@@ -1,7 +1,7 @@
 import numpy as np
 from scipy.special import expit
-from epidag.data.reg.hazard import *
-from epidag.data.reg.linear import Regression, LinearCombination
+from sims_pars.data.reg.hazard import *
+from sims_pars.data.reg.linear import Regression, LinearCombination
 
 __author__ = 'TimeWz667'
 __all__ = ['CoxRegression', 'ZeroInflatedCoxRegression']
diff --git a/src/sims_pars/data/static.py b/src/sims_pars/data/static.py
index 232670d..d48dfc0 100644
--- a/src/sims_pars/data/static.py
+++ b/src/sims_pars/data/static.py
@@ -1,6 +1,6 @@
 import pandas as pd
-from epidag.distribution import CategoricalRV
-from epidag.data.frame import AbsDataSet
+from sims_pars.prob import CategoricalRV
+from sims_pars.data.frame import AbsDataSet
 
 __author__ = 'TimeWz667'
 __all__ = ['TransitionMatrix', 'ConditionalProbabilityTable']
diff --git a/src/sims_pars/data/timeseries.py b/src/sims_pars/data/timeseries.py
index c9f6b84..bb6ee1a 100644
--- a/src/sims_pars/data/timeseries.py
+++ b/src/sims_pars/data/timeseries.py
@@ -1,7 +1,7 @@
 import numpy as np
 from scipy.interpolate import interp1d
-from epidag.data.frame import AbsDataSet
-from epidag.distribution import CategoricalRV
+from sims_pars.data.frame import AbsDataSet
+from sims_pars.prob import CategoricalRV
 
 __author__ = 'TimeWz667'
 __all__ = ['TimeSeries', 'TimeSeriesVector', 'TimeSeriesProbabilityTable', 'LeeCarter']
-- 
2.43.0


From ac9ebeb112296c75324659070e8ab1f4b548963e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:34 +0000
Subject: [PATCH 38/71] fix: import the genetic algorithm from where it is

---
 src/sims_pars/fit/ga/__init__.py | 2 +-
 src/sims_pars/fit/ga/alg.py      | 6 +++---
 src/sims_pars/fitting/fitter.py  | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sims_pars/fit/ga/__init__.py b/src/sims_pars/fit/ga/__init__.py
index 0381e63..3214c58 100644
--- a/src/sims_pars/fit/ga/__init__.py
+++ b/src/sims_pars/fit/ga/__init__.py
@@ -1 +1 @@
-from fit.ga.alg import GeneticAlg
+from sims_pars.fit.ga.alg import GeneticAlg
diff --git a/src/sims_pars/fit/ga/alg.py b/src/sims_pars/fit/ga/alg.py
index b5f7cb0..3d85e86 100644
--- a/src/sims_pars/fit/ga/alg.py
+++ b/src/sims_pars/fit/ga/alg.py
@@ -1,8 +1,8 @@
 from sims_pars.fitting.fitter import Fitter, ParameterSet
 from sims_pars.fitting.util import draw, draw_parallel, serve_and_evaluate, serve_and_evaluate_parallel
-from fit.ga.cross import get_crossover
-from fit.ga.select import get_selector
-from fit.ga.mutate import get_mutator
+from sims_pars.fit.ga.cross import get_crossover
+from sims_pars.fit.ga.select import get_selector
+from sims_pars.fit.ga.mutate import get_mutator
 import numpy as np
 import numpy.random as rd
 from scipy.special import logsumexp
diff --git a/src/sims_pars/fitting/fitter.py b/src/sims_pars/fitting/fitter.py
index a4c9007..6419429 100644
--- a/src/sims_pars/fitting/fitter.py
+++ b/src/sims_pars/fitting/fitter.py
@@ -3,7 +3,7 @@ from sims_pars.bayesnet import Chromosome
 from sims_pars.monitor import Monitor
 from sims_pars.fitting.base import AbsObjective
 from sims_pars.fitting.util import draw
-from fit.results import ParameterSet
+from sims_pars.fit.results import ParameterSet
 from joblib import Parallel, delayed
 
 
-- 
2.43.0


From 314f39358334b45491f6f92339135c55198a3733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:36 +0000
Subject: [PATCH 39/71] fix: sample the next states from a transition matrix

---
 src/sims_pars/data/static.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/sims_pars/data/static.py b/src/sims_pars/data/static.py
index d48dfc0..17cd41b 100644
--- a/src/sims_pars/data/static.py
+++ b/src/sims_pars/data/static.py
@@ -26,15 +26,9 @@ class TransitionMatrix(AbsDataSet):
         return self[current]()
 
     def sample(self, n=1, **kwargs):
-        if n == 1:
-            return self(current=kwargs)
-        else:
-            if 'currents' in kwargs:
-                ks = kwargs['currents']
-            else:
-                ks = [kwargs['current']]
-            n = max(n, len(ks))
-            return [self(current=k) for k in zip(range(n), ks)]
+        if 'currents' in kwargs:
+            return [self(current=k) for k in kwargs['currents']]
+        return AbsDataSet.sample(self, n, **kwargs)
 
     def __repr__(self):
         return 'Transition Matrix: {}'.format(', '.join(self.StateFrom))
-- 
2.43.0


From a90b5de85237d587fe68716c141f1dd2ea4304e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:38 +0000
Subject: [PATCH 40/71] fix: predict with the expectation of a Poisson
 regression

---
 src/sims_pars/data/reg/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/data/reg/glm.py b/src/sims_pars/data/reg/glm.py
index 522660a..6eff0a2 100644
--- a/src/sims_pars/data/reg/glm.py
+++ b/src/sims_pars/data/reg/glm.py
@@ -44,7 +44,7 @@ class PoissonRegression(Regression):
         return np.exp(mu)
 
     def predict(self, xs):
-        return np.random.poisson(1, self.expectation(xs))
+        return np.random.poisson(self.expectation(xs))
 
     def get_sampler(self, xs):
         return parse_distribution('pois(lam)', {'lam': self.expectation(xs)})
-- 
2.43.0


From 2e6665c19bfb9aa4ba1016651a30c7476ea93719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:40 +0000
Subject: [PATCH 41/71] fix: mean and deviation of a Weibull hazard shrink with
 its rate

---
 src/sims_pars/data/reg/hazard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/data/reg/hazard.py b/src/sims_pars/data/reg/hazard.py
index 28f66c2..b7dba92 100644
--- a/src/sims_pars/data/reg/hazard.py
+++ b/src/sims_pars/data/reg/hazard.py
@@ -57,10 +57,10 @@ class WeibullHazard(Hazard):
         return pow(h, 1/self.K) / self.Lambda
 
     def mean(self):
-        return gamma(1+1/self.K) * self.Lambda
+        return gamma(1+1/self.K) / self.Lambda
 
     def std(self):
-        return np.sqrt(gamma(1+2/self.K) - gamma(1+1/self.K)**2) * self.Lambda
+        return np.sqrt(gamma(1+2/self.K) - gamma(1+1/self.K)**2) / self.Lambda
 
 
 class EmpiricalHazard(Hazard):
-- 
2.43.0


From cac4039b2da320668a9cd4418ccb38a6af8e02ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:42 +0000
Subject: [PATCH 42/71] fix: an empirical hazard covers the times out of its
 table

---
 src/sims_pars/data/reg/hazard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/data/reg/hazard.py b/src/sims_pars/data/reg/hazard.py
index b7dba92..a3bf526 100644
--- a/src/sims_pars/data/reg/hazard.py
+++ b/src/sims_pars/data/reg/hazard.py
@@ -67,8 +67,8 @@ class EmpiricalHazard(Hazard):
     def __init__(self, times, cum_haz):
         self.MaxTime = max(times)
         self.MaxHaz = max(cum_haz)
-        self.FnCumHaz = interp1d(times, cum_haz, fill_value=[0, self.MaxHaz])
-        self.FnInvCumHaz = interp1d(cum_haz, times, fill_value=[0, self.MaxTime])
+        self.FnCumHaz = interp1d(times, cum_haz, bounds_error=False, fill_value=(0, self.MaxHaz))
+        self.FnInvCumHaz = interp1d(cum_haz, times, bounds_error=False, fill_value=(0, self.MaxTime))
 
     def cum_hazard(self, t):
         return self.FnCumHaz(t)
-- 
2.43.0


From 264128936063ac076f36f724f241510f7772917e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:44 +0000
Subject: [PATCH 43/71] fix: density and moments of survival times agree with
 their draws

---
 src/sims_pars/data/reg/hazard.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/sims_pars/data/reg/hazard.py b/src/sims_pars/data/reg/hazard.py
index a3bf526..6eba4f6 100644
--- a/src/sims_pars/data/reg/hazard.py
+++ b/src/sims_pars/data/reg/hazard.py
@@ -1,6 +1,7 @@
 import numpy as np
 import numpy.random as rd
 from scipy.special import gamma
+from scipy.integrate import quad
 from scipy.interpolate import interp1d
 from abc import ABCMeta, abstractmethod
 from sims_pars.prob import AbsDistribution
@@ -105,15 +106,21 @@ class HazardDistribution(AbsDistribution):
             return [self.Hazard.inv_cum_hazard(s) for s in ss]
 
     def logpdf(self, v):
-        s1 = np.expm1(-self.Hazard.cum_hazard(v))
-        s2 = np.expm1(-self.Hazard.cum_hazard(v - 1E-5))
-        return np.log((s1 - s2)/1E-5)
+        if v <= 0:
+            return - np.inf
+        v0 = max(v - 1E-5, 0)
+        s1 = np.expm1(-self.Hazard.cum_hazard(v) * self.RiskRatio)
+        s2 = np.expm1(-self.Hazard.cum_hazard(v0) * self.RiskRatio)
+        return np.log((s2 - s1) / (v - v0))
+
+    def moment(self, k):
+        return quad(lambda u: self.Hazard.inv_cum_hazard(-np.log(u) / self.RiskRatio) ** k, 0, 1)[0]
 
     def mean(self):
-        return 1 / self.Hazard.mean() / self.RiskRatio
+        return self.moment(1)
 
     def std(self):
-        return pow(self.RiskRatio, -2) / self.Hazard.std()
+        return np.sqrt(self.moment(2) - self.moment(1) ** 2)
 
 
 class ZeroInflatedHazardDistribution(HazardDistribution):
@@ -122,7 +129,7 @@ class ZeroInflatedHazardDistribution(HazardDistribution):
         self.Prob = pr
 
     def logpdf(self, v):
-        if v <= 0:
+        if v == 0:
             return np.log(self.Prob)
         else:
             return np.log(1-self.Prob) + HazardDistribution.logpdf(self, v)
@@ -137,5 +144,5 @@ class ZeroInflatedHazardDistribution(HazardDistribution):
             ts[ps > 0] = 0
             return ts
 
-    def mean(self):
-        return HazardDistribution.mean(self) * (1-self.Prob)
+    def moment(self, k):
+        return HazardDistribution.moment(self, k) * (1-self.Prob)
-- 
2.43.0


From b2d2d46478e0cba713a12a1a3e1db0f5ffda9f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:46 +0000
Subject: [PATCH 44/71] fix: extend time series with the values of the first
 and last times in any row order

---
 src/sims_pars/data/timeseries.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims_pars/data/timeseries.py b/src/sims_pars/data/timeseries.py
index bb6ee1a..b412368 100644
--- a/src/sims_pars/data/timeseries.py
+++ b/src/sims_pars/data/timeseries.py
@@ -14,7 +14,7 @@ class TimeSeries(AbsDataSet):
         xs = np.array(mat[i_x])
         self.IndexTime = i_time
         self.IndexX = i_x
-        self.Line = interp1d(x=ts, y=xs, kind=kind, bounds_error=False, fill_value=(xs[0], xs[-1]))
+        self.Line = interp1d(x=ts, y=xs, kind=kind, bounds_error=False, fill_value=(xs[ts.argmin()], xs[ts.argmax()]))
 
     def __call__(self, t):
         return self.Line(t)
@@ -33,7 +33,7 @@ class TimeSeriesVector(AbsDataSet):
 
         for i_x in self.IndexXs:
             xs = np.array(mat[i_x])
-            self.Lines[i_x] = interp1d(x=ts, y=xs, kind=kind, bounds_error=False, fill_value=(xs[0], xs[-1]))
+            self.Lines[i_x] = interp1d(x=ts, y=xs, kind=kind, bounds_error=False, fill_value=(xs[ts.argmin()], xs[ts.argmax()]))
 
     def __call__(self, t):
         return {x: self.Lines[x](t) for x in self.IndexXs}
@@ -48,7 +48,7 @@ class TimeSeriesProbabilityTable(AbsDataSet):
         self.IndexTime = i_time
         self.IndexXs = i_xs
         ts = np.array(mat[i_time])
-        self.Ts = interp1d(x=ts, y=ts, kind='nearest', bounds_error=False, fill_value=(ts[0], ts[-1]))
+        self.Ts = interp1d(x=ts, y=ts, kind='nearest', bounds_error=False, fill_value=(ts.min(), ts.max()))
         self.PTs = dict()
 
         for i, ir in mat.iterrows():
@@ -75,7 +75,7 @@ class LeeCarter(AbsDataSet):
         self.Alpha = {ent[i_age]: ent[i_al] for _, ent in mat_a.iterrows()}
         self.Beta = {ent[i_age]: ent[i_be] for _, ent in mat_a.iterrows()}
         self.KappaFn = interp1d(x=self.Times, y=self.Kappa, kind=kind,
-                                bounds_error=False, fill_value=(self.Kappa[0], self.Kappa[-1]))
+                                bounds_error=False, fill_value=(self.Kappa[self.Times.argmin()], self.Kappa[self.Times.argmax()]))
 
     def __call__(self, t):
         return {a: self.get_rate(t, a) for a in self.Ages}
-- 
2.43.0


From a3042618f031b65add9bdc5b8de6573927018a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:48 +0000
Subject: [PATCH 45/71] fix: a category out of cat() is impossible

---
 src/sims_pars/prob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/prob.py b/src/sims_pars/prob.py
index 3b61714..3659caf 100644
--- a/src/sims_pars/prob.py
+++ b/src/sims_pars/prob.py
@@ -205,7 +205,7 @@ class CategoricalRV(AbsDistribution):
         try:
             return np.array([x*np.log(kp[k]) for k, x in v.items()]).sum()
         except AttributeError:
-            return np.log(kp[v])
+            return np.log(kp[v]) if v in kp else - float('inf')
 
     def sample(self, n=1, **kwargs):
         sam = rd.choice(self.cat, n, p=self.p)
-- 
2.43.0


From b7e39ab779800ff650e8941f76230010e9378554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:50 +0000
Subject: [PATCH 46/71] fix: history matching with a given number of
 simulations

---
 src/sims_pars/fit/hme/alg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/fit/hme/alg.py b/src/sims_pars/fit/hme/alg.py
index 4c526f9..20d44e5 100644
--- a/src/sims_pars/fit/hme/alg.py
+++ b/src/sims_pars/fit/hme/alg.py
@@ -71,7 +71,7 @@ class BayesHistoryMatching(Fitter):
             self.Settings['n_sims'] = n_sims = n_pars * 10
 
         if self.Settings['n_ems'] <= 0:
-            self.Settings['n_ems'] = n_sims * 100
+            self.Settings['n_ems'] = self.Settings['n_sims'] * 100
 
         v_m = self.Settings['var_model']
 
-- 
2.43.0


From 96e0799b4d6b34b47ec687a012792f3d6d968ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:53 +0000
Subject: [PATCH 47/71] fix: history matching simulates with all the
 parameters, not just the free ones

---
 src/sims_pars/fit/hme/alg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/fit/hme/alg.py b/src/sims_pars/fit/hme/alg.py
index 20d44e5..98f8026 100644
--- a/src/sims_pars/fit/hme/alg.py
+++ b/src/sims_pars/fit/hme/alg.py
@@ -116,7 +116,7 @@ class BayesHistoryMatching(Fitter):
 
         for xs in tqdm.tqdm(xss, desc='Simulation'):
             pars = {dom.Name: con.uniform2value(x) for dom, con, x in zip(model.Domain, cons, xs)}
-            sim = model.simulate(pars)
+            sim = model.simulate(model.serve(pars))
             model.flatten(sim)
             pts_sim.append(sim)
         return pts_sim
@@ -187,7 +187,7 @@ class BayesHistoryMatching(Fitter):
 
         for xs in xss:
             pars = {dom.Name: con.uniform2value(x) for dom, con, x in zip(model.Domain, cons, xs)}
-            sim = model.simulate(pars)
+            sim = model.simulate(model.serve(pars))
             model.flatten(sim)
             post.append(sim)
 
-- 
2.43.0


From 776b551d447f4bd230587a67e54690d7ce109836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:55 +0000
Subject: [PATCH 48/71] fix: train emulators on the scale they predict on, keep
 ties at the cutoff

---
 src/sims_pars/fit/hme/alg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sims_pars/fit/hme/alg.py b/src/sims_pars/fit/hme/alg.py
index 98f8026..002b39f 100644
--- a/src/sims_pars/fit/hme/alg.py
+++ b/src/sims_pars/fit/hme/alg.py
@@ -118,6 +118,7 @@ class BayesHistoryMatching(Fitter):
             pars = {dom.Name: con.uniform2value(x) for dom, con, x in zip(model.Domain, cons, xs)}
             sim = model.simulate(model.serve(pars))
             model.flatten(sim)
+            sim['Xs'] = xs
             pts_sim.append(sim)
         return pts_sim
 
@@ -157,7 +158,7 @@ class BayesHistoryMatching(Fitter):
 
         co, acc = self.Settings['cutoff'], self.Settings['min_acc']
         co = max(co, np.quantile(ims, acc))
-        pts_pls = [pt for pt in pts_emu if pt['Imp'] < co]
+        pts_pls = [pt for pt in pts_emu if pt['Imp'] <= co]
 
         acc = len(pts_pls) / len(pts_emu)
         return pts_pls, co, acc
-- 
2.43.0


From 4cc298c97622560e895f586aea4f6cfe532c95f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:28 +0000
Subject: [PATCH 49/71] fix: pass undefined nodes down in their order

A set lost the topological order, so nodes after an undefined one were left out
---
 src/sims_pars/simulation/nodeset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/simulation/nodeset.py b/src/sims_pars/simulation/nodeset.py
index 55d5d5b..5b35e81 100644
--- a/src/sims_pars/simulation/nodeset.py
+++ b/src/sims_pars/simulation/nodeset.py
@@ -238,7 +238,7 @@ class NodeSet:
         return nodes
 
     def _pass_down_undefined(self, bn, fixed, floating, nodes):
-        to_pass_down = set()
+        to_pass_down = list()
         gfi = set(self.FixedNodes)
         gfi.update(fixed)
 
@@ -260,7 +260,7 @@ class NodeSet:
                 self.FloatingNodes.add(node)
                 gfl.add(node)
             else:
-                to_pass_down.add(node)
+                to_pass_down.append(node)
         for ch in self.__children.values():
             ch._pass_down_undefined(bn, gfi, gfl, to_pass_down)
 
-- 
2.43.0


From 574d6a73e479fe48d6d21d177044ce3364b9a220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:19 +0000
Subject: [PATCH 50/71] fix: ABC-SMC weighs proposals by the prior

---
 src/sims_pars/fit/abc_smc/alg.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/fit/abc_smc/alg.py b/src/sims_pars/fit/abc_smc/alg.py
index 4f8d0b1..96084c3 100644
--- a/src/sims_pars/fit/abc_smc/alg.py
+++ b/src/sims_pars/fit/abc_smc/alg.py
@@ -250,7 +250,7 @@ class ApproxBayesComSMC(Fitter):
         for i, p in enumerate(theta_p):
             d_p = p['distance']
             if d_p <= eps1:
-                acc[i] = 1
+                acc[i] = self.prior_ratio(p, theta1[i])
 
         # Update accepted proposals
         pts = list()
@@ -269,6 +269,11 @@ class ApproxBayesComSMC(Fitter):
 
         return pts, ess, acc, n_eval
 
+    def prior_ratio(self, pt1, pt0):
+        bn = self.Model.BayesianNetwork
+        lp1, lp0 = [sum(bn[node].evaluate(pt.Pars) for node in self.Model.FreeParameters) for pt in (pt1, pt0)]
+        return np.exp(min(lp1 - lp0, 0))
+
     def calc_weighted_std(self, theta1, wts):
         tau = dict()
 
@@ -326,7 +331,7 @@ class ApproxBayesComSMC(Fitter):
 
         for pt1, ptp in zip(theta1, theta_p):
             d_p = ptp['distance']
-            if d_p <= eps:
+            if d_p <= eps and rd.random() < self.prior_ratio(ptp, pt1):
                 post.append(ptp)
             else:
                 post.append(pt1)
-- 
2.43.0


From 3af938e23989d275d02c9edc0f7cdc3d6c8d1000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:03 +0000
Subject: [PATCH 51/71] fix: conditional probability tables over numbers

---
 src/sims_pars/data/static.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/data/static.py b/src/sims_pars/data/static.py
index 17cd41b..ce68920 100644
--- a/src/sims_pars/data/static.py
+++ b/src/sims_pars/data/static.py
@@ -46,7 +46,7 @@ class ConditionalProbabilityTable(AbsDataSet):
         self.InvGroups = dict()
 
         for i, (k, ir) in enumerate(mat.iterrows()):
-            key = ':'.join([ir[x] for x in indices])
+            key = ':'.join([str(ir[x]) for x in indices])
             p = self.Ps[i]
             self.InvGroups[key] = p
             self.Groups[key] = {x: ir[x] for x in indices}
-- 
2.43.0


From 0e72abd5fab8e092409ecb9992693ec2de13a641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:05 +0000
Subject: [PATCH 52/71] fix: Poisson regression uses its offset

---
 src/sims_pars/data/reg/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/data/reg/glm.py b/src/sims_pars/data/reg/glm.py
index 6eff0a2..17f1fb1 100644
--- a/src/sims_pars/data/reg/glm.py
+++ b/src/sims_pars/data/reg/glm.py
@@ -40,7 +40,7 @@ class PoissonRegression(Regression):
         return 'Integer'
 
     def expectation(self, xs):
-        mu = self.LC.predict(xs) + self.Intercept
+        mu = self.LC.predict(xs) + self.Intercept + self.Offset
         return np.exp(mu)
 
     def predict(self, xs):
-- 
2.43.0


From 3f7f324de5cf09bb1bc597d72a52b9fb9d9ebace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:05 +0000
Subject: [PATCH 53/71] fix: networks with whole-number constants from
 functions can be written as JSON

---
 src/sims_pars/bayesnet/loci.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sims_pars/bayesnet/loci.py b/src/sims_pars/bayesnet/loci.py
index d1e6fe2..5dd2025 100644
--- a/src/sims_pars/bayesnet/loci.py
+++ b/src/sims_pars/bayesnet/loci.py
@@ -69,6 +69,8 @@ class ValueLoci(Loci):
 
     def to_json(self):
         js = Loci.to_json(self)
+        if isinstance(self.Value, np.generic):  # from the functions of numpy
+            js['Def'] = self.Value.item()
         js['Type'] = 'Value'
         return js
 
-- 
2.43.0


From 6c82f8704e5e0363e401cb13655e000aa1e5936e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:22 +0000
Subject: [PATCH 54/71] fix: the order of the variables does not depend on
 hashing

---
 src/sims_pars/bayesnet/bn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/bayesnet/bn.py b/src/sims_pars/bayesnet/bn.py
index 133646b..99df17f 100644
--- a/src/sims_pars/bayesnet/bn.py
+++ b/src/sims_pars/bayesnet/bn.py
@@ -88,7 +88,7 @@ class BayesianNetwork:
         self.DAG.add_node(name, loci=loci, **kwargs)
         self.DAG.remove_in_edges(name)
 
-        for pa in loci.Parents:
+        for pa in sorted(loci.Parents):  # sets have no stable order
             if pa not in self.DAG:
                 self.append_loci(ExoValueLoci(pa))
             self.DAG.add_edge(pa, name)
-- 
2.43.0


From d24928224fc931829a9b7a8e2f15bb4205c0a77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:48 +0000
Subject: [PATCH 55/71] fix: samplers of variables given in an intervention
 follow their changed parents

---
 src/sims_pars/simulation/parcore.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/sims_pars/simulation/parcore.py b/src/sims_pars/simulation/parcore.py
index aacfe23..5896035 100644
--- a/src/sims_pars/simulation/parcore.py
+++ b/src/sims_pars/simulation/parcore.py
@@ -167,7 +167,6 @@ class ParameterCore(Chromosome):
             shocked = g.downstream(imp.keys())
             non_imp = [k for k, v in imp.items() if v is None]
             imp = {k: v for k, v in imp.items() if v is not None}
-            shocked.difference_update(imp.keys())
             shocked = shocked.union(non_imp)
         elif isinstance(imp, list):
             shocked = g.downstream(imp)
-- 
2.43.0


From 600d8f6367b37178519c945129bbe6147af30bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:28 +0000
Subject: [PATCH 56/71] fix: the order of the samplers does not depend on
 hashing

---
 src/sims_pars/simulation/nodeset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/simulation/nodeset.py b/src/sims_pars/simulation/nodeset.py
index 5b35e81..4d9a074 100644
--- a/src/sims_pars/simulation/nodeset.py
+++ b/src/sims_pars/simulation/nodeset.py
@@ -305,7 +305,7 @@ class NodeSet:
         # If all parent nodes have been fixed without local changes -> f, f
         # If all parent nodes have been fixed but have local changes -> s, f
         # If any parent nodes is still floating -> c, c
-        for d in set.union(self.FloatingNodes, self.__will_be_floating):
+        for d in bn.sort(set.union(self.FloatingNodes, self.__will_be_floating)):
             loci = bn[d]
             pars = set(loci.Parents)
 
-- 
2.43.0


From 08db3208237acda4efc4f78e8fc2a5339149cc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:30 +0000
Subject: [PATCH 57/71] fix: history matching is reproducible from the seed of
 NumPy

---
 src/sims_pars/fit/hme/alg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/fit/hme/alg.py b/src/sims_pars/fit/hme/alg.py
index 002b39f..241e55a 100644
--- a/src/sims_pars/fit/hme/alg.py
+++ b/src/sims_pars/fit/hme/alg.py
@@ -110,7 +110,7 @@ class BayesHistoryMatching(Fitter):
         cons = state.Converters
         model = self.Model
         n_pars, n_sims = self.Settings['n_pars'], self.Settings['n_sims']
-        xss = LatinHypercube(n_pars).random(n_sims)
+        xss = LatinHypercube(n_pars, seed=rd.randint(2 ** 31 - 1)).random(n_sims)
         xss = lower + xss * (upper - lower)
         pts_sim = list()
 
-- 
2.43.0


From 412efeb8607c537611cd1367a74594956e818338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:37 +0000
Subject: [PATCH 58/71] fix: missing variables named like built-in objects of
 Python are reported

---
 src/sims_pars/util.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sims_pars/util.py b/src/sims_pars/util.py
index a83e4db..6561938 100644
--- a/src/sims_pars/util.py
+++ b/src/sims_pars/util.py
@@ -3,6 +3,7 @@ from numpy.random import choice
 import scipy.special as sp
 import math
 import ast
+import builtins
 import re
 
 __author__ = 'TimeWz667'
@@ -136,6 +137,10 @@ class MathExpression:
 
     def execute(self, loc=None):
         loc = dict(loc) if loc else dict()
+        for v in self.Var:
+            if v not in loc and hasattr(builtins, v):
+                # an object of Python is not the value of a variable
+                raise NameError("name '{}' is not defined".format(v))
         return eval(self.Expression, MATH_FUNC, loc)
 
     @property
-- 
2.43.0


From 3e9d0a545ad68925363c9b5c1a1b8d126ebc13e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:40 +0000
Subject: [PATCH 59/71] fix: variables may be named like built-in objects of
 Python

---
 src/sims_pars/bayesnet/loci.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sims_pars/bayesnet/loci.py b/src/sims_pars/bayesnet/loci.py
index 5dd2025..8a7c0b3 100644
--- a/src/sims_pars/bayesnet/loci.py
+++ b/src/sims_pars/bayesnet/loci.py
@@ -270,6 +270,9 @@ def parse_loci(df):
         name, loci = re.match(r'\A(\w+)=(\S+)', df).groups()
         if loci.startswith('f('):
             loci = PseudoLoci(name, loci)
+        elif parse_parents(loci)[0]:
+            # variables may share their names with the built-in objects of Python
+            loci = FunctionLoci(name, loci)
         else:
             try:
                 loci = ValueLoci(name, loci)
-- 
2.43.0


From be790c4df8165f1803713aae2c556e8a6e4d3b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:43 +0000
Subject: [PATCH 60/71] fix: copied distributions draw from the common
 generator

---
 src/sims_pars/prob.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sims_pars/prob.py b/src/sims_pars/prob.py
index 3659caf..fbb1b85 100644
--- a/src/sims_pars/prob.py
+++ b/src/sims_pars/prob.py
@@ -66,6 +66,12 @@ class AbsDistribution(metaclass=ABCMeta):
         else:
             raise AttributeError('Undefined JSON format')
 
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        if 'Dist' in state:
+            # copies go on with the common generator instead of a copy of its state
+            self.Dist.random_state = None
+
     def __repr__(self):
         if self.source:
             return repr(self.source)
-- 
2.43.0


From 16b21322d791b603964fe84b15cc180973d9c989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:51 +0000
Subject: [PATCH 61/71] fix: rows of the same cell add up in conditional
 probability tables

---
 src/sims_pars/data/static.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/data/static.py b/src/sims_pars/data/static.py
index ce68920..442f054 100644
--- a/src/sims_pars/data/static.py
+++ b/src/sims_pars/data/static.py
@@ -48,7 +48,7 @@ class ConditionalProbabilityTable(AbsDataSet):
         for i, (k, ir) in enumerate(mat.iterrows()):
             key = ':'.join([str(ir[x]) for x in indices])
             p = self.Ps[i]
-            self.InvGroups[key] = p
+            self.InvGroups[key] = self.InvGroups.get(key, 0) + p  # rows of the same cell
             self.Groups[key] = {x: ir[x] for x in indices}
         self.Sampler = CategoricalRV(self.InvGroups)
 
-- 
2.43.0


From 5c82696f82df7951860461296d6cbbef3846d141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:53 +0000
Subject: [PATCH 62/71] fix: sample_minimally takes any iterable of targets

---
 src/sims_pars/fn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims_pars/fn.py b/src/sims_pars/fn.py
index ef9d832..9f029e5 100644
--- a/src/sims_pars/fn.py
+++ b/src/sims_pars/fn.py
@@ -35,6 +35,7 @@ def sample_minimally(bn, included, cond=None, sources=True):
     :return:
     """
     g = bn.DAG
+    included = list(included)  # which may be iterable only once
 
     cond = cond if cond else dict()
     given = list(cond.keys())
-- 
2.43.0


From f23450662af5748ebdacca27835ef4fbfff61cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:26 +0000
Subject: [PATCH 63/71] fix: ABC takes no simulation without a distance

---
 src/sims_pars/fit/abcom/alg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sims_pars/fit/abcom/alg.py b/src/sims_pars/fit/abcom/alg.py
index e232c8a..3cd3b7f 100644
--- a/src/sims_pars/fit/abcom/alg.py
+++ b/src/sims_pars/fit/abcom/alg.py
@@ -17,7 +17,7 @@ class StateABC:
 def sample_fin(model):
     di = np.Inf
     n_eval = 0
-    while np.isinf(di):
+    while not np.isfinite(di):
         n_eval += 1
         p = model.sample_prior()
         sim = model.simulate(p)
@@ -28,7 +28,7 @@ def sample_fin(model):
 def sample_ess(model, eps):
     di = np.Inf
     n_eval = 0
-    while di > eps:
+    while not di <= eps:
         n_eval += 1
         p = model.sample_prior()
         sim = model.simulate(p)
@@ -68,7 +68,7 @@ class ApproxBayesCom(Fitter):
             n_eval = 0
             for _ in tqdm.tqdm(range(n_sim), 'Evaluate prior'):
                 di = np.Inf
-                while np.isinf(di):
+                while not np.isfinite(di):
                     n_eval += 1
                     p = self.Model.sample_prior()
                     sim = self.Model.simulate(p)
-- 
2.43.0


From 92d77d22945d025e7945e1941f2a10b16c34cbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:29 +0000
Subject: [PATCH 64/71] fix: ABC-SMC takes no simulation without a distance

---
 src/sims_pars/fit/abc_smc/alg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims_pars/fit/abc_smc/alg.py b/src/sims_pars/fit/abc_smc/alg.py
index 96084c3..8227ad9 100644
--- a/src/sims_pars/fit/abc_smc/alg.py
+++ b/src/sims_pars/fit/abc_smc/alg.py
@@ -25,7 +25,7 @@ class StateABCSMC:
 def sample_fin(model, unpack=False):
     di = np.Inf
     n_eval = 0
-    while np.isinf(di):
+    while not np.isfinite(di):
         n_eval += 1
         p = model.sample_prior()
         sim = model.simulate(p)
@@ -38,7 +38,7 @@ def sample_fin(model, unpack=False):
 def sample_fin_cont(model, p0, unpack=False):
     di = np.Inf
     n_eval = 0
-    while np.isinf(di):
+    while not np.isfinite(di):
         n_eval += 1
         p = model.sample_prior()
         p.impulse(p0, model.BayesianNetwork)
@@ -52,7 +52,7 @@ def sample_fin_cont(model, p0, unpack=False):
 def sample_ess(model, eps, unpack=False):
     di = np.Inf
     n_eval = 0
-    while di > eps:
+    while not di <= eps:
         n_eval += 1
         p = model.sample_prior()
         sim = model.simulate(p)
@@ -73,7 +73,7 @@ def sample_mutation(model, pt0, steps, unpack=False):
     if not isinstance(pt0, Particle):
         pt0 = Particle.from_json(pt0)
     p0 = pt0.Pars
-    while np.isinf(di):
+    while not np.isfinite(di):
         p1 = mutate(p0, steps)
         try:
             p1 = model.serve(p1)
-- 
2.43.0


From 3e36fa2bd2245302c12e0a0d3a4f058b3f69db92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:44 +0000
Subject: [PATCH 65/71] fix: numbers of any type are read as targets

---
 src/sims_pars/fit/targets/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sims_pars/fit/targets/__init__.py b/src/sims_pars/fit/targets/__init__.py
index f397cd7..331c739 100644
--- a/src/sims_pars/fit/targets/__init__.py
+++ b/src/sims_pars/fit/targets/__init__.py
@@ -2,6 +2,7 @@ from sims_pars.fit.targets.base import *
 from sims_pars.fit.targets.single import *
 from sims_pars.fit.targets.multi import *
 from sims_pars import parse_distribution
+from numbers import Real
 
 __all__ = ['read_targets', 'AbsSingleData', 'AbsData']
 
@@ -9,7 +10,7 @@ __all__ = ['read_targets', 'AbsSingleData', 'AbsData']
 def read_targets(src, error=0.1):
     parsed = dict()
     for k, v in src.items():
-        if isinstance(v, float) or isinstance(v, int):
+        if isinstance(v, Real):
             pt = DataPointError(k, v, error)
 
         elif isinstance(v, dict):
-- 
2.43.0


From 64b2976e40de4a16b8b758006fea222499305356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:46 +0000
Subject: [PATCH 66/71] fix: the trace of ABC-SMC starts anew with every fit

---
 src/sims_pars/fit/abc_smc/alg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims_pars/fit/abc_smc/alg.py b/src/sims_pars/fit/abc_smc/alg.py
index 8227ad9..dee7d4e 100644
--- a/src/sims_pars/fit/abc_smc/alg.py
+++ b/src/sims_pars/fit/abc_smc/alg.py
@@ -128,6 +128,7 @@ class ApproxBayesComSMC(Fitter):
 
     def initialise(self):
         self.info("Initialising")
+        self.Monitor.reset()
 
         n_sim = self.Settings['n_iter']
 
-- 
2.43.0


From b3b7a9f819f622eeecb97669cb7e4d6dd535919b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:12 +0000
Subject: [PATCH 67/71] fix: drawn cells do not share the table of
 probabilities

---
 src/sims_pars/data/static.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/data/static.py b/src/sims_pars/data/static.py
index 442f054..462d7d6 100644
--- a/src/sims_pars/data/static.py
+++ b/src/sims_pars/data/static.py
@@ -53,7 +53,7 @@ class ConditionalProbabilityTable(AbsDataSet):
         self.Sampler = CategoricalRV(self.InvGroups)
 
     def __call__(self):
-        return self.Groups[self.Sampler()]
+        return dict(self.Groups[self.Sampler()])
 
     def marginalise(self, index):
         ix_new = [x for x in self.Indices if x != index]
-- 
2.43.0


From 91ecf514d31d40abbb8a4552acaa5c040c6c459c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:53 +0000
Subject: [PATCH 68/71] fix: outputs of copied particles are their own

---
 src/sims_pars/fit/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sims_pars/fit/base.py b/src/sims_pars/fit/base.py
index a20c145..114e9fc 100644
--- a/src/sims_pars/fit/base.py
+++ b/src/sims_pars/fit/base.py
@@ -1,3 +1,4 @@
+from copy import copy
 import numpy as np
 from abc import ABCMeta, abstractmethod
 from sims_pars.fn import evaluate_nodes, sample, sample_chromosome
@@ -44,12 +45,12 @@ class Particle:
         }
 
     def copy(self):
-        pt = Particle(self.Pars.clone(), self.Sims)
+        pt = Particle(self.Pars.clone(), copy(self.Sims))
         if 'Xs' in self.Notes:
-            pt['Xs'] = self.Notes['Xs']
+            pt['Xs'] = copy(self.Notes['Xs'])
 
         if 'Ys' in self.Notes:
-            pt['Ys'] = self.Notes['Ys']
+            pt['Ys'] = copy(self.Notes['Ys'])
         return pt
 
     @staticmethod
-- 
2.43.0


From a5d8afd680993b73c87cd59e659f56c4bedba27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:53 +0000
Subject: [PATCH 69/71] fix: minimal graph of large networks without listing
 all the paths

---
 src/sims_pars/bayesnet/dag.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/sims_pars/bayesnet/dag.py b/src/sims_pars/bayesnet/dag.py
index 4f3a29a..5423c10 100644
--- a/src/sims_pars/bayesnet/dag.py
+++ b/src/sims_pars/bayesnet/dag.py
@@ -139,10 +139,8 @@ def minimal_dag(g, nodes):
     nodes = g.sort(nodes)
     to_collect = set(nodes)
 
-    for i in range(len(nodes)):
-        for j in range(i, len(nodes)):
-            for pth in nx.all_simple_paths(g, nodes[i], nodes[j]):
-                to_collect.update(pth)
+    # whatever lies on a path between two of the nodes
+    to_collect.update(g.downstream(nodes) & g.upstream(nodes))
 
     return g.subgraph(to_collect)
 
-- 
2.43.0


From 4e3aefbb7a5abe94e22d95c5097a20fb0c52dea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:22 +0000
Subject: [PATCH 70/71] fix: cells of a probability table whose values contain
 the separator

---
 src/sims_pars/data/static.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sims_pars/data/static.py b/src/sims_pars/data/static.py
index 462d7d6..6e4ee5b 100644
--- a/src/sims_pars/data/static.py
+++ b/src/sims_pars/data/static.py
@@ -46,7 +46,8 @@ class ConditionalProbabilityTable(AbsDataSet):
         self.InvGroups = dict()
 
         for i, (k, ir) in enumerate(mat.iterrows()):
-            key = ':'.join([str(ir[x]) for x in indices])
+            # the separator may be a part of the values
+            key = ':'.join([str(ir[x]).replace('\\', '\\\\').replace(':', '\\:') for x in indices])
             p = self.Ps[i]
             self.InvGroups[key] = self.InvGroups.get(key, 0) + p  # rows of the same cell
             self.Groups[key] = {x: ir[x] for x in indices}
-- 
2.43.0


From af5a30d4abdf64f7feb4fd869894ffa709999b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:43 +0000
Subject: [PATCH 71/71] fix: particles read from JSON keep outputs of their own

---
 src/sims_pars/fit/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/fit/base.py b/src/sims_pars/fit/base.py
index 114e9fc..5130ae7 100644
--- a/src/sims_pars/fit/base.py
+++ b/src/sims_pars/fit/base.py
@@ -55,7 +55,7 @@ class Particle:
 
     @staticmethod
     def from_json(js):
-        p = Particle(Chromosome.from_json(js['Pars']), js['Sims'])
+        p = Particle(Chromosome.from_json(js['Pars']), dict(js['Sims']))
         p.Notes.update(js['Notes'])
         return p
 
-- 
2.43.0

