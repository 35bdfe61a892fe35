From aad80551447b7e048fcfaf8aee043cc6b88b42c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:54 +0000
Subject: [PATCH 01/62] fix: arithmetic between a number and a multinomial
 factor (number on the left, numpy numbers)

---
 bcause/factors/mulitnomial.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bcause/factors/mulitnomial.py b/bcause/factors/mulitnomial.py
index ad64d51..a91ad52 100644
--- a/bcause/factors/mulitnomial.py
+++ b/bcause/factors/mulitnomial.py
@@ -77,7 +77,7 @@ class MultinomialFactor(bf.DiscreteFactor, bf.ConditionalFactor):
 
     def _prepare_operand(self, f):
         # if it's a scalar, transform it in a constant factor
-        if type(f) in [int,float]: f = self.builder(domain=dict(), values=[f])
+        if isinstance(f, (int, float, np.number)): f = self.builder(domain=dict(), values=[f])
         return f
 
     def multiply(self, other : Union[MultinomialFactor, int, float]):
@@ -169,25 +169,25 @@ class MultinomialFactor(bf.DiscreteFactor, bf.ConditionalFactor):
         return self.multiply(other)
 
     def __rmul__(self, other):
-        return other.multiply(self)
+        return self._prepare_operand(other).multiply(self)
 
     def __add__(self, other):
         return self.addition(other)
 
     def __radd__(self, other):
-        return other.addition(self)
+        return self._prepare_operand(other).addition(self)
 
     def __sub__(self, other):
         return self.subtract(other)
 
     def __rsub__(self, other):
-        return other.subtract(self)
+        return self._prepare_operand(other).subtract(self)
 
     def __truediv__(self, other):
         return self.divide(other)
 
     def __rtruediv__(self, other):
-        return other.divide(self)
+        return self._prepare_operand(other).divide(self)
 
 
     def __xor__(self, vars_remove):
-- 
2.43.0


From d185061bc4fb16f442bab7c51203797870f350ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:15 +0000
Subject: [PATCH 02/62] fix: 0/0 gave nan when dividing factors not stored as
 numpy arrays

---
 bcause/factors/values/listops.py     | 4 ++--
 bcause/factors/values/operations.py  | 7 ++++++-
 bcause/factors/values/treedictops.py | 4 ++--
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/bcause/factors/values/listops.py b/bcause/factors/values/listops.py
index e6e4c3a..1d3138f 100644
--- a/bcause/factors/values/listops.py
+++ b/bcause/factors/values/listops.py
@@ -6,7 +6,7 @@ from typing import TYPE_CHECKING
 import numpy as np
 
 import bcause.util.domainutils as dutil
-from bcause.factors.values.operations import OperationSet
+from bcause.factors.values.operations import OperationSet, safe_divide
 
 
 if TYPE_CHECKING:
@@ -63,7 +63,7 @@ class  ListStoreOperations(OperationSet):
 
     @staticmethod
     def divide(store: 'ListStore', other: 'ListStore') -> 'ListStore':
-        return  ListStoreOperations._generic_combine(store, other, lambda x, y: x / y)
+        return  ListStoreOperations._generic_combine(store, other, safe_divide)
 
     @staticmethod
     def restrict(store : 'ListStore', observation:dict) -> 'ListStore':
diff --git a/bcause/factors/values/operations.py b/bcause/factors/values/operations.py
index 3f5dff1..f1d7721 100644
--- a/bcause/factors/values/operations.py
+++ b/bcause/factors/values/operations.py
@@ -12,6 +12,11 @@ import bcause.util.domainutils as dutil
 if TYPE_CHECKING:
     from bcause.factors.values import DataStore, ListStore, NumpyStore
 
+def safe_divide(x, y):
+    # 0/0 is taken as 0, as in the operations with numpy arrays
+    return 0.0 if x == 0 and y == 0 else x / y
+
+
 class OperationSet(ABC):
 
     @staticmethod
@@ -93,7 +98,7 @@ class GenericOperations(OperationSet):
 
     @staticmethod
     def divide(store: 'DataStore', other: 'DataStore') -> 'DataStore':
-        return GenericOperations._generic_combine(store, other, lambda x, y: x / y)
+        return GenericOperations._generic_combine(store, other, safe_divide)
 
     @staticmethod
     def restrict(store : 'DataStore', observarion:dict) -> 'DataStore':
diff --git a/bcause/factors/values/treedictops.py b/bcause/factors/values/treedictops.py
index f446bab..d5503c3 100644
--- a/bcause/factors/values/treedictops.py
+++ b/bcause/factors/values/treedictops.py
@@ -4,7 +4,7 @@ from collections import OrderedDict
 from functools import reduce
 from typing import TYPE_CHECKING
 
-from bcause.factors.values.operations import OperationSet
+from bcause.factors.values.operations import OperationSet, safe_divide
 from bcause.util.treesutil import build_default_tree, treeNode
 
 if TYPE_CHECKING:
@@ -102,7 +102,7 @@ class TreeDictStoreOperations(OperationSet):
 
     @staticmethod
     def divide(store: 'TreeDictStore', other: 'TreeDictStore') -> 'TreeDictStore':
-        return TreeDictStoreOperations._generic_combine(store, other, lambda x, y: x / y)
+        return TreeDictStoreOperations._generic_combine(store, other, safe_divide)
 
 
     @staticmethod
-- 
2.43.0


From 911acbeaf5a9415ce2074ca5ee497a6149747648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:15 +0000
Subject: [PATCH 03/62] fix: combining numpy factors listing the states of a
 shared variable in different orders

---
 bcause/factors/values/numpyops.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/bcause/factors/values/numpyops.py b/bcause/factors/values/numpyops.py
index 2613968..a9a2e4c 100644
--- a/bcause/factors/values/numpyops.py
+++ b/bcause/factors/values/numpyops.py
@@ -35,6 +35,11 @@ class NumpyStoreOperations(OperationSet):
 
         new_domain = OrderedDict({**op1.domain, **op2.domain})
 
+        # Set the same state order in the shared variables
+        for v in op1.variables:
+            if op1.domain[v] != new_domain[v] and set(op1.domain[v]) == set(new_domain[v]):
+                op1 = NumpyStoreOperations._reorder_states(op1, v, new_domain[v])
+
         # Extend domains if needed
         if len(op1.variables) < len(new_domain):
             op1 = NumpyStoreOperations._extend_domain(op1, **new_domain)
@@ -69,6 +74,13 @@ class NumpyStoreOperations(OperationSet):
         # create new object
         return store.builder(data = new_data, domain = new_dom)
 
+    @staticmethod
+    def _reorder_states(store, var, new_states) -> 'NumpyStore':
+        idx = [store.domain[var].index(s) for s in new_states]
+        new_data = np.take(store.data, idx, axis=store.get_var_index(var))
+        new_dom = OrderedDict([(v, d if v != var else new_states) for v, d in store.domain.items()])
+        return store.builder(data=new_data, domain=new_dom)
+
     @staticmethod
     def _extend_domain(store, **extra_dom) -> 'NumpyStore':
 
-- 
2.43.0


From a98b71034e258ad1dcb858045b2abc115edac975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:09 +0000
Subject: [PATCH 04/62] fix: writing in a TreeDictStore changed other stores
 sharing a subtree

---
 bcause/factors/values/treedictstore.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bcause/factors/values/treedictstore.py b/bcause/factors/values/treedictstore.py
index 53cc7da..d6ed221 100644
--- a/bcause/factors/values/treedictstore.py
+++ b/bcause/factors/values/treedictstore.py
@@ -52,8 +52,10 @@ class TreeDictStore(DiscreteStore):
             else:
                 other_obs = {v: s for v, s in observation.items() if v != data["var"]}
                 ch = data["children"][observation[data["var"]]]
-                data["children"][observation[data["var"]]] = modify_dict(ch, other_obs, value)
-                out = data
+                # subtrees can be shared with other stores, hence they are not modified in place
+                new_ch = dict(data["children"])
+                new_ch[observation[data["var"]]] = modify_dict(ch, other_obs, value)
+                out = treeNode(data["var"], new_ch)
             return out
 
         relevant_obs = {v: s for v, s in observation.items() if v in self.domain}
-- 
2.43.0


From ec58a464a914bd854c77d52f5db4e3274d1bdf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:09 +0000
Subject: [PATCH 05/62] fix: Numpy1DStore shared its data with the array it was
 built from

---
 bcause/factors/values/numpystore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/factors/values/numpystore.py b/bcause/factors/values/numpystore.py
index bf66303..a100072 100644
--- a/bcause/factors/values/numpystore.py
+++ b/bcause/factors/values/numpystore.py
@@ -63,7 +63,7 @@ class Numpy1DStore(DiscreteStore):
         self.builder = builder
         #self.set_operationSet(ListStoreOperations)
         self.set_operationSet(GenericOperations)
-        super(self.__class__, self).__init__(domain=domain, data=np.ravel(data))
+        super(self.__class__, self).__init__(domain=domain, data=np.array(np.ravel(data)))
 
     @staticmethod
     def _check_consistency(data, domain):
-- 
2.43.0


From 6c81a71eefe05dead462653ba411359b2125cdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:49 +0000
Subject: [PATCH 06/62] fix: a TreeDictStore with no variables shared its data
 with the array it was built from

---
 bcause/factors/values/treedictstore.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bcause/factors/values/treedictstore.py b/bcause/factors/values/treedictstore.py
index d6ed221..ab2f8e1 100644
--- a/bcause/factors/values/treedictstore.py
+++ b/bcause/factors/values/treedictstore.py
@@ -25,6 +25,8 @@ class TreeDictStore(DiscreteStore):
         if not isinstance(data, dict):
             if len(domain)>0 and type(data) not in [dict, OrderedDict]:
                 data = build_default_tree(domain, data)
+            elif isinstance(data, np.ndarray):
+                data = data.item()
         def builder(**kwargs):
             return TreeDictStore(**kwargs)
 
-- 
2.43.0


From 6e06cd86ac25eab897063c15def664f5be52e598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:03 +0000
Subject: [PATCH 07/62] fix: writing a value in a numpy store truncated it to
 the type of the previous values

---
 bcause/factors/values/numpystore.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bcause/factors/values/numpystore.py b/bcause/factors/values/numpystore.py
index a100072..ca7e20a 100644
--- a/bcause/factors/values/numpystore.py
+++ b/bcause/factors/values/numpystore.py
@@ -43,6 +43,7 @@ class NumpyStore(DiscreteStore):
         for v in self.variables:
             idx = np.where(np.array(self.domain[v]) == observation[v])[0][0]
             items.append(idx)
+        self._data = self._data.astype(np.result_type(self._data, np.asarray(value)), copy=False)
         self._data[tuple(items)] = value
 
     def get_value(self, **observation):
@@ -74,6 +75,7 @@ class Numpy1DStore(DiscreteStore):
 
     def set_value(self, value, observation):
         idx = list(dutil.index_iterator(self.domain, observation))[0]
+        self._data = self._data.astype(np.result_type(self._data, np.asarray(value)), copy=False)
         self._data[idx] = value
 
     def get_value(self, **observation):
-- 
2.43.0


From 5039d8cf70853a0cab2fbd9e3df9373c9a8c074b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:45 +0000
Subject: [PATCH 08/62] fix: converting a multinomial factor to deterministic
 stored state positions instead of states

The uai writer, which needs the positions, takes them from the states; this also
lets it write deterministic factors with any states.
---
 bcause/factors/mulitnomial.py | 3 ++-
 bcause/readwrite/bnwrite.py   | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/bcause/factors/mulitnomial.py b/bcause/factors/mulitnomial.py
index a91ad52..07fe757 100644
--- a/bcause/factors/mulitnomial.py
+++ b/bcause/factors/mulitnomial.py
@@ -45,7 +45,8 @@ class MultinomialFactor(bf.DiscreteFactor, bf.ConditionalFactor):
             raise ValueError("Wrong number of variables on the left")
 
         v = self.left_vars[0]
-        values = self.values_array().argmax(axis=self.variables.index(v))
+        idx = self.values_array().argmax(axis=self.variables.index(v))
+        values = np.array(self.domain[v])[idx]
         from bcause.factors import DeterministicFactor
         return DeterministicFactor(self.domain, left_vars=[v], values=values)
 
diff --git a/bcause/readwrite/bnwrite.py b/bcause/readwrite/bnwrite.py
index f08b478..2c47be8 100644
--- a/bcause/readwrite/bnwrite.py
+++ b/bcause/readwrite/bnwrite.py
@@ -68,6 +68,8 @@ def to_uai(model:'BayesianNetwork', filepath, reverse_values=False, label="BAYES
         # if not reverse_values:
         #     var_order = var_order[::-1]
         values = f.values_array(vorder).flatten()
+        if isinstance(f, DeterministicFactor):
+            values = [list(f.domain[v]).index(x) for x in values]
         if v in integer_varlist:
             values = [int(p) for p in values]
         out += f"{len(values)}\t" + " ".join([str(p) for p in values]) + "\n"
-- 
2.43.0


From 0e43ae8a03260e9a56fd05537a7c0ac0619b3794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:45 +0000
Subject: [PATCH 09/62] fix: canonical specification with no or several
 endogenous parents

---
 bcause/factors/deterministic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bcause/factors/deterministic.py b/bcause/factors/deterministic.py
index 92f8cda..e910488 100644
--- a/bcause/factors/deterministic.py
+++ b/bcause/factors/deterministic.py
@@ -132,6 +132,7 @@ class DeterministicFactor(bf.DiscreteFactor, bf.ConditionalFactor):
 def canonical_deterministic(domain:Dict, exo_var:Hashable, right_endo_vars:list=None, vtype=None) -> MultinomialFactor:
     vtype = vtype or DataStore.DEFAULT_STORE
 
+    right_endo_vars = right_endo_vars or []
     left_var = [x for x in domain.keys() if x not in right_endo_vars and x != exo_var]
     if len(left_var) != 1:
         raise ValueError("Canonical for non-markovian")
@@ -144,5 +145,5 @@ def canonical_deterministic(domain:Dict, exo_var:Hashable, right_endo_vars:list=
     new_values = list(product(*[domain[left_var]] * m))
     new_dom = {**dutils.subdomain(domain, left_var), **dutils.subdomain(domain, exo_var), **dutils.subdomain(domain, *right_endo_vars)}
 
-    return DeterministicFactor(domain=new_dom, values=new_values, left_vars=[left_var], vtype=vtype)
+    return DeterministicFactor(domain=new_dom, values=np.ravel(new_values), left_vars=[left_var], vtype=vtype)
 
-- 
2.43.0


From fb8229f41d9cbcb42dbe8b3f4e776aaf78e76a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:45 +0000
Subject: [PATCH 10/62] fix: deterministic factor from a data frame whose left
 variable is not the last column

The rows were sorted by the left variable too, a left variable whose name contains
another one got the wrong signature, and the given data frame was modified.
---
 bcause/factors/deterministic.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bcause/factors/deterministic.py b/bcause/factors/deterministic.py
index e910488..e648ef3 100644
--- a/bcause/factors/deterministic.py
+++ b/bcause/factors/deterministic.py
@@ -44,15 +44,18 @@ class DeterministicFactor(bf.DiscreteFactor, bf.ConditionalFactor):
     def from_data_frame(df, domains, left_var=None):
         columns = list(df.columns)
         left_var = left_var or columns[-1]
+        right_vars = [v for v in columns if v != left_var]
 
+        df = df.copy()
         for v in columns:
             df[v] = pd.Categorical(df[v], domains[v])
 
-        df = df.sort_values(by=columns)
+        if len(right_vars) > 0:
+            df = df.sort_values(by=right_vars)
 
         domf = dutils.subdomain(domains, *columns)
         values = list(df[left_var].values)
-        return DeterministicFactor(domf, left_vars=left_var, values=values)
+        return DeterministicFactor(domf, left_vars=[left_var], values=values)
 
     @property
     def domain(self) -> Dict:
-- 
2.43.0


From 7494af9b4c7fe64d3df2771930baabfeed11bce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:31 +0000
Subject: [PATCH 11/62] fix: compiling a probabilistic query with no evidence

---
 bcause/inference/probabilistic/datainference.py | 3 ++-
 bcause/inference/probabilistic/probabilistic.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bcause/inference/probabilistic/datainference.py b/bcause/inference/probabilistic/datainference.py
index b0be195..01009b7 100644
--- a/bcause/inference/probabilistic/datainference.py
+++ b/bcause/inference/probabilistic/datainference.py
@@ -18,13 +18,14 @@ class LaplaceInference(ProbabilisticInference):
         super(self.__class__, self).__init__(data)
     def compile(self, target, evidence=None) -> Inference:
 
+        evidence = evidence or dict()
         target = as_lists(target)
         if len(set(target)) != len(target): raise ValueError("Repeated variables in target")
         if not set(target).isdisjoint(evidence.keys()):
             raise ValueError(f"Target {target} and evidence are not disjoint {evidence.keys()}")
 
         self._target = target
-        self._evidence = evidence or dict()
+        self._evidence = evidence
         logging.info(f"Starting inference: target={str(target)} evidence={str(evidence)}")
 
         self._inference_model = self._preprocess()
diff --git a/bcause/inference/probabilistic/probabilistic.py b/bcause/inference/probabilistic/probabilistic.py
index 245eb76..76862c9 100644
--- a/bcause/inference/probabilistic/probabilistic.py
+++ b/bcause/inference/probabilistic/probabilistic.py
@@ -17,13 +17,14 @@ class ProbabilisticInference(Inference):
 
     def compile(self, target, evidence=None) -> Inference:
 
+        evidence = evidence or dict()
         target = as_lists(target)
         if len(set(target)) != len(target): raise ValueError("Repeated variables in target")
         if not set(target).isdisjoint(evidence.keys()):
             raise ValueError(f"Target {target} and evidence are not disjoint {evidence.keys()}")
 
         self._target = target
-        self._evidence = evidence or dict()
+        self._evidence = evidence
         logging.info(f"Starting inference: target={str(target)} evidence={str(evidence)}")
         assert_dag_with_nodes(self.model.graph, self._target | self._evidence.keys())
 
-- 
2.43.0


From 2447374dd0b15920a328639391ca73f87d5063a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:12 +0000
Subject: [PATCH 12/62] fix: the multinomial version of a causal model forgot
 which variables are endogenous

---
 bcause/models/cmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index 0011e02..5793a24 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -183,7 +183,7 @@ class StructuralCausalModel(DiscreteCausalDAGModel):
         super().set_factor(var, f)
 
     def to_multinomial(self) -> StructuralCausalModel:
-        return StructuralCausalModel(dag=self.graph, factors=self.factors, cast_multinomial=True)
+        return StructuralCausalModel(dag=self.graph, factors=self.factors, endogenous=self.endogenous, cast_multinomial=True)
 
     @property
     def has_deterministic(self):
-- 
2.43.0


From 5bf9bb82ae4b24d8981e0d5154b33092c2d3aab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:03 +0000
Subject: [PATCH 13/62] fix: counterfactual worlds with variables that have no
 edges

---
 bcause/models/transform/combination.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bcause/models/transform/combination.py b/bcause/models/transform/combination.py
index 5b0ee4d..002bf18 100644
--- a/bcause/models/transform/combination.py
+++ b/bcause/models/transform/combination.py
@@ -18,6 +18,7 @@ def fusion_roots(models, on, **builder_kargs):
     new_factors = models[0].get_factors(*on)
     for m in models:
         for x ,y in m.graph.edges: new_dag.add_edge(x ,y)
+        new_dag.add_nodes_from(m.variables)
         new_factors.extend(m.get_factors(*set(m.variables).difference(on)))
 
     return models[0].builder(dag=new_dag, factors=new_factors, **builder_kargs)
-- 
2.43.0


From d0a019142318d9631468d06ed5802cedefa88a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:29 +0000
Subject: [PATCH 14/62] fix: identification of the true and false states

Boolean (and numpy) states were rejected, and a domain such as x0,x2 was accepted
with x0 as the true state.
---
 bcause/util/domainutils.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/bcause/util/domainutils.py b/bcause/util/domainutils.py
index d8e7039..ce0cafe 100644
--- a/bcause/util/domainutils.py
+++ b/bcause/util/domainutils.py
@@ -99,12 +99,13 @@ def identify_true_false(varname, dom):
     if len(dom)>2: raise ValueError("Cannot identify true/false states: non binary domains")
     if len(set(dtypes))>1: raise ValueError("Cannot identify true/false states: different data types")
 
-    tf = []
-    if dtypes[0] in [int, float]:
-        tf = [d for d in dom if d==True] + [d for d in dom if d==False]
-    elif dtypes[0] == str:
-        tf = [d for d in dom if d.lower() == varname.lower()+"1"] + [d for d in dom if d.lower() == varname.lower()+"0"] + [d for d in dom if d.lower() == varname.lower()+"2"]
+    t, f = [], []
+    if issubclass(dtypes[0], (int, float, np.number, np.bool_)):
+        t, f = [d for d in dom if d==True], [d for d in dom if d==False]
+    elif issubclass(dtypes[0], str):
+        named = lambda n: [d for d in dom if d.lower() == varname.lower()+n]
+        t, f = named("1"), named("0") or named("2")
 
-    if len(tf)!=2: raise ValueError("Cannot identify true/false states: wrong values or data types")
+    if len(t)!=1 or len(f)!=1: raise ValueError("Cannot identify true/false states: wrong values or data types")
 
-    return tf[0],tf[1]
+    return t[0],f[0]
-- 
2.43.0


From aba2cc241b9d300883a5a4c2c7290034d7a268c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:35 +0000
Subject: [PATCH 15/62] fix: multi-model inference changed the caller's list of
 models and needed a query before asking probabilities of causation

Also accept models whose answers list the same variables in a different order.
---
 bcause/factors/imprecise.py      |  2 +-
 bcause/inference/causal/multi.py | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/bcause/factors/imprecise.py b/bcause/factors/imprecise.py
index 002b5e8..6e6e682 100644
--- a/bcause/factors/imprecise.py
+++ b/bcause/factors/imprecise.py
@@ -57,7 +57,7 @@ class IntervalProbFactor(bf.DiscreteFactor, bf.ConditionalFactor):
     def from_precise(list_factors):
         dom = list_factors[0].domain
         left_vars = list_factors[0].left_vars
-        if not all(list_factors[0].domain == f.domain for f in list_factors):
+        if not all(dict(list_factors[0].domain) == dict(f.domain) for f in list_factors):
             raise ValueError("Domains must be identical for building an IntervalFactor")
 
         values = np.array([[f.get_value(**obs) for f in list_factors] for obs in assingment_space(dom)])
diff --git a/bcause/inference/causal/multi.py b/bcause/inference/causal/multi.py
index 5f10039..f67e3aa 100644
--- a/bcause/inference/causal/multi.py
+++ b/bcause/inference/causal/multi.py
@@ -27,13 +27,17 @@ class CausalMultiInference(CausalInference):
     def models(self) -> list[StructuralCausalModel]:
         return self._models
 
+    @property
+    def model(self) -> StructuralCausalModel:
+        if not self._compiled: self.compile()
+        return self._model
+
     def set_models(self, models: list[StructuralCausalModel]):
-        self._models = models or []
+        self._models = list(models or [])
         self._compiled = False
 
     def add_models(self, models: list[StructuralCausalModel]):
-        models = models or []
-        self._models += models
+        self._models = self._models + list(models or [])
         self._compiled = False
 
     def compile(self, *args, **kwargs) -> Inference:
-- 
2.43.0


From 5c01c441a2940c48a8f47969c15c8c49c7dcf6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:40 +0000
Subject: [PATCH 16/62] fix: the q-graph could contain cycles

A parent of the c-component that is not a descendant of a variable may still come
after it in the topological order; only those coming before it are added.
---
 bcause/models/info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/models/info.py b/bcause/models/info.py
index a7a4f44..38a2b10 100644
--- a/bcause/models/info.py
+++ b/bcause/models/info.py
@@ -37,7 +37,7 @@ def get_qgraph(model:DiscreteCausalDAGModel):
         for i in range(len(c_comp)):
             x = c_comp[i]
             for p in list(pa_c) + c_comp[0:i]:
-                if p not in nx.descendants(model.endo_graph, x):
+                if order.index(p) < order.index(x):
                     g.add_edge(p, x)
 
     return g
-- 
2.43.0


From 14a22066fce4f28bc05ab9927f0b1df13489ae7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:46 +0000
Subject: [PATCH 17/62] fix: variables without exogenous parents were in no
 c-component

---
 bcause/models/cmodel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index 5793a24..31519d2 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -75,7 +75,9 @@ class DiscreteCausalDAGModel(DiscreteDAGModel):
         :return: object of class nx.DiGraph
         '''
         exo_edges = [(x,y) for x,y in self.graph.edges if self.is_exogenous(x)]
-        return DiGraph(self.graph.edge_subgraph(exo_edges).edges)
+        g = DiGraph(self.graph.edge_subgraph(exo_edges).edges)
+        g.add_nodes_from(self.graph.nodes)
+        return g
 
     @property
     def ccomponents(self):
-- 
2.43.0


From 7dad88301dc569094c8025e05a3b61c5d125b6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:46 +0000
Subject: [PATCH 18/62] fix: variable elimination in causal models whose
 equations are deterministic factors

---
 bcause/inference/probabilistic/elimination.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bcause/inference/probabilistic/elimination.py b/bcause/inference/probabilistic/elimination.py
index 477285d..86836d1 100644
--- a/bcause/inference/probabilistic/elimination.py
+++ b/bcause/inference/probabilistic/elimination.py
@@ -30,6 +30,9 @@ class VariableElimination(ProbabilisticInference):
 
         self._heuristic = heuristic
 
+        # factors given as equations must be transformed before operating with them
+        if getattr(model, "has_deterministic", False): model = model.to_multinomial()
+
         super(self.__class__, self).__init__(model)
 
     def _preprocess(self) -> DiscreteDAGModel:
-- 
2.43.0


From 71d5cc448aa31e64938946ec693732d1f295e562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:07 +0000
Subject: [PATCH 19/62] fix: missing entries were never counted under the state
 nan

---
 bcause/util/datautils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/util/datautils.py b/bcause/util/datautils.py
index b68b491..bc2576c 100644
--- a/bcause/util/datautils.py
+++ b/bcause/util/datautils.py
@@ -6,13 +6,13 @@ def to_counts(domains, data=None, normalize=False):
     domains = domains.copy()
     if data is not None:
         data = data[list(domains.keys())]
-        dcounts = data.value_counts(dropna=False).to_dict()
         # Add None where missing values
         for x in [v for v in data.columns if data.isna().any()[v]]:
             if not all([type(v)==str for v in domains[x]]):
                 raise ValueError("Missing values are only compatible in variables with str-like domains")
             domains[x] = domains[x] + ["nan"]
         data = data.fillna("nan")
+        dcounts = data.value_counts(dropna=False).to_dict()
     else:
         dcounts = dict()
 
-- 
2.43.0


From d1393a19079e2c4212756fa1bc0c7b15bd7ddf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:04 +0000
Subject: [PATCH 20/62] fix: learning added columns to the data frame passed in

---
 bcause/learning/parameter/expectation_maximization.py | 3 ++-
 bcause/learning/parameter/gradient.py                 | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bcause/learning/parameter/expectation_maximization.py b/bcause/learning/parameter/expectation_maximization.py
index e4d2924..edd1641 100644
--- a/bcause/learning/parameter/expectation_maximization.py
+++ b/bcause/learning/parameter/expectation_maximization.py
@@ -77,7 +77,8 @@ class ExpectationMaximization(AbastractExpectationMaximization):
         return new_probs
 
     def _process_data(self, data: pd.DataFrame):
-        # add missing variables
+        # add missing variables, without altering the input data
+        data = data.copy()
         missing_vars = [v for v in self.prior_model.variables if v not in data.columns]
         for v in missing_vars: data[v] = float("nan")
 
diff --git a/bcause/learning/parameter/gradient.py b/bcause/learning/parameter/gradient.py
index c7873fe..62c8a81 100644
--- a/bcause/learning/parameter/gradient.py
+++ b/bcause/learning/parameter/gradient.py
@@ -149,7 +149,8 @@ class GradientLikelihood(IterativeParameterLearning):
         return P_v_pav_key
 
     def _process_data(self, data: pd.DataFrame):
-        # add missing variables
+        # add missing variables, without altering the input data
+        data = data.copy()
         missing_vars = [v for v in self.prior_model.variables if v not in data.columns]
         for v in missing_vars: data[v] = float("nan")
 
-- 
2.43.0


From 861a1cd3f457c3f0caf18176f342de4f8651f854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:04 +0000
Subject: [PATCH 21/62] fix: running a learner again kept the evolution of the
 previous run

---
 bcause/learning/parameter/expectation_maximization.py | 1 +
 bcause/learning/parameter/gradient.py                 | 1 +
 2 files changed, 2 insertions(+)

diff --git a/bcause/learning/parameter/expectation_maximization.py b/bcause/learning/parameter/expectation_maximization.py
index edd1641..deb05d6 100644
--- a/bcause/learning/parameter/expectation_maximization.py
+++ b/bcause/learning/parameter/expectation_maximization.py
@@ -23,6 +23,7 @@ class AbastractExpectationMaximization(IterativeParameterLearning):
 
     def initialize(self, data: pd.DataFrame, **kwargs):
         self._model = self.prior_model.copy()
+        self._model_evolution = [self.prior_model]
         self._process_data(data)
 
     def _calculate_updated_factors(self):
diff --git a/bcause/learning/parameter/gradient.py b/bcause/learning/parameter/gradient.py
index 62c8a81..8cb7f79 100644
--- a/bcause/learning/parameter/gradient.py
+++ b/bcause/learning/parameter/gradient.py
@@ -44,6 +44,7 @@ class GradientLikelihood(IterativeParameterLearning):
 
     def initialize(self, data: pd.DataFrame, **kwargs):
         self._model = self.prior_model.copy()
+        self._model_evolution = [self.prior_model]
         self._process_data(data)
 
     def _stop_learning(self) -> bool:
-- 
2.43.0


From 3ae62af4abf49dcee75cea411ef4b0da5295627b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:04 +0000
Subject: [PATCH 22/62] fix: expectation maximisation froze a variable that did
 not change in one step

Its update may be different once the distributions of others have changed, and the
variables considered as converged were kept when running the learner again.
---
 .../parameter/expectation_maximization.py       | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/bcause/learning/parameter/expectation_maximization.py b/bcause/learning/parameter/expectation_maximization.py
index deb05d6..b548d92 100644
--- a/bcause/learning/parameter/expectation_maximization.py
+++ b/bcause/learning/parameter/expectation_maximization.py
@@ -46,7 +46,6 @@ class ExpectationMaximization(AbastractExpectationMaximization):
         self._prior_model = prior_model
         self._trainable_vars = trainable_vars
         self._inference_method = inference_method
-        self._converged_vars = set()
 
     def _get_obs_counts(self, target):
         obs_blanket = self._datadeps.get_minimal_obs_blanket(target)
@@ -58,7 +57,7 @@ class ExpectationMaximization(AbastractExpectationMaximization):
         #print("===")
         self._inf = self._inference_method(self._model)
         pcounts = self._get_pseudocounts_dict()
-        for v in set(self.trainable_vars).difference(self._converged_vars):
+        for v in self.trainable_vars:
 
             for obs, c in self._get_obs_counts(v):
                 relevant = [v] + self._prior_model.get_parents(v)
@@ -72,7 +71,7 @@ class ExpectationMaximization(AbastractExpectationMaximization):
 
     def _maximization(self, pcounts, **kwargs):
         new_probs = dict()
-        for v in set(self.trainable_vars).difference(self._converged_vars):
+        for v in self.trainable_vars:
             joint_counts = pcounts[v]
             new_probs[v] = joint_counts / (joint_counts.marginalize(v))
         return new_probs
@@ -93,14 +92,12 @@ class ExpectationMaximization(AbastractExpectationMaximization):
     def _stop_learning(self) -> bool:
         from scipy.special import rel_entr
 
+        # A variable not changing in a step may do it later on if others are still changing
         for v in self._trainable_vars:
-            if v not in self._converged_vars:
-                P = self.model_evolution[-2].factors[v]
-                Q = self.model_evolution[-1].factors[v]
-                kl_div = sum(rel_entr(P.values, Q.values))
-                if kl_div == 0:
-                    self._converged_vars = self._converged_vars | {v}
-        return set(self._trainable_vars) == self._converged_vars
+            P = self.model_evolution[-2].factors[v]
+            Q = self.model_evolution[-1].factors[v]
+            if sum(rel_entr(P.values, Q.values)) != 0: return False
+        return True
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 9a74c3d291f54bb1c95b1f301fb98266913b0004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:44 +0000
Subject: [PATCH 23/62] fix: expectation maximisation with variables not
 related to any observed one

---
 bcause/learning/parameter/expectation_maximization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/learning/parameter/expectation_maximization.py b/bcause/learning/parameter/expectation_maximization.py
index b548d92..62670ad 100644
--- a/bcause/learning/parameter/expectation_maximization.py
+++ b/bcause/learning/parameter/expectation_maximization.py
@@ -49,7 +49,7 @@ class ExpectationMaximization(AbastractExpectationMaximization):
 
     def _get_obs_counts(self, target):
         obs_blanket = self._datadeps.get_minimal_obs_blanket(target)
-        return [(obs, sum(reduce( lambda x,y : x&y, [self._data[v] == s for v,s in obs.items()]))) for obs in obs_blanket]
+        return [(obs, sum(reduce( lambda x,y : x&y, [self._data[v] == s for v,s in obs.items()])) if obs else len(self._data)) for obs in obs_blanket]
 
 
 
-- 
2.43.0


From bdeb2ddc158c886221c5f81d5e0330fe65f9f2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:14 +0000
Subject: [PATCH 24/62] fix: asking for the domain or size of a single variable
 also returned those whose name is part of its name

---
 bcause/models/pgmodel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bcause/models/pgmodel.py b/bcause/models/pgmodel.py
index 53d2f2c..6fe2344 100644
--- a/bcause/models/pgmodel.py
+++ b/bcause/models/pgmodel.py
@@ -13,6 +13,7 @@ from networkx import relabel_nodes
 
 import bcause.factors.factor as bf
 import bcause.util.graphutils as gutils
+from bcause.util.arrayutils import as_lists
 
 from bcause.models.sampling import forward_sampling
 
@@ -138,9 +139,11 @@ class DiscreteDAGModel(PGModel):
 
 
     def get_domains(self, variables):
+        variables = as_lists(variables)
         return {v:d for v,d in self._domains.items() if v in variables}
 
     def get_varsizes(self, variables):
+        variables = as_lists(variables)
         return {v:len(d) for v,d in self._domains.items() if v in variables}
 
 
-- 
2.43.0


From cdf598bca681ad91634366d6b5e5e890654d6521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:50 +0000
Subject: [PATCH 25/62] fix: the learning objects of an aggregator were not in
 the order of its models

---
 bcause/learning/aggregator/aggregator.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bcause/learning/aggregator/aggregator.py b/bcause/learning/aggregator/aggregator.py
index 032051d..627c8cf 100644
--- a/bcause/learning/aggregator/aggregator.py
+++ b/bcause/learning/aggregator/aggregator.py
@@ -50,10 +50,12 @@ class ModelAggregator(ABC):
     def generate(self, num_models : int):
         if num_models<1: raise ValueError(f"Wrong number of models: {num_models}")
         if not self._parallel:
-            self._generated_models += [self._single_generate(i) for i in range(num_models)]
+            optimizers = [self._single_generate(i) for i in range(num_models)]
         else:
             from joblib import Parallel, delayed
-            self._generated_models +=  Parallel(n_jobs=-1, backend="threading") (delayed(self._single_generate)(i) for i in range(num_models))
+            optimizers = Parallel(n_jobs=-1, backend="threading") (delayed(self._single_generate)(i) for i in range(num_models))
+        self._learn_objects += optimizers
+        self._generated_models += [optimizer.model for optimizer in optimizers]
 
     @abstractmethod
     def _single_generate(self, i):
@@ -76,8 +78,7 @@ class ModelAggregatorEM(ModelAggregator):
     def _single_generate(self, i):
         optimizer = ExpectationMaximization(self._model.randomize_factors(self._trainlable_vars, allow_zero=False), trainable_vars=self._trainlable_vars)
         optimizer.run(self._data, max_iter=self._max_iter)
-        self._learn_objects.append(optimizer)
-        return optimizer.model
+        return optimizer
 
 class SimpleModelAggregatorEM(SimpleModelAggregator, ModelAggregatorEM):
 
@@ -93,8 +94,7 @@ class ModelAggregatorGD(ModelAggregator):
     def _single_generate(self, i):
         optimizer = GradientLikelihood(self._model.randomize_factors(self._trainlable_vars, allow_zero=False), trainable_vars=self._trainlable_vars, tol=self._tol)
         optimizer.run(self._data, max_iter=self._max_iter)
-        self._learn_objects.append(optimizer)
-        return optimizer.model
+        return optimizer
 
 
 class SimpleModelAggregatorGD(SimpleModelAggregator, ModelAggregatorGD):
-- 
2.43.0


From 42a81d50f7b28b161527f6ed79739a0ed6f5d10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:40 +0000
Subject: [PATCH 26/62] fix: conditional sampling with observations listing
 their variables in different orders

---
 bcause/factors/mulitnomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/factors/mulitnomial.py b/bcause/factors/mulitnomial.py
index 07fe757..805a1b5 100644
--- a/bcause/factors/mulitnomial.py
+++ b/bcause/factors/mulitnomial.py
@@ -148,7 +148,7 @@ class MultinomialFactor(bf.DiscreteFactor, bf.ConditionalFactor):
             raise ValueError("sample size cannot be lower than 1.")
         df_obs = pd.DataFrame(observations).drop_duplicates()
         factors = {tuple(val_obs):self.R(**dict(list(zip(list(df_obs.keys()), list(val_obs))))) for val_obs in df_obs.values}
-        return [factors[tuple(obs.values())]._sample(varnames=varnames) for obs in observations]
+        return [factors[tuple(obs[v] for v in df_obs.columns)]._sample(varnames=varnames) for obs in observations]
 
 
     def _sample(self, varnames:bool=True) -> tuple:
-- 
2.43.0


From 55e96764c237ca3f8d3d642c41a5b8083b479f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:11 +0000
Subject: [PATCH 27/62] fix: sampling the endogenous variables as a list

---
 bcause/models/cmodel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index 31519d2..d155ebb 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -249,7 +249,10 @@ class StructuralCausalModel(DiscreteCausalDAGModel):
 
 
     def sampleEndogenous(self, n_samples: int, as_pandas = True) -> Union[list[Dict], pd.DataFrame]:
-        return self.sample(n_samples, as_pandas)[self.endogenous]
+        data = self.sample(n_samples)[self.endogenous]
+        if not as_pandas:
+            data = data.to_dict("records")
+        return data
 
     def log_likelihood(self, data, variables=None):
         bn = self.get_qbnet()
-- 
2.43.0


From 280784689fd87081c61888531654e6943b6e3d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:48 +0000
Subject: [PATCH 28/62] fix: converting from pgmpy lost the variables without
 edges

---
 bcause/conversion/pgmpy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bcause/conversion/pgmpy.py b/bcause/conversion/pgmpy.py
index cd54587..d59dd75 100644
--- a/bcause/conversion/pgmpy.py
+++ b/bcause/conversion/pgmpy.py
@@ -51,6 +51,7 @@ def toTabularCPT(f : bfd.MultinomialFactor) -> pfd.TabularCPD:
 def toBCauseBNet(orig : pm.BayesianNetwork, vtype=None) -> 'bm.BayesianNetwork':
     vtype = vtype or DataStore.DEFAULT_STORE
     dag = DiGraph(orig.in_edges)
+    dag.add_nodes_from(orig.nodes)
     factors = {f.variable:toMultinomialFactor(f, vtype) for f in orig.cpds}
     import bcause.models as bm
     return bm.BayesianNetwork(dag, factors)
-- 
2.43.0


From 66e4e3023893226704fd17f4b4a411aa6becff88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:31 +0000
Subject: [PATCH 29/62] fix: conversion to pgmpy of tables whose child is not
 last or with several parents

---
 bcause/conversion/pgmpy.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/bcause/conversion/pgmpy.py b/bcause/conversion/pgmpy.py
index d59dd75..bb45cc4 100644
--- a/bcause/conversion/pgmpy.py
+++ b/bcause/conversion/pgmpy.py
@@ -24,23 +24,19 @@ def toMultinomialFactor(factor : pfd.TabularCPD, vtype=None) -> bfd.MultinomialF
 
 def toTabularCPT(f : bfd.MultinomialFactor) -> pfd.TabularCPD:
     v = list(f.left_domain.keys())[0]
+    parents = f.right_vars
     card = f.store.cardinality_dict
-    values = f.values_array()
-    if np.ndim(values)<2:
-        values = np.expand_dims(values, axis=0)
 
-    if np.ndim(values) > 2:
-        shape = values.shape
-        values = values.reshape(np.prod(shape[:-1]), shape[0])
+    # one row for each state of the variable, one column for each configuration of the parents
+    values = f.values_array([v] + parents).reshape(card[v], -1)
 
     args = dict(
         variable = v,
         variable_card = card[v],
-        values = values.T,
+        values = values,
         state_names = f.domain
     )
 
-    parents = f.right_vars
     if len(parents)>0:
         args["evidence"] = parents
         args["evidence_card"] = [card[p] for p in parents]
-- 
2.43.0


From 99019c2de9d2c597f43b64c3b330264d4f05ea9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:57 +0000
Subject: [PATCH 30/62] fix: reading uai files with variables without edges

---
 bcause/readwrite/bnread.py  | 1 +
 bcause/readwrite/scmread.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/bcause/readwrite/bnread.py b/bcause/readwrite/bnread.py
index cc76063..c376565 100644
--- a/bcause/readwrite/bnread.py
+++ b/bcause/readwrite/bnread.py
@@ -73,6 +73,7 @@ def from_uai(filepath, reverse_values=True, var_prefix="V", init_var_id=0, init_
         assert varnames[int(next(numbers))] == v
 
     dag = nx.DiGraph(arcs)
+    dag.add_nodes_from(varnames)
 
     # factors in the model
     factors = dict()
diff --git a/bcause/readwrite/scmread.py b/bcause/readwrite/scmread.py
index baec44d..da6ed93 100644
--- a/bcause/readwrite/scmread.py
+++ b/bcause/readwrite/scmread.py
@@ -61,6 +61,7 @@ def from_uai(filepath, reverse_values=False, var_prefix="V", init_var_id=0, init
         assert varnames[int(next(numbers))] == v
 
     dag = nx.DiGraph(arcs)
+    dag.add_nodes_from(varnames)
 
     # factors in the model
     factors = dict()
-- 
2.43.0


From 9ba30e5b0736d4b74cc6532cd35c749bf468bb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:05 +0000
Subject: [PATCH 31/62] fix: uai writer with factors listing the states of a
 variable in different orders

---
 bcause/readwrite/bnwrite.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bcause/readwrite/bnwrite.py b/bcause/readwrite/bnwrite.py
index 2c47be8..feca325 100644
--- a/bcause/readwrite/bnwrite.py
+++ b/bcause/readwrite/bnwrite.py
@@ -6,6 +6,7 @@ from pgmpy.readwrite import BIFWriter, XMLBIFWriter
 
 from bcause.factors import MultinomialFactor, DeterministicFactor
 from bcause.util.assertions import assert_file_exists
+from bcause.util.domainutils import assingment_space
 
 
 from typing import TYPE_CHECKING
@@ -67,9 +68,11 @@ def to_uai(model:'BayesianNetwork', filepath, reverse_values=False, label="BAYES
 
         # if not reverse_values:
         #     var_order = var_order[::-1]
-        values = f.values_array(vorder).flatten()
+
+        # the states are identified by their position in the domains of the model
+        values = [f.get_value(**s) for s in assingment_space({x: model.domains[x] for x in vorder})]
         if isinstance(f, DeterministicFactor):
-            values = [list(f.domain[v]).index(x) for x in values]
+            values = [list(model.domains[v]).index(x) for x in values]
         if v in integer_varlist:
             values = [int(p) for p in values]
         out += f"{len(values)}\t" + " ".join([str(p) for p in values]) + "\n"
-- 
2.43.0


From 4255e331499d64b0b928685b61d7ce3c9f532380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:27 +0000
Subject: [PATCH 32/62] fix: conversion to pgmpy of factors listing the states
 of a variable in different orders

---
 bcause/conversion/pgmpy.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bcause/conversion/pgmpy.py b/bcause/conversion/pgmpy.py
index bb45cc4..4d1f2a6 100644
--- a/bcause/conversion/pgmpy.py
+++ b/bcause/conversion/pgmpy.py
@@ -22,19 +22,22 @@ def toMultinomialFactor(factor : pfd.TabularCPD, vtype=None) -> bfd.MultinomialF
     right_vars = [v for v in factor.variables if v != factor.variable]
     return bfd.MultinomialFactor(domain, data, right_vars=right_vars, vtype=vtype)
 
-def toTabularCPT(f : bfd.MultinomialFactor) -> pfd.TabularCPD:
+def toTabularCPT(f : bfd.MultinomialFactor, domains=None) -> pfd.TabularCPD:
     v = list(f.left_domain.keys())[0]
     parents = f.right_vars
     card = f.store.cardinality_dict
 
+    # the order of the states might differ from that in the factor
+    domain = {x: (domains or f.domain)[x] for x in [v] + parents}
+
     # one row for each state of the variable, one column for each configuration of the parents
-    values = f.values_array([v] + parents).reshape(card[v], -1)
+    values = np.reshape([f.get_value(**s) for s in assingment_space(domain)], (card[v], -1))
 
     args = dict(
         variable = v,
         variable_card = card[v],
         values = values,
-        state_names = f.domain
+        state_names = domain
     )
 
     if len(parents)>0:
@@ -55,5 +58,5 @@ def toBCauseBNet(orig : pm.BayesianNetwork, vtype=None) -> 'bm.BayesianNetwork':
 
 def toPgmpyBNet(orig : 'bm.BayesianNetwork') -> pm.BayesianNetwork:
     dest = pm.BayesianNetwork(orig.graph)
-    dest.add_cpds(*[toTabularCPT(f) for f in orig.factors.values()])
+    dest.add_cpds(*[toTabularCPT(f, orig.domains) for f in orig.factors.values()])
     return dest
\ No newline at end of file
-- 
2.43.0


From de5c22d6950b352d3f4a7bd83c5d02d381f63f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:00 +0000
Subject: [PATCH 33/62] fix: reading uai files of causal models with endogenous
 variables without parents

---
 bcause/readwrite/scmread.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bcause/readwrite/scmread.py b/bcause/readwrite/scmread.py
index da6ed93..1a22ad3 100644
--- a/bcause/readwrite/scmread.py
+++ b/bcause/readwrite/scmread.py
@@ -65,14 +65,17 @@ def from_uai(filepath, reverse_values=False, var_prefix="V", init_var_id=0, init
 
     # factors in the model
     factors = dict()
+    endogenous = set()
     for v in varnames:
         num_values = int(next(numbers))
         values = [float(next(numbers)) for _ in range(num_values)]
-        if len(list(dag.predecessors(v))) == 0:
+        # without parents, an exogenous variable has a value for each state and an endogenous one has only its constant
+        if len(list(dag.predecessors(v))) == 0 and num_values == len(dom[v]):
             factors[v] = MultinomialFactor(dutils.var_parents_domain(dom, dag, v), left_vars=v, values=values)
         else:
             factors[v] = DeterministicFactor(dutils.var_parents_domain(dom, dag, v), left_vars=v, values=values)
+            endogenous.add(v)
 
     from bcause.models.cmodel import StructuralCausalModel
 
-    return StructuralCausalModel(dag, factors, cast_multinomial=cast_multinomial)
+    return StructuralCausalModel(dag, factors, endogenous=[v for v in dag if v in endogenous], cast_multinomial=cast_multinomial)
-- 
2.43.0


From aa7886836bee5f0b452ff20650d2a6d06ecbf5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:00 +0000
Subject: [PATCH 34/62] fix: reading uai files with more than ten variables

---
 bcause/readwrite/bnread.py  | 2 +-
 bcause/readwrite/scmread.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bcause/readwrite/bnread.py b/bcause/readwrite/bnread.py
index c376565..d7964ae 100644
--- a/bcause/readwrite/bnread.py
+++ b/bcause/readwrite/bnread.py
@@ -80,6 +80,6 @@ def from_uai(filepath, reverse_values=True, var_prefix="V", init_var_id=0, init_
     for v in varnames:
         num_values = int(next(numbers))
         values = [float(next(numbers)) for _ in range(num_values)]
-        factors[v] = MultinomialFactor(dutils.var_parents_domain(dom, dag, v), left_vars=v, values=values)
+        factors[v] = MultinomialFactor(dutils.var_parents_domain(dom, dag, v), left_vars=[v], values=values)
 
     return BayesianNetwork(dag, factors)
diff --git a/bcause/readwrite/scmread.py b/bcause/readwrite/scmread.py
index 1a22ad3..6518641 100644
--- a/bcause/readwrite/scmread.py
+++ b/bcause/readwrite/scmread.py
@@ -71,9 +71,9 @@ def from_uai(filepath, reverse_values=False, var_prefix="V", init_var_id=0, init
         values = [float(next(numbers)) for _ in range(num_values)]
         # without parents, an exogenous variable has a value for each state and an endogenous one has only its constant
         if len(list(dag.predecessors(v))) == 0 and num_values == len(dom[v]):
-            factors[v] = MultinomialFactor(dutils.var_parents_domain(dom, dag, v), left_vars=v, values=values)
+            factors[v] = MultinomialFactor(dutils.var_parents_domain(dom, dag, v), left_vars=[v], values=values)
         else:
-            factors[v] = DeterministicFactor(dutils.var_parents_domain(dom, dag, v), left_vars=v, values=values)
+            factors[v] = DeterministicFactor(dutils.var_parents_domain(dom, dag, v), left_vars=[v], values=values)
             endogenous.add(v)
 
     from bcause.models.cmodel import StructuralCausalModel
-- 
2.43.0


From 9eb2c946fd5fba3c0d87ead2998a0893707e3ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:33 +0000
Subject: [PATCH 35/62] fix: reading numbers with exponents in uai files

---
 bcause/readwrite/bnread.py  | 2 +-
 bcause/readwrite/scmread.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bcause/readwrite/bnread.py b/bcause/readwrite/bnread.py
index d7964ae..dbf48ad 100644
--- a/bcause/readwrite/bnread.py
+++ b/bcause/readwrite/bnread.py
@@ -48,7 +48,7 @@ def from_uai(filepath, reverse_values=True, var_prefix="V", init_var_id=0, init_
     def get_numbers(path):
         with open(path) as f:
             for line in f:
-                for v in re.findall(r"[-+]?(?:\d*\.*\d+)", line):
+                for v in re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?", line):
                     yield v
 
     numbers = get_numbers(filepath)
diff --git a/bcause/readwrite/scmread.py b/bcause/readwrite/scmread.py
index 6518641..1d97ac3 100644
--- a/bcause/readwrite/scmread.py
+++ b/bcause/readwrite/scmread.py
@@ -36,7 +36,7 @@ def from_uai(filepath, reverse_values=False, var_prefix="V", init_var_id=0, init
     def get_numbers(path):
         with open(path) as f:
             for line in f:
-                for v in re.findall(r"[-+]?(?:\d*\.*\d+E?[-+]?\d*)", line):
+                for v in re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?", line):
                     yield v
 
     numbers = get_numbers(filepath)
-- 
2.43.0


From 8cf196ed03c7461c6c3fc682dc03fa671f5e607b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:03 +0000
Subject: [PATCH 36/62] fix: models accepted factors whose domains disagree
 with those of the factors of other variables

---
 bcause/models/pgmodel.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bcause/models/pgmodel.py b/bcause/models/pgmodel.py
index 6fe2344..c31a1ca 100644
--- a/bcause/models/pgmodel.py
+++ b/bcause/models/pgmodel.py
@@ -66,6 +66,13 @@ class PGModel(ABC):
                 if v in self._domains and self._domains[v] != None:
                         if set(self._domains[v]) != set(f.domain[v]): raise ValueError(f"Inconsistent domain for {v} when setting {var}")
 
+            # the domains of the parents might be only known from the factors of other variables
+            for g in self._factors.values():
+                if g is None: continue
+                for v in f.variables:
+                    if v in g.variables and set(g.domain[v]) != set(f.domain[v]):
+                        raise ValueError(f"Inconsistent domain for {v} when setting {var}")
+
         # Update domains
         if var not in self._domains or self._domains[var] == None:
             self._domains[var] = f.domain[var]
-- 
2.43.0


From 05f7e16e518601b02e05f8642dfc3f5e87435e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:18 +0000
Subject: [PATCH 37/62] fix: setting something that is not a factor in a causal
 model raised AttributeError

---
 bcause/models/cmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index d155ebb..6d51ecb 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -177,7 +177,7 @@ class StructuralCausalModel(DiscreteCausalDAGModel):
         '''
         # SCM related check
         if self.is_endogenous(var):
-            if self._check_factors and not(isinstance(f, DeterministicFactor) or f.is_degenerate()):
+            if self._check_factors and not(isinstance(f, DeterministicFactor) or (isinstance(f, bf.DiscreteFactor) and f.is_degenerate())):
                 raise ValueError("Factor must be deterministic or degenerate")
             if self._cast_multinomial and isinstance(f, DeterministicFactor):
                 f = f.to_multinomial()
-- 
2.43.0


From aa42a40f3a5d356344cf22e5ff096db2509876e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:18 +0000
Subject: [PATCH 38/62] fix: renaming only some of the variables of a causal
 model

---
 bcause/models/cmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index 6d51ecb..b7038e8 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -203,7 +203,7 @@ class StructuralCausalModel(DiscreteCausalDAGModel):
         logging.debug(f"Renaming variables as {names_mapping}")
         new_dag = relabel_nodes(self.graph, names_mapping)
         new_factors = [f.rename_vars(names_mapping) for f in self.factors.values()]
-        new_endogenous = [names_mapping[x] for x in self.endogenous]
+        new_endogenous = [names_mapping.get(x, x) for x in self.endogenous]
         return StructuralCausalModel(dag=new_dag, factors=new_factors, endogenous=new_endogenous, cast_multinomial=self._cast_multinomial)
 
 
-- 
2.43.0


From 7a335949b3b28d10fc96e842ae71ac3d78b892a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:30 +0000
Subject: [PATCH 39/62] fix: submodel always raised TypeError

---
 bcause/models/cmodel.py  | 2 +-
 bcause/models/pgmodel.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index b7038e8..fd0374c 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -159,7 +159,7 @@ class StructuralCausalModel(DiscreteCausalDAGModel):
 
     def builder(self, **kwargs):
         if "cast_multinomial" not in kwargs: kwargs["cast_multinomial"] = self._cast_multinomial
-        if "endogenous" not in kwargs: kwargs["endogenous"] = self.endogenous
+        if "endogenous" not in kwargs: kwargs["endogenous"] = [x for x in self.endogenous if x in kwargs["dag"]]
         return StructuralCausalModel(**kwargs)
 
     @staticmethod
diff --git a/bcause/models/pgmodel.py b/bcause/models/pgmodel.py
index c31a1ca..99a1419 100644
--- a/bcause/models/pgmodel.py
+++ b/bcause/models/pgmodel.py
@@ -190,7 +190,7 @@ class DiscreteDAGModel(PGModel):
     def submodel(self, nodes:list) -> DiscreteDAGModel:
         new_dag = self.graph.subgraph(nodes)
         new_factors = {x: f for x, f in self.factors.items() if x in nodes}
-        return self.builder(new_dag, new_factors)
+        return self.builder(dag=new_dag, factors=new_factors)
 
     def rename_vars(self, names_mapping: dict) -> DiscreteDAGModel:
         logging.debug(f"Renaming variables as {names_mapping}")
-- 
2.43.0


From bb4496d981bc4d1297b5164b504ab36425930622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:44 +0000
Subject: [PATCH 40/62] fix: copying, renaming, intervening or restricting
 models where some factors are not set

---
 bcause/models/cmodel.py  | 2 +-
 bcause/models/pgmodel.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index fd0374c..8c42526 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -202,7 +202,7 @@ class StructuralCausalModel(DiscreteCausalDAGModel):
     def rename_vars(self, names_mapping: dict) -> DiscreteDAGModel:
         logging.debug(f"Renaming variables as {names_mapping}")
         new_dag = relabel_nodes(self.graph, names_mapping)
-        new_factors = [f.rename_vars(names_mapping) for f in self.factors.values()]
+        new_factors = [f.rename_vars(names_mapping) for f in self.factors.values() if f is not None]
         new_endogenous = [names_mapping.get(x, x) for x in self.endogenous]
         return StructuralCausalModel(dag=new_dag, factors=new_factors, endogenous=new_endogenous, cast_multinomial=self._cast_multinomial)
 
diff --git a/bcause/models/pgmodel.py b/bcause/models/pgmodel.py
index 99a1419..0a96ae9 100644
--- a/bcause/models/pgmodel.py
+++ b/bcause/models/pgmodel.py
@@ -136,7 +136,8 @@ class DiscreteDAGModel(PGModel):
     def _set_factors(self, factors):
         if isinstance(factors, dict):
             for v,f in factors.items():
-                self.set_factor(v,f)
+                # variables whose factor is not set yet (e.g., copies of incomplete models)
+                if f is not None: self.set_factor(v,f)
         elif isinstance(factors, Iterable):
             for f in factors:
                 if len(f.left_vars)>1: raise ValueError("Factor with more than one left variable.")
@@ -195,7 +196,7 @@ class DiscreteDAGModel(PGModel):
     def rename_vars(self, names_mapping: dict) -> DiscreteDAGModel:
         logging.debug(f"Renaming variables as {names_mapping}")
         new_dag = relabel_nodes(self.graph, names_mapping)
-        new_factors = [f.rename_vars(names_mapping) for f in self.factors.values()]
+        new_factors = [f.rename_vars(names_mapping) for f in self.factors.values() if f is not None]
         return self.builder(dag=new_dag, factors=new_factors)
 
 
-- 
2.43.0


From 700701b8504fb793c71ee3f9cdc19f79ae523e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:42 +0000
Subject: [PATCH 41/62] fix: d-connected nodes of several targets raised
 TypeError

---
 bcause/util/graphutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/util/graphutils.py b/bcause/util/graphutils.py
index ea2bc2e..2a026f5 100644
--- a/bcause/util/graphutils.py
+++ b/bcause/util/graphutils.py
@@ -64,7 +64,7 @@ def dsep_nodes(dag: nx.DiGraph, target, evidence_nodes):
     return dsep
 
 def dcon_nodes(dag: nx.DiGraph, target, evidence_nodes):
-    return set(dag.nodes).difference(dsep_nodes(dag,target,evidence_nodes)).difference({target})
+    return set(dag.nodes).difference(dsep_nodes(dag,target,evidence_nodes)).difference(as_lists(target))
 
 
 def remove_outgoing_edges(dag: nx.DiGraph, parent_vars: list) -> nx.DiGraph:
-- 
2.43.0


From fd433b9e0dfb98df2aa0309ec727c70783a696c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:42 +0000
Subject: [PATCH 42/62] fix: graphs given as text lost nodes without edges or
 failed with a single node

---
 bcause/util/graphutils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bcause/util/graphutils.py b/bcause/util/graphutils.py
index 2a026f5..8ae2e97 100644
--- a/bcause/util/graphutils.py
+++ b/bcause/util/graphutils.py
@@ -20,15 +20,18 @@ def dag2str(dag: nx.DiGraph) -> str:
 
 
 def str2dag(str_dag: str) -> nx.DiGraph:
-    arcs = []
-    s = str_dag[1:-1].split("][")[1]
+    nodes, arcs = [], []
     for s in str_dag[1:-1].split("]["):
         if "|" in s:
             x, right_vars = s.split("|")
             for y in right_vars.split(":"):
                 arcs.append((y, x))
+        else:
+            nodes.append(s)
 
-    return nx.DiGraph(arcs)
+    dag = nx.DiGraph(arcs)
+    dag.add_nodes_from(nodes)
+    return dag
 
 
 def _barren_info(dag: nx.DiGraph, S=None):
-- 
2.43.0


From 392ba09df2a3b620b012897079c9d8746ed05508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:42 +0000
Subject: [PATCH 43/62] fix: causal models given a graph as text

---
 bcause/models/cmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index 8c42526..29bc09d 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -150,7 +150,7 @@ class StructuralCausalModel(DiscreteCausalDAGModel):
     def __init__(self, dag:Union[nx.DiGraph,str], factors:Union[dict,list] = None, endogenous:Iterable = None,
                  cast_multinomial:bool = True, check_factors:bool = True):
         self._initialize(dag)
-        self._endogenous = endogenous or [x for x in dag if len(list(dag.predecessors(x)))>0]
+        self._endogenous = endogenous or [x for x in self.graph if len(list(self.graph.predecessors(x)))>0]
         self._cast_multinomial = cast_multinomial
         self._check_factors = check_factors
 
-- 
2.43.0


From aa10f7114639d49da013d984d7817134e60aa73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:13 +0000
Subject: [PATCH 44/62] fix: random multinomial factors were not a number when
 all the draws of a distribution are zero

---
 bcause/factors/mulitnomial.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bcause/factors/mulitnomial.py b/bcause/factors/mulitnomial.py
index 805a1b5..bdff700 100644
--- a/bcause/factors/mulitnomial.py
+++ b/bcause/factors/mulitnomial.py
@@ -221,7 +221,10 @@ def random_multinomial(domain:Dict, right_vars:list=None, vtype=None, allow_zero
     left_dims = [i for i,v in enumerate(domain.keys()) if v not in right_vars]
 
     if allow_zero:
-        data = normalize_array(np.random.uniform(0,1, size=[len(d) for d in domain.values()]), axis=left_dims)
+        data = np.random.uniform(0,1, size=[len(d) for d in domain.values()])
+        # if all the draws of a distribution are zero, they cannot be normalized
+        data = np.where(data.sum(axis=tuple(left_dims), keepdims=True) > 0, data, 1.)
+        data = normalize_array(data, axis=left_dims)
     else:
         data = normalize_array(-1*np.random.uniform(-1, 0, size=[len(d) for d in domain.values()]), axis=left_dims)
     return MultinomialFactor(domain=domain, values=data, right_vars=right_vars, vtype=vtype)
-- 
2.43.0


From 9242339ee2533d67084794ec6eea6d83c0380ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:13 +0000
Subject: [PATCH 45/62] fix: random deterministic factors without right
 variables

---
 bcause/factors/mulitnomial.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bcause/factors/mulitnomial.py b/bcause/factors/mulitnomial.py
index bdff700..0c66be4 100644
--- a/bcause/factors/mulitnomial.py
+++ b/bcause/factors/mulitnomial.py
@@ -239,6 +239,7 @@ def uniform_multinomial(domain:Dict, right_vars:list=None, vtype=None):
 
 def random_deterministic(dom:Dict, right_vars:list=None, vtype=None):
     vtype = vtype or DataStore.DEFAULT_STORE
+    right_vars = right_vars or []
     data = np.zeros([len(d) for d in dom.values()])
     for idx in [list(s.values()) for s in random_assignment(to_numeric_domains(dom), right_vars)]:
         set_value(1., data, idx)
-- 
2.43.0


From 87d1dca60309b4d4a0cffdcb443f49bbbe605a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:13 +0000
Subject: [PATCH 46/62] fix: random assignments changed the type of the states

---
 bcause/util/domainutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/util/domainutils.py b/bcause/util/domainutils.py
index ce0cafe..b5e9561 100644
--- a/bcause/util/domainutils.py
+++ b/bcause/util/domainutils.py
@@ -72,7 +72,7 @@ def numeric_assignment_space(dom):
 
 def random_assignment(dom, iterate_vars = None):
     if iterate_vars is None:
-        return {v:np.random.choice(d) for v,d in dom.items()}
+        return {v:d[np.random.choice(len(d))] for v,d in dom.items()}
 
     iterate_dom = {v: dom[v] for v in iterate_vars}
     select_dom = {v: dom[v] for v in dom.keys() if v not in iterate_vars}
-- 
2.43.0


From 8ce004ff60be36b2153b96022ab44eadf0980552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:54 +0000
Subject: [PATCH 47/62] fix: counting data with categorical columns raised
 TypeError

---
 bcause/util/datautils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bcause/util/datautils.py b/bcause/util/datautils.py
index bc2576c..c024c5a 100644
--- a/bcause/util/datautils.py
+++ b/bcause/util/datautils.py
@@ -11,7 +11,8 @@ def to_counts(domains, data=None, normalize=False):
             if not all([type(v)==str for v in domains[x]]):
                 raise ValueError("Missing values are only compatible in variables with str-like domains")
             domains[x] = domains[x] + ["nan"]
-        data = data.fillna("nan")
+        # as objects, because columns with categories do not admit a new value
+        data = data.astype(object).where(data.notna(), "nan")
         dcounts = data.value_counts(dropna=False).to_dict()
     else:
         dcounts = dict()
-- 
2.43.0


From fa76cfbb890025a6e124164bbc7497608237296a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:16 +0000
Subject: [PATCH 48/62] fix: fusion at roots checked only some of the variables
 in some of the models

---
 bcause/models/transform/combination.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bcause/models/transform/combination.py b/bcause/models/transform/combination.py
index 002bf18..a1608c8 100644
--- a/bcause/models/transform/combination.py
+++ b/bcause/models/transform/combination.py
@@ -1,4 +1,4 @@
-from itertools import starmap
+from itertools import product, starmap
 
 import networkx as nx
 
@@ -6,8 +6,7 @@ import networkx as nx
 def fusion_roots(models, on, **builder_kargs):
     is_root = lambda x ,m : len(list(m.graph.predecessors(x))) ==0
 
-    #todo: review this
-    if not all(starmap(is_root, zip(on ,models))):
+    if not all(starmap(is_root, product(on, models))):
         raise ValueError("Common nodes when fusion must all be root")
 
     if len(set([type(m) for m in models]))!=1:
-- 
2.43.0


From 92386712ef5121653e0d84dad375ab4d6dc7268f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:16 +0000
Subject: [PATCH 49/62] fix: the internal variable of interval factors was
 taken as a right one, or the given sides were refused

---
 bcause/factors/imprecise.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bcause/factors/imprecise.py b/bcause/factors/imprecise.py
index 6e6e682..fe8c0ef 100644
--- a/bcause/factors/imprecise.py
+++ b/bcause/factors/imprecise.py
@@ -34,6 +34,8 @@ class IntervalProbFactor(bf.DiscreteFactor, bf.ConditionalFactor):
 
         values_low,values_up = process_values(values_low), process_values(values_up)
         domain = {**dict(_bound=["low","up"]), **domain}
+        # the internal variable is always at the left side
+        if left_vars is not None: left_vars = ["_bound", *left_vars]
 
 
         if values_low.shape != values_up.shape:
-- 
2.43.0


From e71baf3c19029fdc99b9b82af2f814f3831a5c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:16 +0000
Subject: [PATCH 50/62] fix: renaming the variables of an interval factor
 raised TypeError

---
 bcause/factors/imprecise.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bcause/factors/imprecise.py b/bcause/factors/imprecise.py
index fe8c0ef..4b19915 100644
--- a/bcause/factors/imprecise.py
+++ b/bcause/factors/imprecise.py
@@ -101,6 +101,12 @@ class IntervalProbFactor(bf.DiscreteFactor, bf.ConditionalFactor):
         values_up = new_store.restrict(_bound="up").data
         return self.builder(domain=new_dom, values_low=values_low, values_up=values_up, left_vars=new_left_vars)
 
+    def rename_vars(self, names_mapping) -> IntervalProbFactor:
+        rename = lambda v : names_mapping.get(v, v)
+        new_dom = OrderedDict([(rename(v), d) for v, d in self.domain.items()])
+        return self.builder(domain=new_dom, values_low=self.store_low.values_list, values_up=self.store_up.values_list,
+                            left_vars=[rename(v) for v in self.left_vars])
+
     def _prepare_operand(self, f):
         raise NotImplementedError()
 
-- 
2.43.0


From 309483a16538c8fb890446a67e7d3e5d0dd1a000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:16 +0000
Subject: [PATCH 51/62] fix: restricting interval factors stored as trees gave
 unreadable values

---
 bcause/factors/imprecise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bcause/factors/imprecise.py b/bcause/factors/imprecise.py
index 4b19915..c7764b8 100644
--- a/bcause/factors/imprecise.py
+++ b/bcause/factors/imprecise.py
@@ -97,8 +97,8 @@ class IntervalProbFactor(bf.DiscreteFactor, bf.ConditionalFactor):
         new_store = self.store.restrict(**observation)
         new_left_vars = [v for v in new_store.variables if v in self.left_vars]
         new_dom = {v:k for v,k in new_store.domain.items() if not v.startswith("_")}
-        values_low = new_store.restrict(_bound="low").data
-        values_up = new_store.restrict(_bound="up").data
+        values_low = new_store.restrict(_bound="low").values_list
+        values_up = new_store.restrict(_bound="up").values_list
         return self.builder(domain=new_dom, values_low=values_low, values_up=values_up, left_vars=new_left_vars)
 
     def rename_vars(self, names_mapping) -> IntervalProbFactor:
-- 
2.43.0


From 0a9148c64c9b4f72b23dc4d4c1bf0116d386c8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:34 +0000
Subject: [PATCH 52/62] fix: restricting numpy factors to several states
 depended on their order and failed for several variables

---
 bcause/factors/values/numpyops.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bcause/factors/values/numpyops.py b/bcause/factors/values/numpyops.py
index a9a2e4c..442c52b 100644
--- a/bcause/factors/values/numpyops.py
+++ b/bcause/factors/values/numpyops.py
@@ -112,7 +112,7 @@ class NumpyStoreOperations(OperationSet):
 
     @staticmethod
     def restrict(store : 'NumpyStore', observation:dict) -> 'NumpyStore':
-        items = []
+        items, extended = [], dict()
         new_dom = OrderedDict()
         for v in store.variables:
             if v in observation.keys():
@@ -124,12 +124,15 @@ class NumpyStoreOperations(OperationSet):
                     idx = np.where(np.array(store.domain[v]) == obs_v)[0][0]
                     items.append(idx)
                 else:
-                    idx = [np.where(np.array(store.domain[v]) == x)[0][0] for x in obs_v]
-                    items.append(idx)
+                    # the states kept are in the order of the domain
+                    extended[v] = [i for i, x in enumerate(store.domain[v]) if x in obs_v]
+                    items.append(slice(None))
                     new_dom[v] = [x for x in store.domain[v] if x in obs_v]
             else:
                 items.append(slice(None))
                 new_dom[v] = store.domain[v]
         new_data = store._data[tuple(items)].copy()
+        for v, idx in extended.items():
+            new_data = np.take(new_data, idx, axis=list(new_dom.keys()).index(v))
         return store.builder(domain=new_dom, data=new_data)
 
-- 
2.43.0


From 7270c1a6a0e2627c8ea47954bc350376a2a6800c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:17 +0000
Subject: [PATCH 53/62] fix: reading causal .uai files with another initial
 state gave equations out of their domain

---
 bcause/readwrite/scmread.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bcause/readwrite/scmread.py b/bcause/readwrite/scmread.py
index 1d97ac3..a175e7b 100644
--- a/bcause/readwrite/scmread.py
+++ b/bcause/readwrite/scmread.py
@@ -73,6 +73,8 @@ def from_uai(filepath, reverse_values=False, var_prefix="V", init_var_id=0, init
         if len(list(dag.predecessors(v))) == 0 and num_values == len(dom[v]):
             factors[v] = MultinomialFactor(dutils.var_parents_domain(dom, dag, v), left_vars=[v], values=values)
         else:
+            # in the file, the states are identified by their position
+            values = [dom[v][int(i)] for i in values]
             factors[v] = DeterministicFactor(dutils.var_parents_domain(dom, dag, v), left_vars=[v], values=values)
             endogenous.add(v)
 
-- 
2.43.0


From 3bcffd7bca5c32d827cad324c6eeac0b261c1313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:38 +0000
Subject: [PATCH 54/62] fix: learning by expectation maximisation from
 partially observed variables counted rows twice or failed

---
 .../learning/parameter/expectation_maximization.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/bcause/learning/parameter/expectation_maximization.py b/bcause/learning/parameter/expectation_maximization.py
index 62670ad..868a922 100644
--- a/bcause/learning/parameter/expectation_maximization.py
+++ b/bcause/learning/parameter/expectation_maximization.py
@@ -48,6 +48,12 @@ class ExpectationMaximization(AbastractExpectationMaximization):
         self._inference_method = inference_method
 
     def _get_obs_counts(self, target):
+        observed = self._data.notna()
+        if self.prior_model.get_parents(target) or observed[target].any() or len(observed.drop_duplicates()) > 1:
+            # blankets are only enough with root variables never observed and rows with the same observed variables
+            rows = self._data.groupby(self._variables, dropna=False, sort=False).size().reset_index(name="_count").to_dict("records")
+            return [({v: row[v] for v in self._variables if not pd.isna(row[v])}, row["_count"]) for row in rows]
+
         obs_blanket = self._datadeps.get_minimal_obs_blanket(target)
         return [(obs, sum(reduce( lambda x,y : x&y, [self._data[v] == s for v,s in obs.items()])) if obs else len(self._data)) for obs in obs_blanket]
 
@@ -64,7 +70,13 @@ class ExpectationMaximization(AbastractExpectationMaximization):
                 hidden = [x for x in relevant if x not in obs]
 
                 #print(f"{hidden} | {obs}")
-                exp_counts = self._inf.query(target=hidden, evidence=obs) * c
+                exp_counts = self._inf.query(target=hidden, evidence=obs) * c if hidden else c
+
+                # only the configurations agreeing with the observation are counted
+                for x in [x for x in relevant if x in obs]:
+                    dom = self._prior_model.get_domains(x)
+                    exp_counts = MultinomialFactor(dom, values=[float(s == obs[x]) for s in dom[x]]) * exp_counts
+
                 pcounts[v] = pcounts[v] + exp_counts
 
         return pcounts
-- 
2.43.0


From fc028c54b7733715cff25a59cbe349ded212a247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:13 +0000
Subject: [PATCH 55/62] fix: writing one cell of a tree changed all the
 configurations sharing its leaf

---
 bcause/factors/values/treedictstore.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bcause/factors/values/treedictstore.py b/bcause/factors/values/treedictstore.py
index ab2f8e1..4526bcd 100644
--- a/bcause/factors/values/treedictstore.py
+++ b/bcause/factors/values/treedictstore.py
@@ -43,12 +43,17 @@ class TreeDictStore(DiscreteStore):
 
     def set_value(self, value, observation):
         def modify_dict(data, observation, value):
-            if not isinstance(data, dict) or len(observation) == 0:
+            if len(observation) == 0:
                 out = value
+            elif not isinstance(data, dict):
+                # a leaf shared by several configurations is expanded for setting only one of them
+                var = list(observation.keys())[0]
+                node = treeNode(var, {state: data for state in self.domain[var]})
+                out = modify_dict(node, observation, value)
             elif data["var"] not in observation:
                 new_ch = dict()
                 for state, ch in data["children"].items():
-                    new_ch[state] = value if not isinstance(ch, dict) else modify_dict(ch, observation, value)
+                    new_ch[state] = modify_dict(ch, observation, value)
                 out = treeNode(data["var"], new_ch)
 
             else:
-- 
2.43.0


From 86b82b9228e15d2f16bf73c2675ad6d4358f94d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:53 +0000
Subject: [PATCH 56/62] fix: trees pruned to a single value lost it for all but
 the first state

---
 bcause/factors/values/treedictstore.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bcause/factors/values/treedictstore.py b/bcause/factors/values/treedictstore.py
index 4526bcd..b46d54b 100644
--- a/bcause/factors/values/treedictstore.py
+++ b/bcause/factors/values/treedictstore.py
@@ -23,7 +23,8 @@ class TreeDictStore(DiscreteStore):
         if data is None:
             data = np.zeros(np.prod([len(d) for d in domain.values()]))
         if not isinstance(data, dict):
-            if len(domain)>0 and type(data) not in [dict, OrderedDict]:
+            # a single value is already a tree: the leaf shared by all the configurations
+            if len(domain)>0 and np.ndim(data)>0:
                 data = build_default_tree(domain, data)
             elif isinstance(data, np.ndarray):
                 data = data.item()
-- 
2.43.0


From 1b5d8308d45c35ba6c33dff1b2a10a59b06f013f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:34 +0000
Subject: [PATCH 57/62] fix: counterfactual targets without a world of their
 own were dropped silently

---
 bcause/inference/causal/causal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bcause/inference/causal/causal.py b/bcause/inference/causal/causal.py
index d8b1232..05d41e2 100644
--- a/bcause/inference/causal/causal.py
+++ b/bcause/inference/causal/causal.py
@@ -81,6 +81,8 @@ class CausalInference(Inference):
             #if not isinstance(do, dict): raise ValueError("Intervention must be specified in a single dictionary")
             target = as_lists(target)
             targets_subgraphs = targets_subgraphs or [1]*len(target)
+            if len(targets_subgraphs) != len(target):
+                raise ValueError("One subgraph must be indicated for each target")
             target = [f"{t[0]}_{t[1]}" for t in zip(target, targets_subgraphs)]
         return self.compile(target, do, evidence,counterfactual).run()
 
-- 
2.43.0


From 715d19c6ec4ac0a0e71b85b2d888bffe4d08700d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:15 +0000
Subject: [PATCH 58/62] fix: an intervention on a variable the model does not
 have was ignored silently

---
 bcause/models/cmodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index 29bc09d..18e6a88 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -18,6 +18,7 @@ from bcause.models import BayesianNetwork
 from bcause.models.pgmodel import DiscreteDAGModel
 import bcause.util.domainutils as dutils
 import bcause.util.graphutils as gutils
+from bcause.util.assertions import assert_dag_with_nodes
 
 import bcause.factors.factor as bf
 
@@ -193,6 +194,7 @@ class StructuralCausalModel(DiscreteCausalDAGModel):
 
 
     def intervention(self, **obs):
+        assert_dag_with_nodes(self.graph, obs.keys())
         new_dag = gutils.remove_ingoing_edges(self.graph, obs.keys())
         new_factors = dict()
         for v, f in self.factors.items():
-- 
2.43.0


From 495b3d0823dadbc7fe99c474d957a650c9c32eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:50 +0000
Subject: [PATCH 59/62] fix: gradient learning gave all exogenous parents of a
 child the state of the trained one

---
 bcause/learning/parameter/gradient.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bcause/learning/parameter/gradient.py b/bcause/learning/parameter/gradient.py
index 8cb7f79..c6629a2 100644
--- a/bcause/learning/parameter/gradient.py
+++ b/bcause/learning/parameter/gradient.py
@@ -167,6 +167,10 @@ class GradientLikelihood(IterativeParameterLearning):
             if (~data[v].isna()).any():
                 raise ValueError(f"Trainable variable {v} is not completely missing")
 
+            # the objective only considers one exogenous parent for each child
+            if any(len(self.prior_model.get_exogenous_parents(x)) > 1 for x in self.prior_model.get_edogenous_children(v)):
+                raise ValueError(f"Trainable variable {v} has children with other exogenous parents")
+
         # save the dataset
         self._data = data
 
-- 
2.43.0


From 2ee702771d1d21f75314a65582cb440666fd1142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:59 +0000
Subject: [PATCH 60/62] fix: uai files without a label or with part of it were
 read as if it were right

---
 bcause/readwrite/bnread.py  | 2 +-
 bcause/readwrite/scmread.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bcause/readwrite/bnread.py b/bcause/readwrite/bnread.py
index dbf48ad..22ff256 100644
--- a/bcause/readwrite/bnread.py
+++ b/bcause/readwrite/bnread.py
@@ -41,7 +41,7 @@ def from_uai(filepath, reverse_values=True, var_prefix="V", init_var_id=0, init_
     # Check the label
     with open(filepath) as f:
         l = f.readline().replace(" ", "").replace("\n", "")
-        if l not in label:
+        if l != label:
             raise ValueError(f"Wrong label in uai file: {l}")
             # Generator with the numbers in the file
 
diff --git a/bcause/readwrite/scmread.py b/bcause/readwrite/scmread.py
index a175e7b..4911ed3 100644
--- a/bcause/readwrite/scmread.py
+++ b/bcause/readwrite/scmread.py
@@ -29,7 +29,7 @@ def from_uai(filepath, reverse_values=False, var_prefix="V", init_var_id=0, init
     # Check the label
     with open(filepath) as f:
         l = f.readline().replace(" ", "").replace("\n", "")
-        if l not in label:
+        if l != label:
             raise ValueError(f"Wrong label in uai file: {l}")
             # Generator with the numbers in the file
 
-- 
2.43.0


From 8aa956baf8c0baa2fb77e3523fe30ff8eb931c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:52 +0000
Subject: [PATCH 61/62] fix: combining a probability table with an equation
 used the states of the equation as numbers

---
 bcause/factors/mulitnomial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bcause/factors/mulitnomial.py b/bcause/factors/mulitnomial.py
index 0c66be4..0f65046 100644
--- a/bcause/factors/mulitnomial.py
+++ b/bcause/factors/mulitnomial.py
@@ -79,6 +79,9 @@ class MultinomialFactor(bf.DiscreteFactor, bf.ConditionalFactor):
     def _prepare_operand(self, f):
         # if it's a scalar, transform it in a constant factor
         if isinstance(f, (int, float, np.number)): f = self.builder(domain=dict(), values=[f])
+        # the values of an equation are states, its probabilities are those of its table
+        from bcause.factors import DeterministicFactor
+        if isinstance(f, DeterministicFactor): f = f.to_multinomial()
         return f
 
     def multiply(self, other : Union[MultinomialFactor, int, float]):
-- 
2.43.0


From 8ac91801de3984d427a85fc7168df0bf655b08bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:48 +0000
Subject: [PATCH 62/62] fix: weights of the variables with many neighbours
 overflowed in the elimination orderings

---
 bcause/inference/ordering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bcause/inference/ordering.py b/bcause/inference/ordering.py
index 04a6999..b9a6dff 100644
--- a/bcause/inference/ordering.py
+++ b/bcause/inference/ordering.py
@@ -1,4 +1,5 @@
 from enum import Enum, auto
+from math import prod
 
 import numpy as np
 import networkx as nx
@@ -20,7 +21,7 @@ def fillin_arcs(var, moral):
 # costs
 cost_functions = {
     Heuristic.MIN_SIZE.name : lambda var, moral : len(moral.adj[var]),
-    Heuristic.MIN_WEIGHT.name : lambda var, moral : np.prod([moral.nodes[v]["size"] for v in list(moral[var])+[var]]),
+    Heuristic.MIN_WEIGHT.name : lambda var, moral : prod([moral.nodes[v]["size"] for v in list(moral[var])+[var]]),
     Heuristic.MIN_FILL.name : lambda var, moral : len(fillin_arcs(var, moral))
 }
 
-- 
2.43.0

