From 06057bd1e0bc3ec568ca5e47c72bca84314fbd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:00 +0000
Subject: [PATCH 01/51] fix: third-order finite difference had the opposite
 sign

---
 kd/utils/utils_fd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/utils/utils_fd.py b/kd/utils/utils_fd.py
index c57d737..08391da 100644
--- a/kd/utils/utils_fd.py
+++ b/kd/utils/utils_fd.py
@@ -61,7 +61,7 @@ def FiniteDiff(u, dx, order=1):
         ux[n-1] = (2*u[n-1] - 5*u[n-2] + 4*u[n-3] - u[n-4]) / (dx**2)
     elif order == 3:
         for i in range(2, n-2):
-            ux[i] = (-u[i+2] + 2*u[i+1] - 2*u[i-1] + u[i-2]) / (2*dx**3)
+            ux[i] = (u[i+2] - 2*u[i+1] + 2*u[i-1] - u[i-2]) / (2*dx**3)
         ux[0:2] = 0
         ux[n-2:] = 0
     elif order == 4:
-- 
2.43.0


From e48fbb770fc8852813b8cd410033b07a2198d576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 02/51] fix: 2-D Laplacian operator failed to compile under
 numba on every call

---
 kd/model/discover/task/pde/utils_fd.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/kd/model/discover/task/pde/utils_fd.py b/kd/model/discover/task/pde/utils_fd.py
index 74d9e58..d4cd645 100644
--- a/kd/model/discover/task/pde/utils_fd.py
+++ b/kd/model/discover/task/pde/utils_fd.py
@@ -192,7 +192,6 @@ def Diff2_2(u, dxt, name=1):
 
     return uxt
 
-@jit(nopython=True)
 def Laplace(u,x):
     x1,x2 = x
     uxt = Diff2_2(u,x1, name = 1)
-- 
2.43.0


From 44038363c61ad978a19890fc3ac745a63db6dd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 03/51] fix: spline sampling paired points with values of the
 transposed grid

---
 kd/dataset/_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kd/dataset/_base.py b/kd/dataset/_base.py
index c0c10f8..1d6d2f9 100644
--- a/kd/dataset/_base.py
+++ b/kd/dataset/_base.py
@@ -548,7 +548,8 @@ class PDEDataset(MetaData):
             usol_new = spline(t_new, x_new)
             x_samples, t_samples = np.meshgrid(x_new, t_new)
             sampled_points = np.column_stack((x_samples.flatten(), t_samples.flatten()))
-            sampled_usol = usol_new.flatten()
+            # spline() returns (x, t); the points above run over (t, x)
+            sampled_usol = usol_new.T.flatten()
 
         else:
             raise ValueError(f"Unsupported sampling method: {method}")
-- 
2.43.0


From 9d86b393522f7c371d939004f5bf7106dc637785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 04/51] fix: loaders silently transposed square (nx == nt)
 solution arrays

---
 kd/dataset/__init__.py | 2 +-
 kd/dataset/_base.py    | 2 +-
 kd/runner.py           | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/kd/dataset/__init__.py b/kd/dataset/__init__.py
index fb47d36..e682354 100644
--- a/kd/dataset/__init__.py
+++ b/kd/dataset/__init__.py
@@ -49,7 +49,7 @@ def load_pde(name: str, **kwargs) -> PDEDataset:
         x = np.asarray(np.load(data_path / info['files']['x']), dtype=float).flatten()
         t = np.asarray(np.load(data_path / info['files']['t']), dtype=float).flatten()
 
-        if u.shape == (len(t), len(x)):
+        if len(x) != len(t) and u.shape == (len(t), len(x)):
             u = u.T
 
         dataset = PDEDataset(
diff --git a/kd/dataset/_base.py b/kd/dataset/_base.py
index 1d6d2f9..1305404 100644
--- a/kd/dataset/_base.py
+++ b/kd/dataset/_base.py
@@ -745,7 +745,7 @@ def load_pde_dataset(
         u_data = np.asarray(pde_data[u_key])
 
         # 确保 u_data 的形状与 (len(x), len(t)) 对齐
-        if u_data.shape == (len(t_data), len(x_data)):
+        if len(x_data) != len(t_data) and u_data.shape == (len(t_data), len(x_data)):
             u_data = u_data.T
 
         # 4. 将所有信息送入 PDEDataset 进行标准化封装
diff --git a/kd/runner.py b/kd/runner.py
index 5555677..78a5c45 100644
--- a/kd/runner.py
+++ b/kd/runner.py
@@ -51,7 +51,7 @@ def load_dataset(config):
             x = np.asarray(raw[file_config.get("x_key", "x")], dtype=float).flatten()
             t = np.asarray(raw[file_config.get("t_key", "t")], dtype=float).flatten()
             u = np.asarray(raw[file_config.get("u_key", "usol")])
-            if u.shape == (len(t), len(x)):
+            if len(x) != len(t) and u.shape == (len(t), len(x)):
                 u = u.T
             return PDEDataset(equation_name="uploaded", x=x, t=t, usol=u)
 
-- 
2.43.0


From cc04a54f0ad4afd9cec09751c666defb226748b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 05/51] fix: descendant constraints ignored every child but the
 first of a binary ancestor

---
 kd/model/discover/dso/subroutines.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kd/model/discover/dso/subroutines.py b/kd/model/discover/dso/subroutines.py
index dbbf4c9..ff655b8 100644
--- a/kd/model/discover/dso/subroutines.py
+++ b/kd/model/discover/dso/subroutines.py
@@ -190,7 +190,8 @@ def ancestors(actions, arities, ancestor_tokens):
             if threshold is None:
                 for trig_token in ancestor_tokens:
                     if actions[r, c] == trig_token:
-                        threshold = dangling - 1
+                        # The branch is complete once all of its children are
+                        threshold = dangling - arity
                         break
             # Turn "off" once the branch completes
             else:
-- 
2.43.0


From 79106fe187893e4bdeaab3c2965f3e5752fa8f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 06/51] fix: computing the next observation overwrote the
 recorded previous one

---
 kd/model/discover/task/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kd/model/discover/task/task.py b/kd/model/discover/task/task.py
index 15b8d3d..88b801c 100644
--- a/kd/model/discover/task/task.py
+++ b/kd/model/discover/task/task.py
@@ -138,7 +138,8 @@ class HierarchicalTask(Task):
         # Update dangling with (arity - 1) for each element in action
         #import pdb;pdb.set_trace()
         try:
-            dangling += lib.arities[action] - 1
+            # Not in-place: obs is the caller's record of the previous step
+            dangling = dangling + lib.arities[action] - 1
         except:
             import pdb;pdb.set_trace()
         prior = self.prior(actions, parent, sibling, dangling) # (?, n_choices)
-- 
2.43.0


From c5da1d7f8aa181f70f6e14e4184d2f9ef2ebb089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:02 +0000
Subject: [PATCH 07/51] fix: retrospective constraint check missed or crashed
 on left/right-child and descendant constraints

---
 kd/model/discover/dso/prior.py       |  5 +++++
 kd/model/discover/dso/subroutines.py | 17 ++++++++++-------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/kd/model/discover/dso/prior.py b/kd/model/discover/dso/prior.py
index 9d548b2..9e7d0eb 100644
--- a/kd/model/discover/dso/prior.py
+++ b/kd/model/discover/dso/prior.py
@@ -457,6 +457,11 @@ class RelationalConstraint(Constraint):
             violated = jit_check_constraint_violation_uchild(actions, parent, sibling, self.targets, 
                                                      adj_unary_effectors, adj_effectors)
 
+        elif self.relationship in ["lchild", "rchild"]:
+            adj_parents = self.library.parent_adjust[self.effectors]
+            side = np.equal(sibling, self.L) if self.relationship == "lchild" else np.less(sibling, self.L)
+            violated = bool(np.any(np.isin(actions, self.targets) & np.isin(parent, adj_parents) & side))
+
         return violated
 
     def validate(self):
diff --git a/kd/model/discover/dso/subroutines.py b/kd/model/discover/dso/subroutines.py
index ff655b8..9906885 100644
--- a/kd/model/discover/dso/subroutines.py
+++ b/kd/model/discover/dso/subroutines.py
@@ -516,7 +516,7 @@ def jit_check_constraint_violation_descendant_no_target_tokens(\
                 
                 return True
             descendant  = True
-            dangling    = 1
+            dangling    = 2 if a_in_b(action, binary_tokens, B) else 1
         elif descendant:
             if a_in_b(action, binary_tokens, B):
                 # Does action match a binary token?
@@ -582,24 +582,27 @@ def jit_check_constraint_violation_descendant_with_target_tokens(\
             
     _,L     = actions.shape
     T       = target_tokens.shape[0]
+    E       = effector_tokens.shape[0]
     B       = binary_tokens.shape[0]
     U       = unary_tokens.shape[0]
     
     descendant = False # True when current node is a descendant of operator
+    dangling   = 0     # Open nodes below the outermost operator
 
     # For each action:
     for l in range(L):
         
         action = actions[0,l]
         
-        if a_in_b(action, effector_tokens, T):
-            # Does action match a target token?
+        if descendant and a_in_b(action, target_tokens, T):
+            return True
+
+        if not descendant and a_in_b(action, effector_tokens, E):
+            # The action itself is the first open node of the branch.
             descendant  = True
             dangling    = 1
-        elif a_in_b(action, target_tokens, T):
-            if descendant:                
-                return True
-        elif descendant:
+
+        if descendant:
             if a_in_b(action, binary_tokens, B):
                 # Does action match a binary token?
                 # Then add one to dangling.
-- 
2.43.0


From e8d8d6ef8761b0a87842f8f23c5dfcdbd8ec9126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:30 +0000
Subject: [PATCH 08/51] fix: generic constraint violation test was one step off
 and corrupted the constraint's mask value

---
 kd/model/discover/dso/prior.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/kd/model/discover/dso/prior.py b/kd/model/discover/dso/prior.py
index 9e7d0eb..b695976 100644
--- a/kd/model/discover/dso/prior.py
+++ b/kd/model/discover/dso/prior.py
@@ -336,17 +336,20 @@ class Constraint(Prior):
         assert len(actions.shape) == 2, "Only takes in one action at a time since this is how Deap will use it."
         assert actions.shape[0] == 1, "Only takes in one action at a time since this is how Deap will use it."
         
-        self.mask_val   = 1.0
         dangling        = np.ones((1), dtype=np.int32)
         
-        # For each step in time, get the prior                                
+        # For each step in time, get the prior that applied before choosing the action
         for t in range(actions.shape[1]):
-            dangling    += self.library.arities[actions[:,t]] - 1   
-            priors      = self.__call__(actions[:,:t], parent[:,t], sibling[:,t], dangling)
+            if t == 0:
+                priors  = self.initial_prior()[np.newaxis, :]
+            else:
+                priors  = self.__call__(actions[:,:t], parent[:,t], sibling[:,t], dangling)
             
             # Does our action conflict with this prior?
-            if priors[0,actions[0,t]]:
+            if priors[0,actions[0,t]] == self.mask_val:
                 return True
+
+            dangling    = dangling + self.library.arities[actions[:,t]] - 1
              
         return False
     
-- 
2.43.0


From 28f9c96b61ad815f1b33ea5e6abf7e47f05d89a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 09/51] fix: max/min operators were registered as unary and
 could never be executed

---
 kd/model/discover/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/model/discover/functions.py b/kd/model/discover/functions.py
index 8c6e57e..a499644 100644
--- a/kd/model/discover/functions.py
+++ b/kd/model/discover/functions.py
@@ -110,8 +110,8 @@ unprotected_ops = [
     Token(np.square, "n2", arity=1, complexity=2),
     Token(np.negative, "neg", arity=1, complexity=1),
     Token(np.abs, "abs", arity=1, complexity=2),
-    Token(np.maximum, "max", arity=1, complexity=4),
-    Token(np.minimum, "min", arity=1, complexity=4),
+    Token(np.maximum, "max", arity=2, complexity=4),
+    Token(np.minimum, "min", arity=2, complexity=4),
     Token(np.tanh, "tanh", arity=1, complexity=4),
     Token(np.reciprocal, "inv", arity=1, complexity=2),
 
-- 
2.43.0


From ec6f70caa87243f8780346b366b814e6c0841845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:42 +0000
Subject: [PATCH 10/51] fix: coordinate operands of N-D fields were broadcast
 along the wrong axis

---
 kd/model/discover/execute.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/kd/model/discover/execute.py b/kd/model/discover/execute.py
index 6d77b0d..a58929f 100644
--- a/kd/model/discover/execute.py
+++ b/kd/model/discover/execute.py
@@ -5,6 +5,17 @@ import torch
 """
 evaluate PDE traversal through predefined operators and operands.
 """
+def _align_coordinate(coord, u, input_var):
+    """
+    Shape a coordinate vector so that it varies along its own axis of an N-D field
+    (time first, then the spatial axes) when it is used as an operand.
+    """
+    shape = getattr(u[0], 'shape', ()) if len(u) > 0 else ()
+    axis = input_var + 1
+    if len(shape) < 3 or axis >= len(shape) or coord.size != shape[axis]:
+        return coord
+    return coord.reshape([-1 if k == axis else 1 for k in range(len(shape))])
+
 def python_execute(traversal, u, x):
     """
     evaulate the preorder traversal with provided data based on numpy. Modified from dso.
@@ -25,6 +36,9 @@ def python_execute(traversal, u, x):
 
                 intermediate_result =  x[token.input_var]
                 dim_flag = token.input_var+1
+                parent_name = apply_stack[-2][0].name if len(apply_stack) > 1 else ''
+                if not ('diff' in parent_name or 'Diff' in parent_name):
+                    intermediate_result = _align_coordinate(intermediate_result, u, token.input_var)
             elif token.param_var is not None:
                 intermediate_result = token._param_data_ref
             elif token.state_var is not None:
-- 
2.43.0


From ab92baad88c4a6b9f0ef7a11b2c881f1c969c0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:09 +0000
Subject: [PATCH 11/51] fix: physics residual crashed on equations with a
 fitted constant

---
 kd/model/discover/stridge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kd/model/discover/stridge.py b/kd/model/discover/stridge.py
index 729c278..b242e45 100644
--- a/kd/model/discover/stridge.py
+++ b/kd/model/discover/stridge.py
@@ -615,7 +615,8 @@ class STRidge(object):
         RHS = 0
         if isinstance(coefs, list):
             for i in range(len(coefs)):
-                RHS += results[i]*coefs[i]        
+                # a trailing coefficient without a term belongs to the constant
+                RHS += results[i]*coefs[i] if i < len(results) else coefs[i]
         else:
             RHS = coefs(results)
             
-- 
2.43.0


From 42f7212fb7695de32aac034a1914c74cc780d8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:31 +0000
Subject: [PATCH 12/51] fix: duplicate removal overwrote an unrelated candidate
 of equal length

---
 kd/model/discover/ga_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/model/discover/ga_utils.py b/kd/model/discover/ga_utils.py
index e61622d..56e7fab 100644
--- a/kd/model/discover/ga_utils.py
+++ b/kd/model/discover/ga_utils.py
@@ -211,13 +211,13 @@ def drop_duplicates( tokens, values):
 
     for i, (arr_current, str_current) in enumerate(zip(values, token_len)):
         duplicate_found = False
-        for arr_compare, str_compare in zip(values[i+1:], token_len[i+1:]):
+        for idx in range(i+1, len(values)):
+            arr_compare, str_compare = values[idx], token_len[idx]
             # if the sum of differences is less than 1e-5, consider them the same
             if np.abs(np.sum(arr_compare - arr_current)) < 1e-5:
                 duplicate_found = True
                 # if the current string is shorter, replace the compared one
                 if str_current < str_compare:
-                    idx = token_len.index(str_compare)
                     token_len[idx] = str_current
                     tokens[idx]=tokens[i]
                     values[idx]=values[i]
-- 
2.43.0


From a209ab54b8df3a2f53b8bcc2b8327e21f9184878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:31 +0000
Subject: [PATCH 13/51] fix: search step crashed when every kept program had
 zero reward

---
 kd/model/discover/searcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/discover/searcher.py b/kd/model/discover/searcher.py
index a1ebc84..15f6346 100644
--- a/kd/model/discover/searcher.py
+++ b/kd/model/discover/searcher.py
@@ -163,7 +163,7 @@ class Searcher:
             return
         programs, r, r_train, r_full_valid, p_train, priors,on_policy,obs, actions, baseline_r = reserved
         
-        r_max = np.max(r_full_valid)
+        r_max = np.max(r_full_valid) if len(r_full_valid) > 0 else np.max(r)
         self.r_best = max(r_max, self.r_best)
         
         if self.gp_aggregator is not None:   
-- 
2.43.0


From bd103db2364cb004e472db3c77a1402b4c4770f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:30 +0000
Subject: [PATCH 14/51] fix: inv_nrmse reward of the PDE task could not be
 called

---
 kd/model/discover/task/pde/pde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/discover/task/pde/pde.py b/kd/model/discover/task/pde/pde.py
index 9d8d40c..7daaab5 100644
--- a/kd/model/discover/task/pde/pde.py
+++ b/kd/model/discover/task/pde/pde.py
@@ -281,7 +281,7 @@ def make_pde_metric(name, *args):
     # ut = 
     all_metrics = {
 
-        "inv_nrmse" :    (lambda y, y_hat : 1/(1 + np.sqrt(np.mean((y - y_hat)**2)/np.var(y))),
+        "inv_nrmse" :    (lambda y, y_hat,n : 1/(1 + np.sqrt(np.mean((y - y_hat)**2)/np.var(y))),
                         1),
 
         "pde_reward":  (lambda y, y_hat,n : (1-args[0]*n)/(1 + np.sqrt(np.mean((y - y_hat)**2)/np.var(y))),
-- 
2.43.0


From 5e7ac356c479475c5a461e9de5ea360389e02d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:11 +0000
Subject: [PATCH 15/51] fix: tree mutation never ended when only one derivative
 axis exists

---
 kd/model/sga/sgapde/tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kd/model/sga/sgapde/tree.py b/kd/model/sga/sgapde/tree.py
index b602314..949d9fa 100644
--- a/kd/model/sga/sgapde/tree.py
+++ b/kd/model/sga/sgapde/tree.py
@@ -121,6 +121,8 @@ class Tree: #对应于pde中的一个term
                         while node[0] == temp or (parent.name in {'d', 'd^2'} and node[0] not in context.den[:, 0]):# rule 3: 如果编译前后结果重复，或者d的节点不在den中（即出现不能求导的对象），则重新抽取
                             if context.simple_mode and parent.name in {'d', 'd^2'} and node[0] == 'x': # simple_mode中，遇到对于x的导数，直接停止变异
                                 break
+                            if parent.name in {'d', 'd^2'} and len(context.den) == 1 and node[0] == temp == context.den[0, 0]: # 只有一个可求导的轴时没有别的候选，保留原节点
+                                break
                             node = context.VARS[np.random.randint(0, len(context.VARS))] # 重新抽取一个vars
                         new_node = Node(depth=depth, idx=idx_this_depth, parent_idx=parent_idx, name=node[0],
                                     var=node[2], full=node, child_num=int(node[1]), child_st=None)
-- 
2.43.0


From 1e87e438859b4896f5ec37eecfc8ca9bfde5945a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:11 +0000
Subject: [PATCH 16/51] fix: safe division wrote into the problem data

---
 kd/model/sga/sgapde/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/sga/sgapde/config.py b/kd/model/sga/sgapde/config.py
index 66200ac..71c1d13 100644
--- a/kd/model/sga/sgapde/config.py
+++ b/kd/model/sga/sgapde/config.py
@@ -265,7 +265,7 @@ class SolverConfig:
     def divide(up, down, eta=1e-10):
         """Safe division function."""
         while np.any(down == 0):
-            down += eta
+            down = down + eta
         return up / down
         
     def get_device(self):
-- 
2.43.0


From d1f66409ac43642ffd5634da7197aa8a040a01f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:11 +0000
Subject: [PATCH 17/51] fix: SGA equation display lost grouping and the
 target's name

---
 kd/model/sga/sgapde/equation.py | 36 ++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/kd/model/sga/sgapde/equation.py b/kd/model/sga/sgapde/equation.py
index 50b3669..99a4867 100644
--- a/kd/model/sga/sgapde/equation.py
+++ b/kd/model/sga/sgapde/equation.py
@@ -38,12 +38,13 @@ class SGAEquationDetails:
 
 
 def _infer_lhs_label(config) -> str:
+    default = f"{getattr(config, 'target_field', None) or 'u'}_{getattr(config, 'lhs_axis', None) or 't'}"
     raw = getattr(config, 'left_side', None)
     if not raw:
-        return 'u_t'
+        return default
     if isinstance(raw, str) and '=' in raw:
-        return raw.split('=', 1)[1].strip() or 'u_t'
-    return 'u_t'
+        return raw.split('=', 1)[1].strip() or default
+    return default
 
 
 def extract_equation_details(pde, context, *, coefficient_tol: float = _DEFAULT_TOL) -> SGAEquationDetails:
@@ -285,14 +286,14 @@ def _combine_node(name: str, children: Sequence[str], *, notation: str = "subscr
         operand = children[0]
         if notation == "subscript":
             merged = _merge_subscript(operand, var)
-            return merged if merged is not None else f"{operand}_{{{var}}}"
+            return merged if merged is not None else f"{_subscript_base(operand)}_{{{var}}}"
         return f"\\frac{{\\partial {operand}}}{{\\partial {var}}}"
     if name == 'd^2':
         var = _render_derivative_variable(children)
         operand = children[0]
         if notation == "subscript":
             merged = _merge_subscript(operand, var + var)
-            return merged if merged is not None else f"{operand}_{{{var}{var}}}"
+            return merged if merged is not None else f"{_subscript_base(operand)}_{{{var}{var}}}"
         return f"\\frac{{\\partial^{{2}} {operand}}}{{\\partial {var}^{{2}}}}"
     if not children:
         return name
@@ -332,15 +333,36 @@ def _merge_subscript(operand: str, new_sub: str) -> str | None:
         return None
     existing_sub = operand[idx + 2:close]
     base = operand[:idx]
+    if _ensure_group(base) != base:
+        # The subscript belongs to the last factor only (e.g. u * u_{x}).
+        return None
     return f"{base}_{{{existing_sub}{new_sub}}}"
 
 
+def _subscript_base(operand: str) -> str:
+    grouped = _ensure_group(operand)
+    if grouped == operand and '_' in operand and not operand.startswith('('):
+        return f"({operand})"
+    return grouped
+
+
+def _is_parenthesized(expr: str) -> bool:
+    if not (expr.startswith('(') and expr.endswith(')')):
+        return False
+    depth = 0
+    for ch in expr[:-1]:
+        depth += {'(': 1, ')': -1}.get(ch, 0)
+        if depth == 0:
+            return False
+    return True
+
+
 def _ensure_group(expr: str) -> str:
-    if expr.startswith('(') and expr.endswith(')'):
+    if _is_parenthesized(expr):
         return expr
     if expr.startswith('\\frac'):
         return f"({expr})"
-    if any(ch in expr for ch in [' ', '+', '-']):
+    if any(ch in expr for ch in [' ', '+', '-', '^']):
         return f"({expr})"
     return expr
 
-- 
2.43.0


From 2c2dd9abfead2b705d9c0784edef14a76f0fbf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:11 +0000
Subject: [PATCH 18/51] fix: SGA default term was named u whatever the target
 field

---
 kd/model/sga/sgapde/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/sga/sgapde/context.py b/kd/model/sga/sgapde/context.py
index 716dd65..941ae12 100644
--- a/kd/model/sga/sgapde/context.py
+++ b/kd/model/sga/sgapde/context.py
@@ -1053,7 +1053,7 @@ class ProblemContext:
         self.default_u2 = np.reshape(self.u**2, (flat_size, 1))
         self.default_u3 = np.reshape(self.u**3, (flat_size, 1))
         self.default_terms = self.default_u
-        self.default_names = ['u']
+        self.default_names = [self.target_field]
         self.num_default = self.default_terms.shape[1]
 
         # 若无解析模板或显式标记为无真解，则跳过 ground-truth 误差计算
-- 
2.43.0


From 2b2292b7751d50acc5a222e7dd201bf4e26ed0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:11 +0000
Subject: [PATCH 19/51] fix: SGA edge deletion left parameter fields at full
 size

---
 kd/model/sga/sgapde/context.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kd/model/sga/sgapde/context.py b/kd/model/sga/sgapde/context.py
index 941ae12..f85886e 100644
--- a/kd/model/sga/sgapde/context.py
+++ b/kd/model/sga/sgapde/context.py
@@ -418,6 +418,10 @@ class ProblemContext:
         new_fields = {name: field[slicer] for name, field in self.fields.items()}
         new_coords_1d = dict(self.coords_1d)
         new_coords_1d["x"] = np.asarray(new_coords_1d["x"]).reshape(-1)[n_slice_start:n_slice_end]
+        if getattr(self.config, "param_fields", None):
+            self.config.param_fields = {
+                name: np.asarray(value)[slicer] for name, value in self.config.param_fields.items()
+            }
 
         # Rebuild the variable registry so fields/coords/axis_map/delta/coord_grids stay in sync.
         self.config.fields_data = new_fields
-- 
2.43.0


From 6b9f3ebbf5962fdc2424e93a2c66d1fe46e6c256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:11 +0000
Subject: [PATCH 20/51] fix: SGA ignored parameter fields of x/t datasets

---
 kd/model/sga/adapter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kd/model/sga/adapter.py b/kd/model/sga/adapter.py
index e57d5c9..95e1f92 100644
--- a/kd/model/sga/adapter.py
+++ b/kd/model/sga/adapter.py
@@ -57,9 +57,13 @@ class SGADataAdapter:
                 f"({len(x)}, {len(t)}) but got {u.shape}"
             )
 
-        return {
+        kwargs = {
             "u_data": u,
             "x_data": x,
             "t_data": t,
             "problem_name": getattr(self.dataset, "equation_name", "custom_dataset") or "custom_dataset",
         }
+        param_fields = getattr(self.dataset, "param_fields", None)
+        if param_fields:
+            kwargs["param_fields"] = {k: np.asarray(v) for k, v in param_fields.items()}
+        return kwargs
-- 
2.43.0


From 874dfa9da2a7be2b6d5f9011b70188ec4ccfc767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:11 +0000
Subject: [PATCH 21/51] fix: KD_SGA with an explicit target_field or lhs_axis
 failed on N-D datasets

---
 kd/model/kd_sga.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/kd/model/kd_sga.py b/kd/model/kd_sga.py
index a4460d0..cae422c 100644
--- a/kd/model/kd_sga.py
+++ b/kd/model/kd_sga.py
@@ -148,16 +148,10 @@ class KD_SGA(BaseEstimator):
         )
 
         # 推断优先级：用户显式设置 > adapter 推断 > 默认值
-        final_target_field = (
-            self.target_field
-            or solver_kwargs.pop("target_field", None)
-            or "u"
-        )
-        final_lhs_axis = (
-            self.lhs_axis
-            or solver_kwargs.pop("lhs_axis", None)
-            or "t"
-        )
+        inferred_target_field = solver_kwargs.pop("target_field", None)
+        inferred_lhs_axis = solver_kwargs.pop("lhs_axis", None)
+        final_target_field = self.target_field or inferred_target_field or "u"
+        final_lhs_axis = self.lhs_axis or inferred_lhs_axis or "t"
 
         config = SolverConfig(
             problem_name=problem_label,
-- 
2.43.0


From ad791a2a5ccd712a8c0dce8383c1b368d42f9b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:42 +0000
Subject: [PATCH 22/51] fix: recurrent state of the policy never advanced while
 sampling

---
 kd/model/discover/controller.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kd/model/discover/controller.py b/kd/model/discover/controller.py
index 845a05e..d62a3f2 100644
--- a/kd/model/discover/controller.py
+++ b/kd/model/discover/controller.py
@@ -390,6 +390,7 @@ class Controller(object):
             time = time + 1
             (finished, next_input, next_state, emit, loop_state) = self.loop_fn(time, \
                 cell_output=output, cell_state=cell_state, loop_state=loop_state)
+            state = next_state
 
         actions_ta, obs_ta, priors_ta, next_obs, next_prior, next_lengths, next_finished =loop_state
         self.actions = torch.stack(actions_ta).transpose(0, 1)  # Shape: (batch_size, max_length)
-- 
2.43.0


From dc365759203e605030900b920786ee8f3530e4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:42 +0000
Subject: [PATCH 23/51] fix: policy with several layers or GRU cells could not
 be sampled

---
 kd/model/discover/controller.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kd/model/discover/controller.py b/kd/model/discover/controller.py
index d62a3f2..a04eea9 100644
--- a/kd/model/discover/controller.py
+++ b/kd/model/discover/controller.py
@@ -165,6 +165,7 @@ class Controller(object):
         self.batch_size = 0
         self.num_units = num_units
         self.num_layers = num_layers
+        self.cell_type = cell
         self.lib = Program.library
         # Find max_length from the LengthConstraint prior, if it exists
         # Both priors will never happen in the same experiment
@@ -237,9 +238,9 @@ class Controller(object):
             obs = self.initial_obs
             next_input = self.state_manager.get_tensor_input(obs)
             obs = torch.tensor(obs, dtype=torch.float32)
-            h_0 = torch.zeros(1, self.batch_size, self.num_units)  # hidden state
-            c_0 = torch.zeros(1, self.batch_size,self.num_units)  # cell state
-            next_cell_state = (h_0, c_0)
+            h_0 = torch.zeros(self.num_layers, self.batch_size, self.num_units)  # hidden state
+            c_0 = torch.zeros(self.num_layers, self.batch_size, self.num_units)  # cell state
+            next_cell_state = h_0 if self.cell_type == 'gru' else (h_0, c_0)
             emit_output = None
             actions_ta = []
             obs_ta = []
-- 
2.43.0


From 8886c12c6715899c7b433010fc05da09294029b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:42 +0000
Subject: [PATCH 24/51] fix: embedded tokens and the dangling observation
 crashed the state manager

---
 kd/model/discover/state_manager.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kd/model/discover/state_manager.py b/kd/model/discover/state_manager.py
index 42d4288..6c98f9a 100644
--- a/kd/model/discover/state_manager.py
+++ b/kd/model/discover/state_manager.py
@@ -165,26 +165,26 @@ class HierarchicalStateManager(StateManager):
         # Action, parent, and sibling inputs are either one-hot or embeddings
         if self.observe_action:
             if self.embedding:
-                x = self.action_embeddings(action)
+                x = F.embedding(action, self.action_embeddings)
             else:
                 x = F.one_hot(action, num_classes=self.library.n_action_inputs)
             observations.append(x)
         if self.observe_parent:
             if self.embedding:
-                x = self.parent_embeddings(parent)
+                x = F.embedding(parent, self.parent_embeddings)
             else:
                 x = F.one_hot(parent, num_classes=self.library.n_parent_inputs)
             observations.append(x)
         if self.observe_sibling:
             if self.embedding:
-                x = self.sibling_embeddings(sibling)
+                x = F.embedding(sibling, self.sibling_embeddings)
             else:
                 x = F.one_hot(sibling, num_classes=self.library.n_sibling_inputs)
             observations.append(x)
 
         # Dangling input is just the value of dangling
         if self.observe_dangling:
-            x = dangling.unsqueeze(-1)
+            x = torch.Tensor(dangling).unsqueeze(-1)
             observations.append(x)
         input_ = torch.cat(observations, dim=-1)
         return input_
-- 
2.43.0


From 55ec5280512d4f2156af35139056c27a39df6a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:51 +0000
Subject: [PATCH 25/51] fix: merging nested configurations used the removed
 collections.Mapping

---
 kd/model/discover/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/model/discover/utils.py b/kd/model/discover/utils.py
index 07c3de8..20d3e45 100644
--- a/kd/model/discover/utils.py
+++ b/kd/model/discover/utils.py
@@ -1,6 +1,6 @@
 """Utility functions used in deep symbolic optimization."""
 
-import collections
+import collections.abc
 import copy
 import functools
 import numpy as np
@@ -270,7 +270,7 @@ def safe_merge_dicts(base_dict, update_dict):
         return base_dict
     base_dict = copy.deepcopy(base_dict)
     for key, value in update_dict.items():
-        if isinstance(value, collections.Mapping):
+        if isinstance(value, collections.abc.Mapping):
             base_dict[key] = safe_merge_dicts(base_dict.get(key, {}), value)
         else:
             base_dict[key] = value
-- 
2.43.0


From a31f0c6a2215264f7965f75747c387506aba2b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:51 +0000
Subject: [PATCH 26/51] fix: PINN training crashed on an equation the network
 fields cannot evaluate

---
 kd/model/discover/pinn.py    | 3 +++
 kd/model/discover/stridge.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/kd/model/discover/pinn.py b/kd/model/discover/pinn.py
index 6d2dd1b..cff1d45 100644
--- a/kd/model/discover/pinn.py
+++ b/kd/model/discover/pinn.py
@@ -297,6 +297,7 @@ class PINN_model:
         if last:
             # self.pinn_epoch *=3
             best_loss = 1e8
+            last_improvement = 0
 
         logging.info(f"coef:{coef}")
         if local_sample:
@@ -318,6 +319,8 @@ class PINN_model:
             #local samling based on observations    
                 if local_sample:
                     loss_res2= pinn_loss(self, program_pde[i], self.x_local, self.t_local, program_pde[i].w, extra_gradient=self.extra_gradient)
+                    if torch.isnan(loss_res2):
+                        loss_res2=torch.tensor([0]).to(loss_mse)
                     self.writer.add_scalar(f"pinn/local_pinn_loss_{i}",loss_res2.item(),epoch)
                     pde_loss+=loss_res2
                 
diff --git a/kd/model/discover/stridge.py b/kd/model/discover/stridge.py
index b242e45..b86e0c5 100644
--- a/kd/model/discover/stridge.py
+++ b/kd/model/discover/stridge.py
@@ -612,6 +612,9 @@ class STRidge(object):
 
     def calculate_RHS(self, u, x, ut, coefs, execute_func = unsafe_execute_torch,extra_gradient=False ):
         results = self.calculate_RHS_terms(u,x, execute_func,extra_gradient=extra_gradient)
+        if torch.is_tensor(results):
+            # a term could not be evaluated: the residual is unknown (nan)
+            return ut-results
         RHS = 0
         if isinstance(coefs, list):
             for i in range(len(coefs)):
-- 
2.43.0


From 751e74ff8bc14927902c657ebbafe1cc3334e42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:51 +0000
Subject: [PATCH 27/51] fix: setting an estimator up again disabled all its
 priors

---
 kd/model/discover/dso/prior.py     | 3 +++
 kd/model/discover/state_manager.py | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/kd/model/discover/dso/prior.py b/kd/model/discover/dso/prior.py
index b695976..e666a0d 100644
--- a/kd/model/discover/dso/prior.py
+++ b/kd/model/discover/dso/prior.py
@@ -41,6 +41,8 @@ def make_prior(library, config_prior):
         
     }
     # import pdb;pdb.set_trace()
+    # The configuration is left as it is: an estimator builds its prior more than once.
+    config_prior = dict(config_prior)
     count_constraints = config_prior.pop("count_constraints", False)
     
     priors = []
@@ -57,6 +59,7 @@ def make_prior(library, config_prior):
         for single_prior_args in prior_args:
             # Attempt to build the Prior. Any Prior can fail if it references a
             # Token not in the Library.
+            single_prior_args = dict(single_prior_args)
             prior_is_enabled = single_prior_args.pop('on', False)
             if prior_is_enabled:
                 try:
diff --git a/kd/model/discover/state_manager.py b/kd/model/discover/state_manager.py
index 6c98f9a..e9a2743 100644
--- a/kd/model/discover/state_manager.py
+++ b/kd/model/discover/state_manager.py
@@ -70,6 +70,8 @@ def make_state_manager(config):
     if config is None:
         config = {}
 
+    config = dict(config)
+
     # Use HierarchicalStateManager by default
     manager_type = config.pop("type", "hierarchical")
 
-- 
2.43.0


From 08cd57386b5609bfb163364c97f6364c732d76c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:51 +0000
Subject: [PATCH 28/51] fix: a configuration file could not be loaded

---
 kd/model/kd_discover.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kd/model/kd_discover.py b/kd/model/kd_discover.py
index 840f7a3..db3bf33 100644
--- a/kd/model/kd_discover.py
+++ b/kd/model/kd_discover.py
@@ -278,7 +278,8 @@ class KD_Discover(BaseRL):
             config: Configuration dictionary or path.
         """
         if isinstance(config, str):
-            config = load_config(config)
+            with open(config, encoding='utf-8') as f:
+                config = json.load(f)
         elif config is None:
             config = {}
 
-- 
2.43.0


From 7cb7b538640dfd4840b62a5c4b4190b022b153c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:51 +0000
Subject: [PATCH 29/51] fix: naming the variables of a regression expression
 could rename twice

---
 kd/model/kd_discover_regression.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/kd/model/kd_discover_regression.py b/kd/model/kd_discover_regression.py
index a844d1c..44ba5e1 100644
--- a/kd/model/kd_discover_regression.py
+++ b/kd/model/kd_discover_regression.py
@@ -58,10 +58,8 @@ class KD_Discover_Regression(KD_Discover):
 
     @staticmethod
     def _render_named_expression(expression: str, var_names: Sequence[str]) -> str:
-        rendered = expression
-        for index, name in reversed(list(enumerate(var_names, start=1))):
-            rendered = rendered.replace(f"x{index}", name)
-        return rendered
+        names = {f"x{index}": name for index, name in enumerate(var_names, start=1)}
+        return ",".join(names.get(token, token) for token in expression.split(","))
 
     @staticmethod
     def _format_constant(value: float) -> str:
-- 
2.43.0


From ba96d3ca657c5bc05d95bd6f6a808508b17b807d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:51 +0000
Subject: [PATCH 30/51] fix: DLGA crossover used the number of generations as
 population size

---
 kd/model/dlga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index 246c203..d1e96b3 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -324,7 +324,7 @@ class DLGA(BaseGa):
         Returns:
             list: New population after crossover.
         """
-        Chrom, size_pop = self.Chrom, self.n_generations
+        Chrom, size_pop = self.Chrom, self.pop_size
         Chrom1, Chrom2 = Chrom[::2], Chrom[1::2]
         for i in range(int(size_pop / 2)):
             n1 = np.random.randint(0, len(Chrom1[i]))
-- 
2.43.0


From cb1eac0f73c885ec34e0cf5c4ddce6c7b03eb362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:51 +0000
Subject: [PATCH 31/51] fix: DLGA selection duplicated one individual for equal
 fitness

---
 kd/model/dlga.py    | 5 ++---
 kd/model/kd_dlga.py | 3 ++-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index d1e96b3..c092f32 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -395,9 +395,8 @@ class DLGA(BaseGa):
             coef_list.append(coef)
             name_list.append(name)
         # Select best 50% individuals
-        re1 = list(
-            map(fitness_list.index, heapq.nsmallest(int(size_pop / 2), fitness_list))
-        )
+        # (by index: equally good individuals stay distinct)
+        re1 = heapq.nsmallest(int(size_pop / 2), range(size_pop), key=fitness_list.__getitem__)
 
         for index in re1:
             new_Chrom.append(Chrom[index])
diff --git a/kd/model/kd_dlga.py b/kd/model/kd_dlga.py
index ac0d889..b2807d5 100644
--- a/kd/model/kd_dlga.py
+++ b/kd/model/kd_dlga.py
@@ -188,7 +188,8 @@ class KD_DLGA(DLGA):
         num_to_keep = int(size_pop / 2)
         if len(fitness_list) < num_to_keep:
             num_to_keep = len(fitness_list)
-        re1 = list(map(fitness_list.index, heapq.nsmallest(num_to_keep, fitness_list)))
+        # (by index: equally good individuals stay distinct)
+        re1 = heapq.nsmallest(num_to_keep, range(len(fitness_list)), key=fitness_list.__getitem__)
         for index in re1:
             new_Chrom.append(Chrom[index])
             new_fitness.append(fitness_list[index])
-- 
2.43.0


From 58f1f6b52b6e627a371dd54d95920a80a0171aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:51 +0000
Subject: [PATCH 32/51] fix: DLGA training shuffled the caller's arrays in
 place

---
 kd/model/dlga.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index c092f32..7fba472 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -118,7 +118,8 @@ class DLGA(BaseGa):
         Returns:
             tuple: (trained network, best epoch)
         """
-        # Shuffle data
+        # Shuffle data (a copy: the arrays belong to the caller)
+        X, y = np.array(X), np.array(y)
         state = np.random.get_state()
         np.random.shuffle(X)
         np.random.set_state(state)
-- 
2.43.0


From b53c49e7a167a6fed6b0bff45e9f6f45dd49a599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:51 +0000
Subject: [PATCH 33/51] fix: DLGA validation error was wrong for
 one-dimensional targets

---
 kd/model/dlga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index 7fba472..6c4e677 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -162,7 +162,7 @@ class DLGA(BaseGa):
             prediction_validate = self.Net(X_valid)
             loss = MSELoss(prediction, y_train.view(-1, 1))
             loss_validate = np.mean(
-                (prediction_validate.detach().cpu().numpy() - y_valid) ** 2
+                (prediction_validate.detach().cpu().numpy() - y_valid.reshape(-1, 1)) ** 2
             )
             loss.backward()
             NN_optimizer.step()
-- 
2.43.0


From 5dcb30c8b66e9217da649783add4200fd9eb6e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:34 +0000
Subject: [PATCH 34/51] fix: sampling the whole data set by ratio 1.0 raised an
 error

---
 kd/dataset/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/dataset/_base.py b/kd/dataset/_base.py
index 1305404..efd288b 100644
--- a/kd/dataset/_base.py
+++ b/kd/dataset/_base.py
@@ -517,7 +517,7 @@ class PDEDataset(MetaData):
         total_points = len(self.x) * len(self.t)
         
         # Convert ratio to absolute count if n_samples is a float < 1
-        if isinstance(n_samples, float) and 0 < n_samples < 1:
+        if isinstance(n_samples, float) and 0 < n_samples <= 1:
             n_samples = int(total_points * n_samples)
 
         if n_samples > total_points:
-- 
2.43.0


From f9cef9257265f6d039c1a47820caefb390c01017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:34 +0000
Subject: [PATCH 35/51] fix: displayed DLGA equation ignored the user's
 operators

---
 kd/viz/dlga_eq2latex.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/kd/viz/dlga_eq2latex.py b/kd/viz/dlga_eq2latex.py
index 3440818..5db1044 100644
--- a/kd/viz/dlga_eq2latex.py
+++ b/kd/viz/dlga_eq2latex.py
@@ -17,6 +17,12 @@ DEFAULT_LATEX_STYLE_MAP = {
     "uxxx": "u_{xxx}",
     "ut": "u_t",    # 更标准的 LaTeX 可以是 r"\frac{\partial u}{\partial t}"
     "utt": "u_{tt}", # r"\frac{\partial^2 u}{\partial t^2}"
+    # KD_DLGA operator names and left-hand sides
+    "u_x": "u_x",
+    "u_xx": "u_{xx}",
+    "u_xxx": "u_{xxx}",
+    "u_t": "u_t",
+    "u_tt": "u_{tt}",
 }
 
 
@@ -170,7 +176,7 @@ def dlga_eq2latex(
     for i, module in enumerate(chromosome):
         print(f"    Term {i+1} - Module (gene indices): {module}")
         # Further explain the meaning of the module
-        term_parts = [DLGA_INTERNAL_TERM_NAMES[idx] if 0 <= idx < len(DLGA_INTERNAL_TERM_NAMES) else f"Unknown Gene({idx})" for idx in module]
+        term_parts = [name[idx] if 0 <= idx < len(name) else f"Unknown Gene({idx})" for idx in module]
         print(f"      Meaning (product of terms): {' * '.join(term_parts) if term_parts else 'Base constant term'}")
 
     print(f"  Coefficients (NumPy array, corresponding to each module/term in the chromosome):")
@@ -178,15 +184,16 @@ def dlga_eq2latex(
         print(f"    Term {i+1} - Coefficient: {coeff_row[0]:.4f}")
         
     print(f"  Left-hand side term name (string): {lhs_name_str}")
-    print(f"  (Note: Gene indices in the chromosome map to the following list: {DLGA_INTERNAL_TERM_NAMES})")
+    print(f"  (Note: Gene indices in the chromosome map to the following list: {name})")
     print("--- Equation Renderer data reception end ---\n")
 
     # Generate LaTeX string
     dlga_latex_str = chromosome_to_latex(
         chromosome=chromosome,
         coefficients=coefficients,
-        lhs_name_str=lhs_name_str
-        # dlga_term_names and latex_style_map will use the function's default values
+        lhs_name_str=lhs_name_str,
+        dlga_term_names=name,
+        # latex_style_map will use the function's default value
     )
 
     print(f"[Equation Renderer INFO]: LaTeX: {dlga_latex_str}")
-- 
2.43.0


From 6c83b2655b92f49a93eb4653a933ae80e10f7ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:34 +0000
Subject: [PATCH 36/51] fix: an unavailable DLGA operator shifted the names of
 the others

---
 kd/model/kd_dlga.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kd/model/kd_dlga.py b/kd/model/kd_dlga.py
index b2807d5..8c40fc3 100644
--- a/kd/model/kd_dlga.py
+++ b/kd/model/kd_dlga.py
@@ -54,10 +54,10 @@ class KD_DLGA(DLGA):
             utt = torch.zeros_like(u)
         available_ops = {'u': u, 'u_x': ux, 'u_t': ut, 'u_xx': uxx, 'u_xxx': uxxx, 'u_tt': utt}
         # 1. Theta 矩阵的构建依然严格遵守 user_operators，这用于方程搜索
-        theta_columns = []
-        for op_name in self.user_operators:
-            if op_name in available_ops:
-                theta_columns.append(available_ops[op_name])
+        # (operators that are not available are ignored: genes index the remaining ones)
+        self.user_operators = [op for op in self.user_operators if op in available_ops]
+        self.library_size = len(self.user_operators)
+        theta_columns = [available_ops[op_name] for op_name in self.user_operators]
         self.Theta = torch.concatenate(theta_columns, axis=1) if theta_columns else torch.empty(X.shape[0], 0).to(self.device)
 
         # 2. metadata 则存储所有计算出的项，使其成为一个完整的“数据源”
-- 
2.43.0


From cd1e8f7d7f23462e0d842f9df5a4b757e705b7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:33 +0000
Subject: [PATCH 37/51] fix: EqGPT terms with wrong base, axis or coordinate

---
 kd/model/eqgpt/calculate_terms.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/kd/model/eqgpt/calculate_terms.py b/kd/model/eqgpt/calculate_terms.py
index 34bfc33..bf0eb87 100644
--- a/kd/model/eqgpt/calculate_terms.py
+++ b/kd/model/eqgpt/calculate_terms.py
@@ -233,12 +233,12 @@ def calculate_terms(word,Net,database,variables,nx,nt):
     if word=='exp(x)':
         return torch.exp(database[:,x_index]).cpu().data.numpy()
     if word=='uyyt':
-        Hy = H_grad[:, 2].reshape(-1,1)
+        Hy = H_grad[:, y_index].reshape(-1,1)
         Hyy = torch.autograd.grad(outputs=Hy.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(-1, 1)
-        Hyyt=torch.autograd.grad(outputs=Hyy.sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
+        Hyyt=torch.autograd.grad(outputs=Hyy.sum(), inputs=database, create_graph=True)[0][:, t_index].reshape(-1, 1)
         return Hyyt.cpu().data.numpy()
     if word=='sint':
-        return torch.sin(database[:,x_index]).cpu().data.numpy()
+        return torch.sin(database[:,t_index]).cpu().data.numpy()
     if word=='sinx':
         return torch.sin(database[:, x_index]).cpu().data.numpy()
     if word=='(uxx+ux/x)^2':
@@ -276,7 +276,7 @@ def calculate_terms(word,Net,database,variables,nx,nt):
         return result.cpu().data.numpy()
 
     if word=='(u(u^2)xx)xx':
-        temp = torch.autograd.grad(outputs=(u * Hx).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
+        temp = torch.autograd.grad(outputs=(u ** 2).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         temp_1 = torch.autograd.grad(outputs=(temp).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         temp_2=torch.autograd.grad(outputs=(u*temp_1).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         result = torch.autograd.grad(outputs=(temp_2).sum(), inputs=database, create_graph=True)[0][:,x_index].reshape(-1, 1)
@@ -515,12 +515,12 @@ def calculate_terms_PINN(word,Net,database,variables):
     if word=='exp(x)':
         return torch.exp(database[:,x_index])
     if word=='uyyt':
-        Hy = H_grad[:, 2].reshape(-1,1)
+        Hy = H_grad[:, y_index].reshape(-1,1)
         Hyy = torch.autograd.grad(outputs=Hy.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(-1, 1)
-        Hyyt=torch.autograd.grad(outputs=Hyy.sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
+        Hyyt=torch.autograd.grad(outputs=Hyy.sum(), inputs=database, create_graph=True)[0][:, t_index].reshape(-1, 1)
         return Hyyt
     if word=='sint':
-        return torch.sin(database[:,x_index])
+        return torch.sin(database[:,t_index])
     if word=='sinx':
         return torch.sin(database[:, x_index])
     if word=='(uxx+ux/x)^2':
@@ -558,7 +558,7 @@ def calculate_terms_PINN(word,Net,database,variables):
         return result
 
     if word=='(u(u^2)xx)xx':
-        temp = torch.autograd.grad(outputs=(u * Hx).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
+        temp = torch.autograd.grad(outputs=(u ** 2).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         temp_1 = torch.autograd.grad(outputs=(temp).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         temp_2=torch.autograd.grad(outputs=(u*temp_1).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         result = torch.autograd.grad(outputs=(temp_2).sum(), inputs=database, create_graph=True)[0][:,x_index].reshape(-1, 1)
-- 
2.43.0


From c3c9a29587bc387f77991f62eb27256fa7dffb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:33 +0000
Subject: [PATCH 38/51] fix: nan reward of one EqGPT case ranked the equation
 as best

---
 kd/model/eqgpt/continue_train_GPT_all.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kd/model/eqgpt/continue_train_GPT_all.py b/kd/model/eqgpt/continue_train_GPT_all.py
index e7a856b..3c79cad 100644
--- a/kd/model/eqgpt/continue_train_GPT_all.py
+++ b/kd/model/eqgpt/continue_train_GPT_all.py
@@ -311,7 +311,9 @@ def calculate_reward(ulti_sentence,all_Net,all_database,words2value,mask_invalid
                     reward=0
         #print(all_reward)
         # plot_reward(all_reward,'L')  # disabled: called per candidate, too slow
-        reward=np.mean(np.array(all_reward))
+        # cases without a defined fit do not count; nan would rank as the best
+        all_reward = [r for r in all_reward if not np.isnan(r)]
+        reward=np.mean(np.array(all_reward)) if all_reward else 0
     if ({word2id['u'], word2id['sin(u)']}.issubset(terms)
             or {word2id['u'], word2id['sinh(u)']}.issubset(terms)
             or {word2id['sin(u)'], word2id['sinh(u)']}.issubset(terms)
-- 
2.43.0


From d2ba31e63035b1a26367fdd66fede1de283992b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:48 +0000
Subject: [PATCH 39/51] fix: displayed DISCOVER equation differed from the
 fitted one

Unknown operators and fields were split into letters, a sum after a
coefficient and a differentiated product had no parentheses, numeric factors
were printed next to the coefficient, and the expansion of a derivative lost
the product rule for parameter fields and for a field that meets its own
coordinate.
---
 kd/viz/discover_eq2latex.py | 114 ++++++++++++++++++++++++++----------
 1 file changed, 82 insertions(+), 32 deletions(-)

diff --git a/kd/viz/discover_eq2latex.py b/kd/viz/discover_eq2latex.py
index 258e66d..adc8202 100644
--- a/kd/viz/discover_eq2latex.py
+++ b/kd/viz/discover_eq2latex.py
@@ -1,4 +1,5 @@
 import logging
+import re
 from typing import Optional
 
 import sympy
@@ -6,6 +7,7 @@ import sympy
 logger = logging.getLogger(__name__)
 from sympy.parsing.sympy_parser import parse_expr
 from sympy.printing.latex import LatexPrinter
+from sympy.printing.precedence import PRECEDENCE
 
 from kd.viz.dlga_eq2latex import _format_full_latex_term
 
@@ -16,6 +18,22 @@ DEEPRL_SYMBOLS_FOR_SYMPY = {
     for name in ['u1', 'x1', 'x2', 'x3', 'c', 'p1', 'p2', 'p3']
 }
 
+
+def _symbols_for(expr_str: str, symbols: dict) -> dict:
+    """Add the names a term uses but *symbols* lacks.
+
+    Without an entry ``parse_expr`` splits an unknown name into its letters,
+    e.g. ``laplacian(u1)`` into ``l*a*p*...*u1`` and ``p4`` into ``4*p``.
+    """
+    local = dict(symbols)
+    for name, call in re.findall(r'\b([A-Za-z_]\w*)\b(\(?)', expr_str):
+        if not call:
+            local.setdefault(name, sympy.Symbol(name))
+        elif not hasattr(sympy, name):
+            local.setdefault(name, sympy.Function(name))
+    return local
+
+
 # ... (imports, DEEPRL_SYMBOLS_FOR_SYMPY, DEBUG_RENDERER_MODE) ...
 
 DEBUG_RENDERER_MODE = False  # Whether to enable verbose debug logging.
@@ -35,14 +53,24 @@ _LEIBNIZ_SYMBOLS_FOR_SYMPY = {
 }
 
 
+
+def _is_field(name: str) -> bool:
+    """Whether *name* is a dependent variable (a function of x1, x2, x3): a
+    state variable or a parameter field."""
+    return re.fullmatch(r'[up]\d+', name) is not None
+
+
 class _SubscriptLatexPrinter(LatexPrinter):
     """Render Derivative(u, x, x) as u_{xx} instead of Leibniz notation."""
 
     def _print_Derivative(self, expr):
         func = expr.args[0]
         if isinstance(func, sympy.Symbol):
-            func_name = _SYMBOL_DISPLAY.get(func.name, func.name)
-        elif hasattr(func, 'func') and hasattr(func.func, 'name'):
+            func_name = self._print(func)
+            if "_" in func_name:
+                # a second subscript needs its own base: (p_{1})_{x}
+                func_name = "(" + func_name + ")"
+        elif hasattr(func, 'func') and _is_field(getattr(func.func, 'name', 'x1')):
             # Applied function like u1(x1, x2): func.func has .name
             func_name = _SYMBOL_DISPLAY.get(func.func.name, func.func.name)
         else:
@@ -62,12 +90,23 @@ class _SubscriptLatexPrinter(LatexPrinter):
         return _SYMBOL_DISPLAY.get(name, super()._print_Symbol(expr))
 
 
+class _LeibnizLatexPrinter(LatexPrinter):
+    """Leibniz notation with a differentiated product in parentheses: without
+    them ``u_x (u u_x)_x`` reads as a product of first derivatives."""
+
+    def _print_Derivative(self, expr):
+        latex = super()._print_Derivative(expr)
+        if expr.expr.is_Mul:
+            body = self.parenthesize(expr.expr, PRECEDENCE["Mul"], is_neg=False, strict=True)
+            if latex.endswith(body):
+                latex = latex[:-len(body)] + r"\left(" + body + r"\right)"
+        return latex
+
+
 # ---------------------------------------------------------------------------
 # First-order compound derivative expansion
 # ---------------------------------------------------------------------------
 
-# Symbols that represent dependent variables (functions of x1, x2, x3)
-_FUNC_SYMBOL_NAMES = frozenset({'u1'})
 _VAR_SYMBOL_NAMES = frozenset({'x1', 'x2', 'x3'})
 
 
@@ -98,30 +137,28 @@ def _expand_first_order_compound_derivatives(
     if not _is_first_order_compound_derivative(expr):
         return sympy.Integer(1), expr
 
+    from sympy.core.function import AppliedUndef
+    if any(not _is_field(f.func.__name__)
+           for f in expr.atoms(AppliedUndef)):
+        # the chain rule cannot go through an operator such as laplacian(u1)
+        return sympy.Integer(1), expr
+
     # Symbol → Function substitution
-    sym_to_fn: dict = {}
     var_syms = [sympy.Symbol(v) for v in sorted(_VAR_SYMBOL_NAMES)]
-    for name in _FUNC_SYMBOL_NAMES:
-        sym = sympy.Symbol(name)
-        fn = sympy.Function(name)(*var_syms)
-        sym_to_fn[sym] = fn
-
-    expr_fn = expr
-    for sym, fn in sym_to_fn.items():
-        expr_fn = expr_fn.subs(sym, fn)
-
-    expanded = expr_fn.doit()
+    names = {s.name for s in expr.free_symbols} | {
+        f.func.__name__ for f in expr.atoms(AppliedUndef)}
+    names -= _VAR_SYMBOL_NAMES | {'c', 'const'}
+    sym_to_fn: dict = {
+        sympy.Symbol(name): sympy.Function(name)(*var_syms)
+        for name in names
+    }
+
+    # xreplace, not subs: subs keeps a field that meets its own coordinate
+    # inside the derivative constant, dropping its chain rule term
+    expanded = expr.xreplace(sym_to_fn).doit()
 
     # Function → Symbol substitution (reverse)
-    for sym, fn in sym_to_fn.items():
-        # Replace derivatives first (higher order → lower order)
-        for vs in var_syms:
-            for order in range(4, 0, -1):
-                expanded = expanded.subs(
-                    sympy.Derivative(fn, (vs, order)),
-                    sympy.Derivative(sym, *([vs] * order)),
-                )
-        expanded = expanded.subs(fn, sym)
+    expanded = expanded.xreplace({fn: sym for sym, fn in sym_to_fn.items()})
 
     # Extract numeric factor: 2*u1*Derivative(u1, x1) → (2, u1*Derivative(...))
     coeff, rest = expanded.as_coeff_Mul()
@@ -137,9 +174,12 @@ def _discover_term_node_to_latex_expanded(
     local_sympy_symbols=None,
     *,
     notation: str = "subscript",
+    expand: bool = True,
 ) -> tuple:
     """Like ``_discover_term_node_to_latex`` but also expands first-order
-    compound derivatives, returning ``(numeric_factor, latex_string)``.
+    compound derivatives (unless *expand* is false) and splits off the numeric
+    factor, returning ``(numeric_factor, latex_string)``. The string can follow
+    a coefficient: a sum is put in parentheses.
     """
     if local_sympy_symbols is None:
         if notation == "leibniz":
@@ -150,16 +190,23 @@ def _discover_term_node_to_latex_expanded(
     sympy_expr_str = term_node_obj.to_sympy_string()
     parsed = parse_expr(
         sympy_expr_str,
-        local_dict=local_sympy_symbols,
+        local_dict=_symbols_for(sympy_expr_str, local_sympy_symbols),
         transformations='all',
     )
 
-    factor, expanded = _expand_first_order_compound_derivatives(parsed)
+    factor, expanded = sympy.Integer(1), parsed
+    if expand:
+        factor, expanded = _expand_first_order_compound_derivatives(parsed)
+    coeff, rest = expanded.as_coeff_Mul()
+    if coeff.is_finite:
+        factor, expanded = factor * coeff, rest
 
     if notation == "subscript":
         latex_output = _SubscriptLatexPrinter().doprint(expanded)
     else:
-        latex_output = sympy.latex(expanded)
+        latex_output = _LeibnizLatexPrinter().doprint(expanded)
+    if expanded.is_Add:
+        latex_output = r"\left(" + latex_output + r"\right)"
 
     return factor, latex_output
 
@@ -182,7 +229,7 @@ def _discover_term_node_to_latex(term_node_obj, local_sympy_symbols=None, *, not
 
         parsed_sympy_expr = parse_expr(
             sympy_expr_str,
-            local_dict=local_sympy_symbols,
+            local_dict=_symbols_for(sympy_expr_str, local_sympy_symbols),
             transformations='all',  # allow a broad set of SymPy-compatible transformations
         )
         if DEBUG_RENDERER_MODE:
@@ -191,7 +238,7 @@ def _discover_term_node_to_latex(term_node_obj, local_sympy_symbols=None, *, not
         if notation == "subscript":
             latex_output = _SubscriptLatexPrinter().doprint(parsed_sympy_expr)
         else:
-            latex_output = sympy.latex(parsed_sympy_expr)
+            latex_output = _LeibnizLatexPrinter().doprint(parsed_sympy_expr)
         return latex_output
     except Exception as e:
         import traceback
@@ -281,14 +328,17 @@ def discover_program_to_latex(program_object, # lhs_name_str,
         term_node = term_nodes[i]
 
         # Get base term LaTeX for this node.
-        if expand_derivatives:
+        try:
             factor, base_term_latex = _discover_term_node_to_latex_expanded(
                 term_node,
                 local_sympy_symbols=current_sympy_symbols,
                 notation=notation,
+                expand=expand_derivatives,
             )
             coeff_val *= float(factor)
-        else:
+        except Exception:
+            if expand_derivatives:
+                raise
             base_term_latex = _discover_term_node_to_latex(
                 term_node,
                 local_sympy_symbols=current_sympy_symbols,
-- 
2.43.0


From d8f8e1a686d1abb5e1604a667cc3bc9059a1969f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:12 +0000
Subject: [PATCH 40/51] fix: reward density labels name the epochs that are
 drawn

---
 kd/viz/_adapters/discover.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kd/viz/_adapters/discover.py b/kd/viz/_adapters/discover.py
index 0426da0..2605ab4 100644
--- a/kd/viz/_adapters/discover.py
+++ b/kd/viz/_adapters/discover.py
@@ -141,7 +141,8 @@ class DiscoverVizAdapter:
             epoches = list(range(0, len(history), step))
             if (len(history) - 1) not in epoches:
                 epoches.append(len(history) - 1)
-        data = history if epoches is None else [history[i] for i in epoches if i < len(history)]
+        shown = list(range(len(history))) if epoches is None else [i for i in epoches if i < len(history)]
+        data = [history[i] for i in shown]
         if not data:
             return VizResult(intent='density', warnings=['No data available for requested epochs.'])
 
@@ -150,7 +151,7 @@ class DiscoverVizAdapter:
             sns.kdeplot(
                 np.asarray(rewards),
                 ax=ax,
-                label=f'Epoch {epoches[idx] if epoches else idx}',
+                label=f'Epoch {shown[idx]}',
                 fill=False,
             )
 
-- 
2.43.0


From e35972411ef35e0973d01293d4f2b9a670b94719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:26 +0000
Subject: [PATCH 41/51] fix: sparse field comparison shows space against time,
 not swapped

---
 kd/viz/discover_viz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/viz/discover_viz.py b/kd/viz/discover_viz.py
index 686dd57..cc93656 100644
--- a/kd/viz/discover_viz.py
+++ b/kd/viz/discover_viz.py
@@ -728,7 +728,7 @@ def plot_spr_field_comparison(model, best_program, output_dir: str = None):
 
     # 绘制左图：真实场
     ax0 = axes[0]
-    im0 = ax0.imshow(grid_ut.T, extent=(min(t),max(t),min(x),max(x)), origin='lower',
+    im0 = ax0.imshow(grid_ut, extent=(min(t),max(t),min(x),max(x)), origin='lower',
                      aspect='auto', cmap='viridis', vmin=vmin, vmax=vmax)
     fig.colorbar(im0, ax=ax0, label='Value')
     ax0.set_title("True Field ($u_t$)")
@@ -737,7 +737,7 @@ def plot_spr_field_comparison(model, best_program, output_dir: str = None):
 
     # 绘制右图：预测场
     ax1 = axes[1]
-    im1 = ax1.imshow(grid_yhat.T, extent=(min(t),max(t),min(x),max(x)), origin='lower',
+    im1 = ax1.imshow(grid_yhat, extent=(min(t),max(t),min(x),max(x)), origin='lower',
                      aspect='auto', cmap='viridis', vmin=vmin, vmax=vmax)
     fig.colorbar(im1, ax=ax1, label='Value')
     ax1.set_title("Predicted Field (RHS)")
-- 
2.43.0


From 72de9fd2a07d7a7278cfb2d7d86565b371d97e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:26 +0000
Subject: [PATCH 42/51] fix: N-D plot fields keep the grid order of the axes

---
 kd/viz/discover_viz.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kd/viz/discover_viz.py b/kd/viz/discover_viz.py
index cc93656..9842670 100644
--- a/kd/viz/discover_viz.py
+++ b/kd/viz/discover_viz.py
@@ -314,7 +314,10 @@ def _calculate_pde_fields_nd(
     spatial_dxs = []
     for dim_idx in range(n_input_dim):
         coord_1d = np.asarray(data_dict['X'][dim_idx]).flatten()
-        coord_unique = np.unique(coord_1d)
+        # Distinct values in grid order (a sorted list would not match a
+        # descending axis of u).
+        _, first_seen = np.unique(coord_1d, return_index=True)
+        coord_unique = coord_1d[np.sort(first_seen)]
         if coord_unique.size < 2:
             raise ValueError(
                 f"Spatial dimension {dim_idx} has fewer than 2 unique "
-- 
2.43.0


From f39e58e885cea37ad92a8cd1acfef470a6e4f9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:26 +0000
Subject: [PATCH 43/51] fix: DLGA field comparison replaces an earlier image

---
 kd/viz/_adapters/dlga.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/viz/_adapters/dlga.py b/kd/viz/_adapters/dlga.py
index 04af42b..f3deafd 100644
--- a/kd/viz/_adapters/dlga.py
+++ b/kd/viz/_adapters/dlga.py
@@ -131,8 +131,8 @@ class DLGAVizAdapter:
             output_dir=str(path.parent),
         )
         produced = path.parent / 'pde_comparison.png'
-        if produced.exists() and not path.exists():
-            produced.rename(path)
+        if produced.exists():
+            produced.replace(path)
         return VizResult(intent='field_comparison', paths=[path], metadata={'field_comparison': data})
 
     def _time_slices(self, model, ctx) -> VizResult:
-- 
2.43.0


From 2f62c6729933a553296f3d3627c84ef95d718ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:26 +0000
Subject: [PATCH 44/51] fix: optimization analysis of a single generation

---
 kd/viz/dlga_viz.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kd/viz/dlga_viz.py b/kd/viz/dlga_viz.py
index 14399a2..84d387a 100644
--- a/kd/viz/dlga_viz.py
+++ b/kd/viz/dlga_viz.py
@@ -424,6 +424,7 @@ def plot_optimization_analysis(model, output_dir: str = None):
             ax2.legend()
         else:
             # If no changes, plot full curve only
+            show_gens = 0
             ax2.plot(generations, fitness_history,
                      color='#2ca02c', linewidth=2,
                      marker='o', markersize=3)
-- 
2.43.0


From f6df15a8a28168d71384b6e9f5f2355b33a79203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:39 +0000
Subject: [PATCH 45/51] fix: an overflowing residual gradient destroyed the
 PINN's weights

---
 kd/model/discover/pinn.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/kd/model/discover/pinn.py b/kd/model/discover/pinn.py
index cff1d45..ea68c9c 100644
--- a/kd/model/discover/pinn.py
+++ b/kd/model/discover/pinn.py
@@ -310,7 +310,7 @@ class PINN_model:
             for i in range(pde_num):
                 pde_loss = torch.tensor([0]).to(loss_mse)
                 loss_res = pinn_loss(self,  program_pde[i], self.x_f, self.t_f, program_pde[i].w, self.extra_gradient)
-                if torch.isnan(loss_res):
+                if not torch.isfinite(loss_res):
                     logging.info("nan")
                     loss_res=torch.tensor([0]).to(loss_mse)
                 self.writer.add_scalar(f"pinn/pinn_loss_{i}",loss_res.item(),epoch)
@@ -319,7 +319,7 @@ class PINN_model:
             #local samling based on observations    
                 if local_sample:
                     loss_res2= pinn_loss(self, program_pde[i], self.x_local, self.t_local, program_pde[i].w, extra_gradient=self.extra_gradient)
-                    if torch.isnan(loss_res2):
+                    if not torch.isfinite(loss_res2):
                         loss_res2=torch.tensor([0]).to(loss_mse)
                     self.writer.add_scalar(f"pinn/local_pinn_loss_{i}",loss_res2.item(),epoch)
                     pde_loss+=loss_res2
@@ -327,6 +327,12 @@ class PINN_model:
                 
             loss = coef*(pde_loss)+loss_mse  #delete res3
             loss.backward()
+            if any(p.grad is not None and not torch.isfinite(p.grad).all() for p in self.nn.parameters()):
+                # the derivative of the residual overflowed: fit the observations only
+                logging.info("nan gradient")
+                self.optimizer.zero_grad()
+                u_predict = self.net_u(torch.cat([*self.x, self.t], axis= 1))
+                mse_loss(u_predict, self.u_train).sum().backward()
             self.optimizer.step()
             
             if (epoch+1)%10==0:
-- 
2.43.0


From a82deaa68c11c34421ca34f369d2134ac28d6d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:29 +0000
Subject: [PATCH 46/51] fix: parameters of three estimators could not be read,
 set or printed

---
 kd/model/dlga.py        | 25 +++++++++++++++----------
 kd/model/kd_discover.py | 18 ++++++++++++++++++
 kd/model/kd_dlga.py     | 10 ++++++++++
 3 files changed, 43 insertions(+), 10 deletions(-)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index 6c4e677..f92c789 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -87,16 +87,8 @@ class DLGA(BaseGa):
         self.device = (
             torch.device("cuda") if torch.cuda.is_available() else torch.device("cpu")
         )
-        self.Net = NN(
-            Num_Hidden_Layers=5,
-            Neurons_Per_Layer=50,
-            Input_Dim=input_dim,
-            Output_Dim=1,
-            Data_Type=torch.float32,
-            Device=self.device,
-            Activation_Function="Sin",
-            Batch_Norm=False,
-        )
+        self.input_dim = input_dim
+        self.Net = self._make_net(input_dim)
 
         self.max_iter = max_iter
         self.eq_latex = ""
@@ -108,6 +100,19 @@ class DLGA(BaseGa):
         self.evolution_history = []  # 存储完整的进化历史数据
         self.complexity_history = []  # 存储复杂度历史
 
+    def _make_net(self, input_dim):
+        """Build the surrogate network."""
+        return NN(
+            Num_Hidden_Layers=5,
+            Neurons_Per_Layer=50,
+            Input_Dim=input_dim,
+            Output_Dim=1,
+            Data_Type=torch.float32,
+            Device=self.device,
+            Activation_Function="Sin",
+            Batch_Norm=False,
+        )
+
     def train_NN(self, X, y):
         """Train neural network on data.
         
diff --git a/kd/model/kd_discover.py b/kd/model/kd_discover.py
index db3bf33..80b7b6c 100644
--- a/kd/model/kd_discover.py
+++ b/kd/model/kd_discover.py
@@ -95,8 +95,11 @@ class KD_Discover(BaseRL):
         """
         self.n_iterations = n_iterations
         self.n_samples_per_batch = n_samples_per_batch
+        self.binary_operators = binary_operators
+        self.unary_operators = unary_operators
         self.operator = binary_operators + unary_operators
         self.out_path = out_path
+        self.config_out = config_out
          
         self.dataset = None
         self.seed = seed
@@ -104,6 +107,15 @@ class KD_Discover(BaseRL):
         self.base_config_file = "./discover/config/config_pde.json"
         self.set_config(config_out)
 
+    def set_params(self, **params):
+        """Set parameters and what the constructor derives from them."""
+        super().set_params(**params)
+        if 'binary_operators' in params or 'unary_operators' in params:
+            self.operator = self.binary_operators + self.unary_operators
+        if 'config_out' in params:
+            self.set_config(self.config_out)
+        return self
+
     def setup(self):
         """Setup model components.
         
@@ -484,9 +496,15 @@ class KD_Discover_SPR(KD_Discover):
         """
         super().__init__(*args, config_out=None, **kwargs)
         self.base_config_file = "./discover/config/config_pde_pinn.json"
+        self.config_out = config_out
         self.set_config(config_out)
         self.is_realtime = False
 
+    @classmethod
+    def _get_param_names(cls):
+        """The constructor forwards its arguments to KD_Discover."""
+        return KD_Discover._get_param_names()
+
     def set_config(self, config=None):
         """Set model configuration.
 
diff --git a/kd/model/kd_dlga.py b/kd/model/kd_dlga.py
index 8c40fc3..348c66b 100644
--- a/kd/model/kd_dlga.py
+++ b/kd/model/kd_dlga.py
@@ -16,6 +16,7 @@ class KD_DLGA(DLGA):
     """
 
     def __init__(self, operators: list[str], epi: float, input_dim: int, verbose: bool = True, **kwargs):
+        self.operators = operators
         self.user_operators = operators
         self.library_size = len(operators)
         self.verbose = verbose
@@ -23,6 +24,15 @@ class KD_DLGA(DLGA):
         self.equations_ = None
         self.best_equation_ = None
 
+    def set_params(self, **params):
+        """Set parameters and what the constructor derives from them."""
+        super().set_params(**params)
+        if 'operators' in params:
+            self.user_operators = self.operators
+            self.library_size = len(self.operators)
+        if 'input_dim' in params:
+            self.Net = self._make_net(self.input_dim)
+        return self
 
     def generate_meta_data(self, X):
         """Build the feature library (Theta) and metadata from the trained network."""
-- 
2.43.0


From cefdd33d59a1af88fb0fdd36b91a2bacb558386d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:29 +0000
Subject: [PATCH 47/51] fix: plot adapter of a subclass depended on earlier
 lookups

---
 kd/viz/registry.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/kd/viz/registry.py b/kd/viz/registry.py
index b6aa236..4475563 100644
--- a/kd/viz/registry.py
+++ b/kd/viz/registry.py
@@ -52,15 +52,12 @@ def get_adapter(target: Any) -> Optional[VizAdapter]:
         return None
     model_cls = target if isinstance(target, type) else type(target)
 
-    adapter = _ADAPTERS.get(model_cls)
-    if adapter is not None:
-        return adapter
-
-    # Check lazy adapters by class name before subclass walk.
-    class_name = model_cls.__name__
-    if class_name in _LAZY_ADAPTERS:
-        _resolve_lazy(class_name)
-        adapter = _ADAPTERS.get(model_cls)
+    # The most specific registered class wins; lazy adapters are resolved by
+    # class name when their turn comes.
+    for cls in model_cls.__mro__:
+        if cls not in _ADAPTERS and cls.__name__ in _LAZY_ADAPTERS:
+            _resolve_lazy(cls.__name__)
+        adapter = _ADAPTERS.get(cls)
         if adapter is not None:
             return adapter
 
-- 
2.43.0


From af8ee3e6bdf4eba26c95e68b78d23254ea0eee77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:29 +0000
Subject: [PATCH 48/51] fix: an equation image that was not produced was
 reported as saved

---
 kd/viz/_adapters/discover.py |  4 +++-
 kd/viz/_adapters/dlga.py     |  4 +++-
 kd/viz/_adapters/pysr.py     |  4 +++-
 kd/viz/_adapters/sga.py      | 21 +++++++++------------
 kd/viz/equation_renderer.py  |  6 +++++-
 5 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/kd/viz/_adapters/discover.py b/kd/viz/_adapters/discover.py
index 2605ab4..26a7df8 100644
--- a/kd/viz/_adapters/discover.py
+++ b/kd/viz/_adapters/discover.py
@@ -225,12 +225,14 @@ class DiscoverVizAdapter:
 
         _, path = self._resolve_output(ctx, 'equation.png')
         try:
-            render_latex_to_image(
+            rendered = render_latex_to_image(
                 latex,
                 output_path=str(path),
                 font_size=ctx.options.get('font_size', 16),
                 show=False,
             )
+            if rendered is False:
+                raise RuntimeError('the image could not be produced.')
         except Exception as exc:  # pragma: no cover - runtime dependency issues
             return VizResult(intent='equation', warnings=[f'Failed to render LaTeX equation: {exc}'])
 
diff --git a/kd/viz/_adapters/dlga.py b/kd/viz/_adapters/dlga.py
index f3deafd..84c4a0a 100644
--- a/kd/viz/_adapters/dlga.py
+++ b/kd/viz/_adapters/dlga.py
@@ -208,12 +208,14 @@ class DLGAVizAdapter:
             operator_names=operators,
         )
         _, path = self._resolve_output(ctx, 'equation.png')
-        render_latex_to_image(
+        rendered = render_latex_to_image(
             latex,
             output_path=str(path),
             font_size=ctx.options.get('font_size', 16),
             show=False,
         )
+        if rendered is False:
+            return VizResult(intent='equation', warnings=['Failed to render LaTeX equation: the image could not be produced.'])
         return VizResult(intent='equation', paths=[path], metadata={'latex': latex, 'index': index})
 
     def _residual(self, model, ctx) -> VizResult:
diff --git a/kd/viz/_adapters/pysr.py b/kd/viz/_adapters/pysr.py
index 8218b36..96a807c 100644
--- a/kd/viz/_adapters/pysr.py
+++ b/kd/viz/_adapters/pysr.py
@@ -103,12 +103,14 @@ class PySRVizAdapter:
 
         _, path = self._resolve_output(ctx, "equation.png")
         try:
-            render_latex_to_image(
+            rendered = render_latex_to_image(
                 latex,
                 output_path=str(path),
                 font_size=ctx.options.get("font_size", 18),
                 show=False,
             )
+            if rendered is False:
+                raise RuntimeError("the image could not be produced.")
         except Exception as exc:
             return VizResult(
                 intent="equation",
diff --git a/kd/viz/_adapters/sga.py b/kd/viz/_adapters/sga.py
index 2028af7..fb9d169 100644
--- a/kd/viz/_adapters/sga.py
+++ b/kd/viz/_adapters/sga.py
@@ -76,18 +76,15 @@ class SGAVizAdapter:
         output_path = self._resolve_output(ctx, 'equation.png')
         structure_path = self._resolve_output(ctx, 'equation_structure.png')
         try:
-            render_latex_to_image(
-                latex_plain,
-                output_path=str(output_path),
-                font_size=ctx.options.get('font_size', 16),
-                show=False,
-            )
-            render_latex_to_image(
-                structure_plain,
-                output_path=str(structure_path),
-                font_size=ctx.options.get('font_size', 16),
-                show=False,
-            )
+            for latex, path in ((latex_plain, output_path), (structure_plain, structure_path)):
+                rendered = render_latex_to_image(
+                    latex,
+                    output_path=str(path),
+                    font_size=ctx.options.get('font_size', 16),
+                    show=False,
+                )
+                if rendered is False:
+                    raise RuntimeError('the image could not be produced.')
         except Exception as exc:  # pragma: no cover - runtime dependency issues
             return VizResult(intent='equation', warnings=[f'Failed to render LaTeX equation: {exc}'])
 
diff --git a/kd/viz/equation_renderer.py b/kd/viz/equation_renderer.py
index 40aaf6e..404264a 100644
--- a/kd/viz/equation_renderer.py
+++ b/kd/viz/equation_renderer.py
@@ -28,6 +28,7 @@ def render_latex_to_image(
     *,
     show=True,
 ):
+    """Render LaTeX with matplotlib; return whether the image was produced."""
     try:
         latex_str = _ensure_math_mode(str(latex_str))
         # Heuristically adjust figure width based on LaTeX string length.
@@ -47,10 +48,13 @@ def render_latex_to_image(
         
         if show:
             plt.show()
-        
+
+        return True
+
     except Exception as e:
         logger.error("Failed to render LaTeX to image: %s", e)
         logger.error("  Offending LaTeX content: %s", latex_str)
+        return False
     finally:
         if 'fig' in locals():
             try:
-- 
2.43.0


From 19902cebe3f8286a5b1ac84cf3808d8a89075f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:31 +0000
Subject: [PATCH 49/51] fix: input-required constraint did not apply to the
 first token

---
 kd/model/discover/dso/prior.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kd/model/discover/dso/prior.py b/kd/model/discover/dso/prior.py
index e666a0d..7f6ac38 100644
--- a/kd/model/discover/dso/prior.py
+++ b/kd/model/discover/dso/prior.py
@@ -551,6 +551,12 @@ class NoInputsConstraint(Constraint):
             return message
         return None
 
+    def initial_prior(self):
+        # The first token alone would be the whole expression
+        prior = Prior.initial_prior(self)
+        prior[self.library.non_state_tokens] = self.mask_val
+        return prior
+
     def __call__(self, actions, parent, sibling, dangling):
         # Constrain when:
         # 1) the expression would end if a terminal is chosen and
-- 
2.43.0


From 203370ebe826e6d5343307d852921923e7f654f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:26 +0000
Subject: [PATCH 50/51] fix: parameters of the regression estimator could not
 be read, set or printed

---
 kd/model/kd_discover_regression.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kd/model/kd_discover_regression.py b/kd/model/kd_discover_regression.py
index 44ba5e1..c0f8968 100644
--- a/kd/model/kd_discover_regression.py
+++ b/kd/model/kd_discover_regression.py
@@ -30,11 +30,17 @@ class KD_Discover_Regression(KD_Discover):
     def __init__(self, *args, config_out=None, **kwargs):
         super().__init__(*args, config_out=None, **kwargs)
         self.base_config_file = "./discover/config/config_regression.json"
+        self.config_out = config_out
         self.set_config(config_out)
         self.best_program_ = None
         self.result_ = None
         self.n_features_in_ = None
 
+    @classmethod
+    def _get_param_names(cls):
+        """The constructor forwards its arguments to KD_Discover."""
+        return KD_Discover._get_param_names()
+
     def _validate_inputs(self, X, y, var_names: Sequence[str] | None):
         X_arr = np.asarray(X, dtype=float)
         y_arr = np.asarray(y, dtype=float).reshape(-1)
-- 
2.43.0


From 8e4bf5797b7d43d4740e17b19b68731e33be9a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:11 +0000
Subject: [PATCH 51/51] fix: retrained EqGPT networks used other units than the
 grid they are evaluated on

---
 kd/model/kd_eqgpt.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/kd/model/kd_eqgpt.py b/kd/model/kd_eqgpt.py
index 1170237..ad96b55 100644
--- a/kd/model/kd_eqgpt.py
+++ b/kd/model/kd_eqgpt.py
@@ -311,6 +311,16 @@ class KD_EqGPT:
 
         return all_Net, all_database, all_nx, all_nt
 
+    @staticmethod
+    def _case_units(trail_num: str) -> Tuple[float, float]:
+        """Wave period and wavelength of a case, parsed from its name."""
+        match = re.search(r"G(\d+)Tp(\d+)A(\d+)", trail_num)
+        if match is None:
+            raise ValueError(f"Cannot parse case name: {trail_num}")
+        tp = int(match.group(2)) / 10.0
+        lamda = 9.81 * (tp ** 2) / (2.0 * math.pi)
+        return tp, lamda
+
     def _train_single_surrogate(
         self,
         trail_num: str,
@@ -333,10 +343,13 @@ class KD_EqGPT:
             Activation_Function="Sin", Batch_Norm=False,
         ).to(device)
 
-        # Prepare data (same as surrogate_model.py train())
+        # Prepare data (same as multi_surrogate_model.py train(), which made the
+        # shipped networks): the grid of _build_single_surrogate is in these units.
+        tp, lamda = self._case_units(trail_num)
         inputs = data[:, 0:2].copy()
-        inputs[:, 1] = inputs[:, 1] - 8
-        outputs = data[:, 2].reshape(-1, 1) * 100
+        inputs[:, 0] = inputs[:, 0] / tp
+        inputs[:, 1] = (inputs[:, 1] - 8.17) / lamda
+        outputs = data[:, 2].reshape(-1, 1) / lamda * 100
 
         n_samples = inputs.shape[0]
         indices = np.arange(n_samples)
@@ -417,14 +430,8 @@ class KD_EqGPT:
         )
         net.eval()
 
-        # Parse physical parameters from case name
-        pattern = r"G(\d+)Tp(\d+)A(\d+)"
-        match = re.search(pattern, trail_num)
-        if match is None:
-            raise ValueError(f"Cannot parse case name: {trail_num}")
-        g, tp_int, _a = map(int, match.groups())
-        tp = tp_int / 10.0
-        lamda = 9.81 * (tp ** 2) / (2.0 * math.pi)
+        # Physical parameters from case name
+        tp, lamda = self._case_units(trail_num)
 
         # Build coordinate grid
         x = np.concatenate([
-- 
2.43.0

