From 1d70c31323d8a8901b06ee6203ce7b4f85fdf449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 01/32] fix: pair every unknown's own solution with its version
 when building solution sets

The solution used in a row was chosen with the solution count of the last
unknown in that row, and the first unknown's version names were taken from a
list indexed differently, so second branches were lost and generated code
referred to names that were never assigned.
---
 ikbtbasics/ik_classes.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index fcf3dfe..5fda541 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -207,7 +207,6 @@ class Robot:
                 unk = n.unknown.name
                 subdict[unk] = self.solListMatrix[row][col]
 
-            nsols = self.solution_nodes[col].unknown.nsolutions
             #LHS: variable version #
             eqns_row = []
             for col in range(nunks): # go through unks in solution order
@@ -218,7 +217,11 @@ class Robot:
                 LHS =  sp.var(self.solution_nodes[col].name + 'v' + str(row+1)) #versions begin w/ 1
                 #LHS = theta_expand(LHS)
                 #print('\n\n   make_LHS_versions:         LHS: ', LHS , '\n\n')
-                thisSol = self.solution_nodes[col].unknown.solutions[row%nsols]
+                # which of this unknown's own solutions is used in this row
+                #   (version names cycle through the solutions, 1-based)
+                unk = self.solution_nodes[col].unknown
+                ver = int(self.solListMatrix[row][col].split('v')[-1])
+                thisSol = unk.solutions[(ver-1)%unk.nsolutions]
                 RHS = thisSol.subs(subdict) # substitute versions for this row
                 thiseqn = kc.kequation(LHS,RHS)
                 eqns_row.append(thiseqn)
@@ -262,8 +265,9 @@ class Robot:
 
             else: # first time through
                 #print('first solved unk:', u.details())
-                for vn in u.versionNames:  #start new row for all solns of first solved unk.
-                    solListMatrix.append([vn])
+                for i in range(u_nsols):  #start new row for all solns of first solved unk.
+                    u.LHSversionNames.append(u.name + 'v' + str(i+1))
+                    solListMatrix.append([u.LHSversionNames[i]])
                     #solListMatrix.append([u.name+'v'+'1'])
                     #print('create_solution_sets: creating ', u, solListMatrix)
             #print('---')
-- 
2.43.0


From 9bedfa0a69cdd8eb74fbdfa859c7cf42773a0532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 02/32] fix: atan2 leaf must not claim an unknown that is
 already solved

When the current unknown had been solved by an earlier leaf in the same tick
the final test looked only at solvable_tan, so the unknown was solved again
and a duplicate node entered the solution graph.
---
 ikbtleaves/tan_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ikbtleaves/tan_solver.py b/ikbtleaves/tan_solver.py
index 177257d..be799fc 100644
--- a/ikbtleaves/tan_solver.py
+++ b/ikbtleaves/tan_solver.py
@@ -217,7 +217,7 @@ class tan_id(b3.Action):    # action leaf for ID eqns solved by atan2()
             #continue #stop looking at equations for the same unknown                      
         tick.blackboard.set('curr_unk', u)
         tick.blackboard.set('unknowns',unknowns)   # the current list of unknowns
-        if u.solvable_tan:
+        if u.solvable_tan and not u.solved:
             return b3.SUCCESS
         else:
             return b3.FAILURE
-- 
2.43.0


From 97dd8e5e5c57cff415d45ef6c73c329db952f46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 03/32] fix: MemSequence and MemPriority use range (xrange does
 not exist in Python 3)

---
 b3/composites/mempriority.py | 2 +-
 b3/composites/memsequence.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/b3/composites/mempriority.py b/b3/composites/mempriority.py
index 1e3a593..17c9c36 100644
--- a/b3/composites/mempriority.py
+++ b/b3/composites/mempriority.py
@@ -12,7 +12,7 @@ class MemPriority(b3.Composite):
     def tick(self, tick):
         idx = tick.blackboard.get('running_child', tick.tree.id, self.id)
 
-        for i in xrange(idx, len(self.children)):
+        for i in range(idx, len(self.children)):
             node = self.children[i]
             status = node._execute(tick)
 
diff --git a/b3/composites/memsequence.py b/b3/composites/memsequence.py
index 62d6bbf..3fae91e 100644
--- a/b3/composites/memsequence.py
+++ b/b3/composites/memsequence.py
@@ -12,7 +12,7 @@ class MemSequence(b3.Composite):
     def tick(self, tick):
         idx = tick.blackboard.get('running_child', tick.tree.id, self.id)
 
-        for i in xrange(idx, len(self.children)):
+        for i in range(idx, len(self.children)):
             node = self.children[i]
             status = node._execute(tick)
 
-- 
2.43.0


From 23006b73eb7fe47d73e95add4ed3df66f5a6b27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 04/32] fix: RepeatUntilSuccess/Failure return ERROR rather
 than crash when no repetition is allowed

---
 b3/decorators/repeatuntilfailure.py | 1 +
 b3/decorators/repeatuntilsuccess.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/b3/decorators/repeatuntilfailure.py b/b3/decorators/repeatuntilfailure.py
index 64611a7..5f3a9e6 100644
--- a/b3/decorators/repeatuntilfailure.py
+++ b/b3/decorators/repeatuntilfailure.py
@@ -16,6 +16,7 @@ class RepeatUntilFailure(b3.Decorator):
             return b3.ERROR
 
         i = tick.blackboard.get('i', tick.tree.id, self.id)
+        status = b3.ERROR    # nothing executed yet
         while self.max_loop < 0 or i < self.max_loop:
             status = self.child._execute(tick)
 
diff --git a/b3/decorators/repeatuntilsuccess.py b/b3/decorators/repeatuntilsuccess.py
index 7744859..d1b1135 100644
--- a/b3/decorators/repeatuntilsuccess.py
+++ b/b3/decorators/repeatuntilsuccess.py
@@ -16,6 +16,7 @@ class RepeatUntilSuccess(b3.Decorator):
             return b3.ERROR
 
         i = tick.blackboard.get('i', tick.tree.id, self.id)
+        status = b3.ERROR    # nothing executed yet
         while self.max_loop < 0 or i < self.max_loop:
             status = self.child._execute(tick)
 
-- 
2.43.0


From 20a9a98b235b3cc9e7ea2a4ece18b4980b4bca6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 05/32] fix: dump() keeps children in order so that
 load(dump(tree)) is the same tree; load() reports bad names

---
 b3/core/behaviortree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/b3/core/behaviortree.py b/b3/core/behaviortree.py
index 5acc15b..165adaf 100644
--- a/b3/core/behaviortree.py
+++ b/b3/core/behaviortree.py
@@ -33,7 +33,7 @@ class BehaviorTree(object):
                 cls = getattr(b3, spec['name'])
 
             else:
-                raise AttibuteError('BehaviorTree.load: Invalid node name "%s"'%spec['name'])
+                raise AttributeError('BehaviorTree.load: Invalid node name "%s"'%spec['name'])
 
             node = cls()
             node.id = spec['id'] or node.id
@@ -93,9 +93,9 @@ class BehaviorTree(object):
 
             if node.category == b3.COMPOSITE and hasattr(node, 'children'):
                 children = []
-                for c in reversed(node.children):
+                for c in node.children:   # tree order: load() rebuilds from this list
                     children.append(c.id)
-                    stack.append(c)
+                stack.extend(reversed(node.children))
                 spec['children'] = children
             elif node.category == b3.DECORATOR and hasattr(node, 'child'):
                 stack.append(node.child)
-- 
2.43.0


From 8003ed466303b15eff11530545619a58b6cb510f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 06/32] fix: robot catalogue: DZhang was unreachable, Chair6DOF
 undefined, MiniDD/Sims11 joint-type vectors not 6 long, Mackler13 parameter
 missing

---
 ikbtfunctions/ik_robots.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/ikbtfunctions/ik_robots.py b/ikbtfunctions/ik_robots.py
index 33ace9c..dd6c79e 100644
--- a/ikbtfunctions/ik_robots.py
+++ b/ikbtfunctions/ik_robots.py
@@ -45,15 +45,14 @@ def robot_params(name):
             'MiniDD', 
             'Olson13',
             'Stanford', 
-            'Chair6DOF',  # below not solvable yet
-            'Khat6DOF',    
+            'Khat6DOF',   # below not solvable yet
             'Craig417', 
             'KawasakiRS05L',
             'KawasakiRS007L',
             'Khat6DOF',
             'Raven-II',
             'Wachtveitl', 'Frei13', 'Parkman13', 'Palm13', 'Minder13', 'Mackler13',
-            'Axtman13', 'Srisuan11', 'MiniDD', 'ICP5p5_A21', 'KR16', 'Issue4'
+            'Axtman13', 'Srisuan11', 'MiniDD', 'ICP5p5_A21', 'KR16', 'Issue4',
             'DZhang',
             'JennyGuoSp24']
     
@@ -366,7 +365,7 @@ def robot_params(name):
             [ -sp.pi/2 ,     0  ,   0   , th_5  ],
             [   0      ,     0  ,   0   ,   0   ]     
             ])
-        vv = [0,1,1,1,1]
+        vv = [0,1,1,1,1,0]
 
         variables = [unknown(d_1), unknown(th_2), unknown(th_3), unknown(th_4), unknown(th_5) ]
 
@@ -428,7 +427,7 @@ def robot_params(name):
             [0.,        0.,         0.,         0.]
             ])
             
-        vv = [0, 0, 1, 1, 1, 1, 1]
+        vv = [0, 0, 1, 1, 1, 1]
         variables = [unknown(d_1), unknown(d_2), unknown(th_3), unknown(th_4), unknown(th_5)]
         params = [l_1, l_2, l_3]
         pvals = {l_1: 5, l_2:2, l_3:4}
@@ -481,8 +480,8 @@ def robot_params(name):
         sp.var('l_3')
         vv = [0, 1, 1, 1, 1, 0]
         variables = [unknown(d_1), unknown(th_2), unknown(th_3), unknown(th_4), unknown(th_5)]
-        params = [l_1, l_2, l_3]
-        pvals = {l_1:2, l_2:2, l_3: 4}
+        params = [h, l_1, l_2, l_3]
+        pvals = {h:1, l_1:2, l_2:2, l_3: 4}
 
     if(name == 'Minder13'):
         # Minder 2013sp
-- 
2.43.0


From 4f08b3cce99a3fdb68ccc78eaa1e374198f6fae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 07/32] fix: numeric kinematics helpers: degree constant,
 RPY4_N and H_inv_N crashed, wrap_angle_N wrapped only once

---
 ikbtbasics/pykinsym.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/ikbtbasics/pykinsym.py b/ikbtbasics/pykinsym.py
index 43d12db..a4db121 100644
--- a/ikbtbasics/pykinsym.py
+++ b/ikbtbasics/pykinsym.py
@@ -26,7 +26,7 @@ import sys
 #
 
 #  Constants
-deg = 6.28317531/360.0
+deg = 2*np.pi/360.0
 rad2deg = 1.0/deg
 
 
@@ -59,10 +59,8 @@ def approx_N(a,b,verbose):
 
 # move angles into the range -pi to +pi
 def wrap_angle_N(t):
-  if(t < -np.pi):
-    t = t + 2*np.pi
-  elif(t >= np.pi):
-    t = t - 2*np.pi
+  if(t < -np.pi or t >= np.pi):
+    t = np.mod(t + np.pi, 2*np.pi) - np.pi
   return(t)
 
 #  check a matrix to make sure all its elements were properly converted to numerical form
@@ -327,7 +325,7 @@ def RPY3_N(r,p,y):
 def RPY4_N(r,p,y):
    R = RPY3_N(r,p,y)
    #T = np.matrix(np.zeros(16).reshape(4,4))
-   T = np.matrix(np.zeros(4))
+   T = np.matrix(np.zeros((4,4)))
    for i in range(0,3):
      for j in range(0,3):
        T[i,j] = R[i,j]
@@ -338,8 +336,9 @@ def RPY4_N(r,p,y):
 def H_inv_N(T):
   R = T[0:3,0:3].T
   P = -R*T[0:3,3]
-  T1 = R.row_join(P)
-  T1 = T1.col_join(sp.Matrix([0,0,0,1]).T)
+  T1 = np.matrix(np.eye(4))
+  T1[0:3,0:3] = R
+  T1[0:3,3] = P
   return T1
 
 
-- 
2.43.0


From 13ea9f7fc424682614dad67d8230bb33f79963b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 08/32] fix: sum-of-angles: no duplicate variables/equations,
 only genuine sums of joint variables are replaced

---
 ikbtbasics/ik_classes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index 5fda541..d1ad281 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -396,13 +396,9 @@ class Robot:
 
                     # simplify LHS
 
+                    # (new variables and equations are added by sum_of_angles_sub)
                     lhs, newj, newe = sum_of_angles_sub(self, lhs, variables)
 
-                    if newj:
-                        variables.append(newj)
-                    if newe:
-                        self.kequation_aux_list.append(newe)
-
                     # simplify RHS
                     rhs, newj, newe= sum_of_angles_sub(self, rhs, variables)
 
@@ -461,12 +457,16 @@ def sum_of_angles_sub(R, expr, variables):
         # count number of non-zero elements among aw ... cw
         nzer = 0
         varlist = []
+        found2 = found3 = False   # about this match only
         for k1 in d.keys():
             if d[k1] == 0:
                 nzer += 1
             else:
                 varlist.append(d[k1])
         #print 'varlist: ', varlist
+        # only sums of joint variables (not eg. th_2-th_3, 2*th_2 or th_2+al_1)
+        if any(v not in [u.symbol for u in variables] for v in varlist):
+            continue
         if len(varlist) == 2:
             found2 = True
         if len(varlist) == 3:
-- 
2.43.0


From 06eb0594d01c9444712d1acebe64e19558df7743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 09/32] fix: sum_id crashed (undefined find_xy) when an
 equation still contained a sum or difference of angles

---
 ikbtleaves/sum_id.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/ikbtleaves/sum_id.py b/ikbtleaves/sum_id.py
index cd88b98..dbbdc81 100644
--- a/ikbtleaves/sum_id.py
+++ b/ikbtleaves/sum_id.py
@@ -58,7 +58,12 @@ class sum_id(b3.Action):   ##  we should change this name since its a transform
             thx = sp.Wild('thx')   # sympy wildcards for template matching
             thy = sp.Wild('thy')
             sgn = sp.Wild('sgn')
-            
+
+            # a sum of exactly two joint variables (not a difference or an offset)
+            def isSOA(d):
+                syms = [u.symbol for u in unknowns]
+                return d[thx] in syms and d[sgn] == 1 and d[thy] in syms
+
             success_flag = False
             
             Tmlist = Tmatrix.get_kequation_list() # convert to list of equns
@@ -79,20 +84,22 @@ class sum_id(b3.Action):   ##  we should change this name since its a transform
                         while len(sub_sin) > 0 and not found:
                             sin_expr = sub_sin.pop()
                             d = sin_expr.match(sp.sin(thx + sgn * thy))
-                            if d[thx] != 0 and d[sgn] != 0 and d[thy] != 0: #has to be joint variable
+                            if isSOA(d): #has to be joint variable
                                 found = True
 
                             
                         while len(sub_cos) > 0 and not found:
                             cos_expr = sub_cos.pop()
                             d = cos_expr.match(sp.cos(thx + sgn * thy))
-                            if d[thx] != 0 and d[sgn] != 0 and d[thy] != 0:
+                            if isSOA(d):
                                 found = True
                             
                         if found:
                             print('- - - - - - - - >>>> test: found:', expr)
                             success_flag = True
-                            th_xy = find_xy(d[thx], d[thy])
+                            # index of the sum, eg 23 for th_2+th_3
+                            nxy = ''.join(sorted(str(get_variable_index(unknowns, v)) for v in [d[thx], d[thy]]))
+                            th_xy = sp.var('th_' + nxy)
                             #if not exists in the unknown list (this requires proper hashing), create variable
                             if th_xy not in unkn_sums_sym:
                                 print("found NEW 'joint' (updated) (sumofangle) variable: ")
@@ -100,10 +107,7 @@ class sum_id(b3.Action):   ##  we should change this name since its a transform
                                 #  try moving soa equation to Tm.auxeqns
                                 unkn_sums_sym.add(th_xy) #add into the joint variable set
                                 newjoint = unknown(th_xy)
-                                # extract subscripts from SOA variables to get combined variable
-                                #   ([3:] eliminates 'th_' from string name)
-                                #print('test: .n ',str(d[thx])[3:], str(d[thy])[3:])
-                                newjoint.n = int(str(d[thx])[3:]+str(d[thy])[3:]) # store new subscript
+                                newjoint.n = int(nxy) # store new subscript
                                 #newjoint.joint_eq = d[thx] + d[sgn] * d[thy]
                                 alreadyThere = False
                                 for u in unknowns:
@@ -113,10 +117,10 @@ class sum_id(b3.Action):   ##  we should change this name since its a transform
                                 if not alreadyThere:
                                     print('>>>>     appending variable to unknowns: ', newjoint)
                                     unknowns.append(newjoint) #add it to unknowns list
-                                tmpeqn = kequation(th_xy, d[thx] + d[sgn] * d[thy])
-                                print('sumofanglesT: appending ', tmpeqn)
-                                # store the SOA aux equation 
-                                R.kequation_aux_list.append(tmpeqn)
+                                    tmpeqn = kequation(th_xy, d[thx] + d[sgn] * d[thy])
+                                    print('sumofanglesT: appending ', tmpeqn)
+                                    # store the SOA aux equation 
+                                    R.kequation_aux_list.append(tmpeqn)
                                 print(d[thx] + d[sgn]*d[thy])
                                 #substitute all thx +/- thy expression with th_xy
                                 matr_equ.Ts = matr_equ.Ts.subs(d[thx] + d[sgn] * d[thy], th_xy)
-- 
2.43.0


From 1693dd37a116b052f054fa7d83224d99cf8c15a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 10/32] fix: parameters introduced for cos/sin of twist angles
 were lost when the FK came from the cache

---
 fkOnly.py            | 2 +-
 ikSolver.py          | 2 +-
 ikbtbasics/kin_cl.py | 5 +++--
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/fkOnly.py b/fkOnly.py
index de7e3e1..f547db9 100644
--- a/fkOnly.py
+++ b/fkOnly.py
@@ -113,7 +113,7 @@ testing = False
 print('GOT HERE (after FK): robot name: ', R.name)
 
 R.name = robot
-R.params = params
+R.params = M.params   # incl. any ca1, sa1 ... added by forward_kinematics()
 R.variables = unknowns
 
 ##   check the pickle in case DH params were changed
diff --git a/ikSolver.py b/ikSolver.py
index 867102a..3ca54ea 100644
--- a/ikSolver.py
+++ b/ikSolver.py
@@ -110,7 +110,7 @@ print('Solver:  unknowns:', unknowns)
 print('GOT HERE (Fk completed): robot name: ', R.name)
 
 R.name = robot
-R.params = params
+R.params = M.params   # incl. any ca1, sa1 ... added by forward_kinematics()
 
 ##   check the pickle in case DH params were changed
 dhp = M.DH
diff --git a/ikbtbasics/kin_cl.py b/ikbtbasics/kin_cl.py
index c50541b..fe3e949 100644
--- a/ikbtbasics/kin_cl.py
+++ b/ikbtbasics/kin_cl.py
@@ -291,8 +291,9 @@ class mechanism:
                 tmpvc = sp.var(f'ca{i}')  # create new parameter for cos(al)-> ca1, ca2, etc
                 tmpvs = sp.var(f'sa{i}')  # create new parameter for sin(al)
 
-                self.params.append(tmpvc)   #
-                self.params.append(tmpvs)   #
+                for p in [tmpvc, tmpvs]:
+                    if p not in self.params:   # (if we are run a second time)
+                        self.params.append(p)
                 self.pvals[tmpvc] = f'np.cos({alpha_i})'
                 self.pvals[tmpvs] = f'np.sin({alpha_i})'
 
-- 
2.43.0


From ebe258781b4ee846bd84b102fd7f403f6a691b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 11/32] fix: numerical parameter values edited after the FK was
 cached were ignored

---
 ikbtbasics/ik_classes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index d1ad281..3877259 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -85,6 +85,7 @@ def kinematics_pickle(rname, dh, constants, pvals, vv, unks, test):
             [m, R, unknowns]  = pickle.load(pick)
             print('Successfully read pre-computed forward kinematics')
             print('pickle contained ', len(unknowns), ' unknowns')
+            m.pvals.update(pvals)   # numerical values may have been edited since
     else:
         #print 'WRONG - quitting, error: ',sys.exc_info()[0]
         #sys.exit
-- 
2.43.0


From 710076f3a5f421161bfd21b663b0f8694f4773d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 12/32] fix: generated FK code did not define joint variables
 whose names have no subscript

---
 ikbtfunctions/output_python.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ikbtfunctions/output_python.py b/ikbtfunctions/output_python.py
index 8853fbf..1f433c9 100644
--- a/ikbtfunctions/output_python.py
+++ b/ikbtfunctions/output_python.py
@@ -119,11 +119,13 @@ pi = np.pi
                     print('Debug subscript s:',ss, s)
                     # find var with this subscript:
                     for v1 in Robot.variables:
-                        if s in str(v1) and len(str(v1).split('_')[1]) == 1: # avoid soa subscripts
+                        if str(v1.n) == s:
                             soa += f' {str(v1)} +'
                 print(indent + soa[:-1], file=f)
             else:
                 print(indent + f'{str(v)} = 1.0   # 1.0= dummy value',file=f)
+        else:   # joint variable without a subscript
+            print(indent + f'{str(v)} = 1.0   # 1.0= dummy value',file=f)
 
     funcname = 'Fkin_'+orig_name
     print('''
-- 
2.43.0


From a6b7a86d5c9d2899246c2854a4cb2cdf471abcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 13/32] fix: generated IK code: parameter declarations must be
 inside the function (IndentationError)

---
 ikbtfunctions/output_python.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ikbtfunctions/output_python.py b/ikbtfunctions/output_python.py
index 1f433c9..2a7ee8c 100644
--- a/ikbtfunctions/output_python.py
+++ b/ikbtfunctions/output_python.py
@@ -195,10 +195,10 @@ pi = np.pi
     if(Robot.Mech.pvals != {}):  # if we have numerical values stored
         for p in Robot.params:
             val = str(Robot.Mech.pvals[p])
-            tmp += str(p) + ' = ' + val + '\n'
+            tmp += '    ' + str(p) + ' = ' + val + '\n'   # (inside the function)
     else:                        # no stored numerical values
         for p in Robot.params:
-            tmp += str(p) + ' = XXXXX    # deliberate undeclared error!  USER needs to give numerical value \n'
+            tmp += '    ' + str(p) + ' = XXXXX    # deliberate undeclared error!  USER needs to give numerical value \n'
     par_decl_str = tmp
 
 
-- 
2.43.0


From df6143234156b9feddef8bc7181dcfbb80be60c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 14/32] fix: generated IK code is valid Python 3: function
 name, bad-input message, print()

---
 ikbtfunctions/output_python.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ikbtfunctions/output_python.py b/ikbtfunctions/output_python.py
index 2a7ee8c..d8032b9 100644
--- a/ikbtfunctions/output_python.py
+++ b/ikbtfunctions/output_python.py
@@ -208,7 +208,7 @@ pi = np.pi
 
     indent = '    ' # 4 spaces
 
-    funcname = 'ikin_'+fixed_name 
+    funcname = 'ikin_' + re.sub(r'\W', '_', orig_name)   # must be a Python name
     print('''
 # Auto Generated Code to solve the unknowns
 #        parameter:  T   4x4 numerical target for T06
@@ -216,7 +216,7 @@ pi = np.pi
 ''', file=f)
     print('def', funcname +'(T):', file=f) # no indent
     print(indent+'if(T.shape != (4,4)):', file=f)
-    print(indent*2 + 'print ( "bad input to "+funcname'+')', file=f)
+    print(indent*2 + 'print ( "bad input to ' + funcname + '")', file=f)
     print(indent*2 + 'quit()', file=f)
     print('''#define the input vars 
     r_11 = T[0,0]
@@ -382,11 +382,11 @@ if __name__ == "__main__":
     list = ''' + funcname + '''(T1)
 
     i = 0
-    for sol in list:
-        print ''
-        print 'Solution ', i
+    for sol in list or []:    # False if the pose is not reachable
+        print('')
+        print('Solution ', i)
         i+=1
-        print sol
+        print(sol)
 
 
     ''', file=f)
-- 
2.43.0


From b71539729b08d2d7bd4e3218cea6b19618ac56dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 15/32] fix: generated IK code: output every solution, test
 exactly the arguments of asin/acos, unreachable poses return False

---
 ikbtfunctions/output_python.py | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/ikbtfunctions/output_python.py b/ikbtfunctions/output_python.py
index d8032b9..821f665 100644
--- a/ikbtfunctions/output_python.py
+++ b/ikbtfunctions/output_python.py
@@ -270,22 +270,14 @@ pi = np.pi
             # get the solution equation version
             solEqnVer = Robot.FinalEqnMatrix[rowindex][colindex]
             print('Python Output: Solution Equation Version: ', solEqnVer)
-            if re.search('asin', str(solEqnVer.RHS)) or re.search('acos', str(solEqnVer.RHS)):
+            # asin/acos: test each argument.  The pose is not reachable if it is out of domain
+            #   (and unknowns depending on this one could not be computed)
+            for fcn in sorted(solEqnVer.RHS.atoms(sp.asin, sp.acos), key=str):
                 print ('  Found asin/acos solution ...', solEqnVer.LHS , ' "=" ',solEqnVer.RHS)
-                tmp = re.search('\((.*)\)',str(solEqnVer.RHS))
-                print(indent + 'if (solvable_pose and abs', tmp.group(0), ' > 1):', file=f)
-                print(indent*2 + 'solvable_pose = False', file=f)
-                print(indent + 'else:', file=f)
-                tmp = str(solEqnVer.LHS) + ' = ' + str(solEqnVer.RHS)
-                print(indent*2 + tmp, file=f)
-            if re.search('atan', str(solEqnVer.RHS)):
-                print('  Found atan2 solution ...', solEqnVer.LHS , ' "=" ',solEqnVer.RHS)
-                tmp = re.search('\((.*)\)',str(solEqnVer.RHS))
-                tmp = str(solEqnVer.LHS) + ' = ' + str(solEqnVer.RHS)
-                print(indent + tmp, file=f)
-            if node.solvemethod == 'algebra':
-                print('  Found algebra solution ... ' , solEqnVer.LHS , ' = ', solEqnVer.RHS)
-                print(indent + str(solEqnVer.LHS) + ' = ' + str(solEqnVer.RHS), file=f)
+                print(indent + 'if (abs(' + str(fcn.args[0]) + ') > 1):', file=f)
+                print(indent*2 + 'return(False)', file=f)
+            # every solution of every method is output
+            print(indent + str(solEqnVer.LHS) + ' = ' + str(solEqnVer.RHS), file=f)
 
     print('''
 ##################################
-- 
2.43.0


From 53e65dc9df1cd240418388255c7033e0faede7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 16/32] fix: generated C++: every solution of every method, in
 C++ syntax, with its own domain test

---
 ikbtfunctions/output_cpp.py | 36 ++++++++----------------------------
 1 file changed, 8 insertions(+), 28 deletions(-)

diff --git a/ikbtfunctions/output_cpp.py b/ikbtfunctions/output_cpp.py
index 771d17b..ab4d60d 100644
--- a/ikbtfunctions/output_cpp.py
+++ b/ikbtfunctions/output_cpp.py
@@ -177,7 +177,7 @@ int False = 0;
             print('Cpp Output Gen: Solution Equation Version: ', solEqnVer)
             c.line('\n// solution '+str(solno))
             solno += 1
-            solrhs = str(solEqnVer.RHS)
+            solrhs = sp.ccode(solEqnVer.RHS)   # pow(), asin(), 1.0/2.0 etc.
             # detect arcsin() or arccos()
             #
             #  BH   21-Sept
@@ -188,7 +188,6 @@ int False = 0;
             #  if this test fails the pose is unreachable and arcsin fails.
             #
             #
-            trig = False
             print('\n\nCpp Output Gen: Studying node: ', node.symbol, ' solution ', solno)
             print('solvemethod: ', node.solvemethod)
             print(' LHS: ', str(solEqnVer.LHS))
@@ -199,37 +198,18 @@ int False = 0;
             c.line('// solvemethod: ' + node.solvemethod )
             c.line('//    argument: ' + str(node.argument )  )
 
-            if(node.solvemethod == 'arcsin' or node.solvemethod == 'arccos'):
-               trig = True
-
-            if(trig):
+            # asin/acos: test each argument.  The pose is not reachable if it is out of domain
+            for fcn in sorted(solEqnVer.RHS.atoms(sp.asin, sp.acos), key=str):
                print('  Found asin/acos solution ...', solEqnVer.LHS , ' "=" ',solEqnVer.RHS)
                c.line('// Arcsin() or Arccos() based solution:')
-               c.line('argument = ' + str(node.argument))
-               c.line('if (solvable_pose && fabs(argument) > 1)')
+               c.line('argument = ' + sp.ccode(fcn.args[0]) + ';')
+               c.line('if (fabs(argument) > 1)')
                c.push()
-               c.line('solvable_pose = False; ')
-               c.pop()
-               c.line('else if (solvable_pose)')
-               c.push()        #  bugus    (here)
-               c.line(str(solEqnVer.LHS) + ' = '+node.solvemethod+'(argument);' )
+               c.line('return(False);')
                c.pop()
 
-            if ((not trig) and 'atan2(y,x)' in node.solvemethod):
-                c.line(str(solEqnVer.LHS) + ' = ' + solrhs + ';')
-
-            if 'algebra' in node.solvemethod:
-                c.line(str(solEqnVer.LHS) + ' = ' + solrhs + ';')
-
-            if 'x2z2' in node.solvemethod:
-                print('x2z2 output: ', node.argument)
-                c.line(str(solEqnVer.LHS) + ' = ' + solrhs + ';')
-
-
-
-            if 'simultaneous eqn' in node.solvemethod:
-                print('x2z2 output: ', node.argument)
-                c.line(str(solEqnVer.LHS) + ' = ' + solrhs + ';')
+            # every solution of every method is output
+            c.line(str(solEqnVer.LHS) + ' = ' + solrhs + ';')
 
 
 
-- 
2.43.0


From 9205ca0052211ddfae32fd24623632fb1e3d9e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 17/32] fix: generated C++: declare every variable that is
 assigned, C++ comment syntax

---
 ikbtfunctions/output_cpp.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ikbtfunctions/output_cpp.py b/ikbtfunctions/output_cpp.py
index ab4d60d..19d9751 100644
--- a/ikbtfunctions/output_cpp.py
+++ b/ikbtfunctions/output_cpp.py
@@ -87,11 +87,10 @@ int ikin(double T[4][4], double solution_list[64][6]);
     ###################
     #   Variable and parameter declarations
 
-    sol_vars = set() #all variables used in solutions
-    # now handled outside, in ikSolver
-    #solution_groups = mtch.matching_func(Robot.notation_collections, Robot.solution_nodes)
-    for s in solution_groups:
-        sol_vars.update(s)
+    sol_vars = [] #all variables used in solutions
+    # (every version of every unknown, not only those listed in solution_groups)
+    for row in Robot.FinalEqnMatrix:
+        sol_vars += [eqn.LHS for eqn in row]
 
     #  Variable Declarations
     tmp = 'double'
@@ -103,7 +102,7 @@ int ikin(double T[4][4], double solution_list[64][6]);
     # parameter Declarations
     tmp = '\n'
     for p in Robot.params:   # other DH dimensional params (l_3 etc)
-        tmp += 'double '+str(p) + ' = XXXXX ; \\ deliberate undeclared error!  USER needs to give numerical value\n'
+        tmp += 'double '+str(p) + ' = XXXXX ; // deliberate undeclared error!  USER needs to give numerical value\n'
     par_decl_str = tmp
 
     nlist = Robot.solution_nodes
-- 
2.43.0


From cf4edce1e4a2c2be97211fbf5fd1241da3505ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 18/32] fix: generated C++: solution table was too narrow for
 more than 6 unknowns

---
 ikbtfunctions/output_cpp.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ikbtfunctions/output_cpp.py b/ikbtfunctions/output_cpp.py
index 19d9751..f8babde 100644
--- a/ikbtfunctions/output_cpp.py
+++ b/ikbtfunctions/output_cpp.py
@@ -61,6 +61,9 @@ def output_cpp_code(Robot, solution_groups):
 
     c = cpp_output()
 
+    # table of solutions: rows = versions, columns = unknowns (incl. sums of angles)
+    dims = '[%d][%d]' % (max(64, len(solution_groups)), max(6, len(Robot.solution_nodes)))
+
     DirName = 'CodeGen/Cpp/'
     fname = DirName + 'IK_equations'+orig_name+'.cpp'
     f = open(fname, 'w')
@@ -80,7 +83,7 @@ double pi = 3.1415926;
 
 // ikin_Wrists modifies solution_list in-place and
 // returns 1 for valid solutions and 0 for no solutions
-int ikin(double T[4][4], double solution_list[64][6]);
+int ikin(double T[4][4], double solution_list''' + dims + ''');
 
 ''')
 
@@ -113,7 +116,7 @@ int ikin(double T[4][4], double solution_list[64][6]);
     c.line('int main()')
     c.push()
     c.line('double T[4][4] = { {1,0,0,0},{0,1,0,0},{0,0,1,0},{0,0,0,1}, };' )
-    c.line('double sol_list[64][6] = {0};  // list of solutions')
+    c.line('double sol_list' + dims + ' = {0};  // list of solutions')
     c.line('if('+funcname+'(T, sol_list))')
     c.push()
     c.line('std::cout << sol_list;')
@@ -128,7 +131,7 @@ int ikin(double T[4][4], double solution_list[64][6]);
     # ik function
     c.line('\n// Code to solve the unknowns ')
     c.line('\n\n// Declarations')
-    c.line('int ' + funcname + '(double T[4][4], double solution_list[64][6] )')  # no indent
+    c.line('int ' + funcname + '(double T[4][4], double solution_list' + dims + ' )')  # no indent
     c.push()
     c.line('''\n//define the input vars
 double r_11 = T[0][0];
-- 
2.43.0


From 944ff6d07889287dcf86ad3e585c04609b8c9061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 19/32] fix: a robot for which nothing could be solved crashed
 the report instead of producing an empty one

---
 ikbtbasics/ik_classes.py      | 2 +-
 ikbtfunctions/output_latex.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index 3877259..0cff567 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -200,7 +200,7 @@ class Robot:
     # class Robot
     def make_LHS_versions(self):
         nvers = len(self.solListMatrix)  # n versions
-        nunks = len(self.solListMatrix[0])  # n solved unknowns (cols)
+        nunks = len(self.solution_nodes)    # n solved unknowns (cols), may be none
         for row in range(nvers): # go through versions
             # get subs dict for this row
             subdict = {}
diff --git a/ikbtfunctions/output_latex.py b/ikbtfunctions/output_latex.py
index 88f7781..6ccd673 100644
--- a/ikbtfunctions/output_latex.py
+++ b/ikbtfunctions/output_latex.py
@@ -322,7 +322,7 @@ The following are the sets of joint solutions (poses) for this manipulator:
 
 
     ####################  Solution sets Table form
-    ncols = len(list(Robot.solutionSet)[0])
+    ncols = len(Robot.solution_nodes)
     colstr = '|' + 'l|'*ncols
     tablestr = r'\section{Solution Set v3} \begin{tabular}{' + colstr + r'}\hline' + eol
     for s in Robot.solutionSet:
-- 
2.43.0


From e27df2a032714df054c5670222cfd503415686eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:30 +0000
Subject: [PATCH 20/32] fix: arcsin/arccos leaf crashed when the unknown is on
 the left-hand side of its equation

---
 ikbtleaves/sincos_solver.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ikbtleaves/sincos_solver.py b/ikbtleaves/sincos_solver.py
index 6619c03..ae03ab1 100644
--- a/ikbtleaves/sincos_solver.py
+++ b/ikbtleaves/sincos_solver.py
@@ -179,7 +179,11 @@ class sincos_solve(b3.Action):    # Solve asincos equation pairs
 
             # parse the equation RHS 
             terms = [sp.sin(u.symbol), sp.cos(u.symbol)]
-            rhs = sp.collect(u.eqntosolve.RHS, terms)
+            lhs = u.eqntosolve.LHS
+            rhs = u.eqntosolve.RHS
+            if lhs.has(u.symbol):   # the ID also accepts the unknown on the LHS
+                lhs, rhs = sp.S.Zero, rhs - lhs
+            rhs = sp.collect(rhs, terms)
             # Exclude sin/cos of this unknown from the Wilds.  'Aw*sin(u)+Bw'
             # is otherwise ambiguous -- it matches anything via
             # Aw = (expr-Bw)/sin(u) -- and sympy returns exactly that for a
@@ -209,7 +213,7 @@ class sincos_solve(b3.Action):    # Solve asincos equation pairs
                 else:
                     B = 0
                     
-                targument = (u.eqntosolve.LHS-B)/A
+                targument = (lhs-B)/A
                 # a solution that still contains its own unknown is not a
                 # solution; this guard is the analogue of the one commented
                 # out in sinANDcos_solver.
@@ -243,7 +247,7 @@ class sincos_solve(b3.Action):    # Solve asincos equation pairs
                     else:
                         B = 0
                             
-                    targument = (u.eqntosolve.LHS-B)/A
+                    targument = (lhs-B)/A
                     assert(not targument.has(u.symbol)), \
                         'sincos_solve (arccos): solution contains itself: ' + str(targument)
                     sol1 =   sp.acos( targument  )
-- 
2.43.0


From e271017557c8bb4caf7a64047cf90f1f0c8b6860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 21/32] fix: sinANDcos leaf claimed equations with the unknown
 left in the coefficients (e.g. sin*cos products)

---
 ikbtleaves/sinANDcos_solver.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ikbtleaves/sinANDcos_solver.py b/ikbtleaves/sinANDcos_solver.py
index 2a7b134..f58f8b4 100644
--- a/ikbtleaves/sinANDcos_solver.py
+++ b/ikbtleaves/sinANDcos_solver.py
@@ -132,7 +132,11 @@ class sinandcos_id(b3.Action):    # action leaf for sincosid
                       print('Sin AND Cos identifying: ', es)
                       print('Aw: ', d[Aw], ' Bw: ', d[Bw], ' Cw: ', d[Cw])
                   
-                  if not d[Cw].has(u.symbol):
+                  # the unknown must not be left in any of the coefficients, e.g.
+                  #   l_1*sin(x)*cos(x) + l_1*sin(x)   ->  Aw = l_1*cos(x) + l_1
+                  # and must not have cancelled altogether.
+                  if not any(d[w].has(u.symbol) for w in (Aw, Bw, Cw)) \
+                      and not d[Aw] == d[Bw] == 0:
                       u.readytosolve = True
                       u.eqntosolve   = kc.kequation(lhs, es)
                       u.solvemethod += 'sinANDcos'
-- 
2.43.0


From a98714adc399e2fe4d181f269cb05a479c99d97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:09 +0000
Subject: [PATCH 22/32] fix: simultaneous-equation leaf claimed pairs with
 further terms in the unknown

---
 ikbtleaves/two_eqn_m7.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ikbtleaves/two_eqn_m7.py b/ikbtleaves/two_eqn_m7.py
index 69306c6..1567e83 100644
--- a/ikbtleaves/two_eqn_m7.py
+++ b/ikbtleaves/two_eqn_m7.py
@@ -61,6 +61,12 @@ def canonical_second_eqn(u, e1, e2):
         return None
     a2 = e2.coeff(sp.cos(u))
     b2 = -e2.coeff(sp.sin(u))
+    #  the coefficients and the rest of each equation must be free of u, or
+    #  C, D (and the "solution") would still be functions of u
+    for part in (A, B, a2, b2, (e1 - A*sp.sin(u) - B*sp.cos(u)).expand(),
+                 (e2 - a2*sp.cos(u) + b2*sp.sin(u)).expand()):
+        if part.has(u):
+            return None
     if a2 == A and b2 == B:
         return e2
     if a2 == -A and b2 == -B:
-- 
2.43.0


From 2e8c867ccae253b37aca8adf10a1d7657543b2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:26 +0000
Subject: [PATCH 23/32] fix: set_solved accepted a solution that depends on the
 unknown itself

---
 ikbtbasics/kin_cl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ikbtbasics/kin_cl.py b/ikbtbasics/kin_cl.py
index fe3e949..50d3b89 100644
--- a/ikbtbasics/kin_cl.py
+++ b/ikbtbasics/kin_cl.py
@@ -151,7 +151,6 @@ class unknown(object):
 
     #class unknown
     def set_solved(self, R, unknowns):
-        self.solved = True
         self.readytosolve = False
         print('\n\n')
         print('set_solved (for solutionGraphV3: ', self.symbol, '      by: ', self.solvemethod)
@@ -175,6 +174,7 @@ class unknown(object):
             solname = self.name + 's' + str(n)
             n += 1
             self.solutionNames.append(solname)
+        self.solved = True     # (after get_deps(): a solution must not depend on itself)
         # set up a node
         newNode = Node(self)
 
-- 
2.43.0


From 5713cd6fea9b2664ad6d5849a763c7c6125a2bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:45 +0000
Subject: [PATCH 24/32] fix: generated code: parameters without a numerical
 value crashed the output when others have one

---
 ikbtfunctions/output_python.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/ikbtfunctions/output_python.py b/ikbtfunctions/output_python.py
index 821f665..551ea8d 100644
--- a/ikbtfunctions/output_python.py
+++ b/ikbtfunctions/output_python.py
@@ -90,12 +90,11 @@ pi = np.pi
 
     print('#\n#      Robot Parameters \n#',file=f)
     tmp = '\n'
-    if(Robot.Mech.pvals != {}):  # if we have numerical values stored
-        for p in Robot.params:
+    for p in Robot.params:
+        if p in Robot.Mech.pvals:  # if we have a numerical value stored
             val = str(Robot.Mech.pvals[p])
             tmp += str(p) + ' = ' + val + '\n'
-    else:                        # no stored numerical values
-        for p in Robot.params:
+        else:                      # no stored numerical value
             tmp += str(p) + ' = XXXXX    # deliberate undeclared error!  USER needs to give numerical value \n'
     par_decl_str = tmp
 
@@ -192,12 +191,11 @@ pi = np.pi
 
     # parameter Declarations (a_3, d_5, etc).
     tmp = '\n'
-    if(Robot.Mech.pvals != {}):  # if we have numerical values stored
-        for p in Robot.params:
+    for p in Robot.params:
+        if p in Robot.Mech.pvals:  # if we have a numerical value stored
             val = str(Robot.Mech.pvals[p])
             tmp += '    ' + str(p) + ' = ' + val + '\n'   # (inside the function)
-    else:                        # no stored numerical values
-        for p in Robot.params:
+        else:                      # no stored numerical value
             tmp += '    ' + str(p) + ' = XXXXX    # deliberate undeclared error!  USER needs to give numerical value \n'
     par_decl_str = tmp
 
-- 
2.43.0


From ae30de8d647d6c74b1a4aba169d2ce7eb58faa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:47 +0000
Subject: [PATCH 25/32] fix: parameter values removed from the model stayed in
 force when the FK came from the cache

---
 ikbtbasics/ik_classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index 0cff567..86c2d63 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -85,7 +85,8 @@ def kinematics_pickle(rname, dh, constants, pvals, vv, unks, test):
             [m, R, unknowns]  = pickle.load(pick)
             print('Successfully read pre-computed forward kinematics')
             print('pickle contained ', len(unknowns), ' unknowns')
-            m.pvals.update(pvals)   # numerical values may have been edited since
+            # numerical values may have been edited since (keep those of parameters added by forward_kinematics())
+            m.pvals = {**{p: v for p, v in m.pvals.items() if p not in constants}, **pvals}
     else:
         #print 'WRONG - quitting, error: ',sys.exc_info()[0]
         #sys.exit
-- 
2.43.0


From f7240c6707cd3d22465d3f5b27565501bbc229d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:46 +0000
Subject: [PATCH 26/32] fix: comparing a graph edge with None crashed

---
 ikbtbasics/solutionGraphV3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ikbtbasics/solutionGraphV3.py b/ikbtbasics/solutionGraphV3.py
index 4066bed..b0555db 100644
--- a/ikbtbasics/solutionGraphV3.py
+++ b/ikbtbasics/solutionGraphV3.py
@@ -72,6 +72,8 @@ class Edge: # from unk --->  dependency
         return   'Edge:' +  str(self.StartNode) + " depends on: " + str(self.dependsOn) + f'  ({self.StartNode}-->{self.dependsOn})'
 
     def __eq__(self, other):
+        if other is None:
+            return False
         return self.StartNode == other.StartNode and self.dependsOn == other.dependsOn and self.mult == other.mult
 
     def __hash__(self):
-- 
2.43.0


From fb822aa756caa2254a7bd006e6a97ae3b98d2b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:13 +0000
Subject: [PATCH 27/32] fix: H_inv_N crashed for a transform made by Trans4_N
 (array instead of matrix)

---
 ikbtbasics/pykinsym.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ikbtbasics/pykinsym.py b/ikbtbasics/pykinsym.py
index a4db121..04c0f3b 100644
--- a/ikbtbasics/pykinsym.py
+++ b/ikbtbasics/pykinsym.py
@@ -334,6 +334,7 @@ def RPY4_N(r,p,y):
 
 #   Get the inverse of a symbolic 4x4 Homogeneous transform
 def H_inv_N(T):
+  T = np.asmatrix(T)    # (Trans4_N() gives an array: * would be element by element)
   R = T[0:3,0:3].T
   P = -R*T[0:3,3]
   T1 = np.matrix(np.eye(4))
-- 
2.43.0


From c24b005b5254ce79ba225276d752fcb8edd5629e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:17 +0000
Subject: [PATCH 28/32] fix: tan_id: tracing crashed on a failed match and
 changed the unknown being solved

---
 ikbtleaves/tan_solver.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ikbtleaves/tan_solver.py b/ikbtleaves/tan_solver.py
index be799fc..fe95d6c 100644
--- a/ikbtleaves/tan_solver.py
+++ b/ikbtleaves/tan_solver.py
@@ -124,7 +124,7 @@ class tan_id(b3.Action):    # action leaf for ID eqns solved by atan2()
                     print("\nsin equ: ")
                     print(u.eqntosolve)
                     print("\nsin(): coefficients are : ")
-                    print(d1[Awx] )
+                    print(d1[Awx] if d1 is not None else None)
                     print('---')
                 for ec in cos_eqn:  
                     ectst = (ec.RHS - ec.LHS).collect(terms)  # get all the cos(th)s collected
@@ -133,7 +133,7 @@ class tan_id(b3.Action):    # action leaf for ID eqns solved by atan2()
                         print("\ncos equ: ")
                         print(u.secondeqn)
                         print("\ncos(): coefficients")
-                        print(d2[Cwx]          )
+                        print(d2[Cwx] if d2 is not None else None)
                     
                     # A failed match is NOT an error -- it means this particular
                     # (sin eqn, cos eqn) pair is not of the form this leaf
@@ -201,12 +201,12 @@ class tan_id(b3.Action):    # action leaf for ID eqns solved by atan2()
                         e1tmp = u.eqntosolve.RHS + u.eqntosolve.LHS 
                         e2tmp = u.secondeqn.RHS + u.secondeqn.LHS
                         print('                       ', u.eqntosolve, '  (', count_unknowns(unknowns, e1tmp), 'unks)')
-                        for u in get_unknowns(unknowns, e1tmp):
-                            print(u.symbol, )
+                        for unk in get_unknowns(unknowns, e1tmp):
+                            print(unk.symbol, )
                         print('')
                         print('                       ', u.secondeqn, '  (', count_unknowns(unknowns, e2tmp), 'unks)')
-                        for u in get_unknowns(unknowns, e1tmp):
-                            print(u.symbol, )
+                        for unk in get_unknowns(unknowns, e1tmp):
+                            print(unk.symbol, )
                         print('')
                         print('')
                     if found:
-- 
2.43.0


From 80802b8c556f10b260bc3a5b806e22f7da8109ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:17 +0000
Subject: [PATCH 29/32] fix: updateL: left side of an auxiliary equation was a
 plain int

---
 ikbtleaves/updateL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ikbtleaves/updateL.py b/ikbtleaves/updateL.py
index a02fd51..4573311 100644
--- a/ikbtleaves/updateL.py
+++ b/ikbtleaves/updateL.py
@@ -45,7 +45,7 @@ class updateL(b3.Action):    # Set up (update) the equation lists
         # aux equation (e.g. th_45 = th_4+th+5
         for e in R.kequation_aux_list:
             sp.var('x')
-            e1 = kequation(0, e.LHS-e.RHS)  # simplified form
+            e1 = kequation(sp.S.Zero, e.LHS-e.RHS)  # simplified form
             cu = count_unknowns(variables, e1.RHS)
             if cu == 1:
                 L1.append(e1)
-- 
2.43.0


From c6a6eb178229c610b2993a65b89c6470a2d80003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:50 +0000
Subject: [PATCH 30/32] fix: sincos_solve raised instead of declining when the
 unknown remains in the argument

---
 ikbtleaves/sincos_solver.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ikbtleaves/sincos_solver.py b/ikbtleaves/sincos_solver.py
index ae03ab1..60980c9 100644
--- a/ikbtleaves/sincos_solver.py
+++ b/ikbtleaves/sincos_solver.py
@@ -217,8 +217,9 @@ class sincos_solve(b3.Action):    # Solve asincos equation pairs
                 # a solution that still contains its own unknown is not a
                 # solution; this guard is the analogue of the one commented
                 # out in sinANDcos_solver.
-                assert(not targument.has(u.symbol)), \
-                    'sincos_solve (arcsin): solution contains itself: ' + str(targument)
+                if targument.has(u.symbol):
+                    print('sincos_solve (arcsin): solution contains itself: ', targument, ' -- declining')
+                    return b3.FAILURE
                 sol1 = sp.asin( targument  )
                 sol2 = sp.pi - sp.asin( targument  )  
                 u.argument = targument
@@ -248,8 +249,9 @@ class sincos_solve(b3.Action):    # Solve asincos equation pairs
                         B = 0
                             
                     targument = (lhs-B)/A
-                    assert(not targument.has(u.symbol)), \
-                        'sincos_solve (arccos): solution contains itself: ' + str(targument)
+                    if targument.has(u.symbol):
+                        print('sincos_solve (arccos): solution contains itself: ', targument, ' -- declining')
+                        return b3.FAILURE
                     sol1 =   sp.acos( targument  )
                     sol2 = - sp.acos( targument  )  
                     u.argument = targument
-- 
2.43.0


From 6db6058720b023fd92c4b45f6634165ae7790b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:45 +0000
Subject: [PATCH 31/32] fix: sums of equally many angles were replaced in a
 random order (another solution in each run)

---
 ikbtbasics/ik_classes.py | 3 ++-
 ikbtleaves/sum_id.py     | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index 86c2d63..3c1d92b 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -446,7 +446,8 @@ def sum_of_angles_sub(R, expr, variables):
             return 0
         return -sum(1 for v in d.values() if v != 0)
 
-    matches = sorted(matches, key=_soa_nargs)
+    # (equally long sums: in a fixed order, so that each run finds the same solution)
+    matches = sorted(matches, key=lambda m: (_soa_nargs(m), sp.default_sort_key(m)))
 
     for m in matches: # analyze each match
         d  = m.match(sp.cos(aw + bw + cw))
diff --git a/ikbtleaves/sum_id.py b/ikbtleaves/sum_id.py
index dbbdc81..a12d4f7 100644
--- a/ikbtleaves/sum_id.py
+++ b/ikbtleaves/sum_id.py
@@ -77,8 +77,9 @@ class sum_id(b3.Action):   ##  we should change this name since its a transform
                         
                         #print 'sum_of_angles_ID: ', expr 
                     
-                        sub_sin = expr.find(sp.sin(thx + sgn * thy)) #returns a subset of expressions with the query pattern, this finds sin(thx) too
-                        sub_cos = expr.find(sp.cos(thx + sgn * thy))
+                        # (in a fixed order, so that each run finds the same solution)
+                        sub_sin = sorted(expr.find(sp.sin(thx + sgn * thy)), key=sp.default_sort_key) # expressions with the query pattern, this finds sin(thx) too
+                        sub_cos = sorted(expr.find(sp.cos(thx + sgn * thy)), key=sp.default_sort_key)
                             
                         found = False
                         while len(sub_sin) > 0 and not found:
-- 
2.43.0


From ba0e2b343d654479f153db3960a1f32002149b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:33 +0000
Subject: [PATCH 32/32] fix: generated Python IK code imports atan

sympy writes atan2() of two positive numbers (a solution which is a pure
number) as atan(), which the generated function could not call.
---
 ikbtfunctions/output_python.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ikbtfunctions/output_python.py b/ikbtfunctions/output_python.py
index 551ea8d..68d4965 100644
--- a/ikbtfunctions/output_python.py
+++ b/ikbtfunctions/output_python.py
@@ -170,6 +170,7 @@ def output_python_code(Robot, groups):
 import numpy as np
 from math import sqrt
 from math import atan2
+from math import atan
 from math import cos
 from math import sin
 from math import acos
-- 
2.43.0

