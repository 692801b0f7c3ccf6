From 5d9b4404f3945dfc3f250fdaca17ae80fb7b4d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:07 +0000
Subject: [PATCH 01/81] fix: replace np.in1d, removed from numpy 2, by np.isin
 in assembly and beam results

---
 hyperstatic/core/fe_model/assembly.py |  6 +++---
 hyperstatic/core/fe_post/beam.py      | 14 +++++++-------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/hyperstatic/core/fe_model/assembly.py b/hyperstatic/core/fe_model/assembly.py
index 8638abe..050d8df 100644
--- a/hyperstatic/core/fe_model/assembly.py
+++ b/hyperstatic/core/fe_model/assembly.py
@@ -277,8 +277,8 @@ class Assembly(object):
         return A
  
     def __drop_matrix_dof(self,M:spr.coo_matrix, indices:list)->spr.coo_matrix:
-        keepr = ~np.in1d(M.row, indices)
-        keepc = ~np.in1d(M.col, indices)
+        keepr = ~np.isin(M.row, indices)
+        keepc = ~np.isin(M.col, indices)
         keep=keepr*keepc
         data, row, col = M.data[keep], M.row[keep], M.col[keep] 
         for i in reversed(sorted(indices)):
@@ -288,7 +288,7 @@ class Assembly(object):
         return A
 
     def __drop_vector_dof(self,V:spr.coo_matrix, indices:list)->np.array:
-        keep = ~np.in1d(np.arange(V.shape[0]), indices)
+        keep = ~np.isin(np.arange(V.shape[0]), indices)
         return V[keep].copy()
 
     def restraintDOF(self,casename:str=None):
diff --git a/hyperstatic/core/fe_post/beam.py b/hyperstatic/core/fe_post/beam.py
index b013d35..66e3400 100644
--- a/hyperstatic/core/fe_post/beam.py
+++ b/hyperstatic/core/fe_post/beam.py
@@ -45,15 +45,15 @@ class BeamResultResolver(ResultResolver):
             mask.extend(list(range(i*6,i*6+6)))
         N=self.__assembly.get_beam_interpolate(name,loc)
         N_=self.__assembly.get_beam_interpolate1(name,loc)
-        dd=d[np.in1d(range(len(d)),mask)]
+        dd=d[np.isin(range(len(d)),mask)]
         T=self.__assembly.get_beam_transform_matrix(name)
         dd=T.dot(dd)
-        axial=dd[np.in1d(range(12),[0,6])]
-        shear2bend3=dd[np.in1d(range(12),[1,5,7,11])]
-        shear3bend2=dd[np.in1d(range(12),[2,4,8,10])]
-        bend3=dd[np.in1d(range(12),[5,11])]
-        bend2=dd[np.in1d(range(12),[4,10])]
-        torsion=dd[np.in1d(range(12),[3,9])]
+        axial=dd[np.isin(range(12),[0,6])]
+        shear2bend3=dd[np.isin(range(12),[1,5,7,11])]
+        shear3bend2=dd[np.isin(range(12),[2,4,8,10])]
+        bend3=dd[np.isin(range(12),[5,11])]
+        bend2=dd[np.isin(range(12),[4,10])]
+        torsion=dd[np.isin(range(12),[3,9])]
         x=np.dot(N[:2],axial)
         w2=np.dot(N[2:6],shear2bend3)
         w3=np.dot(N[6:10],shear3bend2)
-- 
2.43.0


From 60d6098af8727b2f641116d2dd38e8a29fd2f29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:21 +0000
Subject: [PATCH 02/81] fix: Api.add_beam_section_pipe created a rectangle of d
 by t

---
 hyperstatic/core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index cf76be3..dfc36af 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -336,7 +336,7 @@ class Api(object):
             bool: 成功操作返回True，反之为False
         """
         try:
-            self.__model.add_beam_section_rectangle(name,material,d,t)
+            self.__model.add_beam_section_pipe(name,material,d,t)
             return True
         except Exception as e:
             logging.warning(str(e)+" when adding pipe beam section")
-- 
2.43.0


From 9012707d1a508ea59f96d3e12d23a242067241c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:21 +0000
Subject: [PATCH 03/81] fix: Api.add_shell passed the section where
 Model.add_shell takes the last node

---
 hyperstatic/core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index dfc36af..856cbc9 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -475,7 +475,7 @@ class Api(object):
             bool: 成功操作返回True，反之为False
         """
         try:
-            self.__model.add_shell(name,node1,node2,node3,node4,section)
+            self.__model.add_shell(name,section,node1,node2,node3,node4)
             return True
         except Exception as e:
             logging.warning(str(e)+" when adding beam")
-- 
2.43.0


From f650fac61281926435b7518c37b0614aa993ab51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:21 +0000
Subject: [PATCH 04/81] fix: Model.set_beam_releases used a missing attribute
 and always raised

---
 hyperstatic/core/fe_model/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/model.py b/hyperstatic/core/fe_model/model.py
index 99d8dc1..43f29b4 100644
--- a/hyperstatic/core/fe_model/model.py
+++ b/hyperstatic/core/fe_model/model.py
@@ -193,7 +193,7 @@ class Model:
     def set_beam_releases(self,name:str,
         u1i=False,u2i=False,u3i=False,r1i=False,r2i=False,r3i=False,
         u1j=False,u2j=False,u3j=False,r1j=False,r2j=False,r3j=False):
-        self.beams[name].releases=np.array([u1i,u2i,u3i,r1i,r2i,r3i,u1j,u2j,u3j,r1j,r2j,r3j])
+        self.__beams[name].releases=np.array([u1i,u2i,u3i,r1i,r2i,r3i,u1j,u2j,u3j,r1j,r2j,r3j])
 
     def get_beam_reaction(self,name:str,
         u1i:float,u2i:float,u3i:float,r1i:float,r2i:float,r3i:float,
-- 
2.43.0


From a93e7545a4a5fa2727aceeae8ca84db8cd2b95b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:21 +0000
Subject: [PATCH 05/81] fix: static condensation of a beam with several
 releases kept only the last one

---
 .../core/fe_model/element/line/beam.py        | 21 ++++++++++---------
 .../core/fe_model/element/line/simple_beam.py | 21 ++++++++++---------
 2 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/line/beam.py b/hyperstatic/core/fe_model/element/line/beam.py
index 40fff47..ff3557a 100644
--- a/hyperstatic/core/fe_model/element/line/beam.py
+++ b/hyperstatic/core/fe_model/element/line/beam.py
@@ -197,18 +197,19 @@ class Beam(Line):
         return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])*(1/self.length) #dxi/dx
 
     def static_condensate(self,Ke):
-        k=Ke
-        k_ = Ke.copy()
+        k_ = Ke.tocsr()
+        tol=1e-10*abs(k_.diagonal())
         for n in np.arange(12):
-            if self.__releases[n] == True:
-                k_ = k - k[:,n]* k[n,:] / k[n, n]
+            if self.__releases[n] == True and abs(k_[n,n])>tol[n]:
+                k_ = k_ - k_[:,n]* k_[n,:] / k_[n, n]
         return k_
 
     def static_condensate_f(self,re,Ke):
-        k=Ke
-        r=re
-        r_ = re.copy()
+        k_ = Ke.tocsr()
+        tol=1e-10*abs(k_.diagonal())
+        r_ = re.reshape(12).copy()
         for n in np.arange(12):
-            if self.__releases[n] == True:
-                r_ = r - r[n] * k[n, :].toarray() / k[n, n]
-        return r_.reshape(12)
\ No newline at end of file
+            if self.__releases[n] == True and abs(k_[n,n])>tol[n]:
+                r_ = r_ - r_[n] * k_[n, :].toarray().reshape(12) / k_[n, n]
+                k_ = k_ - k_[:,n]* k_[n,:] / k_[n, n]
+        return r_
\ No newline at end of file
diff --git a/hyperstatic/core/fe_model/element/line/simple_beam.py b/hyperstatic/core/fe_model/element/line/simple_beam.py
index 24a581d..54f0aac 100644
--- a/hyperstatic/core/fe_model/element/line/simple_beam.py
+++ b/hyperstatic/core/fe_model/element/line/simple_beam.py
@@ -216,21 +216,22 @@ class SimpleBeam(Line):
         return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])*(1/self.length) #dxi/dx
 
     def static_condensate(self,Ke):
-        k=Ke
-        k_ = Ke.copy()
+        k_ = Ke.tocsr()
+        tol=1e-10*abs(k_.diagonal())
         for n in np.arange(12):
-            if self.__releases[n] == True:
-                k_ = k - k[:,n]* k[n,:] / k[n, n]
+            if self.__releases[n] == True and abs(k_[n,n])>tol[n]:
+                k_ = k_ - k_[:,n]* k_[n,:] / k_[n, n]
         return k_
 
     def static_condensate_f(self,re,Ke):
-        k=Ke
-        r=re
-        r_ = re.copy()
+        k_ = Ke.tocsr()
+        tol=1e-10*abs(k_.diagonal())
+        r_ = re.reshape(12).copy()
         for n in np.arange(12):
-            if self.__releases[n] == True:
-                r_ = r - r[n] * k[n, :].toarray() / k[n, n]
-        return r_.reshape(12)
+            if self.__releases[n] == True and abs(k_[n,n])>tol[n]:
+                r_ = r_ - r_[n] * k_[n, :].toarray().reshape(12) / k_[n, n]
+                k_ = k_ - k_[:,n]* k_[n,:] / k_[n, n]
+        return r_
 
 #code here should be revised
     def resolve_element_force(self,Ke,Me,re,ue):
-- 
2.43.0


From c6d4940a28480adfc3faeec85ca707d23a337af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:32 +0000
Subject: [PATCH 06/81] fix: a triangle with downward normal could not be
 created

---
 hyperstatic/core/fe_model/element/tria/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/element/tria/__init__.py b/hyperstatic/core/fe_model/element/tria/__init__.py
index 253d275..c6455de 100644
--- a/hyperstatic/core/fe_model/element/tria/__init__.py
+++ b/hyperstatic/core/fe_model/element/tria/__init__.py
@@ -16,7 +16,7 @@ class Tria(Element):
         n=np.cross(vec1,vec2)
         n=n/np.linalg.norm(n)
         tol=Tolerance.abs_tol()
-        if np.linalg.norm(n-np.array([0,0,1]))<tol:
+        if np.linalg.norm(n-np.array([0,0,1]))<tol or np.linalg.norm(n+np.array([0,0,1]))<tol:
             csys = Cartesian.create_by_normal(o, n, guide=[0,1,0])
         else:
             csys = Cartesian.create_by_normal(o, n)
-- 
2.43.0


From 469da6bf3fed9868202ff78b9065933329370e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:32 +0000
Subject: [PATCH 07/81] fix: area of triangles and quads was wrong unless they
 lay in a plane of constant z

---
 .../core/fe_model/element/quad/__init__.py       | 16 ++--------------
 .../core/fe_model/element/tria/__init__.py       |  2 +-
 2 files changed, 3 insertions(+), 15 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/quad/__init__.py b/hyperstatic/core/fe_model/element/quad/__init__.py
index 4b9b781..fcd5fad 100644
--- a/hyperstatic/core/fe_model/element/quad/__init__.py
+++ b/hyperstatic/core/fe_model/element/quad/__init__.py
@@ -18,20 +18,8 @@ class Quad(Element):
         else:
             csys = Cartesian.create_by_normal(o, n)
         super(Quad,self).__init__(name,[node_i,node_j,node_k,node_l],2,dof,csys)
-        #area is considered as the average of trangles generated by splitting the quand with diagonals
-        area=0.5*np.linalg.det(np.array([[1,1,1],
-                            [node_j.x-node_i.x,node_j.y-node_i.y,node_j.z-node_i.z],
-                            [node_k.x-node_i.x,node_k.y-node_i.y,node_k.z-node_i.z]]))
-        area+=0.5*np.linalg.det(np.array([[1,1,1],
-                            [node_l.x-node_i.x,node_l.y-node_i.y,node_l.z-node_i.z],
-                            [node_k.x-node_i.x,node_k.y-node_i.y,node_k.z-node_i.z]]))
-        area+=0.5*np.linalg.det(np.array([[1,1,1],
-                            [node_l.x-node_i.x,node_l.y-node_i.y,node_l.z-node_i.z],
-                            [node_j.x-node_i.x,node_j.y-node_i.y,node_j.z-node_i.z]]))
-        area+=0.5*np.linalg.det(np.array([[1,1,1],
-                            [node_l.x-node_i.x,node_l.y-node_i.y,node_l.z-node_i.z],
-                            [node_j.x-node_i.x,node_j.y-node_i.y,node_j.z-node_i.z]]))
-        self.__area=area/4
+        #area spanned by the diagonals
+        self.__area=0.5*np.linalg.norm(np.cross(node_k.loc-node_i.loc,node_l.loc-node_j.loc))
 
     @property
     def area(self):
diff --git a/hyperstatic/core/fe_model/element/tria/__init__.py b/hyperstatic/core/fe_model/element/tria/__init__.py
index c6455de..731b96c 100644
--- a/hyperstatic/core/fe_model/element/tria/__init__.py
+++ b/hyperstatic/core/fe_model/element/tria/__init__.py
@@ -21,7 +21,7 @@ class Tria(Element):
         else:
             csys = Cartesian.create_by_normal(o, n)
         super(Tria,self).__init__(name,[node_i,node_j,node_k],2,dof,csys)
-        self.__area=0.5*np.linalg.det(np.array([[1,1,1],
+        self.__area=0.5*np.linalg.det(np.array([n,
                                     [node_j.x-node_i.x,node_j.y-node_i.y,node_j.z-node_i.z],
                                     [node_k.x-node_i.x,node_k.y-node_i.y,node_k.z-node_i.z]]))
 
-- 
2.43.0


From 318b417cdbba8c69a8beeb4b41409a1ad5382f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:32 +0000
Subject: [PATCH 08/81] fix: adding a node or element again under its name gave
 it an id out of range

---
 hyperstatic/core/fe_model/model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperstatic/core/fe_model/model.py b/hyperstatic/core/fe_model/model.py
index 43f29b4..ae236d1 100644
--- a/hyperstatic/core/fe_model/model.py
+++ b/hyperstatic/core/fe_model/model.py
@@ -77,7 +77,7 @@ class Model:
         else:
             res=[]
         if res==[]:
-            res=len(self.__nodes) #hid
+            res=self.__hid['node'].get(name,len(self.__nodes)) #hid
             self.__hid['node'][name]=res
             self.__nodes[name]=node
         else:
@@ -153,7 +153,7 @@ class Model:
         else:
             res=[]
         if res==[]:
-            res=len(self.__beams)
+            res=self.__hid["beam"].get(name,len(self.__beams))
             self.__hid["beam"][name]=res
             self.__beams[name]=beam
         else:
@@ -172,7 +172,7 @@ class Model:
         else:
             res=[]
         if res==[]:
-            res=len(self.__beams)
+            res=self.__hid["beam"].get(name,len(self.__beams))
             self.__hid["beam"][name]=res
             self.__beams[name]=beam
         else:
@@ -298,7 +298,7 @@ class Model:
             elm=DKGQ(name,shell_sec,node0, node1, node2, node3)
         else:
             elm=DKT(name,shell_sec,node0, node1, node2)
-        res=len(self.__shells)
+        res=self.__hid["shell"].get(name,len(self.__shells))
         self.__hid["shell"][name]=res
         self.__shells[name]=elm
         return res
-- 
2.43.0


From fa559056e008a5cb5eb4582f8ca3bf27e39040f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:32 +0000
Subject: [PATCH 09/81] fix: shell connection and location queries failed for
 triangles and for locations

---
 hyperstatic/core/fe_model/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/model.py b/hyperstatic/core/fe_model/model.py
index ae236d1..aac1d40 100644
--- a/hyperstatic/core/fe_model/model.py
+++ b/hyperstatic/core/fe_model/model.py
@@ -307,10 +307,10 @@ class Model:
         return list(self.__shells.keys())
 
     def get_shell_connection(self,name:str):
-        return self.__shells[name].nodes[0].name,self.__shells[name].nodes[1].name,self.__shells[name].nodes[2].name,self.__shells[name].nodes[3].name
+        return tuple(node.name for node in self.__shells[name].nodes)
 
     def get_shell_location(self,name:str):
-        return tuple(self.__shells[name].nodes[0]),tuple(self.__shells[name].nodes[1]),tuple(self.__shells[name].nodes[2]),tuple(self.__shells[name].nodes[3])
+        return tuple(tuple(node.loc) for node in self.__shells[name].nodes)
 
     def get_shell_hid(self,name:str):
         return self.__hid['shell'][name]
-- 
2.43.0


From 6a4f9402163502c5bcfb9ed545c7c6fe7c8d9555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:32 +0000
Subject: [PATCH 10/81] fix: Api.set_nodal_restraint reported success for an
 unknown node

---
 hyperstatic/core/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index 856cbc9..83e326a 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -557,8 +557,7 @@ class Api(object):
             bool: 成功操作返回True，反之为False
         """
         try:
-            self.__model.set_nodal_restraint(node,u1,u2,u3,r1,r2,r3)
-            return True
+            return self.__model.set_nodal_restraint(node,u1,u2,u3,r1,r2,r3)
         except Exception as e:
             logging.warning(str(e)+" when setting nodal restraints")
             return False
-- 
2.43.0


From 054308dbc657c7a7edcc9290b6a2d55f866f7432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:32 +0000
Subject: [PATCH 11/81] fix: Api.solve_modal passed the number of modes to a
 solver that did not take it

---
 hyperstatic/core/fe_solver/dynamic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_solver/dynamic.py b/hyperstatic/core/fe_solver/dynamic.py
index 229d6d8..b0dc2e6 100644
--- a/hyperstatic/core/fe_solver/dynamic.py
+++ b/hyperstatic/core/fe_solver/dynamic.py
@@ -33,11 +33,11 @@ class ModalSolver(Solver):
         elif setting["algorithm"]=='ritz':
             pass
 
-    def solve_eigen(self,casename:str)->bool:
+    def solve_eigen(self,casename:str,n_modes:int=None)->bool:
         assembly=super().assembly
         logging.info('solving problem with %d DOFs...'%assembly.DOF)
         setting=assembly.get_loadcase_setting(casename)
-        k=setting['n_modes']
+        k=setting['n_modes'] if n_modes is None else n_modes
         precase=setting['base_case']
         if precase==None:
             base_case="0"
-- 
2.43.0


From de4c6178bb511a1a2021d142c0aa718286eb65f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:38 +0000
Subject: [PATCH 12/81] fix: modal frequencies were resolved from omega squared

---
 hyperstatic/core/fe_post/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_post/structure.py b/hyperstatic/core/fe_post/structure.py
index 8391bab..763284b 100644
--- a/hyperstatic/core/fe_post/structure.py
+++ b/hyperstatic/core/fe_post/structure.py
@@ -14,7 +14,7 @@ class StructureResultResolver(ResultResolver):
 
     def resolve_modal_frequency(self,casename:str)->dict:
         path=self.__workpath
-        omega=np.load(os.path.join(path,casename+".o.npy"))
+        omega=np.sqrt(np.load(os.path.join(path,casename+".o.npy"))) #squares are stored
         T=2*np.pi/omega
         f=1/T
         return {
-- 
2.43.0


From 4858225eda1dcab2913a854f739a5083bfaf6f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:38 +0000
Subject: [PATCH 13/81] fix: mode shapes hold the free DOFs only but were read
 as if they held all of them

---
 hyperstatic/core/fe_post/__init__.py | 13 +++++++++++++
 hyperstatic/core/fe_post/beam.py     |  3 +--
 hyperstatic/core/fe_post/node.py     |  3 +--
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/hyperstatic/core/fe_post/__init__.py b/hyperstatic/core/fe_post/__init__.py
index 724c1be..f5770ab 100644
--- a/hyperstatic/core/fe_post/__init__.py
+++ b/hyperstatic/core/fe_post/__init__.py
@@ -16,6 +16,19 @@ class ResultResolver(object):
     def workpath(self):
         return self.__workpath
 
+    def load_displacement(self,casename:str,step:int=1)->np.array:
+        """displacement of all the DOFs, mode shapes are stored without the restrained ones"""
+        d=np.load(os.path.join(self.__workpath,casename+".d.npy"))[step-1,:] # row-first
+        n=self.__assembly.node_count*6
+        if d.size<n:
+            fixed=self.__assembly.restraintDOF(casename)
+            if len(fixed)==0:
+                fixed=self.__assembly.restraintDOF()
+            full=np.zeros(n)
+            full[np.setdiff1d(np.arange(n),fixed)]=d
+            d=full
+        return d
+
     @property
     def assembly(self):
         return self.__assembly
\ No newline at end of file
diff --git a/hyperstatic/core/fe_post/beam.py b/hyperstatic/core/fe_post/beam.py
index 66e3400..53c333f 100644
--- a/hyperstatic/core/fe_post/beam.py
+++ b/hyperstatic/core/fe_post/beam.py
@@ -37,8 +37,7 @@ class BeamResultResolver(ResultResolver):
         Returns:
             np.array: [x,w2,w3,theta]
         """
-        path=self.__workpath
-        d=np.load(os.path.join(path,casename+".d.npy"))[step-1,:] # row-first
+        d=self.load_displacement(casename,step)
         hids=self.__assembly.get_beam_node_hids(name)
         mask=[]
         for i in hids:
diff --git a/hyperstatic/core/fe_post/node.py b/hyperstatic/core/fe_post/node.py
index d2c0eb5..8c22541 100644
--- a/hyperstatic/core/fe_post/node.py
+++ b/hyperstatic/core/fe_post/node.py
@@ -21,8 +21,7 @@ class NodeResultResolver(ResultResolver):
         Returns:
             np.array: 
         """
-        path=self.__workpath
-        d=np.load(os.path.join(path,casename+".d.npy"))[step-1,:] # row-first
+        d=self.load_displacement(casename,step)
         hid=self.__assembly.get_node_hid(name)
         return d[hid*6:hid*6+6]
 
-- 
2.43.0


From 37576b211acc1cbe43d255fe8b235da143abe315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:38 +0000
Subject: [PATCH 14/81] fix: deformation of a beam running from a later to an
 earlier node swapped its ends

---
 hyperstatic/core/fe_post/beam.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hyperstatic/core/fe_post/beam.py b/hyperstatic/core/fe_post/beam.py
index 53c333f..35abdd8 100644
--- a/hyperstatic/core/fe_post/beam.py
+++ b/hyperstatic/core/fe_post/beam.py
@@ -44,7 +44,7 @@ class BeamResultResolver(ResultResolver):
             mask.extend(list(range(i*6,i*6+6)))
         N=self.__assembly.get_beam_interpolate(name,loc)
         N_=self.__assembly.get_beam_interpolate1(name,loc)
-        dd=d[np.isin(range(len(d)),mask)]
+        dd=d[mask]
         T=self.__assembly.get_beam_transform_matrix(name)
         dd=T.dot(dd)
         axial=dd[np.isin(range(12),[0,6])]
@@ -59,8 +59,6 @@ class BeamResultResolver(ResultResolver):
         theta=np.dot(N[10:],torsion)
         phi2=np.dot(N_[2:6],shear2bend3)
         phi3=np.dot(N_[6:10],shear3bend2)
-        print(N_[2:6])   
-        print(shear2bend3[2:])     
         return np.array([x,w2,w3,theta,phi2,phi3])
          
 if __name__=="__main__":
-- 
2.43.0


From 99a653258b62606f295dd384e0e03a5b30cd0e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:38 +0000
Subject: [PATCH 15/81] fix: beam interpolation mixed [0,1] with [-1,1] for
 axial and torsion and negated direction 3

---
 .../core/fe_model/element/line/beam.py        | 30 +++++++++----------
 .../core/fe_model/element/line/simple_beam.py | 30 +++++++++----------
 hyperstatic/core/fe_post/beam.py              |  2 +-
 3 files changed, 31 insertions(+), 31 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/line/beam.py b/hyperstatic/core/fe_model/element/line/beam.py
index ff3557a..e16a865 100644
--- a/hyperstatic/core/fe_model/element/line/beam.py
+++ b/hyperstatic/core/fe_model/element/line/beam.py
@@ -162,39 +162,39 @@ class Beam(Line):
         pass
 
     def get_shape_function(self):
-        Na1=lambda xi: 0.5*(1-xi)
-        Na2=lambda xi: 0.5*(1+xi)
+        Na1=lambda xi: 1-xi
+        Na2=lambda xi: xi
         Nb1=lambda xi: 1-3*xi**2+2*xi**3
         Nb2=lambda xi: (xi-2*xi**2+xi**3)*self.length
         Nb3=lambda xi: 3*xi**2-2*xi**3
         Nb4=lambda xi: (xi**3-xi**2)*self.length
-        Nt1=lambda xi: 0.5*(1-xi)
-        Nt2=lambda xi: 0.5*(1+xi)
-        return [Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2]
+        Nt1=lambda xi: 1-xi
+        Nt2=lambda xi: xi
+        return [Na1,Na2,Nb1,Nb2,Nb3,Nb4,Nb1,lambda xi:-Nb2(xi),Nb3,lambda xi:-Nb4(xi),Nt1,Nt2]
 
     def interpolate(self,loc):
         xi=loc
-        Na1=0.5*(1-xi)
-        Na2=0.5*(1+xi)
+        Na1=1-xi
+        Na2=xi
         Nb1=1-3*xi**2+2*xi**3
         Nb2=(xi-2*xi**2+xi**3)*self.length
         Nb3=3*xi**2-2*xi**3
         Nb4=(xi**3-xi**2)*self.length
-        Nt1=0.5*(1-xi)
-        Nt2=0.5*(1+xi)
-        return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])
+        Nt1=1-xi
+        Nt2=xi
+        return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,Nb1,-Nb2,Nb3,-Nb4,Nt1,Nt2])
 
     def interpolate1(self,loc):
         xi=loc
-        Na1=-0.5
-        Na2=0.5
+        Na1=-1
+        Na2=1
         Nb1=-6*xi+6*xi**2
         Nb2=(1-4*xi+3*xi**2)*self.length
         Nb3=6*xi-6*xi**2
         Nb4=(3*xi**2-2*xi)*self.length
-        Nt1=-0.5*xi
-        Nt2=0.5*xi
-        return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])*(1/self.length) #dxi/dx
+        Nt1=-1
+        Nt2=1
+        return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,Nb1,-Nb2,Nb3,-Nb4,Nt1,Nt2])*(1/self.length) #dxi/dx
 
     def static_condensate(self,Ke):
         k_ = Ke.tocsr()
diff --git a/hyperstatic/core/fe_model/element/line/simple_beam.py b/hyperstatic/core/fe_model/element/line/simple_beam.py
index 54f0aac..2400890 100644
--- a/hyperstatic/core/fe_model/element/line/simple_beam.py
+++ b/hyperstatic/core/fe_model/element/line/simple_beam.py
@@ -180,40 +180,40 @@ class SimpleBeam(Line):
         return _Me
 
     def get_shape_function(self):
-        Na1=lambda xi: 0.5*(1-xi)
-        Na2=lambda xi: 0.5*(1+xi)
+        Na1=lambda xi: 1-xi
+        Na2=lambda xi: xi
         Nb1=lambda xi: 1-3*xi**2+2*xi**3
         Nb2=lambda xi: (xi-2*xi**2+xi**3)*self.length
         Nb3=lambda xi: 3*xi**2-2*xi**3
         Nb4=lambda xi: (xi**3-xi**2)*self.length
-        Nt1=lambda xi: 0.5*(1-xi)
-        Nt2=lambda xi: 0.5*(1+xi)
-        return [Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2]
+        Nt1=lambda xi: 1-xi
+        Nt2=lambda xi: xi
+        return [Na1,Na2,Nb1,Nb2,Nb3,Nb4,Nb1,lambda xi:-Nb2(xi),Nb3,lambda xi:-Nb4(xi),Nt1,Nt2]
 
     
     def interpolate(self,loc):
         xi=loc
-        Na1=0.5*(1-xi)
-        Na2=0.5*(1+xi)
+        Na1=1-xi
+        Na2=xi
         Nb1=1-3*xi**2+2*xi**3
         Nb2=(xi-2*xi**2+xi**3)*self.length
         Nb3=3*xi**2-2*xi**3
         Nb4=(xi**3-xi**2)*self.length
-        Nt1=0.5*(1-xi)
-        Nt2=0.5*(1+xi)
-        return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])
+        Nt1=1-xi
+        Nt2=xi
+        return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,Nb1,-Nb2,Nb3,-Nb4,Nt1,Nt2])
 
     def interpolate1(self,loc):
         xi=loc
-        Na1=-0.5
-        Na2=0.5
+        Na1=-1
+        Na2=1
         Nb1=-6*xi+6*xi**2
         Nb2=(1-4*xi+3*xi**2)*self.length
         Nb3=6*xi-6*xi**2
         Nb4=(3*xi**2-2*xi)*self.length
-        Nt1=-0.5*xi
-        Nt2=0.5*xi
-        return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,-Nb1,Nb2,-Nb3,Nb4,Nt1,Nt2])*(1/self.length) #dxi/dx
+        Nt1=-1
+        Nt2=1
+        return np.array([Na1,Na2,Nb1,Nb2,Nb3,Nb4,Nb1,-Nb2,Nb3,-Nb4,Nt1,Nt2])*(1/self.length) #dxi/dx
 
     def static_condensate(self,Ke):
         k_ = Ke.tocsr()
diff --git a/hyperstatic/core/fe_post/beam.py b/hyperstatic/core/fe_post/beam.py
index 35abdd8..0b6c819 100644
--- a/hyperstatic/core/fe_post/beam.py
+++ b/hyperstatic/core/fe_post/beam.py
@@ -58,7 +58,7 @@ class BeamResultResolver(ResultResolver):
         w3=np.dot(N[6:10],shear3bend2)
         theta=np.dot(N[10:],torsion)
         phi2=np.dot(N_[2:6],shear2bend3)
-        phi3=np.dot(N_[6:10],shear3bend2)
+        phi3=-np.dot(N_[6:10],shear3bend2) #rotation about axis 2
         return np.array([x,w2,w3,theta,phi2,phi3])
          
 if __name__=="__main__":
-- 
2.43.0


From 6437e556267ec83d53219bdae977a2328e7ca870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:38 +0000
Subject: [PATCH 16/81] fix: nodal reactions read a stiffness file no solver
 writes and left out the applied loads

---
 hyperstatic/core/__init__.py     | 2 +-
 hyperstatic/core/fe_post/node.py | 7 +++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index 83e326a..a4d88d3 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -854,7 +854,7 @@ class Api(object):
         """
         try:
             workpath=self.__workpath
-            resolver=NodeResultResolver(workpath)
+            resolver=NodeResultResolver(workpath,self.__filename)
             res=resolver.resolve_nodal_reaction(node,case,step=1)
             return res
         except Exception as e:
diff --git a/hyperstatic/core/fe_post/node.py b/hyperstatic/core/fe_post/node.py
index 8c22541..d53fd19 100644
--- a/hyperstatic/core/fe_post/node.py
+++ b/hyperstatic/core/fe_post/node.py
@@ -36,9 +36,8 @@ class NodeResultResolver(ResultResolver):
         Returns:
             np.array: 
         """
-        path=self.__workpath
-        d=np.load(os.path.join(path,casename+".d.npy"))[step-1,:] # row-first
-        k=np.load(os.path.join(path,casename+".k.npy"))
-        f=np.dot(k,d)
+        d=self.load_displacement(casename,step)
+        k=self.__assembly.assemble_K().tocsr()
+        f=k.dot(d)-self.__assembly.assemble_f(casename).toarray().reshape(d.size)
         hid=self.__assembly.get_node_hid(name)
         return f[hid*6:hid*6+6]
-- 
2.43.0


From ca9497a88052cb5bfb2cac1ce25c542cd012cedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:38 +0000
Subject: [PATCH 17/81] fix: beam end forces used missing attributes and always
 raised

---
 hyperstatic/core/fe_model/assembly.py |  9 ++++++++-
 hyperstatic/core/fe_post/beam.py      | 12 ++++++------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/hyperstatic/core/fe_model/assembly.py b/hyperstatic/core/fe_model/assembly.py
index 050d8df..dc3287a 100644
--- a/hyperstatic/core/fe_model/assembly.py
+++ b/hyperstatic/core/fe_model/assembly.py
@@ -37,7 +37,7 @@ class Assembly(object):
         return self.__model.get_node_hid(node)
 
     def get_node_transform_matrix(self,node:str):
-        return self.__model.get_node_hid(node)
+        return self.__model.get_node_transform_matrix(node)
 
     def get_beam_hid(self,elm:str):
         return self.__model.get_beam_hid(elm)
@@ -51,6 +51,13 @@ class Assembly(object):
     def get_beam_K(self,elm:str):
         return self.__model.get_beam_K(elm)
 
+    def get_beam_condensated_K(self,elm:str):
+        return self.__model.get_beam_K(elm,condensate=True)
+
+    def get_beam_condensated_f(self,elm:str,casename:str):
+        l=self.__model.get_beam_length(elm)
+        return self.__model.get_beam_condensated_f(elm,self.__loadcase[casename].get_beam_f(elm,l))
+
     def get_beam_shape_function(self,elm:str):
         return self.__model.get_beam_shape_function(elm)
 
diff --git a/hyperstatic/core/fe_post/beam.py b/hyperstatic/core/fe_post/beam.py
index 0b6c819..cae3a02 100644
--- a/hyperstatic/core/fe_post/beam.py
+++ b/hyperstatic/core/fe_post/beam.py
@@ -17,13 +17,13 @@ class BeamResultResolver(ResultResolver):
         return super().workpath
 
     def resolve_beam_end_force(self,name,casename:str,step:int=1):
-        path=self.__path
-        d=np.load(os.path.join(path,casename+".d.npy"))[step-1,:] # row-first
-        K=self.__assembly.get_beam_K(name)
+        d=self.load_displacement(casename,step)
+        K=self.__assembly.get_beam_condensated_K(name)
+        re=self.__assembly.get_beam_condensated_f(name,casename)
+        T=self.__assembly.get_beam_transform_matrix(name)
         hids=self.__assembly.get_beam_node_hids(name)
-        dd=[d[i] for i in hids]
-        res = K*dd
-        return res
+        dd=np.hstack([d[i*6:i*6+6] for i in hids])
+        return K.dot(T.dot(dd))-re
 
     def resolve_beam_deformation(self,name:str,loc:float,casename:str,step:int=1)->np.array:
         """Resolve beam deformation
-- 
2.43.0


From 4b6a0ba418945e46b014bb51780dca8531a8c254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:42 +0000
Subject: [PATCH 18/81] fix: load case dictionaries dropped the first pattern
 that loads a node

---
 hyperstatic/core/fe_model/load/__init__.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/hyperstatic/core/fe_model/load/__init__.py b/hyperstatic/core/fe_model/load/__init__.py
index 0e26354..287fe55 100644
--- a/hyperstatic/core/fe_model/load/__init__.py
+++ b/hyperstatic/core/fe_model/load/__init__.py
@@ -93,10 +93,9 @@ class LoadCase(object):
         for patname,pat in self.__pattern.items():
             d=pat.get_nodal_f_dict()
             for node,load in d.items():
-                if node in res.keys():
-                    res[node]+=load*self.__load_factor[patname]
-                else:
+                if node not in res.keys():
                     res[node]=np.zeros(6)
+                res[node]+=load*self.__load_factor[patname]
         return res
 
     def get_nodal_f_time_history_dict(self,name):
@@ -123,10 +122,9 @@ class LoadCase(object):
         for patname,pat in self.__pattern.items():
             d=pat.get_nodal_d_dict()
             for node,load in d.items():
-                if node in res.keys():
-                    res[node]+=load*self.__load_factor[patname]
-                else:
+                if node not in res.keys():
                     res[node]=np.zeros(6)
+                res[node]+=load*self.__load_factor[patname]
         return res
 
 
-- 
2.43.0


From d93cd0f274d07d825297c7bb96c32444fd99b237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:42 +0000
Subject: [PATCH 19/81] fix: LoadPattern.get_beam_concentrated returned the
 distributed load

---
 hyperstatic/core/fe_model/load/pattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/load/pattern.py b/hyperstatic/core/fe_model/load/pattern.py
index 9569eae..50fbfd8 100644
--- a/hyperstatic/core/fe_model/load/pattern.py
+++ b/hyperstatic/core/fe_model/load/pattern.py
@@ -49,8 +49,8 @@ class LoadPattern(object):
         return None
 
     def get_beam_concentrated(self,name):
-        if name in self.__beam_distributed.keys():
-            return self.__beam_distributed[name]
+        if name in self.__beam_concentrated.keys():
+            return self.__beam_concentrated[name]
         return None
 
     def get_beam_f(self,name,l):
-- 
2.43.0


From e2eba5fac70464b6ecb371fd007a431e4b20f03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:43 +0000
Subject: [PATCH 20/81] fix: Lame's first parameter lacked the Poisson ratio

---
 hyperstatic/core/fe_model/material/isotropy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/material/isotropy.py b/hyperstatic/core/fe_model/material/isotropy.py
index 59fe84b..693ef34 100644
--- a/hyperstatic/core/fe_model/material/isotropy.py
+++ b/hyperstatic/core/fe_model/material/isotropy.py
@@ -40,7 +40,7 @@ class IsotropicMaterial(Material):
     def lamda(self):
         E=self.__E
         mu=self.__mu
-        return E/(1+mu)/(1-2*mu)
+        return E*mu/(1+mu)/(1-2*mu)
 
     def C(self,exx,eyy,ezz,gxy,gyz,gzx)->np.array:
         return np.array([[exx, gxy/2, gzx/2], 
-- 
2.43.0


From f39efeddd93b01d18772f7a2abf4cde6900d9af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:43 +0000
Subject: [PATCH 21/81] fix: I22 of an I-section counted the web inside the
 flanges twice

---
 hyperstatic/core/fe_model/section/beam_section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/section/beam_section.py b/hyperstatic/core/fe_model/section/beam_section.py
index ec092dc..a9f9aee 100644
--- a/hyperstatic/core/fe_model/section/beam_section.py
+++ b/hyperstatic/core/fe_model/section/beam_section.py
@@ -146,7 +146,7 @@ class ISection(BeamSection):
         s=sum([np.tanh(m*3.141592*tw/2/(h-2*tf))/m**5 for m in range(1,30,2)])#腹板取薄膜比拟前30阶
         beta=1/3-64*(h-2*tf)/(3.141592**5*tw)*s        
         J+=tw*(h-2*tf)**3*beta
-        I22=1/12*tf*b**3*2+1/12*h*tw**3
+        I22=1/12*tf*b**3*2+1/12*(h-2*tf)*tw**3
         I33=(b*h**3-(b-tw)*(h-2*tf)**3)/12
         W22=I22/(b/2)
         W33=I33/(h/2)
-- 
2.43.0


From 734a321f5234e4baeebfdfbd2bc85a61adc45fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:43 +0000
Subject: [PATCH 22/81] fix: radii of gyration were redefined with a missing
 attribute

---
 hyperstatic/core/fe_model/section/beam_section.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/hyperstatic/core/fe_model/section/beam_section.py b/hyperstatic/core/fe_model/section/beam_section.py
index a9f9aee..cc26483 100644
--- a/hyperstatic/core/fe_model/section/beam_section.py
+++ b/hyperstatic/core/fe_model/section/beam_section.py
@@ -94,14 +94,6 @@ class BeamSection(object):
     def W33(self):
         return self.__W33
 
-    @property
-    def i22(self):
-        return (self.__I/self.__A)**0.5
-
-    @property
-    def i33(self):
-        return (self.__I/self.__A)**0.5
-
 class BoxSection(BeamSection):
     def __init__(self, name: str, material: IsotropicMaterial, h,b,tw,tf):
         A=h*b-(h-2*tf)*(b-2*tw)
-- 
2.43.0


From 3e1b0f046b7053aab0bbbe80a1484ffb45623377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:43 +0000
Subject: [PATCH 23/81] fix: Cartesian.set_by_3pts left the axes unchanged

---
 hyperstatic/common/csys.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hyperstatic/common/csys.py b/hyperstatic/common/csys.py
index cdecd87..e5534a8 100644
--- a/hyperstatic/common/csys.py
+++ b/hyperstatic/common/csys.py
@@ -134,16 +134,17 @@ class Cartesian(object):
             Exception: _description_
         """
         tol=1e-8
-        self.__O=O    
         OA = np.array(A)-np.array(O)
         OB = np.array(B)-np.array(O)
         cos = np.dot(OA, OB)/np.linalg.norm(OA)/np.linalg.norm(OB)
         if  np.abs(np.abs(cos)-1.)<tol:
             raise Exception("Three points should not in a line!!")        
-        self.__x = OA/np.linalg.norm(OA)
+        x = OA/np.linalg.norm(OA)
         z = np.cross(OA, OB)
-        self.__z = z/np.linalg.norm(z)
-        self.__y = np.cross(self.z, self.x)
+        z = z/np.linalg.norm(z)
+        y = np.cross(z, x)
+        self.__O=np.array(O)
+        self.__T=np.array([x,y,z])
     
     @origin.setter
     def origin(self,x:float, y:float, z:float):
-- 
2.43.0


From ed9adf648f671bb72029a7c9974d40d392ef5d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:43 +0000
Subject: [PATCH 24/81] fix: the origin of a Cartesian could not be assigned

---
 hyperstatic/common/csys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/common/csys.py b/hyperstatic/common/csys.py
index e5534a8..f5e105a 100644
--- a/hyperstatic/common/csys.py
+++ b/hyperstatic/common/csys.py
@@ -147,8 +147,8 @@ class Cartesian(object):
         self.__T=np.array([x,y,z])
     
     @origin.setter
-    def origin(self,x:float, y:float, z:float):
-        self.__O = (x,y,z)
+    def origin(self,O:tuple):
+        self.__O = np.array(O)
     
     def align_with_global(self):
         """对齐绝对坐标系
-- 
2.43.0


From 6966ef66165b88aa0b3686cd6b3fd62187c34b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:43 +0000
Subject: [PATCH 25/81] fix: sampled curves could have n+1 points by rounding

---
 hyperstatic/common/curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/common/curve.py b/hyperstatic/common/curve.py
index fe1abb2..623abda 100644
--- a/hyperstatic/common/curve.py
+++ b/hyperstatic/common/curve.py
@@ -25,12 +25,12 @@ class Curve(object):
 
     @staticmethod
     def sin(name:str,A:float,w:float,phi:float,dt:float,n:int):
-        x=np.arange(0,n*dt,dt)
+        x=np.arange(n)*dt
         y=A*np.sin(w*x+phi)
         return Curve(name,x,y)
 
     @staticmethod
     def cos(name:str,A:float,w:float,phi:float,dt:float,n:int):
-        x=np.arange(0,n*dt,dt)
+        x=np.arange(n)*dt
         y=A*np.cos(w*x+phi)
         return Curve(name,x,y)
\ No newline at end of file
-- 
2.43.0


From 81dedf790d304b5c22322b619001cec036fcda80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:43 +0000
Subject: [PATCH 26/81] fix: the consistent mass matrix of beams was not
 symmetric

---
 hyperstatic/core/fe_model/element/line/beam.py        | 2 +-
 hyperstatic/core/fe_model/element/line/simple_beam.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/line/beam.py b/hyperstatic/core/fe_model/element/line/beam.py
index e16a865..88e59cb 100644
--- a/hyperstatic/core/fe_model/element/line/beam.py
+++ b/hyperstatic/core/fe_model/element/line/beam.py
@@ -112,7 +112,7 @@ class Beam(Line):
         if consistent:#consistent mass matrix
             _Me=np.zeros((12,12))
             _Me[0, 0]=140
-            _Me[0, 6]=70
+            _Me[0, 6]=_Me[6, 0]=70
     
             _Me[1, 1]=156
             _Me[1, 5]=_Me[5, 1]=22 * l
diff --git a/hyperstatic/core/fe_model/element/line/simple_beam.py b/hyperstatic/core/fe_model/element/line/simple_beam.py
index 2400890..875d763 100644
--- a/hyperstatic/core/fe_model/element/line/simple_beam.py
+++ b/hyperstatic/core/fe_model/element/line/simple_beam.py
@@ -133,7 +133,7 @@ class SimpleBeam(Line):
         if consistent:#Coordinated mass matrix
             _Me=np.zeros((12,12))
             _Me[0, 0]=140
-            _Me[0, 6]=70
+            _Me[0, 6]=_Me[6, 0]=70
     
             _Me[1, 1]=156
             _Me[1, 5]=_Me[5, 1]=22 * l
-- 
2.43.0


From 2314dc386b24b8c8c2c9fa1008633d67fe523d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:43 +0000
Subject: [PATCH 27/81] fix: setting the rotation of a beam again added to the
 previous rotation

---
 hyperstatic/core/fe_model/element/line/beam.py        | 2 +-
 hyperstatic/core/fe_model/element/line/simple_beam.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/element/line/beam.py b/hyperstatic/core/fe_model/element/line/beam.py
index 88e59cb..f1198f5 100644
--- a/hyperstatic/core/fe_model/element/line/beam.py
+++ b/hyperstatic/core/fe_model/element/line/beam.py
@@ -32,8 +32,8 @@ class Beam(Line):
 
     @rotation.setter
     def rotation(self,radian:float):
+        super().local_csys.rotate_about_x(radian-self.__rotation)
         self.__rotation=radian
-        super().local_csys.rotate_about_x(radian)
 
     def integrate_K(self):
         E=self.__section.E
diff --git a/hyperstatic/core/fe_model/element/line/simple_beam.py b/hyperstatic/core/fe_model/element/line/simple_beam.py
index 875d763..c685a03 100644
--- a/hyperstatic/core/fe_model/element/line/simple_beam.py
+++ b/hyperstatic/core/fe_model/element/line/simple_beam.py
@@ -48,8 +48,8 @@ class SimpleBeam(Line):
 
     @rotation.setter
     def rotation(self,radian:float):
+        super().local_csys.rotate_about_x(radian-self.__rotation)
         self.__rotation=radian
-        super().local_csys.rotate_about_x(radian)
 
     def integrate_K(self):
         #Initialize local matrices
-- 
2.43.0


From 0fcaf11afdc13f1d2b9f183f299f8a331b2e11e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:43 +0000
Subject: [PATCH 28/81] fix: Model.set_beam_rotation did nothing

---
 hyperstatic/core/fe_model/model.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/model.py b/hyperstatic/core/fe_model/model.py
index aac1d40..d0fb87d 100644
--- a/hyperstatic/core/fe_model/model.py
+++ b/hyperstatic/core/fe_model/model.py
@@ -187,8 +187,7 @@ class Model:
             beam: hid of beam
             x,y,z coordinate of reference vector.
         """
-        beam=self.__beams[name]
-        pass
+        self.__beams[name].rotation=rotation
     
     def set_beam_releases(self,name:str,
         u1i=False,u2i=False,u3i=False,r1i=False,r2i=False,r3i=False,
-- 
2.43.0


From b57875531adb9d69d7a47095852a94b58fe54d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:03 +0000
Subject: [PATCH 29/81] fix: modes were capped by the supports of the model
 where the case has its own

---
 hyperstatic/core/fe_solver/dynamic.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyperstatic/core/fe_solver/dynamic.py b/hyperstatic/core/fe_solver/dynamic.py
index b0dc2e6..99ac53b 100644
--- a/hyperstatic/core/fe_solver/dynamic.py
+++ b/hyperstatic/core/fe_solver/dynamic.py
@@ -58,9 +58,10 @@ class ModalSolver(Solver):
         K_=assembly.assemble_boundary(casename,K)
         M_=assembly.assemble_boundary(casename,M)
 
-        if k>assembly.DOF:
-            logging.info('Warning: the modal number to extract is larger than the system DOFs, only %d modes are available'%assembly.DOF)
-            k=assembly.DOF
+        n_free=K_.shape[0] #by the supports of the case, not those of the model
+        if k>n_free:
+            logging.info('Warning: the modal number to extract is larger than the system DOFs, only %d modes are available'%n_free)
+            k=n_free
         omega2s,modes = sl.eigsh(K_,k,M_,sigma=0,which='LM')
         # omega2s,modes =linalg.eig(K_.todense()[6:,6:],M_.todense()[6:,6:])
         mode_= modes.T # row first
-- 
2.43.0


From b7f0260b73232cf2cb75add259ae8fdd2cee1364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:53 +0000
Subject: [PATCH 30/81] fix: StaticCase ignored the order it was created with

---
 hyperstatic/core/fe_model/load/loadcase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/load/loadcase.py b/hyperstatic/core/fe_model/load/loadcase.py
index 9b73d8f..05dfd33 100644
--- a/hyperstatic/core/fe_model/load/loadcase.py
+++ b/hyperstatic/core/fe_model/load/loadcase.py
@@ -7,7 +7,7 @@ from hyperstatic.core.fe_model.load import LoadCase
 class StaticCase(LoadCase):
     def __init__(self,name:str,order=1,base_case=None):
         super().__init__(name)
-        self.__order=1
+        self.__order=order
         self.__base_case=base_case
 
     @property
-- 
2.43.0


From f9eaa7a088717c86270ea7d0617beb0dcb378ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:57 +0000
Subject: [PATCH 31/81] fix: load curves of different lengths could not be
 combined in one case

---
 hyperstatic/core/fe_model/load/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/load/__init__.py b/hyperstatic/core/fe_model/load/__init__.py
index 287fe55..9b3c90c 100644
--- a/hyperstatic/core/fe_model/load/__init__.py
+++ b/hyperstatic/core/fe_model/load/__init__.py
@@ -67,7 +67,9 @@ class LoadCase(object):
             f=pat.get_nodal_f(name)
             if f is None:
                 continue
-            fn+=f*factor*self.__load_curve[patname][1,time_step]
+            curve=self.__load_curve[patname]
+            if time_step<curve.shape[1]: #no load beyond the end of the curve
+                fn+=f*factor*curve[1,time_step]
         return fn
 
     def get_nodal_f_time_history(self,name):
@@ -85,7 +87,7 @@ class LoadCase(object):
             if f is None:
                 continue
             crv=curve[1,:]
-            fn+=crv.reshape(crv.size,1).dot(f.reshape(1,6))*factor
+            fn[:crv.size]+=crv.reshape(crv.size,1).dot(f.reshape(1,6))*factor
         return fn
 
     def get_nodal_f_dict(self):
-- 
2.43.0


From 19107b95658de362157e005e4dc22e5bf4820180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:16 +0000
Subject: [PATCH 32/81] fix: the Duhamel integral decayed with the damped
 instead of the undamped frequency

---
 hyperstatic/app/seismic/wave2spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/app/seismic/wave2spec.py b/hyperstatic/app/seismic/wave2spec.py
index 428d6b5..573cea8 100644
--- a/hyperstatic/app/seismic/wave2spec.py
+++ b/hyperstatic/app/seismic/wave2spec.py
@@ -76,7 +76,7 @@ def duhamel(ω,ζ,t,p):
     """ 
     dt=(t[-1]-t[0])/(len(t)-1)
     ω_=ω*np.sqrt(1-ζ**2)
-    q=np.exp(-ζ*ω_*t)*np.sin(ω_*t)
+    q=np.exp(-ζ*ω*t)*np.sin(ω_*t)
     Sd=1/ω_*convolve(p,q)[:len(t)]*dt
     Sv=Sd*ω_
     Sa=Sv*ω_
-- 
2.43.0


From 3c0da5efd957a41b85161d050714d2c54f4c8b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:16 +0000
Subject: [PATCH 33/81] fix: peaks of waves and of their responses counted the
 positive side only

---
 hyperstatic/app/seismic/wave2spec.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hyperstatic/app/seismic/wave2spec.py b/hyperstatic/app/seismic/wave2spec.py
index 573cea8..941f03b 100644
--- a/hyperstatic/app/seismic/wave2spec.py
+++ b/hyperstatic/app/seismic/wave2spec.py
@@ -36,7 +36,7 @@ def read_wave(filename,startline=0):
     return list(ag)
 
 def amptitude(wave,a_max):
-    m=max(wave)
+    m=max(abs(i) for i in wave)
     return [i*a_max/m for i in wave]
 
 def wave2spectrum(file,dt,ξ,a_max,startline=1):
@@ -50,7 +50,7 @@ def wave2spectrum(file,dt,ξ,a_max,startline=1):
     """
     ag=read_wave(os.path.join(file),startline)
     ag=np.array(ag)
-    ag=0.01*ag*a_max/np.max(ag)
+    ag=0.01*ag*a_max/np.max(np.abs(ag))
     # ag=amptitude(ag,a_max)
     # ag=[0.01*i for i in ag]
     T=np.arange(dt,6.0+dt,dt)
@@ -62,9 +62,9 @@ def wave2spectrum(file,dt,ξ,a_max,startline=1):
     for _T in T:
         _ω=2*np.pi/_T
         Sa,Sv,Sd=duhamel(_ω,ξ,t,ag)
-        sa.append(max(Sa)/9.8)
-        sv.append(max(Sv))
-        sd.append(max(Sd))
+        sa.append(np.max(np.abs(Sa))/9.8)
+        sv.append(np.max(np.abs(Sv)))
+        sd.append(np.max(np.abs(Sd)))
     return T,sa,sv,sd
 
 def duhamel(ω,ζ,t,p):
@@ -94,7 +94,7 @@ def fft2spec(file,dt,ξ,a_max):
     """
     ag=read_wave(os.path.join(file))
     ag=np.array(ag)
-    ag=0.01*ag*a_max/np.max(ag) #cm/s2 -> m/s2
+    ag=0.01*ag*a_max/np.max(np.abs(ag)) #cm/s2 -> m/s2
     T=np.arange(dt,6.0+dt,dt)
     nex2pow=lambda x: int(round(2**np.ceil(np.log(x)/np.log(2.)))) #求采样点
     im=np.lib.scimath.sqrt(-1)
@@ -121,7 +121,7 @@ def fft2spec(file,dt,ξ,a_max):
         # H=1/((1-(ω/ωₙ)**2)+2*ξ*(ω/ωₙ)*im) #ωd?
         H=1/((1-(ω/ωd)**2)+2*ξ*(ω/ωd)*im)
         u=ifft(af*H,Nfft).real*Nfft
-        return np.max(u)/9.8
+        return np.max(np.abs(u))/9.8
     Sa=[max_response(t) for t in T]
     return T,Sa
 
-- 
2.43.0


From 02c0c1d590fdff85803a365d9251a4ca7c8671b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:40 +0000
Subject: [PATCH 34/81] fix: a loaded Api kept writing to the folder it was
 created in

---
 hyperstatic/core/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index a4d88d3..90bf9c1 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -68,6 +68,7 @@ class Api(object):
         try:
             with open(os.path.join(workpath,filename+'.sep'),'rb') as f:
                 api=pickle.load(f)
+            api.__workpath=workpath
             return api
         except Exception as e:
             logging.info("Error loading api file "+ os.path.join(workpath,filename) +'. Exception: '+str(e))
-- 
2.43.0


From fc30109aa8fdda9b33f9cfa9743d4db071475b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:22 +0000
Subject: [PATCH 35/81] fix: the stress tensor of an isotropic material could
 not be asked for

---
 hyperstatic/core/fe_model/material/isotropy.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/material/isotropy.py b/hyperstatic/core/fe_model/material/isotropy.py
index 693ef34..2d316b6 100644
--- a/hyperstatic/core/fe_model/material/isotropy.py
+++ b/hyperstatic/core/fe_model/material/isotropy.py
@@ -47,10 +47,9 @@ class IsotropicMaterial(Material):
         [gxy/2, eyy, gyz/2], 
         [gzx/2, gyz/2, ezz]])
 
-    @property
     def D(self,exx,eyy,ezz,gxy,gyz,gzx)->np.array:
         E=self.__E
-        nu=self.__m
+        nu=self.__mu
         return np.array([[E*eyy*nu/((1 - 2*nu)*(nu + 1)) + E*ezz*nu/((1 - 2*nu)*(nu + 1)) + exx*(E*nu/((1 - 2*nu)*(nu + 1)) + E/(nu + 1)), E*gxy/(2*(nu + 1)), E*gzx/(2*(nu + 1))], [E*gxy/(2*(nu + 1)), E*exx*nu/((1 - 2*nu)*(nu + 1)) + E*ezz*nu/((1 - 2*nu)*(nu + 1)) + eyy*(E*nu/((1 - 2*nu)*(nu + 1)) + E/(nu + 1)), E*gyz/(2*(nu + 1))], [E*gzx/(2*(nu + 1)), E*gyz/(2*(nu + 1)), E*exx*nu/((1 - 2*nu)*(nu + 1)) + E*eyy*nu/((1 - 2*nu)*(nu + 1)) + ezz*(E*nu/((1 - 2*nu)*(nu + 1)) + E/(nu + 1))]])
 
 
-- 
2.43.0


From 35de0d07b6b543e992601c76d6f35d6b7e214675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:35 +0000
Subject: [PATCH 36/81] fix: viewers joined the work path to the file name
 twice and could not open a relative path

---
 hyperstatic/app/viz/viz_core/__init__.py                    | 1 -
 hyperstatic/app/viz/viz_core/viz_core_model.py              | 1 -
 hyperstatic/app/viz/viz_core/viz_core_result_deformation.py | 1 -
 3 files changed, 3 deletions(-)

diff --git a/hyperstatic/app/viz/viz_core/__init__.py b/hyperstatic/app/viz/viz_core/__init__.py
index 9baa3ad..5efda57 100644
--- a/hyperstatic/app/viz/viz_core/__init__.py
+++ b/hyperstatic/app/viz/viz_core/__init__.py
@@ -22,7 +22,6 @@ import os
 class ViewerBase():
     def __init__(self,workpath,filename,qtWidget=None):
         self.workpath=workpath
-        filename=os.path.join(workpath,filename)
         self.api:Api=Api.load(workpath,filename)
         self.pts={}
         self.lines={}
diff --git a/hyperstatic/app/viz/viz_core/viz_core_model.py b/hyperstatic/app/viz/viz_core/viz_core_model.py
index 190dcc8..5976e69 100644
--- a/hyperstatic/app/viz/viz_core/viz_core_model.py
+++ b/hyperstatic/app/viz/viz_core/viz_core_model.py
@@ -23,7 +23,6 @@ import os
 class Viewer():
     def __init__(self,workpath,filename):
         self.__workpath=workpath
-        filename=os.path.join(workpath,filename)
         self.__api:Api=Api.load(workpath,filename)
         self.__pts={}
         self.__lines={}
diff --git a/hyperstatic/app/viz/viz_core/viz_core_result_deformation.py b/hyperstatic/app/viz/viz_core/viz_core_result_deformation.py
index 50dc18c..88c9d58 100644
--- a/hyperstatic/app/viz/viz_core/viz_core_result_deformation.py
+++ b/hyperstatic/app/viz/viz_core/viz_core_result_deformation.py
@@ -23,7 +23,6 @@ import os
 class Viewer():
     def __init__(self,workpath,filename):
         self.__workpath=workpath
-        filename=os.path.join(workpath,filename)
         self.__api:Api=Api.load(workpath,filename)
         self.__pts={}
         self.__lines={}
-- 
2.43.0


From b716667438a665dbc2a783e55763165496955e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:35 +0000
Subject: [PATCH 37/81] fix: viewers failed on triangular shells, the model
 viewer also without shells

---
 hyperstatic/app/viz/viz_core/__init__.py       | 5 ++---
 hyperstatic/app/viz/viz_core/viz_core_model.py | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/hyperstatic/app/viz/viz_core/__init__.py b/hyperstatic/app/viz/viz_core/__init__.py
index 5efda57..4d73d5f 100644
--- a/hyperstatic/app/viz/viz_core/__init__.py
+++ b/hyperstatic/app/viz/viz_core/__init__.py
@@ -132,10 +132,9 @@ class ViewerBase():
         if shells==[] or shells==None:
             return
         for s in shells:
-            n1,n2,n3,n4=api.get_shell_node_names(s)
-            verts=list(pts.values())
-            f=(pt_id_map[n1],pt_id_map[n2],pt_id_map[n3],pt_id_map[n4])
+            f=tuple(pt_id_map[n] for n in api.get_shell_node_names(s))
             self.faces[s]=f
+        verts=list(pts.values())
         self.vshells=Mesh([verts,list(self.faces.values())])
         self.vshells.color('lightsteelblue').backColor('slateblue').lineColor('tomato').lineWidth(1)
         self.actors["shells"]=self.vshells
diff --git a/hyperstatic/app/viz/viz_core/viz_core_model.py b/hyperstatic/app/viz/viz_core/viz_core_model.py
index 5976e69..29dade6 100644
--- a/hyperstatic/app/viz/viz_core/viz_core_model.py
+++ b/hyperstatic/app/viz/viz_core/viz_core_model.py
@@ -177,10 +177,9 @@ class Viewer():
         pts=self.__pts
         pt_id_map=self.__pt_id_map
         for s in api.get_shell_names():
-            n1,n2,n3,n4=api.get_shell_node_names(s)
-            verts=list(pts.values())
-            f=(pt_id_map[n1],pt_id_map[n2],pt_id_map[n3],pt_id_map[n4])
+            f=tuple(pt_id_map[n] for n in api.get_shell_node_names(s))
             self.__faces[s]=f
+        verts=list(pts.values())
         self.__vshells=Mesh([verts,list(self.__faces.values())])
         self.__vshells.color('b5').backColor('violet').lineColor('tomato').lineWidth(1)
         
-- 
2.43.0


From 0d33242ee62e0cf5305f9721024744f3a40806df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:35 +0000
Subject: [PATCH 38/81] fix: reset_view of the viewers called a method that
 does not exist

---
 hyperstatic/app/viz/viz_core/__init__.py       | 1 -
 hyperstatic/app/viz/viz_core/viz_core_model.py | 1 -
 2 files changed, 2 deletions(-)

diff --git a/hyperstatic/app/viz/viz_core/__init__.py b/hyperstatic/app/viz/viz_core/__init__.py
index 4d73d5f..ceeb895 100644
--- a/hyperstatic/app/viz/viz_core/__init__.py
+++ b/hyperstatic/app/viz/viz_core/__init__.py
@@ -161,7 +161,6 @@ class ViewerBase():
         cx,cy,cz=maxx/2+minx/2,maxy/2+miny/2,maxz/2+minz/2
         rx,ry,rz=maxx/2-minx/2,maxy/2-miny/2,maxz/2-minz/2
         r=max(rx,ry,rz)
-        self.calculate_size()
         self.plotter.show(
             *tuple(self.actors.values()),
             viewup="z", 
diff --git a/hyperstatic/app/viz/viz_core/viz_core_model.py b/hyperstatic/app/viz/viz_core/viz_core_model.py
index 29dade6..a1c82a2 100644
--- a/hyperstatic/app/viz/viz_core/viz_core_model.py
+++ b/hyperstatic/app/viz/viz_core/viz_core_model.py
@@ -193,7 +193,6 @@ class Viewer():
         cx,cy,cz=maxx/2+minx/2,maxy/2+miny/2,maxz/2+minz/2
         rx,ry,rz=maxx/2-minx/2,maxy/2-miny/2,maxz/2-minz/2
         r=max(rx,ry,rz)
-        self.__calculate_size()
         self.__plt.show(
             self.__vnodes, 
             self.__vbeams, 
-- 
2.43.0


From d4b64b6f96f6ac7dd3007f63515eba0340c93d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:35 +0000
Subject: [PATCH 39/81] fix: the result viewer kept the undeformed nodes next
 to the deformed ones

---
 hyperstatic/app/viz/viz_core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/app/viz/viz_core/__init__.py b/hyperstatic/app/viz/viz_core/__init__.py
index ceeb895..f645a0d 100644
--- a/hyperstatic/app/viz/viz_core/__init__.py
+++ b/hyperstatic/app/viz/viz_core/__init__.py
@@ -64,7 +64,7 @@ class ViewerBase():
             pts[n]=(x,y,z)
         self.vnodes = Points(list(pts.values()), r=8, c="blue5")
         self.vnodes.off()
-        self.actors["node"]=self.vnodes
+        self.actors["nodes"]=self.vnodes
 
     def init_restraints(self):
         api=self.api
-- 
2.43.0


From e4e8a13cea682342e1ab2af197c56a9ece47be97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:35 +0000
Subject: [PATCH 40/81] fix: resetting the deformation hid the nodes though the
 button said shown

---
 hyperstatic/app/viz/viz_core/result_deformation.py          | 2 +-
 hyperstatic/app/viz/viz_core/viz_core_result_deformation.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/app/viz/viz_core/result_deformation.py b/hyperstatic/app/viz/viz_core/result_deformation.py
index 39a8aac..cca73f7 100644
--- a/hyperstatic/app/viz/viz_core/result_deformation.py
+++ b/hyperstatic/app/viz/viz_core/result_deformation.py
@@ -115,7 +115,7 @@ class ResultViewer(ViewerBase):
         self.plotter.remove(self.vnodes)
         self.plotter.remove(self.vbeams)
         self.plotter.remove(self.vshells)
-        self.vnodes=Points(list(pts.values()), r=8, c="blue5").off()
+        self.vnodes=Points(list(pts.values()), r=8, c="blue5")
         self.vbeams=Lines(list(lines.values()))
         self.vshells=Mesh([list(pts.values()),list(self.faces.values())])
         self.vshells.color('b5').backColor('violet').lineColor('tomato').lineWidth(1)
diff --git a/hyperstatic/app/viz/viz_core/viz_core_result_deformation.py b/hyperstatic/app/viz/viz_core/viz_core_result_deformation.py
index 88c9d58..941bcb2 100644
--- a/hyperstatic/app/viz/viz_core/viz_core_result_deformation.py
+++ b/hyperstatic/app/viz/viz_core/viz_core_result_deformation.py
@@ -133,7 +133,7 @@ class Viewer():
     def __reset_deformation(self,pts,lines):
         self.__plt.remove(self.__vnodes)
         self.__plt.remove(self.__vbeams)
-        self.__vnodes=Points(list(pts.values()), r=8, c="blue5").off()
+        self.__vnodes=Points(list(pts.values()), r=8, c="blue5")
         self.__vbeams=Lines(list(lines.values()))
         if self.__btn_node.status()=="show nodes":
             self.__vnodes.off()
-- 
2.43.0


From 1078e433e2e27f43d9298c8bddbffdb02e82c46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:35 +0000
Subject: [PATCH 41/81] fix: the member button of the load viewer turned the
 shells on instead of the members

---
 hyperstatic/app/viz/viz_core/model_load.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/app/viz/viz_core/model_load.py b/hyperstatic/app/viz/viz_core/model_load.py
index 0bfd801..47ddfb6 100644
--- a/hyperstatic/app/viz/viz_core/model_load.py
+++ b/hyperstatic/app/viz/viz_core/model_load.py
@@ -66,7 +66,7 @@ class LoadViewer(ViewerBase):
         if self.__btn_beam.status()=="hide_beam":
             self.vbeams.off()
         else:
-            self.vshells.on()
+            self.vbeams.on()
         self.__btn_beam.switch() 
 
     def toggle_shell(self):
-- 
2.43.0


From 23b8b67eadf6741e941d11e38c4589cc4375df31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:35 +0000
Subject: [PATCH 42/81] fix: the shell button of the load viewer failed without
 shells

---
 hyperstatic/app/viz/viz_core/model_load.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hyperstatic/app/viz/viz_core/model_load.py b/hyperstatic/app/viz/viz_core/model_load.py
index 47ddfb6..60a6c29 100644
--- a/hyperstatic/app/viz/viz_core/model_load.py
+++ b/hyperstatic/app/viz/viz_core/model_load.py
@@ -70,10 +70,11 @@ class LoadViewer(ViewerBase):
         self.__btn_beam.switch() 
 
     def toggle_shell(self):
-        if self.__btn_shell.status()=="hide_shell":
-            self.vshells.off()
-        else:
-            self.vshells.on()
+        if not self.vshells==None:
+            if self.__btn_shell.status()=="hide_shell":
+                self.vshells.off()
+            else:
+                self.vshells.on()
         self.__btn_shell.switch()     
 
     def toggle_node_name(self):
-- 
2.43.0


From 518b1d83e905ebbf02f4267a5a9548afa730b6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:35 +0000
Subject: [PATCH 43/81] fix: viewers failed when pat1 holds no nodal load or no
 force

---
 hyperstatic/app/viz/viz_core/model_load.py    | 18 +++++++++------
 .../app/viz/viz_core/viz_core_model.py        | 22 ++++++++++++-------
 2 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/hyperstatic/app/viz/viz_core/model_load.py b/hyperstatic/app/viz/viz_core/model_load.py
index 60a6c29..8271bc9 100644
--- a/hyperstatic/app/viz/viz_core/model_load.py
+++ b/hyperstatic/app/viz/viz_core/model_load.py
@@ -13,6 +13,7 @@ from hyperstatic.app.viz.viz_core import ViewerBase
 class LoadViewer(ViewerBase):
     def __init__(self,workpath,filename):
         super(LoadViewer, self).__init__(workpath,filename)
+        self.__vnodeload=None
         self.init_nodal_load()
         self.setup_gui()
 
@@ -84,12 +85,13 @@ class LoadViewer(ViewerBase):
         self.reset()
 
     def toggle_nodal_load(self):
-        if self.__btn_nodal_load.status()=="hide_nodal_load":
-            self.__vnodeload.off()
-            self.__vnodeload.scalarbar.VisibilityOff()
-        else:
-            self.__vnodeload.on()
-            self.__vnodeload.scalarbar.VisibilityOn()
+        if not self.__vnodeload==None:
+            if self.__btn_nodal_load.status()=="hide_nodal_load":
+                self.__vnodeload.off()
+                self.__vnodeload.scalarbar.VisibilityOff()
+            else:
+                self.__vnodeload.on()
+                self.__vnodeload.scalarbar.VisibilityOn()
         self.__btn_nodal_load.switch() 
 
     def toggle_beam_name(self):
@@ -117,8 +119,10 @@ class LoadViewer(ViewerBase):
         f_value=[]
         m_value=[]
         load_dict=api.get_all_nodal_load("pat1")
+        if not load_dict:
+            return
         for n in api.get_node_names():
-            if n in api.get_all_nodal_load("pat1").keys():
+            if n in load_dict.keys():
                 x,y,z=api.get_node_location(n)
                 f1,f2,f3,m1,m2,m3=tuple(load_dict[n])
                 f=(f1**2+f2**2+f3**2)**0.5
diff --git a/hyperstatic/app/viz/viz_core/viz_core_model.py b/hyperstatic/app/viz/viz_core/viz_core_model.py
index a1c82a2..7ab12ca 100644
--- a/hyperstatic/app/viz/viz_core/viz_core_model.py
+++ b/hyperstatic/app/viz/viz_core/viz_core_model.py
@@ -82,12 +82,13 @@ class Viewer():
         self.reset()
 
     def toggle_nodal_load(self):
-        if self.__btn_nodal_load.status()=="hide_nodal_load":
-            self.__vnodeload.off()
-            self.__vnodeload.scalarbar.VisibilityOff()
-        else:
-            self.__vnodeload.on()
-            self.__vnodeload.scalarbar.VisibilityOn()
+        if not self.__vnodeload==None:
+            if self.__btn_nodal_load.status()=="hide_nodal_load":
+                self.__vnodeload.off()
+                self.__vnodeload.scalarbar.VisibilityOff()
+            else:
+                self.__vnodeload.on()
+                self.__vnodeload.scalarbar.VisibilityOn()
         self.__btn_nodal_load.switch() 
 
     def toggle_beam_name(self):
@@ -132,8 +133,10 @@ class Viewer():
         f_value=[]
         m_value=[]
         load_dict=api.get_all_nodal_load("pat1")
+        if not load_dict:
+            return
         for n in api.get_node_names():
-            if n in api.get_all_nodal_load("pat1").keys():
+            if n in load_dict.keys():
                 x,y,z=api.get_node_location(n)
                 f1,f2,f3,m1,m2,m3=tuple(load_dict[n])
                 f=(f1**2+f2**2+f3**2)**0.5
@@ -142,7 +145,10 @@ class Viewer():
                 f_scals.append(f)
                 loads.append([f1,f2,f3,m1,m2,m3])
                 arrow_ends.append((x,y,z))
-        scale=self.__scale/max(f_scals)*0.1
+        if max(f_scals)==0:
+            scale=1
+        else:
+            scale=self.__scale/max(f_scals)*0.1
         for e,l in zip(arrow_ends,loads):
             arrow_starts.append((e[0]-l[0]*scale,e[1]-l[1]*scale,e[2]-l[2]*scale))
 
-- 
2.43.0


From 9906f4b6d3052d10549142ec33a2a4a135104c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:04 +0000
Subject: [PATCH 44/81] fix: the project model could not be imported

---
 hyperstatic/app/general/model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperstatic/app/general/model.py b/hyperstatic/app/general/model.py
index 566c3e7..beb0a7c 100644
--- a/hyperstatic/app/general/model.py
+++ b/hyperstatic/app/general/model.py
@@ -16,21 +16,19 @@ ResultModalPeriod,ResultJointDisplacement,ResultJointReaction,ResultFrameForce,R
 
 from hyperstatic.core.fe_model.model import Model as FEModel
 
-from hyperstatic.core.fe_solver.static import solve_linear
-from hyperstatic.core.fe_solver.dynamic import solve_modal
 from hyperstatic.app.general.io import dxf
 from hyperstatic.app.general import db
 from hyperstatic.app.general.environment import project
 from hyperstatic.app.general.property import material
 from hyperstatic.app.general.property import frame_section
 from hyperstatic.app.general.property import area_section
-from Hyperstatic.hyperstatic.app.general.load import loadcase
+from hyperstatic.app.general.load import loadcase
 from hyperstatic.app.general.post import combination
 from hyperstatic.app.general.object import joint
 from hyperstatic.app.general.object import frame
 from hyperstatic.app.general.object import area
 from hyperstatic.app.general.environment import curve
-from hyperstatic.app.general import result
+from hyperstatic.app.general.result import result
 
 import logging
 
@@ -335,6 +333,8 @@ class Model():
         return:
             None.
         """
+        from hyperstatic.core.fe_solver.static import solve_linear
+        from hyperstatic.core.fe_solver.dynamic import solve_modal
         if not self.fe_model.is_assembled:
             logging.info('Mesh model...')
             self.mesh()
-- 
2.43.0


From ca769a72936e23bd966da4fb3f02dcf9ee06c205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:04 +0000
Subject: [PATCH 45/81] fix: the description of a project was not stored

---
 hyperstatic/app/general/orm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/app/general/orm.py b/hyperstatic/app/general/orm.py
index b2e7c2c..45ad65f 100644
--- a/hyperstatic/app/general/orm.py
+++ b/hyperstatic/app/general/orm.py
@@ -17,7 +17,7 @@ Base=declarative_base()
 class Config(Base):
     __tablename__='configs'
     project_name=Column('project_name',String(64),primary_key=True)
-    discription=Column('discription',Text)
+    description=Column('discription',Text)
     author=Column('author',String(64))
     program_version=('program_version',String(8))
     unit=Column('unit',String(10),default='N_m_C')
-- 
2.43.0


From d660e3310067631eecfadb5eba8dcee7ce1b650b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:04 +0000
Subject: [PATCH 46/81] fix: loads on joints were not stored

---
 hyperstatic/app/general/object/joint.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hyperstatic/app/general/object/joint.py b/hyperstatic/app/general/object/joint.py
index 5d19ead..a45c6b6 100644
--- a/hyperstatic/app/general/object/joint.py
+++ b/hyperstatic/app/general/object/joint.py
@@ -125,12 +125,12 @@ def set_joint_load(self,joint,loadcase,load):
         scale=self.scale()
         ld.joint_name=joint
         ld.loadcase_name=loadcase
-        ld.p1=load[0]*scale['F']
-        ld.p2=load[1]*scale['F']
-        ld.p3=load[2]*scale['F']
-        ld.m1=load[3]*scale['F']*scale['L']
-        ld.m2=load[4]*scale['F']*scale['L']
-        ld.m3=load[5]*scale['F']*scale['L']
+        ld.u1=load[0]*scale['F']
+        ld.u2=load[1]*scale['F']
+        ld.u3=load[2]*scale['F']
+        ld.r1=load[3]*scale['F']*scale['L']
+        ld.r2=load[4]*scale['F']*scale['L']
+        ld.r3=load[5]*scale['F']*scale['L']
         self.session.add(ld)
         return True
     except Exception as e:
-- 
2.43.0


From 86013ebaa878e9395592b060d85314a96d922d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:04 +0000
Subject: [PATCH 47/81] fix: joints were not found by their coordinates in
 other units than metres

---
 hyperstatic/app/general/object/joint.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperstatic/app/general/object/joint.py b/hyperstatic/app/general/object/joint.py
index a45c6b6..c789577 100644
--- a/hyperstatic/app/general/object/joint.py
+++ b/hyperstatic/app/general/object/joint.py
@@ -215,11 +215,11 @@ def get_joint_name_by_coor(self,x=None,y=None,z=None):
         pts=self.session.query(Joint)
         scale=self.scale()
         if x is not None:
-            pts=pts.filter(and_((Joint.x-x*scale['L'])<tol,(x-Joint.x*scale['L'])<tol))
+            pts=pts.filter(and_((Joint.x-x*scale['L'])<tol,(x*scale['L']-Joint.x)<tol))
         if y is not None:
-            pts=pts.filter(and_((Joint.y-y*scale['L'])<tol,(y-Joint.y*scale['L'])<tol))
+            pts=pts.filter(and_((Joint.y-y*scale['L'])<tol,(y*scale['L']-Joint.y)<tol))
         if z is not None:
-            pts=pts.filter(and_((Joint.z-z*scale['L'])<tol,(z-Joint.z*scale['L'])<tol))
+            pts=pts.filter(and_((Joint.z-z*scale['L'])<tol,(z*scale['L']-Joint.z)<tol))
         names=[pt.name for pt in pts.all()]
         return names
     except Exception as e:
-- 
2.43.0


From 39cf839cb0fb4bf7465db7b215b812f35ea37a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:04 +0000
Subject: [PATCH 48/81] fix: the second end of a frame was taken in metres
 whatever the unit

---
 hyperstatic/app/general/object/frame.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperstatic/app/general/object/frame.py b/hyperstatic/app/general/object/frame.py
index 7a49944..5275365 100644
--- a/hyperstatic/app/general/object/frame.py
+++ b/hyperstatic/app/general/object/frame.py
@@ -41,11 +41,11 @@ def add_frame(self,pt0_coor,pt1_coor,section,name=None):
         pt0_name=pt0.name
         
     pt1=self.session.query(Joint).filter(and_(
-                (Joint.x-pt1_coor[0])<tol,(pt1_coor[0]-Joint.x)<tol,
-                 (Joint.y-pt1_coor[1])<tol,(pt1_coor[1]-Joint.y)<tol,
-                  (Joint.z-pt1_coor[2])<tol,(pt1_coor[2]-Joint.z)<tol)).first()
+                (Joint.x-pt1_coor[0]*scale['L'])<tol,(pt1_coor[0]*scale['L']-Joint.x)<tol,
+                 (Joint.y-pt1_coor[1]*scale['L'])<tol,(pt1_coor[1]*scale['L']-Joint.y)<tol,
+                  (Joint.z-pt1_coor[2]*scale['L'])<tol,(pt1_coor[2]*scale['L']-Joint.z)<tol)).first()
     if pt1==None:
-        pt1_name=self.add_joint(pt1_coor[0],pt1_coor[1],pt1_coor[2])
+        pt1_name=self.add_joint(pt1_coor[0]*scale['L'],pt1_coor[1]*scale['L'],pt1_coor[2]*scale['L'])
     else:
         pt1_name=pt1.name
     
-- 
2.43.0


From b3f37a3fde17f449c6dc5a59023c599a70007b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:04 +0000
Subject: [PATCH 49/81] fix: frames were given back with their ends
 interchanged

---
 hyperstatic/app/general/object/frame.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/app/general/object/frame.py b/hyperstatic/app/general/object/frame.py
index 5275365..30fb321 100644
--- a/hyperstatic/app/general/object/frame.py
+++ b/hyperstatic/app/general/object/frame.py
@@ -308,6 +308,8 @@ def get_frame_end_names(self,frame):
         frm=self.session.query(Frame).filter_by(name=frame).first()
         if frm is None:
             raise Exception("Frame doesn't exists.")
+        if frm.order=='10':
+            return frm.pt1.name,frm.pt0.name
         return frm.pt0.name,frm.pt1.name
     except Exception as e:
         logging.info(str(e))
@@ -326,8 +328,7 @@ def get_frame_end_coors(self,frame):
         frm=self.session.query(Frame).filter_by(name=frame).first()
         if frm is None:
             raise Exception("Frame doesn't exists.")
-        pt0=frm.pt0
-        pt1=frm.pt1
+        pt0,pt1=(frm.pt1,frm.pt0) if frm.order=='10' else (frm.pt0,frm.pt1)
         return [pt0.x/scale['L'],pt0.y/scale['L'],pt0.z/scale['L'],pt1.x/scale['L'],pt1.y/scale['L'],pt1.z/scale['L']]
     except Exception as e:
         logging.info(str(e))
-- 
2.43.0


From 0634a846668526532cc0f2b259b90dcb154f7f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:04 +0000
Subject: [PATCH 50/81] fix: distributed loads on frames were converted as if
 they were forces and moments

---
 hyperstatic/app/general/object/frame.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/hyperstatic/app/general/object/frame.py b/hyperstatic/app/general/object/frame.py
index 30fb321..8e1244c 100644
--- a/hyperstatic/app/general/object/frame.py
+++ b/hyperstatic/app/general/object/frame.py
@@ -167,18 +167,18 @@ def set_frame_load_distributed(self,frame,loadcase,load):
         scale=self.scale()
         ld.frame_name=frame
         ld.loadcase_name=loadcase
-        ld.p01=load[0]*scale['F']
-        ld.p02=load[1]*scale['F']
-        ld.p03=load[2]*scale['F']
-        ld.m01=load[3]*scale['F']*scale['L']
-        ld.m02=load[4]*scale['F']*scale['L']
-        ld.m03=load[5]*scale['F']*scale['L']
-        ld.p11=load[6]*scale['F']
-        ld.p12=load[7]*scale['F']
-        ld.p13=load[8]*scale['F']
-        ld.m11=load[9]*scale['F']*scale['L']
-        ld.m12=load[10]*scale['F']*scale['L']
-        ld.m13=load[11]*scale['F']*scale['L']
+        ld.p01=load[0]*scale['F']/scale['L']
+        ld.p02=load[1]*scale['F']/scale['L']
+        ld.p03=load[2]*scale['F']/scale['L']
+        ld.m01=load[3]*scale['F']
+        ld.m02=load[4]*scale['F']
+        ld.m03=load[5]*scale['F']
+        ld.p11=load[6]*scale['F']/scale['L']
+        ld.p12=load[7]*scale['F']/scale['L']
+        ld.p13=load[8]*scale['F']/scale['L']
+        ld.m11=load[9]*scale['F']
+        ld.m12=load[10]*scale['F']
+        ld.m13=load[11]*scale['F']
         self.session.add(ld)
         return True
     except Exception as e:
-- 
2.43.0


From e6aad807b4b75c5edcbe9b82802ac6bc0baed918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:34 +0000
Subject: [PATCH 51/81] fix: nothing could be deleted from a project

---
 hyperstatic/app/general/load/loadcase.py      |  5 +-
 hyperstatic/app/general/load/pattern.py       |  5 +-
 hyperstatic/app/general/object/area.py        |  5 +-
 hyperstatic/app/general/object/frame.py       |  5 +-
 hyperstatic/app/general/object/joint.py       |  3 +-
 hyperstatic/app/general/orm.py                | 78 +++++++++----------
 .../app/general/property/area_section.py      |  5 +-
 .../app/general/property/frame_section.py     |  3 +-
 hyperstatic/app/general/property/material.py  |  1 +
 9 files changed, 59 insertions(+), 51 deletions(-)

diff --git a/hyperstatic/app/general/load/loadcase.py b/hyperstatic/app/general/load/loadcase.py
index 0359607..31f9704 100644
--- a/hyperstatic/app/general/load/loadcase.py
+++ b/hyperstatic/app/general/load/loadcase.py
@@ -108,11 +108,12 @@ def get_loadcase_names(self):
 
 def delete_loadcase(self,name):
     try:
-        lc=self.session.query(LoadCase).filter_by(name=name)
+        lc=self.session.query(LoadCase).filter_by(name=name).first()
         if lc is None:
             raise Exception("Loadcase section doen't exist!")
         self.session.delete(lc)
+        return True
     except Exception as e:
-        log.info(str(e))
+        logging.info(str(e))
         self.session.rollback()
         return False
\ No newline at end of file
diff --git a/hyperstatic/app/general/load/pattern.py b/hyperstatic/app/general/load/pattern.py
index 0359607..31f9704 100644
--- a/hyperstatic/app/general/load/pattern.py
+++ b/hyperstatic/app/general/load/pattern.py
@@ -108,11 +108,12 @@ def get_loadcase_names(self):
 
 def delete_loadcase(self,name):
     try:
-        lc=self.session.query(LoadCase).filter_by(name=name)
+        lc=self.session.query(LoadCase).filter_by(name=name).first()
         if lc is None:
             raise Exception("Loadcase section doen't exist!")
         self.session.delete(lc)
+        return True
     except Exception as e:
-        log.info(str(e))
+        logging.info(str(e))
         self.session.rollback()
         return False
\ No newline at end of file
diff --git a/hyperstatic/app/general/object/area.py b/hyperstatic/app/general/object/area.py
index d4e3992..119547f 100644
--- a/hyperstatic/app/general/object/area.py
+++ b/hyperstatic/app/general/object/area.py
@@ -184,11 +184,12 @@ def get_area_names(self):
     
 def delete_area(self,name):
     try:
-        area=self.session.query(Area).filter_by(name=name)
+        area=self.session.query(Area).filter_by(name=name).first()
         if area is None:
             raise Exception("Area section doen't exist!")
         self.session.delete(area)
+        return True
     except Exception as e:
-        log.info(str(e))
+        logging.info(str(e))
         self.session.rollback()
         return False
\ No newline at end of file
diff --git a/hyperstatic/app/general/object/frame.py b/hyperstatic/app/general/object/frame.py
index 8e1244c..f36b354 100644
--- a/hyperstatic/app/general/object/frame.py
+++ b/hyperstatic/app/general/object/frame.py
@@ -346,11 +346,12 @@ def get_frame_section_attribute(self,name):
 
 def delete_frame(self,name):
     try:
-        frm=self.session.query(Frame).filter_by(name=name)
+        frm=self.session.query(Frame).filter_by(name=name).first()
         if frm is None:
             raise Exception("Frame doen't exist!")
         self.session.delete(frm)
+        return True
     except Exception as e:
-        log.info(str(e))
+        logging.info(str(e))
         self.session.rollback()
         return False
\ No newline at end of file
diff --git a/hyperstatic/app/general/object/joint.py b/hyperstatic/app/general/object/joint.py
index c789577..bd9553a 100644
--- a/hyperstatic/app/general/object/joint.py
+++ b/hyperstatic/app/general/object/joint.py
@@ -328,10 +328,11 @@ def set_joint_name(self,name):
     
 def delete_joint(self,name):
     try:
-        pt=self.session.query(Joint).filter_by(name=name)
+        pt=self.session.query(Joint).filter_by(name=name).first()
         if pt is None:
             raise Exception("Joint doen't exist!")
         self.session.delete(pt)
+        return True
     except Exception as e:
         logging.info(str(e))
         self.session.rollback()
diff --git a/hyperstatic/app/general/orm.py b/hyperstatic/app/general/orm.py
index 45ad65f..db7108b 100644
--- a/hyperstatic/app/general/orm.py
+++ b/hyperstatic/app/general/orm.py
@@ -34,7 +34,7 @@ class Material(Base):
     #other types...
     uuid=Column('uuid',String(32),nullable=False)
     #1 to 1
-    isotropic_elastic=relationship('IsotropicElastic',
+    isotropic_elastic=relationship('IsotropicElastic',cascade='all',
                                    backref=backref('material',uselist=False),uselist=False) #1 to 1
     #1 to many
     frame_sections=relationship('FrameSection',backref='material')
@@ -98,30 +98,30 @@ class LoadCase(Base):
     uuid=Column('uuid',String(32),nullable=False)
     
     #1 to 1
-    static_linear_setting=relationship('LoadCaseStaticLinearSetting',backref=backref('loadcase',uselist=False),uselist=False)
-    loadcase_modal_setting=relationship('LoadCaseModalSetting',backref=backref('loadcase',uselist=False),uselist=False)
-    loadcase_2nd_setting=relationship('LoadCase2ndSetting',backref=backref('loadcase',uselist=False),uselist=False)
-    loadcase_3nd_setting=relationship('LoadCase3ndSetting',backref=backref('loadcase',uselist=False),uselist=False)
-    loadcase_response_spectrum_setting=relationship('LoadCaseResponseSpectrumSetting',backref=backref('loadcase',uselist=False),uselist=False)
-    loadcase_time_history_setting=relationship('LoadCaseTimeHistorySetting',backref=backref('loadcase',uselist=False),uselist=False)
+    static_linear_setting=relationship('LoadCaseStaticLinearSetting',cascade='all',backref=backref('loadcase',uselist=False),uselist=False)
+    loadcase_modal_setting=relationship('LoadCaseModalSetting',cascade='all',backref=backref('loadcase',uselist=False),uselist=False)
+    loadcase_2nd_setting=relationship('LoadCase2ndSetting',cascade='all',backref=backref('loadcase',uselist=False),uselist=False)
+    loadcase_3nd_setting=relationship('LoadCase3ndSetting',cascade='all',backref=backref('loadcase',uselist=False),uselist=False)
+    loadcase_response_spectrum_setting=relationship('LoadCaseResponseSpectrumSetting',cascade='all',backref=backref('loadcase',uselist=False),uselist=False)
+    loadcase_time_history_setting=relationship('LoadCaseTimeHistorySetting',cascade='all',backref=backref('loadcase',uselist=False),uselist=False)
 
     #1 to many    
-    joint_load=relationship('JointLoad',backref='loadcase')
-    joint_disp=relationship('JointDisp',backref='loadcase')
-    frame_load_distributed=relationship('FrameLoadDistributed',backref='loadcase')
-    frame_load_concentrated=relationship('FrameLoadConcentrated',backref='loadcase')
-    frame_load_strain=relationship('FrameLoadStrain',backref='loadcase')
-    frame_load_temperature=relationship('FrameLoadTemperature',backref='loadcase')
-    area_load_to_frame=relationship('AreaLoadToFrame',backref='loadcase')
-    area_load_distributed=relationship('AreaLoadDistributed',backref='loadcase')
-    area_load_strain=relationship('AreaLoadStrain',backref='loadcase')
-    area_load_temperature=relationship('AreaLoadTemperature',backref='loadcase')
-    
-    result_joint_displacement=relationship('ResultJointDisplacement',backref='loadcase')
-    result_joint_reaction=relationship('ResultJointReaction',backref='loadcase')
-    result_frame_force=relationship('ResultFrameForce',backref='loadcase')
-    result_area_stress=relationship('ResultAreaStress',backref='loadcase')
-    result_modal_displacement=relationship('ResultModalDisplacement',backref='loadcase')
+    joint_load=relationship('JointLoad',cascade='all',backref='loadcase')
+    joint_disp=relationship('JointDisp',cascade='all',backref='loadcase')
+    frame_load_distributed=relationship('FrameLoadDistributed',cascade='all',backref='loadcase')
+    frame_load_concentrated=relationship('FrameLoadConcentrated',cascade='all',backref='loadcase')
+    frame_load_strain=relationship('FrameLoadStrain',cascade='all',backref='loadcase')
+    frame_load_temperature=relationship('FrameLoadTemperature',cascade='all',backref='loadcase')
+    area_load_to_frame=relationship('AreaLoadToFrame',cascade='all',backref='loadcase')
+    area_load_distributed=relationship('AreaLoadDistributed',cascade='all',backref='loadcase')
+    area_load_strain=relationship('AreaLoadStrain',cascade='all',backref='loadcase')
+    area_load_temperature=relationship('AreaLoadTemperature',cascade='all',backref='loadcase')
+    
+    result_joint_displacement=relationship('ResultJointDisplacement',cascade='all',backref='loadcase')
+    result_joint_reaction=relationship('ResultJointReaction',cascade='all',backref='loadcase')
+    result_frame_force=relationship('ResultFrameForce',cascade='all',backref='loadcase')
+    result_area_stress=relationship('ResultAreaStress',cascade='all',backref='loadcase')
+    result_modal_displacement=relationship('ResultModalDisplacement',cascade='all',backref='loadcase')
     
 
 class LoadCaseStaticLinearSetting(Base):
@@ -175,7 +175,7 @@ class Combination(Base):
     uuid=Column('uuid',String(32),nullable=False)
     
     #1 to many
-    combination_cases=relationship('CombinationCase',backref='combination')
+    combination_cases=relationship('CombinationCase',cascade='all',backref='combination')
     
 class CombinationCase(Base):
     __tablename__='combination_cases'
@@ -192,10 +192,10 @@ class Joint(Base):
     uuid=Column('uuid',String(32),nullable=False)
     
     #1 to 1
-    joint_restraint=relationship('JointRestraint',backref=backref('joint',uselist=False))
-    joint_load=relationship('JointLoad',backref=backref('joint',uselist=False))
-    joint_disp=relationship('JointDisp',backref=backref('joint',uselist=False))
-    joint_mass=relationship('JointMass',backref=backref('joint',uselist=False))
+    joint_restraint=relationship('JointRestraint',cascade='all',backref=backref('joint',uselist=False))
+    joint_load=relationship('JointLoad',cascade='all',backref=backref('joint',uselist=False))
+    joint_disp=relationship('JointDisp',cascade='all',backref=backref('joint',uselist=False))
+    joint_mass=relationship('JointMass',cascade='all',backref=backref('joint',uselist=False))
     
     def __repr__(self):
         return '%s<%r>'%(self.__class__.__name__,self.name)
@@ -289,12 +289,12 @@ class Frame(Base):
     uuid=Column('uuid',String(32),nullable=False)
     
     #1 to 1
-    frame_axis=relationship('FrameAxis',backref=backref('frame',uselist=False))
-    frame_release=relationship('FrameRelease',backref=backref('frame',uselist=False))
-    frame_load_distributed=relationship('FrameLoadDistributed',backref=backref('frame',uselist=False))
-    frame_load_concentrated=relationship('FrameLoadConcentrated',backref=backref('frame',uselist=False))
-    frame_load_strain=relationship('FrameLoadStrain',backref=backref('frame',uselist=False))
-    frame_load_temperature=relationship('FrameLoadTemperature',backref=backref('frame',uselist=False))
+    frame_axis=relationship('FrameAxis',cascade='all',backref=backref('frame',uselist=False))
+    frame_release=relationship('FrameRelease',cascade='all',backref=backref('frame',uselist=False))
+    frame_load_distributed=relationship('FrameLoadDistributed',cascade='all',backref=backref('frame',uselist=False))
+    frame_load_concentrated=relationship('FrameLoadConcentrated',cascade='all',backref=backref('frame',uselist=False))
+    frame_load_strain=relationship('FrameLoadStrain',cascade='all',backref=backref('frame',uselist=False))
+    frame_load_temperature=relationship('FrameLoadTemperature',cascade='all',backref=backref('frame',uselist=False))
     
     def __repr__(self):
         return '%s<%r>'%(self.__class__.__name__,self.name)
@@ -380,11 +380,11 @@ class Area(Base):
     uuid=Column('uuid',String(32),nullable=False)   
     
     #1 to 1
-    area_axis=relationship('AreaAxis',backref=backref('area',uselist=False))
-    area_load_to_frame=relationship('AreaLoadToFrame',backref=backref('area',uselist=False))
-    area_load_distributed=relationship('AreaLoadDistributed',backref=backref('area',uselist=False))
-    area_load_strain=relationship('AreaLoadStrain',backref=backref('area',uselist=False))
-    area_load_temperature=relationship('AreaLoadTemperature',backref=backref('area',uselist=False))
+    area_axis=relationship('AreaAxis',cascade='all',backref=backref('area',uselist=False))
+    area_load_to_frame=relationship('AreaLoadToFrame',cascade='all',backref=backref('area',uselist=False))
+    area_load_distributed=relationship('AreaLoadDistributed',cascade='all',backref=backref('area',uselist=False))
+    area_load_strain=relationship('AreaLoadStrain',cascade='all',backref=backref('area',uselist=False))
+    area_load_temperature=relationship('AreaLoadTemperature',cascade='all',backref=backref('area',uselist=False))
     
 class AreaAxis(Base):
     __tablename__='area_axis'
diff --git a/hyperstatic/app/general/property/area_section.py b/hyperstatic/app/general/property/area_section.py
index 20ccf2b..6a02464 100644
--- a/hyperstatic/app/general/property/area_section.py
+++ b/hyperstatic/app/general/property/area_section.py
@@ -64,11 +64,12 @@ def get_area_section_names(self):
     
 def delete_area_section(self,name):
     try:
-        sec=self.session.query(AreaSection).filter_by(name=name)
+        sec=self.session.query(AreaSection).filter_by(name=name).first()
         if sec is None:
             raise Exception("Area section doen't exist!")
         self.session.delete(sec)
+        return True
     except Exception as e:
-        log.info(str(e))
+        logging.info(str(e))
         self.session.rollback()
         return False
\ No newline at end of file
diff --git a/hyperstatic/app/general/property/frame_section.py b/hyperstatic/app/general/property/frame_section.py
index 5cea443..f8afd70 100644
--- a/hyperstatic/app/general/property/frame_section.py
+++ b/hyperstatic/app/general/property/frame_section.py
@@ -292,10 +292,11 @@ def get_frame_section_names(self):
     
 def delete_frame_section(self,name):
     try:
-        sec=self.session.query(FrameSection).filter_by(name=name)
+        sec=self.session.query(FrameSection).filter_by(name=name).first()
         if sec is None:
             raise Exception("Frame section doen't exist!")
         self.session.delete(sec)
+        return True
     except Exception as e:
         logging.info(str(e))
         self.session.rollback()
diff --git a/hyperstatic/app/general/property/material.py b/hyperstatic/app/general/property/material.py
index 84c7fdc..2664e60 100644
--- a/hyperstatic/app/general/property/material.py
+++ b/hyperstatic/app/general/property/material.py
@@ -105,6 +105,7 @@ def delete_material(self,name):
         if material is None:
             raise Exception("Material name doen't exist!")
         self.session.delete(material)
+        return True
     except Exception as e:
         logging.info(str(e))
         self.session.rollback()
-- 
2.43.0


From 1f1e58c0838a2af03cdaaa6e61dfcbaf3c59c64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:34 +0000
Subject: [PATCH 52/81] fix: a project that is not there yet could not be
 opened

---
 hyperstatic/app/general/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/app/general/db.py b/hyperstatic/app/general/db.py
index f28ceff..9de388a 100644
--- a/hyperstatic/app/general/db.py
+++ b/hyperstatic/app/general/db.py
@@ -52,7 +52,7 @@ def open(self,database):
     """
     assert(database[-4:]=='.mdo')
     if not os.path.exists(database):
-        self._create(database)
+        self.create(database)
     operate_db=database[:-4]+'.op'
     shutil.copy(database,operate_db)
 #        engine=create_engine('sqlite:///:memory:')
-- 
2.43.0


From dcee21b2829b68cbaca24d032b67402826e4e921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:34 +0000
Subject: [PATCH 53/81] fix: the modulus of a material was changed to a number
 in pascals whatever the unit

---
 hyperstatic/app/general/property/material.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperstatic/app/general/property/material.py b/hyperstatic/app/general/property/material.py
index 2664e60..2d6833d 100644
--- a/hyperstatic/app/general/property/material.py
+++ b/hyperstatic/app/general/property/material.py
@@ -69,7 +69,8 @@ def set_material_isotropic_elastic(self,name,E,mu):
         material=self.session.query(Material).filter_by(name=name).first()
         if material==None:
             raise Exception("Name doesn't exist!")
-        material.isotropic_elastic.E=E
+        scale=self.scale()
+        material.isotropic_elastic.E=E*(scale['F']*scale['L']**-2)
         material.isotropic_elastic.mu=mu
         self.session.add(material)
         return True
-- 
2.43.0


From 4da5684af451f9b85dd16d279df80307a7ff6325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:34 +0000
Subject: [PATCH 54/81] fix: a material added by its code had no elastic
 constants

---
 hyperstatic/app/general/property/material.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperstatic/app/general/property/material.py b/hyperstatic/app/general/property/material.py
index 2d6833d..b0e0d7d 100644
--- a/hyperstatic/app/general/property/material.py
+++ b/hyperstatic/app/general/property/material.py
@@ -58,7 +58,8 @@ def add_material_quick(self,code):
     """
     try:
         if code=='Q345':
-            self.add_material(name=code,rho=7850,mat_type='isoelastic',E=2.06e11,mu=0.3)
+            scale=self.scale()
+            return self.add_material(name=code,rho=7850/(scale['F']*scale['L']**-4),mat_type='isotropic_elastic',E=2.06e11/(scale['F']*scale['L']**-2),mu=0.3)
     except Exception as e:
         logging.info(str(e))
         self.session.rollback()
-- 
2.43.0


From a44d6c037d8b57d9912f38a86ad359ecaba78a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:34 +0000
Subject: [PATCH 55/81] fix: the period of one mode could not be asked for

---
 hyperstatic/app/general/result/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/app/general/result/result.py b/hyperstatic/app/general/result/result.py
index 701d0b6..eb57c1b 100644
--- a/hyperstatic/app/general/result/result.py
+++ b/hyperstatic/app/general/result/result.py
@@ -76,5 +76,5 @@ def get_result_period(self,loadcase,order='all'):
     if order=='all':
         return [r.period for r in res.all()]
     elif type(order)==int:
-        res=res.filter_by(order=order).all()
+        res=res.filter_by(order=order)
         return [r.period for r in res.all()]
\ No newline at end of file
-- 
2.43.0


From 8657380ffcdb62292f71ae5a4062dfa2768217ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:34 +0000
Subject: [PATCH 56/81] fix: restraints could not be set again on many joints
 at once

---
 hyperstatic/app/general/object/joint.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperstatic/app/general/object/joint.py b/hyperstatic/app/general/object/joint.py
index bd9553a..e455370 100644
--- a/hyperstatic/app/general/object/joint.py
+++ b/hyperstatic/app/general/object/joint.py
@@ -48,7 +48,9 @@ def set_joint_restraint_batch(self,joints,restraints):
         assert len(restraints)==6
         reses=[]
         for joint in joints:
-            res=JointRestraint()
+            res=self.session.query(JointRestraint).filter_by(joint_name=joint).first()
+            if res is None:
+                res=JointRestraint()
             res.joint_name=joint
             res.u1=restraints[0]
             res.u2=restraints[1]
-- 
2.43.0


From ae5130b35d6cb4130acd14d5951643626a695914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:34 +0000
Subject: [PATCH 57/81] fix: the web and flanges of an I-section took its
 height and width as thicknesses

---
 hyperstatic/app/general/property/frame_section.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/app/general/property/frame_section.py b/hyperstatic/app/general/property/frame_section.py
index f8afd70..59d17bc 100644
--- a/hyperstatic/app/general/property/frame_section.py
+++ b/hyperstatic/app/general/property/frame_section.py
@@ -245,8 +245,8 @@ def add_frame_section(self,name,material,type,size):
             assert len(size)==4
             frmsec.size_0=size[0]*scale['L']
             frmsec.size_1=size[1]*scale['L']
-            frmsec.size_2=size[0]*scale['L']
-            frmsec.size_3=size[1]*scale['L']
+            frmsec.size_2=size[2]*scale['L']
+            frmsec.size_3=size[3]*scale['L']
             sec=ISection(None,frmsec.size_0,frmsec.size_1,frmsec.size_2,frmsec.size_3)
         elif type=='L':####should be refined!!
             assert len(size)==4
-- 
2.43.0


From 77fa6102429bf0b515f61f251cf0c3b78ab10d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:34 +0000
Subject: [PATCH 58/81] fix: the torsional constant of a pipe was wrong

---
 hyperstatic/app/general/property/frame_section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/app/general/property/frame_section.py b/hyperstatic/app/general/property/frame_section.py
index 59d17bc..2960978 100644
--- a/hyperstatic/app/general/property/frame_section.py
+++ b/hyperstatic/app/general/property/frame_section.py
@@ -58,7 +58,7 @@ class Pipe(FrameCrossSection):
         self._d=d
         self._t=t
         A=np.pi*d**2/4-np.pi*(d-2*t)**2/4
-        J=np.pi*(d-t)/t*2*A
+        J=np.pi*d**4/32*(1-((d-2*t)/d)**4)
         I33=np.pi*d**4/64*(1-((d-2*t)/d)**4)
         I22=I33
         W33=I33/d*2
-- 
2.43.0


From dd82dd8a273aa542090b457f72bc3fa91042adb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:34 +0000
Subject: [PATCH 59/81] fix: the torsional constant of a box was wrong

---
 hyperstatic/app/general/property/frame_section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/app/general/property/frame_section.py b/hyperstatic/app/general/property/frame_section.py
index 2960978..138cc81 100644
--- a/hyperstatic/app/general/property/frame_section.py
+++ b/hyperstatic/app/general/property/frame_section.py
@@ -89,7 +89,7 @@ class HollowBox(FrameCrossSection):
         self.tw=tw
         self.tf=tf
         A=h*b-(h-2*tf)*(b-2*tw)
-        J=(2*tw*(h-tf)/tw+2*tf*(b-tw)/tf)*2*A
+        J=2*((h-tf)*(b-tw))**2/((h-tf)/tw+(b-tw)/tf)
         I33=b*h**3/12-(b-2*tw)*(h-2*tf)**3/12
         I22=h*b**3/12-(h-2*tf)*(b-2*tw)**3/12
         W33=I33/h*2
-- 
2.43.0


From 3db756396f6d8a164200126f0fc7f32e792aa152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:34 +0000
Subject: [PATCH 60/81] fix: adding a joint where one is made a second one

---
 hyperstatic/app/general/object/joint.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hyperstatic/app/general/object/joint.py b/hyperstatic/app/general/object/joint.py
index e455370..3d6b207 100644
--- a/hyperstatic/app/general/object/joint.py
+++ b/hyperstatic/app/general/object/joint.py
@@ -23,6 +23,13 @@ def add_joint(self,x,y,z):
         str, the new joint's name.
     """
     try:
+        tol=self.session.query(Config).first().tolerance
+        pt=self.session.query(Joint).filter(and_(
+                (Joint.x-x)<tol,(x-Joint.x)<tol,
+                 (Joint.y-y)<tol,(y-Joint.y)<tol,
+                  (Joint.z-z)<tol,(z-Joint.z)<tol)).first()
+        if pt!=None:
+            return pt.name
         pt=Joint()
         pt.x=x
         pt.y=y
-- 
2.43.0


From 7c4e8928b499dec2f4406e2b2cde4647384da3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:34 +0000
Subject: [PATCH 61/81] fix: merging joints left frames with joints that are
 gone

---
 hyperstatic/app/general/object/joint.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/hyperstatic/app/general/object/joint.py b/hyperstatic/app/general/object/joint.py
index 3d6b207..420c021 100644
--- a/hyperstatic/app/general/object/joint.py
+++ b/hyperstatic/app/general/object/joint.py
@@ -290,16 +290,16 @@ def merge_joints(self,tol=1e-3):
         areas=self.session.query(Area).all()
         logging.info(len(pts_to_rmv))
         for frm in frames:
-            if (frm.pt0_name in pts_to_rmv) or (frm.pt1_name in pts_to_rmv):
-                if pt_map[frm.pt0_name]<pt_map[frm.pt1_name]:
-                    frm.pt0_name=pt_map[frm.pt0_name]
-                    frm.pt1_name=pt_map[frm.pt1_name]
-                    frm.order='01'
+            pt0_name,pt1_name=pt_map[frm.pt0_name],pt_map[frm.pt1_name]
+            if (frm.pt0_name!=pt0_name) or (frm.pt1_name!=pt1_name):
+                if pt0_name<pt1_name:
+                    frm.pt0_name=pt0_name
+                    frm.pt1_name=pt1_name
                     self.session.add(frm)
-                elif pt_map[frm.pt0_name]>pt_map[frm.pt1_name]:
-                    frm.pt0_name=pt_map[frm.pt1_name]
-                    frm.pt1_name=pt_map[frm.pt0_name]
-                    frm.order='10'  
+                elif pt0_name>pt1_name:
+                    frm.pt0_name=pt1_name
+                    frm.pt1_name=pt0_name
+                    frm.order='01' if frm.order=='10' else '10'
                     self.session.add(frm)
                 else:
                     self.session.delete(frm)
-- 
2.43.0


From b11f31f65246b784fcff8afda1d51c354e76461c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:10 +0000
Subject: [PATCH 62/81] fix: the second moment of an I-section with different
 flanges was wrong

---
 hyperstatic/app/general/property/frame_section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/app/general/property/frame_section.py b/hyperstatic/app/general/property/frame_section.py
index 138cc81..a260856 100644
--- a/hyperstatic/app/general/property/frame_section.py
+++ b/hyperstatic/app/general/property/frame_section.py
@@ -156,7 +156,7 @@ class ISection2(FrameCrossSection):
         I33=tw*hw**3/12
         I33+=b1*tf1**3/12+b1*tf1*(hw/2+tf1/2)**2
         I33+=b2*tf2**3/12+b2*tf2*(hw/2+tf2/2)**2
-        I33-=A*(y0-h/2)**2
+        I33-=A*(y0-tf2-hw/2)**2
         
         I22=b1**3*tf1/12+b2**3*tf2/12+tw**3*hw/12
         W33=I33/max([y0,h-y0])
-- 
2.43.0


From d0b96462eeb0e1ece5c38c7f2a1abb3ffceb382a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:10 +0000
Subject: [PATCH 63/81] fix: adding frames in a batch deleted joints that other
 frames end at

---
 hyperstatic/app/general/object/frame.py | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/hyperstatic/app/general/object/frame.py b/hyperstatic/app/general/object/frame.py
index f36b354..c8adcd0 100644
--- a/hyperstatic/app/general/object/frame.py
+++ b/hyperstatic/app/general/object/frame.py
@@ -90,23 +90,15 @@ def add_frame_batch(self,pt_coors,section):
             pt0_name=self.add_joint(pt0[0]*scale['L'],pt0[1]*scale['L'],pt0[2]*scale['L'])
             pt1_name=self.add_joint(pt1[0]*scale['L'],pt1[1]*scale['L'],pt1[2]*scale['L'])
             frm_ends.append((pt0_name,pt1_name))
-        tol=self.session.query(Config).first().tolerance
-        pts=self.session.query(Joint).order_by(Joint.x,Joint.y,Joint.z).all()
-        pt_map=dict([(pt.name,pt.name) for pt in pts])
-        pts_to_rmv=[]
-        for pti,ptj in zip(pts[:-1],pts[1:]):
-            if (ptj.x-pti.x)**2+(ptj.y-pti.y)**2+(ptj.z-pti.z)**2<tol**2:
-                pt_map[ptj.name]=pt_map[pti.name]
-                pts_to_rmv.append(ptj)
         for (pt0_name,pt1_name) in frm_ends:
             frm=Frame()
-            if pt_map[pt0_name]<pt_map[pt1_name]:
-                frm.pt0_name=pt_map[pt0_name]
-                frm.pt1_name=pt_map[pt1_name]
+            if pt0_name<pt1_name:
+                frm.pt0_name=pt0_name
+                frm.pt1_name=pt1_name
                 frm.order='01'
-            elif pt_map[pt0_name]>pt_map[pt1_name]:
-                frm.pt0_name=pt_map[pt1_name]
-                frm.pt1_name=pt_map[pt0_name]
+            elif pt0_name>pt1_name:
+                frm.pt0_name=pt1_name
+                frm.pt1_name=pt0_name
                 frm.order='10'
             else:
                 continue
@@ -115,8 +107,6 @@ def add_frame_batch(self,pt_coors,section):
             frm.name=frm.uuid
             names.append(frm.name)
             self.session.add(frm)
-        for pt in pts_to_rmv:
-            self.session.delete(pt)
         self.session.commit()
         return True,names
     except Exception as e:
-- 
2.43.0


From 9794444907f5fb253d388928eee5f96f5525f34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:10 +0000
Subject: [PATCH 64/81] fix: merging missed joints with others in between

---
 hyperstatic/app/general/object/joint.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/app/general/object/joint.py b/hyperstatic/app/general/object/joint.py
index 420c021..0a05d3a 100644
--- a/hyperstatic/app/general/object/joint.py
+++ b/hyperstatic/app/general/object/joint.py
@@ -273,8 +273,16 @@ def merge_joints(self,tol=1e-3):
         pt_map=dict([(pt.name,pt.name) for pt in pts])
         pts_to_rmv=[]
         scale=self.scale()
-        for pti,ptj in zip(pts[:-1],pts[1:]):
-            if (ptj.x-pti.x)**2+(ptj.y-pti.y)**2+(ptj.z-pti.z)**2<(tol*scale['L'])**2:
+        pts_kept=[]
+        for ptj in pts:
+            for pti in reversed(pts_kept):
+                if ptj.x-pti.x>=tol*scale['L'] or (ptj.x-pti.x)**2+(ptj.y-pti.y)**2+(ptj.z-pti.z)**2<(tol*scale['L'])**2:
+                    break
+            else:
+                pti=None
+            if pti is None or ptj.x-pti.x>=tol*scale['L']:
+                pts_kept.append(ptj)
+            else:
 #                pti.joint_restraint.joint_name=ptj.name
 #                pti.joint_load.joint_name=ptj.name
 #                pti.joint_disp.joint_name=ptj.name
-- 
2.43.0


From 988dea2a5d655601c0ac4827a519c703c4f24955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:10 +0000
Subject: [PATCH 65/81] fix: merging joints failed when one of them was
 restrained or loaded

---
 hyperstatic/app/general/object/joint.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/hyperstatic/app/general/object/joint.py b/hyperstatic/app/general/object/joint.py
index 0a05d3a..a516f7d 100644
--- a/hyperstatic/app/general/object/joint.py
+++ b/hyperstatic/app/general/object/joint.py
@@ -294,6 +294,22 @@ def merge_joints(self,tol=1e-3):
                 pt_map[ptj.name]=pt_map[pti.name]
                 pts_to_rmv.append(ptj)
                 
+        for ptj in pts_to_rmv:
+            for row in self.session.query(JointRestraint).filter_by(joint_name=ptj.name).all():
+                kept=self.session.query(JointRestraint).filter_by(joint_name=pt_map[ptj.name]).first()
+                if kept is None:
+                    kept=JointRestraint(joint_name=pt_map[ptj.name])
+                for u in ['u1','u2','u3','r1','r2','r3']:
+                    setattr(kept,u,bool(getattr(kept,u) or getattr(row,u)))
+                self.session.add(kept)
+            for row in self.session.query(JointLoad).filter_by(joint_name=ptj.name).all():
+                kept=self.session.query(JointLoad).filter_by(joint_name=pt_map[ptj.name],loadcase_name=row.loadcase_name).first()
+                if kept is None:
+                    kept=JointLoad(joint_name=pt_map[ptj.name],loadcase_name=row.loadcase_name)
+                for u in ['u1','u2','u3','r1','r2','r3']:
+                    setattr(kept,u,(getattr(kept,u) or 0)+(getattr(row,u) or 0))
+                self.session.add(kept)
+                
         frames=self.session.query(Frame).all()
         areas=self.session.query(Area).all()
         logging.info(len(pts_to_rmv))
-- 
2.43.0


From 117589122201d30b60b392f3d0468b74c9d4c1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:20 +0000
Subject: [PATCH 66/81] fix: time integration only worked with six free DOFs

---
 hyperstatic/core/fe_solver/dynamic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_solver/dynamic.py b/hyperstatic/core/fe_solver/dynamic.py
index 99ac53b..b51eebe 100644
--- a/hyperstatic/core/fe_solver/dynamic.py
+++ b/hyperstatic/core/fe_solver/dynamic.py
@@ -228,7 +228,7 @@ class TimeHistorySolver(Solver):
         for t in range(tmin):
             f=assembly.assemble_f(casename,t)
             f_=assembly.assemble_boundary(casename,f)
-            f_hat=(f_.reshape(1,6)-(K_-c2*M_).dot(u[t,:])-(c0*M_-c1*C_).dot(u[t-1,:])).reshape(6,1)
+            f_hat=f_.reshape(-1)-(K_-c2*M_).dot(u[t,:])-(c0*M_-c1*C_).dot(u[t-1,:])
             d,info=sl.cg(M_hat,f_hat)
             u=np.vstack([u,d])
             # v.append(c1*(-a[t-1]+a[t+1]))
-- 
2.43.0


From 706a55315438c5245362f87a963fafe1ed2c6557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:20 +0000
Subject: [PATCH 67/81] fix: time integration stepped from the wrong states

---
 hyperstatic/core/fe_solver/dynamic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_solver/dynamic.py b/hyperstatic/core/fe_solver/dynamic.py
index b51eebe..013beb2 100644
--- a/hyperstatic/core/fe_solver/dynamic.py
+++ b/hyperstatic/core/fe_solver/dynamic.py
@@ -225,10 +225,10 @@ class TimeHistorySolver(Solver):
         M_hat=c0*M_+c1*C_
 #         L,D,perm=linalg.ldl(M_hat)
         tmax,tmin=assembly.get_max_min_step(casename)
-        for t in range(tmin):
+        for t in range(tmin): #u[t+1] is the state at step t, u[0] the one before the start
             f=assembly.assemble_f(casename,t)
             f_=assembly.assemble_boundary(casename,f)
-            f_hat=f_.reshape(-1)-(K_-c2*M_).dot(u[t,:])-(c0*M_-c1*C_).dot(u[t-1,:])
+            f_hat=f_.reshape(-1)-(K_-c2*M_).dot(u[t+1,:])-(c0*M_-c1*C_).dot(u[t,:])
             d,info=sl.cg(M_hat,f_hat)
             u=np.vstack([u,d])
             # v.append(c1*(-a[t-1]+a[t+1]))
-- 
2.43.0


From da12f885ae8cf891bba6245c08cab33d6c49f0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:20 +0000
Subject: [PATCH 68/81] fix: time integration lost its accuracy to the
 tolerance of an iterative solver

---
 hyperstatic/core/fe_solver/dynamic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_solver/dynamic.py b/hyperstatic/core/fe_solver/dynamic.py
index 013beb2..459c76d 100644
--- a/hyperstatic/core/fe_solver/dynamic.py
+++ b/hyperstatic/core/fe_solver/dynamic.py
@@ -223,13 +223,13 @@ class TimeHistorySolver(Solver):
         c3=1/c2
         u[0,:]=u[1,:]-dt*v[1,:]+c3*a[1,:] #central diff
         M_hat=c0*M_+c1*C_
-#         L,D,perm=linalg.ldl(M_hat)
+        lu=sl.splu(M_hat.tocsc())
         tmax,tmin=assembly.get_max_min_step(casename)
         for t in range(tmin): #u[t+1] is the state at step t, u[0] the one before the start
             f=assembly.assemble_f(casename,t)
             f_=assembly.assemble_boundary(casename,f)
             f_hat=f_.reshape(-1)-(K_-c2*M_).dot(u[t+1,:])-(c0*M_-c1*C_).dot(u[t,:])
-            d,info=sl.cg(M_hat,f_hat)
+            d=lu.solve(f_hat)
             u=np.vstack([u,d])
             # v.append(c1*(-a[t-1]+a[t+1]))
             # a.append(c0*(a[t-1]-2*a[t]+a[t+1]))
-- 
2.43.0


From 931fe99e4447105b0647f0edb82f22e15b36ddef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:20 +0000
Subject: [PATCH 69/81] fix: the damping ratio of a time history case was
 ignored

---
 hyperstatic/core/fe_solver/dynamic.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hyperstatic/core/fe_solver/dynamic.py b/hyperstatic/core/fe_solver/dynamic.py
index 459c76d..814c9f5 100644
--- a/hyperstatic/core/fe_solver/dynamic.py
+++ b/hyperstatic/core/fe_solver/dynamic.py
@@ -197,8 +197,8 @@ class TimeHistorySolver(Solver):
         ########Simple damping
 
         ########Reileigh Damping
-        xi_i=0.05
-        xi_j=0.02
+        xi_i=damping
+        xi_j=damping
         T_i=2.0
         T_j=1.0
         omega_i=2*np.pi/T_i
@@ -206,7 +206,6 @@ class TimeHistorySolver(Solver):
         a0=2*omega_i*omega_j/(omega_j**2-omega_i**2)*(xi_i*omega_j-xi_j*omega_i)
         a1=2*omega_i*omega_j/(omega_j**2-omega_i**2)*(-xi_i/omega_j+xi_j/omega_i)
         C=(a0*M+a1*K).tocoo()
-        print(a0,a1)
 
         #########Cauchy Damping
 
-- 
2.43.0


From e61f3889bdc364062e76059cb370eedd6f89e7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:20 +0000
Subject: [PATCH 70/81] fix: member loads of a time history did not follow
 their curve

---
 hyperstatic/core/fe_model/assembly.py      | 2 +-
 hyperstatic/core/fe_model/load/__init__.py | 6 ++++--
 hyperstatic/core/fe_model/load/loadcase.py | 8 ++++----
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/hyperstatic/core/fe_model/assembly.py b/hyperstatic/core/fe_model/assembly.py
index dc3287a..5f3a744 100644
--- a/hyperstatic/core/fe_model/assembly.py
+++ b/hyperstatic/core/fe_model/assembly.py
@@ -251,7 +251,7 @@ class Assembly(object):
             #Transform matrix
             V=self.__model.get_beam_transform_matrix(beam)
             Vt = V.transpose()
-            re=loadcase.get_beam_f(beam,l)
+            re=loadcase.get_beam_f(beam,l,time_step)
             re=self.__model.get_beam_condensated_f(beam,re)
             re_=Vt.dot(re)
             k=0
diff --git a/hyperstatic/core/fe_model/load/__init__.py b/hyperstatic/core/fe_model/load/__init__.py
index 9b3c90c..7eb08be 100644
--- a/hyperstatic/core/fe_model/load/__init__.py
+++ b/hyperstatic/core/fe_model/load/__init__.py
@@ -130,14 +130,16 @@ class LoadCase(object):
         return res
 
 
-    def get_beam_f(self,name,l):
+    def get_beam_f(self,name,l,time_step=0):
         fe=np.zeros(12)
         for patname,factor in self.__load_factor.items():
             pat=self.__pattern[patname]
             f=pat.get_beam_f(name,l)
             if f is None:
                 continue
-            fe+=f*factor
+            curve=self.__load_curve[patname]
+            if time_step<curve.shape[1]: #no load beyond the end of the curve
+                fe+=f*factor*curve[1,time_step]
         return fe
 
     def get_beam_f_dict(self,ldict):
diff --git a/hyperstatic/core/fe_model/load/loadcase.py b/hyperstatic/core/fe_model/load/loadcase.py
index 05dfd33..d838b64 100644
--- a/hyperstatic/core/fe_model/load/loadcase.py
+++ b/hyperstatic/core/fe_model/load/loadcase.py
@@ -40,8 +40,8 @@ class StaticCase(LoadCase):
     def get_nodal_d_dict(self):
         return super().get_nodal_d_dict()
 
-    def get_beam_f(self,name,l):
-        return super().get_beam_f(name,l)
+    def get_beam_f(self,name,l,time_step=0):
+        return super().get_beam_f(name,l,time_step)
 
     def get_beam_f_dict(self,ldict):
         return super().get_beam_f_dict(ldict)
@@ -158,8 +158,8 @@ class TimeHistoryCase(LoadCase):
     def get_nodal_d_dict(self):
         return super().get_nodal_d_dict()
 
-    def get_beam_f(self,name,l):
-        return super().get_beam_f(name,l)
+    def get_beam_f(self,name,l,time_step=0):
+        return super().get_beam_f(name,l,time_step)
 
     def get_beam_f_dict(self,ldict):
         return super().get_beam_f_dict(ldict)
-- 
2.43.0


From 01b5c2638d5f6f8cfcb32a1d648fe3c15c1d0dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:38 +0000
Subject: [PATCH 71/81] fix: end forces and reactions of a later step were
 taken with the loads of the first

---
 hyperstatic/core/fe_model/assembly.py | 4 ++--
 hyperstatic/core/fe_post/beam.py      | 2 +-
 hyperstatic/core/fe_post/node.py      | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperstatic/core/fe_model/assembly.py b/hyperstatic/core/fe_model/assembly.py
index 5f3a744..a98fa6b 100644
--- a/hyperstatic/core/fe_model/assembly.py
+++ b/hyperstatic/core/fe_model/assembly.py
@@ -54,9 +54,9 @@ class Assembly(object):
     def get_beam_condensated_K(self,elm:str):
         return self.__model.get_beam_K(elm,condensate=True)
 
-    def get_beam_condensated_f(self,elm:str,casename:str):
+    def get_beam_condensated_f(self,elm:str,casename:str,time_step=0):
         l=self.__model.get_beam_length(elm)
-        return self.__model.get_beam_condensated_f(elm,self.__loadcase[casename].get_beam_f(elm,l))
+        return self.__model.get_beam_condensated_f(elm,self.__loadcase[casename].get_beam_f(elm,l,time_step))
 
     def get_beam_shape_function(self,elm:str):
         return self.__model.get_beam_shape_function(elm)
diff --git a/hyperstatic/core/fe_post/beam.py b/hyperstatic/core/fe_post/beam.py
index cae3a02..cd116fa 100644
--- a/hyperstatic/core/fe_post/beam.py
+++ b/hyperstatic/core/fe_post/beam.py
@@ -19,7 +19,7 @@ class BeamResultResolver(ResultResolver):
     def resolve_beam_end_force(self,name,casename:str,step:int=1):
         d=self.load_displacement(casename,step)
         K=self.__assembly.get_beam_condensated_K(name)
-        re=self.__assembly.get_beam_condensated_f(name,casename)
+        re=self.__assembly.get_beam_condensated_f(name,casename,step-1)
         T=self.__assembly.get_beam_transform_matrix(name)
         hids=self.__assembly.get_beam_node_hids(name)
         dd=np.hstack([d[i*6:i*6+6] for i in hids])
diff --git a/hyperstatic/core/fe_post/node.py b/hyperstatic/core/fe_post/node.py
index d53fd19..4929702 100644
--- a/hyperstatic/core/fe_post/node.py
+++ b/hyperstatic/core/fe_post/node.py
@@ -38,6 +38,6 @@ class NodeResultResolver(ResultResolver):
         """
         d=self.load_displacement(casename,step)
         k=self.__assembly.assemble_K().tocsr()
-        f=k.dot(d)-self.__assembly.assemble_f(casename).toarray().reshape(d.size)
+        f=k.dot(d)-self.__assembly.assemble_f(casename,step-1).toarray().reshape(d.size)
         hid=self.__assembly.get_node_hid(name)
         return f[hid*6:hid*6+6]
-- 
2.43.0


From 2cb6c3bc94e94cf34e78716f12cf0c7b33482f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:13 +0000
Subject: [PATCH 72/81] fix: spectra by Fourier transform were those of another
 natural frequency

---
 hyperstatic/app/seismic/wave2spec.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hyperstatic/app/seismic/wave2spec.py b/hyperstatic/app/seismic/wave2spec.py
index 941f03b..16c5f60 100644
--- a/hyperstatic/app/seismic/wave2spec.py
+++ b/hyperstatic/app/seismic/wave2spec.py
@@ -116,10 +116,8 @@ def fft2spec(file,dt,ξ,a_max):
     ω=2*np.pi*f
     def max_response(_T):
         ωₙ=2*np.pi/_T
-        ωd=(1-ξ)**0.5*ωₙ
         af=fft(ag,Nfft)/Nfft    
-        # H=1/((1-(ω/ωₙ)**2)+2*ξ*(ω/ωₙ)*im) #ωd?
-        H=1/((1-(ω/ωd)**2)+2*ξ*(ω/ωd)*im)
+        H=1/((1-(ω/ωₙ)**2)+2*ξ*(ω/ωₙ)*im)
         u=ifft(af*H,Nfft).real*Nfft
         return np.max(np.abs(u))/9.8
     Sa=[max_response(t) for t in T]
-- 
2.43.0


From 8d78a80c5e8cdc75fa0566e6741c5f78fc764c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:13 +0000
Subject: [PATCH 73/81] fix: spectra by Fourier transform left out what follows
 the first 4096 samples

---
 hyperstatic/app/seismic/wave2spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/app/seismic/wave2spec.py b/hyperstatic/app/seismic/wave2spec.py
index 16c5f60..8e16eab 100644
--- a/hyperstatic/app/seismic/wave2spec.py
+++ b/hyperstatic/app/seismic/wave2spec.py
@@ -110,7 +110,7 @@ def fft2spec(file,dt,ξ,a_max):
     #     H=1/((1-(ω/ωₙ)**2)+2*ξ*(ω/ωₙ)*im)
     #     u=ifft(af*H,Nfft).real*Nfft
     #     Sa.append(max(u)/9.8)
-    n=256#采样点不是太精确，最好取到采样点数
+    n=max(256,len(ag))
     Nfft=nex2pow(n)*16
     f=fftfreq(Nfft,d=dt)
     ω=2*np.pi*f
-- 
2.43.0


From e12c97f83f8ba3babd6ff97372d8338c2f109744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:35 +0000
Subject: [PATCH 74/81] fix: a deleted buckling case left its settings behind,
 and could not be added again

---
 hyperstatic/app/general/orm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperstatic/app/general/orm.py b/hyperstatic/app/general/orm.py
index db7108b..39854c0 100644
--- a/hyperstatic/app/general/orm.py
+++ b/hyperstatic/app/general/orm.py
@@ -104,6 +104,7 @@ class LoadCase(Base):
     loadcase_3nd_setting=relationship('LoadCase3ndSetting',cascade='all',backref=backref('loadcase',uselist=False),uselist=False)
     loadcase_response_spectrum_setting=relationship('LoadCaseResponseSpectrumSetting',cascade='all',backref=backref('loadcase',uselist=False),uselist=False)
     loadcase_time_history_setting=relationship('LoadCaseTimeHistorySetting',cascade='all',backref=backref('loadcase',uselist=False),uselist=False)
+    loadcase_buckling_setting=relationship('LoadCaseBucklingSetting',cascade='all',backref=backref('loadcase',uselist=False),uselist=False)
 
     #1 to many    
     joint_load=relationship('JointLoad',cascade='all',backref='loadcase')
-- 
2.43.0


From eb60d6534329ef6b3d7b5b5e1c29bc080b0171df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:20 +0000
Subject: [PATCH 75/81] fix: a section did not keep the shape it was made with

---
 hyperstatic/core/fe_model/section/beam_section.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/section/beam_section.py b/hyperstatic/core/fe_model/section/beam_section.py
index cc26483..441ebcf 100644
--- a/hyperstatic/core/fe_model/section/beam_section.py
+++ b/hyperstatic/core/fe_model/section/beam_section.py
@@ -14,7 +14,6 @@ class BeamSection(object):
         self.__I33=I33
         self.__W22=W22
         self.__W33=W33
-        self.__shape='general'
         self.__sizes=sizes
 
 
-- 
2.43.0


From 468a2095ab42ceb8ea2091ea8826d9111a75ebec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:55 +0000
Subject: [PATCH 76/81] fix: members leaning from the upright by one to two
 times the tolerance were refused

---
 hyperstatic/core/fe_model/element/line/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstatic/core/fe_model/element/line/__init__.py b/hyperstatic/core/fe_model/element/line/__init__.py
index c8f5ccd..07d6cc8 100644
--- a/hyperstatic/core/fe_model/element/line/__init__.py
+++ b/hyperstatic/core/fe_model/element/line/__init__.py
@@ -10,7 +10,7 @@ from hyperstatic.common.tolerance import Tolerance
 class Line(Element):
     def __init__(self,name,start:Node,end:Node,dof:int):        
         #Initialize local CSys
-        tol=Tolerance.abs_tol()
+        tol=2*Tolerance.abs_tol() #that far apart, the middle is within the tolerance of an upright
         o = (start.loc+end.loc)/2
         pt1 = end.loc
         pt2 = o + np.array([0,0,1])
-- 
2.43.0


From 1f9fcd92e77271e751651909fd0a4f87b9411934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:02 +0000
Subject: [PATCH 77/81] fix: members released to slide lost part of their mass

---
 hyperstatic/core/fe_model/assembly.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/assembly.py b/hyperstatic/core/fe_model/assembly.py
index a98fa6b..cd5c270 100644
--- a/hyperstatic/core/fe_model/assembly.py
+++ b/hyperstatic/core/fe_model/assembly.py
@@ -211,9 +211,8 @@ class Assembly(object):
             i,j=self.__model.get_beam_node_hids(elm)
             T=self.__model.get_beam_transform_matrix(elm)
             Tt = T.transpose()
-            #Static condensation to consider releases
+            #the lumped mass stays with the nodes, whatever is released
             Me=self.__model.get_beam_M(elm)
-            Me=self.__model.get_beam_condensated_matrix(elm,Me)
 
             Me_ = (Tt*Me*T).tocoo()
 
-- 
2.43.0


From 8a9283e8c578da15ca132414eead7d0cc2123df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:20 +0000
Subject: [PATCH 78/81] fix: a workspace could not be cleared

---
 hyperstatic/core/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index 90bf9c1..eb4b04d 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -2,6 +2,7 @@
 import pickle
 from datetime import datetime
 import os
+import shutil
 import logging
 from typing import Dict
 import numpy as np
@@ -86,7 +87,7 @@ class Api(object):
             return False
         else:
             try:
-                os.remove(workpath)
+                shutil.rmtree(workpath)
                 os.mkdir(workpath)
                 return True
             except Exception as e :
-- 
2.43.0


From 376df26b16a57e893cd3e84640806bbbb7410aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:12 +0000
Subject: [PATCH 79/81] fix: displacements of all nodes could not be read once
 a node had been added

---
 hyperstatic/core/__init__.py          | 2 +-
 hyperstatic/core/fe_model/assembly.py | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyperstatic/core/__init__.py b/hyperstatic/core/__init__.py
index eb4b04d..82069e3 100644
--- a/hyperstatic/core/__init__.py
+++ b/hyperstatic/core/__init__.py
@@ -894,7 +894,7 @@ class Api(object):
         try:
             workpath=self.__workpath
             resolver=NodeResultResolver(workpath,self.__filename)
-            res=dict([(node,resolver.resolve_nodal_displacement(node,case,step=1)) for node in self.get_node_names()])
+            res=dict([(node,resolver.resolve_nodal_displacement(node,case,step=1)) for node in resolver.assembly.get_node_names()])
             return res
         except Exception as e:
             logging.warning(str(e)+" when getting nodal displacement of "+str(case))
diff --git a/hyperstatic/core/fe_model/assembly.py b/hyperstatic/core/fe_model/assembly.py
index cd5c270..30f8636 100644
--- a/hyperstatic/core/fe_model/assembly.py
+++ b/hyperstatic/core/fe_model/assembly.py
@@ -33,6 +33,9 @@ class Assembly(object):
     def node_count(self):
         return self.__model.node_count
 
+    def get_node_names(self):
+        return self.__model.get_node_names()
+
     def get_node_hid(self,node:str):
         return self.__model.get_node_hid(node)
 
-- 
2.43.0


From 54152b4cb2b5bad02ac767ba0f55153235cd18fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:04 +0000
Subject: [PATCH 80/81] fix: a caller that writes to a node's location or mass
 it was answered with no longer changes the model

---
 hyperstatic/core/fe_model/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstatic/core/fe_model/model.py b/hyperstatic/core/fe_model/model.py
index d0fb87d..93d09a6 100644
--- a/hyperstatic/core/fe_model/model.py
+++ b/hyperstatic/core/fe_model/model.py
@@ -204,10 +204,10 @@ class Model:
         return list(self.__nodes.keys())
 
     def get_node_location(self,name):
-        return self.__nodes[name].loc
+        return self.__nodes[name].loc.copy()
 
     def get_nodal_mass(self,name:str):
-        return self.__nodes[name].mass
+        return np.array(self.__nodes[name].mass)
 
     def get_beam_names(self):
         return list(self.__beams.keys())
-- 
2.43.0


From ece079e5230215fbf3fabc2468240c7ed06cc936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:04 +0000
Subject: [PATCH 81/81] fix: a caller that writes to the loads a pattern
 answered with no longer changes the pattern

---
 hyperstatic/core/fe_model/load/pattern.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hyperstatic/core/fe_model/load/pattern.py b/hyperstatic/core/fe_model/load/pattern.py
index 50fbfd8..93ea060 100644
--- a/hyperstatic/core/fe_model/load/pattern.py
+++ b/hyperstatic/core/fe_model/load/pattern.py
@@ -27,30 +27,30 @@ class LoadPattern(object):
 
     def get_nodal_f(self,name):
         if name in self.__nodal_load.keys():
-            return self.__nodal_load[name]
+            return self.__nodal_load[name].copy()
         else:
             return None
 
     def get_nodal_f_dict(self):
-        return self.__nodal_load.copy()
+        return {k:v.copy() for k,v in self.__nodal_load.items()}
 
     def get_nodal_d(self,name):
         if name in self.__nodal_disp.keys():
-            return self.__nodal_disp[name]
+            return self.__nodal_disp[name].copy()
         else:
             return None
 
     def get_nodal_d_dict(self):
-        return self.__nodal_disp.copy()
+        return {k:v.copy() for k,v in self.__nodal_disp.items()}
 
     def get_beam_distributed(self,name):
         if name in self.__beam_distributed.keys():
-            return self.__beam_distributed[name]
+            return self.__beam_distributed[name].copy()
         return None
 
     def get_beam_concentrated(self,name):
         if name in self.__beam_concentrated.keys():
-            return self.__beam_concentrated[name]
+            return self.__beam_concentrated[name].copy()
         return None
 
     def get_beam_f(self,name,l):
-- 
2.43.0

