From 3c3ced2adf609ecb0d7fd17f6faf9e09c401bde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:24 +0000
Subject: [PATCH 01/14] fix: run the LCP contact solver on current torch

Any contact raised RuntimeError: legacy autograd functions, btrifact/btrisolve
and uint8 masks are gone from torch. Use a static autograd function, lu_factor/
lu_solve and bool masks; LCPFunction(...)(Q, p, ...) is unchanged for callers.
---
 lcp_physics/lcp/lcp.py           | 21 ++++++++----
 lcp_physics/lcp/solvers/pdipm.py | 57 +++++++++++++++-----------------
 lcp_physics/lcp/util.py          |  4 +--
 3 files changed, 43 insertions(+), 39 deletions(-)

diff --git a/lcp_physics/lcp/lcp.py b/lcp_physics/lcp/lcp.py
index 06c6dcb..2d54532 100644
--- a/lcp_physics/lcp/lcp.py
+++ b/lcp_physics/lcp/lcp.py
@@ -5,21 +5,27 @@ from .solvers import pdipm
 from .util import bger, extract_batch_size
 
 
-class LCPFunction(Function):
+class LCPFunction:
     """A differentiable LCP solver, uses the primal dual interior point method
        implemented in pdipm.
     """
     def __init__(self, eps=1e-12, verbose=-1, not_improved_lim=3,
                  max_iter=10):
-        super().__init__()
         self.eps = eps
         self.verbose = verbose
         self.not_improved_lim = not_improved_lim
         self.max_iter = max_iter
-        self.Q_LU = self.S_LU = self.R = None
 
+    def __call__(self, Q, p, G, h, A, b, F):
+        return _LCPFunction.apply(Q, p, G, h, A, b, F, self.eps, self.verbose,
+                                  self.not_improved_lim, self.max_iter)
+
+
+class _LCPFunction(Function):
+    """Autograd function for LCPFunction (self is the autograd context)."""
     # @profile
-    def forward(self, Q, p, G, h, A, b, F):
+    @staticmethod
+    def forward(self, Q, p, G, h, A, b, F, eps, verbose, not_improved_lim, max_iter):
         _, nineq, nz = G.size()
         neq = A.size(1) if A.ndimension() > 1 else 0
         assert(neq > 0 or nineq > 0)
@@ -28,12 +34,13 @@ class LCPFunction(Function):
         self.Q_LU, self.S_LU, self.R = pdipm.pre_factor_kkt(Q, G, F, A)
         zhats, self.nus, self.lams, self.slacks = pdipm.forward(
             Q, p, G, h, A, b, F, self.Q_LU, self.S_LU, self.R,
-            eps=self.eps, max_iter=self.max_iter, verbose=self.verbose,
-            not_improved_lim=self.not_improved_lim)
+            eps=eps, max_iter=max_iter, verbose=verbose,
+            not_improved_lim=not_improved_lim)
 
         self.save_for_backward(zhats, Q, p, G, h, A, b, F)
         return zhats
 
+    @staticmethod
     def backward(self, dl_dzhat):
         zhats, Q, p, G, h, A, b, F = self.saved_tensors
         batch_size = extract_batch_size(Q, p, G, h, A, b)
@@ -61,7 +68,7 @@ class LCPFunction(Function):
         dQs = 0.5 * (bger(dx, zhats) + bger(zhats, dx))
 
         grads = (dQs, dps, dGs, dhs, dAs, dbs, dFs)
-        return grads
+        return grads + (None, None, None, None)
 
     def numerical_backward(self, dl_dzhat):
         # XXX experimental
diff --git a/lcp_physics/lcp/solvers/pdipm.py b/lcp_physics/lcp/solvers/pdipm.py
index c808378..77714e4 100644
--- a/lcp_physics/lcp/solvers/pdipm.py
+++ b/lcp_physics/lcp/solvers/pdipm.py
@@ -13,19 +13,16 @@ shown_btrifact_warning = False
 
 # @profile
 def btrifact_hack(x):
-    global shown_btrifact_warning
-    try:
-        return x.btrifact(pivot=not x.is_cuda)
-    except TypeError:
-        if not shown_btrifact_warning:
-            print("""----------
-lcp warning: Pivoting will always happen and will significantly
-slow down your code. Please use the master branch of PyTorch
-to get a version that disables pivoting on the GPU.
-----------
-""")
-            shown_btrifact_warning = True
-        return x.btrifact()
+    return torch.linalg.lu_factor(x, pivot=not x.is_cuda)
+
+
+def btrisolve(b, LU_data, LU_pivots):
+    """Solve a batch of linear systems given the LU factorization of the matrices.
+    """
+    if b.dim() == LU_data.dim() - 1:
+        # batch of vectors
+        return torch.linalg.lu_solve(LU_data, LU_pivots, b.unsqueeze(-1)).squeeze(-1)
+    return torch.linalg.lu_solve(LU_data, LU_pivots, b)
 
 
 INACC_ERR = """
@@ -265,8 +262,8 @@ def factor_solve_kkt_reg(Q_tilde, D, G, A, C_tilde, rx, rs, rz, ry, eps):
 
     H_LU = btrifact_hack(H_)
 
-    invH_A_ = A_.transpose(1, 2).btrisolve(*H_LU)  # H-1 AT
-    invH_g_ = g_.btrisolve(*H_LU)  # H-1 g
+    invH_A_ = btrisolve(A_.transpose(1, 2), *H_LU)  # H-1 AT
+    invH_g_ = btrisolve(g_, *H_LU)  # H-1 g
 
     S_ = torch.bmm(A_, invH_A_)  # A H-1 AT
     # A H-1 AT + C_tilde
@@ -275,11 +272,11 @@ def factor_solve_kkt_reg(Q_tilde, D, G, A, C_tilde, rx, rs, rz, ry, eps):
     # [(H-1 g)T AT]T - h = A H-1 g - h
     t_ = torch.bmm(invH_g_.unsqueeze(1), A_.transpose(1, 2)).squeeze(1) - h_
     # w = (A H-1 AT + C_tilde)-1 (A H-1 g - h) <= Av - eps I w = h
-    w_ = -t_.btrisolve(*S_LU)
+    w_ = -btrisolve(t_, *S_LU)
     # Shouldn't it be just g (no minus)?
     # (Doesn't seem to make a difference, though...)
     t_ = -g_ - w_.unsqueeze(1).bmm(A_).squeeze()  # -g - AT w
-    v_ = t_.btrisolve(*H_LU)  # v = H-1 (-g - AT w)
+    v_ = btrisolve(t_, *H_LU)  # v = H-1 (-g - AT w)
 
     dx = v_[:, :nz]
     ds = v_[:, nz:]
@@ -304,15 +301,15 @@ def factor_solve_kkt(Q_tilde, D_tilde, A_, C_tilde, rx, rs, rz, ry, ns):
 
     H_LU = btrifact_hack(H_)
 
-    invH_A_ = A_.transpose(1, 2).btrisolve(*H_LU)
-    invH_g_ = g_.btrisolve(*H_LU)
+    invH_A_ = btrisolve(A_.transpose(1, 2), *H_LU)
+    invH_g_ = btrisolve(g_, *H_LU)
 
     S_ = torch.bmm(A_, invH_A_) + C_tilde
     S_LU = btrifact_hack(S_)
     t_ = torch.bmm(invH_g_.unsqueeze(1), A_.transpose(1, 2)).squeeze(1) - h_
-    w_ = -t_.btrisolve(*S_LU)
+    w_ = -btrisolve(t_, *S_LU)
     t_ = -g_ - w_.unsqueeze(1).bmm(A_).squeeze()
-    v_ = t_.btrisolve(*H_LU)
+    v_ = btrisolve(t_, *H_LU)
 
     dx = v_[:, :nz]
     ds = v_[:, nz:]
@@ -330,7 +327,7 @@ def solve_kkt(Q_LU, d, G, A, S_LU, rx, rs, rz, ry):
 
     nineq, nz, neq, nBatch = get_sizes(G, A)
 
-    invQ_rx = rx.btrisolve(*Q_LU)  # Q-1 rx
+    invQ_rx = btrisolve(rx, *Q_LU)  # Q-1 rx
     if neq > 0:
         # A Q-1 rx - ry
         # G Q-1 rx + rs / d - rz
@@ -339,14 +336,14 @@ def solve_kkt(Q_LU, d, G, A, S_LU, rx, rs, rz, ry):
     else:
         h = invQ_rx.unsqueeze(1).bmm(G.transpose(1, 2)).squeeze(1) + rs / d - rz
 
-    w = -(h.btrisolve(*S_LU))  # S-1 h =
+    w = -(btrisolve(h, *S_LU))  # S-1 h =
 
     g1 = -rx - w[:, neq:].unsqueeze(1).bmm(G).squeeze(1)  # -rx - GT w = -rx -GT S-1 h
     if neq > 0:
         g1 -= w[:, :neq].unsqueeze(1).bmm(A).squeeze(1)  # - AT w = -AT S-1 h
     g2 = -rs - w[:, neq:]
 
-    dx = g1.btrisolve(*Q_LU)  # Q-1 g1 = - Q-1 AT S-1 h
+    dx = btrisolve(g1, *Q_LU)  # Q-1 g1 = - Q-1 AT S-1 h
     ds = g2 / d  # g2 / d = (-rs - w) / d
     dz = w[:, neq:]
     dy = w[:, :neq] if neq > 0 else None
@@ -375,12 +372,12 @@ a non-zero diagonal.
     # See the 'Block LU factorization' part of our website
     # for more details.
 
-    G_invQ_GT = torch.bmm(G, G.transpose(1, 2).btrisolve(*Q_LU)) + F
+    G_invQ_GT = torch.bmm(G, btrisolve(G.transpose(1, 2), *Q_LU)) + F
     R = G_invQ_GT.clone()
     S_LU_pivots = torch.IntTensor(range(1, 1 + neq + nineq)).unsqueeze(0) \
         .repeat(nBatch, 1).type_as(Q).int()
     if neq > 0:
-        invQ_AT = A.transpose(1, 2).btrisolve(*Q_LU)
+        invQ_AT = btrisolve(A.transpose(1, 2), *Q_LU)
         A_invQ_AT = torch.bmm(A, invQ_AT)
         G_invQ_AT = torch.bmm(G, invQ_AT)
 
@@ -389,10 +386,10 @@ a non-zero diagonal.
         P_A_invQ_AT = P_A_invQ_AT.type_as(A_invQ_AT)
 
         S_LU_11 = LU_A_invQ_AT[0]
-        U_A_invQ_AT_inv = (P_A_invQ_AT.bmm(L_A_invQ_AT)
-                           ).btrisolve(*LU_A_invQ_AT)
+        U_A_invQ_AT_inv = btrisolve(P_A_invQ_AT.bmm(L_A_invQ_AT),
+                                    *LU_A_invQ_AT)
         S_LU_21 = G_invQ_AT.bmm(U_A_invQ_AT_inv)
-        T = G_invQ_AT.transpose(1, 2).btrisolve(*LU_A_invQ_AT)
+        T = btrisolve(G_invQ_AT.transpose(1, 2), *LU_A_invQ_AT)
         S_LU_12 = U_A_invQ_AT.bmm(T)
         S_LU_22 = Q.new_zeros(nBatch, nineq, nineq)
         S_LU_data = torch.cat((torch.cat((S_LU_11, S_LU_12), 2),
@@ -420,7 +417,7 @@ def factor_kkt(S_LU, R, d):
     if factor_kkt_eye is None or factor_kkt_eye.size() != d.size():
         # print('Updating batchedEye size.')
         factor_kkt_eye = torch.eye(nineq).repeat(
-            nBatch, 1, 1).type_as(R).byte()
+            nBatch, 1, 1).type_as(R).bool()
     # T = R.clone()
     # T[factor_kkt_eye] += (1. / d).view(-1)
     # more efficient version of these two lines in pytorch versions > 0.3.1
diff --git a/lcp_physics/lcp/util.py b/lcp_physics/lcp/util.py
index d7beaaf..6a07533 100644
--- a/lcp_physics/lcp/util.py
+++ b/lcp_physics/lcp/util.py
@@ -41,7 +41,7 @@ def get_sizes(G, A=None):
 def bdiag(d):
     nBatch, sz = d.size()
     D = torch.zeros(nBatch, sz, sz).type_as(d)
-    I = torch.eye(sz).repeat(nBatch, 1, 1).type_as(d).byte()
+    I = torch.eye(sz).repeat(nBatch, 1, 1).type_as(d).bool()
     D[I] = d.squeeze()
     return D
 
@@ -72,7 +72,7 @@ def efficient_btriunpack(LU_data, LU_pivots, unpack_data=True, unpack_pivots=Tru
     nBatch, sz = LU_data.shape[:-1]
 
     if unpack_data:
-        I_U = torch.ones(sz, sz, device=LU_data.device, dtype=torch.uint8).triu_().expand_as(LU_data)
+        I_U = torch.ones(sz, sz, device=LU_data.device, dtype=torch.bool).triu_().expand_as(LU_data)
         zero = torch.tensor(0.).type_as(LU_data)
         U = torch.where(I_U, LU_data, zero)
         L = torch.where(I_U, zero, LU_data)
-- 
2.43.0


From c546cda949e326537b7880da0aa67c294b8b4fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:16 +0000
Subject: [PATCH 02/14] fix: use the transposed KKT system in the LCP gradient

With a non-symmetric F (any frictional contact) the analytic gradients
disagreed with finite differences.
---
 lcp_physics/lcp/lcp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lcp_physics/lcp/lcp.py b/lcp_physics/lcp/lcp.py
index 2d54532..5e0286d 100644
--- a/lcp_physics/lcp/lcp.py
+++ b/lcp_physics/lcp/lcp.py
@@ -50,8 +50,11 @@ class _LCPFunction(Function):
         # D = torch.diag((self.lams / self.slacks).squeeze(0)).unsqueeze(0)
         d = self.lams / self.slacks
 
-        pdipm.factor_kkt(self.S_LU, self.R, d)
-        dx, _, dlam, dnu = pdipm.solve_kkt(self.Q_LU, d, G, A, self.S_LU,
+        # gradients solve the transposed KKT system, which differs from the one in
+        # forward when F is not symmetric (e.g. friction)
+        _, S_LU, R = pdipm.pre_factor_kkt(Q, G, F.transpose(1, 2), A)
+        pdipm.factor_kkt(S_LU, R, d)
+        dx, _, dlam, dnu = pdipm.solve_kkt(self.Q_LU, d, G, A, S_LU,
                                            dl_dzhat, G.new_zeros(batch_size, nineq),
                                            G.new_zeros(batch_size, nineq),
                                            G.new_zeros(batch_size, neq))
-- 
2.43.0


From 6265413d01625f79271781b0840f7bffdca92690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:14 +0000
Subject: [PATCH 03/14] fix: clip hull contacts to the actual reference edge

The side planes assumed the edge is centered around the centroid, so contacts
between overlapping non-symmetric hulls were misplaced or missed.
---
 lcp_physics/physics/contacts.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lcp_physics/physics/contacts.py b/lcp_physics/physics/contacts.py
index 99f3c93..e616e9a 100644
--- a/lcp_physics/physics/contacts.py
+++ b/lcp_physics/physics/contacts.py
@@ -163,12 +163,16 @@ class DiffContactHandler(ContactHandler):
                                   b1.verts[(incident_edge_idx + 1) % len(b1.verts)]]
                 incident_verts = [v + b1.pos - b2.pos for v in incident_verts]
                 clip_plane = left_orthogonal(normal)
+                # the edge is not centered around the centroid in general
+                edge_center = clip_plane.dot(
+                    b2.verts[ref_edge_idx] +
+                    b2.verts[(ref_edge_idx + 1) % len(b2.verts)]) / 2
                 clipped_verts = self.clip_segment_to_line(incident_verts, clip_plane,
-                                                          half_edge_norm)
+                                                          half_edge_norm - edge_center)
                 if len(clipped_verts) < 2:
                     return
                 clipped_verts = self.clip_segment_to_line(clipped_verts, -clip_plane,
-                                                          half_edge_norm)
+                                                          half_edge_norm + edge_center)
                 pts = []
                 for v in clipped_verts:
                     dist = normal.dot(v - b2.verts[ref_edge_idx])
@@ -186,12 +190,16 @@ class DiffContactHandler(ContactHandler):
                                   b2.verts[(incident_edge_idx+1) % len(b2.verts)]]
                 incident_verts = [v + b2.pos - b1.pos for v in incident_verts]
                 clip_plane = left_orthogonal(normal)
+                # the edge is not centered around the centroid in general
+                edge_center = clip_plane.dot(
+                    b1.verts[ref_edge_idx] +
+                    b1.verts[(ref_edge_idx + 1) % len(b1.verts)]) / 2
                 clipped_verts = self.clip_segment_to_line(incident_verts, clip_plane,
-                                                          half_edge_norm)
+                                                          half_edge_norm - edge_center)
                 if len(clipped_verts) < 2:
                     return
                 clipped_verts = self.clip_segment_to_line(clipped_verts, -clip_plane,
-                                                          half_edge_norm)
+                                                          half_edge_norm + edge_center)
                 pts = []
                 for v in clipped_verts:
                     dist = normal.dot(v - b1.verts[ref_edge_idx])
-- 
2.43.0


From ae43e3ad766899ad661222fca22384f9a341ac64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:13 +0000
Subject: [PATCH 04/14] fix: do not give up on contact problems that still
 converge

The LCP solver stopped after 3 iterations without improvement (or 10 in all)
and returned its best iterate, so ordinary frictional contacts could come back
unsolved, with bodies moving into each other.
---
 lcp_physics/lcp/lcp.py         | 4 ++--
 lcp_physics/physics/engines.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lcp_physics/lcp/lcp.py b/lcp_physics/lcp/lcp.py
index 5e0286d..c2eee40 100644
--- a/lcp_physics/lcp/lcp.py
+++ b/lcp_physics/lcp/lcp.py
@@ -9,8 +9,8 @@ class LCPFunction:
     """A differentiable LCP solver, uses the primal dual interior point method
        implemented in pdipm.
     """
-    def __init__(self, eps=1e-12, verbose=-1, not_improved_lim=3,
-                 max_iter=10):
+    def __init__(self, eps=1e-12, verbose=-1, not_improved_lim=20,
+                 max_iter=20):
         self.eps = eps
         self.verbose = verbose
         self.not_improved_lim = not_improved_lim
diff --git a/lcp_physics/physics/engines.py b/lcp_physics/physics/engines.py
index b720e47..2282ede 100644
--- a/lcp_physics/physics/engines.py
+++ b/lcp_physics/physics/engines.py
@@ -17,7 +17,7 @@ class Engine:
 class PdipmEngine(Engine):
     """Engine that uses the primal dual interior point method LCP solver.
     """
-    def __init__(self, max_iter=10):
+    def __init__(self, max_iter=20):
         self.lcp_solver = LCPFunction
         self.cached_inverse = None
         self.max_iter = max_iter
-- 
2.43.0


From 664b0519586ee827bbcfe4910daa86f542c68ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:52 +0000
Subject: [PATCH 05/14] fix: post stabilization must not push bodies into each
 other

With strict_no_penetration the step after such a push could never satisfy the
penetration check and looped forever; undo the stabilization in that case.
---
 lcp_physics/physics/world.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lcp_physics/physics/world.py b/lcp_physics/physics/world.py
index 39da5ad..e3a0985 100644
--- a/lcp_physics/physics/world.py
+++ b/lcp_physics/physics/world.py
@@ -111,6 +111,8 @@ class World:
             dp = self.engine.post_stabilization(self).squeeze(0)
             dp /= 2  # XXX Why 1/2 factor?
             # XXX Clean up / Simplify this update?
+            pre_stab_p = torch.cat([b.p for b in self.bodies])
+            pre_stab_rot_joints = [j[0].rot1 for j in self.joints]
             self.set_v(dp)
             for body in self.bodies:
                 body.move(dt)
@@ -119,6 +121,14 @@ class World:
             self.set_v(tmp_v)
 
             self.find_contacts()  # XXX Necessary to recheck contacts?
+            if self.strict_no_pen and \
+                    not all([c[0][3].item() <= self.tol for c in self.contacts]):
+                # no later step could get out of this penetration, undo stabilization
+                self.set_p(pre_stab_p.clone())
+                for j, rot1 in zip(self.joints, pre_stab_rot_joints):
+                    j[0].rot1 = rot1
+                    j[0].update_pos()
+                self.find_contacts()
         self.t += dt
 
     def get_v(self):
-- 
2.43.0


From 6142ec4d22ceb4e5f92b884dd0e79ac3ea1cdd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:36 +0000
Subject: [PATCH 06/14] fix: keep the LCP gradient system non-singular for
 redundant contacts

---
 lcp_physics/lcp/lcp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lcp_physics/lcp/lcp.py b/lcp_physics/lcp/lcp.py
index c2eee40..0781381 100644
--- a/lcp_physics/lcp/lcp.py
+++ b/lcp_physics/lcp/lcp.py
@@ -48,7 +48,9 @@ class _LCPFunction(Function):
         neq, nineq, nz = self.neq, self.nineq, self.nz
 
         # D = torch.diag((self.lams / self.slacks).squeeze(0)).unsqueeze(0)
-        d = self.lams / self.slacks
+        # redundant constraints (e.g. a sticking contact) leave the system singular
+        # when d grows so much that 1 / d is lost to rounding
+        d = torch.clamp(self.lams / self.slacks, max=1e10)
 
         # gradients solve the transposed KKT system, which differs from the one in
         # forward when F is not symmetric (e.g. friction)
-- 
2.43.0


From 836e21658c85c1d1ca79afa9cfa1fa06dac51f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:16 +0000
Subject: [PATCH 07/14] fix: keep the vertices' dependence on a rotation that
 is exactly zero

---
 lcp_physics/physics/bodies.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lcp_physics/physics/bodies.py b/lcp_physics/physics/bodies.py
index 411f2c9..ebb411a 100644
--- a/lcp_physics/physics/bodies.py
+++ b/lcp_physics/physics/bodies.py
@@ -201,7 +201,8 @@ class Hull(Body):
 
     def set_p(self, new_p, update_geom_rotation=False):
         rot = new_p[0] - self.p[0]
-        if rot.item() != 0:
+        # rotation by 0 does not move the vertices, but they still depend on it
+        if rot.item() != 0 or rot.requires_grad:
             self.rotate_verts(rot)
         super().set_p(new_p, update_geom_rotation=update_geom_rotation)
 
-- 
2.43.0


From 690d4a06684a5ff5ade81b34d9223ca98776c2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:30 +0000
Subject: [PATCH 08/14] fix: joint at the center of a body must not make
 position gradients NaN

---
 lcp_physics/physics/constraints.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lcp_physics/physics/constraints.py b/lcp_physics/physics/constraints.py
index 3f6e1c2..f697ff4 100644
--- a/lcp_physics/physics/constraints.py
+++ b/lcp_physics/physics/constraints.py
@@ -2,7 +2,7 @@ import pygame
 
 import torch
 
-from .utils import Indices, Defaults, cart_to_polar, polar_to_cart
+from .utils import Indices, Defaults, cart_to_polar, polar_to_cart, rotation_matrix
 
 
 X = Indices.X
@@ -20,7 +20,10 @@ class Joint:
         self.body2 = body2
         self.pos = body1.p.new_tensor(pos)
         self.pos1 = self.pos - self.body1.pos
-        self.r1, self.rot1 = cart_to_polar(self.pos1)
+        # anchor in body1's initial frame and rotation since then (polar coordinates
+        # have no gradient when the anchor is at the center of the body)
+        self.anchor1 = self.pos1
+        self.rot1 = self.pos.new_tensor(0)
         self.rot2 = None
         if body2 is not None:
             self.pos2 = self.pos - self.body2.pos
@@ -42,7 +45,7 @@ class Joint:
         self.update_pos()
 
     def update_pos(self):
-        self.pos1 = polar_to_cart(self.r1, self.rot1)
+        self.pos1 = rotation_matrix(self.rot1).matmul(self.anchor1)
         self.pos = self.body1.pos + self.pos1
         if self.body2 is not None:
             # keep position on body1 as reference
-- 
2.43.0


From 7798da8c909a1ba5791d930e1ff3a24c2152362e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:23 +0000
Subject: [PATCH 09/14] fix: a zero search direction must not turn the LCP
 solution into NaN

---
 lcp_physics/lcp/solvers/pdipm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcp_physics/lcp/solvers/pdipm.py b/lcp_physics/lcp/solvers/pdipm.py
index 77714e4..220af17 100644
--- a/lcp_physics/lcp/solvers/pdipm.py
+++ b/lcp_physics/lcp/solvers/pdipm.py
@@ -178,7 +178,7 @@ def forward(Q, p, G, h, A, b, F, Q_LU, S_LU, R,
 
 def get_step(v, dv):
     a = -v / dv
-    a[dv > 0] = max(1.0, a.max())
+    a[dv >= 0] = max(1.0, a.max())
     step = a.min(1)[0].squeeze()
     return step
 
-- 
2.43.0


From 9b2bd12941a618849941d1349e35fe6b973c06d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:18 +0000
Subject: [PATCH 10/14] fix: a singular problem must not end the iterations of
 its whole batch

---
 lcp_physics/lcp/solvers/pdipm.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lcp_physics/lcp/solvers/pdipm.py b/lcp_physics/lcp/solvers/pdipm.py
index 220af17..c66983e 100644
--- a/lcp_physics/lcp/solvers/pdipm.py
+++ b/lcp_physics/lcp/solvers/pdipm.py
@@ -96,6 +96,14 @@ def forward(Q, p, G, h, A, b, F, Q_LU, S_LU, R,
         try:
             factor_kkt(S_LU, R, d)
         except:
+            if batch_size > 1:
+                # the other problems of the batch may still be far from their solution
+                sols = [forward(*[v[k:k + 1] for v in (Q, p, G, h, A, b, F)],
+                                *pre_factor_kkt(Q[k:k + 1], G[k:k + 1], F[k:k + 1], A[k:k + 1]),
+                                eps=eps, max_iter=max_iter, verbose=verbose,
+                                not_improved_lim=not_improved_lim)
+                        for k in range(batch_size)]
+                return [torch.cat(v) if v[0] is not None else None for v in zip(*sols)]
             return best['x'], best['y'], best['z'], best['s']
 
         if verbose > 0:
-- 
2.43.0


From cf4954e8de68410263e3d959917b34084ef853a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:43 +0000
Subject: [PATCH 11/14] fix: a singular first iteration must not leave the LCP
 without any solution

---
 lcp_physics/lcp/solvers/pdipm.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/lcp_physics/lcp/solvers/pdipm.py b/lcp_physics/lcp/solvers/pdipm.py
index c66983e..13b6c5d 100644
--- a/lcp_physics/lcp/solvers/pdipm.py
+++ b/lcp_physics/lcp/solvers/pdipm.py
@@ -92,20 +92,6 @@ def forward(Q, p, G, h, A, b, F, Q_LU, S_LU, R,
         dual_resid = torch.norm(rx, 2, 1).squeeze()
         resids = pri_resid + dual_resid + nineq * mu
 
-        d = z / s
-        try:
-            factor_kkt(S_LU, R, d)
-        except:
-            if batch_size > 1:
-                # the other problems of the batch may still be far from their solution
-                sols = [forward(*[v[k:k + 1] for v in (Q, p, G, h, A, b, F)],
-                                *pre_factor_kkt(Q[k:k + 1], G[k:k + 1], F[k:k + 1], A[k:k + 1]),
-                                eps=eps, max_iter=max_iter, verbose=verbose,
-                                not_improved_lim=not_improved_lim)
-                        for k in range(batch_size)]
-                return [torch.cat(v) if v[0] is not None else None for v in zip(*sols)]
-            return best['x'], best['y'], best['z'], best['s']
-
         if verbose > 0:
             print('iter: {}, pri_resid: {:.5e}, dual_resid: {:.5e}, mu: {:.5e}'.format(
                 i, pri_resid.mean(), dual_resid.mean(), mu.mean()))
@@ -140,6 +126,20 @@ def forward(Q, p, G, h, A, b, F, Q_LU, S_LU, R,
                 print(INACC_ERR)
             return best['x'], best['y'], best['z'], best['s']
 
+        d = z / s
+        try:
+            factor_kkt(S_LU, R, d)
+        except:
+            if batch_size > 1:
+                # the other problems of the batch may still be far from their solution
+                sols = [forward(*[v[k:k + 1] for v in (Q, p, G, h, A, b, F)],
+                                *pre_factor_kkt(Q[k:k + 1], G[k:k + 1], F[k:k + 1], A[k:k + 1]),
+                                eps=eps, max_iter=max_iter, verbose=verbose,
+                                not_improved_lim=not_improved_lim)
+                        for k in range(batch_size)]
+                return [torch.cat(v) if v[0] is not None else None for v in zip(*sols)]
+            return best['x'], best['y'], best['z'], best['s']
+
         dx_aff, ds_aff, dz_aff, dy_aff = solve_kkt(
             Q_LU, d, G, A, S_LU, rx, rs, rz, ry)
 
-- 
2.43.0


From b0daaa97b7c4fc0c3bafa6be7480634c2389e7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:21 +0000
Subject: [PATCH 12/14] fix: contact normal of a circle centered on the edge of
 a hull was NaN

---
 lcp_physics/physics/contacts.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lcp_physics/physics/contacts.py b/lcp_physics/physics/contacts.py
index e616e9a..35139fc 100644
--- a/lcp_physics/physics/contacts.py
+++ b/lcp_physics/physics/contacts.py
@@ -103,7 +103,8 @@ class DiffContactHandler(ContactHandler):
                     break
                 simplex = [simplex[idx] for idx in ids_used]  # remove unused points
                 simplex.append(support)
-            if len(ids_used) < 3:
+            # no direction from closest point if center is on the simplex (e.g. on hull's edge)
+            if len(ids_used) < 3 and torch.norm(test_point - closest).item() > 1e-8:
                 best_pt2 = closest
                 closest = closest + b2.pos
                 best_pt1 = closest - b1.pos
-- 
2.43.0


From 6f2c29357b91fd640591591b958960e6e75921f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:50 +0000
Subject: [PATCH 13/14] fix: external forces on bodies that are not double
 precision

---
 lcp_physics/physics/forces.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lcp_physics/physics/forces.py b/lcp_physics/physics/forces.py
index 3ea7097..6429c9e 100644
--- a/lcp_physics/physics/forces.py
+++ b/lcp_physics/physics/forces.py
@@ -39,7 +39,7 @@ class ExternalForce:
 
     def __init__(self, force_func=down_force, multiplier=100.):
         self.multiplier = multiplier
-        self.force = lambda t: force_func(t) * self.multiplier
+        self.force = lambda t: self._match_body(force_func(t)) * self.multiplier
         self.body = None
 
     def set_body(self, body):
@@ -47,6 +47,9 @@ class ExternalForce:
         # match body's tensor type and device
         self.multiplier = get_tensor(self.multiplier, base_tensor=body._base_tensor)
 
+    def _match_body(self, vec):
+        return vec if self.body is None else vec.to(self.body._base_tensor)
+
 
 class Gravity(ExternalForce):
     """Gravity force object, constantly returns a downwards pointing force of
-- 
2.43.0


From 88018b27a2fccb9020a67e674324915ac66ad10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:03 +0000
Subject: [PATCH 14/14] fix: gradient with respect to the position of a joint
 was lost

---
 lcp_physics/physics/constraints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lcp_physics/physics/constraints.py b/lcp_physics/physics/constraints.py
index f697ff4..b018220 100644
--- a/lcp_physics/physics/constraints.py
+++ b/lcp_physics/physics/constraints.py
@@ -2,7 +2,7 @@ import pygame
 
 import torch
 
-from .utils import Indices, Defaults, cart_to_polar, polar_to_cart, rotation_matrix
+from .utils import Indices, Defaults, cart_to_polar, polar_to_cart, rotation_matrix, get_tensor
 
 
 X = Indices.X
@@ -18,7 +18,7 @@ class Joint:
         self.num_constraints = 2
         self.body1 = body1
         self.body2 = body2
-        self.pos = body1.p.new_tensor(pos)
+        self.pos = get_tensor(pos, base_tensor=body1.p).to(body1.p)
         self.pos1 = self.pos - self.body1.pos
         # anchor in body1's initial frame and rotation since then (polar coordinates
         # have no gradient when the anchor is at the center of the body)
-- 
2.43.0

