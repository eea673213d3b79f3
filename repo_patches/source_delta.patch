From f578d2c6f88338ee92fd4d77d9a6b0f38ec5a081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:12 +0000
Subject: [PATCH 01/69] fix: inv_cut_v with niv_shell=-1 returns everything
 outside the core

---
 src/dga/matsubara_frequencies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/matsubara_frequencies.py b/src/dga/matsubara_frequencies.py
index c541b65..c1707d1 100644
--- a/src/dga/matsubara_frequencies.py
+++ b/src/dga/matsubara_frequencies.py
@@ -165,7 +165,7 @@ def inv_cut_v_1d(arr=None, niv_core=0, niv_shell=-1):
     '''
     assert np.size(np.shape(arr)) == 1, 'Array is not 1D.'
     niv = arr.shape[0] // 2
-    if niv_shell == -1: niv_shell = niv
+    if niv_shell == -1: niv_shell = niv - niv_core
     return np.concatenate((arr[niv - niv_shell - niv_core:niv - niv_core], arr[niv + niv_core:niv + niv_core + niv_shell]))
 
 
-- 
2.43.0


From 0837ebfcd3959301a8615f929ecb2e3930bffd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:12 +0000
Subject: [PATCH 02/69] fix: add_bosonic adds along the requested axis

---
 src/dga/matsubara_frequencies.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dga/matsubara_frequencies.py b/src/dga/matsubara_frequencies.py
index c1707d1..3b089a8 100644
--- a/src/dga/matsubara_frequencies.py
+++ b/src/dga/matsubara_frequencies.py
@@ -239,12 +239,12 @@ def add_bosonic(mat1, mat2, axis=0):
     if niw_2 <= niw_1:
         result = np.copy(mat1)
         nl, nu = niw_1 - niw_2, niw_1 + niw_2 + 1
-        result[nl:nu] += mat2
+        np.moveaxis(result, axis, 0)[nl:nu] += np.moveaxis(mat2, axis, 0)
         return result
     else:
         result = np.copy(mat2)
         nl, nu = niw_2 - niw_1, niw_2 + niw_1 + 1
-        result[nl:nu] += mat1
+        np.moveaxis(result, axis, 0)[nl:nu] += np.moveaxis(mat1, axis, 0)
         return result
 
 
-- 
2.43.0


From 7eb2e4a38819ba7cf37fc8899464cb9e60808969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 03/69] fix: KGrid.symmetrize_irrk indexes the flattened k-mesh
 and keeps the shape of its input

---
 src/dga/brillouin_zone.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/dga/brillouin_zone.py b/src/dga/brillouin_zone.py
index d6024a1..0d3ae24 100644
--- a/src/dga/brillouin_zone.py
+++ b/src/dga/brillouin_zone.py
@@ -296,11 +296,9 @@ class KGrid():
 
     def symmetrize_irrk(self, mat):
         '''Shape of mat has to be [kx,ky,kz,...]'''
-        mat_reshape = np.reshape(mat, (self.nk_tot, -1))
-        shp = np.shape(mat_reshape)
-        reduced = np.zeros((self.nk_irr,) + shp[1:], dtype=mat_reshape.dtype)
-        for i in range(self.nk_irr):
-            reduced[i, ...] = np.mean(mat_reshape[self.fbz2irrk == self.irrk_ind[i], ...], axis=0)
+        mat_reshape = np.reshape(mat, (self.nk_tot,) + np.shape(mat)[3:])
+        irrk_inv = np.reshape(self.irrk_inv, -1)
+        reduced = np.array([np.mean(mat_reshape[irrk_inv == i, ...], axis=0) for i in range(self.nk_irr)])
         return self.map_irrk2fbz(mat=reduced)
 
     def shift_mat_by_pi(self, mat, axes=(0, 1, 2)):
-- 
2.43.0


From c8a10e42ca211e7e403c40d6f2dcc84292bd4d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:02 +0000
Subject: [PATCH 04/69] fix: KPath coordinates use the axis of each component

---
 src/dga/brillouin_zone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/brillouin_zone.py b/src/dga/brillouin_zone.py
index 0d3ae24..90fa17e 100644
--- a/src/dga/brillouin_zone.py
+++ b/src/dga/brillouin_zone.py
@@ -376,7 +376,7 @@ class KPath():
         self.k_points = self.get_kpoints()
 
     def get_kpath_val(self):
-        k = [self.kx[self.kpts[:, 0]], self.kx[self.kpts[:, 1]], self.kx[self.kpts[:, 2]]]
+        k = [self.kx[self.kpts[:, 0]], self.ky[self.kpts[:, 1]], self.kz[self.kpts[:, 2]]]
         return k
 
     def set_kgrid(self, k_in, nk):
-- 
2.43.0


From c23da94732528bc40a153d3dfa6e17d880c21cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:02 +0000
Subject: [PATCH 05/69] fix: create_orbs labels the orbitals of every lattice
 vector

---
 src/dga/wannier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/wannier.py b/src/dga/wannier.py
index 49b7a48..7fb4038 100644
--- a/src/dga/wannier.py
+++ b/src/dga/wannier.py
@@ -70,7 +70,7 @@ def create_orbs(n_rp, n_orbs):
     orbs = np.zeros((n_rp, n_orbs, n_orbs, 2))
     for io1 in range(n_orbs):
         for io2 in range(n_orbs):
-            orbs[io1, io2, :] = np.array([io1 + 1, io2 + 1])
+            orbs[:, io1, io2, :] = np.array([io1 + 1, io2 + 1])
     return orbs
 
 
-- 
2.43.0


From 25ca1674deaad793d1f91f1e299cae3214053f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:02 +0000
Subject: [PATCH 06/69] fix: version 2 H(k) headers are readable with current
 numpy

---
 src/dga/wannier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/wannier.py b/src/dga/wannier.py
index 7fb4038..dbceb68 100644
--- a/src/dga/wannier.py
+++ b/src/dga/wannier.py
@@ -398,7 +398,7 @@ def read_hk_w2k(fname, spin_sym=True):
     if header[0] == 'VERSION':
         warn('Version 2 headers are obsolete (specify in input file!)')
         nkpoints, natoms = map(int, nextline())
-        lines = np.array([nextline() for _ in range(natoms)], np.int)
+        lines = np.array([nextline() for _ in range(natoms)], int)
         nbands = np.sum(lines[:, :2])
         del lines, natoms
     elif len(header) != 3:
-- 
2.43.0


From 0c0d249cf8fcbf2fc5881fbd40538df4de48cfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 07/69] fix: SelfEnergy keeps all frequencies when the
 asymptotic is never reached

---
 src/dga/two_point.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dga/two_point.py b/src/dga/two_point.py
index 38ce0b9..b6c09bc 100644
--- a/src/dga/two_point.py
+++ b/src/dga/two_point.py
@@ -139,8 +139,11 @@ class SelfEnergy():
     def estimate_niv_core(self):
         '''check when the real and the imaginary part are within error margin of the asymptotic'''
         asympt = self.get_asympt(niv_asympt=self.niv, n_min=0)
-        ind_real = np.argmax(np.abs(self.k_mean().real - asympt.real) < self.err)
-        ind_imag = np.argmax(np.abs(self.k_mean().imag - asympt.imag) < self.err)
+        is_real = np.abs(self.k_mean().real - asympt.real)[0, 0, 0, :] < self.err
+        is_imag = np.abs(self.k_mean().imag - asympt.imag)[0, 0, 0, :] < self.err
+        # keep all frequencies if the asymptotic is never reached
+        ind_real = np.argmax(is_real) if np.any(is_real) else self.niv
+        ind_imag = np.argmax(is_imag) if np.any(is_imag) else self.niv
         niv_core = max(ind_real, ind_imag)
         if niv_core < self.niv_core_min:
             return self.niv_core_min
-- 
2.43.0


From ce19767f8b10f7c0700297b3e38873b6b8a5ce20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 08/69] fix: update_mu brackets the chemical potential when the
 secant search fails

---
 src/dga/two_point.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/dga/two_point.py b/src/dga/two_point.py
index b6c09bc..bf31678 100644
--- a/src/dga/two_point.py
+++ b/src/dga/two_point.py
@@ -303,7 +303,8 @@ def update_mu(mu0=0.0, target_filling=1.0, iv=None, hk=None, siwk=None, beta=1.0
                         args=(target_filling, iv, hk, siwk, beta, smom0, hloc))
     except RuntimeError:
         if verbose: print('Root finding for chemical potential failed.')
-        if verbose: print('Using old chemical potential again.')
+        if verbose: print('Trying to bracket the chemical potential.')
+        mu = bracket_mu(mu0, args=(target_filling, iv, hk, siwk, beta, smom0, hloc), tol=tol)
     if np.abs(mu.imag) < 1e-8:
         mu = mu.real
     else:
@@ -311,6 +312,19 @@ def update_mu(mu0=0.0, target_filling=1.0, iv=None, hk=None, siwk=None, beta=1.0
     return mu
 
 
+def bracket_mu(mu0, args=(), tol=1e-6, max_range=1e4):
+    '''
+        Root search for the chemical potential, using that the filling goes from zero to two with increasing mu.
+        Returns mu0 if there is no root.
+    '''
+    width = 1.
+    while width < max_range:
+        if root_fun(mu0 - width, *args) < 0 < root_fun(mu0 + width, *args):
+            return opt.brentq(root_fun, mu0 - width, mu0 + width, args=args, xtol=tol)
+        width *= 2
+    return mu0
+
+
 # ==================================================================================================================
 
 def build_g(v, ek, mu, sigma):
-- 
2.43.0


From 10dc7bbe2080d028b8ba26fd678cc25084ea49ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 09/69] fix: bubbles do not mirror bosonic frequencies in the
 'center' convention

---
 src/dga/bubble.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dga/bubble.py b/src/dga/bubble.py
index 97482d6..5723fee 100644
--- a/src/dga/bubble.py
+++ b/src/dga/bubble.py
@@ -24,6 +24,7 @@ def get_gchi0(giw, beta, niv, iwn, freq_notation='minus'):
 
 
 def vec_get_gchi0(giw, beta, niv, wn, freq_notation='minus', is_full_wn=False):
+    is_full_wn = is_full_wn and freq_notation != 'center'  # 'center' has no w -> -w symmetry for odd w
     if is_full_wn:
         wn_pos = mf.wn(mf.niw_from_mat(wn), pos=True)
         gchi0 = np.array([get_gchi0(giw, beta, niv, iwn=iwn, freq_notation=freq_notation) for iwn in wn_pos])
@@ -45,6 +46,7 @@ def get_gchi0_q(giwk, beta, niv, iwn, q, freq_notation='minus'):
 
 
 def vec_get_gchi0_q(giwk, beta, niv, wn, q_list, freq_notation='minus', is_full_wn=False):
+    is_full_wn = is_full_wn and freq_notation != 'center'  # 'center' has no w -> -w symmetry for odd w
     wn_bub = mf.wn(mf.niw_from_mat(wn), pos=True) if is_full_wn else wn
     gchi0_q = np.zeros((len(q_list), len(wn_bub), niv * 2), dtype=complex)
     giwk = mf.cut_v(giwk, niv_cut=niv + np.max(np.abs(wn_bub)), axes=(-1,))
@@ -65,6 +67,7 @@ def get_chi0_q(giwk, beta, niv, iwn, q, freq_notation='minus'):
 
 
 def vec_get_chi0_q(giwk, beta, niv, wn, q_list, freq_notation='minus', is_full_wn=False):
+    is_full_wn = is_full_wn and freq_notation != 'center'  # 'center' has no w -> -w symmetry for odd w
     wn_bub = mf.wn(mf.niw_from_mat(wn), pos=True) if is_full_wn else wn
     chi0_q = np.zeros((len(q_list), len(wn_bub)), dtype=complex)
     giwk = mf.cut_v(giwk, niv_cut=niv + np.max(np.abs(wn_bub)), axes=(-1,))
@@ -80,6 +83,7 @@ def get_chi0_sum(giw, beta, niv, iwn=0, freq_notation='minus'):
 
 
 def vec_get_chi0_sum(giw, beta, niv, wn, freq_notation='minus', is_full_wn=False):
+    is_full_wn = is_full_wn and freq_notation != 'center'  # 'center' has no w -> -w symmetry for odd w
     if is_full_wn:
         wn_pos = mf.wn(mf.niw_from_mat(wn), pos=True)
         chi0 = np.array([get_chi0_sum(giw, beta, niv, iwn=iwn, freq_notation=freq_notation) for iwn in wn_pos])
-- 
2.43.0


From dd9f51abcc41de926e32f7eb8c3d732c9a42d0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 10/69] fix: asymptotic q-bubble covers any set of bosonic
 frequencies

---
 src/dga/bubble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/bubble.py b/src/dga/bubble.py
index 5723fee..1b89638 100644
--- a/src/dga/bubble.py
+++ b/src/dga/bubble.py
@@ -270,7 +270,7 @@ class BubbleGenerator():
         if freq_notation is None:
             freq_notation = self.freq_notation
         chi0_asympt_sum = np.zeros((len(q_list), self.niw), dtype=complex)
-        v = 1 / (1j * mf.vn(self.beta, niv_sum + self.niw))
+        v = 1 / (1j * mf.vn(self.beta, niv_sum + np.max(np.abs(self.wn))))
         niv = v.size // 2
         fac1, fac2, fac3 = self.get_asympt_prefactors_q(q_list)
         for i, iwn in enumerate(self.wn):
-- 
2.43.0


From 0d8d309f6615ee0fe92eec119363614eb17f4757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 11/69] fix: get_vrg_and_chir_tilde_from_chir_uasympt does not
 pass u as the summation axis

---
 src/dga/local_four_point.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/local_four_point.py b/src/dga/local_four_point.py
index 8e47124..c7077ea 100644
--- a/src/dga/local_four_point.py
+++ b/src/dga/local_four_point.py
@@ -451,7 +451,7 @@ def get_vrg_and_chir_tilde_from_chir_uasympt(chir: LocalFourPoint, gchi0_gen: bu
     chi_asympt = chi_phys_asympt(chi_urange, chi0_urange, chi0_asympt)
 
     # Compute the fermion-boson vertex:
-    vrg = vrg_from_gchi_aux_asympt(gchi_aux, gchi0_core, chi_urange, chi_asympt, u)
+    vrg = vrg_from_gchi_aux_asympt(gchi_aux, gchi0_core, chi_urange, chi_asympt)
 
     return vrg, chi_asympt
 
-- 
2.43.0


From eb0b24f5ae24806f893e9e7f8a9788d2e979a4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 12/69] fix: LocalNPoint rejects a full bosonic range with an
 even number of frequencies

---
 src/dga/local_four_point.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/local_four_point.py b/src/dga/local_four_point.py
index c7077ea..fca306b 100644
--- a/src/dga/local_four_point.py
+++ b/src/dga/local_four_point.py
@@ -100,7 +100,7 @@ class LocalNPoint():
     '''
 
     def __init__(self, channel, mat, beta, u, wn=None, is_full_w=False):
-        assert np.size(mat.shape[0]) % 2 == 1, 'wn is not bosonic. Probably w is not the 0th dimension of the input matrix.'
+        assert not is_full_w or mat.shape[0] % 2 == 1, 'wn is not bosonic. Probably w is not the 0th dimension of the input matrix.'
         self.mat = mat  # [w,v,vp]
         self.beta = beta  # inverse temperature
         self.u = u  # interaction strength
-- 
2.43.0


From 9254894dd3b8d112a4edb63695b44140de943b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:45 +0000
Subject: [PATCH 13/69] fix: double-counting kernel in
 get_vrg_and_chir_lad_from_gammar_uasympt_q

---
 src/dga/four_point.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/dga/four_point.py b/src/dga/four_point.py
index 5704a1a..b55aab5 100644
--- a/src/dga/four_point.py
+++ b/src/dga/four_point.py
@@ -251,7 +251,7 @@ def get_vrg_and_chir_lad_from_gammar_uasympt_q(gamma_dens: lfp.LocalFourPoint, g
         if logger.is_root:
             f_dc.plot(pdir=logger.out_dir + '/', name='F_dc')
 
-    kernel_dc = mf.cut_v(get_kernel_dc(f_dc.mat, gchi0_q_urange), niv_core, axes=(-1,))
+    kernel_dc = mf.cut_v(get_kernel_dc(f_dc, gchi0_q_urange), niv_core, axes=(-1,))
     if logger is not None: logger.log_cpu_time(task=' DC kernel constructed. ')
 
     # Density channel:
@@ -269,9 +269,8 @@ def get_vrg_and_chir_lad_from_gammar_uasympt_q(gamma_dens: lfp.LocalFourPoint, g
     chi_lad_magn = chi_phys_asympt_q(chi_lad_urange, chi0_q_urange, chi0_q_urange + chi0q_shell)
 
     u_r = lfp.get_ur(u, gamma_magn.channel)
-    # 1/beta**2 since we want F/beta**2
-    kernel_dc += u_r / gamma_magn.beta * (1 - u_r * chi_magn_loc[None, :, None]) * vrg_magn_loc.mat[None, :, :] * chi0q_shell_dc[
-                                                                                                                  :, :, None]
+    # F(v,vp) -> u_r * (1 - u_r * chi) * vrg(v) for large vp; the remaining sum over vp is the asymptotic bubble
+    kernel_dc += u_r ** 2 * (1 - u_r * chi_magn_loc[None, :, None]) * vrg_magn_loc.mat[None, :, :] * chi0q_shell_dc[:, :, None]
     vrg_q_magn = vrg_from_gchi_aux_asympt(gchiq_aux, gchi0_q_core, chi_lad_urange, chi_lad_magn, u, gamma_magn.channel)
 
     return vrg_q_dens, vrg_q_magn, chi_lad_dens, chi_lad_magn, kernel_dc
-- 
2.43.0


From 2d2c4a7bc8bd99b549af06f07dc303e6fe71a442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:45 +0000
Subject: [PATCH 14/69] fix: shell part of schwinger_dyson_channel_q counts the
 multiplicity of the q-points

---
 src/dga/four_point.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/dga/four_point.py b/src/dga/four_point.py
index b55aab5..72cfcc4 100644
--- a/src/dga/four_point.py
+++ b/src/dga/four_point.py
@@ -35,12 +35,14 @@ def schwinger_dyson_vrg_q(vrg, chir_phys, giwk, beta, u, channel, q_list, q_poin
     return 1 / nqtot * u_r / 2 * 1 / beta * sigma_f
 
 
-def schwinger_dyson_q_shell(chir_phys, giwk, beta, u, n_shell, n_core, wn, q_list, nqtot):
+def schwinger_dyson_q_shell(chir_phys, giwk, beta, u, n_shell, n_core, wn, q_list, nqtot, q_point_duplicity=None):
+    if q_point_duplicity is None: q_point_duplicity = np.ones(len(q_list))
     sigma_f = np.zeros([*np.shape(giwk)[:3], 2 * n_shell], dtype=complex)
     for i, q in enumerate(q_list):
         gkpq = bz.shift_mat_by_ind(giwk, ind=[-iq for iq in q])
         mat_grid = mf.wn_slices_shell(gkpq, n_shell, n_core, w=wn)
-        sigma_f += 1 / nqtot * u ** 2 / 2 * 1 / beta * np.sum(chir_phys[i, :, None, None, None, None] * mat_grid, axis=0)
+        sigma_f += 1 / nqtot * u ** 2 / 2 * 1 / beta * np.sum(chir_phys[i, :, None, None, None, None] * mat_grid,
+                                                              axis=0) * q_point_duplicity[i]
     return sigma_f
 
 
@@ -50,7 +52,8 @@ def schwinger_dyson_channel_q(vrg, chir_phys, channel, giwk, beta, u, q_list, q_
         return siwk_core
     else:
         niv_core = np.shape(vrg)[-1] // 2
-        siwk_shell = schwinger_dyson_q_shell(chir_phys, giwk, beta, u, niv_shell, niv_core, wn, q_list, nqtot)
+        siwk_shell = schwinger_dyson_q_shell(chir_phys, giwk, beta, u, niv_shell, niv_core, wn, q_list, nqtot,
+                                             q_point_duplicity)
         return mf.concatenate_core_asmypt(siwk_core, siwk_shell)
 
 
-- 
2.43.0


From 8ca667375b788ec5c62986b4168c4e00464acc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 15/69] fix: load_vertex_from_rank_files keeps the sign of the
 bosonic frequency

---
 src/dga/four_point.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/four_point.py b/src/dga/four_point.py
index 72cfcc4..154497c 100644
--- a/src/dga/four_point.py
+++ b/src/dga/four_point.py
@@ -329,7 +329,7 @@ def load_vertex_from_rank_files(output_path, name, mpi_size, nq, niw, niv):
             for key1 in keys:
                 # extract the q indizes from the group name!
                 irrq = np.array(re.findall(r'\d+', key1), dtype=int)[0]
-                iwn = np.array(re.findall(r'\d+', key1), dtype=int)[1] + niw
+                iwn = np.array(re.findall(r'-?\d+', key1), dtype=int)[1] + niw
                 f1_magn[irrq, iwn, ...] = file_in.file[key1 + '/f1_magn/'][()]
                 f2_dens[irrq, iwn, ...] = file_in.file[key1 + '/f2_dens/'][()]
                 f1_dens[irrq, iwn, ...] = file_in.file[key1 + '/f1_dens/'][()]
-- 
2.43.0


From 089cdc34a199d015b0f60f480951500cd8b34d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 16/69] fix: load_optics_vertex_from_rank_files keeps the sign
 of the bosonic frequency

---
 src/dga/optics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/optics.py b/src/dga/optics.py
index 425876f..33717b8 100644
--- a/src/dga/optics.py
+++ b/src/dga/optics.py
@@ -254,7 +254,7 @@ def load_optics_vertex_from_rank_files(output_path, name, mpi_size, nq, optics_c
             for key1 in keys:
                 # extract the q indizes from the group name!
                 irrq = np.array(re.findall(r'\d+', key1), dtype=int)[0]
-                iwn = np.array(re.findall(r'\d+', key1), dtype=int)[1] + niw_vert
+                iwn = np.array(re.findall(r'-?\d+', key1), dtype=int)[1] + niw_vert
                 f1_magn[irrq, iwn, ...] = file_in.file[key1 + '/f1_magn/'][()]
                 f2_dens[irrq, iwn, ...] = file_in.file[key1 + '/f2_dens/'][()]
                 f1_dens[irrq, iwn, ...] = file_in.file[key1 + '/f1_dens/'][()]
-- 
2.43.0


From 6b2c9d31034d5c3d4c12d39d96f89096d4e889f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:52 +0000
Subject: [PATCH 17/69] fix: Eliashberg eigenvectors are projected with the
 weight in which they are orthogonal

---
 src/dga/eliashberg_equation.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/dga/eliashberg_equation.py b/src/dga/eliashberg_equation.py
index 5375fc4..6ab541b 100644
--- a/src/dga/eliashberg_equation.py
+++ b/src/dga/eliashberg_equation.py
@@ -61,15 +61,16 @@ class EliashberPowerIteration():
         lambda_old = 1  # Randomly start with
         converged = False
         count = 0
+        gap_old = gram_schmidt_eliash(v=gap_old, basis=self.gap, gk=self.gk)
         while not converged:
             count += 1
-            gap_old = gram_schmidt_eliash(v=gap_old, basis=self.gap, gk=self.gk)
             gap_gg = np.fft.ifftn(gap_old * np.abs(self.gk) ** 2, axes=(0, 1, 2))
             gap_new = 1. / self.norm * np.sum(self.gammax * gap_gg[..., None, :], axis=-1)
             gap_new = np.fft.fftn(gap_new, axes=(0, 1, 2))
             # gep_new = remove_prev_eigenvals(v=gap_new, basis=self.gap, lams=self.lam)
             if self.lam_s is not None:
                 gap_new = gap_new - gap_old * self.lam_s
+            gap_new = gram_schmidt_eliash(v=gap_new, basis=self.gap, gk=self.gk)
             lambda_new = np.sum(np.conj(gap_old) * gap_new) / np.sum(np.conj(gap_old) * gap_old)
             gap_old = gap_new / lambda_new
 
@@ -109,14 +110,11 @@ def proj(v=None, u=None):
     return np.sum(np.conj(u) * v) / np.sum(np.conj(u) * u) * u
 
 
-# pylint: disable=unused-argument
 def proj_eliash(v=None, u=None, gk=None):
-    '''Projection of v onto u.'''
-    # return np.sum(u*np.abs(gk)**2*v)/np.sum(u*np.abs(gk)**2*u) * u
-    return np.sum(np.conj(u) * v) / np.sum(np.conj(u) * u) * u
-
+    '''Projection of v onto u. Eigenvectors of the Eliashberg equation are orthogonal with respect to the weight |gk|^2.'''
+    weight = np.conj(u) * np.abs(gk) ** 2
+    return np.sum(weight * v) / np.sum(weight * u) * u
 
-# pylint: enable=unused-argument
 
 def get_gap_start(shape=None, k_type=None, v_type=None, k_grid=None):
     gap0 = np.zeros(shape, dtype=complex)
-- 
2.43.0


From 612ad0296dad3e0360090e1dd3f6085839b212ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:05 +0000
Subject: [PATCH 18/69] fix: zero contours and colour maps use calls removed
 from current matplotlib

---
 src/dga/brillouin_zone.py |  7 +++----
 src/dga/plotting.py       | 16 ++++++++--------
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/dga/brillouin_zone.py b/src/dga/brillouin_zone.py
index 90fa17e..96c0e05 100644
--- a/src/dga/brillouin_zone.py
+++ b/src/dga/brillouin_zone.py
@@ -56,12 +56,11 @@ def find_zeros(mat):
     ind_y = np.arange(mat.shape[1])
 
     cs1 = plt.contour(ind_x, ind_y, mat.T.real, cmap='RdBu', levels=[0, ])
-    paths = cs1.collections[0].get_paths()
+    segments = cs1.allsegs[0]
     plt.close()
-    paths = np.atleast_1d(paths)
     vertices = []
-    for path in paths:
-        vertices.extend(path.vertices)
+    for segment in segments:
+        vertices.extend(segment)
     vertices = np.array(vertices, dtype=int)
     return vertices
 
diff --git a/src/dga/plotting.py b/src/dga/plotting.py
index 676257d..3566335 100644
--- a/src/dga/plotting.py
+++ b/src/dga/plotting.py
@@ -43,15 +43,15 @@ def get_zero_contour(data):
     indy = np.arange(0, np.shape(data)[0])
     fig1 = plt.figure()
     cs1 = plt.contour(indx, indy, data, cmap='RdBu', levels=[0, ])
-    path = cs1.collections[0].get_paths()
+    path = cs1.allsegs[0]
     plt.close(fig1)
     for i in range(len(path)):
         if (i == 0):
-            indices_x = np.array(np.round(path[i].vertices[:, 0], 0).astype(int))
-            indices_y = np.array(np.round(path[i].vertices[:, 1], 0).astype(int))
+            indices_x = np.array(np.round(path[i][:, 0], 0).astype(int))
+            indices_y = np.array(np.round(path[i][:, 1], 0).astype(int))
         else:
-            indices_x = np.concatenate((indices_x, np.array(np.round(path[i].vertices[:, 0], 0).astype(int))), axis=0)
-            indices_y = np.concatenate((indices_y, np.array(np.round(path[i].vertices[:, 1], 0).astype(int))), axis=0)
+            indices_x = np.concatenate((indices_x, np.array(np.round(path[i][:, 0], 0).astype(int))), axis=0)
+            indices_y = np.concatenate((indices_y, np.array(np.round(path[i][:, 1], 0).astype(int))), axis=0)
     return indices_x, indices_y
 
 
@@ -91,7 +91,7 @@ def plot_along_ind(mat, indizes, step_size=1, figsize=ps.FIGSIZE, cmap='rainbow'
     ind_v = np.logical_and(vn >= niv_plot_min, vn <= niv_plot)
 
     n_plots = len(indizes[::step_size])
-    line_colors = plt.cm.get_cmap(cmap)(np.linspace(0, 1, n_plots))
+    line_colors = plt.get_cmap(cmap)(np.linspace(0, 1, n_plots))
     lines = []
 
     fig, axes = plt.subplots(nrows=1, ncols=2, figsize=figsize)
@@ -139,7 +139,7 @@ def plot_kx_ky(mat, kx, ky, do_save=True, pdir='./', name='', cmap='RdBu', figsi
                  pad=0.05)
     if (scatter is not None):
         for ax in axes:
-            colours = plt.cm.get_cmap(cmap)(np.linspace(0, 1, np.shape(scatter)[0]))
+            colours = plt.get_cmap(cmap)(np.linspace(0, 1, np.shape(scatter)[0]))
             ax.scatter(scatter[:, 0], scatter[:, 1], marker='o', c=colours)
     plt.tight_layout()
     if (do_save): plt.savefig(pdir + '/' + name + '.png')
@@ -575,7 +575,7 @@ def plot_gap_function_kx_ky(mat, kx, ky, do_save=True, pdir='./', name='', cmap=
                  pad=0.05)
     if (scatter is not None):
         for ax in axes:
-            colours = plt.cm.get_cmap(cmap)(np.linspace(0, 1, np.shape(scatter)[0]))
+            colours = plt.get_cmap(cmap)(np.linspace(0, 1, np.shape(scatter)[0]))
             ax.scatter(scatter[:, 0], scatter[:, 1], marker='o', c=colours)
     plt.tight_layout()
     if (do_save): plt.savefig(pdir + '/GapFunction_' + name + '.png')
-- 
2.43.0


From b1fd0ae3cd8b3648ab357f3ae90e87705c4b2589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:05 +0000
Subject: [PATCH 19/69] fix: a run with fewer than ten bosonic frequencies
 aborts in the default vertex plots

---
 src/dga/plotting.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dga/plotting.py b/src/dga/plotting.py
index 3566335..a20bea8 100644
--- a/src/dga/plotting.py
+++ b/src/dga/plotting.py
@@ -59,8 +59,8 @@ def default_g2_plots(g2_dens, g2_magn, output_dir):
     ''' Default plots for the two-particle Green's function'''
     g2_dens.plot(0, pdir=output_dir, name='G2_dens')
     g2_magn.plot(0, pdir=output_dir, name='G2_magn')
-    g2_magn.plot(10, pdir=output_dir, name='G2_magn')
-    g2_magn.plot(-10, pdir=output_dir, name='G2_magn')
+    if 10 in g2_magn.wn: g2_magn.plot(10, pdir=output_dir, name='G2_magn')
+    if -10 in g2_magn.wn: g2_magn.plot(-10, pdir=output_dir, name='G2_magn')
 
 
 def default_gchi_plots(gchi_dens, gchi_magn, output_dir):
@@ -74,9 +74,9 @@ def default_gamma_plots(gamma_dens, gamma_magn, output_dir, box_sizes, beta):
     niv_core = box_sizes.niv_core
     gamma_dens.plot(0, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_dens')
     gamma_magn.plot(0, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_magn')
-    gamma_magn.plot(10, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_magn')
-    gamma_magn.plot(-10, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_magn')
-    gamma_dens.plot(10, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_dens')
+    if 10 in gamma_magn.wn: gamma_magn.plot(10, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_magn')
+    if -10 in gamma_magn.wn: gamma_magn.plot(-10, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_magn')
+    if 10 in gamma_dens.wn: gamma_dens.plot(10, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_dens')
 
 
 def plot_along_ind(mat, indizes, step_size=1, figsize=ps.FIGSIZE, cmap='rainbow', verbose=False, pdir='./', do_save=True
-- 
2.43.0


From 31d547a8092428fd4cc1e5ecb194182e957f0a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 20/69] fix: the potential energy reported for DMFT is the one
 of DGA

---
 src/dga/dga_main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/dga_main.py b/src/dga/dga_main.py
index 81b5971..b373e96 100644
--- a/src/dga/dga_main.py
+++ b/src/dga/dga_main.py
@@ -274,7 +274,7 @@ def main():
         e_kin_dga = giwk_dga.e_kin
         e_kin_dmft = giwk_dmft.e_kin
         e_pot_dga = giwk_dga.e_pot
-        e_pot_dmft = giwk_dga.e_pot
+        e_pot_dmft = giwk_dmft.e_pot
         np.savetxt(d_cfg.output_path + '/energies.txt', [[e_kin_dga, e_kin_dmft, e_pot_dga, e_pot_dmft]],
                    header='kin-dga kin-dmft pot-dga pot-dmft', fmt='%.6f')
 
-- 
2.43.0


From 2f14793b273648cd9a43002229763cefa1ca2cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 21/69] fix: with several processes only the momenta of the
 first were saved for the three-leg vertex

---
 src/dga/dga_main.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dga/dga_main.py b/src/dga/dga_main.py
index b373e96..9e8c56b 100644
--- a/src/dga/dga_main.py
+++ b/src/dga/dga_main.py
@@ -136,10 +136,6 @@ def main():
     d_cfg.logger.log_memory_usage('chi_lad', chi_lad_dens, n_exists=2)
     d_cfg.logger.log_memory_usage('vrg_q', vrg_q_dens, n_exists=2)
 
-    if (d_cfg.save_vrg and comm.rank == 0):
-        d_cfg.save_data(vrg_q_magn, 'vrg_q_magn')
-        d_cfg.save_data(vrg_q_dens, 'vrg_q_dens')
-
     del gamma_magn, gamma_dens, vrg_magn, vrg_dens
     gc.collect()
     d_cfg.logger.log_cpu_time(task=' Vrg and Chi-ladder completed. ')
@@ -206,6 +202,10 @@ def main():
 
     d_cfg.logger.log_memory_usage('vrg-q', vrg_q_dens, n_exists=2)
 
+    if (d_cfg.save_vrg and comm.rank == 0):
+        d_cfg.save_data(vrg_q_magn, 'vrg_q_magn')
+        d_cfg.save_data(vrg_q_dens, 'vrg_q_dens')
+
     if (comm.rank == 0):
         vrg_q_dens = d_cfg.lattice.q_grid.map_irrk2fbz(vrg_q_dens, shape='list')
         vrg_q_magn = d_cfg.lattice.q_grid.map_irrk2fbz(vrg_q_magn, shape='list')
-- 
2.43.0


From 1ee3892569cc826a9216e99df5c355b131060652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 22/69] fix: a run with an optics section but no bubble crashes
 after the calculation

---
 src/dga/dga_main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/dga_main.py b/src/dga/dga_main.py
index 9e8c56b..066a3e7 100644
--- a/src/dga/dga_main.py
+++ b/src/dga/dga_main.py
@@ -353,7 +353,7 @@ def main():
             d_cfg.optics.save_data(chijj_vert, 'chijj_vert')
         d_cfg.logger.log_event('Optics vertex completed!')
 
-    if comm.rank == 0 and 'optics' in conf_file:
+    if comm.rank == 0 and d_cfg.optics.do_bubble:
         # Plot the optical conductivity on matsubara frequencies:
         if chijj_vert is None: chijj_vert = np.zeros_like(chijj_bubble)
 
-- 
2.43.0


From 0cc6692cd3624643d27298ef25c4841e980d9f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 23/69] fix: polynomial fits of the DGA quantities are saved at
 the momenta they belong to

---
 src/dga/dga_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dga/dga_io.py b/src/dga/dga_io.py
index 77b1f8f..7256f16 100644
--- a/src/dga/dga_io.py
+++ b/src/dga/dga_io.py
@@ -252,11 +252,11 @@ def default_giwk_checks(d_cfg: config.DgaConfig, giwk_dga, sigma_dga):
 def dga_poly_fit(d_cfg: config.DgaConfig, sigma_dga, giwk_dga):
     if d_cfg.do_poly_fitting and d_cfg.comm.rank == 0:
         # Extrapolate the self-energy to the Fermi-level via polynomial fit:
-        poly_fit(sigma_dga.get_siw(d_cfg.box.niv_full, pi_shift=True), d_cfg.sys.beta,
+        poly_fit(sigma_dga.get_siw(d_cfg.box.niv_full, pi_shift=False), d_cfg.sys.beta,
                  d_cfg.lattice.k_grid, d_cfg.n_fit,
                  d_cfg.o_fit, name='Siwk_poly_cont_', output_path=d_cfg.poly_fit_dir)
 
-        poly_fit(giwk_dga.g_full(pi_shift=True), d_cfg.sys.beta, d_cfg.lattice.k_grid, d_cfg.n_fit,
+        poly_fit(giwk_dga.g_full(pi_shift=False), d_cfg.sys.beta, d_cfg.lattice.k_grid, d_cfg.n_fit,
                  d_cfg.o_fit,
                  name='Giwk_dga_poly_cont_',
                  output_path=d_cfg.poly_fit_dir)
-- 
2.43.0


From d5ee3ddd59c0654598421fb9ec41a00248190c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:21 +0000
Subject: [PATCH 24/69] fix: the asymptotic range of a run depends on whether
 the core box is given or inferred

---
 src/dga/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index 5179e25..f8326de 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -168,7 +168,8 @@ class BoxSizes(ConfigBase):
         if (config_dict is not None):
             self.update_dict(**config_dict)  # forwards parameters from config
 
-        if (self.niv_asympt == -1):
+        # the asymptotic range follows from the core sizes; if these are not set yet, it is inferred with them:
+        if (self.niv_asympt == -1 and self.niv_core != -1 and self.niw_core != -1):
             self.niv_asympt = self.niv_full + self.niw_core * 2
 
     @property
-- 
2.43.0


From 33bfb9851011a42ec68ad8821ab4ef504bed63f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:31 +0000
Subject: [PATCH 25/69] fix: a list of lattice symmetries is rejected, an
 unknown one in a tuple accepted

---
 src/dga/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index f8326de..94959a7 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -254,10 +254,10 @@ class LatticeConfig(ConfigBase):
             pass
         elif (self.symmetries == 'none'):
             self.symmetries = ()
-        elif (isinstance(self.symmetries, tuple)):
+        elif (isinstance(self.symmetries, (tuple, list))):
             for sym in self.symmetries:
                 if (sym not in bz.KNOWN_SYMMETRIES):
-                    NotImplementedError(f'Symmetry {self.symmetries} is not yet implemented.')
+                    raise NotImplementedError(f'Symmetry {self.symmetries} is not yet implemented.')
         else:
             raise NotImplementedError(f'Symmetry {self.symmetries} is not yet implemented.')
 
-- 
2.43.0


From d07c101a224b8fcd5b30c6da82ac7552033349a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:31 +0000
Subject: [PATCH 26/69] fix: niv_vert of the optics section is ignored

---
 src/dga/config.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index 94959a7..52cf380 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -474,7 +474,11 @@ class OpticsConfig(OutputConfig):
         #               f' must be smaller than the number of fermionic frequencies ' \
         #               f'available in the Greens function.  {d_cfg.box.niv_asympt}'
         #     assert self.niv_bubble < d_cfg.box.niv_asympt, message
-        self.niv_vert = d_cfg.box.niv_core - self.niw_cond  # set remaining frequencies for (v-w)
+        if (self.niv_vert == -1):
+            self.niv_vert = d_cfg.box.niv_core - self.niw_cond  # set remaining frequencies for (v-w)
+        else:
+            assert self.niv_vert <= d_cfg.box.niv_core - self.niw_cond, 'Number of fermionic frequencies for the vertex must ' \
+                                                                        'be smaller or equal to niv_core - niw_cond.'
 
         # set the niw_bubble if not set before:
         if (self.niw_bubble == -1):
-- 
2.43.0


From 9820df99e2de58c738ea9421280f35631a12a02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:31 +0000
Subject: [PATCH 27/69] fix: arrays with a single element come back as numbers
 from load_data

---
 src/dga/config.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index 52cf380..fe41b89 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -137,10 +137,9 @@ class OutputConfig(ConfigBase):
         np.save(self.output_path + '/' + name + '.npy', mat, allow_pickle=True)
 
     def load_data(self, name):
-        try:
-            data = np.load(self.output_path + '/' + name + '.npy', allow_pickle=True).item()
-        except:
-            data = np.load(self.output_path + '/' + name + '.npy', allow_pickle=True)
+        data = np.load(self.output_path + '/' + name + '.npy', allow_pickle=True)
+        if (data.ndim == 0):
+            return data.item()  # objects (e.g. dictionaries) and numbers are saved as zero-dimensional arrays
         return data
 
     def clean_data(self, name):
-- 
2.43.0


From 3fcfb8181884a6e75a99cc1718269446d5b2ffec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:32 +0000
Subject: [PATCH 28/69] fix: numbers and sections of the config file are lost
 in the saved settings

---
 src/dga/config.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index fe41b89..7a8e865 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -90,15 +90,19 @@ class ConfigBase():
         for key, val in obj.__dict__.items():
             if key.startswith("_"):
                 continue
-            element = []
-            if isinstance(val, list):
-                for item in val:
-                    element.append(self.as_dict(item))
-            else:
-                element = self.as_dict(val)
-            result[key] = element
+            result[key] = self._value_as_dict(val)
         return result
 
+    def _value_as_dict(self, val):
+        ''' Numbers, strings, lists and dictionaries are kept (the ones from a config file have attributes of their own). '''
+        if val is None or isinstance(val, (str, int, float)):
+            return val
+        if isinstance(val, dict):
+            return {key: self._value_as_dict(item) for key, item in val.items()}
+        if isinstance(val, list):
+            return [self._value_as_dict(item) for item in val]
+        return self.as_dict(val)
+
     def set(self, obj):
         if (type(obj) == dict):
             self.update_dict(**obj)
-- 
2.43.0


From 26dbd3f005c1cfb53a0139d0588c5d384ee9b262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:34 +0000
Subject: [PATCH 29/69] fix: nwr, wmax and mesh_type are ignored for the local
 analytic continuation

---
 src/dga/config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dga/config.py b/src/dga/config.py
index 7a8e865..4e5d75b 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -349,6 +349,7 @@ class MaxEntConfig(OutputConfig):
         # Flags what continuation to perform:
         self.bw_range_loc = np.array([0.001, 0.01, 0.05, 0.1, 0.15, 0.2, 0.25, 0.35, 0.5, 0.75, 1])
         self.update_dict(**config_dict)
+        self.mesh_type = config_dict.get('mesh_type', self.mesh_type)  # (re)build the mesh with the settings of config_dict
 
     @property
     def mesh_type(self):
-- 
2.43.0


From be11567334578415b9ea7cd8c6fc053e21d35914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 30/69] fix: the continuation of a susceptibility fails when
 its highest frequency is not positive

---
 src/dga/analytic_continuation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/analytic_continuation.py b/src/dga/analytic_continuation.py
index 676f088..3f03cfd 100644
--- a/src/dga/analytic_continuation.py
+++ b/src/dga/analytic_continuation.py
@@ -318,7 +318,7 @@ class MaxEnt():
     def cont_single_ind(self, mat):
         mat_plus = self.cut_matrix(mat)
         im_axis = self.get_im_freq()
-        model = self.get_model(mat)
+        model = self.get_model(mat_plus)
         error_s = np.ones_like(im_axis,dtype=float) * self.err
 
         problem = cont.AnalyticContinuationProblem(im_axis=im_axis, re_axis=self.w, im_data=mat_plus,
-- 
2.43.0


From 1f332817b3757178ca6a2f28df0366b4f07b5d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:45 +0000
Subject: [PATCH 31/69] fix: a failed continuation garbles the gathered results
 of several processes

---
 src/dga/analytic_continuation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dga/analytic_continuation.py b/src/dga/analytic_continuation.py
index 3f03cfd..c9a1c8b 100644
--- a/src/dga/analytic_continuation.py
+++ b/src/dga/analytic_continuation.py
@@ -345,7 +345,8 @@ class MaxEnt():
                 cont_list.append(self.cont_single_ind(mat))
             except:
                 print('Error in analytic continuation. Setting result to 0.')
-                cont_list.append(np.zeros_like(self.w))  # make sure the code does not hang up when ana_cont fails for one index
+                dtype = complex if self.kernel_mode == 'freq_fermionic' else mat.dtype  # same type as the successful ones
+                cont_list.append(np.zeros_like(self.w, dtype=dtype))  # make sure the code does not hang up when ana_cont fails for one index
         return np.array(cont_list)
 
 
-- 
2.43.0


From f237f9c947ce2d426f30cde949c86d1e86ceaddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:57 +0000
Subject: [PATCH 32/69] fix: a short data set reduces the fit range of all
 later continuations

---
 src/dga/analytic_continuation.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/dga/analytic_continuation.py b/src/dga/analytic_continuation.py
index c9a1c8b..04ea627 100644
--- a/src/dga/analytic_continuation.py
+++ b/src/dga/analytic_continuation.py
@@ -282,24 +282,27 @@ class MaxEnt():
         ''' Set the real-frequency mesh. '''
         self.w = get_w_mesh(self.mesh_type, self.wmin, self.wmax, self.nwr, self.cut)
 
-    def get_im_freq(self):
+    def get_im_freq(self, n_fit=None):
+        if n_fit is None: n_fit = self.n_fit
         if self.kernel_mode == 'freq_fermionic':
-            return mf.vn(self.beta, self.n_fit, pos=True)
+            return mf.vn(self.beta, n_fit, pos=True)
         elif self.kernel_mode == 'freq_bosonic':
-            return mf.wn(self.beta, self.n_fit, pos=True)
+            return mf.wn(self.beta, n_fit, pos=True)
         else:
             raise ValueError(f'Unknown kernel mode: {self.kernel_mode}.')
 
+    def get_n_fit(self, mat):
+        ''' n_fit, or the number of frequencies available in mat if that is smaller '''
+        return min(self.n_fit, np.size(mat) // 2)
+
     def cut_matrix(self, mat):
         niv_mat = np.size(mat) // 2
-
-        if self.n_fit > niv_mat:
-            self.n_fit = niv_mat
+        n_fit = self.get_n_fit(mat)
 
         if self.kernel_mode == 'freq_fermionic':
-            return mat[niv_mat:niv_mat + self.n_fit]
+            return mat[niv_mat:niv_mat + n_fit]
         elif self.kernel_mode == 'freq_bosonic':
-            return mat[niv_mat:niv_mat + self.n_fit + 1]
+            return mat[niv_mat:niv_mat + n_fit + 1]
         else:
             raise ValueError(f'Unknown kernel mode: {self.kernel_mode}.')
 
@@ -317,7 +320,7 @@ class MaxEnt():
 
     def cont_single_ind(self, mat):
         mat_plus = self.cut_matrix(mat)
-        im_axis = self.get_im_freq()
+        im_axis = self.get_im_freq(self.get_n_fit(mat))
         model = self.get_model(mat_plus)
         error_s = np.ones_like(im_axis,dtype=float) * self.err
 
-- 
2.43.0


From 88985bcfb61ddb049d4bee84507c07e78f98d58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:08 +0000
Subject: [PATCH 33/69] fix: the local continuation crashes if fewer than n_fit
 frequencies are available

---
 src/dga/analytic_continuation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dga/analytic_continuation.py b/src/dga/analytic_continuation.py
index 04ea627..2556c1f 100644
--- a/src/dga/analytic_continuation.py
+++ b/src/dga/analytic_continuation.py
@@ -410,6 +410,7 @@ def max_ent_loc(mat, me_conf: config.MaxEntConfig, bw):
 def max_ent(mat=None, v_real=None, beta=None, n_fit=60, alpha_det_method='historic', err=2e-6, use_preblur=False, bw=None,
             optimizer='newton', return_chi2=False):
     niv_mat = np.size(mat) // 2
+    n_fit = min(n_fit, niv_mat)
     mat_plus = mat[niv_mat:niv_mat + n_fit]
     iv_plus = 1j * mf.vn(beta, n_fit, pos=True)
     problem = cont.AnalyticContinuationProblem(im_axis=iv_plus.imag, re_axis=v_real, im_data=mat_plus,
-- 
2.43.0


From 55d8b4cdcba795548620cd36552520ec7449ef86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:22 +0000
Subject: [PATCH 34/69] fix: a self-energy with fewer than 20 frequencies
 cannot be used for a Green's function

---
 src/dga/two_point.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/two_point.py b/src/dga/two_point.py
index bf31678..f03bedd 100644
--- a/src/dga/two_point.py
+++ b/src/dga/two_point.py
@@ -146,7 +146,7 @@ class SelfEnergy():
         ind_imag = np.argmax(is_imag) if np.any(is_imag) else self.niv
         niv_core = max(ind_real, ind_imag)
         if niv_core < self.niv_core_min:
-            return self.niv_core_min
+            return min(self.niv_core_min, self.niv)
         else:
             return niv_core
 
-- 
2.43.0


From c770f1ed951332621c7038802984881d4780b059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:48 +0000
Subject: [PATCH 35/69] fix: the continuation does not know box sizes that were
 inferred by the run

---
 src/dga/dga_max_ent.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dga/dga_max_ent.py b/src/dga/dga_max_ent.py
index 1cf8262..45c86b2 100644
--- a/src/dga/dga_max_ent.py
+++ b/src/dga/dga_max_ent.py
@@ -15,6 +15,7 @@ import matplotlib
 from dga import config
 from dga import loggers
 from dga import dga_io
+from dga import local_four_point as lfp
 from dga import two_point as twop
 from dga import analytic_continuation as a_cont
 from dga import brillouin_zone as bz
@@ -50,6 +51,7 @@ def main(path='./', comm=None):
     ek = d_cfg.lattice.hr.get_ek(d_cfg.lattice.k_grid)
     d_cfg.output_path = path
     d_cfg.set_system_parameter(dmft_input)
+    d_cfg.box.set_from_lfp(lfp.get_g2_from_dmft_input(dmft_input, channel='dens'))  # sizes not set in the config file
 
     # define k-path objects that might be used later:
     bz_kpath_string_list = ['Gamma-X-M2-Gamma','Gamma-Y-M2-Gamma','Gamma-X-M-Gamma','Gamma-Y-M-Gamma','Gamma-X-M-Y-Gamma']
-- 
2.43.0


From bdddaf496ff181bd49354fd9e2cf30a23a5b546d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:03 +0000
Subject: [PATCH 36/69] fix: high-frequency completion of the bubble is wrong
 for a dispersion with non-zero mean

---
 src/dga/bubble.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/dga/bubble.py b/src/dga/bubble.py
index 1b89638..ec1931c 100644
--- a/src/dga/bubble.py
+++ b/src/dga/bubble.py
@@ -209,15 +209,17 @@ class BubbleGenerator():
             [fac2] = eV^2
             [fac3] = eV^2
         '''
-        fac1 = self.mu - self.smom0
-        fac2 = (self.mu - self.smom0) ** 2 + self.ek_mom2 - self.smom1
-        fac3 = (self.mu - self.smom0) ** 2 + self.ek_mom1 ** 2  # ek_mom1 is zero
+        eps = self.mu - self.smom0 - self.ek_mom1
+        fac1 = eps
+        fac2 = eps ** 2 + self.ek_mom2 - self.ek_mom1 ** 2 - self.smom1
+        fac3 = eps ** 2
         return fac1, fac2, fac3
 
     def get_asympt_prefactors_q(self, q_list):
-        fac1 = self.mu - self.smom0
-        fac2 = (self.mu - self.smom0) ** 2 + self.ek_mom2 - self.smom1
-        fac3 = (self.mu - self.smom0) ** 2 + self.get_ek_ekpq(q_list)
+        eps = self.mu - self.smom0 - self.ek_mom1
+        fac1 = eps
+        fac2 = eps ** 2 + self.ek_mom2 - self.ek_mom1 ** 2 - self.smom1
+        fac3 = eps ** 2 + self.get_ek_ekpq(q_list) - self.ek_mom1 ** 2
         return fac1, fac2, fac3
 
     def get_ek_ekpq(self, q_list):
-- 
2.43.0


From 1ab696256a963915eb22fbd5a0d5566dc9ffb836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:21 +0000
Subject: [PATCH 37/69] fix: the full fermionic frequency range of the box
 sizes cannot be evaluated

---
 src/dga/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index 4e5d75b..01794fb 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -181,7 +181,7 @@ class BoxSizes(ConfigBase):
 
     @property
     def vn_full(self):
-        return mf.vn(n=self.niv_full)
+        return mf.vn(self.niv_full)
 
     @property
     def niv_pp(self):
-- 
2.43.0


From 7b2ee91827ca88412154d9c0a09ff09492b71d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:38 +0000
Subject: [PATCH 38/69] fix: one-frequency symmetrisation looks for a dataset
 that does not exist

---
 src/dga/symmetrize.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dga/symmetrize.py b/src/dga/symmetrize.py
index 00ea7ed..e33226d 100644
--- a/src/dga/symmetrize.py
+++ b/src/dga/symmetrize.py
@@ -273,15 +273,15 @@ def main(conf):
     copyfile(conf['infile'],conf['outfile'])
     f2=h5py.File(conf['outfile'],'r+')
     for ineq in range(conf['nineq']):
-      f2['dmft-last/ineq-{:03}/giw_unsymmetrized'.format(ineq+1)] = f2['dmft-last/ineq-{:03}/giwk_obj'.format(ineq+1)]
-      del f2['dmft-last/ineq-{:03}/giwk_obj'.format(ineq+1)]
-      f2['dmft-last/ineq-{:03}/giwk_obj/value'.format(ineq+1)] = np.zeros_like(f2['dmft-last/ineq-{:03}/giw_unsymmetrized/value'.format(ineq+1)], dtype=np.complex128)
+      f2['dmft-last/ineq-{:03}/giw_unsymmetrized'.format(ineq+1)] = f2['dmft-last/ineq-{:03}/giw'.format(ineq+1)]
+      del f2['dmft-last/ineq-{:03}/giw'.format(ineq+1)]
+      f2['dmft-last/ineq-{:03}/giw/value'.format(ineq+1)] = np.zeros_like(f2['dmft-last/ineq-{:03}/giw_unsymmetrized/value'.format(ineq+1)], dtype=np.complex128)
       f2['dmft-last/ineq-{:03}/siw_unsymmetrized'.format(ineq+1)] = f2['dmft-last/ineq-{:03}/siw'.format(ineq+1)]
       del f2['dmft-last/ineq-{:03}/siw'.format(ineq+1)]
       f2['dmft-last/ineq-{:03}/siw/value'.format(ineq+1)] = np.zeros_like(f2['dmft-last/ineq-{:03}/siw_unsymmetrized/value'.format(ineq+1)], dtype=np.complex128)
       for band in range(conf['Nbands'][ineq]):
         for symband in conf['sym'][ineq][band]:
-          f2['dmft-last/ineq-{:03}/giwk_obj/value'.format(ineq+1)][band,:,:] += \
+          f2['dmft-last/ineq-{:03}/giw/value'.format(ineq+1)][band,:,:] += \
             np.mean(f2['dmft-last/ineq-{:03}/giw_unsymmetrized/value'.format(ineq+1)][symband-1,:,:]/float(len(conf['sym'][ineq][band])), axis=0)
           f2['dmft-last/ineq-{:03}/siw/value'.format(ineq+1)][band,:,:] += \
             np.mean(f2['dmft-last/ineq-{:03}/siw_unsymmetrized/value'.format(ineq+1)][symband-1,:,:]/float(len(conf['sym'][ineq][band])), axis=0)
-- 
2.43.0


From 1db850a498770d6338fca4084ec9aa4ab88b62c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:09 +0000
Subject: [PATCH 39/69] fix: local continuation with an integer inverse
 temperature uses wrong frequencies

---
 src/dga/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index 01794fb..a2904e9 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -338,7 +338,7 @@ class MaxEntConfig(OutputConfig):
         self.wmax = 15  # frequency range on the real axis
         self.use_preblur = True  # whether o not to use the pre-blur feature
         self.err = 1e-3  # Error for the analytical continuation
-        self.beta = beta  # Inverse Temperature
+        self.beta = float(beta)  # Inverse Temperature; an integer would be taken for a number of frequencies by mf.vn()
         self.alpha_det_method = 'chi2kink'  # alpha determination method
         self.optimizer = 'newton'  # alpha determination method
         self.mesh_type = 'tan'  # mesh type
-- 
2.43.0


From c0a2b5271526c34c81fb4fdbe8ac5e7090c75376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:39 +0000
Subject: [PATCH 40/69] fix: symmetrisation of another worm group looks for its
 size in worm-last

---
 src/dga/symmetrize.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dga/symmetrize.py b/src/dga/symmetrize.py
index e33226d..62cabff 100644
--- a/src/dga/symmetrize.py
+++ b/src/dga/symmetrize.py
@@ -120,20 +120,20 @@ def check_sym(**kwargs):
           print('orbital symmetry not consistent!')
           sys.exit()
 
-def get_fbox(infile=None,target=None,**kwargs):
+def get_fbox(infile=None,target=None,worm_group='worm-last',**kwargs):
   conf = kwargs['conf']
   f=h5py.File(infile,'r')
   if target=='1freq_b':
-    n2iwb=f['worm-last/ineq-001/p2iw-worm/00001/value'].shape[0]
+    n2iwb=f['{}/ineq-001/p2iw-worm/00001/value'.format(worm_group)].shape[0]
     print(n2iwb)
     conf['n2iwb']=n2iwb//2
   elif target=='2freq':
-    n3iwf,n3iwb = f['worm-last/ineq-001/p3iw-worm/00001/value'].shape
+    n3iwf,n3iwb = f['{}/ineq-001/p3iw-worm/00001/value'.format(worm_group)].shape
     conf['n3iwf'],conf['n3iwb'] = n3iwf//2,n3iwb//2
     n3iwf,n3iwb=conf['n3iwf'],conf['n3iwb']
   elif target=='3freq':
     # new worm format -- f f b
-    _,n4iwf,n4iwb = f['worm-last/ineq-001/g4iw-worm/00001/value'].shape # always here
+    _,n4iwf,n4iwb = f['{}/ineq-001/g4iw-worm/00001/value'.format(worm_group)].shape # always here
     conf['n4iwf']=n4iwf//2
     conf['n4iwb']=n4iwb//2
     n4iwf,n4iwb=conf['n4iwf'],conf['n4iwb']
-- 
2.43.0


From dc0c876f25825737e1c575cb14f5b45fdc3302e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:12 +0000
Subject: [PATCH 41/69] fix: real-frequency conductivity is wrong on a mesh
 that is not linear and fails for an even number of points

---
 src/dga/optics.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/dga/optics.py b/src/dga/optics.py
index 33717b8..343aed3 100644
--- a/src/dga/optics.py
+++ b/src/dga/optics.py
@@ -59,21 +59,20 @@ def vec_get_chijj_bubble_realf(gwk_obj: twop.RealFrequencyGF, hr: wannier.Wannie
     lv_b = hr.get_light_vertex(k_grid, der=der_b)
     w_0_ind = np.argmin(np.abs(gwk_obj.w))
     w_mbub_ind = np.argmin(np.abs(gwk_obj.w - w_max_bub))
-    w_int_ind = len(gwk_obj.w) - w_mbub_ind
-    nu = w_0_ind + w_int_ind
-    nl = w_0_ind - w_int_ind + len(gwk_obj.w) % 2
+    w_mbub = gwk_obj.w[w_mbub_ind]
+    # v-range for which v+w and v-w are on the mesh:
+    ind_int = (gwk_obj.w >= gwk_obj.w[0] + w_mbub) & (gwk_obj.w <= gwk_obj.w[-1] - w_mbub)
     lv2 = lv_a * lv_b
-    awk = gwk_obj.awk()[..., nl:nu]
-    w_int = gwk_obj.w[nl:nu]
+    awk = gwk_obj.awk()[..., ind_int]
+    w_int = gwk_obj.w[ind_int]
     nf = fermi_function(w_int, beta)[None, None, None, :]
     w_bub = gwk_obj.w[w_0_ind + 1:w_mbub_ind]
+    gwk_interp = interp1d(gwk_obj.w, gwk_obj.gwk(), axis=-1, assume_sorted=True)  # the mesh is not necessarily equidistant
 
-    def get_chijj_bubble_realf_iw(i):
-        return -2 * np.mean(
-            lv2 * np.trapz(nf * awk * (gwk_obj.gwk()[..., nl + i:nu + i] + np.conj(gwk_obj.gwk())[..., nl - i:nu - i])
-                           , w_int, axis=-1))
+    def get_chijj_bubble_realf_iw(w):
+        return -2 * np.mean(lv2 * np.trapz(nf * awk * (gwk_interp(w_int + w) + np.conj(gwk_interp(w_int - w))), w_int, axis=-1))
 
-    chi_jj = np.array([get_chijj_bubble_realf_iw(i + 1) for i, _ in enumerate(w_bub)])
+    chi_jj = np.array([get_chijj_bubble_realf_iw(w) for w in w_bub])
     return chi_jj, w_bub
 
 
-- 
2.43.0


From f43243c3967643f60ab6e9273a53f21675b6de9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:49 +0000
Subject: [PATCH 42/69] fix: real-frequency Green's function does not hold the
 given filling when the search ends in a local minimum

---
 src/dga/two_point.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/dga/two_point.py b/src/dga/two_point.py
index f03bedd..0ca3225 100644
--- a/src/dga/two_point.py
+++ b/src/dga/two_point.py
@@ -555,8 +555,16 @@ def opt_func(mu, n, swk, w, ek, verbose=False):
     return (fill_current - n) ** 2
 
 
-def adjust_mu_real_f(mu0, n_target, swk, w, ek, verbose=False):
+def adjust_mu_real_f(mu0, n_target, swk, w, ek, verbose=False, tol=1e-3):
     fit = opt.minimize(opt_func, x0=mu0, args=(n_target, swk, w, ek, verbose))
+    if fit.fun > tol ** 2:  # stuck in a local minimum: look for the first crossing of the target filling instead
+        def delta(mu):
+            return get_filling_real_f(w, get_gwk(w, swk, ek, mu)) - n_target
+
+        mus = np.linspace(w[0], w[-1], 101)
+        above = np.array([delta(mu) for mu in mus]) > 0
+        ind = np.argmax(above)
+        if ind > 0: return np.array([opt.brentq(delta, mus[ind - 1], mus[ind])])
     return fit.x
 
 
-- 
2.43.0


From 160b71a160371b53c6130fa3e0a9ac985c78f161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:54 +0000
Subject: [PATCH 43/69] fix: the MaxEnt solver leaves out one singular value of
 the kernel, which matters if there are few data

---
 src/ana_cont/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ana_cont/solvers.py b/src/ana_cont/solvers.py
index 89e4978..d64b6da 100644
--- a/src/ana_cont/solvers.py
+++ b/src/ana_cont/solvers.py
@@ -171,7 +171,7 @@ class MaxentSolverSVD(AnalyticContinuationSolver):
         # singular value decomposition of the kernel
         U, S, Vt = np.linalg.svd(self.kernel.real_matrix(), full_matrices=False)
 
-        self.n_sv = np.arange(min(self.nw, self.niw))[S > 1e-10][-1]  # number of singular values larger than 1e-10
+        self.n_sv = np.count_nonzero(S > 1e-10)  # number of singular values larger than 1e-10
 
         self.U_svd = np.array(U[:, :self.n_sv], dtype=np.float64, order='C')
         self.V_svd = np.array(Vt[:self.n_sv, :].T, dtype=np.float64, order='C')  # numpy.svd returns V.T
-- 
2.43.0


From 0eb9c275eb68a27c789c8e54c63b51a8312b3f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:04 +0000
Subject: [PATCH 44/69] fix: the back-transform of Bryan's averaged spectrum is
 blurred twice if preblur is used

---
 src/ana_cont/solvers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ana_cont/solvers.py b/src/ana_cont/solvers.py
index d64b6da..c4d6296 100644
--- a/src/ana_cont/solvers.py
+++ b/src/ana_cont/solvers.py
@@ -776,6 +776,7 @@ class MaxentSolverSVD(AnalyticContinuationSolver):
         alpharr = np.array([o.alpha for o in optarr])
         probarr = np.array([o.probability for o in optarr])
         specarr = np.array([o.A_opt for o in optarr])
+        backarr = np.array([o.backtransform for o in optarr])
         probarr /= -np.trapz(probarr, alpharr)  # normalize the probability distribution
         if interactive:
             fig = plt.figure()
@@ -786,8 +787,10 @@ class MaxentSolverSVD(AnalyticContinuationSolver):
         A_opt = -np.trapz(specarr * probarr[:, None], alpharr,
                           axis=0)  # need a "-" sign, because alpha goes from large to small.
 
+        backtransform = -np.trapz(backarr * probarr[:, None], alpharr, axis=0)
+
         sol = OptimizationResult(A_opt=A_opt,
-                                 backtransform=self.backtransform(A_opt))
+                                 backtransform=backtransform)
 
         return sol, optarr
 
-- 
2.43.0


From ce910d728605b017508976afab44956960d07f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:27 +0000
Subject: [PATCH 45/69] fix: the default model and the error of imaginary-time
 data are not rescaled with the data

---
 src/ana_cont/continuation.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/ana_cont/continuation.py b/src/ana_cont/continuation.py
index ec20c81..933c6fc 100644
--- a/src/ana_cont/continuation.py
+++ b/src/ana_cont/continuation.py
@@ -80,6 +80,18 @@ class AnalyticContinuationProblem(object):
             raise ValueError("Unsupported kernel_mode.")
 
 
+    def rescale_input(self, kwargs):
+        """For time kernels, scale the default model and the error like the axes and the data."""
+        kwargs = dict(kwargs)
+        if self.kernel_mode in ('time_bosonic', 'time_fermionic') and kwargs.get('model') is not None:
+            kwargs['model'] = kwargs['model'] / self.beta
+        if self.kernel_mode == 'time_bosonic':
+            if kwargs.get('stdev') is not None:
+                kwargs['stdev'] = kwargs['stdev'] * self.beta
+            if kwargs.get('cov') is not None:
+                kwargs['cov'] = kwargs['cov'] * self.beta ** 2
+        return kwargs
+
     def solve(self, method='', **kwargs):
         """ Interface function for solving the analytic continuation problem.
 
@@ -92,6 +104,7 @@ class AnalyticContinuationProblem(object):
         """
 
         if method == 'maxent_svd':
+            kwargs = self.rescale_input(kwargs)
             self.solver = solvers.MaxentSolverSVD(
                 self.im_axis, self.re_axis, self.im_data,
                 kernel_mode = self.kernel_mode, 
@@ -116,6 +129,7 @@ class AnalyticContinuationProblem(object):
     def partial_solution(self, method='', **kwargs):
         """Maxent optimization at a specific value of alpha."""
         if method == 'maxent_svd':
+            kwargs = self.rescale_input(kwargs)
             self.solver = solvers.MaxentSolverSVD(
                 self.im_axis, self.re_axis, self.im_data,
                 kernel_mode=self.kernel_mode,
-- 
2.43.0


From 9d23d03eef640cc9890c01cb0d7977266e4ebe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:09 +0000
Subject: [PATCH 46/69] fix: historic MaxEnt never ends if the data cannot be
 fitted within the error

---
 src/ana_cont/solvers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ana_cont/solvers.py b/src/ana_cont/solvers.py
index c4d6296..4f30fef 100644
--- a/src/ana_cont/solvers.py
+++ b/src/ana_cont/solvers.py
@@ -633,6 +633,8 @@ class MaxentSolverSVD(AnalyticContinuationSolver):
             optarr.append(o)
             alpha /= 10.
             conv = self.niw / o.chi2
+            if not np.isfinite(o.chi2) or alpha < 1e-20:  # no alpha is small enough
+                raise RuntimeError('The data cannot be fitted within the error. Increase the error.')
 
         if len(optarr) <= 1:
             raise RuntimeError('Failed to get a prediction for optimal alpha. '
-- 
2.43.0


From 30345ef60467d5c245fdef546ed78661dbf1e8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:55 +0000
Subject: [PATCH 47/69] fix: imaginary part of susceptibility data makes its
 continued spectrum complex or impossible

---
 src/dga/analytic_continuation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dga/analytic_continuation.py b/src/dga/analytic_continuation.py
index 2556c1f..864ce22 100644
--- a/src/dga/analytic_continuation.py
+++ b/src/dga/analytic_continuation.py
@@ -302,7 +302,7 @@ class MaxEnt():
         if self.kernel_mode == 'freq_fermionic':
             return mat[niv_mat:niv_mat + n_fit]
         elif self.kernel_mode == 'freq_bosonic':
-            return mat[niv_mat:niv_mat + n_fit + 1]
+            return mat[niv_mat:niv_mat + n_fit + 1].real  # the imaginary part cannot come from a real spectrum
         else:
             raise ValueError(f'Unknown kernel mode: {self.kernel_mode}.')
 
@@ -348,7 +348,7 @@ class MaxEnt():
                 cont_list.append(self.cont_single_ind(mat))
             except:
                 print('Error in analytic continuation. Setting result to 0.')
-                dtype = complex if self.kernel_mode == 'freq_fermionic' else mat.dtype  # same type as the successful ones
+                dtype = complex if self.kernel_mode == 'freq_fermionic' else float  # same type as the successful ones
                 cont_list.append(np.zeros_like(self.w, dtype=dtype))  # make sure the code does not hang up when ana_cont fails for one index
         return np.array(cont_list)
 
-- 
2.43.0


From b4d347cd117f01e0c2011fe4ca49b308d6d4acab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:25 +0000
Subject: [PATCH 48/69] fix: Pade routines use type names that current numpy
 has removed

---
 src/dga/pade_aux.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dga/pade_aux.py b/src/dga/pade_aux.py
index 94e419c..79a038c 100644
--- a/src/dga/pade_aux.py
+++ b/src/dga/pade_aux.py
@@ -161,7 +161,7 @@ class PadeSolver():
 
 def compute_coefficients(zi,ui):
   n=len(zi)
-  g=np.zeros((n,n),dtype=np.complex)
+  g=np.zeros((n,n),dtype=complex)
   g[:,0]=ui
   for i in range(n):
     for j in range(1,i+1):
@@ -265,7 +265,7 @@ def padeMatrix(z, f, N, verbose=False):
     M = len(z)
     r = N // 2
     y = f * z ** r
-    A = np.ones((M, N), dtype=np.complex)
+    A = np.ones((M, N), dtype=complex)
     for i in range(M):
         A[i, :r] = z[i] ** (np.arange(r))
         A[i, r:] = -f[i] * z[i] ** (np.arange(r))
@@ -554,7 +554,7 @@ def pade(zin, fin, zout):
                 d[i] = np.sum(delta[:i, i]) + np.sum(delta[i, i + 1:])
             # calculate if to include or reject continuations based on two criteria:
             c1 = d <= c1v * np.mean(d)
-            c2 = np.zeros(len(d), dtype=np.bool)
+            c2 = np.zeros(len(d), dtype=bool)
             ind = np.argsort(d)[:int(c2v * len(d))]  # indices to 51% lowest distances
             c2[ind] = True
             mask = c1 & c2  # continuations to include
-- 
2.43.0


From 2cb61b8eccb517e6c4ab813b6a92c51f9d6941e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:43 +0000
Subject: [PATCH 49/69] fix: maps of continued susceptibilities have kx and ky
 exchanged

---
 src/dga/plotting.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/dga/plotting.py b/src/dga/plotting.py
index a20bea8..a451007 100644
--- a/src/dga/plotting.py
+++ b/src/dga/plotting.py
@@ -478,21 +478,21 @@ def plot_cont_fs_no_shift(output_path=None, name='', mat=None, v_real=None, k_gr
     gk_real = np.squeeze(mat_fs.real)
     v0 = np.argmin(np.abs(v_real))
     qdp = np.squeeze((1. / mat)[:, :, 0, v0].real)
-    im = ax[0].imshow(awk_fs, cmap='RdBu_r', extent=bz.get_extent(kgrid=k_grid), origin='lower')
+    im = ax[0].imshow(awk_fs.T, cmap='RdBu_r', extent=bz.get_extent(kgrid=k_grid), origin='lower')
     insert_colorbar(ax=ax[0], im=im)
     ax[0].set_title('$-1/pi \Im (k,\omega={})$'.format(w_plot))
     norm = MidpointNormalize(midpoint=0, vmin=gk_real.min(), vmax=gk_real.max())
-    im = ax[1].imshow(gk_real, cmap='RdBu', extent=bz.get_extent(kgrid=k_grid), norm=norm, origin='lower')
+    im = ax[1].imshow(gk_real.T, cmap='RdBu', extent=bz.get_extent(kgrid=k_grid), norm=norm, origin='lower')
     insert_colorbar(ax=ax[1], im=im)
     ax[1].set_title('$\Re (k,\omega={})$'.format(w_plot))
     norm = MidpointNormalize(midpoint=0, vmin=qdp.min(), vmax=qdp.max())
-    im = ax[2].imshow(qdp, cmap='RdBu', extent=bz.get_extent(kgrid=k_grid), norm=norm, origin='lower')
+    im = ax[2].imshow(qdp.T, cmap='RdBu', extent=bz.get_extent(kgrid=k_grid), norm=norm, origin='lower')
     insert_colorbar(ax=ax[2], im=im)
     ax[2].set_title('QPD $(1/(\Re (k, \omega = {})$'.format(w_plot))
 
-    add_afzb(ax=ax[0], kx=k_grid.kx, ky=k_grid.kx, lw=lw)
-    add_afzb(ax=ax[1], kx=k_grid.kx, ky=k_grid.kx, lw=lw)
-    add_afzb(ax=ax[2], kx=k_grid.kx, ky=k_grid.kx, lw=lw)
+    add_afzb(ax=ax[0], kx=k_grid.kx, ky=k_grid.ky, lw=lw)
+    add_afzb(ax=ax[1], kx=k_grid.kx, ky=k_grid.ky, lw=lw)
+    add_afzb(ax=ax[2], kx=k_grid.kx, ky=k_grid.ky, lw=lw)
 
     plt.tight_layout()
     fig.suptitle(name)
-- 
2.43.0


From 6f65e9ac82e6ff403164e0c6490e7c244f6e406c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:43 +0000
Subject: [PATCH 50/69] fix: plot of three-point functions is transposed and
 fails

---
 src/dga/local_four_point.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dga/local_four_point.py b/src/dga/local_four_point.py
index fca306b..ac6843c 100644
--- a/src/dga/local_four_point.py
+++ b/src/dga/local_four_point.py
@@ -68,8 +68,8 @@ def plot_three_point_w_v(mat, do_save=True, pdir='./', name='NoName', cmap='RdBu
     axes = axes.flatten()
     vn = mf.vn(mat, axis=-1)  # pylint: disable=unexpected-keyword-arg
     wn = mf.wn(mat, axis=0)  # pylint: disable=unexpected-keyword-arg
-    im1 = axes[0].pcolormesh(wn, vn, mat.real, cmap=cmap)
-    im2 = axes[1].pcolormesh(wn, vn, mat.imag, cmap=cmap)
+    im1 = axes[0].pcolormesh(wn, vn, mat.real.T, cmap=cmap)
+    im2 = axes[1].pcolormesh(wn, vn, mat.imag.T, cmap=cmap)
     axes[0].set_title(r'$\Re$')
     axes[1].set_title(r'$\Im$')
     for ax in axes:
-- 
2.43.0


From b29628c94301b0fb6cafd66091093e71efbdb3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:43 +0000
Subject: [PATCH 51/69] fix: magnetic susceptibility along the k-path is saved
 as the density one

---
 src/dga/dga_max_ent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/dga_max_ent.py b/src/dga/dga_max_ent.py
index 45c86b2..47574aa 100644
--- a/src/dga/dga_max_ent.py
+++ b/src/dga/dga_max_ent.py
@@ -190,7 +190,7 @@ def main(path='./', comm=None):
                 a_cont.save_and_plot_cont_bosonic(cont, me_controller.w, d_cfg.lattice.q_grid, 'chi_magn', cont_path)
                 for k_path in k_path_list:
                     hlp.plot_chi_along_kpath(cont, me_controller.w, k_path,
-                                             pdir=cont_path, name=f'chi_dens_{k_path.path}')
+                                             pdir=cont_path, name=f'chi_magn_{k_path.path}')
             logger.log_cpu_time(task=' MaxEnt Chi-magn ')
 
     mpi_dist.delete_file()
-- 
2.43.0


From f319c6f43c7792f422dd0fbc5d1f90626adc40d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:43 +0000
Subject: [PATCH 52/69] fix: frequencies of the gap function are exchanged in
 the titles

---
 src/dga/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dga/plotting.py b/src/dga/plotting.py
index a451007..a81dbda 100644
--- a/src/dga/plotting.py
+++ b/src/dga/plotting.py
@@ -561,8 +561,8 @@ def plot_gap_function_kx_ky(mat, kx, ky, do_save=True, pdir='./', name='', cmap=
     axes = axes.flatten()
     im1 = axes[0].pcolormesh(kx, ky, mat[...,0].T.real, cmap=cmap)
     im2 = axes[1].pcolormesh(kx, ky, mat[...,1].T.real, cmap=cmap)
-    axes[0].set_title(r'$\nu_{n=0}$')
-    axes[1].set_title(r'$\nu_{n=-1}$')
+    axes[0].set_title(r'$\nu_{n=-1}$')
+    axes[1].set_title(r'$\nu_{n=0}$')
     for ax in axes:
         ax.set_xlabel(r'$k_x$')
         ax.set_ylabel(r'$k_y$')
-- 
2.43.0


From be84f992665a385c7b6e66c9b9edbc276a7ecf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:43 +0000
Subject: [PATCH 53/69] fix: polynomial fit cannot be plotted on
 three-dimensional lattices

---
 src/dga/plotting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dga/plotting.py b/src/dga/plotting.py
index a81dbda..9e73296 100644
--- a/src/dga/plotting.py
+++ b/src/dga/plotting.py
@@ -397,9 +397,9 @@ def plot_cont_edc_maps(v_real=None, gk_cont=None, k_grid=None, output_path=None,
 def plot_siwk_extrap(siwk_re_fs=None, siwk_im_fs=None, siwk_z=None, output_path='./', name='PolyFit', k_grid: bz.KGrid = None,
                      lw=1, verbose=False, do_save=True):
     fig, ax = plt.subplots(nrows=1, ncols=3, figsize=(16, 5))
-    siwk_re_fs = np.squeeze(siwk_re_fs)
-    siwk_im_fs = np.squeeze(siwk_im_fs)
-    siwk_z = np.squeeze(siwk_z)
+    siwk_re_fs = siwk_re_fs[:, :, 0]
+    siwk_im_fs = siwk_im_fs[:, :, 0]
+    siwk_z = siwk_z[:, :, 0]
 
     norm = MidpointNormalize(midpoint=0, vmin=siwk_re_fs.min(), vmax=siwk_re_fs.max())
     im = ax[0].pcolormesh(k_grid.kx_shift, k_grid.ky_shift, k_grid.shift_mat_by_pi(siwk_re_fs, axes=(0, 1)).T, cmap='RdBu_r',
-- 
2.43.0


From 7f603ca03a8eec723fcf3bb2c5692187f2714be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:01 +0000
Subject: [PATCH 54/69] fix: three-point objects cannot be plotted, one
 frequency is no map

---
 src/dga/local_four_point.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/dga/local_four_point.py b/src/dga/local_four_point.py
index ac6843c..4c408ac 100644
--- a/src/dga/local_four_point.py
+++ b/src/dga/local_four_point.py
@@ -195,9 +195,8 @@ class LocalThreePoint(LocalNPoint):
         raise NotImplementedError('Append shell not implemented for LocalThreePoint.')
 
     def plot(self, iwn=0, pdir='./', name='', do_save=True, niv=-1, verbose=False):
-        assert iwn in self.wn, 'omega index not in dataset.'
-        iwn_lin = self.wn_lin[self.wn == iwn][0]
-        data = mf.cut_v(self.mat[iwn_lin], niv_cut=niv, axes=(-1,))
+        assert self.is_full_w, 'Full wn range has to be ensured.'
+        data = mf.cut_v(self.mat, niv_cut=niv, axes=(-1,))
         plot_three_point_w_v(data, do_save=do_save, pdir=pdir, name=name + f'_niv{niv}', show=verbose)
 
 
-- 
2.43.0


From d40552547517b249201b6e95f8f8ef18bdbce14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:50 +0000
Subject: [PATCH 55/69] fix: frequency windows beyond the stored grid return
 misplaced data

---
 src/dga/matsubara_frequencies.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/dga/matsubara_frequencies.py b/src/dga/matsubara_frequencies.py
index 3b089a8..008c625 100644
--- a/src/dga/matsubara_frequencies.py
+++ b/src/dga/matsubara_frequencies.py
@@ -80,6 +80,7 @@ def wn_cen2lin(w, niw):
 
 def wn_slices_gen(mat=None, n_cut=None, w=None):
     n = mat.shape[-1] // 2
+    assert n_cut + np.max(np.abs(w), initial=0) <= n, 'Requested frequencies exceed the grid.'
     mat_grid = np.array([mat[..., n - n_cut - iwn:n + n_cut - iwn] for iwn in w])
     return mat_grid
 
@@ -87,6 +88,7 @@ def wn_slices_gen(mat=None, n_cut=None, w=None):
 def wn_slices_shell(mat, n_shell, n_core=0, w=None):
     ''' v must be the last axis of mat '''
     n = niv_from_mat(mat)  # mat.shape[-1] // 2
+    assert n_core + n_shell + np.max(np.abs(w), initial=0) <= n, 'Requested frequencies exceed the grid.'
     mat_grid = np.array([mat[..., n + n_core - iwn:n + n_core + n_shell - iwn] for iwn in w])
     mat_grid_m = np.array([mat[..., n - n_core - n_shell - iwn:n - n_core - iwn] for iwn in w])
     return np.concatenate((mat_grid_m, mat_grid), axis=-1)
@@ -98,6 +100,7 @@ def cut_iv_with_iw_shift_1d(mat, niv_cut=-1, iwn=0):
     niv = np.size(mat) // 2
     if niv_cut == -1:
         niv_cut = niv - np.abs(iwn)
+    assert niv_cut + np.abs(iwn) <= niv, 'Requested frequencies exceed the grid.'
     return mat[niv - niv_cut - iwn:niv + niv_cut - iwn]
 
 
@@ -112,7 +115,8 @@ def cut_iv_with_iw_shift(mat, niv_cut=-1, iwn=0, axes=(-1,)):
 def cut_v_1d_pos(arr=None, niv_cut=0, niv_min=0):
     assert np.size(np.shape(arr)) == 1, 'Array is not 1D.'
     niv = arr.shape[0] // 2
-    if niv_cut == -1: niv_cut = niv
+    if niv_cut == -1: niv_cut = niv - niv_min
+    assert niv_min + niv_cut <= niv, 'Requested frequencies exceed the grid.'
     return arr[niv + niv_min:niv + niv_min + niv_cut]
 
 
@@ -144,6 +148,7 @@ def cut_v_1d(arr=None, niv_cut=0):
     assert np.size(np.shape(arr)) == 1, 'Array is not 1D.'
     niv = arr.shape[0] // 2
     if niv_cut == -1: niv_cut = niv
+    assert niv_cut <= niv, 'Requested frequencies exceed the grid.'
     return arr[niv - niv_cut:niv + niv_cut]
 
 
@@ -166,6 +171,7 @@ def inv_cut_v_1d(arr=None, niv_core=0, niv_shell=-1):
     assert np.size(np.shape(arr)) == 1, 'Array is not 1D.'
     niv = arr.shape[0] // 2
     if niv_shell == -1: niv_shell = niv - niv_core
+    assert niv_core + niv_shell <= niv, 'Requested frequencies exceed the grid.'
     return np.concatenate((arr[niv - niv_shell - niv_core:niv - niv_core], arr[niv + niv_core:niv + niv_core + niv_shell]))
 
 
@@ -254,6 +260,7 @@ def cut_v_1d_wn(arr=None, niw_cut=0):
     '''
     assert np.size(np.shape(arr)) == 1, 'Array is not 1D.'
     niv = arr.shape[0] // 2
+    assert niw_cut <= niv, 'Requested frequencies exceed the grid.'
     return arr[niv - niw_cut:niv + niw_cut + 1]
 
 
@@ -341,6 +348,7 @@ def vn_centered_sum_wn(mat, beta, iwn=0, niv_sum=-1):
         return 1 / beta ** 2 * np.sum(mat, axis=(-2, -1))
     else:
         shift = iwn // 2
+        assert niv_sum - shift <= niv and niv_sum + shift <= niv, 'Requested frequencies exceed the grid.'
         return 1 / beta ** 2 * np.sum(
             mat[..., niv - niv_sum + shift:niv + niv_sum + shift, niv - niv_sum + shift:niv + niv_sum + shift], axis=(-2, -1))
 
@@ -359,6 +367,7 @@ def wn_sum(mat, beta, niw_sum=-1):
     if niw_sum == -1:
         return 1 / beta * np.sum(mat, axis=0)
     else:
+        assert niw_sum <= niw, 'Requested frequencies exceed the grid.'
         return 1 / beta * np.sum(mat[niw - niw_sum:niw + niw_sum + 1], axis=0)
 
 
-- 
2.43.0


From eea90f5444da1a4844bc56743d018fb5ec7b60a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:50 +0000
Subject: [PATCH 56/69] fix: momenta outside of [0, 2 pi) are mapped to the
 wrong mesh point

---
 src/dga/brillouin_zone.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/dga/brillouin_zone.py b/src/dga/brillouin_zone.py
index 96c0e05..2a5a458 100644
--- a/src/dga/brillouin_zone.py
+++ b/src/dga/brillouin_zone.py
@@ -48,6 +48,11 @@ def shift_mat_by_pi(mat, nk=None):
     return mat_shift
 
 
+def find_k_ind(k, k_val):
+    ''' Index of the momentum closest to k_val; momenta are equivalent up to multiples of 2*pi '''
+    return np.argmin(np.abs(np.exp(1j * (k - k_val)) - 1))
+
+
 def find_zeros(mat):
     ''' Finds the zero crossings of a 2D matrix.
         Not sure if this should be transfered to the Plotting module.
@@ -318,9 +323,9 @@ class KGrid():
 
     def find_q_ind(self, q=(0, 0, 0)):
         ind = []
-        ind.append(np.argmin(np.abs(self.kx - q[0])))
-        ind.append(np.argmin(np.abs(self.ky - q[1])))
-        ind.append(np.argmin(np.abs(self.kz - q[2])))
+        ind.append(find_k_ind(self.kx, q[0]))
+        ind.append(find_k_ind(self.ky, q[1]))
+        ind.append(find_k_ind(self.kz, q[2]))
         return ind
 
     def add_q_to_kgrid(self, q=(0, 0, 0)):
@@ -338,13 +343,13 @@ class KGrid():
         assert mat.shape[:3] == self.nk, 'mat has to be of shape [nkx,nky,nkz,...]'
 
         if k_slice_dim == 0:
-            k_ind = np.argmin(np.abs(self.kx - k_slice_val))
+            k_ind = find_k_ind(self.kx, k_slice_val)
             return mat[k_ind, :, :, ...]
         elif k_slice_dim == 1:
-            k_ind = np.argmin(np.abs(self.ky - k_slice_val))
+            k_ind = find_k_ind(self.ky, k_slice_val)
             return mat[:, k_ind, :, ...]
         else:
-            k_ind = np.argmin(np.abs(self.kz - k_slice_val))
+            k_ind = find_k_ind(self.kz, k_slice_val)
             return mat[:, :, k_ind, ...]
 
 
-- 
2.43.0


From 70d3af274d06d24023158026383392976af35cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:50 +0000
Subject: [PATCH 57/69] fix: zone-centred momenta of odd meshes are half a cell
 off

---
 src/dga/brillouin_zone.py | 8 ++++----
 src/dga/plotting.py       | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dga/brillouin_zone.py b/src/dga/brillouin_zone.py
index 2a5a458..73b4b75 100644
--- a/src/dga/brillouin_zone.py
+++ b/src/dga/brillouin_zone.py
@@ -36,7 +36,7 @@ def get_extent(kgrid=None):
 
 
 def get_extent_pi_shift(kgrid=None):
-    return [kgrid.kx[0] - np.pi, kgrid.kx[-1] - np.pi, kgrid.ky[0] - np.pi, kgrid.ky[-1] - np.pi]
+    return [kgrid.kx_shift[0], kgrid.kx_shift[-1], kgrid.ky_shift[0], kgrid.ky_shift[-1]]
 
 
 def shift_mat_by_pi(mat, nk=None):
@@ -177,15 +177,15 @@ class KGrid():
 
     @property
     def kx_shift(self):
-        return self.kx - np.pi
+        return self.kx - self.kx[self.nk[0] // 2]
 
     @property
     def ky_shift(self):
-        return self.ky - np.pi
+        return self.ky - self.ky[self.nk[1] // 2]
 
     @property
     def kz_shift(self):
-        return self.kz - np.pi
+        return self.kz - self.kz[self.nk[2] // 2]
 
     @property
     def grid(self):
diff --git a/src/dga/plotting.py b/src/dga/plotting.py
index 9e73296..3ad69a8 100644
--- a/src/dga/plotting.py
+++ b/src/dga/plotting.py
@@ -376,7 +376,7 @@ def plot_cont_edc_maps(v_real=None, gk_cont=None, k_grid=None, output_path=None,
         im = axes[i + 1].imshow(-1. / np.pi * gk_cont_shift.imag[cuts[i], :, 0, :].T, cmap='terrain', aspect='auto',
                                 origin='lower', extent=extent)
         insert_colorbar(ax=axes[i + 1], im=im)
-        axes[0].plot(k_grid.ky - np.pi, (k_grid.kx[cuts[i]] - np.pi) * np.ones((nk[1])), '--', color='orange')
+        axes[0].plot(k_grid.ky_shift, k_grid.kx_shift[cuts[i]] * np.ones((nk[1])), '--', color='orange')
         kx_line_ind = np.argmin(np.abs(ky_fs - k_grid.kx[cuts[i]]))
         axes[i + 1].vlines(-ky_fs[kx_line_ind], -wplot, wplot, 'k', ls='--')
 
-- 
2.43.0


From 8218e0a108db5b881942a670e6b839636163743a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:54 +0000
Subject: [PATCH 58/69] fix: continuation distributes fermionic and bosonic
 momenta over the same list

---
 src/dga/dga_max_ent.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/dga/dga_max_ent.py b/src/dga/dga_max_ent.py
index 47574aa..99cfcae 100644
--- a/src/dga/dga_max_ent.py
+++ b/src/dga/dga_max_ent.py
@@ -56,6 +56,7 @@ def main(path='./', comm=None):
     # define k-path objects that might be used later:
     bz_kpath_string_list = ['Gamma-X-M2-Gamma','Gamma-Y-M2-Gamma','Gamma-X-M-Gamma','Gamma-Y-M-Gamma','Gamma-X-M-Y-Gamma']
     k_path_list = [bz.KPath(d_cfg.lattice.k_grid.nk, bz_kpath_string) for bz_kpath_string in bz_kpath_string_list]
+    q_path_list = [bz.KPath(d_cfg.lattice.q_grid.nk, bz_kpath_string) for bz_kpath_string in bz_kpath_string_list]
 
     max_ent_config = conf_file['max_ent']
     me_conf = config.MaxEntConfig(1,dmft_input['beta'],max_ent_config)
@@ -83,8 +84,10 @@ def main(path='./', comm=None):
         logger.log_cpu_time(task=' MaxEnt local ')
 
     # Create a mpi distributor:
-    mpi_dist = mpi_aux.MpiDistributor(ntasks=d_cfg.lattice.q_grid.nk_irr, comm=comm,
+    mpi_dist = mpi_aux.MpiDistributor(ntasks=d_cfg.lattice.k_grid.nk_irr, comm=comm,
                                           name='MaxEntIrrk')
+    mpi_dist_q = mpi_aux.MpiDistributor(ntasks=d_cfg.lattice.q_grid.nk_irr, comm=comm,
+                                          name='MaxEntIrrq')
 
     # Continuation of the k-dependent self-energy:
     if 's_dga' in max_ent_config:
@@ -161,11 +164,11 @@ def main(path='./', comm=None):
             else:
                 mat = None
 
-            cont = a_cont.mpi_ana_cont(mat, me_controller, mpi_dist, 'chi_dens', logger = logger)
+            cont = a_cont.mpi_ana_cont(mat, me_controller, mpi_dist_q, 'chi_dens', logger = logger)
             if(comm.rank == 0):
                 cont = d_cfg.lattice.q_grid.map_irrk2fbz(cont)
                 a_cont.save_and_plot_cont_bosonic(cont, me_controller.w, d_cfg.lattice.q_grid, 'chi_dens', cont_path)
-                for k_path in k_path_list:
+                for k_path in q_path_list:
                     hlp.plot_chi_along_kpath(cont, me_controller.w, k_path,
                                                        pdir=cont_path, name=f'chi_dens_{k_path.path}')
             logger.log_cpu_time(task=' MaxEnt Chi-dens ')
@@ -184,16 +187,17 @@ def main(path='./', comm=None):
             else:
                 mat = None
 
-            cont = a_cont.mpi_ana_cont(mat, me_controller, mpi_dist, 'chi_magn', logger = logger)
+            cont = a_cont.mpi_ana_cont(mat, me_controller, mpi_dist_q, 'chi_magn', logger = logger)
             if(comm.rank == 0):
                 cont = d_cfg.lattice.q_grid.map_irrk2fbz(cont)
                 a_cont.save_and_plot_cont_bosonic(cont, me_controller.w, d_cfg.lattice.q_grid, 'chi_magn', cont_path)
-                for k_path in k_path_list:
+                for k_path in q_path_list:
                     hlp.plot_chi_along_kpath(cont, me_controller.w, k_path,
                                              pdir=cont_path, name=f'chi_magn_{k_path.path}')
             logger.log_cpu_time(task=' MaxEnt Chi-magn ')
 
     mpi_dist.delete_file()
+    mpi_dist_q.delete_file()
 
 
 
-- 
2.43.0


From ef74ce2e6682c36bb6dedd76ad29ad0c2fd64835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:54 +0000
Subject: [PATCH 59/69] fix: bosonic momenta of a coarser mesh are taken for
 the first corner of the fermionic mesh

---
 src/dga/config.py     |  8 +++++++-
 src/dga/dga_main.py   | 10 ++++++----
 src/dga/four_point.py |  8 ++++----
 src/dga/optics.py     | 18 ++++++++++--------
 4 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index a2904e9..78db4a6 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -235,6 +235,8 @@ class LatticeConfig(ConfigBase):
         # set k-grids:
         self.nk = tuple(self.nk)
         self.nq = tuple(self.nq)
+        if (any(nk % nq != 0 for nk, nq in zip(self.nk, self.nq))):
+            raise ValueError(f'The bosonic momenta (nq={self.nq}) must be contained in the fermionic mesh (nk={self.nk}).')
 
         self.k_grid = bz.KGrid(self.nk, self.symmetries)
         self.q_grid = bz.KGrid(self.nq, self.symmetries)
@@ -272,6 +274,10 @@ class LatticeConfig(ConfigBase):
     def nq_tot(self):
         return np.prod(self.nq)
 
+    def q_ind_on_k_grid(self, q_list):
+        ''' Indizes of the momenta q_list (indizes of the bosonic mesh) on the fermionic mesh '''
+        return np.asarray(q_list) * (np.array(self.nk) // np.array(self.nq))
+
     def set_hr(self):
         ''' Set the tight-binding hamiltonian.'''
         self.hr: wannier.WannierHr  # type declaration for nice autocompletes
@@ -570,7 +576,7 @@ class DgaConfig(OutputConfig):
             matplotlib.use('agg')  # non-gui backend. Particularly usefull for use on cluster.
 
         # Check that number of processes is not larger than number of points in the irreducible BZ:
-        if (comm is not None and comm.size > self.lattice.k_grid.nk_irr):
+        if (comm is not None and comm.size > min(self.lattice.k_grid.nk_irr, self.lattice.q_grid.nk_irr)):
             raise ValueError('Number of processes may not be larger than points in the irreducible BZ for distribution.')
 
     def build_box_sizes(self, conf_file):
diff --git a/src/dga/dga_main.py b/src/dga/dga_main.py
index 066a3e7..19c1911 100644
--- a/src/dga/dga_main.py
+++ b/src/dga/dga_main.py
@@ -112,7 +112,8 @@ def main():
                                              output_path=d_cfg.output_path,
                                              name='Q')
     comm.Barrier()
-    my_q_list = d_cfg.lattice.q_grid.get_irrq_list()[mpi_distributor.my_slice]
+    irrq_list = d_cfg.lattice.q_ind_on_k_grid(d_cfg.lattice.q_grid.get_irrq_list())
+    my_q_list = irrq_list[mpi_distributor.my_slice]
 
     # Build the different non-local Bubbles:
     gchi0_q_urange = bubble_gen.get_gchi0_q_list(d_cfg.box.niv_full, my_q_list)
@@ -163,7 +164,7 @@ def main():
         d_cfg.save_data(chi_lad_dens, 'chi_dens_lam')
         d_cfg.save_data(chi_lad_magn, 'chi_magn_lam')
         np.savetxt(d_cfg.output_path + '/lambda.txt', [[lambda_dens, lambda_magn]], header='dens magn', fmt='%.6f')
-        chi0q_asympt_correction = bubble_gen.get_asymptotic_correction_q(d_cfg.box.niv_full, d_cfg.lattice.q_grid.get_irrq_list())
+        chi0q_asympt_correction = bubble_gen.get_asymptotic_correction_q(d_cfg.box.niv_full, irrq_list)
         chi0q_asympt_correction = d_cfg.lattice.q_grid.map_irrk2fbz(chi0q_asympt_correction)
         chi_dens_uniform_static = chi_lad_dens[0, 0, 0, d_cfg.box.niw_core].real
         chi_dens_uniform_static += chi0q_asympt_correction[0, 0, 0, d_cfg.box.niw_core].real
@@ -211,7 +212,7 @@ def main():
         vrg_q_magn = d_cfg.lattice.q_grid.map_irrk2fbz(vrg_q_magn, shape='list')
 
     # Distribute the full fbz q-points to the different cores:
-    full_q_list = d_cfg.lattice.q_grid.get_q_list()
+    full_q_list = d_cfg.lattice.q_ind_on_k_grid(d_cfg.lattice.q_grid.get_q_list())
 
     # Create new mpi-distributor for the full fbz:
     mpi_dist_fbz = mpi_aux.MpiDistributor(ntasks=d_cfg.lattice.q_grid.nk_tot, comm=comm,
@@ -346,7 +347,8 @@ def main():
         d_cfg.logger.log_cpu_time(task=' Vertex distributed among ranks.')
         chijj_vert = optics.vec_get_chijj_vert(f_cond, giwk_dga, d_cfg.lattice.hr, d_cfg.lattice.k_grid,
                                                wn_vert=d_cfg.optics.wn_vert(), wn_cond=d_cfg.optics.wn_cond(pos=True),
-                                               q_list=my_full_q_list, der_a=d_cfg.optics.der_a, der_b=d_cfg.optics.der_b)
+                                               q_list=my_full_q_list, der_a=d_cfg.optics.der_a, der_b=d_cfg.optics.der_b,
+                                               nq_tot=d_cfg.lattice.nq_tot)
         chijj_vert = mpi_dist_fbz.allreduce(chijj_vert)  # collect results from ranks
         chijj_vert = mf.bosonic_full_nu_range(chijj_vert)
         if comm.rank == 0:
diff --git a/src/dga/four_point.py b/src/dga/four_point.py
index 154497c..faaf5a9 100644
--- a/src/dga/four_point.py
+++ b/src/dga/four_point.py
@@ -360,12 +360,12 @@ def build_vertex_fq(d_cfg: conf.DgaConfig, comm, chi_lad_magn, chi_lad_dens):
     gc.collect()
     niw = f_dens.shape[-3] // 2
     plotting.plot_kx_ky(f_dens[:, :, 0, niw, niv, niv],
-                        d_cfg.lattice.k_grid.kx,
-                        d_cfg.lattice.k_grid.ky, pdir=d_cfg.output_path, name='F_dens_niw0')
+                        d_cfg.lattice.q_grid.kx,
+                        d_cfg.lattice.q_grid.ky, pdir=d_cfg.output_path, name='F_dens_niw0')
 
     plotting.plot_kx_ky(f_magn[:, :, 0, niw, niv, niv],
-                        d_cfg.lattice.k_grid.kx,
-                        d_cfg.lattice.k_grid.ky, pdir=d_cfg.output_path, name='F_magn_niw0')
+                        d_cfg.lattice.q_grid.kx,
+                        d_cfg.lattice.q_grid.ky, pdir=d_cfg.output_path, name='F_magn_niw0')
     d_cfg.save_data(f_dens, 'F_dens')
     d_cfg.save_data(f_magn, 'F_magn')
     del f_dens, f_magn
diff --git a/src/dga/optics.py b/src/dga/optics.py
index 343aed3..5d05688 100644
--- a/src/dga/optics.py
+++ b/src/dga/optics.py
@@ -140,10 +140,12 @@ def get_chijj_vertex(f_cond, lv_a, lv_b, giwk, beta, iwn, wpn, q_list, nk_tot):
 
 
 def vec_get_chijj_vert(f_cond, giwk_gen: twop.GreensFunction, hr: wannier.WannierHr, k_grid: bz.KGrid, wn_vert, wn_cond, q_list,
-                       der_a=0, der_b=0):
+                       der_a=0, der_b=0, nq_tot=None):
     '''
         f_cond -> [q,wp,w,v]
+        q_list: indizes of the momenta on the k_grid; nq_tot: number of momenta in the full list (default: all of the k_grid)
     '''
+    if (nq_tot is None): nq_tot = k_grid.nk_tot
     assert np.shape(wn_vert)[0] == np.shape(f_cond)[1], 'Number of internal bosonic frequencies in ' \
                                                         'f_cond must be equal to wn_vert'
     assert np.shape(wn_cond)[0] == np.shape(f_cond)[2], 'Number of transformed bosonic frequencies in ' \
@@ -153,7 +155,7 @@ def vec_get_chijj_vert(f_cond, giwk_gen: twop.GreensFunction, hr: wannier.Wannie
     lv_a = hr.get_light_vertex(k_grid, der=der_a)
     lv_b = hr.get_light_vertex(k_grid, der=der_b)
     beta = giwk_gen.beta
-    sigma_vert = np.array([get_chijj_vertex(f_cond[:, :, i, :], lv_a, lv_b, giwk, beta, iwn, wn_vert, q_list, k_grid.nk_tot)
+    sigma_vert = np.array([get_chijj_vertex(f_cond[:, :, i, :], lv_a, lv_b, giwk, beta, iwn, wn_vert, q_list, nq_tot)
                            for i, iwn in enumerate(wn_cond)])
     return sigma_vert
 
@@ -181,20 +183,20 @@ def build_vertex_for_optical_conductivity(d_cfg: conf.DgaConfig, comm, chi_lad_m
     gc.collect()
     niw = f_dens.shape[-3] // 2
     plotting.plot_kx_ky(f_dens[:, :, 0, niw, 0, d_cfg.optics.niv_vert],
-                        d_cfg.lattice.k_grid.kx,
-                        d_cfg.lattice.k_grid.ky, pdir=d_cfg.optics.output_path, name='F_dens_niw0')
+                        d_cfg.lattice.q_grid.kx,
+                        d_cfg.lattice.q_grid.ky, pdir=d_cfg.optics.output_path, name='F_dens_niw0')
 
     plotting.plot_kx_ky(f_magn[:, :, 0, niw, 0, d_cfg.optics.niv_vert],
-                        d_cfg.lattice.k_grid.kx,
-                        d_cfg.lattice.k_grid.ky, pdir=d_cfg.optics.output_path, name='F_magn_niw0')
+                        d_cfg.lattice.q_grid.kx,
+                        d_cfg.lattice.q_grid.ky, pdir=d_cfg.optics.output_path, name='F_magn_niw0')
 
     f_cond = -1 / 2 * f_dens - 3 / 2 * f_magn
     del f_dens, f_magn
     gc.collect()
 
     plotting.plot_kx_ky(f_cond[:, :, 0, niw, 0, d_cfg.optics.niv_vert],
-                        d_cfg.lattice.k_grid.kx,
-                        d_cfg.lattice.k_grid.ky, pdir=d_cfg.optics.output_path, name='F_cond_niw0')
+                        d_cfg.lattice.q_grid.kx,
+                        d_cfg.lattice.q_grid.ky, pdir=d_cfg.optics.output_path, name='F_cond_niw0')
 
     d_cfg.optics.save_data(f_cond, 'F_cond')
     del f_cond
-- 
2.43.0


From fe772d6bcbfdee35f80af7542c97371141bd5d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:35 +0000
Subject: [PATCH 60/69] fix: current vertex is kept against keep_fq_optics
 unless the continuation was done too

---
 src/dga/dga_main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dga/dga_main.py b/src/dga/dga_main.py
index 19c1911..652774f 100644
--- a/src/dga/dga_main.py
+++ b/src/dga/dga_main.py
@@ -381,7 +381,8 @@ def main():
             d_cfg.optics.save_data(max_ent.w, 'w')
             d_cfg.logger.log_event('MaxEnt for optical conductivity finished.')
 
-            if not d_cfg.keep_fq_optics: d_cfg.optics.clean_data('F_cond')
+    if comm.rank == 0 and d_cfg.optics.do_vertex and not d_cfg.keep_fq_optics:
+        d_cfg.optics.clean_data('F_cond')
 
     # ------------------------------------------------- MAXENT ------------------------------------------------------------
     if ('max_ent' in conf_file):
-- 
2.43.0


From 03f47175cf884d80d55595cbf919200c4a5d21a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:47 +0000
Subject: [PATCH 61/69] fix: bare band in the swk analysis was never filled to
 the target occupation

---
 src/postproc/plot_siwk_cont.py           | 2 +-
 src/postproc/real_frequency_two_point.py | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/postproc/plot_siwk_cont.py b/src/postproc/plot_siwk_cont.py
index b0f5c57..345df3f 100644
--- a/src/postproc/plot_siwk_cont.py
+++ b/src/postproc/plot_siwk_cont.py
@@ -38,7 +38,7 @@ def main(base_path='./',max_ent_dir='MaxEntSiwk/'):
     ek = dga_config.lattice.get_ek()
     ek_shift = dga_config.lattice.k_grid.shift_mat_by_pi(ek)
     mu = rtp.adjust_mu(mu0,n_target,swk,w,ek)
-    mu_lda = rtp.adjust_mu(mu0,n_target,0*swk,w,ek)
+    mu_lda = rtp.get_mu_band(n_target,ek)
 
 
     gwk = rtp.get_giwk(mu,swk,w,ek)
diff --git a/src/postproc/real_frequency_two_point.py b/src/postproc/real_frequency_two_point.py
index 72e7ae0..0b7c3f0 100644
--- a/src/postproc/real_frequency_two_point.py
+++ b/src/postproc/real_frequency_two_point.py
@@ -21,4 +21,8 @@ def opt_func(mu,n,siwk,w,ek):
 
 def adjust_mu(mu0,n_target,siwk,w,ek):
     fit = opt.minimize(opt_func,x0=mu0,args=(n_target,siwk,w,ek))
-    return fit.x
\ No newline at end of file
+    return fit.x
+
+def get_mu_band(n_target,ek):
+    ''' Chemical potential of the band ek; without self-energy there is no spectral weight on the real axis to integrate '''
+    return [opt.brentq(lambda mu: 2 * np.mean(ek <= mu) - n_target, ek.min() - 1, ek.max() + 1)]
-- 
2.43.0


From 119ffa5cffcfe8fa629e65cce61341ce285136c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:47 +0000
Subject: [PATCH 62/69] fix: maps of the swk analysis show k_x and k_y
 exchanged and stretched

---
 src/postproc/plot_siwk_cont.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/postproc/plot_siwk_cont.py b/src/postproc/plot_siwk_cont.py
index 345df3f..304d692 100644
--- a/src/postproc/plot_siwk_cont.py
+++ b/src/postproc/plot_siwk_cont.py
@@ -51,7 +51,7 @@ def main(base_path='./',max_ent_dir='MaxEntSiwk/'):
     #%%
     nk = dga_config.lattice.nk
     nw0 = np.argmin(np.abs(w))
-    kx_shift = np.linspace(-np.pi,np.pi,nk[0], endpoint=True)
+    kx_shift = dga_config.lattice.k_grid.kx_shift
     # Create k-path cuts:
     bz_kpath1 = '0.5 0.5 0.|0.99 0.5 0.|0.99 0.99 0.|0.5 0.5 0.'
     k_path1 = bz.KPath(nk=nk,path=bz_kpath1,path_deliminator='|',kx=kx_shift,ky=kx_shift)
@@ -112,13 +112,13 @@ def main(base_path='./',max_ent_dir='MaxEntSiwk/'):
     ax6 = fig.add_subplot(gs[1, 3])
     axes = [ax0,ax1,ax2,ax3,ax4,ax5,ax6]
 
-    im1 = axes[0].pcolormesh(kx_shift,kx_shift,-1/np.pi * gwk_shift[:,:,0,nw0].imag, cmap='magma')
+    im1 = axes[0].pcolormesh(kx_shift,kx_shift,-1/np.pi * gwk_shift[:,:,0,nw0].imag.T, cmap='magma')
 
 
     divnorm = colors.TwoSlopeNorm(vmin=gwk_shift[:,:,0,nw0].real.min(), vcenter=0, vmax=gwk_shift[:,:,0,nw0].real.max())
-    im2 = axes[0].pcolormesh(kx_shift,kx_shift, np.ma.masked_array(gwk_shift[:,:,0,nw0].real, masks[0]), cmap='RdBu',norm=divnorm)
+    im2 = axes[0].pcolormesh(kx_shift,kx_shift, np.ma.masked_array(gwk_shift[:,:,0,nw0].real.T, masks[0]), cmap='RdBu',norm=divnorm)
 
-    axes[0].pcolormesh(kx_shift,kx_shift, np.ma.masked_array(qpd[:,:,0,nw0].real, masks[2]), cmap='Greys')
+    axes[0].pcolormesh(kx_shift,kx_shift, np.ma.masked_array(qpd[:,:,0,nw0].real.T, masks[2]), cmap='Greys')
     # axes[0].plot(fs_loc[0].vertices[:,0],fs_loc[0].vertices[:,1], '-w', alpha=alpha)
     ind = np.logical_and(k_points_fermi[:,0] > 0, k_points_fermi[:,1] > 0)
     axes[0].plot(k_points_fermi[ind,0],k_points_fermi[ind,1], '-w', alpha=alpha)
-- 
2.43.0


From 9258a574509c00e45ab0d6741ed2717d4d93cac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:30 +0000
Subject: [PATCH 63/69] fix: average of two equally distant Pade continuations
 was empty (nan)

---
 src/dga/pade_aux.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dga/pade_aux.py b/src/dga/pade_aux.py
index 79a038c..117dc9f 100644
--- a/src/dga/pade_aux.py
+++ b/src/dga/pade_aux.py
@@ -558,6 +558,8 @@ def pade(zin, fin, zout):
             ind = np.argsort(d)[:int(c2v * len(d))]  # indices to 51% lowest distances
             c2[ind] = True
             mask = c1 & c2  # continuations to include
+            if not np.any(mask):  # all are equally far from each other
+                mask[:] = True
             fmean = np.mean(f[mask], axis=0)  # average selected continuations
         masks.append(mask)
         fmeans.append(fmean)
-- 
2.43.0


From 0f2e372e8ee7595a49d98b3592e71b361caac0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:06 +0000
Subject: [PATCH 64/69] fix: an unknown method of a partial solution was
 returned as an error object instead of raised

---
 src/ana_cont/continuation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ana_cont/continuation.py b/src/ana_cont/continuation.py
index 933c6fc..cc905fb 100644
--- a/src/ana_cont/continuation.py
+++ b/src/ana_cont/continuation.py
@@ -145,7 +145,7 @@ class AnalyticContinuationProblem(object):
                 sol.backtransform /= self.beta
             return sol
         else:
-            return ValueError("Unknown solver method.")
+            raise ValueError("Unknown solver method.")
 
 
 class GreensFunction(object):
-- 
2.43.0


From 4666ce7a404f67d60d5bd4ec20f9e955ba7f6d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:01 +0000
Subject: [PATCH 65/69] fix: purely imaginary data of the particle-hole
 symmetric kernel were continued as zeros

---
 src/ana_cont/continuation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ana_cont/continuation.py b/src/ana_cont/continuation.py
index cc905fb..7f49471 100644
--- a/src/ana_cont/continuation.py
+++ b/src/ana_cont/continuation.py
@@ -62,9 +62,9 @@ class AnalyticContinuationProblem(object):
             #self.im_data = np.concatenate((im_data.real, im_data.imag))
         elif self.kernel_mode == 'freq_fermionic_phsym':
             # check if data are purely imaginary
-            if np.allclose(im_axis.real, 0.):
+            if np.allclose(im_data.real, 0.) and np.iscomplexobj(im_data):
                 self.im_data = im_data.imag
-            elif np.allclose(im_axis.imag, 0.): # if only the imaginary part is passed
+            elif np.allclose(im_data.imag, 0.): # if only the imaginary part is passed
                 self.im_data = im_data.real
             else:
                 print('The data are neither purely real nor purely imaginary,')
-- 
2.43.0


From 0c46c2a21d30fd16e00ebaea38972f1420f9a8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:01 +0000
Subject: [PATCH 66/69] fix: particle-hole symmetric imaginary-time kernel:
 spectrum and model not rescaled, overflow of the kernel

---
 src/ana_cont/continuation.py | 6 +++---
 src/ana_cont/kernels.py      | 9 ++++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/ana_cont/continuation.py b/src/ana_cont/continuation.py
index 7f49471..d32bc8b 100644
--- a/src/ana_cont/continuation.py
+++ b/src/ana_cont/continuation.py
@@ -83,7 +83,7 @@ class AnalyticContinuationProblem(object):
     def rescale_input(self, kwargs):
         """For time kernels, scale the default model and the error like the axes and the data."""
         kwargs = dict(kwargs)
-        if self.kernel_mode in ('time_bosonic', 'time_fermionic') and kwargs.get('model') is not None:
+        if self.kernel_mode.startswith('time') and kwargs.get('model') is not None:
             kwargs['model'] = kwargs['model'] / self.beta
         if self.kernel_mode == 'time_bosonic':
             if kwargs.get('stdev') is not None:
@@ -110,7 +110,7 @@ class AnalyticContinuationProblem(object):
                 kernel_mode = self.kernel_mode, 
                 **kwargs)
             sol = self.solver.solve(**kwargs)
-            if self.kernel_mode == 'time_fermionic':
+            if self.kernel_mode in ('time_fermionic', 'time_fermionic_phsym'):
                 sol[0].A_opt *= self.beta
             elif self.kernel_mode == 'time_bosonic':
                 sol[0].A_opt *= self.beta
@@ -138,7 +138,7 @@ class AnalyticContinuationProblem(object):
             # truncate ustart to actual number of significant singular values
             kwargs['ustart'] = kwargs['ustart'][:self.solver.n_sv]
             sol = self.solver.maxent_optimization(**kwargs)
-            if self.kernel_mode == 'time_fermionic':
+            if self.kernel_mode in ('time_fermionic', 'time_fermionic_phsym'):
                 sol.A_opt *= self.beta
             elif self.kernel_mode == 'time_bosonic':
                 sol.A_opt *= self.beta
diff --git a/src/ana_cont/kernels.py b/src/ana_cont/kernels.py
index e3390a3..646b56e 100644
--- a/src/ana_cont/kernels.py
+++ b/src/ana_cont/kernels.py
@@ -104,9 +104,12 @@ class Kernel(object):
                         + (self.re_axis ** 2)[None, :])
         elif self.kind == 'time_fermionic_phsym':
             print('Warning: phsym kernels do not give good results in this implementation. ')
-            kernel = (np.cosh(self.im_axis[:, None] * self.re_axis[None, :])
-                      + np.cosh((1. - self.im_axis[:, None]) * self.re_axis[None, :])) \
-                     / (1. + np.cosh(self.re_axis[None, :]))
+            # (cosh(τω) + cosh((1-τ)ω)) / (1 + cosh(ω)) without overflow for large |ω|
+            w = np.abs(self.re_axis)[None, :]
+            tau = self.im_axis[:, None]
+            kernel = (np.exp(-tau * w) + np.exp(-(1. - tau) * w)
+                      + np.exp(-(1. + tau) * w) + np.exp(-(2. - tau) * w)) \
+                     / (1. + np.exp(-w)) ** 2
         else:
             raise ValueError("Unknown kernel type")
         return kernel
-- 
2.43.0


From 933070afe16720b356fc8773bfc09fa5ac83cb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:01 +0000
Subject: [PATCH 67/69] fix: bosonic imaginary-time kernel wrong at the first
 frequency when that is not zero

---
 src/ana_cont/kernels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ana_cont/kernels.py b/src/ana_cont/kernels.py
index 646b56e..986c347 100644
--- a/src/ana_cont/kernels.py
+++ b/src/ana_cont/kernels.py
@@ -66,7 +66,7 @@ class Kernel(object):
                         np.exp(-self.re_axis[None, :] * self.im_axis[:, None])
                         + np.exp(-self.re_axis[None, :] * (1. - self.im_axis[:, None]))) / (
                                       1. - np.exp(-self.re_axis[None, :]))
-            kernel[:, 0] = 1.  # analytically with de l'Hospital
+            kernel[:, self.re_axis == 0.] = 1.  # analytically with de l'Hospital
         elif self.kind == 'freq_bosonic_xyz':
             kernel = -self.im_axis[:, None] / ((self.re_axis**2)[None, :] + (self.im_axis**2)[:, None])
             if self.im_axis[0] == 0.:
-- 
2.43.0


From 399e7e138c79b346c9a85f598f2f2673030c0b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:01 +0000
Subject: [PATCH 68/69] fix: Kramers-Kronig of symmetric and antisymmetric
 spectra were exchanged

---
 src/ana_cont/continuation.py     | 4 ++--
 src/dga/analytic_continuation.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ana_cont/continuation.py b/src/ana_cont/continuation.py
index d32bc8b..92b1cbe 100644
--- a/src/ana_cont/continuation.py
+++ b/src/ana_cont/continuation.py
@@ -189,14 +189,14 @@ class GreensFunction(object):
             if self.wmin < 0.:
                 print('warning: wmin<0 not permitted for fermionic_phsym greens functions.')
             with np.errstate(divide="ignore"):
-                m = 2. * self.dw[:,None] * self.wgrid[:,None] * self.spectrum[:,None] \
+                m = 2. * self.dw[:,None] * self.wgrid[None,:] * self.spectrum[:,None] \
                     / (self.wgrid[None,:]**2 - self.wgrid[:,None]**2)
 
         elif self.kind == 'bosonic' or self.kind == 'antisymmetric':
             if self.wmin < 0.:
                 print('warning: wmin<0 not permitted for bosonic (antisymmetric) spectrum.')
             with np.errstate(divide="ignore"):
-                m = 2. * self.dw[:,None] * self.wgrid[None,:] * self.spectrum[:,None]\
+                m = 2. * self.dw[:,None] * self.wgrid[:,None] * self.spectrum[:,None]\
                     /(self.wgrid[None,:]**2 - self.wgrid[:,None]**2)
         
         elif self.kind == 'fermionic' or self.kind == 'general':
diff --git a/src/dga/analytic_continuation.py b/src/dga/analytic_continuation.py
index 864ce22..d45cbc9 100644
--- a/src/dga/analytic_continuation.py
+++ b/src/dga/analytic_continuation.py
@@ -172,15 +172,15 @@ def kkt(spectrum, wgrid, kind='fermionic_phsym'):
     if kind == 'fermionic_phsym' or kind == 'symmetric':
         if wmin < 0.:
             print('warning: wmin<0 not permitted for fermionic_phsym greens functions.')
-        with np.errstate(divide='ignore'):
-            m = 2. * dw[:, None] * wgrid[:, None] * spectrum[:, None] \
+        with np.errstate(divide='ignore', invalid='ignore'):
+            m = 2. * dw[:, None] * wgrid[None, :] * spectrum[:, None] \
                 / (wgrid[None, :] ** 2 - wgrid[:, None] ** 2)
 
     elif kind == 'bosonic' or kind == 'antisymmetric':
         if wmin < 0.:
             print('warning: wmin<0 not permitted for bosonic (antisymmetric) spectrum.')
         with np.errstate(divide='ignore', invalid='ignore'):
-            m = 2. * dw[:, None] * wgrid[None, :] * spectrum[:, None] \
+            m = 2. * dw[:, None] * wgrid[:, None] * spectrum[:, None] \
                 / (wgrid[None, :] ** 2 - wgrid[:, None] ** 2)
 
     elif kind == 'fermionic' or kind == 'general':
-- 
2.43.0


From 76af49f789c93c6e2858657c151a920618a267e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:53:22 +0000
Subject: [PATCH 69/69] fix: update_mu_primitive failed for every input

---
 src/dga/two_point.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/dga/two_point.py b/src/dga/two_point.py
index 0ca3225..a82ee85 100644
--- a/src/dga/two_point.py
+++ b/src/dga/two_point.py
@@ -231,7 +231,7 @@ def get_fill_primitive(g_loc, beta, verbose=False):
 def root_fun_primitive(mu=0.0, target_filling=1.0, iv=None, hk=None, siwk=None, beta=1.0, verbose=False):
     """Auxiliary function for the root finding"""
     g_loc = get_gloc(iv=iv, hk=hk, siwk=siwk, mu_trial=mu)
-    return get_fill_primitive(g_loc, beta, verbose)[0] - target_filling
+    return get_fill_primitive(g_loc, beta, verbose).real - target_filling
 
 
 def update_mu_primitive(mu0=0.0, target_filling=None, iv=None, hk=None, siwk=None, beta=None, smom0=None, tol=1e-6,
@@ -241,9 +241,8 @@ def update_mu_primitive(mu0=0.0, target_filling=None, iv=None, hk=None, siwk=Non
     '''
     if verbose: print('Update mu...')
     mu = mu0
-    hloc = None
     if verbose: print(
-        root_fun(mu=mu, target_filling=target_filling, iv=iv, hk=hk, siwk=siwk, beta=beta, smom0=smom0, hloc=hloc))
+        root_fun_primitive(mu=mu, target_filling=target_filling, iv=iv, hk=hk, siwk=siwk, beta=beta))
     try:
         mu = opt.newton(root_fun_primitive, mu, tol=tol,
                         args=(target_filling, iv, hk, siwk, beta, verbose))
-- 
2.43.0

