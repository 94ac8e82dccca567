From ba78a0334b5ca0ed641686623cbe41d448d61048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:14 +0000
Subject: [PATCH 01/26] fix: add missing bosonic SMEFT coefficients as scalars

np.zeros(1) is a 1-element array, so the SMEFT matching raised a TypeError
for every input without phiWB.
---
 wcxf/util/smeftutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wcxf/util/smeftutil.py b/wcxf/util/smeftutil.py
index 9d1dc82..057b54b 100644
--- a/wcxf/util/smeftutil.py
+++ b/wcxf/util/smeftutil.py
@@ -573,7 +573,7 @@ def add_missing(C):
     """Add arrays with zeros for missing Wilson coefficient keys"""
     C_out = C.copy()
     for k in (set(WC_keys) - set(C.keys())):
-        C_out[k] = np.zeros(C_keys_shape[k])
+        C_out[k] = 0 if C_keys_shape[k] == 1 else np.zeros(C_keys_shape[k])
     return C_out
 
 
-- 
2.43.0


From 84a03797324f0d8d99a8aa6978e599fb78a1b891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:14 +0000
Subject: [PATCH 02/26] fix: pass user parameters on to the SMEFT translators

---
 wcxf/translators/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wcxf/translators/__init__.py b/wcxf/translators/__init__.py
index b432a7c..cba69fa 100644
--- a/wcxf/translators/__init__.py
+++ b/wcxf/translators/__init__.py
@@ -5,17 +5,17 @@ import wcxf
 
 @wcxf.translator('SMEFT', 'Warsaw', 'Warsaw mass')
 def warsaw_to_warsawmass(C, scale, parameters):
-    return smeft.warsaw_to_warsawmass(C)
+    return smeft.warsaw_to_warsawmass(C, parameters)
 
 
 @wcxf.translator('SMEFT', 'Warsaw', 'Warsaw up')
 def warsaw_to_warsaw_up(C, scale, parameters):
-    return smeft.warsaw_to_warsaw_up(C)
+    return smeft.warsaw_to_warsaw_up(C, parameters)
 
 
 @wcxf.translator('SMEFT', 'Warsaw up', 'Warsaw')
 def warsaw_up_to_warsaw(C, scale, parameters):
-    return smeft.warsaw_up_to_warsaw(C)
+    return smeft.warsaw_up_to_warsaw(C, parameters)
 
 
 @wcxf.translator('WET', 'JMS', 'flavio')
-- 
2.43.0


From 3c04cd5689016ca894881994d86886905178c6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:14 +0000
Subject: [PATCH 03/26] fix: a child basis must not modify its parent

The child shared the parent's sectors and updated them in place; and a basis
whose parent is unknown stayed registered although its construction failed.
---
 wcxf/classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index 7392821..53512c8 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -217,18 +217,18 @@ class Basis(WCxf, NamedInstanceClass):
         """Instantiate the basis file object."""
         self.eft = eft
         self.basis = basis
-        super().__init__((eft, basis))
         for k, v in kwargs.items():
             setattr(self, k, v)
         if hasattr(self, 'parent'):
             try:
-                self.sectors = Basis[self.eft, self.parent].sectors
+                self.sectors = Basis[self.eft, self.parent].sectors.copy()
                 self.sectors.update(sectors)
             except (AttributeError, KeyError):
                 raise ValueError("Parent basis {} not found".format(self.parent))
         else:
             self.sectors = sectors
         self._all_wcs = None
+        super().__init__((eft, basis))
 
     @property
     def known_translators(self):
-- 
2.43.0


From 6c6e62ddbf7850d232aa93f1e4349fba21f186f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:14 +0000
Subject: [PATCH 04/26] fix: rotate all left-handed down quarks to the mass
 basis

Dipole, colour-octet scalar and baryon number violating operators were left
in the flavour basis by rotate_down.
---
 wcxf/translators/wet.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/wcxf/translators/wet.py b/wcxf/translators/wet.py
index 7421d5a..99bf3df 100644
--- a/wcxf/translators/wet.py
+++ b/wcxf/translators/wet.py
@@ -964,7 +964,7 @@ def rotate_down(C_in, p):
                          UdL.conj(), UdL,
                          C_in[k])
     # type dL X dL X
-    for k in ['S1ddRR', ]:
+    for k in ['S1ddRR', 'S8ddRR']:
         C[k] = np.einsum('ia,kc,ijkl->ajcl',
                          UdL.conj(), UdL.conj(),
                          C_in[k])
@@ -984,6 +984,27 @@ def rotate_down(C_in, p):
         C[k] = np.einsum('ld,ijkl->ijkd',
                          UdL,
                          C_in[k])
+    # type dL X
+    for k in ['dgamma', 'dG']:
+        C[k] = np.einsum('ia,ij->aj',
+                         UdL.conj(),
+                         C_in[k])
+    # Delta B = Delta L = 1 operators (no hermitian conjugate fields)
+    # type dL X X X
+    for k in ['SduuLL', 'SduuLR']:
+        C[k] = np.einsum('ia,ijkl->ajkl',
+                         UdL,
+                         C_in[k])
+    # type X X dL X
+    for k in ['SuudRL', 'SdudRL']:
+        C[k] = np.einsum('kc,ijkl->ijcl',
+                         UdL,
+                         C_in[k])
+    # type X dL dL X
+    for k in ['SuddLL']:
+        C[k] = np.einsum('jb,kc,ijkl->ibcl',
+                         UdL, UdL,
+                         C_in[k])
     return C
 
 
-- 
2.43.0


From 4b33221bb73166bb98457c8d954994da9e9aaacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:14 +0000
Subject: [PATCH 05/26] fix: FormFlavor s->d nu nu coefficients use the ds
 flavours

The indices depended on the last quark pair translated, so that the
coefficients were filled with the b->d ones.
---
 wcxf/translators/wet.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/wcxf/translators/wet.py b/wcxf/translators/wet.py
index 99bf3df..e1117ad 100644
--- a/wcxf/translators/wet.py
+++ b/wcxf/translators/wet.py
@@ -714,12 +714,12 @@ def JMS_to_FormFlavor_lep(C, dd):
         'CSRL_' + dd + 'mm' : C["SedRL"][1, 1, b, s].conj(),
         'CTLL_' + dd + 'mm' : C["TedRR"][1, 1, b, s].conj(),
         'CTRR_' + dd + 'mm' : C["TedRR"][1, 1, s, b],
-        'CVLL_sdnn' : 1 / 3 * C["VnudLL"][0, 0, s-1, s]
-                      + 1 / 3 * C["VnudLL"][1, 1, s-1, s]
-                      + 1 / 3 * C["VnudLL"][2, 2, s-1, s],
-        'CVRL_sdnn' : 1 / 3 * C["VnudLR"][0, 0, s-1, s]
-                      + 1 / 3 * C["VnudLR"][1, 1, s-1, s]
-                      + 1 / 3 * C["VnudLR"][2, 2, s-1, s]
+        'CVLL_sdnn' : 1 / 3 * C["VnudLL"][0, 0, 0, 1]
+                      + 1 / 3 * C["VnudLL"][1, 1, 0, 1]
+                      + 1 / 3 * C["VnudLL"][2, 2, 0, 1],
+        'CVRL_sdnn' : 1 / 3 * C["VnudLR"][0, 0, 0, 1]
+                      + 1 / 3 * C["VnudLR"][1, 1, 0, 1]
+                      + 1 / 3 * C["VnudLR"][2, 2, 0, 1]
             }
 
 # chromomagnetic operators
-- 
2.43.0


From 3c4b86ff5d67b24035e9d218f5c659441b57a727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:14 +0000
Subject: [PATCH 06/26] fix: normalize FormFlavor leptonic dipoles with e

---
 wcxf/translators/wet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wcxf/translators/wet.py b/wcxf/translators/wet.py
index e1117ad..7ae85b1 100644
--- a/wcxf/translators/wet.py
+++ b/wcxf/translators/wet.py
@@ -865,7 +865,7 @@ def JMS_to_FormFlavor_chrom(C, qq, parameters):
         l2 = llflav[qq[1]]
         return {
             'CAR_' + qq : C['egamma'][l1, l2] / e,
-            'CAL_' + qq : C['egamma'][l2, l1].conj() / gs,
+            'CAL_' + qq : C['egamma'][l2, l1].conj() / e,
                 }
     if qq[0] in uflav.keys():
         u = uflav[qq[0]]
-- 
2.43.0


From 81cf75026a40e95c5af573fccd7e510953634c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:14 +0000
Subject: [PATCH 07/26] fix: report failures of the wcxf subcommands in the
 exit status

The return value of the subcommands was dropped, unknown convert formats were
ignored and AttributeErrors raised while processing a file printed the help.
---
 wcxf/cli.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/wcxf/cli.py b/wcxf/cli.py
index 6c35d27..544413d 100755
--- a/wcxf/cli.py
+++ b/wcxf/cli.py
@@ -75,18 +75,20 @@ def wcxf_cli():
     parser_validate.set_defaults(func=validate)
 
     args = parser.parse_args()
-    try:
-        args.func(args)
-    except AttributeError:
+    if not hasattr(args, 'func'):
         parser.print_help()
+        return 0
+    return args.func(args)
 
 
 def convert(args):
     from wcxf.converters.yamljson import convert_json, convert_yaml
     if args.FORMAT.lower() == 'json':
-        convert_json(args.FILE, args.output)
+        return convert_json(args.FILE, args.output)
     if args.FORMAT.lower() == 'yaml':
-        convert_yaml(args.FILE, args.output)
+        return convert_yaml(args.FILE, args.output)
+    logging.error("FORMAT should be 'yaml' or 'json'")
+    return 1
 
 
 def translate(args):
-- 
2.43.0


From 6db48d8fe70abc8ee8b65496c2fa976a4372caf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:14 +0000
Subject: [PATCH 08/26] fix: reject unknown Wilson coefficients also with
 python -O

---
 wcxf/classes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index 53512c8..3556c5f 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -361,8 +361,9 @@ class WC(WCxf):
         except (AttributeError, KeyError):
             raise ValueError("Basis {} not defined for EFT {}".format(self.basis, self.eft))
         unknown_keys = set(self.values.keys()) - set(basis_instance.all_wcs)
-        assert unknown_keys == set(), \
-            "Wilson coefficients do not exist in this basis: " + str(unknown_keys)
+        if unknown_keys:
+            raise AssertionError("Wilson coefficients do not exist in this basis: "
+                                 + str(unknown_keys))
 
     @property
     def dict(self):
-- 
2.43.0


From ce4a26a36f19efc3fd44adff7ddd9ac6bcbdfe6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:14 +0000
Subject: [PATCH 09/26] fix: clean up after the LaTeX check if latex or its log
 is missing

---
 wcxf/classes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index 3556c5f..8dfb343 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -73,6 +73,8 @@ def _testtex(s, delete=True):
                            stdout=subprocess.DEVNULL)
     except FileNotFoundError:
         logging.warn('latex executable not found. Cannot check tex code')
+        if delete:
+            shutil.rmtree(tmpd)
         return {'success': True}
     if p.returncode == 0:
         res = {'success': True}
@@ -84,7 +86,7 @@ def _testtex(s, delete=True):
         with open(logf, 'r') as f:
             logl = f.readlines()
     except FileNotFoundError:
-        pass
+        logl = []
     fail = False
     for i, l in enumerate(logl):
         if 'Undefined control sequence' in l or 'Emergency stop' in l:
-- 
2.43.0


From 647fdb07b93bad8d1b13dbb73d76425ba3e3a756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:14 +0000
Subject: [PATCH 10/26] fix: print bases with coefficients that have no
 attributes

---
 wcxf/classes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index 8dfb343..e96169a 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -303,6 +303,7 @@ class Basis(WCxf, NamedInstanceClass):
                 # fractions of line width (default: 72)
                 md += "|" + 18 * "-" + "|" + 48 * "-" + "|" + 6 * "-" + "|\n"
                 for name, d in wcs.items():
+                    d = d or {}
                     if 'real' not in d or not d['real']:
                         t = 'C'
                     else:
-- 
2.43.0


From d4bae26f4d582c4576b88bc962170ccc1e5cd1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:14 +0000
Subject: [PATCH 11/26] fix: EFT.known_bases is empty if no basis has been
 defined

---
 wcxf/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index e96169a..0c9ab8a 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -205,7 +205,7 @@ class EFT(WCxf, NamedInstanceClass):
     @property
     def known_bases(self):
         """Return a list of known bases for this EFT."""
-        return tuple(basis[1] for basis in Basis.instances if basis[0] == self.eft)
+        return tuple(basis[1] for basis in getattr(Basis, 'instances', {}) if basis[0] == self.eft)
 
     @property
     def known_translators(self):
-- 
2.43.0


From a46c1ce51a0dc4cbed17bbafe6b1a39efd779a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:14 +0000
Subject: [PATCH 12/26] fix: m_c(m_c) is the four-flavour mass only

---
 wcxf/util/qcd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wcxf/util/qcd.py b/wcxf/util/qcd.py
index 8ccf8b2..6227df8 100644
--- a/wcxf/util/qcd.py
+++ b/wcxf/util/qcd.py
@@ -90,7 +90,7 @@ def m_b(mbmb, scale, f, alphasMZ=0.1185):
 def m_c(mcmc, scale, f, alphasMZ=0.1185):
     r"""Get running c quark mass in the MSbar scheme at the scale `scale`
     in the theory with `f` dynamical quark flavours starting from $m_c(m_c)$"""
-    if scale == mcmc:
+    if scale == mcmc and f == 4:
         return mcmc  # nothing to do
     _sane(scale, f)
     loop = 3
-- 
2.43.0


From f31502e1e28fe16ff35ca5b3cd0e2202fe10e109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:46 +0000
Subject: [PATCH 13/26] fix: translate s->d nu nu coefficients from flavio to
 Bern

They were dropped, although the inverse translation includes them.
---
 wcxf/translators/wet.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/wcxf/translators/wet.py b/wcxf/translators/wet.py
index 7ae85b1..ab29421 100644
--- a/wcxf/translators/wet.py
+++ b/wcxf/translators/wet.py
@@ -554,11 +554,14 @@ def JMS_to_Fierz_lep(C, ddll):
         }
 
 
-def Fierz_to_Bern_lep(C,ddll):
+def Fierz_to_Bern_lep(C,ddll, include_charged=True):
     """From semileptonic Fierz basis to Bern semileptonic basis for Class V.
     C should be the corresponding leptonic Fierz basis and
     `ddll` should be of the form 'sbl_enu_tau', 'dbl_munu_e' etc."""
     ind = ddll.replace('l_','').replace('nu_','')
+    if not include_charged:
+        return {'nu1' + ind : C['F' + ind + 'nu'],
+                'nu1p' + ind : C['F' + ind + 'nup']}
     return {'1' + ind : 5 * C['F'+ ind + '10'] / 3 + C['F'+ ind + '9'],
             '3' + ind : -C['F' + ind + '10'] / 6,
             '5' + ind : C['F' + ind + 'S'] - 5 * C['F' + ind + 'P'] / 3,
@@ -634,7 +637,7 @@ def Fierz_to_Flavio_lep(C, ddll, parameters, include_charged=True):
     return {k: prefactor * v for k,v in dic.items()}
 
 
-def Flavio_to_Fierz_lep(C, ddll, parameters):
+def Flavio_to_Fierz_lep(C, ddll, parameters, include_charged=True):
     """From  Flavio semileptonic basis to semileptonic Fierz basis for Class V.
     C should be the corresponding leptonic Fierz basis and
     `ddll` should be of the form 'sbl_enu_tau', 'dbl_munu_e' etc."""
@@ -654,19 +657,22 @@ def Flavio_to_Fierz_lep(C, ddll, parameters):
     e = sqrt(4* pi * parameters['alpha_e'])
     mb = parameters['m_b']
     dic = {
-        'F' + ind + '9': C["C9_" + indfl] / ((16 * pi**2) / e**2),
-        'F' + ind + '9p': C["C9p_" + indfl] / ((16 * pi**2) / e**2),
-        'F' + ind + '10': C["C10_" + indfl] / ((16 * pi**2) / e**2),
-        'F' + ind + '10p': C["C10p_" + indfl] / ((16 * pi**2) / e**2),
-        'F' + ind + 'S': C["CS_" + indfl] / ((16 * pi**2) / e**2 / mb),
-        'F' + ind + 'Sp': C["CSp_" + indfl] / ((16 * pi**2) / e**2 / mb),
-        'F' + ind + 'P': C["CP_" + indfl] / ((16 * pi**2) / e**2 / mb),
-        'F' + ind + 'Pp': C["CPp_" + indfl] / ((16 * pi**2) / e**2 / mb),
         'F' + ind + 'nu': C["CL_" + indnu] / ((8 * pi**2) / e**2),
         'F' + ind + 'nup': C["CR_" + indnu] / ((8 * pi**2) / e**2),
-        'F' + ind + 'T': 0,  # tensors not implemented in flavio basis yet
-        'F' + ind + 'T5': 0,  # tensors not implemented in flavio basis yet
         }
+    if include_charged:
+        dic.update({
+            'F' + ind + '9': C["C9_" + indfl] / ((16 * pi**2) / e**2),
+            'F' + ind + '9p': C["C9p_" + indfl] / ((16 * pi**2) / e**2),
+            'F' + ind + '10': C["C10_" + indfl] / ((16 * pi**2) / e**2),
+            'F' + ind + '10p': C["C10p_" + indfl] / ((16 * pi**2) / e**2),
+            'F' + ind + 'S': C["CS_" + indfl] / ((16 * pi**2) / e**2 / mb),
+            'F' + ind + 'Sp': C["CSp_" + indfl] / ((16 * pi**2) / e**2 / mb),
+            'F' + ind + 'P': C["CP_" + indfl] / ((16 * pi**2) / e**2 / mb),
+            'F' + ind + 'Pp': C["CPp_" + indfl] / ((16 * pi**2) / e**2 / mb),
+            'F' + ind + 'T': 0,  # tensors not implemented in flavio basis yet
+            'F' + ind + 'T5': 0,  # tensors not implemented in flavio basis yet
+        })
     prefactor = sqrt(2)/p['GF']/xi/4
     return {k: v / prefactor for k, v in dic.items()}
 
@@ -1164,6 +1170,11 @@ def flavio_to_Bern(C_incomplete, scale, parameters=None):
             d.update(Fierz_to_Bern_lep(Flavio_to_Fierz_lep(C,
                                         'db'+'l_'+l+'nu_'+lp, p),
                                         'db'+'l_'+l+'nu_'+lp))
+            d.update(Fierz_to_Bern_lep(Flavio_to_Fierz_lep(C,
+                                        'ds'+'l_'+l+'nu_'+lp, p,
+                                        include_charged=False),
+                                        'ds'+'l_'+l+'nu_'+lp,
+                                        include_charged=False))
 
     # Class V chromomagnetic
     d.update(Fierz_to_Bern_chrom(Flavio_to_Fierz_chrom(C, 'sb', p), 'sb', p))
-- 
2.43.0


From 1e3e69548c24180557d74bcbf7d1a74de97fb622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:46 +0000
Subject: [PATCH 14/26] fix: SMEFTsim cards for incomplete WCxf files

Wilson coefficients that are absent from a WCxf file vanish; and a real
coefficient given as Re/Im pair was written as a complex number.
---
 wcxf/converters/smeftsim.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/wcxf/converters/smeftsim.py b/wcxf/converters/smeftsim.py
index e939bd3..5f630e7 100644
--- a/wcxf/converters/smeftsim.py
+++ b/wcxf/converters/smeftsim.py
@@ -1,7 +1,7 @@
 """Functions to convert WCxf files to MadGraph param_cards for SMEFTsim."""
 
 from numpy import angle
-from collections import OrderedDict
+from collections import OrderedDict, defaultdict
 from wcxf.converters.SMEFTsim_param_card_elements import *
 
 
@@ -88,7 +88,16 @@ def initialize_smeftsim_card(model_set):
   return card
 
 
+class _CompleteWC(object):
+  """Wilson coefficients with zeros for the coefficients that are absent and
+  vanishing imaginary parts dropped."""
+  def __init__(self, wc):
+    self.dict = defaultdict(float, {k: v.real if v.imag == 0 else v
+                                    for k, v in wc.dict.items()})
+
+
 def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_value):
+  wc = _CompleteWC(wc)
 
   if model_set == 'A':
       # set block entries to WC values
-- 
2.43.0


From a5ce7a7acd2ab893e2f8bdde940462dd3103bd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:46 +0000
Subject: [PATCH 15/26] fix: keep the sign of real diagonal coefficients in
 SMEFTsim cards

These parameters are real and have no associated phase.
---
 wcxf/converters/smeftsim.py | 84 ++++++++++++++++++-------------------
 1 file changed, 42 insertions(+), 42 deletions(-)

diff --git a/wcxf/converters/smeftsim.py b/wcxf/converters/smeftsim.py
index 5f630e7..7683be5 100644
--- a/wcxf/converters/smeftsim.py
+++ b/wcxf/converters/smeftsim.py
@@ -748,48 +748,48 @@ def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_val
 	  [644, format(wc.dict['phiBtilde'] * lambda_smeft_value**2,'.6e'), '# cHBtil'],
 	  [645, format(wc.dict['phiWB'] * lambda_smeft_value**2,'.6e'), '# cHWB'],
 	  [646, format(wc.dict['phiWtildeB'] * lambda_smeft_value**2,'.6e'), '# cHWBtil'],
-	  [647, format(abs(wc.dict['phil1_11']) * lambda_smeft_value**2,'.6e'), '# cHl1Abs11'],
+	  [647, format((wc.dict['phil1_11']) * lambda_smeft_value**2,'.6e'), '# cHl1Abs11'],
 	  [648, format(abs(wc.dict['phil1_12']) * lambda_smeft_value**2,'.6e'), '# cHl1Abs12'],
 	  [649, format(abs(wc.dict['phil1_13']) * lambda_smeft_value**2,'.6e'), '# cHl1Abs13'],
-	  [650, format(abs(wc.dict['phil1_22']) * lambda_smeft_value**2,'.6e'), '# cHl1Abs22'],
+	  [650, format((wc.dict['phil1_22']) * lambda_smeft_value**2,'.6e'), '# cHl1Abs22'],
 	  [651, format(abs(wc.dict['phil1_23']) * lambda_smeft_value**2,'.6e'), '# cHl1Abs23'],
-	  [652, format(abs(wc.dict['phil1_33']) * lambda_smeft_value**2,'.6e'), '# cHl1Abs33'],
-	  [653, format(abs(wc.dict['phil3_11']) * lambda_smeft_value**2,'.6e'), '# cHl3Abs11'],
+	  [652, format((wc.dict['phil1_33']) * lambda_smeft_value**2,'.6e'), '# cHl1Abs33'],
+	  [653, format((wc.dict['phil3_11']) * lambda_smeft_value**2,'.6e'), '# cHl3Abs11'],
 	  [654, format(abs(wc.dict['phil3_12']) * lambda_smeft_value**2,'.6e'), '# cHl3Abs12'],
 	  [655, format(abs(wc.dict['phil3_13']) * lambda_smeft_value**2,'.6e'), '# cHl3Abs13'],
-	  [656, format(abs(wc.dict['phil3_22']) * lambda_smeft_value**2,'.6e'), '# cHl3Abs22'],
+	  [656, format((wc.dict['phil3_22']) * lambda_smeft_value**2,'.6e'), '# cHl3Abs22'],
 	  [657, format(abs(wc.dict['phil3_23']) * lambda_smeft_value**2,'.6e'), '# cHl3Abs23'],
-	  [658, format(abs(wc.dict['phil3_33']) * lambda_smeft_value**2,'.6e'), '# cHl3Abs33'],
-	  [659, format(abs(wc.dict['phiq1_11']) * lambda_smeft_value**2,'.6e'), '# cHq1Abs11'],
+	  [658, format((wc.dict['phil3_33']) * lambda_smeft_value**2,'.6e'), '# cHl3Abs33'],
+	  [659, format((wc.dict['phiq1_11']) * lambda_smeft_value**2,'.6e'), '# cHq1Abs11'],
 	  [660, format(abs(wc.dict['phiq1_12']) * lambda_smeft_value**2,'.6e'), '# cHq1Abs12'],
 	  [661, format(abs(wc.dict['phiq1_13']) * lambda_smeft_value**2,'.6e'), '# cHq1Abs13'],
-	  [662, format(abs(wc.dict['phiq1_22']) * lambda_smeft_value**2,'.6e'), '# cHq1Abs22'],
+	  [662, format((wc.dict['phiq1_22']) * lambda_smeft_value**2,'.6e'), '# cHq1Abs22'],
 	  [663, format(abs(wc.dict['phiq1_23']) * lambda_smeft_value**2,'.6e'), '# cHq1Abs23'],
-	  [664, format(abs(wc.dict['phiq1_33']) * lambda_smeft_value**2,'.6e'), '# cHq1Abs33'],
-	  [665, format(abs(wc.dict['phiq3_11']) * lambda_smeft_value**2,'.6e'), '# cHq3Abs11'],
+	  [664, format((wc.dict['phiq1_33']) * lambda_smeft_value**2,'.6e'), '# cHq1Abs33'],
+	  [665, format((wc.dict['phiq3_11']) * lambda_smeft_value**2,'.6e'), '# cHq3Abs11'],
 	  [666, format(abs(wc.dict['phiq3_12']) * lambda_smeft_value**2,'.6e'), '# cHq3Abs12'],
 	  [667, format(abs(wc.dict['phiq3_13']) * lambda_smeft_value**2,'.6e'), '# cHq3Abs13'],
-	  [668, format(abs(wc.dict['phiq3_22']) * lambda_smeft_value**2,'.6e'), '# cHq3Abs22'],
+	  [668, format((wc.dict['phiq3_22']) * lambda_smeft_value**2,'.6e'), '# cHq3Abs22'],
 	  [669, format(abs(wc.dict['phiq3_23']) * lambda_smeft_value**2,'.6e'), '# cHq3Abs23'],
-	  [670, format(abs(wc.dict['phiq3_33']) * lambda_smeft_value**2,'.6e'), '# cHq3Abs33'],
-	  [671, format(abs(wc.dict['phie_11']) * lambda_smeft_value**2,'.6e'), '# cHeAbs11'],
+	  [670, format((wc.dict['phiq3_33']) * lambda_smeft_value**2,'.6e'), '# cHq3Abs33'],
+	  [671, format((wc.dict['phie_11']) * lambda_smeft_value**2,'.6e'), '# cHeAbs11'],
 	  [672, format(abs(wc.dict['phie_12']) * lambda_smeft_value**2,'.6e'), '# cHeAbs12'],
 	  [673, format(abs(wc.dict['phie_13']) * lambda_smeft_value**2,'.6e'), '# cHeAbs13'],
-	  [674, format(abs(wc.dict['phie_22']) * lambda_smeft_value**2,'.6e'), '# cHeAbs22'],
+	  [674, format((wc.dict['phie_22']) * lambda_smeft_value**2,'.6e'), '# cHeAbs22'],
 	  [675, format(abs(wc.dict['phie_23']) * lambda_smeft_value**2,'.6e'), '# cHeAbs23'],
-	  [676, format(abs(wc.dict['phie_33']) * lambda_smeft_value**2,'.6e'), '# cHeAbs33'],
-	  [677, format(abs(wc.dict['phiu_11']) * lambda_smeft_value**2,'.6e'), '# cHuAbs11'],
+	  [676, format((wc.dict['phie_33']) * lambda_smeft_value**2,'.6e'), '# cHeAbs33'],
+	  [677, format((wc.dict['phiu_11']) * lambda_smeft_value**2,'.6e'), '# cHuAbs11'],
 	  [678, format(abs(wc.dict['phiu_12']) * lambda_smeft_value**2,'.6e'), '# cHuAbs12'],
 	  [679, format(abs(wc.dict['phiu_13']) * lambda_smeft_value**2,'.6e'), '# cHuAbs13'],
-	  [680, format(abs(wc.dict['phiu_22']) * lambda_smeft_value**2,'.6e'), '# cHuAbs22'],
+	  [680, format((wc.dict['phiu_22']) * lambda_smeft_value**2,'.6e'), '# cHuAbs22'],
 	  [681, format(abs(wc.dict['phiu_23']) * lambda_smeft_value**2,'.6e'), '# cHuAbs23'],
-	  [682, format(abs(wc.dict['phiu_33']) * lambda_smeft_value**2,'.6e'), '# cHuAbs33'],
-	  [683, format(abs(wc.dict['phid_11']) * lambda_smeft_value**2,'.6e'), '# cHdAbs11'],
+	  [682, format((wc.dict['phiu_33']) * lambda_smeft_value**2,'.6e'), '# cHuAbs33'],
+	  [683, format((wc.dict['phid_11']) * lambda_smeft_value**2,'.6e'), '# cHdAbs11'],
 	  [684, format(abs(wc.dict['phid_12']) * lambda_smeft_value**2,'.6e'), '# cHdAbs12'],
 	  [685, format(abs(wc.dict['phid_13']) * lambda_smeft_value**2,'.6e'), '# cHdAbs13'],
-	  [686, format(abs(wc.dict['phid_22']) * lambda_smeft_value**2,'.6e'), '# cHdAbs22'],
+	  [686, format((wc.dict['phid_22']) * lambda_smeft_value**2,'.6e'), '# cHdAbs22'],
 	  [687, format(abs(wc.dict['phid_23']) * lambda_smeft_value**2,'.6e'), '# cHdAbs23'],
-	  [688, format(abs(wc.dict['phid_33']) * lambda_smeft_value**2,'.6e'), '# cHdAbs33'],
+	  [688, format((wc.dict['phid_33']) * lambda_smeft_value**2,'.6e'), '# cHdAbs33'],
 	  [689, format(wc.dict['ll_1111'] * lambda_smeft_value**2,'.6e'), '# cllAbs1111'],
 	  [690, format(wc.dict['ll_1122'] * lambda_smeft_value**2,'.6e'), '# cllAbs1122'],
 	  [691, format(wc.dict['ll_1221'] * lambda_smeft_value**2,'.6e'), '# cllAbs1221'],
@@ -2712,66 +2712,66 @@ def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_val
   elif model_set == 'B':
       
       card['Block']['FRBlock'] = {'values': [
-	[1, format(abs(wc.dict['phil1_11']* lambda_smeft_value**2), '.6e') , '# cHl1Abs11'],
+	[1, format((wc.dict['phil1_11']* lambda_smeft_value**2), '.6e') , '# cHl1Abs11'],
 	[2, format(abs(wc.dict['phil1_12']* lambda_smeft_value**2), '.6e') , '# cHl1Abs12'],
 	[3, format(abs(wc.dict['phil1_13']* lambda_smeft_value**2), '.6e') , '# cHl1Abs13'],
-	[4, format(abs(wc.dict['phil1_22']* lambda_smeft_value**2), '.6e') , '# cHl1Abs22'],
+	[4, format((wc.dict['phil1_22']* lambda_smeft_value**2), '.6e') , '# cHl1Abs22'],
 	[5, format(abs(wc.dict['phil1_23']* lambda_smeft_value**2), '.6e') , '# cHl1Abs23'],
-	[6, format(abs(wc.dict['phil1_33']* lambda_smeft_value**2), '.6e') , '# cHl1Abs33'],
+	[6, format((wc.dict['phil1_33']* lambda_smeft_value**2), '.6e') , '# cHl1Abs33'],
 	[7, format(angle(wc.dict['phil1_12']), '.6e') , '# cHl1Ph12'],
 	[8, format(angle(wc.dict['phil1_13']), '.6e') , '# cHl1Ph13'],
 	[9, format(angle(wc.dict['phil1_23']), '.6e') , '# cHl1Ph23'],
-	[10, format(abs(wc.dict['phil3_11']* lambda_smeft_value**2), '.6e') ,'# cHL3Abs11'], 
+	[10, format((wc.dict['phil3_11']* lambda_smeft_value**2), '.6e') ,'# cHL3Abs11'], 
 	[11, format(abs(wc.dict['phil3_12']* lambda_smeft_value**2), '.6e') ,'# cHL3Abs12'], 
 	[12, format(abs(wc.dict['phil3_13']* lambda_smeft_value**2), '.6e') ,'# cHL3Abs13'], 
-	[13, format(abs(wc.dict['phil3_22']* lambda_smeft_value**2), '.6e') ,'# cHL3Abs22'], 
+	[13, format((wc.dict['phil3_22']* lambda_smeft_value**2), '.6e') ,'# cHL3Abs22'], 
 	[14, format(abs(wc.dict['phil3_23']* lambda_smeft_value**2), '.6e') ,'# cHL3Abs23'], 
-	[15, format(abs(wc.dict['phil3_33']* lambda_smeft_value**2), '.6e') ,'# cHL3Abs33'], 
+	[15, format((wc.dict['phil3_33']* lambda_smeft_value**2), '.6e') ,'# cHL3Abs33'], 
 	[16, format(angle(wc.dict['phil3_12']), '.6e') ,'# cHL3Ph12'], 
 	[17, format(angle(wc.dict['phil3_13']), '.6e') ,'# cHL3Ph13'], 
 	[18, format(angle(wc.dict['phil3_23']), '.6e') ,'# cHL3Ph23'], 
-	[19, format(abs(wc.dict['phiq1_11']* lambda_smeft_value**2), '.6e') ,'# cHq1Abs11'], 
+	[19, format((wc.dict['phiq1_11']* lambda_smeft_value**2), '.6e') ,'# cHq1Abs11'], 
 	[20, format(abs(wc.dict['phiq1_12']* lambda_smeft_value**2), '.6e') ,'# cHq1Abs12'], 
 	[21, format(abs(wc.dict['phiq1_13']* lambda_smeft_value**2), '.6e') ,'# cHq1Abs13'], 
-	[22, format(abs(wc.dict['phiq1_22']* lambda_smeft_value**2), '.6e') ,'# cHq1Abs22'], 
+	[22, format((wc.dict['phiq1_22']* lambda_smeft_value**2), '.6e') ,'# cHq1Abs22'], 
 	[23, format(abs(wc.dict['phiq1_23']* lambda_smeft_value**2), '.6e') ,'# cHq1Abs23'], 
-	[24, format(abs(wc.dict['phiq1_33']* lambda_smeft_value**2), '.6e') ,'# cHq1Abs33'], 
+	[24, format((wc.dict['phiq1_33']* lambda_smeft_value**2), '.6e') ,'# cHq1Abs33'], 
 	[25, format(angle(wc.dict['phiq1_12']), '.6e') ,'# cHq1Ph12'], 
 	[26, format(angle(wc.dict['phiq1_13']), '.6e') ,'# cHq1Ph13'], 
 	[27, format(angle(wc.dict['phiq1_23']), '.6e') ,'# cHq1Ph23'], 
-	[28, format(abs(wc.dict['phiq3_11']* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs11'], 
+	[28, format((wc.dict['phiq3_11']* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs11'], 
 	[29, format(abs(wc.dict['phiq3_12']* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs12'], 
 	[30, format(abs(wc.dict['phiq3_13']* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs13'], 
-	[31, format(abs(wc.dict['phiq3_22']* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs22'], 
+	[31, format((wc.dict['phiq3_22']* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs22'], 
 	[32, format(abs(wc.dict['phiq3_23']* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs23'], 
-	[33, format(abs(wc.dict['phiq3_33']* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs33'], 
+	[33, format((wc.dict['phiq3_33']* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs33'], 
 	[34, format(angle(wc.dict['phiq3_12']), '.6e') ,'# cHQ3Ph12'], 
 	[35, format(angle(wc.dict['phiq3_13']), '.6e') ,'# cHQ3Ph13'], 
 	[36, format(angle(wc.dict['phiq3_23']), '.6e') ,'# cHQ3Ph23'], 
-	[37, format(abs(wc.dict['phiu_11']* lambda_smeft_value**2), '.6e') ,'# cHuAbs11'], 
+	[37, format((wc.dict['phiu_11']* lambda_smeft_value**2), '.6e') ,'# cHuAbs11'], 
 	[38, format(abs(wc.dict['phiu_12']* lambda_smeft_value**2), '.6e') ,'# cHuAbs12'], 
 	[39, format(abs(wc.dict['phiu_13']* lambda_smeft_value**2), '.6e') ,'# cHuAbs13'], 
-	[40, format(abs(wc.dict['phiu_22']* lambda_smeft_value**2), '.6e') ,'# cHuAbs22'], 
+	[40, format((wc.dict['phiu_22']* lambda_smeft_value**2), '.6e') ,'# cHuAbs22'], 
 	[41, format(abs(wc.dict['phiu_23']* lambda_smeft_value**2), '.6e') ,'# cHuAbs23'], 
-	[42, format(abs(wc.dict['phiu_33']* lambda_smeft_value**2), '.6e') ,'# cHuAbs33'], 
+	[42, format((wc.dict['phiu_33']* lambda_smeft_value**2), '.6e') ,'# cHuAbs33'], 
 	[43, format(angle(wc.dict['phiu_12']), '.6e') ,'# cHuPh12'], 
 	[44, format(angle(wc.dict['phiu_13']), '.6e') ,'# cHuPh13'], 
 	[45, format(angle(wc.dict['phiu_23']), '.6e') ,'# cHuPh23'], 
-	[46, format(abs(wc.dict['phid_11']* lambda_smeft_value**2), '.6e') ,'# cHdAbs11'], 
+	[46, format((wc.dict['phid_11']* lambda_smeft_value**2), '.6e') ,'# cHdAbs11'], 
 	[47, format(abs(wc.dict['phid_12']* lambda_smeft_value**2), '.6e') ,'# cHdAbs12'], 
 	[48, format(abs(wc.dict['phid_13']* lambda_smeft_value**2), '.6e') ,'# cHdAbs13'], 
-	[49, format(abs(wc.dict['phid_22']* lambda_smeft_value**2), '.6e') ,'# cHdAbs22'], 
+	[49, format((wc.dict['phid_22']* lambda_smeft_value**2), '.6e') ,'# cHdAbs22'], 
 	[50, format(abs(wc.dict['phid_23']* lambda_smeft_value**2), '.6e') ,'# cHdAbs23'], 
-	[51, format(abs(wc.dict['phid_33']* lambda_smeft_value**2), '.6e') ,'# cHdAbs33'], 
+	[51, format((wc.dict['phid_33']* lambda_smeft_value**2), '.6e') ,'# cHdAbs33'], 
 	[52, format(angle(wc.dict['phid_12']), '.6e') ,'# cHdPh12'], 
 	[53, format(angle(wc.dict['phid_13']), '.6e') ,'# cHdPh13'], 
 	[54, format(angle(wc.dict['phid_23']), '.6e') ,'# cHdPh23'], 
-	[55, format(abs(wc.dict['phie_11']* lambda_smeft_value**2), '.6e') ,'# cHeAbs11'], 
+	[55, format((wc.dict['phie_11']* lambda_smeft_value**2), '.6e') ,'# cHeAbs11'], 
 	[56, format(abs(wc.dict['phie_12']* lambda_smeft_value**2), '.6e') ,'# cHeAbs12'], 
 	[57, format(abs(wc.dict['phie_13']* lambda_smeft_value**2), '.6e') ,'# cHeAbs13'], 
-	[58, format(abs(wc.dict['phie_22']* lambda_smeft_value**2), '.6e') ,'# cHeAbs22'], 
+	[58, format((wc.dict['phie_22']* lambda_smeft_value**2), '.6e') ,'# cHeAbs22'], 
 	[59, format(abs(wc.dict['phie_23']* lambda_smeft_value**2), '.6e') ,'# cHeAbs23'], 
-	[60, format(abs(wc.dict['phie_33']* lambda_smeft_value**2), '.6e') ,'# cHeAbs33'], 
+	[60, format((wc.dict['phie_33']* lambda_smeft_value**2), '.6e') ,'# cHeAbs33'], 
 	[61, format(angle(wc.dict['phie_12']), '.6e') ,'# cHePh12'], 
 	[62, format(angle(wc.dict['phie_13']), '.6e') ,'# cHePh13'], 
 	[63, format(angle(wc.dict['phie_23']), '.6e') ,'# cHePh23'], 
-- 
2.43.0


From 0bea87aa40f3a89e428466f0ee1a5137be483e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:49 +0000
Subject: [PATCH 16/26] fix: accept LaTeX logs that are not valid UTF-8

---
 wcxf/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index 0c9ab8a..538c26b 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -83,7 +83,7 @@ def _testtex(s, delete=True):
     logf = os.path.join(tmpd, 'textest.log')
     res['log'] = ''
     try:
-        with open(logf, 'r') as f:
+        with open(logf, 'r', errors='replace') as f:
             logl = f.readlines()
     except FileNotFoundError:
         logl = []
-- 
2.43.0


From c7d44d1e1906dcb43c74621933fe6e6601053d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:15 +0000
Subject: [PATCH 17/26] fix: keep the sign of ee_3333 in SMEFTsim cards of
 model set A

The coefficient is real and has no associated phase.
---
 wcxf/converters/smeftsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wcxf/converters/smeftsim.py b/wcxf/converters/smeftsim.py
index 7683be5..d788667 100644
--- a/wcxf/converters/smeftsim.py
+++ b/wcxf/converters/smeftsim.py
@@ -967,7 +967,7 @@ def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_val
           [863, format(wc.dict['ee_2222'] * lambda_smeft_value**2,'.6e'),      '# ceeAbs2222'], 
           [864, format(wc.dict['ee_2233'] * lambda_smeft_value**2,'.6e'),      '# ceeAbs2233'], 
           [865, format(abs(wc.dict['ee_1112']) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1112'], 
-          [866, format(abs(wc.dict['ee_3333']) * lambda_smeft_value**2,'.6e'),      '# ceeAbs3333'], 
+          [866, format(wc.dict['ee_3333'] * lambda_smeft_value**2,'.6e'),      '# ceeAbs3333'], 
           [867, format(abs(wc.dict['ee_1123']) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1123'], 
           [868, format(abs(wc.dict['ee_1113']) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1113'], 
           [869, format(abs(wc.dict['ee_1213']) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1213'], 
-- 
2.43.0


From 5671fe461824ed63e64739a692bfeac04ade7bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:23 +0000
Subject: [PATCH 18/26] fix: do not hand empty formulas to LaTeX

A coefficient without LaTeX code contributed '$$' to the test document,
which starts a displayed equation and makes latex reject the basis.
---
 wcxf/classes.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index 538c26b..e803cdc 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -266,10 +266,11 @@ class Basis(WCxf, NamedInstanceClass):
                              " {}".format(dupes))
         # check for LaTeX errors
         # string with all tex values
-        alltex = '${}$'.format('$, $'.join([d.get('tex', '')
-                                            for c in self.sectors.values()
-                                            for d in c.values()
-                                            if d is not None]))
+        # (only non-empty ones: '$$' would start a displayed equation)
+        alltex = ', '.join(['${}$'.format(d['tex'])
+                            for c in self.sectors.values()
+                            for d in c.values()
+                            if d is not None and d.get('tex')])
         res = _testtex(alltex)
         if not res['success']:
             raise ValueError("Validation of basis {}/{}: "
-- 
2.43.0


From ac42adf7adbbd8fd28b992fbb5c049b81f985b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:23 +0000
Subject: [PATCH 19/26] fix: treat a latex that cannot be executed like a
 missing one

With a PATH entry that may not be searched (or a directory called latex on
the PATH) validation failed with PermissionError and left the temporary
directory behind.
---
 wcxf/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index e803cdc..6396d0b 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -71,7 +71,7 @@ def _testtex(s, delete=True):
         p = subprocess.run(['latex', '-halt-on-error',
                             '-output-directory', tmpd, tmpf],
                            stdout=subprocess.DEVNULL)
-    except FileNotFoundError:
+    except (FileNotFoundError, PermissionError):
         logging.warn('latex executable not found. Cannot check tex code')
         if delete:
             shutil.rmtree(tmpd)
-- 
2.43.0


From 0ae553f5653070ebafffeb62727923e41fec8d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:04 +0000
Subject: [PATCH 20/26] fix: find the definition files when the installation
 path has glob characters

---
 wcxf/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wcxf/__init__.py b/wcxf/__init__.py
index 98f1281..066a8e1 100644
--- a/wcxf/__init__.py
+++ b/wcxf/__init__.py
@@ -9,9 +9,9 @@ import os
 import glob
 
 _root = os.path.abspath(os.path.dirname(__file__))
-all_efts = glob.glob(os.path.join(_root, 'bases', '*.eft.json'))
-all_bases = glob.glob(os.path.join(_root, 'bases', '*.basis.json'))
-child_bases = glob.glob(os.path.join(_root, 'bases', 'child', '*.basis.json'))
+all_efts = glob.glob(os.path.join(glob.escape(_root), 'bases', '*.eft.json'))
+all_bases = glob.glob(os.path.join(glob.escape(_root), 'bases', '*.basis.json'))
+child_bases = glob.glob(os.path.join(glob.escape(_root), 'bases', 'child', '*.basis.json'))
 
 for eft in all_efts:
     with open(eft, 'r') as f:
-- 
2.43.0


From a1333cc01dea7e07b2195c1b5c415c1f137ca67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:04 +0000
Subject: [PATCH 21/26] fix: find the EOS parameter files when the prefix has
 glob characters

---
 wcxf/converters/eos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wcxf/converters/eos.py b/wcxf/converters/eos.py
index fcb022d..6f1058b 100644
--- a/wcxf/converters/eos.py
+++ b/wcxf/converters/eos.py
@@ -11,7 +11,7 @@ def get_sm_wcs(eos_parameter_dir):
     """Read SM contributions to EOS Wilson coefficients from the EOS
     installation parameter directory and return them as a dictionary."""
     all_wcs = {}
-    yamlfiles = glob.glob(os.path.join(eos_parameter_dir, '*.yaml'))
+    yamlfiles = glob.glob(os.path.join(glob.escape(eos_parameter_dir), '*.yaml'))
     for yamlfile in yamlfiles:
         with open(yamlfile, 'r') as f:
             wcs = yaml.load(f)
-- 
2.43.0


From d029c6dbd3ad40d003e3f459b3fadc64d3e19d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:48 +0000
Subject: [PATCH 22/26] fix: clean up after the LaTeX check also if it fails or
 is interrupted

---
 wcxf/classes.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index 6396d0b..c07588e 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -64,6 +64,16 @@ def _testtex(s, delete=True):
     \end{document}"""
     doc = _preamble + s + _enddoc
     tmpd = tempfile.mkdtemp()
+    try:
+        return _runlatex(doc, tmpd)
+    finally:
+        # also if the document cannot be written or latex is interrupted
+        if delete:
+            shutil.rmtree(tmpd)
+
+
+def _runlatex(doc, tmpd):
+    """Compile the LaTeX document in the directory `tmpd`."""
     tmpf = os.path.join(tmpd, 'textest.tex')
     with open(tmpf, 'w') as f:
         f.write(doc)
@@ -73,8 +83,6 @@ def _testtex(s, delete=True):
                            stdout=subprocess.DEVNULL)
     except (FileNotFoundError, PermissionError):
         logging.warn('latex executable not found. Cannot check tex code')
-        if delete:
-            shutil.rmtree(tmpd)
         return {'success': True}
     if p.returncode == 0:
         res = {'success': True}
@@ -101,8 +109,6 @@ def _testtex(s, delete=True):
                 l = logl[i]
             except IndexError:
                 break
-    if delete:
-        shutil.rmtree(tmpd)
     return res
 
 
-- 
2.43.0


From cf3bf368848af8f50d1d7f198e56cc05b377ef0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:48 +0000
Subject: [PATCH 23/26] fix: treat a latex that has no executable format like a
 missing one

---
 wcxf/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index c07588e..01e1fef 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -81,7 +81,7 @@ def _runlatex(doc, tmpd):
         p = subprocess.run(['latex', '-halt-on-error',
                             '-output-directory', tmpd, tmpf],
                            stdout=subprocess.DEVNULL)
-    except (FileNotFoundError, PermissionError):
+    except OSError:
         logging.warn('latex executable not found. Cannot check tex code')
         return {'success': True}
     if p.returncode == 0:
-- 
2.43.0


From 0a64e76ac75fc05413b59f91742c2bc91aea015e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:22 +0000
Subject: [PATCH 24/26] fix: --output without a file name is the standard
 output

---
 wcxf/cli.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wcxf/cli.py b/wcxf/cli.py
index 544413d..4b35766 100755
--- a/wcxf/cli.py
+++ b/wcxf/cli.py
@@ -23,7 +23,7 @@ def wcxf_cli():
                                 help="Input file. If \"-\", read from standard input")
     parser_convert.add_argument("--output", nargs='?',
                                       type=argparse.FileType('w'),
-                                      default=sys.stdout,
+                                      default=sys.stdout, const=sys.stdout,
                                       help="Output file. If absent, print to standard output")
     parser_convert.set_defaults(func=convert)
 
@@ -38,7 +38,7 @@ def wcxf_cli():
                                   default=sys.stdin,
                                   help="Input file. If \"-\", read from standard input")
     parser_translate.add_argument("--output", nargs='?',
-                                  type=argparse.FileType('w'), default=sys.stdout,
+                                  type=argparse.FileType('w'), default=sys.stdout, const=sys.stdout,
                                   help="Output file. If absent, print to standard output")
     parser_translate.add_argument("--format", type=str,
                                   default="json",
@@ -56,7 +56,7 @@ def wcxf_cli():
                               type=argparse.FileType('r'), default=sys.stdin,
                               help="Input file. If \"-\", read from standard input")
     parser_match.add_argument("--output", nargs='?',
-                              type=argparse.FileType('w'), default=sys.stdout,
+                              type=argparse.FileType('w'), default=sys.stdout, const=sys.stdout,
                               help="Output file. If absent, print to standard output")
     parser_match.add_argument("--format", type=str, default="json",
                               help="Output format (default: json)")
@@ -128,7 +128,7 @@ def eos():
     parser.add_argument("--eosprefix", help="Installation prefix for the EOS installation. Defaults to /usr",
                         default='/usr')
     parser.add_argument("--output", nargs='?', help="Output file. If absent, print to standard output",
-                        type=argparse.FileType('w'), default=sys.stdout)
+                        type=argparse.FileType('w'), default=sys.stdout, const=sys.stdout)
     parser.add_argument("--eoshome", help="EOS home directory. If specified, values will be written to EOSHOME/parameters/wcxf.yaml. Cannot be used simultaneously with output",
                         default=None)
     args = parser.parse_args()
-- 
2.43.0


From 7f4be587574a44a220b2693c221a00cbd6b71781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:03 +0000
Subject: [PATCH 25/26] fix: report output that cannot be stored in the exit
 status

---
 wcxf/cli.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wcxf/cli.py b/wcxf/cli.py
index 4b35766..b44be4e 100755
--- a/wcxf/cli.py
+++ b/wcxf/cli.py
@@ -78,7 +78,11 @@ def wcxf_cli():
     if not hasattr(args, 'func'):
         parser.print_help()
         return 0
-    return args.func(args)
+    status = args.func(args)
+    if hasattr(args, 'output'):
+        # fail here if the output cannot be stored (e.g. disk full)
+        args.output.flush()
+    return status
 
 
 def convert(args):
-- 
2.43.0


From 982248a2e5dcd82075b1d9935dc635ec5b777751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:27 +0000
Subject: [PATCH 26/26] fix: YAML merge keys in documents

The mapping constructor for ordered dictionaries did not resolve merge
keys, so valid YAML files using them could not be loaded or converted.
---
 wcxf/classes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index 01e1fef..cc03ac7 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -22,6 +22,8 @@ yaml.add_representer(type(None), represent_none)
 # the following is necessary to load YAML mappings as OrderedDicts
 _mapping_tag = yaml.resolver.BaseResolver.DEFAULT_MAPPING_TAG
 def _dict_constructor(loader, node):
+    if isinstance(node, yaml.MappingNode):
+        loader.flatten_mapping(node)  # resolve merge keys ('<<')
     return OrderedDict(loader.construct_pairs(node))
 yaml.add_constructor(_mapping_tag, _dict_constructor)
 
-- 
2.43.0

