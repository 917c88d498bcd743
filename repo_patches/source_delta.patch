From 9d53442610b57bc4e2b98c07a7cda759b463a7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:15 +0000
Subject: [PATCH 01/24] fix: child basis must not modify its parent or be
 registered when invalid

---
 wcxf/classes.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index 7392821..beef2ad 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -217,18 +217,20 @@ class Basis(WCxf, NamedInstanceClass):
         """Instantiate the basis file object."""
         self.eft = eft
         self.basis = basis
-        super().__init__((eft, basis))
         for k, v in kwargs.items():
             setattr(self, k, v)
         if hasattr(self, 'parent'):
             try:
-                self.sectors = Basis[self.eft, self.parent].sectors
-                self.sectors.update(sectors)
+                parent_sectors = Basis[self.eft, self.parent].sectors
             except (AttributeError, KeyError):
                 raise ValueError("Parent basis {} not found".format(self.parent))
+            # copy in order not to modify the parent basis
+            self.sectors = parent_sectors.copy()
+            self.sectors.update(sectors)
         else:
             self.sectors = sectors
         self._all_wcs = None
+        super().__init__((eft, basis))
 
     @property
     def known_translators(self):
-- 
2.43.0


From a429b25780492276f8e2b9e7eb59620ddde3e1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:15 +0000
Subject: [PATCH 02/24] fix: pass user parameters on to the SMEFT translators

---
 wcxf/translators/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wcxf/translators/__init__.py b/wcxf/translators/__init__.py
index b432a7c..cba69fa 100644
--- a/wcxf/translators/__init__.py
+++ b/wcxf/translators/__init__.py
@@ -5,17 +5,17 @@ import wcxf
 
 @wcxf.translator('SMEFT', 'Warsaw', 'Warsaw mass')
 def warsaw_to_warsawmass(C, scale, parameters):
-    return smeft.warsaw_to_warsawmass(C)
+    return smeft.warsaw_to_warsawmass(C, parameters)
 
 
 @wcxf.translator('SMEFT', 'Warsaw', 'Warsaw up')
 def warsaw_to_warsaw_up(C, scale, parameters):
-    return smeft.warsaw_to_warsaw_up(C)
+    return smeft.warsaw_to_warsaw_up(C, parameters)
 
 
 @wcxf.translator('SMEFT', 'Warsaw up', 'Warsaw')
 def warsaw_up_to_warsaw(C, scale, parameters):
-    return smeft.warsaw_up_to_warsaw(C)
+    return smeft.warsaw_up_to_warsaw(C, parameters)
 
 
 @wcxf.translator('WET', 'JMS', 'flavio')
-- 
2.43.0


From 3c9fc381c75c11067faa5eacf98ead98da3a44fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:15 +0000
Subject: [PATCH 03/24] fix: rotate down-type dipoles to the mass basis in
 SMEFT-WET matching

---
 wcxf/translators/wet.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wcxf/translators/wet.py b/wcxf/translators/wet.py
index 7421d5a..9ded3fa 100644
--- a/wcxf/translators/wet.py
+++ b/wcxf/translators/wet.py
@@ -979,6 +979,11 @@ def rotate_down(C_in, p):
         C[k] = np.einsum('kc,ijkl->ijcl',
                          UdL.conj(),
                          C_in[k])
+    # type dL X
+    for k in ['dgamma', 'dG']:
+        C[k] = np.einsum('ia,ij->aj',
+                         UdL.conj(),
+                         C_in[k])
     # type X X X dL
     for k in ['SedRL', ]:
         C[k] = np.einsum('ld,ijkl->ijkd',
-- 
2.43.0


From 9b05ab979cf11f37fefd801a70acbbdc27629108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:15 +0000
Subject: [PATCH 04/24] fix: normalize leptonic CAL dipoles by e in JMS to
 FormFlavor

---
 wcxf/translators/wet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wcxf/translators/wet.py b/wcxf/translators/wet.py
index 9ded3fa..5d2b658 100644
--- a/wcxf/translators/wet.py
+++ b/wcxf/translators/wet.py
@@ -865,7 +865,7 @@ def JMS_to_FormFlavor_chrom(C, qq, parameters):
         l2 = llflav[qq[1]]
         return {
             'CAR_' + qq : C['egamma'][l1, l2] / e,
-            'CAL_' + qq : C['egamma'][l2, l1].conj() / gs,
+            'CAL_' + qq : C['egamma'][l2, l1].conj() / e,
                 }
     if qq[0] in uflav.keys():
         u = uflav[qq[0]]
-- 
2.43.0


From 821acd6b52b7d5b5cbc3c78ad6e7b81e178fa04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:15 +0000
Subject: [PATCH 05/24] fix: use the s->d flavour indices for sdnn in JMS to
 FormFlavor

---
 wcxf/translators/wet.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/wcxf/translators/wet.py b/wcxf/translators/wet.py
index 5d2b658..518e3a4 100644
--- a/wcxf/translators/wet.py
+++ b/wcxf/translators/wet.py
@@ -714,12 +714,12 @@ def JMS_to_FormFlavor_lep(C, dd):
         'CSRL_' + dd + 'mm' : C["SedRL"][1, 1, b, s].conj(),
         'CTLL_' + dd + 'mm' : C["TedRR"][1, 1, b, s].conj(),
         'CTRR_' + dd + 'mm' : C["TedRR"][1, 1, s, b],
-        'CVLL_sdnn' : 1 / 3 * C["VnudLL"][0, 0, s-1, s]
-                      + 1 / 3 * C["VnudLL"][1, 1, s-1, s]
-                      + 1 / 3 * C["VnudLL"][2, 2, s-1, s],
-        'CVRL_sdnn' : 1 / 3 * C["VnudLR"][0, 0, s-1, s]
-                      + 1 / 3 * C["VnudLR"][1, 1, s-1, s]
-                      + 1 / 3 * C["VnudLR"][2, 2, s-1, s]
+        'CVLL_sdnn' : 1 / 3 * C["VnudLL"][0, 0, dflav['d'], dflav['s']]
+                      + 1 / 3 * C["VnudLL"][1, 1, dflav['d'], dflav['s']]
+                      + 1 / 3 * C["VnudLL"][2, 2, dflav['d'], dflav['s']],
+        'CVRL_sdnn' : 1 / 3 * C["VnudLR"][0, 0, dflav['d'], dflav['s']]
+                      + 1 / 3 * C["VnudLR"][1, 1, dflav['d'], dflav['s']]
+                      + 1 / 3 * C["VnudLR"][2, 2, dflav['d'], dflav['s']]
             }
 
 # chromomagnetic operators
-- 
2.43.0


From f56153a876b5fdce18c746eea7b2b5cb7fedb60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:15 +0000
Subject: [PATCH 06/24] fix: translate the ds neutrino operators from flavio to
 Bern

---
 wcxf/translators/wet.py | 44 ++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/wcxf/translators/wet.py b/wcxf/translators/wet.py
index 518e3a4..9251071 100644
--- a/wcxf/translators/wet.py
+++ b/wcxf/translators/wet.py
@@ -554,12 +554,17 @@ def JMS_to_Fierz_lep(C, ddll):
         }
 
 
-def Fierz_to_Bern_lep(C,ddll):
+def Fierz_to_Bern_lep(C, ddll, include_charged=True):
     """From semileptonic Fierz basis to Bern semileptonic basis for Class V.
     C should be the corresponding leptonic Fierz basis and
     `ddll` should be of the form 'sbl_enu_tau', 'dbl_munu_e' etc."""
     ind = ddll.replace('l_','').replace('nu_','')
-    return {'1' + ind : 5 * C['F'+ ind + '10'] / 3 + C['F'+ ind + '9'],
+    dic = {'nu1' + ind : C['F' + ind + 'nu'],
+           'nu1p' + ind : C['F' + ind + 'nup']
+           }
+    if include_charged:
+        dic.update({
+            '1' + ind : 5 * C['F'+ ind + '10'] / 3 + C['F'+ ind + '9'],
             '3' + ind : -C['F' + ind + '10'] / 6,
             '5' + ind : C['F' + ind + 'S'] - 5 * C['F' + ind + 'P'] / 3,
             '7' + ind : 2 * C['F' + ind + 'P'] / 3 + C['F' + ind + 'T']
@@ -571,9 +576,8 @@ def Fierz_to_Bern_lep(C,ddll):
             '7p' + ind : -2 * C['F' + ind + 'Pp'] / 3 + C['F' + ind + 'T']
                         - C['F' + ind + 'T5'],
             '9p' + ind : -C['F' + ind + 'Pp'] / 24,
-            'nu1' + ind : C['F' + ind + 'nu'],
-            'nu1p' + ind : C['F' + ind + 'nup']
-            }
+            })
+    return dic
 
 
 def Bern_to_Fierz_lep(C,ddll):
@@ -634,7 +638,7 @@ def Fierz_to_Flavio_lep(C, ddll, parameters, include_charged=True):
     return {k: prefactor * v for k,v in dic.items()}
 
 
-def Flavio_to_Fierz_lep(C, ddll, parameters):
+def Flavio_to_Fierz_lep(C, ddll, parameters, include_charged=True):
     """From  Flavio semileptonic basis to semileptonic Fierz basis for Class V.
     C should be the corresponding leptonic Fierz basis and
     `ddll` should be of the form 'sbl_enu_tau', 'dbl_munu_e' etc."""
@@ -654,19 +658,22 @@ def Flavio_to_Fierz_lep(C, ddll, parameters):
     e = sqrt(4* pi * parameters['alpha_e'])
     mb = parameters['m_b']
     dic = {
-        'F' + ind + '9': C["C9_" + indfl] / ((16 * pi**2) / e**2),
-        'F' + ind + '9p': C["C9p_" + indfl] / ((16 * pi**2) / e**2),
-        'F' + ind + '10': C["C10_" + indfl] / ((16 * pi**2) / e**2),
-        'F' + ind + '10p': C["C10p_" + indfl] / ((16 * pi**2) / e**2),
-        'F' + ind + 'S': C["CS_" + indfl] / ((16 * pi**2) / e**2 / mb),
-        'F' + ind + 'Sp': C["CSp_" + indfl] / ((16 * pi**2) / e**2 / mb),
-        'F' + ind + 'P': C["CP_" + indfl] / ((16 * pi**2) / e**2 / mb),
-        'F' + ind + 'Pp': C["CPp_" + indfl] / ((16 * pi**2) / e**2 / mb),
         'F' + ind + 'nu': C["CL_" + indnu] / ((8 * pi**2) / e**2),
         'F' + ind + 'nup': C["CR_" + indnu] / ((8 * pi**2) / e**2),
-        'F' + ind + 'T': 0,  # tensors not implemented in flavio basis yet
-        'F' + ind + 'T5': 0,  # tensors not implemented in flavio basis yet
         }
+    if include_charged:
+        dic.update({
+            'F' + ind + '9': C["C9_" + indfl] / ((16 * pi**2) / e**2),
+            'F' + ind + '9p': C["C9p_" + indfl] / ((16 * pi**2) / e**2),
+            'F' + ind + '10': C["C10_" + indfl] / ((16 * pi**2) / e**2),
+            'F' + ind + '10p': C["C10p_" + indfl] / ((16 * pi**2) / e**2),
+            'F' + ind + 'S': C["CS_" + indfl] / ((16 * pi**2) / e**2 / mb),
+            'F' + ind + 'Sp': C["CSp_" + indfl] / ((16 * pi**2) / e**2 / mb),
+            'F' + ind + 'P': C["CP_" + indfl] / ((16 * pi**2) / e**2 / mb),
+            'F' + ind + 'Pp': C["CPp_" + indfl] / ((16 * pi**2) / e**2 / mb),
+            'F' + ind + 'T': 0,  # tensors not implemented in flavio basis yet
+            'F' + ind + 'T5': 0,  # tensors not implemented in flavio basis yet
+        })
     prefactor = sqrt(2)/p['GF']/xi/4
     return {k: v / prefactor for k, v in dic.items()}
 
@@ -1148,6 +1155,11 @@ def flavio_to_Bern(C_incomplete, scale, parameters=None):
             d.update(Fierz_to_Bern_lep(Flavio_to_Fierz_lep(C,
                                         'db'+'l_'+l+'nu_'+lp, p),
                                         'db'+'l_'+l+'nu_'+lp))
+            d.update(Fierz_to_Bern_lep(Flavio_to_Fierz_lep(C,
+                                        'ds'+'l_'+l+'nu_'+lp, p,
+                                        include_charged=False),
+                                        'ds'+'l_'+l+'nu_'+lp,
+                                        include_charged=False))
 
     # Class V chromomagnetic
     d.update(Fierz_to_Bern_chrom(Flavio_to_Fierz_chrom(C, 'sb', p), 'sb', p))
-- 
2.43.0


From 268d08c97e86b9eef58844ed638f76c8067bbe71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:15 +0000
Subject: [PATCH 07/24] fix: add missing bosonic coefficients as scalars

---
 wcxf/util/smeftutil.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wcxf/util/smeftutil.py b/wcxf/util/smeftutil.py
index 9d1dc82..75e3dd9 100644
--- a/wcxf/util/smeftutil.py
+++ b/wcxf/util/smeftutil.py
@@ -573,7 +573,10 @@ def add_missing(C):
     """Add arrays with zeros for missing Wilson coefficient keys"""
     C_out = C.copy()
     for k in (set(WC_keys) - set(C.keys())):
-        C_out[k] = np.zeros(C_keys_shape[k])
+        if C_keys_shape[k] == 1:
+            C_out[k] = 0.  # scalar coefficient
+        else:
+            C_out[k] = np.zeros(C_keys_shape[k])
     return C_out
 
 
-- 
2.43.0


From 044aff24b85941cf62e5f14edc335f9590543c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:15 +0000
Subject: [PATCH 08/24] fix: m_c(m_c) is the input value only in the 4-flavour
 theory

---
 wcxf/util/qcd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wcxf/util/qcd.py b/wcxf/util/qcd.py
index 8ccf8b2..6227df8 100644
--- a/wcxf/util/qcd.py
+++ b/wcxf/util/qcd.py
@@ -90,7 +90,7 @@ def m_b(mbmb, scale, f, alphasMZ=0.1185):
 def m_c(mcmc, scale, f, alphasMZ=0.1185):
     r"""Get running c quark mass in the MSbar scheme at the scale `scale`
     in the theory with `f` dynamical quark flavours starting from $m_c(m_c)$"""
-    if scale == mcmc:
+    if scale == mcmc and f == 4:
         return mcmc  # nothing to do
     _sane(scale, f)
     loop = 3
-- 
2.43.0


From dc3260b5ca4e8d077bdb70fd3366632000bd3eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:15 +0000
Subject: [PATCH 09/24] fix: rejection of invalid flavour numbers must not
 depend on cached calls

---
 wcxf/util/qcd.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/wcxf/util/qcd.py b/wcxf/util/qcd.py
index 6227df8..00af0a2 100644
--- a/wcxf/util/qcd.py
+++ b/wcxf/util/qcd.py
@@ -6,14 +6,14 @@ def _sane(scale, f):
     """Check if scale and no. of flavours are sane"""
     if not isinstance(scale, (float, int)) or scale <= 0:
         raise ValueError("Scale must be a positive number")
-    if not isinstance(f, int) and 3 <= f <= 6:
+    if not isinstance(f, int) or not 3 <= f <= 6:
         raise ValueError("f must be an integer between 3 and 6")
 
 
 MZ = 91.1876
 
 
-@lru_cache(32)
+@lru_cache(32, typed=True)
 def alpha_s(scale, f, alphasMZ=0.1185):
     """3-loop cumputation of alpha_s for f flavours
     with initial condition alpha_s(MZ) = 0.1185"""
@@ -48,7 +48,7 @@ def alpha_s(scale, f, alphasMZ=0.1185):
         raise ValueError("Invalid input: f={}, scale={}".format(f, scale))
 
 
-@lru_cache(32)
+@lru_cache(32, typed=True)
 def m_b(mbmb, scale, f, alphasMZ=0.1185):
     r"""Get running b quark mass in the MSbar scheme at the scale `scale`
     in the theory with `f` dynamical quark flavours starting from $m_b(m_b)$"""
@@ -86,7 +86,7 @@ def m_b(mbmb, scale, f, alphasMZ=0.1185):
         raise ValueError("Invalid input: f={}, scale={}".format(f, scale))
 
 
-@lru_cache(32)
+@lru_cache(32, typed=True)
 def m_c(mcmc, scale, f, alphasMZ=0.1185):
     r"""Get running c quark mass in the MSbar scheme at the scale `scale`
     in the theory with `f` dynamical quark flavours starting from $m_c(m_c)$"""
@@ -113,7 +113,7 @@ def m_c(mcmc, scale, f, alphasMZ=0.1185):
         raise ValueError("Invalid input: f={}, scale={}".format(f, scale))
 
 
-@lru_cache(32)
+@lru_cache(32, typed=True)
 def m_s(ms2, scale, f, alphasMZ=0.1185):
     r"""Get running s quark mass in the MSbar scheme at the scale `scale`
     in the theory with `f` dynamical quark flavours starting from $m_s(2 \,\text{GeV})$"""
-- 
2.43.0


From 1e1be7aef2b9f8155dd81ea030b2c01e825e90c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:15 +0000
Subject: [PATCH 10/24] fix: remove the temporary directory when latex is not
 available

---
 wcxf/classes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index beef2ad..243a6fa 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -72,7 +72,9 @@ def _testtex(s, delete=True):
                             '-output-directory', tmpd, tmpf],
                            stdout=subprocess.DEVNULL)
     except FileNotFoundError:
-        logging.warn('latex executable not found. Cannot check tex code')
+        logging.warning('latex executable not found. Cannot check tex code')
+        if delete:
+            shutil.rmtree(tmpd)
         return {'success': True}
     if p.returncode == 0:
         res = {'success': True}
@@ -84,7 +86,7 @@ def _testtex(s, delete=True):
         with open(logf, 'r') as f:
             logl = f.readlines()
     except FileNotFoundError:
-        pass
+        logl = []
     fail = False
     for i, l in enumerate(logl):
         if 'Undefined control sequence' in l or 'Emergency stop' in l:
-- 
2.43.0


From f47f7f8ed186384d71df3d3662a687111a6f64bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:15 +0000
Subject: [PATCH 11/24] fix: allow coefficients without metadata in the basis
 tables

---
 wcxf/classes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index 243a6fa..c130592 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -305,6 +305,7 @@ class Basis(WCxf, NamedInstanceClass):
                 # fractions of line width (default: 72)
                 md += "|" + 18 * "-" + "|" + 48 * "-" + "|" + 6 * "-" + "|\n"
                 for name, d in wcs.items():
+                    d = d or {}  # coefficient without metadata
                     if 'real' not in d or not d['real']:
                         t = 'C'
                     else:
-- 
2.43.0


From 88e0df2137dbc4809a1ec06fa5796710dc5469cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:15 +0000
Subject: [PATCH 12/24] fix: report failures of the wcxf command through its
 exit status

---
 wcxf/cli.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/wcxf/cli.py b/wcxf/cli.py
index 6c35d27..6ff4727 100755
--- a/wcxf/cli.py
+++ b/wcxf/cli.py
@@ -75,18 +75,21 @@ def wcxf_cli():
     parser_validate.set_defaults(func=validate)
 
     args = parser.parse_args()
-    try:
-        args.func(args)
-    except AttributeError:
+    if not hasattr(args, 'func'):  # no subcommand given
         parser.print_help()
+        return 0
+    return args.func(args)
 
 
 def convert(args):
     from wcxf.converters.yamljson import convert_json, convert_yaml
     if args.FORMAT.lower() == 'json':
-        convert_json(args.FILE, args.output)
-    if args.FORMAT.lower() == 'yaml':
-        convert_yaml(args.FILE, args.output)
+        return convert_json(args.FILE, args.output)
+    elif args.FORMAT.lower() == 'yaml':
+        return convert_yaml(args.FILE, args.output)
+    else:
+        logging.error("FORMAT should be 'yaml' or 'json'")
+        return 1
 
 
 def translate(args):
-- 
2.43.0


From a96b5fb9d17016a847fa606b647e4f748e08d263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:15 +0000
Subject: [PATCH 13/24] fix: treat coefficients missing in the input as zero in
 SMEFTsim cards

---
 wcxf/converters/smeftsim.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/wcxf/converters/smeftsim.py b/wcxf/converters/smeftsim.py
index e939bd3..3ab13d4 100644
--- a/wcxf/converters/smeftsim.py
+++ b/wcxf/converters/smeftsim.py
@@ -1,7 +1,7 @@
 """Functions to convert WCxf files to MadGraph param_cards for SMEFTsim."""
 
 from numpy import angle
-from collections import OrderedDict
+from collections import OrderedDict, defaultdict
 from wcxf.converters.SMEFTsim_param_card_elements import *
 
 
@@ -88,7 +88,14 @@ def initialize_smeftsim_card(model_set):
   return card
 
 
+class _WCWithZeros(object):
+  """Wilson coefficients where those missing in the WCxf file are zero."""
+  def __init__(self, wc):
+    self.dict = defaultdict(float, wc.dict)
+
+
 def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_value):
+  wc = _WCWithZeros(wc)
 
   if model_set == 'A':
       # set block entries to WC values
-- 
2.43.0


From 50e147c08d94deca0f2277610651cf2e1a273114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:15 +0000
Subject: [PATCH 14/24] fix: known_bases of an EFT when no basis has been
 defined yet

---
 wcxf/classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index c130592..e7d4ec3 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -205,7 +205,8 @@ class EFT(WCxf, NamedInstanceClass):
     @property
     def known_bases(self):
         """Return a list of known bases for this EFT."""
-        return tuple(basis[1] for basis in Basis.instances if basis[0] == self.eft)
+        return tuple(basis[1] for basis in getattr(Basis, 'instances', {})
+                     if basis[0] == self.eft)
 
     @property
     def known_translators(self):
-- 
2.43.0


From 363e6ea64af48ab5fb865c8cc4c67d9554022b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:54 +0000
Subject: [PATCH 15/24] fix: keep the sign of real coefficients in SMEFTsim
 cards

---
 wcxf/converters/smeftsim.py | 86 ++++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 43 deletions(-)

diff --git a/wcxf/converters/smeftsim.py b/wcxf/converters/smeftsim.py
index 3ab13d4..585f4aa 100644
--- a/wcxf/converters/smeftsim.py
+++ b/wcxf/converters/smeftsim.py
@@ -746,48 +746,48 @@ def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_val
 	  [644, format(wc.dict['phiBtilde'] * lambda_smeft_value**2,'.6e'), '# cHBtil'],
 	  [645, format(wc.dict['phiWB'] * lambda_smeft_value**2,'.6e'), '# cHWB'],
 	  [646, format(wc.dict['phiWtildeB'] * lambda_smeft_value**2,'.6e'), '# cHWBtil'],
-	  [647, format(abs(wc.dict['phil1_11']) * lambda_smeft_value**2,'.6e'), '# cHl1Abs11'],
+	  [647, format(wc.dict['phil1_11'] * lambda_smeft_value**2,'.6e'), '# cHl1Abs11'],
 	  [648, format(abs(wc.dict['phil1_12']) * lambda_smeft_value**2,'.6e'), '# cHl1Abs12'],
 	  [649, format(abs(wc.dict['phil1_13']) * lambda_smeft_value**2,'.6e'), '# cHl1Abs13'],
-	  [650, format(abs(wc.dict['phil1_22']) * lambda_smeft_value**2,'.6e'), '# cHl1Abs22'],
+	  [650, format(wc.dict['phil1_22'] * lambda_smeft_value**2,'.6e'), '# cHl1Abs22'],
 	  [651, format(abs(wc.dict['phil1_23']) * lambda_smeft_value**2,'.6e'), '# cHl1Abs23'],
-	  [652, format(abs(wc.dict['phil1_33']) * lambda_smeft_value**2,'.6e'), '# cHl1Abs33'],
-	  [653, format(abs(wc.dict['phil3_11']) * lambda_smeft_value**2,'.6e'), '# cHl3Abs11'],
+	  [652, format(wc.dict['phil1_33'] * lambda_smeft_value**2,'.6e'), '# cHl1Abs33'],
+	  [653, format(wc.dict['phil3_11'] * lambda_smeft_value**2,'.6e'), '# cHl3Abs11'],
 	  [654, format(abs(wc.dict['phil3_12']) * lambda_smeft_value**2,'.6e'), '# cHl3Abs12'],
 	  [655, format(abs(wc.dict['phil3_13']) * lambda_smeft_value**2,'.6e'), '# cHl3Abs13'],
-	  [656, format(abs(wc.dict['phil3_22']) * lambda_smeft_value**2,'.6e'), '# cHl3Abs22'],
+	  [656, format(wc.dict['phil3_22'] * lambda_smeft_value**2,'.6e'), '# cHl3Abs22'],
 	  [657, format(abs(wc.dict['phil3_23']) * lambda_smeft_value**2,'.6e'), '# cHl3Abs23'],
-	  [658, format(abs(wc.dict['phil3_33']) * lambda_smeft_value**2,'.6e'), '# cHl3Abs33'],
-	  [659, format(abs(wc.dict['phiq1_11']) * lambda_smeft_value**2,'.6e'), '# cHq1Abs11'],
+	  [658, format(wc.dict['phil3_33'] * lambda_smeft_value**2,'.6e'), '# cHl3Abs33'],
+	  [659, format(wc.dict['phiq1_11'] * lambda_smeft_value**2,'.6e'), '# cHq1Abs11'],
 	  [660, format(abs(wc.dict['phiq1_12']) * lambda_smeft_value**2,'.6e'), '# cHq1Abs12'],
 	  [661, format(abs(wc.dict['phiq1_13']) * lambda_smeft_value**2,'.6e'), '# cHq1Abs13'],
-	  [662, format(abs(wc.dict['phiq1_22']) * lambda_smeft_value**2,'.6e'), '# cHq1Abs22'],
+	  [662, format(wc.dict['phiq1_22'] * lambda_smeft_value**2,'.6e'), '# cHq1Abs22'],
 	  [663, format(abs(wc.dict['phiq1_23']) * lambda_smeft_value**2,'.6e'), '# cHq1Abs23'],
-	  [664, format(abs(wc.dict['phiq1_33']) * lambda_smeft_value**2,'.6e'), '# cHq1Abs33'],
-	  [665, format(abs(wc.dict['phiq3_11']) * lambda_smeft_value**2,'.6e'), '# cHq3Abs11'],
+	  [664, format(wc.dict['phiq1_33'] * lambda_smeft_value**2,'.6e'), '# cHq1Abs33'],
+	  [665, format(wc.dict['phiq3_11'] * lambda_smeft_value**2,'.6e'), '# cHq3Abs11'],
 	  [666, format(abs(wc.dict['phiq3_12']) * lambda_smeft_value**2,'.6e'), '# cHq3Abs12'],
 	  [667, format(abs(wc.dict['phiq3_13']) * lambda_smeft_value**2,'.6e'), '# cHq3Abs13'],
-	  [668, format(abs(wc.dict['phiq3_22']) * lambda_smeft_value**2,'.6e'), '# cHq3Abs22'],
+	  [668, format(wc.dict['phiq3_22'] * lambda_smeft_value**2,'.6e'), '# cHq3Abs22'],
 	  [669, format(abs(wc.dict['phiq3_23']) * lambda_smeft_value**2,'.6e'), '# cHq3Abs23'],
-	  [670, format(abs(wc.dict['phiq3_33']) * lambda_smeft_value**2,'.6e'), '# cHq3Abs33'],
-	  [671, format(abs(wc.dict['phie_11']) * lambda_smeft_value**2,'.6e'), '# cHeAbs11'],
+	  [670, format(wc.dict['phiq3_33'] * lambda_smeft_value**2,'.6e'), '# cHq3Abs33'],
+	  [671, format(wc.dict['phie_11'] * lambda_smeft_value**2,'.6e'), '# cHeAbs11'],
 	  [672, format(abs(wc.dict['phie_12']) * lambda_smeft_value**2,'.6e'), '# cHeAbs12'],
 	  [673, format(abs(wc.dict['phie_13']) * lambda_smeft_value**2,'.6e'), '# cHeAbs13'],
-	  [674, format(abs(wc.dict['phie_22']) * lambda_smeft_value**2,'.6e'), '# cHeAbs22'],
+	  [674, format(wc.dict['phie_22'] * lambda_smeft_value**2,'.6e'), '# cHeAbs22'],
 	  [675, format(abs(wc.dict['phie_23']) * lambda_smeft_value**2,'.6e'), '# cHeAbs23'],
-	  [676, format(abs(wc.dict['phie_33']) * lambda_smeft_value**2,'.6e'), '# cHeAbs33'],
-	  [677, format(abs(wc.dict['phiu_11']) * lambda_smeft_value**2,'.6e'), '# cHuAbs11'],
+	  [676, format(wc.dict['phie_33'] * lambda_smeft_value**2,'.6e'), '# cHeAbs33'],
+	  [677, format(wc.dict['phiu_11'] * lambda_smeft_value**2,'.6e'), '# cHuAbs11'],
 	  [678, format(abs(wc.dict['phiu_12']) * lambda_smeft_value**2,'.6e'), '# cHuAbs12'],
 	  [679, format(abs(wc.dict['phiu_13']) * lambda_smeft_value**2,'.6e'), '# cHuAbs13'],
-	  [680, format(abs(wc.dict['phiu_22']) * lambda_smeft_value**2,'.6e'), '# cHuAbs22'],
+	  [680, format(wc.dict['phiu_22'] * lambda_smeft_value**2,'.6e'), '# cHuAbs22'],
 	  [681, format(abs(wc.dict['phiu_23']) * lambda_smeft_value**2,'.6e'), '# cHuAbs23'],
-	  [682, format(abs(wc.dict['phiu_33']) * lambda_smeft_value**2,'.6e'), '# cHuAbs33'],
-	  [683, format(abs(wc.dict['phid_11']) * lambda_smeft_value**2,'.6e'), '# cHdAbs11'],
+	  [682, format(wc.dict['phiu_33'] * lambda_smeft_value**2,'.6e'), '# cHuAbs33'],
+	  [683, format(wc.dict['phid_11'] * lambda_smeft_value**2,'.6e'), '# cHdAbs11'],
 	  [684, format(abs(wc.dict['phid_12']) * lambda_smeft_value**2,'.6e'), '# cHdAbs12'],
 	  [685, format(abs(wc.dict['phid_13']) * lambda_smeft_value**2,'.6e'), '# cHdAbs13'],
-	  [686, format(abs(wc.dict['phid_22']) * lambda_smeft_value**2,'.6e'), '# cHdAbs22'],
+	  [686, format(wc.dict['phid_22'] * lambda_smeft_value**2,'.6e'), '# cHdAbs22'],
 	  [687, format(abs(wc.dict['phid_23']) * lambda_smeft_value**2,'.6e'), '# cHdAbs23'],
-	  [688, format(abs(wc.dict['phid_33']) * lambda_smeft_value**2,'.6e'), '# cHdAbs33'],
+	  [688, format(wc.dict['phid_33'] * lambda_smeft_value**2,'.6e'), '# cHdAbs33'],
 	  [689, format(wc.dict['ll_1111'] * lambda_smeft_value**2,'.6e'), '# cllAbs1111'],
 	  [690, format(wc.dict['ll_1122'] * lambda_smeft_value**2,'.6e'), '# cllAbs1122'],
 	  [691, format(wc.dict['ll_1221'] * lambda_smeft_value**2,'.6e'), '# cllAbs1221'],
@@ -965,7 +965,7 @@ def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_val
           [863, format(wc.dict['ee_2222'] * lambda_smeft_value**2,'.6e'),      '# ceeAbs2222'], 
           [864, format(wc.dict['ee_2233'] * lambda_smeft_value**2,'.6e'),      '# ceeAbs2233'], 
           [865, format(abs(wc.dict['ee_1112']) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1112'], 
-          [866, format(abs(wc.dict['ee_3333']) * lambda_smeft_value**2,'.6e'),      '# ceeAbs3333'], 
+          [866, format(wc.dict['ee_3333'] * lambda_smeft_value**2,'.6e'),      '# ceeAbs3333'], 
           [867, format(abs(wc.dict['ee_1123']) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1123'], 
           [868, format(abs(wc.dict['ee_1113']) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1113'], 
           [869, format(abs(wc.dict['ee_1213']) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1213'], 
@@ -2710,66 +2710,66 @@ def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_val
   elif model_set == 'B':
       
       card['Block']['FRBlock'] = {'values': [
-	[1, format(abs(wc.dict['phil1_11']* lambda_smeft_value**2), '.6e') , '# cHl1Abs11'],
+	[1, format(wc.dict['phil1_11']* lambda_smeft_value**2, '.6e') , '# cHl1Abs11'],
 	[2, format(abs(wc.dict['phil1_12']* lambda_smeft_value**2), '.6e') , '# cHl1Abs12'],
 	[3, format(abs(wc.dict['phil1_13']* lambda_smeft_value**2), '.6e') , '# cHl1Abs13'],
-	[4, format(abs(wc.dict['phil1_22']* lambda_smeft_value**2), '.6e') , '# cHl1Abs22'],
+	[4, format(wc.dict['phil1_22']* lambda_smeft_value**2, '.6e') , '# cHl1Abs22'],
 	[5, format(abs(wc.dict['phil1_23']* lambda_smeft_value**2), '.6e') , '# cHl1Abs23'],
-	[6, format(abs(wc.dict['phil1_33']* lambda_smeft_value**2), '.6e') , '# cHl1Abs33'],
+	[6, format(wc.dict['phil1_33']* lambda_smeft_value**2, '.6e') , '# cHl1Abs33'],
 	[7, format(angle(wc.dict['phil1_12']), '.6e') , '# cHl1Ph12'],
 	[8, format(angle(wc.dict['phil1_13']), '.6e') , '# cHl1Ph13'],
 	[9, format(angle(wc.dict['phil1_23']), '.6e') , '# cHl1Ph23'],
-	[10, format(abs(wc.dict['phil3_11']* lambda_smeft_value**2), '.6e') ,'# cHL3Abs11'], 
+	[10, format(wc.dict['phil3_11']* lambda_smeft_value**2, '.6e') ,'# cHL3Abs11'], 
 	[11, format(abs(wc.dict['phil3_12']* lambda_smeft_value**2), '.6e') ,'# cHL3Abs12'], 
 	[12, format(abs(wc.dict['phil3_13']* lambda_smeft_value**2), '.6e') ,'# cHL3Abs13'], 
-	[13, format(abs(wc.dict['phil3_22']* lambda_smeft_value**2), '.6e') ,'# cHL3Abs22'], 
+	[13, format(wc.dict['phil3_22']* lambda_smeft_value**2, '.6e') ,'# cHL3Abs22'], 
 	[14, format(abs(wc.dict['phil3_23']* lambda_smeft_value**2), '.6e') ,'# cHL3Abs23'], 
-	[15, format(abs(wc.dict['phil3_33']* lambda_smeft_value**2), '.6e') ,'# cHL3Abs33'], 
+	[15, format(wc.dict['phil3_33']* lambda_smeft_value**2, '.6e') ,'# cHL3Abs33'], 
 	[16, format(angle(wc.dict['phil3_12']), '.6e') ,'# cHL3Ph12'], 
 	[17, format(angle(wc.dict['phil3_13']), '.6e') ,'# cHL3Ph13'], 
 	[18, format(angle(wc.dict['phil3_23']), '.6e') ,'# cHL3Ph23'], 
-	[19, format(abs(wc.dict['phiq1_11']* lambda_smeft_value**2), '.6e') ,'# cHq1Abs11'], 
+	[19, format(wc.dict['phiq1_11']* lambda_smeft_value**2, '.6e') ,'# cHq1Abs11'], 
 	[20, format(abs(wc.dict['phiq1_12']* lambda_smeft_value**2), '.6e') ,'# cHq1Abs12'], 
 	[21, format(abs(wc.dict['phiq1_13']* lambda_smeft_value**2), '.6e') ,'# cHq1Abs13'], 
-	[22, format(abs(wc.dict['phiq1_22']* lambda_smeft_value**2), '.6e') ,'# cHq1Abs22'], 
+	[22, format(wc.dict['phiq1_22']* lambda_smeft_value**2, '.6e') ,'# cHq1Abs22'], 
 	[23, format(abs(wc.dict['phiq1_23']* lambda_smeft_value**2), '.6e') ,'# cHq1Abs23'], 
-	[24, format(abs(wc.dict['phiq1_33']* lambda_smeft_value**2), '.6e') ,'# cHq1Abs33'], 
+	[24, format(wc.dict['phiq1_33']* lambda_smeft_value**2, '.6e') ,'# cHq1Abs33'], 
 	[25, format(angle(wc.dict['phiq1_12']), '.6e') ,'# cHq1Ph12'], 
 	[26, format(angle(wc.dict['phiq1_13']), '.6e') ,'# cHq1Ph13'], 
 	[27, format(angle(wc.dict['phiq1_23']), '.6e') ,'# cHq1Ph23'], 
-	[28, format(abs(wc.dict['phiq3_11']* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs11'], 
+	[28, format(wc.dict['phiq3_11']* lambda_smeft_value**2, '.6e') ,'# cHQ3Abs11'], 
 	[29, format(abs(wc.dict['phiq3_12']* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs12'], 
 	[30, format(abs(wc.dict['phiq3_13']* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs13'], 
-	[31, format(abs(wc.dict['phiq3_22']* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs22'], 
+	[31, format(wc.dict['phiq3_22']* lambda_smeft_value**2, '.6e') ,'# cHQ3Abs22'], 
 	[32, format(abs(wc.dict['phiq3_23']* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs23'], 
-	[33, format(abs(wc.dict['phiq3_33']* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs33'], 
+	[33, format(wc.dict['phiq3_33']* lambda_smeft_value**2, '.6e') ,'# cHQ3Abs33'], 
 	[34, format(angle(wc.dict['phiq3_12']), '.6e') ,'# cHQ3Ph12'], 
 	[35, format(angle(wc.dict['phiq3_13']), '.6e') ,'# cHQ3Ph13'], 
 	[36, format(angle(wc.dict['phiq3_23']), '.6e') ,'# cHQ3Ph23'], 
-	[37, format(abs(wc.dict['phiu_11']* lambda_smeft_value**2), '.6e') ,'# cHuAbs11'], 
+	[37, format(wc.dict['phiu_11']* lambda_smeft_value**2, '.6e') ,'# cHuAbs11'], 
 	[38, format(abs(wc.dict['phiu_12']* lambda_smeft_value**2), '.6e') ,'# cHuAbs12'], 
 	[39, format(abs(wc.dict['phiu_13']* lambda_smeft_value**2), '.6e') ,'# cHuAbs13'], 
-	[40, format(abs(wc.dict['phiu_22']* lambda_smeft_value**2), '.6e') ,'# cHuAbs22'], 
+	[40, format(wc.dict['phiu_22']* lambda_smeft_value**2, '.6e') ,'# cHuAbs22'], 
 	[41, format(abs(wc.dict['phiu_23']* lambda_smeft_value**2), '.6e') ,'# cHuAbs23'], 
-	[42, format(abs(wc.dict['phiu_33']* lambda_smeft_value**2), '.6e') ,'# cHuAbs33'], 
+	[42, format(wc.dict['phiu_33']* lambda_smeft_value**2, '.6e') ,'# cHuAbs33'], 
 	[43, format(angle(wc.dict['phiu_12']), '.6e') ,'# cHuPh12'], 
 	[44, format(angle(wc.dict['phiu_13']), '.6e') ,'# cHuPh13'], 
 	[45, format(angle(wc.dict['phiu_23']), '.6e') ,'# cHuPh23'], 
-	[46, format(abs(wc.dict['phid_11']* lambda_smeft_value**2), '.6e') ,'# cHdAbs11'], 
+	[46, format(wc.dict['phid_11']* lambda_smeft_value**2, '.6e') ,'# cHdAbs11'], 
 	[47, format(abs(wc.dict['phid_12']* lambda_smeft_value**2), '.6e') ,'# cHdAbs12'], 
 	[48, format(abs(wc.dict['phid_13']* lambda_smeft_value**2), '.6e') ,'# cHdAbs13'], 
-	[49, format(abs(wc.dict['phid_22']* lambda_smeft_value**2), '.6e') ,'# cHdAbs22'], 
+	[49, format(wc.dict['phid_22']* lambda_smeft_value**2, '.6e') ,'# cHdAbs22'], 
 	[50, format(abs(wc.dict['phid_23']* lambda_smeft_value**2), '.6e') ,'# cHdAbs23'], 
-	[51, format(abs(wc.dict['phid_33']* lambda_smeft_value**2), '.6e') ,'# cHdAbs33'], 
+	[51, format(wc.dict['phid_33']* lambda_smeft_value**2, '.6e') ,'# cHdAbs33'], 
 	[52, format(angle(wc.dict['phid_12']), '.6e') ,'# cHdPh12'], 
 	[53, format(angle(wc.dict['phid_13']), '.6e') ,'# cHdPh13'], 
 	[54, format(angle(wc.dict['phid_23']), '.6e') ,'# cHdPh23'], 
-	[55, format(abs(wc.dict['phie_11']* lambda_smeft_value**2), '.6e') ,'# cHeAbs11'], 
+	[55, format(wc.dict['phie_11']* lambda_smeft_value**2, '.6e') ,'# cHeAbs11'], 
 	[56, format(abs(wc.dict['phie_12']* lambda_smeft_value**2), '.6e') ,'# cHeAbs12'], 
 	[57, format(abs(wc.dict['phie_13']* lambda_smeft_value**2), '.6e') ,'# cHeAbs13'], 
-	[58, format(abs(wc.dict['phie_22']* lambda_smeft_value**2), '.6e') ,'# cHeAbs22'], 
+	[58, format(wc.dict['phie_22']* lambda_smeft_value**2, '.6e') ,'# cHeAbs22'], 
 	[59, format(abs(wc.dict['phie_23']* lambda_smeft_value**2), '.6e') ,'# cHeAbs23'], 
-	[60, format(abs(wc.dict['phie_33']* lambda_smeft_value**2), '.6e') ,'# cHeAbs33'], 
+	[60, format(wc.dict['phie_33']* lambda_smeft_value**2, '.6e') ,'# cHeAbs33'], 
 	[61, format(angle(wc.dict['phie_12']), '.6e') ,'# cHePh12'], 
 	[62, format(angle(wc.dict['phie_13']), '.6e') ,'# cHePh13'], 
 	[63, format(angle(wc.dict['phie_23']), '.6e') ,'# cHePh23'], 
-- 
2.43.0


From 46742d94954886aff20d90d680dc53a3dbae91bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:54 +0000
Subject: [PATCH 16/24] fix: write real coefficients given as Re/Im pairs as
 real numbers in SMEFTsim cards

---
 wcxf/converters/smeftsim.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wcxf/converters/smeftsim.py b/wcxf/converters/smeftsim.py
index 585f4aa..59e522a 100644
--- a/wcxf/converters/smeftsim.py
+++ b/wcxf/converters/smeftsim.py
@@ -89,9 +89,11 @@ def initialize_smeftsim_card(model_set):
 
 
 class _WCWithZeros(object):
-  """Wilson coefficients where those missing in the WCxf file are zero."""
+  """Wilson coefficients where those missing in the WCxf file are zero
+  and those with vanishing imaginary part are real."""
   def __init__(self, wc):
-    self.dict = defaultdict(float, wc.dict)
+    self.dict = defaultdict(float, {k: v.real if v.imag == 0 else v
+                                    for k, v in wc.dict.items()})
 
 
 def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_value):
-- 
2.43.0


From 29fd64c860551eb9e382374bae19b71eeff87dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:17 +0000
Subject: [PATCH 17/24] fix: rotate down-type quarks in baryon number violating
 coefficients when matching

The coefficients with left-handed down quarks (SduuLL, SduuLR, SdudRL,
SuddLL) were matched in the flavour basis but not rotated to the mass basis
like all other coefficients.
---
 wcxf/translators/wet.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/wcxf/translators/wet.py b/wcxf/translators/wet.py
index 9251071..33e37f1 100644
--- a/wcxf/translators/wet.py
+++ b/wcxf/translators/wet.py
@@ -996,6 +996,18 @@ def rotate_down(C_in, p):
         C[k] = np.einsum('ld,ijkl->ijkd',
                          UdL,
                          C_in[k])
+    # baryon number violating operators, type dL X X X
+    for k in ['SduuLL', 'SduuLR']:
+        if k in C_in:
+            C[k] = np.einsum('ia,ijkl->ajkl', UdL, C_in[k])
+    # type X X dL X
+    for k in ['SuudRL', 'SdudRL']:
+        if k in C_in:
+            C[k] = np.einsum('kc,ijkl->ijcl', UdL, C_in[k])
+    # type X dL dL X
+    for k in ['SuddLL', ]:
+        if k in C_in:
+            C[k] = np.einsum('jb,kc,ijkl->ibcl', UdL, UdL, C_in[k])
     return C
 
 
-- 
2.43.0


From 60016e96dcc35b0ae41afe5f8f27e9ba666694f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:32 +0000
Subject: [PATCH 18/24] fix: do not register an EFT whose definition fails

---
 wcxf/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index e7d4ec3..2ebedb6 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -198,9 +198,9 @@ class EFT(WCxf, NamedInstanceClass):
         """Instantiate the EFT file object."""
         self.eft = eft
         self.sectors = sectors
-        super().__init__(eft)
         for k, v in kwargs.items():
             setattr(self, k, v)
+        super().__init__(eft)
 
     @property
     def known_bases(self):
-- 
2.43.0


From 0f567a2bb626e18e340822778ee914fcd55855a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:32 +0000
Subject: [PATCH 19/24] fix: read YAML files with merge keys

---
 wcxf/classes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index 2ebedb6..7c4c703 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -22,6 +22,7 @@ yaml.add_representer(type(None), represent_none)
 # the following is necessary to load YAML mappings as OrderedDicts
 _mapping_tag = yaml.resolver.BaseResolver.DEFAULT_MAPPING_TAG
 def _dict_constructor(loader, node):
+    loader.flatten_mapping(node)  # resolve merge keys
     return OrderedDict(loader.construct_pairs(node))
 yaml.add_constructor(_mapping_tag, _dict_constructor)
 
-- 
2.43.0


From 0be8b84b613b0067b28bb674c8d380b77db12529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:32 +0000
Subject: [PATCH 20/24] fix: report YAML files that cannot be represented in
 JSON and write nothing

---
 wcxf/classes.py             | 3 ++-
 wcxf/converters/yamljson.py | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index 7c4c703..5306581 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -46,7 +46,8 @@ def _dump_json(d, stream=None, **kwargs):
 
 def _yaml_to_json(stream_in, stream_out, **kwargs):
     d = yaml.load(stream_in)
-    return _dump_json(d, stream_out, **kwargs)
+    # do not write anything if the data cannot be represented in JSON
+    stream_out.write(_dump_json(d, **kwargs))
 
 def _json_to_yaml(stream_in, stream_out, **kwargs):
     d = json.load(stream_in)
diff --git a/wcxf/converters/yamljson.py b/wcxf/converters/yamljson.py
index a4af9f3..d981d8a 100644
--- a/wcxf/converters/yamljson.py
+++ b/wcxf/converters/yamljson.py
@@ -10,6 +10,9 @@ def convert_json(stream_in, stream_out):
     except yaml.YAMLError:
         logging.error("Input file cannot be parsed as YAML.")
         return 1
+    except (TypeError, ValueError):
+        logging.error("Input file cannot be represented in JSON.")
+        return 1
 
 
 def convert_yaml(stream_in, stream_out):
-- 
2.43.0


From 36afc7bf061bce9f269abcbeb58c405eaad3d43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:07 +0000
Subject: [PATCH 21/24] fix: load the bundled files from installation paths
 containing wildcards

---
 wcxf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wcxf/__init__.py b/wcxf/__init__.py
index 98f1281..adc6675 100644
--- a/wcxf/__init__.py
+++ b/wcxf/__init__.py
@@ -8,7 +8,7 @@ from . import util
 import os
 import glob
 
-_root = os.path.abspath(os.path.dirname(__file__))
+_root = glob.escape(os.path.abspath(os.path.dirname(__file__)))
 all_efts = glob.glob(os.path.join(_root, 'bases', '*.eft.json'))
 all_bases = glob.glob(os.path.join(_root, 'bases', '*.basis.json'))
 child_bases = glob.glob(os.path.join(_root, 'bases', 'child', '*.basis.json'))
-- 
2.43.0


From 5e3e46fbce142c56abfbe2bace7f8e40a8a92540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:07 +0000
Subject: [PATCH 22/24] fix: read EOS parameters from directories whose name
 contains wildcards

---
 wcxf/converters/eos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wcxf/converters/eos.py b/wcxf/converters/eos.py
index fcb022d..6f1058b 100644
--- a/wcxf/converters/eos.py
+++ b/wcxf/converters/eos.py
@@ -11,7 +11,7 @@ def get_sm_wcs(eos_parameter_dir):
     """Read SM contributions to EOS Wilson coefficients from the EOS
     installation parameter directory and return them as a dictionary."""
     all_wcs = {}
-    yamlfiles = glob.glob(os.path.join(eos_parameter_dir, '*.yaml'))
+    yamlfiles = glob.glob(os.path.join(glob.escape(eos_parameter_dir), '*.yaml'))
     for yamlfile in yamlfiles:
         with open(yamlfile, 'r') as f:
             wcs = yaml.load(f)
-- 
2.43.0


From b7c167112ab4b28a53a1ab543c04e063db6bf4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:24 +0000
Subject: [PATCH 23/24] fix: reject a scale that is not a number in the QCD
 running

---
 wcxf/util/qcd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wcxf/util/qcd.py b/wcxf/util/qcd.py
index 00af0a2..0f4a7e7 100644
--- a/wcxf/util/qcd.py
+++ b/wcxf/util/qcd.py
@@ -4,7 +4,7 @@ from functools import lru_cache
 
 def _sane(scale, f):
     """Check if scale and no. of flavours are sane"""
-    if not isinstance(scale, (float, int)) or scale <= 0:
+    if not isinstance(scale, (float, int)) or not scale > 0:
         raise ValueError("Scale must be a positive number")
     if not isinstance(f, int) or not 3 <= f <= 6:
         raise ValueError("f must be an integer between 3 and 6")
-- 
2.43.0


From 455edb33c7809979fa41078391e6a631bdcdb6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:57 +0000
Subject: [PATCH 24/24] fix: changing the coefficients of a child basis no
 longer changes its parent

---
 wcxf/classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index 5306581..078c05b 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -2,6 +2,7 @@ import json
 import yaml
 import logging
 from collections import OrderedDict, Counter
+from copy import deepcopy
 import tempfile
 import shutil
 import os
@@ -230,7 +231,7 @@ class Basis(WCxf, NamedInstanceClass):
             except (AttributeError, KeyError):
                 raise ValueError("Parent basis {} not found".format(self.parent))
             # copy in order not to modify the parent basis
-            self.sectors = parent_sectors.copy()
+            self.sectors = deepcopy(parent_sectors)
             self.sectors.update(sectors)
         else:
             self.sectors = sectors
-- 
2.43.0

