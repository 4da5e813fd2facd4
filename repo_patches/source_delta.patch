From c51d19776fac370a6398d06568c286eaefac38ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:03 +0000
Subject: [PATCH 01/90] fix: harmonics amplitude and complex form follow the
 current coefficients

---
 gravity_toolkit/harmonics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index f021275..0f21bed 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -108,7 +108,7 @@ from gravity_toolkit.time import adjust_months,calendar_to_grace
 from gravity_toolkit.destripe_harmonics import destripe_harmonics
 from gravity_toolkit.read_gfc_harmonics import read_gfc_harmonics
 from gravity_toolkit.read_GRACE_harmonics import read_GRACE_harmonics
-from gravity_toolkit.utilities import import_dependency, reify
+from gravity_toolkit.utilities import import_dependency
 
 # attempt imports
 geoidtk = import_dependency('geoid_toolkit')
@@ -1828,7 +1828,7 @@ class harmonics(object):
         # return the destriped field
         return temp
 
-    @reify
+    @property
     def amplitude(self):
         """
         Degree amplitude of the spherical harmonics
@@ -1874,7 +1874,7 @@ class harmonics(object):
         """
         return np.ndim(self.clm)
 
-    @reify
+    @property
     def ilm(self):
         """
         Complex form of the spherical harmonics
-- 
2.43.0


From 37917860409cd35eaee07ed35b78bd9bc94f3e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 02/90] fix: harmonics scale of a time series by a series of
 factors

---
 gravity_toolkit/harmonics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 0f21bed..51f6cce 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -1702,6 +1702,8 @@ class harmonics(object):
                 temp.clm[:,:,i] = v*self.clm
                 temp.slm[:,:,i] = v*self.slm
         elif (np.ndim(var) == 1) and (self.ndim == 3):
+            temp.clm = np.zeros(self.shape)
+            temp.slm = np.zeros(self.shape)
             for i,v in enumerate(var):
                 temp.clm[:,:,i] = v*self.clm[:,:,i]
                 temp.slm[:,:,i] = v*self.slm[:,:,i]
-- 
2.43.0


From db44c3f4bbd9a01c69f0697b47c1c3f85705f299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 03/90] fix: modified Julian days of calendar dates in century
 years

---
 gravity_toolkit/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/time.py b/gravity_toolkit/time.py
index 8ad52ce..796d328 100644
--- a/gravity_toolkit/time.py
+++ b/gravity_toolkit/time.py
@@ -581,7 +581,7 @@ def convert_calendar_dates(year, month, day, hour=0.0, minute=0.0, second=0.0,
     # calculate date in Modified Julian Days (MJD) from calendar date
     # MJD: days since November 17, 1858 (1858-11-17T00:00:00)
     MJD = 367.0*year - np.floor(7.0*(year + np.floor((month+9.0)/12.0))/4.0) - \
-        np.floor(3.0*(np.floor((year + (month - 9.0)/7.0)/100.0) + 1.0)/4.0) + \
+        np.floor(3.0*(np.floor((year + np.trunc((month - 9.0)/7.0))/100.0) + 1.0)/4.0) + \
         np.floor(275.0*month/9.0) + day + hour/24.0 + minute/1440.0 + \
         second/86400.0 + 1721028.5 - 2400000.5
     # convert epochs to datetime variables
-- 
2.43.0


From 05f5edcb020a26331e766eff73996bd0e19870f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 04/90] fix: Julian day of decimal years was one day early

---
 gravity_toolkit/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/time.py b/gravity_toolkit/time.py
index 796d328..908e293 100644
--- a/gravity_toolkit/time.py
+++ b/gravity_toolkit/time.py
@@ -452,7 +452,7 @@ def calendar_to_julian(year_decimal):
     # Calculation of the Julian date from year and DofY
     JD = np.array(367.0*year - np.floor(7.0*year/4.0) -
         np.floor(3.0*(np.floor((7.0*year - 1.0)/700.0) + 1.0)/4.0) +
-        DofY + 1721058.5, dtype=np.float64)
+        DofY + 1721059.5, dtype=np.float64)
     return JD
 
 # days per month in a leap and a standard year
-- 
2.43.0


From cd7485a46f2b63fb97a376d4842636b2757fdab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 05/90] fix: special month adjustment left some months as zero

---
 gravity_toolkit/time.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/time.py b/gravity_toolkit/time.py
index 908e293..fd11c62 100644
--- a/gravity_toolkit/time.py
+++ b/gravity_toolkit/time.py
@@ -356,8 +356,8 @@ def adjust_months(grace_month):
     m = np.zeros_like(grace_month)
     # find unique months
     _,i,c = np.unique(grace_month,return_inverse=True,return_counts=True)
-    # simple unique months case
-    case1, = np.nonzero(c[i] == 1)
+    # simple unique months case (or cases which can not be adjusted)
+    case1, = np.nonzero(c[i] != 2)
     m[case1] = grace_month[case1]
     # Special Months cases
     case2, = np.nonzero(c[i] == 2)
@@ -383,6 +383,9 @@ def adjust_months(grace_month):
         elif (mon == mp1) and ((mon == (mm1 + 2)) or (mp2 == (mp1 + 1))):
             # case where month should be -1
             m[j] = grace_month[j] - 1
+        else:
+            # case where month is correct
+            m[j] = np.copy(grace_month[j])
     # update months and remove singleton dimensions if necessary
     return np.squeeze(m)
 
-- 
2.43.0


From faa7da3c1ae4021104c75a08f037056bd81bd149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:14 +0000
Subject: [PATCH 06/90] fix: spatial unit factor of millimeters geoid height

---
 gravity_toolkit/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/units.py b/gravity_toolkit/units.py
index 6fb2010..a6cc9a2 100644
--- a/gravity_toolkit/units.py
+++ b/gravity_toolkit/units.py
@@ -240,7 +240,7 @@ class units(object):
         # mmwe, millimeters water equivalent [kg/m^2]
         self.mmwe = 3.0*fraction/(1.0+2.0*self.l)/(40.0*np.pi*self.rad_e*self.rho_e)
         # mmGH, millimeters geoid height
-        self.mmGH = np.ones((self.lmax+1))/(4.0*np.pi*self.rad_e)
+        self.mmGH = np.ones((self.lmax+1))/(40.0*np.pi*self.rad_e)
         # microGal, microGal gravity perturbations
         self.microGal = (self.rad_e**2.0)/(4.0*np.pi*1.e6*self.GM)/(self.l+1.0)
         # return the degree dependent unit conversions
-- 
2.43.0


From deda327442542d1be2086f0c99d38f0554ef7f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 07/90] fix: text description of objects with months

---
 gravity_toolkit/geocenter.py | 6 +++---
 gravity_toolkit/harmonics.py | 6 +++---
 gravity_toolkit/spatial.py   | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/gravity_toolkit/geocenter.py b/gravity_toolkit/geocenter.py
index c30b562..c5355e6 100644
--- a/gravity_toolkit/geocenter.py
+++ b/gravity_toolkit/geocenter.py
@@ -1214,9 +1214,9 @@ class geocenter(object):
         """String representation of the ``geocenter`` object
         """
         properties = ['gravity_toolkit.geocenter']
-        if self.month:
-            properties.append(f"    start_month: {min(self.month)}")
-            properties.append(f"    end_month: {max(self.month)}")
+        if np.any(self.month):
+            properties.append(f"    start_month: {np.min(self.month)}")
+            properties.append(f"    end_month: {np.max(self.month)}")
         return '\n'.join(properties)
 
     def __len__(self):
diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 51f6cce..5652910 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -1890,9 +1890,9 @@ class harmonics(object):
         properties.append(f"    max_degree: {self.lmax}")
         if self.mmax and (self.mmax != self.lmax):
             properties.append(f"    max_order: {self.mmax}")
-        if self.month:
-            properties.append(f"    start_month: {min(self.month)}")
-            properties.append(f"    end_month: {max(self.month)}")
+        if np.any(self.month):
+            properties.append(f"    start_month: {np.min(self.month)}")
+            properties.append(f"    end_month: {np.max(self.month)}")
         return '\n'.join(properties)
 
     def __len__(self):
diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 255b57e..e9a11f1 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1702,9 +1702,9 @@ class spatial(object):
         properties.append(f"    extent: {extent}")
         shape = ', '.join(map(str, self.shape))
         properties.append(f"    shape: {shape}")
-        if self.month:
-            properties.append(f"    start_month: {min(self.month)}")
-            properties.append(f"    end_month: {max(self.month)}")
+        if np.any(self.month):
+            properties.append(f"    start_month: {np.min(self.month)}")
+            properties.append(f"    end_month: {np.max(self.month)}")
         return '\n'.join(properties)
 
     def __len__(self):
-- 
2.43.0


From 642b47ede41d90baf68e4cadf3a092988284ee69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:34 +0000
Subject: [PATCH 08/90] fix: iteration over series without dates

---
 gravity_toolkit/harmonics.py | 2 +-
 gravity_toolkit/spatial.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 5652910..3bdbdf7 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -1919,7 +1919,7 @@ class harmonics(object):
         try:
             temp.time = self.time[self.__index__].copy()
             temp.month = self.month[self.__index__].copy()
-        except AttributeError as exc:
+        except (AttributeError, TypeError) as exc:
             pass
         # subset filename if applicable
         if getattr(self, 'filename'):
diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index e9a11f1..b56c431 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1733,7 +1733,7 @@ class spatial(object):
         try:
             temp.time = self.time[self.__index__].copy()
             temp.month = self.month[self.__index__].copy()
-        except AttributeError as exc:
+        except (AttributeError, TypeError) as exc:
             pass
         # subset output spatial error
         try:
-- 
2.43.0


From 159a2011fcb258ee2e44148e8f38fd748d01cfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:42 +0000
Subject: [PATCH 09/90] fix: harmonics truncation to a maximum order of zero

---
 gravity_toolkit/harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 3bdbdf7..001392d 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -1614,7 +1614,7 @@ class harmonics(object):
         temp = self.copy()
         # set new degree and order
         self.lmax = np.copy(lmax)
-        self.mmax = np.copy(mmax) if mmax else np.copy(lmax)
+        self.mmax = np.copy(mmax)
         # truncation levels
         l1 = self.lmax+1 if (temp.lmax > self.lmax) else temp.lmax+1
         m1 = self.mmax+1 if (temp.mmax > self.mmax) else temp.mmax+1
-- 
2.43.0


From 84aea1f59cbdb829051755cae463a78c63559ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:05 +0000
Subject: [PATCH 10/90] fix: harmonics squeeze of a single order or without
 updating dimensions

---
 gravity_toolkit/harmonics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 001392d..305c8d1 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -1410,6 +1410,9 @@ class harmonics(object):
         """
         # squeeze singleton dimensions
         try:
+            # only the time dimension (not a single spherical harmonic order)
+            if (self.ndim != (2 if self.flattened else 3)):
+                raise ValueError('No time dimension to squeeze')
             self.clm = np.squeeze(self.clm, axis=-1)
             self.slm = np.squeeze(self.slm, axis=-1)
             self.time = np.squeeze(self.time)
@@ -1419,9 +1422,6 @@ class harmonics(object):
         # assign degree and order fields
         if update_dimensions:
             self.update_dimensions()
-        else:
-            self.ndim = self.clm.ndim
-            self.shape = self.clm.shape
         return self
 
     def flatten(self, date=True):
-- 
2.43.0


From 1ac0778b73d20186aaff4cb0091be9c7af1a32d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:41 +0000
Subject: [PATCH 11/90] fix: copies of flattened harmonics

---
 gravity_toolkit/harmonics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 305c8d1..52760ad 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -1198,6 +1198,9 @@ class harmonics(object):
         """
         Update the dimension variables of the ``harmonics`` object
         """
+        # keep the degree and order of each coefficient if flattened
+        if self.flattened:
+            return self
         # calculate spherical harmonic degree and order (0 is falsy)
         self.l=np.arange(self.lmax+1) if (self.lmax is not None) else None
         self.m=np.arange(self.mmax+1) if (self.mmax is not None) else None
@@ -1323,7 +1326,7 @@ class harmonics(object):
         elif isinstance(self.attributes, dict):
             temp.attributes.update(self.attributes)
         # try to assign variables to self
-        for key in ['clm','slm','time','month','filename']:
+        for key in ['l','m','clm','slm','time','month','filename','flattened']:
             try:
                 val = getattr(self, key)
                 setattr(temp, key, copy.copy(val))
-- 
2.43.0


From ad467e953ce6fa40f15df20aa409360016ca2d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:57 +0000
Subject: [PATCH 12/90] fix: lists of dated objects with NumPy 2

---
 gravity_toolkit/harmonics.py | 4 ++--
 gravity_toolkit/spatial.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 52760ad..c623ca0 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -663,8 +663,8 @@ class harmonics(object):
             self.clm[:,:,t] = object_list[i].clm[:self.lmax+1,:self.mmax+1]
             self.slm[:,:,t] = object_list[i].slm[:self.lmax+1,:self.mmax+1]
             if kwargs['date']:
-                self.time[t] = np.atleast_1d(object_list[i].time)
-                self.month[t] = np.atleast_1d(object_list[i].month)
+                self.time[t] = np.squeeze(object_list[i].time)
+                self.month[t] = np.squeeze(object_list[i].month)
             # append filename to list
             if getattr(object_list[i], 'filename'):
                 self.filename.append(object_list[i].filename)
diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index b56c431..3810c81 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -646,8 +646,8 @@ class spatial(object):
             if hasattr(object_list[i], 'error'):
                 self.error[:,:,t] = object_list[i].error[:,:].copy()
             if kwargs['date']:
-                self.time[t] = np.atleast_1d(object_list[i].time)
-                self.month[t] = np.atleast_1d(object_list[i].month)
+                self.time[t] = np.squeeze(object_list[i].time)
+                self.month[t] = np.squeeze(object_list[i].month)
             # append filename to list
             if getattr(object_list[i], 'filename'):
                 self.filename.append(object_list[i].filename)
-- 
2.43.0


From 9cc1ff191030e0bf470c120c5d77d878631b6325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:38 +0000
Subject: [PATCH 13/90] fix: special month adjustment keeps the dimensions of a
 series of one

---
 gravity_toolkit/time.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/time.py b/gravity_toolkit/time.py
index fd11c62..e0ced08 100644
--- a/gravity_toolkit/time.py
+++ b/gravity_toolkit/time.py
@@ -349,6 +349,7 @@ def adjust_months(grace_month):
     For GSFC: Oct 2018 (202) is centered in Nov 2018 (203)
     """
     # verify dimensions
+    ndim = np.ndim(grace_month)
     grace_month = np.atleast_1d(grace_month)
     # number of months
     nmon = len(grace_month)
@@ -387,7 +388,7 @@ def adjust_months(grace_month):
             # case where month is correct
             m[j] = np.copy(grace_month[j])
     # update months and remove singleton dimensions if necessary
-    return np.squeeze(m)
+    return np.squeeze(m) if (ndim == 0) else m
 
 # PURPOSE: convert calendar dates to GRACE/GRACE-FO months
 def calendar_to_grace(year,month=1,around=np.floor):
-- 
2.43.0


From a0a7a0c71319b8087c1e1cd15bce757417de0b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:29 +0000
Subject: [PATCH 14/90] fix: geocenter objects derived from another keep its
 radius

---
 gravity_toolkit/geocenter.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/gravity_toolkit/geocenter.py b/gravity_toolkit/geocenter.py
index c5355e6..e9e140e 100644
--- a/gravity_toolkit/geocenter.py
+++ b/gravity_toolkit/geocenter.py
@@ -167,7 +167,7 @@ class geocenter(object):
             file_contents=[i for i in f.read().splitlines() if not re.match(r'#',i)]
         # extract X,Y,Z from each line in the file
         n_lines = len(file_contents)
-        temp = geocenter()
+        temp = geocenter(radius=self.radius)
         temp.X = np.zeros((n_lines))
         temp.Y = np.zeros((n_lines))
         temp.Z = np.zeros((n_lines))
@@ -793,12 +793,12 @@ class geocenter(object):
         kwargs.setdefault('fields',['time','month',
             'C10','C11','S11','eC10','eC11','eS11',
             'X','Y','Z'])
-        temp = geocenter()
+        temp = geocenter(radius=self.radius)
         # try to assign variables to self
         for key in kwargs['fields']:
             try:
                 val = getattr(self, key)
-                setattr(temp, key, np.copy(val))
+                setattr(temp, key, copy.copy(val))
             except AttributeError:
                 pass
         return temp
@@ -1077,7 +1077,7 @@ class geocenter(object):
         indices: int, default Ellipsis
             indices of input ``geocenter`` object to compute mean
         """
-        temp = geocenter()
+        temp = geocenter(radius=self.radius)
         # calculate mean static field
         temp.C10 = np.mean(self.C10[indices])
         temp.C11 = np.mean(self.C11[indices])
@@ -1163,7 +1163,7 @@ class geocenter(object):
         var: float
             scalar value to which the ``geocenter`` object will be multiplied
         """
-        temp = geocenter()
+        temp = geocenter(radius=self.radius)
         temp.time = np.copy(self.time)
         temp.month = np.copy(self.month)
         # multiply by a single constant or a time-variable scalar
@@ -1181,7 +1181,7 @@ class geocenter(object):
         power: float
             power to which the ``geocenter`` object will be raised
         """
-        temp = geocenter()
+        temp = geocenter(radius=self.radius)
         temp.time = np.copy(self.time)
         temp.month = np.copy(self.month)
         temp.C10 = np.power(self.C10,power)
@@ -1233,7 +1233,7 @@ class geocenter(object):
     def __next__(self):
         """Get the next month of data
         """
-        temp = geocenter()
+        temp = geocenter(radius=self.radius)
         try:
             temp.time = self.time[self.__index__].copy()
             temp.month = self.month[self.__index__].copy()
-- 
2.43.0


From ccd3cc2b12ce75f2f8b1198932d3187431e6a765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:52 +0000
Subject: [PATCH 15/90] fix: invalid cells of grids raised to a power keep the
 fill value

---
 gravity_toolkit/spatial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 3810c81..0a24e3f 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1582,6 +1582,8 @@ class spatial(object):
         """
         temp = self.copy()
         temp.data = np.power(self.data,power)
+        # update mask
+        temp.update_mask()
         return temp
 
     def max(self):
-- 
2.43.0


From 64e20b684510def90ef370d4d6ba0235b366f82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:58 +0000
Subject: [PATCH 16/90] fix: invalid cells of grids after removing the mean
 field

---
 gravity_toolkit/spatial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 0a24e3f..65f3f2b 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1496,6 +1496,9 @@ class spatial(object):
         if apply:
             for i,t in enumerate(self.time):
                 self.data[:,:,i] -= temp.data[:,:]
+                # anomalies are invalid if the mean field is invalid
+                self.mask[:,:,i] |= temp.mask[:,:]
+            self.update_mask()
         # update mask
         temp.update_mask()
         return temp
-- 
2.43.0


From 5cc2c40eac869e88f53280612f692d74838baf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:06 +0000
Subject: [PATCH 17/90] fix: scaling factors of grids without errors

---
 gravity_toolkit/spatial.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 65f3f2b..3fc2cde 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1175,7 +1175,7 @@ class spatial(object):
             self.mask |= (self.data == self.fill_value)
             self.mask |= np.isnan(self.data)
             self.data[self.mask] = self.fill_value
-            if hasattr(self, 'error'):
+            if getattr(self, 'error', None) is not None:
                 self.error[self.mask] = self.fill_value
         return self
 
@@ -1238,7 +1238,7 @@ class spatial(object):
             # try expanding spatial error
             try:
                 self.error = self.error[:,:,None]
-            except AttributeError as exc:
+            except (AttributeError, TypeError) as exc:
                 pass
         # update mask
         self.update_mask()
@@ -1648,7 +1648,7 @@ class spatial(object):
         self.fill_value = fill_value
         # replace invalid values with new fill value
         self.data[self.mask] = self.fill_value
-        if hasattr(self, 'error'):
+        if getattr(self, 'error', None) is not None:
             self.error[self.mask] = self.fill_value
         return self
 
@@ -1658,7 +1658,8 @@ class spatial(object):
         """
         if (self.fill_value is not None):
             self.data[self.mask] = self.fill_value
-        if (self.fill_value is not None) and hasattr(self, 'error'):
+        if (self.fill_value is not None) and \
+            (getattr(self, 'error', None) is not None):
             self.error[self.mask] = self.fill_value
         return self
 
-- 
2.43.0


From 500c7349f1ef0a64a5a0728e579234602cbfbfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:24 +0000
Subject: [PATCH 18/90] fix: scaling factor errors of cells with a zero in the
 series

---
 gravity_toolkit/spatial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 3fc2cde..9adc942 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1984,9 +1984,9 @@ class scaling_factors(spatial):
         val2 = np.sum(temp1.data[indy,indx,:]**2,axis=1)
         temp.data[indy,indx] = val1/val2
         # calculate difference between scaled and original
-        variance = temp1.scale(temp.data).offset(-temp2.data)
+        variance = temp.data[:,:,None]*temp1.data - temp2.data
         # calculate scaling factor errors as RMS of variance
-        temp.error = np.sqrt((variance.sum(power=2).data)/nt)
+        temp.error = np.sqrt(np.sum(variance**2, axis=2)/nt)
         # calculate magnitude of original data
         temp.magnitude = temp2.sum(power=2.0).power(0.5).data[:]
         # update mask
-- 
2.43.0


From 97a38d1e253c8fb3349dc2b4ff0179962d7ab049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:55 +0000
Subject: [PATCH 19/90] fix: grid squeeze removed a single latitude or
 longitude

---
 gravity_toolkit/spatial.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 9adc942..44244d0 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1293,12 +1293,15 @@ class spatial(object):
         Remove singleton dimensions from a ``spatial`` object
         """
         # squeeze singleton dimensions
-        self.time = np.squeeze(self.time)
-        self.month = np.squeeze(self.month)
-        # attempt to squeeze possible data variables
+        if self.time is not None:
+            self.time = np.squeeze(self.time)
+        if self.month is not None:
+            self.month = np.squeeze(self.month)
+        # attempt to squeeze the time dimension of possible data variables
+        # (not a single latitude or longitude)
         for key in ['data','mask','error']:
             try:
-                setattr(self, key, np.squeeze(getattr(self, key)))
+                setattr(self, key, np.squeeze(getattr(self, key), axis=2))
             except Exception as exc:
                 pass
         # update mask
-- 
2.43.0


From 70ea83189c1f1bf0822b90f495bb6a2039658b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:01 +0000
Subject: [PATCH 20/90] fix: flipped and transposed grids shared memory with
 their source

---
 gravity_toolkit/spatial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 44244d0..ea3cf2f 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1527,7 +1527,7 @@ class spatial(object):
         # attempt to reverse possible data variables
         for key in ['data','mask','error']:
             try:
-                setattr(temp, key, np.flip(getattr(self, key), axis=axis))
+                setattr(temp, key, np.flip(getattr(self, key), axis=axis).copy())
             except Exception as exc:
                 pass
         # update mask
@@ -1548,7 +1548,7 @@ class spatial(object):
         # attempt to transpose possible data variables
         for key in ['data','mask','error']:
             try:
-                setattr(temp, key, np.transpose(getattr(self, key), axes=axes))
+                setattr(temp, key, np.transpose(getattr(self, key), axes=axes).copy())
             except Exception as exc:
                 pass
         # update mask
-- 
2.43.0


From 57c2c37e0e4b1a0b5248c9f386fac85e37482b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:07 +0000
Subject: [PATCH 21/90] fix: flipping a grid series in time reverses its months

---
 gravity_toolkit/spatial.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index ea3cf2f..c2d3179 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1524,6 +1524,7 @@ class spatial(object):
             temp.lon = temp.lon[::-1].copy()
         elif (axis == 2):
             temp.time = temp.time[::-1].copy()
+            temp.month = temp.month[::-1].copy()
         # attempt to reverse possible data variables
         for key in ['data','mask','error']:
             try:
-- 
2.43.0


From e3b10f6f3da2efbf98ac6f7095767da409891495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:16 +0000
Subject: [PATCH 22/90] fix: last longitude of extended grids used the latitude
 spacing

---
 gravity_toolkit/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index c2d3179..416302b 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1261,7 +1261,7 @@ class spatial(object):
         temp.lon = np.zeros((nx+2), dtype=self.lon.dtype)
         temp.lon[0] = self.lon[0] - self.spacing[0]
         temp.lon[1:-1] = self.lon[:]
-        temp.lon[-1] = self.lon[-1] + self.spacing[1]
+        temp.lon[-1] = self.lon[-1] + self.spacing[0]
         # attempt to extend possible data variables
         for key in ['data','mask','error']:
             try:
-- 
2.43.0


From d452555dd7c45d4caccebbcf551489e59569b7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:40 +0000
Subject: [PATCH 23/90] fix: plm_holmes for a maximum degree of one

---
 gravity_toolkit/associated_legendre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/associated_legendre.py b/gravity_toolkit/associated_legendre.py
index cfb11ab..ad585be 100644
--- a/gravity_toolkit/associated_legendre.py
+++ b/gravity_toolkit/associated_legendre.py
@@ -246,7 +246,7 @@ def plm_holmes(LMAX, x,
 
     # Calculate P(LMAX,LMAX)
     rescalem = rescalem * u
-    kstart += m+2
+    kstart += LMAX + 1
     p[kstart,:] = pmm * np.sqrt(2*LMAX+1) / np.sqrt(2*LMAX) * rescalem
     # reshape Legendre polynomials to output dimensions
     for m in range(LMAX+1):
-- 
2.43.0


From 2db2fca5ad1c37adea8aae7c1b109e379071b9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:47 +0000
Subject: [PATCH 24/90] fix: plm_mohlenkamp derivatives truncated to the
 maximum order

---
 gravity_toolkit/associated_legendre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/associated_legendre.py b/gravity_toolkit/associated_legendre.py
index ad585be..fc981c7 100644
--- a/gravity_toolkit/associated_legendre.py
+++ b/gravity_toolkit/associated_legendre.py
@@ -308,7 +308,7 @@ def plm_mohlenkamp(LMAX, x,
 
     # Initialize the output Legendre polynomials
     plm = np.zeros((LMAX+1, MMAX+1, sx), dtype=astype)
-    dplm = np.zeros((LMAX+1, LMAX+1, sx), dtype=astype)
+    dplm = np.zeros((LMAX+1, MMAX+1, sx), dtype=astype)
     # Jacobi polynomial for the recurrence relation
     jlmm = np.zeros((LMAX+1, MMAX+1, sx))
     # for x=cos(th): u= sin(th)
-- 
2.43.0


From 59b293b7b45b5cda192ab8698e58cdf2000eef0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:45 +0000
Subject: [PATCH 25/90] fix: zonal Legendre gradients used the wrong degree and
 scale

---
 gravity_toolkit/fourier_legendre.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/fourier_legendre.py b/gravity_toolkit/fourier_legendre.py
index 6cc8b5c..fc70481 100755
--- a/gravity_toolkit/fourier_legendre.py
+++ b/gravity_toolkit/fourier_legendre.py
@@ -267,7 +267,7 @@ def legendre_gradient(lmax, mmax):
         lminus2 = np.arange(l-2,-1,-1)# from l-2 to 0
         lminus1 = np.arange(l-1,0,-1)# from l-1 to 1
         wlm[l,m,:] = np.sqrt(dfactor) * \
-            np.dot(np.diag(np.sqrt(lminus2*lminus1/4.0)), plm[l,m+1,:])
+            np.dot(np.diag(np.sqrt(lminus2*lminus1/4.0)), plm[l-1,m+1,:])
 
     # m-1 terms, m-1=0 has different coefficients
     # m=1 term
@@ -281,7 +281,7 @@ def legendre_gradient(lmax, mmax):
         lplus2 = np.arange(l+2,2*l+1)# from l+2 to 2*l
         lplus1 = np.arange(l+1,2*l)# from l+1 to (2*l-1)
         wlm[l,m,:] += np.sqrt(dfactor) * \
-            np.dot(np.diag(np.sqrt(lplus2*lplus1)/4.0), plm[l-1,m-1,:])
+            np.dot(np.diag(np.sqrt(lplus2*lplus1/4.0)), plm[l-1,m-1,:])
     # normalizations
     for l in range(1, lmax+1):
         wlm[l,:,:] /= np.sqrt((l+1)*l)
-- 
2.43.0


From cc9f899ad6a5816ff3d91f57f680c552d22901a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:54 +0000
Subject: [PATCH 26/90] fix: harmonic_gradients returned neither the zonal nor
 the meridional gradient

---
 gravity_toolkit/harmonic_gradients.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/gravity_toolkit/harmonic_gradients.py b/gravity_toolkit/harmonic_gradients.py
index dfc5ae3..84eba71 100644
--- a/gravity_toolkit/harmonic_gradients.py
+++ b/gravity_toolkit/harmonic_gradients.py
@@ -125,10 +125,10 @@ def harmonic_gradients(clm1, slm1, lon, lat,
         vtmp[:,n,0] = np.sum(vlm[:,m_even,n]*dlm[:,m_even,0],axis=0)
         vtmp[:,n,1] = np.sum(vlm[:,m_even,n]*dlm[:,m_even,1],axis=0)
 
-    d_cos[m_even,:,0] = np.dot(wtmp[:,:,1],np.transpose(snk))
-    d_sin[m_even,:,0] = np.dot(-wtmp[:,:,0],np.transpose(snk))
-    d_cos[m_even,:,1] = np.dot(vtmp[:,:,1],np.transpose(snk))
-    d_sin[m_even,:,1] = np.dot(-vtmp[:,:,0],np.transpose(snk))
+    d_cos[m_even,:,0] = np.dot(-wtmp[:,:,1],np.transpose(snk))
+    d_sin[m_even,:,0] = np.dot(wtmp[:,:,0],np.transpose(snk))
+    d_cos[m_even,:,1] = np.dot(-vtmp[:,:,0],np.transpose(snk))
+    d_sin[m_even,:,1] = np.dot(-vtmp[:,:,1],np.transpose(snk))
 
     # m = odd terms (vlm,wlm cosine series)
     wtmp = np.zeros((len(m_odd),LMAX+1,2))
@@ -139,10 +139,10 @@ def harmonic_gradients(clm1, slm1, lon, lat,
         vtmp[:,n,0] = np.sum(vlm[:,m_odd,n]*dlm[:,m_odd,0],axis=0)
         vtmp[:,n,1] = np.sum(vlm[:,m_odd,n]*dlm[:,m_odd,1],axis=0)
 
-    d_cos[m_odd,:,0] = np.dot(wtmp[:,:,1],np.transpose(cnk))
-    d_sin[m_odd,:,0] = np.dot(-wtmp[:,:,0],np.transpose(cnk))
-    d_cos[m_odd,:,1] = np.dot(vtmp[:,:,1],np.transpose(cnk))
-    d_sin[m_odd,:,1] = np.dot(-vtmp[:,:,0],np.transpose(cnk))
+    d_cos[m_odd,:,0] = np.dot(-wtmp[:,:,1],np.transpose(cnk))
+    d_sin[m_odd,:,0] = np.dot(wtmp[:,:,0],np.transpose(cnk))
+    d_cos[m_odd,:,1] = np.dot(-vtmp[:,:,0],np.transpose(cnk))
+    d_sin[m_odd,:,1] = np.dot(-vtmp[:,:,1],np.transpose(cnk))
 
     # Calculating cos(m*phi) and sin(m*phi)
     ccos = np.cos(np.dot(mm,phi))
-- 
2.43.0


From f63b072f681ffd124b653bbf368d84ee0f85ab01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:59 +0000
Subject: [PATCH 27/90] fix: geostrophic_currents ignored the minimum degree

---
 gravity_toolkit/harmonic_gradients.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/harmonic_gradients.py b/gravity_toolkit/harmonic_gradients.py
index 84eba71..8c16577 100644
--- a/gravity_toolkit/harmonic_gradients.py
+++ b/gravity_toolkit/harmonic_gradients.py
@@ -251,8 +251,8 @@ def geostrophic_currents(clm1, slm1, lon, lat,
     # Truncating harmonics to degree and order LMAX
     # removing coefficients below LMIN and above MMAX
     mm = np.arange(0, MMAX+1)
-    clm[LMIN:LMAX+1,mm,:] = clm[LMIN:LMAX+1,mm,:]
-    slm[LMIN:LMAX+1,mm,:] = slm[LMIN:LMAX+1,mm,:]
+    clm[:LMIN,:,:] = 0.0
+    slm[:LMIN,:,:] = 0.0
 
     # Calculate fourier coefficients from legendre coefficients
     d_cos = np.zeros((MMAX+1,thmax,2))# [m,th]
-- 
2.43.0


From b63992c18147ee74ca2e08e60a6dc76aef0503ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:36 +0000
Subject: [PATCH 28/90] fix: Fourier analysis of grids that include the poles

---
 gravity_toolkit/gen_harmonics.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/gravity_toolkit/gen_harmonics.py b/gravity_toolkit/gen_harmonics.py
index 8044f69..b11b783 100644
--- a/gravity_toolkit/gen_harmonics.py
+++ b/gravity_toolkit/gen_harmonics.py
@@ -287,7 +287,9 @@ def fourier(data, lon, lat, LMAX=60, MMAX=None, PLM=0, **kwargs):
     n_even = len(m_even)
     n_odd = len(m_odd)
 
-    if np.isclose([theta[0],theta[nlat-1]],[0.0,np.pi]).all():
+    # colatitudes may be in ascending or descending order
+    limits = np.sort([theta[0],theta[nlat-1]])
+    if np.isclose(limits,[0.0,np.pi]).all():
         # non-endpoints
         nt = np.dot(mm,theta[1:nlat-1][np.newaxis,:])
         theta_cc[m_even,:] = 2.0*np.dot(dcos[m_even,1:nlat-1],np.cos(nt).T)
@@ -296,16 +298,14 @@ def fourier(data, lon, lat, LMAX=60, MMAX=None, PLM=0, **kwargs):
         theta_sc[m_odd,:] = 2.0*np.dot(dsin[m_odd,1:nlat-1],np.sin(nt).T)
 
         # endpoints
-        theta_cc[m_even,:] += np.dot((dcos[m_even,0]*np.cos(theta[0]) +
-            dcos[m_even,nlat-1]*np.cos(theta[nlat-1]))[:,np.newaxis], mm.T)
-        theta_sc[m_even,:] += np.dot((dsin[m_even,0]*np.cos(theta[0]) +
-            dsin[m_even,nlat-1]*np.cos(theta[nlat-1]))[:,np.newaxis], mm.T)
-        theta_cc[m_odd,:] += np.dot((dcos[m_odd,0]*np.sin(theta[0]) +
-            dcos[m_odd,nlat-1]*np.sin(theta[nlat-1]))[:,np.newaxis], mm.T)
-        theta_sc[m_odd,:] += np.dot((dsin[m_odd,0]*np.sin(theta[0]) +
-            dsin[m_odd,nlat-1]*np.sin(theta[nlat-1]))[:,np.newaxis], mm.T)
-
-    elif not np.isclose([theta[0],theta[nlat-1]],[0.0,np.pi]).any():
+        ends = np.array([0,nlat-1])
+        nt = np.dot(mm,theta[ends][np.newaxis,:])
+        theta_cc[m_even,:] += np.dot(dcos[m_even[:,np.newaxis],ends],np.cos(nt).T)
+        theta_sc[m_even,:] += np.dot(dsin[m_even[:,np.newaxis],ends],np.cos(nt).T)
+        theta_cc[m_odd,:] += np.dot(dcos[m_odd[:,np.newaxis],ends],np.sin(nt).T)
+        theta_sc[m_odd,:] += np.dot(dsin[m_odd[:,np.newaxis],ends],np.sin(nt).T)
+
+    elif not np.isclose(limits,[0.0,np.pi]).any():
         nt = np.dot(mm,theta[np.newaxis,:])
         theta_cc[m_even,:] = 2.0*np.dot(dcos[m_even,:],np.cos(nt).T)
         theta_sc[m_even,:] = 2.0*np.dot(dsin[m_even,:],np.cos(nt).T)
-- 
2.43.0


From 05c2c31906ce922d53131fe84ba2d314aac58bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:30 +0000
Subject: [PATCH 29/90] fix: disc loads and spherical caps raised with NumPy 2

---
 gravity_toolkit/gen_disc_load.py     | 4 ++--
 gravity_toolkit/gen_spherical_cap.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/gen_disc_load.py b/gravity_toolkit/gen_disc_load.py
index 015b391..b6f451e 100644
--- a/gravity_toolkit/gen_disc_load.py
+++ b/gravity_toolkit/gen_disc_load.py
@@ -181,8 +181,8 @@ def gen_disc_load(data, lon, lat, area, LMAX=60, MMAX=None, UNITS=2,
         # unnormalizing Legendre polynomials
         # sqrt(2*l - 1) == sqrt(2*(l-1) + 1)
         # sqrt(2*l + 3) == sqrt(2*(l+1) + 1)
-        pl_lower = pl_matrix[l-1]/np.sqrt(2.0*l-1.0)
-        pl_upper = pl_matrix[l+1]/np.sqrt(2.0*l+3.0)
+        pl_lower = pl_matrix[l-1,0]/np.sqrt(2.0*l-1.0)
+        pl_upper = pl_matrix[l+1,0]/np.sqrt(2.0*l+3.0)
         pl_alpha[l] = (pl_lower - pl_upper)/2.0
 
     # Calculate Legendre Polynomials using Holmes and Featherstone relation
diff --git a/gravity_toolkit/gen_spherical_cap.py b/gravity_toolkit/gen_spherical_cap.py
index 208d888..49782c5 100755
--- a/gravity_toolkit/gen_spherical_cap.py
+++ b/gravity_toolkit/gen_spherical_cap.py
@@ -223,8 +223,8 @@ def gen_spherical_cap(data, lon, lat, LMAX=60, MMAX=None,
         # unnormalizing Legendre polynomials
         # sqrt(2*l - 1) == sqrt(2*(l-1) + 1)
         # sqrt(2*l + 3) == sqrt(2*(l+1) + 1)
-        pl_lower = pl_matrix[l-1]/np.sqrt(2.0*l-1.0)
-        pl_upper = pl_matrix[l+1]/np.sqrt(2.0*l+3.0)
+        pl_lower = pl_matrix[l-1,0]/np.sqrt(2.0*l-1.0)
+        pl_upper = pl_matrix[l+1,0]/np.sqrt(2.0*l+3.0)
         pl_alpha[l] = (pl_lower - pl_upper)/2.0
 
     # Calculating Legendre Polynomials
-- 
2.43.0


From 3b55f28d7595cc05deabe65e58b0e233e5809573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:36 +0000
Subject: [PATCH 30/90] fix: disc loads and spherical caps of order zero raised

---
 gravity_toolkit/gen_disc_load.py     | 2 +-
 gravity_toolkit/gen_spherical_cap.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/gen_disc_load.py b/gravity_toolkit/gen_disc_load.py
index b6f451e..6f651df 100644
--- a/gravity_toolkit/gen_disc_load.py
+++ b/gravity_toolkit/gen_disc_load.py
@@ -191,7 +191,7 @@ def gen_disc_load(data, lon, lat, area, LMAX=60, MMAX=None, UNITS=2,
     if PLM is None:
         plmout,_ = plm_holmes(LMAX, np.cos(th))
         # truncate precomputed plms to order
-        plmout = np.squeeze(plmout[:,:MMAX+1,:])
+        plmout = plmout[:,:MMAX+1,0]
     else:
         # truncate precomputed plms to degree and order
         plmout = PLM[:LMAX+1,:MMAX+1]
diff --git a/gravity_toolkit/gen_spherical_cap.py b/gravity_toolkit/gen_spherical_cap.py
index 49782c5..4f8165f 100755
--- a/gravity_toolkit/gen_spherical_cap.py
+++ b/gravity_toolkit/gen_spherical_cap.py
@@ -234,7 +234,7 @@ def gen_spherical_cap(data, lon, lat, LMAX=60, MMAX=None,
     if PLM is None:
         plmout,_ = plm_holmes(LMAX, np.cos(th))
         # truncate precomputed plms to order
-        plmout = np.squeeze(plmout[:,:MMAX+1,:])
+        plmout = plmout[:,:MMAX+1,0]
     else:
         # truncate precomputed plms to degree and order
         plmout = PLM[:LMAX+1,:MMAX+1]
-- 
2.43.0


From 10e67f124ff78efc698af60ee86e0e82cadb4a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:42 +0000
Subject: [PATCH 31/90] fix: a single point load raised

---
 gravity_toolkit/gen_point_load.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/gen_point_load.py b/gravity_toolkit/gen_point_load.py
index 8cf05d8..4c37c47 100644
--- a/gravity_toolkit/gen_point_load.py
+++ b/gravity_toolkit/gen_point_load.py
@@ -173,7 +173,7 @@ def spherical_harmonic_matrix(l, data, phi, theta, coeff):
     # spherical harmonic orders up to degree l
     m = np.arange(0, l+1)
     # calculate Euler's of spherical harmonic order multiplied by azimuth phi
-    mphi = np.exp(1j*np.dot(np.squeeze(phi)[:,np.newaxis], m[np.newaxis,:]))
+    mphi = np.exp(1j*np.dot(phi[:,np.newaxis], m[np.newaxis,:]))
     # reshape data to order
     D = np.kron(np.ones((1, l+1)), data[:,np.newaxis])
     # calculate spherical harmonics and multiply by coefficients and data
-- 
2.43.0


From de3102f0b62396d6f088d86961517c9482c48814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:06 +0000
Subject: [PATCH 32/90] fix: weighted regression replaced zeros in the errors
 of the caller

---
 gravity_toolkit/time_series/piecewise.py | 2 +-
 gravity_toolkit/time_series/regress.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/time_series/piecewise.py b/gravity_toolkit/time_series/piecewise.py
index e234900..566b995 100755
--- a/gravity_toolkit/time_series/piecewise.py
+++ b/gravity_toolkit/time_series/piecewise.py
@@ -212,7 +212,7 @@ def piecewise(t_in, d_in, BREAK_TIME=None, BREAKPOINT=None,
         # check if any error values are 0 (prevent infinite weights)
         if np.count_nonzero(DATA_ERR == 0.0):
             # change to minimum floating point value
-            DATA_ERR[DATA_ERR == 0.0] = np.finfo(np.float64).eps
+            DATA_ERR = np.where(DATA_ERR == 0.0, np.finfo(np.float64).eps, DATA_ERR)
         # Weight Precision
         wi = np.squeeze(DATA_ERR**(-2))
         # If uncorrelated weights are the diagonal
diff --git a/gravity_toolkit/time_series/regress.py b/gravity_toolkit/time_series/regress.py
index bca9ecd..fd324cd 100755
--- a/gravity_toolkit/time_series/regress.py
+++ b/gravity_toolkit/time_series/regress.py
@@ -223,7 +223,7 @@ def regress(t_in, d_in, ORDER=1, CYCLES=[0.5,1.0], TERMS=[],
         # check if any error values are 0 (prevent infinite weights)
         if np.count_nonzero(DATA_ERR == 0.0):
             # change to minimum floating point value
-            DATA_ERR[DATA_ERR == 0.0] = np.finfo(np.float64).eps
+            DATA_ERR = np.where(DATA_ERR == 0.0, np.finfo(np.float64).eps, DATA_ERR)
         # Weight Precision
         wi = np.squeeze(DATA_ERR**(-2))
         # If uncorrelated weights are the diagonal
-- 
2.43.0


From 01e75b4403f83ed1ecef977cae790c7a113e96ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:12 +0000
Subject: [PATCH 33/90] fix: piecewise regression errors from data errors were
 variances

---
 gravity_toolkit/time_series/piecewise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/time_series/piecewise.py b/gravity_toolkit/time_series/piecewise.py
index 566b995..24fd110 100755
--- a/gravity_toolkit/time_series/piecewise.py
+++ b/gravity_toolkit/time_series/piecewise.py
@@ -311,7 +311,7 @@ def piecewise(t_in, d_in, BREAK_TIME=None, BREAKPOINT=None,
         NORMEQ = np.dot(Hinv,np.transpose(DMAT))
         temp_err = np.zeros((n_terms))
         for i in range(0,n_terms):
-            temp_err[i] = np.sum((NORMEQ[i,:]*P_err)**2)
+            temp_err[i] = np.sqrt(np.sum((NORMEQ[i,:]*P_err)**2))
         # Recalculating beta2 error
         beta_err = np.copy(temp_err)
         beta_err[2] = np.sqrt(temp_err[1]**2 + temp_err[2]**2)
-- 
2.43.0


From c5db5137a82c5bcd1d8dba0297da373c61df668b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:17 +0000
Subject: [PATCH 34/90] fix: piecewise regression with a break time after its
 nearest epoch

---
 gravity_toolkit/time_series/piecewise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/time_series/piecewise.py b/gravity_toolkit/time_series/piecewise.py
index 24fd110..1f7a9bd 100755
--- a/gravity_toolkit/time_series/piecewise.py
+++ b/gravity_toolkit/time_series/piecewise.py
@@ -192,7 +192,7 @@ def piecewise(t_in, d_in, BREAK_TIME=None, BREAKPOINT=None,
         DMAT.append(t_in**o)
     # Linear Term 2 (change from linear term1: trend2 = beta1+beta2)
     P_x1 = np.zeros((nmax))
-    P_x1[nco:] = t_in[nco:] - tco
+    P_x1[nco:] = np.maximum(t_in[nco:] - tco, 0.0)
     DMAT.append(P_x1)
     # add cyclical terms (0.5=semi-annual, 1=annual)
     for c in CYCLES:
-- 
2.43.0


From c53a0304ef21fa91fa49c2f46a17a0c9154d1187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:22 +0000
Subject: [PATCH 35/90] fix: lomb_scargle frequency ranges were divided by two
 pi

---
 gravity_toolkit/time_series/lomb_scargle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/time_series/lomb_scargle.py b/gravity_toolkit/time_series/lomb_scargle.py
index f24c332..89589d6 100755
--- a/gravity_toolkit/time_series/lomb_scargle.py
+++ b/gravity_toolkit/time_series/lomb_scargle.py
@@ -116,7 +116,7 @@ def lomb_scargle(t_in, d_in, **kwargs):
     if kwargs['OMEGA']:
         OMEGA = np.atleast_1d(kwargs['OMEGA'])
     elif kwargs['FREQUENCY']:
-        OMEGA = np.atleast_1d(kwargs['FREQUENCY'])/(2.0*np.pi)
+        OMEGA = 2.0*np.pi*np.atleast_1d(kwargs['FREQUENCY'])
     elif kwargs['PERIOD']:
         OMEGA = (2.0*np.pi)/np.atleast_1d(kwargs['PERIOD'])
     else:
-- 
2.43.0


From d0f38e130fe8c715431a8d1cc63879b77fd87ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:27 +0000
Subject: [PATCH 36/90] fix: savitzky_golay raised with NumPy 2

---
 gravity_toolkit/time_series/savitzky_golay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/time_series/savitzky_golay.py b/gravity_toolkit/time_series/savitzky_golay.py
index a95e4a0..ccf8e23 100644
--- a/gravity_toolkit/time_series/savitzky_golay.py
+++ b/gravity_toolkit/time_series/savitzky_golay.py
@@ -123,10 +123,10 @@ def savitzky_golay(t_in, y_in, WINDOW=None, ORDER=2, DERIV=0,
     for n in range(0, (nmax-(2*half_window))):
         yran = y_in[n + np.arange(0, 2*half_window+1)]
         # Vandermonde matrix for the time-series
-        b = np.mat([[(t_in[k]-t_in[n+half_window])**i for i in order_range]
+        b = np.array([[(t_in[k]-t_in[n+half_window])**i for i in order_range]
             for k in range(n, n+2*half_window+1)])
         # compute the pseudoinverse of the design matrix
-        m=np.linalg.pinv(b).A[DERIV]*RATE**DERIV*scipy.special.factorial(DERIV)
+        m=np.linalg.pinv(b)[DERIV]*RATE**DERIV*scipy.special.factorial(DERIV)
         # pad the signal at the extremes with values taken from the signal
         firstvals = yran[0] - np.abs(yran[1:half_window+1][::-1] - yran[0])
         lastvals = yran[-1] + np.abs(yran[-half_window-1:-1][::-1] - yran[-1])
-- 
2.43.0


From 57271224987845393b9e4f6643ee11ddc3c84642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:04 +0000
Subject: [PATCH 37/90] fix: last tabulated degree of Love numbers was
 overwritten by extrapolation

---
 gravity_toolkit/read_love_numbers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/read_love_numbers.py b/gravity_toolkit/read_love_numbers.py
index f1b2f44..f579127 100755
--- a/gravity_toolkit/read_love_numbers.py
+++ b/gravity_toolkit/read_love_numbers.py
@@ -204,7 +204,7 @@ def read_love_numbers(love_numbers_file, LMAX=None, HEADER=2,
     # if needing to linearly extrapolate Love/Shida numbers
     # NOTE: use caution if extrapolating far beyond the
     # maximum degree of the Love/Shida numbers dataset
-    for lint in range(l,LMAX+1):
+    for lint in range(l+1,LMAX+1):
         # linearly extrapolate to maximum degree
         for n in ('hl','kl','ll'):
             love[n][lint] = 2.0*love[n][lint-1] - love[n][lint-2]
-- 
2.43.0


From 82a7195589751cea94225a216116d5bd6eaebcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:38 +0000
Subject: [PATCH 38/90] fix: maximum degree of Love number files with exponents
 before the degree

---
 gravity_toolkit/read_love_numbers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/read_love_numbers.py b/gravity_toolkit/read_love_numbers.py
index f579127..7af6484 100755
--- a/gravity_toolkit/read_love_numbers.py
+++ b/gravity_toolkit/read_love_numbers.py
@@ -154,7 +154,8 @@ def read_love_numbers(love_numbers_file, LMAX=None, HEADER=2,
     rx = re.compile(regex_pattern, re.VERBOSE)
 
     # extract maximum spherical harmonic degree from final line in file
-    degree = rx.findall(file_contents[-1])[COLUMNS.index('l')]
+    final_line = file_contents[-1].replace('D','E')
+    degree = rx.findall(final_line)[COLUMNS.index('l')]
     if LMAX is None and (degree == 'inf'):
         LMAX = np.copy(_default_max_degree)
     elif LMAX is None:
-- 
2.43.0


From 9c5e25b5acfc2c01ab5c7388192723d62cbc0d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:05 +0000
Subject: [PATCH 39/90] fix: JPL mascon averages were divided by the number of
 latitudes

---
 gravity_toolkit/mascons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/mascons.py b/gravity_toolkit/mascons.py
index 2a8f08c..cdf112b 100644
--- a/gravity_toolkit/mascons.py
+++ b/gravity_toolkit/mascons.py
@@ -160,7 +160,7 @@ def to_jpl(gdata, lon, lat, lon_bound, lat_bound):
         I,J = (I[np.newaxis,:], J[:,np.newaxis])
         # calculate average data for mascon bin
         mascon_array['data'][k] = np.mean((np.cos(lat[I]*np.pi/180.0) /
-            np.mean(np.cos(lat[I]*np.pi/180.0)))*gdata[I,J]/nlt)
+            np.mean(np.cos(lat[I]*np.pi/180.0)))*gdata[I,J])
         # calculate coordinates of mascon center
         mascon_array['lat'][k] = (lat_bound[k,1]+lat_bound[k,0])/2.0
         mascon_array['lon'][k] = (lon_bound[k,1]+lon_bound[k,2])/2.0
-- 
2.43.0


From 4e8e8652155869c9e547cc0d98045d8c96b400c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:12 +0000
Subject: [PATCH 40/90] fix: GSFC mascon conversions changed the centers of the
 caller

---
 gravity_toolkit/mascons.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/mascons.py b/gravity_toolkit/mascons.py
index cdf112b..dbec6d9 100644
--- a/gravity_toolkit/mascons.py
+++ b/gravity_toolkit/mascons.py
@@ -63,8 +63,7 @@ def to_gsfc(gdata, lon, lat, lon_center, lat_center, lon_span, lat_span):
     # number of mascons
     nmas = len(lon_center)
     # convert mascon centers to -180:180
-    gt180, = np.nonzero(lon_center > 180)
-    lon_center[gt180] -= 360.0
+    lon_center = np.where(lon_center > 180, lon_center - 360.0, lon_center)
     # remove singleton dimensions
     lat = np.squeeze(lat)
     lon = np.squeeze(lon)
@@ -219,8 +218,7 @@ def from_gsfc(mscdata, grid_spacing, lon_center, lat_center, lon_span, lat_span,
     # number of mascons
     nmas = len(lon_center)
     # convert mascon centers to -180:180
-    gt180, = np.nonzero(lon_center > 180)
-    lon_center[gt180] -= 360.0
+    lon_center = np.where(lon_center > 180, lon_center - 360.0, lon_center)
 
     # Define output latitude and longitude grids
     lon = np.arange(-180.0+grid_spacing/2.0,180.0+grid_spacing/2.0,grid_spacing)
-- 
2.43.0


From f710befc1a2b13279a767cde724db0b2118fc54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:12 +0000
Subject: [PATCH 41/90] fix: text files held in memory as bytes could not be
 read

---
 gravity_toolkit/harmonics.py |  5 ++++-
 gravity_toolkit/spatial.py   | 10 ++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index c623ca0..535bd64 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -250,7 +250,10 @@ class harmonics(object):
                 file_contents = z.read(stem).decode('ISO-8859-1').splitlines()
         elif (kwargs['compression'] == 'bytes'):
             # read input file object and split lines
-            file_contents = self.filename.read().splitlines()
+            file_contents = self.filename.read()
+            if isinstance(file_contents, bytes):
+                file_contents = file_contents.decode('ISO-8859-1')
+            file_contents = file_contents.splitlines()
         else:
             # read input ascii file (.txt, .asc) and split lines
             with open(self.filename, mode='r', encoding='utf8') as f:
diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 416302b..587066e 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -242,7 +242,10 @@ class spatial(object):
                 file_contents = z.read(stem).decode('ISO-8859-1').splitlines()
         elif (kwargs['compression'] == 'bytes'):
             # read input file object and split lines
-            file_contents = self.filename.read().splitlines()
+            file_contents = self.filename.read()
+            if isinstance(file_contents, bytes):
+                file_contents = file_contents.decode('ISO-8859-1')
+            file_contents = file_contents.splitlines()
         else:
             # read input ascii file (.txt, .asc) and split lines
             with self.filename.open(mode='r', encoding='utf8') as f:
@@ -1865,7 +1868,10 @@ class scaling_factors(spatial):
                 file_contents = z.read(stem).decode('ISO-8859-1').splitlines()
         elif (kwargs['compression'] == 'bytes'):
             # read input file object and split lines
-            file_contents = self.filename.read().splitlines()
+            file_contents = self.filename.read()
+            if isinstance(file_contents, bytes):
+                file_contents = file_contents.decode('ISO-8859-1')
+            file_contents = file_contents.splitlines()
         else:
             # read input ascii file (.txt, .asc) and split lines
             with self.filename.open(mode='r', encoding='utf8') as f:
-- 
2.43.0


From 6a9369e43ee5c6ffcb04cfb0d6526662b15f5eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:12 +0000
Subject: [PATCH 42/90] fix: dated text grids could not be read

---
 gravity_toolkit/spatial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 587066e..8b7747b 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -279,7 +279,7 @@ class spatial(object):
         self.data = np.zeros((nlat, nlon))
         self.mask = np.zeros((nlat, nlon), dtype=bool)
         # remove time from list of column names if not date
-        columns = [c for c in kwargs['columns'] if (c != 'time')]
+        columns = [c for c in kwargs['columns'] if date or (c != 'time')]
         # extract spatial data array and convert to matrix
         # for each line in the file
         header = kwargs['header']
@@ -296,7 +296,7 @@ class spatial(object):
             self.lat[ilat] = np.float64(d['lat'])
             # if the ascii file contains date variables
             if date:
-                self.time = np.array(d['time'],dtype='f')
+                self.time = np.array(d['time'],dtype=np.float64)
                 self.month = calendar_to_grace(self.time)
         # if the ascii file contains date variables
         if date:
-- 
2.43.0


From 9b70673b99f1ec282e068170e0d3ab561fd43c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:12 +0000
Subject: [PATCH 43/90] fix: cells missing from text grids were valid zeros

---
 gravity_toolkit/spatial.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 8b7747b..36984ce 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -275,9 +275,9 @@ class spatial(object):
         # get spatial dimensions
         nlat = len(self.lat)
         nlon = len(self.lon)
-        # output spatial data
+        # output spatial data (cells not in the file are invalid)
         self.data = np.zeros((nlat, nlon))
-        self.mask = np.zeros((nlat, nlon), dtype=bool)
+        self.mask = np.ones((nlat, nlon), dtype=bool)
         # remove time from list of column names if not date
         columns = [c for c in kwargs['columns'] if date or (c != 'time')]
         # extract spatial data array and convert to matrix
@@ -1901,9 +1901,9 @@ class scaling_factors(spatial):
         # get spatial dimensions
         nlat = len(self.lat)
         nlon = len(self.lon)
-        # output spatial data
+        # output spatial data (cells not in the file are invalid)
         self.data = np.zeros((nlat, nlon))
-        self.mask = np.zeros((nlat, nlon), dtype=bool)
+        self.mask = np.ones((nlat, nlon), dtype=bool)
         # remove time from list of column names if not date
         columns = [c for c in kwargs['columns'] if (c != 'time')]
         # extract spatial data array and convert to matrix
-- 
2.43.0


From bd494021d14c08fb3fad0895da7d9c3d2bf490ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:12 +0000
Subject: [PATCH 44/90] fix: text grids with extents or western longitudes lost
 cells

---
 gravity_toolkit/spatial.py | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 36984ce..a6ce9ec 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -264,14 +264,19 @@ class spatial(object):
         elif (None not in kwargs['extent']) and (None not in kwargs['spacing']):
             extent = kwargs.get('extent')
             dlon, dlat = kwargs.get('spacing')
-            self.lat = np.arange(extent[3], extent[2] - dlat, dlat)
-            self.lon = np.arange(extent[0], extent[1] + dlon, dlon)
+            self.lat = np.arange(extent[3], extent[2] - dlat/2.0, -dlat)
+            self.lon = np.arange(extent[0], extent[1] + dlon/2.0, dlon)
         elif kwargs['nlat'] and kwargs['nlon'] and (None not in kwargs['spacing']):
             dlon, dlat = kwargs.get('spacing')
             self.lat = np.zeros((kwargs['nlat']))
             self.lon = np.zeros((kwargs['nlon']))
         else:
             raise ValueError('Unknown dimensions for input ``spatial`` object')
+        # coordinates of the first row and column
+        if None not in kwargs['extent']:
+            lon0, lat0 = self.lon[0], self.lat[0]
+        else:
+            lon0, lat0 = 0.0, 90.0
         # get spatial dimensions
         nlat = len(self.lat)
         nlon = len(self.lon)
@@ -288,8 +293,11 @@ class spatial(object):
             # convert fortran exponentials if applicable
             d = {c:r.replace('D','E') for c,r in zip(columns,rx.findall(line))}
             # convert line coordinates to integers
-            ilon = np.int64(np.float64(d['lon'])/dlon)
-            ilat = np.int64((90.0 - np.float64(d['lat']))//dlat)
+            # (rounding errors of the division should not change the cell)
+            ilon = np.int64(np.floor(np.around(
+                (np.float64(d['lon']) - lon0)/dlon, decimals=6)))
+            ilat = np.int64(np.floor(np.around(
+                (lat0 - np.float64(d['lat']))/dlat, decimals=6)))
             self.data[ilat, ilon] = np.float64(d['data'])
             self.mask[ilat, ilon] = False
             self.lon[ilon] = np.float64(d['lon'])
@@ -1890,14 +1898,19 @@ class scaling_factors(spatial):
         elif (None not in kwargs['extent']) and (None not in kwargs['spacing']):
             extent = kwargs.get('extent')
             dlon, dlat = kwargs.get('spacing')
-            self.lat = np.arange(extent[3], extent[2] - dlat, dlat)
-            self.lon = np.arange(extent[0], extent[1] + dlon, dlon)
+            self.lat = np.arange(extent[3], extent[2] - dlat/2.0, -dlat)
+            self.lon = np.arange(extent[0], extent[1] + dlon/2.0, dlon)
         elif kwargs['nlat'] and kwargs['nlon'] and (None not in kwargs['spacing']):
             dlon, dlat = kwargs.get('spacing')
             self.lat = np.zeros((kwargs['nlat']))
             self.lon = np.zeros((kwargs['nlon']))
         else:
             raise ValueError('Unknown dimensions for input ``spatial`` object')
+        # coordinates of the first row and column
+        if None not in kwargs['extent']:
+            lon0, lat0 = self.lon[0], self.lat[0]
+        else:
+            lon0, lat0 = 0.0, 90.0
         # get spatial dimensions
         nlat = len(self.lat)
         nlon = len(self.lon)
@@ -1914,8 +1927,11 @@ class scaling_factors(spatial):
             # convert fortran exponentials if applicable
             d = {c:r.replace('D','E') for c,r in zip(columns,rx.findall(line))}
             # convert line coordinates to integers
-            ilon = np.int64(np.float64(d['lon'])/dlon)
-            ilat = np.int64((90.0-np.float64(d['lat']))//dlat)
+            # (rounding errors of the division should not change the cell)
+            ilon = np.int64(np.floor(np.around(
+                (np.float64(d['lon']) - lon0)/dlon, decimals=6)))
+            ilat = np.int64(np.floor(np.around(
+                (lat0 - np.float64(d['lat']))/dlat, decimals=6)))
             # get scaling factor, error and magnitude
             self.data[ilat,ilon] = np.float64(d['data'])
             self.error[ilat,ilon] = np.float64(d['error'])
-- 
2.43.0


From fad81baab5d95c05bfd4fac0059f14dd35fe27b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:12 +0000
Subject: [PATCH 45/90] fix: square grids were transposed on reading

---
 gravity_toolkit/spatial.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index a6ce9ec..38c5295 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -413,7 +413,8 @@ class spatial(object):
         fileID.close()
         # switching data array to lat/lon if lon/lat
         sz = self.data.shape
-        if (self.data.ndim == 2) and (len(self.lon) == sz[0]):
+        if (self.data.ndim == 2) and (len(self.lon) == sz[0]) and \
+            (len(self.lat) != sz[0]):
             self.data = self.data.T
         # set fill value and mask
         if '_FillValue' in self.attributes['data'].keys():
@@ -537,7 +538,8 @@ class spatial(object):
         fileID.close()
         # switching data array to lat/lon if lon/lat
         sz = self.data.shape
-        if (self.data.ndim == 2) and (len(self.lon) == sz[0]):
+        if (self.data.ndim == 2) and (len(self.lon) == sz[0]) and \
+            (len(self.lat) != sz[0]):
             self.data = self.data.T
         # set fill value and mask
         if '_FillValue' in self.attributes['data'].keys():
-- 
2.43.0


From f587510cf64e955c59301bba8eb26be0e6c777f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:12 +0000
Subject: [PATCH 46/90] fix: text scaling factors could not be read

---
 gravity_toolkit/spatial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 38c5295..1434d0c 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1918,6 +1918,8 @@ class scaling_factors(spatial):
         nlon = len(self.lon)
         # output spatial data (cells not in the file are invalid)
         self.data = np.zeros((nlat, nlon))
+        self.error = np.zeros((nlat, nlon))
+        self.magnitude = np.zeros((nlat, nlon))
         self.mask = np.ones((nlat, nlon), dtype=bool)
         # remove time from list of column names if not date
         columns = [c for c in kwargs['columns'] if (c != 'time')]
@@ -1935,7 +1937,7 @@ class scaling_factors(spatial):
             ilat = np.int64(np.floor(np.around(
                 (lat0 - np.float64(d['lat']))/dlat, decimals=6)))
             # get scaling factor, error and magnitude
-            self.data[ilat,ilon] = np.float64(d['data'])
+            self.data[ilat,ilon] = np.float64(d['kfactor'])
             self.error[ilat,ilon] = np.float64(d['error'])
             self.magnitude[ilat,ilon] = np.float64(d['magnitude'])
             # set mask
-- 
2.43.0


From e981e6c987fba0e743c2f407c0c7e5d76dc37cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:12 +0000
Subject: [PATCH 47/90] fix: dates of undated harmonics read from files were
 arrays of None

---
 gravity_toolkit/harmonics.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 535bd64..dc1d7c6 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -362,7 +362,8 @@ class harmonics(object):
         # expand the spherical harmonics to dimensions
         self = temp.expand(date=kwargs['date'])
         # adjust months to fix special cases if necessary
-        self.month = adjust_months(self.month)
+        if kwargs['date']:
+            self.month = adjust_months(self.month)
         # attributes of clm/slm and included variables
         for key in fields:
             # attempt to get attribute for variable
@@ -464,7 +465,8 @@ class harmonics(object):
         # expand the spherical harmonics to dimensions
         self = temp.expand(date=kwargs['date'])
         # adjust months to fix special cases if necessary
-        self.month = adjust_months(self.month)
+        if kwargs['date']:
+            self.month = adjust_months(self.month)
         # attributes of clm/slm and included variables
         for key in fields:
             # attempt to get attribute for variable
@@ -1421,8 +1423,10 @@ class harmonics(object):
                 raise ValueError('No time dimension to squeeze')
             self.clm = np.squeeze(self.clm, axis=-1)
             self.slm = np.squeeze(self.slm, axis=-1)
-            self.time = np.squeeze(self.time)
-            self.month = np.squeeze(self.month)
+            if self.time is not None:
+                self.time = np.squeeze(self.time)
+            if self.month is not None:
+                self.month = np.squeeze(self.month)
         except ValueError as exc:
             pass
         # assign degree and order fields
-- 
2.43.0


From 3f61285f72fb926785823b92532674c5192d90a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:16 +0000
Subject: [PATCH 48/90] fix: drift rates beyond the truncation or not applied
 are skipped when reading level-2 files

---
 gravity_toolkit/read_GRACE_harmonics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/read_GRACE_harmonics.py b/gravity_toolkit/read_GRACE_harmonics.py
index 4a628e8..1ad3300 100644
--- a/gravity_toolkit/read_GRACE_harmonics.py
+++ b/gravity_toolkit/read_GRACE_harmonics.py
@@ -233,8 +233,10 @@ def read_GRACE_harmonics(input_file, LMAX, **kwargs):
             l1 = np.int64(line_contents[1])
             m1 = np.int64(line_contents[2])
             # Reading Drift rates for low degree harmonics
-            drift_c[l1,m1] = np.float64(line_contents[3])
-            drift_s[l1,m1] = np.float64(line_contents[4])
+            # (if applied and if below the truncation limits)
+            if (DREL == 4) and (DSET == 'GSM') and (l1 <= LMAX) and (m1 <= MMAX):
+                drift_c[l1,m1] = np.float64(line_contents[3])
+                drift_s[l1,m1] = np.float64(line_contents[4])
 
     # Adding drift rates to clm and slm for RL04
     # if drift rates exist at any time, will add to harmonics
-- 
2.43.0


From 31977844e86c3a90fb4f1425e0bd0940651af84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:16 +0000
Subject: [PATCH 49/90] fix: harmonics.from_file passes the degree to from_SHM

---
 gravity_toolkit/harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index dc1d7c6..581ecf1 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -726,7 +726,7 @@ class harmonics(object):
             return harmonics().from_gfc(filename, **kwargs)
         elif (format == 'SHM'):
             # spherical harmonic model
-            return harmonics().from_SHM(filename, self.lmax, **kwargs)
+            return harmonics(lmax=self.lmax).from_SHM(filename, **kwargs)
 
     def from_dict(self, d, **kwargs):
         """
-- 
2.43.0


From a0a0ed1edabce3cf81e4299fb1fe25f42c179ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:16 +0000
Subject: [PATCH 50/90] fix: monthly SLR dates are single values

---
 gravity_toolkit/read_SLR_harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/read_SLR_harmonics.py b/gravity_toolkit/read_SLR_harmonics.py
index 9d596fe..39259b9 100644
--- a/gravity_toolkit/read_SLR_harmonics.py
+++ b/gravity_toolkit/read_SLR_harmonics.py
@@ -208,7 +208,7 @@ def read_CSR_monthly_6x1(SLR_file, SCALE=1e-10, HEADER=True):
         Ylms['MJD'][d] = np.mean(np.array(line_contents[5:7],dtype=np.float64))
         # date of the mid-point of the arc given in years
         YY,MM = np.array(line_contents[3:5])
-        Ylms['time'][d] = gravity_toolkit.time.convert_calendar_decimal(YY,MM)
+        Ylms['time'][d], = gravity_toolkit.time.convert_calendar_decimal(YY,MM)
         # add 1 to counter
         count += 1
 
-- 
2.43.0


From badef924673e3e132aeca68306a9f3de611ae6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:37 +0000
Subject: [PATCH 51/90] fix: SLR files can be given as text paths

---
 gravity_toolkit/read_SLR_harmonics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gravity_toolkit/read_SLR_harmonics.py b/gravity_toolkit/read_SLR_harmonics.py
index 39259b9..6cfb376 100644
--- a/gravity_toolkit/read_SLR_harmonics.py
+++ b/gravity_toolkit/read_SLR_harmonics.py
@@ -88,6 +88,7 @@ def read_SLR_harmonics(SLR_file, **kwargs):
     **kwargs: dict
         keyword arguments for input readers
     """
+    SLR_file = pathlib.Path(SLR_file).expanduser().absolute()
     if bool(re.search(r'gsfc_slr_5x5c61s61', SLR_file.name, re.I)):
         return read_GSFC_weekly_6x1(SLR_file, **kwargs)
     elif bool(re.search(r'CSR_Monthly_5x5_Gravity_Harmonics', SLR_file.name, re.I)):
-- 
2.43.0


From 2ca420269dc809570d3c02012531bf606f86ed60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:37 +0000
Subject: [PATCH 52/90] fix: dates of Swarm background models are read from
 their own names

---
 gravity_toolkit/read_gfc_harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/read_gfc_harmonics.py b/gravity_toolkit/read_gfc_harmonics.py
index d344488..17b08fb 100644
--- a/gravity_toolkit/read_gfc_harmonics.py
+++ b/gravity_toolkit/read_gfc_harmonics.py
@@ -178,7 +178,7 @@ def read_gfc_harmonics(input_file, TIDE=None, FLAG='gfc'):
     elif re.match(swarm_model, input_file.name):
         # compile numerical expression operator for parameters from files
         # Swarm: dealiasing products for Swarm data
-        rx = re.compile(swarm_data, re.VERBOSE | re.IGNORECASE)
+        rx = re.compile(swarm_model, re.VERBOSE | re.IGNORECASE)
         # extract parameters from input filename
         PROD,trunc,month,year,SFX = rx.findall(input_file.name).pop()
         # number of days in each month for the calendar year
-- 
2.43.0


From becfc3812a438cce3c0b8f0189658f1a1f757a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:37 +0000
Subject: [PATCH 53/90] fix: maximum order given as MMAX is used when reading
 GIA models

---
 gravity_toolkit/read_GIA_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/read_GIA_model.py b/gravity_toolkit/read_GIA_model.py
index 39da6de..5f5e673 100755
--- a/gravity_toolkit/read_GIA_model.py
+++ b/gravity_toolkit/read_GIA_model.py
@@ -719,7 +719,7 @@ class gia(harmonics):
         kwargs.setdefault('verbose',False)
         # catch case where MMAX is entered
         if ('MMAX' in kwargs.keys()):
-            kwargs['mmax'] = np.copy(kwargs['mmax'])
+            kwargs['mmax'] = kwargs['MMAX']
         # read data from GIA file
         Ylms = read_GIA_model(self.filename, GIA=kwargs['GIA'],
             LMAX=self.lmax, MMAX=kwargs['mmax'])
-- 
2.43.0


From e53b3751be97cfb43d996dc457fa0f6af19cf7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:10 +0000
Subject: [PATCH 54/90] fix: months of gravity model files are those of their
 dates

---
 gravity_toolkit/harmonics.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 581ecf1..334b5ce 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -531,8 +531,7 @@ class harmonics(object):
         # copy date variables
         if kwargs['date']:
             self.time = Ylms['time'].copy()
-            # adjust months to fix special cases if necessary
-            self.month = adjust_months(Ylms['month'])
+            self.month = np.int64(calendar_to_grace(self.time))
         # geophysical parameters of gravity model
         self.GM = np.float64(Ylms['earth_gravity_constant'])
         self.R = np.float64(Ylms['radius'])
-- 
2.43.0


From 4871b89d5a7640d600e9b5387dd04c8779b0bfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:23 +0000
Subject: [PATCH 55/90] fix: degree and order of harmonics read from level-2
 files

---
 gravity_toolkit/harmonics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 334b5ce..9627aad 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -567,6 +567,8 @@ class harmonics(object):
         # copy variables for gravity model
         self.clm = Ylms['clm'].copy()
         self.slm = Ylms['slm'].copy()
+        self.lmax = np.max(Ylms['l'])
+        self.mmax = np.max(Ylms['m'])
         self.time = Ylms['time'].copy()
         self.month = np.int64(calendar_to_grace(self.time))
         # copy header information for gravity model
-- 
2.43.0


From d9c860d26c1c64b885fd90a30477090ad5e9f7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:45 +0000
Subject: [PATCH 56/90] fix: dates and values of low degree files are single
 values

---
 gravity_toolkit/SLR/C20.py | 16 ++++++++--------
 gravity_toolkit/SLR/C30.py |  2 +-
 gravity_toolkit/SLR/C50.py |  2 +-
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/gravity_toolkit/SLR/C20.py b/gravity_toolkit/SLR/C20.py
index 992018f..8944f51 100644
--- a/gravity_toolkit/SLR/C20.py
+++ b/gravity_toolkit/SLR/C20.py
@@ -330,7 +330,7 @@ def C20(SLR_file, AOD=True, HEADER=True):
                 YY,MM,DD,hh,mm,ss = gravity_toolkit.time.convert_julian(
                     MJD+2400000.5, format='tuple')
                 # converting from month, day, year into decimal year
-                dinput['time'][t] = gravity_toolkit.time.convert_calendar_decimal(
+                dinput['time'][t], = gravity_toolkit.time.convert_calendar_decimal(
                     YY, MM, day=DD, hour=hh)
                 # Spherical Harmonic data for line
                 dinput['data'][t] = np.float64(line_contents[2])
@@ -390,7 +390,7 @@ def C20(SLR_file, AOD=True, HEADER=True):
                 YY,MM,DD,hh,mm,ss = gravity_toolkit.time.convert_julian(
                     MJD+2400000.5, format='tuple')
                 # converting from month, day, year into decimal year
-                date_conv[t] = gravity_toolkit.time.convert_calendar_decimal(
+                date_conv[t], = gravity_toolkit.time.convert_calendar_decimal(
                     YY, MM, day=DD, hour=hh)
                 # Spherical Harmonic data for line
                 C20_input[t] = np.float64(line_contents[2])
@@ -425,16 +425,16 @@ def C20(SLR_file, AOD=True, HEADER=True):
             # there is only one solution for the month
             if (count == 1):
                 i = np.nonzero(mon == dinput['month'][t])
-                dinput['time'][t] = date_conv[i]
-                dinput['data'][t] = C20_input[i]
-                dinput['error'][t] = eC20_input[i]
+                dinput['time'][t], = date_conv[i]
+                dinput['data'][t], = C20_input[i]
+                dinput['error'][t], = eC20_input[i]
             # there is a special solution for the month
             # will the solution flagged with slr_flag
             elif (count == 2):
                 i = np.nonzero((mon == dinput['month'][t]) & slr_flag)
-                dinput['time'][t] = date_conv[i]
-                dinput['data'][t] = C20_input[i]
-                dinput['error'][t] = eC20_input[i]
+                dinput['time'][t], = date_conv[i]
+                dinput['data'][t], = C20_input[i]
+                dinput['error'][t], = eC20_input[i]
 
     # The 'Special Months' (Nov 2011, Dec 2011 and April 2012) with
     # Accelerometer shutoffs make the relation between month number
diff --git a/gravity_toolkit/SLR/C30.py b/gravity_toolkit/SLR/C30.py
index 84c2dda..3cd9d3b 100644
--- a/gravity_toolkit/SLR/C30.py
+++ b/gravity_toolkit/SLR/C30.py
@@ -161,7 +161,7 @@ def C30(SLR_file, C30_MEAN=9.5717395773300e-07, HEADER=True):
                 YY,MM,DD,hh,mm,ss = gravity_toolkit.time.convert_julian(
                     MJD+2400000.5, format='tuple')
                 # converting from month, day, year into decimal year
-                dinput['time'][t] = gravity_toolkit.time.convert_calendar_decimal(
+                dinput['time'][t], = gravity_toolkit.time.convert_calendar_decimal(
                     YY, MM, day=DD, hour=hh)
                 # Spherical Harmonic data for line
                 dinput['data'][t] = np.float64(line_contents[5])
diff --git a/gravity_toolkit/SLR/C50.py b/gravity_toolkit/SLR/C50.py
index af93dad..53dff90 100644
--- a/gravity_toolkit/SLR/C50.py
+++ b/gravity_toolkit/SLR/C50.py
@@ -143,7 +143,7 @@ def C50(SLR_file, C50_MEAN=0.0, DATE=None, HEADER=True):
                 YY,MM,DD,hh,mm,ss = gravity_toolkit.time.convert_julian(
                     MJD+2400000.5, format='tuple')
                 # converting from month, day, year into decimal year
-                dinput['time'][t] = gravity_toolkit.time.convert_calendar_decimal(
+                dinput['time'][t], = gravity_toolkit.time.convert_calendar_decimal(
                     YY, MM, day=DD, hour=hh)
                 # Spherical Harmonic data for line
                 dinput['data'][t] = np.float64(line_contents[10])
-- 
2.43.0


From cb97b0dda97363f46973de4591751cea52ad06a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:50 +0000
Subject: [PATCH 57/90] fix: corrected low degree values are single values

---
 gravity_toolkit/grace_input_months.py | 38 +++++++++++++--------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/gravity_toolkit/grace_input_months.py b/gravity_toolkit/grace_input_months.py
index b4cb61d..5bb91de 100644
--- a/gravity_toolkit/grace_input_months.py
+++ b/gravity_toolkit/grace_input_months.py
@@ -683,8 +683,8 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
             count = np.count_nonzero(C20_input['month'] == grace_month)
             if (count != 0):
                 k, = np.nonzero(C20_input['month'] == grace_month)
-                grace_Ylms['clm'][2,0,i] = np.copy(C20_input['data'][k])
-                grace_Ylms['eclm'][2,0,i] = np.copy(C20_input['error'][k])
+                grace_Ylms['clm'][2,0,i], = np.copy(C20_input['data'][k])
+                grace_Ylms['eclm'][2,0,i], = np.copy(C20_input['error'][k])
 
     # Replace C21/S21 with SLR coefficients for single-accelerometer months
     if kwargs['SLR_21'] in ('CSR','GFZ','GSFC'):
@@ -698,10 +698,10 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
             count = np.count_nonzero(C21_input['month'] == grace_month)
             if (count != 0) and (grace_month > 176):
                 k, = np.nonzero(C21_input['month'] == grace_month)
-                grace_Ylms['clm'][2,1,i] = np.copy(C21_input['C2m'][k])
-                grace_Ylms['slm'][2,1,i] = np.copy(C21_input['S2m'][k])
-                grace_Ylms['eclm'][2,1,i] = np.copy(C21_input['eC2m'][k])
-                grace_Ylms['eslm'][2,1,i] = np.copy(C21_input['eS2m'][k])
+                grace_Ylms['clm'][2,1,i], = np.copy(C21_input['C2m'][k])
+                grace_Ylms['slm'][2,1,i], = np.copy(C21_input['S2m'][k])
+                grace_Ylms['eclm'][2,1,i], = np.copy(C21_input['eC2m'][k])
+                grace_Ylms['eslm'][2,1,i], = np.copy(C21_input['eS2m'][k])
 
     # Replace C22/S22 with SLR coefficients for single-accelerometer months
     if kwargs['SLR_22'] in ('CSR','GSFC'):
@@ -715,10 +715,10 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
             count = np.count_nonzero(C22_input['month'] == grace_month)
             if (count != 0) and (grace_month > 176):
                 k, = np.nonzero(C22_input['month'] == grace_month)
-                grace_Ylms['clm'][2,2,i] = np.copy(C22_input['C2m'][k])
-                grace_Ylms['slm'][2,2,i] = np.copy(C22_input['S2m'][k])
-                grace_Ylms['eclm'][2,2,i] = np.copy(C22_input['eC2m'][k])
-                grace_Ylms['eslm'][2,2,i] = np.copy(C22_input['eS2m'][k])
+                grace_Ylms['clm'][2,2,i], = np.copy(C22_input['C2m'][k])
+                grace_Ylms['slm'][2,2,i], = np.copy(C22_input['S2m'][k])
+                grace_Ylms['eclm'][2,2,i], = np.copy(C22_input['eC2m'][k])
+                grace_Ylms['eslm'][2,2,i], = np.copy(C22_input['eS2m'][k])
 
     # Replace C30 with SLR coefficients for single-accelerometer months
     if kwargs['SLR_C30'] in ('CSR','GFZ','GSFC','LARES'):
@@ -732,8 +732,8 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
             count = np.count_nonzero(C30_input['month'] == grace_month)
             if (count != 0) and (grace_month > 176):
                 k, = np.nonzero(C30_input['month'] == grace_month)
-                grace_Ylms['clm'][3,0,i] = np.copy(C30_input['data'][k])
-                grace_Ylms['eclm'][3,0,i] = np.copy(C30_input['error'][k])
+                grace_Ylms['clm'][3,0,i], = np.copy(C30_input['data'][k])
+                grace_Ylms['eclm'][3,0,i], = np.copy(C30_input['error'][k])
 
     # Replace C40 with SLR coefficients for single-accelerometer months
     if kwargs['SLR_C40'] in ('CSR','GSFC','LARES'):
@@ -747,8 +747,8 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
             count = np.count_nonzero(C40_input['month'] == grace_month)
             if (count != 0) and (grace_month > 176):
                 k, = np.nonzero(C40_input['month'] == grace_month)
-                grace_Ylms['clm'][4,0,i] = np.copy(C40_input['data'][k])
-                grace_Ylms['eclm'][4,0,i] = np.copy(C40_input['error'][k])
+                grace_Ylms['clm'][4,0,i], = np.copy(C40_input['data'][k])
+                grace_Ylms['eclm'][4,0,i], = np.copy(C40_input['error'][k])
 
     # Replace C50 with SLR coefficients for single-accelerometer months
     if kwargs['SLR_C50'] in ('CSR','GSFC','LARES'):
@@ -762,8 +762,8 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
             count = np.count_nonzero(C50_input['month'] == grace_month)
             if (count != 0) and (grace_month > 176):
                 k, = np.nonzero(C50_input['month'] == grace_month)
-                grace_Ylms['clm'][5,0,i] = np.copy(C50_input['data'][k])
-                grace_Ylms['eclm'][5,0,i] = np.copy(C50_input['error'][k])
+                grace_Ylms['clm'][5,0,i], = np.copy(C50_input['data'][k])
+                grace_Ylms['eclm'][5,0,i], = np.copy(C50_input['error'][k])
 
     # Use Degree 1 coefficients
     # Tellus: Tellus Degree 1 (PO.DAAC following Sun et al., 2016)
@@ -799,9 +799,9 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
                 grace_Ylms['clm'][1,1,i] = np.copy(C11_model[i])
                 grace_Ylms['slm'][1,1,i] = np.copy(S11_model[i])
             else:# using coefficients from data file
-                grace_Ylms['clm'][1,0,i] = np.copy(DEG1_input.C10[k])
-                grace_Ylms['clm'][1,1,i] = np.copy(DEG1_input.C11[k])
-                grace_Ylms['slm'][1,1,i] = np.copy(DEG1_input.S11[k])
+                grace_Ylms['clm'][1,0,i], = np.copy(DEG1_input.C10[k])
+                grace_Ylms['clm'][1,1,i], = np.copy(DEG1_input.C11[k])
+                grace_Ylms['slm'][1,1,i], = np.copy(DEG1_input.S11[k])
 
     # read and add/remove the GAE and GAF atmospheric correction coefficients
     if kwargs['ATM']:
-- 
2.43.0


From fd607769408eb6c7051342bf218f01cb6cd87b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:49 +0000
Subject: [PATCH 58/90] fix: geocenter files of the user can be given as
 strings

---
 gravity_toolkit/grace_input_months.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/grace_input_months.py b/gravity_toolkit/grace_input_months.py
index 5bb91de..b44db15 100644
--- a/gravity_toolkit/grace_input_months.py
+++ b/gravity_toolkit/grace_input_months.py
@@ -588,7 +588,8 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
                 f'TN-13_GEOC_{PROC}_{DREL}.txt')
             JPL = True
         # read degree one files from JPL GRACE Tellus
-        DEG1_file = kwargs.get('DEG1_FILE') or default_geocenter
+        DEG1_file = pathlib.Path(kwargs.get('DEG1_FILE') or
+            default_geocenter)
         # log geocenter file if debugging
         logging.debug(f'Reading Geocenter file: {DEG1_file}')
         DEG1_input = gravity_toolkit.geocenter().from_tellus(DEG1_file,JPL=JPL)
@@ -630,7 +631,8 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
         default_geocenter = base_dir.joinpath('geocenter',
             '{0}_{1}_{2}_{3}.txt'.format(*args))
         # read degree one files from Sutterley and Velicogna (2019)
-        DEG1_file = kwargs.get('DEG1_FILE') or default_geocenter
+        DEG1_file = pathlib.Path(kwargs.get('DEG1_FILE') or
+            default_geocenter)
         # log geocenter file if debugging
         logging.debug(f'Reading Geocenter file: {DEG1_file}')
         DEG1_input = gravity_toolkit.geocenter().from_UCI(DEG1_file)
@@ -641,7 +643,8 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
         default_geocenter = base_dir.joinpath('geocenter',
             f'gad_gsm.{DREL}.txt')
         # read degree one files from Swenson et al. (2008)
-        DEG1_file = kwargs.get('DEG1_FILE') or default_geocenter
+        DEG1_file = pathlib.Path(kwargs.get('DEG1_FILE') or
+            default_geocenter)
         # log geocenter file if debugging
         logging.debug(f'Reading Geocenter file: {DEG1_file}')
         DEG1_input = gravity_toolkit.geocenter().from_swenson(DEG1_file)
@@ -653,7 +656,8 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
         default_geocenter = base_dir.joinpath('geocenter',
             'GRAVIS-2B_GFZOP_GEOCENTER_0003.dat')
         # read degree one files from GFZ GravIS
-        DEG1_file = kwargs.get('DEG1_FILE') or default_geocenter
+        DEG1_file = pathlib.Path(kwargs.get('DEG1_FILE') or
+            default_geocenter)
         # log geocenter file if debugging
         logging.debug(f'Reading Geocenter file: {DEG1_file}')
         DEG1_input = gravity_toolkit.geocenter().from_gravis(DEG1_file)
-- 
2.43.0


From b5162d0556c7fc4e6ac75c5185d968ab18ae580d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:57 +0000
Subject: [PATCH 59/90] fix: ECMWF corrections truncated in order as well as
 degree

---
 gravity_toolkit/grace_input_months.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/grace_input_months.py b/gravity_toolkit/grace_input_months.py
index b44db15..b88af78 100644
--- a/gravity_toolkit/grace_input_months.py
+++ b/gravity_toolkit/grace_input_months.py
@@ -898,8 +898,8 @@ def read_ecmwf_corrections(base_dir, LMAX, months, MMAX=None):
 
     # create output atmospheric corrections to be removed/added to data
     atm_corr = {}
-    atm_corr['clm'] = np.zeros((LMAX+1, LMAX+1, n_cons))
-    atm_corr['slm'] = np.zeros((LMAX+1, LMAX+1, n_cons))
+    atm_corr['clm'] = np.zeros((LMAX+1, MMAX+1, n_cons))
+    atm_corr['slm'] = np.zeros((LMAX+1, MMAX+1, n_cons))
     atm_corr['files'] = sorted(corr_file.values())
     # for each considered date
     for i,grace_month in enumerate(months):
-- 
2.43.0


From 0999ede887c52823153b8b6e1fb1566eb2fe76d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:02 +0000
Subject: [PATCH 60/90] fix: months available from products of a single file

---
 gravity_toolkit/grace_find_months.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/grace_find_months.py b/gravity_toolkit/grace_find_months.py
index 2105fb0..cf84eb4 100644
--- a/gravity_toolkit/grace_find_months.py
+++ b/gravity_toolkit/grace_find_months.py
@@ -118,7 +118,7 @@ def grace_find_months(base_dir, PROC, DREL, DSET='GSM'):
     dtype = np.dtype({'names':names, 'formats':formats})
     # read GRACE/GRACE-FO date ascii file
     # skip the header row and extract dates (decimal format) and months
-    date_input = np.loadtxt(grace_date_file, skiprows=1, dtype=dtype)
+    date_input = np.loadtxt(grace_date_file, skiprows=1, ndmin=1, dtype=dtype)
     # date info dictionary
     var_info = {}
     var_info['time'] = date_input['t']
-- 
2.43.0


From 0bf43abd1fe2a21886bacd1eb5393039cc743108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:09 +0000
Subject: [PATCH 61/90] fix: table of months with products of a single file

---
 gravity_toolkit/grace_months_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/grace_months_index.py b/gravity_toolkit/grace_months_index.py
index 00531d7..b5b22a1 100644
--- a/gravity_toolkit/grace_months_index.py
+++ b/gravity_toolkit/grace_months_index.py
@@ -123,7 +123,7 @@ def grace_months_index(base_dir, DREL=['RL06','rl06v2.0'], MODE=None):
                 var_name = f'{pr}_{rl}'
                 # skip the header line
                 var_info[var_name] = np.loadtxt(grace_date_file,
-                    skiprows=1, dtype=dtype)
+                    skiprows=1, ndmin=1, dtype=dtype)
                 # Finding the maximum month measured
                 if (var_info[var_name]['mon'].max() > max_mon):
                     # if the maximum month in this dataset is greater
-- 
2.43.0


From c209395684c00b4f644140b7913feaace2c1527a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:18 +0000
Subject: [PATCH 62/90] fix: table of months with the default permissions

---
 gravity_toolkit/grace_months_index.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/grace_months_index.py b/gravity_toolkit/grace_months_index.py
index b5b22a1..749eff5 100644
--- a/gravity_toolkit/grace_months_index.py
+++ b/gravity_toolkit/grace_months_index.py
@@ -178,7 +178,8 @@ def grace_months_index(base_dir, DREL=['RL06','rl06v2.0'], MODE=None):
     # close months file
     fid.close()
     # set the permissions level of the output file
-    grace_months_file.chmod(mode=MODE)
+    if MODE is not None:
+        grace_months_file.chmod(mode=MODE)
 
 # PURPOSE: create argument parser
 def arguments():
-- 
2.43.0


From c53f10d4f092bf117bdbe35903a67c3733bff301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:25 +0000
Subject: [PATCH 63/90] fix: regression model of the geocenter without cyclical
 terms

---
 gravity_toolkit/grace_input_months.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gravity_toolkit/grace_input_months.py b/gravity_toolkit/grace_input_months.py
index b88af78..e1c2a95 100644
--- a/gravity_toolkit/grace_input_months.py
+++ b/gravity_toolkit/grace_input_months.py
@@ -952,6 +952,8 @@ def regress_model(t_in, d_in, t_out, ORDER=2, CYCLES=None, RELATIVE=0.0):
     # set relative to mean of input time
     if not RELATIVE:
         RELATIVE = np.mean(t_in)
+    # no cyclical terms by default
+    CYCLES = [] if (CYCLES is None) else CYCLES
     # create design matrix based on polynomial order and harmonics
     DMAT = []
     MMAT = []
-- 
2.43.0


From 3254c8b56b3c0340036368d36018d56eb319b17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:50 +0000
Subject: [PATCH 64/90] fix: names of files found without case are whole names

---
 gravity_toolkit/geocenter.py | 2 +-
 gravity_toolkit/harmonics.py | 2 +-
 gravity_toolkit/spatial.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/gravity_toolkit/geocenter.py b/gravity_toolkit/geocenter.py
index e9e140e..8896df4 100644
--- a/gravity_toolkit/geocenter.py
+++ b/gravity_toolkit/geocenter.py
@@ -129,7 +129,7 @@ class geocenter(object):
             if not self.filename.exists():
                 # search for filename without case dependence
                 f = [f.name for f in self.filename.parent.iterdir() if
-                    re.match(self.filename.name, f.name, re.I)]
+                    re.fullmatch(re.escape(self.filename.name), f.name, re.I)]
                 if not f:
                     msg = f'{filename} not found in file system'
                     raise FileNotFoundError(msg)
diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 9627aad..c5e5551 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -183,7 +183,7 @@ class harmonics(object):
             if not self.filename.exists():
                 # search for filename without case dependence
                 f = [f.name for f in self.filename.parent.iterdir() if
-                    re.match(self.filename.name, f.name, re.I)]
+                    re.fullmatch(re.escape(self.filename.name), f.name, re.I)]
                 if not f:
                     msg = f'{filename} not found in file system'
                     raise FileNotFoundError(msg)
diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 1434d0c..5e4662f 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -156,7 +156,7 @@ class spatial(object):
             if not self.filename.exists():
                 # search for filename without case dependence
                 f = [f.name for f in self.filename.parent.iterdir() if
-                    re.match(self.filename.name, f.name, re.I)]
+                    re.fullmatch(re.escape(self.filename.name), f.name, re.I)]
                 if not f:
                     msg = f'{filename} not found in file system'
                     raise FileNotFoundError(msg)
-- 
2.43.0


From bcf749ba77146aa29f650b23bae59953edfe0014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:50 +0000
Subject: [PATCH 65/90] fix: paths within the package from path objects

---
 gravity_toolkit/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index 4c8c046..64c50a3 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -108,7 +108,7 @@ def get_data_path(relpath: list | str | pathlib.Path):
     if isinstance(relpath, list):
         # use *splat operator to extract from list
         return filepath.joinpath(*relpath)
-    elif isinstance(relpath, str):
+    elif isinstance(relpath, (str, pathlib.Path)):
         return filepath.joinpath(relpath)
 
 
-- 
2.43.0


From 1220ba7d7b1e39df8b8873769894f152d4d81a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:50 +0000
Subject: [PATCH 66/90] fix: empty responses of the metadata repository

---
 gravity_toolkit/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index 64c50a3..f850e1e 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -1713,7 +1713,7 @@ def cmr_filter_json(
     granule_mtimes = []
     # check that there are urls for request
     if ('feed' not in search_results) or ('entry' not in search_results['feed']):
-        return (granule_names,granule_urls)
+        return (granule_names,granule_urls,granule_mtimes)
     # descriptor links for each endpoint
     rel = {}
     rel['data'] = "http://esipfed.org/ns/fedsearch/1.1/data#"
-- 
2.43.0


From 586687acb06c8f59aa1562c518c769ab97670b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:06 +0000
Subject: [PATCH 67/90] fix: shift a grid that starts at the first longitude

---
 gravity_toolkit/tools.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/tools.py b/gravity_toolkit/tools.py
index 36c93f0..ebdc6ec 100644
--- a/gravity_toolkit/tools.py
+++ b/gravity_toolkit/tools.py
@@ -1160,15 +1160,16 @@ def shift_grid(lon0, data, lon, CYCLIC=360.0):
         shift_lon = np.ma.zeros(lon.shape,lon.dtype)
     else:
         shift_lon = np.zeros(lon.shape,lon.dtype)
-    shift_lon[0:-i0] = lon[i0:] - CYCLIC
-    shift_lon[-i0:] = lon[start_idx:i0+start_idx]
+    i1 = len(lon) - i0
+    shift_lon[:i1] = lon[i0:] - CYCLIC
+    shift_lon[i1:] = lon[start_idx:i0+start_idx]
     # shift data values
     if np.ma.isMA(data):
         shift_data = np.ma.zeros(data.shape,data.dtype)
     else:
         shift_data = np.zeros(data.shape,data.dtype)
-    shift_data[:,:-i0] = data[:,i0:]
-    shift_data[:,-i0:] = data[:,start_idx:i0+start_idx]
+    shift_data[:,:i1] = data[:,i0:]
+    shift_data[:,i1:] = data[:,start_idx:i0+start_idx]
     # return the shifted values
     return (shift_data, shift_lon)
 
-- 
2.43.0


From 6385555b12b1c9fffadf8c3ac50f7f61904f3023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:16 +0000
Subject: [PATCH 68/90] fix: ascii harmonics of a converted grid

---
 scripts/convert_harmonics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/convert_harmonics.py b/scripts/convert_harmonics.py
index bc9b97a..ff7865c 100644
--- a/scripts/convert_harmonics.py
+++ b/scripts/convert_harmonics.py
@@ -204,7 +204,8 @@ def convert_harmonics(INPUT_FILE, OUTPUT_FILE,
         # append to list
         Ylms_list.append(output_Ylms)
     # convert Ylms list for output spherical harmonics
-    Ylms = gravtk.harmonics().from_list(Ylms_list, date=DATE, clear=True)
+    Ylms = gravtk.harmonics().from_list(Ylms_list, date=DATE,
+        clear=True).squeeze()
     # copy attribute to output harmonics
     Ylms.attributes['ROOT'] = copy.copy(attributes)
 
-- 
2.43.0


From cf279abdd86492d28002eda995af3b4cf26c34db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:24 +0000
Subject: [PATCH 69/90] fix: oblateness at every hour of release-6 dealiasing
 data

---
 scripts/aod1b_oblateness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/aod1b_oblateness.py b/scripts/aod1b_oblateness.py
index 047d2ca..edf71f8 100644
--- a/scripts/aod1b_oblateness.py
+++ b/scripts/aod1b_oblateness.py
@@ -229,7 +229,7 @@ def aod1b_oblateness(base_dir,
                 # close the input file for day
                 fid.close()
                 # write to file for each hour
-                for h in range(4):
+                for h in range(n_time):
                     print(fstr.format(YY,MM,DD,hours[h],C20[h]),file=f)
 
             # close the tar file
-- 
2.43.0


From b5d354b23cb657233e9952d4364881960213ebd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:34 +0000
Subject: [PATCH 70/90] fix: mean field when combining an index of harmonics

---
 scripts/combine_harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/combine_harmonics.py b/scripts/combine_harmonics.py
index 17df8b3..0510a11 100644
--- a/scripts/combine_harmonics.py
+++ b/scripts/combine_harmonics.py
@@ -182,7 +182,7 @@ def combine_harmonics(INPUT_FILE, OUTPUT_FILE,
     # remove mean file from input Ylms
     if MEAN_FILE:
         mean_Ylms = gravtk.harmonics().from_file(MEAN_FILE,
-            format=DATAFORM, date=False)
+            format=dataform, date=False)
         input_Ylms.subtract(mean_Ylms)
 
     # read arrays of kl, hl, and ll Love Numbers
-- 
2.43.0


From 7368b8f76bb33841676b7bde664d5ae80c8c3883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:42 +0000
Subject: [PATCH 71/90] fix: combine harmonics below an order

---
 scripts/combine_harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/combine_harmonics.py b/scripts/combine_harmonics.py
index 0510a11..da0f9ff 100644
--- a/scripts/combine_harmonics.py
+++ b/scripts/combine_harmonics.py
@@ -282,7 +282,7 @@ def combine_harmonics(INPUT_FILE, OUTPUT_FILE,
         Ylms.convolve(dfactor*wt)
         # convert spherical harmonics to output spatial grid
         grid.data[:,:,t] = gravtk.harmonic_summation(Ylms.clm, Ylms.slm,
-            grid.lon, grid.lat, LMAX=LMAX, PLM=PLM).T
+            grid.lon, grid.lat, LMAX=LMAX, MMAX=MMAX, PLM=PLM).T
 
     # outputting data to file
     grid.squeeze().to_file(filename=OUTPUT_FILE, format=dataform,
-- 
2.43.0


From f563242ef7b7f813427b45952d257b27dac896f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:42 +0000
Subject: [PATCH 72/90] fix: dealiasing means of a single month

---
 scripts/dealiasing_monthly_mean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/dealiasing_monthly_mean.py b/scripts/dealiasing_monthly_mean.py
index d597675..e5e5e8a 100755
--- a/scripts/dealiasing_monthly_mean.py
+++ b/scripts/dealiasing_monthly_mean.py
@@ -171,7 +171,7 @@ def dealiasing_monthly_mean(base_dir, PROC=None, DREL=None, DSET=None,
     formats = ('f','i','i','i','i','i','i')
     dtype = np.dtype({'names':names, 'formats':formats})
     input_date_file = grace_dir.joinpath('GSM', grace_date_file)
-    date_input = np.loadtxt(input_date_file, skiprows=1, dtype=dtype)
+    date_input = np.loadtxt(input_date_file, skiprows=1, dtype=dtype, ndmin=1)
     tdec = date_input['t']
     grace_month = date_input['mon']
     start_yr = date_input['styr']
-- 
2.43.0


From c3e00dc32dddab3f0a369ba8cb0748bedba3c44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:07 +0000
Subject: [PATCH 73/90] fix: dealiasing means of months across the turn of a
 year

---
 scripts/dealiasing_monthly_mean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/dealiasing_monthly_mean.py b/scripts/dealiasing_monthly_mean.py
index e5e5e8a..d45aa2b 100755
--- a/scripts/dealiasing_monthly_mean.py
+++ b/scripts/dealiasing_monthly_mean.py
@@ -191,7 +191,7 @@ def dealiasing_monthly_mean(base_dir, PROC=None, DREL=None, DSET=None,
         # check if GRACE/GRACE-FO month crosses years
         if (start_yr[t] != end_yr[t]):
             # check if start_yr is a Leap Year or Standard Year
-            dpy = gravtk.time.calendar_days(start_yr[t]).sum()
+            dpy = np.int64(gravtk.time.calendar_days(start_yr[t]).sum())
             # list of Julian Days to read from both start and end year
             julian_days_to_read = []
             # add days to read from start and end years
-- 
2.43.0


From f84685b9405de074b0fc2d184c6cbf1de84ee026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:27 +0000
Subject: [PATCH 74/90] fix: mid-dates of the dealiasing means to every digit
 given

---
 scripts/dealiasing_monthly_mean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/dealiasing_monthly_mean.py b/scripts/dealiasing_monthly_mean.py
index d45aa2b..bd0da73 100755
--- a/scripts/dealiasing_monthly_mean.py
+++ b/scripts/dealiasing_monthly_mean.py
@@ -168,7 +168,7 @@ def dealiasing_monthly_mean(base_dir, PROC=None, DREL=None, DSET=None,
     grace_date_file = f'{PROC}_{DREL}_DATES.txt'
     # names and formats of GRACE/GRACE-FO date ascii file
     names = ('t','mon','styr','stday','endyr','endday','total')
-    formats = ('f','i','i','i','i','i','i')
+    formats = ('f8','i','i','i','i','i','i')
     dtype = np.dtype({'names':names, 'formats':formats})
     input_date_file = grace_dir.joinpath('GSM', grace_date_file)
     date_input = np.loadtxt(input_date_file, skiprows=1, dtype=dtype, ndmin=1)
-- 
2.43.0


From 433f5ece87291632c2c794044fd42e7ad34b581d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:57 +0000
Subject: [PATCH 75/90] fix: harmonics of grids with as many rows as columns

---
 scripts/convert_harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/convert_harmonics.py b/scripts/convert_harmonics.py
index ff7865c..0daf420 100644
--- a/scripts/convert_harmonics.py
+++ b/scripts/convert_harmonics.py
@@ -194,7 +194,7 @@ def convert_harmonics(INPUT_FILE, OUTPUT_FILE,
     Ylms_list = []
     for i,spatial_data in enumerate(input_spatial):
         # convert spatial field to spherical harmonics
-        output_Ylms = gravtk.gen_stokes(spatial_data.data.T,
+        output_Ylms = gravtk.gen_stokes(spatial_data.data,
             spatial_data.lon, spatial_data.lat, UNITS=UNITS,
             LMIN=0, LMAX=LMAX, MMAX=MMAX, PLM=PLM, LOVE=LOVE)
         # calculate date information
-- 
2.43.0


From ad84183a3fe096d4b54f21221003bc4cdd28653e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:58 +0000
Subject: [PATCH 76/90] fix: name of a single file to remove in
 grace_spatial_maps

---
 scripts/grace_spatial_maps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/grace_spatial_maps.py b/scripts/grace_spatial_maps.py
index ea65903..dd217e5 100755
--- a/scripts/grace_spatial_maps.py
+++ b/scripts/grace_spatial_maps.py
@@ -370,7 +370,7 @@ def grace_spatial_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
                 # HDF5 (.H5)
                 Ylms = gravtk.harmonics().from_file(REMOVE_FILE,
                     format=REMOVEFORM)
-                attributes['lineage'].append(Ylms.name)
+                attributes['lineage'].append(pathlib.Path(Ylms.filename).name)
             elif REMOVEFORM in ('index-ascii','index-netCDF4','index-HDF5'):
                 # read from index file
                 _,removeform = REMOVEFORM.split('-')
-- 
2.43.0


From 7fd848fb7d6d9b9346fc98a118e321c001bf3666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:08 +0000
Subject: [PATCH 77/90] fix: redistribute removed fields of a single month

---
 scripts/calc_mascon.py        | 2 +-
 scripts/grace_spatial_maps.py | 2 +-
 scripts/scale_grace_maps.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/calc_mascon.py b/scripts/calc_mascon.py
index 48f7dd7..3eafe6e 100644
--- a/scripts/calc_mascon.py
+++ b/scripts/calc_mascon.py
@@ -431,7 +431,7 @@ def calc_mascon(base_dir, PROC, DREL, DSET, LMAX, RAD,
                 Ylms = gravtk.harmonics().from_index(REMOVE_FILE,
                     format=removeform)
             # reduce to GRACE/GRACE-FO months and truncate to degree and order
-            Ylms = Ylms.subset(GRACE_Ylms.month).truncate(lmax=LMAX,mmax=MMAX)
+            Ylms = Ylms.subset(GRACE_Ylms.month).truncate(lmax=LMAX,mmax=MMAX).expand_dims()
             # distribute removed Ylms uniformly over the ocean
             if REDISTRIBUTE_REMOVED:
                 # calculate ratio between total removed mass and
diff --git a/scripts/grace_spatial_maps.py b/scripts/grace_spatial_maps.py
index dd217e5..1445a60 100755
--- a/scripts/grace_spatial_maps.py
+++ b/scripts/grace_spatial_maps.py
@@ -379,7 +379,7 @@ def grace_spatial_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
                     format=removeform)
                 attributes['lineage'].extend([f.name for f in Ylms.filename])
             # reduce to GRACE/GRACE-FO months and truncate to degree and order
-            Ylms = Ylms.subset(GRACE_Ylms.month).truncate(lmax=LMAX,mmax=MMAX)
+            Ylms = Ylms.subset(GRACE_Ylms.month).truncate(lmax=LMAX,mmax=MMAX).expand_dims()
             # distribute removed Ylms uniformly over the ocean
             if REDISTRIBUTE_REMOVED:
                 # calculate ratio between total removed mass and
diff --git a/scripts/scale_grace_maps.py b/scripts/scale_grace_maps.py
index 3f29117..7dfdcd4 100644
--- a/scripts/scale_grace_maps.py
+++ b/scripts/scale_grace_maps.py
@@ -382,7 +382,7 @@ def scale_grace_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
                 Ylms = gravtk.harmonics().from_index(REMOVE_FILE,
                     format=removeform)
             # reduce to GRACE/GRACE-FO months and truncate to degree and order
-            Ylms = Ylms.subset(GRACE_Ylms.month).truncate(lmax=LMAX,mmax=MMAX)
+            Ylms = Ylms.subset(GRACE_Ylms.month).truncate(lmax=LMAX,mmax=MMAX).expand_dims()
             # distribute removed Ylms uniformly over the ocean
             if REDISTRIBUTE_REMOVED:
                 # calculate ratio between total removed mass and
-- 
2.43.0


From a9949bf1cf03c98b1a8d7e8e183070ffafd7add7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:18 +0000
Subject: [PATCH 78/90] fix: design matrix of the mascon fit by coefficients

---
 scripts/calc_mascon.py             | 2 +-
 scripts/calc_sensitivity_kernel.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/calc_mascon.py b/scripts/calc_mascon.py
index 3eafe6e..a966e56 100644
--- a/scripts/calc_mascon.py
+++ b/scripts/calc_mascon.py
@@ -655,7 +655,7 @@ def calc_mascon(base_dir, PROC, DREL, DSET, LMAX, RAD,
     elif (FIT_METHOD == 2):
         # Fitting Sensitivity Kernel as geoid coefficients
         for i in range(n_harm):
-            MA_lm[:,:] = M_lm[i,:]*wt_lm[i]
+            MA_lm[i,:] = M_lm[i,:]*wt_lm[i]
         fit_factor = wt_lm*np.ones((n_harm))
 
     # Fitting the sensitivity kernel from the input kernel
diff --git a/scripts/calc_sensitivity_kernel.py b/scripts/calc_sensitivity_kernel.py
index f3563e2..e49d5e9 100644
--- a/scripts/calc_sensitivity_kernel.py
+++ b/scripts/calc_sensitivity_kernel.py
@@ -337,7 +337,7 @@ def calc_sensitivity_kernel(LMAX, RAD,
     elif (FIT_METHOD == 2):
         # Fitting Sensitivity Kernel as geoid coefficients
         for i in range(n_harm):
-            MA_lm[:,:] = M_lm[i,:]*wt_lm[i]
+            MA_lm[i,:] = M_lm[i,:]*wt_lm[i]
         fit_factor = wt_lm*np.ones((n_harm))
         inv_fit_factor = np.ones((n_harm))
 
-- 
2.43.0


From b2e2500d275b7efcdfa3c3c605f5a0a800aa7877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:30 +0000
Subject: [PATCH 79/90] fix: reconstruct a mascon series of a single month

---
 scripts/mascon_reconstruct.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/mascon_reconstruct.py b/scripts/mascon_reconstruct.py
index 78ab550..4a33d8f 100644
--- a/scripts/mascon_reconstruct.py
+++ b/scripts/mascon_reconstruct.py
@@ -243,7 +243,8 @@ def mascon_reconstruct(DSET, LMAX, RAD,
         args = (mascon_name,dset_str,gia_str.upper(),atm_str,ocean_str,
             LMAX,order_str,gw_str,ds_str)
         file_input = '{0}{1}{2}{3}{4}_L{5:d}{6}{7}{8}.txt'.format(*args)
-        mascon_data_input = np.loadtxt(OUTPUT_DIRECTORY.joinpath(file_input))
+        mascon_data_input = np.loadtxt(OUTPUT_DIRECTORY.joinpath(file_input),
+            ndmin=2)
 
         # convert mascon time-series from Gt to cmwe
         mascon_sigma = 1e15*mascon_data_input[:,2]/total_area
-- 
2.43.0


From 927865552da0efe067430b34476a6596ab1a3b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:41 +0000
Subject: [PATCH 80/90] fix: product directory with fields to remove in
 scale_grace_maps

---
 scripts/scale_grace_maps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/scale_grace_maps.py b/scripts/scale_grace_maps.py
index 7dfdcd4..d277237 100644
--- a/scripts/scale_grace_maps.py
+++ b/scripts/scale_grace_maps.py
@@ -344,6 +344,8 @@ def scale_grace_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
     else:
         # using standard GRACE/GRACE-FO harmonics
         ds_str = ''
+    # full path to directory for specific GRACE/GRACE-FO product
+    GRACE_Ylms.directory = pathlib.Path(Ylms['directory']).expanduser().absolute()
 
     # input GIA spherical harmonic datafiles
     GIA_Ylms_rate = gravtk.gia(lmax=LMAX).from_GIA(GIA_FILE, GIA=GIA, mmax=MMAX)
@@ -408,7 +410,6 @@ def scale_grace_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
     fargs = (PROC,DREL,DSET,LMAX,order_str,ds_str,atm_str,GRACE_Ylms.month[0],
         GRACE_Ylms.month[-1], suffix[DATAFORM])
     delta_format = '{0}_{1}_{2}_DELTA_CLM_L{3:d}{4}{5}{6}_{7:03d}-{8:03d}.{9}'
-    GRACE_Ylms.directory = pathlib.Path(Ylms['directory']).expanduser().absolute()
     DELTA_FILE = GRACE_Ylms.directory.joinpath(delta_format.format(*fargs))
     # check full path of the GRACE directory for delta file
     # if file was previously calculated: will read file
-- 
2.43.0


From c0f7c1a475e307fe5a7e2e3045542cd4ff0836dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:49 +0000
Subject: [PATCH 81/90] fix: minimum degree of the scaled maps

---
 scripts/scale_grace_maps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/scale_grace_maps.py b/scripts/scale_grace_maps.py
index d277237..07b38a0 100644
--- a/scripts/scale_grace_maps.py
+++ b/scripts/scale_grace_maps.py
@@ -503,7 +503,8 @@ def scale_grace_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
         Ylms.convolve(dfactor*wt)
         # convert spherical harmonics to output spatial grid
         grid.data[:,:,i] = gravtk.harmonic_summation(Ylms.clm, Ylms.slm,
-            grid.lon, grid.lat, LMAX=LMAX, MMAX=MMAX, PLM=PLM).T
+            grid.lon, grid.lat, LMIN=LMIN, LMAX=LMAX,
+            MMAX=MMAX, PLM=PLM).T
         # copy time variables for month
         grid.time[i] = np.copy(Ylms.time)
         grid.month[i] = np.copy(Ylms.month)
-- 
2.43.0


From 155a1913227be0a4504a2f07f57e2ab52cb8f3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:57 +0000
Subject: [PATCH 82/90] fix: read regional ascii maps in regress_grace_maps

---
 scripts/regress_grace_maps.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/regress_grace_maps.py b/scripts/regress_grace_maps.py
index 62be313..d36c8b0 100755
--- a/scripts/regress_grace_maps.py
+++ b/scripts/regress_grace_maps.py
@@ -171,6 +171,7 @@ def regress_grace_maps(LMAX, RAD,
     # Output Degree Spacing
     dlon,dlat = (DDEG[0],DDEG[0]) if (len(DDEG) == 1) else (DDEG[0],DDEG[1])
     # Output Degree Interval
+    extent = [None]*4
     if (INTERVAL == 1):
         # (-180:180,90:-90)
         nlon = np.int64((360.0/dlon)+1.0)
@@ -186,6 +187,7 @@ def regress_grace_maps(LMAX, RAD,
         lat = np.arange(maxlat-dlat/2.0, minlat-dlat/2.0, -dlat)
         nlon = len(lon)
         nlat = len(lat)
+        extent = [lon[0],lon[-1],lat[-1],lat[0]]
 
     # input data spatial object
     spatial_list = []
@@ -197,7 +199,7 @@ def regress_grace_maps(LMAX, RAD,
         # read GRACE/GRACE-FO spatial file
         if (DATAFORM == 'ascii'):
             dinput = gravtk.spatial().from_ascii(input_file,
-                spacing=[dlon,dlat], nlon=nlon, nlat=nlat)
+                spacing=[dlon,dlat], nlon=nlon, nlat=nlat, extent=extent)
         elif (DATAFORM == 'netCDF4'):
             # netcdf (.nc)
             dinput = gravtk.spatial().from_netCDF4(input_file)
-- 
2.43.0


From f8ba82dd96ce593c92bbdc6e39282ab8487138f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:05 +0000
Subject: [PATCH 83/90] fix: order of the tidal aliasing terms in
 regress_grace_maps

---
 scripts/regress_grace_maps.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/regress_grace_maps.py b/scripts/regress_grace_maps.py
index d36c8b0..0a725cc 100755
--- a/scripts/regress_grace_maps.py
+++ b/scripts/regress_grace_maps.py
@@ -241,6 +241,9 @@ def regress_grace_maps(LMAX, RAD,
     tidal_aliasing['M2'] = 13.5
     tidal_aliasing['S2'] = 161.0
     tidal_aliasing['K2'] = 1362.7
+    # extra terms are regressed after the cyclical terms
+    CYCLES = sorted(CYCLES, key=lambda c: any(np.isclose(c, period/365.25)
+        for period in tidal_aliasing.values()))
     # extra terms for tidal aliasing components or custom fits
     TERMS = []
     term_index = []
-- 
2.43.0


From 4e91d126074126cdab269ce7141b5d2cbc20a6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:33 +0000
Subject: [PATCH 84/90] fix: uniform distribution of sea level for zero
 iterations

---
 gravity_toolkit/sea_level_equation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gravity_toolkit/sea_level_equation.py b/gravity_toolkit/sea_level_equation.py
index 712853f..af346b9 100644
--- a/gravity_toolkit/sea_level_equation.py
+++ b/gravity_toolkit/sea_level_equation.py
@@ -314,6 +314,8 @@ def sea_level_equation(loadClm, loadSlm, glon, glat, land_function, LMAX=0,
 
     # distribute sea height over ocean harmonics
     height_Ylms = ocean_Ylms.scale(sea_height)
+    # sea level field of the uniform distribution
+    sea_level = sea_height*ocean_function
     # iterate solutions until convergence or reaching total iterations
     n_iter = 1
     # use maximum eps values from Mitrovica and Peltier (1991)
-- 
2.43.0


From bc077f38c5520e5af23197239e5aaeb7718b44ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:42 +0000
Subject: [PATCH 85/90] fix: create mask for ascii maps of grace_spatial_error

---
 scripts/grace_spatial_error.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/grace_spatial_error.py b/scripts/grace_spatial_error.py
index f20672b..efa0541 100755
--- a/scripts/grace_spatial_error.py
+++ b/scripts/grace_spatial_error.py
@@ -447,6 +447,7 @@ def grace_spatial_error(base_dir, PROC, DREL, DSET, LMAX, RAD,
 
     # Multiplying by c/s(phi#m) to get spatial maps (lon,lat)
     delta.data = np.sqrt(np.dot(ccos.T,d_cos) + np.dot(ssin.T,d_sin)).T
+    delta.mask = np.zeros_like(delta.data, dtype=bool)
 
     # output file format
     file_format = '{0}{1}_L{2:d}{3}{4}{5}_ERR_{6:03d}-{7:03d}.{8}'
-- 
2.43.0


From b74c97dc763f15372782873152b1df22203a5b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:49 +0000
Subject: [PATCH 86/90] fix: order of the tidal aliasing terms in
 piecewise_grace_maps

---
 scripts/piecewise_grace_maps.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/piecewise_grace_maps.py b/scripts/piecewise_grace_maps.py
index f936dc1..104a285 100755
--- a/scripts/piecewise_grace_maps.py
+++ b/scripts/piecewise_grace_maps.py
@@ -239,6 +239,9 @@ def piecewise_grace_maps(LMAX, RAD,
     tidal_aliasing['M2'] = 13.5
     tidal_aliasing['S2'] = 161.0
     tidal_aliasing['K2'] = 1362.7
+    # extra terms are regressed after the cyclical terms
+    CYCLES = sorted(CYCLES, key=lambda c: any(np.isclose(c, period/365.25)
+        for period in tidal_aliasing.values()))
     # extra terms for tidal aliasing components or custom fits
     TERMS = []
     term_index = []
-- 
2.43.0


From de88551a1b62618cce6bf1985207ff3bcc28442d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:05 +0000
Subject: [PATCH 87/90] fix: read regional ascii maps in piecewise_grace_maps

---
 scripts/piecewise_grace_maps.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/piecewise_grace_maps.py b/scripts/piecewise_grace_maps.py
index 104a285..65922d6 100755
--- a/scripts/piecewise_grace_maps.py
+++ b/scripts/piecewise_grace_maps.py
@@ -172,6 +172,7 @@ def piecewise_grace_maps(LMAX, RAD,
     # Output Degree Spacing
     dlon,dlat = (DDEG[0],DDEG[0]) if (len(DDEG) == 1) else (DDEG[0],DDEG[1])
     # Output Degree Interval
+    extent = [None]*4
     if (INTERVAL == 1):
         # (-180:180,90:-90)
         nlon = np.int64((360.0/dlon)+1.0)
@@ -187,6 +188,7 @@ def piecewise_grace_maps(LMAX, RAD,
         lat = np.arange(maxlat-dlat/2.0, minlat-dlat/2.0, -dlat)
         nlon = len(lon)
         nlat = len(lat)
+        extent = [lon[0],lon[-1],lat[-1],lat[0]]
 
     # input data spatial object
     spatial_list = []
@@ -198,7 +200,7 @@ def piecewise_grace_maps(LMAX, RAD,
         # read GRACE/GRACE-FO spatial file
         if (DATAFORM == 'ascii'):
             dinput = gravtk.spatial().from_ascii(input_file,
-                spacing=[dlon,dlat], nlon=nlon, nlat=nlat)
+                spacing=[dlon,dlat], nlon=nlon, nlat=nlat, extent=extent)
         elif (DATAFORM == 'netCDF4'):
             # netcdf (.nc)
             dinput = gravtk.spatial().from_netCDF4(input_file)
-- 
2.43.0


From 3666f8211abd45b43e029fe8da6151785f257087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:40 +0000
Subject: [PATCH 88/90] fix: convert ocean model harmonics to geocenter in
 calc_degree_one

---
 scripts/calc_degree_one.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/calc_degree_one.py b/scripts/calc_degree_one.py
index bf0f538..b7c0527 100755
--- a/scripts/calc_degree_one.py
+++ b/scripts/calc_degree_one.py
@@ -620,7 +620,7 @@ def calc_degree_one(base_dir, PROC, DREL, MODEL, LMAX, RAD,
         # removing the mean of the ecco spherical harmonic coefficients
         OBP_Ylms.mean(apply=True)
         # converting ecco degree 1 harmonics to coefficients of mass
-        OBP = gravtk.geocenter.from_harmonics(OBP_Ylms).scale(dfactor[1])
+        OBP = gravtk.geocenter().from_harmonics(OBP_Ylms).scale(dfactor[1])
 
     # Calculating cos/sin of phi arrays
     # output [m,phi]
-- 
2.43.0


From 1cb6e16c301148bd15111542307a5496a5ec535a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:49 +0000
Subject: [PATCH 89/90] fix: maximum order of atmospheric jump corrections in
 calc_degree_one

---
 scripts/calc_degree_one.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/calc_degree_one.py b/scripts/calc_degree_one.py
index b7c0527..9752568 100755
--- a/scripts/calc_degree_one.py
+++ b/scripts/calc_degree_one.py
@@ -595,7 +595,7 @@ def calc_degree_one(base_dir, PROC, DREL, MODEL, LMAX, RAD,
     ATM_Ylms.month[:] = np.copy(GSM_Ylms.month)
     if ATM:
         atm_corr = gravtk.read_ecmwf_corrections(base_dir,
-            LMAX, ATM_Ylms.month)
+            LMAX, ATM_Ylms.month, MMAX=MMAX)
         ATM_Ylms.clm[:,:,:] = np.copy(atm_corr['clm'])
         ATM_Ylms.slm[:,:,:] = np.copy(atm_corr['slm'])
         # removing the mean of the atmospheric jump correction coefficients
-- 
2.43.0


From 6c17770bd30767f7fa006d3022a8b85226e09767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:00 +0000
Subject: [PATCH 90/90] fix: dealiasing coefficients in the netCDF4 file of
 calc_degree_one

---
 scripts/calc_degree_one.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/calc_degree_one.py b/scripts/calc_degree_one.py
index 9752568..e3d9198 100755
--- a/scripts/calc_degree_one.py
+++ b/scripts/calc_degree_one.py
@@ -967,7 +967,8 @@ def calc_degree_one(base_dir, PROC, DREL, MODEL, LMAX, RAD,
     nc['AOD'] = {}
     g1 = fileID.createGroup('AOD')
     g1.description = f'Atmospheric and oceanic dealiasing'
-    gac = GAC.scale(1.0/dfactor[1])
+    # NOTE: the GAC coefficients were not converted to mass
+    gac = GAC.copy()
     for key in gac.fields:
         var = gac.get(key)
         nc['AOD'][key] = g1.createVariable(key, var.dtype,
-- 
2.43.0

