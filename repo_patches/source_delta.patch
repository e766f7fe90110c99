From 04e54d8a397351524625bd93a8f467b2c1f7cfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:10 +0000
Subject: [PATCH 01/65] fix: poisson_process never ended when fewer than one
 photon was expected in the remaining time

---
 marxs/source/basesources.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marxs/source/basesources.py b/marxs/source/basesources.py
index df749a8..25b3907 100644
--- a/marxs/source/basesources.py
+++ b/marxs/source/basesources.py
@@ -70,9 +70,12 @@ def poisson_process(rate: (u.s * u.cm**2)**(-1)):
         times = expon.rvs(scale=1./fullrate.to(1 / u.s),
                           size=int((exposuretime * fullrate * 1.1).to(u.dimensionless_unscaled)))
         # If we don't have enough numbers right now, add some more.
+        # Always draw at least one, or this would never end when fewer than
+        # one photon is expected in the remaining time.
         while (times.sum() * u.s) < exposuretime:
+            n_more = int(((exposuretime - times.sum() * u.s) * fullrate * 1.1).to(u.dimensionless_unscaled))
             times = np.hstack([times, expon.rvs(scale=1/fullrate.to(1 / u.s),
-                                                size=int(((exposuretime - times.sum() * u.s) * fullrate * 1.1).to(u.dimensionless_unscaled)))])
+                                                size=max(1, n_more))])
         times = np.cumsum(times) * u.s
         return times[times < exposuretime]
     return poisson_rate
-- 
2.43.0


From d08dc23e44fabdeeff2895d1f16e0f4a6f829685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:51 +0000
Subject: [PATCH 02/65] fix: LissajousDither.pointing failed for an empty list
 of times and for a roll that changes with time

---
 marxs/missions/chandra/dither.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/missions/chandra/dither.py b/marxs/missions/chandra/dither.py
index 589a272..424107a 100644
--- a/marxs/missions/chandra/dither.py
+++ b/marxs/missions/chandra/dither.py
@@ -84,9 +84,9 @@ class LissajousDither(FixedPointing):
         pointing_dir = np.zeros_like(dither.value)
 
         # common case for Chandra
-        if np.allclose(roll.to(u.rad).value, roll[0].to(u.rad).value):
+        constant_roll = (len(roll) > 0) and np.allclose(roll.to(u.rad).value, roll[0].to(u.rad).value)
+        if constant_roll:
             mat = axangle2mat(e_nominal, -roll[0].to(u.rad).value, is_normalized=True)
-            constant_roll = True
 
         for i in range(len(time)):
             if not constant_roll:
-- 
2.43.0


From 59dcb9df48ce04dc460e1d67ec173df0318ceac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:51 +0000
Subject: [PATCH 03/65] fix: CCDRedistNormal failed when not every photon of
 the list hits the detector

---
 marxs/optics/detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/optics/detector.py b/marxs/optics/detector.py
index 755c282..6cd012a 100644
--- a/marxs/optics/detector.py
+++ b/marxs/optics/detector.py
@@ -194,7 +194,7 @@ class CCDRedistNormal(FlatOpticalElement):
 
     def specific_process_photons(self, photons, intersect, interpos, intercoos):
         # Implicit unit of photon energy is keV, but here we need it written out.
-        phot_en = u.Quantity(photons["energy"])
+        phot_en = u.Quantity(photons["energy"][intersect])
         det_en = norm.rvs(
             loc=phot_en,
             scale=self.sig_ccd(phot_en).to(u.keV, equivalencies=u.spectral()),
-- 
2.43.0


From 35c9f5a665a4c9270afba315c88d3926dee2f528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:50 +0000
Subject: [PATCH 04/65] fix: RandomArbitraryPdf selected a bin of zero
 probability for a draw of exactly 0

---
 marxs/math/random.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marxs/math/random.py b/marxs/math/random.py
index a26d1aa..7e425a0 100644
--- a/marxs/math/random.py
+++ b/marxs/math/random.py
@@ -85,7 +85,9 @@ class RandomArbitraryPdf(object):
         # We need a reverse lookup to find the bin in the cdf so that we an use it
         # to map this back to the x values of the pdf
         # np.searchsorted is a binary search with O(log n).
-        index = np.searchsorted(self.cdf, choice)
+        # side='right', because a draw of exactly 0 must not select a bin with
+        # zero probability.
+        index = np.searchsorted(self.cdf, choice, side='right')
         #if necessary, map the indices back to their original ordering
         if self.sort:
             index = self.sortindex[index]
-- 
2.43.0


From 593ecadd90678ddd78aca9a72d676a0a46456e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:50 +0000
Subject: [PATCH 05/65] fix: LabPointSourceCone gave NaN directions for a cone
 along the z axis

---
 marxs/source/labSource.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marxs/source/labSource.py b/marxs/source/labSource.py
index 42c5d46..45f43d6 100644
--- a/marxs/source/labSource.py
+++ b/marxs/source/labSource.py
@@ -119,6 +119,9 @@ class LabPointSourceCone(Source):
         # Now we rotate dir to align with the given direction: self.dir
         # To find axis of rotation: cross self.dir with z
         axis = np.cross(h2e(self.dir), [0, 0, 1])
+        if np.all(axis == 0):
+            # self.dir is parallel or anti-parallel to z: any axis perpendicular to z works
+            axis = np.array([1., 0., 0.])
 
         angle = np.arccos(self.dir[2]) # Simplified
 
-- 
2.43.0


From 6265363bead04e04f5850a497f7e32c562406617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:50 +0000
Subject: [PATCH 06/65] fix: MultiAperture could leave a photon without an
 aperture due to rounding

---
 marxs/optics/aperture.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marxs/optics/aperture.py b/marxs/optics/aperture.py
index 8a096f2..5bb06a0 100644
--- a/marxs/optics/aperture.py
+++ b/marxs/optics/aperture.py
@@ -201,7 +201,9 @@ class MultiAperture(BaseAperture, BaseContainer):
     def __call__(self, photons):
         self.add_colpos(photons)
         areas = u.Quantity([e.area for e in self.elements])
-        aperid = np.digitize(np.random.rand(len(photons)), np.cumsum(areas) / self.area)
+        # Use only the edges between apertures. The outer edge can be smaller
+        # than 1 due to rounding.
+        aperid = np.digitize(np.random.rand(len(photons)), np.cumsum(areas)[:-1] / self.area)
         np.random.shuffle(aperid)
 
         for i, elem in enumerate(self.elements):
-- 
2.43.0


From de733c34d7ebaeee947ad677498ad88ac1de43dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:50 +0000
Subject: [PATCH 07/65] fix: RadialDistributionSource placed photons at the
 wrong distance for large radii

---
 marxs/source/basesources.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/marxs/source/basesources.py b/marxs/source/basesources.py
index 25b3907..da6ff78 100644
--- a/marxs/source/basesources.py
+++ b/marxs/source/basesources.py
@@ -376,20 +376,15 @@ class RadialDistributionSource(AstroSource):
 
     @u.quantity_input
     def generate_photons(self, exposuretime: u.s):
-        '''Photon positions are generated in a frame that is centered on the
-        coordinates set in ``coords``, then they get transformed into
-        the global sky system.
+        '''Photon positions are generated at the distances given by the radial
+        distribution from the position set in ``coords``.
         '''
         photons = super().generate_photons(exposuretime)
 
-        relative_frame = SkyOffsetFrame(origin=self.coords)
         n = len(photons)
         phi = np.random.rand(n) * 2. * np.pi * u.rad
         d = self.func(n)
-        relative_coords = SkyCoord(d * np.sin(phi), d * np.cos(phi),
-                                   frame=relative_frame)
-        origin_coord = relative_coords.transform_to(self.coords)
-        self.set_pos(photons, origin_coord)
+        self.set_pos(photons, self.coords.directional_offset_by(phi, d))
 
         return photons
 
-- 
2.43.0


From f20d4b167c648cf0e4c2de748d4e53dec165c421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:50 +0000
Subject: [PATCH 08/65] fix: SymbolFSource was misplaced for coordinates that
 are not ICRS

---
 marxs/source/basesources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/source/basesources.py b/marxs/source/basesources.py
index da6ff78..e827310 100644
--- a/marxs/source/basesources.py
+++ b/marxs/source/basesources.py
@@ -516,6 +516,6 @@ class SymbolFSource(AstroSource):
         ra[elem == 2] += 0.8 * size
         dec[elem == 2] += 0.3 * size * np.random.random(np.sum(elem == 2))
 
-        self.set_pos(photons, SkyCoord(ra, dec, frame=self.coords))
+        self.set_pos(photons, SkyCoord(ra, dec, frame=self.coords.icrs))
 
         return photons
-- 
2.43.0


From a04cfe2ec25ccd3b77a047dd786aadc426d429b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:48 +0000
Subject: [PATCH 09/65] fix: LissajousDither.write_asol always failed

---
 marxs/missions/chandra/dither.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/chandra/dither.py b/marxs/missions/chandra/dither.py
index 424107a..4393cb8 100644
--- a/marxs/missions/chandra/dither.py
+++ b/marxs/missions/chandra/dither.py
@@ -151,7 +151,7 @@ class LissajousDither(FixedPointing):
 
         '''
         time = np.arange(0, photons.meta['EXPOSURE'][0], timestep)
-        pointing = self.pointing(time).to(u.deg).value
+        pointing = np.rad2deg(self.pointing(time))
         asol = Table([time, pointing[:, 0], pointing[:, 1], pointing[:, 2]],
                      names=['time', 'ra', 'dec', 'roll'],
                      )
-- 
2.43.0


From 0dfaee0762fb4614d09c4db39eead070280d8d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:48 +0000
Subject: [PATCH 10/65] fix: LissajousDither ignored reference_transform for
 the direction of photons

---
 marxs/missions/chandra/dither.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/chandra/dither.py b/marxs/missions/chandra/dither.py
index 4393cb8..d6c91f4 100644
--- a/marxs/missions/chandra/dither.py
+++ b/marxs/missions/chandra/dither.py
@@ -129,7 +129,7 @@ class LissajousDither(FixedPointing):
 
             photons_dir[i, :3] = np.dot(mat3d.T, photons_dir[i, :3])
 
-        return photons_dir
+        return np.einsum('...ij,...j->...i', self.reference_transform, photons_dir)
 
     def write_asol(self, photons, asolfile, timestep=0.256):
         '''Write an aspect solution (asol) file
-- 
2.43.0


From 5a05a5ade6e503462e748f657d1c0d24638915ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:48 +0000
Subject: [PATCH 11/65] fix: LissajousDither calculated polarization vectors
 for the nominal pointing and roll

---
 marxs/missions/chandra/dither.py | 18 ++++++++++++++++++
 marxs/source/pointing.py         | 23 +++++++++++++++++++----
 2 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/marxs/missions/chandra/dither.py b/marxs/missions/chandra/dither.py
index d6c91f4..058da2f 100644
--- a/marxs/missions/chandra/dither.py
+++ b/marxs/missions/chandra/dither.py
@@ -3,6 +3,7 @@
 import numpy as np
 from astropy.units import Quantity
 from astropy.table import Table
+from astropy.coordinates import SkyCoord
 import astropy.units as u
 
 from transforms3d.euler import euler2mat
@@ -131,6 +132,23 @@ class LissajousDither(FixedPointing):
 
         return np.einsum('...ij,...j->...i', self.reference_transform, photons_dir)
 
+    def north_dir(self, time):
+        '''Direction of the celestial North pole in the coordinate system of the telescope
+
+        Parameters
+        ----------
+        time : np.array
+            Time for each photons in sec
+
+        Returns
+        -------
+        northdir : np.array of shape (n, 4)
+            Homogeneous direction vector for each photon.
+        '''
+        north = SkyCoord(np.zeros(len(time)), 90. * np.ones(len(time)), unit='deg')
+        # photons_dir is the direction of travel, i.e. it points away from the sky position.
+        return - self.photons_dir(north, time)
+
     def write_asol(self, photons, asolfile, timestep=0.256):
         '''Write an aspect solution (asol) file
 
diff --git a/marxs/source/pointing.py b/marxs/source/pointing.py
index 8d26938..9d64a3b 100644
--- a/marxs/source/pointing.py
+++ b/marxs/source/pointing.py
@@ -118,6 +118,23 @@ class FixedPointing(PointingModel):
         photonsdir = norm_vector(-photondir.cartesian.xyz.T)
         return np.einsum('...ij,...j->...i', self.reference_transform, e2h(photonsdir, 0))
 
+    def north_dir(self, time):
+        '''Direction of the celestial North pole in the coordinate system of the telescope
+
+        Parameters
+        ----------
+        time : np.array
+            Time for each photons in sec
+
+        Returns
+        -------
+        northdir : np.array of shape (4, ) or (n, 4)
+            Homogeneous direction vector for all photons or for each photon.
+        '''
+        north = SkyCoord(0., 90., unit='deg', frame=self.coords)
+        northdir = e2h(north.transform_to(self.offset_coos).cartesian.xyz.T, 0)
+        return np.dot(self.reference_transform, northdir)
+
     def photons_pol(self, photonsdir, polangle, time):
         '''Calculate a polarization vector for linearly polarized light.
 
@@ -137,10 +154,8 @@ class FixedPointing(PointingModel):
         '''
         if hasattr(polangle, "unit") and (polangle.unit is not None):
             polangle = polangle.to(u.rad)
-        north = SkyCoord(0., 90., unit='deg', frame=self.coords)
-        northdir = e2h(north.transform_to(self.offset_coos).cartesian.xyz.T, 0)
-        northdir = np.dot(self.reference_transform, northdir)
-        n_inskyplane = norm_vector(northdir - photonsdir * np.dot(northdir, photonsdir.T)[:, None])
+        northdir = self.north_dir(time)
+        n_inskyplane = norm_vector(northdir - photonsdir * np.sum(northdir * photonsdir, axis=-1)[:, None])
         e_inskyplane = e2h(np.cross(photonsdir[:, :3], n_inskyplane[:, :3]), 0)
         return  np.cos(polangle)[:, None] * n_inskyplane + np.sin(polangle)[:, None] * e_inskyplane
 
-- 
2.43.0


From a968ccc61841a8b0c7df60bfd2dc3fbbb75e1cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:51 +0000
Subject: [PATCH 12/65] fix: Parallel.move_center keeps elements in place for
 any pos4d

The inverse of the change was applied to the element positions as if it
had been made in the local system of the container; for a rotated
container or a rotation away from the origin the elements moved.
---
 marxs/simulator/simulator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/marxs/simulator/simulator.py b/marxs/simulator/simulator.py
index 7d034eb..9097b4b 100644
--- a/marxs/simulator/simulator.py
+++ b/marxs/simulator/simulator.py
@@ -376,8 +376,10 @@ class Parallel(BaseContainer):
         change4d : np.array of shape (4,4)
             Homogeneous coordinate transformation matrix
         '''
-        self.geometry.pos4d = np.dot(change4d, self.pos4d)
-        inv = np.linalg.inv(change4d)
+        old_pos4d = self.pos4d
+        self.geometry.pos4d = np.dot(change4d, old_pos4d)
+        # elem_pos is relative to pos4d: keep pos4d @ elem_pos constant
+        inv = np.linalg.inv(self.pos4d) @ old_pos4d
         self.elem_pos = [np.dot(inv, p) for p in self.elem_pos]
         self.generate_elements()
 
-- 
2.43.0


From 1ef4c6db8bb81e75182e7798f9efb7d886f374d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:51 +0000
Subject: [PATCH 13/65] fix: misalignment matrices are not shared between
 containers and elements

All Parallel objects shared one uncertainty matrix and all elements of
one object shared one matrix in elem_uncertainty, so that editing the
matrix of one moved all of them.
---
 marxs/design/tolerancing.py  | 2 +-
 marxs/simulator/simulator.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/marxs/design/tolerancing.py b/marxs/design/tolerancing.py
index 42050d5..dd83623 100644
--- a/marxs/design/tolerancing.py
+++ b/marxs/design/tolerancing.py
@@ -99,7 +99,7 @@ def moveindividual(e, dx=0, dy=0, dz=0, rx=0, ry=0, rz=0):
     '''
     e.elem_uncertainty = [affines.compose((dx, dy, dz),
                                           euler.euler2mat(rx, ry, rz, 'sxyz'),
-                                          np.ones(3))] * len(e.elements)
+                                          np.ones(3)) for _ in e.elements]
     e.generate_elements()
 
 
diff --git a/marxs/simulator/simulator.py b/marxs/simulator/simulator.py
index 9097b4b..dd7eb05 100644
--- a/marxs/simulator/simulator.py
+++ b/marxs/simulator/simulator.py
@@ -355,7 +355,10 @@ class Parallel(BaseContainer):
 
         if 'id_col' not in self.elem_args:
             self.elem_args['id_col'] = self.id_col
-        self.elem_uncertainty = [np.eye(4)] * len(self.elem_pos)
+        # Every object and every element needs its own matrix so that they can
+        # be edited independently.
+        self.uncertainty = self.uncertainty.copy()
+        self.elem_uncertainty = [np.eye(4) for _ in self.elem_pos]
         self.generate_elements()
 
     def move_center(self, change4d):
-- 
2.43.0


From 5dc40582d54076e4d47cb20c524524c0a88a26e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:45 +0000
Subject: [PATCH 14/65] fix: moveelem moves all layers of a FlatStack

Only the outline of the stack was moved, while the layers (mirrors,
gratings, detectors) kept processing photons in the original position.
---
 marxs/design/tolerancing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marxs/design/tolerancing.py b/marxs/design/tolerancing.py
index dd83623..1b964e9 100644
--- a/marxs/design/tolerancing.py
+++ b/marxs/design/tolerancing.py
@@ -10,6 +10,7 @@ from astropy.table import Table
 from astropy import table
 import astropy.units as u
 from marxs.simulator import Sequence
+from marxs.optics import FlatStack
 from marxs.design.uncertainties import generate_facet_uncertainty as genfacun
 
 __all__ = ['oneormoreelements',
@@ -130,6 +131,9 @@ def moveelem(e, dx=0, dy=0, dz=0, rx=0., ry=0., rz=0.):
                            euler.euler2mat(rx, ry, rz, 'sxyz'),
                            np.ones(3))
     e.geometry.pos4d = move @ e.geometry.pos4d_orig
+    # All layers of a stack are located in the same place
+    if isinstance(e, FlatStack):
+        moveelem(e.elements, dx, dy, dz, rx, ry, rz)
 
 
 @oneormoreelements
-- 
2.43.0


From eb218bff00d40bf5676210e55fdde73bcdcf9fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:58 +0000
Subject: [PATCH 15/65] fix: Parallel keeps its own copy of the element
 positions

elem_pos was the list passed in by the caller, so that editing the
position of one element by hand also moved the elements of every other
object made from the same list (e.g. nested Parallel objects).
---
 marxs/simulator/simulator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marxs/simulator/simulator.py b/marxs/simulator/simulator.py
index dd7eb05..15af250 100644
--- a/marxs/simulator/simulator.py
+++ b/marxs/simulator/simulator.py
@@ -350,6 +350,9 @@ class Parallel(BaseContainer):
                 self.elem_pos.append(_parse_position_keywords(elem_pos_dict))
         else:
             self.elem_pos = elem_pos
+        # Individual positions can be edited by hand, which should not change the
+        # input or other objects initialized with the same list.
+        self.elem_pos = [np.array(pos) for pos in self.elem_pos]
 
         super().__init__(**kwargs)
 
-- 
2.43.0


From 4263da9be05a19c733deaaf2da496a549419b595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:54 +0000
Subject: [PATCH 16/65] fix: pos4d given to containers of elements on a Rowland
 torus is not lost

OpticalElement.__init__ replaced the geometry set by Parallel with a
default one after the position keywords had been used.
---
 marxs/simulator/simulator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marxs/simulator/simulator.py b/marxs/simulator/simulator.py
index 15af250..9d2e334 100644
--- a/marxs/simulator/simulator.py
+++ b/marxs/simulator/simulator.py
@@ -354,7 +354,11 @@ class Parallel(BaseContainer):
         # input or other objects initialized with the same list.
         self.elem_pos = [np.array(pos) for pos in self.elem_pos]
 
+        geometry = self.geometry
         super().__init__(**kwargs)
+        # Other base classes (e.g. `OpticalElement`) might have set a default
+        # geometry, but the position keywords have already been used up above.
+        self.geometry = geometry
 
         if 'id_col' not in self.elem_args:
             self.elem_args['id_col'] = self.id_col
-- 
2.43.0


From a3a34f07c2e67cc532d10a1f1ab9db590f01431e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:54 +0000
Subject: [PATCH 17/65] fix: failing Parallel.generate_elements leaves the
 elements unchanged

An error (e.g. shear in elem_uncertainty) left the container with only
part of its elements, photons silently missed the others and wiggle or
moveindividual failed afterwards.
---
 marxs/simulator/simulator.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/marxs/simulator/simulator.py b/marxs/simulator/simulator.py
index 9d2e334..f55032e 100644
--- a/marxs/simulator/simulator.py
+++ b/marxs/simulator/simulator.py
@@ -406,7 +406,9 @@ class Parallel(BaseContainer):
         - the uncertainty for individual facets.
         '''
 
-        self.elements = []
+        # Set self.elements only when all elements are done, so that an error does
+        # not leave this container with just some of its elements.
+        elements = []
 
         for i in range(len(self.elem_pos)):
             # _parse_position_keywords pops off keywords, thus operate on a copy here
@@ -447,9 +449,10 @@ class Parallel(BaseContainer):
                               ]):
                 assert m.shape == (4, 4)
                 f_pos4d = np.dot(m, f_pos4d)
-            self.elements.append(self.elem_class(pos4d = f_pos4d,
-                                                 id_num=self.id_num_offset + i,
-                                                 **specific_elem_args))
+            elements.append(self.elem_class(pos4d = f_pos4d,
+                                            id_num=self.id_num_offset + i,
+                                            **specific_elem_args))
+        self.elements = elements
 
 
 class ParallelCalculated(Parallel):
-- 
2.43.0


From e409106066e2f02a2c93391d28d13511ca881037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:08 +0000
Subject: [PATCH 18/65] fix: run_tolerances_for_energies2 passes subclass_ok on
 to the search for elements

With subclass_ok=True and an instrument that has only elements of derived
classes no element was modified and all results were for the nominal
instrument.
---
 marxs/design/tolerancing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/design/tolerancing.py b/marxs/design/tolerancing.py
index 1b964e9..216d579 100644
--- a/marxs/design/tolerancing.py
+++ b/marxs/design/tolerancing.py
@@ -446,7 +446,7 @@ def run_tolerances_for_energies2(source, energies, instrum, cls, wigglefunc,
                                       Sequence(elements=instrum.elements[:ind]),
                                       Sequence(elements=instrum.elements[ind:]),
                                       wigglefunc,
-                                      instrum.elements_of_class(cls),
+                                      instrum.elements_of_class(cls, subclass_ok),
                                       parameters,
                                       analyzefunc,
                                       reset,
-- 
2.43.0


From abe8bd5ace23e3f9a413a87c849fbd9ebe92e77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:08 +0000
Subject: [PATCH 19/65] fix: tolerancing tables label parameters given in
 different units correctly

The unit was stripped from each value without conversion, so that 1 arcsec
and 1 arcmin were both listed as 1.
---
 marxs/design/tolerancing.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/marxs/design/tolerancing.py b/marxs/design/tolerancing.py
index 216d579..7ee371e 100644
--- a/marxs/design/tolerancing.py
+++ b/marxs/design/tolerancing.py
@@ -366,9 +366,12 @@ def run_tolerances_for_energies(source, energies,
                               parameters, analyzefunc)
         # convert tab into a table.
         # astropy.tables has problems with Quantities as input
-        tab = Table([{d: data[i][d].value
-                      if isinstance(data[i][d], u.Quantity) else data[i][d]
-                      for d in data[i]} for i in range(len(data))])
+        # All values in one column are in the unit used for the first value
+        units = {d: row[d].unit for row in reversed(data) for d in row
+                 if isinstance(row[d], u.Quantity)}
+        tab = Table([{d: row[d].to_value(units[d])
+                      if isinstance(row[d], u.Quantity) else row[d]
+                      for d in row} for row in data])
         tab['energy'] = e
         tab['wave'] = wave[i]
         outtabs.append(tab)
-- 
2.43.0


From 8cfc8e43e5e611f79a6a8951c34a1b770f165679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:08 +0000
Subject: [PATCH 20/65] fix: RadialMirrorScatter works after varyattribute set
 a Quantity

varyattribute(rms, inplanescatter=1 * u.arcsec) is the documented example,
but the next photon list failed with an error.
---
 marxs/optics/scatter.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/marxs/optics/scatter.py b/marxs/optics/scatter.py
index 573cf46..8b06881 100644
--- a/marxs/optics/scatter.py
+++ b/marxs/optics/scatter.py
@@ -48,22 +48,25 @@ class RadialMirrorScatter(FlatOpticalElement):
 
     def specific_process_photons(self, photons, intersect, interpos, intercoos):
         n = intersect.sum()
+        # These attributes may have been changed to an astropy.Quantity
+        inplanescatter = u.Quantity(self.inplanescatter, u.rad).value
+        perpplanescatter = u.Quantity(self.perpplanescatter, u.rad).value
         center = self.pos4d[:-1, -1]
         radial = h2e(photons['pos'][intersect].data) - center
         perpplane = np.cross(h2e(photons['dir'][intersect].data), radial)
 
         # np.random.normal does not work with scale=0
         # so special case that here.
-        if self.inplanescatter != 0:
-            inplaneangle = np.random.normal(loc=0., scale=self.inplanescatter, size=n)
+        if inplanescatter != 0:
+            inplaneangle = np.random.normal(loc=0., scale=inplanescatter, size=n)
             rot = axangle2mat(perpplane, inplaneangle)
             outdir = e2h(np.einsum('...ij,...i->...j', rot, h2e(photons['dir'][intersect])), 0)
         else:
             inplaneangle = np.zeros(n)
             outdir = photons['dir'][intersect]
 
-        if self.perpplanescatter !=0:
-            perpangle = np.random.normal(loc=0., scale=self.perpplanescatter, size=n)
+        if perpplanescatter !=0:
+            perpangle = np.random.normal(loc=0., scale=perpplanescatter, size=n)
             rot = axangle2mat(radial, perpangle)
             outdir = e2h(np.einsum('...ij,...i->...j', rot, h2e(outdir)), 0)
         else:
-- 
2.43.0


From c4505da7748f7b21552530857e4f3a54a5c5700b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:11 +0000
Subject: [PATCH 21/65] fix: columns of response tables are not lost, stale or
 mixed up with header keywords

A column that replaced a header keyword left the old keyword behind, which
was then returned instead of the column; constant columns with units or
vectors were moved to the meta dict but cannot be written to a FITS header,
so they vanished from the file; and setting elements of a slice failed.
---
 marxs/reduction/ogip.py | 50 +++++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 182bc09..6454b27 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -43,17 +43,32 @@ class OGIPFormatError(Exception):
     pass
 
 
+def _is_keyword_value(value):
+    '''Can this value be stored in a FITS header keyword?
+
+    That's not the case for e.g. arrays, numbers with a unit, NaN, or inf.
+    '''
+    if isinstance(value, (float, np.floating)):
+        return bool(np.isfinite(value))
+    return isinstance(value, (str, bool, np.bool_, int, np.integer))
+
+
 class ColOrKeyColumn(Column):
     def __setitem__(self, index, value):
         super().__setitem__(index, value)
-        if np.all(self.data == self.data[0]):
-            self._parent_table().meta[self.name] = self.data[0]
-            self._parent_table().remove_column(self.name)
+        tab = self.parent_table
+        if tab is None:
+            # Slice or copy that is not part of any table
+            return
+        if _is_keyword_value(self[0]) and np.all(self.data == self.data[0]):
+            tab.meta[self.name] = self[0]
+            if self.name in tab.colnames:
+                tab.remove_column(self.name)
         else:
-            if self.name not in self._parent_table().colnames:
-                self._parent_table().columns[self.name] = self
-                if self.name in self._parent_table().meta:
-                    del self._parent_table().meta[self.name]
+            if self.name not in tab.colnames:
+                tab.columns[self.name] = self
+                if self.name in tab.meta:
+                    del tab.meta[self.name]
 
 
 class ColOrKeyTable(QTable):
@@ -68,14 +83,21 @@ class ColOrKeyTable(QTable):
             return super().__getitem__(item)
 
     def __setitem__(self, item, value):
-        if isinstance(item, str) and (np.ndim(value) == 0 or
-                                      np.all(np.asanyarray(value) == value[0])):
-            if np.ndim(value) == 0:
-                self.meta[item] = value
+        if isinstance(item, str):
+            if type(value) is np.ndarray and value.ndim == 0:
+                value = value[()]
+            value0 = value if np.ndim(value) == 0 else value[0]
+            if (_is_keyword_value(value0) and
+                    (np.ndim(value) == 0 or
+                     np.all(np.asanyarray(value) == value0))):
+                self.meta[item] = value0
+                if item in self.colnames:
+                    self.remove_column(item)
             else:
-                self.meta[item] = value[0]
-            if item in self.colnames:
-                self.remove_column(item)
+                super().__setitem__(item, value)
+                if item in self.colnames:
+                    # The column replaces the value in the header
+                    self.meta.pop(item, None)
         else:
             super().__setitem__(item, value)
 
-- 
2.43.0


From c610533cafc19537b8ba64a64e6c7189ebdd0814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:11 +0000
Subject: [PATCH 22/65] fix: RMF.row accepts wavelengths

---
 marxs/reduction/ogip.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 6454b27..7777fdb 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -338,9 +338,9 @@ class RMF:
         hdulist.writeto(rmffile, overwrite=overwrite, checksum=True)
 
     def row(self, energy):
-        with u.set_enabled_equivalencies(u.spectral()):
-            rowind = (energy >= self.matrix['ENERG_LO']) & \
-                (energy < self.matrix['ENERG_HI'])
+        energy = energy.to(u.keV, equivalencies=u.spectral())
+        rowind = (energy >= self.matrix['ENERG_LO']) & \
+            (energy < self.matrix['ENERG_HI'])
         rows = rowind.nonzero()[0][0]
         return self.matrix[rows]
 
-- 
2.43.0


From 667085b53f864c0f85fd7984aaa6c9c3e00f5b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:11 +0000
Subject: [PATCH 23/65] fix: RMF views agree for all channel numberings and for
 files with fixed-length arrays

RMF.rmf ignored TLMIN and returned padding elements, full_rmf and rmf failed
when F_CHAN and N_CHAN are scalars or when no channel is above threshold.
---
 marxs/reduction/ogip.py | 44 ++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 7777fdb..ccbc0ac 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -344,6 +344,29 @@ class RMF:
         rows = rowind.nonzero()[0][0]
         return self.matrix[rows]
 
+    def _row_groups(self, energy):
+        '''Channel subsets and matrix elements for one row
+
+        Returns
+        -------
+        chans : list of arrays
+            For each channel subset, the (0-indexed) position of the channels
+            in the EBOUNDS table
+        matrix : array
+            Matrix elements for all channel subsets
+        '''
+        row = self.row(energy)
+        tlmin = self.matrix.meta['TLMIN{}'.format(self.matrix.colnames.index('F_CHAN') + 1)]
+        # F_CHAN and N_CHAN are scalars in files with only one subset per row
+        # and padded at the end in files with fixed-length arrays.
+        fchan = np.atleast_1d(row['F_CHAN'])[:row['N_GRP']]
+        nchan = np.atleast_1d(row['N_CHAN'])[:row['N_GRP']]
+        # TLMIN is the number of the first channel, but Python is 0 indexed
+        chans = [np.arange(f - tlmin, f - tlmin + n, dtype=int)
+                 for f, n in zip(fchan, nchan)]
+        matrix = np.atleast_1d(row['MATRIX'])[:sum(len(c) for c in chans)]
+        return chans, matrix
+
     @property
     def en_mid(self):
         return 0.5 * (self.ebounds['E_MIN'] + self.ebounds['E_MAX'])
@@ -363,15 +386,10 @@ class RMF:
             rmf value in each bin
         '''
         rmf = np.zeros(len(self.en_mid))
-        row = self.row(energy)
-        tlmin = self.matrix.meta['TLMIN{}'.format(self.matrix.colnames.index('F_CHAN') + 1)]
-        for i in range(row['N_GRP']):
-            # Python is 0 indexed, FITS is 1 indexed
-            chans = slice(row['F_CHAN'][i] - tlmin,
-                          row['F_CHAN'][i] + row['N_CHAN'][i] - tlmin)
-            matindex = np.cumsum(np.concatenate(([0], row['N_CHAN'])))
-            mat = slice(matindex[i], matindex[i + 1])
-            rmf[chans] = row['MATRIX'][mat]
+        chans, matrix = self._row_groups(energy)
+        for c in chans:
+            rmf[c] = matrix[:len(c)]
+            matrix = matrix[len(c):]
         return self.ebounds['E_MIN'], self.ebounds['E_MAX'], rmf
 
     def rmf(self, energy):
@@ -388,12 +406,10 @@ class RMF:
         rmf : array
             rmf value in each bin
         '''
-        row = self.row(energy)
-        ind = np.concatenate([np.arange(row['F_CHAN'][i] - 1,
-                                        row['F_CHAN'][i] + row['N_CHAN'][i]-1)
-                              for i in range(row['N_GRP'])])
+        chans, matrix = self._row_groups(energy)
+        ind = np.concatenate([np.array([], dtype=int)] + chans)
         return self.ebounds['E_MIN'][ind], self.ebounds['E_MAX'][ind], \
-            np.asanyarray(row['MATRIX'])
+            np.asanyarray(matrix)
 
     def rmf_angstrom(self, energy):
         en_lo, en_hi, rmf = self.rmf(energy)
-- 
2.43.0


From ea98f8be70c037af44a32e7e4368ee52f0ea8cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:11 +0000
Subject: [PATCH 24/65] fix: RMFs with one energy row or empty rows can be
 written

---
 marxs/reduction/ogip.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index ccbc0ac..4be51ab 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -483,15 +483,15 @@ class RMF:
         m = self.matrix
         # int16 is recommended in OGIP, but too small for e.g. Arcus
         # So, determine smallest inttype that works
-        maxvalf = np.concatenate(m['F_CHAN']).max()
-        maxvaln = np.concatenate(m['N_CHAN']).max()
-        maxval = max(maxvalf, maxvaln)
+        maxval = max([max(r, default=0) for c in ['F_CHAN', 'N_CHAN']
+                      for r in m[c]])
         for inttype in [np.int16, np.int32, np.int64]:
             if inttype(maxval) == maxval:
                 break
-        fchan = np.zeros((len(m), np.max(m['N_GRP'])), dtype=inttype)
+        # Keep at least one entry, even if all rows of the matrix are empty
+        fchan = np.zeros((len(m), max(1, np.max(m['N_GRP']))), dtype=inttype)
         nchan = np.zeros_like(fchan)
-        matrix = np.zeros((len(m), max([sum(r) for r in m['N_CHAN']])),
+        matrix = np.zeros((len(m), max([1] + [sum(r) for r in m['N_CHAN']])),
                           dtype=np.float32)
         for i, r in enumerate(m):
             fchan[i, :len(r['F_CHAN'])] = r['F_CHAN']
@@ -499,9 +499,13 @@ class RMF:
             matrix[i, :len(r['MATRIX'])] = r['MATRIX']
         # if max(N_GRP) == 1 then we can squueze out the first dimension
         # and write a number per row instead of an array.
-        m['F_CHAN'] = fchan.squeeze()
-        m['N_CHAN'] = nchan.squeeze()
-        m['MATRIX'] = matrix
+        if fchan.shape[1] == 1:
+            fchan = fchan[:, 0]
+            nchan = nchan[:, 0]
+        # These are always columns, even if all rows have the same value
+        for col, data in [('F_CHAN', fchan), ('N_CHAN', nchan),
+                          ('MATRIX', matrix)]:
+            m.replace_column(col, m.Column(data, name=col))
 
     @staticmethod
     def from_Gauss_sigma(bin_edges, sigmatab, threshold=1e-6,
-- 
2.43.0


From 1d613f9effeac1398129e165184f0b08e847e153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:42 +0000
Subject: [PATCH 25/65] fix: RMF.from_Gauss_sigma works for energies and all
 wavelength units and keeps the input table

---
 marxs/reduction/ogip.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 4be51ab..a4fc934 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -538,9 +538,11 @@ class RMF:
         # This module requires sherpa, so we import it down here.
         # That way, the rest of this class can be used even when Sherpa is not installed.
         from marxs.reduction.lsfparm import make_rmf
+        # Do not modify the input table. In a QTable all columns with units are quantities.
+        sigmatab = QTable(sigmatab, copy=True)
         if 'energy' in sigmatab.colnames and 'wave' not in sigmatab.colnames:
-            sigmatab['wave'] = sigmatab['energy'].to(u.Angstrom, equivalenicies=u.spectral())
-            sigmatab['sigma_wave'] = sigmatab['wave'] * sigmatab['sigma_energy'] / sigmatab['energy']
+            sigmatab['wave'] = sigmatab['energy'].to(u.Angstrom, equivalencies=u.spectral())
+            sigmatab['sigma_wave'] = (sigmatab['wave'] * sigmatab['sigma_energy'] / sigmatab['energy']).to(u.Angstrom)
         sigmatab.sort('wave')
 
         lsfparm = Table({'NUM_WIDTHS': [1],
@@ -548,7 +550,7 @@ class RMF:
                          'WIDTHS': [[1.]],
                          'NUM_LAMBDAS': [len(sigmatab)],
                          'EE_FRACS': [np.ones((1, len(sigmatab)))],
-                         'LAMBDAS': [sigmatab['wave']],
+                         'LAMBDAS': [sigmatab['wave'].to(u.Angstrom).value],
                          'GAUSS1_PARMS': [np.stack([np.ones(len(sigmatab)),
                                            sigmatab['sigma_wave'].to(u.Angstrom).value,
                                            sigmatab['wave'].to(u.Angstrom).value
-- 
2.43.0


From ca4d60971b8bc13e877adc48e65b98e2d361dbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:58 +0000
Subject: [PATCH 26/65] fix: OSIPBase.osip_tab returns the width measured from
 the nominal energy

---
 marxs/reduction/osip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/reduction/osip.py b/marxs/reduction/osip.py
index 360a759..28e20da 100644
--- a/marxs/reduction/osip.py
+++ b/marxs/reduction/osip.py
@@ -81,7 +81,7 @@ class OSIPBase(ABC):
         osiprange = self.osip_range(chan_mid, order)
         osiprange = osiprange.to(u.eV, equivalencies=u.spectral())
         E = chan_mid.to(u.eV, equivalencies=u.spectral())
-        return E + osiprange * np.array([-1, 1])[:, np.newaxis]
+        return (osiprange - E) * np.array([-1, 1])[:, np.newaxis]
 
     @u.quantity_input(chan_mid=u.keV, equivalencies=u.spectral())
     def osip_range(self, chan_mid, order) -> u.eV:
-- 
2.43.0


From 845c51ca9585e1f8f4503a7c5d6ecb714d024e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:58 +0000
Subject: [PATCH 27/65] fix: OSIPBase.osip_factor always returns one number per
 energy

A scalar 0. made the campaign fail in the summary plot if order +-1 was the
middle order.
---
 marxs/reduction/osip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/reduction/osip.py b/marxs/reduction/osip.py
index 28e20da..9dd998e 100644
--- a/marxs/reduction/osip.py
+++ b/marxs/reduction/osip.py
@@ -137,7 +137,7 @@ class OSIPBase(ABC):
         '''
 
         if np.sign(o_nominal) != np.sign(o_true):
-            return 0.
+            return np.zeros(chan_mid_nominal.shape)
 
         osiprange = self.osip_range(chan_mid_nominal, o_nominal)
         Etrue = chan_mid_nominal.to(u.eV, equivalencies=u.spectral()) * \
-- 
2.43.0


From aa6e1bf79349a8c62cc4a0fd2c0c6220b4f7322f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:58 +0000
Subject: [PATCH 28/65] fix: apply_osip_all skips only missing inputs

A FileNotFoundError when writing (e.g. outroot in a directory that does not
exist) was taken for a missing input and nothing was written without notice.
---
 marxs/reduction/osip.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/marxs/reduction/osip.py b/marxs/reduction/osip.py
index 9dd998e..571b30e 100644
--- a/marxs/reduction/osip.py
+++ b/marxs/reduction/osip.py
@@ -379,14 +379,13 @@ class OSIPBase(ABC):
                                      self.filename_from_meta(filetype='arf',
                                                         ORDER=order + t,
                                                         **filename_from_meta_kwargs))
-                    try:
-                        self.apply_osip(inputarf, outpath, order,
-                                        outroot=outroot, overwrite=overwrite)
-                        goodarf = inputarf
-                    except FileNotFoundError:
+                    if not os.path.exists(inputarf):
                         logger.info(f'Skipping order: {order}, offset: {t} ' +
                                     'because input arf not found')
                         continue
+                    self.apply_osip(inputarf, outpath, order,
+                                    outroot=outroot, overwrite=overwrite)
+                    goodarf = inputarf
 
         # The second condition checks that at least one ARF was written
         if goodarf is not None:
-- 
2.43.0


From 22a8c604a192f1d3a0ef628a7342f252c75c2573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:58 +0000
Subject: [PATCH 29/65] fix: plot_summed_arf does not need the optional column
 BIN_LO

---
 marxs/reduction/osip.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marxs/reduction/osip.py b/marxs/reduction/osip.py
index 571b30e..1cc2e4c 100644
--- a/marxs/reduction/osip.py
+++ b/marxs/reduction/osip.py
@@ -321,7 +321,8 @@ class OSIPBase(ABC):
             # Interpolate on common wavelength grid. Good enough for plotting.
             # Interp requires sorted input
             # but ARFs are reverse-sorted in wavelength
-            specresp += np.interp(wavegrid, arf['BIN_LO'][::-1],
+            bin_lo = arf['ENERG_HI'].to(u.Angstrom, equivalencies=u.spectral())
+            specresp += np.interp(wavegrid, bin_lo[::-1],
                                   arf['SPECRESP'][::-1])
 
         fig, ax = plt.subplots()
-- 
2.43.0


From 18042c771650687f547a40ccbce11dce77e44aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:26 +0000
Subject: [PATCH 30/65] fix: DETCHANS is the number of channels in all
 extensions of an RMF

---
 marxs/reduction/ogip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index a4fc934..5cdc955 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -250,7 +250,7 @@ class RMF:
         self.matrix = matrix
         self.ebounds = ebounds
         for m in [self.matrix, self.ebounds]:
-            m.meta['DETCHANS'] = len(m)
+            m.meta['DETCHANS'] = len(self.ebounds)
             if CHANTYPE is not None:
                 m.meta['CHANTYPE'] = CHANTYPE
             if HDUCLAS3 is not None:
-- 
2.43.0


From 72b1d07d9eb52eab4a882df619b297d53fa0f4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:02 +0000
Subject: [PATCH 31/65] fix: KeepCol can be converted to arrays of a given
 dtype

---
 marxs/simulator/simulator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/marxs/simulator/simulator.py b/marxs/simulator/simulator.py
index f55032e..5763eb6 100644
--- a/marxs/simulator/simulator.py
+++ b/marxs/simulator/simulator.py
@@ -584,8 +584,10 @@ class KeepCol(object):
         else:
             self.data.append(photons[self.colname].copy())
 
-    def __array__(self):
-        return np.stack(self.data)
+    def __array__(self, dtype=None, copy=None):
+        if copy is False:
+            raise ValueError('Stacking the recorded data always makes a copy.')
+        return np.asarray(np.stack(self.data), dtype=dtype)
 
     def format_positions(self, atol=None):
         '''Format saved position columns as a single array.
-- 
2.43.0


From ac271fdcb6b863c2143df4a13e181d0c4892e05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:44 +0000
Subject: [PATCH 32/65] fix: TagVersion records ORIGIN and CREATOR

---
 marxs/base/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marxs/base/base.py b/marxs/base/base.py
index f916b0b..4d8c121 100644
--- a/marxs/base/base.py
+++ b/marxs/base/base.py
@@ -121,6 +121,8 @@ class TagVersion(MarxsElement):
                  **kwargs):
         super().__init__(name=kwargs.pop('name', self.__class__))
 
+        kwargs['ORIGIN'] = ORIGIN
+        kwargs['CREATOR'] = CREATOR
         kwargs['MARXSVER'] = (ver.group('version'), 'MARXS code version')
         if not ver.group('gittag') is None:
             kwargs['MARXSGIT'] = (ver.group('gittag'),
-- 
2.43.0


From 4079513cdd6bd8ef36dae59cf35727cba98cfdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:44 +0000
Subject: [PATCH 33/65] fix: consistency checks work for python -O and empty
 lists and name the keyword

---
 marxs/base/base.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/marxs/base/base.py b/marxs/base/base.py
index 4d8c121..852b120 100644
--- a/marxs/base/base.py
+++ b/marxs/base/base.py
@@ -174,7 +174,9 @@ def check_meta_consistent(meta1, meta2, keywords=['ORIGIN', 'CREATOR',
     '''
     for k in keywords:
         if (k in meta1) and (k in meta2):
-            assert meta1[k] == meta2[k]
+            # Not an assert statement, because those are ignored by python -O
+            if meta1[k] != meta2[k]:
+                raise AssertionError(f'{k} differs: {meta1[k]} and {meta2[k]}.')
         else:
             if not allow_missing:
                 raise KeyError(f'{k} not found in both dicts.')
@@ -189,8 +191,10 @@ def check_energy_consistent(photons):
 
     If there is no energy colum, then this also passes.
     '''
-    if 'energy' in photons.colnames:
-        assert np.allclose(photons['energy'], photons['energy'][0])
+    if 'energy' in photons.colnames and len(photons) > 0:
+        # Not an assert statement, because those are ignored by python -O
+        if not np.allclose(photons['energy'], photons['energy'][0]):
+            raise AssertionError('Photons have different energies.')
 
 
 class SimulationSequenceElement(MarxsElement):
-- 
2.43.0


From 43d359cac37f00784210ba9933db5b5d99439d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:44 +0000
Subject: [PATCH 34/65] fix: Chandra adds MISSION and TELESCOP to the header

---
 marxs/missions/chandra/chandra_global.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/missions/chandra/chandra_global.py b/marxs/missions/chandra/chandra_global.py
index d25514a..aa76937 100644
--- a/marxs/missions/chandra/chandra_global.py
+++ b/marxs/missions/chandra/chandra_global.py
@@ -11,10 +11,10 @@ class Chandra(Sequence):
 
 
     '''
-    def process_photons(self, photons):
+    def __call__(self, photons):
         photons.meta['MISSION'] = ('AXAF', 'Mission')
         photons.meta['TELESCOP'] = ('CHANDRA', 'Telescope')
-        return super().process_photons(photons)
+        return super().__call__(photons)
 
     def write_evt(self, photons, filename):
         '''Write a Chandra event level 1 file.
-- 
2.43.0


From ef5ec43768c9fa48b92b6251466fd017a81f08ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:23 +0000
Subject: [PATCH 35/65] fix: facet_table does not change the projection plane
 it is given

---
 marxs/analysis/coords.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marxs/analysis/coords.py b/marxs/analysis/coords.py
index df61710..469f183 100644
--- a/marxs/analysis/coords.py
+++ b/marxs/analysis/coords.py
@@ -1,4 +1,6 @@
 # Licensed under GPL version 3 - see LICENSE.rst
+from copy import copy
+
 import numpy as np
 from astropy.table import Table
 
@@ -72,6 +74,7 @@ def facet_table(container, project_plane=ProjectOntoPlane()):
             >>> from astropy import table
             >>> table.join(photons, facettab, join_type='left')  # doctest: +SKIP
     '''
+    project_plane = copy(project_plane)
     project_plane.loc_coos_name = ['facet_projx', 'facet_projy']
 
     facetpos = h2e(np.stack(container.elem_pos)[:, :, 3])
-- 
2.43.0


From e011627d3cd387b4eb489576d8849690c6216fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:23 +0000
Subject: [PATCH 36/65] fix: resolvingpower_from_photonlist works for 20
 photons

---
 marxs/analysis/gratings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/analysis/gratings.py b/marxs/analysis/gratings.py
index c895d80..c0000c9 100644
--- a/marxs/analysis/gratings.py
+++ b/marxs/analysis/gratings.py
@@ -259,7 +259,7 @@ def resolvingpower_from_photonlist(photons, orders,
 
     for i, o in enumerate(orders):
         ind = (photons[ordercol] == o)
-        if ind.sum() > 20:
+        if ind.sum() >= 20:
             # There is a .value here to work around https://github.com/astropy/astropy/issues/13281
             meanpos, medianpos, stdpos = sigma_clipped_stats(photons[col][ind].value)
         else:
-- 
2.43.0


From 966f99ae683f5d117b770b7187c47bd19f6b2816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:48 +0000
Subject: [PATCH 37/65] fix: containers can be exported to three.js json

---
 marxs/visualization/threejsjson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/visualization/threejsjson.py b/marxs/visualization/threejsjson.py
index 51fd38b..57517a7 100644
--- a/marxs/visualization/threejsjson.py
+++ b/marxs/visualization/threejsjson.py
@@ -88,7 +88,7 @@ def container(obj, display=None,  **kwargs):
     '''
     out = []
     for elem in obj.elements:
-        elemout = plot_obj(elem, elem.display)
+        elemout = plot_object(elem)
         if isinstance(elemout, list):
             out.extend(elemout)
         elif (elemout is None):
-- 
2.43.0


From 4b5f1dad2fd5aac997646c143c46267d721ee43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:48 +0000
Subject: [PATCH 38/65] fix: three.js json can be written with the meta data of
 a photon list

---
 marxs/visualization/threejsjson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/visualization/threejsjson.py b/marxs/visualization/threejsjson.py
index 57517a7..af788c3 100644
--- a/marxs/visualization/threejsjson.py
+++ b/marxs/visualization/threejsjson.py
@@ -219,7 +219,7 @@ def write(fileobject, data, photons=None):
              'elements': data}
 
     if photons is not None:
-        data['runinfo'] = photons.meta()
+        jdata['runinfo'] = dict(photons.meta)
 
     if HAS_JSONSCHEMA:
         path =  os.path.abspath(os.path.dirname(__file__))
-- 
2.43.0


From 572a86ed3d9709b99a2aa0b0836552c0d4612aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:48 +0000
Subject: [PATCH 39/65] fix: x3d rays are colored by the first point of each
 ray

---
 marxs/visualization/x3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/visualization/x3d.py b/marxs/visualization/x3d.py
index 24c4cd1..5a29c27 100644
--- a/marxs/visualization/x3d.py
+++ b/marxs/visualization/x3d.py
@@ -423,7 +423,7 @@ def plot_rays(
         pass
     elif scalar.shape == (n, N):
         warn('Color Per Vertex does not yet work in the X3D library used. Using only color for first node in each ray.')
-        scalar = scalar[0, :]
+        scalar = scalar[:, 0]
     else:
         raise ValueError('Scalar quantity for each point must have shape ({0},) or ({0}, {1})'.format(n, N))
 
-- 
2.43.0


From 7b0465bd832abd33ed9e0d8381b147b3cc2e8587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:48 +0000
Subject: [PATCH 40/65] fix: rays without a valid color value are not dropped
 from x3d scenes

---
 marxs/visualization/x3d.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/marxs/visualization/x3d.py b/marxs/visualization/x3d.py
index 5a29c27..be79b34 100644
--- a/marxs/visualization/x3d.py
+++ b/marxs/visualization/x3d.py
@@ -427,8 +427,9 @@ def plot_rays(
     else:
         raise ValueError('Scalar quantity for each point must have shape ({0},) or ({0}, {1})'.format(n, N))
 
-    scalar = Normalize(**normalize_kwargs)(scalar)
-    scalarset = set(scalar)
+    scalar = Normalize(**normalize_kwargs)(np.ma.masked_invalid(scalar)).filled(np.nan)
+    # There is only a single nan in the output of unique
+    scalarset = np.unique(scalar)
     # If scalar is a float quantity it makes smaller X3D file to bin and have e.g. no more than 100 colors.
     # Not hard to implement, but punt for now since I don't know if that optimization is needed in
     # practice.
@@ -439,7 +440,7 @@ def plot_rays(
         # and use RGB
         # Also, round to two digits to reduce X3D filesize
         # color = x3d.Color(tuple(np.round(color[:3], 2)))
-        ind = scalar == s
+        ind = np.isnan(scalar) if np.isnan(s) else (scalar == s)
 
         lines = x3d.Shape(
             appearance=x3d.Appearance(
-- 
2.43.0


From 46d22c14bad8a2c7f2a9ce91fa55126592e8d941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:48 +0000
Subject: [PATCH 41/65] fix: combine triangulations with different numbers of
 points

---
 marxs/visualization/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/marxs/visualization/utils.py b/marxs/visualization/utils.py
index c905bd8..bfd3136 100644
--- a/marxs/visualization/utils.py
+++ b/marxs/visualization/utils.py
@@ -290,8 +290,7 @@ def combine_disjoint_triangulations(list_xyz, list_triangles):
 
     '''
     xyz = np.vstack(list_xyz)
-    n_offset = np.cumsum([a.shape[0] for a in list_xyz])
-    n_offset -= n_offset[0]
+    n_offset = np.cumsum([0] + [a.shape[0] for a in list_xyz[:-1]])
     triangles = np.vstack([list_triangles[i] + n_offset[i] for i in
                            range(len(n_offset))])
     return xyz, triangles
-- 
2.43.0


From dcddf21f49cdd08f96997380e20b8472bd931227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:37 +0000
Subject: [PATCH 42/65] fix: the three.js output can be used

---
 marxs/visualization/threejs.py | 46 +++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/marxs/visualization/threejs.py b/marxs/visualization/threejs.py
index 43dc549..49fcd99 100644
--- a/marxs/visualization/threejs.py
+++ b/marxs/visualization/threejs.py
@@ -12,6 +12,9 @@ Also, note that the output file is not a valid webside by itself. Instead, it is
 javascript commands, that needs to be included into a website after the nesessary setup
 and package loading.
 '''
+import json
+import sys
+
 import numpy as np
 from astropy.utils.decorators import format_doc
 
@@ -40,6 +43,7 @@ listofproperties = {'Material': ['id', 'name', 'opacity', 'transparent', 'blendi
 def array2string(array):
     '''Flatten array and return string representation for insertion into js.'''
     return np.array2string(array.flatten(), max_line_width=1000, separator=',',
+                           threshold=sys.maxsize,
                            formatter={'float_kind': '{0:.1f}'.format})
 
 def materialdict(display, material):
@@ -88,9 +92,17 @@ def materialspec(display, material):
         String that can be pasted into javasript files.
     '''
     matdict = materialdict(display, material)
-    spec = ['{0} : {1}'.format(k, matdict[v]) for k in matdict]
+    spec = ['{0} : {1}'.format(k, json.dumps(matdict[k])) for k in matdict]
     return ', '.join(spec)
 
+
+def doublesided_materialspec(display):
+    spec = materialspec(display, 'MeshStandardMaterial')
+    if 'side' not in display:
+        spec += ', side : THREE.DoubleSide'
+    return spec
+
+
 def _format_plot_rays_input(data, scalar, cmap, prop):
     # The number of points per line
     N = data.shape[1]
@@ -139,7 +151,7 @@ def plot_rays(data, outfile, scalar=None, cmap=None,
         If ``None`` the default matplotlib colormap will be used, otherwise the colormap
         can be specified in this keyword.
     '''
-    data, s_rgb, prop, n = _format_plot_rays_input(data, scalar, cmap, prob)
+    data, s_rgb, prop, n = _format_plot_rays_input(data, scalar, cmap, prop)
     material = materialspec(prop, 'LineBasicMaterial')
 
     for i in range(n):
@@ -171,16 +183,16 @@ doc_plot='''
 '''
 
 @format_doc(doc_plot)
-def plot_object(obj, display, outfile, **kwargs):
+def plot_object(obj, display=None, outfile=None, **kwargs):
     '''Plot any MARXS object with three.js as backend.
 
     This method will inspect the object that is passed in and select the
     correct plotting method for its shape. Javascript code to generate the correct
     represenation in three.js is added to the open file ``outfile``.
     '''
-    if 'outfile' not in kwargs:
+    if outfile is None:
         raise TypeError('Required argument "outfile" missing.')
-    out = plot_object_general(plot_registry, obj, display=display,outfile=outfile, **kwargs)
+    out = utils.plot_object_general(plot_registry, obj, display=display, outfile=outfile, **kwargs)
     return out
 
 
@@ -192,29 +204,27 @@ def container(obj, display, outfile):
     (if it is a container). We need to flatten the list here to avoid
     arbitrarily deep recursion.
     '''
-    return [plot_obj(e, e.display, outfile) for e in obj.elements]
+    return [plot_object(e, outfile=outfile) for e in obj.elements]
 
 @format_doc(doc_plot)
-def box(obs, display, outfile):
+def box(obj, display, outfile):
     '''Output three.js commands to include a box-shaped optical element.'''
     matrixstring = ', '.join([str(i) for i in obj.pos4d.flatten()])
-    if not ('side' in display):
-        display['side'] = 'THREE.DoubleSide'
-    materialspec = materialspec(display, 'MeshStandardMaterial')
+    material = doublesided_materialspec(display)
     outfile.write('''
     var geometry = new THREE.BoxGeometry( 2, 2, 2 );
-    var material = new THREE.MeshStandardMaterial( {{ {materialspec} }} );
+    var material = new THREE.MeshStandardMaterial( {{ {material} }} );
     var mesh = new THREE.Mesh( geometry, material );
     mesh.matrixAutoUpdate = false;
     mesh.matrix.set({matrix});
-    scene.add( mesh );'''.format(materialspec=materialspec,
+    scene.add( mesh );'''.format(material=material,
                                  matrix=matrixstring))
 
 @format_doc(doc_plot)
 def triangulation(obj, display, outfile):
     '''Output commands for a plane with an inner hole.'''
     xyz, triangles = obj.geometry.triangulate(display)
-    materialspec = materialspec(display, 'MeshStandardMaterial')
+    material = doublesided_materialspec(display)
     outfile.write('// {}\n'.format(obj.name))
     outfile.write('var geometry = new THREE.BufferGeometry(); \n')
     outfile.write('var vertices = new Float32Array([')
@@ -232,10 +242,10 @@ def triangulation(obj, display, outfile):
     geometry.setIndex(new THREE.BufferAttribute( faces, 1 ) );
     ''')
 
-    outfile.write('''var material = new THREE.MeshStandardMaterial({{ {materialspec} }});
+    outfile.write('''var material = new THREE.MeshStandardMaterial({{ {material} }});
         var mesh = new THREE.Mesh( geometry, material );
         scene.add( mesh );
-        '''.format(materialspec=materialspec))
+        '''.format(material=material))
 
 @format_doc(doc_plot)
 def torus(obj, display, outfile):
@@ -247,7 +257,7 @@ def torus(obj, display, outfile):
     '''
     theta = display.get('coo1', [0, 2 * np.pi])
     phi = display.get('coo2', [0, 2 * np.pi])
-    materialspec = materialspec(obj.display, 'MeshStandardMaterial')
+    material = doublesided_materialspec(display)
     torusparameters = '{0}, {1}, {2}, {3}, {4}, {5}, {6}, {7}'.format(obj.R, obj.r,
                                                                       int(np.rad2deg(theta[1])),
                                                                       int(np.rad2deg(phi[1])),
@@ -260,11 +270,11 @@ def torus(obj, display, outfile):
 
     outfile.write('''
     var geometry = new THREE.ModifiedTorusBufferGeometry({torusparameters});
-    var material = new THREE.MeshStandardMaterial({{ {materialspec} }});
+    var material = new THREE.MeshStandardMaterial({{ {material} }});
     var mesh = new THREE.Mesh( geometry, material );
     mesh.matrixAutoUpdate = false;
     mesh.matrix.set({matrix});
-    scene.add( mesh );'''.format(materialspec=materialspec,
+    scene.add( mesh );'''.format(material=material,
                                  torusparameters=torusparameters,
                                  matrix=matrixstring))
 
-- 
2.43.0


From 6dcb2de793ca6dc5f42307e0230a8484ef906159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:49 +0000
Subject: [PATCH 43/65] fix: Rowland torus in three.js output has the right
 axes, range and position

---
 marxs/visualization/threejs.py                | 21 ++++++++++---------
 .../ModifiedTorusBufferGeometry.js            |  6 +++---
 marxs/visualization/threejsjson.py            |  6 ++----
 3 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/marxs/visualization/threejs.py b/marxs/visualization/threejs.py
index 49fcd99..a98027c 100644
--- a/marxs/visualization/threejs.py
+++ b/marxs/visualization/threejs.py
@@ -247,6 +247,15 @@ def triangulation(obj, display, outfile):
         scene.add( mesh );
         '''.format(material=material))
 
+def torusparameters(obj, theta, phi):
+    '''Parameters for a ModifiedTorusBufferGeometry, which covers the given range.'''
+    dtheta = float(theta[-1] - theta[0])
+    dphi = float(phi[-1] - phi[0])
+    return (float(obj.R), float(obj.r),
+            int(np.ceil(np.rad2deg(abs(dtheta)))), int(np.ceil(np.rad2deg(abs(dphi)))),
+            dphi, float(phi[0]), dtheta, float(theta[0]))
+
+
 @format_doc(doc_plot)
 def torus(obj, display, outfile):
     '''Output commands to display (part of) a torus.
@@ -258,15 +267,7 @@ def torus(obj, display, outfile):
     theta = display.get('coo1', [0, 2 * np.pi])
     phi = display.get('coo2', [0, 2 * np.pi])
     material = doublesided_materialspec(display)
-    torusparameters = '{0}, {1}, {2}, {3}, {4}, {5}, {6}, {7}'.format(obj.R, obj.r,
-                                                                      int(np.rad2deg(theta[1])),
-                                                                      int(np.rad2deg(phi[1])),
-                                                                      theta[1],
-                                                                      theta[0],
-                                                                      phi[1],
-                                                                      phi[0])
-    rot = np.array([[1,0,0,0],[0,0,1,0],[0,1,0,0],[0,0,0,1.]])
-    matrixstring = ', '.join([str(i) for i in np.dot(obj.pos4d, rot).flatten()])
+    matrixstring = ', '.join([str(i) for i in obj.pos4d.flatten()])
 
     outfile.write('''
     var geometry = new THREE.ModifiedTorusBufferGeometry({torusparameters});
@@ -275,7 +276,7 @@ def torus(obj, display, outfile):
     mesh.matrixAutoUpdate = false;
     mesh.matrix.set({matrix});
     scene.add( mesh );'''.format(material=material,
-                                 torusparameters=torusparameters,
+                                 torusparameters=', '.join(str(i) for i in torusparameters(obj, theta, phi)),
                                  matrix=matrixstring))
 
 plot_registry = {'triangulation': triangulation,
diff --git a/marxs/visualization/threejs_files/ModifiedTorusBufferGeometry.js b/marxs/visualization/threejs_files/ModifiedTorusBufferGeometry.js
index 078d617..681cf59 100644
--- a/marxs/visualization/threejs_files/ModifiedTorusBufferGeometry.js
+++ b/marxs/visualization/threejs_files/ModifiedTorusBufferGeometry.js
@@ -63,8 +63,8 @@ THREE.ModifiedTorusBufferGeometry = function ( radius, tube, radialSegments, tub
 
 			// vertex
 			vertex.x = ( radius + tube * Math.cos( v ) ) * Math.cos( u );
-			vertex.y = ( radius + tube * Math.cos( v ) ) * Math.sin( u );
-			vertex.z = tube * Math.sin( v );
+			vertex.z = ( radius + tube * Math.cos( v ) ) * Math.sin( u );
+			vertex.y = tube * Math.sin( v );
 
 			vertices[ vertexBufferOffset ] = vertex.x;
 			vertices[ vertexBufferOffset + 1 ] = vertex.y;
@@ -72,7 +72,7 @@ THREE.ModifiedTorusBufferGeometry = function ( radius, tube, radialSegments, tub
 
 			// this vector is used to calculate the normal
 			center.x = radius * Math.cos( u );
-			center.y = radius * Math.sin( u );
+			center.z = radius * Math.sin( u );
 
 			// normal
 			normal.subVectors( vertex, center ).normalize();
diff --git a/marxs/visualization/threejsjson.py b/marxs/visualization/threejsjson.py
index af788c3..ef7e480 100644
--- a/marxs/visualization/threejsjson.py
+++ b/marxs/visualization/threejsjson.py
@@ -148,10 +148,8 @@ def torus(obj, display, theta0=0., thetaarc=2*np.pi, phi0=0., phiarc=np.pi * 2):
     out['material'] = 'MeshStandardMaterial'
     out['materialproperties'] = threejs.materialdict(display, out['material'])
     out['geometry'] = 'ModifiedTorusBufferGeometry'
-    out['geometrypars'] = (obj.R, obj.r,
-                           int(np.rad2deg(theta[1])), int(np.rad2deg(phi[1])),
-                           theta[1], theta[0], phi[1], phi[0])
-    out['pos4d'] = [obj.pos4d.flatten().tolist()]
+    out['geometrypars'] = threejs.torusparameters(obj, theta, phi)
+    out['pos4d'] = [obj.pos4d.T.flatten().tolist()]
 
     if not ('side' in display):
         out['materialproperties']['side'] = 2
-- 
2.43.0


From b723e847f204053270ae0f45f4e3d3b6124533e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:40 +0000
Subject: [PATCH 44/65] fix: EfficiencyFile works with energies that have no
 efficiency and with a single energy

---
 marxs/optics/grating.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/marxs/optics/grating.py b/marxs/optics/grating.py
index 4b66c0d..0b6b89c 100644
--- a/marxs/optics/grating.py
+++ b/marxs/optics/grating.py
@@ -76,7 +76,7 @@ class EfficiencyFile(object):
 
     '''
     def __init__(self, filename, orders):
-        dat = np.loadtxt(filename)
+        dat = np.loadtxt(filename, ndmin=2)
         self.energy = dat[:, 0]
         if len(orders) != (dat.shape[1] - 1):
             raise ValueError('orders has len={0}, but data files has {1} order columns.'.format(len(orders), dat.shape[1] - 1))
@@ -85,14 +85,19 @@ class EfficiencyFile(object):
         # Probability to end up in any order
         self.totalprob = np.sum(self.prob, axis=1)
         # Cumulative probability for orders, normalized to 1.
-        self.cumprob = np.cumsum(self.prob, axis=1) / self.totalprob[:, None]
+        # If all probabilities are 0, the order does not matter.
+        self.cumprob = np.cumsum(self.prob, axis=1)
+        norm = self.cumprob[:, -1:]
+        self.cumprob /= np.where(norm > 0, norm, 1)
 
     def __call__(self, energies, *args):
         orderind = np.empty(len(energies), dtype=int)
         ind = np.empty(len(energies), dtype=int)
         for i, e in enumerate(energies):
             ind[i] = np.argmin(np.abs(self.energy - e))
-            orderind[i] = np.min(np.nonzero(self.cumprob[ind[i]] > np.random.rand()))
+            orderind[i] = np.searchsorted(self.cumprob[ind[i]], np.random.rand(), side='right')
+        # Rows with zero probability
+        orderind = np.minimum(orderind, len(self.orders) - 1)
         return self.orders[orderind], self.totalprob[ind]
 
 
-- 
2.43.0


From e52d617593338a3b35a83f50d6ab0c3c65dda265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:59 +0000
Subject: [PATCH 45/65] fix: PerfectLens gives undeflected photons a finite
 reflection angle

Rounding can bring the product of the two unit direction vectors slightly
above 1, so arccos returned NaN and with it the probability of the photon.
---
 marxs/optics/mirror.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/marxs/optics/mirror.py b/marxs/optics/mirror.py
index 0426047..9008e7e 100644
--- a/marxs/optics/mirror.py
+++ b/marxs/optics/mirror.py
@@ -65,11 +65,18 @@ class PerfectLens(FlatOpticalElement):
             dir,
             photons["polarization"].data[intersect, :],
         )
+        # Rounding can bring the product of two unit vectors just above 1
         angle = np.arccos(
-            np.abs(
-                np.einsum(
-                    "ij,ij->i", h2e(dir), norm_vector(h2e(photons["dir"][intersect]))
-                )
+            np.clip(
+                np.abs(
+                    np.einsum(
+                        "ij,ij->i",
+                        h2e(dir),
+                        norm_vector(h2e(photons["dir"][intersect])),
+                    )
+                ),
+                0,
+                1,
             )
         )
         return {
-- 
2.43.0


From c20a2ab2340b339c2d65623e9a9fa6ddca1ff108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:59 +0000
Subject: [PATCH 46/65] fix: L2Abs gives photons at normal incidence a finite
 probability

Rounding can bring the product of direction and surface normal slightly
above 1, so arccos returned NaN and with it the probability of the photon.
---
 marxs/missions/mitsnl/catgrating.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marxs/missions/mitsnl/catgrating.py b/marxs/missions/mitsnl/catgrating.py
index 414e64c..bebdde9 100644
--- a/marxs/missions/mitsnl/catgrating.py
+++ b/marxs/missions/mitsnl/catgrating.py
@@ -242,7 +242,8 @@ class L2Abs(FlatOpticalElement):
 
         p3 = norm_vector(photons['dir'].data[intersect])
         ex, ey, en = self.geometry.get_local_euklid_bases(intercoos[intersect, :])
-        angle = np.arccos(np.abs(np.einsum("ij,ij->i", p3, en)))
+        # Rounding can bring the product of two unit vectors just above 1
+        angle = np.arccos(np.clip(np.abs(np.einsum("ij,ij->i", p3, en)), 0, 1))
 
         # fractional area NOT covered by the hexagon structure
         openfraction = (self.innerfree / self.period)**2
-- 
2.43.0


From 12116ff3273815965466b04460ae57f849b15b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:14 +0000
Subject: [PATCH 47/65] fix: RadialMirrorScatter scatters photons in its center
 into a finite direction

The plane of reflection is not defined for a photon that hits the exact
center of the element (e.g. an on-axis ray after a lens); the rotation axis
was a null vector and direction and polarization of that photon were NaN.
---
 marxs/optics/scatter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/marxs/optics/scatter.py b/marxs/optics/scatter.py
index 8b06881..4ebe53a 100644
--- a/marxs/optics/scatter.py
+++ b/marxs/optics/scatter.py
@@ -54,6 +54,11 @@ class RadialMirrorScatter(FlatOpticalElement):
         center = self.pos4d[:-1, -1]
         radial = h2e(photons['pos'][intersect].data) - center
         perpplane = np.cross(h2e(photons['dir'][intersect].data), radial)
+        # For a photon in the center every plane is as good as any other
+        incenter = np.linalg.norm(perpplane, axis=1) == 0
+        if incenter.any():
+            radial[incenter] = self.geometry['e_y'][:3]
+            perpplane = np.cross(h2e(photons['dir'][intersect].data), radial)
 
         # np.random.normal does not work with scale=0
         # so special case that here.
-- 
2.43.0


From 6ce5ca0c4e14a4bce606b4ead66e0a2002228bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:50 +0000
Subject: [PATCH 48/65] fix: ThinLens works as a layer of a FlatStack behind
 another layer

ThinLens looked for the intersection a second time. Photons that are on the
plane of the lens already, because an earlier layer of the stack put them
there, were found or missed depending on rounding; those missed got NaN
position, direction and polarization (about half of all photons).
---
 marxs/optics/mirror.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/marxs/optics/mirror.py b/marxs/optics/mirror.py
index 9008e7e..26dc413 100644
--- a/marxs/optics/mirror.py
+++ b/marxs/optics/mirror.py
@@ -135,7 +135,11 @@ class ThinLens(FlatOpticalElement):
         super().__init__(**kwargs)
 
     def process_photon(self, dir, pos, energy, polarization):
-        intersect, h_intersect, loc_inter = self.geometry.intersect(dir, pos)
+        # Find the point on the plane of the lens without checking again that the
+        # ray moves forward: In a stack, photons are on the plane already and
+        # rounding decides if they would have to move forward or backward.
+        h_intersect = pos + dir * (np.dot(self.geometry['center'] - pos, self.geometry['e_x']) /
+                                   np.dot(dir, self.geometry['e_x']))
         distance = distance_point_point(h_intersect,
                                         self.geometry['center'][np.newaxis, :])
         if distance == 0.:
-- 
2.43.0


From 90b182713040423c097a6f2358e667f133f4c7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:50 +0000
Subject: [PATCH 49/65] fix: ThinLens passes photons through its center at
 normal incidence undeflected

The distance from the center of such a photon is not exactly 0 if the
position of the intersection is rounded, but the rotation axis was a null
vector, so direction and polarization of the photon were NaN.
---
 marxs/optics/mirror.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/optics/mirror.py b/marxs/optics/mirror.py
index 26dc413..b3ace58 100644
--- a/marxs/optics/mirror.py
+++ b/marxs/optics/mirror.py
@@ -142,14 +142,14 @@ class ThinLens(FlatOpticalElement):
                                    np.dot(dir, self.geometry['e_x']))
         distance = distance_point_point(h_intersect,
                                         self.geometry['center'][np.newaxis, :])
-        if distance == 0.:
+        e_rotation_axis = np.cross(dir[:3], (h_intersect - self.geometry['center'])[:3])
+        if np.linalg.norm(e_rotation_axis) == 0.:
             # No change of direction for rays through the origin.
             # Need to special case this, because rotation axis is not defined
             # in this case.
             new_ray_dir = h2e(dir)
         else:
             delta_angle = -distance / self.focallength
-            e_rotation_axis = np.cross(dir[:3], (h_intersect - self.geometry['center'])[:3])
             # This is the first step that cannot be done on a stack of photons
             # Could have a for "i in photons", but might come up with better way
             rot = axangle2mat(e_rotation_axis, delta_angle)
-- 
2.43.0


From c10504b6ff78886c3567c3cc2164390f0f009b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:29 +0000
Subject: [PATCH 50/65] fix: Baffle in a FlatStack stops photons also if all
 photons miss

The stack skipped its layers if no photon intersected it, so a photon that
misses the hole of the baffle was stopped or not depending on the other
photons in the list.
---
 marxs/optics/base.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/marxs/optics/base.py b/marxs/optics/base.py
index 29050d0..d58e086 100644
--- a/marxs/optics/base.py
+++ b/marxs/optics/base.py
@@ -268,15 +268,16 @@ class FlatStack(FlatOpticalElement, BaseContainer):
             (y,z) system of the grating.
 
         '''
-        if intersect.sum() > 0:
-            # This line calls FlatOpticalElement.process_photons to add ID cols
-            # and local coos if requested (this could also be done by any of
-            # the contained sequence elements, but we want the user to be able
-            # to specify that for either of them).
-            photons = super().process_photons(photons, intersect, interpos,
-                                              intercoos)
-            for e in self.elements:
-                photons = e.process_photons(photons, intersect, interpos, intercoos)
+        # This line calls FlatOpticalElement.process_photons to add ID cols
+        # and local coos if requested (this could also be done by any of
+        # the contained sequence elements, but we want the user to be able
+        # to specify that for either of them).
+        photons = super().process_photons(photons, intersect, interpos,
+                                          intercoos)
+        # Elements decide for themselves what to do if no photon intersects,
+        # e.g. a baffle acts on the photons that do not intersect.
+        for e in self.elements:
+            photons = e.process_photons(photons, intersect, interpos, intercoos)
 
         return photons
 
-- 
2.43.0


From dfdf6c3335ad66055b6657a9508872931d5ddcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:21 +0000
Subject: [PATCH 51/65] fix: Rods of the Arcus boom are cylinders along their
 x-axis

Rod documents that the cylinder axis is its x-axis (x-zoom is half the
length), but the axis of the Cylinder geometry is the z-axis, so each rod was
a wide, flat elliptical ring and the boom absorbed the wrong photons.
---
 marxs/missions/arcus/boom.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/marxs/missions/arcus/boom.py b/marxs/missions/arcus/boom.py
index f8a8204..c19ae20 100644
--- a/marxs/missions/arcus/boom.py
+++ b/marxs/missions/arcus/boom.py
@@ -3,6 +3,7 @@ import numpy as np
 
 from transforms3d.euler import euler2mat
 from transforms3d.affines import compose
+from marxs.base import _parse_position_keywords
 from marxs.optics import OpticalElement
 from marxs.simulator import Parallel
 from marxs.math.geometry import Cylinder
@@ -13,10 +14,19 @@ class Rod(OpticalElement):
     y zoom and z zoom have to be the same (no elliptical cylinders)
     '''
     outcol = 'hitrod'
-    display = {'shape': 'cylinder', 'color': 'black'}
+    display = {'shape': 'surface', 'color': 'black'}
 
     default_geometry = Cylinder
 
+    def __init__(self, **kwargs):
+        # The axis of the Cylinder geometry is its z-axis
+        x2z = np.array([[0., 0., 1., 0.],
+                        [1., 0., 0., 0.],
+                        [0., 1., 0., 0.],
+                        [0., 0., 0., 1.]])
+        pos4d = _parse_position_keywords(kwargs) @ x2z
+        super().__init__(pos4d=pos4d, **kwargs)
+
     def process_photons(self, photons, intersect, interpos, intercoos):
         if self.outcol not in photons.colnames:
             photons[self.outcol] = False
-- 
2.43.0


From e4cb54d08eb6755114ccbd9bf58c3594ee6413b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:11 +0000
Subject: [PATCH 52/65] fix: ACIS accepts detector offsets and other keywords

---
 marxs/missions/chandra/det_acis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/missions/chandra/det_acis.py b/marxs/missions/chandra/det_acis.py
index 19d940b..ee443ba 100644
--- a/marxs/missions/chandra/det_acis.py
+++ b/marxs/missions/chandra/det_acis.py
@@ -83,9 +83,9 @@ class ACIS(Parallel):
         # This stuff is Chandra specific, but applies to HRC, too.
         # Move to a more general class, once the HRC gets implemented.
         self.aimpoint = kwargs.pop('aimpoint')
-        self.detoffset = np.array([kwargs.pop(['DetOffsetX'], 0),
+        self.detoffset = np.array([kwargs.pop('DetOffsetX', 0),
                                     0,
-                                    kwargs.pop(['DetOffsetY'], 0)])
+                                    kwargs.pop('DetOffsetY', 0)])
         # Now the ACIS specific case
         kwargs['elem_pos'] = self.calculate_elempos()
         kwargs['elem_class'] = ACISChip
-- 
2.43.0


From 2fbcce7a879233a71be11efc43a75268dcb16445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:02 +0000
Subject: [PATCH 53/65] fix: Chandra detector, event and aspect files work for
 photon lists read from a file

---
 marxs/missions/chandra/det_acis.py    |  3 ++-
 marxs/missions/chandra/dither.py      |  6 +++---
 marxs/missions/chandra/fitsheaders.py | 22 ++++++++++++++++------
 3 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/marxs/missions/chandra/det_acis.py b/marxs/missions/chandra/det_acis.py
index ee443ba..659d00f 100644
--- a/marxs/missions/chandra/det_acis.py
+++ b/marxs/missions/chandra/det_acis.py
@@ -9,6 +9,7 @@ from ...math.utils import h2e
 
 from .data import (NOMINAL_FOCALLENGTH, AIMPOINTS, TDET, ODET, PIXSIZE,
                    PIX_CORNER_LSI_PAR, chip2tdet)
+from .fitsheaders import header_value
 
 
 ACIS_name = ['I0', 'I1', 'I2', 'I3', 'S0', 'S1', 'S2', 'S3', 'S4', 'S5']
@@ -44,7 +45,7 @@ class ACISChip(FlatDetector):
         y = mn[:, 2] / mn[:, 0] / self.pixsize_in_rad
         detx = self.ODET[0] - x
         dety = self.ODET[1] + y
-        theta = np.deg2rad(photons.meta['ROLL_PNT'][0])
+        theta = np.deg2rad(header_value(photons.meta, 'ROLL_PNT'))
         skyx = self.ODET[0] - x * np.cos(theta) + y * np.sin(theta)
         skyy = self.ODET[1] + x * np.sin(theta) + y * np.cos(theta)
 
diff --git a/marxs/missions/chandra/dither.py b/marxs/missions/chandra/dither.py
index 058da2f..2afa29c 100644
--- a/marxs/missions/chandra/dither.py
+++ b/marxs/missions/chandra/dither.py
@@ -11,7 +11,7 @@ from transforms3d.quaternions import mat2quat
 from transforms3d.axangles import axangle2mat
 
 from ...source import FixedPointing
-from .fitsheaders import complete_header
+from .fitsheaders import complete_header, header_value
 
 class LissajousDither(FixedPointing):
     '''Lissajous dither pattern with adjustable parameters.
@@ -168,7 +168,7 @@ class LissajousDither(FixedPointing):
             Time step between entries in the asol file in seconds.
 
         '''
-        time = np.arange(0, photons.meta['EXPOSURE'][0], timestep)
+        time = np.arange(0, header_value(photons.meta, 'EXPOSURE'), timestep)
         pointing = np.rad2deg(self.pointing(time))
         asol = Table([time, pointing[:, 0], pointing[:, 1], pointing[:, 2]],
                      names=['time', 'ra', 'dec', 'roll'],
@@ -201,7 +201,7 @@ class LissajousDither(FixedPointing):
         complete_header(asol.meta, None, 'ACASOL', ['OGIP', 'TEMPORALDATA', 'ASPECT'])
         # In MARXS t=0 is the start of the observation, but for Chandra we need to make that
         # consistent with the value of the TSTART keyword.
-        asol['time'] += asol.meta['TSTART'][0]
+        asol['time'] += header_value(asol.meta, 'TSTART')
         asol.write(asolfile, format='fits')  # , checksum=True) - works only with fits interface
 
 
diff --git a/marxs/missions/chandra/fitsheaders.py b/marxs/missions/chandra/fitsheaders.py
index f4d23b5..5394f52 100644
--- a/marxs/missions/chandra/fitsheaders.py
+++ b/marxs/missions/chandra/fitsheaders.py
@@ -9,6 +9,16 @@ import astropy.units as u
 from ... import __version__
 from .data import TLMINMAX, PIXSIZE, NOMINAL_FOCALLENGTH, ODET
 
+def header_value(header, key):
+    '''Value of a header keyword, which can be a (value, comment) tuple or just a value.
+
+    Keywords are set as (value, comment) in a simulation, but have only a value
+    when the photon list has been read back from a file.
+    '''
+    val = header[key]
+    return val[0] if isinstance(val, (tuple, list)) else val
+
+
 def update_header(header, h):
     for elem in h:
         if elem[0] not in header:
@@ -31,7 +41,7 @@ def complete_T(header):
     '''Timing component'''
     now = time.Time.now()
     now.format = 'fits'
-    nowexp = now + header['EXPOSURE'][0] * u.s
+    nowexp = now + header_value(header, 'EXPOSURE') * u.s
     h = [
         ('DATE', (now.value[:23], 'Date and time of file creation {0}'.format(now.value[23:]))),
         ('DATE-OBS', (now.value[:23], 'TT with clock correction if CLOCKAPP')),
@@ -56,10 +66,10 @@ def complete_T(header):
     update_header(header, h)
     # The following keywords depend on the DATE-OBS found in the header, which may differ from
     # the number calculated above, if it was set to a specific date previously.
-    tstart = time.Time(header['DATE-OBS'][0], format='fits')
+    tstart = time.Time(header_value(header, 'DATE-OBS'), format='fits')
     tstart.format = 'cxcsec'
     header["TSTART"] = (tstart.value, "As in the TIME column: raw space craft clock;")
-    header['TSTOP'] = ((tstart + header['EXPOSURE'][0] * u.s).value, "  add TIMEZERO and MJDREF for absolute TT")
+    header['TSTOP'] = ((tstart + header_value(header, 'EXPOSURE') * u.s).value, "  add TIMEZERO and MJDREF for absolute TT")
     header['OBS-MJD'] = tstart.mjd
 
 
@@ -69,9 +79,9 @@ def complete_O(header):
          ("TELESCOP", ("CHANDRA", "TELESCOPE is Chandra")),
          ("GRATING", ("NONE", "Grating")),
          ('DATACLASS', ('SIMULATED', 'see http://marxs.rtfd.org')),
-         ('ONTIME', (header['EXPOSURE'][0], 'Sum of GTIs')),
+         ('ONTIME', (header_value(header, 'EXPOSURE'), 'Sum of GTIs')),
          ('DTCOR', (1., 'Dead Time Correction')),
-         ('LIVETIME', (header['EXPOSURE'][0], 'Ontime multiplied by DTCOR')),
+         ('LIVETIME', (header_value(header, 'EXPOSURE'), 'Ontime multiplied by DTCOR')),
          ('OBSERVER', ('MARXS', 'This is a simulation.')),
          ('FOC_LEN', (NOMINAL_FOCALLENGTH, 'Assumed focal length')),
          ]
@@ -90,7 +100,7 @@ def add_evt_column_header(header, data):
     for k in header.iterkeys():
         if k[:5] in ['TCTYP', 'TCRVL', 'TCDLT', 'TCRPX', 'TLMIN', 'TLMAX']:
             del header[k]
-    instr = header['INSTRUME'][0]
+    instr = header_value(header, 'INSTRUME')
     if instr not in TLMINMAX.keys():
         raise KeyError('TLMIN and TLMAX not specified for detector {0}'.format(instr))
     colnamesup = [c.upper() for c in data.colnames]
-- 
2.43.0


From 45fbc84d450fbc9ce42c3525d8f9a5b851d05207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:41 +0000
Subject: [PATCH 54/65] fix: Chandra event files can be written with a complete
 header

---
 marxs/missions/chandra/chandra_global.py |  2 ++
 marxs/missions/chandra/fitsheaders.py    | 11 ++++++-----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/marxs/missions/chandra/chandra_global.py b/marxs/missions/chandra/chandra_global.py
index aa76937..7b3aa30 100644
--- a/marxs/missions/chandra/chandra_global.py
+++ b/marxs/missions/chandra/chandra_global.py
@@ -30,6 +30,8 @@ class Chandra(Sequence):
         filename : string
             Path and file name where the file is saved.
         '''
+        # The changes below are for the file only.
+        photons = photons.copy()
         photons.meta['EXTNAME'] = 'EVENTS'
         # rename RA, DEC columns - otherwise CIAO tasks will be confused.
         photons.rename_column('ra', 'marxs_ra')
diff --git a/marxs/missions/chandra/fitsheaders.py b/marxs/missions/chandra/fitsheaders.py
index 5394f52..ac9d402 100644
--- a/marxs/missions/chandra/fitsheaders.py
+++ b/marxs/missions/chandra/fitsheaders.py
@@ -78,13 +78,14 @@ def complete_O(header):
     h = [("MISSION", ( "AXAF", "Mission is AXAF")),
          ("TELESCOP", ("CHANDRA", "TELESCOPE is Chandra")),
          ("GRATING", ("NONE", "Grating")),
-         ('DATACLASS', ('SIMULATED', 'see http://marxs.rtfd.org')),
+         ('DATACLAS', ('SIMULATED', 'see http://marxs.rtfd.org')),
          ('ONTIME', (header_value(header, 'EXPOSURE'), 'Sum of GTIs')),
          ('DTCOR', (1., 'Dead Time Correction')),
          ('LIVETIME', (header_value(header, 'EXPOSURE'), 'Ontime multiplied by DTCOR')),
          ('OBSERVER', ('MARXS', 'This is a simulation.')),
          ('FOC_LEN', (NOMINAL_FOCALLENGTH, 'Assumed focal length')),
          ]
+    update_header(header, h)
 
 
 DMKEYWORDS = [('MTYPE1', 'chip'), ('MFORM1', 'chipx,chipy'),
@@ -97,7 +98,7 @@ DMKEYWORDS = [('MTYPE1', 'chip'), ('MFORM1', 'chipx,chipy'),
 def add_evt_column_header(header, data):
     '''Add CIAO keywords to header of an eventfile.'''
     # Clean out column related keywords that may not be valid any longer.
-    for k in header.iterkeys():
+    for k in list(header.keys()):
         if k[:5] in ['TCTYP', 'TCRVL', 'TCDLT', 'TCRPX', 'TLMIN', 'TLMAX']:
             del header[k]
     instr = header_value(header, 'INSTRUME')
@@ -122,7 +123,7 @@ def add_evt_column_header(header, data):
     header['TCDLT{0}'.format(indx)] = -PIXSIZE[instr]  # - because RA increases to left
     header['TCRPX{0}'.format(indx)] = odet[0]
     indy = colnamesup.index('Y') + 1
-    header['TCTYP{0}'.format(indy)] = 'DEC---TAN'
+    header['TCTYP{0}'.format(indy)] = 'DEC--TAN'
     header['TCRVL{0}'.format(indy)] = header['DEC_PNT']
     header['TCDLT{0}'.format(indy)] = PIXSIZE[instr]
     header['TCRPX{0}'.format(indy)] = odet[1]
@@ -201,7 +202,7 @@ def sort_columns(photons):
             endxy_ordered.append(endxy.pop(index))
             endxy_l.pop(index)   # Keep endxy_l to have the same order as endxy
 
-    endxy_ordered.extend(endxy)  # Add additional cols not part of the required order.
+    endxy_ordered.extend(sorted(endxy))  # Add additional cols not part of the required order.
 
     ordered_cols = []
     for c in endxy_ordered:
@@ -218,4 +219,4 @@ def sort_columns(photons):
     othercol = list(othercol)
     othercol.sort()
     ordered_cols.extend(othercol)
-    return photons(ordered_cols)
+    return photons[ordered_cols]
-- 
2.43.0


From b529f34b1ba4116fc974480092718ee31945e04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:41 +0000
Subject: [PATCH 55/65] fix: ACIS sets the header keywords of the instrument

---
 marxs/missions/chandra/det_acis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/missions/chandra/det_acis.py b/marxs/missions/chandra/det_acis.py
index 659d00f..d92e429 100644
--- a/marxs/missions/chandra/det_acis.py
+++ b/marxs/missions/chandra/det_acis.py
@@ -150,8 +150,8 @@ class ACIS(Parallel):
             pos4d.append(A)
         return pos4d
 
-    def process_photons(self, photons, *args, **kwargs):
-        photons = super().process_photons(photons, *args, **kwargs)
+    def __call__(self, photons, *args, **kwargs):
+        photons = super().__call__(photons, *args, **kwargs)
         photons.meta['SIM_X'] = self.aimpoint[0] - self.detoffset[0]
         photons.meta['SIM_Y'] = self.aimpoint[1] - self.detoffset[1]
         photons.meta['SIM_Z'] = self.aimpoint[2] - self.detoffset[2]
-- 
2.43.0


From a716fe134945bb1403027b7a012ddb95aef84bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:41 +0000
Subject: [PATCH 56/65] fix: ACIS keeps the selection of chips when elements
 are generated again

---
 marxs/missions/chandra/det_acis.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/marxs/missions/chandra/det_acis.py b/marxs/missions/chandra/det_acis.py
index d92e429..fb58638 100644
--- a/marxs/missions/chandra/det_acis.py
+++ b/marxs/missions/chandra/det_acis.py
@@ -93,9 +93,12 @@ class ACIS(Parallel):
         # Use 0.024 because that's more consistent with 1024 pix
         kwargs['elem_args'] = {'pixsize': 0.024 } # {'pixsize': 0.023985 }
 
-        super().__init__(**kwargs)
         self.chips = chips
-        self.elements = [self.elements[i] for i in chips]
+        super().__init__(**kwargs)
+
+    def generate_elements(self):
+        super().generate_elements()
+        self.elements = [self.elements[i] for i in self.chips]
 
     def get_corners(self):
         '''Get the coordinates of the ACIS pixel corners.
-- 
2.43.0


From da2043f28d3e4890a8ce46a86b2a9745a6f3d01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:53 +0000
Subject: [PATCH 57/65] fix: Chandra event files contain the WCS of the sky
 coordinates

---
 marxs/missions/chandra/chandra_global.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/marxs/missions/chandra/chandra_global.py b/marxs/missions/chandra/chandra_global.py
index 7b3aa30..82f5048 100644
--- a/marxs/missions/chandra/chandra_global.py
+++ b/marxs/missions/chandra/chandra_global.py
@@ -1,6 +1,10 @@
 # Licensed under GPL version 3 - see LICENSE.rst
 
+import warnings
+
 import numpy as np
+from astropy.io import fits
+from astropy.utils.exceptions import AstropyUserWarning
 
 from .fitsheaders import complete_header
 from ...simulator import Sequence
@@ -37,5 +41,13 @@ class Chandra(Sequence):
         photons.rename_column('ra', 'marxs_ra')
         photons.rename_column('dec', 'marxs_dec')
         complete_header(photons.meta, photons, 'EVT1', ['OGIP', 'EVENTS', 'ALL'])
-        photons.write(filename, format='fits')
+        # astropy does not take the keywords of the WCS from the meta of a table
+        with warnings.catch_warnings():
+            warnings.filterwarnings('ignore', message='Meta-data keyword TC',
+                                    category=AstropyUserWarning)
+            hdu = fits.table_to_hdu(photons)
+        for k in photons.meta:
+            if k[:5] in ['TCTYP', 'TCRVL', 'TCDLT', 'TCRPX']:
+                hdu.header[k] = photons.meta[k]
+        fits.HDUList([fits.PrimaryHDU(), hdu]).writeto(filename)
         # add_GTIs(filename)
-- 
2.43.0


From 5089d5c976b50959842d436b4d8b7cb6aa9325c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:10 +0000
Subject: [PATCH 58/65] fix: wiggle and moveindividual work if only some of the
 elements are in use

---
 marxs/design/tolerancing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/design/tolerancing.py b/marxs/design/tolerancing.py
index 7ee371e..d23f3d7 100644
--- a/marxs/design/tolerancing.py
+++ b/marxs/design/tolerancing.py
@@ -56,7 +56,7 @@ def wiggle(e, dx=0, dy=0, dz=0, rx=0., ry=0., rz=0.):
         accuracy of positioning. Rotation around x, y, z (in rad) - Gaussian
         sigma, not FWHM!
     '''
-    e.elem_uncertainty = genfacun(len(e.elements), [dx, dy, dz], [rx, ry, rz])
+    e.elem_uncertainty = genfacun(len(e.elem_pos), [dx, dy, dz], [rx, ry, rz])
     e.generate_elements()
 
 
@@ -100,7 +100,7 @@ def moveindividual(e, dx=0, dy=0, dz=0, rx=0, ry=0, rz=0):
     '''
     e.elem_uncertainty = [affines.compose((dx, dy, dz),
                                           euler.euler2mat(rx, ry, rz, 'sxyz'),
-                                          np.ones(3)) for _ in e.elements]
+                                          np.ones(3)) for _ in e.elem_pos]
     e.generate_elements()
 
 
-- 
2.43.0


From f3509f090408c3a697253797fadc9bff8c165dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:07 +0000
Subject: [PATCH 59/65] fix: Lynx can be built

The arguments of the grating and detector arrays on the Rowland torus have
changed; use them in the same way as AXIS does. The detectors get their own
identifier, because they would overwrite that of the gratings otherwise.
---
 marxs/missions/lynx/lynx.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/marxs/missions/lynx/lynx.py b/marxs/missions/lynx/lynx.py
index d6f76fc..8b1ac96 100644
--- a/marxs/missions/lynx/lynx.py
+++ b/marxs/missions/lynx/lynx.py
@@ -65,7 +65,7 @@ conf = {'metashellgeometry': Table.read(get_pkg_data_filename('data/metashellgeo
                                      'pixsize': 0.016}},
         'gas_kwargs': {'parallel_spec': np.array([0., 1., 0., 0.]),
                        'normal_spec': np.array([0, 0, 0, 1]),
-                       'x_range': [7e3, 1e4],
+                       'guess_distance': 9e3,
                        'elem_class': CATL1L2Stack,
                        'elem_args': {'d': 2e-4,
                                      'order_selector': ralfgrating.order_selector_Si,
@@ -133,8 +133,14 @@ class LynxGAS(CircularMeshGrid):
 
 class RowlandDetArray(design.rowland.RectangularGrid):
     def __init__(self, conf):
-        super(RowlandDetArray, self).__init__(conf['rowland'], **conf['det_kwargs'],
-                                              guess_distance=25.)
+        y_offset = conf['rowland'].geometry['center'][1]
+        super().__init__(rowland=conf['rowland'],
+                         y_range=np.array(conf['det_kwargs']['y_range']) - y_offset,
+                         d_element=conf['det_kwargs']['d_element'],
+                         elem_args=conf['det_kwargs']['elem_args'],
+                         elem_class=conf['det_kwargs']['elem_class'],
+                         guess_distance=25.,
+                         id_col='CCD_ID')
 
 
 # Place an additional detector on the Rowland circle.
-- 
2.43.0


From f72aa19f9d0d931b55c1e49633303672cc7f39ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:07 +0000
Subject: [PATCH 60/65] fix: Lynx uses the efficiency of the shell that a
 photon goes through

A MultiAperture numbers its elements, so that photons in the innermost shell
were not scaled at all and the others with the efficiency of the next smaller shell.
---
 marxs/missions/lynx/mirror.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marxs/missions/lynx/mirror.py b/marxs/missions/lynx/mirror.py
index 68879a7..b6eda44 100644
--- a/marxs/missions/lynx/mirror.py
+++ b/marxs/missions/lynx/mirror.py
@@ -20,6 +20,8 @@ class MetaShellAperture(optics.MultiAperture):
                     for shell in metashellgeometry]
         kwargs['elements'] = elements
         kwargs['id_col'] = 'shell'
+        # The aperture numbers its elements consecutively
+        kwargs['id_num_offset'] = metashellgeometry['Metashell Serial Number'][0]
         super().__init__(**kwargs)
         disp = {'color': (0.0, 0.75, 0.75),
                 'opacity': 0.3,
-- 
2.43.0


From 810d6b10ceeb05d3486ceaa47c0038fe8f660de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:28 +0000
Subject: [PATCH 61/65] fix: Lynx mirror accepts an empty photon list

---
 marxs/missions/lynx/mirror.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marxs/missions/lynx/mirror.py b/marxs/missions/lynx/mirror.py
index b6eda44..aa049a4 100644
--- a/marxs/missions/lynx/mirror.py
+++ b/marxs/missions/lynx/mirror.py
@@ -67,6 +67,9 @@ class MetaShellEfficiency(SimulationSequenceElement):
                        for i in data['Metashell Serial Number']]
 
     def __call__(self, photons):
+        # The column "shell" is only there if there are photons
+        if len(photons) == 0:
+            return photons
         for i, func in self.shells:
             ind = photons['shell'] == i
             prob = func(photons['energy'][ind])
-- 
2.43.0


From eb2c12d10e6d87f1efac84e76d12e6a113dcf3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:37 +0000
Subject: [PATCH 62/65] fix: SPO mirrors add their column even if no photon
 hits

---
 marxs/missions/athena/spo.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/marxs/missions/athena/spo.py b/marxs/missions/athena/spo.py
index 2fb21a5..6210445 100644
--- a/marxs/missions/athena/spo.py
+++ b/marxs/missions/athena/spo.py
@@ -84,6 +84,12 @@ class SPOChannelMirror(Parallel):
         kwargs['id_col'] = 'xou'
         super().__init__(**kwargs)
 
+    def __call__(self, photons):
+        photons = super().__call__(photons)
+        # The elements that follow need the "xou" column, even if no photon hits
+        self.add_output_cols(photons)
+        return photons
+
 
 geometricthroughput = GlobalEnergyFilter(filterfunc=lambda e: 0.92609,
                                          name='SPOgeometricthrougput')
-- 
2.43.0


From d8acb70e1fb67e36c6ee168a981099ea7bbc0b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:50 +0000
Subject: [PATCH 63/65] fix: scatter on SPO mirrors reports where photons are
 scattered

---
 marxs/missions/athena/spo.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/marxs/missions/athena/spo.py b/marxs/missions/athena/spo.py
index 6210445..ea38ec6 100644
--- a/marxs/missions/athena/spo.py
+++ b/marxs/missions/athena/spo.py
@@ -10,7 +10,7 @@ from scipy.interpolate import interp1d
 from marxs.optics import PerfectLens, GlobalEnergyFilter, RadialMirrorScatter
 from marxs.optics.aperture import CircleAperture
 from marxs.simulator import Parallel, Sequence
-from marxs.math.utils import xyz2zxy
+from marxs.math.utils import h2e, xyz2zxy
 
 __all__ = [
     "aperture",
@@ -131,11 +131,11 @@ class ScatterPerChannel(RadialMirrorScatter):
         super().__init__(**kwargs)
 
     def __call__(self, photons):
-        # interpos is used to automatically set new position
-        # (which we want unaltered, thus we pass pos) and local coords
+        # Photons are already at the mirror, so their position is unaltered,
         # but intercoos we want to set to a useful number for analysis later
-        intersect, interpos, intercoos = self.geometry.intersect(photons['dir'].data,
-                                                                 photons['pos'].data)
+        vec = h2e(photons['pos'].data) - h2e(self.geometry['center'])
+        intercoos = np.stack([vec @ h2e(self.geometry['e_y']),
+                              vec @ h2e(self.geometry['e_z'])], axis=1)
         # intersect is done based on xou to avoid problem of overlap
         # between channels
         intersect = ((photons['xou'] >= self.min_id) &
-- 
2.43.0


From 0b10280634ef09c7da8bfb873fe03b472b577dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:42 +0000
Subject: [PATCH 64/65] fix: zero-order detectors of AXIS and Athena report
 pixels in their own columns

---
 marxs/missions/AXIS/AXIS.py      | 4 ++--
 marxs/missions/athena/athecat.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/marxs/missions/AXIS/AXIS.py b/marxs/missions/AXIS/AXIS.py
index dfe05b5..a083c78 100644
--- a/marxs/missions/AXIS/AXIS.py
+++ b/marxs/missions/AXIS/AXIS.py
@@ -127,7 +127,7 @@ class RowlandDetArray(design.rowland.RectangularGrid):
 imaging = FlatDetector(zoom=[1, 15, 15], pixsize=0.008)
 # zero-order detector based on https://axis.astro.umd.edu/images/proposal.pdf
 imaging.loc_coos_name = ['imaging_x', 'imaging_y']
-imaging.detpix_name = ['imaging_x', 'imaging_y']
+imaging.detpix_name = ['imagingpix_x', 'imagingpix_y']
 
 
 # Place an additional detector on the Rowland circle.
@@ -215,7 +215,7 @@ class AXISForPlot(PerfectAXIS):
     def add_detectors(self, conf):
         zero = FlatDetector(zoom=[1, 15, 15])
         zero.loc_coos_name = ['zero_x', 'zero_y']
-        zero.detpix_name = ['zero_x', 'zero_y']
+        zero.detpix_name = ['zeropix_x', 'zeropix_y']
         return [RowlandDetArray(conf),
                 imaging]
 
diff --git a/marxs/missions/athena/athecat.py b/marxs/missions/athena/athecat.py
index 248148a..acb37d2 100644
--- a/marxs/missions/athena/athecat.py
+++ b/marxs/missions/athena/athecat.py
@@ -173,7 +173,7 @@ flatdet.display['shape'] = 'None'
 zero = optics.FlatDetector(orientation=xyz2zxy[:3, :3], zoom=[1, 15, 15], pixsize=0.008)
 # zero-order detector based on AXIS, need to adjust for Athena
 zero.loc_coos_name = ['zero_x', 'zero_y']
-zero.detpix_name = ['zero_x', 'zero_y']
+zero.detpix_name = ['zeropix_x', 'zeropix_y']
 
 class PerfectAthecat(simulator.Sequence):
     '''Default Definition of Athena with CAT gratings without any misalignments'''
-- 
2.43.0


From 97a493b0932467f8de9bd5d4cfd9829ea2444bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:36 +0000
Subject: [PATCH 65/65] fix: make_rmf works for line spread functions tabulated
 for several extraction widths

---
 marxs/reduction/lsfparm.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/marxs/reduction/lsfparm.py b/marxs/reduction/lsfparm.py
index 7bd0223..a858673 100644
--- a/marxs/reduction/lsfparm.py
+++ b/marxs/reduction/lsfparm.py
@@ -239,6 +239,22 @@ class interp1d_2dsignature(interpolate.interp1d):
         return super().__call__(y)
 
 
+class interp_2dgrid(interpolate.RectBivariateSpline):
+    '''2D interp with the same signature as `scipy.interpolate.interp2d`
+
+    ``interp2d`` has been removed from scipy. The values ``z`` are ordered as
+    they are in LSFPARM files, i.e. they have the shape ``(len(x), len(y))``.
+
+    '''
+    def __init__(self, x, y, z, kind='linear', **kwargs):
+        degree = {'linear': 1, 'cubic': 3, 'quintic': 5}[kind]
+        super().__init__(x, y, z, kx=min(degree, len(x) - 1),
+                         ky=min(degree, len(y) - 1), **kwargs)
+
+    def __call__(self, x, y):
+        return super().__call__(x, y, grid=False)
+
+
 def CALDB_interp(row, kind='cubic', **kwargs):
     '''Get interpolating functions from values in LSFPARM
 
@@ -248,12 +264,13 @@ def CALDB_interp(row, kind='cubic', **kwargs):
         Table row from CALDB LSFPARM file
     **kwargs
         All other keywords arguments are passed to
-        `scipy.interpolate.interp1d` or `scipy.interpolate.interp2d`.
+        `scipy.interpolate.interp1d` or
+        `scipy.interpolate.RectBivariateSpline`.
     '''
     interpolators = {}
 
     if row['NUM_WIDTHS'] > 1:
-        interp = interpolate.interp2d
+        interp = interp_2dgrid
     else:
         interp = interp1d_2dsignature
 
-- 
2.43.0

