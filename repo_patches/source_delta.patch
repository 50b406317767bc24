From 945ee94cda8aeaa8d00fe3fcc9104f033b36203e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 01/31] fix: shift delta into the requested range without
 changing the angle

mod(x + lower, 360) + lower is off by 2*lower, so every range whose lower
bound is not a multiple of 180 returned a different angle.
---
 src/elli/result.py | 8 ++++----
 src/elli/utils.py  | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/elli/result.py b/src/elli/result.py
index 51eb512..03e7721 100644
--- a/src/elli/result.py
+++ b/src/elli/result.py
@@ -113,7 +113,7 @@ class Result:
             \rho = \tan \psi \exp(-i \Delta)
         """
         return (
-            np.mod(-np.angle(self.rho, deg=True) + self._delta_range.lower, 360)
+            np.mod(-np.angle(self.rho, deg=True) - self._delta_range.lower, 360)
             + self._delta_range.lower
         )
 
@@ -127,7 +127,7 @@ class Result:
             \rho_\text{t} = \tan \psi_\text{t} \exp(-i \Delta_\text{t})
         """
         return (
-            np.mod(-np.angle(self.rho_t, deg=True) + self._delta_range.lower, 360)
+            np.mod(-np.angle(self.rho_t, deg=True) - self._delta_range.lower, 360)
             + self._delta_range.lower
         )
 
@@ -198,7 +198,7 @@ class Result:
             \end{bmatrix}
         """
         return (
-            np.mod(-np.angle(self.rho_matrix, deg=True) + self._delta_range.lower, 360)
+            np.mod(-np.angle(self.rho_matrix, deg=True) - self._delta_range.lower, 360)
             + self._delta_range.lower
         )
 
@@ -214,7 +214,7 @@ class Result:
         """
         return (
             np.mod(
-                -np.angle(self.rho_matrix_t, deg=True) + self._delta_range.lower, 360
+                -np.angle(self.rho_matrix_t, deg=True) - self._delta_range.lower, 360
             )
             + self._delta_range.lower
         )
diff --git a/src/elli/utils.py b/src/elli/utils.py
index 85f4cd2..3cb7a8f 100644
--- a/src/elli/utils.py
+++ b/src/elli/utils.py
@@ -50,7 +50,7 @@ def convert_delta_range(
         npt.ArrayLike: Delta values with shifted range.
     """
     delta_range = DeltaRange(lower, upper)
-    return np.mod((delta_values + delta_range.lower), 360) + delta_range.lower
+    return np.mod((delta_values - delta_range.lower), 360) + delta_range.lower
 
 
 def calc_pseudo_diel(rho, angle: float, output: str = "eps") -> pd.DataFrame:
-- 
2.43.0


From 61a5c38c42a1ab9a50f10faf3d4cfe34e5478a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 02/31] fix: reject a delta range with one non-integer bound

---
 src/elli/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/utils.py b/src/elli/utils.py
index 3cb7a8f..5159dde 100644
--- a/src/elli/utils.py
+++ b/src/elli/utils.py
@@ -16,7 +16,7 @@ class DeltaRange:
     upper: int
 
     def __post_init__(self):
-        if not (isinstance(self.lower, int) or isinstance(self.upper, int)):
+        if not (isinstance(self.lower, int) and isinstance(self.upper, int)):
             raise TypeError("delta range values must be an integer")
 
         if not -360 <= self.lower <= 0:
-- 
2.43.0


From ec639147c17302d5c66c6ab21ee5ed3094de0b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 03/31] fix: make Result.get return the requested variable

Result is not subscriptable, so get() always raised a TypeError.
---
 src/elli/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/result.py b/src/elli/result.py
index 03e7721..2b567cb 100644
--- a/src/elli/result.py
+++ b/src/elli/result.py
@@ -384,7 +384,7 @@ class Result:
         Returns:
             npt.NDArray: Array of data.
         """
-        return self[name]
+        return getattr(self, name)
 
     def __getattr__(self, name: str) -> npt.NDArray:
         """Return the data for the requested variable 'name'.
-- 
2.43.0


From d2c5e3f3011e154ae1dbc5ca7012c319974cbf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 04/31] fix: average a ResultList over its results only

With a single result (or a single wavelength) the squeezed array lost the
results axis and the mean was taken over the wavelengths.
---
 src/elli/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/result.py b/src/elli/result.py
index 2b567cb..4cc45b2 100644
--- a/src/elli/result.py
+++ b/src/elli/result.py
@@ -541,4 +541,4 @@ class AveragedResultList(ResultList):
                 "The ResultList is already averaged and can't be averaged again."
             )
 
-        return np.mean(super().__getattr__(name), axis=0)
+        return np.mean([getattr(result, name) for result in self.results], axis=0)
-- 
2.43.0


From dad91bd8146ea6174473e35181282fc985bc2dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 05/31] fix: allow adding a number to a Table dispersion

---
 src/elli/dispersions/table_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/dispersions/table_index.py b/src/elli/dispersions/table_index.py
index 038be6e..037c0ff 100644
--- a/src/elli/dispersions/table_index.py
+++ b/src/elli/dispersions/table_index.py
@@ -57,7 +57,7 @@ class Table(IndexDispersion):
         self, other: Union[int, float, "IndexDispersion"]
     ) -> "IndexDispersionSum":
         if isinstance(other, (int, float)):
-            return IndexDispersionSum(self, ConstantRefractiveIndex(eps=other))
+            return IndexDispersionSum(self, ConstantRefractiveIndex(n=other))
 
         if isinstance(other, Table):
             raise NotImplementedError(
-- 
2.43.0


From 4fffa941d3b57b30e6eef99820ed6524ea6d52d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:32 +0000
Subject: [PATCH 06/31] fix: adding dispersions no longer changes the operands

a + b appended to (and returned) an existing sum, so s = a + b; t = s + c
changed s as well.
---
 src/elli/dispersions/base_dispersion.py | 42 ++++++++++---------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/src/elli/dispersions/base_dispersion.py b/src/elli/dispersions/base_dispersion.py
index 04a021b..41d257a 100644
--- a/src/elli/dispersions/base_dispersion.py
+++ b/src/elli/dispersions/base_dispersion.py
@@ -222,10 +222,6 @@ class Dispersion(BaseDispersion):
         if isinstance(other, dispersions.TableEpsilon):
             return other.__add__(self)
 
-        if isinstance(other, DispersionSum):
-            other.dispersions.append(self)
-            return other
-
         if isinstance(other, (int, float)):
             return DispersionSum(self, dispersions.EpsilonInf(other))
 
@@ -298,10 +294,6 @@ class IndexDispersion(BaseDispersion):
         if isinstance(other, dispersions.Table):
             return other.__add__(self)
 
-        if isinstance(other, IndexDispersionSum):
-            other.index_dispersions.append(self)
-            return other
-
         if isinstance(other, (int, float)):
             return IndexDispersionSum(self, dispersions.ConstantRefractiveIndex(other))
 
@@ -345,21 +337,20 @@ class DispersionSum(Dispersion):
 
         self.dispersions = []
         for disp in disps:
-            self += disp
+            self._append(disp)
 
-    def __add__(self, other: Union[int, float, "Dispersion"]) -> "DispersionSum":
+    def _append(self, other: Union[int, float, "Dispersion"]) -> None:
         self._check_valid_operand(other)
 
         if isinstance(other, DispersionSum):
             self.dispersions += other.dispersions
-            return self
-
-        if isinstance(other, (int, float)):
+        elif isinstance(other, (int, float)):
             self.dispersions.append(dispersions.EpsilonInf(eps=other))
-            return self
+        else:
+            self.dispersions.append(other)
 
-        self.dispersions.append(other)
-        return self
+    def __add__(self, other: Union[int, float, "Dispersion"]) -> "DispersionSum":
+        return DispersionSum(*self.dispersions, other)
 
     def dielectric_function(self, lbda: npt.ArrayLike) -> npt.NDArray:
         dielectric_function = sum(
@@ -388,23 +379,22 @@ class IndexDispersionSum(IndexDispersion):
 
         self.index_dispersions = []
         for disp in disps:
-            self += disp
+            self._append(disp)
 
-    def __add__(
-        self, other: Union[int, float, "IndexDispersion"]
-    ) -> "IndexDispersionSum":
+    def _append(self, other: Union[int, float, "IndexDispersion"]) -> None:
         self._check_valid_operand(other)
 
         if isinstance(other, IndexDispersionSum):
             self.index_dispersions += other.index_dispersions
-            return self
-
-        if isinstance(other, (int, float)):
+        elif isinstance(other, (int, float)):
             self.index_dispersions.append(dispersions.ConstantRefractiveIndex(n=other))
-            return self
+        else:
+            self.index_dispersions.append(other)
 
-        self.index_dispersions.append(other)
-        return self
+    def __add__(
+        self, other: Union[int, float, "IndexDispersion"]
+    ) -> "IndexDispersionSum":
+        return IndexDispersionSum(*self.index_dispersions, other)
 
     def refractive_index(self, lbda: npt.ArrayLike) -> npt.NDArray:
         refractive_index = sum(
-- 
2.43.0


From 9e8120bb60cb9b58ba17aa6c70b5829a0a2260ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:32 +0000
Subject: [PATCH 07/31] fix: accept parameter names that begin with a builtin
 or function name

The lexer cut the builtin off the front of the name, so c0, h1 or pi2 were
parse errors.
---
 src/elli/formula_parser/dispersion_function_grammar.lark | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elli/formula_parser/dispersion_function_grammar.lark b/src/elli/formula_parser/dispersion_function_grammar.lark
index 7524723..56da948 100644
--- a/src/elli/formula_parser/dispersion_function_grammar.lark
+++ b/src/elli/formula_parser/dispersion_function_grammar.lark
@@ -41,8 +41,8 @@
                  | NAME -> param_name
                  | BUILTIN -> builtin
 
-FUNC.1: "sin" | "cos" | "tan" | "sqrt" | "dawsn" | "ln" | "log" | "heaviside" 
-BUILTIN.1: "1j" | "pi" | "eps_0" | "hbar" | "h" | "c" 
+FUNC.1: /(sin|cos|tan|sqrt|dawsn|ln|log|heaviside)(?!\w)/
+BUILTIN.1: /(1j|pi|eps_0|hbar|h|c)(?!\w)/
 
 %import common.CNAME -> NAME
 %import common.SIGNED_NUMBER
-- 
2.43.0


From b00bed83787108e93a9d7f608eaa0d9bceeb424f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:32 +0000
Subject: [PATCH 08/31] fix: use the first sampling step for the first kkr
 point

diff prepends a value of x, not a step, so the first interval was 2*x[0]-x[1].
---
 src/elli/kkr/kkr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/kkr/kkr.py b/src/elli/kkr/kkr.py
index 05bdab1..85f9ba6 100644
--- a/src/elli/kkr/kkr.py
+++ b/src/elli/kkr/kkr.py
@@ -126,7 +126,7 @@ def _calc_kkr(
         )
 
     integral = np.empty(len(t))
-    interval = np.diff(x, prepend=x[1] - x[0])
+    interval = np.diff(x, prepend=2 * x[0] - x[1])
     odd_slice = slice(1, None, 2)
     even_slice = slice(0, None, 2)
 
-- 
2.43.0


From 06e4b0fc165e177453bf12dbdcee4dad774dd63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:32 +0000
Subject: [PATCH 09/31] fix: isotropic Mueller matrix from psi and delta

The angles are in degrees, C and S both used cos(2 delta), and the sign of S
was opposite to Result.mueller_matrix for rho = tan(psi) exp(-i delta).
---
 src/elli/utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/elli/utils.py b/src/elli/utils.py
index 5159dde..f9d2403 100644
--- a/src/elli/utils.py
+++ b/src/elli/utils.py
@@ -148,12 +148,12 @@ def convert_psi_delta_to_isotropic_mueller_matrix(psi_delta_df) -> pd.DataFrame:
     # fill in the Mueller matrix coefficients for an isotropic material based equation in https://www.jawoollam.com/resources/ellipsometry-faq#toggle-id-15
     for aoi in aois:
         for λ in wavelengths:
-            Δ = psi_delta_df.loc[aoi, λ]["Δ"]
-            Ψ = psi_delta_df.loc[aoi, λ]["Ψ"]
+            Δ = np.deg2rad(psi_delta_df.loc[aoi, λ]["Δ"])
+            Ψ = np.deg2rad(psi_delta_df.loc[aoi, λ]["Ψ"])
 
             N = np.cos(2 * Ψ)
-            C = np.sin(2 * Ψ) * np.cos(2 * Δ)
-            S = np.sin(2 * Ψ) * np.cos(2 * Δ)
+            C = np.sin(2 * Ψ) * np.cos(Δ)
+            S = np.sin(2 * Ψ) * np.sin(Δ)
 
             MM.loc[(aoi, λ), "M11"] = 1
             MM.loc[(aoi, λ), "M12"] = -N
@@ -168,11 +168,11 @@ def convert_psi_delta_to_isotropic_mueller_matrix(psi_delta_df) -> pd.DataFrame:
             MM.loc[(aoi, λ), "M31"] = 0
             MM.loc[(aoi, λ), "M32"] = 0
             MM.loc[(aoi, λ), "M33"] = C
-            MM.loc[(aoi, λ), "M34"] = S
+            MM.loc[(aoi, λ), "M34"] = -S
 
             MM.loc[(aoi, λ), "M41"] = 0
             MM.loc[(aoi, λ), "M42"] = 0
-            MM.loc[(aoi, λ), "M43"] = -S
+            MM.loc[(aoi, λ), "M43"] = S
             MM.loc[(aoi, λ), "M44"] = C
 
     return MM
-- 
2.43.0


From c41cd627404b03558bc320eea0a5d338ce2c99f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:25 +0000
Subject: [PATCH 10/31] fix: RepeatedLayers counts before and after in layers,
 not slices

Layers with more than one slice (twisted, varying mixture, nested repeated
layers) were cut apart.
---
 src/elli/structure.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/elli/structure.py b/src/elli/structure.py
index eb25a53..4c0dfb8 100644
--- a/src/elli/structure.py
+++ b/src/elli/structure.py
@@ -133,15 +133,13 @@ class RepeatedLayers(AbstractLayer):
             List[Tuple[float, npt.NDArray]]:
                 Returns list of tuples [(thickness, dielectric tensor), ...]
         """
-        layers = []
-        for layer in self.layers:
-            layers += layer.get_permittivity_profile(lbda)
+        layers = [layer.get_permittivity_profile(lbda) for layer in self.layers]
 
         if self.before > 0:
             before = layers[-self.before :]
         else:
             before = []
-        return before + self.repetitions * layers + layers[: self.after]
+        return sum(before + self.repetitions * layers + layers[: self.after], [])
 
 
 class Layer(AbstractLayer):
-- 
2.43.0


From 312701d029fd29b7db6d278204c3d036b90d99ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:25 +0000
Subject: [PATCH 11/31] fix: inhomogeneous layers of zero thickness no longer
 return nan tensors

---
 src/elli/structure.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/elli/structure.py b/src/elli/structure.py
index 4c0dfb8..fba1463 100644
--- a/src/elli/structure.py
+++ b/src/elli/structure.py
@@ -311,7 +311,8 @@ class TwistedLayer(InhomogeneousLayer):
             npt.NDArray: Permittivity tensor for position 'z' and wavelength 'lbda'.
         """
         epsilon = self.material.get_tensor(lbda)
-        m_r = rotation_v_theta(E_Z, self.angle * z / self.thickness)
+        position = z / self.thickness if self.thickness > 0 else 0
+        m_r = rotation_v_theta(E_Z, self.angle * position)
         return m_r @ epsilon @ m_r.T
 
 
@@ -384,8 +385,9 @@ class VaryingMixtureLayer(InhomogeneousLayer):
         Returns:
             npt.NDArray: Permittivity tensor for position 'z' and wavelength 'lbda'.
         """
+        position = z / self.thickness if self.thickness > 0 else 0
         epsilon = self.material.get_tensor_fraction(
-            lbda, self.fraction_modulation(z / self.thickness)
+            lbda, self.fraction_modulation(position)
         )
         return epsilon
 
-- 
2.43.0


From 73e1de45fe590c9a7077b50f9852346c5980df9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:25 +0000
Subject: [PATCH 12/31] fix: ParamsHist.revert on an empty history does nothing
 instead of dividing by zero

---
 src/elli/fitting/params_hist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/fitting/params_hist.py b/src/elli/fitting/params_hist.py
index 9e5098d..98183b0 100644
--- a/src/elli/fitting/params_hist.py
+++ b/src/elli/fitting/params_hist.py
@@ -81,7 +81,7 @@ class ParamsHist(Parameters):
         Args:
             hist_pos (int): The history position to revert to.
         """
-        if len(self._history) > (hist_pos % len(self._history)):
+        if len(self._history) > 0:
             self.update(self._history[hist_pos])
 
     def pop(self):
-- 
2.43.0


From 573e507f1aa5c910004428356ffcdabecb94a2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:25 +0000
Subject: [PATCH 13/31] fix: load spectraray tables with a wavelength axis

---
 src/elli/dispersions/table_spectraray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/dispersions/table_spectraray.py b/src/elli/dispersions/table_spectraray.py
index 87fc9b8..9312ea6 100644
--- a/src/elli/dispersions/table_spectraray.py
+++ b/src/elli/dispersions/table_spectraray.py
@@ -58,7 +58,7 @@ class TableSpectraRay:
 
         if x_unit == "Wavelength":
             return TableEpsilon(
-                lbda=df.index, epsilon=df.loc[:, "ϵ1"] + 1j * df.iloc[:, "ϵ2"]
+                lbda=df.index, epsilon=df.loc[:, "ϵ1"] + 1j * df.loc[:, "ϵ2"]
             )
         return TableEpsilon(
             lbda=conversion_wavelength_energy(df.index),
-- 
2.43.0


From daa7a8feaada35d3fe2d85e671b08096e424b773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:25 +0000
Subject: [PATCH 14/31] fix: read the axis of nexus dispersion tables into
 memory

A h5py dataset cannot be multiplied (energy axis) and is closed with the file
(default wavelength range).
---
 src/elli/importer/nexus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elli/importer/nexus.py b/src/elli/importer/nexus.py
index 47b9981..717de05 100644
--- a/src/elli/importer/nexus.py
+++ b/src/elli/importer/nexus.py
@@ -205,10 +205,10 @@ def read_nexus_materials(filename: str):
     def get_dispersion_table(dataset: h5py.Dataset):
         wavelength = None
         if "wavelength" in dataset:
-            wavelength = dataset["wavelength"]
+            wavelength = dataset["wavelength"][()]
 
         if "energy" in dataset:
-            wavelength = conversion_wavelength_energy(dataset["energy"])
+            wavelength = conversion_wavelength_energy(dataset["energy"][()])
 
         if wavelength is None:
             raise ValueError("No wavelength array found in dataset.")
-- 
2.43.0


From f89a7241742eab4a29d00a10ecab590a4093731f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 15/31] fix: apply SciPy's expm matrix by matrix, stacks give
 wrong results with SciPy 1.18

---
 src/elli/solver4x4.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/elli/solver4x4.py b/src/elli/solver4x4.py
index 4f2610d..e699e5a 100644
--- a/src/elli/solver4x4.py
+++ b/src/elli/solver4x4.py
@@ -78,7 +78,9 @@ class PropagatorExpm(Propagator):
             "torch": lambda mats: torch.linalg.matrix_exp(
                 torch.from_numpy(mats)
             ).numpy(),
-            "scipy": lambda mats: scipy_expm(mats),
+            # One matrix at a time, as the results for stacks of matrices are
+            # not reliable in every SciPy version.
+            "scipy": np.vectorize(scipy_expm, signature="(n,n)->(n,n)"),
         }
 
         if backend == "automatic" and TORCH_AVAILABLE:
-- 
2.43.0


From d8398a31504c2dd9206a758c78522ebb836d60aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:20 +0000
Subject: [PATCH 16/31] fix: rounding errors of the eigenvalues do not decide
 the direction of half-space waves

---
 src/elli/solver4x4.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/elli/solver4x4.py b/src/elli/solver4x4.py
index e699e5a..12af6d9 100644
--- a/src/elli/solver4x4.py
+++ b/src/elli/solver4x4.py
@@ -220,8 +220,10 @@ class Solver4x4(Solver):
         """
         q, p = np.linalg.eig(delta)
 
-        # Sort according to z propagation direction, by Re(q) first, then Im(q)
-        idx = np.lexsort((-np.real(q), -np.imag(q)))
+        # Sort according to z propagation direction, by Im(q) first, then Re(q).
+        # Rounding errors in Im(q) must not decide the direction.
+        q_imag = np.where(np.abs(np.imag(q)) > 1e-10, np.imag(q), 0)
+        idx = np.lexsort((-np.real(q), -q_imag))
 
         q = np.take_along_axis(q, idx, axis=-1)
         p = np.take_along_axis(p, idx[:, np.newaxis, :], axis=-1)
-- 
2.43.0


From 404574b2ca39450a1196181988ecd310fe20b948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:46 +0000
Subject: [PATCH 17/31] fix: restore the NumPy error settings when the Maxwell
 Garnett formula raises

---
 src/elli/materials.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/elli/materials.py b/src/elli/materials.py
index 868151e..2fd24cd 100755
--- a/src/elli/materials.py
+++ b/src/elli/materials.py
@@ -402,17 +402,12 @@ class MaxwellGarnettEMA(MixtureMaterial):
         e_g = self.guest_material.get_tensor(lbda)
 
         # Catch calculation warnings
-        old_settings = np.geterr()
-        np.seterr(invalid="ignore")
-
-        maxwell_garnett = (
-            e_h
-            * (2 * fraction * (e_g - e_h) + e_g + 2 * e_h)
-            / (2 * e_h + e_g - fraction * (e_g - e_h))
-        )
-
-        # Reset numpy settings
-        np.seterr(**old_settings)
+        with np.errstate(invalid="ignore"):
+            maxwell_garnett = (
+                e_h
+                * (2 * fraction * (e_g - e_h) + e_g + 2 * e_h)
+                / (2 * e_h + e_g - fraction * (e_g - e_h))
+            )
 
         epsilon = np.where(np.logical_and(e_h == 0, e_g == 0), e_h, maxwell_garnett)
         return epsilon
-- 
2.43.0


From 41811d2af52e414d9088c9d9dc24a474ac9872fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:53 +0000
Subject: [PATCH 18/31] fix: the Urbach tail of the Cody-Lorentz model no
 longer overflows to nan above Et

---
 src/elli/dispersions/cody_lorentz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/dispersions/cody_lorentz.py b/src/elli/dispersions/cody_lorentz.py
index 20302ba..824e45a 100644
--- a/src/elli/dispersions/cody_lorentz.py
+++ b/src/elli/dispersions/cody_lorentz.py
@@ -61,7 +61,7 @@ class CodyLorentz(Dispersion):
 
         # fmt: off
         return (
-            E1 / E * np.exp((E - Et) / Eu) * np.heaviside(Et - E, 1)
+            E1 / E * np.exp(np.minimum((E - Et) / Eu, 0)) * np.heaviside(Et - E, 1)
             + G(E) * L(E) * np.heaviside(E - Et, 0)
         )
         # fmt: on
-- 
2.43.0


From edc2e7894861739a98ed26c74bcf241e3f2e5dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:52 +0000
Subject: [PATCH 19/31] fix: as_index works for tables, and copies of an index
 view do not depend on the original

---
 src/elli/dispersions/base_dispersion.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/elli/dispersions/base_dispersion.py b/src/elli/dispersions/base_dispersion.py
index 41d257a..ce0bebf 100644
--- a/src/elli/dispersions/base_dispersion.py
+++ b/src/elli/dispersions/base_dispersion.py
@@ -241,14 +241,18 @@ class Dispersion(BaseDispersion):
             {
                 "rep_params_template": self.rep_params_template,
                 "single_params_template": self.single_params_template,
-                "dielectric_function": self.dielectric_function,
+                "dielectric_function": lambda self, lbda: (
+                    self.dispersion.dielectric_function(lbda)
+                ),
                 "refractive_index": lambda self, lbda: sqrt(
                     self.dielectric_function(lbda)
                 ),
             },
         )
 
-        idx_dispersion = AnonymousIndexDispersion()
+        idx_dispersion = AnonymousIndexDispersion.__new__(AnonymousIndexDispersion)
+        idx_dispersion.dispersion = self
+        idx_dispersion.default_lbda_range = self.default_lbda_range
         idx_dispersion.rep_params = self.rep_params
         idx_dispersion.single_params = self.single_params
 
-- 
2.43.0


From 03043f09e611ce91529fc8280c3777c40b45081c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:33 +0000
Subject: [PATCH 20/31] fix: formula dispersions use parameter sets added
 later, also in copies

---
 src/elli/dispersions/formula.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/elli/dispersions/formula.py b/src/elli/dispersions/formula.py
index f1954b8..a6f193a 100644
--- a/src/elli/dispersions/formula.py
+++ b/src/elli/dispersions/formula.py
@@ -62,35 +62,34 @@ class FormulaParser(BaseDispersion):
         for rep_params_set in rep_params_sets:
             self.add(**rep_params_set)
 
-        self.rep_params_dl = {}
-        if self.rep_params:
-            self.rep_params_dl = {
-                k: np.array([dic[k] for dic in self.rep_params])
-                for k in self.rep_params[0]
-            }
-
         self.formula = formula
 
         self._check_repr()
 
-        self._dispersion_function = self.__dispersion_function
+        self._convert_axis = lambda lbda: lbda
         if unit is not None:
             self._set_unit_conversion(unit)
 
+    @property
+    def rep_params_dl(self) -> Dict[str, npt.NDArray]:
+        """The values of each repeated parameter in all parameter sets"""
+        if not self.rep_params:
+            return {}
+
+        return {
+            k: np.array([dic[k] for dic in self.rep_params]) for k in self.rep_params[0]
+        }
+
     def _set_unit_conversion(self, unit: str):
         quantity = ureg(unit)
         if quantity.check("[length]"):
             scaling = ureg("nm").to(unit).magnitude
-            self._dispersion_function = lambda lbda: self.__dispersion_function(
-                scaling * lbda
-            )
+            self._convert_axis = lambda lbda: scaling * lbda
             return
 
         if quantity.check("[energy]"):
             scaling = ureg("nm").to(unit).magnitude
-            self._dispersion_function = lambda lbda: self.__dispersion_function(
-                scaling / lbda
-            )
+            self._convert_axis = lambda lbda: scaling / lbda
             return
 
         raise ValueError(f"Unsupported unit `{unit}`.")
@@ -108,10 +107,10 @@ class FormulaParser(BaseDispersion):
                 f"Representation `{representation}` not supported by Formula"
             )
 
-    def __dispersion_function(self, lbda: npt.ArrayLike) -> npt.NDArray:
+    def _dispersion_function(self, lbda: npt.ArrayLike) -> npt.NDArray:
         return FormulaTransformer(
             x_axis_name=self.f_axis_name,
-            x_axis_values=lbda,
+            x_axis_values=self._convert_axis(lbda),
             single_params=self.single_params,
             repeated_params=self.rep_params_dl,
         ).transform(parse_formula(self.formula))[1]
-- 
2.43.0


From 5f3ba2df5565dfe4b743cc2ac158096ca41a4a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:39 +0000
Subject: [PATCH 21/31] fix: formula sums whose bracket does not contain the
 wavelength

---
 src/elli/formula_parser/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/elli/formula_parser/parser.py b/src/elli/formula_parser/parser.py
index e2de3d4..04225c5 100644
--- a/src/elli/formula_parser/parser.py
+++ b/src/elli/formula_parser/parser.py
@@ -129,7 +129,8 @@ class FormulaTransformer(Transformer):
 
     def sum_expr(self, expr):
         """Sum an expression"""
-        return expr.sum(axis=1)
+        shape = (len(self.x_axis_values), self.no_repeated_params)
+        return np.broadcast_to(expr, shape).sum(axis=1)
 
     def single_param_name(self, name):
         """Return a parameter inside a non-repeated section"""
-- 
2.43.0


From 1ec66548d0eaf5a8185295f45cb6c726cdae991e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:39 +0000
Subject: [PATCH 22/31] fix: heaviside in formula dispersions takes the one
 argument the grammar allows

---
 src/elli/formula_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/formula_parser/parser.py b/src/elli/formula_parser/parser.py
index 04225c5..6c7869c 100644
--- a/src/elli/formula_parser/parser.py
+++ b/src/elli/formula_parser/parser.py
@@ -103,7 +103,7 @@ class FormulaTransformer(Transformer):
             "dawsn": dawsn,
             "ln": np.log,
             "log": np.log10,
-            "heaviside": np.heaviside,
+            "heaviside": lambda x: np.heaviside(x, 0.5),
         }
 
         if name in names:
-- 
2.43.0


From 8d8d6de6b045b61fade9fe1e84a86e0f01f5ad74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:23 +0000
Subject: [PATCH 23/31] fix: a leading minus in formulas binds weaker than the
 power, as usual

---
 .../dispersion_function_grammar.lark          | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/elli/formula_parser/dispersion_function_grammar.lark b/src/elli/formula_parser/dispersion_function_grammar.lark
index 56da948..5a2a405 100644
--- a/src/elli/formula_parser/dispersion_function_grammar.lark
+++ b/src/elli/formula_parser/dispersion_function_grammar.lark
@@ -13,14 +13,19 @@
        | term "/" factor -> div
 
 ?factor: power
-       | power "**" power -> power
+       | power "**" exponent -> power
+       | "+" factor
+       | "-" factor -> neg
 
+?exponent: power
+         | "+" power
+         | "-" power -> neg
 
 ?power: "(" expression ")"
         | FUNC "(" expression ")" -> func
         | "sum" "[" repeated_expression "]" -> sum_expr
         | NAME -> single_param_name
-        | SIGNED_NUMBER -> number
+        | NUMBER -> number
         | BUILTIN -> builtin
 
 ?repeated_expression: repeated_term
@@ -33,11 +38,17 @@
                 | repeated_term "/" repeated_factor -> div
 
 ?repeated_factor: repeated_power
-                  | repeated_power "**" repeated_power -> power
+                  | repeated_power "**" repeated_exponent -> power
+                  | "+" repeated_factor
+                  | "-" repeated_factor -> neg
+
+?repeated_exponent: repeated_power
+                    | "+" repeated_power
+                    | "-" repeated_power -> neg
 
 ?repeated_power: "(" repeated_expression ")"
                  | FUNC "(" repeated_expression ")" -> func
-                 | SIGNED_NUMBER -> number
+                 | NUMBER -> number
                  | NAME -> param_name
                  | BUILTIN -> builtin
 
@@ -45,7 +56,7 @@ FUNC.1: /(sin|cos|tan|sqrt|dawsn|ln|log|heaviside)(?!\w)/
 BUILTIN.1: /(1j|pi|eps_0|hbar|h|c)(?!\w)/
 
 %import common.CNAME -> NAME
-%import common.SIGNED_NUMBER
+%import common.NUMBER
 %import common.WS_INLINE
 
 %ignore WS_INLINE
\ No newline at end of file
-- 
2.43.0


From aa377b29202e6934ab33e24805a1353cf9c635f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:51 +0000
Subject: [PATCH 24/31] fix: the documented defaults of CauchyUrbach are the
 ones it uses

---
 src/elli/dispersions/cauchy_urbach.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elli/dispersions/cauchy_urbach.py b/src/elli/dispersions/cauchy_urbach.py
index 2193342..102f12d 100644
--- a/src/elli/dispersions/cauchy_urbach.py
+++ b/src/elli/dispersions/cauchy_urbach.py
@@ -16,8 +16,8 @@ class CauchyUrbach(IndexDispersion):
         :B: Defaults to 0. Unit in 1/eV\ :sup:`2`.
         :C: Defaults to 0. Unit in 1/eV\ :sup:`4`.
         :D: Defaults to 0.
-        :Eg: Defaults to 0. Unit in eV.
-        :Eu: Defaults to 1. Unit in eV.
+        :Eg: Defaults to 2. Unit in eV.
+        :Eu: Defaults to 0.5. Unit in eV.
 
     Repeated parameters:
         --
-- 
2.43.0


From 30749dbc3b9b57e824036740fff8253c5dfd14d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:09 +0000
Subject: [PATCH 25/31] fix: an unknown dispersion parameter named template
 raises InvalidParameters

---
 src/elli/dispersions/base_dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/dispersions/base_dispersion.py b/src/elli/dispersions/base_dispersion.py
index ce0bebf..f66f8ab 100644
--- a/src/elli/dispersions/base_dispersion.py
+++ b/src/elli/dispersions/base_dispersion.py
@@ -44,7 +44,7 @@ class BaseDispersion(ABC):
             raise InvalidParameters(f"Invalid parameter(s): {missing_param_strings}")
 
     @staticmethod
-    def _fill_params_dict(template: dict, *args, **kwargs) -> dict:
+    def _fill_params_dict(template: dict, /, *args, **kwargs) -> dict:
         BaseDispersion._guard_invalid_params(list(kwargs.keys()), list(template.keys()))
 
         if (len(kwargs) + len(args)) > len(template):
-- 
2.43.0


From 839c543492b77820a0866cc969145e0514697879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:47 +0000
Subject: [PATCH 26/31] fix: tables with a single complex value return it
 instead of nan

---
 src/elli/dispersions/table_epsilon.py | 3 ++-
 src/elli/dispersions/table_index.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/elli/dispersions/table_epsilon.py b/src/elli/dispersions/table_epsilon.py
index 1124756..ad225c8 100644
--- a/src/elli/dispersions/table_epsilon.py
+++ b/src/elli/dispersions/table_epsilon.py
@@ -49,7 +49,8 @@ class TableEpsilon(Dispersion):
         self.interpolation = scipy.interpolate.interp1d(
             self.single_params.get("lbda"),
             self.single_params.get("epsilon"),
-            kind=self.kind,
+            # a single point cannot be interpolated
+            kind=self.kind if len(self.single_params.get("lbda")) > 1 else "nearest",
         )
 
         self.default_lbda_range = self.single_params.get("lbda")
diff --git a/src/elli/dispersions/table_index.py b/src/elli/dispersions/table_index.py
index 037c0ff..0c9c8be 100644
--- a/src/elli/dispersions/table_index.py
+++ b/src/elli/dispersions/table_index.py
@@ -48,7 +48,8 @@ class Table(IndexDispersion):
         self.interpolation = scipy.interpolate.interp1d(
             self.single_params.get("lbda"),
             self.single_params.get("n"),
-            kind=self.kind,
+            # a single point cannot be interpolated
+            kind=self.kind if len(self.single_params.get("lbda")) > 1 else "nearest",
         )
 
         self.default_lbda_range = self.single_params.get("lbda")
-- 
2.43.0


From cdc6593ced0acd68fb9177f64acef1c972847e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:19 +0000
Subject: [PATCH 27/31] fix: saved parameter sets are not shared with the
 current parameters

---
 src/elli/fitting/params_hist.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/elli/fitting/params_hist.py b/src/elli/fitting/params_hist.py
index 98183b0..8b9d4b0 100644
--- a/src/elli/fitting/params_hist.py
+++ b/src/elli/fitting/params_hist.py
@@ -82,13 +82,23 @@ class ParamsHist(Parameters):
             hist_pos (int): The history position to revert to.
         """
         if len(self._history) > 0:
-            self.update(self._history[hist_pos])
+            self._restore(self._history[hist_pos])
+
+    def _restore(self, parameters: Parameters) -> None:
+        """Makes the current parameters a copy of the given ones.
+
+        Args:
+            parameters (lmfit.Parameters): The parameters to restore.
+        """
+        for name in [name for name in self if name not in parameters]:
+            del self[name]
+        self.update(copy.deepcopy(parameters))
 
     def pop(self):
         """Gets to the previous history version and deletes the current element."""
         if len(self._history) > 0:
             curr_params = self.copy()
-            self.update(self._history[-1])
+            self._restore(self._history[-1])
             self._history = self._history[:-1]
 
             return curr_params
@@ -112,7 +122,7 @@ class ParamsHist(Parameters):
                 The lmfit parameters object to update the values from.
         """
         self.commit()
-        self.update(parameters)
+        self.update(copy.deepcopy(parameters))
 
     def tracked_add(self, *args, **kwargs) -> None:
         """Adds a parameter and keeps track of the change in history"""
-- 
2.43.0


From 74426d2f0a316ccdc6de548a3e5f43e22e49809c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:19 +0000
Subject: [PATCH 28/31] fix: to_csv of psi/delta fits no longer passes
 append_exp_data as the angle

---
 src/elli/fitting/decorator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/elli/fitting/decorator.py b/src/elli/fitting/decorator.py
index 87ad403..dee5bf5 100644
--- a/src/elli/fitting/decorator.py
+++ b/src/elli/fitting/decorator.py
@@ -92,7 +92,9 @@ class FitDecorator(ABC):
                 Appends the experimental data if set to True.
                 Defaults to False.
         """
-        self.get_model_data(params, append_exp_data).to_csv(fname, *args, **kwargs)
+        self.get_model_data(params, append_exp_data=append_exp_data).to_csv(
+            fname, *args, **kwargs
+        )
 
     @abstractmethod
     def fit(self, method: str = "") -> None:
-- 
2.43.0


From 370d2d6ae2c356198fa7033edeb3e3b8e46dc0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:19 +0000
Subject: [PATCH 29/31] fix: parameter boxes of unbounded parameters accept
 negative values

---
 src/elli/fitting/decorator_psi_delta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/fitting/decorator_psi_delta.py b/src/elli/fitting/decorator_psi_delta.py
index 6ce2f57..a4f8b41 100644
--- a/src/elli/fitting/decorator_psi_delta.py
+++ b/src/elli/fitting/decorator_psi_delta.py
@@ -176,7 +176,7 @@ class FitRho(FitDecorator):
             curr_widget = widgets.BoundedFloatText(
                 self.params[param],
                 min=(
-                    float_info.min
+                    -float_info.max
                     if self.params[param].min == -float("inf")
                     else self.params[param].min
                 ),
-- 
2.43.0


From cadc00acc5e1c59f42cb94c37cd1c76cde92e90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:19 +0000
Subject: [PATCH 30/31] fix: missing catalogue values no longer hide matches in
 other columns

---
 src/elli/database/refractive_index_info.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/elli/database/refractive_index_info.py b/src/elli/database/refractive_index_info.py
index 7b88381..c466da2 100644
--- a/src/elli/database/refractive_index_info.py
+++ b/src/elli/database/refractive_index_info.py
@@ -236,10 +236,14 @@ class RII:
                     )
 
                     for s, _, _ in suggestions:
-                        index = np.logical_or(index, self.catalog[col] == s)
+                        index = np.logical_or(
+                            index, (self.catalog[col] == s).fillna(False)
+                        )
 
                 else:
-                    index = np.logical_or(index, self.catalog[col] == q)
+                    index = np.logical_or(
+                        index, (self.catalog[col] == q).fillna(False)
+                    )
 
         result = self.catalog.loc[index]
 
-- 
2.43.0


From b6afc43245a26b6ede8ac93545de1b93cd780695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:19 +0000
Subject: [PATCH 31/31] fix: CompleteEASE files whose first delta is negative
 keep their first rows

---
 src/elli/importer/woollam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/importer/woollam.py b/src/elli/importer/woollam.py
index c0cc6e9..f5193cf 100644
--- a/src/elli/importer/woollam.py
+++ b/src/elli/importer/woollam.py
@@ -58,7 +58,7 @@ def _is_complete_ease_tabular(line: str) -> bool:
     Returns:
         bool: True if the line is in complete ease tabular layout.
     """
-    return bool(re.search(r"^[a-zA-Z]+\s+(\d+\.\d+\s+){5}\d+\.\d+$", line))
+    return bool(re.search(r"^[a-zA-Z]+\s+(-?\d+\.\d+\s+){5}\d+\.\d+$", line))
 
 
 def _is_tan_cos_format(line: str) -> bool:
-- 
2.43.0

