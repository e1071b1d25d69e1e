From 590faae452f9b02331b11137d042e8a070879001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:40 +0000
Subject: [PATCH 01/31] fix: keep directivity finite when source and microphone
 coincide

The direction between coincident points was 0/0, so every non-omni pattern
returned NaN responses.
---
 src/torchrir/sim/ism/helpers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/sim/ism/helpers.py b/src/torchrir/sim/ism/helpers.py
index 7a8a4ad..6801e04 100644
--- a/src/torchrir/sim/ism/helpers.py
+++ b/src/torchrir/sim/ism/helpers.py
@@ -76,5 +76,7 @@ def _select_orientation(orientation: Tensor, idx: int, count: int, dim: int) ->
 def _cos_between(vec: Tensor, orientation: Tensor) -> Tensor:
     """Compute cosine between direction vectors and orientation."""
     orientation = normalize_orientation(orientation)
-    unit = vec / torch.linalg.norm(vec, dim=-1, keepdim=True)
+    norm = torch.linalg.norm(vec, dim=-1, keepdim=True)
+    # Coincident points have no direction: keep the cosine finite (zero) there.
+    unit = vec / torch.clamp(norm, min=1e-6)
     return torch.sum(unit * orientation, dim=-1)
-- 
2.43.0


From 78aa85da84cdb3c1139b1fe43ab91567e59bc553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:22 +0000
Subject: [PATCH 02/31] fix: treat every spelling of the omni pattern as omni

"omnidirectional" (and "OMNI") demanded an orientation although the pattern
they name has none.
---
 src/torchrir/sim/directivity.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/torchrir/sim/directivity.py b/src/torchrir/sim/directivity.py
index ab44109..46b7386 100644
--- a/src/torchrir/sim/directivity.py
+++ b/src/torchrir/sim/directivity.py
@@ -29,5 +29,11 @@ def split_directivity(directivity: str | tuple[str, str]) -> tuple[str, str]:
     if isinstance(directivity, (list, tuple)):
         if len(directivity) != 2:
             raise ValueError("directivity tuple must have length 2")
-        return directivity[0], directivity[1]
-    return directivity, directivity
+        return _resolve_omni(directivity[0]), _resolve_omni(directivity[1])
+    pattern = _resolve_omni(directivity)
+    return pattern, pattern
+
+
+def _resolve_omni(pattern: str) -> str:
+    """Map every spelling of the omni pattern to "omni" (it needs no orientation)."""
+    return "omni" if pattern.lower() in ("omni", "omnidirectional") else pattern
-- 
2.43.0


From 9349572c8e19ace6764658c932ea1bec9687bce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:06 +0000
Subject: [PATCH 03/31] fix: use the scene's orientations when simulating
 dynamic scenes

ISMSimulator dropped the orientations stored on a DynamicScene's sources and
microphones, so every non-omni pattern was refused.
---
 src/torchrir/sim/simulators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/torchrir/sim/simulators.py b/src/torchrir/sim/simulators.py
index c48ecd7..795756a 100644
--- a/src/torchrir/sim/simulators.py
+++ b/src/torchrir/sim/simulators.py
@@ -76,6 +76,10 @@ class ISMSimulator:
                 nsample=self.nsample,
                 tmax=self.tmax,
                 directivity=self.directivity,
+                orientation=(
+                    normalized_scene.sources.orientation,
+                    normalized_scene.mics.orientation,
+                ),
                 config=cfg,
                 device=self.device,
                 dtype=self.dtype,
-- 
2.43.0


From 17ca00140b388ecc3c86e3f7ad4d9902f5ad132a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:48 +0000
Subject: [PATCH 04/31] fix: honour the diffuse tail start when the length is
 given in samples

---
 src/torchrir/sim/ism/api.py     | 2 +-
 src/torchrir/sim/ism/diffuse.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/torchrir/sim/ism/api.py b/src/torchrir/sim/ism/api.py
index b10ea98..3e789f9 100644
--- a/src/torchrir/sim/ism/api.py
+++ b/src/torchrir/sim/ism/api.py
@@ -127,7 +127,7 @@ def simulate_rir(
         )
         _accumulate_rir_batch(rir, sample_chunk, attenuation_chunk, cfg)
 
-    if tdiff is not None and tmax is not None and tdiff < tmax:
+    if tdiff is not None and (tmax is None or tdiff < tmax):
         rir = _apply_diffuse_tail(rir, room, beta, tdiff, tmax, seed=cfg.seed)
     rir = apply_rir_hpf(rir, room.fs, cfg)
     return rir
diff --git a/src/torchrir/sim/ism/diffuse.py b/src/torchrir/sim/ism/diffuse.py
index 7344676..0d847cf 100644
--- a/src/torchrir/sim/ism/diffuse.py
+++ b/src/torchrir/sim/ism/diffuse.py
@@ -17,14 +17,14 @@ def _apply_diffuse_tail(
     room: Room,
     beta: Tensor,
     tdiff: float,
-    tmax: float,
+    tmax: Optional[float],
     *,
     seed: Optional[int] = None,
 ) -> Tensor:
     """Apply a diffuse reverberation tail after tdiff."""
     nsample = rir.shape[-1]
-    tdiff_idx = min(nsample - 1, int(math.floor(tdiff * room.fs)))
-    if tdiff_idx <= 0:
+    tdiff_idx = int(math.floor(tdiff * room.fs))
+    if tdiff_idx <= 0 or tdiff_idx >= nsample:
         return rir
     tail_len = nsample - tdiff_idx
     t = torch.arange(tail_len, device=rir.device, dtype=rir.dtype) / room.fs
-- 
2.43.0


From d232db2704a476d674c46f97d54ad42de61bb986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:46 +0000
Subject: [PATCH 05/31] fix: do not truncate quantities derived from integer
 room sizes

---
 src/torchrir/util/tensor.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/util/tensor.py b/src/torchrir/util/tensor.py
index 4e7da48..0045b7e 100644
--- a/src/torchrir/util/tensor.py
+++ b/src/torchrir/util/tensor.py
@@ -30,9 +30,15 @@ def as_tensor(
 
 
 def ensure_dim(size: Tensor) -> Tensor:
-    """Validate room size dimensionality (2D or 3D)."""
+    """Validate room size dimensionality (2D or 3D).
+
+    Integer sizes are promoted to floating point so that quantities derived from
+    them (coefficients, surfaces, ...) are not truncated.
+    """
     if size.ndim != 1 or size.numel() not in (2, 3):
         raise ValueError("room size must be a 1D tensor of length 2 or 3")
+    if not size.is_floating_point():
+        size = size.to(torch.get_default_dtype())
     return size
 
 
-- 
2.43.0


From fb74a25a142d4d9f6ca395762b897fa1cea986ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:46 +0000
Subject: [PATCH 06/31] fix: do not truncate array geometry and margins for
 integer centers and room sizes

---
 src/torchrir/geometry/arrays.py   | 25 +++++++++++++++++++------
 src/torchrir/geometry/sampling.py |  2 +-
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/torchrir/geometry/arrays.py b/src/torchrir/geometry/arrays.py
index 9c8f75f..982973d 100644
--- a/src/torchrir/geometry/arrays.py
+++ b/src/torchrir/geometry/arrays.py
@@ -19,7 +19,7 @@ def binaural_array(
     dtype: torch.dtype | None = None,
 ) -> Tensor:
     """Create a two-mic binaural layout around a center point."""
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = _center_tensor(center, device=device, dtype=dtype)
     dim = center_t.numel()
     offset_vec = torch.zeros((dim,), device=center_t.device, dtype=center_t.dtype)
     offset_vec[0] = offset
@@ -43,7 +43,7 @@ def linear_array(
         raise ValueError("num must be positive")
     if spacing <= 0:
         raise ValueError("spacing must be positive")
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = _center_tensor(center, device=device, dtype=dtype)
     dim = center_t.numel()
     if direction is None:
         if axis < 0 or axis >= dim:
@@ -82,7 +82,7 @@ def circular_array(
         raise ValueError("num must be positive")
     if radius <= 0:
         raise ValueError("radius must be positive")
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = _center_tensor(center, device=device, dtype=dtype)
     dim = center_t.numel()
 
     angles = torch.linspace(
@@ -139,7 +139,7 @@ def polyhedron_array(
     """Create a regular polyhedron microphone array (3D only)."""
     if radius <= 0:
         raise ValueError("radius must be positive")
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = _center_tensor(center, device=device, dtype=dtype)
     if center_t.numel() != 3:
         raise ValueError("polyhedron arrays require 3D centers")
     vertices = _polyhedron_vertices(kind, device=center_t.device, dtype=center_t.dtype)
@@ -159,7 +159,7 @@ def eigenmike_em32(
     """Create the mh acoustics Eigenmike em32 geometry (3D only)."""
     if radius <= 0:
         raise ValueError("radius must be positive")
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = _center_tensor(center, device=device, dtype=dtype)
     if center_t.numel() != 3:
         raise ValueError("Eigenmike em32 requires a 3D center")
     theta_deg = torch.tensor(
@@ -257,7 +257,7 @@ def eigenmike_em64(
     """Create the mh acoustics Eigenmike em64 geometry (3D only)."""
     if radius <= 0:
         raise ValueError("radius must be positive")
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = _center_tensor(center, device=device, dtype=dtype)
     if center_t.numel() != 3:
         raise ValueError("Eigenmike em64 requires a 3D center")
     theta_deg = torch.tensor(
@@ -408,6 +408,19 @@ def eigenmike_em64(
     )
 
 
+def _center_tensor(
+    center: Sequence[float] | Tensor,
+    *,
+    device: torch.device | str | None,
+    dtype: torch.dtype | None,
+) -> Tensor:
+    """Convert a center to a tensor; integer centers become floating point."""
+    center_t = as_tensor(center, device=device, dtype=dtype)
+    if not center_t.is_floating_point():
+        center_t = center_t.to(torch.get_default_dtype())
+    return center_t
+
+
 def _basis_from_normal(normal: Tensor) -> tuple[Tensor, Tensor]:
     if normal.numel() != 3:
         raise ValueError("normal must be a 3D vector")
diff --git a/src/torchrir/geometry/sampling.py b/src/torchrir/geometry/sampling.py
index 2725621..3cd158b 100644
--- a/src/torchrir/geometry/sampling.py
+++ b/src/torchrir/geometry/sampling.py
@@ -90,6 +90,6 @@ def clamp_positions(
     positions: Tensor, room_size: Tensor, margin: float = 0.1
 ) -> Tensor:
     """Clamp positions to remain inside the room with a margin."""
-    min_v = torch.full_like(room_size, margin)
     max_v = room_size - margin
+    min_v = torch.full_like(max_v, margin)
     return torch.max(torch.min(positions, max_v), min_v)
-- 
2.43.0


From 48bd9469239ef47682338011a721fb3089297820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:12 +0000
Subject: [PATCH 07/31] fix: simulate in floating point when positions are
 given as integers

---
 src/torchrir/util/device.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/torchrir/util/device.py b/src/torchrir/util/device.py
index 4df5f00..eab34ca 100644
--- a/src/torchrir/util/device.py
+++ b/src/torchrir/util/device.py
@@ -71,14 +71,17 @@ class DeviceSpec:
     prefer: Tuple[str, ...] = ("cuda", "mps", "cpu")
 
     def resolve(self, *values) -> Tuple[torch.device, torch.dtype]:
-        """Resolve device/dtype from inputs with overrides."""
+        """Resolve device/dtype from inputs with overrides.
+
+        Integer inputs do not determine the dtype: simulations are floating point.
+        """
         tensor_device: Optional[torch.device] = None
         tensor_dtype: Optional[torch.dtype] = None
         for value in values:
             if torch.is_tensor(value):
                 if tensor_device is None:
                     tensor_device = value.device
-                if tensor_dtype is None:
+                if tensor_dtype is None and value.is_floating_point():
                     tensor_dtype = value.dtype
 
         if isinstance(self.device, str) and self.device.lower() == "auto":
-- 
2.43.0


From d6fb1de61dd4197c3caaf259000efcf42b0cab1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:37 +0000
Subject: [PATCH 08/31] fix: return the start point for a single-step linear
 trajectory

---
 src/torchrir/geometry/trajectories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/geometry/trajectories.py b/src/torchrir/geometry/trajectories.py
index 1affd23..31cf3ce 100644
--- a/src/torchrir/geometry/trajectories.py
+++ b/src/torchrir/geometry/trajectories.py
@@ -9,6 +9,6 @@ from torch import Tensor
 def linear_trajectory(start: Tensor, end: Tensor, steps: int) -> Tensor:
     """Create a linear trajectory between start and end."""
     return torch.stack(
-        [start + (end - start) * t / (steps - 1) for t in range(steps)],
+        [start + (end - start) * t / max(steps - 1, 1) for t in range(steps)],
         dim=0,
     )
-- 
2.43.0


From 25863d22c5bac47631e3a91c72bc50b2407b7fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:37 +0000
Subject: [PATCH 09/31] fix: keep circular arrays finite for a normal along the
 negative x axis

---
 src/torchrir/geometry/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/geometry/arrays.py b/src/torchrir/geometry/arrays.py
index 982973d..7cd706e 100644
--- a/src/torchrir/geometry/arrays.py
+++ b/src/torchrir/geometry/arrays.py
@@ -426,7 +426,7 @@ def _basis_from_normal(normal: Tensor) -> tuple[Tensor, Tensor]:
         raise ValueError("normal must be a 3D vector")
     n = normal / torch.linalg.norm(normal)
     ref = torch.tensor([1.0, 0.0, 0.0], device=normal.device, dtype=normal.dtype)
-    if torch.allclose(n, ref):
+    if torch.allclose(n.abs(), ref):
         ref = torch.tensor([0.0, 1.0, 0.0], device=normal.device, dtype=normal.dtype)
     basis_x = torch.cross(n, ref)
     basis_x = basis_x / torch.linalg.norm(basis_x)
-- 
2.43.0


From c8cd233667744ec2abb0761f01893c098764d904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:37 +0000
Subject: [PATCH 10/31] fix: reject NaN sampling rate, speed of sound and
 reverberation time

---
 src/torchrir/models/room.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/torchrir/models/room.py b/src/torchrir/models/room.py
index 3dec243..16cf47d 100644
--- a/src/torchrir/models/room.py
+++ b/src/torchrir/models/room.py
@@ -35,13 +35,13 @@ class Room:
         if torch.any(size <= 0):
             raise ValueError("room size must be strictly positive")
         object.__setattr__(self, "size", size)
-        if self.fs <= 0:
+        if not self.fs > 0:
             raise ValueError("fs must be positive")
-        if self.c <= 0:
+        if not self.c > 0:
             raise ValueError("c must be positive")
         if self.beta is not None and self.t60 is not None:
             raise ValueError("beta and t60 are mutually exclusive")
-        if self.t60 is not None and self.t60 <= 0:
+        if self.t60 is not None and not self.t60 > 0:
             raise ValueError("t60 must be positive")
         if self.beta is not None:
             beta = as_tensor(self.beta, dtype=size.dtype).view(-1)
-- 
2.43.0


From d7c5fc1335f922b8f30a3fa41b8479efbe6d7425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:10 +0000
Subject: [PATCH 11/31] fix: dynamic convolution refuses mismatched source
 counts like the static one

---
 src/torchrir/signal/dynamic.py  | 4 +++-
 src/torchrir/signal/internal.py | 9 +++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/signal/dynamic.py b/src/torchrir/signal/dynamic.py
index 2b8da0d..f3df5ed 100644
--- a/src/torchrir/signal/dynamic.py
+++ b/src/torchrir/signal/dynamic.py
@@ -13,7 +13,7 @@ from typing import Optional
 import torch
 from torch import Tensor
 
-from .internal import _ensure_dynamic_rirs, _ensure_signal
+from .internal import _ensure_dynamic_rirs, _ensure_signal, _match_sources
 from .static import fft_convolve
 
 
@@ -58,6 +58,7 @@ class DynamicConvolver:
 def _convolve_dynamic_hop(signal: Tensor, rirs: Tensor, hop: int) -> Tensor:
     signal = _ensure_signal(signal)
     rirs = _ensure_dynamic_rirs(rirs, signal)
+    signal = _match_sources(signal, rirs.shape[1])
     return _convolve_dynamic_rir_hop(signal, rirs, hop)
 
 
@@ -70,6 +71,7 @@ def _convolve_dynamic_trajectory(
 ) -> Tensor:
     signal = _ensure_signal(signal)
     rirs = _ensure_dynamic_rirs(rirs, signal)
+    signal = _match_sources(signal, rirs.shape[1])
     return _convolve_dynamic_rir_trajectory(signal, rirs, timestamps=timestamps, fs=fs)
 
 
diff --git a/src/torchrir/signal/internal.py b/src/torchrir/signal/internal.py
index faca6e5..07ee950 100644
--- a/src/torchrir/signal/internal.py
+++ b/src/torchrir/signal/internal.py
@@ -14,6 +14,15 @@ def _ensure_signal(signal: Tensor) -> Tensor:
     raise ValueError("signal must have shape (n_samples,) or (n_src, n_samples)")
 
 
+def _match_sources(signal: Tensor, n_src: int) -> Tensor:
+    """Match the signal sources to the RIR sources (one signal may feed all)."""
+    if signal.shape[0] not in (1, n_src):
+        raise ValueError("signal source count does not match rirs")
+    if signal.shape[0] == 1 and n_src > 1:
+        signal = signal.expand(n_src, -1)
+    return signal
+
+
 def _ensure_static_rirs(rirs: Tensor) -> Tensor:
     """Normalize static RIR shapes to (n_src, n_mic, rir_len)."""
     if rirs.ndim == 1:
-- 
2.43.0


From 0e6618fe1d0dbf0519d4585ca69e8cd0c2d62540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:10 +0000
Subject: [PATCH 12/31] fix: accept timestamps beyond the end of the signal

---
 src/torchrir/signal/dynamic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/signal/dynamic.py b/src/torchrir/signal/dynamic.py
index f3df5ed..02e930e 100644
--- a/src/torchrir/signal/dynamic.py
+++ b/src/torchrir/signal/dynamic.py
@@ -121,7 +121,8 @@ def _convolve_dynamic_rir_trajectory(
             raise ValueError("timestamps must be 1D and match number of RIR steps")
         if ts[0].item() != 0:
             raise ValueError("first timestamp must be 0")
-        w_ini = (ts * fs).to(torch.long)
+        # Steps that start after the end of the signal are not used.
+        w_ini = (ts * fs).to(torch.long).clamp(max=n_samples)
     else:
         step_fs = n_samples / t_steps
         ts_dtype = torch.float32 if signal.device.type == "mps" else torch.float64
-- 
2.43.0


From 0e8e0e8239bf86e201f36fba24dd132e37d17c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:28 +0000
Subject: [PATCH 13/31] fix: keep loggers whose name merely starts with
 torchrir inside the namespace

---
 src/torchrir/logging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/logging.py b/src/torchrir/logging.py
index 5d2692c..68214a1 100644
--- a/src/torchrir/logging.py
+++ b/src/torchrir/logging.py
@@ -70,7 +70,7 @@ def get_logger(name: Optional[str] = None) -> logging.Logger:
     """
     if not name:
         return logging.getLogger("torchrir")
-    if name.startswith("torchrir"):
+    if name == "torchrir" or name.startswith("torchrir."):
         return logging.getLogger(name)
     return logging.getLogger(f"torchrir.{name}")
 
-- 
2.43.0


From 52e662d3fc59a7ce4ca61361580516e5955574ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:28 +0000
Subject: [PATCH 14/31] fix: apply the level and format of every setup_logging
 call to its handler

---
 src/torchrir/logging.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/torchrir/logging.py b/src/torchrir/logging.py
index 68214a1..0ecbe5a 100644
--- a/src/torchrir/logging.py
+++ b/src/torchrir/logging.py
@@ -54,9 +54,14 @@ def setup_logging(config: LoggingConfig, *, name: str = "torchrir") -> logging.L
     logger.propagate = config.propagate
     if not logger.handlers:
         handler = logging.StreamHandler()
-        handler.setLevel(level)
-        handler.setFormatter(logging.Formatter(config.format, datefmt=config.datefmt))
+        setattr(handler, "_torchrir_handler", True)
         logger.addHandler(handler)
+    for handler in logger.handlers:
+        if getattr(handler, "_torchrir_handler", False):
+            handler.setLevel(level)
+            handler.setFormatter(
+                logging.Formatter(config.format, datefmt=config.datefmt)
+            )
     return logger
 
 
-- 
2.43.0


From 90a89b6134b42d96be21dda6da320f700050059f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 15/31] fix: refuse to sample positions when the margin leaves
 no space in the room

---
 src/torchrir/geometry/sampling.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/torchrir/geometry/sampling.py b/src/torchrir/geometry/sampling.py
index 3cd158b..fc43660 100644
--- a/src/torchrir/geometry/sampling.py
+++ b/src/torchrir/geometry/sampling.py
@@ -20,6 +20,8 @@ def sample_positions(
     dim = room_size.numel()
     low = [margin] * dim
     high = [float(room_size[i].item()) - margin for i in range(dim)]
+    if any(h < lo for lo, h in zip(low, high)):
+        raise ValueError("margin leaves no space inside the room")
     coords: List[List[float]] = []
     for _ in range(num):
         point = [rng.uniform(low[i], high[i]) for i in range(dim)]
@@ -67,6 +69,8 @@ def sample_positions_min_distance(
         raise ValueError("center dimension must match room_size.")
     low = [margin] * dim
     high = [float(room_size[i].item()) - margin for i in range(dim)]
+    if any(h < lo for lo, h in zip(low, high)):
+        raise ValueError("margin leaves no space inside the room")
     coords: List[List[float]] = []
     attempts = 0
     while len(coords) < num and attempts < max_attempts:
-- 
2.43.0


From 1a90adda3b90fe1b6c0aba968ef928228a3546b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 16/31] fix: honour a height range that is a single height when
 sampling positions

---
 src/torchrir/geometry/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/torchrir/geometry/sampling.py b/src/torchrir/geometry/sampling.py
index fc43660..dc695a6 100644
--- a/src/torchrir/geometry/sampling.py
+++ b/src/torchrir/geometry/sampling.py
@@ -44,7 +44,7 @@ def sample_positions_with_z_range(
     z_min, z_max = z_range
     z_low = max(margin, float(z_min))
     z_high = min(float(room_size[2].item()) - margin, float(z_max))
-    if z_high <= z_low:
+    if z_high < z_low:
         return positions
     z_vals = [rng.uniform(z_low, z_high) for _ in range(num)]
     positions[:, 2] = torch.tensor(z_vals, dtype=positions.dtype)
@@ -80,7 +80,7 @@ def sample_positions_min_distance(
             z_min, z_max = z_range
             z_low = max(margin, float(z_min))
             z_high = min(float(room_size[2].item()) - margin, float(z_max))
-            if z_high > z_low:
+            if z_high >= z_low:
                 point[2] = rng.uniform(z_low, z_high)
         dist = torch.linalg.norm(torch.tensor(point) - center).item()
         if dist >= min_distance:
-- 
2.43.0


From c9ef7fca0b89ed344e5c1372a3e23ccf4141ae1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 17/31] fix: a failed extraction no longer leaves a partial
 dataset that later passes for complete

---
 src/torchrir/datasets/cmu_arctic.py  | 16 ++++++++++++----
 src/torchrir/datasets/librispeech.py | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/torchrir/datasets/cmu_arctic.py b/src/torchrir/datasets/cmu_arctic.py
index c59f12a..68cbece 100644
--- a/src/torchrir/datasets/cmu_arctic.py
+++ b/src/torchrir/datasets/cmu_arctic.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import logging
+import shutil
 import tarfile
 import urllib.request
 from dataclasses import dataclass
@@ -113,15 +114,22 @@ class CmuArcticDataset(BaseDataset):
         if not self._dataset_dir.exists():
             logger.info("Extracting %s", archive_path)
             try:
-                with tarfile.open(archive_path, "r:bz2") as tar:
-                    safe_extractall(tar, self._base_dir)
+                self._extract(archive_path)
             except (tarfile.ReadError, EOFError, OSError) as exc:
                 logger.warning("Extraction failed (%s); re-downloading.", exc)
                 if archive_path.exists():
                     archive_path.unlink()
                 _download(url, archive_path)
-                with tarfile.open(archive_path, "r:bz2") as tar:
-                    safe_extractall(tar, self._base_dir)
+                self._extract(archive_path)
+
+    def _extract(self, archive_path: Path) -> None:
+        """Extract the archive; a failure leaves no partial dataset behind."""
+        try:
+            with tarfile.open(archive_path, "r:bz2") as tar:
+                safe_extractall(tar, self._base_dir)
+        except BaseException:
+            shutil.rmtree(self._dataset_dir, ignore_errors=True)
+            raise
 
     def sentences(self) -> List[CmuArcticSentence]:
         """Parse all sentence metadata."""
diff --git a/src/torchrir/datasets/librispeech.py b/src/torchrir/datasets/librispeech.py
index ee10fbd..fc415cd 100644
--- a/src/torchrir/datasets/librispeech.py
+++ b/src/torchrir/datasets/librispeech.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import logging
+import shutil
 import tarfile
 import urllib.request
 from dataclasses import dataclass
@@ -141,15 +142,22 @@ class LibriSpeechDataset(BaseDataset):
         if not self._subset_dir.exists():
             logger.info("Extracting %s", archive_path)
             try:
-                with tarfile.open(archive_path, "r:gz") as tar:
-                    safe_extractall(tar, self.root)
+                self._extract(archive_path)
             except (tarfile.ReadError, EOFError, OSError) as exc:
                 logger.warning("Extraction failed (%s); re-downloading.", exc)
                 if archive_path.exists():
                     archive_path.unlink()
                 _download(url, archive_path)
-                with tarfile.open(archive_path, "r:gz") as tar:
-                    safe_extractall(tar, self.root)
+                self._extract(archive_path)
+
+    def _extract(self, archive_path: Path) -> None:
+        """Extract the archive; a failure leaves no partial dataset behind."""
+        try:
+            with tarfile.open(archive_path, "r:gz") as tar:
+                safe_extractall(tar, self.root)
+        except BaseException:
+            shutil.rmtree(self._subset_dir, ignore_errors=True)
+            raise
 
     def attribution_info(self) -> DatasetAttribution:
         """Return attribution and license information for LibriSpeech."""
-- 
2.43.0


From effd29f67fdd69736b3c5e265cf42fdcd1d18347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 18/31] fix: download LibriSpeech again when its gzip stream is
 corrupt

---
 src/torchrir/datasets/librispeech.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/datasets/librispeech.py b/src/torchrir/datasets/librispeech.py
index fc415cd..e74f666 100644
--- a/src/torchrir/datasets/librispeech.py
+++ b/src/torchrir/datasets/librispeech.py
@@ -6,6 +6,7 @@ import logging
 import shutil
 import tarfile
 import urllib.request
+import zlib
 from dataclasses import dataclass
 from pathlib import Path
 from typing import List, Tuple
@@ -143,7 +144,7 @@ class LibriSpeechDataset(BaseDataset):
             logger.info("Extracting %s", archive_path)
             try:
                 self._extract(archive_path)
-            except (tarfile.ReadError, EOFError, OSError) as exc:
+            except (tarfile.ReadError, EOFError, OSError, zlib.error) as exc:
                 logger.warning("Extraction failed (%s); re-downloading.", exc)
                 if archive_path.exists():
                     archive_path.unlink()
-- 
2.43.0


From b18a95c24e7086bf5bce0b9789806aa2f5df6bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:32 +0000
Subject: [PATCH 19/31] fix: collate items of different data types without
 truncating samples

---
 src/torchrir/datasets/collate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/datasets/collate.py b/src/torchrir/datasets/collate.py
index f28f4c0..3eb4363 100644
--- a/src/torchrir/datasets/collate.py
+++ b/src/torchrir/datasets/collate.py
@@ -61,10 +61,13 @@ def collate_dataset_items(
 
     lengths = torch.tensor([item.audio.numel() for item in batch], dtype=torch.long)
     max_len = int(lengths.max().item())
+    dtype = batch[0].audio.dtype
+    for item in batch[1:]:
+        dtype = torch.promote_types(dtype, item.audio.dtype)
     audio = torch.full(
         (len(batch), max_len),
         pad_value,
-        dtype=batch[0].audio.dtype,
+        dtype=dtype,
         device=batch[0].audio.device,
     )
 
-- 
2.43.0


From 45f03cf9ea69a02fa1b10d498e7a5998fcbae7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:00 +0000
Subject: [PATCH 20/31] fix: write channel-major audio with more than eight
 channels in channel order

---
 src/torchrir/io/audio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/io/audio.py b/src/torchrir/io/audio.py
index 2a9ea63..2b58e80 100644
--- a/src/torchrir/io/audio.py
+++ b/src/torchrir/io/audio.py
@@ -115,7 +115,7 @@ def _save_audio(
         max_val = float(audio.abs().max().item()) if audio.numel() else 0.0
         if max_val > 0:
             audio = audio / max_val * peak
-    if audio.ndim == 2 and audio.shape[0] <= 8:
+    if audio.ndim == 2 and (audio.shape[0] <= 8 or audio.shape[0] < audio.shape[1]):
         audio = audio.transpose(0, 1)
     if subtype is None:
         # Backward-compatible fallback for tensors that carry custom attrs.
-- 
2.43.0


From a4a129407a600ad9d24b344092f9730fd8b55ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:00 +0000
Subject: [PATCH 21/31] fix: keep values outside [-1, 1] when saving wav files
 without normalisation

---
 src/torchrir/io/audio.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/torchrir/io/audio.py b/src/torchrir/io/audio.py
index 2b58e80..f834d5a 100644
--- a/src/torchrir/io/audio.py
+++ b/src/torchrir/io/audio.py
@@ -120,6 +120,10 @@ def _save_audio(
     if subtype is None:
         # Backward-compatible fallback for tensors that carry custom attrs.
         subtype = getattr(audio, "_torchrir_subtype", None)
+    if subtype is None and Path(path).suffix.lower() == ".wav" and audio.numel():
+        # The default PCM subtype would clip values outside [-1, 1].
+        if float(audio.abs().max().item()) > 1.0:
+            subtype = "FLOAT"
     sf.write(str(path), audio.numpy(), sample_rate, subtype=subtype)
 
 
-- 
2.43.0


From ebefd388c829694c26f57b99d0b783746c2fa2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:01 +0000
Subject: [PATCH 22/31] fix: list LibriSpeech utterances in a stable order

---
 src/torchrir/datasets/librispeech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/datasets/librispeech.py b/src/torchrir/datasets/librispeech.py
index e74f666..f4c5497 100644
--- a/src/torchrir/datasets/librispeech.py
+++ b/src/torchrir/datasets/librispeech.py
@@ -103,7 +103,7 @@ class LibriSpeechDataset(BaseDataset):
         search_root = (
             self._speaker_dir if self._speaker_dir is not None else self._subset_dir
         )
-        for trans_path in search_root.rglob("*.trans.txt"):
+        for trans_path in sorted(search_root.rglob("*.trans.txt")):
             chapter_dir = trans_path.parent
             speaker_id = chapter_dir.parent.name
             chapter_id = chapter_dir.name
-- 
2.43.0


From cb5006dd4dfcbdb044c140e4ed35b5848edd59ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:13 +0000
Subject: [PATCH 23/31] fix: resolve upper-case and indexed accelerator names

---
 src/torchrir/util/device.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/torchrir/util/device.py b/src/torchrir/util/device.py
index eab34ca..fa663fa 100644
--- a/src/torchrir/util/device.py
+++ b/src/torchrir/util/device.py
@@ -41,18 +41,18 @@ def resolve_device(
 
     if dev.startswith("cuda"):
         if torch.cuda.is_available():
-            return torch.device(device)
+            return torch.device(dev)
         warnings.warn("CUDA not available; falling back to CPU.", RuntimeWarning)
         return torch.device("cpu")
-    if dev == "mps":
+    if dev.startswith("mps"):
         if torch.backends.mps.is_available():
-            return torch.device("mps")
+            return torch.device(dev)
         warnings.warn("MPS not available; falling back to CPU.", RuntimeWarning)
         return torch.device("cpu")
     if dev == "cpu":
         return torch.device("cpu")
 
-    return torch.device(device)
+    return torch.device(dev)
 
 
 @dataclass(frozen=True)
-- 
2.43.0


From 4292aea18d8e649de40f760dc6cf3d670ed2dc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:44 +0000
Subject: [PATCH 24/31] fix: exact microphone spacing in the metadata of large
 arrays

---
 src/torchrir/io/metadata.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/io/metadata.py b/src/torchrir/io/metadata.py
index e851224..d803dd9 100644
--- a/src/torchrir/io/metadata.py
+++ b/src/torchrir/io/metadata.py
@@ -192,7 +192,9 @@ def _array_attributes(mics: MicrophoneArray) -> ArrayAttributes:
     center = pos.mean(dim=0)
     spacing = None
     if n_mic >= 2:
-        dists = torch.cdist(pos, pos)
+        dists = torch.cdist(
+            pos, pos, compute_mode="donot_use_mm_for_euclid_dist"
+        )
         dists = dists[dists > 0]
         if dists.numel() > 0:
             spacing = float(dists.min().item())
-- 
2.43.0


From fdb0d4182429a6aae9e2b1f4ab437ee8c462d428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:27 +0000
Subject: [PATCH 25/31] fix: scale dynamic scenes so that the mixture does not
 clip

---
 src/torchrir/datasets/dynamic_cmu_arctic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/datasets/dynamic_cmu_arctic.py b/src/torchrir/datasets/dynamic_cmu_arctic.py
index ac3c1b6..91f7d75 100644
--- a/src/torchrir/datasets/dynamic_cmu_arctic.py
+++ b/src/torchrir/datasets/dynamic_cmu_arctic.py
@@ -407,7 +407,8 @@ def _load_fixed_length_signal(
 def _normalize_sources(
     stems: list[np.ndarray], *, peak_limit: float = 0.99
 ) -> list[np.ndarray]:
-    peak = max(float(np.max(np.abs(stem))) for stem in stems)
+    mixture = np.sum(np.stack(stems, axis=0), axis=0)
+    peak = max(float(np.max(np.abs(audio))) for audio in [*stems, mixture])
     if peak <= 0.0 or peak <= peak_limit:
         return stems
     scale = peak_limit / peak
-- 
2.43.0


From 96a7c832e827c5630f208c522738bb23c3096a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:27 +0000
Subject: [PATCH 26/31] fix: refuse a fixed array centre that puts microphones
 outside the room

---
 src/torchrir/datasets/dynamic_cmu_arctic.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/torchrir/datasets/dynamic_cmu_arctic.py b/src/torchrir/datasets/dynamic_cmu_arctic.py
index 91f7d75..46d71e6 100644
--- a/src/torchrir/datasets/dynamic_cmu_arctic.py
+++ b/src/torchrir/datasets/dynamic_cmu_arctic.py
@@ -547,6 +547,13 @@ def build_dynamic_cmu_arctic_dataset(
         raise ValueError(
             f"n_sources ({n_sources}) must be <= n_mics ({n_mics}) for AuxIVA-based evaluation"
         )
+    if not randomize_mic_center and not (
+        np.all(mic_center_arr >= radius)
+        and np.all(mic_center_arr <= room_size_arr - radius)
+    ):
+        raise ValueError(
+            "mic_center must keep the whole microphone array inside the room"
+        )
 
     room = Room.shoebox(
         size=room_size_arr.tolist(),
-- 
2.43.0


From 6c225304b6a66a5eea37144e5b118d329ad4663f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:43 +0000
Subject: [PATCH 27/31] fix: validate dataset options before removing an
 existing dataset

---
 src/torchrir/datasets/dynamic_cmu_arctic.py | 126 +++++++++++++++-----
 1 file changed, 98 insertions(+), 28 deletions(-)

diff --git a/src/torchrir/datasets/dynamic_cmu_arctic.py b/src/torchrir/datasets/dynamic_cmu_arctic.py
index 46d71e6..451dbad 100644
--- a/src/torchrir/datasets/dynamic_cmu_arctic.py
+++ b/src/torchrir/datasets/dynamic_cmu_arctic.py
@@ -69,6 +69,24 @@ def _sample_random_mic_center(
     min_source_distance_m: float,
     array_radius_m: float,
 ) -> np.ndarray:
+    low_xy, high_xy, low_z, high_z = _mic_center_range(
+        room_size=room_size,
+        source_margin=source_margin,
+        min_source_distance_m=min_source_distance_m,
+        array_radius_m=array_radius_m,
+    )
+    center_xy = rng.uniform(low_xy, high_xy)
+    center_z = float(rng.uniform(low_z, high_z))
+    return np.array([center_xy[0], center_xy[1], center_z], dtype=np.float64)
+
+
+def _mic_center_range(
+    *,
+    room_size: np.ndarray,
+    source_margin: np.ndarray,
+    min_source_distance_m: float,
+    array_radius_m: float,
+) -> tuple[np.ndarray, np.ndarray, float, float]:
     xmin, ymin = float(source_margin[0]), float(source_margin[1])
     xmax = float(room_size[0] - source_margin[0])
     ymax = float(room_size[1] - source_margin[1])
@@ -95,10 +113,7 @@ def _sample_random_mic_center(
             "No feasible mic-center sampling range. "
             "Try larger room, smaller source margin, or smaller minimum source distance."
         )
-
-    center_xy = rng.uniform(low_xy, high_xy)
-    center_z = float(rng.uniform(low_z, high_z))
-    return np.array([center_xy[0], center_xy[1], center_z], dtype=np.float64)
+    return low_xy, high_xy, low_z, high_z
 
 
 def _max_radius_for_azimuth(
@@ -174,12 +189,8 @@ def _sample_position_on_azimuth(
     return np.array([x, y, z], dtype=np.float64)
 
 
-def _build_constrained_source_positions(
+def _validate_motion_options(
     *,
-    rng: np.random.Generator,
-    room_size: np.ndarray,
-    mic_center: np.ndarray,
-    margin: np.ndarray,
     n_sources: int,
     n_moving_sources: int,
     duration_sec: float,
@@ -187,18 +198,7 @@ def _build_constrained_source_positions(
     move_end_ratio: float,
     moving_speed_min: float,
     moving_speed_max: float,
-    min_radius_m: float = 1.5,
-    max_trials: int = 100,
-) -> tuple[
-    np.ndarray,
-    np.ndarray,
-    np.ndarray,
-    np.ndarray,
-    np.ndarray,
-    np.ndarray,
-    np.ndarray,
-    list[int],
-]:
+) -> None:
     if n_sources <= 0:
         raise ValueError("n_sources must be > 0")
     if n_moving_sources < 0 or n_moving_sources > n_sources:
@@ -218,6 +218,43 @@ def _build_constrained_source_positions(
     if move_duration_sec <= 0.0:
         raise ValueError("Move duration must be positive.")
 
+
+def _build_constrained_source_positions(
+    *,
+    rng: np.random.Generator,
+    room_size: np.ndarray,
+    mic_center: np.ndarray,
+    margin: np.ndarray,
+    n_sources: int,
+    n_moving_sources: int,
+    duration_sec: float,
+    move_start_ratio: float,
+    move_end_ratio: float,
+    moving_speed_min: float,
+    moving_speed_max: float,
+    min_radius_m: float = 1.5,
+    max_trials: int = 100,
+) -> tuple[
+    np.ndarray,
+    np.ndarray,
+    np.ndarray,
+    np.ndarray,
+    np.ndarray,
+    np.ndarray,
+    np.ndarray,
+    list[int],
+]:
+    _validate_motion_options(
+        n_sources=n_sources,
+        n_moving_sources=n_moving_sources,
+        duration_sec=duration_sec,
+        move_start_ratio=move_start_ratio,
+        move_end_ratio=move_end_ratio,
+        moving_speed_min=moving_speed_min,
+        moving_speed_max=moving_speed_max,
+    )
+    move_duration_sec = float(duration_sec) * (move_end_ratio - move_start_ratio)
+
     moving_indices = (
         sorted(rng.choice(n_sources, size=n_moving_sources, replace=False).tolist())
         if n_moving_sources > 0
@@ -497,18 +534,27 @@ def build_dynamic_cmu_arctic_dataset(
         raise ValueError("duration_sec must be > 0")
     if rir_samples <= 0:
         raise ValueError("rir_samples must be > 0")
+    if max_order < 0:
+        raise ValueError("max_order must be non-negative")
 
     min_source_distance_m = 1.8
     move_start_sec = float(duration_sec) * move_start_ratio
     move_end_sec = float(duration_sec) * move_end_ratio
 
-    if dataset_root.exists():
-        if not overwrite:
-            raise FileExistsError(
-                f"Dataset root already exists: {dataset_root}. Use overwrite=True."
-            )
-        shutil.rmtree(dataset_root)
-    dataset_root.mkdir(parents=True, exist_ok=True)
+    _validate_motion_options(
+        n_sources=n_sources,
+        n_moving_sources=n_moving_sources,
+        duration_sec=float(duration_sec),
+        move_start_ratio=move_start_ratio,
+        move_end_ratio=move_end_ratio,
+        moving_speed_min=moving_speed_min,
+        moving_speed_max=moving_speed_max,
+    )
+
+    if dataset_root.exists() and not overwrite:
+        raise FileExistsError(
+            f"Dataset root already exists: {dataset_root}. Use overwrite=True."
+        )
 
     rng = np.random.default_rng(seed)
     rng_py = random.Random(seed)
@@ -554,6 +600,25 @@ def build_dynamic_cmu_arctic_dataset(
         raise ValueError(
             "mic_center must keep the whole microphone array inside the room"
         )
+    if randomize_mic_center:
+        _mic_center_range(
+            room_size=room_size_arr,
+            source_margin=source_margin_arr,
+            min_source_distance_m=min_source_distance_m,
+            array_radius_m=radius,
+        )
+    elif np.any(
+        mic_center_arr[:2] - source_margin_arr[:2] < min_source_distance_m
+    ) or np.any(
+        room_size_arr[:2] - source_margin_arr[:2] - mic_center_arr[:2]
+        < min_source_distance_m
+    ):
+        raise ValueError(
+            "No feasible source positions around mic_center. "
+            "Try larger room or smaller source margin."
+        )
+    if room_size_arr[2] - source_margin_arr[2] <= source_margin_arr[2]:
+        raise ValueError("Room is too small for the configured z-margin")
 
     room = Room.shoebox(
         size=room_size_arr.tolist(),
@@ -564,6 +629,11 @@ def build_dynamic_cmu_arctic_dataset(
     )
     convolver = DynamicConvolver(mode="trajectory")
 
+    # Only remove an existing dataset once every option and input is known to be usable.
+    if dataset_root.exists():
+        shutil.rmtree(dataset_root)
+    dataset_root.mkdir(parents=True, exist_ok=True)
+
     for scene_idx in range(n_scenes):
         scene_id = f"scene_{scene_idx:04d}"
         scene_dir = dataset_root / scene_id
-- 
2.43.0


From fc214b1a618a4aec2ff3acda7c393f46af6ebf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:10 +0000
Subject: [PATCH 28/31] fix: keep the axes of dynamic scene audio when both
 have the same length

---
 src/torchrir/datasets/dynamic_cmu_arctic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/torchrir/datasets/dynamic_cmu_arctic.py b/src/torchrir/datasets/dynamic_cmu_arctic.py
index 451dbad..278ea0a 100644
--- a/src/torchrir/datasets/dynamic_cmu_arctic.py
+++ b/src/torchrir/datasets/dynamic_cmu_arctic.py
@@ -463,10 +463,11 @@ def _to_time_channel_audio(
     if data.ndim != 2:
         raise ValueError(f"Unexpected audio ndim: {data.ndim}, shape={data.shape}")
 
-    if data.shape[1] == n_mics:
-        return data
+    # The convolver returns (n_mics, n_samples), also when both sizes agree.
     if data.shape[0] == n_mics:
         return data.T
+    if data.shape[1] == n_mics:
+        return data
 
     raise ValueError(
         "Could not infer time/channel axes for convolved signal with "
-- 
2.43.0


From 42498403c5148752ab0464d9136eed15cc67bbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:06 +0000
Subject: [PATCH 29/31] fix: remove temporary files when adding sound to a
 video fails

---
 src/torchrir/viz/animation.py | 67 +++++++++++++++++------------------
 1 file changed, 33 insertions(+), 34 deletions(-)

diff --git a/src/torchrir/viz/animation.py b/src/torchrir/viz/animation.py
index c333e6f..63f2ff0 100644
--- a/src/torchrir/viz/animation.py
+++ b/src/torchrir/viz/animation.py
@@ -340,37 +340,36 @@ def _add_stereo_audio_to_mp4(
 
     tmp_audio = video_path.with_name(video_path.stem + "_tmp_audio.wav")
     tmp_video = video_path.with_name(video_path.stem + "_tmp_mux.mp4")
-    sf.write(tmp_audio, stereo, int(sample_rate))
-
-    cmd = [
-        ffmpeg,
-        "-y",
-        "-i",
-        str(video_path),
-        "-i",
-        str(tmp_audio),
-        "-map",
-        "0:v:0",
-        "-map",
-        "1:a:0",
-        "-c:v",
-        "copy",
-        "-c:a",
-        "aac",
-        "-shortest",
-        str(tmp_video),
-    ]
-    result = subprocess.run(cmd, check=False, capture_output=True, text=True)
-    if result.returncode != 0:
-        LOGGER.warning(
-            "Failed to mux audio into %s: %s",
-            video_path.name,
-            (result.stderr or result.stdout).strip(),
-        )
-    else:
-        tmp_video.replace(video_path)
-
-    if tmp_audio.exists():
-        tmp_audio.unlink()
-    if tmp_video.exists():
-        tmp_video.unlink()
+    try:
+        sf.write(tmp_audio, stereo, int(sample_rate))
+
+        cmd = [
+            ffmpeg,
+            "-y",
+            "-i",
+            str(video_path),
+            "-i",
+            str(tmp_audio),
+            "-map",
+            "0:v:0",
+            "-map",
+            "1:a:0",
+            "-c:v",
+            "copy",
+            "-c:a",
+            "aac",
+            "-shortest",
+            str(tmp_video),
+        ]
+        result = subprocess.run(cmd, check=False, capture_output=True, text=True)
+        if result.returncode != 0:
+            LOGGER.warning(
+                "Failed to mux audio into %s: %s",
+                video_path.name,
+                (result.stderr or result.stdout).strip(),
+            )
+        else:
+            tmp_video.replace(video_path)
+    finally:
+        tmp_audio.unlink(missing_ok=True)
+        tmp_video.unlink(missing_ok=True)
-- 
2.43.0


From 117e62469c85a387d1606c9875a9c74a0563699a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:26 +0000
Subject: [PATCH 30/31] fix: do not download the archive of a dataset that is
 already extracted

---
 src/torchrir/datasets/cmu_arctic.py  | 2 ++
 src/torchrir/datasets/librispeech.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/torchrir/datasets/cmu_arctic.py b/src/torchrir/datasets/cmu_arctic.py
index 68cbece..e92d405 100644
--- a/src/torchrir/datasets/cmu_arctic.py
+++ b/src/torchrir/datasets/cmu_arctic.py
@@ -104,6 +104,8 @@ class CmuArcticDataset(BaseDataset):
 
     def _download_and_extract(self) -> None:
         """Download and extract the speaker archive if needed."""
+        if self._dataset_dir.exists():
+            return
         self._base_dir.mkdir(parents=True, exist_ok=True)
         archive_path = self._base_dir / self._archive_name
         url = f"{BASE_URL}/{self._archive_name}"
diff --git a/src/torchrir/datasets/librispeech.py b/src/torchrir/datasets/librispeech.py
index f4c5497..f05da3b 100644
--- a/src/torchrir/datasets/librispeech.py
+++ b/src/torchrir/datasets/librispeech.py
@@ -133,6 +133,8 @@ class LibriSpeechDataset(BaseDataset):
 
     def _download_and_extract(self) -> None:
         """Download and extract the subset archive if needed."""
+        if self._subset_dir.exists():
+            return
         self.root.mkdir(parents=True, exist_ok=True)
         archive_path = self.root / self._archive_name
         url = f"{BASE_URL}/{self._archive_name}"
-- 
2.43.0


From 47609e34ed000082c19a4c5a37de84164789467b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:49 +0000
Subject: [PATCH 31/31] fix: place source labels with three coordinates in 3D
 animations

Axes3D.text requires x, y and z, so every 3D animation with source labels
failed (and the scene savers skipped it with a warning).
---
 src/torchrir/viz/animation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/viz/animation.py b/src/torchrir/viz/animation.py
index 63f2ff0..35494c0 100644
--- a/src/torchrir/viz/animation.py
+++ b/src/torchrir/viz/animation.py
@@ -217,7 +217,8 @@ def _build_scene_animation(
     source_texts = []
     if annotate_sources:
         for idx in range(view_src_traj.shape[1]):
-            text = ax.text(0.0, 0.0, f"S{idx}", fontsize=_VIDEO_FONT_SIZE_PT)
+            origin = [0.0] * view_dim
+            text = ax.text(*origin, f"S{idx}", fontsize=_VIDEO_FONT_SIZE_PT)
             source_texts.append(text)
 
     ax.legend(loc="best", fontsize=_VIDEO_FONT_SIZE_PT)
-- 
2.43.0

