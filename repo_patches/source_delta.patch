From 8653f94653295425bce8eb76c28a6bd9a3e09126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:13 +0000
Subject: [PATCH 01/13] fix: don't corrupt the output file when starting from a
 cut short or shared one

An interrupted run could leave an empty file, part of the header, or part of a
record. The next run then appended its first record to that fragment (silently
producing a wrong record) or left the file without a header. Two collectors
creating the same file could also truncate each other's records.
---
 src/collect_data.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/collect_data.py b/src/collect_data.py
index 8c411f1..9c5390c 100644
--- a/src/collect_data.py
+++ b/src/collect_data.py
@@ -93,6 +93,25 @@ class DecodingProblem:
     circuit_maker: Callable[[], stim.Circuit]
 
 
+def _prepare_out_file(out_path: str, *, discard_previous_data: bool):
+    """Ensures the output file has a header, and that appended records will start on a new line.
+
+    Existing contents are never truncated unless they're being discarded, because another process may
+    be appending to the same file. A previous process may have stopped partway through writing the
+    header or a record.
+    """
+    if discard_previous_data or not pathlib.Path(out_path).exists():
+        previous = ""
+    else:
+        with open(out_path, "r") as f:
+            previous = f.read()
+    with open(out_path, "w" if discard_previous_data else "a") as f:
+        if CSV_HEADER.startswith(previous):
+            print(CSV_HEADER[len(previous):], file=f)
+        elif not previous.endswith("\n"):
+            print(file=f)
+
+
 def collect_simulated_experiment_data(problems: List[DecodingProblem],
                                       *,
                                       min_shots: int,
@@ -138,9 +157,7 @@ def collect_simulated_experiment_data(problems: List[DecodingProblem],
     """
     print(CSV_HEADER, flush=True)
     if out_path is not None:
-        if discard_previous_data or not pathlib.Path(out_path).exists():
-            with open(out_path, "w") as f:
-                print(CSV_HEADER, file=f)
+        _prepare_out_file(out_path, discard_previous_data=discard_previous_data)
 
     if max_batch is None:
         max_batch = max_shots
@@ -199,9 +216,7 @@ def collect_detection_fraction_data(problems: List[DecodingProblem],
                                     discard_previous_data: bool):
     print(CSV_HEADER, flush=True)
     if out_path is not None:
-        if discard_previous_data or not pathlib.Path(out_path).exists():
-            with open(out_path, "w") as f:
-                print(CSV_HEADER, file=f)
+        _prepare_out_file(out_path, discard_previous_data=discard_previous_data)
 
     for problem in problems:
         t0 = time.monotonic()
-- 
2.43.0


From 5c98af33832b21a6f9e5e0fd1c72223a622e3752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:13 +0000
Subject: [PATCH 02/13] fix: don't misread cut short records or repeated
 headers

A record cut short within its decoder column was read as data for a differently
named decoder. One cut short earlier, or a header repeated by concatenating files
or by two processes creating the file, made the whole file unreadable.
---
 src/collect_data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/collect_data.py b/src/collect_data.py
index 9c5390c..fc9cabe 100644
--- a/src/collect_data.py
+++ b/src/collect_data.py
@@ -361,6 +361,9 @@ def read_recorded_data(*paths: str) -> ProblemShotData:
     for path in paths:
         with open(path, "r") as f:
             for row in csv.DictReader(f):
+                if "version" in row and row["version"] in [None, "", "version"]:
+                    # Cut short record (the version is written last) or repeated header.
+                    continue
                 key = DecodingProblemDesc(
                     code_distance=int(row["code_distance"]),
                     num_qubits=int(row["num_qubits"]),
-- 
2.43.0


From c0ec4fe65967e0e8e2ccb8ac0508707e1e5ee8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:31 +0000
Subject: [PATCH 03/13] fix: take at least min_shots and at most max_shots
 samples

When max_batch was below min_shots, collection could stop before min_shots
samples were taken. When max_shots was below min_shots (e.g. --max_shots=10 with
max_batch left alone), more than max_shots samples were taken.
---
 src/collect_data.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/collect_data.py b/src/collect_data.py
index fc9cabe..50332d0 100644
--- a/src/collect_data.py
+++ b/src/collect_data.py
@@ -164,9 +164,7 @@ def collect_simulated_experiment_data(problems: List[DecodingProblem],
 
     for problem in problems:
         num_seen_errors = 0
-        num_next_shots = min_shots
-        if max_batch is not None and max_batch < min_shots:
-            num_next_shots = max_batch
+        num_next_shots = min(min_shots, max_batch, max_shots)
         total_shots = 0
         while True:
             t0 = time.monotonic()
@@ -202,11 +200,13 @@ def collect_simulated_experiment_data(problems: List[DecodingProblem],
             cur_sample_std_dev = math.sqrt(p * (1 - p) / total_shots)
             if total_shots >= max_shots:
                 break
+            num_next_shots = min(max_batch, min(2 * num_next_shots, max_shots - total_shots))
+            if total_shots < min_shots:
+                continue
             if num_seen_errors >= min_seen_logical_errors and cur_sample_std_dev <= max_sample_std_dev:
                 break
             if num_seen_errors >= total_shots * 0.48 and num_seen_errors >= 10:
                 break
-            num_next_shots = min(max_batch, min(2 * num_next_shots, max_shots - total_shots))
 
 
 def collect_detection_fraction_data(problems: List[DecodingProblem],
-- 
2.43.0


From d677a02dcbd4011ba2020c3a1642d782ff15f4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:31 +0000
Subject: [PATCH 04/13] fix: have pymatching predict every observable

pymatching 2 drops edges with a weight of 9999999999, so the edge meant to
register all observables was missing. Predictions came back too short when the
highest observables weren't flipped by any edge, which failed or was silently
broadcast into wrong predictions.
---
 src/decoding.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decoding.py b/src/decoding.py
index e80611f..e26b0e3 100644
--- a/src/decoding.py
+++ b/src/decoding.py
@@ -274,4 +274,6 @@ def detector_error_model_to_pymatching_graph(model: stim.DetectorErrorModel) ->
         g.add_edge(k, num_detectors + 1, weight=9999999999)
     g.add_edge(num_detectors, num_detectors + 1, weight=9999999999, qubit_id=list(range(num_observables)))
 
-    return pymatching.Matching(g)
+    matching = pymatching.Matching()
+    matching.load_from_networkx(g, min_num_fault_ids=num_observables)
+    return matching
-- 
2.43.0


From c8e6b388d13afda8321961de3a6d549fdeed7fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:31 +0000
Subject: [PATCH 05/13] fix: don't use a data qubit as the ancilla of noisy
 parity measurements in loops

The ancilla index was picked from the loop body alone, so a body that doesn't
touch the circuit's last qubits reset and measured one of them.
---
 src/noise.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/noise.py b/src/noise.py
index 03eceac..fdf7256 100644
--- a/src/noise.py
+++ b/src/noise.py
@@ -126,9 +126,10 @@ class NoiseModel:
         mid.append_operation(op.name, targets, args)
         return pre, mid, post
 
-    def noisy_circuit(self, circuit: stim.Circuit, *, qs: Optional[Set[int]] = None) -> stim.Circuit:
+    def noisy_circuit(self, circuit: stim.Circuit, *, qs: Optional[Set[int]] = None, ancilla: Optional[int] = None) -> stim.Circuit:
         result = stim.Circuit()
-        ancilla = circuit.num_qubits
+        if ancilla is None:
+            ancilla = circuit.num_qubits
 
         current_moment_pre = stim.Circuit()
         current_moment_mid = stim.Circuit()
@@ -164,7 +165,7 @@ class NoiseModel:
         for op in circuit:
             if isinstance(op, stim.CircuitRepeatBlock):
                 flush()
-                result += self.noisy_circuit(op.body_copy(), qs=qs) * op.repeat_count
+                result += self.noisy_circuit(op.body_copy(), qs=qs, ancilla=ancilla) * op.repeat_count
             elif isinstance(op, stim.CircuitInstruction):
                 if op.name == "TICK":
                     flush()
-- 
2.43.0


From c35dfc67e40ddd68c7eb9ce0c25b9db85274a6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:51 +0000
Subject: [PATCH 06/13] fix: keep inverted results of parity measurements when
 adding correlated noise

---
 src/noise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/noise.py b/src/noise.py
index fdf7256..d7ad395 100644
--- a/src/noise.py
+++ b/src/noise.py
@@ -276,6 +276,7 @@ def parity_measurement_with_correlated_measurement_noise(
     for error in errors:
         circuit.append_operation("CORRELATED_ERROR", error, ind_p)
 
-    circuit.append_operation('M', [ancilla])
+    inverted = t1.is_inverted_result_target != t2.is_inverted_result_target
+    circuit.append_operation('M', [stim.target_inv(ancilla) if inverted else ancilla])
 
     return circuit
-- 
2.43.0


From 99834bea99da7f3f898d848a6f42733b52f794f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:49 +0000
Subject: [PATCH 07/13] fix: don't silently skip data directories that can't be
 listed

---
 src/paper/aggregate_csv_data.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/paper/aggregate_csv_data.py b/src/paper/aggregate_csv_data.py
index 2f4f4fe..0183868 100644
--- a/src/paper/aggregate_csv_data.py
+++ b/src/paper/aggregate_csv_data.py
@@ -1,3 +1,4 @@
+import os
 import pathlib
 import sys
 from pathlib import Path
@@ -6,6 +7,11 @@ sys.path.append(str(Path(__file__).resolve().parents[1]))  # Non-package import
 
 from collect_data import read_recorded_data, ProblemShotData, CSV_HEADER, CSV_HEADER_VERSION
 
+
+def _raise(ex: OSError):
+    raise ex
+
+
 def main():
     if len(sys.argv) == 1:
         raise ValueError("Specify csv files to include as command line arguments.")
@@ -14,7 +20,9 @@ def main():
     for path in sys.argv[1:]:
         p = pathlib.Path(path)
         if p.is_dir():
-            csvs.extend(p.rglob("**/*.csv"))
+            # (Path.rglob silently skips directories that can't be listed.)
+            for directory, _, names in os.walk(p, onerror=_raise):
+                csvs.extend(pathlib.Path(directory) / name for name in names if name.endswith(".csv"))
         else:
             csvs.append(p)
 
-- 
2.43.0


From 0eabfe017c7a7aa09e4f8edd8c6e58667452309a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:28 +0000
Subject: [PATCH 08/13] fix: don't misread a data file that is being created

---
 src/collect_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/collect_data.py b/src/collect_data.py
index 50332d0..041caa7 100644
--- a/src/collect_data.py
+++ b/src/collect_data.py
@@ -360,7 +360,8 @@ def read_recorded_data(*paths: str) -> ProblemShotData:
     result = ProblemShotData({})
     for path in paths:
         with open(path, "r") as f:
-            for row in csv.DictReader(f):
+            # (Don't read from the file while iterating; DictReader misreads an empty file that starts growing.)
+            for row in csv.DictReader(f.readlines()):
                 if "version" in row and row["version"] in [None, "", "version"]:
                     # Cut short record (the version is written last) or repeated header.
                     continue
-- 
2.43.0


From 2c002e51cf661adba1d1b117c60211af2cc9da8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:25 +0000
Subject: [PATCH 09/13] fix: accept inverted measurement results when adding
 measurement noise

---
 src/noise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/noise.py b/src/noise.py
index d7ad395..6a0e3ec 100644
--- a/src/noise.py
+++ b/src/noise.py
@@ -103,7 +103,8 @@ class NoiseModel:
                 if op.name in RESET_OPS:
                     post.append_operation("Z_ERROR" if op.name.endswith("X") else "X_ERROR", targets, p)
                 if op.name in MEASURE_OPS:
-                    pre.append_operation("Z_ERROR" if op.name.endswith("X") else "X_ERROR", targets, p)
+                    # Errors strike the qubit, also where the reported result is inverted.
+                    pre.append_operation("Z_ERROR" if op.name.endswith("X") else "X_ERROR", [t.value for t in targets], p)
             elif op.name == "MPP":
                 assert len(targets) % 3 == 0 and all(t.is_combiner for t in targets[1::3]), repr(op)
                 assert args == [] or args == [0]
-- 
2.43.0


From d6303e6b4212dc1f9d9ea7ec24aec9fc5b3b3ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:17 +0000
Subject: [PATCH 10/13] fix: compute log likelihoods in double precision

---
 src/probability_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probability_util.py b/src/probability_util.py
index 74c25a2..5d4ebc0 100644
--- a/src/probability_util.py
+++ b/src/probability_util.py
@@ -31,7 +31,7 @@ def log_binomial(*, p: Union[float, np.ndarray], n: int, hits: int) -> Union[flo
     # Clamp probabilities into the valid [0, 1] range (in case float error put them outside it).
     p_clipped = np.clip(p, 0, 1)
 
-    result = np.zeros(shape=p_clipped.shape, dtype=np.float32)
+    result = np.zeros(shape=p_clipped.shape, dtype=np.float64)
     misses = n - hits
 
     # Handle p=0 and p=1 cases separately, to avoid arithmetic warnings.
-- 
2.43.0


From 6e95375a3293a517819afd79b4b8bd891046830a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:10 +0000
Subject: [PATCH 11/13] fix: don't silently skip directories that can't be
 listed when making figures

---
 src/paper/main_render_detection_fraction_figure.py | 4 +++-
 src/paper/main_render_lambda_figure.py             | 4 +++-
 src/paper/main_render_threshold_figure.py          | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/paper/main_render_detection_fraction_figure.py b/src/paper/main_render_detection_fraction_figure.py
index 949bcf3..17177b9 100644
--- a/src/paper/main_render_detection_fraction_figure.py
+++ b/src/paper/main_render_detection_fraction_figure.py
@@ -1,3 +1,4 @@
+import os
 import pathlib
 import sys
 from pathlib import Path
@@ -17,7 +18,8 @@ def main():
     for path in sys.argv[1:]:
         p = pathlib.Path(path)
         if p.is_dir():
-            csvs.extend(p.glob("*.csv"))
+            # (Path.glob silently skips directories that can't be listed.)
+            csvs.extend(p / name for name in os.listdir(p) if name.endswith(".csv"))
         else:
             csvs.append(p)
 
diff --git a/src/paper/main_render_lambda_figure.py b/src/paper/main_render_lambda_figure.py
index f3849be..ecd9480 100644
--- a/src/paper/main_render_lambda_figure.py
+++ b/src/paper/main_render_lambda_figure.py
@@ -1,6 +1,7 @@
 import dataclasses
 import functools
 import math
+import os
 import pathlib
 import sys
 from pathlib import Path
@@ -29,7 +30,8 @@ def main():
     for path in sys.argv[1:]:
         p = pathlib.Path(path)
         if p.is_dir():
-            csvs.extend(p.glob("*.csv"))
+            # (Path.glob silently skips directories that can't be listed.)
+            csvs.extend(p / name for name in os.listdir(p) if name.endswith(".csv"))
         else:
             csvs.append(p)
 
diff --git a/src/paper/main_render_threshold_figure.py b/src/paper/main_render_threshold_figure.py
index 9c2fddb..a7d0941 100644
--- a/src/paper/main_render_threshold_figure.py
+++ b/src/paper/main_render_threshold_figure.py
@@ -1,3 +1,4 @@
+import os
 import pathlib
 import sys
 from pathlib import Path
@@ -20,7 +21,8 @@ def main():
     for path in sys.argv[1:]:
         p = pathlib.Path(path)
         if p.is_dir():
-            csvs.extend(p.glob("*.csv"))
+            # (Path.glob silently skips directories that can't be listed.)
+            csvs.extend(p / name for name in os.listdir(p) if name.endswith(".csv"))
         else:
             csvs.append(p)
 
-- 
2.43.0


From 875d6da0c6bd8d6faa4f31c68ba4489346c915bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:10 +0000
Subject: [PATCH 12/13] fix: don't run out of colors when plotting many
 problems

---
 src/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plotting.py b/src/plotting.py
index 3805e67..d5a5d90 100644
--- a/src/plotting.py
+++ b/src/plotting.py
@@ -38,7 +38,7 @@ def plot_data(data: ProblemShotData,
         ax = fig.add_subplot()
 
     markers = "ov*sp^<>8PhH+xXDd|" * 100
-    colors = list(mcolors.TABLEAU_COLORS) * 3
+    colors = list(mcolors.TABLEAU_COLORS) * 100
     order = 0
     d: DecodingProblemDesc
     for key, vals in data.grouped_by(lambda e: e.with_changes(noise=0)).items():
-- 
2.43.0


From 0f047b8df46a8411d0d3be91b895a906f90e0fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:19 +0000
Subject: [PATCH 13/13] fix: take each experiment's own number of code cells in
 line fits

The lambda, teraquop and line-fit figures turned total error rates into
per-cell rates using the number of rounds and the distance of whichever
experiment of the noise strength came first in the data. Experiments of
other distances lasting a different number of cells were shown at wrong
rates, spoiling the fits.
---
 src/paper/main_render_lambda_figure.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/paper/main_render_lambda_figure.py b/src/paper/main_render_lambda_figure.py
index ecd9480..1a8ead4 100644
--- a/src/paper/main_render_lambda_figure.py
+++ b/src/paper/main_render_lambda_figure.py
@@ -17,7 +17,7 @@ import matplotlib.pyplot as plt
 
 sys.path.append(str(Path(__file__).resolve().parents[1]))  # Non-package import directory hack.
 
-from collect_data import read_recorded_data, ProblemShotData, ShotData, DecodingProblemDesc
+from collect_data import read_recorded_data, ProblemShotData, DecodingProblemDesc
 from probability_util import least_squares_output_range, least_squares_slope_range
 from plotting import total_error_to_per_piece_error
 
@@ -352,8 +352,8 @@ def plot_teraquop_combo(all_data: ProblemShotData) -> Tuple[plt.Figure, plt.Axes
 class LambdaGroup:
     noise: float
     rep: DecodingProblemDesc
-    distance_error_pairs_h: Dict[int, ShotData]
-    distance_error_pairs_v: Dict[int, ShotData]
+    distance_error_pairs_h: Dict[int, float]
+    distance_error_pairs_v: Dict[int, float]
 
     @functools.cached_property
     def combo_data(self) -> Tuple[List[int], List[float]]:
@@ -361,10 +361,8 @@ class LambdaGroup:
         xs = []
         ys = []
         for d in distances:
-            d1 = self.distance_error_pairs_h.get(d)
-            d2 = self.distance_error_pairs_v.get(d)
-            p1 = d1.logical_error_rate if d1 is not None else None
-            p2 = d2.logical_error_rate if d2 is not None else None
+            p1 = self.distance_error_pairs_h.get(d)
+            p2 = self.distance_error_pairs_v.get(d)
 
             if p2 is None:
                 p2 = p1
@@ -374,9 +372,6 @@ class LambdaGroup:
                 print(f"WARNING EXTRAPOLATING H OBSERVABLE DATA POINT FOR {self.rep} distance {d}")
 
             if p1 and p2:
-                cells = int(math.ceil(self.rep.rounds / self.rep.code_distance))
-                p1 = total_error_to_per_piece_error(p1, cells)
-                p2 = total_error_to_per_piece_error(p2, cells)
                 p_either = 1 - (1 - p1) * (1 - p2)
                 xs.append(d)
                 ys.append(p_either)
@@ -391,7 +386,9 @@ class LambdaGroup:
             g = groups[key.noise]
             d = g.distance_error_pairs_h if key.preserved_observable in "HX" else g.distance_error_pairs_v
             assert key.code_distance not in d, key
-            d[key.code_distance] = val
+            # (Experiments of different distances may last a different number of code cells.)
+            cells = int(math.ceil(key.rounds / key.code_distance))
+            d[key.code_distance] = total_error_to_per_piece_error(val.logical_error_rate, cells)
         return groups
 
     @property
-- 
2.43.0

