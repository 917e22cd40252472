From cd2cb37924ed92e5a0f12f602d17c0044fbd7dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:58 +0000
Subject: [PATCH 01/28] fix: treat a seed of 0 as a seed in the analysis
 methods

---
 src/SALib/analyze/delta.py         | 2 +-
 src/SALib/analyze/dgsm.py          | 2 +-
 src/SALib/analyze/enhanced_hdmr.py | 2 +-
 src/SALib/analyze/fast.py          | 2 +-
 src/SALib/analyze/ff.py            | 2 +-
 src/SALib/analyze/pawn.py          | 2 +-
 src/SALib/analyze/sobol.py         | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/SALib/analyze/delta.py b/src/SALib/analyze/delta.py
index 52bcb82..788cbc7 100644
--- a/src/SALib/analyze/delta.py
+++ b/src/SALib/analyze/delta.py
@@ -159,7 +159,7 @@ def analyze(
            sensitivity measures from given data." European Journal of
            Operational Research, 226(3):536-550, doi:10.1016/j.ejor.2012.11.047.
     """
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     valid_methods = {"delta", "sobol", "all"}
diff --git a/src/SALib/analyze/dgsm.py b/src/SALib/analyze/dgsm.py
index 5e8ae11..f6ad7c9 100644
--- a/src/SALib/analyze/dgsm.py
+++ b/src/SALib/analyze/dgsm.py
@@ -55,7 +55,7 @@ def analyze(
            indices." Mathematics and Computers in Simulation, 79(10):3009-3017,
            doi:10.1016/j.matcom.2009.01.023.
     """
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     D = problem["num_vars"]
diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index d4aef0f..9e89afb 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -196,7 +196,7 @@ def analyze(
        https://doi.org/10.1029/2022WR032834
     """
     # Random Seed
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     # Check arguments
diff --git a/src/SALib/analyze/fast.py b/src/SALib/analyze/fast.py
index a6e4f2c..2511db2 100644
--- a/src/SALib/analyze/fast.py
+++ b/src/SALib/analyze/fast.py
@@ -65,7 +65,7 @@ def analyze(
        fast99 - R `sensitivity` package
        https://github.com/cran/sensitivity/blob/master/R/fast99.R
     """
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     D = problem["num_vars"]
diff --git a/src/SALib/analyze/ff.py b/src/SALib/analyze/ff.py
index 98592e8..e3fbb0d 100644
--- a/src/SALib/analyze/ff.py
+++ b/src/SALib/analyze/ff.py
@@ -68,7 +68,7 @@ def analyze(problem, X, Y, second_order=False, print_to_console=False, seed=None
            Wiley, West Sussex, U.K.
            http://doi.org/10.1002/9780470725184
     """
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     problem = extend_bounds(problem)
diff --git a/src/SALib/analyze/pawn.py b/src/SALib/analyze/pawn.py
index 80851ce..e25722f 100644
--- a/src/SALib/analyze/pawn.py
+++ b/src/SALib/analyze/pawn.py
@@ -103,7 +103,7 @@ def analyze(
            Combining variance- and distribution-based global sensitivity analysis
            https://github.com/baronig/GSA-cvd
     """
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     D = problem["num_vars"]
diff --git a/src/SALib/analyze/sobol.py b/src/SALib/analyze/sobol.py
index 6cb5ed3..1ed661a 100644
--- a/src/SALib/analyze/sobol.py
+++ b/src/SALib/analyze/sobol.py
@@ -110,7 +110,7 @@ def analyze(
        Reliability Engineering & System Safety, 92(7), 957-960.
        https://doi.org/10.1016/j.ress.2006.07.001
     """
-    if seed:
+    if seed is not None:
         # Set seed to ensure CIs are the same
         rng = np.random.default_rng(seed).integers
     else:
-- 
2.43.0


From dbd462f684d292fb990f64a26c0170a551895e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:20 +0000
Subject: [PATCH 02/28] fix: honour the seed in the HDMR analyses and their
 command lines

---
 src/SALib/analyze/enhanced_hdmr.py |  1 +
 src/SALib/analyze/hdmr.py          | 13 ++++++++-----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index 9e89afb..93ff99f 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -1690,6 +1690,7 @@ def cli_action(args):
         "extended_base": args.extended_base,
         "print_to_console": args.print_to_console,
         "return_emulator": args.return_emulator,
+        "seed": args.seed,
     }
 
     if len(X.shape) == 1:
diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index e2a46e8..48ad54a 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -177,12 +177,14 @@ def analyze(
     )
 
     # Random Seed
-    if seed:
-        rng = handle_seed(seed)  # noqa
+    if seed is None or seed is False:
+        rng = np.random
+    else:
+        rng = handle_seed(seed)
 
     # Initial part: Check input arguments and define HDMR variables
     settings = _check_settings(X, Y, maxorder, maxiter, m, K, R, alpha, lambdax)
-    init_vars = _init(X, Y, settings)
+    init_vars = _init(X, Y, settings, rng)
 
     # Sensitivity Analysis Computation with/without bootstrapping
     SA, Em, RT, Y_em, idx = _compute(X, Y, settings, init_vars)
@@ -371,7 +373,7 @@ def _compute(X, Y, settings, init_vars):
     return (SA, Em, RT, Y_em, idx)
 
 
-def _init(X, Y, settings):
+def _init(X, Y, settings, rng):
     """Initialize HDMR variables."""
     N, d, maxorder, maxiter, m, K, R, alpha, lambdax = settings
 
@@ -381,7 +383,7 @@ def _init(X, Y, settings):
         idx = np.arange(0, N).reshape(N, 1)
     else:
         # Now setup the bootstrap matrix with selection matrix, idx, for samples
-        idx = np.argsort(np.random.rand(N, K), axis=0)[:R]
+        idx = np.argsort(rng.random((N, K)), axis=0)[:R]
 
     # Compute normalized X-values
     X_n = (X - np.tile(X.min(0), (N, 1))) / np.tile((X.max(0)) - X.min(0), (N, 1))
@@ -1089,6 +1091,7 @@ def cli_action(args):
         "alpha": alpha,
         "lambdax": lambdax,
         "print_to_console": True,
+        "seed": args.seed,
     }
 
     if len(X.shape) == 1:
-- 
2.43.0


From b06bcd03455557c021e9370babb059f0f870b2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:28 +0000
Subject: [PATCH 03/28] fix: draw seeded bootstrap samples from a local
 generator

Seeded analyses re-seeded the process-wide generator, so that concurrent
calls in other threads changed each other's results and the caller's own
random stream was reset. Streams for a given seed are unchanged.
---
 src/SALib/analyze/delta.py         | 40 ++++++++++++++++++++++--------
 src/SALib/analyze/dgsm.py          | 11 ++++----
 src/SALib/analyze/enhanced_hdmr.py |  7 +++---
 src/SALib/analyze/fast.py          | 11 ++++----
 src/SALib/analyze/ff.py            |  3 ---
 src/SALib/analyze/pawn.py          |  3 ---
 6 files changed, 45 insertions(+), 30 deletions(-)

diff --git a/src/SALib/analyze/delta.py b/src/SALib/analyze/delta.py
index 788cbc7..479fcbe 100644
--- a/src/SALib/analyze/delta.py
+++ b/src/SALib/analyze/delta.py
@@ -159,8 +159,7 @@ def analyze(
            sensitivity measures from given data." European Journal of
            Operational Research, 226(3):536-550, doi:10.1016/j.ejor.2012.11.047.
     """
-    if seed is not None:
-        np.random.seed(seed)
+    rng = np.random if seed is None else np.random.RandomState(seed)
 
     valid_methods = {"delta", "sobol", "all"}
     warnings.formatwarning = custom_warning_formatter
@@ -256,6 +255,7 @@ def analyze(
                             bin_edges,
                             name,
                             min_class_size,
+                            rng,
                         )
                     )
                     if bootstrap_savedf is not None:
@@ -272,10 +272,10 @@ def analyze(
                     )
 
             if "sobol" in methods:
-                ind = np.random.randint(Y.size, size=y_resamples)
+                ind = rng.randint(Y.size, size=y_resamples)
                 S["S1"][i] = sobol_first(Y[ind], X_i[ind], m)
                 S["S1_conf"][i] = sobol_first_conf(
-                    Y, X_i, m, num_resamples, conf_level, y_resamples
+                    Y, X_i, m, num_resamples, conf_level, y_resamples, rng
                 )
             notes.append(note.strip() if note else "")
         except Exception as e:
@@ -396,12 +396,20 @@ def bias_reduced_delta(
     bin_edges,
     paramname,
     min_class_size,
+    rng=np.random,
 ):
     """Plischke et al. 2013 bias reduction technique (eqn 30)"""
     d = np.empty(num_resamples)
 
     ind = obtain_resampled_subset(
-        X, y_resamples, mode, bin_edges, paramname, min_class_size, warn_print=True
+        X,
+        y_resamples,
+        mode,
+        bin_edges,
+        paramname,
+        min_class_size,
+        warn_print=True,
+        rng=rng,
     )
     d_hat = calc_delta(Y[ind], Ygrid, X[ind], m)
 
@@ -415,6 +423,7 @@ def bias_reduced_delta(
                 paramname,
                 min_class_size,
                 warn_print=False,
+                rng=rng,
             )
             for _ in range(num_resamples)
         ]
@@ -453,7 +462,14 @@ def obtain_bins_indices(bin_edges, X, min_class_size):
 
 
 def obtain_resampled_subset(
-    X, y_resamples, mode, bin_edges, paramname, min_class_size, warn_print=False
+    X,
+    y_resamples,
+    mode,
+    bin_edges,
+    paramname,
+    min_class_size,
+    warn_print=False,
+    rng=np.random,
 ):
     """Returns subset indices for X"""
     N = len(X)
@@ -464,7 +480,7 @@ def obtain_resampled_subset(
             "Cannot bin or calc delta from constants; ",
         )
     if mode == "raw":
-        return np.random.randint(N, size=y_resamples)
+        return rng.randint(N, size=y_resamples)
 
     elif mode in ["balanced", "step"]:
         indices = []
@@ -478,7 +494,7 @@ def obtain_resampled_subset(
             binselectionsize = y_resamples - n_zeroes
             min_class_size = min_class_size // 2
 
-            chosen_zeroes = np.random.choice(zeroes, size=n_zeroes, replace=True)
+            chosen_zeroes = rng.choice(zeroes, size=n_zeroes, replace=True)
             indices.append(chosen_zeroes)
             X_select = X[nonzeroes]
             bin_edges, _ = check_specified_bininfo(
@@ -514,7 +530,7 @@ def obtain_resampled_subset(
             if len(bin_idx) == 0:
                 continue
             binsize = n_per_bin + (1 if i < remaining else 0)
-            sampled = np.random.choice(bin_idx, size=binsize, replace=True)
+            sampled = rng.choice(bin_idx, size=binsize, replace=True)
             if mode == "step":
                 sampled = nonzeroes[sampled]  # type: ignore
             indices.append(sampled)
@@ -546,11 +562,13 @@ def sobol_first(Y, X, m):
     return Vi / np.var(Y)
 
 
-def sobol_first_conf(Y, X, m, num_resamples, conf_level, y_resamples):
+def sobol_first_conf(
+    Y, X, m, num_resamples, conf_level, y_resamples, rng=np.random
+):
     s = np.zeros(num_resamples)
 
     N = len(Y)
-    r = np.random.choice(
+    r = rng.choice(
         N, size=(num_resamples, y_resamples), replace=True
     )  # bootstrap-like behaviour, on raw vals without removing input bias
 
diff --git a/src/SALib/analyze/dgsm.py b/src/SALib/analyze/dgsm.py
index f6ad7c9..fd8ece2 100644
--- a/src/SALib/analyze/dgsm.py
+++ b/src/SALib/analyze/dgsm.py
@@ -55,8 +55,7 @@ def analyze(
            indices." Mathematics and Computers in Simulation, 79(10):3009-3017,
            doi:10.1016/j.matcom.2009.01.023.
     """
-    if seed is not None:
-        np.random.seed(seed)
+    rng = np.random if seed is None else np.random.RandomState(seed)
 
     D = problem["num_vars"]
     Y_size = Y.size
@@ -93,7 +92,7 @@ def analyze(
         perturbed_j = perturbed[:, j]
         S["vi"][j], S["vi_std"][j] = calc_vi_stats(base, perturbed_j, diff)
         S["dgsm"][j], S["dgsm_conf"][j] = calc_dgsm(
-            base, perturbed_j, diff, bounds[j], num_resamples, conf_level
+            base, perturbed_j, diff, bounds[j], num_resamples, conf_level, rng
         )
 
     if print_to_console:
@@ -123,7 +122,9 @@ def calc_vi_mean(base, perturbed, x_delta):
     return dfdx.mean()
 
 
-def calc_dgsm(base, perturbed, x_delta, bounds, num_resamples, conf_level):
+def calc_dgsm(
+    base, perturbed, x_delta, bounds, num_resamples, conf_level, rng=np.random
+):
     """v_i sensitivity measure following Sobol and Kucherenko (2009).
     For comparison, total order S_tot <= dgsm
     """
@@ -133,7 +134,7 @@ def calc_dgsm(base, perturbed, x_delta, bounds, num_resamples, conf_level):
 
     len_base = len(base)
     s = np.empty(num_resamples)
-    r = np.random.randint(len_base, size=(num_resamples, len_base))
+    r = rng.randint(len_base, size=(num_resamples, len_base))
     for i in range(num_resamples):
         r_i = r[i]
         s[i] = calc_vi_mean(base[r_i], perturbed[r_i], x_delta[r_i])
diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index 93ff99f..b0ce4dd 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -196,8 +196,7 @@ def analyze(
        https://doi.org/10.1029/2022WR032834
     """
     # Random Seed
-    if seed is not None:
-        np.random.seed(seed)
+    rng = np.random if seed is None else np.random.RandomState(seed)
 
     # Check arguments
     Y, problem, subset, max_iter = _check_args(
@@ -223,6 +222,7 @@ def analyze(
         bootstrap,
         subset,
         extended_base,
+        rng,
     )
     # Calculate HDMR Basis Matrix
     b_m = _basis_matrix(X, hdmr)
@@ -358,6 +358,7 @@ def _core_params(
     bootstrap: int,
     subset: int,
     extended_base: bool,
+    rng=np.random,
 ) -> Tuple[namedtuple, ResultDict]:
     """This function establishes the core parameters of an HDMR
     (High Dimensional Model Representation) expansion and returns
@@ -497,7 +498,7 @@ def _core_params(
     idx = (
         np.arange(0, N).reshape(-1, 1)
         if bootstrap == 1
-        else np.argsort(np.random.rand(N, bootstrap), axis=0)[:subset]
+        else np.argsort(rng.rand(N, bootstrap), axis=0)[:subset]
     )
 
     CoreParams = namedtuple(
diff --git a/src/SALib/analyze/fast.py b/src/SALib/analyze/fast.py
index 2511db2..fecb886 100644
--- a/src/SALib/analyze/fast.py
+++ b/src/SALib/analyze/fast.py
@@ -65,8 +65,7 @@ def analyze(
        fast99 - R `sensitivity` package
        https://github.com/cran/sensitivity/blob/master/R/fast99.R
     """
-    if seed is not None:
-        np.random.seed(seed)
+    rng = np.random if seed is None else np.random.RandomState(seed)
 
     D = problem["num_vars"]
 
@@ -94,7 +93,7 @@ def analyze(
         Si["S1"][i] = S1
         Si["ST"][i] = ST
 
-        S1_d_conf, ST_d_conf = bootstrap(Y_l, M, num_resamples, conf_level)
+        S1_d_conf, ST_d_conf = bootstrap(Y_l, M, num_resamples, conf_level, rng)
         Si["S1_conf"][i] = S1_d_conf
         Si["ST_conf"][i] = ST_d_conf
 
@@ -117,7 +116,9 @@ def compute_orders(outputs: np.ndarray, N: int, M: int, omega: int):
     return (D1 / V), (1.0 - Dt / V)
 
 
-def bootstrap(Y: np.ndarray, M: int, resamples: int, conf_level: float):
+def bootstrap(
+    Y: np.ndarray, M: int, resamples: int, conf_level: float, rng=np.random
+):
     """Compute CIs.
 
     Infers ``N`` from results of sub-sample ``Y`` and re-estimates omega (ω)
@@ -130,7 +131,7 @@ def bootstrap(Y: np.ndarray, M: int, resamples: int, conf_level: float):
     res_S1 = np.zeros(resamples)
     res_ST = np.zeros(resamples)
     for i in range(resamples):
-        sample_idx = np.random.choice(T_data, replace=True, size=n_size)
+        sample_idx = rng.choice(T_data, replace=True, size=n_size)
         Y_rs = Y[sample_idx]
 
         N = len(Y_rs)
diff --git a/src/SALib/analyze/ff.py b/src/SALib/analyze/ff.py
index e3fbb0d..268bd62 100644
--- a/src/SALib/analyze/ff.py
+++ b/src/SALib/analyze/ff.py
@@ -68,9 +68,6 @@ def analyze(problem, X, Y, second_order=False, print_to_console=False, seed=None
            Wiley, West Sussex, U.K.
            http://doi.org/10.1002/9780470725184
     """
-    if seed is not None:
-        np.random.seed(seed)
-
     problem = extend_bounds(problem)
     num_vars = problem["num_vars"]
 
diff --git a/src/SALib/analyze/pawn.py b/src/SALib/analyze/pawn.py
index e25722f..5306ad1 100644
--- a/src/SALib/analyze/pawn.py
+++ b/src/SALib/analyze/pawn.py
@@ -103,9 +103,6 @@ def analyze(
            Combining variance- and distribution-based global sensitivity analysis
            https://github.com/baronig/GSA-cvd
     """
-    if seed is not None:
-        np.random.seed(seed)
-
     D = problem["num_vars"]
     var_names, _ = extract_group_names(problem)
 
-- 
2.43.0


From 34ed787ab69fcf5c7878d252972ee47d872c40b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:08 +0000
Subject: [PATCH 04/28] fix: pass --seed and --skip-values on to the Sobol'
 sampler

---
 src/SALib/sample/sobol.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/SALib/sample/sobol.py b/src/SALib/sample/sobol.py
index 07e905a..9b91791 100644
--- a/src/SALib/sample/sobol.py
+++ b/src/SALib/sample/sobol.py
@@ -222,8 +222,8 @@ def cli_parse(parser):
         type=int,
         required=False,
         default=None,
-        help="Number of sample points to skip (default: next largest power of"
-        " 2 from `samples`). Not recommended (use `scramble` instead).",
+        help="Number of sample points to skip (default: 0)."
+        " Not recommended (use `scramble` instead).",
     )
 
     return parser
@@ -242,6 +242,8 @@ def cli_action(args):
         args.samples,
         calc_second_order=(args.max_order == 2),
         scramble=args.scramble,
+        skip_values=0 if args.skip_values is None else args.skip_values,
+        seed=args.seed,
     )
     np.savetxt(
         args.output,
-- 
2.43.0


From 1b140b8e9fcb255e71bcab2d0a6813d01a3c18e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:19 +0000
Subject: [PATCH 05/28] fix: make pawn and rsa usable without -S/-b/-t, and
 'False' mean False for morris

---
 src/SALib/analyze/morris.py       | 2 +-
 src/SALib/analyze/pawn.py         | 7 ++++++-
 src/SALib/analyze/rsa.py          | 2 ++
 src/SALib/sample/morris/morris.py | 2 +-
 4 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/SALib/analyze/morris.py b/src/SALib/analyze/morris.py
index 1c6c864..e8492c2 100644
--- a/src/SALib/analyze/morris.py
+++ b/src/SALib/analyze/morris.py
@@ -630,7 +630,7 @@ def cli_parse(parser):
     )
     parser.add_argument(
         "--scaled",
-        type=bool,
+        type=lambda x: x.lower() not in ("", "0", "false", "no"),
         required=False,
         default=False,
         help="Scale the results by ratio of stddev of X and Y (Morris)",
diff --git a/src/SALib/analyze/pawn.py b/src/SALib/analyze/pawn.py
index 5306ad1..71627c7 100644
--- a/src/SALib/analyze/pawn.py
+++ b/src/SALib/analyze/pawn.py
@@ -178,7 +178,12 @@ def cli_parse(parser):
     )
 
     parser.add_argument(
-        "-S", "--slices", type=int, required=False, help="Number of slices to take"
+        "-S",
+        "--slices",
+        type=int,
+        required=False,
+        default=10,
+        help="Number of slices to take",
     )
     return parser
 
diff --git a/src/SALib/analyze/rsa.py b/src/SALib/analyze/rsa.py
index 22d255a..4470ffd 100644
--- a/src/SALib/analyze/rsa.py
+++ b/src/SALib/analyze/rsa.py
@@ -250,6 +250,7 @@ def cli_parse(parser):
         "--bins",
         type=int,
         required=False,
+        default=20,
         help="Number of bins to partition target space into",
     )
 
@@ -258,6 +259,7 @@ def cli_parse(parser):
         "--target",
         type=str,
         required=False,
+        default="Y",
         help="Target input space (X) or output space (Y)",
     )
 
diff --git a/src/SALib/sample/morris/morris.py b/src/SALib/sample/morris/morris.py
index d54cdd9..51f7151 100644
--- a/src/SALib/sample/morris/morris.py
+++ b/src/SALib/sample/morris/morris.py
@@ -445,7 +445,7 @@ def cli_parse(parser):
     parser.add_argument(
         "-lo",
         "--local",
-        type=bool,
+        type=lambda x: x.lower() not in ("", "0", "false", "no"),
         required=True,
         default=False,
         help="Use the local optimisation method \
-- 
2.43.0


From d26c92dd5c19964b1abf932e2439247a081f4121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:46 +0000
Subject: [PATCH 06/28] fix: return the serial resamples and confidence
 intervals from parallel Sobol' analysis

---
 src/SALib/analyze/sobol.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/SALib/analyze/sobol.py b/src/SALib/analyze/sobol.py
index 1ed661a..4d0dc99 100644
--- a/src/SALib/analyze/sobol.py
+++ b/src/SALib/analyze/sobol.py
@@ -285,11 +285,15 @@ def sobol_parallel(Z, A, AB, BA, B, r, tasks):
         if d == "S1":
             s = first_order(A, AB[:, j], B)
         elif d == "S1_conf":
-            s = Z * first_order(A[r], AB[r, j], B[r]).std(ddof=1)
+            s_all = first_order(A[r], AB[r, j], B[r])
+            sobol_indices.append([d + "_all", j, k, s_all])
+            s = Z * s_all.std(ddof=1) if np.ptp(np.r_[A[r], B[r]]) != 0.0 else 0.0
         elif d == "ST":
             s = total_order(A, AB[:, j], B)
         elif d == "ST_conf":
-            s = Z * total_order(A[r], AB[r, j], B[r]).std(ddof=1)
+            s_all = total_order(A[r], AB[r, j], B[r])
+            sobol_indices.append([d + "_all", j, k, s_all])
+            s = Z * s_all.std(ddof=1) if np.ptp(np.r_[A[r], B[r]]) != 0.0 else 0.0
         elif d == "S2":
             s = second_order(A, AB[:, j], AB[:, k], BA[:, j], B)
         elif d == "S2_conf":
@@ -354,7 +358,11 @@ def Si_list_to_dict(
         L += list
 
     for s in L:  # First order (+conf.)
-        if s[2] is None:
+        if s[0].endswith("_all"):
+            # Intermediate resampling results, one column per parameter
+            if keep_resamples:
+                S[s[0]][:, s[1]] = s[3]
+        elif s[2] is None:
             S[s[0]][s[1]] = s[3]
         else:
             S[s[0]][s[1], s[2]] = s[3]
-- 
2.43.0


From 78e815d23eb4340c4e20356eb8a270cc5f6d9f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:09 +0000
Subject: [PATCH 07/28] fix: collect the lazy p_tqdm results before using them

---
 src/SALib/util/problem.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index bf0796d..fa44eb9 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -235,7 +235,7 @@ class ProblemSpec(dict):
 
         if ptqdm_available:
             # Display progress bar if available
-            res = p_imap(tmp_f, chunks, num_cpus=nprocs)
+            res = list(p_imap(tmp_f, chunks, num_cpus=nprocs))
         else:
             with Pool(nprocs) as pool:
                 res = list(pool.imap(tmp_f, chunks))
@@ -436,10 +436,12 @@ class ProblemSpec(dict):
 
             if ptqdm_available:
                 # Display progress bar if available
-                res = p_imap(
-                    lambda y: func(self, Y=y),
-                    [self._results[:, i] for i in range(Yn)],
-                    num_cpus=nprocs,
+                res = list(
+                    p_imap(
+                        lambda y: func(self, Y=y),
+                        [self._results[:, i] for i in range(Yn)],
+                        num_cpus=nprocs,
+                    )
                 )
             else:
                 with Pool(nprocs) as pool:
-- 
2.43.0


From ecf5ce2cd2c9a8548983c898aa72adccebacd9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:09 +0000
Subject: [PATCH 08/28] fix: forward model arguments, accept no servers and
 release workers in distributed evaluation

---
 src/SALib/util/problem.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index fa44eb9..c67c1e5 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -295,21 +295,27 @@ class ProblemSpec(dict):
             " may not work."
         )
 
-        workers = pp_Pool(nprocs, servers=servers)
+        if self._samples is None:
+            raise RuntimeError("Sampling not yet conducted")
 
-        # Split into even chunks
-        chunks = np.array_split(self._samples, int(nprocs) * len(servers), axis=0)
+        workers = pp_Pool(nprocs, servers=servers)
 
-        tmp_f = self._wrap_func(func)
+        try:
+            # Split into even chunks
+            num_servers = len(servers) if servers else 1
+            chunks = np.array_split(self._samples, int(nprocs) * num_servers, axis=0)
 
-        res = list(workers.map(tmp_f, chunks))
+            # Create wrapped partial function to allow passing of additional args
+            tmp_f = self._wrap_func(func, *args, **kwargs)
 
-        self.results = self._collect_results(res)
+            res = list(workers.map(tmp_f, chunks))
 
-        if verbose:
-            print(stats(), "\n")
+            self.results = self._collect_results(res)
 
-        workers.clear()
+            if verbose:
+                print(stats(), "\n")
+        finally:
+            workers.clear()
 
         return self
 
-- 
2.43.0


From 14fd834225deaae28c127fa0a67c99bbb0c5a563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:30 +0000
Subject: [PATCH 09/28] fix: refuse parallel results that do not match the
 samples they were computed from

---
 src/SALib/util/problem.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index c67c1e5..9482867 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -240,7 +240,7 @@ class ProblemSpec(dict):
             with Pool(nprocs) as pool:
                 res = list(pool.imap(tmp_f, chunks))
 
-        self.results = self._collect_results(res)
+        self.results = self._collect_results(res, chunks)
 
         return self
 
@@ -310,7 +310,7 @@ class ProblemSpec(dict):
 
             res = list(workers.map(tmp_f, chunks))
 
-            self.results = self._collect_results(res)
+            self.results = self._collect_results(res, chunks)
 
             if verbose:
                 print(stats(), "\n")
@@ -552,7 +552,14 @@ class ProblemSpec(dict):
 
         return tmp_f
 
-    def _collect_results(self, res):
+    def _collect_results(self, res, chunks):
+        for r, chunk in zip(res, chunks):
+            if len(r) != len(chunk) or r.shape[1:] != res[0].shape[1:]:
+                raise ValueError(
+                    "Mismatched model results: each worker has to return one"
+                    " result for each sample it was given"
+                )
+
         res_shape = res[0].shape
         if len(res_shape) > 1:
             res_shape = (len(self._samples), *res_shape[1:])
-- 
2.43.0


From e213a3da18fa641bcca7f710f2409a7a76c30a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:45 +0000
Subject: [PATCH 10/28] fix: keep only the results and analysis that belong to
 the stored samples

---
 src/SALib/util/problem.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index 9482867..35a89d3 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -73,8 +73,9 @@ class ProblemSpec(dict):
 
         self._samples = vals
 
-        # Clear results to avoid confusion
+        # Clear results and analysis to avoid confusion
         self._results = None
+        self._analysis = None
 
     @property
     def results(self):
@@ -102,6 +103,9 @@ class ProblemSpec(dict):
 
         self._results = vals
 
+        # Clear analysis of any previous results to avoid confusion
+        self._analysis = None
+
     @property
     def analysis(self):
         return self._analysis
@@ -126,11 +130,9 @@ class ProblemSpec(dict):
         -------
         self : ProblemSpec object
         """
-        # Clear model output and analysis results to avoid confusion
+        # Also clears model output and analysis results to avoid confusion
         # especially if samples are forcibly changed...
-        self._analysis = None
-        self._results = None
-        self._samples = func(self, *args, **kwargs)
+        self.samples = func(self, *args, **kwargs)
 
         return self
 
@@ -372,9 +374,11 @@ class ProblemSpec(dict):
                 self["outputs"] = [f"Y{i}" for i in range(1, num_cols + 1)]
 
         if len(self["outputs"]) > 1:
-            self._analysis = {}
+            # Attach only once complete
+            analysis = {}
             for i, out in enumerate(self["outputs"]):
-                self._analysis[out] = func(self, Y=self._results[:, i])
+                analysis[out] = func(self, Y=self._results[:, i])
+            self._analysis = analysis
         else:
             self._analysis = func(self, Y=self._results)
 
@@ -461,9 +465,7 @@ class ProblemSpec(dict):
         # Assign by output name if more than 1 output, otherwise
         # attach directly
         if Yn > 1:
-            self._analysis = {}
-            for out, Si in zip(self["outputs"], list(res)):
-                self._analysis[out] = Si
+            self._analysis = dict(zip(self["outputs"], res))
         else:
             self._analysis = res
 
-- 
2.43.0


From 1cc7dcd819876007b1fe28dd9902ac6b80cf16d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:45 +0000
Subject: [PATCH 11/28] fix: refuse to analyse results that do not match the
 number of samples

---
 src/SALib/util/problem.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index 35a89d3..9f6e0b2 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -359,6 +359,8 @@ class ProblemSpec(dict):
         if self._results is None:
             raise RuntimeError("Model not yet evaluated")
 
+        self._check_result_size()
+
         if "X" in func.__code__.co_varnames:
             # enforce passing of X if expected
             func = partial(func, *args, X=self._samples, **kwargs)
@@ -413,6 +415,8 @@ class ProblemSpec(dict):
         if self._results is None:
             raise RuntimeError("Model not yet evaluated")
 
+        self._check_result_size()
+
         if "X" in func.__code__.co_varnames:
             # enforce passing of X if expected
             func = partial(func, *args, X=self._samples, **kwargs)
@@ -554,6 +558,14 @@ class ProblemSpec(dict):
 
         return tmp_f
 
+    def _check_result_size(self):
+        """Raise an error if results cannot be those of the current samples."""
+        if self._samples is not None and len(self._results) != len(self._samples):
+            raise ValueError(
+                f"Mismatched result size: Expected {len(self._samples)} rows,"
+                f" got {len(self._results)}"
+            )
+
     def _collect_results(self, res, chunks):
         for r, chunk in zip(res, chunks):
             if len(r) != len(chunk) or r.shape[1:] != res[0].shape[1:]:
-- 
2.43.0


From 31ef24ca3011c37539d5a7b28c05a0352dea5420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:43 +0000
Subject: [PATCH 12/28] fix: pad a fractional factorial problem without
 changing the user's lists

---
 src/SALib/sample/ff.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/SALib/sample/ff.py b/src/SALib/sample/ff.py
index 0938e4a..acb1f4c 100644
--- a/src/SALib/sample/ff.py
+++ b/src/SALib/sample/ff.py
@@ -44,14 +44,21 @@ def extend_bounds(problem):
     num_ff_vars = 2 ** find_smallest(num_vars)
     num_dummy_variables = num_ff_vars - num_vars
 
-    bounds = list(problem["bounds"])
-    names = problem["names"]
     if num_dummy_variables > 0:
-        bounds.extend([[0, 1] for x in range(num_dummy_variables)])
-        names.extend(["dummy_" + str(var) for var in range(num_dummy_variables)])
-        problem["bounds"] = bounds
-        problem["names"] = names
-        problem["num_vars"] = num_ff_vars
+        # The lists given by the user may be shared with other problem
+        # definitions, so these are replaced (all at once) and not extended.
+        names = problem["names"]
+        dummies = ["dummy_" + str(var) for var in range(num_dummy_variables)]
+        extended = {
+            "bounds": list(problem["bounds"]) + [[0, 1] for _ in dummies],
+            "names": list(names) + dummies,
+            "num_vars": num_ff_vars,
+        }
+        if problem.get("groups") is names:
+            # No groups were defined: each parameter is its own group
+            extended["groups"] = extended["names"]
+
+        problem.update(extended)
 
     return problem
 
-- 
2.43.0


From aaf6fc0eb00c44f03e9e8aa447bf9320c490c29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:28 +0000
Subject: [PATCH 13/28] fix: do not append interaction terms to the user's
 parameter names

---
 src/SALib/analyze/enhanced_hdmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index b0ce4dd..591f42b 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -589,7 +589,7 @@ def _core_params(
         )
         for k in keys
     )
-    Si["Term"] = problem["names"]
+    Si["Term"] = list(problem["names"])
     Si["ST"] = np.full(hdmr.nc_t, np.nan)
     Si["ST_conf"] = np.full(hdmr.nc_t, np.nan)
 
-- 
2.43.0


From 42c285d4a38674771965764fd324eed9de49cd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:28 +0000
Subject: [PATCH 14/28] fix: first- and third-order enhanced HDMR

---
 src/SALib/analyze/enhanced_hdmr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index 591f42b..4b3c590 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -874,6 +874,7 @@ def _fanova(b_m, hdmr, Si, Y, bootstrap, max_iter, l2_penalty, alpha):
                     Y_res,
                     l2_penalty,
                     hdmr,
+                    t,
                 )
 
         # Calculate component functions
@@ -1437,13 +1438,13 @@ def _finalize(hdmr, Si, alpha, return_emulator):
     # Compute the total sensitivity of each parameter/coefficient
     for r in range(hdmr.d):
         if hdmr.max_order == 1:
-            TS = hdmr.S[r, :]
+            TS = Si["S"][r, :]
         elif hdmr.max_order == 2:
             ij = hdmr.d + np.where(np.sum(hdmr.beta == r, axis=1) == 1)[0]
             TS = np.sum(Si["S"][np.append(r, ij), :], axis=0)
         elif hdmr.max_order == 3:
             ij = hdmr.d + np.where(np.sum(hdmr.beta == r, axis=1) == 1)[0]
-            ijk = hdmr.d + hdmr.nc2 + np.where(np.sum(hdmr.nc3 == r, axis=1) == 1)[0]
+            ijk = hdmr.d + hdmr.nc2 + np.where(np.sum(hdmr.gamma == r, axis=1) == 1)[0]
             TS = np.sum(Si["S"][np.append(r, np.append(ij, ijk)), :], axis=0)
         Si["ST"][r] = np.mean(TS)
         Si["ST_conf"][r] = mult * np.std(TS)
-- 
2.43.0


From 7dfe10c50331ba5e12e2540d0aa92cf58a49344f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:44 +0000
Subject: [PATCH 15/28] fix: keep a problem's parameter names after an HDMR
 analysis

---
 src/SALib/analyze/hdmr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index 48ad54a..b649f9c 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -820,7 +820,8 @@ def _finalize(problem, SA, Em, d, alpha, maxorder, RT, Y_em, bootstrap_idx, X, Y
     if not isinstance(problem, ProblemSpec):
         Si.problem = problem
     else:
-        problem.update(Si)
+        # Keep the parameter names of the problem
+        problem.update({k: v for k, v in Si.items() if k != "names"})
         problem.emulate = MethodType(emulate, problem)
 
     return Si
-- 
2.43.0


From 7d0af849258b2c2f6c80d22f1740fcb113745ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:13 +0000
Subject: [PATCH 16/28] fix: refuse incomplete outputs in the Morris, DGSM and
 RBD-FAST analyses

---
 src/SALib/analyze/dgsm.py     | 2 +-
 src/SALib/analyze/morris.py   | 6 ++++++
 src/SALib/analyze/rbd_fast.py | 3 +++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/SALib/analyze/dgsm.py b/src/SALib/analyze/dgsm.py
index fd8ece2..90a79f6 100644
--- a/src/SALib/analyze/dgsm.py
+++ b/src/SALib/analyze/dgsm.py
@@ -60,7 +60,7 @@ def analyze(
     D = problem["num_vars"]
     Y_size = Y.size
 
-    if Y_size % (D + 1) == 0:
+    if Y_size % (D + 1) == 0 and len(X) == Y_size:
         N = int(Y_size / (D + 1))
     else:
         raise RuntimeError("Incorrect number of samples in model output file.")
diff --git a/src/SALib/analyze/morris.py b/src/SALib/analyze/morris.py
index e8492c2..8a35aab 100644
--- a/src/SALib/analyze/morris.py
+++ b/src/SALib/analyze/morris.py
@@ -146,6 +146,12 @@ def analyze(
     groups, unique_group_names = compute_groups_matrix(problem["groups"])
     number_of_groups = len(unique_group_names)
 
+    if Y.size == 0 or Y.size % (number_of_groups + 1) != 0 or len(X) != Y.size:
+        raise RuntimeError(
+            "Incorrect number of samples in model output file. Expected one output"
+            " for each input row, and a multiple of the number of groups plus one."
+        )
+
     num_trajectories = int(Y.size / (number_of_groups + 1))
     trajectory_size = int(Y.size / num_trajectories)
 
diff --git a/src/SALib/analyze/rbd_fast.py b/src/SALib/analyze/rbd_fast.py
index d642557..e5ff7a7 100644
--- a/src/SALib/analyze/rbd_fast.py
+++ b/src/SALib/analyze/rbd_fast.py
@@ -88,6 +88,9 @@ def analyze(
     D = problem["num_vars"]
     N = Y.size
 
+    if len(X) != N:
+        raise RuntimeError("Input X and output Y must have the same number of rows")
+
     # Calculate and Output the First Order Value
     Si = ResultDict((k, [None] * D) for k in ["S1", "S1_conf"])
     Si["names"] = problem["names"]
-- 
2.43.0


From 140ef73d76a0893c0ef9240e557b05cb5f609458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:57 +0000
Subject: [PATCH 17/28] fix: read single-parameter input files as a column in
 the analysis commands

---
 src/SALib/analyze/discrepancy.py | 2 +-
 src/SALib/analyze/pawn.py        | 2 +-
 src/SALib/analyze/rbd_fast.py    | 2 +-
 src/SALib/analyze/rsa.py         | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/SALib/analyze/discrepancy.py b/src/SALib/analyze/discrepancy.py
index 282ff1b..c33b84b 100644
--- a/src/SALib/analyze/discrepancy.py
+++ b/src/SALib/analyze/discrepancy.py
@@ -132,7 +132,7 @@ def cli_parse(parser):
 
 def cli_action(args):
     problem = read_param_file(args.paramfile)
-    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter)
+    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter, ndmin=2)
     Y = np.loadtxt(
         args.model_output_file, delimiter=args.delimiter, usecols=(args.column,)
     )
diff --git a/src/SALib/analyze/pawn.py b/src/SALib/analyze/pawn.py
index 71627c7..8e43fb3 100644
--- a/src/SALib/analyze/pawn.py
+++ b/src/SALib/analyze/pawn.py
@@ -190,7 +190,7 @@ def cli_parse(parser):
 
 def cli_action(args):
     problem = read_param_file(args.paramfile)
-    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter)
+    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter, ndmin=2)
     Y = np.loadtxt(
         args.model_output_file, delimiter=args.delimiter, usecols=(args.column,)
     )
diff --git a/src/SALib/analyze/rbd_fast.py b/src/SALib/analyze/rbd_fast.py
index e5ff7a7..d28ae0e 100644
--- a/src/SALib/analyze/rbd_fast.py
+++ b/src/SALib/analyze/rbd_fast.py
@@ -180,7 +180,7 @@ def cli_parse(parser):
 
 def cli_action(args):
     problem = read_param_file(args.paramfile)
-    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter)
+    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter, ndmin=2)
     Y = np.loadtxt(
         args.model_output_file, delimiter=args.delimiter, usecols=(args.column,)
     )
diff --git a/src/SALib/analyze/rsa.py b/src/SALib/analyze/rsa.py
index 4470ffd..d452051 100644
--- a/src/SALib/analyze/rsa.py
+++ b/src/SALib/analyze/rsa.py
@@ -268,7 +268,7 @@ def cli_parse(parser):
 
 def cli_action(args):
     problem = read_param_file(args.paramfile)
-    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter)
+    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter, ndmin=2)
     Y = np.loadtxt(
         args.model_output_file, delimiter=args.delimiter, usecols=(args.column,)
     )
-- 
2.43.0


From b0d2300f862bb092452f3a39e780bbeb7ede681f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:57 +0000
Subject: [PATCH 18/28] fix: print the total-order index of every parameter in
 enhanced HDMR

---
 src/SALib/analyze/enhanced_hdmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index 4b3c590..5cd9c34 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -1520,7 +1520,7 @@ def emulate(self, X):
 
 def _print(Si):
     nc_t = len(Si["Sa"])
-    d = np.isnan(Si["ST"]).sum()
+    d = nc_t - np.isnan(Si["ST"]).sum()
     print("\n")
     cols = "Term    \t      Sa            Sb             S             ST         Significancy "  # noqa: E501
     print(cols)
-- 
2.43.0


From ef75952c8f32e1787fc9d597eb01199c46f748a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:30 +0000
Subject: [PATCH 19/28] fix: refuse incomplete outputs in RSA and empty outputs
 in DGSM

---
 src/SALib/analyze/dgsm.py | 2 +-
 src/SALib/analyze/rsa.py  | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/SALib/analyze/dgsm.py b/src/SALib/analyze/dgsm.py
index 90a79f6..5be9894 100644
--- a/src/SALib/analyze/dgsm.py
+++ b/src/SALib/analyze/dgsm.py
@@ -60,7 +60,7 @@ def analyze(
     D = problem["num_vars"]
     Y_size = Y.size
 
-    if Y_size % (D + 1) == 0 and len(X) == Y_size:
+    if Y_size > 0 and Y_size % (D + 1) == 0 and len(X) == Y_size:
         N = int(Y_size / (D + 1))
     else:
         raise RuntimeError("Incorrect number of samples in model output file.")
diff --git a/src/SALib/analyze/rsa.py b/src/SALib/analyze/rsa.py
index d452051..ec3e371 100644
--- a/src/SALib/analyze/rsa.py
+++ b/src/SALib/analyze/rsa.py
@@ -107,6 +107,9 @@ def analyze(
         Accessible at:
         http://www.andreasaltelli.eu/file/repository/Primer_Corrected_2022.pdf
     """
+    if len(X) != len(Y):
+        raise RuntimeError("Input X and output Y must have the same number of rows")
+
     results = rsa(X, Y, bins, target)
 
     groups = _check_groups(problem)
-- 
2.43.0


From 8319e88a9521bc862df31040cc1cd91a77b1f97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:34 +0000
Subject: [PATCH 20/28] fix: RSA and discrepancy tables of problems with groups

---
 src/SALib/analyze/discrepancy.py | 5 +++--
 src/SALib/analyze/rsa.py         | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/SALib/analyze/discrepancy.py b/src/SALib/analyze/discrepancy.py
index c33b84b..d648201 100644
--- a/src/SALib/analyze/discrepancy.py
+++ b/src/SALib/analyze/discrepancy.py
@@ -99,9 +99,10 @@ def analyze(
 
     s_discrepancy = s_discrepancy / np.sum(s_discrepancy)
 
+    names = problem["names"]
     if groups:
+        names = unique_grps = [*dict.fromkeys(groups)]
         groups = np.array(groups)
-        unique_grps = [*dict.fromkeys(groups)]
         tmp = np.full((len(unique_grps), 1), np.nan)
 
         # Take the mean of effects from parameters that are grouped together
@@ -112,7 +113,7 @@ def analyze(
 
     keys = ("s_discrepancy",)
     Si = ResultDict((k, np.zeros(D)) for k in keys)
-    Si["names"] = problem["names"]
+    Si["names"] = names
 
     Si["s_discrepancy"] = s_discrepancy
 
diff --git a/src/SALib/analyze/rsa.py b/src/SALib/analyze/rsa.py
index ec3e371..9017899 100644
--- a/src/SALib/analyze/rsa.py
+++ b/src/SALib/analyze/rsa.py
@@ -115,11 +115,11 @@ def analyze(
     groups = _check_groups(problem)
     var_names, n_groups = extract_group_names(problem)
     if groups:
-        groups = np.array(var_names)
+        groups = np.array(groups)
         tmp = np.full((bins, n_groups), np.nan)
 
         # Take the mean of effects from parameters that are grouped together
-        for grp_id, grp in enumerate(groups):
+        for grp_id, grp in enumerate(var_names):
             tmp[:, grp_id] = np.nanmean(results[:, groups == grp], axis=1)
 
         results = tmp
-- 
2.43.0


From 50282cd0cb0c243726a6af4ecf8aea4b49e252aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:34 +0000
Subject: [PATCH 21/28] fix: keep the delta analysis when the table of
 bootstrap draws cannot be made

---
 src/SALib/analyze/delta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/analyze/delta.py b/src/SALib/analyze/delta.py
index 479fcbe..b273199 100644
--- a/src/SALib/analyze/delta.py
+++ b/src/SALib/analyze/delta.py
@@ -293,8 +293,8 @@ def analyze(
         print(df_summary.to_string(index=False))
 
     if bootstrap_savedf is not None:
-        df_boot = pd.DataFrame(bootstrap_matrix)
         try:
+            df_boot = pd.DataFrame(bootstrap_matrix)
             df_boot.to_parquet(bootstrap_savedf, engine="pyarrow", compression="snappy")
         except Exception as e:
             warnings.warn(
-- 
2.43.0


From b20bceabec5753bbffd54cf0e2adeb3473ed1e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:15 +0000
Subject: [PATCH 22/28] fix: give each worker at least one sample in parallel
 evaluation

---
 src/SALib/util/problem.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index 9f6e0b2..ac76db5 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -232,8 +232,9 @@ class ProblemSpec(dict):
         # Create wrapped partial function to allow passing of additional args
         tmp_f = self._wrap_func(func, *args, **kwargs)
 
-        # Split into even chunks
-        chunks = np.array_split(self._samples, int(nprocs), axis=0)
+        # Split into even chunks, none of them empty
+        num_chunks = max(min(int(nprocs), len(self._samples)), 1)
+        chunks = np.array_split(self._samples, num_chunks, axis=0)
 
         if ptqdm_available:
             # Display progress bar if available
@@ -303,9 +304,10 @@ class ProblemSpec(dict):
         workers = pp_Pool(nprocs, servers=servers)
 
         try:
-            # Split into even chunks
+            # Split into even chunks, none of them empty
             num_servers = len(servers) if servers else 1
-            chunks = np.array_split(self._samples, int(nprocs) * num_servers, axis=0)
+            num_chunks = max(min(int(nprocs) * num_servers, len(self._samples)), 1)
+            chunks = np.array_split(self._samples, num_chunks, axis=0)
 
             # Create wrapped partial function to allow passing of additional args
             tmp_f = self._wrap_func(func, *args, **kwargs)
-- 
2.43.0


From 8cd0eb03ba4a520184044e5060a29d7a6fd4f3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:15 +0000
Subject: [PATCH 23/28] fix: keep the type of model outputs in parallel
 evaluation

---
 src/SALib/util/problem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index ac76db5..6078133 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -582,7 +582,8 @@ class ProblemSpec(dict):
         else:
             res_shape = len(self._samples)
 
-        final_res = np.empty(res_shape)
+        # Any worker may have met the more general type of data
+        final_res = np.empty(res_shape, dtype=np.result_type(*res))
 
         # Collect results
         # Cannot enumerate over this as the length
-- 
2.43.0


From 9272b5d9637b0a1fdd9954898fbefca13b9e7737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:51 +0000
Subject: [PATCH 24/28] fix: refuse outputs of another length than the input in
 fractional factorial analysis

---
 src/SALib/analyze/ff.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/SALib/analyze/ff.py b/src/SALib/analyze/ff.py
index 268bd62..e92f063 100644
--- a/src/SALib/analyze/ff.py
+++ b/src/SALib/analyze/ff.py
@@ -68,6 +68,9 @@ def analyze(problem, X, Y, second_order=False, print_to_console=False, seed=None
            Wiley, West Sussex, U.K.
            http://doi.org/10.1002/9780470725184
     """
+    if len(X) != len(Y):
+        raise ValueError("The number of model outputs does not match the model inputs")
+
     problem = extend_bounds(problem)
     num_vars = problem["num_vars"]
 
-- 
2.43.0


From 3840b99a01d490f6b2e2d1af9aca00a31c2e1fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:34 +0000
Subject: [PATCH 25/28] fix: restore the program's warning settings after a
 delta analysis

---
 src/SALib/analyze/delta.py | 45 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/delta.py b/src/SALib/analyze/delta.py
index b273199..7527aeb 100644
--- a/src/SALib/analyze/delta.py
+++ b/src/SALib/analyze/delta.py
@@ -7,6 +7,7 @@ import pandas as pd
 from . import common_args
 from ..util import read_param_file, ResultDict
 
+from contextlib import contextmanager
 import warnings
 import json
 
@@ -35,6 +36,19 @@ def custom_warning_formatter(message, category, filename, lineno, line=None):
     return f"{message}\n"
 
 
+@contextmanager
+def notices():
+    """Show each notice of an analysis once, in short form, then restore the warnings"""
+    formatter = warnings.formatwarning
+    with warnings.catch_warnings():
+        warnings.simplefilter("once")
+        try:
+            warnings.formatwarning = custom_warning_formatter
+            yield
+        finally:
+            warnings.formatwarning = formatter
+
+
 def analyze(
     problem: Dict,
     X: np.ndarray,
@@ -159,11 +173,38 @@ def analyze(
            sensitivity measures from given data." European Journal of
            Operational Research, 226(3):536-550, doi:10.1016/j.ejor.2012.11.047.
     """
+    with notices():
+        return _analyze(
+            problem,
+            X,
+            Y,
+            num_resamples,
+            conf_level,
+            print_to_console,
+            seed,
+            y_resamples,
+            method,
+            bootstrap_savedf,
+            bins_specs,
+        )
+
+
+def _analyze(
+    problem,
+    X,
+    Y,
+    num_resamples,
+    conf_level,
+    print_to_console,
+    seed,
+    y_resamples,
+    method,
+    bootstrap_savedf,
+    bins_specs,
+):
     rng = np.random if seed is None else np.random.RandomState(seed)
 
     valid_methods = {"delta", "sobol", "all"}
-    warnings.formatwarning = custom_warning_formatter
-    warnings.simplefilter("once")
 
     if X.shape[0] != Y.shape[0]:
         raise RuntimeError("Input X and output Y must have the same number of rows")
-- 
2.43.0


From 589fe6111fe64044323dfa47d40ba64e3a61e079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:34 +0000
Subject: [PATCH 26/28] fix: copies and pickles of problems and results keep
 their own methods

---
 src/SALib/util/problem.py | 20 ++++++++++++++++++++
 src/SALib/util/results.py | 19 +++++++++++++++++++
 2 files changed, 39 insertions(+)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index 6078133..c590d6c 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -59,6 +59,26 @@ class ProblemSpec(dict):
         self._add_samplers()
         self._add_analyzers()
 
+    def __getstate__(self):
+        """Leave out the methods bound to this object, for a copy to get its own."""
+        attrs, methods = {}, {}
+        for k, v in self.__dict__.items():
+            if not isinstance(v, MethodType) or v.__self__ is not self:
+                attrs[k] = v
+            elif not k.startswith(("sample_", "analyze_")):
+                methods[k] = v.__func__
+
+        return attrs, methods
+
+    def __setstate__(self, state):
+        attrs, methods = state
+        self.__dict__.update(attrs)
+        for k, func in methods.items():
+            self.__setattr__(k, MethodType(func, self))
+
+        self._add_samplers()
+        self._add_analyzers()
+
     @property
     def samples(self):
         return self._samples
diff --git a/src/SALib/util/results.py b/src/SALib/util/results.py
index 838cdb2..4bac07f 100644
--- a/src/SALib/util/results.py
+++ b/src/SALib/util/results.py
@@ -1,3 +1,5 @@
+from types import MethodType
+
 import pandas as pd  # type: ignore
 from SALib.plotting.bar import plot as barplot
 
@@ -12,6 +14,23 @@ class ResultDict(dict):
     def __init__(self, *args, **kwargs):
         super(ResultDict, self).__init__(*args, **kwargs)
 
+    def __getstate__(self):
+        """Describe the methods bound to this object, for a copy to get its own."""
+        attrs, methods = {}, {}
+        for k, v in self.__dict__.items():
+            if isinstance(v, MethodType) and v.__self__ is self:
+                methods[k] = v.__func__
+            else:
+                attrs[k] = v
+
+        return attrs, methods
+
+    def __setstate__(self, state):
+        attrs, methods = state
+        self.__dict__.update(attrs)
+        for k, func in methods.items():
+            self.__setattr__(k, MethodType(func, self))
+
     def to_df(self):
         """Convert dict structure into Pandas DataFrame."""
         return pd.DataFrame(
-- 
2.43.0


From 1e25ab79e2b49af35bf19a28044aa3dc5748f24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 27/28] fix: let results of enhanced HDMR with an emulator be
 pickled

---
 src/SALib/analyze/enhanced_hdmr.py | 56 +++++++++++++++---------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index 5cd9c34..b64cfc8 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -16,6 +16,34 @@ from ..util import read_param_file, ResultDict
 
 __all__ = ["analyze", "cli_parse", "cli_action"]
 
+CoreParams = namedtuple(
+    "CoreParams",
+    [
+        "N",
+        "d",
+        "max_order",
+        "ext_base",
+        "subset",
+        "p_o",
+        "nc1",
+        "nc2",
+        "nc3",
+        "nc_t",
+        "nt1",
+        "nt2",
+        "nt3",
+        "tnt1",
+        "tnt2",
+        "tnt3",
+        "a_tnt",
+        "x",
+        "idx",
+        "beta",
+        "gamma",
+        "f0",
+    ],
+)
+
 
 def analyze(
     problem: Dict,
@@ -501,34 +529,6 @@ def _core_params(
         else np.argsort(rng.rand(N, bootstrap), axis=0)[:subset]
     )
 
-    CoreParams = namedtuple(
-        "CoreParams",
-        [
-            "N",
-            "d",
-            "max_order",
-            "ext_base",
-            "subset",
-            "p_o",
-            "nc1",
-            "nc2",
-            "nc3",
-            "nc_t",
-            "nt1",
-            "nt2",
-            "nt3",
-            "tnt1",
-            "tnt2",
-            "tnt3",
-            "a_tnt",
-            "x",
-            "idx",
-            "beta",
-            "gamma",
-            "f0",
-        ],
-    )
-
     n_comp_func = cp["n_comp_func"]
     n_coeff = cp["n_coeff"]
     hdmr = CoreParams(
-- 
2.43.0


From 9d85cc6dfa3df72015c1331eeb6de2c4b7358614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:03 +0000
Subject: [PATCH 28/28] fix: fail parallel evaluation and analysis ended early
 by a StopIteration

---
 src/SALib/util/problem.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index c590d6c..f472990 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -491,6 +491,10 @@ class ProblemSpec(dict):
         # Assign by output name if more than 1 output, otherwise
         # attach directly
         if Yn > 1:
+            if len(res) != Yn:
+                # e.g. iteration was ended by a StopIteration raised in a worker
+                raise RuntimeError("Analysis stopped before it was complete")
+
             self._analysis = dict(zip(self["outputs"], res))
         else:
             self._analysis = res
@@ -589,6 +593,10 @@ class ProblemSpec(dict):
             )
 
     def _collect_results(self, res, chunks):
+        if len(res) != len(chunks):
+            # e.g. iteration was ended by a StopIteration raised in the model
+            raise RuntimeError("Model evaluation stopped before it was complete")
+
         for r, chunk in zip(res, chunks):
             if len(r) != len(chunk) or r.shape[1:] != res[0].shape[1:]:
                 raise ValueError(
-- 
2.43.0

