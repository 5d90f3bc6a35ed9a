"""Writes /verif/properties.jsonl (one property per line, schema in PROPERTIES.schema.json)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": observe,
            "hook_needed": None,
        },
    })


prop("C01", "Model batch calls equal the per-instance calls in row order",
     "For every model, fit(X, y), score(X) and fit_score(X, y) have exactly the effect and results of calling fit_partial, score_partial and fit_score_partial once per row, in row order, each row with its own label (None when no labels are given). fit returns the model itself; score and fit_score return a float64 array with exactly one entry per row, entry i being the score produced for row i. fit_score_partial(x, y) is fit_partial(x, y) followed by scoring that same x.",
     ["inputs", "histories", "configurations"],
     "all models, all stream lengths (0, 1, thousands), label values (including 0), score return types (float, numpy scalar, 0-d and length-1 arrays), all splits of a stream into batch and per-instance calls",
     "Tests call each API once on one random stream and check shapes; they never compare batch against per-instance execution, label pairing, or mixed call histories.",
     ["pysad/core/base_model.py", "pysad/utils/__init__.py", "pysad/utils/array_streamer.py", "pysad/models/seasonal_esd.py"],
     [("batch loops over _iterate", "pysad/core/base_model.py"), ("fit_score override", "pysad/models/seasonal_esd.py")],
     ["BaseModel.fit/score/fit_score and the *_partial calls they make"])

prop("C02", "Transformer and postprocessor batch calls equal per-instance calls",
     "For every preprocessor, projector, postprocessor, calibrator and ensembler, fit, transform and fit_transform over an array have exactly the effect and results of the corresponding *_partial call once per row in row order. fit returns the object itself, and row i of a batch result is the per-instance result for row i, as float64.",
     ["inputs", "histories", "configurations"],
     "all transformers and postprocessors, all stream lengths and widths, fixed and input-dependent output widths, all splits of a stream into batch and per-instance calls",
     "Tests check shapes and a few fixed arrays; transformers' batch fit is exercised on stateless components only.",
     ["pysad/core/base_transformer.py", "pysad/core/base_postprocessor.py", "pysad/transform/preprocessing/seasonal_trend_decomposer.py", "pysad/transform/preprocessing/modified_stl_residual.py"],
     [("batch loops over _iterate", "pysad/core/base_transformer.py, pysad/core/base_postprocessor.py")],
     ["BaseTransformer and BasePostprocessor fit/transform/fit_transform and the *_partial calls they make"])

prop("C03", "Streamers deliver every instance exactly once with its own label",
     "Iterating arrays or data frames yields every row exactly once, paired with the label at the same position, values unchanged: in input order without shuffling, in some permutation with shuffling. Features and labels of different lengths are rejected by an exception, and iterating never changes the inputs. The shuffled order is determined by the random state at the time the iterator is requested (for a dataset iterator, by its seed), whatever else draws random numbers while it is consumed.",
     ["inputs", "configurations", "histories"],
     "all row counts (0, 1, thousands), duplicate rows, dtypes, data frames with arbitrary indices, several live iterators, seeds",
     "Tests iterate one or two small arrays and compare with the identity order; pairing under shuffle, exactly-once and seed isolation are not observed.",
     ["pysad/utils/array_streamer.py", "pysad/utils/pandas_streamer.py", "pysad/utils/data.py", "pysad/core/base_streamer.py"],
     [("index list shuffled once, rows and labels taken by the same index", "pysad/utils/array_streamer.py")],
     ["items produced by ArrayStreamer.iter, PandasStreamer.iter, Data.get_iterator"])

prop("C04", "Meters equal the statistic of the values currently held",
     "After any sequence of update(v) and remove(v) of a held value, in any order, every meter's get() equals its definition evaluated on the multiset of values updated and not removed: sum, count, average, maximum, minimum, median, sum of squares, population variance, and the absolute value of a wrapped statistic. The variance is never negative, get() can be repeated without changing anything, and update and remove return the meter itself.",
     ["histories", "inputs"],
     "all update/remove histories (any removal order, duplicates, ties, emptying and refilling, thousands of operations) over ints, floats, negative and large values",
     "Tests update and remove one fixed sequence in a fixed order.",
     ["pysad/statistics/*.py"],
     [("incremental accumulators and sorted lists", "pysad/statistics/*.py")],
     ["get() after every operation"])

prop("C05", "Windows and running statistics reflect exactly the last window_size values",
     "After any number of updates, a window of size W holds exactly the last min(W, n) items in arrival order (an unlimited window holds all of them), and a running statistic over W equals the wrapped statistic (constructed with the given keyword arguments) evaluated on exactly those last min(W, n) values. Reading either does not change it.",
     ["histories", "inputs", "configurations"],
     "all window sizes from 1 to larger than the stream, all wrapped statistics, all value sequences, with reads interleaved anywhere",
     "Tests use one window size and a short sequence.",
     ["pysad/utils/window.py", "pysad/statistics/running_statistic.py"],
     [("append then drop the oldest; add then remove from the statistic", "pysad/utils/window.py, pysad/statistics/running_statistic.py")],
     ["Window.get(), RunningStatistic.get()"])

prop("C06", "Postprocessed scores equal the running aggregate they name",
     "After fitting scores s1..sn, the average, maximum and median postprocessors output the mean, maximum and median of s1..sn, and their running variants those of the last min(W, n) scores. The Z-score postprocessors map a score s to (s - mean)/std with the population mean and standard deviation of the same scores, whenever that deviation is positive. Transforming never changes later outputs, and fit_partial returns the postprocessor.",
     ["histories", "inputs", "configurations"],
     "all score sequences, window sizes, and interleavings of fit_partial, transform_partial and fit_transform_partial, including transforming a score different from the last fitted one",
     "Tests compare with numpy on one array and one window size.",
     ["pysad/transform/postprocessing/postprocessors.py", "pysad/transform/postprocessing/running_postprocessors.py"],
     [("meters fed by fit_partial", "pysad/transform/postprocessing")],
     ["transform_partial / fit_transform_partial results"])

prop("C07", "Calibrated probabilities equal their definition over the fitted scores",
     "The conformal calibrator maps a score to the fraction of retained fitted scores that are strictly greater than it; the Gaussian tail calibrator maps a score s to the standard normal CDF of (s - mean)/std of the retained fitted scores (std taken as 1 when their variance is 0). Retained means the last window_size fitted scores when windowed, otherwise every fitted score whatever window_size is. Results always lie in [0, 1], are monotone in the score, and transforming never changes later outputs.",
     ["histories", "inputs", "configurations"],
     "all score sequences (ties, constants, extreme values), window sizes, windowed and non-windowed, transform interleaved with fit",
     "Tests only check that outputs lie in [0, 1] on one random stream.",
     ["pysad/transform/probability_calibration/conformal_prediction.py", "pysad/transform/probability_calibration/gaussian_tail.py"],
     [("score window; running mean and variance", "pysad/transform/probability_calibration")],
     ["transform_partial / fit_transform_partial results"])

prop("C08", "Ensemblers combine exactly one instance's scores by their stated rule",
     "For every instance, the average (optionally weighted), maximum and median ensemblers return the (weighted) mean, maximum and median of that instance's detector scores; the average-of-maximum and maximum-of-average ensemblers with static buckets return the mean of bucket maxima or the maximum of bucket means for some partition of the scores into n_buckets equally sized buckets, and with dynamic buckets a value between the smallest and largest score. The result depends only on that instance's scores, never on instances seen before.",
     ["inputs", "histories", "configurations"],
     "all score matrices (ties, negatives, large values), numbers of detectors and buckets, weights, and call histories",
     "Tests compare with PyOD's own functions or check shapes only, on one random matrix.",
     ["pysad/transform/ensemble/ensemblers.py"],
     [("per-instance reshape and PyOD combination", "pysad/transform/ensemble/ensemblers.py")],
     ["transform_partial, transform, fit_transform results"])

prop("C09", "Metrics equal their definition over the whole evaluated history",
     "After any sequence of update(y_true, y_pred), precision, recall, AUROC and AUPR equal their textbook definitions over all pairs seen so far: TP/(TP+FP), TP/(TP+FN) (0 where nothing was predicted or is positive), the probability that a random anomaly outscores a random normal instance with ties counting one half, and average precision. The value does not depend on the order of the pairs or on how often it was read before, and AUROC raises ValueError exactly while only one class has been seen.",
     ["histories", "inputs"],
     "all label/score sequences with both classes present (ties, negative and extreme scores, heavy imbalance), reads interleaved anywhere",
     "Tests check one small sequence per metric.",
     ["pysad/evaluation/metrics.py", "pysad/core/base_metric.py"],
     [("all pairs stored, sklearn evaluated on get()", "pysad/evaluation/metrics.py")],
     ["get() at every prefix"])

prop("C10", "Windowed metrics average consecutive disjoint windows",
     "A windowed metric over window_size W equals the mean of the wrapped metric (constructed with the given keyword arguments in every window) over the consecutive disjoint blocks of W updates; an incomplete last block is ignored by default and averaged in as one more block when ignore_nonempty_last is False. Before the first block is complete it equals the wrapped metric over the updates so far, and reading it does not change it.",
     ["histories", "inputs", "configurations"],
     "all stream lengths relative to W (below, exactly at, above block boundaries), window sizes from 1, wrapped metrics with and without arguments, both settings of ignore_nonempty_last",
     "Tests run one stream and check a range.",
     ["pysad/evaluation/windowed_metric.py"],
     [("step counter, per-block metric and running average of block scores", "pysad/evaluation/windowed_metric.py")],
     ["get() after every update"])

prop("C11", "Window-wrapped batch detectors are refit on exactly the reference window",
     "A reference-window model without an initial window refits a fresh detector on all instances seen so far at its first instance and at every instance while fewer than window_size instances have been seen; afterwards, and from the start when an initial window is given, it refits a fresh detector exactly at every stream instance whose number is a multiple of sliding_size, on the last window_size instances of initial window plus stream in order, together with their labels when both the initial window (if any) and the stream carry labels. Every score comes from the most recently fitted detector, and the detector always receives the user's keyword arguments. The one-fit model fits its detector exactly once, on its initial data, and the isolation-forest streaming model refits every window_size instances in this way.",
     ["histories", "inputs", "configurations"],
     "all stream lengths, window and sliding sizes (sliding smaller than, equal to and larger than the window), with and without initial window and labels (consistently present or absent), scoring at any point",
     "Tests check output shapes for one configuration; the refit schedule and the data handed to the detector are not observed.",
     ["pysad/models/integrations/reference_window_model.py", "pysad/models/integrations/one_fit_model.py", "pysad/models/integrations/pyod_model.py", "pysad/models/iforest_asd.py"],
     [("current and reference window bookkeeping", "pysad/models/integrations/reference_window_model.py")],
     ["construct/fit/decision_function calls received by the wrapped detector"])

prop("C12", "Scoring and transforming never change what is learned",
     "Calling score_partial, score, transform_partial, transform or get, any number of times with any inputs, between the fitting calls leaves all later scores, transforms and values the same as if those calls had not been made. Exceptions are only the models whose documented behaviour is to consume or hold state on scoring: the perfect model's label queue, the random model's draws and KNN-CAD's alarm hold-off.",
     ["histories", "inputs", "configurations"],
     "all interleavings of fitting and scoring calls, all probe inputs (far outliers, repeats of fitted points), all models, transformers, postprocessors, calibrators, ensemblers, meters and metrics",
     "Tests always run fit_score in lock step, so a score call that trains or corrupts the model is invisible.",
     ["pysad/models/*.py", "pysad/transform/**/*.py", "pysad/statistics/*.py", "pysad/evaluation/*.py"],
     [("separate fit and score paths; temporary insertion undone", "pysad/models/robust_random_cut_forest.py and others")],
     ["outputs of twin objects, one with and one without the extra read calls"])

prop("C13", "User-supplied data is never modified",
     "No call of the library modifies the arrays, data frames, label arrays, initial windows, feature bounds, weights or dictionaries that the caller passes to constructors or methods, and read-only arrays are accepted wherever writable ones are.",
     ["inputs", "histories", "configurations"],
     "all components and calls, arrays of any memory layout (C, Fortran, strided views, read-only) and dtype",
     "Tests never look at their inputs after the call and never pass read-only or strided arrays.",
     ["pysad/models/*.py", "pysad/transform/**/*.py", "pysad/utils/*.py"],
     [("copies before in-place work, e.g. deepcopy of bounds", "pysad/models/half_space_trees.py")],
     ["bytes of every array handed in, before and after"])

prop("C14", "Fixing the seed makes every run reproducible",
     "After fix_seed(s), building any component and running any workload on it produces exactly the same outputs in every repetition, in the same process or another one, whatever random numbers were drawn before and whatever the interpreter's hash seed is. Different seeds give different random draws.",
     ["configurations", "histories", "inputs"],
     "all components and workloads, seeds, process boundaries, preceding random-number use",
     "Tests fix the seed but never run the same workload twice and compare.",
     ["pysad/utils/__init__.py", "pysad/models/*.py", "pysad/transform/projection/*.py", "pysad/transform/ensemble/ensemblers.py"],
     [("all randomness drawn from the two global generators that fix_seed seeds", "pysad/utils/__init__.py")],
     ["outputs of repeated runs in one process and in child processes"])

prop("C15", "Objects of the library do not influence each other",
     "Any two or more objects of the library, of the same or different classes, used side by side in any interleaving produce the same outputs as each used alone, apart from the global random state they share. Creating, using or discarding an object never changes another one.",
     ["histories", "schedules", "configurations"],
     "all component classes, all interleavings of calls on several instances, differently configured instances of one class, creation and deletion in between",
     "Tests use one object at a time.",
     ["pysad/**/*.py"],
     [("all state kept per instance", "pysad/**/*.py")],
     ["outputs of interleaved objects against solo runs"])

prop("C16", "Streaming state stays bounded on unbounded streams",
     "The memory held by every fixed-window or fixed-size component (windows, running statistics, running postprocessors, windowed calibrators, windowed metrics, preprocessors, projectors, and all models except the median/standard deviation models that keep every value) stops growing once its window or grace period is full, no matter how many instances of a bounded domain follow.",
     ["histories", "inputs", "configurations"],
     "all stream lengths beyond the warm-up, fit and score calls in any mix, configured window sizes",
     "Tests stop after some hundred instances and never measure retained state.",
     ["pysad/utils/window.py", "pysad/statistics/running_statistic.py", "pysad/models/*.py", "pysad/transform/**/*.py", "pysad/evaluation/windowed_metric.py"],
     [("windows trimmed on update, forgetting of tree points, per-window sketches", "pysad/models, pysad/utils/window.py")],
     ["objects and bytes reachable from the component at widely spaced stream positions"])

prop("C17", "Windowed components forget everything older than their window",
     "Once enough instances have passed to fill the configured window (for aligned-window models, a whole number of windows), the outputs of every windowed component - windows, running statistics and postprocessors, windowed calibrators, STL residual transformer, seasonal ESD models, exact-STORM, half-space trees, xStream, reference-window and isolation-forest streaming models, KNN-CAD after its training set has been replaced - depend only on the instances inside the window, not on what preceded them.",
     ["histories", "inputs", "configurations"],
     "all pairs of equally long prefixes with different content (including extreme outliers) followed by the same suffix",
     "Tests never compare two histories.",
     ["pysad/utils/window.py", "pysad/models/exact_storm.py", "pysad/models/half_space_trees.py", "pysad/models/xstream.py", "pysad/models/knn_cad.py", "pysad/models/seasonal_esd.py", "pysad/models/integrations/reference_window_model.py"],
     [("oldest items dropped; window counters swapped and reset", "as listed in files")],
     ["outputs of twin objects with different prefixes"])

prop("C18", "Deviation models score exactly their running location and scale formula",
     "The standard absolute deviation model scores x as |x - c|/(s + 1e-10) with c the mean (or median, as configured) and s the population standard deviation of all fitted values; the median absolute deviation model as |x - m|/(b*d + 1e-10) with m the median of all fitted values and d the median over time of each fitted value's absolute deviation from the running median that includes it. With absolute=False the sign of x - c (or x - m) is kept.",
     ["histories", "inputs", "configurations"],
     "all univariate streams (ints, constants, ties, outliers, large offsets), both statistics, both sign settings, scoring values that were never fitted",
     "Tests check shapes and one short sequence.",
     ["pysad/models/median_absolute_deviation.py", "pysad/models/standard_absolute_deviation.py"],
     [("running median, mean and variance meters", "pysad/statistics")],
     ["score_partial results"])

prop("C19", "Half-space trees score the mass profile of the last complete window",
     "With an initial or just-started model, half-space trees score -sum over trees and depths 0..max_depth of mass(node)*2^depth along x's path, where mass counts the instances fitted so far that fall in the same node; once window_size instances have been fitted, mass counts exactly the instances of the last complete window of window_size instances. Nodes come from recursively halving a randomly chosen feature's current range, starting from the given feature bounds, values above the midpoint going to the upper half. Fitting an initial window is the same as fitting those instances.",
     ["histories", "inputs", "configurations"],
     "all streams (inside and outside the bounds, on split midpoints), window sizes, tree counts, depths and scoring positions relative to window boundaries",
     "Tests check score shapes only.",
     ["pysad/models/half_space_trees.py"],
     [("reference and latest mass per node, swapped at window end", "pysad/models/half_space_trees.py")],
     ["score_partial results against a reference built from the definition"])

prop("C20", "Exact-STORM and RS-Hash scores equal their neighbour and sketch counts",
     "Exact-STORM scores x as the fraction of the window's instances, excluding the most recently fitted one, whose Euclidean distance to x is below max_radius (0 when there are none). RS-Hash scores the last fitted instance as the average over components of log(1 + c), where c is the sum over earlier instances in the same randomly shifted grid cell of 2^(-decay * steps since that instance), over the component's sampled features.",
     ["histories", "inputs", "configurations"],
     "all streams, radii, window sizes, decay rates, numbers of components and hash functions, duplicate and boundary-distance points",
     "Tests check score shapes only.",
     ["pysad/models/exact_storm.py", "pysad/models/rs_hash.py"],
     [("instance window and distance count; time-decayed count sketch", "pysad/models/exact_storm.py, pysad/models/rs_hash.py")],
     ["score_partial results"])

prop("C21", "xStream scores reflect bin counts of the reference window",
     "xStream's score of x is the average over chains of the maximum over depths d = 1..depth of -(log2(1 + c_d) + d), where c_d is the number of instances of the last complete window of window_size instances (of the instances so far, during the first window) that share x's bin at depth d. A feature's bins are half as wide as its range in that window (1 when the range vanishes, 0.5 during the first window), halve each time the chain revisits the feature, and are shifted by one random fraction per feature. Hence every score lies in [-(log2(1 + window_size) + 1), -1], an instance present m times in that window scores at most -(log2(1 + m) + 1), and an instance sharing no bin with it scores exactly -1.",
     ["histories", "inputs", "configurations"],
     "all streams, window sizes, numbers of components, chains and depths, scoring positions relative to window boundaries",
     "Tests check score shapes only.",
     ["pysad/models/xstream.py", "pysad/transform/projection/streamhash_projector.py"],
     [("half-space chain sketches recounted per reference window", "pysad/models/xstream.py")],
     ["score_partial results"])

prop("C22", "RRCF scores collusive displacement over the last tree_size instances",
     "At any time every tree of the robust random cut forest holds exactly the last min(tree_size, n) fitted instances. The score of x is the mean over trees of its collusive displacement (as the rrcf library computes it) in the tree of those instances, with x inserted temporarily when the tree does not find it among them; scoring leaves every tree as it was. In particular an instance extremely far from everything held scores exactly the number of held instances.",
     ["histories", "inputs", "configurations"],
     "all streams with duplicates, tree sizes and tree counts, scoring at any point, streams much longer than tree_size",
     "Tests check score shapes on streams shorter than the tree size.",
     ["pysad/models/robust_random_cut_forest.py"],
     [("forget_point of the oldest index before insertion", "pysad/models/robust_random_cut_forest.py")],
     ["score_partial results"])

prop("C23", "Seasonal ESD models flag exactly what generalized ESD flags",
     "Seasonal ESD scores an instance 0 until window_size values are available, and then by generalized ESD on the modified STL residuals of the last window_size values ending with that instance: the test statistic |r - centre|/scale at the step where the instance is removed if it is among the detected anomalies, and 0 otherwise. The plain model uses mean and sample standard deviation, the hybrid one median and 1.4826*MAD, with two-sided t critical values at level alpha and at most max_anomalies removals. Invalid configurations are rejected by ValueError.",
     ["histories", "inputs", "configurations"],
     "all univariate streams (seasonal, noisy, with spikes, constant), periods, window sizes, alpha and max_anomalies values, fit/score interleavings",
     "Tests check a few crafted spikes.",
     ["pysad/models/seasonal_esd.py", "pysad/transform/preprocessing/modified_stl_residual.py"],
     [("candidate window, STL residual, ESD loop", "pysad/models/seasonal_esd.py")],
     ["score_partial and fit_score_partial results against an independent ESD implementation"])

prop("C24", "Seasonal preprocessors remove exactly the stated trend and season",
     "The modified STL residual of a window is x - seasonal - median(x) with the STL seasonal component, and its per-instance result is the last residual of the last window_size values ending with that instance, or 0 while fewer than two periods are available. The streaming decomposer subtracts from each feature the mean of the last trend_window fitted values and the mean, per position in the season, of the earlier detrended values (collected only once trend_window values are available), where fit_transform includes the instance itself.",
     ["histories", "inputs", "configurations"],
     "all streams, widths, periods, trend windows (shorter and longer than the season) and interleavings of fit and transform",
     "Tests check a few hand-computed steps.",
     ["pysad/transform/preprocessing/modified_stl_residual.py", "pysad/transform/preprocessing/seasonal_trend_decomposer.py"],
     [("value window, per-phase sums and counts", "pysad/transform/preprocessing")],
     ["transform_partial / fit_transform_partial / transform_window results"])

prop("C25", "KitNet follows its feature-mapping, training and execution phases",
     "KitNet learns its feature map from the first grace_feature_mapping + 1 instances, trains its autoencoders on the next grace_anomaly_detector instances and never changes afterwards; scores are 0 until the autoencoders have been trained. A score is the output autoencoder's RMSE over the ensemble autoencoders' RMSEs, each on 0-1 normalised inputs over the ranges seen in training, with every feature assigned to exactly one autoencoder of at most max_size_ae features chosen by correlation clustering.",
     ["histories", "inputs", "configurations"],
     "all streams, feature counts (including 1, constant and perfectly correlated features), grace periods, autoencoder sizes, learning rates and hidden ratios",
     "Tests check score shapes for one configuration.",
     ["pysad/models/kitnet.py", "pysad/models/kitnet_model/KitNET.py", "pysad/models/kitnet_model/dA.py", "pysad/models/kitnet_model/corClust.py"],
     [("phase counter, correlation clustering, tied-weight autoencoders", "pysad/models/kitnet_model")],
     ["score_partial results against an independent implementation"])

prop("C26", "KNN-CAD and relative-entropy scores equal their published procedure",
     "KNN-CAD outputs 0 during the probationary period and then the fraction of the retained conformity scores below that of the latest 19-value vector, its conformity being the sum of the 27 smallest Mahalanobis-type distances to the training vectors, followed after an alarm (at least 0.9965) by 0.5 for the next probationary_period/5 scores. The relative entropy model outputs 0 until window_size values are fitted or when the histogram of the last window_size values agrees with that of the first full window (over the values between min_val and max_val; 2*window_size*KL below the chi-square 0.99 quantile), and -1 otherwise.",
     ["histories", "inputs", "configurations"],
     "all univariate streams, probationary periods of at least 48, bin counts and window sizes",
     "Tests check score shapes only.",
     ["pysad/models/knn_cad.py", "pysad/models/relative_entropy.py"],
     [("rolling training and calibration sets; windowed histogram", "pysad/models/knn_cad.py, pysad/models/relative_entropy.py")],
     ["score_partial results against an independent implementation"])

prop("C27", "Projectors apply one fixed linear map of the configured size",
     "Each projector instance maps every instance, throughout its life, by one fixed matrix: results are linear in the input, repeatable, independent of other instances, and of length num_components. Streamhash entries are -c, 0 or c with c = sqrt(1/density)/sqrt(num_components), are given by the murmur hash of the feature position seeded with the component number (so they do not depend on seed, process, instance or width), and occur with frequencies density/2, 1 - density, density/2; the sparse projector's entries have the same form and the Gaussian projector's entries are N(0, 1/num_components).",
     ["inputs", "histories", "configurations"],
     "all input vectors, widths, component counts (including 1) and densities, any call history",
     "Tests check output shapes only.",
     ["pysad/transform/projection/random_projector.py", "pysad/transform/projection/streamhash_projector.py"],
     [("lazily fitted sklearn projector; murmur hash of feature position", "pysad/transform/projection")],
     ["transform_partial results on unit vectors, sums and multiples"])

prop("C28", "Instance scalers normalise each instance independently",
     "The unit-norm scaler returns x/||x||_p for the configured p (so the result has p-norm 1 and x's direction) for every non-zero x, the standard scaler returns (x - mean(x))/std(x) for every non-constant x (so the result has mean 0 and population standard deviation 1), and the identity scaler returns x. The result depends on that instance alone, whatever was fitted or transformed before.",
     ["inputs", "histories", "configurations"],
     "all vectors (negative, tiny, huge, integer dtype, any width), norms p >= 1 including infinity, call histories",
     "Tests check one random batch.",
     ["pysad/transform/preprocessing/instance_unit_norm_scaler.py", "pysad/transform/preprocessing/instance_standard_scaler.py", "pysad/transform/preprocessing/identity_scaler.py"],
     [("stateless per-instance arithmetic", "pysad/transform/preprocessing")],
     ["transform_partial and transform results"])

prop("C29", "Higher scores mean more anomalous",
     "For every learning model, after fitting a stream concentrated on normal behaviour, an instance far away from everything seen scores strictly higher than an instance taken from the middle of the normal behaviour (for KNN-CAD, whose score is a rank among past scores, on average over such streams).",
     ["inputs", "configurations", "histories"],
     "all learning models, cluster locations and scales, outlier directions, seeds and stream lengths",
     "Tests never compare the scores of normal and anomalous instances.",
     ["pysad/core/base_model.py", "pysad/models/*.py", "pysad/models/integrations/*.py"],
     [("sign and scale of each model's score", "pysad/models/*.py")],
     ["score_partial (or fit_score_partial for models that score the last fitted instance) on paired probes"])

prop("C30", "Every score is one finite number from the first instance on",
     "For every model and every finite input stream within its documented domain - including the first instances, constant streams, repeated instances, extreme magnitudes and single-feature streams - fit_partial returns the model and each score is a single finite real number; the same holds for the outputs of transformers and postprocessors where they are defined.",
     ["inputs", "histories", "configurations"],
     "all models and window/grace configurations, finite streams of any such shape, from the first call on",
     "Tests use well-behaved random data, mostly after an initial window.",
     ["pysad/models/*.py", "pysad/transform/**/*.py"],
     [("guards against empty windows, zero variance and untrained state", "pysad/models/*.py")],
     ["return values of every fit and score call"])

prop("C31", "Baseline models and local outlier probabilities behave as documented",
     "The null model scores 0.5 always; the perfect model returns the fitted labels in first-in first-out order, exactly once each, and rejects a missing label with ValueError; the random model scores independently and uniformly in [0, 1) whatever the input. The local outlier probability model scores against its initial data only: fitting never changes a score, scores lie in [0, 1] and equal those of the PyNomaly stream approach on the same initial data, neighbours and extent.",
     ["histories", "inputs", "configurations"],
     "all streams, label values (including 0, negatives, floats), interleavings with several labels queued, initial data sets, neighbour counts and extents",
     "Tests run fit_score in lock step on one stream.",
     ["pysad/models/null_model.py", "pysad/models/perfect_model.py", "pysad/models/random_model.py", "pysad/models/loop.py"],
     [("label queue; constructor-time fit", "pysad/models")],
     ["score_partial results"])

prop("C32", "Dataset loading returns the file's features and labels unchanged",
     "Loading a dataset returns every row of the file once and in file order, features and labels belonging together: the stored feature matrix and flattened labels of a MAT file, or all columns but the last as features and the last as label for a comma-separated text file. A dataset iterator yields exactly these pairs, in file order without shuffling and as a seed-determined permutation with it, and never writes to the file.",
     ["inputs", "configurations"],
     "all row and column counts, value ranges, label layouts and file names of both formats, seeds",
     "Tests load one or two shipped files and check shapes.",
     ["pysad/utils/data.py", "pysad/utils/array_streamer.py"],
     [("scipy loadmat / numpy loadtxt and column split", "pysad/utils/data.py")],
     ["Data.get_data and Data.get_iterator results against the written file"])

prop("C33", "Models learn from their whole retained history",
     "Every learning model's scores reflect all instances it is documented to retain, not only the latest one: two histories that end in the same instance but differ in the earlier retained instances lead to different scores for some probe.",
     ["histories", "inputs", "configurations"],
     "all learning models, pairs of retained histories with the same last instance, seeds",
     "Tests never compare two histories.",
     ["pysad/models/*.py"],
     [("windows, sketches, masses, forests and running statistics", "pysad/models/*.py")],
     ["scores of twin models with different retained histories"])

prop("C34", "LODA and INQMAD scores equal the densities they are defined by",
     "LODA's score of x is the average over its num_random_cuts cuts, divided once more by their number, of -log of the density of x's bin, a cut being one fixed random projection with int(sqrt(num_features)) independent standard normal weights (at least one) and zeros elsewhere; its histogram has num_bins bins of total width 1 around the projection of the instance it holds, the bin's density is its share of the held instances plus 1e-12 (normalised), and a value outside all bins counts as in the nearest one. INQMAD's score of x is the squared overlap of the normalised random Fourier features (RBF kernel of the configured gamma, dim_x components, random_state) of x and of the instance its density matrix holds, divided by the square of the number of fits. Both hold the most recently fitted instance.",
     ["inputs", "configurations", "histories"],
     "all feature counts, numbers of cuts, bins, kernel widths, dimensions and seeds, all fitted and scored instances",
     "Tests check the shape of the scores on one random stream.",
     ["pysad/models/loda.py", "pysad/models/inqmad.py"],
     [("random projections and histograms; random Fourier feature density matrix", "pysad/models")],
     ["score_partial on probes around the fitted instance"])

prop("C35", "Copies of a component continue exactly like the original",
     "A copy of any model, transformer, postprocessor, ensembler, metric, meter or statistic made at any point of its life - by deepcopy or by pickling, also when it is loaded in another process - returns, for the same calls and the same global random state, exactly what the original returns from then on. The original and its copies never influence each other. (The robust random cut forest, whose trees cannot be copied, and the pickling of INQMAD are excepted.)",
     ["histories", "schedules", "inputs", "configurations"],
     "all components, points of the stream at which the copy is made, ways of copying, interleavings of original and copies",
     "Tests never copy or store a component.",
     ["pysad/**/*.py"],
     [("component state is made of plain attributes without views or handles shared with other objects", "pysad/**/*.py")],
     ["results of original and copies after the copy"])

prop("C36", "Arrays stay their owner's: reuse of buffers has no effect",
     "The contents of every array passed to fit, score or transform calls or to constructors (instances, batches, labels, initial windows, feature bounds) are taken at the time of the call: overwriting the array afterwards changes no later result. Results returned earlier never change during later calls, and overwriting a returned result changes no later one. (Excepted: the live list a window returns, the identity scaler, which returns its input, and ensembler weights.)",
     ["histories", "inputs", "configurations"],
     "all components, streams delivered through one or several reused buffers, any time of overwriting",
     "Tests pass rows of one matrix that is never written again.",
     ["pysad/**/*.py"],
     [("copies of retained instances, windows and reference data", "pysad/**/*.py")],
     ["results of twin runs with fresh and with reused buffers; results kept from earlier calls"])

prop("C37", "Pipelines give the same results online and staged, and never look ahead",
     "A pipeline of preprocessors, projectors, detectors, an ensembler and postprocessors gives every instance the same output when the stream is processed instance by instance through all stages as when every stage processes the whole stream with its batch calls, in one piece or several, before the next. The outputs for the first k instances are the same whatever instances and labels follow, online and in batch calls.",
     ["inputs", "configurations", "schedules"],
     "all pipelines of such components, streams, piece boundaries, prefixes and continuations; every stage having its own random numbers",
     "Tests run single components, mostly in one way.",
     ["pysad/core/*.py", "pysad/models/**/*.py", "pysad/transform/**/*.py"],
     [("batch methods and the components' partial methods", "pysad/core/*.py")],
     ["outputs of every stage"])

prop("C38", "Only values matter: labels, number types and layouts change nothing",
     "Labels given to an unsupervised model never change its scores. An array of integers gives the same results as the array of the equal floating-point numbers, and the memory layout of an array, or the form in which scores and numbers are given (Python or NumPy scalars, integers, booleans, one-element arrays), never changes a result.",
     ["inputs", "configurations", "histories"],
     "all components, label sequences (also partly missing), integer data of every width, layouts and number types",
     "Tests use floating-point C-ordered data and mostly one kind of labels.",
     ["pysad/**/*.py"],
     [("conversion of inputs and independence of labels", "pysad/**/*.py")],
     ["results of twin runs"])

prop("C39", "Results follow the unit and the origin in which data is measured",
     "Multiplying all data by a power of two, together with the configured bounds, radii and reference data, multiplies aggregates, projections, residuals and decompositions by the same factor (sums of squares and variances by its square) and leaves counts, normalised instances, Z-scores, calibrated probabilities and the scores of distance, tree, isolation, entropy and deviation models unchanged. Adding a constant moves averages, medians, extremes and combined scores by it and leaves variances, standardised instances, residuals, Z-scores, probabilities and the scores of translation-invariant models unchanged. AUROC, AUPR and conformal probabilities do not change under an increasing map of the scores; ensemblers and instance-wise components do not depend on the order of detectors or features.",
     ["inputs", "configurations", "histories"],
     "all components without absolute constants (LODA, RSHash, INQMAD excluded; xStream after its first window), units from 2^-60 to 2^60, origins up to 2^18, call histories",
     "Tests use data of one magnitude around zero.",
     ["pysad/**/*.py"],
     [("formulas homogeneous in the data", "pysad/statistics/*.py, pysad/models/*.py, pysad/transform/**/*.py")],
     ["results of twin runs on converted data"])

prop("C40", "Invalid calls are rejected and leave no trace",
     "An instance of the wrong length for a univariate component, a missing label for the oracle model, features and labels of different length, the removal of a value never seen from an order-statistic meter, an undefined AUROC and a configuration outside the documented domain are rejected with the documented error, at the latest when the first instance is requested; configurations inside it are accepted. After a rejected call the object gives exactly the results it would have given without it.",
     ["histories", "inputs", "configurations"],
     "all models, meters, metrics, streamers and seasonal components, rejected calls at any point of any history",
     "Tests check a few errors on fresh objects and never use the object afterwards.",
     ["pysad/models/seasonal_esd.py", "pysad/models/perfect_model.py", "pysad/models/median_absolute_deviation.py", "pysad/models/standard_absolute_deviation.py", "pysad/transform/preprocessing/*.py", "pysad/evaluation/metrics.py", "pysad/utils/*.py", "pysad/core/base_model.py"],
     [("validation before the first change of state", "pysad/models/seasonal_esd.py, pysad/utils/array_streamer.py")],
     ["exceptions of invalid calls; results of twin runs with and without them"])

prop("C41", "Bound helpers return exactly the extremes of the data",
     "get_minmax_array returns, per feature, the smallest and the largest value of the data, and get_minmax_scalar those over all its values, exactly and without changing the data, so that a detector configured from them behaves as one configured from the true extremes.",
     ["inputs"],
     "all row and feature counts, signs, magnitudes, number types and layouts without NaN",
     "Tests use the helpers only to configure detectors and check shapes of the scores.",
     ["pysad/utils/__init__.py"],
     [("get_minmax_array, get_minmax_scalar", "pysad/utils/__init__.py")],
     ["returned bounds"])

prop("C42", "Separate objects can be used from concurrent threads",
     "When separately constructed components (models, transformers, postprocessors, meters, metrics, streamers) are used in different threads of one process, each gives exactly the results it gives alone, however their calls interleave, apart from the random numbers drawn from the process-wide generators.",
     ["schedules", "configurations", "inputs"],
     "all components and pairs of components, all switch points between lines of the library",
     "Tests are single-threaded.",
     ["pysad/**/*.py"],
     [("no module-level or class-level mutable state", "pysad/**/*.py")],
     ["results of every call in every thread"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
