#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit; run to regenerate)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": " ".join(statement.split()),
            "quantifier": {"over": over, "text": " ".join(qtext.split())},
            "why_tests_cant": " ".join(why.split()),
            "anchors": {
                "files": files,
                "mechanism": [{"name": n, "where": w} for n, w in mech],
                "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                "observe_at": list(observe),
                "hook_needed": None,
            },
        }
    )


COL = "datafold/pcfold/timeseries/collection.py"
ACC = "datafold/pcfold/timeseries/accessor.py"
MET = "datafold/pcfold/timeseries/metric.py"
BAS = "datafold/dynfold/base.py"
DYN = "datafold/dynfold/dynsystem.py"
DMD = "datafold/dynfold/dmd.py"
TRA = "datafold/dynfold/transform.py"
EDM = "datafold/appfold/edmd.py"
MPC = "datafold/appfold/mpc.py"
DIS = "datafold/pcfold/distance.py"
KER = "datafold/pcfold/kernels.py"
DMA = "datafold/dynfold/dmap.py"
OOS = "datafold/dynfold/outofsample.py"
GEN = "datafold/utils/general.py"
EIG = "datafold/pcfold/eigsolver.py"

prop(
    "C01",
    "A time series collection is always well formed, malformed input is rejected",
    """Every time series collection object that exists after a successful construction, element access,
    index or column assignment, insertion or collection operation is well formed: samples are indexed by
    (integer non-negative ID, non-negative numeric or datetime time), each ID is one contiguous block, time
    strictly increases inside an ID, no index entry or feature name repeats and all values are numeric.
    Input that violates any of these is rejected with an error, and input that satisfies all of them is
    accepted.""",
    ["inputs", "histories"],
    """For every index/column/value layout handed to a constructor or assigned to an existing collection,
    and for every sequence of collection operations.""",
    """The tests sample a handful of valid and invalid frames; well-formedness must hold for every index layout
    (interleaved IDs, unsorted times, duplicates, negative or fractional IDs, mixed column types) and after every
    chain of operations.""",
    [COL, ACC],
    [
        ("TSCDataFrame._validate / validation on set_index, set_columns", COL),
        ("_LocHandler.__setitem__ revalidation", COL),
    ],
    [("(ID, time) index", "identity and order of samples", COL)],
    ["public constructors, attribute setters, loc assignment, accessor methods"],
)

prop(
    "C02",
    "Building, selecting and converting collections preserves every sample",
    """Creating a collection from arrays, tensors, single series, lists of frames, snapshot matrices or CSV, copying
    index information onto new values, inserting a series, concatenating, selecting IDs/times/features, flattening
    per series and converting back, each yields exactly the samples (ID, time, feature, value) that were put in, in the
    documented order: nothing is lost, duplicated, reordered between features or given another series' time values.
    The object an operation is called on, and the frames passed to it, keep their content unless the operation is
    documented to modify it.""",
    ["inputs", "histories"],
    """For every collection content (any number of series, unequal lengths, non-consecutive or unordered IDs, integer,
    float and datetime times, any number of features) and every sequence of these operations.""",
    """The tests use two or three small, regular collections; value/time/feature mix-ups appear for irregular shapes, unordered
    IDs, single-sample series or after several operations on one object.""",
    [COL, ACC],
    [
        ("from_array/from_tensor/from_single_timeseries/from_frame_list/from_shift_matrices/from_same_indices_as/from_csv", COL),
        ("insert_ts, feature_to_array, select_time_values, initial_states, final_states, xs, loc, iloc", COL),
        ("InitialCondition.from_array/from_tsc/from_array_control", COL),
    ],
)

prop(
    "C03",
    "Queries about IDs, lengths and time sampling report what the collection holds",
    """IDs, number of series, series lengths, per-series and global sampling intervals, the predicates about
    equal length / same time values / constant sampling / finite sampling / degenerate or consecutive series, distinct time values,
    time intervals, fixed sampling windows and the per-series overview are all exactly determined by the (ID, time) entries of the
    collection. A query never reports a constant or a global value that does not hold for every series, and never fails on a well-formed collection; asking does not
    change the collection or a later answer.""",
    ["inputs", "histories"],
    """For every well-formed collection with integer, float or datetime time values and every order in which the
    queries are asked.""",
    """Tests query a few regular integer and float collections; mixtures of degenerate series, irregular sampling and datetime values
    are combinatorial and mostly untested.""",
    [COL, ACC],
    [
        ("delta_time, n_timesteps, ids, is_* predicates, degenerate_ids, time_values, time_interval, const_sampled_time_values", COL),
        ("check_* methods and time_values_overview of the accessor", ACC),
    ],
)

prop(
    "C04",
    "Re-assigning, windowing, shifting and trimming series conserves samples",
    """Operations that re-partition a collection (new sequential IDs, IDs from constant sampling intervals, IDs from a train/test
    selection, time windows, dropping last samples) return exactly the documented subset of the samples, each one once and with its values and time,
    and no resulting series joins samples that were not consecutive in one source series. Time shifts, normalization, expansion of time values,
    attaching control input and repeating the last state change exactly the documented coordinate and nothing else, each series under its own ID.""",
    ["inputs", "histories"],
    """For every collection, every train/test index selection, window length/offset, number of dropped samples and delta, in
    every order of application.""",
    """Tests look at single hand-made collections; bridging a gap, or losing the sample at a boundary, depends on the exact combination of
    lengths, gaps, fold switches and IDs.""",
    [ACC],
    [
        ("assign_ids_sequential, assign_ids_const_delta, assign_ids_train_test", ACC),
        ("iter_timevalue_window, drop_last_n_samples, shift_time_by_delta, shift_time_per_time_series, normalize_time, expand_time_values", ACC),
        ("fill_timeseries_with_last_state, augment_control_input", ACC),
    ],
)

prop(
    "C05",
    "Temporal operators never mix samples of different time series",
    """Every operator that combines samples of different times (snapshot pairs, finite differences, time-delay
    embedding, moving average) combines only samples of one time series, uses the documented offsets and weights, and assigns the
    result to the documented time value of that series. Applying it to a collection therefore gives the same as applying it to each
    series alone, for any order, number, length and naming of the series.""",
    ["inputs", "configurations"],
    """For every collection and every admissible operator setting (number of delays, lag, frequency, window, difference scheme,
    accuracy and order, snapshot orientation).""",
    """Tests compare few settings on equal-length series; leaking a neighbour's sample happens only for certain lengths, lag/frequency combinations or
    unordered IDs.""",
    [ACC, TRA],
    [
        ("TSCAccessor.shift_matrices, time_derivative", ACC),
        ("TSCTakensEmbedding, TSCFiniteDifference, TSCMovingAverage", TRA),
    ],
)

prop(
    "V01",
    "Cross-validation splits of collections are leak-free and complete",
    """Every split yields train and test parts that are disjoint, non-empty, well-formed index sets; over all splits of the two k-fold schemes each
    sample is tested exactly once and each split trains on all other samples, while the windowed scheme tests whole windows in
    documented order and trains on all samples outside the tested window that lie in pieces of the minimum training length. The number of splits announced equals the number produced, and building the train
    and test collections from a split never creates a series that jumps across the held-out part.""",
    ["inputs", "configurations"],
    """For every collection shape and every admissible number of splits, test size, window size/offset, minimum training length and shuffling seed.""",
    """Tests cover a few shapes; leakage or a skipped sample depends on the remainders between lengths, number of splits and windows.""",
    [MET, ACC],
    [("TSCKfoldSeries, TSCKFoldTime, TSCWindowFoldTime", MET), ("assign_ids_train_test", ACC)],
)

prop(
    "V02",
    "Error metrics and scores equal their definition per series, feature and time",
    """For each metric (RMSE, RRMSE, MSE, MAE, MER, max error, L2 and similar), aggregation mode (per time series, per feature, per time step), scaling and weighting, the reported
    error equals the documented formula applied to exactly the samples of that series, feature or time step, labelled with the
    right ID, feature name or time value. Errors are zero for identical data, scores are their negated (weighted) mean, and inputs with different indices or features are rejected.""",
    ["inputs", "configurations"],
    """For every pair of collections with equal index and features and every metric/mode/scaling/weight combination.""",
    """Tests check a few metric values on one or two collections, not all combinations of modes, scalings, weights and irregular collections.""",
    [MET],
    [("TSCMetric, TSCScoring", MET)],
)

prop(
    "T01",
    "Transformers keep samples, name outputs consistently and leave inputs alone",
    """The output of a fitted time series transformer has one row per admissible input sample with unchanged (ID, time), its column labels equal the names
    announced by the transformer and its width the announced number of outputs, and the output type follows the input type. Applying a
    transformer changes neither its input nor its fitted state, so repeating a call gives the same result; data with other or differently
    ordered features is rejected instead of being silently mislabelled.""",
    ["inputs", "histories", "configurations"],
    """For every transformer, admissible setting, input collection and order of fit, transform and inverse transform calls.""",
    """Tests check single fit/transform runs; name/value misalignment and state changes depend on settings (degree, lag, bias, kappa, components) and on call history.""",
    [TRA, BAS, "datafold/dynfold/compose.py"],
    [
        ("TSCTransformerMixin / _validate_feature_input / _same_type_X", BAS),
        ("get_feature_names_out of each transformer", TRA),
        ("TSCColumnTransformer", "datafold/dynfold/compose.py"),
    ],
)

prop(
    "T02",
    "Transformer values follow their formula and inverses recover the input",
    """Identity, feature selection, scaling, principal components, time-delay embedding, radial basis, polynomial and user-function transformers map
    every sample to the value their documentation defines, in the column that carries that name. Where an inverse transform is offered, applying it to the transformed data
    returns the original samples (all of them, under their own time values) for lossless settings.""",
    ["inputs", "configurations"],
    """For every input collection and every admissible transformer setting.""",
    """Tests compare a few settings; the values must hold per feature and setting for all data.""",
    [TRA],
    [("TSCIdentity, TSCFeatureSelect, TSCFeaturePreprocess, TSCPrincipalComponent, TSCTakensEmbedding, TSCRadialBasis, TSCPolynomialFeatures, TSCApplyLambdas", TRA)],
)

prop(
    "M01",
    "Predictions cover exactly the requested initial conditions and time values",
    """A prediction contains, for each initial condition and no other series, exactly the requested time values (by default those learnt or implied by the model and control input),
    under the ID of the initial condition, starting with the initial state at its own time. The initial conditions, the control input and the model's learnt attributes are not changed by
    predicting, and inadmissible initial conditions, control input or time values raise an error instead of a result.""",
    ["inputs", "histories", "configurations"],
    """For every fitted model, set of initial conditions (any IDs, any start time), time values and call order.""",
    """Tests predict for a few initial conditions at the training times; wrong IDs, times or missing samples show for shifted, sparse, unordered or single time values.""",
    [BAS, DMD, EDM, DYN],
    [
        ("_validate_and_set_time_values_predict, _validate_features_and_time_values", BAS),
        ("DMDBase.predict", DMD),
        ("EDMD.predict", EDM),
    ],
)

prop(
    "M02",
    "Predicted states follow the linear recursion in every representation",
    """Whenever a linear model is evaluated, the state at each requested time is the system matrix (plus control and affine contribution) applied as many times as sampling intervals
    lie between the initial state and that time, independently for each initial condition. The matrix and the spectral representation, a flow map and its
    generator, and any way of cutting the time interval or batching initial conditions give the same trajectory.""",
    ["inputs", "configurations"],
    """For every system matrix, initial condition batch, control sequence, requested time set and representation.""",
    """Tests evaluate some systems at equidistant times starting from zero; off-by-one powers, batch mix-ups or wrong time references need other time sets and batches.""",
    [DYN, DMD],
    [("LinearDynamicalSystem.evolve_system and solvers", DYN), ("DMD model predict", DMD)],
)

prop(
    "M03",
    "A fitted DMD matrix is the least squares solution over all snapshot pairs",
    """The system (and control) matrices identified by the batch models satisfy the normal equations of the (weighted) least squares problem formed by exactly the consecutive snapshot pairs inside each
    series: every such pair contributes once, with its own weight and control row, and no pair crosses series. In particular data generated by a linear (controlled, affine-controlled) system with enough
    excitation is identified exactly, and eigenvalues and modes satisfy the eigen-equations of the identified matrix.""",
    ["inputs", "configurations"],
    """For every training collection (any series structure), sample weights, control input and model setting.""",
    """Tests use one data set per model, mostly with exact linear data where wrong pairing or weighting is invisible.""",
    [DMD, ACC, BAS],
    [("DMDStandard, gDMDFull, DMDControl, gDMDAffine fit", DMD), ("shift_matrices", ACC), ("_validate_and_setup_fit_attrs", BAS)],
)

prop(
    "M04",
    "Streaming and online DMD equal the batch solution of the data seen so far",
    """After any sequence of updates, an incrementally fitted model that reports itself ready equals the (exponentially weighted) least squares solution over all snapshot pairs received so far, regardless of how the data was cut into
    updates. No received pair is forgotten, counted twice or formed across series, a rejected update changes nothing, and the reported eigenvalues and modes solve the eigen problem of that solution. A streaming model with
limited rank equals the solution compressed to the directions it keeps.""",
    ["histories", "inputs", "configurations"],
    """For every history of updates (chunk sizes, number of series per chunk, order), weighting factor, maximal rank and initialization (with or without batch).""",
    """Tests feed one fixed sequence of updates; chunk-boundary losses and double counting depend on the history.""",
    [DMD],
    [("OnlineDMD.partial_fit/_update, StreamingDMD.partial_fit", DMD)],
    [("recursive least squares state", "accumulated Gram matrices", DMD)],
)

prop(
    "M05",
    "Control input is applied to the transition of its own series and time",
    """With control input, fitting and prediction use for the transition from time t to the next time of a series exactly the control row stored under that series' ID and time t. Control input
    that lacks such a row, has a surplus or foreign row or mismatching sampling is rejected, and the accepted control input is never altered or taken from another series.""",
    ["inputs", "configurations"],
    """For every number and naming of series, lengths and control sequences.""",
    """Tests mostly use a single series or identical control for all series, where mis-assignment cannot be seen.""",
    [BAS, DMD, EDM, DYN],
    [("_validate_and_setup_fit_attrs, _validate_and_set_time_values_predict", BAS), ("controlled solvers", DYN), ("DMDControl, OnlineDMD, gDMDAffine", DMD), ("EDMD.predict with U", EDM)],
)

prop(
    "M06",
    "EDMD equals dictionary, linear model and inverse map composed",
    """EDMD's transform, fit, predict and inverse transform equal the explicit composition of its dictionary steps, the linear model in dictionary coordinates and the projection back to
    the original features, with or without the original states attached. It needs exactly the announced number of samples as initial
    condition, names its dictionary like the composition does, and incremental fitting equals the same composition on the incremental model.""",
    ["inputs", "configurations", "histories"],
    """For every dictionary pipeline, state-inclusion setting, linear model, training collection and initial condition.""",
    """Tests compare some pipelines on one data set; the composition must hold for all pipelines, sample losses and histories.""",
    [EDM],
    [("EDMD fit/transform/predict/inverse_transform/partial_fit", EDM)],
)

prop(
    "M07",
    "Reconstruction and window prediction cover each admissible sample once",
    """Reconstructing a collection returns one series per input series under its ID, with the input's time values from the first state on which a prediction can start, each predicted
    from that series' own initial condition; window-based reconstruction partitions each series in the documented blocks. Initial-condition iteration groups series so that each appears exactly once with
    its own time values (and control input), and the input collection is unchanged.""",
    ["inputs", "configurations", "histories"],
    """For every collection (unequal lengths, different or shifted time values, unordered IDs), required number of initial samples and window setting.""",
    """Tests reconstruct a few regular collections; grouping errors need series with partially equal time values.""",
    [COL, DMD, EDM, BAS],
    [("InitialCondition.iter_reconstruct_ic", COL), ("reconstruct of DMD models and EDMD", EDM), ("EDMDWindowPrediction", EDM)],
)

prop(
    "M08",
    "Fitting is a function of parameters and data only",
    """Fitting a model again on other data gives the same model as fitting a fresh one with the same parameters, fitting never changes constructor parameters or the training data, and a clone or a copy
    restored from serialization behaves identically. Using a model before it is fitted raises the not-fitted error, and a rejected call leaves a fitted model's results unchanged.""",
    ["histories", "configurations", "inputs"],
    """For every estimator and every history of fit, transform, predict, failing and copying calls.""",
    """Tests create fresh estimators for each check, so state left over from an earlier fit or call is never observed.""",
    [BAS, TRA, DMD, EDM, DMA, OOS],
    [("fit of all estimators, lazily cached attributes", BAS), ("inverse map caches", DMA)],
)

prop(
    "K01",
    "All distance algorithms return the same distances, cut-off and neighbours",
    """For a metric, every distance algorithm stores exactly the pairs closer than the cut-off (plus the guaranteed nearest neighbours if requested) with the true distance in that metric,
    including explicit zeros for coinciding points; pairwise matrices are symmetric with zero diagonal, and query matrices have one row per query and one column per reference point. The result
    depends only on the given points, not on earlier calls of the same object.""",
    ["inputs", "configurations", "histories"],
    """For every reference and query point cloud (with duplicates, outliers, points exactly at the cut-off excluded), metric, cut-off, neighbour number, algorithm and call order.""",
    """Tests use random clouds without duplicates at a few cut-offs and one call per object.""",
    [DIS, "datafold/pcfold/pointcloud.py"],
    [("DistanceAlgorithm subclasses, _ensure_kmin_nearest_neighbor, _set_zeros_diagonal_sparse", DIS)],
    [("fitted trees", "nearest neighbour structure of the reference points", DIS)],
)

prop(
    "K02",
    "Kernel matrices follow their formula and normalizations, dense or sparse",
    """A kernel matrix entry depends only on the two points and equals the kernel's formula, for dense matrices and for the stored entries of sparse ones. The diffusion-map and landmark normalizations
    give the documented density-corrected, row-stochastic (or symmetric conjugate) matrix, where evaluating against query points uses the reference densities, so that querying the reference points reproduces the pairwise values.""",
    ["inputs", "configurations"],
    """For every point cloud, kernel, bandwidth, density exponent, symmetrization and sparsity setting.""",
    """Tests check row sums and a few equalities on single data sets; the normalization of query matrices and of sparse matrices is barely asserted.""",
    [KER],
    [("RadialBasisKernel evaluate, DmapKernelFixed, RoselandKernel, ContinuousNNKernel, ConeKernel", KER)],
    [("reference densities", "kept from the pairwise evaluation for queries", KER)],
)

prop(
    "K03",
    "Diffusion-map embeddings satisfy their eigen-equations in and out of sample",
    """The embedding vectors and values computed from data satisfy the eigen- or singular-value equations of the normalized kernel matrix, sorted from largest to smallest, and mapping the training points as new points reproduces the
    embedding returned at fit. Selected target coordinates, the diffusion time exponent and the inverse map refer consistently to the same eigenpairs, and outputs keep the input's index.""",
    ["inputs", "configurations", "histories"],
    """For every point cloud or collection, kernel setting, number of eigenpairs, target coordinates, time exponent and call order.""",
    """The tests of these models sample smooth manifolds only, and changing settings after fitting is hardly exercised.""",
    [DMA, EIG, GEN],
    [("DiffusionMaps, Roseland fit/transform/set_target_coords/inverse_transform", DMA), ("compute_kernel_eigenpairs", EIG), ("sort_eigenpairs", GEN)],
)

prop(
    "K04",
    "Out-of-sample interpolators evaluate the expansion they were fitted with",
    """The geometric harmonics interpolator returns at every query the kernel expansion whose coefficients are the projection of the targets on the leading eigenvectors, and the Laplacian pyramid the sum over its levels of smoothed
    residuals, where each target function refines until its own stopping rule holds and then stops for good. Multiple targets give the same values as each target alone, and predictions do not depend on how queries are batched.""",
    ["inputs", "configurations"],
    """For every training set, number of targets, stopping tolerances, scale factors and query batches.""",
    """Tests check the approximation error of smooth single functions; the interplay of several targets stopping at different levels is not asserted.""",
    [OOS],
    [("GeometricHarmonicsInterpolator, LaplacianPyramidsInterpolator", OOS)],
    [("level tracker", "per level kernel, residual targets and active functions", OOS)],
)

prop(
    "P01",
    "Koopman MPC optimizes the model's own prediction under the given bounds",
    """The matrices assembled by the predictive controller reproduce, for every control sequence, the states the identified model predicts over the horizon for the selected quantities of interest, and the objective and constraints are exactly the documented
    running, terminal and input costs and bounds on them. The returned control sequence respects the bounds, has one row per horizon step starting at the time of the initial state, and applying it step by step uses each step's own reference. The linear quadratic regulator's gain solves the discrete Riccati equation of the model and the given costs, and its control is the negative gain
times the deviation from the preset state, one row at the time and series of the state.""",
    ["inputs", "configurations"],
    """For every linear controlled model, horizon, quantity-of-interest selection (also reordered), cost vectors, bounds, initial state and reference.""",
    """Tests run a closed loop and check that the reference is roughly tracked.""",
    [MPC, GEN],
    [("KMPC._create_evolution_matrices/_create_cost_matrices/_create_constraint_matrices, control_sequence_horizon", MPC), ("projection_matrix_from_feature_names", GEN)],
)

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
