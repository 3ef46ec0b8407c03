"""writes /verif/properties.jsonl"""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "observe_at": list(observe), "hook_needed": None,
        },
    })


TSC = "datafold/pcfold/timeseries/collection.py"
ACC = "datafold/pcfold/timeseries/accessor.py"
MET = "datafold/pcfold/timeseries/metric.py"

prop("C01", "Time series collections stay well formed and keep every sample",
     "A time series collection always carries a two-level row index (integer series identifier, real or datetime time) without duplicate rows and one level of unique feature names, and data that violates this is rejected. Building a collection from a tensor, a list of frames, a single series, snapshot matrices or a file, converting it back, and inserting, concatenating, copying or slicing series preserves every value under its series, time and feature, and nothing else. Initial and final states, and selections by time, return exactly the requested rows.",
     ["inputs", "histories"], "every number and length of series (also unequal), every finite time axis (also non-uniform, negative, datetime), any number of features; time values selected in ascending order",
     "the tests build a few small hand written collections; index arithmetic and ordering must hold for every shape and time axis",
     [TSC, "datafold/utils/general.py"],
     [("TSCDataFrame constructors and validation", TSC), ("InitialCondition.from_tsc, from_array, validate", TSC), ("select_time_values, initial_states, final_states, insert_ts", TSC)])
prop("C02", "Time queries describe the stored time axis truthfully",
     "For every collection, the reported time values, time interval, sampling interval, number of time steps and degenerate series are the ones of the stored rows, per series and for the collection. The questions whether the series share the same times, the same length or a constant sampling interval are answered with yes exactly when it is so (up to a relative floating point tolerance of about 1e-12 for equidistant times; a series of one sample has no sampling interval), and the corresponding checks raise exactly when it is not.",
     ["inputs"], "every collection: equal and unequal lengths, shifted and shared time axes, float, integer and datetime times, single sample series",
     "only a few axes are sampled by tests; rounding, offsets and unequal series are the rarely visited combinations",
     [TSC, ACC],
     [("time_values, time_interval, delta_time, n_timesteps, is_* queries", TSC), ("check_* accessors", ACC)])
prop("C03", "Time series operations never mix different time series",
     "Snapshot pairs, finite differences, delay embeddings, sliding windows, shifts and per-series rescaling combine only samples of one and the same series, at exactly the time offsets they document, and label the result with the right series and time. Every admissible pair, window or embedding of every series occurs exactly once, and no other.",
     ["inputs", "configurations"], "any number of series of any (also unequal, also minimal) lengths, any delay, window, stride, order or offset that the series admit",
     "an error at the border between two series, at a minimal length or for an unusual stride is invisible in the regular, equally long series of the tests",
     [ACC, "datafold/dynfold/transform.py", TSC],
     [("shift_matrices, time_delay/derivative, iter_timevalue_window, assign_ids_*", ACC), ("TSCTakensEmbedding, TSCFiniteDifference", "datafold/dynfold/transform.py")])
prop("C04", "Cross-validation splits of time series never leak or lose data",
     "Every split into training and test data is disjoint and consistent with the split settings: series are never torn apart by a series-wise split, a time-wise split keeps each block contiguous in time and gives fragments new, distinct identifiers, and a blockwise assignment keeps every original sample at most once. Over all folds each sample is used for testing as often as the scheme promises (exactly once for k-fold schemes).",
     ["inputs", "configurations"], "every number of folds, series, lengths, block sizes, shuffling and seeds the splitter admits (window folds: series that do not overlap in time)",
     "the tests look at a handful of equally long series and small fold counts",
     [MET, ACC],
     [("TSCKfoldSeries, TSCKFoldTime, TSCWindowFoldTime", MET), ("assign_ids_const_delta, assign_ids_train_test, assign_ids_sequential", ACC), ("split helpers", TSC)])
prop("C05", "Errors and scores of time series equal their definition",
     "Each metric (mean square, root mean square, mean absolute, median absolute, maximum, relative root mean square, ...) in each mode (per series, per feature, per time step) and each scaling equals its textbook formula on the samples of the two collections (the maximum error needs a single feature and has no sample weights; feature mode reports every feature). It is zero for identical data, only compares rows with the same series and time (raising otherwise), applies sample and feature weights as weighted means, and the score derived from it is its negative.",
     ["inputs", "configurations"], "all collections with matching index, all metrics, modes, scalings and weights",
     "tests use few metrics with unweighted, mostly random data and compare with themselves or with one library call",
     [MET],
     [("TSCMetric, TSCScoring", MET)])
prop("C06", "Distance matrices equal the metric, and cut-off and k-nearest mean it",
     "Every backend returns the pairwise distances of the chosen metric for all point pairs within the cut-off radius, with the right orientation (rows are queries), exact zeros on the diagonal in self comparison stored explicitly, and no other entries than the requested ones in a sparse result. A minimum number of neighbours guarantees that each query row contains at least that many nearest points, and the backends agree with each other up to rounding.",
     ["inputs", "configurations"], "all point clouds, metrics, cut-off radii, minimum neighbour counts and backends",
     "tests cover one or two backends per metric and random points without duplicates, ties or extreme radii",
     ["datafold/pcfold/distance.py", "datafold/pcfold/pointcloud.py"],
     [("BruteForceDist, ScipyKdTreeDist, SklearnBalltreeDist, compute_distance_matrix", "datafold/pcfold/distance.py"), ("sort and matrix helpers", "datafold/utils/general.py")])
prop("C07", "Kernel matrices equal the kernel's formula for every pair of points",
     "For each kernel the matrix entry of a pair of points is the documented formula with the kernel's parameters, the result is symmetric in self comparison, dense and sparse evaluation agree on the stored entries, and evaluating against a second data set equals the corresponding block of evaluating on the union. Kernel evaluation never changes its inputs.",
     ["inputs", "configurations"], "all points, all parameter values, dense and sparse distance input, self and cross evaluation; the cone kernel with the time derivative of the series as drift; the experimental Mahalanobis kernel is excluded",
     "tests compare a few kernels at default parameters on one data set",
     ["datafold/pcfold/kernels.py"],
     [("RadialBasisKernel family, ContinuousNNKernel, ConeKernel, ...", "datafold/pcfold/kernels.py")])
prop("C08", "Markov and density normalisation is exact and reused for new points",
     "A diffusion kernel that is asked to be stochastic has non-negative rows that sum to one; with symmetrisation it is the documented conjugate of that matrix, and the density exponent divides by the documented power of the row sums. The normalisation found for the training data is the one applied to new points, so that evaluating the training points as new points reproduces the row-stochastic training kernel.",
     ["inputs", "configurations"], "all kernel matrices with positive row sums, all exponents in [0, 1], symmetrised or not, dense and sparse",
     "row sums and conjugation are checked for a few kernels at exponents 0 and 1 only",
     ["datafold/pcfold/kernels.py"],
     [("DmapKernelFixed / DmapKernelVariable normalisation", "datafold/pcfold/kernels.py"), ("_symmetric_matrix_division, _stochastic_kernel_matrix, _conjugate_stochastic_kernel_matrix", "datafold/pcfold/kernels.py")])
prop("C09", "Eigenpairs and diffusion maps: solved, sorted, normalised, extended",
     "The computed pairs satisfy the eigenvalue (or singular value) equation of the kernel matrix, come sorted by decreasing value, with the documented normalisation and real type, and indices requested by the user select exactly those pairs. The diffusion map coordinates are these vectors scaled by the documented power of the eigenvalues, and mapping the training points as new points reproduces the training coordinates.",
     ["inputs", "configurations"], "all data sets, numbers of pairs, symmetric and non-symmetric kernels, target coordinates and scalings; the experimental DiffusionMapsVariable is excluded",
     "the tests for this part need a package that is not installed, and otherwise sample a swiss roll",
     ["datafold/pcfold/eigsolver.py", "datafold/dynfold/dmap.py"],
     [("compute_kernel_eigenpairs, compute_kernel_svd, normalize_eigenvectors", "datafold/pcfold/eigsolver.py"), ("DiffusionMaps fit/transform/inverse_transform", "datafold/dynfold/dmap.py")])
prop("C10", "Out-of-sample extension agrees with the training data",
     "The interpolation methods for functions on point clouds evaluate the documented formula at new points: geometric harmonics expand the target in the kernel's eigenfunctions divided by the eigenvalues (with a symmetric kernel and all functions kept this reproduces the training target), Laplacian pyramids add at each level the kernel smoothing of the documented residual, and the score is the negative (sample weighted) root mean square error. Jointly smooth functions and landmark embeddings extend to new points with the documented Nystroem formula.",
     ["inputs", "configurations"], "all data, targets (one or many), kernel parameters, truncations; gradients and the multi-scale variant of geometric harmonics are excluded",
     "these test files need a package that is not installed, so the repository's reliable tests do not reach this part at all",
     ["datafold/dynfold/outofsample.py", "datafold/dynfold/jsf.py", "datafold/dynfold/dmap.py"],
     [("GeometricHarmonicsInterpolator, LaplacianPyramidsInterpolator", "datafold/dynfold/outofsample.py"), ("JointlySmoothFunctions", "datafold/dynfold/jsf.py"), ("Roseland", "datafold/dynfold/dmap.py")])
prop("C11", "Linear systems evolve exactly as their matrices prescribe",
     "For every kind of linear system (discrete or continuous, given by its matrix or its spectral components, with or without control input) the computed state at each requested time is the one of the governing equation: power or exponential of the system applied to the initial condition, and with control the recursion with the input of the same time step. The result has one series per initial condition with the requested times, identifiers and feature names, and inconsistent shapes are rejected.",
     ["inputs", "configurations"], "all matrices, initial conditions (one or many), time values (also non-integer multiples), control inputs and every admissible system setting",
     "tests evaluate a few time values of a few systems; several solver combinations are never executed",
     ["datafold/dynfold/dynsystem.py"],
     [("SystemSolveStrategy, LinearDynamicalSystem.evolve_system", "datafold/dynfold/dynsystem.py")])
prop("C12", "Fitted linear models are the least squares solution and predict with it",
     "Each batch dynamic mode decomposition computes the matrix (and control matrix) that minimises the documented, possibly weighted least squares problem over all snapshot pairs of all series, and its spectral components decompose exactly that matrix. Prediction starts at the given initial condition, at its time, and follows the fitted system; spectral and matrix form, with or without diagonalised left vectors, predict the same states, and data generated by a linear system is reproduced.",
     ["inputs", "configurations"], "all collections with enough snapshots, ranks, series, weights, time values of prediction; the order of eigenvalues is not claimed",
     "least squares optimality and mode equivalence are only sampled on a few oscillators",
     ["datafold/dynfold/dmd.py", "datafold/dynfold/base.py"],
     [("DMDStandard, gDMDFull, DMDControl, DMDEco, ResDMD ...", "datafold/dynfold/dmd.py"), ("DMDBase predict/reconstruct", "datafold/dynfold/dmd.py")])
prop("C13", "Online models equal the batch model on everything seen so far",
     "Updating an online or streaming model with samples, in any grouping of batches, leaves it with the (weighted) least squares operator of all samples received so far (for the compressed variant: restricted to the leading subspace of the requested rank), and predictions use the updated operator.",
     ["histories", "inputs"], "every sequence of updates, batch sizes, weightings and ranks (OnlineDMD: up to the vanishing influence of its initialisation; compressed StreamingDMD: data dominated by a subspace of the rank)",
     "the tests feed one stream in one grouping",
     ["datafold/dynfold/dmd.py"],
     [("OnlineDMD, StreamingDMD partial_fit", "datafold/dynfold/dmd.py")])
prop("C14", "Transformers: formula, names and inverse agree",
     "Every transformer computes its documented formula, row by row with unchanged series and times (except for rows it documents to drop), its output feature names describe exactly the columns it returns in that order, and where an inverse exists, transforming and inverting returns the original data (the delay embedding: the rows it keeps; projections: the projection). Transforming does not depend on other rows of the query and does not modify the data handed in.",
     ["inputs", "configurations"], "all data with string feature names, degrees, delays, frequencies, orders, columns and parameters; TSCSampledNetwork is excluded",
     "round trips and name order are only sampled for one parameter setting each",
     ["datafold/dynfold/transform.py", "datafold/dynfold/base.py", "datafold/utils/general.py"],
     [("TSCFeaturePreprocess, TSCIdentity, TSCPrincipalComponent, TSCTakensEmbedding, TSCRadialBasis, TSCPolynomialFeatures, TSCApplyLambdas, TSCFiniteDifference, ...", "datafold/dynfold/transform.py")])
prop("C15", "Extended DMD pipelines predict what dictionary, operator and inverse say",
     "A fitted pipeline predicts, for each initial condition, by mapping it to the dictionary, evolving with the fitted operator and mapping back with the documented linear map, at exactly the requested times, identifiers and features. Reconstruction does this window by window from the first samples of each series, never looking at later samples, the Koopman modes, eigenvalues and eigenfunctions multiply to the same prediction, and the data handed in is left unchanged.",
     ["inputs", "configurations"], "all pipelines of the supported dictionaries, sampling times, numbers of required initial samples, selected features and control inputs",
     "tests look at smooth oscillators with few dictionaries and one horizon",
     ["datafold/appfold/edmd.py"],
     [("EDMD fit/predict/reconstruct/inverse_transform, EDMDCV, EDMDWindowPrediction", "datafold/appfold/edmd.py")])
prop("C16", "Model predictive control solves the problem it documents",
     "The condensed matrices of the control problem reproduce the predicted states for every input sequence, the cost handed to the quadratic programme equals the documented weighted tracking cost up to a constant, constraints hold exactly when the input bounds hold, and the returned input sequence minimises that cost over the horizon. The linear quadratic regulator returns the gain of the Riccati equation and the inputs of that feedback.",
     ["inputs", "configurations"], "all system matrices, horizons, costs, bounds, initial states and references (classes KMPC and LQR; reference columns in the order of the controlled features; no terminal cost means the running cost)",
     "tests check one system and one horizon",
     ["datafold/appfold/mpc.py"],
     [("KMPC matrix generation and solution", "datafold/appfold/mpc.py"), ("LQR", "datafold/appfold/mpc.py")])
prop("C17", "Estimators reject foreign data and keep their inputs unchanged",
     "After fitting, an estimator accepts exactly data with the features (number, names, order, kind) it was fitted with and raises otherwise, before any result is produced; initial conditions with too few or wrongly spaced samples, mismatched control input, unsupported sampling or invalid parameters are rejected. No fit, transform, predict or reconstruct call changes the data passed in, and repeating a call gives the same result.",
     ["inputs", "histories"], "all estimators and all admissible and inadmissible inputs",
     "tests probe few invalid inputs per estimator and never compare the inputs before and after",
     ["datafold/dynfold/base.py", "datafold/dynfold/dmd.py", "datafold/appfold/edmd.py", "datafold/utils/general.py"],
     [("_validate_datafold_data, _validate_feature_input, validate_time_values ...", "datafold/dynfold/base.py")])
prop("C18", "Matrix utilities satisfy their algebraic specification",
     "Scaling by diagonal matrices, sorting and normalising of eigenpairs, symmetry tests and removals, sparse conversions, random subsampling and column projections satisfy their defining equation for every shape, with and without in-place output, for dense and sparse operands.",
     ["inputs"], "all matrices of matching shape, dense or sparse, real or complex",
     "tests use one or two matrices per helper",
     ["datafold/utils/general.py"],
     [("diagmat_dot_mat, mat_dot_diagmat, sort_eigenpairs, projection_matrix_from_feature_names, ...", "datafold/utils/general.py")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
