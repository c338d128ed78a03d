LEVEL_NOTE = (
    "Exploration: an oracle independent of the code under test judged every "
    "execution of a seeded random workload; nothing is enumerated "
    "exhaustively. Trusts NumPy/SciPy linear algebra and the tolerances "
    "stated in DESIGN.md."
)
NOTES = (
    "No hooks in /repo: every monitor observes the public API. Defects found "
    "were repaired in separate fix: commits; see known_findings.jsonl."
)


def P(id, title, statement, over, text, why, files, mech, technique, state=None,
      observe=None, note=""):
    return dict(
        id=id,
        title=title,
        statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(
            files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            observe_at=observe or [],
            hook_needed=None,
        ),
        technique=technique,
        note=note,
    )


PROPS = [
    P(
        "C01",
        "Noiseless linear dynamics are recovered exactly by every variant",
        "When the snapshots come from a noiseless linear system whose rank the "
        "model is allowed to use, the fitted eigenvalues and modes are the "
        "system's own eigenpairs, the reconstruction equals the data, and "
        "forecasts, hindcasts and one-step predictions equal the true "
        "trajectory, up to round-off. This holds for every snapshot-based "
        "variant and every combination of its options (rank request, total "
        "least squares, exact/projected modes, amplitude choice, rescaling, "
        "sorting, compression, randomization, delays), for real and complex "
        "data and any snapshot layout.",
        ["inputs", "configurations"],
        "all well-conditioned low-rank linear systems, all option combinations",
        "The suite fits two or three fixed real data sets with single options; "
        "complex data, option combinations and shifted time windows are not "
        "exercised, and most numeric tests compare against frozen arrays.",
        ["pydmd/dmdoperator.py", "pydmd/dmdbase.py", "pydmd/dmd.py", "pydmd/cdmd.py",
         "pydmd/rdmd.py", "pydmd/subspacedmd.py", "pydmd/edmd.py", "pydmd/hankeldmd.py",
         "pydmd/hodmd.py", "pydmd/optdmd.py", "pydmd/fbdmd.py"],
        [("low-rank operator", "pydmd/dmdoperator.py:DMDOperator.compute_operator"),
         ("dynamics", "pydmd/dmdbase.py:DMDBase.dynamics"),
         ("amplitudes", "pydmd/dmdbase.py:DMDBase._compute_amplitudes")],
        "ground-truth oracle (generating linear system)",
        observe=["eigs", "modes", "reconstructed_data", "predict"],
    ),
    P(
        "C02",
        "Modes, dynamics, time axes and reconstruction stay mutually consistent",
        "At every point of any history of fits and time-window changes, the "
        "dynamics equal amplitude times eigenvalue raised to the elapsed number "
        "of original time steps, the reconstruction equals modes times "
        "dynamics on exactly the requested instants, and frequencies and growth "
        "rates follow from the eigenvalues and the original time step. Time "
        "axes run from t0 in steps of dt up to the first instant at or after "
        "tend, and time dictionaries are equal exactly when their three values "
        "are. A fit "
        "resets both time axes to the snapshots' own instants, the two axes "
        "never influence each other, and unknown time keys are rejected.",
        ["inputs", "histories", "configurations"],
        "all classes, option sets, data and sequences of time-window changes",
        "Tests change the window of one fixed model once; they do not combine "
        "amplitude snapshot index, shifted origin, non-unit steps and refits.",
        ["pydmd/dmdbase.py", "pydmd/hankeldmd.py"],
        [("time grid", "pydmd/dmdbase.py:_time_grid"),
         ("exponent shift", "pydmd/dmdbase.py:DMDBase._translate_eigs_exponent"),
         ("dynamics", "pydmd/dmdbase.py:DMDBase.dynamics"),
         ("time dictionaries", "pydmd/dmdbase.py:DMDTimeDict")],
        "online recomputation from the public state after each step",
        state=[("original_time", "time axis of the data", "pydmd/dmdbase.py"),
               ("dmd_time", "time axis of the reconstruction", "pydmd/dmdbase.py")],
        observe=["dynamics", "reconstructed_data", "dmd_timesteps", "frequency"],
    ),
    P(
        "C03",
        "Rank requests and matrix decomposition helpers honour their contracts",
        "For every matrix and rank request, the truncation rank is the one the "
        "documentation prescribes (hard threshold, energy fraction, explicit "
        "count, none) and never exceeds the matrix, and fitted models have that "
        "many modes. The truncated SVD, total-least-squares projection, "
        "randomized QB, delay matrix and finite differences satisfy their "
        "defining equations for real and complex input.",
        ["inputs", "configurations"],
        "all matrices (any shape, dtype, spectrum) and all rank requests",
        "Tests use a few fixed real matrices and integer or default ranks.",
        ["pydmd/utils.py", "pydmd/edmd.py", "pydmd/dmdoperator.py"],
        [("rank rule", "pydmd/utils.py:_compute_rank"),
         ("SVD", "pydmd/utils.py:compute_svd"),
         ("TLSQ", "pydmd/utils.py:compute_tlsq"),
         ("RQB", "pydmd/utils.py:compute_rqb"),
         ("delay matrix", "pydmd/utils.py:pseudo_hankel_matrix"),
         ("finite differences", "pydmd/utils.py:differentiate")],
        "defining-equation oracles and an independent rank rule",
    ),
    P(
        "C04",
        "Modes and eigenvalues are eigenpairs of the documented operator",
        "For any data, the eigenvalues and modes of a fitted model are the "
        "eigenpairs of the documented low-rank least-squares operator "
        "(projected, exact, total-least-squares, Tikhonov-regularized, "
        "compressed, randomized, subspace, optimal closed-form), in the "
        "requested sorting order. Rescaling, data scaling, exact versus "
        "projected modes and orthogonal changes of coordinates leave the "
        "eigenvalues unchanged.",
        ["inputs", "configurations"],
        "all data sets with separated eigenvalues, all option combinations",
        "Tests check shapes or frozen numbers for single options on fixed data.",
        ["pydmd/dmdoperator.py", "pydmd/cdmd.py", "pydmd/rdmd.py", "pydmd/optdmd.py",
         "pydmd/subspacedmd.py", "pydmd/edmd.py", "pydmd/hankeldmd.py", "pydmd/hodmd.py"],
        [("least-squares operator", "pydmd/dmdoperator.py:DMDOperator._least_square_operator"),
         ("eigenquantities", "pydmd/dmdoperator.py:DMDOperator._compute_eigenquantities"),
         ("modes", "pydmd/dmdoperator.py:DMDOperator._compute_modes")],
        "independent dense reference computation of the operator",
    ),
    P(
        "C05",
        "Amplitudes are the documented least-squares coefficients",
        "For any data and options, the amplitudes of a fitted model are the "
        "least-squares coefficients of its own modes: for the chosen snapshot "
        "(first by default, any index otherwise, negative from the end), or for "
        "all snapshots jointly when optimal amplitudes are requested.",
        ["inputs", "configurations"],
        "all classes, amplitude options, data",
        "Tests pin a handful of numbers or compare two code paths on one data set.",
        ["pydmd/dmdbase.py"],
        [("amplitudes", "pydmd/dmdbase.py:DMDBase._compute_amplitudes"),
         ("normal equations", "pydmd/dmdbase.py:DMDBase._optimal_dmd_matrices")],
        "independent least-squares reference for the published modes",
    ),
    P(
        "C06",
        "A fit depends on configuration, data and seed only, never on history",
        "Fitting a model gives the same public results as fitting a fresh, "
        "identically configured instance on the same data (same global seed), "
        "whatever the instance went through before: earlier fits on data of "
        "another shape, rank or dtype, failed fits, reads, masked modes, changed "
        "time windows. Instances never influence each other, default arguments "
        "are not shared state, models given a seed ignore the global random "
        "state, and deterministic models never use it. This covers every public "
        "class, its wrappers and the parametric, multiresolution and windowed "
        "models.",
        ["inputs", "histories", "configurations"],
        "all classes, option sets and histories of operations before a fit",
        "Every test builds a fresh model and fits it once or twice on the same "
        "data; stale caches only show with a second, different data set.",
        ["pydmd/dmdbase.py", "pydmd/bopdmd.py", "pydmd/varprodmd.py", "pydmd/mrdmd.py",
         "pydmd/lando.py", "pydmd/costs.py", "pydmd/mrcosts.py", "pydmd/paramdmd.py",
         "pydmd/havok.py", "pydmd/preprocessing/pre_post_processing.py"],
        [("reset", "pydmd/dmdbase.py:DMDBase._reset"),
         ("rank/basis set-up", "pydmd/bopdmd.py:BOPDMD.fit"),
         ("level bookkeeping", "pydmd/mrdmd.py:MrDMD.fit")],
        "differential oracle: used instance versus fresh instance",
        state=[("cached results", "everything a fit stores on the instance",
                "pydmd/*.py")],
    ),
    P(
        "C07",
        "No hidden side effects on caller data, fitted models or global state",
        "Fitting and predicting never modify the caller's arrays or constructor "
        "arguments (write-protected inputs give the same fit), reading results, "
        "predicting, forecasting, copying, saving and plotting never change what "
        "a model reports, derived results handed out are private copies, fitted "
        "results do not change when the caller later overwrites its snapshots, "
        "times, parameters or control inputs, and neither observers nor deterministic or seeded fits touch global "
        "state (NumPy generator and error state, plotting defaults, environment, "
        "working directory).",
        ["inputs", "histories", "configurations"],
        "all public classes, options, memory layouts and observer sequences",
        "Tests look at results, not at their inputs, and read each attribute once.",
        ["pydmd/dmdbase.py", "pydmd/dmdoperator.py", "pydmd/snapshots.py", "pydmd/utils.py",
         "pydmd/bopdmd.py", "pydmd/costs.py", "pydmd/mrcosts.py", "pydmd/plotter.py",
         "pydmd/mrdmd.py", "pydmd/varprodmd.py"],
        [("snapshot holder", "pydmd/snapshots.py:Snapshots"),
         ("operators", "pydmd/dmdoperator.py:DMDOperator.compute_operator"),
         ("plots", "pydmd/plotter.py")],
        "content digests of caller-owned objects, model and global state around "
        "every call; write-protected inputs as injected fault",
    ),
    P(
        "C08",
        "Mode selection is an exact, reversible restriction",
        "Through any history of bitmask assignments, indexing (integers, slices, "
        "lists, arrays, nested) and in-place edits, modes, eigenvalues, "
        "amplitudes, dynamics, frequencies, uncertainties, reconstruction, "
        "prediction and forecast use exactly the active modes: a selection and "
        "its complement add up to the whole, re-activating all modes restores "
        "it, edits survive mask changes, and selections never affect the "
        "instance they come from. Invalid masks and keys, selections on unfitted "
        "models and writes to the published mask are rejected without effect.",
        ["inputs", "histories", "configurations"],
        "all classes with mode selection, all histories of selections",
        "Tests apply one mask or one index to one fixed model.",
        ["pydmd/dmdbase.py", "pydmd/hankeldmd.py", "pydmd/bopdmd.py", "pydmd/varprodmd.py",
         "pydmd/preprocessing/pre_post_processing.py", "pydmd/spdmd.py"],
        [("proxy", "pydmd/dmdbase.py:ActivationBitmaskProxy"),
         ("mask", "pydmd/dmdbase.py:DMDBase.modes_activation_bitmask"),
         ("indexing", "pydmd/dmdbase.py:DMDBase.__getitem__")],
        "reference model of mask and spectrum followed step by step",
        state=[("modes_activation_bitmask", "active modes", "pydmd/dmdbase.py")],
    ),
    P(
        "C09",
        "Saved, loaded, pickled and copied models are the same model",
        "A model written with save and read with load (also by another process), "
        "pickled, or deep-copied reports exactly the same results, mask and time "
        "windows, reacts identically to further operations and fits "
        "(configuration included), and is independent of the original. This "
        "holds for unfitted, fitted, masked and refitted models of every public "
        "class and for pre/post-processed ones. Truncated or missing files are "
        "rejected and overwriting an old file leaves a valid one.",
        ["inputs", "histories", "fault_sequences", "configurations"],
        "all picklable models in all states, all truncation points",
        "Tests save and load a few fitted models and compare one attribute.",
        ["pydmd/dmdbase.py", "pydmd/paramdmd.py", "pydmd/varprodmd.py",
         "pydmd/preprocessing/pre_post_processing.py"],
        [("save/load", "pydmd/dmdbase.py:DMDBase.save"),
         ("parametric save/load", "pydmd/paramdmd.py:ParametricDMD.save")],
        "differential oracle between original and restored model, in and across "
        "processes, with truncated files as injected fault",
    ),
    P(
        "C10",
        "Equivalent data representations agree; malformed data are rejected",
        "Snapshots given as a matrix, a multidimensional array (time last, space "
        "flattened in C order), or a list or tuple of snapshots, in any memory "
        "layout and integer width, lead to the same results, and the original "
        "snapshot shape is reported. Fitting on explicit (X, Y) pairs of "
        "consecutive snapshots equals fitting on the sequence. One-dimensional, "
        "single-snapshot, ragged, scalar, empty or non-finite data and mismatched "
        "pairs, time vectors and control inputs are rejected and leave no fit "
        "behind; an unfitted model reports nothing. Nearly dependent data (condition "
        "number above 1e5) are announced by a warning, others are not.",
        ["inputs", "configurations"],
        "all classes, shapes, layouts and dtypes",
        "Tests use a few fixed shapes and only some of the classes.",
        ["pydmd/snapshots.py", "pydmd/dmd.py", "pydmd/dmdbase.py", "pydmd/optdmd.py",
         "pydmd/hankeldmd.py", "pydmd/bopdmd.py", "pydmd/varprodmd.py", "pydmd/dmdc.py"],
        [("flattening", "pydmd/snapshots.py:Snapshots._unroll_space_dimensions"),
         ("pair check", "pydmd/dmdbase.py:DMDBase._compare_data_shapes")],
        "differential oracle against the fit on the flat matrix",
    ),
    P(
        "C11",
        "Delay embeddings are consistent with the original time series",
        "HankelDMD, HODMD, HAVOK and the hankel pre-processing embed the data in "
        "delay coordinates without losing or shifting samples: a signal generated "
        "by a linear system is identified exactly, and the reconstruction at any "
        "time window (the fitted one, a forecast, a hindcast, a finer or coarser "
        "step) equals the chosen combination (first, mean, weighted) of the "
        "delayed copies of every instant, in the shape and length of the original "
        "snapshots. HAVOK's linear and forcing coordinates, derivative regression "
        "and forced reconstruction belong to the very data given, start at the "
        "given initial condition and obey the given time axis. Too short series "
        "are rejected.",
        ["inputs", "configurations"],
        "all delays, lags, ranks, reconstruction methods and time windows",
        "Tests use one signal, a few delays and only the fitted time window.",
        ["pydmd/hankeldmd.py", "pydmd/hodmd.py", "pydmd/havok.py",
         "pydmd/preprocessing/hankel.py", "pydmd/utils.py"],
        [("delay matrix", "pydmd/utils.py:pseudo_hankel_matrix"),
         ("recombination", "pydmd/hankeldmd.py:HankelDMD.reconstructed_data"),
         ("forced model", "pydmd/havok.py:HAVOK.fit")],
        "independent delay embedding, recombination and forced integration; exact "
        "linear signals as ground truth",
    ),
    P(
        "C12",
        "DMDc identifies and simulates forced linear systems",
        "Given snapshots of x[k+1] = A x[k] + B u[k] with informative inputs, DMDc "
        "identifies A's spectrum and B (or A alone when B is given), and "
        "reconstructed_data applies the fitted operator to any control sequence: "
        "the recorded one reproduces the snapshots, another one reproduces the "
        "response of the true system. On any data, operator and B are the "
        "(truncated) least-squares solution, modes and eigenvalues are "
        "eigenpairs of that operator, and the result is linear in state and "
        "control scaling. Control inputs of the wrong length are rejected.",
        ["inputs", "configurations"],
        "all systems, control inputs, ranks and lags",
        "Tests use two fixed small systems.",
        ["pydmd/dmdc.py", "pydmd/dmdoperator.py"],
        [("unknown B", "pydmd/dmdc.py:DMDBUnknownOperator"),
         ("known B", "pydmd/dmdc.py:DMDControlOperator"),
         ("simulation", "pydmd/dmdc.py:DMDc.reconstructed_data")],
        "ground truth of simulated systems and independent least squares",
    ),
    P(
        "C13",
        "PiDMD returns the best operator of the requested manifold",
        "For every supported manifold PiDMD's operator belongs to the manifold "
        "(unitary, upper/lower triangular, banded diagonal, symmetric, "
        "skewsymmetric, Toeplitz, Hankel, circulant family, symmetric "
        "tridiagonal, block variants) and no other member fits the snapshot pairs better in "
        "the least-squares sense, for real and complex, few or many, full-rank "
        "or rank-deficient snapshots; data generated by a member are explained "
        "exactly; modes and eigenvalues are eigenpairs of that operator. "
        "Unknown manifolds and missing or invalid options are rejected.",
        ["inputs", "configurations"],
        "all manifolds, data shapes, dtypes and ranks",
        "Tests check membership on one random real matrix per manifold.",
        ["pydmd/pidmd.py", "pydmd/pidmd_utils.py"],
        [("manifold solvers", "pydmd/pidmd_utils.py"),
         ("operator", "pydmd/pidmd.py:PiDMDOperator.compute_operator")],
        "least squares over an explicit basis of each manifold (Procrustes for "
        "unitary) as reference; membership and eigenpair residuals",
    ),
    P(
        "C14",
        "BOPDMD fits the optimal, admissible sum of exponentials",
        "For snapshots at any instants (uneven, unordered, gapped) that are a sum "
        "of exponentials, BOPDMD recovers eigenvalues, data and forecasts from a "
        "reasonable guess, independently of time origin, time unit, data scale, "
        "snapshot order and orthogonal change of frame, and fit_econ on the SVD "
        "factors agrees with fit. On any data the modes are unit-norm, amplitudes "
        "non-negative, the modes are the least-squares optimum for the reported "
        "eigenvalues, the residual is no worse than at the initial guess and "
        "stationary at convergence, and the requested eigenvalue constraints "
        "(stable, imag, conjugate_pairs, custom) and mode proximal operator hold. "
        "Bagged fits report the mean and standard deviation over exactly the "
        "requested trials, reproducibly from the seed, and ensemble forecasts "
        "match them; converged trials are kept, hopeless ones end in an error, "
        "bad sizes and options are rejected.",
        ["inputs", "configurations"],
        "all time axes, data, constraints, projections and bagging options",
        "Tests fit one 2-mode system with a handful of options.",
        ["pydmd/bopdmd.py"],
        [("variable projection", "pydmd/bopdmd.py:BOPDMDOperator._variable_projection"),
         ("constraints", "pydmd/bopdmd.py:BOPDMDOperator._push_eigenvalues"),
         ("bagging", "pydmd/bopdmd.py:BOPDMDOperator.compute_operator"),
         ("forecast", "pydmd/bopdmd.py:BOPDMD.forecast")],
        "ground truth, least-squares identities, symmetry (metamorphic) relations, "
        "per-trial log taken through the mode_prox callback",
    ),
    P(
        "C15",
        "VarProDMD fits the optimal sum of exponentials at arbitrary times",
        "For well sampled sums of exponentials at any (uneven, reversed) instants "
        "VarProDMD recovers eigenvalues, data and forecasts whatever the origin and "
        "unit of time, scale and frame of the data, with or without projection, "
        "sorting or sample compression. On any data the modes are unit-norm and "
        "least-squares optimal for the reported eigenvalues on the selected "
        "samples, the reported cost and ssr belong to that residual, the result is "
        "a stationary point, exactly floor((1-c)m) distinct samples are selected, "
        "eigenvalues follow the requested order together with modes and "
        "amplitudes, frequency and growth rate are those of the continuous "
        "eigenvalues; invalid options and unfitted use are rejected.",
        ["inputs", "configurations"],
        "all time axes, data, sortings, compressions",
        "Tests fit two fixed signals and check a mean error below 1.",
        ["pydmd/varprodmd.py"],
        [("optimiser", "pydmd/varprodmd.py:compute_varprodmd_any"),
         ("sample selection", "pydmd/varprodmd.py:select_best_samples_fast"),
         ("sorting", "pydmd/varprodmd.py:VarProOperator.compute_operator")],
        "ground truth, least-squares identities, metamorphic relations",
    ),
    P(
        "C16",
        "MrDMD splits the data into slow parts, level by level",
        "Each bin of each level contains exactly the modes of its sub-DMD, fitted "
        "on what the levels above left over in that bin, whose eigenvalues oscillate "
        "at most max_cycles times in the bin; the levels add up to "
        "reconstructed_data, and modes times dynamics give the same with every mode "
        "acting only in its bin. For linear data level 0 is exactly the slow part. "
        "partial_* and time_window_* report exactly the requested level, node or "
        "overlapping bins; the number of levels is limited by the data of the "
        "current fit only; unknown levels and nodes are rejected.",
        ["inputs", "histories", "configurations"],
        "all series, numbers of levels, cycles and sub-DMDs",
        "Tests check shapes on one fixed signal.",
        ["pydmd/mrdmd.py", "pydmd/dmd_modes_tuner.py"],
        [("levels", "pydmd/mrdmd.py:MrDMD.fit"),
         ("windows", "pydmd/mrdmd.py:MrDMD.time_window_bins"),
         ("tree", "pydmd/mrdmd.py:BinaryTree")],
        "independent level-by-level replay with stand-alone models; ground truth",
    ),
    P(
        "C17",
        "EDMD computes the Koopman approximation of the kernel's feature space",
        "For every positive definite kernel and every data the eigenvalues, modes "
        "and eigenfunctions are those of the rank-r least-squares Koopman operator "
        "on the kernel's features: polynomial kernels agree with DMD on the explicit "
        "features, a linear kernel with exact DMD, repeated singular values "
        "(periodic data) included, for one series and for snapshot pairs in any "
        "order. Where the features close under the dynamics the known Koopman "
        "eigenvalues appear, eigenfunctions evolve as phi(F(x)) = lambda phi(x) at "
        "unseen points and the modes reassemble the state. Bad ranks, kernels, "
        "parameters and points are rejected.",
        ["inputs", "configurations"],
        "all data, kernels, kernel parameters and ranks",
        "Tests use one fixed data set and compare to stored numbers.",
        ["pydmd/edmd.py"],
        [("operator", "pydmd/edmd.py:EDMDOperator.compute_operator"),
         ("eigenfunctions", "pydmd/edmd.py:EDMD.eigenfunctions")],
        "textbook kernel matrices, explicit feature maps, known Koopman spectra",
    ),
    P(
        "C18",
        "LANDO learns the map in the kernel's space and disambiguates it at any point",
        "f is the least-squares kernel model over a sparse dictionary of snapshots "
        "that represents every sample within dict_tol (online: the recursive "
        "least-squares solution, the same in one go or by updates); maps that lie in "
        "the kernel's space are learned exactly. At any base point bias is f there, "
        "linear is the Jacobian of f, nonlinear the exact rest, eigenvalues and modes "
        "those of the Jacobian, whatever x_rescale, n-d snapshot shape, custom kernel, "
        "compute_A, or earlier analyses. predict iterates f or integrates it, at "
        "exactly the requested number of instants. Invalid kernels, shapes and "
        "premature calls are rejected.",
        ["inputs", "histories", "configurations"],
        "all data, kernels, rescalings, dictionary tolerances, update histories",
        "Tests fit two fixed systems and compare norms.",
        ["pydmd/lando.py"],
        [("dictionary", "pydmd/lando.py:LANDOOperator.compute_operator"),
         ("linear model", "pydmd/lando.py:LANDOOperator.compute_linear_operator"),
         ("gradients", "pydmd/lando.py:LANDO.kernel_gradient"),
         ("prediction", "pydmd/lando.py:LANDO.predict")],
        "ground truth maps, textbook kernels, independent (recursive) least squares, "
        "finite differences of f",
    ),
    P(
        "C19",
        "SpDMD amplitudes are optimal on the support it selects",
        "SpDMD has the modes and eigenvalues of the DMD with the same options; the "
        "amplitudes it keeps are the least-squares optimum over all snapshots among "
        "amplitudes with that support, the others are exactly zero (enforce_zero); "
        "the support is the one reached by the documented ADMM iteration for gamma, "
        "rho, tolerances and max_iterations (no penalty keeps every amplitude, a huge "
        "one none), the number of iterations is reported, and neither earlier fits "
        "nor verbosity or memory options change the result.",
        ["inputs", "configurations"],
        "all data, DMD options, penalties and iteration settings",
        "Tests compare one fixed data set to stored amplitudes.",
        ["pydmd/spdmd.py"],
        [("iteration", "pydmd/spdmd.py:SpDMD._find_zero_amplitudes"),
         ("optimal amplitudes", "pydmd/spdmd.py:SpDMD._optimal_amplitudes")],
        "independent restricted least squares, replayed iteration, proximal solver",
    ),
    P(
        "C21",
        "Pre/post-processing decorators are exact and transparent",
        "A decorated DMD (Hankel, SVD projection, zero mean, randomized, user-defined, "
        "nested) is the wrapped class fitted on the pre-processed data: its "
        "reconstructed_data is the inverse transformation of the wrapped model's, in "
        "the right order, with the state of the latest fit, for masks, time windows, "
        "copies, keyword arguments and control inputs alike; every other attribute is "
        "the wrapped model's. Linear signals (plus constants) pass unchanged and "
        "forecast; unusable arguments are rejected.",
        ["inputs", "histories", "configurations"],
        "all decorators, nestings, wrapped classes and histories",
        "Tests decorate one DMD on one data set per decorator.",
        ["pydmd/preprocessing/*.py"],
        [("decorator", "pydmd/preprocessing/pre_post_processing.py:PrePostProcessingDMD"),
         ("hankel", "pydmd/preprocessing/hankel.py:_HankelPrePostProcessing"),
         ("svd", "pydmd/preprocessing/svd_projection.py:_SvdProjectionPrePostProcessing"),
         ("mean", "pydmd/preprocessing/zero_mean.py:_ZeroMeanPrePostProcessing"),
         ("randomized", "pydmd/preprocessing/randomized.py:_RandomizedPrePostProcessing")],
        "bare class on independently transformed data; ground truth signals",
    ),
    P(
        "C22",
        "Mode selection and stabilization change exactly the requested modes",
        "select_modes, stabilize_modes and ModesTuner remove, nullify or stabilize "
        "exactly the active modes that satisfy the documented criterion (modulus "
        "bounds inclusive, distances from the unit circle inside/outside, the n "
        "largest integral contributions over the original window, user functions), in "
        "any order and after any masks; stabilization puts the eigenvalue on the unit "
        "circle and multiplies the amplitude by its former modulus; the indexes "
        "returned are those of the modes changed; copies and in_place=False leave the "
        "given instances untouched, the time window is never changed; contradictory "
        "requests are rejected.",
        ["inputs", "histories", "configurations"],
        "all models, criteria and histories of tuning operations",
        "Tests apply one operation to one fixed model.",
        ["pydmd/dmd_modes_tuner.py", "pydmd/dmdbase.py"],
        [("selection", "pydmd/dmd_modes_tuner.py:select_modes"),
         ("stabilization", "pydmd/dmd_modes_tuner.py:stabilize_modes"),
         ("criteria", "pydmd/dmd_modes_tuner.py:ModesSelectors"),
         ("tuner", "pydmd/dmd_modes_tuner.py:ModesTuner")],
        "reference model of the modes followed through every history",
    ),
    P(
        "C20",
        "COSTS and mrCOSTS separate scales consistently",
        "COSTS windows cover every time step, start where window length and step say "
        "(plus one last window ending at the last step), and hold the BOPDMD fit of the "
        "demeaned, tapered window data; clustering under every transform (default "
        "'absolute') yields bands which are disjoint frequency intervals in ascending "
        "order, band 0 the slowest; scale_reconstruction gives each band's weighted "
        "overlap-add with the window means in band 0, global_reconstruction is its sum, "
        "scale_separation splits band 0 from the rest, periods are those of the fast "
        "bands. mrCOSTS equals the chain of COSTS on the slow band of the previous "
        "level; global clustering assigns every fast eigenvalue of every window of "
        "every level to its nearest global centroid (and only those), the global bands "
        "of a level add up to its fast bands, and bands plus background to the global "
        "reconstruction. Results round trip through xarray and netCDF files unchanged "
        "and can be clustered and fitted again; refits leave nothing of the previous "
        "fit; inconsistent arguments are rejected.",
        ["inputs", "histories", "configurations"],
        "all real data, window geometries, ranks, transforms, clustering methods, "
        "numbers of levels and bands",
        "Tests use one toy data set with one geometry.",
        ["pydmd/costs.py", "pydmd/mrcosts.py"],
        [("windows", "pydmd/costs.py:COSTS.fit"),
         ("bands", "pydmd/costs.py:COSTS._cluster"),
         ("reconstruction", "pydmd/costs.py:COSTS.scale_reconstruction"),
         ("round trip", "pydmd/costs.py:COSTS.to_xarray"),
         ("global bands", "pydmd/mrcosts.py:mrCOSTS.multi_res_interp"),
         ("levels", "pydmd/mrcosts.py:mrCOSTS.fit")],
        "window-by-window replay with BOPDMD, independent overlap-add of public arrays, "
        "interval order of the bands, a chain of COSTS",
    ),
    P(
        "C23",
        "Parametric DMD is reduction, DMD and interpolation, in that order",
        "After fit, ParametricDMD's training modal coefficients are the given "
        "reduction's image of every training parameter's snapshots, its forecasts are "
        "those of the given DMD (one shared in the monolithic, one per training "
        "parameter in the partitioned approach) on these coefficients over the "
        "current time window, the interpolated coefficients are the given "
        "interpolator's values at the requested parameters, time step by time step, "
        "and reconstructed_data is the reduction's expansion of them, parameter by "
        "parameter. Data affine in the parameter with common eigenvalues is "
        "reproduced exactly at parameters never seen, also beyond the training "
        "window. This holds for one or several parameters, through refits, window and "
        "parameter changes, save/load and copies; light=True changes nothing but the "
        "availability of the training coefficients; mismatched counts, parameters of "
        "more than two dimensions and missing parameters are rejected.",
        ["inputs", "histories", "configurations"],
        "all data, parameters, reductions, DMD classes, interpolators and histories",
        "The repository's tests of this class use one data set and one configuration.",
        ["pydmd/paramdmd.py"],
        [("fit", "pydmd/paramdmd.py:ParametricDMD.fit"),
         ("forecast", "pydmd/paramdmd.py:ParametricDMD._predict_modal_coefficients"),
         ("interpolation", "pydmd/paramdmd.py:ParametricDMD._interpolate_missing_modal_coefficients"),
         ("reconstruction", "pydmd/paramdmd.py:ParametricDMD.reconstructed_data"),
         ("round trip", "pydmd/paramdmd.py:ParametricDMD.save")],
        "bare DMDs of independently reduced data and independent interpolation; "
        "affine ground truth",
    ),
    P(
        "C24",
        "Every plot shows the model's own numbers",
        "What the plotting functions draw is what the model says. plot_eigs draws "
        "exactly the active eigenvalues, all of them inside the axes; "
        "plot_eigs_mrdmd those of the requested level and node, level by level; "
        "plot_modes_2D and plot_snapshots_2D show, one figure per requested index, "
        "the field's value at each grid place, for any shape, index order and "
        "coordinates; plot_summary shows the singular values in percent with the rank "
        "marked, the discrete and continuous eigenvalues with marker areas "
        "proportional to the amplitudes, and the real parts of the requested modes, "
        "numbered by decreasing amplitude and averaged over the delays, above their "
        "own dynamics on the current time axis; BOPDMD's plots show its modes, "
        "deviations and eigenvalue discs; HAVOK's summary its embeddings, operator, "
        "forcing and bursts; COSTS' plots its bands, residuals, errors and "
        "frequencies. Files are written where requested, and the caller's option "
        "dictionaries stay as they were.",
        ["inputs", "configurations"],
        "all fitted models, masks, windows, shapes and plotting options",
        "The repository's tests of the plots only call them.",
        ["pydmd/plotter.py", "pydmd/bopdmd.py", "pydmd/havok.py", "pydmd/costs.py"],
        [("eigenvalues", "pydmd/plotter.py:plot_eigs"),
         ("levels", "pydmd/plotter.py:plot_eigs_mrdmd"),
         ("fields", "pydmd/plotter.py:plot_modes_2D"),
         ("summary", "pydmd/plotter.py:plot_summary"),
         ("uncertainty", "pydmd/bopdmd.py:BOPDMD.plot_mode_uq"),
         ("HAVOK", "pydmd/havok.py:HAVOK.plot_summary"),
         ("COSTS", "pydmd/costs.py:COSTS.plot_reconstructions")],
        "curves, points, meshes, images and discs of the recorded matplotlib figures "
        "against quantities recomputed from the model",
    ),
]
