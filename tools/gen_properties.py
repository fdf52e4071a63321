#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
B="src/tenkit/base.py"; U="src/tenkit/utils.py"; M="src/tenkit/metrics.py"; LG="src/tenkit/log.py"
D="src/tenkit/decomposition/decompositions.py"; BD="src/tenkit/decomposition/base_decomposer.py"
CP="src/tenkit/decomposition/cp.py"; P2="src/tenkit/decomposition/parafac2.py"; CM="src/tenkit/decomposition/cmtf.py"
L="src/tenkit/decomposition/logging/logger.py"
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
                     mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))

prop("C01","Unfolding and folding are mutually inverse for every tensor and mode",
 "unfold(A, n) has the mode-n index as rows and all the other modes, in their original order with the last one varying fastest, as columns. fold(unfold(A, n), n, A.shape) returns A, and unfold(fold(M, n, shape), n) returns M, for tensors of any order, any mode lengths and every mode (negative mode numbers included).",
 ["inputs"],"every tensor order, every mode, every mode length",
 "No test calls unfold or fold on its own; the decompositions exercise third-order tensors with a handful of sizes only.",
 [B],[("unfold",B),("fold",B)],["return value of tenkit.base.unfold / fold"])
prop("C02","Khatri-Rao and Kronecker products have the standard row/column ordering",
 "Column r of khatri_rao(U0, ..., Un) is the Kronecker product of the r-th columns of the arguments in argument order (last argument varying fastest), and with skip=k it is exactly the product without the k-th argument. kron of matrices (any number of them) and kron_binary_vectors of two vectors have the standard Kronecker ordering for any sizes.",
 ["inputs"],"every number of factors, every matrix size, every skip index",
 "No test calls the product functions directly; the decompositions only use them for third-order tensors.",
 [B],[("khatri_rao, khatri_rao_binary",B),("kron, kron_binary, kron_binary_vectors",B)],["return values of the tenkit.base product functions"])
prop("C03","Matricised-tensor-times-Khatri-Rao-product is correct for every order and mode",
 "matrix_khatri_rao_product(X, factors, mode)[i, r] equals the sum over all indices with mode index i of X times the product of the other factor matrices' entries in column r, for every tensor order and every mode from 0 to the order minus one. The specialised third-order path and the general path therefore agree with the same formula, and the factor matrix of the mode itself has no influence.",
 ["inputs"],"every tensor order, every mode, every mode length and rank",
 "No test calls it directly; fourth- and higher-order tensors, which take a different path, are never used by any test.",
 [B],[("matrix_khatri_rao_product, _mttkrp3, _mttkrp_mid",B)],["return value of tenkit.base.matrix_khatri_rao_product"])
prop("C04","Flattening factor matrices and unflattening them again is lossless",
 "unflatten_factors(flatten_factors(fs), rank, sizes) returns factor matrices equal to fs, element for element and in the same order, for any number of modes, any mode lengths and any rank. The flat vector has exactly one entry per factor-matrix element, the factor matrices follow one another in order and each is stored row by row.",
 ["inputs"],"every list of factor matrices with a common number of columns",
 "No test calls either function.",
 [B],[("flatten_factors, unflatten_factors",B)],["return values of the two functions"])
prop("C05","The linear solvers solve the documented least squares problems",
 "rightsolve(A, B) returns the minimum-norm least squares solution X of XA = B (zero singular values are left out, not inverted); non_negative_rightsolve returns the row-wise non-negative least squares solution, for a matrix B and for a single right-hand-side vector alike; orthogonal_solve / orthogonal_rightsolve return the orthogonal Procrustes solution. A solver wrapped with a ridge penalty solves the same problem with penalty*||X||^2 added to the objective, and no solver changes its arguments.",
 ["inputs"],"every shape and rank of A and B, singular systems included",
 "The tests use full-rank systems of a few sizes; rank-deficient systems, one-dimensional right-hand sides and the ridge wrapper are never called directly.",
 [B],[("rightsolve, non_negative_rightsolve, orthogonal_solve, orthogonal_rightsolve, add_rightsolve_ridge",B)],["return values of the solver functions"])
prop("C06","A Kruskal tensor constructs the weighted sum of its rank-one components",
 "KruskalTensor.construct_tensor()[i, j, ...] equals the sum over components r of weights[r] times the product of the factor matrices' entries [i, r], [j, r], ..., for every order, every mode length and every rank. Omitted weights act as ones, and shape lists the mode lengths of the constructed tensor.",
 ["inputs"],"every order, size, rank and weight vector",
 "One test checks a third-order tensor with unit weights; other orders and non-unit weights are untested.",
 [D,B],[("KruskalTensor.construct_tensor, shape",D),("khatri_rao, fold",B)],["KruskalTensor.construct_tensor()"])
prop("C07","Evolving and PARAFAC2 tensors construct A diag(c_k) B_k^T slices",
 "The k-th constructed slice is A diag(c_k) B_k^T; the constructed tensor contains exactly these slices along its last mode, zero-padded along the second mode to the widest B_k, and shape is the shape of that tensor. For PARAFAC2 tensors B_k is the k-th projection matrix times the blueprint matrix, also through iteration, indexing, stacking and length. Constructing the padded tensor of an irregular decomposition raises a warning exactly when warnings are enabled.",
 ["inputs"],"every number of slices, regular or irregular slice widths, every rank",
 "The tests sample one rank and one set of sizes per class; the warning, B_unfolded and the num_elements bookkeeping are unchecked.",
 [D],[("EvolvingTensor.construct_slice(s)/construct_tensor/shape/B_unfolded",D),("ProjectedFactor",D),("Parafac2Tensor",D)],["construct_slice, construct_slices, construct_tensor, shape, B, B_unfolded"])
prop("C08","Normalising factor matrices never loses scale",
 "KruskalTensor.normalize_components() leaves the constructed tensor unchanged and every factor column with unit norm; with update_weights=False the weights stay as they were. utils.normalize_factor(s) returns unit-norm columns together with the norms that restore the original, and creating random components yields unit-norm columns and unit weights. (The factor matrices are distinct, non-shared arrays.)",
 ["inputs"],"every order, size, rank, and every weight vector",
 "One test normalises one third-order tensor with unit weights, where a wrong weight update in other orders or with non-unit weights cannot show.",
 [D,U],[("KruskalTensor.normalize_components, random_init",D),("normalize_factor, normalize_factors",U)],["construct_tensor() before and after; returned norms"])
prop("C09","Component extraction and conversion represent the same data",
 "The single-component decompositions of a Kruskal or PARAFAC2 tensor are the individual rank-one terms: they add up to the tensor constructed from the whole, weights included. Converting a third-order Kruskal tensor to an evolving tensor keeps the constructed tensor, weights included. Permuting factor matrices (and weights) reorders all of them with the same permutation.",
 ["inputs"],"every rank, component, weight vector and slice-width pattern",
 "Tests cover extraction from one third-order Kruskal tensor with unit weights; PARAFAC2 extraction, conversion and permutation have no test.",
 [D,U],[("get_single_component_decomposition",D),("EvolvingTensor.from_kruskaltensor, from_factor_matrices",D),("permute_factors, permute_factors_and_weights",U)],["construct_tensor()/construct_slices() of the results"])
prop("C10","Stored decompositions load back identical",
 "For every decomposition container (Kruskal, evolving, PARAFAC2), loading what was stored - from a file or from any HDF5 group - gives a decomposition of the same class with identical factor matrices, weights, projection matrices, rank and warning flag, for every number of modes and slices. Loading a group that holds another container type is reported instead of being misread.",
 ["inputs","histories"],"every container class, order, number of slices and irregular shape",
 "The existing round-trip tests compare with a bare allclose whose result is dropped for factor matrices, and the evolving tensor's own test failed on the original code.",
 [D],[("store, store_in_hdf5_group, from_file, load_from_hdf5_group, _check_hdf5_group",D)],["from_file(store(x)), load_from_hdf5_group"])
prop("C11","Checkpoints capture the right state and resuming continues from it",
 "With checkpointing on, a checkpoint of the current decomposition is stored after every checkpoint_frequency-th iteration, and when fitting returns the most recent checkpoint in the file holds the final decomposition, whether the run used its whole budget, converged early, was resumed or was continued. Loading a checkpoint (the latest by default, or a chosen one) restores exactly the stored decomposition, with which the model goes on as the iteration after it, and resuming into the same file never fails because of the checkpoints already there.",
 ["configurations","histories"],"every checkpoint frequency, iteration budget, stopping iteration and resume history",
 "Tests run one budget that is a multiple of one frequency and only look at the latest checkpoint; early convergence, other residues and resuming into the same file are never run.",
 [BD,CP,P2,CM],[("BaseDecomposer._after_fit_iteration, store_checkpoint, load_checkpoint",BD),("CP_ALS._fit",CP),("Parafac2_ALS._fit",P2),("CMTF_ALS.store_checkpoint",CM)],["the HDF5 checkpoint file after fit()"],
 [("current_iteration","number of iterations performed so far",BD),("final_iteration","which checkpoint is the latest",BD)])
prop("C12","A checkpoint is only advertised after it is completely written",
 "The marker that names the latest checkpoint is updated only after that checkpoint's decomposition has been written in full, so that an error or interruption while a checkpoint is being stored leaves the previously advertised checkpoint loadable. (Deleting or renaming a link in the HDF5 file counts as a single step that is not interrupted.)",
 ["crash_points","fault_sequences"],"an exception or interruption at any point during the storing of a checkpoint",
 "No test interrupts the storing of a checkpoint.",
 [BD,CM],[("BaseDecomposer.store_checkpoint",BD),("CMTF_ALS.store_checkpoint",CM)],["load_checkpoint after an interrupted store_checkpoint"])
prop("C13","Reported fit statistics describe the current target and decomposition",
 "At every moment after a model has been initialised - after fitting, between factor updates, after the decomposition was normalised or loaded, after fitting again to other data - SSE is the squared norm of data minus reconstruction (plus that of the coupled matrices for coupled models), loss is SSE plus penalty*||factor||^2 for every regularised mode, MSE is SSE over the number of fitted data entries, RMSE is its square root and explained_variance is 1 - SSE/||X||^2.",
 ["inputs","histories"],"every data set, decomposition state, penalty list and sequence of fit/update/normalise/refit calls",
 "Tests only read the loss during a first fit, with tolerances; refitting, external changes to the decomposition and MSE/RMSE/explained variance are never checked.",
 [BD,CP,P2,CM],[("SSE, MSE, RMSE, explained_variance, loss",BD),("BaseCP.SSE with cached MTTKRP",CP),("BaseParafac2.SSE, MSE",P2),("CMTF_ALS.SSE, MSE",CM)],["the SSE, MSE, RMSE, loss and explained_variance properties"],
 [("cached MTTKRP","right-hand side of the last factor update",CP)])
prop("C14","Each CP-ALS update solves that mode's least squares problem",
 "Updating a mode replaces its factor matrix by the solution of the (ridge-regularised, non-negative or orthogonal, if so requested for that mode) least squares problem of the data against the most recent factor matrices of all the other modes, each mode is updated exactly once per iteration in order, and no other factor matrix changes.",
 ["inputs","configurations"],"every tensor order, mode, rank, and combination of penalties and constraints",
 "Tests check recovery and monotonicity of the loss on third-order tensors of one size with tolerances; other orders and modes with different penalties are not run.",
 [CP,B],[("CP_ALS._update_als_factor(s), _get_als_lhs, _get_als_rhs, _get_rightsolve",CP)],["factor_matrices after an update"])
prop("C15","A PARAFAC2-ALS iteration performs projection and CP steps on live factors",
 "In every iteration each projection matrix becomes the orthogonal Procrustes solution for its own slice given the current A, c_k and blueprint, and then the CP steps run on the data projected with the new projection matrices with the user's penalties and constraints. The updates are visible in the decomposition the model returns (A, blueprint and C all follow the CP steps), and projection matrices of different slices never share storage, whichever initialisation was used.",
 ["inputs","configurations"],"every number of slices, irregular widths, every init scheme and constraint combination",
 "Tests accept reconstructions within an absolute error of 1, use regular tensors, and never combine orthonormality constraints or the cp/svd initialisations with a check of the factors.",
 [P2,CP],[("Parafac2_ALS._update_parafac2_factors, _update_projection_matrices, _prepare_cp_decomposer, projected_X",P2)],["decomposition after an iteration"])
prop("C16","Coupled matrix-tensor fitting uses the coupled matrices in the right mode",
 "In a coupled fit the factor matrix of a coupled mode is updated from the tensor and the coupled matrix jointly, uncoupled modes are updated as in CP, and each coupled matrix's own factor is the least squares solution (non-negative where requested) given the shared factor. The returned pairs multiply to the modelled coupled matrices, and the final normalisation leaves both the modelled tensor and the modelled coupled matrices unchanged.",
 ["inputs","configurations"],"every coupling mode, number of coupled matrices, rank and constraint list",
 "A single test couples one matrix to mode 0 without constraints, and it fails on the original code.",
 [CM],[("CMTF_ALS._get_als_lhs/_get_als_rhs/_update_uncoupled_matrix_factors/_normalize_components",CM)],["fit_transform return value; SSE"])
prop("C17","Non-negativity and orthonormality constraints hold in the fitted model",
 "After at least one iteration every factor matrix of a mode constrained to be non-negative has no negative entry, and every factor matrix of a mode constrained to be orthonormal has orthonormal columns (for non-degenerate problems), for CP, PARAFAC2 (A, blueprint and C) and coupled models, whichever initialisation is used. Asking for both on the same mode is rejected.",
 ["inputs","configurations"],"every data set, constraint combination and initialisation scheme",
 "Tests only check the fit quality of constrained models, never that the constraint holds.",
 [CP,P2,CM,B],[("CP_ALS._get_rightsolve, _init_fit",CP),("Parafac2_ALS._prepare_cp_decomposer",P2),("CMTF_ALS._update_als_factors",CM)],["factor matrices of the fitted decomposition"])
prop("C18","Every constructor and fit option reaches the behaviour it names",
 "Each constructor option of a decomposer is stored unchanged under its own name and steers that behaviour (None standing for the documented default), and fit and fit_transform honour max_its and initial_decomposition in the same way for every decomposer. fit_transform returns the decomposition that the same call to fit would have left in the model.",
 ["configurations"],"every decomposer class, every option, every combination",
 "Tests pass a few options by keyword to fit_transform of a fresh model and never check that max_its or initial_decomposition take effect.",
 [BD,CP,P2,CM],[("__init__ chains; fit, fit_transform, _init_fit",CP),("fit_transform",P2)],["attributes after construction; iterations performed; starting decomposition"])
prop("C19","Fitting respects its iteration budget and stopping rule",
 "A fit performs at most max_its iterations in total, stops as soon as the relative change of the loss (for CP: of the squared error; and for CP also as soon as the relative loss) falls below its tolerance, and current_iteration counts the iterations performed. A budget of zero, or continuing a fit that has used its budget, performs no iteration and returns normally; continue_fit with a larger budget carries on from where the model stands.",
 ["configurations","histories"],"every budget, tolerance and sequence of fit / continue_fit calls",
 "Tests run long budgets once; zero budgets and continue_fit are never called.",
 [BD,CP,P2],[("BaseDecomposer.fit, continue_fit, _init_fit, _after_fit_iteration",BD),("CP_ALS._fit, _update_convergence",CP),("Parafac2_ALS._fit, _update_convergence",P2)],["current_iteration; number of iterations performed"])
prop("C20","Loggers record every iteration exactly once and persist it exactly once",
 "Every attached logger gets one entry per iteration, holding that logger's metric for the decomposition after that iteration and the iteration's number. In the checkpoint file the datasets of each logger (the loggers being of different classes) hold, in order and without gaps or duplicates, all the entries logged up to the last checkpoint, over any number of checkpoints and across resumed runs.",
 ["histories","configurations"],"every logger class, checkpoint frequency and sequence of checkpoints",
 "No test attaches a logger.",
 [L,BD],[("BaseLogger.log, write_to_hdf5_group, latest_log_*",L),("BaseDecomposer._after_fit_iteration, store_checkpoint",BD)],["log_metrics, log_iterations, datasets in the checkpoint file"],
 [("prev_checkpoint_it","number of entries already written",L)])
prop("C21","The library never modifies the data it is given",
 "Fitting never writes to the data tensor, the slices or the coupled matrices; the functions of base, metrics and utils never write to the arrays or lists passed in; reading, comparing, converting, storing or reconstructing a decomposition never changes it. Only operations documented to act in place (normalising, resetting weights, fitting from a precomputed decomposition) change a decomposition.",
 ["inputs","configurations"],"every input and every option combination",
 "Tests look at return values and rarely at the arguments afterwards.",
 [B,M,U,D,CP,P2,CM],[("all functions of the package",B)],["arguments before and after every public call"])
prop("C22","Runs are isolated and reproducible from NumPy's global seed",
 "Nothing a run does is remembered outside the objects involved: no module-level, class-level or default-argument state is changed by using the library. All randomness is drawn from NumPy's global generator, which is never reseeded, and no result depends on time, hashing or other hidden sources, so seeding NumPy and repeating the same calls repeats the results, and a model that has been used before gives what a new one gives.",
 ["histories","configurations"],"every sequence of uses in one process",
 "Tests run each model once per process with a fixed seed and cannot see state leaking between runs or a reseeded generator.",
 [B,M,U,D,BD,CP,P2,CM,L],[("module and class definitions; all random draws",D)],["results of repeated runs after np.random.seed"])
prop("C23","Unfit initial decompositions and bad arguments are rejected",
 "An initial decomposition (precomputed or loaded) whose rank, number of modes or slices, or any mode length disagrees with the model or the data is rejected with ValueError before it is used; so are Kruskal tensors with unequal column counts or a wrong number of weights, unknown initialisation names, unknown reductions and random methods, SVD initialisation with a rank larger than a mode it needs singular vectors of, and loading a checkpoint that does not exist. Fitting arguments make these checks reject only what is wrong: matching ones are accepted.",
 ["inputs","configurations"],"every mismatching mode, dimension and option value",
 "Tests check only that unequal column counts in a Kruskal tensor are rejected.",
 [D,CP,P2,BD,M],[("_check_valid_components",CP),("_check_valid_components",P2),("KruskalTensor.__init__",D),("init_components",CP),("load_checkpoint",BD)],["ValueError raised"])
prop("C24","Each initialisation scheme builds the documented starting point",
 "Initialisation names are matched regardless of case and give: 'random' a random decomposition of the data's shape and the model's rank (non-negative where so constrained; for CP with unit-length columns and unit weights), 'svd' the leading left singular vectors of the data's unfoldings (for PARAFAC2: A from the slices side by side, identity blueprint, C of ones and the best projections for these), 'cp' (PARAFAC2) the factors of a CP model of the data fitted for 20 iterations with the evolving mode split into an orthonormal projection and a blueprint, 'precomputed' exactly the given decomposition with its weights absorbed into a factor matrix that may carry them, 'from_checkpoint' or a file path the stored one.",
 ["inputs","configurations"],"every scheme, spelling, data shape and rank",
 "Tests never look at the starting point; the svd scheme has no test at all.",
 [CP,P2,D,U],[("init_components, init_random, init_svd",CP),("init_components, init_random, init_svd, init_cp",P2)],["decomposition before the first iteration"])
prop("C25","Every code path refers to names, attributes and parameters that exist",
 "Using any public operation in any documented configuration never fails because the library itself refers to a name, module member, method or attribute that does not exist, passes an argument its own function does not accept, or reads a local variable that was never assigned. (Private code that no public operation reaches is left out.)",
 ["programs","configurations"],"every function of the package and every path through it",
 "In Python such errors appear only when the line runs, and many paths are run by no test.",
 [B,M,U,LG,D,BD,CP,P2,CM,L],[("all modules of the package",B)],["AttributeError, NameError, TypeError, UnboundLocalError raised from inside the library"])
prop("C26","Factor match score is the documented score at the best permutation",
 "The factor match score is the minimum (or mean) over components of (1 - relative weight difference) times the product over modes of the absolute cosine between matched columns, without the weight term if weight_penalty is off, maximised over all matchings of estimated to true components. The returned permutation is the one that attains the returned score, and the mode-wise variant does this for each mode on its own. The weights of Kruskal tensors count as part of the component sizes, and for PARAFAC2 the score is that of the non-evolving modes.",
 ["inputs"],"every rank, number of modes, permutation, sign and scaling of the components",
 "Tests only see scores near 1 for nearly equal decompositions and never check the permutation, the reductions, or the mode-wise variant.",
 [M,D,U],[("factor_match_score, separate_mode_factor_match_score, _factor_match_score, weight_score",M),("factor_match_score methods",D)],["return values"])
prop("C27","Core consistency compares the least squares Tucker core with the ideal core",
 "core_consistency(X, A, B, C) is 100*(1 - ||G - T||^2/R) where T is the R x R x R superdiagonal tensor of ones and G is the least squares Tucker core of X for the factor matrices (with ||G||^2 in place of R if normalised), so that it is 100 for an exact CP model of any scaling. For PARAFAC2 it is that of the data projected slice by slice, and the Kruskal tensor's method takes its weights into account.",
 ["inputs"],"every tensor size, rank and scaling of the components",
 "The only test cannot run on the installed NumPy.",
 [M,D],[("core_consistency, core_consistency_parafac2",M),("KruskalTensor.core_consistency",D)],["return values"])
prop("C28","Scalar diagnostics follow their definitions",
 "percent_explained is 1 - ||X - Y||^2/||X||^2; tensor_completion_score is the relative error over the entries whose mask (of zeros and ones) is zero; leverage is the diagonal of the orthogonal projection onto the factor's column space; degeneracy is the matrix of products over all modes of the cosines between components, for Kruskal and evolving (stacked B_k) tensors.",
 ["inputs"],"every input of matching shapes",
 "No test calls any of these functions.",
 [M,D],[("percent_explained, tensor_completion_score, leverage, _tucker_congruence",M),("degeneracy",D)],["return values"])
prop("C29","Sign correction is consistent",
 "Sign scores are the signed sums of squares of the data's least squares coefficients on each component, per mode (without data: the column sums, a zero sum counting as one); the returned signs are those of the scores (zero for a zero score) except that, if they would change the tensor, exactly the mode with the weakest score is reversed, so that the signs of each component multiply to one. Flipping helpers return copies whose columns are multiplied by exactly the returned signs and have a positive majority sign, or a positive first nonzero entry where positive and negative entries balance.",
 ["inputs"],"every decomposition, data tensor and sign pattern",
 "Two tests use random third-order tensors; ties, other orders and the flipping helpers are not covered.",
 [D,U],[("KruskalTensor.get_signs, get_sign_scores",D),("get_signs, flip_factors, prepare_for_comparison, _find_first_nonzero_sign",U)],["return values"])
prop("C30","The experiment logger stores each logged value once, in order",
 "After saving, each target's dataset in the experiment file holds, in order and without gaps or duplicates, the value of that target for every log call since the file was started - for any store frequency, any number of saves, and when an old experiment is continued. An experiment run calls the given functions with the given data and parameters and stores every parameter (other than the starting point, 'init'), output and final metric under its own name, overwriting those of the run it continues.",
 ["histories","configurations"],"every sequence of log/save calls, store frequencies and continuations",
 "No test imports tenkit.log's classes.",
 [LG],[("Logger, HDF5Logger, Experiment",LG)],["datasets in the HDF5 file"])
prop("C31","ALS never increases its loss",
 "No factor update, projection update or complete iteration of an alternating least squares fit increases the (regularised) loss, beyond rounding.",
 ["inputs","histories"],"every data set, initialisation and number of iterations",
 "Tests sample a few random tensors and tolerate increases.",
 [CP,P2,CM],[("_fit loops",CP)],["loss after each update"])
prop("C32","Fitting recovers the components of data with exact low-rank structure",
 "For data generated from a decomposition with an essentially unique structure, a converged fit finds that decomposition up to permutation, sign and scaling.",
 ["inputs"],"every identifiable data set",
 "Tests try one size with one seed; success depends on the random start.",
 [CP,P2,CM],[("fit",CP)],["factor match score of the fitted model"])
prop("C33","Results are numerically accurate in floating point",
 "Solvers and fit statistics lose no more accuracy than the conditioning of the problem warrants; in particular the fast expression for the squared error stays non-negative and accurate near a perfect fit.",
 ["inputs"],"every floating-point input",
 "Tests use well-conditioned random data.",
 [B,CP],[("rightsolve",B),("BaseCP.SSE",CP)],["relative error of results"])
prop("C34","Checkpoint files survive power loss",
 "After an operating-system crash or power loss during fitting, the checkpoint file can still be opened and the last completed checkpoint loaded.",
 ["crash_points"],"a crash at any point of the file system's write-back",
 "No test crashes a process.",
 [BD],[("store_checkpoint",BD)],["h5py.File on the surviving file"])
prop("C35","Random components follow the requested distribution",
 "Randomly created components are independent draws from the requested distribution (standard normal, or uniform on [0, 1)) before scaling.",
 ["inputs"],"every size, rank and seed",
 "Tests never look at distributions.",
 [D,U],[("random_init",D),("create_random_factors",U)],["empirical distribution of the entries"])
prop("C36","Generated test data are the generating model plus noise of the requested size",
 "create_data and create_non_negative_data return a tensor that equals the sum of the rank-one terms of the returned factor matrices plus noise_factor times the returned noise, for every number of modes, mode lengths and rank. The factor matrices have the requested shapes and unit-norm columns (without negative entries for the non-negative variant), the noise has the norm of the noiseless tensor, and nothing returned is shared with what another call returns.",
 ["inputs"],"every number of modes, mode length, rank, noise level and draw",
 "Tests use the generators as fixtures only, with third-order tensors and no noise.",
 [U],[("create_data, create_non_negative_data",U),("create_random_factors, create_random_uniform_factors",U)],["return values"])
prop("C37","Going through a checkpoint file visits every checkpoint once, in order",
 "iter_checkpoints yields the group of every checkpoint in the file, each exactly once and by increasing iteration, whatever the number of digits of the iterations and the order in which they were stored, and none of the other groups in the file (logs, unfinished checkpoints).",
 ["histories"],"every history of stored checkpoints and every set of groups in the file",
 "No test calls iter_checkpoints.",
 [U,BD],[("iter_checkpoints",U),("store_checkpoint",BD)],["groups yielded"])
prop("C38","The stand-alone CP initialiser returns the documented starting factor matrices",
 "Base_CP.init_factors returns one factor matrix for every mode of a tensor of any order: the leading left singular vectors of the tensor's unfoldings for 'svd', unit-length columns of the requested shape for 'random' (the default), with weights of one, and rejects other scheme names with ValueError.",
 ["inputs","configurations"],"every tensor, order and rank",
 "No test imports base_tensor_decomposition.",
 ["src/tenkit/base_tensor_decomposition.py"],[("Base_CP.init_factors, _random_init, _svd_init","src/tenkit/base_tensor_decomposition.py")],["return values"])
if __name__=="__main__":
    out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
    with open(out,"w") as f:
        for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        n=p["statement"].replace("...","").count(". ")+1
        if n>3: print(p["id"],"sentences",n)
