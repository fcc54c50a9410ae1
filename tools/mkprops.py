#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per property)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=False):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
SRC="src/"; PR="src/private/"

prop("A01","Results depend only on the arguments of a call",
 "A transform (vanishing or periodic NSE, KdV, Manakov, or inverse) called with the same arguments returns the same code and, to numerical accuracy, the same outputs whatever calls, successful or failed, were made before and whatever the heap contains. No call, whatever its outcome, modifies a caller-owned input (signal samples, windows, the option object) or what the default-option functions return, and passing no option object is the same as passing the default options.",
 ["histories","inputs"],"all sequences of calls mixing transforms, option objects, default options, successful and failing calls; all contents of freshly allocated memory",
 "Each test makes a few calls with one fresh option object and only looks at the spectrum; none compares a call with itself after another history, none re-reads its option object or the default options, and none runs with a different heap content.",
 [SRC+"fnft_nsev.c",SRC+"fnft_nsep.c",SRC+"fnft_kdvv.c",SRC+"fnft_manakovv.c",SRC+"fnft_nsev_inverse.c"],
 [("option handling and temporary option changes","fnft_nsev, fnft_nsep, fnft_kdvv, fnft_manakovv"),("static default options","default_opts in every transform file"),("work buffers","fnft_*_base, *_compute_*")],
 ["return code, output arrays, input arrays, option object, fnft_*_default_opts() after every call"],
 [("default_opts","options used when none are passed"),("option object","owned by the caller")])

prop("A02","Concurrent calls do not influence each other",
 "Transforms called concurrently from several threads, each with its own output buffers, return the same codes and results as when they run one after another, for every interleaving, also when the threads share input arrays, share one option object, or all use the default options. The error-message routine installed by one thread is used for that thread only.",
 ["schedules"],"all interleavings of concurrent transform calls by several threads",
 "All tests are single-threaded.",
 [SRC+"fnft_nsev.c",SRC+"fnft_nsep.c",SRC+"fnft_kdvv.c",SRC+"fnft_manakovv.c",SRC+"fnft_nsev_inverse.c",SRC+"fnft_errwarn.c",PR+"fnft__errwarn.c"],
 [("static default options","default_opts in every transform file"),("thread-local print routine","fnft__printf_ptr in fnft_errwarn.c"),("FFT plans","include/private/fnft__fft_wrapper.h")],
 ["return code and outputs of every call, messages received per thread"])

prop("A03","Invalid arguments are rejected without side effects",
 "A call whose arguments violate a documented requirement (too few samples, missing required arrays, unordered or missing windows, a nonlinearity sign other than plus or minus one, an unknown discretization or inverse-transform option, a complex KdV potential, a KdV frequency grid containing zero, bound-state guesses off the positive imaginary axis, inverse-transform size restrictions) returns the error code for that kind of error, never success, and neither crashes nor leaks memory; when an array, a size, a window or the sign of the nonlinearity is invalid, it also leaves the output arrays untouched. Arguments documented as optional may be left out, alone or together, without making an otherwise valid call fail or crash.",
 ["inputs","configurations"],"all combinations of one violated requirement with every otherwise valid configuration; all subsets of optional arguments",
 "Tests pass valid arguments only; no test calls a transform with a wrong or a missing optional argument.",
 [SRC+"fnft_nsev.c",SRC+"fnft_nsep.c",SRC+"fnft_kdvv.c",SRC+"fnft_manakovv.c",SRC+"fnft_nsev_inverse.c"],
 [("argument checks","head of fnft_nsev, fnft_nsep, fnft_kdvv, fnft_manakovv, fnft_nsev_inverse, fnft_nsev_inverse_XI")],
 ["return code, output arrays, allocation balance"])

prop("A04","Running out of memory is reported cleanly at every point",
 "If any single memory allocation made by the library's code during a transform fails (or all from some point on), the call returns the out-of-memory error (never success) without crashing. Whatever the outcome of a call, all memory it allocated is released and the option object and the defaults are as before.",
 ["fault_sequences","configurations"],"every allocation of every configuration failing in turn (and all later ones failing)",
 "No test injects an allocation failure or counts live allocations.",
 [SRC+"fnft_nsev.c",SRC+"fnft_nsep.c",SRC+"fnft_kdvv.c",SRC+"fnft_manakovv.c",SRC+"fnft_nsev_inverse.c",PR+"fnft__akns_discretization.c",PR+"fnft__akns_scatter.c",PR+"fnft__akns_fscatter.c",PR+"fnft__poly_fmult.c",PR+"fnft__poly_chirpz.c",PR+"fnft__poly_specfact.c",PR+"fnft__misc.c"],
 [("allocation checks and clean-up paths","leave_fun/release_mem labels of every routine"),("FFT buffers and plans","include/private/fnft__fft_wrapper.h")],
 ["return code, number of live allocations, option object"])

prop("A05","Output buffers are respected and truncation is announced",
 "A transform never writes beyond the documented length of an output array for the capacity the caller announced. On success the returned count of bound states or spectrum points never exceeds that capacity; when more points were found than fit, a warning is issued and, where the capacity is cut after the points are complete, the stored ones are among those found with ample capacity; when everything fits, the result is the same for every sufficient capacity. If the discrete part is not requested, or the non-linearity is defocusing, the count reported for bound states is zero where documented.",
 ["inputs","configurations"],"all announced capacities from zero to ample, all localization, filtering and discrete-spectrum options of the four forward transforms",
 "Tests always pass ample capacity and never look behind the end of an array.",
 [SRC+"fnft_nsev.c",SRC+"fnft_nsep.c",SRC+"fnft_kdvv.c",SRC+"fnft_manakovv.c"],
 [("capacity handling","nsev_compute_boundstates, fnft_nsep subroutines, kdvv_compute_boundstates, manakovv_compute_boundstates"),("temporary buffers for both norming constants and residues","fnft_nsev, fnft_kdvv")],
 ["count, arrays including guard zones, warnings"])

prop("A06","Failures and warnings reach the message routine of the caller",
 "Every call that returns an error code emits at least one error message naming a function and line through the message routine in effect for that thread, and a call that succeeds emits no error message. With message output disabled nothing is printed and codes and results are the same; setting and querying the routine returns exactly what was set. Error codes passed up through nested calls keep their kind.",
 ["histories","inputs"],"all sequences of setting the message routine and of succeeding, warning and failing calls",
 "No test sets the message routine or inspects messages.",
 [SRC+"fnft_errwarn.c",PR+"fnft__errwarn.c","include/private/fnft__errwarn.h","include/fnft_errwarn.h"],
 [("message routine pointer","fnft_errwarn_setprintf, fnft_errwarn_getprintf"),("message emission","fnft__errmsg_aux, fnft__warn_aux, E_SUBROUTINE, CHECK_RETCODE")],
 ["messages received, return codes"])

prop("A07","An unfinished iteration is announced, and nothing else is",
 "When the refinement of a bound state or of a main or auxiliary spectrum point by Newton's method uses up its iterations or evaluations while the point stays inside the bounding box and both the step and the residual stay above the tolerance, or when the iterative inverse transform uses up its iterations, or a spectral factorization is ill-posed (the polynomial vanishes or reaches one in absolute value on the unit circle where that matters), the call issues a warning. If every iteration ends at its tolerance, in particular if a guess is an exact zero (also of higher order), no such warning is issued and the call succeeds.",
 ["inputs","configurations"],"all signals, guesses, numbers of iterations or evaluations, tolerances, and localization by Newton's method of fnft_nsev and fnft_nsep; all spectra and iteration limits of fnft_nsev_inverse; all polynomials of the spectral factorization",
 "Tests only use limits that suffice and never look at warnings.",
 [SRC+"fnft_nsev.c",SRC+"fnft_nsep.c",SRC+"fnft_nsev_inverse.c",PR+"fnft__poly_specfact.c"],
 [("Newton's method for bound states","nsev_refine_bound_states_newton"),("Newton's method for main and auxiliary spectrum","refine_mainspec, refine_auxspec"),("iterative construction of the transfer matrix","transfer_matrix_from_reflection_coefficient"),("ill-posed factorization","fnft__poly_specfact")],
 ["number of warnings received by the message routine, return code, spectrum"])

prop("B01","NSE continuous spectrum equals the scattering data of the scheme",
 "For every signal, time window, frequency grid, sign of the nonlinearity, discretization and choice of output (reflection coefficient, a and b, or both), the vanishing-boundary NSE transform returns, at each grid point, the values defined by the chosen discretization: the product of the per-sample transfer matrices with the boundary phases of the window. Numerical normalization does not change the result, and the reflection coefficient, a and b are laid out as documented with the reflection coefficient equal to b/a.",
 ["inputs","configurations"],"all signals, numbers of samples (also not a power of two), windows (also asymmetric), grids, both signs, all discretizations, output types, normalization on and off",
 "Tests use one symmetric sech signal at a few sample counts, mostly one output type, with error bounds of the discretization error.",
 [SRC+"fnft_nsev.c",PR+"fnft__nse_fscatter.c",PR+"fnft__akns_fscatter.c",PR+"fnft__nse_scatter.c",PR+"fnft__akns_scatter.c",PR+"fnft__nse_discretization.c",PR+"fnft__akns_discretization.c",PR+"fnft__poly_fmult.c",PR+"fnft__poly_chirpz.c"],
 [("continuous spectrum","nsev_compute_contspec"),("boundary phases","nse_discretization_phase_factor_*"),("transfer matrix","akns_fscatter, akns_scatter_matrix"),("signal preprocessing","akns_discretization_preprocess_signal")],
 ["contspec array"])

prop("B02","NSE spectra obey the symmetries of the equation",
 "Multiplying the signal by a constant phase, shifting the time window, and scaling time and amplitude together transform the computed spectrum (continuous and discrete) exactly as for the underlying equation, and conjugating the signal or reversing time does so for the discretizations that are symmetric. For real frequencies the computed a and b satisfy |a|^2 plus (focusing) or minus (defocusing) |b|^2 equal to one for every discretization whose step is unitary in that sense, and signals that are zero have a=1, b=0 and no bound states.",
 ["inputs","histories"],"all signals and all sequences of symmetry operations applied to them",
 "Tests compare single signals with precomputed values; no test relates two calls.",
 [SRC+"fnft_nsev.c",PR+"fnft__nse_discretization.c",PR+"fnft__akns_scatter.c",PR+"fnft__akns_fscatter.c"],
 [("boundary phases","nse_discretization_phase_factor_*"),("scattering","akns_scatter_matrix, akns_fscatter")],
 ["contspec, bound_states, normconsts_or_residues of related calls"])

prop("B03","NSE bound states are the zeros of a in the requested region",
 "Every bound state returned by the focusing vanishing-boundary NSE transform after refinement is, to numerical accuracy, a zero of the a-coefficient of the scheme; with basic filtering all lie in the upper half-plane and no two are closer than the merge tolerance, with full filtering also inside the documented bounding box, and with manual bounding box inside that box. The fast eigenvalue method without filtering returns all zeros, the subsample-and-refine method finds the zeros that are well inside the region, and Newton's method started near a simple zero returns that zero.",
 ["inputs","configurations"],"all signals, windows, discretizations, localization and filtering options, subsampling factors and iteration counts",
 "Tests look for the bound states of one sech signal with default boxes and error bounds of the discretization error.",
 [SRC+"fnft_nsev.c",PR+"fnft__poly_roots_fasteigen.c",PR+"fnft__misc.c",PR+"fnft__akns_scatter.c"],
 [("localization","nsev_compute_boundstates"),("refinement","nsev_refine_bound_states_newton"),("filtering","misc_filter, misc_merge")],
 ["bound_states, count"])

prop("B04","NSE norming constants and residues belong to their bound states",
 "For every bound state the vanishing-boundary NSE transform returns, the norming constant is the factor relating the two boundary-normalized eigenfunctions of the scheme there and the residue is that constant divided by the derivative of a; when both are requested the norming constants come first and the residues second, each in the order of the bound states, and equal what is returned when they are requested alone. Both follow the time-shift and phase rules of the equation.",
 ["inputs","configurations"],"all signals, windows, discretizations, localization options and discrete-spectrum types",
 "Tests check one sech signal.",
 [SRC+"fnft_nsev.c",PR+"fnft__akns_scatter.c",PR+"fnft__nse_scatter.c"],
 [("norming constants and residues","nsev_compute_normconsts_or_residues"),("bidirectional scattering","akns_scatter_bound_states")],
 ["normconsts_or_residues"])

prop("B05","Richardson extrapolation combines full and half rate results",
 "With Richardson extrapolation on, the continuous spectrum returned by the vanishing-boundary NSE, KdV and Manakov transforms equals, at frequencies resolved by the subsampled signal, the extrapolation (s*full-half)/(s-1) of the results without extrapolation for the full and the subsampled signal, with s the step ratio to the power of the method order, and the unextrapolated result elsewhere. Bound states and residues are extrapolated in the same way against the matching subsampled ones, whatever output types are requested.",
 ["inputs","configurations"],"all signals, sample counts, grids, discretizations and output types of the three transforms",
 "Tests check an error bound for one signal and three discretizations.",
 [SRC+"fnft_nsev.c",SRC+"fnft_kdvv.c",SRC+"fnft_manakovv.c"],
 [("Richardson branch","fnft_nsev, fnft_kdvv, fnft_manakovv"),("order tables","*_discretization_method_order")],
 ["contspec, bound_states, normconsts_or_residues with the flag on and off"])

prop("C01","Periodic NSE spectra satisfy the Floquet conditions",
 "Every main-spectrum point returned by the periodic NSE transform solves Floquet discriminant = plus or minus one (or the requested values in the Floquet range, in the order of the spines) and every auxiliary-spectrum point is a zero of the upper right monodromy element, both for the monodromy matrix of the discretization of one (quasi-)period: the chosen one for grid search, Newton's method and unrefined points, that of the refinement scheme after refinement. Without filtering subsample-and-refine without refinement returns all zeros; with filtering exactly those inside the box; grid search misses no sign change on its grid; Newton's method started near a simple zero returns that zero; the mixed method returns the real points of the grid search together with the non-real ones of subsample-and-refine.",
 ["inputs","configurations"],"all signals, periods, discretizations, localization and filtering options, sample counts, boxes",
 "Tests check plane waves, constants and three numerical signals against stored values.",
 [SRC+"fnft_nsep.c",PR+"fnft__poly_roots_fftgridsearch.c",PR+"fnft__poly_roots_fasteigen.c",PR+"fnft__misc.c",PR+"fnft__nse_scatter.c"],
 [("grid search","gridsearch in fnft_nsep.c"),("subsample and refine","subsample_and_refine in fnft_nsep.c"),("Newton refinement","refine_mainspec, refine_auxspec"),("filtering","misc_filter, misc_filter_nonreal, misc_merge")],
 ["main_spec, aux_spec, counts"])

prop("C02","Periodic NSE spectra are invariant under the symmetries of a period",
 "The main spectrum does not change when the signal is multiplied by a constant phase, and it, with the auxiliary spectrum shifted alike, moves by a constant when the signal is modulated by a quasi-period phase that the caller announces; scaling period and amplitude together scales the spectra; shifting the time window changes nothing. Starting the period at a different sample leaves the main spectrum unchanged for the discretizations without one-sided derivatives, conjugating the signal mirrors both spectra at the imaginary axis, and reversing the period mirrors the main spectrum for the discretizations with a symmetric step.",
 ["inputs","histories"],"all signals, discretizations and localizations, and phase, modulation, scaling, translation, cyclic shift, conjugation and reversal",
 "No test relates two calls.",
 [SRC+"fnft_nsep.c"],[("phase shift handling","fnft_nsep"),("main spectrum","fnft_nsep.c subroutines")],
 ["main_spec, aux_spec of related calls"])

prop("D01","KdV continuous spectrum equals the scattering data of the scheme",
 "For every real signal, time window, frequency grid without zero, discretization (standard and vanilla) and choice of output, the KdV transform returns the a and b values and reflection coefficient of the chosen discretization with the boundary phases of the window, independent of normalization; a and b satisfy |a|^2-|b|^2=1 to the accuracy of the scheme where its step preserves it, and conjugate symmetry under reversal of the frequency sign.",
 ["inputs","configurations"],"all real signals, sample counts, windows, grids, discretizations, output types, normalization on and off",
 "Tests check a few fixed signals at a few sample counts with discretization error bounds.",
 [SRC+"fnft_kdvv.c",PR+"fnft__kdv_fscatter.c",PR+"fnft__kdv_scatter.c",PR+"fnft__kdv_discretization.c",PR+"fnft__akns_discretization.c",PR+"fnft__akns_scatter.c",PR+"fnft__akns_fscatter.c"],
 [("continuous spectrum","kdvv_compute_contspec"),("change of basis","kdv_discretization_change_of_basis_matrix_*"),("boundary phases","kdv_discretization_phase_factor_*")],
 ["contspec"])

prop("D02","KdV bound states are found and refined as documented",
 "With grid search the KdV transform reports one bound state for every sign change of a on the documented grid of the positive imaginary axis (none for non-positive signals), refined to a zero of a by Newton's method; with Newton it refines the caller's guesses in order. Norming constants and residues belong to the reported bound states, are laid out as documented, and none of this depends on normalization.",
 ["inputs","configurations"],"all real signals, windows, grid spacings, iteration counts, discretizations and discrete-spectrum types, normalization on and off",
 "Tests check fixed signals with ample spacing and iterations.",
 [SRC+"fnft_kdvv.c",PR+"fnft__akns_scatter.c",PR+"fnft__kdv_scatter.c"],
 [("grid search and regula falsi","kdvv_compute_boundstates"),("refinement","kdvv_refine_bound_states_newton"),("norming constants","kdvv_compute_normconsts_or_residues")],
 ["bound_states, normconsts_or_residues, count"])

prop("E01","Manakov spectrum equals the scattering data of the scheme",
 "For every pair of signals, window, grid, sign, discretization and choice of output the Manakov transform returns a, b1, b2 and the two reflection coefficients of the chosen discretization, laid out as documented and independent of normalization. For real frequencies |a|^2 plus or minus (|b1|^2+|b2|^2) is one for the schemes whose step preserves it.",
 ["inputs","configurations"],"all signal pairs, sample counts, windows, grids, both signs, discretizations, output types, normalization on and off",
 "Tests check two test signals at fixed sample counts with discretization error bounds.",
 [SRC+"fnft_manakovv.c",PR+"fnft__manakov_fscatter.c",PR+"fnft__manakov_scatter.c",PR+"fnft__manakov_discretization.c",PR+"fnft__poly_fmult.c"],
 [("continuous spectrum","manakovv_compute_contspec"),("transfer matrices","manakov_fscatter, manakov_scatter_matrix"),("boundary phases","manakov_discretization_phase_factor_*")],
 ["contspec"])

prop("E02","Manakov spectra rotate with the signal and contain the scalar case",
 "Mixing the two components by a constant unitary matrix leaves a and the bound states unchanged and mixes b1, b2 and the reflection coefficients accordingly; swapping components swaps b1 and b2; with one component zero the transform reproduces the scalar transform of the other with the other b zero. The bound states returned with filtering are zeros of a in the upper half-plane, do not depend on whether the continuous spectrum is also requested, and are bounded in number by the documented maximum.",
 ["inputs","histories","configurations"],"all signal pairs, unitary mixings, discretizations and output requests",
 "No test relates two calls; bound states are tested for one signal.",
 [SRC+"fnft_manakovv.c",PR+"fnft__manakov_fscatter.c",PR+"fnft__manakov_scatter.c"],
 [("bound states","manakovv_compute_boundstates, subsampling branch of fnft_manakovv"),("maximum","fnft_manakovv_max_K")],
 ["contspec, bound_states, count of related calls"])

prop("F01","Inverting a continuous spectrum reproduces the signal",
 "The inverse NSE transform applied to the continuous spectrum (reflection coefficient, b on the frequency axis, or b in the delay domain) that a discretized signal has under the same discretization on the prescribed frequency grid returns a signal with that continuous spectrum, for both signs, all supported inversion methods, asymmetric windows where allowed and numbers of frequency points from the minimum upward. The prescribed frequency grid is the one on which the discretized spectrum is periodic, and requests outside the documented restrictions are refused.",
 ["inputs","configurations"],"all signals of moderate energy, sizes, windows, signs, spectrum types and inversion methods",
 "Tests invert two analytic spectra on symmetric windows.",
 [SRC+"fnft_nsev_inverse.c",PR+"fnft__nse_finvscatter.c",PR+"fnft__akns_finvscatter_q_from_r.inc",PR+"fnft__poly_specfact.c"],
 [("grid","fnft_nsev_inverse_XI"),("transfer matrix construction","transfer_matrix_from_*"),("fast layer peeling","nse_finvscatter")],
 ["q, and the forward transform of q"])

prop("F02","Inverting a discrete spectrum inserts exactly those solitons",
 "The inverse NSE transform with bound states and norming constants or residues returns a signal whose forward transform has those bound states and those constants (on top of a seed potential, residues are those of the solitons alone), with and without a continuous spectrum (whose reflection coefficient is kept) or a seed potential; the result does not depend on the order in which the bound states are listed. A single bound state gives the analytic soliton at the location and phase its norming constant encodes.",
 ["inputs","configurations"],"all sets of distinct upper half-plane bound states, constants, windows, spectrum types and inversion methods",
 "Tests check three fixed multi-soliton examples.",
 [SRC+"fnft_nsev_inverse.c"],
 [("Darboux transform","add_discrete_spectrum, compute_eigenfunctions"),("phase precompensation","precompensate_for_cdt_phaseshifts"),("residue conversion","add_discrete_spectrum")],
 ["q, and the forward transform of q"])

prop("G01","Fast polynomial and matrix-polynomial products are exact",
 "The fast multiplication routines return, up to the reported power-of-two scaling and rounding, the ordered product of all given polynomials or 2x2 or 3x3 polynomial matrices, for every number of factors and every degree, with normalization on or off; the reported result degree and required buffer sizes are exact.",
 ["inputs"],"all coefficient values, degrees, numbers of factors (one, two, odd, powers of two), normalization on and off",
 "Tests check one example with four and one with six or so factors per routine.",
 [PR+"fnft__poly_fmult.c","include/private/fnft__fft_wrapper.h","src/3rd_party/kiss_fft/kiss_fft.c"],
 [("product trees","fnft__poly_fmult, fnft__poly_fmult2x2, fnft__poly_fmult3x3"),("pairwise products","poly_fmult_two_polys*"),("normalization","poly_rescale")],
 ["result coefficients, degree, exponent"])

prop("G02","Polynomial evaluation and spectral factorization are correct",
 "The chirp-transform evaluation equals direct evaluation on every spiral contour and the Horner routines return the polynomial's value and derivative at every point including zero and infinity-free reciprocal points. Spectral factorization returns a polynomial with |A|^2 plus or minus |B|^2 equal to one on the unit circle, all zeros on the documented side and a positive real leading coefficient, for every admissible B, degree and oversampling.",
 ["inputs"],"all coefficient vectors, degrees, contours, evaluation points and oversampling factors",
 "Tests check one example per routine.",
 [PR+"fnft__poly_chirpz.c",PR+"fnft__poly_eval.c",PR+"fnft__poly_specfact.c"],
 [("chirp transform","fnft__poly_chirpz"),("Horner","fnft__poly_eval, fnft__poly_evalderiv"),("spectral factorization","fnft__poly_specfact")],
 ["returned values"])

prop("G03","Polynomial root finders return the roots",
 "The companion-matrix root finder returns exactly the multiset of roots of every polynomial with non-zero leading coefficient to an accuracy appropriate to their conditioning. The grid-search root finders report every simple root on the searched arc that is separated by the grid, report nothing else, and the para-hermitian variant agrees with the general one.",
 ["inputs"],"all polynomials (root sets with zero, multiple scales, conjugate pairs), degrees, arcs and grid sizes",
 "Tests check one polynomial per routine.",
 [PR+"fnft__poly_roots_fasteigen.c",PR+"fnft__poly_roots_fftgridsearch.c"],
 [("companion QR","fnft__poly_roots_fasteigen"),("grid search","fnft__poly_roots_fftgridsearch, fnft__poly_roots_fftgridsearch_paraherm")],
 ["roots, count"])

prop("H01","Layer peeling inverts fast forward scattering",
 "Fast inverse scattering applied to the transfer matrix that fast forward scattering built from a signal returns that signal, for NSE (both signs) and KdV, for every power-of-two number of samples, step size and supported discretization.",
 ["inputs","configurations"],"all signals of moderate size, step sizes, signs, numbers of samples, supported discretizations",
 "Tests invert one random-like signal per discretization and equation.",
 [PR+"fnft__akns_finvscatter_q_from_r.inc",PR+"fnft__nse_finvscatter.c",PR+"fnft__kdv_finvscatter.c",PR+"fnft__akns_fscatter.c",PR+"fnft__poly_fmult.c"],
 [("recursive layer peeling","finvscatter_recurse"),("product of two polynomial matrices","poly_fmult_two_polys2x2")],
 ["recovered samples"])

prop("I01","Filtering and merging keep exactly the right points",
 "The filters keep exactly the entries inside (or, for the inverse filter, outside) the given box, in their order, with companion arrays moved alike; the non-real filter keeps exactly the entries whose imaginary part exceeds the tolerance in magnitude; merging leaves a set in which every original point is within the tolerance chain of a kept point and no two kept points are within the tolerance. Counts are updated accordingly for every input, including empty ones.",
 ["inputs"],"all point sets, boxes and tolerances, including boundary values and infinities",
 "These routines have no tests of their own.",
 [PR+"fnft__misc.c"],[("filters","fnft__misc_filter, fnft__misc_filter_inv, fnft__misc_filter_nonreal"),("merge","fnft__misc_merge")],
 ["array and count"])

prop("I02","Signal preprocessing yields the samples each scheme needs",
 "Downsampling keeps every k-th sample with the reported first and last index and count consistent with the requested number; resampling shifts bandlimited signals exactly; and the preprocessed signal handed to scattering contains, for each discretization, the documented weighted combinations of shifted samples or derivatives, with the companion signal of the equation (conjugate, constant) consistent with it.",
 ["inputs","configurations"],"all signals, sample counts, subsampling requests and discretizations of NSE, KdV and Manakov",
 "One test checks resampling of one signal.",
 [PR+"fnft__misc.c",PR+"fnft__akns_discretization.c",PR+"fnft__nse_discretization.c",PR+"fnft__kdv_discretization.c",PR+"fnft__manakov_discretization.c"],
 [("preprocessing","akns_discretization_preprocess_signal, manakov_discretization_preprocess_signal"),("resampling","misc_resample, misc_downsample"),("weights","akns_discretization_method_weights")],
 ["preprocessed arrays, indices"])

prop("J01","Scattering matrices, derivatives and eigenfunction data agree",
 "The scattering matrix computed sample by sample has determinant one, its reported derivative is the derivative with respect to the spectral parameter, and a, its derivative and the norming constant reported at bound-state candidates agree with it, for every slow discretization, PDE and complex spectral parameter, with and without normalization.",
 ["inputs","configurations"],"all signals, step sizes, spectral parameters, discretizations, both equations, normalization on and off",
 "Tests check the second-order scheme for one signal without derivatives off the real axis.",
 [PR+"fnft__akns_scatter.c",PR+"fnft__nse_scatter.c",PR+"fnft__kdv_scatter.c"],
 [("scattering matrix","akns_scatter_matrix"),("bound state scattering","akns_scatter_bound_states"),("normalization","misc_normalize_vector")],
 ["returned matrices"])

prop("B06","Discretizations converge to the exact spectrum with documented order",
 "For signals whose nonlinear spectrum is known in closed form (hyperbolic secants for the NSE and the Manakov equation, squared hyperbolic secants for the KdV equation), the scattering coefficients, bound states and norming constants computed with every discretization approach the exact values; halving the step divides the error by at least the documented power of two down to rounding and truncation; Richardson extrapolation does no harm; and the number of bound states found equals the exact one.",
 ["inputs","configurations"],"all amplitudes, widths, positions, phases, velocities and signs of the nonlinearity of the closed-form families, all discretizations of the three equations, all step sizes fine enough to resolve the signal",
 "Tests compare a few discretizations with one hard-coded signal each against fixed error bounds.",
 [SRC+"fnft_nsev.c",SRC+"fnft_kdvv.c",SRC+"fnft_manakovv.c",PR+"fnft__akns_discretization.c",PR+"fnft__akns_fscatter.c",PR+"fnft__akns_scatter.c",PR+"fnft__manakov_fscatter.c",PR+"fnft__manakov_scatter.c"],
 [("schemes","akns_fscatter_one_step, akns_scatter_matrix, manakov_fscatter"),("sample preparation","*_discretization_preprocess_signal"),("bound state search","nsev_compute_boundstates, kdvv_compute_boundstates")],
 ["contspec, bound_states, norming constants, bound state count"])

prop("I03","Error measures, norms and elementary functions equal their definitions",
 "The relative error, the Hausdorff distance between point sets, the squared norm of a sampled signal, the hyperbolic secant, the cardinal sine and its derivative, Legendre polynomials, the next power of two and the scaling of a vector by a power of two equal their mathematical definitions to rounding for every argument, also at and near removable singularities, for points that coincide and for numbers of extreme size.",
 ["inputs"],"all complex arguments, all sets and vectors of complex numbers of any size that can be represented",
 "One test each for a few of the functions, at a handful of arguments.",
 [PR+"fnft__misc.c","include/private/fnft__misc.h"],
 [("functions","misc_rel_err, misc_hausdorff_dist, misc_l2norm2, misc_sech, misc_CSINC, misc_CSINC_derivative, misc_legendre_poly, misc_nextpowerof2, misc_normalize_vector")],
 ["returned values"])

prop("J02","Discretizations describe themselves consistently",
 "For every discretization, the reported polynomial degree, number of samples per step and order are those of the scheme; the map from frequencies to the unit circle is the documented exponential and the reverse map undoes it; the change of basis to the scattering basis is the documented one, the change from that basis is its inverse, and the reported derivatives are the derivatives of both; unknown discretizations and the singular frequency are refused.",
 ["inputs","configurations"],"all discretizations of the three equations and numbers that are not a discretization, all frequencies and step sizes, with and without derivatives",
 "Tests use these tables only through transforms of single signals.",
 [PR+"fnft__akns_discretization.c",PR+"fnft__nse_discretization.c",PR+"fnft__kdv_discretization.c",PR+"fnft__manakov_discretization.c"],
 [("tables","*_discretization_degree, *_upsampling_factor, *_method_order"),("frequency maps","*_lambda_to_z, *_z_to_lambda"),("change of basis","*_change_of_basis_matrix_to_S, *_change_of_basis_matrix_from_S")],
 ["returned numbers and matrices"])

prop("J03","Default options are the documented ones and stand in for missing options",
 "The default option object of every transform holds the documented values; a call without options, a call with an untouched default object and a call that sets an option to its documented default return the same code, results and messages; the version query reports the version and refuses missing buffers.",
 ["inputs","configurations"],"all five transforms, all options, all signals, all subsets of missing buffers",
 "Tests always modify the default options and never compare with a call without options.",
 [SRC+"fnft_nsev.c",SRC+"fnft_nsep.c",SRC+"fnft_kdvv.c",SRC+"fnft_manakovv.c",SRC+"fnft_nsev_inverse.c",SRC+"fnft_version.c"],
 [("defaults","default_opts and fnft_*_default_opts in every transform file"),("version","fnft_version")],
 ["option objects, return codes, outputs, messages"])

prop("J04","The MATLAB functions return what the C functions return",
 "Every function of the MATLAB interface, called with any combination and order of its documented option strings and any number of outputs, behaves as the C function called with the option values these strings stand for: same values, same sizes, same messages (none if quiet), and an error naming the C function and its code if that fails. Parts that are not requested or skipped are not computed. Malformed calls (wrong types, sizes, missing or unknown options) are refused with an error and no output, without crashing, and the message routine is that of MATLAB unless quiet.",
 ["inputs","configurations"],"all signals, windows, grids, all option strings in any order, all numbers of outputs, all malformed arguments, of the seven functions in matlab/",
 "The MATLAB interface is not built or tested at all unless MATLAB is installed.",
 ["matlab/mex_fnft_nsev.c","matlab/mex_fnft_nsep.c","matlab/mex_fnft_kdvv.c","matlab/mex_fnft_manakovv.c","matlab/mex_fnft_nsev_inverse.c","matlab/mex_fnft_nsev_inverse_XI.c","matlab/mex_fnft_version.c"],
 [("argument checks, option strings, outputs","mexFunction in every file")],
 ["output arrays, error messages, printed messages, message routine"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(P))
