SOLV = "src/corrct/solvers.py"
prop("C01", "Hyper-parameter batches are complete, ordered, and independent of the schedule",
     "For every list of hyper-parameter values and every scheduling of the parallel tasks, each value is reconstructed exactly once, "
     "results, losses and selected value are attributed to the value that produced them in the order given, and they equal those of the serial run. "
     "A failing reconstruction makes the whole call fail with that failure, after which no further task is started.",
     ["schedules", "inputs", "fault_sequences"],
     "all interleavings of starts and completions of up to 4 tasks over 1-3 workers, with any subset failing; all the front ends (L-curve, cross-validation, direct)",
     "The tests run one schedule, the one the machine happens to produce, and never a failing task.",
     ["src/corrct/param_tuning.py"],
     "TLC model of the task schedules; every schedule replayed through a controlled executor; recorded traces validated",
     symbols=[("parallel evaluation and slot ownership", "param_tuning.py: BaseParameterTuning._parallel_compute"), ("loss evaluation", "param_tuning.py: LCurve, CrossValidation")])
prop("C02", "Cross-validation holds test data out and scores all values on the same folds",
     "Cross-validation splits the data in disjoint test sets whose sizes differ by at most one (k-fold) or that hold the requested fraction rounded up (single mask), "
     "uses the same sets for all the hyper-parameter values, and reports for each value the mean and the standard deviation over the folds of the relative residual that "
     "the last performed iteration leaves on the held-out data. The reconstruction of a fold is never influenced by the values of its held-out data.",
     ["inputs", "configurations"],
     "all data sizes, numbers of folds, fractions, solvers, iteration counts and stopping tolerances",
     "The tests look at one phantom, where a leak of the test data or a wrong normalisation still gives plausible losses.",
     ["src/corrct/param_tuning.py", SOLV],
     "TLC model of fold construction and scoring, composed with the solver model; real runs compared fold by fold",
     symbols=[("fold masks", "param_tuning.py: CrossValidation"), ("held-out masks", "solvers.py: Solver._initialize_b_masks"), ("test residuals", "solvers.py: SolutionInfo")])
prop("C03", "Every iterate of the solvers is the one of the documented algorithm",
     "For every operator, data, initial guess, data term, regularizers, masks, limits, relaxation and number of iterations, the reconstruction returned by "
     "SIRT, SART, MLEM, PDHG and FISTA is the iterate that the algorithm prescribes. "
     "The reported residuals, held-out residuals, number of iterations and early stop by tolerance are those of these iterates.",
     ["inputs", "configurations", "histories"],
     "all configurations of the five iterative solvers, on random small problems (any sign of the operator, weights, backgrounds, several regularizers)",
     "The tests only check that the reconstruction of a phantom becomes close to it, which a wrong step, weight, momentum or residual does not prevent.",
     [SOLV, "src/corrct/data_terms.py", "src/corrct/regularizers.py"],
     "explicit TLA+ transition systems of the solvers, checked with TLC over exact reals; every behaviour compared with the real solvers",
     symbols=[("iterations", "solvers.py: SIRT, SART, MLEM, PDHG, FISTA __call__"), ("step sizes", "solvers.py: compute_diagonal_scaling, compute_Lipschitz_scaling")])
prop("C04", "A reconstruction depends on its arguments only, not on the calls made before",
     "Whatever sequence of reconstructions was made before with the same solver, regularizer, data-term or operator objects, on any data and shapes, "
     "a reconstruction gives the same result as with new objects. "
     "It leaves the arrays it is given and the results returned earlier unchanged.",
     ["histories", "inputs"],
     "all sequences of three calls over two solver objects that share regularizers, data terms and operators, with problems of different shapes",
     "Tests build new objects for every reconstruction; stale state only shows with particular sequences of calls.",
     [SOLV, "src/corrct/data_terms.py", "src/corrct/regularizers.py", "src/corrct/operators.py"],
     "TLC enumerates all the call histories of a model of the shared objects; each is replayed on real objects against the solver model",
     symbols=[("binding of the terms", "data_terms.py: assign_data"), ("binding of the regularizers", "regularizers.py: initialize_sigma_tau"), ("copies", "solvers.py: Solver.__init__")])
prop("C06", "Data terms evaluate their function, residual, and proximal operators",
     "For all data, backgrounds, weights, error sizes, steps, and masks, the residual, its norm, the dual update and the dual and primal proximals of a data term are those of its function, "
     "and the dual and primal proximals are those of one function (Moreau's identity). "
     "They depend on the last data assigned only, do not modify their inputs, and slicing a term selects the corresponding elements.",
     ["inputs", "histories"],
     "all the data terms (l2, weighted l2, l2 and l1 balls, l1, l12, Huber, Kullback-Leibler, nuclear), any re-assignment history",
     "The tests check a few properties of a few proximals with unit steps; wrong thresholds, weights or backgrounds for other steps pass.",
     ["src/corrct/data_terms.py"],
     "TLA+ definition of the terms and of the binding histories, identities checked by TLC, answers compared with the real objects",
     symbols=[("proximals", "data_terms.py: apply_proximal_dual, apply_proximal_primal"), ("residuals", "data_terms.py: compute_residual, compute_residual_norm")])
prop("C07", "Regularizers and constraints apply their operator, weight, mask, and proximal",
     "For every volume shape, axes, padding, weight (scalar or per voxel), update mask and norm, the dual update, the dual proximal, the primal update, the step-size contribution and the primal proximal "
     "of a regularizer or constraint are those of the weighted norm of its linear (gradient, Laplacian, wavelet, Fourier) or median operator. "
     "They depend on the volume they were last initialised for only, and do not modify their inputs.",
     ["inputs", "configurations", "histories"],
     "all the regularizers (with that of the singular values of the channels, over the wavelet coefficients) and both constraints; 1-3 dimensions, several channels; re-initialisation with other shapes",
     "The tests reconstruct one phantom with each regularizer, or compare one step; a wrong weight, axis, or mask is within their tolerance.",
     ["src/corrct/regularizers.py", "src/corrct/data_terms.py", "src/corrct/operators.py"],
     "TLA+ state machine of a regularizer object (operators as explicit matrices), invariants by TLC, every step compared with the real object",
     symbols=[("dual step", "regularizers.py: update_dual, apply_proximal_dual"), ("primal step", "regularizers.py: compute_update_primal, apply_proximal_primal")])
prop("C05", "Masks, limits and held-out data are respected by every solver",
     "Whatever the solver, its terms and the number of iterations, the reconstruction lies within the given limits inside the volume mask and is zero outside, "
     "and the data that are masked or held out for cross-validation have no influence on it, on its residuals, or on when it stops.",
     ["inputs", "configurations"],
     "all the solvers (SIRT, PDHG, FISTA, MLEM, SART, FBP), masks, scalar and per-voxel limits, data terms, regularizers, float32 and float64, matrix and tomographic projectors",
     "The tests use one mask each and look at the error of the whole phantom: a leak of masked data or a limit applied too early is within their tolerance.",
     [SOLV],
     "two-run (non-interference) and range invariants on the TLA+ solver model; recorded twin runs of the real solvers checked by TLC",
     symbols=[("masks", "solvers.py: Solver._initialize_b_masks and the __call__ of each solver"), ("limits", "solvers.py: clip in the __call__ of each solver")])
prop("C08", "Operators compute their map; their transpose is its adjoint or inverse",
     "For every shape, axes, padding and parameters, matrix, function, scaling, identity, gradient, Laplacian, Fourier, convolution, wavelet (stationary and decimated) and SVD operators "
     "compute their documented map, their transpose computes its adjoint (for padded or non-orthogonal wavelets and the SVD, its inverse), and their absolute value uses the absolute coefficients. "
     "Direct calls, matrix products, transposes, explicit matrices and compositions agree, any chain of transpositions and absolute values gives the same operator as its explicit matrix, "
     "and no use modifies the inputs, the results returned before, or the operators it started from.",
     ["inputs", "configurations", "histories"],
     "1-3 dimensions, odd and even sizes, single and double precision, all chains of up to three transpositions and absolute values",
     "The tests take the dot-product of random arrays on a few shapes; wrong maps with a consistent adjoint, chains and unusual axes pass.",
     ["src/corrct/operators.py", "src/corrct/projectors.py"],
     "TLA+ machine of operator handles with explicit exact matrices (adjointness, involution, isometry by TLC); every reachable handle replayed on the real operators",
     symbols=[("transforms", "operators.py: Transform* classes"), ("transposition", "operators.py: BaseTransform")])
PRJ = "src/corrct/projectors.py"
prop("C09", "Projectors apply geometry, weights, PSF and attenuation line by line",
     "For every volume, angles, intensities, point spread function, attenuation maps, detector and angle weights, the forward projection stacks, per detector and angle, the projection of the attenuated volume, scaled and blurred, "
     "and the back-projection sums that of the lines (with the attenuation, if symmetric: then it is the adjoint of an exact backend). "
     "Whole projections equal the per-angle ones, with and without threads, in and out of a with statement, after any sequence of uses, "
     "and collapsing the detectors of an attenuated projector keeps the total over them when the angle weights are equal.",
     ["inputs", "configurations", "histories", "schedules"],
     "scikit-image and matrix backends (2D and 3D), up to 3 detectors and 4 angles, all use histories up to length three, shuffled completion orders of the threads",
     "Tests compare one projector with a reference on a phantom; weights, several detectors, collapsing and attenuated back-projections are not exercised.",
     [PRJ, "src/corrct/_projector_backends.py"],
     "TLA+ machine of a projector handle with explicit projections (bilinear Radon transform, attenuation, weights); all its histories replayed on real projectors",
     symbols=[("projections", "projectors.py: ProjectorUncorrected, ProjectorAttenuationXRF"), ("backend", "_projector_backends.py: ProjectorBackendSKimage")])
prop("C10", "Attenuation maps are the transmissions of beam and emission, in any order",
     "For every local attenuation volume, rotation and detector angle, detector size and sub-sampling, the attenuation map is the transmission of the incident beam from the edge of the volume to each voxel, "
     "times the mean transmission from the voxel towards the detector over its aperture. The maps do not depend on threading or on the order in which the angles complete, "
     "selections return the requested angles and detectors, and projectors apply the same maps.",
     ["inputs", "configurations", "schedules"],
     "2D and 3D volumes of any aspect ratio, any angles, point and extended detectors, maps computed in coarser steps (at the corresponding points of the full maps), all orders of completion of up to three angles",
     "Attenuation maps are computed in one test only, on one phantom, without a reference.",
     ["src/corrct/physics/attenuation.py", "src/corrct/_projector_backends.py", "src/corrct/physics/xrf.py"],
     "TLA+ model of the maps (bilinear beams, exponentials over exact reals) and of the completion of the angles; each map compared with the real ones under replayed orders",
     symbols=[("beam attenuation", "_projector_backends.py: compute_attenuation"), ("maps", "attenuation.py: AttenuationVolume")])
MOD = "src/corrct/models.py"
prop("C11", "Geometry operations compose as rigid motions and leave other geometries alone",
     "After any sequence of shifts, source moves, tilts, rotations, slices, copies and conversions to 3D, of geometries with one or several angles, source, detector position and detector directions are those that composing these operations on "
     "the coordinates gives; detector directions stay orthonormal, and no operation changes another geometry. "
     "Scaled fields, displacements projected on the detector, and cone-beam weights (distance source-detector over source-pixel) are those of these coordinates.",
     ["histories", "inputs"],
     "parallel (2D, 3D) and cone-beam geometries, all sequences of up to three operations with random parameters (scalars, lists, arrays; one or per-angle values), up to four geometries alive",
     "The tests exercise one rotation and one shift from the default geometry; sequences, tilts, per-angle values after a rotation, and shared arrays are not.",
     [MOD],
     "TLA+ heap machine of geometries over exact reals (orthonormality, rigidity and isolation by TLC); all its histories replayed on real geometries",
     symbols=[("operations", "models.py: ProjectionGeometry"), ("construction", "models.py: get_prj_geom_parallel, get_prj_geom_cone")])
prop("C12", "Volume geometries follow the shape of the data or volume they are made from",
     "The volume geometry made from data has, whatever the order of their axes, the horizontal detector size minus the padding as X and Y and the vertical size, if any, as Z, with the same field of view at any super-sampling; "
     "the one made from a volume gives its shape back. Conversion to 3D gives a new geometry that only adds a Z axis of size one if missing. "
     "Vertical and horizontal shifts combine row by row for any layout, and inputs that leave shape or shifts undetermined are refused.",
     ["inputs", "configurations", "histories"],
     "all data formats (2-4 axes in any order), paddings (scalar, pair, array), super-samplings, volumes of 2-4 dimensions, sequences of up to three constructions and conversions",
     "The tests use square volumes and default data formats only, where swapped axes and wrong paddings do not show.",
     [MOD],
     "TLA+ machine of volume geometries (round trip, field of view, idempotence by TLC); all its histories replayed on real geometries",
     symbols=[("construction", "models.py: get_vol_geom_from_data, get_vol_geom_from_volume, combine_shifts_vu"), ("shapes", "models.py: VolumeGeometry")])
prop("C13", "Ghost imaging keeps masks and buckets together and inverts their projection",
     "The bucket values predicted by a ghost-imaging projector are the scalar products of image and encoding masks, its back-projection weights the decoding masks, and its FBP is the least-squares solution of least norm (scaled about its mean on request); "
     "ghost tomography composes this with the projections of each angle. Reordering, decomposing, or binning a mask collection keeps masks and buckets consistent (orthonormal masks after decomposition) and the original unmodified. "
     "Generated collections hold the requested number of distinct shifted patterns, and MURA decoding masks invert the encoding ones.",
     ["inputs", "configurations", "histories"],
     "masks of one or two dimensions, any number of images, 2 to more buckets than pixels, all sequences of up to three derivations; all mask generators, shift types, transmittances",
     "The tests look at the shapes of one collection, and compare no values after a decomposition.",
     ["src/corrct/struct_illum.py", "src/corrct/processing/pre.py"],
     "TLA+ machine of derived mask collections (consistency, orthonormality, normal equations, adjointness and MURA decoding by TLC); all its histories replayed",
     symbols=[("collections", "struct_illum.py: MaskCollection, reorder_masks, decompose_qr_masks"), ("generators", "struct_illum.py: MaskGenerator*"),
              ("projectors", "struct_illum.py: ProjectorGhostImaging, ProjectorGhostTomography")])
prop("C14", "Measures on images are those of their definition, for every shape and axes",
     "Azimuthal profiles share every pixel between its two nearest radii and keep the total, circular masks and balls contain the pixels within their radius (averaged over the sub-pixels, with the given taper), and binning gives the means over the blocks. "
     "Normalised correlations are bounded by one and have their peak at zero lag for equal images; Fourier ring correlations, their threshold, power spectra, widths of spots, crossings of curves, centers of mass, "
     "bias and variance maps, and scale and bias of an image against its projections are those of their definitions, and no input is modified.",
     ["inputs", "configurations"],
     "images of 1-3 dimensions, odd and even sizes, any subset of the axes (positive and negative), all norms, tapers, super-samplings, full and same-size correlations, any limits of the crossings",
     "Only circular masks and the azimuthal integration of one image are tested; resolution measures have no reference at all.",
     ["src/corrct/processing/misc.py", "src/corrct/processing/post.py", "src/corrct/processing/pre.py", "src/corrct/struct_illum.py"],
     "TLA+ definitions over exact reals (Cauchy-Schwarz, mass conservation, bias-variance decomposition, normal equations by TLC); each instance compared with the real functions",
     symbols=[("masks, profiles, correlations", "misc.py: circular_mask, ball, azimuthal_integration, norm_cross_corr, lines_intersection"), ("resolution and errors", "post.py")])
prop("C15", "Pre-processing gives the corrected projections, backgrounds and weights",
     "Flat-field correction is the ratio of projections and mean flat-field, both without the mean dark (so it does not depend on the units), then capped and linearised on request; padding, shifts and rotations move each projection by its own amount, "
     "and periodic shifts can be undone. Backgrounds are the least-squares polynomial of the margins or the iterated clipping of the image (never above it), eigen flat-fields the leading component of the logarithms; destriping removes from the wavelet details of the detector what is constant along the angles, for any order of the axes. "
     "Poisson variances propagate to ratios, and weights are inverse variances above the threshold, never larger for larger variances, and zero outside the mask.",
     ["inputs", "configurations"],
     "stacks of two or three dimensions, 0-3 flats and darks, any axis, padding mode, shift, angle, margin, polynomial order, window, mask; integers and floats",
     "Only a padding and a background from constant margins are tested.",
     ["src/corrct/processing/pre.py", "src/corrct/processing/noise.py"],
     "TLA+ definitions over exact reals (unit invariance, reversibility, normal equations, monotony by TLC); each instance compared with the real functions",
     symbols=[("pre-processing", "pre.py: pad_sinogram, apply_flat_field, shift_proj_stack, snip, background_from_margin, destripe_wlf_vwu"), ("variances", "noise.py")])
ALI = "src/corrct/alignment/"
prop("C16", "Displacements of images, centers of rotation and re-centering shifts are found",
     "Shifts between images are where their circular cross-correlation (of values or of phases) is largest, or their distance smallest, refined by the parabola through the neighbours: images moved by whole pixels give their displacement back, for any size, layout and order of the angles, and turned images their quarter turns. "
     "From them, detector shifts leave no sinusoid, larger shifts than allowed count as zero, opposite projections give the center of rotation, rows its tilt, profiles and centers of mass the pre-alignment. "
     "Re-centering shifts move a volume to the requested place as seen from every angle, and no input is modified.",
     ["inputs", "configurations"],
     "lines, images and volumes of odd and even sizes, stacks along any axis, padding, margins, 1-2 detectors, sorted and unsorted angles, both rotation directions",
     "Only two fits of one phantom are tested; other sizes, orders, axes, and the center of rotation never.",
     [ALI + "fitting.py", ALI + "shifts.py", ALI + "markers.py"],
     "TLA+ definitions over exact reals (recovery of displacements, symmetry, orthogonality to the sinusoids by TLC); each instance compared with the real fits",
     symbols=[("displacements", "alignment/fitting.py: fit_shifts_vu_xc, fit_shifts_zyx_xc, fit_shifts_u_sad, fit_camera_tilt_angle, fit_image_rotation_and_scale"), ("alignment", "alignment/shifts.py: DetectorShiftsPRE, DetectorShiftsXC, RecenterVolume")])
prop("C17", "Fits of extrema, sinusoids and ellipses are exact on their own functions",
     "The minimum of a sampled function is that of the parabola through its smallest value and the neighbours, within the range, or the smallest measured point if there is none (likewise for the loss of hyper-parameters, taken from ranges that cover the interval); sub-pixel extrema in one and two dimensions are those of the quadratic of least squares, "
     "and are refused outside of the samples. Sinusoids, ellipses and the common point of chords are those of least squares (exact functions are recovered, with or without rescaling), and an ellipse gives its own extremes and points. "
     "Least-absolute fits are never worse, in their norm, than the least-squares ones.",
     ["inputs", "configurations"],
     "any sampling (uniform or not), linear or logarithmic, any rounding, 1-3 dimensions of the peaks, wrap-around, exact and noisy ellipses at any position and tilt",
     "Only the L-curve minimum of a phantom and one circle centered on the detector are tested.",
     [ALI + "fitting.py", "src/corrct/param_tuning.py"],
     "TLA+ definitions over exact reals (refinement, recovery, tangency by TLC); each instance compared with the real fits; recorded fits judged by TLC",
     symbols=[("extrema", "alignment/fitting.py: fit_parabola_min, refine_max_position_1d, refine_max_position_2d, extract_peak_region*"), ("curves", "alignment/fitting.py: fit_sinusoid, fit_ellipse*, Ellipse")])
prop("C18", "Cone-beam calibration gives back the geometry that produced the orbits",
     "The projection geometry of a cone-beam acquisition has orthonormal detector axes, the source at the given distance over the given point, and, if centered, the axis of rotation at height zero in the middle of the detector. "
     "Calibration from the projections of two circular orbits gives back the distances, angles and offsets of the geometry that produced them, for any orbit sense and side of the source, refuses swapped orbits, and neither depends on earlier calibrations nor changes them. "
     "Updates give new objects and saving then loading gives an equal one, in any sequence.",
     ["inputs", "configurations", "histories"],
     "any distances, tilts, offsets and orbits (source between them or not, measured axis or distance); all sequences of two or three updates, sweeps and loads",
     "The tests cover an ideal, untilted and centered detector only.",
     [ALI + "cone_beam.py", ALI + "fitting.py"],
     "TLA+ model of acquisition and calibration (round trip proved by TLC on every instance) and of the objects; all the orbits and histories it generates replayed on the real code",
     symbols=[("geometry", "alignment/cone_beam.py: ConeBeamGeometry"), ("calibration", "alignment/cone_beam.py: FitConeBeamGeometry")])
prop("C19", "FBP filters are linear convolutions with their kernels, classic or fitted",
     "Filtering is the convolution of each line, continued by the padding mode, with the kernel of the filter: the same for real or complex transforms, and for kernels given in real or Fourier space, one or more, on the same object used with data of any size. "
     "Classic kernels are the band-limited ramp scaled by the angular step, damped by their window; data-driven kernels are, in the span of their basis, those of least projection (and smoothness) error. "
     "FBP back-projects the filtered, weighted data, then clips and masks.",
     ["inputs", "configurations", "histories"],
     "sinograms of 2-33 pixels in two or three dimensions, random kernels (also asymmetric), all the padding modes and windows, binning types, orders, wavelets, smoothing, sequences of sizes",
     "Only the reconstruction of one phantom with the default filters is tested.",
     ["src/corrct/filters.py", "src/corrct/solvers.py"],
     "TLA+ definitions over exact reals (linearity, symmetry, damping, orthogonality by TLC); each instance compared with the real filters; fitted kernels judged by TLC (normal equations)",
     symbols=[("filters", "filters.py: Filter*, create_basis, create_basis_wavelet"), ("reconstruction", "solvers.py: FBP")])
prop("C20", "X-ray physics: materials add up, in consistent units, at every voxel",
     "Wavelengths and energies are reciprocal in any units; attenuation, phase shift, element mass, Compton and fluorescence production of each voxel are the sums over the materials of fraction times density times the cross-section of the composition, by the voxel size and the part of the sphere the detector sees, for any type of fractions, and single compounds have the same coefficients. "
     "Mean line energies are weighted by the radiation rates, and parallax is reported when the solid angles differ over the sample. "
     "Beam profiles are the normalised overlap of pixels and beam, and phase retrieval divides images continued by their edges by the propagation response (uniform images do not change).",
     ["inputs", "configurations"],
     "volumes of 1-3 dimensions, 1-3 known or own compounds, floats, integers and booleans, all units and line families, beams of all shapes, images and stacks of any size, both responses",
     "No test covers the physics package, beyond one attenuation map.",
     ["src/corrct/physics/materials.py", "src/corrct/physics/units.py", "src/corrct/physics/phase.py", "src/corrct/physics/xrf.py", "src/corrct/physics/xraylib_helper.py", "src/corrct/physics/__init__.py"],
     "TLA+ definitions over exact reals (reciprocity, conservation of mass, symmetry, limits by TLC); each instance compared with the real functions; atomic data from xraylib",
     symbols=[("materials", "physics/materials.py: VolumeMaterial"), ("propagation", "physics/phase.py: get_propagation_filter, apply_propagation_filter"), ("beams", "physics/__init__.py: pencil_beam_profile")])
prop("C21", "Simulated readings follow the models of acquisition and noise",
     "Fluorescence sinograms are the attenuated, blurred projections of the phantom (with or without attenuation and PSF), times flux, time and efficiency, at the angles and with the expected phantom that are returned; transmission ones are the exponentials of minus the projections, times the flux, with their flat field. "
     "Noise keeps the expected values: the background adds its average, counts are whole numbers with Poisson variance, none where none is expected, and read-out noise has its variance. "
     "Phantoms of materials give each voxel the yield and attenuation of the phase of its grey level.",
     ["inputs", "configurations"],
     "phantoms of 2-5 pixels, any angles, attenuation in or out or both, 1-2 detectors, PSFs, noise of each type and their combinations, phases by random grey levels, all elements and lines",
     "The simulation functions are used by the tests to make data, but never judged.",
     ["src/corrct/testing.py"],
     "TLA+ definitions over exact reals (attenuation only dims, Beer-Lambert bounds, absent elements by TLC); each instance compared with the real functions; recorded noise judged by TLC",
     symbols=[("simulation", "testing.py: create_sino, create_sino_transmission, add_noise"), ("phantoms", "testing.py: phantom_assign_concentration, phantom_assign_concentration_multi")])
prop("C22", "Denoising is the minimisation it states, with the cross-validated weight",
     "A denoised image is the iterate of the primal-dual algorithm on the (weighted) least squares between the blurred result and the image, with the given regularizer and limit, started from the image, that is never modified. "
     "With several weights, each is tried on the same sets of held-out pixels, which start from the median of their surroundings and are not fitted; the one returned and used is at the minimum of the average relative losses.",
     ["inputs", "configurations"],
     "images of 2-13 pixels per side, random PSFs (also asymmetric), weights of pixels, limits, regularizers, 1-5 weights of regularization, iterations 1-6",
     "Denoising is not tested at all.",
     ["src/corrct/denoisers.py", "src/corrct/solvers.py", "src/corrct/param_tuning.py"],
     "TLA+ state machine of the solvers, and definitions of starts and losses (transposition, minimum by TLC); results and recorded cross-validation rounds compared with its behaviours",
     symbols=[("denoising", "denoisers.py: denoise_image"), ("selection", "param_tuning.py: CrossValidation, fit_func_min")])

prop("C23", "GPU backends project by the stated geometry, and release what they allocate",
     "Projections by the ASTRA backends (traditional and direct, 2D and 3D, parallel and cone beam, any voxel size, detector shape, shifts and tilt) put each voxel where the rigid motion of the geometry puts it on the detector, with results of the announced shape for all angles and for single ones, and back-projections are their adjoint; the inputs and the geometry of the caller are not modified. "
     "After any sequence of set-ups, projections, refused calls and failures of the device, no data stays on the device, no projector is used or deleted twice, and closing or dropping the projector leaves nothing allocated.",
     ["inputs", "configurations", "histories", "fault_sequences"],
     "volumes up to 8 voxels per side with voxel sizes 1/3-2, 1-3 angles, random geometries; histories of up to 4 operations (set, make ready, dispose, project, refused data, failure at any call of the device, deletion) on 1-2 geometries; plain and attenuated projectors on top, with intensities and PSFs",
     "No test runs these backends: they need a GPU and the astra toolbox.",
     ["src/corrct/_projector_backends.py", "src/corrct/projectors.py", "src/corrct/models.py"],
     "TLA+ state machine of the life of a backend, with device failures, and exact model of the projection; all behaviours replayed (TLC) on the backends over a stand-in for the astra toolbox that books every resource",
     note="The astra toolbox and a GPU are not available here: the backends run on a stand-in with the conventions of the toolbox, that splats voxels on the detector. What the real toolbox computes is not judged.",
     symbols=[("ASTRA backend", "_projector_backends.py: ProjectorBackendASTRA"), ("direct backend", "_projector_backends.py: ProjectorBackendDirectASTRA")])
prop("C24", "Tuning a cone-beam geometry keeps the best fit to the data, in the range tried",
     "Each parameter in turn takes the values given, around its present one, and keeps the one whose geometry, centered, leaves the smallest residual of the (masked) data after reconstruction, refined by a parabola where it is convex and its minimum is in the range. "
     "The next parameters start from the tuned geometry, and all the others stay as they were. "
     "The initial geometry, the data and the values are not modified, and nothing stays on the device.",
     ["inputs", "configurations", "histories"],
     "random geometries with 2-4 pixels per side and 6-8 angles; one to three of the parameters tuned in sequence over 3-5 values, with and without mask",
     "No test runs it: it needs a GPU and the astra toolbox.",
     [ALI + "cone_beam.py", ALI + "fitting.py", "src/corrct/models.py"],
     "TLA+ model of the tuning (candidate geometries, choice and refinement of the minimum) replayed on the real function over a stand-in for the astra toolbox",
     note="The residuals of the candidates are those that the SIRT solver of the code (decided by C03) leaves on the projection matrices of the specification; choices that differ by less than a thousandth are skipped.",
     symbols=[("tuning", "alignment/cone_beam.py: tune_acquisition_geometry")])
prop("C25", "Reporting options and earlier calls do not change answers",
     "What a call of the library returns depends on its arguments and on the state that is documented to persist only: asking it to report (verbose, plots, progress), repeating it, or making other calls of the library before it gives the same answer, and so do alternative wordings of its arguments. "
     "A call that is not asked to report prints and draws nothing. "
     "No call changes the arguments it is given nor the answers of earlier calls, and a caller that writes over an answer does not change later ones.",
     ["histories", "configurations"],
     "all sequences of up to three calls (silent or reporting, with the caller overwriting answers in between) within sixteen families of calls, on random small data",
     "The tests never compare two calls of the same function, and never look at what is printed, drawn, or left in the arguments.",
     ["src/corrct/param_tuning.py", "src/corrct/solvers.py", "src/corrct/filters.py", "src/corrct/processing", "src/corrct/physics", "src/corrct/alignment", "src/corrct/models.py"],
     "TLA+ machine of sessions: TLC enumerates the sequences of calls, they are played on the real library, and TLC judges the recorded traces",
     note="Answers are compared with those of fresh objects, to a hundred-thousandth (alternative wordings: a ten-thousandth) of their largest value; calls that draw at random are started from the same seed.",
     symbols=[("reports", "param_tuning.py: fit_func_min, LCurve, CrossValidation"), ("plots", "filters.py: plot_filter_responses"), ("errors", "processing/post.py: compute_reconstruction_error"), ("kept state", "filters.py: Filter, FilterMR; physics/materials.py: VolumeMaterial")])
prop("C26", "What cannot be computed is refused, and refusing changes nothing",
     "A request that the library cannot answer (unknown names, terms a solver does not minimise, regularizers without the proximal it needs, data, angles, detectors, weights, maps or masks that do not fit each other, operations before their time) ends in an exception instead of an answer, and any combination of arguments that fit is answered. "
     "A refused operation leaves the objects as they were: what follows is what it would be had it not been tried. "
     "No request, refused or answered, writes to the arrays it is given.",
     ["inputs", "histories", "configurations"],
     "all combinations of the kinds of arguments of 42 entry points (about 1600 requests), and all sequences of up to four accepted and refused operations on hyper-parameter tuners, regularizers, projection geometries and spectral transforms",
     "The tests only make requests that can be answered; which combinations are refused is a verdict over products of argument kinds, and what an object holds after a refusal takes a history to see.",
     ["src/corrct/solvers.py", "src/corrct/projectors.py", "src/corrct/models.py", "src/corrct/regularizers.py", "src/corrct/param_tuning.py", "src/corrct/physics/attenuation.py", "src/corrct/struct_illum.py", "src/corrct/alignment", "src/corrct/processing"],
     "TLA+ verdicts of all requests and machine of guarded objects where refusals are stuttering steps (TLC); every request made, and every session played with and without its refusals, on the real library",
     note="ValueError, NotImplementedError and TypeError count as refusals. The kinds of arguments are those of the specification (names, shapes, multiplicities), with small random values.",
     symbols=[("unsupported terms", "solvers.py: Solver._initialize_data_fidelity_function, PDHG, FISTA"), ("geometry guards", "models.py: ProjectionGeometry.set_detector_shifts_vu"), ("tuner guards", "param_tuning.py: BaseParameterTuning.task_exec_function"), ("operation before initialisation", "regularizers.py: BaseRegularizer")])
