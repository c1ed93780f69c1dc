import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=m, where=w) for m, w in mech], observe_at=observe, hook_needed=None)))

K = ["forcepho/src/compute_gaussians_kernel.cc", "forcepho/src/common_kernel.cc", "forcepho/src/matrix22.cc", "forcepho/src/patch.cc", "forcepho/src/proposal.cu"]
p("C01", "Compiled likelihood equals the documented forward model",
  "For any patch and scene proposal, the compiled CPU kernel's chi^2 and residuals equal the documented model: for every band, exposure and pixel, the residual is the data minus the sum over sources of the PSF-convolved Gaussian mixture (flux x mixture weight x PSF weight x counts factor, shape from the source's q, pa, half-light radius and Sersic mixture, mapped through that source's and exposure's own astrometry, with the second-order pixel-integration correction), and chi^2 is the sum over pixels of ((residual/err)^2 - (data/err)^2). Contributions are dropped only where a Gaussian's exponent argument exceeds the documented cutoff (36).",
  ["inputs", "configurations"], "All source parameters, pixel positions, data, errors, coordinate matrices, PSF components and mixture weights; all small numbers of bands, exposures, sources, radii and PSF Gaussians.",
  "No stable test asserts a pixel value; demos only check that scripts run. A swapped index or sign for the second source, band or exposure is invisible to them.",
  K + ["forcepho/proposal.py", "forcepho/patches/patch.py"],
  [("EvaluateProposal", "forcepho/src/compute_gaussians_kernel.cc"), ("SetupImageGaussian / GetGaussianAndJacobian", "forcepho/src/common_kernel.cc")],
  ["CPUProposer.evaluate_proposal return values"])
p("C02", "Compiled gradients are exact derivatives of the compiled chi^2",
  "For any patch and proposal (away from the exponent cutoff), the derivative array the compiled kernel returns for band b, source s, parameter j is exactly the partial derivative of that band's chi^2 with respect to that source's flux in the band, ra, dec, q, pa, Sersic index and half-light radius, in that order, where the mixture amplitudes' own dependence on Sersic index and radius enters through the supplied amplitude derivatives.",
  ["inputs", "configurations"], "All parameter values, data, errors, PSFs, astrometry; multiple bands, exposures, sources and mixture components.",
  "The gradient check scripts in tests/ are not run as assertions; a wrong gradient only degrades HMC efficiency, which no test measures.",
  K, [("accumulated dchi2_dp", "forcepho/src/compute_gaussians_kernel.cc"), ("GetGaussianAndJacobian, matrix22 derivatives", "forcepho/src/common_kernel.cc")],
  ["CPUProposer.evaluate_proposal derivative array"])
p("C03", "Host and kernel agree on layout; kernel stays inside its buffers",
  "For any patch packed by the Python side, evaluating a proposal reads only memory belonging to that patch and proposal, writes only the requested bands' outputs (chi^2, derivatives and, when enabled, the residuals of those bands' exposures), leaves data, errors and all patch arrays untouched, and every field the host packs is the field the kernel reads.",
  ["inputs", "configurations"], "All patch shapes within the compiled limits: numbers of bands, exposures per band (including zero), pixels, sources, PSF Gaussians; residual output on or off.",
  "Layout mismatches and stray writes silently corrupt values; tests only exercise one or two shapes and do not inspect untouched memory.",
  K + ["forcepho/patches/device_patch.py", "forcepho/sources.py", "forcepho/proposal.py", "forcepho/kernel_limits.py"],
  [("PatchBase.patch_struct_dtype / source_struct_dtype", "forcepho/patches"), ("struct Patch, Source, PSFSourceGaussian", "forcepho/src")],
  ["memory images before and after EvaluateProposal"])
p("C04", "Pure-Python renderer matches the model and has exact gradients",
  "For any source, stamp astrometry and PSF mixture, the Python (slow) image Gaussians have amplitude, center and covariance equal to the sky Gaussian mapped through the stamp's scale and CW matrices and convolved with the PSF, the slow pixel counts are the documented Gaussian with second-order pixel-integration correction, and every returned gradient (of counts, of the image Gaussians, of the rendered image and of the slow log-likelihood with respect to source parameters, in its own slot) is the exact partial derivative. The slow log-likelihood is minus half the chi^2 of the data minus all sources, active and fixed, over all stamps, and residual images are data minus model at the queried parameters.",
  ["inputs"], "All source shapes and positions, coordinate matrices, PSF components, pixel coordinates and data values.",
  "The slow path is used by demos only for plotting; no test asserts values or derivatives over the parameter space.",
  ["forcepho/slow/gaussmodel.py", "forcepho/slow/likelihood.py", "forcepho/sources.py"],
  [("convert_to_gaussians, get_gaussian_gradients, compute_gaussian", "forcepho/slow/gaussmodel.py"), ("lnlike_multi, make_image", "forcepho/slow/likelihood.py")],
  ["return values of the slow renderer and likelihood"])
p("C05", "Posterior combines likelihood, prior and volume element correctly",
  "For any sampling vector z and any kernel response, the log-probability is -1/2 the sum of the per-band chi^2 plus the ln-prior, plus ln|dq/dz| only when sampling; its gradient is ordered exactly like the parameter vector (per source: that source's flux gradients in band order, then its six shape gradients summed over bands), chain-ruled through the transform and including the gradients of the prior and of the volume term. The negative log-likelihood forms are its exact negation divided by ndof, and the returned residuals belong to the queried parameters.",
  ["inputs", "configurations"], "All z, chi^2 and derivative values; any number of bands and sources; sampling on or off; with and without prior.",
  "Tests never compare the assembled gradient with the assembled probability.",
  ["forcepho/model.py"], [("FastPosterior.evaluate, stack_grad, nll", "forcepho/model.py"), ("SlowPosterior.evaluate", "forcepho/model.py")],
  ["lnprob, lnprob_grad, lnprob_and_grad, nll"])
p("C06", "Posterior answers depend only on the queried point, not on call history",
  "For every sequence of queries of the posterior (probability, gradient, both, or negative log-likelihood, at new, repeated or in-place modified parameter vectors, with residual requests interleaved), each answer is the one a fresh posterior would give at the same point, and the likelihood is re-evaluated only when the point changed.",
  ["histories", "inputs"], "All sequences of up to a few calls with symbolic parameter vectors, including a caller that reuses and mutates its vector in place.",
  "Caching bugs need a particular sequence of calls; tests use samplers that always pass fresh arrays.",
  ["forcepho/model.py"], [("cached _z, _lnp, _lnp_grad", "forcepho/model.py Posterior")], ["lnprob, lnprob_grad, lnprob_and_grad, nll over histories"])
p("C07", "Bounded transform is a bijection onto the bounds with exact Jacobian",
  "For every finite z and every pair of lower < upper bounds, the transform maps z strictly inside the bounds, the inverse transform undoes it in both directions, the Jacobian is dq/dz (strictly positive), lndetjac is ln|det dq/dz| and its reported gradient is the exact gradient. Where hard constraints are enforced by reflection, the reflected position lies within them, is the mirror image of the trajectory, and the momentum sign flips once per reflection.",
  ["inputs"], "All z and bounds within stated ranges, any number of parameters.",
  "The demos only exercise the transform implicitly at sampled points.",
  ["forcepho/model.py"], [("BoundedTransform", "forcepho/model.py")], ["Transform and BoundedTransform methods"])
p("C08", "Checked-out regions never share active sources and respect limits",
  "Whatever regions are already outstanding, a successful checkout returns active sources none of which is active in another outstanding region, no duplicates, no source both active and fixed, at most the configured maximum active (and fixed) sources (friends-of-friends scenes include the requested seed); it flags exactly the returned active sources as active, flags active and fixed ones as not valid, adds exactly their numbers to the counters, and returns copies of the current catalog rows. When a checkout fails it changes nothing, and a randomly drawn seed is never a source that is active in an outstanding region (unless all are), and sources with fewer iterations are favoured.",
  ["histories", "inputs"], "All source layouts, radii, prior outstanding checkouts, seeds and limits, within small catalogs, for both the circular and friends-of-friends scene builders.",
  "Exclusivity violations need particular geometries of concurrent checkouts; tests check out one region at a time.",
  ["forcepho/superscene.py"], [("is_active / is_valid flags", "forcepho/superscene.py checkout_region"), ("grow_scene, get_circular_scene", "forcepho/superscene.py"), ("seed_weight", "forcepho/superscene.py")],
  ["checkout_region return value and master catalog"])
p("C09", "Check-in updates exactly the checked-in rows and undoes the checkout",
  "Checking in a region writes every flux and shape parameter of each active source into that source's own row of the master catalog (matched by source index, in any row order), adds the iteration and patch counts, clears its active flag and restores validity of active and fixed sources, restores the counters, stores that source's covariance block and new bounds when given, and leaves every other row, its bounds and covariance unchanged.",
  ["histories", "inputs"], "All parameter values, row orders, subsets of sources, iteration counts, with and without fixed sources, covariances and new bounds.",
  "Index mix-ups only show with permuted or partial check-ins and value inspection, which no test does.",
  ["forcepho/superscene.py"], [("checkin_region", "forcepho/superscene.py"), ("bounds_and_covs", "forcepho/superscene.py")], ["master catalog, bounds_catalog, covariance_matrices, counters"])
p("C10", "Friends-of-friends groups are connected components; regions enclose them",
  "For any positions and radii of influence (not exceeding the boundary radius), two sources are in the same group exactly when a chain of overlapping circles of influence joins them, each source is in exactly one group, listings have no duplicates and include the seed, overlap queries return exactly the sources whose circle intersects the query circle (nearest first when sorted), and a checked-out region's circle contains the influence circle of every active source plus the buffer.",
  ["inputs"], "All source positions and radii in small catalogs; all seeds.",
  "The grouping code is only exercised on one catalog, with no assertion on membership.",
  ["forcepho/superscene.py"], [("grow_source, find_overlaps, make_group_catalog, grow_scene", "forcepho/superscene.py LinkedSuperScene")], ["grow_source, make_group_catalog, find_overlaps, checkout region"])
p("C11", "Scene parameter vector, sources, catalog and proposal agree",
  "For any scene, setting the flat parameter vector and reading it back is the identity; each entry lands in the documented slot (per source: fluxes in band order, ra, dec, q, pa, Sersic, half-light radius) of exactly its own source, in the catalog export and in the kernel proposal; with parameter-index lookups pointing at the same slots and the catalog export keeping full precision. The proposal's mixture amplitudes and their derivatives are the source's spline evaluations at its own Sersic index and radius.",
  ["inputs", "configurations"], "All parameter values; any small number of sources and bands, per-source band orders.",
  "Round trips over arbitrary vectors and multi-source, multi-band scenes are not asserted.",
  ["forcepho/sources.py"], [("Scene.set_all_source_params / get_all_source_params / get_proposal / to_catalog", "forcepho/sources.py"), ("Galaxy.set_params / get_param_vector / proposal", "forcepho/sources.py")], ["Scene and Galaxy methods"])
p("C12", "Chains map back to catalogs with the right source, band and sky position",
  "For any chain of sampled vectors, the structured chain and any single-sample catalog give, for every source and parameter name, exactly the column of the vector that the scene ordering assigns to it, with ra and dec offset by the patch's reference coordinates, and with non-sampled columns of the starting catalog preserved; the best sample is the one of highest probability. The bounds vectors given to the sampler follow the same ordering and offset; combined objects' chains are per-sample sums of fluxes and means of positions; a source's coordinates survive zeroing and restoring the reference coordinates.",
  ["inputs", "configurations"], "All chain values, reference coordinates, numbers of sources, bands and iterations.",
  "No test checks the ordering beyond a single source/band.",
  ["forcepho/utils/chain.py", "forcepho/utils/catalog.py", "forcepho/superscene.py", "forcepho/fitting.py", "forcepho/patches/patch.py"],
  [("make_chaincat, get_sample_cat", "forcepho/utils"), ("bounds_vectors", "forcepho/superscene.py"), ("zerocoords/unzerocoords", "forcepho/patches/patch.py")], ["make_chaincat, get_sample_cat, bounds_vectors, Result.fill"])
p("C13", "Prior bounds strictly bracket the starting parameters",
  "For every catalog (with positive uncertainties), automatically generated bounds satisfy lower < upper and strictly contain the starting fluxes and positions (positions within the requested angular half-widths, converted with cos(dec) for ra); flux bounds admit positive fluxes and have the requested half-width; adjusting bounds only widens them and leaves fluxes inside; and the bounds check accepts a catalog exactly when every parameter is strictly inside its bounds.",
  ["inputs"], "All fluxes (positive, zero, negative), uncertainties, precision matrices, positions and options within stated ranges.",
  "Zero and negative fluxes, per-source position widths and bound edges are not covered by tests.",
  ["forcepho/superscene.py"], [("make_bounds, flux_bounds, adjust_bounds, check_bounds", "forcepho/superscene.py")], ["bounds catalogs and exceptions of check_bounds"])
p("C14", "Superpixel storage is a lossless, coordinate-faithful reordering",
  "For any image, mask and error array, the stored superpixel arrays contain every pixel's (data, inverse error) exactly once at the position whose recorded coordinates are that pixel's own (x, y), masked or bad pixels get zero weight, and the recorded superpixel corners bound exactly the pixels stored in that superpixel.",
  ["inputs", "configurations"], "All pixel values, masks and (small) image and superpixel shapes, square and non-square.",
  "A transposed axis is invisible on symmetric test images.",
  ["forcepho/patches/storage.py"], [("PixelStore.superpixelize, pixel_coordinates, superpixel_corners, add_exposure", "forcepho/patches/storage.py")], ["PixelStore data, xpix/ypix, corners"])
p("C15", "Patch packing keeps pixels, exposures and bands aligned, bad pixels weightless",
  "For any set of exposures in any number of bands, packing a patch gives contiguous, ordered bookkeeping (each band's exposures and each exposure's pixels are exactly the ones packed for it, including bands with no data), each packed pixel keeps its own data, inverse error and coordinates, padded pixels and pixels read with non-finite data or error have zero weight, finite errors map to their reciprocal (up to the requested S/N cap, which only ever lowers weights), and source astrometry and PSF tables are stored at the exposure/source slot the kernel reads. An exposure is selected for a region when a corner of the region's bounding box falls within it.",
  ["inputs", "configurations"], "All pixel values, errors, flags, exposure sizes and band assignments within small shapes.",
  "Padding, NaN pixels, missing bands and unequal exposure sizes are not asserted.",
  ["forcepho/patches/pixel_patch.py", "forcepho/patches/patch.py", "forcepho/patches/static_patch.py"], [("pack_pix, find_pixels, pack_meta, pack_astrometry, pack_psf", "forcepho/patches")], ["packed patch arrays"])
p("C16", "Region containment and overlap geometry is exact",
  "For any circle or polygon and any (convex) pixel corners, the polygon-overlap and point-in-polygon decisions are true exactly when the shapes intersect or the point is inside, are symmetric and invariant under vertex order, and a region reports a superpixel as (partly) contained whenever any of its corners, as mapped on the sky, lies within the region, and does not report ones that lie entirely away from it (touching boundaries excepted). An exposure is selected for a sky position exactly when the position falls within its footprint, using both image dimensions.",
  ["inputs"], "All vertex and point coordinates, circle centers and radii within stated boxes.",
  "The doctest checks three fixed triangles.",
  ["forcepho/region.py"], [("CircularRegion, RectangularRegion, polygons_overlap, polygon_contains", "forcepho/region.py")], ["region methods"])
p("C17", "Image reconstruction puts each pixel value at its own coordinates",
  "For any list of pixel coordinates and values (in any order, including zero-weight padding entries), reconstructed data, model and residual images hold each valid value at exactly its (x, y) location, relative to the declared origin, leave all other pixels at the fill value, and are independent of the order of the list; every exposure gets its own image.",
  ["inputs"], "All small pixel lists, values, orders and padding.",
  "No test inspects reconstructed images; padding corrupts one corner pixel.",
  ["forcepho/utils/__init__.py", "forcepho/postprocess.py", "forcepho/utils/io.py"], [("populate_image / fill_images", "forcepho/postprocess.py")], ["returned images"])
p("C18", "Subtracting fixed sources removes exactly their model, in any grouping",
  "For any fixed (and large) source catalogs, subtracting them from a patch leaves data minus the summed model of those sources for every pixel, regardless of how many sources per batch are sent to the device, including none, after which the patch is set up for the active sources with coordinates referenced once. Rendering a scene through the patch gives that scene's model image.",
  ["inputs", "configurations"], "All source counts relative to the batch size, all pixel values and models.",
  "Only one batch size is exercised and the result is not asserted.",
  ["forcepho/patches/device_patch.py"], [("subtract_fixed, prepare_model", "forcepho/patches/device_patch.py")], ["patch data/residual arrays after subtraction"])
p("C19", "Linear flux solution is the weighted least-squares optimum",
  "For any design matrix, residual and weights with full rank, the linear flux optimisation returns the fluxes that zero the gradient of chi^2 in each band and the precision matrix that is the Hessian of chi^2/2, with zero-weight pixels ignored and each band using only its own pixels.",
  ["inputs"], "All data, weights, templates and prior subtracted models within small sizes.",
  "Tests do not check optimality.",
  ["forcepho/fitting.py", "forcepho/patches/device_patch.py"], [("optimize_one_band, design_matrix", "forcepho/fitting.py")], ["optimize_fluxes, optimize_one_band"])
p("C20", "Local astrometry matrices are the derivatives of the WCS",
  "For any locally affine WCS and reference position, the CW matrix is d(pixel)/d(ra, dec), the scale matrix is d(pixel)/d(arcsec on the sky, with cos(dec) for ra), the reference pixel is the pixel of the reference position, and sky-to-pixel conversions through them agree with the WCS.",
  ["inputs"], "All affine WCS coefficients (including shear, flips, rotations) and sky positions away from the poles.",
  "Tests use one square, axis-aligned WCS, where transposes are invisible.",
  ["forcepho/utils/wcs.py", "forcepho/patches/pixel_patch.py"], [("scale_at_sky, sky_to_pix, make_wcs", "forcepho/utils/wcs.py")], ["scale_at_sky, sky_to_pix"])
p("C21", "Position-angle conversion preserves orientation and range",
  "For every input angle, position-angle conversion returns an angle within [-pi/2, pi/2] describing the same orientation modulo pi (plus the requested 90-degree rotation and reversal); catalog rectification clips every shape parameter into its requested range, preserves parameters already inside, and copies all other columns.",
  ["inputs"], "All angles within a few turns, all option combinations, all catalog values.",
  "Only small angles are used in the demos.",
  ["forcepho/superscene.py"], [("convert_pa, rectify_catalog", "forcepho/superscene.py")], ["convert_pa, rectify_catalog"])
p("C22", "Prior functions return the exact gradient of what they return",
  "For every parameter vector strictly inside its bounds, the edge-barrier prior's ln-probability is the sum over parameters of a penalty that is symmetric between the bounds, falls off only near them and as steeply as configured, and its gradient is the exact derivative of it. The default prior is flat with zero gradient.",
  ["inputs"], "All parameter vectors, bounds and shape options.",
  "No test evaluates the priors.",
  ["forcepho/priors.py"], [("ExpBeta and others", "forcepho/priors.py")], ["prior call"])
p("C23", "Run configuration precedence: explicit arguments override the file",
  "For any configuration file and any set of command-line arguments, the resulting configuration holds the explicit argument where one was given and the file's value otherwise, keeps every other setting, places store files under the store directory once, and derives bounds options consistently from the same values. Arguments count however they are spelled on the command line (--key value, --key=value, unambiguous abbreviations), and the generated default configuration file reads back as the defaults.",
  ["configurations", "inputs"], "All presence/absence combinations of file settings and arguments.",
  "No test covers precedence.",
  ["forcepho/config.py"], [("read_config, update_config, rectify_config, make_bounds_kwargs", "forcepho/config.py")], ["returned configuration namespace"])
p("C24", "Work queue never loses, duplicates or misassigns a task",
  "Under every order of submissions and completions, each worker is either idle or holds exactly one outstanding task, a task is sent only to an idle worker, every submitted task's result is returned exactly once and frees exactly the worker that computed it, and the idle/busy bookkeeping partitions the workers. Closing the queue tells every worker to stop exactly once.",
  ["schedules", "histories"], "All interleavings of submit/collect with symbolic completion order, few workers.",
  "Requires MPI and particular completion orders; no test exercises it.",
  ["forcepho/dispatcher.py"], [("MPIQueue.submit / collect / closeout", "forcepho/dispatcher.py")], ["queue state and messages"])
p("C26", "Per-source covariance blocks round-trip through the mass matrix",
  "For any covariance matrices, assembling the block-diagonal mass matrix for a set of sources and extracting blocks returns each source's own block, in the given order, and extraction of a dense matrix returns exactly its diagonal blocks.",
  ["inputs"], "All matrix entries, block sizes and numbers of sources within small sizes.",
  "Block order and offset errors are invisible with identity matrices.",
  ["forcepho/utils/__init__.py", "forcepho/superscene.py"], [("extract_block_diag, bounds_and_covs", "forcepho")], ["extract_block_diag, bounds_and_covs"])
p("C25", "Run bookkeeping: stopping rule, per-source logs and what is saved match the run",
  "For any history of checkouts and check-ins, the scene counts as undone exactly while some source has fewer iterations than the target and as sparse exactly while the active fraction is below its maximum, and the source and patch logs list, in order, exactly the tasks that checked in each source. Flushing, writing out or leaving the scene's context (also by an exception, which is not swallowed) saves the current catalog and logs, nothing is written without it, and the saved files read back as the same catalog, bounds and logs.",
  ["histories", "inputs"], "All iteration counts, activity flags, targets, check-in sequences and exit paths within small catalogs.",
  "Stopping and bookkeeping decisions depend on the whole history of the run; no test runs the super-scene.",
  ["forcepho/superscene.py", "forcepho/postprocess.py"], [("undone, sparse, checkin_region, flush, writeout, __enter__/__exit__", "forcepho/superscene.py"), ("run_metadata", "forcepho/postprocess.py")], ["superscene properties, logs and saved files"])
p("C27", "Optimizers and samplers work on the posterior and hand back its answers",
  "For any posterior, starting position and algorithm answer, the fitting drivers start the algorithm at the inverse transform of the starting position, give it the posterior's own (negative) ln-probability and gradient, and return the transform of each answer, in order, with the starting position and the ln-probability of the optimum; the initial mass matrix is the given covariance (its diagonal unless full; regularised only when not positive definite), else the one estimated from the trace or the identity. The optimize task starts within the bounds, uses volume terms and barriers only as requested during the optimization, and returns catalog, linear fluxes and bounds consistent with the optimum; the sample task uses the given covariance, number of draws and warm-up.",
  ["inputs", "configurations"], "All positions, transforms, algorithm answers, covariances and option combinations within small dimensions.",
  "Convergence tests on toy problems cannot see swapped start points, signs, covariances or options.",
  ["forcepho/fitting.py", "forcepho/tasks.py"], [("run_opt, run_lmc, run_dynesty, get_step_for_trace, LMC potential", "forcepho/fitting.py"), ("optimize_one, sample tasks", "forcepho/tasks.py")], ["returned Result objects, arguments seen by the algorithm"])
p("C28", "Result catalogs give every source its own samples and uncertainties",
  "For any set of patches, chains and logs, each source's row of the posterior-sample, percentile, uncertainty and appended catalogs holds that source's own last samples (from the last patch that fit it), their percentiles, or its uncertainties (from the inverse of its own precision matrices, never below flux over the maximum S/N, the default where there is no precision). Sample files read back the parameters that were fit, and listing sources fit in several patches gives each patch's own chain.",
  ["inputs", "histories"], "All chain values, logs (which patch fit which source, in which order), precisions and thresholds within small sizes.",
  "The post-processing is not tested; row and column mix-ups give plausible catalogs.",
  ["forcepho/postprocess.py", "forcepho/fitting.py", "forcepho/utils/catalog.py"], [("Samples, postsample_catalog, percentiles, flux_unc_linear, find_multipatch, append_catalogs", "forcepho/postprocess.py")], ["returned catalogs"])
p("C29", "Sersic measures and source regions describe the same profile as the catalog",
  "For any half-light radius, flux and radius, the enclosed-flux fraction is one half at the half-light radius and grows as the surface brightness on rings of one and the same Sersic profile, whose total (or flux within the given aperture) is the given flux; the profile has the isophote's surface brightness at the isophotal radius, and the Kron radius is the flux-weighted mean radius within the given limit (or of the whole profile). Source regions are one per catalog row, in order, at the source's position, with the requested mean size, the source's axis ratio and orientation on the sky, and its own label; patch regions are one circle per patch, with its position and size.",
  ["inputs"], "All radii, fluxes, isophotes and catalog values, for a set of Sersic indices.",
  "These measures are only plotted; a wrong normalisation or exponent is plausible at any single point.",
  ["forcepho/utils/profile.py", "forcepho/utils/ds9.py", "forcepho/postprocess.py"], [("frac_sersic, kron_radius, isophotal_radius, I_eff", "forcepho/utils/profile.py"), ("cat_to_regions, annotate_regions", "forcepho/utils/ds9.py"), ("write_sourcereg", "forcepho/postprocess.py")], ["returned radii, fractions and regions"])
p("C30", "PSF mixture fits keep the image's flux and moments, in the detector frame",
  "For any positive PSF image and any start, one step of the mixture fit gives Gaussians whose amplitudes sum to one and whose combined mean, widths and correlation are those of the image (for one Gaussian, its own moments); the model image is the sum of the normal densities at each pixel, in the axis order of the data. Fitted parameters are converted to x along the second image axis and y along the first, relative to the center of the full image (not of the part that was fit) and in detector pixels, with the variances of the same axes; the stored and returned tables hold this per repeat and Gaussian, next to the image that was fit (normalised), the models and ln-likelihoods.",
  ["inputs", "configurations"], "All image values, Gaussian parameters and offsets within small images and numbers of Gaussians.",
  "The fits are not tested; swapped axes and offsets cannot be seen on square, symmetric PSFs.",
  ["forcepho/mixtures/psf_mix_em.py", "forcepho/mixtures/utils_em.py", "forcepho/slow/psf.py"], [("fit_mvn_mix, mvn_pdf_2d_mix_fn, mean_params, cov_params", "forcepho/mixtures/psf_mix_em.py"), ("psf_mixture", "forcepho/mixtures/utils_em.py"), ("params_to_gauss, make_psf", "forcepho/slow/psf.py")], ["returned parameters, images and tables"])
open("/verif/properties.jsonl", "w").write("".join(json.dumps(x) + "\n" for x in P))
