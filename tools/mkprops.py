"""writes properties.jsonl (one-off helper, kept so the text has one source)"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    assert len(title) <= 80, (id, len(title))
    P.append(d)


K = "forcepho/src/"
prop("P01", "The compiled likelihood returns data minus model and its chi-square, per band",
     "For any packed patch and any proposal, the compiled likelihood evaluates every exposure of every band: each pixel's residual is its data value minus the summed pixel-integrated flux of all sources (each the Gaussian mixture of its profile convolved with that exposure's PSF, scaled by flux and flux calibration), and the chi-square of a band is the sum over its pixels of (residual^2 - data^2) / sigma^2. Pixels of zero weight contribute nothing, and evaluating changes neither the patch data nor the proposal and gives the same answer when repeated.",
     ["inputs", "histories"], "every number of bands, exposures, sources and pixels within the compiled limits, every parameter vector, every PSF mixture, every astrometric matrix, any sequence of evaluations",
     "The tests run the kernel on a few demo scenes and look at no values; a wrong index, a missing exposure or a wrong normalisation passes them.",
     [K + "compute_gaussians_kernel.cc", K + "common_kernel.cc", K + "matrix22.cc", K + "header.hh", "forcepho/proposal.py"],
     [("EvaluateProposal / ConvolveOneSource / GetGaussianAndJacobian / ComputeResidualImage", K + "common_kernel.cc, compute_gaussians_kernel.cc"), ("CPUProposer.evaluate_proposal", "forcepho/proposal.py")])
prop("P02", "The compiled gradient is the exact derivative of the compiled chi-square",
     "For any packed patch and proposal, the gradient returned with the chi-square of a band is the exact partial derivative of that chi-square with respect to every parameter of every source: the flux in that band, ra, dec, axis ratio, position angle, and (through the supplied mixture-amplitude derivatives) Sersic index and half-light radius. Each entry is stored at the place of its own source and parameter, and fluxes of other bands get zero.",
     ["inputs"], "every packed patch, every proposal, every source and parameter",
     "A test samples a few scenes and compares with finite differences in float32 at best; no existing test checks any gradient value, and the samplers silently mis-sample with a wrong one.",
     [K + "common_kernel.cc", K + "compute_gaussians_kernel.cc", K + "matrix22.cc", K + "header.hh", "forcepho/proposal.py"],
     [("GetGaussianAndJacobian, ComputeGaussianDerivative, ConvolveOneSource", K + "common_kernel.cc"), ("unpacking of the gradients", "forcepho/proposal.py")])
prop("P03", "The pure-python image model, its gradients and likelihood are exact",
     "For every source type, stamp and PSF, the pure-python model image equals the sum over profile and PSF Gaussians of flux times the (second-order pixel-integrated) normalised Gaussian with the combined covariance and centre, and the returned gradients are the exact derivatives of that image. The pure-python likelihood of a set of stamps and sources is -1/2 the sum of squared weighted residuals over unmasked pixels, its gradient is exact for sources parameterised by axis ratio and position angle, and fixed sources contribute flux but no gradient.",
     ["inputs", "configurations"], "every source class and parameter value, PSF mixture (pixel or arcsecond units), stamp geometry, pixel mask, list of free and fixed sources",
     "The tests plot a couple of galaxies; derivatives, arcsecond PSFs, fixed sources and multi-band scenes are never compared with anything.",
     ["forcepho/slow/gaussmodel.py", "forcepho/slow/likelihood.py", "forcepho/slow/psf.py", "forcepho/slow/stamp.py", "forcepho/sources.py"],
     [("ImageGaussian, GaussianImageGalaxy", "forcepho/slow/gaussmodel.py"), ("WorkPlan, lnlike_multi", "forcepho/slow/likelihood.py"), ("Stamp.render", "forcepho/slow/stamp.py")])
prop("P04", "Posterior = likelihood + prior + log-Jacobian, with the matching gradient",
     "At any sampling position the posterior equals the likelihood at the transformed parameters plus the log-prior plus (when sampling) the log-determinant of the transform, where the likelihood is -1/2 the total chi-square over bands and the gradient is the sum of the pieces carried through the transform's derivative. The negative-log-probability shortcuts are minus the same quantity without the Jacobian term divided by the degrees of freedom, and parameters of sources and bands are matched to gradient entries in the order of the parameter vector.",
     ["inputs", "configurations"], "every position, transform, prior (including none), number of sources and bands, likelihood back end",
     "The tests only run a sampler and look at no probabilities; a sign, a missing term or a permuted gradient still produces chains.",
     ["forcepho/model.py", "forcepho/priors.py"],
     [("Posterior.evaluate, lnprob, lnprob_grad, nll, lnprob_and_grad", "forcepho/model.py"), ("FastPosterior / SlowPosterior.lnlike", "forcepho/model.py")])
prop("P05", "Posterior queries never return values of another position",
     "Whatever sequence of log-probability, gradient, objective and residual queries is made, each returned value is the one belonging to the position given in that query, also when the caller reuses and modifies the same position array between queries or queries before anything was evaluated. A repeated query of the same position returns the same value.",
     ["histories"], "every sequence of queries, positions and in-place modifications of the position array",
     "It is a statement about all call histories; tests call each method once or twice.",
     ["forcepho/model.py"], [("position cache", "forcepho/model.py Posterior.lnprob, lnprob_grad, nll, lnprob_and_grad, residuals")])
prop("P06", "Bounded transforms are exact bijections onto the bounds with exact derivatives",
     "The bounded transform maps every real sampling vector strictly inside of the bounds, is inverted by its inverse, and its Jacobian, log-determinant and gradient of the log-determinant are the exact derivatives of the map, for every pair of lower and upper limits. The identity transform behaves as such.",
     ["inputs"], "all bounds and all sampling vectors of any length",
     "It is an identity over all real vectors; tests sample none of it.",
     ["forcepho/model.py"], [("Transform, BoundedTransform", "forcepho/model.py")])
prop("P07", "Prior densities and their gradients agree",
     "Every prior returns a log-density and a gradient that is the exact derivative of it with respect to each parameter of the scene, in parameter-vector order, summed over the terms it was configured with. The barrier prior is the log of its documented density, vanishes to minus infinity only at the bounds, and is finite strictly inside.",
     ["inputs", "configurations"], "every parameter vector strictly inside of the bounds, every configuration of terms",
     "No test evaluates a prior.", ["forcepho/priors.py"],
     [("LogPrior, ExpBeta and terms", "forcepho/priors.py")])
prop("P08", "Source and scene parameter vectors round-trip without loss or mixing",
     "Setting the parameters of a scene from a vector (or a catalog) and reading them back gives the same values for every source, in source order with fluxes by band first and then shape parameters, and setting one source never changes another. The proposal handed to the likelihood contains exactly these values (only the fluxes of its bands, mixture amplitudes and their derivatives evaluated from the profile spline at the clipped Sersic index and radius), and a catalog made from a scene reproduces the catalog it was built from.",
     ["inputs", "histories"], "every source class, number of sources and bands, fixed or free sources, any values, any sequence of set operations",
     "Tests build one or two scenes and never read the parameters back.",
     ["forcepho/sources.py"], [("Scene.set_all_source_params, get_all_source_params, get_proposal, from_catalog, to_catalog, param_indices", "forcepho/sources.py"), ("Source.set_params/get_param_vector/proposal_structured", "forcepho/sources.py")])
prop("P09", "A source is never checked out twice; checkout and checkin conserve the catalog",
     "Under any sequence of checkouts, checkins and resets, no source is active in two outstanding regions, and every active source of a region was available when it was checked out. A checkin writes back the returned parameters and covariances for exactly the returned sources, counts their iterations and patches, and makes them (and the fixed sources of that region) available again; all other rows stay as they were and the set of sources never changes. A reset makes every source available and zeroes the iteration and patch counts while keeping all parameters.",
     ["histories", "schedules"], "every catalog, every interleaving of checkout, checkin and reset by any number of workers",
     "It is a statement about all histories of the scheduler; tests check out at most one region.",
     ["forcepho/superscene.py"], [("checkout_region, checkin_region, reset, get_circular_scene, grow_scene", "forcepho/superscene.py")])
prop("P10", "Patches contain what they must: groups stay whole, limits are respected",
     "A valid circular patch takes as active the sources nearest to the seed by outer extent (distance plus the scaled size), at most the maximum number and only those within the maximum radius, and is refused when one of the neighbouring sources is already active; its radius encloses the active sources and is at least the minimum, and the remaining sources whose extent reaches into the patch (nearest first, up to the maximum) are held as fixed. Linked patches follow the friends-of-friends groups exactly (two sources share a group if and only if a chain of overlapping neighbours connects them), and a linked patch contains whole groups, up to the maximum number of active sources.",
     ["inputs", "histories"], "every catalog of positions and radii of influence, every seed and every configured limit",
     "The partition depends on every pair of sources; tests use none.",
     ["forcepho/superscene.py"], [("get_circular_scene, grow_source, make_group_catalog / sky linking", "forcepho/superscene.py")])
prop("P11", "Parameter bounds are ordered, contain the source, and follow the settings",
     "The bounds made for a catalog have lower < upper for every source and parameter, contain each source's current value wherever the documented rule centres them on it, equal the requested ranges and half-widths otherwise, and flatten to vectors in the same order as the parameter vector. Adjusting a catalog to its bounds moves only values outside (to within the bounds), position angles are reduced to the equivalent value in the standard half-turn, and rectifying an input catalog keeps every column value (shape parameters clipped to their allowed ranges, the position-angle convention converted if requested) and sets the bookkeeping columns.",
     ["inputs", "configurations"], "every catalog, every bounds setting, every parameter value including zero and negative fluxes",
     "Bounds are only used implicitly by the tests, never compared.",
     ["forcepho/superscene.py"], [("make_bounds, bounds_vectors, flux_bounds, adjust_bounds, check_bounds, convert_pa, rectify_catalog", "forcepho/superscene.py")])
prop("P12", "Pixels are packed once, in order, unchanged, and masked safely",
     "Building a patch packs every pixel of every selected exposure exactly once, exposures grouped by band in band order with start and count arrays that partition the pixel list, with pixel values, inverse errors and coordinates unchanged apart from the requested background and signal-to-noise cap. Pixels that are masked, non-finite, or have invalid errors get zero weight and finite values, and splitting by exposure or band returns exactly the pixels of each.",
     ["inputs", "configurations"], "every list of exposures, bands present or absent, pixel values including nan, masks, tweaks; in-memory, FITS and pixel-store sources",
     "Tests pack one synthetic image and look at nothing.",
     ["forcepho/patches/patch.py", "forcepho/patches/pixel_patch.py", "forcepho/patches/storage.py"],
     [("pack_pix, split_pix, split_band, cap_snr", "forcepho/patches/patch.py"), ("find_pixels, set_snr_cap, find_exposures, StorePatch/FITSPatch", "forcepho/patches/pixel_patch.py")])
prop("P13", "Metadata and device structures describe the packed scene exactly and in bounds",
     "Packing a scene stores, for every exposure and source, the astrometric matrices and reference points relative to the patch reference coordinates, the flux calibration, and the PSF mixture of that exposure at the indices the compiled code reads; and the structures handed to the compiled code have the layout that code was compiled with. Every array element the compiled code reads or writes for a packed patch lies inside of the corresponding array.",
     ["inputs", "configurations"], "every number of bands, exposures, sources and PSF components within the compiled limits; bands without exposures",
     "Layout and index errors only show for particular shapes; tests use one shape.",
     ["forcepho/patches/patch.py", "forcepho/patches/device_patch.py", "forcepho/sources.py", K + "header.hh", K + "patch.cc", "forcepho/kernel_limits.py"],
     [("pack_meta, _pack_astrometry, _pack_psf, _pack_fluxcal", "forcepho/patches/patch.py"), ("CPUPatchMixin.pack/send struct", "forcepho/patches/device_patch.py")])
prop("P14", "Subtracting, rendering and design matrices equal the model of the given sources",
     "Preparing a patch leaves as data exactly the original pixels minus the model of all fixed (and big) sources, however many there are relative to the batch limit, with the active scene packed for evaluation. The design matrix holds for each source and band its model image divided by its flux, rendering a catalog returns its model image per exposure, and none of these operations changes the input catalogs, the weights, or (for rendering) the data.",
     ["inputs", "histories"], "every number of active, fixed and big sources, batch limits, bands and exposures, sequences of operations",
     "Batching errors need particular counts; tests subtract nothing and compare nothing.",
     ["forcepho/patches/device_patch.py", "forcepho/patches/pixel_patch.py"],
     [("subtract_fixed, prepare_model, design_matrix, render, swap_on_device", "forcepho/patches/device_patch.py")])
prop("P15", "Local astrometry is the true derivative of the sky-to-pixel map",
     "For every image solution and sky position, the scale and offset matrices used by the model are the derivatives of the sky-to-pixel map at that position (per degree and, scaled by the cosine of declination, per arcsecond on the sky), so the linear map reproduces the full one to first order about the source. Stamp sky-to-pixel and pixel-to-sky maps are inverse to each other, and stored linear solutions evaluate to the stated affine map.",
     ["inputs"], "every linear or distorted solution, every orientation, parity and declination",
     "One orientation and scale is used by the tests, for which sign and transposition errors cancel.",
     ["forcepho/utils/wcs.py", "forcepho/slow/stamp.py"], [("scale_at_sky, sky_to_pix, FWCS", "forcepho/utils/wcs.py"), ("Stamp.sky_to_pix, pix_to_sky", "forcepho/slow/stamp.py")])
prop("P16", "Stored pixels, metadata and PSFs are read back as they were written",
     "Adding an image to the pixel store and reading it back returns each pixel's value, inverse error and coordinates exactly once, arranged in square super-pixels, with values that are masked or not finite given zero weight; images whose size is not the one of the store are refused. Metadata survives a write-read round trip (header, solution and footprint per band and exposure), and a PSF lookup returns the mixture stored for that band at the nearest stored location.",
     ["inputs", "histories"], "every image size, super-pixel size, mask, band and exposure naming, sequence of additions",
     "The tests never write a store.",
     ["forcepho/patches/storage.py"], [("ImageSet/PixelStore.superpixelize, add_exposure; MetaStore; PSFStore.lookup", "forcepho/patches/storage.py")])
prop("P17", "Regions contain exactly the points they describe",
     "The pixels or super-pixels selected from an image by a circular or rectangular region are exactly those with at least one corner inside of the shape, each once, and its bounding box circumscribes the region. A point is inside of a convex polygon (vertices in either order) if and only if it is on the inner side of every edge, and two bounding boxes overlap if and only if they share area, also when one contains the other. Exposure selection returns, in the order of the requested bands and once each, the images of these bands whose footprint contains the requested position, and no image that does not touch the region.",
     ["inputs"], "every centre, size and vertex list, every position, every image solution",
     "Containment is universally quantified over positions; tests use one region.",
     ["forcepho/region.py", "forcepho/patches/storage.py", "forcepho/patches/pixel_patch.py"],
     [("Region.contains, CircularRegion, RectangularRegion, bounding_box, polygon_contains, polygons_overlap", "forcepho/region.py"), ("find_exposures", "forcepho/patches/storage.py")])
prop("P18", "Linear flux optimisation returns the weighted least-squares fluxes",
     "Conditional on the shapes, the optimised fluxes of each band solve the weighted normal equations of the design matrix (so no other fluxes give a smaller chi-square), and the returned precision is the corresponding weighted normal matrix, for every band in band order. The result does not depend on the fluxes initially assigned to the sources, inputs are left unchanged, and a singular band is reported rather than answered.",
     ["inputs"], "every design matrix, weights including zeros, data, fixed-source model, number of sources and bands",
     "No test runs the linear optimisation.",
     ["forcepho/fitting.py", "forcepho/patches/device_patch.py"], [("optimize_one_band, optimize_fluxes", "forcepho/fitting.py")])
prop("P19", "Chains and result files keep source, parameter and sample together",
     "Each sample of a chain is attributed to the right source and parameter (sky positions shifted back by the reference coordinates), in the structured chain, in single-sample catalogs, in the final and best-probability catalogs, in per-source covariance blocks, in percentile and run-level catalogs, and after writing to and reading from a result file. Optimiser and sampler results are reported in the constrained parameter space with the log-probability of the reported positions, and catalog columns not in the chain keep the values of the active catalog.",
     ["inputs", "histories"], "every number of sources, bands, shape columns and samples, names as text or bytes, every selected iteration",
     "A permuted column or sample gives plausible numbers; tests only check that files exist.",
     ["forcepho/utils/chain.py", "forcepho/fitting.py", "forcepho/utils/__init__.py", "forcepho/utils/catalog.py", "forcepho/postprocess.py"],
     [("make_chaincat, get_sample_cat, make_statscat", "forcepho/utils/chain.py"), ("Result.fill, get_map, dump_to_h5, read_from_h5; run_opt, run_lmc", "forcepho/fitting.py"), ("postsample_catalog, flux_unc_linear", "forcepho/postprocess.py")])
prop("P20", "Configuration: command line over file over defaults, then paths and types",
     "The final configuration takes each option from the command line if it was given there, else from the configuration file if it is set there, else from the parser default, and never loses an option. Afterwards the store directory is prepended to the store file names, shell variables in text values are expanded, lists become arrays, data-type names become types, and the bounds settings present are collected unchanged.",
     ["configurations", "inputs"], "every combination of options present in the three sources, and their values, including values equal to the default",
     "Precedence is a statement about all combinations; no test parses a configuration.",
     ["forcepho/config.py"], [("parse_all, new_args, update_config, rectify_config, yaml_to_namespace, read_config", "forcepho/config.py")])
prop("P21", "The work queue never loses, duplicates or misroutes a task",
     "Under every order of completion, each submitted task is sent to exactly one idle child and its result is returned exactly once, a child is idle or busy but never both, submission fails if and only if no child is idle, and a blocking collection fails if and only if nothing is outstanding. Shutdown is refused while any child is busy and otherwise sends every child one stop message.",
     ["schedules", "histories"], "every number of children, every sequence of submissions and collections, every completion order",
     "It quantifies over schedules; no test imports the queue.",
     ["forcepho/dispatcher.py"], [("MPIQueue.submit, collect, closeout", "forcepho/dispatcher.py")])
prop("P22", "Written pixel products are restored to their image positions",
     "The residual file of a patch stores for every exposure its own data, residuals, weights, coordinates and astrometry, and the images rebuilt from it hold each stored value at its pixel position and nothing anywhere else (padding is ignored), also when several patches fill the same image. Cut-out images cover exactly the bounding box of the pixels and report its edges.",
     ["inputs", "histories"], "every set of pixel coordinates and values, with padding, every number of exposures and patches",
     "Images are only looked at by eye in the demos.",
     ["forcepho/utils/io.py", "forcepho/utils/__init__.py", "forcepho/postprocess.py"],
     [("write_residuals, make_imset", "forcepho/utils/io.py"), ("populate_image", "forcepho/utils/__init__.py"), ("Residuals.make_exp, fill_images, sky_to_pix", "forcepho/postprocess.py")])
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
