prop("P01", "Interpolating over masked pixels only fills them, from good neighbours",
 "Filling an image at its masked pixels leaves every good pixel and the caller's arrays untouched, and the values it puts in masked pixels are finite, depend only on good pixels within the requested buffer around masked ones, reproduce any affine image wherever the masked pixel is surrounded by good ones, and are zero where it is not. "
 "With noise filling, exactly those masked pixels with no good pixel within the isolation distance get zero-mean noise of variance one over the given weight, reproducibly from the given generator, and the other masked pixels are interpolated from good and noise-filled ones; noise filling without a generator or weight is an error. "
 "The image is refused (None) exactly when its masked fraction exceeds the limit, or it has no good pixel, or the good pixels around the masked ones are too few or all on one line.",
 ["inputs", "configurations"], "every image, mask shape (scattered, blocks, rows, borders, everything, nothing), buffer, isolation distance, limit and weight",
 "the tests fill a handful of fixed masks on smooth images; leakage from bad or distant pixels, border handling and the exact refusal boundary need arbitrary masks",
 ["metadetect/interpolate.py"], [("nearby-good-pixel selection", "metadetect/interpolate.py:_get_nearby_good_pixels"), ("interpolation and noise fill", "metadetect/interpolate.py:interpolate_image_at_mask")],
 "Hypothesis-generated masks vs. independence, affine-exactness and refusal oracles", "Thousands of generated masks and images per run.")

prop("P02", "Foreground hole masks mark exactly the pixels inside the circles",
 "The bit mask of a set of circular foreground masks carries the given bit(s) at exactly those pixels whose distance to some centre is strictly less than its radius, for centres on or off the image, and zero elsewhere. "
 "With symmetrization it is the OR of that mask and its 90 degree rotation. The inputs are not modified, and the result does not depend on the order of the holes.",
 ["inputs", "configurations"], "every image shape, set of holes (overlapping, tangent, off-image), radius, bit value and array byte order",
 "the tests use a few hand-placed holes; off-by-one errors, strictness at the rim, off-image skipping and row/column swaps need arbitrary and non-square geometry",
 ["metadetect/masking.py"], [("hole rasterization", "metadetect/masking.py:_do_mask_foreground"), ("off-image skip", "metadetect/masking.py:_intersects")],
 "Hypothesis geometry vs. a vectorized reference raster, plus union/transposition laws", "Exact comparison except within rounding of a rim.")

prop("P03", "Apodization windows follow the cumulative triweight taper",
 "The window around foreground holes is one outside of every hole and falls inside each hole, with distance from the rim, along the cumulative triweight kernel reaching zero six scales inside of the rim; windows of several holes multiply, and symmetrization multiplies by the 90 degree rotation. "
 "The window at the edges of an image is the product, over the four edges, of the same kernel rising from zero to one over the taper range of int(6*scale + 0.5) pixels from the edge, whatever the image shape. Both windows lie in [0, 1].",
 ["inputs", "configurations"], "every image shape (also smaller than the taper), hole set and taper scale",
 "the tests check a few pixels of one scale; kernel shape, four-edge symmetry and small or non-square images need a reference window on every pixel",
 ["metadetect/masking.py"], [("taper kernel", "metadetect/masking.py:_ap_kern_kern"), ("edge window", "metadetect/masking.py:_build_square_apodization_mask"), ("hole window", "metadetect/masking.py:_do_apodization_mask")],
 "Hypothesis geometry vs. a closed-form (incomplete beta) reference window", "Every pixel compared to 1e-9.")

prop("P04", "Masking corrections change all planes of all bands, and only where masked",
 "Applying foreground or edge masks to multi-band data does the same to every band and exposure: in the masked pixels the mask bit (and for interpolation the interpolation bit) is added to the existing bits, the weight is zero and the masked fraction, if present, is one, and the image and the noise image are both interpolated or both multiplied by the window; everywhere else nothing changes. "
 "Pixels within the expanded radii additionally get the expansion bit and nothing else. "
 "When nothing is left to interpolate from, the whole observation is masked, an observation left without any weight no longer ignores zero-weight pixels, and an unknown method is refused with nothing modified.",
 ["inputs", "configurations"], "all methods, symmetrization, expansion, hole sets, number of bands and exposures, with and without masked-fraction planes, and pre-set bits",
 "the tests check one hole set with smooth data; a plane or band that is skipped, bits that overwrite, or a fully masked image show only for particular combinations",
 ["metadetect/masking.py"], [("method dispatch and expansion", "metadetect/masking.py:apply_foreground_masking_corrections"), ("edge taper", "metadetect/masking.py:apply_apodization_corrections")],
 "Hypothesis multi-band plane generator vs. a per-plane reference model", "All planes of all exposures compared against the model.")

prop("P05", "Masked fractions are Gaussian-weighted means inside the stamp",
 "The masked fraction reported at each position is the Gaussian-weighted mean (given FWHM, 1.2 arcsec by default, in world coordinates) of the masked-fraction image over the pixels of that position's stamp that are on the image and closer than twice the FWHM. "
 "Positions with no stamp, or whose stamp does not touch the image, get one. One value per position is returned in order, within the range of the image, whatever the image's weights, and the inputs are unchanged.",
 ["inputs"], "every masked-fraction image, set of positions on, at the edge of, and off the image, box size, aperture and WCS matrix",
 "the tests use a constant and a half image with a square diagonal WCS; aperture, off-image pixels and row/column handling need general WCS and positions",
 ["metadetect/mfrac.py", "metadetect/detect.py"], [("aperture mean", "metadetect/mfrac.py:measure_mfrac"), ("stamp cutting", "metadetect/detect.py:CatalogMEDSifier")],
 "Hypothesis positions/WCS vs. a direct weighted-mean model", "Compared to 2e-4 absolute.")

prop("P06", "Shearing and unsheering positions are exact inverses about the image centre",
 "Positions map between sheared and unsheared images by the area-preserving shear matrix of the given component and step (0.01 by default) acting in world coordinates about the centre of the image, and unshearing applies exactly the inverse, so the two round-trip and the centre never moves. "
 "For the unsheared type and the PSF-only shear types positions are returned unchanged, and an unknown type is an error. The input arrays are never modified.",
 ["inputs", "configurations"], "every shear type, step, image shape, WCS matrix and reference point, and positions on or off the image",
 "the tests use one grid of positions and diagonal or mildly rotated WCS; sign, axis and centre errors cancel there and need general, flipped, non-square cases",
 ["metadetect/shearpos.py"], [("forward map", "metadetect/shearpos.py:shear_positions"), ("inverse map", "metadetect/shearpos.py:unshear_positions")],
 "Hypothesis WCS/positions vs. an independent matrix model and round-trip", "Compared to double precision.")

prop("P07", "Detection sees the weighted band mean; stamps are exact cut-outs",
 "Detection runs on the mean of the bands weighted by each band's typical (median) inverse variance, with the matching noise level, and with exactly those pixels excluded that carry a no-detection bit in some band. "
 "Every detected or given position gets one stamp per band that reproduces the image, weight, noise, bit mask and segmentation pixels around it (edge value where the stamp leaves the image), with a WCS that maps the stamp centre back to the position; stamps with no weight are left out. "
 "Stamp sizes are the smallest allowed size between the configured limits that holds the requested one, and the images are not modified.",
 ["inputs", "configurations"], "every number of bands, weights, mask bits, WCS, positions on and off the image, stamp sizes, both sizing rules and detection configurations",
 "the tests run one simulation and look at pictures; axis swaps, clipped stamps, off-by-one starts and per-band weighting need many geometries",
 ["metadetect/detect.py"], [("detection image", "metadetect/detect.py:MEDSifier._set_detim"), ("stamp sizes", "metadetect/detect.py:MEDSifier._get_box_sizes"), ("cut-outs", "metadetect/detect.py:MEDSInterface.get_cutout"), ("given catalogue", "metadetect/detect.py:CatalogMEDSifier")],
 "Hypothesis planes/catalogues with a faked extractor vs. reference cut-outs, mean and size rule", "Pixels compared exactly.")

prop("P08", "The coadd over bands is the weighted mean of consistent bands, or refused",
 "The coadd over the requested shear bands has the mean image, noise, masked fraction and PSF weighted by each band's median inverse variance, the inverse variance of that mean as weight (zero where any band has none), and the OR of the bit masks; a single band is passed through. "
 "When a requested band does not exist, or the bands disagree in shape, WCS, PSF or optional planes, there is no coadd and the inconsistency bit is set, and when a band or the overlap of all has no weight there is none and the zero-weight bit is set. "
 "The inputs are not modified.",
 ["inputs", "configurations"], "every set of bands, weights with holes, subsets and orders of shear bands, subsets of optional planes, and every kind of inconsistency",
 "the tests coadd two constant images; weights per band, holes that differ between bands and refusal paths need generated planes",
 ["metadetect/fitting.py"], [("coadd", "metadetect/fitting.py:make_coadd_obs")],
 "Hypothesis bands and injected inconsistencies vs. a reference weighted mean", "All planes compared to 1e-9.")

prop("P09", "Band-averaged shapes combine the shear bands' moments, fluxes stay per band",
 "For each object the shape, size and signal-to-noise are those of the moments of the object and PSF averaged over exactly the usable requested shear bands with their median weights and common normalization (also with regularization), while the flux and its error are reported for every band in order. "
 "Each object's flags are the OR of what happened to its shear bands (missing band, zero weight, edge bit, no moments, object or PSF failure), are zero only when everything succeeded, and never leak between objects, and values that could not be measured are NaN. "
 "With symmetrization the fits see four-fold symmetric weights; the given observations are not modified.",
 ["inputs", "configurations"], "every number of objects and bands, subset of shear bands, per-band fit results and covariances, missing data, failures and mask bits, regularization and symmetrization",
 "the tests fit a simulated galaxy in identical bands, where any weighting gives the same answer; only generated per-band results separate wrong weights, flags and band order",
 ["metadetect/fitting.py"], [("per-object fit", "metadetect/fitting.py:fit_mbobs_wavg"), ("moment average", "metadetect/fitting.py:_sum_bands_wavg"), ("output row", "metadetect/fitting.py:_combine_fit_results_wavg")],
 "Hypothesis per-band results through fake fitters vs. an independent moment-averaging model", "Values compared to 1e-6 or better, flags exactly.")

prop("P10", "Joint fits use exactly the requested shear bands and report failures as flags",
 "Adaptive-moment and Gaussian fits see exactly the requested shear bands (coadded for adaptive moments), with symmetrized weights when asked, and report the object's shape, covariance, size, signal-to-noise, per-band fluxes in order, and the PSF's weighted mean shape and size. "
 "A missing, inconsistent, zero-weight or edge-flagged input gives its flag and no fit, and a failed object or PSF fit sets the object or PSF flag rather than raising; flags are zero only if all succeeded. "
 "Every fitted noise-free Gaussian comes back with its shape and size, and inputs are not modified.",
 ["inputs", "configurations", "fault_sequences"], "every number and subset of bands, inputs with defects, results and exceptions of the object and PSF fit, and Gaussian objects",
 "the tests run one simulation with successful fits; exceptions of one stage, per-band order and the PSF averaging are invisible there",
 ["metadetect/fitting.py"], [("adaptive moments", "metadetect/fitting.py:fit_mbobs_admom"), ("Gaussian fit", "metadetect/fitting.py:fit_mbobs_gauss"), ("list of objects", "metadetect/fitting.py:fit_mbobs_list_joint")],
 "Hypothesis results and failures through fake runners vs. a reference model, plus end-to-end Gaussians", "Values compared to 1e-9, end-to-end ones to fit accuracy.")

prop("P11", "Symmetrized weights are the original ones, zeroed at every rotation of a hole",
 "A symmetrized observation has zero weight exactly at those pixels where the pixel or any of its three 90 degree rotations about the stamp centre has zero weight, and the original weight elsewhere. "
 "All other planes, the WCS and the PSF are the same, and the given observation is not modified. Symmetrizing twice changes nothing more.",
 ["inputs"], "every square stamp, zero-weight pattern and set of optional planes",
 "the tests use one pattern of zeroed pixels; rotation direction and overlap errors need arbitrary patterns",
 ["metadetect/fitting.py"], [("symmetrization", "metadetect/fitting.py:symmetrize_obs_weights")],
 "Hypothesis weight patterns vs. a four-rotation reference and idempotence", "Exact comparison.")

prop("P12", "Combining tables of several fitters loses and mixes nothing",
 "The measurements of several fitters for the same objects combine into one table which has, row by row, every column of every fitter's table with its values, and one shear-band label. "
 "Tables of different length or for different shear bands are refused, and no measurements at all gives no table. "
 "A fresh output table has the documented columns for the number of bands, with every flag set to 'no attempt' and every value NaN.",
 ["inputs", "configurations"], "every number of fitters, rows and bands, with some fitters giving no table",
 "the tests combine two tables of the same layout",
 ["metadetect/fitting.py"], [("combination", "metadetect/fitting.py:combine_fit_res"), ("output table", "metadetect/fitting.py:get_wavg_output_struct")],
 "Hypothesis tables vs. a column-by-column reference", "Exact comparison.")

prop("P13", "A metadetect run reports each sheared image's own detections and fits",
 "A run returns for every requested shear type the table of exactly the objects detected in that type's images, once per combination of shear bands and detection bands, labelled with them, holding what measuring the stamps of that type's images with each configured fitter gives. "
 "It returns nothing at all exactly when a band has no weight or is masked throughout, the whole area is masked out, or metacal failed, and refuses invalid combinations. "
 "The caller's images and configuration are left as they were.",
 ["inputs", "configurations", "fault_sequences"], "every number of bands and fitters, shear-band and detection-band combinations, shear types, masks, catalogues, WCS and injected failures",
 "the tests run one simulation and test that columns exist; mixed-up types, bands, labels or rows do not show when all bands look the same",
 ["metadetect/metadetect.py", "metadetect/detect.py", "metadetect/fitting.py"], [("driver", "metadetect/metadetect.py:Metadetect.go"), ("band combinations", "metadetect/metadetect.py:Metadetect._go_bands"), ("measurement", "metadetect/metadetect.py:Metadetect._measure"), ("detection bands", "metadetect/metadetect.py:Metadetect._do_detect")],
 "Hypothesis worlds with faked metacal and detection vs. direct measurement of the stamps", "Rows, labels and values compared with an independently driven measurement.")

prop("P14", "Position, mask, masked-fraction and PSF columns describe the row's own object",
 "Each row has the detected position and its unsheared counterpart, both with the bit mask and OR mask collected over the configured region around the nearest pixel, clipped to the image, and both with the Gaussian-weighted masked fraction there, all from the original unsheared images of all bands. "
 "It also has the image's masked fraction and the weighted-mean shape and size of the original PSFs over the bands, whose failure raises that column's flag without losing any row.",
 ["inputs", "configurations"], "every world of the run contract, mask region, masked-fraction plane, PSF and WCS",
 "the tests only look for the presence of these columns or use mask-free images",
 ["metadetect/metadetect.py", "metadetect/mfrac.py", "metadetect/shearpos.py"], [("annotation", "metadetect/metadetect.py:Metadetect._add_positions_and_psf"), ("mask lookup", "metadetect/metadetect.py:_fill_in_mask_col"), ("PSF statistics", "metadetect/metadetect.py:_get_psf_stats"), ("mask planes", "metadetect/metadetect.py:Metadetect._get_ormask_and_bmask")],
 "Hypothesis worlds vs. per-row reference values computed from the input planes", "Masks exactly, values to numerical accuracy.")

prop("P15", "Colour-dependent runs measure each object in the rendering of its colour",
 "When the images come in several colour renderings, every object detected in the default rendering appears exactly once per type and band combination, in order, measured and annotated on the rendering that its own colour (its fluxes in the default rendering) selects; objects whose rendering cannot be processed are left out. "
 "When all renderings are the same images, the result equals that without colours. "
 "Metacal runs at most once per rendering, no input is modified, and a first fitter without per-band moments is refused.",
 ["inputs", "configurations", "fault_sequences"], "every number of renderings and bands, colour rule, objects with any colours, band combinations and failing renderings",
 "the tests run one simulation where all objects take the same rendering",
 ["metadetect/metadetect.py"], [("colour loop", "metadetect/metadetect.py:Metadetect._go_bands_with_color"), ("per-colour data", "metadetect/metadetect.py:Metadetect._get_mbobs_data")],
 "Hypothesis colour worlds vs. direct measurement on the selected rendering, plus the same-images relation", "Rows compared one by one.")

prop("P16", "Status flags never collide and decode to their own meaning",
 "Every status flag is a single bit of its own that no ngmix flag uses, so that flags of different stages can be OR-ed without losing any. "
 "The text for a flag value names each set bit exactly once, with the meaning of that flag of metadetect or ngmix, for every combination of defined and undefined bits, and zero gives the empty text.",
 ["inputs"], "every combination of bits, as python or numpy integers",
 "there is no test; collisions only matter for combinations",
 ["metadetect/procflags.py"], [("flag values and names", "metadetect/procflags.py:NAME_MAP"), ("decoding", "metadetect/procflags.py:get_procflags_str")],
 "Hypothesis bit sets vs. a table of meanings", "Exact comparison.")

prop("P17", "LSST configurations merge over the defaults and never leak between calls",
 "A configuration given for an LSST run replaces exactly the defaults of the keys it has, also within its sub-configurations, and an unknown key is refused. "
 "Overrides set exactly the named fields of a task configuration (the short name thresh being the detection threshold) and reach the task that is built from it, and unknown fields or values of a wrong type are refused. "
 "The caller's dictionaries, the defaults and the results of other calls never change.",
 ["inputs", "configurations", "histories"], "every subset of keys and fields, wrong keys, and histories of requests and of edits of returned configurations",
 "the tests request a few configurations once; leaks need a history, ignored fields need every field",
 ["metadetect/lsst/configs.py", "metadetect/lsst/util.py", "metadetect/lsst/measure.py", "metadetect/lsst/defaults.py"],
 [("merging", "metadetect/lsst/configs.py:get_config"), ("overrides", "metadetect/lsst/util.py:override_config"), ("task factory", "metadetect/lsst/measure.py:get_detect_and_deblend_task")],
 "Hypothesis histories of configurations vs. a dictionary-merge model", "Exact comparison.")

prop("P18", "LSST exposures convert to observations, copies and back without loss",
 "An exposure's observation has its image, its mask in the requested plane, weight one over variance (zero where that is not positive and finite), its central PSF and a WCS centred on its middle, and converting back restores them. "
 "A source's observation is the whole exposure with weight one over the median variance, the PSF at the source and the WCS centred on it; no weight or no PSF there is refused. "
 "Multi-band collections and their copies keep every band's pixels, WCS, PSF and filter, never share pixels with their source, and name the shear bands' indices or refuse missing ones.",
 ["inputs"], "every exposure geometry, orientation, variance plane, mask, PSF, source position and set of bands",
 "the tests for this need simulation packages and use one exposure; origins, masks and defects need arbitrary exposures",
 ["metadetect/lsst/util.py"], [("exposure to observation", "metadetect/lsst/util.py:exp2obs"), ("back", "metadetect/lsst/util.py:obs2exp"), ("source observation", "metadetect/lsst/util.py:extract_obs"), ("copies", "metadetect/lsst/util.py:copy_mbexp"), ("band data", "metadetect/lsst/util.py:extract_multiband_coadd_data")],
 "Hypothesis exposures vs. the generating planes and a round trip", "Pixels exactly; one known finding (WCS of non-square pixels).")

prop("P19", "LSST coadds over bands are inverse-variance averages with matching PSF",
 "The coadd of several exposures is in every pixel where all have data their mean weighted by one over their median variance, with variance one over the summed inverse variances (infinite without data), the OR of the masks, their WCS and origin, and as PSF the equally weighted, normalized mean of their central PSFs; without any weight there is no coadd. "
 "The coadd of several stamps likewise averages image and PSF by their median weights, adds up the weights and keeps WCS and metadata. "
 "The inputs are not modified.",
 ["inputs"], "every number of bands with different noise, variance maps, masks and PSFs, at every origin",
 "the tests use equal noise and PSFs in all bands, where any weights give the same coadd",
 ["metadetect/lsst/util.py"], [("exposures", "metadetect/lsst/util.py:coadd_exposures"), ("stamps", "metadetect/lsst/util.py:coadd_mbobs")],
 "Hypothesis exposures and stamps vs. a direct weighted mean", "Every pixel to 1e-5.")

prop("P20", "LSST bright-object and edge masks taper all planes of all bands alike",
 "Masking bright objects or edges multiplies image and noise image of every band by the same taper window (zero inside of the object or at the edge, one outside), and in exactly the pixels inside a radius, or where the edge window is below one, sets the plane's mask bit, infinite variance and a masked fraction of one. "
 "Pixels within the expanded radius get the expansion bit and nothing else, the given OR masks get the same bits, and everything else, with all existing bits, is unchanged.",
 ["inputs", "configurations"], "every geometry, list of objects on or off the image, number of bands, presence of noise, masked-fraction and OR mask planes, and order of the two steps",
 "the tests mask one object of one simulated band; bands, planes and origins left out do not show",
 ["metadetect/lsst/masking.py"], [("bright objects", "metadetect/lsst/masking.py:apply_apodized_bright_masks_mbexp"), ("edges", "metadetect/lsst/masking.py:apply_apodized_edge_masks_mbexp")],
 "Hypothesis exposures vs. the reference windows of P03", "Every pixel except within rounding of a rim.")

prop("P21", "LSST stamps are the exact cut-outs around each source in every band",
 "The stamp of a source is, in every band in order, the box of the requested size around its peak pixel with the image, mask and variance (or weight one over the median variance) of exactly those pixels, the WCS centred on the source and its PSF. "
 "A stamp reaching out of the image is refused, or when clipping is asked for reduced to the part inside; an extractor serves exactly the sources that are not parents. The exposures are not modified.",
 ["inputs", "configurations"], "every origin, source position (also at edges and corners), stamp size, clipping and number of bands",
 "the tests extract stamps of well-contained sources; clipping and origins need sources everywhere",
 ["metadetect/lsst/util.py", "metadetect/lsst/mbobs_extractor.py"], [("box", "metadetect/lsst/util.py:get_bbox"), ("stamps", "metadetect/lsst/util.py:get_stamp_mbobs"), ("extractor", "metadetect/lsst/mbobs_extractor.py:MBObsExtractor")],
 "Hypothesis sources vs. direct slices of the planes", "Pixels exactly.")

prop("P22", "Deblended LSST stamps contain the source's data without its modelled neighbours",
 "An image with the models of all sources subtracted equals the data minus the sum of the models, and inside a context that adds sources back exactly these models are present again; leaving it, normally or by an exception, restores the subtracted image. "
 "Stamps, observations and boxes of a source, of the deblended, original or model kind and of any size, are the exact cut-outs of that image around its peak, with the mask, variance, WCS and PSF of the original, and sources without a model are refused. "
 "Neither the original exposures nor what was returned before are modified.",
 ["histories", "inputs", "configurations"], "every origin, number of bands and blends, and every sequence of nested contexts, queries and edits of what was returned",
 "the tests add one source back and compare one stamp; errors in restoring only show in histories of nested contexts",
 ["metadetect/lsst/model_subtractor.py"], [("subtractor", "metadetect/lsst/model_subtractor.py:ModelSubtractor"), ("context", "metadetect/lsst/model_subtractor.py:ModelSubtractor.add_source"), ("stamps", "metadetect/lsst/model_subtractor.py:ModelSubtractor.get_stamp")],
 "Hypothesis model-based histories against a pixel model", "Pixels to float32 rounding; the models are given.",
 state=[("mbexp", "the image with models subtracted", "ModelSubtractor.mbexp")])

prop("P23", "Replacing LSST sources by noise is local, reversible and statistically right",
 "While a noise replacer is active every source's footprint holds white noise of the local variance (or the noise given) and inserting a source shows exactly its own pixels in all bands; outside of the footprints nothing changes. "
 "After each insertion the noise is back, and at the end, also when an exception ends it, the image is exactly the original. "
 "A noise image of an exposure has zero mean, the variance of its exposure, independent pixels that follow from the generator given, and leaves the exposure alone.",
 ["histories", "fault_sequences", "inputs"], "every set of sources with children, number of bands, origin, history of insertions, exceptions and noise sources",
 "the tests replace one image once; restoration has to hold for every history and exception",
 ["metadetect/lsst/util.py"], [("multiband", "metadetect/lsst/util.py:MultibandNoiseReplacer"), ("context", "metadetect/lsst/util.py:ContextNoiseReplacer"), ("noise", "metadetect/lsst/util.py:get_noise_image")],
 "Hypothesis histories against a pixel model; moments of the noise", "Noise statistics within 6-7 sigma.")

prop("P24", "LSST metacal images are the sheared galaxy convolved with the round dilated PSF",
 "For every requested shear type the metacal exposure of a band shows the galaxy of that band deconvolved, sheared by exactly that shear in the sky frame and convolved with a round PSF a little larger than the band's own; the exposure carries that PSF and the original WCS, origin, mask and filter. "
 "With fixnoise the noise image counter-rotated with the same operations is added and the variance is the sum; the result is linear in image and noise. "
 "The inputs are not modified and unknown types are refused.",
 ["inputs", "configurations"], "every origin, orientation, parity and shape of the image, position and shape of galaxy and PSF, position-dependent PSFs, bands and types",
 "the tests compare with the same code run through ngmix; the analytic image of a Gaussian needs no second implementation",
 ["metadetect/lsst/metacal_exposures.py"], [("metacal", "metadetect/lsst/metacal_exposures.py:get_metacal_exps"), ("fixnoise", "metadetect/lsst/metacal_exposures.py:get_metacal_exps_fixnoise"), ("bands", "metadetect/lsst/metacal_exposures.py:get_metacal_mbexps_fixnoise")],
 "Hypothesis Gaussians vs. analytic images; linearity", "Images within 3e-4 of the peak.")

prop("P25", "LSST sky subtraction removes exactly the measured sky, iterating per band",
 "Each iteration of each band measures the sky ignoring the pixels masked as bad or detected so far, subtracts it from the image only, and detects sources with the configured threshold for the next iteration; the total sky is recorded. "
 "Variances, PSFs, WCS and the caller's configuration do not change, a failure of one step ends that band only, and fewer than one iteration is refused. "
 "The sky left in an image with sources is compatible with zero, whatever its level.",
 ["inputs", "configurations", "fault_sequences"], "every number of bands and iterations, sky level, threshold and failing call",
 "the tests check one image with one sky; the sequence of steps and failures needs generated histories",
 ["metadetect/lsst/skysub.py"], [("bands", "metadetect/lsst/skysub.py:subtract_sky_mbexp"), ("one", "metadetect/lsst/skysub.py:iterate_detection_and_skysub")],
 "Hypothesis call histories with injected failures; noisy images", "Stand-in background (mean of unmasked pixels).")

prop("P26", "The LSST measurement gives one row per source, holding its own measurements",
 "Measuring gives one row for every source that is not a parent, in order, with its position, centroid offset from the peak, sky coordinates, stamp size and origin and the mask bits of its own peak pixel without the detection bit. "
 "Shapes, sizes and fluxes are those of its own stamp with modelled neighbours removed, using exactly the configured shear bands and weight function. "
 "A source whose stamp leaves the image, has no weight or no PSF gets a flag that says so and unattempted fits, and neither ends nor changes the measurement of others; exposures are not modified.",
 ["inputs", "configurations", "fault_sequences"], "every number of bands, origin, orientation and set of sources, with parents, failing centroids, bands without weight or PSF, stamp sizes and shear bands",
 "the tests measure a few good sources; edge, parent and failure combinations need generated scenes",
 ["metadetect/lsst/measure.py"], [("rows", "metadetect/lsst/measure.py:measure"), ("columns", "metadetect/lsst/measure.py:get_output"), ("mask", "metadetect/lsst/measure.py:get_bmask")],
 "Hypothesis scenes vs. stamps fitted independently", "Fits within 0.2-2 percent.")

prop("P27", "LSST detection runs on the mean of all bands with the configured settings",
 "Sources are detected exactly once, on the weighted mean of all bands (or the only band) as a single-precision exposure with its mask, variance and PSF, with the configured threshold and settings, never in pixels masked as edge, bright or without data, and deblended from the same data with the configured deblender. "
 "What comes back are all sources and children, that detection image, and the models if there are any; without any weight there are no sources. "
 "Sources brighter than the threshold are found at their place and no others, and neither exposures (except for their detection bits) nor configuration are modified.",
 ["inputs", "configurations"], "every number of bands, origin, noise level, mask, PSF, threshold, override, deblender and set of sources, also without data or sources",
 "the tests run one simulated image with default settings; ignored settings, bands without data, data without i band need generated worlds",
 ["metadetect/lsst/measure.py", "metadetect/lsst/util.py"], [("task", "metadetect/lsst/measure.py:DetectAndDeblendTask"), ("settings", "metadetect/lsst/measure.py:get_detect_and_deblend_task"), ("scarlet data", "metadetect/lsst/util.py:make_deconvolved_mbexp")],
 "Hypothesis worlds with recorded stack calls, and real detections of known sources", "The stack's own detection is a stand-in.")

prop("P28", "An LSST metadetect run measures what is detected in each sheared image",
 "A run returns exactly the requested shear types (plus PSF statistics when asked), each with the rows of the sources detected in that type's sheared images: true sources, unflagged when isolated, at their sheared positions with their sheared shapes and sizes, the round PSF of the configured target, no smaller than the original, the original images' masks, masked fraction and PSF, and the configured stamp size, shear bands, deblender and threshold; None where there is nothing. "
 "The same seed gives the same result, whatever the global random state and whether a default is written out, and sky subtraction makes it independent of the sky level; a failed fit of an original PSF is flagged in every row and ends nothing. "
 "Unknown settings, types or bands and bands without any variance are refused, and the caller's data and configuration are not modified (but for detection bits and the sky, when subtracted).",
 ["inputs", "configurations", "fault_sequences"], "every number of bands, origin, orientation, parity, noise level and set of sources, all subsets of types and settings, failing PSF fits",
 "the tests run single simulations and look at names and lengths; that types, bands and settings are not mixed up needs true shapes and positions in generated worlds",
 ["metadetect/lsst/metadetect.py"], [("run", "metadetect/lsst/metadetect.py:MetadetectTask.run"), ("entry", "metadetect/lsst/metadetect.py:run_metadetect"), ("per type", "metadetect/lsst/metadetect.py:detect_deblend_and_measure")],
 "Hypothesis scenes vs. their analytic truth; metamorphic reruns; injected faults", "Shapes within the noise (S/N 300 and more).")

prop("P29", "LSST rows carry masked fraction, OR mask and PSF of the original images",
 "The masked fraction of a row is the Gaussian-weighted mean (FWHM 1.2 arcsec by default) within five sigma of its position of the masked fraction averaged over the bands with one over their median variance, zero when nothing is masked, and one off the image; its OR mask is the OR of all given OR masks at its nearest pixel. "
 "Its original PSF is the mean of e1, e2 and size at the image centre over the shear bands with the same weights, flagged when a fit fails. "
 "A band without finite positive variance or a shear band that does not exist is refused, other columns keep their values, and no input is modified.",
 ["inputs", "configurations", "fault_sequences"], "every image shape, scale, orientation, position, number of bands, variance map and PSF, with failing fits",
 "the tests check one constant fraction; positions at edges, rows versus columns, arcsec versus pixels need general geometry",
 ["metadetect/lsst/metadetect.py"], [("fraction", "metadetect/lsst/metadetect.py:measure_weighted_mfrac"), ("mean fraction", "metadetect/lsst/metadetect.py:get_mfrac_mbexp"), ("or mask", "metadetect/lsst/metadetect.py:add_ormask"), ("psf", "metadetect/lsst/metadetect.py:fit_original_psfs_mbexp")],
 "Hypothesis images vs. brute-force sums; Gaussian PSFs; injected faults", "Fractions within 1e-5, PSFs within 0.5 percent.")

prop("P30", "LSST photometry measures the detected sources of the images as given",
 "A photometry run returns one table of the sources detected in the given images, with true positions, PSF-corrected shapes and sizes and the relative fluxes of all bands (isolated ones unflagged), the images' own PSF, masks and masked fraction, and the configured stamp size, shear bands, deblender and threshold; None where there is nothing. "
 "The same seed gives the same result, whatever the global random state and whether a default is written out, and a failed fit of an original PSF is flagged and ends nothing. "
 "Unknown settings or bands and bands without any variance are refused, and the caller's data and configuration are not modified (but for detection bits and the sky, when subtracted).",
 ["inputs", "configurations", "fault_sequences"], "every number of bands, origin, orientation, parity, noise level and set of sources, all settings, failing PSF fits",
 "the tests run single simulations and look at names and lengths; ignored settings and mixed-up bands need true values in generated worlds",
 ["metadetect/lsst/photometry.py"], [("run", "metadetect/lsst/photometry.py:run_photometry")],
 "Hypothesis scenes vs. their analytic truth; metamorphic reruns; injected faults", "Shapes and fluxes within the noise (S/N 300 and more).")

prop("P31", "A do_metadetect run recovers the shear of the sky",
 "For every scene of well measured isolated galaxies, do_metadetect finds each galaxy in every sheared catalogue at its position moved by that artificial shear in sky coordinates, and gives its true position as the unsheared one. "
 "The shape averages of the sheared catalogues give a positive response to the same shear component and none to the other, and the mean shape of the unsheared catalogue divided by this response is the true shear of the scene, for every kind of fitter, WCS, set of bands and shear step.",
 ["inputs", "configurations"], "every shear, WCS orientation, parity and distortion, PSF shape, reference pixel, number of bands, noise level, shear step, fitter and set of galaxies",
 "this is what the package is for; the tests check it for one simulation each with loose bounds, and a sign, axis, step or band mixed up in one setting only shows in generated scenes",
 ["metadetect/metadetect.py", "metadetect/detect.py", "metadetect/shearpos.py", "metadetect/fitting.py"],
 [("run", "metadetect/metadetect.py:Metadetect.go"), ("position", "metadetect/shearpos.py:unshear_positions")],
 "Hypothesis scenes with real detection and metacal vs. their analytic positions and shear", "The tolerance is 7 standard errors of the mean shape plus 2% of the shear (S/N 3000 and more). ngmix itself is a stand-in with galsim's own shears.")

prop("P32", "A run depends only on its inputs and follows changes of units, bands and sky",
 "The same inputs and seed give the same do_metadetect result, whatever ran before, whatever the global random state and whether defaults are written out; inputs are not modified. "
 "Images in other units give the same tables with scaled fluxes; another order of the bands permutes the band columns; a list of band combinations or of fitters, or of types, gives what each alone gives; a moved reference pixel changes nothing; a mirrored sky changes the signs of the second shape component and exchanges 2p and 2m.",
 ["inputs", "configurations", "histories"], "every scene (blended, near the edge, masked), configuration, band combination and change of the kinds above",
 "the tests compare no two runs; a state kept between calls, a column of the wrong band or an absolute constant needs two related runs",
 ["metadetect/metadetect.py", "metadetect/detect.py", "metadetect/shearpos.py", "metadetect/fitting.py", "metadetect/mfrac.py"],
 [("run", "metadetect/metadetect.py:Metadetect.go"), ("columns", "metadetect/metadetect.py:Metadetect._add_positions_and_psf")],
 "metamorphic relations between two runs on Hypothesis scenes", "The runs of separate bands, types and fitters are compared only for moment fitters, which draw no random numbers.")

