"""The properties, their anchors and how each is decided."""

EXH = 'stateless model checking: exhaustive bounded enumeration of %s, each executed on the real code and compared with a reference model'
HIST = 'explicit-state model checking: all operation histories up to a depth, the real code replayed step by step against a reference model (%s)'
ENVQ = 'stateless model checking: exhaustive exploration of environment answers (%s) driving the real code, with a reference oracle'

PROPS = []


def P(id, title, statement, over, for_all, why, files, mech, technique, level, note):
    assert len(title) <= 80, title
    PROPS.append(dict(id=id, title=title, statement=statement, over=over.split(),
                      for_all=for_all, why=why, files=files, mech=mech,
                      technique=technique, level=level, note=note))


MASK = 'metadetect/masking.py'
INTERP = 'metadetect/interpolate.py'

P('C01', 'Interpolating over a mask changes only the masked pixels',
  'Interpolating an image over a bad-pixel mask returns a new image in which every pixel outside the mask is bit-for-bit unchanged, every pixel is finite, and nothing depends on what the bad pixels held; the inputs are never modified. When the masked fraction exceeds the limit, or no good pixels that could support an interpolation exist, the answer is None instead of an exception or a partial image.',
  'inputs configurations', 'every mask of small images, every rectangle of larger ones, every setting of the masked fraction limit, search buffer, isolation buffer and noise filling',
  'the tests use one random mask and one all-bad mask; wrong window arithmetic at image borders, isolated-pixel handling and degenerate geometry need particular mask shapes',
  [INTERP], [('interpolate_image_at_mask', INTERP)],
  EXH % 'masks and settings', 'exploration',
  'complete for the stated mask and parameter bounds; scipy triangulation is trusted; values outside the mask are finite')

P('C02', 'Interpolated values are local and linear; noise fill has the right scale',
  'A masked pixel is filled by linear interpolation between good pixels that lie within the buffer distance of the masked region, so that a plane is reproduced exactly and good pixels further away cannot influence the result; a pixel outside the hull of those good pixels becomes zero. With noise filling, exactly the masked pixels whose whole surrounding window is masked receive one independent draw each with standard deviation 1/sqrt(median positive weight), and the result is a function of the inputs and the generator state only.',
  'inputs configurations', 'every mask of small images and every rectangle of larger ones, per buffer setting, weight map and generator',
  'the tests compare one random mask with a loose tolerance and never check locality or the noise scale',
  [INTERP], [('interpolate_image_at_mask', INTERP)],
  EXH % 'masks and settings', 'exploration',
  'values are decided on planes (exact linear interpolation) and by differencing far pixels; tolerance 1e-6')

P('C03', 'Foreground mask bits are set exactly inside the discs',
  'A foreground bit mask marks exactly the pixels whose centre is strictly closer to the position of some object than its radius, with the given bit value and nothing else; objects partly or wholly outside the image mark exactly the part that falls inside. Symmetrizing marks in addition exactly the 90 degree rotation of the marked pixels.',
  'inputs', 'all positions on a sub-pixel grid in and around the image, all radii of a list, pairs of objects, square and non-square images',
  'the tests place random stars in a large image and compare totals; boundary pixels, off-image objects and non-square images are not settled',
  [MASK], [('make_foreground_bmask', MASK)], EXH % 'positions and radii', 'exploration',
  'complete on the position grid; independent per-pixel oracle')

P('C04', 'The foreground apodization mask is the product of per-object ramps',
  'The apodization mask for foreground objects is, at each pixel, the product over objects of a smooth ramp which is 0 near the object, rises monotonically to 1 at the mask radius and is exactly 1 at and beyond it; every value lies in [0, 1] and an object off the image affects only pixels within its radius. Symmetrizing multiplies by the 90 degree rotated mask.',
  'inputs', 'all positions on a grid in and around the image, radii, apodization scales, pairs of objects',
  'the tests look at a few stars in one large image', [MASK],
  [('make_foreground_apodization_mask', MASK)], EXH % 'positions, radii and scales', 'exploration',
  'complete on the grid; the ramp is compared with an independent closed form to 1e-9')

P('C05', 'Edge apodization treats every band, edge and map consistently',
  'Apodizing the edges of an observation bundle multiplies image and noise of every band by the same ramp, which depends only on the distance to the four edges and is exactly 1 further inside than the ramp width; exactly where the ramp is below 1 the weight becomes 0, the masked fraction (if present) 1 and the mask bit is added to the existing bits. Everything else in the bundle stays the same, and no pixel is dropped from an observation whose weight is now zero everywhere.',
  'inputs configurations', 'all image sizes of a range in both directions, apodization scales, weight states, presence of the optional maps',
  'the tests use one image size with one band', [MASK],
  [('apply_apodization_corrections', MASK)], EXH % 'sizes, scales and bundle states', 'exploration',
  'complete on the grid of sizes and scales; reference ramp is an independent closed form')

P('C06', 'Foreground masking keeps image, weight, bits and masked fraction in step',
  'After any sequence of foreground masking operations on a bundle, a masked pixel has zero weight, masked fraction 1 and the mask bit, interpolated pixels carry the interpolation bit as well and hold finite values which do not depend on what was under the mask, and pixels outside the masks keep image, noise, weight and bits exactly. The requested expansion adds only its own bit, and only within the enlarged discs. If nothing sensible can be filled in, the whole band is marked and gets zero weight instead of failing or leaving bad values; an unknown method is rejected before anything changes.',
  'histories inputs configurations', 'every method x hole list x expansion x symmetrization x bundle state in one step, and every history of masking operations up to the depth bound',
  'the tests run each method once on a simulated image with many stars; holes covering everything, off-image holes, zero-weight bands and repeated application are not reached',
  [MASK], [('apply_foreground_masking_corrections', MASK)],
  HIST % 'edge and foreground masking operations', 'model_checking',
  'all histories to depth 3 (quick) / 4 (thorough) over 7 operations; model states are weights, bits and masked fractions; every trace replayed on the implementation')

FIT = 'metadetect/fitting.py'
DET = 'metadetect/detect.py'
CFG = 'metadetect/lsst/configs.py'
DFT = 'metadetect/lsst/defaults.py'
SPOS = 'metadetect/shearpos.py'
MFR = 'metadetect/mfrac.py'

P('C08', 'Measurement configurations resolve against intact defaults',
  'Resolving a user configuration for the LSST measurement gives exactly the defaults with the given settings replaced, section by section, at any nesting; a setting that does not exist is rejected wherever it appears. Neither the defaults nor the configuration passed in are ever changed, so that any later resolution is independent of earlier ones and of what callers did with their results.',
  'configurations histories', 'every combination of absent, empty, valid and invalid settings of all sections, and every history of resolving and modifying results up to the depth bound',
  'the tests resolve a handful of settings once; leaking state needs several resolutions in a row with modifications between them',
  [CFG, DFT], [('get_config', CFG), ('DEFAULT_MDET_CONFIG', DFT)],
  HIST % 'resolve and modify operations', 'model_checking',
  'all combinations and all histories to the depth bound; the metacal section accepts any key here')

P('C09', 'Positions are sheared and unsheared about the image centre on the sky',
  'Shearing a position by a metacalibration type moves it exactly as the sky shear of that type about the image centre does under the local linear coordinate system; unsheared positions are the exact inverse, so a round trip restores the position. Types without shear of the object leave positions unchanged, and an unknown type is rejected.',
  'inputs', 'every type x step x image shape x coordinate system (rotated, flipped, skewed, shifted) x position set of the menus',
  'the tests use one square image with an aligned coordinate system and random positions',
  [SPOS], [('unshear_positions', SPOS), ('shear_positions', SPOS)],
  EXH % 'types, steps, coordinate systems and positions', 'exploration',
  'complete on the menus; independent matrix oracle to 1e-8 pixels')

P('C10', 'Postage stamps are faithful, independent windows of the full images',
  'Each stamp of each band (image, weight, noise, segmentation, bit mask) shows exactly the pixels of that band around the object with the coordinate system centred on the object; pixels outside the image have zero image and weight and carry the edge bit. Stamps are copies, object numbers and stamps agree, and the segmentation based weights remove exactly the pixels that lie closer to another object.',
  'inputs', 'every position of a grid in and around the image x every box size from smaller to larger than the image x shapes x numberings',
  'the tests look at objects well inside large images; stamps crossing each border and corner, boxes larger than the image and neighbours are not settled',
  [DET], [('CatalogMEDSifier', DET), ('MEDSifier', DET)], EXH % 'positions, box sizes and bundles',
  'exploration', 'complete on the grid; independent per-pixel oracle; square stamps, one epoch per band')

P('C11', 'Detection sees the weighted mean of exactly the detection bands',
  'The image handed to the source detector is the weighted mean over the bands with the matching noise level, and a pixel is masked for detection exactly when it has no usable weight or carries a rejected bit in some band. The stamp size of each detection is the smallest allowed size that covers the configured multiple of its radius within the configured limits, and the catalogue has one row per detection in order.',
  'inputs configurations environments', 'every combination of band weights, masks and detection flags, and every detection answer and box configuration of the menus',
  'the tests run the detector on simulated images where a wrong combination of bands is invisible',
  [DET], [('MEDSifier', DET), ('run_detection_sep', DET)],
  ENVQ % 'detections, with every bundle state', 'exploration',
  'the detector is replaced by enumerated answers and its inputs are captured')

P('C12', 'The masked fraction of an object is a local weighted mean in [0, 1]',
  'The masked fraction measured for an object is the Gaussian weighted mean of the masked fraction map over the pixels of the image in the aperture, always in [0, 1], and independent of the map outside the aperture and of other objects. It is 1 where nothing can be measured.',
  'inputs', 'every position of a grid in and around the image x box size x aperture x map x weight state',
  'the tests compare a few positions on two maps', [MFR], [('measure_mfrac', MFR)],
  EXH % 'positions, boxes, apertures and maps', 'exploration',
  'Gaussian sums come from a stand-in of the ngmix interface; tolerance 1e-5')

P('C13', 'Failures of single bands are neither lost nor invented',
  'When per-band moments are combined, any unusable band among those used (missing, without weight, rejected bits, failed object or psf measurement) shows as flags with the matching reason in the combined row, and no flag is raised when all used bands are fine; a zero flag implies that the corresponding values and errors are finite. The state of a band that is not used for shear can affect only its own fluxes, and every object of a list gets its own row whatever happens to the others.',
  'faults configurations', 'every assignment of data states and fit answers of object and psf to up to three bands, and menus of assignments of up to six, x choice of shear bands x regularization',
  'the tests have one failing case per fitter; partial failure in one of several bands, and combinations of failures, are not reached',
  [FIT], [('fit_mbobs_wavg', FIT), ('fit_mbobs_list_wavg', FIT)],
  ENVQ % 'failure states of every band and fit', 'fault_enumeration',
  'all single, pair and (reduced menu) triple band assignments; one epoch per band')

P('C14', 'Bands are averaged with their inverse variances, whatever their order',
  'The combined moments and psf quantities are the averages of the per-band values weighted with the inverse variance of each band as measured from the weights actually used, and they do not depend on the order in which shear bands are named. Each band flux belongs to its own band, psf quantities are those of the same bands, and regularization affects the shape but not the size.',
  'inputs configurations', 'every assignment of weight maps to up to three bands, and menus of up to six, x order and choice of shear bands x symmetrization x regularization',
  'the tests use bands with equal weights, where wrong weights cancel', [FIT],
  [('fit_mbobs_wavg', FIT)], EXH % 'weight maps, bands and options', 'exploration',
  'per-band moments are prescribed; independent average as the oracle')

P('C15', 'Coadding the shear bands is an inverse variance average',
  'Coadding bands gives, pixel by pixel, the weighted mean of image and noise, the summed weight, the or-ed bits and the averaged masked fraction of exactly the requested bands, and the psf coadded with the same weights. Bands that cannot be combined are reported with a flag and no observation instead of an exception, and the inputs stay untouched.',
  'inputs configurations', 'every assignment of band states to up to three bands x every ordered choice of shear bands, existing or not, and menus of up to six bands',
  'the tests coadd identical bands', [FIT], [('make_coadd_obs', FIT)],
  EXH % 'band states and choices', 'exploration', 'independent per-pixel average; non negative weights')

P('C16', 'Joint fits contain every failure of the psf and object fits',
  'Whatever the psf and object fits answer (success, failure, missing quantities, any exception), a joint fit returns one row per object, in order, in which zero flags mean that every stage succeeded and values are those of the fit, and otherwise flags name the stage that failed and the values it would have given are NaN. Data that cannot be used is flagged with the reason and never fit, and a band flux is only valid if its band was fit.',
  'faults configurations', 'every sequence of fit answers (with retries) up to the deviation bound, per assignment of data states to bands, choice of shear bands and coadding',
  'the tests see fits that work; failure of a later stage after an earlier one succeeded, with retries, needs injected answers',
  [FIT], [('fit_mbobs_list_joint', FIT)], ENVQ % 'answers and exceptions of every fit attempt',
  'fault_enumeration', 'all answer sequences up to the stated number of deviations; fitters are stand-ins')

P('C17', 'Symmetrized weights are invariant under 90 degree rotations',
  'Symmetrizing the weights of an observation gives zero weight exactly to the pixels which have none in some 90 degree rotation of the weight map, so that the result is invariant under such rotations, and leaves the weights of the others and every other quantity unchanged. The input is not modified, and doing it twice changes nothing more.',
  'inputs', 'every zero-weight pattern of small stamps and every pair of such pixels in larger ones',
  'the tests use one mask', [FIT], [('symmetrize_obs_weights', FIT)],
  EXH % 'zero weight patterns', 'exploration', 'complete for the stated stamp sizes; square stamps')

P('C18', 'Results of several fitters are put side by side without mixing rows',
  'Combining the results of several fitters keeps every column of every fitter with all rows in order, and gives nothing if there is nothing to combine; results of different length or shear bands are refused. A fresh result row carries the flag of a measurement not attempted and NaN for every value, so that what was never measured can not look measured.',
  'inputs', 'every list of up to three fitter results over the menu of sizes, bands and shear bands',
  'the tests combine two results once', [FIT], [('combine_fit_res', FIT)],
  EXH % 'result lists', 'exploration', 'complete on the menu')

MD = 'metadetect/metadetect.py'
PFL = 'metadetect/procflags.py'
UTL = 'metadetect/util.py'

P('C19', 'A run gives no result exactly when nothing can be measured',
  'A metadetection run gives None exactly when no pixel is less than fully masked, some band has no weight at all or is masked everywhere for detection, or metacalibration fails because of the psf; otherwise the result has exactly the requested sheared types as keys, each with all detections of its own image or None if there are none. A failed fit of the original psf is flagged in every row without losing the measurements, and the input data and configuration stay as they were.',
  'faults environments configurations', 'every assignment of weight, mask and masked fraction states to one or two bands, and every outcome of psf fits, metacalibration and the detection per sheared image',
  'the tests run a few fully good or fully bad images; a single bad band among several or an empty detection in one sheared image is not reached',
  [MD], [('do_metadetect', MD), ('Metadetect', MD)],
  ENVQ % 'psf fits, metacalibration, detections per sheared image', 'fault_enumeration',
  'metacalibration, detection and fitters of ngmix/sxdes are stand-ins')

P('C20', 'Every catalogue row describes its own detection, image and bands',
  'Each row of a result holds the measurement of its own detection on the image of its own sheared type with exactly the named shear and detection bands, the detected position and the same position unsheared with the step used, the or of the mask bits in the configured window around both positions, the masked fractions at both positions and over the image, and the psf size and shape averaged over the shear bands. Columns of all configured fitters are present and rows come in the order of band combinations and detections.',
  'configurations inputs', 'every combination of fitters, windows, apertures, steps, types, weights, band choices and detections of the menus, near and far from the image borders',
  'the tests check that columns exist and are finite; which band, position, step or window a value comes from is not visible there',
  [MD, SPOS, MFR], [('do_metadetect', MD), ('Metadetect', MD)],
  EXH % 'settings, band choices and detections', 'exploration',
  'compared with an independent model of the whole run; menus of settings; metacalibration and detection are stand-ins')

P('C21', 'Measurements in one run do not influence each other; colour picks the data',
  'The result of a run over several band combinations is the concatenation of what runs with each combination alone give, in any order and when run again. With colour dependent data each object is measured exactly as in a plain run on the data of its colour (the original data if it has none), where the colour comes from the fluxes of that object; in particular colours that all mean the original data change nothing. Inconsistent arguments are refused.',
  'histories configurations', 'every sequence of band combinations up to the depth bound and every assignment of colours to up to three objects',
  'the tests use one combination or one colour; stale cached data shows only in particular sequences of bands and colours',
  [MD], [('Metadetect', MD)], HIST % 'measurements of band combinations and colours', 'model_checking',
  'all histories to depth 3 (quick) / 4 (thorough) over five combinations; deterministic stand-ins for metacalibration and detection')

P('C22', 'Processing flags decode to exactly the failures they hold',
  'All processing flags are distinct single bits that fit the catalogue columns and do not clash with those of the fitting library, and any combination of them decodes to exactly the names of the failures it holds. Composed column names carry front and back exactly when given.',
  'inputs', 'every combination of all processing flags, with flags of the fitting library, and all name parts of the menu',
  'the tests look at one or two values', [PFL, UTL], [('get_procflags_str', PFL), ('Namer', UTL)],
  EXH % 'flag combinations', 'exploration', 'complete for the flags; library flags from the stand-in')

LMASK = 'metadetect/lsst/masking.py'
LUTL = 'metadetect/lsst/util.py'
LSUB = 'metadetect/lsst/model_subtractor.py'
LEXT = 'metadetect/lsst/mbobs_extractor.py'
LMEAS = 'metadetect/lsst/measure.py'
LCAL = 'metadetect/lsst/metacal_exposures.py'
LSTK = 'the lsst stack is replaced by small stand-ins with its semantics'

P('C07', 'Masking of multi-band exposures keeps all planes of all bands in step',
  'After any sequence of edge and bright-object masking of multi-band exposures, every band, its noise exposure and the or-masks have the image multiplied by the ramp, infinite variance exactly where the ramp is below 1 and the named bit set there, with the expanded bit exactly in the enlarged discs; the masked fraction is 1 in the masked pixels. Everything else stays as it was, sky positions are converted with the exposure\'s own coordinate system and origin, and mask bits are those registered for the names.',
  'histories inputs', 'every shape, origin, set of optional exposures and list of objects, and every sequence of masking operations up to the depth bound',
  'the tests for this part need the survey stack and run one simulated field; image origin, optional exposures and repeated masking are not reached',
  [LMASK], [('apply_apodized_bright_masks_mbexp', LMASK), ('apply_apodized_edge_masks_mbexp', LMASK)],
  HIST % 'masking operations on exposures', 'model_checking', LSTK)

P('C23', 'Source replacement by noise is undone exactly, also after failures',
  'While noise replacement is active exactly the pixels of all sources are noise in every band, and inserting one source brings back exactly the original pixels of that source; leaving, by success or by an exception at any point and in any band, restores every pixel of every band and no band is left behind. Image planes other than the pixels of the sources, the mask, the variance, the psf and the catalogue stay as they were.',
  'faults histories', 'every sequence of insertions up to the depth bound over catalogues with blends, with a failure at every call of every band',
  'failures in the middle of a multi-band operation do not occur in tests', [LUTL],
  [('MultibandNoiseReplacer', LUTL), ('ContextNoiseReplacer', LUTL)],
  'stateless model checking: every history of insertions and removals with a fault injected at every call, executed on the real code and compared with a pixel model',
  'fault_enumeration', 'the single-band noise replacer of the stack is a stand-in with its semantics')

P('C24', 'Subtracting source models and adding them back is exact at every step',
  'The image with models subtracted is at every step the original minus the models of all sources not currently added, in every band, for any order and nesting of additions and also when leaving by an exception; afterwards nothing has changed, and the original exposures are never modified. Model images, stamps and observations of a source show exactly its own model in the requested window, and sources come in catalogue order.',
  'histories', 'every sequence of operations (nested, raising) up to the depth bound for the layouts, bands and psf kernels of the menus',
  'the tests for this part need the survey stack; they add sources one after another once', [LSUB, LEXT],
  [('ModelSubtractor', LSUB), ('MBObsExtractor', LEXT)],
  HIST % 'adding and removing of models', 'model_checking', 'the scarlet model containers are stand-ins')

P('C25', 'Stamps of exposures show their own pixels, coordinates and psf',
  'A stamp of a source shows exactly the pixels, mask bits and position of the requested window around its peak in every band, with a constant weight given by the median of the usable variance, the local coordinate system of the measured position (of the peak if there is none) and the psf at that position. A window which does not fit is refused unless clipping is requested, data without any weight and psfs which can not be used are reported as missing data, and the exposures are not changed.',
  'inputs', 'every peak position and size in small exposures, offsets, coordinate systems, and patterns of unusable variance',
  'positions near borders, unusual origins and missing centroids are rare in simulated tests', [LUTL, LEXT],
  [('get_stamp_mbobs', LUTL), ('extract_obs', LUTL)], EXH % 'windows, offsets and variances',
  'exploration', LSTK)

P('C26', 'Multi-band measurements describe each detected object once, in order',
  'Every undivided detected object and every child of a blend is measured exactly once and in catalogue order, from the image in which only itself is present, giving one row with its own position, sky position, mask bits, flags and fits of the requested bands and shear bands; a stamp that crosses the border or has no weight is flagged as such and not fit. Detection runs once on the inverse variance weighted coadd of the usable bands with the requested threshold and never on unusable data; without objects there is no result.',
  'inputs environments', 'every combination of detection answers (blends, borders, none), deblender, bands, shear bands, centroid answers, mask bits and missing data of the menus',
  'blends at borders, failing centroids, missing bands and their order are not reached with simulated fields', [LMEAS, LUTL],
  [('measure', LMEAS), ('DetectAndDeblendTask', LMEAS)], ENVQ % 'detections, deblending and centroids',
  'exploration', 'detection, deblenders and centroid of the stack are stand-ins')

P('C27', 'Sheared exposures have the requested shear, psf and noise',
  'For each requested type and band the sheared exposure is the image deconvolved, sheared on the sky by the named shear about its centre and convolved with the round target psf, plus the noise image treated with the opposite shear, with twice the variance; its psf is that target. The result of one band or type does not depend on what else is made, unknown types are refused, the mask, coordinate system and filter are kept, and the inputs stay as they were.',
  'inputs configurations', 'every list of types up to the bound, bands, shapes, origins, coordinate systems and object shapes of the menus',
  'the tests compare with another implementation for one field; odd shapes, rotated coordinates and orders of types are not settled', [LCAL],
  [('get_metacal_mbexps_fixnoise', LCAL)], EXH % 'types, bands and geometries', 'exploration',
  'compared with closed forms for gaussian images to 1e-3 of the peak')

LMD = 'metadetect/lsst/metadetect.py'
LSKY = 'metadetect/lsst/skysub.py'
LPHOT = 'metadetect/lsst/photometry.py'

P('C28', 'A metadetection run measures every requested sheared image on its own',
  'A run on multi-band exposures gives exactly one catalogue per requested type (and the psf statistics when asked for), each holding what detection and measurement of that sheared image alone give, together with masked fraction and or-mask of the input at the position of the object and the moments of the original psf over the shear bands. A failed psf fit means no result where the psf is needed for shearing and is flagged in every row otherwise; settings that can not be used are refused, settings given are used, and input data and configuration stay as they were, except for the image and detection mask when sky subtraction is requested.',
  'inputs configurations faults', 'every combination of detection answers per sheared image, bands, shear bands, types, optional inputs and settings of the menus, with failure of each psf fit',
  'the tests need the survey stack and look at few settings on one field; psf failures, optional inputs and objects leaving the image are not reached',
  [LMD, LMEAS], [('run_metadetect', LMD)], ENVQ % 'detections, centroids, deblending and psf fits per sheared image',
  'fault_enumeration', LSTK + '; sheared images are decided by C27')

P('C29', 'Masked fraction, or-mask and psf summaries are those at the object',
  'The masked fraction of an object is the gaussian weighted mean of the masked fraction image (the weighted mean over the bands) around its centroid, the or-mask the union over bands in its pixel, with no information taken from outside of the image or from its opposite side. The summary of the original psfs is the weighted mean over the shear bands of the per-band fits, in which every band is retried and a failure is flagged and never averaged. Inputs are unchanged.',
  'inputs faults', 'every position of a sub-pixel grid in and around the image with every single masked pixel, every list of or-masks, every assignment of variance states and of psf fit outcomes to bands and tries',
  'tests use square images with objects in the middle and fits that work', [LMD, LUTL],
  [('measure_weighted_mfrac', LMD), ('fit_original_psfs_mbexp', LMD)],
  EXH % 'positions, pixels and psf fit outcomes', 'fault_enumeration', LSTK)

P('C30', 'Coadds, copies and conversions of exposures keep the data of every band',
  'A coadd is the inverse variance weighted mean of the exposures that have usable pixels, with summed weights, the union of the masks and the normalized weighted mean of their psfs at the position of the coadd; there is none without data and its pixels are always finite. Conversion to observations and back, any number of times, and copies keep image, weight, mask, coordinate system and psf, and results never share pixels with the inputs, which stay as they were.',
  'inputs histories', 'every assignment of variance states to up to three exposures (menus of up to six), shapes, origins and band orders, and every chain of conversions up to the depth bound',
  'tests convert once with constant variance', [LUTL],
  [('coadd_exposures', LUTL), ('exp2obs', LUTL)], EXH % 'variance states and conversion chains',
  'exploration', LSTK + '; coadd pixels are claimed where all contributing exposures have data')

P('C31', 'Iterated sky subtraction removes exactly the measured sky, also with failures',
  'Each iteration measures the sky with all detected pixels ignored and subtracts exactly that from each band; a known failure of measurement or detection leaves that step out and never aborts or corrupts the others. Over all iterations each image is the original minus the sum of the measured skies, with that sum recorded; variance, psf and all mask bits but the detection bits are unchanged, and so is the configuration of the caller.',
  'faults histories', 'every sequence of answers (values and failures) of sky measurement and detection over bands and iterations up to the bound',
  'the tests run one simulated field in which nothing fails', [LSKY, LMEAS],
  [('iterate_detection_and_skysub', LSKY), ('subtract_sky_mbexp', LSKY)],
  'stateless model checking: every sequence of environment answers and failures over the calls of a run, executed on the real code and compared with a pixel model',
  'fault_enumeration', LSTK)

P('C32', 'Photometry measures the detected objects of the unsheared data',
  'A photometry run gives one row for each detected object with the fits of the requested bands and shear bands made on the original exposures with the requested detection threshold, deblender, stamp size and sky subtraction, plus masked fraction, or-mask and original psf moments; a failed psf fit is flagged in every row and settings that can not be used are refused. Input data and configuration stay as they were, except for the image and detection mask when sky subtraction is requested.',
  'inputs configurations faults', 'every combination of detection answer, deblender, bands, shear bands, optional inputs and settings of the menus, with failure of each psf fit',
  'the tests need the survey stack and use default settings', [LPHOT, LMEAS],
  [('run_photometry', LPHOT)], ENVQ % 'detections, centroids, deblending and psf fits',
  'fault_enumeration', LSTK)

P('C33', 'Results depend only on the data, the configuration and the random state',
  'With the same data, configuration and random state every run (metadetection, its LSST version, photometry, masking with noise, interpolation, noise replacement, shearing of exposures) gives bitwise the same result, whatever ran before in the same process, whatever the state of the global random generators and in whatever order sets are iterated. All random numbers come from the random state given by the caller, and no run changes the global random generators.',
  'histories configurations', 'every run of a menu over all entry points after every history of runs up to the depth bound, states of the global generators, and all iteration orders of sets of band and type names',
  'the tests run everything once per process with one hash seed', [MD, LMD, LUTL],
  [('do_metadetect', MD), ('run_metadetect', LMD), ('MultibandNoiseReplacer', LUTL)],
  HIST % 'runs of all entry points in one process', 'model_checking', LSTK)

P('C34', 'The unit of the fluxes does not matter',
  'When image and noise are multiplied by a factor and the weights (variances) changed accordingly, every run gives the same objects, flags, shapes, sizes, positions, masked fractions and summaries, while fluxes and their errors are multiplied by that factor. The same holds for masking, interpolation, noise filling and apodization, whose images scale and whose bit masks do not change.',
  'inputs configurations', 'every power of two of a menu as unit, for every fit, data state and band combination of the menu, for LSST runs over bands, deblenders, sky subtraction and reconvolution, and for every masking method',
  'the tests use one unit; a constant with the dimension of a flux is invisible to them', [MD, LMD, FIT, MASK],
  [('do_metadetect', MD), ('fit_mbobs_list_joint', FIT), ('run_metadetect', LMD)],
  EXH % 'complete runs in every flux unit', 'exploration', LSTK + '; priors of the gauss fit (which bound the flux) are left out')

P('C35', 'The order of the bands in the data does not matter',
  'When the bands of the data are given in another order, with the band combinations following them, every run gives the same objects, flags and values, where the per-band fluxes are in the order of the data or of the requested shear bands. No band of the data is special beyond what the configuration says.',
  'inputs configurations', 'every permutation of the bands for every fit, data state, band combination and colour cut of the menu, and for LSST runs over bands, shear bands, deblenders, sky subtraction and reconvolution',
  'the tests use one order, mostly with bands that look alike', [MD, LMD, FIT, LMEAS],
  [('do_metadetect', MD), ('fit_mbobs_list_joint', FIT), ('run_metadetect', LMD)],
  EXH % 'complete runs with every order of the bands', 'exploration', LSTK)

P('C36', 'The pixel grid and the frame on the sky do not matter',
  'The same sky on another pixel grid (rows and columns exchanged, another origin or reference point, other shapes of images that are not square) gives the same objects, flags, fluxes, shapes, sizes, sky positions, masked fractions and summaries, with the pixel positions and masks transformed like the grid. In a mirrored or rotated frame on the sky shapes, covariances and sky positions transform like that frame, and each sheared type becomes the type of the transformed shear.',
  'inputs configurations', 'every grid and frame transformation of the menu for every fit, data state, box and mask setting of core runs, for LSST runs over bands, coordinate systems, deblenders, stamp sizes and objects at the edge, and for all masks',
  'the tests use square images with a frame aligned to the grid, in which exchanged axes and wrong signs can not be seen', [MD, LMD, MASK, SPOS],
  [('do_metadetect', MD), ('run_metadetect', LMD), ('get_metacal_mbexps_fixnoise', LCAL)],
  EXH % 'complete runs on transformed pixel grids and skies', 'exploration', LSTK)

P('C37', 'Objects do not depend on data they are not measured from',
  'The values of an object depend on the pixels of its stamp only: a change of the image, noise, weight or mask of any pixel outside it changes none of its columns, and masks, or-masks and masked fractions depend on their region around the object only. Data and PSFs of a band that is not used for shear change at most the fluxes of that band (and what is explicitly measured from all bands), and data rendered for one color do not matter for objects of another.',
  'inputs configurations', 'every single pixel of every plane of every band for the first runs and a grid of them for all fits, mask regions, shear band combinations and colors, and for LSST photometry over deblenders, bands and neighbours',
  'the tests never change one pixel and look at the other objects, so that leaks between objects, bands and colors can not be seen', [MD, FIT, DET, LMEAS],
  [('do_metadetect', MD), ('run_photometry', LPHOT)],
  EXH % 'single pixel changes of complete runs', 'exploration', LSTK)

P('C38', 'Displaying changes nothing and shows what was asked for',
  'A run with its display switched on gives the same results, leaves the same data and the same random state as the run without, and nothing is displayed unless requested. Every display function leaves its inputs as they were, works for any number of bands and any of the accepted catalogues, and shows the requested images, variances, masks and titles, with objects marked at their positions relative to the corner of the image.',
  'inputs configurations', 'every run of the menu (core and LSST metadetection, photometry) with and without display, and every display function over numbers of bands, kinds of catalogue and options',
  'the tests never display anything', ['metadetect/lsst/vis.py', MD, LMD, LPHOT, LMEAS],
  [('show_mbexp', 'metadetect/lsst/vis.py'), ('do_metadetect', MD), ('run_metadetect', LMD)],
  EXH % 'runs with and without display and display calls', 'exploration', LSTK + '; matplotlib is real, the other display packages are stand-ins that remember what they are given')

P('C39', 'Runs in several threads of one process do not disturb each other',
  'When runs (metadetection, its LSST version, photometry, masking, interpolation, noise replacement, shearing of exposures, sky subtraction, configurations) are made in different threads of one process, each gives bitwise the result it gives on its own, wherever one thread is interrupted by the other. This holds for runs on data of their own and, for the same run of metadetection, interpolation or shearing made twice, also when both read the same data.',
  'schedules', 'every pair of runs of the menu and every line of the package executed by the first, before which it is stopped while the second runs to its end or, for the short runs, up to each of its own lines',
  'the tests use a single thread, and a disturbance needs an interruption at one particular place',
  [MD, FIT, MASK, LMD, LPHOT, LUTL],
  [('do_metadetect', MD), ('run_metadetect', LMD), ('run_photometry', LPHOT)],
  'stateless model checking: exhaustive exploration of the interleavings of two threads under a controlled scheduler, up to a bound on the switches, results compared with the runs on their own',
  'model_checking', 'switches happen between lines of Python code of the package, not within compiled code; the stand-ins for the libraries keep no state between calls')

P('C40', 'A run stopped at any point leaves no trace',
  'When a run (metadetection, its LSST version, photometry, masking, interpolation, noise replacement, shearing of exposures, sky subtraction) is stopped by an interrupt or error at any point, the data and configuration given to it are as before, unless the run changes them by design or they are just being replaced or restored, and so are the random and floating point states of the process. An interrupt is never swallowed, and runs made afterwards in the same process, on the same data, give bitwise the results they give in a clean one.',
  'crash_points', 'every run of the menu and every line of the package it executes, before which it is stopped',
  'no test stops a run, and a trace is left only when it is stopped at a particular place',
  [MD, FIT, MASK, LMD, LPHOT, LUTL],
  [('do_metadetect', MD), ('run_metadetect', LMD), ('run_photometry', LPHOT)],
  'exhaustive enumeration of crash points: every run is stopped before every line it executes, then data and state are compared and the run is made again',
  'fault_enumeration', 'runs are stopped between lines of Python code of the package, not within compiled code; the stand-ins for the libraries keep no state between calls')

P('C41', 'Catalogues have one form and their rows do not contradict themselves',
  'For given settings and numbers of bands all catalogues, of every sheared image and of every run, have the same columns of the same types and shapes, whatever the data and whichever fits fail, so that they can be stacked without a change of any row. In every row a value whose flag is zero is finite, an overall flag is zero only if those of the psf, the object and (for averages of bands) the fluxes it is made of are, flags have names, masked fractions are in [0, 1], and labels, positions and psf summaries are those that the run could give.',
  'inputs fault_sequences configurations', 'every run of the menu (core fitters, shear bands and colors, LSST metadetection and photometry) with each fit, each group of repeated fits and all fits of a kind answering in each way of a menu, each state of each band, and each number of detections',
  'the tests look at catalogues of successful runs, one at a time',
  [MD, FIT, LMD, LPHOT, LMEAS],
  [('do_metadetect', MD), ('run_metadetect', LMD), ('run_photometry', LPHOT)],
  EXH % 'sequences of failing fits and states of the data of complete runs', 'fault_enumeration', LSTK)

NOT_APPLICABLE = []
NOTES = ('ngmix, sxdes, meds and lsst.* are not installed here; /verif/env holds small '
         'stand-ins for the parts of their interfaces that metadetect uses, so that the real '
         'metadetect code runs. See DESIGN.md.')
