"""Single source of the property list; `python3 tools/props.py` rewrites properties.jsonl and MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, driver=None, note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, driver=driver, note=note, na=na))


I, H, CF, PR = "inputs", "histories", "configurations", "programs"

# ------------------------------------------------------------------ calibration database
prop("C01", "The calibration database returns the best matching calibration",
     "Asking the calibration database for a calibration of a given type for a frame returns, loaded from disk as that type, "
     "an entry of exactly that type whose observation time is closest to the frame's (for darks: among the entries with the frame's exposure time only); "
     "with no frame it returns the most recently created entry of that type. "
     "If no entry qualifies, or the requested type is not a calibration type, it raises ValueError instead of returning anything.",
     [I, H], "Every table content reachable by adds, updates, removals and scans, every calibration type, every frame time and exposure time.",
     "Tests ask for one dark in a table of one or two rows; ties, other types in between, earlier/later candidates, updates of a key and stale handles are never combined.",
     ["corgidrp/caldb.py"], [("selection by type, exposure time and time distance", "corgidrp/caldb.py:CalDB.get_calib")], "caldb")
prop("C02", "The calibration database is a table keyed by file path, shared through disk",
     "At any moment each file path has at most one row; registering a file adds its row or updates exactly that row, with its recorded columns describing the registered file, removing deletes exactly it (ValueError if absent), and no other row changes. "
     "Calls going through the disk first pick up what other handles stored and leave memory equal to disk; calls with disk access turned off change neither the disk nor any other handle. "
     "Scanning a folder registers exactly the calibration FITS files in it (and its subfolders unless told not to).",
     [H, I], "Every interleaving of add, update, remove, load, save, lookup and scan through any number of handles on one database file.",
     "Tests use one handle and one or two entries in sequence; lost updates, duplicate rows and in-memory/disk confusion need several handles and longer histories.",
     ["corgidrp/caldb.py"], [("load-modify-save around the keyed update", "corgidrp/caldb.py:CalDB.create_entry"), ("removal", "corgidrp/caldb.py:CalDB.remove_entry"), ("scan", "corgidrp/caldb.py:CalDB.scan_dir_for_new_entries")], "caldb")

# ------------------------------------------------------------------ walker
prop("W01", "Recipe choice follows the observation metadata",
     "For every input file list, automatic processing picks the documented recipe (or chain of recipes) for the first frame's data level and visit type (and, where they matter, photon-counting flag, steering-mirror loop state and uniformity of the list's exposure time and gains), and raises NotImplementedError when no recipe applies to the level.",
     [I], "Every combination of data level, visit type, photon-counting flag, steering-mirror loop state and header uniformity, whatever the later frames say.",
     "End-to-end tests run one recipe each; the decision table over all combinations, including unknown visit types, is never swept.",
     ["corgidrp/walker.py", "corgidrp/recipe_templates/"], [("decision table", "corgidrp/walker.py:guess_template")], "walker")
prop("W02", "Recipe generation and resolution of calibrations",
     "Generating a recipe turns the input list and output directory into a recipe for exactly those files, leaving the caller's template unchanged; each AUTOMATIC calibration becomes the absolute path of the best match in the database for the first frame, or with just-in-time lookup is left for processing time. "
     "A step whose AUTOMATIC,OPTIONAL calibration cannot be found is marked skipped, while a missing mandatory one raises ValueError unless recipe generation is configured to skip such steps; explicitly named calibrations and other keywords are kept as they are and already skipped steps stay skipped.",
     [I, CF], "Every template (steps, calibration requests, keywords, skips), database content and setting of the two pipeline options.",
     "Tests cover a single AUTOMATIC entry that is present; missing/optional/explicit mixes under both settings are not combined.",
     ["corgidrp/walker.py"], [("calibration fill-in", "corgidrp/walker.py:_fill_in_calib_files"), ("recipe generation", "corgidrp/walker.py:autogen_recipe")], "walker")
prop("W03", "Running a recipe executes exactly its steps in order and saves what it says",
     "Running a recipe applies its non-skipped steps exactly once each, in order, each to the previous step's output with the recipe's pipeline settings, keywords and calibrations loaded as their own types. "
     "The outputs are saved to the recipe's output directory exactly when the recipe says so, calibration products are registered in the calibration database when it says so, and every output records the recipe. "
     "If a step fails the error reaches the caller and nothing later runs.",
     [PR, CF], "Every recipe (sequence of steps, keywords, skips, save steps, multi-recipe chains) and every step at which a failure can occur.",
     "Tests run a few shipped recipes to completion; ordering, skipping, saving and failure at arbitrary positions are not observed.",
     ["corgidrp/walker.py"], [("recipe interpreter", "corgidrp/walker.py:run_recipe"), ("file saving", "corgidrp/walker.py:save_data")], "walker")

prop("W04", "Shipped recipes fit the steps, calibrations and levels they use",
     "Every recipe template shipped with the pipeline uses only known steps, calibration types and settings; gives each step calibrations that fit its parameters in order, the calibrations it cannot work without, and only keywords it accepts; applies level updates and unit conversions in their order from its input level; processes nothing further once it has made a calibration product; and ends by saving its result.",
     [PR], "Every recipe template, against the actual signatures of the step functions.",
     "Only some templates are run end to end, with full-size data; a template or signature changed alone goes unnoticed until someone runs it.",
     ["corgidrp/recipe_templates/", "corgidrp/walker.py"], [("templates", "corgidrp/recipe_templates/*.json"), ("step table", "corgidrp/walker.py:all_steps")], "recipes")

# ------------------------------------------------------------------ data model
prop("L01", "Data levels advance L1, L2a, L2b, L3, L4 and never skip",
     "A level-update step accepts a dataset only if every frame is at exactly the preceding level and otherwise raises ValueError leaving the dataset unchanged; on success every output frame carries the new level in header and file name, pixel data, errors and flags are unchanged, and the input dataset's headers and names are not altered. "
     "The update to L4 also requires a flux calibration and records the calibrations it is given in the headers; the update to TDA follows the same rules from L4.",
     [H, I], "Every dataset of mixed levels and every order of level updates.",
     "Tests call each update once on valid data; mixed-level datasets and the input's headers are not examined.",
     ["corgidrp/l1_to_l2a.py", "corgidrp/l2a_to_l2b.py", "corgidrp/l2b_to_l3.py", "corgidrp/l3_to_l4.py"],
     [("level checks", "corgidrp/*: update_to_l2a, update_to_l2b, update_to_l3, update_to_l4")], "levels")
prop("M01", "Processing steps never modify their inputs",
     "No pixel-processing or calibration-building step changes the data, errors, flags, headers or file names of the dataset, or of the calibration objects, passed to it; all changes are in the returned object.",
     [PR, I], "Every step function of the pipeline, every input dataset and calibration.",
     "Tests look at outputs; in-place changes of inputs or of a shared calibration show up only when the input is used again.",
     ["corgidrp/l1_to_l2a.py", "corgidrp/l2a_to_l2b.py", "corgidrp/l2b_to_l3.py", "corgidrp/l3_to_l4.py", "corgidrp/combine.py", "corgidrp/darks.py", "corgidrp/flat.py", "corgidrp/bad_pixel_calibration.py", "corgidrp/photon_counting.py"],
     [("copy before work", "corgidrp/data.py:Dataset.copy, Image.copy")], "purity")
prop("M02", "Dataset cubes and frames stay one object, copies are independent",
     "In every dataset just built, copied or returned by a step, the i-th slice of the data, error and flag cubes is the i-th frame's own array, so editing either changes the other; taking a subset, splitting or merging hands the frames over to the new dataset, whose cubes they then follow. "
     "A copy shares headers and file identity with nothing; a full copy shares no pixel memory with its source, and edits of any header (primary, extension, error, flags) never leak in either direction even for copies that skip the data; what a step returns shares no pixel memory with its inputs (level updates, which change headers only, excepted).",
     [H], "Every sequence of construction, copy, subset, in-place edit of cube or frame, error addition and step update.",
     "Tests compare values right after one operation; aliasing only shows after a later edit on one side.",
     ["corgidrp/data.py"], [("cube/frame pointers", "corgidrp/data.py:Dataset.__init__, update_after_processing_step, add_error_term, rescale_error"), ("copies", "corgidrp/data.py:Dataset.copy, Image.copy")], "dataset")
prop("M03", "Saving and loading a product reproduces it",
     "Saving any image or calibration product and loading it back, directly or through automatic type detection, gives the same type, data, errors, flags, extra extensions and header keywords, and its derived attributes equal those of the original; a file of another type is rejected by a calibration class's constructor.",
     [I], "Every product class, array shape, error layer count, flag values and extra extensions.",
     "Tests round-trip a few classes with one error layer and zero flags.",
     ["corgidrp/data.py"], [("FITS layout", "corgidrp/data.py:Image.__init__, Image.save"), ("type detection", "corgidrp/data.py:autoload")], "products")
prop("M04", "Error layers: combined error first, individual layers tracked on request",
     "Adding an error term replaces the combined error by the quadrature sum of it and the term, for every frame; the term's own layer is appended and named in the header exactly when individual tracking is on. "
     "Rescaling multiplies every error layer by the given map. Every term is recorded in the error header's history.",
     [H, CF], "Every sequence of error additions and rescalings on frames and datasets, with 2-D or per-frame terms, under both tracking settings.",
     "Tests add one or two terms; longer histories mixing frame- and dataset-level calls under both settings are not explored.",
     ["corgidrp/data.py"], [("error bookkeeping", "corgidrp/data.py:Image.add_error_term, Image.rescale_error, Dataset.add_error_term, Dataset.rescale_error")], "errors")
prop("M05", "Splitting a dataset is a partition by header values",
     "Splitting a dataset on any set of primary and extension header keywords yields non-empty groups in which every frame has the reported values for those keywords, distinct groups have distinct values, every frame (also one whose value is undefined) is in exactly one group, and frames keep their order within a group; with no keywords it raises ValueError.",
     [I], "Every assignment of values (numbers, strings, flags) to keywords over any number of frames.",
     "Tests split one dataset on one or two keywords.",
     ["corgidrp/data.py"], [("grouping", "corgidrp/data.py:Dataset.split_dataset")], "dataset")
prop("M06", "Calibration products record what they were made from and what they are",
     "A newly created calibration product records its type, data level CAL, its parents (the distinct file names of the frames that went into it and of what those frames were themselves made from, with their number), and a file name derived from its inputs with the product's suffix; creating one from a bare array whose headers do not already record its inputs, without saying what it came from, raises ValueError.",
     [I], "Every product class, every number of input frames and input file names.",
     "Tests check a few header keywords of a few products with two input frames.",
     ["corgidrp/data.py"], [("parent recording", "corgidrp/data.py:Image._record_parent_filenames"), ("product constructors", "corgidrp/data.py")], "products")
prop("M07", "A call's result depends only on its arguments",
     "Calling a step again on equal inputs gives equal pixels, errors, flags, headers (creation time apart) and file names, whatever other steps, options and calibrations were used in between; no call changes the package settings or the default options of later calls.",
     [H], "Every history of step calls in one process, with equal and differing options and calibrations.",
     "Each test makes its own calls from a fresh state; results leaking between calls through defaults, caches or shared objects need a history.",
     ["corgidrp/l1_to_l2a.py", "corgidrp/l2a_to_l2b.py", "corgidrp/l2b_to_l3.py", "corgidrp/l3_to_l4.py", "corgidrp/l4_to_tda.py", "corgidrp/combine.py", "corgidrp/data.py"],
     [("defaults and caches", "corgidrp/*: step functions; corgidrp/l3_to_l4.py:find_star")], "pipeline")
prop("H01", "Steps hand frames and headers along and record themselves",
     "A step returns exactly the frames its purpose says, in order (all of them, the selected ones, one per combined group carrying its first frame's headers and its last frame's name, or one for a PSF-subtracted sequence), each with its input frame's headers except the keywords the step documents. "
     "A processing step keeps the HISTORY and adds its own entry; the unit and level keywords follow the step; a step that cannot apply to the dataset raises instead of returning something.",
     [H, PR], "Every step on every dataset reachable by other steps, in any order.",
     "Tests look at the one keyword a step adds; lost keywords, history or frame identity after other steps are not examined.",
     ["corgidrp/l1_to_l2a.py", "corgidrp/l2a_to_l2b.py", "corgidrp/l2b_to_l3.py", "corgidrp/l3_to_l4.py", "corgidrp/l4_to_tda.py", "corgidrp/combine.py", "corgidrp/data.py"],
     [("header bookkeeping", "corgidrp/data.py:Dataset.update_after_processing_step, Dataset.copy"), ("group headers", "corgidrp/combine.py:combine_subexposures")], "pipeline")
prop("Q01", "Data-quality flags accumulate and mean what they say",
     "No step ever clears a data-quality bit of a pixel it keeps, except those whose purpose is to repair it, and each step sets only its own documented bits (dark, flat and bad-pixel calibrations: the bits of their own flag maps) and only on the pixels it concerns.",
     [PR, I], "Every step, every initial flag pattern including all eight bits, and every order of steps.",
     "Tests start from all-zero flags and look for the new bit only.",
     ["corgidrp/l1_to_l2a.py", "corgidrp/l2a_to_l2b.py", "corgidrp/l4_to_tda.py", "corgidrp/data.py"], [("bitwise-or of flags", "corgidrp/*: steps that set DQ")], "dq")
prop("Q02", "Flag maps pack and unpack losslessly with a fixed bit order",
     "Unpacking an unsigned flag map gives its bits along an added last axis with the least significant bit last, at the full width of the map's type, packing inverts it exactly, and the bit-index tables name every documented flag at its own bit and are inverses of each other.",
     [I], "Every 8- and 64-bit flag value and array shape.",
     "Tests pack a handful of values below 256.",
     ["corgidrp/data.py"], [("packing", "corgidrp/data.py:unpackbits_64uint, packbits_64uint, get_flag_to_bit_map, get_bit_to_flag_map")], "dqbits")

# ------------------------------------------------------------------ steps
prop("S01", "Steps agree on one EM gain per frame",
     "Wherever a frame's EM gain enters a calculation (nonlinearity lookup, saturation limit, gain division, shot-noise excess factor, synthesized darks, photon counting), the gain used is the measured gain if the header has one, else the applied gain if positive, else the commanded gain, decided for each frame by itself.",
     [I], "Every presence/absence and sign of the three gain keywords, mixed across frames, in every step using the gain.",
     "Tests set only the commanded gain; the precedence and per-frame mixtures are not exercised.",
     ["corgidrp/l1_to_l2a.py", "corgidrp/l2a_to_l2b.py", "corgidrp/darks.py", "corgidrp/photon_counting.py"], [("gain choice", "each step")], "emgain")
prop("S02", "Bias subtraction uses each row's own prescan",
     "Bias subtraction removes from every row of the returned area the median of that same detector row's reliable prescan columns less the bias offset, for the frame type's own geometry, and returns exactly the image area, the imaging area or the full frame as asked, with errors and flags cut identically. "
     "The added error is the standard error of that row's prescan combined with the bias-offset error, the subtracted bias is stored per row with the frame, and frames of unknown type or wrong size are rejected.",
     [I, CF], "Every frame type, detector geometry, output mode, bias offset and row-dependent prescan content.",
     "Tests use the two default geometries with nearly constant prescans; row misalignment in other geometries or modes is invisible there.",
     ["corgidrp/l1_to_l2a.py", "corgidrp/detector.py"], [("row alignment", "corgidrp/l1_to_l2a.py:prescan_biassub")], "biassub")
prop("S03", "Saturation and cosmic-ray flagging",
     "A pixel gets the saturation flag exactly when its value reaches the saturation fraction of the smaller of its frame's two full-well limits (image well times EM gain, gain register well). "
     "Every saturated plateau of at least the minimum length in the gain register gets the cosmic-ray flag on its head, the configured tail and the box around its head, clipped to the image; rows and frames without a plateau get none from it, and the limits used are recorded per frame.",
     [I, CF], "Every frame content over a small image with values around both thresholds, every gain per frame, and box, tail, filter and threshold settings.",
     "Tests use a few hand-made cosmic rays in the middle of a frame; edges, neighbouring hits, mixed gains and parameter combinations are not swept.",
     ["corgidrp/l1_to_l2a.py", "corgidrp/detector.py"], [("masks", "corgidrp/l1_to_l2a.py:detect_cosmic_rays"), ("plateaus", "corgidrp/detector.py:flag_cosmics, find_plateaus, calc_sat_fwc")], "cosmics")
prop("S04", "Dark subtraction and flat division: matching, arithmetic, error, flags",
     "Dark subtraction requires all frames and the dark to share exposure time, commanded gain and k gain, rejects photon-counted darks and other object types, and otherwise subtracts the dark pixel by pixel, adds the dark's error in quadrature and ORs its flags. "
     "Flat division divides each pixel by the flat, rescales and propagates the flat's error, and flags pixels where the flat is zero as bad.",
     [I], "Every combination of matching and mismatching headers, dark kinds, pixel values, errors and flags.",
     "Tests use noise frames with a uniform dark or flat and zero flags; mismatches in each single header and pixelwise error propagation are not covered.",
     ["corgidrp/l2a_to_l2b.py"], [("guards and arithmetic", "corgidrp/l2a_to_l2b.py:dark_subtraction, flat_division")], "arith")
prop("S05", "Unit conversions scale data and errors and record the unit",
     "Conversion to electrons multiplies data by k gain and combines the scaled error with the k-gain error in quadrature, EM-gain division divides data and all errors of each frame by its gain, and division by exposure time divides both by each frame's own exposure time. "
     "Each updates the unit in every frame's header and, for the conversion, the k gain and read noise used.",
     [I], "Every k gain and error, mixed exposure times and gains within one dataset, several error layers.",
     "Tests use one exposure time and gain for the whole dataset and one error layer.",
     ["corgidrp/l2a_to_l2b.py", "corgidrp/l2b_to_l3.py"], [("conversions", "corgidrp/l2a_to_l2b.py:convert_to_electrons, em_gain_division; corgidrp/l2b_to_l3.py:divide_by_exptime")], "arith")
prop("S06", "Frame selection drops exactly the bad frames",
     "Frame selection rejects a frame exactly when an enabled criterion fails (fraction of pixels with a disallowed flag above the limit, overexposure flag, tip or tilt jitter or bias above its limit); good frames come out unchanged in order, bad ones are dropped or, if asked, kept and marked bad. "
     "The criteria are recorded in every frame's header and the rejected file names and reasons in the history; if no frame is left it raises ValueError.",
     [I, CF], "Every assignment of frame properties and every combination of enabled criteria, allowed flag bits and drop/mark mode, including values exactly at a limit.",
     "Tests enable one criterion at a time on a couple of frames.",
     ["corgidrp/l2a_to_l2b.py"], [("criteria", "corgidrp/l2a_to_l2b.py:frame_select")], "frameselect")
prop("S07", "Combining subexposures uses only good samples, group by group",
     "Combining turns each consecutive group of frames into one frame whose pixels are the mean or median of the unflagged samples (times the group size if scaling is on), with the matching propagated error; a pixel is flagged in the output only if all its samples were flagged, with all their flags, and is then NaN. "
     "A length not divisible by the group size or an unknown method raises ValueError; each output records its group size, its group's file names, and takes the last frame's name.",
     [I, CF], "Every group size, method, scaling choice, flag pattern per sample and per-sample error.",
     "Tests combine constant frames with one flagged pixel.",
     ["corgidrp/combine.py"], [("combination", "corgidrp/combine.py:combine_images, combine_subexposures")], "combine")
prop("S08", "Bad pixels become NaN and stay marked",
     "Bad-pixel correction sets to NaN exactly the pixels flagged in the frame or in the bad-pixel map, adding the map's flags and the replaced-by-fill flag to them; turning flagged pixels into NaN affects exactly the pixels whose flag value reaches the threshold, in data and error; flagging NaN pixels adds the given flag to exactly the NaN pixels. All other pixels keep value, error and flags.",
     [I], "Every frame flag and map flag value, threshold and NaN pattern.",
     "Tests check a few pixels with a single flag value.",
     ["corgidrp/l2a_to_l2b.py", "corgidrp/detector.py"], [("masking", "corgidrp/l2a_to_l2b.py:correct_bad_pixels; corgidrp/detector.py:nan_flags, flag_nans")], "badpix")
prop("S09", "Cropping cuts the right window and keeps coordinates consistent",
     "Cropping returns, for each frame, exactly the requested even-sized window centred on the requested pixel corner (by default on that frame's own star location, 60 pixels for the narrow field), identically in data, errors and flags, for 2-D and 3-D frames. "
     "Star location, reference pixel and detector offset in the headers refer to the same sky and detector positions as before; odd sizes, windows outside the frame and missing defaults raise instead of returning anything.",
     [I], "Every frame size, window size and centre, per-frame star location and number of dimensions.",
     "Tests crop identical frames with one shared star location.",
     ["corgidrp/l3_to_l4.py"], [("window and header arithmetic", "corgidrp/l3_to_l4.py:crop")], "crop")
prop("S10", "Detector geometry is consistent",
     "For every frame type, slicing a named region returns exactly the pixels at that region's place, embedding a region into a full frame and slicing it out again gives it back with the rest filled, the imaging area contains the image area and excludes prescan and overscans, and an array that does not fit is rejected.",
     [I, CF], "Every frame type and region of the shipped geometry, and generated geometries.",
     "Tests slice two regions of the science geometry.",
     ["corgidrp/detector.py"], [("slicing", "corgidrp/detector.py:slice_section, embed, unpack_geom, imaging_area_geom, imaging_slice")], "geometry")
prop("S12", "Nonlinearity correction and desmearing follow their definitions",
     "Nonlinearity correction multiplies each pixel by the relative gain interpolated linearly in gain and counts from the calibration (edge values outside its range), flags exactly the pixels above the threshold as nonlinear, and rejects tables whose axes do not increase or whose curves do not straddle one; without a calibration it leaves the data unchanged. "
     "Desmearing subtracts from each row the readout-time share of the rows above and including it, using each frame's own exposure time, and records that it was done.",
     [I], "Every calibration table on small grids, counts inside, on and outside the table, gains on and between columns, thresholds, and per-frame exposure times.",
     "Tests use one shipped table and uniform exposure times.",
     ["corgidrp/l1_to_l2a.py", "corgidrp/detector.py", "corgidrp/l2a_to_l2b.py"], [("interpolation", "corgidrp/detector.py:get_relgains"), ("desmear sum", "corgidrp/l2a_to_l2b.py:desmear")], "nonlin")

prop("S11", "Derotation keeps data, errors and flags together",
     "Turning frames north-up rotates the data, every error layer and the flags of each frame by that frame's own angle (roll keyword, or the angle of its WCS) counterclockwise about the same requested centre: the array's centre pixel, the star position if recorded, or given coordinates. "
     "Pixels that land on pixels keep their values, others are interpolated, flags take the nearest pixel's word, and what comes from outside is blank; with a WCS, its matrix afterwards has north up and east left at the same scale.",
     [I, CF], "Every frame shape, centre, quarter turn and a grid of exact oblique angles, error layer count, flag pattern, and mixtures of angles in one dataset.",
     "Tests rotate one symmetric frame and back and look at a few pixels.",
     ["corgidrp/l3_to_l4.py"], [("rotation", "corgidrp/l3_to_l4.py:northup")], "derotate")

# ------------------------------------------------------------------ calibration building
prop("K01", "Pupil-image frames are sorted into the right calibration sets",
     "Sorting a pupil-imaging campaign returns as mean-frame set the longest run of consecutively numbered frames of the most populated unity-gain exposure time, as k-gain set the longest series of equal-sized consecutive blocks with increasing exposure time closed by a repeated one, and for nonlinearity also one increasing exposure series with a final repeat per other gain. "
     "Every returned frame is labelled with its set, all other headers and pixels are those of the input frame, and an unknown calibration type is rejected.",
     [I, H], "Every campaign layout: numbers of repeats, exposure series, gains, gaps in numbering and file order.",
     "Tests build one layout per calibration type with frames in order.",
     ["corgidrp/sorting.py"], [("set selection", "corgidrp/sorting.py:sort_pupilimg_frames")], "sorting")
prop("K02", "The bad-pixel map flags exactly the hot and dead pixels",
     "The bad-pixel map has the hot-pixel flag exactly where the dark exceeds its mean by more than the given number of standard deviations and the bad-pixel flag exactly where the flat is below the given fraction of its local mean (box clipped at the edges, even boxes extending to the left), both where both hold, and records the dark and flat it came from.",
     [I, CF], "Every small dark and flat over a value alphabet, box widths and thresholds.",
     "Tests plant a few hot and dead pixels far from the edges with default settings.",
     ["corgidrp/bad_pixel_calibration.py"], [("thresholds", "corgidrp/bad_pixel_calibration.py:create_bad_pixel_map, detect_hot_warm_pixels_from_dark, detect_dead_pixels_from_flat")], "bpmap")
prop("K03", "Averaging darks ignores masked samples and accounts for them",
     "Averaging frames gives per pixel the mean of the unmasked samples, an error from their combined errors and the number of unmasked samples, and marks pixels with no sample; building a traditional dark uses this on frames sharing exposure time, gain and k gain (others are rejected), flags pixels never sampled as bad and pixels masked in more than half of the frames as unreliable, and cuts to the image area unless a full frame is asked for.",
     [I, CF], "Every stack of frames and masks over small images, full-frame and image modes.",
     "Tests use a few random masks and check overall statistics.",
     ["corgidrp/darks.py"], [("averaging", "corgidrp/darks.py:mean_combine, build_trad_dark")], "darks")
prop("K04", "A synthesized dark follows the noise model of the requested frames",
     "A dark synthesized from noise maps equals fixed-pattern noise plus gain times (dark current times exposure time plus clock-induced charge), divided by gain, for the gain and exposure time of the input frames, with the matching error and the union of the maps' flags, cut to the image area or full frame as asked, and is labelled with that gain and exposure time; inputs mixing gains, exposure times or k gains are rejected.",
     [I], "Every pixel combination of the three maps, gains, exposure times, errors and flags.",
     "Tests compare one gain and exposure time with uniform maps.",
     ["corgidrp/darks.py"], [("noise model", "corgidrp/darks.py:build_synthesized_dark")], "darks")
prop("K05", "Noise-map calibration recovers the noise model it is given",
     "For noise-free dark stacks generated from any fixed-pattern, dark-current and clock-induced-charge maps, the calibration returns those maps (up to a constant bias offset recorded with them) from any number of frames per stack and any plan of more than three stacks whose gain and exposure combinations determine the model. "
     "Insufficient or inconsistent inputs (too few stacks, too few distinct gains or exposures, stacks or frames of unequal settings) are rejected, and masked samples do not influence the result as long as enough stacks remain.",
     [I], "Every small map content, stack plan and mask.",
     "Tests use large random stacks and statistical agreement.",
     ["corgidrp/darks.py"], [("least squares", "corgidrp/darks.py:calibrate_darks_lsq")], "darks")
prop("K06", "Photon counting thresholds, groups and guards",
     "Photon counting turns each frame into counts by its threshold, sums only unflagged frames per pixel, and yields one output frame per group of the requested size with leftover frames ignored; each output records its threshold, its frame count and exactly the frames used, and is flagged where no frame was usable. "
     "Negative results after dark subtraction are set to zero, and inputs mixing settings, wrong visit type for the mode, a dark with another threshold or too few frames are rejected.",
     [I, CF], "Every small stack of frames over values around the threshold, flags, group sizes, dark products and header mixtures.",
     "Tests run one illuminated and one dark stack with statistical tolerances and are not part of the reliable suite.",
     ["corgidrp/photon_counting.py"], [("counting", "corgidrp/photon_counting.py:photon_count, get_pc_mean, corr_photon_count")], "photoncount")
prop("K07", "Argument checks accept and reject exactly what they promise",
     "Each shared argument check passes exactly the values its name describes (scalar or array, real, non-negative or positive, integer, number of dimensions, squareness, string, boolean, dictionary), returns the value unchanged where it returns one, and otherwise raises the caller's exception type with the variable's name in the message; a bad name or exception class is itself rejected.",
     [I], "Every kind of Python and numpy value, including zero, negative, NaN, complex, boolean, string, and arrays of 0 to 4 dimensions.",
     "Tests check a handful of values per function.",
     ["corgidrp/check.py"], [("predicates", "corgidrp/check.py")], "checks")
prop("K08", "Source finding terminates and reports each source once",
     "Source finding always terminates. Each source it reports is the peak of the significance map of what is left of the image, at least at the requested signal-to-noise, and is then removed (its core masked, the scaled PSF subtracted around it, also at the image edge and for a PSF of any size); it stops only when no peak above the threshold is left, and reports nothing within the core of an earlier report. "
     "The header lists exactly the found sources, numbered consecutively, and the input's pixels, errors and flags are unchanged.",
     [I, CF], "Every arrangement of point sources on a small field, PSF sizes, thresholds including one equal to the peak significance, and NaN regions.",
     "Tests find two sources in one simulated field.",
     ["corgidrp/l4_to_tda.py", "corgidrp/find_source.py"], [("detection loop", "corgidrp/l4_to_tda.py:find_source")], "findsource")
prop("K09", "Core throughput is measured and looked up at the right place",
     "A core-throughput calibration holds, for every frame of the sequence that is not a pupil image and in their order, the location of its PSF, its share of the mean pupil flux above half its peak, and the image and flags cut around it, with the mask mechanism positions recorded for the sequence. "
     "Lookups are made about the mask centre on the detector, also for cropped frames and after the mask has moved: the one-dimensional curve and the PSF used for injection or modelling are those of the nearest calibration point, interpolation in radius and azimuth reproduces the measured points and anything linear between them, and targets outside the measured radii are left out.",
     [I, CF], "Every arrangement of calibration points, star positions, detector offsets, mechanism positions and targets; every mix and order of pupil and off-axis frames.",
     "Tests use one regular grid of points on uncropped frames and one sequence with the pupil images in one place.",
     ["corgidrp/corethroughput.py", "corgidrp/data.py", "corgidrp/klip_fm.py"], [("measurement", "corgidrp/corethroughput.py:generate_ct_cal"), ("lookups", "corgidrp/corethroughput.py:get_1d_ct, CreateCTMap; corgidrp/data.py:CoreThroughputCalibration; corgidrp/klip_fm.py:inject_psf")], "coret")
prop("K11", "PSF subtraction uses the right frames, mode and settings",
     "PSF subtraction takes its science and reference frames from the given reference dataset or, without one, from the reference marks of the input; it uses the mode the inputs allow unless told otherwise, crops all frames alike when asked, hides flagged pixels from the subtraction, and hands over every frame centred on its star with its own roll. "
     "It returns one frame with one slice per requested number of modes, north up, flagged where undefined, with the star position and mode that belong to it; throughput curves give for each requested separation and number of modes the share of injected sources that survives there, leaving out positions near known companions, and the noise curve is the scatter in each annulus around the star.",
     [I, CF], "Every mix of science and reference frames, marks, flags, star positions, cropping, modes and numbers of modes; every list of separations, angles and known companions.",
     "Tests use one frame mix per mode with the star in one place and no flagged pixels, and increasing separations.",
     ["corgidrp/l3_to_l4.py", "corgidrp/data.py", "corgidrp/klip_fm.py"], [("preparation and mode choice", "corgidrp/l3_to_l4.py:do_psf_subtraction"), ("handing frames to the subtraction", "corgidrp/data.py:PyKLIPDataset"), ("throughput and noise", "corgidrp/klip_fm.py:meas_klip_thrupt, measure_noise")], "psfsub")
prop("K10", "Counts, flux, magnitude and neutral density convert by the calibrated numbers",
     "Flux conversion multiplies every pixel by the calibration factor divided by the colour correction and adds the errors of data and factor in quadrature; aperture and fitted photometry returns, for the star it is asked about, the counts of its unflagged pixels within the aperture less the background, divided by the enclosed share, with matching error, flux and magnitude, and a calibration factor is the star's catalogue band flux over those counts. "
     "Band averages, effective and pivot wavelengths and colour corrections are the defined integrals over the filter actually used, with spectra interpolated linearly on its grid; unknown stars, filters or methods and mixed datasets are rejected. "
     "A neutral-density calibration holds, for every frame taken through the filter, the density there from its star's expected counts and its position, reports unsteady stars, refuses mixed setups, and is interpolated linearly between those positions, shifted by the mask motion; none of this changes the frames it was given.",
     [I, CF], "Every image, error, flag, factor, colour correction, aperture, background, centring mode, star, filter and spectrum; every grid of positions, mix of bright and dim frames, and order of them.",
     "Tests use a few bright synthetic stars with loose tolerances, one filter, one position grid and one order of frames.",
     ["corgidrp/l4_to_tda.py", "corgidrp/nd_filter_calibration.py", "corgidrp/fluxcal.py", "corgidrp/data.py", "corgidrp/astrom.py"],
     [("conversion and photometry", "corgidrp/l4_to_tda.py:convert_to_flux, determine_flux, determine_app_mag, determine_color_cor, calculate_zero_point; corgidrp/fluxcal.py"), ("neutral density", "corgidrp/nd_filter_calibration.py; corgidrp/data.py:NDFilterSweetSpotDataset")], "fluxnd")


def main():
    reg = {}
    regp = os.path.join(ROOT, "harness", "registry.json")
    built = json.load(open(regp)) if os.path.exists(regp) else {}
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
            assert len(p["title"]) <= 80, p["id"]
    checks, na = [], []
    for p in P:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
        elif p["id"] not in built:
            na.append({"property": p["id"], "reason": "not built yet"})
        else:
            checks.append({"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
                           "technique": "TLA+ specification checked with TLC; scenarios generated from it are replayed into the code and recorded traces are validated by TLC against it",
                           "level": "model_checking",
                           "level_note": p["note"] or "Bounded: holds on every generated scenario; trusts the projection of outputs to scaled integers, TLC, numpy and astropy."})
    m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
         "notes": "No hooks: checks drive the public Python API of /repo's working tree."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
