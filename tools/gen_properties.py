#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to review)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [dict(name=n, where=w) for n, w in mechanism]}
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

U = "PyFHD/pyfhd_tools/pyfhd_utils.py"
S = "PyFHD/pyfhd_tools/pyfhd_setup.py"
F = "PyFHD/flagging/flagging.py"
GU = "PyFHD/gridding/gridding_utils.py"
GV = "PyFHD/gridding/visibility_grid.py"
CU = "PyFHD/calibration/calibration_utils.py"
H = "PyFHD/healpix/healpix_utils.py"

p("P01", "Resuming from a saved checkpoint gives the uninterrupted run's products",
  "A run that is stopped after any point at which a checkpoint has been saved and then restarted from the saved checkpoint(s) ends with the same observation, calibration, visibilities, weights and gridded planes, and exports the same products, as a run that was never stopped. No stage whose result comes from a checkpoint is computed again, and no stage whose result the checkpoints do not hold is skipped.",
  ["crash_points", "configurations", "histories"],
  "every combination of stage switches and polarisation count, every stage boundary as the point of interruption, every subset of saved checkpoints used for the restart, chains of several restarts",
  "No test calls the pipeline driver at all: checkpoint tests would need one run per (configuration, crash point, restart set).",
  ["PyFHD/pyfhd.py", "PyFHD/io/pyfhd_io.py"],
  [("main pipeline driver", "PyFHD/pyfhd.py main"), ("checkpoint save/load", "PyFHD/io/pyfhd_io.py save, load")],
  ["inputs and outputs of every stage as the driver calls it", "the checkpoint files", "the exported products"],
  [("checkpoint files", "what a restart can rely on", "output_dir/checkpoints/*.h5")])
p("P02", "Stages run in dependency order, once, exactly when configured; files match",
  "For every combination of stage switches a run performs exactly the stages the configuration enables, each one once (gridding once per polarisation), each after the stages whose results it consumes and on the results those stages produced. At the end of the run the requested data files exist, hold what their stage produced, and no product that was switched off has been written.",
  ["configurations", "fault_sequences"],
  "every combination of flagging, calibration, checkpoint, save, gridding, export and HEALPix switches, 1/2/4 polarisations, and failure of any stage",
  "The driver has no test; its branches interact (about 2^15 switch settings), and unit tests of single stages cannot see which stage ran or in which order.",
  ["PyFHD/pyfhd.py"],
  [("main pipeline driver", "PyFHD/pyfhd.py main")],
  ["the sequence of stage calls with the data handed to them", "files written under the output directory"],
  [("products", "which in-memory results exist at each point", "PyFHD/pyfhd.py main local variables")])
p("P03", "What is saved to the HDF5 store is what is loaded back",
  "Any result structure made of nested dictionaries, numeric/boolean/complex arrays of any shape, strings, paths, lists of numbers or strings, plain scalars and absent values, once saved and loaded back, has the same keys, shapes, values and absent values, at every nesting level and whatever the number of keys, both when read eagerly and lazily (documented conversions: a file that holds one single array is read as that array, absent elements of an array become not-a-number or the empty string, paths come back as text). Saving neither alters the structure that is being saved nor anything else stored before, and saving again over an existing file replaces the old contents completely.",
  ["inputs", "histories"],
  "all finite trees of the supported value kinds and sequences of save/load/save on the same file name",
  "The existing tests save a few flat samples; the combination of nesting, single keys, absent values, empty arrays and overwriting is unbounded.",
  ["PyFHD/io/pyfhd_io.py"],
  [("writer", "PyFHD/io/pyfhd_io.py save, save_dataset, format_array, dtype_picker"), ("reader", "PyFHD/io/pyfhd_io.py load")],
  ["return value of load", "the argument of save after the call"],
  [("file", "tree of groups and datasets", "the HDF5 file")])
p("P04", "No run starts on an invalid configuration and conflicting options are settled",
  "A run is started if and only if every enabled input file exists and no option is used without the option it depends on; otherwise the program stops before any stage, reporting the number of problems it found. When it starts, conflicting or implied options have been settled to one documented, mutually consistent setting (recalculate-all implies all recalculations, HEALPix export implies saved visibilities, beam-per-baseline excludes kernel interpolation, one reflection mode, defaulted gain, non-negative beam offset), the paths of enabled and checked files are absolute, every option that is not part of a conflict is left alone, and settling a settled configuration changes nothing.",
  ["configurations", "inputs"],
  "every combination of the interacting options and of existing/missing files",
  "Tests of the set-up step cover a handful of settings; there are hundreds of thousands of combinations of about thirty interacting options.",
  [S],
  [("validator", S + " pyfhd_setup"), ("file check", S + " _check_file_exists")],
  ["whether set-up returns or exits", "the returned configuration", "the log"],
  [("configuration", "options and their settled values", "pyfhd_config")])
p("P05", "The configuration file written by a run reproduces that run",
  "Feeding the configuration file written at the start of a run back into the command line parser yields the same value, and the same kind of value, for every option (except the run's own identifiers: observation id, config file name, time stamp, commit, log name), for every setting of the options, including absent values, lists, paths, numbers and any single-line text (quotes, spaces, comment signs); numbers are compared as numbers. Doing so repeatedly keeps the configuration unchanged.",
  ["configurations", "histories"],
  "every settable option over a set of representative values of its type, singly, pairwise and in random combinations, over chains of write/parse",
  "Nothing tests that the written file can be read back; the number of option/value combinations is far beyond samples.",
  [S],
  [("writer", S + " write_collated_yaml_config"), ("parser", S + " pyfhd_parser")],
  ["parsed namespace before and after the round trip"])
p("P06", "Histogram bins and reverse indices partition the in-range data",
  "For any data, range, bin size or bin count, each datum inside the range is counted in exactly one bin, that bin is the one whose interval contains it, data outside the range are counted nowhere, and the reverse indices of each bin list exactly the positions of its data, in increasing order and as many as its count. Consecutive bins are one bin size apart starting at the minimum.",
  ["inputs"],
  "integer and floating data of any length incl. repeated and boundary values, every min/max (also inverted or outside the data), bin size and number of bins",
  "Tests compare a few stored IDL results; every other step of the package (gridding, flagging, ingest, plotting) relies on it for arbitrary data.",
  [U],
  [("histogram", U + " histogram, get_bins, get_hist, get_ri")],
  ["the three returned arrays"])
p("P07", "Array matching and unique-run lookups return exactly the matching positions",
  "Matching two integer arrays returns exactly the positions of the first array whose value occurs in the second (or an explicit no-match result), whatever duplicates, ordering, gaps, offsets and negative values they hold; restricting the comparison to a set of values never adds or loses positions among those values. The unique-run index of a sorted array is the last position of every run of equal values.",
  ["inputs"], "all short integer arrays including duplicates, disjoint ranges and single elements",
  "Stored-sample tests cover a couple of arrays; the function is written through histograms whose offsets depend on the data.",
  [U], [("array_match", U + " array_match"), ("idl_argunique", U + " idl_argunique")],
  ["returned indices"])
p("P08", "Region growing returns the connected component inside the thresholds",
  "Growing a region from seed pixels returns exactly the pixels connected to the seeds through pixels whose value lies within the thresholds, excluding the image border, in any image, and reports that nothing was found when there are none. Adding seeds or widening thresholds never loses a pixel.",
  ["inputs"], "all small images, all seed sets, thresholds given explicitly or derived from the seeds' statistics",
  "Two tests on 1-D and 2-D samples; connectivity is a global property of arbitrary images.",
  [U], [("region_grow", U + " region_grow")], ["returned flat indices"])
p("P09", "Rebinning keeps or averages exactly the blocks it claims to",
  "Enlarging an array by whole factors keeps every original value at its block corner and interpolates linearly between neighbours (flat after the last one), shrinking by whole factors returns the mean of each block (or, when sampling, its first element), integer data stay integers, and shapes that are not whole multiples or factors are refused. Enlarging by sampling and then shrinking by sampling restores the array.",
  ["inputs"], "1-D and 2-D integer arrays over all small shapes and factors, both directions mixed, sample on/off",
  "Tests use constant arrays and one sample; the index arithmetic depends on shape and factors.",
  [U], [("rebin", U + " rebin, rebin_rows, rebin_columns")], ["returned array"])
p("P10", "Flagging removes every sample of a flagged unit and never resurrects data",
  "After any sequence of flagging steps (basic option flags, tile names, bad tiles, zeroed times, in-range limits, fine-channel and tile outlier flags) every visibility sample that involves a flagged tile, channel or time has zero weight in every polarisation, no sample gets a positive weight it did not have (except that with frequency flagging switched off, as documented, channels that pre-processing flagged completely are given back to usable tiles where the data are not zero), no tile, channel or time once flagged becomes usable again, and the recorded counts of usable tiles, channels and visibilities equal what the masks say. Samples not touched by any flag keep their weight.",
  ["histories", "configurations", "inputs"],
  "all sequences of flagging steps over small arrays (tiles x channels x times x polarisations), all masks and option settings",
  "Tests compare single calls with stored data; the guarantee is about sequences of steps and all masks.",
  [F, U, CU],
  [("basic flags", F + " vis_flag_basic"), ("tile name flags", F + " vis_flag_tiles"), ("outlier flags", F + " vis_flag"), ("weights update", U + " vis_weights_update"), ("gain flags", CU + " vis_calibration_flag")],
  ["visibility weights array", "tile/frequency/time masks and counts"],
  [("masks", "usable tiles, channels, times", "obs['baseline_info']"), ("weights", "per-sample weight", "vis_weights")])
p("P11", "Baselines are assigned to grid cells correctly and only in-grid data are kept",
  "For every baseline and channel the grid location is the cell that contains the baseline's coordinate, a sample is kept exactly when its whole kernel footprint lies strictly inside the grid (not on its outermost cells), its weight is positive and its length lies in the allowed range over the whole band, and all kept samples are listed exactly once under their cell. Samples and conjugate baselines are mirrored consistently in both coordinates, for square and rectangular grids.",
  ["inputs", "configurations"],
  "all small grids, kernel sizes, baseline coordinates (both signs, on cell edges), channel sets, masks, per-sample frequency selections",
  "Stored comparisons use one telescope layout on a square grid; edges, ties, conjugates and channel subsets are not reached.",
  [GU, U],
  [("baseline_grid_locations", GU + " baseline_grid_locations"), ("vis_weights_update", U + " vis_weights_update")],
  ["returned cell indices, histogram and reverse indices"])
p("P12", "Even and odd samplings are balanced, disjoint and complete",
  "Splitting the weights of an observation with at least two integrations of the same baselines by time gives two sets that are disjoint in time, of equal size, pair consecutive integrations, give both members of a pair the same weights (zero unless both are unflagged), and leave everything else zero; every complete pair of integrations with usable data is used. The noise estimate made from the pairs is unaffected by flagged samples, zero for identical pairs and leaves the pipeline's weights alone.",
  ["inputs"], "all small time binnings (even and odd number of times), all flag masks",
  "One stored comparison; depends on the time structure and masks.",
  [U, CU],
  [("split_vis_weights", U + " split_vis_weights"), ("vis_noise_calc", CU + " vis_noise_calc")],
  ["returned weights and index lists"])
p("P13", "Every usable visibility is gridded exactly once with its own kernel",
  "The gridded plane equals the sum over all usable samples of the sample times the conjugated kernel of its own polarisation, channel group and sub-cell offset, placed at its own cell - each sample counted once, flagged samples never - and the weights, variance and uniform-filter planes are the same sum for unit samples, squared kernels and counts. These planes do not depend on how samples are grouped internally or in which order baselines are listed, whether the kernels are looked up, interpolated or made per baseline.",
  ["inputs", "configurations"],
  "all small arrangements of baselines, channels, times, kernels (distinct per channel group and offset), flags, coincident samples",
  "Stored comparisons use data where kernels barely differ; an index mix-up between channels or baselines changes values slightly and is invisible.",
  [GV, GU],
  [("visibility_grid", GV + " visibility_grid"), ("grid_beam_per_baseline", GU + " grid_beam_per_baseline"), ("visibility_count", GU + " visibility_count")],
  ["returned image, weights, variance, uniform filter and model planes"])
p("P14", "Gridding is additive over data, channels and times, and mirror-symmetric",
  "The planes gridded from a partition of the channels or times add up to the plane gridded from all of them, gridding is linear in the visibilities, the model plane treats the model exactly as the data plane treats the data, and with conjugation enabled every plane is Hermitian-symmetric. Splitting visibilities into frequency cubes grids every usable sample in exactly one cube slice.",
  ["inputs", "configurations"],
  "all partitions of channels/times of small observations, data and model arrays, n_avg values, both mirror settings",
  "Needs relations between several runs on arbitrary data, not one stored output.",
  [GV, GU, H],
  [("visibility_grid", GV), ("conjugate_mirror", GU + " conjugate_mirror"), ("vis_model_freq_split", H + " vis_model_freq_split")],
  ["gridded planes of related inputs"])
p("P15", "Calibration is applied to each visibility with the gains of its own two tiles",
  "Applying gains divides each sample by the gain of its first tile times the conjugate gain of its second tile, for the polarisations, channel and tile pair of that sample, and by zero (giving zero) when either gain is unusable; unit gains change nothing, and applying gains to a model built from these gains restores the sky. All polarisation products, including cross products, use the matching pair of feed gains. With four products, the reported phase between the feeds is that of the time-averaged data against the model over the usable cross-product samples, and the Q-U mixing phase is the difference between data and model of the phase of the fitted dependence of Q on U.",
  ["inputs"], "all small tile sets, baselines, times, channels, 1/2/4 polarisations, gains including zero and not-a-number",
  "Stored comparisons use gains near one, where a mixed-up index is a small numeric change.",
  [CU], [("vis_calibration_apply", CU + " vis_calibration_apply"), ("weight_invert", U + " weight_invert")],
  ["returned visibilities"])
p("P16", "The gain solver only uses usable data, terminates, and keeps flagged tiles out",
  "For every channel the solver stops at the iteration limit or earlier, on convergence or divergence, and reports which. Every iteration moves a tile's gain to the weighted average (the adaptive weight follows the convergence history and stays between half the base and the larger of base and one; the new solution counts less when the amplitude drops too far) of the old gain and the least-squares solution over exactly the usable equations of that tile: unflagged samples of usable tiles whose baseline lies within the length limits and the grid, averaged in time on request. Tiles with fewer than the minimum number of equations get a zero gain, channels or tiles without any keep the starting gain, flagged tiles become not-a-number, and a channel without a solution for the reference tile is zeroed together with its weights; flagged samples, tiles, other channels and other polarisations never influence a gain. When the data are exactly model times gains, these gains are a fixed point, the solver finds them from unit gains, the reference tile has phase zero, and calibrating the data with them gives the model",
  ["inputs", "histories", "configurations"],
  "all small arrays, flag patterns, iteration limits, thresholds and starting gains",
  "One stored comparison; control flow depends on flags, iteration limits and convergence history.",
  ["PyFHD/calibration/vis_calibrate_subroutine.py"],
  [("vis_calibrate_subroutine", "PyFHD/calibration/vis_calibrate_subroutine.py vis_calibrate_subroutine"), ("calculate_adaptive_gain", CU + " calculate_adaptive_gain")],
  ["returned gains, convergence, iteration counts"])
p("P17", "Gain factorisations recombine to the gains they came from",
  "The bandpass and its remainder multiply back to the solved gains on every usable tile and channel; the bandpass is the shape shared by the usable tiles (of a cable length, or of all), free of the tiles' scales and of outliers. The division by the auto-correlation ratio followed by its inverse restores the gains, the polynomial fit reproduces amplitudes and phases that are polynomials of the fitted degree (on each side of the digital gain jump when asked to) and reports their coefficients, cable reflections are fitted only for usable tiles of the selected cables, the auto-correlation fit and the starting gains follow the auto-correlations of the tile, and flagged tiles or channels influence none of it. Extracted auto-correlations are those of the right tile at every channel and time, averaged over the usable times when asked to. The whole calibration of data made of model and gains of this form returns the model, and its baseline histogram reports the differences of the samples in each bin",
  ["inputs"], "all small tile/channel sets, masks, cable groups, gains",
  "Stored comparisons check single examples; the identities must hold for arbitrary masks and gains.",
  [CU],
  [("vis_cal_bandpass", CU + " vis_cal_bandpass"), ("cal_auto_ratio_divide / remultiply", CU), ("vis_cal_polyfit", CU + " vis_cal_polyfit"), ("vis_extract_autocorr", CU + " vis_extract_autocorr")],
  ["returned gain structures"])
p("P18", "Ingest maps every raw sample to its polarisation, channel and baseline",
  "Reading an observation's random-group data keeps each sample's real part, imaginary part and weight together and at the position of its own polarisation, channel and baseline-time row, splits every baseline code into the two antennas that produced it, and carries the uvw coordinates and times of that row. Row order, counts and observation metadata are those of the file; the antenna layout is the file's table, with the documented replacement exactly for each entry the file lacks.",
  ["inputs"], "all small observations: antennas, times, channels, polarisations, encodings (256/2048 and above), with and without autos, missing rows",
  "Tests require large local files that are absent; the decode arithmetic depends on the code values present.",
  ["PyFHD/data_setup/uvfits.py"],
  [("extract_header", "PyFHD/data_setup/uvfits.py extract_header"), ("create_params", "PyFHD/data_setup/uvfits.py create_params"), ("extract_visibilities", "PyFHD/data_setup/uvfits.py extract_visibilities"), ("create_layout", "PyFHD/data_setup/uvfits.py create_layout")],
  ["returned params, visibilities and weights"])
p("P19", "The observation's time bins, tile and channel tables describe the data exactly",
  "The observation description partitions all rows into consecutive time bins, one per distinct integration, indexes both tiles of every row consistently with the layout, counts baselines, tiles, channels and times exactly, marks as unusable exactly the tiles, channels and times the metadata or options exclude, and derives the grid from the coordinates so that it covers what the options ask for. Rescaling the grid afterwards keeps it consistent and leaves the original description untouched where it promises a new one.",
  ["inputs", "configurations"],
  "all small observations (1..n times, tiles, antenna numbering schemes) and dimension/resolution options",
  "Tests need absent data; single-time data, gaps in antenna numbers and option mixes are not covered.",
  ["PyFHD/data_setup/obs.py"],
  [("create_obs", "PyFHD/data_setup/obs.py create_obs"), ("update_obs", "PyFHD/data_setup/obs.py update_obs")],
  ["the returned observation structure"])
p("P20", "Model visibilities are matched to data by baseline and time",
  "When a model is aligned with the data, every data row receives, for each polarisation and channel, the model value of the row with the same ordered tile pair at the model time nearest to it (after allowing for a consistent early or late offset of the model between a quarter of a second and half an integration), whatever the order, missing rows, extra tiles and times, or auto-correlations on either side; rows the model does not have are zero, and so are auto-correlations unless the model has all of them. A model is refused exactly when two data times claim the same model time or it lacks a tile of the data. The inputs stay unchanged, and a model read from sav or uvfits files comes back sample by sample.",
  ["inputs"], "all small data/model row sets: permutations, missing/extra tiles, tile names or indices, time offsets, autos present, partly present or absent on either side; integer types of the antenna columns",
  "Tests compare one stored example; alignment is combinatorial.",
  ["PyFHD/source_modeling/vis_model_transfer.py"],
  [("flag_model_visibilities", "PyFHD/source_modeling/vis_model_transfer.py flag_model_visibilities"), ("vis_model_transfer", "PyFHD/source_modeling/vis_model_transfer.py import_vis_model_from_sav / import_vis_model_from_uvfits")],
  ["returned model array", "refusals", "unchanged inputs"])
p("P21", "HEALPix projection applies exactly its sparse map",
  "Applying a projection map gives each HEALPix pixel the sum of its contributing image pixels times their weights, no more and no less. A generated map lists, for every selected pixel, the (up to four) neighbouring image pixels with bilinear weights that are not negative and add up to one, so that the projection of a constant image is that constant; the selected pixels are exactly those within the requested radius whose four surrounding image pixels lie in the image and the primary beam mask or, with a pixel file (the one of the nearest field and frequency), all of the file's pixels above the horizon, at the resolution of the file, the one asked for or the one the image needs. The beam cube holds for each polarisation and output channel the beam of the bin of that channel, its mask is the region around the centre in which every one of these beams exceeds the threshold, and making maps leaves the original observation untouched.",
  ["inputs", "configurations"], "all small sparse maps and images; pixel selections by radius, file or none; beams, thresholds and frequency bins",
  "Stored comparisons check one large map.",
  [H, "PyFHD/healpix/export.py"],
  [("healpix_cnv_apply", H + " healpix_cnv_apply"), ("healpix_cnv_generate", H + " healpix_cnv_generate"), ("beam_image_cube", H + " beam_image_cube")],
  ["returned pixel values and maps"])
p("P22", "Robust statistics ignore exactly the outliers",
  "The resistant mean equals the mean of the samples that survive the two documented cuts (the requested multiple of the scaled median absolute deviation around the median, then the same multiple of the truncation-corrected standard deviation of the survivors), for real and complex data, independently of sample order; the median is the middle element for odd lengths and, for even lengths, the higher middle element or, on request, the mean of the two, also with a smoothing width. Results do not change the input.",
  ["inputs"], "all short integer sequences incl. ties, constant data and single samples",
  "Tests use a few random vectors and stored results.",
  [U], [("resistant_mean", U + " resistant_mean"), ("idl_median", U + " idl_median")], ["returned value"])
p("P23", "Inversion, mirroring and polarisation reformatting are exact algebra",
  "The guarded inverse returns one over every usable value and exactly zero for zero, sub-threshold, infinite or undefined ones, keeping shape; the Hermitian mirror applied twice restores the array; reformatting the cross polarisations replaces the third plane by half the difference of itself and the mirrored fourth and the fourth by the mirror of the new third (the inverse reformatting undoes exactly this), leaves the others untouched, and splitting into real and imaginary halves loses nothing. None of these depends on array size, dimension parity or value order.",
  ["inputs"], "all small arrays of integers/Gaussian integers incl. zeros, NaN, infinities, all shapes incl. one element",
  "Tests check a few stored arrays.",
  [U, GU],
  [("weight_invert", U + " weight_invert"), ("conjugate_mirror", GU + " conjugate_mirror"), ("crosspol_reformat", GU + " crosspol_reformat"), ("crosspol_split_real_imaginary", GU + " crosspol_split_real_imaginary")],
  ["returned arrays"])
p("P24", "Power spectrum cubes hold each half's and channel group's projected images",
  "For each half (even and odd integrations when split, all data otherwise), polarisation and whole group of averaged channels, the exported cubes are the projections onto the map's pixels of the images of the planes gridded from exactly that half's usable samples in that group's unflagged channels, scaled by their number (zero where there are none); the beam cube is the squared beam scaled by the same number, and the exported uv planes are the planes themselves, with the weights and variance shifted to the original phase centre on request. The weights used are those of the run without the tiles, channels, times and out-of-grid samples excluded. The cubes' grid and pixel size follow the power spectrum options in their documented order of precedence, files exist for exactly the halves and polarisations exported, and each names its contents (dirty or residual), pixels, averaging, noise and count.",
  ["inputs", "configurations"],
  "all small observations (polarisations, channels, times, baselines), masks and weights, averaging factors, halves, phase shifts and option settings",
  "The export has no test; it combines six stages per half, polarisation and channel group, where an index or half mixed up still gives plausible cubes.",
  ["PyFHD/healpix/export.py", H],
  [("healpix_snapshot_cube_generate", "PyFHD/healpix/export.py healpix_snapshot_cube_generate"), ("vis_model_freq_split", H + " vis_model_freq_split"), ("phase_shift_uv_image", H + " phase_shift_uv_image")],
  ["exported cube files and uv plane files", "settings handed to the map and the beam cube"])

p("P25", "Snapshot images are the calibrated transforms of the gridded planes",
  "The image of a gridded plane is its Fourier transform with the origin in the middle, over the pixel area, after the cut of short or long spacings, the mask and the weighting; uniform weighting gives every measured cell the inverse of its number of visibilities, with mean one over the cells with weights, and unmeasured cells nothing; padding shows the same image on finer pixels. The exported snapshot images are in flux units, so that a plane equal to the weights shows the squared central beam over the pixel area at the centre, corrected by the beam wherever it is at least a thousandth and zero elsewhere and below the horizon; the residual is exactly the dirty image less the model, cross polarisations are shown as the real and imaginary halves of the third, every exported polarisation has its own dirty, model, residual, beam and weights file with the coordinates of its pixels, and the products asked for are saved as they were, with the run's own arrays untouched.",
  ["inputs", "configurations"],
  "all small planes, weights, counts, beams, horizons, cuts, masks, paddings, polarisations and save options",
  "The tests compare one observation's images to FHD's; normalisations, half pixel shifts and mixed up polarisations only show against an exact transform.",
  ["PyFHD/gridding/gridding_utils.py", "PyFHD/gridding/filters.py", "PyFHD/io/pyfhd_quickview.py"],
  [("dirty_image_generate", "PyFHD/gridding/gridding_utils.py dirty_image_generate"), ("filter_uv_uniform", "PyFHD/gridding/filters.py filter_uv_uniform"), ("quickview", "PyFHD/io/pyfhd_quickview.py quickview, get_image_renormalization")],
  ["returned image, filter and normalisation", "exported FITS images and headers", "saved products"])

p("P26", "Beam images are the transforms of exactly the used channels' kernels",
  "The beam image of a polarisation is the transform of that polarisation's own kernels (or the sum of its Gaussian lobes put on the grid of the observation), added over every unflagged channel, or the one asked for, each with the kernel of its frequency bin, and divided by the sum of those channels' norms; a squared beam adds the squared images instead and is never negative. It does not depend on how baselines are grouped or channels ordered, or on what was asked for before, leaves the beam untouched, and is the same from memory and from the file the beam was saved in, read at once or lazily. A beam read from an FHD save file holds for every polarisation and bin the kernels of the first baseline, and so does the file written next to it.",
  ["inputs", "histories"],
  "all small sets of kernels or Gaussians, bins, channel masks, norms, baseline groups, polarisations and ways of storing the beam",
  "The tests compare four stored beams with one frequency bin used; wrong polarisations, bins or accumulation show only with several.",
  ["PyFHD/beam_setup/beam_utils.py", "PyFHD/beam_setup/beam.py"],
  [("beam_image", "PyFHD/beam_setup/beam_utils.py beam_image"), ("gaussian_decomp", "PyFHD/beam_setup/beam_utils.py gaussian_decomp"), ("create_psf", "PyFHD/beam_setup/beam.py create_psf")],
  ["returned image", "returned beam and beam file"])

p("P27", "Directions, pixels and phases of the sky share one geometry",
  "Direction cosines are the components of a direction's unit vector along east, north and outwards at the phase centre (the last relative to the centre, undefined directions being at the centre), whether the directions come from the arguments, the beam or a beam file; separations are the angles between the unit vectors in any units, order or number. The pixel of a direction is its direction cosines plus the slant of the zenith times its depth, in pixels from the phase centre, for every centre and zenith (at, north, south, east or west of the centre), the zenith's own pixel included, and the direction of that pixel is the one it came from, for single directions and arrays of any length. Horizontal and equatorial coordinates convert back and forth exactly, the zenith is at the site's latitude and turns with the sky. The w-term deprojection turns each visibility of every polarisation by exactly its own baseline's w times its channel's frequency, and the opposite direction undoes it.",
  ["inputs"], "all centres, zeniths and directions (in a rational grid of the sphere), observation times and sites, all small visibility arrays, channels and baselines",
  "Tests compare a few stored observations near one zenith; a lost quadrant or swapped axis there changes little.",
  [U, "PyFHD/pyfhd_tools/unit_conv.py", "PyFHD/data_setup/obs.py"],
  [("l_m_n", U + " l_m_n, angle_difference, parallactic_angle, simple_deproject_w_term"), ("unit_conv", "PyFHD/pyfhd_tools/unit_conv.py all conversions"), ("project_slant_orthographic", "PyFHD/data_setup/obs.py project_slant_orthographic")],
  ["returned cosines, angles, pixels and directions", "returned visibilities"])

p("P28", "Plots show every tile's own solutions and every value's own colour",
  "The calibration plots have, for each of the six quantities (amplitude and phase of the solutions, of their residuals and of the raw solutions), as many pages of 128 panels as the number of tiles needs, on which every tile has one panel, in tile order under its own name, with one line per polarisation in its colour through that tile's own values at exactly the unflagged frequencies, inside the panel's limits; panels of flagged tiles and beyond the last tile are blank; residual phases are the difference of the continuous phases. The colours of a linearly scaled image rise from the start to the end of the colour table with the values between the limits of the data range (the data's own without one), values outside take the colours of the ends, missing values one of their own, and colour bar ticks name the values at their colours; in logarithmic images the same holds for powers of ten, with colours of their own for zero and negative values (on the symmetric scale for the powers of ten of the sizes, zero having the smallest colour; on the absolute scale for the sizes themselves). Plotting never changes the data and writes the file that was asked for.",
  ["inputs", "configurations"], "all numbers of tiles, polarisations, flags and solutions; all small images, ranges, missing values and file names",
  "The plots have no test; a plot that leaves out tiles, misnames them or saturates still looks like a plot.",
  ["PyFHD/plotting/calibration.py", "PyFHD/plotting/image.py"],
  [("plot_cals", "PyFHD/plotting/calibration.py plot_cals"), ("quick_image", "PyFHD/plotting/image.py quick_image, log_color_calc, color_range")],
  ["figures as they are saved", "file names", "the arguments after the call"])

p("P29", "Structures from IDL save files become dictionaries holding every value",
  "Whatever an IDL save file holds (plain or compressed; numbers and strings, alone or in arrays of any dimensions, pointers and arrays of pointers, null pointers, structures and arrays of structures, nested in any way) is found in the dictionary it is converted to, under its lower case name and at its own index, with its value: pointers are followed, every structure becomes a dictionary (an array of structures one dictionary of columns, several structures behind pointers or inside the rows of another a list), strings, also empty ones, become strings, null pointers become missing values. Pointers to blocks of numbers of one shape become one numeric array with a type that holds all of them; anything irregular becomes a list whose items keep their own shapes.",
  ["inputs"], "all value trees of the kinds IDL can store, up to the sizes explored",
  "The tests use the conversion on stored FHD files that are not present, and only with the few structures FHD wrote then; irregular pointer arrays, empty strings, nulls and arrays of structures decide whether values are dropped, repeated or truncated.",
  ["PyFHD/io/pyfhd_io.py"],
  [("recarray_to_dict", "PyFHD/io/pyfhd_io.py recarray_to_dict"), ("convert_sav_to_dict", "PyFHD/io/pyfhd_io.py convert_sav_to_dict")],
  ["the dictionaries of genuine save files written for the purpose"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
