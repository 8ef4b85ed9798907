"""Writes DESIGN.md from the text below and the seeded bugs (tools/catches.txt: one line 'seed: checks which report it')."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = open(os.path.join(HERE, "tools", "design_head.md")).read()
TAIL = open(os.path.join(HERE, "tools", "design_tail.md")).read()

P = {
"C01": ("Every projection, inverse projection, pixel conversion and parameter access of all eleven camera models, through Python and for single points and arrays.",
        "The formulas of doc/source/geometry.rst written again in numpy (`lib/gen.reference_project`), and the round trip projection -> bearing -> projection.",
        "Random parameters of every model, image sizes from 37x91 to 4000x3000, points on and next to the axis, all over the field of view and behind the camera. Unit tests use a handful of parameters; here the singular points (axis, transition 0 and 1, spherical poles) and the edges of the invertible domain are driven on purpose. ~14 s quick.",
        "The inverse is iterative: it is only judged where the distortion is invertible with margin (singular values of the Jacobian in [0.35, 4])."),
"C02": ("Every analytic Jacobian of the functor library and every residual of the optimizer, through a probe module which calls the repository's templates.",
        "Fourth-order central differences of the value of the same function, in extended step control.",
        "Random points and parameters, near the axis, identity poses, rigs. Tests check one point per function. ~11 s.",
        "Agreement to 1e-6 relative, looser within 1e-3 of a removable singularity. `Disto624`'s derivative is transposed with respect to its siblings and the spherical functor's stride differs; both are pinned by the C++ tests and unused by the optimizer, so the statement leaves them out."),
"C03": ("Poses and similarities after random histories of constructor, setters, compose, inverse, relative_to, copy, pickle.",
        "A plain rotation matrix and vector kept next to each object (group laws of matrices).",
        "Rotations near 0 and pi, lengths to 1e6, long histories. ~6 s.", "The sign of a rotation vector at half a turn is free."),
"C04": ("lla/ecef/topocentric conversions in Python and C++ with the derivative of the C++ ones.",
        "PROJ (EPSG:4979/4978) and the closed formulas in extended precision.", "Poles, antimeridian, antipodes, heights -10..20 km. ~3 s.", "The inverse is one Bowring step: tolerance accordingly."),
"C05": ("omega-phi-kappa, Euler, yaw-pitch-roll, angle-axis, quaternion and matrix conversions and the plane/up-vector helpers.",
        "Rotation matrices built from the definition of each convention.", "Random rotations, right angles, gimbal lock, nearly so. ~4 s.", "Away from gimbal lock the angles themselves must return; at gimbal lock only the rotation."),
"C06": ("Every query of the tracks manager after random histories of additions, overwrites, removals, copies and merges.",
        "A dictionary (shot, track) -> observation.", "Small id universes, so that overwrites, collisions and re-additions are frequent; pairs, common observations, connectivity and subsets all recomputed. ~6 s.",
        "Whether an emptied shot or track stays listed is open."),
"C07": ("Track files of every version, through strings, files and datasets.", "An independent reader and writer of the documented text format, and the manager itself.",
        "All versions, damaged lines, wrong counts, empty files, long ids; damaged files must raise rather than load wrong data. ~3 s.", "Positions keep the 6 significant digits the format writes."),
"C08": ("All views of the reconstruction and map containers after random histories (shots, panoramas, cameras, rigs, points, observations, removals, copies).",
        "A plain dictionary model of the whole map; both ends of each observation link must agree.", "Two maps edited in turn, re-creation of removed ids, edits through Python handles and views. ~11 s.",
        "Pickle aside, views of rig instances yield pairs on iteration (kept)."),
"C09": ("Every copy and pickle of every bound class.", "Value comparison, then one side is changed while the other is watched.", "All classes, all pickle protocols, containers. ~11 s.", ""),
"C10": ("Saving and loading lists of reconstructions.", "An independent reading of the documented JSON (doc/source/dataset.rst) against the objects, and the loaded objects against the originals.",
        "All camera models, rigs, biases, panoramas, missing metadata, unicode ids, hand-written older documents. ~8 s.", "Observations live in the tracks file."),
"C11": ("Every artifact a dataset stores (features, matches, masks, segmentations, depth maps, references, profiles, reports, old formats).",
        "The value saved; everything saved before is read back after each save, also through a re-opened dataset.", "Random subsets and orders of artifacts; file names with odd characters; old versions of files. ~11 s.", "Single precision of features is the format's."),
"C12": ("Loading of features, matches, configuration, words and trained models from files which carry code.", "An interpreter audit hook (`sys.addaudithook`) which sees every import, exec, open, os.system, subprocess; the payloads leave markers.",
        "Pickles in disguise (npz members, object arrays, protocols, gz), YAML tags. ~2 s.", "Payloads only leave markers in the scratch directory."),
"C13": ("Tracks built from features and matches.", "Connected components by flood fill; uniqueness and length rules; colours and positions of observations.",
        "Planted tracks, conflicts, cycles, permuted and reversed matches: the result must not depend on order. ~2.5 s.", ""),
"C14": ("Brute force, FLANN, words, symmetric and one-way matching, robust filters, masks, end to end.", "Brute force distances with ratio test recomputed in double; epipolar residuals.",
        "Duplicated descriptors, ties, binary descriptors, one or zero features. ~3 s.", "Within 1e-5 of the ratio either is right; approximate indices are judged on what they returned."),
"C15": ("Pair selection by distance, time, order, BoW/VLAD, graph, bearing.", "Brute force over all images with the configured numbers.",
        "Lines, grids, coincident positions, missing GPS, one image, references and candidates. ~2 s.", "Graph selection is randomized by design: only exact Delaunay edges demanded."),
"C16": ("Triangulation (midpoint, two bearings, DLT, track triangulators).", "Documented thresholds recomputed from the rays, and the true point.", "Narrow, behind, contradictory, parallel rays, one observation. ~4.5 s.", "Limits judged outside 1e-6 relative."),
"C17": ("Essential five/n-point, absolute pose three/n, relative rotation/pose refinement, homographies, robust estimators, two-view reconstruction.", "Defining constraints, and the truth.",
        "General, planar, panoramic, frontal, tiny scenes; known inlier sets. ~9 s.",
        "Near-degenerate sets may lose a solution: shares. Refinement stops on Ceres' absolute cost change of 1e-6; `essential_n_points` needs nine points to be unique."),
"C18": ("Every kind of bundle adjustment (full, local, shot poses, alignment problems) with rigs, priors, GPS, GCP, and covariances.", "Costs, residuals and stored errors recomputed in numpy from the statement (`lib/bundle_ref.py`), an independent optimizer (scipy) restarted at the result, and invariants: fixed parameters stay, cost never grows.",
        "Random problems of all terms. ~10 s.", "Coefficients whose deviation is not configurable (k5, k6, s0-s3) are held by design. Costs are read with six digits. Near-nadir roll terms are singular and avoided."),
"C19": ("Alignment of reconstructions (naive, orientation prior, GCP, robust similarity) and moving of everything in a map.", "Closed form geometry of the known similarity on each camera, point, rig, bias, prior.",
        "Random cameras, rigs, panoramas, outliers; partitions and merges. ~7 s.", "Mirrored EXIF orientations are not judged."),
"C20": ("Incremental and triangulation reconstruction on generated scenes, step by step, with a watcher around the steps.", "Invariants of each state (observations in the tracks, thresholds of culling, cameras in front), accuracy against the truth after Umeyama alignment; filters recomputed.",
        "Rigs, several models, noise, several components, GPS or none. ~25 s.", "Success and accuracy are shares because estimators are random."),
"C21": ("Undistortion of images, masks, segmentations, panoramas and reconstructions by the action on real JPEG/PNG files.", "A picture given by a formula: each output pixel is compared with the formula at the ray it stands for.",
        "All supported models, all EXIF orientations, rotated masks, pano sub-views. ~7 s.", "Small outputs (<60 px) of JPEGs are not compared by pixel."),
"C22": ("Depth map estimation, cleaning, pruning, merging.", "Ray casting of analytic scenes; scores, consistency votes and merged points recomputed.", "Planes and spheres, random views, both PatchMatch variants and brute force. ~25 s.", "Accuracy and completeness as shares."),
"C23": ("Splitting into submodels, files of submodels and aligning them back.", "Memberships from geodetic distances; positions of shared cameras after alignment; files read back.", "Random layouts, groups, overlaps. ~4 s.", "GCP/rig/override files are not linked into submodels (not promised)."),
"C24": ("All exporters (ply, visualsfm, openmvs, pmvs, bundler, colmap, geocoords, gps, json).", "An independent reader per format which applies the conventions of that format and projects points.", "All models a format can describe. ~10 s.", "Importers need other versions of Python and are left out."),
"C25": ("EXIF and XMP reading, camera naming, focal and GPS interpretation, configuration and overrides.", "Files written byte by byte by our own TIFF/EXIF/XMP writer from known values.", "All types, both byte orders, missing and malformed tags, drones' tags. ~4 s.", "Corrupted files: only errors of OpenSfM itself count."),
"C26": ("`parallel_map`, memory limits, feature extraction and pair matching with one and several workers.", "Event logs (start, end, thread) checked for exactly once, order, concurrency limit; equality of outputs between worker counts.",
        "Injected delays, failures, short switch intervals (the number of distinct interleavings seen is in the evidence). ~20 s.", "FLANN and PatchMatch share random states; compared otherwise."),
"C27": ("All native entry points under AddressSanitizer, UndefinedBehaviorSanitizer, Eigen and libstdc++ assertions, with hostile arguments and the workloads of the other properties.", "The sanitizers.",
        "About 24 000 calls per quick run plus eight workloads of other properties. ~70 s quick, ~8 min thorough.", "gcc has no MemorySanitizer and clang cannot use the gcc-built libraries: uninitialised reads are only seen where they reach a checked operation."),
"C28": ("All extractors, masks, segmentations, normalization, sorting and reloading of features.", "Blobs and rotated pictures with known places; definitions of masks and normal coordinates; limits of counts.", "Noise, blank, tiny, thin, colour and gray images, all settings. ~20 s.", "SURF is not installed."),
"C29": ("Rig detection by name patterns, assignment files, pose updates, calibration and rig creation.", "String semantics of the patterns, rigid-motion algebra, known true rigs; stand-in reconstructions which fail, lose or repeat images.", "Incomplete instances, several rigs, missing GPS, failing rounds. ~8 s.",
        "One alarm first taken for a false alarm (frames of sets of cameras) was a defect of our own first repair: positions were moved through a reference to the camera being changed."),
"C30": ("Every statistic, the data of every diagram, the files written and the text of the report.", "Recomputation from the plain numbers the reconstruction was built of; stand-ins of pyplot and FPDF record what is drawn; real pictures and PDFs in some runs.", "0-3 reconstructions, empty ones, several cameras, outliers, unreconstructed tracks. ~15 s.", ""),
"C31": ("Text and JSON control points, datasets with both, GPX interpolation and sampling, the annotation tool's manager and error report.", "The generator of the file, PROJ, linear interpolation, a dictionary model of the tool.", "Headers of all kinds, spacing, comments, NaN altitudes, repeats. ~4 s.",
        "EPSG systems whose first axis is the northing are read with that axis first (undocumented; `_parse_projection` is pinned by a test)."),
"C32": ("Meshes of single images and of stored reconstructions of every camera model.", "Ray casting from the camera, areas on the image plane, the empty-circle rule, an independent projection of the points.", "No, one, few, collinear and many points, points outside of the picture. ~4 s.",
        "For fisheye images the direction behind the camera is not covered, by design of the border circle."),
"C33": ("The steps bundle, extend_reconstruction and reconstruct_from_prior on stored data sets.", "The true scene (poses up to a similarity where nothing fixes it), the error of the true projections, the list of files before and after.", "Disturbed, partial, empty and multi-part reconstructions, inputs and outputs under other names, with GPS and control points. ~9 s.", ""),
"C34": ("The 23 commands with random lines of options through the command runner; bin/opensfm and bin/opensfm_run_all as programs.", "A table of the commands written by hand; recorders in place of the steps; the same steps run one by one on a copy.", "Options in any order and form, unusual values, wrong lines, failing steps. ~30 s.",
        "The programs start through a python3 on the PATH which makes our build of the extension modules importable. Reconstructions of two processes differ in the last digits (sums of the bundle adjustment) and are compared with a tolerance."),
"C35": ("The viewer's web application started by its own main, with requests through the test client of the web framework.", "The files on the disk; a secret file beside the dataset that no answer may contain.", "Nested folders, unusual names, links, encoded and absolute paths, missing files, changes between requests. ~5 s.", "The web server itself is replaced (requests go straight to the application)."),
"C36": ("The whole annotation tool: its server, and the scripts of its pages in a JavaScript engine with stand-ins for the browser (lib/pages.js).", "A dictionary of points, kept by the check from what the simulated user does; coordinates computed from the pixel clicked; the file on the disk.", "Random sessions of 10 to 90 actions, images of all kinds, files with and without optional fields, groups by sequence and reconstruction, 3D models, restarts. ~17 s.", "python-magic and rasterio are not installed: stand-ins take their place. The scripts of the 3D page need a renderer and are not run; its messages are sent directly. Buttons of the former desktop version left in GUI.py (go_to_current_gcp and others) can't be reached from the pages."),
"C37": ("The analysis program of the annotation tool on datasets of two reconstructions, through its command line.", "The true scene the parts were cut from; reprojections computed again from the files written; the annotation tool's own reader of the report.", "Scales 0.3 to 3, wrong clicks, too few points, other places of the parts in the file, second runs, models, images to be placed. ~8 s.", "The 'Full' analysis (covariances) can't work with the present native module: known finding. Placed images are only as good as the threshold of 0.01 of the robust estimation."),
"C38": ("The viewer's modules that read reconstructions (provider, converter, math, addresses, list of files, statistics) in a JavaScript engine (lib/viewer.mjs), and the viewer's server.", "Rotation matrices, the ellipsoid and the reconstruction file itself, in Python; the bytes of the files behind the addresses.", "Rotations of zero, tiny, half turns; references from 80 S to 80 N and none; names with reserved characters; failing and late addresses, refusals, several clusters per file. ~5 s.", "gl-matrix, mapillary-js and the browser are stand-ins (lib/standins, 32-bit floats as in the originals). Renderers, controls and the three-dimensional view need a display and are not run."),
"C39": ("The import script's main, in the process of the check, on databases and binary models written by the check; the dataset it makes, read back; the COLMAP export on that dataset and a second import.", "The scene the database was written from, with COLMAP's conventions (its pixel centers, its camera models, its quaternions) implemented in the check.", "1 to 3 cameras of 3 models, 2 to 5 images, keypoints of 2, 4 and 6 columns, missing descriptors, unusual names, relative paths, a configuration beside it, fused clouds with visibility. ~15 s.", "Points of a fused cloud lie on pixels of their own: which of two points on one pixel is kept isn't specified. bin/import_bundler is a program of Python 2 and can't run."),
}

out = [HEAD, "## Properties\n"]
title = {}
for line in open(os.path.join(HERE, "properties.jsonl")):
    x = json.loads(line)
    title[x["id"]] = x["title"]
for k, (watched, oracle, reach, note) in P.items():
    out.append("### %s %s\n" % (k, title[k]))
    out.append("* Watched: %s\n* Oracle: %s\n* Workload, bounds and cost: %s" % (watched, oracle, reach))
    if note:
        out.append("* Notes: %s" % note)
    out.append("")
assert set(P) == set(title), set(P) ^ set(title)
out.append(TAIL)
out.append("## Planted bugs and the checks which report them\n")
catches = dict(l.strip().split(": ", 1) for l in open(os.path.join(HERE, "tools", "catches.txt")) if ": " in l)
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    out.append("* `%s` (%s): %s Needs: %s **Reported by: %s.**" % (d, m["property"], m["what_it_breaks"], m["needs"], catches.get(d, "not run yet")))
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")
