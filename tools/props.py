import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
S="opensfm/src/"
p("C01","Camera models: projection matches the documentation and inverts",
"For every supported camera model, projecting a point in camera coordinates gives the image position the documented formula for that model gives, and turning that image position back into a viewing direction returns the point's direction as long as the parameters keep the distortion invertible there. Projecting or unprojecting many points at once gives the same values as doing them one at a time, and the conversions between normalized and pixel image coordinates (and the pixel-space intrinsic matrix) are mutually inverse and follow the documented convention.",
["inputs","configurations"],"all 10 projection types, all parameter values in the invertible range, all points of the model's field of view, all image sizes (portrait, landscape, square)",
"The C++ tests use one parameter set per model and a small random pixel grid, and the Python tests of cameras are outside the stable list.",
[S+"geometry/camera_projections_functions.h",S+"geometry/camera_distortions_functions.h",S+"geometry/src/camera.cc",S+"geometry/camera_instances.h","doc/source/geometry.rst"],
[("projection, distortion and affine functors composed per model",S+"geometry/camera_instances.h"),("Newton inversion of the distortion",S+"geometry/camera_distortions_functions.h")],["Camera.project/pixel_bearing and their _many forms, pixel<->normalized conversions, get_K/get_K_in_pixel_coordinates"])
p("C02","Analytic derivatives agree with numerical differentiation",
"Every derivative the library computes analytically (of projection with respect to point and camera parameters, of distortion, of rigid and similarity transforms, of triangulation, and the Jacobians the optimizer uses for reprojection residuals) equals the numerical derivative of the corresponding function.",
["inputs","configurations"],"all camera models, all parameters, points and poses in the valid domain, with and without rig offsets",
"The tests evaluate a handful of fixed points per functor; an error in one term for particular parameter combinations goes unseen.",
[S+"geometry/camera_projections_functions.h",S+"geometry/camera_distortions_functions.h",S+"geometry/transformations_functions.h",S+"geometry/camera_instances.h",S+"bundle/error/projection_errors.h",S+"geometry/triangulation.h"],
[("ForwardDerivatives chain rule",S+"geometry/functions.h"),("analytic cost functions",S+"bundle/error/projection_errors.h")],["derivative functors via a probe module compiled from the same headers"])
p("C03","Poses and similarities obey the group laws after any history of updates",
"A camera pose always represents one rigid motion: its rotation, translation, origin, inverse, matrices and the transformation of points in both directions agree with each other whatever sequence of setters produced it. Composition, inverse, relative pose and similarity transforms satisfy the group laws and compare/copy faithfully.",
["inputs","histories"],"all rotations (including identity, near-identity and near-pi), all translations, all sequences of pose and similarity updates",
"Unit tests set a pose once and read it back; the interplay of successive setters and degenerate rotations is not sampled.",
[S+"geometry/pose.h",S+"geometry/similarity.h",S+"geometry/src/absolute_pose.cc",S+"geometry/python/pybind.cc",S+"map/rig.h",S+"map/src/rig.cc"],
[("setters keeping both directions of the motion in step",S+"geometry/pose.h")],["every accessor of Pose and Similarity after each setter"])
p("C04","Geographic conversions are exact, invertible and identical in both languages",
"Conversions between geodetic coordinates, earth-centred coordinates and the local topocentric frame follow the WGS84 definitions and are mutually inverse to numerical precision anywhere on earth, for scalars and arrays alike. The Python and the native implementation give the same numbers, the local frame has x east, y north and z up, and distances between two positions are symmetric and equal the straight-line distance of their earth-centred positions.",
["inputs"],"all latitudes, longitudes and altitudes, all reference points, scalar and array arguments",
"The stable tests check one or two coordinates around a single city.",
["opensfm/geo.py",S+"geo/src/geo.cc",S+"geo/geo.h"],
[("closed-form ECEF conversion and ENU frame","opensfm/geo.py"),("native twin of the same functions",S+"geo/src/geo.cc")],["geo module functions and their native twins; PROJ as an independent oracle"])
p("C05","Rotation and orientation conventions agree with each other",
"Pan/tilt/roll, omega/phi/kappa, compass angle, EXIF orientation and gravity-based conventions are mutually inverse descriptions of the same rotation with the documented axes (x right, y down, z forward; world z up, y north). Homogeneous transformation, quaternion and Euler utilities return proper rotations and invert each other.",
["inputs"],"all angles, all eight image orientations, all Euler axis sequences, random rotations including degenerate ones",
"Tests sample a few angles of some conventions and never cross one convention with another.",
["opensfm/geometry.py","opensfm/upright.py","opensfm/transformations.py","opensfm/multiview.py"],
[("rotation_from_ptr/ptr_from_rotation, rotation_from_opk/opk_from_rotation","opensfm/geometry.py"),("opensfm_to_upright","opensfm/upright.py")],["function results against independently composed rotation matrices"])
p("C06","The track graph answers every query according to the operations performed",
"After any sequence of adding and removing observations, the track manager's answers (shots, tracks, per-shot and per-track observations, single lookups, multi-image tuples, pairs with common tracks, sub-managers) are exactly those implied by the set of observations present. Copies, filtered managers and merged managers contain exactly the selected or united observations, and asking for an absent element raises a clean error.",
["histories","inputs"],"all sequences of add/remove/merge/filter operations over any shots, tracks and observation values",
"Tests build one small manager and read it; removal, re-insertion and merging histories are not explored.",
[S+"map/src/tracks_manager.cc",S+"map/tracks_manager.h","opensfm/tracking.py"],
[("tracks_per_shot and shots_per_track kept in step",S+"map/src/tracks_manager.cc")],["every getter after every operation, against a dictionary model"],
[("tracks_per_shot_ / shots_per_track_","two indexes of one observation set",S+"map/tracks_manager.h")])
p("C07","Track files can be written and read back without loss",
"Writing tracks to a file or string and reading them back yields the same shots, track ids and observations with identifiers, colors, segmentation and instance labels intact and coordinates preserved to the written precision. Every supported older format version is still readable, and malformed or unsupported files raise an error instead of producing wrong tracks.",
["inputs","fault_sequences"],"all observation values, ids with unusual characters, empty managers, format versions 0 to 2, truncated or corrupted files",
"One fixed manager is round-tripped by the tests.",
[S+"map/src/tracks_manager.cc","opensfm/dataset.py"],
[("versioned text format",S+"map/src/tracks_manager.cc")],["TracksManager.write_to_file/as_string and readers"])
p("C08","Reconstruction containers stay consistent under any history of edits",
"After any sequence of creating, updating and removing cameras, rigs, shots, panoramic shots, landmarks and observations, every observation is visible from both its shot and its landmark, no element refers to a removed one, and identifiers resolve to the element they were created with. Removing an element removes exactly it and what depends on it; operations on missing or duplicate identifiers fail cleanly without altering the container.",
["histories"],"all sequences of container operations over any identifiers",
"Tests perform single operations on small maps; interleavings of removals and re-creations are not covered.",
[S+"map/src/map.cc",S+"map/map.h",S+"map/shot.h",S+"map/src/shot.cc",S+"map/landmark.h",S+"map/src/rig.cc","opensfm/types.py"],
[("two-sided observation links",S+"map/src/map.cc"),("rig instance membership",S+"map/src/rig.cc")],["all views and getters after every operation, against a model"],
[("landmark observations / shot landmark observations","two sides of one relation",S+"map/shot.h")])
p("C09","Copies and pickles are faithful and independent",
"Deep-copying or pickling a reconstruction, camera, pose, observation, tracks or metadata object yields one that reports the same values for everything the original reports. Changing the copy never changes the original and vice versa.",
["inputs","histories"],"all reconstructions (cameras, rigs, shots, points, metadata set or unset) and all value types",
"Tests copy one small object and compare a few fields.",
[S+"map/src/map.cc",S+"map/python/pybind.cc","opensfm/types.py",S+"geometry/python/pybind.cc",S+"map/shot.h"],
[("Map::DeepCopy",S+"map/src/map.cc"),("pickle factories",S+"map/python/pybind.cc")],["field-by-field dump of original and copy before and after mutation"])
p("C10","Reconstructions survive a save and load",
"Saving reconstructions to the JSON interchange format and loading them back preserves every camera parameter, rig, shot pose, metadata field, point position and color, and the geographic reference. Saving the loaded result again gives the same document, for compact and indented output alike.",
["inputs"],"all camera models and parameter values, single- and multi-camera rigs, panoramic shots, any metadata, any unicode identifiers, any number of reconstructions",
"Tests round-trip one sample reconstruction of an older sample file.",
["opensfm/io.py","opensfm/dataset.py"],
[("reconstruction_to_json / reconstruction_from_json","opensfm/io.py"),("camera_to_json / camera_from_json","opensfm/io.py")],["documents and objects before and after"])
p("C11","Everything stored in a dataset is read back unchanged",
"Each artifact a dataset stores (features with descriptors and segmentation, words, matches, EXIF, camera models and overrides, reference, rig files, tracks, reports, profile log, depth maps, undistorted data) is returned by the corresponding load with the values that were saved, whether or not compression, optional fields or unicode names are used. Existence queries agree with what was saved, and storing one artifact never disturbs another. Images, masks, instances and segmentations put in a dataset are read as they are, a subset has those of its images, and the reference it starts from is the weighted average of the measured positions of its images or, without them, of its control points.",
["inputs","histories","configurations"],"all artifact contents including empty and extreme ones, all image names, compressed or not",
"Tests cover feature files of one size and a sample reference; the other artifacts are only touched in passing by end-to-end runs outside the stable list.",
["opensfm/dataset.py","opensfm/dataset_base.py","opensfm/features.py","opensfm/io.py","opensfm/undistort.py"],
[("save_*/load_* pairs","opensfm/dataset.py"),("FeaturesData versions","opensfm/features.py")],["loaded values against saved ones; directory listings"])
p("C12","Loading data files never executes code carried by them",
"Loading features, matches, words, tracks, reconstructions, configuration or any other dataset file supplied by someone else never runs code or touches files outside the dataset: data that would do so is rejected with an error. Genuine files produced by the library still load.",
["inputs"],"all hostile pickle, npz and YAML payloads placed in any dataset file",
"No test feeds a hostile file beyond one trivial case.",
["opensfm/io.py","opensfm/dataset.py","opensfm/config.py","opensfm/features.py"],
[("restricted unpickler for matches","opensfm/dataset.py"),("allow_pickle off, yaml safe loader","opensfm/features.py")],["sentinel side effects recorded while loading hostile files"])
p("C13","Tracks built from matches are exactly the consistent connected components",
"Building tracks from features and pairwise matches yields one track per connected component of matched features that has at least the configured number of observations and at most one feature per image, and nothing else. Each observation carries the coordinates, scale, color and labels of its own feature, and the outcome does not depend on the order in which the matches are given.",
["inputs","configurations"],"all match graphs including conflicting, cyclic, duplicated and empty ones, all minimum track lengths, with and without segmentation data",
"Tests use one six-image toy graph.",
["opensfm/tracking.py","opensfm/unionfind.py",S+"foundation/union_find.h","opensfm/actions/create_tracks.py"],
[("union-find over (image, feature)","opensfm/tracking.py"),("good-track filter","opensfm/tracking.py")],["resulting track manager against an independent component computation"])
p("C14","Descriptor matching returns the matches its definition demands",
"Each descriptor matcher (brute force, word based, approximate index, symmetric and one-way, with lookup by predicted position) only returns pairs that pass the configured ratio test against the candidates it examined, at most one match per source feature, symmetric results being exactly those found in both directions; exhaustive matching returns all of them. Robust matching keeps only matches consistent with one epipolar geometry within the configured threshold, and the pipeline reports indices of the original, unmasked features.",
["inputs","configurations"],"all descriptor sets (float and binary, duplicates, fewer than two candidates, empty), all ratio thresholds, masks and predicted positions",
"Tests run one random set per matcher and only count the matches.",
["opensfm/matching.py",S+"features/src/matching.cc","opensfm/pairs_selection.py","opensfm/feature_loading.py"],
[("Lowe ratio and symmetric intersection","opensfm/matching.py"),("match_using_words",S+"features/src/matching.cc")],["returned matches against an exhaustive distance computation"])
p("C15","Pair selection proposes exactly the configured neighbours",
"The image pairs selected for matching are exactly those the enabled criteria define (GPS distance, capture time, order in the list, graph, vocabulary similarity, or all pairs when none is enabled), each unordered pair once, never an image with itself, always between the two given sets. Images lacking the needed metadata are handled without failing and changing the order of the input does not change the selection.",
["inputs","configurations"],"all image sets with present or missing GPS, altitude, orientation and time, all neighbour counts and distance limits",
"Tests use one small dataset and mostly count pairs.",
["opensfm/pairs_selection.py","opensfm/geo.py"],
[("match_candidates_by_*","opensfm/pairs_selection.py")],["selected pairs against brute-force definitions"])
p("C16","Triangulation recovers points and rejects what its thresholds forbid",
"Triangulating from exact observations returns the true point, in any viewing configuration with enough parallax; a returned point always satisfies the requested reprojection, viewing-angle and depth limits, and insufficient angle, points behind the cameras or inconsistent rays are reported as failure rather than as a point. Robust and incremental triangulation keep only observations that agree with the point they add.",
["inputs","configurations"],"all camera configurations, numbers of views, noise levels, thresholds and outlier patterns, for every triangulation variant",
"Tests triangulate a few fixed rays.",
[S+"geometry/src/triangulation.cc",S+"geometry/triangulation.h","opensfm/reconstruction.py","opensfm/multiview.py",S+"sfm/src/retriangulation.cc"],
[("TriangulateBearingsDLT/Midpoint and checks",S+"geometry/src/triangulation.cc"),("TrackTriangulator","opensfm/reconstruction.py")],["results against ground truth points and direct angle computations"])
p("C17","Minimal solvers and robust estimators recover the true model",
"From exact correspondences, every relative-pose, absolute-pose, essential-matrix and line/plane/similarity estimator returns a model that contains the true solution and satisfies its defining constraints. With outliers the robust estimators return a model whose reported inliers are exactly those within the threshold, recover the truth when inliers dominate, and never return indices out of range or repeated.",
["inputs","configurations"],"all poses, point configurations including planar and small-motion ones, outlier ratios, thresholds and random seeds",
"Tests run a few synthetic scenes with fixed seeds.",
[S+"geometry/essential.h",S+"geometry/src/essential.cc",S+"geometry/relative_pose.h",S+"geometry/absolute_pose.h",S+"robust/robust_estimator.h",S+"robust/scorer.h",S+"robust/src/instanciations.cc","opensfm/multiview.py"],
[("five-point / n-point solvers",S+"geometry/src/essential.cc"),("RANSAC/MSAC/LMedS scorers",S+"robust/scorer.h")],["models and inliers against ground truth and recomputed errors"])
p("C18","Bundle adjustment minimizes its stated problem",
"On exact data bundle adjustment recovers the true geometry from perturbed starts for every camera model and rig; it never increases the cost it minimizes, leaves parameters declared constant untouched, and honours each kind of prior and constraint. The reprojection errors it stores are the true reprojection errors of the optimized geometry, and the results written back are those of the optimization.",
["inputs","configurations","histories"],"all camera models, rig structures, constant/variable choices, priors, loss functions and problem sizes; local, single-shot and full adjustments",
"Tests adjust a few hand-made problems with perspective cameras.",
[S+"bundle/src/bundle_adjuster.cc",S+"bundle/error/projection_errors.h",S+"sfm/src/ba_helpers.cc","opensfm/reconstruction.py"],
[("residual blocks and parameter blocks",S+"bundle/src/bundle_adjuster.cc"),("map <-> problem transfer",S+"sfm/src/ba_helpers.cc")],["geometry before/after, independently recomputed costs and reprojection errors"])
p("C19","Alignment applies one similarity to everything and finds the right one",
"Applying a similarity to a reconstruction moves cameras, rigs and points together so every reprojection is unchanged, and applying its inverse restores the original. Alignment to GPS positions, control points or an overlapping reconstruction recovers the true similarity from exact data, ignores correspondences beyond the threshold in its robust form, and merging keeps every shot and point consistent.",
["inputs","configurations"],"all similarities, reconstructions, alignment methods and orientation priors, collinear camera tracks, outlying correspondences, multi-camera rigs",
"Tests align one small cube.",
["opensfm/align.py","opensfm/reconstruction.py","opensfm/multiview.py",S+"bundle/reconstruction_alignment.h"],
[("apply_similarity, align_reconstruction_*","opensfm/align.py"),("resect/merge","opensfm/reconstruction.py")],["reprojections and geometry before and after against ground truth"])
p("C20","Incremental reconstruction yields valid, accurate models",
"Running the reconstruction pipeline on a dataset (incremental, triangulation with known poses, or from a prior model) yields models in which each image appears at most once and rigs appear whole, each point has at least two observations, every observation refers to an existing feature of its track and its reprojection error is within the configured limit, and on clean data the geometry (and, with positions known, its place on earth) is accurate. Along the way adjustments change no observation, outlier removal removes exactly what is over the limit, images are placed only with enough fitting points, points are triangulated only where their images look, and running again on the same input gives the same models up to numerical noise.",
["inputs","configurations"],"all synthetic scenes (single cameras, rigs, several components), noise levels, reconstruction algorithms and bundle settings",
"The end-to-end tests need the native modules, use two or three scenes, and assert only counts and average errors.",
["opensfm/reconstruction.py","opensfm/actions/reconstruct.py","opensfm/rig.py",S+"sfm/src/ba_helpers.cc"],
[("grow_reconstruction, bundle and outlier removal","opensfm/reconstruction.py"),("bootstrap_reconstruction","opensfm/reconstruction.py")],["final reconstructions; every intermediate bundle/retriangulation step"])
p("C21","Undistorted images show the same scene geometry",
"Undistorting a reconstruction replaces each shot whose camera model can be undistorted (perspective, brown, fisheye, fisheye_opencv, fisheye62, spherical; shots of other models are left out) by a pinhole shot, or several perspective views for a panorama, at the same position and viewing geometry. The undistorted pixels sample the original image at exactly the corresponding position, masks and segmentations (which are upright) alike, sizes respect the configured limit, features carried over sit at the undistorted position of the original feature and keep their tracks, and the points are unchanged.",
["inputs","configurations"],"all camera models, image sizes, output sizes, panorama subdivisions and mask/segmentation contents",
"There is a single test that checks a panorama's point directions.",
["opensfm/undistort.py","opensfm/dataset.py"],
[("perspective_camera_from_*, render_perspective_view_of_a_panorama, undistort_image","opensfm/undistort.py")],["undistorted pixels, shots and tracks against independently mapped coordinates"])
p("C22","Depth maps report only geometry supported by the images",
"Depth estimation on textured scenes recovers the true depth and normal for most of the pixels it reports with a good score and reports most of the pixels other views show; the plane, score and neighbor reported with a depth agree with it and with the images, patch match leaves out masked and uniform pixels, and reported depths stay below the requested maximum. Cleaning removes exactly the depths not confirmed by enough neighbouring views, pruning exactly those another view sees in more detail or through, and the fused point cloud is the union of what remains of every shot, with the positions, colors, normals and labels of its pixels; shots whose depth map fails contribute nothing.",
["inputs","configurations"],"all scene geometries, patch and view counts, depth ranges, masks and estimation methods",
"Tests check one geometric helper.",
["opensfm/dense.py",S+"dense/src/depthmap.cc",S+"dense/depthmap_bind.h"],
[("patch-match estimator",S+"dense/src/depthmap.cc"),("cleaner and pruner",S+"dense/src/depthmap.cc")],["depth, normal, score and fused points against an analytically rendered scene"])
p("C23","Splitting into submodels and merging them back is lossless",
"Splitting a dataset assigns each image to exactly one cluster, with each submodel containing its cluster plus exactly the neighbours within the configured overlap distance, and each submodel dataset presents exactly the images and data of its members. Aligning submodels moves each rigidly (with scale) so that shared cameras and points coincide.",
["inputs","configurations"],"all image position layouts, cluster sizes, overlap distances, numbers of submodels and similarity offsets",
"Tests exercise only a helper or two.",
["opensfm/large/tools.py","opensfm/large/metadataset.py","opensfm/actions/create_submodels.py","opensfm/actions/align_submodels.py",S+"bundle/reconstruction_alignment.h"],
[("kmeans, add_cluster_neighbors","opensfm/large/tools.py"),("align_reconstructions","opensfm/large/tools.py")],["cluster files, submodel directories, aligned geometry"])
p("C24","Exported files describe the same reconstruction",
"Every exporter (PLY, Bundler, COLMAP text and binary, VisualSFM, PMVS, OpenMVS and geographic coordinates) writes cameras, poses, points, colors and observations that, read back under the target format's conventions, give the same projections and positions as the reconstruction. Each format is used with the camera models it can describe. Exports work for several reconstructions, rigs, several cameras, images without tracks and lists of images to export (which select exactly those), and change nothing but their output files. Features and matches handed to COLMAP are those of the dataset, and points and features refer to each other consistently. The positions written by the GPS and GeoJSON scripts are those of the reconstructed cameras.",
["inputs","configurations"],"all reconstructions with any camera models the format supports, identity and general rotations, subsets of images, any image names",
"There are no tests of the exporters.",
["opensfm/actions/export_ply.py","opensfm/actions/export_bundler.py","opensfm/actions/export_colmap.py","opensfm/actions/export_visualsfm.py","opensfm/actions/export_pmvs.py","opensfm/actions/export_openmvs.py","opensfm/actions/export_geocoords.py","opensfm/io.py","bin/export_gps","bin/export_geojson"],
[("per-format writers","opensfm/actions/")],["parsed output files against direct projections"])
p("C25","Image metadata and configuration are interpreted as documented",
"Metadata read from image files (sizes, make and model, focal ratio, GPS latitude/longitude/altitude with hemisphere, capture time with sub-seconds and offset, orientation, projection type, orientation angles) is the value the file encodes, in any supported way of encoding it, and malformed or missing tags yield the documented defaults instead of failures. Configuration files override exactly the keys they set with defaults for everything else, and focal length and camera calibration priors follow from metadata, sensor data and overrides in the documented order.",
["inputs","configurations"],"all combinations of EXIF/XMP tags, rationals with zero denominators, makers, camera types, configuration files and overrides",
"Tests read one or two sample pictures.",
["opensfm/exif.py","opensfm/config.py","opensfm/sensors.py","opensfm/actions/extract_metadata.py","opensfm/dataset.py"],
[("EXIF class and extract_exif_from_file","opensfm/exif.py"),("load_config","opensfm/config.py")],["extracted dictionaries for files written with known tags"])
p("C26","Parallel processing handles every item once, in order, whatever the worker count",
"Mapping work over processes or threads calls the function exactly once per item and returns results in item order for any worker count and batch size, and an error in a worker is reported to the caller. Pipeline steps that use it (matching, feature extraction, metadata, undistortion, depth maps) give the same results with one worker as with many.",
["schedules","inputs","configurations"],"all item counts, worker counts, batch sizes, delays of individual items and worker failures",
"Tests only run one worker or a trivial map.",
["opensfm/context.py","opensfm/matching.py","opensfm/features_processing.py","opensfm/large/tools.py"],
[("parallel_map","opensfm/context.py"),("bounded queue producer/consumer","opensfm/features_processing.py")],["call logs of workers with injected delays and faults; step outputs across worker counts"])
p("C27","Native code is free of memory errors and undefined behaviour",
"No use of the public API with any data, however degenerate (empty, single-element, duplicate, huge, non-finite), makes the native code read or write out of bounds, use freed memory or uninitialised sizes, or execute undefined behaviour; wrong arguments raise an exception. Objects handed out remain safe to use as long as the documentation lets the caller keep them.",
["inputs","histories"],"all API calls of the native modules with degenerate, malformed and random arguments, and histories of container edits",
"The tests run uninstrumented and with well-formed arguments.",
[S+"features/src/matching.cc",S+"features/src/hahog.cc",S+"features/src/akaze_bind.cc",S+"dense/src/depthmap.cc",S+"dense/depthmap_bind.h",S+"map/src/map.cc",S+"robust/robust_estimator.h",S+"bundle/src/bundle_adjuster.cc",S+"geometry/src/triangulation.cc"],
[("bounds implied by sizes passed from Python",S+"features/src/matching.cc")],["AddressSanitizer and UBSan reports, Eigen assertions"])
p("C28","Extracted features lie in the image and survive masking and normalization",
"Every feature extractor returns points inside the image with positive size, a descriptor, and the color of the image at the point, limited as configured, with normalized coordinates following the documented convention, whatever the resolution features are extracted at; a gray picture gives the same features in any of its accepted shapes. Feature detection stores them sorted by size. Masks and segmentations, which are upright and of any resolution, remove exactly the features on masked pixels, also when labels are stored with the features and applied when loading; all arrays stay in step, and filtered or reloaded features match their descriptors, colors, words and labels, in all versions of the file format.",
["inputs","configurations"],"all image contents and sizes (blank, noise, tiny, wide, grayscale, alpha), extractor types and limits, masks of any resolution",
"Tests extract features from one synthetic image and check counts.",
["opensfm/features.py","opensfm/features_processing.py","opensfm/masking.py","opensfm/feature_loading.py",S+"features/src/hahog.cc",S+"features/src/akaze_bind.cc"],
[("extract_features, normalize_features, root_feature","opensfm/features.py"),("mask lookups","opensfm/masking.py")],["extracted arrays against the images and masks"])
p("C29","Rigs bind their cameras by constant relative poses",
"Grouping images into rig instances puts each image in exactly one instance of at most one rig, with the images the naming patterns pair together, and each camera's pose is its rig camera's pose composed with the instance pose at all times. Calibrating a rig from reconstructed subsets recovers the true relative poses, and saved rig files load back to the same assignments.",
["inputs","histories","configurations"],"all image name sets and patterns, rig layouts, updates of instance and camera poses, and calibration subsets",
"Tests use one naming example and single rigs.",
["opensfm/rig.py",S+"map/src/rig.cc",S+"map/rig.h","opensfm/reconstruction_helpers.py","opensfm/actions/create_rig.py"],
[("create_instances_with_patterns, create_instances_from_reconstructions","opensfm/rig.py"),("RigInstance pose composition",S+"map/src/rig.cc")],["instances, rig cameras and shot poses after every change"])
p("C30","Statistics report the numbers the reconstruction contains",
"Every statistic written for a processed dataset (counts of shots, points, observations, track lengths, reprojection errors in every unit, GPS and control-point errors, feature and match counts, camera parameter summaries, times) equals the value recomputed from the underlying data, and is a finite valid JSON document for any dataset, including empty ones.",
["inputs","configurations"],"all reconstructions, track graphs, control points and matches, single or several reconstructions, missing artifacts",
"There is no test of the values.",
["opensfm/stats.py","opensfm/report.py","opensfm/actions/compute_statistics.py"],
[("compute_all_statistics","opensfm/stats.py")],["statistics dictionaries against independent recomputation"])
p("C31","Ground control points and GPS logs are read as documented",
"Ground control files in text (any supported projection, in pixel coordinates) and JSON form produce exactly the listed points, with geographic position, altitude and observations in the right images at the right normalized position, and unreadable lines or unknown images skipped. Writing and reading them back preserves the points, and positions interpolated from a GPS track at a capture time, also those written to the metadata of pictures, lie on the logged track at that time.",
["inputs"],"all control files with any projection header, unusual spacing, missing altitude, repeated points and images; all GPX logs and times",
"Tests read two short files.",
["opensfm/io.py","opensfm/dataset.py","opensfm/geotag_from_gpx.py",S+"map/ground_control_points.h"],
[("read_gcp_list, read_ground_control_points","opensfm/io.py"),("interpolate_lat_lon","opensfm/geotag_from_gpx.py")],["parsed points against the generator of the file and pyproj"])
p("C32","The mesh of an image covers what the image sees",
"The mesh step gives every image which has tracks a triangulation of its reconstructed points: for perspective images the triangles, on the image plane, tile the picture exactly once without overlap and connect all visible points in a Delaunay triangulation with corners at the four corners of the picture at the average depth; for fisheye and spherical images the triangles seen from the camera cover each direction at most, respectively exactly, once. Meshes reference existing vertices only, images without tracks get none, and the meshed reconstruction differs from the stored one by nothing but the meshes.",
["inputs"],"all camera models, picture sizes and sets of reconstructed points, including none, collinear ones, and ones outside of the picture",
"There is no test of the meshes.",
["opensfm/mesh.py","opensfm/actions/mesh.py","opensfm/io.py"],
[("triangle_mesh","opensfm/mesh.py"),("run_dataset","opensfm/actions/mesh.py")],["vertices and faces against the picture, the points and the rays of the camera"])
p("C33","A stored reconstruction can be refined, extended and filled",
"Bundling a stored reconstruction keeps its images, points and cameras, removes disturbances of its poses and points until it agrees with the features as well as the truth does, and aligns it to GPS and control points. Extending a stored reconstruction adds each image which can be resected, at its true place, without losing the others, and says which ones could not be added. Reconstructing from known poses triangulates the points without moving the images. Each step reads and writes only the named files.",
["inputs","histories","configurations"],"all partial, disturbed or empty stored reconstructions, input and output names, data sets of several parts, with and without GPS and control points",
"Tests never run these steps.",
["opensfm/actions/bundle.py","opensfm/actions/extend_reconstruction.py","opensfm/actions/reconstruct_from_prior.py","opensfm/reconstruction.py"],
[("run_dataset","opensfm/actions/bundle.py"),("run_dataset","opensfm/actions/extend_reconstruction.py"),("reconstruct_from_prior","opensfm/reconstruction.py"),("grow_reconstruction","opensfm/reconstruction.py")],
["stored and resulting reconstructions against the truth, files before and after"])
p("C34","The command line runs the named step with the given options",
"A command line runs exactly the step it names, once, on the data set it is given, with the values of its options wherever they stand in the line and the documented defaults of the others; the data set is released and the time of the step appended to profile.log. Unknown commands, options, choices and missing values are refused with the usage, a failing step makes the program fail, and nothing else is then run or written. bin/opensfm and bin/opensfm_run_all leave the same files as the steps they consist of, in their order, stopping at the first failure.",
["inputs","configurations"],"all commands, subsets and orders of options, values including empty and unusual ones, paths with spaces, and failing steps",
"Tests run the main steps once with default options.",
["opensfm/commands/command_runner.py","opensfm/commands/command.py","opensfm/commands/__init__.py","opensfm/commands/undistort.py","bin/opensfm","bin/opensfm_main.py","bin/opensfm_run_all"],
[("command_runner","opensfm/commands/command_runner.py"),("CommandBase.run","opensfm/commands/command.py")],["calls of the steps and their arguments, exit status, profile.log, resulting files"])
p("C35","The viewer serves the dataset it was started for and nothing else",
"The web viewer lists exactly the files of its dataset that look like reconstructions, at any depth and sorted, as they are at the time of the request, and answers requests for files and images of the dataset with their bytes. A request for a file that is missing, is a folder, or lies outside of the dataset, however it is written, is answered as not found; without a dataset the list is empty and nothing is served. Dataset and port are the ones of its command line.",
["inputs","histories"],"all trees of files and names, forms of paths in requests, and changes of the files between requests",
"There are no tests of the viewer.",
["viewer/server.py"],
[("dataset_path","viewer/server.py"),("reconstruction_files","viewer/server.py")],["answers of the web server"])
p("C36","The annotation tool shows, changes and saves the points its user sees",
"Through any sequence of actions of its user (adding, removing and selecting points, choosing images, clicking, saving, loading, launching again, annotating models, running analyses), every page of the annotation tool shows the same control points, selection and annotations; a click changes only the selected point on the image shown, at the position clicked; messages about other points change nothing; saving writes exactly what is shown, loading shows exactly what is in the file, and nothing is lost before. Images are grouped as the sequence file and the reconstructions say, and only images of the dataset are served.",
["histories","inputs"],"all sequences of actions, sets of images, files of control points, groups of images and window sizes",
"There are no tests of the annotation tool.",
["annotation_gui_gcp/main.py","annotation_gui_gcp/lib/GUI.py","annotation_gui_gcp/lib/gcp_manager.py","annotation_gui_gcp/lib/image_manager.py","annotation_gui_gcp/lib/views/image_view.py","annotation_gui_gcp/lib/views/tools_view.py","annotation_gui_gcp/lib/views/cad_view.py","annotation_gui_gcp/lib/views/cp_finder_view.py","annotation_gui_gcp/lib/views/web_view.py","annotation_gui_gcp/js/ImageView.js","annotation_gui_gcp/js/ToolsView.js"],
[("GroundControlPointManager","annotation_gui_gcp/lib/gcp_manager.py"),("ImageView","annotation_gui_gcp/lib/views/image_view.py")],["events sent to the pages, what the pages show, messages of the pages, the saved file"])
p("C37","Analyses of annotations align what was annotated and report its errors",
"Given points annotated in two reconstructions, the rigid analysis of the annotation tool leaves the first where it is and moves the second, whatever its scale, rotation and place, so that both agree with the annotations; the flexible one then adjusts both without losing images or points. The parts keep their images and points, the input files keep their contents, the reported reprojections, errors and summaries are those of the reconstructions written, and the tool finds the worst annotation in them. Too few common points change nothing. Annotated images are placed by the points, and points are carried onto the models they are annotated on.",
["inputs"],"all scenes, splits into two parts, similarities, annotations with and without noise and wrong clicks, indices of the parts, and models",
"There are no tests of the analyses.",
["annotation_gui_gcp/run_ba.py","annotation_gui_gcp/lib/gcp_manager.py"],
[("align","annotation_gui_gcp/run_ba.py"),("find_alignment","annotation_gui_gcp/run_ba.py")],["the reconstructions and reports written"])
p("C38","The viewer shows what the reconstruction says",
"From the reconstructions it fetches, loads or adds, the web viewer's provider gives every image once, with the place of its camera on the earth (and of its receiver if it has one), the direction it looks to, its camera, orientation, time, scale and mesh, in its cluster, cell and sequence, and every point with its color; whatever the rotation, the reference or the name of the image. The addresses it makes for pictures and for listed files get their bytes from the viewer's server. A file that cannot be loaded is refused with its reason and leaves the others as they were, a failed address does not prevent the others, and every load is announced once. The parameters in the address of the page are read back as given.",
["inputs","histories"],"all reconstructions, names of images and files, sequences of loads, refusals and failures, and orders of arrival",
"There are no tests of the viewer.",
["viewer/src/provider/DataConverter.js","viewer/src/provider/OpensfmDataProvider.js","viewer/src/provider/math.js","viewer/src/util/params.js","viewer/src/util/ids.js","viewer/src/ui/FileSelecter.js"],
[("DataConverter","viewer/src/provider/DataConverter.js"),("OpensfmDataProvider","viewer/src/provider/OpensfmDataProvider.js")],["answers and events of the provider, requests of the page"])
p("C39","What COLMAP computed is imported as it is",
"From a COLMAP database, with or without a binary model and a fused cloud beside it, bin/import_colmap.py makes a dataset with the same images, cameras (pinhole, radial and radial fisheye, with all their coefficients), keypoints (on the same pixels, with their size, orientation, descriptor and color) and matches; and a reconstruction with the same poses, points and observations, in which points project on their observations. Its undistorted images, observations and depths are those of the images they carry the name of. The database, the model and the images keep their contents. A reconstruction exported to COLMAP and imported again is the same.",
["inputs"],"all databases and binary models of the supported cameras, sizes, names and ids of images, rotations (none, tiny, half turns), kinds of keypoints, pairs, and paths",
"There are no tests of the import.",
["bin/import_colmap.py","opensfm/actions/export_colmap.py"],
[("import_cameras_images","bin/import_colmap.py"),("import_images_reconstruction","bin/import_colmap.py")],["the dataset written"])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
import os
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    for f in x["anchors"]["files"]:
        if not os.path.exists("/repo/"+f): print(x["id"],f)
