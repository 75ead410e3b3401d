#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script because the records are long)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
S = "liboptv/src/"
B = "py_bind/optv/"

prop("C01", "Projection and back-projection are inverse",
 "Whenever a 3D point in the measurement volume is projected to image coordinates through any valid camera, glass plane and refractive media, the line of sight traced back from those image coordinates passes through the same point, within the projection solver's tolerance. With equal refractive indices the projection is exactly the pinhole (collinearity) model, for any position and tilt of camera and glass plane.",
 ["inputs", "configurations"], "all valid camera poses, focal lengths, glass planes, refractive indices and thicknesses, and all 3D points in front of the camera behind the glass",
 "The tests project a handful of points with one or two near-axis cameras; the claim is over a continuous space of cameras, glass tilts, media and points.",
 [S+"imgcoord.c", S+"multimed.c", S+"ray_tracing.c"],
 [("flat projection", S+"imgcoord.c flat_image_coord"), ("radial shift through the media", S+"multimed.c multimed_nlay/multimed_r_nlay"),
  ("glass-aligned coordinate system and back", S+"multimed.c trans_Cam_Point/back_trans_Point"), ("back-projection", S+"ray_tracing.c ray_tracing")],
 ["img_coord/flat_image_coord outputs", "ray_tracing vertex and direction"])

prop("C02", "Lines of sight obey the law of refraction",
 "Every traced line of sight starts on the far side of the glass with a unit direction that stays in the plane of incidence and satisfies Snell's law across each interface, for any camera, glass tilt, thickness and indices. Image coordinates computed for a point seen through one to three glass layers are those of the physically refracted path from the camera to that point.",
 ["inputs", "configurations"], "all image points, camera/glass geometries, and media stacks with up to three layers",
 "Tests compare one ray against stored numbers; Snell's law has to hold for every ray and every media stack, including tilted glass and several layers.",
 [S+"ray_tracing.c", S+"multimed.c", S+"imgcoord.c"],
 [("refraction at each interface", S+"ray_tracing.c ray_tracing"), ("layer iteration", S+"multimed.c multimed_r_nlay")],
 ["ray vertex/direction", "flat image coordinates"])

prop("C03", "Camera rotation matrix always matches its angles",
 "A camera's rotation matrix is always the proper orthonormal rotation given by its three orientation angles. This holds after reading a calibration from files, after setting angles, and after any calibration step that adjusts the angles, whether or not that step succeeds.",
 ["inputs", "histories"], "all angle triples, and all sequences of load, set, orient, raw-orient and derivative operations on a camera",
 "Tests check one angle triple; the matrix is cached state that every operation on the angles has to keep consistent.",
 [S+"calibration.c", S+"orientation.c", B+"calibration.pyx"],
 [("matrix construction", S+"calibration.c rotation_matrix"), ("recomputed on load", S+"calibration.c read_calibration"),
  ("recomputed on set", B+"calibration.pyx set_angles"), ("recomputed during adjustment", S+"orientation.c orient/raw_orient/num_deriv_exterior")],
 ["exterior parameters after each operation"])

prop("C04", "Refraction lookup table never changes where points are imaged",
 "With the refraction lookup table enabled, image coordinates of every point in the measurement volume agree with those computed without it to within the table's interpolation error (a table cell's size next to the camera axis, where the radial shift changes fastest), and points not covered by the table are handled as if there were no table. Building the table never disturbs the camera's other parameters and looking up any point never reads outside the table.",
 ["inputs", "configurations"], "all cameras, volumes and media for which a table is built, and all points inside, on the edge of, and outside the table",
 "The test looks up one point of one table; edge cells and points outside the table are where errors hide.",
 [S+"multimed.c"],
 [("table construction", S+"multimed.c init_mmlut"), ("bilinear lookup with bounds test", S+"multimed.c get_mmf_from_mmlut"), ("fallback to direct solution", S+"multimed.c multimed_r_nlay")],
 ["image coordinates with and without table"], [("table data and geometry", "refraction factor over radius and depth", "liboptv/include/calibration.h mmlut")])

prop("C05", "Pixel and metric image coordinates convert without loss",
 "Converting pixel coordinates to metric image coordinates and back, or the reverse, returns the original coordinates for every image size, pixel size and field mode (frame, odd and even field). The metric origin is the image centre, x grows to the right and y grows upwards, scaled by the pixel size.",
 ["inputs", "configurations"], "all pixel positions, image sizes, pixel sizes and field modes",
 "Tests convert a few fixed points; both directions have to stay inverse for all modes and sizes.",
 [S+"trafo.c", B+"transforms.pyx"],
 [("forward", S+"trafo.c pixel_to_metric"), ("inverse", S+"trafo.c metric_to_pixel"), ("array versions", B+"transforms.pyx")],
 ["converted coordinates"])

prop("C06", "Lens distortion and its correction are inverse",
 "For every realistic set of radial, decentering, scale and shear parameters and any principal point shift, applying the lens distortion to ideal coordinates and then correcting it (or the reverse) returns the original coordinates within the requested tolerance. The applied distortion is the documented radial/decentering/affine model, and an undistorted camera leaves coordinates unchanged, including exactly at the image centre.",
 ["inputs", "configurations"], "all flat image coordinates including the origin and all distortion parameter sets in the invertible range",
 "Tests use one radial and one shear parameter set at a few points; combinations and the singular centre point are not covered.",
 [S+"trafo.c", B+"transforms.pyx"],
 [("distortion model", S+"trafo.c distort_brown_affin"), ("iterative inverse", S+"trafo.c correct_brown_affine_exact"), ("principal point handling", S+"trafo.c flat_to_dist/dist_to_flat")],
 ["converted coordinates"])

prop("C07", "Triangulation recovers points and reports true ray convergence",
 "Image positions that are projections of a 3D point from two or more cameras triangulate back to that point with a near-zero convergence measure; cameras that do not see the point have no influence, and the order of cameras does not matter. For inconsistent rays the result is the average over camera pairs of the midpoint of closest approach, and the reported measure is the average of the true minimal distances between the rays.",
 ["inputs", "configurations"], "all camera sets of two to four cameras with any subset seeing the point, all points, and noisy image positions",
 "Tests triangulate a couple of points with fixed cameras; the claim covers every subset, order and geometry.",
 [S+"orientation.c", B+"orientation.pyx"],
 [("closest approach of two rays", S+"orientation.c skew_midpoint"), ("pairwise averaging", S+"orientation.c point_position"), ("array version", B+"orientation.pyx point_positions/multi_cam_point_positions")],
 ["3D positions and convergence measures"])

prop("C08", "True matches lie on the epipolar segment",
 "For any pair of cameras and any particle whose depth lies within the illuminated volume bounds interpolated where its line of sight from the first camera enters the volume, the particle's image in the second camera lies on the segment computed from its image in the first camera. The ends of the segment are the images of the points where the line of sight meets the near and far depth bounds, and intersections of lines of sight with depth planes are computed exactly.",
 ["inputs", "configurations"], "all camera pairs, media, illuminated volumes and particles in them",
 "Tests check stored numbers for one pair of cameras; containment is a claim over all particles in the volume.",
 [S+"epi.c", S+"multimed.c", B+"epipolar.pyx"],
 [("segment end points", S+"epi.c epi_mm"), ("single-camera depth estimate", S+"epi.c epi_mm_2D"), ("intersection with depth planes", S+"multimed.c move_along_ray"), ("sampled curve", B+"epipolar.pyx epipolar_curve")],
 ["segment end points", "curve samples"])

prop("C09", "Candidate search along the epipolar line is exact",
 "The search for match candidates returns exactly those detections that lie within the tolerance band around the epipolar segment and pass the similarity limits (ratios of size and extents not below, ratio of brightness above the configured one), each with its true distance from the line and the similarity score defined by the volume parameters. It returns none when the segment falls wholly outside the sensor, and never misses or duplicates detections because of where they fall in the sorted list.",
 ["inputs", "configurations"], "all x-sorted detection lists of any length, all segments including vertical, reversed and degenerate ones, and all tolerance settings",
 "The test uses about twenty detections and one segment; the binary search start, the band edges and steep segments are not explored.",
 [S+"epi.c"],
 [("binary search start and sweep", S+"epi.c find_candidate"), ("similarity limits and score", S+"epi.c find_candidate")],
 ["returned candidate list"])

prop("C10", "Every detection is used by at most one correspondence",
 "In the result of multi-camera matching each detection belongs to at most one group, every group refers only to existing detections, and groups found in all cameras come before smaller ones with the reported per-size counts matching the list and each detection marked with the group it belongs to. Groups of one size are accepted in order of decreasing quality, only when above the acceptance threshold and only when all their members are mutually compatible candidates, and no acceptable group of unused detections is left out (pairs are formed only for a detection that has exactly one candidate in the other camera).",
 ["inputs", "configurations"], "all candidate adjacency lists, numbers of cameras, acceptance thresholds and scenes, including empty cameras",
 "Tests use one toy scene of 16 points with one candidate each; conflicts between groups, which the exclusivity logic exists for, do not occur there.",
 [S+"correspondences.c", B+"correspondences.pyx"],
 [("clique enumeration", S+"correspondences.c four_camera_matching/three_camera_matching/consistent_pair_matching"), ("greedy selection with usage marks", S+"correspondences.c take_best_candidates"), ("group numbering on targets", S+"correspondences.c correspondences")],
 ["returned groups, counts and target group marks"], [("usage marks", "which detections are taken", S+"correspondences.c tusage")])

prop("C11", "Multi-camera matching recovers well-separated scenes",
 "For a scene of particles whose epipolar segments are unambiguous, matching the detections of two, three or four cameras reports every particle as exactly one group of the right detections, whatever the order of the detections and the order of the particles. Particles hidden in some cameras are still reported by the groups of the remaining cameras, and a particle seen by only one camera is not grouped.",
 ["inputs", "configurations"], "all scenes of separable particles, camera counts, occlusion patterns and detection orders",
 "One fixed scene with all particles visible in all cameras is tested.",
 [S+"correspondences.c", S+"epi.c", B+"correspondences.pyx"],
 [("pairwise candidate lists", S+"correspondences.c match_pairs"), ("whole matching", S+"correspondences.c correspondences"), ("array version", B+"correspondences.pyx correspondences")],
 ["returned groups"])

prop("C12", "Threshold target detection reports exactly the qualifying blobs",
 "Threshold-based particle detection reports every bright blob that meets the configured threshold, discontinuity, size and total-brightness limits and lies inside the search window, exactly once, with its exact pixel count, extents and brightness sum, and its grey-value-weighted centre. Nothing outside the limits or cut off by the window is reported, detection never alters the image, and a window with no blob reports the no-target marker.",
 ["inputs", "configurations"], "all images, search windows and detection parameters",
 "Tests draw one to three small squares; irregular blobs, blobs touching the window, shared pixels and limits at their edges are not covered.",
 [S+"segmentation.c", B+"segmentation.pyx"],
 [("local maxima and region growing", S+"segmentation.c targ_rec"), ("limits", S+"segmentation.c targ_rec")],
 ["reported targets", "image after the call"])

prop("C13", "Peak-based target detection partitions bright regions",
 "Peak-based particle detection assigns every pixel it counts to exactly one peak, so the reported pixel counts and brightness sums never exceed what the image contains and isolated blobs are reported once with their exact pixel count, brightness sum and weighted centre. Every reported target satisfies the size and brightness limits, its centre lies within its extents, and the input image is left unchanged.",
 ["inputs", "configurations"], "all images, windows and detection parameters",
 "Tests use a trivial image with one or two squares.",
 [S+"segmentation.c"],
 [("peak growing and label image", S+"segmentation.c peak_fit"), ("touching peaks", S+"segmentation.c check_touch")],
 ["reported targets", "image after the call"])

prop("C14", "Image preprocessing computes the documented per-pixel results",
 "The smoothing, general 3x3 filter, box blur, image subtraction, masking, copying, field splitting and high-pass operations compute, for every pixel they define, the documented arithmetic result on the source image with saturation at the grey-value range, for every image size and filter width. Source images and memory outside the destination image are never modified.",
 ["inputs", "configurations"], "all images, image sizes, filter spans and filter kernels",
 "Tests use 5x5 images of constant or two grey values.",
 [S+"image_processing.c", B+"image_processing.pyx"],
 [("filters", S+"image_processing.c filter_3/lowpass_3/fast_box_blur"), ("pixel arithmetic", S+"image_processing.c subtract_img/subtract_mask/copy_images/split"), ("pipeline", S+"image_processing.c prepare_image")],
 ["destination image", "source image and guard bytes"])

prop("C15", "Tracking looks at the right detections for each prediction",
 "Around a predicted image position the tracker considers exactly the (at most four) nearest eligible detections inside the search window, nearest first, and the search window in each camera covers the image of every position the velocity limits allow. Candidates seen by several cameras are ranked by how many cameras agree, without losing or inventing candidates.",
 ["inputs", "configurations"], "all y-sorted detection lists, search windows, camera sets, predicted positions and velocity limits",
 "Tests use a six-element list and a single camera; the binary search start, window edges and multi-camera ranking are not covered.",
 [S+"track.c"],
 [("nearest candidates", S+"track.c candsearch_in_pix/candsearch_in_pix_rest"), ("search window", S+"track.c searchquader"), ("ranking", S+"track.c sort_candidates_by_freq")],
 ["returned candidate indices, windows and rankings"])

prop("C16", "Trajectory links are one-to-one and mutually consistent",
 "At every step of a tracking run, and in the linkage files it writes, a particle linked forward to another is exactly the one that other is linked back to, no particle has two predecessors or two successors, and every link and every detection reference points to an existing item of the adjacent frame. Detections are referred to by at most one particle per frame, each detection marked with a particle is the one that particle refers to, and no measured particle is lost, duplicated or moved beyond written precision by tracking.",
 ["histories", "inputs", "configurations"], "all particle sequences, camera counts, tracking parameters with and without particle addition, and forward passes followed by backward passes",
 "Tests check total link counts of three stored sequences; they do not look at individual links.",
 [S+"track.c", S+"tracking_frame_buf.c", S+"tracking_run.c", B+"tracker.pyx"],
 [("link decision", S+"track.c trackcorr_c_loop"), ("particle addition", S+"track.c add_particle"), ("backward pass", S+"track.c trackback_c"), ("persistence", S+"tracking_frame_buf.c write_path_frame")],
 ["frame buffer after each step", "written particle and linkage files"], [("prev/next links", "trajectory connections between frames", "liboptv/include/tracking_frame_buf.h P")])

prop("C17", "Links respect the motion limits and recover ideal trajectories",
 "Every link a forward pass makes is to a particle or candidate in the search window around the predicted position, on a path whose continuing displacement lies within the configured per-axis velocity limits and whose change of direction and speed lies within the angle and acceleration limits. Of several candidates the one with the lowest cost is linked, and when two particles compete for one the lower cost wins. Well separated particles that move smoothly within the limits and are seen by all cameras are linked into complete trajectories.",
 ["histories", "inputs", "configurations"], "all particle sequences and tracking limits",
 "Tests check total link counts of three stored sequences under one or two limits.",
 [S+"track.c"],
 [("velocity limits", S+"track.c pos3d_in_bounds"), ("angle and acceleration", S+"track.c angle_acc"), ("link decision", S+"track.c trackcorr_c_loop"), ("prediction", S+"track.c search_volume_center_moving/predict")],
 ["frame buffer and linkage files"])

prop("C18", "Adding particles and backward tracking only fill gaps",
 "Particles added during tracking are triangulated from detections that no measured particle uses, lie inside the illuminated volume and are linked to the trajectory they continue; with addition switched off the set of particles is unchanged. A backward pass keeps every existing link, connects only particles that had no predecessor to particles that had no successor, and reports the average number of links per frame.",
 ["histories", "inputs", "configurations"], "all sequences with missing correspondences, gaps and additions enabled or disabled, followed by backward passes",
 "One constructed frame sequence tests a single addition; backward tracking is tested only by its total.",
 [S+"track.c"],
 [("candidate volume from unused detections", S+"track.c assess_new_position/candsearch_in_pix_rest"), ("addition", S+"track.c add_particle"), ("backward linking", S+"track.c trackback_c")],
 ["files before and after each pass"])

prop("C19", "Frame buffer keeps frames in sequence",
 "After any sequence of advancing, retreating, reading and writing, the tracking frame buffer presents its frames in the same cyclic order, each slot holding the contents of the frame last read or stored into it. Reading a frame at the end never disturbs the other frames, and freeing the buffer releases every frame exactly once.",
 ["histories", "configurations"], "all operation sequences on buffers of any length, camera count and capacity",
 "The ring rotation is exercised only indirectly by the three stored tracking runs with a fixed length.",
 [S+"tracking_frame_buf.c"],
 [("double-length ring vector", S+"tracking_frame_buf.c fb_base_init/fb_next/fb_prev"), ("read/write at ends", S+"tracking_frame_buf.c fb_disk_read_frame_at_end/fb_disk_write_frame_from_start"), ("release", S+"tracking_frame_buf.c fb_free/free_frame")],
 ["frame pointers and contents in ring order"], [("ring position", "start of the current window in the ring", "liboptv/include/tracking_frame_buf.h framebuf_base.buf")])

prop("C20", "Target and trajectory files round-trip",
 "Writing the detections, correspondences, links and priorities of a frame and reading them back restores the same items in the same order, with integers exact and coordinates within the written precision, for any number of items including none, with or without the optional link and priority files, whatever numeric locale the program has set. File names follow the documented base name and frame number convention, and a frame file of one frame never affects another.",
 ["inputs", "configurations"], "all frames, counts, camera counts, frame numbers and optional file combinations",
 "Tests write and read one frame of a few items.",
 [S+"tracking_frame_buf.c", B+"tracking_framebuf.pyx"],
 [("targets", S+"tracking_frame_buf.c read_targets/write_targets"), ("paths", S+"tracking_frame_buf.c read_path_frame/write_path_frame"), ("whole frame", S+"tracking_frame_buf.c read_frame/write_frame")],
 ["files and re-read buffers"])

prop("C21", "Calibration and parameter files round-trip and compare faithfully",
 "A calibration or target-recognition parameter set written to file and read back equals the original within the written precision, and each parameter file reader stores every value of a well-formed file in its documented place, whatever numeric locale the program has set. The comparison functions report equality for identical contents, are symmetric, and report inequality when any single compared value differs.",
 ["inputs", "configurations"], "all parameter values, camera counts and image names",
 "Tests read one sample file per kind and change one or two fields.",
 [S+"calibration.c", S+"parameters.c", S+"orientation.c", S+"sortgrid.c"],
 [("calibration files", S+"calibration.c read_ori/write_ori/read_calibration/write_calibration"), ("parameter files", S+"parameters.c read_*_par/write_target_par"), ("comparison", S+"calibration.c compare_*, "+S+"parameters.c compare_*")],
 ["re-read structures and comparison results"])

prop("C22", "Missing, truncated or corrupt files are rejected cleanly",
 "Reading a calibration, parameter, calibration-point, target or trajectory file that is missing, empty, cut off at any point or contains a non-number where a number belongs never crashes, never reads or writes outside its buffers, and reports failure through the documented return value instead of returning partly uninitialised data. The reader releases what it opened.",
 ["fault_sequences", "inputs", "crash_points"], "all truncation points and token corruptions of every file kind the library reads, and missing or unreadable files",
 "Tests read only well-formed files (and a few missing ones).",
 [S+"parameters.c", S+"calibration.c", S+"tracking_frame_buf.c", S+"sortgrid.c", S+"orientation.c"],
 [("error checks after each field", S+"parameters.c, "+S+"calibration.c"), ("failure return values", "liboptv/include")],
 ["return values, sanitizer reports, open file handles"])

prop("C23", "Camera adjustment recovers the camera and touches only what it may",
 "Least-squares camera calibration started near the true camera converges on exact image data to parameters that reproduce the image positions, leaves every parameter not selected for adjustment unchanged, and reports residuals and error estimates consistent with the adjusted camera. When it does not converge the calibration is left as it was, and unused detections have no effect.",
 ["inputs", "configurations"], "all cameras, calibration point sets, starting errors and selections of adjustable parameters",
 "Tests calibrate one camera with a few flag sets.",
 [S+"orientation.c", B+"orientation.pyx"],
 [("adjustment", S+"orientation.c orient"), ("numeric derivatives", S+"orientation.c num_deriv_exterior"), ("array version", B+"orientation.pyx full_calibration")],
 ["calibration before and after, residuals and sigmas"])

prop("C24", "Rough orientation from picked points recovers the camera pose",
 "From a handful of manually identified calibration points and a starting guess, the rough orientation converges to a pose that reproduces the picked image positions, never changes the interior, glass or picked data, and reports failure when it cannot. Point identification files deliver exactly the listed points in the listed order or report failure.",
 ["inputs", "configurations"], "all cameras, pick sets of four or more points and starting guesses in range, and all pick lists and point files",
 "One camera with four points is tested.",
 [S+"orientation.c", B+"orientation.pyx"],
 [("rough orientation", S+"orientation.c raw_orient"), ("picked points", S+"orientation.c read_man_ori_fix"), ("array version", B+"orientation.pyx external_calibration")],
 ["calibration before and after", "returned points"])

prop("C25", "Calibration grid matching picks the nearest detection",
 "Matching detections to known calibration points assigns to each visible calibration point the detection nearest to its projected image position inside the square search window around it, copied unchanged except for the point's number, and marks the point as unmatched when there is none. The result has one entry per calibration point in their order.",
 ["inputs", "configurations"], "all cameras, point sets, detection lists and search radii",
 "Tests match one or two points with one camera.",
 [S+"sortgrid.c", B+"orientation.pyx"],
 [("projection and nearest neighbour", S+"sortgrid.c sortgrid/nearest_neighbour_pix"), ("array version", B+"orientation.pyx match_detection_to_ref")],
 ["returned matched list"])

prop("C26", "Vector and matrix kernels compute what they state",
 "The vector operations and the normal-equation kernels (product with transpose, inversion, matrix product), including their sub-matrix forms, compute the stated algebraic result for every input and size, tolerate the output overlapping an input where callers rely on it, and never touch elements outside the sub-matrix. The dumbbell quality measure equals the documented combination of ray convergence and length error of the given pairs.",
 ["inputs", "configurations"], "all vectors, and matrices of all sizes and sub-matrix shapes with well-conditioned content",
 "Tests use one small fixed matrix per kernel.",
 [S+"vec_utils.c", S+"lsqadj.c", S+"orientation.c"],
 [("vectors", S+"vec_utils.c"), ("matrices", S+"lsqadj.c"), ("dumbbell measure", S+"orientation.c weighted_dumbbell_precision")],
 ["outputs and guard elements"])

prop("C27", "Sorting routines return ordered permutations",
 "Each sorting routine for detections, corrected coordinates, matched groups and link candidates reorders its list into the documented order and keeps exactly the same items with all of their fields together, for lists of any length including empty, single, already sorted, reversed and with equal keys.",
 ["inputs"], "all lists of any length and key pattern",
 "Tests sort three to six distinct elements.",
 [S+"correspondences.c", S+"track.c", B+"tracking_framebuf.pyx"],
 [("quicksorts", S+"correspondences.c quicksort_*"), ("link candidate sort", S+"track.c sort")],
 ["lists before and after"])

prop("C28", "No input makes the library touch memory it does not own",
 "Running any stage, and the whole chain from image to trajectory, on any valid configuration and data, however many blobs, detections, candidates, particles or calibration points there are, never reads or writes outside an object, uses freed memory, or performs undefined arithmetic. Results that do not fit a documented capacity are dropped or reported instead of overflowing, and every stage gives back the memory and the files it took.",
 ["inputs", "configurations", "histories"], "all images, detection lists, candidate lists, frames and parameter sets including ones that exceed internal capacities",
 "Tests use small data that never reach internal limits and run without sanitizers.",
 [S+"segmentation.c", S+"correspondences.c", S+"epi.c", S+"track.c", S+"tracking_frame_buf.c", S+"orientation.c", S+"image_processing.c", S+"multimed.c"],
 [("capacity limits", "liboptv/include/epi.h MAXCAND, tracking_frame_buf.h POSI, correspondences.h nmax"), ("bounds tests", S+"segmentation.c, "+S+"track.c")],
 ["AddressSanitizer, UndefinedBehaviorSanitizer reports"])

prop("C29", "Results depend only on the inputs",
 "Every computation gives the same results when repeated with the same inputs in the same process, after unrelated work, and whatever the previous contents of uninitialised memory, and leaves the data it is only meant to read unchanged. No stage reads values that were never set.",
 ["inputs", "histories"], "all stages of the chain on all valid inputs, repeated in any order",
 "A test sees one run in one memory state; a result that depends on leftover memory passes by luck.",
 [S+"tracking_run.c", S+"multimed.c", S+"track.c", S+"segmentation.c", S+"trafo.c", S+"orientation.c", S+"correspondences.c"],
 [("no global mutable state", "liboptv/src"), ("explicit initialisation", S+"tracking_frame_buf.c frame_init, "+S+"correspondences.c")],
 ["MemorySanitizer reports and output digests of repeated runs"])

prop("C30", "Python bindings return what the core computes",
 "Every Python-level operation (transforms, projection, epipolar curve, preprocessing, detection, matching, positioning, calibration, tracking, parameters and calibration objects) gives the results of the corresponding core computation on the same data, for every number of cameras and for any memory layout of the arrays passed in. Values set through the object interface are the values read back and used.",
 ["inputs", "configurations", "histories"], "all argument values, camera counts, array layouts (contiguous, strided, Fortran order) and setter sequences",
 "Tests compare a few stored values using contiguous arrays and four cameras.",
 [B+"transforms.pyx", B+"imgcoord.pyx", B+"epipolar.pyx", B+"image_processing.pyx", B+"segmentation.pyx", B+"correspondences.pyx", B+"orientation.pyx", B+"tracker.pyx", B+"tracking_framebuf.pyx", B+"parameters.pyx", B+"calibration.pyx"],
 [("array conversion and result packing", "py_bind/optv/*.pyx")],
 ["Python return values against an independent model"])

prop("C31", "Python objects own their data safely",
 "Python objects that view or share native data (targets, target arrays, frames, parameters, calibrations, matching results) stay valid for as long as they are reachable, whatever the order in which the objects they came from are dropped, and repeated creation and destruction neither leaks nor frees memory twice. Wrong shapes, types, missing files and out-of-range indices raise Python exceptions (or are reported by the return value where that is documented) and never crash the interpreter.",
 ["histories", "inputs", "fault_sequences"], "all creation, sharing, mutation and destruction orders of binding objects, and all invalid arguments",
 "Tests create each object once and let it live to the end of the test.",
 [B+"tracking_framebuf.pyx", B+"parameters.pyx", B+"calibration.pyx", B+"correspondences.pyx", B+"tracker.pyx"],
 [("ownership flags and destructors", B+"tracking_framebuf.pyx, "+B+"parameters.pyx, "+B+"calibration.pyx")],
 ["AddressSanitizer/leak reports on the interpreter, resident memory growth, exceptions"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
