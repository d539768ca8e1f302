"""Writes properties.jsonl from the table below (kept as code so that the texts stay reviewable)."""
import json, os
L = 'liboptv/src/'
def F(*n): return [L + x for x in n]
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[], mechanism=[dict(name=m[0], where=m[1]) for m in mech],
                               observe_at=observe or [m[0] for m in mech], hook_needed=None)))

prop('C01', 'Pixel and metric image coordinates are exact inverses',
     'Converting an image point from pixels to millimetres and back, or from millimetres to pixels and back, returns the same point for every sensor size, pixel pitch and interlacing mode. The sensor centre is the metric origin, metric x grows to the right and metric y grows upwards, one pixel pitch per pixel (fields count every second row).',
     ['inputs', 'configurations'], 'all points, image sizes, pixel pitches and all three field modes',
     'The tests convert a handful of points with one or two camera set-ups; field modes other than frames and odd sizes are barely sampled.',
     F('trafo.c'), [('pixel_to_metric', 'trafo.c'), ('metric_to_pixel', 'trafo.c')])
prop('C02', 'Lens distortion model and its inverse agree',
     'Flat coordinates become distorted ones by adding the principal point shift, then radial and tangential Brown distortion, then scale and shear, exactly as the documented formulas say, for every parameter set and every point including the image centre. Correcting a distorted coordinate solves that same model: without distortion the round trip is exact, and the result returned for a distorted point maps back to that point within the documented tolerance whenever the correction converged. Outputs are always written, also when input and output are the same variables.',
     ['inputs', 'configurations'], 'all points, all ten interior/added parameters, exact and approximate correction',
     'The tests try a few parameter sets with most parameters zero; the centre point, the aliasing calls and mixed parameters are not reached.',
     F('trafo.c'), [('flat_to_dist', 'trafo.c'), ('dist_to_flat', 'trafo.c'), ('distort_brown_affin', 'trafo.c'), ('correct_brown_affine_exact', 'trafo.c')])
prop('C03', 'The camera rotation matrix is the documented proper rotation',
     'For every triple of angles the camera matrix is the documented omega-phi-kappa product: orthonormal with determinant one. It is recomputed whenever angles are set or a calibration is read, so matrix and angles never disagree, and no other calibration field changes.',
     ['inputs'], 'all real angle triples', 'The tests compare a few angle triples with stored matrices.',
     F('calibration.c') + ['py_bind/optv/calibration.pyx'], [('rotation_matrix', 'calibration.c')])
prop('C04', 'Vector and matrix kernels compute their definitions',
     'The 3D vector operations and the dense linear algebra kernels (product, normal matrix, right hand side, inverse, cross product) return what their definitions say for every input, including when the matrix in use is the leading block of a larger array. Entries outside that block are neither read into the result nor written.',
     ['inputs'], 'all real entries, all small dimensions and leading-dimension combinations',
     'The tests use one fixed small example per kernel.',
     F('vec_utils.c', 'lsqadj.c'), [('matinv', 'lsqadj.c'), ('matmul', 'lsqadj.c'), ('ata', 'lsqadj.c'), ('atl', 'lsqadj.c'), ('vec_*', 'vec_utils.c')])
prop('C05', 'Rays through air, glass and water obey the laws of refraction',
     'A traced image ray leaves a point on the far glass surface with a unit direction, lies with each of its segments in the plane of incidence, and obeys Snell\'s law at both interfaces, for every camera pose, glass pose and set of refractive indices without total reflection. With equal indices it is the straight pinhole ray.',
     ['inputs', 'configurations'], 'all camera and glass poses, indices, thicknesses and image points',
     'The tests compare one or two stored rays.',
     F('ray_tracing.c'), [('ray_tracing', 'ray_tracing.c')])
prop('C06', 'Projection to the image inverts back-projection',
     'In a single medium the image of a 3D point is the pinhole (collinearity) projection for every pose, and any point on the ray of an image coordinate projects back to that coordinate. The change of frame used for refraction (and its inverse) are exact inverses that keep the camera-point geometry and place the glass on the Z plane, and the refracted radial shift solves the refraction condition whenever the iteration reports convergence.',
     ['inputs', 'configurations'], 'all 3D points, poses and glass vectors',
     'The tests project a few points with one calibration.',
     F('imgcoord.c', 'multimed.c', 'trafo.c'), [('flat_image_coord', 'imgcoord.c'), ('img_coord', 'imgcoord.c'), ('trans_Cam_Point', 'multimed.c'), ('back_trans_Point', 'multimed.c'), ('multimed_r_nlay', 'multimed.c')])
prop('C07', 'The refraction look-up table interpolates and never leaves its bounds',
     'A look-up of the radial shift factor returns the bilinear interpolation of the four surrounding table nodes for every point inside the table and zero for every point outside it. It never reads memory outside the table, whatever the point, table size, origin and cell width.',
     ['inputs'], 'all points and table geometries', 'The tests look up a few interior points in one table.',
     F('multimed.c'), [('get_mmf_from_mmlut', 'multimed.c'), ('init_mmlut', 'multimed.c')])
prop('C08', 'Epipolar candidate search returns exactly the qualifying targets',
     'The epipolar segment of an image point consists of the images of the point\'s ray at the near and far end of the measuring volume. The candidate list for a segment holds exactly those targets of the other image that lie within the tolerance band around the segment, inside the segment\'s extent and pass every size and brightness ratio limit, each once, with correct correlation and distance, up to the list capacity; segments leaving the sensor yield the documented rejection.',
     ['inputs', 'configurations'], 'all target lists sorted by x, segments, tolerances and quality limits',
     'The tests run one segment with a handful of targets.',
     F('epi.c'), [('find_candidate', 'epi.c'), ('epi_mm', 'epi.c'), ('epi_mm_2D', 'epi.c')])
prop('C09', 'Camera cliques are formed only from pairwise matches and are all found',
     'A quadruplet, triplet or pair is proposed only if every two of its targets are pairwise candidates of each other as the matching lists say (for a pair: the only candidate), its score is the stated ratio of correlations to distances, and it exceeds the required minimum. Every such combination of still unused targets is proposed, each once, up to the given capacity, which is never exceeded.',
     ['inputs'], 'all adjacency lists, counts, scores and capacities',
     'The tests use one fully matching regular grid.',
     F('correspondences.c'), [('four_camera_matching', 'correspondences.c'), ('three_camera_matching', 'correspondences.c'), ('consistent_pair_matching', 'correspondences.c')])
prop('C10', 'Conflicts are resolved best first and each target is used once',
     'When the proposed matches are reduced to a consistent set, matches are accepted in order of decreasing score and a match is accepted exactly if none of its targets was taken before. No target of any camera ever ends up in two accepted matches, also across quadruplets, triplets and pairs, and the reported numbers equal what was accepted.',
     ['inputs'], 'all lists of proposals and all previous usage marks', 'The tests use four proposals.',
     F('correspondences.c'), [('take_best_candidates', 'correspondences.c')])
prop('C11', 'Sorting helpers sort and only permute',
     'Sorting targets by y, coordinates by x, matches by descending score or index lists by value leaves the sequence ordered by that key, and the result is a permutation of the input with every record intact. This holds for every length including zero and for repeated keys, without touching memory outside the sequence.',
     ['inputs'], 'all sequences up to the bound, including empty ones and ties', 'The tests sort one short array per routine.',
     F('correspondences.c', 'track.c'), [('quicksort_target_y', 'correspondences.c'), ('quicksort_coord2d_x', 'correspondences.c'), ('quicksort_con', 'correspondences.c'), ('sort', 'track.c')])
prop('C12', 'Finding correspondences yields a consistent, counted, memory-safe result',
     'For every frame of targets the multi-camera correspondence search returns matches whose members exist, are used once, cover at least two cameras, are grouped by number of cameras and are counted exactly in the per-class counts. The targets carry the number of the match they belong to and unmatched targets none. Arrays of the documented sizes suffice for every target distribution, including empty cameras.',
     ['inputs', 'configurations'], 'all small frames for two to four cameras', 'The tests run two synthetic regular grids.',
     F('correspondences.c') + ['py_bind/optv/correspondences.pyx'], [('correspondences', 'correspondences.c'), ('match_pairs', 'correspondences.c')])
prop('C13', 'Triangulation returns the least-distance point of the used rays',
     'The intersection of two rays is the midpoint of their common perpendicular and the reported distance is its length. A point measured by several cameras is the mean over all camera pairs of these midpoints, with the mean distance; cameras marked unused have no influence, and the result does not depend on stale memory.',
     ['inputs', 'configurations'], 'all ray pairs, all subsets of used cameras', 'The tests use a few symmetric rays and one camera set.',
     F('orientation.c'), [('skew_midpoint', 'orientation.c'), ('point_position', 'orientation.c'), ('weighted_dumbbell_precision', 'orientation.c')])
prop('C14', 'Blob detection reports true connected bright regions',
     'Every target that threshold-based detection reports has the exact pixel count, bounding size, grey-value sum and grey-weighted centre of a connected region grown downhill from a local maximum above the threshold, respects all size and brightness limits and stays inside the search border; targets never share a pixel. (When nothing qualifies, one dummy target is returned, as documented.) Detection never reads or writes outside the image or target buffer and never changes the image it is given.',
     ['inputs', 'configurations'], 'all small images, thresholds, limits and windows', 'The tests use a few 5x5 images.',
     F('segmentation.c'), [('targ_rec', 'segmentation.c')])
prop('C15', 'Peak-fitting detection stays in bounds and reports true regions',
     'Peak-fitting detection reports only regions whose count, extent, brightness and centre are those of actual pixels above the threshold, within the limits, every pixel being counted for at most one target. It never reads or writes outside the image or target buffer and leaves the image unchanged.',
     ['inputs', 'configurations'], 'all small images, thresholds and limits', 'The tests use two small images.',
     F('segmentation.c'), [('peak_fit', 'segmentation.c'), ('check_touch', 'segmentation.c')])
prop('C16', 'Image filters compute their pixel formulas inside the image',
     'Each image operation (3x3 filter, low-pass, box blur, field splitting, difference, masking, copying, high-pass preparation) gives every output pixel the value its definition prescribes from the input image, clamped to 0..255, for every image and size. Inputs other than the output are unchanged and no memory outside the images is touched.',
     ['inputs', 'configurations'], 'all small images, sizes, filters and spans', 'The tests use one tiny image per operation.',
     F('image_processing.c'), [('filter_3', 'image_processing.c'), ('lowpass_3', 'image_processing.c'), ('fast_box_blur', 'image_processing.c'), ('split', 'image_processing.c'), ('subtract_img', 'image_processing.c'), ('subtract_mask', 'image_processing.c'), ('copy_images', 'image_processing.c'), ('prepare_image', 'image_processing.c')])
prop('C17', 'Target files round-trip and damaged files are reported',
     'Writing a list of targets and reading it back gives the same count and the same records up to the printed precision, for every list including the empty one and every frame number. A missing, truncated or malformed file is reported by the documented failure value and never as a list with unset records.',
     ['inputs', 'crash_points'], 'all target lists, frame numbers, and all truncation points', 'The tests write and read two targets.',
     F('tracking_frame_buf.c'), [('write_targets', 'tracking_frame_buf.c'), ('read_targets', 'tracking_frame_buf.c')])
prop('C18', 'Frame correspondence and link files round-trip',
     'Writing the particles of a frame with their correspondences, positions, links and (if requested) priorities and reading them back gives the same records up to the printed precision, for every number of particles including none and every link index the buffers allow. Reading without link files marks all particles as unlinked; a missing or truncated file is reported and never yields unset records.',
     ['inputs', 'crash_points'], 'all particle lists, link indices, and all truncation points', 'The tests read one stored frame.',
     F('tracking_frame_buf.c'), [('write_path_frame', 'tracking_frame_buf.c'), ('read_path_frame', 'tracking_frame_buf.c'), ('read_frame', 'tracking_frame_buf.c'), ('write_frame', 'tracking_frame_buf.c')])
prop('C19', 'The frame buffer is a faithful sliding window',
     'After any sequence of advancing and reading frames, position i of the buffer holds the frame that was read i steps relative to the window start; advancing moves every frame by one position and moves no data, and reading or writing touches only the last or first frame. All positions always refer to distinct frames and releasing the buffer releases each frame once.',
     ['histories', 'configurations'], 'all buffer lengths and operation sequences within the bound', 'The tests shift one buffer a few times.',
     F('tracking_frame_buf.c'), [('fb_next', 'tracking_frame_buf.c'), ('fb_prev', 'tracking_frame_buf.c'), ('fb_read_frame_at_end', 'tracking_frame_buf.c'), ('fb_write_frame_from_start', 'tracking_frame_buf.c')])
prop('C20', 'Candidate search in the image finds the nearest targets in the window',
     'For every target list sorted by y and every search window the candidate search returns the (up to four) targets nearest to the window centre among those inside the window and usable, ordered by distance, with the correct count and the unused marker behind them. The variant for leftovers returns the nearest target that has no correspondence yet. No target in the window is missed because of list length or position.',
     ['inputs'], 'all y-sorted lists, window positions and sizes', 'The tests use lists of seven targets.',
     F('track.c'), [('candsearch_in_pix', 'track.c'), ('candsearch_in_pix_rest', 'track.c')])
prop('C21', 'Candidates from several cameras are merged and ranked by agreement',
     'Merging the per-camera candidate lists keeps each particle once, records exactly the cameras that saw it, and orders particles by the number of cameras, returning the number of distinct particles seen by at least two cameras (when there is none, one of those seen by a single camera is kept). Empty slots never count.',
     ['inputs'], 'all candidate lists for up to four cameras', 'The tests use one array for two cameras.',
     F('track.c'), [('sort_candidates_by_freq', 'track.c')])
prop('C22', 'Links between frames are mutual and one to one',
     'After every forward or backward tracking step a particle\'s successor names it as predecessor and vice versa, no particle has two predecessors or two successors, every link stays inside its frame, and a successor contested in forward tracking goes to the better candidate, while backward tracking changes no existing link. The reported counts equal the links made, and a link candidate list keeps exactly its registered entries in order of registration.',
     ['histories', 'inputs'], 'all candidate tables and small frame sequences', 'The tests compare total link counts for stored image sequences.',
     F('track.c', 'tracking_frame_buf.c'), [('trackcorr_c_loop', 'track.c'), ('trackback_c', 'track.c'), ('register_link_candidate', 'tracking_frame_buf.c'), ('reset_links', 'tracking_frame_buf.c')])
prop('C23', 'Every established link satisfies the tracking limits',
     'Velocity limits are tested per axis with the configured bounds, the angle between two displacements is reported in gon between 0 and 200 and the acceleration as their distance, for every geometry including zero displacement and exactly parallel vectors. Prediction extrapolates linearly. The trackers keep exactly those link candidates, added particles included, whose displacements are inside the velocity limits and whose mean angle and acceleration are under their limits (or the acceleration under a tenth of its limit), with the fitness (mean displacement / largest displacement + acceleration / limit + angle / limit) / number of appearances.',
     ['inputs'], 'all positions, bounds, angles and accelerations', 'The tests use a handful of vectors.',
     F('track.c'), [('pos3d_in_bounds', 'track.c'), ('trackcorr_c_loop', 'track.c'), ('trackback_c', 'track.c'), ('angle_acc', 'track.c'), ('predict', 'track.c'), ('search_volume_center_moving', 'track.c')])
prop('C24', 'Parameter files are read in documented order or rejected',
     'A complete parameter file of each kind yields exactly the values written in it, in the documented order and units, for every value. A missing, truncated or malformed file is rejected with the documented failure value; no object with unset fields is ever returned, no buffer is overrun and nothing is released twice.',
     ['inputs', 'crash_points'], 'all values, all truncation points, all parameter file kinds', 'The tests read one good file and sometimes a missing one.',
     F('parameters.c', 'orientation.c', 'sortgrid.c'), [('read_sequence_par', 'parameters.c'), ('read_track_par', 'parameters.c'), ('read_volume_par', 'parameters.c'), ('read_control_par', 'parameters.c'), ('read_target_par', 'parameters.c'), ('read_orient_par', 'orientation.c'), ('read_sortgrid_par', 'sortgrid.c'), ('read_calblock', 'sortgrid.c'), ('read_man_ori_fix', 'orientation.c')])
prop('C25', 'Comparisons report equality exactly when all fields are equal',
     'Each comparison of parameter sets, calibrations, targets, correspondences and particles reports equality exactly when every compared field of the two objects is equal, for every pair of objects, and is symmetric.',
     ['inputs'], 'all pairs of objects', 'The tests change one or two fields.',
     F('parameters.c', 'calibration.c', 'tracking_frame_buf.c', 'vec_utils.c'), [('compare_*', 'parameters.c'), ('compare_calib', 'calibration.c'), ('compare_targets', 'tracking_frame_buf.c')])
prop('C26', 'Calibration files round-trip and bad ones are refused',
     'Writing a calibration and reading it back restores every exterior, interior, glass and added parameter up to the printed precision, with the rotation matrix matching the angles. Missing added parameters come from the fallback file or take the documented defaults; a missing or truncated orientation file is refused, and success is reported exactly when everything was written.',
     ['inputs', 'crash_points', 'configurations'], 'all parameter values, presence of each file, all truncation points', 'The tests round-trip one calibration.',
     F('calibration.c'), [('write_ori', 'calibration.c'), ('read_ori', 'calibration.c'), ('read_calibration', 'calibration.c'), ('write_calibration', 'calibration.c')])
prop('C27', 'Bundle adjustment changes only what it is asked to',
     'Calibration refinement changes only parameters whose flags are set, for every flag combination and every data set, and leaves the given calibration untouched when it fails to converge. Observations that match the projection exactly change nothing; targets without a matching reference point have no influence. The design matrix holds the derivatives of the projection (numerical over the exterior, which leave the calibration as it was up to rounding; those of the distortion model over its parameters, for an undistorted camera), parameters not to be changed are held by large weights, and the glass normal is corrected in two perpendicular tangential directions, over all iterations.',
     ['inputs', 'configurations'], 'all flag combinations, corrections and point sets within the bound', 'The tests run four flag combinations on perfect data.',
     F('orientation.c'), [('orient', 'orientation.c'), ('num_deriv_exterior', 'orientation.c'), ('raw_orient', 'orientation.c')])
prop('C28', 'Calibration targets are assigned to their nearest reference point',
     'Each reference point that projects inside the image (or closer to it than the search radius) gets the target nearest to its projection within the search radius per axis, every other slot is marked unused, and the numbering follows the reference points. The nearest-target search returns the closest target inside the radius (per axis) or the unused marker, for every list.',
     ['inputs'], 'all target lists, projections and radii', 'The tests use one small grid.',
     F('sortgrid.c'), [('sortgrid', 'sortgrid.c'), ('nearest_neighbour_pix', 'sortgrid.c')])
prop('C29', 'Python wrappers pass values through unchanged',
     'Every property that can be set on a Python parameter, calibration or target object reads back as the value set and changes nothing else, and values reach the C library in the documented order. Batch functions give for each row what the single-point C function gives and reject inputs of the wrong shape; images and arrays are taken as they are addressed, next to each other in memory or not; optional arguments have their documented effect.',
     ['inputs', 'configurations'], 'all values and all setter/getter pairs', 'The tests set and read a few values per class.',
     ['py_bind/optv/parameters.pyx', 'py_bind/optv/calibration.pyx', 'py_bind/optv/tracking_framebuf.pyx', 'py_bind/optv/correspondences.pyx', 'py_bind/optv/transforms.pyx', 'py_bind/optv/imgcoord.pyx', 'py_bind/optv/epipolar.pyx', 'py_bind/optv/orientation.pyx', 'py_bind/optv/segmentation.pyx', 'py_bind/optv/image_processing.pyx', 'py_bind/optv/tracker.pyx'],
     [('setters and getters', 'py_bind/optv/parameters.pyx'), ('Calibration', 'py_bind/optv/calibration.pyx'), ('Target', 'py_bind/optv/tracking_framebuf.pyx')])
prop('C30', 'The image search window covers the 3D search volume',
     'The search window computed for a predicted particle covers, in every camera, the images of all corners of the velocity-bounded search volume as far as they lie inside the image, is no larger than their range, never extends beyond the image, and never has a negative extent.',
     ['inputs', 'configurations'], 'all predicted points, velocity limits and image sizes', 'The tests check one configuration.',
     F('track.c'), [('searchquader', 'track.c')])
prop('C31', 'A tracking run reads, links and writes each frame once and in order',
     'A tracking run keeps its buffer window consistent with the step number: at each step the current frame is the one with that number, each frame of the sequence is read once and written once with its final links, and the volume extents used are those of the measuring volume. Adding particles never exceeds the buffers and does nothing to a frame that could not be read.',
     ['histories'], 'all sequences within the bound', 'The tests look at final counts only.',
     F('track.c', 'tracking_run.c'), [('track_forward_start', 'track.c'), ('trackcorr_c_finish', 'track.c'), ('tr_new', 'tracking_run.c'), ('add_particle', 'track.c')])
if __name__ == '__main__':
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
