#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept in step: run me after editing)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append(d)

p("C01", "A heap always yields its elements in order, through any push/pop/update history",
  "After any sequence of pushes, pops and key updates, the binary heap template pops an element that no other stored element precedes, never loses, duplicates or invents an element, and keeps the caller's position map in step when the swap operation maintains one. A key update moves the element to a position consistent with its new key and leaves every other element present.",
  ["histories"], "All sequences of push/pop/update operations over small key alphabets (ties included), with and without a position map.",
  "The one test heap-sorts a single array and does one update sequence.",
  ["vl/heap-def.h"], [("VL_HEAP_push/pop/update/up/down", "vl/heap-def.h")], ["vl_*_heap_push/pop/update instantiated by the caller"])
p("C02", "Sorting and shuffling rearrange exactly the elements they are given",
  "The quicksort template leaves the array sorted by the caller's comparison and is a permutation of its input, for every input including ties, sorted, reversed and organ-pipe arrays. The shuffle template and vl_rand_permute_indexes always produce a permutation, touch only the given range, and for a fixed generator state are reproducible.",
  ["inputs"], "All arrays over an alphabet up to a length, with default and custom comparison/swap, and all generator states tried.",
  "test_qsort-def sorts one random array.",
  ["vl/qsort-def.h", "vl/shuffle-def.h", "vl/random.c"], [("VL_QSORT_sort", "vl/qsort-def.h"), ("VL_SHUFFLE_shuffle", "vl/shuffle-def.h"), ("vl_rand_permute_indexes", "vl/random.c")])
p("C03", "The random generator is MT19937 with independent, reproducible state per object",
  "A generator seeded with an integer or with an array of words produces exactly the MT19937 sequence for that seed, and the 31-bit, 64-bit, bounded-integer and real (res53, open/closed) variants are the documented functions of the same stream and stay in their documented ranges. Interleaving operations on two generator objects never makes one influence the other, and reseeding restarts the sequence whatever was drawn before.",
  ["histories", "inputs"], "All interleavings of seed/draw operations on two generators up to a depth; seeds and key arrays from a boundary alphabet; streams long enough to cross several state regenerations.",
  "test_rand prints numbers; xtest vl_twister checks a few seeds of one generator from a fresh state.",
  ["vl/random.c", "vl/random.h"], [("vl_rand_seed, vl_rand_seed_by_array, vl_rand_uint32", "vl/random.c"), ("vl_rand_uindex/real1/real3/res53...", "vl/random.h")])
p("C04", "String utilities never overrun the buffer and report the full length",
  "Every string utility (copy, copy_sub, basename, replace_wildcard, protocol parsing, reverse find, case-insensitive compare, enumeration lookup) writes at most the stated buffer size, always NUL-terminates a non-empty buffer, returns the length the complete result would have, and its result is the prefix of the complete result as documented. Null buffers and zero sizes are accepted as documented.",
  ["inputs"], "All strings over a small alphabet up to a length, combined with every buffer size from 0 to beyond the full length.",
  "test_stringop tries a handful of literals and sizes.",
  ["vl/stringop.c", "vl/stringop.h"], [("vl_string_*", "vl/stringop.c"), ("vl_enumeration_get*", "vl/stringop.c")])
p("C05", "Command-line parsing classifies every argument vector as documented",
  "For every argument vector, the option parser reports in order exactly the options present (short clusters, long options with separate or '=' arguments, optional and required arguments), reports unknown options and missing arguments with the documented codes, honours '--' as end of options, and leaves every operand reachable after the parse without loss or duplication. It reads nothing outside the vector and, restarted, gives the same answer again.",
  ["inputs"], "All argument vectors up to a length over an alphabet of option, argument and operand tokens.",
  "test_getopt_long prints the parse of its own argv; nothing is compared.",
  ["vl/getopt_long.c", "vl/getopt_long.h"], [("getopt_long", "vl/getopt_long.c")])
p("C06", "Scalar numeric helpers satisfy their defining equations on their whole range",
  "Integer square roots return the floor of the true root, floor/ceil/round and mod-2pi agree with their mathematical definition, and the fast reciprocal root, root and arctangent stay within their documented accuracy on their domain. The 2x2 SVD returns orthonormal factors and ordered singular values (largest absolute value first) reproducing the matrix, and the linear solvers return the solution of every well-conditioned system and report every exactly singular one.",
  ["inputs"], "All 8- and 16-bit integers plus boundary neighbourhoods of 32/64-bit squares; all matrices over a small value alphabet; dense grids over argument ranges.",
  "Tests time the functions or check a few random matrices.",
  ["vl/mathop.h", "vl/mathop.c"], [("vl_fast_sqrt_ui*", "vl/mathop.h"), ("vl_svd2, vl_lapack_dlasv2", "vl/mathop.c"), ("vl_solve_linear_system_2/3, vl_gaussian_elimination", "vl/mathop.c")])
p("C07", "Vector comparisons equal their definition on every dispatch path",
  "For every dimension, alignment and CPU dispatch (plain C, SSE2, AVX), each vector distance or kernel (L1, L2, chi2, Hellinger, JS, Mahalanobis, and the kernels) equals its mathematical definition up to rounding, and is symmetric where defined symmetric; no path reads outside the given vectors. The all-pairs function fills every entry with the value of the pair in the documented layout, for one and for two sets.",
  ["inputs", "configurations"], "All dimensions from 0 past several SIMD widths, all relative alignments, single and paired non-default coordinates over a value alphabet, all SIMD switches.",
  "test_vec_comp times one dimension on random data; xtest alldist2 checks one random matrix.",
  ["vl/mathop.c", "vl/mathop_sse2.c", "vl/mathop_avx.c"], [("vl_get_vector_comparison_function_f/d", "vl/mathop.c"), ("vl_eval_vector_comparison_on_all_pairs_f/d", "vl/mathop.c"), ("_vl_*_sse2_*, _vl_*_avx_*", "vl/mathop_sse2.c, vl/mathop_avx.c")])
p("C08", "Column convolution and smoothing equal direct summation for every geometry",
  "For every image size, stride, filter support, subsampling step, padding mode (zero, continuity), transposition flag and SIMD setting, column convolution writes exactly the samples of the direct sum and nothing else, and reads nothing outside the image and the filter. Triangular-filter convolution and the Gaussian smoothing built from it agree with the direct sum of the same kernel.",
  ["inputs", "configurations"], "All geometries up to a size with all flag combinations, with impulse and non-symmetric images (convolution is linear, so impulses determine it).",
  "test_imopv times a few cases; no test varies support, step and padding together.",
  ["vl/imopv.c", "vl/imopv_sse2.c"], [("vl_imconvcol_vf/vd, vl_imconvcoltri_f/d", "vl/imopv.c"), ("_vl_imconvcol_v*_sse2", "vl/imopv_sse2.c"), ("vl_imsmooth_f/d", "vl/imopv.c")])
p("C09", "Distance transform, integral image and gradients equal their definitions",
  "For every image the one-dimensional distance transform, applied along rows then columns, gives at each pixel the exact minimum of value plus weighted squared displacement and an index attaining it; the integral image gives every prefix sum; gradients give the documented finite differences with their polar form consistent with them. None of them touches memory outside the images given, for any size and stride.",
  ["inputs"], "All images over a small alphabet up to a size, all coefficient/offset pairs from an alphabet, strides larger than the width, and 1-pixel-wide images.",
  "xtests compare one random image each, through MEX with contiguous storage.",
  ["vl/imopv.c"], [("vl_image_distance_transform_f/d", "vl/imopv.c"), ("vl_imintegral_*", "vl/imopv.c"), ("vl_imgradient_*, vl_imgradient_polar_*", "vl/imopv.c")])
p("C10", "Library state is per-thread, and the recursive library lock excludes",
  "Under every schedule of threads using the library, the last error, its message, the random generator and the tic/toc clock of one thread are never affected by another thread; a thread's first use never leaks or shares its state, and its state is released when it ends. The library lock gives mutual exclusion, may be taken again by its holder, and is released only when every acquisition has been undone.",
  ["schedules"], "All interleavings of two or three threads, one to three operations each, at every synchronisation call, within a preemption bound.",
  "test_threads runs threads freely once and looks at printed output.",
  ["vl/generic.c", "vl/generic.h"], [("vl_lock_state/vl_unlock_state", "vl/generic.c"), ("vl_get_thread_specific_state", "vl/generic.c"), ("vl_set_last_error", "vl/generic.c")])
p("C11", "K-means results are self-consistent: nearest assignment, means, true energy",
  "After any k-means training (Lloyd, Elkan or approximate with enough comparisons; L1 or L2; float or double), the reported energy is the one of the returned clustering, refinement never increases the energy, and a best-of-repetitions run returns the best of them with matching centers. Quantization assigns every point to a nearest center and reports the true distance; Lloyd and Elkan take the same data from the same start to equally good fixed points.",
  ["inputs", "configurations", "histories"], "All tiny point sets over a value alphabet (ties and duplicates included) x algorithm x distance x type x number of centers x iterations x repetitions, and histories reusing one object.",
  "Tests run one random mixture per algorithm and look only at the final call succeeding or at one energy.",
  ["vl/kmeans.c", "vl/kmeans.h"], [("vl_kmeans_cluster, refine_centers_*", "vl/kmeans.c"), ("vl_kmeans_quantize*", "vl/kmeans.c"), ("vl_kmeans_init_centers_*", "vl/kmeans.c")])
p("C12", "K-means objects can be reused and copied without their past showing",
  "What a k-means object computes depends only on its settings, its centers and the data of the call: not on earlier calls on the same object, on the contents of freshly allocated memory, or on other objects. A copy behaves exactly as the original and is independent of it; seeding (random and k-means++) picks actual data points, and no more centers than requested.",
  ["histories"], "All sequences of operations (seed, set centers, refine, quantize, cluster, reset, copy) up to a depth on small data, each compared with a fresh object; adversarial fresh-memory contents.",
  "No test uses an object twice with different data, or copies one.",
  ["vl/kmeans.c", "vl/kmeans.h"], [("vl_kmeans_reset, vl_kmeans_new_copy", "vl/kmeans.c"), ("vl_kmeans_seed_centers_plus_plus", "vl/kmeans.c")])
p("C13", "Integer and hierarchical k-means assign every datum to a nearest center",
  "Integer k-means pushes every datum to a nearest current center for both algorithms, training alternates that assignment with integer-truncated means whatever the memory contains, leaves centers without data in place, and both algorithms trained from the same centers end at clusterings of their own nearest-center assignment. The hierarchical tree sends every datum along the chain of nearest centers of the nodes it meets, every path label is within the node's actual number of children, and trees of any depth and branching can be trained on, pushed to and freed.",
  ["inputs", "configurations"], "All tiny byte-vector data sets over a small alphabet x K x algorithm x initialisation; trees of all small depths and branchings, with fewer data than leaves.",
  "xtests compare means of three random blobs and check one tree.",
  ["vl/ikmeans.c", "vl/ikmeans_lloyd.tc", "vl/ikmeans_elkan.tc", "vl/ikmeans_init.tc", "vl/hikmeans.c"], [("vl_ikm_train/push/push_one", "vl/ikmeans.c"), ("vl_hikm_train/push", "vl/hikmeans.c")])
p("C14", "A kd-tree query without comparison limit returns the exact nearest neighbours",
  "For every data set (duplicates included), tree count, splitting rule, distance, data type, query and number of neighbours, an unlimited query returns exactly the nearest points in increasing order with their true distances, each point at most once, and marks missing neighbours when the data are fewer than asked. Building terminates for every data set.",
  ["inputs", "configurations"], "All small point sets over a value alphabet x all grid and off-grid queries x trees x thresholding x neighbours x L1/L2 x float/double.",
  "xtests query one random cloud, with L2 only.",
  ["vl/kdtree.c", "vl/kdtree.h"], [("vl_kdforest_build", "vl/kdtree.c"), ("vl_kdforestsearcher_query", "vl/kdtree.c")])
p("C15", "Limited kd-tree queries are honest and independent of query history",
  "A query limited to a number of comparisons computes at most that many distances (beyond a documented minimum of one leaf), and returns distinct points with their true distances in increasing order. Searchers on one forest are independent: the answer to a query does not depend on earlier queries, on other searchers created or destroyed in any order, or on whether it is asked alone or as part of an array.",
  ["histories", "configurations"], "All create/delete/query sequences over several searchers up to a depth; all limits from one to the data size.",
  "Tests create a single searcher and check only the overlap with the exact answer.",
  ["vl/kdtree.c"], [("vl_kdforest_new_searcher/vl_kdforestsearcher_delete", "vl/kdtree.c"), ("vl_kdforest_query_with_array", "vl/kdtree.c"), ("searchNumComparisons/searchMaxNumComparisons", "vl/kdtree.c")])
p("C16", "GMM training is EM: normalised model, bounded covariances, true likelihood",
  "Each EM iteration is the textbook expectation-maximisation step for diagonal Gaussians: posteriors of each point sum to one, priors sum to one, means and variances are the posterior-weighted ones with the configured lower bounds respected, and the likelihood does not decrease while no bound or mode restart is active. The reported log-likelihood is that of the data under the parameters, and best-of-repetitions keeps the best run's parameters with its likelihood.",
  ["inputs", "configurations"], "All tiny data sets over a value alphabet x clusters x initial parameters x iterations x repetitions x float/double x SIMD settings.",
  "Tests run EM on random data and look at the call succeeding or at one likelihood.",
  ["vl/gmm.c", "vl/gmm.h", "vl/mathop_avx.c", "vl/mathop_sse2.c"], [("vl_gmm_em, maximization, get_gmm_data_posteriors", "vl/gmm.c"), ("vl_gmm_cluster", "vl/gmm.c")])
p("C17", "GMM objects can be reused and copied without their past showing",
  "What a GMM object computes depends only on its settings, its parameters and the data of the call, not on earlier calls, on fresh memory contents or on other objects; a copy has the same settings and parameters and then evolves independently. Everything an object allocates is released with it.",
  ["histories"], "All sequences of operations (set parameters, EM, cluster, copy, reset) up to a depth on small data, with adversarial fresh-memory contents and allocation accounting.",
  "No test uses an object twice or copies one.",
  ["vl/gmm.c"], [("vl_gmm_new_copy, vl_gmm_reset, vl_gmm_delete", "vl/gmm.c")])
p("C18", "Fisher vectors equal their definition for every flag combination",
  "For every data set, model and flag combination (square root, normalised, improved, fast), float or double, the Fisher encoding equals the closed-form posterior-weighted gradient, with components of zero-probability modes left at zero and unit norm whenever normalisation is asked and the vector is nonzero. The number of significant terms returned is the number of assignments used, and the output vector is completely overwritten.",
  ["inputs", "configurations"], "All tiny data sets and models over a value alphabet x all flag sets x types x SIMD settings.",
  "One xtest compares one random case with a reference; flags are not combined.",
  ["vl/fisher.c"], [("vl_fisher_encode", "vl/fisher.c")])
p("C19", "VLAD vectors equal their definition for every flag combination",
  "For every data set, set of centers, assignment matrix (hard or soft) and flag combination (unnormalised, component-wise normalisation, square root, mass normalisation), float or double, the VLAD encoding equals the assignment-weighted residuals post-processed in the documented order. The output vector is completely overwritten, and clusters without assignments contribute zeros, never NaN.",
  ["inputs", "configurations"], "All tiny data sets, centers and assignments over a value alphabet x all flag sets x types.",
  "One xtest compares one random case per flag set through MEX.",
  ["vl/vlad.c"], [("vl_vlad_encode", "vl/vlad.c")])
p("C20", "The homogeneous kernel map is odd, homogeneous and approximates its kernel",
  "For every kernel type, window, homogeneity degree, order and period, the feature map is odd, scales as the gamma/2 power of its argument up to interpolation error, maps zero and everything outside the tabulated range to zero, and inner products of mapped values approximate the kernel to a precision improving with the order. It writes exactly 2*order+1 values at the given stride, in float and double alike, for every finite argument however small or large.",
  ["inputs", "configurations"], "All kernel/window/gamma/order/period combinations over an alphabet x arguments covering every table cell boundary, signs, zero, and extreme exponents x strides.",
  "One xtest compares kernels on a few dozen values with period and window left at defaults.",
  ["vl/homkermap.c"], [("vl_homogeneouskernelmap_new", "vl/homkermap.c"), ("vl_homogeneouskernelmap_evaluate_f/d", "vl/homkermap.c")])
p("C21", "SVM training and its data interface optimise the documented objective",
  "For every data set, labels, weights, loss and solver, the reported objective, regulariser, loss, dual objective and gap are those of the returned model and bias (weak duality always holds), training never uses a datum out of range, dual ascent never lowers the dual objective, and dual training that reports convergence is within the requested precision of the optimum, while SGD makes the documented steps (also from a warm start) and stops by the variation of the scores. Inner products and accumulation on a data set, with or without a homogeneous kernel map, are consistent with each other and with the explicit feature vectors, and returned scores, those of data of null weight included, are model inner products plus bias.",
  ["inputs", "configurations"], "All tiny data sets and labellings over an alphabet x losses x solvers x bias multiplier x weights x types, and all feature-map orders.",
  "xtests train on one random problem and check a couple of components of one solution.",
  ["vl/svm.c", "vl/svmdataset.c"], [("vl_svm_train, _vl_svm_evaluate, _vl_svm_sdca_train, _vl_svm_sgd_train", "vl/svm.c"), ("vl_svmdataset_get_inner_product/accumulate_function", "vl/svmdataset.c")])
p("C22", "SVM losses, conjugates and dual updates are mutually consistent",
  "For every supported loss, the loss, derivative, conjugate and dual coordinate update functions satisfy the Fenchel-Young relation, the derivative is a subgradient, and the dual update is the exact maximiser of the one-coordinate dual problem within the feasible range. Custom loss functions installed by the caller are the ones used.",
  ["inputs"], "Dense grids over inner product, label, current dual variable, norm and loss value for every loss.",
  "Losses are only exercised inside a single random training run.",
  ["vl/svm.c"], [("vl_svm_*_loss, *_loss_derivative, *_conjugate_loss, *_dca_update", "vl/svm.c")])
p("C23", "AIB merges greedily at minimum information loss into a valid tree",
  "For every joint distribution, agglomerative information bottleneck merges at every step a pair whose merger loses no more information than any other pair, reports the mutual information remaining after each step, and returns a parent array that is a valid binary merge tree in merge order. Rows of zero probability are never merged and are marked as such, and the input distribution is used only as documented.",
  ["inputs"], "All joint tables over a small alphabet of counts up to a size, zero rows and ties included.",
  "xtests run one tiny and one null-row example.",
  ["vl/aib.c", "vl/aib.h"], [("vl_aib_process, vl_aib_min_beta, vl_aib_merge_nodes, vl_aib_update_beta", "vl/aib.c")])
p("C24", "MSER reports exactly the maximally stable extremal regions of any image",
  "For every 2-D or 3-D byte image and parameter setting, the reported regions are exactly the connected components of lower level sets that are local minima of area variation and pass the area, variation and diversity filters, each represented by a pixel of the region at its maximal level from which region filling recovers it. The fitted ellipsoids are the first and second moments of those regions, and the answer does not depend on images the filter processed before or on fresh memory contents.",
  ["inputs", "histories"], "All images over a small level alphabet up to a size, in 2-D and 3-D, x parameter alphabet x every pair of consecutive images on one filter.",
  "One xtest runs a single photograph and checks plausibility.",
  ["vl/mser.c", "vl/mser.h"], [("vl_mser_process", "vl/mser.c"), ("vl_mser_ell_fit", "vl/mser.c")])
p("C25", "SLIC labels every pixel, leaves no small orphan, and is history-free",
  "For every image, region size, regularisation and minimum region size, each pixel gets a label in range, no connected segment smaller than the minimum remains other than one that has no previously visited neighbour, and the result is that of the documented local k-means followed by orphan absorption. The result depends on the arguments only, and no memory outside the images is touched, for any width, height and channel count.",
  ["inputs", "configurations"], "All images over a small alphabet up to a size x region sizes x minimum sizes x regularisers.",
  "One xtest segments one image and checks nothing about segments.",
  ["vl/slic.c"], [("vl_slic_segment", "vl/slic.c")])
p("C26", "Quick shift links each pixel to its nearest denser neighbour within the radius",
  "For every image, kernel size and maximum distance, the density estimate is the truncated Gaussian Parzen estimate, each pixel's parent is a nearest pixel of strictly higher density within the maximum distance (or itself), and the reported distance is the distance to the parent (infinite for roots). Parents therefore form a forest; the medoid variant maximises its documented objective; and processing twice gives the same result.",
  ["inputs", "histories"], "All images over a small alphabet up to a size x kernel sizes x distances x both variants, and repeated processing.",
  "No xtest covers quick shift.",
  ["vl/quickshift.c", "vl/quickshift.h"], [("vl_quickshift_process", "vl/quickshift.c")])
p("C27", "LBP histograms count the pattern of every pixel",
  "For every image, cell size and layout, the LBP feature is the normalised, bilinearly pooled histogram of the uniform local binary patterns of all interior pixels, with every one of the 256 bit strings mapped to one of the 58 bins consistently with rotation structure. The transposed layout gives the feature of the transposed image, and an extractor can be reused for images of any size.",
  ["inputs"], "All 3x3 neighbourhood patterns, all binary images up to a size, all cell sizes and both layouts.",
  "One xtest flips one image.",
  ["vl/lbp.c", "vl/lbp.h"], [("vl_lbp_process, _vl_lbp_init_uniform", "vl/lbp.c")])
p("C28", "LIOP descriptors are intensity-order histograms of the patch",
  "For every patch, LIOP's descriptor is the histogram of local intensity-order permutations, pooled by the rank of the pixel's intensity, thresholded-weighted as documented and scaled to unit norm. It is unchanged by any increasing affine change of intensity, the permutation indexing is a bijection for every number of neighbours, and the dimension reported is the one written.",
  ["inputs", "configurations"], "All patches over a small alphabet around sensitive pixels x neighbours x bins x radius x thresholds; all permutations of the neighbour values.",
  "test_liop and the xtest run one patch each.",
  ["vl/liop.c", "vl/liop.h"], [("vl_liopdesc_process", "vl/liop.c"), ("get_permutation_index", "vl/liop.c")])
p("C29", "HOG features equal their definition, for both variants, inputs and layouts",
  "For every image, channel count, cell size, number of orientations, orientation assignment (hard or bilinear), layout and variant, HOG equals the documented histogram and normalisation; a polar gradient field input gives the same feature as the image it came from. The flip permutation maps the feature of an image to that of its mirror image, extraction is repeatable, and one object gives the same answer for an image whatever it processed before.",
  ["inputs", "configurations", "histories"], "All images over a small alphabet up to a size plus single-pixel deviations, x configurations x pairs of consecutive inputs.",
  "One xtest checks the flip and dimensions on one image.",
  ["vl/hog.c", "vl/hog.h"], [("vl_hog_put_image, vl_hog_put_polar_field, vl_hog_extract", "vl/hog.c"), ("vl_hog_get_permutation", "vl/hog.c")])
p("C30", "Scale space levels have the declared geometry, scales and contents",
  "For every geometry, each octave and level has the declared size, step and sigma, and its pixels are the input image smoothed to that sigma and sampled at that step (for upsampled, base and downsampled octaves, with one or many sublevels). Geometry equality holds exactly when all fields agree; copies are equal and independent; nothing outside the level buffers is touched; putting a second image gives what a fresh object gives; running out of memory in a creation gives no object and leaks nothing.",
  ["configurations", "histories"], "All geometries over an alphabet of sizes, octave ranges, resolutions and subdivisions x impulse and ramp images x pairs of consecutive images.",
  "Only exercised through vl_covdet on a photograph.",
  ["vl/scalespace.c", "vl/scalespace.h"], [("vl_scalespace_put_image", "vl/scalespace.c"), ("vl_scalespacegeometry_is_equal, vl_scalespace_new_with_geometry", "vl/scalespace.c")])
p("C31", "SIFT detection finds exactly the DoG extrema that pass the thresholds",
  "For every content of an octave's difference-of-Gaussian stack and every pair of thresholds, detection returns exactly the samples that are strict extrema of their 26 neighbours above the peak threshold, whose refined position, peak value and edge score pass, with coordinates and scale those of the fitted quadratic. The keypoint built from coordinates and scale falls in the octave and level nearest to that scale, and keypoints of every octave are expressed in the image's own coordinates.",
  ["inputs", "configurations"], "All single, paired and tied peaks in every stack position, all threshold sides, all octave/level counts from an alphabet, including negative first octaves.",
  "xtests compare one photograph with stored frames.",
  ["vl/sift.c", "vl/sift.h"], [("vl_sift_detect", "vl/sift.c"), ("vl_sift_keypoint_init", "vl/sift.c"), ("vl_sift_process_first_octave/next_octave", "vl/sift.c")])
p("C32", "SIFT orientations and descriptors equal their definition and are history-free",
  "For every keypoint the orientations are the dominant peaks (at most four, at least 0.8 of the maximum) of the smoothed gradient-orientation histogram and the descriptor is the documented spatial-orientation histogram, clamped and normalised, with border samples handled alike in every position. A filter given a second image, or asked in a different order, answers as a fresh filter would.",
  ["inputs", "histories", "configurations"], "All keypoint positions (borders and outside included) and scales on small images with impulse/step/ramp content, all angles on a grid, all pairs of consecutive images and octave counts.",
  "xtests compare one photograph with stored descriptors.",
  ["vl/sift.c"], [("vl_sift_calc_keypoint_orientations", "vl/sift.c"), ("vl_sift_calc_keypoint_descriptor, vl_sift_calc_raw_descriptor", "vl/sift.c"), ("update_gradient", "vl/sift.c")])
p("C33", "Dense SIFT covers exactly the requested grid with the defined descriptors",
  "For every image size, bounds, steps and descriptor geometry, dense SIFT produces one descriptor at each grid position at which it fits in the bounds and nowhere else, with the reported frame at its centre, and each descriptor is the documented spatial-orientation histogram (flat or Gaussian window) normalised with its norm reported. Changing any parameter of a filter and processing again gives what a fresh filter with those parameters gives.",
  ["configurations", "histories"], "All image sizes, steps, bounds and geometries over an alphabet x sequences of setter calls up to a depth.",
  "xtests compare one image under few parameter sets.",
  ["vl/dsift.c", "vl/dsift.h"], [("vl_dsift_process, _vl_dsift_update_buffers", "vl/dsift.c"), ("_vl_dsift_with_flat_window/gaussian_window", "vl/dsift.c")])
p("C34", "Covariant detection finds all local extrema and keeps features consistent",
  "For every image and detector, the features found are the refined strict local extrema of the detector's cornerness response that pass the peak and edge thresholds, expressed in image coordinates, with none reported twice and none outside the image. Feature lists behave as a list through any sequence of detect, append, drop-outside, orientation and affine-shape operations, and a detector given a second image answers as a fresh one would.",
  ["histories", "configurations", "inputs"], "All synthetic peak layouts up to a size x methods x thresholds, and all operation sequences up to a depth on small images.",
  "Only exercised through vl_covdet demos and one xtest image.",
  ["vl/covdet.c", "vl/covdet.h"], [("vl_covdet_detect, vl_find_local_extrema_3", "vl/covdet.c"), ("vl_covdet_append_feature, drop_features_outside", "vl/covdet.c")])
p("C35", "Patches and orientations of covariant frames follow the frame geometry",
  "For every frame inside or outside the image, the patch extracted equals the image resampled through the frame's affine map with continuity at the borders, never reads outside the image, and commutes with translations of image and frame, starting from the smoothest scale-space level that is not smoother than asked for. Orientation and Laplacian-scale estimation return angles and scales that follow rotations and rescalings of the pattern, at most the requested or documented number per frame, the orientations being the strongest ones in order of decreasing score. Affine adaptation keeps the centre, the handedness and the smallest singular value, gives an upright finite frame with bounded anisotropy, and finds the shape of affine Gaussian blobs. Reflected frames are treated like any other.",
  ["inputs", "configurations"], "All frames over a grid of positions, scales, anisotropies and rotations on small ramp/impulse images.",
  "Only exercised on one photograph through MEX.",
  ["vl/covdet.c"], [("vl_covdet_extract_patch_for_frame", "vl/covdet.c"), ("vl_covdet_extract_orientations_for_frame", "vl/covdet.c")])
p("C36", "PGM reading never accepts or over-reads a malformed or truncated file",
  "An image written as PGM and read back is identical for every size, depth and content, in any position of a stream of several images, with comments and any whitespace in the header accepted. For every truncation or corruption of the stream the reader reports an error without reading or writing out of bounds and without leaking, and never reports success with pixels that were not in the file.",
  ["fault_sequences", "inputs"], "All truncation points and single-byte corruptions of the header of small files, all sizes and depths from an alphabet, all header layouts over a token alphabet.",
  "Only exercised by the command-line tools on one valid file.",
  ["vl/pgm.c", "vl/pgm.h"], [("vl_pgm_extract_head/extract_data, vl_pgm_insert, vl_pgm_read_new", "vl/pgm.c")])
p("C37", "Rodrigues' formula and its inverse are mutually consistent rotations",
  "For every rotation vector the map returns an orthonormal matrix of determinant one with the right axis and angle, the inverse map recovers an equivalent vector (including zero and half-turn rotations), and the returned derivatives are those of the map.",
  ["inputs"], "All rotation vectors over a grid of axes and angles, including multiples of a half turn and tiny angles.",
  "No C test; no xtest.",
  ["vl/rodrigues.c"], [("vl_rodrigues, vl_irodrigues", "vl/rodrigues.c")])
p("C38", "Parallel builds give the sequential answer under every schedule",
  "Compiled with OpenMP, every parallel region (k-means quantisation, GMM steps, kd-forest array queries and others) gives the same answer as the sequential library up to rounding order, for every number of threads and every schedule, with no unsynchronised access to shared data and no deadlock.",
  ["schedules", "configurations"], "All interleavings of two and three worker threads at every synchronisation operation within a preemption bound, for every parallel entry point on small data.",
  "The tested build has OpenMP disabled; no test compares thread counts.",
  ["vl/kmeans.c", "vl/gmm.c", "vl/kdtree.c", "vl/vlad.c", "vl/fisher.c"], [("#pragma omp parallel/critical regions", "vl/kmeans.c, vl/gmm.c, vl/kdtree.c, vl/vlad.c, vl/fisher.c")])
p("C39", "Toolbox counting and lookup functions equal their definitions",
  "The toolbox's MEX functions for accumulation, search, hashing, integral histograms, local maxima and cumulative maxima give, for every argument shape and class they accept, the result of their documented definition, and reject malformed arguments with an error instead of touching memory outside their arguments.",
  ["inputs"], "All small arrays over small alphabets x dimensions x classes, against naive definitions.",
  "xtests try a few literals per function.",
  ["toolbox/misc", "toolbox/imop"], [("vl_binsum, vl_binsearch, vl_ihashsum, vl_ihashfind, vl_inthist, vl_sampleinthist, vl_localmax, vl_cummax, vl_imintegral", "toolbox/misc/*.c")])
p("C40", "Merge trees, integer quantisers and descriptor matching equal their definitions",
  "The toolbox's vl_aib returns, for every table, the tree of the greedy merges in the documented numbering with the information left after each merge, ignoring null values or, with ClusterNull, merging them first at no cost. vl_aibhist counts the data below every node of such a tree, from a list of leaves or from a histogram. vl_ikmeans and vl_hikmeans return the clusters the library computes with the options given, in a tree just deep enough for the leaves asked for; the quantisers assign every datum, along every level, to a closest center. vl_ubcmatch reports a pair exactly when the closest descriptor passes the ratio test, with its squared distance. Malformed arguments give an error, and never an access outside the arguments or an endless loop.",
  ["inputs"], "All small tables, merge trees, data sets, center sets and descriptor sets; all vectors of parents; defects at every node of a tree; arguments of every kind.",
  "xtests try one or two examples.",
  ["toolbox/aib", "toolbox/kmeans", "toolbox/sift/vl_ubcmatch.c", "toolbox/mexutils.h"], [("vl_aib, vl_aibhist", "toolbox/aib"), ("vl_ikmeans, vl_ikmeanspush, vl_hikmeans, vl_hikmeanspush", "toolbox/kmeans"), ("vl_ubcmatch", "toolbox/sift/vl_ubcmatch.c")])
p("C41", "Distance matrices and image operators of the toolbox equal their definitions",
  "The toolbox's vl_alldist and vl_alldist2 return, for every pair of columns of one or two matrices (full, and for vl_alldist2 also sparse or integer with its integer arithmetic), the documented distance or kernel. vl_tpsumx returns r^2 log r^2 for every pair of points. vl_imwbackwardmx interpolates bilinearly on any grid, with the derivatives of the interpolation, and is not-a-number exactly outside the grid. vl_imsmooth convolves every channel with the normalised Gaussian or triangular kernel, with the padding and subsampling asked for. vl_imdisttf returns the minimum of the distance transform and an index that attains it. Malformed or non-finite arguments give an error or a harmless result, and never an access outside the arguments, an endless loop or the end of the session.",
  ["inputs"], "All small matrices over class-specific alphabets, every sparsity pattern, grids, images, kernels, paddings, steps; arguments of every kind and unusual parameters.",
  "xtests compare one or two examples with loops.",
  ["toolbox/misc/vl_alldist.c", "toolbox/misc/vl_alldist2.c", "toolbox/imop"], [("vl_alldist, vl_alldist2", "toolbox/misc"), ("vl_tpsumx, vl_imwbackwardmx, vl_imsmooth, vl_imdisttf", "toolbox/imop")])

p("C42", "Evaluation curves equal their definitions",
  "For every labelling, ranking and set of options, vl_pr, vl_roc and vl_det return the counts-based recall, precision, true and false rates of their documentation: one point per retrieved sample in decreasing order of score, or with Stable one value per sample in the order given and NaN for samples that are not retrieved; the areas, average precisions, equal error rate and its threshold are those of the curve, and with no results the curve asked for is the one drawn.",
  ["inputs", "configurations"], "All labellings and rankings of a few samples, with unretrieved and tied ones, times the options.",
  "xtests evaluate a few fixed vectors.",
  ["toolbox/plotop"], [("vl_tpfp, vl_pr, vl_roc, vl_det", "toolbox/plotop")])
p("C43", "Tree cuts, histograms and selections of the toolbox equal their definitions",
  "The functions of the toolbox written in the MATLAB language that count and select do what they document for every input: vl_aibcut returns a cut of exactly N nodes with the map and the short-circuited tree of that cut, null nodes included as documented; vl_aibcuthist, vl_hikmeanshist (the root in the first bin) and vl_ikmeanshist count the data of each node; vl_histmarg sums out the dimensions not listed and keeps the listed ones in the order given; vl_whistc is a weighted HISTC that skips NaN weights; vl_colsubset selects the columns asked for, in order and without replacement; vl_lbpfliplr gives the features of the flipped image; vl_hat and vl_ihat are the cross-product matrix and its inverse; vl_alphanum sorts with numbers by value, for any strings.",
  ["inputs"], "All small trees, maps, paths, arrays, selections and lists of strings.",
  "xtests try one or two examples of some of the functions.",
  ["toolbox/aib", "toolbox/kmeans", "toolbox/misc", "toolbox/geometry"], [("vl_aibcut, vl_aibcutpush, vl_aibcuthist", "toolbox/aib"), ("vl_hikmeanshist, vl_ikmeanshist", "toolbox/kmeans"), ("vl_histmarg, vl_whistc, vl_colsubset, vl_lbpfliplr, vl_alphanum", "toolbox/misc"), ("vl_hat, vl_ihat", "toolbox/geometry")])
p("C44", "Options given to toolbox functions are all used, passed back or refused",
  "vl_argparse, through which the toolbox takes its options, sets exactly the options given, the last one winning, at whatever depth and in whatever form they are written; an option that is not known is, with one result, an error, with two, passed back in a list of parameter-value pairs, and with 'merge' added; none is dropped silently. vl_override copies, at every depth, the fields of one structure over the matching fields of another, and Warn, Skip and CaseI apply at every depth. vl_linespec2prop translates every plot style, vl_plotstyle cycles colours and then styles, and vl_xmkdir makes exactly the missing directories of a path, or none if it pretends.",
  ["inputs", "configurations"], "All short sequences of arguments of every form times the modes; all pairs of small structures times the options; all styles; all small trees of directories.",
  "xtests try one literal per feature.",
  ["toolbox/misc/vl_argparse.m", "toolbox/misc/vl_override.m", "toolbox/misc/vl_xmkdir.m", "toolbox/plotop"], [("vl_argparse, vl_override, vl_xmkdir", "toolbox/misc"), ("vl_linespec2prop, vl_plotstyle", "toolbox/plotop")])
p("C45", "Image, colour, warp and frame functions of the toolbox equal their definitions",
  "The toolbox's functions written in the MATLAB language for images and geometry return their documented definition for every small input and class: vl_imup interpolates bilinearly, vl_imdown drops or averages, vl_grad and vl_imgrad are finite differences of the type asked for; vl_rgb2xyz and vl_xyz2rgb are inverse to each other and vl_xyz2lab and vl_xyz2luv give the CIE values for the illuminant asked for, black included; affine warps, their derivatives and thin-plate splines (basis, stiffness, warp and inverse warp) satisfy their equations; vl_imwbackward interpolates every channel; vl_frame2oell, vl_ertr, vl_flatmap, vl_imseg, vl_imarray and the special functions and numerical derivatives match their formulas.",
  ["inputs"], "All small images, colour grids, control point sets, frames, forests and mosaics.",
  "xtests cover vl_grad, vl_imarray and vl_imwbackward with one example each.",
  ["toolbox/imop", "toolbox/special", "toolbox/sift/vl_frame2oell.m", "toolbox/quickshift", "toolbox/misc"], [("vl_imup ... vl_imarray", "toolbox/imop"), ("vl_gaussian ... vl_rcos", "toolbox/special"), ("vl_frame2oell", "toolbox/sift"), ("vl_flatmap, vl_imseg", "toolbox/quickshift"), ("vl_grad, vl_numder, vl_numder2", "toolbox/misc")])

p("C46", "The feature functions of the toolbox give the library's features in MATLAB terms",
  "vl_sift, vl_siftdescriptor, vl_dsift, vl_covdet, vl_mser, vl_erfill, vl_hog, vl_lbp and vl_liop give, for every image, every combination of options and every given frame, exactly the features of the C library for the transposed image: positions one-based with x first, orientations and descriptors as if the image had not been transposed, results of the documented class and size, integer descriptors equal to the clipped and truncated float ones, uninitialised memory never part of a result; MSER seeds are the ones of the maximally stable components and vl_erfill fills exactly the connected component of its seed. Wrong, odd, huge or non-finite arguments give an error or a result, never misuse of memory or an endless loop.",
  ["inputs"], "All small images over small alphabets, option combinations up to a bound, all pairs of odd arguments.",
  "xtests run vl_sift, vl_dsift, vl_hog and vl_lbp on one image; nothing exercises the argument checks, frames outside the image, or vl_erfill.",
  ["toolbox/sift", "toolbox/mser", "toolbox/misc/vl_hog.c", "toolbox/misc/vl_lbp.c"], [("mexFunction", "toolbox/sift/vl_sift.c"), ("mexFunction", "toolbox/sift/vl_siftdescriptor.c"), ("mexFunction", "toolbox/sift/vl_dsift.c"), ("mexFunction", "toolbox/sift/vl_covdet.c"), ("mexFunction", "toolbox/sift/vl_liop.c"), ("mexFunction", "toolbox/mser/vl_mser.c"), ("mexFunction", "toolbox/mser/vl_erfill.c"), ("mexFunction", "toolbox/misc/vl_hog.c"), ("mexFunction", "toolbox/misc/vl_lbp.c")])

p("C47", "The learning functions of the toolbox agree with the library",
  "vl_kmeans, vl_gmm, vl_fisher, vl_vlad, vl_kdtreebuild and vl_kdtreequery, vl_svmtrain, vl_homkermap, vl_slic, vl_quickshift, vl_rodr, vl_irodr and vl_twister give, for every array of single or double data, every combination of options and every number of requested results, the results of the C library configured the same way with the same random numbers, with one-based indexes, in arrays of the documented class and size; only the requested results are created. A forest read back from MATLAB answers like the one that was built, and a forest with altered fields is refused or answers with valid points. Saving and restoring the state of vl_twister repeats the same numbers. Wrong, odd, huge or non-finite arguments give an error or a result, never misuse of memory, a crash or an endless loop.",
  ["inputs", "histories"], "All small data sets over small alphabets, option combinations up to a bound, forests with every one or two numbers altered, all pairs of odd arguments.",
  "xtests run each function on one or two random data sets; malformed forests, missing results and odd arguments are never exercised.",
  ["toolbox/kmeans/vl_kmeans.c", "toolbox/gmm", "toolbox/fisher", "toolbox/vlad", "toolbox/misc", "toolbox/slic", "toolbox/quickshift", "toolbox/geometry"], [("mexFunction", "toolbox/kmeans/vl_kmeans.c"), ("mexFunction", "toolbox/gmm/vl_gmm.c"), ("mexFunction", "toolbox/fisher/vl_fisher.c"), ("mexFunction", "toolbox/vlad/vl_vlad.c"), ("mexFunction", "toolbox/misc/vl_kdtreebuild.c"), ("mexFunction, restore_parent_recursively", "toolbox/misc/vl_kdtreequery.c, toolbox/misc/kdtree.h"), ("mexFunction", "toolbox/misc/vl_svmtrain.c"), ("mexFunction", "toolbox/misc/vl_homkermap.c"), ("mexFunction", "toolbox/slic/vl_slic.c"), ("mexFunction", "toolbox/quickshift/vl_quickshift.c"), ("mexFunction", "toolbox/geometry/vl_rodr.c"), ("mexFunction", "toolbox/geometry/vl_irodr.c"), ("mexFunction", "toolbox/misc/vl_twister.c")])

p("C48", "The command-line programs write the library's features to the files asked for",
  "The programs sift and mser write, for every readable PGM image (8 bits, and 16 bits for sift; ASCII or raw), every combination of options, and in ASCII or (sift) binary form, exactly the frames, descriptors, seeds, meta data and scale space images that the library computes with those parameters, and no other file; the names are those of the file specifiers with `%' replaced by the name of the image without directory and extension and `%%' by `%'. Frames given with --read-frames are those described, in order of scale, none if the file is empty. Several images are processed as if each was alone, and the failure of one does not stop the others. A malformed, empty, unsupported or missing image, a malformed list of frames, an invalid or empty argument, a name that is too long, a file that cannot be opened or memory that runs out gives a message and exit status 1, never a crash, a leak, an open file or a result computed from garbage.",
  ["inputs", "faults"], "All combinations of output options, all pairs and triples of parameter values, all headers of three numbers out of 16, all cuts of small files, all images up to 9 x 9 (12 x 12), all histories of three images out of nine kinds, all patterns of up to four pieces, each file and each allocation failing.",
  "No test runs the programs.",
  ["src/sift.c", "src/mser.c", "src/generic-driver.h"], [("main, save_gss", "src/sift.c"), ("main", "src/mser.c"), ("vl_file_meta_parse, vl_file_meta_open, vl_file_meta_put_double, vl_file_meta_get_double", "src/generic-driver.h")])

p("C49", "Composite and display functions of the toolbox equal their definitions",
  "The functions of the toolbox put together from others do what their documentation says for every small input and combination of options: vl_phow gives at every size the dense SIFT descriptors of the smoothed channels of the colour space asked for, on grids with the same centre, nulled where the contrast is low, in the class asked for; vl_ubcread reads every complete file of both formats, closes it, and refuses a truncated one; vl_imarraysc scales each image (or all) into the colour map's range; vl_impattern gives patterns of the size and class documented; vl_imwhiten filters by the power of the frequency; vl_quickseg and vl_quickvis give consistent trees, labels, mean colours and boundaries; vl_tpfp counts true and false positives; vl_plotframe, vl_plotbox, vl_plotgrid, vl_plotpoint, vl_plotsiftdescriptor, vl_plotss and vl_tightsubplot draw what they are given where it is with the properties given, and leave the state of the figure; vl_printsize and vl_figaspect set the sizes asked for; vl_click, vl_clickpoint and vl_clicksegment return the points of any history of clicks and keys and restore the figure; vl_imreadgray and vl_imreadbw convert any class and number of channels and use the format given; vl_harris gives the documented score; vl_svmdataset stores what it is given; vl_simdctrl and vl_threads remember what was asked, and never change a result.",
  ["inputs", "histories"], "All combinations of options on two images; all small images, rankings, mosaics, files cut anywhere, sequences of frames, boxes and descriptors, histories of requests, clicks and keys.",
  "xtests exercise vl_phow with one colour model each and none of the others.",
  ["toolbox/sift/vl_phow.m", "toolbox/sift/vl_ubcread.m", "toolbox/imop", "toolbox/quickshift", "toolbox/plotop", "toolbox/misc/vl_simdctrl.c", "toolbox/misc/vl_threads.c"], [("vl_phow", "toolbox/sift/vl_phow.m"), ("vl_ubcread", "toolbox/sift/vl_ubcread.m"), ("vl_imarraysc", "toolbox/imop/vl_imarraysc.m"), ("vl_impattern", "toolbox/imop/vl_impattern.m"), ("vl_imwhiten", "toolbox/imop/vl_imwhiten.m"), ("vl_quickseg", "toolbox/quickshift/vl_quickseg.m"), ("vl_quickvis", "toolbox/quickshift/vl_quickvis.m"), ("vl_tpfp", "toolbox/plotop/vl_tpfp.m"), ("vl_plotframe", "toolbox/plotop/vl_plotframe.m"), ("vl_plotbox", "toolbox/plotop/vl_plotbox.m"), ("vl_printsize", "toolbox/plotop/vl_printsize.m"), ("vl_tightsubplot", "toolbox/plotop/vl_tightsubplot.m"), ("vl_plotsiftdescriptor", "toolbox/sift/vl_plotsiftdescriptor.m"), ("mexFunction", "toolbox/misc/vl_simdctrl.c"), ("mexFunction", "toolbox/misc/vl_threads.c")])

p("C50", "The recognition application encodes images as defined",
  "The functions of apps/recognition do what their documentation says for every combination of options: encodeImage projects, renormalises and extends with their position exactly the features that lie in each spatial cell, encodes them as a bag of words, VLAD or Fisher vector, normalises and stacks the cells, does several images at once like one at a time, and with a cache reads back what it stored and computes only what is missing; trainEncoder learns the (whitened) principal components, the words or the mixture from the sampled features, makes the cells of the layouts and subdivisions asked for, and gives an encoder that encodeImage can use; readImage and getDenseSIFT give images and multi-scale descriptors in the documented range and format; setupGeneric splits every small tree of classes and images into disjoint training, validation and test sets of the sizes asked for.",
  ["inputs", "histories"], "Types, cells, extensions, projections and sets of features; whether the cache holds each chunk; options of training; trees of up to three (four) classes.",
  "No test runs the application.",
  ["apps/recognition"], [("encodeImage", "apps/recognition/encodeImage.m"), ("trainEncoder", "apps/recognition/trainEncoder.m"), ("setupGeneric", "apps/recognition/setupGeneric.m"), ("getDenseSIFT", "apps/recognition/getDenseSIFT.m"), ("extendDescriptorsWithGeometry", "apps/recognition/extendDescriptorsWithGeometry.m"), ("readImage", "apps/recognition/readImage.m")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for d in P: f.write(json.dumps(d) + "\n")
    print(len(P))
