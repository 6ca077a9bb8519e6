import json,re
N={}
def n(i,oracle,out=None): N[i]=dict(oracle=oracle, **({'out':out} if out else {}))
n("C01","A plain multiset and the caller's position map; after each operation the heap is also drained from a copy.")
n("C02","Sortedness plus multiset equality; for shuffles exact counts over one whole period of the small generator states, so that every permutation is shown equally likely.")
n("C03","MT19937 written again from Matsumoto and Nishimura's paper; one private reference state per object.")
n("C04","Complete result built in an unbounded buffer, cut to the size; guard bytes around every buffer.")
n("C05","A parser written from the documentation, run on the same vector; the vector's permutation and termination are checked.","Minor abbreviations of long options (not documented) are accepted either way.")
n("C06","Definitions in wider integers or long double.","vl_svd2 and the solvers are judged for systems whose condition is bounded; exactly singular systems must be reported.")
n("C07","The textbook formula in double, with rounding bounds from the number of terms; buffers end at a guard page so that any over-read crashes.","The all-pairs function with dimension 0 is excluded (its callers intercept it).")
n("C08","Direct double sum over the support.","Sums are compared within a float rounding bound of the number of taps.")
n("C09","Quadratic search, direct sums and finite differences; also infinite pixels.")
n("C10","The thread's own last operation; ownership and count of the lock modelled by one integer. Schedules are enumerated by lib/conc.c: every pthread call of the library is a scheduling point, threads run one at a time.","Preemption bound 2 quick, 3 thorough.")
n("C11","Brute-force assignment, means and energy in double; fixed points compared between Lloyd and Elkan.","Ties may go to any tied center. Energies are compared with a relative tolerance of float sums.")
n("C12","A fresh object given only the settings and the centers.","Fresh memory is filled with three patterns.")
n("C13","Brute-force nearest center and integer-truncated means.","The energy of integer k-means is not required to decrease: truncation of the means can increase it (this was a false alarm of the first version of the check). vl_ikm_init_rand beyond the int range is excluded.")
n("C14","Sorting all distances.","Building one forest twice leaks its first trees; only the answers are judged.")
n("C15","The same query asked alone on a fresh forest and the true distances of the points it returns.")
n("C16","One EM step in double from the same parameters.","Associations below 0.01/K may be neglected in the M step, as the code does on purpose; when a mode is restarted only the invariants are checked; a mode that receives no mass is not judged.")
n("C17","A fresh object given only the settings, the parameters and the data; allocation counts.","Fresh memory is filled with chosen patterns.")
n("C18","The closed form in double.","Associations within rounding of the significance threshold are tolerated either way.")
n("C19","The definition in double.","Norms within rounding of a normalisation threshold are tolerated either way.")
n("C20","The kernel itself and the sampled spectrum in double.","Limited to the tabulated range.")
n("C21","The primal and dual objectives in double, KKT conditions, and the sequence of data the solver asks for.","SGD steps exactly on a kink are skipped; lambda = 0 and changes of lambda or weights in the middle of SDCA are excluded; closeness to the optimum is asked of SGD for Lipschitz losses only.")
n("C22","The loss and its conjugate, maximised on a grid.")
n("C23","Exhaustive search over all merges at every step.","A table with one nonzero value or none is excluded; the parent of a lone positive row is unchecked in the library (its MEX function is judged by C40).")
n("C24","Union of brute-force connected components of all level sets, with the documented stability and filters.","Which of two equally good nested regions is kept, and which pixel of the level stands for a region, are accepted either way; order of ellipsoid components taken from the header.")
n("C25","The documented iteration in double and a flood fill.","Comparisons of float distances within rounding of each other make a pixel's label ambiguous: either label is accepted.")
n("C26","The Parzen estimate and a scan of the window.","Pixels at exactly the maximum distance are judged only in suite `small`; ties between densities are judged from the reported densities.")
n("C27","Direct pooling; uniform patterns generated from their definition.","The order of the bits is that of the diagram in the code, which contradicts one word (anticlockwise) of the documentation.")
n("C28","Sorting the patch and the neighbours.","With tied intensities the order is arbitrary and only invariants are checked; the centre pixel belongs to the patch.")
n("C29","Direct accumulation in double.","Hard-assignment midpoints and ties between channels are skipped; bilinear assignment is compared within 4e-3 because the code uses a fast arc cosine; rendering is checked for locality, range and the bar it should draw.")
n("C30","Direct double Gaussian convolution of the image with the total blur of the level.","Kernels whose three-sigma width is an integer up to rounding are skipped; octaves of zero size are excluded.")
n("C31","Scan of the DoG stack and the solved quadratic in double.","Refinements that move near half a pixel, singular systems and values within rounding of a threshold are accepted either way; zero-trace saddles tolerated; kernels with four sigma an integer skipped.")
n("C32","The documented histograms in double.","Positions between -1.5 and -0.5 are excluded; when more than four peaks pass only their number is checked; the fast exponential may be 0.12 % off; descriptors of norm below 2e-4 are skipped; gradients use the library's fast arctangent and root (C06).")
n("C33","Direct summation for each grid position.","Bounds outside the image and a zero window size are excluded; the keypoint's field s is never set by the library.")
n("C34","Scan of the response, refinement in double and the list semantics.","As C31 for ambiguous refinements; extrema are strict so exact ties give none; features of upsampled octaves may lie up to w-2^first; detecting before an image is put and the list operations that need an image after a reset are excluded; the sign of the DoG is the code's (level s minus s+1).")
n("C35","The image resampled in double, and invariances under translation, rotation and scaling.","Singular and non-finite frames excluded; any octave holding a level of the right smoothing accepted; ambiguous peaks tolerated; Laplacian scales need not be sorted; for blobs the strongest scale must be within 8 %, the ellipse within 6 % of the true shape.")
n("C36","A reader of the format written from its definition.","Raw pixels above the maximum, signs, vertical tabs, zero sizes and comments among the data may be accepted or refused; allocations above 1 MB fail in the harness.")
n("C37","Rodrigues' formula in long double and numerical derivatives.","Near a half turn at distance d the inverse is only accurate to 1e-15/d^2; angles may exceed pi by rounding.")
n("C38","The answer of a team of one; races are judged by vector clocks over the synchronisation operations.","`default(none)` is compiled as shared because gcc 9 and later reject the code otherwise. Preemption bound 2 quick, 3 thorough. A stand-in for the OpenMP runtime gives the scheduler control of every region.")
n("C39","Naive loops. The MEX functions run against lib/mexsim, a stand-in for MATLAB whose arrays have exactly the size asked for, whose errors unwind, and which checks that inputs stay unchanged and that no result beyond those asked for is written.","vl_localmax with P = 0, DIM <= 0, NaN and the imaginary parts of complex arrays are only checked for memory; indexes and values of different shape may be refused.")
n("C40","Brute force for matches and assignments; the tree is replayed merge by merge with the information recomputed; the library with the same random numbers for the k-means functions.","Exact ties (ratio test, closest center or descriptor) are accepted either way; the order of matches is free; malformed parents and trees are only checked for memory and termination; vl_aib without ClusterNull on null tables is only loosely judged.")
n("C41","Naive loops in double (integer arithmetic for integer classes).","Sums are kept within the range of the result's class, as the documentation does not promise more; negative values are not given to the metrics for non-negative vectors; derivatives along an axis with a single sample are not judged.")
n("C42","Counts accumulated one retrieved sample at a time, areas and crossings computed from the counts; the suites are programs in the MATLAB language run by Octave (lib/octave/run.py). The graphics functions are replaced by recorders to see which curve is drawn.","Which of two samples with the same score comes first is free (only the ends of tied blocks are judged); rates with no positive or no negative samples are judged where the code gives them a value.")
n("C43","Definitions written as loops; for cuts the paths from every leaf to the root; for flips the features of the flipped image.","vl_hikmeanshist's documentation leaves the root out of the first bin, its code and comments put it there: the code is taken as right. Strings with characters below the digits may be ordered either way.")
n("C44","A recursive interpreter of argument lists that returns the new options and the list of what is left; a recursive merge with a count of warnings.","Giving a structure to an option whose default is no structure is an error (existing tests rely on it); repeated structures for an option whose default is the empty structure are not judged. Directories are only made in a scratch directory.")
n("C45","Definitions written as loops; published CIE constants; interpolation conditions and finite differences for splines and warps.","Locations on the far edge of an image are judged by C41; Lab and Luv within 0.1 (the code's cut-off constant has a digit missing, which changes L by 0.003); of images with odd sides vl_imdown drops the last row or column; vl_imsc of a constant image must only stay in [0,1].")
n("C46","The C library called directly on the transposed image (the gateways see MATLAB columns as rows of the C image); definitions for frames, region filling and MSER ellipsoids.","Descriptors of a transposed image are compared by their distance; keypoints of the fast dense SIFT mode with a norm below 1 % of the largest are not judged; odd arguments are only checked for memory safety and for a clean error or well formed results.")
n("C47","The C library called directly with the same options and the same state of the random number generator; every gateway is called twice, with memory filled differently, and must give the same results.","A forest whose numbers were altered may be refused or used, but its answers must be points that exist; very long but valid requests (billions of iterations or repetitions) are skipped; odd arguments are only checked for memory safety, termination and for a clean error or well formed results.")
n("C48","The C library called on the same image with the same parameters, written with the same conversions; what is a readable image and how numbers are parsed is decided by the PGM reader and the documented ranges.","mser writes text when asked for the binary format (known finding); the byte order of binary files is that of --read-frames (big endian, the manual page says little endian); the default output of mser may be frames or seeds; a last frame without its angle may end the list; frames that are not finite.")
n("C49","The definitions composed from the functions already judged by the other properties (vl_dsift, vl_imsmooth, vl_quickshift); loops and closed forms for the others; graphics functions are replaced by recorders.","The last row and column of the boundaries of vl_quickvis; vl_imwhiten of even sizes beyond size and identity; UBC descriptors of other lengths than 128 in the format of Lowe; stock images of vl_impattern; the random tie noise of vl_quickseg (differences below 1/2550).")
n("C50","The definition composed feature by feature from vl_vlad, vl_fisher and nearest words, which other properties judge; sample covariances, fixed points of k-means and moments for what is learnt.","imresize, im2single, imread and matlabpool, which Octave lacks or which need files, are stand-ins; features equally near two words; traintest and the set-up of the downloaded data sets (scripts of the experiment); the mixture is only required to have the moments of the samples (3 % and 6 % because vl_gmm drops small posteriors).")
cost={}
import glob
for f in glob.glob('/verif/evidence/C*.json'):
    d=json.load(open(f)); cost[d['property']]=d['wall_s']
for i in N: N[i]['cost']=max(5,round(cost.get(i,0)))
open('/verif/lib/design_notes.json','w').write(json.dumps(N,indent=1,sort_keys=True)+'\n')
