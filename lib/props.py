"""The properties: single source of properties.jsonl, MANIFEST.json and the per-property notes of the evidence files (bin/mkmeta.py)."""
NF = ('static analysis: gated value-numbering / scalar-evolution normal forms over compiler IR, compared with a reference formulation')
NFNOTE = ('Every construct listed in the evidence is summarised for all sizes, flag values and data (no bound, no execution, no path enumeration): the normal form of the code in /repo '
          'must equal that of a plain reference. Trusted: clang -> LLVM IR, the MSVC portability rewrite (bin/mksrc.py), the summariser; floating point is compared over the reals.')
P = []
def prop(id, title, statement, over, text, why, files, mechanism, technique=NF, note=NFNOTE, explain='', assume=(), **anch):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, technique=technique, note=note, explain=explain, assume=list(assume), anch=anch))
MX = 'nntl/interface/math/smatrix.h'
T4 = 'The 4 tests that run build a handful of small matrices with fixed sizes and flags; the statement ranges over '
STD = ['matrix dimensions are at least 1 and element counts fit the 63-bit element counter (the library asserts both)', 'pointers handed in by the caller are not null', 'floating point is treated as real arithmetic']
prop('P01', 'Matrix elements are addressed column-major for every size and orientation',
     'For every matrix, whatever its row and column counts, bias column and batch orientation, the row/column/element counts it reports, the begin/end pointers, the column pointers, the element accessors and the bias-free variants all describe one column-major array: element (r,c) is at offset r + c*rows and counts never wrap at 32 bits. '
     'The number of elements of a strict triangle and the mapping of a linear index to triangle coordinates follow the documented closed forms.',
     ['inputs', 'configurations'], 'all row/column counts, all combinations of the bias, holey-bias and batch-in-row flags, both matrix classes', T4 + 'all sizes, including element counts beyond 32 bits, and all flag combinations.',
     [MX, 'nntl/_defs.h'], 'accessors of smatrix/smatrix_deform (rows, cols, numel*, byte_size*, data, begin, end*, colDataAsVec, bias_column, get, set, size*, batch_size, sample_size, triangle helpers)', assume=STD)
prop('P02', 'Bias bookkeeping: fills and bias writes touch exactly the cells they should',
     'For every matrix on any storage, setting biases writes 1 to exactly the bias cells (last column, or last row when samples are columns), bias-free fills leave the bias cells and their holey mark alone, whole-matrix fills cover every element, and copying biases copies exactly that column. '
     'The holey-bias mark after each operation tells the truth about which operations rewrote the biases, and the content predicates (biases are ones, biases are binary, data is binary, no NaNs) are true exactly when all the cells they talk about satisfy them.',
     ['inputs', 'configurations'], 'all sizes, contents and flag combinations, both matrix classes', T4 + 'all sizes, element values and flag combinations, and about cells that must not be touched.',
     [MX], 'set_biases, fill*, ones, zeros, nans*, fill_*_column/row, copy_biases_from, holey_biases, test_biases_*, _isBinary*, test_noNaNs', assume=STD)
prop('P03', 'Matrix storage is owned once, released once, and sized exactly',
     'A matrix that owns storage allocates exactly the bytes its size (with the bias row or column) needs, releases every block exactly once on destruction, resize, clear, move or when other storage is attached, and never releases storage it was lent; a moved-from matrix is empty and a self-move changes nothing. '
     'When an allocation fails the matrix is left empty, nothing is written through it, the failure is reported, and a later attempt starts afresh.',
     ['inputs', 'histories', 'fault_sequences'], 'all sizes and flags, all operation sequences of the listed kinds, every allocation may fail', T4 + 'every allocation outcome and every hand-over of storage.',
     [MX], 'constructors, _realloc, _free, resize*, useExternalStorage*, useInternalStorage, clear, move construction and assignment', assume=STD)
prop('P04', 'Copying, cloning and comparing matrices is exact',
     'A successful copy or clone gives the destination every element (without the bias cells in the bias-free forms), the size and the flags of the source and nothing else; an incompatible destination that cannot be resized is refused with its contents unchanged. '
     'Two matrices compare equal exactly when size, bias flags, orientation and all bytes agree.',
     ['inputs', 'configurations'], 'all sizes, contents, flags of both sides, owned and lent destinations', T4 + 'all pairs of source and destination sizes and flags.',
     [MX], 'copy_to, clone_to, clone_to_no_bias, copy_data_skip_bias, cloneFrom, operator==', assume=STD)
prop('P05', 'Views and in-place reshaping of a matrix keep storage and flags consistent',
     'Attaching external storage, taking a column sub-view, hiding and restoring the bias column or trailing columns, changing the batch or sample size, shaping a matrix like another one and transposing change only the geometry and flags they name; the data pointer and the other flags stay, hiding followed by restoring is the identity, and newly exposed bias cells are rewritten when the operation promises biases.',
     ['inputs', 'histories', 'configurations'], 'all sizes, flag combinations and view bounds', T4 + 'all view bounds, flag combinations and hide/restore sequences.',
     [MX], 'useExternalStorage*, submatrix_cols_no_bias, deform*, hide_*/restore_*, on_transposition', assume=STD)
prop('P06', 'Element and row/column ranges describe exactly the requested part of a matrix',
     'A range built from a matrix, from bounds, or from a worker\'s share of a job begins and ends exactly there, excludes the bias cells when and only when asked to, reports its length as end minus begin, and its applicability test is true exactly when it lies inside the matrix. '
     'A worker\'s share reports the offset, count, end and worker number it was built with.',
     ['inputs', 'configurations'], 'all sizes, bounds, offsets and flag combinations', 'No test builds a range; the statement ranges over all bounds and flags.',
     [MX, 'nntl/interface/threads/parallel_range.h'], 'st_range, s_elems_range, s_vec_range, s_rowcol_range, parallel_range, _universal_range_BiR_aware', assume=STD)
prop('P07', 'Elementwise kernels compute their formula on exactly the operand elements',
     'Each elementwise numeric kernel leaves in its destination exactly the documented function of the corresponding source elements, reads and writes no other element (in particular no bias cell it is not meant to touch), and its single-threaded, multi-threaded and automatically dispatching forms agree for every size.',
     ['inputs', 'configurations', 'schedules'], 'all matrix sizes and contents, every dispatch threshold, any worker given any part of the range', 'No kernel test can be built here; results must hold for all sizes on both sides of each dispatch threshold.',
     ['nntl/interface/math/mathn.h', 'nntl/interface/math/smath.h'], 'the evXX/ewXX/vXX kernels and their _st/_mt forms', assume=STD + ['the worker pool runs each job part once (decided separately)'])
prop('P08', 'Row-wise and whole-matrix reductions combine exactly the elements of their row',
     'Each reduction or broadcast kernel (sums, sums of squares, products, maxima, row-wise multiply and divide by a vector) combines exactly the elements of its row, column or matrix, once each (the index of a row\'s maximum is the first column that holds it), and its row-wise, column-wise, single- and multi-threaded and dispatching forms agree for every size.',
     ['inputs', 'configurations', 'schedules'], 'all matrix sizes and contents, every dispatch threshold', 'No kernel test can be built here; results must hold for all sizes.',
     ['nntl/interface/math/smath.h'], 'ewSum*, mrw* kernels', assume=STD)
prop('P09', 'Classification metrics and data normalisation compute what they report',
     'The confusion matrix counts every sample exactly once under its predicted and true class, derives accuracy, precision, recall, F1, Matthews correlation, informedness, markedness and the other scores by their textbook definitions without intermediate overflow, and starts from zero after a reset. '
     'Data normalisation takes the mean and the (optionally unbiased) standard deviation of exactly the non-bias elements of all batches (or of each column), changes data only when a statistic is finite, out of tolerance, requested and (for scale) non-degenerate, stops as soon as nothing needs changing or the try limit is reached, reports success exactly when it converged within the limit, stops with failure on invalid statistics when asked to, and composes and applies scale-then-offset transforms so that the recorded transform equals what was applied. Normalising a training data set does nothing when nothing is asked for, takes its statistics from the training inputs only (at most the requested number of batches), initialises the data when needed and undoes exactly that afterwards, applies each pass with scale = target scale / scale and offset = (target centre - centre) * scale to the training inputs, then the recorded total transform to the inputs of every other set, and reports failure when the data cannot be initialised, the statistics phase fails or no usable statistic was recorded.',
     ['inputs', 'configurations', 'histories'], 'all counts, batches, statistics values (including non-finite ones), settings; the iteration control for try limits 0, 1 and 2 (1 and 2 columns in the column-wise form)', 'No test computes a metric or normalises data.',
     ['nntl/utils/confusion_mtx.h', 'nntl/utils/mtx2Normal.h', 'nntl/train_data/_td_norm.h', 'nntl/train_data/_td_base.h'], 'ConfusionMtx, mtx2Normal::Settings/ScaleCentralData/upd_mtx_scale_central/_FNorm_stats_var_mean/normalize_whole/normalize_cw', assume=STD + ['class counts stay below 2^31 (the counters are int)'])
prop('P10', 'Epoch schedules, layer lists and ownership helpers follow their specification',
     'An epoch condition vector answers true exactly for the epochs it was given (every n-th, the listed ones, first and last, before/after a bound); a black/white list lets a layer through exactly when its lists say so; per-layer settings return the layer\'s own record when it was set, otherwise the current default; the layer index keeper answers for the innermost layer being processed, at any nesting depth; an own-or-use pointer deletes exactly what it owns, exactly once.',
     ['inputs', 'histories', 'configurations'], 'all epoch counts, layer indices, list contents and construction/assignment sequences of the listed kinds', 'No test touches these helpers.',
     ['nntl/utils/vector_conditions.h', 'nntl/utils/bwlist.h', 'nntl/utils/layers_settings.h', 'nntl/utils/layer_idx_keeper.h', 'nntl/utils/own_or_use_ptr.h'], 'vector_conditions, bwlist, layer_settings, layer_idx_keeper, own_or_use_ptr', assume=['std containers behave as specified (they are modelled by plain arrays)'])
ACTF = ['nntl/activations/%s.h' % x for x in ('_i_activation', 'relu_family', 'sigm', 'elu', 'elogu', 'loglogu', 'logu', 'selu', 'softmax', 'softsigm', 'softsign', 'step', 'identity')]
prop('P11', 'Activation functions and their derivatives match their formulas everywhere',
     'Every activation replaces each pre-activation of the layer by its documented function of it (sigmoid, ReLU, leaky ReLU, ELU, ELogU, LogLogU, LogU, softsign, softsigm, SELU, step, identity, with the alpha, leak, scale and logarithm-base parameters of its type) and leaves the bias column alone; '
     'its derivative replaces each activation value by the derivative of the function expressed through that value, so that backpropagation follows the function that was applied. The specialised variants (unit alpha, natural base), the single-threaded, multi-threaded and dispatching forms agree for every size and every element, on both sides of zero, '
     'the activation types hand their own parameters to the right kernel, and a type declares itself zero-stable exactly when f(0)=0.',
     ['inputs', 'configurations', 'schedules'], 'all matrix sizes and contents, all parameter values of the kernels, every dispatch threshold, any worker given any part of the range', 'No test of an activation can be built here; the formulas must hold for every value and size, including the kinks at zero.',
     ACTF + ['nntl/interface/math/mathn.h'], 'activation kernels of MathN (sigm ... step and d-variants, _st/_mt) and the activation classes', assume=STD + ['the worker pool runs each job part once'])
prop('P12', 'Loss values and output-layer gradients match the declared loss function',
     'Each loss (quadratic, cross-entropy, softmax cross-entropy, user-supplied weighted losses) is the sum of its per-element formula over exactly the elements of the predictions and targets with the documented factor, and the gradient dL/dZ written over the predictions is the derivative of that same loss composed with the output activation, element by element; '
     'clamping of logarithms near zero only affects values at zero. The numerically-stable, single- and multi-threaded and dispatching forms agree, and every loss class uses the kernel and parameters of its own loss.',
     ['inputs', 'configurations', 'schedules'], 'all matrix sizes, predictions and targets, every dispatch threshold', 'No loss is computed by any runnable test.',
     ['nntl/activations/_loss_parts.h', 'nntl/activations/sigm.h', 'nntl/activations/softsigm.h', 'nntl/activations/softmax.h', 'nntl/activations/identity.h', 'nntl/interface/math/mathn.h'], 'loss_* and d*Loss_dZ kernels, compute_loss/dLoss_dZ, loss classes', assume=STD + ['compensated (Kahan) summation is summation over the reals'])
prop('P13', 'Optimizer steps apply their update rule once to every weight',
     'RMSProp (Hinton and Graves), RProp, ModProp, Adam, AdaMax and RNadam turn the gradient of every weight into exactly the step their published update rule gives for the learning rate, momentum, emergency decay and numerical-stabiliser parameters, and advance their running moments, powers of beta and counters exactly once per step. '
     'The single-threaded, multi-threaded and dispatching forms give the same steps and the same optimizer state for every size.',
     ['inputs', 'histories', 'configurations', 'schedules'], 'all matrix sizes, gradients, optimizer states (hence every step of every history) and parameters, every dispatch threshold', 'No runnable test performs a training step.',
     ['nntl/interface/math/mathn.h', 'nntl/grad_works/grad_works.h'], 'RMSProp_Hinton, RMSProp_Graves, RProp, ModProp, Adam, AdaMax, RNadam kernels', assume=STD + ['the worker pool runs each job part once'])
prop('P14', 'Weight initialisation draws every weight from the documented distribution',
     'Xavier (2 and 4), He/Zhang, SNN, orthogonal and Martens sparse initialisation fill exactly the weight matrix of the layer with samples whose range or standard deviation is the documented function of the fan-in, fan-out and the scaling coefficient of the scheme, leave the bias weights at the documented value, and report failure instead of handing out a half-initialised matrix; '
     'Martens initialisation picks the documented number of distinct incoming connections per neuron. The normal-distribution helper combines its uniform samples exactly by its formula, and the SNN constants follow from the fixed-point equations for every mean and variance.',
     ['inputs', 'configurations', 'fault_sequences'], 'all matrix sizes and scheme parameters, any random generator, allocation and factorisation failures', 'No runnable test initialises a weight; the ranges must be right for every fan-in and fan-out.',
     ['nntl/weights_init.h', 'nntl/weights_init/static.h', 'nntl/_SNN_common.h', 'nntl/interface/rng/distr_normal_naive.h'], 'weights_init::Xavier, He_Zhang, SNN_Init, OrthoInit, Martens_SI_sigm; distr_normal_naive; SNN_td', assume=STD + ['the random generator and the SVD routine meet their interface (they are opaque)'])
prop('P15', 'Matrix products, transposition and the BLAS binding hand over the right operands',
     'Matrix products (plain, transposed, scaled), the products of a layer (its output from its input and weights, the gradient passed down, the weight gradient), the column covariance and transposition give the textbook result for every size, with the bias column taken part or left out as the operation documents; '
     'the BLAS/LAPACK binding calls the routine of the right precision with the caller\'s dimensions, leading dimensions, scalars and operands in the right places in column-major order, and restores the floating-point mode afterwards.',
     ['inputs', 'configurations'], 'all matrix sizes, contents and flags, float and double', 'No runnable test multiplies matrices; a swapped dimension shows only for non-square operands.',
     ['nntl/interface/math/mathn.h', 'nntl/interface/math/bindings/b_open_blas.h', 'nntl/math.h'], 'mMul*, mScaledMulAtB_C, mColumnsCov, mTranspose*, b_OpenBLAS::*, _scoped_restore_FPU', assume=STD + ['the BLAS routines meet their specification (a direct formulation stands in for them)'])
prop('P16', 'Every error code has its own text; the last error reported is the last one set',
     'Each error code of the network, the binary-file reader and the JSON reader maps to its own documented message (never to the message of another code and never to the unknown-error text), success is the zero code, and an object that recorded an error returns exactly that code and text until another is recorded.',
     ['inputs', 'histories'], 'all error codes of the three enumerations', 'No test raises an error; a wrong mapping is silent.',
     ['nntl/errors.h', 'nntl/_nnet_errs.h', 'nntl/_supp/io/_binfile_errs.h', 'nntl/_supp/io/_jsonreader_errs.h'], 'ErrorCode enumerations, get_error_str, _has_last_error', technique='static analysis: constant propagation through get_error_str for every enumerator (compiler IR), one obligation per code', assume=[])
prop('P17', 'Scalar maths helpers and gradient-check settings compute their documented values',
     'The scalar helpers (log1p, expm1, the epsilon-protected logarithms, sign, the distance to the neighbouring floating-point number in both directions, the bit patterns of one and of the signed zeros) equal their mathematical definition for every argument; '
     'the number of parameters a gradient check examines is the larger of the requested minimum (bounded by the group size) and the requested percentage of the group, for every group size without overflow.',
     ['inputs', 'configurations'], 'all arguments, group sizes and percentages, float and double', 'No test evaluates these helpers.',
     ['nntl/interface/math/_base.h', 'nntl/utils/gradcheck.h'], 'math::log1p/expm1/log_eps/log1p_eps/sign, real_t_limits, similar_FWI_*, gradcheck_groupSetts', assume=['floating point is treated as real arithmetic', 'std::nextafter is opaque'])
prop('P18', 'Stored functors are called as given and tuples are visited completely in order',
     'A functor stored in the allocation-free function holders is called with exactly the arguments given and its result and effects come back, after any sequence of construction, copy, assignment, swap and reset; an empty or reset holder says so; a functor too big to be stored is called by reference to the caller\'s own object. '
     'Tuple visitation calls the visitor exactly once per element (or per neighbouring pair) in the documented order, sub-tuples and tuple traits describe the documented elements.',
     ['inputs', 'histories', 'configurations'], 'all argument values, the listed sequences of holder operations, tuples of the listed shapes', 'No test stores a functor or visits a tuple.',
     ['nntl/utils/forwarder.h', 'nntl/utils/call_wrappers.h', 'nntl/utils/tuple_utils.h', 'nntl/utils/lambdas.h'], 'forwarder, cmcforwarder, forwarderWrapper, tuple_utils::*, make_y_combinator', assume=['functors are trivially copyable where the holder requires it'])
prop('P19', 'One training step updates weights by the configured rule, once, in order',
     'For every configuration of the weight updater (optimizer, momentum or Nesterov momentum, individual learning rates, learning-rate dropout, max-norm with and without biases, L1/L2/DeCov loss addendums) one step applies to the weights exactly the composition of the configured parts in the documented order: the addendum gradients are added to the loss gradient, the gradient is turned into a step by the configured optimizer, momentum velocities are advanced once, the weights move by exactly that step and are then normalised; parts that are switched off change nothing. '
     'Initialisation allocates exactly the per-weight state the configuration needs, starts it at its documented value, reports failure, and de-initialisation releases it; settings given out of range are replaced by the documented values.',
     ['inputs', 'histories', 'configurations', 'fault_sequences'], 'all weight-matrix sizes, gradients, optimizer states and settings, every optimizer kind, allocation failures during initialisation', 'No runnable test trains a network; a wrong composition only degrades convergence.',
     ['nntl/grad_works/grad_works.h', 'nntl/grad_works/ILR.h', 'nntl/grad_works/ILR_Props.h', 'nntl/grad_works/loss_addendums.h', 'nntl/loss_addendum/L1.h', 'nntl/loss_addendum/L2.h', 'nntl/loss_addendum/DeCov.h'], 'grad_works apply_grad, pre_training_fprop, gw_init, gw_deinit and setters; mixins; loss addendums', assume=STD + ['the mathematical kernels called by the step meet P07-P13 (a direct formulation stands in for them)'])
prop('P20', 'Training data: epochs, batches, walks and storage lose or repeat no sample',
     'For every in-memory data set (samples in rows or in columns, any set sizes and widths) and every transformed data set: initialisation for training or inference limits the batch sizes to what the sets hold, refuses a training batch larger than the largest forward batch, allocates batch buffers that hold the largest batch in the orientation and bias layout of the data, and leaves nothing initialised when it fails. '
     'A training epoch shuffles the sample order once, consists of floor(samples/batch size) batches and batch k holds exactly the samples at positions k*b..k*b+b-1 of the shuffled order, inputs and targets alike; full-batch training uses the data in place. A walk over a set is divided into ceil(samples/batch size) parts, part k holds samples k*b..min((k+1)*b,n)-1 in order, so every sample is seen exactly once; parts asked to leave out inputs or targets leave the others intact. '
     'Absorbing, replacing targets, extracting, moving and clearing accept exactly coherent owned matrices (equal sample counts within a set, equal widths and orientation between sets, biases on inputs only), move each matrix to its own place, free what is replaced, and change nothing when refused. The batch holder hands out consecutive shuffled samples and shuffles again only when less than a batch is left. The shared mode and batch-size record reports a change exactly when mode or size changed and returns to its cleared state on de-initialisation; the pair of training and inference batch sizes compares, scales, is assigned and selects by mode as documented.',
     ['inputs', 'histories', 'configurations', 'fault_sequences'], 'all set sizes, widths, orientations, batch sizes, batch indices, modes, and allocation failures of the batch buffers', 'No runnable test uses training data; a sample dropped at a size boundary only shows at particular set and batch sizes.',
     ['nntl/train_data/_train_data_simple.h', 'nntl/train_data/_td_base.h', 'nntl/train_data/_i_train_data.h', 'nntl/train_data/inmem_train_data.h', 'nntl/train_data/inmem_train_data_stor.h', 'nntl/train_data/transf_train_data.h', 'nntl/utils/dataHolder.h', 'nntl/common_nn_data.h', 'nntl/common.h'], 'init4train, init4inference, on_next_epoch, on_next_batch, walk_over_set, next_subset; absorb, replace_Y, extract, clear; dataHolder; common_nn_data', assume=STD + ['extraction of samples by index and shuffling are opaque effects identified by their operands here; extraction itself is decided by P21', 'std::vector does not run out of memory'])
prop('P21', 'Sample extraction, row norms and column kernels act on exactly their cells',
     'Picking samples by index or by a contiguous range (samples in rows or in columns, with or without biases), picking or filling by a mask, and copying a column to all columns give the destination exactly the selected source elements in order and touch nothing else. '
     'Row norms, clipping or setting row norms (with the bias weight scaled but not counted when asked to), softmax numerators and denominators, row sums in place, column means, subtracting the column mean (of all or of only the non-central elements), subtracting a vector from or multiplying a diagonal into the columns equal their textbook definition for every row and column count. Single-threaded, multi-threaded and dispatching forms agree, whatever way the range is shared among workers.',
     ['inputs', 'configurations', 'schedules'], 'all matrix sizes and contents, all index vectors, every dispatch threshold, every division of the range among workers', 'No kernel test can be built here; results must hold for all sizes and all divisions of work.',
     ['nntl/interface/math/mathn.h', 'nntl/interface/math/smath.h'], 'mExtractRows*, mExtractCols*, mExtractBatches, masks, mrwL2NormSquared, mCheck_normalize_rows, mrwSetL2Norm, softmax_parts, mrwSum_ip, mcwMean, mcwDeMean, mcwDeMeanNZ, mcwSub_ip, mcwMulDiag_ip, mCloneCol', assume=STD + ['index vectors point into the source'])
prop('P22', 'The k best values per column and their origin survive any number of batches',
     'Searching the k biggest or smallest (optionally distinct) values of each column offers every value of a batch once: a value enters the list exactly when it beats the worst one kept (and, for distinct orders, is not there yet), takes the place its rank demands, pushes out the worst, and is recorded with its row; a new search starts from an empty list, a continued one keeps what earlier batches left. '
     'Helper storage for k entries is big enough, laid out without overlap and recovers k from its size. Collecting the results of successive batches keeps, for every entry of the list, the batch and row it came from (also when values repeat or the list is not full), exports values best first, and visits exactly the entries of a given batch.',
     ['inputs', 'histories', 'configurations', 'schedules'], 'all columns, values and row indices; list lengths 1 and 2 with up to two (length 1: three) values per step; collecting for lengths 1 to 3 and any number of columns for the first batch', 'No runnable test searches for extreme values; repeated values and a list that is not full show up only in later batches.',
     ['nntl/interface/math/_mcwFindKOrdered_hlpr.h', 'nntl/interface/math/mathn.h'], 'mcwFindKOrdered and its four orders, mcwFindKOrdered_hlpr_base, mcwFindKOrdered_hlpr::is_hlprmtx_ok, Aggregator', assume=STD,
     note=NFNOTE + ' The step of the search is decided for the listed list lengths (the insertion position loop is unrolled), collecting for lengths 1 to 3.')
prop('P23', 'Gradient checks move one value by the step, restore it and read one gradient',
     'The gradient-check inspector changes nothing unless the layer being run is the one being checked: in a numeric phase exactly one weight (the checked coordinate) is moved by plus or minus the step before the preactivations are computed and put back to exactly its old value right after, or exactly one activation is moved, once, in the outermost call of that layer. '
     'The analytical gradient and the real batch size are read only in the analytical phase (batch size: also while moving a value), from the checked coordinate and the outermost call; a layer that may legitimately not run reports a zero gradient and batch size 1; every phase starts from no result. The stack of layers follows begin/end of forward and backward passes, the wrapped inspector is told everything exactly once, and the number of values to check follows the settings and never exceeds what there is.',
     ['inputs', 'histories', 'configurations'], 'every layer id, phase, parameter group, coordinate, matrix size, step and stack content', 'The inspector is never run by the tests; a value that is not restored silently corrupts later training.',
     ['nntl/interface/inspectors/gradcheck.h', 'nntl/utils/gradcheck.h'], 'GradCheck: gc_* control, fprop_/bprop_ hooks; gradcheck_groupSetts', assume=STD,
     note=NFNOTE + ' The inspector that is wrapped is a stand-in that records calls.')
prop('P24', 'Layers run forward and backward on the right data, in order, and size themselves',
     'Forward: a fully connected or output layer lets the optimizer prepare the weights (training only), multiplies the activations below with the weights, applies its activation function unless that is switched off, and leaves its own bias column alone; an identity layer copies the activations below without biases, a gate then makes them binary; the input layer exposes the batch it was given. '
     'Backward: dL/dZ is the activation derivative times dL/dA (output layer: from the loss, clamped when restricted), dL/dA for the layer below is computed from the weights before they are updated and only if that layer backpropagates, and dL/dW = (1/batch) dL/dZ\' x activations goes to the optimizer only when the layer updates its weights; the identity layer passes dL/dA through and says so (returns 0). The inspector is told each step, in order. '
     'Initialisation asks for exactly the memory, scratch and parameter counts the layer uses, takes activations from the caller or allocates them, and undoes everything when a step fails; weights given by the user are taken only when their size and layout fit; a batch size change keeps the storage, restores biases and invalidates old activations.',
     ['inputs', 'configurations'], 'every matrix size, batch layout, flag combination and value; opaque math, activation, loss and optimizer steps', 'The tests never build a layer; a wrong order of weight update and error propagation or a wrong scale trains, but wrongly.',
     ['nntl/layer/fully_connected.h', 'nntl/layer/output.h', 'nntl/layer/input.h', 'nntl/layer/identity.h', 'nntl/layer/_activation_storage.h', 'nntl/layer/_activation_wrapper.h', 'nntl/layer/_layer_base.h'], '_FC, _LFC, _layer_output, _layer_input, _LI, _LIG, _act_stor: fprop, bprop, layer_init, on_batch_size_change, set_weights', assume=STD,
     note=NFNOTE + ' Math operations, activation functions, losses, gradient works and inspector are opaque recorded steps (their own behaviour is P04-P13, P19).')
prop('P25', 'A layer stack initialises, runs and reports every layer once, in the right order',
     'Building a stack numbers the layers from 0 and tells each the neuron count of the one below. Initialisation goes upwards, each layer getting the batch sizes the one below produces, stops at the first failure and names that layer, and gathers the memory (maximum), parameter count (sum) and flags (or) of all layers. Deinitialisation, memory hand-out and batch size changes reach every layer once, upwards, the new batch size being what the layer below returns. Forward runs input to output; backward runs output to the first layer that stops backpropagation, passing errors through two buffers that are resized for the layer below and swapped only when the layer says so. '
     'The loss addendum is the sum over layers, cached until reset. Walks over the stack visit every layer (packed layers before their pack, upwards; reversed downwards); helpers set learning rate or momentum only on layers that learn. The data shared by layers (mode, batch sizes) changes only as asked, and what a compound layer aggregates from inner layers is maximum, sum or "or" as documented.',
     ['inputs', 'configurations'], 'every number of neurons, batch size, layer answer and error code, for stacks of 3 and 4 layers with packs and layers that stop backpropagation', 'No test builds a stack; a wrong order or buffer silently trains on the wrong error.',
     ['nntl/layers.h', 'nntl/layer/_init_layers.h', 'nntl/layer/_tuple_utils.h', 'nntl/layer/_layer_base.h', 'nntl/common_nn_data.h'], 'layers<>, _preinit_layers, _layer_init_data, layers_mem_requirements, common_nn_data, hlpr_*', assume=STD,
     note=NFNOTE + ' The layers in the stack are stand-ins that record what they are asked to do and give opaque answers.')
prop('P26', 'Layer packs pass data, memory and errors through to the layers inside them',
     'A vertical pack acts as its layers one after another: indexes, neuron counts, batch sizes, initialisation (a failing layer undoes the ones before it), memory, batch size changes and the forward pass go upwards and share the topmost activations; backward goes downwards, the two gradient buffers swap at every layer, and the caller is told which buffer holds the result. '
     'A horizontal pack hands each inner layer its own column range of the activations below (the column overwritten by the bias is saved and restored), places outputs side by side, and backward feeds every layer its part of dL/dA and adds the results into the columns it came from. '
     'A tiled layer sees every tile as extra samples: its input, output, gradients and batch sizes are rearranged accordingly. A gated pack lets each inner layer work only on the samples its gate neuron opens (outputs and errors of the other samples are zero), and stacks gate, optional complement and outputs side by side. Packs ask for the memory all their layers need, sum loss addendums and visit each inner layer once.',
     ['inputs', 'configurations'], 'every number of neurons, tiles and samples, layer answer and error code, for packs of 2 and 3 inner layers (gated packs: a gate and two layers) that do or do not need the layer below to learn', 'No test builds a pack; a wrong column offset, buffer or order corrupts training without any error.',
     ['nntl/layer/pack_vertical.h', 'nntl/layer/_lph_base.h', 'nntl/layer/pack_horizontal.h', 'nntl/layer/pack_horizontal_optional.h', 'nntl/layer/pack_tile.h', 'nntl/layer/_pack_.h', 'nntl/layer/_tuple_utils.h'], '_LPV, LPV, _LPH_base, LPH, _LPHO, _LPT, LPT, partial layer wrappers: preinit, layer_init, layer_deinit, initMem, on_batch_size_change, fprop, bprop, lossAddendum, for_each_*', assume=STD,
     note=NFNOTE + ' The layers inside a pack are stand-ins that record what they are asked to do and give opaque answers; rearranging tiles (P27) and picking samples (P21) are opaque here. A gate that itself backpropagates an error (none is shipped) is not decided.')
prop('P27', 'Tiles become extra samples and back without losing or moving a value',
     'Rolling a matrix of K tiles of N columns (r samples) into K*r samples of N columns puts value (i, t*N+j) at (t*r+i, j); unrolling is its exact inverse. '
     'Both leave bias columns alone and give the same result for every implementation (sequential reading or writing, one or several workers, any part of the columns) and threshold.',
     ['inputs', 'configurations', 'schedules'], 'every number of samples and all contents, for 2 or 3 tiles of 1 to 4 columns; one and two workers; several column parts', 'A tile that lands in the wrong place trains on shuffled data; the kernels switch implementation by size.',
     ['nntl/interface/math/smath.h'], '_SMath: mTilingRoll*, mTilingUnroll*', assume=STD + ['the matrix rolled out has K times the samples of the other one'],
     note=NFNOTE + ' The loops wrap a pointer at the last tile; they are evaluated iteration by iteration for the listed tile and column counts, with the number of samples symbolic.')
prop('P28', 'Training, loss reports and initialisation follow their order of steps',
     'train() refuses data that do not fit the network before touching anything; otherwise it initialises (or only refreshes what is large enough already), reports the losses of both sets, and then runs exactly the requested epochs: every batch is announced, '
     'propagated forward and back once, in order, in the training mode with the training batch size. Losses are evaluated in the inference mode over every batch of a set, normalised by the batch size, the extra loss terms added once, the network is put back into the training mode, and '
     'reports happen exactly at the epochs asked for or checked for divergence; a loss that is not below the threshold (NaN included) in a checked epoch ends training with NNDiverged, the callback may stop it, and every exit leaves through the same clean-up (observer released, the network deinitialised if asked). '
     'Layers hear of every change of mode or batch size and only of changes; a failed initialisation leaves the network deinitialised, reports the error and the failed layer; temporary memory is sized as the layers required and shared out without overlap; fprop and fixed-batch fprop initialise and switch modes as needed and remember the last error.',
     ['inputs', 'configurations', 'faults', 'histories'], 'every number of epochs and batches, batch size, option, initial state, answer of the layers, data set, observer, callbacks and failing initialisation', 'This is the loop every user runs; a batch trained in the inference mode or a loss over part of the data goes unnoticed.',
     ['nntl/nnet.h', 'nntl/common_nn_data.h'], 'nnet: train, _init*, _full_init, calcLoss*, _report_training_progress, fprop, init4fixedBatchFprop, deinit', assume=STD + ['layers, data set, observer, inspector, math and rng answer as asked, and their answers do not change within a call'],
     note=NFNOTE + ' Layers, data set, observer, inspector and callbacks are stand-ins that record what they are asked and give opaque answers. Thread priorities (bPrioritizeThreads), the value of the last error after a training loop left early, and elapsed times are not decided.')
prop('P29', 'The gradient check compares what it claims and leaves the network as it was',
     'gradcheck() evaluates the loss twice on one batch, with the inspector perturbing the chosen entry down and then up, takes their difference over twice the step (dL/dW also over the real batch size) and compares it with the gradient the network then computes for the very same batch, in the same training mode, with the same seed if a forced seed is asked for. '
     'A relative error above the failure threshold, or one that is not a number, fails; between the two thresholds it only warns; two zeros fail only once more than the allowed percentage was seen (except for the first layer if so asked). '
     'First every layer but the output one is checked for dL/dA in the online batch size, then every learnable layer for dL/dW (the chosen number of neurons times the chosen number of incoming weights, then the biases) in the given batch size; inner layers of packs before the pack, layers asked to be ignored are skipped; nothing more is checked after the first failure, which is never forgotten and is reported with its layer. '
     'Learning is blocked and the full loss used meanwhile; afterwards the inspector is released and mode, batch size and loss flavour are as before. Sub-batches are drawn only into storage that was allocated for them.',
     ['inputs', 'configurations', 'faults'], 'every settings object, layer answer, loss value (NaN included), batch size and number of neurons', 'A gradient check that accepts a wrong gradient, or leaves the network in another mode, makes every layer built with it untrustworthy.',
     ['nntl/nnet.h', 'nntl/interface/inspectors/gradcheck.h'], 'nnet::GradCheckFunctor: _checkErr, _calcLossF, _checkWeight, _checkdLdA, _checkdLdW, operator(), _launchCheck, performCheck; utils::dataHolder', assume=STD + ['layers, data set, math and rng answer as asked, and their answers do not change within a call'],
     note=NFNOTE + ' Layers, inspector, math and random generator are stand-ins that record what they are asked and give opaque answers. The gradient check inspector itself is P23. What is printed is not decided.')
prop('P30', 'Reported accuracy counts each sample once, against its own label; options hold',
     'The evaluators cache the labels of the train and test sets batch by batch, every batch where the previous one ended, and compare the predictions of each batch with the labels of that very batch (from the start again for every report); other sets are compared with the labels they come with. '
     'Predictions and labels are turned into classes in the same way (same threshold, or the index of the biggest value); the one-hot evaluator counts samples, the binary one elements. Storage fits all cached labels and the biggest batch; data sets too big to cache or out of memory mean init() fails and, for memory, nothing is kept. '
     'The observer sums elements and correct answers of the data set being reported only, restarts both at every report, and prints epoch, seconds, losses, numbers of wrong answers and their percentages of the set they belong to; it remembers the last losses. '
     'Training options return what was set, setting one never changes another, and the defaults are as documented.',
     ['inputs', 'configurations', 'histories', 'faults'], 'every data set, batch partition, batch and set size, threshold, option value and failing allocation', 'The error rate is what users judge a network by; a batch compared with the labels of another one still prints a plausible number.',
     ['nntl/nnet_evaluator.h', 'nntl/training_observer.h', 'nntl/nnet_train_opts.h'], 'eval_classification_binary_cached, eval_classification_one_hot_cached, training_observer_stdcout, training_observer_simple_stdcout, nnet_train_opts', assume=STD + ['training data and maths answer as asked', 'option values are among the valid ones (others stop the program)', 'std::vector has memory'],
     note=NFNOTE + ' Training data, maths and (for the observers) the evaluator are stand-ins that record what they are asked; the maths is P09. The wording of the printed text, and the report on supplementary data sets, are not decided.')
prop('P31', 'Dropout and activation penalties extend a layer without disturbing it',
     'While training, dropout saves the real activations, draws one mask element per activation (never the biases) and applies it with the current keep probability; otherwise activations are left alone. Before back propagation dL/dA is multiplied by that very mask and the saved activations are put back. A probability of zero or outside (0,1] means no dropout. The AlphaDropout coefficients keep mean and variance for the layer\'s fixed point. '
     'The mask and the saved activations always have the batch size the layer has; no memory is taken when no training is possible. '
     'Activation penalties see the activations without the bias column, which is visible again afterwards; each enabled one adds its loss and its derivative, disabled ones nothing; those that work on the forward pass are called then. '
     'An extended layer first runs the base layer, then the penalties, then dropout; backwards dropout is undone first, then the penalties are added, then the base layer runs with that dL/dA. Penalties skip the gate columns of a gated pack (in activations and dL/dA alike). Its loss is that of the penalties plus that of the base layer, which says it has one if either does. '
     'Initialisation that fails anywhere is undone once, completely, and reports its own error; on success the network is told that outputs differ during training (dropout) and that the loss depends on activations (penalties). What the base layer returns is returned.',
     ['inputs', 'configurations', 'faults'], 'every matrix size, probability, mode, batch size, set of penalties and failing allocation', 'Dropout not undone by the same mask, or a penalty reading the bias column, silently trains with a wrong gradient.',
     ['nntl/dropout/dropout.h', 'nntl/dropout/alpha_dropout.h', 'nntl/layer/_penalized_activations_base.h', 'nntl/layer/extender.h'], 'Dropout, AlphaDropout, _impl::SNN_td, _PA_base, _LEx (LPA, LDO, LPA_DO)', assume=STD + ['base layer, penalties, maths and random generator answer as asked, and their answers do not change within a call', 'the keep probability does not become less than one between two batch size changes'],
     note=NFNOTE + ' The base layer, three penalties, maths, random generator and inspector are stand-ins that record what they are asked; the maths of dropout is P07, of the penalties P19. That the coefficients keep mean and variance is stated as the closed formulas of the SNN article.')
prop('P32', 'Data-driven weight initialisation adjusts every learnable layer until it fits',
     'LSUVExt::run() visits every layer except the input one, layers inside a pack before the pack, and processes each learnable one with the settings of its own index; a train set of less than two samples is refused untouched. It returns true exactly if all succeeded, and remembers the first layer that did not; the data is released once at the end. '
     'A layer is prepared for its batch size (the whole train set if none, never more than that), gathers the statistics of its own activations (of preactivations if so asked, and activations are switched on again in every case), on the whole matrix or per neuron, and on failure its weights are reinitialised, at most the given number of tries, never after the last one. '
     'Each pass walks the train set\'s x only, batch by batch, as many as asked but no more than there are, running the network forward on each. '
     'Normalising multiplies all the weights of the neuron (or of the layer), bias included, by target over measured scale, and moves the bias by what brings the central value to the target after that scaling; nothing that was not asked for is changed, nor the weights of another neuron.',
     ['inputs', 'configurations', 'histories'], 'every settings object, layer shape, measured statistic, sequence of successes and failures and train set size', 'An initialisation that rescales the wrong row or leaves activations off trains, only much worse, and nothing reports it.',
     ['nntl/weights_init/LsuvExt.h'], 'weights_init::procedural::LSUVExt: run, operator(), _processLayer, prepareToBatchSize, _WeightsNormBase, WeightsNorm_whole, WeightsNorm_cw; WeightNormSetts', assume=STD + ['network and data set answer as asked', 'the network can be initialised for the batch size (otherwise the program stops)', 'a layer\'s pack visits its layers as P26 says'],
     note=NFNOTE + ' Network, layers, data set and settings keeper (P10) are stand-ins that record what they are asked; the statistics and the repetition until the tolerance is met are P09. Custom initialisers (LSUVExt_customInit) and printed text are not decided.')
prop('P33', 'Random vectors and matrices hold one draw per element, from the asked range',
     'Filling a vector draws exactly one number of the generator per element, in order, and writes nothing else: uniform in [-a,a], in [neg,pos], in [0,1] or in [0,a]; Bernoulli gives the positive value exactly if the draw is less than the probability; normal gives the distribution with the requested mean and standard deviation. '
     'Matrix functions fill the whole matrix, or all but the bias column; a bias row is put back; binary ones use the values one and zero. '
     'The multithreaded generator gives the same on long vectors: every worker fills its own part, only that, and only from its own generator; short ones use the first generator, as single draws do. Seeding gives every worker\'s generator the seed together with its worker number, so equal seeds repeat and workers differ; reseed() repeats the last seed. '
     'gen_i(n) draws from 0..n-1; 64 bit seeds are folded into 32 bits by exclusive or.',
     ['inputs', 'schedules'], 'every length, range, probability, generator state and partition of the work among workers', 'Weights, dropout masks and shuffles all come from here; a wrong deviation or a shared generator spoils training or repeatability without any error.',
     ['nntl/interface/_i_rng.h', 'nntl/interface/rng/afrand.h', 'nntl/interface/rng/afrand_mt.h', 'nntl/interface/rng/cstd.h'], 'rng::rng_helper, rng::AFRand, rng::_AFRand_mt, rng::CStd', assume=STD + ['the base generators (Agner Fog\'s, the C library\'s) are given', 'a worker runs one part of the range with its own number'],
     note=NFNOTE + ' The base generator is a stand-in whose draws are opaque; std::normal_distribution is an opaque function of mean, deviation and draw. The asynchronous generator (afrand_as.h) is not decided. Statistical quality of the base generators is not a property of this tree.')
NA = []
