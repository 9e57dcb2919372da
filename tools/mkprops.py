#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None, **({'state': state} if state else {}))))

T='emlearn/trees.py'; TH='emlearn/eml_trees.h'
prop('C01','Hard-voting tree classifiers reproduce the source ensemble',
 "For every fitted tree classifier that converts (single tree or forest, any shape including single-leaf trees), every feature dtype offered for it, and every way of running it (inline C, loadable C, the exported CSV description), the predicted class equals walking each source tree with the source library's rule (a value less than or equal to the threshold goes left) and taking the majority of the trees' most probable classes, the lowest class index winning ties. The reported class probabilities are the fractions of trees voting for each class. This includes feature values exactly at a split threshold and at the extremes of the dtype.",
 ['programs','inputs'],'all tree ensembles that convert x all feature vectors of the chosen dtype x {inline, loadable, csv}',
 'The tests fit a few forests on random data and compare 5-100 rows with tolerances (up to 10% wrong allowed for int8); no test looks at values on a threshold, at ties, at single-leaf trees or evaluates the exported CSV.',
 [T,TH,'emlearn/cgen.py'],[('flatten_forest / remove_duplicate_leaves','emlearn/trees.py'),('generate_c_inlined','emlearn/trees.py'),('generate_c_loadable, generate_c_nodes, encode_child','emlearn/trees.py'),('eml_trees_predict, eml_trees_predict_proba','emlearn/eml_trees.h')],
 ['C functions <name>_predict / <name>_predict_proba of the generated code','convert(...).predict/predict_proba','save(format="csv")'])
prop('C02','Soft-voting tree classifiers average quantised leaf proportions',
 "With leaf_bits between 2 and 8, each leaf's class proportions are kept to within the rounding error of 2^leaf_bits - 1 evenly spaced levels over [0,1], the reported probabilities are the mean of those leaf proportions over all trees, and the predicted class is the most probable one (lowest index on ties). Both inference methods give the same result, including at split thresholds.",
 ['programs','inputs','configurations'],'all tree classifiers x leaf_bits 2..8 x inline/loadable x all feature vectors',
 'Tests compare 8 rows of two fitted forests with a tolerance of 1.5/2^bits and allow up to 3 of 8 wrong classes.',
 [T,TH],[('quantize_probabilities_into_byte','emlearn/trees.py'),('leaves_to_bytelist','emlearn/trees.py'),('eml_trees_predict_proba','emlearn/eml_trees.h')],
 ['<name>_predict / <name>_predict_proba'])
prop('C03','Tree regressors return the mean of the selected leaf values',
 "For every tree regressor that converts and every feature vector, the C prediction equals the mean over trees of the value stored in the leaf that the source tree selects (value less than or equal to threshold goes left), up to single-precision rounding of the leaf values; inline and loadable agree. Distinct leaf values stay distinct: merging identical leaves never changes a prediction.",
 ['programs','inputs'],'all tree regressors x feature vectors x inline/loadable/dtype',
 'Tests compare 5 rows with an absolute tolerance of 2, one data set.',
 [T,TH],[('flatten_tree(leaf="value"), remove_duplicate_leaves','emlearn/trees.py'),('eml_trees_regress','emlearn/eml_trees.h')],
 ['<name>_predict','eml_trees_regress1'])
prop('C04','Conversion is faithful or refused',
 "Converting a fitted model either gives a model that computes what the source model computes, or an exception is raised (by convert(), or at the latest by the first prediction or save): an estimator kind, inference method, dtype, number of features or classes, distance metric, weighting, layer type, activation or layer option that the C code cannot represent is never silently converted into something different. A prediction call on a successfully converted model never returns an internal error code as if it were a class.",
 ['configurations','programs'],'all estimator configurations in the documented families, including every unsupported option',
 'Tests check only a handful of refusals (one metric, one weighting, one fixed-point combination).',
 ['emlearn/convert.py',T,'emlearn/neighbors.py','emlearn/net.py','emlearn/bayes.py','emlearn/mixture.py','emlearn/distance.py'],
 [('convert dispatch','emlearn/convert.py'),('Wrapper constructors','emlearn/*.py'),('encode_child / assert_valid_child','emlearn/trees.py'),('check_params_supported','emlearn/neighbors.py'),('convert_keras','emlearn/net.py')],
 ['emlearn.convert result or exception','predict()'])
prop('C05','k-nearest-neighbours prediction is the majority of the k nearest',
 "For every stored data set, every k not larger than the number of stored items and every int16 query, prediction returns the label with most votes among some choice of k items that are nearest by Euclidean distance (compared at integer resolution), the lowest label winning vote ties, and it always terminates. The stored data set is not modified by prediction.",
 ['inputs','histories'],'all data sets of int16 vectors with labels in range x all k x all int16 queries',
 'Tests use one small-valued random data set per case; large values, distance ties, vote ties and k = n are never checked.',
 ['emlearn/eml_neighbors.h','emlearn/eml_qsort.h','emlearn/neighbors.py'],
 [('eml_distance_euclidean_int16, eml_isqrt','emlearn/eml_neighbors.h'),('eml_neighbors_find_nearest','emlearn/eml_neighbors.h'),('eml_neighbors_sort_distances','emlearn/eml_neighbors.h'),('c_generate_neighbors','emlearn/neighbors.py')],
 ['eml_neighbors_predict','convert(KNeighborsClassifier).predict'])
prop('C06','On-device learning stores exactly the accepted items, in order',
 "After any sequence of add-item and predict calls on a growable nearest-neighbours model, the model holds exactly the items whose addition returned success, in order, with their own values and labels, up to the declared capacity. An addition with the wrong number of features or beyond capacity returns an error and changes nothing; a prediction call with wrong lengths returns an error and changes neither the model nor the output.",
 ['histories','inputs'],'all interleavings of add_item (valid/invalid) and predict (valid/invalid) for all capacities',
 'The C unit test that touches add_item is not part of the stable suite and adds two items once.',
 ['emlearn/eml_neighbors.h'],[('eml_neighbors_add_item','emlearn/eml_neighbors.h'),('eml_neighbors_check, eml_neighbors_infer preconditions','emlearn/eml_neighbors.h')],
 ['eml_neighbors_add_item','eml_neighbors_check','eml_neighbors_predict'],[dict(name='n_items/data/labels',meaning='stored training set',where='EmlNeighborsModel')])
prop('C07','Neural network inference computes the layer-by-layer definition',
 "For every network of dense layers that converts from scikit-learn or Keras and every input, the C code computes activation(input x weights + bias) layer by layer in order, each layer with its own activation, so that predicted class (largest output, lowest index on ties; threshold 0.5 for a single output), class probabilities (in class order) and regression outputs are those of the source network up to float rounding. Loadable and inline code give the same class.",
 ['programs','inputs'],'all dense networks (any layer sizes, any mix of the supported activations, 1..n outputs) x all inputs',
 'Tests use a few trained networks on one data set with loose tolerances; layer-size patterns, per-layer activations, ties and 2-output softmax order are not covered.',
 ['emlearn/net.py','emlearn/eml_net.h','emlearn/templates/net_float.jinja'],
 [('eml_net_infer / eml_net_forward','emlearn/eml_net.h'),('eml_net_predict, eml_net_predict_proba, eml_net_regress','emlearn/eml_net.h'),('c_generate_net_loadable / c_generate_net_inline','emlearn/net.py'),('convert_sklearn_mlp, convert_keras','emlearn/net.py')],
 ['eml_net_predict*','generated <name>_predict','convert(...).predict/predict_proba'])
prop('C08','Misused model calls fail cleanly and leave no trace',
 "Every C inference entry point (of trees, networks, nearest neighbours, elliptic envelopes, naive Bayes and mixtures, in the headers and in generated code) that is given a wrong feature count, a wrong output length or an incomplete model (a missing array or layer, too few layers, buffers too small, an unsupported setting) returns its documented error indication (negative class, error code or NaN), does not write to the caller's output buffers, and does not influence any later correct call on the same model.",
 ['histories','inputs'],'all sequences mixing correct calls with calls that have wrong lengths or incomplete models',
 'Error returns are tested for a few single calls in C tests outside the stable suite; nothing checks that a failed call leaves outputs and later results alone.',
 ['emlearn/eml_net.h',TH,'emlearn/eml_neighbors.h','emlearn/eml_distance.h','emlearn/eml_bayes.h','emlearn/eml_mixture.h',T,'emlearn/templates/net_float.jinja'],
 [('EML_PRECONDITION checks','emlearn/eml_net.h, emlearn/eml_trees.h')],['return codes and output buffers of eml_net_*, eml_trees_*, eml_neighbors_*, eml_elliptic_envelope_predict, eml_bayes_predict, eml_mixture_* and the generated functions'])
prop('C09','Naive Bayes picks the class with the highest fixed-point likelihood',
 "For every Gaussian naive Bayes model that converts and every input within the range of the 16.16 fixed-point format, the C code returns a class whose log-posterior (Gaussian log-likelihood summed over the features with that class's mean and deviation, plus the log of its prior) is the largest within the error bound of the fixed-point arithmetic (lowest class index on exact ties).",
 ['programs','inputs'],'all models with 2..10 classes and means/deviations/inputs representable in Q16.16',
 'Tests compare accuracy on a few fitted data sets with a 2-point metric tolerance.',
 ['emlearn/bayes.py','emlearn/eml_bayes.h','emlearn/eml_fixedpoint.h'],[('eml_bayes_predict, eml_bayes_logpdf','emlearn/eml_bayes.h'),('eml_q16_mul, eml_q16_div','emlearn/eml_fixedpoint.h'),('generate_c','emlearn/bayes.py')],
 ['eml_bayes_predict','convert(GaussianNB).predict'])
prop('C10','Elliptic envelope scores are the squared Mahalanobis distance',
 "For every converted elliptic envelope and every input, the C code reports the squared Mahalanobis distance of the input to the model's location under the model's precision matrix; it flags an outlier exactly when the negated distance is below the model's offset, and the Python wrapper's scores and inlier/outlier labels follow from that same distance.",
 ['programs','inputs'],'all locations, precision matrices, offsets and inputs (exactly representable values), including points exactly on the boundary',
 'Tests fit two random data sets and compare predictions only in aggregate.',
 ['emlearn/distance.py','emlearn/eml_distance.h'],[('eml_mahalanobis_distance_squared, eml_elliptic_envelope_predict','emlearn/eml_distance.h'),('generate_code, Wrapper','emlearn/distance.py')],
 ['eml_elliptic_envelope_predict','Wrapper.predict/score_samples/mahalanobis'])
prop('C11','Gaussian mixtures score with the source precision of every covariance type',
 "For every Gaussian mixture that converts, whichever covariance structure it was fitted with, each component's reported log-probability uses that component's own mean, precision, determinant and weight; scores are the log of the summed component probabilities, responsibilities sum to one, and the predicted component is the most responsible one.",
 ['programs','inputs'],'all component counts, feature counts, covariance types and inputs with exactly representable parameters',
 'Tests fit a few mixtures and compare with tolerances; nothing separates the components or covariance layouts (e.g. transposed factors).',
 ['emlearn/mixture.py','emlearn/eml_mixture.h'],[('convert_to_full','emlearn/mixture.py'),('eml_mixture_predict_log_proba, eml_mixture_score, eml_mixture_predict_proba','emlearn/eml_mixture.h')],
 ['generated <name>_predict_log_proba/_score/_predict_proba','Wrapper.predict*'])
prop('C12','Converted models are isolated from each other and from history',
 "After any interleaving of converting models, predicting, predicting probabilities and saving, every converted model keeps giving its own answers: no prediction depends on which other models were converted or used before, on earlier predictions of the same model, on saving it, or on what later happens to the source estimator (refitting it, training it further, changing its arrays in place), and the source estimator is left unchanged.",
 ['histories','schedules'],'all interleavings of convert / predict / predict_proba / save over several models of equal and different kinds',
 'Every test converts one model and uses it at once; no test holds two live models of the same kind.',
 ['emlearn/common.py',T,'emlearn/neighbors.py','emlearn/net.py','emlearn/bayes.py'],[('build_classifier / CompiledClassifier binary location','emlearn/common.py'),('Wrapper._build_classifier caching','emlearn/trees.py')],
 ['predict/predict_proba/save results along a session'],[dict(name='compiled program per model',meaning='the binary that answers for a model',where='CompiledClassifier.bin_path')])
prop('C13','Generated code is named as requested and bad names are refused',
 "Saving a model under a name produces code whose public symbols all carry that name and which compiles (as C and as C++) alone and next to other saved models whose names do not extend one another, with the same answers whatever the name is; the name defaults to the file's base name. A name that is not a C identifier, or is a C reserved word, is refused with an error and writes no file, and the saved file contains exactly the returned text.",
 ['inputs','configurations'],'all strings used as names x all model kinds x save arguments',
 'Tests try a few identifiers on the helper functions only.',
 ['emlearn/cgen.py','emlearn/creserved.py',T,'emlearn/net.py','emlearn/bayes.py','emlearn/mixture.py','emlearn/distance.py','emlearn/neighbors.py'],[('assert_valid_identifier','emlearn/cgen.py'),('save()','emlearn/*.py')],
 ['save() return value, file system, symbols of the compiled code'])
prop('C14','Generated constants and tables keep their values',
 "Every integer written into generated C code reads back as the same integer for the declared type, and every floating point constant reads back as the same value to single precision, in the same order and number; this holds for the array and constant generators, the window-function tool and the filter-bank tool whatever line wrapping is selected.",
 ['inputs'],'all value lists, dtypes, lengths and wrap widths',
 'Tests compare a couple of literal strings.',
 ['emlearn/cgen.py','emlearn/tools/window_function.py','emlearn/tools/mel_filterbank.py','emlearn/signal.py'],[('constant, array_declare, constant_declare','emlearn/cgen.py'),('sparse_filterbank_serialize','emlearn/signal.py')],
 ['compiled value of the generated declarations'])
prop('C15','IIR filtering is the cascade difference equation for any signal',
 "Feeding any sample sequence to a second-order-section filter returns at every step the output of the cascaded difference equations y[n]=b0x[n]+b1x[n-1]+b2x[n-2]-a1y[n-1]-a2y[n-2] from zero initial state; the result depends only on that filter's own past samples, so several filters may be interleaved and a signal may be fed in pieces. An incompletely or wrongly dimensioned filter is reported by the check function.",
 ['histories','inputs'],'all coefficient sets, all numbers of stages, all sample histories and interleavings',
 'Tests compare a few standard filters on one sweep with tolerances.',
 ['emlearn/eml_iir.h','bindings/eml_signal.cpp'],[('eml_biquad_tdf2, eml_iir_filter, eml_iir_check','emlearn/eml_iir.h'),('iirfilter_py','bindings/eml_signal.cpp')],
 ['eml_iir_filter outputs','eml_signal.iirfilter'],[dict(name='states',meaning='delay line per stage',where='EmlIIR.states')])
prop('C16','The FFT is the discrete Fourier transform; bad sizes are refused',
 "For every power-of-two length and every complex input, the forward transform returns X[k] = sum x[n] exp(-2 pi i k n / N) up to float rounding, in natural order, using only the table filled for that length. Lengths that are not a power of two or do not match the table return an error and leave the data untouched.",
 ['inputs','configurations'],'all lengths and inputs',
 'Tests compare the real part for a few random inputs.',
 ['emlearn/eml_fft.h','bindings/eml_audio.cpp'],[('eml_fft_fill, eml_fft_forward, reverse_bits','emlearn/eml_fft.h')],['eml_fft_forward output buffers','eml_audio.rfft'])
prop('C17','Sparse filter banks equal the dense matrix product',
 "For every filter bank matrix, converting it to the sparse representation and applying it - in Python, through the extension, or in C with the serialised tables - gives the dense matrix-vector product, for any support of each filter (full rows, single coefficients, coefficients of zero between non-zero ones).",
 ['inputs'],'all non-negative or signed matrices, all input spectra',
 'Tests use mel filter banks only, whose rows are contiguous.',
 ['emlearn/signal.py','emlearn/eml_audio.h','bindings/eml_audio.cpp'],[('sparse_filterbank, sparse_filterbank_reduce, sparse_filterbank_serialize','emlearn/signal.py'),('eml_sparse_filterbank','emlearn/eml_audio.h')],
 ['outputs of the three implementations'])
prop('C18','Python feature quantisation saturates, scales and inverts consistently',
 "For every data set and every supported target type, the quantizer's transform is value times scale, limited to plus/minus the output maximum (to zero below for unsigned types) and truncated toward zero, so it never wraps around or changes sign, is monotonic, keeps shape and gives the requested type; with an explicit maximum value that value maps to the output maximum; without one the learned value does (the larger magnitude of the two max_quantile quantiles of the data, or of the extremes); limits beyond the target type are refused; the inverse differs from a non-clipped input by less than one quantisation step.",
 ['inputs','configurations'],'all inputs, dtypes, max_value/max_quantile/out_max settings',
 'Tests check one random data set per dtype and round-trip loosely.',
 ['emlearn/preprocessing/quantizer.py'],[('Quantizer.fit/transform/inverse_transform','emlearn/preprocessing/quantizer.py')],['transform / inverse_transform results'])
prop('C19','C feature quantisation saturates symmetrically and counts clipping',
 "For every scale and every float array, the C quantizer writes scaled values truncated toward zero and limited to plus/minus 32767, reports exactly how many values were limited at each end, gives the same values with and without counting, and its inverse divides by the scale. Mismatched lengths return an error and write nothing.",
 ['inputs'],'all float arrays, scales and lengths',
 'C unit tests (outside the stable suite) use one five-value array.',
 ['emlearn/eml_quantizer.h'],[('eml_quantizer_check_forward_int16, eml_quantizer_forward_int16, eml_quantizer_inverse_int16','emlearn/eml_quantizer.h')],['output array and counters'])
prop('C20','Array operations act on exactly the addressed rows',
 "For every sequence of operations on 2D arrays, the contents equal those of an abstract row/column table: element access outside the bounds is rejected, fill and sum cover all elements, shifting rows moves each kept row and leaves the vacated rows as they were, copying rows replaces exactly the addressed rows. Operations with incompatible dimensions, element sizes, negative or excessive positions return an error and change nothing, and memory outside the array is never touched.",
 ['histories','inputs'],'all operation sequences on arrays of all shapes and element sizes',
 'One C test file, not in the stable suite, runs one example per operation.',
 ['emlearn/eml_array.h','emlearn/eml_vector.h'],[('eml_array_init_full, eml_array_data_2d, eml_array_fill, eml_array_sum, eml_array_shift_rows, eml_array_copy_rows','emlearn/eml_array.h'),('eml_vector_set, eml_vector_view','emlearn/eml_vector.h')],
 ['array contents and return codes after each call'],[dict(name='dims,data',meaning='table contents',where='EmlArray')])
prop('C21','A sliding window built from array operations holds the newest samples',
 "Feeding a stream in chunks through shift-rows-then-copy-rows, as the streaming examples do, always leaves the window holding exactly the most recent rows in arrival order, for every window size, chunk size sequence and element size; no sample is lost, duplicated or reordered.",
 ['histories'],'all sequences of chunk sizes up to the window length',
 'No test streams more than one chunk.',
 ['emlearn/eml_array.h','examples/motion_recognition/motion_preprocessing.h'],[('eml_array_shift_rows','emlearn/eml_array.h'),('eml_array_copy_rows','emlearn/eml_array.h')],['window contents after each chunk'])
prop('C22','CSV written by the library reads back unchanged',
 "Any header and any number of rows of floats written with the CSV writer are read back by the CSV reader as the same column names and the same number of rows, in order, with values equal up to six decimals, for any stream that honours the read/seek/write contract and any sufficiently large buffer; end of data is reported once all rows were returned and keeps being reported.",
 ['inputs','histories'],'all headers, row counts, values of up to 19 characters, buffer sizes',
 'One C test outside the stable suite reads and writes one fixed file.',
 ['emlearn/eml_csv.h','emlearn/eml_fileio.h'],[('eml_csv_writer_write_header/_data','emlearn/eml_csv.h'),('eml_csv_reader_read_header/_data','emlearn/eml_csv.h'),('stream_location / seek','emlearn/eml_csv.h')],
 ['stream bytes, columns returned per call'],[dict(name='stream_location',meaning='start of the next unread row',where='EmlCsvReader')])
prop('C23','CSV errors are reported and never corrupt data',
 "A row that the writer rejects (wrong number of values, value too wide) leaves no bytes in the stream, and a failing or short write is reported as an error; the reader never returns a row with other than the header's number of columns, reports read and seek failures and lines longer than the buffer as errors, and a call that returned an error leaves the position so that a repeated call sees the same row.",
 ['fault_sequences','histories','inputs'],'all positions of write/read/seek failures, malformed rows, buffer sizes',
 'No test injects an I/O failure or a malformed row.',
 ['emlearn/eml_csv.h','emlearn/eml_io.h'],[('return values of the stream callbacks','emlearn/eml_csv.h'),('column count check','emlearn/eml_csv.h')],['return codes, stream bytes, stream position'])
prop('C24','Sorting yields an ordered permutation',
 "The library's in-place sort, used to order neighbours, leaves for every input length and every arrangement of keys (sorted, reversed, constant, many duplicates) a permutation of the input items ordered by key, each item keeping its identity.",
 ['inputs'],'all sequences of all lengths',
 'No stable test sorts anything directly; kNN tests exercise a few random orders.',
 ['emlearn/eml_qsort.h','emlearn/eml_neighbors.h'],[('QSORT','emlearn/eml_qsort.h'),('eml_neighbors_sort_distances','emlearn/eml_neighbors.h')],['array before and after'])
prop('C25','Fixed-point conversion agrees between Python and C and loses under one step',
 "Converting a number to fixed point in Python, or with the C 16.16 macros, gives the number times the scale truncated toward zero, Python and C agree for every representable value, converting back is within one step, and fixed-point division returns the quotient rounded to the nearest step for every non-zero divisor whose quotient is representable. The integer part of a 16.16 number is rounded down; the product of two 16.16 numbers differs from the true one by no more than the parts of the factors below 2^-8 account for (none: it is exact); only the 16.16 format has the C type eml_q16_t.",
 ['inputs'],'all representable values and formats of 32 bits',
 'Tests convert a handful of values.',
 ['emlearn/fixedpoint.py','emlearn/eml_fixedpoint.h'],[('from_float, to_float','emlearn/fixedpoint.py'),('EML_Q16_*, eml_q16_mul, eml_q16_div','emlearn/eml_fixedpoint.h')],['returned numbers'])
prop('C26','The Pareto front is exactly the non-dominated set',
 "For every table of results, the returned rows are exactly those for which no other row is at least as good on both metrics and better on one (of several identical rows at least one is kept), restricted to rows meeting the minimum performance; row order, row contents and the caller's table are unchanged, whatever the metric columns are called and in either direction.",
 ['inputs','configurations'],'all result tables, metric names, directions and cut-offs',
 'No stable test covers the Pareto helpers.',
 ['emlearn/evaluate/pareto.py'],[('is_pareto_efficient_simple, find_pareto_front','emlearn/evaluate/pareto.py')],['returned rows'])
prop('C27','Tree cost metrics describe the converted model',
 "For every tree model, the node count is the number of decision nodes in the generated code, the leaf count is the number of distinct leaves, the byte size follows from these, tree count and depth figures are those of the source trees, and the compute estimate is the per-tree mean number of nodes visited on the given data summed over trees; the metrics agree whether given the source or the converted model.",
 ['programs','inputs'],'all tree models and data sets',
 'Tests only require the metrics to be non-NaN and over a bound.',
 ['emlearn/evaluate/trees.py',T],[('model_size_nodes, model_size_leaves, model_size_bytes, tree_depth_*, count_trees, compute_cost_estimate','emlearn/evaluate/trees.py')],['metric values'])
prop('C28','Arduino install copies the library completely and refuses to clobber',
 "Installing into an Arduino library folder leaves a library directory with every C header and the version file, byte for byte; if the library is already present it raises an error and changes nothing unless an update was requested, in which case all current files are refreshed and unrelated files are kept. Nothing outside that library directory is modified.",
 ['histories','configurations'],'all sequences of install / update / user edits over all initial directory states',
 'One test installs once into an empty directory.',
 ['emlearn/arduino/install.py','emlearn/utils/fileutils.py'],[('install_arduino_library','emlearn/arduino/install.py')],['directory tree after each call'])
prop('C29','Host evaluation returns one answer per input row, in order',
 "Evaluating a converted model from Python returns exactly one result per input row, in row order, equal to calling the C code on that row alone, for any number of rows and any number of features the model supports; inputs reach the C code with their values intact to eight decimals. When rows cannot be processed, an exception is raised rather than a shortened, padded or uninitialised result.",
 ['inputs','configurations'],'all row counts, feature counts, magnitudes of values',
 'Tests use at most a few hundred rows and at most about 60 features.',
 ['emlearn/common.py','emlearn/eml_test.h'],[('run_classifier, CompiledClassifier','emlearn/common.py'),('eml_test_read_csv, eml_test_parse_csv_line','emlearn/eml_test.h')],['predict/predict_proba/regress results'])
prop('C30','Program size reports sum the right sections',
 "Parsing the section listing of a compiled program gives every listed section its size, missing optional sections count as zero, and the reported flash and RAM figures are exactly text+data+rodata and data+bss for any order, spacing and set of sections.",
 ['inputs'],'all section listings in the binutils format',
 'The tests compile one program per platform and require figures above a bound; no listing with other sections or another order is read.',
 ['emlearn/evaluate/size.py'],[('parse_binutils_size_a_output, run_binutils_size','emlearn/evaluate/size.py')],['returned dictionaries'])
prop('C31','Debug and logging builds compute the same results',
 "Compiling the C library with debugging, logging or tracing enabled, as C99 or later, changes no result, return code or output buffer of any operation, and every error code has its own description that names it.",
 ['configurations','histories'],'all operation sequences x {EML_DEBUG, EML_LOG_ENABLE, trace levels}',
 'Tests build one configuration only.',
 ['emlearn/eml_common.h','emlearn/eml_log.h'],[('EML_PRECONDITION variants','emlearn/eml_common.h'),('eml_error_strs, eml_error_str','emlearn/eml_common.h'),('EML_LOG_* macros','emlearn/eml_log.h')],['same session replayed in every build'])
prop('C32','The C library never allocates memory',
 "No operation of the C library - model inference, learning, filtering, transforms, quantisation, arrays or CSV - allocates or frees heap memory, on success or on error; all storage is supplied by the caller or is static.",
 ['histories','inputs'],'all operation sequences',
 'Nothing in the tests observes allocation.',
 ['emlearn/eml_trees.h','emlearn/eml_net.h','emlearn/eml_neighbors.h','emlearn/eml_csv.h','emlearn/eml_array.h','emlearn/eml_fft.h','emlearn/eml_iir.h','emlearn/eml_audio.h','emlearn/eml_mixture.h','emlearn/eml_bayes.h','emlearn/eml_distance.h','emlearn/eml_quantizer.h'],[('caller-supplied buffers','emlearn/eml_*.h')],['allocation counters around each call'])
prop('C33','Mel bands are sums over triangles spaced evenly on the mel scale',
 "For every sample rate, transform length, number of bands and band limits inside the spectrum, each mel band is the sum of the spectrum weighted with a triangle that rises from the centre of the band below to its own centre and falls to the centre of the band above, centres being evenly spaced on the mel scale 2595 log10(1 + f/700) from fmin to fmax; the spectrum is left as it was. The mel spectrogram of a frame is the mel bands of the power spectrum |X_k|^2 / n of the frame under a Hann window, X its discrete Fourier transform, real and imaginary parts both counted. Band limits outside the spectrum and buffers or tables of the wrong size are refused without touching memory outside the buffers. The Python extension gives the same.",
 ['inputs','configurations'],'all sample rates, transform lengths, band counts and limits x all spectra and frames',
 'One configuration is compared with a reference library, with a tolerance, for the filter only; the spectrogram test is marked as expected to fail. No test gives limits outside of the spectrum or buffers that do not fit.',
 ['emlearn/eml_audio.h','emlearn/eml_vector.h','bindings/eml_audio.cpp'],[('eml_audio_melspec, eml_audio_mel_center, eml_fft_freq','emlearn/eml_audio.h'),('eml_audio_power_spectrogram','emlearn/eml_audio.h'),('eml_audio_melspectrogram','emlearn/eml_audio.h'),('eml_signal_hann_apply','emlearn/eml_vector.h')],['eml_audio_melspec / eml_audio_melspectrogram output and return code','eml_audio.melfilter / melspectrogram'])
prop('C34','Log entries and failed checks are reported exactly, and only when enabled',
 "With logging enabled each log entry comes out as one logfmt line, its event name followed by every key=value added, in order, and entries logged by library operations state what happened (tree predictions, neighbours added, compared and voted for); with logging disabled nothing is printed. In debug builds a failed pre- or postcondition calls the debug hook exactly once with the code that is returned (and writes an error line if that was asked for), ends the program with a failing status if fatal errors were asked for and never otherwise; without debugging the same codes are returned and nothing is called.",
 ['configurations','histories','inputs'],'all sequences of entries and values x {disabled, enabled} x {debug, log, fatal} settings',
 'No test enables logging or debugging.',
 ['emlearn/eml_log.h','emlearn/eml_common.h','emlearn/eml_trees.h','emlearn/eml_neighbors.h'],[('EML_LOG_*','emlearn/eml_log.h'),('EML_PRECONDITION, EML_POSTCONDITION, eml_debug hook','emlearn/eml_common.h'),('EML_LOG_* in predictions','emlearn/eml_trees.h, emlearn/eml_neighbors.h')],['lines printed','calls of the hook','return codes','exit status'])
prop('C35','Program size is measured on exactly the program and device requested',
 "Measuring program size compiles exactly the given program text for the requested platform and MCU, optimised for size with exactly the given (or the library's default) include folders, and reports the flash and RAM of that program; unknown platforms or MCUs are refused with ValueError, a program that does not build and missing or failing tools raise an exception rather than give figures, no files are left behind, and missing build tools are named exactly.",
 ['inputs','configurations','fault_sequences'],'all programs x platforms x MCUs x include folders x tools present, missing or failing',
 'The tests measure one or two programs per platform and require figures above a bound.',
 ['emlearn/evaluate/size.py','emlearn/platforms/arm-cortex/Makefile','emlearn/platforms/avr8/Makefile'],[('get_program_size, check_build_tools','emlearn/evaluate/size.py'),('make rules','emlearn/platforms/')],['returned figures or exception','commands run','files left behind'])
prop('C36','The C code is portable: it compiles everywhere and computes the same',
 "Each C header (by itself, twice, or with all others) and the C code of every converted model compiles without errors as C99 and as C++ with hosted compilers and for AVR and ARM microcontrollers (the test helper only where there are files), and the library gives the same results and return codes whichever compiler, optimisation level, signedness of char or size of enumerations is used and whatever uninitialised storage contains; fixed-point constants have the same values where int has 16 bits.",
 ['configurations','programs','histories'],'all headers and converted models x targets; all operation sequences x compilers and options',
 'Tests compile a few models with one compiler on the host.',
 ['emlearn/eml_fixedpoint.h','emlearn/eml_fileio.h','emlearn/eml_io.h','emlearn/eml_quantizer.h','emlearn/cgen.py','emlearn/trees.py','emlearn/net.py'],[('include lines and macros of the headers','emlearn/eml_*.h'),('generated declarations and functions','emlearn/cgen.py, emlearn/*.py')],['exit status of the compilers','same session replayed in every build'])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
