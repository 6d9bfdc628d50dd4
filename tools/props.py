"""The single table of properties. `python3 tools/props.py` rewrites
properties.jsonl and MANIFEST.json from it."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, note, technique=None, level='exploration'):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over, text=' '.join(text.split()),
                  why=' '.join(why.split()), files=files, mech=mech, note=' '.join(note.split()),
                  technique=technique or 'runtime monitoring: reference-model oracle over randomized executions',
                  level=level))


IO = 'hyperion/io/'
M = 'hyperion/metrics/'
F = 'hyperion/feats/'

prop('C01', 'Feature archives give back exactly what was written',
     '''Whatever set of distinct keys and vectors or matrices is written through a data writer (Kaldi ark binary, text or
     compressed, HDF5 plain or compressed, with or without a script file), the matching readers return: every record once,
     with its own key, in written order (key order for a whole HDF5 file), and its values - exact to single precision in
     binary and HDF5, to the printed digits in text, and within the compression step when compressed. Sequential, chunked,
     iterated and by-key reading, through the archive or through the script with any script separator, agree. Archives laid
     out by Kaldi itself (binary single or double precision, text) are read with the same values, and archives and scripts written
     here have the published layout. A reader that is given a transform returns the transform of each value. Closed readers and writers hold no file.''',
     ['inputs', 'configurations'],
     'all key sets, array shapes and values (incl. signed zero, denormal and non-finite values in the exact formats), formats, separators and ways of reading',
     'The suite round-trips one small set of arrays per format; combinations of shape, dtype, compression, separator and reading mode are unbounded.',
     [IO + 'ark_data_writer.py', IO + 'ark_data_reader.py', IO + 'h5_data_writer.py', IO + 'h5_data_reader.py', 'hyperion/utils/kaldi_matrix.py', 'hyperion/utils/kaldi_io_funcs.py'],
     [('ark record framing', IO + 'ark_data_writer.py'), ('matrix serialisation', 'hyperion/utils/kaldi_matrix.py')],
     'Random tables written and read back through every reader kind; values compared with an independent numpy model.')

prop('C02', 'Reading by key returns that key, and metadata describes the data',
     '''A by-key reader returns for each requested key, in the requested order and with repetitions, the value stored under
     that key and no other; a key that is not stored is an error, or, when the reader is permissive, an empty value (zeros
     when the answers are stacked). Shapes, row counts and dimensions reported for keys or in sequence equal those of the
     arrays that reading returns, and reading them advances the sequence just as reading the data does.''',
     ['inputs', 'histories'], 'all tables, query lists (order, repetition, missing keys anywhere) and reader kinds',
     'Tests query a fixed list once; they do not mix missing keys, repetitions, stacked answers and metadata.',
     [IO + 'ark_data_reader.py', IO + 'h5_data_reader.py'],
     [('permissive reads', IO + 'data_reader.py'), ('shape reads', IO + 'ark_data_reader.py')],
     'Every answer compared with a dictionary model.')

prop('C03', 'A range of rows is exactly that slice of the whole matrix',
     '''Asking for rows - by a row offset and a number of rows given to the read (one for all records or one per record, zero
     rows meaning up to the end), by a range written in the script line, or by both - returns exactly those rows of the
     matrix that reading it whole gives, in every archive format, compressed ones included. The reported shapes and row counts
     are those of the range. A requested range that does not lie inside the stored matrix, or inside the script's range, never
     returns rows from outside of it.''',
     ['inputs', 'configurations'], 'all matrices, formats, offsets and counts, script ranges, and their combinations',
     'Tests use a few fixed offsets with one format; off-by-one errors appear only at specific sizes, formats and combinations of ranges.',
     [IO + 'ark_data_reader.py', IO + 'h5_data_reader.py', 'hyperion/utils/kaldi_matrix.py', 'hyperion/utils/scp_list.py'],
     [('combining script and requested ranges', IO + 'data_reader.py'), ('partial matrix reads', 'hyperion/utils/kaldi_matrix.py')],
     'Slices compared bitwise with slices of the whole read.')

prop('C04', 'Sequential reading visits each record once; parts cover the data',
     '''Any sequence of reads of any sizes, metadata reads, iteration and resets on a sequential reader walks through the
     records once each in order, reports the end exactly when nothing is left, and starts again from the first record after a
     reset. The parts of a data set are contiguous, non-empty, balanced and together make up the whole once each; when grouping by key
     is asked for, all lines of a key are in one part. A path prefix given to the reader and several archives in one script
     change nothing in what is read.''',
     ['histories', 'configurations'], 'all operation sequences, data sizes, numbers of parts, formats',
     'Tests use fixed read sequences on 10 records; cursor errors depend on the interleaving of operations and sizes.',
     [IO + 'ark_data_reader.py', IO + 'h5_data_reader.py', 'hyperion/utils/scp_list.py', 'hyperion/utils/list_utils.py'],
     [('cursor and reset', IO + 'ark_data_reader.py'), ('splitting', 'hyperion/utils/scp_list.py')],
     'Online cursor model checked after every operation.')

prop('C05', 'Compressed matrices follow the published format within its accuracy',
     '''Each compression method produces the documented binary layout of Kaldi compressed matrices, so that an independent
     decoder reads the same values as the toolkit, and the decoded values differ from the original ones by at most the
     quantisation step of the method. Decoding preserves order within each column, clips values beyond the limits of fixed-range methods to
     those limits, and any rows, scaled versions or forms rebuilt from stored attributes decode to the same values; compressing
     again what was decoded stays within the same step.''',
     ['inputs'], 'all finite matrices of every shape, scale and distribution, and all methods',
     'Tests compress one random matrix per method; the layout and rounding limits depend on values, row counts and methods.',
     ['hyperion/utils/kaldi_matrix.py'], [('compression and decompression', 'hyperion/utils/kaldi_matrix.py')],
     'Bytes decoded by an independent implementation of the format; error bound computed per element.')

prop('C06', 'Read and write specifiers select the files, formats and options they say',
     '''A write or read specifier is understood as documented: kind of archive, script, both, or segments, file names, and the
     binary/text, flush, permissive, sorted, once and ignored options in any order, a bare file name being recognised by its
     extension or as a script; malformed specifiers are refused with an error. Equality of specifiers is equality of what they say. The
     writers and readers made from a specifier create, flush and open exactly the files and formats it names.''',
     ['inputs', 'configurations'], 'all specifier strings over the documented grammar and their malformed neighbours',
     'Tests parse a handful of strings.',
     [IO + 'rw_specifiers.py', IO + 'data_rw_factory.py'], [('grammar', IO + 'rw_specifiers.py'), ('factories', IO + 'data_rw_factory.py')],
     'Grammar-driven generation with an independent parser; effects on disk inspected.')

prop('C07', 'Copying and merging data sets loses, adds and alters nothing',
     '''Copying feature archives - in any chunk size, from any format to any format, whole or in parts, from one or several
     inputs, through the library or the copying program - yields an output whose records are exactly those of the inputs, in
     order, with the same values (up to the output's compression step), and whose archive and script agree. Merging HDF5 files
     yields the union of their data sets, whatever the chunk size; and the HDF5 reader returns for each key and field the
     stored values, row counts, slices and random samples of contiguous or distinct rows of it.''',
     ['inputs', 'configurations', 'programs'], 'all inputs, format pairs, chunk sizes and numbers of parts',
     'There is one merge test; chunk boundaries, parts and format pairs are not crossed.',
     [IO + 'copy_feats.py', IO + 'h5_merger.py', IO + 'hyp_data_reader.py', IO + 'hyp_data_writer.py', 'hyperion/bin/copy-feats.py'],
     [('copy loop', IO + 'copy_feats.py'), ('merge loop', IO + 'h5_merger.py')],
     'Conservation oracle over the records read before and after.')

prop('C08', 'Interrupted or damaged archives never yield wrong data',
     '''From an archive cut at any byte a reader returns only records that were written, whole and unchanged and from the
     start in order, and signals an error rather than a short or altered record. A flushing writer that dies right after
     a write has lost nothing of what it was given before, in the archive and in the script; a writer that cannot write
     because the storage is full reports it and leaves only whole records readable; a refused key or value leaves earlier and
     later records readable.''',
     ['crash_points', 'fault_sequences'], 'every cut position of the archive; kill after every write; every size limit of the file system',
     'No test injects a crash, a truncation or a full disk.',
     [IO + 'ark_data_writer.py', IO + 'ark_data_reader.py', 'hyperion/utils/kaldi_matrix.py', 'hyperion/utils/kaldi_io_funcs.py', IO + 'h5_data_writer.py'],
     [('short reads', 'hyperion/utils/kaldi_io_funcs.py'), ('flush', IO + 'ark_data_writer.py')],
     'Every truncation point of generated archives, SIGKILL of writer processes and RLIMIT_FSIZE faults; prefix oracle.',
     technique='runtime monitoring with fault injection: truncation at every byte, process kill, storage limits; prefix oracle',
     level='fault_enumeration')

prop('C09', 'Audio and audio segments keep their samples, rates and time limits',
     '''Audio written by the audio writer (any of its file formats, sampling rates, several channels) is read back sequentially, by
     key, in parts or through a pipe command with the same rate and the same samples up to the sample format's resolution and the chosen scale, and the
     samples handed to the writer stay unmodified. When segments are given, each segment read is the stretch of its recording
     between its times, in order, each exactly once, over all parts. A missing recording or segment, a segment that begins after the
     end of its recording, or a failed command is reported as an error.''',
     ['inputs', 'configurations'], 'all signals, rates, formats, segment lists and numbers of parts',
     'Tests read a couple of fixed files.',
     [IO + 'audio_writer.py', IO + 'audio_reader.py', 'hyperion/utils/segment_list.py'],
     [('segment extraction', IO + 'audio_reader.py')],
     'Samples compared with an independent model of the sample formats.')

NOT_APPLICABLE = []

U = 'hyperion/utils/'

prop('C11', 'Script and utterance lists keep lines paired under every operation',
     '''After any history of sorting, shuffling, splitting (also by key or by an information field), merging, filtering and
     filtering out (by key, by position, by file or by an information field), copying, saving and loading, a script list or utterance information list holds
     exactly the expected lines, each key still paired with its own file, offset, row range or information fields;
     operations that return a new list leave the original as it was. Looking up by key or position, membership and equality
     agree with the lines; asking to keep a key that is absent is an error. Sorting orders the keys (or the field), shuffling
     is a permutation repeatable from its seed, and the parts of a list are contiguous, non-empty, balanced and make up the whole with
     no key or group in two parts when so asked. The underlying list functions (membership, sorting, intersection, splitting) return true
     positions into their inputs.''',
     ['histories', 'inputs'], 'all lists (with repeated keys, offsets and row ranges) and operation histories',
     'Tests apply each operation once to one fixed list; mispairings appear in combinations of fields, repeated keys and operations.',
     [U + 'scp_list.py', U + 'utt2info.py', U + 'list_utils.py'],
     [('parallel fields of a list', U + 'scp_list.py'), ('positions', U + 'list_utils.py')],
     'A plain list of tuples models the object; every answer is compared after every operation of random histories.')

prop('C12', 'Trial lists, keys and scores refer to the same pairs in every operation',
     '''After any history of sorting, saving and loading (text, HDF5), filtering, splitting, merging and copying, a trial list, key or score
     matrix says about every (model, segment) pair what it said before: trial or not, target, non-target or neither, its score
     or that it has none; conditions of models, segments and trials follow them. The parts of a split hold every pair once
     and merge back to the whole. Scores aligned with a list or a key, and the target and non-target scores taken with a key, are the
     scores of exactly the asked pairs, in whatever order the sets are stored; a pair without a score is an error, or left
     without one (or with the default score asked for) when so requested. Keeping a model or segment that is absent is an error, inconsistent sets or sizes and non-finite
     scores are refused, and parsing evaluation subsets returns the trials of those subsets.''',
     ['histories', 'inputs'], 'all sets of models and segments in any order, masks, scores and operation histories',
     'The trial tests need data files that are absent here and use sorted sets; misalignment shows only for permuted or partial sets.',
     [U + 'trial_ndx.py', U + 'trial_key.py', U + 'trial_scores.py'],
     [('alignment by names', U + 'trial_scores.py'), ('merging', U + 'trial_key.py')],
     'A dictionary from pairs to values models the object; compared after every operation.')

prop('C13', 'Segment and diarization lists, and the VAD masks from them, keep the times',
     '''After any history of operations (filtering, splitting, merging, copying, saving and loading, reindexing), segment lists and RTTM
     diarization lists hold the same segments with the same files, times, names and other fields, looked up by id, file or position; the parts of a
     list make up the whole; segments out of order or ending before they begin are refused. A binary mask made from segments or a diarization, directly or by the
     command line programs, is one exactly in the frames whose times lie inside a segment, for any frame shift, number of frames, overlap between segments
     and split into parts. Merging adjacent segments joins exactly the consecutive segments of a speaker that
     overlap or are separated by no more than the given gap; counts of speakers, files by number of speakers and names made unique per file
     agree with the segments; cutting overlaps gives half of each to both segments; the names given to other segments are those of everybody who speaks in them, the matrix of a file has ones where each one speaks; a diarization as
     a list of segments has different ids for segments that differ in times.''',
     ['inputs', 'histories', 'configurations'], 'all segment and speaker lists, frame shifts and numbers of frames',
     'Tests cover a single small list and only the methods that worked.',
     [U + 'segment_list.py', U + 'rttm.py', 'hyperion/bin/segments-to-bin-vad.py', 'hyperion/bin/rttm-to-bin-vad.py'],
     [('times to frames', U + 'segment_list.py'), ('merging adjacent segments', U + 'rttm.py')],
     'Interval arithmetic model; frames whose limits fall on a rounding tie are not judged.')

prop('C14', 'Cross-validation folds and train/validation partitions never leak',
     '''Folds and partitions of a list put every (selected) segment in exactly one fold or part; segments of a group are never
     separated when grouping is asked for; each fold or part receives its share of the segments or groups, of each class when balancing is asked for,
     to within one. The train and test lists of a fold are complementary, parts are found by index or name, and this
     stays so after aligning with another order of the keys, copying, saving and loading. Aligning with an absent key is an error, the input lists are not
     modified, and the same seed gives the same folds or parts.''',
     ['inputs', 'configurations'], 'all lists, groups, classes, masks, proportions, numbers of folds and seeds',
     'There are no tests of these modules; leaks depend on sizes of groups and classes.',
     [U + 'fold_list.py', U + 'train_val_eval_list.py'], [('assignment of folds', U + 'fold_list.py')],
     'Partition oracle over random grouped and balanced lists.')

prop('C15', 'Linear algebra and probability helpers agree with their definitions',
     '''Inverses, log-determinants and solvers for positive definite and triangular matrices (left or right, upper or lower factor) agree with the
     definitions, and a matrix that is not positive definite is refused by the log-determinant. Covariance flooring, from the covariance or its factor, with a
     full or scalar floor, returns the matrix whose generalised eigenvalues are floored to one and nothing else. Softmax, log-sum-exp (over any
     axis, the last by default), sigmoid and log-sigmoid are accurate without overflow over the whole range of arrays. Packing symmetric or
     triangular matrices into vectors, with or without diagonal factor, is undone by unpacking. No function modifies its inputs.''',
     ['inputs'], 'all well-conditioned matrices of any dimension and all finite arrays',
     'Tests check one matrix and moderate values; overflow and triangle mix-ups need particular values and options.',
     [U + 'math.py'], [('inversions and factors', U + 'math.py')],
     'Compared with numpy/scipy linear algebra and special functions.')

prop('C16', 'Rows are assigned to tensors, one-hot vectors and gains without mixing',
     '''Stacking rows into a three-dimensional tensor by class or by sequence puts every row with its own class or sequence, in order, pads with
     zeros, marks exactly the real rows with weight one, and keeps the limit of length and the type asked for; sequences are not changed. One-hot vectors have a single one at the
     class. A gain in decibels scales each kind of feature (amplitude, power, and their logarithms) as its definition says, the energy VAD keeps what lies within
     35 dB of the maximum, and words for true and false are understood, others refused.''',
     ['inputs'], 'all class ids, sequence lengths, types, gains',
     'No tests; errors depend on classes with different numbers of rows.',
     [U + 'tensors.py', U + 'misc.py', U + 'math.py'], [('row to class assignment', U + 'tensors.py')],
     'Compared with loops over rows.')

prop('C17', 'Shared generators and queues deliver every item exactly once',
     '''Whatever the scheduling of threads and processes: consumers sharing a thread-safe generator receive together every item once, each in order, and the
     generator never runs in two threads at once. A generator queue delivers items of its source once each, in order for a single worker, never empty ones, does not run ahead of the source by more than its
     size plus what workers hold, and leaves no worker running after it stops; each worker process has its own stream of items and random numbers. The ordered queue delivers every item of each epoch, in
     order (a permutation when shuffling). A source or an item that fails ends the delivery (the ordered queue reports the error) instead of hanging the consumer.''',
     ['schedules', 'histories'], 'all interleavings, numbers of workers, queue sizes, slow or failing sources',
     'No tests; the property is about schedules.',
     [U + 'multithreading.py', U + 'queues.py', 'hyperion/io/queues.py'], [('lock around next', U + 'multithreading.py'), ('queue bounds and stop', U + 'queues.py')],
     'Random delays injected in source and consumers; exactly-once, order and overlap checked on the recorded deliveries.')

prop('C18', 'Detection curves, error rates and minimum costs follow their definitions',
     '''For any target and non-target scores, tied, separated or not: ROC points are the miss and false alarm rates over all thresholds, the ROC convex hull is their lower
     hull, thinning a curve keeps its ends and shape, and EER, precision-recall break-even point, area under the hull and minimum normalised or unnormalised DCF for any priors are the values
     these curves define. DCF of given errors, and the fast joint evaluation of DCF and EER, agree with them. None changes under order of the
     scores or strictly increasing transformations of them, nor modifies its inputs.''',
     ['inputs'], 'all finite score sets, priors and orders',
     'Tests check a couple of Gaussian samples; ties, few scores, perfect separation and the hull corners are not sampled.',
     [M + 'roc.py', M + 'dcf.py', M + 'eer.py', M + 'utils.py'], [('hull by pool adjacent violators', M + 'roc.py'), ('minimum over hull', M + 'dcf.py')],
     'Brute force over all thresholds and hull built independently; metamorphic relations.')

prop('C19', 'Calibration metrics and optimal calibration follow their definitions',
     '''Pool adjacent violators returns the best non-decreasing fit with its blocks; the optimal log-likelihood ratios of scores are monotone in the
     scores, equal for equal scores, and given back in the order of the scores, with or without Laplace rule; Cllr, minimum Cllr, effective prior and
     actual DCF for any priors equal their definitions (a score equal to the threshold is accepted); minimum never exceeds actual cost. Priors not in increasing order are refused by the actual DCF.
     No input is modified.''',
     ['inputs'], 'all finite scores and priors',
     'Tests compare with stored figures of one sample.',
     [M + 'utils.py', M + 'cllr.py', M + 'dcf.py'], [('PAV', M + 'utils.py'), ('optimal LLR', M + 'utils.py')],
     'Definitions evaluated directly; isotonic regression by dynamic optimisation.')

prop('C20', 'Confusion matrices and accuracy count the decisions',
     '''Confusion matrices count each (true, predicted) pair, for integer or string labels, restricted to and ordered as a given subset of labels, weighted by sample weights, normalised by
     row when asked; cross-label matrices do so for two different label sets. Accuracy is the (weighted) fraction or number of right decisions. Printed
     and written tables hold the figures of the matrix in their row and column. No input is modified.''',
     ['inputs'], 'all label arrays, label subsets, weights',
     'Tests hold one small matrix.',
     [M + 'confusion_matrix.py', M + 'acc.py'], [('counting', M + 'confusion_matrix.py')],
     'Compared with loops over samples.')

prop('C21', 'Short-time Fourier transforms invert, and windows have their definition',
     '''The short-time transform of a signal is the DFT of its windowed frames (half of it for the real version), for any frame length, shift, DFT size and window; the
     inverse returns the samples that frames cover, and modified spectra return as the overlap-add of their frames; the frame log-energy is that of the frames. Windows made by
     name are the ones named, of the length asked for. Inputs are not modified.''',
     ['inputs', 'configurations'], 'all signals, frame lengths, shifts, DFT sizes, windows',
     'Tests use one size; uncovered samples, odd lengths and overlaps are not sampled.',
     [F + 'stft.py', F + 'feature_windows.py'], [('framing and overlap-add', F + 'stft.py')],
     'Compared with a frame by frame DFT.')

prop('C22', 'Filter-banks and cepstra are those of the configured definition',
     '''Filter-banks (Kaldi mel, ETSI mel, linear; normalised or not) have the triangles, limits and frequency grid of their definition. Each step of the MFCC
     extraction (framing with or without snip-edges, dither, DC removal, pre-emphasis, window, energy raw or not, spectrum or power spectrum, filter-banks, floor, log, DCT, liftering, energy as C0)
     follows its configuration; extraction started from or stopped at an intermediate representation gives the same result, and does not depend on signals extracted before. The feature program
     writes exactly this, one record per recording, for any number of parts, and its counts of frames are right. Inputs are not modified.''',
     ['inputs', 'configurations', 'histories'], 'all signals and feature configurations',
     'Tests compare shapes or a few stored values of the default configuration.',
     [F + 'filter_banks.py', F + 'mfcc.py', 'hyperion/bin/compute-mfcc-feats.py'],
     [('framing and spectrum', F + 'mfcc.py'), ('triangles', F + 'filter_banks.py')],
     'Every step computed directly in numpy, plus the program as a process.')

prop('C23', 'Feature normalisation, frame selection and energy VAD do what they say',
     '''Normalisation subtracts the mean (and divides by the deviation when asked) of exactly the frames that global, centered, left and right contexts define,
     at any position, any context and any length of features, by all implementations alike. Frame selection keeps exactly the selected frames in order, with a tolerance in length mismatch and an error beyond it. Energy
     VAD decides by threshold on log-energy relative to the mean with the proportion of frames over the context asked for, whatever was processed before, and
     its program writes these decisions, one record per recording, for any number of parts. Inputs are not modified.''',
     ['inputs', 'configurations', 'histories'], 'all features, contexts, tolerances, thresholds',
     'Tests check a few contexts; edges and short inputs differ.',
     [F + 'feature_normalization.py', F + 'frame_selector.py', F + 'energy_vad.py', 'hyperion/bin/compute-energy-vad.py'],
     [('sliding sums', F + 'feature_normalization.py'), ('context vote', F + 'energy_vad.py')],
     'Frame by frame computation of each definition, plus the program as a process.')

T = 'hyperion/transforms/'
D = 'hyperion/pdfs/'

prop('C24', 'Fitted transforms have the statistics they promise, also after loading',
     '''Centring-whitening (and its versions with length normalisation and with variances of the embeddings) gives the weighted training data zero mean and unit covariance along principal directions in order, and
     unit (or square root of the dimension) lengths; PCA, LDA, NDA and NAP have orthonormal (or within-class orthonormal) directions in decreasing order of variance or ratio, with positive first row; MVN standardises; the Gaussianizer
     maps values to the normal quantiles of their rank. Between and within class scatter are those of the classes, whole or accumulated from parts. Parameters that are not to be updated stay. A list (or pipeline) of transforms applies them in order; a
     transform or list that is saved and loaded (as a model or as matrices) transforms alike and keeps its configuration. Inputs are not modified.''',
     ['inputs', 'configurations'], 'all training data, weights, labels, options and lists of transforms', 'No test covers the transforms; scale, small sample and option combinations matter.',
     [T + 'cent_whiten.py', T + 'cent_whiten_up.py', T + 'lnorm.py', T + 'lnorm_up.py', T + 'pca.py', T + 'lda.py', T + 'nda.py', T + 'nap.py', T + 'mvn.py', T + 'gaussianizer.py', T + 'sb_sw.py', T + 'transform_list.py', 'hyperion/pipeline/pipeline.py', 'hyperion/hyp_model.py'],
     [('whitening', T + 'cent_whiten.py'), ('class scatter', T + 'sb_sw.py'), ('lists and files', T + 'transform_list.py')],
     'The defining statistics are computed on the transformed training data; fresh data compared with the direct formula.')

prop('C25', 'Gaussians have one density in every form, and their fit is the ML one',
     '''For full and diagonal Gaussians, natural and standard parameters convert exactly and give the log-density of the multivariate normal; every derived parameter (covariance,
     factor, log-determinant, log-partition) agrees with them after any history of fits. A fit, at once or in batches, from weighted data or added statistics, gives the weighted mean and covariance (with the variance floor of diagonal ones), leaves
     what is not updated, and reports the log-likelihood of train and validation data. Normalised statistics are those of whitened vectors; samples have the right moments
     and repeat with the seed; saved and loaded Gaussians are the same. Inputs are not modified.''',
     ['inputs', 'configurations', 'histories'], 'all parameters, data, weights, batch sizes and sequences of fits', 'Tests check shapes and sampled moments of one configuration.',
     [D + 'core/normal.py', D + 'core/normal_diag_cov.py', D + 'core/exp_family.py', D + 'core/pdf.py'],
     [('natural parameters', D + 'core/normal.py'), ('EM steps', D + 'core/exp_family.py')],
     'Compared with scipy densities and weighted moments.')

prop('C26', 'Gaussian mixtures: right densities, statistics, EM, splits and files',
     '''For mixtures of full, diagonal and tied diagonal Gaussians, standard and natural parameters give the same densities, component posteriors, n-best densities and derived
     parameters, those of the mixture written down by Bayes' rule. Sufficient statistics equal posterior-weighted sums, whatever the batches, weights, segments, soft segments
     or sliding windows; normalised ones are those of whitened vectors. Each EM step gives the maximum of the objective over what is updated (with the variance floor and minimum
     count) and leaves the rest and the parameters given by the user alone; after any history of fits all derived parameters agree, and the reported objectives are those of train
     and validation data. Components split along their deviations keep weight and configuration; samples have the moments of the mixture and repeat with the seed; saved,
     loaded and Kaldi text mixtures are the same. Inputs are not modified.''',
     ['inputs', 'configurations', 'histories'], 'all numbers of components, dimensions, parameters, data, weights, segmentations and sequences of fits',
     'Tests check one mixture of two components, one pass of EM, no weights, and no validation data.',
     [D + 'mixtures/gmm.py', D + 'mixtures/gmm_diag_cov.py', D + 'mixtures/gmm_tied_diag_cov.py', D + 'mixtures/exp_family_mixture.py'],
     [('posteriors and statistics', D + 'mixtures/exp_family_mixture.py'), ('M step', D + 'mixtures/gmm.py')],
     'Compared with scipy densities, explicit posterior sums and an independent M step.')

prop('C27', 'PLDA scores and posteriors are those of the Gaussian model',
     '''For FRPLDA, SPLDA and PLDA with any parameters, the log-likelihood ratios of 1 vs 1, N vs 1 and N vs M trials equal those of the joint Gaussian densities, for each way of pooling samples (by the book, averages of scores, averages of
     vectors with and without length normalisation), from vectors, or from (weighted) statistics. Class posteriors are those of Gaussian conditioning, the objective is the log-likelihood of the data set, and the conditional densities given class
     and channel are right; statistics are the weighted sums, hard or soft. Samples have the between and within class covariances and repeat with the seed; weighted averages of models have the averaged covariances; saved and loaded models score
     alike and keep their configuration. Inputs are not modified.''',
     ['inputs', 'configurations'], 'all parameters, dimensions, trial sets, class assignments and weights', 'Tests compare the formulas among themselves on one model.',
     [D + 'plda/plda_base.py', D + 'plda/frplda.py', D + 'plda/splda.py', D + 'plda/plda.py', 'hyperion/helpers/plda_factory.py'],
     [('scoring', D + 'plda/plda_base.py'), ('class posteriors', D + 'plda/splda.py')],
     'Every score is compared with joint multivariate normal densities of the stacked vectors.')

prop('C28', 'PLDA training is exact EM: the likelihood never decreases',
     '''Training of FRPLDA, SPLDA and PLDA, with hard or soft classes and sample weights, follows the exact EM updates (maximum likelihood, minimum divergence, or both, the latter in the epochs asked for) and reports the
     log-likelihoods of train and validation data of each epoch. With full matrices no epoch decreases the likelihood. Parameters that are not to be updated stay as given while the others are
     the best ones given them; diagonal within-class precisions and the floor of the noise are respected. Training neither modifies the data nor the statistics nor the matrices given by the user; trained models are the same after saving and loading.''',
     ['inputs', 'configurations', 'histories'], 'all data, assignments, weights, subsets of updated parameters and sequences of steps', 'Tests run a few epochs on one data set and compare ranges.',
     [D + 'plda/plda_base.py', D + 'plda/frplda.py', D + 'plda/splda.py', D + 'plda/plda.py', 'hyperion/helpers/plda_factory.py'],
     [('M steps', D + 'plda/splda.py'), ('training loop', D + 'plda/plda_base.py')],
     'An independent EM on full joint covariances runs in parallel, and its likelihood is that of joint normal densities.')

prop('C29', 'Linear Gaussian back-ends: ML and MAP estimates and predictive scores',
     '''The linear Gaussian back-end with hard or soft labels, sample weights, balanced classes or not, priors (objects or files) with prior and posterior strengths, learns the MAP (or ML) means and precision, leaves what is not to be
     updated, and scores with the linear function, the Gaussian density or the predictive Student density, normalised on request. The one with uncertainty propagation
     subtracts the average uncertainty from the covariance and adds that of each vector when scoring; Q-scoring multiplies posteriors of enrolment and scores with the ratio of evidences. Saved and loaded back-ends score alike. Inputs are not modified.''',
     ['inputs', 'configurations'], 'all data, labels, weights, priors and options', 'No test covers these classifiers.',
     ['hyperion/classifiers/linear_gbe.py', 'hyperion/classifiers/linear_gbe_up.py', 'hyperion/classifiers/q_scoring_homo_gbe.py'],
     [('MAP estimation', 'hyperion/classifiers/linear_gbe.py'), ('uncertainty', 'hyperion/classifiers/linear_gbe_up.py')],
     'Compared with independent conjugate updates, scipy densities and numeric integration.')

prop('C30', 'Logistic regression, SVM and calibration minimise their objectives',
     '''Multi-class and binary logistic regression reach the minimum of the prior-weighted, sample-weighted regularised loss, with and without (scaled) bias; the linear SVM that of the squared hinge loss with sample and class weights. Their scores
     do not include the priors and posteriors do; log-posteriors are the logarithms of the posteriors; equal seeds give equal models. Gaussian calibration gives the log-likelihood ratio
     of two Gaussians with the weighted means and pooled variance of the classes. Saved and loaded classifiers keep configuration and scores. Inputs are not modified.''',
     ['inputs', 'configurations'], 'all data, priors, weights and options', 'No test covers these classifiers.',
     ['hyperion/classifiers/logistic_regression.py', 'hyperion/classifiers/binary_logistic_regression.py', 'hyperion/classifiers/linear_svmc.py', 'hyperion/calibration/gauss_calibration.py'],
     [('priors as weights', 'hyperion/classifiers/logistic_regression.py'), ('posteriors', 'hyperion/classifiers/linear_svmc.py')],
     'The objective at the fit is compared with the minimum found by an independent optimiser.')

prop('C31', 'Score normalisations are those of the cohort statistics',
     '''T-norm, Z-norm, TZ-norm, ZT-norm and S-norm subtract the mean and divide by the (floored) deviation of the right cohort scores, using only the cohort trials that the masks allow; adaptive S-norm uses the best allowed cohort scores of each model and test
     after discarding the first ones. Results do not depend on the order of trials or cohort; T-norm (Z-norm) undoes affine changes of the scores of a test (model). The
     scores, cohort scores and masks given are not modified.''',
     ['inputs', 'configurations'], 'all score matrices, cohorts, masks, floors and numbers of selected scores', 'No test covers score normalisation.',
     ['hyperion/score_norm/score_norm.py', 'hyperion/score_norm/t_norm.py', 'hyperion/score_norm/z_norm.py', 'hyperion/score_norm/tz_norm.py', 'hyperion/score_norm/zt_norm.py', 'hyperion/score_norm/s_norm.py', 'hyperion/score_norm/adapt_s_norm.py'],
     [('masks', 'hyperion/score_norm/t_norm.py'), ('cohort selection', 'hyperion/score_norm/adapt_s_norm.py')],
     'Compared with loops over single trials; metamorphic permutations and scalings.')

prop('C32', 'Clusters are those of the definition, for every cut of the tree',
     '''Agglomerative clustering of log-likelihood ratios, probabilities or distances joins the pair of clusters with best average, single or complete linkage at each step, never masked pairs before allowed ones; cutting by threshold or by number
     of clusters gives the partition after the joins that pass the threshold or reach the number, before and after precomputing flat clusters, and after other fits; the impurities are those of each partition. K-means assigns each point to its nearest centroid, its loss
     never increases, converged centroids are the means of their clusters, empty clusters stay finite, separated groups are found, and prediction repeats the assignment. Inputs are not modified.''',
     ['inputs', 'configurations', 'histories'], 'all score matrices, masks, linkages, thresholds and data sets', 'No test covers clustering.',
     ['hyperion/clustering/ahc.py', 'hyperion/clustering/kmeans.py'],
     [('flat clusters', 'hyperion/clustering/ahc.py'), ('centroids', 'hyperion/clustering/kmeans.py')],
     'Compared with a naive agglomeration on member lists and brute-force distances.')

H = 'hyperion/helpers/'
prop('C33', 'Readers of labelled vectors and trials keep vectors, labels and trials together',
     '''A vector reader returns the vectors of the listed keys in list order, after the given transforms. The class reader pairs each vector with the number of its own class (alphabetical, or that of the class file), keeps classes with enough samples,
     prunes the excess (first, last or random) and splits big classes in order or at random into sub-classes of at most the maximum size, of one original class each, without repeated vectors in one, reproducibly per seed, once or at each reading;
     its three-dimensional form, its counts and names describe the same data. Trial readers give the enrollment vectors with their models, the test vectors (or sub-segments with their original segment) and the trials of the evaluation set chosen; the parts by models and segments
     cover every trial once. Options parsed from the command line, with or without prefix, act as the same keyword arguments. The HDF5 reader below returns for each key its array, slice or random slice.''',
     ['inputs', 'configurations'], 'all tables, lists, class sizes, pruning and splitting options, evaluation sets and parts', 'Tests try one small data set and do not cover trials or parts at all.',
     [H + 'vector_reader.py', H + 'vector_class_reader.py', H + 'trial_data_reader.py', H + 'multi_test_trial_data_reader.py', H + 'classif_trial_data_reader.py', 'hyperion/utils/tensors.py', 'hyperion/io/hyp_data_reader.py'],
     [('splitting of classes', H + 'vector_class_reader.py'), ('parts of trials', H + 'trial_data_reader.py')],
     'Each returned row is recognised in the table that was written (all rows differ), and its class, model or segment looked up there.')

prop('C34', 'Sequence readers serve every sequence as often as they announce',
     '''In each epoch a sequence reader serves whole sequences, consecutive pieces with the configured overlap, random slices or random samples, one per sequence or as many as fit: only sequences or remainders of at least the minimum length, each no more
     often than announced, all but fewer than one batch, in list order unless shuffled. Every piece consists of frames of the named sequence, contiguous and of the right length, every position can be drawn, and comes with the class of that sequence and the posteriors of those
     same frames; the padded form marks exactly the frames. Announced lengths, sub-sequences and batches are those of the data, before and after shuffling; two readers with one seed agree; parts cover the list.''',
     ['inputs', 'configurations', 'histories'], 'all sequence lengths, split modes, overlaps, minimum and maximum lengths, batch sizes and numbers of epochs', 'Tests use ten long sequences in one configuration per mode; edge lengths, exhaustion and posteriors are untested.',
     [H + 'sequence_reader.py', H + 'sequence_class_reader.py', H + 'sequence_post_reader.py', H + 'sequence_post_class_reader.py', 'hyperion/utils/tensors.py'],
     [('sub-sequences', H + 'sequence_reader.py'), ('posteriors of frames', H + 'sequence_post_reader.py')],
     'Rows carry the number of their sequence and frame, so that every served frame is identified.')

GN = 'hyperion/generators/'
prop('C35', 'Batch generators draw their batches from the listed sequences as configured',
     '''Batches of the sequence generator (whole sequences, random pieces, consecutive pieces) visit the listed sequences in turn - all equally often, or as often as their length requires when unbalanced -, with pieces inside the sequence, between the minimum and maximum length, consecutive ones following
     each other; batches of the class generator hold the configured numbers of examples per utterance and class, and any class, utterance and position can be drawn. Names, frames, classes, utterance labels and padding weights in a batch belong together. Pruning removes just the short sequences, balancing
     repeats sequences so that no class is smaller than allowed, lengths follow the names, parts cover the list once. The number of steps of an epoch is the announced one; an epoch depends only on the seed and its number, so that a generator started at it continues the same, and epochs are equal when the seed is
     reset.''',
     ['inputs', 'configurations', 'histories'], 'all lists, lengths, classes, methods, limits, overlaps, batch sizes, balancing, parts and epochs', 'Tests read a few epochs of one data set and mostly check shapes.',
     [GN + 'sequence_batch_generator_v1.py', GN + 'sequence_batch_generator_v2.py', 'hyperion/utils/utt2info.py'],
     [('batches by sequence', GN + 'sequence_batch_generator_v1.py'), ('batches by class', GN + 'sequence_batch_generator_v2.py')],
     'Rows carry the number of their sequence and frame; counts and positions of an epoch are compared with an independent model.')

B = 'hyperion/bin/'
prop('C36', 'Command-line tools of models give what their classes give on the listed data',
     '''The tools that train transforms (centering and whitening, mean and variance, PCA, LDA, NDA, Gaussianizer), linear classifiers, SVM, logistic regression and PLDA save the model that the class fits to just the listed vectors, with their preprocessing if asked to append it. Scores written by the tools that evaluate
     classifiers, PLDA or cosine are, for each model and segment name in the lists, those of the class on the vectors with these names, enrolments of several vectors included; trials not listed are not scored. Score normalisation finds rows and columns by name, whatever the order of the files; error rates are those of the
     listed targets and non-targets; evidence and leading posteriors of Gaussian mixtures are those of the listed sequences, for models of this toolkit and of Kaldi. The tools run with any consistent set of their options, and write files also to the current or to new directories.''',
     ['inputs', 'configurations'], 'all lists, data, orders of names, options and file formats', 'No test runs any command-line tool; most did not even start.',
     [B + 'train-cw.py', B + 'train-lda.py', B + 'train-nda.py', B + 'train-plda.py', B + 'eval-plda-1vs1.py', B + 'eval-plda-nvs1.py', B + 'train-linear-gbe.py', B + 'eval-linear-gbe.py', B + 'eval-score-norm.py', B + 'eval-2class-performance.py', B + 'eval-elbo-ubm.py', B + 'compute-gmm-post.py', B + 'init-ubm.py'],
     [('training from lists', B + 'train-plda.py'), ('scores by name', B + 'eval-plda-1vs1.py'), ('normalisation of files', B + 'eval-score-norm.py')],
     'Each run of the real tool, in process or as a program, is compared with classes and plain numpy on the data of the lists.',
     'runtime monitoring: reference-model oracle over runs of the command-line tools')

prop('C37', 'Converters and feature tools keep every record, its name, values and times',
     '''Kaldi archives converted to HDF5, merged HDF5 files and vectors turned to scores hold each record of the inputs once, under its name, with its values, for any chunk size; tables for the language recognition evaluations hold the score of each listed segment and class, and the missing value for those without.
     Frame decisions turned to time intervals cover exactly the frames, with the times at which they start and end. The reader of Kaldi archives gives records by name and in sequence, from any position and to the end, each once. The feature tools write for each recording of their part what the feature object gives for the
     scaled signal, also when the extraction is divided into steps with files between them; frame decisions follow the reference segments or the energy as their object says.''',
     ['inputs', 'configurations'], 'all records, names, chunk sizes, formats, divisions in parts and steps', 'No test runs these tools.',
     [B + 'ark2hyp.py', B + 'arkvad2nist.py', B + 'h5vad2nist.py', B + 'merge-h5-files.py', B + 'vectors2scores.py', B + 'scores2lre_format.py', B + 'compute-mfcc-feats.py', B + 'compute-energy-vad.py', IO + 'kaldi_data_reader.py', IO + 'h5_merger.py'],
     [('Kaldi archives', IO + 'kaldi_data_reader.py'), ('time intervals', B + 'arkvad2nist.py'), ('steps of features', B + 'compute-mfcc-feats.py')],
     'Files written by an independent encoder are given to the real tools and what they write is decoded and compared record by record.',
     'runtime monitoring: reference-model oracle over runs of the command-line tools')

prop('C38', 'Every command-line option reaches the object that it configures, and no other',
     '''When a class of readers, writers, features, transforms, classifiers, PLDA or batch generators adds its options to a parser, with or without prefix, and takes them back from the parsed arguments, each option given arrives under the name of its parameter with the value given; options of other objects in the same parser, also
     of the same class with another prefix, neither change it nor are taken. Options not given have a default that does not depend on the others, that of the class except for the documented choices of the tools; arguments of which only some are present give just these. The object made with them has these values.''',
     ['inputs', 'configurations'], 'all classes with options, all subsets and values of the options, and combinations of prefixes', 'No test parses a command line.',
     [H + 'plda_factory.py', H + 'sequence_reader.py', H + 'vector_class_reader.py', F + 'mfcc.py', F + 'energy_vad.py', IO + 'data_rw_factory.py', IO + 'copy_feats.py', 'hyperion/transforms/pca.py', 'hyperion/classifiers/linear_gbe.py'],
     [('options with prefix', 'hyperion/transforms/pca.py'), ('inverted flags', H + 'plda_factory.py'), ('boolean values', F + 'mfcc.py')],
     'Random command lines are parsed by the real code and compared with the literal table of options of each class.')

T = 'hyperion/torch/'
K = 'hyperion/keras/'

prop('C39', 'Learning rates follow the schedule and warm-up that was configured',
     '''After every step of a training the rate of each group of parameters is that of the definition. During warm-up it grows linearly with the batches from the minimum to the initial rate; then exponential schedules hold it and decay it per epoch or per batch down to the minimum; cosine schedules anneal it from the
     initial rate to the minimum and stay there, or restart with their period multiplied and their maximum scaled at each restart, a period counted in batches being whole epochs; the plateau schedule reduces it by the factor, not below the minimum, when the metric did not improve by the threshold for more epochs than the
     patience, not counting those of the cooldown. The factory makes the schedule that is named with the options given, wrong settings are refused, and a schedule restored from its saved state, or told the counts of the one it continues, goes on as if it had never stopped.''',
     ['histories', 'configurations'], 'all schedules, options, groups, numbers of batches and epochs, sequences of metrics, and points of restoring', 'No test covers the training code.',
     [T + 'lr_schedulers/lr_scheduler.py', T + 'lr_schedulers/exp_lr.py', T + 'lr_schedulers/cos_lr.py', T + 'lr_schedulers/red_lr_on_plateau.py', T + 'lr_schedulers/factory.py'],
     [('warm-up', T + 'lr_schedulers/lr_scheduler.py'), ('restarts', T + 'lr_schedulers/cos_lr.py'), ('patience and cooldown', T + 'lr_schedulers/red_lr_on_plateau.py')],
     'The rates after every event of random trainings against a state machine written from the documentation, with saved states taken up by new objects; torch, which is not installed, is replaced by a stand-in on numpy.')

prop('C40', 'Training runs every epoch, logs true averages and resumes where it stopped',
     '''Training takes each batch of each epoch once and in order, in training mode, updates the parameters as the optimizer and the schedule say, and evaluates the validation data without gradients and without changing the model. What it logs for an epoch are the averages over all samples, whatever the sizes of the
     batches; loggers are told of every begin and end in order; the table of the csv logger has one row for each epoch, on disk as soon as it is over, also when it is appended to; the lines of the progress logger hold the figures they name. After each epoch a checkpoint is written; a training that dies at any batch and is
     taken up from its last checkpoint ends with the same parameters, logs and table as one that did not. Categorical and binary accuracies are the weighted fraction, sum or list of right decisions.''',
     ['histories', 'crash_points', 'inputs'], 'all models, data, batch sizes, schedules, loggers, and batches at which the training dies', 'No test covers the training code; a resumed training has to be compared with an uninterrupted one.',
     [T + 'torch_trainer.py', T + 'loggers/loggers.py', T + 'loggers/csv_logger.py', T + 'loggers/prog_logger.py', T + 'utils/metric_acc.py', T + 'metrics/accuracy.py', T + 'metrics/accuracy_functional.py'],
     [('epochs and checkpoints', T + 'torch_trainer.py'), ('running averages', T + 'utils/metric_acc.py'), ('appending', T + 'loggers/csv_logger.py')],
     'Trainings of linear models with injected deaths against a reference in numpy, a recording logger whose trace is compared with the one expected, and the files that are left; torch is replaced by a stand-in on numpy.')

prop('C41', 'Networks, activations and optimizers are those of their options',
     '''An activation made by name or from a configuration is the function named, with its options, and the configuration of an activation makes the same again. The optimizer factory makes the optimizer named, on the parameters and with each option given, also when they come from the command line. A fully connected
     network normalises, applies the linear layer, the activation and dropout in each layer, and the output layer with what was asked for it; in evaluation it is deterministic and changes nothing, and the network made from its configuration with its parameters computes the same. One-dimensional dropout drops whole
     channels in training only; a saved model file holds configuration and parameters.''',
     ['inputs', 'configurations'], 'all activations, optimizers, options, sizes of networks and inputs', 'No test covers the training code.',
     [T + 'helpers/activation_factory.py', T + 'helpers/optimizer_factory.py', T + 'archs/fcnet.py', T + 'layers/dropout.py', T + 'torch_model.py', T + 'transforms/reshape.py'],
     [('configuration of activations', T + 'helpers/activation_factory.py'), ('order of the layers', T + 'archs/fcnet.py')],
     'Outputs against numpy formulas computed from the parameters, options against a literal table, round trips of configurations; torch is replaced by a stand-in on numpy whose modules have the documented forward.')

prop('C42', 'Keras layers compute the statistics, posteriors and likelihoods they name',
     '''Pooling layers compute the weighted mean, deviation, variance, maximum, log-variance or the residuals to the centres of a dictionary of the frames of a sequence; frames of weight zero do not exist for them, whatever they hold. Posterior pooling layers give the natural parameter and precision, or mean and variance in
     the format asked, of the product of the posteriors of the frames each divided by the prior, for all formats of input and output, penalties and minimum variances. Samplers draw each row on its own from the distribution given, tied ones every frame of a sequence from the same distribution, or one sample for all frames if asked; likelihoods, divergences and scores are the closed formulas of
     their distributions, summed or averaged over the dimensions and frames the options name, with full, diagonal or constant covariances. The shape a layer announces is that of its output, its configuration makes the same layer again, and a saved and loaded model computes the same.''',
     ['inputs', 'configurations', 'histories'], 'all layers, formats, options, lengths, masks and weights', 'No test covers the keras code.',
     [K + 'layers/' + f + '.py' for f in ('pooling', 'masking', 'sampling', 'scoring', 'core', 'cov', 'feats', 'losses', 'tensor_manipulation', 'advanced_activations')] + [K + f for f in (
      'losses.py', 'objectives.py', 'constraints.py', 'keras_utils.py', 'backend_addons/theano_backend.py', 'backend_addons/tensorflow_backend.py')],
     [('frames of weight zero', K + 'layers/pooling.py'), ('posterior formats', K + 'layers/pooling.py'), ('once per sequence', K + 'layers/sampling.py')],
     'Each layer on random frames, masks and weights against numpy formulas, statistics of many samples within bounds of their standard errors, and round trips of configurations and models; keras, which is not installed, is replaced by a stand-in on numpy.')

prop('C43', 'Sequence embeddings do not depend on chunks or padding and survive saving',
     '''The embedding of a sequence of any length, deterministic or a posterior distribution in the format asked, is computed from all its frames but those of the begin and end contexts, each encoded with the left and right context asked, as if the sequence had been encoded at once; frames beyond its end and padding in
     training change nothing. It is what the layers named give for the pooled statistics; evaluation gives the log-posteriors or scores of the classes. Time-delay networks are the stack of normalisation, convolution, activation and, in training, dropout, plain or residual, with the kernel sizes and dilations given, and return the context that
     they see. A saved model loads with its class, options and weights and gives the same embeddings, the last checkpoint up to an epoch is the one found, command-line options reach the model, and the tools write one record for each sequence.''',
     ['inputs', 'configurations', 'histories'], 'all networks, downsampling rates, lengths, contexts, poolings, formats and layers', 'No test covers the keras code.',
     [K + 'archs/ffnet.py', K + 'archs/tdnn.py', K + 'embed/seq_embed.py', K + 'embed/seq_embed_lde.py', K + 'embed/seq_q_embed.py', K + 'vae/tied_dvae_qy.py', K + 'vae/tied_sup_vae_qyqzgy.py', K + 'keras_model_loader.py', 'hyperion/bin/keras-extract-seq-embed.py', 'hyperion/bin/keras-eval-seq-embed.py', 'hyperion/bin/keras-extract-seq-q-embed.py', 'hyperion/bin/keras-eval-seq-q-embed.py', 'hyperion/bin/keras-extract-tied-vae-embed.py'],
     [('chunks', K + 'embed/seq_embed.py'), ('frames of a posterior', K + 'embed/seq_q_embed.py'), ('checkpoints', K + 'keras_model_loader.py')],
     'Random encoders and sequences of up to dozens of chunks against one pass over the whole sequence and numpy formulas of pooling and networks; models saved, loaded and run by the tools; keras is replaced by a stand-in on numpy.')

prop('C44', 'Keras training minimises what is configured and its callbacks follow it',
     '''A model compiled for training minimises the sum of the losses of its outputs with the weights given: the cross-entropy or expected error of the classes, the negative log-likelihood of the features, and the divergences of the posteriors; fit hands over the data with a target for each output, also for validation, and
     just the layers that were named are frozen. The optimizer and callbacks are those of the options, given as arguments or on the command line: the learning rate changes at the epochs of its steps, is reduced, not below the minimum, after patience epochs without the minimum improvement and, if asked, increased after as
     many epochs that improved, not counting those of the cooldown; training stops after patience epochs without improvement; every epoch, or every time the metric is the best so far in the mode asked, the model is saved under the name of the epoch or of the best; the table has one row for each epoch and is appended to if asked.''',
     ['histories', 'configurations', 'inputs'], 'all models and losses, optimizers, options, sequences of metrics and epochs', 'No test covers the keras code.',
     [K + 'callbacks/lr_schedulers.py', K + 'callbacks/checkpointers.py', K + 'helpers/callbacks_factory.py', K + 'helpers/optimizer_factory.py', K + 'embed/seq_embed.py', K + 'embed/seq_embed_lde.py', K + 'embed/seq_q_embed.py', K + 'vae/tied_dvae_qy.py', K + 'vae/tied_sup_vae_qyqzgy.py'],
     [('increase and reduction', K + 'callbacks/lr_schedulers.py'), ('best so far', K + 'callbacks/checkpointers.py'), ('losses', K + 'vae/tied_sup_vae_qyqzgy.py')],
     'The events of random trainings are sent to the callbacks, and rates, files and tables compared with state machines written from the documents; the losses a model was compiled with are evaluated on random data against formulas in numpy; keras is replaced by a stand-in on numpy.')

prop('C45', 'Shell scripts on data directories keep all the files consistent',
     '''fix_data_dir.sh leaves in all the files of a Kaldi data directory, also the extra ones named, the utterances, speakers and recordings that the required files have, in order and once, with what the lines said, keeps the old files, changes nothing when run again, and fails when nothing is left. combine_data.sh
     puts the lines of all the sources, in order, in the files that all of them have, makes the segments and unique names of sources without them if another has them, discards what was in the destination and leaves the sources alone. subset_data_dir.sh takes the first, last, shortest or any n utterances, n, or all it has if less, of each speaker,
     whole speakers up to n utterances, or those of a list of speakers or utterances, and refuses more than there are; every file of the subset has just the lines of those. The remove scripts leave the utterances longer than the minimum, those of speakers with at least the minimum number of utterances, or those with a speech mask.
     filter_trials.awk leaves the trials of the models and utterances listed. The bin-vad scripts store the mask of every recording whatever the number of jobs.''',
     ['inputs', 'configurations'], 'all data directories, options, lists and numbers of jobs', 'No test runs the scripts.',
     ['hyp_utils/fix_data_dir.sh', 'hyp_utils/combine_data.sh', 'hyp_utils/subset_data_dir.sh', 'hyp_utils/remove_short_utts.sh', 'hyp_utils/remove_spk_few_utts.sh', 'hyp_utils/remove_utts_wo_vad.sh', 'hyp_utils/filter_trials.awk', 'hyp_utils/segments_to_bin_vad.sh', 'hyp_utils/rttm_to_bin_vad.sh'],
     [('utterances that all the files have', 'hyp_utils/fix_data_dir.sh'), ('selection of utterances', 'hyp_utils/subset_data_dir.sh'), ('parallel jobs', 'hyp_utils/segments_to_bin_vad.sh')],
     'The scripts are run on random directories with missing, repeated and disordered lines, as an unprivileged user in a scratch directory, and all the files they leave are compared with a model of the directory in python; stand-ins replace the few small scripts of Kaldi they call.')

prop('C46', 'Keras embedding training tools train on their data and resume where they died',
     '''The tools that train x-vectors (by utterances, by classes, with dictionary pooling) and posterior embeddings (q-embeddings, tied discriminative and supervised VAEs) with keras hand to the training, for every epoch, the batches that the generator of the options gives for the training list, transformed, with as many frames as the longest sequences of training and validation, and with a target for every class (in the supervised VAE, also the frames to rebuild and weights that leave the padding out), and
     validate on the other list after each epoch, or do not if there is none. They start from the architectures or from the initial model, freeze just what was named, minimise the losses asked, with the weights asked for each, with the optimizer asked, write the table, store the model of every epoch or the best one, and at the end the final one, which loads with the same class, options and weights.
     Run again with every epoch stored, after dying at any epoch, they go on with the weights of the last epoch stored and from the epoch after it, and no epoch is repeated or left out.''',
     ['inputs', 'configurations', 'crash_points', 'histories'], 'all lists, generators, options, initial models, and epochs at which trainings die', 'No test covers the keras code.',
     ['hyperion/bin/keras-train-cat-seq-embed-gen-v1.py', 'hyperion/bin/keras-train-cat-seq-embed-gen-v2.py', 'hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py', 'hyperion/bin/keras-train-cat-seq-q-embed.py', 'hyperion/bin/keras-train-cat-tied-dvae.py', 'hyperion/bin/keras-train-cat-tied-sup-vae.py', K + 'keras_model_loader.py', K + 'embed/seq_embed.py', K + 'embed/seq_embed_lde.py', K + 'callbacks/checkpointers.py'],
     [('last checkpoint', K + 'keras_model_loader.py'), ('training', 'hyperion/bin/keras-train-cat-seq-embed-gen-v1.py')],
     'The tools are run on random data with a recorder in the place of the optimisation of keras: it takes the batches, changes the weights, tells the callbacks and may die at an epoch; what it saw and the files left are compared with the generators, the options and the weights of each epoch; keras is replaced by a stand-in on numpy.')

prop('C47', 'Programs get GPUs that are free',
     '''free-gpu names as many different GPUs as asked, one if not said, that nvidia-smi shows and on which it shows no process, or -1 and fails when the machine has not so many, free or at all. torch.sh runs the program with just the arguments given, after reading path.sh, in the conda environment named, with the GPUs that free-gpu, found in the path or
     in hyp_utils, names visible when it is asked for some, and without touching what is visible otherwise, and ends as the program does. open_device makes visible the GPUs given, or as many as asked that free-gpu names, or the first one if there is no free-gpu, and says whether the device is a GPU; reserve_gpu makes visible one that is free.''',
     ['inputs', 'configurations'], 'all machines, numbers of GPUs, tables of processes, arguments and environments', 'No test runs the scripts nor has GPUs.',
     ['hyp_utils/free-gpu', 'hyp_utils/torch.sh', T + 'utils/devices.py', K + 'backend_addons/tensorflow_backend.py'],
     [('free GPUs', 'hyp_utils/free-gpu'), ('environment of the program', 'hyp_utils/torch.sh')],
     'The scripts are run, unprivileged, with stand-ins for lspci, nvidia-smi, conda and python that describe random machines and record what they were given; torch and keras are stand-ins on numpy.')

#MORE


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    P.sort(key=lambda p: p['id'])
    with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                why_tests_cant=p['why'], anchors=dict(files=p['files'],
                                                      mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                                                      hook_needed=None))) + '\n')
    na = {p for p, _ in NOT_APPLICABLE}
    m = dict(version=1, setup_cmd='bash setup.sh',
             checks=[dict(property=p['id'], quick_cmd='bash check.sh %s --tier quick' % p['id'],
                          thorough_cmd='bash check.sh %s --tier thorough' % p['id'],
                          evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level=p['level'],
                          level_note=p['note']) for p in P if p['id'] not in na],
             not_applicable=[dict(property=p, reason=r) for p, r in NOT_APPLICABLE],
             notes='Findings and repairs are listed in KNOWN_FINDINGS.txt; see DESIGN.md.')
    json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
