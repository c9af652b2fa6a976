# Per-property configuration of the checks (see check.py).
CHECKS = {}
NOT_APPLICABLE = {}
CHECKS['C05'] = dict(
    src=['c05_codec.cc'], lib=False,
    bounds='all weakly ascending lists up to length 4 (64-bit: 3) over all 7-bit-group boundary values of 16/32/64-bit indices; all 65536 16-bit values alone and as a gap; all power-of-two gap pairs; list lengths 0..300',
    bounds_thorough='as quick with lists up to length 5 at every width',
    rule='one case = one ascending list at one width, encoded, compared with the reference coder, decoded from an exactly sized buffer, appended to other codes; distinct = distinct (width, code bytes)',
    assumptions=['values between the enumerated group boundaries behave like their neighbours'],
)
CHECKS['C04'] = dict(
    src=['c04_binary.cc'],
    bounds='all sequences of <=4 records over a 12-record alphabet (label/index/value extremes); every byte truncation of all files of <=3 records; records of 0..5000 features between two others, cut at every byte; every record of 1-2 features over 9 indices x 10 values x 4 labels, alone and between others; labels around every power of two',
    bounds_thorough='sequences of <=5 records; truncation of all files of <=4 records and of records up to 5000 features',
    rule='one case = one record sequence, written by the real writer, read twice plus after a rewind, then cut at every byte and read again; distinct = distinct read-back contents and (whole records, status, offset) of cuts',
    assumptions=['a crash leaves a prefix of the file (no reordered or corrupted blocks)'],
)
CHECKS['C03'] = dict(
    src=['vpsched.cc'], src_instr=['c03_queue.cc'], std_pass=True, lib=False, mode='sched',
    bounds='all programs of 2 threads with <=2 operations each and of 3 threads with 1,1,1 and 2,1,1 operations over 10 queue operations, capacities 1-3 (2,1,1: 1-2); every interleaving with <=2 preemptions and <=1 spurious wakeup; programs of <=3 operations, capacities 1-2, also on the std::thread build; four threads of one operation, <=1 preemption; all sequences of <=4 operations with lists of up to 12 on capacities 4-100; 20 long producer/consumer pairs on capacities 1-16, <=1 preemption',
    bounds_thorough='as quick with <=3 preemptions and capacity 3 everywhere',
    rule='one case = one program; its schedules are enumerated depth-first on the real queue; every history is checked against a sequential bounded FIFO (linearisability) and every final blocked state against the disabled operations; distinct = distinct histories',
    assumptions=['scheduling points at synchronisation operations only, which is complete for race-free code (races are detected on every schedule)', 'sequentially consistent memory'],
)
CHECKS['C01'] = dict(
    src=['vpsched.cc'], src_instr=['c01_iter.cc'], std_pass=True, mode='sched',
    bounds='1 source: 5 formats x 0-3 records x 0-2 passes x malformed position x batch size 1-3 x buffers 1-3 x caller holding a batch or not, every interleaving with <=4 (large, malformed: 3) preemptions; 2 sources, 3 sources and sources added after the end or after 0-3 batches: 0-2 records each, <=3 preemptions; 1-2 sources with <=1 preemption and <=2 spurious wakeups; all with <=2 preemptions also on the std::thread build; streams of 7-300 records x 1-5 passes x batches of 1-1000 x 1-8 buffers and 4-6 sources, switching only where a thread must wait',
    bounds_thorough='as quick with 0-4 records, 0-3 passes and one preemption more',
    rule='one case = one scenario (sources, passes, batch size, buffers, caller behaviour); all its schedules are enumerated on the real iterator and readers; each must deliver the expected record sequence, without deadlock, race, use after free or leak; distinct = distinct (scenario, batch boundaries, delivered records)',
    assumptions=['scheduling points at synchronisation operations only, which is complete for race-free code (races are detected on every schedule)', 'sequentially consistent memory', 'file reads themselves do not fail'],
)
CHECKS['C02'] = dict(
    src=['vpsched.cc'], src_instr=['c02_release.cc'], std_pass=True, mode='sched',
    bounds='1 source: 5 formats x 1-3 records x 1-2 passes x batch size 1-2 x buffers 1-3, released after 0-5 calls holding 0-2 batches, <=4 preemptions; 3 sources of 0-2 records, released after 0-5 calls, <=3 preemptions; malformed and no sources; 1-2 sources with <=1 preemption and <=2 spurious wakeups; all with <=2 preemptions also on the std::thread build; 6-40 records x 4-8 buffers x released after 0-122 calls holding 0-4, and 4-6 sources, switching only where a thread must wait',
    bounds_thorough='as quick with 1-5 records, all combinations for all formats, <=5 preemptions',
    rule='one case = one scenario; all its schedules are enumerated on the real iterator; release must return in each, with all reader threads ended, all blocks and files released, no race or use after free; distinct = distinct (scenario, batches received)',
    assumptions=['scheduling points at synchronisation operations only, which is complete for race-free code (races are detected on every schedule)', 'sequentially consistent memory'],
)
CHECKS['C06'] = dict(
    src=['c06_text.cc'],
    bounds='all lines up to 7 characters over 6 significant characters and up to 6 over 6 others, libsvm and CSV; ~450 number spellings and 29 non-numbers in every field position; all orders of up to 7 features and 6 order patterns of up to 3000; line lengths 4090-4102, 8186-8198, 16378-16390 in 3 shapes; all files of <=3 lines over 7 lines with every rewind position; each with and without final newline; every byte value inserted and substituted at every position of sample lines',
    bounds_thorough='as quick with lines up to 8/7 characters, 8 features, files of 4 lines',
    rule='one case = one line prefix (all its continuations), one number in every position, one file; every line is judged by an independent grammar as must-accept (with the record), must-reject or unspecified; distinct = distinct parsed records and statuses',
    assumptions=['unspecified: labels and indices written as 1.0 or 1e2, index 0, repeated indices, values outside the normal single-precision range'],
)
CHECKS['C07'] = dict(
    src=['c07_tools.cc'], tools={'concat': 'tools/concat.cc', 'converter': 'tools/converter.cc', 'shuffle': 'tools/shuffle.cc', 'split': 'tools/split.cc', 'analyze': 'tools/analyze.cc'},
    bounds='all data sets of <=3 records over a 6-record alphabet x analyse / convert (with 4 binarisations) / shuffle (4 seeds) / split (1-5 folds, shuffled or not) x all 9 format pairs; C interface and executables on a subset; concatenation of 3 files of 0-2 records; 254-700 records around the batch size; every split of 1-40 records into 1-45 folds; large indices',
    bounds_thorough='as quick with data sets of <=4 records, more executables and concatenations of files of 0-3 records',
    rule='one case = one data set; every tool is run on it for every format pair and the output, read back, is compared record by record with the input; distinct = distinct outputs',
    assumptions=['the seed of the shuffling is enumerated by replacing std::random_device', 'conversion to CSV needs at least one feature in the data', 'reading back relies on the readers (C04, C06)'],
)
CHECKS['C22'] = dict(
    src=['c22_write.cc'], tools={'sol_test': 'tools/sol_test.cc', 'concat': 'tools/concat.cc', 'converter': 'tools/converter.cc', 'shuffle': 'tools/shuffle.cc', 'split': 'tools/split.cc', 'analyze': 'tools/analyze.cc', 'sol_train': 'tools/sol_train.cc'},
    bounds='convert, shuffle, split (1-3 folds), analyse (C++ and C interface, 9 format pairs, 1, 3 and 700 records) and saving of 24 algorithms x 2 and 3 classes: storage refusing writes after byte N for every N from 0 to the output size (outputs of 700 records, large models, C-interface saves and executables: every N around each 4096-byte boundary and the sizes); missing directory, directory as output, full device',
    bounds_thorough='as quick with every N for the C interface and the executables',
    rule='one case = one operation; it is run once per fault position on the real code; success must be reported exactly when the output fits, and the output must then equal the fault-free one; distinct = distinct (operation, fault position, reported success)',
    assumptions=['the fault is a size limit, missing directory or full device; once a write is refused later ones are too', 'the shuffling seed is fixed by replacing std::random_device'],
)
CHECKS['C28'] = dict(
    src=['c28_readfault.cc'],
    bounds='6 data sets of 1-12 records (records of 0-520 features, lines up to 6500 bytes) in 3 formats, text with and without a final newline: storage failing after byte N for every N from 0 to the file size, delivered in pieces of 4096, 700 and 1 bytes; lasting and passing faults; the reader, the reader rewound, the iterator with the fault in the first or second pass and another source behind it, conversion and analysis',
    bounds_thorough='as quick with a record of 1200 features (lines of 12000 bytes)',
    rule='one case = one data set, format and range of 512 fault positions; each position is run on the real reader, iterator and tools through the C library streams; distinct = distinct (data, position, status, records read)',
    assumptions=['the fault is a read error of the stream (EIO), injected below the C library by replacing fopen'],
)
CHECKS['C18'] = dict(
    src=['c18_loss.cc'],
    bounds='4 binary losses x 2 labels x 2226 scores x 3 margins; 6 multi-class losses x every label x all score vectors: 3 classes over 25 values, 4 classes over 25x6^3, 5 classes over 6 values (from -1e30 to 1e30, including ties, kinks and the saturation bounds)',
    bounds_thorough='as quick with 8 values and up to 6 classes',
    rule='one case = one loss, label and score of the label; value and gradient of the real function are compared with a double-precision reference written from the definition; distinct = distinct (loss, returned loss, gradient)',
    assumptions=['the predicted label passed in is the one the scores give', 'uniform forms average over the classes scored at least as high as the label and are zero when there is none'],
)
CHECKS['C14'] = dict(
    src=['c14_heap.cc'], lib=False,
    bounds='all value arrays of up to 3 elements over 4 values (4 and 5 over 3), every K, all sequences of 4 operations (3 elements: 3, 4: 2, 5: 1) out of: change any value and rebuild, improve one or two values in place, grow, re-initialise; arrays of up to 31 elements: all pairs of operations on 12 patterns; arrays of 24-1025 elements x 20 numbers of members x 6 patterns through 18 changes, 9 improvements and 8 steps of growth; both orders',
    bounds_thorough='as quick one operation deeper and up to 6 elements',
    rule='one case = one initial array and K; all operation sequences are executed on the real heap and after each the member set is compared with a sorted copy of the values, positions and displaced elements with the change of membership; distinct = distinct (values, K, member positions)',
    assumptions=['K >= 1 and at most the number of elements, as the learners guarantee'],
)
CHECKS['C10'] = dict(
    src=['c10_first.cc'], mode='plain', asan_pass=True,
    bounds='6 algorithms x 2 and 3 classes x parameter settings (75 configurations): all training sequences of up to 4 of 12 (multi-class 11) examples and of up to 6 of 5; 40 examples with every period of up to 3; 72 wide examples (70 coordinates) in 9 arrangements with 2, 3, 4 and 7 classes; every combination of 2-4 values of every parameter (including norm, loss, costs, lazy updates, initial step and dimension) on 4 sequences',
    bounds_thorough='as quick with sequences of up to 5 and 8 examples',
    rule='one case = one configuration and first example; all its training sequences are run on the real learner beside a double-precision reference of the update rule; scores, label, counters are compared at every example and all weights at the end; distinct = distinct (configuration, scores along the sequence)',
    assumptions=['where a loss is within 2e-5 of its kink, the reference follows the implementation (counted as kinks_followed)', 'weights observed through predictions, to 1e-4'],
)
CHECKS['C11'] = dict(
    src=['c11_second.cc'], mode='plain', asan_pass=True,
    bounds='4 algorithms x 2 and 3 classes x parameter settings (57 configurations): all training sequences of up to 4 of 12 (multi-class 11) examples and of up to 5 of 5 examples and finalisations; 40 examples with every period of up to 3; 72 wide examples (70 coordinates) in 9 arrangements with 2, 3, 4 and 7 classes; every combination of 2-4 values of every parameter (including norm, loss, costs, lazy updates, initial step and dimension) on 4 sequences',
    bounds_thorough='as quick with sequences of up to 5 and 7',
    rule='one case = one configuration and first example; all its training sequences are run on the real learner beside a double-precision reference of the update rule; scores, label, counters are compared at every example, all weights and (from the saved model) variances at the end; distinct = distinct (configuration, scores along the sequence)',
    assumptions=['where a loss is within 2e-5 of its kink, the reference follows the implementation (counted as kinks_followed)', 'weights observed through predictions, to 1e-4', 'confidence-weighted learners with the worst-class hinge loss'],
)
CHECKS['C12'] = dict(
    src=['c12_sparse.cc'], mode='plain', asan_pass=True,
    bounds='9 algorithms x 2 and 3 classes x parameter settings (95 configurations): all training sequences of up to 4 of 12 (multi-class 11) examples and of up to 6 of 5 examples and finalisations; 40 examples with every period of up to 3; 72 wide examples (70 coordinates) in 9 arrangements with 2, 3, 4 and 7 classes; every combination of 2-4 values of every parameter (including norm, loss, costs, lazy updates, initial step and dimension) on 4 sequences',
    bounds_thorough='as quick with sequences of up to 5 and 8',
    rule='one case = one configuration and first example; all its training sequences are run on the real learner beside a dense double-precision reference that regularises every coordinate at every step; scores, label, counters are compared at every example, all weights and the sparsity at the end and at every finalisation; distinct = distinct (configuration, scores along the sequence)',
    assumptions=['where a loss is within 2e-5 of its kink, the reference follows the implementation (counted as kinks_followed)', 'weights observed through predictions, to 1e-4', 'with a decaying rate, shrinkage still pending uses the rate of the latest update'],
)
CHECKS['C13'] = dict(
    src=['c13_select.cc'], mode='plain', asan_pass=True,
    bounds='5 algorithms x 2 and 3 classes x 0-3 features to keep x parameter settings (110 configurations): all training sequences of up to 4 of 12 (multi-class 11) examples and of up to 5 of 5 examples and finalisations; 40 examples with every period of up to 3; 72 wide examples (70 coordinates) in 9 arrangements with 2, 3, 4 and 7 classes and up to 20 features kept; every combination of 2-4 values of every parameter (including norm, loss, costs, lazy updates, initial step and dimension) on 4 sequences',
    bounds_thorough='as quick with sequences of up to 5 and 7',
    rule='one case = one configuration and first example; all its training sequences are run on the real learner beside a double-precision reference of the update rule; after every example each weight must be the updated one or dropped, and the dropped and kept features are ranked by the criterion; distinct = distinct (configuration, scores along the sequence)',
    assumptions=['features whose criteria agree to 1e-4 may be kept or dropped', 'where a loss is within 2e-5 of its kink, the reference follows the implementation (counted as kinks_followed)', 'weights observed through predictions, to 1e-4'],
)
CHECKS['C15'] = dict(
    src=['c15_vector.cc'],
    bounds='30 (float: 60) dense expressions x 5 assignments x all vectors of 1-2 elements over 4 values (3-4 elements: over 3-4), extreme values, lengths 1-300, also double and int; 60 expressions with a sparse operand x all index sets of <=3 of 6 coordinates x destinations of 0-6 elements; all histories of <=4 out of 19 storage operations on two handles and <=5 out of 11 data point operations on two points; matrices up to 6x6',
    bounds_thorough='as quick with index sets of 4, lengths up to 2000, histories one operation longer',
    rule='one case = one operand (all others enumerated) or one history prefix; every coordinate is compared with the scalar formula, every history with a model of shared and independent storage, and the blocks allocated with those released; distinct = distinct results and storage states',
    assumptions=['dense operands are at least as long as the sparse indexes used in the same expression', 'vectors have been given a size before they are used in an expression', 'elements added by resize have no specified value'],
)
CHECKS['C08'] = dict(
    src=['c08_save.cc'], mode='plain', asan_pass=True,
    bounds='24 algorithms x 2 and 3 classes x parameter settings (120 configurations): all histories of up to 3 of 12 (multi-class 11) examples, saves and restores and of up to 5 of 5 examples, saves and restores (1-2 of them saves or restores); the same configurations trained by Train on 5 data sets (wide, many classes, extreme values, none) and saved without finalising, in both interfaces; 46 parameters x up to 10 values; every combination of 2-4 values of every parameter (including norm, loss, costs, lazy updates, initial step and dimension) on 4 sequences',
    bounds_thorough='as quick with histories of up to 4 and 6',
    rule='one case = one configuration and first step; the real model is saved, restored and trained on beside the reference learner that is never saved; reported parameters, predictions, sparsity and the file of the restored model are compared at each restore, scores at each later example, weights at the end; distinct = distinct (configuration, scores along the history)',
    assumptions=['weights in the file have 6 digits; where a loss is within 3e-4 of its kink after a restore, the reference follows the implementation', 'with a decaying rate, shrinkage pending after a restore uses the rate of the restored step; truncation periods count from it', 'selection learners: the continuation is not compared when a kept and a dropped feature rank equal at the restore (equal_rank_stops)', 'display settings, the feature selection list and the counters of examples and updates are not part of the saved model', 'models whose weights are finite'],
)
CHECKS['C09'] = dict(
    src=['c09_damaged.cc'],
    bounds='saved files of 24 algorithms x 2 and 3 classes, 3 more and 48 of untrained models and models without features (99 files of 300-1100 bytes): cut at every byte followed by nothing, zero bytes or a line end; blocks of 16, 64 and 256 bytes zeroed; every header byte replaced by each of 12 characters or removed; every parameter byte replaced or removed; every value and vector removed, added or replaced; whole sections and settings removed, null or of another type; 60 field corruptions',
    bounds_thorough='as quick',
    rule='one case = one file and kind of damage; every damaged file is restored by the real code (C++ and C interface) under address sanitiser with a watchdog; a cut file must be refused or give the saved model (reported parameters and re-saved file compared), a changed one must be refused or give exactly what the file then says; distinct = distinct (file, damage, refused or not)',
    assumptions=['a changed digit or a missing optional parameter leaves a valid file', 'lazy_update is true or anything else', 'two numbers run together are not covered'],
)
CHECKS['C26'] = dict(
    src=['c26_cli.cc'], tools={'concat': 'tools/concat.cc', 'converter': 'tools/converter.cc', 'shuffle': 'tools/shuffle.cc', 'split': 'tools/split.cc', 'analyze': 'tools/analyze.cc', 'sol_train': 'tools/sol_train.cc', 'lsol_c': 'tools/lsol_c.cc', 'sol_test': 'tools/sol_test.cc'}, mode='plain', asan_pass=True,
    bounds='sol_train and lsol_c: all command lines of <=3 of 9 options over 2-5 values each, those of <=2 options in 4 spellings (short, long, long with =, mixed) x 4 placements, options given twice; sol_test and lsol_c: 5 models x 3 formats x 3 feature selections x 4 batch sizes x 3 buffer counts x 4 spellings x 4 placements; converter, concat, split, shuffle, analyze: all pairs of formats x 5 thresholds, 1-3 inputs, 1-10 folds, with and without output and type x 8 spellings and orders; ~90 kinds of command lines that cannot be carried out, each in 3 spellings x 3 placements, with a new and an earlier output; help and lists',
    bounds_thorough='as quick with <=4 options of sol_train, each combination in 4 spellings',
    rule='one case = a block of command lines; each is run with the real executables; saved models, predictions and files are compared byte for byte, printed accuracy and sparsity as numbers, with the library called with the settings meant; lines that cannot be carried out must end by themselves with a non-zero status and leave earlier files alone; distinct = distinct models, outputs and statuses',
    assumptions=['what the library computes is covered by the other properties', 'the order of a shuffle is random: its output is compared as a multiset', 'well-formed data'],
)
CHECKS['C17'] = dict(
    src=['c17_test.cc'], tools={'sol_test': 'tools/sol_test.cc'}, mode='plain', asan_pass=True,
    also=[dict(src=['vpsched.cc'], src_instr=['c17_sched.cc'], mode='sched')],
    bounds='all weight matrices: binary of 1-4 weights over 3-5 values, 3 and 4 classes of 1-2 weights per class, each on all records over its features and one unknown feature (5 values each, exact scores); all test sets of <=3 records over 5-7 records x batch sizes; 1-1025 records in 3 formats, sol_test; 24 algorithms x 2 and 3 classes x 3 settings x all training histories of <=3 records over 5, tested after each prefix; wide models of 2-4097 weights x 2-33 classes with exact scores; sparsity of weights down to 2e-38',
    bounds_thorough='as quick with 3 classes x 3 weights, 5 classes, 6 values, test sets of <=5 records and histories of <=5 records',
    rule='one case = a block of models or an algorithm; every reported label, prediction, score and error rate is compared with an exact evaluation of the weights, and the tested model with an untested twin before and after further training; distinct = distinct predictions',
    assumptions=['the test set is not empty', 'scores in text output carry six digits', 'models whose training produced non-finite weights are skipped'],
)
CHECKS['C23'] = dict(
    src=['c23_progress.cc'], tools={'sol_train': 'tools/sol_train.cc'}, mode='plain', asan_pass=True,
    bounds='24 algorithms x 2 and 3 classes x 4-6 settings (losses, lazy updates, initial step, always-asking active learning) x all histories of <=3 examples over 6 x all splits into training calls; 3 algorithms x 14 display schedules x 1-40 examples x all splits into two calls (and some into three), 1100 examples in 6 splits; the table printed by sol_train for 1-40 records x 1-3 passes',
    bounds_thorough='as quick with histories of <=5 examples and up to 140 examples in all two-call splits',
    rule='one case = one configuration; the complete list of reports, the returned error and the counters after every call are compared with counts derived from the losses of an example-wise twin; distinct = distinct report lists',
    assumptions=['the display schedule is chosen before training starts', 'every training call has at least one example', 'whether cw, eccw and alma2 update (margins of their own) is taken from the example-wise twin, which C10 and C11 compare with the reference learners'],
)
CHECKS['C21'] = dict(
    src=['c21_arrays.cc'],
    bounds='all dense arrays of up to 3 x 3, 1 x 4 and 4 x 1 over 2-7 values x 3 row paddings x 3 layouts (forward, reversed, repeated row); arrays up to 600 x 700; all sparse matrices of 1-3 rows over 20 arrangements of entries (any order, empty, long, explicit zero) x 2 base offsets, up to 600 rows; reader, iterator (1-3 passes, batches of 1-4), C interface and the equivalent file; about 90 malformed descriptions per kind',
    bounds_thorough='as quick with 3 x 3 over 3 values, 4 x 3, 2 x 4 and sparse matrices of 4 rows',
    rule='one case = one shape and layout (or first row); every array is delivered by the reader twice, by the iterator and by the C interface and compared bit by bit with the expected records; arrays have their exact size on the heap under the address sanitizer and are compared with a copy afterwards; distinct = distinct record lists',
    assumptions=['labels are integers and values fit single precision', 'arrays of no rows are unspecified', 'offsets of a sparse matrix are relative to the first one and do not decrease'],
)
CHECKS['C16'] = dict(
    src=['c16_deliver.cc'], tools={'sol_train': 'tools/sol_train.cc'}, mode='plain', asan_pass=True,
    also=[dict(src=['vpsched.cc'], src_instr=['c16_sched.cc'], mode='sched')],
    bounds='24 algorithms x 2 and 3 classes x 3 settings: all sequences of <=3 examples over 5 x all splits into calls x all splits into sources, formats, batch sizes, buffers and interfaces rotating; 9 and 27 examples in 6 formats x 7 batch sizes x 3 buffer counts x C and C++ interface, passes against copies; sol_train; all 48 x 24 pairs of models trained in turn; every model in a fresh process and after 5 histories of models with other settings; 1100 examples in batches of 1-2000, several calls, sources and passes',
    bounds_thorough='as quick with sequences of <=4 examples and more executables',
    rule='one case = one configuration; the weights bit by bit, the training error, the counters and the saved file of every delivery are compared with example-wise training; distinct = distinct learned models',
    assumptions=['values are exactly representable in every format', 'active learning, which draws random numbers, is left out'],
)
CHECKS['C20'] = dict(
    src=['c20_prep.cc'], tools={'sol_train': 'tools/sol_train.cc', 'sol_test': 'tools/sol_test.cc'}, mode='plain', asan_pass=True,
    bounds='all records over 4 indices x 5 values (0-4 features) x labels -40..40 x 32 selections x 3 norms x 2-4 classes, features beyond the list, 1-300 features; all selection files of <=4 lines over 12 kinds of line with and without a final newline, after a list or none, unreadable paths; 24 algorithms x 2 and 3 classes x 3 norms x 6 selections x 2 data sets trained, tested, predicted, restored; executables on a third of the binary ones; records scaled from 1e-17 to 1e17',
    bounds_thorough='as quick with 8 values, selection files of <=5 lines and the executables throughout',
    rule='one case = one configuration; every record is compared with an independent preparation, and training, testing, prediction and the restored model with a twin fed data prepared beforehand; distinct = distinct prepared records and scores',
    assumptions=['the norm of a record is representable (no overflow or underflow of its square)', 'blank lines and text after the number in a selection file are unspecified', 'a feature outside the selection keeps its place with value 0'],
)
CHECKS['C19'] = dict(
    src=['c19_params.cc'], tools={'sol_train': 'tools/sol_train.cc'}, mode='plain', asan_pass=True,
    bounds='24 algorithms x 2 and 3 classes x every documented parameter x up to 21 valid and invalid values, on a new model and in the middle of training, C++ and C interface; all ordered pairs (parameter, value) x (parameter, every second value); 25 foreign names x 5 values; all algorithm, loss and format names in 4 letter cases, -2 to 6 classes; sol_train with every algorithm and its parameters',
    bounds_thorough='as quick with all pairs of values and all parameters for sol_train',
    rule='one case = one algorithm and first parameter; after every setting the complete report is compared with a model of the parameter map, and after a refusal also predictions and what is learned afterwards with a twin; distinct = distinct (algorithm, reported parameters, refused or not)',
    assumptions=['values with trailing text, lazy_update other than true/false and negative lambda, C, r, a, phi, p are unspecified', 'dim only grows; B of the second-order selection learners and pet is reported as lambda; display settings and the selection list are not reported'],
)
CHECKS['C24'] = dict(
    py='c24_py.py',
    bounds='all histories of <=3 calls over 17 (fit / score / predict / scores on file, array, CSR; parameters good and bad; save, load, handler, missing file, new object) for 3 algorithms with 2 and 3 classes; 10 array layouts x 4 label layouts, 3 sparse layouts; 1-70000 rows around the batch and allocator sizes; 7 calls on objects without a model',
    bounds_thorough='as quick with histories of <=4 calls',
    rule='one case = one history of calls on the real Python binding, compared call by call with the same history on the C interface fed with text files; every model, iterator and handler is counted; distinct = distinct (name, classes, parameters, reports)',
    assumptions=['the binding (Python 2) is built with Cython for Python 3 here; scipy.sparse.csr_matrix is a stand-in with the attributes the binding uses', 'freed memory is overwritten (PYTHONMALLOC=debug)'],
)
CHECKS['C25'] = dict(
    py='c25_cv.py',
    bounds='grids of 1-4 combinations x 1-3 worker processes x 2-3 folds x 1-2 passes x object used once or twice, every schedule with <=1 delay (the smallest: 2) of processes and queue feeders; 121 result files; all histories of <=3 of 14 data set requests (splits into 2-4 folds in 3 formats, conversions, shuffles, binarisation); all histories of <=2 of 8 trainings with and without cross validation, cached and not; 432 command lines of sol_train.py, each followed by sol_test.py with and without output and by fine tuning; 7 ill-formed ones',
    bounds_thorough='as quick with 2 delays in more of the schedules, histories of <=4 requests and <=3 trainings',
    rule='one case = one cross validation (all its schedules), one result file, one history of data set requests or of trainings on the real scripts; scores, best parameters, fold contents and models are compared with a direct computation; distinct = distinct (scenario, order of trainings) and cache contents',
    assumptions=['the scripts (Python 2) are run under Python 3 after a translation that keeps integer division and list results', 'multiprocessing is replaced by a controlled stand-in whose queues deliver each process\'s items in order after any delay', 'parameters are accepted by the algorithm'],
)

CHECKS['C27'] = dict(
    py='c27_exp.py',
    bounds='all histories of <=2 of 24 comparisons (4 sets of learners x 1 or 3 repetitions x nothing, everything or one learner to be rerun) over one result file; all histories of <=2 of 48 feature selection experiments; every number of non-zero weights of up to 40; 6 x 6 dimensions x 7 penalties or searches of the liblinear scripts; 192 runs of the vw script, 24 of FGM, 32 histories of mRMR, 10 with a failing program; 192 command lines of the two programs, each run twice; 512 figures; every parameter combination of the 18 shipped configurations on the real library; 28 whole experiments on the real library',
    bounds_thorough='as quick with histories of <=3 comparisons, feature selection histories that change the task, up to 64 weights',
    rule='one case = one history of experiments, run by the real scripts with stand-ins for what is not installed (sklearn, vw, matplotlib, FGM, mRMR) and, in the first two families, for the library; runs, their arguments, results kept, table and figures are compared with a reference; distinct = distinct (contents of the result file, experiment)',
    assumptions=['the scripts (Python 2) are run under Python 3 after a translation that keeps integer division and list results', 'the programs called by the scripts and the packages they import are replaced by recording stand-ins', 'configurations of the other learners are not checked against those programs'],
)
