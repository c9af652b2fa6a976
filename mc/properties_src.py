import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

p("C01","Iteration delivers every record once, in order, whatever the thread timing",
"For any list of data sources with any pass counts, and any batch size and buffer count of at least one, a data iterator hands its caller exactly the records of each source in source order, the sources in the order they were added, the whole source once per pass, and then reports the end; a source that turns malformed contributes exactly its records before the malformed one. This holds under every interleaving of the reading threads with the caller, without deadlock or data race, and a batch the caller still holds never changes. Sources added after the end was reached are delivered in the same way.",
["schedules","inputs","configurations"],"every interleaving (bounded preemptions) of reader threads and consumer, for small record counts, batch sizes, buffer counts, passes, source lists and malformed positions",
"The repository's iterator test runs one uncontrolled schedule with one reader and compares shallow copies; order, multiplicity and deadlock freedom depend on the schedule, the batch/buffer geometry and the source mix.",
["src/sol/pario/data_iter.cc","src/sol/pario/data_read_task.cc","include/sol/util/block_queue.h","include/sol/util/monitor.h","include/sol/util/thread.h","include/sol/pario/mini_batch.h"],
[("factory/buffer queue pair recycled between reader thread and caller","src/sol/pario/data_iter.cc Next; src/sol/pario/data_read_task.cc run"),("null marker in the buffer queue that starts the next source","src/sol/pario/data_iter.cc DataIter, Next")],
obs="batches returned by the iterator")
p("C02","Releasing a data iterator always terminates and leaks nothing",
"Releasing a data iterator at any moment - before the first batch, between batches, with sources not yet started, with a reading thread blocked or running, or after the end - always returns, stops every reading thread, never touches freed memory and frees everything the iterator allocated apart from a batch the caller still holds. This holds under every interleaving with the reading threads and without data races.",
["schedules","histories","configurations"],"every interleaving of release with running/blocked/not-started readers for every number of batches consumed first",
"The tests always drain the iterator before dropping it and run a single schedule.",
["src/sol/pario/data_iter.cc","src/sol/pario/data_read_task.cc","include/sol/util/block_queue.h"],
[("exit marker sent through the free-batch queue, draining of the filled-batch queue, joining of readers","src/sol/pario/data_iter.cc ~DataIter")])
p("C03","The blocking queue is a bounded FIFO under any number of threads",
"Under every interleaving of several producers and consumers, single-element and list operations on the bounded queue take effect as first-in first-out operations: no element is lost, duplicated, invented or reordered within a producer, the queue never holds more than its capacity, a forced list removal returns exactly the number asked for unless an end marker arrives, and list insertion keeps its elements in order. Callers block only while the queue is really full or empty: no wakeup is lost, spurious wakeups are harmless, and no data race occurs.",
["schedules","histories"],"every interleaving (bounded preemptions, spurious wakeups) of small programs of 2-3 threads over the queue's four operations and capacities 1-3",
"The one queue test runs one producer and one consumer under the host scheduler.",
["include/sol/util/block_queue.h","include/sol/util/monitor.h","include/sol/util/mutex.h"],
[("one mutex with separate not-full and not-empty conditions around a circular buffer","include/sol/util/block_queue.h")])
p("C04","Binary data files round-trip exactly and torn files never yield a bogus record",
"Any sequence of records with ascending feature indices, written in the binary format and read back, yields the same labels, indices and bit-identical feature values in the same order, on every pass. If the file is cut at any byte, reading delivers exactly the records that lie wholly before the cut and then stops with an end or error status, never a record that was not written.",
["inputs","crash_points"],"all short record sequences over boundary labels/indices/values, and every truncation point of the resulting files",
"The binary test compares shallow copies of one dataset and never reads a torn file.",
["src/sol/pario/binary_reader.cc","src/sol/pario/binary_writer.cc","include/sol/pario/compress.h","src/sol/pario/file_reader.cc","src/sol/pario/file_writer.cc","src/sol/pario/data_point.cc"],
[("length-prefixed record layout with compressed indices","src/sol/pario/binary_writer.cc Write; src/sol/pario/binary_reader.cc Next")])
p("C05","Index compression is lossless at every width",
"Compressing any strictly or weakly ascending list of feature indices and decompressing it returns the same list, for 16-, 32- and 64-bit indices, including the largest value of the type and gaps of any size, and appending several lists' codes keeps each decodable on its own. Each gap is encoded in the least number of low-first seven-bit groups, so existing files stay readable.",
["inputs"],"all ascending lists up to a length over all group-boundary values of each width",
"The compression test decodes one small 32-bit list.",
["include/sol/pario/compress.h","include/sol/math/vector.h"],
[("delta plus seven-bit group coding","include/sol/pario/compress.h")])
p("C06","Text records parse to exactly what they say; malformed ones are rejected",
"For every well-formed libsvm or CSV line - any sign, decimal or exponent notation, any feature order, any spacing around fields, any line length, with or without a final newline, with integer label and distinct positive integer indices - the reader returns the stated label, the stated one-based indices in ascending order each with its own value to single precision, and omits zero CSV cells. A line whose label, index or value is missing or not a number, or that lacks a separator, is reported as a format error, yields no record and leaves the reader marked as not good (a blank line need not). Rewinding restarts at the first record, the CSV header never appears as a record, and the end is reported as such.",
["inputs"],"all token sequences over number/separator/garbage alphabets up to a length, all feature permutations, line lengths across buffer growth boundaries",
"The tests read one well-formed data set per format.",
["src/sol/pario/svm_reader.cc","src/sol/pario/csv_reader.cc","include/sol/pario/numeric_parser.h","src/sol/pario/file_reader.cc","src/sol/pario/data_point.cc"],
[("hand-written number parsers and line reader with growing buffer","include/sol/pario/numeric_parser.h; src/sol/pario/file_reader.cc ReadLine"),("feature sort","src/sol/pario/data_point.cc Sort")])
p("C07","Data tools preserve and describe the data exactly",
"Converting, concatenating, shuffling or splitting any data set between any supported formats outputs every input record exactly once with the same label, indices and values (to six significant digits in text formats, exactly in binary): conversion and concatenation keep the order, shuffling permutes, and splitting deals the records into the requested number of folds of at most ceiling(n/folds) records each, in order when not shuffled. Binarising replaces each present value by 1 when above the threshold and -1 otherwise. Analysis reports the true number of records, features, dimensions, distinct features, classes and records per class. (For well-formed input; a CSV output needs at least one feature, a split at least one record.)",
["inputs","configurations"],"all small data sets over a record alphabet x all format pairs x folds x options",
"No test runs the tools.",
["src/sol/tools.cc","tools/concat.cc","src/sol/pario/svm_writer.cc","src/sol/pario/csv_writer.cc","src/sol/pario/binary_writer.cc","src/sol/pario/data_point.cc"],
[("read-clone-write loops with fold arithmetic and CSV dimension pre-pass","src/sol/tools.cc; tools/concat.cc")])
p("C08","A saved model restores to the same classifier",
"For every algorithm, class count, parameter setting and training history, saving a model and restoring it gives a model that reports the same parameter values, makes the same predictions on every input (to the saved precision), has the same sparsity and keeps the algorithm's learning state, so that training on continues as it would have without the save (regularisation still pending under a decaying rate goes on at the rate of the restored step). Saving right after training saves the finished model, saving a restored model again reproduces the same file, and saving never changes the model's predictions.",
["histories","configurations","inputs"],"all short training histories x save points x algorithms x binary/multiclass x parameter settings",
"No test saves or restores a model.",
["src/sol/model/model.cc","src/sol/model/online_model.cc","src/sol/model/online_linear_model.cc","src/sol/model/olm/cw.cc","src/sol/model/olm/arow.cc","src/sol/model/olm/rda.cc","src/sol/model/olm/ada_rda.cc","src/sol/model/olm/ada_fobos.cc","src/sol/model/olm/sop.cc","src/sol/model/olm/alma2.cc","include/sol/math/matrix_storage.h"],
[("JSON header of parameters followed by textual vectors","src/sol/model/model.cc Save, Load; GetModelParam/SetModelParam of each algorithm")])
p("C09","A damaged model file is rejected, never half loaded",
"For every saved model file cut at any byte, restoring either fails cleanly with no model or gives a model equivalent to the original; it never hangs, crashes or returns a model with part of the saved state missing. Files with an unknown algorithm name, disagreeing class counts, an unknown or invalid parameter, a missing section, a header that cannot be parsed, or vectors with missing, surplus or non-numeric values are rejected in the same way.",
["crash_points","inputs","configurations"],"every truncation point of the saved file of every algorithm, and single header-field corruptions",
"No test restores a model.",
["src/sol/model/model.cc","src/sol/model/online_linear_model.cc","include/sol/math/matrix_storage.h"],
[("header/parameter section parsing and status propagation","src/sol/model/model.cc Load; SetModelParam of each algorithm")])
p("C10","First-order learners follow their update rule on every example",
"For every training sequence, after each example the perceptron, online gradient descent, passive-aggressive (all three variants) and approximate large margin learners hold exactly (up to rounding) the weights and bias that their update rules give for the configured loss, learning rate, decay, aggressiveness and bias parameters, for binary and multi-class problems. The prediction made during training uses the weights before the update, and an example without loss (or, in lazy mode, without a mistake) leaves the model unchanged.",
["histories","configurations","inputs"],"all example sequences up to a depth over a small record alphabet x loss x parameter settings",
"No test trains a model.",
["src/sol/model/olm/perceptron.cc","src/sol/model/olm/ogd.cc","src/sol/model/olm/pa.cc","src/sol/model/olm/alma2.cc","src/sol/model/online_linear_model.cc","src/sol/model/online_model.cc","include/sol/math/expression.h"],
[("iterate: predict, gradient, update","src/sol/model/online_linear_model.cc Iterate; Update of each algorithm")])
p("C11","Second-order learners follow their update rule on every example",
"For every training sequence, after each example the second-order perceptron, confidence-weighted, exact convex confidence-weighted and adaptive-regularisation learners hold exactly the weights, bias and per-feature confidence (up to rounding) that their diagonal update rules give for the configured parameters, for binary and multi-class problems. Confidence of features that do not occur in an example is unchanged, confidence variances stay positive and never grow.",
["histories","configurations","inputs"],"all example sequences up to a depth over a small record alphabet x parameter settings",
"No test trains a model.",
["src/sol/model/olm/sop.cc","src/sol/model/olm/cw.cc","src/sol/model/olm/eccw.cc","src/sol/model/olm/arow.cc","include/sol/math/expression.h","src/sol/loss/hinge_loss.cc"],
[("margin callback plus closed-form diagonal update","src/sol/model/olm/cw.cc Update; eccw.cc; arow.cc; sop.cc")])
p("C12","Sparse learners apply exactly the regularised update of their algorithm",
"For every training sequence, truncated gradient, forward-backward splitting, (enhanced) regularised dual averaging and their adaptive variants, with or without L1 regularisation, produce exactly the weights their update rule defines, as if regularisation had been applied to every coordinate at every step, even though coordinates are only touched when their feature occurs (shrinkage still pending under a decaying rate uses the rate of the latest update), and testing in between changes nothing. The final model has each weight shrunk toward zero by the full accumulated amount, never across zero, and the reported sparsity is the exact fraction of zero weights.",
["histories","configurations","inputs"],"all example sequences up to a depth over a small record alphabet x regularisation strength, period and rate settings",
"No test trains a model.",
["src/sol/model/olm/ogd.cc","src/sol/model/olm/rda.cc","src/sol/model/olm/ada_fobos.cc","src/sol/model/olm/ada_rda.cc","src/sol/model/regularizer.cc","include/sol/math/operator.h"],
[("lazy truncation with per-coordinate time stamps and finalisation at the end of training","src/sol/model/regularizer.cc; TrainPredict/EndTrain of each algorithm")])
p("C13","Feature-selection learners never keep more than the requested features",
"For every training sequence of a new model, the feature-selection learners keep at most the requested number of features with non-zero weight, namely those ranked best by the algorithm's own criterion (largest weights, or highest confidence; features ranked equal are interchangeable), and zero all classes of a dropped feature together. With selection disabled they behave like their base algorithm, and the bias is never dropped.",
["histories","configurations","inputs"],"all example sequences up to a depth over a small record alphabet x feature budgets x class counts",
"No test trains a model.",
["src/sol/model/olm/ogd.cc","src/sol/model/olm/fofs.cc","src/sol/model/olm/arow.cc","src/sol/model/olm/ada_fobos.cc","src/sol/model/olm/ada_rda.cc","include/sol/util/heap.h"],
[("top-K heap over per-feature criterion","include/sol/util/heap.h; Update of each selection learner")])
p("C14","The top-K heap always holds the K best values",
"After any sequence of value changes followed by the documented maintenance calls, and after growing the value array, the heap's member set is a set of K positions holding the K largest (or smallest) values, membership and position queries agree with it, and the element reported as displaced is exactly the one that left. No sequence of calls loses, duplicates or invents a position.",
["histories","inputs"],"all operation sequences up to a depth over small N, K and value alphabets for both heap orders",
"No test runs the heap.",
["include/sol/util/heap.h"],[("array heap with position index","include/sol/util/heap.h")])
p("C15","Dense and sparse vector arithmetic equals element-wise arithmetic",
"Every vector expression the learners use - element-wise sums, products, quotients, square roots, norms, truncation and dot products between dense vectors, sparse vectors, slices and scalars, assigned or combined in place - gives for each coordinate the value of the scalar formula, leaves coordinates outside a sparse operand or slice untouched where defined so, and never reads or writes out of bounds. Resizing and appending preserve existing elements, copies share storage until released, clones are independent, and everything is freed exactly once.",
["inputs","histories"],"all small vectors and sparse patterns over a value alphabet x all operators; all resize/append/copy/assign sequences up to a depth",
"The matrix tests check a handful of fixed expressions.",
["include/sol/math/vector.h","include/sol/math/sparse_vector.h","include/sol/math/matrix.h","include/sol/math/matrix_storage.h","include/sol/math/expression.h","include/sol/math/matrix_expression.h","include/sol/math/operator.h","src/sol/pario/data_point.cc"],
[("expression templates evaluated into reference-counted storage","include/sol/math/expression.h; include/sol/math/matrix_storage.h")])
p("C16","The learned model depends only on the sequence of examples",
"Training any algorithm on the same sequence of examples gives the same model and the same reported training errors, whatever the batch size, buffer count, data format, order of features inside a record, split of the data over several sources or several training calls, repetition by passes instead of by copies, use of the high-level, C or command-line interface, or timing of the reading threads. Two models trained in one process do not influence each other. (Active learning, which draws random numbers, aside.)",
["schedules","configurations","histories","inputs"],"all small data sets x all delivery configurations x algorithms, compared with a reference delivery",
"No test trains a model.",
["src/sol/model/online_model.cc","src/sol/pario/data_iter.cc","src/sol/pario/data_read_task.cc","src/sol/model/online_linear_model.cc","src/sol/c_api.cc"],
[("training loop over batches; per-source reader threads","src/sol/model/online_model.cc Train; src/sol/pario/data_iter.cc")])
p("C17","Testing and predicting report the model truthfully and never change it",
"For every model and non-empty data set, testing returns the exact fraction of records whose predicted label differs from the true one, writes one output line per record in order with true label, predicted label and the class scores, and prediction callbacks deliver the same; the predicted label is the sign of the single score, or the class of the highest score with the lowest class winning ties. Features never seen in training contribute nothing, records may be wider or narrower than the model, and neither testing nor predicting changes the model.",
["inputs","histories","configurations"],"all small models x all small test sets including unseen features, x interfaces, before/after comparison",
"No test runs prediction.",
["src/sol/model/model.cc","src/sol/model/online_linear_model.cc","src/sol/c_api.cc","include/sol/math/expression.h"],
[("test loop and linear prediction","src/sol/model/model.cc Test; src/sol/model/online_linear_model.cc Predict; src/sol/c_api.cc sol_Test, sol_Predict")])
p("C18","Loss functions return the defined loss and its gradient",
"For every label and score vector, each loss function (zero-one, hinge, logistic and square; binary, worst-class and averaged multi-class forms) returns the value its definition gives, never negative, and whenever the loss is positive its gradient is the derivative of that loss with respect to the scores, summing to zero over classes in the multi-class forms. Evaluating a loss does not change the scores, and large scores saturate instead of overflowing.",
["inputs"],"all score vectors over a value alphabet x labels x class counts x losses x margins",
"No test evaluates a loss.",
["src/sol/loss/bool_loss.cc","src/sol/loss/hinge_loss.cc","src/sol/loss/logistic_loss.cc","src/sol/loss/square_loss.cc"],
[("per-loss loss() and gradient()","src/sol/loss/*.cc")])
p("C19","Parameters are accepted, validated and reported faithfully",
"Setting any documented parameter of any algorithm to a valid value succeeds and the model then reports that value (to six significant digits) and trains with it, also when set between two trainings; an unknown name, a non-numeric value, a value outside the documented range, an unsuitable loss or an unknown algorithm is refused with an error status, never a crash, and leaves the previously reported parameters and the model's predictions as they were. Algorithms, losses and formats can be looked up by name regardless of letter case, and class counts below two are refused.",
["inputs","histories","configurations"],"all algorithm x parameter x value combinations from valid/invalid alphabets, and all pairs of settings",
"No test sets a parameter.",
["src/sol/model/model.cc","src/sol/model/online_model.cc","src/sol/model/regularizer.cc","src/sol/c_api.cc","src/sol/util/reflector.cc","src/sol/model/olm/*.cc"],
[("SetParameter chains and Check guards","src/sol/model/model.cc; src/sol/model/online_model.cc; olm/*.cc"),("name registry","src/sol/util/reflector.cc")])
p("C20","Preprocessing calibrates labels, filters and normalises exactly as configured",
"Before training or prediction every record has its label mapped to the problem's label set (positive versus other for binary problems, the class number otherwise), its features outside the configured selection list treated as absent, and its values divided by the configured L1 or L2 norm of what remains, with all-zero records left as they are. The same preprocessing is applied in training, testing and prediction, and a selection file with comments is honoured while an unreadable, empty or ill-formed one is refused.",
["inputs","configurations"],"all small records x labels x norm settings x selection lists x selection file contents",
"No test runs preprocessing.",
["src/sol/model/model.cc","include/sol/model/model.h","src/sol/model/online_model.cc"],
[("PreProcess, FilterFeatures, LoadPreSelFeatures","src/sol/model/model.cc")])
p("C21","In-memory arrays behave like the equivalent data file",
"Loading any dense array (with any row stride) or compressed sparse matrix (with any index order within a row, empty rows and any base offset) delivers the same records as a file with the same content: one record per row in order, one-based ascending indices, single-precision values, integer labels, repeated for every pass, and then the end. Malformed descriptions (missing, surplus, non-numeric or out-of-range fields) are refused and the caller's arrays are never modified or read outside their bounds.",
["inputs","configurations"],"all small arrays/CSR matrices over a value alphabet x strides x passes x batch geometry",
"No test loads arrays.",
["src/sol/pario/numpy_reader.cc","src/sol/pario/csr_matrix_reader.cc","src/sol/c_api.cc"],
[("address-encoding path and row cursor","src/sol/pario/numpy_reader.cc; src/sol/pario/csr_matrix_reader.cc")])
p("C22","A failed write is always reported",
"If the storage refuses a write at any byte of the output, or the output cannot be created, then saving a model, writing predictions with sol_test, and converting, concatenating, shuffling, splitting or analysing data return an error status instead of success, without crashing. When they return success, the output is complete.",
["fault_sequences","inputs"],"a write failure injected at every byte offset of every output kind",
"No test injects a write failure.",
["src/sol/model/model.cc","src/sol/tools.cc","src/sol/pario/file_writer.cc","src/sol/pario/svm_writer.cc","src/sol/pario/csv_writer.cc","src/sol/pario/binary_writer.cc"],
[("status propagation from the file writer through format writers to the tools","src/sol/pario/file_writer.cc; src/sol/pario/*_writer.cc; src/sol/tools.cc")])
p("C28","A failed read never passes for data",
"If the storage fails at any byte of a data file, in whatever pieces it delivered the bytes before and in whatever pass, reading yields only records that lie wholly before the failure, unchanged and in order, and then ends with an error status: never with a record made of part of the data, and never with the status of a regular end. The iterator still terminates and delivers the sources behind the failed one, conversion and analysis never write or count a record that was not there, and a file that is read again after a passing failure is delivered in full. (The iterator and the tools have no way of telling a failed source from a finished one; that is not claimed.)",
["fault_sequences","inputs"],"a read failure injected at every byte offset of every format, lasting or passing, in every pass",
"No test injects a read failure.",
["src/sol/pario/file_reader.cc","src/sol/pario/svm_reader.cc","src/sol/pario/csv_reader.cc","src/sol/pario/binary_reader.cc","src/sol/pario/data_read_task.cc"],
[("stream errors against the end of the file","src/sol/pario/file_reader.cc Read, ReadLine; Next of each reader")])
p("C23","Training progress reports are exact",
"With a display schedule chosen before training, the progress callback fires at exactly the example counts the display schedule prescribes (powers of the base, or multiples of the step) and once at the end, each time with the exact number of examples seen, the iteration counter, the number of updates and the mistake rate so far; counters continue across training calls. The returned training error is the fraction of examples mispredicted before their update.",
["histories","configurations"],"all example sequences up to a depth x display schedules x split into training calls",
"No test trains a model.",
["src/sol/model/online_model.cc","src/sol/model/online_linear_model.cc","src/sol/c_api.cc"],
[("display schedule and counters","src/sol/model/online_model.cc Train, ExpIterDisplayer, StepIterDisplayer")])
p("C24","The Python class does what the library does",
"Every history of calls on a Python SOL object (creation, parameters, training, scoring, prediction and scores on a file, on a dense array of any memory layout or on a compressed sparse matrix, saving, loading, a progress handler) gives exactly what the same calls on the C interface give with a file of the same content; name, number of classes and get_params always describe the current model. Failing calls raise an error, calls on an object without a model are refused, arrays, handlers and models live as long as the library needs them and are released exactly once.",
["histories","inputs","configurations"],"all call histories up to a depth x algorithms and class counts; all array layouts; data sizes around internal block sizes",
"The Python tests do not run here and sample single calls.",
["python/pysol.pyx","src/sol/c_api.cc"],
[("life time of arrays, handler and model across calls","python/pysol.pyx")])
p("C25","Cross validation and the training scripts give the models they claim",
"For every parameter grid, number of folds, passes and worker processes, and every timing of the workers: each parameter combination is trained exactly once per fold on all other folds in order for the given passes and scored on the fold left out, the search ends, and the best parameters are those with the highest mean validation accuracy (the first of equals), also when the object is used again; saved results load back as they were. Training and fine tuning by the scripts give the model of direct training with those parameters and leave the caller's and the default parameters alone. The cached folds, conversions and shuffles of a data set hold exactly its records, in the number of folds asked for, whatever was asked for before.",
["schedules","histories","configurations"],"all delay-bounded schedules of worker processes and queue feeders x grids, folds, passes, workers; all histories of data set requests and trainings up to a depth",
"No test runs the scripts.",
["python/cv.py","python/dataset.py","python/sol_train.py"],
[("job queue, result queue and end markers","python/cv.py"),("names of cached files and reuse conditions","python/dataset.py")])
p("C26","The command-line programs do what their options say",
"For every combination of options of sol_train, sol_test, lsol_c (both tasks), converter, concat, split, shuffle and analyze, in every spelling (short, long, long with '='), order and placement among the file arguments, with omitted options at their documented defaults: sol_train (and lsol_c) saves exactly the model that the library trains with these settings (algorithm or starting model, classes, format, passes, batch and buffer sizes, initial dimension, parameters) and prints its training accuracy and sparsity; sol_test (and lsol_c) prints the accuracy and writes the predictions of the given model; the data tools write what the library call writes. Input files stay as they are, and nothing is saved unless asked for. A command line that cannot be carried out - unknown option, format, algorithm or parameter, a missing or ill-formed value, a batch size, buffer size or fold number below one, fewer than two classes, missing or damaged files, too few or too many files - ends by itself with a non-zero status, and sol_train, sol_test and lsol_c then leave an earlier output file untouched. The list options name every algorithm, loss, reader and writer.",
["inputs","configurations"],"all combinations of up to three options over several values x spellings x placements, and all single mistakes in a command line",
"No test runs the programs.",
["tools/sol_train.cc","tools/sol_test.cc","tools/lsol_c.cc","tools/converter.cc","tools/concat.cc","tools/split.cc","tools/shuffle.cc","tools/analyze.cc","external/cmdline/cmdline.h","src/sol/pario/data_iter.cc"],
[("option definitions and their use","tools/*.cc"),("option parser","external/cmdline/cmdline.h")])
p("C27","Experiments report what their runs measured",
"For every history of experiments over one result file: a comparison of learners (experiment.py) or a feature selection experiment (fs.py) runs exactly the learners that have no kept result or are to be rerun, each as often as repetitions are asked for, each repetition after a fresh shuffling shared by all learners, with the learner's own parameters, data sets, folds and processes (in feature selection with each limit in turn, and no limit where none is given) and, where asked for, with parameters chosen by a cross validation that is done once; learners may be written in any case; results of learners that were not rerun stay as they were. The result file holds accuracies, times and feature numbers of exactly these runs, the table their means and deviations, the figures their means, over the repetitions each learner has. The scripts for the other learners (liblinear, vw, FGM, mRMR) pass on the settings given, score test data of any number of features, samples without features and every label convention correctly, and reuse an earlier parameter or feature search unless told otherwise; a called program that fails ends the experiment. The command-line options of the two programs (repetitions, folds, processes, output, reruns, format) and the passes and drawing options of a configuration reach the experiment; a figure shows every curve within its limits under its name. Every shipped configuration loads and names algorithms and parameters the library accepts.",
["histories","configurations","inputs"],"all histories of up to two experiments over sets of learners, repetitions and rerun requests; all data dimensions, labels and settings of a small range; all shipped configurations",
"No test runs the scripts.",
["experiments/experiment.py","experiments/liblinear.py","experiments/vw.py","ofs/fs.py","ofs/liblinear.py","ofs/fgm.py","ofs/mrmr.py","experiments/opts","ofs/opts"],
[("kept and rerun results","experiments/experiment.py"),("limits and feature numbers","ofs/fs.py"),("padding of test data","experiments/liblinear.py")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
