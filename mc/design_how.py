HOW = {}
def h(id, what, oracle, why, cost): HOW[id] = dict(what=what, oracle=oracle, why=why, cost=cost)
h('C01', "Stateless model checking of the real DataIter, DataReadTask, readers and BlockQueue: the library is compiled with `-fsanitize=thread` instrumentation, threads run as coroutines under `vpsched.cc`, every pthread call is a scheduling point, and all interleavings within the preemption bound are enumerated depth-first for every scenario (source formats, counts, passes, malformed position, geometry, a caller that holds a batch, sources added after the end).",
  "The record list computed from the scenario (not from a reader); deadlock = no runnable thread; races by vector clocks on every access; held batches are compared with a deep copy.",
  "One uncontrolled schedule of one source cannot show a lost wakeup, a recycled batch that the caller still holds or a start marker that is lost.", '45 s')
h('C02', "As C01, with the iterator released after every number of calls, with the caller holding 0-2 batches, on every interleaving.",
  "Release returns, all threads have ended, every block allocated by the iterator is freed exactly once (allocation shadow of the scheduler run-time), all files closed, no access to freed memory.",
  "The tests only drop drained iterators.", '35 s')
h('C03', "Every small multi-threaded program over the queue's four operations is generated and all its schedules (preemption bound, one spurious wakeup) are run on the real template.",
  "Linearisability of each history against a sequential bounded FIFO (list operations may interleave element-wise), and for schedules that end blocked: every blocked operation must be disabled in the abstract queue.",
  "Lost wakeups need a specific order of two waiters.", '60 s')
h('C04', "All record sequences over a boundary alphabet are written and read back by the real code; each file is then cut at every byte (crash points) and read again.",
  "The records handed to the writer, bit for bit; after a cut exactly the records wholly before it.", "No test reads a torn file.", '16 s')
h('C05', "All ascending lists over the group-boundary values of each width.", "A reference coder written from the format, plus identity of decode(encode).", "The test decodes one list.", '4 s')
h('C06', "All short strings over two character alphabets as lines of both formats, all number spellings in all positions, all feature orders, all line lengths around the buffer growth points, all small files with all rewind positions.",
  "An independent grammar that classifies a line as accepted (with the record, computed by strtod), rejected or unspecified.", "The tests read one good file per format.", '32 s')
h('C07', "All small data sets x tools x format pairs x options, on the library functions, the C interface and the executables; every split of up to 40 records into up to 45 folds.",
  "The input records; text output to six digits; independent counts for the analysis. The seed of shuffling is enumerated by replacing std::random_device.", "No test runs a tool.", '20 s')
h('C08', "All histories of examples, saves and restores up to a depth over every algorithm and parameter setting; models trained through Train on several data sets and saved right away; all parameters x values.",
  "A reference learner that is never saved runs beside the real one; reported parameters, predictions, sparsity and the re-saved file are compared at each restore and the scores of all later examples.",
  "Learning state that is lost on saving only shows when training goes on after a restore.", '60 s')
h('C09', "Every truncation of every algorithm's model file (followed by nothing, zero bytes or a newline), zeroed blocks, every byte of the header replaced and removed, every value and vector removed, added, replaced; restored under address sanitiser with a watchdog.",
  "A cut file is refused or equals the saved model; a changed file is refused or gives exactly the model that the file's remaining text describes.", "No test restores a model, let alone a damaged one.", '20 s')
h('C10', "All training sequences up to a depth for every configuration.", "Double-precision reference of the update rule, written densely (`reflearn.h`); scores before every update, label, counters and final weights.",
  "Rules differ only on particular successions (a kink, an update after growth of the dimension, the second step of a decaying rate).", '22 s')
h('C11', "As C10 for sop, cw, eccw, arow, with finalisation (testing) as a further step.", "As C10, and the variances read from the saved model: positive, never growing, unchanged for absent features.", "As C10.", '50 s')
h('C12', "As C10 for the nine sparse learners, with finalisation as a further step.", "A dense reference that regularises every coordinate at every step, without time stamps.",
  "The lazy bookkeeping is wrong only for features that pause, return, or appear late.", '28 s')
h('C13', "As C10 for the five selecting learners and 0-3 kept features.", "The reference update, then a ranking check of kept against dropped features with ties interchangeable.", "As C12.", '20 s')
h('C14', "All value arrays and operation sequences up to a depth, both orders, every K.", "The member set of a sorted copy; positions form a bijection; displaced element = change of membership.", "No test runs the heap.", '40 s')
h('C15', "All operands over a value alphabet for every expression form used by the learners, all sparse index sets, all histories of storage operations on two handles.", "The scalar formula per coordinate; a model of shared and independent storage; allocation balance; address sanitiser.", "The tests evaluate a few expressions of fixed size.", '40 s')
h('C16', "All short example sequences x all splits into calls and sources x formats, batch sizes, buffers, interfaces; all pairs of models in one process; and all schedules of the reader threads during training of selected models (second pass under the scheduler).",
  "Example-wise training of a twin; weights bit by bit (from the saved file and predictions), error, counters, saved file.", "A dependency on batch boundaries, passes or thread timing needs that configuration.", '50 s')
h('C17', "All weight matrices over small alphabets (written as model files) x all records over known and unknown features; all small test sets x batch sizes; every algorithm after every training prefix, tested and continued; all schedules of the reader during a test (second pass).",
  "Exact evaluation of the weights; an untested twin for 'never changes it'.", "No test predicts.", '30 s')
h('C18', "All score vectors over an alphabet with ties, kinks, saturation bounds and extremes x labels x margins.", "Definitions in double precision (`refloss.h`).", "No test evaluates a loss.", '7 s')
h('C19', "All (algorithm, parameter, value) and all ordered pairs of settings, on fresh models and in mid-training, C++ and C interface, executables.", "A model of the parameter map; a twin model for 'unchanged after refusal' and for 'trains with it'.", "No test sets a parameter.", '55 s')
h('C20', "All small records x labels x selections x norms; all selection files of up to 4 lines over 12 kinds of line; every algorithm trained, tested, predicted and restored on raw and on prepared data.", "Independent preparation; twin trained on prepared data.", "No test runs preprocessing.", '15 s')
h('C21', "All small dense arrays and sparse matrices x strides, layouts, orders, passes, geometry; about 90 malformed descriptions per kind.", "The records computed from the array; arrays sit in exactly sized heap blocks under address sanitiser and are compared with a copy.", "No test loads an array.", '12 s')
h('C22', "Fault injection: the storage refuses writes after byte N for every N of every output of every operation, plus missing directories and a full device.", "Success is reported exactly when the complete, fault-free output is there.", "No test injects a failure.", '20 s')
h('C28', "Fault injection: the storage fails after byte N for every N of every data file, in pieces of three sizes, once or for good, in the first or second pass; reader, iterator and tools run on it.", "Only records that lie wholly before the fault are delivered, in order, and the reader ends with an error status, never with the end of the data; read again without the fault, all records come.", "No test injects a failure.", '30 s')
h('C23', "All short histories x all splits into calls x display schedules, for every algorithm; long runs over schedule boundaries; sol_train's printed table.", "Counts derived from an example-wise twin and the schedule's definition.", "No test looks at the callbacks.", '62 s')
h('C24', "All histories of up to 3 of 17 calls on the real binding (built by Cython from the tree), 10 array and 4 label layouts, 9 sizes, every call on objects without a model.", "The same history on the C interface (ctypes) fed with text files; every model, iterator and handler is counted by a shim between binding and library; freed memory is overwritten.", "A lifetime error needs a call sequence and an allocation in between; a layout error needs a non-contiguous array.", '40 s')
h('C25', "All schedules with up to 1 (smallest scenarios: 2) delays of worker processes, main process and queue feeders, under a stand-in for multiprocessing, for grids of 1-4 combinations x 1-3 workers x folds x passes x reuse; all histories of up to 3 of 14 data set requests; all histories of up to 2 of 8 trainings with the real library; 432 command lines of the two scripts.", "Direct computation of every fold's score by a recording stand-in for the model class; the records of the source file; a directly trained model, byte by byte.", "The order in which workers deliver, and what an earlier request left in the cache directory, decide the result.", '65 s')
h('C26', "Every command line of sol_train with up to 3 of 9 options over 2-5 values (up to 2 options: in 4 spellings x 4 placements; twice the same option), the full product of sol_test's options, and of the data tools' options over all format pairs, run with the real executables; every single mistake in a command line (about 90 kinds) in every spelling and placement.", "The library called with the settings meant, byte by byte for models, predictions and files; for mistakes: own end, non-zero status, earlier output untouched.", "An option ignored, mapped to the wrong setting, or effective only in one spelling or with another option is not seen by tests that call the library.", "40 s")
h('C27', "All histories of up to 2 of 24 comparisons and of 48 feature selection experiments over one result file, on the real scripts with recording stand-ins for library, cross validation, clock and plotting; all dimensions, penalties, labels of the scripts for other learners with stand-ins for those programs; every parameter combination of the shipped configurations and 28 whole experiments on the real library.", "A reference that keeps, per learner, the rows that the last run with its own parameters measured; results, table, figures, calls and arguments are compared.", "What an experiment reports depends on what earlier ones left in the result file.", "14 s")
